// Common header of the QtCore model (compiled to bitcode against the installed Qt headers).
#pragma once
#include <QtCore/QtCore>
#include "../env/vp.h"
extern "C" { uint64_t vp_dtoa(double, char *, int, int); double vp_atod(const char *); }
#define MODEL_TODO(what) vp_fail("not modelled: " what)
