// Helpers shared by the harnesses.
#pragma once
#include "env.h"
#include <string.h>
static inline void logb(const char *tag, const QByteArray &a) { vp_log(tag, a.constData(), a.size()); }
static inline void logs(const char *tag, const QString &s) { logb(tag, s.toUtf8()); }
static inline void logi(const char *tag, quint64 v) { vp_log(tag, &v, 8); }
static inline QByteArray symBytes(int n, const char *name) { QByteArray r(n, 0); char *d = r.data(); for (int i = 0; i < n; i++) d[i] = (char)vp_byte(name); return r; }
static inline bool eqBytes(const QByteArray &a, const QByteArray &b) { if (a.size() != b.size()) return false; const char *x = a.constData(), *y = b.constData(); bool e = true; for (int i = 0; i < a.size(); i++) e &= x[i] == y[i]; return e; }
// ---- payloads of all orders of magnitude: sizes around the powers of two and the limits in the code, three patterns, a symbolic byte
static const int SIZES[] = { 255, 256, 257, 1023, 1024, 1025, 4096, 4097, 10240, 10241, 65535, 65536, 65537, 16384, 16385, 32768, 15, 31, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1459, 1460, 1500, 2047, 2048, 2049, 4095, 5000, 8191, 8192, 8193, 10000, 10239, 16383, 20000, 32767, 32769, 40000, 65533, 65534, 70000, 100000 };
enum { NSIZES = sizeof SIZES / sizeof *SIZES, FEWSIZES = 13 };
static inline QByteArray pattern(int size, int kind) { QByteArray r(size, kind == 1 ? (char)0xC0 : 'a'); char *d = r.data(); if (kind == 0) for (int i = 0; i < size; i++) d[i] = (char)(i * 7 + (i >> 8)); return r; }
static inline QByteArray longBytes(int few, bool ascii = false) // few: only the first sizes
{
    int n = SIZES[vp_choice(few ? FEWSIZES : NSIZES, "size")], k = ascii ? 2 : vp_choice(3, "pattern"); QByteArray r = pattern(n, k); uint8_t b = vp_byte("byte"); if (ascii) vp_assume(b < 128 && b); int p = few ? (k + n) % 3 : vp_choice(3, "position"); r.data()[p == 0 ? 0 : p == 1 ? n / 2 : n - 1] = (char)b; return r;
}
// the reads a long stream arrives in
static inline int readSize(int total, int few = 0) { static const int R[] = { 0, 4096, -1, 1460, 16384, 65536 }; int r = R[vp_choice(few ? 3 : 6, "reads")]; return r == 0 ? total : r < 0 ? (total > 1 ? total - 1 : 1) : r; }
