// Included in front of the sources of a program: its main() and the calls that reach outside of the process.
#pragma once
#include <cstdio>
#include <csignal>
#include <stdio.h>
#include <signal.h>
struct VpArg { const char *s; long v; };
static inline VpArg vp_arg(const char *s) { return VpArg{ s, 0 }; }
static inline VpArg vp_arg(char *s) { return VpArg{ s, 0 }; }
template <typename T> static inline VpArg vp_arg(T v) { return VpArg{ nullptr, (long)v }; }
extern "C" void vp_fprintf0(const char *f, int n, const VpArg *s);
template <typename... A> static inline int vp_fprintf(FILE *, const char *f, A... a) { const VpArg l[] = { vp_arg(a)..., VpArg{ nullptr, 0 } }; vp_fprintf0(f, sizeof...(A), l); return 1; }
template <typename... A> static inline int vp_printf(const char *f, A... a) { return vp_fprintf(nullptr, f, a...); }
static inline int vp_fputs(const char *s, FILE *) { return vp_fprintf(nullptr, "%s", s); }
static inline int vp_puts(const char *s) { return vp_fprintf(nullptr, "%s\n", s); }
static inline int vp_fflush(FILE *) { return 0; }
extern "C" void (*vp_signal(int no, void (*h)(int)))(int);
extern "C" int program_main(int, char **);
#define fprintf(...) vp_fprintf(__VA_ARGS__)
#define printf(...) vp_printf(__VA_ARGS__)
#define fputs(s, f) vp_fputs(s, f)
#define puts(s) vp_puts(s)
#define fflush(f) vp_fflush(f)
#define signal(n, h) vp_signal(n, h)
#define main program_main
