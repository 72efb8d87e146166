// Interface between the harnesses / environment stand-ins and the symbolic engine (or, in the
// native replay build, vp_native.cpp).
#pragma once
#include <stdint.h>
extern "C" {
uint64_t vp_sym(int bits, const char *name);        // fresh symbolic value
void vp_assume(bool);
void vp_assert_(bool, const char *msg);
void vp_assert_known_(bool, const char *msg, const char *id);
void vp_cover(const char *label);                   // vacuity witness: must be reached
uint64_t vp_pick(uint64_t);                         // concretise by forking
uint64_t vp_param(const char *name, uint64_t dflt); // bound chosen by the driver
void vp_log(const char *tag, const void *p, uint64_t n); // observable output (cross-checked natively)
bool vp_is_symbolic(uint64_t);
int vp_engine();                                    // 1 in the engine, 0 in the native replay
void vp_done() __attribute__((noreturn));
void vp_print(const char *, uint64_t);
void vp_print_bytes(const char *, const void *, uint64_t);
void vp_where();
bool vp_alive(const void *);
uint64_t vp_live_heap();
void vp_fail(const char *msg) __attribute__((noreturn)); // the model does not cover this
}
#define vp_assert(c, msg) vp_assert_(!!(c), msg)
static inline uint8_t vp_byte(const char *n) { return (uint8_t)vp_sym(8, n); }
static inline bool vp_bool(const char *n) { return vp_pick(vp_sym(1, n)) != 0; }
static inline int vp_choice(int n, const char *name)
{
    int bits = 1;
    while ((1 << bits) < n)
        bits++;
    uint64_t v = vp_sym(bits, name);
    vp_assume(v < (uint64_t)n);
    return (int)vp_pick(v);
}
