// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>

enum class K : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat,   // a = high part, b = low part
    Extract,  // a, bits [cv, cv+width)
    ZExt, SExt,
    Ite       // a ? b : c
};

struct Expr {
    K k;
    uint16_t width;
    uint32_t id;
    uint64_t cv;            // Const: value; Var: variable number; Extract: low bit
    Expr *a, *b, *c;
    const std::vector<uint32_t> *vars = nullptr; // sorted variable numbers, lazily computed
    void *z3ast = nullptr;
    uint64_t evalVal = 0;
    uint32_t evalGen = 0;
    bool isConst() const { return k == K::Const; }
};
typedef Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

E mkConst(uint64_t v, unsigned w);
E mkVar(unsigned n, unsigned w);
E mkBin(K k, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E a);          // bitwise not (width 1: logical not)
E mkNe(E a, E b);
uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w);
const std::vector<uint32_t> &exprVars(E e);
struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; } };
uint64_t evalExpr(E e, const Model &m);   // resets memo each call unless within EvalScope
void evalNewGen();
uint64_t evalMemo(E e, const Model &m);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
