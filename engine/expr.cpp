#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <cstring>
#include <set>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

namespace {
struct Key { K k; uint16_t w; uint64_t cv; E a, b, c; };
struct Hash { size_t operator()(const Expr *e) const {
    uint64_t h = (uint64_t)e->k * 0x9E3779B97F4A7C15ull ^ ((uint64_t)e->width << 40) ^ (e->cv * 0xC2B2AE3D27D4EB4Full);
    h ^= (e->a ? e->a->id : 0) * 0x165667B19E3779F9ull; h = (h << 13) | (h >> 51);
    h ^= (e->b ? e->b->id : 0) * 0x27D4EB2F165667C5ull; h = (h << 17) | (h >> 47);
    h ^= (e->c ? e->c->id : 0) * 0x9E3779B185EBCA87ull;
    return h ^ (h >> 29); } };
struct Eq_ { bool operator()(const Expr *x, const Expr *y) const {
    return x->k == y->k && x->width == y->width && x->cv == y->cv && x->a == y->a && x->b == y->b && x->c == y->c; } };
std::unordered_set<Expr *, Hash, Eq_> table;
std::vector<Expr *> arenas; size_t arenaPos = 0; const size_t AR = 8192;
uint32_t nextId = 1; uint32_t gen = 1;
E intern(K k, unsigned w, uint64_t cv, E a = nullptr, E b = nullptr, E c = nullptr) {
    Expr t{}; t.k = k; t.width = (uint16_t)w; t.cv = cv; t.a = a; t.b = b; t.c = c; t.id = 0;
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    if (arenas.empty() || arenaPos == AR) { arenas.push_back((Expr *)malloc(sizeof(Expr) * AR)); arenaPos = 0; }
    Expr *e = new (&arenas.back()[arenaPos++]) Expr(t);
    e->id = nextId++;
    table.insert(e);
    return e;
}
}
size_t exprCount() { return table.size(); }

E mkConst(uint64_t v, unsigned w) { if (w > 64) { fprintf(stderr, "const wider than 64\n"); abort(); } return intern(K::Const, w, v & maskw(w)); }
E mkVar(unsigned n, unsigned w) { return intern(K::Var, w, n); }

uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w); a &= m; b &= m;
    switch (k) {
    case K::Add: return (a + b) & m; case K::Sub: return (a - b) & m; case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? a / b : m; case K::URem: return b ? a % b : a;
    case K::SDiv: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case K::SRem: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case K::And: return a & b; case K::Or: return a | b; case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << b) & m; case K::LShr: return b >= w ? 0 : a >> b;
    case K::AShr: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case K::Eq: return a == b; case K::Ult: return a < b; case K::Ule: return a <= b;
    case K::Slt: return sextw(a, w) < sextw(b, w); case K::Sle: return sextw(a, w) <= sextw(b, w);
    default: abort();
    }
}

E mkNot(E a) {
    if (a->isConst()) return mkConst(~a->cv, a->width);
    if (a->width == 1) {
        switch (a->k) {
        case K::Ult: return mkBin(K::Ule, a->b, a->a);
        case K::Ule: return mkBin(K::Ult, a->b, a->a);
        case K::Slt: return mkBin(K::Sle, a->b, a->a);
        case K::Sle: return mkBin(K::Slt, a->b, a->a);
        default: break;
        }
    }
    return mkBin(K::Xor, a, mkConst(~0ull, a->width));
}
E mkNe(E a, E b) { return mkNot(mkBin(K::Eq, a, b)); }

static void segs(E e, std::vector<E> &out) { // low to high
    if (e->k == K::Concat) { segs(e->b, out); segs(e->a, out); }
    else if (e->k == K::ZExt) { segs(e->a, out); unsigned w = e->width - e->a->width; while (w > 64) { out.push_back(mkConst(0, 64)); w -= 64; } out.push_back(mkConst(0, w)); }
    else out.push_back(e);
}
static E tryOrMerge(E a, E b) {
    std::vector<E> x, y; segs(a, x); segs(b, y);
    if (x.size() == 1 && y.size() == 1) return nullptr;
    std::vector<E> out; size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
    while (i < x.size() && j < y.size()) {
        unsigned ri = x[i]->width - oi, rj = y[j]->width - oj, w = std::min(ri, rj);
        E p = mkExtract(x[i], oi, w), q = mkExtract(y[j], oj, w);
        if (p->isConst() && p->cv == 0) out.push_back(q);
        else if (q->isConst() && q->cv == 0) out.push_back(p);
        else if (p->isConst() && q->isConst()) out.push_back(mkConst(p->cv | q->cv, w));
        else return nullptr;
        oi += w; oj += w;
        if (oi == x[i]->width) { i++; oi = 0; }
        if (oj == y[j]->width) { j++; oj = 0; }
    }
    E r = out[0];
    for (size_t n = 1; n < out.size(); n++) r = mkConcat(out[n], r);
    return r;
}

E mkBin(K k, E a, E b) {
    unsigned w = a->width;
    if (a->width != b->width) { fprintf(stderr, "width mismatch in mkBin %d %u %u\n", (int)k, a->width, b->width); abort(); }
    bool cmp = k >= K::Eq && k <= K::Sle;
    unsigned rw = cmp ? 1 : w;
    if (a->isConst() && b->isConst()) return mkConst(foldBin(k, a->cv, b->cv, w), rw);
    bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
    if (comm) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
    uint64_t m = maskw(w);
    bool cb = b->isConst(); uint64_t vb = cb ? b->cv : 0;
    bool ca = a->isConst(); uint64_t va = ca ? a->cv : 0;
    switch (k) {
    case K::Add:
        if (cb && vb == 0) return a;
        if (cb && a->k == K::Add && a->b->isConst()) return mkBin(K::Add, a->a, mkConst(a->b->cv + vb, w));
        if (cb && a->k == K::Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkConst(a->b->cv + vb, w), mkConst(a->c->cv + vb, w));
        break;
    case K::Sub:
        if (a == b) return mkConst(0, w);
        if (cb) return mkBin(K::Add, a, mkConst(0 - vb, w));
        break;
    case K::Mul:
        if (cb && vb == 0) return b;
        if (cb && vb == 1) return a;
        if (cb && (vb & (vb - 1)) == 0) return mkBin(K::Shl, a, mkConst(__builtin_ctzll(vb), w));
        break;
    case K::UDiv:
        if (cb && vb == 1) return a;
        if (cb && vb && (vb & (vb - 1)) == 0) return mkBin(K::LShr, a, mkConst(__builtin_ctzll(vb), w));
        break;
    case K::URem:
        if (cb && vb == 1) return mkConst(0, w);
        if (cb && vb && (vb & (vb - 1)) == 0) return mkBin(K::And, a, mkConst(vb - 1, w));
        if (a->k == K::ZExt && cb && a->a->width < 64 && vb > maskw(a->a->width)) return a;
        break;
    case K::SDiv: if (cb && vb == 1) return a; break;
    case K::SRem: if (cb && vb == 1) return mkConst(0, w); break;
    case K::And:
        if (cb && vb == 0) return b;
        if (cb && vb == m) return a;
        if (a == b) return a;
        if (cb && w > 1) {
            if (((vb + 1) & vb) == 0) return mkZExt(mkExtract(a, 0, 64 - __builtin_clzll(vb)), w);
            // contiguous mask of bytes: split
            unsigned lo = __builtin_ctzll(vb); uint64_t t = vb >> lo;
            if (((t + 1) & t) == 0 && lo) { unsigned n = 64 - __builtin_clzll(t); E mid = mkExtract(a, lo, n); E r = mkConcat(mid, mkConst(0, lo)); return mkZExt(r, w); }
            if (a->k == K::And && a->b->isConst()) return mkBin(K::And, a->a, mkConst(a->b->cv & vb, w));
            if (a->k == K::ZExt && a->a->width <= 64) { uint64_t im = maskw(a->a->width); if ((vb & im) != vb || true) return mkZExt(mkBin(K::And, a->a, mkConst(vb & im, a->a->width)), w); }
        }
        if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
        break;
    case K::Or:
        if (cb && vb == 0) return a;
        if (cb && vb == m) return b;
        if (a == b) return a;
        if (w > 1) { if (E r = tryOrMerge(a, b)) return r; }
        else if (a == mkNot(b)) return mkConst(1, 1);
        break;
    case K::Xor:
        if (cb && vb == 0) return a;
        if (a == b) return mkConst(0, w);
        if (cb && a->k == K::Xor && a->b->isConst()) return mkBin(K::Xor, a->a, mkConst(a->b->cv ^ vb, w));
        if (w == 1 && cb && vb == 1) switch (a->k) {
            case K::Ult: return mkBin(K::Ule, a->b, a->a); case K::Ule: return mkBin(K::Ult, a->b, a->a);
            case K::Slt: return mkBin(K::Sle, a->b, a->a); case K::Sle: return mkBin(K::Slt, a->b, a->a); default: break; }
        if (cb && a->k == K::Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkConst(a->b->cv ^ vb, w), mkConst(a->c->cv ^ vb, w));
        break;
    case K::Shl:
        if (cb) { if (vb == 0) return a; if (vb >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - vb), mkConst(0, vb)); }
        if (ca && va == 0) return a;
        break;
    case K::LShr:
        if (cb) { if (vb == 0) return a; if (vb >= w) return mkConst(0, w); return mkZExt(mkExtract(a, vb, w - vb), w); }
        if (ca && va == 0) return a;
        break;
    case K::AShr:
        if (cb) { if (vb == 0) return a; if (vb >= w) vb = w - 1; return mkSExt(mkExtract(a, vb, w - vb), w); }
        if (ca && va == 0) return a;
        break;
    case K::Eq:
        if (a == b) return mkConst(1, 1);
        if (w == 1 && cb) return vb ? a : mkNot(a);
        if (cb) {
            if (a->k == K::ZExt) { if (a->a->width < 64 && vb > maskw(a->a->width)) return mkConst(0, 1); return mkBin(K::Eq, a->a, mkConst(vb, a->a->width)); }
            if (a->k == K::SExt) { uint64_t t = vb & maskw(a->a->width); if ((uint64_t)(sextw(t, a->a->width) & m) != vb) return mkConst(0, 1); return mkBin(K::Eq, a->a, mkConst(t, a->a->width)); }
            if (a->k == K::Concat) { unsigned lw = a->b->width; E l = mkBin(K::Eq, a->b, mkConst(vb & maskw(lw), lw)); if (l->isConst() && !l->cv) return l; E h = mkBin(K::Eq, a->a, mkConst(vb >> lw, a->a->width)); return mkBin(K::And, h, l); }
            if (a->k == K::Add && a->b->isConst()) return mkBin(K::Eq, a->a, mkConst(vb - a->b->cv, w));
            if (a->k == K::Xor && a->b->isConst()) return mkBin(K::Eq, a->a, mkConst(vb ^ a->b->cv, w));
            if (a->k == K::Ite && (a->b->isConst() || a->c->isConst())) {
                E x = mkBin(K::Eq, a->b, b), y = mkBin(K::Eq, a->c, b);
                if (x->isConst() && y->isConst()) { if (x->cv == y->cv) return x; return x->cv ? a->a : mkNot(a->a); }
                if (x->isConst()) return x->cv ? mkBin(K::Or, a->a, y) : mkBin(K::And, mkNot(a->a), y);
                return y->cv ? mkBin(K::Or, mkNot(a->a), x) : mkBin(K::And, a->a, x);
            }
            if (a->k == K::Sub && vb == 0) return mkBin(K::Eq, a->a, a->b);
        } else {
            if (a->k == K::ZExt && b->k == K::ZExt && a->a->width == b->a->width) return mkBin(K::Eq, a->a, b->a);
            if (a->k == K::SExt && b->k == K::SExt && a->a->width == b->a->width) return mkBin(K::Eq, a->a, b->a);
            if (a->k == K::Concat && b->k == K::Concat && a->b->width == b->b->width)
                return mkBin(K::And, mkBin(K::Eq, a->a, b->a), mkBin(K::Eq, a->b, b->b));
        }
        break;
    case K::Ult:
        if (a == b) return mkConst(0, 1);
        if (cb && vb == 0) return mkConst(0, 1);
        if (cb && vb == 1) return mkBin(K::Eq, a, mkConst(0, w));
        if (ca && va == m) return mkConst(0, 1);
        if (cb && a->k == K::ZExt) { unsigned iw = a->a->width; if (iw < 64 && vb > maskw(iw)) return mkConst(1, 1); return mkBin(K::Ult, a->a, mkConst(vb, iw)); }
        if (ca && b->k == K::ZExt) { unsigned iw = b->a->width; if (iw < 64 && va >= maskw(iw)) return mkConst(0, 1); return mkBin(K::Ult, mkConst(va, iw), b->a); }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->width == b->a->width) return mkBin(K::Ult, a->a, b->a);
        break;
    case K::Ule:
        if (a == b) return mkConst(1, 1);
        if (ca && va == 0) return mkConst(1, 1);
        if (cb && vb == m) return mkConst(1, 1);
        if (cb && vb == 0) return mkBin(K::Eq, a, b);
        if (cb && a->k == K::ZExt) { unsigned iw = a->a->width; if (iw < 64 && vb >= maskw(iw)) return mkConst(1, 1); return mkBin(K::Ule, a->a, mkConst(vb, iw)); }
        if (ca && b->k == K::ZExt) { unsigned iw = b->a->width; if (iw < 64 && va > maskw(iw)) return mkConst(0, 1); return mkBin(K::Ule, mkConst(va, iw), b->a); }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->width == b->a->width) return mkBin(K::Ule, a->a, b->a);
        break;
    case K::Slt: case K::Sle: {
        if (a == b) return mkConst(k == K::Sle, 1);
        K u = k == K::Slt ? K::Ult : K::Ule;
        bool za = a->k == K::ZExt && a->a->width < w, zb = b->k == K::ZExt && b->a->width < w;
        bool na = ca && (va >> (w - 1)) & 1, nb = cb && (vb >> (w - 1)) & 1;
        if ((za || (ca && !na)) && (zb || (cb && !nb))) return mkBin(u, a, b);
        if (za && nb) return mkConst(0, 1);
        if (na && zb) return mkConst(1, 1);
        if (a->k == K::SExt && cb) { unsigned iw = a->a->width; int64_t s = sextw(vb, w), lo = -(int64_t)(1ull << (iw - 1)), hi = (int64_t)((1ull << (iw - 1)) - 1);
            if (s > hi) return mkConst(1, 1); if (s < lo) return mkConst(0, 1); return mkBin(k, a->a, mkConst(vb, iw)); }
        if (b->k == K::SExt && ca) { unsigned iw = b->a->width; int64_t s = sextw(va, w), lo = -(int64_t)(1ull << (iw - 1)), hi = (int64_t)((1ull << (iw - 1)) - 1);
            if (s > hi) return mkConst(0, 1); if (s < lo) return mkConst(1, 1); return mkBin(k, mkConst(va, iw), b->a); }
        break; }
    default: break;
    }
    return intern(k, rw, 0, a, b);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->width + lo->width;
    if (hi->isConst() && lo->isConst() && w <= 64) return mkConst((hi->cv << lo->width) | lo->cv, w);
    if (hi->isConst() && hi->cv == 0) return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->cv == lo->cv + lo->width) return mkExtract(hi->a, lo->cv, w);
    // concat(x, concat(y, z)) with x,y adjacent extracts
    if (lo->k == K::Concat && hi->k == K::Extract && lo->a->k == K::Extract && hi->a == lo->a->a && hi->cv == lo->a->cv + lo->a->width)
        return mkConcat(mkExtract(hi->a, lo->a->cv, hi->width + lo->a->width), lo->b);
    if (lo->k == K::Concat && hi->isConst() && lo->a->isConst() && hi->width + lo->a->width <= 64) return mkConcat(mkConst((hi->cv << lo->a->width) | lo->a->cv, hi->width + lo->a->width), lo->b);
    if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-associate
    if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    return intern(K::Concat, w, 0, hi, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->width) return a;
    if (lo + w > a->width) { fprintf(stderr, "bad extract\n"); abort(); }
    switch (a->k) {
    case K::Const: return mkConst(a->cv >> lo, w);
    case K::Extract: return mkExtract(a->a, a->cv + lo, w);
    case K::Concat: {
        unsigned lw = a->b->width;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case K::ZExt: {
        unsigned iw = a->a->width;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
    case K::SExt: {
        unsigned iw = a->a->width;
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
        return mkSExt(mkExtract(a->a, iw - 1, 1), w); }
    case K::And: case K::Or: case K::Xor: return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Add: case K::Sub: case K::Mul: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case K::Ite: if (a->b->isConst() || a->c->isConst() || w <= 8) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    default: break;
    }
    return intern(K::Extract, w, lo, a);
}
E mkZExt(E a, unsigned w) {
    if (w == a->width) return a;
    if (a->isConst() && w <= 64) return mkConst(a->cv, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->k == K::Ite && a->b->isConst() && a->c->isConst() && w <= 64) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return intern(K::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
    if (w == a->width) return a;
    if (a->isConst() && w <= 64) return mkConst((uint64_t)sextw(a->cv, a->width), w);
    if (a->k == K::SExt) return mkSExt(a->a, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->k == K::Ite && a->b->isConst() && a->c->isConst() && w <= 64) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    if (a->width == 1 && w <= 64) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
    return intern(K::SExt, w, 0, a);
}
E mkIte(E c, E a, E b) {
    if (c->isConst()) return c->cv ? a : b;
    if (a == b) return a;
    if (c->k == K::Xor && c->b->isConst() && c->width == 1) return mkIte(c->a, b, a);
    if (a->width == 1) {
        if (a->isConst()) return a->cv ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
        if (b->isConst()) return b->cv ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
    }
    if (a->k == K::Ite && a->a == c) return mkIte(c, a->b, b);
    if (b->k == K::Ite && b->a == c) return mkIte(c, a, b->c);
    return intern(K::Ite, a->width, 0, c, a, b);
}

static std::set<std::vector<uint32_t>> varSets;
const std::vector<uint32_t> &exprVars(E e) {
    if (e->vars) return *e->vars;
    std::vector<uint32_t> r;
    if (e->k == K::Var) r.push_back((uint32_t)e->cv);
    else for (E s : {e->a, e->b, e->c}) if (s) {
        const auto &v = exprVars(s);
        if (r.empty()) r = v;
        else if (&v != nullptr && !v.empty()) { std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(t)); r.swap(t); }
    }
    e->vars = &*varSets.insert(r).first;
    return *e->vars;
}
void evalNewGen() { gen++; }
uint64_t evalMemo(E e, const Model &m) {
    if (e->k == K::Const) return e->cv;
    if (e->k == K::Var) return m.get((uint32_t)e->cv) & maskw(e->width);
    if (e->evalGen == gen) return e->evalVal;
    uint64_t r;
    switch (e->k) {
    case K::Concat: r = (evalMemo(e->a, m) << (e->b->width >= 64 ? 0 : e->b->width)) | evalMemo(e->b, m); break;
    case K::Extract: r = (evalMemo(e->a, m) >> e->cv) & maskw(e->width); break;
    case K::ZExt: r = evalMemo(e->a, m); break;
    case K::SExt: r = (uint64_t)sextw(evalMemo(e->a, m), e->a->width) & maskw(e->width); break;
    case K::Ite: r = evalMemo(e->a, m) ? evalMemo(e->b, m) : evalMemo(e->c, m); break;
    default: r = foldBin(e->k, evalMemo(e->a, m), evalMemo(e->b, m), e->a->width);
    }
    e->evalGen = gen; e->evalVal = r;
    return r;
}
uint64_t evalExpr(E e, const Model &m) { gen++; return evalMemo(e, m); }
std::string exprStr(E e, int d) {
    static const char *n[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","concat","extract","zext","sext","ite"};
    if (e->isConst()) { char b[40]; snprintf(b, 40, "0x%llx:%u", (unsigned long long)e->cv, e->width); return b; }
    if (e->k == K::Var) return "v" + std::to_string(e->cv) + ":" + std::to_string(e->width);
    if (d == 0) return "...";
    std::string r = std::string("(") + n[(int)e->k];
    if (e->k == K::Extract) r += "[" + std::to_string(e->cv) + "+" + std::to_string(e->width) + "]";
    for (E s : {e->a, e->b, e->c}) if (s) r += " " + exprStr(s, d - 1);
    return r + ")";
}
