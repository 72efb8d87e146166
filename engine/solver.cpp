#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
SolverStats g_solverStats;
static Z3_context ctx; static Z3_solver slv;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
void solverInit() {
    Z3_global_param_set("rlimit", "0");
    Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, errh);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 60000000);
    Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast toBool(E e); static Z3_ast tr(E e);
static Z3_ast bv(E e) { // as bit-vector sort
    Z3_ast a = tr(e);
    if (e->width == 1) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); a = Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); }
    return a;
}
static Z3_ast tr(E e) { // width 1 -> Bool
    if (e->z3ast) return (Z3_ast)e->z3ast;
    Z3_ast r; unsigned w = e->width;
    auto fromBit = [&](Z3_ast x) { return w == 1 ? Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))) : x; };
    switch (e->k) {
    case K::Const: r = w == 1 ? (e->cv ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->cv, Z3_mk_bv_sort(ctx, w)); break;
    case K::Var: { char n[40]; snprintf(n, 40, "v%llu_%u", (unsigned long long)e->cv, w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)); break; }
    case K::Eq: r = e->a->width == 1 ? Z3_mk_iff(ctx, tr(e->a), tr(e->b)) : Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
    case K::Concat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    case K::Extract: r = fromBit(Z3_mk_extract(ctx, e->cv + w - 1, e->cv, bv(e->a))); break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, w - e->a->width, bv(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, w - e->a->width, bv(e->a)); break;
    case K::Ite: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    default:
        if (w == 1) {
            Z3_ast x[2] = {tr(e->a), tr(e->b)};
            if (e->k == K::And) { r = Z3_mk_and(ctx, 2, x); break; }
            if (e->k == K::Or) { r = Z3_mk_or(ctx, 2, x); break; }
            if (e->k == K::Xor || e->k == K::Add || e->k == K::Sub) { r = Z3_mk_xor(ctx, x[0], x[1]); break; }
            if (e->k == K::Mul) { r = Z3_mk_and(ctx, 2, x); break; }
        }
        { Z3_ast a = bv(e->a), b = bv(e->b);
        switch (e->k) {
        case K::Add: r = Z3_mk_bvadd(ctx, a, b); break; case K::Sub: r = Z3_mk_bvsub(ctx, a, b); break;
        case K::Mul: r = Z3_mk_bvmul(ctx, a, b); break; case K::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
        case K::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break; case K::URem: r = Z3_mk_bvurem(ctx, a, b); break;
        case K::SRem: r = Z3_mk_bvsrem(ctx, a, b); break; case K::And: r = Z3_mk_bvand(ctx, a, b); break;
        case K::Or: r = Z3_mk_bvor(ctx, a, b); break; case K::Xor: r = Z3_mk_bvxor(ctx, a, b); break;
        case K::Shl: r = Z3_mk_bvshl(ctx, a, b); break; case K::LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
        case K::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
        default: abort(); }
        r = fromBit(r); }
    }
    e->z3ast = keep(r);
    return r;
}
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct CacheEnt { Sat s; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

Sat solverCheck(const std::vector<E> &pc, E cond, Model &m) {
    if (cond->isConst()) return cond->cv ? Sat::Yes : Sat::No;
    // slice
    std::vector<uint32_t> vars = exprVars(cond);
    std::vector<E> sel; std::vector<char> used(pc.size(), 0);
    bool ch = true;
    std::vector<char> inset;
    auto add = [&](const std::vector<uint32_t> &vs) { for (auto v : vs) { if (v >= inset.size()) inset.resize(v + 1, 0); if (!inset[v]) { inset[v] = 1; } } };
    add(vars);
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
            const auto &vs = exprVars(pc[i]); bool hit = false;
            for (auto v : vs) if (v < inset.size() && inset[v]) { hit = true; break; }
            if (hit) { used[i] = 1; sel.push_back(pc[i]); add(vs); ch = true; }
        }
    }
    std::vector<uint32_t> key; for (E e : sel) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.push_back(cond->id);
    auto it = cache.find(key);
    if (it != cache.end()) {
        g_solverStats.cacheHits++;
        if (it->second.s == Sat::Yes) for (auto &p : it->second.vals) { if (p.first >= m.v.size()) m.v.resize(p.first + 1, 0); m.v[p.first] = p.second; }
        return it->second.s;
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_push(ctx, slv);
    for (E e : sel) Z3_solver_assert(ctx, slv, tr(e));
    Z3_solver_assert(ctx, slv, tr(cond));
    Z3_lbool r = Z3_solver_check(ctx, slv);
    Sat s = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
    CacheEnt ent{s, {}};
    if (s == Sat::Yes) {
        Z3_model zm = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, zm);
        // collect variables with widths
        std::map<uint32_t, E> vs;
        std::vector<E> st(sel); st.push_back(cond); std::unordered_map<uint32_t, bool> seen;
        while (!st.empty()) { E e = st.back(); st.pop_back(); if (seen[e->id]) continue; seen[e->id] = true; if (e->k == K::Var) vs[(uint32_t)e->cv] = e; for (E x : {e->a, e->b, e->c}) if (x) st.push_back(x); }
        for (auto &p : vs) {
            Z3_ast v = nullptr; uint64_t val = 0;
            if (Z3_model_eval(ctx, zm, tr(p.second), true, &v)) {
                if (p.second->width == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
                else Z3_get_numeral_uint64(ctx, v, &val);
            }
            ent.vals.push_back({p.first, val});
            if (p.first >= m.v.size()) m.v.resize(p.first + 1, 0);
            m.v[p.first] = val;
        }
        Z3_model_dec_ref(ctx, zm);
    }
    Z3_solver_pop(ctx, slv, 1);
    g_solverStats.queries++;
    (s == Sat::Yes ? g_solverStats.sat : s == Sat::No ? g_solverStats.unsat : g_solverStats.unknown)++;
    g_solverStats.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (cache.size() > 400000) cache.clear();
    cache.emplace(std::move(key), std::move(ent));
    return s;
}
