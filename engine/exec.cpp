#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <chrono>
#include <set>
#include <deque>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
using namespace llvm;

static Obj *const FREED = (Obj *)1;

struct Shared {
    std::atomic<int> active, stop, violations, errors, samples;
    std::atomic<uint64_t> paths, infeasible, steps, forks, queries, sat, unsat, unknown, cacheHits, solverUs, asserts, symAsserts, timeouts, incomplete, sampleSeq, statesTotal, procs, known;
    char fn[200000]; char cover[4096];
};
static Shared *sh;
static int outFd = 1;
static std::map<std::string, uint64_t> params;
static double timeLimit = 600; static uint64_t stepLimit = 60000000; static int maxProcs = 8; static int sampleEvery = 0, sampleMax = 30; static int maxViol = 6;
static bool verbose = false;
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

// ---------- memory objects ----------
static Obj *newObj(uint32_t size, uint8_t flags) {
    Obj *o = (Obj *)malloc(sizeof(Obj)); o->rc = 1; o->size = size; o->flags = flags; o->data = (uint8_t *)malloc(size ? size : 1); o->sym = nullptr; return o;
}
static void unrefObj(Obj *o) { if (o && o != FREED && --o->rc == 0) { free(o->data); free(o->sym); free(o); } }
static Obj *cloneObj(Obj *o) {
    Obj *n = newObj(o->size, o->flags); memcpy(n->data, o->data, o->size);
    if (o->sym) { n->sym = (E *)malloc(sizeof(E) * o->size); memcpy(n->sym, o->sym, sizeof(E) * o->size); }
    return n;
}
static void unrefChunk(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) unrefObj(o); free(c); } }
State::State(const State &o) : mem(o.mem), nextObj(o.nextObj), regs(o.regs), stack(o.stack), allocas(o.allocas), pc(o.pc), model(o.model), known(o.known), syms(o.syms), log(o.log), steps(o.steps), forks(o.forks), liveHeap(o.liveHeap), flags(o.flags) {
    for (auto c : mem) if (c) c->rc++;
}
State::~State() { for (auto c : mem) unrefChunk(c); }

static Chunk *chunkW(State &s, uint32_t ci) {
    if (ci >= s.mem.size()) s.mem.resize(ci + 1, nullptr);
    Chunk *&c = s.mem[ci];
    if (!c) { c = (Chunk *)calloc(1, sizeof(Chunk)); c->rc = 1; }
    else if (c->rc > 1) {
        Chunk *n = (Chunk *)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->rc = 1;
        for (auto o : n->o) if (o && o != FREED) o->rc++;
        c->rc--; c = n;
    }
    return c;
}
static inline Obj *getObj(State &s, uint32_t id) { uint32_t ci = id >> 6; if (ci >= s.mem.size() || !s.mem[ci]) return nullptr; return s.mem[ci]->o[id & 63]; }
static Obj *getObjW(State &s, uint32_t id) {
    Chunk *c = chunkW(s, id >> 6); Obj *&o = c->o[id & 63];
    if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; o = n; }
    return o;
}
static uint64_t allocObj(State &s, uint64_t size, uint8_t flags, int fill) {
    if (size > 0x40000000) throw PathEnd{"memory", "allocation of " + std::to_string(size) + " bytes"};
    uint32_t id = s.nextObj++;
    Obj *o = newObj((uint32_t)size, flags); if (fill >= 0) memset(o->data, fill, size);
    chunkW(s, id >> 6)->o[id & 63] = o;
    return (uint64_t)id << 32;
}
static void freeObj(State &s, uint32_t id) { Chunk *c = chunkW(s, id >> 6); unrefObj(c->o[id & 63]); c->o[id & 63] = FREED; }

struct Exec {
    LLVMContext lctx; std::unique_ptr<Module> mod; const DataLayout *dl = nullptr;
    std::vector<std::unique_ptr<CFunc>> funcs; std::unordered_map<const Function *, CFunc *> fmap;
    std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
    std::unordered_map<std::string, Builtin> builtins;
    std::vector<State *> work;
    std::map<std::string, int> coverIdx; 
    std::string curDesc;
    State *cur = nullptr;
    std::vector<pid_t> kids;
    double lastFork = 0;

    // ----- utilities
    E ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
    Val mk(E e) { if (e->isConst()) return cv(e->cv); return Val{0, e}; }
    Val simp(State &s, Val v) { if (v.e) { auto it = s.known.find(v.e->id); if (it != s.known.end()) return cv(it->second); } return v; }
    inline Val get(State &s, const Opnd &o, uint32_t base) { if (o.slot < 0) return cv(o.c); return s.regs[base + o.slot]; }

    void learn(State &s, E c, bool val) {
        s.known[c->id] = val;
        if (c->k == K::Xor && c->width == 1 && c->b->isConst()) { learn(s, c->a, !val); return; }
        if (val) {
            if (c->k == K::And && c->width == 1) { learn(s, c->a, true); learn(s, c->b, true); }
            if (c->k == K::Eq && c->b->isConst()) s.known[c->a->id] = c->b->cv;
        } else if (c->k == K::Or && c->width == 1) { learn(s, c->a, false); learn(s, c->b, false); }
    }
    void addPc(State &s, E c) {
        if (c->isConst()) return;
        if (c->k == K::And && c->width == 1) { addPc(s, c->a); addPc(s, c->b); s.known[c->id] = 1; return; }
        s.pc.push_back(c); learn(s, c, true); s.known[mkNot(c)->id] = 0;
    }
    // Decide a condition; forks if both outcomes are feasible. The clone re-executes the current instruction.
    bool decide(State &s, E c) {
        if (c->isConst()) return c->cv;
        auto it = s.known.find(c->id); if (it != s.known.end()) return it->second;
        bool v = evalExpr(c, s.model) != 0;
        E self = v ? c : mkNot(c), other = v ? mkNot(c) : c;
        Model m2 = s.model;
        Sat r = solverCheck(s.pc, other, m2);
        if (r == Sat::Unknown) { sh->timeouts++; sh->incomplete++; r = Sat::No; }
        if (r == Sat::Yes) {
            State *n = new State(s);
            n->model = m2; addPc(*n, other); n->forks++;
            work.push_back(n); sh->forks++;
            addPc(s, self); s.forks++;
        } else { learn(s, self, true); s.known[other->id] = 0; s.known[c->id] = v; }
        return v;
    }
    // Concretise: forks over all feasible values.
    uint64_t concretize(State &s, Val v, unsigned w) {
        v = simp(s, v);
        if (!v.e) return v.c;
        for (;;) {
            uint64_t k = evalExpr(v.e, s.model);
            E c = mkBin(K::Eq, v.e, mkConst(k, w));
            // current state always takes "== k"; the clone takes "!= k" and comes back here with another value
            if (decide(s, c)) return k;
        }
    }
    [[noreturn]] void err(const std::string &m) { throw PathEnd{"error", m}; }

    // ----- memory access
    Obj *resolve(State &s, uint64_t addr, uint64_t size, bool write, uint32_t &off) {
        uint32_t id = addr >> 32; off = (uint32_t)addr;
        Obj *o = getObj(s, id);
        if (id == 0) throw PathEnd{"memory", "null pointer access (address " + std::to_string(addr) + ")"};
        if (!o) throw PathEnd{"memory", "access through a wild pointer"};
        if (o == FREED) throw PathEnd{"memory", "use after free"};
        if (o->flags & OF_FUNC) throw PathEnd{"memory", "data access to a function"};
        if ((uint64_t)off + size > o->size) throw PathEnd{"memory", "out-of-bounds " + std::string(write ? "write" : "read") + " of " + std::to_string(size) + " bytes at offset " + std::to_string((int32_t)off) + " of an object of " + std::to_string(o->size) + " bytes"};
        if (write && (o->flags & OF_RO)) throw PathEnd{"memory", "write to read-only memory"};
        return o;
    }
    Val loadO(State &s, Obj *o, uint32_t off, unsigned bits) {
        unsigned n = (bits + 7) / 8;
        bool sym = false;
        if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
        if (!sym) { uint64_t v = 0; if (n > 8) err("load wider than 64 bits"); memcpy(&v, o->data + off, n); return cv(v & maskw(bits)); }
        if (n > 8) err("symbolic load wider than 64 bits");
        E e = o->sym[off] ? o->sym[off] : mkConst(o->data[off], 8);
        for (unsigned i = 1; i < n; i++) e = mkConcat(o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8), e);
        if (e->width > bits) e = mkExtract(e, 0, bits);
        return simp(s, mk(e));
    }
    void storeO(Obj *o, uint32_t off, Val v, unsigned bits) {
        unsigned n = (bits + 7) / 8;
        if (!v.e) {
            uint64_t c = v.c & maskw(bits); memcpy(o->data + off, &c, n);
            if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
            return;
        }
        if (!o->sym) o->sym = (E *)calloc(o->size ? o->size : 1, sizeof(E));
        E e = v.e; if (e->width < n * 8) e = mkZExt(e, n * 8);
        for (unsigned i = 0; i < n; i++) {
            E b = mkExtract(e, i * 8, 8);
            if (b->isConst()) { o->sym[off + i] = nullptr; o->data[off + i] = (uint8_t)b->cv; } else o->sym[off + i] = b;
        }
    }
    Val load(State &s, Val a, unsigned bits) {
        a = simp(s, a);
        unsigned n = (bits + 7) / 8;
        if (!a.e) { uint32_t off; Obj *o = resolve(s, a.c, n, false, off); return loadO(s, o, off, bits); }
        uint64_t k = evalExpr(a.e, s.model);
        uint32_t id = k >> 32; Obj *o = getObj(s, id);
        if (!o || o == FREED || (uint64_t)(uint32_t)k + n > o->size || o->size > 4096) { k = concretize(s, a, 64); uint32_t off; o = resolve(s, k, n, false, off); return loadO(s, o, off, bits); }
        // in bounds of this object?
        E lo = mkConst((uint64_t)id << 32, 64);
        E inb = mkBin(K::Ule, mkBin(K::Sub, a.e, lo), mkConst(o->size - n, 64));
        if (!decide(s, inb)) { k = concretize(s, a, 64); uint32_t off; o = resolve(s, k, n, false, off); return loadO(s, o, off, bits); }
        // stride
        E offE = mkBin(K::Sub, a.e, lo); unsigned stride = 1;
        while (stride < 64) { E low = mkExtract(offE, 0, __builtin_ctz(stride * 2)); if (low->isConst() && low->cv == ((k & 0xffffffff) & (stride * 2 - 1))) stride *= 2; else break; }
        unsigned start = (k & 0xffffffff) % stride;
        E r = nullptr;
        for (int64_t o2 = start + ((o->size - n - start) / stride) * stride; o2 >= (int64_t)start; o2 -= stride) {
            E v = ex(loadO(s, o, (uint32_t)o2, bits), bits);
            r = r ? mkIte(mkBin(K::Eq, offE, mkConst(o2, 64)), v, r) : v;
        }
        return simp(s, mk(r));
    }
    void store(State &s, Val a, Val v, unsigned bits) {
        uint64_t k = concretize(s, a, 64);
        uint32_t off; resolve(s, k, (bits + 7) / 8, true, off);
        storeO(getObjW(s, k >> 32), off, v, bits);
    }
    std::string cstr(State &s, uint64_t addr) {
        std::string r; if (!addr) return r;
        for (;;) { uint32_t off; Obj *o = resolve(s, addr, 1, false, off); char ch = (char)o->data[off]; if (!ch) break; r += ch; addr++; }
        return r;
    }
    void copyMem(State &s, uint64_t d, uint64_t p, uint64_t n) {
        if (!n) return;
        uint32_t so, dof; Obj *src = resolve(s, p, n, false, so); resolve(s, d, n, true, dof);
        Obj *dst = getObjW(s, d >> 32);
        src = getObj(s, p >> 32);
        memmove(dst->data + dof, src->data + so, n);
        if (src->sym || dst->sym) {
            bool any = dst->sym != nullptr;
            if (!any) for (uint64_t i = 0; i < n; i++) if (src->sym[so + i]) { any = true; break; }
            if (any) {
                if (!dst->sym) dst->sym = (E *)calloc(dst->size, sizeof(E));
                if (src->sym) memmove(dst->sym + dof, src->sym + so, n * sizeof(E)); else memset(dst->sym + dof, 0, n * sizeof(E));
            }
        }
    }
    E byteE(Obj *o, uint32_t off) { return o->sym && o->sym[off] ? o->sym[off] : mkConst(o->data[off], 8); }

    // ----- module set up
    void flatten(Type *t, uint32_t off, std::vector<Comp> &out) {
        if (auto *st = dyn_cast<StructType>(t)) { auto *sl = dl->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); }
        else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = dl->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out); }
        else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t eb = dl->getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({(uint32_t)(off + i * eb / 8), (uint16_t)eb}); }
        else if (t->isPointerTy()) out.push_back({off, 64});
        else if (t->isIntegerTy() || t->isFloatingPointTy()) out.push_back({off, (uint16_t)dl->getTypeSizeInBits(t)});
        else if (t->isVoidTy()) {}
        else if (t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {}
        else { out.push_back({off, 64}); }
    }
    std::unordered_map<Type *, std::vector<Comp>> flatCache;
    const std::vector<Comp> &flat(Type *t) { auto it = flatCache.find(t); if (it != flatCache.end()) return it->second; std::vector<Comp> v; flatten(t, 0, v); return flatCache[t] = v; }

    uint64_t globalAddr(const GlobalValue *g) {
        if (auto *al = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(al->getAliaseeObject()));
        if (auto *f = dyn_cast<Function>(g)) return funcOf(f)->addr;
        auto it = gaddr.find(cast<GlobalVariable>(g)); if (it != gaddr.end()) return it->second;
        fprintf(stderr, "unallocated global %s\n", g->getName().str().c_str()); abort();
    }
    CFunc *funcOf(const Function *f) {
        auto it = fmap.find(f); if (it != fmap.end()) return it->second;
        auto cf = std::make_unique<CFunc>(); cf->f = f; cf->name = f->getName().str(); cf->idx = funcs.size(); cf->addr = (1ull << 32) + 16 * (funcs.size() + 1);
        auto b = builtins.find(cf->name); if (b != builtins.end()) cf->builtin = b->second;
        if (auto *sp = f->getSubprogram()) { std::string fn = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) fn = sp->getFilename().str(); cf->repo = fn.rfind("/repo/", 0) == 0 || fn.find("/repo/") != std::string::npos; }
        CFunc *p = cf.get(); funcs.push_back(std::move(cf)); fmap[f] = p; return p;
    }
    void constFlat(const Constant *c, std::vector<uint64_t> &out) {
        Type *t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < flat(t).size(); i++) out.push_back(0); return; }
        if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (!ci->getValue().isIntN(64)) fprintf(stderr, "warning: wide const\n"); out.push_back(ci->getValue().getLoBits(64).getZExtValue()); } else out.push_back(ci->getZExtValue()); return; }
        if (isa<ConstantPointerNull>(c)) { out.push_back(0); return; }
        if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); out.push_back(b.getBitWidth() <= 64 ? b.getZExtValue() : 0); return; }
        if (auto *g = dyn_cast<GlobalValue>(c)) { out.push_back(globalAddr(g)); return; }
        if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ds->getNumElements(); i++) constFlat(ds->getElementAsConstant(i), out); return; }
        if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constFlat(cast<Constant>(c->getOperand(i)), out); return; }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) { out.push_back(constExpr(ce)); return; }
        if (isa<DSOLocalEquivalent>(c) || isa<NoCFIValue>(c)) { constFlat(cast<Constant>(c->getOperand(0)), out); return; }
        fprintf(stderr, "unhandled constant\n"); c->print(errs()); abort();
    }
    uint64_t constOne(const Constant *c) { std::vector<uint64_t> v; constFlat(c, v); return v.empty() ? 0 : v[0]; }
    uint64_t constExpr(const ConstantExpr *ce) {
        unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getScalarSizeInBits();
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto *gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*dl, off)) { fprintf(stderr, "gep constexpr\n"); abort(); } return constOne(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue(); }
        case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::ZExt: case Instruction::Trunc: return constOne(cast<Constant>(ce->getOperand(0))) & maskw(w);
        case Instruction::SExt: { auto *o = cast<Constant>(ce->getOperand(0)); return (uint64_t)sextw(constOne(o), o->getType()->getScalarSizeInBits()) & maskw(w); }
        default: {
            static const std::map<unsigned, K> ops = {{Instruction::Add, K::Add}, {Instruction::Sub, K::Sub}, {Instruction::Mul, K::Mul}, {Instruction::And, K::And}, {Instruction::Or, K::Or}, {Instruction::Xor, K::Xor}, {Instruction::Shl, K::Shl}, {Instruction::LShr, K::LShr}, {Instruction::AShr, K::AShr}};
            auto it = ops.find(ce->getOpcode()); if (it != ops.end()) return foldBin(it->second, constOne(cast<Constant>(ce->getOperand(0))), constOne(cast<Constant>(ce->getOperand(1))), w);
            if (ce->getOpcode() == Instruction::ICmp) { uint64_t a = constOne(cast<Constant>(ce->getOperand(0))), b = constOne(cast<Constant>(ce->getOperand(1))); auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; }
            if (ce->getOpcode() == Instruction::Select) return constOne(cast<Constant>(ce->getOperand(constOne(cast<Constant>(ce->getOperand(0))) ? 1 : 2)));
            ce->print(errs()); fprintf(stderr, "\nunhandled constexpr\n"); abort(); } }
    }
    void initGlobal(State &s, uint64_t addr, const Constant *c) {
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
        if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); Obj *o = getObjW(s, addr >> 32); memcpy(o->data + (uint32_t)addr, r.data(), r.size()); return; }
        if (auto *st = dyn_cast<ConstantStruct>(c)) { auto *sl = dl->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) initGlobal(s, addr + sl->getElementOffset(i), st->getOperand(i)); return; }
        if (auto *at = dyn_cast<ConstantArray>(c)) { uint64_t es = dl->getTypeAllocSize(at->getType()->getElementType()); for (unsigned i = 0; i < at->getNumOperands(); i++) initGlobal(s, addr + i * es, at->getOperand(i)); return; }
        std::vector<uint64_t> v; constFlat(c, v); const auto &fl = flat(c->getType());
        for (size_t i = 0; i < v.size(); i++) { Obj *o = getObjW(s, addr >> 32); storeO(o, (uint32_t)addr + fl[i].off, cv(v[i]), fl[i].bits); }
    }
    void setup(State &s) {
        // function pseudo object (id 1)
        Obj *fo = newObj(0, OF_FUNC | OF_RO); chunkW(s, 0)->o[1] = fo;
        for (auto &f : *mod) funcOf(&f);
        for (auto &g : mod->globals()) {
            if (g.getName().starts_with("llvm.")) { continue; }
            uint64_t sz = g.getValueType()->isSized() ? dl->getTypeAllocSize(g.getValueType()) : 64;
            if (!g.hasInitializer()) { if (sz < 256) sz = 256; if (verbose) fprintf(stderr, "external global: %s\n", g.getName().str().c_str()); }
            gaddr[&g] = allocObj(s, sz, OF_GLOBAL, 0);
        }
        for (auto &g : mod->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
            initGlobal(s, gaddr[&g], g.getInitializer());
            if (g.isConstant()) getObjW(s, gaddr[&g] >> 32)->flags |= OF_RO;
        }
    }

    // ----- compile
    struct FC { Exec *x; CFunc *f; std::unordered_map<const Value *, int32_t> slot; std::unordered_map<const BasicBlock *, uint32_t> bbpc; };
    std::deque<Edge> edges; std::deque<CallInfo> calls; std::deque<std::vector<std::pair<uint64_t, Edge *>>> switches; std::deque<std::vector<std::pair<Opnd, uint64_t>>> geps; std::deque<std::vector<Comp>> layouts; std::deque<std::vector<Opnd>> opvecs; std::deque<std::string> strs;

    Opnd op1(FC &c, const Value *v, unsigned i = 0) {
        if (auto *k = dyn_cast<Constant>(v)) { std::vector<uint64_t> f; constFlat(k, f); return Opnd{-1, i < f.size() ? f[i] : 0}; }
        auto it = c.slot.find(v); if (it == c.slot.end()) { fprintf(stderr, "no slot for value in %s\n", c.f->name.c_str()); v->print(errs()); abort(); }
        return Opnd{it->second + (int)i, 0};
    }
    Edge *edge(FC &c, const BasicBlock *from, const BasicBlock *to) {
        edges.emplace_back(); Edge *e = &edges.back(); e->pc = c.bbpc[to];
        for (auto &phi : to->phis()) {
            const Value *in = phi.getIncomingValueForBlock(from); unsigned n = flat(phi.getType()).size();
            for (unsigned i = 0; i < n; i++) { Move m{c.slot[&phi] + (int)i, op1(c, in, i)}; if (m.src.slot != m.dst) e->moves.push_back(m); }
        }
        return e;
    }
    void compile(CFunc *cf) {
        const Function &F = *cf->f; FC c; c.x = this; c.f = cf; uint32_t ns = 0;
        for (auto &a : F.args()) { c.slot[&a] = ns; cf->argBase.push_back(ns); ns += flat(a.getType()).size(); }
        for (auto &bb : F) for (auto &i : bb) if (!i.getType()->isVoidTy()) { c.slot[&i] = ns; ns += flat(i.getType()).size(); }
        cf->nslots = ns;
        // two passes: count instructions per block first (1 CI per instruction except phis)
        uint32_t pc = 0;
        for (auto &bb : F) { c.bbpc[&bb] = pc; for (auto &i : bb) { if (isa<PHINode>(i)) continue; pc += ciCount(i); } }
        for (auto &bb : F) for (auto &i : bb) { if (isa<PHINode>(i)) continue; size_t before = cf->code.size(); gen(c, i); if (cf->code.size() - before != ciCount(i)) { fprintf(stderr, "ciCount mismatch\n"); abort(); } }
        cf->compiled = true;
    }
    unsigned ciCount(const Instruction &i) {
        if (i.getType()->isVectorTy() || (i.getNumOperands() && i.getOperand(0)->getType()->isVectorTy())) {
            if (isa<BinaryOperator>(i) || isa<ICmpInst>(i) || isa<FCmpInst>(i) || isa<CastInst>(i) ) { unsigned n = flat(i.getType()).size(); if (isa<BitCastInst>(i)) return 1; return n; }
            if (isa<SelectInst>(i)) return flat(i.getType()).size();
            if (isa<ShuffleVectorInst>(i)) return flat(i.getType()).size();
            if (isa<InsertElementInst>(i)) return flat(i.getType()).size();
            return 1;
        }
        if (isa<SelectInst>(i)) return std::max<size_t>(1, flat(i.getType()).size());
        if (isa<ExtractValueInst>(i) || isa<FreezeInst>(i)) return std::max<size_t>(1, flat(i.getType()).size());
        if (isa<InsertValueInst>(i)) return std::max<size_t>(1, flat(i.getType()).size());
        return 1;
    }
    static unsigned scalarW(Type *t) { if (t->isVectorTy()) t = cast<VectorType>(t)->getElementType(); if (t->isPointerTy()) return 64; return t->getPrimitiveSizeInBits(); }
    unsigned flatIndex(Type *t, ArrayRef<unsigned> idx, Type *&res) {
        unsigned n = 0;
        for (unsigned i : idx) {
            if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += flat(st->getElementType(k)).size(); t = st->getElementType(i); }
            else { auto *at = cast<ArrayType>(t); n += i * flat(at->getElementType()).size(); t = at->getElementType(); }
        }
        res = t; return n;
    }
    void gen(FC &c, const Instruction &I) {
        auto &code = c.f->code; CI ci{}; ci.src = &I; ci.dst = I.getType()->isVoidTy() ? -1 : c.slot[&I];
        auto unsup = [&](const char *why) { ci.op = O_UNSUP; strs.push_back(std::string(why) + ": " + I.getOpcodeName()); ci.ext = &strs.back(); unsigned n = ciCount(I); for (unsigned k = 0; k < n; k++) code.push_back(ci); };
        if (auto *b = dyn_cast<BinaryOperator>(&I)) {
            unsigned n = flat(I.getType()).size(); unsigned w = scalarW(I.getType());
            if (w > 64) return unsup("wide integer");
            for (unsigned k = 0; k < n; k++) {
                ci.w = w; ci.a = op1(c, b->getOperand(0), k); ci.b = op1(c, b->getOperand(1), k); ci.dst = c.slot[&I] + k;
                if (I.getType()->isFPOrFPVectorTy()) { ci.op = O_FBIN; ci.sub = b->getOpcode(); }
                else {
                    ci.op = O_BIN; K kk;
                    switch (b->getOpcode()) {
                    case Instruction::Add: kk = K::Add; break; case Instruction::Sub: kk = K::Sub; break; case Instruction::Mul: kk = K::Mul; break;
                    case Instruction::UDiv: kk = K::UDiv; break; case Instruction::SDiv: kk = K::SDiv; break; case Instruction::URem: kk = K::URem; break; case Instruction::SRem: kk = K::SRem; break;
                    case Instruction::Shl: kk = K::Shl; break; case Instruction::LShr: kk = K::LShr; break; case Instruction::AShr: kk = K::AShr; break;
                    case Instruction::And: kk = K::And; break; case Instruction::Or: kk = K::Or; break; default: kk = K::Xor; }
                    ci.sub = (uint16_t)kk; }
                code.push_back(ci);
            }
            return;
        }
        if (auto *p = dyn_cast<ICmpInst>(&I)) {
            unsigned n = flat(I.getType()).size(), w = scalarW(p->getOperand(0)->getType()); if (w > 64) return unsup("wide integer");
            for (unsigned k = 0; k < n; k++) { ci.op = O_ICMP; ci.w = w; ci.sub = p->getPredicate(); ci.a = op1(c, p->getOperand(0), k); ci.b = op1(c, p->getOperand(1), k); ci.dst = c.slot[&I] + k; code.push_back(ci); }
            return;
        }
        if (auto *p = dyn_cast<FCmpInst>(&I)) { unsigned n = flat(I.getType()).size(); for (unsigned k = 0; k < n; k++) { ci.op = O_FCMP; ci.w = scalarW(p->getOperand(0)->getType()); ci.sub = p->getPredicate(); ci.a = op1(c, p->getOperand(0), k); ci.b = op1(c, p->getOperand(1), k); ci.dst = c.slot[&I] + k; code.push_back(ci); } return; }
        if (auto *ca = dyn_cast<CastInst>(&I)) {
            Type *st = ca->getSrcTy(), *dt = ca->getDestTy(); unsigned n = flat(dt).size();
            if (isa<BitCastInst>(ca) && flat(st).size() != n) return unsup("vector bitcast");
            if (isa<BitCastInst>(ca) && n > 1) { // lane-wise copy through multiple COPY in one CI
                ci.op = O_COPY; ci.n = n; ci.a = op1(c, ca->getOperand(0)); ci.sub = 1; code.push_back(ci); return; }
            if (scalarW(st) > 64 || scalarW(dt) > 64) return unsup("wide integer");
            for (unsigned k = 0; k < n; k++) {
                ci.a = op1(c, ca->getOperand(0), k); ci.dst = c.slot[&I] + k; ci.w = scalarW(st); ci.w2 = scalarW(dt);
                switch (ca->getOpcode()) {
                case Instruction::ZExt: ci.op = O_ZEXT; break; case Instruction::SExt: ci.op = O_SEXT; break; case Instruction::Trunc: ci.op = OP_TRUNC; break;
                case Instruction::PtrToInt: ci.op = ci.w2 < 64 ? OP_TRUNC : O_COPY; break; case Instruction::IntToPtr: ci.op = ci.w < 64 ? O_ZEXT : O_COPY; break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast: ci.op = O_COPY; break;
                default: ci.op = O_FCAST; ci.sub = ca->getOpcode(); }
                code.push_back(ci);
            }
            return;
        }
        if (auto *l = dyn_cast<LoadInst>(&I)) {
            const auto &fl = flat(l->getType()); for (auto &k : fl) if (k.bits > 64) return unsup("wide load");
            ci.op = O_LOAD; ci.a = op1(c, l->getPointerOperand()); ci.n = fl.size(); if (fl.size() == 1) { ci.w = fl[0].bits; } else { layouts.push_back(fl); ci.ext = &layouts.back(); }
            code.push_back(ci); return;
        }
        if (auto *st = dyn_cast<StoreInst>(&I)) {
            const auto &fl = flat(st->getValueOperand()->getType()); for (auto &k : fl) if (k.bits > 64) return unsup("wide store");
            ci.op = O_STORE; ci.a = op1(c, st->getPointerOperand()); ci.n = fl.size(); ci.w = fl.empty() ? 0 : fl[0].bits;
            if (fl.size() == 1) ci.b = op1(c, st->getValueOperand());
            else { layouts.push_back(fl); ci.ext = &layouts.back(); opvecs.emplace_back(); for (unsigned k = 0; k < fl.size(); k++) opvecs.back().push_back(op1(c, st->getValueOperand(), k)); ci.imm = (uint64_t)&opvecs.back(); }
            code.push_back(ci); return;
        }
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            if (g->getType()->isVectorTy()) return unsup("vector gep");
            ci.op = O_GEP; ci.a = op1(c, g->getPointerOperand()); uint64_t off = 0; geps.emplace_back();
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                const Value *ix = it.getOperand();
                if (auto *st = it.getStructTypeOrNull()) { off += dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                uint64_t es = dl->getTypeAllocSize(it.getIndexedType());
                if (auto *k = dyn_cast<ConstantInt>(ix)) off += es * (uint64_t)k->getSExtValue();
                else { Opnd o = op1(c, ix); unsigned w = ix->getType()->getIntegerBitWidth(); geps.back().push_back({o, es | ((uint64_t)w << 48)}); }
            }
            ci.imm = off; ci.ext = geps.back().empty() ? nullptr : &geps.back(); code.push_back(ci); return;
        }
        if (auto *b = dyn_cast<BranchInst>(&I)) {
            if (b->isUnconditional()) { ci.op = O_BR; ci.ext = edge(c, I.getParent(), b->getSuccessor(0)); }
            else { ci.op = O_CBR; ci.a = op1(c, b->getCondition()); ci.ext = edge(c, I.getParent(), b->getSuccessor(0)); ci.imm = (uint64_t)edge(c, I.getParent(), b->getSuccessor(1)); }
            code.push_back(ci); return;
        }
        if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            ci.op = O_SWITCH; ci.a = op1(c, sw->getCondition()); ci.w = sw->getCondition()->getType()->getIntegerBitWidth();
            switches.emplace_back(); for (auto &k : sw->cases()) switches.back().push_back({k.getCaseValue()->getZExtValue(), edge(c, I.getParent(), k.getCaseSuccessor())});
            ci.ext = &switches.back(); ci.imm = (uint64_t)edge(c, I.getParent(), sw->getDefaultDest()); code.push_back(ci); return;
        }
        if (auto *r = dyn_cast<ReturnInst>(&I)) {
            ci.op = O_RET; ci.n = 0;
            if (r->getReturnValue()) { unsigned n = flat(r->getReturnValue()->getType()).size(); ci.n = n; opvecs.emplace_back(); for (unsigned k = 0; k < n; k++) opvecs.back().push_back(op1(c, r->getReturnValue(), k)); ci.ext = &opvecs.back(); }
            code.push_back(ci); return;
        }
        if (auto *sl = dyn_cast<SelectInst>(&I)) {
            unsigned n = std::max<size_t>(1, flat(I.getType()).size()); bool vc = sl->getCondition()->getType()->isVectorTy();
            const auto fl = flat(I.getType());
            for (unsigned k = 0; k < n; k++) { ci.op = O_SELECT; ci.w = fl[k].bits; ci.a = op1(c, sl->getCondition(), vc ? k : 0); ci.b = op1(c, sl->getTrueValue(), k); ci.c = op1(c, sl->getFalseValue(), k); ci.dst = c.slot[&I] + k; code.push_back(ci); }
            return;
        }
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            Type *rt; unsigned b = flatIndex(ev->getAggregateOperand()->getType(), ev->getIndices(), rt), n = flat(I.getType()).size();
            if (!n) { ci.op = O_NOP; code.push_back(ci); }
            for (unsigned k = 0; k < n; k++) { ci.op = O_COPY; ci.a = op1(c, ev->getAggregateOperand(), b + k); ci.dst = c.slot[&I] + k; code.push_back(ci); }
            return;
        }
        if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            Type *rt; unsigned b = flatIndex(iv->getAggregateOperand()->getType(), iv->getIndices(), rt), m = flat(rt).size(), n = flat(I.getType()).size();
            if (!n) { ci.op = O_NOP; code.push_back(ci); }
            for (unsigned k = 0; k < n; k++) { ci.op = O_COPY; ci.a = (k >= b && k < b + m) ? op1(c, iv->getInsertedValueOperand(), k - b) : op1(c, iv->getAggregateOperand(), k); ci.dst = c.slot[&I] + k; code.push_back(ci); }
            return;
        }
        if (auto *fz = dyn_cast<FreezeInst>(&I)) { unsigned n = std::max<size_t>(1, flat(I.getType()).size()); for (unsigned k = 0; k < n; k++) { ci.op = O_COPY; ci.a = op1(c, fz->getOperand(0), k); ci.dst = c.slot[&I] + k; code.push_back(ci); } return; }
        if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
            unsigned n = flat(I.getType()).size(); auto *k0 = dyn_cast<ConstantInt>(ie->getOperand(2)); if (!k0) return unsup("variable insertelement");
            for (unsigned k = 0; k < n; k++) { ci.op = O_COPY; ci.a = k == k0->getZExtValue() ? op1(c, ie->getOperand(1)) : op1(c, ie->getOperand(0), k); ci.dst = c.slot[&I] + k; code.push_back(ci); } return;
        }
        if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { auto *k0 = dyn_cast<ConstantInt>(ee->getOperand(1)); if (!k0) return unsup("variable extractelement"); ci.op = O_COPY; ci.a = op1(c, ee->getOperand(0), k0->getZExtValue()); code.push_back(ci); return; }
        if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
            unsigned n = flat(I.getType()).size(), m = flat(sv->getOperand(0)->getType()).size();
            for (unsigned k = 0; k < n; k++) { int mv = sv->getMaskValue(k); ci.op = O_COPY; ci.a = mv < 0 ? Opnd{-1, 0} : (unsigned)mv < m ? op1(c, sv->getOperand(0), mv) : op1(c, sv->getOperand(1), mv - m); ci.dst = c.slot[&I] + k; code.push_back(ci); } return;
        }
        if (auto *al = dyn_cast<AllocaInst>(&I)) { ci.op = O_ALLOCA; ci.imm = dl->getTypeAllocSize(al->getAllocatedType()); ci.a = op1(c, al->getArraySize()); code.push_back(ci); return; }
        if (isa<UnreachableInst>(&I)) { ci.op = O_UNREACH; code.push_back(ci); return; }
        if (isa<FenceInst>(&I)) { ci.op = O_NOP; code.push_back(ci); return; }
        if (auto *un = dyn_cast<UnaryOperator>(&I)) { if (un->getOpcode() == Instruction::FNeg && !I.getType()->isVectorTy()) { ci.op = O_FNEG; ci.w = scalarW(I.getType()); ci.a = op1(c, un->getOperand(0)); code.push_back(ci); return; } }
        if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) { ci.op = O_CMPXCHG; ci.w = scalarW(x->getCompareOperand()->getType()); ci.a = op1(c, x->getPointerOperand()); ci.b = op1(c, x->getCompareOperand()); ci.c = op1(c, x->getNewValOperand()); code.push_back(ci); return; }
        if (auto *x = dyn_cast<AtomicRMWInst>(&I)) { ci.op = O_RMW; ci.w = scalarW(I.getType()); ci.sub = x->getOperation(); ci.a = op1(c, x->getPointerOperand()); ci.b = op1(c, x->getValOperand()); code.push_back(ci); return; }
        if (auto *cb = dyn_cast<CallBase>(&I)) {
            if (isa<DbgInfoIntrinsic>(cb)) { ci.op = O_NOP; code.push_back(ci); return; }
            calls.emplace_back(); CallInfo &k = calls.back(); ci.ext = &k;
            for (unsigned a = 0; a < cb->arg_size(); a++) {
                const Value *v = cb->getArgOperand(a); if (v->getType()->isMetadataTy()) continue;
                unsigned n = flat(v->getType()).size(); for (unsigned j = 0; j < n; j++) k.args.push_back(op1(c, v, j));
                uint32_t bv = cb->isByValArgument(a) ? (uint32_t)dl->getTypeAllocSize(cb->getParamByValType(a)) : 0;
                for (unsigned j = 0; j < n; j++) k.byval.push_back(bv);
            }
            k.nret = I.getType()->isVoidTy() ? 0 : flat(I.getType()).size();
            k.retBits = k.nret ? flat(I.getType())[0].bits : 0;
            if (auto *inv = dyn_cast<InvokeInst>(cb)) k.invokeNormal = edge(c, I.getParent(), inv->getNormalDest());
            if (auto *ii = dyn_cast<IntrinsicInst>(cb)) { ci.op = O_INTRIN; ci.sub = 0; ci.imm = ii->getIntrinsicID(); if (k.args.size() && cb->arg_size()) ci.w = scalarW(cb->getArgOperand(0)->getType()); code.push_back(ci); return; }
            ci.op = O_CALL; const Value *cal = cb->getCalledOperand()->stripPointerCasts();
            if (auto *ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
            if (auto *f = dyn_cast<Function>(cal)) k.direct = funcOf(f); else if (isa<InlineAsm>(cal)) { strs.push_back("inline asm"); ci.op = O_UNSUP; ci.ext = &strs.back(); } else k.target = op1(c, cal);
            code.push_back(ci); return;
        }
        if (isa<LandingPadInst>(&I) || isa<ResumeInst>(&I)) { ci.op = O_UNSUP; strs.push_back("exception handling"); ci.ext = &strs.back(); code.push_back(ci); return; }
        unsup("unsupported instruction");
    }

    // ----- execution
    void takeEdge(State &s, Frame &f, Edge *e) {
        if (e->moves.size() == 1) s.regs[f.base + e->moves[0].dst] = get(s, e->moves[0].src, f.base);
        else if (!e->moves.empty()) {
            Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (e->moves.size() > 64) { big.resize(e->moves.size()); t = big.data(); }
            for (size_t i = 0; i < e->moves.size(); i++) t[i] = get(s, e->moves[i].src, f.base);
            for (size_t i = 0; i < e->moves.size(); i++) s.regs[f.base + e->moves[i].dst] = t[i];
        }
        f.pc = e->pc;
    }
    void pushFrame(State &s, CFunc *fn, Val *args, unsigned n, int32_t retDst, unsigned nret, uint32_t retPc) {
        if (!fn->compiled) { if (fn->f->isDeclaration()) err("unmodelled function " + fn->name + " (" + llvm::demangle(fn->name) + ")"); compile(fn); }
        if (fn->idx < sizeof(sh->fn)) sh->fn[fn->idx] = 1;
        if (s.stack.size() > 3000) throw PathEnd{"hang", "call depth above 3000 (unbounded recursion)"};
        Frame f{fn, 0, (uint32_t)s.regs.size(), retDst, nret, retPc, (uint32_t)s.allocas.size()};
        s.regs.resize(f.base + fn->nslots, Val{0, nullptr});
        unsigned na = fn->f->isVarArg() ? std::min<unsigned>(n, fn->argBase.size()) : n;
        for (unsigned i = 0; i < na && i < fn->nslots; i++) s.regs[f.base + i] = args[i];
        s.stack.push_back(f);
    }
    // call 'addr'-designated function from builtins: not supported (would need nested run loop)
    std::string where(State &s) {
        std::string r; int n = 0;
        for (auto it = s.stack.rbegin(); it != s.stack.rend() && n < 14; ++it, ++n) {
            std::string loc; if (it->pc < it->f->code.size() && it->f->code[it->pc].src) if (auto &dlc = it->f->code[it->pc].src->getDebugLoc()) { loc = (dlc->getFilename() + ":" + std::to_string(dlc.getLine())).str(); }
            r += (n ? " <- " : "") + llvm::demangle(it->f->name).substr(0, 140) + (loc.empty() ? "" : " [" + loc + "]");
        }
        return r;
    }
    bool fcmp(unsigned p, double x, double y) {
        bool un = std::isnan(x) || std::isnan(y);
        switch (p) { case CmpInst::FCMP_OEQ: return !un && x == y; case CmpInst::FCMP_OGT: return !un && x > y; case CmpInst::FCMP_OGE: return !un && x >= y; case CmpInst::FCMP_OLT: return !un && x < y; case CmpInst::FCMP_OLE: return !un && x <= y; case CmpInst::FCMP_ONE: return !un && x != y; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || x == y; case CmpInst::FCMP_UGT: return un || x > y; case CmpInst::FCMP_UGE: return un || x >= y; case CmpInst::FCMP_ULT: return un || x < y; case CmpInst::FCMP_ULE: return un || x <= y; case CmpInst::FCMP_UNE: return un || x != y; case CmpInst::FCMP_TRUE: return true; default: return false; }
    }
    static double asD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
    static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t c; memcpy(&c, &d, 8); return c; }

    bool runBuiltin(State &s, Frame &f, CI &ci, CallInfo &k, CFunc *fn) {
        Val args[64]; unsigned n = std::min<size_t>(k.args.size(), 64); for (unsigned i = 0; i < n; i++) args[i] = get(s, k.args[i], f.base);
        Val ret{0, nullptr};
        bool r = fn->builtin(*this, s, ci, args, n, &ret);
        if (!r) return false;
        Frame &f2 = s.stack.back();
        if (ci.dst >= 0 && k.nret) s.regs[f2.base + ci.dst] = ret;
        if (k.invokeNormal) takeEdge(s, f2, k.invokeNormal); else f2.pc++;
        return true;
    }
    void intrinsic(State &s, Frame &f, CI &ci);
    // Runs the state until its path ends.
    void run(State &s) {
        cur = &s;
        for (;;) {
            Frame &f = s.stack.back(); CI &ci = f.f->code[f.pc]; uint32_t B = f.base;
            if (++s.steps > stepLimit) throw PathEnd{"hang", "more than " + std::to_string(stepLimit) + " instructions on one path"};
            if ((s.steps & 0xfffff) == 0) { if (sh->stop.load()) throw PathEnd{"stop", ""}; if (elapsed() > timeLimit) { sh->incomplete++; throw PathEnd{"stop", ""}; } }
            switch (ci.op) {
            case O_BIN: {
                Val a = get(s, ci.a, B), b = get(s, ci.b, B); K k = (K)ci.sub;
                if (!a.e && !b.e) {
                    if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) && (b.c & maskw(ci.w)) == 0) throw PathEnd{"memory", "division by zero"};
                    s.regs[B + ci.dst] = cv(foldBin(k, a.c, b.c, ci.w));
                } else {
                    if (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) { if (b.e && decide(s, mkBin(K::Eq, b.e, mkConst(0, ci.w)))) throw PathEnd{"memory", "division by zero"}; if (!b.e && !(b.c & maskw(ci.w))) throw PathEnd{"memory", "division by zero"}; }
                    s.regs[B + ci.dst] = simp(s, mk(mkBin(k, ex(a, ci.w), ex(b, ci.w)))); }
                f.pc++; break; }
            case O_ICMP: {
                Val a = get(s, ci.a, B), b = get(s, ci.b, B);
                if (!a.e && !b.e) {
                    uint64_t m = maskw(ci.w), x = a.c & m, y = b.c & m; bool r;
                    switch (ci.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
                    case CmpInst::ICMP_SGT: r = sextw(x, ci.w) > sextw(y, ci.w); break; case CmpInst::ICMP_SGE: r = sextw(x, ci.w) >= sextw(y, ci.w); break; case CmpInst::ICMP_SLT: r = sextw(x, ci.w) < sextw(y, ci.w); break; default: r = sextw(x, ci.w) <= sextw(y, ci.w); }
                    s.regs[B + ci.dst] = cv(r);
                } else {
                    E x = ex(a, ci.w), y = ex(b, ci.w), r;
                    switch (ci.sub) { case CmpInst::ICMP_EQ: r = mkBin(K::Eq, x, y); break; case CmpInst::ICMP_NE: r = mkNe(x, y); break; case CmpInst::ICMP_UGT: r = mkBin(K::Ult, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K::Ule, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(K::Ult, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K::Ule, x, y); break;
                    case CmpInst::ICMP_SGT: r = mkBin(K::Slt, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(K::Sle, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(K::Slt, x, y); break; default: r = mkBin(K::Sle, x, y); }
                    s.regs[B + ci.dst] = simp(s, mk(r)); }
                f.pc++; break; }
            case O_LOAD: {
                Val a = get(s, ci.a, B);
                if (ci.n == 1) { Val v = load(s, a, ci.w); s.regs[B + ci.dst] = v; }
                else { uint64_t k = concretize(s, a, 64); auto &L = *(std::vector<Comp> *)ci.ext; for (unsigned i = 0; i < ci.n; i++) s.regs[B + ci.dst + i] = load(s, cv(k + L[i].off), L[i].bits); }
                f.pc++; break; }
            case O_STORE: {
                Val a = get(s, ci.a, B);
                if (ci.n == 1) store(s, a, get(s, ci.b, B), ci.w);
                else if (ci.n) { uint64_t k = concretize(s, a, 64); auto &L = *(std::vector<Comp> *)ci.ext; auto &ov = *(std::vector<Opnd> *)ci.imm; for (unsigned i = 0; i < ci.n; i++) store(s, cv(k + L[i].off), get(s, ov[i], B), L[i].bits); }
                f.pc++; break; }
            case O_GEP: {
                Val a = get(s, ci.a, B); uint64_t off = ci.imm; E sym = nullptr;
                if (ci.ext) for (auto &p : *(std::vector<std::pair<Opnd, uint64_t>> *)ci.ext) {
                    Val ix = get(s, p.first, B); unsigned w = p.second >> 48; uint64_t es = p.second & 0xffffffffffffull;
                    if (!ix.e) off += es * (uint64_t)sextw(ix.c, w);
                    else { E t = mkBin(K::Mul, mkSExt(ix.e, 64), mkConst(es, 64)); sym = sym ? mkBin(K::Add, sym, t) : t; } }
                if (!a.e && !sym) s.regs[B + ci.dst] = cv(a.c + off);
                else { E r = a.e ? mkBin(K::Add, a.e, mkConst(off, 64)) : mkConst(a.c + off, 64); if (sym) r = mkBin(K::Add, sym, r); s.regs[B + ci.dst] = mk(r); }
                f.pc++; break; }
            case O_BR: takeEdge(s, f, (Edge *)ci.ext); break;
            case O_CBR: {
                Val a = get(s, ci.a, B); bool t = a.e ? decide(s, a.e) : (a.c & 1);
                takeEdge(s, s.stack.back(), t ? (Edge *)ci.ext : (Edge *)ci.imm); break; }
            case O_SWITCH: {
                Val a = simp(s, get(s, ci.a, B)); auto &sw = *(std::vector<std::pair<uint64_t, Edge *>> *)ci.ext; Edge *e = (Edge *)ci.imm;
                if (!a.e) { uint64_t v = a.c & maskw(ci.w); for (auto &p : sw) if (p.first == v) { e = p.second; break; } }
                else { uint64_t v = evalExpr(a.e, s.model); bool done = false;
                    // test the case of the current model first, then the others
                    for (auto &p : sw) if (p.first == v) { if (decide(s, mkBin(K::Eq, a.e, mkConst(v, ci.w)))) { e = p.second; done = true; } break; }
                    if (!done) for (auto &p : sw) if (decide(s, mkBin(K::Eq, a.e, mkConst(p.first, ci.w)))) { e = p.second; break; } }
                takeEdge(s, s.stack.back(), e); break; }
            case O_SELECT: {
                Val c = get(s, ci.a, B); 
                if (!c.e) s.regs[B + ci.dst] = get(s, (c.c & 1) ? ci.b : ci.c, B);
                else { Val x = get(s, ci.b, B), y = get(s, ci.c, B); s.regs[B + ci.dst] = simp(s, mk(mkIte(c.e, ex(x, ci.w), ex(y, ci.w)))); }
                f.pc++; break; }
            case O_ZEXT: { Val a = get(s, ci.a, B); s.regs[B + ci.dst] = a.e ? mk(mkZExt(a.e, ci.w2)) : cv(a.c & maskw(ci.w)); f.pc++; break; }
            case O_SEXT: { Val a = get(s, ci.a, B); s.regs[B + ci.dst] = a.e ? mk(mkSExt(a.e, ci.w2)) : cv((uint64_t)sextw(a.c, ci.w) & maskw(ci.w2)); f.pc++; break; }
            case OP_TRUNC: { Val a = get(s, ci.a, B); s.regs[B + ci.dst] = a.e ? simp(s, mk(mkExtract(a.e, 0, ci.w2))) : cv(a.c & maskw(ci.w2)); f.pc++; break; }
            case O_COPY: if (ci.sub == 1) { for (unsigned i = 0; i < ci.n; i++) { Opnd o = ci.a; if (o.slot >= 0) o.slot += i; s.regs[B + ci.dst + i] = get(s, o, B); } } else s.regs[B + ci.dst] = get(s, ci.a, B); f.pc++; break;
            case O_ALLOCA: { uint64_t n = concretize(s, get(s, ci.a, B), 64); uint64_t a = allocObj(s, ci.imm * n, OF_STACK, 0xAA); s.allocas.push_back(a >> 32); s.regs[B + ci.dst] = cv(a); s.stack.back().pc++; break; }
            case O_RET: {
                Val rv[16]; unsigned n = std::min<unsigned>(ci.n, 16); if (ci.n) { auto &ov = *(std::vector<Opnd> *)ci.ext; for (unsigned i = 0; i < n; i++) rv[i] = get(s, ov[i], B); }
                for (size_t i = f.allocStart; i < s.allocas.size(); i++) freeObj(s, s.allocas[i]);
                s.allocas.resize(f.allocStart);
                Frame done = f; s.stack.pop_back(); s.regs.resize(done.base);
                if (s.stack.empty()) return;
                Frame &g = s.stack.back(); CI &cc = g.f->code[g.pc];
                if (done.retDst >= 0) for (unsigned i = 0; i < n && i < done.nret; i++) s.regs[g.base + done.retDst + i] = rv[i];
                if (cc.op == O_CALL && ((CallInfo *)cc.ext)->invokeNormal) takeEdge(s, g, ((CallInfo *)cc.ext)->invokeNormal); else g.pc++;
                break; }
            case O_CALL: {
                CallInfo &k = *(CallInfo *)ci.ext; CFunc *fn = k.direct;
                if (!fn) {
                    uint64_t t = concretize(s, get(s, k.target, B), 64);
                    if ((t >> 32) != 1 || (t & 15) || ((uint32_t)t >> 4) == 0 || ((uint32_t)t >> 4) > funcs.size()) throw PathEnd{"memory", t == 0 ? "call of a null function pointer" : "call through a corrupted function pointer"};
                    fn = funcs[((uint32_t)t >> 4) - 1].get();
                }
                if (fn->builtin) { if (fn->idx < sizeof(sh->fn)) {} runBuiltin(s, f, ci, k, fn); break; }
                Val args[64]; unsigned n = k.args.size(); if (n > 64) err("too many arguments");
                for (unsigned i = 0; i < n; i++) args[i] = get(s, k.args[i], B);
                uint32_t allocBefore = s.allocas.size();
                for (unsigned i = 0; i < n; i++) if (k.byval[i]) { uint64_t src = concretize(s, args[i], 64); uint64_t a = allocObj(s, k.byval[i], OF_STACK, 0); copyMem(s, a, src, k.byval[i]); args[i] = cv(a); s.allocas.push_back(a >> 32); }
                pushFrame(s, fn, args, n, ci.dst, k.nret, 0);
                s.stack.back().allocStart = allocBefore;
                break; }
            case O_INTRIN: intrinsic(s, f, ci); break;
            case O_FBIN: {
                uint64_t a = concretize(s, get(s, ci.a, B), ci.w), b = concretize(s, get(s, ci.b, B), ci.w); double x = asD(a, ci.w), y = asD(b, ci.w), r;
                switch (ci.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
                s.regs[B + ci.dst] = cv(fromD(r, ci.w)); s.stack.back().pc++; break; }
            case O_FNEG: { uint64_t a = concretize(s, get(s, ci.a, B), ci.w); s.regs[B + ci.dst] = cv(fromD(-asD(a, ci.w), ci.w)); s.stack.back().pc++; break; }
            case O_FCMP: { uint64_t a = concretize(s, get(s, ci.a, B), ci.w), b = concretize(s, get(s, ci.b, B), ci.w); s.regs[B + ci.dst] = cv(fcmp(ci.sub, asD(a, ci.w), asD(b, ci.w))); s.stack.back().pc++; break; }
            case O_FCAST: {
                uint64_t a = concretize(s, get(s, ci.a, B), ci.w); uint64_t r;
                switch (ci.sub) {
                case Instruction::FPToUI: { double d = asD(a, ci.w); r = (uint64_t)d; break; } case Instruction::FPToSI: { double d = asD(a, ci.w); r = (uint64_t)(int64_t)d; break; }
                case Instruction::UIToFP: r = fromD((double)(a & maskw(ci.w)), ci.w2); break; case Instruction::SIToFP: r = fromD((double)sextw(a, ci.w), ci.w2); break;
                default: r = fromD(asD(a, ci.w), ci.w2); }
                s.regs[B + ci.dst] = cv(r & maskw(ci.w2)); s.stack.back().pc++; break; }
            case O_CMPXCHG: {
                uint64_t p = concretize(s, get(s, ci.a, B), 64); Val old = load(s, cv(p), ci.w), cmp = get(s, ci.b, B), nw = get(s, ci.c, B);
                bool eq = decide(s, mkBin(K::Eq, ex(old, ci.w), ex(cmp, ci.w))); if (eq) store(s, cv(p), nw, ci.w);
                s.regs[B + ci.dst] = old; s.regs[B + ci.dst + 1] = cv(eq); s.stack.back().pc++; break; }
            case O_RMW: {
                uint64_t p = concretize(s, get(s, ci.a, B), 64); Val old = load(s, cv(p), ci.w), v = get(s, ci.b, B); E x = ex(old, ci.w), y = ex(v, ci.w), r;
                switch (ci.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(K::Add, x, y); break; case AtomicRMWInst::Sub: r = mkBin(K::Sub, x, y); break; case AtomicRMWInst::And: r = mkBin(K::And, x, y); break; case AtomicRMWInst::Or: r = mkBin(K::Or, x, y); break; case AtomicRMWInst::Xor: r = mkBin(K::Xor, x, y); break; default: err("atomicrmw"); }
                store(s, cv(p), mk(r), ci.w); s.regs[B + ci.dst] = old; s.stack.back().pc++; break; }
            case O_NOP: f.pc++; break;
            case O_UNREACH: throw PathEnd{"abort", "unreachable code executed"};
            case O_UNSUP: err(*(std::string *)ci.ext);
            default: err("bad opcode");
            }
        }
    }

    // ----- reporting
    static std::string jesc(const std::string &s) { std::string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }
    std::string choices(State &s, const Model &m) { std::string r = "["; for (size_t i = 0; i < s.syms.size(); i++) { char b[64]; snprintf(b, 64, ",%llu]", (unsigned long long)(m.get(i) & maskw(s.syms[i].second))); r += (i ? "," : "") + ("[" + jesc(s.syms[i].first)) + b; } return r + "]"; }
    std::string trace(State &s, const Model &m) { std::string r; char b[8]; for (auto &l : s.log) { r += l->tag + "="; for (auto &v : l->bytes) { snprintf(b, 8, "%02x", (unsigned)(v.e ? evalExpr(v.e, m) : v.c) & 255); r += b; } r += ";"; } return r; }
    void emit(const std::string &l) { std::string x = l + "\n"; size_t n = 0; while (n < x.size()) { ssize_t k = write(outFd, x.data() + n, x.size() - n); if (k <= 0) break; n += k; } }
    std::set<std::string> reported;
    void violation(State &s, const Model &m, const std::string &kind, const std::string &msg, bool isKnown = false) {
        std::string key = kind + msg; 
        if (isKnown) { sh->known++; }
        if (reported.count(key)) { return; }
        reported.insert(key);
        if (!isKnown) { int v = ++sh->violations; if (v >= maxViol) sh->stop = 1; }
        emit("{\"t\":" + jesc(isKnown ? "known" : "violation") + ",\"kind\":" + jesc(kind) + ",\"msg\":" + jesc(msg) + ",\"choices\":" + choices(s, m) + ",\"trace\":" + jesc(trace(s, m)) + ",\"stack\":" + jesc(where(s)) + "}");
    }
    void finishPath(State &s) {
        uint64_t n = ++sh->paths; 
        if (sampleEvery && (n - 1) % sampleEvery == 0 && sh->samples.fetch_add(1) < sampleMax)
            emit("{\"t\":\"sample\",\"choices\":" + choices(s, s.model) + ",\"trace\":" + jesc(trace(s, s.model)) + "}");
    }
    void explore() {
        while (!work.empty()) {
            if (sh->stop.load()) { sh->incomplete++; break; }
            if (elapsed() > timeLimit) { sh->incomplete++; break; }
            maybeSplit();
            State *s = work.back(); work.pop_back(); uint64_t st0 = s->steps;
            try { run(*s); finishPath(*s); }
            catch (PathEnd &p) {
                if (p.kind == "assume" ) { sh->infeasible++; }
                else if (p.kind == "done") finishPath(*s);
                else if (p.kind == "stop") {}
                else if (p.kind == "error") { sh->errors++; if (!reported.count(p.msg)) { reported.insert(p.msg); emit("{\"t\":\"error\",\"msg\":" + jesc(p.msg) + ",\"stack\":" + jesc(where(*s)) + "}"); } }
                else { sh->paths++; violation(*s, s->model, p.kind, p.msg); }
            }
            sh->steps += s->steps - st0;
            delete s;
        }
        for (auto w : work) delete w;
        work.clear();
    }
    void maybeSplit() {
        if (work.size() < 2 || maxProcs < 2) return;
        double t = elapsed(); if (t - lastFork < 0.02) return;
        int a = sh->active.load(); if (a >= maxProcs) return;
        if (!sh->active.compare_exchange_strong(a, a + 1)) return;
        lastFork = t;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) { sh->active--; return; }
        size_t n = work.size(), h = n / 2; if (!h) h = 1;
        // interleave so both halves get old (large) subtrees
        std::vector<State *> mine, other; for (size_t i = 0; i < n; i++) ((i & 1) ? mine : other).push_back(work[i]);
        if (p == 0) {
            for (auto w : mine) delete w; work = other; kids.clear(); sh->procs++;
            g_solverStats = SolverStats();
            explore(); flushStats(); waitKids(true); _exit(0);
        }
        kids.push_back(p);
        for (auto w : other) delete w; work = mine;
        // avoid zombies piling up
        for (size_t i = 0; i < kids.size();) { int st; if (waitpid(kids[i], &st, WNOHANG) == kids[i]) { checkKid(st); kids.erase(kids.begin() + i); } else i++; }
    }
    void checkKid(int st) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->errors++; emit("{\"t\":\"error\",\"msg\":\"worker process died (status " + std::to_string(st) + ")\",\"stack\":\"\"}"); } }
    void waitKids(bool release) { if (release) sh->active--; for (auto k : kids) { int st; if (waitpid(k, &st, 0) == k) checkKid(st); } kids.clear(); }
    void flushStats() { sh->queries += g_solverStats.queries; sh->sat += g_solverStats.sat; sh->unsat += g_solverStats.unsat; sh->unknown += g_solverStats.unknown; sh->cacheHits += g_solverStats.cacheHits; sh->solverUs += (uint64_t)(g_solverStats.time * 1e6); }
};

void Exec::intrinsic(State &s, Frame &f, CI &ci) {
    CallInfo &k = *(CallInfo *)ci.ext; uint32_t B = f.base;
    auto A = [&](unsigned i) { return get(s, k.args[i], B); };
    auto done = [&](Val v) { Frame &g = s.stack.back(); if (ci.dst >= 0) s.regs[g.base + ci.dst] = v; if (k.invokeNormal) takeEdge(s, g, k.invokeNormal); else g.pc++; };
    unsigned w = ci.w;
    switch ((Intrinsic::ID)ci.imm) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::sideeffect: done(cv(0)); return;
    case Intrinsic::vaend: done(cv(0)); return;
    case Intrinsic::stacksave: done(cv(0)); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, A(2), 64), d = concretize(s, A(0), 64), p = concretize(s, A(1), 64); copyMem(s, d, p, n); done(cv(d)); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(s, A(2), 64), d = concretize(s, A(0), 64); if (n) { uint32_t off; resolve(s, d, n, true, off); Obj *o = getObjW(s, d >> 32); Val v = A(1); if (!v.e) { memset(o->data + off, (int)v.c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(E)); } else for (uint64_t i = 0; i < n; i++) storeO(o, off + i, v, 8); } done(cv(d)); return; }
    case Intrinsic::expect: done(A(0)); return;
    case Intrinsic::is_constant: done(cv(0)); return;
    case Intrinsic::objectsize: done(cv(~0ull)); return;
    case Intrinsic::trap: case Intrinsic::debugtrap: throw PathEnd{"abort", "trap"};
    case Intrinsic::eh_typeid_for: done(cv(1)); return;
    case Intrinsic::threadlocal_address: done(A(0)); return;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: done(A(0)); return;
    default: break;
    }
    Val a = k.args.size() > 0 ? A(0) : cv(0), b = k.args.size() > 1 ? A(1) : cv(0);
    E x = nullptr, y = nullptr; auto X = [&] { if (!x) x = ex(a, w); return x; }; auto Y = [&] { if (!y) y = ex(b, w); return y; };
    if (k.nret > 2 || (k.nret == 2 && (Intrinsic::ID)ci.imm != Intrinsic::uadd_with_overflow && (Intrinsic::ID)ci.imm != Intrinsic::sadd_with_overflow && (Intrinsic::ID)ci.imm != Intrinsic::usub_with_overflow && (Intrinsic::ID)ci.imm != Intrinsic::ssub_with_overflow && (Intrinsic::ID)ci.imm != Intrinsic::umul_with_overflow && (Intrinsic::ID)ci.imm != Intrinsic::smul_with_overflow)) err("vector intrinsic");
    switch ((Intrinsic::ID)ci.imm) {
    case Intrinsic::umin: done(mk(mkIte(mkBin(K::Ult, X(), Y()), X(), Y()))); return;
    case Intrinsic::umax: done(mk(mkIte(mkBin(K::Ult, X(), Y()), Y(), X()))); return;
    case Intrinsic::smin: done(mk(mkIte(mkBin(K::Slt, X(), Y()), X(), Y()))); return;
    case Intrinsic::smax: done(mk(mkIte(mkBin(K::Slt, X(), Y()), Y(), X()))); return;
    case Intrinsic::abs: done(mk(mkIte(mkBin(K::Slt, X(), mkConst(0, w)), mkBin(K::Sub, mkConst(0, w), X()), X()))); return;
    case Intrinsic::usub_sat: done(mk(mkIte(mkBin(K::Ult, X(), Y()), mkConst(0, w), mkBin(K::Sub, X(), Y())))); return;
    case Intrinsic::uadd_sat: { E r = mkBin(K::Add, X(), Y()); done(mk(mkIte(mkBin(K::Ult, r, X()), mkConst(~0ull, w), r))); return; }
    case Intrinsic::bswap: { E e = X(); E r = mkExtract(e, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(e, i, 8)); done(mk(r)); return; }
    case Intrinsic::ctpop: { E e = X(), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(e, i, 1), w)); done(mk(r)); return; }
    case Intrinsic::ctlz: { E e = X(), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); done(mk(r)); return; }
    case Intrinsic::cttz: { E e = X(), r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); done(mk(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        uint64_t n = concretize(s, A(2), w) % w; bool l = (Intrinsic::ID)ci.imm == Intrinsic::fshl;
        if (n == 0) { done(l ? a : b); return; }
        unsigned q = l ? n : w - n; E r = mkBin(K::Or, mkBin(K::Shl, X(), mkConst(q, w)), mkBin(K::LShr, Y(), mkConst(w - q, w))); done(mk(r)); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = (Intrinsic::ID)ci.imm; E r, o;
        if (id == Intrinsic::uadd_with_overflow) { r = mkBin(K::Add, X(), Y()); o = mkBin(K::Ult, r, X()); }
        else if (id == Intrinsic::usub_with_overflow) { r = mkBin(K::Sub, X(), Y()); o = mkBin(K::Ult, X(), Y()); }
        else if (id == Intrinsic::sadd_with_overflow) { r = mkBin(K::Add, X(), Y()); E sx = mkExtract(X(), w - 1, 1), sy = mkExtract(Y(), w - 1, 1), sr = mkExtract(r, w - 1, 1); o = mkBin(K::And, mkBin(K::Eq, sx, sy), mkNe(sx, sr)); }
        else if (id == Intrinsic::ssub_with_overflow) { r = mkBin(K::Sub, X(), Y()); E sx = mkExtract(X(), w - 1, 1), sy = mkExtract(Y(), w - 1, 1), sr = mkExtract(r, w - 1, 1); o = mkBin(K::And, mkNe(sx, sy), mkNe(sx, sr)); }
        else {
            bool sg = id == Intrinsic::smul_with_overflow; r = mkBin(K::Mul, X(), Y());
            if (X()->isConst() && Y()->isConst()) { if (sg) { __int128 p = (__int128)sextw(X()->cv, w) * sextw(Y()->cv, w); o = mkConst(p != (__int128)sextw(r->cv, w), 1); } else { unsigned __int128 p = (unsigned __int128)X()->cv * Y()->cv; o = mkConst(p != r->cv, 1); } }
            else if (w <= 32) { E p = mkBin(K::Mul, sg ? mkSExt(X(), 2 * w) : mkZExt(X(), 2 * w), sg ? mkSExt(Y(), 2 * w) : mkZExt(Y(), 2 * w)); o = mkNe(p, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w)); }
            else if (!sg && (X()->isConst() || Y()->isConst())) { E v = X()->isConst() ? Y() : X(); uint64_t cst = X()->isConst() ? X()->cv : Y()->cv; o = cst ? mkBin(K::Ult, mkConst(maskw(w) / cst, w), v) : mkConst(0, 1); }
            else err("symbolic 64-bit multiplication overflow");
        }
        Frame &g = s.stack.back(); s.regs[g.base + ci.dst] = mk(r); s.regs[g.base + ci.dst + 1] = mk(o); g.pc++; return; }
    case Intrinsic::fabs: { uint64_t v = concretize(s, a, w); done(cv(fromD(std::fabs(asD(v, w)), w))); return; }
    case Intrinsic::floor: { uint64_t v = concretize(s, a, w); done(cv(fromD(std::floor(asD(v, w)), w))); return; }
    case Intrinsic::ceil: { uint64_t v = concretize(s, a, w); done(cv(fromD(std::ceil(asD(v, w)), w))); return; }
    case Intrinsic::trunc: { uint64_t v = concretize(s, a, w); done(cv(fromD(std::trunc(asD(v, w)), w))); return; }
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: { uint64_t v = concretize(s, a, w); done(cv(fromD(std::round(asD(v, w)), w))); return; }
    case Intrinsic::fmuladd: { double r = asD(concretize(s, a, w), w) * asD(concretize(s, b, w), w) + asD(concretize(s, A(2), w), w); done(cv(fromD(r, w))); return; }
    case Intrinsic::maxnum: case Intrinsic::minnum: { double p = asD(concretize(s, a, w), w), q = asD(concretize(s, b, w), w); done(cv(fromD((Intrinsic::ID)ci.imm == Intrinsic::maxnum ? std::fmax(p, q) : std::fmin(p, q), w))); return; }
    default: err("unsupported intrinsic " + std::string(Intrinsic::getBaseName((Intrinsic::ID)ci.imm)));
    }
}

// ---------- builtins ----------
#define BI(name) static bool name(Exec &x, State &s, CI &ci, Val *a, unsigned n, Val *ret)
BI(b_malloc) { uint64_t sz = x.concretize(s, a[0], 64); *ret = cv(allocObj(s, sz, OF_HEAP, 0xAA)); s.liveHeap++; return true; }
BI(b_new) { return b_malloc(x, s, ci, a, n, ret); }
BI(b_calloc) { uint64_t p = x.concretize(s, a[0], 64), q = x.concretize(s, a[1], 64); *ret = cv(allocObj(s, p * q, OF_HEAP, 0)); s.liveHeap++; return true; }
static void doFree(Exec &x, State &s, uint64_t p) {
    if (!p) return;
    Obj *o = getObj(s, p >> 32);
    if (!o || (uint32_t)p) throw PathEnd{"memory", "free of an invalid pointer"};
    if (o == FREED) throw PathEnd{"memory", "double free"};
    if (!(o->flags & OF_HEAP)) throw PathEnd{"memory", "free of a pointer that was not allocated on the heap"};
    freeObj(s, p >> 32); s.liveHeap--;
}
BI(b_free) { doFree(x, s, x.concretize(s, a[0], 64)); *ret = cv(0); return true; }
BI(b_realloc) {
    uint64_t p = x.concretize(s, a[0], 64), sz = x.concretize(s, a[1], 64); uint64_t q = allocObj(s, sz, OF_HEAP, 0xAA); s.liveHeap++;
    if (p) { Obj *o = getObj(s, p >> 32); if (!o || o == FREED || (uint32_t)p) throw PathEnd{"memory", "realloc of an invalid pointer"}; x.copyMem(s, q, p, std::min<uint64_t>(sz, o->size)); doFree(x, s, p); }
    *ret = cv(q); return true; }
BI(b_memcpy) { uint64_t c = x.concretize(s, a[2], 64), d = x.concretize(s, a[0], 64), p = x.concretize(s, a[1], 64); x.copyMem(s, d, p, c); *ret = cv(d); return true; }
BI(b_memset) { uint64_t c = x.concretize(s, a[2], 64), d = x.concretize(s, a[0], 64); if (c) { uint32_t off; x.resolve(s, d, c, true, off); Obj *o = getObjW(s, d >> 32); Val v = a[1]; if (v.e) v = x.mk(mkExtract(v.e, 0, 8)); else v.c &= 255; for (uint64_t i = 0; i < c; i++) x.storeO(o, off + i, v, 8); } *ret = cv(d); return true; }
BI(b_memcmp) {
    uint64_t c = x.concretize(s, a[2], 64), p = x.concretize(s, a[0], 64), q = x.concretize(s, a[1], 64);
    if (!c) { *ret = cv(0); return true; }
    uint32_t o1, o2; Obj *O1 = x.resolve(s, p, c, false, o1), *O2 = x.resolve(s, q, c, false, o2);
    E r = mkConst(0, 32);
    for (int64_t i = c - 1; i >= 0; i--) { E u = x.simp(s, x.mk(x.byteE(O1, o1 + i))).e ? x.byteE(O1, o1 + i) : mkConst(x.simp(s, x.mk(x.byteE(O1, o1 + i))).c, 8); E v = x.byteE(O2, o2 + i); { Val t = x.simp(s, x.mk(v)); if (!t.e) v = mkConst(t.c, 8); }
        r = mkIte(mkBin(K::Eq, u, v), r, mkBin(K::Sub, mkZExt(u, 32), mkZExt(v, 32))); }
    *ret = x.mk(r); return true; }
BI(b_zero) { *ret = cv(0); return true; }
BI(b_abort) { throw PathEnd{"abort", "abort() / std::terminate / pure virtual call"}; }
BI(b_throw) { throw PathEnd{"abort", "exception thrown"}; }
BI(b_guardAcquire) { uint64_t p = x.concretize(s, a[0], 64); Val v = x.load(s, cv(p), 8); *ret = cv(v.c == 0); return true; }
BI(b_guardRelease) { uint64_t p = x.concretize(s, a[0], 64); x.store(s, cv(p), cv(1), 8); *ret = cv(0); return true; }
BI(b_sym) {
    unsigned w = (unsigned)x.concretize(s, a[0], 32); std::string nm = x.cstr(s, x.concretize(s, a[1], 64));
    unsigned i = s.syms.size(); s.syms.push_back({nm, w}); if (s.model.v.size() <= i) s.model.v.resize(i + 1, 0); s.model.v[i] = 0;
    *ret = x.mk(mkZExt(mkVar(i, w), 64)); return true; }
BI(b_assume) {
    Val c = x.simp(s, a[0]); E e = c.e ? (c.e->width == 1 ? c.e : mkNe(c.e, mkConst(0, c.e->width))) : nullptr;
    if (!e) { if (!c.c) throw PathEnd{"assume", ""}; return true; }
    auto it = s.known.find(e->id); if (it != s.known.end()) { if (!it->second) throw PathEnd{"assume", ""}; return true; }
    if (!e->isConst() && evalExpr(e, s.model)) { x.addPc(s, e); return true; }
    Model m = s.model; Sat r = solverCheck(s.pc, e, m); if (r != Sat::Yes) { if (r == Sat::Unknown) sh->incomplete++; throw PathEnd{"assume", ""}; }
    s.model = m; x.addPc(s, e); return true; }
static bool doAssert(Exec &x, State &s, Val c0, const std::string &msg, bool known) {
    sh->asserts++;
    Val c = x.simp(s, c0); E e = c.e ? (c.e->width == 1 ? c.e : mkNe(c.e, mkConst(0, c.e->width))) : nullptr;
    if (!e) { if (!c.c) { x.violation(s, s.model, "assert", msg, known); throw PathEnd{known ? "assume" : "done", ""}; } return true; }
    if (e->isConst()) return doAssert(x, s, cv(e->cv), msg, known);
    { auto it = s.known.find(e->id); if (it != s.known.end()) return doAssert(x, s, cv(it->second), msg, known); }
    sh->symAsserts++;
    E ne = mkNot(e); Model m = s.model; Sat r = solverCheck(s.pc, ne, m);
    if (r == Sat::Unknown) { sh->timeouts++; sh->incomplete++; }
    if (r == Sat::Yes) x.violation(s, m, "assert", msg, known);
    // continue with the assertion holding
    if (!evalExpr(e, s.model)) { Model m2 = s.model; if (solverCheck(s.pc, e, m2) != Sat::Yes) throw PathEnd{known ? "assume" : "done", ""}; s.model = m2; }
    if (r == Sat::Yes) x.addPc(s, e); else { x.learn(s, e, true); s.known[ne->id] = 0; }
    return true;
}
BI(b_assert) { std::string msg = x.cstr(s, x.concretize(s, a[1], 64)); return doAssert(x, s, a[0], msg, false); }
BI(b_assertKnown) { std::string msg = x.cstr(s, x.concretize(s, a[1], 64)), id = x.cstr(s, x.concretize(s, a[2], 64)); return doAssert(x, s, a[0], id + ": " + msg, true); }
BI(b_cover) { std::string l = x.cstr(s, x.concretize(s, a[0], 64)); if (!x.reported.count("C:" + l)) { x.reported.insert("C:" + l); x.emit("{\"t\":\"cover\",\"label\":" + Exec::jesc(l) + "}"); } return true; }
BI(b_pick) { *ret = cv(x.concretize(s, a[0], 64)); return true; }
BI(b_param) { std::string l = x.cstr(s, x.concretize(s, a[0], 64)); auto it = params.find(l); *ret = it != params.end() ? cv(it->second) : a[1]; return true; }
BI(b_log) {
    auto le = std::make_shared<LogEnt>(); le->tag = x.cstr(s, x.concretize(s, a[0], 64)); uint64_t p = x.concretize(s, a[1], 64), c = x.concretize(s, a[2], 64);
    if (c) { uint32_t off; Obj *o = x.resolve(s, p, c, false, off); for (uint64_t i = 0; i < c; i++) le->bytes.push_back(x.mk(x.byteE(o, off + i))); }
    s.log.push_back(le); return true; }
BI(b_isSym) { *ret = cv(a[0].e != nullptr); return true; }
BI(b_symbolic) { *ret = cv(1); return true; }
BI(b_done) { throw PathEnd{"done", ""}; }
BI(b_print) { if (verbose) { std::string m = x.cstr(s, x.concretize(s, a[0], 64)); fprintf(stderr, "[print] %s %llu%s %s\n", m.c_str(), (unsigned long long)a[1].c, a[1].e ? " sym" : "", a[1].e ? exprStr(a[1].e).c_str() : ""); } return true; }
BI(b_printBytes) { if (verbose) { std::string m = x.cstr(s, x.concretize(s, a[0], 64)); uint64_t p = a[1].c, c = a[2].c; fprintf(stderr, "[bytes] %s (%llu): ", m.c_str(), (unsigned long long)c); if (c) { uint32_t off; Obj *o = x.resolve(s, p, c, false, off); for (uint64_t i = 0; i < c; i++) { E e = x.byteE(o, off + i); if (!e->isConst()) fprintf(stderr, "<%s>", exprStr(e, 2).c_str()); else if (e->cv >= 32 && e->cv < 127) fputc((int)e->cv, stderr); else fprintf(stderr, "\\x%02x", (int)e->cv); } } fputc('\n', stderr); } return true; }
BI(b_where) { if (verbose) fprintf(stderr, "[where] %s\n", x.where(s).c_str()); return true; }
// is the pointer a live heap object?
BI(b_alive) { uint64_t p = x.concretize(s, a[0], 64); Obj *o = getObj(s, p >> 32); *ret = cv(o && o != FREED); return true; }
BI(b_liveHeap) { *ret = cv(s.liveHeap); return true; }
BI(b_fail) { std::string msg = x.cstr(s, x.concretize(s, a[0], 64)); x.err("model: " + msg); }
// native double formatting/parsing on concrete values
BI(b_dtoa) { double d = Exec::asD(x.concretize(s, a[0], 64), 64); uint64_t buf = x.concretize(s, a[1], 64); char fmt = (char)x.concretize(s, a[2], 32); int prec = (int)x.concretize(s, a[3], 32); char b[512]; 
    if (fmt == 'R') { // shortest round trip
        for (int p = 1; p <= 17; p++) { snprintf(b, 512, "%.*g", p, d); if (strtod(b, nullptr) == d) break; } }
    else { char f[16]; snprintf(f, 16, "%%.%d%c", prec, fmt); snprintf(b, 512, f, d); }
    size_t l = strlen(b); uint32_t off; x.resolve(s, buf, l + 1, true, off); Obj *o = getObjW(s, buf >> 32); for (size_t i = 0; i <= l; i++) x.storeO(o, off + i, cv((uint8_t)b[i]), 8); *ret = cv(l); return true; }
BI(b_atod) { std::string t = x.cstr(s, x.concretize(s, a[0], 64)); char *e; double d = strtod(t.c_str(), &e); uint64_t c; memcpy(&c, &d, 8); *ret = cv(c); return true; }

int main(int argc, char **argv) {
    std::string file, fn, out; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--fn") fn = nx(); else if (a == "--out") out = nx(); else if (a == "--time") timeLimit = atof(nx().c_str()); else if (a == "--steps") stepLimit = strtoull(nx().c_str(), 0, 10);
        else if (a == "--procs") maxProcs = atoi(nx().c_str()); else if (a == "--param") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = strtoull(p.c_str() + q + 1, 0, 0); }
        else if (a == "--sample") sampleEvery = atoi(nx().c_str()); else if (a == "--samples") sampleMax = atoi(nx().c_str()); else if (a == "--max-viol") maxViol = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--list-undef") list = true; else file = a;
    }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)sh, 0, sizeof(Shared));
    if (!out.empty()) { outFd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outFd < 0) { perror("out"); return 3; } }
    tStart = std::chrono::steady_clock::now();
    Exec &x = *new Exec; SMDiagnostic diag; x.mod = parseIRFile(file, diag, x.lctx);
    if (!x.mod) { diag.print("engine", errs()); return 3; }
    x.dl = &x.mod->getDataLayout();
    auto &b = x.builtins;
    for (auto p : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) b[p] = b_malloc;
    b["calloc"] = b_calloc; b["realloc"] = b_realloc;
    for (auto p : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"}) b[p] = b_free;
    b["memcpy"] = b["memmove"] = b_memcpy; b["memset"] = b_memset; b["memcmp"] = b["bcmp"] = b_memcmp;
    for (auto p : {"__cxa_atexit", "atexit", "__cxa_finalize", "fflush"}) b[p] = b_zero;
    for (auto p : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "_Exit", "__assert_fail", "_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_invalid_argumentPKc", "__clang_call_terminate"}) b[p] = b_abort;
    for (auto p : {"__cxa_throw", "__cxa_rethrow", "_Unwind_Resume"}) b[p] = b_throw;
    b["__cxa_guard_acquire"] = b_guardAcquire; b["__cxa_guard_release"] = b_guardRelease; b["__cxa_guard_abort"] = b_zero;
    b["vp_sym"] = b_sym; b["vp_assume"] = b_assume; b["vp_assert_"] = b_assert; b["vp_assert_known_"] = b_assertKnown; b["vp_cover"] = b_cover; b["vp_pick"] = b_pick; b["vp_param"] = b_param; b["vp_log"] = b_log; b["vp_is_symbolic"] = b_isSym; b["vp_engine"] = b_symbolic; b["vp_done"] = b_done; b["vp_print"] = b_print; b["vp_print_bytes"] = b_printBytes; b["vp_where"] = b_where; b["vp_alive"] = b_alive; b["vp_live_heap"] = b_liveHeap; b["vp_fail"] = b_fail; b["vp_dtoa"] = b_dtoa; b["vp_atod"] = b_atod;
    if (list) { for (auto &f : *x.mod) if (f.isDeclaration() && !f.isIntrinsic() && !b.count(f.getName().str())) printf("%s\t%s\n", f.getName().str().c_str(), llvm::demangle(f.getName().str()).c_str()); return 0; }
    solverInit();
    State *s = new State; 
    try {
    x.setup(*s);
    // static initialisers
    if (auto *gc = x.mod->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Function *>> cs; for (auto &o : arr->operands()) { auto *st = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto &p, auto &q) { return p.first < q.first; });
        for (auto &p : cs) { x.pushFrame(*s, x.funcOf(p.second), nullptr, 0, -1, 0, 0); x.run(*s); }
    }
    Function *hf = x.mod->getFunction(fn); if (!hf) { fprintf(stderr, "no function %s\n", fn.c_str()); return 3; }
    s->steps = 0; for (size_t i = 0; i < x.funcs.size() && i < sizeof(sh->fn); i++) sh->fn[i] = 0;
    x.pushFrame(*s, x.funcOf(hf), nullptr, 0, -1, 0, 0);
    } catch (PathEnd &p) { fprintf(stderr, "during initialisation: %s: %s\n  at %s\n", p.kind.c_str(), p.msg.c_str(), x.where(*s).c_str()); return 3; }
    sh->active = 1; sh->procs = 1; double tInit = elapsed();
    x.work.push_back(s); x.explore(); x.flushStats(); x.waitKids(true);
    std::string fl; unsigned nf = 0; for (auto &f : x.funcs) if (f->idx < sizeof(sh->fn) && sh->fn[f->idx] && f->repo) { fl += (nf++ ? "," : "") + Exec::jesc(llvm::demangle(f->name)); }
    char buf[1024]; snprintf(buf, sizeof buf, "{\"t\":\"summary\",\"paths\":%llu,\"infeasible\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,\"sym_asserts\":%llu,\"violations\":%d,\"errors\":%d,\"incomplete\":%llu,\"procs\":%llu,\"wall_s\":%.2f,\"init_s\":%.2f,\"functions\":[",
        (unsigned long long)sh->paths, (unsigned long long)sh->infeasible, (unsigned long long)sh->steps, (unsigned long long)sh->forks, (unsigned long long)sh->queries, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->unknown, (unsigned long long)sh->cacheHits, sh->solverUs / 1e6, (unsigned long long)sh->asserts, (unsigned long long)sh->symAsserts, sh->violations.load(), sh->errors.load(), (unsigned long long)sh->incomplete, (unsigned long long)sh->procs, elapsed(), tInit);
    x.emit(std::string(buf) + fl + "]}");
    return sh->errors ? 2 : sh->violations ? 1 : 0;
}
