#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <unordered_map>
#include <map>
#include <string>
#include <vector>
#include <atomic>
#include <memory>

struct Val { uint64_t c; E e; };            // e != nullptr: symbolic
static inline Val cv(uint64_t c) { return Val{c, nullptr}; }

struct Obj { uint32_t rc; uint32_t size; uint8_t flags; uint8_t *data; E *sym; };
enum { OF_RO = 1, OF_HEAP = 2, OF_STACK = 4, OF_GLOBAL = 8, OF_FUNC = 16, OF_ARR = 32 };
struct Chunk { uint32_t rc; Obj *o[64]; };

struct Comp { uint32_t off; uint16_t bits; };

struct Opnd { int32_t slot; uint64_t c; };   // slot < 0: constant c
struct Move { int32_t dst; Opnd src; };
struct Edge { uint32_t pc; std::vector<Move> moves; };
struct CFunc;
struct State; struct Exec;
typedef bool (*Builtin)(Exec &, State &, struct CI &, Val *args, unsigned n, Val *ret);
struct CallInfo { CFunc *direct = nullptr; Opnd target{-1, 0}; std::vector<Opnd> args; std::vector<uint32_t> byval; /* per arg: size or 0 */ std::vector<uint32_t> argSlots; unsigned nret = 0; uint16_t retBits = 0; Edge *invokeNormal = nullptr; };
enum Op : uint16_t { O_BIN, O_ICMP, O_LOAD, O_STORE, O_GEP, O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_SELECT, O_ZEXT, O_SEXT, OP_TRUNC, O_COPY, O_ALLOCA, O_UNREACH, O_FBIN, O_FCMP, O_FCAST, O_FNEG, O_CMPXCHG, O_RMW, O_INTRIN, O_UNSUP, O_NOP, O_INSEL, O_EXTEL };
struct CI {
    Op op; uint16_t w = 0, w2 = 0; uint16_t sub = 0; uint16_t n = 1;
    int32_t dst = -1; Opnd a{-1, 0}, b{-1, 0}, c{-1, 0};
    uint64_t imm = 0;
    void *ext = nullptr;
    const llvm::Instruction *src = nullptr;
};
struct CFunc {
    const llvm::Function *f; std::string name; uint64_t addr; uint32_t idx; bool compiled = false; Builtin builtin = nullptr; bool repo = false;
    std::vector<CI> code; uint32_t nslots = 0; std::vector<uint32_t> argBase; uint32_t nargs = 0;
    std::vector<std::vector<uint16_t>> dummy;
};
struct Frame { CFunc *f; uint32_t pc; uint32_t base; int32_t retDst; uint32_t nret; uint32_t retPc; uint32_t allocStart; };

struct LogEnt { std::string tag; std::vector<Val> bytes; };
struct State {
    std::vector<Chunk *> mem; uint32_t nextObj = 16;
    std::vector<Val> regs; std::vector<Frame> stack; std::vector<uint32_t> allocas;
    std::vector<E> pc; Model model; std::unordered_map<uint32_t, uint64_t> known;
    std::vector<std::pair<std::string, unsigned>> syms; // name, width (variable number = index)
    std::vector<std::shared_ptr<LogEnt>> log;
    uint64_t steps = 0; uint32_t forks = 0; uint32_t liveHeap = 0;
    std::vector<std::string> flags;
    State() {}
    State(const State &o);
    State &operator=(const State &) = delete;
    ~State();
};
struct PathEnd { std::string kind, msg; };
