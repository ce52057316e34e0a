// Symbolic executor for LLVM IR: state, memory, decoded code.
#pragma once
#include "expr.h"
#include <memory>
#include <functional>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;

struct V { u128 c = 0; X x = nullptr; };
static inline V VC(u128 c) { V v; v.c = c; return v; }
static inline V VX(X x) { V v; if (isC(x)) v.c = x->c; else v.x = x; return v; }
static inline X toX(const V& v, unsigned w) { return v.x ? v.x : mkC(v.c, w); }

const unsigned PB = 10; // page bits
const unsigned PS = 1 << PB;
struct Page {
    uint8_t b[PS];
    std::vector<X> s; // empty or PS entries
    Page() { memset(b, 0, PS); }
};
typedef std::shared_ptr<Page> PP;
const u64 RSH = 36;
enum { R_GLOB = 1, R_HEAP = 2, R_STACK = 3, R_FN = 4 };

struct Opnd { int slot; std::vector<V> k; }; // slot>=0: register, else constants
struct DI {
    unsigned op; Instruction* I; std::vector<Opnd> o; int dst = -1; unsigned n = 0, w = 0; std::vector<unsigned> ws;
    std::vector<int> succ; Function* callee = nullptr; int ext = -1; u64 aux = 0; std::vector<std::pair<u64, int>> gep; // const offset in aux, (scale, operand)
};
struct DF;
struct DB { std::vector<DI> is; std::vector<std::vector<std::pair<int, Opnd>>> phis; std::vector<std::vector<unsigned>> phin; std::vector<int> preds; std::vector<int> succ; int ipdom = -2; bool canRet = false; std::vector<uint64_t> live; BasicBlock* B; };
struct DF { Function* F; std::string name; int nregs = 0; std::vector<DB> bs; std::vector<int> argSlot; std::vector<unsigned> argN; bool varlive = false; };

struct Frame { DF* f; int bb = 0; int ip = 0; u64 sp; std::vector<V> r; };
typedef std::shared_ptr<Frame> FP;
struct State {
    std::vector<PP> mem[5];
    std::vector<FP> fr;
    std::vector<X> pc; // conjunction
    uint32_t alive = (1u << NM) - 1; // simulation models consistent with pc
    u64 sp, brk; u64 freeHead[40];
    std::vector<std::pair<u64,u64>> log; // reserved
    std::map<u64, u64> notes;
    Frame& top() { FP& p = fr.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
};
typedef std::shared_ptr<State> SP;
