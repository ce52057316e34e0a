#include "exec.h"
#include "code.h"
#include <llvm/IR/CFG.h>
Module* M; const DataLayout* DL;
std::map<const GlobalValue*, u64> gaddr;
std::vector<Function*> fnById;
static std::unordered_map<Function*, DF*> dfs;

void leaves(Type* t, std::vector<unsigned>& w) {
    if (t->isVoidTy()) return;
    if (auto* it = dyn_cast<IntegerType>(t)) { if (it->getBitWidth() > 128) die("integer wider than 128 bits"); w.push_back(it->getBitWidth()); }
    else if (t->isPointerTy() || t->isDoubleTy()) w.push_back(64);
    else if (t->isFloatTy()) w.push_back(32);
    else if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) leaves(e, w);
    else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), w);
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), w);
    else if (t->isMetadataTy() || t->isLabelTy()) return;
    else die("unsupported type");
}
void leafOffsets(Type* t, u64 base, std::vector<u64>& o) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafOffsets(st->getElementType(i), base + sl->getElementOffset(i), o); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leafOffsets(at->getElementType(), base + i * s, o); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 bits = DL->getTypeSizeInBits(vt->getElementType()); if (bits % 8) die("vector of sub-byte elements in memory"); for (u64 i = 0; i < vt->getNumElements(); i++) leafOffsets(vt->getElementType(), base + i * bits / 8, o); }
    else o.push_back(base);
}
static unsigned nleaf(Type* t) { std::vector<unsigned> w; leaves(t, w); return w.size(); }

void constLeaves(Constant* c, std::vector<V>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { out.resize(out.size() + nleaf(t)); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { APInt a = ci->getValue(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; out.push_back(VC(v & mask(a.getBitWidth()))); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(VC(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(VC(0)); return; }
    if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(VC(gaddr.at(gv))); return; }
    if (auto* cs = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cs->getNumElements(); i++) constLeaves(cs->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constLeaves(cast<Constant>(c->getOperand(i)), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        std::vector<V> a;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            constLeaves(ce->getOperand(0), a); APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("constant gep");
            out.push_back(VC((u64)a[0].c + off.getZExtValue())); return; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: {
            constLeaves(ce->getOperand(0), a); std::vector<unsigned> w; leaves(t, w); if (w.size() != a.size()) die("constant cast"); for (auto& v : a) out.push_back(VC(v.c & mask(w[0]))); return; }
        case Instruction::Add: case Instruction::Sub: { std::vector<V> b; constLeaves(ce->getOperand(0), a); constLeaves(ce->getOperand(1), b); std::vector<unsigned> w; leaves(t, w);
            out.push_back(VC((ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : a[0].c - b[0].c) & mask(w[0]))); return; }
        default: die(std::string("constant expression ") + ce->getOpcodeName());
        }
    }
    die("constant kind");
}

DF* decode(Function* F) {
    auto it = dfs.find(F);
    if (it != dfs.end()) return it->second;
    DF* d = new DF; dfs[F] = d; d->F = F; d->name = F->getName().str();
    std::map<const Value*, int> slot; std::map<const BasicBlock*, int> bid;
    auto alloc = [&](Value* v) { unsigned n = nleaf(v->getType()); int s = d->nregs; d->nregs += n; slot[v] = s; return s; };
    for (auto& a : F->args()) { d->argN.push_back(nleaf(a.getType())); d->argSlot.push_back(alloc(&a)); }
    int nb = 0;
    for (auto& B : *F) { bid[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) alloc(&I); }
    d->bs.resize(nb);
    auto opnd = [&](Value* v) { Opnd o; o.slot = -1; if (auto* c = dyn_cast<Constant>(v)) constLeaves(c, o.k); else { auto i = slot.find(v); if (i == slot.end()) die("operand"); o.slot = i->second; } return o; };
    for (auto& B : *F) {
        DB& b = d->bs[bid[&B]]; b.B = &B;
        std::vector<BasicBlock*> ps; for (BasicBlock* p : predecessors(&B)) if (std::find(ps.begin(), ps.end(), p) == ps.end()) ps.push_back(p);
        for (auto* p : ps) b.preds.push_back(bid[p]);
        b.phis.resize(ps.size());
        for (auto& I : B) {
            if (auto* ph = dyn_cast<PHINode>(&I)) {
                for (size_t i = 0; i < ps.size(); i++) b.phis[i].push_back({slot[ph], opnd(ph->getIncomingValueForBlock(ps[i]))});
                b.phin.resize(1); b.phin[0].push_back(nleaf(ph->getType()));
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            DI x; x.I = &I; x.op = I.getOpcode();
            if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { x.dst = slot[&I]; leaves(I.getType(), x.ws); x.n = x.ws.size(); x.w = x.n ? x.ws[0] : 0; }
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                x.callee = cf;
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::var_annotation || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue; }
                if (cb->isInlineAsm()) { if (!cast<InlineAsm>(cb->getCalledOperand())->getAsmString().empty()) die("inline asm in " + d->name); if (I.getType()->isVoidTy()) continue; die("inline asm value"); }
                for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { x.o.push_back(Opnd{-1, {}}); continue; } x.o.push_back(opnd(a)); }
                if (!cf) x.o.push_back(opnd(cb->getCalledOperand()));
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.succ.push_back(bid[iv->getNormalDest()]); }
                if (cf) x.ext = extId(cf);
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) x.o.push_back(opnd(br->getCondition()));
                for (unsigned i = 0; i < br->getNumSuccessors(); i++) x.succ.push_back(bid[br->getSuccessor(i)]);
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                x.o.push_back(opnd(sw->getCondition())); leaves(sw->getCondition()->getType(), x.ws);
                x.succ.push_back(bid[sw->getDefaultDest()]);
                Opnd k; k.slot = -1; for (auto c : sw->cases()) { constLeaves(c.getCaseValue(), k.k); x.succ.push_back(bid[c.getCaseSuccessor()]); }
                x.o.push_back(k);
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                if (g->getType()->isVectorTy()) die("vector gep");
                x.o.push_back(opnd(g->getPointerOperand()));
                Type* t = g->getSourceElementType(); bool first = true;
                for (auto i = g->idx_begin(); i != g->idx_end(); ++i) {
                    Value* iv = *i; u64 scale;
                    if (first) { scale = DL->getTypeAllocSize(t); first = false; }
                    else if (auto* st = dyn_cast<StructType>(t)) { unsigned f = cast<ConstantInt>(iv)->getZExtValue(); x.aux += DL->getStructLayout(st)->getElementOffset(f); t = st->getElementType(f); continue; }
                    else { t = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType(); scale = DL->getTypeAllocSize(t); }
                    if (auto* ci = dyn_cast<ConstantInt>(iv)) { x.aux += (u64)ci->getSExtValue() * scale; continue; }
                    x.gep.push_back({scale, (int)x.o.size()}); x.o.push_back(opnd(iv)); x.ws.push_back(iv->getType()->getIntegerBitWidth());
                }
            } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                x.o.push_back(opnd(ev->getAggregateOperand())); Type* t = ev->getAggregateOperand()->getType();
                for (unsigned i : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) x.aux += nleaf(st->getElementType(j)); t = st->getElementType(i); } else { t = cast<ArrayType>(t)->getElementType(); x.aux += (u64)i * nleaf(t); } }
            } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                x.o.push_back(opnd(iv->getAggregateOperand())); x.o.push_back(opnd(iv->getInsertedValueOperand())); Type* t = iv->getType();
                for (unsigned i : iv->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) x.aux += nleaf(st->getElementType(j)); t = st->getElementType(i); } else { t = cast<ArrayType>(t)->getElementType(); x.aux += (u64)i * nleaf(t); } }
                x.gep.push_back({nleaf(iv->getInsertedValueOperand()->getType()), 0});
            } else {
                for (auto& u : I.operands()) x.o.push_back(opnd(u.get()));
                if (auto* si = dyn_cast<StoreInst>(&I)) leaves(si->getValueOperand()->getType(), x.ws);
                else if (I.getNumOperands() && !I.getType()->isVoidTy() && !isa<AllocaInst>(&I) && !isa<LoadInst>(&I)) { std::vector<unsigned> w; leaves(I.getOperand(0)->getType(), w); x.aux = w.empty() ? 0 : w[0]; }
                if (auto* ai = dyn_cast<AllocaInst>(&I)) { x.aux = DL->getTypeAllocSize(ai->getAllocatedType()); x.gep.push_back({ai->getAlign().value(), 0}); }
                if (auto* sh = dyn_cast<ShuffleVectorInst>(&I)) { Opnd k; k.slot = -1; for (int m : sh->getShuffleMask()) k.k.push_back(VC(m < 0 ? 0 : m)); x.o.push_back(k); x.aux = nleaf(sh->getOperand(0)->getType()); }
                if (isa<LoadInst>(&I) || isa<StoreInst>(&I)) { Type* t = isa<LoadInst>(&I) ? I.getType() : cast<StoreInst>(&I)->getValueOperand()->getType(); std::vector<u64> of; leafOffsets(t, 0, of); for (u64 o : of) x.gep.push_back({o, 0}); }
            }
            b.is.push_back(std::move(x));
        }
        for (BasicBlock* s : successors(&B)) b.succ.push_back(bid[s]);
    }
    // blocks that can return
    bool ch = true;
    for (auto& b : d->bs) b.canRet = isa<ReturnInst>(b.B->getTerminator());
    while (ch) { ch = false; for (auto& b : d->bs) if (!b.canRet) for (int s : b.succ) if (d->bs[s].canRet) { b.canRet = ch = true; break; } }
    // post-dominators by bitsets over blocks that can return
    int W = (nb + 63) / 64; std::vector<std::vector<u64>> pd(nb, std::vector<u64>(W, ~0ull));
    for (int i = 0; i < nb; i++) if (isa<ReturnInst>(d->bs[i].B->getTerminator())) { pd[i].assign(W, 0); pd[i][i / 64] |= 1ull << (i % 64); }
    ch = true;
    while (ch) { ch = false; for (int i = nb - 1; i >= 0; i--) { auto& b = d->bs[i]; if (!b.canRet || isa<ReturnInst>(b.B->getTerminator())) continue;
        std::vector<u64> n(W, ~0ull); for (int s : b.succ) if (d->bs[s].canRet) for (int j = 0; j < W; j++) n[j] &= pd[s][j];
        n[i / 64] |= 1ull << (i % 64); if (n != pd[i]) { pd[i] = n; ch = true; } } }
    for (int i = 0; i < nb; i++) { auto& b = d->bs[i]; b.ipdom = -1; if (!b.canRet) continue;
        // the immediate post-dominator is the strict post-dominator with the most post-dominators
        int best = -1; u64 bc = 0;
        for (int j = 0; j < nb; j++) if (j != i && d->bs[j].canRet && (pd[i][j / 64] >> (j % 64) & 1)) { u64 c = 0; for (u64 q : pd[j]) c += __builtin_popcountll(q); if (c > bc) { bc = c; best = j; } }
        b.ipdom = best; }
    return d;
}
void liveness(DF* d) {
    if (d->varlive) return;
    d->varlive = true; int W = (d->nregs + 63) / 64; int nb = d->bs.size();
    std::vector<std::vector<u64>> use(nb, std::vector<u64>(W, 0)), def(nb, std::vector<u64>(W, 0));
    std::map<const Value*, std::pair<int,int>> sl; // recompute sizes from decoded operands
    // sizes of value groups: slots are allocated contiguously; operands refer to the first slot
    std::vector<int> size(d->nregs + 1, 0);
    { int s = 0; for (size_t i = 0; i < d->argSlot.size(); i++) { size[d->argSlot[i]] = d->argN[i]; s += d->argN[i]; }
      for (auto& B : *d->F) for (auto& I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { unsigned n = nleaf(I.getType()); if (s <= d->nregs) size[s] = n; s += n; } }
    auto mark = [&](std::vector<u64>& b, int s, const std::vector<u64>* notin) { for (int j = 0; j < size[s]; j++) { int q = s + j; if (notin && ((*notin)[q / 64] >> (q % 64) & 1)) continue; b[q / 64] |= 1ull << (q % 64); } };
    for (int i = 0; i < nb; i++) {
        auto& b = d->bs[i];
        for (auto& ph : b.phis) for (auto& p : ph) mark(def[i], p.first, nullptr);
        for (auto& x : b.is) { for (auto& o : x.o) if (o.slot >= 0) mark(use[i], o.slot, &def[i]); if (x.dst >= 0) mark(def[i], x.dst, nullptr); }
    }
    for (auto& b : d->bs) b.live.assign(W, 0);
    bool ch = true;
    while (ch) { ch = false; for (int i = nb - 1; i >= 0; i--) { std::vector<u64> out(W, 0);
        for (int s : d->bs[i].succ) { auto& t = d->bs[s]; for (int j = 0; j < W; j++) out[j] |= t.live[j]; for (size_t p = 0; p < t.preds.size(); p++) if (t.preds[p] == i) for (auto& ph : t.phis[p]) if (ph.second.slot >= 0) mark(out, ph.second.slot, nullptr); }
        for (int j = 0; j < W; j++) { u64 n = use[i][j] | (out[j] & ~def[i][j]); n |= d->bs[i].live[j]; if (n != d->bs[i].live[j]) { d->bs[i].live[j] = n; ch = true; } } } }
    // live[i] = registers needed at the start of block i AFTER its phis were evaluated: add the phi results
    for (int i = 0; i < nb; i++) for (auto& ph : d->bs[i].phis) for (auto& p : ph) mark(d->bs[i].live, p.first, nullptr);
}
