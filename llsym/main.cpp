#include <unordered_set>
#include <unistd.h>
#include "exec.h"
#include "code.h"
#include "solver.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <chrono>
#include <fstream>
#include <pthread.h>
#include <sys/resource.h>

// ---------------------------------------------------------------- reporting
struct Viol { std::string tag, msg; std::map<std::string, std::string> model; };
static std::vector<Viol> viols; static std::set<std::string> violTags;
static std::map<std::string, u64> reached, asserts; static std::vector<std::string> errors;
static u64 nInstr = 0, nPaths = 0, nForks = 0, nMerges = 0, nAsserts = 0, nDischarged = 0, nStruct = 0; static u64 instrLimit = 20000000000ull; static double deadline = 800;
static std::set<std::string> fnsSeen; static std::string outFile, harness; static bool traceOn = false;
static auto T0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void finish(int rc) {
    std::ofstream f(outFile);
    auto list = [&](const char* k, const std::vector<std::string>& v) { f << js(k) << ":["; bool c = false; for (auto& s : v) { if (c) f << ","; c = true; f << js(s); } f << "]"; };
    f << "{"; list("errors", errors); f << ","; list("functions", std::vector<std::string>(fnsSeen.begin(), fnsSeen.end()));
    f << ",\"instructions\":" << nInstr << ",\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"merges\":" << nMerges << ",\"obligations\":" << nAsserts << ",\"discharged\":" << nDischarged << ",\"structural\":" << nStruct
      << ",\"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"unknown\":" << SS.unknown << ",\"solver_s\":" << SS.secs << ",\"exprs\":" << P.all.size() << ",\"symbols\":" << P.vars.size();
    f << ",\"reached\":{"; bool c = false; for (auto& r : reached) { if (c) f << ","; c = true; f << js(r.first) << ":" << r.second; } f << "}";
    f << ",\"asserts\":{"; c = false; for (auto& r : asserts) { if (c) f << ","; c = true; f << js(r.first) << ":" << r.second; } f << "}";
    f << ",\"violations\":["; c = false;
    for (auto& v : viols) { if (c) f << ","; c = true; f << "{\"tag\":" << js(v.tag) << ",\"msg\":" << js(v.msg) << ",\"model\":{"; bool d = false; for (auto& m : v.model) { if (d) f << ","; d = true; f << js(m.first) << ":" << js(m.second); } f << "}}"; }
    f << "]}\n"; f.close();
    _exit(rc);
}
void die(const std::string& s) { errors.push_back(harness + ": " + s); finish(2); }
static std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }

// ---------------------------------------------------------------- memory
static inline Page* rd(State& s, u64 a) {
    unsigned r = a >> RSH; if (r < 1 || r > 3) return nullptr;
    u64 p = (a & ((1ull << RSH) - 1)) >> PB;
    if (p >= s.mem[r].size()) return nullptr;
    return s.mem[r][p].get();
}
static Page* wr(State& s, u64 a) {
    unsigned r = a >> RSH; if (r < 1 || r > 3) die("store to a bad address " + std::to_string(a));
    u64 p = (a & ((1ull << RSH) - 1)) >> PB;
    if (p > (1u << 24)) die("address space exhausted");
    auto& m = s.mem[r];
    if (p >= m.size()) m.resize(p + 1 + p / 4);
    PP& q = m[p];
    if (!q) q = std::make_shared<Page>(); else if (q.use_count() > 1) q = std::make_shared<Page>(*q);
    return q.get();
}
static V load(State& s, u64 a, unsigned bits) {
    unsigned n = (bits + 7) / 8; unsigned off = a & (PS - 1);
    Page* p = rd(s, a);
    if (off + n <= PS) {
        if (!p) { if ((a >> RSH) < 1 || (a >> RSH) > 3) die("load from a bad address " + std::to_string(a)); return VC(0); }
        bool sym = false;
        if (!p->s.empty()) for (unsigned i = 0; i < n; i++) if (p->s[off + i]) { sym = true; break; }
        if (!sym) { u128 v = 0; memcpy(&v, p->b + off, n); return VC(v & mask(bits)); }
    }
    std::vector<X> ps;
    for (int i = n - 1; i >= 0; i--) { Page* q = rd(s, a + i); unsigned o = (a + i) & (PS - 1); X x = q && !q->s.empty() ? q->s[o] : nullptr; ps.push_back(x ? x : mkC(q ? q->b[o] : 0, 8)); }
    X x = mkConcat(ps);
    if (bits < n * 8) x = mkExtract(x, bits - 1, 0);
    return VX(x);
}
static void store(State& s, u64 a, unsigned bits, const V& v) {
    unsigned n = (bits + 7) / 8; unsigned off = a & (PS - 1);
    if (!v.x && off + n <= PS) { Page* p = wr(s, a); memcpy(p->b + off, &v.c, n); if (!p->s.empty()) for (unsigned i = 0; i < n; i++) p->s[off + i] = nullptr; return; }
    X x = v.x ? v.x : mkC(v.c, bits);
    if (bits < n * 8) x = mkZext(x, n * 8);
    for (unsigned i = 0; i < n; i++) {
        Page* p = wr(s, a + i); unsigned o = (a + i) & (PS - 1); X b = mkExtract(x, i * 8 + 7, i * 8);
        if (isC(b)) { p->b[o] = (uint8_t)b->c; if (!p->s.empty()) p->s[o] = nullptr; }
        else { if (p->s.empty()) p->s.assign(PS, nullptr); p->s[o] = b; p->b[o] = 0; }
    }
}
static void copyMem(State& s, u64 d, u64 sr, u64 n) {
    if (!n || d == sr) return;
    std::vector<uint8_t> b(n); std::vector<X> x; 
    for (u64 i = 0; i < n;) { u64 k = std::min<u64>(n - i, PS - ((sr + i) & (PS - 1))); Page* p = rd(s, sr + i); unsigned o = (sr + i) & (PS - 1);
        if (p) { memcpy(&b[i], p->b + o, k); if (!p->s.empty()) for (u64 j = 0; j < k; j++) if (p->s[o + j]) { if (x.empty()) x.assign(n, nullptr); x[i + j] = p->s[o + j]; } }
        i += k; }
    for (u64 i = 0; i < n;) { unsigned o = (d + i) & (PS - 1); u64 k = std::min<u64>(n - i, PS - o); Page* p = wr(s, d + i);
        memcpy(p->b + o, &b[i], k);
        bool any = false; if (!x.empty()) for (u64 j = 0; j < k; j++) if (x[i + j]) any = true;
        if (any && p->s.empty()) p->s.assign(PS, nullptr);
        if (!p->s.empty()) for (u64 j = 0; j < k; j++) p->s[o + j] = x.empty() ? nullptr : x[i + j];
        i += k; }
}
static void setMem(State& s, u64 d, const V& v, u64 n) { for (u64 i = 0; i < n;) { unsigned o = (d + i) & (PS - 1); u64 k = std::min<u64>(n - i, PS - o);
    if (!v.x) { Page* p = wr(s, d + i); memset(p->b + o, (int)v.c, k); if (!p->s.empty()) for (u64 j = 0; j < k; j++) p->s[o + j] = nullptr; }
    else for (u64 j = 0; j < k; j++) store(s, d + i + j, 8, v);
    i += k; } }
// heap: size classes with intrusive free lists; every block has a 16-byte header with its class
static int cls(u64 n) { int c = 0; while ((16ull << c) < n) c++; return c; }
static u64 heapAlloc(State& s, u64 n, u64 al) {
    if (al > 16) { u64 b = (s.brk + 16 + al - 1) / al * al; s.brk = b + ((n + 15) & ~15ull); V h = VC(99); store(s, b - 16, 64, h); store(s, b - 8, 64, VC(n)); return b; }
    int c = cls(n ? n : 1); if (c >= 40) die("huge allocation");
    u64 a = s.freeHead[c];
    if (a) { V nx = load(s, a, 64); if (nx.x) die("corrupt free list"); s.freeHead[c] = (u64)nx.c; store(s, a, 64, VC(0)); }
    else { a = s.brk + 16; s.brk = a + (16ull << c); store(s, a - 16, 64, VC(c)); }
    store(s, a - 8, 64, VC(n));
    return a;
}
static void heapFree(State& s, u64 a) {
    if (!a) return;
    V c = load(s, a - 16, 64), n = load(s, a - 8, 64); if (c.x || n.x) die("corrupt heap header");
    setMem(s, a, VC(0), (u64)n.c);
    if (c.c == 99) return;
    store(s, a, 64, VC(s.freeHead[(int)c.c])); s.freeHead[(int)c.c] = a;
}

// ---------------------------------------------------------------- path conditions
static u64 nUnasked = 0;
static bool bigger(X c, size_t n) { std::vector<X> st{c}; std::unordered_set<X> seen; while (!st.empty()) { X x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (seen.size() > n) return true; for (X y : x->a) st.push_back(y); } return false; }
static int feas(State& s, X c) { // may c hold?
    if (isC(c)) return (int)c->c;
    for (int m = 0; m < NM; m++) if ((s.alive >> m & 1) && c->ev[m]) return 1;
    for (X p : s.pc) { if (p == c) return 1; if (p == mkNot(c)) return 0; }
    std::vector<X> q = s.pc; q.push_back(c);
    // both sides of a branch on a deep expression are followed without asking: an infeasible side only
    // adds a path whose condition is unsatisfiable, so no report can come from it
    if (bigger(c, 400)) { nUnasked++; return 1; }
    int r = solve(q, nullptr, 1000);
    if (r < 0) { nUnasked++; return 1; }
    return r;
}
static void assume(State& s, X c) {
    if (isC(c)) { if (!c->c) die("assume false"); return; }
    if (c->k == AND && c->w == 1) { for (X y : c->a) assume(s, y); return; }
    for (X p : s.pc) if (p == c) return;
    s.pc.push_back(c);
    for (int m = 0; m < NM; m++) if (!c->ev[m]) s.alive &= ~(1u << m);
}
static std::string stackOf(State& s) { std::string r; int n = 0; for (int i = (int)s.fr.size() - 1; i >= 0 && n < 6; i--) { std::string d = demangle(s.fr[i]->f->name); size_t h = d.rfind("::h"); if (h != std::string::npos && d.size() - h == 19) d = d.substr(0, h); r += (n++ ? " < " : "") + d; } return r; }
// false: it cannot happen after all
static bool violation(State& s, const std::string& tag, const std::string& msg, std::vector<X> extra) {
    if (violTags.count(tag)) return true;
    std::vector<X> q = s.pc; q.insert(q.end(), extra.begin(), extra.end());
    std::map<uint32_t, u128> m; int r = -1;
    for (int k = 0; k < NM && r < 1; k++) { // a simulation vector that reaches this point makes the query easy
        if (!(s.alive >> k & 1)) continue;
        bool ok = true; for (X x : extra) if (!x->ev[k]) ok = false;
        if (!ok) continue;
        std::vector<X> h = q; for (X x : P.vars) h.push_back(mkEq(x, mkC(x->ev[k], x->w)));
        r = solve(h, &m, 60000);
    }
    if (r < 1) r = solve(q, &m, 120000);
    if (r == 0) return false;
    if (r < 0) die("solver gave no answer for a counterexample to " + tag);
    violTags.insert(tag);
    Viol v; v.tag = tag; v.msg = msg + " [" + stackOf(s) + "]";
    for (X x : P.vars) { char k[32]; snprintf(k, 32, "%u", x->symid); v.model[k] = u128s(m[x->id]); }
    viols.push_back(v);
    if (viols.size() >= 4) finish(1);
    return true;
}

// ---------------------------------------------------------------- externals
enum Ext { X_NONE = -1, X_SYM = 1, X_ASSUME, X_ASSERT, X_ASSERTEQ, X_REACH, X_CONC, X_TRACE, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMALIGN, X_RALLOC, X_RDEALLOC, X_RREALLOC, X_RALLOCZ, X_MEMCMP, X_STRLEN, X_PANIC, X_ABORT, X_ZERO, X_LOG, X_CEIL, X_R1CS, X_INTRIN, X_NOP, X_ALLOWPANIC, X_NOMERGE, X_ISSYM, X_GETENV };
int extId(Function* f) {
    static std::unordered_map<Function*, int> memo; auto it = memo.find(f); if (it != memo.end()) return it->second;
    std::string n = f->getName().str(); int r = X_NONE;
    static std::map<std::string, int> t = {{"ll_sym", X_SYM}, {"ll_no_merge", X_NOMERGE}, {"ll_assume", X_ASSUME}, {"ll_assert", X_ASSERT}, {"ll_assert_eq", X_ASSERTEQ}, {"ll_reach", X_REACH}, {"ll_concretize", X_CONC}, {"ll_trace", X_TRACE}, {"ll_allow_panic", X_ALLOWPANIC}, {"ll_is_symbolic", X_ISSYM},
        {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"posix_memalign", X_MEMALIGN}, {"__rust_alloc", X_RALLOC}, {"__rust_dealloc", X_RDEALLOC}, {"__rust_realloc", X_RREALLOC}, {"__rust_alloc_zeroed", X_RALLOCZ},
        {"__rdl_alloc", X_RALLOC}, {"__rdl_dealloc", X_RDEALLOC}, {"__rdl_realloc", X_RREALLOC}, {"__rdl_alloc_zeroed", X_RALLOCZ},
        {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP}, {"strlen", X_STRLEN}, {"abort", X_ABORT}, {"log", X_LOG}, {"ceil", X_CEIL}, {"getenv", X_GETENV}};
    auto i = t.find(n);
    if (i != t.end()) r = i->second;
    else if (n.rfind("ll_r1cs", 0) == 0) r = X_R1CS;
    else if (n.find("core9panicking") != std::string::npos || n == "rust_begin_unwind" || n.find("rust_panic") != std::string::npos || n.find("13unwrap_failed") != std::string::npos || n.find("13expect_failed") != std::string::npos || n.find("slice_start_index_len_fail") != std::string::npos || n.find("slice_end_index_len_fail") != std::string::npos || n.find("slice_index_order_fail") != std::string::npos || n.find("17capacity_overflow") != std::string::npos || n.find("handle_alloc_error") != std::string::npos || n.find("len_mismatch_fail") != std::string::npos || n.find("begin_panic") != std::string::npos || n.find("slice_error_fail") != std::string::npos || n.find("panic_already") != std::string::npos) r = X_PANIC;
    else if (f->isIntrinsic()) r = X_INTRIN;
    else if (f->isDeclaration()) r = 1000;
    memo[f] = r; return r;
}
static std::string cstr(State& s, u64 p, u64 n) { std::string r; for (u64 i = 0; i < n && i < 400; i++) { V v = load(s, p + i, 8); if (v.x) { r += '?'; continue; } r += (char)v.c; } return r; }

typedef std::vector<SP> SL;
static SL run(SP s, size_t depth, int join);
int proveEq(State& s, X x, X y);
bool r1csCall(State& s, const std::string& name, const std::vector<V>& a, V& ret);
V memLoad(State& s, u64 a, unsigned bits) { return load(s, a, bits); }
void countObl(const std::string& tag, bool structural) { nAsserts++; nDischarged++; asserts[tag]++; if (structural) nStruct++; }
void noteError(const std::string& e) { for (auto& x : errors) if (x == e) return; errors.push_back(harness + ": " + e); }
void r1csViol(State& s, const std::string& tag, const std::string& msg, std::vector<X> extra, const std::map<std::string, std::string>& more) { nAsserts++; size_t n = viols.size(); violation(s, tag, msg, extra); if (viols.size() > n) for (auto& m : more) viols.back().model[m.first] = m.second; }
void pcOf(State& s, std::vector<X>& q) { q = s.pc; }

static void checkAssert(State& s, X c, const std::string& tag, X p = nullptr, X q = nullptr) {
    nAsserts++; asserts[tag]++;
    if (isC(c) && c->c) { nDischarged++; nStruct++; return; }
    X n = mkNot(c); bool maybe = false;
    if (p && p->w > 1 && proveEq(s, p, q) == 1) { nDischarged++; return; }
    if (c->k == EQ && proveEq(s, c->a[0], c->a[1]) == 1) { nDischarged++; return; }
    for (int m = 0; m < NM; m++) if ((s.alive >> m & 1) && n->ev[m]) maybe = true;
    if (!maybe) { std::vector<X> q = s.pc; q.push_back(n); int r = solve(q, nullptr, 300000); if (r == 0) { nDischarged++; return; } if (r < 0) { errors.push_back(harness + ": solver gave no answer for " + tag); return; } }
    if (!violation(s, tag, "assertion violated: " + tag, {n})) nDischarged++;
}

static inline V get(const Frame& f, const Opnd& o, unsigned i = 0) { return o.slot >= 0 ? f.r[o.slot + i] : o.k[i]; }

// enumerate feasible values of x
static std::vector<u128> values(State& s, X x, unsigned limit) {
    std::vector<u128> r; std::vector<X> q = s.pc;
    // candidates from ite leaves
    std::set<u128> cand; std::vector<X> st{x}; std::set<X> seen;
    std::function<bool(X, unsigned)> coll = [&](X y, unsigned d) -> bool { if (isC(y)) { cand.insert(y->c); return true; } if (y->k == ITE && d < 200) return coll(y->a[1], d + 1) && coll(y->a[2], d + 1); return false; };
    bool closed = coll(x, 0) && cand.size() <= limit;
    if (closed) { for (u128 c : cand) if (feas(s, mkEq(x, mkC(c, x->w)))) r.push_back(c); return r; }
    for (;;) {
        std::map<uint32_t, u128> m; int k = solve(q, &m);
        if (k < 0) die("solver gave no answer enumerating values");
        if (k == 0) return r;
        u128 v = evalModel(x, m); r.push_back(v);
        if (r.size() > limit) { die("too many values for a symbolic address or length: " + stackOf(s)); }
        q.push_back(mkNot(mkEq(x, mkC(v, x->w))));
    }
}

static bool enterBlock(State& s, Frame& f, int from, int to) { // evaluates phis
    DB& b = f.f->bs[to];
    if (!b.phis.empty() && !b.phin.empty()) {
        for (size_t p = 0; p < b.preds.size(); p++) if (b.preds[p] == from) {
            auto& ph = b.phis[p]; static std::vector<V> tmp; tmp.clear();
            for (size_t i = 0; i < ph.size(); i++) for (unsigned j = 0; j < b.phin[0][i]; j++) tmp.push_back(get(f, ph[i].second, j));
            size_t k = 0;
            for (size_t i = 0; i < ph.size(); i++) for (unsigned j = 0; j < b.phin[0][i]; j++) f.r[ph[i].first + j] = tmp[k++];
            break;
        }
    }
    f.bb = to; f.ip = 0;
    return true;
}

// ---------------------------------------------------------------- merging
static bool ptrLike(u128 v) { u64 r = (u64)v >> RSH; return (v >> 64) == 0 && r >= 1 && r <= 4; }
static SP tryMerge(SP a, SP b, int joinBlock) {
    if (a->fr.size() != b->fr.size() || a->brk != b->brk || memcmp(a->freeHead, b->freeHead, sizeof a->freeHead) || a->notes != b->notes) return nullptr;
    for (size_t i = 0; i + 1 < a->fr.size(); i++) if (a->fr[i] != b->fr[i]) {
        Frame &f = *a->fr[i], &g = *b->fr[i]; if (f.f != g.f || f.bb != g.bb || f.ip != g.ip || f.sp != g.sp) return nullptr;
        for (size_t j = 0; j < f.r.size(); j++) if (f.r[j].x != g.r[j].x || f.r[j].c != g.r[j].c) return nullptr; }
    // path conditions
    size_t k = 0; while (k < a->pc.size() && k < b->pc.size() && a->pc[k] == b->pc[k]) k++;
    X ca = T1(), cb = T1();
    for (size_t i = k; i < a->pc.size(); i++) ca = mkAnd(ca, a->pc[i]);
    for (size_t i = k; i < b->pc.size(); i++) cb = mkAnd(cb, b->pc[i]);
    // memory: refuse when concrete pointers differ
    struct Diff { int r; size_t p; };
    std::vector<Diff> diffs;
    for (int r = 1; r <= 3; r++) {
        size_t n = std::max(a->mem[r].size(), b->mem[r].size());
        for (size_t p = 0; p < n; p++) { Page* x = p < a->mem[r].size() ? a->mem[r][p].get() : nullptr; Page* y = p < b->mem[r].size() ? b->mem[r][p].get() : nullptr; if (x != y) diffs.push_back({r, p}); }
    }
    static Page zeroPage;
    for (auto& d : diffs) {
        Page* x = d.p < a->mem[d.r].size() && a->mem[d.r][d.p] ? a->mem[d.r][d.p].get() : &zeroPage; Page* y = d.p < b->mem[d.r].size() && b->mem[d.r][d.p] ? b->mem[d.r][d.p].get() : &zeroPage;
        for (unsigned o = 0; o < PS; o += 8) { if (!memcmp(x->b + o, y->b + o, 8)) continue; u64 u, v; memcpy(&u, x->b + o, 8); memcpy(&v, y->b + o, 8);
            bool su = false, sv = false; for (int j = 0; j < 8; j++) { if (!x->s.empty() && x->s[o + j]) su = true; if (!y->s.empty() && y->s[o + j]) sv = true; }
            if ((!su && ptrLike(u)) || (!sv && ptrLike(v))) return nullptr; }
    }
    Frame& fa = *a->fr.back(); Frame& fb = *b->fr.back();
    if (fa.f != fb.f || fa.sp != fb.sp) return nullptr;
    liveness(fa.f);
    std::vector<size_t> rd;
    for (size_t i = 0; i < fa.r.size(); i++) {
        if (fa.r[i].x == fb.r[i].x && (fa.r[i].x || fa.r[i].c == fb.r[i].c)) continue;
        if (joinBlock >= 0 && !(fa.f->bs[joinBlock].live[i / 64] >> (i % 64) & 1)) continue;
        const V &u = fa.r[i], &v = fb.r[i];
        if (!u.x && !v.x && ptrLike(u.c) && ptrLike(v.c) && u.c != v.c && ((u64)u.c >> RSH) >= 2) return nullptr;
        rd.push_back(i);
    }
    nMerges++;
    SP m = std::make_shared<State>(*a);
    m->pc.resize(k); m->alive = a->alive | b->alive;
    X c = mkOr(ca, cb); // alive is exact enough: union of both
    if (!isC(c)) { m->pc.push_back(c); }
    // choose the shorter selector
    X sel = ca;
    std::vector<unsigned> rw; // register widths unknown: use the wider symbolic operand
    Frame& f = m->top();
    if (!rd.empty()) {
        std::vector<unsigned> wid(f.r.size(), 0);
        int s = 0; for (auto& ar : f.f->F->args()) { std::vector<unsigned> w; leaves(ar.getType(), w); for (unsigned q : w) wid[s++] = q; }
        for (auto& B : *f.f->F) for (auto& I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { std::vector<unsigned> w; leaves(I.getType(), w); for (unsigned q : w) wid[s++] = q; }
        for (size_t i : rd) f.r[i] = VX(mkIte(sel, toX(fa.r[i], wid[i]), toX(fb.r[i], wid[i])));
    }
    for (auto& d : diffs) {
        Page* x = d.p < a->mem[d.r].size() && a->mem[d.r][d.p] ? a->mem[d.r][d.p].get() : &zeroPage; Page* y = d.p < b->mem[d.r].size() && b->mem[d.r][d.p] ? b->mem[d.r][d.p].get() : &zeroPage;
        u64 base = ((u64)d.r << RSH) + ((u64)d.p << PB);
        for (unsigned o = 0; o < PS; o++) {
            X p = x->s.empty() ? nullptr : x->s[o], q = y->s.empty() ? nullptr : y->s[o];
            if (p == q && (p || x->b[o] == y->b[o])) continue;
            X v = mkIte(sel, p ? p : mkC(x->b[o], 8), q ? q : mkC(y->b[o], 8));
            store(*m, base + o, 8, VX(v));
        }
    }
    return m;
}
static bool noMerge; // a harness whose paths are few asks for them to stay apart
static SL mergeAll(SL l, int joinBlock) {
    if (noMerge) return l;
    SL o;
    while (!l.empty()) {
        SP s = l.back(); l.pop_back(); bool again = true;
        while (again) { again = false; for (size_t i = 0; i < l.size(); i++) { SP m = tryMerge(s, l[i], joinBlock); if (m) { s = m; l.erase(l.begin() + i); again = true; break; } } }
        o.push_back(s);
    }
    return o;
}

// ---------------------------------------------------------------- arithmetic
static V bin(unsigned op, const V& a, const V& b, unsigned w) {
    if (!a.x && !b.x) {
        u128 x = a.c, y = b.c, m = mask(w);
        switch (op) {
        case Instruction::Add: return VC((x + y) & m);
        case Instruction::Sub: return VC((x - y) & m);
        case Instruction::Mul: return VC((x * y) & m);
        case Instruction::And: return VC(x & y);
        case Instruction::Or: return VC(x | y);
        case Instruction::Xor: return VC(x ^ y);
        case Instruction::Shl: return VC(y >= w ? 0 : (x << (unsigned)y) & m);
        case Instruction::LShr: return VC(y >= w ? 0 : x >> (unsigned)y);
        case Instruction::AShr: return VC((u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)) & m);
        case Instruction::UDiv: if (!y) die("division by zero"); return VC(x / y);
        case Instruction::URem: if (!y) die("division by zero"); return VC(x % y);
        case Instruction::SDiv: if (!y) die("division by zero"); return VC((u128)(sx(x, w) / sx(y, w)) & m);
        case Instruction::SRem: if (!y) die("division by zero"); return VC((u128)(sx(x, w) % sx(y, w)) & m);
        }
    }
    X x = toX(a, w), y = toX(b, w);
    switch (op) {
    case Instruction::Add: return VX(mkAdd({x, y}));
    case Instruction::Sub: return VX(mkSub(x, y));
    case Instruction::Mul: return VX(mkMul(x, y));
    case Instruction::And: return VX(mkAnd(x, y));
    case Instruction::Or: return VX(mkOr(x, y));
    case Instruction::Xor: return VX(mkXor(x, y));
    case Instruction::Shl: return VX(mkShl(x, y));
    case Instruction::LShr: return VX(mkLshr(x, y));
    case Instruction::AShr: return VX(mkAshr(x, y));
    case Instruction::UDiv: return VX(mkDiv(UDIV, x, y));
    case Instruction::URem: return VX(mkDiv(UREM, x, y));
    case Instruction::SDiv: return VX(mkDiv(SDIV, x, y));
    case Instruction::SRem: return VX(mkDiv(SREM, x, y));
    }
    die("binary operation");
}
static V icmp(CmpInst::Predicate p, const V& a, const V& b, unsigned w) {
    if (!a.x && !b.x) {
        u128 x = a.c, y = b.c; __int128 sxx = sx(x, w), sy = sx(y, w);
        switch (p) {
        case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y);
        case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y);
        case CmpInst::ICMP_SGT: return VC(sxx > sy); case CmpInst::ICMP_SGE: return VC(sxx >= sy); case CmpInst::ICMP_SLT: return VC(sxx < sy); case CmpInst::ICMP_SLE: return VC(sxx <= sy);
        default: die("icmp");
        }
    }
    X x = toX(a, w), y = toX(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return VX(mkEq(x, y)); case CmpInst::ICMP_NE: return VX(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: return VX(mkUlt(y, x)); case CmpInst::ICMP_UGE: return VX(mkNot(mkUlt(x, y))); case CmpInst::ICMP_ULT: return VX(mkUlt(x, y)); case CmpInst::ICMP_ULE: return VX(mkNot(mkUlt(y, x)));
    case CmpInst::ICMP_SGT: return VX(mkSlt(y, x)); case CmpInst::ICMP_SGE: return VX(mkNot(mkSlt(x, y))); case CmpInst::ICMP_SLT: return VX(mkSlt(x, y)); case CmpInst::ICMP_SLE: return VX(mkNot(mkSlt(y, x)));
    default: die("icmp");
    }
}
static double dbl(const V& v) { if (v.x) die("symbolic floating point"); u64 u = (u64)v.c; double d; memcpy(&d, &u, 8); return d; }
static V dv(double d) { u64 u; memcpy(&u, &d, 8); return VC(u); }
static V popcnt(const V& a, unsigned w) { if (!a.x) return VC(__builtin_popcountll((u64)a.c) + __builtin_popcountll((u64)(a.c >> 64))); std::vector<X> v; for (unsigned i = 0; i < w; i++) v.push_back(mkZext(mkExtract(a.x, i, i), w)); return VX(mkAdd(v)); }
static V ctz(const V& a, unsigned w, bool lead) {
    if (!a.x) { unsigned n = 0; while (n < w && !((a.c >> (lead ? w - 1 - n : n)) & 1)) n++; return VC(n); }
    X r = mkC(w, w); for (int i = w - 1; i >= 0; i--) { unsigned p = lead ? w - 1 - i : i; r = mkIte(mkExtract(a.x, p, p), mkC(i, w), r); } return VX(r);
}
// intrinsics: returns false when unknown
static bool intrinsic(State& s, Frame& f, DI& d) {
    auto id = d.callee->getIntrinsicID(); auto A = [&](unsigned k, unsigned i = 0) { return get(f, d.o[k], i); };
    auto set = [&](unsigned i, V v) { f.r[d.dst + i] = v; };
    unsigned w = d.w;
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { V a = A(0), b = A(1), n = A(2); if (a.x || b.x || n.x) die("memcpy with a symbolic operand in " + stackOf(s)); copyMem(s, (u64)a.c, (u64)b.c, (u64)n.c); return true; }
    case Intrinsic::memset: { V a = A(0), n = A(2); if (a.x || n.x) die("memset with a symbolic operand"); setMem(s, (u64)a.c, A(1), (u64)n.c); return true; }
    case Intrinsic::expect: set(0, A(0)); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        if (d.n != 2) die("vector overflow intrinsic");
        V a = A(0), b = A(1); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        int kind = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? 0 : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? 1 : 2;
        static const unsigned ops[] = {Instruction::Add, Instruction::Sub, Instruction::Mul};
        V r = bin(ops[kind], a, b, w); V o;
        if (!a.x && !b.x) {
            bool ov;
            if (sg) { __int128 x = sx(a.c, w), y = sx(b.c, w), z; if (kind == 0) ov = __builtin_add_overflow(x, y, &z); else if (kind == 1) ov = __builtin_sub_overflow(x, y, &z); else ov = __builtin_mul_overflow(x, y, &z); if (!ov) ov = sx((u128)z & mask(w), w) != z; }
            else { u128 x = a.c, y = b.c, z; if (kind == 0) ov = __builtin_add_overflow(x, y, &z); else if (kind == 1) ov = x < y, z = 0; else ov = __builtin_mul_overflow(x, y, &z); if (!ov && kind != 1) ov = z > mask(w); }
            o = VC(ov);
        } else {
            X x = toX(a, w), y = toX(b, w);
            if (!sg && kind == 1) o = VX(mkUlt(x, y));
            else if (!sg && kind == 0) { if (w > 127) die("wide overflow"); X z = mkAdd({mkZext(x, w + 1), mkZext(y, w + 1)}); o = VX(mkExtract(z, w, w)); }
            else if (w > 64) die("wide symbolic multiplication overflow");
            else if (!sg) { X z = mkMul(mkZext(x, 2 * w), mkZext(y, 2 * w)); o = VX(mkNot(mkEq(mkExtract(z, 2 * w - 1, w), mkC(0, w)))); }
            else { X p = mkSext(x, 2 * w), q = mkSext(y, 2 * w); X z = kind == 0 ? mkAdd({p, q}) : kind == 1 ? mkSub(p, q) : mkMul(p, q); o = VX(mkNot(mkEq(mkSext(mkExtract(z, w - 1, 0), 2 * w), z))); }
        }
        set(0, r); set(1, o); return true; }
    default: break;
    }
    for (unsigned i = 0; i < d.n; i++) {
        auto B = [&](unsigned k) { return get(f, d.o[k], i); };
        V r;
        switch (id) {
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { V a = B(0), b = B(1); V lt = icmp(id == Intrinsic::umin || id == Intrinsic::umax ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, a, b, w); bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
            if (!lt.x) r = (lt.c != 0) == mn ? a : b; else r = VX(mkIte(lt.x, toX(mn ? a : b, w), toX(mn ? b : a, w))); break; }
        case Intrinsic::uadd_sat: { V a = B(0), b = B(1); if (w > 127) die("wide saturation"); X z = mkAdd({mkZext(toX(a, w), w + 1), mkZext(toX(b, w), w + 1)}); r = VX(mkIte(mkExtract(z, w, w), mkC(~(u128)0, w), mkExtract(z, w - 1, 0))); break; }
        case Intrinsic::usub_sat: { V a = B(0), b = B(1); r = VX(mkIte(mkUlt(toX(a, w), toX(b, w)), mkC(0, w), mkSub(toX(a, w), toX(b, w)))); break; }
        case Intrinsic::abs: { V a = B(0); X x = toX(a, w); r = VX(mkIte(mkExtract(x, w - 1, w - 1), mkNeg(x), x)); break; }
        case Intrinsic::ctpop: r = popcnt(B(0), w); break;
        case Intrinsic::ctlz: r = ctz(B(0), w, true); break;
        case Intrinsic::cttz: r = ctz(B(0), w, false); break;
        case Intrinsic::bswap: { X x = toX(B(0), w); std::vector<X> v; for (unsigned j = 0; j < w / 8; j++) v.push_back(mkExtract(x, j * 8 + 7, j * 8)); r = VX(mkConcat(v)); break; }
        case Intrinsic::bitreverse: { X x = toX(B(0), w); std::vector<X> v; for (unsigned j = 0; j < w; j++) v.push_back(mkExtract(x, j, j)); r = VX(mkConcat(v)); break; }
        case Intrinsic::fshl: case Intrinsic::fshr: { V a = B(0), b = B(1), n = B(2); if (n.x) { // symbolic amount: barrel over the concatenation
                if (w > 64) die("wide funnel shift"); X z = mkConcat({toX(a, w), toX(b, w)}); X k = mkZext(mkAnd(n.x, mkC(w - 1, w)), 2 * w); r = id == Intrinsic::fshl ? VX(mkExtract(mkShl(z, k), 2 * w - 1, w)) : VX(mkExtract(mkLshr(z, k), w - 1, 0)); break; }
            unsigned k = (unsigned)(n.c % w); X x = toX(a, w), y = toX(b, w);
            if (!k) r = id == Intrinsic::fshl ? a : b;
            else { if (id == Intrinsic::fshr) k = w - k; r = VX(mkConcat({mkExtract(x, w - 1 - k, 0), mkExtract(y, w - 1, w - k)})); }
            break; }
        case Intrinsic::ceil: r = dv(ceil(dbl(B(0)))); break;
        case Intrinsic::floor: r = dv(floor(dbl(B(0)))); break;
        case Intrinsic::log: r = dv(log(dbl(B(0)))); break;
        case Intrinsic::log2: r = dv(log2(dbl(B(0)))); break;
        case Intrinsic::fptoui_sat: { double x = dbl(B(0)); double mx = ldexp(1.0, w); r = VC(!(x > 0) ? 0 : x >= mx ? mask(w) : (u128)x); break; }
        case Intrinsic::fptosi_sat: { double x = dbl(B(0)); r = VC((u128)(__int128)x & mask(w)); break; }
        case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: r = B(0); break;
        case Intrinsic::is_constant: r = VC(0); break;
        case Intrinsic::objectsize: r = VC(mask(w)); break;
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
            std::vector<unsigned> ws; leaves(d.I->getOperand(0)->getType(), ws); V acc = get(f, d.o[0], 0); unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Xor;
            for (unsigned j = 1; j < ws.size(); j++) acc = bin(op, acc, get(f, d.o[0], j), w); r = acc; break; }
        default: die("intrinsic " + d.callee->getName().str());
        }
        set(i, r);
    }
    return true;
}

static void pushFrame(State& s, DF* f, const std::vector<V>& args) {
    FP n = std::make_shared<Frame>(); n->f = f; n->r.assign(f->nregs, V()); n->sp = s.sp;
    size_t k = 0; for (size_t i = 0; i < f->argSlot.size(); i++) for (unsigned j = 0; j < f->argN[i]; j++) n->r[f->argSlot[i] + j] = args[k++];
    s.fr.push_back(n);
    if (s.fr.size() > 4000) die("call stack too deep");
    static std::set<DF*> seen; if (seen.insert(f).second) fnsSeen.insert(f->name);
}
static SP clone(const SP& s) { return std::make_shared<State>(*s); }

// continue after a multi-way split within the current run()
static bool proceed(SL& st, SP& s, SL& out, size_t depth, int join) {
    if (st.empty()) return false;
    if (st.size() == 1) { s = st[0]; return true; }
    for (auto& x : st) { SL r = run(x, depth, join); out.insert(out.end(), r.begin(), r.end()); }
    return false;
}

static SL run(SP s, size_t depth, int join) {
    SL out;
    for (;;) {
        Frame* f = &s->top();
        // arrived?
        if (s->fr.size() == depth && join >= 0 && f->bb == join && f->ip == 0) { out.push_back(s); return out; }
        DB* b = &f->f->bs[f->bb];
        if ((++nInstr & 0xfff) == 0) { if (nInstr > instrLimit) die("instruction budget exceeded"); if (elapsed() > deadline) die("time budget exceeded in " + stackOf(*s)); }
        DI& d = b->is[f->ip];
        switch (d.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            for (unsigned i = 0; i < d.n; i++) f->r[d.dst + i] = bin(d.op, get(*f, d.o[0], i), get(*f, d.o[1], i), d.w);
            break;
        case Instruction::ICmp: { auto p = cast<ICmpInst>(d.I)->getPredicate(); for (unsigned i = 0; i < d.n; i++) f->r[d.dst + i] = icmp(p, get(*f, d.o[0], i), get(*f, d.o[1], i), d.aux); break; }
        case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::Freeze: {
            if (d.op == Instruction::BitCast && d.o[0].slot >= 0) { std::vector<unsigned> sw; leaves(d.I->getOperand(0)->getType(), sw); if (sw.size() != d.n) { // reinterpret through a wide value
                    std::vector<X> v; for (int i = sw.size() - 1; i >= 0; i--) v.push_back(toX(get(*f, d.o[0], i), sw[i])); X all = mkConcat(v); unsigned pos = 0; for (unsigned i = 0; i < d.n; i++) { f->r[d.dst + i] = VX(mkExtract(all, pos + d.ws[i] - 1, pos)); pos += d.ws[i]; } break; } }
            for (unsigned i = 0; i < d.n; i++) { V v = get(*f, d.o[0], i); unsigned sw = d.op == Instruction::Freeze ? d.ws[i] : d.aux, dw = d.ws[i];
                if (!v.x) v.c &= mask(dw); else if (dw > sw) v = VX(mkZext(v.x, dw)); else if (dw < sw) v = VX(mkExtract(v.x, dw - 1, 0));
                f->r[d.dst + i] = v; }
            break; }
        case Instruction::SExt: for (unsigned i = 0; i < d.n; i++) { V v = get(*f, d.o[0], i); if (!v.x) v.c = (u128)sx(v.c, d.aux) & mask(d.w); else v = VX(mkSext(v.x, d.w)); f->r[d.dst + i] = v; } break;
        case Instruction::Select: {
            auto* si = cast<SelectInst>(d.I); bool vc = si->getCondition()->getType()->isVectorTy();
            for (unsigned i = 0; i < d.n; i++) { V c = get(*f, d.o[0], vc ? i : 0); if (!c.x) f->r[d.dst + i] = get(*f, d.o[c.c ? 1 : 2], i); else f->r[d.dst + i] = VX(mkIte(c.x, toX(get(*f, d.o[1], i), d.ws[i]), toX(get(*f, d.o[2], i), d.ws[i]))); }
            break; }
        case Instruction::GetElementPtr: {
            V p = get(*f, d.o[0]); u128 off = d.aux; X xo = nullptr;
            for (size_t i = 0; i < d.gep.size(); i++) { V v = get(*f, d.o[d.gep[i].second]); unsigned iw = d.ws.size() > 1 + i ? d.ws[1 + i] : 64; 
                if (!v.x) off += (u64)sx(v.c, iw) * d.gep[i].first; else { X t = mkMul(mkC(d.gep[i].first, 64), iw < 64 ? mkSext(v.x, 64) : v.x); xo = xo ? mkAdd({xo, t}) : t; } }
            if (!p.x && !xo) f->r[d.dst] = VC((u64)(p.c + off));
            else { std::vector<X> v{toX(p, 64), mkC((u64)off, 64)}; if (xo) v.push_back(xo); f->r[d.dst] = VX(mkAdd(v)); }
            break; }
        case Instruction::Load: {
            V p = get(*f, d.o[0]);
            if (!p.x) { for (unsigned i = 0; i < d.n; i++) f->r[d.dst + i] = load(*s, (u64)p.c + d.gep[i].first, d.ws[i]); break; }
            auto vs = values(*s, p.x, 1024); if (vs.empty()) return out; // the path is infeasible
            for (unsigned i = 0; i < d.n; i++) { X r = nullptr; for (u128 a : vs) { X v = toX(load(*s, (u64)a + d.gep[i].first, d.ws[i]), d.ws[i]); r = r ? mkIte(mkEq(p.x, mkC(a, 64)), v, r) : v; } f->r[d.dst + i] = VX(r); }
            break; }
        case Instruction::Store: {
            V p = get(*f, d.o[1]);
            if (!p.x) { for (unsigned i = 0; i < d.ws.size(); i++) store(*s, (u64)p.c + d.gep[i].first, d.ws[i], get(*f, d.o[0], i)); break; }
            auto vs = values(*s, p.x, 1024); if (vs.empty()) return out; // the path is infeasible
            for (unsigned i = 0; i < d.ws.size(); i++) { V v = get(*f, d.o[0], i); for (u128 a : vs) { u64 ad = (u64)a + d.gep[i].first; X o = toX(load(*s, ad, d.ws[i]), d.ws[i]); store(*s, ad, d.ws[i], VX(mkIte(mkEq(p.x, mkC(a, 64)), toX(v, d.ws[i]), o))); } }
            break; }
        case Instruction::Alloca: { V n = get(*f, d.o[0]); if (n.x) die("symbolic alloca"); u64 al = std::max<u64>(16, d.gep[0].first); s->sp = (s->sp + al - 1) / al * al; f->r[d.dst] = VC(s->sp); s->sp += (u64)n.c * d.aux; break; }
        case Instruction::ExtractValue: for (unsigned i = 0; i < d.n; i++) f->r[d.dst + i] = get(*f, d.o[0], d.aux + i); break;
        case Instruction::InsertValue: { std::vector<V> t; for (unsigned i = 0; i < d.n; i++) t.push_back(get(*f, d.o[0], i)); for (unsigned i = 0; i < d.gep[0].first; i++) t[d.aux + i] = get(*f, d.o[1], i); for (unsigned i = 0; i < d.n; i++) f->r[d.dst + i] = t[i]; break; }
        case Instruction::ExtractElement: { V ix = get(*f, d.o[1]); if (ix.x) die("symbolic vector index"); f->r[d.dst] = get(*f, d.o[0], (unsigned)ix.c); break; }
        case Instruction::InsertElement: { V ix = get(*f, d.o[2]); if (ix.x) die("symbolic vector index"); std::vector<V> t; for (unsigned i = 0; i < d.n; i++) t.push_back(i == ix.c ? get(*f, d.o[1]) : get(*f, d.o[0], i)); for (unsigned i = 0; i < d.n; i++) f->r[d.dst + i] = t[i]; break; }
        case Instruction::ShuffleVector: { std::vector<V> t; for (unsigned i = 0; i < d.n; i++) { u64 m = (u64)d.o[2].k[i].c; t.push_back(m < d.aux ? get(*f, d.o[0], m) : get(*f, d.o[1], m - d.aux)); } for (unsigned i = 0; i < d.n; i++) f->r[d.dst + i] = t[i]; break; }
        case Instruction::FAdd: f->r[d.dst] = dv(dbl(get(*f, d.o[0])) + dbl(get(*f, d.o[1]))); break;
        case Instruction::FSub: f->r[d.dst] = dv(dbl(get(*f, d.o[0])) - dbl(get(*f, d.o[1]))); break;
        case Instruction::FMul: f->r[d.dst] = dv(dbl(get(*f, d.o[0])) * dbl(get(*f, d.o[1]))); break;
        case Instruction::FDiv: f->r[d.dst] = dv(dbl(get(*f, d.o[0])) / dbl(get(*f, d.o[1]))); break;
        case Instruction::UIToFP: { V v = get(*f, d.o[0]); if (v.x) die("symbolic floating point"); f->r[d.dst] = dv((double)v.c); break; }
        case Instruction::SIToFP: { V v = get(*f, d.o[0]); if (v.x) die("symbolic floating point"); f->r[d.dst] = dv((double)sx(v.c, d.aux)); break; }
        case Instruction::FPToUI: f->r[d.dst] = VC((u128)dbl(get(*f, d.o[0]))); break;
        case Instruction::FPToSI: f->r[d.dst] = VC((u128)(__int128)dbl(get(*f, d.o[0])) & mask(d.w)); break;
        case Instruction::FCmp: { double x = dbl(get(*f, d.o[0])), y = dbl(get(*f, d.o[1])); bool r; switch (cast<FCmpInst>(d.I)->getPredicate()) { case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UNE: r = !(x == y); break; case CmpInst::FCMP_UGT: r = !(x <= y); break; case CmpInst::FCMP_ULT: r = !(x >= y); break; case CmpInst::FCMP_UNO: r = x != x || y != y; break; case CmpInst::FCMP_ORD: r = x == x && y == y; break; default: die("fcmp"); } f->r[d.dst] = VC(r); break; }
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: {
            V p = get(*f, d.o[0]); if (p.x) die("symbolic atomic address"); V o = load(*s, (u64)p.c, d.w), v = get(*f, d.o[1]), n;
            switch (cast<AtomicRMWInst>(d.I)->getOperation()) { case AtomicRMWInst::Add: n = bin(Instruction::Add, o, v, d.w); break; case AtomicRMWInst::Sub: n = bin(Instruction::Sub, o, v, d.w); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Or: n = bin(Instruction::Or, o, v, d.w); break; case AtomicRMWInst::And: n = bin(Instruction::And, o, v, d.w); break; case AtomicRMWInst::Xor: n = bin(Instruction::Xor, o, v, d.w); break; default: die("atomicrmw"); }
            store(*s, (u64)p.c, d.w, n); f->r[d.dst] = o; break; }
        case Instruction::AtomicCmpXchg: {
            V p = get(*f, d.o[0]); if (p.x) die("symbolic atomic address"); V o = load(*s, (u64)p.c, d.w), e = get(*f, d.o[1]), n = get(*f, d.o[2]); if (o.x || e.x) die("symbolic cmpxchg");
            bool ok = o.c == e.c; if (ok) store(*s, (u64)p.c, d.w, n); f->r[d.dst] = o; f->r[d.dst + 1] = VC(ok); break; }
        case Instruction::Unreachable: die("unreachable instruction reached in " + stackOf(*s));
        case Instruction::Ret: {
            std::vector<V> rv; if (!d.o.empty()) { std::vector<unsigned> w; leaves(d.I->getOperand(0)->getType(), w); for (unsigned i = 0; i < w.size(); i++) rv.push_back(get(*f, d.o[0], i)); }
            u64 base = f->sp; if (s->sp > base) setMem(*s, base, VC(0), s->sp - base);
            s->sp = base; s->fr.pop_back();
            if (s->fr.empty()) { nPaths++; return out; }
            Frame& c = s->top(); DI& cd = c.f->bs[c.bb].is[c.ip];
            for (unsigned i = 0; i < rv.size(); i++) c.r[cd.dst + i] = rv[i];
            if (cd.op == Instruction::Invoke) enterBlock(*s, c, c.bb, cd.succ[0]); else c.ip++;
            if (s->fr.size() == depth - 1) { out.push_back(s); return out; }
            continue; }
        case Instruction::Br: {
            if (d.o.empty()) { enterBlock(*s, *f, f->bb, d.succ[0]); continue; }
            V c = get(*f, d.o[0]);
            if (!c.x) { enterBlock(*s, *f, f->bb, d.succ[c.c ? 0 : 1]); continue; }
            int ft = feas(*s, c.x), ff = feas(*s, mkNot(c.x)); if (!ft && !ff) return out;
            if (!ft || !ff) { enterBlock(*s, *f, f->bb, d.succ[ft ? 0 : 1]); continue; }
            nForks++;
            int J = b->ipdom; SL arr; size_t dep = s->fr.size();
            SP t = clone(s); assume(*t, c.x); { Frame& g = t->top(); enterBlock(*t, g, g.bb, d.succ[0]); }
            assume(*s, mkNot(c.x)); { Frame& g = s->top(); enterBlock(*s, g, g.bb, d.succ[1]); }
            for (SP q : {t, s}) { SL r = run(q, dep, J); arr.insert(arr.end(), r.begin(), r.end()); }
            s.reset(); t.reset();
            arr = mergeAll(arr, J);
            if (J < 0 && dep == depth) { for (auto& q : arr) out.push_back(q); return out; } // returned from the frame we were asked to run
            if (!proceed(arr, s, out, depth, join)) return out;
            continue; }
        case Instruction::Switch: {
            V c = get(*f, d.o[0]); unsigned cw = d.ws[0];
            if (!c.x) { int t = d.succ[0]; for (size_t i = 0; i < d.o[1].k.size(); i++) if (d.o[1].k[i].c == c.c) { t = d.succ[i + 1]; break; } enterBlock(*s, *f, f->bb, t); continue; }
            std::map<int, X> tg; X rest = T1();
            for (size_t i = 0; i < d.o[1].k.size(); i++) { X e = mkEq(c.x, mkC(d.o[1].k[i].c, cw)); auto it = tg.find(d.succ[i + 1]); if (it == tg.end()) tg[d.succ[i + 1]] = e; else it->second = mkOr(it->second, e); rest = mkAnd(rest, mkNot(e)); }
            { auto it = tg.find(d.succ[0]); if (it == tg.end()) tg[d.succ[0]] = rest; else it->second = mkOr(it->second, rest); }
            std::vector<std::pair<int, X>> fe; for (auto& t : tg) if (feas(*s, t.second)) fe.push_back(t);
            if (fe.empty()) return out;
            if (fe.size() == 1) { enterBlock(*s, *f, f->bb, fe[0].first); continue; }
            nForks++;
            int J = b->ipdom; SL arr; size_t dep = s->fr.size();
            for (auto& t : fe) { SP q = clone(s); assume(*q, t.second); Frame& g = q->top(); enterBlock(*q, g, g.bb, t.first); SL r = run(q, dep, J); arr.insert(arr.end(), r.begin(), r.end()); }
            s.reset();
            arr = mergeAll(arr, J);
            if (J < 0 && dep == depth) { for (auto& q : arr) out.push_back(q); return out; }
            if (!proceed(arr, s, out, depth, join)) return out;
            continue; }
        case Instruction::Call: case Instruction::Invoke: {
            Function* cf = d.callee; int ext = d.ext;
            if (!cf) {
                V p = get(*f, d.o.back()); 
                if (p.x) { // symbolic function pointer: fork
                    auto vs = values(*s, p.x, 16); SL arr; 
                    for (u128 v : vs) { SP q = clone(s); assume(*q, mkEq(p.x, mkC(v, 64))); Frame& g = q->top(); g.r[d.o.back().slot] = VC(v); arr.push_back(q); }
                    if (!proceed(arr, s, out, depth, join)) return out; continue; }
                if (((u64)p.c >> RSH) != R_FN) die("call through a bad pointer in " + stackOf(*s));
                cf = fnById[((u64)p.c & ((1ull << RSH) - 1)) / 16]; ext = extId(cf);
            }
            if (ext == X_NONE) {
                std::vector<V> a; size_t na = d.callee ? d.o.size() : d.o.size() - 1;
                auto* cb = cast<CallBase>(d.I);
                for (size_t i = 0; i < na; i++) { std::vector<unsigned> w; Type* ty = cb->getArgOperand(i)->getType(); unsigned n = 1; if (ty->isAggregateType() || ty->isVectorTy()) { leaves(ty, w); n = w.size(); } for (unsigned j = 0; j < n; j++) a.push_back(get(*f, d.o[i], j)); }
                DF* df = decode(cf); pushFrame(*s, df, a); continue;
            }
            auto A = [&](unsigned k) { return get(*f, d.o[k]); };
            auto AC = [&](unsigned k) -> u64 { V v = get(*f, d.o[k]); if (v.x) die("symbolic argument of " + cf->getName().str() + " in " + stackOf(*s)); return (u64)v.c; };
            auto ret = [&](V v) { if (d.dst >= 0) f->r[d.dst] = v; };
            switch (ext) {
            case X_INTRIN: {
                if (d.callee && (cf->getIntrinsicID() == Intrinsic::memcpy || cf->getIntrinsicID() == Intrinsic::memmove || cf->getIntrinsicID() == Intrinsic::memset)) { // fork on symbolic lengths and addresses
                    bool split = false;
                    for (int k : {2, 0, 1}) { if (k == 1 && cf->getIntrinsicID() == Intrinsic::memset) continue; V v = A(k); if (v.x) { auto vs = values(*s, v.x, 300); SL arr; for (u128 val : vs) { SP q = clone(s); assume(*q, mkEq(v.x, mkC(val, 64))); q->top().r[d.o[k].slot] = VC(val); arr.push_back(q); } split = true; if (!proceed(arr, s, out, depth, join)) return out; break; } }
                    if (split) continue; }
                if (cf->getIntrinsicID() == Intrinsic::trap) { violation(*s, "trap", "trap reached", {}); return out; }
                intrinsic(*s, *f, d); break; }
            case X_SYM: { u64 id = AC(0), w = AC(1); X v = mkVar((uint32_t)id, (unsigned)w, ""); ret(VX(mkZext(v, 64))); break; }
            case X_ASSUME: { V c = A(0); X x = mkNot(mkEq(toX(c, d.o[0].slot >= 0 ? (c.x ? c.x->w : 1) : 1), mkC(0, c.x ? c.x->w : 1))); if (!feas(*s, x)) return out; assume(*s, x); break; }
            case X_ASSERT: { V c = A(0); X x = c.x ? mkNot(mkEq(c.x, mkC(0, c.x->w))) : mkC(c.c != 0, 1); std::string tag = cstr(*s, AC(1), AC(2)); checkAssert(*s, x, tag); if (isC(x) && !x->c) return out; if (!feas(*s, x)) return out; assume(*s, x); break; }
            case X_ASSERTEQ: { V a = A(0), c = A(1); std::string tag = cstr(*s, AC(2), AC(3)); X xa = toX(a, 64), xc = toX(c, 64), x = mkEq(xa, xc); checkAssert(*s, x, tag, xa, xc); if (!feas(*s, x)) return out; assume(*s, x); break; }
            case X_REACH: { std::string tag = cstr(*s, AC(0), AC(1)); reached[tag]++; break; }
            case X_TRACE: { std::string tag = cstr(*s, AC(0), AC(1)); if (traceOn) { V v = A(2); fprintf(stderr, "[%.1fs pc=%zu] %s %s\n", elapsed(), s->pc.size(), tag.c_str(), v.x ? "sym" : u128s(v.c).c_str()); } break; }
            case X_ISSYM: ret(VC(A(0).x ? 1 : 0)); break;
            case X_ALLOWPANIC: s->notes[1] = AC(0); break;
            case X_NOMERGE: noMerge = AC(0); break;
            case X_CONC: { V v = A(0); if (!v.x) { ret(v); break; }
                auto vs = values(*s, v.x, 4096); SL arr; for (u128 val : vs) { SP q = clone(s); assume(*q, mkEq(v.x, mkC(val, 64))); Frame& g = q->top(); g.r[d.dst] = VC(val); if (d.op == Instruction::Invoke) enterBlock(*q, g, g.bb, d.succ[0]); else g.ip++; arr.push_back(q); }
                nForks += vs.size() - 1;
                if (!proceed(arr, s, out, depth, join)) return out; continue; }
            case X_R1CS: { std::vector<V> a; for (size_t i = 0; i < d.o.size(); i++) a.push_back(A(i)); V r; if (!r1csCall(*s, cf->getName().str(), a, r)) return out; ret(r); break; }
            case X_MALLOC: case X_RALLOC: case X_RALLOCZ: case X_CALLOC: {
                int k = ext == X_CALLOC ? -1 : 0; u64 n, al = 16;
                if (k == 0) { V v = A(0); if (v.x) { auto vs = values(*s, v.x, 300); SL arr; for (u128 val : vs) { SP q = clone(s); assume(*q, mkEq(v.x, mkC(val, 64))); q->top().r[d.o[0].slot] = VC(val); arr.push_back(q); } if (!proceed(arr, s, out, depth, join)) return out; continue; } n = (u64)v.c; if (ext != X_MALLOC) al = AC(1); }
                else n = AC(0) * AC(1);
                if (n > (1ull << 30)) die("allocation of more than 1 GB");
                ret(VC(heapAlloc(*s, n, al))); break; }
            case X_MEMALIGN: { u64 p = AC(0), al = AC(1), n = AC(2); store(*s, p, 64, VC(heapAlloc(*s, n, al))); ret(VC(0)); break; }
            case X_FREE: case X_RDEALLOC: heapFree(*s, AC(0)); break;
            case X_REALLOC: case X_RREALLOC: {
                V vn = A(ext == X_REALLOC ? 1 : 3); if (vn.x) { int k = ext == X_REALLOC ? 1 : 3; auto vs = values(*s, vn.x, 300); SL arr; for (u128 val : vs) { SP q = clone(s); assume(*q, mkEq(vn.x, mkC(val, 64))); q->top().r[d.o[k].slot] = VC(val); arr.push_back(q); } if (!proceed(arr, s, out, depth, join)) return out; continue; }
                u64 p = AC(0), n = (u64)vn.c, al = ext == X_REALLOC ? 16 : AC(2);
                V ov = p ? load(*s, p - 8, 64) : VC(0); u64 np = heapAlloc(*s, n, al); if (p) { copyMem(*s, np, p, std::min<u64>((u64)ov.c, n)); heapFree(*s, p); } ret(VC(np)); break; }
            case X_MEMCMP: { u64 p = AC(0), q = AC(1); V vn = A(2); if (vn.x) { auto vs = values(*s, vn.x, 300); SL arr; for (u128 val : vs) { SP z = clone(s); assume(*z, mkEq(vn.x, mkC(val, 64))); z->top().r[d.o[2].slot] = VC(val); arr.push_back(z); } if (!proceed(arr, s, out, depth, join)) return out; continue; }
                u64 n = (u64)vn.c; X r = mkC(0, 32); for (u64 i = n; i-- > 0;) { X a = toX(load(*s, p + i, 8), 8), c = toX(load(*s, q + i, 8), 8); r = mkIte(mkEq(a, c), r, mkSub(mkZext(a, 32), mkZext(c, 32))); } ret(VX(r)); break; }
            case X_STRLEN: { u64 p = AC(0), n = 0; for (;; n++) { V v = load(*s, p + n, 8); if (v.x) die("strlen"); if (!v.c) break; } ret(VC(n)); break; }
            case X_LOG: ret(dv(log(dbl(A(0))))); break;
            case X_CEIL: ret(dv(ceil(dbl(A(0))))); break;
            case X_GETENV: ret(VC(0)); break;
            case X_PANIC: case X_ABORT: {
                auto n = s->notes.find(1);
                if (n != s->notes.end() && n->second) { reached["panic"]++; nPaths++; return out; }
                std::string where; // the last argument usually is &Location{file ptr, len, line, col}
                for (size_t i = 0; i < d.o.size(); i++) { V v = A(i); if (!v.x && ((u64)v.c >> RSH) == R_GLOB) { V fp = load(*s, (u64)v.c, 64), fl = load(*s, (u64)v.c + 8, 64), ln = load(*s, (u64)v.c + 16, 32); if (!fp.x && !fl.x && !ln.x && ((u64)fp.c >> RSH) == R_GLOB && fl.c > 3 && fl.c < 300 && ln.c) where = cstr(*s, (u64)fp.c, (u64)fl.c) + ":" + u128s(ln.c); } }
                std::string nm = demangle(cf->getName().str()); size_t h = nm.rfind("::h"); if (h != std::string::npos) nm = nm.substr(0, h);
                nAsserts++;
                violation(*s, "panic " + where, "panic: " + nm + " at " + where, {}); return out; }
            default: die("external function " + cf->getName().str() + " called from " + stackOf(*s));
            }
            if (d.op == Instruction::Invoke) enterBlock(*s, *f, f->bb, d.succ[0]); else f->ip++;
            continue; }
        default: die(std::string("instruction ") + d.I->getOpcodeName() + " in " + stackOf(*s));
        }
        f->ip++;
    }
}

static void initGlobal(State& s, Constant* c, u64 a) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); for (size_t i = 0; i < raw.size(); i++) { Page* p = wr(s, a + i); p->b[(a + i) & (PS - 1)] = raw[i]; } return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(s, cs->getOperand(i), a + sl->getElementOffset(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 z = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, ca->getOperand(i), a + i * z); return; }
    std::vector<V> v; constLeaves(c, v); std::vector<u64> of; leafOffsets(t, 0, of); std::vector<unsigned> w; leaves(t, w);
    for (size_t i = 0; i < v.size(); i++) store(s, a + of[i], w[i], v[i]);
}

static void* mainThread(void* arg) {
    char** argv = (char**)arg;
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) die("cannot read " + std::string(argv[1]) + ": " + err.getMessage().str());
    M = m.get(); DL = &M->getDataLayout();
    SP s = std::make_shared<State>(); s->sp = ((u64)R_STACK << RSH) + 4096; s->brk = ((u64)R_HEAP << RSH) + 4096; memset(s->freeHead, 0, sizeof s->freeHead);
    u64 g = ((u64)R_GLOB << RSH) + 4096;
    for (auto& v : M->globals()) { u64 al = std::max<u64>(16, v.getAlign() ? v.getAlign()->value() : 16); g = (g + al - 1) / al * al; gaddr[&v] = g; g += std::max<u64>(1, DL->getTypeAllocSize(v.getValueType())); }
    for (auto& f : *M) { gaddr[&f] = ((u64)R_FN << RSH) + fnById.size() * 16; fnById.push_back(&f); }
    for (auto& a : M->aliases()) { auto* o = a.getAliaseeObject(); if (o && gaddr.count(o)) gaddr[&a] = gaddr[o]; }
    for (auto& v : M->globals()) if (v.hasInitializer()) initGlobal(*s, v.getInitializer(), gaddr[&v]);
    Function* h = M->getFunction(argv[2]);
    if (!h) die("no harness function " + std::string(argv[2]));
    DF* d = decode(h);
    std::vector<V> args; for (size_t i = 0; i < d->argN.size(); i++) args.push_back(VC(argv[4 + i] ? strtoull(argv[4 + i], nullptr, 10) : 0));
    pushFrame(*s, d, args);
    SL r = run(s, 1, -1);
    finish(errors.empty() ? (viols.empty() ? 0 : 1) : 2);
    return nullptr;
}
int main(int argc, char** argv) {
    if (argc < 4) { fprintf(stderr, "llsym module.bc harness out.json [args]\n"); return 2; }
    harness = argv[2]; for (int i = 4; i < argc; i++) harness += std::string(" ") + argv[i];
    outFile = argv[3];
    if (getenv("LLSYM_TRACE")) traceOn = true;
    if (getenv("LLSYM_DEADLINE")) deadline = atof(getenv("LLSYM_DEADLINE"));
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30);
    pthread_t th; if (pthread_create(&th, &at, mainThread, argv)) die("thread");
    pthread_join(th, nullptr); return 0;
}
