// Reasoning about an emitted constraint system: derives, from the constraints alone, the value every variable
// must take as a function of the statement's inputs, and compares it with the witness the code computed.
//
// Constraints hold modulo a prime p > 2^254 (every field the gadgets support in this configuration). A linear
// constraint whose value over bits stays within +-2^254 holds modulo p iff it holds over the integers; such an
// equation is split at a power of two 2^s when its centered residues modulo 2^s cannot reach 2^s in absolute value.
#include "exec.h"
#include "code.h"
#include "solver.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <fstream>
#include <chrono>
typedef boost::multiprecision::cpp_int Z;
extern V memLoad(State& s, u64 a, unsigned bits);
void countObl(const std::string& tag, bool structural);
void r1csViol(State& s, const std::string& tag, const std::string& msg, std::vector<X> extra, const std::map<std::string, std::string>& more);
void pcOf(State& s, std::vector<X>& q);
void noteError(const std::string& e);

typedef std::map<uint32_t, Z> LF; // linear form; ONE has index 1000000
static const uint32_t ONE = 1000000;
struct Term { uint32_t v; Z c; };
struct Con { LF f[3]; std::vector<Term> ord[3]; bool done = false; }; // ord: terms in the order of emission
struct Var { X wit = nullptr; bool input = false, boolean = false; X def = nullptr; };
static std::map<uint32_t, Var> vars; static std::vector<Con> cons; static Con cur; static std::vector<uint32_t> outVars;
static u64 calls = 0;
static Z pw(unsigned k) { return Z(1) << k; }
static Z eval(const LF& f, const std::map<uint32_t, Z>& v) { Z r = 0; for (auto& t : f) r += t.second * (t.first == ONE ? Z(1) : v.at(t.first)); return r; }

// Is x = y for every value? Works bit by bit on a cut: sub-expressions shared by both sides become fresh symbols
// first; only if that fails is the full expression used.
static std::map<std::pair<uint32_t, uint32_t>, int> eqMemo;
int proveEq(State& s, X x, X y) { // 1 proved, 0 refuted, -1 unknown
    X e = mkEq(x, y);
    if (isC(e)) return (int)e->c;
    for (int m = 0; m < NM; m++) if ((s.alive >> m & 1) && !e->ev[m]) return 0;
    auto key = std::make_pair(std::min(x->id, y->id), std::max(x->id, y->id));
    auto it = eqMemo.find(key); if (it != eqMemo.end()) return it->second;
    int r = -1;
    if (x->w >= 16) { // sums in the normal form they take inside a larger sum
        unsigned w = x->w; u128 top = std::max(x->umax, y->umax); while (w > 8 && !(top >> (w - 1))) w--;
        X z = mkVar(0x7f000000 + w, w, "dummy"), xl = mkExtract(x, w - 1, 0), yl = mkExtract(y, w - 1, 0);
        X f = mkAdd({xl, z}), g = mkAdd({yl, z});
        if (f == g) r = 1;
        else if (f->k == ADD && g->k == ADD && unsatShared(f, g, 5000)) r = 1;
    }
    if (r < 0 && unsatShared(x, y, 5000)) r = 1;
    if (r < 0) { X a = sweep(x), b = sweep(y); if (a == b || unsatShared(a, b, 5000)) r = 1; }
    for (unsigned d : {8u, 12u, 18u}) if (r < 0 && unsatCut(mkNot(e), d, 5000)) { r = 1; break; }
    if (r < 0 && getenv("LLSYM_TRACE")) fprintf(stderr, "not equal on cuts: %s\n   %s\n", show(x, 7).c_str(), show(y, 7).c_str());
    if (r < 0) r = solve({mkNot(e)}, nullptr, 30000) == 0 ? 1 : -1;
    if (r < 0) { std::vector<X> q; pcOf(s, q); q.push_back(mkNot(e)); int k = solve(q, nullptr, 120000); r = k == 0 ? 1 : k == 1 ? 0 : -1; }
    eqMemo[key] = r; return r;
}
static int feasible(State& s, X c) { if (isC(c)) return (int)c->c; for (int m = 0; m < NM; m++) if ((s.alive >> m & 1) && c->ev[m]) return 1; for (unsigned l : {0u, 1u, 2u}) if (unsatSums(c, l, 3000)) return 0; std::vector<X> q; pcOf(s, q); q.push_back(c); return solve(q, nullptr, 60000); }

static std::string label;
// record the derived value of a variable and compare it with the witness
static bool define(State& s, uint32_t v, X d) {
    Var& a = vars[v];
    if (a.wit->w != 1) { a.def = d; noteError("variable " + std::to_string(v) + " of " + label + " has a witness that is not a bit"); return false; }
    int r = a.wit == d ? 1 : proveEq(s, a.wit, d);
    if (r == 1) { countObl(label + ": the constraints force the witness", a.wit == d); a.def = a.wit; return true; }
    if (r == 0) { r1csViol(s, label + " honest witness", "the honest witness does not satisfy the constraints of " + label + " (variable " + std::to_string(v) + ")", {mkXor(a.wit, d)}, {}); a.def = d; return true; }
    noteError("no answer comparing the witness of variable " + std::to_string(v) + " in " + label); a.def = a.wit; return false;
}
static std::map<std::vector<std::string>, bool> lemmaMemo;
static bool tryTable(State& s, Con& c, uint32_t u) { // a single unknown variable
    std::vector<uint32_t> kn; std::set<uint32_t> ks;
    for (auto& f : c.f) for (auto& t : f) if (t.first != ONE && t.first != u) ks.insert(t.first);
    kn.assign(ks.begin(), ks.end());
    if (kn.size() > 7) return false;
    unsigned n = kn.size(); std::vector<int> tab(1u << n, -1);
    for (unsigned m = 0; m < (1u << n); m++) {
        X g = T1(); for (unsigned i = 0; i < n; i++) { X d = vars[kn[i]].def; g = mkAnd(g, m >> i & 1 ? d : mkNot(d)); }
        if (isC(g) && !g->c) continue;
        std::map<uint32_t, Z> v; for (unsigned i = 0; i < n; i++) v[kn[i]] = m >> i & 1;
        v[u] = 0; Z a0 = eval(c.f[0], v), b0 = eval(c.f[1], v), c0 = eval(c.f[2], v);
        auto co = [&](int k) { auto it = c.f[k].find(u); return it == c.f[k].end() ? Z(0) : it->second; };
        Z a1 = co(0), b1 = co(1), c1 = co(2);
        int val = -2; // -2 none, -3 undetermined
        if (a1 * b1 == 0) {
            Z al = a0 * b1 + a1 * b0 - c1, be = c0 - a0 * b0;
            if (abs(al) >= pw(254) || abs(be) >= pw(254)) return false;
            if (al == 0) val = be == 0 ? -3 : -2; else if (be == 0) val = 0; else if (be == al) val = 1; 
        }
        if (val == -2 || a1 * b1 != 0 || (val == -3 && vars[u].boolean)) { // use booleanity
            if (!vars[u].boolean) { if (feasible(s, g) == 0) continue; return false; }
            bool z = (a0 * b0 - c0) == 0, o = ((a0 + a1) * (b0 + b1) - (c0 + c1)) == 0;
            if (abs((a0 + a1) * (b0 + b1) - (c0 + c1)) >= pw(254) || abs(a0 * b0 - c0) >= pw(254)) return false;
            val = z && o ? -3 : z ? 0 : o ? 1 : -2;
        }
        if (val < 0) { if (feasible(s, g) == 0) continue; if (val == -2) { // the constraint rules this input out
                r1csViol(s, label + " honest witness", "no value of variable " + std::to_string(u) + " satisfies a constraint of " + label, {g}, {}); continue; }
            return false; }
        tab[m] = val;
    }
    // the lemma, over every field element: cached per constraint pattern
    std::vector<std::string> key; for (auto& f : c.f) { key.push_back("|"); for (auto& t : f) { key.push_back(t.first == ONE ? "1" : t.first == u ? "u" : std::to_string(std::lower_bound(kn.begin(), kn.end(), t.first) - kn.begin())); key.push_back(t.second.str()); } }
    for (int t : tab) key.push_back(std::to_string(t));
    key.push_back(vars[u].boolean ? "b" : "f");
    auto it = lemmaMemo.find(key);
    if (it == lemmaMemo.end()) {
        extern int fieldLemma(const std::vector<std::array<Z, 6>>& rows, const std::vector<int>& tab, bool boolean);
        std::vector<std::array<Z, 6>> rows;
        for (unsigned m = 0; m < (1u << n); m++) {
            std::map<uint32_t, Z> v; for (unsigned i = 0; i < n; i++) v[kn[i]] = m >> i & 1; v[u] = 0; std::array<Z, 6> r;
            for (int k = 0; k < 3; k++) { r[k] = eval(c.f[k], v); auto jt = c.f[k].find(u); r[3 + k] = jt == c.f[k].end() ? Z(0) : jt->second; }
            rows.push_back(r);
        }
        bool ok = fieldLemma(rows, tab, vars[u].boolean) == 0;
        it = lemmaMemo.emplace(key, ok).first;
    }
    if (!it->second) return false;
    countObl(label + ": constraint determines its variable over the whole field", false);
    // the function as an expression
    std::function<X(unsigned, unsigned)> build = [&](unsigned i, unsigned m) -> X { if (i == n) return tab[m] < 0 ? nullptr : mkC(tab[m], 1);
        X a = build(i + 1, m | 1u << i), b = build(i + 1, m); if (!a) return b; if (!b) return a; return mkIte(vars[kn[i]].def, a, b); };
    X d = build(0, 0); if (!d) d = F1();
    c.done = true;
    define(s, u, d);
    return true;
}
// bits of a known operand as one word, low bit first
static X word(const std::vector<X>& b) { std::vector<X> v(b.rbegin(), b.rend()); return mkConcat(v); }
static X toW(X x, unsigned w) { return x->w < w ? mkZext(x, w) : mkExtract(x, w - 1, 0); }
// addends the witness itself uses, to express derived sums with the same words
static std::vector<X> hintsFrom(X wit) { std::vector<X> h; X x = wit; if (x->k == EXTRACT) x = x->a[0]; if (x->k == ADD) { for (X y : x->a) if (!isC(y)) h.push_back(y); } else if (x->w > 1) h.push_back(x); return h; }
static bool uniqueDigits(unsigned w) { // sum 2^i r_i = N has only the binary digits as a solution: checked once per width
    static std::map<unsigned, bool> memo; auto it = memo.find(w); if (it != memo.end()) return it->second;
    std::vector<X> sum; X N = mkVar(0x70000000u + w, w + 1, ""), bad = F1();
    for (unsigned i = 0; i < w; i++) { X r = mkVar(0x71000000u + i, 1, ""); sum.push_back(mkShl(mkZext(r, w + 1), mkC(i, w + 1))); bad = mkOr(bad, mkXor(r, mkExtract(N, i, i))); }
    X z = mkC(0, w + 1); for (X x : sum) z = mkOr(z, x); // disjoint powers of two
    return memo[w] = solve({mkEq(z, N), bad}, nullptr) == 0;
}
#define FAIL(n) do { if (getenv("LLSYM_TRACE")) fprintf(stderr, "linear: reason %d\n", n); return false; } while (0)
// A variable that is a function of bits, with values in {0,1}, by one constraint: it is a bit, even while the values of
// its arguments are not derived yet.
static std::map<uint32_t, size_t> tabOf;
static std::map<std::vector<std::string>, bool> boolMemo;
static bool inferBit(size_t ci) {
    Con& c = cons[ci]; if (c.done) return false;
    std::set<uint32_t> ks; uint32_t u = 0; int n = 0;
    for (auto& f : c.f) for (auto& t : f) if (t.first != ONE) { Var& v = vars[t.first]; if (v.boolean || v.input) { ks.insert(t.first); } else if (n == 0 || u == t.first) { u = t.first; n = 1; } else return false; }
    if (n != 1 || ks.size() > 7) return false;
    std::vector<uint32_t> kn(ks.begin(), ks.end());
    std::vector<std::string> key; for (auto& f : c.f) { key.push_back("|"); for (auto& t : f) { key.push_back(t.first == ONE ? "1" : t.first == u ? "u" : std::to_string(std::lower_bound(kn.begin(), kn.end(), t.first) - kn.begin())); key.push_back(t.second.str()); } }
    // arguments that are themselves functions of other arguments: rows that contradict their constraint do not occur
    std::vector<char> live(1u << kn.size(), 1);
    for (uint32_t v : kn) { auto jt = tabOf.find(v); if (jt == tabOf.end()) continue; Con& d = cons[jt->second]; bool in = true; for (auto& f : d.f) for (auto& t : f) if (t.first != ONE && !ks.count(t.first)) in = false; if (!in) continue;
        for (unsigned m = 0; m < live.size(); m++) { std::map<uint32_t, Z> w; for (size_t i = 0; i < kn.size(); i++) w[kn[i]] = m >> i & 1; Z e = eval(d.f[0], w) * eval(d.f[1], w) - eval(d.f[2], w); if (abs(e) >= pw(254)) break; if (e != 0) live[m] = 0; } }
    for (char l : live) key.push_back(l ? "+" : "-");
    auto it = boolMemo.find(key); if (it != boolMemo.end()) { if (it->second) { vars[u].boolean = true; tabOf[u] = ci; } return it->second; }
    boolMemo[key] = false;
    std::vector<std::array<Z, 6>> rows; std::vector<int> tab;
    for (unsigned m = 0; m < (1u << kn.size()); m++) {
        std::map<uint32_t, Z> v; for (size_t i = 0; i < kn.size(); i++) v[kn[i]] = m >> i & 1; v[u] = 0;
        std::array<Z, 6> r; for (int k = 0; k < 3; k++) { r[k] = eval(c.f[k], v); auto jt = c.f[k].find(u); r[3 + k] = jt == c.f[k].end() ? Z(0) : jt->second; }
        rows.push_back(r); if (!live[m]) { tab.push_back(-1); continue; }
        if (r[3] * r[4] != 0) return false;
        Z al = r[0] * r[4] + r[3] * r[1] - r[5], be = r[2] - r[0] * r[1];
        if (al == 0 || abs(al) >= pw(254) || abs(be) >= pw(254)) return false;
        if (be == 0) tab.push_back(0); else if (be == al) tab.push_back(1); else return false;
    }
    extern int fieldLemma(const std::vector<std::array<Z, 6>>& rows, const std::vector<int>& tab, bool boolean);
    if (fieldLemma(rows, tab, false) != 0) return false;
    countObl(label + ": constraint determines a bit over the whole field", false);
    boolMemo[key] = true; vars[u].boolean = true; tabOf[u] = ci; return true;
}
static bool demand(State& s, uint32_t v0) {
    std::vector<uint32_t> st{v0};
    while (!st.empty()) {
        uint32_t v = st.back(); if (vars[v].def) { st.pop_back(); continue; }
        auto it = tabOf.find(v); if (it == tabOf.end()) return false;
        Con& c = cons[it->second]; bool ready = true;
        for (auto& f : c.f) for (auto& t : f) if (t.first != ONE && t.first != v && !vars[t.first].def) { if (!tabOf.count(t.first) || st.size() > 100000) return false; st.push_back(t.first); ready = false; }
        if (!ready) continue;
        if (!tryTable(s, c, v)) return false;
        st.pop_back();
    }
    return true;
}
static bool linearEq(State& s, std::vector<Term> t, Z k) {
    // sum of t + k = 0 over the integers; every variable is a bit
    for (;;) {
        if (t.empty()) { if (k != 0) { r1csViol(s, label + " honest witness", "a linear constraint of " + label + " can never hold", {}, {}); } return true; }
        Z mx = k > 0 ? k : Z(0), mn = k < 0 ? k : Z(0);
        for (auto& x : t) (x.c > 0 ? mx : mn) += x.c;
        // smallest split point with a non-trivial low part
        unsigned low = 100000; for (auto& x : t) { unsigned z = lsb(abs(x.c)); low = std::min(low, z); }
        if (k != 0) low = std::min(low, (unsigned)lsb(abs(k)));
        unsigned top = msb(std::max(mx, Z(-mn)) + 1) + 2; unsigned sp = 0; bool found = false;
        std::vector<Term> tl, th; Z kl, kh;
        // a split below which every bit is just copied is taken only if none is found a word further up: the copied
        // bits are then part of a longer sum, which keeps its own form
        unsigned first = 0;
        for (sp = low + 1; sp <= top; sp++) {
            if (first && sp > low + 40) break;
            Z M = pw(sp), H = pw(sp - 1); Z a = 0, b = 0;
            auto cent = [&](const Z& c) { Z r = c % M; if (r < 0) r += M; if (r > H || (r == H && c < 0)) r -= M; return r; };
            tl.clear(); th.clear();
            for (auto& x : t) { Z r = cent(x.c); if (r != 0) { tl.push_back({x.v, r}); (r > 0 ? a : b) += r; } Z h = (x.c - r) / M; if (h != 0) th.push_back({x.v, h}); }
            kl = k % M; if (kl < 0) kl += M;
            for (int alt = 0; alt < 2 && !found; alt++) { Z kk = alt ? kl - M : kl; if (alt && kl == 0) break; Z aa = a + (kk > 0 ? kk : Z(0)), bb = b + (kk < 0 ? kk : Z(0)); if (a + kk < M && b + kk > -M) { kl = kk; kh = (k - kk) / M; found = true; } (void)aa; (void)bb; }
            if (found) {
                std::set<Z> pos; bool copy = kl == 0; size_t n = 0; for (auto& x : tl) if (vars[x.v].def || tabOf.count(x.v)) { if (!pos.insert(abs(x.c)).second) copy = false; } else n++;
                if (copy && n == pos.size() && !th.empty()) { if (!first) first = sp; found = false; continue; }
            }
            if (found) break;
        }
        if (!found && first) { { // back to the first split
            sp = first; Z M = pw(sp), H = pw(sp - 1); Z a = 0, b = 0;
            auto cent = [&](const Z& c) { Z r = c % M; if (r < 0) r += M; if (r > H || (r == H && c < 0)) r -= M; return r; };
            tl.clear(); th.clear();
            for (auto& x : t) { Z r = cent(x.c); if (r != 0) { tl.push_back({x.v, r}); (r > 0 ? a : b) += r; } Z h = (x.c - r) / M; if (h != 0) th.push_back({x.v, h}); }
            kl = 0; kh = k / M; found = true; } }
        if (!found) { tl = t; kl = k; th.clear(); kh = 0; }
        // low part: sum tl + kl = 0
        for (auto& x : tl) if (!vars[x.v].def && tabOf.count(x.v)) demand(s, x.v);
        std::vector<Term> un, ks; for (auto& x : tl) (vars[x.v].def ? ks : un).push_back(x);
        int sg = 0; for (auto& x : un) { int q = x.c > 0 ? 1 : -1; if (sg && q != sg) { if (getenv("LLSYM_TRACE")) { fprintf(stderr, "mixed at split 2^%u:", sp); for (auto& y : tl) fprintf(stderr, " %s%s*%u", vars[y.v].def ? "k" : tabOf.count(y.v) ? "t" : "", y.c.str().c_str(), y.v); fprintf(stderr, " + %s\n", kl.str().c_str()); } FAIL(1); } sg = q; if (!vars[x.v].boolean) FAIL(2); if ((abs(x.c) & (abs(x.c) - 1)) != 0) FAIL(3); }
        if (!un.empty()) {
            std::sort(un.begin(), un.end(), [](const Term& a, const Term& b) { return abs(a.c) < abs(b.c); });
            unsigned base = lsb(abs(un[0].c)); for (size_t i = 0; i < un.size(); i++) if (lsb(abs(un[i].c)) != base + i) FAIL(4);
            // N = -(sg)*(sum ks + kl), to equal sum 2^(base+i) r_i
            Z K = kl * -sg; unsigned W = un.size(); if (W > 90) FAIL(5);
            for (auto& x : ks) x.c *= -sg;
            for (auto& x : ks) if (x.c % pw(base) != 0) FAIL(6);
            if (K % pw(base) != 0) FAIL(7);
            // range of N: it must be representable, otherwise some inputs have no witness (reported through the comparison)
            std::vector<X> addends; Z rest = K >> base; if (K < 0) rest = -((-K) >> base);
            std::vector<bool> used(ks.size(), false);
            std::map<Z, std::vector<size_t>> byC; for (size_t i = 0; i < ks.size(); i++) byC[abs(ks[i].c) / pw(base)].push_back(i);
            Z hi = 0, lo = 0; const unsigned w2 = W + 2;
            // first the words the witness computation itself adds up, bit by bit
            std::vector<X> hs; for (size_t i = un.size(); i-- > 0 && hs.size() < 2;) hs = hintsFrom(vars[un[i].v].wit);
            for (X h : hs) {
                std::vector<size_t> take; Z adj = 0, size = 0; bool ok = h->w <= w2 + 64;
                for (unsigned i = 0; i < h->w && ok; i++) {
                    X e = mkExtract(h, i, i); if (isC(e)) { if (e->c) { adj -= pw(i); size += pw(i); } continue; }
                    if (i >= W) { ok = false; break; }
                    auto it = byC.find(pw(i)); size_t hit = SIZE_MAX;
                    if (it != byC.end()) for (int deep = 0; deep < 2 && hit == SIZE_MAX; deep++) for (size_t q : it->second) { if (used[q]) continue; X d = vars[ks[q].v].def; if (ks[q].c < 0) d = mkNot(d); if (d == e || (deep && proveEq(s, d, e) == 1)) { hit = q; break; } }
                    if (hit == SIZE_MAX) { ok = false; break; }
                    take.push_back(hit); used[hit] = true; if (ks[hit].c < 0) adj -= pw(i); size += pw(i);
                }
                if (!ok) { for (size_t q : take) used[q] = false; continue; }
                rest += adj; hi += size; addends.push_back(toW(h, w2));
            }
            for (size_t i = 0; i < ks.size(); i++) {
                if (used[i]) continue;
                Z c = ks[i].c / pw(base); Z m = abs(c); if ((m & (m - 1)) != 0) { // general coefficient
                    used[i] = true; X d = vars[ks[i].v].def; Z cm = c % pw(w2); if (cm < 0) cm += pw(w2); addends.push_back(mkIte(d, mkC((u128)cm, w2), mkC(0, w2))); (c > 0 ? hi : lo) += c; continue; }
                unsigned p0 = lsb(m); unsigned p = p0; std::vector<X> bits; size_t pos = i;
                for (;;) { // ascending consecutive powers of two in order of emission
                    size_t best = SIZE_MAX; auto it = byC.find(pw(p)); if (it != byC.end()) for (size_t q : it->second) if (!used[q] && q >= pos && q < best) best = q;
                    if (best == SIZE_MAX) break;
                    used[best] = true; pos = best; X d = vars[ks[best].v].def;
                    if (ks[best].c < 0) { d = mkNot(d); rest -= pw(p); }
                    bits.push_back(d); p++;
                }
                X w = word(bits); if (w->w + p0 > 126) FAIL(8);
                X z = toW(w, std::max<unsigned>(w2, w->w + p0)); z = mkShl(z, mkC(p0, z->w)); addends.push_back(toW(z, w2));
                hi += pw(p) - pw(p0);
            }
            Z cm = rest % pw(w2); if (cm < 0) cm += pw(w2);
            addends.push_back(mkC((u128)cm, w2));
            if (!uniqueDigits(W)) FAIL(9);
            X N = mkAdd(addends);
            for (size_t i = 0; i < un.size(); i++) define(s, un[i].v, mkExtract(N, i, i));
            // the digits must reach every value: N < 2^W and N >= 0
            X over = mkExtract(N, W + 1, W); Z mxN = hi + rest, mnN = lo + rest;
            if (mnN < 0 || mxN >= pw(W)) { // otherwise range is plain from the bounds
                X bad = mkNot(mkEq(over, mkC(0, 2))); if (mnN < -pw(W) || mxN >= pw(W + 1)) FAIL(10);
                if (feasible(s, bad) != 0) r1csViol(s, label + " honest witness", "a sum in " + label + " does not fit the bits allocated for it", {bad}, {});
            }
            countObl(label + ": linear constraint determines its bits", false);
        } else if (!ks.empty() || kl != 0) { // a relation among known values: must hold
            Z a = kl > 0 ? kl : Z(0), b = kl < 0 ? kl : Z(0); for (auto& x : ks) (x.c > 0 ? a : b) += x.c;
            unsigned W = msb(std::max(a, Z(-b)) + 1) + 2; if (W > 126) FAIL(11);
            std::vector<X> ad; for (auto& x : ks) { Z cm = x.c % pw(W); if (cm < 0) cm += pw(W); ad.push_back(mkIte(vars[x.v].def, mkC((u128)cm, W), mkC(0, W))); }
            Z cm = kl % pw(W); if (cm < 0) cm += pw(W); ad.push_back(mkC((u128)cm, W));
            X e = mkEq(mkAdd(ad), mkC(0, W)); int f = feasible(s, mkNot(e)); if (f < 0) FAIL(12);
            if (f) r1csViol(s, label + " honest witness", "the honest witness violates a linear constraint of " + label, {mkNot(e)}, {});
            else countObl(label + ": redundant constraint holds", isC(e));
        }
        t = th; k = kh;
        if (!found) return true;
    }
}
static int solveOne(State& s, Con& c) { // 1 progress, 0 none
    std::set<uint32_t> un; for (auto& f : c.f) for (auto& t : f) if (t.first != ONE && !vars[t.first].def) un.insert(t.first);
    auto isConst = [&](const LF& f, Z& k) { k = 0; for (auto& t : f) { if (t.first != ONE) return false; k = t.second; } return true; };
    Z k;
    if (un.size() == 1 && tryTable(s, c, *un.begin())) return 1;
    for (int o = 0; o < 2; o++) if (isConst(c.f[o], k)) {
        std::vector<Term> ts; Z kk = 0, mx = 0, mn = 0;
        for (auto& t : c.ord[1 - o]) { if (t.v == ONE) kk += t.c * k; else if (t.c * k != 0) ts.push_back({t.v, t.c * k}); }
        for (auto& t : c.ord[2]) { if (t.v == ONE) kk -= t.c; else if (t.c != 0) ts.push_back({t.v, -t.c}); }
        (kk > 0 ? mx : mn) += kk; for (auto& t : ts) (t.c > 0 ? mx : mn) += t.c;
        if (mx >= pw(254) || mn <= -pw(254)) { return 0; }
        for (auto& t : ts) if (!vars[t.v].def && !vars[t.v].boolean) return 0;
        if (linearEq(s, ts, kk)) { c.done = true; return 1; }
        return 0;
    }
    if (un.empty()) { // all known: the product must hold
        std::set<uint32_t> ks; for (auto& f : c.f) for (auto& t : f) if (t.first != ONE) ks.insert(t.first);
        std::vector<uint32_t> kn(ks.begin(), ks.end()); if (kn.size() > 8) return 0;
        X bad = F1(); bool tr = false;
        for (unsigned m = 0; m < (1u << kn.size()); m++) { std::map<uint32_t, Z> v; X g = T1(); for (size_t i = 0; i < kn.size(); i++) { v[kn[i]] = m >> i & 1; g = mkAnd(g, m >> i & 1 ? vars[kn[i]].def : mkNot(vars[kn[i]].def)); }
            Z d = eval(c.f[0], v) * eval(c.f[1], v) - eval(c.f[2], v); if (d != 0) { if (abs(d) >= pw(254)) return 0; tr = true; bad = mkOr(bad, g); } }
        (void)tr; int f = feasible(s, bad); if (f < 0) return 0;
        if (f) r1csViol(s, label + " honest witness", "the honest witness violates a constraint of " + label, {bad}, {}); else countObl(label + ": constraint on known values holds", isC(bad));
        c.done = true; return 1;
    }
    return 0;
}
// ---- numeric search for a second satisfying assignment, used when the derivation gets stuck
static const Z R("52435875175126190479447740508185965837690552500527637822603658699938581184513");
static Z modp(const Z& x) { Z r = x % R; if (r < 0) r += R; return r; }
static Z inv(const Z& x) { return powm(modp(x), R - 2, R); }
static bool numeric(State& s, X pick, const Z& choice, uint32_t freeVar, const std::map<uint32_t, u128>& model, std::map<std::string, std::string>& adv) {
    std::map<uint32_t, Z> val; val[ONE] = 1; (void)pick;
    std::map<uint32_t, Z> hon; for (auto& v : vars) { hon[v.first] = Z((u64)evalModel(v.second.wit, model)); if (v.second.input) val[v.first] = hon[v.first]; }
    val[freeVar] = choice;
    std::vector<char> done(cons.size(), 0); bool prog = true;
    auto lin = [&](const LF& f, std::vector<std::pair<uint32_t, Z>>& u) { Z k = 0; for (auto& t : f) { auto it = val.find(t.first); if (it == val.end()) u.push_back(t); else k += t.second * it->second; } return modp(k); };
    for (int guard = 0; guard < 400; guard++) {
        prog = false;
        for (size_t i = 0; i < cons.size(); i++) if (!done[i]) {
            std::vector<std::pair<uint32_t, Z>> u[3]; Z k[3]; for (int q = 0; q < 3; q++) k[q] = lin(cons[i].f[q], u[q]);
            std::set<uint32_t> un; for (auto& x : u) for (auto& y : x) un.insert(y.first);
            if (un.empty()) { if (modp(k[0] * k[1] - k[2]) != 0) return false; done[i] = 1; prog = true; continue; }
            if (un.size() == 1) {
                uint32_t v = *un.begin(); Z a1 = u[0].empty() ? Z(0) : u[0][0].second, b1 = u[1].empty() ? Z(0) : u[1][0].second, c1 = u[2].empty() ? Z(0) : u[2][0].second;
                if (a1 * b1 != 0) { continue; }
                Z al = modp(k[0] * b1 + a1 * k[1] - c1), be = modp(k[2] - k[0] * k[1]);
                if (al == 0) { if (be != 0) return false; done[i] = 1; prog = true; continue; }
                val[v] = modp(be * inv(al)); done[i] = 1; prog = true; continue;
            }
            if (u[0].empty() && u[1].empty() ? true : (u[1].empty() || u[0].empty())) { // linear in the unknowns: try to read them off as binary digits
                std::map<uint32_t, Z> l; for (auto& t : u[0]) l[t.first] += t.second * k[1]; for (auto& t : u[1]) l[t.first] += t.second * k[0]; for (auto& t : u[2]) l[t.first] -= t.second;
                Z rest = modp(k[0] * k[1] - k[2]); std::vector<std::pair<Z, uint32_t>> o; bool ok = true; int sg = 0;
                for (auto& t : l) { Z c = modp(t.second); if (c > R / 2) c -= R; if (!vars[t.first].boolean) ok = false; int q = c > 0 ? 1 : -1; if (sg && sg != q) ok = false; sg = q; o.push_back({abs(c), t.first}); }
                if (!ok) continue;
                Z N = modp(sg > 0 ? -rest : rest); std::sort(o.rbegin(), o.rend());
                for (auto& t : o) { if (N >= t.first) { N -= t.first; val[t.second] = 1; } else val[t.second] = 0; }
                if (N != 0) return false;
                done[i] = 1; prog = true;
            }
        }
        if (!prog) { // choose honestly for the first variable still free
            bool any = false; for (auto& v : vars) if (!val.count(v.first)) { val[v.first] = hon[v.first]; any = true; break; }
            if (!any) break;
        }
    }
    for (auto& c : cons) if (modp(eval(c.f[0], val) * eval(c.f[1], val) - eval(c.f[2], val)) != 0) return false;
    bool diff = false; for (uint32_t o : outVars) if (val[o] != hon[o]) diff = true;
    if (!diff) return false;
    for (auto& v : val) adv["v" + std::to_string(v.first)] = v.second.str();
    return true;
}
static void solveAll(State& s) {
    for (auto& c : cons) { // booleanity
        for (int o = 0; o < 2; o++) {
            const LF &a = c.f[o], &b = c.f[1 - o]; bool z = true; for (auto& t : c.f[2]) if (t.second != 0) z = false; if (!z) continue;
            auto root = [&](const LF& f, uint32_t& v) -> int { v = 0; Z k = 0, q = 0; int n = 0; for (auto& t : f) { if (t.second == 0) continue; if (t.first == ONE) k = t.second; else { n++; v = t.first; q = t.second; } } if (n != 1) return -1; if (k == 0) return 0; if (k == -q) return 1; return -1; };
            uint32_t v1, v2; if (root(a, v1) == 1 && root(b, v2) == 0 && v1 == v2 && vars.count(v1)) { vars[v1].boolean = true; if (!vars[v1].input) c.done = true; countObl(label + ": booleanity", false); }
        }
    }
    for (auto& v : vars) if (v.second.input) { v.second.def = v.second.wit; if (v.second.wit->w != 1) { noteError("input " + std::to_string(v.first) + " of " + label + " is not a bit"); return; } if (v.first != ONE && !v.second.boolean) { /* bits supplied from outside */ } }
    tabOf.clear(); for (size_t i = 0; i < cons.size(); i++) inferBit(i);
    bool prog = true; while (prog) { prog = false; for (auto& c : cons) if (!c.done && solveOne(s, c)) prog = true; }
    std::vector<uint32_t> freeV; for (auto& v : vars) if (!v.second.def) freeV.push_back(v.first);
    size_t open = 0; for (auto& c : cons) if (!c.done) open++;
    if (freeV.empty() && !open) return;
    if (getenv("LLSYM_TRACE")) for (size_t i = 0; i < cons.size(); i++) if (!cons[i].done && (cons[i].f[0].empty() || (cons[i].f[0].size() == 1 && cons[i].f[0].begin()->first == ONE) || (cons[i].f[1].size() == 1 && cons[i].f[1].begin()->first == ONE))) { fprintf(stderr, "open %zu:", i); for (auto& f : cons[i].f) for (auto& t : f) if (t.first != ONE && !vars[t.first].def) fprintf(stderr, " U%u%s%s", t.first, vars[t.first].boolean ? "b" : "", tabOf.count(t.first) ? "t" : ""); fprintf(stderr, "\n"); for (auto& f : cons[i].f) { fprintf(stderr, " ["); for (auto& t : f) fprintf(stderr, " %s*%u%s", t.second.str().c_str(), t.first, vars.count(t.first) && vars[t.first].def ? "k" : ""); fprintf(stderr, "]"); } fprintf(stderr, "\n"); break; }
    // stuck: look for a concrete second assignment
    auto began = std::chrono::steady_clock::now();
    std::vector<X> q; pcOf(s, q); std::map<uint32_t, u128> model;
    int tried = 0;
    for (int round = 0; round < 3; round++) {
        if (round) { X x = P.vars[(round * 7919) % P.vars.size()]; q.push_back(mkEq(x, mkC(x->ev[2 + round], x->w))); }
        if (solve(q, &model, 60000) != 1) break;
        for (uint32_t v : freeV) {
            Z h = Z((u64)evalModel(vars[v].wit, model));
            std::vector<Z> ch = vars[v].boolean ? std::vector<Z>{1 - h} : std::vector<Z>{1 - h, 2, R - 1, 3};
            for (auto& c : ch) { if (++tried > 400 || std::chrono::duration<double>(std::chrono::steady_clock::now() - began).count() > 60) break; std::map<std::string, std::string> adv; if (numeric(s, nullptr, c, v, model, adv)) {
                std::vector<X> ex; for (X x : P.vars) if (x->symid < 0x70000000u && model.count(x->id)) ex.push_back(mkEq(x, mkC(model[x->id], x->w)));
                r1csViol(s, label + " second assignment", "the constraints of " + label + " have a satisfying assignment with a wrong output (variable " + std::to_string(v) + " is not determined)", ex, adv); return; } }
        }
    }
    std::string e = "the constraints of " + label + " could not be resolved: " + std::to_string(freeV.size()) + " variables and " + std::to_string(open) + " constraints left";
    if (!freeV.empty()) e += ", first variable " + std::to_string(freeV[0]);
    noteError(e);
}
bool r1csCall(State& s, const std::string& name, const std::vector<V>& a, V& ret) {
    auto num = [&](int i) -> u64 { if (a[i].x) die("symbolic argument of " + name); return (u64)a[i].c; };
    u64& n = s.notes[100];
    if (name == "ll_r1cs_reset") { vars.clear(); cons.clear(); cur = Con(); outVars.clear(); n = ++calls; return true; }
    if (n != calls) die("constraints emitted under a condition on the witness");
    n = ++calls;
    if (name == "ll_r1cs_var") { Var v; X x = toX(a[1], 64); 
        if (x->umax <= 1) v.wit = mkExtract(x, 0, 0); else v.wit = x;
        v.input = num(2) != 0; vars[(uint32_t)num(0)] = v; return true; }
    if (name == "ll_r1cs_term") { u64 p = num(2); Z c = 0; for (int i = 31; i >= 0; i--) { V b = memLoad(s, p + i, 8); if (b.x) die("symbolic coefficient"); c = c * 256 + (unsigned)b.c; } if (c >= pw(255)) c -= pw(256); Z& t = cur.f[num(0)][(uint32_t)num(1)]; t += c; cur.ord[num(0)].push_back({(uint32_t)num(1), c}); return true; }
    if (name == "ll_r1cs_end") { for (auto& f : cur.f) for (auto it = f.begin(); it != f.end();) { if (it->second == 0) it = f.erase(it); else ++it; } cons.push_back(cur); cur = Con(); return true; }
    if (name == "ll_r1cs_out") { outVars.push_back((uint32_t)num(0)); return true; }
    if (name == "ll_r1cs_solve") { std::string t; for (u64 i = 0; i < num(1); i++) t += (char)memLoad(s, num(0) + i, 8).c; label = t; solveAll(s); return true; }
    if (name == "ll_r1cs_def") { auto it = vars.find((uint32_t)num(0)); if (it == vars.end()) die("r1cs_def of an unknown variable"); X d = it->second.def ? it->second.def : it->second.wit; ret = VX(mkZext(d, 64)); return true; }
    die("r1cs " + name);
}
