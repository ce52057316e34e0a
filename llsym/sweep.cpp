// Equivalence sweeping: rewrites an expression bottom-up, merging every word-level node with an earlier node that the
// solver shows equal for all values (candidates: equal on all simulation vectors). Merges hold unconditionally, so
// they are kept for the whole run.
#include <map>
#include <set>
#include <unordered_set>
#include "solver.h"
static std::unordered_map<X, X> repr;
static std::unordered_map<u64, std::vector<X>> classes;
static X rebuild(X n, const std::vector<X>& a) {
    switch (n->k) {
    case NOT: return mkNot(a[0]);
    case AND: { X r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mkAnd(r, a[i]); return r; }
    case OR: { X r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mkOr(r, a[i]); return r; }
    case XOR: { X r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mkXor(r, a[i]); return r; }
    case ADD: return mkAdd(a);
    case MUL: { X r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mkMul(r, a[i]); return r; }
    case CONCAT: return mkConcat(a);
    case EXTRACT: return mkExtract(a[0], n->hi, n->lo);
    case ITE: return mkIte(a[0], a[1], a[2]);
    case EQ: return mkEq(a[0], a[1]);
    case ULT: return mkUlt(a[0], a[1]);
    case SLT: return mkSlt(a[0], a[1]);
    case SHL: return mkShl(a[0], a[1]);
    case LSHR: return mkLshr(a[0], a[1]);
    case ASHR: return mkAshr(a[0], a[1]);
    case UDIV: case UREM: case SDIV: case SREM: return mkDiv(n->k, a[0], a[1]);
    default: return n;
    }
}
static u64 sig(X x) { u64 h = x->w; for (int m = 0; m < NM; m++) { h = (h ^ (u64)x->ev[m]) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; h = (h ^ (u64)(x->ev[m] >> 64)) * 0xff51afd7ed558ccdull; } return h; }
// adds k * x to a sum of single bits, modulo 2^w
static void bitSum(X x, u128 k, unsigned w, std::map<X, u128>& m, u128& c) {
    if (x->k == ADD) { for (X y : x->a) bitSum(y, k, w, m, c); return; }
    if (x->k == MUL && x->a.size() == 2 && (isC(x->a[0]) || isC(x->a[1]))) { int q = isC(x->a[0]) ? 0 : 1; bitSum(x->a[1 - q], k * x->a[q]->c, w, m, c); return; }
    if (isC(x)) { c += k * x->c; return; }
    u128 mask = w >= 128 ? ~(u128)0 : ((u128)1 << w) - 1;
    for (unsigned i = 0; i < x->w; i++) {
        u128 q = (k << i) & mask; if (!q) break;
        X b = mkExtract(x, i, i);
        if (isC(b)) { c += q * b->c; continue; }
        if (b->k == NOT) { c += q; q = 0 - q; b = b->a[0]; }
        m[b] += q;
    }
}
static bool sameBits(const std::vector<X>& r, const std::vector<X>& t, unsigned w) {
    if (r.size() + t.size() > 40 || w > 128) return false;
    std::map<X, u128> m; u128 c = 0, mask = w >= 128 ? ~(u128)0 : ((u128)1 << w) - 1;
    for (X x : r) bitSum(x, 1, w, m, c);
    for (X x : t) bitSum(x, mask, w, m, c);
    if (c & mask) return false;
    for (auto& q : m) if (q.second & mask) return false;
    return true;
}
static X merged(X n) { // n with a proven-equal earlier node, if there is one
    if (n->k == CONST || n->k == VAR || n->w < 4) return n;
    auto& c = classes[sig(n)];
    int tried = 0;
    for (X m : c) {
        if (m == n) return n;
        bool same = m->w == n->w; for (int i = 0; same && i < NM; i++) same = m->ev[i] == n->ev[i];
        if (!same || tried >= 3) continue;
        tried++;
        if (n->k == ADD && m->k == ADD) { // cancel the addends they share
            std::multiset<X> q(m->a.begin(), m->a.end()); std::vector<X> r; for (X y : n->a) { auto i = q.find(y); if (i != q.end()) q.erase(i); else r.push_back(y); }
            if (sameBits(r, std::vector<X>(q.begin(), q.end()), n->w)) return m;
            if (r.size() < n->a.size()) { r.push_back(mkC(0, n->w)); std::vector<X> t(q.begin(), q.end()); t.push_back(mkC(0, n->w)); X e = mkAdd(r), f = mkAdd(t); if (e == f || sameBits(r, t, n->w) || unsatShared(e, f, 3000)) return m; }
        }
        if (unsatShared(n, m, 3000)) return m;
        if (getenv("LLSYM_TRACE")) { fprintf(stderr, "not merged #%u #%u: %s\n", n->id, m->id, show(n, 1).substr(0, 300).c_str());
            if (n->k == ADD && m->k == ADD) { for (int q = 0; q < 2; q++) for (X x : (q ? m : n)->a) { bool in = false; for (X y : (q ? n : m)->a) if (x == y) in = true; if (!in) fprintf(stderr, "    %s #%u sig %lx  %s\n", q ? "second" : "first", x->id, sig(x), show(x, 4).substr(0, 1200).c_str()); } } }
    }
    c.push_back(n);
    return n;
}
static X find(X x) { auto i = repr.find(x); return i == repr.end() ? nullptr : i->second; }
X sweep(X root) {
    std::vector<X> st{root};
    while (!st.empty()) {
        X x = st.back();
        if (find(x)) { st.pop_back(); continue; }
        if (x->a.empty()) { repr[x] = x; st.pop_back(); continue; }
        bool ready = true;
        for (X y : x->a) if (!find(y)) { if (ready) ready = false; st.push_back(y); }
        if (!ready) continue;
        st.pop_back();
        std::vector<X> a; bool ch = false; for (X y : x->a) { X r = find(y); a.push_back(r); if (r != y) ch = true; }
        X n = ch ? rebuild(x, a) : x;
        n = merged(n);
        repr[x] = n; if (n != x && !find(n)) repr[n] = n;
    }
    return find(root);
}
