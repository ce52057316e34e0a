#include <unordered_set>
#include "solver.h"
#include <z3.h>
#include <chrono>
SolverStats SS;
static Z3_context C = nullptr;
static std::vector<Z3_ast> cache;
static void onerr(Z3_context c, Z3_error_code e) { die(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static Z3_ast num(u128 v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(C, std::min(w, 64u));
    if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, s);
    Z3_ast l = Z3_mk_unsigned_int64(C, (u64)v, s), h = Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64));
    return Z3_mk_concat(C, h, l);
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(C, v, num(1, 1)); }
static const std::unordered_set<X>* leafSet = nullptr; // nodes to abstract to fresh symbols
template <class CA> static Z3_ast trIn(CA& cache, X root) {
    std::vector<X> st{root};
    while (!st.empty()) {
        X x = st.back();
        if (cache.has(x->id)) { st.pop_back(); continue; }
        if (leafSet && leafSet->count(x)) { st.pop_back(); Z3_ast r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("n" + std::to_string(x->id)).c_str()), Z3_mk_bv_sort(C, x->w)); Z3_inc_ref(C, r); cache.put(x->id, r); continue; }
        bool ready = true;
        for (X y : x->a) if (!cache.has(y->id)) { if (ready) ready = false; st.push_back(y); }
        if (!ready) continue;
        st.pop_back();
        auto A = [&](size_t i) { return cache.get(x->a[i]->id); };
        Z3_ast r = nullptr;
        switch (x->k) {
        case CONST: r = num(x->c, x->w); break;
        case VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("s" + std::to_string(x->symid) + "_" + std::to_string(x->w)).c_str()), Z3_mk_bv_sort(C, x->w)); break;
        case NOT: r = Z3_mk_bvnot(C, A(0)); break;
        case AND: r = A(0); for (size_t i = 1; i < x->a.size(); i++) r = Z3_mk_bvand(C, r, A(i)); break;
        case OR: r = A(0); for (size_t i = 1; i < x->a.size(); i++) r = Z3_mk_bvor(C, r, A(i)); break;
        case XOR: r = A(0); for (size_t i = 1; i < x->a.size(); i++) r = Z3_mk_bvxor(C, r, A(i)); break;
        case ADD: r = A(0); for (size_t i = 1; i < x->a.size(); i++) r = Z3_mk_bvadd(C, r, A(i)); break;
        case MUL: r = A(0); for (size_t i = 1; i < x->a.size(); i++) r = Z3_mk_bvmul(C, r, A(i)); break;
        case UDIV: r = Z3_mk_bvudiv(C, A(0), A(1)); break;
        case UREM: r = Z3_mk_bvurem(C, A(0), A(1)); break;
        case SDIV: r = Z3_mk_bvsdiv(C, A(0), A(1)); break;
        case SREM: r = Z3_mk_bvsrem(C, A(0), A(1)); break;
        case SHL: r = Z3_mk_bvshl(C, A(0), A(1)); break;
        case LSHR: r = Z3_mk_bvlshr(C, A(0), A(1)); break;
        case ASHR: r = Z3_mk_bvashr(C, A(0), A(1)); break;
        case CONCAT: r = A(0); for (size_t i = 1; i < x->a.size(); i++) r = Z3_mk_concat(C, r, A(i)); break;
        case EXTRACT: r = Z3_mk_extract(C, x->hi, x->lo, A(0)); break;
        case ITE: r = Z3_mk_ite(C, v2b(A(0)), A(1), A(2)); break;
        case EQ: r = b2v(Z3_mk_eq(C, A(0), A(1))); break;
        case ULT: r = b2v(Z3_mk_bvult(C, A(0), A(1))); break;
        case SLT: r = b2v(Z3_mk_bvslt(C, A(0), A(1))); break;
        }
        Z3_inc_ref(C, r);
        cache.put(x->id, r);
    }
    return cache.get(root->id);
}
struct BigCache { bool has(uint32_t i) { if (i >= cache.size()) cache.resize(P.all.size() + 1024, nullptr); return cache[i]; } Z3_ast get(uint32_t i) { return cache[i]; } void put(uint32_t i, Z3_ast a) { cache[i] = a; } };
static Z3_ast tr(X root) { BigCache b; return trIn(b, root); }
static std::unordered_map<uint32_t, Z3_ast>* small = nullptr;
struct SmallCache { bool has(uint32_t i) { return small->count(i); } Z3_ast get(uint32_t i) { return small->at(i); } void put(uint32_t i, Z3_ast a) { (*small)[i] = a; } };
static Z3_ast trSmall(X root) { SmallCache b; return trIn(b, root); }
static bool unsatLeaves(X c, const std::unordered_set<X>& leaf, unsigned timeout_ms, std::chrono::steady_clock::time_point t0) {
    std::unordered_map<uint32_t, Z3_ast> mine; small = &mine; leafSet = &leaf;
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeout_ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    Z3_solver_assert(C, s, v2b(trSmall(c)));
    Z3_lbool r = Z3_solver_check(C, s);
    Z3_solver_dec_ref(C, s); leafSet = nullptr; small = nullptr; for (auto& a : mine) Z3_dec_ref(C, a.second);
    SS.queries++; if (r == Z3_L_FALSE) SS.unsat++; else SS.abstract++;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); SS.secs += dt;
    if (dt > 1 && getenv("LLSYM_TRACE")) fprintf(stderr, "slow cut query %.1fs %d, %zu nodes\n   %s\n", dt, (int)r, mine.size(), show(c, 7).c_str());
    return r == Z3_L_FALSE;
}
// Is c unsatisfiable when everything below `depth` is replaced by unconstrained symbols?
bool unsatCut(X c, unsigned depth, unsigned timeout_ms) {
    if (!C) { Z3_config g = Z3_mk_config(); C = Z3_mk_context(g); Z3_set_error_handler(C, onerr); }
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<X> in, leaf; std::vector<X> cur{c}; in.insert(c); 
    for (unsigned d = 0; d < depth && !cur.empty(); d++) { std::vector<X> nx; for (X x : cur) for (X y : x->a) if (in.insert(y).second) nx.push_back(y); cur.swap(nx); }
    for (X x : cur) if (x->k != CONST) leaf.insert(x);
    if (leaf.empty()) return false;
    return unsatLeaves(c, leaf, timeout_ms, t0);
}
// Is c unsatisfiable when the sums met after passing through `level` other sums become unconstrained symbols?
bool unsatSums(X c, unsigned level, unsigned timeout_ms) {
    if (!C) { Z3_config g = Z3_mk_config(); C = Z3_mk_context(g); Z3_set_error_handler(C, onerr); }
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_map<X, unsigned> seen; std::unordered_set<X> leaf; std::vector<std::pair<X, unsigned>> q{{c, 0}}; seen[c] = 0;
    for (size_t i = 0; i < q.size(); i++) {
        X x = q[i].first; unsigned d = q[i].second; if (seen[x] < d) continue;
        if (x->k == ADD && d >= level) continue;
        unsigned e = d + (x->k == ADD);
        for (X y : x->a) { auto r = seen.emplace(y, e); if (r.second || r.first->second > e) { r.first->second = e; q.push_back({y, e}); } }
        if (q.size() > 6000) return false;
    }
    for (auto& s : seen) if (s.first->k == VAR || (s.first->k == ADD && s.second >= level)) leaf.insert(s.first);
    if (leaf.empty()) return false;
    return unsatLeaves(c, leaf, timeout_ms, t0);
}
// Is x != y unsatisfiable when every sum occurring in both becomes an unconstrained symbol?
bool unsatShared(X x, X y, unsigned timeout_ms) {
    if (!C) { Z3_config g = Z3_mk_config(); C = Z3_mk_context(g); Z3_set_error_handler(C, onerr); }
    auto t0 = std::chrono::steady_clock::now();
    auto cone = [](X r, std::unordered_set<X>& in) { std::vector<X> q{r}; in.insert(r); for (size_t i = 0; i < q.size() && q.size() < 6000; i++) for (X z : q[i]->a) if (z->k != CONST && in.insert(z).second) q.push_back(z); };
    std::unordered_set<X> cx, cy, leaf; cone(x, cx); cone(y, cy);
    for (X z : cx) if ((z->k == ADD || z->k == VAR || z->k == MUL) && cy.count(z)) leaf.insert(z);
    if (leaf.empty()) return false;
    X c = mkNot(mkEq(x, y));
    // expand at most so much
    size_t n = 0; { std::unordered_set<X> in{c}; std::vector<X> q{c}; while (!q.empty() && n < 4000) { X z = q.back(); q.pop_back(); n++; if (leaf.count(z)) continue; for (X u : z->a) if (in.insert(u).second) q.push_back(u); } }
    if (n >= 4000) return false;
    return unsatLeaves(c, leaf, timeout_ms, t0);
}
static std::map<std::vector<uint32_t>, int> memo;
int solve(const std::vector<X>& cs0, std::map<uint32_t, u128>* model, unsigned timeout_ms) {
    if (!C) { Z3_config g = Z3_mk_config(); C = Z3_mk_context(g); Z3_set_error_handler(C, onerr); }
    std::vector<X> cs; std::set<uint32_t> ids;
    for (X c : cs0) { if (isC(c)) { if (!c->c) return 0; continue; } if (ids.insert(c->id).second) cs.push_back(c); }
    std::vector<uint32_t> key(ids.begin(), ids.end());
    if (!model) { auto i = memo.find(key); if (i != memo.end()) { SS.cached++; return i->second; } }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeout_ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    for (X c : cs) Z3_solver_assert(C, s, v2b(tr(c)));
    Z3_lbool r = Z3_solver_check(C, s);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    SS.queries++; if (res == 1) SS.sat++; else if (res == 0) SS.unsat++; else SS.unknown++;
    if (res == 1 && model) {
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        for (X v : P.vars) {
            Z3_ast o = nullptr; u128 val = 0;
            if (Z3_model_eval(C, m, tr(v), true, &o)) {
                Z3_inc_ref(C, o);
                std::string str = Z3_get_numeral_string(C, o);
                for (char ch : str) if (ch >= '0' && ch <= '9') val = val * 10 + (ch - '0');
                Z3_dec_ref(C, o);
            }
            (*model)[v->id] = val;
        }
        Z3_model_dec_ref(C, m);
    }
    Z3_solver_dec_ref(C, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); SS.secs += dt;
    if (dt > 2 && getenv("LLSYM_TRACE")) { fprintf(stderr, "slow query %.1fs result %d, %zu conjuncts\n", dt, res, cs.size()); for (X c : cs) fprintf(stderr, "   %s\n", show(c, 6).c_str()); }
    memo[key] = res;
    return res;
}
u128 evalModel(X root, const std::map<uint32_t, u128>& m) {
    std::unordered_map<uint32_t, u128> v; std::vector<X> st{root};
    while (!st.empty()) {
        X x = st.back();
        if (v.count(x->id)) { st.pop_back(); continue; }
        bool ready = true;
        for (X y : x->a) if (!v.count(y->id)) { ready = false; st.push_back(y); }
        if (!ready) continue;
        st.pop_back();
        if (x->k == VAR) { auto i = m.find(x->id); v[x->id] = i == m.end() ? 0 : i->second; continue; }
        std::vector<u128> t; for (X y : x->a) t.push_back(v[y->id]);
        v[x->id] = x->k == CONST ? x->c : evalop(*x, 0, t.data());
    }
    return v[root->id];
}
