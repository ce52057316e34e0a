// Lemma over the whole field: given the value of the known bits (one row each), the constraint
// (a0+a1 u)(b0+b1 u) = c0+c1 u modulo the BLS12-381 scalar prime forces u to the tabulated value.
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <array>
#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::cpp_int Z;
int fieldLemma(const std::vector<std::array<Z, 6>>& rows, const std::vector<int>& tab, bool boolean) {
    static Z3_context C = nullptr; if (!C) { Z3_config g = Z3_mk_config(); C = Z3_mk_context(g); }
    auto t0 = std::chrono::steady_clock::now();
    Z3_sort I = Z3_mk_int_sort(C);
    auto num = [&](const Z& z) { return Z3_mk_numeral(C, z.str().c_str(), I); };
    Z3_ast u = Z3_mk_const(C, Z3_mk_string_symbol(C, "u"), I), k = Z3_mk_const(C, Z3_mk_string_symbol(C, "k"), I), r = Z3_mk_const(C, Z3_mk_string_symbol(C, "row"), I);
    Z3_ast p = Z3_mk_numeral(C, "52435875175126190479447740508185965837690552500527637822603658699938581184513", I);
    std::vector<Z3_ast> alts;
    for (size_t m = 0; m < rows.size(); m++) { if (tab[m] < 0) continue; auto& q = rows[m];
        std::vector<Z3_ast> cj; Z3_ast t[2] = {r, num((long)m)}; cj.push_back(Z3_mk_eq(C, t[0], t[1]));
        if (q[3] * q[4] != 0) { // quadratic: u is a bit by its own constraint
            if (!boolean) return -1;
            Z e0 = q[0] * q[1] - q[2], e1 = (q[0] + q[3]) * (q[1] + q[4]) - (q[2] + q[5]);
            Z3_ast z = Z3_mk_eq(C, u, num(0)), o = Z3_mk_eq(C, u, num(1)); Z3_ast zz[2] = {z, e0 == 0 ? Z3_mk_true(C) : Z3_mk_false(C)}, oo[2] = {o, e1 == 0 ? Z3_mk_true(C) : Z3_mk_false(C)}; Z3_ast d[2] = {Z3_mk_and(C, 2, zz), Z3_mk_and(C, 2, oo)}; cj.push_back(Z3_mk_or(C, 2, d));
        } else {
            Z al = q[0] * q[4] + q[3] * q[1] - q[5], be = q[0] * q[1] - q[2];
            Z3_ast mu[2] = {num(al), u}, ad[2] = {Z3_mk_mul(C, 2, mu), num(be)}, kp[2] = {k, p};
            cj.push_back(Z3_mk_eq(C, Z3_mk_add(C, 2, ad), Z3_mk_mul(C, 2, kp)));
        }
        cj.push_back(Z3_mk_not(C, Z3_mk_eq(C, u, num(tab[m]))));
        alts.push_back(Z3_mk_and(C, cj.size(), cj.data()));
    }
    Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
    Z3_params pr = Z3_mk_params(C); Z3_params_inc_ref(C, pr); Z3_params_set_uint(C, pr, Z3_mk_string_symbol(C, "timeout"), 60000); Z3_solver_set_params(C, s, pr);
    Z3_solver_assert(C, s, Z3_mk_ge(C, u, num(0))); Z3_solver_assert(C, s, Z3_mk_lt(C, u, p));
    if (boolean) { Z3_ast d[2] = {Z3_mk_eq(C, u, num(0)), Z3_mk_eq(C, u, num(1))}; Z3_solver_assert(C, s, Z3_mk_or(C, 2, d)); }
    Z3_solver_assert(C, s, alts.empty() ? Z3_mk_false(C) : Z3_mk_or(C, alts.size(), alts.data()));
    Z3_lbool v = Z3_solver_check(C, s);
    SS.queries++; int res = v == Z3_L_TRUE ? 1 : v == Z3_L_FALSE ? 0 : -1; if (res == 1) SS.sat++; else if (res == 0) SS.unsat++; else SS.unknown++;
    SS.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    Z3_solver_dec_ref(C, s);
    return res;
}
