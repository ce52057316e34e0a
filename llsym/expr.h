// Hash-consed bit-vector expressions (width 1..128) with aggressive local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <set>
#include <map>
typedef unsigned __int128 u128;
typedef uint64_t u64;
enum K : uint8_t { CONST, VAR, NOT, AND, OR, XOR, ADD, MUL, UDIV, UREM, SDIV, SREM, SHL, LSHR, ASHR, CONCAT, EXTRACT, ITE, EQ, ULT, SLT };
static const int NM = 20; // simulation models
struct E {
    K k; uint8_t hi, lo; uint16_t w; uint32_t id;
    std::vector<const E*> a;
    u128 c, umax;
    u128 ev[NM];
    std::string name; uint32_t symid;
};
typedef const E* X;
static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline bool isC(X x) { return x->k == CONST; }

struct Pool {
    std::unordered_multimap<u64, E*> tab;
    std::vector<E*> all;
    std::vector<X> vars;
    u64 seed = 88172645463325252ull;
    u64 rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
};
extern Pool P;
[[noreturn]] void die(const std::string& s);

static inline __int128 sx(u128 v, unsigned w) { if (w < 128 && (v >> (w - 1)) & 1) v |= ~mask(w); return (__int128)v; }

static inline u128 evalop(const E& e, int m, u128* t) {
    u128 M = mask(e.w); auto A = [&](int i) { return t ? t[i] : e.a[i]->ev[m]; }; unsigned aw = e.a.empty() ? 0 : e.a[0]->w;
    switch (e.k) {
    case CONST: return e.c;
    case VAR: return 0;
    case NOT: return ~A(0) & M;
    case AND: { u128 r = M; for (size_t i = 0; i < e.a.size(); i++) r &= A(i); return r; }
    case OR: { u128 r = 0; for (size_t i = 0; i < e.a.size(); i++) r |= A(i); return r; }
    case XOR: { u128 r = 0; for (size_t i = 0; i < e.a.size(); i++) r ^= A(i); return r; }
    case ADD: { u128 r = 0; for (size_t i = 0; i < e.a.size(); i++) r += A(i); return r & M; }
    case MUL: { u128 r = 1; for (size_t i = 0; i < e.a.size(); i++) r *= A(i); return r & M; }
    case UDIV: return A(1) ? A(0) / A(1) : M;
    case UREM: return A(1) ? A(0) % A(1) : A(0);
    case SDIV: { __int128 x = sx(A(0), aw), y = sx(A(1), aw); if (!y) return x < 0 ? 1 : M; return (u128)(y == -1 ? -x : x / y) & M; }
    case SREM: { __int128 x = sx(A(0), aw), y = sx(A(1), aw); if (!y) return A(0); return (u128)(y == -1 ? 0 : x % y) & M; }
    case SHL: return A(1) >= e.w ? 0 : (A(0) << (unsigned)A(1)) & M;
    case LSHR: return A(1) >= e.w ? 0 : A(0) >> (unsigned)A(1);
    case ASHR: { __int128 x = sx(A(0), e.w); unsigned s = A(1) >= e.w ? e.w - 1 : (unsigned)A(1); return (u128)(x >> s) & M; }
    case CONCAT: { u128 r = 0; for (size_t i = 0; i < e.a.size(); i++) { r = (e.a[i]->w >= 128 ? 0 : r << e.a[i]->w) | A(i); } return r; }
    case EXTRACT: return (A(0) >> e.lo) & M;
    case ITE: return A(0) ? A(1) : A(2);
    case EQ: return A(0) == A(1);
    case ULT: return A(0) < A(1);
    case SLT: return sx(A(0), aw) < sx(A(1), aw);
    }
    return 0;
}

static inline X intern(E& n) {
    u64 h = n.k * 0x9E3779B97F4A7C15ull ^ (u64)n.w << 40 ^ (u64)n.hi << 20 ^ (u64)n.lo << 12 ^ (u64)n.c * 0xff51afd7ed558ccdull ^ (u64)(n.c >> 64) * 31 ^ (u64)n.symid * 0xc4ceb9fe1a85ec53ull;
    for (X x : n.a) h = (h ^ x->id) * 0x100000001b3ull + (h >> 29);
    auto r = P.tab.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) {
        E* o = i->second;
        if (o->k == n.k && o->w == n.w && o->hi == n.hi && o->lo == n.lo && o->c == n.c && o->symid == n.symid && o->a == n.a) return o;
    }
    E* e = new E(n);
    e->id = P.all.size(); P.all.push_back(e);
    if (e->k == VAR) {
        for (int m = 0; m < NM; m++) e->ev[m] = (m == 0 ? 0 : m == 1 ? ~(u128)0 : ((u128)P.rnd() << 64 | P.rnd())) & mask(e->w);
        P.vars.push_back(e);
    } else for (int m = 0; m < NM; m++) e->ev[m] = evalop(*e, m, nullptr);
    u128 M = mask(e->w); e->umax = M;
    switch (e->k) {
    case CONST: e->umax = e->c; break;
    case AND: for (X x : e->a) e->umax = std::min(e->umax, x->umax); break;
    case OR: case XOR: { u128 b = 0; for (X x : e->a) b |= x->umax; u128 q = 0; while (q < b) q = q << 1 | 1; e->umax = q; break; }
    case ADD: { u128 s = 0; bool ov = false; for (X x : e->a) { if (x->umax > M - s) { ov = true; break; } s += x->umax; } if (!ov) e->umax = s; break; }
    case MUL: { if (e->a.size() == 2) { u128 p = e->a[0]->umax, q = e->a[1]->umax; if (!p || !q) e->umax = 0; else if (p <= M / q) e->umax = p * q; } break; }
    case UDIV: if (isC(e->a[1]) && e->a[1]->c) e->umax = e->a[0]->umax / e->a[1]->c; break;
    case UREM: if (isC(e->a[1]) && e->a[1]->c) e->umax = std::min(e->a[0]->umax, e->a[1]->c - 1); break;
    case LSHR: e->umax = e->a[0]->umax; break;
    case CONCAT: { u128 r = 0; for (X x : e->a) r = (x->w >= 128 ? 0 : r << x->w) | x->umax; 
        // umax of parts below a non-zero part may be anything up to their own umax: r is a valid bound
        e->umax = r; break; }
    case EXTRACT: { u128 q = e->a[0]->umax >> e->lo; e->umax = q > M ? M : (e->lo == 0 && e->a[0]->umax <= M ? e->a[0]->umax : (e->a[0]->umax >> e->lo) <= M ? q : M); break; }
    case ITE: e->umax = std::max(e->a[1]->umax, e->a[2]->umax); break;
    default: break;
    }
    P.tab.emplace(h, e);
    return e;
}
static inline E blank(K k, unsigned w) { E n; n.k = k; n.w = w; n.hi = n.lo = 0; n.c = 0; n.symid = 0; return n; }
static inline X mkC(u128 c, unsigned w) { E n = blank(CONST, w); n.c = c & mask(w); return intern(n); }
static inline X mkVar(uint32_t id, unsigned w, const std::string& nm) { E n = blank(VAR, w); n.symid = id; n.name = nm; return intern(n); }
static inline X raw(K k, unsigned w, std::vector<X> a) { E n = blank(k, w); n.a = std::move(a); return intern(n); }
X mkNot(X a); X mkAnd(X a, X b); X mkOr(X a, X b); X mkXor(X a, X b); X mkAdd(std::vector<X> a); X mkNeg(X a); X mkSub(X a, X b);
X mkMul(X a, X b); X mkConcat(std::vector<X> parts); X mkExtract(X a, unsigned hi, unsigned lo); X mkIte(X c, X a, X b);
X mkEq(X a, X b); X mkUlt(X a, X b); X mkSlt(X a, X b); X mkShl(X a, X b); X mkLshr(X a, X b); X mkAshr(X a, X b);
X mkDiv(K k, X a, X b); X mkZext(X a, unsigned w); X mkSext(X a, unsigned w);
std::string show(X x, int depth);
static inline X T1() { return mkC(1, 1); }
static inline X F1() { return mkC(0, 1); }
