#include <map>
#include "expr.h"
Pool P;
static bool byId(X a, X b) { return a->id < b->id; }
static bool ones(X x) { return isC(x) && x->c == mask(x->w); }
static bool zero(X x) { return isC(x) && x->c == 0; }

static X extract1(X a, unsigned hi, unsigned lo);
// a zero-extended sum modulo a smaller power of two: kept whole, it may yet become part of a sum of its own width
static bool wrapped(X x) { return x->k == CONCAT && x->a.size() == 2 && isC(x->a[0]) && !x->a[0]->c && x->a[1]->k == ADD; }
static bool anyWrapped(const std::vector<X>& v) { for (X x : v) if (wrapped(x)) return true; return false; }
X mkExtract(X a, unsigned hi, unsigned lo) {
    unsigned w = hi - lo + 1;
    if (w == a->w) return a;
    if (isC(a)) return mkC(a->c >> lo, w);
    if ((a->umax >> lo) == 0) return mkC(0, w);
    if (a->k == VAR) { E n = blank(EXTRACT, w); n.a = {a}; n.hi = hi; n.lo = lo; return intern(n); }
    static std::unordered_map<u64, X> memo; u64 key = (u64)a->id << 16 | hi << 8 | lo;
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    X r = extract1(a, hi, lo); memo[key] = r; return r;
}
static unsigned tzero(X x) { // low bits known to be zero
    if (isC(x)) { if (!x->c) return x->w; unsigned n = 0; while (!(x->c >> n & 1)) n++; return n; }
    if (x->k == CONCAT) { unsigned n = 0; for (size_t i = x->a.size(); i-- > 0;) { unsigned z = tzero(x->a[i]); n += z; if (z < x->a[i]->w) break; } return n; }
    if (x->k == MUL && x->a.size() == 2 && isC(x->a[0])) return std::min<unsigned>(x->w, tzero(x->a[0]));
    return 0;
}
static unsigned clow(X x) { // low bits known to be constant
    if (isC(x)) return x->w;
    if (x->k == CONCAT) { unsigned n = 0; for (size_t i = x->a.size(); i-- > 0;) { unsigned z = clow(x->a[i]); n += z; if (z < x->a[i]->w) break; } return n; }
    return tzero(x);
}
static X extract1(X a, unsigned hi, unsigned lo) {
    unsigned w = hi - lo + 1;
    switch (a->k) {
    case EXTRACT: return mkExtract(a->a[0], hi + a->lo, lo + a->lo);
    case CONCAT: {
        std::vector<X> ps; unsigned pos = a->w;
        for (X p : a->a) {
            unsigned plo = pos - p->w, phi = pos - 1; pos = plo;
            if (plo > hi || phi < lo) continue;
            ps.push_back(mkExtract(p, std::min(hi, phi) - plo, std::max(lo, plo) - plo));
        }
        return mkConcat(ps);
    }
    case NOT: return mkNot(mkExtract(a->a[0], hi, lo));
    case AND: { X r = mkExtract(a->a[0], hi, lo); for (size_t i = 1; i < a->a.size(); i++) r = mkAnd(r, mkExtract(a->a[i], hi, lo)); return r; }
    case OR: { X r = mkExtract(a->a[0], hi, lo); for (size_t i = 1; i < a->a.size(); i++) r = mkOr(r, mkExtract(a->a[i], hi, lo)); return r; }
    case XOR: { X r = mkExtract(a->a[0], hi, lo); for (size_t i = 1; i < a->a.size(); i++) r = mkXor(r, mkExtract(a->a[i], hi, lo)); return r; }
    case ITE: return mkIte(a->a[0], mkExtract(a->a[1], hi, lo), mkExtract(a->a[2], hi, lo));
    case ADD: { // bits of the low word do not depend on anything above it
        unsigned bw = 1; for (X x : a->a) if (!isC(x)) while (bw < a->w && (x->umax >> bw)) bw++;
        unsigned tw = hi < bw && bw < a->w ? bw : hi < 32 ? 32 : hi < 64 ? 64 : 128;
        if (tw < a->w) { std::vector<X> v; for (X x : a->a) v.push_back(mkExtract(x, tw - 1, 0)); return mkExtract(mkAdd(v), hi, lo); }
        // below k at most one addend has bits: no carries
        unsigned k = hi + 1; X sole = nullptr; { unsigned k1 = 999, k2 = 999; X x1 = nullptr; for (X x : a->a) { unsigned z = tzero(x); if (z < k1) { k2 = k1; k1 = z; x1 = x; } else if (z < k2) k2 = z; } k = std::min<unsigned>(k2, a->w); sole = x1; }
        if (lo < k && (hi < k || !anyWrapped(a->a))) { if (hi < k) return mkExtract(sole, hi, lo); return mkConcat({mkExtract(a, hi, k), mkExtract(sole, k - 1, lo)}); }
        if (k > 0) { std::vector<X> v; bool cuts = false; for (X x : a->a) { v.push_back(mkExtract(x, a->w - 1, k)); if (wrapped(x)) cuts = true; } if (!cuts) return mkExtract(mkAdd(v), hi - k, lo - k); }
        break; }
    case MUL: if (lo == 0 && a->a.size() == 2) return mkMul(mkExtract(a->a[0], hi, 0), mkExtract(a->a[1], hi, 0)); break;
    default: break;
    }
    E n = blank(EXTRACT, w); n.a = {a}; n.hi = hi; n.lo = lo;
    return intern(n);
}
static X bitop(K k, X a, X b);
// l ++ r as a single bitwise expression of wider operands, when they are adjacent pieces of the same words
static X fuse2(X l, X r, int depth) {
    if (depth > 6) return nullptr;
    if (l->w + r->w > 128) return nullptr;
    if (isC(l) && isC(r)) return depth ? mkC(l->c << r->w | r->c, l->w + r->w) : nullptr;
    // the lowest bit of a sum is written as an exclusive or
    if (l->k == EXTRACT && l->lo == 1 && r->w == 1 && l->a[0]->k == ADD && r == mkExtract(l->a[0], 0, 0)) return mkExtract(l->a[0], l->hi, 0);
    if (l->k != r->k) return nullptr;
    switch (l->k) {
    case EXTRACT: if (l->a[0] == r->a[0] && l->lo == r->hi + 1u) return mkExtract(l->a[0], l->hi, r->lo); return nullptr;
    case NOT: { X f = fuse2(l->a[0], r->a[0], depth + 1); return f ? mkNot(f) : nullptr; }
    case ITE: { if (l->a[0] != r->a[0]) return nullptr; X a = fuse2(l->a[1], r->a[1], depth + 1); if (!a) return nullptr; X b = fuse2(l->a[2], r->a[2], depth + 1); return b ? mkIte(l->a[0], a, b) : nullptr; }
    case AND: case OR: case XOR: {
        if (l->a.size() != r->a.size() || l->a.size() > 12) return nullptr;
        std::vector<X> fs; std::vector<bool> used(r->a.size(), false);
        for (X x : l->a) { X f = nullptr; for (size_t j = 0; j < r->a.size() && !f; j++) if (!used[j]) { f = fuse2(x, r->a[j], depth + 1); if (f) used[j] = true; } if (!f) return nullptr; fs.push_back(f); }
        X z = fs[0]; for (size_t i = 1; i < fs.size(); i++) z = bitop(l->k, z, fs[i]); return z; }
    default: return nullptr;
    }
}
X mkConcat(std::vector<X> in) {
    std::vector<X> f;
    for (X x : in) { if (x->k == CONCAT) f.insert(f.end(), x->a.begin(), x->a.end()); else f.push_back(x); }
    std::vector<X> o;
    for (X x : f) {
        if (!o.empty()) {
            X l = o.back();
            if (isC(l) && isC(x) && l->w + x->w <= 128) { o.back() = mkC(l->c << x->w | x->c, l->w + x->w); continue; }
            if (l->k == EXTRACT && x->k == EXTRACT && l->a[0] == x->a[0] && l->lo == x->hi + 1u) { o.back() = mkExtract(x->a[0], l->hi, x->lo); continue; }
            if (l->k != EXTRACT && l->k == x->k) { X f = fuse2(l, x, 0); if (f && f->k != CONCAT) { o.back() = f; continue; } }
            // ite(c,..)++ite(c,..) with constant arms
            if (l->k == ITE && x->k == ITE && l->a[0] == x->a[0] && isC(l->a[1]) && isC(l->a[2]) && isC(x->a[1]) && isC(x->a[2])) {
                unsigned w = l->w + x->w;
                E n = blank(ITE, w); n.a = {l->a[0], mkC(l->a[1]->c << x->w | x->a[1]->c, w), mkC(l->a[2]->c << x->w | x->a[2]->c, w)};
                o.back() = intern(n); continue;
            }
        }
        o.push_back(x);
    }
    if (o.size() == 1) return o[0];
    unsigned w = 0; for (X x : o) w += x->w;
    if (w > 128) die("concat wider than 128 bits");
    // all parts are pushed-down extracts of the same word expression?
    return raw(CONCAT, w, o);
}
X mkZext(X a, unsigned w) { if (w == a->w) return a; if (w < a->w) die("zext"); return mkConcat({mkC(0, w - a->w), a}); }
X mkSext(X a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return mkC((u128)sx(a->c, a->w), w);
    X s = mkExtract(a, a->w - 1, a->w - 1);
    if (isC(s)) return mkConcat({s->c ? mkC(~(u128)0, w - a->w) : mkC(0, w - a->w), a});
    return mkConcat({mkIte(s, mkC(~(u128)0, w - a->w), mkC(0, w - a->w)), a});
}
// split a (CONST/CONCAT) at boundaries
static void bounds(X a, std::set<unsigned>& s) { // positions of part starts (lo)
    if (a->k == CONCAT) { unsigned pos = a->w; for (X p : a->a) { pos -= p->w; s.insert(pos); } }
    if (a->k == CONST) { // runs
        for (unsigned i = 1; i < a->w; i++) if (((a->c >> i) & 1) != ((a->c >> (i - 1)) & 1)) s.insert(i);
    }
}
static bool hasConstPart(X a) { if (isC(a)) return true; if (a->k == CONCAT) for (X p : a->a) if (isC(p)) return true; return false; }
X mkNot(X a) {
    if (isC(a)) return mkC(~a->c, a->w);
    if (a->k == NOT) return a->a[0];
    if (a->k == CONCAT) { std::vector<X> v; for (X p : a->a) v.push_back(mkNot(p)); return mkConcat(v); }
    if (a->k == ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkNot(a->a[1]), mkNot(a->a[2]));
    return raw(NOT, a->w, {a});
}
static X bitop(K k, X a, X b) {
    if (a->w != b->w) die("bitop width");
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkC(k == AND ? a->c & b->c : k == OR ? a->c | b->c : a->c ^ b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (k == AND) { if (zero(b)) return b; if (ones(b)) return a; }
        if (k == OR) { if (zero(b)) return a; if (ones(b)) return b; }
        if (k == XOR) { if (zero(b)) return a; if (ones(b)) return mkNot(a); }
    }
    if (a == b) return k == XOR ? mkC(0, w) : a;
    if ((a->k == NOT && a->a[0] == b) || (b->k == NOT && b->a[0] == a)) return k == AND ? mkC(0, w) : mkC(~(u128)0, w);
    if (w > 1 && (hasConstPart(a) || hasConstPart(b) || a->k == CONCAT || b->k == CONCAT)) {
        std::set<unsigned> s{0}; bounds(a, s); bounds(b, s);
        if (s.size() > 1) {
            std::vector<unsigned> v(s.begin(), s.end()); std::vector<X> ps;
            for (int i = (int)v.size() - 1; i >= 0; i--) {
                unsigned lo = v[i], hi = i + 1 < (int)v.size() ? v[i + 1] - 1 : w - 1;
                ps.push_back(bitop(k, mkExtract(a, hi, lo), mkExtract(b, hi, lo)));
            }
            return mkConcat(ps);
        }
    }
    if (k == XOR) { // strip negations
        bool neg = false; std::vector<X> v;
        auto add = [&](X x) { if (x->k == NOT) { neg = !neg; x = x->a[0]; } if (x->k == XOR) v.insert(v.end(), x->a.begin(), x->a.end()); else v.push_back(x); };
        add(a); add(b);
        std::sort(v.begin(), v.end(), byId);
        std::vector<X> o; for (X x : v) { if (!o.empty() && o.back() == x) o.pop_back(); else o.push_back(x); }
        X r;
        if (o.empty()) r = mkC(0, w); else if (o.size() == 1) r = o[0]; else r = raw(XOR, w, o);
        return neg ? mkNot(r) : r;
    }
    std::vector<X> v;
    for (X x : {a, b}) { if (x->k == k) v.insert(v.end(), x->a.begin(), x->a.end()); else v.push_back(x); }
    std::sort(v.begin(), v.end(), byId); v.erase(std::unique(v.begin(), v.end()), v.end());
    for (X x : v) { X n = x->k == NOT ? x->a[0] : nullptr; if (n && std::binary_search(v.begin(), v.end(), n, byId)) return k == AND ? mkC(0, w) : mkC(~(u128)0, w); }
    if (v.size() == 1) return v[0];
    if (v.size() > 64) return raw(k, w, {a, b}); 
    return raw(k, w, v);
}
X mkAnd(X a, X b) { return bitop(AND, a, b); }
X mkOr(X a, X b) { return bitop(OR, a, b); }
X mkXor(X a, X b) { return bitop(XOR, a, b); }
static bool noWrap(X x) { u128 s = 0, M = mask(x->w); for (X y : x->a) { if (y->umax > M - s) return false; s += y->umax; } return true; }
X mkAdd(std::vector<X> in) {
    unsigned w = in[0]->w; u128 c = 0; std::vector<X> v;
    // flatten: nested sums, and sums standing above their low bits, high:low = high * 2^k + low
    std::vector<X> work(in.rbegin(), in.rend());
    while (!work.empty()) {
        X x = work.back(); work.pop_back();
        if (x->w != w) die("add width");
        if (isC(x)) { c += x->c; continue; }
        if (x->k == ADD) { for (X y : x->a) work.push_back(y); continue; }
        if (x->k == CONCAT) {
            size_t j = zero(x->a[0]) ? 1 : 0;
            if (j < x->a.size() && x->a[j]->k == ADD && (j == 0 || noWrap(x->a[j]))) {
                unsigned k = 0; std::vector<X> low(x->a.begin() + j + 1, x->a.end()); for (X y : low) k += y->w;
                if (!k) { for (X y : x->a[j]->a) work.push_back(mkZext(y, w)); continue; }
                X L = mkConcat(low); bool used = false; unsigned pl = L->k == CONCAT ? L->a.size() : 1;
                for (X y : x->a[j]->a) { X z = mkConcat({y, L}); unsigned n = z->k == CONCAT ? z->a.size() : 1, py = y->k == CONCAT ? y->a.size() : 1;
                    if (!used && !isC(y) && !isC(L) && n < py + pl) { used = true; work.push_back(mkZext(z, w)); }
                    else work.push_back(mkZext(mkConcat({y, mkC(0, k)}), w)); }
                if (!used) { if (isC(L)) c += L->c; else v.push_back(mkZext(L, w)); }
                continue;
            }
            X l = x->a.back();
            if (isC(l) && l->c) { c += l->c; std::vector<X> t(x->a.begin(), x->a.end() - 1); t.push_back(mkC(0, l->w)); work.push_back(mkConcat(t)); continue; }
        }
        v.push_back(x);
    }
    c &= mask(w);
    if (w > 1 && v.size() > 1) { // collect multiples of the same term
        std::map<uint32_t, std::pair<X, u128>> co; bool dup = false;
        for (X x : v) { u128 k = 1; X y = x; if (x->k == MUL && x->a.size() == 2 && isC(x->a[0])) { k = x->a[0]->c; y = x->a[1]; } auto r = co.emplace(y->id, std::make_pair(y, k)); if (!r.second) { dup = true; r.first->second.second += k; } }
        if (dup) { v.clear(); for (auto& e : co) { u128 k = e.second.second & mask(w); if (!k) continue; v.push_back(k == 1 ? e.second.first : raw(MUL, w, {mkC(k, w), e.second.first})); } }
    }
    std::sort(v.begin(), v.end(), byId);
    if (v.empty()) return mkC(c, w);
    if (v.size() == 1 && c == 0) return v[0];
    if (w == 1) { X r = v[0]; for (size_t i = 1; i < v.size(); i++) r = mkXor(r, v[i]); return c ? mkNot(r) : r; }
    if (v.size() + (c ? 1 : 0) > 1) { // low bits only one addend has: no carries there
        unsigned k1 = 999, k2 = 999; X x1 = nullptr; X cx = c ? mkC(c, w) : nullptr; auto see = [&](X x) { unsigned z = tzero(x); if (z < k1) { k2 = k1; k1 = z; x1 = x; } else if (z < k2) k2 = z; };
        for (X x : v) see(x);
        if (cx) see(cx);
        if (k2 > 0 && k2 < w && !anyWrapped(v)) { std::vector<X> t; for (X x : v) t.push_back(mkExtract(x, w - 1, k2)); if (c) t.push_back(mkC(c >> k2, w - k2)); return mkConcat({mkAdd(t), mkExtract(x1, k2 - 1, 0)}); }
    }
    // disjoint bits: add is or
    if (v.size() == 2 && c == 0 && (v[0]->k == CONCAT || v[1]->k == CONCAT)) {
        X a = v[0], b = v[1];
        std::set<unsigned> s{0}; bounds(a, s); bounds(b, s);
        bool dis = true; std::vector<unsigned> q(s.begin(), s.end());
        for (size_t i = 0; i < q.size() && dis; i++) { unsigned lo = q[i], hi = i + 1 < q.size() ? q[i + 1] - 1 : w - 1; if (!zero(mkExtract(a, hi, lo)) && !zero(mkExtract(b, hi, lo))) dis = false; }
        if (dis) return mkOr(a, b);
    }
    // common leading zeros: compute in the narrow width needed
    if (v.size() >= 1) {
        u128 s = c; bool ov = false; for (X x : v) { if (x->umax > mask(w) - s) { ov = true; break; } s += x->umax; }
        if (!ov) { unsigned nw = 1; while (nw < w && mask(nw) < s) nw++; if (nw < w) { std::vector<X> t; for (X x : v) t.push_back(mkExtract(x, nw - 1, 0)); if (c) t.push_back(mkC(c, nw)); 
            std::vector<X> t2; bool same = true; for (X x : t) if (x->k == ADD) same = false; (void)same;
            return mkZext(mkAdd(t), w); } }
    }
    if (c) v.insert(v.begin(), mkC(c, w));
    if (v.size() == 1) return v[0];
    return raw(ADD, w, v);
}
X mkNeg(X a) { return mkMul(mkC(~(u128)0, a->w), a); }
X mkSub(X a, X b) { if (a == b) return mkC(0, a->w); if (isC(b)) return mkAdd({a, mkC(-b->c, a->w)}); return mkAdd({a, mkNeg(b)}); }
X mkMul(X a, X b) {
    if (isC(b)) std::swap(a, b);
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkC(a->c * b->c, w);
    if (isC(a)) {
        if (a->c == 0) return a;
        if (a->c == 1) return b;
        if (w == 1) return b;
        if ((a->c & (a->c - 1)) == 0) { unsigned s = 0; while (!((a->c >> s) & 1)) s++; return mkShl(b, mkC(s, w)); }
        if (b->k == MUL && isC(b->a[0])) return mkMul(mkC(a->c * b->a[0]->c, w), b->a[1]);
        if (b->k == ITE && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], mkMul(a, b->a[1]), mkMul(a, b->a[2]));
        if (ones(a) && b->k == ADD) { std::vector<X> v; for (X x : b->a) v.push_back(mkMul(a, x)); return mkAdd(v); }
        return raw(MUL, w, {a, b});
    }
    if (w == 1) return mkAnd(a, b);
    for (int i = 0; i < 2; i++) { X s = i ? b : a, o = i ? a : b; if (s->umax <= 1) return mkIte(mkExtract(s, 0, 0), o, mkC(0, w)); }
    if (b->id < a->id) std::swap(a, b);
    return raw(MUL, w, {a, b});
}
X mkDiv(K k, X a, X b) {
    unsigned w = a->w;
    if (isC(b) && b->c == 0) return raw(k, w, {a, b});
    if (isC(a) && isC(b)) { E n = blank(k, w); n.a = {a, b}; u128 t[2] = {a->c, b->c}; return mkC(evalop(n, 0, t), w); }
    if (isC(b) && (b->c & (b->c - 1)) == 0) {
        unsigned s = 0; while (!((b->c >> s) & 1)) s++;
        if (k == UDIV) return mkLshr(a, mkC(s, w));
        if (k == UREM) return mkAnd(a, mkC(b->c - 1, w));
    }
    if (k == UREM && isC(b) && a->umax < b->c) return a;
    if (k == UDIV && isC(b) && a->umax < b->c) return mkC(0, w);
    return raw(k, w, {a, b});
}
X mkShl(X a, X b) {
    unsigned w = a->w;
    if (isC(b)) { if (b->c >= w) return mkC(0, w); unsigned s = (unsigned)b->c; if (!s) return a; return mkConcat({mkExtract(a, w - 1 - s, 0), mkC(0, s)}); }
    if (zero(a)) return a;
    return raw(SHL, w, {a, b});
}
X mkLshr(X a, X b) {
    unsigned w = a->w;
    if (isC(b)) { if (b->c >= w) return mkC(0, w); unsigned s = (unsigned)b->c; if (!s) return a; return mkConcat({mkC(0, s), mkExtract(a, w - 1, s)}); }
    if (zero(a)) return a;
    return raw(LSHR, w, {a, b});
}
X mkAshr(X a, X b) {
    unsigned w = a->w;
    if (isC(b)) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; if (!s) return a; return mkSext(mkExtract(a, w - 1, s), w); }
    return raw(ASHR, w, {a, b});
}
X mkIte(X c, X a, X b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w != b->w) die("ite width");
    if (c->k == NOT) return mkIte(c->a[0], b, a);
    unsigned w = a->w;
    if (a->k == ITE && a->a[0] == c) return mkIte(c, a->a[1], b);
    if (b->k == ITE && b->a[0] == c) return mkIte(c, a, b->a[2]);
    if (w == 1) {
        if (a == c) a = T1();
        if (b == c) b = F1();
        if (isC(a) && isC(b)) return a->c ? (b->c ? a : c) : (b->c ? mkNot(c) : a);
        if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == mkNot(b)) return mkXor(c, b);
    } else {
        // piecewise when arms share structure
        if ((a->k == CONCAT || isC(a)) && (b->k == CONCAT || isC(b)) && !(isC(a) && isC(b))) {
            std::set<unsigned> s{0};
            if (a->k == CONCAT) bounds(a, s);
            if (b->k == CONCAT) bounds(b, s);
            std::vector<unsigned> v(s.begin(), s.end()); std::vector<X> ps;
            for (int i = (int)v.size() - 1; i >= 0; i--) { unsigned lo = v[i], hi = i + 1 < (int)v.size() ? v[i + 1] - 1 : w - 1; ps.push_back(mkIte(c, mkExtract(a, hi, lo), mkExtract(b, hi, lo))); }
            return mkConcat(ps);
        }
        if (isC(a) && isC(b)) { // strip equal leading and trailing bits
            u128 d = a->c ^ b->c; unsigned h = w - 1, l = 0; while (!((d >> h) & 1)) h--; while (!((d >> l) & 1)) l++;
            if (h - l + 1 < w) {
                std::vector<X> ps; if (h + 1 < w) ps.push_back(mkC(a->c >> (h + 1), w - 1 - h));
                ps.push_back(mkIte(c, mkC(a->c >> l, h - l + 1), mkC(b->c >> l, h - l + 1)));
                if (l) ps.push_back(mkC(a->c, l));
                return mkConcat(ps);
            }
        }
    }
    return raw(ITE, w, {c, a, b});
}
X mkEq(X a, X b) {
    if (a == b) return T1();
    if (a->w != b->w) die("eq width");
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return a->c == b->c ? T1() : F1();
    if (a->w == 1) return mkNot(mkXor(a, b));
    if (isC(b)) {
        if (b->c > a->umax) return F1();
        if (a->k == CONCAT) { X r = T1(); unsigned pos = a->w; for (X p : a->a) { pos -= p->w; r = mkAnd(r, mkEq(p, mkC(b->c >> pos, p->w))); if (zero(r)) return r; } return r; }
        if (a->k == ITE) {
            X l = mkEq(a->a[1], b), r = mkEq(a->a[2], b);
            if (isC(l) || isC(r) ) return mkIte(a->a[0], l, r);
        }
        if (a->k == NOT) return mkEq(a->a[0], mkNot(b));
        if (a->k == XOR && isC(a->a[0])) return mkEq(mkXor(a, a->a[0]), mkXor(b, a->a[0]));
        if (a->k == ADD && isC(a->a[0])) return mkEq(mkAdd({a, mkC(-a->a[0]->c, a->w)}), mkC(b->c - a->a[0]->c, a->w));
    } else if (a->k == CONCAT && b->k == CONCAT) {
        std::set<unsigned> s{0}; bounds(a, s); bounds(b, s);
        std::vector<unsigned> v(s.begin(), s.end()); X r = T1();
        if (v.size() > 1) {
            for (size_t i = 0; i < v.size(); i++) { unsigned lo = v[i], hi = i + 1 < v.size() ? v[i + 1] - 1 : a->w - 1; r = mkAnd(r, mkEq(mkExtract(a, hi, lo), mkExtract(b, hi, lo))); if (zero(r)) return r; }
            return r;
        }
    }
    if (b->id < a->id) std::swap(a, b);
    return raw(EQ, 1, {a, b});
}
X mkUlt(X a, X b) {
    if (a == b) return F1();
    if (isC(a) && isC(b)) return a->c < b->c ? T1() : F1();
    if (isC(b)) { if (b->c == 0) return F1(); if (a->umax < b->c) return T1(); if (b->c == 1) return mkEq(a, mkC(0, a->w));
        if (a->k == ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b)); }
    if (isC(a)) { if (b->umax <= a->c) return F1(); if (a->c == 0) return mkNot(mkEq(b, mkC(0, b->w)));
        if (b->k == ITE && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2])); }
    if (a->w == 1) return mkAnd(mkNot(a), b);
    unsigned z = 0; while (z < a->w - 1 && !((a->umax | b->umax) >> (a->w - 1 - z) & 1)) z++;
    if (z && (a->umax | b->umax)) return mkUlt(mkExtract(a, a->w - 1 - z, 0), mkExtract(b, a->w - 1 - z, 0));
    return raw(ULT, 1, {a, b});
}
X mkSlt(X a, X b) {
    if (a == b) return F1();
    unsigned w = a->w;
    if (isC(a) && isC(b)) return sx(a->c, w) < sx(b->c, w) ? T1() : F1();
    if (w > 1) {
        bool pa = !(a->umax >> (w - 1)), pb = !(b->umax >> (w - 1));
        if (pa && pb) return mkUlt(a, b);
        if (isC(b) && b->c == 0) return mkExtract(a, w - 1, w - 1);
        if (isC(b) && b->c == mask(w) ) return raw(SLT, 1, {a, b});
        X sa = mkExtract(a, w - 1, w - 1), sb = mkExtract(b, w - 1, w - 1);
        if (isC(sa) && isC(sb)) return sa->c == sb->c ? mkUlt(a, b) : (sa->c ? T1() : F1());
    }
    return raw(SLT, 1, {a, b});
}
std::string show(X x, int d) {
    static const char* nm[] = {"C", "V", "not", "and", "or", "xor", "add", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "cat", "ext", "ite", "eq", "ult", "slt"};
    char b[64];
    if (isC(x)) { snprintf(b, 64, "%llx:%u", (unsigned long long)x->c, x->w); return b; }
    if (x->k == VAR) { snprintf(b, 64, "s%u:%u", x->symid, x->w); return b; }
    if (!d) { snprintf(b, 64, "#%u:%u", x->id, x->w); return b; }
    std::string r = std::string("(") + nm[x->k]; if (x->k == EXTRACT) { snprintf(b, 64, "[%u:%u]", x->hi, x->lo); r += b; }
    for (X y : x->a) r += " " + show(y, d - 1);
    return r + ")";
}
