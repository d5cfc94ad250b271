// Hash-consed bit-vector expressions (width 1..64) + Z3 translation + path condition.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum EOp : u8 {
    E_VAR, E_CONST, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
    E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT,
    E_CONCAT
};

struct Expr {
    EOp op;
    u8 w;
    u8 uninit; // depends on an uninitialised byte
    u32 id;
    u64 k; // const value / var id / extract low bit
    Expr *a, *b, *c;
    u64 lo, hi; // unsigned interval
    u64 ev;     // cached evaluation
    u32 ever;   // version of cached evaluation
    Z3_ast z, zb;
};

static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) {
    if (w >= 64) return (i64)v;
    u64 s = 1ull << (w - 1);
    v &= maskw(w);
    return (i64)((v ^ s) - s);
}

struct VarInfo { std::string name; u8 w; u64 lo, hi; bool uninit; u64 init; };

struct Model { std::vector<u64> v; };

struct ExprPool {
    std::vector<VarInfo> vars;
    Model cur;
    u32 ver = 1;
    const std::vector<u64>* evm = nullptr;
    u32 nextid = 1;
    struct Key { EOp op; u8 w; u64 k; Expr *a, *b, *c; };
    struct KH { size_t operator()(const Key& x) const {
        u64 h = x.op * 1099511628211ull + x.w;
        h = (h ^ x.k) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        h = (h ^ (u64)x.a) * 0x9E3779B97F4A7C15ull; h ^= h >> 31;
        h = (h ^ (u64)x.b) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
        h = (h ^ (u64)x.c) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
        return h; } };
    struct KE { bool operator()(const Key& x, const Key& y) const {
        return x.op == y.op && x.w == y.w && x.k == y.k && x.a == y.a && x.b == y.b && x.c == y.c; } };
    std::unordered_map<Key, Expr*, KH, KE> tab;

    Expr* raw(EOp op, int w, u64 k, Expr* a, Expr* b, Expr* c, u64 lo, u64 hi, bool un) {
        Key key{op, (u8)w, k, a, b, c};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Expr* e = new Expr();
        e->op = op; e->w = w; e->k = k; e->a = a; e->b = b; e->c = c;
        e->lo = lo; e->hi = hi; e->uninit = un; e->id = nextid++;
        e->ever = 0; e->z = e->zb = nullptr;
        tab.emplace(key, e);
        return e;
    }
    Expr* cst(u64 v, int w) { v &= maskw(w); return raw(E_CONST, w, v, 0, 0, 0, v, v, false); }
    Expr* var(const std::string& n, int w, u64 lo, u64 hi, u64 init, bool un) {
        u64 id = vars.size();
        vars.push_back({n, (u8)w, lo, hi, un, init});
        cur.v.push_back(init);
        return raw(E_VAR, w, id, 0, 0, 0, lo, hi, un);
    }
    static bool isc(Expr* e) { return e->op == E_CONST; }

    static u64 evalop(EOp op, int w, u64 x, u64 y, bool& bad) {
        u64 m = maskw(w);
        switch (op) {
        case E_ADD: return (x + y) & m;
        case E_SUB: return (x - y) & m;
        case E_MUL: return (x * y) & m;
        case E_UDIV: if (!y) return m; return x / y;
        case E_UREM: if (!y) return x; return x % y;
        case E_SDIV: { i64 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (u64)(a / b) & m; }
        case E_SREM: { i64 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
        case E_AND: return x & y;
        case E_OR: return x | y;
        case E_XOR: return x ^ y;
        case E_SHL: return y >= (u64)w ? 0 : (x << y) & m;
        case E_LSHR: return y >= (u64)w ? 0 : x >> y;
        case E_ASHR: { i64 a = sx(x, w); return (u64)(a >> (y >= (u64)w ? w - 1 : y)) & m; }
        case E_EQ: return x == y;
        case E_ULT: return x < y;
        case E_ULE: return x <= y;
        case E_SLT: return sx(x, w) < sx(y, w);
        case E_SLE: return sx(x, w) <= sx(y, w);
        default: bad = true; return 0;
        }
    }
    static bool iscmp(EOp op) { return op >= E_EQ && op <= E_SLE; }

    Expr* zext(Expr* a, int w) {
        if (a->w == w) return a;
        if (isc(a)) return cst(a->k, w);
        if (a->op == E_ZEXT) return zext(a->a, w);
        if (a->op == E_EXTRACT && a->k == 0 && a->a->hi <= maskw(a->w)) {
            if (a->a->w == w) return a->a;
            if (a->a->w < w) return zext(a->a, w);
            return extract(a->a, 0, w);
        }
        return raw(E_ZEXT, w, 0, a, 0, 0, a->lo, a->hi, a->uninit);
    }
    Expr* sext(Expr* a, int w) {
        if (a->w == w) return a;
        if (isc(a)) return cst((u64)sx(a->k, a->w), w);
        if (a->hi < (1ull << (a->w - 1))) return zext(a, w);
        if (a->op == E_SEXT) return sext(a->a, w);
        return raw(E_SEXT, w, 0, a, 0, 0, 0, maskw(w), a->uninit);
    }
    Expr* extract(Expr* a, int lo, int n) {
        if (lo == 0 && n == a->w) return a;
        if (isc(a)) return cst(a->k >> lo, n);
        if (a->op == E_EXTRACT) return extract(a->a, lo + a->k, n);
        if (a->op == E_ZEXT) {
            if (lo >= a->a->w) return cst(0, n);
            if (lo + n <= a->a->w) return extract(a->a, lo, n);
            if (lo == 0) return zext(a->a, n);
            return zext(extract(a->a, lo, a->a->w - lo), n);
        }
        if (a->op == E_SEXT && lo + n <= a->a->w) return extract(a->a, lo, n);
        if (a->op == E_CONCAT) {
            int lw = a->b->w;
            if (lo + n <= lw) return extract(a->b, lo, n);
            if (lo >= lw) return extract(a->a, lo - lw, n);
        }
        if (a->op == E_ITE && isc(a->b) && isc(a->c)) return ite(a->a, extract(a->b, lo, n), extract(a->c, lo, n));
        u64 l = 0, h = maskw(n);
        if (lo < 64 && (a->hi >> lo) <= maskw(n)) { l = a->lo >> lo; h = a->hi >> lo; }
        if (l == h) return cst(l, n);
        return raw(E_EXTRACT, n, lo, a, 0, 0, l, h, a->uninit);
    }
    Expr* concat(Expr* hi, Expr* lo) {
        int w = hi->w + lo->w;
        if (isc(hi) && isc(lo)) return cst((hi->k << lo->w) | lo->k, w);
        if (isc(hi) && hi->k == 0) return zext(lo, w);
        if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w)
            return extract(lo->a, lo->k, w);
        return raw(E_CONCAT, w, 0, hi, lo, 0, (hi->lo << lo->w) | lo->lo, (hi->hi << lo->w) | lo->hi, hi->uninit || lo->uninit);
    }
    Expr* ite(Expr* c, Expr* x, Expr* y) {
        if (isc(c)) return c->k ? x : y;
        if (x == y) return x;
        if (x->w == 1) {
            if (isc(x) && isc(y)) return x->k ? c : lnot(c);
            if (isc(x)) return x->k ? bin(E_OR, c, y) : bin(E_AND, lnot(c), y);
            if (isc(y)) return y->k ? bin(E_OR, lnot(c), x) : bin(E_AND, c, x);
        }
        if (x->op == E_ITE && x->a == c) return ite(c, x->b, y);
        if (y->op == E_ITE && y->a == c) return ite(c, x, y->c);
        return raw(E_ITE, x->w, 0, c, x, y, x->lo < y->lo ? x->lo : y->lo, x->hi > y->hi ? x->hi : y->hi,
                   c->uninit || x->uninit || y->uninit);
    }
    Expr* lnot(Expr* c) { return bin(E_XOR, c, cst(1, 1)); }

    // a +/- b as a linear combination; used only when terms cancel
    struct Lin { Expr* t[8]; u64 k[8]; int n = 0; u64 c = 0; bool ok = true; };
    void linAdd(Lin& L, Expr* e, u64 k, int depth) {
        if (!L.ok) return;
        if (isc(e)) { L.c += k * e->k; return; }
        if (depth < 8) {
            if (e->op == E_ADD) { linAdd(L, e->a, k, depth + 1); linAdd(L, e->b, k, depth + 1); return; }
            if (e->op == E_SUB) { linAdd(L, e->a, k, depth + 1); linAdd(L, e->b, 0 - k, depth + 1); return; }
            if (e->op == E_SHL && isc(e->b) && e->b->k < 64) { linAdd(L, e->a, k << e->b->k, depth + 1); return; }
            if (e->op == E_MUL && isc(e->b)) { linAdd(L, e->a, k * e->b->k, depth + 1); return; }
        }
        for (int i = 0; i < L.n; i++) if (L.t[i] == e) { L.k[i] += k; return; }
        if (L.n == 8) { L.ok = false; return; }
        L.t[L.n] = e; L.k[L.n++] = k;
    }
    int linterms(Expr* e, int depth) {
        if (isc(e)) return 0;
        if (depth < 8) {
            if (e->op == E_ADD || e->op == E_SUB) return linterms(e->a, depth + 1) + linterms(e->b, depth + 1);
            if ((e->op == E_SHL || e->op == E_MUL) && isc(e->b)) return linterms(e->a, depth + 1);
        }
        return 1;
    }
    bool linbusy = false;
    Expr* lin(EOp op, Expr* a, Expr* b) {
        if (linbusy) return nullptr;
        int w = a->w;
        int na = linterms(a, 0), nb = linterms(b, 0);
        if (na + nb > 12 || nb == 0 || na == 0) return nullptr;
        Lin L;
        linAdd(L, a, 1, 0);
        linAdd(L, b, op == E_ADD ? 1 : ~0ull, 0);
        if (!L.ok) return nullptr;
        int live = 0;
        for (int i = 0; i < L.n; i++) { L.k[i] &= maskw(w); if (L.k[i]) live++; }
        if (live == na + nb) return nullptr;
        linbusy = true;
        Expr* r = nullptr;
        for (int i = 0; i < L.n; i++) if (L.k[i] && !(L.k[i] >> (w - 1))) { Expr* t = bin(E_MUL, L.t[i], cst(L.k[i], w)); r = r ? bin(E_ADD, r, t) : t; }
        bool cneg = (L.c >> (w - 1)) & 1;
        if (!cneg || !r) { r = r ? bin(E_ADD, r, cst(L.c, w)) : cst(L.c, w); }
        for (int i = 0; i < L.n; i++) if (L.k[i] && (L.k[i] >> (w - 1))) r = bin(E_SUB, r, bin(E_MUL, L.t[i], cst((0 - L.k[i]), w)));
        if (cneg && live) { bool any = false; for (int i = 0; i < L.n; i++) if (L.k[i] && !(L.k[i] >> (w - 1))) any = true; if (any) r = bin(E_ADD, r, cst(L.c, w)); }
        linbusy = false;
        return r;
    }
    static Expr* low32(Expr* e) { return e->op == E_EXTRACT && e->k == 0 && e->w == 32 && e->a->w == 64 && e->a->hi <= 0x7fffffff ? e->a : nullptr; }

    Expr* bin(EOp op, Expr* a, Expr* b) {
        int w = a->w;
        int rw = iscmp(op) ? 1 : w;
        u64 m = maskw(w);
        bool bad = false;
        if (isc(a) && isc(b)) return cst(evalop(op, w, a->k, b->k, bad), rw);
        // commutative: constant to the right
        if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) {
            if (isc(a) || (!isc(b) && a->id > b->id)) { Expr* t = a; a = b; b = t; }
        }
        u64 sgn = 1ull << (w - 1);
        u64 lo = 0, hi = maskw(rw);
        if (op == E_ADD || op == E_SUB) {
            if (w == 32) { // keep int arithmetic on 64-bit quantities in 64 bits when it cannot leave [0, 2^31)
                Expr *x = low32(a), *y = low32(b);
                if (!x && isc(a) && y && a->k <= 0x7fffffff) x = cst(a->k, 64);
                if (!y && isc(b) && x && b->k <= 0x7fffffff) y = cst(b->k, 64);
                if (x && isc(b) && b->k > 0x7fffffff && op == E_ADD && x->lo >= (0u - (u32)b->k)) return extract(bin(E_SUB, x, cst(0u - (u32)b->k, 64)), 0, 32);
                if (x && y && ((op == E_ADD && x->hi + y->hi <= 0x7fffffff) || (op == E_SUB && x->lo >= y->hi))) return extract(bin(op, x, y), 0, 32);
            }
            if (Expr* r = lin(op, a, b)) return r;
        }
        switch (op) {
        case E_ADD:
            if (isc(b) && b->k == 0) return a;
            if (isc(b) && a->op == E_ADD && isc(a->b)) return bin(E_ADD, a->a, cst(a->b->k + b->k, w));
            if (isc(b) && a->op == E_SUB && isc(a->a)) return bin(E_SUB, cst(a->a->k + b->k, w), a->b);
            { unsigned __int128 s = (unsigned __int128)a->hi + b->hi;
              if (s <= m) { lo = a->lo + b->lo; hi = (u64)s; }
              else { unsigned __int128 sl = (unsigned __int128)a->lo + b->lo;
                     if (sl > m && (s >> w) == (sl >> w)) { lo = (u64)sl & m; hi = (u64)s & m; } } }
            break;
        case E_SUB:
            if (a == b) return cst(0, w);
            if (isc(b)) return bin(E_ADD, a, cst(0 - b->k, w));
            if (a->op == E_ADD && a->a == b) return a->b;
            if (a->op == E_ADD && a->b == b) return a->a;
            if (b->op == E_ADD && isc(b->b)) return bin(E_ADD, bin(E_SUB, a, b->a), cst(0 - b->b->k, w));
            if (a->op == E_ADD && isc(a->b)) return bin(E_ADD, bin(E_SUB, a->a, b), a->b);
            if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
            break;
        case E_MUL:
            if (isc(b)) {
                if (b->k == 0) return b;
                if (b->k == 1) return a;
                if ((b->k & (b->k - 1)) == 0) return bin(E_SHL, a, cst(__builtin_ctzll(b->k), w));
            }
            { unsigned __int128 s = (unsigned __int128)a->hi * b->hi;
              if (s <= m) { lo = a->lo * b->lo; hi = (u64)s; } }
            break;
        case E_SDIV:
            if (a->hi < sgn && b->hi < sgn) return bin(E_UDIV, a, b);
            break;
        case E_SREM:
            if (a->hi < sgn && b->hi < sgn) return bin(E_UREM, a, b);
            break;
        case E_UDIV:
            if (isc(b) && b->k == 1) return a;
            if (isc(b) && b->k && (b->k & (b->k - 1)) == 0) return bin(E_LSHR, a, cst(__builtin_ctzll(b->k), w));
            if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; }
            break;
        case E_UREM:
            if (isc(b) && b->k == 1) return cst(0, w);
            if (b->lo > a->hi) return a;
            if (isc(b) && b->k && (b->k & (b->k - 1)) == 0) return bin(E_AND, a, cst(b->k - 1, w));
            if (b->lo > 0) hi = b->hi - 1;
            if (a->hi < hi) hi = a->hi;
            break;
        case E_AND:
            if (a == b) return a;
            if (isc(b)) {
                if (b->k == 0) return b;
                if (b->k == m) return a;
                if (((b->k + 1) & b->k) == 0 && a->hi <= b->k) return a;
                if (a->op == E_AND && isc(a->b)) return bin(E_AND, a->a, cst(a->b->k & b->k, w));
                if (((b->k + 1) & b->k) == 0 && a->op == E_ADD && isc(a->b) && (a->b->k & b->k) == 0) return bin(E_AND, a->a, b);
            }
            if (w == 1 && a->op == E_XOR && a->a == b && isc(a->b) ) return cst(0, 1);
            if (w == 1 && b->op == E_XOR && b->a == a && isc(b->b) ) return cst(0, 1);
            hi = a->hi < b->hi ? a->hi : b->hi;
            break;
        case E_OR:
            if (a == b) return a;
            if (isc(b)) { if (b->k == 0) return a; if (b->k == m) return b; }
            if (w == 1 && a->op == E_XOR && a->a == b && isc(a->b) ) return cst(1, 1);
            if (w == 1 && b->op == E_XOR && b->a == a && isc(b->b) ) return cst(1, 1);
            { u64 mx = a->hi | b->hi; int bits = mx ? 64 - __builtin_clzll(mx) : 0; hi = maskw(bits ? bits : 1) & m; if (!bits) hi = 0; }
            lo = a->lo > b->lo ? a->lo : b->lo;
            break;
        case E_XOR:
            if (a == b) return cst(0, w);
            if (isc(b)) {
                if (b->k == 0) return a;
                if (a->op == E_XOR && isc(a->b)) return bin(E_XOR, a->a, cst(a->b->k ^ b->k, w));
                if (w == 1) { // negate comparisons
                    if (a->op == E_ULT) return bin(E_ULE, a->b, a->a);
                    if (a->op == E_ULE) return bin(E_ULT, a->b, a->a);
                    if (a->op == E_SLT) return bin(E_SLE, a->b, a->a);
                    if (a->op == E_SLE) return bin(E_SLT, a->b, a->a);
                }
            }
            { u64 mx = a->hi | b->hi; int bits = mx ? 64 - __builtin_clzll(mx) : 0; hi = bits ? maskw(bits) : 0; }
            break;
        case E_SHL:
            if (isc(b)) {
                if (b->k == 0) return a;
                if (b->k >= (u64)w) return cst(0, w);
                if ((a->hi << b->k >> b->k) == a->hi && (a->hi << b->k) <= m) { lo = a->lo << b->k; hi = a->hi << b->k; }
            }
            break;
        case E_LSHR:
            if (isc(b)) {
                if (b->k == 0) return a;
                if (b->k >= (u64)w) return cst(0, w);
                lo = a->lo >> b->k; hi = a->hi >> b->k;
                if (a->op == E_ZEXT) { // narrow
                    if (b->k >= a->a->w) return cst(0, w);
                    return zext(bin(E_LSHR, a->a, cst(b->k, a->a->w)), w);
                }
            } else hi = a->hi;
            break;
        case E_ASHR:
            if (isc(b) && b->k == 0) return a;
            if (a->hi < sgn) return bin(E_LSHR, a, b);
            break;
        case E_EQ:
            if (a == b) return cst(1, 1);
            if (a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
            if (w == 1 && isc(b)) return b->k ? a : lnot(a);
            if (isc(b)) {
                if (a->op == E_ZEXT) { if (b->k > maskw(a->a->w)) return cst(0, 1); return bin(E_EQ, a->a, cst(b->k, a->a->w)); }
                if (a->op == E_ADD && isc(a->b)) return bin(E_EQ, a->a, cst(b->k - a->b->k, w));
                if (a->op == E_XOR && isc(a->b)) return bin(E_EQ, a->a, cst(b->k ^ a->b->k, w));
                if (a->op == E_SEXT) {
                    u64 t = b->k & maskw(a->a->w);
                    if (((u64)sx(t, a->a->w) & m) != b->k) return cst(0, 1);
                    return bin(E_EQ, a->a, cst(t, a->a->w));
                }
                if (a->op == E_ITE && isc(a->b) && isc(a->c))
                    return ite(a->a, cst(a->b->k == b->k, 1), cst(a->c->k == b->k, 1));
                if (a->op == E_ITE && isc(a->b) && a->b->k != b->k) return bin(E_AND, lnot(a->a), bin(E_EQ, a->c, b));
                if (a->op == E_ITE && isc(a->c) && a->c->k != b->k) return bin(E_AND, a->a, bin(E_EQ, a->b, b));
            }
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
            break;
        case E_ULT:
            if (a == b) return cst(0, 1);
            if (a->hi < b->lo) return cst(1, 1);
            if (a->lo >= b->hi) return cst(0, 1);
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
            if (a->op == E_ZEXT && isc(b) && b->k <= maskw(a->a->w)) return bin(E_ULT, a->a, cst(b->k, a->a->w));
            if (b->op == E_ZEXT && isc(a) && a->k <= maskw(b->a->w)) return bin(E_ULT, cst(a->k, b->a->w), b->a);
            break;
        case E_ULE:
            if (a == b) return cst(1, 1);
            if (a->hi <= b->lo) return cst(1, 1);
            if (a->lo > b->hi) return cst(0, 1);
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULE, a->a, b->a);
            if (a->op == E_ZEXT && isc(b) && b->k <= maskw(a->a->w)) return bin(E_ULE, a->a, cst(b->k, a->a->w));
            if (b->op == E_ZEXT && isc(a) && a->k <= maskw(b->a->w)) return bin(E_ULE, cst(a->k, b->a->w), b->a);
            break;
        case E_SLT:
            if (a == b) return cst(0, 1);
            if (a->hi < sgn && b->hi < sgn) return bin(E_ULT, a, b);
            if (a->lo >= sgn && b->lo >= sgn) return bin(E_ULT, a, b);
            if (a->lo >= sgn && b->hi < sgn) return cst(1, 1);
            if (a->hi < sgn && b->lo >= sgn) return cst(0, 1);
            break;
        case E_SLE:
            if (a == b) return cst(1, 1);
            if (a->hi < sgn && b->hi < sgn) return bin(E_ULE, a, b);
            if (a->lo >= sgn && b->lo >= sgn) return bin(E_ULE, a, b);
            if (a->lo >= sgn && b->hi < sgn) return cst(1, 1);
            if (a->hi < sgn && b->lo >= sgn) return cst(0, 1);
            break;
        default: break;
        }
        if (lo == hi) return cst(lo, rw);
        return raw(op, rw, 0, a, b, 0, lo, hi, a->uninit || b->uninit);
    }

    // evaluation
    u64 ev(Expr* e) {
        if (e->op == E_CONST) return e->k;
        if (e->ever == ver) return e->ev;
        u64 r = 0;
        bool bad = false;
        switch (e->op) {
        case E_VAR: r = e->k < evm->size() ? (*evm)[e->k] : vars[e->k].init; break;
        case E_ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
        case E_ZEXT: r = ev(e->a); break;
        case E_SEXT: r = (u64)sx(ev(e->a), e->a->w) & maskw(e->w); break;
        case E_EXTRACT: r = (ev(e->a) >> e->k) & maskw(e->w); break;
        case E_CONCAT: r = (ev(e->a) << e->b->w) | ev(e->b); break;
        default: r = evalop(e->op, e->a->w, ev(e->a), ev(e->b), bad);
        }
        e->ev = r; e->ever = ver;
        return r;
    }
    u64 evalCur(Expr* e) { if (evm != &cur.v) { evm = &cur.v; ver++; } return ev(e); }
    u64 evalModel(const Model& m, Expr* e) { if (evm != &m.v) { evm = &m.v; ver++; } return ev(e); }
    void bump() { ver++; }
};

extern ExprPool P;

// ---------------------------------------------------------------- solver
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0; double secs = 0; };
void solver_init();
Z3_ast z3bv(Expr* e);
Z3_ast z3b(Expr* e);
