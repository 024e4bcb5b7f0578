#include "arena.h"
#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>

std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, u32> g_varAt;
static std::vector<Expr*> g_tab(1 << 16, nullptr);
static u32 g_count = 0;

static inline u32 hmix(u32 h, u64 v)
{
    u64 x = (h ^ v) * 0x9E3779B97F4A7C15ull;
    return (u32)(x >> 32) ^ (u32)x;
}

static void rehash()
{
    Persist keep;
    std::vector<Expr*> n(g_tab.size() * 4, nullptr);
    for (Expr* e : g_tab)
        while (e) {
            Expr* nx = e->next;
            u32 i = e->hash & (n.size() - 1);
            e->next = n[i];
            n[i] = e;
            e = nx;
        }
    g_tab.swap(n);
}

static Expr* intern(Kind k, u32 w, Expr* a, Expr* b, Expr* c, u128 val, u32 lo)
{
    u32 h = hmix(hmix(hmix(k * 131 + w, (u64)(a ? a->id + 1 : 0)), (u64)(b ? b->id + 1 : 0)),
        (u64)(c ? c->id + 1 : 0));
    h = hmix(h, (u64)val);
    h = hmix(h, (u64)(val >> 64) + lo);
    for (Expr* e = g_tab[h & (g_tab.size() - 1)]; e; e = e->next)
        if (e->hash == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val
            && e->lo == lo)
            return e;
    Expr* e = (Expr*)calloc(1, sizeof(Expr));
    e->k = k;
    e->w = (u16)w;
    e->id = g_count++;
    e->a = a;
    e->b = b;
    e->c = c;
    e->val = val;
    e->lo = lo;
    e->hash = h;
    e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
    u32 i = h & (g_tab.size() - 1);
    e->next = g_tab[i];
    g_tab[i] = e;
    if (g_count > g_tab.size() * 2)
        rehash();
    return e;
}

Expr* mkConst(u128 v, u32 w) { return intern(K_CONST, w, 0, 0, 0, v & maskw(w), 0); }

Expr* mkVar(const std::string& name, u32 w, int kind)
{
    // the n-th variable of a path is shared with the other paths whose n-th variable has the same name and width
    Persist keep;
    u32 pos = varCounter()++;
    std::string key = std::to_string(pos) + "/" + std::to_string(w) + "/" + std::to_string(kind) + "/" + name;
    auto it = g_varAt.find(key);
    if (it != g_varAt.end())
        return g_vars[it->second].e;
    u32 idx = g_vars.size();
    Expr* e = intern(K_VAR, w, 0, 0, 0, 0, idx);
    e->undef = kind == 1;
    g_vars.push_back({ name, w, kind, e });
    g_varAt[key] = idx;
    return e;
}

static inline __int128 sx(u128 v, u32 w)
{
    if (w >= 128)
        return (__int128)v;
    u128 m = (u128)1 << (w - 1);
    return (__int128)((v ^ m) - m);
}

template <class F, class U>
static u128 foldFp(Kind k, u128 va, u128 vb)
{
    U ua = (U)va, ub = (U)vb;
    F a, b;
    memcpy(&a, &ua, sizeof a);
    memcpy(&b, &ub, sizeof b);
    if (k == K_FEQ)
        return a == b;
    if (k == K_FLT)
        return a < b;
    if (k == K_FLE)
        return a <= b;
    const U quiet = (U)1 << (sizeof(U) == 8 ? 51 : 22);
    if (a != a)
        return ua | quiet;
    if (b != b)
        return ub | quiet;
    F r = k == K_FADD ? a + b : k == K_FSUB ? a - b : k == K_FMUL ? a * b : a / b;
    if (r != r)
        return sizeof(U) == 8 ? (U)0xfff8000000000000ull : (U)0xffc00000u;
    U ur;
    memcpy(&ur, &r, sizeof r);
    return ur;
}

u128 foldBin(Kind k, u128 a, u128 b, u32 w)
{
    if (k >= K_FADD)
        return w == 64 ? foldFp<double, u64>(k, a, b) : foldFp<float, u32>(k, a, b);
    u128 m = maskw(w);
    switch (k) {
    case K_ADD:
        return (a + b) & m;
    case K_SUB:
        return (a - b) & m;
    case K_MUL:
        return (a * b) & m;
    case K_UDIV:
        return b ? a / b : m;
    case K_SDIV: {
        if (!b)
            return sx(a, w) < 0 ? 1 : m;
        __int128 x = sx(a, w), y = sx(b, w);
        if (y == -1)
            return (u128)(-(u128)x) & m;
        return (u128)(x / y) & m;
    }
    case K_UREM:
        return b ? a % b : a;
    case K_SREM: {
        if (!b)
            return a;
        __int128 x = sx(a, w), y = sx(b, w);
        if (y == -1)
            return 0;
        return (u128)(x % y) & m;
    }
    case K_AND:
        return a & b;
    case K_OR:
        return a | b;
    case K_XOR:
        return a ^ b;
    case K_SHL:
        return b >= w ? 0 : (a << (u32)b) & m;
    case K_LSHR:
        return b >= w ? 0 : a >> (u32)b;
    case K_ASHR: {
        __int128 x = sx(a, w);
        return (u128)(x >> (b >= w ? (w - 1) : (u32)b)) & m;
    }
    case K_EQ:
        return a == b;
    case K_ULT:
        return a < b;
    case K_ULE:
        return a <= b;
    case K_SLT:
        return sx(a, w) < sx(b, w);
    case K_SLE:
        return sx(a, w) <= sx(b, w);
    default:
        abort();
    }
}

static inline bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static inline bool commut(Kind k)
{
    return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
}

Expr* mkNot(Expr* e)
{
    if (isC(e))
        return mkConst(!e->val, 1);
    if (e->k == K_ULT)
        return mkBin(K_ULE, e->b, e->a);
    if (e->k == K_ULE)
        return mkBin(K_ULT, e->b, e->a);
    if (e->k == K_SLT)
        return mkBin(K_SLE, e->b, e->a);
    if (e->k == K_SLE)
        return mkBin(K_SLT, e->b, e->a);
    return mkBin(K_XOR, e, mkConst(1, 1));
}

// splits bitwise op on concat boundaries
static Expr* bitwiseSplit(Kind k, Expr* a, Expr* b)
{
    // a is CONCAT; b is CONCAT or CONST
    u32 loW = a->b->w;
    if (b->k == K_CONCAT)
        loW = std::min(loW, (u32)b->b->w);
    u32 w = a->w;
    Expr* al = mkExtract(a, 0, loW);
    Expr* bl = mkExtract(b, 0, loW);
    Expr* ah = mkExtract(a, loW, w - loW);
    Expr* bh = mkExtract(b, loW, w - loW);
    return mkConcat(mkBin(k, ah, bh), mkBin(k, al, bl));
}

// all pieces of the op pair have a constant on one side
static bool splitUseful(Expr* a, Expr* b)
{
    u32 w = a->w;
    u32 lo = 0;
    bool someZero = false;
    Expr *pa = a, *pb = b;
    while (lo < w) {
        // piece of a at lo
        auto piece = [&](Expr*& p) -> Expr* { return p->k == K_CONCAT ? p->b : p; };
        Expr *xa = piece(pa), *xb = piece(pb);
        u32 n = std::min(xa->w, xb->w);
        if (!isC(xa) && !isC(xb))
            return false;
        someZero = true;
        lo += n;
        if (lo >= w)
            break;
        pa = mkExtract(pa, n, pa->w - n);
        pb = mkExtract(pb, n, pb->w - n);
    }
    return someZero;
}

Expr* mkBin(Kind k, Expr* a, Expr* b)
{
    if (k >= K_FADD) {
        if (isC(a) && isC(b))
            return mkConst(foldBin(k, a->val, b->val, a->w), k >= K_FEQ ? 1 : a->w);
        return intern(k, k >= K_FEQ ? 1 : a->w, a, b, 0, 0, 0);
    }
    u32 w = a->w;
    if (a->w != b->w) {
        fprintf(stderr, "expr width mismatch kind %d: %u vs %u\n", k, a->w, b->w);
        abort();
    }
    if (isC(a) && isC(b))
        return mkConst(foldBin(k, a->val, b->val, w), isCmp(k) ? 1 : w);
    if (commut(k) && (isC(a) || (!isC(b) && a->id > b->id)))
        std::swap(a, b); // constant on the right
    const bool cb = isC(b);
    const u128 m = maskw(w);
    switch (k) {
    case K_ADD:
        if (cb && b->val == 0)
            return a;
        if (cb && a->k == K_ADD && isC(a->b))
            return mkBin(K_ADD, a->a, mkConst(a->b->val + b->val, w));
        if (w == 1)
            return mkBin(K_XOR, a, b);
        if (a->k == K_SUB && a->b == b)
            return a->a;
        if (b->k == K_SUB && b->b == a)
            return b->a;
        // push constants outwards
        if (!cb && a->k == K_ADD && isC(a->b))
            return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
        if (!cb && b->k == K_ADD && isC(b->b))
            return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
        // disjoint add = or
        if ((a->k == K_CONCAT && (b->k == K_CONCAT || cb)) && splitUseful(a, b)) {
            // only when at each piece one side is zero
            bool ok = true;
            Expr *pa = a, *pb = b;
            u32 lo = 0;
            while (lo < w) {
                Expr* xa = pa->k == K_CONCAT ? pa->b : pa;
                Expr* xb = pb->k == K_CONCAT ? pb->b : pb;
                u32 n = std::min(xa->w, xb->w);
                bool za = isC(xa) && (xa->val & maskw(n)) == 0;
                bool zb = isC(xb) && (xb->val & maskw(n)) == 0;
                if (!za && !zb) {
                    ok = false;
                    break;
                }
                lo += n;
                if (lo >= w)
                    break;
                pa = mkExtract(pa, n, pa->w - n);
                pb = mkExtract(pb, n, pb->w - n);
            }
            if (ok)
                return mkBin(K_OR, a, b);
        }
        break;
    case K_SUB:
        if (cb)
            return mkBin(K_ADD, a, mkConst((~b->val + 1) & m, w));
        if (a == b)
            return mkConst(0, w);
        if (a->k == K_ADD && a->a == b)
            return a->b;
        if (a->k == K_ADD && a->b == b)
            return a->a;
        if (a->k == K_ADD && isC(a->b))
            return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
        if (b->k == K_ADD && isC(b->b))
            return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst((~b->b->val + 1) & m, w));
        if (b->k == K_ADD && b->a == a)
            return mkBin(K_SUB, mkConst(0, w), b->b);
        if (b->k == K_ADD && b->b == a)
            return mkBin(K_SUB, mkConst(0, w), b->a);
        break;
    case K_MUL:
        if (cb) {
            if (b->val == 0)
                return b;
            if (b->val == 1)
                return a;
            if ((b->val & (b->val - 1)) == 0) {
                u32 s = 0;
                while (!((b->val >> s) & 1))
                    ++s;
                return mkBin(K_SHL, a, mkConst(s, w));
            }
        }
        break;
    case K_UDIV:
        if (cb && b->val == 1)
            return a;
        if (cb && b->val && (b->val & (b->val - 1)) == 0) {
            u32 s = 0;
            while (!((b->val >> s) & 1))
                ++s;
            return mkBin(K_LSHR, a, mkConst(s, w));
        }
        if (cb && b->val && a->k == K_CONCAT && isC(a->a) && a->a->val == 0 && (b->val >> a->b->w) == 0)
            return mkZExt(mkBin(K_UDIV, a->b, mkConst(b->val, a->b->w)), w);
        break;
    case K_UREM:
        if (cb && b->val && (b->val & (b->val - 1)) == 0)
            return mkBin(K_AND, a, mkConst(b->val - 1, w));
        if (cb && b->val && a->k == K_CONCAT && isC(a->a) && a->a->val == 0 && (b->val >> a->b->w) == 0)
            return mkZExt(mkBin(K_UREM, a->b, mkConst(b->val, a->b->w)), w);
        break;
    case K_AND:
        if (cb && b->val == 0)
            return b;
        if (cb && b->val == m)
            return a;
        if (a == b)
            return a;
        if (w == 1) {
            if (mkNot(a) == b)
                return mkConst(0, 1);
            break;
        }
        if (cb && a->k == K_AND && isC(a->b))
            return mkBin(K_AND, a->a, mkConst(a->b->val & b->val, w));
        if (cb) {
            // low mask -> zext(extract)
            u128 v = b->val;
            if ((v & (v + 1)) == 0) {
                u32 n = 0;
                while ((v >> n) & 1)
                    ++n;
                return mkZExt(mkExtract(a, 0, n), w);
            }
            // contiguous mask
            u32 s = 0;
            while (!((v >> s) & 1))
                ++s;
            u128 v2 = v >> s;
            if ((v2 & (v2 + 1)) == 0) {
                u32 n = 0;
                while ((v2 >> n) & 1)
                    ++n;
                Expr* mid = mkExtract(a, s, n);
                Expr* r = mkConcat(mid, mkConst(0, s));
                return mkZExt(r, w);
            }
        }
        if (a->k == K_CONCAT && cb)
            return bitwiseSplit(k, a, b);
        if (a->k == K_CONCAT && b->k == K_CONCAT && splitUseful(a, b))
            return bitwiseSplit(k, a, b);
        break;
    case K_OR:
        if (cb && b->val == 0)
            return a;
        if (cb && b->val == m)
            return b;
        if (a == b)
            return a;
        if (w == 1) {
            if (mkNot(a) == b)
                return mkConst(1, 1);
            break;
        }
        if (a->k == K_CONCAT && cb)
            return bitwiseSplit(k, a, b);
        if (a->k == K_CONCAT && b->k == K_CONCAT && splitUseful(a, b))
            return bitwiseSplit(k, a, b);
        break;
    case K_XOR:
        if (cb && b->val == 0)
            return a;
        if (a == b)
            return mkConst(0, w);
        if (cb && a->k == K_XOR && isC(a->b))
            return mkBin(K_XOR, a->a, mkConst(a->b->val ^ b->val, w));
        if (w == 1 && cb && (a->k >= K_ULT && a->k <= K_SLE))
            return mkNot(a);
        if (w > 1 && a->k == K_CONCAT && cb)
            return bitwiseSplit(k, a, b);
        break;
    case K_SHL:
        if (cb) {
            if (b->val == 0)
                return a;
            if (b->val >= w)
                return mkConst(0, w);
            u32 s = (u32)b->val;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case K_LSHR:
        if (cb) {
            if (b->val == 0)
                return a;
            if (b->val >= w)
                return mkConst(0, w);
            u32 s = (u32)b->val;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K_ASHR:
        if (cb) {
            if (b->val == 0)
                return a;
            u32 s = b->val >= w ? w - 1 : (u32)b->val;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K_EQ:
        if (a == b)
            return mkConst(1, 1);
        if (w == 1 && cb)
            return b->val ? a : mkNot(a);
        if (cb) {
            if (a->k == K_ADD && isC(a->b))
                return mkEq(a->a, mkConst(b->val - a->b->val, w));
            if (a->k == K_XOR && isC(a->b))
                return mkEq(a->a, mkConst(b->val ^ a->b->val, w));
            if (a->k == K_ITE) {
                // memcmp-shaped chain
                if (b->val == 0 && a->a->k == K_EQ && a->c->k == K_SUB && a->a->a->w == 8 && a->c->w > 8) {
                    Expr *x = mkZExt(a->a->a, w), *y = mkZExt(a->a->b, w);
                    if ((a->c->a == x && a->c->b == y) || (a->c->a == y && a->c->b == x))
                        return mkAnd(a->a, mkEq(a->b, b));
                }
                if (isC(a->b) || isC(a->c)) {
                    if (isC(a->b) && isC(a->c)) {
                        bool p = a->b->val == b->val, q = a->c->val == b->val;
                        if (p && q)
                            return mkConst(1, 1);
                        if (p)
                            return a->a;
                        if (q)
                            return mkNot(a->a);
                        return mkConst(0, 1);
                    }
                    if (isC(a->b)) {
                        if (a->b->val == b->val)
                            return mkOr(a->a, mkEq(a->c, b));
                        return mkAnd(mkNot(a->a), mkEq(a->c, b));
                    }
                    if (a->c->val == b->val)
                        return mkOr(mkNot(a->a), mkEq(a->b, b));
                    return mkAnd(a->a, mkEq(a->b, b));
                }
            }
            if (a->k == K_CONCAT) {
                u32 n = a->b->w;
                Expr* lo = mkEq(a->b, mkConst(b->val, n));
                if (isFalse(lo))
                    return lo;
                Expr* hi = mkEq(a->a, mkConst(b->val >> n, w - n));
                return mkAnd(hi, lo);
            }
            if (a->k == K_SEXT) {
                u32 n = a->a->w;
                Expr* lowc = mkConst(b->val, n);
                if (mkSExt(lowc, w) != b)
                    return mkConst(0, 1);
                return mkEq(a->a, lowc);
            }
        } else {
            if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w)
                return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
            if (a->k == K_ADD && b->k == K_ADD && a->b == b->b)
                return mkEq(a->a, b->a);
            // zext(x)+k == zext(y)+k handled above
        }
        break;
    case K_ULT:
        if (a == b)
            return mkConst(0, 1);
        if (cb && b->val == 0)
            return mkConst(0, 1);
        if (cb && b->val == 1)
            return mkEq(a, mkConst(0, w));
        if (isC(a) && a->val == m)
            return mkConst(0, 1);
        if (isC(a) && a->val == 0)
            return mkNot(mkEq(b, a));
        if (cb && b->val == m)
            return mkNot(mkEq(a, b));
        if (cb && a->k == K_CONCAT && isC(a->a)) { // the constant heads decide, or the tails do
            u32 n = a->b->w;
            if (b->val >> n != a->a->val)
                return mkConst(a->a->val < b->val >> n, 1);
            return mkBin(K_ULT, a->b, mkConst(b->val, n));
        }
        if (isC(a) && b->k == K_CONCAT && isC(b->a)) {
            u32 n = b->b->w;
            if (a->val >> n != b->a->val)
                return mkConst(a->val >> n < b->a->val, 1);
            return mkBin(K_ULT, mkConst(a->val, n), b->b);
        }
        if (a->k == K_CONCAT && b->k == K_CONCAT && isC(a->a) && a->a == b->a)
            return mkBin(K_ULT, a->b, b->b);
        break;
    case K_ULE:
        if (a == b)
            return mkConst(1, 1);
        if (cb && b->val == m)
            return mkConst(1, 1);
        if (isC(a) && a->val == 0)
            return mkConst(1, 1);
        if (cb)
            return mkBin(K_ULT, a, mkConst(b->val + 1, w));
        if (isC(a))
            return mkBin(K_ULT, mkConst(a->val - 1, w), b);
        if (a->k == K_CONCAT && b->k == K_CONCAT && isC(a->a) && a->a == b->a)
            return mkBin(K_ULE, a->b, b->b);
        break;
    case K_SLT:
    case K_SLE: {
        if (a == b)
            return mkConst(k == K_SLE, 1);
        auto zx = [](Expr* e) { return e->k == K_CONCAT && isC(e->a) && ((e->a->val >> (e->a->w - 1)) & 1) == 0; };
        auto nn = [&](Expr* e) { return zx(e) || (isC(e) && ((e->val >> (e->w - 1)) & 1) == 0); };
        if (nn(a) && nn(b))
            return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if (zx(a) && cb)
            return mkConst(0, 1); // b negative
        if (zx(b) && isC(a))
            return mkConst(1, 1);
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w)
            return mkBin(k, a->a, b->a);
        if (a->k == K_SEXT && cb) {
            Expr* lowc = mkConst(b->val, a->a->w);
            if (mkSExt(lowc, w) == b)
                return mkBin(k, a->a, lowc);
        }
        if (b->k == K_SEXT && isC(a)) {
            Expr* lowc = mkConst(a->val, b->a->w);
            if (mkSExt(lowc, w) == a)
                return mkBin(k, lowc, b->a);
        }
        break;
    }
    default:
        break;
    }
    // comparisons / ops with ITE of constants
    if (cb && a->k == K_ITE && isC(a->b) && isC(a->c)) {
        u32 rw = isCmp(k) ? 1 : w;
        return mkIte(a->a, mkConst(foldBin(k, a->b->val, b->val, w), rw), mkConst(foldBin(k, a->c->val, b->val, w), rw));
    }
    return intern(k, isCmp(k) ? 1 : w, a, b, 0, 0, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (isC(c))
        return c->val ? a : b;
    if (a == b)
        return a;
    if (a->w == 1) {
        if (isC(a) && isC(b))
            return a->val ? c : mkNot(c);
        if (isC(a))
            return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b))
            return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (c->k == K_XOR && isC(c->b) && c->w == 1)
        return mkIte(c->a, b, a);
    if (a->k == K_ITE && a->a == c)
        a = a->b;
    if (b->k == K_ITE && b->a == c)
        b = b->c;
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->a == b->a && a->b->w == b->b->w)
        return mkConcat(a->a, mkIte(c, a->b, b->b));
    if (a->k == K_CONCAT && isC(b) && isC(a->a) && a->a->val == (b->val >> a->b->w))
        return mkConcat(a->a, mkIte(c, a->b, mkConst(b->val, a->b->w)));
    if (b->k == K_CONCAT && isC(a) && isC(b->a) && b->a->val == (a->val >> b->b->w))
        return mkConcat(b->a, mkIte(c, mkConst(a->val, b->b->w), b->b));
    return intern(K_ITE, a->w, c, a, b, 0, 0);
}

Expr* mkConcat(Expr* hi, Expr* lo)
{
    if (isC(hi) && isC(lo))
        return mkConst((hi->val << lo->w) | lo->val, hi->w + lo->w);
    // right-associative: (x . y) . z  ->  x . (y . z)
    if (hi->k == K_CONCAT)
        return mkConcat(hi->a, mkConcat(hi->b, lo));
    // merge with the head of lo
    Expr* head = lo->k == K_CONCAT ? lo->a : lo;
    Expr* tail = lo->k == K_CONCAT ? lo->b : nullptr;
    Expr* merged = nullptr;
    if (isC(hi) && isC(head))
        merged = mkConst((hi->val << head->w) | head->val, hi->w + head->w);
    else if (hi->k == K_EXTRACT && head->k == K_EXTRACT && hi->a == head->a && hi->lo == head->lo + head->w)
        merged = mkExtract(hi->a, head->lo, hi->w + head->w);
    else if (hi->k == K_EXTRACT && hi->a == head && hi->lo == head->w)
        merged = nullptr; // not an adjacent slice of the same value
    if (merged) {
        if (!tail)
            return merged;
        return mkConcat(merged, tail);
    }
    return intern(K_CONCAT, hi->w + lo->w, hi, lo, 0, 0, 0);
}

Expr* mkExtract(Expr* e, u32 lo, u32 w)
{
    if (lo == 0 && w == e->w)
        return e;
    if (isC(e))
        return mkConst(e->val >> lo, w);
    switch (e->k) {
    case K_EXTRACT:
        return mkExtract(e->a, e->lo + lo, w);
    case K_CONCAT: {
        u32 n = e->b->w;
        if (lo + w <= n)
            return mkExtract(e->b, lo, w);
        if (lo >= n)
            return mkExtract(e->a, lo - n, w);
        return mkConcat(mkExtract(e->a, 0, lo + w - n), mkExtract(e->b, lo, n - lo));
    }
    case K_SEXT: {
        u32 n = e->a->w;
        if (lo + w <= n)
            return mkExtract(e->a, lo, w);
        if (lo < n)
            return mkSExt(mkExtract(e->a, lo, n - lo), w);
        if (lo >= n)
            return mkSExt(mkExtract(e->a, n - 1, 1), w);
        break;
    }
    case K_AND:
    case K_OR:
    case K_XOR:
        return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case K_ADD:
    case K_SUB:
    case K_MUL:
        if (lo == 0)
            return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case K_ITE:
        return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
    default:
        break;
    }
    return intern(K_EXTRACT, w, e, 0, 0, 0, lo);
}

Expr* mkZExt(Expr* e, u32 w)
{
    if (w == e->w)
        return e;
    return mkConcat(mkConst(0, w - e->w), e);
}

Expr* mkSExt(Expr* e, u32 w)
{
    if (w == e->w)
        return e;
    if (isC(e))
        return mkConst((u128)sx(e->val, e->w), w);
    if (e->k == K_CONCAT && isC(e->a) && ((e->a->val >> (e->a->w - 1)) & 1) == 0)
        return mkZExt(e, w);
    if (e->k == K_SEXT)
        return mkSExt(e->a, w);
    if (e->k == K_ITE && isC(e->b) && isC(e->c))
        return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    return intern(K_SEXT, w, e, 0, 0, 0, 0);
}

const std::vector<u32>& varsOf(Expr* e)
{
    static const std::vector<u32> none;
    if (e->vars)
        return *e->vars;
    if (e->k == K_CONST)
        return none;
    Persist keep;
    std::vector<u32>* r = new std::vector<u32>();
    if (e->k == K_VAR) {
        r->push_back(e->lo);
    } else {
        const std::vector<u32>* p[3] = { nullptr, nullptr, nullptr };
        int n = 0;
        for (Expr* x : { e->a, e->b, e->c })
            if (x && x->k != K_CONST)
                p[n++] = &varsOf(x);
        for (int i = 0; i < n; ++i)
            if (r->empty())
                *r = *p[i];
            else {
                std::vector<u32> t;
                t.reserve(r->size() + p[i]->size());
                std::set_union(r->begin(), r->end(), p[i]->begin(), p[i]->end(), std::back_inserter(t));
                r->swap(t);
            }
    }
    // share identical sets with a child to save memory
    for (Expr* x : { e->a, e->b, e->c })
        if (x && x->vars && *x->vars == *r) {
            delete r;
            e->vars = x->vars;
            return *e->vars;
        }
    e->vars = r;
    return *r;
}

static u64 g_stamp = 1;
void evalNewEpoch() { ++g_stamp; }

u128 evalExpr(Expr* e, const Model& m)
{
    if (e->k == K_CONST)
        return e->val;
    if (e->k == K_VAR)
        return (u128)m.get(e->lo) & maskw(e->w);
    if (e->evalStamp == g_stamp)
        return e->evalVal;
    u128 r;
    switch (e->k) {
    case K_ITE:
        r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m);
        break;
    case K_CONCAT:
        r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m);
        break;
    case K_EXTRACT:
        r = (evalExpr(e->a, m) >> e->lo) & maskw(e->w);
        break;
    case K_SEXT:
        r = (u128)sx(evalExpr(e->a, m), e->a->w) & maskw(e->w);
        break;
    default:
        r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w);
    }
    e->evalStamp = g_stamp;
    e->evalVal = r;
    return r;
}

std::string exprStr(Expr* e, int d)
{
    static const char* nm[] = { "const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s",
        "==", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "sext", "+f", "-f", "*f", "/f", "==f", "<f", "<=f" };
    char buf[64];
    if (e->k == K_CONST) {
        snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->val, e->w);
        return buf;
    }
    if (e->k == K_VAR)
        return g_vars[e->lo].name + ":" + std::to_string(e->w);
    if (d == 0)
        return "...";
    std::string s = std::string("(") + nm[e->k];
    if (e->k == K_EXTRACT)
        s += "[" + std::to_string(e->lo + e->w - 1) + ":" + std::to_string(e->lo) + "]";
    for (Expr* x : { e->a, e->b, e->c })
        if (x)
            s += " " + exprStr(x, d - 1);
    return s + ")";
}

static Expr* substRec(Expr* e, std::vector<Expr*>& map, std::unordered_map<Expr*, Expr*>& memo)
{
    if (!e->undef)
        return e;
    auto it = memo.find(e);
    if (it != memo.end())
        return it->second;
    Expr* r;
    if (e->k == K_VAR) {
        if (e->lo >= map.size())
            map.resize(e->lo + 1, nullptr);
        if (!map[e->lo]) {
            std::string n = g_vars[e->lo].name + "'";
            Expr* f = mkVar(n, e->w, 1);
            if (e->lo >= map.size())
                map.resize(e->lo + 1, nullptr);
            map[e->lo] = f;
        }
        r = map[e->lo];
    } else {
        Expr* a = e->a ? substRec(e->a, map, memo) : nullptr;
        Expr* b = e->b ? substRec(e->b, map, memo) : nullptr;
        Expr* c = e->c ? substRec(e->c, map, memo) : nullptr;
        switch (e->k) {
        case K_ITE:
            r = mkIte(a, b, c);
            break;
        case K_CONCAT:
            r = mkConcat(a, b);
            break;
        case K_EXTRACT:
            r = mkExtract(a, e->lo, e->w);
            break;
        case K_SEXT:
            r = mkSExt(a, e->w);
            break;
        default:
            r = mkBin(e->k, a, b);
        }
    }
    memo[e] = r;
    return r;
}

Expr* substUndef(Expr* e, std::vector<Expr*>& map)
{
    std::unordered_map<Expr*, Expr*> memo;
    return substRec(e, map, memo);
}
