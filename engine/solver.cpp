#include "arena.h"
#include "solver.h"
#include <algorithm>
#include <unordered_map>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <z3.h>

SolverStats g_sstats;
void (*g_profile)(u64 us, const std::vector<Expr*>& cs);
PathCond* g_pcp;
void pcInit() { g_pcp = new PathCond(); }
u32& varCounter() { return g_pc.nvars; }
u64 g_rlimit = 40000000;

static Z3_context g_ctx;
static bool g_err = false;
static void onErr(Z3_context c, Z3_error_code e)
{
    g_err = true;
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

static Z3_context ctx()
{
    if (!g_ctx) {
        Z3_config cfg = Z3_mk_config();
        g_ctx = Z3_mk_context(cfg); // no per-ast reference counting
        Z3_del_config(cfg);
        Z3_set_error_handler(g_ctx, onErr);
    }
    return g_ctx;
}

static Z3_ast toZ3Bool(Expr* e);
static Z3_ast toZ3(Expr* e);

// 1-bit expressions become Boolean terms
static Z3_ast toBool(Expr* e)
{
    Z3_context c = ctx();
    switch (e->k) {
    case K_CONST:
        return e->val ? Z3_mk_true(c) : Z3_mk_false(c);
    case K_AND:
    case K_OR: {
        Z3_ast x[2] = { toZ3Bool(e->a), toZ3Bool(e->b) };
        return e->k == K_AND ? Z3_mk_and(c, 2, x) : Z3_mk_or(c, 2, x);
    }
    case K_ADD:
    case K_SUB:
    case K_XOR:
        if (isTrue(e->a))
            return Z3_mk_not(c, toZ3Bool(e->b));
        if (isTrue(e->b))
            return Z3_mk_not(c, toZ3Bool(e->a));
        return Z3_mk_xor(c, toZ3Bool(e->a), toZ3Bool(e->b));
    case K_ITE:
        return Z3_mk_ite(c, toZ3Bool(e->a), toZ3Bool(e->b), toZ3Bool(e->c));
    case K_EQ:
        if (e->a->w == 1)
            return Z3_mk_iff(c, toZ3Bool(e->a), toZ3Bool(e->b));
        return Z3_mk_eq(c, toZ3(e->a), toZ3(e->b));
    case K_ULT:
        return Z3_mk_bvult(c, toZ3(e->a), toZ3(e->b));
    case K_ULE:
        return Z3_mk_bvule(c, toZ3(e->a), toZ3(e->b));
    case K_SLT:
        return Z3_mk_bvslt(c, toZ3(e->a), toZ3(e->b));
    case K_SLE:
        return Z3_mk_bvsle(c, toZ3(e->a), toZ3(e->b));
    default:
        return Z3_mk_eq(c, toZ3(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
    }
}

static Z3_ast toZ3Bool(Expr* e)
{
    if (!e->z3b)
        e->z3b = toBool(e);
    return (Z3_ast)e->z3b;
}

static Z3_ast toZ3(Expr* e)
{
    if (e->z3)
        return (Z3_ast)e->z3;
    Z3_context c = ctx();
    Z3_ast r;
    if (e->w == 1)
        switch (e->k) {
        case K_AND:
        case K_OR:
        case K_XOR:
        case K_ADD:
        case K_SUB:
        case K_ITE:
        case K_EQ:
        case K_ULT:
        case K_ULE:
        case K_SLT:
        case K_SLE:
            e->z3 = r = Z3_mk_ite(c, toZ3Bool(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)));
            return r;
        default:
            break;
        }
    auto b2bv = [&](Z3_ast x) {
        return Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)));
    };
    switch (e->k) {
    case K_CONST:
        if (e->w <= 64)
            r = Z3_mk_unsigned_int64(c, (u64)e->val, Z3_mk_bv_sort(c, e->w));
        else
            r = Z3_mk_concat(c, Z3_mk_unsigned_int64(c, (u64)(e->val >> 64), Z3_mk_bv_sort(c, e->w - 64)),
                Z3_mk_unsigned_int64(c, (u64)e->val, Z3_mk_bv_sort(c, 64)));
        break;
    case K_VAR: {
        char buf[32];
        snprintf(buf, sizeof buf, "v%u", e->lo);
        r = Z3_mk_const(c, Z3_mk_string_symbol(c, buf), Z3_mk_bv_sort(c, e->w));
        break;
    }
    case K_ITE:
        r = Z3_mk_ite(c, toZ3Bool(e->a), toZ3(e->b), toZ3(e->c));
        break;
    case K_CONCAT:
        r = Z3_mk_concat(c, toZ3(e->a), toZ3(e->b));
        break;
    case K_EXTRACT:
        r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, toZ3(e->a));
        break;
    case K_SEXT:
        r = Z3_mk_sign_ext(c, e->w - e->a->w, toZ3(e->a));
        break;
    default: {
        Z3_ast a = toZ3(e->a), b = toZ3(e->b);
        switch (e->k) {
        case K_ADD:
            r = Z3_mk_bvadd(c, a, b);
            break;
        case K_SUB:
            r = Z3_mk_bvsub(c, a, b);
            break;
        case K_MUL:
            r = Z3_mk_bvmul(c, a, b);
            break;
        case K_UDIV:
            r = Z3_mk_bvudiv(c, a, b);
            break;
        case K_SDIV:
            r = Z3_mk_bvsdiv(c, a, b);
            break;
        case K_UREM:
            r = Z3_mk_bvurem(c, a, b);
            break;
        case K_SREM:
            r = Z3_mk_bvsrem(c, a, b);
            break;
        case K_AND:
            r = Z3_mk_bvand(c, a, b);
            break;
        case K_OR:
            r = Z3_mk_bvor(c, a, b);
            break;
        case K_XOR:
            r = Z3_mk_bvxor(c, a, b);
            break;
        case K_SHL:
            r = Z3_mk_bvshl(c, a, b);
            break;
        case K_LSHR:
            r = Z3_mk_bvlshr(c, a, b);
            break;
        case K_ASHR:
            r = Z3_mk_bvashr(c, a, b);
            break;
        case K_EQ:
            r = b2bv(Z3_mk_eq(c, a, b));
            break;
        case K_ULT:
            r = b2bv(Z3_mk_bvult(c, a, b));
            break;
        case K_ULE:
            r = b2bv(Z3_mk_bvule(c, a, b));
            break;
        case K_SLT:
            r = b2bv(Z3_mk_bvslt(c, a, b));
            break;
        case K_SLE:
            r = b2bv(Z3_mk_bvsle(c, a, b));
            break;
        case K_FADD:
        case K_FSUB:
        case K_FMUL:
        case K_FDIV:
        case K_FEQ:
        case K_FLT:
        case K_FLE: {
            const u32 w = e->a->w;
            Z3_sort so = w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c);
            Z3_ast fa = Z3_mk_fpa_to_fp_bv(c, a, so), fb = Z3_mk_fpa_to_fp_bv(c, b, so), rm = Z3_mk_fpa_rne(c), f;
            if (e->k >= K_FEQ) {
                r = b2bv(e->k == K_FEQ ? Z3_mk_fpa_eq(c, fa, fb) : e->k == K_FLT ? Z3_mk_fpa_lt(c, fa, fb) : Z3_mk_fpa_leq(c, fa, fb));
                break;
            }
            f = e->k == K_FADD ? Z3_mk_fpa_add(c, rm, fa, fb) : e->k == K_FSUB ? Z3_mk_fpa_sub(c, rm, fa, fb)
                : e->k == K_FMUL                               ? Z3_mk_fpa_mul(c, rm, fa, fb)
                                                               : Z3_mk_fpa_div(c, rm, fa, fb);
            Z3_sort bv = Z3_mk_bv_sort(c, w);
            Z3_ast quiet = Z3_mk_unsigned_int64(c, w == 64 ? 1ull << 51 : 1ull << 22, bv);
            Z3_ast dflt = Z3_mk_unsigned_int64(c, w == 64 ? 0xfff8000000000000ull : 0xffc00000u, bv);
            r = Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, fa), Z3_mk_bvor(c, a, quiet),
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, fb), Z3_mk_bvor(c, b, quiet),
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), dflt, Z3_mk_fpa_to_ieee_bv(c, f))));
            break;
        }
        default:
            abort();
        }
    }
    }
    e->z3 = r;
    return r;
}

// The answers are kept for the process: other paths ask the same questions.
struct Answer {
    SatRes res;
    std::vector<std::pair<u32, u64>> vals;
};
struct KeyHash {
    size_t operator()(const std::vector<u32>& k) const
    {
        size_t h = k.size();
        for (u32 x : k)
            h = (h ^ x) * 0x9E3779B97F4A7C15ull;
        return h ^ (h >> 29);
    }
};
static std::unordered_map<std::vector<u32>, Answer, KeyHash>* g_answers;

static const Answer& solve(const std::vector<Expr*>& cs)
{
    Persist keep;
    if (!g_answers)
        g_answers = new std::unordered_map<std::vector<u32>, Answer, KeyHash>();
    std::vector<u32> key;
    for (Expr* e : cs)
        key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_answers->find(key);
    if (it != g_answers->end()) {
        g_sstats.cached++;
        return it->second;
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_context c = ctx();
    static Z3_solver s;
    static unsigned uses;
    if (s && ++uses > 2000) {
        Z3_solver_dec_ref(c, s);
        s = nullptr;
        uses = 0;
    }
    if (!s) {
        s = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), (unsigned)g_rlimit);
        Z3_solver_set_params(c, s, p);
        Z3_params_dec_ref(c, p);
    }
    Z3_solver_push(c, s);
    std::vector<u32> vars;
    for (Expr* e : cs) {
        Z3_solver_assert(c, s, toZ3Bool(e));
        for (u32 v : varsOf(e))
            vars.push_back(v);
    }
    std::sort(vars.begin(), vars.end());
    vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    g_err = false;
    Answer a;
    Z3_lbool r = Z3_solver_check(c, s);
    a.res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (g_err)
        a.res = UNKNOWN;
    if (a.res == SAT) {
        Z3_model mo = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, mo);
        for (u32 v : vars) {
            Z3_ast out;
            u64 x = 0;
            if (Z3_model_eval(c, mo, toZ3(g_vars[v].e), true, &out) && Z3_get_numeral_uint64(c, out, &x))
                a.vals.push_back({ v, x });
        }
        Z3_model_dec_ref(c, mo);
    }
    Z3_solver_pop(c, s, 1);
    u64 us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    g_sstats.queries++;
    g_sstats.us += us;
    if (g_profile)
        g_profile(us, cs);
    if (us > g_sstats.maxUs)
        g_sstats.maxUs = us;
    (a.res == SAT ? g_sstats.sat : a.res == UNSAT ? g_sstats.unsat : g_sstats.unknown)++;
    return (*g_answers)[key] = std::move(a);
}

SatRes checkSet(const std::vector<Expr*>& cs, Model& m)
{
    const Answer& a = solve(cs);
    if (a.res == SAT)
        for (auto& x : a.vals)
            m.set(x.first, x.second);
    return a.res;
}

static void ensureVar(u32 v)
{
    if (v >= g_pc.byVar.size()) {
        g_pc.byVar.resize(v + 64);
        g_pc.dom.resize(v + 64, nullptr);
        g_pc.multi.resize(v + 64, false);
    }
}

static bool isSmall(u32 v) { return g_vars[v].w <= 8; }

static void narrow(std::bitset<256>& d, Expr* e, u32 v)
{
    Model t;
    u32 n = 1u << g_vars[v].w;
    for (u32 x = 0; x < n; ++x)
        if (d[x]) {
            t.set(v, x);
            evalNewEpoch();
            if (!evalExpr(e, t))
                d[x] = false;
        }
    evalNewEpoch();
}

static std::bitset<256> fullDom(u32 v)
{
    std::bitset<256> d;
    for (u32 x = 0; x < (1u << g_vars[v].w); ++x)
        d[x] = true;
    return d;
}

void pcAdd(Expr* e)
{
    if (isTrue(e) || g_pc.set.count(e))
        return;
    if (e->k == K_AND && e->w == 1) {
        pcAdd(e->a);
        pcAdd(e->b);
        g_pc.set.insert(e);
        return;
    }
    g_pc.set.insert(e);
    u32 idx = g_pc.cs.size();
    g_pc.cs.push_back(e);
    const std::vector<u32>& vs = varsOf(e);
    for (u32 v : vs) {
        ensureVar(v);
        g_pc.byVar[v].push_back(idx);
    }
    if (vs.size() == 1 && isSmall(vs[0])) {
        u32 v = vs[0];
        if (!g_pc.dom[v])
            g_pc.dom[v] = new std::bitset<256>(fullDom(v));
        narrow(*g_pc.dom[v], e, v);
    } else
        for (u32 v : vs)
            g_pc.multi[v] = true;
}

std::vector<Expr*> pcSlice(Expr* e)
{
    std::vector<Expr*> out;
    std::vector<bool> seenC(g_pc.cs.size(), false);
    std::unordered_set<u32> seenV;
    std::vector<u32> work(varsOf(e).begin(), varsOf(e).end());
    while (!work.empty()) {
        u32 v = work.back();
        work.pop_back();
        if (!seenV.insert(v).second)
            continue;
        if (v >= g_pc.byVar.size())
            continue;
        for (u32 ci : g_pc.byVar[v])
            if (!seenC[ci]) {
                seenC[ci] = true;
                out.push_back(g_pc.cs[ci]);
                for (u32 x : varsOf(g_pc.cs[ci]))
                    if (!seenV.count(x))
                        work.push_back(x);
            }
    }
    return out;
}

bool pcImpliesSyntactically(Expr* e)
{
    if (g_pc.set.count(e))
        return true;
    if (e->k == K_AND && e->w == 1)
        return pcImpliesSyntactically(e->a) && pcImpliesSyntactically(e->b);
    return false;
}

SatRes pcCheck(Expr* e, Model& m, bool forceSolver)
{
    m = g_pc.model;
    if (isC(e))
        return e->val ? SAT : UNSAT;
    evalNewEpoch();
    if (!forceSolver) {
        if (evalExpr(e, g_pc.model)) {
            g_sstats.modelHits++;
            return SAT;
        }
        if (pcImpliesSyntactically(mkNot(e))) {
            g_sstats.domain++;
            return UNSAT;
        }
        const std::vector<u32>& vs = varsOf(e);
        if (vs.size() == 1 && isSmall(vs[0])) {
            u32 v = vs[0];
            ensureVar(v);
            if (!g_pc.multi[v]) {
                std::bitset<256> d = g_pc.dom[v] ? *g_pc.dom[v] : fullDom(v);
                narrow(d, e, v);
                g_sstats.domain++;
                for (u32 x = 0; x < 256; ++x)
                    if (d[x]) {
                        m.set(v, x);
                        return SAT;
                    }
                return UNSAT;
            }
        }
    }
    std::vector<Expr*> cs = pcSlice(e);
    cs.push_back(e);
    return checkSet(cs, m);
}

std::string toSmt2(const std::vector<Expr*>& cs)
{
    Persist keep;
    Z3_context c = ctx();
    std::vector<Z3_ast> as;
    for (Expr* e : cs)
        as.push_back(toZ3Bool(e));
    if (as.empty())
        return "";
    Z3_ast last = as.back();
    as.pop_back();
    return Z3_benchmark_to_smtlib_string(c, "symx", "QF_BV", "unknown", "", as.size(), as.data(), last);
}

void solverWarmup()
{
    Expr* a = mkVar("warm_a", 8, 2);
    Expr* b = mkVar("warm_b", 8, 2);
    Model m;
    Expr* s = mkBin(K_ADD, mkBin(K_MUL, mkZExt(a, 32), mkConst(10, 32)), mkZExt(b, 32));
    checkSet({ mkBin(K_ULT, s, mkConst(99, 32)), mkNot(mkEq(s, mkConst(3, 32))), mkBin(K_SLE, a, b) }, m);
    checkSet({ mkEq(s, mkConst(3, 32)), mkBin(K_ULT, mkConst(5, 8), a) }, m);
    g_sstats = SolverStats();
}
