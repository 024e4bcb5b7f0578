// Models of compiler intrinsics, the C/C++ runtime and the symx_* API. Included by main.cpp.

static void advance(CallCtx& cx)
{
    Frame& f = E->cur->frames.back();
    if (cx.ci->invoke)
        E->takeEdge(f, cx.ci->normal);
    else
        ++f.pc;
}
static Val loadB(u64 a)
{
    E->checkRange(a, 1, false);
    return E->load(a, 8);
}
static Expr* e1(const Val& v) { return v.e ? v.e : mkConst(v.c & 1, 1); }
static Expr* nonzero(const Val& v, u32 w)
{
    if (!v.e)
        return mkConst(v.c != 0, 1);
    return mkNot(mkEq(v.e, mkConst(0, w)));
}

// ---------------------------------------------------------------- memory intrinsics

static u64 lengthArg(CallCtx& cx, unsigned i) { return cx.conc(i); }

static int h_memcpy(CallCtx& cx)
{
    u64 n = lengthArg(cx, 2);
    if (n) {
        u64 d = cx.conc(0), s = cx.conc(1);
        E->memcopy(d, s, n);
    }
    cx.ret(cx.arg(0));
    return H_DONE;
}
static int h_memset(CallCtx& cx)
{
    u64 n = lengthArg(cx, 2);
    if (n) {
        Val v = cx.arg(1);
        if (v.e && cx.ci->argW[1] > 8)
            v = ev(mkExtract(v.e, 0, 8));
        else if (!v.e)
            v.c &= 0xff;
        E->memfill(cx.conc(0), v, n);
    }
    cx.ret(cx.arg(0));
    return H_DONE;
}
static int h_memcmp(CallCtx& cx)
{
    u64 n = lengthArg(cx, 2);
    if (!n) {
        cx.ret(0);
        return H_DONE;
    }
    u64 a = cx.conc(0), b = cx.conc(1);
    E->checkRange(a, n, false);
    E->checkRange(b, n, false);
    Expr* r = mkConst(0, 32);
    // leading part that is concretely equal or different decides without a formula
    u64 stop = n;
    for (u64 i = 0; i < n; ++i) {
        Val x = E->load(a + i, 8), y = E->load(b + i, 8);
        if (!x.e && !y.e && x.c != y.c) {
            stop = i + 1;
            break;
        }
    }
    for (u64 i = stop; i-- > 0;) {
        Val x = E->load(a + i, 8), y = E->load(b + i, 8);
        Expr *ex = toE(x, 8), *ey = toE(y, 8);
        Expr* eq = mkEq(ex, ey);
        if (isTrue(eq))
            continue;
        Expr* diff = mkBin(K_SUB, mkZExt(ex, 32), mkZExt(ey, 32));
        r = mkIte(eq, r, diff);
    }
    cx.ret(ev(r));
    return H_DONE;
}
static int h_strlen(CallCtx& cx)
{
    u64 a = cx.conc(0);
    u64 n = 0;
    for (;; ++n) {
        Val v = loadB(a + n);
        if (!v.e) {
            if (!v.c)
                break;
        } else if (E->branch(mkEq(v.e, mkConst(0, 8))))
            break;
    }
    cx.ret(n);
    return H_DONE;
}
static int h_memchr(CallCtx& cx)
{
    u64 n = lengthArg(cx, 2);
    if (!n) {
        cx.ret(0);
        return H_DONE;
    }
    u64 a = cx.conc(0);
    Val c = cx.arg(1);
    Expr* ce = c.e ? mkExtract(c.e, 0, 8) : mkConst(c.c & 0xff, 8);
    for (u64 i = 0; i < n; ++i) {
        Val v = loadB(a + i);
        if (E->branch(mkEq(toE(v, 8), ce))) {
            cx.ret(a + i);
            return H_DONE;
        }
    }
    cx.ret(0);
    return H_DONE;
}
static int strcmpN(CallCtx& cx, u64 n)
{
    u64 a = cx.conc(0), b = cx.conc(1);
    for (u64 i = 0; i < n; ++i) {
        Val x = loadB(a + i), y = loadB(b + i);
        Expr *ex = toE(x, 8), *ey = toE(y, 8);
        if (!E->branch(mkEq(ex, ey))) {
            cx.ret(ev(mkBin(K_SUB, mkZExt(ex, 32), mkZExt(ey, 32))));
            return H_DONE;
        }
        if (E->branch(mkEq(ex, mkConst(0, 8))))
            break;
    }
    cx.ret(0);
    return H_DONE;
}
static int h_strcmp(CallCtx& cx) { return strcmpN(cx, ~0ull); }
static int h_strncmp(CallCtx& cx) { return strcmpN(cx, cx.conc(2)); }
static int h_strchr(CallCtx& cx)
{
    u64 a = cx.conc(0);
    u64 c = cx.conc(1) & 0xff;
    for (;; ++a) {
        Val v = loadB(a);
        if (E->branch(mkEq(toE(v, 8), mkConst(c, 8)))) {
            cx.ret(a);
            return H_DONE;
        }
        if (E->branch(mkEq(toE(v, 8), mkConst(0, 8)))) {
            cx.ret(0);
            return H_DONE;
        }
    }
}

// ---------------------------------------------------------------- arithmetic intrinsics

static Val exprVal(Expr* e) { return e->w > 64 ? Val { 0, e } : ev(e); }

template <Kind K, bool SWAP>
static int h_minmax(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    for (u32 i = 0; i < cx.ci->nret; ++i) {
        Expr *a = toE(cx.arg(i), w), *b = toE(cx.arg(cx.ci->nret + i), w);
        Expr* r = SWAP ? mkIte(mkBin(K, b, a), a, b) : mkIte(mkBin(K, a, b), a, b);
        E->cur->frames.back().regs[cx.op->dst + i] = exprVal(r);
    }
    return H_DONE;
}
static int h_abs(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    Expr* a = toE(cx.arg(0), w);
    cx.ret(exprVal(mkIte(mkBin(K_SLT, a, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), a), a)));
    return H_DONE;
}
template <Kind K, bool SIGNED>
static int h_overflow(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    if (w > 64)
        E->unsupported("wide overflow intrinsic");
    Expr *a = toE(cx.arg(0), w), *b = toE(cx.arg(1), w);
    u32 w2 = K == K_MUL ? 2 * w : w + 1;
    Expr *xa = SIGNED ? mkSExt(a, w2) : mkZExt(a, w2), *xb = SIGNED ? mkSExt(b, w2) : mkZExt(b, w2);
    Expr* r2 = mkBin(K, xa, xb);
    Expr* r = mkExtract(r2, 0, w);
    Expr* back = SIGNED ? mkSExt(r, w2) : mkZExt(r, w2);
    Expr* o = mkNot(mkEq(r2, back));
    Frame& f = E->cur->frames.back();
    f.regs[cx.op->dst] = ev(mkBin(K, a, b));
    f.regs[cx.op->dst + 1] = ev(o);
    return H_DONE;
}
template <Kind K>
static int h_usat(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    Expr *a = toE(cx.arg(0), w), *b = toE(cx.arg(1), w);
    Expr* r = mkBin(K, a, b);
    if (K == K_SUB)
        r = mkIte(mkBin(K_ULT, a, b), mkConst(0, w), r);
    else
        r = mkIte(mkBin(K_ULT, r, a), mkConst(maskw(w), w), r);
    cx.ret(exprVal(r));
    return H_DONE;
}
static int h_ctlz(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    Expr* a = toE(cx.arg(0), w);
    Expr* r = mkConst(w, w);
    for (u32 i = 0; i < w; ++i)
        r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r);
    cx.ret(exprVal(r));
    return H_DONE;
}
static int h_cttz(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    Expr* a = toE(cx.arg(0), w);
    Expr* r = mkConst(w, w);
    for (u32 i = w; i-- > 0;)
        r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r);
    cx.ret(exprVal(r));
    return H_DONE;
}
static int h_ctpop(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    Expr* a = toE(cx.arg(0), w);
    Expr* r = mkConst(0, w);
    for (u32 i = 0; i < w; ++i)
        r = mkBin(K_ADD, r, mkZExt(mkExtract(a, i, 1), w));
    cx.ret(exprVal(r));
    return H_DONE;
}
static int h_bswap(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    Expr* a = toE(cx.arg(0), w);
    Expr* r = mkExtract(a, 0, 8);
    for (u32 i = 8; i < w; i += 8)
        r = mkConcat(r, mkExtract(a, i, 8));
    cx.ret(exprVal(r));
    return H_DONE;
}
template <bool LEFT>
static int h_fsh(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    Expr *a = toE(cx.arg(0), w), *b = toE(cx.arg(1), w);
    Val s = cx.arg(2);
    if (!s.e) {
        u32 k = s.c % w;
        Expr* r;
        if (LEFT)
            r = k == 0 ? a : mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k));
        else
            r = k == 0 ? b : mkConcat(mkExtract(a, 0, k), mkExtract(b, k, w - k));
        cx.ret(exprVal(r));
        return H_DONE;
    }
    Expr* sh_ = mkBin(K_UREM, s.e, mkConst(w, w));
    Expr* cat = mkConcat(a, b);
    Expr* s2 = mkZExt(sh_, 2 * w);
    Expr* r = LEFT ? mkExtract(mkBin(K_SHL, cat, s2), w, w) : mkExtract(mkBin(K_LSHR, cat, s2), 0, w);
    cx.ret(exprVal(r));
    return H_DONE;
}
static int h_arg0(CallCtx& cx)
{
    cx.ret(cx.arg(0));
    return H_DONE;
}
static int h_zero(CallCtx& cx)
{
    cx.ret(0);
    return H_DONE;
}
static int h_one(CallCtx& cx)
{
    cx.ret(1);
    return H_DONE;
}
static int h_nop(CallCtx&) { return H_DONE; }
static int h_objsize(CallCtx& cx)
{
    u64 w = cx.ci->retW;
    cx.ret(cx.arg(1).c ? 0 : mask64(w));
    return H_DONE;
}
static int h_trap(CallCtx&) { E->violation("trap", "compiler trap (undefined behaviour)"); }
static int h_typeidfor(CallCtx& cx)
{
    cx.ret(E->typeId(cx.conc(0)));
    return H_DONE;
}
static int h_vastart(CallCtx& cx)
{
    u64 a = cx.conc(0);
    E->checkRange(a, 24, true);
    E->store(a, cv(48), 32);
    E->store(a + 4, cv(176), 32);
    E->store(a + 8, cv(E->cur->frames.back().varargs), 64);
    E->store(a + 16, cv(0), 64);
    return H_DONE;
}
static int h_vacopy(CallCtx& cx)
{
    E->memcopy(cx.conc(0), cx.conc(1), 24);
    return H_DONE;
}
static int h_fabs(CallCtx& cx)
{
    u32 w = cx.ci->argW[0];
    cx.ret(ev(mkBin(K_AND, toE(cx.arg(0), w), mkConst(mask64(w - 1), w))));
    return H_DONE;
}
static int h_fpclass(CallCtx& cx)
{
    cx.conc(0);
    E->unsupported("is.fpclass");
}

static int h_threadlocal(CallCtx& cx)
{
    u64 a = cx.conc(0);
    if (E->cur->id == 0 || (u32)a != 0) {
        cx.ret(cv(a));
        return H_DONE;
    }
    auto it = E->cur->locals.find(a);
    if (it == E->cur->locals.end()) {
        auto g = E->gvAt.find(a);
        if (g == E->gvAt.end() || g->second->isDeclaration())
            E->unsupported("thread-local variable of another module");
        u64 n = E->alloc(E->DL->getTypeAllocSize(g->second->getValueType()), OK_GLOBAL, nullptr);
        E->objs[n >> 32].init = 1;
        E->initMem(n, g->second->getInitializer());
        it = E->cur->locals.emplace(a, n).first;
    }
    cx.ret(cv(it->second));
    return H_DONE;
}

static Handler findIntrinsic(const Function* F)
{
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove:
        return h_memcpy;
    case Intrinsic::memset:
        return h_memset;
    case Intrinsic::umin:
        return h_minmax<K_ULT, false>;
    case Intrinsic::umax:
        return h_minmax<K_ULT, true>;
    case Intrinsic::smin:
        return h_minmax<K_SLT, false>;
    case Intrinsic::smax:
        return h_minmax<K_SLT, true>;
    case Intrinsic::abs:
        return h_abs;
    case Intrinsic::uadd_with_overflow:
        return h_overflow<K_ADD, false>;
    case Intrinsic::usub_with_overflow:
        return h_overflow<K_SUB, false>;
    case Intrinsic::umul_with_overflow:
        return h_overflow<K_MUL, false>;
    case Intrinsic::sadd_with_overflow:
        return h_overflow<K_ADD, true>;
    case Intrinsic::ssub_with_overflow:
        return h_overflow<K_SUB, true>;
    case Intrinsic::smul_with_overflow:
        return h_overflow<K_MUL, true>;
    case Intrinsic::uadd_sat:
        return h_usat<K_ADD>;
    case Intrinsic::usub_sat:
        return h_usat<K_SUB>;
    case Intrinsic::ctlz:
        return h_ctlz;
    case Intrinsic::cttz:
        return h_cttz;
    case Intrinsic::ctpop:
        return h_ctpop;
    case Intrinsic::bswap:
        return h_bswap;
    case Intrinsic::fshl:
        return h_fsh<true>;
    case Intrinsic::fshr:
        return h_fsh<false>;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
        return h_arg0;
    case Intrinsic::threadlocal_address:
        return h_threadlocal;
    case Intrinsic::is_constant:
    case Intrinsic::stacksave:
        return h_zero;
    case Intrinsic::objectsize:
        return h_objsize;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap:
        return h_trap;
    case Intrinsic::eh_typeid_for:
        return h_typeidfor;
    case Intrinsic::vastart:
        return h_vastart;
    case Intrinsic::vaend:
        return h_nop;
    case Intrinsic::vacopy:
        return h_vacopy;
    case Intrinsic::fabs:
        return h_fabs;
    case Intrinsic::is_fpclass:
        return h_fpclass;
    default:
        return nullptr;
    }
}

// ---------------------------------------------------------------- allocation

static u64 allocSize(CallCtx& cx, Val v)
{
    if (!v.e)
        return v.c;
    // a size that depends on input: anything above the cap is reported as its own outcome
    const u64 cap = 1ull << 31;
    if (E->branch(mkBin(K_ULT, mkConst(cap, 64), v.e)))
        return E->concretize(v, 64, 1);
    return E->concretize(v, 64, 64);
}
static void throwStd(CallCtx& cx, const char* thrower);

template <int HOW>
static int h_new(CallCtx& cx)
{
    u64 n = allocSize(cx, cx.arg(0));
    if (n > (1ull << 40)) {
        throwStd(cx, "_ZSt17__throw_bad_allocv");
        return H_CTRL;
    }
    cx.ret(E->alloc(n, OK_HEAP, cx.ci->cb, HOW));
    return H_DONE;
}
static int h_newnothrow(CallCtx& cx)
{
    u64 n = allocSize(cx, cx.arg(0));
    cx.ret(n > (1ull << 40) ? 0 : E->alloc(n, OK_HEAP, cx.ci->cb, 1));
    return H_DONE;
}
static int h_malloc(CallCtx& cx)
{
    u64 n = allocSize(cx, cx.arg(0));
    cx.ret(n > (1ull << 40) ? 0 : E->alloc(n, OK_HEAP, cx.ci->cb, 0));
    return H_DONE;
}
static int h_calloc(CallCtx& cx)
{
    u64 n = cx.conc(0) * cx.conc(1);
    u64 a = E->alloc(n, OK_HEAP, cx.ci->cb, 0);
    E->objs[a >> 32].init = 1;
    cx.ret(a);
    return H_DONE;
}
static int h_realloc(CallCtx& cx)
{
    u64 p = cx.conc(0), n = cx.conc(1);
    u64 a = E->alloc(n, OK_HEAP, cx.ci->cb, 0);
    if (p) {
        u64 old = E->objs[p >> 32].size;
        E->memcopy(a, p, std::min(old, n));
        E->freeObj(p, "realloc");
    }
    cx.ret(a);
    return H_DONE;
}
static int h_memalign(CallCtx& cx)
{
    cx.ret(E->alloc(cx.conc(1), OK_HEAP, cx.ci->cb, 0));
    return H_DONE;
}
static int h_posixmemalign(CallCtx& cx)
{
    u64 a = E->alloc(cx.conc(2), OK_HEAP, cx.ci->cb, 0);
    u64 p = cx.conc(0);
    E->checkRange(p, 8, true);
    E->store(p, cv(a), 64);
    cx.ret(0);
    return H_DONE;
}
template <int HOW>
static int h_free(CallCtx& cx)
{
    u64 a = cx.conc(0);
    if (a) {
        Obj* o = E->find(a);
        if (o && o->kind == OK_HEAP && o->alive && o->how != HOW && (a & 0xffffffff) == 0) {
            static const char* nm[] = { "malloc", "new", "new[]" };
            static const char* fn[] = { "free", "delete", "delete[]" };
            E->violation("bad-free", std::string(fn[HOW]) + " of memory from " + nm[o->how]);
        }
    }
    static const char* fn[] = { "free", "delete", "delete[]" };
    E->freeObj(a, fn[HOW]);
    return H_DONE;
}

// ---------------------------------------------------------------- exceptions

static int h_allocexc(CallCtx& cx)
{
    u64 a = E->alloc(cx.conc(0), OK_EXC, nullptr);
    cx.ret(a);
    return H_DONE;
}
static int h_freeexc(CallCtx& cx)
{
    u64 a = cx.conc(0);
    Obj& o = E->objs[a >> 32];
    o.alive = false;
    dropStorage(o);
    return H_DONE;
}
static int h_throw(CallCtx& cx)
{
    u64 o = cx.conc(0), ti = cx.conc(1), d = cx.conc(2);
    Exc x {};
    x.obj = o;
    x.ti = ti;
    x.dtor = d;
    x.adjusted = o;
    E->excs[o] = x;
    E->cur->pendExc = o;
    E->cur->uncaught++;
    E->unwind();
    return H_CTRL;
}
static int h_begincatch(CallCtx& cx)
{
    u64 o = cx.conc(0);
    Exc& x = E->excs[o];
    if (x.handlers < 0)
        x.handlers = -x.handlers + 1;
    else
        x.handlers++;
    if (E->cur->caught.empty() || E->cur->caught.back() != o)
        E->cur->caught.push_back(o);
    E->cur->uncaught--;
    // catch by pointer type: the object holds the pointer
    u64 r = x.adjusted;
    std::string n = E->tiName(x.ti);
    if (n.rfind("_ZTIP", 0) == 0)
        r = E->concretize(E->load(o, 64), 64);
    cx.ret(r);
    return H_DONE;
}
static int h_getexcptr(CallCtx& cx)
{
    cx.ret(E->excs[cx.conc(0)].adjusted);
    return H_DONE;
}
static int h_endcatch(CallCtx& cx)
{
    Thread* t = E->cur;
    if (t->caught.empty())
        return H_DONE;
    u64 o = t->caught.back();
    Exc& x = E->excs[o];
    if (x.handlers < 0) {
        if (++x.handlers == 0)
            t->caught.pop_back();
        return H_DONE;
    }
    if (--x.handlers > 0)
        return H_DONE;
    t->caught.pop_back();
    u64 d = x.dtor;
    if (d) {
        const Function* F = (const Function*)E->objs[d >> 32].ref;
        auto it = E->handlers.find(F->getName().str());
        if (it == E->handlers.end()) {
            if (F->isDeclaration())
                E->unsupported("exception destructor " + F->getName().str());
            E->pushFrame(E->getFn(F), { cv(o) }, false);
            return H_CTRL;
        }
    }
    return H_DONE;
}
static int h_rethrow(CallCtx& cx)
{
    Thread* t = E->cur;
    if (t->caught.empty())
        E->violation("terminate", "rethrow without a current exception");
    u64 o = t->caught.back();
    Exc& x = E->excs[o];
    x.handlers = -x.handlers;
    t->uncaught++;
    t->pendExc = o;
    E->unwind();
    return H_CTRL;
}
static int h_uncaught(CallCtx& cx)
{
    cx.ret(E->cur->uncaught);
    return H_DONE;
}
static int h_uncaughtb(CallCtx& cx)
{
    cx.ret(E->cur->uncaught > 0);
    return H_DONE;
}
static int h_terminate(CallCtx&) { E->violation("terminate", "std::terminate called"); }
static int h_abort(CallCtx&) { E->violation("abort", "abort called"); }
static int h_stackchk(CallCtx&) { E->violation("abort", "stack smashing"); }
static int h_purevirt(CallCtx&) { E->violation("memory", "pure virtual method called"); }
static int h_assertfail(CallCtx& cx) // __glibcxx_assert_fail(file, line, function, condition)
{
    E->violation("assertion", "standard library precondition violated: " + E->cstr(cx.conc(3)));
}
static int h_cassertfail(CallCtx& cx) { E->violation("assertion", "assert: " + E->cstr(cx.conc(0))); }
static int h_boostassert(CallCtx& cx) { E->violation("assertion", "boost assert: " + E->cstr(cx.conc(0))); }

// calls a defined function of the module in place of the current call
static void throwStd(CallCtx& cx, const char* thrower)
{
    Function* F = E->M->getFunction(thrower);
    if (!F || F->isDeclaration())
        E->violation("memory-exhaustion", "allocation of an impossible size");
    E->pushFrame(E->getFn(F), {}, false);
}

static int h_guardacq(CallCtx& cx)
{
    u64 a = cx.conc(0);
    E->checkRange(a, 8, true);
    bool rm = E->raceMode;
    E->raceMode = false;
    Val v = E->load(a, 8);
    if (!v.c)
        E->store(a + 1, cv(1), 8);
    E->raceMode = rm;
    if (rm)
        vcJoin(E->cur->vc, E->mutexes[a].vc);
    cx.ret(v.c ? 0 : 1);
    return H_DONE;
}
static int h_guardrel(CallCtx& cx)
{
    u64 a = cx.conc(0);
    bool rm = E->raceMode;
    E->raceMode = false;
    E->store(a, cv(1), 8);
    E->raceMode = rm;
    if (rm) {
        E->mutexes[a].vc = E->cur->vc;
        vcTick(E->cur);
    }
    return H_DONE;
}

static int h_dyncast(CallCtx& cx)
{
    u64 p = cx.conc(0);
    u64 dst = cx.conc(2);
    if (!p) {
        cx.ret(0);
        return H_DONE;
    }
    E->checkRange(p, 8, false);
    u64 vptr = E->concretize(E->load(p, 64), 64);
    E->checkRange(vptr - 16, 16, false);
    i64 top = (i64)E->load(vptr - 16, 64).c;
    u64 ti = E->load(vptr - 8, 64).c;
    u64 whole = p + top, adj = 0;
    if (E->canCatch(dst, ti, whole, adj))
        cx.ret(adj);
    else
        cx.ret(0);
    return H_DONE;
}
static int h_badcast(CallCtx& cx) { E->violation("abort", "bad_cast"); }

// ---------------------------------------------------------------- libc odds and ends

static int h_errno(CallCtx& cx)
{
    cx.ret(E->errnoAddr);
    return H_DONE;
}
static int h_getuid(CallCtx& cx)
{
    auto it = opt.params.find("uid");
    cx.ret(it == opt.params.end() ? 1000 : it->second);
    return H_DONE;
}
static int h_clock_gettime(CallCtx& cx)
{
    u64 a = cx.conc(1);
    E->checkRange(a, 16, true);
    E->store(a, cv(1700000000), 64);
    E->store(a + 8, cv(0), 64);
    cx.ret(0);
    return H_DONE;
}
static int h_gettimeofday(CallCtx& cx)
{
    u64 a = cx.conc(0);
    E->checkRange(a, 16, true);
    E->store(a, cv(1700000000), 64);
    E->store(a + 8, cv(0), 64);
    cx.ret(0);
    return H_DONE;
}
// symx_vsnprintf(buf, n, fmt, va): with concrete arguments, for conversions that the runtime's own vsnprintf leaves to it
static int h_vsnprintf(CallCtx& cx)
{
    u64 buf = cx.conc(0), n = cx.conc(1), va = cx.conc(3);
    std::string f = E->cstr(cx.conc(2)), out;
    u64 ap = E->load(va + 8, 64).c;
    auto nextv = [&](u32 w) { Val v = E->load(ap, w); ap += 8; return E->concretize(v, w); };
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') {
            out += f[i];
            continue;
        }
        std::string spec = "%";
        ++i;
        while (i < f.size() && strchr("0123456789.-+ #lhzj*", f[i])) {
            if (f[i] == '*')
                spec += std::to_string((int)nextv(32));
            else
                spec += f[i];
            ++i;
        }
        char b[512];
        char c = f[i];
        spec += c;
        bool lng = spec.find('l') != std::string::npos || spec.find('z') != std::string::npos;
        switch (c) {
        case 'd':
        case 'i':
        case 'u':
        case 'x':
        case 'X':
        case 'c':
            if (lng)
                snprintf(b, sizeof b, spec.c_str(), (long)nextv(64));
            else
                snprintf(b, sizeof b, spec.c_str(), (int)nextv(32));
            out += b;
            break;
        case 'f':
        case 'g':
        case 'e': {
            u64 bits = nextv(64);
            double d;
            memcpy(&d, &bits, 8);
            snprintf(b, sizeof b, spec.c_str(), d);
            out += b;
            break;
        }
        case 's':
            out += E->cstr(nextv(64));
            break;
        case '%':
            out += '%';
            break;
        default:
            E->unsupported("printf conversion " + spec);
        }
    }
    if (n) {
        u64 k = std::min<u64>(out.size(), n - 1);
        E->checkRange(buf, k + 1, true);
        for (u64 i = 0; i < k; ++i)
            E->store(buf + i, cv((u8)out[i]), 8);
        E->store(buf + k, cv(0), 8);
    }
    cx.ret(out.size());
    return H_DONE;
}
static int h_certainend(CallCtx& cx) // symx_certain_end(p): bytes before the first that certainly is NUL, -1: there is none
{
    u64 p = cx.conc(0);
    E->checkRange(p, 1, false);
    u64 end = (p & ~0xffffffffull) + E->objs[p >> 32].size;
    for (u64 q = p; q < end; ++q) {
        Val v = loadB(q);
        if (!v.e && v.c == 0) {
            cx.ret(q - p);
            return H_DONE;
        }
    }
    cx.ret(~0ull);
    return H_DONE;
}
static int h_vacheck(CallCtx& cx) // symx_va_check(va): there is another argument
{
    u64 va = cx.conc(0);
    u64 ap = E->load(va + 8, 64).c;
    Obj& o = E->objs[ap >> 32]; // the slot area ends 8 bytes before its allocation (see doCall)
    if ((ap & 0xffffffff) + 8 > o.size - 8)
        E->violation("memory", "printf format with more conversions than arguments");
    return H_DONE;
}
// vfprintf(stream, fmt, va) (runtime): output is discarded, but the format and every %s argument are read as printf would
static int readFmt(u64 fmt, u64 va)
{
    std::string f = E->cstr(fmt);
    E->checkRange(va, 24, false);
    u64 ap = E->load(va + 8, 64).c;
    auto take = [&]() { E->checkRange(ap, 8, false); u64 a = ap; ap += 8; return a; };
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%')
            continue;
        ++i;
        while (i < f.size() && strchr("0123456789.-+ #lhzj*", f[i])) {
            if (f[i] == '*')
                take();
            ++i;
        }
        if (i >= f.size())
            break;
        if (f[i] == '%')
            continue;
        // the slot area ends 8 bytes before its allocation (see doCall)
        Obj& o = E->objs[ap >> 32];
        if ((ap & 0xffffffff) + 8 > o.size - 8)
            E->violation("memory", "printf format with more conversions than arguments");
        u64 a = take();
        if (f[i] == 'n')
            E->violation("memory", "printf format with %n");
        if (f[i] == 's') {
            u64 p = E->concretize(E->load(a, 64), 64);
            bool ends = false;
            if (p) { // bytes that may or may not end the string are no matter while a certain end follows
                E->checkRange(p, 1, false);
                u64 end = (p & ~0xffffffffull) + E->objs[p >> 32].size;
                for (u64 q = p; q < end && !ends; ++q) {
                    Val v = loadB(q);
                    ends = !v.e && v.c == 0;
                }
            }
            if (p && !ends) // walk the string: must be readable and terminated
                for (;; ++p) {
                    Val v = loadB(p);
                    if (!v.e ? v.c == 0 : E->branch(mkEq(v.e, mkConst(0, 8))))
                        break;
                }
        }
    }
    return (int)f.size();
}
static int h_readfmt(CallCtx& cx) // symx_readfmt(fmt, va)
{
    cx.ret((u32)readFmt(cx.conc(0), cx.conc(1)));
    return H_DONE;
}

// ---------------------------------------------------------------- threads

static void raceAcquire(u64 key) { vcJoin(E->cur->vc, E->mutexes[key].vc); }
static void raceRelease(u64 key)
{
    vcJoin(E->mutexes[key].vc, E->cur->vc);
    vcTick(E->cur);
}

void Engine::threadExit()
{
    cur->st = T_DONE;
    raceMode = opt.races;
    schedPoint(true);
}

static int h_mutexinit(CallCtx& cx)
{
    u64 m = cx.conc(0), attr = cx.conc(1);
    E->checkRange(m, 40, true);
    E->memfill(m, cv(0), 40);
    int kind = 0;
    if (attr)
        kind = E->attrType[attr];
    E->store(m + 16, cv((u64)kind), 32);
    E->mutexes.erase(m);
    cx.ret(0);
    return H_DONE;
}
static int h_attrset(CallCtx& cx)
{
    E->attrType[cx.conc(0)] = (int)cx.conc(1);
    cx.ret(0);
    return H_DONE;
}
static int h_mutexdestroy(CallCtx& cx)
{
    u64 m = cx.conc(0);
    E->checkRange(m, 40, false);
    auto it = E->mutexes.find(m);
    if (it != E->mutexes.end() && it->second.owner >= 0) {
        cx.ret(16);
        return H_DONE;
    }
    for (Thread* t : E->threads)
        if (t->st == T_MUTEX && t->waitOn == m) {
            cx.ret(16);
            return H_DONE;
        }
    if (it != E->mutexes.end())
        E->mutexes.erase(it);
    cx.ret(0);
    return H_DONE;
}
static int lockMutex(CallCtx& cx, bool tryOnly)
{
    u64 m = cx.conc(0);
    Thread* t = E->cur;
    t->st = T_RUN;
    auto own = E->mutexes.find(m);
    bool mine = own != E->mutexes.end() && own->second.owner == t->id; // taking it again is no scheduling point
    if (E->threads.size() > 1 && !t->pastSched && !mine) {
        t->pastSched = true;
        if (E->schedPoint(false))
            return H_CTRL;
    }
    bool rm = E->raceMode;
    E->raceMode = false;
    E->checkRange(m, 40, true);
    u64 kind = E->load(m + 16, 32).c;
    E->raceMode = rm;
    Engine::Mutex& x = E->mutexes[m];
    if (x.owner == t->id) {
        if (kind == 1) {
            x.count++;
            t->pastSched = false;
            cx.ret(0);
            return H_DONE;
        }
        t->pastSched = false;
        if (tryOnly) {
            cx.ret(16);
            return H_DONE;
        }
        E->violation("deadlock", "thread locks a non-recursive mutex it already holds");
    }
    if (x.owner >= 0) {
        if (tryOnly) {
            t->pastSched = false;
            cx.ret(16);
            return H_DONE;
        }
        t->st = T_MUTEX;
        t->waitOn = m;
        E->schedPoint(true);
        return H_CTRL;
    }
    x.owner = t->id;
    x.count = 1;
    t->held.push_back(m);
    if (opt.races)
        raceAcquire(m);
    t->pastSched = false;
    cx.ret(0);
    return H_DONE;
}
static int h_lock(CallCtx& cx) { return lockMutex(cx, false); }
static int h_trylock(CallCtx& cx) { return lockMutex(cx, true); }
static int h_unlock(CallCtx& cx)
{
    u64 m = cx.conc(0);
    E->checkRange(m, 40, true);
    auto it = E->mutexes.find(m);
    if (it == E->mutexes.end() || it->second.owner != E->cur->id)
        E->violation("lock", "unlock of a mutex the thread does not hold");
    if (--it->second.count == 0) {
        it->second.owner = -1;
        if (opt.races)
            raceRelease(m);
        auto& h = E->cur->held;
        for (size_t i = h.size(); i-- > 0;)
            if (h[i] == m) {
                h.erase(h.begin() + i);
                break;
            }
    }
    cx.ret(0);
    return H_DONE;
}
static int condWait(CallCtx& cx, bool timed)
{
    u64 c = cx.conc(0), m = cx.conc(1);
    Thread* t = E->cur;
    if (t->st == T_COND) { // woken
        Engine::Mutex& x = E->mutexes[m];
        x.owner = t->id;
        x.count = 1;
        t->held.push_back(m);
        if (opt.races)
            raceAcquire(m);
        t->st = T_RUN;
        cx.ret(t->signaled ? 0 : 110);
        return H_DONE;
    }
    E->checkRange(c, 48, true);
    Engine::Mutex& x = E->mutexes[m];
    if (x.owner != t->id)
        E->violation("lock", "condition wait without holding the mutex");
    x.owner = -1;
    x.count = 0;
    if (opt.races)
        raceRelease(m);
    auto& h = t->held;
    for (size_t i = h.size(); i-- > 0;)
        if (h[i] == m)
            h.erase(h.begin() + i);
    t->st = T_COND;
    t->waitOn = c;
    t->condMutex = m;
    t->signaled = false;
    t->timed = timed;
    E->schedPoint(true);
    return H_CTRL;
}
static int h_condwait(CallCtx& cx) { return condWait(cx, false); }
static int h_condtimed(CallCtx& cx) { return condWait(cx, true); }
static int h_condsignal(CallCtx& cx)
{
    u64 c = cx.conc(0);
    std::vector<Thread*> w;
    for (Thread* t : E->threads)
        if (t->st == T_COND && t->waitOn == c && !t->signaled)
            w.push_back(t);
    if (!w.empty())
        w[w.size() > 1 ? choose(w.size(), "sched") : 0]->signaled = true;
    cx.ret(0);
    return H_DONE;
}
static int h_condbroadcast(CallCtx& cx)
{
    u64 c = cx.conc(0);
    for (Thread* t : E->threads)
        if (t->st == T_COND && t->waitOn == c)
            t->signaled = true;
    cx.ret(0);
    return H_DONE;
}
static int h_create(CallCtx& cx)
{
    u64 out = cx.conc(0), fn = cx.conc(2);
    Val a = cx.arg(3);
    Obj* o = E->find(fn);
    if (!o || o->kind != OK_FUNC)
        E->unsupported("pthread_create of a non-function");
    Thread* t = new Thread();
    t->id = (int)E->threads.size();
    if (opt.races) {
        E->raceMode = true;
        t->vc = E->cur->vc;
        vcTick(E->cur);
        vcTick(t);
    }
    E->threads.push_back(t);
    E->checkRange(out, 8, true);
    E->store(out, cv((u64)t->id + 1), 64);
    Thread* self = E->cur;
    E->cur = t;
    E->pushFrame(E->getFn((const Function*)o->ref), { a }, true);
    E->cur = self;
    cx.ret(0);
    advance(cx);
    E->schedPoint(false);
    return H_CTRL;
}
static int h_join(CallCtx& cx)
{
    u64 id = cx.conc(0) - 1;
    Thread* t = E->cur;
    t->st = T_RUN;
    if (id >= E->threads.size() || (int)id == t->id) {
        cx.ret(35); // EDEADLK
        return H_DONE;
    }
    Thread* o = E->threads[id];
    if (o->st == T_DONE) {
        if (opt.races)
            vcJoin(t->vc, o->vc);
        cx.ret(0);
        return H_DONE;
    }
    t->st = T_JOIN;
    t->waitOn = id;
    E->schedPoint(true);
    return H_CTRL;
}
static int h_self(CallCtx& cx)
{
    cx.ret((u64)E->cur->id + 1);
    return H_DONE;
}
static int h_equal(CallCtx& cx)
{
    cx.ret(cx.conc(0) == cx.conc(1));
    return H_DONE;
}
static int h_once(CallCtx& cx)
{
    u64 c = cx.conc(0), f = cx.conc(1);
    bool rm = E->raceMode;
    E->raceMode = false;
    E->checkRange(c, 4, true);
    u64 v = E->load(c, 32).c;
    E->store(c, cv(1), 32);
    E->raceMode = rm;
    cx.ret(0);
    if (v)
        return H_DONE;
    E->pushFrame(E->getFn((const Function*)E->objs[f >> 32].ref), {}, false);
    return H_CTRL;
}
static u64 g_nextKey = 1;
static int h_keycreate(CallCtx& cx)
{
    u64 p = cx.conc(0);
    E->checkRange(p, 4, true);
    E->store(p, cv(g_nextKey++), 32);
    cx.ret(0);
    return H_DONE;
}
static int h_setspecific(CallCtx& cx)
{
    E->cur->tls[cx.conc(0)] = cx.conc(1);
    cx.ret(0);
    return H_DONE;
}
static int h_getspecific(CallCtx& cx)
{
    auto it = E->cur->tls.find(cx.conc(0));
    cx.ret(it == E->cur->tls.end() ? 0 : it->second);
    return H_DONE;
}
static int h_sleep(CallCtx& cx) // another thread goes on
{
    cx.ret(0);
    advance(cx);
    if (E->threads.size() > 1)
        E->yieldTo();
    return H_CTRL;
}
static int h_yield(CallCtx& cx)
{
    advance(cx);
    if (E->threads.size() > 1)
        E->schedPoint(false);
    return H_CTRL;
}

// ---------------------------------------------------------------- symx API

static std::string nameArg(CallCtx& cx, unsigned i) { return E->cstr(cx.conc(i)); }

static int h_bytes(CallCtx& cx) // symx_bytes(void* p, size_t n, const char* name)
{
    u64 p = cx.conc(0), n = cx.conc(1);
    std::string nm = nameArg(cx, 2);
    InputRec r;
    r.name = nm;
    if (n) {
        E->checkRange(p, n, true);
        for (u64 i = 0; i < n; ++i) {
            Expr* v = mkVar(nm + "[" + std::to_string(i) + "]", 8, 0);
            r.bytes.push_back(Val { 0, v });
            E->store(p + i, Val { 0, v }, 8);
        }
    }
    E->inputs.push_back(r);
    return H_DONE;
}
static int h_fresh(CallCtx& cx) // symx_fresh(void* p, size_t n): auxiliary variables of a model, not inputs
{
    u64 p = cx.conc(0), n = cx.conc(1);
    E->checkRange(p, n, true);
    for (u64 i = 0; i < n; ++i)
        E->store(p + i, Val { 0, mkVar("aux", 8, 2) }, 8);
    return H_DONE;
}
static int h_choice(CallCtx& cx) // u64 symx_choice(u64 n, const char*)
{
    u64 n = cx.conc(0);
    std::string nm = nameArg(cx, 1);
    cx.ret(choose(n, nm.c_str()));
    return H_DONE;
}
static void assumeExpr(Expr* c)
{
    if (isTrue(c))
        return;
    if (isFalse(c))
        E->endPath("assume");
    evalNewEpoch();
    if (evalExpr(c, g_pc.model)) {
        pcAdd(c);
        return;
    }
    Model m;
    SatRes r = pcCheck(c, m);
    if (r == UNSAT)
        E->endPath("assume");
    if (r == UNKNOWN) {
        sh->inconclusive++;
        E->endPath("cut", "assumption undecided");
    }
    g_pc.model = m;
    pcAdd(c);
}
static int h_assume(CallCtx& cx)
{
    assumeExpr(nonzero(cx.arg(0), cx.ci->argW[0]));
    return H_DONE;
}
static void dumpSmt(Expr* neg, const char* expected)
{
    if (opt.smtDir.empty())
        return;
    u64 n = sh->smtDumped++;
    if (n >= opt.smtMax)
        return;
    std::vector<Expr*> cs = pcSlice(neg);
    cs.push_back(neg);
    std::string s = toSmt2(cs);
    std::string fn = opt.smtDir + "/q" + std::to_string(n) + "." + expected + ".smt2";
    FILE* f = fopen(fn.c_str(), "w");
    if (f) {
        fputs(s.c_str(), f);
        fclose(f);
    }
}
static int h_assert(CallCtx& cx) // symx_assert_(int cond, const char* msg)
{
    Val v = cx.arg(0);
    sh->asserts++;
    if (!v.e) {
        sh->assertsConst++;
        if (!v.c)
            E->violation("assert", nameArg(cx, 1));
        return H_DONE;
    }
    Expr* c = nonzero(v, cx.ci->argW[0]);
    if (isTrue(c)) {
        sh->assertsConst++;
        return H_DONE;
    }
    std::string msg = nameArg(cx, 1);
    if (isFalse(c))
        E->violation("assert", msg);
    if (pcImpliesSyntactically(c)) {
        sh->assertsSyn++;
        return H_DONE;
    }
    // each conjunct is decided on its own, with the part of the path condition it depends on
    std::vector<Expr*> parts, work { c };
    while (!work.empty()) {
        Expr* x = work.back();
        work.pop_back();
        if (x->k == K_AND) {
            work.push_back(x->b);
            work.push_back(x->a);
        } else
            parts.push_back(x);
    }
    for (Expr* x : parts) {
        if (isTrue(x) || pcImpliesSyntactically(x))
            continue;
        Expr* neg = mkNot(x);
        Model m;
        SatRes r = pcCheck(neg, m, true);
        sh->assertsSolver++;
        if (r == UNSAT) {
            dumpSmt(neg, "unsat");
            continue;
        }
        if (r == UNKNOWN) {
            sh->inconclusive++;
            continue;
        }
        E->report(x->undef ? "uninit-assert" : "assert", msg, m);
        assumeExpr(x);
    }
    return H_DONE;
}
static int h_concrete(CallCtx& cx)
{
    cx.ret(cx.conc(0));
    return H_DONE;
}
static int h_observe(CallCtx& cx) // symx_observe(const char*, const void*, size_t)
{
    ObsRec r;
    r.name = nameArg(cx, 0);
    u64 p = cx.conc(1), n = cx.conc(2);
    if (n) {
        E->checkRange(p, n, false);
        for (u64 i = 0; i < n; ++i)
            r.bytes.push_back(E->load(p + i, 8));
    }
    E->obs.push_back(r);
    return H_DONE;
}
static int h_reach(CallCtx& cx)
{
    E->reached.push_back(nameArg(cx, 0));
    return H_DONE;
}
static int h_param(CallCtx& cx)
{
    auto it = opt.params.find(nameArg(cx, 0));
    cx.ret(it == opt.params.end() ? cx.conc(1) : it->second);
    return H_DONE;
}
static int h_cut(CallCtx& cx) { E->endPath("cut", nameArg(cx, 0)); }
static int h_fail(CallCtx& cx) { E->violation("assert", nameArg(cx, 0)); }
static int h_end(CallCtx& cx) { E->endPath("ok"); }
static int h_unsupp(CallCtx& cx) { E->unsupported(nameArg(cx, 0)); }
static int h_bytesEq(CallCtx& cx) // int symx_eq(const void*, const void*, size_t): no forking
{
    u64 a = cx.conc(0), b = cx.conc(1), n = cx.conc(2);
    Expr* r = mkConst(1, 1);
    if (n) {
        E->checkRange(a, n, false);
        E->checkRange(b, n, false);
        for (u64 i = 0; i < n; ++i)
            r = mkAnd(r, mkEq(toE(E->load(a + i, 8), 8), toE(E->load(b + i, 8), 8)));
    }
    cx.ret(ev(mkZExt(r, 32)));
    return H_DONE;
}
static int h_isSym(CallCtx& cx)
{
    Val v = cx.arg(0);
    cx.ret(v.e && !isC(v.e));
    return H_DONE;
}
// is the value within [lo,hi] for every input on this path? (no fork, no assumption) 1/0
static int h_ite(CallCtx& cx) // u64 symx_ite(int c, u64 a, u64 b)
{
    Expr* c = nonzero(cx.arg(0), cx.ci->argW[0]);
    cx.ret(ev(mkIte(c, toE(cx.arg(1), 64), toE(cx.arg(2), 64))));
    return H_DONE;
}
static int h_liveHeap(CallCtx& cx)
{
    u64 n = 0;
    for (auto& o : E->objs)
        if (o.kind == OK_HEAP && o.alive && o.data)
            ++n;
    cx.ret(n);
    return H_DONE;
}
static int h_memUsed(CallCtx& cx)
{
    cx.ret(E->memUsed);
    return H_DONE;
}
static int h_insts(CallCtx& cx)
{
    cx.ret(E->insts);
    return H_DONE;
}
static int h_tid(CallCtx& cx)
{
    cx.ret(E->cur->id);
    return H_DONE;
}
static int h_heldLocks(CallCtx& cx)
{
    cx.ret(E->cur->held.size());
    return H_DONE;
}
static int h_racesOff(CallCtx& cx) // symx_norace(int on)
{
    E->raceMode = opt.races && E->threads.size() > 1 && cx.conc(0) == 0;
    return H_DONE;
}
static int h_nopreempt(CallCtx& cx) // symx_nopreempt(int on)
{
    E->noPreempt = cx.conc(0) != 0;
    return H_DONE;
}
static int h_isspace(CallCtx& cx)
{
    Expr* c = toE(cx.arg(0), 32);
    Expr* r = mkOr(mkEq(c, mkConst(32, 32)), mkBin(K_ULT, mkBin(K_SUB, c, mkConst(9, 32)), mkConst(5, 32)));
    cx.ret(ev(mkZExt(r, 32)));
    return H_DONE;
}
static Expr* rng(Expr* c, char a, char b) { return mkBin(K_ULE, mkBin(K_SUB, c, mkConst((u8)a, 32)), mkConst((u8)(b - a), 32)); }
template <int WHAT>
static int h_ctype(CallCtx& cx)
{
    Expr* c = toE(cx.arg(0), 32);
    Expr* r = mkConst(0, 1);
    if (WHAT & 1)
        r = mkOr(r, rng(c, '0', '9'));
    if (WHAT & 2)
        r = mkOr(r, mkOr(rng(c, 'a', 'z'), rng(c, 'A', 'Z')));
    if (WHAT & 4)
        r = mkOr(r, mkOr(rng(c, 'a', 'f'), rng(c, 'A', 'F')));
    if (WHAT & 8)
        r = mkOr(r, rng(c, 'A', 'Z'));
    if (WHAT & 16)
        r = mkOr(r, rng(c, 'a', 'z'));
    cx.ret(ev(mkZExt(r, 32)));
    return H_DONE;
}
static int h_toupper(CallCtx& cx)
{
    Expr* c = toE(cx.arg(0), 32);
    cx.ret(ev(mkIte(rng(c, 'a', 'z'), mkBin(K_SUB, c, mkConst(32, 32)), c)));
    return H_DONE;
}
static int h_tolower(CallCtx& cx)
{
    Expr* c = toE(cx.arg(0), 32);
    cx.ret(ev(mkIte(rng(c, 'A', 'Z'), mkBin(K_ADD, c, mkConst(32, 32)), c)));
    return H_DONE;
}

static void registerHandlers()
{
    auto& H = E->handlers;
    H["memcpy"] = H["memmove"] = h_memcpy;
    H["memset"] = h_memset;
    H["memcmp"] = H["bcmp"] = h_memcmp;
    H["strlen"] = h_strlen;
    H["memchr"] = h_memchr;
    H["strcmp"] = h_strcmp;
    H["strncmp"] = h_strncmp;
    H["strchr"] = h_strchr;
    H["malloc"] = h_malloc;
    H["calloc"] = h_calloc;
    H["realloc"] = h_realloc;
    H["free"] = h_free<0>;
    H["aligned_alloc"] = h_memalign;
    H["posix_memalign"] = h_posixmemalign;
    H["_Znwm"] = h_new<1>;
    H["_Znam"] = h_new<2>;
    H["_ZnwmRKSt9nothrow_t"] = h_newnothrow;
    H["_ZdlPv"] = H["_ZdlPvm"] = H["_ZdlPvRKSt9nothrow_t"] = h_free<1>;
    H["_ZdaPv"] = H["_ZdaPvm"] = h_free<2>;

    H["__cxa_allocate_exception"] = h_allocexc;
    H["__cxa_free_exception"] = h_freeexc;
    H["__cxa_throw"] = h_throw;
    H["__cxa_begin_catch"] = h_begincatch;
    H["__cxa_end_catch"] = h_endcatch;
    H["__cxa_rethrow"] = h_rethrow;
    H["__cxa_get_exception_ptr"] = h_getexcptr;
    H["_ZSt19uncaught_exceptionsv"] = h_uncaught;
    H["_ZSt18uncaught_exceptionv"] = h_uncaughtb;
    H["__cxa_guard_acquire"] = h_guardacq;
    H["__cxa_guard_release"] = h_guardrel;
    H["__cxa_guard_abort"] = h_nop;
    H["__cxa_atexit"] = h_zero;
    H["atexit"] = h_zero;
    H["__cxa_thread_atexit"] = h_zero;
    H["__cxa_pure_virtual"] = h_purevirt;
    H["__dynamic_cast"] = h_dyncast;
    H["__cxa_bad_cast"] = h_badcast;
    H["_ZSt9terminatev"] = h_terminate;
    H["__clang_call_terminate"] = h_terminate;
    H["abort"] = h_abort;
    H["__stack_chk_fail"] = h_stackchk;
    H["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = h_assertfail;
    H["__assert_fail"] = h_cassertfail;

    H["__errno_location"] = h_errno;
    H["clock_gettime"] = h_clock_gettime;
    H["gettimeofday"] = h_gettimeofday;
    H["symx_vsnprintf"] = h_vsnprintf;
    H["symx_certain_end"] = h_certainend;
    H["symx_va_check"] = h_vacheck;
    H["symx_readfmt"] = h_readfmt;
    H["fflush"] = h_zero;
    H["isspace"] = h_isspace;
    H["isdigit"] = h_ctype<1>;
    H["isalpha"] = h_ctype<2>;
    H["isalnum"] = h_ctype<3>;
    H["isxdigit"] = h_ctype<5>;
    H["isupper"] = h_ctype<8>;
    H["islower"] = h_ctype<16>;
    H["toupper"] = h_toupper;
    H["tolower"] = h_tolower;

    H["pthread_mutex_init"] = h_mutexinit;
    H["pthread_mutexattr_init"] = h_zero;
    H["pthread_mutexattr_settype"] = h_attrset;
    H["pthread_mutexattr_destroy"] = h_zero;
    H["pthread_mutex_destroy"] = h_mutexdestroy;
    H["pthread_mutex_lock"] = h_lock;
    H["pthread_mutex_trylock"] = h_trylock;
    H["pthread_mutex_unlock"] = h_unlock;
    H["pthread_cond_init"] = H["pthread_cond_destroy"] = h_zero;
    H["pthread_condattr_init"] = H["pthread_condattr_setclock"] = H["pthread_condattr_destroy"] = h_zero;
    H["pthread_cond_wait"] = h_condwait;
    H["pthread_cond_timedwait"] = H["pthread_cond_clockwait"] = h_condtimed;
    H["pthread_cond_signal"] = h_condsignal;
    H["pthread_cond_broadcast"] = h_condbroadcast;
    H["pthread_create"] = h_create;
    H["pthread_join"] = h_join;
    H["pthread_detach"] = h_zero;
    H["pthread_self"] = h_self;
    H["pthread_equal"] = h_equal;
    H["pthread_once"] = h_once;
    H["pthread_key_create"] = H["__pthread_key_create"] = h_keycreate;
    H["pthread_key_delete"] = h_zero;
    H["pthread_setspecific"] = h_setspecific;
    H["pthread_getspecific"] = h_getspecific;
    H["pthread_attr_init"] = H["pthread_attr_destroy"] = H["pthread_attr_setstacksize"] = h_zero;
    for (const char* n : { "sched_yield", "nanosleep", "clock_nanosleep", "usleep", "sleep" })
        H[n] = h_sleep;

    H["symx_bytes"] = h_bytes;
    H["symx_fresh"] = h_fresh;
    H["symx_choice"] = h_choice;
    H["symx_assume"] = h_assume;
    H["symx_assert_"] = h_assert;
    H["symx_concrete"] = h_concrete;
    H["symx_observe"] = h_observe;
    H["symx_reach"] = h_reach;
    H["symx_param"] = h_param;
    H["symx_cut"] = h_cut;
    H["symx_fail"] = h_fail;
    H["symx_end"] = h_end;
    H["symx_unsupported"] = h_unsupp;
    H["symx_eq"] = h_bytesEq;
    H["symx_is_symbolic"] = h_isSym;
    H["symx_ite"] = h_ite;
    H["symx_live_blocks"] = h_liveHeap;
    H["symx_mem_used"] = h_memUsed;
    H["symx_insts"] = h_insts;
    H["symx_tid"] = h_tid;
    H["symx_held_locks"] = h_heldLocks;
    H["symx_norace"] = h_racesOff;
    H["symx_nopreempt"] = h_nopreempt;
    H["symx_yield"] = h_yield;
    H["symx_native"] = h_zero;
}
