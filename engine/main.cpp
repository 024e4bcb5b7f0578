// symx: symbolic execution of LLVM IR with process forking for path exploration.
#include "arena.h"
#include "engine.h"

#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace llvm;

// ------------------------------------------------------------------ shared

struct Shared {
    std::atomic<int> slots;
    std::atomic<int> live;
    std::atomic<int> stop; // 1: enough violations, 2: deadline, 3: fatal error
    std::atomic<u64> paths, ok, assumed, cut, killed, violations, errors, insts, forks, inconclusive, narrowed;
    std::atomic<u64> asserts, assertsConst, assertsSyn, assertsSolver;
    std::atomic<u64> queries, qsat, qunsat, qunknown, qdomain, qmodel, qcached, qus, qmaxus;
    std::atomic<u64> samples, maxDepth, maxInsts, schedPoints, smtDumped, branches;
    u8 fnSeen[1 << 17];
};
static Shared* sh;

struct InputRec {
    std::string name;
    std::vector<Val> bytes; // 8-bit values
};
struct ObsRec {
    std::string name;
    std::vector<Val> bytes;
};

struct Opts {
    std::string bc, entry, out;
    double time = 600;
    int jobs = 8;
    u64 maxInsts = 40000000;
    u64 maxMem = 1ull << 30;
    u32 maxFrames = 4000;
    int maxViol = 3;
    u64 samples = 40;
    std::string repo = "/repo/src";
    std::string smtDir;
    u64 smtMax = 0;
    bool trace = false;
    bool stopFirst = true;
    int preempt = 1000;
    bool races = false;
    std::map<std::string, u64> params;
};
static Opts opt;

struct Engine {
    LLVMContext& C;
    Engine(LLVMContext& c) : C(c) {}
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    std::vector<Obj> objs; // index = address >> 32
    std::unordered_map<const GlobalValue*, u64> gaddr;
    std::unordered_map<const Function*, FnInfo*> fns;
    std::vector<FnInfo*> fnList;
    std::unordered_map<u64, const GlobalVariable*> gvAt;
    std::unordered_map<std::string, Handler> handlers;
    std::vector<Thread*> threads;
    Thread* cur = nullptr;
    std::map<u64, Exc> excs;
    std::unordered_map<u64, u32> typeIds; // typeinfo name hash -> id
    std::map<std::string, u32> typeIdByName;
    struct Mutex {
        int owner = -1;
        int count = 0;
        std::vector<u32> vc;
    };
    std::map<u64, Mutex> mutexes;
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    std::vector<std::string> reached;
    std::vector<std::string> schedule;
    u64 insts = 0;
    u64 memUsed = 0;
    u32 depth = 0;
    int preemptions = 0;
    bool noPreempt = false;
    u64 errnoAddr = 0;
    std::map<u64, int> attrType;
    int logFd = -1;
    bool inEntry = false;
    u32 threadIdCounter = 0;
    u64 undefCount = 0;
    bool raceMode = false;

    // ---- memory
    u64 alloc(u64 size, ObjKind k, const void* ref, u8 how = 0);
    void freeObj(u64 addr, const char* what);
    Obj* find(u64 addr) { u64 id = addr >> 32; return id < objs.size() ? &objs[id] : nullptr; }
    Val load(u64 addr, u32 bits);
    void store(u64 addr, Val v, u32 bits);
    void checkRange(u64 addr, u64 n, bool write);
    u64 resolve(Val p, u64 n, bool write);
    Expr* byteAt(Obj& o, u64 addr, u64 off);
    void ensureMask(Obj& o);
    void memcopy(u64 d, u64 s, u64 n);
    void memfill(u64 d, Val v, u64 n);
    void raceAccess(u64 addr, u64 n, bool write);
    std::map<u64, std::pair<std::pair<int, u32>, std::map<int, u32>>> raceState; // addr -> (last write, reads)

    // ---- control
    bool branch(Expr* c);
    u64 concretize(Val v, u32 w, u64 limit = 0);
    [[noreturn]] void endPath(const char* status, const std::string& detail = "");
    void report(const char* kind, const std::string& msg, const Model& m);
    [[noreturn]] void violation(const char* kind, const std::string& msg);
    bool forkTake(); // true in child
    void checkDeadline();
    [[noreturn]] void unsupported(const std::string& what);

    // ---- program
    FnInfo* getFn(const Function* F);
    void lower(FnInfo* f);
    Val constVal(const Constant* c, std::vector<Val>* flat = nullptr);
    void flatConst(const Constant* c, std::vector<Val>& out);
    void flatTypes(Type* t, std::vector<std::pair<u32, u64>>& out, u64 off = 0);
    void initGlobals();
    void initMem(u64 addr, const Constant* c);
    void pushFrame(FnInfo* f, const std::vector<Val>& args, bool base);
    void popFrame();
    void run(size_t stopDepthThread0);
    void takeEdge(Frame& fr, Edge& e);
    void doCall(Op& op);
    void doRet(const std::vector<Val>& vals);
    void unwind();
    bool canCatch(u64 want, u64 have, u64 obj, u64& adj);
    bool derived(const GlobalVariable* have, const GlobalVariable* want, u64 obj, u64& adj, int depth = 0);
    u32 typeId(u64 ti);
    std::string where();
    std::string backtrace(int n = 14);
    std::string tiName(u64 ti);
    std::string cstr(u64 a);

    // ---- threads
    bool enabled(Thread* t);
    bool yieldTo(); // the next thread that can run goes on; false: there is none
    bool atomicPoint(u64 addr, u16 order, bool writes); // true: another thread goes on first
    bool schedPoint(bool mustSwitch, const char* name = "sched"); // true if the current thread changed
    void switchTo(Thread* t) { cur = t; }
    void threadExit();
};
static Engine* E;

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static double t0;

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r;
}

static void logLine(const std::string& s)
{
    std::string t = s + "\n";
    ssize_t r = write(E->logFd, t.data(), t.size());
    (void)r;
}

// ------------------------------------------------------------------ process forking

static u64 g_instMark = 0; // E->insts up to here are already counted
static double g_lastSplit = 0;
static void maxTo(std::atomic<u64>& a, u64 v)
{
    u64 o = a;
    while (v > o && !a.compare_exchange_weak(o, v))
        ;
}
static void flushStats()
{
    sh->insts += E->insts - g_instMark;
    g_instMark = E->insts;
    maxTo(sh->maxInsts, E->insts);
    maxTo(sh->maxDepth, E->depth);
    sh->queries += g_sstats.queries;
    sh->qsat += g_sstats.sat;
    sh->qunsat += g_sstats.unsat;
    sh->qunknown += g_sstats.unknown;
    sh->qdomain += g_sstats.domain;
    sh->qmodel += g_sstats.modelHits;
    sh->qcached += g_sstats.cached;
    sh->qus += g_sstats.us;
    maxTo(sh->qmaxus, g_sstats.maxUs);
    g_sstats = SolverStats();
}

[[noreturn]] static void processExit()
{
    flushStats();
    sh->slots++;
    sh->live--;
    _exit(0);
}

static bool wantSplit()
{
    if (sh->slots <= 0 || now() - g_lastSplit < 0.004)
        return false;
    int s = sh->slots;
    while (s > 0)
        if (sh->slots.compare_exchange_weak(s, s - 1)) {
            sh->live++;
            flushStats();
            g_lastSplit = now();
            return true;
        }
    return false;
}
static void inChild()
{
    g_sstats = SolverStats();
    g_instMark = E->insts;
    g_lastSplit = now();
}
static void switched() { g_instMark = E->insts; }

bool Engine::forkTake()
{
    checkDeadline();
    ++depth;
    sh->forks++;
    return snapFork();
}

void Engine::checkDeadline()
{
    if (!sh->stop && now() - t0 > opt.time)
        sh->stop = 2;
    if (sh->stop) {
        sh->killed += 1 + snapPending();
        processExit();
    }
}

// ------------------------------------------------------------------ reporting

std::string Engine::where()
{
    if (!cur || cur->frames.empty())
        return "?";
    Frame& f = cur->frames.back();
    const Instruction* I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
    std::string r = f.f->name;
    if (I)
        if (const DebugLoc& d = I->getDebugLoc())
            r += " " + d->getFilename().str() + ":" + std::to_string(d.getLine());
    return r;
}

std::string Engine::backtrace(int n)
{
    std::string r;
    if (!cur)
        return r;
    for (int i = (int)cur->frames.size() - 1; i >= 0 && n > 0; --i, --n) {
        Frame& f = cur->frames[i];
        const Instruction* I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        r += "#" + std::to_string(cur->frames.size() - 1 - i) + " " + f.f->name;
        if (I)
            if (DILocation* d = I->getDebugLoc().get()) {
                r += " " + d->getFilename().str() + ":" + std::to_string(d->getLine());
                for (DILocation* x = d->getInlinedAt(); x; x = x->getInlinedAt())
                    r += " < " + x->getFilename().str() + ":" + std::to_string(x->getLine());
            }
        r += "\n";
    }
    return r;
}

static std::string hexOf(const std::vector<Val>& bytes, const Model& m)
{
    std::string r;
    char b[4];
    for (const Val& v : bytes) {
        u8 x = v.e ? (u8)evalExpr(v.e, m) : (u8)v.c;
        snprintf(b, sizeof b, "%02x", x);
        r += b;
    }
    return r;
}

static std::string inputsJson(const Model& m)
{
    evalNewEpoch();
    std::string r = "[";
    bool first = true;
    for (auto& i : E->inputs) {
        if (!first)
            r += ",";
        first = false;
        r += "[\"" + jesc(i.name) + "\",\"" + hexOf(i.bytes, m) + "\"]";
    }
    return r + "]";
}

static std::string obsJson(const Model& m)
{
    std::string r = "[";
    bool first = true;
    for (auto& i : E->obs) {
        bool und = false;
        for (auto& b : i.bytes)
            if (b.e && b.e->undef)
                und = true;
        if (!first)
            r += ",";
        first = false;
        r += "[\"" + jesc(i.name) + "\",\"" + (und ? std::string("??") : hexOf(i.bytes, m)) + "\"]";
    }
    return r + "]";
}

void Engine::report(const char* kind, const std::string& msg, const Model& m)
{
    u64 n = ++sh->violations;
    if (n <= 20)
        logLine(std::string("{\"t\":\"violation\",\"kind\":\"") + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\""
            + jesc(where()) + "\",\"trace\":\"" + jesc(backtrace()) + "\",\"inputs\":" + inputsJson(m) + "}");
    if ((int)n >= opt.maxViol)
        sh->stop = 1;
}

void Engine::violation(const char* kind, const std::string& msg)
{
    report(kind, msg, g_pc.model);
    endPath("violation", msg);
}

void Engine::endPath(const char* status, const std::string& detail)
{
    sh->paths++;
    bool ok = !strcmp(status, "ok");
    if (ok)
        sh->ok++;
    else if (!strcmp(status, "assume"))
        sh->assumed++;
    else if (!strcmp(status, "cut"))
        sh->cut++;
    u64 n = sh->samples;
    bool sample = false;
    if (ok) {
        n = sh->samples++;
        // the first ones, then ever sparser
        sample = n < opt.samples || (n & (n - 1)) == 0 || (n % 997) == 0;
    }
    if (sample || strcmp(status, "ok")) {
        if (strcmp(status, "assume")) {
            std::string l = std::string("{\"t\":\"path\",\"status\":\"") + status + "\",\"detail\":\"" + jesc(detail)
                + "\",\"insts\":" + std::to_string(insts) + ",\"depth\":" + std::to_string(depth) + ",\"inputs\":"
                + inputsJson(g_pc.model) + ",\"obs\":" + obsJson(g_pc.model) + "}";
            if (ok || !strcmp(status, "error"))
                logLine(l);
        }
    }
    if (ok) {
        std::string l = "{\"t\":\"reach\",\"l\":[";
        bool first = true;
        std::map<std::string, int> seen;
        for (auto& r : reached)
            if (!seen[r]++) {
                l += (first ? "\"" : ",\"") + jesc(r) + "\"";
                first = false;
            }
        l += "]}";
        // only log label sets once per process-visible change: cheap dedupe through a hash table in shared memory
        u32 h = 2166136261u;
        for (char c : l)
            h = (h ^ (u8)c) * 16777619u;
        static_assert(sizeof(sh->fnSeen) >= (1 << 17), "");
        u32 slot = (1 << 16) + (h & 0xffff);
        if (!sh->fnSeen[slot]) {
            sh->fnSeen[slot] = 1;
            logLine(l);
        }
    }
    flushStats();
    if (sh->stop)
        checkDeadline();
    snapEnd();
}

void Engine::unsupported(const std::string& what)
{
    u64 n = ++sh->errors;
    if (n <= 10)
        logLine("{\"t\":\"error\",\"msg\":\"" + jesc(what) + "\",\"where\":\"" + jesc(where()) + "\",\"trace\":\""
            + jesc(backtrace()) + "\"}");
    sh->stop = 3;
    endPath("error", what);
}

// ------------------------------------------------------------------ branching

static bool undefMatters(Expr* c)
{
    // do two runs that differ only in uninitialised memory disagree on c?
    std::vector<Expr*> cs = pcSlice(c);
    std::vector<Expr*> map;
    std::vector<Expr*> all = cs;
    for (Expr* x : cs)
        if (x->undef)
            all.push_back(substUndef(x, map));
    Expr* c2 = substUndef(c, map);
    all.push_back(c);
    all.push_back(mkNot(c2));
    Model m = g_pc.model;
    SatRes r = checkSet(all, m);
    if (r == SAT) {
        g_pc.model = m;
        return true;
    }
    return false;
}

bool Engine::branch(Expr* c)
{
    if (isC(c))
        return c->val != 0;
    sh->branches++;
    evalNewEpoch();
    bool b = evalExpr(c, g_pc.model) != 0;
    Expr* other = b ? mkNot(c) : c;
    Expr* mine = b ? c : mkNot(c);
    if (pcImpliesSyntactically(mine))
        return b;
    Model m;
    SatRes r = pcCheck(other, m);
    if (r == UNSAT) {
        return b;
    }
    if (r == UNKNOWN) {
        sh->inconclusive++;
        pcAdd(mine);
        return b;
    }
    if (c->undef && undefMatters(c))
        violation("uninit", "control flow depends on uninitialised memory");
    if (forkTake()) {
        g_pc.model = m;
        pcAdd(other);
        return !b;
    }
    pcAdd(mine);
    return b;
}

u64 Engine::concretize(Val v, u32 w, u64 limit)
{
    if (!v.e)
        return v.c;
    u64 n = 0;
    for (;;) {
        evalNewEpoch();
        u64 x = (u64)evalExpr(v.e, g_pc.model);
        Expr* eq = mkEq(v.e, mkConst(x, w));
        if (isTrue(eq))
            return x;
        if (isFalse(eq))
            unsupported("concretize: model disagrees with itself");
        if (branch(eq))
            return x;
        // this side: another value; the model satisfies e != x
        if (limit && ++n >= limit) {
            sh->narrowed++;
            endPath("cut", "value enumeration limit");
        }
    }
}

// ------------------------------------------------------------------ memory

u64 Engine::alloc(u64 size, ObjKind k, const void* ref, u8 how)
{
    objs.emplace_back();
    Obj& o = objs.back();
    o.size = size;
    o.kind = k;
    o.alive = true;
    o.ref = ref;
    o.how = how;
    if (k == OK_HEAP) {
        memUsed += size;
        if (memUsed > opt.maxMem)
            violation("memory-exhaustion", "allocated more than " + std::to_string(opt.maxMem) + " bytes");
    }
    o.data = (u8*)xzalloc(size ? size : 1);
    if (!o.data)
        unsupported("engine out of memory");
    return (u64)(objs.size() - 1) << 32;
}

static void dropStorage(Obj& o)
{
    xfree(o.data);
    xfree(o.sym);
    xfree(o.mask);
    o.data = nullptr;
    o.sym = nullptr;
    o.mask = nullptr;
}

void Engine::freeObj(u64 addr, const char* what)
{
    if (!addr)
        return;
    Obj* o = find(addr);
    if (!o || (addr >> 32) == 0 || o->kind != OK_HEAP)
        violation("bad-free", std::string(what) + " of a pointer that was not allocated");
    if ((addr & 0xffffffff) != 0)
        violation("bad-free", std::string(what) + " of a pointer into the middle of a block");
    if (!o->alive)
        violation("double-free", std::string(what) + " of a block already freed");
    o->alive = false;
    memUsed -= o->size;
    dropStorage(*o);
}

void Engine::checkRange(u64 addr, u64 n, bool write)
{
    u64 id = addr >> 32, off = addr & 0xffffffff;
    if (id == 0 || id >= objs.size())
        violation("memory", std::string(write ? "write" : "read") + (addr < 65536 ? " through a null pointer" : " through a wild pointer"));
    Obj& o = objs[id];
    if (!o.alive)
        violation("memory", std::string("use after ") + (o.kind == OK_STACK ? "return" : "free") + " (" + (write ? "write" : "read") + ")");
    if (off > o.size || n > o.size - off)
        violation("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset "
                + std::to_string((off > 0x7fffffff && o.size < 0x7fffffff) ? (i64)(off) - (1ll << 32) : (i64)off) + " of a "
                + std::to_string(o.size) + "-byte block");
    if (write && o.ro)
        violation("memory", "write to constant memory");
}

u64 Engine::resolve(Val p, u64 n, bool write)
{
    if (!p.e) {
        checkRange(p.c, n, write);
        return p.c;
    }
    for (;;) {
        evalNewEpoch();
        u64 v = (u64)evalExpr(p.e, g_pc.model);
        u64 id = v >> 32, off = v & 0xffffffff;
        if (id == 0 || id >= objs.size() || !objs[id].alive || off > objs[id].size || n > objs[id].size - off
            || (write && objs[id].ro)) {
            checkRange(v, n, write); // reports with this model
        }
        u64 base = id << 32;
        Expr* inb = mkBin(K_ULE, mkBin(K_SUB, p.e, mkConst(base, 64)), mkConst(objs[id].size - n, 64));
        if (!branch(inb))
            continue; // other side: a different object or an error
        return concretize(p, 64);
    }
}

void Engine::ensureMask(Obj& o)
{
    if (o.mask)
        return;
    o.mask = (u8*)xalloc(o.size ? o.size : 1);
    memset(o.mask, o.init == 1 ? 1 : 0, o.size);
    o.init = 2;
}

Expr* Engine::byteAt(Obj& o, u64 addr, u64 off)
{
    if (o.sym && o.sym[off])
        return o.sym[off];
    bool ini = o.init == 1 || (o.init == 2 && o.mask[off]);
    if (ini)
        return mkConst(o.data[off], 8);
    Expr* v = mkVar("uninit" + std::to_string(undefCount++) + "@" + where(), 8, 1);
    if (!o.sym)
        o.sym = (Expr**)xzalloc(o.size * sizeof(Expr*));
    o.sym[off] = v;
    return v;
}

Val Engine::load(u64 addr, u32 bits)
{
    u32 n = (bits + 7) / 8;
    Obj& o = objs[addr >> 32];
    u64 off = addr & 0xffffffff;
    if (raceMode)
        raceAccess(addr, n, false);
    bool fast = o.init == 1 || (o.init == 2 && [&] { for (u32 i = 0; i < n; ++i) if (!o.mask[off + i]) return false; return true; }());
    if (fast && o.sym)
        for (u32 i = 0; i < n; ++i)
            if (o.sym[off + i]) {
                fast = false;
                break;
            }
    if (fast && n <= 8) {
        u64 v = 0;
        memcpy(&v, o.data + off, n);
        return cv(v & mask64(bits));
    }
    Expr* e = byteAt(o, addr, off);
    for (u32 i = 1; i < n; ++i)
        e = mkConcat(byteAt(o, addr, off + i), e);
    if (bits != n * 8)
        e = mkExtract(e, 0, bits);
    if (bits > 64)
        return Val { 0, e };
    return ev(e);
}

void Engine::store(u64 addr, Val v, u32 bits)
{
    u32 n = (bits + 7) / 8;
    Obj& o = objs[addr >> 32];
    u64 off = addr & 0xffffffff;
    if (raceMode)
        raceAccess(addr, n, true);
    if (o.init != 1) {
        if (o.init == 0 && n == o.size)
            o.init = 1;
        else {
            ensureMask(o);
            memset(o.mask + off, 1, n);
        }
    }
    if (!v.e && n <= 8) {
        memcpy(o.data + off, &v.c, n);
        if (o.sym)
            for (u32 i = 0; i < n; ++i)
                o.sym[off + i] = nullptr;
        return;
    }
    Expr* e = toE(v, bits);
    if (bits != n * 8)
        e = mkZExt(e, n * 8);
    for (u32 i = 0; i < n; ++i) {
        Expr* b = mkExtract(e, 8 * i, 8);
        if (isC(b)) {
            o.data[off + i] = (u8)b->val;
            if (o.sym)
                o.sym[off + i] = nullptr;
        } else {
            if (!o.sym)
                o.sym = (Expr**)xzalloc(o.size * sizeof(Expr*));
            o.sym[off + i] = b;
        }
    }
}

void Engine::memcopy(u64 d, u64 s, u64 n)
{
    if (!n)
        return;
    checkRange(s, n, false);
    checkRange(d, n, true);
    if (raceMode) {
        raceAccess(s, n, false);
        raceAccess(d, n, true);
    }
    Obj& so = objs[s >> 32];
    Obj& dobj = objs[d >> 32];
    u64 so_ = s & 0xffffffff, do_ = d & 0xffffffff;
    memmove(dobj.data + do_, so.data + so_, n);
    // symbolic bytes
    if (so.sym || dobj.sym) {
        if (!dobj.sym) {
            bool any = false;
            for (u64 i = 0; i < n && !any; ++i)
                any = so.sym[so_ + i] != nullptr;
            if (any)
                dobj.sym = (Expr**)xzalloc(dobj.size * sizeof(Expr*));
        }
        if (dobj.sym) {
            if (so.sym)
                memmove(dobj.sym + do_, so.sym + so_, n * sizeof(Expr*));
            else
                memset(dobj.sym + do_, 0, n * sizeof(Expr*));
        }
    }
    if (so.init == 1 && dobj.init == 1)
        return;
    if (so.init == 1 && n == dobj.size && dobj.init == 0) {
        dobj.init = 1;
        return;
    }
    ensureMask(dobj);
    if (so.init == 2)
        memmove(dobj.mask + do_, so.mask + so_, n);
    else
        memset(dobj.mask + do_, so.init == 1 ? 1 : 0, n);
    if (so.sym) // lazily created variables of uninitialised bytes count as their contents
        for (u64 i = 0; i < n; ++i)
            if (dobj.sym && dobj.sym[do_ + i])
                dobj.mask[do_ + i] = 1;
}

void Engine::memfill(u64 d, Val v, u64 n)
{
    if (!n)
        return;
    checkRange(d, n, true);
    if (raceMode)
        raceAccess(d, n, true);
    Obj& o = objs[d >> 32];
    u64 off = d & 0xffffffff;
    if (o.init != 1) {
        if (o.init == 0 && n == o.size)
            o.init = 1;
        else {
            ensureMask(o);
            memset(o.mask + off, 1, n);
        }
    }
    if (!v.e) {
        memset(o.data + off, (u8)v.c, n);
        if (o.sym)
            memset(o.sym + off, 0, n * sizeof(Expr*));
        return;
    }
    if (!o.sym)
        o.sym = (Expr**)xzalloc(o.size * sizeof(Expr*));
    for (u64 i = 0; i < n; ++i)
        o.sym[off + i] = v.e;
}

std::string Engine::cstr(u64 a)
{
    std::string r;
    for (;; ++a) {
        checkRange(a, 1, false);
        Val v = load(a, 8);
        u64 c = v.e ? concretize(v, 8) : v.c;
        if (!c)
            return r;
        r += (char)c;
    }
}

// atomic accesses do not race; acquire and release orders connect the threads
static u16 atomicOrder(AtomicOrdering o)
{
    return o == AtomicOrdering::NotAtomic ? 0 : o == AtomicOrdering::SequentiallyConsistent ? 3 : isAcquireOrStronger(o) || isReleaseOrStronger(o) ? 2 : 1;
}
static void vcJoin(std::vector<u32>& a, const std::vector<u32>& b);
static void vcTick(Thread* t);
struct AtomicScope {
    Engine& E;
    u16 order;
    bool rm;
    AtomicScope(Engine& e, u64 addr, u16 o) : E(e), order(o), rm(e.raceMode)
    {
        if (!order || !rm)
            return;
        E.raceMode = false;
        if (order >= 2 && E.threads.size() > 1) {
            auto& m = E.mutexes[addr];
            vcJoin(E.cur->vc, m.vc);
            vcJoin(m.vc, E.cur->vc);
            vcTick(E.cur);
        }
    }
    ~AtomicScope() { E.raceMode = rm; }
};
void Engine::raceAccess(u64 addr, u64 n, bool write)
{
    if (threads.size() < 2 || !cur || cur->vc.empty())
        return;
    Obj& o = objs[addr >> 32];
    if (o.kind == OK_FUNC || o.ro)
        return;
    for (u64 a = addr; a < addr + n; ++a) {
        auto& s = raceState[a];
        int t = cur->id;
        auto hb = [&](int u, u32 clk) { return u == t || ((size_t)u < cur->vc.size() && cur->vc[u] >= clk); };
        if (s.first.second && !hb(s.first.first, s.first.second))
            violation("race", std::string("data race: ") + (write ? "write" : "read") + " conflicts with an unordered write by thread "
                    + std::to_string(s.first.first));
        if (write) {
            for (auto& r : s.second)
                if (!hb(r.first, r.second))
                    violation("race", "data race: write conflicts with an unordered read by thread " + std::to_string(r.first));
            s.first = { t, cur->vc[t] };
            s.second.clear();
        } else
            s.second[t] = cur->vc[t];
    }
}

// ------------------------------------------------------------------ constants, globals

void Engine::flatTypes(Type* t, std::vector<std::pair<u32, u64>>& out, u64 off)
{
    if (t->isVoidTy())
        return;
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            flatTypes(st->getElementType(i), out, off + (u64)sl->getElementOffset(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); ++i)
            flatTypes(at->getElementType(), out, off + i * es);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeAllocSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); ++i)
            flatTypes(vt->getElementType(), out, off + i * es);
        return;
    }
    out.push_back({ (u32)DL->getTypeSizeInBits(t), off });
}

static APInt apOf(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c))
        return ci->getValue();
    return cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt();
}

void Engine::flatConst(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        u64 n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements()
                                                                               : cast<FixedVectorType>(t)->getNumElements();
        for (u64 i = 0; i < n; ++i)
            flatConst(c->getAggregateElement((unsigned)i), out);
        return;
    }
    u32 w = (u32)DL->getTypeSizeInBits(t);
    if (isa<ConstantInt>(c) || isa<ConstantFP>(c)) {
        APInt a = apOf(c);
        if (w > 64) {
            u128 v = a.getRawData()[0];
            if (a.getNumWords() > 1)
                v |= (u128)a.getRawData()[1] << 64;
            out.push_back(Val { 0, mkConst(v, w) });
        } else
            out.push_back(cv(a.getZExtValue()));
        return;
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (w > 64)
            out.push_back(Val { 0, mkConst(0, w) });
        else
            out.push_back(cv(0));
        return;
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) {
        flatConst(ga->getAliasee(), out);
        return;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv);
        if (it == gaddr.end())
            unsupported("no address for global " + gv->getName().str());
        out.push_back(cv(it->second));
        return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        auto op = [&](unsigned i) { std::vector<Val> v; flatConst(ce->getOperand(i), v); return v[0].c; };
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
                unsupported("gep constant");
            out.push_back(cv(op(0) + off.getSExtValue()));
            return;
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast:
            out.push_back(cv(op(0) & mask64(w)));
            return;
        case Instruction::Trunc:
            out.push_back(cv(op(0) & mask64(w)));
            return;
        case Instruction::Sub:
            out.push_back(cv((op(0) - op(1)) & mask64(w)));
            return;
        case Instruction::Add:
            out.push_back(cv((op(0) + op(1)) & mask64(w)));
            return;
        case Instruction::ICmp: {
            u64 a = op(0), b = op(1);
            out.push_back(cv(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b));
            return;
        }
        default:
            break;
        }
        unsupported(std::string("constant expression ") + ce->getOpcodeName());
    }
    if (auto* dso = dyn_cast<DSOLocalEquivalent>(c)) {
        flatConst(dso->getGlobalValue(), out);
        return;
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    unsupported("constant " + s);
}

void Engine::initMem(u64 addr, const Constant* c)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
        return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        Obj& o = objs[addr >> 32];
        memcpy(o.data + (addr & 0xffffffff), r.data(), r.size());
        return;
    }
    std::vector<std::pair<u32, u64>> ft;
    std::vector<Val> fv;
    {
        Persist keep;
        flatTypes(c->getType(), ft);
        flatConst(c, fv);
    }
    for (size_t i = 0; i < fv.size(); ++i)
        store(addr + ft[i].second, fv[i], ft[i].first);
}

void Engine::initGlobals()
{
    objs.resize(1);
    for (Function& F : *M) {
        u64 a = alloc(16, OK_FUNC, &F);
        objs[a >> 32].ro = true;
        objs[a >> 32].init = 1;
        gaddr[&F] = a;
    }
    for (GlobalVariable& G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
        if (G.isDeclaration() && sz < 256)
            sz = 256;
        u64 a = alloc(sz, OK_GLOBAL, &G);
        objs[a >> 32].init = 1;
        gaddr[&G] = a;
        gvAt[a] = &G;
    }
    for (GlobalVariable& G : M->globals())
        if (G.hasInitializer()) {
            u64 a = gaddr[&G];
            initMem(a, G.getInitializer());
            if (G.isConstant())
                objs[a >> 32].ro = true;
        }
    // type descriptors defined outside the module: their name is all that the code may ask for
    for (GlobalVariable& G : M->globals())
        if (G.isDeclaration() && G.getName().startswith("_ZTI")) {
            std::string n = G.getName().substr(4).str();
            u64 a = alloc(n.size() + 1, OK_GLOBAL, nullptr);
            objs[a >> 32].init = 1;
            for (size_t i = 0; i <= n.size(); ++i)
                store(a + i, Val { i < n.size() ? (unsigned char)n[i] : 0u, nullptr }, 8);
            store(gaddr[&G] + 8, Val { a, nullptr }, 64);
            objs[a >> 32].ro = true;
        }
    errnoAddr = alloc(4, OK_GLOBAL, nullptr);
    objs[errnoAddr >> 32].init = 1;
}

// ------------------------------------------------------------------ lowering

FnInfo* Engine::getFn(const Function* F)
{
    auto it = fns.find(F);
    if (it != fns.end())
        return it->second;
    Persist keep;
    FnInfo* f = new FnInfo();
    f->F = F;
    f->name = F->getName().str();
    f->id = fnList.size();
    if (const DISubprogram* sp = F->getSubprogram()) {
        std::string p = sp->getFile() ? (sp->getFile()->getDirectory() + "/" + sp->getFile()->getFilename()).str() : "";
        std::string fn = sp->getFile() ? sp->getFile()->getFilename().str() : "";
        f->repo = (fn.rfind(opt.repo, 0) == 0) || p.rfind(opt.repo, 0) == 0;
    }
    fnList.push_back(f);
    fns[F] = f;
    return f;
}

struct Lower {
    Engine& E;
    FnInfo* f;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const BasicBlock*, u32> bbpc;
    std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> fix;
    std::map<u64, int> constIdx;

    int addConst(Val v)
    {
        if (!v.e) {
            auto it = constIdx.find(v.c);
            if (it != constIdx.end())
                return it->second;
        }
        f->consts.push_back(v);
        int r = -(int)f->consts.size();
        if (!v.e)
            constIdx[v.c] = r;
        return r;
    }
    u32 nslots(Type* t)
    {
        std::vector<std::pair<u32, u64>> v;
        E.flatTypes(t, v);
        return v.size();
    }
    int opnd(const Value* v, u32 i = 0)
    {
        if (auto* c = dyn_cast<Constant>(v)) {
            std::vector<Val> fl;
            E.flatConst(c, fl);
            return addConst(fl[i]);
        }
        auto it = slot.find(v);
        if (it == slot.end())
            E.unsupported("operand without slot");
        return it->second + i;
    }
    u32 width(Type* t) { return (u32)E.DL->getTypeSizeInBits(t); }
    Edge* mkEdge(const BasicBlock* from, const BasicBlock* to)
    {
        Edge* e = new Edge();
        fix.push_back({ e, { from, to } });
        return e;
    }
    static u32 slotOffset(Engine& E, Type* t, ArrayRef<unsigned> idx, Type** sub)
    {
        u32 off = 0;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; ++k) {
                    std::vector<std::pair<u32, u64>> v;
                    E.flatTypes(st->getElementType(k), v);
                    off += v.size();
                }
                t = st->getElementType(i);
            } else {
                auto* at = cast<ArrayType>(t);
                std::vector<std::pair<u32, u64>> v;
                E.flatTypes(at->getElementType(), v);
                off += v.size() * i;
                t = at->getElementType();
            }
        }
        *sub = t;
        return off;
    }

    void run();
    void inst(const Instruction& I);
    void call(const CallBase& cb, Op& op);
};

static int kindOfBin(unsigned opc)
{
    switch (opc) {
    case Instruction::Add:
        return K_ADD;
    case Instruction::Sub:
        return K_SUB;
    case Instruction::Mul:
        return K_MUL;
    case Instruction::UDiv:
        return K_UDIV;
    case Instruction::SDiv:
        return K_SDIV;
    case Instruction::URem:
        return K_UREM;
    case Instruction::SRem:
        return K_SREM;
    case Instruction::And:
        return K_AND;
    case Instruction::Or:
        return K_OR;
    case Instruction::Xor:
        return K_XOR;
    case Instruction::Shl:
        return K_SHL;
    case Instruction::LShr:
        return K_LSHR;
    case Instruction::AShr:
        return K_ASHR;
    default:
        return -1;
    }
}

static int intrinsicHandlerDummy(CallCtx&) { return H_DONE; }
static Handler findIntrinsic(const Function* F);

void Lower::call(const CallBase& cb, Op& op)
{
    CallInfo* ci = new CallInfo();
    op.opc = O_CALL;
    op.call = ci;
    ci->cb = &cb;
    const Value* callee = cb.getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(callee))
        callee = ga->getAliaseeObject();
    ci->direct = dyn_cast<Function>(callee);
    if (ci->direct) {
        if (ci->direct->isIntrinsic()) {
            switch (ci->direct->getIntrinsicID()) {
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::invariant_start:
            case Intrinsic::invariant_end:
            case Intrinsic::donothing:
            case Intrinsic::assume:
            case Intrinsic::var_annotation:
            case Intrinsic::stackrestore:
            case Intrinsic::prefetch:
                op.opc = O_NOP;
                return;
            default:
                break;
            }
        }
        auto it = E.handlers.find(ci->direct->getName().str());
        if (it != E.handlers.end())
            ci->h = it->second;
        else if (ci->direct->isIntrinsic()) {
            ci->h = findIntrinsic(ci->direct);
        } else if (!ci->direct->isDeclaration())
            ci->fi = E.getFn(ci->direct);
    } else if (cb.isInlineAsm()) {
        op.opc = O_NOP; // compiler barriers
        if (!cb.getType()->isVoidTy())
            op.opc = O_UNSUPPORTED;
        return;
    } else
        ci->calleeOp = opnd(cb.getCalledOperand());
    for (unsigned i = 0; i < cb.arg_size(); ++i) {
        const Value* a = cb.getArgOperand(i);
        ci->argFirst.push_back(ci->args.size());
        ci->byval.push_back(0);
        if (a->getType()->isMetadataTy()) {
            continue;
        }
        if (cb.isByValArgument(i))
            ci->byval.back() = E.DL->getTypeAllocSize(cb.getParamByValType(i));
        std::vector<std::pair<u32, u64>> ft;
        E.flatTypes(a->getType(), ft);
        for (u32 k = 0; k < ft.size(); ++k) {
            ci->args.push_back(opnd(a, k));
            ci->argW.push_back(ft[k].first);
        }
    }
    ci->nret = nslots(cb.getType());
    std::vector<std::pair<u32, u64>> rt;
    E.flatTypes(cb.getType(), rt);
    ci->retW = rt.empty() ? 0 : rt[0].first;
    if (auto* inv = dyn_cast<InvokeInst>(&cb)) {
        ci->invoke = true;
        fix.push_back({ &ci->normal, { inv->getParent(), inv->getNormalDest() } });
        fix.push_back({ &ci->unwind, { inv->getParent(), inv->getUnwindDest() } });
    }
}

void Lower::inst(const Instruction& I)
{
    Op op {};
    op.I = &I;
    auto it = slot.find(&I);
    op.dst = it == slot.end() ? -1 : it->second;
    unsigned oc = I.getOpcode();
    Type* T = I.getType();
    int k;
    auto emit = [&] { f->code.push_back(op); };
    auto moves = [&](std::vector<std::pair<int, i64>> mv) {
        op.opc = O_MOV;
        op.terms = new std::vector<std::pair<int, i64>>(mv);
        emit();
    };
    if (isa<PHINode>(I))
        return;
    if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        (void)vt;
        if (!isa<LoadInst>(I) && !isa<CallBase>(I)) {
            op.opc = O_UNSUPPORTED;
            emit();
            return;
        }
    }
    if ((k = kindOfBin(oc)) >= 0) {
        op.opc = O_BIN;
        op.sub = k;
        op.w = width(T);
        op.a = opnd(I.getOperand(0));
        op.b = opnd(I.getOperand(1));
        emit();
        return;
    }
    switch (oc) {
    case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(&I);
        op.opc = O_CMP;
        op.sub = c->getPredicate();
        op.w = width(c->getOperand(0)->getType());
        op.a = opnd(c->getOperand(0));
        op.b = opnd(c->getOperand(1));
        emit();
        return;
    }
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::Trunc:
        op.opc = oc == Instruction::ZExt ? O_ZEXT : oc == Instruction::SExt ? O_SEXT
                                                                          : O_TRUNC;
        op.w = width(T);
        op.w2 = width(I.getOperand(0)->getType());
        op.a = opnd(I.getOperand(0));
        emit();
        return;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
        u32 ws = width(I.getOperand(0)->getType()), wd = width(T);
        op.opc = wd > ws ? O_ZEXT : O_TRUNC;
        op.w = wd;
        op.w2 = ws;
        op.a = opnd(I.getOperand(0));
        emit();
        return;
    }
    case Instruction::BitCast:
    case Instruction::Freeze:
    case Instruction::AddrSpaceCast: {
        std::vector<std::pair<int, i64>> mv;
        for (u32 i = 0; i < nslots(T); ++i)
            mv.push_back({ op.dst + i, opnd(I.getOperand(0), i) });
        moves(mv);
        return;
    }
    case Instruction::Select: {
        op.opc = O_SELECT;
        op.a = opnd(I.getOperand(0));
        std::vector<std::pair<u32, u64>> ft;
        E.flatTypes(T, ft);
        op.terms = new std::vector<std::pair<int, i64>>();
        op.widths = new std::vector<u32>();
        for (u32 i = 0; i < ft.size(); ++i) {
            op.terms->push_back({ opnd(I.getOperand(1), i), opnd(I.getOperand(2), i) });
            op.widths->push_back(ft[i].first);
        }
        emit();
        return;
    }
    case Instruction::Load: {
        op.opc = O_LOAD;
        op.a = opnd(I.getOperand(0));
        op.w2 = atomicOrder(cast<LoadInst>(I).getOrdering());
        std::vector<std::pair<u32, u64>> ft;
        E.flatTypes(T, ft);
        op.w = ft.size() == 1 ? ft[0].first : 0;
        if (ft.size() != 1) {
            op.terms = new std::vector<std::pair<int, i64>>();
            for (auto& x : ft)
                op.terms->push_back({ (int)x.first, (i64)x.second });
        }
        op.imm = (i64)(u64)E.DL->getTypeStoreSize(T);
        emit();
        return;
    }
    case Instruction::Store: {
        op.opc = O_STORE;
        const Value* v = I.getOperand(0);
        op.a = opnd(I.getOperand(1));
        op.w2 = atomicOrder(cast<StoreInst>(I).getOrdering());
        std::vector<std::pair<u32, u64>> ft;
        E.flatTypes(v->getType(), ft);
        op.imm = (i64)(u64)E.DL->getTypeStoreSize(v->getType());
        if (isa<UndefValue>(v)) {
            op.opc = O_NOP;
            emit();
            return;
        }
        if (ft.size() == 1) {
            op.w = ft[0].first;
            op.b = opnd(v);
        } else {
            op.w = 0;
            op.terms = new std::vector<std::pair<int, i64>>();
            op.widths = new std::vector<u32>();
            for (u32 i = 0; i < ft.size(); ++i) {
                op.terms->push_back({ opnd(v, i), (i64)ft[i].second });
                op.widths->push_back(ft[i].first);
            }
        }
        emit();
        return;
    }
    case Instruction::GetElementPtr: {
        op.opc = O_GEP;
        op.a = opnd(I.getOperand(0));
        op.terms = new std::vector<std::pair<int, i64>>();
        op.widths = new std::vector<u32>();
        i64 off = 0;
        for (auto gi = gep_type_begin(cast<GetElementPtrInst>(&I)), ge = gep_type_end(cast<GetElementPtrInst>(&I)); gi != ge; ++gi) {
            const Value* idx = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) {
                off += (u64)E.DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
                u64 sz = E.DL->getTypeAllocSize(gi.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx))
                    off += ci->getSExtValue() * (i64)sz;
                else {
                    op.terms->push_back({ opnd(idx), (i64)sz });
                    op.widths->push_back(width(idx->getType()));
                }
            }
        }
        op.imm = off;
        emit();
        return;
    }
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(&I);
        op.opc = O_ALLOCA;
        op.imm = (i64)(u64)E.DL->getTypeAllocSize(a->getAllocatedType());
        op.a = opnd(a->getArraySize());
        emit();
        return;
    }
    case Instruction::Br: {
        auto* b = cast<BranchInst>(&I);
        if (b->isUnconditional()) {
            op.opc = O_BR;
            op.e1 = mkEdge(I.getParent(), b->getSuccessor(0));
        } else {
            op.opc = O_CONDBR;
            op.a = opnd(b->getCondition());
            op.e1 = mkEdge(I.getParent(), b->getSuccessor(0));
            op.e2 = mkEdge(I.getParent(), b->getSuccessor(1));
        }
        emit();
        return;
    }
    case Instruction::Switch: {
        auto* s = cast<SwitchInst>(&I);
        op.opc = O_SWITCH;
        op.w = width(s->getCondition()->getType());
        op.a = opnd(s->getCondition());
        op.e1 = mkEdge(I.getParent(), s->getDefaultDest());
        op.cases = new std::vector<std::pair<u64, Edge*>>();
        for (auto& c : s->cases())
            op.cases->push_back({ c.getCaseValue()->getZExtValue(), mkEdge(I.getParent(), c.getCaseSuccessor()) });
        emit();
        return;
    }
    case Instruction::Call:
    case Instruction::Invoke:
        call(cast<CallBase>(I), op);
        emit();
        return;
    case Instruction::Ret: {
        op.opc = O_RET;
        op.terms = new std::vector<std::pair<int, i64>>();
        if (I.getNumOperands())
            for (u32 i = 0; i < nslots(I.getOperand(0)->getType()); ++i)
                op.terms->push_back({ opnd(I.getOperand(0), i), 0 });
        emit();
        return;
    }
    case Instruction::Resume:
        op.opc = O_RESUME;
        op.a = opnd(I.getOperand(0), 0);
        emit();
        return;
    case Instruction::LandingPad: {
        auto* lp = cast<LandingPadInst>(&I);
        op.opc = O_LANDINGPAD;
        op.imm = lp->isCleanup();
        op.clauses = new std::vector<LPClause>();
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (lp->isCatch(i)) {
                std::vector<Val> v;
                E.flatConst(lp->getClause(i), v);
                op.clauses->push_back({ v[0].c, false });
            } else
                op.clauses->push_back({ 0, true });
        }
        emit();
        return;
    }
    case Instruction::Unreachable:
        op.opc = O_UNREACHABLE;
        emit();
        return;
    case Instruction::ExtractValue: {
        auto* x = cast<ExtractValueInst>(&I);
        Type* sub;
        u32 o = slotOffset(E, x->getAggregateOperand()->getType(), x->getIndices(), &sub);
        std::vector<std::pair<int, i64>> mv;
        for (u32 i = 0; i < nslots(sub); ++i)
            mv.push_back({ op.dst + i, opnd(x->getAggregateOperand(), o + i) });
        moves(mv);
        return;
    }
    case Instruction::InsertValue: {
        auto* x = cast<InsertValueInst>(&I);
        Type* sub;
        u32 o = slotOffset(E, T, x->getIndices(), &sub);
        std::vector<std::pair<int, i64>> mv;
        u32 n = nslots(T), m = nslots(sub);
        for (u32 i = 0; i < n; ++i)
            if (i < o || i >= o + m)
                mv.push_back({ op.dst + i, opnd(x->getAggregateOperand(), i) });
        for (u32 i = 0; i < m; ++i)
            mv.push_back({ op.dst + o + i, opnd(x->getInsertedValueOperand(), i) });
        moves(mv);
        return;
    }
    case Instruction::AtomicRMW: {
        auto* r = cast<AtomicRMWInst>(&I);
        op.opc = O_RMW;
        op.sub = r->getOperation();
        op.w2 = atomicOrder(r->getOrdering());
        op.w = width(T);
        op.a = opnd(r->getPointerOperand());
        op.b = opnd(r->getValOperand());
        emit();
        return;
    }
    case Instruction::AtomicCmpXchg: {
        auto* r = cast<AtomicCmpXchgInst>(&I);
        op.opc = O_CMPXCHG;
        op.w2 = atomicOrder(r->getSuccessOrdering());
        op.w = width(r->getCompareOperand()->getType());
        op.a = opnd(r->getPointerOperand());
        op.b = opnd(r->getCompareOperand());
        op.c = opnd(r->getNewValOperand());
        emit();
        return;
    }
    case Instruction::Fence:
        op.opc = O_NOP;
        emit();
        return;
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    case Instruction::FRem:
        op.opc = O_FBIN;
        op.sub = oc;
        op.w = width(T);
        op.a = opnd(I.getOperand(0));
        op.b = opnd(I.getOperand(1));
        emit();
        return;
    case Instruction::FNeg:
        op.opc = O_BIN;
        op.sub = K_XOR;
        op.w = width(T);
        op.a = opnd(I.getOperand(0));
        op.b = addConst(cv(1ull << (op.w - 1)));
        emit();
        return;
    case Instruction::FCmp:
        op.opc = O_FCMP;
        op.sub = cast<FCmpInst>(&I)->getPredicate();
        op.w = width(I.getOperand(0)->getType());
        op.a = opnd(I.getOperand(0));
        op.b = opnd(I.getOperand(1));
        emit();
        return;
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    case Instruction::FPTrunc:
    case Instruction::FPExt:
        op.opc = O_FCAST;
        op.sub = oc;
        op.w = width(T);
        op.w2 = width(I.getOperand(0)->getType());
        op.a = opnd(I.getOperand(0));
        if (op.w > 64 || op.w2 > 64)
            op.opc = O_UNSUPPORTED;
        emit();
        return;
    default:
        op.opc = O_UNSUPPORTED;
        emit();
    }
}

void Lower::run()
{
    u32 n = 0;
    for (const Argument& a : f->F->args()) {
        slot[&a] = n;
        std::vector<std::pair<u32, u64>> ft;
        E.flatTypes(a.getType(), ft);
        for (auto& x : ft)
            f->argWidths.push_back(x.first);
        n += ft.size();
    }
    for (const BasicBlock& B : *f->F)
        for (const Instruction& I : B) {
            u32 k = nslots(I.getType());
            if (k) {
                slot[&I] = n;
                n += k;
            }
        }
    f->nregs = n;
    for (const BasicBlock& B : *f->F) {
        bbpc[&B] = f->code.size();
        for (const Instruction& I : B)
            inst(I);
    }
    for (auto& x : fix) {
        Edge* e = x.first;
        e->target = bbpc[x.second.second];
        for (const PHINode& p : x.second.second->phis()) {
            int d = slot[&p];
            const Value* in = p.getIncomingValueForBlock(x.second.first);
            u32 k = nslots(p.getType());
            for (u32 i = 0; i < k; ++i)
                e->copies.push_back({ d + i, opnd(in, i) });
        }
        for (auto& c1 : e->copies)
            for (auto& c2 : e->copies)
                if (c2.second == c1.first && &c1 != &c2)
                    e->overlap = true;
    }
}

void Engine::lower(FnInfo* f)
{
    Persist keep;
    Lower l { *this, f, {}, {}, {}, {} };
    l.run();
    f->lowered = true;
    if (f->id < (1u << 16))
        sh->fnSeen[f->id] = 1;
}

// ------------------------------------------------------------------ frames


void Engine::pushFrame(FnInfo* f, const std::vector<Val>& args, bool base)
{
    if (!f->lowered)
        lower(f);
    if (cur->frames.size() >= opt.maxFrames)
        violation("stack", "call depth exceeds " + std::to_string(opt.maxFrames) + " frames (unbounded recursion)");
    cur->frames.emplace_back();
    Frame& fr = cur->frames.back();
    fr.f = f;
    fr.pc = 0;
    fr.isBase = base;
    fr.regs = (Val*)xalloc(sizeof(Val) * (f->nregs + 1));
    size_t n = std::min(args.size(), f->argWidths.size());
    for (size_t i = 0; i < n; ++i)
        fr.regs[i] = args[i];
    for (size_t i = n; i < f->nregs; ++i)
        fr.regs[i] = cv(0);
}

void Engine::popFrame()
{
    Frame& fr = cur->frames.back();
    for (u64 a : fr.allocas) {
        Obj& o = objs[a >> 32];
        o.alive = false;
        dropStorage(o);
    }
    xfree(fr.regs);
    cur->frames.pop_back();
}

static inline Val& R(Frame& f, int i) { return i >= 0 ? f.regs[i] : f.f->consts[-i - 1]; }

void Engine::takeEdge(Frame& fr, Edge& e)
{
    if (!e.copies.empty()) {
        if (!e.overlap) {
            for (auto& c : e.copies)
                fr.regs[c.first] = R(fr, (int)c.second);
        } else {
            Val tmp[256];
            std::vector<Val> big;
            Val* t = tmp;
            if (e.copies.size() > 256) {
                big.resize(e.copies.size());
                t = big.data();
            }
            size_t i = 0;
            for (auto& c : e.copies)
                t[i++] = R(fr, (int)c.second);
            i = 0;
            for (auto& c : e.copies)
                fr.regs[c.first] = t[i++];
        }
    }
    fr.pc = e.target;
}

// ------------------------------------------------------------------ exceptions

static const GlobalVariable* asGV(const Constant* c)
{
    return dyn_cast_or_null<GlobalVariable>(c ? c->stripPointerCasts() : nullptr);
}

std::string Engine::tiName(u64 ti)
{
    auto it = gvAt.find(ti);
    return it == gvAt.end() ? "?" : it->second->getName().str();
}

u32 Engine::typeId(u64 ti)
{
    if (!ti)
        return 1;
    std::string n = tiName(ti);
    auto it = typeIdByName.find(n);
    if (it != typeIdByName.end())
        return it->second;
    u32 id = 2 + typeIdByName.size();
    typeIdByName[n] = id;
    return id;
}

bool Engine::derived(const GlobalVariable* have, const GlobalVariable* want, u64 obj, u64& adj, int depth)
{
    if (have->getName() == want->getName()) {
        adj = obj;
        return true;
    }
    if (!have->hasInitializer() || depth > 20)
        return false;
    auto* cs = dyn_cast<ConstantStruct>(have->getInitializer());
    if (!cs)
        return false;
    // the first word points into the vtable of the type_info class
    std::string vt;
    const Value* v = cs->getOperand(0);
    while (auto* ce = dyn_cast<ConstantExpr>(v))
        v = ce->getOperand(0);
    vt = v->getName().str();
    if (vt.find("__si_class_type_info") != std::string::npos) {
        const GlobalVariable* b = asGV(cs->getOperand(2));
        return b && derived(b, want, obj, adj, depth + 1);
    }
    if (vt.find("__vmi_class_type_info") != std::string::npos) {
        u64 n = cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
        for (u64 i = 0; i < n; ++i) {
            const GlobalVariable* b = asGV(cs->getOperand(4 + 2 * i));
            i64 fl = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue();
            i64 off = fl >> 8;
            bool virt = fl & 1;
            u64 o = obj + off;
            if (virt && obj) {
                u64 vptr = concretize(load(obj, 64), 64);
                o = obj + concretize(load(vptr + off, 64), 64);
            }
            if (b && derived(b, want, o, adj, depth + 1))
                return true;
        }
    }
    return false;
}

bool Engine::canCatch(u64 want, u64 have, u64 obj, u64& adj)
{
    adj = obj;
    if (!want)
        return true;
    auto w = gvAt.find(want), h = gvAt.find(have);
    if (w == gvAt.end() || h == gvAt.end())
        return want == have;
    return derived(h->second, w->second, obj, adj);
}

// unwinds from the frame on top (which raised); cur->pendExc is the exception object
void Engine::unwind()
{
    u64 x = cur->pendExc;
    Exc& ex = excs[x];
    for (;;) {
        Frame& fr = cur->frames.back();
        Op& op = fr.f->code[fr.pc];
        if (op.opc == O_CALL && op.call->invoke) {
            Edge& e = op.call->unwind;
            Op& lp = fr.f->code[e.target];
            if (lp.opc != O_LANDINGPAD)
                unsupported("unwind destination without landingpad");
            bool take = lp.imm;
            u32 sel = 0;
            for (auto& c : *lp.clauses) {
                if (c.filter)
                    unsupported("exception specification filter");
                u64 adj;
                if (canCatch(c.ti, ex.ti, ex.obj, adj)) {
                    take = true;
                    sel = typeId(c.ti);
                    ex.adjusted = adj;
                    break;
                }
            }
            if (take) {
                cur->pendSel = sel;
                takeEdge(fr, e);
                return;
            }
        }
        if (fr.isBase || cur->frames.size() == 1) {
            violation("uncaught", "exception of type " + tiName(ex.ti) + " escapes");
        }
        popFrame();
    }
}

// ------------------------------------------------------------------ threads

bool Engine::enabled(Thread* t)
{
    switch (t->st) {
    case T_RUN:
        return true;
    case T_DONE:
        return false;
    case T_MUTEX: {
        Mutex& m = mutexes[t->waitOn];
        return m.owner < 0 || m.owner == t->id;
    }
    case T_JOIN:
        return threads[t->waitOn]->st == T_DONE;
    case T_COND: {
        if (!t->signaled && !t->timed)
            return false;
        Mutex& m = mutexes[t->condMutex];
        return m.owner < 0;
    }
    }
    return false;
}

static void addInput(const char* name, u64 v, u32 bytes)
{
    InputRec r;
    r.name = name;
    for (u32 i = 0; i < bytes; ++i)
        r.bytes.push_back(cv((v >> (8 * i)) & 0xff));
    E->inputs.push_back(r);
}

// n-way choice, explored exhaustively
static u64 choose(u64 n, const char* name)
{
    u64 r = 0;
    if (n > 1)
        for (u64 i = n - 1; i > 0; --i)
            if (E->forkTake()) {
                r = i;
                break;
            }
    addInput(name, r, 4);
    return r;
}

bool Engine::yieldTo()
{
    for (int pass = 0; pass < 2; ++pass) // those whose wait would time out come last
        for (size_t i = 1; i < threads.size(); ++i) {
            Thread* t = threads[(cur->id + i) % threads.size()];
            if (t->st != T_DONE && enabled(t) && (pass == 1 || t->st != T_COND || t->signaled)) {
                cur = t;
                return true;
            }
        }
    return false;
}

// Threads may be preempted in front of atomic stores and sequentially consistent read-modify-write
// operations (reference counts are not), and make way when they wait for an atomic to change.
bool Engine::atomicPoint(u64 a, u16 order, bool writes)
{
    if (threads.size() < 2 || !order)
        return false;
    Thread* t = cur;
    if (t->pastSched) {
        t->pastSched = false;
        return false;
    }
    if (order >= 2) {
        if (t->spinAddr != a) {
            t->spinAddr = a;
            t->spin = 0;
        }
        if (++t->spin >= 50) {
            t->spin = 0;
            t->pastSched = true;
            if (yieldTo())
                return true;
            t->pastSched = false;
        }
    }
    if (!writes)
        return false;
    t->pastSched = true;
    if (schedPoint(false, "atomic"))
        return true;
    t->pastSched = false;
    return false;
}

bool Engine::schedPoint(bool mustSwitch, const char* name)
{
    std::vector<Thread*> en;
    if (!mustSwitch)
        en.push_back(cur); // staying is choice 0
    for (Thread* t : threads)
        if ((t != cur || mustSwitch) && t->st != T_DONE && enabled(t) && !(t == cur && mustSwitch && t->st == T_RUN))
            en.push_back(t);
    if (en.empty()) {
        std::string d = "no thread can proceed:";
        for (Thread* t : threads)
            if (t->st != T_DONE)
                d += " thread " + std::to_string(t->id)
                    + (t->st == T_MUTEX ? " waits for a mutex" : t->st == T_JOIN ? " waits for a thread"
                              : t->st == T_COND                                  ? " waits for a condition"
                                                                                 : " ?");
        violation("deadlock", d);
    }
    if (en.size() == 1 && en[0] == cur)
        return false;
    if (!mustSwitch && (noPreempt || preemptions >= opt.preempt))
        return false;
    sh->schedPoints++;
    u64 k = en.size() > 1 ? choose(en.size(), name) : 0;
    if (en[k] == cur)
        return false;
    if (!mustSwitch)
        ++preemptions;
    cur = en[k];
    return true;
}

static void vcJoin(std::vector<u32>& a, const std::vector<u32>& b)
{
    if (a.size() < b.size())
        a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); ++i)
        a[i] = std::max(a[i], b[i]);
}
static void vcTick(Thread* t)
{
    if (t->vc.size() <= (size_t)t->id)
        t->vc.resize(t->id + 1, 0);
    t->vc[t->id]++;
}

// ------------------------------------------------------------------ calls

Val CallCtx::arg(unsigned i)
{
    Frame& f = E->cur->frames.back();
    return R(f, ci->args[i]);
}
u64 CallCtx::conc(unsigned i) { return E->concretize(arg(i), ci->argW[i]); }
void CallCtx::ret(Val v)
{
    if (op->dst >= 0)
        E->cur->frames.back().regs[op->dst] = v;
}

void Engine::doCall(Op& op)
{
    CallInfo* ci = op.call;
    FnInfo* fi = ci->fi;
    Handler h = ci->h;
    Frame& fr = cur->frames.back();
    if (!ci->direct) {
        u64 a = concretize(R(fr, ci->calleeOp), 64);
        Obj* o = find(a);
        if (!o || (a >> 32) == 0 || o->kind != OK_FUNC || (a & 0xffffffff))
            violation("memory", a < 65536 ? "call through a null function pointer" : "call through a wild function pointer");
        const Function* F = (const Function*)o->ref;
        auto it = handlers.find(F->getName().str());
        if (it != handlers.end())
            h = it->second;
        else if (F->isDeclaration())
            unsupported("call of external function " + F->getName().str());
        else
            fi = getFn(F);
    }
    if (h) {
        CallCtx cx { this, &op, ci };
        int r = h(cx);
        if (r == H_CTRL)
            return;
        Frame& f2 = cur->frames.back();
        if (ci->invoke)
            takeEdge(f2, ci->normal);
        else
            ++f2.pc;
        return;
    }
    if (!fi)
        unsupported("call of external function " + (ci->direct ? ci->direct->getName().str() : std::string("?")));
    std::vector<Val> args;
    args.reserve(ci->args.size());
    for (size_t i = 0; i < ci->args.size(); ++i)
        args.push_back(R(fr, ci->args[i]));
    std::vector<u64> byvals;
    for (size_t i = 0; i < ci->byval.size(); ++i)
        if (ci->byval[i]) {
            u64 a = alloc(ci->byval[i], OK_STACK, ci->cb);
            u64 src = concretize(args[ci->argFirst[i]], 64);
            memcopy(a, src, ci->byval[i]);
            args[ci->argFirst[i]] = cv(a);
            byvals.push_back(a);
        }
    u64 va = 0;
    if (fi->F->isVarArg()) {
        // everything after the fixed arguments goes to an overflow area
        size_t fixed = fi->F->arg_size();
        size_t first = fixed < ci->argFirst.size() ? (size_t)ci->argFirst[fixed] : ci->args.size();
        u64 n = ci->args.size() - first;
        va = alloc(8 * n + 8, OK_STACK, ci->cb);
        objs[va >> 32].init = 1;
        for (u64 i = 0; i < n; ++i)
            store(va + 8 * i, args[first + i], ci->argW[first + i] > 64 ? 64 : ci->argW[first + i]);
    }
    pushFrame(fi, args, false);
    Frame& nf = cur->frames.back();
    for (u64 a : byvals)
        nf.allocas.push_back(a);
    if (va) {
        nf.varargs = va;
        nf.allocas.push_back(va);
    }
}

void Engine::doRet(const std::vector<Val>& vals)
{
    bool base = cur->frames.back().isBase;
    popFrame();
    if (base) {
        if (!vals.empty())
            cur->retval = vals[0].e ? 0 : vals[0].c;
        return;
    }
    Frame& fr = cur->frames.back();
    Op& op = fr.f->code[fr.pc];
    // the call may have been made by a handler (destructor call): then there is no CALL result to deliver
    if (op.opc == O_CALL) {
        if (op.dst >= 0)
            for (u32 i = 0; i < op.call->nret && i < vals.size(); ++i)
                fr.regs[op.dst + i] = vals[i];
        if (op.call->invoke)
            takeEdge(fr, op.call->normal);
        else
            ++fr.pc;
    }
}

// ------------------------------------------------------------------ interpreter

static double asD(u64 c, u32 w)
{
    if (w == 32) {
        float f;
        u32 x = (u32)c;
        memcpy(&f, &x, 4);
        return f;
    }
    double d;
    memcpy(&d, &c, 8);
    return d;
}
static u64 fromD(double d, u32 w)
{
    if (w == 32) {
        float f = (float)d;
        u32 x;
        memcpy(&x, &f, 4);
        return x;
    }
    u64 x;
    memcpy(&x, &d, 8);
    return x;
}

static inline i64 sx64(u64 v, u32 w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

static Val binop(Engine& En, int kind, Val a, Val b, u32 w)
{
    if ((kind == K_UDIV || kind == K_SDIV || kind == K_UREM || kind == K_SREM)) {
        if (!b.e && w <= 64 ? b.c == 0 : false)
            En.violation("division", "division by zero");
        if (b.e && En.branch(mkEq(b.e, mkConst(0, w))))
            En.violation("division", "division by zero");
    }
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, m = mask64(w);
        switch (kind) {
        case K_ADD:
            return cv((x + y) & m);
        case K_SUB:
            return cv((x - y) & m);
        case K_MUL:
            return cv((x * y) & m);
        case K_AND:
            return cv(x & y);
        case K_OR:
            return cv(x | y);
        case K_XOR:
            return cv(x ^ y);
        case K_SHL:
            return cv(y >= w ? 0 : (x << y) & m);
        case K_LSHR:
            return cv(y >= w ? 0 : x >> y);
        default:
            return cv((u64)foldBin((Kind)kind, x, y, w));
        }
    }
    Expr* r = mkBin((Kind)kind, toE(a, w), toE(b, w));
    return w > 64 ? Val { 0, r } : ev(r);
}

static Val cmpop(int pred, Val a, Val b, u32 w)
{
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        i64 sxv = sx64(x, w), syv = sx64(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ:
            return cv(x == y);
        case CmpInst::ICMP_NE:
            return cv(x != y);
        case CmpInst::ICMP_ULT:
            return cv(x < y);
        case CmpInst::ICMP_ULE:
            return cv(x <= y);
        case CmpInst::ICMP_UGT:
            return cv(x > y);
        case CmpInst::ICMP_UGE:
            return cv(x >= y);
        case CmpInst::ICMP_SLT:
            return cv(sxv < syv);
        case CmpInst::ICMP_SLE:
            return cv(sxv <= syv);
        case CmpInst::ICMP_SGT:
            return cv(sxv > syv);
        case CmpInst::ICMP_SGE:
            return cv(sxv >= syv);
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w), *r;
    switch (pred) {
    case CmpInst::ICMP_EQ:
        r = mkEq(x, y);
        break;
    case CmpInst::ICMP_NE:
        r = mkNot(mkEq(x, y));
        break;
    case CmpInst::ICMP_ULT:
        r = mkBin(K_ULT, x, y);
        break;
    case CmpInst::ICMP_ULE:
        r = mkBin(K_ULE, x, y);
        break;
    case CmpInst::ICMP_UGT:
        r = mkBin(K_ULT, y, x);
        break;
    case CmpInst::ICMP_UGE:
        r = mkBin(K_ULE, y, x);
        break;
    case CmpInst::ICMP_SLT:
        r = mkBin(K_SLT, x, y);
        break;
    case CmpInst::ICMP_SLE:
        r = mkBin(K_SLE, x, y);
        break;
    case CmpInst::ICMP_SGT:
        r = mkBin(K_SLT, y, x);
        break;
    default:
        r = mkBin(K_SLE, y, x);
    }
    return ev(r);
}

static void coverLine(const Instruction*) { }

void Engine::run(size_t baseDepth)
{
    // runs until thread 0 has returned to baseDepth frames
    for (;;) {
        if (cur->frames.size() <= (cur->id == 0 ? baseDepth : 0)) {
            if (cur->id == 0)
                return;
            threadExit();
            continue;
        }
        Frame& fr = cur->frames.back();
        Op& op = fr.f->code[fr.pc];
        ++insts;
        if ((insts & 0xffff) == 0) {
            checkDeadline();
            if (arenaUsed() > (1536ull << 20))
                violation("nontermination", "one path needs more than 1.5 GB of execution state after " + std::to_string(insts) + " instructions");
        }
        if (insts > opt.maxInsts)
            violation("nontermination", "more than " + std::to_string(opt.maxInsts) + " instructions executed on one path");
        if (opt.trace) {
            fprintf(stderr, "[t%d] %s:%u op%d", cur->id, fr.f->name.c_str(), fr.pc, op.opc);
            if (op.I) {
                std::string s;
                raw_string_ostream os(s);
                op.I->print(os);
                fprintf(stderr, " %s", s.c_str());
            }
            fprintf(stderr, "\n");
        }
        switch (op.opc) {
        case O_BIN:
            fr.regs[op.dst] = binop(*this, op.sub, R(fr, op.a), R(fr, op.b), op.w);
            ++fr.pc;
            break;
        case O_CMP:
            fr.regs[op.dst] = cmpop(op.sub, R(fr, op.a), R(fr, op.b), op.w);
            ++fr.pc;
            break;
        case O_ZEXT: {
            Val v = R(fr, op.a);
            if (!v.e && op.w <= 64)
                fr.regs[op.dst] = v;
            else {
                Expr* r = mkZExt(toE(v, op.w2), op.w);
                fr.regs[op.dst] = op.w > 64 ? Val { 0, r } : ev(r);
            }
            ++fr.pc;
            break;
        }
        case O_SEXT: {
            Val v = R(fr, op.a);
            if (!v.e && op.w <= 64)
                fr.regs[op.dst] = cv((u64)sx64(v.c, op.w2) & mask64(op.w));
            else {
                Expr* r = mkSExt(toE(v, op.w2), op.w);
                fr.regs[op.dst] = op.w > 64 ? Val { 0, r } : ev(r);
            }
            ++fr.pc;
            break;
        }
        case O_TRUNC: {
            Val v = R(fr, op.a);
            if (!v.e)
                fr.regs[op.dst] = cv(v.c & mask64(op.w));
            else {
                Expr* r = mkExtract(v.e, 0, op.w);
                fr.regs[op.dst] = op.w > 64 ? Val { 0, r } : ev(r);
            }
            ++fr.pc;
            break;
        }
        case O_MOV: {
            if (op.terms->size() == 1)
                fr.regs[(*op.terms)[0].first] = R(fr, (int)(*op.terms)[0].second);
            else
                for (auto& t : *op.terms)
                    fr.regs[t.first] = R(fr, (int)t.second);
            ++fr.pc;
            break;
        }
        case O_SELECT: {
            Val c = R(fr, op.a);
            for (size_t i = 0; i < op.terms->size(); ++i) {
                auto& t = (*op.terms)[i];
                if (!c.e)
                    fr.regs[op.dst + i] = c.c ? R(fr, t.first) : R(fr, (int)t.second);
                else {
                    u32 w = (*op.widths)[i];
                    Expr* r = mkIte(c.e, toE(R(fr, t.first), w), toE(R(fr, (int)t.second), w));
                    fr.regs[op.dst + i] = w > 64 ? Val { 0, r } : ev(r);
                }
            }
            ++fr.pc;
            break;
        }
        case O_LOAD: {
            u64 a = resolve(R(fr, op.a), op.imm, false);
            if (op.w2 && atomicPoint(a, op.w2, false))
                break;
            AtomicScope at(*this, a, op.w2);
            Frame& f2 = cur->frames.back();
            if (op.w)
                f2.regs[op.dst] = load(a, op.w);
            else
                for (size_t i = 0; i < op.terms->size(); ++i)
                    f2.regs[op.dst + i] = load(a + (*op.terms)[i].second, (*op.terms)[i].first);
            ++f2.pc;
            break;
        }
        case O_STORE: {
            u64 a = resolve(R(fr, op.a), op.imm, true);
            if (op.w2 && atomicPoint(a, op.w2, true))
                break;
            AtomicScope at(*this, a, op.w2);
            if (op.w)
                store(a, R(fr, op.b), op.w);
            else
                for (size_t i = 0; i < op.terms->size(); ++i)
                    store(a + (*op.terms)[i].second, R(fr, (*op.terms)[i].first), (*op.widths)[i]);
            ++fr.pc;
            break;
        }
        case O_GEP: {
            Val b = R(fr, op.a);
            u64 k = op.imm;
            Expr* s = nullptr;
            for (size_t i = 0; i < op.terms->size(); ++i) {
                Val x = R(fr, (*op.terms)[i].first);
                u32 w = (*op.widths)[i];
                i64 sc = (*op.terms)[i].second;
                if (!x.e)
                    k += (u64)(sx64(x.c, w) * sc);
                else {
                    Expr* t = mkBin(K_MUL, w < 64 ? mkSExt(x.e, 64) : mkExtract(x.e, 0, 64), mkConst((u64)sc, 64));
                    s = s ? mkBin(K_ADD, s, t) : t;
                }
            }
            if (!s && !b.e)
                fr.regs[op.dst] = cv(b.c + k);
            else {
                Expr* r = toE(b, 64);
                if (s)
                    r = mkBin(K_ADD, s, r);
                fr.regs[op.dst] = ev(mkBin(K_ADD, r, mkConst(k, 64)));
            }
            ++fr.pc;
            break;
        }
        case O_ALLOCA: {
            u64 n = concretize(R(fr, op.a), 64) * (u64)op.imm;
            u64 a = alloc(n, OK_STACK, op.I);
            Frame& f2 = cur->frames.back();
            f2.allocas.push_back(a);
            f2.regs[op.dst] = cv(a);
            ++f2.pc;
            break;
        }
        case O_BR:
            takeEdge(fr, *op.e1);
            break;
        case O_CONDBR: {
            Val c = R(fr, op.a);
            bool t = c.e ? branch(c.e) : c.c != 0;
            takeEdge(fr, t ? *op.e1 : *op.e2);
            break;
        }
        case O_SWITCH: {
            Val c = R(fr, op.a);
            Edge* e = op.e1;
            if (!c.e) {
                for (auto& k : *op.cases)
                    if (k.first == c.c) {
                        e = k.second;
                        break;
                    }
            } else {
                // group cases by destination so that equal targets do not fork
                std::vector<std::pair<u32, Expr*>> groups;
                std::map<u32, Edge*> rep;
                for (auto& k : *op.cases) {
                    Expr* q = mkEq(c.e, mkConst(k.first, op.w));
                    bool found = false;
                    // edges with PHI copies are kept apart unless identical
                    for (auto& g : groups)
                        if (rep[g.first]->target == k.second->target && rep[g.first]->copies == k.second->copies) {
                            g.second = mkOr(g.second, q);
                            found = true;
                            break;
                        }
                    if (!found) {
                        groups.push_back({ (u32)groups.size(), q });
                        rep[groups.back().first] = k.second;
                    }
                }
                for (auto& g : groups) {
                    if (rep[g.first]->target == op.e1->target && rep[g.first]->copies == op.e1->copies)
                        continue;
                    if (branch(g.second)) {
                        e = rep[g.first];
                        break;
                    }
                }
            }
            takeEdge(fr, *e);
            break;
        }
        case O_CALL:
            doCall(op);
            break;
        case O_RET: {
            std::vector<Val> v;
            for (auto& t : *op.terms)
                v.push_back(R(fr, t.first));
            doRet(v);
            break;
        }
        case O_RESUME: {
            u64 x = concretize(R(fr, op.a), 64);
            cur->pendExc = x;
            popFrame();
            if (cur->frames.empty() || cur->frames.size() < 1)
                violation("uncaught", "exception escapes thread");
            // the caller's frame holds the call instruction
            unwind();
            break;
        }
        case O_LANDINGPAD:
            fr.regs[op.dst] = cv(cur->pendExc);
            fr.regs[op.dst + 1] = cv(cur->pendSel);
            ++fr.pc;
            break;
        case O_UNREACHABLE:
            violation("unreachable", "control reached a point the compiler considers impossible (undefined behaviour)");
        case O_RMW: {
            u64 a = resolve(R(fr, op.a), (op.w + 7) / 8, true);
            if (op.w2 == 3 && atomicPoint(a, op.w2, true))
                break;
            AtomicScope at(*this, a, op.w2);
            Val old = load(a, op.w);
            Val b = R(fr, op.b), n;
            switch (op.sub) {
            case AtomicRMWInst::Xchg:
                n = b;
                break;
            case AtomicRMWInst::Add:
                n = binop(*this, K_ADD, old, b, op.w);
                break;
            case AtomicRMWInst::Sub:
                n = binop(*this, K_SUB, old, b, op.w);
                break;
            case AtomicRMWInst::And:
                n = binop(*this, K_AND, old, b, op.w);
                break;
            case AtomicRMWInst::Or:
                n = binop(*this, K_OR, old, b, op.w);
                break;
            case AtomicRMWInst::Xor:
                n = binop(*this, K_XOR, old, b, op.w);
                break;
            default:
                unsupported("atomicrmw operation");
            }
            store(a, n, op.w);
            fr.regs[op.dst] = old;
            ++fr.pc;
            break;
        }
        case O_CMPXCHG: {
            u64 a = resolve(R(fr, op.a), (op.w + 7) / 8, true);
            if (op.w2 == 3 && atomicPoint(a, op.w2, true))
                break;
            AtomicScope at(*this, a, op.w2);
            Val old = load(a, op.w);
            Val q = cmpop(CmpInst::ICMP_EQ, old, R(fr, op.b), op.w);
            bool eq = q.e ? branch(q.e) : q.c != 0;
            if (eq)
                store(a, R(fr, op.c), op.w);
            fr.regs[op.dst] = old;
            fr.regs[op.dst + 1] = cv(eq);
            ++fr.pc;
            break;
        }
        case O_FBIN: {
            Val a = R(fr, op.a), b = R(fr, op.b);
            if ((a.e || b.e) && (op.w == 64 || op.w == 32) && op.sub != Instruction::FRem) {
                Kind k = op.sub == Instruction::FAdd ? K_FADD : op.sub == Instruction::FSub ? K_FSUB
                    : op.sub == Instruction::FMul                                           ? K_FMUL
                                                                                            : K_FDIV;
                fr.regs[op.dst] = ev(mkBin(k, toE(a, op.w), toE(b, op.w)));
                ++fr.pc;
                break;
            }
            if (a.e || b.e) {
                sh->narrowed++;
                a = cv(concretize(a, op.w, 1));
                b = cv(concretize(b, op.w, 1));
            }
            double x = asD(a.c, op.w), y = asD(b.c, op.w), r = 0;
            switch (op.sub) {
            case Instruction::FAdd:
                r = x + y;
                break;
            case Instruction::FSub:
                r = x - y;
                break;
            case Instruction::FMul:
                r = x * y;
                break;
            case Instruction::FDiv:
                r = x / y;
                break;
            default:
                r = fmod(x, y);
            }
            fr.regs[op.dst] = cv(fromD(r, op.w));
            ++fr.pc;
            break;
        }
        case O_FCMP: {
            Val a = R(fr, op.a), b = R(fr, op.b);
            if ((a.e || b.e) && (op.w == 64 || op.w == 32)) {
                Expr *x = toE(a, op.w), *y = toE(b, op.w), *r = nullptr;
                // NaN on either side
                Expr* un = mkOr(mkNot(mkBin(K_FEQ, x, x)), mkNot(mkBin(K_FEQ, y, y)));
                switch (op.sub) {
                case CmpInst::FCMP_OEQ:
                case CmpInst::FCMP_UEQ:
                    r = mkBin(K_FEQ, x, y);
                    break;
                case CmpInst::FCMP_OGT:
                case CmpInst::FCMP_UGT:
                    r = mkBin(K_FLT, y, x);
                    break;
                case CmpInst::FCMP_OGE:
                case CmpInst::FCMP_UGE:
                    r = mkBin(K_FLE, y, x);
                    break;
                case CmpInst::FCMP_OLT:
                case CmpInst::FCMP_ULT:
                    r = mkBin(K_FLT, x, y);
                    break;
                case CmpInst::FCMP_OLE:
                case CmpInst::FCMP_ULE:
                    r = mkBin(K_FLE, x, y);
                    break;
                case CmpInst::FCMP_ONE:
                    r = mkAnd(mkNot(un), mkNot(mkBin(K_FEQ, x, y)));
                    break;
                case CmpInst::FCMP_UNE:
                    r = mkNot(mkBin(K_FEQ, x, y));
                    break;
                case CmpInst::FCMP_ORD:
                    r = mkNot(un);
                    break;
                case CmpInst::FCMP_UNO:
                    r = un;
                    break;
                default:
                    r = mkConst(op.sub == CmpInst::FCMP_TRUE, 1);
                }
                if (op.sub == CmpInst::FCMP_UEQ || op.sub == CmpInst::FCMP_UGT || op.sub == CmpInst::FCMP_UGE
                    || op.sub == CmpInst::FCMP_ULT || op.sub == CmpInst::FCMP_ULE)
                    r = mkOr(un, r);
                fr.regs[op.dst] = ev(r);
                ++fr.pc;
                break;
            }
            if (a.e || b.e) {
                sh->narrowed++;
                a = cv(concretize(a, op.w, 1));
                b = cv(concretize(b, op.w, 1));
            }
            double x = asD(a.c, op.w), y = asD(b.c, op.w);
            bool un = x != x || y != y, r = false;
            switch (op.sub) {
            case CmpInst::FCMP_OEQ:
                r = !un && x == y;
                break;
            case CmpInst::FCMP_OGT:
                r = !un && x > y;
                break;
            case CmpInst::FCMP_OGE:
                r = !un && x >= y;
                break;
            case CmpInst::FCMP_OLT:
                r = !un && x < y;
                break;
            case CmpInst::FCMP_OLE:
                r = !un && x <= y;
                break;
            case CmpInst::FCMP_ONE:
                r = !un && x != y;
                break;
            case CmpInst::FCMP_ORD:
                r = !un;
                break;
            case CmpInst::FCMP_UNO:
                r = un;
                break;
            case CmpInst::FCMP_UEQ:
                r = un || x == y;
                break;
            case CmpInst::FCMP_UGT:
                r = un || x > y;
                break;
            case CmpInst::FCMP_UGE:
                r = un || x >= y;
                break;
            case CmpInst::FCMP_ULT:
                r = un || x < y;
                break;
            case CmpInst::FCMP_ULE:
                r = un || x <= y;
                break;
            case CmpInst::FCMP_UNE:
                r = un || x != y;
                break;
            case CmpInst::FCMP_TRUE:
                r = true;
                break;
            }
            fr.regs[op.dst] = cv(r);
            ++fr.pc;
            break;
        }
        case O_FCAST: {
            Val a = R(fr, op.a);
            if (a.e) {
                sh->narrowed++;
                a = cv(concretize(a, op.w2, 1));
            }
            u64 r = 0;
            switch (op.sub) {
            case Instruction::FPToUI:
                r = (u64)asD(a.c, op.w2) & mask64(op.w);
                break;
            case Instruction::FPToSI:
                r = (u64)(i64)asD(a.c, op.w2) & mask64(op.w);
                break;
            case Instruction::UIToFP:
                r = fromD((double)a.c, op.w);
                break;
            case Instruction::SIToFP:
                r = fromD((double)sx64(a.c, op.w2), op.w);
                break;
            default:
                r = fromD(asD(a.c, op.w2), op.w);
            }
            fr.regs[op.dst] = cv(r);
            ++fr.pc;
            break;
        }
        case O_NOP:
            ++fr.pc;
            break;
        default: {
            std::string s;
            raw_string_ostream os(s);
            if (op.I)
                op.I->print(os);
            unsupported("instruction " + s);
        }
        }
    }
}

#include "handlers.inc"

// ------------------------------------------------------------------ main

static void usage()
{
    fprintf(stderr, "symx module.bc entry --out log [--time s] [--jobs n] [--max-insts n] [--param k=v]\n");
    exit(2);
}

static void workerMain()
{
    Thread* t = new Thread();
    t->id = 0;
    E->threads.push_back(t);
    E->cur = t;
    vcTick(t);
    E->initGlobals();
    // every function gets its id in module order so that coverage indices agree across processes
    for (Function& F : *E->M)
        if (!F.isDeclaration())
            E->getFn(&F);
    if (GlobalVariable* gc = E->M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, const Function*>> cs;
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                auto* s = cast<ConstantStruct>(ca->getOperand(i));
                cs.push_back({ cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cast<Function>(s->getOperand(1)->stripPointerCasts()) });
            }
            std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : cs) {
                E->pushFrame(E->getFn(c.second), {}, true);
                E->run(0);
            }
        }
    Function* F = E->M->getFunction(opt.entry);
    if (!F || F->isDeclaration())
        E->unsupported("no entry function " + opt.entry);
    E->inEntry = true;
    E->pushFrame(E->getFn(F), {}, true);
    E->run(0);
    E->endPath("ok");
}

int main(int argc, char** argv)
{
    if (argc < 3)
        usage();
    opt.bc = argv[1];
    opt.entry = argv[2];
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { if (i + 1 >= argc) usage(); return std::string(argv[++i]); };
        if (a == "--out")
            opt.out = next();
        else if (a == "--time")
            opt.time = atof(next().c_str());
        else if (a == "--jobs")
            opt.jobs = atoi(next().c_str());
        else if (a == "--max-insts")
            opt.maxInsts = strtoull(next().c_str(), 0, 10);
        else if (a == "--max-mem")
            opt.maxMem = strtoull(next().c_str(), 0, 10);
        else if (a == "--max-frames")
            opt.maxFrames = atoi(next().c_str());
        else if (a == "--max-viol")
            opt.maxViol = atoi(next().c_str());
        else if (a == "--samples")
            opt.samples = strtoull(next().c_str(), 0, 10);
        else if (a == "--repo")
            opt.repo = next();
        else if (a == "--smt-dir")
            opt.smtDir = next();
        else if (a == "--smt-max")
            opt.smtMax = strtoull(next().c_str(), 0, 10);
        else if (a == "--preempt")
            opt.preempt = atoi(next().c_str());
        else if (a == "--rlimit")
            g_rlimit = strtoull(next().c_str(), 0, 10);
        else if (a == "--races")
            opt.races = true;
        else if (a == "--trace")
            opt.trace = true;
        else if (a == "--profile") // every query that was not quick, with its place, on stderr
            g_profile = [](u64 us, const std::vector<Expr*>& cs) {
                if (us > 2000 && E)
                    fprintf(stderr, "%8llu us %zu conjuncts at %s\n", (unsigned long long)us, cs.size(), E->backtrace().c_str());
            };
        else if (a == "--param") {
            std::string p = next();
            size_t e = p.find('=');
            opt.params[p.substr(0, e)] = strtoull(p.substr(e + 1).c_str(), 0, 0);
        } else
            usage();
    }
    t0 = now();
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shared));
    sh->slots = opt.jobs - 1;
    sh->live = 1;
    arenaInit();
    ++g_persist;
    LLVMContext* llctx = new LLVMContext();
    --g_persist;
    pcInit();
    E = new Engine(*llctx);
    E->logFd = open(opt.out.empty() ? "/dev/stdout" : opt.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    SMDiagnostic err;
    {
        Persist keep;
        E->M = parseIRFile(opt.bc, err, E->C);
    }
    if (!E->M) {
        err.print("symx", errs());
        return 2;
    }
    E->DL = &E->M->getDataLayout();
    registerHandlers();
    prctl(PR_SET_CHILD_SUBREAPER, 1);

    pid_t worker = fork();
    if (worker == 0) {
        solverWarmup();
        snapRun(workerMain, { wantSplit, inChild, switched });
        processExit();
    }
    // reap everything
    bool deadlineKill = false;
    for (;;) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                if (!deadlineKill) {
                    sh->errors++;
                    logLine("{\"t\":\"error\",\"msg\":\"exploration process died, status " + std::to_string(st) + "\"}");
                }
                sh->live--;
                if (p == worker || true)
                    sh->slots++;
            }
            continue;
        }
        if (p < 0 && errno == ECHILD)
            break;
        if (now() - t0 > opt.time + 20 && !deadlineKill) {
            // stragglers (a long solver call): give up on them
            deadlineKill = true;
            sh->stop = 2;
            sh->killed++;
            signal(SIGTERM, SIG_IGN);
            // all descendants share our process group
            kill(0, SIGTERM);
        }
        usleep(2000);
    }
    // repo functions encoded
    std::vector<const Function*> order;
    for (Function& F : *E->M)
        if (!F.isDeclaration())
            E->getFn(&F);
    std::string fl = "{\"t\":\"functions\",\"l\":[";
    bool first = true;
    u64 nf = 0;
    for (FnInfo* f : E->fnList)
        if (f->id < (1 << 16) && sh->fnSeen[f->id]) {
            ++nf;
            if (f->repo) {
                fl += (first ? "\"" : ",\"") + jesc(f->name) + "\"";
                first = false;
            }
        }
    fl += "],\"total\":" + std::to_string(nf) + "}";
    logLine(fl);
    char buf[2048];
    snprintf(buf, sizeof buf,
        "{\"t\":\"summary\",\"entry\":\"%s\",\"wall\":%.2f,\"stop\":%d,\"paths\":%llu,\"ok\":%llu,\"assume\":%llu,\"cut\":%llu,"
        "\"killed\":%llu,\"violations\":%llu,\"errors\":%llu,\"insts\":%llu,\"maxInsts\":%llu,\"forks\":%llu,\"branches\":%llu,\"inconclusive\":%llu,"
        "\"narrowed\":%llu,\"asserts\":%llu,\"assertsConst\":%llu,\"assertsSyn\":%llu,\"assertsSolver\":%llu,\"queries\":%llu,\"qsat\":%llu,"
        "\"qunsat\":%llu,\"qunknown\":%llu,\"qdomain\":%llu,\"qmodel\":%llu,\"qcached\":%llu,\"qms\":%.1f,\"qmaxms\":%.1f,\"maxDepth\":%llu,\"schedPoints\":%llu}",
        opt.entry.c_str(), now() - t0, (int)sh->stop, (unsigned long long)sh->paths, (unsigned long long)sh->ok, (unsigned long long)sh->assumed,
        (unsigned long long)sh->cut, (unsigned long long)sh->killed, (unsigned long long)sh->violations, (unsigned long long)sh->errors,
        (unsigned long long)sh->insts, (unsigned long long)sh->maxInsts, (unsigned long long)sh->forks, (unsigned long long)sh->branches,
        (unsigned long long)sh->inconclusive, (unsigned long long)sh->narrowed, (unsigned long long)sh->asserts,
        (unsigned long long)sh->assertsConst, (unsigned long long)sh->assertsSyn, (unsigned long long)sh->assertsSolver,
        (unsigned long long)sh->queries, (unsigned long long)sh->qsat, (unsigned long long)sh->qunsat, (unsigned long long)sh->qunknown,
        (unsigned long long)sh->qdomain, (unsigned long long)sh->qmodel, (unsigned long long)sh->qcached, sh->qus / 1000.0, sh->qmaxus / 1000.0,
        (unsigned long long)sh->maxDepth, (unsigned long long)sh->schedPoints);
    logLine(buf);
    return 0;
}
