// Native counterpart of the symbolic executor: runs one harness entry of the real code, compiled by the
// ordinary compiler, on one recorded input sequence (including the thread schedule).
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <sys/resource.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <cxxabi.h>
#include <condition_variable>
#include <system_error>
#include <thread>

// Under ThreadSanitizer the recorded schedule is enforced by means that it does not take for
// synchronisation, and the program's own synchronisation is told to it.
#ifdef __SANITIZE_THREAD__
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
void __tsan_acquire(void*);
void __tsan_release(void*);
}
static void ignoreOn(const char* f, int l)
{
    AnnotateIgnoreReadsBegin(f, l);
    AnnotateIgnoreWritesBegin(f, l);
    AnnotateIgnoreSyncBegin(f, l);
}
static void ignoreOff(const char* f, int l)
{
    AnnotateIgnoreSyncEnd(f, l);
    AnnotateIgnoreWritesEnd(f, l);
    AnnotateIgnoreReadsEnd(f, l);
}
#else
static void ignoreOn(const char*, int) { }
static void ignoreOff(const char*, int) { }
static void __tsan_acquire(void*) { }
static void __tsan_release(void*) { }
#endif
struct Hidden {
    Hidden() { ignoreOn(__FILE__, __LINE__); }
    ~Hidden() { ignoreOff(__FILE__, __LINE__); }
};

static bool g_free = false; // free-running threads: the schedule is not enforced (race detection)
static std::vector<std::pair<std::string, std::string>> g_in;
static size_t g_pos = 0;
static std::map<std::string, uint64_t> g_params;
static FILE* g_out;

static void finish(int code)
{
    fflush(g_out);
    _exit(code);
}
static std::string hexOf(const void* p, size_t n)
{
    std::string r;
    char b[4];
    for (size_t i = 0; i < n; ++i) {
        snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]);
        r += b;
    }
    return r;
}
static std::string take(const char* name, size_t n)
{
    Hidden hidden;
    if (g_free) { // in order per name
        for (auto& x : g_in)
            if (x.first == name && x.second.size() == n) {
                x.first = "(used)";
                return x.second;
            }
        return std::string(n, '\0');
    }
#if !defined(__SANITIZE_THREAD__) && !defined(SYMX_ATOMICS)
    while (g_pos < g_in.size() && g_in[g_pos].first == "atomic" && g_in[g_pos].second == std::string(4, '\0'))
        ++g_pos; // no scheduling points in this build
#endif
    if (g_pos >= g_in.size()) {
        fprintf(g_out, "mismatch: no input left for %s\n", name);
        finish(13);
    }
    auto& x = g_in[g_pos++];
    if (x.first != name || x.second.size() != n) {
        fprintf(g_out, "mismatch: want %s of %zu bytes, have %s of %zu\n", name, n, x.first.c_str(), x.second.size());
        finish(13);
    }
    return x.second;
}
static uint64_t takeChoice(const char* name)
{
    std::string s = take(name, 4);
    uint32_t v;
    memcpy(&v, s.data(), 4);
    return v;
}

extern "C" {
void symx_bytes(void* p, size_t n, const char* name)
{
    std::string s = take(name, n);
    if (n)
        memcpy(p, s.data(), n);
}
void symx_fresh(void* p, size_t n) { memset(p, 0, n); }
uint64_t symx_choice(uint64_t n, const char* name)
{
    uint64_t v = takeChoice(name);
    if (v >= n && n) {
        fprintf(g_out, "mismatch: choice %s out of range\n", name);
        finish(13);
    }
    return v;
}
void symx_assume(int c)
{
    if (!c) {
        fprintf(g_out, "assumption fails\n");
        finish(11);
    }
}
void symx_assert_(int c, const char* msg)
{
    if (!c) {
        fprintf(g_out, "assert %s\n", msg);
        finish(10);
    }
}
void symx_fail(const char* msg) { symx_assert_(0, msg); }
uint64_t symx_concrete(uint64_t v) { return v; }
void symx_observe(const char* name, const void* p, size_t n) { fprintf(g_out, "obs %s %s\n", name, hexOf(p, n).c_str()); }
void symx_reach(const char* label) { fprintf(g_out, "reach %s\n", label); }
uint64_t symx_param(const char* name, uint64_t d)
{
    auto it = g_params.find(name);
    return it == g_params.end() ? d : it->second;
}
void symx_cut(const char* why)
{
    fprintf(g_out, "cut %s\n", why);
    finish(12);
    abort();
}
void symx_end()
{
    fprintf(g_out, "end\n");
    finish(0);
    abort();
}
void symx_unsupported(const char* what)
{
    fprintf(g_out, "unsupported %s\n", what);
    finish(13);
}
int symx_eq(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
int symx_is_symbolic(uint64_t) { return 0; }
uint64_t symx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t symx_insts() { return 0; }
uint64_t symx_logged() // the first call sends stderr to a scratch file
{
    static bool on = false;
    if (!on) {
        on = true;
        FILE* f = tmpfile();
        if (f)
            dup2(fileno(f), 2);
    }
    fflush(stderr);
    return lseek(2, 0, SEEK_END);
}
int symx_native() { return 1; }
void symx_norace(int on)
{
    if (on)
        ignoreOn(__FILE__, __LINE__);
    else
        ignoreOff(__FILE__, __LINE__);
}
void symx_nopreempt(int on);
void symx_opaque_numbers(int) {}
}

// ------------------------------------------------------------------ heap accounting (C++ allocations)

static uint64_t g_blocks, g_bytes;
extern "C" uint64_t symx_live_blocks() { return g_blocks; }
extern "C" uint64_t symx_mem_used() { return g_bytes; }

// ------------------------------------------------------------------ threads: one runs at a time

enum St { RUN,
    MUTEX,
    JOIN,
    COND,
    DONE };
struct NT {
    int id;
    pthread_t real;
    sem_t sem;
    St st = RUN;
    void* waitOn = nullptr;
    void* condMutex = nullptr;
    bool signaled = false, timed = false;
    void* spinAddr = nullptr;
    unsigned spin = 0;
    std::vector<void*> held;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
};
struct Mx {
    int owner = -1;
    int count = 0;
};
static std::vector<NT*> g_threads;
static NT* g_cur;
static __thread NT* t_me;
static std::map<void*, Mx> g_mx;
static int g_preempt = 1000, g_preemptions = 0;
static bool g_noPreempt;

extern "C" void symx_nopreempt(int on)
{
    Hidden hidden;
    g_noPreempt = on;
}
static bool enabled(NT* t)
{
    switch (t->st) {
    case RUN:
        return true;
    case MUTEX:
        return g_mx[t->waitOn].owner < 0;
    case JOIN:
        return g_threads[(size_t)t->waitOn]->st == DONE;
    case COND:
        return (t->signaled || t->timed) && g_mx[t->condMutex].owner < 0;
    default:
        return false;
    }
}
static void switchTo(NT* t)
{
    NT* me = t_me;
    g_cur = t;
    sem_post(&t->sem);
    if (me->st != DONE)
        while (sem_wait(&me->sem) != 0)
            ;
}
static void sched(bool must, const char* name = "sched")
{
    NT* me = t_me;
    std::vector<NT*> en;
    if (!must)
        en.push_back(me);
    for (NT* t : g_threads)
        if ((t != me || must) && t->st != DONE && enabled(t) && !(t == me && must && t->st == RUN))
            en.push_back(t);
    if (en.empty()) {
        fprintf(g_out, "deadlock\n");
        finish(15);
    }
    if (en.size() == 1 && en[0] == me)
        return;
    if (!must && (g_noPreempt || g_preemptions >= g_preempt))
        return;
    uint64_t k = en.size() > 1 ? takeChoice(name) : 0;
    if (k >= en.size()) {
        fprintf(g_out, "mismatch: schedule\n");
        finish(13);
    }
    if (en[k] == me)
        return;
    if (!must)
        ++g_preemptions;
    switchTo(en[k]);
}

extern "C" {
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);

static void me()
{
    Hidden hidden;
    if (!t_me) {
        NT* t = new NT();
        t->id = g_threads.size();
        sem_init(&t->sem, 0, 0);
        t->real = pthread_self();
        g_threads.push_back(t);
        t_me = g_cur = t;
    }
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    {
        Hidden hidden;
        g_mx.erase(m);
    }
    return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (g_free)
        return __real_pthread_mutex_destroy(m);
    Hidden hidden;
    auto it = g_mx.find(m);
    if (it != g_mx.end() && it->second.owner >= 0)
        return 16;
    for (NT* t : g_threads)
        if (t->st == MUTEX && t->waitOn == m)
            return 16;
    g_mx.erase(m);
    return 0;
}
static int lockIt2(pthread_mutex_t* m, bool tryOnly)
{
    me();
    Hidden hidden;
    NT* t = t_me;
    if (g_threads.size() > 1 && g_mx[m].owner != t->id)
        sched(false);
    for (;;) {
        Mx& x = g_mx[m];
        if (x.owner == t->id) {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
                x.count++;
                return 0;
            }
            if (tryOnly)
                return 16;
            fprintf(g_out, "deadlock: self lock\n");
            finish(15);
        }
        if (x.owner < 0) {
            x.owner = t->id;
            x.count = 1;
            t->held.push_back(m);
            t->st = RUN;
            return 0;
        }
        if (tryOnly)
            return 16;
        t->st = MUTEX;
        t->waitOn = m;
        sched(true);
        t->st = RUN;
    }
}
static int lockIt(pthread_mutex_t* m, bool tryOnly)
{
    int r = lockIt2(m, tryOnly);
    if (r == 0)
        __tsan_acquire(m);
    return r;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return g_free ? __real_pthread_mutex_lock(m) : lockIt(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return g_free ? __real_pthread_mutex_trylock(m) : lockIt(m, true); }
static void drop(NT* t, void* m)
{
    for (size_t i = t->held.size(); i-- > 0;)
        if (t->held[i] == m) {
            t->held.erase(t->held.begin() + i);
            return;
        }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (g_free)
        return __real_pthread_mutex_unlock(m);
    me();
    __tsan_release(m);
    Hidden hidden;
    auto it = g_mx.find(m);
    if (it == g_mx.end() || it->second.owner != t_me->id) {
        fprintf(g_out, "lock: unlock of a mutex the thread does not hold\n");
        finish(16);
    }
    if (--it->second.count == 0) {
        it->second.owner = -1;
        drop(t_me, m);
    }
    return 0;
}
// readers exclude each other too, as in the explorer
int __real_pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*);
int __real_pthread_rwlock_destroy(pthread_rwlock_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t* a)
{
    {
        Hidden hidden;
        g_mx.erase(r);
    }
    return __real_pthread_rwlock_init(r, a);
}
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* r) { return g_free ? __real_pthread_rwlock_destroy(r) : __wrap_pthread_mutex_destroy((pthread_mutex_t*)r); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* r) { return g_free ? __real_pthread_rwlock_rdlock(r) : lockIt((pthread_mutex_t*)r, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* r) { return g_free ? __real_pthread_rwlock_wrlock(r) : lockIt((pthread_mutex_t*)r, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { return g_free ? __real_pthread_rwlock_tryrdlock(r) : lockIt((pthread_mutex_t*)r, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* r) { return g_free ? __real_pthread_rwlock_trywrlock(r) : lockIt((pthread_mutex_t*)r, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* r) { return g_free ? __real_pthread_rwlock_unlock(r) : __wrap_pthread_mutex_unlock((pthread_mutex_t*)r); }
static int condIt2(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    me();
    __tsan_release(m);
    Hidden hidden;
    NT* t = t_me;
    Mx& x = g_mx[m];
    if (x.owner != t->id) {
        fprintf(g_out, "lock: condition wait without the mutex\n");
        finish(16);
    }
    x.owner = -1;
    x.count = 0;
    drop(t, m);
    t->st = COND;
    t->waitOn = c;
    t->condMutex = m;
    t->signaled = false;
    t->timed = timed;
    sched(true);
    Mx& y = g_mx[m];
    y.owner = t->id;
    y.count = 1;
    t->held.push_back(m);
    t->st = RUN;
    return t->signaled ? 0 : 110;
}
static int condIt(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    int r = condIt2(c, m, timed);
    __tsan_acquire(m);
    return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return g_free ? __real_pthread_cond_wait(c, m) : condIt(c, m, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return g_free ? __real_pthread_cond_timedwait(c, m, ts) : condIt(c, m, true); }
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return g_free ? __real_pthread_cond_clockwait(c, m, k, ts) : condIt(c, m, true); }
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    if (g_free)
        return __real_pthread_cond_signal(c);
    Hidden hidden;
    std::vector<NT*> w;
    for (NT* t : g_threads)
        if (t->st == COND && t->waitOn == c && !t->signaled)
            w.push_back(t);
    if (!w.empty())
        w[w.size() > 1 ? takeChoice("sched") : 0]->signaled = true;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    if (g_free)
        return __real_pthread_cond_broadcast(c);
    Hidden hidden;
    for (NT* t : g_threads)
        if (t->st == COND && t->waitOn == c)
            t->signaled = true;
    return 0;
}
static void* threadMain(void* p)
{
    NT* t = (NT*)p;
    {
        Hidden hidden;
        t_me = t;
        while (sem_wait(&t->sem) != 0)
            ;
    }
    void* r = t->fn(t->arg);
    __tsan_release(t);
    Hidden hidden;
    t->st = DONE;
    sched(true);
    return r;
}
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (g_free)
        return __real_pthread_create(out, a, fn, arg);
    me();
    NT* t;
    {
        Hidden hidden;
        t = new NT();
        t->id = g_threads.size();
        t->fn = fn;
        t->arg = arg;
        sem_init(&t->sem, 0, 0);
        g_threads.push_back(t);
    }
    int r = __real_pthread_create(&t->real, a, threadMain, t);
    *out = t->real;
    Hidden hidden;
    sched(false);
    return r;
}
int __wrap_pthread_join(pthread_t id, void** ret)
{
    if (g_free)
        return __real_pthread_join(id, ret);
    me();
    NT* done = nullptr;
    {
        Hidden hidden;
        for (NT* t : g_threads)
            if (pthread_equal(t->real, id)) {
                if (t == t_me)
                    return 35;
                if (t->st != DONE) {
                    t_me->st = JOIN;
                    t_me->waitOn = (void*)(size_t)t->id;
                    sched(true);
                    t_me->st = RUN;
                }
                // the thread may still be leaving; it holds nothing that matters
                done = t;
                break;
            }
    }
    if (done)
        __tsan_acquire(done);
    return done ? 0 : 3;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
static bool yieldTo()
{
    Hidden hidden;
    for (int pass = 0; pass < 2; ++pass) // those whose wait would time out come last
        for (size_t i = 1; i < g_threads.size(); ++i) {
            NT* t = g_threads[(t_me->id + i) % g_threads.size()];
            if (t->st != DONE && enabled(t) && (pass == 1 || t->st != COND || t->signaled)) {
                switchTo(t);
                return true;
            }
        }
    return false;
}
void symx_atomic(void* a, int order, int writes)
{
    if (g_free || g_threads.size() < 2 || !t_me)
        return;
    Hidden hidden;
    NT* t = t_me;
    if (order) {
        if (t->spinAddr != a) {
            t->spinAddr = a;
            t->spin = 0;
        }
        if (++t->spin >= 50) {
            t->spin = 0;
            if (yieldTo())
                return;
        }
    }
    if (writes)
        sched(false, "atomic");
}
int __real_sched_yield();
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
static int make()
{
    me();
    yieldTo();
    return 0;
}
int __wrap_sched_yield() { return g_free ? __real_sched_yield() : make(); }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { return g_free ? __real_nanosleep(a, b) : make(); }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { return g_free ? __real_clock_nanosleep(c, f, a, b) : make(); }
int __wrap_usleep(useconds_t u) { return g_free ? __real_usleep(u) : make(); }
unsigned __wrap_sleep(unsigned u) { return g_free ? __real_sleep(u) : make(); }
uint64_t symx_tid()
{
    if (g_free)
        return 0;
    me();
    return t_me->id;
}
uint64_t symx_held_locks()
{
    if (g_free)
        return 0;
    me();
    return t_me->held.size();
}
void symx_yield()
{
    if (g_free)
        return;
    me();
    Hidden hidden;
    if (g_threads.size() > 1)
        sched(false);
}
}

// the parts of std::thread and std::condition_variable that libstdc++.so holds, which call
// the functions above only from here
void std::thread::_M_start_thread(_State_ptr state, void (*)())
{
    void* (*run)(void*) = [](void* p) -> void* {
        _State_ptr s((_State*)p);
        s->_M_run();
        return nullptr;
    };
    if (__wrap_pthread_create(&_M_id._M_thread, nullptr, run, state.get()))
        throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
    state.release();
}
void std::thread::join()
{
    if (!joinable() || __wrap_pthread_join(_M_id._M_thread, nullptr))
        throw std::system_error(std::make_error_code(std::errc::invalid_argument));
    _M_id = id();
}
void std::condition_variable::wait(unique_lock<mutex>& l) { __wrap_pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void std::condition_variable::notify_one() noexcept { __wrap_pthread_cond_signal(native_handle()); }
void std::condition_variable::notify_all() noexcept { __wrap_pthread_cond_broadcast(native_handle()); }

static void onTerminate()
{
    std::type_info* t = abi::__cxa_current_exception_type();
    fprintf(g_out, "terminate %s\n", t ? t->name() : "");
    finish(14);
}

int main(int argc, char** argv)
{
    // replay entry inputs-file [name=value...]
    if (argc < 3)
        return 2;
    g_out = stdout;
    for (int i = 3; i < argc; ++i) {
        std::string p = argv[i];
        size_t e = p.find('=');
        std::string k = p.substr(0, e);
        uint64_t v = strtoull(p.substr(e + 1).c_str(), 0, 0);
        if (k == "preempt")
            g_preempt = (int)v;
        else if (k == "free")
            g_free = v != 0;
        else
            g_params[k] = v;
    }
    FILE* f = fopen(argv[2], "r");
    if (!f)
        return 2;
    char* line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        std::string s(line, n);
        while (!s.empty() && s.back() == '\n')
            s.pop_back();
        size_t t = s.rfind('\t');
        std::string h = s.substr(t + 1), b;
        for (size_t i = 0; i + 1 < h.size(); i += 2)
            b.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16));
        g_in.push_back({ s.substr(0, t), b });
    }
    free(line);
    fclose(f);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) {
        fprintf(stderr, "no entry %s\n", argv[1]);
        return 2;
    }
    std::set_terminate(onTerminate);
    fn();
    fprintf(g_out, "end\n");
#if !defined(__SANITIZE_THREAD__) && !defined(SYMX_ATOMICS)
    while (g_pos < g_in.size() && g_in[g_pos].first == "atomic" && g_in[g_pos].second == std::string(4, '\0'))
        ++g_pos;
#endif
    fprintf(g_out, "left %zu\n", g_in.size() - g_pos);
    finish(0);
}
