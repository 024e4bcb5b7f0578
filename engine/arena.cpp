#include "arena.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <new>
#include <sys/mman.h>
#include <sys/types.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

bool g_arenaOn = false;
int g_persist = 0;

static const size_t PAGE = 4096;
static char* const BASE = (char*)0x200000000000ull;
static const size_t ARENA_SIZE = 24ull << 30;
static const size_t STACK_SIZE = 64ull << 20;

struct FreeBlk {
    FreeBlk* next;
};
struct Header {
    char* top;
    FreeBlk* small[65]; // 16-byte steps to 1024
    FreeBlk* big[40]; // powers of two
    ucontext_t ctx;
    bool result;
};
static Header* const H = (Header*)BASE;
static char* g_stack;

static inline bool inArena(void* p) { return (char*)p >= BASE && (char*)p < BASE + ARENA_SIZE; }

void arenaInit()
{
    void* p = mmap(BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != BASE) {
        perror("arena");
        _exit(2);
    }
    g_stack = (char*)mmap(0, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    H->top = BASE + ((sizeof(Header) + 63) & ~63ull);
    g_arenaOn = true;
}

// every block has a 16-byte header holding its class
static void* arenaAlloc(size_t n)
{
    if (n <= 1024) {
        size_t c = (n + 15) / 16;
        if (c == 0)
            c = 1;
        if (FreeBlk* b = H->small[c]) {
            H->small[c] = b->next;
            return b;
        }
        char* r = H->top;
        H->top += 16 + c * 16;
        *(uint64_t*)r = c;
        return r + 16;
    }
    unsigned k = 64 - __builtin_clzll(n - 1);
    if (k >= 38)
        return nullptr;
    if (FreeBlk* b = H->big[k]) {
        H->big[k] = b->next;
        return b;
    }
    char* r = H->top;
    size_t need = 16 + (1ull << k);
    if (n > (1 << 20)) // large blocks are not rounded up in use
        need = 16 + ((n + 4095) & ~4095ull), *(uint64_t*)r = 1000;
    if (r + need > BASE + ARENA_SIZE)
        return nullptr;
    H->top += need;
    *(uint64_t*)r = n > (1 << 20) ? 1000 : 100 + k;
    return r + 16;
}
static void arenaFree(void* p)
{
    uint64_t c = *(uint64_t*)((char*)p - 16);
    FreeBlk* b = (FreeBlk*)p;
    if (c == 1000) { // very large blocks are not reused
        return;
    }
    if (c >= 100) {
        b->next = H->big[c - 100];
        H->big[c - 100] = b;
    } else {
        b->next = H->small[c];
        H->small[c] = b;
    }
}

void* xalloc(size_t n) { return g_arenaOn && !g_persist ? arenaAlloc(n) : malloc(n ? n : 1); }
size_t arenaUsed() { return g_arenaOn ? (size_t)(H->top - BASE) : 0; }
void* xzalloc(size_t n)
{
    void* p = xalloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}
void xfree(void* p)
{
    if (!p)
        return;
    if (inArena(p))
        arenaFree(p);
    else
        free(p);
}

void* operator new(size_t n)
{
    void* p = xalloc(n);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xalloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return xalloc(n); }
void operator delete(void* p) noexcept { xfree(p); }
void operator delete[](void* p) noexcept { xfree(p); }
void operator delete(void* p, size_t) noexcept { xfree(p); }
void operator delete[](void* p, size_t) noexcept { xfree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { xfree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { xfree(p); }

// ------------------------------------------------------------------ snapshots

struct Page {
    uint32_t refs;
    char d[PAGE];
};
static Page* g_freePages;
static Page* newPage()
{
    Page* p = g_freePages;
    if (p)
        g_freePages = *(Page**)p->d;
    else
        p = (Page*)malloc(sizeof(Page));
    p->refs = 1;
    return p;
}
static void drop(Page* p)
{
    if (--p->refs == 0) {
        *(Page**)p->d = g_freePages;
        g_freePages = p;
    }
}
struct Snap {
    std::vector<Page*> pages;
    char* sp;
    std::vector<char> stack;
};
static std::deque<Snap*>* g_snaps;
static std::vector<Page*>* g_cur; // page contents last saved or restored
static ucontext_t g_sched;
static int g_req; // 1 fork, 2 end
static char* g_reqSp;
static SnapHooks g_hooks;
static CoEntry g_entry;

static Snap* save()
{
    Snap* s = new Snap();
    size_t n = (H->top - BASE + PAGE - 1) / PAGE;
    s->pages.resize(n);
    for (size_t i = 0; i < n; ++i) {
        char* a = BASE + i * PAGE;
        Page* c = i < g_cur->size() ? (*g_cur)[i] : nullptr;
        if (c && !memcmp(c->d, a, PAGE)) {
            ++c->refs;
            s->pages[i] = c;
        } else {
            Page* p = newPage();
            memcpy(p->d, a, PAGE);
            s->pages[i] = p;
        }
    }
    for (Page* p : *g_cur)
        drop(p);
    *g_cur = s->pages;
    for (Page* p : *g_cur)
        ++p->refs;
    s->sp = g_reqSp;
    s->stack.assign(s->sp, g_stack + STACK_SIZE);
    return s;
}
static void dropSnap(Snap* s)
{
    for (Page* p : s->pages)
        drop(p);
    delete s;
}
static void restore(Snap* s)
{
    for (size_t i = 0; i < s->pages.size(); ++i)
        memcpy(BASE + i * PAGE, s->pages[i]->d, PAGE);
    for (Page* p : *g_cur)
        drop(p);
    *g_cur = s->pages;
    for (Page* p : *g_cur)
        ++p->refs;
    memcpy(s->sp, s->stack.data(), s->stack.size());
    dropSnap(s);
}

static void trampoline()
{
    g_entry();
    abort(); // paths end through snapEnd
}

size_t snapPending() { return g_snaps ? g_snaps->size() : 0; }

void snapRun(CoEntry entry, SnapHooks h)
{
    ++g_persist; // the scheduler itself allocates outside the arena
    g_hooks = h;
    g_entry = entry;
    g_snaps = new std::deque<Snap*>();
    g_cur = new std::vector<Page*>();
    getcontext(&H->ctx);
    H->ctx.uc_stack.ss_sp = g_stack;
    H->ctx.uc_stack.ss_size = STACK_SIZE;
    H->ctx.uc_link = nullptr;
    makecontext(&H->ctx, trampoline, 0);
    for (;;) {
        --g_persist;
        swapcontext(&g_sched, &H->ctx);
        ++g_persist;
        if (g_req == 1) {
            H->result = true;
            g_snaps->push_back(save());
            H->result = false;
        } else {
            if (g_snaps->empty())
                break;
            Snap* s = g_snaps->back();
            g_snaps->pop_back();
            restore(s);
            g_hooks.switched();
        }
        while (!g_snaps->empty() && g_hooks.wantSplit()) {
            pid_t p = fork();
            if (p < 0) {
                perror("fork");
                _exit(9);
            }
            Snap* s = g_snaps->front();
            g_snaps->pop_front();
            if (p == 0) {
                g_snaps->clear(); // the parent explores those
                restore(s);
                --g_persist;
                g_hooks.inChild();
                ++g_persist;
                break;
            }
            dropSnap(s);
        }
    }
    --g_persist;
}

static void __attribute__((noinline)) toSched(int req)
{
    g_req = req;
    // everything above this address (minus a margin for the callee frames) is live
    g_reqSp = (char*)__builtin_frame_address(0) - 4096;
    swapcontext(&H->ctx, &g_sched);
}

bool snapFork()
{
    toSched(1);
    return H->result;
}
void snapEnd()
{
    toSched(2);
    abort();
}
