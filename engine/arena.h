// The interpreter's per-path state lives in one memory region, which is saved at a branch and restored to
// explore the other side. Long-lived caches (expressions, solver, lowered code) are kept outside it.
#pragma once
#include <cstddef>
#include <cstdint>

extern bool g_arenaOn;
extern int g_persist;
struct Persist {
    Persist() { ++g_persist; }
    ~Persist() { --g_persist; }
};
void arenaInit();
size_t arenaUsed(); // bytes of the arena that the current path has taken
void* xalloc(size_t n); // arena, or the C heap when the arena is off
void* xzalloc(size_t n);
void xfree(void* p);

typedef void (*CoEntry)();
// Runs entry as a coroutine on the saved stack. Returns when every pending alternative has been explored.
// onStart is called after each resumption of an alternative.
struct SnapHooks {
    bool (*wantSplit)(); // may a process be created for a pending alternative (takes a slot)
    void (*inChild)();
    void (*switched)(); // execution moved to a saved state
};
void snapRun(CoEntry entry, SnapHooks h);
bool snapFork(); // true in the alternative
[[noreturn]] void snapEnd(); // this path is finished
size_t snapPending();
