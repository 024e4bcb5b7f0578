// Atomic accesses of code that was compiled for ThreadSanitizer are scheduling points.  With the real
// run-time library these wrap its functions; without it they stand in for all of it.
#include <cstddef>
#include <cstdint>

extern "C" void symx_atomic(void* addr, int order, int writes);

#ifdef __SANITIZE_THREAD__
#define REAL(name) __real_##name
#define HOOK(name) __wrap_##name
#else
#define HOOK(name) name
#endif

extern "C" {
#ifdef __SANITIZE_THREAD__
#define DECL(T, sig, ...) T REAL(sig)(__VA_ARGS__);
#define DO(real, own) real
#else
#define DECL(T, sig, ...)
#define DO(real, own) own
#endif
#define RMW(bits, T, name, builtin)                                                              \
    DECL(T, __tsan_atomic##bits##_##name, volatile T*, T, int)                                   \
    T HOOK(__tsan_atomic##bits##_##name)(volatile T * p, T v, int mo)                            \
    {                                                                                            \
        if (mo == 5)                                                                             \
            symx_atomic((void*)p, mo, 1);                                                        \
        return DO(REAL(__tsan_atomic##bits##_##name)(p, v, mo), builtin(p, v, __ATOMIC_SEQ_CST)); \
    }
#define CAS(bits, T, name)                                                                                             \
    DECL(int, __tsan_atomic##bits##_compare_exchange_##name, volatile T*, T*, T, int, int)                             \
    int HOOK(__tsan_atomic##bits##_compare_exchange_##name)(volatile T * p, T * c, T v, int mo, int fmo)                \
    {                                                                                                                  \
        if (mo == 5)                                                                                                   \
            symx_atomic((void*)p, mo, 1);                                                                              \
        return DO(REAL(__tsan_atomic##bits##_compare_exchange_##name)(p, c, v, mo, fmo),                               \
            __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));                              \
    }
#define ALL(bits, T)                                                                                     \
    DECL(T, __tsan_atomic##bits##_load, const volatile T*, int)                                          \
    T HOOK(__tsan_atomic##bits##_load)(const volatile T* p, int mo)                                      \
    {                                                                                                    \
        symx_atomic((void*)p, mo, 0);                                                                    \
        return DO(REAL(__tsan_atomic##bits##_load)(p, mo), __atomic_load_n(p, __ATOMIC_SEQ_CST));        \
    }                                                                                                    \
    DECL(void, __tsan_atomic##bits##_store, volatile T*, T, int)                                         \
    void HOOK(__tsan_atomic##bits##_store)(volatile T * p, T v, int mo)                                  \
    {                                                                                                    \
        symx_atomic((void*)p, mo, 1);                                                                    \
        DO(REAL(__tsan_atomic##bits##_store)(p, v, mo), __atomic_store_n(p, v, __ATOMIC_SEQ_CST));       \
    }                                                                                                    \
    RMW(bits, T, exchange, __atomic_exchange_n)                                                          \
    RMW(bits, T, fetch_add, __atomic_fetch_add)                                                          \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                          \
    RMW(bits, T, fetch_and, __atomic_fetch_and)                                                          \
    RMW(bits, T, fetch_or, __atomic_fetch_or)                                                            \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                          \
    CAS(bits, T, strong)                                                                                 \
    CAS(bits, T, weak)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)

#ifndef __SANITIZE_THREAD__
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_vptr_read(void**) { }
void __tsan_read_range(void*, size_t) { }
void __tsan_write_range(void*, size_t) { }
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
#define ACCESS(n)                             \
    void __tsan_read##n(void*) { }            \
    void __tsan_write##n(void*) { }           \
    void __tsan_unaligned_read##n(void*) { }  \
    void __tsan_unaligned_write##n(void*) { } \
    void __tsan_volatile_read##n(void*) { }   \
    void __tsan_volatile_write##n(void*) { }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
#endif
}
