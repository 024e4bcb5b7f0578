// Interface between harnesses, models and the symbolic executor (or the native replay library).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

extern "C" {
void symx_bytes(void* p, size_t n, const char* name); // n unconstrained input bytes
void symx_fresh(void* p, size_t n); // auxiliary unconstrained bytes (models only)
uint64_t symx_choice(uint64_t n, const char* name); // 0..n-1, each explored on its own path
void symx_assume(int c);
void symx_assert_(int c, const char* msg);
uint64_t symx_concrete(uint64_t v); // one path per feasible value
void symx_observe(const char* name, const void* p, size_t n);
void symx_reach(const char* label);
uint64_t symx_param(const char* name, uint64_t dflt);
void symx_cut(const char* why) __attribute__((noreturn)); // outside the stated bounds
void symx_fail(const char* msg);
void symx_end() __attribute__((noreturn)); // path finished
void symx_unsupported(const char* what);
int symx_eq(const void* a, const void* b, size_t n); // byte equality without forking
int symx_is_symbolic(uint64_t v);
uint64_t symx_ite(int c, uint64_t a, uint64_t b);
uint64_t symx_live_blocks();
uint64_t symx_mem_used();
uint64_t symx_insts();
uint64_t symx_logged(); // grows when something is written to stderr
uint64_t symx_tid();
uint64_t symx_held_locks();
void symx_norace(int on);
void symx_opaque_numbers(int on); // symbolic numbers print as some digit (their text is not looked at)
void symx_nopreempt(int on); // threads are switched only where one has to wait
void symx_yield();
int symx_native(); // 1 when running natively
}

#define CHECK(c, msg) symx_assert_((int)(bool)(c), msg)
#define ASSUME(c) symx_assume((int)(bool)(c))

template <typename T>
inline T symx(const char* name)
{
    T v;
    symx_bytes(&v, sizeof v, name);
    return v;
}
inline std::string symxString(size_t n, const char* name)
{
    std::string s(n, '\0');
    symx_bytes(&s[0], n, name);
    return s;
}
inline void observe(const char* name, const std::string& s) { symx_observe(name, s.data(), s.size()); }
template <typename T>
inline void observeV(const char* name, const T& v) { symx_observe(name, &v, sizeof v); }
// equality of strings whose lengths are concrete, without forking on the contents
inline bool same(const std::string& a, const std::string& b)
{
    return a.size() == b.size() && (a.empty() || symx_eq(a.data(), b.data(), a.size()));
}
