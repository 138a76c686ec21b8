// Harness API.  In the symbolic executor these are built in; natively
// (replay) they read the solver's assignment from a file (see vf_native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_sym_(const char *name, unsigned bits);
uint64_t vf_choice_(const char *name, unsigned n);
void vf_assume_(bool c);
void vf_assert_(bool c, const char *msg);
void vf_fail_(const char *msg) __attribute__((noreturn));
void vf_reach_(const char *tag);
void vf_log_(const char *tag, uint64_t v);
void vf_end_() __attribute__((noreturn));
void vf_bound_(const char *what) __attribute__((noreturn));
void vf_unmodelled_(const char *what) __attribute__((noreturn));
uint64_t vf_heap_mark_();
void vf_heap_check_(uint64_t mark, const char *msg);
void vf_leak_ok_(const void *p);
bool vf_alive_(const void *p);
void vf_print_(const char *tag, uint64_t v);
bool vf_feasible_(bool c);
}
namespace vf {
inline int64_t i64(const char *n) { return (int64_t)vf_sym_(n, 64); }
inline int32_t i32(const char *n) { return (int32_t)vf_sym_(n, 32); }
inline uint8_t u8(const char *n) { return (uint8_t)vf_sym_(n, 8); }
inline bool flag(const char *n) { return vf_choice_(n, 2) != 0; }
inline unsigned choice(const char *n, unsigned k) { return (unsigned)vf_choice_(n, k); }
inline void assume(bool c) { vf_assume_(c); }
[[noreturn]] inline void skip() { vf_assume_(false); __builtin_unreachable(); } // not a case of interest
inline void check(bool c, const char *msg) { vf_assert_(c, msg); }
inline void reach(const char *t) { vf_reach_(t); }
inline void log(const char *t, uint64_t v) { vf_log_(t, v); }
inline uint64_t heapMark() { return vf_heap_mark_(); }
inline void heapCheck(uint64_t m, const char *msg = "memory released") { vf_heap_check_(m, msg); }
inline int64_t range(const char *n, int64_t lo, int64_t hi) { int64_t v = i64(n); assume(v >= lo && v <= hi); return v; }
inline int32_t range32(const char *n, int32_t lo, int32_t hi) { int32_t v = i32(n); assume(v >= lo && v <= hi); return v; }
}
#define HARNESS(name) extern "C" void name()
