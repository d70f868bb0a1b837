// Threads with all interleavings of their accesses to shared memory. The code is compiled with clang's thread
// sanitizer instrumentation, so that every load, store and atomic operation of the library calls a __tsan_ function;
// those are implemented here: before each access to the shared range the next thread to run is an input (schedule).
// One memory location at a time is judged, for which all memory orders guarantee sequential consistency (coherence).
#pragma once
#include "vs.h"
#define NOINSTR __attribute__((disable_sanitizer_instrumentation, noinline))
namespace conc {
constexpr int MAX = 5;
inline int n = 0, cur = 0;            // threads 1..n
inline bool finished[MAX] = {};
inline bool active = false;
inline unsigned char const *lo = nullptr, *hi = nullptr, *lo2 = nullptr, *hi2 = nullptr;
inline bool plain_write = false, racing = false;
inline void (*body[MAX])(int) = {};

NOINSTR inline void next() {  // schedule any unfinished thread
  int cand[MAX], k = 0;
  for (int i = 1; i <= n; ++i)
    if (!finished[i]) cand[k++] = i;
  if (k == 0) { cur = 0; vs_fiber_switch(0); return; }
  int const c = cand[vs::pick(static_cast<unsigned>(k), "schedule")];
  if (c != cur) { cur = c; vs_fiber_switch(c); }
}
NOINSTR inline void access(void const* p) {
  auto const* q = static_cast<unsigned char const*>(p);
  if (active && cur != 0 && ((q >= lo && q < hi) || (q >= lo2 && q < hi2))) next();
}
inline void thread_main(void* a) {
  int const id = static_cast<int>(reinterpret_cast<unsigned long>(a));
  body[id](id);
  finished[id] = true;
  for (;;) next();
}
inline void add(void (*f)(int)) {
  ++n;
  body[n] = f;
}
inline void run() {
  for (int i = 1; i <= n; ++i) vs_assert(vs_fiber_new(thread_main, reinterpret_cast<void*>(static_cast<unsigned long>(i))) == i, "thread");
  active = true;
  next();
  active = false;
  for (int i = 1; i <= n; ++i) vs_assert(finished[i], "all threads ran to their end");
}
template <typename T> inline void share(T& x) {
  (lo ? lo2 : lo) = reinterpret_cast<unsigned char const*>(&x);
  (hi ? hi2 : hi) = reinterpret_cast<unsigned char const*>(&x) + sizeof(T);
}
}  // namespace conc
extern "C" {
NOINSTR void __tsan_init() {}
#define ACC(N) \
  NOINSTR void __tsan_read##N(void* p) { conc::access(p); } \
  NOINSTR void __tsan_write##N(void* p) { conc::access(p); } \
  NOINSTR void __tsan_unaligned_read##N(void* p) { conc::access(p); } \
  NOINSTR void __tsan_unaligned_write##N(void* p) { conc::access(p); } \
  NOINSTR void __tsan_read_write##N(void* p) { conc::access(p); } \
  NOINSTR void __tsan_unaligned_read_write##N(void* p) { conc::access(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NOINSTR void __tsan_vptr_update(void**, void*) {}
NOINSTR void __tsan_vptr_read(void**) {}
NOINSTR void __tsan_read_range(void* p, unsigned long) { conc::access(p); }
NOINSTR void __tsan_write_range(void* p, unsigned long) { conc::access(p); }
NOINSTR void __tsan_func_entry(void*) {}
NOINSTR void __tsan_func_exit() {}
NOINSTR void* __tsan_memcpy(void* d, void const* s, unsigned long n) { conc::access(d); conc::access(s); return __builtin_memcpy(d, s, n); }
NOINSTR void* __tsan_memmove(void* d, void const* s, unsigned long n) { conc::access(d); conc::access(s); return __builtin_memmove(d, s, n); }
NOINSTR void* __tsan_memset(void* d, int v, unsigned long n) { conc::access(d); return __builtin_memset(d, v, n); }
NOINSTR void __tsan_atomic_thread_fence(int) {}
NOINSTR void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(N, T) \
  NOINSTR T __tsan_atomic##N##_load(T const volatile* p, int) { conc::access((void*)p); return *p; } \
  NOINSTR void __tsan_atomic##N##_store(T volatile* p, T v, int) { conc::access((void*)p); *p = v; } \
  NOINSTR T __tsan_atomic##N##_exchange(T volatile* p, T v, int) { conc::access((void*)p); T const o = *p; *p = v; return o; } \
  NOINSTR T __tsan_atomic##N##_fetch_add(T volatile* p, T v, int) { conc::access((void*)p); T const o = *p; *p = static_cast<T>(o + v); return o; } \
  NOINSTR T __tsan_atomic##N##_fetch_sub(T volatile* p, T v, int) { conc::access((void*)p); T const o = *p; *p = static_cast<T>(o - v); return o; } \
  NOINSTR T __tsan_atomic##N##_fetch_and(T volatile* p, T v, int) { conc::access((void*)p); T const o = *p; *p = static_cast<T>(o & v); return o; } \
  NOINSTR T __tsan_atomic##N##_fetch_or(T volatile* p, T v, int) { conc::access((void*)p); T const o = *p; *p = static_cast<T>(o | v); return o; } \
  NOINSTR T __tsan_atomic##N##_fetch_xor(T volatile* p, T v, int) { conc::access((void*)p); T const o = *p; *p = static_cast<T>(o ^ v); return o; } \
  NOINSTR T __tsan_atomic##N##_compare_exchange_val(T volatile* p, T c, T v, int, int) { conc::access((void*)p); T const o = *p; if (vs_branch(o == c)) *p = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
}
