// Native replay runtime: feeds a recorded counterexample/path to the real code.
#include "vs.h"
#include <sys/mman.h>
#include <ucontext.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
static std::map<std::string, std::vector<std::vector<unsigned char>>> in_;
static std::map<std::string, size_t> pos_;
static unsigned long h_ = 1469598103934665603ULL, n_ = 0;
extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" __attribute__((weak)) void __asan_unpoison_memory_region(void const volatile*, size_t);
static long live_ = 0, fail_at_ = -1, alloc_n_ = 0;
static const size_t kMax = 1UL << 22;
static void say(char const* fmt, ...) {  // no stdio output functions: a harness may model those
  char b[1024];
  va_list a;
  va_start(a, fmt);
  auto const n = vsnprintf(b, sizeof(b), fmt, a);
  va_end(a);
  std::cout.write(b, n < (int)sizeof(b) ? n : (int)sizeof(b) - 1) << std::flush;
}
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __real__Znwm(size_t); void* __real__Znam(size_t); void* __real__ZnwmSt11align_val_t(size_t, size_t); void* __real__ZnamSt11align_val_t(size_t, size_t);
void __real__ZdlPv(void*); void __real__ZdlPvm(void*, size_t); void __real__ZdaPv(void*); void __real__ZdaPvm(void*, size_t);
void __real__ZdlPvSt11align_val_t(void*, size_t); void __real__ZdlPvmSt11align_val_t(void*, size_t, size_t); void __real__ZdaPvSt11align_val_t(void*, size_t); void __real__ZdaPvmSt11align_val_t(void*, size_t, size_t);
static bool fails(size_t n) { if (n > kMax) return true; ++alloc_n_; return fail_at_ >= 0 && alloc_n_ > fail_at_; }
static void* cnt(void* p) { if (p) ++live_; return p; }
static void dec(void* p) { if (p) --live_; }
void* __wrap_malloc(size_t n) { return fails(n) ? nullptr : cnt(__real_malloc(n)); }
void* __wrap_calloc(size_t a, size_t b) { return fails(a * b) ? nullptr : cnt(__real_calloc(a, b)); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return fails(n) ? nullptr : cnt(__real_aligned_alloc(a, n)); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (fails(n)) return 12; int r = __real_posix_memalign(p, a, n); if (!r) cnt(*p); return r; }
void* __wrap_realloc(void* p, size_t n) { if (fails(n)) return nullptr; if (!p) return cnt(__real_malloc(n)); return __real_realloc(p, n); }
void __wrap_free(void* p) { dec(p); __real_free(p); }
void* __wrap__Znwm(size_t n) { if (fails(n)) throw std::bad_alloc(); return cnt(__real__Znwm(n)); }
void* __wrap__Znam(size_t n) { if (fails(n)) throw std::bad_alloc(); return cnt(__real__Znam(n)); }
void* __wrap__ZnwmSt11align_val_t(size_t n, size_t a) { if (fails(n)) throw std::bad_alloc(); return cnt(__real__ZnwmSt11align_val_t(n, a)); }
void* __wrap__ZnamSt11align_val_t(size_t n, size_t a) { if (fails(n)) throw std::bad_alloc(); return cnt(__real__ZnamSt11align_val_t(n, a)); }
void __wrap__ZdlPv(void* p) { dec(p); __real__ZdlPv(p); }
void __wrap__ZdlPvm(void* p, size_t n) { dec(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPv(void* p) { dec(p); __real__ZdaPv(p); }
void __wrap__ZdaPvm(void* p, size_t n) { dec(p); __real__ZdaPvm(p, n); }
void __wrap__ZdlPvSt11align_val_t(void* p, size_t a) { dec(p); __real__ZdlPvSt11align_val_t(p, a); }
void __wrap__ZdlPvmSt11align_val_t(void* p, size_t n, size_t a) { dec(p); __real__ZdlPvmSt11align_val_t(p, n, a); }
void __wrap__ZdaPvSt11align_val_t(void* p, size_t a) { dec(p); __real__ZdaPvSt11align_val_t(p, a); }
void __wrap__ZdaPvmSt11align_val_t(void* p, size_t n, size_t a) { dec(p); __real__ZdaPvmSt11align_val_t(p, n, a); }

void vs_sym(void* p, unsigned long n, const char* name) {
  long const sl = live_, sa = alloc_n_, sf = fail_at_;  // own bookkeeping does not count
  fail_at_ = -1;
  auto& v = in_[name];
  auto& k = pos_[name];
  live_ = sl; alloc_n_ = sa; fail_at_ = sf;
  if (k >= v.size()) { say("VS-MISSING input %s\n", name); _Exit(44); }
  if (v[k].size() != n) { say("VS-MISSING input size %s\n", name); _Exit(44); }
  if (n) memcpy(p, v[k].data(), n);
  ++k;
}
void vs_assume(bool c) { if (!c) { say("VS-ASSUME\n"); _Exit(43); } }
void vs_assert(bool c, const char* msg) { if (!c) { say("VS-FAIL %s\n", msg); _Exit(42); } }
void vs_reach(const char*) {}
void vs_observe(unsigned long v) { ++n_; for (int i = 0; i < 8; ++i) { h_ ^= (v >> (8 * i)) & 255; h_ *= 1099511628211ULL; } if (getenv("VS_SHOW")) say("obs %lu\n", v); }
unsigned long vs_concrete(unsigned long v) { return v; }
int vs_branch(bool c) { return c; }
struct fiber { ucontext_t c; char* stack; void (*f)(void*); void* arg; };
static fiber* fibers_[16];
static int n_fibers_ = 0, cur_fiber_ = 0;
static void fiber_main() { auto* x = fibers_[cur_fiber_]; x->f(x->arg); say("VS-FAIL thread function returned\n"); _Exit(42); }
int vs_fiber_new(void (*f)(void*), void* arg) {
  if (n_fibers_ == 0) { fibers_[0] = (fiber*)__real_calloc(1, sizeof(fiber)); n_fibers_ = 1; }
  auto* x = (fiber*)__real_calloc(1, sizeof(fiber));
  getcontext(&x->c);
  x->stack = (char*)__real_malloc(1 << 18);
  x->f = f; x->arg = arg;
  x->c.uc_stack.ss_sp = x->stack; x->c.uc_stack.ss_size = 1 << 18;
  makecontext(&x->c, fiber_main, 0);
  fibers_[n_fibers_] = x;
  return n_fibers_++;
}
void vs_fiber_switch(int to) {
  if (to == cur_fiber_) return;
  auto* from = fibers_[cur_fiber_];
  cur_fiber_ = to;
  swapcontext(&from->c, &fibers_[to]->c);
}
unsigned long vs_heap_live() { return (unsigned long)live_; }
void* vs_map_at(unsigned long addr, unsigned long n) {
  auto const pg = 4096UL, lo = addr / pg * pg - pg, hi = (addr + n) / pg * pg + 2 * pg;
  auto const p = mmap(reinterpret_cast<void*>(lo), hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(lo)) { say("VS-MISSING buffer at %lx\n", addr); _Exit(44); }
  if (__asan_poison_memory_region != nullptr) {
    __asan_poison_memory_region(p, hi - lo);
    __asan_unpoison_memory_region(reinterpret_cast<void*>(addr), n);
  }
  return reinterpret_cast<void*>(addr);
}
void vs_unmap(void* p) {
  auto const pg = 4096UL, lo = reinterpret_cast<unsigned long>(p) / pg * pg;
  munmap(reinterpret_cast<void*>(lo), pg);  // the pages around it stay out of use
}
void vs_alloc_fail_after(long n) { fail_at_ = n; alloc_n_ = 0; }
void vs_print(unsigned long v) { say("print %lu\n", v); }
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  std::ifstream f{argv[1]};
  if (!f) return 2;
  std::string name, hex;
  while (f >> name >> hex) {
    std::vector<unsigned char> b;
    auto nib = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    if (hex[0] != '-') for (std::size_t q = 0; q + 1 < hex.size(); q += 2) b.push_back((unsigned char)(nib(hex[q]) * 16 + nib(hex[q + 1])));
    in_[name].push_back(b);
  }
  live_ = 0;
  try {
    vs_main();
  } catch (std::exception const& e) {
    say("VS-FAIL uncaught exception %s\n", e.what()); _Exit(42);
  } catch (...) {
    say("VS-FAIL uncaught exception\n"); _Exit(42);
  }
  say("VS-OBS %lu %lu\n", h_, n_);
  _Exit(0);
}
