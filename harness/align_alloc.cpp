// C40: aligned_allocator: for every number of elements a suitable block or std::bad_alloc
#include <cstdlib>
#include "cista/aligned_allocator.h"
#include "cista/containers/vector.h"
#include "vs.h"
struct T { unsigned char b[ELEM]; };
void vs_main() {
  auto const live = vs_heap_live();
  auto const n = vs::sym<std::size_t>("n");
  vs_assume(n <= 5 || n >= 1UL << 58);  // sizes between them either exist or not: no wrapping
  cista::aligned_allocator<T, ALIGN> a;
  T* p = nullptr;
  bool failed = false;
  try { p = a.allocate(n); } catch (std::bad_alloc const&) { failed = true; }
  if (!failed) {
    VS_CHECKM(reinterpret_cast<std::uintptr_t>(p) % ALIGN == 0U, "aligned as requested");
    if (n != 0) {
      VS_CHECKM(n <= ~std::size_t{0} / sizeof(T), "more elements than memory");
      p[n - 1].b[ELEM - 1] = 1;
      VS_CHECKM(p[n - 1].b[ELEM - 1] == 1, "the last element is backed by memory");
    }
    a.deallocate(p, n);
    vs_reach("ok");
  } else {
    VS_CHECKM(vs_heap_live() == live, "a failed allocation leaves nothing behind");
    vs_reach("failed");
  }
  VS_CHECKM(vs_heap_live() == live, "deallocate frees the block");
  vs_reach("end");
}
