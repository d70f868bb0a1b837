// C13/C14: capacity arithmetic of reserve/resize for every requested size
#include "cista/containers/vector.h"
#include "seq.h"
using T = ELEM;
#ifndef SIZE_T
#define SIZE_T std::uint32_t
#endif
void vs_main() {
  auto n = vs::sym<SIZE_T>("n");
  auto x = vs::sym<T>("x");
  cista::basic_vector<T, cista::NS::ptr, false, SIZE_T> v;
  v.push_back(x);
  bool failed = false;
  try { v.reserve(n); } catch (std::bad_alloc const&) { failed = true; }
  VS_CHECKM(v.size() == 1 && v[0] == x, "reserve keeps the contents");
  if (!failed) {
    VS_CHECKM(v.allocated_size_ >= n && v.allocated_size_ >= 1, "reserve provides the requested capacity");
    // the whole reported capacity is really available
    T* last = v.begin() + (v.allocated_size_ - 1);
    *last = x;
    VS_CHECKM(*last == x, "capacity is backed by memory");
    vs_reach("ok");
  } else {
    vs_reach("failed");
  }
  vs_reach("end");
}
