// Serialization round trips: C01, C06 (MODE big endian), C07 (relocation), C09 (alignment), C10 (modification: see ser_mod.cpp)
#include "ser.h"
#include "ser_multi.h"
#ifndef MODES
#define MODES cista::mode::NONE
#endif
using cista::mode;
constexpr mode M = MODES;
#include "ser_types.h"
static unsigned char* g_buf = nullptr;
void vs_main() {
  unsigned long const live = vs_heap_live();
  {
    std::size_t size = 0;
    {
      root_t v{};
      make(v);
      auto const b = cista::serialize<M>(v);
      // the bytes go to a different, maximally aligned place; the original is destroyed
      size = b.size();
      g_buf = static_cast<unsigned char*>(std::aligned_alloc(64, (size + 63) / 64 * 64));
      std::memcpy(g_buf, b.data(), size);
    }
    g_from = g_buf; g_to = g_buf + size;
    root_t const* got = nullptr;
    try {
      got = cista::deserialize<root_t, M>(g_buf, g_buf + size);
    } catch (...) {
      vs_assert(false, "deserialization of serialized data failed");
    }
    tp.rewind();
    {
      root_t ref{};
      make(ref);
      same(ref, *got);
    }
    std::free(g_buf);
  }
  vs_assert(vs_heap_live() == live, "memory leaked");
  vs_reach("end");
}
