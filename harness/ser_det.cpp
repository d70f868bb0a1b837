// C07: serialized bytes depend on the value only (DET); they mean the same at every address (MOVE)
#include "ser.h"
#include "ser_multi.h"
#ifndef MODES
#define MODES cista::mode::NONE
#endif
using cista::mode;
constexpr mode M = MODES;
#ifdef DET
using root_t = DET;
#else
#include "ser_types.h"
#endif
static unsigned char* place(unsigned char const* b, std::size_t n) {
  auto* p = static_cast<unsigned char*>(std::malloc(n));
  std::memcpy(p, b, n);
  return p;
}
void vs_main() {
  unsigned long const live = vs_heap_live();
  {
#ifdef DET
    // bytes that belong to no member are the same
    void* const m1 = std::calloc(1, sizeof(root_t));
    root_t* const v = new (m1) root_t{};
    make(*v);
    auto const b = cista::serialize<M>(*v);
    tp.rewind();
    // the same value at other addresses: different alignment of the buffer and other distances between the parts
    void* const gap1 = std::malloc(40);
    alignas(16) unsigned char m2[sizeof(root_t) + 32] = {};
    void* const gap2 = std::malloc(1000);
    root_t& other = *new (m2 + (alignof(root_t) < 16 ? 8 : 0)) root_t{};
    make(other);
    auto const b2 = cista::serialize<M>(other);
    VS_CHECKM(b.size() == b2.size(), "serialized sizes of equal values differ");
    for (std::size_t i = 0; i < b.size(); ++i) VS_CHECKM(b[i] == b2[i], "serialized bytes of equal values differ");
    // serializing does not change the value
    auto const b3 = cista::serialize<M>(other);
    VS_CHECKM(b3 == b2, "serializing twice gives different bytes");
    std::free(gap1); std::free(gap2);
    v->~root_t();
    other.~root_t();
    std::free(m1);
#else
    cista::byte_buf b;
    { root_t v{}; make(v); b = cista::serialize<M>(v); }
    std::size_t const n = b.size();
    auto* const p = place(b.data(), n);
    try { (void)cista::deserialize<root_t, M>(p, p + n); } catch (std::exception const&) { vs_assert(false, "deserialization failed"); }
    // the deserialized data is the serialized data: bytes copied from there can be moved once more, the origin disappears
    auto* const q = place(p, n);
    std::memset(p, 0xEE, n);
    std::free(p);
    root_t const* got = nullptr;
    try { got = cista::deserialize<root_t, M>(static_cast<unsigned char const*>(q), static_cast<unsigned char const*>(q + n)); } catch (std::exception const&) { vs_assert(false, "deserialization at the second address failed"); }
    g_from = q; g_to = q + n;
    tp.rewind();
    { root_t ref{}; make(ref); same(ref, *got); }
    std::free(q);
#endif
  }
  vs_assert(vs_heap_live() == live, "memory leaked");
  vs_reach("end");
}
