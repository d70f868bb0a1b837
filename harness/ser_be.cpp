// C06: the big endian buffer has the layout of the little endian buffer, every scalar most significant byte first
#include "ser.h"
#include "ser_multi.h"
using cista::mode;
#include "ser_types.h"
#ifndef EXTRA
#define EXTRA mode::NONE
#endif
static constexpr mode LE = EXTRA, BE = LE | mode::SERIALIZE_BIG_ENDIAN;
static constexpr unsigned HDR = static_cast<unsigned>(cista::data_start(LE));
void vs_main() {
  {
    root_t v{};
    make(v);
    auto le = cista::serialize<LE>(v);
    auto be = cista::serialize<BE>(v);
    VS_CHECKM(le.size() == be.size(), "big endian data has a different size");
    g_from = le.data(); g_to = g_from + le.size();
    auto const r = reinterpret_cast<root_t*>(le.data() + HDR);
    // the header words
    if (HDR >= 8 && (static_cast<unsigned long>(LE) & static_cast<unsigned long>(mode::WITH_INTEGRITY)) == 0UL)
      for (unsigned i = 0; i < 8; ++i) VS_CHECKM(le[i] == be[7 - i], "version is not stored most significant byte first");
    // offset pointers work in place
    g_be = be.data();
    same(v, *r);
    g_be = nullptr;
    // the same mode reads it back
    unsigned char* copy = static_cast<unsigned char*>(std::aligned_alloc(64, (be.size() + 63) / 64 * 64));
    std::memcpy(copy, be.data(), be.size());
    g_from = copy; g_to = copy + be.size();
    root_t const* got = nullptr;
    try { got = cista::deserialize<root_t, BE>(copy, copy + be.size()); } catch (...) { vs_assert(false, "deserialization of big endian data failed"); }
    same(v, *got);
    std::free(copy);
  }
  vs_reach("end");
}
