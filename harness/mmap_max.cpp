// C36: sizes that no file can have. MODE 0: mmap::reserve/resize, 1: mmap_vec with 64-bit sizes, 2: mmap_vec with 8-bit sizes
#include <stdexcept>
#include "cista/containers/mmap_vec.h"
#include "os.h"
using prot = cista::mmap::protection;
struct T3 { unsigned char b[3]; };
#if MODE == 2
using K = std::uint8_t;
using T = unsigned char;
#else
using K = std::uint64_t;
using T = T3;
#endif
extern "C" void vs_main() {
  unsigned char c[6];
  vs_sym(c, sizeof(c), "content");
#if MODE == 0
  {
    cista::mmap m{"a", prot::WRITE};
    m.resize(6);
    std::memcpy(m.data(), c, 6);
    auto const n = vs::sym<std::size_t>("n");
    vs_assume(n >= 1UL << 40U);
    bool thrown = false;
    try { if (vs::flip("resize")) m.resize(n); else m.reserve(n); } catch (std::exception const&) { thrown = true; }
    VS_CHECKM(thrown, "a size that is impossible is reported");
    VS_CHECKM(m.size() == 6 && std::memcmp(m.data(), c, 6) == 0, "the content is still there");
  }
  VS_CHECKM(os::size("a") == 6 && std::memcmp(os::content("a"), c, 6) == 0, "the file has the content");
#elif MODE == 1
  {
    cista::basic_mmap_vec<T, K> v{cista::mmap{"a", prot::WRITE}};
    v.resize(2);
    std::memcpy(v.data(), c, 6);
    auto const n = vs::sym<std::size_t>("n");
    vs_assume(n >= 1UL << 40U);
    bool thrown = false;
    try { if (vs::flip("resize")) v.resize(n); else v.reserve(n); } catch (std::exception const&) { thrown = true; }
    VS_CHECKM(thrown, "a size that is impossible is reported");
    VS_CHECKM(v.size() == 2 && std::memcmp(v.data(), c, 6) == 0, "the elements are still there");
  }
  VS_CHECKM(os::size("a") == 6 && std::memcmp(os::content("a"), c, 6) == 0, "the file has the elements");
#else
  unsigned n = 255 - vs::pick(4, "below");
  {
    cista::basic_mmap_vec<T, K> v{cista::mmap{"a", prot::WRITE}};
    v.resize(static_cast<K>(n));
    v[0] = c[0]; v[static_cast<K>(n - 1)] = c[1];
    unsigned const op = vs::pick(4, "op"), k = op < 2 ? 1 : vs::pick(6, "k");
    bool thrown = false;
    try {
      switch (op) {
        case 0: v.push_back(c[2]); break;
        case 1: v.emplace_back(c[2]); break;
        case 2: v.insert(v.end(), c, c + k); break;
        case 3: { unsigned char big[260] = {}; big[259] = c[2]; v.insert(v.begin() + 1, big, big + 256 + k - 2); break; }
      }
    } catch (std::exception const&) { thrown = true; }
    unsigned const add = op == 3 ? 254 + k : k;
    VS_CHECKM(thrown || n + add <= 255, "more elements than the size type can count");
    if (!thrown) n += add;
    VS_CHECKM(v.size() == n, "size");
    VS_CHECKM(v[0] == c[0] && v[static_cast<K>(n - 1 - (thrown ? 0 : add))] == c[1], "elements from before");
    if (thrown) vs_reach("full"); else { vs_reach("added"); if (add) VS_CHECKM(v[static_cast<K>(n - 1)] == (op < 2 ? c[2] : c[k - 1]), "added element"); }
  }
  VS_CHECKM(os::size("a") == n && os::content("a")[0] == c[0], "the file has the elements");
#endif
  vs_reach("end");
}
