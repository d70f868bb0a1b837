// C09: everything in the buffer is aligned relative to the start of the buffer, also over-aligned types and wherever the
// serialization target keeps its bytes. AL: alignment of the element type
#include "ser.h"
#include "ser_multi.h"
#ifndef MODES
#define MODES cista::mode::NONE
#endif
#ifndef AL
#define AL 32
#endif
using cista::mode;
constexpr mode M = MODES;
struct alignas(AL) big { REC2(a, b) std::uint8_t a; std::uint16_t b; };
static bool operator==(big const& x, big const& y) { return x.a == y.a && x.b == y.b; }
namespace cista { template <> struct hashing<big> { hash_t operator()(big const& b, hash_t h = BASE_HASH) const { return hash_combine(h, b.a); } }; }
template <> struct key_of<big> { static big get(unsigned i) { return big{static_cast<std::uint8_t>(i), 7}; } };
#if defined(T_ROOT)
struct root_t { REC2(a, b) std::uint8_t a; big b; };
#elif defined(T_VEC)
struct root_t { REC3(a, b, c) data::vector<std::uint8_t> a; data::vector<big> b; data::vector<data::vector<big>> c; };
#elif defined(T_PTR)
struct node { REC2(a, b) data::unique_ptr<big> a; std::uint8_t b; };
struct root_t { REC3(a, b, c) data::string a; data::unique_ptr<big> b; data::vector<node> c; };
#elif defined(T_SUM)
struct root_t { REC4(a, b, c, d) std::uint8_t a; cista::optional<big> b; cista::variant<std::uint8_t, big> c; cista::pair<std::uint8_t, big> d; };
#elif defined(T_TUP)
struct root_t { REC2(a, b) data::vector<cista::tuple<std::uint8_t, big>> a; data::vector<cista::optional<big>> b; };
#elif defined(T_HASH)
struct root_t { REC2(a, b) data::hash_set<std::uint8_t> a; data::hash_map<std::uint16_t, big> b; };
#elif defined(T_INDEX)
struct root_t { REC3(a, b, c) std::uint8_t a; data::vecvec<std::uint32_t, big> b; data::nvec<std::uint32_t, big, 2> c; };
#endif
// bytes kept at an address that is only aligned to 2^k, growing like a vector
struct shifted {
  shifted() = default;
  unsigned char* base() const { return mem_ + shift(); }
  std::size_t shift() const { return 8U * off_; }
  std::size_t size() const { return n_; }
  void resize(std::size_t n) {
    if (n > cap_) {
      std::size_t const cap = 2 * n;
      auto* const m = static_cast<unsigned char*>(std::aligned_alloc(128, (cap + 64 + 127) / 128 * 128));
      if (n_ != 0) std::memcpy(m + shift(), base(), n_);
      std::free(mem_);
      mem_ = m; cap_ = cap;
    }
    std::memset(base() + n_, 0, n - n_);
    n_ = n;
  }
  unsigned char& operator[](std::size_t i) { return base()[i]; }
  unsigned char const& operator[](std::size_t i) const { return base()[i]; }
  unsigned char* mem_ = nullptr;
  std::size_t n_ = 0, cap_ = 0;
  unsigned off_ = 0;
};
void vs_main() {
  unsigned long const live = vs_heap_live();
  {
    cista::buf<shifted> t;
    t.buf_.off_ = vs::pick(8, "target");
    {
      root_t v{};
      make(v);
      cista::serialize<M>(t, v);
    }
    std::size_t const n = t.size();
    auto* const p = static_cast<unsigned char*>(std::aligned_alloc(128, (n + 127) / 128 * 128));
    std::memcpy(p, t.buf_.base(), n);
    std::free(t.buf_.mem_);
    root_t const* got = nullptr;
    try { got = cista::deserialize<root_t, M>(p, p + n); } catch (std::exception const&) { vs_assert(false, "deserialization of serialized data failed"); }
    g_from = p; g_to = p + n;
    tp.rewind();
    { root_t ref{}; make(ref); same(ref, *got); }
    std::free(p);
  }
  vs_assert(vs_heap_live() == live, "memory leaked");
  vs_reach("end");
}
