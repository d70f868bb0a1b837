// C02/C03: arbitrary bytes are deserialized. BUFN: buffer size, U_x: root type, MODES, RAW pointers by NS.
// C02: deserialization reads and writes inside of the buffer only and ends (every access is checked by the engine).
// C03 (TRAVERSE, deep check mode): an accepted object can be walked completely inside of the buffer.
#include "rbtree.h"
#include <stdexcept>
#include "cista/containers.h"
#include "cista/serialization.h"
#include "cista/containers/rtree.h"
#include "cista/containers/flat_matrix.h"
#include "vs.h"
#ifndef NS
#define NS offset
#endif
#ifndef MODES
#define MODES mode::NONE
#endif
namespace data = cista::NS;
using cista::mode;
static constexpr mode M = MODES;
static unsigned char* g_buf;
static unsigned g_depth = 0;
static unsigned long g_sum = 0;

template <typename T, typename = void> struct trav;
template <typename T> void walk(T const& t) {
  auto const p = reinterpret_cast<unsigned char const*>(&t);
  VS_CHECKM(p >= g_buf && p + sizeof(T) <= g_buf + BUFN, "accepted object refers outside of the buffer");
  VS_CHECKM(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0U, "accepted object is not aligned");
  trav<T>::go(t);
}
template <typename T> struct trav<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static void go(T const& t) {
    unsigned char b[sizeof(T)];
    std::memcpy(b, &t, sizeof(T));
    if constexpr (std::is_same_v<T, bool>) VS_CHECKM(b[0] <= 1, "accepted bool is neither true nor false");
    g_sum += b[0];
  }
};
template <typename T> struct trav<T, std::void_t<typename T::is_record>> { static void go(T const& t) { t.each([](auto const& m) { walk(m); }); } };
#define REC1(a) using is_record = void; template <typename F_> void each(F_ f) const { f(a); }
#define REC2(a, b) using is_record = void; template <typename F_> void each(F_ f) const { f(a); f(b); }
#define REC3(a, b, c) using is_record = void; template <typename F_> void each(F_ f) const { f(a); f(b); f(c); }
template <typename S> void chars(S const& s) {
  auto const n = s.size();
  auto const d = s.data();
  if (n != 0U) {
    auto const p = reinterpret_cast<unsigned char const*>(d);
    VS_CHECKM(p >= g_buf && p <= g_buf + BUFN && n <= static_cast<unsigned long>(g_buf + BUFN - p) / sizeof(*d), "accepted string refers outside of the buffer");
    VS_CHECKM(reinterpret_cast<std::uintptr_t>(p) % alignof(decltype(*d)) == 0U, "accepted string is not aligned");
    for (unsigned i = 0; i < n; ++i) g_sum += static_cast<unsigned long>(d[i]);
  }
}
template <typename P> struct trav<cista::basic_string<P>> { static void go(cista::basic_string<P> const& s) { chars(s); VS_CHECKM(s.is_short() || !s.h_.self_allocated_, "accepted string owns memory"); } };
template <typename P> struct trav<cista::basic_string_view<P>> { static void go(cista::basic_string_view<P> const& s) { chars(s); } };
template <typename P> struct trav<cista::basic_cstring<P>> { static void go(cista::basic_cstring<P> const& s) { chars(s); VS_CHECKM(s.data()[s.size()] == 0, "accepted cstring without terminator"); } };
template <typename T, template <typename> typename Ptr, bool I, typename S> struct trav<cista::basic_vector<T, Ptr, I, S>> {
  static void go(cista::basic_vector<T, Ptr, I, S> const& v) {
    VS_CHECKM(!v.self_allocated_, "accepted vector owns memory");
    unsigned long n = 0;
    for (auto const& x : v) { walk(x); ++n; }
    VS_CHECKM(n == v.size(), "vector iteration");
    if (!v.empty()) { walk(v.back()); walk(v.front()); }
  }
};
template <typename T> struct trav<cista::optional<T>> { static void go(cista::optional<T> const& o) { if (o.has_value()) walk(*o); } };
template <typename... T> struct trav<cista::variant<T...>> { static void go(cista::variant<T...> const& v) { VS_CHECKM(v.index() < sizeof...(T), "accepted variant has no alternative"); v.apply([](auto const& x) { walk(x); }); } };
template <typename... T> struct trav<cista::tuple<T...>> { static void go(cista::tuple<T...> const& t) { cista::apply([](auto const&... x) { (walk(x), ...); }, t); } };
template <typename A, typename B> struct trav<cista::pair<A, B>> { static void go(cista::pair<A, B> const& p) { walk(p.first); walk(p.second); } };
template <typename T, std::size_t K> struct trav<cista::array<T, K>> { static void go(cista::array<T, K> const& a) { for (auto const& x : a) walk(x); } };
template <typename T, typename P> struct trav<cista::basic_unique_ptr<T, P>> { static void go(cista::basic_unique_ptr<T, P> const& u) { VS_CHECKM(!u.self_allocated_, "accepted unique_ptr owns memory"); if (u.get() != nullptr) walk(*u); } };
template <typename T> void follow(T const* p) {
  if (p == nullptr) return;
  if (g_depth < 2) { ++g_depth; walk(*p); --g_depth; }  // pointers may form cycles
}
template <typename T> struct trav<cista::offset_ptr<T>> { static void go(cista::offset_ptr<T> const& p) { follow(p.get()); } };
template <typename T> struct trav<T*> { static void go(T* const& p) { follow(p); } };
template <typename K> K absent() { return K{}; }
template <typename T> T const& key_part(T const& t) { return t; }
template <typename A, typename B> A const& key_part(cista::pair<A, B> const& p) { return p.first; }
template <typename T, template <typename> typename Ptr, typename GK, typename GV, typename H, typename E> struct trav<cista::hash_storage<T, Ptr, GK, GV, H, E>> {
  static void go(cista::hash_storage<T, Ptr, GK, GV, H, E> const& h) {
    using K = std::decay_t<decltype(key_part(std::declval<T const&>()))>;
    VS_CHECKM(!h.self_allocated_, "accepted hash container owns memory");
    unsigned long n = 0;
    for (auto const& e : h) {
      walk(e);
      ++n;
      VS_CHECKM(n <= BUFN, "iteration over an accepted hash container");
    }
    VS_CHECKM(n == h.size(), "size of an accepted hash container");
    K k{};
#ifdef SYMKEY
    if constexpr (std::is_arithmetic_v<K>) k = vs::sym<K>("key");
#endif
    auto const it = h.find(k);
    if (it != h.end()) walk(*it);
  }
};
struct no_hash {
  template <typename T> cista::hash_t operator()(T const& k) const { return static_cast<cista::hash_t>(k); }
  template <typename T> static no_hash create() { return {}; }
};
#if defined(U_VEC)
struct root_t { REC2(a, b) data::vector<std::uint32_t> a; std::uint8_t b; };
#elif defined(U_VECSTR)
struct root_t { REC1(a) data::vector<data::string> a; };
#elif defined(U_VECVEC2)
struct root_t { REC1(a) data::vector<data::vector<std::uint16_t>> a; };
#elif defined(U_STR)
struct root_t { REC2(a, b) data::string a; data::string b; };
#elif defined(U_STR32)
struct root_t { REC1(a) data::u32string a; };
#elif defined(U_VIEW)
struct root_t { REC1(a) data::string_view a; };
#elif defined(U_CSTR)
struct root_t { REC1(a) cista::basic_cstring<data::ptr<char const>> a; };
#elif defined(U_UNIQ)
struct el { REC2(x, s) std::uint32_t x; data::vector<std::uint8_t> s; };
struct root_t { REC1(a) data::unique_ptr<el> a; };
#elif defined(U_PTR)
struct node { REC2(x, next) std::uint32_t x; data::ptr<node> next; };
struct root_t { REC2(a, b) data::ptr<node> a; data::ptr<std::uint16_t> b; };
#elif defined(U_PTRVEC)
struct root_t { REC1(a) data::vector<data::ptr<std::uint32_t>> a; };
#elif defined(U_OPT)
struct root_t { REC3(a, b, c) cista::optional<data::vector<std::uint8_t>> a; cista::optional<std::uint32_t> b; bool c; };
#elif defined(U_VAR)
struct root_t { REC2(a, b) cista::variant<std::uint32_t, data::vector<std::uint16_t>, data::string> a; cista::tuple<bool, std::uint16_t> b; };
#elif defined(U_NEST)
struct root_t { REC3(a, b, c) cista::pair<std::uint8_t, data::vector<std::uint32_t>> a; cista::array<data::vector<std::uint32_t>, 1> b; cista::bitset<3> c; using dummy = int; };
template <std::size_t K> struct trav<cista::bitset<K>> { static void go(cista::bitset<K> const& b) { for (unsigned i = 0; i < K; ++i) g_sum += b[i]; } };
#elif defined(U_TREE)
struct root_t { REC2(x, ch) std::uint32_t x; data::vector<root_t> ch; };
#elif defined(U_UTREE)
struct root_t { REC2(ch, x) data::unique_ptr<root_t> ch; std::uint32_t x; };
#elif defined(U_HASHVEC)
struct root_t { REC1(a) data::hash_map<std::uint32_t, data::vector<std::uint32_t>, no_hash, std::equal_to<>> a; };
#elif defined(U_HASH)
struct root_t { REC1(a) data::hash_map<std::uint32_t, std::uint32_t, no_hash, std::equal_to<>> a; };
#elif defined(U_SET8)
struct root_t { REC1(a) data::hash_set<std::uint8_t, no_hash, std::equal_to<>> a; };
#elif defined(U_SETSTR)
struct root_t { REC1(a) data::hash_set<data::string> a; };
// containers with positions in other members
#elif defined(U_BITVEC)
struct root_t { REC1(a) cista::basic_bitvec<data::vector<std::uint64_t>> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& b) { g_sum += b.any() ? 1U : 0U; if (b.size() > 0U) g_sum += b[b.size() - 1U] + b[0]; } };
#elif defined(U_VECVEC)
struct root_t { REC1(a) data::vecvec<std::uint8_t, std::uint8_t, std::uint8_t> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& v) { unsigned n = 0; for (auto const& b : v) { for (auto const& x : b) walk(x); ++n; } VS_CHECKM(n == v.size(), "iteration"); } };
#elif defined(U_NVEC)
struct root_t { REC1(a) data::nvec<std::uint8_t, std::uint8_t, 2U, std::uint8_t> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& v) { for (auto const& b : v) for (auto const& l : b) for (auto const& x : l) walk(x); } };
#elif defined(U_FWS)
struct root_t { REC1(a) data::fws_multimap<std::uint32_t, std::uint8_t> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& v) { for (auto const& b : v) for (auto const& x : b) walk(x); } };
#elif defined(U_MFWS)
struct root_t { REC1(a) cista::dynamic_fws_multimap_base<std::uint8_t, std::uint8_t, data::vector, 1U> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& v) { for (auto const& b : v) for (auto const& x : b) walk(x); } };
#elif defined(U_PAGED)
struct root_t { REC1(a) cista::paged_vecvec<data::vector<cista::page<std::uint32_t, std::uint16_t>>, cista::paged<data::vector<std::uint32_t>, std::uint32_t, std::uint16_t, 2U, 2U>, std::uint32_t> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& v) { for (auto const& b : v) for (auto const& x : b) walk(x); } };
#elif defined(U_MATRIX)
struct root_t { REC1(a) data::flat_matrix<std::uint8_t> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& v) { if (v.n_rows_ > 0U) { for (auto const& x : v[0]) walk(x); for (auto const& x : v[v.n_rows_ - 1U]) walk(x); } } };
#elif defined(U_RTREE)
struct root_t { REC1(a) data::rtree<std::uint8_t, 1U, std::uint8_t, 2U> a; };
template <> struct trav<decltype(root_t::a)> { static void go(decltype(root_t::a) const& v) { unsigned n = 0; v.search({std::uint8_t{0}}, {std::uint8_t{255}}, [&](auto const&, auto const&, std::uint8_t const& x) { walk(x); VS_CHECKM(++n < BUFN, "search ends"); return true; }); } };
#endif
void vs_main() {
  auto const buf = vs::buffer(BUFN);
  vs_sym(buf, BUFN, "buf");
  g_buf = buf;
  // Exhaustive case split that makes most of the arithmetic concrete: the words that are pointers of the root either
  // stay within the buffer's reach, where every value is a case of its own, or are arbitrary outside of it.
#ifdef SPLIT
  {
    static unsigned const at[] = SPLIT;
    for (auto const o : at) {
      unsigned long v;
      std::memcpy(&v, buf + o, 8);
#ifdef RAWPTR
      if (vs_branch(v <= BUFN + 8)) { v = vs_concrete(v); std::memcpy(buf + o, &v, 8); }
#else
      if (vs_branch(v + BUFN + 8 <= 2 * BUFN + 16)) { v = vs_concrete(v); std::memcpy(buf + o, &v, 8); }
#endif
    }
  }
#endif
#ifdef VECS  // the vectors at these places are taken to be ones that are accepted by themselves (arbitrary ones: other root types)
  {
    static unsigned const at[][2] = VECS;  // offset, element size
    for (auto const [o, es] : at) {
      unsigned long v;
      unsigned n[2];
      std::memcpy(&v, buf + o, 8);
      std::memcpy(n, buf + o + 8, 8);
      vs_assume(n[0] <= BUFN / es && n[0] == n[1] && buf[o + 16] == 0);
      n[0] = n[1] = static_cast<unsigned>(vs_concrete(n[0]));
#ifdef RAWPTR
      auto const base = 0U;
#else
      auto const base = o;
#endif
      vs_assume(n[0] == 0 ? v == 1UL << 63 : v >= sizeof(root_t) - base && v <= BUFN - base);
      v = vs_concrete(v);
      vs_assume(n[0] == 0 || base + v + n[0] * es <= BUFN);
      std::memcpy(buf + o, &v, 8);
      std::memcpy(buf + o + 8, n, 8);
    }
  }
#endif
  root_t const* r = nullptr;
  try {
#ifdef CONST_BUF
    r = cista::deserialize<root_t, M>(static_cast<unsigned char const*>(buf), static_cast<unsigned char const*>(buf) + BUFN);
#else
    r = cista::deserialize<root_t, M>(buf, buf + BUFN);
#endif
  } catch (...) {
    vs_reach("rejected");
  }
  if (r != nullptr) {
    vs_reach("accepted");
#ifdef TRAVERSE
    walk(*r);
    vs_reach("walked");
#endif
  }
  vs::free_buffer(buf);
}
