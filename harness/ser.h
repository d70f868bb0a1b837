// Values built from a tape of symbolic numbers, so that the same value can be built several times, and generic
// comparison of two values through the public interface of the containers.
#pragma once
#include "rbtree.h"
#include <stdexcept>
#include "cista/containers.h"
#include "cista/serialization.h"
#include "cista/containers/rtree.h"
#include "cista/containers/flat_matrix.h"
#include "vs.h"
#include <chrono>
#include <string>
#ifndef NS
#define NS offset
#endif
namespace data = cista::NS;

struct tape {
  static constexpr unsigned CAP = 200;
  unsigned long v[CAP];
  unsigned n = 0, pos = 0;
  bool rec = true;
  template <typename T>
  T take(char const* name) {
    static_assert(sizeof(T) <= 8, "");
    if (rec) {
      vs_assert(n < CAP, "harness: tape capacity");
      T t = vs::sym<T>(name);
      v[n] = 0;
      std::memcpy(&v[n], &t, sizeof(T));
      ++n;
      return t;
    }
    vs_assert(pos < n, "harness: tape replay");
    T t;
    std::memcpy(&t, &v[pos++], sizeof(T));
    return t;
  }
  bool flag(char const* name) {
    if (rec) { vs_assert(n < CAP, "harness: tape capacity"); bool b = vs::symb(name); v[n++] = b; return b; }
    return v[pos++] != 0;
  }
  unsigned pick(unsigned k, char const* name) {
    if (rec) { vs_assert(n < CAP, "harness: tape capacity"); unsigned x = vs::pick(k, name); v[n++] = x; return x; }
    return static_cast<unsigned>(v[pos++]);
  }
  void rewind() { rec = false; pos = 0; }
};
static tape tp;

static unsigned char const* g_from = nullptr;
static unsigned char const* g_to = nullptr;
// big endian data: every scalar of the buffer at the same place as in the little endian buffer, most significant byte first
static unsigned char const* g_be = nullptr;
template <typename T> void scalar_at(T const& x) {
  if (g_be == nullptr || std::is_pointer_v<T>) return;
  auto const p = reinterpret_cast<unsigned char const*>(&x);
  auto const q = g_be + (p - g_from);
  for (unsigned i = 0; i < sizeof(T); ++i) VS_CHECKM(p[i] == q[sizeof(T) - 1 - i], "scalar is not stored most significant byte first");
}
// ---- building -----------------------------------------------------------------------------------------------------
#ifndef MAXN
#define MAXN 2
#endif
#ifndef STRLENS
#define STRLENS {0, 3, 15, 16, 18}
#endif
static unsigned const kLens[] = STRLENS;
static unsigned const kNLens = sizeof(kLens) / sizeof(unsigned);

template <typename T, typename = void> struct build;
template <typename T> void make(T& t) { build<T>::mk(t); }
template <typename T> T made() { T t{}; make(t); return t; }
template <typename T> struct build<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static void mk(T& t) { if constexpr (std::is_same_v<T, bool>) t = tp.flag("bool"); else t = tp.take<T>("scalar"); }
  static void cmp(T const& a, T const& b) { VS_CHECKM(std::memcmp(&a, &b, sizeof(T)) == 0, "scalar differs after the round trip"); scalar_at(b); }
};
// user structs: static void each(A&, B&, f)
template <typename T> struct build<T, std::void_t<typename T::is_record>> {
  static void mk(T& t) { T::each(t, t, [](auto& m, auto&) { make(m); }); }
  static void cmp(T const& a, T const& b);
};
#define REC1(a) using is_record = void; template <typename A_, typename B_, typename F_> static void each(A_& x, B_& y, F_ f) { f(x.a, y.a); }
#define REC2(a, b) using is_record = void; template <typename A_, typename B_, typename F_> static void each(A_& x, B_& y, F_ f) { f(x.a, y.a); f(x.b, y.b); }
#define REC3(a, b, c) using is_record = void; template <typename A_, typename B_, typename F_> static void each(A_& x, B_& y, F_ f) { f(x.a, y.a); f(x.b, y.b); f(x.c, y.c); }
#define REC4(a, b, c, d) using is_record = void; template <typename A_, typename B_, typename F_> static void each(A_& x, B_& y, F_ f) { f(x.a, y.a); f(x.b, y.b); f(x.c, y.c); f(x.d, y.d); }
#define REC6(a, b, c, d, e, g) using is_record = void; template <typename A_, typename B_, typename F_> static void each(A_& x, B_& y, F_ f) { f(x.a, y.a); f(x.b, y.b); f(x.c, y.c); f(x.d, y.d); f(x.e, y.e); f(x.g, y.g); }

// ---- comparing: reference value first, deserialized object second -------------------------------------------------
template <typename T> void same(T const& a, T const& b) {
  auto const p = reinterpret_cast<unsigned char const*>(&b);
  VS_CHECKM(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0U, "object is not aligned");
  if (g_from != nullptr) VS_CHECKM(p >= g_from && p + sizeof(T) <= g_to, "object is outside of the buffer");
  build<T>::cmp(a, b);
}
template <typename T> void build<T, std::void_t<typename T::is_record>>::cmp(T const& a, T const& b) {
  T::each(a, b, [](auto const& x, auto const& y) { same(x, y); });
}

template <typename Ptr> struct str_build {
  using CharT = typename cista::basic_string<Ptr>::CharT;
  static unsigned fill(CharT* c) {
    // lengths are multiples of the character size so that inline and heap strings of every width occur
    unsigned const len = kLens[tp.pick(kNLens, "len")] / (sizeof(CharT) == 1 ? 1 : (sizeof(CharT) == 2 ? 2 : 4));
    for (unsigned i = 0; i < len; ++i) {
      if (i == 0 || i + 1 == len) c[i] = tp.take<CharT>("chr"); else c[i] = static_cast<CharT>('a' + i);
    }
    return len;
  }
  template <typename A, typename B> static void cmp(A const& a, B const& b) {
    VS_CHECKM(a.size() == b.size(), "string length differs after the round trip");
    auto const n = a.size();
    if (g_be != nullptr && !b.is_short()) { scalar_at(b.h_.size_); scalar_at(b.h_.ptr_); }
    if (g_be != nullptr && sizeof(CharT) > 1) for (unsigned i = 0; i < n; ++i) scalar_at(b.data()[i]);
    if (g_from != nullptr && n != 0U)
      VS_CHECKM(reinterpret_cast<unsigned char const*>(b.data()) >= g_from && reinterpret_cast<unsigned char const*>(b.data() + n) <= g_to, "string outside of the buffer");
    VS_CHECKM(reinterpret_cast<std::uintptr_t>(b.data()) % alignof(CharT) == 0U, "string is not aligned");
    for (unsigned i = 0; i < n; ++i) VS_CHECKM(a.data()[i] == b.data()[i], "character differs after the round trip");
  }
};
template <typename Ptr> struct build<cista::basic_string<Ptr>> : str_build<Ptr> {
  using S = cista::basic_string<Ptr>;
  static void mk(S& s) { typename S::CharT c[32]; unsigned const n = str_build<Ptr>::fill(c); s = S{std::basic_string_view<typename S::CharT>{c, n}}; }
};
template <typename Ptr> struct build<cista::basic_cstring<Ptr>> {
  using S = cista::basic_cstring<Ptr>;
  static void mk(S& s) { char c[32]; unsigned const n = str_build<data::ptr<char const>>::fill(c); s = S{std::string_view{c, n}}; }
  static void cmp(S const& a, S const& b) { str_build<data::ptr<char const>>::cmp(a, b); VS_CHECKM(b.data()[b.size()] == 0, "terminator missing after the round trip"); }
};
// string views refer to storage that lives as long as the program
static char g_text[] = "the quick brown fox jumps over the lazy dog";
template <typename Ptr> struct build<cista::basic_string_view<Ptr>> : str_build<Ptr> {
  using S = cista::basic_string_view<Ptr>;
  static void mk(S& s) { unsigned const len = kLens[tp.pick(kNLens, "len")]; unsigned const off = tp.pick(2, "off"); s = S{std::string_view{g_text + 3 * off, len}}; }
};
template <typename T, template <typename> typename Ptr, bool I, typename S> struct build<cista::basic_vector<T, Ptr, I, S>> {
  using V = cista::basic_vector<T, Ptr, I, S>;
  static void mk(V& v) {
    unsigned const n = tp.pick(MAXN + 1, "n");
    if (n != MAXN && tp.pick(2, "reserve")) v.reserve(4);
    for (unsigned i = 0; i < n; ++i) { T t{}; make(t); v.push_back(std::move(t)); }
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.size() == b.size() && a.empty() == b.empty(), "vector size differs after the round trip");
    scalar_at(b.used_size_); scalar_at(b.allocated_size_); scalar_at(b.el_);
    for (unsigned i = 0; i < a.size(); ++i) same(a[static_cast<S>(i)], b[static_cast<S>(i)]);
    VS_CHECKM(static_cast<std::size_t>(b.end() - b.begin()) == a.size(), "vector iteration");
  }
};
template <typename T> struct build<cista::optional<T>> {
  using O = cista::optional<T>;
  static void mk(O& o) { if (tp.pick(2, "has")) { T t{}; make(t); o = std::move(t); } }
  static void cmp(O const& a, O const& b) { VS_CHECKM(a.has_value() == b.has_value(), "optional state differs"); if (a.has_value()) same(*a, *b); }
};
template <typename... T> struct build<cista::variant<T...>> {
  using V = cista::variant<T...>;
  template <std::size_t... I> static void mk_(V& v, unsigned k, std::index_sequence<I...>) { ((k == I ? (void)(v = made<std::tuple_element_t<I, std::tuple<T...>>>()) : (void)0), ...); }
  static void mk(V& v) { mk_(v, tp.pick(sizeof...(T), "alt"), std::index_sequence_for<T...>{}); }
  template <std::size_t... I> static void cmp_(V const& a, V const& b, std::index_sequence<I...>) { ((a.index() == I ? same(cista::get<I>(a), cista::get<I>(b)) : (void)0), ...); }
  static void cmp(V const& a, V const& b) { VS_CHECKM(a.index() == b.index(), "variant alternative differs"); scalar_at(b.idx_); cmp_(a, b, std::index_sequence_for<T...>{}); }
};
template <typename... T> struct build<cista::tuple<T...>> {
  using V = cista::tuple<T...>;
  template <std::size_t... I> static void mk_(V& v, std::index_sequence<I...>) { (make(cista::get<I>(v)), ...); }
  static void mk(V& v) { mk_(v, std::index_sequence_for<T...>{}); }
  template <std::size_t... I> static void cmp_(V const& a, V const& b, std::index_sequence<I...>) { (same(cista::get<I>(a), cista::get<I>(b)), ...); }
  static void cmp(V const& a, V const& b) { cmp_(a, b, std::index_sequence_for<T...>{}); }
};
template <typename A, typename B> struct build<cista::pair<A, B>> {
  static void mk(cista::pair<A, B>& p) { make(p.first); make(p.second); }
  static void cmp(cista::pair<A, B> const& a, cista::pair<A, B> const& b) { same(a.first, b.first); same(a.second, b.second); }
};
template <typename A, typename B> struct build<std::pair<A, B>> {
  static void mk(std::pair<A, B>& p) { make(p.first); make(p.second); }
  static void cmp(std::pair<A, B> const& a, std::pair<A, B> const& b) { same(a.first, b.first); same(a.second, b.second); }
};
template <typename T, std::size_t N> struct build<cista::array<T, N>> {
  static void mk(cista::array<T, N>& a) { for (unsigned i = 0; i < N; ++i) make(a[i]); }
  static void cmp(cista::array<T, N> const& a, cista::array<T, N> const& b) { for (unsigned i = 0; i < N; ++i) same(a[i], b[i]); }
};
template <typename T, typename P> struct build<cista::basic_unique_ptr<T, P>> {
  using U = cista::basic_unique_ptr<T, P>;
  static void mk(U& u) { if (tp.pick(2, "set")) { u = data::make_unique<T>(); make(*u); } }
  static void cmp(U const& a, U const& b) { VS_CHECKM((a.get() == nullptr) == (b.get() == nullptr), "unique_ptr state differs"); scalar_at(b.el_); if (a.get() != nullptr) same(*a, *b); }
};
template <typename T, typename Tag> struct build<cista::strong<T, Tag>> {
  static void mk(cista::strong<T, Tag>& s) { make(s.v_); }
  static void cmp(cista::strong<T, Tag> const& a, cista::strong<T, Tag> const& b) { same(a.v_, b.v_); }
};
template <std::size_t N> struct build<cista::bitset<N>> {
  static void mk(cista::bitset<N>& b) { for (unsigned i = 0; i < N; i += 13) b.set(i, tp.flag("bit")); }
  static void cmp(cista::bitset<N> const& a, cista::bitset<N> const& b) { for (unsigned i = 0; i < N; ++i) VS_CHECKM(a[i] == b[i], "bit differs"); for (auto const& x : b.blocks_) scalar_at(x); }
};
template <typename R, typename P> struct build<std::chrono::duration<R, P>> {
  using D = std::chrono::duration<R, P>;
  static void mk(D& d) { d = D{tp.take<R>("ticks")}; }
  static void cmp(D const& a, D const& b) { auto x = a.count(), y = b.count(); VS_CHECKM(std::memcmp(&x, &y, sizeof(x)) == 0, "duration differs"); scalar_at(b); }
};
template <typename C, typename D> struct build<std::chrono::time_point<C, D>> {
  using T = std::chrono::time_point<C, D>;
  static void mk(T& t) { t = T{D{tp.take<typename D::rep>("ticks")}}; }
  static void cmp(T const& a, T const& b) { VS_CHECKM(a == b, "time point differs"); scalar_at(b); }
};
template <typename T> struct key_of { static T get(unsigned i) { return static_cast<T>(7 * i + 1); } };
template <typename P> struct key_of<cista::basic_string<P>> {
  static cista::basic_string<P> get(unsigned i) { return cista::basic_string<P>{i % 2 == 0 ? std::string_view{"k0"} : std::string_view{"a key stored on the heap"}}; }
};
template <typename T> T const& key_part(T const& t) { return t; }
template <typename A, typename B> A const& key_part(cista::pair<A, B> const& p) { return p.first; }
#ifndef HASHN
#define HASHN 3
#endif
// a hash container after some insertions and possibly an erasure
template <typename T, template <typename> typename Ptr, typename GK, typename GV, typename H, typename E> struct build<cista::hash_storage<T, Ptr, GK, GV, H, E>> {
  using V = cista::hash_storage<T, Ptr, GK, GV, H, E>;
  using K = std::decay_t<decltype(key_part(std::declval<T const&>()))>;
  static constexpr bool MAP = !std::is_same_v<K, T>;
  static constexpr unsigned NK = std::is_arithmetic_v<K> ? 8 : 2;
  static void mk(V& v) {
    static unsigned const ns[] = {0, 1, 2, 8};
    unsigned const n = ns[tp.pick(HASHN, "entries")];
    for (unsigned i = 0; i < n && i < NK; ++i) {
      if constexpr (MAP) { decltype(std::declval<T>().second) x{}; make(x); v.emplace(T{key_of<K>::get(i), std::move(x)}); }
      else v.emplace(key_of<K>::get(i));
    }
    if (n > 1 && tp.pick(2, "erase")) v.erase(key_of<K>::get(1));
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.size() == b.size() && a.empty() == b.empty(), "hash container size differs after the round trip");
    scalar_at(b.size_); scalar_at(b.capacity_); scalar_at(b.growth_left_); scalar_at(b.ctrl_); scalar_at(b.entries_);
    unsigned seen = 0;
    for (auto const& x : a) {
      (void)x;
      auto const it = b.find(key_part(x));
      VS_CHECKM(it != b.end(), "key lost in the round trip");
      same(x, *it);
    }
    for (auto const& x : b) { ++seen; VS_CHECKM(a.find(key_part(x)) != a.end(), "key appeared in the round trip"); }
    VS_CHECKM(seen == a.size(), "iteration over a deserialized hash container");
    VS_CHECKM(b.find(key_of<K>::get(1)) == b.end() || a.find(key_of<K>::get(1)) != a.end(), "absent key found");
  }
};
