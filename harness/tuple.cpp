// C30: tuples, pairs, arrays
#include "rbtree.h"
#include <functional>
#include <stdexcept>
#include "cista/containers.h"
#include "cista/reflection/comparable.h"
#include "vs.h"
using vs::tracked;
template <typename T> T any(char const* n) { if constexpr (std::is_same_v<T, tracked>) return tracked{vs::sym<unsigned char>(n)}; else return vs::sym<T>(n); }
static unsigned long num(tracked const& t) { return t.get(); }
template <typename T> unsigned long num(T const& t) { return static_cast<unsigned long>(static_cast<long>(t)); }
template <typename T> struct ref;
// values are kept in an array next to the container; T... compared as numbers (they are of integer type)
template <typename... Ts> struct tup {
  static constexpr std::size_t N = sizeof...(Ts);
  using T = cista::tuple<Ts...>;
  template <std::size_t I> using el = cista::tuple_element_t<I, Ts...>;
  template <std::size_t... I> static void expect(T const& t, long const* v, std::index_sequence<I...>) {
    ((VS_CHECKM(num(cista::get<I>(t)) == static_cast<unsigned long>(v[I]), "element of a tuple differs")), ...);
    ((VS_CHECKM(&cista::get<I>(t) == &cista::get<I>(const_cast<T&>(t)) && reinterpret_cast<std::uintptr_t>(&cista::get<I>(t)) % alignof(el<I>) == 0U, "element address")), ...);
    ((VS_CHECKM(reinterpret_cast<unsigned char const*>(&cista::get<I>(t)) >= reinterpret_cast<unsigned char const*>(&t) && reinterpret_cast<unsigned char const*>(&cista::get<I>(t) + 1) <= reinterpret_cast<unsigned char const*>(&t + 1), "element outside of its tuple")), ...);
  }
  static void expect(T const& t, long const* v) {
    expect(t, v, std::make_index_sequence<N>{});
    unsigned i = 0;
    cista::apply([&](auto const&... x) { ((VS_CHECKM(i < N && num(x) == static_cast<unsigned long>(v[i]), "application sees the elements in order"), ++i), ...); }, t);
    VS_CHECKM(i == N, "application sees all elements");
  }
  template <std::size_t... I> static T mk(long* v, std::index_sequence<I...>) {
    auto f = [&](auto const& x, std::size_t i) { v[i] = static_cast<long>(num(x)); };
    (void)f;
    T t;
    ((cista::get<I>(t) = any<el<I>>("e")), ...);
    (f(cista::get<I>(t), I), ...);
    return t;
  }
  template <std::size_t... I> static void each_write(T& t, long* v, std::index_sequence<I...>) {
    unsigned const k = vs::pick(N, "which");
    ((I == k ? (void)(cista::get<I>(t) = any<el<I>>("w"), v[I] = static_cast<long>(num(cista::get<I>(t)))) : (void)0), ...);
  }
  static int cmp(long const* a, long const* b, bool const* uns) { for (unsigned i = 0; i < N; ++i) { if (uns[i] ? static_cast<unsigned long>(a[i]) < static_cast<unsigned long>(b[i]) : a[i] < b[i]) return -1; if (a[i] != b[i]) return 1; } return 0; }
  static void run() {
    using seq = std::make_index_sequence<N>;
    {
      long va[N], vb[N];
      T a = mk(va, seq{}), b = mk(vb, seq{});
      expect(a, va); expect(b, vb);
      T z{}; (void)z;
      static bool const uns[] = {std::is_unsigned_v<Ts>...};
      int const c = cmp(va, vb, uns);
      VS_CHECKM((a == b) == (c == 0) && (a != b) == (c != 0), "equality");
      if constexpr ((std::is_arithmetic_v<Ts> && ...)) VS_CHECKM((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "ordering");
      else VS_CHECKM((a < b) == (c < 0), "ordering");
      T const copy{a}; expect(copy, va); expect(a, va);
      T as; as = b; expect(as, vb); expect(b, vb);
      { auto const& r = as; as = r; expect(as, vb); }
      { T m{std::move(as)}; expect(m, vb); T m2; m2 = std::move(m); expect(m2, vb); }
      long vc[N]; for (unsigned i = 0; i < N; ++i) vc[i] = va[i];
      T w{a}; each_write(w, vc, seq{}); expect(w, vc); expect(a, va);
      std::swap(a, b); expect(a, vb); expect(b, va);
    }
    VS_CHECKM(tracked::live == 0, "an element was not destroyed exactly once");
  }
};
struct rec { CISTA_COMPARABLE() std::uint8_t a; std::int32_t b; std::uint16_t c; };
void vs_main() {
#if defined(TUP1)
  tup<std::uint8_t>::run();
#elif defined(TUP2)
  tup<std::uint8_t, std::int64_t>::run();
#elif defined(TUP3)
  tup<std::uint8_t, std::uint32_t, std::int16_t>::run();
#elif defined(TUP5)
  tup<std::int8_t, std::uint16_t, std::uint8_t, std::uint64_t, bool>::run();
#elif defined(TUP4)
  tup<tracked, std::uint32_t, tracked, std::uint8_t>::run();
#else
  {
    // pair
    auto const x = vs::sym<std::int16_t>("x"), y = vs::sym<std::int16_t>("y"); auto const p = vs::sym<std::uint8_t>("p"), q = vs::sym<std::uint8_t>("q");
    cista::pair<std::int16_t, std::uint8_t> a{x, p}, b{y, q};
    VS_CHECK(a.first == x && a.second == p);
    int const c = x < y ? -1 : x > y ? 1 : p < q ? -1 : p > q ? 1 : 0;
    VS_CHECKM((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "pair comparison");
    auto d = a; VS_CHECK(d.first == x && d.second == p); d = b; VS_CHECK(d.first == y && d.second == q); d.first = x; VS_CHECK(d.second == q && b.first == y);
    std::swap(a, b); VS_CHECK(a.first == y && b.second == p);
    cista::pair<std::uint8_t, std::uint8_t> e; VS_CHECKM(e.first == 0 && e.second == 0, "default pair");
    auto f = cista::pair{x, p}; static_assert(std::is_same_v<decltype(f), cista::pair<std::int16_t, std::uint8_t>>, ""); VS_CHECK(f.first == x && f.second == p);
  }
  {
    cista::pair<tracked, tracked> a{tracked{1}, tracked{2}}; auto b = a; auto c = std::move(b); b = c; VS_CHECK(a == c && b == a && c.first.get() == 1 && c.second.get() == 2);
  }
  VS_CHECK(tracked::live == 0);
  {
    cista::array<std::uint16_t, 3> a, b; for (auto& v : a) v = vs::sym<std::uint16_t>("a"); for (auto& v : b) v = vs::sym<std::uint16_t>("b");
    int c = 0; for (unsigned i = 0; i < 3 && c == 0; ++i) c = a[i] < b[i] ? -1 : a[i] > b[i];
    VS_CHECKM((a == b) == (c == 0) && (a < b) == (c < 0), "array comparison");
    auto d = a; unsigned const k = vs::pick(3, "k"); d[k] = 7; for (unsigned i = 0; i < 3; ++i) VS_CHECK(d[i] == (i == k ? 7 : a[i]));
  }
#endif
  vs_reach("end");
}
