// C34: decomposition of structs of LO..HI members (refl_gen.h), derived comparison operators, member indices.
#include "rbtree.h"
#include <stdexcept>
#include "vs.h"
#include <cstdint>
#include <string>
#include "cista/reflection/comparable.h"
#include "cista/reflection/for_each_field.h"
#include "cista/reflection/member_index.h"
#include "cista/reflection/to_tuple.h"
#include "refl_gen.h"
struct bool_t { bool b; friend bool operator==(bool_t a, bool_t b) { return a.b == b.b; } friend bool operator!=(bool_t a, bool_t b) { return a.b != b.b; } friend bool operator<(bool_t a, bool_t b) { return a.b < b.b; } };
using u64 = unsigned long;
template <typename T> u64 num(T const& t) { if constexpr (std::is_same_v<T, bool_t>) return t.b; else return static_cast<u64>(t); }

#if defined(ARITY)
template <typename T, typename F> void check(T& s, F const& addr, unsigned const n) {
  static_assert(std::tuple_size_v<decltype(cista::to_tuple(s))> == T::N, "arity");
  unsigned i = 0;
  cista::for_each_field(s, [&](auto& m) { VS_CHECKM(i < n && static_cast<void const*>(&m) == addr(s, i) && sizeof(m) == T::size(i), "for_each_field visits the members in order"); ++i; });
  VS_CHECKM(i == n, "for_each_field visits every member");
  i = 0;
  cista::for_each_ptr_field(s, [&](auto* m) { VS_CHECKM(i < n && static_cast<void const*>(m) == addr(s, i), "for_each_ptr_field visits the members in order"); ++i; });
  VS_CHECKM(i == n, "for_each_ptr_field visits every member");
  i = 0;
  T const& c = s;
  cista::for_each_field(c, [&](auto const& m) { VS_CHECKM(i < n && static_cast<void const*>(&m) == addr(s, i), "for_each_field visits the members of a constant in order"); ++i; });
  VS_CHECKM(i == n, "for_each_field visits every member of a constant");
  i = 0;
  T* const p = &s;
  cista::for_each_field(p, [&](auto& m) { VS_CHECKM(i < n && static_cast<void const*>(&m) == addr(s, i), "for_each_field visits the members of a pointee in order"); ++i; });
  VS_CHECKM(i == n, "for_each_field visits every member of a pointee");
  // writes go to the object
  auto const v = vs::sym<std::uint8_t>("value");
  unsigned const at = vs::pick(n, "member");
  T before = s;
  i = 0;
  cista::for_each_field(s, [&](auto& m) { if (i++ == at) { using M = std::decay_t<decltype(m)>; if constexpr (std::is_same_v<M, bool_t>) m.b = v & 1; else m = static_cast<M>(v); } });
  for (unsigned k = 0; k < n; ++k) {
    if (k == at) VS_CHECKM(*static_cast<unsigned char const*>(addr(s, k)) == (T::boolean(k) ? v & 1 : v), "write through a field");
    else VS_CHECKM(std::memcmp(addr(s, k), addr(before, k), T::size(k)) == 0, "write through a field touched another one");
  }
}
#define ADDR(S, i, p) case i: return static_cast<void const*>(&s.p);
#define SIZE(S, i, p) case i: return sizeof(p);
#define BOOL_(S, i, p) case i: return std::is_same_v<decltype(p), bool_t>;
#define INDEX(S, i, p) VS_CHECKM(cista::member_index(&S::p) == i, "member_index");
#define DEF(n) struct s##n { static constexpr unsigned N = n; \
  MEM_##n \
  static unsigned size(unsigned i) { switch (i) { EACH_##n(s##n, SIZE) } return 0; } \
  static bool boolean(unsigned i) { switch (i) { EACH_##n(s##n, BOOL_) } return false; } }; \
  static void run(s##n*) { s##n x{}; check(x, [](s##n& s, unsigned i) -> void const* { switch (i) { EACH_##n(s##n, ADDR) } return nullptr; }, n); EACH_##n(s##n, INDEX) }
#define DEF8(a, b, c, d, e, f, g, h) DEF(a) DEF(b) DEF(c) DEF(d) DEF(e) DEF(f) DEF(g) DEF(h) \
  void vs_main() { switch (vs::pick(8, "struct")) { case 0: run((s##a*)0); break; case 1: run((s##b*)0); break; case 2: run((s##c*)0); break; case 3: run((s##d*)0); break; \
    case 4: run((s##e*)0); break; case 5: run((s##f*)0); break; case 6: run((s##g*)0); break; case 7: run((s##h*)0); break; } vs_reach("end"); }
#define DEFX(...) DEF8(__VA_ARGS__)
DEFX(ARITY)
#elif defined(COMPARE)
template <typename T> void mk(T& t) { cista::for_each_field(t, [](auto& m) { using M = std::decay_t<decltype(m)>; if constexpr (std::is_same_v<M, bool_t>) m.b = vs::symb("b"); else m = vs::sym<M>("m"); }); }
template <typename T> void check() {
  T a{}, b{};
  T::fill(a); T::fill(b);
  // reference: the first differing member decides
  int const o = T::order(a, b);
  VS_CHECKM((a == b) == (o == 0), "==");
  VS_CHECKM((a != b) == (o != 0), "!=");
  VS_CHECKM((a < b) == (o < 0), "<");
  VS_CHECKM((a <= b) == (o <= 0), "<=");
  VS_CHECKM((a > b) == (o > 0), ">");
  VS_CHECKM((a >= b) == (o >= 0), ">=");
}
#define FILL(S, i, p) fill1(x.p);
#define ORD(S, i, p) if (a.p < b.p) return -1; if (b.p < a.p) return 1;
template <typename M> void fill1(M& m) { if constexpr (std::is_same_v<M, bool_t>) m.b = vs::symb("b"); else m = vs::sym<M>("m"); }
#define BODY(n) MEM_##n static void fill(X& x) { EACH_##n(X, FILL) } static int order(X const& a, X const& b) { EACH_##n(X, ORD) return 0; }
#define DEFC(n) namespace member##n { struct X { CISTA_COMPARABLE() BODY(n) }; } namespace friend##n { struct X { CISTA_FRIEND_COMPARABLE(X) BODY(n) }; }
DEFC(1) DEFC(2) DEFC(3) DEFC(4) DEFC(6) DEFC(9)
// explicitly listed members (private), in the listed order
struct listed {
  auto cista_members() { return std::tie(b, a); }
  CISTA_FRIEND_COMPARABLE(listed)
  static void fill(listed& x) { fill1(x.a); fill1(x.b); }
  static int order(listed const& x, listed const& y) { return x.b != y.b ? (x.b < y.b ? -1 : 1) : (x.a == y.a ? 0 : (x.a < y.a ? -1 : 1)); }
private:
  std::uint16_t a{}; std::int8_t b{};
};
struct nested {
  CISTA_COMPARABLE()
  friend2::X a; std::uint8_t b;
  static void fill(nested& x) { friend2::X::fill(x.a); fill1(x.b); }
  static int order(nested const& x, nested const& y) { int const o = friend2::X::order(x.a, y.a); return o != 0 ? o : (x.b == y.b ? 0 : (x.b < y.b ? -1 : 1)); }
};
void vs_main() {
  switch (vs::pick(14, "type")) {
    case 0: check<member1::X>(); break;
    case 1: check<member2::X>(); break;
    case 2: check<member3::X>(); break;
    case 3: check<member4::X>(); break;
    case 4: check<member6::X>(); break;
    case 5: check<member9::X>(); break;
    case 6: check<friend1::X>(); break;
    case 7: check<friend2::X>(); break;
    case 8: check<friend3::X>(); break;
    case 9: check<friend4::X>(); break;
    case 10: check<friend6::X>(); break;
    case 11: check<friend9::X>(); break;
    case 12: check<listed>(); break;
    case 13: check<nested>(); break;
  }
  vs_reach("end");
}
#endif
