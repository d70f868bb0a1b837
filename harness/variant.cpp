// C27: histories over variants against a model
#include "rbtree.h"
#include <stdexcept>
#include "cista/containers.h"
#include "vs.h"
#ifndef STEPS
#define STEPS 3
#endif
using vs::tracked;
using V = cista::variant<unsigned char, tracked, std::uint16_t>;
struct model { int alt = -1; unsigned val = 0; };
static unsigned value_of(unsigned char const& x) { return x; }
static unsigned value_of(std::uint16_t const& x) { return x; }
static unsigned value_of(tracked const& x) { return x.get(); }
static void check(V const& v, model const& m) {
  VS_CHECKM(v.valid() == (m.alt >= 0) && static_cast<bool>(v) == (m.alt >= 0), "variant holds a value it should not or lost it");
  VS_CHECKM(cista::holds_alternative<unsigned char>(v) == (m.alt == 0) && cista::holds_alternative<tracked>(v) == (m.alt == 1) && cista::holds_alternative<std::uint16_t>(v) == (m.alt == 2), "holds_alternative");
  VS_CHECKM((cista::get_if<0>(v) != nullptr) == (m.alt == 0) && (cista::get_if<tracked>(v) != nullptr) == (m.alt == 1) && (cista::get_if<2>(v) != nullptr) == (m.alt == 2), "get_if");
  if (m.alt < 0) {
    bool thrown = false;
    try { v.apply([](auto const&) {}); } catch (...) { thrown = true; }
    VS_CHECKM(thrown, "visiting an empty variant is not reported");
    return;
  }
  VS_CHECKM(v.index() == static_cast<std::size_t>(m.alt), "variant holds another alternative");
  unsigned x = 0, branch = 9;
  v.apply([&](auto const& e) { x = value_of(e); branch = std::is_same_v<std::decay_t<decltype(e)>, unsigned char> ? 0 : (std::is_same_v<std::decay_t<decltype(e)>, tracked> ? 1 : 2); });
  VS_CHECKM(branch == static_cast<unsigned>(m.alt), "visitation called another branch");
  VS_CHECKM(x == m.val, "variant holds another value");
  if (m.alt == 0) VS_CHECK(cista::get<0>(v) == m.val && cista::get<unsigned char>(v) == m.val);
  if (m.alt == 1) VS_CHECK(cista::get<1>(v).get() == m.val && cista::get_if<1>(v)->get() == m.val);
  if (m.alt == 2) VS_CHECK(cista::get<2>(v) == m.val && *cista::get_if<2>(v) == m.val);
}
static void put(V& v, model& m, unsigned how) {
  auto const x = vs::sym<unsigned char>("x");
  auto const y = vs::sym<std::uint16_t>("y");
  switch (how) {
    case 0: v = static_cast<unsigned char>(x); m = {0, x}; break;
    case 1: { unsigned char const l = x; v = l; m = {0, x}; break; }
    case 2: { tracked t{x}; v = t; m = {1, x}; VS_CHECKM(t.get() == x, "assignment from an lvalue changed its source"); break; }
    case 3: { tracked const t{x}; v = t; m = {1, x}; break; }
    case 4: v = tracked{x}; m = {1, x}; break;
    case 5: { auto& r = v.emplace<tracked>(x); VS_CHECK(r.get() == x); m = {1, x}; break; }
    case 6: { auto& r = v.emplace<2>(y); VS_CHECK(r == y); m = {2, y}; break; }
    case 7: { std::uint16_t l = y; v = l; m = {2, y}; break; }
    case 8: v = static_cast<std::uint16_t>(y); m = {2, y}; break;
    case 9: { auto& r = v.emplace<0>(x); VS_CHECK(r == x); m = {0, x}; break; }
  }
}
static bool g_throw = false;
struct thrower {
  tracked t;
  explicit thrower(unsigned char x) : t{x} { if (g_throw) throw 1; }
  thrower(thrower const& o) : t{o.t} { if (g_throw) throw 1; }
  thrower& operator=(thrower const& o) { if (g_throw) throw 1; t = o.t; return *this; }
};
template <int> struct alt { std::uint8_t x; };
template <typename> struct mkv;
template <std::size_t... I> struct mkv<std::index_sequence<I...>> { using type = cista::variant<alt<I>...>; };
template <std::size_t I, typename W> void nth(W& w, unsigned k, std::uint8_t x) { if constexpr (I < cista::variant_size_v<W>) { if (k == I) w = alt<I>{x}; else nth<I + 1>(w, k, x); } }
template <int I> unsigned which(alt<I> const&) { return I; }
template <unsigned N> void big() {
  using W = typename mkv<std::make_index_sequence<N>>::type;
  auto const x = vs::sym<std::uint8_t>("x");
  unsigned const k = vs::pick(N, "alt");
  W w;
  nth<0>(w, k, x);
  unsigned b = 999; std::uint8_t y = 0;
  w.apply([&](auto const& e) { b = which(e); y = e.x; });
  VS_CHECKM(w.index() == k && b == k && y == x, "visitation called another branch");
  W v{w};
  VS_CHECKM(v.index() == k, "copy holds another alternative");
}
#if defined(BIGN)
void vs_main() { big<BIGN>(); vs_reach("end"); }
#elif defined(THROW)
void vs_main() {
  using W = cista::variant<tracked, thrower, unsigned char>;
  {
    W a, b;
    switch (vs::pick(4, "from")) { case 1: a = tracked{1}; break; case 2: a.emplace<thrower>(static_cast<unsigned char>(1)); break; case 3: a = static_cast<unsigned char>(3); break; default: break; }
    thrower const t{5};
    b = t;
    g_throw = vs::flip("throw");
    bool thrown = false;
    unsigned const op = vs::pick(5, "op");
    try {
      switch (op) {
        case 0: a = t; break;
        case 1: a.emplace<thrower>(static_cast<unsigned char>(2)); break;
        case 2: a.emplace<1>(static_cast<unsigned char>(2)); break;
        case 3: a = b; break;
        case 4: { W c{b}; a = tracked{4}; break; }
      }
    } catch (int) { thrown = true; }
    VS_CHECKM(thrown == g_throw, "exception lost");
    if (!thrown) VS_CHECKM(a.index() == (op == 4 ? 0U : 1U), "variant holds another alternative");
    g_throw = false;
    a = static_cast<unsigned char>(9);
    VS_CHECKM(cista::get<2>(a) == 9, "variant unusable after an exception");
  }
  VS_CHECKM(tracked::live == 0, "a stored value was not destroyed exactly once");
  vs_reach("end");
}
#else
void vs_main() {
  {
    V a, b;
    model ma, mb;
    check(a, ma);
    for (unsigned i = 0; i < STEPS; ++i) {
      unsigned const op = vs::pick(18, "op");
      if (op < 10) put(a, ma, op);
      else switch (op) {
        case 10: b = a; mb = ma; break;
        case 11: b = std::move(a); mb = ma; put(a, ma, 8); break;
        case 12: a.swap(b); std::swap(ma, mb); break;
        case 13: { V c{a}; check(c, ma); check(a, ma); V const d{c}; check(d, ma); break; }
        case 14: { V c{std::move(a)}; check(c, ma); put(a, ma, 4); break; }
        case 15: { auto const& r = a; a = r; break; }
        case 16: { V c{tracked{7}}; check(c, {1, 7}); tracked t{8}; V d{t}; check(d, {1, 8}); c = a; check(c, ma); break; }
        case 17: { auto t = vs::sym<unsigned char>("x"); V c{t}; check(c, {0, t}); b = c; mb = {0, t}; break; }
      }
      check(a, ma);
      check(b, mb);
      bool const eq = ma.alt == mb.alt && (ma.alt < 0 || ma.val == mb.val);
      VS_CHECKM((a == b) == eq && (a != b) == !eq, "equality");
    }
  }
  VS_CHECKM(tracked::live == 0, "a stored value was not destroyed exactly once");
  // ordering: by alternative, then by value
  {
    using W = cista::variant<std::uint8_t, std::int16_t>;
    W a{std::uint8_t{}}, b{std::uint8_t{}};
    int va, vb; bool const aa = vs::flip("aa"), ab = vs::flip("ab");
    if (aa) { auto x = vs::sym<std::int16_t>("p"); a = x; va = x; } else { auto x = vs::sym<std::uint8_t>("p"); a = x; va = x; }
    if (ab) { auto x = vs::sym<std::int16_t>("q"); b = x; vb = x; } else { auto x = vs::sym<std::uint8_t>("q"); b = x; vb = x; }
    bool const lt = aa != ab ? ab : va < vb, eq = aa == ab && va == vb;
    VS_CHECK((a < b) == lt); VS_CHECK((a > b) == (!lt && !eq)); VS_CHECK((a <= b) == (lt || eq)); VS_CHECK((a >= b) == !lt); VS_CHECK((a == b) == eq); VS_CHECK((a != b) == !eq);
    VS_CHECKM(!eq || a.hash() == b.hash(), "equal variants have different hashes");
    W none, none2;
    VS_CHECK(none == none2 && !(none != none2) && !(none < none2) && none <= none2 && !(none > none2) && none >= none2 && none != a && !(none == a));
    none.swap(none2); VS_CHECK(!none.valid());
    none.swap(a); VS_CHECK(!a.valid() && none.index() == (aa ? 1U : 0U));
  }
  vs_reach("end");
}
#endif
