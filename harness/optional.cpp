// C28: histories over optionals against a model
#include "rbtree.h"
#include <stdexcept>
#include "cista/containers.h"
#include "vs.h"
#ifndef STEPS
#define STEPS 3
#endif
using vs::tracked;
#if defined(EL_INT)
using T = std::uint16_t;
static T mk(unsigned char x) { return static_cast<T>(x * 3U); }
static unsigned val(T const& t) { return t; }
static unsigned exp_(unsigned char x) { return x * 3U; }
#elif defined(EL_STRING)
using T = cista::offset::string;
static T mk(unsigned char x) { char b[18]; for (unsigned i = 0; i < 18; ++i) b[i] = 'a'; b[0] = static_cast<char>(x); return T{std::string_view{b, (x & 1U) ? 18U : 3U}}; }
static unsigned val(T const& t) { VS_CHECKM(t.size() == (((static_cast<unsigned char>(t[0])) & 1U) ? 18U : 3U), "optional holds another value"); return static_cast<unsigned char>(t[0]); }
static unsigned exp_(unsigned char x) { return x; }
#else
using T = tracked;
static T mk(unsigned char x) { return tracked{x}; }
static unsigned val(T const& t) { return t.get(); }
static unsigned exp_(unsigned char x) { return x; }
#endif
using O = cista::optional<T>;
struct model { bool has = false; unsigned v = 0; };
static void check(O const& o, model const& m) {
  VS_CHECKM(o.has_value() == m.has && static_cast<bool>(o) == m.has, "optional holds a value it should not or lost it");
  VS_CHECKM((o == std::nullopt) == !m.has && (std::nullopt == o) == !m.has && (o != std::nullopt) == m.has && (std::nullopt != o) == m.has, "comparison with the empty marker");
  bool thrown = false;
  unsigned x = 0, y = 0;
  try { x = val(o.value()); } catch (std::bad_optional_access const&) { thrown = true; }
  VS_CHECKM(thrown == !m.has, "access to an empty optional must be reported");
  thrown = false;
  try { y = val(const_cast<O&>(o).value()); } catch (std::bad_optional_access const&) { thrown = true; }
  VS_CHECKM(thrown == !m.has, "access to an empty optional must be reported");
  if (m.has) VS_CHECKM(x == m.v && y == m.v && val(*o) == m.v && val(*o.operator->()) == m.v && val(*const_cast<O&>(o)) == m.v, "optional holds another value");
}
static unsigned char num() {
  auto const x = vs::sym<unsigned char>("x");
#if defined(EL_STRING)
  return static_cast<unsigned char>((x & 0xFEU) | (vs::flip("long") ? 1U : 0U));
#endif
  return x;
}
void vs_main() {
  auto const live = vs_heap_live();
  {
    O a, b;
    model ma, mb;
    check(a, ma);
    for (unsigned i = 0; i < STEPS; ++i) {
      switch (vs::pick(15, "op")) {
        case 0: { auto const x = num(); a = mk(x); ma = {true, exp_(x)}; break; }
        case 1: { auto const x = num(); T const t = mk(x); a = t; ma = {true, exp_(x)}; VS_CHECK(val(t) == exp_(x)); break; }
        case 2: { auto const x = num(); T t = mk(x); a = t; ma = {true, exp_(x)}; VS_CHECK(val(t) == exp_(x)); break; }
        case 3: a = std::nullopt; ma = {}; break;
        case 4: a.reset(); ma = {}; break;
        case 5: a = b; ma = mb; break;
        case 6: a = std::move(b); ma = mb; b = std::nullopt; mb = {}; break;
        case 7: b = a; mb = ma; break;
        case 8: { O c{a}; check(c, ma); O d(std::move(c)); check(d, ma); b = d; mb = ma; break; }
        case 9: { O const& r = a; a = r; break; }
        case 10: { auto const x = num(); O c{mk(x)}; check(c, {true, exp_(x)}); T t = mk(x); O d{t}; check(d, {true, exp_(x)}); O e = mk(x); check(e, {true, exp_(x)}); a = std::move(d); ma = {true, exp_(x)}; break; }
        case 11: { O c{std::nullopt}; check(c, {}); O d = std::nullopt; check(d, {}); O e{}; check(e, {}); b = c; mb = {}; break; }
        case 12: if (ma.has) { auto const x = num(); *a = mk(x); ma.v = exp_(x); } break;
        case 13: if (ma.has) { auto const x = num(); a.value() = mk(x); ma.v = exp_(x); } break;
        case 14: std::swap(a, b); std::swap(ma, mb); break;
      }
      check(a, ma);
      check(b, mb);
      bool const eq = ma.has == mb.has && (!ma.has || ma.v == mb.v);
      VS_CHECKM((a == b) == eq && (a != b) == !eq, "equality");
#if !defined(EL_STRING)
      bool const lt = mb.has && (!ma.has || ma.v < mb.v);
      VS_CHECKM((a < b) == lt && (a >= b) == !lt && (a > b) == (!lt && !eq) && (a <= b) == (lt || eq), "ordering");
#endif
      if (mb.has) VS_CHECKM((a == *b) == eq && (*b == a) == eq && (a != *b) == !eq && (*b != a) == !eq, "comparison with a value");
    }
  }
  VS_CHECKM(tracked::live == 0, "a stored value was not destroyed exactly once");
  VS_CHECKM(vs_heap_live() == live, "memory leaked");
  vs_reach("end");
}
