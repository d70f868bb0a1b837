// C35: strong types compute exactly like their base type
#include "cista/strong.h"
#include <sstream>
#include "vs.h"
template <typename T> static bool same(T a, T b) { return a == b; }
template <typename T, typename Wide> static void run() {
  struct tag {};
  using S = cista::strong<T, tag>;
  constexpr unsigned W = sizeof(T) * 8;
  T const a = vs::sym<T>("a"), b = vs::sym<T>("b");
  S x{a};
  S const y{b};
  auto const is = [](S const& s, T v) { return s.v_ == v && static_cast<T const&>(s) == v && cista::to_idx(s) == v; };
  VS_CHECKM(is(x, a) && is(y, b), "conversion in and out");
  switch (vs::pick(16, "op")) {
    case 0: VS_CHECKM(is(x + y, static_cast<T>(a + b)) && is(x + b, static_cast<T>(a + b)), "+"); break;
    case 1: VS_CHECKM(is(x - y, static_cast<T>(a - b)) && is(x - b, static_cast<T>(a - b)), "-"); break;
    case 2: VS_CHECKM(is(x * y, static_cast<T>(static_cast<Wide>(a) * static_cast<Wide>(b))) && is(x * b, static_cast<T>(static_cast<Wide>(a) * static_cast<Wide>(b))), "*"); break;
    case 3: { vs_assume(b != 0); if (std::is_signed<T>::value) vs_assume(b != static_cast<T>(-1)); VS_CHECKM(is(x / y, static_cast<T>(a / b)) && is(x / b, static_cast<T>(a / b)), "/"); break; }
    case 4: { auto& r = x += b; VS_CHECKM(&r == &x && is(x, static_cast<T>(a + b)), "+="); break; }
    case 5: { auto& r = x -= b; VS_CHECKM(&r == &x && is(x, static_cast<T>(a - b)), "-="); break; }
    case 6: { vs_assume(b >= 0 && b < static_cast<T>(W)); VS_CHECKM(is(x >> y, static_cast<T>(a >> b)) && is(x >> b, static_cast<T>(a >> b)), ">>"); break; }
    case 7: { vs_assume(b >= 0 && b < static_cast<T>(W)); VS_CHECKM(is(x << y, static_cast<T>(a << b)) && is(x << b, static_cast<T>(a << b)), "<<"); break; }
    case 8: { auto& r = x |= y; VS_CHECKM(&r == &x && is(x, static_cast<T>(a | b)), "|="); break; }
    case 9: { auto& r = x &= y; VS_CHECKM(&r == &x && is(x, static_cast<T>(a & b)), "&="); break; }
    case 10: VS_CHECKM((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison of strong values"); break;
    case 11: VS_CHECKM((x == b) == (a == b) && (x != b) == (a != b) && (x < b) == (a < b) && (x <= b) == (a <= b) && (x > b) == (a > b) && (x >= b) == (a >= b), "comparison with a plain value"); break;
    case 12: { auto& r = ++x; VS_CHECKM(&r == &x && is(x, static_cast<T>(a + 1)), "++x"); S z{a}; VS_CHECKM(is(z++, a) && is(z, static_cast<T>(a + 1)), "x++"); break; }
    case 13: { auto& r = --x; VS_CHECKM(&r == &x && is(x, static_cast<T>(a - 1)), "--x"); S z{a}; VS_CHECKM(is(z--, a) && is(z, static_cast<T>(a - 1)), "x--"); break; }
    case 14: { VS_CHECKM(is(S::invalid(), std::numeric_limits<T>::max()) && (x == S::invalid()) == (a == std::numeric_limits<T>::max()), "invalid()");
               VS_CHECKM(is(std::numeric_limits<S>::max(), std::numeric_limits<T>::max()) && is(std::numeric_limits<S>::min(), std::numeric_limits<T>::min()), "numeric_limits");
               VS_CHECKM(std::hash<S>{}(x) == std::hash<T>{}(a), "hash"); break; }
    case 15: { S c{x}; S d{std::move(c)}; VS_CHECKM(is(d, a), "copies"); d = y; VS_CHECKM(is(d, b), "assignment"); S e{y}; e = std::move(d); VS_CHECKM(is(e, b), "move assignment");
               S f{static_cast<int>(vs::sym<signed char>("i") & 0x7f)}; (void)f; auto w = vs::sym<unsigned char>("w"); vs_assume(w < 128); VS_CHECKM(is(S{static_cast<int>(w)}, static_cast<T>(w)) && is(S{static_cast<std::uint64_t>(w)}, static_cast<T>(w)), "construction from another integer type"); break; }
    default: break;
  }
  vs::obs(static_cast<unsigned char>(a));
}
void vs_main() {
  switch (vs::pick(7, "type")) {
    case 0: run<std::uint8_t, unsigned>(); break;
    case 1: run<std::uint16_t, unsigned>(); break;
    case 2: run<std::uint32_t, std::uint32_t>(); break;
    case 3: run<std::uint64_t, std::uint64_t>(); break;
    case 4: run<std::int8_t, int>(); break;
    case 5: run<std::int16_t, int>(); break;
    default: run<std::int32_t, std::int32_t>(); break;
  }
  vs_reach("end");
}
