// C06: byte order conversion of every scalar type is the exact reversal and its own inverse
#include "rbtree.h"
#include "cista/serialization.h"
#include "vs.h"
using cista::mode;
enum class e1 : std::uint8_t {}; enum class e2 : std::int16_t {}; enum class e4 : std::uint32_t {}; enum class e8_ : std::int64_t {}; enum plain { P };
template <typename T> void one() {
  T const x = vs::sym<T>("x");
  // compared through memory: floating point comparison is not identity
  unsigned char a[sizeof(T)], b[sizeof(T)], c[sizeof(T)], d[sizeof(T)];
  T const sw = cista::endian_swap(x), be = cista::convert_endian<mode::SERIALIZE_BIG_ENDIAN>(x), le = cista::convert_endian<mode::NONE>(x);
  T const back = cista::endian_swap(sw), back2 = cista::convert_endian<mode::SERIALIZE_BIG_ENDIAN>(be);
  std::memcpy(a, &x, sizeof(T)); std::memcpy(b, &sw, sizeof(T)); std::memcpy(c, &be, sizeof(T));
  for (unsigned i = 0; i < sizeof(T); ++i) { VS_CHECKM(a[i] == b[sizeof(T) - 1 - i], "endian_swap is not the byte reversal"); VS_CHECKM(a[i] == c[sizeof(T) - 1 - i], "big endian is not the byte reversal"); }
  std::memcpy(b, &back, sizeof(T)); std::memcpy(c, &back2, sizeof(T)); std::memcpy(d, &le, sizeof(T));
  for (unsigned i = 0; i < sizeof(T); ++i) VS_CHECKM(a[i] == b[i] && a[i] == c[i] && a[i] == d[i], "byte order conversion is not its own inverse");
}
template <int> struct alt { std::uint16_t x; };
template <typename> struct mkv;
template <std::size_t... I> struct mkv<std::index_sequence<I...>> { using type = cista::variant<alt<I>...>; };
using big = mkv<std::make_index_sequence<260>>::type;
struct root_t { big v; };
void vs_main() {
#ifdef VARIANT
  auto const x = vs::sym<std::uint16_t>("x");
  unsigned const k = vs::pick(3, "alt");
  root_t r{};
  if (k == 0) r.v = alt<0>{x}; else if (k == 1) r.v = alt<17>{x}; else r.v = alt<259>{x};
  auto be = cista::serialize<mode::SERIALIZE_BIG_ENDIAN>(r);
  auto le = cista::serialize<mode::NONE>(r);
  auto const l = reinterpret_cast<root_t const*>(le.data());
  auto const o = static_cast<std::size_t>(reinterpret_cast<unsigned char const*>(&l->v.idx_) - le.data());
  VS_CHECK(sizeof(l->v.idx_) == 2 && be[o] == le[o + 1] && be[o + 1] == le[o]);
  auto const g = cista::deserialize<root_t, mode::SERIALIZE_BIG_ENDIAN>(be);
  VS_CHECKM(g->v.index() == r.v.index(), "variant alternative differs");
  VS_CHECKM(g->v.apply([](auto const& a) { return a.x; }) == x, "variant value differs");
#else
  one<std::int8_t>(); one<std::uint8_t>(); one<char>(); one<bool>(); one<std::int16_t>(); one<std::uint16_t>(); one<char16_t>(); one<std::int32_t>(); one<std::uint32_t>(); one<char32_t>();
  one<std::int64_t>(); one<std::uint64_t>(); one<float>(); one<double>(); one<e1>(); one<e2>(); one<e4>(); one<e8_>(); one<plain>(); one<void*>();
#endif
  vs_reach("end");
}
