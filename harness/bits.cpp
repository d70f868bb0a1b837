// C21: bit counting and power-of-two helpers; C37: chunk; hash streaming
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <string>
#include "cista/bit_counting.h"
#include "cista/next_power_of_2.h"
#include "cista/chunk.h"
#include "cista/hash.h"
#include "vs.h"
#if defined(SEC_COUNT)
template <typename T> static void zeros() {
  constexpr unsigned W = sizeof(T) * 8;
  T x = vs::sym<T>("x");
  unsigned tz = W, lz = W;
  for (unsigned i = W; i-- > 0;) if (true) tz = ((x >> i) & T{1}) != 0 ? i : tz;
  for (unsigned i = 0; i < W; ++i) lz = ((x >> i) & T{1}) != 0 ? W - 1 - i : lz;
  VS_CHECKM(cista::trailing_zeros(x) == tz, "trailing_zeros");
  VS_CHECKM(cista::leading_zeros(x) == lz, "leading_zeros");
  if (vs_branch(x != 0)) VS_CHECKM(cista::constexpr_trailing_zeros(x) == tz, "constexpr_trailing_zeros of a non-zero value");
  vs::obs(cista::trailing_zeros(x));
}
template <typename T> static void ctz_small() {
  constexpr unsigned W = sizeof(T) * 8;
  T x = vs::sym<T>("x");
  vs_assume(x != 0);
  unsigned tz = W;
  for (unsigned i = W; i-- > 0;) tz = ((x >> i) & 1U) != 0 ? i : tz;
  VS_CHECKM(cista::constexpr_trailing_zeros(x) == tz, "constexpr_trailing_zeros of a non-zero value");
}
static void pop() {
  // inductive characterisation: 0 for 0, one more for every additional bit, which determines the function
  auto x = vs::sym<std::uint64_t>("x");
  VS_CHECKM(cista::popcount(0) == 0U, "popcount(0)");
  unsigned k = vs::pick(64, "k");
  vs_assume(((x >> k) & 1U) == 0U);
  VS_CHECKM(cista::popcount(x | (std::uint64_t{1} << k)) == cista::popcount(x) + 1U, "popcount grows by one with every additional bit");
}
void vs_main() {
  switch (vs::pick(6, "fn")) {
    case 0: zeros<std::uint64_t>(); break;
    case 1: zeros<std::uint32_t>(); break;
    case 2: ctz_small<std::uint8_t>(); break;
    case 3: ctz_small<std::uint16_t>(); break;
    case 4: ctz_small<std::uint32_t>(); break;
    default: pop(); break;
  }
  vs_reach("end");
}
#elif defined(SEC_POW2)
template <typename T> static void pow2() {
  constexpr unsigned W = sizeof(T) * 8;
  T x = vs::sym<T>("x");
  vs_assume(x >= 1 && x <= static_cast<T>(T{1} << (W - 1)));
  T r = cista::next_power_of_two(x);
  VS_CHECKM(r != 0 && (r & static_cast<T>(r - 1)) == 0, "next_power_of_two returns a power of two");
  VS_CHECKM(r >= x, "next_power_of_two is not below its argument");
  VS_CHECKM(static_cast<T>(r >> 1U) < x, "next_power_of_two is the smallest such power");
  vs::obs(r);
}
void vs_main() {
  switch (vs::pick(4, "fn")) {
    case 0: pow2<std::uint64_t>(); break;
    case 1: pow2<std::uint32_t>(); break;
    case 2: pow2<std::uint16_t>(); break;
    default: pow2<std::uint8_t>(); break;
  }
  vs_reach("end");
}
#elif defined(SEC_CHUNK)
void vs_main() {
#if defined(SIZES)
  constexpr unsigned sizes[] = {1U, 2U, 3U, 64U, 4095U, 4096U, 1U << 20U, 536870912U, 1U << 31U, 0xFFFFFFFFU};
  unsigned const size = sizes[vs::pick(sizeof(sizes) / sizeof(sizes[0]), "size")];
#else
  auto const size = vs::sym<unsigned>("chunk_size");
#endif
  auto const total = vs::sym<std::size_t>("total");
  vs_assume(size != 0U);
  std::size_t next = 0U;
  unsigned n = 0U;
  cista::chunk(size, total, [&](std::size_t const offset, unsigned const len) {
    vs_assume(n < NCHUNK);  // bound: totals of at most NCHUNK chunks
    VS_CHECKM(offset == next, "chunks are contiguous and in order");
    VS_CHECKM(next != total, "no chunk starts behind the end");
    VS_CHECKM(len == (total - next < size ? total - next : size), "each chunk is as large as possible within chunk size and total");
    next += len;
    if (++n == NCHUNK) vs_reach("many");
  });
  VS_CHECKM(next == total, "chunks cover the total");
  vs::obs(n);
  vs_reach("end");
}
#elif defined(SEC_HASH)
void vs_main() {
  unsigned char b[NB];
  vs_sym(b, NB, "bytes");
  auto const seed = vs::sym<std::uint64_t>("seed");
  unsigned const n = vs::pick(NB + 1, "n");
  std::string_view const s{reinterpret_cast<char const*>(b), n};
  auto const whole = cista::hash(s, seed);
#if defined(FNV)
  std::uint64_t ref = seed;
  for (unsigned i = 0; i < n; ++i) ref = (ref ^ b[i]) * 1099511628211ULL;
  VS_CHECKM(whole == ref, "64 bit FNV-1a");
  unsigned const size = 1U + vs::pick(NB, "chunk");
  auto h = seed;
  cista::chunk(size, n, [&](std::size_t const o, unsigned const l) { h = cista::hash(s.substr(o, l), h); });
  VS_CHECKM(h == whole, "hashing chunk by chunk equals hashing at once");
#endif
  // only the n bytes matter, wherever they are
  unsigned char c[NB + 8];
  vs_sym(c, NB + 8, "other");
  unsigned const sh = vs::pick(2, "shift") * 3;
  for (unsigned i = 0; i < n; ++i) c[i + sh] = b[i];
  VS_CHECKM(cista::hash(std::string_view{reinterpret_cast<char const*>(c) + sh, n}, seed) == whole, "the hash depends on the hashed bytes only");
  vs::obs(n);
  vs_reach("end");
}
#endif
