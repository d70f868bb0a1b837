// C33: equality is structural and equal values hash equally, whatever their representation.
#include "rbtree.h"
#include <stdexcept>
#include "vs.h"
#include <chrono>
#include <optional>
#include <string>
#include "cista/containers.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "cista/reflection/comparable.h"
#ifndef NS
#define NS offset
#endif
namespace data = cista::NS;
template <typename A, typename B> void agree(A const& a, B const& b, bool const expect) {
  VS_CHECKM(cista::equal_to<A>{}(a, b) == expect, "equal_to differs from member-wise equality");
  VS_CHECKM(cista::equal_to<B>{}(b, a) == expect, "equal_to is not symmetric");
  if (vs_branch(expect)) {
    auto const ha = cista::hashing<A>{}(a), hb = cista::hashing<B>{}(b);
    VS_CHECKM(ha == hb, "equal values have different hashes");
    vs_reach("equal");
  } else vs_reach("unequal");
}
template <typename A> void agree_op(A const& a, A const& b, bool const expect) {
  VS_CHECKM((a == b) == expect && (b == a) == expect, "operator== differs from member-wise equality");
  agree(a, b, expect);
}

#if defined(HBITS)
// a set of bits obtained in different ways; the bits a set can have symbolically are the first, some in the middle and the last one
template <typename B> void fill(B& b, bool* bits, unsigned const n, B const& ones) {
  unsigned const how = vs::pick(4, "how");
  unsigned const at[] = {0, n / 2, n - 1};
  bool const inv = how == 1 || how == 2;
  if (how == 2) b = ones;
  if (how == 3) { b |= ones; b ^= ones; }
  for (unsigned i = 0; i < n; ++i) bits[i] = how == 2;
  for (unsigned k = 0; k < 3; ++k) { bool const v = vs::symb("bit"); b.set(at[k], v); bits[at[k]] = v; }
  if (inv) { b = ~b; for (unsigned i = 0; i < n; ++i) bits[i] = !bits[i]; }
  if (vs::pick(2, "shift")) { b <<= 1; for (unsigned i = n; i-- > 0;) bits[i] = i != 0 && bits[i - 1]; }
}
void vs_main() {
  bool x[BITN], y[BITN];
#ifdef VEC_
  using B = data::bitvec;
  B a, b;
  unsigned n = BITN;
  a.resize(BITN); b.resize(BITN);
  fill(a, x, n, B::max(n)); fill(b, y, n, B::max(n));
  if (vs::pick(2, "grow")) { a.resize(BITN + 1); b.resize(BITN + 1); a.resize(BITN); }
  bool eq = a.size() == b.size();
#else
  using B = cista::bitset<BITN>;
  B a, b;
  fill(a, x, BITN, B::max()); fill(b, y, BITN, B::max());
  bool eq = true;
#endif
  for (unsigned i = 0; i < BITN; ++i) eq = eq & (x[i] == y[i]);
  agree_op(a, b, eq);
  struct holder { int a; B b; };
  agree(holder{3, a}, holder{3, b}, eq);
  vs_reach("end");
}
#elif defined(TABLE)
// two tables with the same or different entries, filled in different orders, with and without previous growth and erasure
template <typename M> struct is_map : std::false_type {};
template <typename K, typename V, template <typename> typename P, typename H, typename E>
struct is_map<cista::hash_storage<cista::pair<K, V>, P, cista::get_first, cista::get_second, H, E>> : std::true_type {};
using T = TABLE;
#ifdef MAP
static void put(T& t, unsigned k, unsigned char v) { t.emplace(KEY(k), v); }
#else
static void put(T& t, unsigned k, unsigned char) { t.emplace(KEY(k)); }
#endif
static void fill(T& t, bool* has, unsigned char* val) {
  static unsigned const order[4][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
  unsigned const o = vs::pick(4, "order");
  if (vs::pick(2, "grown")) { for (unsigned i = 0; i < 9; ++i) put(t, 10 + i, 0); for (unsigned i = 0; i < 9; ++i) t.erase(KEY(10 + i)); }
  for (unsigned i = 0; i < 3; ++i) {
    unsigned const k = order[o][i];
    has[k] = vs::pick(2, "has");
    val[k] = has[k] ? vs::sym<unsigned char>("value") : 0;
    if (has[k]) put(t, k, val[k]);
  }
}
void vs_main() {
  T a, b;
  bool ha[3], hb[3];
  unsigned char va[3] = {}, vb[3] = {};
  fill(a, ha, va); fill(b, hb, vb);
  bool eq = true;
  for (unsigned i = 0; i < 3; ++i) {
    eq = eq & (ha[i] == hb[i]);
#ifdef MAP
    eq = eq & (va[i] == vb[i]);
#endif
  }
  agree_op(a, b, eq);
  struct holder { int a; T b; };
  agree(holder{3, a}, holder{3, b}, eq);
  vs_reach("end");
}
#elif defined(STRINGS)
#ifndef LENS
#define LENS {0, 1, 3, 15, 16, 17, 23}
#endif
static unsigned const kLen[] = LENS;
static unsigned const kN = sizeof(kLen) / sizeof(unsigned);
struct text { char c[32]; unsigned n; std::string_view view() const { return {c, n}; } };
static void fill(text& t, unsigned const n) {
  t.n = n;
  for (unsigned i = 0; i < n; ++i) t.c[i] = static_cast<char>('a' + i);
  if (n > 0) t.c[n - 1] = vs::sym<char>("last");
  if (n > 2) t.c[1] = vs::sym<char>("second");
  t.c[n] = 0;
}
void vs_main() {
  text x, y;
  unsigned const i = vs::pick(kN, "len");
  fill(x, kLen[i]);
  fill(y, vs::pick(2, "same_length") ? kLen[i] : kLen[(i + 1) % kN]);
  bool eq = x.n == y.n;
  if (eq) for (unsigned k = 0; k < x.n; ++k) eq = eq & (x.c[k] == y.c[k]);
  bool has0 = false;
  for (unsigned k = 0; k < y.n; ++k) has0 = has0 | (y.c[k] == 0);
  data::string const s{x.view()};
  data::string const v = data::string{data::string_view{x.view()}};
  switch (vs::pick(9, "kind")) {
    case 0: agree_op(s, data::string{y.view()}, eq); break;
    case 1: { data::string o; o.set_non_owning(y.view()); agree_op(s, o, eq); break; }
    case 2: agree(s, data::string_view{y.view()}, eq); break;
    case 3: agree(s, std::string{y.view()}, eq); break;
    case 4: agree(s, y.view(), eq); break;
    case 5: agree(data::cstring{x.view()}, data::cstring{y.view()}, eq); break;
    case 6: vs_assume(!has0);
      VS_CHECKM((s == static_cast<char const*>(y.c)) == eq, "comparison with a C string");
      if (vs_branch(eq)) VS_CHECKM(cista::hashing<data::string>{}(s) == cista::hashing<char const*>{}(y.c), "equal values have different hashes");
      break;
    case 7: agree(data::string_view{x.view()}, data::string_view{y.view()}, eq); break;
    case 8: agree(std::string{x.view()}, y.view(), eq); break;
  }
  vs_reach("end");
}
#elif defined(VALUES)
enum class color : std::uint8_t { R, G, B };
using strong_t = cista::strong<std::uint16_t, struct strong_tag>;
struct inner { CISTA_COMPARABLE() std::uint16_t a; color b; };
struct rec { std::uint8_t a; inner b; data::vector<std::uint16_t> c; cista::pair<std::uint8_t, std::uint32_t> d; };
template <typename T> T sym();
template <> std::uint8_t sym() { return vs::sym<std::uint8_t>("u8"); }
template <> std::uint16_t sym() { return vs::sym<std::uint16_t>("u16"); }
template <> std::uint32_t sym() { return vs::sym<std::uint32_t>("u32"); }
template <> std::int64_t sym() { return vs::sym<std::int64_t>("i64"); }
template <> color sym() { return vs::sym<color>("enum"); }
template <> inner sym() { auto const a = sym<std::uint16_t>(); return inner{a, sym<color>()}; }
template <typename T> data::vector<T> symv() {
  data::vector<T> v;
  unsigned const n = vs::pick(3, "n");
  if (vs::pick(2, "reserve")) v.reserve(5);
  for (unsigned i = 0; i < n; ++i) v.push_back(sym<T>());
  return v;
}
template <typename V, typename F> bool eqv(V const& a, V const& b, F f) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (unsigned i = 0; i < a.size(); ++i) r = r & f(a[i], b[i]);
  return r;
}
static bool eq_inner(inner const& a, inner const& b) { return (a.a == b.a) & (a.b == b.b); }
void vs_main() {
  switch (vs::pick(13, "type")) {
    case 0: { auto const a = sym<std::uint32_t>(), b = sym<std::uint32_t>(); agree(a, b, a == b); break; }
    case 1: { auto const a = sym<color>(), b = sym<color>(); agree(a, b, a == b); break; }
    case 2: { auto const a = sym<inner>(), b = sym<inner>(); agree_op(a, b, eq_inner(a, b)); break; }
    case 3: { auto const a = symv<std::uint16_t>(), b = symv<std::uint16_t>(); agree_op(a, b, eqv(a, b, [](auto x, auto y) { return x == y; })); break; }
    case 4: { auto const a = symv<inner>(), b = symv<inner>(); agree_op(a, b, eqv(a, b, eq_inner)); break; }
    case 5: {
      using P = cista::pair<std::uint8_t, std::uint32_t>;
      P const a{sym<std::uint8_t>(), sym<std::uint32_t>()}, b{sym<std::uint8_t>(), sym<std::uint32_t>()};
      agree_op(a, b, (a.first == b.first) & (a.second == b.second));
      break;
    }
    case 6: {
      rec const a{sym<std::uint8_t>(), sym<inner>(), symv<std::uint16_t>(), {sym<std::uint8_t>(), sym<std::uint32_t>()}};
      rec b{sym<std::uint8_t>(), sym<inner>(), {}, {sym<std::uint8_t>(), sym<std::uint32_t>()}};
      b.c = a.c;
      bool eqc = true;
      if (b.c.size() > 1) { b.c[1] = sym<std::uint16_t>(); eqc = a.c[1] == b.c[1]; }
      agree(a, b, (a.a == b.a) & eq_inner(a.b, b.b) & eqc & (a.d.first == b.d.first) & (a.d.second == b.d.second));
      break;
    }
    case 7: {
      strong_t const a{sym<std::uint16_t>()}, b{sym<std::uint16_t>()};
      agree_op(a, b, a.v_ == b.v_);
      break;
    }
    case 8: {
      using V = cista::variant<std::uint8_t, std::uint32_t, inner>;
      V a, b;
      std::uint32_t pa = 0, pb = 0; inner ia{}, ib{};
      auto const mk = [](V& v, std::uint32_t& p, inner& i) {
        switch (vs::pick(3, "alt")) {
          case 0: { auto const x = sym<std::uint8_t>(); p = x; v = x; break; }
          case 1: { auto const x = sym<std::uint32_t>(); p = x; v = x; break; }
          case 2: i = sym<inner>(); v = i; break;
        }
      };
      mk(a, pa, ia); mk(b, pb, ib);
      bool const eq = a.index() == b.index() ? ((pa == pb) & eq_inner(ia, ib)) : false;
      VS_CHECKM((a == b) == eq, "operator== differs from member-wise equality");
      VS_CHECKM(cista::equal_to<V>{}(a, b) == eq, "equal_to differs from member-wise equality");
      if (vs_branch(eq)) VS_CHECKM(cista::hashing<V>{}(a) == cista::hashing<V>{}(b), "equal values have different hashes");
      break;
    }
    case 9: {
      using A = data::array<std::uint16_t, 3>;
      A const a{{sym<std::uint16_t>(), sym<std::uint16_t>(), sym<std::uint16_t>()}}, b{{sym<std::uint16_t>(), sym<std::uint16_t>(), sym<std::uint16_t>()}};
      agree_op(a, b, (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]));
      break;
    }
    case 10: {
      static std::uint32_t objs[3];
      unsigned const i = vs::pick(4, "i"), j = vs::pick(4, "j");
      data::ptr<std::uint32_t> a = i == 3 ? nullptr : &objs[i], b = j == 3 ? nullptr : &objs[j];
      VS_CHECKM(cista::equal_to<data::ptr<std::uint32_t>>{}(a, b) == (i == j), "equal_to of pointers");
      if (i == j) VS_CHECKM(cista::hashing<data::ptr<std::uint32_t>>{}(a) == cista::hashing<data::ptr<std::uint32_t>>{}(b), "equal values have different hashes");
      if (i == j) VS_CHECKM(cista::hashing<data::ptr<std::uint32_t>>{}(a) == cista::hashing<std::uint32_t*>{}(static_cast<std::uint32_t*>(b)), "equal values have different hashes");
      break;
    }
    case 11: {
      using O = std::optional<std::uint32_t>;
      O a, b;
      if (vs::pick(2, "a")) a = sym<std::uint32_t>();
      if (vs::pick(2, "b")) b = sym<std::uint32_t>();
      agree(a, b, a.has_value() == b.has_value() && (!a.has_value() || *a == *b));
      break;
    }
    case 12: {
      std::chrono::duration<std::int64_t> const a{sym<std::int64_t>()}, b{sym<std::int64_t>()};
      agree(a, b, a.count() == b.count());
      break;
    }
  }
  vs_reach("end");
}
#endif
