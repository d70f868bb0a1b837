// C23: nested vectors with N levels of indices (N = 2, 3, 4) against a model
#include <exception>
#include "cista/containers/nvec.h"
#include "seq.h"
#ifdef STRONG
using KEY = cista::strong<unsigned, struct ktag>;
#else
using KEY = unsigned;
#endif
using E = int;
using V = cista::NS::nvec<KEY, E, LEVELS>;
constexpr unsigned FAN = 3, MAXD = 12;
// tree of ranges handed to emplace_back
struct leaf { E a[FAN]; unsigned n = 0; E* begin() { return a; } E* end() { return a + n; } std::size_t size() const { return n; } };
template <typename C> struct inner { C a[FAN]; unsigned n = 0; C* begin() { return a; } C* end() { return a + n; } std::size_t size() const { return n; } };
template <unsigned L> struct tree_of { using type = inner<typename tree_of<L - 1>::type>; };
template <> struct tree_of<0> { using type = leaf; };
using tree = typename tree_of<LEVELS - 1>::type;
static unsigned fan(unsigned) { return vs::pick(FANOUT + 1, "n"); }
static void grow(leaf& l) { l.n = fan(0); for (unsigned i = 0; i < l.n; ++i) l.a[i] = vs::sym<E>("v"); }
template <typename C> static void grow(inner<C>& t) { t.n = fan(1); for (unsigned i = 0; i < t.n; ++i) grow(t.a[i]); }
template <typename F> static bool throws(F&& f) { try { f(); } catch (std::exception const&) { return true; } return false; }
// bucket against leaf
template <typename B> static void check_b(B b, leaf const& l) {
  VS_CHECKM(b.size() == l.n && b.empty() == (l.n == 0), "leaf size");
  bool same = true; unsigned k = 0;
  for (unsigned i = 0; i < l.n; ++i) same &= b[i] == l.a[i] && b.at(i) == l.a[i];
  for (auto const& e : b) { VS_CHECKM(k < l.n, "leaf iteration"); same &= e == l.a[k++]; }
  VS_CHECKM(same && k == l.n, "leaf contents");
  if (l.n != 0) VS_CHECKM(b.front() == l.a[0] && b.back() == l.a[l.n - 1], "front/back");
  VS_CHECKM(throws([&] { (void)b.at(l.n); }), "leaf at reports an index out of range");
}
template <typename It> static void check_range(It it, leaf const& l) { check_b(it, l); }
template <typename It, typename C> static void check_range(It it, inner<C> const& t) {
  VS_CHECKM(it.size() == t.n, "size at an inner level");
  unsigned k = 0;
  for (auto x : it) { VS_CHECKM(k < t.n, "iteration at an inner level"); check_range(x, t.a[k++]); }
  VS_CHECKM(k == t.n, "iteration at an inner level is complete");
  for (unsigned i = 0; i < t.n; ++i) check_range(it[i], t.a[i]);
}
template <typename VV, typename... I> static void check_path(VV& v, leaf const& l, I... i) {
  VS_CHECKM(v.size(i...) == l.n, "size of a leaf");
  check_b(v.at(i...), l);
}
template <typename VV, typename C, typename... I> static void check_path(VV& v, inner<C> const& t, I... i) {
  VS_CHECKM(v.size(i...) == t.n, "size below an index path");
  for (unsigned k = 0; k < t.n; ++k) check_path(v, t.a[k], i..., k);
  if constexpr (sizeof...(I) + 1 == LEVELS) {
    VS_CHECKM(throws([&] { (void)v.at(i..., t.n); }), "at reports an index out of range");
    VS_CHECKM(throws([&] { (void)v.at(i..., t.n + 1U); }), "at reports an index out of range");
    VS_CHECKM(throws([&] { (void)v.size(i..., t.n); }), "size reports an index out of range");
  }
}
template <typename VV> static void check(VV& v, tree const* t, unsigned n) {
  vs::self_accepted(v);
  VS_CHECKM(v.size() == n, "number of top level entries");
  unsigned k = 0;
  if (n != 0 || true) { for (auto x : v) { VS_CHECKM(k < n, "top level iteration"); check_range(x, t[k++]); } }
  VS_CHECKM(k == n, "top level iteration is complete");
  for (unsigned i = 0; i < n; ++i) { check_range(v[KEY{i}], t[i]); check_path(v, t[i], KEY{i}); }
  if (n != 0) { check_range(v.front(), t[0]); check_range(v.back(), t[n - 1]); }
#if LEVELS == 2
  for (unsigned d = 0; d < 2; ++d) VS_CHECKM(throws([&] { (void)v.at(KEY{n + d}, 0U); }) && throws([&] { (void)v.size(KEY{n + d}, 0U); }), "at reports a top level index out of range");
#elif LEVELS == 3
  for (unsigned d = 0; d < 2; ++d) VS_CHECKM(throws([&] { (void)v.at(KEY{n + d}, 0U, 0U); }) && throws([&] { (void)v.size(KEY{n + d}, 0U); }), "at reports a top level index out of range");
#endif
  VS_CHECKM(throws([&] { (void)v.size(KEY{n}); }), "size reports a top level index out of range");
}
void vs_main() {
  unsigned long const heap0 = vs_heap_live();
  {
    static tree t[TOP];
    V v;
    check(v, t, 0);
    unsigned n = vs::pick(TOP + 1, "top");
    for (unsigned i = 0; i < n; ++i) {
      grow(t[i]);
      tree copy = t[i];
      v.emplace_back(copy);
    }
    check(v, t, n);
    V const& c = v;
    check(c, t, n);
    V w{v}; V x; x = std::move(w);
    check(x, t, n);
    vs::obs(n);
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
  vs_reach("end");
}
