// C25: building and reading the forward-star multimap
#include "cista/containers/fws_multimap.h"
#include "seq.h"
#ifndef KEYT
#define KEYT unsigned
#endif
#ifndef ELEM
#define ELEM int
#endif
using E = ELEM;
using EL = elem<E>;
using K = KEYT;
using MM = cista::NS::fws_multimap<K, E>;
constexpr unsigned MK = NOPS + 2, ME = NOPS + 2;
struct mod { EL::raw data[ME]; unsigned start[MK + 1] = {}; unsigned nd = 0, nk = 0; bool done = false; };
static void check_entry(MM const& m, mod const& r, unsigned k, typename MM::entry_t const e) {
  unsigned const from = r.start[k], n = (k + 1 < r.nk ? r.start[k + 1] : r.nd) - from;
  VS_CHECKM(e.size() == n && e.empty() == (n == 0) && e.end() - e.begin() == static_cast<long>(n) && e.cbegin() == e.begin() && e.cend() == e.end() && begin(e) == e.begin() && end(e) == e.end(), "number of entries of a key");
  unsigned i = 0; bool same = true;
  for (auto const& x : e) { VS_CHECKM(i < n, "iteration covers the key's entries only"); same &= EL::get(x) == r.data[from + i]; VS_CHECKM(EL::get(e[static_cast<K>(i)]) == r.data[from + i] && e.data_index(static_cast<K>(i)) == from + i, "access by index"); ++i; }
  VS_CHECKM(i == n && same, "entries of a key in order");
}
static void check(MM const& m, mod const& r) {
  vs::self_accepted(m);
  VS_CHECKM(m.data_size() == r.nd && m.index_size() == r.nk + (r.done ? 1U : 0U) && m.finished() == r.done && (r.done || m.current_key() == static_cast<K>(r.nk)), "sizes");
  unsigned const n = r.done ? r.nk : r.nk == 0 ? 0 : r.nk - 1;  // the last key can be read once the map is finished
  for (unsigned k = 0; k < n; ++k) check_entry(m, r, k, m[static_cast<K>(k)]);
  unsigned k = 0;
  for (auto const& e : m) { VS_CHECKM(k < n, "iteration visits every key once"); check_entry(m, r, k, e); ++k; }
  VS_CHECKM(k == n, "iteration visits every key");
  auto b = m.begin(), e = m.end();
  VS_CHECKM(e - b == static_cast<int>(n) && b - e == -static_cast<int>(n) && m.cbegin() == b && m.cend() == e && (b == e) == (n == 0) && (b != e) == (n != 0) && begin(m) == b && end(m) == e, "iterator range");
  if (n != 0) {
    unsigned const j = vs::pick(n, "at");
    auto it = m.begin(); it += static_cast<int>(j); check_entry(m, r, j, *it);
    VS_CHECKM(it == b + static_cast<int>(j) && it == e - static_cast<int>(n - j) && it - b == static_cast<int>(j) && (it > b) == (j != 0) && it < e && it <= e && b <= it && e >= it && !(it > e) && !(it < b), "iterator arithmetic");
    check_entry(m, r, j, b[static_cast<int>(j)]); check_entry(m, r, j, *(e - static_cast<int>(n - j)));
    auto x = m.end(); --x; check_entry(m, r, n - 1, *x); x -= static_cast<int>(n - 1); check_entry(m, r, 0, *x); ++x; VS_CHECKM(x - b == 1, "iterator arithmetic");
  }
}
void vs_main() {
  auto const heap0 = vs_heap_live();
  {
    MM m; mod r;
    if (vs::flip("reserve")) m.reserve_index(static_cast<K>(vs::pick(3, "n")));
    check(m, r);
    unsigned const n = vs::pick(NOPS + 1, "n");
    unsigned pending = 0;
    for (unsigned i = 0; i < n; ++i) {
      switch (vs::pick(4, "op")) {
        case 0: { auto v = EL::fresh("v"); m.push_back(EL::mk(v)); r.data[r.nd++] = v; ++pending; break; }
        case 1: { auto v = EL::fresh("v"); m.emplace_back(v); r.data[r.nd++] = v; ++pending; break; }
        case 2: m.finish_key(); r.start[r.nk++] = r.nd - pending; pending = 0; break;
        case 3: { if (vs::flip("move")) { MM t{std::move(m)}; m = std::move(t); } else { MM t{m}; m = t; } break; }
      }
      if (pending == 0) check(m, r);
    }
    if (pending != 0) { m.finish_key(); r.start[r.nk++] = r.nd - pending; check(m, r); }
    m.finish_map(); r.done = true;
    check(m, r);
    { MM c{m}; check(c, r); MM d; d = std::move(c); check(d, r); }
    check(m, r);
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
#ifdef TRACKED
  VS_CHECKM(vs::tracked::live == 0, "all elements were destroyed");
#endif
  vs_reach("end");
}
