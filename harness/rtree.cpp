// C32: histories of insertions and deletions on the spatial index
#include <filesystem>
#include "cista/containers.h"
#include "vs.h"
#ifndef NUM
#define NUM int
#endif
#ifndef DIMS
#define DIMS 2
#endif
#ifndef ITEMS
#define ITEMS 2
#endif
#ifndef NSYM
#define NSYM NOPS
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef MAXC
#define MAXC 7
#endif
using N = NUM;
using RT = cista::NS::rtree<std::uint16_t, DIMS, N, ITEMS>;
using C = RT::coord_t;
constexpr unsigned ME = 64;
struct entry { C lo, hi; std::uint16_t d; bool live; };
struct mod { entry e[ME]; unsigned n = 0; unsigned count() const { unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += e[i].live; return c; } };
static bool fixed_;  // explore the coordinates value by value
static N coord(char const* n) { return static_cast<N>(fixed_ ? vs::pick(MAXC + 1, n) : vs::range(0, MAXC, n)); }
static void rect(C& lo, C& hi) {
  for (unsigned d = 0; d < DIMS; ++d) {
    lo[d] = coord("lo");
#ifdef POINTS
    hi[d] = lo[d];
#else
    hi[d] = coord("hi"); vs_assume(lo[d] <= hi[d]);
#endif
  }
}
static bool meets(entry const& e, C const& lo, C const& hi) {
  bool b = true;
  for (unsigned d = 0; d < DIMS; ++d) b &= (e.lo[d] <= hi[d]) & (lo[d] <= e.hi[d]);
  return b;
}
static void query(RT const& t, mod const& m, C const& lo, C const& hi) {
  unsigned char seen[ME] = {};
  t.search(lo, hi, [&](C const& l, C const& h, std::uint16_t const& d) {
    VS_CHECKM(d < m.n, "search reports stored entries only");
    bool same = true;
    for (unsigned i = 0; i < DIMS; ++i) same &= (l[i] == m.e[d].lo[i]) & (h[i] == m.e[d].hi[i]);
    VS_CHECKM(same, "search reports the entry's rectangle");
    ++seen[d];
    return true;
  });
  for (unsigned i = 0; i < m.n; ++i) VS_CHECKM(seen[i] == ((m.e[i].live & meets(m.e[i], lo, hi)) ? 1 : 0), "search reports exactly the intersecting entries, each once");
}
static void check(RT const& t, mod const& m) {
  vs::self_accepted(t);
  VS_CHECKM(t.m_.count_ == m.count(), "number of entries");
  C lo, hi;
  for (unsigned d = 0; d < DIMS; ++d) { lo[d] = 0; hi[d] = std::numeric_limits<N>::max(); }
  query(t, m, lo, hi);
  rect(lo, hi);
  query(t, m, lo, hi);
  unsigned calls = 0;
  t.search(lo, hi, [&](C const&, C const&, std::uint16_t const&) { ++calls; return false; });
  VS_CHECKM(calls <= 1, "a search ends when the callback wants it to");
}
static void insert(RT& t, mod& m, C const& lo, C const& hi) {
  auto& e = m.e[m.n];
  e.lo = lo; e.hi = hi; e.d = static_cast<std::uint16_t>(m.n); e.live = true;
  t.insert(lo, hi, e.d);
  ++m.n;
}
void vs_main() {
  auto const heap0 = vs_heap_live();
  {
    RT t; mod m;
    for (unsigned i = 0; i < PRE; ++i) {  // some fixed entries to begin with
      C lo, hi;
      for (unsigned d = 0; d < DIMS; ++d) {
#ifdef DEEP
        lo[d] = hi[d] = static_cast<N>(N{1} << (PRE - i));
#else
        lo[d] = static_cast<N>((i * 5 + d * 3) % (MAXC + 1)); hi[d] = static_cast<N>(lo[d] + (i + d) % 2);
#endif
      }
      insert(t, m, lo, hi);
    }
    for (unsigned i = 0; i < NOPS; ++i) {
      fixed_ = i + NSYM < NOPS;  // the coordinates of the last NSYM operations are symbolic
      switch (vs::pick(OPS, "op")) {
        case 0: { C lo, hi; rect(lo, hi); insert(t, m, lo, hi); break; }
        case 1: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); auto& e = m.e[k]; vs_assume(e.live); t.delete_element(e.lo, e.hi, e.d); e.live = false; break; }
        case 2: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); auto& e = m.e[k]; vs_assume(e.live); t.delete_element_with_function(e.lo, e.hi, [&](C const&, C const&, std::uint16_t const& d) { return d == e.d; }); e.live = false; break; }
        case 3: { // delete something that is not there
                  C lo, hi; rect(lo, hi); t.delete_element(lo, hi, static_cast<std::uint16_t>(m.n)); break; }
      }
    }
    fixed_ = false;
    check(t, m);
#ifdef COPY
    { RT c{t}; check(c, m); RT d; d = std::move(c); check(d, m); }
#endif
#ifdef DRAIN
    for (unsigned i = 0; i < m.n; ++i) if (m.e[i].live) { t.delete_element(m.e[i].lo, m.e[i].hi, m.e[i].d); m.e[i].live = false; }
    check(t, m);
    C lo, hi; rect(lo, hi); insert(t, m, lo, hi); insert(t, m, lo, hi); insert(t, m, lo, hi);
    check(t, m);
#endif
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
  vs_reach("end");
}
