// C31: flat matrix
#include "rbtree.h"
#include <stdexcept>
#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "vs.h"
#ifndef NS
#define NS raw
#endif
#ifndef MAXR
#define MAXR 3
#endif
#ifndef EL
#define EL std::uint16_t
#endif
namespace data = cista::NS;
using T = EL;
using M = data::flat_matrix<T>;
static T model[MAXR + 1][MAXR + 1];
static void check(M& m, unsigned r, unsigned c) {
  vs::self_accepted(m);
  M const& cm = m;
  VS_CHECKM(m.n_rows_ == r && m.n_columns_ == c && m.entries_.size() == r * c, "matrix size");
  for (unsigned i = 0; i < r; ++i) {
    auto row = m[i]; auto const crow = cm[i]; auto arow = m.at(i); auto const carow = cm.at(i);
    unsigned n = 0;
    for (auto const& x : row) { VS_CHECKM(n < c && &x == &m(i, n) && x == model[i][n], "row iteration"); ++n; }
    VS_CHECKM(n == c, "row iteration covers the row");
    n = 0;
    for (auto const& x : crow) { VS_CHECKM(n < c && &x == &m(i, n), "const row iteration"); ++n; }
    VS_CHECKM(n == c, "const row iteration covers the row");
    auto const row2 = m[i];
    VS_CHECKM(row2.end() - row2.begin() == static_cast<long>(c) && end(row2) - begin(row2) == static_cast<long>(c) && end(row) - begin(row) == static_cast<long>(c) && end(crow) - begin(crow) == static_cast<long>(c), "row length");
    for (unsigned j = 0; j < c; ++j) {
      VS_CHECKM(m(i, j) == model[i][j] && row[j] == model[i][j] && crow[j] == model[i][j] && arow[j] == model[i][j] && carow[j] == model[i][j] && m[i][j] == model[i][j], "cell differs");
      VS_CHECKM(&m(i, j) >= m.entries_.data() && &m(i, j) < m.entries_.data() + r * c, "cell outside of the matrix");
    }
  }
}
static bool at_throws(M& m, unsigned i) { try { m.at(i); } catch (...) { try { static_cast<M const&>(m).at(i); } catch (...) { return true; } } return false; }
void vs_main() {
  auto const live = vs_heap_live();
#if defined(HUGE_)
  // sizes whose product does not fit must be reported, never accepted with fewer cells
  {
    M m;
    auto const r = vs::sym<std::uint32_t>("r"); 
    static std::uint32_t const cs[] = {2, 3, 5, 0x10000, 0x10001, 0x80000000U, 0xFFFFFFFFU};
    auto const c = cs[vs::pick(7, "c")];
    vs_assume(static_cast<unsigned long>(r) * c > 0xFFFFFFFFUL);
    bool thrown = false;
    try { if (vs::flip("make")) m = data::make_flat_matrix<T>(r, c); else m.resize(r, c); } catch (...) { thrown = true; }
    VS_CHECKM(thrown, "matrix with more cells than it can address");
    VS_CHECKM(m.n_rows_ == 0 && m.n_columns_ == 0 && m.entries_.size() == 0, "matrix changed by a reported failure");
  }
#else
  {
    M m;
    unsigned const how = vs::pick(3, "how");
    unsigned r = vs::pick(MAXR + 1, "r"), c = vs::pick(MAXR + 1, "c");
    if (how == 0) m.resize(r, c);
    else { T const init = how == 2 ? vs::sym<T>("init") : T{}; m = how == 2 ? data::make_flat_matrix<T>(r, c, init) : data::make_flat_matrix<T>(r, c); for (auto& x : model) for (auto& y : x) y = init; }
    check(m, r, c);
    for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { T const x = vs::sym<T>("x"); model[i][j] = x; m(i, j) = x; }
    check(m, r, c);
    if (r != 0 && c != 0) {
      // one write through each kind of access
      unsigned const i = vs::pick(r, "i"), j = vs::pick(c, "j");
      T const x = vs::sym<T>("w");
      switch (vs::pick(4, "via")) { case 0: m(i, j) = x; break; case 1: m[i][j] = x; break; case 2: m.at(i)[j] = x; break; case 3: *(m[i].begin() + j) = x; break; }
      model[i][j] = x;
      check(m, r, c);
      M copy = m; copy(i, j) = static_cast<T>(x + 1); check(m, r, c);
    }
    auto const bad = vs::sym<std::uint32_t>("bad");
    vs_assume(bad >= r);
    VS_CHECKM(at_throws(m, bad), "checked access out of range is not reported");
    switch (vs::pick(2, "then")) {
      case 0: { T const x = vs::sym<T>("reset"); m.reset(x); for (auto& a : model) for (auto& b : a) b = x; check(m, r, c); break; }
      case 1: { r = vs::pick(MAXR + 1, "r2"); c = vs::pick(MAXR + 1, "c2"); m.resize(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { T const x = vs::sym<T>("y"); m[i][j] = x; model[i][j] = x; } check(m, r, c); break; }
    }
  }
#endif
  VS_CHECKM(vs_heap_live() == live, "memory leaked");
  vs_reach("end");
}
