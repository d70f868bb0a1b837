// C22: histories on a vector of vectors
#include <array>
#include <string>
#include "cista/containers/vecvec.h"
#include "seq.h"
#ifndef OPS
#define OPS 0xffffffffU
#endif
#ifdef STRONG
using KEY = cista::strong<unsigned, struct ktag>;
#else
using KEY = unsigned;
#endif
using E = ELEM;
using VV = cista::NS::vecvec<KEY, E>;
constexpr unsigned MB = 6, ME = 10;
struct mod { seq<E, ME> b[MB]; unsigned n = 0; };
static E fresh() { return vs::sym<E>("v"); }
template <typename B> static void check_bucket(B b, seq<E, ME> const& m) {
  VS_CHECKM(b.size() == m.n && b.empty() == (m.n == 0) && size(b) == m.n, "bucket size");
  bool same = true; unsigned k = 0;
  for (unsigned i = 0; i < m.n; ++i) same &= b[i] == m.a[i] && b.at(i) == m.a[i];
  for (auto const& e : b) { VS_CHECKM(k < m.n, "bucket iteration covers the bucket only"); same &= e == m.a[k++]; }
  VS_CHECKM(k == m.n && same, "bucket contents");
  VS_CHECKM(b.end() - b.begin() == static_cast<long>(m.n) && (m.n == 0 || b.data() == &b[0]) && b.view().size() == m.n, "bucket range");
  if (m.n != 0) { VS_CHECKM(b.front() == m.a[0] && b.back() == m.a[m.n - 1], "front/back"); VS_CHECKM(data(b) == &b[0], "data(bucket)"); }
  bool thrown = false;
  try { (void)b.at(m.n); } catch (std::exception const&) { thrown = true; }
  VS_CHECKM(thrown, "bucket::at reports an index out of range");
}
template <typename V> static void check(V& v, mod const& m) {
  vs::self_accepted(v);
  VS_CHECKM(v.size() == m.n && v.empty() == (m.n == 0), "size");
  for (unsigned i = 0; i < m.n; ++i) { check_bucket(v[KEY{i}], m.b[i]); check_bucket(v.at(KEY{i}), m.b[i]); }
  unsigned k = 0;
  for (auto b : v) { VS_CHECKM(k < m.n, "iteration visits every bucket once"); VS_CHECKM(b.size() == m.b[k].n, "iteration order"); bool same = true; for (unsigned i = 0; i < m.b[k].n; ++i) same &= b[i] == m.b[k].a[i]; VS_CHECKM(same, "iterated bucket contents"); ++k; }
  VS_CHECKM(k == m.n, "iteration visits every bucket");
  VS_CHECKM(v.end() - v.begin() == static_cast<long>(m.n) && v.begin() - v.end() == -static_cast<long>(m.n), "end - begin");
  if (m.n != 0) { check_bucket(v.front(), m.b[0]); check_bucket(v.back(), m.b[m.n - 1]); auto it = v.end(); --it; check_bucket(*it, m.b[m.n - 1]); it -= static_cast<long>(m.n - 1); check_bucket(*it, m.b[0]); it += static_cast<long>(m.n - 1); check_bucket(*(it - static_cast<long>(m.n - 1)), m.b[0]); check_bucket(*(v.begin() + static_cast<long>(m.n - 1)), m.b[m.n - 1]); VS_CHECKM(it == v.begin() + static_cast<long>(m.n - 1) && it != v.end(), "iterator comparison"); }
  unsigned thrown = 0;
  for (unsigned d = 0; d < 3; ++d) { try { (void)v.at(KEY{d == 2 ? ~0U : m.n + d}); } catch (std::exception const&) { ++thrown; } }
  VS_CHECKM(thrown == 3, "at reports an index out of range");
}
static void step(VV& v, mod& m, VV& o, mod& om) {
  auto op = vs::pick(14, "op");
  vs_assume(((OPS >> op) & 1U) != 0);
  switch (op) {
    case 0: case 1: case 2: { vs_assume(m.n < MB - 1); auto& t = m.b[m.n]; t.clear(); unsigned n = vs::pick(3, "n"); std::array<E, 2> a{}; for (unsigned i = 0; i < n; ++i) { a[i] = fresh(); t.push(a[i]); }
              if (op == 0) { struct { E* p; E* q; E* begin() const { return p; } E* end() const { return q; } } r{a.data(), a.data() + n}; v.emplace_back(r); }
              else if (op == 1) { if (n == 0) { v.emplace_back(std::initializer_list<E>{}); } else if (n == 1) { v.emplace_back({a[0]}); } else { v.emplace_back({a[0], a[1]}); } }
              else { for (unsigned i = 0; i < n; ++i) t.a[i] = E{}; auto b = v.add_back_sized(n); VS_CHECKM(b.size() == n, "add_back_sized returns the new bucket"); for (unsigned i = 0; i < n; ++i) { b[i] = a[i]; t.a[i] = a[i]; } }
              ++m.n; break; }
    case 3: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); vs_assume(m.b[k].n < ME - 2); E e = fresh(); v[KEY{k}].push_back(e); m.b[k].push(e); break; }
    case 4: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); vs_assume(m.b[k].n < ME - 3); unsigned d = vs::pick(3, "d"); E e = fresh(); v.at(KEY{k}).grow(m.b[k].n + d, e); m.b[k].resize(m.b[k].n + d, e); break; }
    case 5: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); vs_assume(m.b[k].n != 0); bool thrown = false; try { v[KEY{k}].grow(m.b[k].n - 1); } catch (std::exception const&) { thrown = true; } VS_CHECKM(thrown, "grow to a smaller size is reported"); break; }
    case 6: { unsigned k = vs::pick(MB - 1, "size"); v.resize(k); for (unsigned i = m.n; i < k; ++i) m.b[i].clear(); m.n = k; break; }
    case 7: v.clear(); m.n = 0; break;
    case 8: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); vs_assume(m.b[k].n != 0); unsigned i = vs::pick(m.b[k].n, "i"); E e = fresh(); if (vs::flip("at")) { v.at(KEY{k}).at(i) = e; } else { v[KEY{k}][i] = e; } m.b[k].a[i] = e; break; }
    case 9: o = v; om = m; break;
    case 10: o = std::move(v); om = m; v = VV{}; m.n = 0; break;
    case 11: { VV c{v}; check(c, m); VV d{std::move(c)}; check(d, m); break; }
    case 12: { vs_assume(m.n >= 2); // append an element of another bucket
               unsigned k = vs::pick(m.n, "k"), j = vs::pick(m.n, "j"); vs_assume(m.b[j].n != 0 && m.b[k].n < ME - 2); v[KEY{k}].push_back(v[KEY{j}][0]); m.b[k].push(m.b[j].a[0]); break; }
    case 13: std::swap(v, o); { mod t = m; m = om; om = t; } break;
    default: break;
  }
}
void vs_main() {
  unsigned long const heap0 = vs_heap_live();
  {
    VV v[2]; mod m[2];
    unsigned n = vs::pick(INIT + 1, "init");
    for (unsigned i = 0; i < n; ++i) { std::array<E, 2> a{fresh(), fresh()}; unsigned k = i == 1 ? 0 : 2 - i % 2; struct { E* p; E* q; E* begin() const { return p; } E* end() const { return q; } } r{a.data(), a.data() + k}; v[0].emplace_back(r); for (unsigned j = 0; j < k; ++j) m[0].b[i].push(a[j]); ++m[0].n; }
    for (unsigned i = 0; i < NOPS; ++i) {
      step(v[0], m[0], v[1], m[1]);
      check(v[0], m[0]);
      VV const& c = v[0]; check(c, m[0]);
      if (i + 1 == NOPS) check(v[1], m[1]);
    }
    vs::obs(m[0].n);
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
  vs_reach("end");
}
