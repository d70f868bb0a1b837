// C24: histories on paged storage and on a vector of vectors kept in it
#include <array>
#include <stdexcept>
#include <string_view>
#include "cista/containers.h"
#include "seq.h"
#ifndef PST
#define PST std::uint16_t
#endif
#ifndef MAXPAGE
#define MAXPAGE (1 << 15)
#endif
#ifndef MINPAGE
#define MINPAGE 2
#endif
#ifndef ELEM
#define ELEM std::uint32_t
#endif
#ifndef OPS
#define OPS 0xffffffffU
#endif
#ifdef STRONG
using KEY = cista::strong<unsigned, struct ktag>;
#else
using KEY = unsigned;
#endif
using E = ELEM;
using PG = cista::paged<cista::NS::vector<E>, std::uint32_t, PST, MINPAGE, MAXPAGE>;
using page_t = PG::page_t;
using PVV = cista::paged_vecvec<cista::NS::vector<page_t>, PG, KEY>;
constexpr unsigned MB = 5, ME = 12;
static E fresh() { return vs::sym<E>("v"); }
#ifdef LOW
struct mpage { seq<E, ME> c; page_t p; bool live = false; };
static void check(PG& g, mpage* m) {
  PG const& c = g;
  for (unsigned i = 0; i < MB; ++i) {
    if (!m[i].live) continue;
    auto const& p = m[i].p;
    VS_CHECKM(p.size() == m[i].c.n && p.capacity_ >= p.size() && p.valid() && p.start_ + p.capacity_ <= g.data_.size(), "a page lies inside the storage and has its size");
    bool same = g.begin(p) == g.data(p) && c.begin(p) == c.data(p) && c.data(p) == g.data(p) && g.end(p) == g.data(p) + m[i].c.n && c.end(p) == g.data(p) + m[i].c.n;
    for (unsigned k = 0; k < m[i].c.n; ++k) same &= g.data(p)[k] == m[i].c.a[k];
    VS_CHECKM(same, "page contents");
    for (unsigned j = 0; j < i; ++j) VS_CHECKM(!m[j].live || m[j].p.start_ + m[j].p.capacity_ <= p.start_ || p.start_ + p.capacity_ <= m[j].p.start_, "pages do not overlap");
  }
}
static void fill(PG& g, mpage& m, unsigned from, unsigned to) {
  for (unsigned i = from; i < to; ++i) { E e = fresh(); g.data(m.p)[i] = e; m.c.push(e); }
}
void vs_main() {
  auto const heap0 = vs_heap_live();
  {
    PG g; mpage m[MB];
    for (unsigned i = 0; i < NOPS; ++i) {
      auto op = vs::pick(7, "op");
      vs_assume(((OPS >> op) & 1U) != 0);
      unsigned k = vs::pick(MB - 1, "page");
      if (k != 0) vs_assume(m[k - 1].live);
      auto& x = m[k];
      switch (op) {
        case 0: { vs_assume(!x.live); unsigned n = vs::pick(6, "n"); bool thrown = false; try { x.p = g.create_page(static_cast<PST>(n)); } catch (std::exception const&) { thrown = true; }
                  VS_CHECKM(thrown == (n > MAXPAGE), "create_page reports sizes above the maximum"); if (!thrown) { x.live = true; x.c.clear(); fill(g, x, 0, n); } break; }
        case 1: case 2: { vs_assume(x.live); unsigned n = op == 1 ? x.c.n + 1 : vs::pick(10, "n"); vs_assume(n < ME); bool thrown = false; page_t q{};
                  try { q = g.resize_page(x.p, static_cast<PST>(n)); } catch (std::exception const&) { thrown = true; }
                  VS_CHECKM(thrown == (n > MAXPAGE), "resize_page reports sizes above the maximum");
                  if (!thrown) { x.p = q; unsigned f = x.c.n < n ? x.c.n : n; x.c.n = f; fill(g, x, f, n); } break; }
        case 3: vs_assume(x.live); g.free_page(x.p); x.live = false; break;
        case 4: { PG h{g}; mpage n[MB]; for (unsigned j = 0; j < MB; ++j) n[j] = m[j]; check(h, n); n[MB - 1].live = true; n[MB - 1].c.clear(); n[MB - 1].p = h.create_page(2); fill(h, n[MB - 1], 0, 2); check(h, n); if (vs::flip("assign")) { g = std::move(h); for (unsigned j = 0; j < MB - 1; ++j) m[j] = n[j]; g.free_page(n[MB - 1].p); } break; }
        case 5: g.clear(); for (auto& y : m) y.live = false; break;
        case 6: { vs_assume(x.live && x.c.n >= 2); E t[2] = {fresh(), fresh()}; g.copy(x.p, t, t + 2); x.c.a[0] = t[0]; x.c.a[1] = t[1]; break; }
      }
      check(g, m);
    }
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
  vs_reach("end");
}
#else
struct mod { seq<E, ME> b[MB]; unsigned n = 0; };
struct rng { E* p; E* q; E* begin() const { return p; } E* end() const { return q; } std::size_t size() const { return q - p; } };
template <typename B> static void check_bucket(B b, seq<E, ME> const& m) {
  VS_CHECKM(b.size() == m.n && b.empty() == (m.n == 0), "bucket size");
  bool same = true; unsigned k = 0;
  B const& cb = b;
  for (unsigned i = 0; i < m.n; ++i) same &= b[i] == m.a[i] && cb.at(i) == m.a[i] && b.at(i) == m.a[i] && cb[i] == m.a[i];
  for (auto const& e : b) { VS_CHECKM(k < m.n, "bucket iteration covers the bucket only"); same &= e == m.a[k++]; }
  VS_CHECKM(k == m.n && same, "bucket contents");
  VS_CHECKM(b.end() - b.begin() == static_cast<long>(m.n) && cb.end() - cb.begin() == b.end() - b.begin() && end(cb) - begin(cb) == static_cast<long>(m.n) && end(b) - begin(b) == static_cast<long>(m.n), "bucket range");
  if (m.n != 0) VS_CHECKM(b.front() == m.a[0] && b.back() == m.a[m.n - 1] && cb.front() == m.a[0] && cb.back() == m.a[m.n - 1], "front/back");
  unsigned thrown = 0;
  for (unsigned d = 0; d < 3; ++d) { try { (void)b.at(d == 2 ? ~std::size_t{0} : m.n + d); } catch (std::exception const&) { ++thrown; } try { (void)cb.at(d == 2 ? ~std::size_t{0} : m.n + d); } catch (std::exception const&) { ++thrown; } }
  VS_CHECKM(thrown == 6, "bucket::at reports an index out of range");
}
template <typename V> static void check(V& v, mod const& m) {
  vs::self_accepted(v);
  VS_CHECKM(v.size() == m.n && v.empty() == (m.n == 0), "size");
  for (unsigned i = 0; i < m.n; ++i) { check_bucket(v[KEY{i}], m.b[i]); check_bucket(v.at(KEY{i}), m.b[i]);
    for (unsigned j = 0; j < i; ++j) { auto const &p = v.page(KEY{i}), &q = v.page(KEY{j}); VS_CHECKM(p.start_ + p.capacity_ <= q.start_ || q.start_ + q.capacity_ <= p.start_, "pages do not overlap"); } }
  unsigned k = 0;
  for (auto b : v) { VS_CHECKM(k < m.n, "iteration visits every bucket once"); VS_CHECKM(b.size() == m.b[k].n, "iteration order"); bool same = true; for (unsigned i = 0; i < m.b[k].n; ++i) same &= b[i] == m.b[k].a[i]; VS_CHECKM(same, "iterated bucket contents"); ++k; }
  VS_CHECKM(k == m.n, "iteration visits every bucket");
  VS_CHECKM(v.end() - v.begin() == static_cast<long>(m.n) && v.begin() - v.end() == -static_cast<long>(m.n), "end - begin");
  if (m.n != 0) { check_bucket(v.front(), m.b[0]); check_bucket(v.back(), m.b[m.n - 1]); auto it = v.end(); --it; check_bucket(*it, m.b[m.n - 1]); it -= static_cast<long>(m.n - 1); check_bucket(*it, m.b[0]); it += static_cast<long>(m.n - 1); check_bucket(*(it - static_cast<long>(m.n - 1)), m.b[0]); check_bucket(*(v.begin() + static_cast<long>(m.n - 1)), m.b[m.n - 1]); VS_CHECKM(it == v.begin() + static_cast<long>(m.n - 1) && it != v.end(), "iterator comparison"); }
  unsigned thrown = 0;
  for (unsigned d = 0; d < 3; ++d) { try { (void)v.at(KEY{d == 2 ? ~0U : m.n + d}); } catch (std::exception const&) { ++thrown; } }
  VS_CHECKM(thrown == 3, "at reports an index out of range");
}
static void step(PVV& v, mod& m, PVV& o, mod& om) {
  auto op = vs::pick(15, "op");
  vs_assume(((OPS >> op) & 1U) != 0);
  switch (op) {
    case 0: case 1: case 2: { vs_assume(m.n < MB - 1); auto& t = m.b[m.n]; t.clear(); unsigned n = op == 2 ? 0 : vs::pick(4, "n"); vs_assume(n <= MAXPAGE); std::array<E, 3> a{}; for (unsigned i = 0; i < n; ++i) { a[i] = fresh(); t.push(a[i]); }
              if (op == 0) v.emplace_back(rng{a.data(), a.data() + n});
              else if (op == 1) { if (n == 0) { v.emplace_back(std::initializer_list<E>{}); } else if (n == 1) { v.emplace_back({a[0]}); } else { vs_assume(n == 2); v.emplace_back({a[0], a[1]}); } }
              else v.emplace_back_empty();
              ++m.n; break; }
    case 3: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); vs_assume(m.b[k].n < ME - 2); E e = fresh(); bool thrown = false; try { v[KEY{k}].push_back(e); } catch (std::exception const&) { thrown = true; } VS_CHECKM(thrown == (m.b[k].n == MAXPAGE), "push_back reports a full page"); if (!thrown) m.b[k].push(e); break; }
    case 4: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); vs_assume(m.b[k].n < ME - 2 && m.b[k].n < MAXPAGE); unsigned j = vs::pick(m.b[k].n + 1, "pos"); E e = fresh(); auto b = v.at(KEY{k}); auto it = b.insert(b.begin() + j, e); m.b[k].insert(j, e); VS_CHECKM(it == v[KEY{k}].begin() + j, "insert returns the new element's position"); break; }
    case 5: { vs_assume(m.n < MB - 1); unsigned k = vs::pick(m.n + 1, "k"), n = vs::pick(3, "n"); E a[2]; for (unsigned i = m.n; i > k; --i) m.b[i] = m.b[i - 1]; m.b[k].clear(); for (unsigned i = 0; i < n; ++i) { a[i] = fresh(); m.b[k].push(a[i]); } v.insert(KEY{k}, rng{a, a + n}); ++m.n; break; }
    case 6: { unsigned k = vs::pick(MB - 1, "size"); v.resize(k); for (unsigned i = m.n; i < k; ++i) m.b[i].clear(); m.n = k; break; }
    case 7: v.clear(); m.n = 0; break;
    case 8: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); vs_assume(m.b[k].n != 0); unsigned i = vs::pick(m.b[k].n, "i"); E e = fresh(); if (vs::flip("at")) { v.at(KEY{k}).at(i) = e; } else { v[KEY{k}][i] = e; } m.b[k].a[i] = e; break; }
    case 9: o = v; om = m; break;
    case 10: o = std::move(v); om = m; v = PVV{}; m.n = 0; break;
    case 11: { PVV c{v}; check(c, m); PVV d{std::move(c)}; check(d, m); break; }
    case 12: { vs_assume(m.n != 0); // append an element of the same or another bucket
               unsigned k = vs::pick(m.n, "k"), j = vs::pick(m.n, "j"); vs_assume(m.b[j].n != 0 && m.b[k].n < ME - 2 && m.b[k].n < MAXPAGE); E const e = m.b[j].a[0]; if (vs::flip("insert")) { auto b = v[KEY{k}]; b.insert(b.begin(), v[KEY{j}][0]); m.b[k].insert(0, e); } else { v[KEY{k}].push_back(v[KEY{j}][0]); m.b[k].push(e); } break; }
    case 13: { vs_assume(m.n != 0 && m.n < MB - 1); unsigned j = vs::pick(m.n, "j"), k = vs::pick(m.n + 1, "k"); auto const e = m.b[j]; if (vs::flip("insert")) { v.insert(KEY{k}, v[KEY{j}]); for (unsigned i = m.n; i > k; --i) m.b[i] = m.b[i - 1]; m.b[k] = e; } else { vs_assume(k == 0); v.emplace_back(v[KEY{j}]); m.b[m.n] = e; } ++m.n; break; }
    case 14: std::swap(v, o); { mod t = m; m = om; om = t; } break;
    default: break;
  }
}
void vs_main() {
  auto const heap0 = vs_heap_live();
  {
    PVV v[2]; mod m[2];
    unsigned n = vs::pick(INIT + 1, "init");
    for (unsigned i = 0; i < n; ++i) { E a[3] = {fresh(), fresh(), fresh()}; unsigned k = i == 1 ? 0 : 2 - i % 2; v[0].emplace_back(rng{a, a + k}); for (unsigned j = 0; j < k; ++j) m[0].b[i].push(a[j]); ++m[0].n; }
    for (unsigned i = 0; i < NOPS; ++i) {
      step(v[0], m[0], v[1], m[1]);
      check(v[0], m[0]);
      PVV const& c = v[0]; check(c, m[0]);
      if (i + 1 == NOPS) check(v[1], m[1]);
    }
#ifdef OVERSIZED
    // a bucket larger than a page can be
    for (std::size_t s : {std::size_t{MAXPAGE} + 1, std::size_t{1} << (8 * sizeof(PST)), (std::size_t{1} << (8 * sizeof(PST))) + 1}) {
      static E big[(1U << (8 * sizeof(PST))) + 1];
      unsigned thrown = 0;
      try { v[0].emplace_back(rng{big, big + s}); } catch (std::exception const&) { ++thrown; }
      try { v[0].insert(KEY{0U}, rng{big, big + s}); } catch (std::exception const&) { ++thrown; }
      VS_CHECKM(thrown == 2, "buckets above the maximal page size are reported");
      check(v[0], m[0]);
    }
#endif
    vs::obs(m[0].n);
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
  vs_reach("end");
}
#endif
