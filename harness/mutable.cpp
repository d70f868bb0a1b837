// C26: histories on the multimap whose buckets can change
#include <stdexcept>
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/strong.h"
#include "seq.h"
#ifndef ELEM
#define ELEM std::uint16_t
#endif
#ifndef LOGMAX
#define LOGMAX 20
#endif
#ifndef OPS
#define OPS 0xffffffffU
#endif
#ifdef STRONG
using KEY = cista::strong<unsigned, struct ktag>;
#else
using KEY = unsigned;
#endif
using E = ELEM;
using MM = cista::NS::mutable_fws_multimap<KEY, E, LOGMAX>;
constexpr unsigned MB = 5, ME = 12, MAXE = 1U << LOGMAX;
struct mod { seq<E, ME> b[MB]; unsigned n = 0; };
static E fresh() { return vs::sym<E>("v"); }
template <typename B> static void check_bucket(B b, unsigned key, seq<E, ME> const& m) {
  B const& c = b;
  VS_CHECKM(b.size() == m.n && b.empty() == (m.n == 0) && b.capacity() >= m.n && b.index() == key, "bucket size");
  bool same = true; unsigned k = 0;
  for (unsigned i = 0; i < m.n; ++i) same &= b[i] == m.a[i] && b.at(i) == m.a[i] && c[i] == m.a[i] && c.at(i) == m.a[i] && b.bucket_index(b.begin() + i) == i && b.data_index(i) == b.data_index(0) + i;
  for (auto const& e : c) { VS_CHECKM(k < m.n, "bucket iteration covers the bucket only"); same &= e == m.a[k++]; }
  VS_CHECKM(k == m.n && same, "bucket contents");
  VS_CHECKM(b.end() - b.begin() == static_cast<long>(m.n) && c.end() - c.begin() == static_cast<long>(m.n) && b.cend() - b.cbegin() == static_cast<long>(m.n) && end(c) - begin(c) == static_cast<long>(m.n), "bucket range");
  if (m.n != 0) VS_CHECKM(b.front() == m.a[0] && b.back() == m.a[m.n - 1] && c.front() == m.a[0] && c.back() == m.a[m.n - 1], "front/back");
  unsigned thrown = 0;
  for (unsigned d = 0; d < 3; ++d) { try { (void)b.at(d == 2 ? ~0U : m.n + d); } catch (std::exception const&) { ++thrown; } try { (void)c.at(d == 2 ? ~0U : m.n + d); } catch (std::exception const&) { ++thrown; } }
  try { (void)c.bucket_index(c.end()); } catch (std::exception const&) { ++thrown; }
  VS_CHECKM(thrown == 7, "bucket::at reports an index out of range");
}
template <typename V> static void check(V& v, mod const& m) {
  vs::self_accepted(v);
  VS_CHECKM(v.size() == m.n && v.empty() == (m.n == 0), "size");
  unsigned total = 0;
  for (unsigned i = 0; i < m.n; ++i) {
    check_bucket(v[KEY{i}], i, m.b[i]); check_bucket(v.at(KEY{i}), i, m.b[i]); total += m.b[i].n;
    if (m.b[i].n == 0) continue;
    VS_CHECKM(v[KEY{i}].data_index(0) + v[KEY{i}].capacity() <= v.data_size(), "buckets lie inside the storage");
    for (unsigned j = 0; j < i; ++j) { if (m.b[j].n == 0) continue; auto const p = v[KEY{i}], q = v[KEY{j}]; VS_CHECKM(p.data_index(0) + p.capacity() <= q.data_index(0) || q.data_index(0) + q.capacity() <= p.data_index(0), "buckets do not overlap"); }
  }
  VS_CHECKM(v.element_count() == total, "number of elements");
  unsigned k = 0;
  for (auto b : v) { VS_CHECKM(k < m.n, "iteration visits every bucket once"); VS_CHECKM(b.size() == m.b[k].n && b.index() == k, "iteration order"); ++k; }
  VS_CHECKM(k == m.n, "iteration visits every bucket");
  VS_CHECKM(v.end() - v.begin() == static_cast<int>(m.n) && v.begin() - v.end() == -static_cast<int>(m.n) && begin(v) == v.begin() && end(v) == v.end(), "end - begin");
  if (m.n != 0) {
    check_bucket(v.front(), 0, m.b[0]); check_bucket(v.back(), m.n - 1, m.b[m.n - 1]);
    int const l = static_cast<int>(m.n) - 1;
    auto it = v.end(); --it; check_bucket(*it, m.n - 1, m.b[m.n - 1]); VS_CHECKM(it - v.begin() == l && it == v.begin() + l && v.end() - 1 == it && it != v.end() && it < v.end() && v.end() > it && it <= v.end() && v.end() >= it, "iterator arithmetic");
    it -= l; check_bucket(*it, 0, m.b[0]); VS_CHECKM(it == v.begin(), "iterator arithmetic"); it += l; check_bucket(*it, m.n - 1, m.b[m.n - 1]);
    auto p = v.end(); auto q = p--; VS_CHECKM(q == v.end() && p == it && p++ == it && p == v.end(), "postfix iterator operators"); check_bucket(v.begin()[l], m.n - 1, m.b[m.n - 1]);
  }
}
static void bounds(MM& v, mod const& m) {
  unsigned thrown = 0;
  MM const& c = v;
  for (unsigned d = 0; d < 3; ++d) { try { (void)v.at(KEY{d == 2 ? ~0U : m.n + d}); } catch (std::exception const&) { ++thrown; } try { (void)c.at(KEY{d == 2 ? ~0U : m.n + d}); } catch (std::exception const&) { ++thrown; } }
  try { (void)v.get_or_create(KEY{~0U}); } catch (std::exception const&) { ++thrown; }
  try { (void)v[KEY{~0U}]; } catch (std::exception const&) { ++thrown; }
  VS_CHECKM(thrown == 8, "at reports an index out of range");
}
static void step(MM& v, mod& m, MM& o, mod& om) {
  auto op = vs::pick(20, "op");
  vs_assume(((OPS >> op) & 1U) != 0);
  unsigned const k = op < 13 ? (vs_assume(m.n != 0), vs::pick(m.n, "k")) : 0;
  auto& b = m.b[k];
  bool thrown = false;
  switch (op) {
    case 0: case 1: { vs_assume(b.n < ME - 2); E e = fresh(); unsigned at = 0; try { at = op == 0 ? v[KEY{k}].push_back(e) : v.at(KEY{k}).emplace_back(e); } catch (std::exception const&) { thrown = true; } VS_CHECKM(thrown == (b.n == MAXE), "appending to a full bucket is reported"); if (!thrown) { b.push(e); VS_CHECKM(v[KEY{k}].data_index(b.n - 1) == at && v.data()[at] == e, "position of the new element"); } break; }
    case 2: { vs_assume(b.n < ME - 2); unsigned j = vs::pick(b.n + 1, "pos"); E e = fresh(); auto x = v[KEY{k}]; try { auto it = j % 2 != 0 ? x.insert(x.begin() + j, E{e}) : x.insert(x.begin() + j, e); VS_CHECKM(it == x.begin() + j, "insert returns the new element's position"); } catch (std::exception const&) { thrown = true; } VS_CHECKM(thrown == (b.n == MAXE), "inserting into a full bucket is reported"); if (!thrown) b.insert(j, e); break; }
    case 3: { unsigned n = vs::pick(3, "n") * 2 + 2; try { v[KEY{k}].reserve(n); } catch (std::exception const&) { thrown = true; } VS_CHECKM(thrown == (n > MAXE), "reserving too much is reported"); if (!thrown) VS_CHECKM(v[KEY{k}].capacity() >= n, "reserve"); break; }
    case 4: { unsigned n = vs::pick(6, "n"); E e = fresh(); bool dflt = n % 2 == 0; try { if (dflt) v[KEY{k}].resize(n); else v[KEY{k}].resize(n, e); } catch (std::exception const&) { thrown = true; } VS_CHECKM(thrown == (n > MAXE), "resizing beyond the maximum is reported"); if (!thrown) b.resize(n, dflt ? E{} : e); break; }
    case 5: v[KEY{k}].pop_back(); if (b.n != 0) --b.n; break;
    case 6: v[KEY{k}].clear(); b.clear(); break;
    case 7: { vs_assume(b.n != 0); unsigned j = vs::pick(b.n, "j"); auto x = v[KEY{k}]; x.erase(x.begin() + j); b.erase(j); break; }
    case 8: { unsigned f = vs::pick(b.n + 1, "f"), l = f + vs::pick(b.n - f + 1, "l"); auto x = v[KEY{k}]; x.erase(x.begin() + f, x.begin() + l); b.erase(f, l); break; }
    case 9: v.erase(KEY{k}); b.clear(); break;
    case 10: { vs_assume(b.n != 0); unsigned i = vs::pick(b.n, "i"); E e = fresh(); if (i % 2 == 0) { v.at(KEY{k}).at(i) = e; } else { v[KEY{k}][i] = e; } b.a[i] = e; break; }
    case 11: case 12: { unsigned j = vs::pick(m.n, "j"); vs_assume(m.b[j].n != 0 && b.n < ME - 2 && b.n < MAXE); unsigned i = vs::flip("last") ? m.b[j].n - 1 : 0; E const e = m.b[j].a[i]; auto x = v[KEY{k}]; if (op == 11) { if (k % 2 == 0) x.emplace_back(v[KEY{j}][i]); else x.push_back(v[KEY{j}][i]); b.push(e); } else { unsigned p = vs::pick(b.n + 1, "pos"); x.insert(x.begin() + p, v[KEY{j}][i]); b.insert(p, e); } break; }
    case 13: { unsigned key = vs::pick(MB, "key"); auto x = key % 2 == 0 ? v.get_or_create(KEY{key}) : v[KEY{key}]; for (; m.n <= key; ++m.n) m.b[m.n].clear(); check_bucket(x, key, m.b[key]); break; }
    case 14: { vs_assume(m.n < MB); auto x = v.emplace_back(); m.b[m.n++].clear(); check_bucket(x, m.n - 1, m.b[m.n - 1]); break; }
    case 15: v.clear(); m.n = 0; break;
    case 16: o = v; om = m; break;
    case 17: o = std::move(v); om = m; v = MM{}; m.n = 0; break;
    case 18: std::swap(v, o); { mod t = m; m = om; om = t; } break;
    case 19: v.reserve(vs::pick(8, "index"), vs::pick(20, "data")); break;
    default: break;
  }
}
void vs_main() {
  auto const heap0 = vs_heap_live();
  {
    MM v[2]; mod m[2];
    unsigned const n = INIT;
    // buckets of 2, 0, 3 elements, with some freed storage
    for (unsigned i = 0; i < n; ++i) { v[0].emplace_back(); for (unsigned j = 0; j < (i == 0 ? 2U : i == 1 ? 0U : 3U); ++j) { E e = fresh(); v[0][KEY{i}].push_back(e); m[0].b[i].push(e); } ++m[0].n; }
    for (unsigned i = 0; i < NOPS; ++i) {
      step(v[0], m[0], v[1], m[1]);
    }
    check(v[0], m[0]);
    if (OPS & 0x70000) check(v[1], m[1]);
    if (NOPS == 1) { MM const& c = v[0]; check(c, m[0]); bounds(v[0], m[0]); MM d{v[0]}; check(d, m[0]); MM e{std::move(d)}; check(e, m[0]); }
    vs::obs(m[0].n);
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
  vs_reach("end");
}
