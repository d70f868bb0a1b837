// Containers that store positions in a narrow type: an addition that does not fit any more is reported and leaves the
// contents as they were, one that fits is there afterwards. KIND: 0 vecvec data, 1 vecvec buckets, 2 nvec, 3 fws_multimap,
// 5 paged_vecvec data, 6 paged_vecvec buckets, 7 fws_multimap keys, 8 nvec entries
#include <array>
#include <string_view>
#include <vector>
#include "cista/containers/vecvec.h"
#include "cista/containers/nvec.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "vs.h"
namespace data = cista::NS;
using K = std::uint8_t;
using C = signed char;
constexpr unsigned MAX = 255;
struct range { C const* p; unsigned n; C const* begin() const { return p; } C const* end() const { return p + n; } std::size_t size() const { return n; } bool empty() const { return n == 0; } };
static C buf[320];
template <typename F> static bool failing(F&& f) {
  bool thrown = false;
  try { f(); } catch (std::exception const&) { thrown = true; }
  if (thrown) vs_reach("full"); else vs_reach("added");
  return thrown;
}
template <typename F> static bool failed(F&& f) {
  try { f(); } catch (std::exception const&) { return true; }
  return false;
}
void vs_main() {
  auto const heap0 = vs_heap_live();
  {
  C const first = vs::sym<C>("first"), last = vs::sym<C>("last"), x = vs::sym<C>("x");
  for (auto& b : buf) b = 7;
#if KIND == 0
  data::vecvec<K, C> v;
  unsigned const n = MAX - vs::pick(4, "below");
  buf[0] = first; buf[n - 4] = last;
  v.emplace_back(range{buf, n - 3}); v.emplace_back(range{buf + n - 4, 2}); v.emplace_back(range{buf, 1});
  unsigned const op = vs::pick(6, "op"), k = vs::pick(6, "k"), b = vs::pick(3, "bucket");
  unsigned sz[4] = {n - 3, 2, 1, 0}, nb = 3, add = k;
  C more[6] = {x, x, x, x, x, x};
  bool const thrown = failing([&] {
    switch (op) {
      case 0: add = 1; v[static_cast<K>(b)].push_back(x); break;
      case 1: v[static_cast<K>(b)].grow(sz[b] + k, x); break;
      case 2: v.emplace_back(range{more, k}); break;
      case 3: { auto r = v.add_back_sized(k); for (unsigned i = 0; i < k; ++i) r[i] = x; break; }
      case 4: add = 256 + k; v[static_cast<K>(b)].grow(sz[b] + 256 + k, x); break;
      case 5: add = 256 + k; v.add_back_sized(256 + k); break;
    }
  });
  if (!thrown) { if (op == 0 || op == 1 || op == 4) sz[b] += add; else sz[nb++] = add; }
  VS_CHECKM(thrown || n + add <= MAX, "more elements than starts can be stored");
  VS_CHECKM(v.size() == nb, "number of buckets");
  for (unsigned i = 0; i < nb; ++i) VS_CHECKM(v[static_cast<K>(i)].size() == sz[i], "bucket size");
  VS_CHECKM(v[0][0] == first && v[1][0] == last && v[1][1] == 7 && v[2][0] == first, "elements from before");
  if (!thrown && add != 0) { auto r = v[static_cast<K>(op == 0 || op == 1 || op == 4 ? b : 3)]; VS_CHECKM(r.back() == x && r[r.size() - add] == x, "added elements"); }
  VS_CHECKM(v.data_.size() == (thrown ? n : n + add), "no elements outside the buckets");
#elif KIND == 1
  data::vecvec<K, C> v;
  unsigned n = MAX - vs::pick(3, "below");
  v.resize(n);
  v[0].push_back(first); v[static_cast<K>(n - 1)].push_back(last);
  unsigned const op = vs::pick(3, "op"), k = op == 2 ? MAX + vs::pick(4, "k") - 1 : n + 1;
  bool const thrown = failing([&] {
    if (op == 0) v.emplace_back(range{&x, 1}); else if (op == 1) v.add_back_sized(1)[0] = x; else v.resize(k);
  });
  VS_CHECKM(thrown || k <= MAX, "more buckets than keys");
  unsigned const now = thrown ? n : k;
  VS_CHECKM(v.size() == now, "number of buckets");
  if (now >= n) VS_CHECKM(v[static_cast<K>(n - 1)].size() == 1 && v[static_cast<K>(n - 1)][0] == last, "last bucket");
  VS_CHECKM(v[0].size() == 1 && v[0][0] == first && v[1].size() == 0, "buckets from before");
  if (!thrown && op != 2) VS_CHECKM(v.at(static_cast<K>(n)).size() == 1 && v[static_cast<K>(n)][0] == x, "added bucket");
  unsigned c = 0; for (auto r : v) { (void)r; ++c; } VS_CHECKM(c == now, "iteration visits every bucket");
#elif KIND == 2 || KIND == 8
  data::nvec<K, C, 2> v;
  unsigned const n = MAX - 4 - vs::pick(4, "below");
#if KIND == 2
  buf[0] = first; buf[n - 1] = last;
  v.emplace_back(std::array<range, 2>{range{buf, n - 2}, range{buf + n - 2, 2}});
  auto const k = vs::pick(6, "k"), l = vs::pick(5, "l");
  C more[6] = {x, x, x, x, x, x};
  bool const thrown = failing([&] { v.emplace_back(std::array<range, 2>{range{more, k}, range{more, l}}); });
  VS_CHECKM(thrown || n + k + l <= MAX, "more elements than starts can be stored");
  VS_CHECKM(v.size() == (thrown ? 1 : 2) && v.size(0) == 2 && v.at(0, 0).size() == n - 2 && v.at(0, 1).size() == 2, "sizes");
  VS_CHECKM(v.at(0, 0)[0] == first && v.at(0, 1)[1] == last, "elements from before");
  if (!thrown) { VS_CHECKM(v.size(1) == 2 && v.at(1, 0).size() == k && v.at(1, 1).size() == l, "added sizes"); if (l) VS_CHECKM(v.at(1, 1)[l - 1] == x, "added"); if (k) VS_CHECKM(v.at(1, 0)[0] == x, "added"); }
  VS_CHECKM(v.data_.size() == (thrown ? n : n + k + l), "no elements outside the buckets");
#else
  static range inner[320];
  for (auto& r : inner) r = range{buf, 0};
  inner[0] = range{&first, 1}; inner[n - 1] = range{&last, 1};
  struct outer { range const* p; unsigned n; range const* begin() const { return p; } range const* end() const { return p + n; } std::size_t size() const { return n; } };
  v.emplace_back(outer{inner, n});
  auto const k = vs::pick(10, "k");
  range more[10]; for (auto& r : more) r = range{&x, 1};
  bool const thrown = failing([&] { v.emplace_back(outer{more, k}); });
  VS_CHECKM(thrown || n + k <= MAX, "more entries than starts can be stored");
  VS_CHECKM(v.size() == (thrown ? 1 : 2) && v.size(0) == n && v.at(0, 0).size() == 1 && v.at(0, 1).size() == 0 && v.at(0, static_cast<K>(n - 1)).size() == 1, "sizes");
  VS_CHECKM(v.at(0, 0)[0] == first && v.at(0, static_cast<K>(n - 1))[0] == last, "elements from before");
  if (!thrown) { VS_CHECKM(v.size(1) == k, "added size"); if (k) VS_CHECKM(v.at(1, static_cast<K>(k - 1))[0] == x, "added"); }
#endif
#elif KIND == 3 || KIND == 7
  cista::fws_multimap<data::vector<C>, data::vector<K>> m;
#if KIND == 3
  unsigned const n = MAX - vs::pick(3, "below");
  m.push_back(first); for (unsigned i = 2; i < n; ++i) m.push_back(7);
  m.push_back(last); m.finish_key();
  unsigned const k = vs::pick(5, "k");
  for (unsigned i = 0; i < k; ++i) m.push_back(x);
  bool const thrown = failing([&] { m.finish_key(); m.finish_map(); });
  VS_CHECKM(thrown || n + k <= MAX, "more entries than positions");
  if (!thrown) {
    VS_CHECKM(m.index_size() == 3 && m[0].size() == n && m[0][0] == first && m[0][static_cast<K>(n - 1)] == last, "entries from before");
    VS_CHECKM(m[1].size() == k, "added entries"); if (k) VS_CHECKM(m[1][static_cast<K>(k - 1)] == x, "added entry");
  } else VS_CHECKM(m.data_size() == n + k && m.index_size() >= 1 && m.index_[0] == 0, "entries from before");
#else
  unsigned const n = MAX - 1 - vs::pick(3, "below");
  m.push_back(first);
  for (unsigned i = 0; i < n; ++i) m.finish_key();
  bool thrown = false;
  unsigned k = vs::pick(4, "k"), done = 0;
  thrown = failing([&] { for (; done < k; ++done) { m.push_back(x); m.finish_key(); } });
  VS_CHECKM(thrown || n + k <= MAX, "more keys than key values");
  if (!thrown) {
    m.finish_map();
    VS_CHECKM(m[0].size() == 1 && m[0][0] == first && m[1].size() == 0, "first entries");
    if (k) VS_CHECKM(m[static_cast<K>(n + k - 1)].size() == 1 && m[static_cast<K>(n + k - 1)][0] == x, "added entries");
    unsigned c = 0; for (auto const& e : m) { (void)e; ++c; } VS_CHECKM(c == n + k, "iteration visits every key");
  }
#endif
#elif KIND == 5 || KIND == 6
  using page_t = cista::page<K, std::uint16_t>;
  using PG = cista::paged<data::vector<C>, K>;
#if KIND == 5
  cista::paged_vecvec<data::vector<page_t>, PG, K> v;
  static constexpr unsigned size[] = {128, 64, 32};
  for (unsigned b = 0; b < 3; ++b) { buf[0] = first; buf[size[b] - 1] = last; v.emplace_back(range{buf, size[b]}); buf[size[b] - 1] = 7; }
  unsigned cnt[6] = {128, 64, 32, 0, 0, 0}, nb = 3;
  bool any = false;
  C more[20]; for (auto& e : more) e = x;
  for (unsigned s = 0; s < NOPS; ++s) {
    unsigned const op = vs::pick(4, "op");
    bool thrown = false;
    if (op == 3) { unsigned const b = vs::pick(nb, "bucket"); thrown = failed([&] { v[static_cast<K>(b)].push_back(x); }); if (!thrown) ++cnt[b]; }
    else { unsigned const k = op == 0 ? 0 : op == 1 ? 3 : 17; thrown = failed([&] { v.emplace_back(range{more, k}); }); if (!thrown) cnt[nb++] = k; }
    any |= thrown;
  }
  if (any) vs_reach("full"); else vs_reach("added");
  VS_CHECKM(v.size() == nb, "number of buckets");
  for (unsigned b = 0; b < nb; ++b) {
    auto const r = v.at(static_cast<K>(b));
    VS_CHECKM(r.size() == cnt[b], "bucket size");
    if (b < 3) VS_CHECKM(r[0] == first && r[size[b] - 1] == last, "elements from before");
    for (unsigned i = b < 3 ? size[b] : 0; i < cnt[b]; ++i) VS_CHECKM(r[i] == x, "added elements");
  }
#else
  using WIDE = cista::paged<data::vector<C>>;
  cista::paged_vecvec<data::vector<WIDE::page_t>, WIDE, K> v;
  unsigned const n = MAX - vs::pick(3, "below");
  v.resize(n);
  v[0].push_back(first); v[static_cast<K>(n - 1)].push_back(last);
  unsigned const op = vs::pick(4, "op"), k = op == 3 ? MAX + vs::pick(3, "k") - 1 : n + 1;
  bool const thrown = failing([&] {
    if (op == 0) v.emplace_back(range{&x, 1}); else if (op == 1) v.emplace_back_empty(); else if (op == 2) v.insert(0, range{&x, 1}); else v.resize(k);
  });
  VS_CHECKM(thrown || k <= MAX, "more buckets than keys");
  unsigned const now = thrown ? n : k, o = !thrown && op == 2 ? 1 : 0;
  VS_CHECKM(v.size() == now, "number of buckets");
  if (now >= n) VS_CHECKM(v[static_cast<K>(n - 1 + o)].size() == 1 && v[static_cast<K>(n - 1 + o)][0] == last, "last bucket");
  VS_CHECKM(v[static_cast<K>(o)].size() == 1 && v[static_cast<K>(o)][0] == first, "first bucket");
  if (!thrown && op == 0) VS_CHECKM(v[static_cast<K>(n)].size() == 1 && v[static_cast<K>(n)][0] == x, "added bucket");
#endif
#endif
  vs_reach("end");
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory is freed");
}
