// C36: index containers on memory mapped vectors (os.h). VECVEC, PAGED or RTREE; NOPS: history length
#include <array>
#include <optional>
#include <stdexcept>
#include <string>
#include "rbtree.h"
#include "cista/serialization.h"
#include "cista/containers/vecvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/mmap_vec.h"
#include "cista/containers/rtree.h"
#include "cista/memory_holder.h"
#include "cista/io.h"
#include "os.h"
#include "seq.h"
using prot = cista::mmap::protection;
extern "C" {  // see targets.cpp
void __wrap__ZNSt10filesystem7__cxx114path5_ListC1Ev(unsigned long* p) { *p = 3; }
void __wrap__ZNSt10filesystem7__cxx114path5_ListC1ERKS2_(unsigned long* p, void*) { *p = 3; }
void __wrap__ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(void*) {}
void __wrap__ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE(void*, void*) {}
}
#ifndef RTREE
using key = cista::strong<unsigned, struct x_>;
#ifdef VECVEC
using idx_t = cista::mmap_vec<cista::base_t<key>>;
using data_t = cista::mmap_vec<char>;
using cont = cista::basic_vecvec<key, data_t, idx_t>;
static cont open(prot p) {
  auto i = idx_t{cista::mmap{"b", p}};
  auto d = data_t{cista::mmap{"a", p}};
  return cont{std::move(d), std::move(i)};
}
#else
using data_t = cista::paged<cista::mmap_vec<char>>;
using idx_t = cista::mmap_vec<data_t::page_t>;
using cont = cista::paged_vecvec<idx_t, data_t, key>;
static cont open(prot p) {
  auto i = idx_t{cista::mmap{"b", p}};
  auto d = data_t{cista::mmap_vec<char>{cista::mmap{"a", p}}};
  return cont{std::move(d), std::move(i)};
}
#endif
using row = seq<char, 12>;
struct model { row r[8]; unsigned n = 0; };
static void check(cont& c, model const& m) {
  VS_CHECKM(c.size() == m.n, "number of buckets");
  bool same = true;
  for (unsigned i = 0; i < m.n; ++i) {
    auto b = c[key{i}];
    same &= b.size() == m.r[i].n;
    unsigned j = 0;
    for (auto const& e : b) { same &= j < m.r[i].n && e == m.r[i].a[j]; ++j; }
    same &= j == m.r[i].n;
  }
  VS_CHECKM(same, "the buckets have the stored values");
}
extern "C" void vs_main() {
  model m;
  {
    std::optional<cont> o;
    o.emplace(open(prot::WRITE));
    for (unsigned s = 0; s < NOPS; ++s) {
      auto& c = *o;
      switch (vs::pick(4, "op")) {
        case 0: {
          static constexpr unsigned const lens[] = {0, 1, 3, 9};
          unsigned const k = lens[vs::pick(4, "len")];
          char in[9];
          vs_sym(in, sizeof(in), "values");
          for (unsigned i = 0; i < k; ++i) m.r[m.n].push(in[i]);
          ++m.n;
          c.emplace_back(std::string_view{in, k});
          break;
        }
        case 1: {
          vs_assume(m.n != 0);
          unsigned const i = vs::pick(m.n, "bucket");
          char const x = vs::sym<char>("x");
          m.r[i].push(x);
          c[key{i}].push_back(x);
          break;
        }
        case 2: {
          unsigned const k = vs::pick(4, "resize");
          while (m.n > k) m.r[--m.n] = row{};
          m.n = k;
          c.resize(k);
          break;
        }
        default:
#ifdef VECVEC
          o.reset();
          o.emplace(open(prot::MODIFY));
#else
          vs_assume(m.n != 0);
          c[key{m.n - 1}].push_back('x');
          m.r[m.n - 1].push('x');
#endif
      }
      check(*o, m);
    }
  }
  os::done();
#ifdef VECVEC
  { auto c = open(prot::READ); check(c, m); }
  os::done();
#endif
  vs_reach("end");
}
#else
using tree = cista::mm_rtree<std::uint16_t, 2U, std::int16_t, 4U>;
using coord = std::array<std::int16_t, 2>;
constexpr unsigned N = NOPS;
static cista::array<std::int16_t, 2> arr(coord c) { cista::array<std::int16_t, 2> a; a[0] = c[0]; a[1] = c[1]; return a; }
static void check(tree& t, coord const* p, bool const* in, unsigned n) {
  unsigned long live = 0;
  for (unsigned i = 0; i < n; ++i) live += in[i];
  VS_CHECKM(t.m_.count_ == live, "number of entries");
  unsigned cnt[N + 1] = {};
  t.search({-32768, -32768}, {32767, 32767}, [&](auto const& mn, auto const&, std::uint16_t const v) {
    VS_CHECKM(v < n && in[v] && mn[0] == p[v][0] && mn[1] == p[v][1], "an entry that was inserted");
    ++cnt[v];
    return true;
  });
  for (unsigned i = 0; i < n; ++i) VS_CHECKM(cnt[i] == (in[i] ? 1U : 0U), "every entry is found once");
}
extern "C" void vs_main() {
  coord p[N];
  bool in[N] = {};
  std::optional<tree> t;
  t.emplace(tree{{}, cista::mmap_vec_map<tree::node_idx_t, tree::node>{cista::mmap{"a", prot::WRITE}}});
  for (unsigned i = 0; i < N; ++i) {
    p[i] = {static_cast<std::int16_t>(i * 7 % 5), static_cast<std::int16_t>(i)};
    if (i == N - 1) { p[i][0] = vs::sym<std::int16_t>("coord"); }
    t->insert(arr(p[i]), arr(p[i]), static_cast<std::uint16_t>(i));
    in[i] = true;
  }
  check(*t, p, in, N);
  unsigned const d = vs::pick(N, "erase");
  t->delete_element(arr(p[d]), arr(p[d]), static_cast<std::uint16_t>(d));
  in[d] = false;
  check(*t, p, in, N);
  t->write_meta("c");
  t.reset();
  os::done();
  t.emplace(tree{{}, cista::mmap_vec_map<tree::node_idx_t, tree::node>{cista::mmap{"a", prot::MODIFY}}});
  t->read_meta("c");
  check(*t, p, in, N);
  p[d] = {vs::sym<std::int16_t>("again"), 3};
  t->insert(arr(p[d]), arr(p[d]), static_cast<std::uint16_t>(d));
  in[d] = true;
  check(*t, p, in, N);
  t.reset();
  os::done();
  vs_reach("end");
}
#endif
