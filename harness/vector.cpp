// C13/C14: model based histories over two vectors.
// ELEM: element type, NS: namespace (raw/offset), NOPS: history length, INIT: max initial size, OPS: op mask, LIVE: lifetime checks
#include <initializer_list>
#include <iterator>
#include "cista/containers/vector.h"
#include "seq.h"
#ifndef OPS
#define OPS 0xffffffffU
#endif
using T = ELEM;
using E = elem<T>;
using R = E::raw;
using vec = cista::NS::vector<T>;
using mod = seq<R>;

static void check(vec const& c, vec& v, mod const& m) {
  VS_CHECKM(v.size() == m.n, "size() is the number of elements");
  VS_CHECKM(v.empty() == (m.n == 0), "empty()");
  VS_CHECKM(static_cast<unsigned>(v.end() - v.begin()) == m.n, "end() - begin() is the size");
  bool same = true;
  for (unsigned j = 0; j < m.n; ++j) same &= E::get(c[j]) == m.a[j];
  VS_CHECKM(same, "operator[] yields the elements in order");
  same = true;
  unsigned i = 0;
  for (auto const& e : v) same &= E::get(e) == m.a[i++];
  VS_CHECKM(same && i == m.n, "iteration yields the elements in order");
  if (m.n) {
    VS_CHECKM(E::get(v.front()) == m.a[0], "front()");
    VS_CHECKM(E::get(c.back()) == m.a[m.n - 1], "back()");
    VS_CHECKM(E::get(v.at(m.n - 1)) == m.a[m.n - 1], "at()");
    VS_CHECKM(E::get(*v.rbegin()) == m.a[m.n - 1], "rbegin()");
    VS_CHECKM(v.contains(&v[m.n - 1]) && v.index_of(&v[m.n - 1]) == m.n - 1, "contains/index_of own element");
    VS_CHECKM(!v.contains(v.end()), "contains end");
  }
  bool thrown = false;
  try { (void)c.at(m.n); } catch (std::out_of_range const&) { thrown = true; }
  VS_CHECKM(thrown, "at(size()) reports an error");
}

struct state {
  vec v[2];
  mod m[2];
};

static void step(state& s) {
  unsigned w = vs::pick(SECOND + 1, "which");
  unsigned op = vs::pick(28, "op");
  vs_assume(((OPS >> op) & 1U) != 0U);
  auto& v = s.v[w]; auto& m = s.m[w];
  auto& o = s.v[1 - w]; auto& om = s.m[1 - w];
  switch (op) {
    case 0: { auto x = E::fresh("x"); T t = E::mk(x); v.push_back(t); VS_CHECKM(E::get(t) == x, "copying push_back leaves its argument"); m.push(x); break; }
    case 1: { auto x = E::fresh("x"); v.push_back(E::mk(x)); m.push(x); break; }
    case 2: { auto x = E::fresh("x"); T& r = v.emplace_back(E::mk(x)); m.push(x); VS_CHECKM(&r == v.begin() + m.n - 1, "emplace_back returns the new element"); break; }
    case 3: { auto x = E::fresh("x"); unsigned k = vs::pick(m.n + 1, "k"); auto it = v.insert(v.begin() + k, E::mk(x)); m.insert(k, x);
              VS_CHECKM(it == v.begin() + k, "insert returns the position of the new element"); break; }
    case 4: { auto x = E::fresh("x"); unsigned k = vs::pick(m.n + 1, "k"), c = vs::pick(4, "count"); T t = E::mk(x); auto it = v.insert(v.begin() + k, static_cast<std::size_t>(c), t);
              for (unsigned i = 0; i < c; ++i) m.insert(k, x);
              VS_CHECKM(it == v.begin() + k, "insert(count) returns the position of the first new element"); break; }
    case 5: case 6: {
      unsigned k = vs::pick(m.n + 1, "k"), c = vs::pick(4, "count");
      R x[3] = {E::fresh("x0"), E::fresh("x1"), E::fresh("x2")};
      T t[3] = {E::mk(x[0]), E::mk(x[1]), E::mk(x[2])};
      T* it;
      T const* b = t;
      if (op == 5) it = v.insert(v.begin() + k, b, b + c);
      else it = v.insert(v.begin() + k, input_it<T>{b}, input_it<T>{b + c});
      for (unsigned i = 0; i < c; ++i) m.insert(k + i, x[i]);
      bool unchanged = true;
      for (int i = 0; i < 3; ++i) unchanged &= E::get(t[i]) == x[i];
      VS_CHECKM(unchanged, "inserting a range of constants leaves the source");
      VS_CHECKM(it == v.begin() + k, "range insert returns the position of the first new element");
      break;
    }
    case 7: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); auto it = v.erase(v.begin() + k); m.erase(k); VS_CHECKM(it == v.begin() + k, "erase returns the position after the removed element"); break; }
    case 8: { unsigned f = vs::pick(m.n + 1, "first"), l = f + vs::pick(m.n - f + 1, "len"); auto it = v.erase(v.begin() + f, v.begin() + l); m.erase(f, l);
              VS_CHECKM(it == v.begin() + f, "range erase returns the position after the removed elements"); break; }
    case 9: { unsigned k = vs::pick(MAXSZ + 1, "size"); v.resize(k); m.resize(k, R{}); break; }
    case 10: { unsigned k = vs::pick(MAXSZ + 1, "size"); auto x = E::fresh("x"); v.resize(k, E::mk(x)); m.resize(k, x); break; }
    case 11: { unsigned k = vs::pick(MAXSZ + 4, "cap"); v.reserve(k); if (k > m.n) { auto const b = v.begin(); if (m.n < k) { auto x = E::fresh("x"); v.push_back(E::mk(x)); m.push(x); VS_CHECKM(v.begin() == b, "no reallocation within reserved capacity"); } } break; }
    case 12: vs_assume(m.n != 0); v.pop_back(); m.n--; break;
    case 13: v.clear(); m.clear(); break;
    case 14: v = o; m = om; break;
    case 15: v = std::move(o); m = om; VS_CHECKM(o.empty(), "moved-from vector is empty"); om.clear(); break;
    case 16: { std::swap(v, o); auto t = m; m = om; om = t; break; }
    case 17: { vec c{v}; check(c, c, m); VS_CHECKM(m.n == 0 || c.begin() != v.begin(), "copies do not share storage"); o = std::move(c); om = m; break; }
    case 18: { vec c{std::move(v)}; check(c, c, m); VS_CHECKM(v.empty(), "moved-from vector is empty"); om = m; m.clear(); o = std::move(c); break; }
    case 19: { unsigned c = vs::pick(4, "count"); R x[3] = {E::fresh("x0"), E::fresh("x1"), E::fresh("x2")}; T t[3] = {E::mk(x[0]), E::mk(x[1]), E::mk(x[2])};
               T const* b = t; v.set(b, b + c); m.clear(); for (unsigned i = 0; i < c; ++i) m.push(x[i]); break; }
    case 20: { auto x = E::fresh("x"), y = E::fresh("y"); v = vec{E::mk(x), E::mk(y)}; m.clear(); m.push(x); m.push(y); break; }
    case 21: { auto x = E::fresh("x"); unsigned c = vs::pick(4, "count"); vec t(c, E::mk(x)); v = t; m.clear(); for (unsigned i = 0; i < c; ++i) m.push(x); break; }
    case 22: { auto& self = v; v = self; break; }
    case 23: {
      bool eq = m.n == om.n, lt = false, dec = false;
      for (unsigned i = 0; i < m.n && i < om.n; ++i) { bool l = m.a[i] < om.a[i], g = om.a[i] < m.a[i]; if (!dec) { lt = l; } dec |= l || g; eq &= !(l || g); }
      if (!dec) lt = m.n < om.n;
      VS_CHECKM((v == o) == eq, "operator=="); VS_CHECKM((v != o) == !eq, "operator!="); VS_CHECKM((v < o) == lt, "operator<");
      VS_CHECKM((v > o) == (!lt && !eq), "operator>"); VS_CHECKM((v <= o) == (lt || eq), "operator<="); VS_CHECKM((v >= o) == !lt, "operator>=");
      break;
    }
    case 24: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); v.push_back(static_cast<vec const&>(v)[k]); m.push(m.a[k]); break; }
    case 25: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); v.emplace_back(static_cast<vec const&>(v)[k]); m.push(m.a[k]); break; }
    case 26: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"), q = vs::pick(m.n + 1, "q"); auto x = m.a[k]; v.insert(v.begin() + q, static_cast<vec const&>(v)[k]); m.insert(q, x); break; }
    case 27: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"), q = vs::pick(m.n + 1, "q"); auto x = m.a[k]; v.insert(v.begin() + q, std::size_t{2}, static_cast<vec const&>(v)[k]); m.insert(q, x); m.insert(q, x); break; }
    default: break;
  }
}

void vs_main() {
  long live0 = vs::tracked::live;
  unsigned long heap0 = vs_heap_live();
  {
    state s;
    for (unsigned w = 0; w <= SECOND; ++w) {
      unsigned n = vs::pick(INIT + 1, "n");
      for (unsigned j = 0; j < n; ++j) { auto x = E::fresh("i"); s.v[w].push_back(E::mk(x)); s.m[w].push(x); }
    }
    for (unsigned i = 0; i < NOPS; ++i) {
      step(s);
      for (unsigned w = 0; w <= SECOND; ++w) check(s.v[w], s.v[w], s.m[w]);
#ifdef LIVE
      VS_CHECKM(vs::tracked::live - live0 == static_cast<long>(s.m[0].n + s.m[1].n), "exactly the held elements are alive");
#endif
    }
    for (unsigned j = 0; j < s.m[0].n; ++j) vs::obs(E::get(s.v[0][j]));
    vs_reach("end");
  }
#ifdef LIVE
  VS_CHECKM(vs::tracked::live == live0, "every element constructed was destroyed exactly once");
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
#endif
}
