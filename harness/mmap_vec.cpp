// C36: histories of operations on vectors in memory mapped files over a modelled operating system (os.h).
// ELEM: element type, NOPS: history length, OPS: op mask, FAULTS: one failing system call (2: one in each operation), INIT: elements in the file at the beginning
#include <iterator>
#include <optional>
#include <stdexcept>
#include "cista/containers/mmap_vec.h"
#include "os.h"
#include "seq.h"
#ifndef OPS
#define OPS 0xffffffffU
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef KEY
#define KEY std::uint32_t
#endif
struct rec {  // element larger than a word
  std::uint32_t a, b, c;
  rec() : a{0}, b{0}, c{0} {}
  explicit rec(std::uint32_t x) : a{x}, b{~x}, c{x + 1U} {}
  friend bool operator==(rec const& x, rec const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
};
using T = ELEM;
using vec = cista::basic_mmap_vec<T, KEY>;
using prot = cista::mmap::protection;
using mod = seq<T>;
static T fresh(char const* n) { return T(static_cast<std::uint32_t>(vs::sym<std::uint32_t>(n))); }

static void check(vec const& c, mod const& m) {
  VS_CHECKM(c.size() == m.n, "size() is the number of elements");
  VS_CHECKM(c.empty() == (m.n == 0), "empty()");
  VS_CHECKM(c.end() - c.begin() == static_cast<long>(m.n) && c.cend() - c.cbegin() == static_cast<long>(m.n) && c.data() == c.begin(), "begin/end/data");
  bool same = true;
  for (unsigned i = 0; i < m.n; ++i) same &= c[typename vec::access_type(i)] == m.a[i];
  VS_CHECKM(same, "operator[] yields the elements in order");
  unsigned i = 0;
  for (auto const& e : c) same &= e == m.a[i++];
  VS_CHECKM(same && i == m.n, "iteration yields the elements in order");
  VS_CHECKM(c.mmap_.size() == m.n * sizeof(T), "the used size of the mapped file is the size of the elements");
}
static void check_file(char const* p, mod const& m, bool closed) {
  VS_CHECKM(os::size(p) >= m.n * sizeof(T), "the file covers all elements");
  if (closed) VS_CHECKM(os::size(p) == m.n * sizeof(T), "the closed file has the size of the elements");
  auto const* d = os::content(p);
  bool same = true;
  for (unsigned i = 0; i < m.n; ++i) { T t; memcpy(&t, d + i * sizeof(T), sizeof(T)); same &= t == m.a[i]; }
  VS_CHECKM(same, "the file holds the elements");
}

static void step(std::optional<vec>& o, mod& m) {
  unsigned const op = vs::pick(15, "op");
  vs_assume(((OPS >> op) & 1U) != 0U);
  vec& v = *o;
  auto const n = static_cast<typename vec::size_type>(m.n);
  (void)n;
  mod w = m;
  bool stable = false;  // may only fail completely or succeed completely
  try {
    switch (op) {
      case 0: { T x = fresh("x"); w.push(x); stable = true; v.push_back(x); break; }
      case 1: { T x = fresh("x"); w.push(x); stable = true; T& r = v.emplace_back(x); VS_CHECKM(&r == v.end() - 1, "emplace_back returns the new element"); break; }
      case 2: { unsigned k = vs::pick(9, "resize"); while (w.n > k) w.erase(w.n - 1); while (w.n < k) w.push(T()); stable = true; v.resize(static_cast<typename vec::size_type>(k)); break; }
      case 3: { unsigned k = vs::pick(12, "reserve"); stable = true; v.reserve(static_cast<typename vec::size_type>(k)); break; }
      case 4: case 5: {
        unsigned k = vs::pick(4, "set");
        T in[4] = {fresh("x"), fresh("x"), fresh("x"), fresh("x")};
        while (w.n) w.erase(w.n - 1);
        for (unsigned i = 0; i < k; ++i) w.push(in[i]);
        stable = true;
        if (op == 4) v.set(&in[0], &in[k]); else v.set(std::reverse_iterator<T*>(&in[k]), std::reverse_iterator<T*>(&in[0]));
        if (op == 5) for (unsigned i = 0; i < k; ++i) w.a[i] = in[k - 1 - i];
        break;
      }
      case 6: { T x = fresh("x"); unsigned k = vs::pick(m.n + 1, "k"); w.insert(k, x); stable = true; auto it = v.insert(v.begin() + k, x); VS_CHECKM(it == v.begin() + k, "insert returns the position of the new element"); break; }
      case 7: {
        unsigned k = vs::pick(m.n + 1, "k"), c = vs::pick(4, "count");
        T in[4] = {fresh("x"), fresh("x"), fresh("x"), fresh("x")};
        for (unsigned i = 0; i < c; ++i) w.insert(k + i, in[i]);
        stable = true;
        auto it = v.insert(v.begin() + k, &in[0], &in[c]);
        VS_CHECKM(it == v.begin() + k, "insert returns the position of the first new element");
        break;
      }
      case 8: {
        unsigned k = vs::pick(m.n + 1, "k"), c = vs::pick(3, "count");
        T in[4] = {fresh("x"), fresh("x"), fresh("x"), fresh("x")};
        for (unsigned i = 0; i < c; ++i) w.insert(k + i, in[i]);
        auto it = v.insert(v.begin() + k, &in[0], &in[c], std::input_iterator_tag{});
        VS_CHECKM(it == v.begin() + k, "insert (input iterators) returns the position of the first new element");
        break;
      }
      case 9: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); T x = fresh("x"); w.a[k] = x; v[typename vec::access_type(k)] = x; break; }
      case 10: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"); w.push(m.a[k]); stable = true; if (vs::flip("emplace")) v.emplace_back(v[typename vec::access_type(k)]); else v.push_back(v[typename vec::access_type(k)]); break; }
      case 11: { vs_assume(m.n != 0); unsigned k = vs::pick(m.n, "k"), j = vs::pick(m.n + 1, "j"); w.insert(j, m.a[k]); stable = true; v.insert(v.begin() + j, v[typename vec::access_type(k)]); break; }
      case 12: { vec t{std::move(v)}; check(t, m); o.emplace(std::move(t)); break; }
      case 13: {  // move assignment to a vector in another file
        int const f = os::faults;
        os::faults = 0;
        T y = fresh("y");
        mod om;
        {
          vec other{cista::mmap{"b", prot::WRITE}};
          unsigned const c = vs::pick(3, "other");
          for (unsigned i = 0; i < c; ++i) { other.push_back(y); om.push(y); }
          other = std::move(v);
          check(other, m);
          check_file("b", om, true);
          o.emplace(std::move(other));
        }
        os::faults = f;
        break;
      }
      default: {  // close and open again
        int const f = os::faults;
        os::faults = 0;
        o.reset();
        check_file("a", m, true);
        VS_CHECKM(os::open_files == 0 && os::mappings == 0, "closing releases the file and the mapping");
        { vec r{cista::mmap{"a", prot::READ}}; check(r, m); }
        check_file("a", m, true);
        o.emplace(cista::mmap{"a", prot::MODIFY});
        os::faults = f;
      }
    }
    m = w;
    VS_CHECKM(!os::faulty, "a failing system call is reported");
  } catch (std::runtime_error const&) {
    VS_CHECKM(os::faulty, "only a failing system call is reported as an error");
    os::faulty = false;
    (void)stable;
    if (!stable) {  // a prefix of the range was inserted at the end
      VS_CHECKM(v.size() >= m.n && v.size() <= w.n, "size after a failure");
      v.resize(static_cast<typename vec::size_type>(m.n));
    }
    vs_reach("fault");
  }
}

extern "C" void vs_main() {
  mod m;
  {
    unsigned const c = vs::pick(INIT + 1, "init");
    bool const created = c != 0;
    if (created) {
      T d[INIT + 1];
      for (unsigned i = 0; i < c; ++i) { d[i] = fresh("init-x"); m.push(d[i]); }
      os::create("a", d, c * sizeof(T));
    }
    std::optional<vec> o;
    o.emplace(cista::mmap{"a", created ? prot::MODIFY : prot::WRITE});
    check(*o, m);
    for (unsigned i = 0; i < NOPS; ++i) {
#if FAULTS == 2
      os::faults = 1;
#else
      if (i == 0) os::faults = FAULTS;
#endif
      step(o, m);
      check(*o, m);
      check_file("a", m, false);
    }
    os::faults = 0;
  }
  os::done();
  check_file("a", m, true);
  vec r{cista::mmap{"a", prot::READ}};
  check(r, m);
  vs_reach("end");
}
