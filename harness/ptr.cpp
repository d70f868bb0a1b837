// C12: relative pointers behave like ordinary pointers
#include "cista/containers/ptr.h"
#include "vs.h"
#ifndef NOPS
#define NOPS 2
#endif
using cista::offset_ptr;
#if defined(SEC_ADDR)
// any address, including null and the pointer's own location
void vs_main() {
  auto const a = vs::sym<std::uintptr_t>("addr");
  auto* const p = reinterpret_cast<int*>(a);
  struct { offset_ptr<int> x, y; offset_ptr<void> v; } s;
  // the one distance reserved for null: 2^63, outside every user address space
  auto const ok = [&](void const* at) { return static_cast<std::uintptr_t>(a - reinterpret_cast<std::uintptr_t>(at)) != (std::uintptr_t{1} << 63U); };
  vs_assume(ok(&s.x) && ok(&s.y) && ok(&s.v));
  VS_CHECKM(!s.x && s.x.get() == nullptr && s.x == nullptr, "a default constructed pointer is null");
  s.x = p;
  VS_CHECKM(s.x.get() == p && static_cast<bool>(s.x) == (p != nullptr), "assignment from a pointer");
  s.y = s.x;
  VS_CHECKM(s.y.get() == p && static_cast<bool>(s.y) == (p != nullptr), "assignment between relative pointers");
  VS_CHECKM((s.x == s.y) && !(s.x != s.y), "comparison");
  s.v = p;
  VS_CHECKM(s.v.get() == p && static_cast<bool>(s.v) == (p != nullptr), "void pointer");
  VS_CHECKM((s.v == nullptr) == (p == nullptr) && (nullptr != s.v) == (p != nullptr), "void pointer null comparison");
  offset_ptr<int> c{s.x}, d{p}, e{std::move(s.y)};
  vs_assume(ok(&c) && ok(&d) && ok(&e));
  VS_CHECKM(c.get() == p && d.get() == p && e.get() == p, "construction");
  offset_ptr<void> w{s.v}, w2;
  w2 = w;
  vs_assume(ok(&w) && ok(&w2));
  VS_CHECKM(w.get() == p && w2.get() == p && static_cast<void*>(w2) == p, "void pointer copies");
  s.x = nullptr;
  VS_CHECKM(!s.x && s.x.get() == nullptr && c.get() == p, "assignment of null");
  s.v = nullptr;
  VS_CHECKM(!s.v && s.v.get() == nullptr && s.v == nullptr, "void pointer null");
  vs_reach("end");
}
#else
using st = cista::strong<unsigned, struct tag>;
struct elem { int v; char c; };
constexpr int N = 4;
static elem arr[N];
struct holder { char pad; offset_ptr<elem> a; elem self; offset_ptr<elem> b; };
// pointers in different kinds of storage, model: index into arr, -1 null, -2 holder.self
static elem* real(int m, holder& h) { return m == -1 ? nullptr : m == -2 ? &h.self : arr + m; }
void vs_main() {
  static offset_ptr<elem> g;
  offset_ptr<elem> l;
  auto* h = new holder{};
  auto* ha = new offset_ptr<elem>[2];
  offset_ptr<elem>* p[] = {&g, &l, &h->a, &h->b, &ha[1]};
  int m[] = {-1, -1, -1, -1, -1};
  for (auto& e : arr) { e.v = vs::sym<int>("v"); e.c = 1; }
  h->self.v = vs::sym<int>("v");
  auto const check = [&] {
    for (int i = 0; i < 5; ++i) {
      auto* r = real(m[i], *h);
      VS_CHECKM(p[i]->get() == r, "get()");
      VS_CHECKM(static_cast<bool>(*p[i]) == (r != nullptr), "null test");
      VS_CHECKM((*p[i] == nullptr) == (r == nullptr) && (*p[i] != nullptr) == (r != nullptr), "null comparison");
      VS_CHECKM(static_cast<elem*>(*p[i]) == r && static_cast<void*>(*p[i]) == r && static_cast<void const*>(*p[i]) == r, "conversion");
      if (r) VS_CHECKM(&**p[i] == r && (*p[i])->v == r->v && (*p[i])[0].v == r->v, "dereference");
    }
  };
  auto const init = [&](int k, int t) { *p[k] = real(t, *h); m[k] = t; };
  init(1, 1); init(2, -2); init(3, static_cast<int>(vs::pick(N + 1, "to")) - 1);
  check();
  for (int s = 0; s < NOPS; ++s) {
    auto const op = vs::pick(14, "op"), i = vs::pick(5, "i"), j = op == 0 || op == 1 || op == 9 || op == 11 ? vs::pick(5, "j") : 0U;
    auto& x = *p[i];
    auto& y = *p[j];
    auto const in = m[i] >= 0;
    switch (op) {
      case 0: x = y; m[i] = m[j]; break;
      case 1: x = std::move(y); m[i] = m[j]; break;
      case 2: {  int t = static_cast<int>(vs::pick(N + 2, "to")) - 2; x = real(t, *h); m[i] = t; break; }
      case 3:  x = nullptr; m[i] = -1; break;
      case 4: { vs_assume(in && m[i] + 1 <= N - 1); auto& r = ++x; VS_CHECKM(&r == &x, "++p refers to p"); ++m[i]; break; }
      case 5: { vs_assume(in && m[i] >= 1); auto& r = --x; VS_CHECKM(&r == &x, "--p refers to p"); --m[i]; break; }
      case 6: { vs_assume(in && m[i] + 1 <= N - 1); auto r = x++; VS_CHECKM(r == arr + m[i], "p++ yields the previous value"); ++m[i]; break; }
      case 7: { vs_assume(in && m[i] >= 1); auto r = x--; VS_CHECKM(r == arr + m[i], "p-- yields the previous value"); --m[i]; break; }
      case 8: { vs_assume(in); int k = static_cast<int>(vs::pick(N, "k")); VS_CHECKM(x + (k - m[i]) == arr + k && x - (m[i] - k) == arr + k, "p + n and p - n"); VS_CHECKM(&x[static_cast<std::size_t>(static_cast<long>(k - m[i]))] == arr + k, "p[n]");
                if (k >= m[i]) { VS_CHECKM(x + static_cast<unsigned>(k - m[i]) == arr + k, "p + unsigned"); VS_CHECKM(x + st{static_cast<unsigned>(k - m[i])} == arr + k, "p + strong"); } else { VS_CHECKM(x - static_cast<unsigned>(m[i] - k) == arr + k, "p - unsigned"); VS_CHECKM(x - st{static_cast<unsigned>(m[i] - k)} == arr + k, "p - strong"); } break; }
      case 9: { auto* a = real(m[i], *h); auto* b = real(m[j], *h); VS_CHECKM((x == y) == (a == b) && (x != y) == (a != b), "comparison"); VS_CHECKM((x == b) == (a == b) && (b != x) == (a != b), "comparison with an ordinary pointer");
                if (in && m[j] >= 0) VS_CHECKM((x < y) == (a < b) && (x >= y) == (a >= b) && x.get() - y.get() == a - b, "order"); break; }
      case 10: {  offset_ptr<elem> c{x}; VS_CHECKM(c.get() == real(m[i], *h), "copy construction"); offset_ptr<elem> d{std::move(c)}; VS_CHECKM(d.get() == real(m[i], *h), "move construction"); auto f = [](offset_ptr<elem> q) { return q; }; VS_CHECKM(f(d).get() == real(m[i], *h), "by value"); VS_CHECKM(cista::ptr_cast(d) == real(m[i], *h) && cista::ptr_cast(real(m[i], *h)) == real(m[i], *h), "ptr_cast"); break; }
      case 11: { std::swap(x, y); auto t = m[i]; m[i] = m[j]; m[j] = t; break; }
      case 12: { vs_assume(in); auto w = vs::sym<int>("w"); x->v = w; VS_CHECKM(arr[m[i]].v == w && (*x).v == w, "write through"); break; }
      case 13: { vs_assume((i == 2 || i == 3)); // the block moves as a whole: pointers inside keep their distance to it
                 vs_assume(m[2] == -2 || m[2] == -1); vs_assume(m[3] == -2 || m[3] == -1);
                 for (int k = 0; k < 5; ++k) vs_assume(k == 2 || k == 3 || m[k] != -2);
                 auto* n = static_cast<holder*>(::operator new(sizeof(holder))); std::memcpy(static_cast<void*>(n), h, sizeof(holder)); delete h; h = n; p[2] = &h->a; p[3] = &h->b; break; }
      default: break;
    }
    check();
  }
  vs::obs(m[0] + 8 * m[1]);
  delete h;
  delete[] ha;
  vs_reach("end");
}
#endif
