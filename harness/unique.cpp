// C29: histories over unique pointers
#include "rbtree.h"
#include <stdexcept>
#include "cista/containers.h"
#include "vs.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef NS
#define NS raw
#endif
namespace data = cista::NS;
using vs::tracked;
struct node { tracked t; data::unique_ptr<node> next; explicit node(unsigned char x) : t{x} {} };
using U = data::unique_ptr<node>;
struct model { bool has = false, own = false; unsigned v = 0; long id = 0; };
static void check(U const& u, model const& m) {
  VS_CHECKM((u.get() != nullptr) == m.has && static_cast<bool>(u) == m.has && (u == nullptr) == !m.has && (nullptr == u) == !m.has && (u != nullptr) == m.has && (nullptr != u) == m.has, "pointer empty or set unexpectedly");
  if (m.has) VS_CHECKM(u->t.get() == m.v && (*u).t.get() == m.v && const_cast<U&>(u)->t.get() == m.v && (*const_cast<U&>(u)).t.get() == m.v && u.get()->t.get() == m.v, "access yields another object");
}
void vs_main() {
  auto const live = vs_heap_live();
  {
    node foreign{200};
    U a, b;
    model ma, mb;
    long owned = 0;
    check(a, ma);
    for (unsigned i = 0; i < STEPS; ++i) {
      auto const x = vs::sym<unsigned char>("x");
      unsigned const op = vs::pick(12, "op");
      if (op == 11 && (!ma.has || !ma.own)) continue;
      switch (op) {
        case 0: a = data::make_unique<node>(x); ma = {true, true, x}; break;
        case 1: a = U{new node{x}}; ma = {true, true, x}; break;
        case 2: a = U{new node{x}, true}; ma = {true, true, x}; break;
        case 3: a = U{&foreign, false}; ma = {true, false, 200}; break;
        case 4: a.reset(); ma = {}; break;
        case 5: a = nullptr; ma = {}; break;
        case 6: b = std::move(a); mb = ma; ma = {}; break;
        case 7: { U c{std::move(a)}; check(c, ma); check(a, {}); b = std::move(c); mb = ma; ma = {}; check(c, {}); break; }
        case 8: { U& r = a; a = std::move(r); break; }
        case 9: { std::swap(a, b); std::swap(ma, mb); break; }
        case 10: { U c{nullptr}; check(c, {}); U d; check(d, {}); b = std::move(d); mb = {}; break; }
        case 11: { a->next = data::make_unique<node>(x); a = std::move(a->next); ma = {true, true, x}; break; }  // the source is owned by the target
      }
      check(a, ma);
      check(b, mb);
      owned = (ma.has && ma.own) + (mb.has && mb.own);
      VS_CHECKM(tracked::live == owned + 1, "objects are not destroyed exactly once");
    }
  }
  VS_CHECKM(tracked::live == 0, "objects are not destroyed exactly once");
  VS_CHECKM(vs_heap_live() == live, "memory leaked");
  vs_reach("end");
}
