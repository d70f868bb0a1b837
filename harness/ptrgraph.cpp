// C08: pointers between the parts of a serialized object still refer to the same parts after the round trip.
#include "rbtree.h"
#include <stdexcept>
#include "cista/containers.h"
#include "cista/indexed.h"
#include "cista/serialization.h"
#include "vs.h"
#ifndef NS
#define NS offset
#endif
namespace data = cista::NS;
using cista::mode;
#ifndef MODES
#define MODES mode::NONE
#endif
constexpr mode M = MODES;
struct node;
using np = data::ptr<node>;
struct node {
  std::uint32_t id;
  np p;
  data::unique_ptr<node> child;
  data::vector<np> more;
};
struct root_t {
  np first;                                   // in front of everything it can refer to
  std::uint8_t x;
  data::vector<np> ptrs;
  data::indexed_vector<node> a;
  np middle;
  data::unique_ptr<node> u;
  cista::optional<np> opt;
  cista::variant<std::uint32_t, np> var;
  cista::array<np, 2> arr;
  cista::pair<std::uint8_t, np> pr;
  cista::tuple<std::uint8_t, np> tup;
  data::hash_map<std::uint32_t, np> map;
  data::indexed_vector<node> b;
  cista::indexed<data::string> name;
  data::ptr<data::string> name_ptr;
  data::vector<data::ptr<data::string>> name_ptrs;
  data::indexed_vector<std::uint16_t> nums;
  data::ptr<std::uint16_t> num;
  data::ptr<data::unique_ptr<node>> none;
  np last;
};
static constexpr unsigned TARGETS = 8;
static node* target(root_t& r, unsigned i) {
  switch (i) {
    case 0: return nullptr;
    case 1: return &r.a[0];
    case 2: return &r.a[1];
    case 3: return r.u.get();
    case 4: return r.a[1].child.get();
    case 5: return &r.b[0];
    case 6: return &r.b[r.b.size() - 1];
    case 7: return r.b[1].child->child.get();
  }
  return nullptr;
}
static constexpr unsigned SITES = 16;
static np& site(root_t& r, unsigned i) {
  switch (i) {
    case 0: return r.first;
    case 1: return r.ptrs[0];
    case 2: return r.ptrs[1];
    case 3: return r.a[0].p;
    case 4: return r.a[1].p;
    case 5: return r.a[1].child->p;
    case 6: return r.a[0].more[0];
    case 7: return r.middle;
    case 8: return r.u->p;
    case 9: return *r.opt;
    case 10: return cista::get<np>(r.var);
    case 11: return r.arr[1];
    case 12: return r.pr.second;
    case 13: return cista::get<1>(r.tup);
    case 14: return r.map[7];
    default: return i == 15 ? r.b[1].child->child->p : r.last;
  }
}
static unsigned plan[SITES + 1];
static void fill(root_t& r) {
  unsigned const spare = vs::pick(2, "spare");
  if (spare) { r.a.reserve(4); r.b.reserve(4); }
  r.a.resize(2); r.b.resize(3);
  r.ptrs.resize(2);
  r.a[0].id = 1; r.a[1].id = 2; r.b[0].id = 5; r.b[1].id = 60; r.b[2].id = 6;
  r.a[0].more.resize(1);
  r.a[1].child = data::make_unique<node>(); r.a[1].child->id = 4;
  r.u = data::make_unique<node>(); r.u->id = 3;
  r.b[1].child = data::make_unique<node>(); r.b[1].child->id = 61;
  r.b[1].child->child = data::make_unique<node>(); r.b[1].child->child->id = 7;
  r.opt = np{nullptr}; r.var = np{nullptr};
  r.map[7] = nullptr;
  r.name = data::string{vs::flip("name") ? std::string_view{"a name stored on the heap"} : std::string_view{"name"}};
  r.nums.resize(3);
  for (unsigned i = 0; i < 3; ++i) r.nums[i] = vs::sym<std::uint16_t>("num");
}
static void check(root_t& r, root_t& g, unsigned numat, bool named) {
  for (unsigned i = 0; i <= SITES; ++i) {
    node* const got = static_cast<node*>(site(g, i));
    VS_CHECKM(got == target(g, plan[i]), "pointer refers to another object after the round trip");
    if (plan[i] != 0) VS_CHECKM(got->id == plan[i], "object a pointer refers to has another value");
  }
  VS_CHECKM(static_cast<data::string*>(g.name_ptr) == (named ? &g.name : nullptr), "pointer to an indexed member");
  VS_CHECKM(static_cast<data::string*>(g.name_ptrs[0]) == &g.name, "pointer to an indexed member in a vector");
  VS_CHECKM(g.name_ptrs[0]->view() == r.name.view(), "indexed member");
  VS_CHECKM(static_cast<std::uint16_t*>(g.num) == &g.nums[numat], "pointer to a number of an indexed vector");
  VS_CHECKM(*g.num == r.nums[numat], "number of an indexed vector");
  VS_CHECKM(static_cast<data::unique_ptr<node>*>(g.none) == nullptr, "null pointer");
}
void vs_main() {
  unsigned long const live = vs_heap_live();
  {
    root_t r{};
    fill(r);
    // FREE sites refer to anything, the others to something different each
    unsigned const s0 = vs::pick(SITES + 1, "site");
    for (unsigned i = 0; i <= SITES; ++i) plan[i] = (i * 3 + 1) % TARGETS;
    plan[s0] = vs::pick(TARGETS, "target");
#ifdef TWO
    plan[(s0 + 1 + vs::pick(SITES, "site2")) % (SITES + 1)] = vs::pick(TARGETS, "target2");
#endif
    for (unsigned i = 0; i <= SITES; ++i) site(r, i) = target(r, plan[i]);
    unsigned const numat = vs::pick(3, "numat");
    bool const named = vs::pick(2, "named");
    if (named) r.name_ptr = &r.name;
    r.name_ptrs.push_back(&r.name);
    r.num = &r.nums[numat];
    auto const b = cista::serialize<M>(r);
    std::size_t const n = b.size();
    auto* const p = static_cast<unsigned char*>(std::malloc(n));
    std::memcpy(p, b.data(), n);
    root_t* g = nullptr;
    try { g = cista::deserialize<root_t, M>(p, p + n); } catch (std::exception const&) { vs_assert(false, "deserialization of serialized data failed"); }
    check(r, *g, numat, named);
    std::free(p);
  }
  vs_assert(vs_heap_live() == live, "memory leaked");
  vs_reach("end");
}
