// C10: an object together with the memory it was deserialized from (wrapped<T>): use, modification, moving, reset.
#include "cista/containers.h"
#include "cista/memory_holder.h"
#include "cista/serialization.h"
#include "vs.h"
namespace data = cista::NS;
struct obj { data::string s; data::vector<std::uint16_t> v; data::unique_ptr<std::uint32_t> p; };
static void fill(obj& o, unsigned char x, unsigned n) {
  char t[24];
  for (unsigned i = 0; i < 20; ++i) t[i] = static_cast<char>('a' + i);
  t[0] = static_cast<char>(x);
  o.s.set_owning(t, n ? 20U : 3U);
  for (unsigned i = 0; i < n; ++i) o.v.push_back(static_cast<std::uint16_t>(x + i));
  if (n) o.p = data::make_unique<std::uint32_t>(x);
}
static void check(obj const& o, unsigned char x, unsigned n, unsigned extra) {
  VS_CHECKM(o.s.size() == (n ? 20U : 3U) && o.s.data()[0] == static_cast<char>(x), "string");
  VS_CHECKM(o.v.size() == n + extra, "vector size");
  bool ok = true;
  for (unsigned i = 0; i < n; ++i) ok &= o.v[i] == static_cast<std::uint16_t>(x + i);
  for (unsigned i = n; i < n + extra; ++i) ok &= o.v[i] == 7;
  VS_CHECKM(ok, "vector elements");
  VS_CHECKM((o.p.get() != nullptr) == (n != 0) && (n == 0 || *o.p == x), "unique pointer");
}
static cista::wrapped<obj> mk(unsigned kind, unsigned char x, unsigned n) {
  if (kind == 0) { auto o = cista::raw::make_unique<obj>(); fill(*o, x, n); return cista::wrapped<obj>{std::move(o)}; }
  obj o;
  fill(o, x, n);
  auto b = cista::serialize(o);
  if (kind == 1) { auto const p = cista::deserialize<obj>(b); return cista::wrapped<obj>{cista::memory_holder{std::move(b)}, p}; }
  cista::buffer buf{b.size()};
  std::memcpy(buf.data(), b.data(), b.size());
  auto const p = cista::deserialize<obj>(buf.begin(), buf.end());
  return cista::wrapped<obj>{cista::memory_holder{std::move(buf)}, p};
}
void vs_main() {
  unsigned long const live = vs_heap_live();
  {
    auto x = vs::sym<unsigned char>("x"), y = vs::sym<unsigned char>("y");
    unsigned ka = vs::pick(3, "kind"), kb = vs::pick(3, "kind"), na = vs::pick(3, "n"), nb = vs::pick(2, "n");
    auto a = mk(ka, x, na);
    VS_CHECKM(static_cast<bool>(a) && a.get() == &*a, "refers to the object");
    check(*a, x, na, 0);
    unsigned extra = 0;
    for (unsigned step = 0; step < NOPS; ++step) {
      switch (vs::pick(6, "op")) {
        case 0: a->v.push_back(7); ++extra; break;
        case 1: { cista::wrapped<obj> b{std::move(a)}; check(*b, x, na, extra); VS_CHECKM(!static_cast<bool>(a), "moved-from"); a = std::move(b); break; }
        case 2: { a.reset(); VS_CHECKM(!static_cast<bool>(a) && a.get() == nullptr, "nothing to refer to after reset()"); a = mk(kb, y, nb); x = y; na = nb; extra = 0; break; }
        case 3: if (vs::flip("twice")) a.reset(); a.reset(); a = mk(kb, x, na); extra = 0; break;
        case 4: { auto b = mk(kb, y, nb); check(*b, y, nb, 0); check(*a, x, na, extra); break; }
        case 5: { cista::wrapped<obj> e; VS_CHECKM(!static_cast<bool>(e), "empty"); e.reset(); e = std::move(a); check(*e, x, na, extra); a = std::move(e); break; }
        default: break;
      }
      check(*a, x, na, extra);
    }
    a.reset();
  }
  VS_CHECKM(vs_heap_live() == live, "all memory is released");
  vs_reach("end");
}
