// C20: histories over two dynamic bit vectors against arrays of bools, all contents
#include "cista/containers/bitvec.h"
#include "vs.h"
#ifndef OPS
#define OPS 0xffffffffU
#endif
#if defined(STRONG)
using KEY = cista::strong<unsigned, struct ktag>;
using B = cista::basic_bitvec<cista::NS::vector<std::uint64_t>, KEY>;
#else
using B = cista::NS::bitvec;
using KEY = unsigned;
#endif
constexpr unsigned W = 64;
constexpr unsigned CAP = 200;
struct bits { bool a[CAP] = {}; unsigned n = 0; };
static unsigned pick_size() {
#ifdef SIZES
  static constexpr unsigned s[] = SIZES;
#else
  static constexpr unsigned s[] = {0, 1, 63, 64, 65, 128, 130};
#endif
  return s[vs::pick(sizeof(s) / sizeof(s[0]), "size")];
}
static void check(B const& b, bits const& m) {
  vs::self_accepted(b);
  VS_CHECKM(b.size() == m.n && b.empty() == (m.n == 0), "size");
  bool r = true;
  for (unsigned i = 0; i < m.n; ++i) r &= b.test(KEY{i}) == m.a[i];
  VS_CHECKM(r, "the bits are those of the model");
  VS_CHECKM(!b.test(KEY{m.n}) && !b[KEY{m.n + 1}] && !b.test(KEY{m.n + 64}), "no bits beyond the size");
  bool any = false; std::size_t c = 0;
  for (unsigned i = 0; i < m.n; ++i) { bool const t = b.test(KEY{i}); any |= t; c += t; }  // = m, as just shown
  VS_CHECKM(b.any() == any && b.none() == !any, "any/none");
  VS_CHECKM(b.count() == c, "count");
}
static void fill(B& b, bits& m, unsigned n) {  // everything including the bits beyond the size
  b.resize(n);
  for (unsigned i = 0; i < b.blocks_.size(); ++i) b.blocks_[i] = vs::sym<std::uint64_t>("w");
  m.n = n;
  for (unsigned i = 0; i < n; ++i) m.a[i] = ((b.blocks_[i / W] >> (i % W)) & 1U) != 0;
}
static unsigned pick_shift(unsigned n) {
#ifdef ALLSHIFTS
  return vs::pick(n + 3, "shift");
#else
  static constexpr unsigned s[] = {0, 1, 31, 63, 64, 65, 127, 128};
  auto k = vs::pick(10, "shift");
  return k < 8 ? s[k] : n + k - 8;
#endif
}
static void cmp(B const& x, bits const& m, B const& y, bits const& n) {
  if (m.n != n.n) { VS_CHECKM(!(x == y) && x != y, "different sizes are different"); return; }
  bool e = true, lt = false, dec = false;
  for (unsigned i = m.n; i-- > 0;) { lt |= !dec & !m.a[i] & n.a[i]; dec |= m.a[i] != n.a[i]; e &= m.a[i] == n.a[i]; }
  VS_CHECKM((x == y) == e && (x != y) == !e, "equality");
  VS_CHECKM((x < y) == lt && (x >= y) == !lt && (x > y) == (!lt & !e) && (x <= y) == (lt | e), "order");
}
struct state { B b[2]; bits m[2]; };
static void step(state& st) {
  auto op = vs::pick(16, "op");
  vs_assume(((OPS >> op) & 1U) != 0);
  auto& x = st.b[0]; auto& m = st.m[0]; auto& y = st.b[1]; auto& n = st.m[1];
  switch (op) {
    case 0: { unsigned k = pick_size(); x.resize(k); for (unsigned i = m.n; i < k; ++i) m.a[i] = false; for (unsigned i = k; i < m.n; ++i) m.a[i] = false; m.n = k; break; }
    case 1: { vs_assume(m.n != 0); unsigned i = vs::pick(4, "i"); i = i == 0 ? 0 : i == 1 ? m.n - 1 : i == 2 ? m.n / 2 : (m.n - 1) / W * W; bool v = vs::flip("v"); if (vs::flip("atomic")) x.template set<true>(KEY{i}, v); else x.set(KEY{i}, v); m.a[i] = v; break; }
    case 2: x.zero_out(); for (unsigned i = 0; i < m.n; ++i) m.a[i] = false; break;
    case 3: x.one_out(); for (unsigned i = 0; i < m.n; ++i) m.a[i] = true; break;
    case 4: x.reset(); for (unsigned i = 0; i < m.n; ++i) m.a[i] = false; break;
    case 5: x = ~x; for (unsigned i = 0; i < m.n; ++i) m.a[i] = !m.a[i]; break;
    case 6: { unsigned s = pick_shift(m.n); bits r; r.n = m.n; for (unsigned i = 0; i < m.n; ++i) r.a[i] = i >= s ? m.a[i - s] : false; B z = x << s; check(z, r); x <<= s; m = r; break; }
    case 7: { unsigned s = pick_shift(m.n); bits r; r.n = m.n; for (unsigned i = 0; i < m.n; ++i) r.a[i] = i + s < m.n ? m.a[i + s] : false; B z = x >> s; check(z, r); x >>= s; m = r; break; }
    case 8: { vs_assume(m.n == n.n); auto k = vs::pick(3, "k"); B z = k == 0 ? x & y : k == 1 ? x | y : x ^ y; auto& r = k == 0 ? (x &= y) : k == 1 ? (x |= y) : (x ^= y); VS_CHECKM(&r == &x, "compound assignment returns the object"); for (unsigned i = 0; i < m.n; ++i) m.a[i] = k == 0 ? m.a[i] & n.a[i] : k == 1 ? m.a[i] | n.a[i] : m.a[i] != n.a[i]; check(z, m); break; }
    case 9: cmp(x, m, y, n); break;
    case 10: y = x; n = m; break;
    case 11: y = std::move(x); n = m; x = B{}; m = bits{}; break;
    case 12: std::swap(x, y); { bits t = m; m = n; n = t; } break;
    case 13: { // next_set_bit: specification by the model
               unsigned i = vs::pick(5, "from"); i = i == 0 ? 0 : i == 1 ? (m.n == 0 ? 0 : m.n - 1) : i == 2 ? m.n / 2 : i == 3 ? m.n : 64;
               auto const r = x.next_set_bit(i);
               if (r.has_value()) { unsigned k = static_cast<unsigned>(vs_concrete(cista::to_idx(*r))); VS_CHECKM(k >= i && k < m.n, "next_set_bit within bounds"); bool before = false; for (unsigned j = i; j < k && j < m.n; ++j) before |= m.a[j]; VS_CHECKM(!before && m.a[k], "next_set_bit finds the first set bit"); }
               else { bool any = false; for (unsigned j = i; j < m.n; ++j) any |= m.a[j]; VS_CHECKM(!any, "next_set_bit finds a set bit if there is one"); }
               break; }
    case 14: { // iteration and conversion: few free bits, the others cleared, the bits beyond the size stay free
               vs_assume(m.n != 0);
               unsigned const p[] = {0, m.n - 1, m.n / 2, (m.n - 1) / W * W};
               for (unsigned i = 0; i < m.n; ++i) { bool keep = false; for (auto q : p) keep |= q == i; if (!keep) { x.set(KEY{i}, false); m.a[i] = false; } }
               for (auto q : p) m.a[q] = vs_branch(m.a[q]) != 0;
               bits seen; seen.n = m.n; unsigned last = 0; bool first = true;
               x.for_each_set_bit([&](KEY const key) { unsigned const i = static_cast<unsigned>(cista::to_idx(key)); VS_CHECKM(i < m.n, "for_each_set_bit within bounds"); VS_CHECKM(m.a[i] && !seen.a[i] && (first || last < i), "for_each_set_bit: set bits only, ascending, once"); seen.a[i] = true; first = false; last = i; });
               bool all = true; for (unsigned i = 0; i < m.n; ++i) all &= seen.a[i] == m.a[i];
               VS_CHECKM(all, "for_each_set_bit visits every set bit");
               unsigned at = 0; for (unsigned k = 0; k < 5; ++k) { auto r = x.next_set_bit(at); unsigned e = at; while (e < m.n && !m.a[e]) ++e; VS_CHECKM(r.has_value() == (e < m.n), "next_set_bit"); if (!r.has_value()) break; VS_CHECKM(cista::to_idx(*r) == e, "next_set_bit position"); at = e + 1; }
#if !defined(STRONG)
               std::atomic_size_t next{0}; for (unsigned k = 0, e = 0; k < 6; ++k) { while (e < m.n && !m.a[e]) ++e; auto r = x.get_next(next); VS_CHECKM(r.has_value() == (e < m.n), "get_next"); if (!r.has_value()) break; VS_CHECKM(*r == e, "get_next position"); ++e; }
               auto const s = x.str(); VS_CHECKM(s.size() == m.n, "str size"); bool ok = true; for (unsigned i = 0; i < m.n; ++i) ok &= s[i] == (m.a[m.n - 1 - i] ? '1' : '0'); VS_CHECKM(ok, "str");
               y.set(s); n = m;
#endif
               break; }
    case 15: { auto k = pick_size(); x = B::max(k); m = bits{}; m.n = k; for (unsigned i = 0; i < k; ++i) m.a[i] = true; break; }
    default: break;
  }
}
void vs_main() {
  state st;
  fill(st.b[0], st.m[0], pick_size());
  fill(st.b[1], st.m[1], SECOND ? st.m[0].n : 0);
  for (unsigned i = 0; i < NOPS; ++i) {
    step(st);
    check(st.b[0], st.m[0]);
    if (SECOND) check(st.b[1], st.m[1]);
  }
  vs_reach("end");
}
