// C17/C18: model based histories over two strings. STR: string type, CH: character type, CSTR: null-terminated flavour
// OWN: 1 always owning type, 0 view type, 2 generic
#include "cista/containers/string.h"
#include "cista/containers/cstring.h"
#include "seq.h"
#ifndef OPS
#define OPS 0xffffffffU
#endif
using CH = CHT;
using S = STR;
using SV = std::basic_string_view<CH>;
constexpr unsigned L = S::short_length_limit;
constexpr unsigned MAXL = L + 3;
struct mod { CH a[MAXL + 1]; unsigned n = 0; bool own = true; };
static CH buf[2 * NOPS + 2][MAXL + 1];
static unsigned nbuf = 0;
static unsigned pick_len() {
#ifdef LENS
  static constexpr unsigned l[] = LENS;
#else
  static constexpr unsigned l[] = {0, 1, L - 1, L, L + 1, L + 2};
#endif
  return l[vs::pick(sizeof(l) / sizeof(l[0]), "len")];
}
struct src { CH* p; unsigned n; };
static src fresh(bool no_zero = false) {  // external zero-terminated buffer with symbolic contents, outlives everything
  CH* p = buf[nbuf++];
  unsigned n = pick_len();
  for (unsigned i = 0; i < n; ++i) {
#ifdef FEWSYM
    p[i] = i == 0 || i + 1 == n ? vs::sym<CH>("c") : static_cast<CH>('a' + i);
#else
    p[i] = vs::sym<CH>("c");
#endif
    if (no_zero) vs_assume(p[i] != CH(0));
  }
  p[n] = CH(0);
  return {p, n};
}
static void set(mod& m, CH const* p, unsigned n) { CH t[MAXL + 1]; for (unsigned i = 0; i < n; ++i) t[i] = p[i]; for (unsigned i = 0; i < n; ++i) m.a[i] = t[i]; m.n = n; }
static void check(S& s, mod const& m) {
  S const& c = s;
  VS_CHECKM(s.size() == m.n, "size() is the number of characters");
  VS_CHECKM(s.empty() == (m.n == 0), "empty()");
  bool same = true;
  for (unsigned i = 0; i < m.n; ++i) same &= c[i] == m.a[i] && c.data()[i] == m.a[i];
  VS_CHECKM(same, "exposes exactly the given characters");
  VS_CHECKM(s.end() - s.begin() == static_cast<long>(m.n), "begin/end");
  auto v = s.view();
  VS_CHECKM(v.size() == m.n && (m.n == 0 || v.data() == c.data()), "view()");
#ifdef CSTR
  if (m.own || m.n != 0) { VS_CHECKM(s.c_str()[m.n] == CH(0), "terminating zero behind the characters"); }
#endif
}
static bool less(CH x, CH y) { return std::char_traits<CH>::lt(x, y); }
static void ulex(CH const* a, unsigned n, CH const* b, unsigned m, bool& eq, bool& lt) {
  eq = n == m; lt = false; bool dec = false;
  for (unsigned i = 0; i < n && i < m; ++i) { bool l, g;
    if (sizeof(CH) == 1) { l = static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]); g = static_cast<unsigned char>(b[i]) < static_cast<unsigned char>(a[i]); }
    else { l = a[i] < b[i]; g = b[i] < a[i]; }
    if (!dec) lt = l; dec |= l | g; eq &= !(l | g); }
  if (!dec) lt = n < m;
}
template <typename A, typename B> static void cmp(A const& a, B const& b, bool eq, bool lt) {
  VS_CHECKM((a == b) == eq, "operator=="); VS_CHECKM((a != b) == !eq, "operator!="); VS_CHECKM((a < b) == lt, "operator<");
  VS_CHECKM((a <= b) == (lt || eq), "operator<="); VS_CHECKM((a > b) == !(lt || eq), "operator>"); VS_CHECKM((a >= b) == !lt, "operator>=");
}
static bool prefix(CH const* a, unsigned n, CH const* b, unsigned m, bool back) {
  if (m > n) return false;
  bool r = true;
  for (unsigned i = 0; i < m; ++i) r &= (back ? a[n - m + i] : a[i]) == b[i];
  return r;
}
struct state { S s[2]; mod m[2]; };
static void step(state& st) {
  unsigned w = vs::pick(SECOND + 1, "which");
  unsigned op = vs::pick(19, "op");
  vs_assume(((OPS >> op) & 1U) != 0U);
  auto& s = st.s[w]; auto& m = st.m[w]; auto& o = st.s[1 - w]; auto& om = st.m[1 - w];
  switch (op) {
    case 0: { auto b = fresh(); s.set_owning(b.p, b.n); set(m, b.p, b.n); m.own = true; break; }
    case 1: { auto b = fresh(); s.set_non_owning(b.p, b.n); set(m, b.p, b.n); m.own = false;
#ifdef CSTR
              VS_CHECKM(b.n == 0 || s.data() == b.p, "a view refers to the given characters");
#endif
              break; }
#if OWN != 2
    case 2: { auto b = fresh(); s = SV{b.p, b.n}; set(m, b.p, b.n); m.own = OWN; break; }
    case 3: { auto b = fresh(true); s = b.p; set(m, b.p, b.n); m.own = OWN; break; }
    case 4: { auto b = fresh(); s = std::basic_string<CH>{b.p, b.n}; if (OWN == 1) { set(m, b.p, b.n); m.own = true; } else { s.reset(); m.n = 0; m.own = true; } break; }
#endif
    case 5: s = o; m = om; break;
    case 6: s = std::move(o); m = om; o.reset(); om.n = 0; om.own = true; break;
    case 7: { S c{s}; check(c, m); o = c; om = m; break; }
    case 8: { S c{std::move(s)}; check(c, m); s.reset(); om = m; m.n = 0; m.own = true; o = std::move(c); break; }
    case 9: s.reset(); m.n = 0; m.own = true; break;
    case 10: { auto& self = s; s = self; break; }
    case 11: { // assignment from a part of itself
      unsigned i = m.n == 0 ? 0 : vs::pick(2, "i") * (m.n / 2);
      if (m.own) { s.set_owning(s.data() + i, m.n - i); } else { s.set_non_owning(s.data() + i, m.n - i); }
      set(m, m.a + i, m.n - i); break; }
    case 12: { std::swap(s, o); mod t = m; m = om; om = t; break; }
    case 13: { bool eq, lt; ulex(m.a, m.n, om.a, om.n, eq, lt); cmp(s, o, eq, lt); break; }
    case 14: { auto b = fresh(); bool eq, lt; ulex(m.a, m.n, b.p, b.n, eq, lt); cmp(s, SV{b.p, b.n}, eq, lt); ulex(b.p, b.n, m.a, m.n, eq, lt); cmp(SV{b.p, b.n}, s, eq, lt); break; }
    case 15: { auto b = fresh(true); bool eq, lt; ulex(m.a, m.n, b.p, b.n, eq, lt); cmp(s, static_cast<CH const*>(b.p), eq, lt); ulex(b.p, b.n, m.a, m.n, eq, lt); cmp(static_cast<CH const*>(b.p), s, eq, lt); break; }
    case 16: { vs_assume(m.n != 0 && m.own); unsigned i = vs::pick(2, "i") * (m.n - 1); auto c = vs::sym<CH>("w"); vs_assume(c != CH(0)); s[i] = c; m.a[i] = c; break; }
#ifndef CSTR
    case 17: { vs_assume(m.n != 0); unsigned p = vs::pick(3, "p"); p = p == 0 ? 0 : p == 1 ? m.n / 2 : m.n; unsigned n = vs::pick(3, "n"); n = n == 0 ? 0 : n == 1 ? 1 : m.n - p; vs_assume(p + n <= m.n);
               bool inl = true; // erase on an inline string with embedded zeros keeps its heap representation
               s.erase(p, n); for (unsigned i = p; i + n < m.n; ++i) m.a[i] = m.a[i + n]; m.n -= n; if (!m.own) m.own = true; (void)inl;
               break; }
    case 18: { auto b = fresh(); SV v{b.p, b.n};
               VS_CHECKM(s.starts_with(v) == prefix(m.a, m.n, b.p, b.n, false), "starts_with(view)"); VS_CHECKM(s.ends_with(v) == prefix(m.a, m.n, b.p, b.n, true), "ends_with(view)");
               VS_CHECKM(s.starts_with(b.p, b.n) == prefix(m.a, m.n, b.p, b.n, false), "starts_with(ptr,len)"); VS_CHECKM(s.ends_with(b.p, b.n) == prefix(m.a, m.n, b.p, b.n, true), "ends_with(ptr,len)");
               auto c = vs::sym<CH>("w"); VS_CHECKM(s.starts_with(c) == (m.n != 0 && m.a[0] == c), "starts_with(char)"); VS_CHECKM(s.ends_with(c) == (m.n != 0 && m.a[m.n - 1] == c), "ends_with(char)");
               VS_CHECKM(s.starts_with(o) == prefix(m.a, m.n, om.a, om.n, false), "starts_with(string)"); VS_CHECKM(s.ends_with(o) == prefix(m.a, m.n, om.a, om.n, true), "ends_with(string)"); break; }
#endif
    default: vs_assume(false); break;
  }
}
void vs_main() {
  unsigned long heap0 = vs_heap_live();
  {
    state st;
    for (unsigned w = 0; w <= SECOND; ++w) {
#if OWN == 0
      if (vs::flip("init")) { auto b = fresh(); st.s[w].set_non_owning(b.p, b.n); set(st.m[w], b.p, b.n); st.m[w].own = false; }
#else
      if (vs::flip("init")) { auto b = fresh(); st.s[w].set_owning(b.p, b.n); set(st.m[w], b.p, b.n); }
#endif
      check(st.s[w], st.m[w]);
    }
    for (unsigned i = 0; i < NOPS; ++i) {
      step(st);
      for (unsigned w = 0; w <= SECOND; ++w) check(st.s[w], st.m[w]);
    }
    for (unsigned j = 0; j < st.m[0].n; ++j) vs::obs(st.s[0][j]);
    vs_reach("end");
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
}
