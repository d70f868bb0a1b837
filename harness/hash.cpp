// C15/C16: model based histories over two hash maps (or sets); the hash of every key is symbolic or adversarial.
// NS, KIND(0 map,1 set), NKEYS, NOPS, PRE (number of keys inserted first: pick 0..PRE or exactly PRE with PREX), HM hash mode, LIVE
#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"
#include "seq.h"
#ifndef POS
#define POS 2
#endif
#ifndef NH2
#define NH2 1
#endif
#ifndef OPS
#define OPS 0xffffffffU
#endif
using K = vs::tracked;
static cista::hash_t hash_of[NKEYS + 16];
static bool todo[NKEYS + 16];
struct hasher {
  cista::hash_t operator()(K const& k) const {
    auto const i = k.get();
    if (todo[i]) {
      // decided on first use: position bits below POS, control byte bits either every value or one of three (equal, off by one, far)
      todo[i] = false;
#ifdef SYMH2
      auto const h2 = vs::sym<unsigned char>("h2") & 0x7FU;
#else
      static constexpr unsigned c[] = {2U, 3U, 0x7FU};
      auto const h2 = c[vs::pick(NH2, "h2")];
#endif
      hash_of[i] = (static_cast<cista::hash_t>(vs::pick(POS, "pos")) << 7U) | h2;
    }
    return hash_of[i];
  }
  template <typename T> static hasher create() { return {}; }
};
struct eq { bool operator()(K const& a, K const& b) const { return a.get() == b.get(); } };
#if KIND == 0
using V = vs::tracked;
using tab = cista::NS::hash_map<K, V, hasher, eq>;
#else
using tab = cista::NS::hash_set<K, hasher, eq>;
#endif
struct mod { bool in[NKEYS] = {}; unsigned char v[NKEYS] = {}; unsigned n = 0; };
static K key(unsigned k) { return K{static_cast<unsigned char>(k)}; }
static unsigned key_of(tab::entry_t const& e) {
#if KIND == 0
  return e.first.get();
#else
  return e.get();
#endif
}
static unsigned char val_of(tab::entry_t const& e) {
#if KIND == 0
  return e.second.get();
#else
  return e.get();
#endif
}
static void check(tab& t, mod const& m) {
  tab const& c = t;
  VS_CHECKM(t.size() == m.n, "size() is the number of keys");
  VS_CHECKM(t.empty() == (m.n == 0), "empty()");
  bool seen[NKEYS] = {};
  unsigned cnt = 0;
  for (auto& e : t) {
    unsigned k = key_of(e);
    VS_CHECKM(k < NKEYS && m.in[k], "iteration visits only contained keys");
    VS_CHECKM(!seen[k], "iteration visits each key once");
    seen[k] = true;
    VS_CHECKM(val_of(e) == (KIND == 0 ? m.v[k] : k), "iteration yields the latest value");
    ++cnt;
  }
  VS_CHECKM(cnt == m.n, "iteration visits every key");
  for (unsigned k = 0; k < NKEYS; ++k) {
    auto it = c.find(key(k));
    VS_CHECKM((it != c.end()) == m.in[k], "find reports exactly the contained keys");
    if (m.in[k]) {
      VS_CHECKM(key_of(*it) == k, "find returns the entry of the key");
      VS_CHECKM(val_of(*it) == (KIND == 0 ? m.v[k] : k), "find returns the latest value");
    }
  }
}
// Move assignment to a non-empty table leaks it (recorded finding); elsewhere the target is cleared first so that other leaks show.
static void move_to(tab& to, tab& from) {
#if defined(LIVE) && !defined(MOVE_LEAK)
  to.clear();
#endif
  to = std::move(from);
}
struct state { tab t[2]; mod m[2]; };
static void put(tab& t, mod& m, unsigned k, unsigned char v) {
#if KIND == 0
  auto r = t.emplace(key(k), V{v});
#else
  auto r = t.emplace(key(k));
#endif
  VS_CHECKM(r.second == !m.in[k], "emplace reports whether the key is new");
  VS_CHECKM(key_of(*r.first) == k, "emplace returns the entry");
  if (!m.in[k]) { m.in[k] = true; m.v[k] = v; m.n++; }
}
static void step(state& s) {
  unsigned w = vs::pick(SECOND + 1, "which");
  unsigned op = vs::pick(17, "op");
  vs_assume(((OPS >> op) & 1U) != 0U);
  auto& t = s.t[w]; auto& m = s.m[w]; auto& o = s.t[1 - w]; auto& om = s.m[1 - w];
  switch (op) {
    case 0: { unsigned k = vs::pick(NKEYS, "k"); put(t, m, k, vs::sym<unsigned char>("v")); break; }
    case 1: { unsigned k = vs::pick(NKEYS, "k"); auto r = t.erase(key(k)); VS_CHECKM(r == (m.in[k] ? 1U : 0U), "erase reports the number of removed entries"); if (m.in[k]) { m.in[k] = false; m.n--; } break; }
    case 2: { vs_assume(m.n != 0); auto it = t.begin(); for (unsigned i = vs::pick(m.n, "i"); i; --i) ++it; unsigned k = key_of(*it); t.erase(it); m.in[k] = false; m.n--; break; }
    case 3: t.clear(); m = mod{}; break;
    case 4: t.rehash(); break;
    case 5: { tab c{t}; check(c, m); move_to(o, c); om = m; break; }
    case 6: { tab c{std::move(t)}; check(c, m); om = m; m = mod{}; move_to(o, c); break; }
    case 7: o = t; om = m; break;
    case 8: move_to(o, t); om = m; m = mod{}; break;
    case 9: { std::swap(t, o); auto x = m; m = om; om = x; break; }
    case 10: { bool e = m.n == om.n; for (unsigned k = 0; k < NKEYS; ++k) e &= m.in[k] == om.in[k] && (!m.in[k] || KIND != 0 || m.v[k] == om.v[k]);
               VS_CHECKM((t == o) == e, "operator== holds exactly for equal contents"); VS_CHECKM((o == t) == e, "operator== is symmetric"); break; }
#if KIND == 0
    case 11: { unsigned k = vs::pick(NKEYS, "k"); auto v = vs::sym<unsigned char>("v"); auto kk = key(k); t[kk] = V{v}; if (!m.in[k]) { m.in[k] = true; m.n++; } m.v[k] = v; break; }
    case 12: { unsigned k = vs::pick(NKEYS, "k"); auto r = static_cast<tab const&>(t).get(key(k)); VS_CHECKM(r.has_value() == m.in[k] && (!m.in[k] || r->get() == m.v[k]), "get()");
               bool th = false; try { VS_CHECKM(t.at(key(k)).get() == m.v[k], "at() yields the value"); } catch (std::out_of_range const&) { th = true; } VS_CHECKM(th == !m.in[k], "at() reports missing keys"); break; }
    case 13: { unsigned k = vs::pick(NKEYS, "k"), k2 = vs::pick(NKEYS, "k2"); auto v = vs::sym<unsigned char>("v"); tab::entry_t e[2] = {{key(k), V{v}}, {key(k2), V{v}}}; t.insert(static_cast<tab::entry_t const*>(e), static_cast<tab::entry_t const*>(e + 2));
               if (!m.in[k]) { m.in[k] = true; m.n++; m.v[k] = v; } if (!m.in[k2]) { m.in[k2] = true; m.n++; m.v[k2] = v; } break; }
    case 14: { unsigned k = vs::pick(NKEYS, "k"); auto v = vs::sym<unsigned char>("v"); tab::entry_t e{key(k), V{v}}; auto r = t.insert(e); VS_CHECKM(r.second == !m.in[k] && key_of(*r.first) == k, "insert result"); if (!m.in[k]) { m.in[k] = true; m.n++; m.v[k] = v; } break; }
    case 15: { // key argument aliases a stored value
               vs_assume(m.n != 0); unsigned k = vs::pick(NKEYS, "k"), k2 = vs::pick(NKEYS, "k2"); vs_assume(m.in[k]); t.at(key(k)) = V{static_cast<unsigned char>(k2)}; m.v[k] = static_cast<unsigned char>(k2);
               auto v = vs::sym<unsigned char>("v"); t[t.at(key(k))] = V{v}; if (!m.in[k2]) { m.in[k2] = true; m.n++; } m.v[k2] = v; break; }
    case 16: { auto v = vs::sym<unsigned char>("v"), v2 = vs::sym<unsigned char>("v2"); unsigned k = vs::pick(NKEYS, "k"); tab x{{key(k), V{v}}, {key(0), V{v2}}}; move_to(t, x); m = mod{}; m.in[k] = true; m.v[k] = v; m.n = 1; if (k) { m.in[0] = true; m.v[0] = v2; m.n = 2; } break; }
#endif
    default: vs_assume(false); break;
  }
}
void vs_main() {
  for (unsigned k = 0; k < NKEYS; ++k) {
#if HM == 0
    todo[k] = true;
#elif HM == 1
    hash_of[k] = 5U;
#elif HM == 2
    hash_of[k] = (static_cast<cista::hash_t>(k) << 7U) ^ k;
#elif HM == 3
    hash_of[k] = (static_cast<cista::hash_t>(k) << 7U) ^ 3U;       // same control byte, neighbouring groups
#elif HM == 4
    todo[k] = k < SYMKEYS;
    hash_of[k] = ((static_cast<cista::hash_t>(k) * 3U) << 7U) ^ (k & 1U);
#endif
  }
  long live0 = vs::tracked::live;
  unsigned long heap0 = vs_heap_live();
  {
    state s;
#ifdef PREX
    unsigned pre = PRE;
#else
    unsigned pre = vs::pick(PRE + 1, "pre");
#endif
    for (unsigned k = 0; k < pre; ++k) put(s.t[0], s.m[0], NKEYS - 1 - k, static_cast<unsigned char>(k));
#ifdef PREDEL
    for (unsigned k = 0; k < pre; ++k) if (k < PREDEL && vs::flip("del")) { VS_CHECKM(s.t[0].erase(key(NKEYS - 1 - k)) == 1, "erase"); s.m[0].in[NKEYS - 1 - k] = false; s.m[0].n--; }
#endif
#ifdef REFILL
    // keys that were not in the table before take the places of the erased ones
    for (unsigned k = 0, n = vs::pick(REFILL + 1, "refill"); k < n; ++k) { put(s.t[0], s.m[0], k, static_cast<unsigned char>(k)); if (NOPS == 0) check(s.t[0], s.m[0]); }
#endif
    check(s.t[0], s.m[0]);
    for (unsigned i = 0; i < NOPS; ++i) {
      step(s);
      for (unsigned w = 0; w <= SECOND; ++w) check(s.t[w], s.m[w]);
#ifdef LIVE
      VS_CHECKM(vs::tracked::live - live0 == static_cast<long>((s.m[0].n + s.m[1].n) * (KIND == 0 ? 2 : 1)), "exactly the held entries are alive");
#endif
    }
    for (auto& e : s.t[0]) vs::obs(key_of(e));
    vs_reach("end");
  }
#ifdef LIVE
  VS_CHECKM(vs::tracked::live == live0, "every entry constructed was destroyed exactly once");
  VS_CHECKM(vs_heap_live() == heap0, "all memory was released");
#endif
}
