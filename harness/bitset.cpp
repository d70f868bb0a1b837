// C19: bitset<N> against an array of bools, all contents
#include "cista/containers/bitset.h"
#include "vs.h"
constexpr unsigned N = SIZE;
using B = cista::bitset<N>;
constexpr unsigned NB = B::num_blocks;
struct bits { bool a[N]; };
static bits get(B const& b) { bits m; for (unsigned i = 0; i < N; ++i) m.a[i] = b.test(i); return m; }
static bool eq(bits const& x, bits const& y) { bool r = true; for (unsigned i = 0; i < N; ++i) r &= x.a[i] == y.a[i]; return r; }
static B fresh(char const* name) { B b; std::uint64_t w[NB]; vs_sym(w, sizeof(w), name); for (unsigned i = 0; i < NB; ++i) b.blocks_[i] = w[i]; return b; }  // including the bits beyond the size
static bits model(B const& b) { bits m; for (unsigned i = 0; i < N; ++i) m.a[i] = ((b.blocks_[i / 64U] >> (i % 64U)) & 1U) != 0; return m; }
static void check(B const& b, bits const& m) { VS_CHECKM(eq(get(b), m), "the bits are those of the model"); }
void vs_main() {
  B x = fresh("x");
  bits m = model(x);
  check(x, m);
  switch (vs::pick(13, "op")) {
    case 0: { unsigned i = vs::pick(N, "i"); bool v = vs::symb("v"); x.set(i, v); m.a[i] = v; check(x, m); unsigned j = vs::pick(2, "j") * (N - 1); x.set(j); m.a[j] = true; check(x, m); VS_CHECKM(x[j] && x[i] == m.a[i], "operator[]"); break; }
    case 1: { unsigned s = vs::pick(N + 3, "shift"); B y = x << s; bits r; for (unsigned i = 0; i < N; ++i) r.a[i] = i >= s && m.a[i - s]; check(y, r); B z = x; auto& ref = z <<= s; VS_CHECKM(&ref == &z, "<<= returns the object"); check(z, r); check(x, m);
              // bits shifted out never come back
              unsigned back = vs::pick(2, "back") ? s : 1U; B w = y >> back; bits q; for (unsigned i = 0; i < N; ++i) q.a[i] = i + back < N && r.a[i + back]; check(w, q); break; }
    case 2: { unsigned s = vs::pick(N + 3, "shift"); B y = x >> s; bits r; for (unsigned i = 0; i < N; ++i) r.a[i] = i + s < N && m.a[i + s]; check(y, r); B z = x; auto& ref = z >>= s; VS_CHECKM(&ref == &z, ">>= returns the object"); check(z, r);
              unsigned back = vs::pick(2, "back") ? s : 1U; B w = y << back; bits q; for (unsigned i = 0; i < N; ++i) q.a[i] = i >= back && r.a[i - back]; check(w, q); break; }
    case 3: { B y = fresh("y"); bits n = model(y); bits a, o, e; for (unsigned i = 0; i < N; ++i) { a.a[i] = m.a[i] & n.a[i]; o.a[i] = m.a[i] | n.a[i]; e.a[i] = m.a[i] != n.a[i]; }
              check(x & y, a); check(x | y, o); check(x ^ y, e); B z = x; z &= y; check(z, a); z = x; z |= y; check(z, o); z = x; z ^= y; check(z, e); check(x, m); check(y, n); break; }
    case 4: { B y = fresh("y"); bits n = model(y); bool e = eq(m, n), lt = false, dec = false; for (unsigned i = N; i-- > 0;) { lt |= !dec & !m.a[i] & n.a[i]; dec |= m.a[i] != n.a[i]; }
              VS_CHECKM((x == y) == e && (x != y) == !e, "equality"); VS_CHECKM((x < y) == lt && (x >= y) == !lt, "less"); VS_CHECKM((x > y) == (!lt && !e) && (x <= y) == (lt || e), "greater"); break; }
    case 5: { bool any = false; for (unsigned i = 0; i < N; ++i) any |= m.a[i]; VS_CHECKM(x.any() == any && x.none() == !any, "any/none"); break; }
    case 6: { std::size_t c = 0; for (unsigned i = 0; i < N; ++i) c += m.a[i]; VS_CHECKM(x.count() == c, "count"); break; }
    case 7: { bits r; for (unsigned i = 0; i < N; ++i) r.a[i] = !m.a[i]; check(~x, r); check(~~x, m); break; }
    case 8: { x.reset(); bits r{}; check(x, r); VS_CHECKM(x.none() && x.count() == 0 && x == B{}, "reset"); B y = B::max(); for (auto& v : r.a) v = true; check(y, r); VS_CHECKM(y.count() == N && y == ~x, "max"); break; }
    case 9: { for (unsigned k = 0; k < 4; ++k) VS_CHECKM(!x.test(k == 3 ? ~std::size_t{0} : N + 31U * k), "test beyond the size"); VS_CHECKM(x.size() == N, "size"); break; }
    case 10: { // few free bits: iteration and conversion
               B y; bits n{}; constexpr unsigned p[] = {0, N / 2, N - 1, N > 64 ? 63 : 0, N > 64 ? 64 : 0}; for (auto i : p) { bool v = vs::flip("bit"); y.set(i, v); n.a[i] = v; }
               for (unsigned k = 0; k < NB * 64U - N; ++k) { if (k < 1 || k > NB * 64U - N - 2U) { y.blocks_[NB - 1] |= std::uint64_t{1} << ((N + k) % 64U); } }
               bits seen{}; std::size_t last = 0; bool first = true;
               y.for_each_set_bit([&](std::size_t const i) { VS_CHECKM(i < N && n.a[i] && !seen.a[i] && (first || last < i), "for_each_set_bit: set bits only, ascending, once"); seen.a[i] = true; first = false; last = i; });
               VS_CHECKM(eq(seen, n), "for_each_set_bit visits every set bit");
               auto const s = y.to_string(); VS_CHECKM(s.size() == N, "to_string size"); bool ok = true; for (unsigned i = 0; i < N; ++i) ok &= s[i] == (n.a[N - 1 - i] ? '1' : '0'); VS_CHECKM(ok, "to_string");
               VS_CHECKM(B{s} == y, "construction from to_string"); break; }
    case 11: { char s[N + 2]; unsigned len = vs::pick(4, "len"); len = len == 0 ? 0 : len == 1 ? N / 2 : len == 2 ? N : N + 2; for (unsigned i = 0; i < len; ++i) s[i] = '0';
               for (unsigned i = 0; i < len; ++i) if (i == 0 || i + 1 == len || i == len / 2 || i + 64 == len || i + 65 == len) s[i] = vs::flip("c") ? '1' : '0';
               bits r{}; for (unsigned i = 0; i < N && i < len; ++i) r.a[i] = s[len - 1 - i] == '1'; B y{std::string_view{s, len}}; check(y, r); break; }
    case 12: { B y{x}; check(y, m); x.set(0, !m.a[0]); check(y, m); y = x; VS_CHECKM(y == x, "copies"); break; }
    default: break;
  }
  vs::obs(x.blocks_[0]);
  vs_reach("end");
}
