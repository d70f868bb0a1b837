// C40: every allocation of one operation in a history may fail (and all later ones of that operation with it).
// KIND selects the container, NS raw/offset, ELEM 0 bytes / 1 elements that allocate themselves, INIT, MAXF
#include "cista/containers/vector.h"
#include "cista/containers/string.h"
#include "cista/containers/cstring.h"
#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"
#include "cista/containers/unique_ptr.h"
#include "cista/containers/optional.h"
#include "cista/containers/variant.h"
#include "cista/containers/vecvec.h"
#include "cista/containers/nvec.h"
#include "cista/containers/bitvec.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#if KIND == 11
#include <filesystem>
#include "cista/containers.h"
#endif
#include "seq.h"
namespace data = cista::NS;

// owns one heap byte; copying allocates, moving takes over
struct owner {
  unsigned char* p{nullptr};
  owner() = default;
  explicit owner(unsigned char v) : p{new unsigned char{v}} {}
  owner(owner const& o) : p{o.p ? new unsigned char{*o.p} : nullptr} {}
  owner(owner&& o) noexcept : p{o.p} { o.p = nullptr; }
  owner& operator=(owner const& o) { if (this != &o) { auto q = o.p ? new unsigned char{*o.p} : nullptr; delete p; p = q; } return *this; }
  owner& operator=(owner&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~owner() { delete p; }
  unsigned char get() const { return p ? *p : 0; }
  friend bool operator==(owner const& a, owner const& b) { return a.get() == b.get(); }
  friend bool operator!=(owner const& a, owner const& b) { return a.get() != b.get(); }
};
template <> struct elem<owner> {
  using raw = unsigned char;
  static raw fresh(char const* n) { return vs::sym<unsigned char>(n); }
  static owner mk(raw r) { return owner{r}; }
  static raw get(owner const& t) { return t.get(); }
};
#if ELEM == 1
using T = owner;
#else
using T = unsigned char;
#endif
using E = elem<T>;
using R = E::raw;
// Runs f with the n-th allocation (and every later one) failing. True: f reported the failure.
template <typename F> static bool failing(F&& f) {
  unsigned n = vs::pick(MAXF + 1, "fail");
  bool thrown = false;
  vs_alloc_fail_after(static_cast<long>(n));
  try { f(); } catch (std::bad_alloc const&) { thrown = true; }
  vs_alloc_fail_after(-1);
  if (thrown) vs_reach("failed"); else vs_reach("done");
  return thrown;
}
static bool prefix(seq<R> const& got, seq<R> const& want) {
  bool r = got.n >= want.n;
  for (unsigned i = 0; i < want.n && i < got.n; ++i) r &= got.a[i] == want.a[i];
  return r;
}
static bool same(seq<R> const& a, seq<R> const& b) { return a.n == b.n && prefix(a, b); }

#if KIND == 0  // ---- vector
using vec = data::vector<T>;
static seq<R> read(vec const& v) { seq<R> m; for (auto const& e : v) m.push(E::get(e)); return m; }
static void go() {
  vec v, o;
  unsigned n = vs::pick(INIT + 1, "n");
  for (unsigned i = 0; i < n; ++i) v.push_back(E::mk(E::fresh("i")));
  unsigned k = vs::pick(INIT + 1, "m");
  for (unsigned i = 0; i < k; ++i) o.push_back(E::mk(E::fresh("j")));
  for (unsigned step = 0; step < NOPS; ++step) {
    auto before = read(v), m = before, om = read(o);
    auto x = E::fresh("x"), y = E::fresh("y");
    T t = E::mk(x);
    T a[2] = {E::mk(x), E::mk(y)};
    T const* b = a;
    unsigned op = vs::pick(13, "op");
    unsigned q = op == 3 || op == 6 || op == 7 || op == 8 ? vs::pick(before.n + 1, "pos") : 0;
    unsigned c = op == 4 || op == 5 || op == 9 || op == 6 ? vs::pick(6, "size") : 0;
    enum { STRONG, PREFIX, VALID } g = STRONG;
    bool trivial = std::is_trivially_copyable<T>::value;
    bool thrown = failing([&] {
      switch (op) {
        case 0: m.push(x); v.push_back(static_cast<T const&>(t)); break;
        case 1: m.push(x); v.push_back(std::move(t)); break;
        case 2: m.push(x); v.emplace_back(static_cast<T const&>(t)); break;
        case 3: m.insert(q, x); v.insert(v.begin() + q, static_cast<T const&>(t)); break;
        case 4: g = trivial ? STRONG : PREFIX; if (c < m.n) c = m.n; m.resize(c, R{}); v.resize(c); break;
        case 5: g = trivial ? STRONG : PREFIX; if (c < m.n) c = m.n; m.resize(c, x); v.resize(c, t); break;
        case 6: g = trivial ? STRONG : PREFIX; for (unsigned i = 0; i < c; ++i) m.insert(q, x); v.insert(v.begin() + q, static_cast<std::size_t>(c), t); break;
        case 7: g = trivial ? STRONG : PREFIX; m.insert(q, x); m.insert(q + 1, y); v.insert(v.begin() + q, b, b + 2); break;
        case 8: g = PREFIX; m.insert(q, x); m.insert(q + 1, y); v.insert(v.begin() + q, input_it<T>{b}, input_it<T>{b + 2}); break;
        case 9: v.reserve(c); break;
        case 10: g = trivial ? STRONG : VALID; m = om; v = o; break;
        case 11: g = VALID; m.clear(); m.push(x); m.push(y); v.set(b, b + 2); break;
        case 12: { vec copy{v}; VS_CHECKM(same(read(copy), before), "a copy has the same elements"); vec two(b, b + 2); vec init{static_cast<T const&>(a[0]), static_cast<T const&>(a[1])}; vec sized(2U, static_cast<T const&>(t)); break; }
        default: break;
      }
    });
    auto now = read(v);
    if (!thrown) VS_CHECKM(same(now, m), "a completed operation has its normal effect");
    else if (g == STRONG) VS_CHECKM(same(now, before), "after a failed allocation the vector has its previous elements");
    else if (g == PREFIX) VS_CHECKM(prefix(now, before), "after a failed allocation the previous elements are kept");
    VS_CHECKM(same(read(o), om), "other vectors are not affected");
    v.push_back(E::mk(y));
    now.push(y);
    VS_CHECKM(same(read(v), now), "the vector is usable after a failed allocation");
    v.pop_back();
  }
}
#elif KIND == 1 || KIND == 2  // ---- string / cstring
#if KIND == 1
using S = data::string;
#else
using S = data::cstring;
#endif
using mod = std::string_view;
static char txt[4][24];
static void go() {
  static char const base[] = "0123456789abcdefghijkl";
  static constexpr unsigned lens[] = {0, 3, 15, 16, 20};
  std::string_view sv[4];
  for (int i = 0; i < 4; ++i) {
    unsigned l = lens[vs::pick(5, "len")];
    std::memcpy(txt[i], base, sizeof(base));
    if (l) { txt[i][0] = vs::sym<char>("c"); vs_assume(txt[i][0] != 0); }
    txt[i][l] = 0;
    sv[i] = {txt[i], l};
  }
  S s{sv[0], typename S::owning_t{}}, o{sv[1], typename S::owning_t{}};
  auto m = sv[0];
  unsigned op = vs::pick(7, "op");
  bool thrown = failing([&] {
    switch (op) {
      case 0: s.set_owning(sv[2].data(), static_cast<unsigned>(sv[2].size())); m = sv[2]; break;
      case 1: s = o; m = sv[1]; break;
      case 2: s = sv[2]; m = sv[2]; break;
      case 3: s = sv[2].data(); m = sv[2]; break;
      case 4: { S c{s}; VS_CHECKM(c.view() == sv[0], "a copy has the same characters"); break; }
      case 5: { S c{sv[2], typename S::owning_t{}}; VS_CHECKM(c.view() == sv[2], "construction"); break; }
      case 6: { s = S{sv[2], typename S::owning_t{}}; m = sv[2]; break; }
      default: break;
    }
  });
  if (thrown) m = sv[0];
  VS_CHECKM(s.size() == m.size() && s.view() == m, "after a failed allocation the string has its previous characters");
  VS_CHECKM(o.view() == sv[1], "other strings are not affected");
  s = sv[3];
  VS_CHECKM(s.view() == sv[3], "the string is usable after a failed allocation");
}
#elif KIND == 3 || KIND == 4  // ---- hash map / set (value at most 16 keys)
struct hasher { cista::hash_t operator()(owner const& k) const { return static_cast<cista::hash_t>(k.get()) << (COLL ? 20U : 7U); } cista::hash_t operator()(unsigned char k) const { return static_cast<cista::hash_t>(k) << (COLL ? 20U : 7U); }
  template <typename> static hasher create() { return {}; } };
struct eq { template <typename A, typename B> bool operator()(A const& a, B const& b) const { return a == b; } };
#if KIND == 3
using tab = data::hash_map<T, T, hasher, eq>;
#else
using tab = data::hash_set<T, hasher, eq>;
#endif
constexpr unsigned NK = INIT + 2;
struct hmod { bool in[NK] = {}; unsigned char v[NK] = {}; unsigned n = 0; };
static void put(tab& t, unsigned k, unsigned char v) {
#if KIND == 3
  t.emplace(E::mk(static_cast<unsigned char>(k)), E::mk(v));
#else
  (void)v; t.emplace(E::mk(static_cast<unsigned char>(k)));
#endif
}
static void check(tab& t, hmod const& m, char const* what) {
  bool ok = t.size() == m.n;
  unsigned cnt = 0;
  for (auto const& e : t) {
#if KIND == 3
    unsigned k = E::get(e.first);
    ok &= k < NK && m.in[k < NK ? k : 0] && E::get(e.second) == m.v[k < NK ? k : 0];
#else
    unsigned k = E::get(e);
    ok &= k < NK && m.in[k < NK ? k : 0];
#endif
    ++cnt;
  }
  ok &= cnt == m.n;
  for (unsigned k = 0; k < NK; ++k) ok &= (t.find(E::mk(static_cast<unsigned char>(k))) != t.end()) == m.in[k];
  vs_assert(ok, what);
}
static void go() {
  tab t, o;
  hmod m, om;
  unsigned n = vs::pick(INIT + 1, "n");
  for (unsigned k = 0; k < n; ++k) { auto v = vs::sym<unsigned char>("v"); put(t, k, v); m.in[k] = true; m.v[k] = v; m.n++; }
  if (n != 0 && vs::flip("erased")) { t.erase(E::mk(0)); m.in[0] = false; m.n--; }
  put(o, 1, 7); om.in[1] = true; om.v[1] = 7; om.n = 1;
  for (unsigned step = 0; step < NOPS; ++step) {
    unsigned op = vs::pick(6, "op"), k = vs::pick(NK, "k");
    auto v = vs::sym<unsigned char>("x");
    auto key = E::mk(static_cast<unsigned char>(k)), val = E::mk(v);
    auto after = m;
    bool valid_only = false;
    if (op <= 1) { if (!m.in[k]) { after.in[k] = true; after.v[k] = v; after.n++; } }
    else if (op == 2) { after.v[k] = v; if (!m.in[k]) { after.in[k] = true; after.n++; } }
    bool thrown = failing([&] {
      switch (op) {
#if KIND == 3
        case 0: t.emplace(static_cast<T const&>(key), static_cast<T const&>(val)); break;
        case 1: t.emplace(std::move(key), std::move(val)); break;
        case 2: t[static_cast<T const&>(key)] = std::move(val); break;
#else
        case 0: t.emplace(static_cast<T const&>(key)); break;
        case 1: t.emplace(std::move(key)); break;
        case 2: t.insert(static_cast<T const&>(key)); break;
#endif
        case 3: { tab c{t}; check(c, m, "a copy has the same entries"); break; }
        case 4: valid_only = true; t = o; after = om; break;
        case 5: t.rehash(); break;
        default: break;
      }
    });
    if (!thrown) { m = after; check(t, m, "a completed operation has its normal effect"); }
    else if (!valid_only) check(t, m, "after a failed allocation the table has its previous entries");
    else { t.clear(); m = hmod{}; }
    check(o, om, "other tables are not affected");
  }
  for (unsigned k = 0; k < NK; ++k) { auto v = vs::sym<unsigned char>("w"); put(t, k, v); if (!m.in[k]) { m.in[k] = true; m.v[k] = v; m.n++; } }
  check(t, m, "the table is usable after a failed allocation");
}
#elif KIND == 5  // ---- unique pointer, optional, variant
static void go() {
  {
    auto x = vs::sym<unsigned char>("x"), y = vs::sym<unsigned char>("y");
    auto u = data::make_unique<owner>(x);
    failing([&] { u = data::make_unique<owner>(y); x = y; });
    VS_CHECKM(u.get() != nullptr && u->get() == x, "a unique pointer keeps its object when a new one cannot be allocated");
  }
  {
    auto x = vs::sym<unsigned char>("x"), y = vs::sym<unsigned char>("y");
    cista::optional<owner> a{owner{x}}, b{owner{y}};
    bool thrown = failing([&] { if (vs::flip("assign")) { a = b; x = y; } else { cista::optional<owner> c{b}; VS_CHECKM((*c).get() == y, "copied value"); } });
    VS_CHECKM(!a.has_value() ? thrown : (*a).get() == x, "an optional holds its old or new value, or none");
    VS_CHECKM(b.has_value() && (*b).get() == y, "the source is not affected");
    a = owner{x};
    VS_CHECKM(a.has_value() && (*a).get() == x, "usable afterwards");
  }
  {
    using var = cista::variant<int, owner>;
    auto y = vs::sym<unsigned char>("y");
    var a{5}, b{owner{y}};
    unsigned op = vs::pick(3, "vop");
    bool thrown = failing([&] { if (op == 0) a = b; else if (op == 1) a.emplace<owner>(y); else { var c{b}; VS_CHECKM(cista::get<owner>(c).get() == y, "copied value"); } });
    if (!thrown) VS_CHECKM(op == 2 ? cista::get<int>(a) == 5 : cista::get<owner>(a).get() == y, "value");
    else VS_CHECKM(!a.valid() || (a.index() == 0 && cista::get<int>(a) == 5), "a variant keeps its value or holds none");
    VS_CHECKM(cista::get<owner>(b).get() == y, "the source is not affected");
    a = owner{y};
    VS_CHECKM(cista::get<owner>(a).get() == y, "usable afterwards");
  }
}
#elif KIND == 10  // ---- bitvec, flat_matrix, fws_multimap
static void go() {
  {
    data::bitvec v;
    unsigned n = vs::pick(2, "bn") * 60 + vs::pick(3, "br");
    v.resize(n);
    bool b0 = vs::symb("b0"), b1 = vs::symb("b1");
    if (n) { v.set(0, b0); v.set(n - 1, b1); if (n == 1) b0 = b1; }
    unsigned op = vs::pick(2, "bop"), to = vs::pick(2, "to") ? 130 : 64;
    bool thrown = failing([&] { if (op == 0) v.resize(to); else if (op == 1) { data::bitvec c{v}; VS_CHECKM(c == v, "copy"); } });
    unsigned now = thrown || op == 1 ? n : to;
    VS_CHECKM(v.size() == now, "after a failed allocation the bit vector has its previous size");
    for (unsigned i = 0; i < now; ++i) VS_CHECKM(v.test(i) == ((i == 0 && n != 0 && b0) || (n != 0 && i == n - 1 && b1)), "after a failed allocation the bit vector has its previous bits");
    v.resize(200); v.set(199);
    VS_CHECKM(v.size() == 200 && v.test(199) && !v.test(198), "usable afterwards");
  }
  {
    auto x = vs::sym<unsigned char>("x");
    data::flat_matrix<unsigned char> m;
    m.resize(2, 3); m(1, 2) = x;
    unsigned op = vs::pick(2, "mop");
    bool thrown = failing([&] { if (op == 0) m.resize(5, 3); else { auto c = data::make_flat_matrix<unsigned char>(3, 3, x); VS_CHECKM(c(2, 2) == x, "cell"); } });
    VS_CHECKM(m.n_rows_ == (op == 0 && !thrown ? 5U : 2U) && m.n_columns_ == 3 && m(1, 2) == x, "after a failed allocation the matrix is unchanged");
  }
  {
    data::fws_multimap<unsigned, unsigned char> m;
    unsigned char val[8]; unsigned n = 0, starts[8], keys = 0;
    starts[0] = 0;
    for (unsigned step = 0; step < 4; ++step) {
      auto x = vs::sym<unsigned char>("e");
      unsigned op = vs::pick(2, "fop");
      bool thrown = failing([&] { if (op == 0) m.push_back(x); else m.finish_key(); });
      if (!thrown) { if (op == 0) val[n++] = x; else starts[++keys] = n; }
    }
    m.finish_key(); starts[++keys] = n;
    m.finish_map();
    VS_CHECKM(m.index_size() == keys + 1, "finished keys");
    for (unsigned k = 0; k < keys; ++k) {
      auto b = m[k];
      VS_CHECKM(static_cast<unsigned>(b.size()) == starts[k + 1] - starts[k], "entries of a key");
      unsigned i = starts[k];
      for (auto const& e : b) { VS_CHECKM(e == val[i], "entry"); ++i; }
    }
  }
}
#elif KIND == 12  // ---- recorded finding: copy assignment of containers made of several parts
static void go() {
  bool ok = true;
  switch (vs::pick(3, "container")) {
    case 0: { data::bitvec a, b; a.resize(3); b.resize(70); failing([&] { a = b; }); ok = a.blocks_.size() == a.num_blocks(a.size()); break; }
    case 1: { data::flat_matrix<unsigned char> a, b; a.resize(1, 1); b.resize(3, 3); failing([&] { a = b; }); ok = a.entries_.size() == a.n_rows_ * a.n_columns_; break; }
    default: { data::vecvec<unsigned, unsigned char> a, b; a.resize(5); b.add_back_sized(3); a.add_back_sized(6); failing([&] { b = a; a.clear(); }); ok = b.bucket_starts_.empty() || b.data_.size() == b.bucket_starts_.back(); break; }
  }
  VS_CHECKM(ok, "the parts of a container agree after a copy assignment that failed for lack of memory");
}
#elif KIND == 11  // ---- spatial index
static void go() {
  using RT = data::rtree<std::uint16_t, 1, int, 2>;
  RT t;
  unsigned char p[NOPS + 1];
  bool in[NOPS + 1];
  unsigned cnt = 0;
  for (unsigned i = 0; i <= NOPS; ++i) {
    p[i] = static_cast<unsigned char>(vs::pick(4, "p"));
    RT::coord_t c{}; c[0] = p[i];
    bool thrown = false;
    if (i < NOPS) thrown = failing([&] { t.insert(c, c, static_cast<std::uint16_t>(i)); });
    else t.insert(c, c, static_cast<std::uint16_t>(i));
    in[i] = !thrown;
    cnt += !thrown;
    RT::coord_t lo{}, hi{}; lo[0] = 0; hi[0] = 3;
    unsigned char seen[NOPS + 1] = {};
    t.search(lo, hi, [&](RT::coord_t const& a, RT::coord_t const& b, std::uint16_t const& d) { VS_CHECKM(d <= i && a[0] == p[d] && b[0] == p[d], "entry"); ++seen[d]; return true; });
    for (unsigned j = 0; j <= i; ++j) VS_CHECKM(seen[j] == in[j], "after a failed insertion the spatial index holds exactly its previous entries");
    VS_CHECKM(t.m_.count_ == cnt, "number of entries");
  }
}
#else  // ---- index containers: a list of lists
struct lists { seq<R, 8> l[8]; unsigned n = 0; };
static bool operator==(lists const& a, lists const& b) {
  bool r = a.n == b.n;
  for (unsigned i = 0; i < a.n && i < b.n; ++i) { r &= a.l[i].n == b.l[i].n; for (unsigned j = 0; j < a.l[i].n && j < b.l[i].n; ++j) r &= a.l[i].a[j] == b.l[i].a[j]; }
  return r;
}
#if KIND == 6  // vecvec
using cont = data::vecvec<unsigned, T>;
static lists read(cont& c) { lists r; for (unsigned i = 0; i < c.size(); ++i) { auto b = c[i]; vs_assert(b.size() <= 8, "bucket size"); for (unsigned j = 0; j < b.size(); ++j) r.l[r.n].push(E::get(b[j])); r.n++; } return r; }
static constexpr unsigned NOP = 5;
static void apply(cont& c, unsigned op, T* v, R const* x, unsigned n, unsigned k, lists& m) {
  switch (op) {
    case 0: { struct { T* b; T* e; T* begin() const { return b; } T* end() const { return e; } std::size_t size() const { return e - b; } } r{v, v + n}; c.emplace_back(r); for (unsigned i = 0; i < n; ++i) m.l[m.n].push(x[i]); m.n++; break; }
    case 1: c.emplace_back({static_cast<T const&>(v[0]), static_cast<T const&>(v[1])}); m.l[m.n].push(x[0]); m.l[m.n].push(x[1]); m.n++; break;
    case 2: { auto b = c.add_back_sized(n); for (unsigned i = 0; i < n; ++i) { b[i] = std::move(v[i]); m.l[m.n].push(x[i]); } m.n++; break; }
    case 3: c.resize(m.n + k); m.n += k; break;
    case 4: if (m.n) { auto b = c[k % m.n]; b.push_back(static_cast<T const&>(v[0])); m.l[k % m.n].push(x[0]); } break;
    default: break;
  }
}
#elif KIND == 7  // mutable_fws_multimap
using cont = data::mutable_fws_multimap<unsigned, unsigned char>;
static lists read(cont& c) { lists r; for (unsigned i = 0; i < c.size(); ++i) { auto b = c[i]; for (unsigned j = 0; j < b.size(); ++j) r.l[r.n].push(b[j]); r.n++; } unsigned s = 0; for (unsigned i = 0; i < r.n; ++i) s += r.l[i].n; VS_CHECKM(s == c.element_count(), "element_count()"); return r; }
static constexpr unsigned NOP = 6;
static void apply(cont& c, unsigned op, T* v, R const* x, unsigned n, unsigned k, lists& m) {
  (void)n; (void)v;
  auto grow = [&](unsigned to) { if (m.n < to) m.n = to; };
  switch (op) {
    case 0: { auto b = c[k]; grow(k + 1); b.push_back(x[0]); m.l[k].push(x[0]); break; }
    case 1: { auto b = c[k]; grow(k + 1); b.emplace_back(x[0]); m.l[k].push(x[0]); break; }
    case 2: if (k < m.n) { auto b = c[k]; b.insert(b.begin(), x[0]); m.l[k].insert(0, x[0]); } break;
    case 3: if (k < m.n) { auto b = c[k]; b.reserve(4); } break;
    case 4: c.emplace_back(); m.n++; break;
    case 5: if (k < m.n) { auto b = c[k]; b.resize(static_cast<unsigned>(b.size()) + n, x[0]); for (unsigned i = 0; i < n; ++i) m.l[k].push(x[0]); } break;
    default: break;
  }
}
#elif KIND == 8  // paged_vecvec
using cont = cista::paged_vecvec<cista::NS::vector<cista::page<std::uint64_t, std::uint16_t>>, cista::paged<cista::NS::vector<std::uint64_t>, std::uint64_t, std::uint16_t, 2U, 8U>, unsigned>;
static lists read(cont& c) { lists r; for (unsigned i = 0; i < c.size(); ++i) { auto b = c[i]; for (unsigned j = 0; j < b.size(); ++j) r.l[r.n].push(static_cast<R>(b[j])); r.n++; } return r; }
static constexpr unsigned NOP = 5;
static void apply(cont& c, unsigned op, T* v, R const* x, unsigned n, unsigned k, lists& m) {
  (void)v;
  switch (op) {
    case 0: { std::uint64_t a[2] = {x[0], x[1]}; struct { std::uint64_t* b; std::uint64_t* e; std::uint64_t* begin() const { return b; } std::uint64_t* end() const { return e; } std::size_t size() const { return e - b; } } r{a, a + n}; c.emplace_back(r); for (unsigned i = 0; i < n; ++i) m.l[m.n].push(x[i]); m.n++; break; }
    case 1: c.emplace_back_empty(); m.n++; break;
    case 2: if (k < m.n) { auto b = c[k]; b.push_back(x[0]); m.l[k].push(x[0]); } break;
    case 3: if (k < m.n) { auto b = c[k]; b.insert(b.begin(), static_cast<std::uint64_t>(x[0])); m.l[k].insert(0, x[0]); } break;
    case 4: c.resize(m.n + k); m.n += k; break;
    default: break;
  }
}
#elif KIND == 9  // nvec: two levels
using cont = data::nvec<unsigned, T, 2U>;
static lists read(cont& c) {  // entry i: all values below it, separated by bucket sizes
  lists r;
  for (unsigned i = 0; i < c.size(); ++i) { for (unsigned j = 0; j < c.size(i); ++j) { auto b = c.at(i, j); r.l[r.n].push(static_cast<R>(200 + b.size())); for (unsigned q = 0; q < b.size(); ++q) r.l[r.n].push(E::get(b[q])); } r.n++; }
  return r;
}
static constexpr unsigned NOP = 1;
static void apply(cont& c, unsigned, T* v, R const* x, unsigned n, unsigned k, lists& m) {
  struct in { T* b; T* e; T* begin() const { return b; } T* end() const { return e; } std::size_t size() const { return e - b; } };
  struct out { in* b; in* e; in* begin() const { return b; } in* end() const { return e; } std::size_t size() const { return e - b; } };
  in rows[2] = {{v, v + n}, {v + n, v + 2}};
  k %= 3;
  out o{rows, rows + k};
  c.emplace_back(o);
  for (unsigned j = 0; j < k; ++j) { unsigned b = j ? n : 0, e = j ? 2 : n; m.l[m.n].push(static_cast<R>(200 + e - b)); for (unsigned q = b; q < e; ++q) m.l[m.n].push(x[q]); }
  m.n++;
}
#endif
static void go() {
  cont c;
  lists m;
  for (unsigned step = 0; step < NOPS; ++step) {
    unsigned op = vs::pick(NOP, "op"), n = vs::pick(3, "n"), k = vs::pick(3, "k");
    R x[2] = {E::fresh("x"), E::fresh("y")};
    T v[2] = {E::mk(x[0]), E::mk(x[1])};
    auto before = m, after = m;
    bool thrown = failing([&] { apply(c, op, v, x, n, k, after); });
    if (!thrown) { m = after; VS_CHECKM(read(c) == m, "a completed operation has its normal effect"); }
    else {
      auto now = read(c);
      while (now.n > before.n && now.l[now.n - 1].n == 0) --now.n;  // empty buckets may have been added
      auto b = before;
      while (b.n > now.n && b.l[b.n - 1].n == 0) --b.n;
      VS_CHECKM(now == b, "after a failed allocation the container has its previous contents");
      m = read(c);
    }
  }
  R x[2] = {E::fresh("x"), E::fresh("y")};
  T v[2] = {E::mk(x[0]), E::mk(x[1])};
  apply(c, 0, v, x, 1, 1, m);
  VS_CHECKM(read(c) == m, "the container is usable after a failed allocation");
}
#endif
void vs_main() {
  unsigned long heap0 = vs_heap_live();
  go();
  VS_CHECKM(vs_heap_live() == heap0, "nothing is leaked");
  vs_reach("end");
}
