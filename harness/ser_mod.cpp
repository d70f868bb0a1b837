// C10: containers in deserialized memory are modified like containers that never were serialized.
// The same operations are applied to the original (the reference) and to the deserialized object.
#include "ser.h"
#include "ser_multi.h"
#ifndef OPS
#define OPS 0xffffffffU
#endif
#ifndef MODES
#define MODES cista::mode::NONE
#endif
using cista::mode;
constexpr mode M = MODES;
static bool g_nested = false;  // elements of a vector in the buffer may own memory of their own (see the recorded finding)
template <typename T, typename = void> struct mod;
template <typename Ptr> struct mod<cista::basic_string<Ptr>> {
  using S = cista::basic_string<Ptr>;
  static constexpr unsigned N = 7;
  static void op(S& a, S& b, unsigned k) {
    switch (k) {
      case 0: make(a); break;
      case 1: a.reset(); break;
      case 2: a = b; break;
      case 3: a = std::move(b); b.reset(); break;
      case 4: { auto& s = a; a = s; break; }
      case 5: { S c{a}; b = std::move(c); break; }
      case 6: { std::swap(a, b); break; }
      default: break;
    }
  }
};
template <typename Ptr> struct mod<cista::basic_cstring<Ptr>> {
  using S = cista::basic_cstring<Ptr>;
  static constexpr unsigned N = 6;
  static void op(S& a, S& b, unsigned k) {
    switch (k) {
      case 0: make(a); break;
      case 1: a.reset(); break;
      case 2: a = b; break;
      case 3: a = std::move(b); b.reset(); break;
      case 4: { S c{a}; b = std::move(c); break; }
      case 5: { std::swap(a, b); break; }
      default: break;
    }
  }
};
template <typename T, template <typename> typename Ptr, bool I, typename S> struct mod<cista::basic_vector<T, Ptr, I, S>> {
  using V = cista::basic_vector<T, Ptr, I, S>;
  static constexpr unsigned N = 16;
  static bool plain(V const& v) { return std::is_trivially_destructible_v<T> || !g_nested || v.self_allocated_ || v.el_ == nullptr; }
  static void op(V& a, V& b, unsigned k) {
    if (k == 8 || k == 9 || k == 10 || k == 15) vs_assume(plain(a) && plain(b));
    else g_nested = true;
    switch (k) {
      case 0: { T t = made<T>(); a.push_back(std::move(t)); break; }
      case 1: { unsigned p = tp.pick(2, "pos"); T t = made<T>(); a.insert(a.begin() + (p ? a.size() : 0), std::move(t)); break; }
      case 2: a.clear(); break;
      case 3: { unsigned n = tp.pick(4, "size"); a.resize(n); break; }
      case 4: if (!a.empty()) a.erase(a.begin()); break;
      case 5: if (!a.empty()) a.pop_back(); break;
      case 6: a.reserve(3 + a.size()); break;
      case 7: a = b; break;
      case 8: a = std::move(b); break;
      case 9: { V c{a}; b = std::move(c); break; }
      case 10: std::swap(a, b); break;
      case 11: { T t = made<T>(); a.set(&t, &t + 1); break; }
      case 12: if (!a.empty()) { a.push_back(static_cast<V const&>(a)[0]); } break;
      case 13: if (!a.empty()) { a.emplace_back(made<T>()); a.erase(a.begin(), a.begin() + 1); } break;
      case 14: if (!a.empty()) { make(a[0]); } break;
      case 15: { V c{std::move(a)}; if (c.size() == 2) a = std::move(c); break; }
      default: break;
    }
  }
};
template <typename T> struct mod<cista::optional<T>> {
  using O = cista::optional<T>;
  static constexpr unsigned N = 5;
  static void op(O& a, O& b, unsigned k) {
    switch (k) {
      case 0: a = made<T>(); break;
      case 1: a.reset(); break;
      case 2: a = b; break;
      case 3: a = std::move(b); b.reset(); break;
      case 4: if (a.has_value()) make(*a); break;
      default: break;
    }
  }
};
template <typename... T> struct mod<cista::variant<T...>> {
  using V = cista::variant<T...>;
  static constexpr unsigned N = 5;
  static void op(V& a, V& b, unsigned k) {
    switch (k) {
      case 0: make(a); break;
      case 1: a = b; break;
      case 2: a = std::move(b); b = made<std::tuple_element_t<0, std::tuple<T...>>>(); break;
      case 3: a.swap(b); break;
      case 4: { V c{a}; b = std::move(c); break; }
      default: break;
    }
  }
};
template <typename T, typename P> struct mod<cista::basic_unique_ptr<T, P>> {
  using U = cista::basic_unique_ptr<T, P>;
  static constexpr unsigned N = 6;
  static void op(U& a, U& b, unsigned k) {
    switch (k) {
      case 0: a = data::make_unique<T>(); make(*a); break;
      case 1: a.reset(); break;
      case 2: a = nullptr; break;
      case 3: a = std::move(b); break;
      case 4: { U c{std::move(a)}; b = std::move(c); break; }
      case 5: std::swap(a, b); break;
      default: break;
    }
  }
};
template <typename T, template <typename> typename Ptr, typename GK, typename GV, typename H, typename E> struct mod<cista::hash_storage<T, Ptr, GK, GV, H, E>> {
  using V = cista::hash_storage<T, Ptr, GK, GV, H, E>;
  using B = build<V>;
  using K = typename B::K;
  static constexpr unsigned N = 9;
  static void op(V& a, V& b, unsigned k) {
    switch (k) {
      case 0: { unsigned i = tp.pick(B::NK < 4 ? B::NK : 4, "key");
                if constexpr (B::MAP) { decltype(std::declval<T>().second) x{}; make(x); a[key_of<K>::get(i)] = std::move(x); }
                else a.emplace(key_of<K>::get(i));
                break; }
      case 1: a.erase(key_of<K>::get(tp.pick(2, "key"))); break;
      case 2: a.clear(); break;
      case 3: a = b; break;
      case 4: a.clear(); a = std::move(b); break;  // (without clear: recorded finding of C16)
      case 5: { V c{a}; b.clear(); b = std::move(c); break; }
      case 6: a.rehash(); break;
      case 7: for (unsigned i = 0; i < B::NK; ++i) { if constexpr (B::MAP) { decltype(std::declval<T>().second) x{}; a.emplace(T{key_of<K>::get(i), std::move(x)}); } else a.emplace(key_of<K>::get(i)); } break;
      case 8: { V c{std::move(a)}; VS_CHECKM(a.empty(), "moved-from table is empty"); if (c.size() == 2) a = std::move(c); break; }
      default: break;
    }
  }
};
template <typename K, typename D, typename I> struct mod<cista::basic_vecvec<K, D, I>> {
  using V = cista::basic_vecvec<K, D, I>;
  using T = typename D::value_type;
  static constexpr unsigned N = 6;
  static void op(V& a, V& b, unsigned k) {
    switch (k) {
      case 0: { std::vector<T> x; unsigned n = tp.pick(3, "fill"); for (unsigned j = 0; j < n; ++j) x.push_back(made<T>()); a.emplace_back(x); break; }
      case 1: if (!a.empty()) { auto t = made<T>(); a[K{0}].push_back(t); } break;
      case 2: a.resize(tp.pick(4, "size")); break;
      case 3: a.clear(); break;
      case 4: a = b; break;
      case 5: a = std::move(b); b.clear(); break;
      default: break;
    }
  }
};
template <typename D, typename I> struct mod<cista::fws_multimap<D, I>> {
  using V = cista::fws_multimap<D, I>;
  static constexpr unsigned N = 2;
  static void op(V& a, V& b, unsigned k) { if (k == 0) a = b; else { V c{a}; b = std::move(c); } }
};
template <typename T> struct mod<T, std::void_t<typename T::index_vec_t, typename T::mutable_bucket>> {
  static constexpr unsigned N = 7;
  static void op(T& a, T& b, unsigned k) {
    using A = typename T::access_t;
    switch (k) {
      case 0: { auto x = made<typename T::value_type>(); a[A{static_cast<cista::base_t<A>>(tp.pick(3, "key"))}].push_back(x); break; }
      case 1: if (a.size()) { auto bk = a[A{0}]; bk.resize(tp.pick(6, "size")); } break;
      case 2: if (a.size()) a.erase(A{0}); break;
      case 3: a.clear(); break;
      case 4: a = b; break;
      case 5: if (a.size() && !a[A{0}].empty()) { auto bk = a[A{0}]; bk.erase(bk.begin()); } break;
      case 6: a.emplace_back(); break;
      default: break;
    }
  }
};
template <> struct mod<data::bitvec> {
  using T = data::bitvec;
  static constexpr unsigned N = 5;
  static void op(T& a, T& b, unsigned k) {
    switch (k) {
      case 0: { unsigned const n[] = {0, 1, 64, 70, 200}; a.resize(n[tp.pick(5, "size")]); break; }
      case 1: if (a.size()) a.set(static_cast<T::size_type>(a.size() - 1), tp.flag("bit")); break;
      case 2: a = b; break;
      case 3: a.zero_out(); break;
      case 4: { T c{a}; b = std::move(c); break; }
      default: break;
    }
  }
};
template <typename V> struct mod<cista::base_flat_matrix<V>> {
  using T = cista::base_flat_matrix<V>;
  static constexpr unsigned N = 4;
  static void op(T& a, T& b, unsigned k) {
    switch (k) {
      case 0: a.resize(tp.pick(4, "rows"), 2); break;
      case 1: if (a.entries_.size()) make(a.entries_[0]); break;
      case 2: a = b; break;
      case 3: a = std::move(b); b = T{}; break;
      default: break;
    }
  }
};
template <typename K, typename D, typename I, std::size_t NN, typename S> struct mod<cista::basic_nvec<K, D, I, NN, S>> {
  using V = cista::basic_nvec<K, D, I, NN, S>;
  static constexpr unsigned N = 3;
  static void op(V& a, V& b, unsigned k) {
    switch (k) {
      case 0: build<V>::mk(a); break;  // appends
      case 1: a = b; break;
      case 2: { V c{a}; b = std::move(c); break; }
      default: break;
    }
  }
};
template <typename I, typename P, typename K> struct mod<cista::paged_vecvec<I, P, K>> {
  using V = cista::paged_vecvec<I, P, K>;
  using T = typename V::data_value_type;
  static constexpr unsigned N = 5;
  static void op(V& a, V& b, unsigned k) {
    switch (k) {
      case 0: build<V>::mk(a); break;  // appends
      case 1: if (a.size()) { auto t = made<T>(); a[K{0}].push_back(t); } break;
      case 2: a.resize(tp.pick(4, "size")); break;
      case 3: a = b; break;
      case 4: a.clear(); break;
      default: break;
    }
  }
};
struct rec { REC2(a, b) std::uint8_t a; data::string b; };
using elem_t = std::uint8_t;
#if defined(G_MRTREE)
using T = data::rtree<std::uint16_t, 2, float, 4>;
template <> struct mod<T> {
  static constexpr unsigned N = 2;
  static void op(T& a, T& b, unsigned k) { if (k == 0) build<T>::mk(a); else { T c{a}; b = std::move(c); } }
};
#else
using T = TYPE;
#endif
// Memory of elements that are kept in the buffer is released with the elements, not with the (not owned) vector.
template <typename X> void release(X&) {}
template <typename X, template <typename> typename Ptr, bool I, typename S> void release(cista::basic_vector<X, Ptr, I, S>& v) { v.clear(); }
struct root_t { REC3(a, b, c) T a; T b; std::uint32_t c; };
static void both(root_t& ref, root_t& got, unsigned w, unsigned k) {
  unsigned const p = tp.n;
  bool const nested = g_nested;
  tp.rec = true;
  mod<T>::op(w ? ref.b : ref.a, w ? ref.a : ref.b, k);
  tp.rec = false; tp.pos = p;
  g_nested = nested;
  mod<T>::op(w ? got.b : got.a, w ? got.a : got.b, k);
  tp.rec = true;
}
void vs_main() {
  unsigned long const live = vs_heap_live();
  {
    root_t v{};
    make(v.a); make(v.b); v.c = vs::sym<std::uint32_t>("c");
    unsigned char* buf;
    std::size_t size;
    {
      auto const b = cista::serialize<M>(v);
      size = b.size();
      buf = static_cast<unsigned char*>(std::aligned_alloc(64, (size + 63) / 64 * 64));
      std::memcpy(buf, b.data(), size);
    }
    auto& got = *cista::deserialize<root_t, M>(buf, buf + size);
    for (unsigned i = 0; i < NOPS; ++i) {
      unsigned const w = vs::pick(NOPS == 1 ? 1 : 2, "which"), k = vs::pick(mod<T>::N, "op");
      vs_assume(((OPS >> k) & 1U) != 0U);
      both(v, got, w, k);
      same(v.a, got.a);
      same(v.b, got.b);
      VS_CHECKM(got.c == v.c, "neighbouring members are not affected");
    }
#ifndef ELEM_LEAK
    release(got.a); release(got.b);
#endif
    got.~root_t();
    std::free(buf);
  }
  vs_reach("end");
#ifdef ELEM_LEAK
  VS_CHECKM(vs_heap_live() == live, "memory of elements added to a vector in the buffer is released with the vector");
#else
  VS_CHECKM(vs_heap_live() == live, "memory allocated by modified objects is released");
#endif
}
