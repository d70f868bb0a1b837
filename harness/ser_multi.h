// builders for the containers composed of vectors
#pragma once
#include "ser.h"
template <typename K, typename D, typename I> struct build<cista::basic_vecvec<K, D, I>> {
  using V = cista::basic_vecvec<K, D, I>;
  using T = typename D::value_type;
  static void mk(V& v) {
    unsigned const n = tp.pick(3, "buckets");
    for (unsigned i = 0; i < n; ++i) {
      unsigned const m = tp.pick(3, "fill");
      std::vector<T> x;
      for (unsigned j = 0; j < m; ++j) x.push_back(made<T>());
      v.emplace_back(x);
    }
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.size() == b.size(), "vecvec size differs");
    for (auto const& x : b.bucket_starts_) scalar_at(x);
    for (unsigned i = 0; i < a.size(); ++i) {
      auto const x = a[K{static_cast<cista::base_t<K>>(i)}]; auto const y = b[K{static_cast<cista::base_t<K>>(i)}];
      VS_CHECKM(x.size() == y.size(), "bucket size differs");
      for (unsigned j = 0; j < x.size(); ++j) same(x[j], y[j]);
    }
  }
};
template <typename D, typename I> struct build<cista::fws_multimap<D, I>> {
  using V = cista::fws_multimap<D, I>;
  using T = typename D::value_type;
  static void mk(V& v) {
    unsigned const n = tp.pick(3, "keys");
    for (unsigned i = 0; i < n; ++i) { unsigned const m = tp.pick(3, "fill"); for (unsigned j = 0; j < m; ++j) v.push_back(made<T>()); v.finish_key(); }
    v.finish_map();
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.index_size() == b.index_size() && a.data_size() == b.data_size() && a.finished() == b.finished(), "multimap sizes differ");
    for (unsigned i = 0; i + 1 < a.index_size(); ++i) {
      auto const x = a[i]; auto const y = b[i];
      VS_CHECKM(x.size() == y.size(), "entry size differs");
      for (unsigned j = 0; j < x.size(); ++j) same(x[j], y[j]);
    }
  }
};
template <typename T, typename S, template <typename> typename Vec, std::size_t L> struct build<cista::dynamic_fws_multimap_base<T, S, Vec, L>> {
  using V = cista::dynamic_fws_multimap_base<T, S, Vec, L>;
  static void mk(V& v) {
    unsigned const n = tp.pick(3, "keys");
    for (unsigned i = 0; i < n; ++i) { unsigned const m = tp.pick(4, "fill"); v[i]; for (unsigned j = 0; j < m; ++j) v[i].push_back(made<T>()); }
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.size() == b.size() && a.element_count() == b.element_count(), "multimap sizes differ");
    for (unsigned i = 0; i < a.size(); ++i) {
      auto const x = a[i]; auto const y = b[i];
      VS_CHECKM(x.size() == y.size(), "bucket size differs");
      for (unsigned j = 0; j < x.size(); ++j) same(x[j], y[j]);
    }
  }
};
template <typename B, typename K> struct build<cista::basic_bitvec<B, K>> {
  using V = cista::basic_bitvec<B, K>;
  static void mk(V& v) { static unsigned const ns[] = {0, 1, 64, 70}; v.resize(ns[tp.pick(4, "bits")]); for (unsigned i = 0; i < v.size(); i += 23) v.set(i, tp.flag("bit")); }
  static void cmp(V const& a, V const& b) { VS_CHECKM(a.size() == b.size(), "bitvec size differs"); scalar_at(b.size_); for (auto const& x : b.blocks_) scalar_at(x); for (unsigned i = 0; i < a.size(); ++i) VS_CHECKM(a.test(i) == b.test(i), "bit differs"); }
};
template <typename Vec> struct build<cista::base_flat_matrix<Vec>> {
  using V = cista::base_flat_matrix<Vec>;
  static void mk(V& v) { unsigned const r = tp.pick(3, "rows"), c = tp.pick(3, "cols"); v.resize(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) make(v(i, j)); }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.n_rows_ == b.n_rows_ && a.n_columns_ == b.n_columns_, "matrix size differs");
    scalar_at(b.n_rows_); scalar_at(b.n_columns_); for (auto const& x : b.entries_) scalar_at(x);
    for (unsigned i = 0; i < a.n_rows_; ++i) for (unsigned j = 0; j < a.n_columns_; ++j) same(a[i][j], b[i][j]);
  }
};
template <typename K, typename D, typename I, std::size_t N, typename S> struct build<cista::basic_nvec<K, D, I, N, S>> {
  using V = cista::basic_nvec<K, D, I, N, S>;
  using T = typename D::value_type;
  static void mk(V& v) {
    unsigned const n = tp.pick(3, "top");
    for (unsigned i = 0; i < n; ++i) { std::vector<std::vector<T>> x; unsigned const m = tp.pick(3, "mid"); for (unsigned j = 0; j < m; ++j) { x.emplace_back(); x.back().resize(1); make(x.back()[0]); } v.emplace_back(x); }
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.size() == b.size(), "nvec size differs");
    for (auto const& ix : b.index_) for (auto const& x : ix) scalar_at(x);
    for (unsigned i = 0; i < a.size(); ++i) { VS_CHECKM(a.size(i) == b.size(i), "nvec inner size differs"); for (unsigned j = 0; j < a.size(i); ++j) { auto const x = a.at(i, j); auto const y = b.at(i, j); VS_CHECKM(x.size() == y.size(), "leaf size"); for (unsigned k = 0; k < x.size(); ++k) same(x[k], y[k]); } }
  }
};
template <typename I, typename P, typename K> struct build<cista::paged_vecvec<I, P, K>> {
  using V = cista::paged_vecvec<I, P, K>;
  using T = typename P::value_type;
  static void mk(V& v) {
    unsigned const n = tp.pick(3, "buckets");
    for (unsigned i = 0; i < n; ++i) { std::vector<T> x; unsigned const m = tp.pick(3, "fill"); for (unsigned j = 0; j < m; ++j) x.push_back(made<T>()); v.emplace_back(x); }
    if (n != 0) { unsigned const m = tp.pick(5, "more"); for (unsigned j = 0; j < m; ++j) v[0].push_back(made<T>()); }
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.size() == b.size(), "paged size differs");
    for (unsigned i = 0; i < a.size(); ++i) { auto const x = a[K{i}]; auto const y = b[K{i}]; VS_CHECKM(x.size() == y.size(), "page size differs"); for (unsigned j = 0; j < x.size(); ++j) same(x[j], y[j]); }
  }
};
template <typename T, template <typename, typename...> typename VT, std::uint32_t D, typename N, std::uint32_t M, typename S> struct build<cista::basic_rtree<T, VT, D, N, M, S>> {
  using V = cista::basic_rtree<T, VT, D, N, M, S>;
  static void mk(V& v) {
    unsigned const n = tp.pick(4, "rects");
    for (unsigned i = 0; i < n; ++i) { N const x = static_cast<N>(10 * i), y = static_cast<N>(3 * i); v.insert({x, y}, {static_cast<N>(x + 4), static_cast<N>(y + 4)}, made<T>()); }
  }
  static void cmp(V const& a, V const& b) {
    VS_CHECKM(a.m_.count_ == b.m_.count_ && a.m_.height_ == b.m_.height_, "rtree counts differ");
    unsigned na = 0, nb = 0;
    T va[8]{}, vb[8]{};
    a.search({N{0}, N{0}}, {N{100}, N{100}}, [&](auto const&, auto const&, T const& t) { if (na < 8) va[na] = t; ++na; return true; });
    b.search({N{0}, N{0}}, {N{100}, N{100}}, [&](auto const&, auto const&, T const& t) { if (nb < 8) vb[nb] = t; ++nb; return true; });
    VS_CHECKM(na == nb, "rtree search differs");
    for (unsigned i = 0; i < na && i < 8; ++i) VS_CHECKM(va[i] == vb[i], "rtree entry differs");
  }
};
