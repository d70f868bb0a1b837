// Reference sequence model used by the container harnesses.
#pragma once
#include "vs.h"
template <typename V, unsigned Cap = 24>
struct seq {
  V a[Cap] = {};
  unsigned n = 0;
  void push(V v) { vs_assert(n < Cap, "harness: model capacity"); a[n++] = v; }
  void insert(unsigned k, V v) { vs_assert(n < Cap, "harness: model capacity"); for (unsigned j = n; j > k; --j) a[j] = a[j - 1]; a[k] = v; ++n; }
  void erase(unsigned k) { for (unsigned j = k; j + 1 < n; ++j) a[j] = a[j + 1]; --n; }
  void erase(unsigned f, unsigned l) { for (unsigned j = l; j < n; ++j) a[f + j - l] = a[j]; n -= l - f; }
  void resize(unsigned m, V v) { vs_assert(m <= Cap, "harness: model capacity"); while (n < m) a[n++] = v; n = m; }
  void clear() { n = 0; }
};
// element construction from / projection to a raw value
template <typename T> struct elem {
  using raw = T;
  static raw fresh(char const* n) { return vs::sym<T>(n); }
  static T mk(raw r) { return r; }
  static raw get(T const& t) { return t; }
};
template <> struct elem<vs::tracked> {
  using raw = unsigned char;
  static raw fresh(char const* n) { return vs::sym<unsigned char>(n); }
  static vs::tracked mk(raw r) { return vs::tracked{r}; }
  static raw get(vs::tracked const& t) { return t.get(); }
};
// single pass input iterator over an array
template <typename T> struct input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T const&;
  T const* p;
  T const& operator*() const { return *p; }
  input_it& operator++() { ++p; return *this; }
  input_it operator++(int) { auto c = *this; ++p; return c; }
  friend bool operator==(input_it a, input_it b) { return a.p == b.p; }
  friend bool operator!=(input_it a, input_it b) { return a.p != b.p; }
};
