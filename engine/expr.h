// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/Hashing.h"

using llvm::APInt;

enum class Op : uint8_t {
  Const, Var, Uninit,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Concat, Extract, ZExt, SExt, Ite,
  FAdd, FSub, FMul, FDiv, FNeg,
  FOlt, FOle, FOeq, FUno,             // ordered lt/le/eq, unordered
  FToSI, FToUI, SIToF, UIToF, FExt, FTrunc
};

struct VarSet {
  std::vector<uint64_t> w;  // bitmap
  uint32_t id;
};

struct Expr {
  Op op;
  uint32_t w;      // width
  uint32_t id;
  uint32_t aux;    // Extract: low bit; Var: var id
  const Expr* k[3];
  const APInt* cv;  // Const
  const VarSet* vars;
};
using E = const Expr*;

inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t v, uint32_t w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

// A value: concrete (w<=64, e==nullptr) or expression.
struct V {
  E e = nullptr;
  uint64_t c = 0;
  uint32_t w = 0;
  V() = default;
  V(uint32_t w_, uint64_t c_) : c(c_ & maskw(w_)), w(w_) {}
  bool conc() const { return e == nullptr; }
};

struct ExprPool {
  std::vector<E> all;
  struct H {
    size_t operator()(E e) const {
      size_t h = (size_t)e->op * 0x9E3779B97F4A7C15ULL + e->w * 31 + e->aux * 1000003ULL;
      for (int i = 0; i < 3; ++i) h = (h ^ ((size_t)(e->k[i] ? e->k[i]->id + 1 : 0))) * 0x100000001B3ULL + (h >> 29);
      if (e->cv) h ^= llvm::hash_value(*e->cv);
      return h;
    }
  };
  struct EqF {
    bool operator()(E a, E b) const {
      if (a->op != b->op || a->w != b->w || a->aux != b->aux) return false;
      for (int i = 0; i < 3; ++i) if (a->k[i] != b->k[i]) return false;
      if (a->cv || b->cv) return a->cv && b->cv && *a->cv == *b->cv;
      return true;
    }
  };
  std::unordered_set<E, H, EqF> tab;
  std::vector<std::string> varNames;
  std::vector<uint32_t> varWidth;
  // varsets
  std::vector<VarSet*> sets;
  std::unordered_map<uint64_t, const VarSet*> unionCache;
  std::unordered_map<std::string, const VarSet*> setTab;
  const VarSet* emptySet;

  ExprPool() { emptySet = internSet({}); }
  const VarSet* internSet(std::vector<uint64_t> w) {
    while (!w.empty() && w.back() == 0) w.pop_back();
    std::string key((const char*)w.data(), w.size() * 8);
    auto it = setTab.find(key);
    if (it != setTab.end()) return it->second;
    auto* s = new VarSet{std::move(w), (uint32_t)sets.size()};
    sets.push_back(s);
    setTab.emplace(std::move(key), s);
    return s;
  }
  const VarSet* unite(const VarSet* a, const VarSet* b) {
    if (a == b || b == emptySet) return a;
    if (a == emptySet) return b;
    uint32_t x = a->id, y = b->id;
    if (x > y) std::swap(x, y);
    uint64_t key = ((uint64_t)x << 32) | y;
    auto it = unionCache.find(key);
    if (it != unionCache.end()) return it->second;
    std::vector<uint64_t> w(std::max(a->w.size(), b->w.size()), 0);
    for (size_t i = 0; i < a->w.size(); ++i) w[i] |= a->w[i];
    for (size_t i = 0; i < b->w.size(); ++i) w[i] |= b->w[i];
    auto* r = internSet(std::move(w));
    unionCache.emplace(key, r);
    return r;
  }
  static bool intersects(const VarSet* a, const VarSet* b) {
    size_t n = std::min(a->w.size(), b->w.size());
    for (size_t i = 0; i < n; ++i) if (a->w[i] & b->w[i]) return true;
    return false;
  }

  E raw(Op op, uint32_t w, uint32_t aux, E a = nullptr, E b = nullptr, E c = nullptr, const APInt* cv = nullptr) {
    Expr t{op, w, 0, aux, {a, b, c}, cv, nullptr};
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    auto* n = new Expr(t);
    if (cv) n->cv = new APInt(*cv);
    n->id = (uint32_t)all.size();
    const VarSet* vs = emptySet;
    for (int i = 0; i < 3; ++i) if (n->k[i]) vs = unite(vs, n->k[i]->vars);
    if (op == Op::Var) {
      std::vector<uint64_t> ww(aux / 64 + 1, 0);
      ww[aux / 64] |= 1ULL << (aux % 64);
      vs = internSet(std::move(ww));
    }
    n->vars = vs;
    all.push_back(n);
    tab.insert(n);
    return n;
  }
  E cst(const APInt& v) { return raw(Op::Const, v.getBitWidth(), 0, nullptr, nullptr, nullptr, &v); }
  E cst(uint32_t w, uint64_t v) { return cst(APInt(w, v & maskw(w))); }
  E newVar(uint32_t w, const std::string& name) {
    uint32_t id = (uint32_t)varNames.size();
    varNames.push_back(name);
    varWidth.push_back(w);
    return raw(Op::Var, w, id);
  }
};

extern ExprPool P;

inline E toE(const V& v) { return v.e ? v.e : P.cst(v.w, v.c); }
inline V fromE(E e) {
  V v;
  v.w = e->w;
  if (e->op == Op::Const && e->w <= 64) { v.c = e->cv->getZExtValue(); return v; }
  v.e = e;
  return v;
}
inline V mkC(uint32_t w, uint64_t c) { return V(w, c); }
inline V mkC(const APInt& a) {
  if (a.getBitWidth() <= 64) return V(a.getBitWidth(), a.getZExtValue());
  return fromE(P.cst(a));
}
inline bool isC(E e) { return e->op == Op::Const; }

E eBin(Op op, E a, E b);
E eExtract(E a, uint32_t lo, uint32_t w);
E eConcat(E hi, E lo);
E eZExt(E a, uint32_t w);
E eSExt(E a, uint32_t w);
E eIte(E c, E a, E b);
E eNot(E a);
APInt foldBin(Op op, const APInt& a, const APInt& b);
APInt foldF(Op op, const APInt& a, const APInt& b, uint32_t w);
E eF(Op op, uint32_t w, E a, E b);

V mkBin(Op op, const V& a, const V& b);
inline V mkExtract(const V& a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a.w) return a;
  if (a.conc()) return V(w, a.c >> lo);
  return fromE(eExtract(a.e, lo, w));
}
inline V mkConcat(const V& hi, const V& lo) {
  if (hi.conc() && lo.conc() && hi.w + lo.w <= 64) return V(hi.w + lo.w, (hi.c << lo.w) | lo.c);
  return fromE(eConcat(toE(hi), toE(lo)));
}
inline V mkZExt(const V& a, uint32_t w) {
  if (w == a.w) return a;
  if (a.conc() && w <= 64) return V(w, a.c);
  return fromE(eZExt(toE(a), w));
}
inline V mkSExt(const V& a, uint32_t w) {
  if (w == a.w) return a;
  if (a.conc() && w <= 64) return V(w, (uint64_t)sextw(a.c, a.w));
  return fromE(eSExt(toE(a), w));
}
inline V mkIte(const V& c, const V& a, const V& b) {
  if (c.conc()) return c.c ? a : b;
  return fromE(eIte(c.e, toE(a), toE(b)));
}
inline V mkNot(const V& a) {
  if (a.conc()) return V(a.w, ~a.c);
  return fromE(eNot(a.e));
}
inline V mkAnd(const V& a, const V& b) { return mkBin(Op::And, a, b); }
inline V mkOr(const V& a, const V& b) { return mkBin(Op::Or, a, b); }
inline V mkEq(const V& a, const V& b) { return mkBin(Op::Eq, a, b); }

struct Model {
  // values of variables by id; missing => 0
  std::vector<uint64_t> v;
  uint64_t get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
  void set(uint32_t id, uint64_t x) { if (id >= v.size()) v.resize(id + 1, 0); v[id] = x; }
};
APInt evalE(E e, const Model& m);
inline uint64_t evalV(const V& v, const Model& m) {
  if (v.conc()) return v.c;
  return evalE(v.e, m).getZExtValue();
}
unsigned knownTrailingZeros(E e);
