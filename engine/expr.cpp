#include "expr.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APSInt.h"
using namespace llvm;
ExprPool P;

static const fltSemantics& sem(uint32_t w) {
  return w == 32 ? APFloat::IEEEsingle() : w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEhalf();
}

APInt foldBin(Op op, const APInt& a, const APInt& b) {
  unsigned w = a.getBitWidth();
  auto B = [](bool x) { return APInt(1, x); };
  switch (op) {
    case Op::Add: return a + b;
    case Op::Sub: return a - b;
    case Op::Mul: return a * b;
    case Op::UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case Op::SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case Op::URem: return b.isZero() ? a : a.urem(b);
    case Op::SRem: return b.isZero() ? a : a.srem(b);
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
    case Op::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case Op::AShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
    case Op::Eq: return B(a == b);
    case Op::Ult: return B(a.ult(b));
    case Op::Ule: return B(a.ule(b));
    case Op::Slt: return B(a.slt(b));
    case Op::Sle: return B(a.sle(b));
    case Op::Concat: return a.concat(b);
    default: abort();
  }
}

APInt foldF(Op op, const APInt& a, const APInt& b, uint32_t w) {
  auto rm = APFloat::rmNearestTiesToEven;
  switch (op) {
    case Op::FAdd: { APFloat x(sem(a.getBitWidth()), a); x.add(APFloat(sem(a.getBitWidth()), b), rm); return x.bitcastToAPInt(); }
    case Op::FSub: { APFloat x(sem(a.getBitWidth()), a); x.subtract(APFloat(sem(a.getBitWidth()), b), rm); return x.bitcastToAPInt(); }
    case Op::FMul: { APFloat x(sem(a.getBitWidth()), a); x.multiply(APFloat(sem(a.getBitWidth()), b), rm); return x.bitcastToAPInt(); }
    case Op::FDiv: { APFloat x(sem(a.getBitWidth()), a); x.divide(APFloat(sem(a.getBitWidth()), b), rm); return x.bitcastToAPInt(); }
    case Op::FNeg: { APInt r = a; r.flipBit(w - 1); return r; }
    case Op::FOlt: case Op::FOle: case Op::FOeq: case Op::FUno: {
      auto c = APFloat(sem(a.getBitWidth()), a).compare(APFloat(sem(a.getBitWidth()), b));
      bool r = false;
      if (op == Op::FOlt) r = c == APFloat::cmpLessThan;
      if (op == Op::FOle) r = c == APFloat::cmpLessThan || c == APFloat::cmpEqual;
      if (op == Op::FOeq) r = c == APFloat::cmpEqual;
      if (op == Op::FUno) r = c == APFloat::cmpUnordered;
      return APInt(1, r);
    }
    case Op::FToSI: case Op::FToUI: {
      APSInt r(w, op == Op::FToUI);
      bool ex;
      APFloat(sem(a.getBitWidth()), a).convertToInteger(r, APFloat::rmTowardZero, &ex);
      return r;
    }
    case Op::SIToF: case Op::UIToF: {
      APFloat f(sem(w));
      f.convertFromAPInt(a, op == Op::SIToF, rm);
      return f.bitcastToAPInt();
    }
    case Op::FExt: case Op::FTrunc: {
      APFloat f(sem(a.getBitWidth()), a);
      bool l;
      f.convert(sem(w), rm, &l);
      return f.bitcastToAPInt();
    }
    default: abort();
  }
}

E eF(Op op, uint32_t w, E a, E b) {
  if (isC(a) && (!b || isC(b))) return P.cst(foldF(op, *a->cv, b ? *b->cv : *a->cv, w));
  if (op == Op::FNeg) return eBin(Op::Xor, a, P.cst(APInt::getOneBitSet(w, w - 1)));
  return P.raw(op, w, 0, a, b);
}

static bool allOnes(E e) { return isC(e) && e->cv->isAllOnes(); }
static bool zero(E e) { return isC(e) && e->cv->isZero(); }
static bool one(E e) { return isC(e) && e->cv->isOne(); }

E eNot(E a) {
  if (isC(a)) return P.cst(~*a->cv);
  if (a->op == Op::Xor && allOnes(a->k[1])) return a->k[0];
  if (a->w == 1) {
    // push negation through comparisons
    if (a->op == Op::Ult) return eBin(Op::Ule, a->k[1], a->k[0]);
    if (a->op == Op::Ule) return eBin(Op::Ult, a->k[1], a->k[0]);
    if (a->op == Op::Slt) return eBin(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return eBin(Op::Slt, a->k[1], a->k[0]);
  }
  return P.raw(Op::Xor, a->w, 0, a, P.cst(APInt::getAllOnes(a->w)));
}

E eExtract(E a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case Op::Const: return P.cst(a->cv->extractBits(w, lo));
    case Op::Extract: return eExtract(a->k[0], lo + a->aux, w);
    case Op::Concat: {
      uint32_t lw = a->k[1]->w;
      if (lo + w <= lw) return eExtract(a->k[1], lo, w);
      if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
      return eConcat(eExtract(a->k[0], 0, lo + w - lw), eExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
      uint32_t kw = a->k[0]->w;
      if (lo >= kw) return P.cst(w, 0);
      if (lo + w <= kw) return eExtract(a->k[0], lo, w);
      return eZExt(eExtract(a->k[0], lo, kw - lo), w);
    }
    case Op::SExt: {
      uint32_t kw = a->k[0]->w;
      if (lo + w <= kw) return eExtract(a->k[0], lo, w);
      if (lo < kw) return eSExt(eExtract(a->k[0], lo, kw - lo), w);
      break;
    }
    case Op::And: case Op::Or: case Op::Xor:
      return eBin(a->op, eExtract(a->k[0], lo, w), eExtract(a->k[1], lo, w));
    case Op::Mul:
      // the parts of a product of wide values stay recognizable as parts of the same value
      if (w % 8 == 0 && a->k[0]->op != Op::ZExt && a->k[0]->op != Op::SExt && a->k[0]->op != Op::Concat) break;
      [[fallthrough]];
    case Op::Add: case Op::Sub:
      if (lo == 0) return eBin(a->op, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w));
      break;
    case Op::Ite: {
      if (isC(a->k[1]) || isC(a->k[2]))
        return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
      break;
    }
    case Op::Shl:
      if (isC(a->k[1])) {
        uint64_t s = a->k[1]->cv->getLimitedValue(a->w);
        if (lo >= s) return eExtract(a->k[0], lo - s, w);
        if (lo + w <= s) return P.cst(w, 0);
      }
      break;
    case Op::LShr:
      if (isC(a->k[1])) {
        uint64_t s = a->k[1]->cv->getLimitedValue(a->w);
        if (lo + w + s <= a->w) return eExtract(a->k[0], lo + s, w);
        if (lo + s >= a->w) return P.cst(w, 0);
      }
      break;
    default: break;
  }
  return P.raw(Op::Extract, w, lo, a);
}

E eConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return P.cst(hi->cv->concat(*lo->cv));
  // adjacent extracts of same expr
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
    return eExtract(hi->k[0], lo->aux, hi->w + lo->w);
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] &&
      hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return eConcat(eConcat(hi, lo->k[0]), lo->k[1]);
  // hi extract of x where lo == x low part (extract with aux 0 folded into x when zext)
  if (hi->op == Op::Extract && hi->k[0]->op != Op::Extract && lo->op == Op::Extract && false) return nullptr;
  if (zero(hi)) return eZExt(lo, hi->w + lo->w);
  // merge: concat(hi, concat(c, x)) with hi const
  if (isC(hi) && lo->op == Op::Concat && isC(lo->k[0])) return eConcat(P.cst(hi->cv->concat(*lo->k[0]->cv)), lo->k[1]);
  // left-assoc normal form: (a . b) . c  -> a . (b . c)
  if (hi->op == Op::Concat) return eConcat(hi->k[0], eConcat(hi->k[1], lo));
  return P.raw(Op::Concat, hi->w + lo->w, 0, hi, lo);
}

E eZExt(E a, uint32_t w) {
  if (w == a->w) return a;
  if (isC(a)) return P.cst(a->cv->zext(w));
  if (a->op == Op::ZExt) return eZExt(a->k[0], w);
  if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eZExt(a->k[1], w), eZExt(a->k[2], w));
  return P.raw(Op::ZExt, w, 0, a);
}
E eSExt(E a, uint32_t w) {
  if (w == a->w) return a;
  if (isC(a)) return P.cst(a->cv->sext(w));
  if (a->op == Op::SExt) return eSExt(a->k[0], w);
  if (a->op == Op::ZExt) return eZExt(a->k[0], w);
  if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eSExt(a->k[1], w), eSExt(a->k[2], w));
  return P.raw(Op::SExt, w, 0, a);
}

E eIte(E c, E a, E b) {
  if (isC(c)) return c->cv->isZero() ? b : a;
  if (a == b) return a;
  if (c->op == Op::Xor && allOnes(c->k[1])) return eIte(c->k[0], b, a);
  if (a->w == 1) {
    if (one(a) && zero(b)) return c;
    if (zero(a) && one(b)) return eNot(c);
    if (one(a)) return eBin(Op::Or, c, b);
    if (zero(b)) return eBin(Op::And, c, a);
    if (zero(a)) return eBin(Op::And, eNot(c), b);
    if (one(b)) return eBin(Op::Or, eNot(c), a);
  }
  if (a->op == Op::Ite && a->k[0] == c) return eIte(c, a->k[1], b);
  if (b->op == Op::Ite && b->k[0] == c) return eIte(c, a, b->k[2]);
  return P.raw(Op::Ite, a->w, 0, c, a, b);
}

static bool commut(Op op) {
  return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
}

static unsigned activeBitsUB(E e) {  // upper bound on active bits (unsigned)
  switch (e->op) {
    case Op::Const: return e->cv->getActiveBits();
    case Op::ZExt: return activeBitsUB(e->k[0]);
    case Op::And: return std::min(activeBitsUB(e->k[0]), activeBitsUB(e->k[1]));
    case Op::LShr: if (isC(e->k[1])) { uint64_t s = e->k[1]->cv->getLimitedValue(e->w); unsigned a = activeBitsUB(e->k[0]); return a > s ? a - s : 0; } return e->w;
    case Op::Concat: { unsigned h = activeBitsUB(e->k[0]); return h ? h + e->k[1]->w : activeBitsUB(e->k[1]); }
    default: return e->w;
  }
}

unsigned knownTrailingZeros(E e) {
  switch (e->op) {
    case Op::Const: return e->cv->isZero() ? e->w : e->cv->countr_zero();
    case Op::Add: case Op::Sub: case Op::Or: case Op::Xor: return std::min(knownTrailingZeros(e->k[0]), knownTrailingZeros(e->k[1]));
    case Op::And: return std::max(knownTrailingZeros(e->k[0]), knownTrailingZeros(e->k[1]));
    case Op::Mul: return std::min(e->w, knownTrailingZeros(e->k[0]) + knownTrailingZeros(e->k[1]));
    case Op::Shl: if (isC(e->k[1])) return std::min<uint64_t>(e->w, knownTrailingZeros(e->k[0]) + e->k[1]->cv->getLimitedValue(e->w)); return 0;
    case Op::ZExt: case Op::SExt: { unsigned t = knownTrailingZeros(e->k[0]); return t == e->k[0]->w && e->op == Op::ZExt ? e->w : t; }
    case Op::Concat: { unsigned t = knownTrailingZeros(e->k[1]); return t == e->k[1]->w ? t + knownTrailingZeros(e->k[0]) : t; }
    case Op::Ite: return std::min(knownTrailingZeros(e->k[1]), knownTrailingZeros(e->k[2]));
    case Op::Extract: if (e->aux == 0) return std::min(e->w, knownTrailingZeros(e->k[0])); return 0;
    default: return 0;
  }
}

// inverse of an odd number modulo 2^w
static APInt oddInverse(const APInt& a) {
  APInt x = a;  // correct modulo 8
  for (unsigned n = 3; n < a.getBitWidth(); n *= 2) x = x * (APInt(a.getBitWidth(), 2) - a * x);
  return x;
}
E eBin(Op op, E a, E b) {
  if (isC(a) && isC(b)) return P.cst(foldBin(op, *a->cv, *b->cv));
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint32_t w = a->w;
  switch (op) {
    case Op::Add:
      if (zero(b)) return a;
      if (isC(b) && a->op == Op::Add && isC(a->k[1])) return eBin(Op::Add, a->k[0], P.cst(*a->k[1]->cv + *b->cv));
      if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
      if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
      if (isC(b) && a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
        return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
      break;
    case Op::Sub:
      if (a == b) return P.cst(w, 0);
      if (isC(b)) return eBin(Op::Add, a, P.cst(-*b->cv));
      if (a->op == Op::Add && a->k[0] == b) return a->k[1];
      if (a->op == Op::Add && a->k[1] == b) return a->k[0];
      if (a->op == Op::Add && isC(a->k[1]) && b->op == Op::Add && isC(b->k[1]) && a->k[0] == b->k[0])
        return P.cst(*a->k[1]->cv - *b->k[1]->cv);
      break;
    case Op::Mul:
      if (zero(b)) return b;
      if (one(b)) return a;
      if (isC(b) && b->cv->isPowerOf2()) return eBin(Op::Shl, a, P.cst(w, b->cv->logBase2()));
      if (isC(b) && a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
        return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
      break;
    case Op::UDiv:
      if (one(b)) return a;
      if (isC(b) && b->cv->isPowerOf2()) return eBin(Op::LShr, a, P.cst(w, b->cv->logBase2()));
      break;
    case Op::URem:
      if (isC(b) && b->cv->isPowerOf2()) return eBin(Op::And, a, P.cst(*b->cv - 1));
      break;
    case Op::SDiv: if (one(b)) return a; break;
    case Op::And:
      if (zero(b)) return b;
      if (allOnes(b)) return a;
      if (a == b) return a;
      if (a->op == Op::Xor && allOnes(a->k[1]) && a->k[0] == b) return P.cst(w, 0);
      if (b->op == Op::Xor && allOnes(b->k[1]) && b->k[0] == a) return P.cst(w, 0);
      if (isC(b) && a->op == Op::And && isC(a->k[1])) return eBin(Op::And, a->k[0], P.cst(*a->k[1]->cv & *b->cv));
      if (isC(b) && w > 1) {
        // low mask -> zext(extract)
        if (b->cv->isMask()) return eZExt(eExtract(a, 0, b->cv->countr_one()), w);
        if (b->cv->isShiftedMask()) {
          unsigned lo = b->cv->countr_zero(), n = b->cv->popcount();
          E x = eConcat(eExtract(a, lo, n), P.cst(APInt(lo, 0)));
          return eZExt(x, w);
        }
        if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
          return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
        if (a->op == Op::ZExt && b->cv->getActiveBits() <= a->k[0]->w)
          return eZExt(eBin(Op::And, a->k[0], P.cst(b->cv->trunc(a->k[0]->w))), w);
      }
      break;
    case Op::Or:
      if (zero(b)) return a;
      if (allOnes(b)) return b;
      if (a == b) return a;
      if (a->op == Op::Xor && allOnes(a->k[1]) && a->k[0] == b) return P.cst(APInt::getAllOnes(w));
      if (b->op == Op::Xor && allOnes(b->k[1]) && b->k[0] == a) return P.cst(APInt::getAllOnes(w));
      // disjoint concat: zext(x) | (y << k)
      {
        unsigned ub = activeBitsUB(a), tz = knownTrailingZeros(b);
        if (ub <= tz && tz < w && ub > 0 && tz > 0) return eConcat(eExtract(b, tz, w - tz), eExtract(a, 0, tz));
        ub = activeBitsUB(b); tz = knownTrailingZeros(a);
        if (ub <= tz && tz < w && ub > 0 && tz > 0) return eConcat(eExtract(a, tz, w - tz), eExtract(b, 0, tz));
      }
      break;
    case Op::Xor:
      if (zero(b)) return a;
      if (a == b) return P.cst(w, 0);
      if (allOnes(b)) return eNot(a);
      if (isC(b) && a->op == Op::Xor && isC(a->k[1])) return eBin(Op::Xor, a->k[0], P.cst(*a->k[1]->cv ^ *b->cv));
      break;
    case Op::Shl:
      if (zero(b)) return a;
      if (isC(b)) {
        uint64_t s = b->cv->getLimitedValue(w);
        if (s >= w) return P.cst(w, 0);
        return eConcat(eExtract(a, 0, w - s), P.cst(APInt(s, 0)));
      }
      if (zero(a)) return a;
      break;
    case Op::LShr:
      if (zero(b)) return a;
      if (isC(b)) {
        uint64_t s = b->cv->getLimitedValue(w);
        if (s >= w) return P.cst(w, 0);
        return eZExt(eExtract(a, s, w - s), w);
      }
      if (zero(a)) return a;
      break;
    case Op::AShr:
      if (zero(b)) return a;
      if (isC(b)) {
        uint64_t s = b->cv->getLimitedValue(w - 1);
        if (s >= w) s = w - 1;
        return eSExt(eExtract(a, s, w - s), w);
      }
      break;
    case Op::Eq:
      if (a == b) return P.cst(1, 1);
      if (w == 1 && isC(b)) return one(b) ? a : eNot(a);
      if (isC(b)) {
        switch (a->op) {
          case Op::Add: if (isC(a->k[1])) return eBin(Op::Eq, a->k[0], P.cst(*b->cv - *a->k[1]->cv)); break;
          case Op::Xor: if (isC(a->k[1])) return eBin(Op::Eq, a->k[0], P.cst(*b->cv ^ *a->k[1]->cv)); break;
          case Op::ZExt:
            if (b->cv->getActiveBits() > a->k[0]->w) return P.cst(1, 0);
            return eBin(Op::Eq, a->k[0], P.cst(b->cv->trunc(a->k[0]->w)));
          case Op::SExt: {
            APInt t = b->cv->trunc(a->k[0]->w);
            if (t.sext(w) != *b->cv) return P.cst(1, 0);
            return eBin(Op::Eq, a->k[0], P.cst(t));
          }
          case Op::Concat: {
            uint32_t lw = a->k[1]->w;
            E h = eBin(Op::Eq, a->k[0], P.cst(b->cv->extractBits(w - lw, lw)));
            if (zero(h)) return h;
            E l = eBin(Op::Eq, a->k[1], P.cst(b->cv->extractBits(lw, 0)));
            return eBin(Op::And, h, l);
          }
          case Op::Ite: {
            if (isC(a->k[1]) || isC(a->k[2])) {
              E x = eBin(Op::Eq, a->k[1], b), y = eBin(Op::Eq, a->k[2], b);
              return eIte(a->k[0], x, y);
            }
            break;
          }
          default: break;
        }
      }
      // multiplication by an odd constant, addition and exclusive or are injective
      if (a->op == Op::Mul && b->op == Op::Mul && isC(a->k[1]) && a->k[1] == b->k[1] && (*a->k[1]->cv)[0]) return eBin(Op::Eq, a->k[0], b->k[0]);
      if ((a->op == Op::Xor && b->op == Op::Xor) || (a->op == Op::Add && b->op == Op::Add))
        for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) if (a->k[x] == b->k[y]) return eBin(Op::Eq, a->k[1 - x], b->k[1 - y]);
      for (int x = 0; x < 2; ++x) {
        if (b->op == Op::Xor && b->k[x] == a) return eBin(Op::Eq, b->k[1 - x], P.cst(w, 0));
        if (a->op == Op::Xor && a->k[x] == b) return eBin(Op::Eq, a->k[1 - x], P.cst(w, 0));
      }
      if (isC(b) && a->op == Op::Mul && isC(a->k[1]) && (*a->k[1]->cv)[0]) return eBin(Op::Eq, a->k[0], P.cst(*b->cv * oddInverse(*a->k[1]->cv)));
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return eBin(Op::Eq, a->k[0], b->k[0]);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return eBin(Op::Eq, a->k[0], b->k[0]);
      break;
    case Op::Ult:
      if (a == b) return P.cst(1, 0);
      if (zero(b)) return P.cst(1, 0);
      if (allOnes(a)) return P.cst(1, 0);
      if (one(b)) return eBin(Op::Eq, a, P.cst(w, 0));
      if (isC(b) && a->op == Op::ZExt) {
        if (b->cv->getActiveBits() > a->k[0]->w) return P.cst(1, 1);
        return eBin(Op::Ult, a->k[0], P.cst(b->cv->trunc(a->k[0]->w)));
      }
      if (isC(a) && b->op == Op::ZExt) {
        if (a->cv->getActiveBits() > b->k[0]->w) return P.cst(1, 0);
        return eBin(Op::Ult, P.cst(a->cv->trunc(b->k[0]->w)), b->k[0]);
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return eBin(op, a->k[0], b->k[0]);
      if (isC(b) && a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
      break;
    case Op::Ule:
      if (a == b) return P.cst(1, 1);
      if (zero(a) || allOnes(b)) return P.cst(1, 1);
      if (zero(b)) return eBin(Op::Eq, a, b);
      if (isC(b)) return eBin(Op::Ult, a, P.cst(*b->cv + 1));
      if (isC(a)) return eBin(Op::Ult, P.cst(*a->cv - 1), b);
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return eBin(op, a->k[0], b->k[0]);
      break;
    case Op::Slt: case Op::Sle:
      if (a == b) return P.cst(1, op == Op::Sle);
      if (activeBitsUB(a) < w && activeBitsUB(b) < w) return eBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return eBin(op, a->k[0], b->k[0]);
      if (isC(b) && b->cv->isZero() && op == Op::Slt) return eExtract(a, w - 1, 1);
      if (isC(b) && b->cv->isAllOnes() && op == Op::Sle) return eExtract(a, w - 1, 1);
      if (isC(a) && a->cv->isZero() && op == Op::Sle) return eNot(eExtract(b, w - 1, 1));
      if (isC(a) && a->cv->isAllOnes() && op == Op::Slt) return eNot(eExtract(b, w - 1, 1));
      break;
    case Op::Concat: return eConcat(a, b);
    default: break;
  }
  uint32_t rw = (op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle) ? 1 : w;
  return P.raw(op, rw, 0, a, b);
}

V mkBin(Op op, const V& a, const V& b) {
  if (a.conc() && b.conc()) {
    uint32_t w = a.w;
    uint64_t x = a.c, y = b.c;
    switch (op) {
      case Op::Add: return V(w, x + y);
      case Op::Sub: return V(w, x - y);
      case Op::Mul: return V(w, x * y);
      case Op::And: return V(w, x & y);
      case Op::Or: return V(w, x | y);
      case Op::Xor: return V(w, x ^ y);
      case Op::Shl: return V(w, y >= w ? 0 : x << y);
      case Op::LShr: return V(w, y >= w ? 0 : x >> y);
      case Op::Eq: return V(1, x == y);
      case Op::Ult: return V(1, x < y);
      case Op::Ule: return V(1, x <= y);
      case Op::Slt: return V(1, sextw(x, w) < sextw(y, w));
      case Op::Sle: return V(1, sextw(x, w) <= sextw(y, w));
      case Op::UDiv: if (y) return V(w, x / y); break;
      case Op::URem: if (y) return V(w, x % y); break;
      default: break;
    }
  }
  return fromE(eBin(op, toE(a), toE(b)));
}

static std::vector<APInt> evCache;
static std::vector<uint32_t> evStamp;
static uint32_t evGen = 0;
static const Model* evM;

static const APInt& ev(E e) {
  if (e->op == Op::Const) return *e->cv;
  if (evStamp[e->id] == evGen) return evCache[e->id];
  APInt r(1, 0);
  switch (e->op) {
    case Op::Var: r = APInt(e->w, evM->get(e->aux) & maskw(e->w)); break;
    case Op::Extract: r = ev(e->k[0]).extractBits(e->w, e->aux); break;
    case Op::ZExt: r = ev(e->k[0]).zext(e->w); break;
    case Op::SExt: r = ev(e->k[0]).sext(e->w); break;
    case Op::Ite: r = ev(e->k[0]).isZero() ? ev(e->k[2]) : ev(e->k[1]); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FOlt: case Op::FOle: case Op::FOeq: case Op::FUno: {
      APInt a = ev(e->k[0]);
      r = foldF(e->op, a, ev(e->k[1]), e->w);
      break;
    }
    case Op::FNeg: case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FExt: case Op::FTrunc: {
      APInt a = ev(e->k[0]);
      r = foldF(e->op, a, a, e->w);
      break;
    }
    default: {
      APInt a = ev(e->k[0]);
      r = foldBin(e->op, a, ev(e->k[1]));
    }
  }
  evStamp[e->id] = evGen;
  evCache[e->id] = std::move(r);
  return evCache[e->id];
}
APInt evalE(E e, const Model& m) {
  if (evCache.size() < P.all.size()) {
    evCache.resize(P.all.size() * 2 + 1024, APInt(1, 0));
    evStamp.resize(evCache.size(), 0);
  }
  evGen++;
  evM = &m;
  return ev(e);
}
