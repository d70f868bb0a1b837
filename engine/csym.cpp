// csym: symbolic execution of LLVM IR with Z3 deciding every branch, memory access and assertion.
#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "llvm/ADT/SmallString.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
using std::string;
using std::vector;
typedef std::chrono::steady_clock Clock;
static Clock::time_point T0;
static double now() { return std::chrono::duration<double>(Clock::now() - T0).count(); }

// ---------------------------------------------------------------- options
struct Opts {
  string in, outDir = ".", entry = "vs_main", tokens;
  int procs = 1;
  double timeout = 600;
  bool forkSelect = false;
  uint64_t maxSteps = 20000000;
  uint64_t maxPaths = ~0ULL;
  int samples = 40;
  uint64_t maxAlloc = 1ULL << 22;
  uint64_t seed = 1;
  bool all = false;  // do not stop at first violation
  bool verbose = false;
  unsigned iteLimit = 160;
  unsigned rlimit = 0;
} O;

struct Shared {
  std::atomic<int> stop, freeProcs, incomplete;
  std::atomic<uint64_t> paths, violations;
  pid_t rootPid;
};
static Shared* SH;

// ---------------------------------------------------------------- statistics
struct Stats {
  uint64_t paths = 0, assumeKilled = 0, steps = 0, queries = 0, qsat = 0, qunsat = 0, qcache = 0, qmodel = 0, forks = 0, asserts = 0, derefs = 0, symDerefs = 0, limit = 0, oneshot = 0;
  double solverTime = 0;
  std::set<string> reach;
  std::set<const Function*> funcs;
  std::set<string> errors;
  std::map<string, uint64_t> assertSites;  // message -> times discharged
} S;
static FILE* OUT;
static string jesc(const string& s) {
  string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

// ---------------------------------------------------------------- solver
struct Solver {
  Z3_context c = nullptr;
  Z3_solver s = nullptr;
  vector<Z3_ast> cache;
  vector<E> stack;
  Z3_sort fs32, fs64;
  Z3_ast rne, rtz;
  void init() {
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    newSolver();
    fs32 = Z3_mk_fpa_sort_32(c); Z3_inc_ref(c, (Z3_ast)fs32);
    fs64 = Z3_mk_fpa_sort_64(c); Z3_inc_ref(c, (Z3_ast)fs64);
    rne = Z3_mk_fpa_rne(c); Z3_inc_ref(c, rne);
    rtz = Z3_mk_fpa_rtz(c); Z3_inc_ref(c, rtz);
  }
  uint64_t nq = 0;
  void newSolver() {
    if (s) Z3_solver_dec_ref(c, s);
    s = Z3_mk_simple_solver(c);
    Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c);
    Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "random_seed"), O.seed);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 1000);
    Z3_solver_set_params(c, s, p);
    Z3_params_dec_ref(c, p);
    stack.clear();
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(c, w); }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, bv(1)), Z3_mk_unsigned_int64(c, 0, bv(1))); }
  Z3_ast tofp(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(c, a, w == 32 ? fs32 : fs64); }
  // width-1 expressions are also translated as booleans through boolCache
  vector<Z3_ast> bcache;
  Z3_ast trB(E e) {
    if (bcache.size() <= e->id) bcache.resize(P.all.size() + 1024, nullptr);
    if (bcache[e->id]) return bcache[e->id];
    Z3_ast r;
    auto two = [&](auto f, E a, E b) { Z3_ast x[2] = {trB(a), trB(b)}; return f(c, 2, x); };
    switch (e->op) {
      case Op::Const: r = e->cv->isZero() ? Z3_mk_false(c) : Z3_mk_true(c); break;
      case Op::And: r = two(Z3_mk_and, e->k[0], e->k[1]); break;
      case Op::Or: r = two(Z3_mk_or, e->k[0], e->k[1]); break;
      case Op::Xor: if (isC(e->k[1])) { r = e->k[1]->cv->isZero() ? trB(e->k[0]) : Z3_mk_not(c, trB(e->k[0])); } else r = Z3_mk_xor(c, trB(e->k[0]), trB(e->k[1])); break;
      case Op::Eq: if (e->k[0]->w == 1) r = Z3_mk_iff(c, trB(e->k[0]), trB(e->k[1])); else r = Z3_mk_eq(c, tr(e->k[0]), tr(e->k[1])); break;
      case Op::Ult: r = Z3_mk_bvult(c, tr(e->k[0]), tr(e->k[1])); break;
      case Op::Ule: r = Z3_mk_bvule(c, tr(e->k[0]), tr(e->k[1])); break;
      case Op::Slt: r = Z3_mk_bvslt(c, tr(e->k[0]), tr(e->k[1])); break;
      case Op::Sle: r = Z3_mk_bvsle(c, tr(e->k[0]), tr(e->k[1])); break;
      case Op::Ite: r = Z3_mk_ite(c, trB(e->k[0]), trB(e->k[1]), trB(e->k[2])); break;
      case Op::FOlt: r = Z3_mk_fpa_lt(c, tofp(tr(e->k[0]), e->k[0]->w), tofp(tr(e->k[1]), e->k[1]->w)); break;
      case Op::FOle: r = Z3_mk_fpa_leq(c, tofp(tr(e->k[0]), e->k[0]->w), tofp(tr(e->k[1]), e->k[1]->w)); break;
      case Op::FOeq: r = Z3_mk_fpa_eq(c, tofp(tr(e->k[0]), e->k[0]->w), tofp(tr(e->k[1]), e->k[1]->w)); break;
      case Op::FUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(c, tofp(tr(e->k[0]), e->k[0]->w)), Z3_mk_fpa_is_nan(c, tofp(tr(e->k[1]), e->k[1]->w))}; r = Z3_mk_or(c, 2, x); break; }
      default: r = Z3_mk_eq(c, tr(e), Z3_mk_unsigned_int64(c, 1, bv(1)));
    }
    Z3_inc_ref(c, r);
    bcache[e->id] = r;
    return r;
  }
  Z3_ast tr(E e) {
    if (cache.size() <= e->id) cache.resize(P.all.size() + 1024, nullptr);
    if (cache[e->id]) return cache[e->id];
    Z3_ast r;
    auto K = [&](int i) { return tr(e->k[i]); };
    switch (e->op) {
      case Op::Const:
        if (e->w <= 64) r = Z3_mk_unsigned_int64(c, e->cv->getZExtValue(), bv(e->w));
        else { SmallString<64> str; e->cv->toStringUnsigned(str, 10); r = Z3_mk_numeral(c, str.c_str(), bv(e->w)); }
        break;
      case Op::Var: r = Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), bv(e->w)); break;
      case Op::Add: r = Z3_mk_bvadd(c, K(0), K(1)); break;
      case Op::Sub: r = Z3_mk_bvsub(c, K(0), K(1)); break;
      case Op::Mul: r = Z3_mk_bvmul(c, K(0), K(1)); break;
      case Op::UDiv: r = Z3_mk_bvudiv(c, K(0), K(1)); break;
      case Op::SDiv: r = Z3_mk_bvsdiv(c, K(0), K(1)); break;
      case Op::URem: r = Z3_mk_bvurem(c, K(0), K(1)); break;
      case Op::SRem: r = Z3_mk_bvsrem(c, K(0), K(1)); break;
      case Op::And: if (e->w == 1) { r = b2v(trB(e)); break; } r = Z3_mk_bvand(c, K(0), K(1)); break;
      case Op::Or: if (e->w == 1) { r = b2v(trB(e)); break; } r = Z3_mk_bvor(c, K(0), K(1)); break;
      case Op::Xor: if (e->w == 1) { r = b2v(trB(e)); break; } r = Z3_mk_bvxor(c, K(0), K(1)); break;
      case Op::Shl: r = Z3_mk_bvshl(c, K(0), K(1)); break;
      case Op::LShr: r = Z3_mk_bvlshr(c, K(0), K(1)); break;
      case Op::AShr: r = Z3_mk_bvashr(c, K(0), K(1)); break;
      case Op::Concat: r = Z3_mk_concat(c, K(0), K(1)); break;
      case Op::Extract: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, K(0)); break;
      case Op::ZExt: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, K(0)); break;
      case Op::SExt: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, K(0)); break;
      case Op::Ite: r = Z3_mk_ite(c, trB(e->k[0]), K(1), K(2)); break;
      case Op::FAdd: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne, tofp(K(0), e->w), tofp(K(1), e->w))); break;
      case Op::FSub: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne, tofp(K(0), e->w), tofp(K(1), e->w))); break;
      case Op::FMul: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne, tofp(K(0), e->w), tofp(K(1), e->w))); break;
      case Op::FDiv: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne, tofp(K(0), e->w), tofp(K(1), e->w))); break;
      case Op::SIToF: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, K(0), e->w == 32 ? fs32 : fs64)); break;
      case Op::UIToF: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, K(0), e->w == 32 ? fs32 : fs64)); break;
      case Op::FToSI: r = Z3_mk_fpa_to_sbv(c, rtz, tofp(K(0), e->k[0]->w), e->w); break;
      case Op::FToUI: r = Z3_mk_fpa_to_ubv(c, rtz, tofp(K(0), e->k[0]->w), e->w); break;
      case Op::FExt: case Op::FTrunc: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, tofp(K(0), e->k[0]->w), e->w == 32 ? fs32 : fs64)); break;
      default: r = b2v(trB(e));
    }
    Z3_inc_ref(c, r);
    if (cache.size() <= e->id) cache.resize(P.all.size() + 1024, nullptr);
    cache[e->id] = r;
    return r;
  }
  // returns 1 sat, 0 unsat, -1 unknown; fills values for vars
  int check(const vector<E>& cs, vector<std::pair<uint32_t, uint64_t>>* vals) {
    double t = now();
    S.queries++;
    if (++nq % 20000 == 0) newSolver();
    size_t i = 0;
    while (i < stack.size() && i < cs.size() && stack[i] == cs[i]) ++i;
    if (stack.size() > i) { Z3_solver_pop(c, s, stack.size() - i); stack.resize(i); }
    for (; i < cs.size(); ++i) {
      Z3_solver_push(c, s);
      Z3_solver_assert(c, s, trB(cs[i]));
      stack.push_back(cs[i]);
    }
    Z3_lbool r = Z3_solver_check(c, s);
    Z3_solver used = s, once = nullptr;
    if (r == Z3_L_UNDEF) {
      // the incremental solver gave up after a second: decide the query with the non-incremental procedure for bit vectors
      bool fp = false;
      std::set<E> seen;
      vector<E> todo(cs.begin(), cs.end());
      while (!todo.empty() && !fp) {
        E e = todo.back(); todo.pop_back();
        if (!seen.insert(e).second) continue;
        fp |= e->op >= Op::FAdd;
        for (auto k : e->k) if (k) todo.push_back(k);
      }
      if (getenv("CSYM_SLOW")) fprintf(stderr, "slow query, %zu constraints, fp=%d\n%s\n", cs.size(), fp, Z3_solver_to_string(c, s));
      Z3_tactic tac = Z3_mk_tactic(c, fp ? "qffp" : "qfbv");
      Z3_tactic_inc_ref(c, tac);
      once = Z3_mk_solver_from_tactic(c, tac);
      Z3_solver_inc_ref(c, once);
      Z3_tactic_dec_ref(c, tac);
      for (E e : cs) Z3_solver_assert(c, once, trB(e));
      r = Z3_solver_check(c, once);
      used = once;
      S.oneshot++;
    }
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1 && vals) {
      Z3_model m = Z3_solver_get_model(c, used);
      Z3_model_inc_ref(c, m);
      const VarSet* vs = P.emptySet;
      for (E e : cs) vs = P.unite(vs, e->vars);
      for (size_t wi = 0; wi < vs->w.size(); ++wi)
        for (uint64_t bits = vs->w[wi]; bits; bits &= bits - 1) {
          uint32_t id = wi * 64 + __builtin_ctzll(bits);
          Z3_func_decl d = Z3_mk_func_decl(c, Z3_mk_int_symbol(c, id), 0, nullptr, bv(P.varWidth[id]));
          Z3_inc_ref(c, (Z3_ast)d);
          Z3_ast a = Z3_model_get_const_interp(c, m, d);
          uint64_t x = 0;
          if (a) Z3_get_numeral_uint64(c, a, &x);
          Z3_dec_ref(c, (Z3_ast)d);
          vals->push_back({id, x});
        }
      Z3_model_dec_ref(c, m);
    }
    if (once) Z3_solver_dec_ref(c, once);
    S.solverTime += now() - t;
    if (res == 1) S.qsat++; else if (res == 0) S.qunsat++;
    return res;
  }
};
static Solver Z;

// ---------------------------------------------------------------- module
static LLVMContext* Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;

struct Opnd { int reg = -1; V k; };
struct DI {
  const Instruction* I;
  unsigned opc;
  int dst = -1;
  uint32_t w = 0;
  vector<Opnd> ops;
  // GEP: constant offset + scaled regs
  uint64_t cOff = 0;
  vector<uint64_t> scale;
  const Function* callee = nullptr;
  int b0 = -1, b1 = -1;  // branch targets
};
struct DBB { vector<DI> ins; const BasicBlock* bb; size_t firstNonPhi = 0; };
struct DFunc { const Function* F; vector<DBB> bbs; DenseMap<const BasicBlock*, int> bi; int nregs = 0; };

static std::map<const Function*, std::unique_ptr<DFunc>> dfuncs;
static std::map<const GlobalValue*, uint64_t> gaddr;
static std::map<uint64_t, const Function*> faddr;

static uint32_t tyBits(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isVoidTy()) return 0;
  if (auto* s = dyn_cast<StructType>(t)) { uint32_t w = 0; for (auto* e : s->elements()) w += tyBits(e); return w; }
  if (auto* a = dyn_cast<ArrayType>(t)) return tyBits(a->getElementType()) * a->getNumElements();
  if (auto* v = dyn_cast<FixedVectorType>(t)) return tyBits(v->getElementType()) * v->getNumElements();
  if (t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
  errs() << "type? " << *t << "\n";
  abort();
}

struct Unsupported { string what; };

static V constV(const Constant* C);
static uint64_t constU(const Constant* C) {
  V v = constV(C);
  if (!v.conc()) throw Unsupported{"non-concrete constant"};
  return v.c;
}
static E UNDEF_E = nullptr;
static V zeroOf(uint32_t w) { return w <= 64 ? V(w, 0) : fromE(P.cst(APInt(w, 0))); }
static V constV(const Constant* C) {
  Type* t = C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C)) return mkC(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(C)) return mkC(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(tyBits(t));
  if (isa<UndefValue>(C)) return zeroOf(tyBits(t));
  if (auto* gv = dyn_cast<GlobalValue>(C)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constV(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) throw Unsupported{"global " + gv->getName().str()};
    return V(64, it->second);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
        return V(64, constU(ce->getOperand(0)) + off.getZExtValue());
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        V v = constV(ce->getOperand(0));
        uint32_t w = tyBits(t);
        return w <= v.w ? mkExtract(v, 0, w) : mkZExt(v, w);
      }
      case Instruction::Trunc: return mkExtract(constV(ce->getOperand(0)), 0, tyBits(t));
      case Instruction::Add: return mkBin(Op::Add, constV(ce->getOperand(0)), constV(ce->getOperand(1)));
      case Instruction::Sub: return mkBin(Op::Sub, constV(ce->getOperand(0)), constV(ce->getOperand(1)));
      case Instruction::Mul: return mkBin(Op::Mul, constV(ce->getOperand(0)), constV(ce->getOperand(1)));
      case Instruction::And: return mkBin(Op::And, constV(ce->getOperand(0)), constV(ce->getOperand(1)));
      case Instruction::Or: return mkBin(Op::Or, constV(ce->getOperand(0)), constV(ce->getOperand(1)));
      case Instruction::ICmp: {
        V a = constV(ce->getOperand(0)), b = constV(ce->getOperand(1));
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: return mkEq(a, b);
          case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
          case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
          case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
          default: throw Unsupported{"const icmp"};
        }
      }
      default: throw Unsupported{"constexpr opcode " + string(ce->getOpcodeName())};
    }
  }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C) || isa<ConstantDataSequential>(C)) {
    unsigned n;
    if (auto* cds = dyn_cast<ConstantDataSequential>(C)) n = cds->getNumElements(); else n = C->getNumOperands();
    V r; bool first = true;
    for (unsigned i = 0; i < n; ++i) {
      V x = constV(C->getAggregateElement(i));
      if (first) { r = x; first = false; } else r = mkConcat(x, r);
    }
    return r;
  }
  string s; raw_string_ostream os(s); os << *C;
  throw Unsupported{"constant " + os.str().substr(0, 80)};
}

static DFunc* decode(const Function* F) {
  auto& slot = dfuncs[F];
  if (slot) return slot.get();
  auto d = std::make_unique<DFunc>();
  d->F = F;
  DenseMap<const Value*, int> reg;
  int n = 0;
  for (auto& a : F->args()) reg[&a] = n++;
  int bi = 0;
  for (auto& bb : *F) {
    d->bi[&bb] = bi++;
    for (auto& i : bb) if (!i.getType()->isVoidTy()) reg[&i] = n++;
  }
  d->nregs = n;
  for (auto& bb : *F) {
    DBB db;
    db.bb = &bb;
    for (auto& i : bb) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      DI x;
      x.I = &i;
      x.opc = i.getOpcode();
      auto it = reg.find(&i);
      if (it != reg.end()) x.dst = it->second;
      x.w = i.getType()->isVoidTy() ? 0 : tyBits(i.getType());
      auto opnd = [&](const Value* v) {
        Opnd o;
        auto r = reg.find(v);
        if (r != reg.end()) o.reg = r->second;
        else if (auto* c = dyn_cast<Constant>(v)) {
          if (!isa<BlockAddress>(c) ) o.k = constV(c);
        }
        return o;
      };
      if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        x.ops.push_back(opnd(g->getPointerOperand()));
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          if (auto* st = gti.getStructTypeOrNull()) {
            x.cOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gti.getOperand())->getZExtValue());
          } else {
            uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(gti.getOperand())) x.cOff += sz * ci->getSExtValue();
            else { x.ops.push_back(opnd(gti.getOperand())); x.scale.push_back(sz); }
          }
        }
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        x.callee = cb->getCalledFunction();
        if (!x.callee) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) x.callee = dyn_cast<Function>(ga->getAliaseeObject());
        for (auto& a : cb->args()) {
          if (isa<MetadataAsValue>(a.get())) x.ops.push_back(Opnd{}); else x.ops.push_back(opnd(a.get()));
        }
        if (!x.callee) x.ops.push_back(opnd(cb->getCalledOperand()));
        if (auto* inv = dyn_cast<InvokeInst>(&i)) { x.b0 = d->bi[inv->getNormalDest()]; x.b1 = d->bi[inv->getUnwindDest()]; }
      } else if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) { x.ops.push_back(opnd(br->getCondition())); x.b1 = d->bi[br->getSuccessor(1)]; }
        x.b0 = d->bi[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        x.ops.push_back(opnd(sw->getCondition()));
      } else if (isa<PHINode>(&i) || isa<LandingPadInst>(&i)) {
        if (auto* p = dyn_cast<PHINode>(&i)) for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) x.ops.push_back(opnd(p->getIncomingValue(k)));
      } else {
        for (auto& o : i.operands()) x.ops.push_back(opnd(o.get()));
      }
      if (!isa<PHINode>(&i) && db.firstNonPhi == 0 && false) {}
      db.ins.push_back(std::move(x));
    }
    size_t f = 0;
    while (f < db.ins.size() && db.ins[f].opc == Instruction::PHI) ++f;
    db.firstNonPhi = f;
    d->bbs.push_back(std::move(db));
  }
  slot = std::move(d);
  return slot.get();
}

// ---------------------------------------------------------------- memory
static Expr UNINIT_NODE{Op::Uninit, 8, 0xffffffff, 0, {nullptr, nullptr, nullptr}, nullptr, nullptr};
static const E UNINIT = &UNINIT_NODE;

struct Content {
  vector<uint8_t> b;
  vector<E> s;  // empty = all concrete
};
enum Kind : uint8_t { KGlobal, KHeap, KStack };
struct Obj {
  uint64_t base = 0, size = 0;
  Kind kind = KHeap;
  bool alive = true, ro = false;
  uint8_t how = 0;  // allocation function class: 1 malloc, 2 new, 3 new[]
  std::shared_ptr<Content> c;
  const char* name = "";
  Content& mut() {
    if (c.use_count() > 1) c = std::make_shared<Content>(*c);
    return *c;
  }
};

struct Frame {
  DFunc* f;
  int bb = 0;
  size_t ip = 0;
  vector<V> regs;
  size_t stackMark = 0;
  const DI* call = nullptr;  // call site in the caller
};

struct InRec { string name; std::shared_ptr<vector<uint32_t>> ids; };
struct Exc { uint64_t obj = 0, ti = 0; };

struct State {
  vector<Frame> fr;
  vector<Obj> heap, stack, glob;
  uint64_t heapTop = 0x200000000000ULL, stackTop = 0x7f0000000000ULL;
  vector<E> cons;
  std::unordered_map<E, uint64_t> known;
  Model model;
  vector<InRec> inputs;
  vector<V> obs;
  Exc cur;  // in-flight exception
  std::map<uint64_t, uint64_t> excTi;  // exception object -> typeinfo
  vector<uint64_t> caught;
  uint64_t steps = 0;
  int64_t liveHeap = 0;
  int64_t allocFailAt = -1, allocCount = 0;
  uint32_t id = 0, depth = 0;
  vector<string> trace;
  vector<vector<Frame>> fibers;  // call stacks of the other threads, fibers[0] is the main thread's
  int fiber = 0, switchTo = -1;
};
typedef std::unique_ptr<State> SP;

struct PathEnd { int kind; string msg; };  // 0 ok, 1 assume, 2 violation, 3 error, 4 limit
struct Retry {};

static vector<SP> work;
static std::map<string, std::unordered_map<uint32_t, uint32_t>> dummy;
// variables are shared between paths: n-th symbolic input of given (name, width) creation index
static std::map<std::pair<string, uint32_t>, uint32_t> varTab;
static E byteVar(const string& name, uint32_t idx) {
  auto key = std::make_pair(name, idx);
  auto it = varTab.find(key);
  static std::map<uint32_t, E> es;
  if (it != varTab.end()) return es[it->second];
  E e = P.newVar(8, name + "#" + std::to_string(idx));
  varTab[key] = e->aux;
  es[e->aux] = e;
  return e;
}

// ---------------------------------------------------------------- queries
static void slice(const State& st, E cond, vector<E>& out) {
  const VarSet* vs = cond->vars;
  size_t n = st.cons.size();
  static vector<char> in;
  in.assign(n, 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < n; ++i)
      if (!in[i] && ExprPool::intersects(st.cons[i]->vars, vs)) {
        in[i] = 1;
        const VarSet* nv = P.unite(vs, st.cons[i]->vars);
        if (nv != vs) { vs = nv; ch = true; }
      }
  }
  for (size_t i = 0; i < n; ++i) if (in[i]) out.push_back(st.cons[i]);
}
struct VecHash { size_t operator()(const vector<uint32_t>& v) const { size_t h = 1469598103934665603ULL; for (auto x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
struct CacheEnt { int res; vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<vector<uint32_t>, CacheEnt, VecHash> qcache;

// is path && cond satisfiable? if yes, returns updated model
static bool sat(const State& st, E cond, Model* out) {
  if (isC(cond)) { if (!cond->cv->isZero() && out) *out = st.model; return !cond->cv->isZero(); }
  vector<E> cs;
  slice(st, cond, cs);
  vector<uint32_t> key;
  key.reserve(cs.size() + 1);
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.push_back(cond->id);
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    cs.push_back(cond);
    CacheEnt ce;
    ce.res = Z.check(cs, &ce.m);
    if (ce.res < 0) throw PathEnd{3, "solver returned unknown"};
    if (qcache.size() > 2000000) qcache.clear();
    it = qcache.emplace(std::move(key), std::move(ce)).first;
  } else S.qcache++;
  if (it->second.res == 1 && out) {
    *out = st.model;
    for (auto& p : it->second.m) out->set(p.first, p.second);
  }
  return it->second.res == 1;
}

static void addCons(State& st, E c) {
  if (isC(c)) return;
  if (c->op == Op::And) { addCons(st, c->k[0]); addCons(st, c->k[1]); return; }
  if (st.known.count(c)) return;
  st.cons.push_back(c);
  st.known[c] = 1;
  if (c->op == Op::Xor && isC(c->k[1])) st.known[c->k[0]] = 0;
  else st.known[eNot(c)] = 0;
  if (c->op == Op::Eq && isC(c->k[1]) && c->k[0]->w <= 64) st.known[c->k[0]] = c->k[1]->cv->getZExtValue();
}
static V kn(const State& st, const V& v) {
  if (v.conc()) return v;
  auto it = st.known.find(v.e);
  if (it != st.known.end()) return V(v.w, it->second);
  return v;
}

static SP fork_(State& st) {
  S.forks++;
  auto n = std::make_unique<State>(st);
  n->depth++;
  st.depth++;
  return n;
}

// Decide a 1-bit condition; forks when both outcomes are feasible (the other state re-executes the instruction).
static bool decide(State& st, V c) {
  c = kn(st, c);
  if (c.conc()) return c.c;
  bool b = evalV(c, st.model);
  E pos = b ? c.e : eNot(c.e), neg = b ? eNot(c.e) : c.e;
  Model m;
  if (sat(st, neg, &m)) {
    SP n = fork_(st);
    n->model = std::move(m);
    addCons(*n, neg);
    work.push_back(std::move(n));
    addCons(st, pos);
  } else {
    st.known[c.e] = b;
  }
  return b;
}

static uint64_t concretize(State& st, V v) {
  v = kn(st, v);
  if (v.conc()) return v.c;
  if (v.w > 64) throw PathEnd{3, "concretize wide"};
  uint64_t x = evalV(v, st.model);
  E eq = eBin(Op::Eq, v.e, P.cst(v.w, x));
  if (isC(eq)) return x;
  E ne = eNot(eq);
  Model m;
  if (sat(st, ne, &m)) {
    SP n = fork_(st);
    n->model = std::move(m);
    addCons(*n, ne);
    work.push_back(std::move(n));
    addCons(st, eq);
  } else st.known[v.e] = x;
  return x;
}

static bool mustBe(State& st, V c, bool want) {  // is c == want on all values?
  c = kn(st, c);
  if (c.conc()) return c.c == want;
  if (evalV(c, st.model) != want) return false;
  return !sat(st, want ? eNot(c.e) : c.e, nullptr);
}

static Obj* findIn(vector<Obj>& v, uint64_t a) {
  size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].base <= a) lo = m + 1; else hi = m; }
  if (lo == 0) return nullptr;
  Obj& o = v[lo - 1];
  if (a < o.base + o.size || (o.size == 0 && a == o.base)) return &o;
  return nullptr;
}
static vector<Obj>& region(State& st, uint64_t a) {
  if (a >= 0x7f0000000000ULL) return st.stack;
  if (a >= 0x100000000000ULL) return st.heap;
  return st.glob;
}
static Obj* find(State& st, uint64_t a) { return findIn(region(st, a), a); }

static string hex(uint64_t x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
static string describe(State& st, uint64_t a) {
  auto& r = region(st, a);
  string s = hex(a);
  Obj* o = find(st, a);
  if (o) return s + (o->alive ? " (inside " : " (freed ") + std::to_string(o->size) + "-byte object +" + std::to_string(a - o->base) + ")";
  for (size_t i = r.size(); i-- > 0;)
    if (r[i].base <= a) { if (a - r[i].base - r[i].size < 4096) return s + " (" + std::to_string(a - r[i].base - r[i].size) + " past end of " + std::to_string(r[i].size) + "-byte object " + r[i].name + ")"; break; }
  return s;
}

static uint64_t allocObj(State& st, Kind k, uint64_t size, uint64_t align, const char* name, bool zero = false) {
  uint64_t& top = k == KHeap ? st.heapTop : st.stackTop;
  uint64_t a = std::max<uint64_t>(align, 16);
  top = (top + a - 1) / a * a;
  Obj o;
  o.base = top;
  o.size = size;
  o.kind = k;
  o.name = name;
  o.c = std::make_shared<Content>();
  o.c->b.assign(size, 0);
  if (!zero) o.c->s.assign(size, UNINIT);
  top += size + 256;
  (k == KHeap ? st.heap : st.stack).push_back(std::move(o));
  if (k == KHeap) st.liveHeap++;
  return k == KHeap ? st.heap.back().base : st.stack.back().base;
}

[[noreturn]] static void violate(const string& m) { throw PathEnd{2, m}; }

static uint32_t uninitCount(State& st) {
  uint32_t n = 0;
  for (auto& r : st.inputs) if (r.name == "$uninit") n++;
  return n;
}
static V rdByte(State& st, Obj& o, uint64_t off) {
  if (o.c->s.empty()) return V(8, o.c->b[off]);
  E e = o.c->s[off];
  if (!e) return V(8, o.c->b[off]);
  if (e == UNINIT) {
    E v = byteVar("$uninit", uninitCount(st));
    st.inputs.push_back(InRec{"$uninit", std::make_shared<vector<uint32_t>>(1, v->aux)});
    o.mut().s[off] = v;
    return fromE(v);
  }
  auto it = st.known.find(e);
  if (it != st.known.end()) return V(8, it->second);
  return fromE(e);
}
static void wrByte(Obj& o, uint64_t off, const V& v) {
  Content& c = o.mut();
  if (v.conc()) { c.b[off] = (uint8_t)v.c; if (!c.s.empty()) c.s[off] = nullptr; }
  else { if (c.s.empty()) c.s.assign(c.b.size(), nullptr); c.s[off] = v.e; }
}
static V rdAt(State& st, Obj& o, uint64_t off, uint32_t n) {
  if (n <= 8 && o.c->s.empty()) {
    uint64_t x = 0;
    memcpy(&x, &o.c->b[off], n);
    return V(n * 8, x);
  }
  bool allc = true;
  if (n <= 8) {
    for (uint32_t i = 0; i < n && allc; ++i) if (o.c->s[off + i]) allc = false;
    if (allc) { uint64_t x = 0; memcpy(&x, &o.c->b[off], n); return V(n * 8, x); }
  }
  // reassemble runs of consecutive bytes of one stored value
  V r(0, 0);
  for (uint32_t i = 0; i < n;) {
    V b = rdByte(st, o, off + i);
    uint32_t k = 1;
    if (b.e && b.e->op == Op::Extract) {
      while (i + k < n) {
        V b2 = rdByte(st, o, off + i + k);
        if (!b2.e || b2.e->op != Op::Extract || b2.e->k[0] != b.e->k[0] || b2.e->aux != b.e->aux + 8 * k) break;
        ++k;
      }
      b = fromE(eExtract(b.e->k[0], b.e->aux, 8 * k));
    }
    r = i ? mkConcat(b, r) : b;
    i += k;
  }
  return r;
}
static V storedByte(const V& v, uint32_t i) {
  V b = mkExtract(v, 8 * i, 8);
  if (v.e && v.w > 8 && !b.conc()) switch (v.e->op) {
    case Op::Add: case Op::Sub: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::Ite:
      return fromE(P.raw(Op::Extract, 8, 8 * i, v.e));
    default: break;
  }
  return b;
}
static void wrAt(Obj& o, uint64_t off, const V& v, uint32_t n) {
  if (v.conc() && n <= 8) {
    Content& c = o.mut();
    for (uint32_t i = 0; i < n; ++i) c.b[off + i] = (uint8_t)(v.c >> (8 * i));
    if (!c.s.empty()) for (uint32_t i = 0; i < n; ++i) c.s[off + i] = nullptr;
    return;
  }
  for (uint32_t i = 0; i < n; ++i) wrByte(o, off + i, storedByte(v, i));
}

// Resolve an access [addr, addr+n): returns object; addr may be symbolic inside it.
static Obj* resolve(State& st, V& addr, uint64_t n, bool write) {
  S.derefs++;
  addr = kn(st, addr);
  const char* what = write ? "write" : "read";
  if (addr.conc()) {
    Obj* o = find(st, addr.c);
    if (!o || addr.c + n > o->base + o->size)
      violate(string("invalid ") + what + " of " + std::to_string(n) + " bytes at " + describe(st, addr.c));
    if (!o->alive) violate(string("use after free: ") + what + " at " + describe(st, addr.c));
    if (write && o->ro) violate(string("write to read-only ") + describe(st, addr.c));
    return o;
  }
  S.symDerefs++;
  uint64_t a = evalV(addr, st.model);
  Obj* o = find(st, a);
  if (!o || a + n > o->base + o->size || !o->alive || (write && o->ro))
    violate(string("invalid symbolic ") + what + " of " + std::to_string(n) + " bytes at " + describe(st, a));
  // in range for all values?
  V off = mkBin(Op::Sub, addr, V(64, o->base));
  V inr = mkBin(Op::Ule, off, V(64, o->size - n));
  inr = kn(st, inr);
  if (inr.conc() && inr.c) return o;
  if (!inr.conc()) {
    Model m;
    if (sat(st, eNot(inr.e), &m)) {
      uint64_t a2 = evalV(addr, m);
      Obj* o2 = find(st, a2);
      if (!o2 || a2 + n > o2->base + o2->size || !o2->alive || (write && o2->ro)) {
        st.model = m;
        addCons(st, eNot(inr.e));
        violate(string("invalid symbolic ") + what + " of " + std::to_string(n) + " bytes at " + describe(st, a2));
      }
      SP f = fork_(st);
      f->model = m;
      addCons(*f, eNot(inr.e));
      work.push_back(std::move(f));
      addCons(st, inr.e);
      return find(st, a);
    }
    st.known[inr.e] = 1;
  }
  return o;
}

static V load(State& st, V addr, uint32_t n) {
  if (n == 0) return V(0, 0);
  Obj* o = resolve(st, addr, n, false);
  if (addr.conc()) return rdAt(st, *o, addr.c - o->base, n);
  // symbolic offset
  uint64_t base = o->base;
  unsigned tz = std::min(12u, knownTrailingZeros(toE(addr)));
  uint64_t step = 1ULL << tz;
  uint64_t first = (base + step - 1) / step * step - base;
  uint64_t cnt = o->size < n + first ? 0 : (o->size - n - first) / step + 1;
  if (cnt > O.iteLimit) {
    uint64_t a = concretize(st, addr);
    o = find(st, a);
    return rdAt(st, *o, a - o->base, n);
  }
  V r;
  bool f = true;
  for (uint64_t off = first; off + n <= o->size; off += step) {
    V x = rdAt(st, *o, off, n);
    if (f) { r = x; f = false; }
    else r = mkIte(mkEq(addr, V(64, base + off)), x, r);
  }
  return r;
}
static void store(State& st, V addr, const V& v, uint32_t n) {
  if (n == 0) return;
  Obj* o = resolve(st, addr, n, true);
  if (addr.conc()) { wrAt(*o, addr.c - o->base, v, n); return; }
  uint64_t base = o->base;
  unsigned tz = std::min(12u, knownTrailingZeros(toE(addr)));
  uint64_t step = 1ULL << tz;
  uint64_t first = (base + step - 1) / step * step - base;
  uint64_t cnt = o->size < n + first ? 0 : (o->size - n - first) / step + 1;
  if (cnt > O.iteLimit || step < n) {
    uint64_t a = concretize(st, addr);
    o = find(st, a);
    wrAt(*o, a - o->base, v, n);
    return;
  }
  for (uint64_t off = first; off + n <= o->size; off += step) {
    V old = rdAt(st, *o, off, n);
    wrAt(*o, off, mkIte(mkEq(addr, V(64, base + off)), v, old), n);
  }
}

// typed load/store (aggregates are stored according to the layout; registers hold packed bits)
static V loadTy(State& st, V addr, Type* t) {
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(s);
    V r; bool f = true;
    for (unsigned i = 0; i < s->getNumElements(); ++i) {
      V x = loadTy(st, mkBin(Op::Add, addr, V(64, sl->getElementOffset(i))), s->getElementType(i));
      if (x.w == 0) continue;
      if (f) { r = x; f = false; } else r = mkConcat(x, r);
    }
    return r;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    V r; bool f = true;
    for (unsigned i = 0; i < a->getNumElements(); ++i) {
      V x = loadTy(st, mkBin(Op::Add, addr, V(64, es * i)), a->getElementType());
      if (f) { r = x; f = false; } else r = mkConcat(x, r);
    }
    return r;
  }
  uint32_t w = tyBits(t);
  V v = load(st, addr, (w + 7) / 8);
  return mkExtract(v, 0, w);
}
static void storeTy(State& st, V addr, const V& v, Type* t) {
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(s);
    uint32_t p = 0;
    for (unsigned i = 0; i < s->getNumElements(); ++i) {
      uint32_t w = tyBits(s->getElementType(i));
      if (!w) continue;
      storeTy(st, mkBin(Op::Add, addr, V(64, sl->getElementOffset(i))), mkExtract(v, p, w), s->getElementType(i));
      p += w;
    }
    return;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    uint32_t w = tyBits(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); ++i)
      storeTy(st, mkBin(Op::Add, addr, V(64, es * i)), mkExtract(v, i * w, w), a->getElementType());
    return;
  }
  uint32_t w = tyBits(t);
  uint32_t n = (w + 7) / 8;
  store(st, addr, n * 8 == w ? v : mkZExt(v, n * 8), n);
}

static string cstr(State& st, uint64_t a) {
  string s;
  for (;;) {
    V v = load(st, V(64, a++), 1);
    if (!v.conc()) { s += '?'; continue; }
    if (!v.c) return s;
    s += (char)v.c;
    if (s.size() > 4096) return s;
  }
}

// ---------------------------------------------------------------- output of results
static string modelJson(State& st) {
  string r = "[";
  bool f = true;
  for (auto& in : st.inputs) {
    if (!f) r += ",";
    f = false;
    r += "[\"" + jesc(in.name) + "\",\"";
    for (uint32_t id : *in.ids) { char b[4]; snprintf(b, 4, "%02x", (unsigned)(st.model.get(id) & 255)); r += b; }
    r += "\"]";
  }
  return r + "]";
}
static string where(State& st) {
  string r;
  int k = 0;
  for (size_t i = st.fr.size(); i-- > 0 && k < 12; ++k) {
    auto& f = st.fr[i];
    if (!r.empty()) r += " <- ";
    r += demangle(f.f->F->getName().str()).substr(0, 160);
    auto& bb = f.f->bbs[f.bb];
    size_t ip = i + 1 == st.fr.size() ? f.ip : (f.ip ? f.ip - 1 : 0);
    if (ip < bb.ins.size())
      if (auto& dl = bb.ins[ip].I->getDebugLoc()) r += ":" + std::to_string(dl.getLine());
  }
  return r;
}
static uint64_t obsHash(State& st, Model& m, string* list) {
  uint64_t h = 1469598103934665603ULL;
  for (auto& v : st.obs) {
    uint64_t x = evalV(v, m);
    for (int i = 0; i < 8; ++i) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ULL; }
    if (list) { if (!list->empty()) *list += ","; *list += std::to_string(x); }
  }
  return h;
}
static bool usesUninit(State& st) { for (auto& r : st.inputs) if (r.name == "$uninit") return true; return false; }

static uint64_t rng = 88172645463325252ULL;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static uint64_t samplesOut = 0;
static void finish(State& st, const PathEnd& pe) {
  S.steps += 0;
  if (pe.kind == 1) { S.assumeKilled++; return; }
  if (pe.kind == 0) {
    S.paths++;
    uint64_t n = SH->paths++;
    // reservoir-ish: the first few of each process, then sparsely
    if (samplesOut < 4 || (rnd() % (1 + n / std::max(1, O.samples))) == 0) {
      if (samplesOut < (uint64_t)O.samples * 4) {
        samplesOut++;
        fprintf(OUT, "{\"t\":\"path\",\"inputs\":%s,\"obs\":\"%llu\",\"nobs\":%zu,\"uninit\":%d,\"cons\":%zu}\n", modelJson(st).c_str(),
                (unsigned long long)obsHash(st, st.model, nullptr), st.obs.size(), (int)usesUninit(st), st.cons.size());
      }
    }
    if (n >= O.maxPaths) { SH->incomplete = 1; SH->stop = 1; }
    return;
  }
  string w;
  if (!st.fr.empty()) w = where(st);
  if (pe.kind == 2) {
    SH->violations++;
    fprintf(OUT, "{\"t\":\"violation\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":%s}\n", jesc(pe.msg).c_str(), jesc(w).c_str(), modelJson(st).c_str());
    fflush(OUT);
    if (!O.all) SH->stop = 1;
  } else if (pe.kind == 3) {
    S.errors.insert(pe.msg + " @ " + w);
    SH->incomplete = 1;
  } else {
    S.limit++;
    fprintf(OUT, "{\"t\":\"limit\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":%s}\n", jesc(pe.msg).c_str(), jesc(w).c_str(), modelJson(st).c_str());
    fflush(OUT);
    SH->incomplete = 1;
    if (!O.all) SH->stop = 1;
  }
}

// ---------------------------------------------------------------- execution
static V rd(State& st, const Frame& f, const Opnd& o) {
  if (o.reg < 0) return o.k;
  return f.regs[o.reg];
}

static void jump(State& st, Frame& f, int target) {
  DBB& to = f.f->bbs[target];
  const BasicBlock* from = f.f->bbs[f.bb].bb;
  if (to.firstNonPhi) {
    static vector<V> tmp;
    tmp.clear();
    for (size_t i = 0; i < to.firstNonPhi; ++i) {
      auto* p = cast<PHINode>(to.ins[i].I);
      int k = p->getBasicBlockIndex(from);
      tmp.push_back(rd(st, f, to.ins[i].ops[k]));
    }
    for (size_t i = 0; i < to.firstNonPhi; ++i) f.regs[to.ins[i].dst] = tmp[i];
  }
  f.bb = target;
  f.ip = to.firstNonPhi;
}

static void pushCall(State& st, const Function* F, const vector<V>& args, const DI* call) {
  if (st.fr.size() > 1500) violate("stack overflow (recursion depth > 1500)");
  DFunc* d = decode(F);
  S.funcs.insert(F);
  Frame f;
  f.f = d;
  f.regs.resize(d->nregs);
  if (args.size() < F->arg_size()) throw PathEnd{3, "arg count " + F->getName().str()};
  for (size_t i = 0; i < F->arg_size(); ++i) {
    f.regs[i] = args[i];
    if (F->hasParamAttribute(i, Attribute::ByVal)) {
      Type* t = F->getParamByValType(i);
      uint64_t sz = DL->getTypeAllocSize(t);
      uint64_t src = concretize(st, args[i]);
      uint64_t a = allocObj(st, KStack, sz, 16, "byval");
      Obj* so = find(st, src);
      if (!so || src + sz > so->base + so->size) violate("byval read out of bounds");
      Obj* d2 = &st.stack.back();
      uint64_t o0 = src - so->base;
      for (uint64_t k = 0; k < sz; ++k) {
        Content& dc = d2->mut();
        dc.b[k] = so->c->b[o0 + k];
        dc.s[k] = so->c->s.empty() ? nullptr : so->c->s[o0 + k];
      }
      f.regs[i] = V(64, a);
    }
  }
  f.call = call;
  f.stackMark = st.stack.size();
  st.fr.push_back(std::move(f));
}

// byval copies are allocated before stackMark is taken: drop them too
static void popFrame(State& st) {
  size_t m = st.fr.back().stackMark;
  if (st.fibers.empty())  // threads share the stack area: keep all objects
    while (st.stack.size() > m) st.stack.pop_back();
  st.fr.pop_back();
}

static bool isDerivedStd(const string& from, const string& to) {
  static const std::map<string, string> base = {
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
      {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
      {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
  string c = from;
  for (;;) {
    if (c == to) return true;
    auto it = base.find(c);
    if (it == base.end()) return false;
    c = it->second;
  }
}
static std::map<uint64_t, string> addrName;
static std::map<string, uint64_t> nameAddr;
static bool tiMatches(State& st, uint64_t ti, uint64_t want) {
  for (int d = 0; d < 10; ++d) {
    if (ti == want) return true;
    string n = addrName[ti], wn = addrName[want];
    if (isDerivedStd(n, wn)) return true;
    auto* gv = M->getGlobalVariable(n, true);
    if (!gv || !gv->hasInitializer()) return false;
    auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer());
    if (!cs || cs->getNumOperands() < 3) return false;  // no base
    if (cs->getNumOperands() == 3) ti = constU(cs->getOperand(2));
    else {  // vmi
      for (unsigned i = 4; i < cs->getNumOperands(); i += 2)
        if (tiMatches(st, constU(cs->getOperand(i)), want)) return true;
      return false;
    }
  }
  return false;
}
static uint64_t typeId(uint64_t ti) { return ti == 0 ? 1 : (ti & 0x7fffffff); }

static void unwind(State& st) {
  // st.cur set; look for invoke call sites
  for (;;) {
    const DI* call = st.fr.back().call;
    popFrame(st);
    if (st.fr.empty()) violate("uncaught exception of type " + demangle(addrName[st.cur.ti]));
    if (call && call->opc == Instruction::Invoke) {
      Frame& f = st.fr.back();
      auto* lp = cast<InvokeInst>(call->I)->getLandingPadInst();
      bool ok = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses() && !ok; ++i) {
        if (lp->isCatch(i)) {
          uint64_t want = constU(lp->getClause(i));
          if (want == 0 || tiMatches(st, st.cur.ti, want)) ok = true;
        } else ok = true;
      }
      if (ok) {
        // f.bb/ip currently past the invoke; jump from the block containing it
        f.bb = f.f->bi[call->I->getParent()];
        jump(st, f, call->b1);
        return;
      }
    } else if (call && st.fr.size() && false) {}
    if (call == nullptr && st.fr.size()) { /* ctor frame boundary */ }
  }
}
static void throwFromHere(State& st, const DI& call) {
  // exception raised by external function called at `call` in the current top frame
  if (call.opc == Instruction::Invoke) {
    Frame& f = st.fr.back();
    auto* lp = cast<InvokeInst>(call.I)->getLandingPadInst();
    bool ok = lp->isCleanup();
    for (unsigned i = 0; i < lp->getNumClauses() && !ok; ++i) {
      if (lp->isCatch(i)) {
        uint64_t want = constU(lp->getClause(i));
        if (want == 0 || tiMatches(st, st.cur.ti, want)) ok = true;
      } else ok = true;
    }
    if (ok) { jump(st, f, call.b1); return; }
  }
  unwind(st);
}
static uint64_t tiAddr(const string& n) {
  auto it = nameAddr.find(n);
  if (it != nameAddr.end()) return it->second;
  uint64_t a = 0x30000000ULL + nameAddr.size() * 64;
  nameAddr[n] = a;
  addrName[a] = n;
  return a;
}

typedef std::function<V(State&, const DI&, vector<V>&)> Ext;
static std::map<string, Ext> exts;

// ---------- memory block helpers
static void copyBytes(State& st, uint64_t d, uint64_t s, uint64_t n, const char* what) {
  if (n == 0) return;
  V da(64, d), sa(64, s);
  Obj* so = resolve(st, sa, n, false);
  Obj* dob = resolve(st, da, n, true);
  uint64_t so0 = s - so->base, do0 = d - dob->base;
  vector<uint8_t> tb(so->c->b.begin() + so0, so->c->b.begin() + so0 + n);
  vector<E> ts;
  if (!so->c->s.empty()) ts.assign(so->c->s.begin() + so0, so->c->s.begin() + so0 + n);
  Content& c = dob->mut();
  memcpy(&c.b[do0], tb.data(), n);
  if (!ts.empty()) {
    if (c.s.empty()) c.s.assign(c.b.size(), nullptr);
    std::copy(ts.begin(), ts.end(), c.s.begin() + do0);
  } else if (!c.s.empty()) std::fill(c.s.begin() + do0, c.s.begin() + do0 + n, nullptr);
}
static V memcmpV(State& st, uint64_t a, uint64_t b, uint64_t n, bool eqOnly) {
  if (n == 0) return V(32, 0);
  V av(64, a), bv(64, b);
  resolve(st, av, n, false);
  resolve(st, bv, n, false);
  Obj *oa = find(st, a), *ob = find(st, b);
  if (eqOnly) {
    V ne(1, 0);
    for (uint64_t i = n; i-- > 0;) {
      V x = rdByte(st, *oa, a - oa->base + i), y = rdByte(st, *ob, b - ob->base + i);
      ne = mkOr(mkNot(mkEq(x, y)), ne);
      if (ne.conc() && ne.c) return V(32, 1);
    }
    return mkZExt(ne, 32);
  }
  V r(32, 0);
  for (uint64_t i = n; i-- > 0;) {
    V x = rdByte(st, *oa, a - oa->base + i), y = rdByte(st, *ob, b - ob->base + i);
    V d = mkIte(mkBin(Op::Ult, x, y), V(32, (uint64_t)-1), V(32, 1));
    r = mkIte(mkEq(x, y), r, d);
  }
  return r;
}

static V ctpopV(const V& x) {
  if (x.conc()) return V(x.w, __builtin_popcountll(x.c));
  V r(x.w, 0);
  for (uint32_t i = 0; i < x.w; ++i) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), x.w));
  return r;
}
static V ctlzV(const V& x) {
  V r(x.w, x.w);
  for (uint32_t i = 0; i < x.w; ++i) r = mkIte(mkExtract(x, i, 1), V(x.w, x.w - 1 - i), r);
  return r;
}
static V cttzV(const V& x) {
  V r(x.w, x.w);
  for (uint32_t i = x.w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), V(x.w, i), r);
  return r;
}

static V doMalloc(State& st, V size, uint64_t align, const char* name, bool zero, bool isNew, const DI& call, uint8_t how) {
  size = kn(st, size);
  if (!size.conc()) {
    V big = mkBin(Op::Ult, V(64, O.maxAlloc), size);
    if (decide(st, big)) return V(64, 0);
    size = V(64, concretize(st, size));
  }
  if (size.c > O.maxAlloc) return V(64, 0);
  st.allocCount++;
  if (st.allocFailAt >= 0 && st.allocCount > st.allocFailAt) return V(64, 0);
  uint64_t a = allocObj(st, KHeap, size.c, align, name, zero);
  st.heap.back().how = how;
  return V(64, a);
}
static void doFree(State& st, V p, uint8_t how) {
  uint64_t a = concretize(st, p);
  if (a == 0) return;
  Obj* o = find(st, a);
  if (!o) violate("free of invalid pointer " + describe(st, a));
  if (!o->alive) violate("double free of " + describe(st, a));
  if (o->kind != KHeap) violate("free of non-heap pointer " + describe(st, a));
  if (o->base != a) violate("free of interior pointer " + describe(st, a));
  if (o->how != how) violate("mismatched allocation/deallocation functions at " + describe(st, a));
  o->alive = false;
  o->c = nullptr;
  st.liveHeap--;
}
static void raise(State& st, const string& ti) {
  uint64_t obj = allocObj(st, KHeap, 32, 16, "exception", true);
  st.liveHeap--;
  st.cur = Exc{obj, tiAddr(ti)};
  st.excTi[obj] = st.cur.ti;
}
struct Thrown {};  // external function raised st.cur

static uint64_t U(State& st, const V& v) { return concretize(st, v); }

static void initExts() {
  auto A = [&](std::initializer_list<const char*> n, Ext f) { for (auto* x : n) exts[x] = f; };
  // ---- verification intrinsics
  A({"vs_sym"}, [](State& st, const DI&, vector<V>& a) {
    uint64_t p = U(st, a[0]), n = U(st, a[1]);
    string nm = cstr(st, U(st, a[2]));
    uint32_t k = 0;
    for (auto& r : st.inputs) if (r.name == nm) k += r.ids->size();
    V pv(64, p);
    if (n == 0) return V();
    Obj* o = resolve(st, pv, n, true);
    auto ids = std::make_shared<vector<uint32_t>>();
    for (uint64_t i = 0; i < n; ++i) {
      E e = byteVar(nm, k + i);
      ids->push_back(e->aux);
      wrByte(*o, p - o->base + i, fromE(e));
    }
    st.inputs.push_back(InRec{nm, ids});
    return V();
  });
  A({"vs_assume"}, [](State& st, const DI&, vector<V>& a) {
    V c = kn(st, mkExtract(a[0], 0, 1));
    if (c.conc()) { if (!c.c) throw PathEnd{1, ""}; return V(); }
    if (!evalV(c, st.model)) {
      Model m;
      if (!sat(st, c.e, &m)) throw PathEnd{1, ""};
      st.model = m;
    }
    addCons(st, c.e);
    return V();
  });
  A({"vs_assert"}, [](State& st, const DI&, vector<V>& a) {
    V c = kn(st, mkExtract(a[0], 0, 1));
    S.asserts++;
    string msg;
    { V p = kn(st, a[1]); msg = p.conc() ? cstr(st, p.c) : "?"; }
    S.assertSites[msg]++;
    if (c.conc()) { if (!c.c) violate("assertion failed: " + msg); return V(); }
    if (!evalV(c, st.model)) violate("assertion failed: " + msg);
    Model m;
    if (sat(st, eNot(c.e), &m)) {
      st.model = m;
      addCons(st, eNot(c.e));
      violate("assertion failed: " + msg);
    }
    st.known[c.e] = 1;
    return V();
  });
  A({"vs_reach"}, [](State& st, const DI&, vector<V>& a) { S.reach.insert(cstr(st, U(st, a[0]))); return V(); });
  A({"vs_observe"}, [](State& st, const DI&, vector<V>& a) { st.obs.push_back(a[0]); return V(); });
  A({"vs_concrete"}, [](State& st, const DI&, vector<V>& a) { return V(64, concretize(st, a[0])); });
  A({"vs_branch"}, [](State& st, const DI&, vector<V>& a) { return V(32, decide(st, mkExtract(a[0], 0, 1))); });
  A({"vs_fiber_new"}, [](State& st, const DI& d, vector<V>& a) {  // new thread of control f(arg), not started; returns its number
    auto it = faddr.find(concretize(st, a[0]));
    if (it == faddr.end()) violate("thread function is not a function");
    if (st.fibers.empty()) st.fibers.emplace_back();
    vector<Frame> cur;
    cur.swap(st.fr);
    pushCall(st, it->second, {a[1]}, nullptr);
    st.fibers.push_back(std::move(st.fr));
    st.fr = std::move(cur);
    return V(32, st.fibers.size() - 1);
  });
  A({"vs_fiber_switch"}, [](State& st, const DI&, vector<V>& a) { st.switchTo = (int)U(st, a[0]); return V(); });
  A({"vs_heap_live"}, [](State& st, const DI&, vector<V>& a) { return V(64, (uint64_t)st.liveHeap); });
  A({"vs_is_symbolic_run"}, [](State& st, const DI&, vector<V>& a) { return V(32, 1); });
  A({"vs_set_readonly"}, [](State& st, const DI&, vector<V>& a) {
    uint64_t p = U(st, a[0]);
    Obj* o = find(st, p);
    if (o) o->ro = U(st, a[1]) != 0;
    return V();
  });
  A({"vs_poison"}, [](State& st, const DI&, vector<V>& a) {  // make memory inaccessible (as freed)
    uint64_t p = U(st, a[0]);
    Obj* o = find(st, p);
    if (o) o->alive = false;
    return V();
  });
  A({"vs_alloc_fail_after"}, [](State& st, const DI&, vector<V>& a) {
    st.allocFailAt = (int64_t)U(st, a[0]);
    st.allocCount = 0;
    return V();
  });
  A({"vs_print"}, [](State& st, const DI&, vector<V>& a) {
    if (O.verbose) fprintf(stderr, "[print] %s\n", a[0].conc() ? std::to_string(a[0].c).c_str() : ("sym~" + std::to_string(evalV(a[0], st.model))).c_str());
    return V();
  });
  // ---- allocation
  A({"malloc"}, [](State& st, const DI& d, vector<V>& a) { return doMalloc(st, a[0], 16, "malloc", false, false, d, 1); });
  A({"calloc"}, [](State& st, const DI& d, vector<V>& a) { return doMalloc(st, mkBin(Op::Mul, a[0], a[1]), 16, "calloc", true, false, d, 1); });
  A({"aligned_alloc", "memalign"}, [](State& st, const DI& d, vector<V>& a) { return doMalloc(st, a[1], U(st, a[0]), "aligned_alloc", false, false, d, 1); });
  A({"posix_memalign"}, [](State& st, const DI& d, vector<V>& a) {
    V p = doMalloc(st, a[2], U(st, a[1]), "posix_memalign", false, false, d, 1);
    if (p.c == 0) return V(32, 12);
    store(st, a[0], p, 8);
    return V(32, 0);
  });
  A({"realloc"}, [](State& st, const DI& d, vector<V>& a) {
    uint64_t old = U(st, a[0]);
    V n = doMalloc(st, a[1], 16, "realloc", false, false, d, 1);
    if (n.c == 0) return n;
    if (old) {
      Obj* o = find(st, old);
      if (!o || !o->alive || o->base != old) violate("realloc of invalid pointer " + describe(st, old));
      Obj* no = find(st, n.c);
      copyBytes(st, n.c, old, std::min(o->size, no->size), "realloc");
      doFree(st, V(64, old), 1);
    }
    return n;
  });
  A({"free"}, [](State& st, const DI& d, vector<V>& a) { doFree(st, a[0], 1); return V(); });
  auto NEW = [](uint8_t how) {
    return [how](State& st, const DI& d, vector<V>& a) {
      V p = doMalloc(st, a[0], 16, "new", false, true, d, how);
      if (p.c == 0) { raise(st, "_ZTISt9bad_alloc"); throw Thrown{}; }
      return p;
    };
  };
  auto NEWA = [](uint8_t how) {
    return [how](State& st, const DI& d, vector<V>& a) {
      V p = doMalloc(st, a[0], U(st, a[1]), "new", false, true, d, how);
      if (p.c == 0) { raise(st, "_ZTISt9bad_alloc"); throw Thrown{}; }
      return p;
    };
  };
  A({"_Znwm"}, NEW(2));
  A({"_Znam"}, NEW(3));
  A({"_ZnwmSt11align_val_t"}, NEWA(4));
  A({"_ZnamSt11align_val_t"}, NEWA(5));
  A({"_ZnwmRKSt9nothrow_t"}, [](State& st, const DI& d, vector<V>& a) { return doMalloc(st, a[0], 16, "new", false, false, d, 2); });
  A({"_ZnamRKSt9nothrow_t"}, [](State& st, const DI& d, vector<V>& a) { return doMalloc(st, a[0], 16, "new", false, false, d, 3); });
  A({"_ZdlPv", "_ZdlPvm"}, [](State& st, const DI& d, vector<V>& a) { doFree(st, a[0], 2); return V(); });
  A({"_ZdaPv", "_ZdaPvm"}, [](State& st, const DI& d, vector<V>& a) { doFree(st, a[0], 3); return V(); });
  A({"_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, [](State& st, const DI& d, vector<V>& a) { doFree(st, a[0], 4); return V(); });
  A({"_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}, [](State& st, const DI& d, vector<V>& a) { doFree(st, a[0], 5); return V(); });
  // ---- C strings/memory
  A({"memcpy", "memmove"}, [](State& st, const DI& d, vector<V>& a) {
    uint64_t n = U(st, a[2]), dd = U(st, a[0]), ss = U(st, a[1]);
    copyBytes(st, dd, ss, n, "memcpy");
    return V(64, dd);
  });
  A({"memset"}, [](State& st, const DI& d, vector<V>& a) {
    uint64_t n = U(st, a[2]), dd = U(st, a[0]);
    V p(64, dd);
    if (n) {
      Obj* o = resolve(st, p, n, true);
      V b = mkExtract(a[1], 0, 8);
      for (uint64_t i = 0; i < n; ++i) wrByte(*o, dd - o->base + i, b);
    }
    return V(64, dd);
  });
  A({"memcmp"}, [](State& st, const DI& d, vector<V>& a) { uint64_t n = U(st, a[2]), x = U(st, a[0]), y = U(st, a[1]); return memcmpV(st, x, y, n, false); });
  A({"bcmp"}, [](State& st, const DI& d, vector<V>& a) { uint64_t n = U(st, a[2]), x = U(st, a[0]), y = U(st, a[1]); return memcmpV(st, x, y, n, true); });
  A({"strlen"}, [](State& st, const DI& d, vector<V>& a) {
    uint64_t p = U(st, a[0]);
    for (uint64_t i = 0;; ++i) {
      V b = load(st, V(64, p + i), 1);
      if (decide(st, mkEq(b, V(8, 0)))) return V(64, i);
    }
  });
  A({"memchr"}, [](State& st, const DI& d, vector<V>& a) {
    uint64_t n = U(st, a[2]), p = U(st, a[0]);
    V c = mkExtract(a[1], 0, 8);
    for (uint64_t i = 0; i < n; ++i) {
      V b = load(st, V(64, p + i), 1);
      if (decide(st, mkEq(b, c))) return V(64, p + i);
    }
    return V(64, 0);
  });
  // ---- process
  A({"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "exit", "_exit"}, [](State& st, const DI& d, vector<V>& a) -> V { violate("program aborted (" + d.callee->getName().str() + ")"); });
  A({"__assert_fail"}, [](State& st, const DI& d, vector<V>& a) -> V { violate("library assertion failed: " + cstr(st, U(st, a[0]))); });
  A({"_ZSt21__glibcxx_assert_failPKciS0_S0_"}, [](State& st, const DI& d, vector<V>& a) -> V { violate("libstdc++ assertion failed"); });
  A({"__cxa_atexit", "atexit", "__cxa_thread_atexit"}, [](State& st, const DI& d, vector<V>& a) { return V(32, 0); });
  A({"__cxa_guard_acquire"}, [](State& st, const DI& d, vector<V>& a) { V b = load(st, a[0], 1); return V(32, U(st, b) == 0); });
  A({"__cxa_guard_release"}, [](State& st, const DI& d, vector<V>& a) { store(st, a[0], V(8, 1), 1); return V(); });
  A({"__cxa_guard_abort"}, [](State& st, const DI& d, vector<V>& a) { return V(); });
  A({"__errno_location"}, [](State& st, const DI& d, vector<V>& a) { return V(64, nameAddr["$errno"]); });
  A({"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}, [](State& st, const DI& d, vector<V>& a) { return V(); });
  A({"printf", "puts", "putchar", "fprintf", "fflush", "fwrite", "perror"}, [](State& st, const DI& d, vector<V>& a) { return V(d.w ? d.w : 32, 0); });
  // ---- exceptions
  A({"__cxa_allocate_exception"}, [](State& st, const DI& d, vector<V>& a) {
    uint64_t p = allocObj(st, KHeap, U(st, a[0]), 16, "exception", true);
    st.liveHeap--;
    return V(64, p);
  });
  A({"__cxa_free_exception"}, [](State& st, const DI& d, vector<V>& a) { return V(); });
  A({"__cxa_throw"}, [](State& st, const DI& d, vector<V>& a) -> V {
    st.cur = Exc{U(st, a[0]), U(st, a[1])};
    st.excTi[st.cur.obj] = st.cur.ti;
    throw Thrown{};
  });
  A({"__cxa_rethrow"}, [](State& st, const DI& d, vector<V>& a) -> V {
    if (st.caught.empty()) violate("rethrow without exception");
    uint64_t o = st.caught.back();
    st.cur = Exc{o, st.excTi[o]};
    throw Thrown{};
  });
  A({"__cxa_begin_catch"}, [](State& st, const DI& d, vector<V>& a) { uint64_t p = U(st, a[0]); st.caught.push_back(p); return V(64, p); });
  A({"__cxa_get_exception_ptr"}, [](State& st, const DI& d, vector<V>& a) { return a[0]; });
  A({"__cxa_end_catch"}, [](State& st, const DI& d, vector<V>& a) { if (!st.caught.empty()) st.caught.pop_back(); return V(); });
  auto TH = [&](std::initializer_list<const char*> n, const char* ti) {
    string t = ti;
    A(n, [t](State& st, const DI& d, vector<V>& a) -> V { raise(st, t); throw Thrown{}; });
  };
  TH({"_ZSt20__throw_length_errorPKc"}, "_ZTISt12length_error");
  TH({"_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz"}, "_ZTISt12out_of_range");
  TH({"_ZSt19__throw_logic_errorPKc"}, "_ZTISt11logic_error");
  TH({"_ZSt17__throw_bad_allocv"}, "_ZTISt9bad_alloc");
  TH({"_ZSt28__throw_bad_array_new_lengthv", "__cxa_throw_bad_array_new_length"}, "_ZTISt20bad_array_new_length");
  TH({"_ZSt25__throw_bad_function_callv"}, "_ZTISt17bad_function_call");
  TH({"_ZSt26__throw_bad_variant_accessPKc", "_ZSt26__throw_bad_variant_accessb"}, "_ZTISt18bad_variant_access");
  TH({"_ZSt27__throw_bad_optional_accessv"}, "_ZTISt19bad_optional_access");
  A({"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12system_errorD1Ev",
     "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
     "_ZNSt13runtime_errorC1ERKS_", "_ZNSt12out_of_rangeC1ERKS_","_ZNSt12length_errorC1EPKc","_ZNSt12length_errorD1Ev"},
    [](State& st, const DI& d, vector<V>& a) { return V(); });
}

static V intrinsic(State& st, Frame& f, const DI& d, vector<V>& a) {
  auto id = d.callee->getIntrinsicID();
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore:
    case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::invariant_start:
      return d.w ? V(d.w, 0) : V();
    case Intrinsic::stacksave: return V(64, 0);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
      return a[0];
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::ptrmask: return mkAnd(a[0], a[1]);
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = U(st, a[2]), dd = U(st, a[0]), ss = U(st, a[1]);
      copyBytes(st, dd, ss, n, "memcpy");
      return V();
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: return exts["memset"](st, d, a), V();
    case Intrinsic::umax: return mkIte(mkBin(Op::Ult, a[0], a[1]), a[1], a[0]);
    case Intrinsic::umin: return mkIte(mkBin(Op::Ult, a[0], a[1]), a[0], a[1]);
    case Intrinsic::smax: return mkIte(mkBin(Op::Slt, a[0], a[1]), a[1], a[0]);
    case Intrinsic::smin: return mkIte(mkBin(Op::Slt, a[0], a[1]), a[0], a[1]);
    case Intrinsic::abs: return mkIte(mkBin(Op::Slt, a[0], zeroOf(a[0].w)), mkBin(Op::Sub, zeroOf(a[0].w), a[0]), a[0]);
    case Intrinsic::ctpop: return ctpopV(a[0]);
    case Intrinsic::ctlz: return ctlzV(a[0]);
    case Intrinsic::cttz: return cttzV(a[0]);
    case Intrinsic::bswap: {
      V r = mkExtract(a[0], 0, 8);
      for (uint32_t i = 8; i < a[0].w; i += 8) r = mkConcat(r, mkExtract(a[0], i, 8));
      return r;
    }
    case Intrinsic::bitreverse: {
      V r = mkExtract(a[0], 0, 1);
      for (uint32_t i = 1; i < a[0].w; ++i) r = mkConcat(r, mkExtract(a[0], i, 1));
      return r;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      uint32_t w = a[0].w;
      V s = mkBin(Op::URem, a[2], w <= 64 ? V(w, w) : fromE(P.cst(w, w)));
      V wide = mkConcat(a[0], a[1]);
      V s2 = mkZExt(s, 2 * w);
      if (id == Intrinsic::fshl) return mkExtract(mkBin(Op::Shl, wide, s2), w, w);
      return mkExtract(mkBin(Op::LShr, wide, s2), 0, w);
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
      bool sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
      uint32_t w = a[0].w, ww = mul ? 2 * w : w + 1;
      auto ex = [&](V x) { return sg ? mkSExt(x, ww) : mkZExt(x, ww); };
      V r = mkBin(mul ? Op::Mul : sub ? Op::Sub : Op::Add, ex(a[0]), ex(a[1]));
      V lo = mkExtract(r, 0, w);
      V ov = mkNot(mkEq(r, ex(lo)));
      return mkConcat(ov, lo);
    }
    case Intrinsic::uadd_sat: { V r = mkBin(Op::Add, a[0], a[1]); return mkIte(mkBin(Op::Ult, r, a[0]), mkNot(zeroOf(r.w)), r); }
    case Intrinsic::usub_sat: return mkIte(mkBin(Op::Ult, a[0], a[1]), zeroOf(a[0].w), mkBin(Op::Sub, a[0], a[1]));
    case Intrinsic::objectsize: return V(64, (uint64_t)-1);
    case Intrinsic::is_constant: return V(1, 0);
    case Intrinsic::trap: case Intrinsic::debugtrap: violate("trap");
    case Intrinsic::ubsantrap: {
      static const std::map<int, const char*> names = {{0, "add overflow"}, {1, "builtin unreachable"}, {3, "division by zero/overflow"}, {10, "load of invalid bool/enum value"}, {11, "missing return"}, {12, "mul overflow"}, {13, "negate overflow"}, {18, "out of bounds array index"}, {19, "pointer overflow"}, {20, "shift out of bounds"}, {21, "sub overflow"}, {22, "misaligned or null pointer access"}};
      int k = (int)a[0].c;
      violate("undefined behaviour trap " + std::to_string(k) + (names.count(k) ? string(" (") + names.at(k) + ")" : ""));
    }
    case Intrinsic::eh_typeid_for: { V t = a[0]; return V(32, typeId(t.c)); }
    case Intrinsic::fabs: return mkAnd(a[0], V(a[0].w, maskw(a[0].w - 1)));
    case Intrinsic::fmuladd: return fromE(eF(Op::FAdd, d.w, eF(Op::FMul, d.w, toE(a[0]), toE(a[1])), toE(a[2])));
    case Intrinsic::minnum: case Intrinsic::maxnum: {
      V lt = fromE(eF(Op::FOlt, 1, toE(a[0]), toE(a[1])));
      V nan = fromE(eF(Op::FUno, 1, toE(a[0]), toE(a[0])));
      V nan1 = fromE(eF(Op::FUno, 1, toE(a[1]), toE(a[1])));
      V r = id == Intrinsic::minnum ? mkIte(lt, a[0], a[1]) : mkIte(lt, a[1], a[0]);
      return mkIte(nan, a[1], mkIte(nan1, a[0], r));
    }
    case Intrinsic::load_relative: {
      uint64_t p = U(st, a[0]), o = U(st, a[1]);
      V v = load(st, V(64, p + o), 4);
      return V(64, p + (uint64_t)sextw(U(st, v), 32));
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
      uint32_t ew = d.w;
      V r = mkExtract(a[0], 0, ew);
      for (uint32_t p = ew; p < a[0].w; p += ew)
        r = mkBin(id == Intrinsic::vector_reduce_or ? Op::Or : id == Intrinsic::vector_reduce_and ? Op::And : id == Intrinsic::vector_reduce_xor ? Op::Xor : Op::Add, r, mkExtract(a[0], p, ew));
      return r;
    }
    default: throw PathEnd{3, "intrinsic " + d.callee->getName().str()};
  }
}

static V fcmp(CmpInst::Predicate p, const V& a, const V& b) {
  auto F = [&](Op o, const V& x, const V& y) { return fromE(eF(o, 1, toE(x), toE(y))); };
  V t(1, 1), z(1, 0);
  switch (p) {
    case CmpInst::FCMP_FALSE: return z;
    case CmpInst::FCMP_TRUE: return t;
    case CmpInst::FCMP_OEQ: return F(Op::FOeq, a, b);
    case CmpInst::FCMP_OGT: return F(Op::FOlt, b, a);
    case CmpInst::FCMP_OGE: return F(Op::FOle, b, a);
    case CmpInst::FCMP_OLT: return F(Op::FOlt, a, b);
    case CmpInst::FCMP_OLE: return F(Op::FOle, a, b);
    case CmpInst::FCMP_UNO: return F(Op::FUno, a, b);
    case CmpInst::FCMP_ORD: return mkNot(F(Op::FUno, a, b));
    case CmpInst::FCMP_UNE: return mkNot(F(Op::FOeq, a, b));
    case CmpInst::FCMP_UGT: return mkNot(F(Op::FOle, a, b));
    case CmpInst::FCMP_UGE: return mkNot(F(Op::FOlt, a, b));
    case CmpInst::FCMP_ULT: return mkNot(F(Op::FOle, b, a));
    case CmpInst::FCMP_ULE: return mkNot(F(Op::FOlt, b, a));
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(F(Op::FUno, a, b)), mkNot(F(Op::FOeq, a, b)));
    case CmpInst::FCMP_UEQ: return mkOr(F(Op::FUno, a, b), F(Op::FOeq, a, b));
    default: abort();
  }
}
static V icmp(CmpInst::Predicate p, const V& a, const V& b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    default: abort();
  }
}
static V vecMap2(Type* t, const V& a, const V& b, std::function<V(const V&, const V&)> f) {
  auto* vt = dyn_cast<FixedVectorType>(t);
  if (!vt) return f(a, b);
  uint32_t ew = tyBits(vt->getElementType()), n = vt->getNumElements();
  V r;
  for (uint32_t i = 0; i < n; ++i) {
    V x = f(mkExtract(a, i * ew, ew), mkExtract(b, i * ew, ew));
    r = i ? mkConcat(x, r) : x;
  }
  return r;
}
static V vecMap1(Type* t, const V& a, std::function<V(const V&)> f) {
  auto* vt = dyn_cast<FixedVectorType>(t);
  if (!vt) return f(a);
  uint32_t ew = tyBits(vt->getElementType()), n = vt->getNumElements();
  V r;
  for (uint32_t i = 0; i < n; ++i) {
    V x = f(mkExtract(a, i * ew, ew));
    r = i ? mkConcat(x, r) : x;
  }
  return r;
}

static std::pair<uint32_t, uint32_t> aggPos(Type* t, ArrayRef<unsigned> idx) {
  uint32_t p = 0;
  for (unsigned i : idx) {
    if (auto* s = dyn_cast<StructType>(t)) {
      for (unsigned k = 0; k < i; ++k) p += tyBits(s->getElementType(k));
      t = s->getElementType(i);
    } else {
      auto* a = cast<ArrayType>(t);
      p += tyBits(a->getElementType()) * i;
      t = a->getElementType();
    }
  }
  return {p, tyBits(t)};
}
static V insertBits(const V& agg, uint32_t p, const V& x) {
  if (x.w == agg.w) return x;
  V r = x;
  if (p) r = mkConcat(r, mkExtract(agg, 0, p));
  if (p + x.w < agg.w) r = mkConcat(mkExtract(agg, p + x.w, agg.w - p - x.w), r);
  return r;
}

static void doCall(State& st, Frame& f, const DI& d) {
  auto* cb = cast<CallBase>(d.I);
  const Function* F = d.callee;
  size_t nargs = cb->arg_size();
  vector<V> args;
  args.reserve(nargs);
  for (size_t i = 0; i < nargs; ++i) args.push_back(rd(st, f, d.ops[i]));
  if (!F) {
    if (cb->isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand());
      if (ia->getAsmString().empty()) { f.ip++; return; }
      throw PathEnd{3, "inline asm"};
    }
    uint64_t a = concretize(st, rd(st, f, d.ops[nargs]));
    auto it = faddr.find(a);
    if (it == faddr.end()) violate("indirect call to invalid address " + hex(a));
    F = it->second;
  }
  if (F->isIntrinsic()) {
    DI tmp;
    V r = intrinsic(st, f, d, args);
    if (d.dst >= 0) f.regs[d.dst] = r;
    f.ip++;
    return;
  }
  if (F->isDeclaration()) {  // a harness may model an operating system function f as __wrap_f
    static std::unordered_map<const Function*, const Function*> wraps;
    auto w = wraps.find(F);
    if (w == wraps.end()) {
      auto* W = F->getParent()->getFunction(("__wrap_" + F->getName()).str());
      w = wraps.emplace(F, W && !W->isDeclaration() ? W : F).first;
    }
    F = w->second;
  }
  static std::unordered_map<const Function*, std::map<string, Ext>::iterator> extCache;
  auto ec = extCache.find(F);
  if (ec == extCache.end()) ec = extCache.emplace(F, exts.find(F->getName().str())).first;
  auto ext = ec->second;
  if (ext != exts.end() || F->isDeclaration()) {
    if (ext == exts.end()) {
      // constructors/destructors/what() of the standard exception classes carry no state we model
      static const char* exn[] = {"_ZNSt9exception", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12out_of_range", "_ZNSt12length_error", "_ZNSt16invalid_argument", "_ZNSt12domain_error",
                                  "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error", "_ZNSt12system_error", "_ZNSt9bad_alloc", "_ZNSt8bad_cast"};
      auto nm = F->getName();
      bool std_exc = false;
      for (auto e : exn) {
        auto n = strlen(e);
        if (nm.starts_with(e) && nm.size() > n + 1 && ((nm[n] == 'C' || nm[n] == 'D') && isdigit(nm[n + 1]))) std_exc = true;
      }
      if (!std_exc) throw PathEnd{3, "external function " + F->getName().str()};
      ext = exts.emplace(nm.str(), [](State&, const DI&, vector<V>&) { return V(); }).first;
      ec->second = ext;
    }
    DI dd;
    const DI* dp = &d;
    if (!d.callee) { dd = d; dd.callee = F; dp = &dd; }
    try {
      V r = ext->second(st, *dp, args);
      if (d.dst >= 0) { if (r.w != d.w) r = V(d.w, 0); f.regs[d.dst] = r; }
      if (d.opc == Instruction::Invoke) jump(st, f, d.b0); else f.ip++;
      if (st.switchTo >= 0) {
        auto to = (size_t)st.switchTo;
        st.switchTo = -1;
        if (to >= st.fibers.size()) violate("switch to a thread that does not exist");
        if ((int)to != st.fiber) {
          st.fibers[st.fiber].swap(st.fr);
          st.fr.swap(st.fibers[to]);
          st.fiber = (int)to;
        }
      }
    } catch (Thrown&) {
      throwFromHere(st, d);
    }
    return;
  }
  pushCall(st, F, args, &d);  // the caller's ip stays at the call until return (byval concretisation may fork before)
  st.fr[st.fr.size() - 2].ip++;
}

static void step(State& st) {
  Frame& f = st.fr.back();
  const DI& d = f.f->bbs[f.bb].ins[f.ip];
  auto R = [&](int i) { return rd(st, f, d.ops[i]); };
  auto set = [&](const V& v) { f.regs[d.dst] = v; f.ip++; };
  auto bin = [&](Op op) {
    set(vecMap2(d.I->getType(), R(0), R(1), [&](const V& a, const V& b) { return mkBin(op, a, b); }));
  };
  switch (d.opc) {
    case Instruction::Add: { V a = R(0), b = R(1); if (a.conc() && b.conc() && !d.I->getType()->isVectorTy()) set(V(a.w, a.c + b.c)); else bin(Op::Add); return; }
    case Instruction::Sub: bin(Op::Sub); return;
    case Instruction::Mul: bin(Op::Mul); return;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      V b = R(1);
      if (decide(st, mkEq(b, zeroOf(b.w)))) violate("division by zero");
      bin(d.opc == Instruction::UDiv ? Op::UDiv : d.opc == Instruction::SDiv ? Op::SDiv : d.opc == Instruction::URem ? Op::URem : Op::SRem);
      return;
    }
    case Instruction::And: bin(Op::And); return;
    case Instruction::Or: bin(Op::Or); return;
    case Instruction::Xor: bin(Op::Xor); return;
    case Instruction::Shl: bin(Op::Shl); return;
    case Instruction::LShr: bin(Op::LShr); return;
    case Instruction::AShr: bin(Op::AShr); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      Op op = d.opc == Instruction::FAdd ? Op::FAdd : d.opc == Instruction::FSub ? Op::FSub : d.opc == Instruction::FMul ? Op::FMul : Op::FDiv;
      set(vecMap2(d.I->getType(), R(0), R(1), [&](const V& a, const V& b) { return fromE(eF(op, a.w, toE(a), toE(b))); }));
      return;
    }
    case Instruction::FNeg: set(vecMap1(d.I->getType(), R(0), [&](const V& a) { return fromE(eF(Op::FNeg, a.w, toE(a), nullptr)); })); return;
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(d.I)->getPredicate();
      Type* t = d.I->getOperand(0)->getType();
      set(vecMap2(t, R(0), R(1), [&](const V& a, const V& b) { return icmp(p, a, b); }));
      return;
    }
    case Instruction::FCmp: {
      auto p = cast<FCmpInst>(d.I)->getPredicate();
      set(vecMap2(d.I->getOperand(0)->getType(), R(0), R(1), [&](const V& a, const V& b) { return fcmp(p, a, b); }));
      return;
    }
    case Instruction::Trunc: {
      if (d.I->getType()->isVectorTy()) { uint32_t ew = tyBits(cast<VectorType>(d.I->getType())->getElementType()); set(vecMap1(d.I->getOperand(0)->getType(), R(0), [&](const V& a) { return mkExtract(a, 0, ew); })); return; }
      set(mkExtract(R(0), 0, d.w)); return;
    }
    case Instruction::ZExt: case Instruction::SExt: {
      bool z = d.opc == Instruction::ZExt;
      if (d.I->getType()->isVectorTy()) { uint32_t ew = tyBits(cast<VectorType>(d.I->getType())->getElementType()); set(vecMap1(d.I->getOperand(0)->getType(), R(0), [&](const V& a) { return z ? mkZExt(a, ew) : mkSExt(a, ew); })); return; }
      set(z ? mkZExt(R(0), d.w) : mkSExt(R(0), d.w)); return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { V a = R(0); set(a.w >= d.w ? mkExtract(a, 0, d.w) : mkZExt(a, d.w)); return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: set(R(0)); return;
    case Instruction::SIToFP: set(vecMap1(d.I->getOperand(0)->getType(), R(0), [&](const V& a) { return fromE(eF(Op::SIToF, tyBits(d.I->getType()->getScalarType()), toE(a), nullptr)); })); return;
    case Instruction::UIToFP: set(vecMap1(d.I->getOperand(0)->getType(), R(0), [&](const V& a) { return fromE(eF(Op::UIToF, tyBits(d.I->getType()->getScalarType()), toE(a), nullptr)); })); return;
    case Instruction::FPToSI: set(fromE(eF(Op::FToSI, d.w, toE(R(0)), nullptr))); return;
    case Instruction::FPToUI: set(fromE(eF(Op::FToUI, d.w, toE(R(0)), nullptr))); return;
    case Instruction::FPExt: case Instruction::FPTrunc: set(fromE(eF(d.opc == Instruction::FPExt ? Op::FExt : Op::FTrunc, d.w, toE(R(0)), nullptr))); return;
    case Instruction::GetElementPtr: {
      V r = R(0);
      if (d.I->getType()->isVectorTy()) throw PathEnd{3, "vector gep"};
      for (size_t i = 0; i < d.scale.size(); ++i) {
        V x = R(i + 1);
        if (x.w < 64) x = mkSExt(x, 64);
        else if (x.w > 64) x = mkExtract(x, 0, 64);
        x = kn(st, x);
        r = mkBin(Op::Add, r, mkBin(Op::Mul, x, V(64, d.scale[i])));
      }
      set(mkBin(Op::Add, r, V(64, d.cOff)));
      return;
    }
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(d.I);
      uint64_t n = concretize(st, R(0)), sz = DL->getTypeAllocSize(ai->getAllocatedType());
      set(V(64, allocObj(st, KStack, n * sz, ai->getAlign().value(), "alloca")));
      return;
    }
    case Instruction::Load: {
      V a = R(0);
      V r = loadTy(st, a, d.I->getType());
      set(r);
      return;
    }
    case Instruction::Store: {
      V v = R(0), a = R(1);
      storeTy(st, a, v, d.I->getOperand(0)->getType());
      f.ip++;
      return;
    }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(d.I);
      V a = R(0), v = R(1);
      V old = loadTy(st, a, r->getType());
      V n;
      switch (r->getOperation()) {
        case AtomicRMWInst::Add: n = mkBin(Op::Add, old, v); break;
        case AtomicRMWInst::Sub: n = mkBin(Op::Sub, old, v); break;
        case AtomicRMWInst::Or: n = mkBin(Op::Or, old, v); break;
        case AtomicRMWInst::And: n = mkBin(Op::And, old, v); break;
        case AtomicRMWInst::Xor: n = mkBin(Op::Xor, old, v); break;
        case AtomicRMWInst::Xchg: n = v; break;
        default: throw PathEnd{3, "atomicrmw op"};
      }
      storeTy(st, a, n, r->getType());
      set(old);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      V a = R(0), c = R(1), n = R(2);
      V old = loadTy(st, a, d.I->getOperand(1)->getType());
      V eq = mkEq(old, c);
      storeTy(st, a, mkIte(eq, n, old), d.I->getOperand(1)->getType());
      set(mkConcat(eq, old));
      return;
    }
    case Instruction::Select: {
      V c = kn(st, R(0));
      if (c.conc() && c.w == 1) { set(c.c ? R(1) : R(2)); return; }
      if (d.I->getOperand(0)->getType()->isVectorTy()) {
        uint32_t n = cast<FixedVectorType>(d.I->getType())->getNumElements(), ew = d.w / n;
        V a = R(1), b = R(2), r;
        for (uint32_t i = 0; i < n; ++i) { V x = mkIte(mkExtract(c, i, 1), mkExtract(a, i * ew, ew), mkExtract(b, i * ew, ew)); r = i ? mkConcat(x, r) : x; }
        set(r);
        return;
      }
      if (O.forkSelect || d.I->getType()->isPointerTy()) { bool b = decide(st, c); set(b ? R(1) : R(2)); return; }
      set(mkIte(c, R(1), R(2)));
      return;
    }
    case Instruction::ExtractValue: {
      auto p = aggPos(d.I->getOperand(0)->getType(), cast<ExtractValueInst>(d.I)->getIndices());
      set(mkExtract(R(0), p.first, p.second));
      return;
    }
    case Instruction::InsertValue: {
      auto p = aggPos(d.I->getType(), cast<InsertValueInst>(d.I)->getIndices());
      set(insertBits(R(0), p.first, R(1)));
      return;
    }
    case Instruction::ExtractElement: {
      auto* vt = cast<FixedVectorType>(d.I->getOperand(0)->getType());
      uint32_t ew = tyBits(vt->getElementType());
      uint64_t i = concretize(st, R(1));
      set(mkExtract(R(0), i * ew, ew));
      return;
    }
    case Instruction::InsertElement: {
      auto* vt = cast<FixedVectorType>(d.I->getType());
      uint32_t ew = tyBits(vt->getElementType());
      uint64_t i = concretize(st, R(2));
      set(insertBits(R(0), i * ew, R(1)));
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(d.I);
      auto* vt = cast<FixedVectorType>(d.I->getOperand(0)->getType());
      uint32_t ew = tyBits(vt->getElementType());
      int n = vt->getNumElements();
      V a = R(0), b = R(1), r;
      bool first = true;
      for (int m : sv->getShuffleMask()) {
        V x = m < 0 ? V(ew, 0) : m < n ? mkExtract(a, m * ew, ew) : mkExtract(b, (m - n) * ew, ew);
        if (first) { r = x; first = false; } else r = mkConcat(x, r);
      }
      set(r);
      return;
    }
    case Instruction::Br: {
      if (d.b1 < 0) { jump(st, f, d.b0); return; }
      bool b = decide(st, R(0));
      jump(st, f, b ? d.b0 : d.b1);
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(d.I);
      V c = kn(st, R(0));
      if (c.conc()) {
        for (auto& cs : sw->cases())
          if (cs.getCaseValue()->getZExtValue() == c.c) { jump(st, f, f.f->bi[cs.getCaseSuccessor()]); return; }
        jump(st, f, f.f->bi[sw->getDefaultDest()]);
        return;
      }
      for (auto& cs : sw->cases())
        if (decide(st, mkEq(c, mkC(cs.getCaseValue()->getValue())))) { jump(st, f, f.f->bi[cs.getCaseSuccessor()]); return; }
      jump(st, f, f.f->bi[sw->getDefaultDest()]);
      return;
    }
    case Instruction::Ret: {
      V v;
      bool hasV = !d.ops.empty();
      if (hasV) v = R(0);
      const DI* call = f.call;
      popFrame(st);
      if (st.fr.empty()) throw PathEnd{0, ""};
      Frame& c = st.fr.back();
      if (call) {
        if (call->dst >= 0) c.regs[call->dst] = v;
        if (call->opc == Instruction::Invoke) { c.bb = c.f->bi[call->I->getParent()]; jump(st, c, call->b0); }
      }
      return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(st, f, d); return;
    case Instruction::LandingPad: {
      auto* lp = cast<LandingPadInst>(d.I);
      uint64_t sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); ++i)
        if (lp->isCatch(i)) {
          uint64_t want = constU(lp->getClause(i));
          if (want == 0 || tiMatches(st, st.cur.ti, want)) { sel = typeId(want); break; }
        }
      set(mkConcat(V(32, sel), V(64, st.cur.obj)));
      return;
    }
    case Instruction::Resume: {
      uint64_t o = concretize(st, mkExtract(R(0), 0, 64));
      st.cur = Exc{o, st.excTi[o]};
      unwind(st);
      return;
    }
    case Instruction::Unreachable: violate("unreachable code executed");
    default: throw PathEnd{3, string("instruction ") + d.I->getOpcodeName()};
  }
}

// ---------------------------------------------------------------- setup
static void initGlobal(State& st, Obj& o, uint64_t off, const Constant* C) {
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* cs = dyn_cast<ConstantStruct>(C)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobal(st, o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(C) || isa<ConstantDataArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
    unsigned n = cast<ArrayType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) initGlobal(st, o, off + es * i, C->getAggregateElement(i));
    return;
  }
  try {
    V v = constV(C);
    uint32_t n = (v.w + 7) / 8;
    wrAt(o, off, n * 8 == v.w ? v : mkZExt(v, n * 8), n);
  } catch (Unsupported&) { /* left zero; only matters if read */ }
}

static void setupGlobals(State& st) {
  uint64_t fa = 0x10000;
  for (auto& F : *M) { gaddr[&F] = fa; faddr[fa] = &F; addrName[fa] = F.getName().str(); fa += 16; }
  uint64_t ga = 0x10000000ULL;
  vector<const GlobalVariable*> gv;
  for (auto& G : M->globals()) {
    uint64_t sz = 64;
    if (G.getValueType()->isSized()) sz = DL->getTypeAllocSize(G.getValueType());
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
    uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16);
    ga = (ga + al - 1) / al * al;
    gaddr[&G] = ga;
    addrName[ga] = G.getName().str();
    nameAddr[G.getName().str()] = ga;
    Obj o;
    o.base = ga;
    o.size = sz;
    o.kind = KGlobal;
    o.ro = G.isConstant();
    o.name = strdup(G.getName().str().c_str());
    o.c = std::make_shared<Content>();
    o.c->b.assign(sz, 0);
    st.glob.push_back(std::move(o));
    ga += sz + 64;
    gv.push_back(&G);
  }
  {
    ga = (ga + 15) / 16 * 16;
    Obj o; o.base = ga; o.size = 4; o.kind = KGlobal; o.c = std::make_shared<Content>(); o.c->b.assign(4, 0); o.name = "errno";
    nameAddr["$errno"] = ga;
    st.glob.push_back(std::move(o));
  }
  for (size_t i = 0; i < gv.size(); ++i)
    if (gv[i]->hasInitializer()) initGlobal(st, st.glob[i], 0, gv[i]->getInitializer());
}

static void runState(SP st) {
  // runs until the path ends; forks go to `work`
  for (;;) {
    try {
      if (SH->stop) return;
      if (SH->rootPid != getpid() && kill(SH->rootPid, 0) != 0) _exit(8);  // root was killed
      if (now() > O.timeout) { SH->incomplete = 2; SH->stop = 1; return; }
      for (int k = 0; k < 2000; ++k) {
        step(*st);
        ++st->steps;
        ++S.steps;
      }
      if (st->steps > O.maxSteps) throw PathEnd{4, "step limit exceeded"};
    } catch (PathEnd& pe) {
      finish(*st, pe);
      return;
    } catch (Unsupported& u) {
      finish(*st, PathEnd{3, u.what});
      return;
    }
  }
}

static void dumpStats() {
  fprintf(OUT, "{\"t\":\"stats\",\"paths\":%llu,\"assume_killed\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache\":%llu,\"forks\":%llu,\"asserts\":%llu,\"derefs\":%llu,\"symderefs\":%llu,\"limit\":%llu,\"solver_s\":%.3f,\"wall\":%.3f",
          (unsigned long long)S.paths, (unsigned long long)S.assumeKilled, (unsigned long long)S.steps, (unsigned long long)S.queries, (unsigned long long)S.qsat, (unsigned long long)S.qunsat,
          (unsigned long long)S.qcache, (unsigned long long)S.forks, (unsigned long long)S.asserts, (unsigned long long)S.derefs, (unsigned long long)S.symDerefs, (unsigned long long)S.limit, S.solverTime, now());
  fprintf(OUT, ",\"reach\":[");
  bool f = true;
  for (auto& r : S.reach) { fprintf(OUT, "%s\"%s\"", f ? "" : ",", jesc(r).c_str()); f = false; }
  fprintf(OUT, "],\"errors\":[");
  f = true;
  for (auto& r : S.errors) { fprintf(OUT, "%s\"%s\"", f ? "" : ",", jesc(r).c_str()); f = false; }
  fprintf(OUT, "],\"assert_sites\":{");
  f = true;
  for (auto& r : S.assertSites) { fprintf(OUT, "%s\"%s\":%llu", f ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); f = false; }
  fprintf(OUT, "},\"funcs\":[");
  f = true;
  for (auto* r : S.funcs) { fprintf(OUT, "%s\"%s\"", f ? "" : ",", jesc(demangle(r->getName().str()).substr(0, 200)).c_str()); f = false; }
  fprintf(OUT, "]}\n");
  fflush(OUT);
}

static int tokenFd = -1;
static bool takeToken() {
  if (SH->freeProcs.fetch_sub(1) <= 0) { SH->freeProcs++; return false; }
  if (tokenFd >= 0) {
    char c;
    if (read(tokenFd, &c, 1) != 1) { SH->freeProcs++; return false; }
  }
  return true;
}
static void giveToken() {
  SH->freeProcs++;
  if (tokenFd >= 0) { char c = 'x'; if (write(tokenFd, &c, 1) != 1) {} }
}
static bool isChild = false;
static double birth = 0;
static void openOut() {
  string p = O.outDir + "/" + std::to_string(getpid()) + ".jsonl";
  OUT = fopen(p.c_str(), "w");
  if (!OUT) { perror("open"); _exit(9); }
  setvbuf(OUT, nullptr, _IOFBF, 1 << 16);
}

int main(int argc, char** argv) {
  T0 = Clock::now();
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto nx = [&] { return string(argv[++i]); };
    if (a == "--out") O.outDir = nx();
    else if (a == "--entry") O.entry = nx();
    else if (a == "--procs") O.procs = stoi(nx());
    else if (a == "--timeout") O.timeout = stod(nx());
    else if (a == "--max-steps") O.maxSteps = stoull(nx());
    else if (a == "--max-paths") O.maxPaths = stoull(nx());
    else if (a == "--max-alloc") O.maxAlloc = stoull(nx());
    else if (a == "--ite-limit") O.iteLimit = stoul(nx());
    else if (a == "--samples") O.samples = stoi(nx());
    else if (a == "--seed") O.seed = stoull(nx());
    else if (a == "--tokens") O.tokens = nx();
    else if (a == "--fork-select") O.forkSelect = true;
    else if (a == "--all") O.all = true;
    else if (a == "-v") O.verbose = true;
    else O.in = a;
  }
  struct rlimit rl{RLIM_INFINITY, RLIM_INFINITY};
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ULL << 30)) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ULL << 31) : std::min<rlim_t>(rl.rlim_max, 1ULL << 31);
    if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("CSYM_REEXEC")) { setenv("CSYM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (SH) Shared();
  SH->freeProcs = O.procs - 1;
  SH->rootPid = getpid();
  rng += O.seed * 0x9E3779B97F4A7C15ULL;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  if (!O.tokens.empty()) tokenFd = open(O.tokens.c_str(), O_RDWR | O_NONBLOCK);
  openOut();
  Ctx = new LLVMContext();
  SMDiagnostic err;
  M = parseIRFile(O.in, err, *Ctx);
  if (!M) { err.print("csym", errs()); return 9; }
  DL = &M->getDataLayout();
  Z.init();
  initExts();
  auto st = std::make_unique<State>();
  setupGlobals(*st);
  Function* F = M->getFunction(O.entry);
  if (!F) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 9; }
  try {
    pushCall(*st, F, {}, nullptr);
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
      if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        vector<std::pair<uint64_t, const Function*>> cs;
        for (auto& op : arr->operands()) {
          auto* s = cast<ConstantStruct>(op.get());
          if (auto* cf = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cf});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (size_t i = cs.size(); i-- > 0;) pushCall(*st, cs[i].second, {}, nullptr);
      }
    }
  } catch (Unsupported& u) {
    fprintf(stderr, "unsupported: %s\n", u.what.c_str());
    return 9;
  }
  work.push_back(std::move(st));
  bool done = false;
  while (!done) {
    while (!work.empty() && !SH->stop) {
      // split work
      if (work.size() >= 2 && now() - birth > 0.05 && takeToken()) {
        birth = now();
        fflush(OUT);
        pid_t p = fork();
        if (p == 0) {
          isChild = true;
          S = Stats();
          samplesOut = 0;
          openOut();
          rng ^= (uint64_t)getpid() * 0x9E3779B97F4A7C15ULL;
          // the child takes every other pending state, including the oldest
          { vector<SP> w; for (size_t i = 0; i < work.size(); i += 2) w.push_back(std::move(work[i])); work = std::move(w); }
        } else if (p > 0) {
          vector<SP> w;
          for (size_t i = 1; i < work.size(); i += 2) w.push_back(std::move(work[i]));
          work = std::move(w);
        } else giveToken();
        continue;
      }
      SP s = std::move(work.back());
      work.pop_back();
      runState(std::move(s));
    }
    done = true;
  }
  dumpStats();
  if (isChild) {
    fclose(OUT);
    giveToken();
    _exit(0);
  }
  // root: hand its own slot back to its children while waiting
  giveToken();
  int stw;
  bool bad = false;
  for (;;) {
    pid_t p = wait(&stw);
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (!WIFEXITED(stw) || WEXITSTATUS(stw) != 0) bad = true;
  }
  if (tokenFd >= 0) { char c; for (int i = 0; i < 2000 && read(tokenFd, &c, 1) != 1; ++i) usleep(1000); }
  fprintf(OUT, "{\"t\":\"end\",\"paths\":%llu,\"violations\":%llu,\"incomplete\":%d,\"bad\":%d,\"wall\":%.3f}\n", (unsigned long long)SH->paths.load(), (unsigned long long)SH->violations.load(), SH->incomplete.load(), (int)bad, now());
  fclose(OUT);
  _exit(0);
}
