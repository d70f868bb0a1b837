// C39: interleavings of the library's atomic operations. FIELD: or/and on a 64 bit field, MINMAX: min/max on a 16 bit
// field, SETBIT: bitvec::set<true>, NEXT: bitvec::get_next. THREADS, NOPS operations per thread
#include "cista/atomic.h"
#include "cista/containers/bitvec.h"
#include "conc.h"
constexpr int NT = THREADS, TOTAL = THREADS * NOPS;
#if defined(FIELD) || defined(MINMAX)
#ifdef FIELD
using F = std::uint64_t;
static F apply(unsigned k, F o, F v) { return k == 0 ? o | v : o & v; }
static F exec(unsigned k, F& f, F v) { return vs_branch(k == 0) ? cista::fetch_or(f, v) : cista::fetch_and(f, v); }
#else
using F = std::int16_t;
static F apply(unsigned k, F o, F v) { return k == 0 ? (o < v ? o : v) : (o > v ? o : v); }
static F exec(unsigned k, F& f, F v) { return vs_branch(k == 0) ? cista::fetch_min(f, v) : cista::fetch_max(f, v); }
#endif
static F field, arg[NT][NOPS], ret[NT][NOPS];
static unsigned kind[NT][NOPS];
static void body(int id) {
  for (int i = 0; i < NOPS; ++i) ret[id - 1][i] = exec(kind[id - 1][i], field, arg[id - 1][i]);
}
// some order of the operations explains all results
static bool explain(F now, int const* done, F last) {
  bool any = false, left = false;
  for (int t = 0; t < NT; ++t)
    if (done[t] < NOPS) {
      left = true;
      int d[NT];
      for (int i = 0; i < NT; ++i) d[i] = done[i];
      int const i = d[t]++;
      any |= (ret[t][i] == now) & explain(apply(kind[t][i], now, arg[t][i]), d, last);
    }
  return left ? any : now == last;
}
extern "C" void vs_main() {
  field = vs::sym<F>("initial");
  F const first = field;
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NOPS; ++i) { kind[t][i] = vs::pick(2, "kind"); arg[t][i] = vs::sym<F>("operand"); }
  for (int t = 0; t < NT; ++t) conc::add(body);
  conc::share(field);
  conc::run();
  int done[NT] = {};
  VS_CHECKM(explain(first, done, field), "returned values and the final value are those of some sequential order of the updates");
  vs_reach("end");
}
#elif defined(SETBIT)
static cista::offset::bitvec b;
static unsigned pos[NT][NOPS];
static bool val[NT][NOPS];
static void body(int id) {
  for (int i = 0; i < NOPS; ++i) b.set<true>(pos[id - 1][i], val[id - 1][i]);
}
extern "C" void vs_main() {
  b.resize(70);
  std::uint64_t const w0 = vs::sym<std::uint64_t>("block"), w1 = vs::sym<std::uint64_t>("block") & 63U;
  b.blocks_[0] = w0;
  b.blocks_[1] = w1;
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NOPS; ++i) {
      pos[t][i] = vs::sym<unsigned char>("bit");
      vs_assume(pos[t][i] < 70);
      val[t][i] = vs::flip("value");
      for (int u = 0; u < t; ++u)  // different threads, different bits: every update stays visible
        for (int j = 0; j < NOPS; ++j) vs_assume(pos[u][j] != pos[t][i]);
    }
  for (int t = 0; t < NT; ++t) conc::add(body);
  conc::share(b.blocks_[0]);
  conc::share(b.blocks_[1]);
  conc::run();
  unsigned const k = vs::sym<unsigned char>("check");
  vs_assume(k < 70);
  bool expect = ((k < 64 ? w0 >> k : w1 >> (k - 64)) & 1U) != 0U;
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NOPS; ++i) if (pos[t][i] == k) expect = val[t][i];
  VS_CHECKM(b.test(k) == expect, "every bit has the value that was set last, no other bit changes");
  VS_CHECKM(b.size() == 70, "size");
  vs_reach("end");
}
#else
static cista::offset::bitvec b;
static std::atomic_size_t pos;
static std::optional<cista::offset::bitvec::size_type> got[NT][NOPS];
static void body(int id) {
  for (int i = 0; i < NOPS; ++i) got[id - 1][i] = b.get_next(pos);
}
extern "C" void vs_main() {
  constexpr unsigned N = SIZE;
  b.resize(N);
  unsigned cnt = 0;
  bool want[N];
  for (unsigned i = N > 6 ? N - 6 : 0; i < N; ++i) { want[i] = vs::flip("bit"); b.set(i, want[i]); cnt += want[i]; }
  for (unsigned i = 0; i + 6 < N; ++i) want[i] = false;
  pos = 0;
  for (int t = 0; t < NT; ++t) conc::add(body);
  conc::share(pos);
  conc::run();
  unsigned handed = 0, seen[N] = {};
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < NOPS; ++i)
      if (got[t][i].has_value()) {
        VS_CHECKM(*got[t][i] < N && want[*got[t][i]], "only set bits are handed out");
        VS_CHECKM(++seen[*got[t][i]] == 1, "no bit is handed out twice");
        if (i > 0) VS_CHECKM(got[t][i - 1].has_value() && *got[t][i - 1] < *got[t][i], "bits are handed out in order");
        ++handed;
      }
  VS_CHECKM(handed == (cnt < static_cast<unsigned>(TOTAL) ? cnt : static_cast<unsigned>(TOTAL)), "every set bit is handed out while there are requests");
  if (handed) { bool gap = false; unsigned k = 0; for (unsigned i = 0; i < N; ++i) if (want[i]) { if (k++ < handed) gap |= seen[i] == 0; } VS_CHECKM(!gap, "no set bit is skipped"); }
  vs_reach("end");
}
#endif
