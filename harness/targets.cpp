// C11: the same writes to the in-memory, file and memory mapped targets over a modelled operating system (os.h).
// NOPS: number of writes, FAULTS: failing system calls, OPS: op mask
// SER: type to serialize to all targets, MODES; BIG: content larger than the chunks of a file checksum
#include <stdexcept>
#include "cista/serialization.h"
#include "cista/mmap.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"
#include "cista/memory_holder.h"
#include "cista/io.h"
#include "os.h"
#ifdef SER
#include "ser.h"
#include "ser_multi.h"
#include "ser_types.h"
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef OPS
#define OPS 0xffU
#endif
#ifndef NOPS
#define NOPS 3
#endif
constexpr unsigned CAP = 120;
struct bytes {
  unsigned char d[CAP] = {};
  unsigned long n = 0;
};
template <typename X> static unsigned char const* view(X& t, unsigned long n) { (void)n; return t.base(); }

#ifdef TARGET
#if TARGET == 0
using target = cista::buf<cista::byte_buf>;
static target open_target(char const*) { return target{}; }
#elif TARGET == 1
using target = cista::buf<cista::mmap>;
static target open_target(char const* p) { return target{cista::mmap{p, cista::mmap::protection::WRITE}}; }
#elif TARGET == 3
using target = cista::buf<cista::buffer>;  // not resizable: positions only
#else
using target = cista::file;
static target open_target(char const* p) { return target{p, "w+"}; }
#endif
static void check(target& t, bytes const& m) {
#if TARGET == 2
  VS_CHECKM(t.size_ == m.n, "file size");
  auto const b = t.content();
  VS_CHECKM(b.size() == m.n, "content() has all bytes written so far");
  VS_CHECKM(m.n == 0 || memcmp(b.data(), m.d, m.n) == 0, "content() is what was written");
#else
  VS_CHECKM(t.size() == m.n, "size()");
  if (m.n == 0) return;
  VS_CHECKM(memcmp(t.base(), m.d, m.n) == 0, "bytes");
  VS_CHECKM(t.addr(static_cast<cista::offset_t>(m.n - 1)) == t.base() + m.n - 1 && t[m.n - 1] == m.d[m.n - 1], "addr/operator[]");
#endif
}
template <typename V> static void overwrite(target& t, bytes& m) {
  auto const v = vs::sym<V>("value");
  if (m.n < sizeof(V)) {
#if TARGET != 2
    bool thrown = false;
    try { t.write(std::size_t{0}, v); } catch (cista::cista_exception const&) { thrown = true; }
    VS_CHECKM(thrown, "write beyond the end is reported");
#endif
    return;
  }
  auto const pos = vs::pick(static_cast<unsigned>(m.n - sizeof(V) + 1), "pos");
  memcpy(m.d + pos, &v, sizeof(V));
  t.write(pos, v);
}
static void step(target& t, bytes& m) {
  unsigned const op = vs::pick(6, "op");
  vs_assume(((OPS >> op) & 1U) != 0U);
  switch (op) {
    case 0: {
      static constexpr unsigned const sizes[] = {0, 1, 3, 8, 21};
      unsigned const k = sizes[vs::pick(5, "size")];
      static constexpr unsigned const aligns[] = {0, 1, 2, 8, 16};
      unsigned const al = aligns[vs::pick(5, "align")];
      unsigned char src[24];
      vs_sym(src, sizeof(src), "src");
      auto const start = al > 1 ? (m.n + al - 1) / al * al : m.n;
      memcpy(m.d + start, src, k);
      m.n = start + k;
      auto const off = t.write(src, k, al);
      VS_CHECKM(off == static_cast<cista::offset_t>(start), "write returns the aligned offset");
      break;
    }
    case 1: overwrite<std::uint8_t>(t, m); break;
    case 2: overwrite<std::uint64_t>(t, m); break;
    case 3: {
      unsigned const from = vs::pick(static_cast<unsigned>(m.n + 1), "from");
      auto const h = t.checksum(static_cast<cista::offset_t>(from));
      VS_CHECKM(h == cista::hash(std::string_view{reinterpret_cast<char const*>(m.d) + from, m.n - from}), "checksum of the bytes written");
      break;
    }
    case 4: check(t, m); break;
    default: {
      int const f = os::faults;
      os::faults = 0;
      auto u = std::move(t);
      t = open_target("b");
      t = std::move(u);
      VS_CHECKM(os::size("b") == 0, "replaced target");
      os::faults = f;
    }
  }
}
extern "C" void vs_main() {
  bytes m;
  bool failed = false;
  {
    auto t = open_target("a");
    os::faults = FAULTS;
    try {
      for (unsigned i = 0; i < NOPS; ++i) {
        step(t, m);
        VS_CHECKM(!os::faulty, "a failing system call is reported");
      }
      if (FAULTS == 0) check(t, m);
    } catch (cista::cista_exception const&) {
      VS_CHECKM(os::faulty, "only failing system calls are reported as errors");
      failed = true;
      os::faults = 0;
      vs_reach("fault");
    }
#ifndef CLOSE
    os::faults = 0;
#endif
  }
  os::done();
  if (!failed) {
    VS_CHECKM(!os::faulty, "data that could not be written when the file was closed is reported");
#if TARGET != 0
    VS_CHECKM(os::size("a") == m.n, "size of the closed file");
    VS_CHECKM(m.n == 0 || memcmp(os::content("a"), m.d, m.n) == 0, "bytes of the closed file");
#endif
  }
  vs_reach("end");
}
#endif

#ifdef BIG
extern "C" void vs_main() {  // checksum over more than one chunk
  constexpr unsigned N = BIG;
  unsigned char const v = vs::sym<unsigned char>("value");
  cista::file f{"a", "w+"};
  {
    static unsigned char src[N];
    src[N - 1] = v;
    cista::buf<cista::byte_buf> b;
    VS_CHECKM(f.write(src, N, 0U) == 0 && b.write(src, N, 0U) == 0, "offset");
    for (int s : {0, 1}) VS_CHECKM(f.checksum(s) == b.checksum(s), "file and memory checksums are the same");
    auto const c = f.content();
    VS_CHECKM(c.size() == N && c[N - 1] == v, "content");
  }
  vs_reach("end");
}
#endif

#if defined(SER) && !defined(IO)
using cista::mode;
constexpr mode M = MODES;
extern "C" void vs_main() {
  bool failed = false;
  root_t& v = *new (std::calloc(1, sizeof(root_t))) root_t{};  // padding is zero
  make(v);
  auto const ref = cista::serialize<M>(v);
  auto const same_file = [&](char const* p) { return os::size(p) == ref.size() && memcmp(os::content(p), ref.data(), ref.size()) == 0; };
  os::faults = FAULTS;
  auto const kind = vs::pick(3, "target");
  try {
    if (kind == 0) {
      cista::buf<cista::mmap> t{cista::mmap{"a", cista::mmap::protection::WRITE}};
      try { cista::serialize<M>(t, v); os::faults = 0; } catch (...) { os::faults = 0; throw; }
    } else if (kind == 1) {
      cista::file t{"a", "w+"};
      cista::serialize<M>(t, v);
      if (FAULTS) (void)t.content();
      os::faults = 0;
    } else {
      cista::buf<cista::byte_buf> t;
      cista::serialize<M>(t, v);
      VS_CHECKM(t.size() == ref.size() && memcmp(t.base(), ref.data(), ref.size()) == 0, "bytes in memory");
      os::faults = 0;
      return;
    }
    VS_CHECKM(!os::faulty, "a failing system call is reported");
    VS_CHECKM(same_file("a"), "the file has the bytes that are serialized to memory");
    os::faults = FAULTS;
    if (vs::flip("map")) {
      cista::mmap in{"a", cista::mmap::protection::READ};
      VS_CHECKM(in.size() == ref.size() && memcmp(in.data(), ref.data(), ref.size()) == 0, "mapped bytes");
      auto* got = cista::deserialize<root_t, M>(in);
      g_from = in.data(); g_to = in.data() + in.size();
      tp.rewind(); root_t r{}; make(r);
      same(r, *got);
      os::faults = 0;
    } else {
      auto in = cista::file{"a", "r"}.content();
      VS_CHECKM(in.size() == ref.size() && memcmp(in.data(), ref.data(), ref.size()) == 0, "read bytes");
      auto* got = cista::deserialize<root_t, M>(in);
      g_from = in.data(); g_to = in.data() + in.size();
      tp.rewind(); root_t r{}; make(r);
      same(r, *got);
    }
    VS_CHECKM(!os::faulty, "a failing system call is reported");
  } catch (cista::cista_exception const&) {
    VS_CHECKM(os::faulty, "only failing system calls are reported as errors");
    vs_reach("fault");
  }
  os::faults = 0;
  os::done();
  vs_reach("end");
}
#endif

#ifdef IO
// std::filesystem::path: only the stored string matters, every path is a single file name (engine only, not wrapped natively)
extern "C" {
void __wrap__ZNSt10filesystem7__cxx114path5_ListC1Ev(unsigned long* p) { *p = 3; }
void __wrap__ZNSt10filesystem7__cxx114path5_ListC1ERKS2_(unsigned long* p, void*) { *p = 3; }
void __wrap__ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(void*) {}
void __wrap__ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE(void*, void*) {}
}
static root_t* value() { auto* v = new (std::calloc(1, sizeof(root_t))) root_t{}; make(*v); return v; }
template <typename W> static void compare(W& w) {
  VS_CHECKM(static_cast<bool>(w), "object is there");
  tp.rewind(); root_t r{}; make(r);
  same(r, *w);
}
extern "C" void vs_main() {
  auto* v = value();
  os::faults = 0;
  cista::write(std::filesystem::path{"a"}, static_cast<root_t const&>(*v));
  os::done();
  auto const ref = cista::serialize<cista::kDefaultMode>(*v);
  VS_CHECKM(os::size("a") == ref.size() && memcmp(os::content("a"), ref.data(), ref.size()) == 0, "the file has the serialized bytes");
  {
    auto w = cista::read<root_t>(std::filesystem::path{"a"});
    compare(w);
    auto x = cista::read_mmap<root_t>(std::filesystem::path{"a"});
    compare(x);
    auto y = std::move(x);
    compare(y);
    cista::write(std::filesystem::path{"b"}, y);
    VS_CHECKM(os::size("b") == ref.size(), "writing what was read");
    auto z = cista::read<root_t>(std::filesystem::path{"b"});
    compare(z);
  }
  os::done();
  vs_reach("end");
}
#endif
