// Harness interface: symbolic under csym, replayed concretely by vs_native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <type_traits>
#include <utility>
extern "C" {
void vs_sym(void* p, unsigned long n, const char* name);
void vs_assume(bool c);
void vs_assert(bool c, const char* msg);
void vs_reach(const char* label);
void vs_observe(unsigned long v);
unsigned long vs_concrete(unsigned long v);  // split the path on every value of v
int vs_branch(bool c);                       // split the path on c
unsigned long vs_heap_live();                // number of live heap blocks
void vs_alloc_fail_after(long n);            // n-th next allocation fails (-1: never)
int vs_fiber_new(void (*f)(void*), void* arg);  // another thread of control (not started), > 0
void vs_fiber_switch(int id);                // continue there (0: main)
void vs_print(unsigned long);
#ifdef VS_NATIVE
void* vs_map_at(unsigned long addr, unsigned long n);  // native replay: n bytes at that address
void vs_unmap(void* p);
#endif
void vs_main();
}
namespace vs {
template <typename T>
inline T sym(char const* name) {
  static_assert(std::is_trivially_copyable<T>::value, "");
  T t;
  vs_sym(&t, sizeof(T), name);
  return t;
}
inline bool symb(char const* name) { return (sym<unsigned char>(name) & 1U) != 0U; }
// n bytes of memory that a native replay finds at the same address (for findings that depend on it)
inline unsigned char* buffer(unsigned long n) {
#ifdef VS_NATIVE
  return static_cast<unsigned char*>(vs_map_at(sym<unsigned long>("bufaddr"), n));
#else
  auto const p = static_cast<unsigned char*>(::operator new(n));
  vs_assume(sym<unsigned long>("bufaddr") == reinterpret_cast<unsigned long>(p));
  return p;
#endif
}
inline void free_buffer(unsigned char* p) {
#ifdef VS_NATIVE
  vs_unmap(p);
#else
  ::operator delete(p);
#endif
}
// symbolic number < n
inline unsigned below(unsigned n, char const* name) {
  auto v = sym<unsigned char>(name);
  vs_assume(v < n);
  return v;
}
inline unsigned range(unsigned lo, unsigned hi, char const* name) {  // [lo, hi]
  auto v = sym<unsigned char>(name);
  vs_assume(v >= lo && v <= hi);
  return v;
}
// number < n, explored value by value
inline unsigned pick(unsigned n, char const* name) {
  if (n <= 1) return 0;
  return static_cast<unsigned>(vs_concrete(below(n, name)));
}
inline bool flip(char const* name) { return vs_branch(symb(name)) != 0; }
template <typename T>
inline void obs(T v) { vs_observe(static_cast<unsigned long>(v)); }

// Containers whose members refer to each other check themselves when they are deserialized: they accept what they hold.
template <typename T, typename = void> struct checks_itself : std::false_type {};
template <typename T> struct checks_itself<T, std::void_t<decltype(std::declval<T const&>().cista_valid())>> : std::true_type {};
template <typename T> inline void self_accepted(T const& t) {
  if constexpr (checks_itself<T>::value) vs_assert(t.cista_valid(), "container in a regular state would be rejected when deserialized");
}

// Element type whose lifetime is tracked: every construction/destruction must pair up, no use of dead objects.
// The marker carries the object's own address so bitwise relocation, double destruction and reads of dead
// objects are all noticed.
struct tracked {
  static inline long live = 0;
  static inline long copies = 0;
  unsigned char v;
  unsigned char state;  // 0xA5 alive, 0x5A moved-from
  tracked() : v{0}, state{0xA5} { ++live; }
  explicit tracked(unsigned char x) : v{x}, state{0xA5} { ++live; }
  tracked(tracked const& o) : v{o.v}, state{0xA5} { o.check(); ++live; ++copies; }
  tracked(tracked&& o) noexcept : v{o.v}, state{0xA5} { o.check(); o.v = 0xEE; ++live; }
  tracked& operator=(tracked const& o) { check(); o.check(); v = o.v; ++copies; return *this; }
  tracked& operator=(tracked&& o) noexcept { check(); o.check(); auto x = o.v; if (this != &o) o.v = 0xEE; v = x; return *this; }
  ~tracked() { check(); state = 0; --live; }
  void check() const { vs_assert(state == 0xA5, "element used while not alive (constructed and not destroyed)"); }
  unsigned char get() const { check(); return v; }
  friend bool operator==(tracked const& a, tracked const& b) { return a.get() == b.get(); }
  friend bool operator!=(tracked const& a, tracked const& b) { return a.get() != b.get(); }
  friend bool operator<(tracked const& a, tracked const& b) { return a.get() < b.get(); }
};
}  // namespace vs
#define VS_CHECK(c) vs_assert((c), #c)
#define VS_CHECKM(c, m) vs_assert((c), m)
