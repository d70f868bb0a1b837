// C04 (CHECKSUM) and C05 (VERSION, TRUNC, SKIP): headers of serialized data. Root types: ROOT 0..3
#include "ser.h"
using cista::mode;
constexpr mode M = MODES;
#ifndef ROOT
#define ROOT 0
#endif
struct inner { REC2(a, b) std::uint8_t a; std::uint16_t b; };
#if ROOT == 0
struct root_t { REC3(a, b, c) std::uint32_t a; data::vector<std::uint16_t> b; data::string c; };
#elif ROOT == 1
struct root_t { REC1(a) std::uint8_t a; };
#elif ROOT == 2
struct root_t { REC2(a, b) inner a; data::unique_ptr<inner> b; };
#else
using root_t = data::vector<inner>;
#endif
struct other_t { REC3(a, b, c) std::uint32_t a; data::vector<std::uint16_t> b; std::uint8_t c; };

static unsigned char* place(cista::byte_buf const& b, std::size_t const n) {
  auto* p = static_cast<unsigned char*>(std::malloc(n == 0 ? 1 : n));
  std::memcpy(p, b.data(), n);
  return p;
}
template <typename T, mode X> T* load(unsigned char* p, std::size_t n) {
  try { return cista::deserialize<T, X>(p, p + n); } catch (std::exception const&) { return nullptr; }
}
static cista::byte_buf ser() {
  root_t v{};
  make(v);
  return cista::serialize<M>(v);
}
[[maybe_unused]] static void check_value(root_t const* got, unsigned char* p, std::size_t n) {
  g_from = p; g_to = p + n;
  tp.rewind();
  root_t ref{};
  make(ref);
  same(ref, *got);
}

void vs_main() {
  auto const b = ser();
  std::size_t const n = b.size();
  std::size_t const hdr = static_cast<std::size_t>(cista::data_start(M));
  auto* const p = place(b, n);
#if defined(CHECKSUM)
  std::size_t const from = static_cast<std::size_t>(cista::integrity_start(M));
  // every byte of the stored checksum and of the payload, every other value
  std::size_t const at = from + vs::pick(static_cast<unsigned>(n - from) + 1, "position");
  bool const changed = at != n;
  if (changed) {
    auto const d = vs::sym<std::uint8_t>("difference");
    vs_assume(d != 0);
    p[at] = static_cast<unsigned char>(p[at] ^ d);
  }
  auto* const r = load<root_t, M>(p, n);
  VS_CHECKM((r == nullptr) == changed, changed ? "a modified byte was not detected" : "unmodified data was rejected");
  vs_reach(changed ? "changed" : "same");
  if (!changed) check_value(r, p, n);
#elif defined(VERSION)
  // any other version
  auto const v = vs::sym<std::uint64_t>("version");
  std::uint64_t old;
  std::memcpy(&old, p, 8);
  bool const changed = vs::flip("changed");
  if (changed) { vs_assume(v != old); std::memcpy(p, &v, 8); }
  auto* const r = load<root_t, M>(p, n);
  VS_CHECKM((r == nullptr) == changed, changed ? "another version was accepted" : "data was rejected");
  vs_reach(changed ? "changed" : "same");
  if (!changed) {
    check_value(r, p, n);
    VS_CHECKM((load<other_t, M>(p, n) == nullptr), "data of another type was accepted");
  }
#elif defined(TRUNC)
  // every length that does not cover the headers and the root object; the memory behind does not exist
  std::size_t const len = vs::pick(static_cast<unsigned>(hdr + sizeof(root_t)), "length");
  auto* const q = place(b, len);
  // the checksum fits so that it is not what rejects the data
  if (cista::is_mode_enabled(M, mode::WITH_INTEGRITY) && len >= hdr) {
    auto const h = cista::convert_endian<M>(cista::hash(std::string_view{reinterpret_cast<char const*>(q + hdr), len - hdr}));
    std::memcpy(q + cista::integrity_start(M), &h, sizeof(h));
  }
  VS_CHECKM((load<root_t, M>(q, len) == nullptr), "data that is too short was accepted");
#ifndef BIGENDIAN
  VS_CHECKM((load<root_t const, M>(q, len) == nullptr), "data that is too short was accepted");
  {
    bool threw = false;
    try { (void)cista::deserialize<root_t, M>(std::string_view{reinterpret_cast<char const*>(q), len}); } catch (std::exception const&) { threw = true; }
    VS_CHECKM(threw, "data that is too short was accepted (view)");
  }
#endif
  std::free(q);
#elif defined(SKIP)
  constexpr mode S = SKIP;
  // whatever the skipped headers contain
  constexpr bool sv = cista::is_mode_enabled(S, mode::SKIP_VERSION), si = cista::is_mode_enabled(S, mode::SKIP_INTEGRITY);
  if (sv) { auto const v = vs::sym<std::uint64_t>("version"); std::memcpy(p, &v, 8); }
  if (si) { auto const v = vs::sym<std::uint64_t>("checksum"); std::memcpy(p + cista::integrity_start(M), &v, 8); }
  static_assert(cista::data_start(M) == cista::data_start(S), "");
  auto* const r = load<root_t, S>(p, n);
  VS_CHECKM(r != nullptr, "data was rejected although the check is skipped");
  VS_CHECKM(reinterpret_cast<unsigned char*>(r) == p + hdr, "the payload is shifted");
  check_value(r, p, n);
  auto* const u = cista::unchecked_deserialize<root_t, S>(p, p + n);
  VS_CHECKM(u == r, "unchecked deserialization finds another object");
#endif
  std::free(p);
  vs_reach("end");
}
