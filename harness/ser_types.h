#pragma once
enum class e8 : std::uint8_t { A, B };
enum class e32 : std::int32_t { A, B };
enum e_plain { X0, X1 };
#if defined(G_SCALAR)
struct inner { REC3(a, b, c) std::uint8_t a; std::uint32_t b; std::uint16_t c; };
struct ints { REC6(a, b, c, d, e, g) std::int8_t a; std::int64_t b; char c; std::uint16_t d; bool e; std::int32_t g; };
struct other { REC6(a, b, c, d, e, g) float a; e8 b; double c; e32 d; inner e; cista::array<std::uint16_t, 3> g; };
struct lib { REC6(a, b, c, d, e, g) cista::strong<std::uint16_t, struct tag_> a; cista::bitset<70> b; cista::tuple<std::uint8_t, std::uint32_t, std::uint16_t> c; cista::pair<std::uint8_t, std::uint64_t> d; std::chrono::duration<std::int64_t, std::milli> e; std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int32_t>> g; };
struct sums { REC4(a, b, c, d) cista::optional<std::uint32_t> a; cista::variant<std::uint8_t, std::uint32_t, inner, double> b; cista::optional<inner> c; cista::pair<std::uint8_t, e32> d; };
struct root_t { REC4(a, b, c, d) ints a; other b; lib c; sums d; };
#elif defined(G_STRING)
struct root_t { REC4(a, b, c, d) std::uint8_t a; data::string b; data::u16string c; data::u32string d; };
#elif defined(G_VIEW)
struct root_t { REC3(a, b, c) std::uint8_t a; data::string_view b; cista::array<data::string, 2> c; };
#elif defined(G_CSTRING)
struct root_t { REC3(a, b, c) std::uint8_t a; cista::basic_cstring<data::ptr<char const>> b; cista::basic_cstring<data::ptr<char const>> c; };
#elif defined(G_VECTOR)
struct el { REC2(a, b) std::uint8_t a; std::uint32_t b; };
struct root_t { REC4(a, b, c, d) data::vector<std::uint8_t> a; data::vector<el> b; data::vector<data::string> c; data::vector<data::vector<std::uint16_t>> d; };
#elif defined(G_SUM)
struct el { REC2(a, b) std::uint8_t a; data::string b; };
struct root_t { REC4(a, b, c, d) cista::optional<data::string> a; cista::variant<std::uint32_t, data::string, data::vector<std::uint8_t>, data::unique_ptr<el>> b; cista::tuple<std::uint8_t, data::string> c; data::unique_ptr<el> d; };
#elif defined(G_HASH)
struct root_t { REC3(a, b, c) data::hash_map<std::uint32_t, data::string> a; data::hash_set<data::string> b; data::hash_map<data::string, data::vector<std::uint16_t>> c; };
#elif defined(G_HASHI)
struct root_t { REC2(a, b) data::hash_map<std::uint32_t, std::uint64_t> a; data::hash_set<std::uint8_t> b; };
#elif defined(G_STDPAIR)
struct root_t { REC2(a, b) std::pair<std::uint8_t, e32> a; std::pair<std::uint32_t, data::string> b; };
#elif defined(G_VECVEC)
struct root_t { REC2(a, b) data::vecvec<std::uint32_t, std::uint16_t> a; data::vecvec<cista::strong<std::uint32_t, struct vk_>, char> b; };
#elif defined(G_FWS)
struct root_t { REC2(a, b) std::uint8_t a; data::fws_multimap<std::uint32_t, std::uint16_t> b; };
#elif defined(G_MFWS)
struct root_t { REC2(a, b) data::mutable_fws_multimap<std::uint32_t, std::uint16_t, 4> a; std::uint8_t b; };
#elif defined(G_BITVEC)
struct root_t { REC2(a, b) data::bitvec a; std::uint8_t b; };
#elif defined(G_MATRIX)
struct root_t { REC2(a, b) std::uint8_t a; data::flat_matrix<std::uint16_t> b; };
#elif defined(G_NVEC)
struct root_t { REC2(a, b) std::uint8_t a; data::nvec<std::uint32_t, std::uint16_t, 2> b; };
#elif defined(G_PAGED)
struct root_t { REC2(a, b) std::uint8_t a; cista::paged_vecvec<data::vector<cista::page<std::uint32_t, std::uint16_t>>, cista::paged<data::vector<std::uint32_t>, std::uint32_t>, std::uint32_t> b; };
#elif defined(G_RTREE)
struct root_t { REC2(a, b) std::uint8_t a; data::rtree<std::uint16_t, 2, float, 4> b; };
#endif
