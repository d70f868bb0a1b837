// C17/C18: lengths at the end of the 32-bit length of a string. The texts do not exist (no memory for their copy, or they
// cannot be represented), so every operation that would need them reports an error and leaves the string as it was.
#include <string>
#include <string_view>
#ifdef CSTR
#include "cista/containers/cstring.h"
#else
#include "cista/containers/string.h"
#endif
#include "vs.h"
#ifdef CSTR
using S = cista::NS::cstring;
constexpr unsigned NWIDE = 6;
#else
using S = cista::NS::string;
constexpr unsigned NWIDE = 7;
#endif
void vs_main() {
  auto const heap0 = vs_heap_live();
  {
    static char text[40];
    vs_sym(text, sizeof(text), "text");
    char old[20];
    vs_sym(old, sizeof(old), "old");
    for (auto& c : old) vs_assume(c != 0);
    unsigned const n = vs::flip("long") ? 20 : 5;
    S s{std::string_view{old, n}};
    auto const len = vs::sym<std::size_t>("len");
    bool const wide = vs::flip("wide");
    // wide: longer than the length type can say, otherwise: longer than the memory allows for
    vs_assume(wide ? len >= 1UL << 32U && len < 1UL << 62U : len >= 1UL << 30U && len < 1UL << 32U);
    std::string_view const v{text, len};
    unsigned const op = vs::pick(wide ? NWIDE : 4, "op");
    bool thrown = false, skip = false;
    try {
      switch (op) {
        case 0: s.set_owning(v); break;
        case 1: s = v; break;
        case 2: { S t{v}; (void)t; break; }
        case 3:
          if (wide) skip = true; else s.set_owning(text, static_cast<unsigned>(len));
          break;
        case 4: s.set_non_owning(v); break;
        case 5:
          { S t; t.set_non_owning(v); } break;
#ifndef CSTR
        case 6:
          skip = true;
          VS_CHECKM(!s.starts_with(v) && !s.ends_with(v), "a string does not start or end with a longer one");
          break;
#endif
      }
    } catch (std::exception const&) { thrown = true; }
    VS_CHECKM(thrown || skip, "a text that cannot be stored is reported");
    VS_CHECKM(s.size() == n && s.view() == std::string_view(old, n), "the string is as it was");
    vs_reach(wide ? "wide" : "huge");
  }
  VS_CHECKM(vs_heap_live() == heap0, "all memory is freed");
  vs_reach("end");
}
