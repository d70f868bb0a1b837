// C13/C14: a vector that is about to reach the end of its size type: either the elements are added or it is reported
// and nothing changed
#include "cista/containers/vector.h"
#include "seq.h"
using V = cista::basic_vector<signed char, cista::NS::ptr, false, SIZE_T>;
constexpr unsigned MAXN = static_cast<SIZE_T>(~SIZE_T{0});
void vs_main() {
  {
  V v;
  unsigned const n = MAXN - vs::pick(4, "below");
  v.resize(n);
  auto const first = vs::sym<signed char>("first"), last = vs::sym<signed char>("last"), x = vs::sym<signed char>("x");
  v[0] = first;
  v[n - 1] = last;
  unsigned const op = vs::pick(7U, "op");
  unsigned k = op < 4 ? 1 : vs::pick(6, "count");
  if (op == 4) k = vs::flip("big") ? MAXN - vs::pick(3, "bigcount") : k;
  signed char src[6] = {x, x, x, x, x, x};
  bool failed = false;
  try {
    switch (op) {
      case 0: v.push_back(v[0]); break;
      case 1: v.push_back(std::move(v[n - 1])); break;
      case 2: v.emplace_back(x); break;
      case 3: v.insert(v.end(), x); break;
      case 4: v.insert(v.begin(), static_cast<SIZE_T>(k), x); break;
      case 5: v.insert(v.begin() + 1, src, src + k); break;
      default: v.insert(v.end(), static_cast<signed char const*>(src), static_cast<signed char const*>(src) + k, std::input_iterator_tag{}); break;
    }
  } catch (std::exception const&) { failed = true; }
  VS_CHECKM(failed == (n + k > MAXN), "elements beyond the size type are refused, all others added");
  if (failed && op != 6) {
    VS_CHECKM(v.size() == n, "nothing was added");
    VS_CHECKM(v[0] == first && v[n - 1] == last, "elements stay");
    vs_reach("full");
  } else if (!failed) {
    VS_CHECKM(v.size() == n + k, "size");
    auto const f = op == 4 && k > 0 ? x : first;
    VS_CHECKM(v[0] == f, "first element");
    auto const e = op < 4 ? (op == 0 ? first : op == 1 ? last : x) : op == 6 && k > 0 ? x : last;
    VS_CHECKM(v[n + k - 1] == e, "last element");
    vs_reach("added");
  } else {
    VS_CHECKM(v.size() >= n && v.size() <= MAXN && v[0] == first, "elements stay");
  }
  VS_CHECKM(v.allocated_size_ >= v.size(), "room for all elements");
  }
  VS_CHECKM(vs_heap_live() == 0, "memory is freed");
  vs_reach("end");
}
