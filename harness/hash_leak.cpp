// C16, recorded finding: move assignment to a non-empty table does not release the table's previous contents
#include "cista/containers/hash_set.h"
#include "vs.h"
void vs_main() {
  unsigned long heap0 = vs_heap_live();
  {
    cista::NS::hash_set<unsigned> a, b;
    a.emplace(vs::sym<unsigned>("x"));
    b.emplace(vs::sym<unsigned>("y"));
    b = std::move(a);
    VS_CHECKM(b.size() == 1 && a.empty(), "move assignment transfers the contents");
  }
  vs_reach("end");
  VS_CHECKM(vs_heap_live() == heap0, "move assignment to a non-empty table released its previous memory");
}
