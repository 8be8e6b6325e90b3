PROP = 'C12'
EDITS = [('include/bss-util/KDTree.h', '        if(itemr[0] < r[0]) i = 0; // Check', '        if(itemr[2] < r[0]) i = 0; // Check')]
NEEDS = 'a rebalance that moves a divider into a rectangle stored to the right of it'
BREAKS = 'the rectangle stays below a divider it crosses, so a query on the other side does not find it'
DEMO = r'''
#include "bss-util/KDTree.h"
#include <vector>
using namespace bss;
struct It { float r[4]; LLBase<It> list; KDNode<It>* node; };
static const float* FR(It* i) { return i->r; } static LLBase<It>& FL(It* i) { return i->list; } static KDNode<It>*& FN(It* i) { return i->node; }
static int hits; static It* want; static void act(It* i) { if(i == want) ++hits; }
int main() { // every set of three intervals: insert, remove one (rebalancing always), query each rectangle at its left end
  for(int s = 0; s < 6 * 6 * 6 * 6 * 6 * 6; ++s) { int q = s, v[6]; for(auto& x : v) { x = q % 6; q /= 6; } if(v[0] > v[1] || v[2] > v[3] || v[4] > v[5]) continue; static It it[5]; KDTree<It, FR, FL, FN, StandardAllocator<KDNode<It>>> t(0);
    for(int i = 0; i < 5; ++i) { int lo = i < 3 ? v[2 * i] : i * 7 - 21, hi = i < 3 ? v[2 * i + 1] : lo; it[i].r[0] = lo; it[i].r[1] = 0; it[i].r[2] = hi; it[i].r[3] = 1; it[i].node = 0; t.Insert(it + i); } t.Remove(it + 4); t.Remove(it + 3);
    for(int i = 0; i < 3; ++i) { want = it + i; for(int e = 0; e < 2; ++e) { hits = 0; float x = it[i].r[e * 2]; float rect[4] = { x, 0, x, 1 }; t.Traverse<act>(rect); if(hits != 1) return 1; } } }
  return 0; }
'''
