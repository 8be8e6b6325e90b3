PROP = "C06"
EDITS = [("include/bss-util/TRBtree.h", "            LLInsertAfter(node, cur, last);\n            node->color = -1;", "            LLInsertAfter(node, cur);\n            node->color = -1;")]
NEEDS = "a duplicate of the largest value"
BREAKS = "Back still refers to the older of the two, so walking backwards misses the duplicate and later insertions at the end cut it off"
DEMO = r'''
#include "bss-util/TRBtree.h"
using namespace bss;
int main() { TRBtree<int, CompT<int>, StandardAllocator<TRB_Node<int>>> t; t.Insert(1); t.Insert(2); t.Insert(2); int n = 0; for(auto p = t.Back(); p; p = p->prev) ++n; return n == 3 ? 0 : 1; }
'''
