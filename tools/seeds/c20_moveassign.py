PROP = "C20"
EDITS = [("include/bss-util/AVLTree.h", """    inline AVLTree& operator=(AVLTree&& mov) { Clear(); _root = mov._root; mov._root = 0; return *this; }""",
"""    inline AVLTree& operator=(AVLTree&& mov) { _root = mov._root; mov._root = 0; return *this; }""")]
NEEDS = "move assignment onto a tree that already holds keys"
BREAKS = "the nodes the target held are leaked and their data is never destroyed"
DEMO = r'''
#include "bss-util/AVLTree.h"
#include <memory>
using namespace bss;
int main() {
  typedef AVLTree<int, std::shared_ptr<int>, CompT<int>, StandardAllocator<AVLNode<std::pair<int, std::shared_ptr<int>>>>> T;
  auto p = std::make_shared<int>(5);
  { T a, b; a.Insert(1, p); b.Insert(2, std::make_shared<int>(1)); a = std::move(b); if(p.use_count() != 1) return 1; }
  return p.use_count() == 1 ? 0 : 1;
}
'''
