PROP = 'C08'
EDITS = [('include/bss-util/PriorityQueue.h', '      _freelist = copy._freelist; \n', '')]
NEEDS = 'assigning a heap to another one that has had values removed, and pushing into it afterwards'
BREAKS = 'a key that is in use is handed out again'
DEMO = r'''
#include "bss-util/PriorityQueue.h"
#include <set>
using namespace bss;
int main() { PriorityHeap<int> a, b; std::set<size_t> k; for(int i = 0; i < 5; ++i) k.insert(a.Push(i * 10)); size_t y = b.Push(1); b.Remove(y); b = a; for(int i = 0; i < 3; ++i) if(!k.insert(b.Push(i)).second) return 1; for(size_t x : k) b.Get(x); return b.Length() == 8 && k.size() == 8 ? 0 : 1; }
'''
