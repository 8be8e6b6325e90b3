PROP = 'C01'
EDITS = [('include/bss-util/CompactArray.h', '_length = (_length&COMPACTFLAG); }', '_length = COMPACTFLAG; }')]
NEEDS = 'Clear on a CompactArray that has spilled to the heap'
BREAKS = 'the heap block is forgotten'
DEMO = r'''
#include "bss-util/CompactArray.h"
#include <malloc.h>
using namespace bss;
int main() { auto used = [] { return mallinfo2().uordblks; }; size_t a = used(); for(int i = 0; i < 100; ++i) { CompactArray<int, 2> x; for(int k = 0; k < 100; ++k) x.Add(k); x.Clear(); for(int k = 0; k < 3; ++k) x.Add(k); if(x.Length() != 3 || x[2] != 2) return 2; } return used() > a + 10000; }
'''
