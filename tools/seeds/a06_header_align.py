PROP = 'A06'
EDITS = [('include/bss-util/GreedyAlloc.h', '    _alignsize(AlignSize(sizeof(Node), align))', '    _alignsize(sizeof(Node))')]
NEEDS = 'an alignment larger than the 16 byte chunk header'
BREAKS = 'blocks are not aligned as the allocator was asked to'
DEMO = r'''
#include "bss-util/GreedyAlloc.h"
using namespace bss;
int main() { GreedyAlloc a(256, 64); for(int i = 0; i < 20; ++i) if((size_t)a.Alloc(10 + i) % 64) return 1; return 0; }
'''
