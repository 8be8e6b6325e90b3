PROP = 'D03'
EDITS = [('include/bss-util/BlockAlloc.h', '      while((_root = hold) != 0)\n      {\n        nsize += hold->size;', '      while((_root = hold) != 0)\n      {\n        nsize = hold->size + (nsize ? sizeof(Node) : 0);')]
NEEDS = 'Clear on an allocator that has grown at least once, with a block size that does not divide the rest'
BREAKS = 'the size of the new chunk is not a multiple of the block size, so its last block reaches over the end of the memory'
DEMO = r'''
#include "bss-util/BlockAlloc.h"
#include <string.h>
using namespace bss;
int main() { BlockAlloc a(40, 2); for(int i = 0; i < 12; ++i) a.Alloc(); a.Clear(); size_t n = a.GetRoot()->size; for(size_t i = 0; i < 64; ++i) { char* p = (char*)a.Alloc(); const BlockAlloc::Node* r = a.GetRoot(); while(r && !(p > (char*)r && p < (char*)r + sizeof(*r) + r->size)) r = r->next; if(!r || p + 40 > (char*)r + sizeof(*r) + r->size) return 1; memset(p, 1, 8); } return 0; }
'''
