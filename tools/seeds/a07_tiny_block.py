PROP = "A07"
EDITS = [("include/bss-util/CacheAlloc.h", "size_t realsz = bssmax(sz, sizeof(void*));", "size_t realsz = sz;")]
FLAGS = "-DNDEBUG"
NEEDS = "allocations smaller than a pointer that lie next to each other, one of them freed while its neighbour is in use"
BREAKS = "the free list link stored in the freed block overwrites the live neighbour"
DEMO = r'''
#include "bss-util/CacheAlloc.h"
#include <string.h>
using namespace bss;
int main() {
  CacheAlloc a(64, 4096);
  char* p[8]; for(int i = 0; i < 8; ++i) { p[i] = (char*)a.Alloc(2); memset(p[i], 'a' + i, 2); }
  char* q[2]; for(auto& x : q) { x = (char*)a.Alloc(3); memset(x, 'z', 3); }
  for(int i = 0; i < 8; i += 2) a.Dealloc(p[i], 2);
  for(int i = 1; i < 8; i += 2) if(p[i][0] != 'a' + i || p[i][1] != 'a' + i) return 1;
  for(auto& x : q) if(x[0] != 'z' || x[1] != 'z' || x[2] != 'z') return 2;
  return 0;
}
'''
