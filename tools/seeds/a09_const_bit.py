PROP = 'A09'
EDITS = [('include/bss-util/lockless.h', '"lock btsq %[bit], %[x]\\n\\t"', '"lock btsl %k[bit], %[x]\\n\\t"')]
NEEDS = 'a constant bit number above 31 and an optimised build'
BREAKS = 'another bit is set'
FLAGS = '-O2'
DEMO = r'''
#include "bss-util/lockless.h"
using namespace bss;
int main() { uint64_t x = 0; asmbts<uint64_t>(&x, 40); if(x != (1ULL << 40)) return 1; volatile uint64_t b = 50; asmbts<uint64_t>(&x, (uint64_t)b); return x == ((1ULL << 40) | (1ULL << 50)) ? 0 : 1; }
'''
