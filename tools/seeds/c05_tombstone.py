PROP = 'C05'
EDITS = [('include/bss-util/Hash.h', '            if(__ac_isdel(flags, i)) site = i;\n            i = (i + (++step)) & mask;', '            if(__ac_isdel(flags, i)) { site = i; break; }\n            i = (i + (++step)) & mask;')]
NEEDS = 'two colliding keys, the first one of which is removed before the second one is inserted again'
BREAKS = 'the insertion stops at the tombstone without looking for the key behind it, so the table holds the key twice'
DEMO = r'''
#include "bss-util/Hash.h"
using namespace bss;
static khint_t same(const int& k) { return 7; }
int main() { Hash<int, int, ARRAY_SIMPLE, &same> h; h.Insert(1, 10); h.Insert(2, 20); h.Remove(1); h.Insert(2, 21); if(h.Length() != 1) return 1; h.Remove(2); return h.Exists(2) ? 2 : 0; }
'''
