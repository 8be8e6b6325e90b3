PROP = 'C09'
EDITS = [('include/bss-util/LinkedArray.h', '      pcur.prev = (index == (CT_)-1) ? _end : (CT_)-1; //This', '      pcur.prev = (CT_)-1; //This')]
NEEDS = 'InsertBefore with no position on a list that is not empty'
BREAKS = 'the appended element is not linked to the one before it and becomes the start of the list'
DEMO = r'''
#include "bss-util/LinkedArray.h"
using namespace bss;
int main() { LinkedArray<int> a; a.Add(1); a.Add(2); a.InsertBefore(3, (size_t)-1); int n = 0, v = 0; for(auto x : a) { ++n; v = v * 10 + x; } return n == 3 && v == 123 ? 0 : 1; }
'''
