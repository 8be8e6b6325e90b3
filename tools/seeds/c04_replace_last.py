PROP = 'C04'
EDITS = [('include/bss-util/ArraySort.h', '      while(index < (_array.Length() - 1) && CFunc(_array[index + 1], _array[index]) < 0)', '      while(index + 2 < _array.Length() && CFunc(_array[index + 1], _array[index]) < 0)')]
NEEDS = 'replacing an element by one that has to become the last'
BREAKS = 'the new element stops one position before the end, so the array is no longer sorted'
DEMO = r'''
#include "bss-util/ArraySort.h"
using namespace bss;
int main() { ArraySort<int> a; for(int i = 0; i < 5; ++i) a.Insert(i); a.ReplaceData(1, 9); for(size_t i = 1; i < a.Length(); ++i) if(a[i - 1] > a[i]) return 1; return a.Find(9) == 4 ? 0 : 2; }
'''
