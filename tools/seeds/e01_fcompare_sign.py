PROP = 'E01'
EDITS = [('include/bss-util/bss_util.h', '((a.i + test) ^ (test & 0x7fffffffffffffff)) - b.i', '((a.i + test) ^ (test & 0x7fffffff)) - b.i')]
NEEDS = 'doubles of opposite sign next to zero'
BREAKS = 'fCompare of doubles'
DEMO = r'''
#include "bss-util/bss_util.h"
#include <cmath>
using namespace bss;
int main() { double t = std::nextafter(0.0, 1.0); return fCompare(-t, t, (int64_t)4) && fCompare(t, -t, (int64_t)4) && !fCompare(-1.0, 1.0, (int64_t)4) ? 0 : 1; }
'''
