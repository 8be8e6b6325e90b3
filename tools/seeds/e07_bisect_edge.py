PROP = 'E07'
EDITS = [('include/bss-util/algo.h', 'if(x <= min || x >= max)', 'if(x < min || x > max)')]
NEEDS = "a function on which Newton's method cycles between the two ends of the interval"
BREAKS = 'the search never bisects and the result is not a root'
DEMO = r'''
#include "bss-util/algo.h"
using namespace bss;
int main() { auto F = [](double x) { return x < 0 ? -sqrt(-x) : sqrt(x); }; auto D = [](double x) { return 0.5 / sqrt(fabs(x)); }; double r = NewtonRaphsonBisection(1.0, -2.0, 3.0, F, D, 1e-6); return fabs(r) > 1e-6; }
'''
