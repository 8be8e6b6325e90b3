PROP = 'E02'
EDITS = [('include/bss-util/Rational.h', '      _n = _n * (r_d / g) - r_n * _d;\n      g = GCD<T>(_n, g);\n      _n /= g;', '      _n = _n * (r_d / g) - r_n * _d;\n      if(_n > 0) g = GCD<T>(_n, g);\n      _n /= g;')]
NEEDS = 'a subtraction with a negative result whose denominators share a factor that the numerator does not'
BREAKS = 'the numerator is divided by a number that does not divide it'
DEMO = r'''
#include "bss-util/Rational.h"
using namespace bss;
int main() { Rational<int> r = Rational<int>(1, 6) - Rational<int>(3, 4); return r.N() == -7 && r.D() == 12 ? 0 : 1; }
'''
