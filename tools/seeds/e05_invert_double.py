PROP = 'E05'
EDITS = [('include/bss-util/vector.h', 'dst[14] -= tmp[10] * src[11] + tmp[2] * src[8] + tmp[7] * src[9];', 'dst[14] -= tmp[10] * src[10] + tmp[2] * src[8] + tmp[7] * src[9];')]
NEEDS = 'inverting a 4x4 matrix of doubles'
BREAKS = 'one element of the inverse is wrong'
DEMO = r'''
#include "bss-util/vector.h"
#include <math.h>
using namespace bss;
int main() { double m[4][4] = { { 2, 1, 0, 3 }, { 1, 4, 1, 0 }, { 0, 2, 5, 1 }, { 1, 0, 3, 7 } }, n[4][4]; MatrixInvert4x4<double>(&m[0][0], &n[0][0]); for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { double s = 0; for(int k = 0; k < 4; ++k) s += m[i][k] * n[k][j]; if(fabs(s - (i == j)) > 1e-9) return 1; } return 0; }
'''
