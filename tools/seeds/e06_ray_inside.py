PROP = 'E06'
EDITS = [('include/bss-util/Collision.h', '      if(t[i] >= 0)\n      {\n        out[count].x = X1 + Dx*t[i];\n        out[count].y = Y1 + Dy*t[i];', '      if(t[i] >= 0)\n      {\n        out[i].x = X1 + Dx*t[i];\n        out[i].y = Y1 + Dy*t[i];')]
NEEDS = 'a ray that starts inside of the circle'
BREAKS = 'the only intersection is reported in the wrong place'
DEMO = r'''
#include "bss-util/Collision.h"
#include <cmath>
using namespace bss;
int main() { Vector<float, 2> o[2]; o[0] = { 9, 9 }; o[1] = { 9, 9 }; if(RayRadiusIntersect<float>(0, 0, 1, 0, 2, o) != 1) return 1; return fabs(o[0].x - 2) < 0.01f && fabs(o[0].y) < 0.01f ? 0 : 1; }
'''
