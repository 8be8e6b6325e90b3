PROP = 'E03'
EDITS = [('include/bss-util/bss_util.h', "              n = format[2] - '0';\n              n += (format[1] - '0') * 10;", "              n = format[1] - '0';\n              n += (format[2] - '0') * 10;")]
NEEDS = 'a format with more than ten arguments'
BREAKS = 'SafeFormat prints the wrong argument for two digit parameters'
DEMO = r'''
#include "bss-util/bss_util.h"
#include <sstream>
using namespace bss;
int main() { std::ostringstream s; SafeFormat(s, "{0} {9} {10} {11} {12}", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); return s.str() == "0 9 10 11 12" ? 0 : 1; }
'''
