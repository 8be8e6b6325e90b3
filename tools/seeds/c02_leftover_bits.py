PROP = 'C02'
EDITS = [('include/bss-util/BitStream.h', "      _buf = (_buf&((1 << _woffset) - 1)); // This zeros out all bits we didn't assign in _buf", "      if(!_woffset) _buf = 0; // This zeros out all bits we didn't assign in _buf")]
NEEDS = 'a write of less than 8 bits from a byte that has bits set above them, followed by another write'
BREAKS = 'the bits above the ones that were asked for end up in the next value'
DEMO = r'''
#include "bss-util/BitStream.h"
#include <sstream>
using namespace bss;
int main() { std::stringstream ss; { BitStream<std::stringstream> b(ss); unsigned char x = 0xFF, y = 0; b.Write(&x, 3); b.Write(&y, 5); } unsigned char r = (unsigned char)ss.str()[0]; return r == 7 ? 0 : 1; }
'''
