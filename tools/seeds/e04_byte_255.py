PROP = 'E04'
EDITS = [('include/bss-util/stream.h', '{ return (_cur == _end) ? traits_type::eof() : traits_type::to_int_type(*_cur); }', '{ return (_cur == _end) ? traits_type::eof() : *_cur; }')]
NEEDS = 'a byte 255 in the buffer'
BREAKS = 'it looks like the end of the stream'
FLAGS = '-fpermissive -w'
LIBS = '"$R"/bss-util/bss_util.cpp "$R"/bss-util/ConvertUTF.c -Wl,--unresolved-symbols=ignore-all -lpthread'
DEMO = r'''
#include "bss-util/stream.h"
using namespace bss;
int main() { const char d[] = { 'a', (char)255, 'b' }; StreamBufArray<char> b(d, 3); std::istream s(&b); if(s.get() != 'a') return 1; if(s.peek() != 255) return 1; s.get(); return s.get() == 'b' ? 0 : 1; }
'''
