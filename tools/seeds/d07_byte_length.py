PROP = 'D07'
EDITS = [('bss-util/UBJSON.cpp', 'case TYPE_UINT8: ret = ParseInteger<uint8_t>(s); break;', 'case TYPE_UINT8: ret = ParseInteger<char>(s); break;')]
NEEDS = 'a length of 128 to 255 stored as an unsigned byte'
BREAKS = 'the document is refused'
FLAGS = '-fpermissive -w'
LIBS = '"$R"/bss-util/UBJSON.cpp "$R"/bss-util/bss_util.cpp "$R"/bss-util/ConvertUTF.c -Wl,--unresolved-symbols=ignore-all -lpthread'
DEMO = r'''
#include "bss-util/UBJSON.h"
#include <sstream>
using namespace bss;
int main() { std::string d = "SU"; d += (char)200; d += std::string(200, 'x'); std::istringstream s(d); UBJSONTuple t; try { t.Parse(s, UBJSONTuple::TYPE_NONE); } catch(...) { return 1; } return t.Type == UBJSONTuple::TYPE_STRING && t.Length == 200 ? 0 : 1; }
'''
