PROP = 'D08'
EDITS = [('include/bss-util/TOML.h', "                break;\n              buf += '\\'';\n", '                break;\n')]
NEEDS = 'two quotes in a row inside a multi-line literal string'
BREAKS = 'one of the quotes is lost'
FLAGS = '-fpermissive -w'
LIBS = '"$R"/bss-util/bss_util.cpp "$R"/bss-util/ConvertUTF.c -Wl,--unresolved-symbols=ignore-all -lpthread'
DEMO = r"""
#include "bss-util/TOML.h"
using namespace bss;
struct S { std::string a, b; template<typename E> void Serialize(Serializer<E>& s, const char*) { s.template EvaluateType<S>(GenPair("a", a), GenPair("b", b)); } };
int main() { S s; std::istringstream i("a = '''x''y'''\nb = \"z\"\n"); Serializer<TOMLEngine> e; e.Parse(s, i, 0); return s.a == "x''y" && s.b == "z" ? 0 : 1; }
"""
