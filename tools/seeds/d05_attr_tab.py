PROP = 'D05'
EDITS = [('bss-util/XML.cpp', '  for(i = 0; i < buf.length() && !isspace(buf[i]); ++i);', "  for(i = 0; i < buf.length() && buf[i] != ' ' && buf[i] != '\\n'; ++i);")]
NEEDS = 'a tab between the name of an element and its attributes'
BREAKS = 'the attributes become part of the name'
FLAGS = '-fpermissive -w'
LIBS = '"$R"/bss-util/XML.cpp "$R"/bss-util/bss_util.cpp "$R"/bss-util/ConvertUTF.c -Wl,--unresolved-symbols=ignore-all -lpthread'
DEMO = r'''
#include "bss-util/XML.h"
using namespace bss;
int main() { XMLFile f("<a\tb=\"1\"><c\td=\"2\"/></a>"); const XMLNode* a = f[(size_t)0]; return a && !strcmp(a->GetName(), "a") && a->GetAttributes() == 1 && a->GetNodes() == 1 ? 0 : 1; }
'''
