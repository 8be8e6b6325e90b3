PROP = 'D06'
EDITS = [('bss-util/INIstorage.cpp', 'for(; instance < secroot->instances.Capacity(); ++instance) --secroot->instances[instance]->val._index;', 'if(instance < secroot->instances.Capacity()) --secroot->instances[instance]->val._index;')]
NEEDS = 'removing one of at least four sections of one name'
BREAKS = 'later namesakes keep their old index and edit another section'
LIBS = '"$R"/bss-util/INIstorage.cpp "$R"/bss-util/INIsection.cpp "$R"/bss-util/INIentry.cpp "$R"/bss-util/INIParser.c "$R"/bss-util/bss_util.cpp "$R"/bss-util/ConvertUTF.c -Wl,--unresolved-symbols=ignore-all -lpthread'
FLAGS = '-fpermissive -w'
DEMO = r'''
#include "bss-util/INIstorage.h"
#include <unistd.h>
using namespace bss;
int main() { char d[] = "/tmp/iniXXXXXX"; if(!mkdtemp(d) || chdir(d)) return 2; int r = 0; { INIstorage s("t.ini"); for(int i = 0; i < 5; ++i) s.AddSection("a"); s.RemoveSection("a", 1); for(int i = 0; i < 4; ++i) { INIsection* p = s.GetSection("a", i); if(!p || p->GetIndex() != (size_t)i) r = 1; } s.DiscardINIEdit(); } unlink("t.ini"); chdir("/"); rmdir(d); return r; }
'''
