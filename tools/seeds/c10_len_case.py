PROP = 'C10'
EDITS = [('include/bss-util/Trie.h', '        c = *(word++);\n        if constexpr(IGNORECASE)\n          c = tolower(c);\n\n        if(cur->clen > 1)', '        c = *(word++);\n\n        if(cur->clen > 1)')]
NEEDS = 'looking up a string with a length in upper case in a trie that ignores case'
BREAKS = 'the word is not found'
DEMO = r'''
#include "bss-util/Trie.h"
using namespace bss;
int main() { const char* w[] = { "alpha", "beta" }; Trie<uint8_t, true> t(w); return t.Get("ALPHA") == 0 && t.Get("BETAx", 4) == 1 && t.Get("AlphA", 5) == 0 ? 0 : 1; }
'''
