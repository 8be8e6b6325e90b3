PROP = 'D02'
EDITS = [('include/bss-util/StringTable.h', 'memcpy(_strings + curlength, strings[i], hold * sizeof(T)); //we', 'memcpy(_strings + curlength, strings[i], hold); //we')]
NEEDS = 'a table of wide strings'
BREAKS = 'only part of each string is copied'
DEMO = r'''
#include "bss-util/StringTable.h"
using namespace bss;
int main() { const wchar_t* w[] = { L"alpha", L"", L"beta" }; StringTable<wchar_t> t(w, 3); for(int i = 0; i < 3; ++i) if(wcscmp(t.GetString(i), w[i])) return 1; return 0; }
'''
