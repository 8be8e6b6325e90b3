PROP = 'D11'
EDITS = [('include/bss-util/Profiler.h', '''        _cur->total = 0;
      _cur->inner = 0;
''', '''        _cur->total = _cur->inner = 0;
''')]
NEEDS = 'a profiled scope with a profiled scope inside that runs more than once'
BREAKS = 'the time of earlier inner scopes is taken off again, so the own time of the scope is wrong'
DEMO = r'''
#include "bss-util/Profiler.h"
#include <thread>
#include <chrono>
using namespace bss;
int main() {
  auto& p = Profiler::profiler; auto* root = p.GetCur(); auto nap = [](int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }; Profiler::PROF_TRIENODE* node = 0;
  for(int i = 0; i < 3; ++i) { uint64_t a = p.StartProfile(1); auto* in = p.GetCur(); node = in; nap(20); uint64_t b = p.StartProfile(2); nap(50); p.EndProfile(b, in); p.EndProfile(a, root); }
  return node->codeavg > 5e6 && node->codeavg < 60e6 ? 0 : 1;
}
'''
LIBS = '"$R"/bss-util/profiler.cpp "$R"/bss-util/HighPrecisionTimer.cpp -lpthread'
