PROP = 'A10'
EDITS = [('include/bss-util/Thread.h', '      ts.tv_sec += mstimeout / 1000;', '      ts.tv_sec += mstimeout >> 10;')]
NEEDS = 'a join with a timeout between 1000 and 1023 ms (or a multiple) on a thread that is still running'
BREAKS = 'the join gives up almost a second early'
DEMO = r'''
#include "bss-util/Thread.h"
#include <chrono>
using namespace bss;
int main() { Thread t([] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); }); size_t r = t.join(1000); return r == (size_t)~0; }
'''
LIBS = '-lpthread'
