PROP = 'D09'
EDITS = [('include/bss-util/Scheduler.h', 'inline Scheduler(const Scheduler& copy) : BASE(copy), HighPrecisionTimer(copy) {}', 'inline Scheduler(const Scheduler& copy) : BASE(copy) {}')]
NEEDS = 'copying a scheduler that has been running for a while'
BREAKS = 'the copy starts its clock at zero, so its events fire late'
DEMO = r'''
#include "bss-util/Scheduler.h"
#include <thread>
#include <chrono>
#include <functional>
using namespace bss;
int main() { int n = 0; Scheduler<std::function<double()>> a; std::this_thread::sleep_for(std::chrono::milliseconds(600)); a.Update(); a.Add(100, [&] { ++n; return 0.0; }); Scheduler<std::function<double()>> b(a); std::this_thread::sleep_for(std::chrono::milliseconds(300)); b.Update(); return n != 1; }
'''
LIBS = '"$R"/bss-util/HighPrecisionTimer.cpp -lpthread'
