PROP = "A08"
EDITS = [("include/bss-util/ThreadPool.h", "      _lock.Notify(instances);", "      _lock.Notify(instances < 2 ? instances : instances - 1);")]
NEEDS = "a task submitted with several instances that have to run at the same time, while all workers sleep"
BREAKS = "one worker too few is woken, so an instance stays in the queue although a worker is idle"
DEMO = r'''
#include "bss-util/ThreadPool.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <stdlib.h>
using namespace bss;
static std::atomic<int> running(0), both(0);
static void task(void*) { ++running; for(int i = 0; i < 300 && running < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10)); if(running >= 2) ++both; }
int main() {
  ThreadPool pool(2);
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  pool.AddTask(&task, 0, 2);
  for(int i = 0; i < 200 && both < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  _Exit(both == 2 ? 0 : 1);
}
'''
