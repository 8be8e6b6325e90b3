PROP = "A03"
EDITS = [("include/bss-util/LocklessQueue.h", """      _last->next = nval;
      _last = nval; // This can happen before or after modifying _last->next because no other function uses _last
      _pflag.clear(std::memory_order_release);
""", """      QNODE* prev = _last;
      _last = nval; // This can happen before or after modifying _last->next because no other function uses _last
      _pflag.clear(std::memory_order_release);
      prev->next = nval; // prev stays alive until it is linked, because it can't be popped before that
""")]
NEEDS = "one producer stalled between releasing the producer flag and linking its node, while another producer completes a Push and a consumer then calls Pop"
BREAKS = "an element whose Push has returned is invisible behind another producer's unlinked node, so Pop reports an empty queue that is not empty"
DEMO = r'''
#include "bss-util/LocklessQueue.h"
#include <thread>
#include <cstdio>
#include <vector>
using namespace bss;
int main() { // every thread pushes, then pops: the queue can never be empty when it pops
  MicroLockQueue<size_t> q; std::atomic<bool> bad{ false }, stop{ false };
  std::vector<std::thread> t;
  for(int i = 0; i < 16; ++i) t.emplace_back([&] { size_t v; while(!stop.load()) { q.Push((size_t)1); if(!q.Pop(v)) { bad = true; stop = true; } } });
  for(int i = 0; i < 3000 && !bad.load(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  stop = true; for(auto& x : t) x.join();
  if(bad) puts("Pop reported an empty queue although an element was in it");
  return bad ? 1 : 0;
}
'''
