PROP = "A01"
EDITS = [("include/bss-util/RWLock.h", """      while(l.fetch_add(ONE_READER, std::memory_order_acquire)&WFLAG) // Oppurtunistically acquire a read lock and check to see if the writer flag is set
      {
        if(l.fetch_sub(ONE_READER, std::memory_order_release)&WFLAG) // If the writer flag is set, release our lock to let the writer through
          while(l.load(std::memory_order_relaxed)&WFLAG); // Wait until the writer flag is no longer set before looping for another attempt
      }
""", """      if(l.fetch_add(ONE_READER, std::memory_order_acquire)&WFLAG) // Oppurtunistically acquire a read lock and check to see if the writer flag is set
      {
        if(l.fetch_sub(ONE_READER, std::memory_order_release)&WFLAG) // If the writer flag is set, release our lock to let the writer through
          while(l.load(std::memory_order_relaxed)&WFLAG); // Wait until the writer flag is no longer set before acquiring it
        l.fetch_add(ONE_READER, std::memory_order_acquire);
      }
""")]
NEEDS = "a second writer taking the lock between the instant a waiting reader sees the write flag clear and its second increment"
BREAKS = "RLock returns while a writer holds the lock, so a reader and a writer are inside at once"
DEMO = r'''
#include "bss-util/RWLock.h"
#include <thread>
#include <cstdio>
#include <chrono>
using namespace bss;
int main() {
  RWLock l; std::atomic<bool> bad{ false }, stop{ false }; volatile long x = 0, y = 0;
  std::thread t[6];
  for(int i = 0; i < 6; ++i) t[i] = std::thread([&, i] {
    while(!stop.load()) {
      if(i < 3) { l.Lock(); x = x + 1; for(volatile int k = 0; k < 20; ++k); y = y + 1; l.Unlock(); }
      else { l.RLock(); long a = y, b = x; if(a != b) bad = true; l.RUnlock(); }
    } });
  for(int i = 0; i < 2000 && !bad.load(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  stop = true; for(auto& q : t) q.join();
  if(bad) puts("a reader saw a half-done write");
  return bad ? 1 : 0;
}
'''
