PROP = 'A02'
EDITS = [('include/bss-util/LocklessQueue.h', '''      new((QNODE*)last->next) QNODE(std::forward<U>(item));
      _last.store(last->next, std::memory_order_release); // publish it
      internal''', '''      _last.store(last->next, std::memory_order_release); // publish it
      new((QNODE*)last->next) QNODE(std::forward<U>(item));
      internal''')]
NEEDS = 'the consumer popping between the publication of the new node and the construction of its item'
BREAKS = 'Pop returns an item that was never pushed (memory that is not constructed yet)'
DEMO = r'''
#include "bss-util/LocklessQueue.h"
#include <thread>
#include <chrono>
using namespace bss;
struct T { int v; T(int x = 0) : v(x) {} T(const T& o) : v(0) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); v = o.v; } T& operator=(const T& o) { v = o.v; return *this; } };
int main() {
  LocklessQueue<T> q; bool bad = false;
  std::thread p([&] { T t(77); for(int i = 0; i < 5; ++i) q.Push((const T&)t); });
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
  for(int n = 0; n < 5 && std::chrono::steady_clock::now() < end;) { T r; if(q.Pop(r)) { ++n; if(r.v != 77) bad = true; } }
  p.join(); return bad;
}
'''
LIBS = '-lpthread'
