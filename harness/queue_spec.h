// Shared by the queue harnesses: a FIFO specification, an element type whose instances are counted, program enumeration.
#pragma once
#include "mcs.h"
#define RAW __attribute__((noinline, no_sanitize_thread))
enum { PUSH, POP, PEEK, NQ };
static const char* qnames[] = { "push", "pop", "peek" };
static inline bool fifo_step(mcs::State& s, const mcs::Op& o) {
  if(o.kind == PUSH) { s.push_back(o.arg); return true; }
  if(o.kind == POP) { if(s.empty()) return o.ret == -1; if(o.ret != s.front()) return false; s.erase(s.begin()); return true; }
  return o.ret == !s.empty();
}
static const long NONE = -7777;
struct Elem { // owns a heap cell: a lost, duplicated or torn element shows up as a wrong count, a double free or a use after free
  long* p; static int live;
  RAW static void inc() { ++live; } RAW static void dec() { if(--live < 0) mcs::fail("an element was destroyed twice"); }
  Elem(long v = NONE) : p(v == NONE ? nullptr : new long(v)) { inc(); }
  Elem(const Elem& o) : p(o.p ? new long(*o.p) : nullptr) { inc(); }
  Elem(Elem&& o) : p(o.p) { o.p = nullptr; inc(); }
  ~Elem() { delete p; p = nullptr; dec(); }
  Elem& operator=(const Elem& o) { if(this != &o) { delete p; p = o.p ? new long(*o.p) : nullptr; } return *this; }
  Elem& operator=(Elem&& o) { if(this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  long get() const { if(!p) mcs::fail("popped an element without a value"); return *p; }
};
int Elem::live = 0;
static inline long val(const Elem& e) { return e.get(); }
static inline long val(long e) { return e; }
