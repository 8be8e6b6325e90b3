// BUILD: sched lib=bss_util.cpp,bss_util_c.c
// Thread and Semaphore: timed join, destruction joins, counted wake-ups.
#include "mcs.h"
#include <errno.h>
#include <time.h>
#include "bss-util/Thread.h"
#include <atomic>
using namespace bss;
#define RAW __attribute__((noinline, no_sanitize_thread))
struct Base : mcs::Test { };
// join with a timeout: the deadline handed to the system is the current time plus the timeout, normalised
static timespec clk, dl; static int dlset, joinres;
extern "C" int clock_gettime(clockid_t, struct timespec* t) { static int (*real)(clockid_t, timespec*); if(clk.tv_sec) { *t = clk; return 0; } long r; asm volatile("syscall" : "=a"(r) : "a"(228), "D"(1), "S"(t) : "rcx", "r11", "memory"); return 0; }
extern "C" int pthread_timedjoin_np(pthread_t p, void** r, const struct timespec* t) {
  dl = *t; ++dlset; if(t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; // what the system does with such a deadline
  if(!joinres) return ETIMEDOUT; return pthread_join(p, r);
}
static long body_ran;
static void tbody() { body_ran = 1; }
struct TimedJoin : Base {
  int threads() { return 1; }
  void thread(int) {
    static const long ns[] = { 0, 1, 499999999, 500000000, 999000000, 999999999 }; static const size_t ms[] = { 1, 499, 500, 999, 1000, 1001, 2500 };
    timespec now{ 1000, ns[mcs::choose(6)] }; size_t m = ms[mcs::choose(7)]; joinres = mcs::choose(2); dlset = 0; body_ran = 0; clk.tv_sec = 0;
    Thread* th = new Thread(&tbody); clk = now; size_t r = th->join(m); clk.tv_sec = 0;
    long long want = now.tv_sec * 1000000000ll + now.tv_nsec + (long long)m * 1000000, got = dl.tv_sec * 1000000000ll + dl.tv_nsec;
    if(dlset) { if(dl.tv_nsec < 0 || dl.tv_nsec >= 1000000000) mcs::fail("join(%zu) at time %ld.%09ld passed an invalid deadline (%ld.%09ld) and cannot wait", m, now.tv_sec, now.tv_nsec, dl.tv_sec, dl.tv_nsec);
      if(got != want) mcs::fail("join(%zu) waits until %lld instead of %lld", m, got, want); }
    if(joinres) { if(r == (size_t)~0) mcs::fail("join(%zu) reports a timeout for a finished thread", m); if(!body_ran) mcs::fail("join returned before the thread ran"); if(th->joinable()) mcs::fail("the thread is still joinable after join"); }
    else { if(r != (size_t)~0) mcs::fail("join(%zu) did not report the timeout", m); if(!th->joinable()) mcs::fail("the thread is not joinable after a timeout"); }
    delete th; if(!body_ran) mcs::fail("a thread object was destroyed before its thread ended");
  }
};

struct TryJoin : Base { // join(0) never blocks: it reports a timeout exactly while the thread is still running
  std::atomic<int> go; int threads() { return 1; }
  void thread(int) {
    body_ran = 0; clk.tv_sec = 0; Thread* th = new Thread(&tbody); size_t r = th->join((size_t)0); bool ran = body_ran;
    if(r != (size_t)~0) { if(!ran) mcs::fail("join(0) succeeded before the thread ran"); if(th->joinable()) mcs::fail("joinable after join(0)"); mcs::outcome(1); } else { if(!th->joinable()) mcs::fail("not joinable although join(0) timed out"); mcs::outcome(2); }
    int k = mcs::choose(3);
    if(k == 0) { if(th->joinable()) th->join(); if(!body_ran) mcs::fail("join() returned early"); }
    else if(k == 1) { Thread b(std::move(*th)); if(th->joinable()) mcs::fail("moved-from thread is joinable"); if(b.joinable() == (r != (size_t)~0)) mcs::fail("the move lost the thread"); }
    delete th; if(!body_ran) mcs::fail("a thread object was destroyed before its thread ended");
  }
};
template<int NW> struct Sem : Base { // N notifications let exactly N waits through, in whatever order they are issued
  Semaphore s; int passed, posted; int plan[4], np, total;
  RAW void post(int n) { posted += n; }
  RAW void pass() { ++passed; if(passed > posted) mcs::fail("%d waits got through after %d notifications", passed, posted); }
  int threads() { return NW + 1; }
  void setup() { passed = posted = total = np = 0; while(total < NW) { int c = mcs::choose(NW - total) + 1; plan[np++] = c; total += c; } }
  void thread(int i) { if(i < NW) { if(!s.Wait()) mcs::fail("Wait failed"); pass(); } else for(int k = 0; k < np; ++k) { post(plan[k]); if(!s.Notify(plan[k])) mcs::fail("Notify failed"); } }
  void finish() { if(passed != NW) mcs::fail("%d of %d waits got through", passed, NW); mcs::outcome(passed); }
};
MCS_CONFIG("timed join", TimedJoin, 3, 6);
MCS_CONFIG("join(0), move, destruction", TryJoin, 6, 9);
MCS_CONFIG("semaphore, 2 waiters", Sem<2>, 4, 6);
MCS_CONFIG("semaphore, 3 waiters", Sem<3>, 2, 4);
