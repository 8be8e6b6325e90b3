// BUILD: sched lib=bss_util.cpp,bss_util_c.c
// ThreadPool and Thread: every task runs exactly once, Wait() really waits, shutdown terminates, timed join.
#include "mcs.h"
#include <errno.h>
#include <time.h>
#include "bss-util/ThreadPool.h"
using namespace bss;
#define RAW __attribute__((noinline, no_sanitize_thread))
static int ran[8]; static int inside[8]; static ThreadPool* gp;
RAW static void enter(int i) { ++ran[i]; ++inside[i]; }
RAW static void leave(int i) { --inside[i]; }
static long shared_word;
static void task(void* p) { long i = (long)p; enter((int)i); shared_word = i; leave((int)i); } // the store is a scheduling point inside the task
static void nested(void* p) { enter(6); gp->AddTask(&task, (void*)7); leave(6); }
static void fn2(int a, long b) { enter(a); if(b != 40 + a) mcs::fail("AddFunc passed a wrong argument (%ld for %d)", b, a); shared_word = b; leave(a); }

struct Base : mcs::Test {
  int kind[4];
  RAW void expect(int i, int n, const char* when) { if(ran[i] != n) mcs::fail("task %d ran %d time(s) instead of %d (%s)", i, ran[i], n, when); if(inside[i]) mcs::fail("task %d is still running (%s)", i, when); }
  RAW void busy() { if(gp->Busy()) mcs::fail("Busy() is %zu after Wait()", gp->Busy()); }
  void add(int i, int kind) { if(kind == 0) gp->AddTask(&task, (void*)(long)i); else if(kind == 1) gp->AddFunc<void, int, long>(&fn2, (int)i, 40l + i); else gp->AddTask(&task, (void*)(long)i, 2); }
  void check(int i, int kind, const char* when) { expect(i, kind == 2 ? 2 : 1, when); }
  void finish() { mcs::outcome(shared_word); }
};
// one client: add tasks, wait, add more, destroy without waiting
template<int W, int N1, int N2, int KINDS> struct Client : Base {
  int threads() { return 1; }
  void setup() { for(int i = 0; i < N1 + N2; ++i) kind[i] = mcs::choose(KINDS); }
  void thread(int) {
    gp = new ThreadPool(W);
    for(int i = 0; i < N1; ++i) add(i, kind[i]);
    if(N1) { gp->Wait(); for(int i = 0; i < N1; ++i) check(i, kind[i], "after Wait"); busy(); }
    for(int i = N1; i < N1 + N2; ++i) add(i, kind[i]);
    delete gp; for(int i = 0; i < N1 + N2; ++i) check(i, kind[i], "after destruction");
  }
};
// a task adds another task
template<int W> struct Nested : Base {
  int threads() { return 1; }
  void thread(int) { gp = new ThreadPool(W); gp->AddTask(&nested, nullptr); gp->Wait(); expect(6, 1, "after Wait"); expect(7, 1, "nested, after Wait"); busy(); delete gp; expect(7, 1, "after destruction"); }
};
// two clients share a pool
struct Two : Base {
  std::atomic<int> done; int threads() { return 2; }
  void setup() { done = 0; gp = new ThreadPool(1); }
  void thread(int i) {
    gp->AddTask(&task, (void*)(long)i); gp->Wait(); check(i, 0, "after the client's own Wait");
    if(i) done.store(1); else { while(!done.load()); delete gp; check(0, 0, "after destruction"); check(1, 0, "after destruction"); }
  }
};
template<int N> struct Instances : Base { // instances = 0 means one per worker
  int threads() { return 1; }
  void thread(int) { gp = new ThreadPool(N); gp->AddTask(&task, (void*)3, 0); gp->Wait(); expect(3, N, "after Wait, one per worker"); delete gp; expect(3, N, "after destruction"); }
};
struct Growth : Base { // threads added while tasks are queued
  int threads() { return 1; }
  void thread(int) { gp = new ThreadPool(1); gp->AddTask(&task, (void*)0); gp->AddThreads(1); gp->AddTask(&task, (void*)1); delete gp; expect(0, 1, "after destruction"); expect(1, 1, "after destruction"); }
};
// arguments that own something: each copy made for a call is destroyed by the time the call counts as finished
static std::atomic<int> args_alive;
struct Arg { int v; Arg(int x) : v(x) { args_alive.fetch_add(1); } Arg(const Arg& o) : v(o.v) { args_alive.fetch_add(1); } Arg(Arg&& o) : v(o.v) { o.v = -1; args_alive.fetch_add(1); } ~Arg() { args_alive.fetch_add(-1); } };
static void fn3(Arg a, int b) { enter(a.v); if(b != 70 + a.v) mcs::fail("AddFunc passed a wrong argument (%d for %d)", b, a.v); leave(a.v); }
template<int W, int N> struct Owning : Base {
  int threads() { return 1; }
  void thread(int) {
    args_alive = 0; gp = new ThreadPool(W); for(int i = 0; i < N; ++i) gp->AddFunc<void, Arg, int>(&fn3, Arg(i), 70 + i);
    gp->Wait(); for(int i = 0; i < N; ++i) expect(i, 1, "after Wait"); if(args_alive) mcs::fail("%d argument(s) of finished calls were never destroyed", args_alive.load());
    gp->AddFunc<void, Arg, int>(&fn3, Arg(5), 75); delete gp; expect(5, 1, "after destruction"); if(args_alive) mcs::fail("%d argument(s) of finished calls were never destroyed", args_alive.load());
  }
};
typedef Owning<1, 1> O11;
MCS_CONFIG("1 worker, owning arguments", O11, 2, 4);
typedef Client<1, 1, 0, 3> C110; typedef Client<1, 0, 1, 3> C101; typedef Client<1, 1, 1, 2> C111; typedef Client<2, 1, 0, 2> C210; typedef Client<2, 0, 2, 1> C202; typedef Client<1, 2, 0, 2> C120; typedef Client<2, 2, 1, 1> C221;
MCS_CONFIG("1 worker, add 1, wait, destroy", C110, 3, 5);
MCS_CONFIG("1 worker, add 1, destroy", C101, 3, 5);
MCS_CONFIG("1 worker, add, wait, add, destroy", C111, 2, 4);
MCS_CONFIG("1 worker, add 2, wait", C120, 2, 4);
MCS_CONFIG("2 workers, add 1, wait", C210, 2, 3);
MCS_CONFIG("2 workers, add 2, destroy", C202, 1, 3);
MCS_CONFIG("2 workers, add 2, wait, add 1", C221, 1, 2);
MCS_CONFIG("1 worker, nested task", Nested<1>, 3, 4);
MCS_CONFIG("2 workers, nested task", Nested<2>, 2, 3);
MCS_CONFIG("1 instance per worker", Instances<2>, 2, 3);
MCS_CONFIG("2 clients, 1 worker", Two, 2, 3);
MCS_CONFIG("threads added while busy", Growth, 2, 3);
// tasks that need each other: as many tasks as workers must be running at the same time although nobody calls Wait
static std::atomic<int> met, left;
static void meet(void* p) { enter((int)(long)p); met.fetch_add(1); while(met.load() < 2); leave((int)(long)p); left.fetch_add(1); }
template<int HOW> struct Meet : Base {
  int threads() { return 1; }
  void thread(int) {
    met = 0; left = 0; gp = new ThreadPool(2);
    if(HOW == 0) gp->AddTask(&meet, (void*)0, 2); else if(HOW == 1) { gp->AddTask(&meet, (void*)0); gp->AddTask(&meet, (void*)0); } else if(HOW == 2) gp->AddTask(&meet, (void*)0, 0); else { gp->AddThreads(1); gp->AddTask(&meet, (void*)0, 2); }
    while(left.load() < 2); // no Wait: the workers have to do it
    expect(0, 2, "tasks that meet"); delete gp;
  }
};
MCS_CONFIG("2 instances that meet", Meet<0>, 2, 3);
MCS_CONFIG("2 tasks that meet", Meet<1>, 2, 3);
MCS_CONFIG("1 instance per worker, meeting", Meet<2>, 2, 3);
MCS_CONFIG("3 workers, 2 instances that meet", Meet<3>, 1, 2);
