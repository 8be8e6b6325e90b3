// Stateless model checker for multithreaded code: every thread is a fiber of one OS thread; the code under test is
// compiled with -fsanitize=thread and linked with this runtime instead of libtsan, so that every memory access and
// every atomic operation of the real code is a scheduling point. See DESIGN.md section 3.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>

namespace mcs {
  struct Test {
    virtual ~Test() {}
    virtual int threads() = 0;
    virtual void setup() {}            // single threaded, before the threads start
    virtual void thread(int i) = 0;    // body of thread i
    virtual void finish() {}           // single threaded, after all threads ended
  };
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
  // operation log (recorded outside instrumentation): returns op index
  struct Op { int thread, kind; long arg, ret; int begin, end; };
  int begin(int thread, int kind, long arg);
  void end(int id, long ret);
  const std::vector<Op>& ops();
  void outcome(long h);                // mixes a value into this execution's observable outcome
  void yield();                        // explicit scheduling point
  int choose(int n);                   // nondeterministic data choice, enumerated exhaustively
  bool valid(const void* p, size_t n); // [p,p+n) is allocated memory
  size_t live();                       // allocated blocks
  int self();                          // current fiber
  void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // printed when replaying

  // brute force linearizability: step(state, op) returns true if op (with its recorded result) is legal in state and updates it.
  typedef std::vector<long> State;
  bool linearizable(const std::vector<Op>& ops, State init, const std::function<bool(State&, const Op&)>& step);
  std::string show(const std::vector<Op>& ops, const char* const* kinds);

  struct Config { const char* name; Test* (*mk)(); int bq, bt; uint64_t capq, capt; Config* next; static Config* head; Config(const char* n, Test* (*f)(), int q, int t, uint64_t cq = ~0ull, uint64_t ct = ~0ull); };
}
#define MCS_CAT2(a, b) a##b
#define MCS_CAT(a, b) MCS_CAT2(a, b)
// name, test type, preemption bound quick, thorough
#define MCS_CONFIG(nm, T, q, t) static mcs::Config MCS_CAT(mcscfg_, __COUNTER__)(nm, []() -> mcs::Test* { return new T; }, q, t)
