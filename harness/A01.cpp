// BUILD: sched
// RWLock: mutual exclusion, shared readers, upgrade/downgrade, attempts, no deadlock, quiescent state.
#include "mcs.h"
#include "bss-util/RWLock.h"
using namespace bss;
#define RAW __attribute__((noinline, no_sanitize_thread))

// The observer is not instrumented: it adds no scheduling points and no synchronisation of its own.
struct Observer {
  int readers, writers;
  RAW void racq() { if(writers) mcs::fail("a reader holds the lock while a writer holds it"); ++readers; }
  RAW void rrel() { --readers; }
  RAW void wacq() { if(writers || readers) mcs::fail("a writer got the lock while %d writer(s) and %d reader(s) hold it", writers, readers); ++writers; }
  RAW void wrel() { --writers; }
  RAW void uacq() { if(writers || readers) mcs::fail("upgrade granted while %d writer(s) and %d other reader(s) hold the lock", writers, readers); ++writers; }
};
enum { LOCK, ALOCK, ASLOCK, RLOCK, ARLOCK, UPG, AUPG, NOPS };

struct Base : mcs::Test {
  bool lite = false; // lite: one protected word is touched, once (the observer alone judges), which leaves room for a higher preemption bound
  RWLock l; Observer o; long a, b;  // a and b are protected by the lock
  int nt, prog[4][3], len[4]; int granted[4];
  Base() : o{ 0, 0 }, a(0), b(0) {}
  int threads() { return nt; }
  RAW void wrlite() { ++a; ++b; }
  volatile int inside = 0;
  void wr() { if(lite) { wrlite(); inside = 1; return; } long x = a; a = x + 1; b = b + 1; }
  void rd() { if(lite) { (void)inside; return; } long x = a; long y = b; if(x != y) mcs::fail("a reader saw a half-finished write (%ld,%ld)", x, y); }
  RAW void grant(int i) { ++granted[i]; }
  void op(int i, int k) {
    switch(k) {
    case LOCK: l.Lock(); o.wacq(); wr(); grant(i); o.wrel(); l.Unlock(); break;
    case ALOCK: if(l.AttemptLock()) { o.wacq(); wr(); grant(i); o.wrel(); l.Unlock(); } break;
    case ASLOCK: if(l.AttemptStrictLock()) { o.wacq(); wr(); grant(i); o.wrel(); l.Unlock(); } break;
    case RLOCK: l.RLock(); o.racq(); rd(); o.rrel(); l.RUnlock(); break;
    case ARLOCK: if(l.AttemptRLock()) { o.racq(); rd(); o.rrel(); l.RUnlock(); } break;
    case UPG: l.RLock(); o.racq(); rd(); o.rrel(); l.Upgrade(); o.uacq(); wr(); grant(i); rd(); o.wrel(); o.racq(); l.Downgrade(); rd(); o.rrel(); l.RUnlock(); break;
    case AUPG: l.RLock(); o.racq(); rd();
      o.rrel(); // while the upgrade is pending the caller only counts as "the one remaining reader"
      if(l.AttemptUpgrade()) { o.uacq(); wr(); grant(i); o.wrel(); o.racq(); l.Downgrade(); } else o.racq();
      rd(); o.rrel(); l.RUnlock(); break;
    }
  }
  void thread(int i) { for(int k = 0; k < len[i]; ++k) op(i, prog[i][k]); }
  void finish() {
    long g = 0; for(int i = 0; i < nt; ++i) g += granted[i];
    if(a != g || b != g) mcs::fail("lost update: %ld writes were granted, the protected counters are %ld/%ld", g, a, b);
    if(!l.IsFree() || l.ReaderCount()) mcs::fail("the lock is not free after every holder released it");
    mcs::outcome(g);
    if(!l.AttemptStrictLock()) mcs::fail("a free lock refused AttemptStrictLock");
    if(l.AttemptRLock()) mcs::fail("AttemptRLock succeeded under a writer");
    if(l.AttemptLock()) mcs::fail("AttemptLock succeeded under a writer");
    if(l.AttemptStrictLock()) mcs::fail("AttemptStrictLock succeeded under a writer");
    l.Unlock();
    if(!l.AttemptRLock() || l.ReaderCount() != 1) mcs::fail("a free lock refused a reader");
    if(!l.AttemptRLock() || l.ReaderCount() != 2) mcs::fail("a second reader was refused");
    if(l.AttemptStrictLock()) mcs::fail("AttemptStrictLock succeeded under readers");
    l.RUnlock(); l.RUnlock();
    if(!l.IsFree()) mcs::fail("the lock is not free at the end");
  }
};
// every combination of programs (threads are symmetric, so programs are chosen in non-decreasing order; FIRST fixes the first thread's)
template<int NT, int LEN, bool LITE = false, int FIRST = -1, int LAST = FIRST> struct AllProgs : Base {
  void setup() {
    lite = LITE; nt = NT; int lim = 1; for(int k = 0; k < LEN; ++k) lim *= NOPS; int prev = 0; for(int i = 0; i < 4; ++i) granted[i] = 0;
    for(int i = 0; i < NT; ++i) { int c = !i && FIRST >= 0 ? FIRST + mcs::choose(LAST - FIRST + 1) : prev + mcs::choose(lim - prev); prev = c; len[i] = LEN; for(int k = 0; k < LEN; ++k) { prog[i][k] = c % NOPS; c /= NOPS; } }
  }
};
typedef AllProgs<2, 1> P21; typedef AllProgs<2, 2> P22; typedef AllProgs<3, 1> P31; typedef AllProgs<4, 1> P41;
#define SPLIT31(n, f, l, b, bt) typedef AllProgs<3, 1, true, f, l> L31_##f; MCS_CONFIG("3 threads x 1 op, lock words only, first op " n, L31_##f, b, bt)
SPLIT31("Lock", 0, 0, 3, 5); SPLIT31("AttemptLock", 1, 1, 3, 5); SPLIT31("AttemptStrictLock, RLock", 2, 3, 3, 5); SPLIT31("AttemptRLock and later", 4, 6, 3, 5);
typedef AllProgs<2, 2, true, 0, 20> L22a; typedef AllProgs<2, 2, true, 21, 48> L22b;
MCS_CONFIG("2 threads x 2 ops, lock words only, first half", L22a, 3, 5);
MCS_CONFIG("2 threads x 2 ops, lock words only, second half", L22b, 3, 5);
MCS_CONFIG("2 threads x 1 op, all programs", P21, 5, 12);
MCS_CONFIG("2 threads x 2 ops, all programs", P22, 2, 4);
MCS_CONFIG("3 threads x 1 op, all programs", P31, 2, 4);
MCS_CONFIG("4 threads x 1 op, all programs", P41, 1, 2);
