// BUILD: sched
// LocklessQueue (single producer, single consumer): linearizable FIFO, element lifetimes, independent queues.
#include "queue_spec.h"
#include "bss-util/LocklessQueue.h"
using namespace bss;

template<class T, class LEN, int NPUSH, int NCONS, bool OWNPOLICY> struct Spsc : mcs::Test {
  typedef LocklessQueue<T, LEN> Q; typedef BlockPolicy<internal::LQ_QNode<T>> P;
  typedef PolymorphicAllocator<internal::LQ_QNode<T>, BlockPolicy> PA;
  typedef std::conditional_t<OWNPOLICY, LocklessQueue<T, LEN, PA>, LocklessQueue<T, LEN>> QT;
  P* pol; QT* q; int cons[4]; int pre, prepop;
  int threads() { return 2; }
  void setup() {
    pol = nullptr; if constexpr(OWNPOLICY) { pol = new P(1 + mcs::choose(2)); q = new QT(pol); } else q = new QT();
    pre = mcs::choose(3); prepop = mcs::choose(pre + 1);
    for(int i = 0; i < pre; ++i) dopush(2, 100 + i);
    for(int i = 0; i < prepop; ++i) dopop(2);
    for(int i = 0; i < NCONS; ++i) cons[i] = 1 + mcs::choose(2); // pop or peek
  }
  void dopush(int t, long v) { int id = mcs::begin(t, PUSH, v); if(v & 1) q->Push(T(v)); else { T x(v); q->Push(x); } mcs::end(id, 0); }
  long dopop(int t) { int id = mcs::begin(t, POP, 0); long r = -1; { T x(NONE); if(q->Pop(x)) r = val(x); } mcs::end(id, r); return r; }
  void dopeek(int t) { int id = mcs::begin(t, PEEK, 0); bool r = q->Peek(); mcs::end(id, r); }
  void thread(int i) {
    if(i == 0) for(int k = 0; k < NPUSH; ++k) dopush(0, k);
    else for(int k = 0; k < NCONS; ++k) { if(cons[k] == POP) dopop(1); else dopeek(1); }
  }
  void finish() {
    long n = 0; for(auto& o : mcs::ops()) { if(o.kind == PUSH) ++n; if(o.kind == POP && o.ret >= 0) --n; mcs::outcome(o.ret); }
    if constexpr(!std::is_void_v<LEN>) if((long)q->Length() != n) mcs::fail("Length() is %ld with %ld elements in the queue", (long)q->Length(), n);
    bool drain = mcs::choose(2);
    if(drain) { while(dopop(2) >= 0); if(q->Peek()) mcs::fail("an empty queue reports elements"); }
    if(!mcs::linearizable(mcs::ops(), {}, fifo_step)) mcs::fail("not a linearizable FIFO queue: %s", mcs::show(mcs::ops(), qnames).c_str());
    delete q; delete pol;
    if(Elem::live) mcs::fail("%d element(s) alive after the queue was destroyed", Elem::live);
  }
};
// two queues of one element type, each with its own producer: nothing one does may affect the other
template<int N> struct TwoQueues : mcs::Test {
  typedef LocklessQueue<Elem, size_t> Q; Q* q[2];
  int threads() { return 2; }
  void setup() { q[0] = new Q(); q[1] = new Q(); }
  void thread(int i) {
    long next = 0; for(int k = 0; k < N; ++k) { q[i]->Push(Elem(i * 100 + k)); Elem x(NONE); if(k % 2) { if(!q[i]->Pop(x)) mcs::fail("queue %d lost an element that only its own thread could take", i); if(val(x) != i * 100 + next++) mcs::fail("queue %d returned an element out of order or of another queue", i); } }
  }
  void finish() {
    for(int i = 0; i < 2; ++i) { long next = N / 2; Elem x(NONE); while(q[i]->Pop(x)) if(val(x) != i * 100 + next++) mcs::fail("queue %d holds wrong elements", i); if(next != N) mcs::fail("queue %d lost elements", i); delete q[i]; }
    if(Elem::live) mcs::fail("%d element(s) alive at the end", Elem::live);
    mcs::outcome(1);
  }
};
typedef Spsc<Elem, size_t, 3, 3, true> S33; typedef Spsc<long, void, 2, 2, false> S22; typedef Spsc<Elem, size_t, 2, 2, false> S22d; typedef Spsc<Elem, void, 4, 4, true> S44;
MCS_CONFIG("push2/pop2, words, default allocator", S22, 5, 9);
MCS_CONFIG("push2/pop2, owning elements, default allocator", S22d, 3, 6);
MCS_CONFIG("push3/pop3, owning elements, block allocator", S33, 2, 4);
MCS_CONFIG("push4/pop4, owning elements, block allocator", S44, 2, 3);
MCS_CONFIG("two queues, one element type, 4 ops", TwoQueues<4>, 3, 5);
