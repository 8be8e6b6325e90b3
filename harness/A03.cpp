// BUILD: sched
// MicroLockQueue (many producers, many consumers): linearizable FIFO, element lifetimes, no use of released nodes.
#include "queue_spec.h"
#include "bss-util/LocklessQueue.h"
using namespace bss;

template<class T> using Pooled = PolymorphicAllocator<T, LocklessBlockPolicy>;
template<class T> using Plain = StandardAllocator<T>; // malloc/free per node: a touch of a released node is a memory error
template<class T, class LEN, template<class> class A, int NT, int L, int MAXPRE> struct Mpmc : mcs::Test {
  typedef internal::LQ_QNode<T> N; typedef MicroLockQueue<T, LEN, A<N>> Q; typedef LocklessBlockPolicy<N> P;
  static constexpr bool POL = !std::is_void_v<typename A<N>::policy_type>;
  P* pol; Q* q; int prog[4][4]; int len[4];
  int threads() { return NT; }
  virtual void program(int& pre) {
    pre = mcs::choose(MAXPRE + 1); int lim = 1; for(int k = 0; k < L; ++k) lim *= 2; int prev = 0;
    for(int i = 0; i < NT; ++i) { int c = prev + mcs::choose(lim - prev); prev = c; len[i] = L; for(int k = 0; k < L; ++k) { prog[i][k] = c & 1; c >>= 1; } }
  }
  void setup() {
    int pre; program(pre); pol = nullptr;
    if constexpr(POL) { pol = new P(1); q = new Q(pol); } else q = new Q();
    for(int i = 0; i < pre; ++i) dopush(NT, 100 + i);
  }
  void dopush(int t, long v) { int id = mcs::begin(t, PUSH, v); if(v & 1) q->Push(T(v)); else { T x(v); q->Push(x); } mcs::end(id, 0); }
  long dopop(int t) { int id = mcs::begin(t, POP, 0); long r = -1; { T x(NONE); if(q->Pop(x)) r = val(x); } mcs::end(id, r); return r; }
  void thread(int i) { for(int k = 0; k < len[i]; ++k) { if(prog[i][k] == PUSH) dopush(i, i * 10 + k); else if(prog[i][k] == POP) dopop(i); else { int id = mcs::begin(i, PEEK, 0); bool r = q->Peek(); mcs::end(id, r); } } }
  void finish() {
    long n = 0; for(auto& o : mcs::ops()) { if(o.kind == PUSH) ++n; if(o.kind == POP && o.ret >= 0) --n; mcs::outcome(o.ret); }
    if constexpr(!std::is_void_v<LEN>) if((long)q->Length() != n) mcs::fail("Length() is %ld with %ld elements in the queue", (long)q->Length(), n);
    if(q->Peek() != (n > 0)) mcs::fail("Peek() is wrong for a quiescent queue of %ld element(s)", n);
    if(mcs::choose(2)) while(dopop(NT) >= 0);
    if(!mcs::linearizable(mcs::ops(), {}, fifo_step)) mcs::fail("not a linearizable FIFO queue: %s", mcs::show(mcs::ops(), qnames).c_str());
    delete q; delete pol;
    if(Elem::live) mcs::fail("%d element(s) alive after the queue was destroyed", Elem::live);
  }
};
template<template<class> class A> struct PeekT : Mpmc<long, void, A, 2, 2, 2> { // one thread peeks while another works
  void program(int& pre) { pre = mcs::choose(3); this->len[0] = 1; this->prog[0][0] = PEEK; int c = mcs::choose(8); this->len[1] = 3; for(int k = 0; k < 3; ++k) { this->prog[1][k] = c & 1; c >>= 1; } }
};
typedef Mpmc<long, size_t, Pooled, 2, 2, 2> W22; typedef Mpmc<Elem, void, Plain, 2, 2, 2> E22; typedef Mpmc<long, void, Pooled, 3, 1, 2> W31; typedef Mpmc<Elem, size_t, Plain, 3, 1, 2> E31;
typedef Mpmc<long, void, Pooled, 2, 3, 2> W23; typedef Mpmc<long, void, Plain, 3, 2, 1> W32; typedef Mpmc<Elem, size_t, Pooled, 2, 2, 1> EP22;
MCS_CONFIG("2x2 words, pooled nodes", W22, 3, 5);
MCS_CONFIG("2x2 owning elements, plain nodes", E22, 3, 5);
MCS_CONFIG("2x2 owning elements, pooled nodes", EP22, 3, 4);
MCS_CONFIG("3x1 words, pooled nodes", W31, 3, 4);
MCS_CONFIG("3x1 owning elements, plain nodes", E31, 3, 4);
MCS_CONFIG("2x3 words, pooled nodes", W23, 2, 4);
MCS_CONFIG("3x2 words, plain nodes", W32, 2, 3);
MCS_CONFIG("peek against push/pop, pooled nodes", PeekT<Pooled>, 4, 6);
MCS_CONFIG("peek against push/pop, plain nodes", PeekT<Plain>, 4, 6);
// every history of one thread: pushes, pops, moves (construction, assignment over a queue with elements)
template<class T, template<class> class A> struct Moves : mcs::Test {
  typedef internal::LQ_QNode<T> N; typedef MicroLockQueue<T, size_t, A<N>> Q; typedef LocklessBlockPolicy<N> P; static constexpr bool POL = !std::is_void_v<typename A<N>::policy_type>;
  int threads() { return 1; } size_t base; int ops[6];
  void setup() { base = mcs::live(); for(int& o : ops) o = mcs::choose(5); }
  Q* make(P* p) { if constexpr(POL) return new Q(p); else return new Q(); }
  void thread(int) {
    P *p = new P(1), *p2 = new P(2); Q* q = make(p); long next = 0, first = 0; 
    for(int o : ops) {
      if(o == 0) { T x(next++); q->Push(x); }
      else if(o == 1) { T x(NONE); bool r = q->Pop(x); if(r != (first < next)) mcs::fail("Pop returned %d with %ld element(s)", (int)r, next - first); if(r && val(x) != first) mcs::fail("Pop gave %ld, expected %ld", (long)val(x), first); if(r) ++first; }
      else if(o == 2) { Q* n = new Q(std::move(*q)); delete q; q = n; }
      else { Q* n = make(o == 3 ? p2 : p); if(o == 3) { n->Push(T(70)); n->Push(T(71)); } *n = std::move(*q); delete q; q = n; }
      if((long)q->Length() != next - first || q->Peek() != (next > first)) mcs::fail("Length() is %ld with %ld element(s)", (long)q->Length(), next - first);
    }
    mcs::outcome(next - first); if(next & 1) while(first < next) { T x(NONE); if(!q->Pop(x) || val(x) != first++) mcs::fail("an element is missing"); }
    delete q; delete p; delete p2; if(Elem::live) mcs::fail("%d element(s) alive after the queue was destroyed", Elem::live);
  }
  void finish() { if(mcs::live() != base) mcs::fail("leak: %zu block(s)", mcs::live() - base); }
};
typedef Moves<Elem, Plain> MoE; typedef Moves<Elem, Pooled> MoP;
MCS_CONFIG("1 thread x 6 ops, plain nodes: moves", MoE, 0, 0);
MCS_CONFIG("1 thread x 6 ops, pooled nodes: moves", MoP, 0, 0);
