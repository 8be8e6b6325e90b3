// Shared by the multithreaded allocator harnesses: enumerated programs, a registry of live blocks, fill patterns.
#pragma once
#include "mcs.h"
#include <cstring>
#define RAW __attribute__((noinline, no_sanitize_thread))
struct Live { unsigned char* p; size_t n; int tag; bool on, back; };
struct Registry {
  Live b[32]; int n = 0, tags = 0;
  RAW int add(void* q, size_t sz, size_t align, bool external) {
    unsigned char* p = (unsigned char*)q;
    if(!p) mcs::fail("allocation of %zu byte(s) returned null", sz);
    if((size_t)p % align) mcs::fail("block %p is not aligned to %zu", q, align);
    if(!external && !mcs::valid(p, sz)) mcs::fail("a block of %zu byte(s) lies outside the allocator's memory", sz);
    for(int i = 0; i < n; ++i) if(b[i].on && p < b[i].p + b[i].n && b[i].p < p + sz) mcs::fail("two live blocks overlap: %zu and %zu byte(s), %ld apart", sz, b[i].n, (long)(p - b[i].p));
    int k = n++; if(n > 32) mcs::fail("harness: too many blocks"); b[k] = { p, sz, ++tags, true, false }; memset(p, 0x40 + b[k].tag, sz); return k;
  }
  RAW void check(int k) { for(size_t i = 0; i < b[k].n; ++i) if(b[k].p[i] != (unsigned char)(0x40 + b[k].tag)) mcs::fail("the contents of a live block of %zu byte(s) changed (byte %zu is %02x)", b[k].n, i, b[k].p[i]); }
  // Blocks of a size that are free for sure, calls that run, and calls that ever began: a call that finds a free block for itself must not take a new one.
  int running[4] = {}, begun[4] = {}; struct Begin { int free, others, begun; };
  RAW bool again(unsigned char* p, size_t sz, int upto) { for(int i = 0; i < upto; ++i) if(b[i].p == p && b[i].n == sz) return true; return false; }
  RAW Begin begin(int s, size_t sz) { Begin r{ 0, running[s], begun[s] }; for(int i = 0; i < n; ++i) if(!b[i].on && b[i].back && b[i].n == sz) { bool used = false; for(int j = 0; j < n; ++j) used = used || (j != i && b[j].p == b[i].p && b[j].n == sz && (b[j].on || !b[j].back || j < i)); r.free += !used; } ++running[s]; ++begun[s]; return r; }
  RAW void end(int s, size_t sz, const Begin& g, void* p) { --running[s]; if(g.free > g.others + (begun[s] - g.begun - 1) && !again((unsigned char*)p, sz, n)) mcs::fail("a new block of %zu bytes was taken although %d freed ones were available", sz, g.free); }
  RAW void drop(int k) { check(k); b[k].on = false; }
  RAW void checkall() { for(int i = 0; i < n; ++i) if(b[i].on) check(i); }
};
// What was free once must be available again. REUSE_POOL: as many blocks as were live at once fit without new memory. REUSE_ADDR: blocks of
// sizes that were live at once come from the addresses that were handed out for them. REUSE_ROUNDS: rounds of the same requests settle.
enum { REUSE_NONE, REUSE_POOL, REUSE_ADDR, REUSE_ROUNDS };
template<class A, class = void> struct Reuse { static const int how = REUSE_NONE; };
template<class A> struct Reuse<A, std::void_t<decltype(A::reuse)>> { static const int how = A::reuse; };
// A = adaptor with make(), alloc(n), dealloc(p, n), destroy(), sizes[], nsizes, align, recycles
template<class A, int NT, int L, int PRE> struct AllocMT : mcs::Test {
  A a; Registry* r; int prog[4][4]; int pre[4], npre[4]; size_t base;
  int threads() { return NT; }
  void doalloc(int s, int* mine, int& nm) { Registry::Begin g{}; if(Reuse<A>::how == REUSE_ADDR) g = r->begin(s, A::size(s)); void* p = a.alloc(A::size(s)); if constexpr(Reuse<A>::how == REUSE_ADDR) if(A::size(s) <= A::limit) r->end(s, A::size(s), g, p); mine[nm++] = r->add(p, A::size(s), A::align, false); }
  void dofree(int* mine, int& nm, bool last) { int k = last ? nm - 1 : 0; int id = mine[k]; for(int j = k; j + 1 < nm; ++j) mine[j] = mine[j + 1]; --nm; r->drop(id); a.dealloc(r->b[id].p, r->b[id].n); r->b[id].back = true; }
  static const int K = A::nsizes + 2; // ops: alloc of each size, free oldest, free newest
  int held[4][16], nheld[4];
  void setup() {
    base = mcs::live(); r = new Registry(); a.make(mcs::choose(A::variants));
    int prev = 0, lim = 1; for(int k = 0; k < L; ++k) lim *= K;
    for(int i = 0; i < NT; ++i) {
      int c = prev + mcs::choose(lim - prev); prev = c; for(int k = 0; k < L; ++k) { prog[i][k] = c % K; c /= K; }
      nheld[i] = 0;
    }
    int np = PRE ? mcs::choose(PRE + 1) : 0;
    for(int i = 0; i < NT; ++i) for(int k = 0; k < np; ++k) doalloc(k % A::nsizes, held[i], nheld[i]);
  }
  void thread(int i) {
    int mine[16], nm = nheld[i]; for(int k = 0; k < nm; ++k) mine[k] = held[i][k];
    for(int k = 0; k < L; ++k) { int o = prog[i][k]; if(o < 0) continue; if(o < A::nsizes) doalloc(o, mine, nm); else if(nm) dofree(mine, nm, o > A::nsizes); }
    for(int k = 0; k < nm; ++k) held[i][k] = mine[k]; nheld[i] = nm;
  }
  void reused(size_t* had, int nh) {
    void* q[32]; size_t before = mcs::live(), last = 0;
    for(int round = 0; round < (Reuse<A>::how == REUSE_ROUNDS ? 7 : 1); ++round) {
      for(int k = 0; k < nh; ++k) {
        q[k] = a.alloc(had[k]);
        if constexpr(Reuse<A>::how == REUSE_ADDR) if(had[k] <= A::limit) { bool known = false; for(int j = 0; j < r->n; ++j) known = known || (r->b[j].p == q[k] && r->b[j].n == had[k]); if(!known) mcs::fail("a freed block of %zu bytes is not available again", had[k]); }
      }
      for(int k = 0; k < nh; ++k) a.dealloc(q[k], had[k]);
      if(round == 3) before = mcs::live(); last = mcs::live();
    }
    if(Reuse<A>::how != REUSE_ADDR && last > before) mcs::fail("freed blocks are not available again: the allocator grew for %d blocks although as many were live at once before", nh);
  }
  void finish() {
    r->checkall(); mcs::outcome(r->n);
    int tmp[16], nt = 0; for(int k = 0; k < 3; ++k) doalloc(k % A::nsizes, tmp, nt); // still usable
    size_t had[32]; int nh = 0; for(int k = 0; k < r->n; ++k) if(r->b[k].on) had[nh++] = r->b[k].n;
    for(int i = 0; i < NT; ++i) while(nheld[i]) dofree(held[i], nheld[i], i & 1);
    for(int k = 0; k < 3; ++k) doalloc(k % A::nsizes, tmp, nt);
    r->checkall(); while(nt) dofree(tmp, nt, false);
    if(Reuse<A>::how != REUSE_NONE) reused(had, nh);
    a.destroy(); delete r;
    if(mcs::live() != base) mcs::fail("leak: %zu block(s) not released by the allocator's destructor", mcs::live() - base);
  }
};
// One thread with a short program next to one with a long one, which can replace, recycle and free what the first one is about to use.
template<class A, int L0, int L1, int PRE> struct AllocAsym : AllocMT<A, 2, L1, PRE> {
  typedef AllocMT<A, 2, L1, PRE> B; using B::a; using B::r; using B::prog; using B::nheld; using B::held;
  void setup() {
    B::base = mcs::live(); r = new Registry(); a.make(mcs::choose(A::variants));
    int own = PRE ? mcs::choose(2) : 0; // whether the short program starts with a block of its own
    for(int i = 0; i < 2; ++i) { nheld[i] = 0; for(int k = 0; k < L1; ++k) prog[i][k] = i || k < L0 ? mcs::choose(A::nsizes + (i || k ? 2 : own)) : -1; }
    if(own) B::doalloc(0, held[0], nheld[0]);
    int np = PRE ? mcs::choose(PRE + 1) : 0; for(int k = 0; k < np; ++k) B::doalloc(k % A::nsizes, held[1], nheld[1]);
  }
};
// Every history of one thread: allocation, freeing, moves (construction and assignment over an allocator that owns memory), Clear.
// A = adaptor as above with move(), moveassign(v) and clear(); has_clear
template<class A, int L> struct AllocSeq : mcs::Test {
  A a; int v, ops[8]; size_t base;
  int threads() { return 1; }
  static const int K = A::nsizes + 4 + A::has_clear;
  void setup() { base = mcs::live(); v = mcs::choose(A::variants); for(int i = 0; i < L; ++i) ops[i] = mcs::choose(K); }
  void thread(int) {
    Registry* r = new Registry(); a.make(v); int mine[32], nm = 0;
    for(int k = 0; k < L; ++k) {
      int o = ops[k];
      if(o < A::nsizes) { void* p = a.alloc(A::size(o)); mine[nm++] = r->add(p, A::size(o), A::align, false); continue; }
      o -= A::nsizes;
      if(o < 2) { if(!nm) continue; int j = o ? nm - 1 : 0, id = mine[j]; for(int i = j; i + 1 < nm; ++i) mine[i] = mine[i + 1]; --nm; r->drop(id); a.dealloc(r->b[id].p, r->b[id].n); }
      else if(o == 2) a.move();
      else if(o == 3) a.moveassign(v);
      else { r->checkall(); for(int i = 0; i < nm; ++i) r->b[mine[i]].on = false; nm = 0; a.clear(); }
      r->checkall();
    }
    r->checkall(); mcs::outcome(r->n * 8 + nm);
    for(int i = 0; i < A::nsizes; ++i) { void* p = a.alloc(A::size(i)); mine[nm++] = r->add(p, A::size(i), A::align, false); }
    while(nm) { int id = mine[--nm]; r->drop(id); a.dealloc(r->b[id].p, r->b[id].n); }
    a.destroy(); delete r;
  }
  void finish() { if(mcs::live() != base) mcs::fail("leak: %zu block(s) not released by the allocator", mcs::live() - base); }
};
#define SEQ_MOVES(TYPE, FILL) \
  void move() { auto* n = new TYPE(std::move(*p)); delete p; p = n; } \
  void moveassign(int v) { auto* o = p; make(v); FILL; *p = std::move(*o); delete o; }
