// BUILD: sched release
// GreedyAlloc: concurrent Alloc hands out disjoint blocks across chunk growth.
#include "alloc_mt.h"
#include "bss-util/GreedyAlloc.h"
using namespace bss;
template<int AL> struct AdT {
  static const int nsizes = 2, align = AL, variants = 2; static size_t size(int i) { return i ? 40 : 8; }
  GreedyAlloc* p;
  void make(int v) { p = new GreedyAlloc(v ? 64 : 16, AL); }
  void* alloc(size_t n) { return p->Alloc(n); }
  void dealloc(void* q, size_t) { p->Dealloc(q); }
  void destroy() { delete p; }
};
typedef AllocMT<AdT<1>, 2, 1, 2> T21; typedef AllocMT<AdT<1>, 2, 2, 1> T22; typedef AllocMT<AdT<16>, 3, 1, 1> T31; typedef AllocMT<AdT<16>, 2, 3, 1> T23;
MCS_CONFIG("2 threads x 1 op", T21, 4, 6);
MCS_CONFIG("2 threads x 2 ops", T22, 2, 4);
MCS_CONFIG("3 threads x 1 op, aligned", T31, 2, 3);
MCS_CONFIG("2 threads x 3 ops, aligned", T23, 1, 2);
typedef AllocAsym<AdT<1>, 1, 4, 1> Asym;
MCS_CONFIG("1 op next to 4 ops", Asym, 1, 3);
struct AdS { static const int nsizes = 4, variants = 32, has_clear = 1; static int align; static size_t size(int i) { static const size_t z[] = { 1, 8, 40, 300 }; return z[i]; }
  GreedyAlloc* p; void make(int v) { static const int is[] = { 1, 16, 64, 200 }; align = 1 << v / 4; p = new GreedyAlloc(is[v % 4], align); }
  void* alloc(size_t n) { return p->Alloc(n); } void dealloc(void* q, size_t) { p->Dealloc(q); } void destroy() { delete p; }
  SEQ_MOVES(GreedyAlloc, p->Alloc(8); p->Alloc(400)) void clear() { p->Clear(); } };
int AdS::align = 1;
typedef AllocSeq<AdS, 4> Seq;
MCS_CONFIG("1 thread x 4 ops: every alignment, moves and Clear", Seq, 0, 0);
// resizing through the policy interface keeps the contents
struct Policy : mcs::Test {
  int threads() { return 1; } size_t base; int n[4];
  void setup() { base = mcs::live(); for(int& x : n) x = 1 + mcs::choose(6); }
  void thread(int) {
    auto* p = new GreedyPolicy<long>(16, 8); long* q = p->allocate(n[0]); long* o = p->allocate(2); o[0] = o[1] = -7; for(int i = 0; i < n[0]; ++i) q[i] = 100 + i; int have = n[0], cap = n[0];
    for(int k = 1; k < 4; ++k) { q = p->allocate(n[k], q, cap); if(n[k] < have) have = n[k]; if(n[k] >= cap) cap = n[k]; if(!mcs::valid((unsigned char*)q, n[k] * sizeof(long))) mcs::fail("allocate(%d) lies outside the allocator's memory", n[k]); for(int i = 0; i < have; ++i) if(q[i] != 100 + i) mcs::fail("resizing to %d lost element %d", n[k], i); for(int i = have; i < n[k]; ++i) q[i] = 100 + i; have = n[k]; if(o[0] != -7 || o[1] != -7) mcs::fail("another block changed"); }
    mcs::outcome(have); p->deallocate(q, have); delete p;
  }
  void finish() { if(mcs::live() != base) mcs::fail("leak: %zu block(s)", mcs::live() - base); }
};
MCS_CONFIG("GreedyPolicy: resizing", Policy, 0, 0);
typedef AllocMT<AdT<64>, 2, 1, 2> T21W;
MCS_CONFIG("2 threads x 1 op, cache line aligned", T21W, 2, 4);
