// BUILD: sched lib=bss_util.cpp,bss_util_c.c release
// CacheAlloc: size-keyed free lists under concurrency, including table growth.
#include "alloc_mt.h"
#include "bss-util/CacheAlloc.h"
using namespace bss;
struct Ad {
  static const int nsizes = 3, align = 8, variants = 1; static size_t size(int i) { return i == 2 ? 64 : i ? 32 : 8; }
  static const int reuse = REUSE_ADDR; static const size_t limit = 40; CacheAlloc* p;
  void make(int v) { p = new CacheAlloc(40, 64, 8); }
  void* alloc(size_t n) { return p->Alloc(n); }
  void dealloc(void* q, size_t n) { p->Dealloc(q, n); }
  void destroy() { delete p; }
};
typedef AllocMT<Ad, 2, 1, 2> T21; typedef AllocMT<Ad, 2, 2, 1> T22; typedef AllocMT<Ad, 3, 1, 1> T31;
MCS_CONFIG("2 threads x 1 op", T21, 3, 5);
MCS_CONFIG("2 threads x 2 ops", T22, 2, 3);
MCS_CONFIG("3 threads x 1 op", T31, 1, 3);
typedef AllocAsym<Ad, 1, 4, 1> Asym;
MCS_CONFIG("1 op next to 4 ops", Asym, 1, 2);
// size classes seen before, so that a new one makes the table grow while another thread is inside it
struct AdG : Ad {
  static const int nsizes = 2, variants = 3; static size_t size(int i) { return i ? 32 : 8; }
  void make(int v) { p = new CacheAlloc(400, 8192, 8); for(int i = 0; i < (23 + v); ++i) { size_t n = 50 + i; p->Dealloc(p->Alloc(n), n); } }
};
typedef AllocMT<AdG, 2, 1, 1> G21; typedef AllocMT<AdG, 2, 2, 1> G22;
MCS_CONFIG("growing table, 2 threads x 1 op", G21, 1, 3);
MCS_CONFIG("growing table, 2 threads x 2 ops", G22, 0, 1);
// blocks smaller than a pointer, packed as tightly as the allocator packs them
struct AdT : Ad { static const int align = 1; static size_t size(int i) { return i == 2 ? 64 : i ? 9 : 2; } void make(int v) { p = new CacheAlloc(40, 64, 1); } };
typedef AllocMT<AdT, 2, 1, 3> S21; typedef AllocMT<AdT, 1, 5, 0> S15;
MCS_CONFIG("tiny blocks, 2 threads x 1 op", S21, 2, 4);
MCS_CONFIG("tiny blocks, 1 thread x 5 ops", S15, 0, 0);
struct AdS : Ad { static const int has_clear = 0; SEQ_MOVES(CacheAlloc, p->Dealloc(p->Alloc(8), 8); p->Alloc(32)) void clear() {} };
typedef AllocSeq<AdS, 6> Seq;
MCS_CONFIG("1 thread x 6 ops: moves", Seq, 0, 0);
// resizing through the policy interface keeps the contents, below, above and across the cache limit
struct Policy : mcs::Test {
  int threads() { return 1; } size_t base; int n[4], v;
  void setup() { base = mcs::live(); for(int& x : n) x = 1 + mcs::choose(7); v = mcs::choose(2); }
  void thread(int) {
    auto* p = new CachePolicy<long>(32, v ? 16 : 200, 8); long* q = p->allocate(n[0]); long* o = p->allocate(n[3]); for(int i = 0; i < n[3]; ++i) o[i] = -7; for(int i = 0; i < n[0]; ++i) q[i] = 100 + i; int have = n[0];
    for(int k = 1; k < 4; ++k) { q = p->allocate(n[k], q, have); if(n[k] < have) have = n[k]; for(int i = 0; i < have; ++i) if(q[i] != 100 + i) mcs::fail("resizing to %d lost element %d", n[k], i); for(int i = have; i < n[k]; ++i) q[i] = 100 + i; have = n[k]; long* t = p->allocate(n[0]); for(int i = 0; i < n[0]; ++i) t[i] = -9; for(int i = 0; i < have; ++i) if(q[i] != 100 + i) mcs::fail("two live blocks overlap"); p->deallocate(t, n[0]); for(int i = 0; i < n[3]; ++i) if(o[i] != -7) mcs::fail("another block changed"); }
    mcs::outcome(have); p->deallocate(q, have); p->deallocate(o, n[3]); delete p;
  }
  void finish() { if(mcs::live() != base) mcs::fail("leak: %zu block(s)", mcs::live() - base); }
};
MCS_CONFIG("CachePolicy: resizing", Policy, 0, 0);
