// BUILD: sched release
// LocklessBlockPolicy: concurrent allocate/deallocate hand out disjoint blocks, keep contents, survive ABA and growth.
#include "alloc_mt.h"
#include "bss-util/BlockAllocMT.h"
using namespace bss;
struct Blk { long x[2]; };
struct Ad {
  static const int nsizes = 1, align = 8, variants = 3; static size_t size(int) { return sizeof(Blk); }
  static const int reuse = REUSE_POOL; LocklessBlockPolicy<Blk>* p;
  void make(int v) { p = new LocklessBlockPolicy<Blk>(1 + v); }
  void* alloc(size_t) { return p->allocate(1); }
  void dealloc(void* q, size_t) { p->deallocate((Blk*)q, 1); }
  void destroy() { delete p; }
};
typedef AllocMT<Ad, 2, 2, 2> T22; typedef AllocMT<Ad, 2, 3, 2> T23; typedef AllocMT<Ad, 3, 1, 2> T31; typedef AllocMT<Ad, 3, 2, 1> T32;
MCS_CONFIG("2 threads x 2 ops", T22, 3, 5);
MCS_CONFIG("2 threads x 3 ops", T23, 2, 3);
MCS_CONFIG("3 threads x 1 op", T31, 2, 4);
MCS_CONFIG("3 threads x 2 ops", T32, 1, 2);
typedef AllocAsym<Ad, 1, 4, 2> Asym;
MCS_CONFIG("1 op next to 4 ops", Asym, 2, 4);
struct AdS : Ad { static const int has_clear = 0; SEQ_MOVES(LocklessBlockPolicy<Blk>, p->allocate(1); p->allocate(1)) void clear() {} };
typedef AllocSeq<AdS, 7> Seq;
MCS_CONFIG("1 thread x 7 ops: moves", Seq, 0, 0);
