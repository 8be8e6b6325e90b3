// BUILD: sched release
// RingAlloc: concurrent Alloc/Dealloc of varying sizes, bucket recycling and growth.
#include "alloc_mt.h"
#include "bss-util/RingAlloc.h"
using namespace bss;
struct Ad {
  static const int nsizes = 2, align = 8, variants = 2; static size_t size(int i) { return i ? 48 : 8; }
  static const int reuse = REUSE_ROUNDS; RingAllocVoid* p;
  void make(int v) { p = new RingAllocVoid(v ? 60 : 16); }
  void* alloc(size_t n) { return p->Alloc(n); }
  void dealloc(void* q, size_t) { p->Dealloc(q); }
  void destroy() { delete p; }
};
typedef AllocMT<Ad, 2, 1, 2> T21; typedef AllocMT<Ad, 2, 2, 1> T22; typedef AllocMT<Ad, 3, 1, 1> T31;
MCS_CONFIG("2 threads x 1 op", T21, 3, 5);
MCS_CONFIG("2 threads x 2 ops", T22, 1, 3);
MCS_CONFIG("3 threads x 1 op", T31, 1, 3);
struct Ad3 : Ad { static const int nsizes = 3; static size_t size(int i) { return i == 0 ? 8 : i == 1 ? 48 : 304; } };
typedef AllocAsym<Ad3, 1, 3, 1> Asym; typedef AllocAsym<Ad3, 1, 4, 1> Asym4;
#ifdef NDEBUG // without the byte by byte checks, which only lengthen the schedules
MCS_CONFIG("1 op next to 3 ops of three sizes", Asym, 1, 3);
MCS_CONFIG("1 op next to 4 ops of three sizes", Asym4, 0, 1);
#endif
struct AdS : Ad { static const int has_clear = 1; SEQ_MOVES(RingAllocVoid, p->Alloc(8); p->Alloc(48)) void clear() { p->Clear(); } };
typedef AllocSeq<AdS, 6> Seq;
MCS_CONFIG("1 thread x 6 ops: moves and Clear", Seq, 0, 0);
struct AdR : Ad { // the typed interface
  static const int has_clear = 1, align = 8; RingAlloc<long>* p; static size_t size(int i) { return i ? 40 : 8; }
  void make(int v) { p = new RingAlloc<long>(v ? 60 : 16); } void* alloc(size_t n) { return p->allocate(n / 8); } void dealloc(void* q, size_t n) { p->deallocate((long*)q, n / 8); } void destroy() { delete p; }
  SEQ_MOVES(RingAlloc<long>, p->allocate(1); p->allocate(4)) void clear() { p->Clear(); }
};
typedef AllocSeq<AdR, 5> SeqR;
MCS_CONFIG("RingAlloc<long>, 1 thread x 5 ops: moves and Clear", SeqR, 0, 0);
