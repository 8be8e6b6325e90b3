// BUILD: sched also=A09step
// Atomic primitives of lockless.h: every operand size, exact value semantics, neighbours untouched, and linearizability under all schedules.
#include "mcs.h"
#include "bss-util/lockless.h"
#include <cstring>
#include <type_traits>
using namespace bss;
typedef unsigned __int128 u128;

template<class T> struct Sem : mcs::Test { // one thread, all operand combinations
  int threads() { return 0; }
  static T val(int i) { const T m = (T)~(T)0; switch(i) { case 0: return 0; case 1: return 1; case 2: return m; case 3: return (T)(m << (sizeof(T) * 8 - 1)); case 4: return (T)((T)(m << (sizeof(T) * 8 - 1)) - 1); default: return (T)(m / 3); } }
  void setup() {
    struct alignas(16) { T g[4]; } s; // guards on both sides of g[1] (g[2] for the 16 byte aligned layout is not needed: sizes <= 8)
    int op = mcs::choose(sizeof(T) >= 4 ? 6 : 4); T gv = val(mcs::choose(3)), init = val(mcs::choose(6));
    int pos = mcs::choose(2) + 1; s.g[0] = s.g[1] = s.g[2] = s.g[3] = gv; s.g[pos] = init; T want = init; bool bad = false;
    volatile T* p = &s.g[pos];
    if(op == 0) { T v = val(mcs::choose(6)); T r = atomic_xadd<T>(p, v); want = (T)(init + v); bad = r != init; }
    else if(op == 1) { T v = val(mcs::choose(6)); T r = atomic_xchg<T>(p, v); want = v; bad = r != init; }
    else if(op == 2) { T nv = val(mcs::choose(6)), ov = val(mcs::choose(6)); bool r = asmcas<T>(p, nv, ov) != 0; if(init == ov) want = nv; bad = r != (init == ov); }
    else if(op == 3) { struct alignas(16) { T a, r, b; } o{ gv, gv, gv }; T nv = val(mcs::choose(6)), ov = val(mcs::choose(6)); bool r = asmcasr<T>(p, nv, ov, o.r); if(init == ov) want = nv; bad = r != (init == ov) || o.r != init; if(o.a != gv || o.b != gv) mcs::fail("asmcasr<%zu bytes> wrote outside its result operand", sizeof(T)); }
    if constexpr(sizeof(T) >= 4) {
      if(op == 4 || op == 5) {
        int b = mcs::choose(sizeof(T) * 8); bool r;
        int how = mcs::choose(2); volatile int vb = b;
        if(how) r = op == 4 ? asmbts<T>((T*)p, (T)vb) : asmbtr<T>((T*)p, (T)vb);
        else r = bitconst<0>(op == 4, (T*)p, b); // the bit index as a compile time constant: the immediate form of the instruction
        want = op == 4 ? init | ((T)1 << b) : init & ~((T)1 << b); bad = r != (bool)((init >> b) & 1);
      }
    }
    if(bad) mcs::fail("operation %d on %zu bytes returned a wrong result (value %llx)", op, sizeof(T), (unsigned long long)init);
    if(s.g[pos] != want) mcs::fail("operation %d on %zu bytes left %llx instead of %llx", op, sizeof(T), (unsigned long long)s.g[pos], (unsigned long long)want);
    for(int i = 0; i < 4; ++i) if(i != pos && s.g[i] != gv) mcs::fail("operation %d on %zu bytes changed neighbouring memory", op, sizeof(T));
    mcs::outcome((long)want); mcs::outcome(op);
  }
  template<int B> static bool bitconst(bool set, T* p, int b) {
    if constexpr(B < sizeof(T) * 8) { if(b == B) return set ? asmbts<T>(p, (T)B) : asmbtr<T>(p, (T)B); return bitconst<B + 1>(set, p, b); }
    return false;
  }
  void thread(int) {}
};
struct Sem16 : mcs::Test {
  typedef bss_PTag<void> P;
  int threads() { return 0; }
  static P val(int i) { switch(i) { case 0: return { 0, 0 }; case 1: return { (void*)1, 0 }; case 2: return { 0, 1 }; case 3: return { (void*)~0ull, ~0ull }; default: return { (void*)0x1234, 7 }; } }
  static bool eq(const P& a, const P& b) { return a.p == b.p && a.tag == b.tag; }
  void setup() {
    alignas(16) P s[3] = { val(3), val(mcs::choose(5)), val(3) }; P init = s[1], nv = val(mcs::choose(5)), ov = val(mcs::choose(5)); bool ok; alignas(16) P r[3] = { val(4), val(4), val(4) };
    if(mcs::choose(2)) { ok = asmcas<P>(&s[1], nv, ov) != 0; } else { ok = asmcasr<P>(&s[1], nv, ov, r[1]); if(!eq(r[1], init)) mcs::fail("asmcasr<16> returned a wrong previous value"); if(!eq(r[0], val(4)) || !eq(r[2], val(4))) mcs::fail("asmcasr<16> wrote outside its result"); }
    if(ok != eq(init, ov)) mcs::fail("16 byte compare-and-swap reported the wrong outcome");
    if(!eq(s[1], ok ? nv : init) || !eq(s[0], val(3)) || !eq(s[2], val(3))) mcs::fail("16 byte compare-and-swap left wrong memory");
    mcs::outcome(ok);
  }
  void thread(int) {}
};
// concurrent: threads run programs over one word; the results must be linearizable
enum { XADD, XCHG, CAS01, CAS12, CASR, BTS, BTR, NK };
static const char* names[] = { "xadd1", "xchg5", "cas(0->1)", "cas(1->2)", "casr(old->old+2)", "bts1", "btr1" };
template<class T, int NT, int LEN> struct Conc : mcs::Test {
  struct alignas(16) { T x, pad; } w; int prog[3][3];
  int threads() { return NT; }
  void setup() {
    w.x = 0; w.pad = 7; int lim = 1; for(int k = 0; k < LEN; ++k) lim *= NK; int prev = 0;
    for(int i = 0; i < NT; ++i) { int c = prev + mcs::choose(lim - prev); prev = c; for(int k = 0; k < LEN; ++k) { prog[i][k] = c % NK; c /= NK; } }
  }
  void thread(int i) {
    for(int k = 0; k < LEN; ++k) {
      int id = mcs::begin(i, prog[i][k], 0); long r = 0;
      switch(prog[i][k]) {
      case XADD: r = (long)atomic_xadd<T>(&w.x, 1); break;
      case XCHG: r = (long)atomic_xchg<T>(&w.x, 5); break;
      case CAS01: r = asmcas<T>(&w.x, 1, 0) != 0; break;
      case CAS12: r = asmcas<T>(&w.x, 2, 1) != 0; break;
      case CASR: { T old = 0, prev; while(!asmcasr<T>(&w.x, (T)(old + 2), old, prev)) old = prev; r = (long)old; break; }
      case BTS: r = asmbts<T>(&w.x, 1); break;
      case BTR: r = asmbtr<T>(&w.x, 1); break;
      }
      mcs::end(id, r);
    }
  }
  void finish() {
    std::vector<mcs::Op> v = mcs::ops(); v.push_back({ NT, NK, 0, (long)w.x, 1 << 20, (1 << 20) + 1 });
    if(w.pad != 7) mcs::fail("neighbouring memory changed");
    if(!mcs::linearizable(v, { 0 }, [](mcs::State& s, const mcs::Op& o) {
      long x = s[0];
      switch(o.kind) {
      case XADD: s[0] = x + 1; return o.ret == x;
      case XCHG: s[0] = 5; return o.ret == x;
      case CAS01: if(x == 0) s[0] = 1; return o.ret == (x == 0);
      case CAS12: if(x == 1) s[0] = 2; return o.ret == (x == 1);
      case CASR: s[0] = x + 2; return o.ret == x;
      case BTS: s[0] = x | 2; return o.ret == ((x >> 1) & 1);
      case BTR: s[0] = x & ~2l; return o.ret == ((x >> 1) & 1);
      default: return o.ret == x;
      }
    })) mcs::fail("not linearizable: %s", mcs::show(mcs::ops(), names).c_str());
    mcs::outcome((long)w.x);
  }
};
MCS_CONFIG("values, 1 byte", Sem<uint8_t>, 0, 0);
MCS_CONFIG("values, 2 bytes", Sem<uint16_t>, 0, 0);
MCS_CONFIG("values, 4 bytes", Sem<uint32_t>, 0, 0);
MCS_CONFIG("values, 8 bytes", Sem<uint64_t>, 0, 0);
MCS_CONFIG("values, signed 4 bytes", Sem<int32_t>, 0, 0);
MCS_CONFIG("values, 16 bytes", Sem16, 0, 0);
typedef Conc<uint32_t, 2, 2> C4; typedef Conc<uint64_t, 2, 2> C8; typedef Conc<uint64_t, 3, 1> C83; typedef Conc<uint32_t, 3, 2> C432;
MCS_CONFIG("4 bytes, 2 threads x 2 ops", C4, 4, 8);
MCS_CONFIG("8 bytes, 2 threads x 2 ops", C8, 4, 8);
MCS_CONFIG("8 bytes, 3 threads x 1 op", C83, 3, 6);
MCS_CONFIG("4 bytes, 3 threads x 2 ops", C432, -1, 1);
