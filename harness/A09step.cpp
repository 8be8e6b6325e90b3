// BUILD: seq -O2
// Atomicity of the primitives of lockless.h at the level of machine instructions: one operation is single-stepped (trap flag), and before
// every single instruction of it a complete second operation on the same word is executed; a read-modify-write instruction without a lock
// prefix is also split between its load and its store. The outcome must be that of one of the two orders of the two operations.
#include "mc.h"
#include "bss-util/lockless.h"
#include <signal.h>
#include <ucontext.h>
using namespace bss;
typedef unsigned __int128 u128;
struct Op { int kind; u128 a, b; };                 // a: operand / new value / bit, b: expected value
struct Res { u128 r; bool ok; bool operator==(const Res& o) const { return r == o.r && ok == o.ok; } };
enum { XADD, XCHG, CAS, CASR, BTS, BTR, NK };
static const char* kname[] = { "atomic_xadd", "atomic_xchg", "asmcas", "asmcasr", "asmbts", "asmbtr" };
alignas(64) static struct { u128 guard0; volatile char cell[16]; u128 guard1; } W;

template<class T> static T get(u128 x) { T t; memcpy(&t, &x, sizeof(T)); return t; }
template<class T> static u128 put(const T& t) { u128 x = 0; memcpy(&x, &t, sizeof(T)); return x; }
#define STEPPED __attribute__((noinline, no_sanitize_address)) static
template<class T> STEPPED T f_xadd(volatile T* p, T a) { return atomic_xadd<T>(p, a); }
template<class T> STEPPED T f_xchg(volatile T* p, T a) { return atomic_xchg<T>(p, a); }
template<class T> STEPPED bool f_cas(volatile T* p, T a, T b) { return asmcas<T>(p, a, b) != 0; }
template<class T> STEPPED bool f_casr(volatile T* p, T a, T b, T* r) { return asmcasr<T>(p, a, b, *r); }
template<class T> STEPPED bool f_bts(volatile T* p, T a) { return asmbts<T>((T*)p, a); }
template<class T> STEPPED bool f_btr(volatile T* p, T a) { return asmbtr<T>((T*)p, a); }
static volatile int armed, step, at, split, hit;
#define TF_ON() __asm__ __volatile__("sub $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc")
#define GO(expr) do { if(single) { armed = 1; TF_ON(); expr; armed = 0; __asm__ __volatile__("nop; nop" ::: "memory"); } else expr; } while(0)
template<class T> __attribute__((noinline, no_sanitize_address)) static Res run(const Op& o, bool single) {
  volatile T* p = (volatile T*)W.cell; Res r{ 0, true }; T a = get<T>(o.a), b = get<T>(o.b), v; memset(&v, 0, sizeof(T));
  if constexpr(sizeof(T) <= 8) {
    if(o.kind == XADD) { GO(v = f_xadd<T>(p, a)); r.r = put<T>(v); return r; }
    if(o.kind == XCHG) { GO(v = f_xchg<T>(p, a)); r.r = put<T>(v); return r; }
  }
  bool k = false; alignas(16) T old; memset(&old, 0, sizeof(T));
  if(o.kind == CAS) { GO(k = f_cas<T>(p, a, b)); }
  if(o.kind == CASR) { GO(k = f_casr<T>(p, a, b, &old)); r.r = put<T>(old); }
  if constexpr(sizeof(T) == 4 || sizeof(T) == 8) {
    if(o.kind == BTS) { GO(k = f_bts<T>(p, a)); }
    if(o.kind == BTR) { GO(k = f_btr<T>(p, a)); }
  }
  r.ok = k; return r;
}
static u128 mask(size_t n) { return n == 16 ? ~(u128)0 : ((u128)1 << (8 * n)) - 1; }
static Res ref(u128& x, const Op& o, size_t n) {    // what the operation means
  Res r{ 0, true }; u128 m = mask(n);
  switch(o.kind) {
  case XADD: r.r = x; x = (x + o.a) & m; break;
  case XCHG: r.r = x; x = o.a & m; break;
  case CAS: r.ok = x == (o.b & m); if(r.ok) x = o.a & m; break;
  case CASR: r.r = x; r.ok = x == (o.b & m); if(r.ok) x = o.a & m; break;
  case BTS: r.ok = (x >> (int)o.a) & 1; x |= (u128)1 << (int)o.a; break;
  case BTR: r.ok = (x >> (int)o.a) & 1; x &= ~((u128)1 << (int)o.a); break;
  }
  return r;
}
// ---- single stepping ----
static Op opB; static Res resB; static Res (*runB)(const Op&, bool); static u128 save;
static char altstack[1 << 16];
__attribute__((no_sanitize_address)) static bool rmw(const ucontext_t* u) { // is the next instruction an unlocked read-modify-write of the watched word?
  const unsigned char* q = (const unsigned char*)u->uc_mcontext.gregs[REG_RIP]; const greg_t* g = u->uc_mcontext.gregs; int rex = 0, seg = 0;
  for(;; ++q) { if(*q == 0xF0) return false; if(*q == 0x66 || *q == 0xF2 || *q == 0xF3 || *q == 0x2E || *q == 0x3E) continue; if(*q == 0x64 || *q == 0x65) { seg = 1; continue; } break; }
  if((*q & 0xF0) == 0x40) rex = *q++;
  if(seg) return false;
  bool two = false; int op = *q++, imm = 0; if(op == 0x0F) { two = true; op = *q++; }
  int modrm = *q, mod = modrm >> 6, reg = (modrm >> 3) & 7, rm = modrm & 7; bool y = false;
  if(two) { y = op == 0xAB || op == 0xB3 || op == 0xBB || (op == 0xBA && reg >= 5) || op == 0xC0 || op == 0xC1 || op == 0xB0 || op == 0xB1 || (op == 0xC7 && reg == 1); imm = op == 0xBA; }
  else if(op < 0x38 && (op & 7) < 2) y = true;
  else if(op == 0x80 || op == 0x81 || op == 0x83) { y = reg != 7; imm = op == 0x81 ? 4 : 1; }
  else if(op == 0xFE || op == 0xFF) y = reg < 2;
  else if(op == 0xF6 || op == 0xF7) y = reg == 2 || reg == 3;
  else if(op == 0xC0 || op == 0xC1) { y = true; imm = 1; }
  else if(op >= 0xD0 && op <= 0xD3) y = true;
  if(!y || mod == 3) return false;
  static const int R[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
  long ea = 0; const unsigned char* d = q + 1; int base = rm | ((rex & 1) << 3);
  if(rm == 4) { int sib = *d++, ix = ((sib >> 3) & 7) | ((rex & 2) << 2), b = sib & 7; if(ix != 4) ea += (long)g[R[ix]] << (sib >> 6); if(b == 5 && !mod) { int x; memcpy(&x, d, 4); ea += x; } else ea += g[R[b | ((rex & 1) << 3)]]; }
  else if(rm == 5 && !mod) { int x; memcpy(&x, d, 4); ea = (long)(d + 4 + imm) + x; }
  else ea = g[R[base]];
  if(mod == 1) ea += (signed char)*d; else if(mod == 2) { int x; memcpy(&x, d, 4); ea += x; }
  return ea >= (long)W.cell - 8 && ea < (long)W.cell + 16;
}
__attribute__((no_sanitize_address)) static void trap(int, siginfo_t*, void* c) {
  ucontext_t* u = (ucontext_t*)c;
  if(!armed) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100l; return; }
  if(split && !rmw(u)) return;
  if(step++ != at) return;
  memcpy(&save, (void*)W.cell, 16); resB = runB(opB, false); hit = 1 + split;
  if(split) memcpy((void*)W.cell, &save, 16); // the load came before B, the store comes after it
  u->uc_mcontext.gregs[REG_EFL] &= ~0x100l;
}
template<class T> static void config(mc::Ctx& c) {
  const size_t n = sizeof(T); const u128 m = mask(n); bool steps = false; uint64_t splits = 0;
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof(altstack); sigaltstack(&ss, 0);
  struct sigaction sa{}, old; sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, &old);
  runB = &run<T>; int bits = (int)n * 8;
  std::vector<u128> vals = { 0, 1, m }; if(n == 16) vals.push_back((u128)1 << 64); if(c.thorough) { vals.push_back(m ^ (m >> 1)); vals.push_back(m / 3); }
  std::vector<Op> ops, other;
  for(int k = n == 16 ? CAS : 0; k < (n == 4 || n == 8 ? NK : BTS); ++k) {
    if(k >= BTS) { for(int b : { 0, 1, bits - 1 }) ops.push_back({ k, (u128)b, 0 }); }
    else if(k >= CAS) { for(u128 a : vals) for(u128 b : vals) ops.push_back({ k, a, b }); }
    else for(u128 a : vals) ops.push_back({ k, a, 0 });
  }
  for(auto& o : ops) if(c.thorough || o.kind >= BTS ? true : o.kind >= CAS ? o.a == vals[1] && o.kind == CAS : o.a == vals[1]) other.push_back(o);
  mc::enumerate(c, [&](mc::Choose& ch) {
    u128 init = ch.of(vals); Op A = ch.of(ops), B = ch.of(other); int sp = ch(2);
    u128 x1 = init, x2 = init; Res a1 = ref(x1, A, n), b1 = ref(x1, B, n), b2 = ref(x2, B, n), a2 = ref(x2, A, n);
    for(int k = 0; ; ++k) {
      const u128 G = (u128)0xA5A5A5A5A5A5A5A5ull * (((u128)1 << 64) + 1); W.guard0 = W.guard1 = G; u128 w = (G & ~m) | init; memcpy((void*)W.cell, &w, 16);
      at = k; split = sp; opB = B; step = hit = 0; Res ra = run<T>(A, true); if(step) steps = true;
      u128 fin; memcpy(&fin, (void*)W.cell, 16); bool neigh = W.guard0 != G || W.guard1 != G || (fin & ~m) != (G & ~m); fin &= m; c.st.transitions += 1;
      MC_CHECK(!neigh, "%s on %zu bytes changed neighbouring memory", kname[A.kind], n);
      if(hit) {
        bool ok = (ra == a1 && resB == b1 && fin == x1) || (ra == a2 && resB == b2 && fin == x2); if(hit == 2) ++splits;
        MC_CHECK(ok, "%s on %zu bytes is not atomic: with %s by another thread %s instruction %d of it, neither order of the two explains the outcome (word %llx, left %llx)", kname[A.kind], n, kname[B.kind], hit == 2 ? "between the load and the store of" : "just before", k, (unsigned long long)init, (unsigned long long)fin);
        c.outcome((uint64_t)fin ^ (uint64_t)ra.r * 31 ^ ra.ok * 7 ^ A.kind * 1009 ^ B.kind * 9176 ^ hit);
      }
      if(!hit) break;
    }
  });
  sigaction(SIGTRAP, &old, 0);
  c.note += steps ? mc::fmt(" single-stepped, %llu splits of unlocked instructions;", (unsigned long long)splits) : " no single stepping here: instruction level not explored;";
}
MC_CONFIG("instructions, 1 byte") { config<uint8_t>(c); }
MC_CONFIG("instructions, 2 bytes") { config<uint16_t>(c); }
MC_CONFIG("instructions, 4 bytes") { config<uint32_t>(c); }
MC_CONFIG("instructions, 8 bytes") { config<uint64_t>(c); }
MC_CONFIG("instructions, 16 bytes") { config<bss_PTag<void>>(c); }
