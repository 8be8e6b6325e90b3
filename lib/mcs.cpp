#include "mcs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csetjmp>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); extern char __data_start, _edata, __bss_start, _end; }

namespace mcs {
  typedef uint64_t u64;
  static const size_t ARENA = 32u << 20, STK = 256u << 10; static const int MAXF = 12;
  enum FState { READY, SPIN, BLOCKED, DONE };
  struct Fiber { void* sp; FState st; u64 ver; char* stk; bool (*cond)(void*); void* carg; void* (*fn)(void*); void* arg; u64 seen[256]; uint8_t seenc[256]; uint32_t seenv[256], fresh; int nseen; u64 quantum; bool joinedDone; bool yielded; uint8_t starve[12]; bool immune; int immunesteps; };
  struct OwnTab { // address -> who accessed it in this execution; cleared by generation
    static const size_t N = 1 << 17; struct Ent { u64 k; uint32_t gen, w; }; Ent* e; uint32_t gen; size_t n;
    uint32_t& get(u64 k) { size_t i = (k * 0x9E3779B97F4A7C15ull) >> 47; for(;;) { Ent& x = e[i & (N - 1)]; if(x.gen != gen) { x.gen = gen; x.k = k; x.w = 0; ++n; return x.w; } if(x.k == k) return x.w; ++i; } }
    void clear() { ++gen; n = 0; }
  };
  struct SharedSet { // grows only
    static const size_t N = 1 << 15; u64* e; size_t n; 
    bool has(u64 k) const { size_t i = (k * 0x9E3779B97F4A7C15ull) >> 49; while(e[i & (N - 1)]) { if(e[i & (N - 1)] == k) return true; ++i; } return false; }
    bool add(u64 k) { size_t i = (k * 0x9E3779B97F4A7C15ull) >> 49; while(e[i & (N - 1)]) { if(e[i & (N - 1)] == k) return false; ++i; } if(n > N / 2) abort(); e[i & (N - 1)] = k; ++n; return true; }
  };
  struct Choice { int n, c; bool preempt; int fib; };
  struct Eng { // all engine state lives outside .data/.bss, which are restored before every execution
    bool inexec, sched; int cur, nf; Fiber f[MAXF]; void* mainsp; jmp_buf jb;
    char* arena; size_t used; uint8_t* shadow; size_t shadowhi;
    std::vector<int> prefix; std::vector<Choice> ch; int preempts;
    SharedSet shared; OwnTab owners; bool grew;
    u64 H, wver; void* pendaddr; int pendn; u64 pendold[3]; u64 steps, maxsteps, hooks;
    std::vector<Op> ops; int clock; u64 out; char msg[4096]; bool violated; u64 deadH; int deadn; bool replay; bool diverged;
    std::set<u64> outcomes; u64 execs, points; int maxfib;
    char* snap; size_t snaplen; char* snapsrc; std::string lastlog; u64 stuckH; double deadline; size_t live;
  };
  static Eng* E;  // the only engine variable in .bss (restored to the same value)
  struct Shm { volatile u64 progress; volatile u64 execs, points, outcomes; volatile int n; int hist[8192]; char msg[4096]; volatile int bound; };
  static Shm* shm;

  extern "C" void mcs_switch(void** save, void* to);
  asm(".text\n.globl mcs_switch\n.type mcs_switch,@function\nmcs_switch:\n"
      "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\nmovq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
      "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

  static void abandon() { // leave the execution, whatever fiber we are on
    E->inexec = false; E->sched = false; longjmp(E->jb, 1);
  }
  void fail(const char* f, ...) { if(!E->inexec && !E->violated) {} va_list a; va_start(a, f); vsnprintf(E->msg, sizeof E->msg, f, a); va_end(a); E->violated = true; if(E->inexec) abandon(); longjmp(E->jb, 1); }
  void note(const char* f, ...) { if(!E->replay) return; bool s = E->inexec; E->inexec = false; va_list a; va_start(a, f); printf("  [T%d] ", E->cur); vprintf(f, a); va_end(a); printf("\n"); E->inexec = s; }

  // ---------- pending write tracking ----------
  static inline u64 mix(u64 a, u64 b) { u64 x = (a + 0x9E3779B97F4A7C15ull) * 0xff51afd7ed558ccdull ^ (b * 0xc4ceb9fe1a85ec53ull); x ^= x >> 31; x *= 0x9FB21C651E98DF25ull; return x ^ (x >> 29); }
  static inline bool inarena(const void* p) { return (char*)p >= E->arena && (char*)p < E->arena + ARENA; }
  static inline bool onstack(const void* p) { return (char*)p >= E->f[0].stk && (char*)p < E->f[0].stk + STK * MAXF; }
  static void flush() {
    if(!E->pendaddr) return;
    u64* p = (u64*)E->pendaddr; E->pendaddr = nullptr;
    for(int i = 0; i < E->pendn; ++i) if(p[i] != E->pendold[i]) { E->H ^= mix((u64)(p + i), E->pendold[i]) ^ mix((u64)(p + i), p[i]); ++E->wver; }
  }
  static inline void pend(const void* addr, size_t n) { u64 a = (u64)addr & ~7ull, e = ((u64)addr + n + 7) & ~7ull; E->pendaddr = (void*)a; E->pendn = std::min<int>(3, (e - a) / 8); for(int i = 0; i < E->pendn; ++i) E->pendold[i] = ((u64*)a)[i]; }

  // ---------- scheduling ----------
  // Fairness: a thread that went round a no-progress loop three times while another thread could run and never did has to let that thread run.
  static bool enabled0(int i) { Fiber& f = E->f[i]; if(f.st == READY) return true; if(f.st == SPIN) { return f.ver != E->wver; } if(f.st == BLOCKED) return f.cond(f.carg); return false; }
  static bool enabled(int i) { if(!enabled0(i)) return false; for(int u = 0; u < E->nf; ++u) if(E->f[i].starve[u] >= 3 && u != i && enabled0(u)) return false; return true; }
  static void spun(int t) { for(int u = 0; u < E->nf; ++u) if(u != t && enabled0(u)) { if(E->f[t].starve[u] < 200) ++E->f[t].starve[u]; } }
  static void swap_to(int i) {
    int me = E->cur; if(me == i) return;
    E->cur = i; Fiber& f = E->f[i]; if(f.st != DONE) { f.st = READY; } f.nseen = 0; f.quantum = 0; for(int u = 0; u < E->nf; ++u) E->f[u].starve[i] = 0;
    void* dummy; mcs_switch(me >= 0 ? &E->f[me].sp : &dummy, f.sp);
  }
  static const char* stname(FState s) { static const char* n[] = { "ready", "spinning", "blocked", "done" }; return n[s]; }
  static void dead() {
    // every unfinished thread waits. Rule out that a waiting loop was mistaken for a spin: let each spinner run on for a while.
    if(E->H != E->deadH && E->deadn < 40) { E->deadH = E->H; ++E->deadn; for(int i = 0; i < E->nf; ++i) E->f[i].immunesteps = 0; } // something has changed since the last time
    int en[MAXF], n = 0; for(int i = 0; i < E->nf; ++i) if(E->f[i].st == SPIN && E->f[i].immunesteps < 2) { en[n++] = i; if(E->f[i].immunesteps < E->f[en[0]].immunesteps) std::swap(en[0], en[n - 1]); }
    if(n) { Fiber& f = E->f[en[0]]; f.immune = true; f.immunesteps++; f.quantum = 0; int me = E->cur; (void)me; swap_to(en[0]); return; }
    E->inexec = false; char s[512] = ""; for(int i = 0; i < E->nf; ++i) { char b[64]; snprintf(b, sizeof b, "T%d %s; ", i, stname(E->f[i].st)); strcat(s, b); }
    fail("deadlock/livelock: no thread can make progress (%s)", s);
  }
  // chooses who runs next. force: the current fiber cannot or must not continue.
  static void schedule(bool force) {
    if(!E->sched) { return; }
    flush();
    int en[MAXF], n = 0; bool curen = !force && E->cur >= 0 && enabled(E->cur);
    if(curen) en[n++] = E->cur;
    for(int i = 0; i < E->nf; ++i) if(i != E->cur && enabled(i)) en[n++] = i;
    if(force && !n && E->cur >= 0 && E->f[E->cur].st == READY) { return; } // yield with nobody else: go on
    if(!n) {
      if(force && E->cur >= 0 && enabled(E->cur)) { E->f[E->cur].st = READY; return; }
      bool alldone = true; for(int i = 0; i < E->nf; ++i) if(E->f[i].st != DONE) alldone = false;
      if(alldone) { void* d; void* to = E->mainsp; int me = E->cur; E->cur = -1; mcs_switch(me >= 0 ? &E->f[me].sp : &d, to); return; }
      dead(); return;
    }
    int c = 0;
    if(n > 1) {
      size_t i = E->ch.size();
      if(i < E->prefix.size()) { c = E->prefix[i]; if(c >= n) { E->diverged = true; fail("replay divergence at point %zu (%d of %d)", i, c, n); } }
      { bool s = E->inexec; E->inexec = false; E->ch.push_back({ n, c, curen, en[c] }); E->inexec = s; } if(curen && c) ++E->preempts;
    }
    if(en[c] != E->cur) { if(E->replay) { bool s = E->inexec; E->inexec = false; printf("  -- switch to T%d%s\n", en[c], curen ? " (preemption)" : ""); E->inexec = s; } swap_to(en[c]); }
    else E->f[E->cur].st = READY;
  }
  enum Kind { RD = 1, WR = 2, RMW = 3 };
  static void access_check(const void* a, size_t n, int kind) {
    if(inarena(a)) {
      size_t o = ((char*)a - E->arena) >> 3, e = ((char*)a + (n ? n - 1 : 0) - E->arena) >> 3;
      for(; o <= e; ++o) { uint8_t s = E->shadow[o]; if(s != 1) fail("memory error: %s of %zu byte(s) in %s memory by T%d", kind & WR ? "write" : "read", n, s == 2 ? "freed" : "unallocated", E->cur); }
    }
    u64 g = (u64)a >> 3, ge = ((u64)a + (n ? n - 1 : 0)) >> 3;
    for(; g <= ge; ++g) {
      if(E->owners.n > OwnTab::N / 2) fail("harness: too many addresses in one execution"); uint32_t& w = E->owners.get(g); uint32_t o = w; w |= (1u << E->cur) | (kind & WR ? 1u << (16 + E->cur) : 0);
      if(w != o) { uint32_t t = w & 0xffff, wr = w >> 16; if((t & (t - 1)) && wr) if(E->shared.add(g)) E->grew = true; }
    }
  }
  static void point(const void* addr, size_t n, int kind, void* pc) {
    if(!E || !E->inexec) return;
    if(!E->sched || E->cur < 0) { return; }
    flush(); ++E->hooks;
    Fiber& f = E->f[E->cur];
    access_check(addr, n, kind);
    if(++E->steps > E->maxsteps) fail("livelock: more than %llu steps", (unsigned long long)E->maxsteps);
    // no-progress loop: same place, same address, same memory, third time
    if(kind & RD) {
      u64 h = mix(mix((u64)pc, (u64)addr), E->H); int i = 0; for(; i < f.nseen; ++i) if(f.seen[i] == h) break;
      if(i < f.nseen) { if(f.seenv[i] != f.fresh) { f.seenv[i] = f.fresh; f.seenc[i] = 0; } /* something not seen before was read meanwhile: a scan, not a spin */ if(++f.seenc[i] >= 3 && !(f.immune && f.quantum < 5000)) { f.immune = false; f.st = SPIN; f.ver = E->wver; ++f.quantum; spun(E->cur); schedule(true); f.st = READY; goto out; } }
      else { ++f.fresh; if(f.nseen < 256) { f.seen[f.nseen] = h; f.seenv[f.nseen] = f.fresh; f.seenc[f.nseen++] = 1; } }
    }
    if(++f.quantum > 20000) { f.quantum = 0; spun(E->cur); schedule(true); }
    else if(E->shared.has((u64)addr >> 3) || (n > 8 && E->shared.has(((u64)addr + n - 1) >> 3))) { ++E->points; schedule(false); }
  out:
    access_check(addr, n, kind); // the block may have been freed while we were switched out
    if((kind & WR) && (!onstack(addr) || E->shared.has((u64)addr >> 3))) pend(addr, n);
  }
  void yield() { if(E->inexec && E->sched) { spun(E->cur); schedule(true); } }
  int choose(int n) {
    if(n < 2) return 0; ++E->points; ++E->hooks; size_t i = E->ch.size(); int c = 0; bool s = E->inexec; E->inexec = false;
    if(i < E->prefix.size()) { c = E->prefix[i]; if(c >= n) { E->inexec = s; E->diverged = true; fail("replay divergence at choice %zu (%d of %d)", i, c, n); } }
    E->ch.push_back({ n, c, false, -1 }); E->inexec = s; return c;
  }
  bool valid(const void* p, size_t n) { if(!n) return true; if(!inarena(p) || !inarena((char*)p + n - 1)) return false; size_t o = ((char*)p - E->arena) >> 3, e = ((char*)p + n - 1 - E->arena) >> 3; for(; o <= e; ++o) if(E->shadow[o] != 1) return false; return true; }
  size_t live() { return E->live; }
  int self() { return E->cur; }
  static void wait_until(bool (*cond)(void*), void* arg) {
    if(!E->sched) { if(!cond(arg)) fail("blocking wait outside of the threads"); return; }
    Fiber& f = E->f[E->cur];
    ++E->points; schedule(false);
    while(!cond(arg)) { f.st = BLOCKED; f.cond = cond; f.carg = arg; schedule(true); }
    f.st = READY; ++E->wver;
  }
  static void fiber_main() {
    Fiber& f = E->f[E->cur]; f.fn(f.arg); flush(); Fiber& g = E->f[E->cur]; g.st = DONE; ++E->wver; schedule(true);
    abort();
  }
  static int spawn(void* (*fn)(void*), void* arg) {
    if(E->nf >= MAXF) fail("too many threads");
    int i = E->nf; Fiber& f = E->f[i]; char* stk = f.stk; memset(&f, 0, sizeof f); f.stk = stk; f.st = READY; f.fn = fn; f.arg = arg;
    void** sp = (void**)(stk + STK - 64); *--sp = nullptr; *--sp = (void*)&fiber_main; for(int k = 0; k < 6; ++k) *--sp = nullptr;
    f.sp = sp; E->nf = i + 1; return i;
  }
  int begin(int t, int kind, long arg) { if(E->sched) { flush(); E->f[E->cur].nseen = 0; } bool s = E->inexec; E->inexec = false; E->ops.push_back({ t, kind, arg, 0, E->clock++, 1 << 30 }); int r = E->ops.size() - 1; E->inexec = s; return r; }
  void end(int id, long ret) { E->ops[id].ret = ret; E->ops[id].end = E->clock++; if(E->sched) { flush(); E->f[E->cur].nseen = 0; } }
  const std::vector<Op>& ops() { return E->ops; }
  void outcome(long h) { E->out = mix(E->out, (u64)h); }

  bool linearizable(const std::vector<Op>& v, State init, const std::function<bool(State&, const Op&)>& step) {
    bool s = E->inexec; E->inexec = false;
    std::set<std::pair<u64, State>> dead; size_t n = v.size();
    std::function<bool(u64, const State&)> rec = [&](u64 done, const State& st) -> bool {
      if(done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
      if(!dead.insert({ done, st }).second) return false;
      int minend = 1 << 30; for(size_t i = 0; i < n; ++i) if(!(done >> i & 1)) minend = std::min(minend, v[i].end);
      for(size_t i = 0; i < n; ++i) if(!(done >> i & 1) && v[i].begin < minend) { State t = st; if(step(t, v[i]) && rec(done | 1ull << i, t)) return true; }
      return false;
    };
    bool r = rec(0, init); E->inexec = s; return r;
  }
  std::string show(const std::vector<Op>& v, const char* const* kinds) { bool s = E->inexec; E->inexec = false; std::string r; for(auto& o : v) { char b[128]; snprintf(b, sizeof b, "T%d %s(%ld)=%ld [%d,%d]; ", o.thread, kinds[o.kind], o.arg, o.ret, o.begin, o.end == 1 << 30 ? -1 : o.end); r += b; } E->inexec = s; return r; }

  // ---------- one execution ----------
  struct TArg { Test* t; int i; };
  static void* thread_tramp(void* a) { TArg* x = (TArg*)a; x->t->thread(x->i); return nullptr; }
  static Config* g_cfg;
  static void body() {
    Test* t = g_cfg->mk(); t->setup(); int n = t->threads();
    static TArg ta[MAXF];
    for(int i = 0; i < n; ++i) { ta[i] = { t, i }; spawn(&thread_tramp, ta + i); }
    E->cur = -1; E->sched = true; E->H = 0; E->pendaddr = nullptr; int all = E->nf; // threads started by setup() count too
    if(all > 0) { // first choice: any thread may start
      int c = 0; if(all > 1) { size_t i = E->ch.size(); if(i < E->prefix.size()) c = E->prefix[i]; E->inexec = false; E->ch.push_back({ all, c, false, c }); E->inexec = true; }
      E->cur = c; E->f[c].nseen = 0; mcs_switch(&E->mainsp, E->f[c].sp);
    }
    E->sched = false; E->cur = -1;
    t->finish(); delete t;
  }
  static void restore() { memcpy(E->snapsrc, E->snap, E->snaplen); }
  static void run(Config* cfg, const std::vector<int>& prefix) {
    Eng* e = E; Shm* sh = shm;
    restore(); E = e; shm = sh; g_cfg = cfg;
    for(int i = 0; i < E->nf; ++i) memset(E->f[i].stk + STK - (24 << 10), 0, 24 << 10); memset(E->shadow, 0, E->shadowhi + 64); E->shadowhi = 0; E->used = 4096; E->live = 0;
    E->prefix = prefix; E->ch.clear(); E->preempts = 0; E->nf = 0; E->cur = -1; E->steps = 0; E->wver = 1; E->H = 0; E->deadH = 0; E->deadn = 0; E->pendaddr = nullptr; E->violated = false; E->diverged = false; E->ops.clear(); E->clock = 0; E->out = 0; E->msg[0] = 0; E->owners.clear(); E->sched = false;
    int n = std::min<size_t>(prefix.size(), 8192); for(int i = 0; i < n; ++i) shm->hist[i] = prefix[i]; shm->n = n; shm->progress = shm->progress + 1;
    if(!setjmp(E->jb)) { E->inexec = true; body(); E->inexec = false; }
    E->inexec = false; E->sched = false; ++E->execs;
    if(E->nf > E->maxfib) E->maxfib = E->nf;
    if(!E->violated) E->outcomes.insert(E->out);
  }
  // explores every schedule with at most `bound` preemptions; returns false on violation
  static double now();
  static bool explore(Config* cfg, int bound, u64 cap, bool& capped, std::vector<int>& bad) {
    capped = false;
  again:
    std::vector<int> pre; u64 startx = E->execs;
    for(;;) {
      E->grew = false; run(cfg, pre);
      if(E->grew) goto again; // a new conflicting address: its accesses become scheduling points from now on
      if(E->violated) { bad.clear(); for(auto& c : E->ch) bad.push_back(c.c); if(E->ch.size() < pre.size()) bad = pre; return false; }
      shm->execs = E->execs; shm->points = E->points; shm->outcomes = E->outcomes.size();
      if(E->execs - startx >= cap || ((E->execs & 1023) == 0 && E->deadline && now() > E->deadline)) { capped = true; return true; }
      int i = (int)E->ch.size() - 1; std::vector<int> cost(E->ch.size() + 1, 0); for(size_t k = 0; k < E->ch.size(); ++k) cost[k + 1] = cost[k] + (E->ch[k].preempt && E->ch[k].c ? 1 : 0);
      for(; i >= 0; --i) if(E->ch[i].c + 1 < E->ch[i].n && cost[i] + (E->ch[i].preempt ? 1 : 0) <= bound) break;
      if(i < 0) return true;
      pre.resize(i + 1); for(int k = 0; k < i; ++k) pre[k] = E->ch[k].c; pre[i] = E->ch[i].c + 1;
    }
  }
  Config* Config::head = nullptr;
  Config::Config(const char* n, Test* (*f)(), int q, int t, u64 cq, u64 ct) : name(n), mk(f), bq(q), bt(t), capq(cq), capt(ct), next(nullptr) { Config** p = &head; while(*p) p = &(*p)->next; *p = this; }

  static void init_engine() {
    void* mem = __libc_calloc(1, sizeof(Eng)); E = new (mem) Eng();
    E->arena = (char*)mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    E->shadow = (uint8_t*)mmap(nullptr, ARENA / 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char* st = (char*)mmap((void*)0x210000000000ull, STK * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    for(int i = 0; i < MAXF; ++i) E->f[i].stk = st + i * STK;
    E->owners.e = (OwnTab::Ent*)__libc_calloc(OwnTab::N, sizeof(OwnTab::Ent)); E->owners.gen = 1; E->shared.e = (u64*)__libc_calloc(SharedSet::N, 8); E->maxsteps = 400000;
    E->snapsrc = &__data_start; E->snaplen = &_end - &__data_start; E->snap = (char*)__libc_malloc(E->snaplen); memcpy(E->snap, E->snapsrc, E->snaplen);
  }
  static void on_sig(int s) {
    if(E && E->inexec) { snprintf(E->msg, sizeof E->msg, "crash: signal %d in T%d", s, E->cur); E->violated = true; E->inexec = false; E->sched = false; sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, nullptr); longjmp(E->jb, 1); }
    _exit(128 + s);
  }
  static void sigs() { stack_t ss; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for(int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr); }
  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  static std::string jesc(const std::string& s) { std::string r = "\""; for(unsigned char ch : s) { if(ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if(ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }

  static int replay(Config* cfg, const std::vector<int>& h, bool verbose) { // learns the shared set first, exactly as the exploration did
    for(int k = 0; k < 50; ++k) { E->replay = false; E->grew = false; run(cfg, h); if(!E->grew) break; }
    E->replay = verbose; run(cfg, h); E->replay = false;
    if(E->violated) { if(verbose) { printf("VIOLATED: %s\n", E->msg); } return 3; } if(verbose) printf("ok\n"); return 0;
  }
  struct Res { std::string js; bool viol; std::vector<int> hist; std::string msg; };
  static void child(Config* cfg, bool thorough, const char* outf) {
    sigs(); rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    double t0 = now(); E->deadline = t0 + (thorough ? 1500 : 200); std::vector<int> bad; bool capped = false, ok = true; int done = -1; int B = thorough ? cfg->bt : cfg->bq; u64 cap = thorough ? cfg->capt : cfg->capq; u64 lastex = 0;
    for(int b = 0; b <= B && ok && !capped; ++b) { u64 x = E->execs; shm->bound = b; ok = explore(cfg, b, cap, capped, bad); if(ok && !capped) done = b; lastex = E->execs - x; }
    FILE* f = fopen(outf, "w");
    std::string first = "schedule with the most switches explored last: "; for(size_t i = 0; i < E->ch.size() && i < 60; ++i) { char b[16]; snprintf(b, 16, "T%d%s ", E->ch[i].fib, E->ch[i].preempt && E->ch[i].c ? "!" : ""); first += b; }
    char note[400]; snprintf(note, sizeof note, "all schedules with <=%d preemptions of %d threads; %llu schedules at that bound; %zu shared words%s", done, E->maxfib, (unsigned long long)lastex, E->shared.n, capped ? "; the next bound ran into the time limit" : "");
    bool viol = !ok; std::string msg = E->msg; std::string hist; bool conf = false;
    if(viol) { int r1 = 0, r2 = 0; E->grew = false; run(cfg, bad); r1 = E->violated; std::string m1 = E->msg; run(cfg, bad); r2 = E->violated; conf = r1 && r2 && m1 == E->msg && !E->diverged; msg = m1; for(size_t i = 0; i < bad.size(); ++i) { char b[16]; snprintf(b, 16, "%s%d", i ? "," : "", bad[i]); hist += b; }
      if(conf) { int sv = dup(1); fflush(stdout); char tn[256]; snprintf(tn, sizeof tn, "%s.trace", outf); int fd = open(tn, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); E->replay = true; run(cfg, bad); E->replay = false; fflush(stdout); dup2(sv, 1); } }
    fprintf(f, "%d\n", viol ? (conf ? 1 : 2) : 0);
    if(viol) fprintf(f, "%s\n%s\n", hist.c_str(), jesc(msg).c_str());
    else fprintf(f, "{\"config\":%s,\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"outcomes\":%zu,\"depth\":%d,\"closed\":false,\"capped\":%s,\"wall\":%.2f,\"note\":%s,\"samples\":[%s],\"known\":[]}\n", jesc(cfg->name).c_str(), (unsigned long long)E->points, (unsigned long long)E->hooks, (unsigned long long)E->execs, E->outcomes.size(), done, capped ? "true" : "false", now() - t0, jesc(note).c_str(), jesc(first).c_str());
    fclose(f); fflush(stdout); _exit(0);
  }
}
using namespace mcs;
int main(int argc, char** argv)
{
  const char* only = nullptr; const char* out = nullptr; const char* rep = nullptr; int jobs = 8; bool thorough = false;
  for(int i = 1; i < argc; ++i) { std::string a = argv[i]; if(a == "--thorough") thorough = true; else if(a == "--only") only = argv[++i]; else if(a == "--out") out = argv[++i]; else if(a == "--replay") rep = argv[++i]; else if(a == "--jobs") jobs = atoi(argv[++i]); else if(a == "--list") { for(Config* x = Config::head; x; x = x->next) puts(x->name); return 0; } }
  if(rep) {
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    init_engine(); sigs(); Config* cfg = nullptr; for(Config* x = Config::head; x; x = x->next) if(only && !strcmp(x->name, only)) cfg = x; if(!cfg) return 2;
    // learn the shared words by re-running the exploration up to the violation
    std::vector<int> bad; bool capped; for(int b = 0; b <= (thorough ? cfg->bt : cfg->bq); ++b) if(!explore(cfg, b, ~0ull, capped, bad)) { E->replay = true; run(cfg, bad); printf("VIOLATED: %s\n", E->msg); return 3; }
    printf("ok\n"); return 0;
  }
  char tmpl[] = "/tmp/mcsXXXXXX"; std::string base = mkdtemp(tmpl);
  std::vector<Config*> todo; for(Config* x = Config::head; x; x = x->next) if((!only || !strcmp(only, x->name)) && (thorough ? x->bt : x->bq) >= 0) todo.push_back(x);
  struct Ch { pid_t pid; Config* c; Shm* shm; std::string out; u64 last; double lastt; }; std::vector<Ch> run; size_t ni = 0; std::string js = "{\"configs\":[", vj; bool first = true; int nv = 0, errors = 0; bool stop = false;
  auto slurp = [](const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "r"); if(!f) return s; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); unlink(p.c_str()); return s; };
  while((ni < todo.size() && !stop) || !run.empty()) {
    while(!stop && ni < todo.size() && (int)run.size() < jobs) {
      Ch c; c.c = todo[ni]; c.shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); c.out = base + "/o" + std::to_string(ni); ++ni; c.last = 0; c.lastt = now(); fflush(stdout);
      c.pid = fork(); if(!c.pid) { shm = c.shm; init_engine(); mcs::child(c.c, thorough, c.out.c_str()); } run.push_back(c);
    }
    usleep(3000);
    for(size_t i = 0; i < run.size(); ++i) {
      Ch& c = run[i]; int st = 0; int r = waitpid(c.pid, &st, WNOHANG); bool hung = false;
      if(c.shm->progress != c.last) { c.last = c.shm->progress; c.lastt = now(); } else if(!r && now() - c.lastt > 120) { kill(c.pid, SIGKILL); waitpid(c.pid, &st, 0); hung = true; r = c.pid; }
      if(r != c.pid) continue;
      std::string o = slurp(c.out), tr = slurp(c.out + ".trace"); Ch cc = c; run.erase(run.begin() + i); --i;
      if(stop) continue;
      int code = o.empty() ? -1 : atoi(o.c_str()); size_t nl = o.find('\n');
      if(code == 0) { std::string r = o.substr(nl + 1); while(!r.empty() && r.back() == '\n') r.pop_back(); js += (first ? "" : ",") + r; first = false; }
      else if(code == 1) { size_t n2 = o.find('\n', nl + 1); std::string h = o.substr(nl + 1, n2 - nl - 1), m = o.substr(n2 + 1); while(!m.empty() && m.back() == '\n') m.pop_back(); vj += (nv++ ? "," : "") + std::string("{\"config\":") + jesc(cc.c->name) + ",\"history\":[" + h + "],\"what\":" + m + ",\"trace\":" + jesc(tr.substr(0, 8000)) + "}"; fprintf(stderr, "violation in %s: %s\n", cc.c->name, m.c_str()); stop = true; for(auto& x : run) kill(x.pid, SIGKILL); }
      else if(code < 0 && hung) { // one execution never came back: an endless loop without any memory access that is a scheduling point
        vj += (nv++ ? "," : "") + std::string("{\"config\":") + jesc(cc.c->name) + ",\"history\":[],\"what\":\"an execution did not end\",\"trace\":\"\"}"; stop = true; for(auto& x : run) kill(x.pid, SIGKILL); }
      else { ++errors; fprintf(stderr, "harness error in config %s: status %d code %d: %s\n", cc.c->name, st, code, o.c_str()); }
    }
  }
  js += "],\"violations\":[" + vj + "],\"errors\":" + std::to_string(errors) + "}";
  FILE* f = out ? fopen(out, "w") : stdout; fwrite(js.data(), 1, js.size(), f); if(out) fclose(f); else puts("");
  rmdir(base.c_str());
  return nv ? 1 : errors ? 2 : 0;
}

// ---------- allocator ----------
static void* arena_alloc(size_t n, size_t align) {
  ++E->live;
  if(align < 16) align = 16;
  size_t o = (E->used + 32 + align - 1) / align * align; size_t len = n ? n : 1;
  if(o + len + 64 > ARENA) fail("out of memory in one execution (%zu bytes requested)", n);
  E->used = o + ((len + 7) & ~(size_t)7); char* p = E->arena + o; memset(p, 0xbe, len);
  // n is kept in front of the block
  *(size_t*)(p - 8) = n; size_t a = o >> 3, b = (o + len + 7) >> 3; memset(E->shadow + a, 1, b - a); if(b > E->shadowhi) E->shadowhi = b;
  return p;
}
static void arena_free(void* p) {
  size_t o = ((char*)p - E->arena) >> 3; if(E->shadow[o] != 1 || (o && E->shadow[o - 1] == 1)) fail("memory error: free() of a pointer that is not an allocated block (double free?) by T%d", E->cur);
  --E->live; size_t n = *(size_t*)((char*)p - 8); size_t b = o + (((n ? n : 1) + 7) >> 3); memset(E->shadow + o, 2, b - o);
}
extern "C" {
void* malloc(size_t n) { if(!E || !E->inexec) return __libc_malloc(n); return arena_alloc(n, 16); }
void free(void* p) { if(!p) return; if(E && (char*)p >= E->arena && (char*)p < E->arena + ARENA) { if(E->inexec) arena_free(p); return; } __libc_free(p); }
void* calloc(size_t a, size_t b) { if(!E || !E->inexec) return __libc_calloc(a, b); void* p = arena_alloc(a * b, 16); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
  bool ar = p && E && (char*)p >= E->arena && (char*)p < E->arena + ARENA;
  if(!E || (!E->inexec && !ar)) return __libc_realloc(p, n);
  if(p && !ar) return __libc_realloc(p, n);
  void* q = arena_alloc(n, 16); if(p) { size_t o = *(size_t*)((char*)p - 8); memcpy(q, p, o < n ? o : n); arena_free(p); } return q;
}
void* aligned_alloc(size_t al, size_t n) { if(!E || !E->inexec) return __libc_memalign(al, n); return arena_alloc(n, al); }
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { *r = aligned_alloc(al, n); return 0; }
size_t malloc_usable_size(void* p) { return p ? *(size_t*)((char*)p - 8) & ~(size_t)7 : 0; }
void __assert_fail(const char* e, const char* f, unsigned l, const char*) { if(E && E->inexec) fail("assertion failed: %s (%s:%u)", e, f, l); fprintf(stderr, "assert %s\n", e); abort(); }
int __real_atexit_dummy;

// ---------- threads ----------
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { if(!E->inexec) abort(); int i = spawn(fn, arg); *t = (pthread_t)(i + 1); ++E->wver; if(E->sched) { ++E->points; schedule(false); } return 0; }
static bool fdone(void* a) { return E->f[(size_t)a].st == DONE; }
int pthread_join(pthread_t t, void** r) { if(r) *r = nullptr; if(E->inexec) wait_until(&fdone, (void*)((size_t)t - 1)); return 0; }
int pthread_tryjoin_np(pthread_t t, void** r) { if(r) *r = nullptr; if(E->sched) { ++E->points; schedule(false); } return E->f[(size_t)t - 1].st == DONE ? 0 : EBUSY; }
__attribute__((weak)) int pthread_timedjoin_np(pthread_t t, void** r, const struct timespec*) { return pthread_tryjoin_np(t, r) ? ETIMEDOUT : 0; }
int pthread_detach(pthread_t) { return 0; }
static pthread_t thread_pointer() { pthread_t r; asm("movq %%fs:0,%0" : "=r"(r)); return r; }
pthread_t pthread_self() { return E && E->inexec && E->sched ? (pthread_t)(E->cur + 1) : thread_pointer(); }
int sched_yield() { if(E && E->inexec) yield(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if(E && E->inexec) yield(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if(E && E->inexec) yield(); return 0; }
int sem_init(sem_t* s, int, unsigned v) { *(volatile unsigned*)s = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { if(E->sched) { ++E->points; schedule(false); } ++*(volatile unsigned*)s; ++E->wver; return 0; }
static bool sempos(void* s) { return *(volatile unsigned*)s > 0; }
int sem_wait(sem_t* s) { wait_until(&sempos, s); --*(volatile unsigned*)s; ++E->wver; return 0; }
int sem_trywait(sem_t* s) { if(E->sched) { ++E->points; schedule(false); } if(!sempos(s)) { errno = EAGAIN; return -1; } --*(volatile unsigned*)s; ++E->wver; return 0; }
int sem_timedwait(sem_t* s, const struct timespec*) { if(sem_trywait(s)) { errno = ETIMEDOUT; return -1; } return 0; }
int sem_getvalue(sem_t* s, int* v) { *v = *(unsigned*)s; return 0; }
static bool mfree(void* m) { return !*(volatile int*)m; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if(!E || !E->inexec || !E->sched) return 0; wait_until(&mfree, m); *(volatile int*)m = 1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if(!E || !E->inexec || !E->sched) return 0; ++E->points; schedule(false); if(!mfree(m)) return EBUSY; *(volatile int*)m = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if(!E || !E->inexec || !E->sched) return 0; *(volatile int*)m = 0; ++E->wver; ++E->points; schedule(false); return 0; }
// condition variables: the first word counts waiters' generation: signal and broadcast both wake every waiter (spurious wakeups are legal)
struct CW { volatile unsigned* g; unsigned v; };
static bool cgen(void* a) { CW* w = (CW*)a; return *w->g != w->v; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { CW w{ (volatile unsigned*)c, *(volatile unsigned*)c }; *(volatile int*)m = 0; ++E->wver; wait_until(&cgen, &w); return pthread_mutex_lock(m); }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) { pthread_mutex_unlock(m); pthread_mutex_lock(m); return ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t* c) { ++*(volatile unsigned*)c; ++E->wver; if(E->sched) { ++E->points; schedule(false); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
static bool gfree(void* g) { return !((volatile char*)g)[1]; }
int __cxa_guard_acquire(char* g) { if(g[0]) return 0; if(E && E->inexec && E->sched) { wait_until(&gfree, g); if(g[0]) return 0; } g[1] = 1; return 1; }
void __cxa_guard_release(char* g) { g[1] = 0; g[0] = 1; if(E) ++E->wver; }
void __cxa_guard_abort(char* g) { g[1] = 0; if(E) ++E->wver; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; } // static destructors are not run: the process image is restored instead

// hook compiled into /repo's inline assembly wrappers under BSS_MODEL_CHECK
void bss_mc_point(const volatile void* p, size_t n) { point((const void*)p, n, RMW, __builtin_return_address(0)); }

// ---------- compiler instrumentation ----------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* a) { point(a, N, RD, PC); } void __tsan_write##N(void* a) { point(a, N, WR, PC); } \
  void __tsan_unaligned_read##N(void* a) { point(a, N, RD, PC); } void __tsan_unaligned_write##N(void* a) { point(a, N, WR, PC); } \
  void __tsan_volatile_read##N(void* a) { point(a, N, RD, PC); } void __tsan_volatile_write##N(void* a) { point(a, N, WR, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { point(a, n, RD, PC); }
void __tsan_write_range(void* a, size_t n) { point(a, n, WR, PC); }
void __tsan_vptr_update(void** a, void*) { point(a, 8, WR, PC); }
void __tsan_vptr_read(void** a) { point(a, 8, RD, PC); }
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { point((void*)a, sizeof(T), RD, PC); return *a; } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { point((void*)a, sizeof(T), WR, PC); *a = v; } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point((void*)a, sizeof(T), RMW, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point((void*)a, sizeof(T), RMW, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point((void*)a, sizeof(T), RMW, PC); T o = *a; if(o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
