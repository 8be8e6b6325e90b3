// Bounded exhaustive explorer for sequential code: explicit-state search over operation histories of the real
// object (mc::bfs) and exhaustive enumeration of choice sequences (mc::enumerate). See DESIGN.md section 2.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <unordered_set>
#include <algorithm>

namespace mc {
  struct Violation { std::string msg; };
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
  std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

  // ---- heap tracking (through the address sanitizer's malloc hooks) ----
  struct Track { bool old; Track(); ~Track(); };      // allocations made while one of these lives are tracked
  struct NoTrack { bool old; NoTrack(); ~NoTrack(); };
  size_t live_blocks();                                // number of tracked blocks not yet freed
  void reset_blocks();
  std::string describe_blocks();

  // ---- instance registry: element type with identity, for lifetime properties ----
  struct Obj {                                         // self-referencing: bitwise moves are detected
    int v; const Obj* self; uint32_t magic;
    Obj(int x = 0); Obj(const Obj& o); Obj(Obj&& o); ~Obj();
    Obj& operator=(const Obj& o); Obj& operator=(Obj&& o);
    bool operator==(const Obj& o) const { return v == o.v; }
    bool operator!=(const Obj& o) const { return v != o.v; }
    bool operator<(const Obj& o) const { return v < o.v; }
    bool operator>(const Obj& o) const { return v > o.v; }
    bool operator<=(const Obj& o) const { return v <= o.v; }
    bool operator>=(const Obj& o) const { return v >= o.v; }
    operator int() const { return v; }
    static long live; static const char* error; static void reset();
  };
  struct Rel {                                         // relocatable: counted, but may be moved bitwise
    int v; uint32_t magic;
    Rel(int x = 0); Rel(const Rel& o); Rel(Rel&& o); ~Rel();
    Rel& operator=(const Rel& o); Rel& operator=(Rel&& o);
    bool operator==(const Rel& o) const { return v == o.v; }
    bool operator!=(const Rel& o) const { return v != o.v; }
    bool operator<(const Rel& o) const { return v < o.v; }
    bool operator>(const Rel& o) const { return v > o.v; }
    operator int() const { return v; }
  };
  struct MoveOnly {
    int v; const MoveOnly* self; uint32_t magic;
    MoveOnly(int x = 0); MoveOnly(const MoveOnly&) = delete; MoveOnly(MoveOnly&& o); ~MoveOnly();
    MoveOnly& operator=(const MoveOnly&) = delete; MoveOnly& operator=(MoveOnly&& o);
    bool operator==(const MoveOnly& o) const { return v == o.v; }
    bool operator<(const MoveOnly& o) const { return v < o.v; }
    operator int() const { return v; }
  };

  // ---- canonical state key ----
  struct Key {
    uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xD1B54A32D192ED03ull;
    void word(uint64_t w) { a = (a ^ w) * 0xff51afd7ed558ccdull; a ^= a >> 32; b = (b + w) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29; }
    void bytes(const void* p, size_t n);
    void str(const std::string& s) { word(s.size()); bytes(s.data(), s.size()); }
    template<class C> void seq(const C& c) { word(c.size()); for(const auto& x : c) word((uint64_t)x); }
    void object(const void* p, size_t n);              // whole reachable heap graph from [p,p+n), pointers canonicalised
  };

  struct Ctx;
  struct Stats { uint64_t states = 0, transitions = 0, execs = 0, outcomes = 0; int depth = 0; bool closed = false; bool capped = false; };

  struct Ctx {
    const char* name = ""; bool thorough = false; bool replaying = false;
    std::vector<int> replay;                           // history to replay
    Stats st; std::vector<std::string> samples; std::string note; std::set<std::string> known;
    std::unordered_set<uint64_t> outs;
    void outcome(uint64_t h) { if(outs.size() < 2000000) outs.insert(h); }
    void outcome(const std::string& s) { Key k; k.str(s); outcome(k.a); }
    void sample(const std::string& s) { if(samples.size() < 3) samples.push_back(s); }
    void log(const char* f, ...) __attribute__((format(printf, 2, 3)));  // only printed while replaying
    void known_finding(const std::string& s) { known.insert(s); }
    int pick(int q, int t) const { return thorough ? t : q; }
  };
  void begin_exec(Ctx& c, const std::vector<uint8_t>& hist, int op);  // publishes the history being run
  void begin_exec_i(Ctx& c, const std::vector<int>& hist);
  void end_exec_check();                                               // registry errors

  // ---- explicit-state search over the operation histories of Sys ----
  struct BfsOpt { int depth = 6; uint64_t maxstates = 3000000; bool leakcheck = true; bool dedup = true; };
  template<class Sys, class MK>
  void bfs(Ctx& c, const BfsOpt& o, MK mk)
  {
    struct Ent { std::vector<uint8_t> h; };
    auto run = [&](const std::vector<uint8_t>& h, int op, Key* key, std::vector<uint8_t>* en) {
      begin_exec(c, h, op);
      reset_blocks();
      Obj::reset();
      {
        Sys* s;
        { s = mk(); }
        struct D { Sys* s; ~D() { } } d{ s };
        for(size_t i = 0; i < h.size(); ++i) {
          if(c.replaying) { c.log("  op %s", s->opname(h[i]).c_str()); }
          s->apply(h[i]);
          if(c.replaying) s->check();
        }
        if(op >= 0) { if(c.replaying) c.log("  op %s", s->opname(op).c_str()); s->apply(op); }
        s->check();
        if(Obj::error) fail("lifetime: %s", Obj::error);
        if(key) s->key(*key);
        if(en) { en->clear(); int n = s->nops(); for(int i = 0; i < n; ++i) if(s->enabled(i)) en->push_back((uint8_t)i); }
        delete s;
      }
      if(Obj::error) fail("lifetime (at destruction): %s", Obj::error);
      if(Obj::live) fail("lifetime: %ld element(s) alive after the container was destroyed", Obj::live);
      if(o.leakcheck && live_blocks()) fail("leak: %zu block(s) still allocated after destruction: %s", live_blocks(), describe_blocks().c_str());
      ++c.st.execs;
    };
    if(c.replaying) {
      std::vector<uint8_t> h; for(int x : c.replay) h.push_back((uint8_t)x);
      run(h, -1, nullptr, nullptr); return;
    }
    struct H { size_t operator()(const std::pair<uint64_t, uint64_t>& p) const { return p.first ^ (p.second * 31); } };
    std::unordered_set<std::pair<uint64_t, uint64_t>, H> seen;
    std::deque<std::pair<std::vector<uint8_t>, std::vector<uint8_t>>> q;
    { Key k; std::vector<uint8_t> en; run({}, -1, &k, &en); seen.insert({ k.a, k.b }); q.push_back({ {}, en }); }
    c.st.states = 1; bool cut = false;
    while(!q.empty()) {
      auto cur = std::move(q.front()); q.pop_front();
      if((int)cur.first.size() >= o.depth) { cut = true; continue; }
      for(uint8_t op : cur.second) {
        Key k; std::vector<uint8_t> en;
        run(cur.first, op, &k, &en);
        ++c.st.transitions; c.outcome(k.a);
        bool fresh = o.dedup ? seen.insert({ k.a, k.b }).second : true;
        if(fresh) {
          ++c.st.states;
          auto h = cur.first; h.push_back(op);
          c.st.depth = std::max<int>(c.st.depth, h.size());
          q.push_back({ std::move(h), std::move(en) });
          if(c.st.states >= o.maxstates) { c.st.capped = true; c.note += " state cap reached;"; goto done; }
        }
      }
      if(c.samples.size() < 3 && (int)cur.first.size() == std::min(o.depth - 1, 4)) {
        Sys* s = mk(); std::string t; for(uint8_t x : cur.first) { t += s->opname(x); t += "; "; s->apply(x); } delete s; c.sample(t);
      }
    }
  done:
    c.st.closed = !cut && !c.st.capped;
  }
  template<class Sys> void bfs(Ctx& c, const BfsOpt& o) { bfs<Sys>(c, o, [] { return new Sys(); }); }

  // ---- table-driven system: a list of named, guarded operations, built once per config ----
  template<class D> struct SysBase {
    struct O { std::string n; std::function<void(D&)> f; std::function<bool(const D&)> e; };
    static std::vector<O>& T() { static std::vector<O> t; return t; }
    static void op(std::string n, std::function<void(D&)> f, std::function<bool(const D&)> e = nullptr) { T().push_back({ n, f, e }); if(T().size() > 250) { fprintf(stderr, "too many operations\n"); abort(); } }
    int nops() const { return (int)T().size(); }
    bool enabled(int i) const { auto& o = T()[i]; return !o.e || o.e(static_cast<const D&>(*this)); }
    void apply(int i) { T()[i].f(static_cast<D&>(*this)); }
    std::string opname(int i) const { return T()[i].n; }
  };

  // ---- exhaustive enumeration of choice sequences ----
  struct Choose {
    std::vector<int> pre; std::vector<int> ch, n; Ctx* c;
    int operator()(int k) { // returns 0..k-1
      if(k <= 0) fail("choose(%d)", k);
      size_t i = ch.size(); int v = 0;
      if(i < pre.size()) { v = pre[i]; if(v >= k) fail("replay divergence at choice %zu: %d of %d", i, v, k); }
      ch.push_back(v); n.push_back(k); return v;
    }
    template<class T> const T& of(const std::vector<T>& v) { return v[(*this)((int)v.size())]; }
    template<class T, size_t N> const T& of(const T (&v)[N]) { return v[(*this)((int)N)]; }
  };
  struct EnumOpt { bool leakcheck = true; uint64_t maxexecs = ~0ull; };
  template<class F> void enumerate(Ctx& c, const EnumOpt& o, F body)
  {
    auto run = [&](Choose& ch) {
      begin_exec_i(c, ch.pre);
      reset_blocks(); Obj::reset();
      body(ch);
      if(Obj::error) fail("lifetime: %s", Obj::error);
      if(Obj::live) fail("lifetime: %ld element(s) still alive at the end", Obj::live);
      if(o.leakcheck && live_blocks()) fail("leak: %zu block(s) still allocated: %s", live_blocks(), describe_blocks().c_str());
      ++c.st.execs;
    };
    Choose ch; ch.c = &c;
    if(c.replaying) { ch.pre = c.replay; run(ch); return; }
    for(;;) {
      ch.ch.clear(); ch.n.clear();
      run(ch);
      c.st.transitions += ch.ch.size(); ++c.st.states; c.st.depth = std::max<int>(c.st.depth, ch.ch.size());
      if(c.st.execs >= o.maxexecs) { c.st.capped = true; c.note += " execution cap reached;"; return; }
      size_t i = ch.ch.size();
      while(i > 0 && ch.ch[i - 1] + 1 >= ch.n[i - 1]) --i;
      if(!i) break;
      ch.pre.assign(ch.ch.begin(), ch.ch.begin() + i);
      ++ch.pre[i - 1];
    }
    c.st.closed = true;
  }
  template<class F> void enumerate(Ctx& c, F body) { enumerate(c, EnumOpt(), body); }

  struct Config { const char* name; void (*fn)(Ctx&); bool thorough_only; Config* next; static Config* head; Config(const char* n, void (*f)(Ctx&), bool t); };
  void tick();   // progress mark inside one long execution
  const char* scratch();  // private scratch directory of this process
}
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_CONFIG(nm) static void MC_CAT(mcfn_, __LINE__)(mc::Ctx& c); static mc::Config MC_CAT(mccfg_, __LINE__)(nm, &MC_CAT(mcfn_, __LINE__), false); static void MC_CAT(mcfn_, __LINE__)(mc::Ctx& c)
#define MC_CONFIG_T(nm) static void MC_CAT(mcfn_, __LINE__)(mc::Ctx& c); static mc::Config MC_CAT(mccfg_, __LINE__)(nm, &MC_CAT(mcfn_, __LINE__), true); static void MC_CAT(mcfn_, __LINE__)(mc::Ctx& c)
// runs an expression of the code under test with heap tracking on
#define LIB(...) ([&]() -> decltype(auto) { mc::Track mc_track_; return __VA_ARGS__; }())
#define MC_CHECK(cond, ...) do { if(!(cond)) mc::fail(__VA_ARGS__); } while(0)
