// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// BinaryHeap, PriorityQueue, PriorityHeap, RandomQueue: every history, every array.
#include "mc.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
#include "bss-util/RandomQueue.h"
using namespace bss;
typedef std::vector<int> V; typedef std::multiset<int> S;
template<class C> static std::string str(const C& m) { std::string w; for(int v : m) w += mc::fmt("%d ", v); return w; }
template<class A, class T, bool MIN> struct HSys : mc::SysBase<HSys<A, T, MIN>> {
  typedef mc::SysBase<HSys> B; using B::op; A *a, *b; S ma, mb;
  HSys() { a = LIB(new A()); b = LIB(new A()); }
  ~HSys() { delete a; delete b; }
  static int top(const S& m) { return MIN ? *m.begin() : *m.rbegin(); }
  static void build(int N, int K, bool two) {
    auto room = [N](const HSys& s) { return (int)s.ma.size() < N; };
    auto some = [](const HSys& s) { return !s.ma.empty(); };
    for(int v = 1; v <= K; ++v) {
      if(v & 1) op(mc::fmt("Insert(%d)", v), [v](HSys& s) { LIB(s.a->Insert(T(v))); s.ma.insert(v); }, room);
      else op(mc::fmt("Insert(const %d)", v), [v](HSys& s) { { T t(v); LIB(s.a->Insert((const T&)t)); MC_CHECK((int)t == v, "Insert changed its argument"); } s.ma.insert(v); }, room);
      for(int i = 0; i < N; ++i) op(mc::fmt("Set(%d,%d)", i, v), [i, v](HSys& s) { int o = (int)s.a->Get(i); bool r; { T t(v); r = LIB(s.a->Set(i, (const T&)t)); MC_CHECK((int)t == v, "Set changed its argument"); } MC_CHECK(r, "Set(%d) returned false", i); s.ma.erase(s.ma.find(o)); s.ma.insert(v); }, [i](const HSys& s) { return i < (int)s.ma.size(); });
    }
    op("Set(N)", [N](HSys& s) { T t(1); MC_CHECK(!LIB(s.a->Set(N, t)), "Set past the end returned true"); });
    for(int i = 0; i <= N; ++i) op(mc::fmt("Remove(%d)", i), [i](HSys& s) { bool in = i < (int)s.ma.size(); int o = in ? (int)s.a->Get(i) : 0; bool r = LIB(s.a->Remove(i)); MC_CHECK(r == in, "Remove(%d) returned %d with %zu elements", i, r, s.ma.size()); if(in) s.ma.erase(s.ma.find(o)); });
    op("Pop", [](HSys& s) { int w = top(s.ma); int v = (int)LIB(s.a->Pop()); MC_CHECK(v == w, "Pop gave %d, expected %d", v, w); s.ma.erase(s.ma.find(w)); }, some);
    op("Clear", [](HSys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    if(two) {
      op("a = b", [](HSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
      op("b = A(a)", [](HSys& s) { A* n = LIB(new A(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
      op("a = move(b)", [](HSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); });
      op("b = A(move(a))", [](HSys& s) { A* n = LIB(new A(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); });
    }
  }
  void one(A& x, const S& m, const char* n) {
    MC_CHECK((size_t)x.Length() == m.size() && x.Empty() == m.empty(), "%s has length %d, expected %zu", n, (int)x.Length(), m.size());
    V g; for(auto& e : x) g.push_back((int)e);
    MC_CHECK(S(g.begin(), g.end()) == m, "%s holds [%s], expected {%s}", n, str(g).c_str(), str(m).c_str());
    for(size_t i = 1; i < g.size(); ++i) MC_CHECK(MIN ? g[(i - 1) / 2] <= g[i] : g[(i - 1) / 2] >= g[i], "%s: heap order broken at %zu in [%s]", n, i, str(g).c_str());
    if(m.size()) MC_CHECK((int)x.Peek() == top(m) && (int)x.Get(0) == top(m), "%s: Peek is %d, expected %d", n, (int)x.Peek(), top(m));
  }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { k.seq(ma); k.seq(mb); for(auto& e : *a) k.word((int)e); for(auto& e : *b) k.word((int)e); }
};
template<class A, class T, bool MIN> void goh(mc::Ctx& c, int N, int K, bool two, int depth) { typedef HSys<A, T, MIN> Y; Y::build(N, K, two); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(300000, 3000000); mc::bfs<Y>(c, o); }
MC_CONFIG("BinaryHeap<int>: large") { goh<BinaryHeap<int>, int, false>(c, c.pick(8, 9), 4, false, 20); }
MC_CONFIG("BinaryHeap<int,min>: two heaps") { goh<BinaryHeap<int, int, CompTInv<int>>, int, true>(c, c.pick(4, 5), 3, true, c.pick(8, 10)); }
MC_CONFIG("BinaryHeap<Obj,SAFE>") { goh<BinaryHeap<mc::Obj, size_t, CompT<mc::Obj>, ARRAY_SAFE>, mc::Obj, false>(c, c.pick(6, 7), 3, false, 20); }
MC_CONFIG("BinaryHeap<Obj,SAFE>: two heaps") { goh<BinaryHeap<mc::Obj, unsigned, CompTInv<mc::Obj>, ARRAY_SAFE>, mc::Obj, true>(c, c.pick(3, 4), 2, true, c.pick(8, 10)); }
// Heapify, HeapSort and construction from every array
template<class T, bool MIN> void arrays(mc::Ctx& c, int L, int K) {
  typedef BinaryHeap<T, size_t, MIN ? CompTInv<T> : CompT<T>, std::is_same<T, int>::value ? ARRAY_SIMPLE : ARRAY_SAFE> H;
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch(L + 1); V v(n); for(int& x : v) x = ch(K); V w = v; std::sort(w.begin(), w.end()); if(MIN) std::reverse(w.begin(), w.end());
    std::vector<T> t(v.begin(), v.end());
    LIB(H::HeapSort(t.data(), (size_t)n)); { V g; for(auto& e : t) g.push_back((int)e); MC_CHECK(g == w, "HeapSort of [%s] gives [%s]", str(v).c_str(), str(g).c_str()); c.outcome(str(v)); }
    t.assign(v.begin(), v.end()); LIB(H::Heapify(t.data(), (size_t)n)); { V g; for(auto& e : t) g.push_back((int)e); V q = g; std::sort(q.begin(), q.end()); if(MIN) std::reverse(q.begin(), q.end()); MC_CHECK(q == w, "Heapify of [%s] lost elements: [%s]", str(v).c_str(), str(g).c_str()); for(int i = 1; i < n; ++i) MC_CHECK(MIN ? g[(i - 1) / 2] <= g[i] : g[(i - 1) / 2] >= g[i], "Heapify of [%s] is no heap: [%s]", str(v).c_str(), str(g).c_str()); }
    t.assign(v.begin(), v.end()); H* h = LIB(new H((const T*)t.data(), (size_t)n)); V g; while(!h->Empty()) { g.push_back((int)LIB(h->Pop())); MC_CHECK((int)g.size() <= n, "too many elements"); } std::reverse(g.begin(), g.end()); MC_CHECK(g == w, "a heap made from [%s] pops [%s] (reversed)", str(v).c_str(), str(g).c_str()); delete h;
  });
}
MC_CONFIG("HeapSort<int>: all arrays") { arrays<int, false>(c, c.pick(7, 8), c.pick(4, 5)); }
MC_CONFIG("HeapSort<Obj,min>: all arrays") { arrays<mc::Obj, true>(c, c.pick(6, 7), c.pick(3, 4)); }
MC_CONFIG("HeapSort<int>: all permutations") { mc::enumerate(c, [&](mc::Choose& ch) { int n = c.pick(8, 9); V left, v; for(int i = 0; i < n; ++i) left.push_back(i); while(left.size()) { int k = ch(left.size()); v.push_back(left[k]); left.erase(left.begin() + k); } V g = v; LIB(BinaryHeap<int>::HeapSort(g.data(), (size_t)n)); c.outcome(str(v)); for(int i = 0; i < n; ++i) MC_CHECK(g[i] == i, "HeapSort of [%s] gives [%s]", str(v).c_str(), str(g).c_str()); }); }

// PriorityQueue: (priority, data) pairs
typedef std::multiset<std::pair<int, int>> PS;
template<class Q, class T, bool MIN> struct PQSys : mc::SysBase<PQSys<Q, T, MIN>> {
  typedef mc::SysBase<PQSys> B; using B::op; Q *a, *b; PS ma, mb; int serial = 0;
  PQSys() { a = LIB(new Q()); b = LIB(new Q()); }
  ~PQSys() { delete a; delete b; }
  static int top(const PS& m) { return MIN ? m.begin()->first : m.rbegin()->first; }
  static void gone(PQSys& s, int p, int d, const char* what) { auto i = s.ma.find({ p, d }); MC_CHECK(i != s.ma.end(), "%s gave (%d,%d), which is not in the queue", what, p, d); s.ma.erase(i); }
  static void build(int N, int K) {
    auto room = [N](const PQSys& s) { return (int)s.ma.size() < N; };
    auto some = [](const PQSys& s) { return !s.ma.empty(); };
    for(int v = 1; v <= K; ++v) for(int d = 1; d <= 2; ++d) op(mc::fmt("Push(%d,%d)", v, d), [v, d](PQSys& s) { if(d == 1) { T t(v); LIB(s.a->Push((const T&)t, T(d))); MC_CHECK((int)t == v, "Push changed its argument"); } else LIB(s.a->Push(T(v), T(d))); s.ma.insert({ v, d }); }, room);
    op("Pop", [](PQSys& s) { int w = top(s.ma); { auto p = LIB(s.a->Pop()); MC_CHECK((int)p.first == w, "Pop gave priority %d, expected %d", (int)p.first, w); gone(s, (int)p.first, (int)p.second, "Pop"); } }, some);
    op("Discard", [](PQSys& s) { int p = (int)s.a->Peek().first, d = (int)s.a->Peek().second; MC_CHECK(p == top(s.ma), "Peek is not the extreme"); gone(s, p, d, "Peek"); LIB(s.a->Discard()); }, some);
    for(int i = 0; i <= N; ++i) op(mc::fmt("Remove(%d)", i), [i](PQSys& s) { bool in = i < (int)s.ma.size(); if(in) { int p = (int)s.a->Get(i).first, d = (int)s.a->Get(i).second; gone(s, p, d, "Get"); } bool r = LIB(s.a->Remove(i)); MC_CHECK(r == in, "Remove(%d) returned %d", i, r); });
    op("Clear", [](PQSys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    op("a = b", [](PQSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
    op("b = A(a)", [](PQSys& s) { Q* n = LIB(new Q(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
    op("a = move(b)", [](PQSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); });
    op("b = A(move(a))", [](PQSys& s) { Q* n = LIB(new Q(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); });
  }
  void one(Q& x, const PS& m, const char* n) {
    MC_CHECK((size_t)x.Length() == m.size() && x.Empty() == m.empty(), "%s has length %d, expected %zu", n, (int)x.Length(), m.size());
    PS g; for(size_t i = 0; i < m.size(); ++i) g.insert({ (int)x.Get(i).first, (int)x.Get(i).second }); MC_CHECK(g == m, "%s does not hold what was pushed", n);
    for(size_t i = 1; i < m.size(); ++i) { int p = (int)x.Get((i - 1) / 2).first, q = (int)x.Get(i).first; MC_CHECK(MIN ? p <= q : p >= q, "%s: heap order broken at %zu", n, i); }
    if(m.size()) MC_CHECK((int)x.Peek().first == top(m), "%s: Peek is %d, expected %d", n, (int)x.Peek().first, top(m));
  }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { for(Q* q : { a, b }) { k.word(q->Length()); for(size_t i = 0; i < (size_t)q->Length(); ++i) { k.word((int)q->Get(i).first); k.word((int)q->Get(i).second); } } }
};
template<class A, class T, bool MIN> void gop(mc::Ctx& c, int N, int K, int depth) { typedef PQSys<A, T, MIN> Y; Y::build(N, K); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(200000, 3000000); mc::bfs<Y>(c, o); }
MC_CONFIG("PriorityQueue<int,int>") { gop<PriorityQueue<int, int>, int, false>(c, c.pick(5, 6), 2, c.pick(7, 9)); }
MC_CONFIG("PriorityQueue<Obj,Obj,min,SAFE>") { gop<PriorityQueue<mc::Obj, mc::Obj, CompTInv<mc::Obj>, uint32_t, ARRAY_SAFE>, mc::Obj, true>(c, c.pick(4, 6), c.pick(2, 3), c.pick(6, 7)); }

// PriorityHeap: elements are addressed by the key Push returned. Values carry a tag the comparison ignores, so that
// the element that left is known even among equals.
template<class T> static char CmpTag(const T& x, const T& y) { int p = (int)x >> 4, q = (int)y >> 4; return (char)((p > q) - (p < q)); }
template<class T> static char CmpTagInv(const T& x, const T& y) { return CmpTag<T>(y, x); }
template<class Q, class T, bool MIN> struct PHSys : mc::SysBase<PHSys<Q, T, MIN>> {
  typedef mc::SysBase<PHSys> B; using B::op; typedef std::map<int, int> M; Q *a, *b; M ma, mb;
  PHSys() { a = LIB(new Q()); b = LIB(new Q()); }
  ~PHSys() { delete a; delete b; }
  static int top(const M& m) { int t = m.begin()->second >> 4; for(auto& p : m) t = MIN ? std::min(t, p.second >> 4) : std::max(t, p.second >> 4); return t; }
  static int nth(const M& m, int i) { auto it = m.begin(); std::advance(it, i); return it->first; }
  static int tag(const M& m) { for(int t = 0;; ++t) { bool used = false; for(auto& p : m) used = used || (p.second & 15) == t; if(!used) return t; } }
  static void gone(PHSys& s, int v, const char* what) { MC_CHECK((v >> 4) == top(s.ma), "%s gave priority %d, expected %d", what, v >> 4, top(s.ma)); for(auto& p : s.ma) if(p.second == v) { s.ma.erase(p.first); return; } mc::fail("%s gave an element that is not in the heap", what); }
  static void build(int N, int K) {
    auto room = [N](const PHSys& s) { return (int)s.ma.size() < N; };
    auto some = [](const PHSys& s) { return !s.ma.empty(); };
    for(int v = 1; v <= K; ++v) {
      op(mc::fmt("Push(%d)", v), [v](PHSys& s) { long k; int w = v * 16 + tag(s.ma); if(v & 1) { T t(w); k = (long)LIB(s.a->Push((const T&)t)); MC_CHECK((int)t == w, "Push changed its argument"); } else k = (long)LIB(s.a->Push(T(w))); MC_CHECK(!s.ma.count((int)k), "Push returned key %ld, which is in use", k); s.ma[(int)k] = w; }, room);
      for(int i = 0; i < N; ++i) op(mc::fmt("Set(key#%d,%d)", i, v), [i, v](PHSys& s) { int k = nth(s.ma, i); int w = v * 16 + (s.ma[k] & 15); bool r; { T t(w); if(i & 1) r = LIB(s.a->Set(k, (const T&)t)); else r = LIB(s.a->Set(k, T(w))); } MC_CHECK(r, "Set returned false"); s.ma[k] = w; }, [i](const PHSys& s) { return i < (int)s.ma.size(); });
    }
    for(int i = 0; i < N; ++i) op(mc::fmt("Remove(key#%d)", i), [i](PHSys& s) { int k = nth(s.ma, i); bool r = LIB(s.a->Remove(k)); MC_CHECK(r, "Remove returned false"); s.ma.erase(k); }, [i](const PHSys& s) { return i < (int)s.ma.size(); });
    op("Pop", [](PHSys& s) { int v = (int)LIB(s.a->Pop()); gone(s, v, "Pop"); }, some);
    op("Discard", [](PHSys& s) { int v = (int)s.a->Peek(); LIB(s.a->Discard()); gone(s, v, "Peek"); }, some);
    op("Clear", [](PHSys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    op("a = b", [](PHSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
    op("a = a", [](PHSys& s) { Q& r = *s.a; LIB(*s.a = r); });
    op("b = A(a)", [](PHSys& s) { Q* n = LIB(new Q(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
    op("a = move(b)", [](PHSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); });
    op("b = A(move(a))", [](PHSys& s) { Q* n = LIB(new Q(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); });
  }
  static V drain(Q* q) { V g; while(!q->Empty()) g.push_back((int)q->Pop() >> 4); delete q; return g; }
  void one(Q& x, const M& m, const char* n) {
    MC_CHECK((size_t)x.Length() == m.size() && x.Empty() == m.empty(), "%s has length %d, expected %zu", n, (int)x.Length(), m.size());
    for(auto& p : m) MC_CHECK((int)x.Get(p.first) == p.second, "%s: key %d gives %d, expected %d", n, p.first, (int)x.Get(p.first), p.second);
    if(m.size()) MC_CHECK(((int)x.Peek() >> 4) == top(m), "%s: Peek is %d, expected %d", n, (int)x.Peek() >> 4, top(m));
    V e; for(auto& p : m) e.push_back(p.second >> 4); std::sort(e.begin(), e.end()); if(!MIN) std::reverse(e.begin(), e.end());
    V g = drain(new Q(x)); MC_CHECK(g == e, "%s pops [%s], expected [%s]", n, str(g).c_str(), str(e).c_str());
    for(auto& p : m) MC_CHECK(p.first >= 0 && p.first < 64, "%s: key %d although at most 6 elements were ever held", n, p.first);
  }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { for(auto* m : { &ma, &mb }) { k.word(m->size()); for(auto& p : *m) { k.word(p.first); k.word(p.second); } } k.object(a, sizeof(Q)); k.object(b, sizeof(Q)); }
};
template<class A, class T, bool MIN> void goph(mc::Ctx& c, int N, int K, int depth) { typedef PHSys<A, T, MIN> Y; Y::build(N, K); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(100000, 3000000); mc::bfs<Y>(c, o); }
MC_CONFIG("PriorityHeap<int>") { goph<PriorityHeap<int, size_t, CmpTag<int>>, int, false>(c, c.pick(4, 5), 3, c.pick(6, 8)); }
MC_CONFIG("PriorityHeap<Obj,min,SAFE>") { goph<PriorityHeap<mc::Obj, uint32_t, CmpTagInv<mc::Obj>, ARRAY_SAFE>, mc::Obj, true>(c, c.pick(4, 5), 2, c.pick(7, 9)); }
// keys are recycled: a long run with few elements never needs more than a few of them
MC_CONFIG("PriorityHeap: long runs") { mc::enumerate(c, [&](mc::Choose& ch) { typedef PriorityHeap<int, uint16_t> Q; Q* q = LIB(new Q()); int how = ch(5), n = 1 + ch(4); std::map<int, int> m; std::set<int> keys;
  for(int i = 0; i < 400; ++i) {
    if((int)m.size() < n) { int v = (i * 7) % 401; int k = LIB(q->Push(v)); MC_CHECK(!m.count(k), "round %d: Push returned key %d, which is in use", i, k); m[k] = v; keys.insert(k); }
    else { auto top = m.begin(); for(auto p = m.begin(); p != m.end(); ++p) if(p->second > top->second) top = p; MC_CHECK(q->Peek() == top->second, "round %d: Peek is %d, expected %d", i, q->Peek(), top->second);
      if(how == 0) { int v = LIB(q->Pop()); MC_CHECK(v == top->second, "round %d: Pop gave %d, expected %d", i, v, top->second); m.erase(top); } else if(how == 1) { int k = m.begin()->first; LIB(q->Remove(k)); m.erase(k); } else if(how == 2) { int k = m.rbegin()->first; LIB(q->Remove(k)); m.erase(k); } else if(how == 3) { LIB(q->Clear()); m.clear(); } else { LIB(q->Discard()); m.erase(top); } }
    for(auto& p : m) MC_CHECK(q->Get(p.first) == p.second, "round %d: key %d gives %d", i, p.first, q->Get(p.first)); }
  MC_CHECK(keys.size() <= 32, "%zu keys were used although at most %d elements were ever held: keys are not given back", keys.size(), n); c.outcome(keys.size()); delete q; }); }

// RandomQueue: every random choice of every history
struct Eng { typedef uint64_t result_type; uint64_t v = 0; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { return v; } };
template<class Q, class T> void rq(mc::Ctx& c, int len, int N) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    Q* q = LIB(new Q(ch(2) ? 2u : 0u)); S m; int n = 1;
    for(int i = 0; i < len; ++i) {
      int k = ch(5);
      if(k == 0) { if((int)m.size() < N) { if(n & 1) LIB(q->Push(T(n))); else { T t(n); LIB(q->Push((const T&)t)); } m.insert(n++); } }
      else if(k == 1) { if(m.size()) { Eng e; e.v = ~0ull / 4 * ch(4) + 12345; { T r = LIB(q->Pop(e)); int v = (int)r; MC_CHECK(m.count(v), "Pop gave %d, which is not in {%s}", v, str(m).c_str()); m.erase(v); } } }
      else if(k == 2) { if(m.size()) { int x = ch((int)m.size()); int v = (int)(q->begin()[x]); LIB(q->Remove(x)); m.erase(v); } }
      else if(k == 3) { LIB(q->Clear()); m.clear(); }
      else { Q* r; if(ch(2)) { r = LIB(new Q(*q)); *r += *q; MC_CHECK((size_t)r->Length() == 2 * m.size(), "+= gives length %d", (int)r->Length()); delete r; r = new Q(); LIB(*r = *q); } else r = LIB(new Q(std::move(*q))); delete q; q = r; }
      V g; for(auto& e : *q) g.push_back((int)e); MC_CHECK(S(g.begin(), g.end()) == m && (size_t)q->Length() == m.size() && q->Empty() == m.empty(), "the queue holds [%s], expected {%s}", str(g).c_str(), str(m).c_str());
    }
    c.outcome(str(m)); delete q;
  });
}
MC_CONFIG("RandomQueue<int>") { rq<RandomQueue<int>, int>(c, c.pick(6, 7), 3); }
MC_CONFIG("RandomQueue<Obj,SAFE>") { rq<RandomQueue<mc::Obj, uint32_t, ARRAY_SAFE>, mc::Obj>(c, c.pick(6, 7), 3); }
MC_CONFIG("RandomQueue: every element can be popped") { mc::enumerate(c, [&](mc::Choose& ch) { int n = 1 + ch(5); std::set<int> got; for(int j = 0; j < 64; ++j) { RandomQueue<int>* q = LIB(new RandomQueue<int>()); for(int i = 0; i < n; ++i) LIB(q->Push(i)); Eng e; e.v = (uint64_t)j << 58; got.insert(LIB(q->Pop(e))); delete q; } MC_CHECK((int)got.size() == n, "only %zu of %d elements can ever be popped", got.size(), n); c.outcome(n); }); }

// Large heaps: insertion orders of several kinds, sizes around the powers of two, then removals, changes of keys, copies and draining.
static std::vector<int> order(int kind, int n) { // a permutation of 0..n-1
  std::vector<int> v; static const int ST[] = { 3, 5, 7, 11, 13 };
  if(kind == 0) for(int i = 0; i < n; ++i) v.push_back(i); else if(kind == 1) for(int i = n; i-- > 0;) v.push_back(i);
  else if(kind == 2) for(int i = 0; i < n; ++i) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 3) for(int i = n; i-- > 0;) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 4) { int b = 0; while((1 << b) < n) ++b; for(int i = 0; i < (1 << b); ++i) { int r = 0; for(int k = 0; k < b; ++k) if(i >> k & 1) r |= 1 << (b - 1 - k); if(r < n) v.push_back(r); } }
  else { int s = ST[kind - 5]; for(int o = 0; o < s; ++o) for(int i = o; i < n; i += s) v.push_back(i); }
  return v;
}

static const int LNS[] = { 7, 8, 15, 16, 17, 33, 64, 65, 100 };
template<class T, bool MIN> static void largesorting(mc::Ctx& c) {
  mc::enumerate(c, [&](mc::Choose& ch) { int n = ch(c.pick(80, 200)), dv = ch(2) ? 4 : 1; auto in = order(ch(10), n); std::vector<T> g; V e; for(int v : in) { g.push_back(T(v / dv)); e.push_back(v / dv); } std::sort(e.begin(), e.end()); if(MIN) std::reverse(e.begin(), e.end());
    if constexpr(MIN) LIB(BinaryHeap<T, size_t, CompTInv<T>>::HeapSort(g.data(), (size_t)n)); else LIB(BinaryHeap<T>::HeapSort(g.data(), (size_t)n)); for(int i = 0; i < n; ++i) MC_CHECK((int)g[i] == e[i], "HeapSort of %d elements: %d at %d, expected %d", n, (int)g[i], i, e[i]); });
}
MC_CONFIG("large HeapSort<int>") { largesorting<int, false>(c); }
MC_CONFIG("large HeapSort<Obj,min>") { largesorting<mc::Obj, true>(c); }
template<class Q, class T, bool MIN> static void largepq(mc::Ctx& c) { typedef PQSys<Q, T, MIN> Y;
  mc::enumerate(c, [&](mc::Choose& ch) { int n = ch.of(LNS), dv = ch(2) ? 4 : 1; auto in = order(ch(10), n), out = order(ch(10), n); Y s; int k = 0;
    for(int v : in) { LIB(s.a->Push(T(v / dv), T(v))); s.ma.insert({ v / dv, v }); } s.check();
    for(int v : out) { if(k & 1) { int i = v % (int)s.ma.size(); Y::gone(s, (int)s.a->Get(i).first, (int)s.a->Get(i).second, "Get"); MC_CHECK(LIB(s.a->Remove(i)), "Remove"); } else { int w = Y::top(s.ma); auto p = LIB(s.a->Pop()); MC_CHECK((int)p.first == w, "Pop gave priority %d, expected %d", (int)p.first, w); Y::gone(s, (int)p.first, (int)p.second, "Pop"); } if(k++ % 7 == 0) s.one(*s.a, s.ma, "a"); }
    s.check(); });
}
MC_CONFIG("large PriorityQueue<int,int>") { largepq<PriorityQueue<int, int>, int, false>(c); }
MC_CONFIG("large PriorityQueue<Obj,Obj,min,SAFE>") { largepq<PriorityQueue<mc::Obj, mc::Obj, CompTInv<mc::Obj>, uint32_t, ARRAY_SAFE>, mc::Obj, true>(c); }
template<class Q, class T, bool MIN> static void largeph(mc::Ctx& c) {
  mc::enumerate(c, [&](mc::Choose& ch) { int n = ch.of(LNS), how = ch(4); auto in = order(ch(10), n), out = order(ch(10), n); Q* q = LIB(new Q()); std::map<int, int> m; V keys; int k = 0;
    auto check = [&] { MC_CHECK((size_t)q->Length() == m.size(), "length %d, expected %zu", (int)q->Length(), m.size()); int top = -1; for(auto& p : m) { MC_CHECK((int)q->Get(p.first) == p.second, "key %d gives %d, expected %d", p.first, (int)q->Get(p.first), p.second); int v = p.second >> 4; top = top < 0 ? v : MIN ? std::min(top, v) : std::max(top, v); } if(m.size()) MC_CHECK((int)q->Peek() >> 4 == top, "Peek is %d, expected %d", (int)q->Peek() >> 4, top); };
    for(int v : in) { int key = (int)LIB(q->Push(T(v * 16))); MC_CHECK(!m.count(key), "key %d handed out twice", key); m[key] = v * 16; keys.push_back(key); }
    check();
    for(int v : out) { int key = keys[v];
      if(how == 0) { MC_CHECK(LIB(q->Remove(key)), "Remove"); m.erase(key); } else if(how == 1) { LIB(q->Set(key, T(((v * 37) % 200) * 16))); m[key] = ((v * 37) % 200) * 16; }
      else if(how == 2) { MC_CHECK(LIB(q->Remove(key)), "Remove"); m.erase(key); if(k & 1) { int nk = (int)LIB(q->Push(T((n - v) * 16))); MC_CHECK(!m.count(nk), "key %d handed out twice", nk); m[nk] = (n - v) * 16; } }
      else { Q* r = LIB(new Q(*q)); if(k & 1) { LIB(delete q); q = r; } else { LIB(*q = *r); LIB(delete r); } if(k > 6) break; }
      if(k++ % 7 == 0) check(); }
    check(); V e; for(auto& p : m) e.push_back(p.second >> 4); std::sort(e.begin(), e.end()); if(!MIN) std::reverse(e.begin(), e.end()); for(int v : e) { int g = (int)LIB(q->Pop()) >> 4; MC_CHECK(g == v, "draining gave %d, expected %d", g, v); } LIB(delete q); });
}
MC_CONFIG("large PriorityHeap<int>") { largeph<PriorityHeap<int, size_t, CmpTag<int>>, int, false>(c); }
MC_CONFIG("large PriorityHeap<Obj,min,SAFE>") { largeph<PriorityHeap<mc::Obj, uint32_t, CmpTagInv<mc::Obj>, ARRAY_SAFE>, mc::Obj, true>(c); }
