// BUILD: seq
// ArrayCircular, Queue, Stack: every history of two containers against a deque.
#include "mc.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/Queue.h"
#include "bss-util/Stack.h"
using namespace bss;
enum { CIRC, QUEUE, STACK };
typedef std::deque<int> V; // front() = oldest
template<int KIND, class A, class T, bool COPY> struct Sys : mc::SysBase<Sys<KIND, A, T, COPY>> {
  typedef mc::SysBase<Sys> B; using B::op; A *a, *b; V ma, mb; int ca = 0, cb = 0;
  Sys() { a = LIB(new A()); b = LIB(new A()); }
  ~Sys() { delete a; delete b; }
  static void push(Sys& s, int v) { s.ma.push_back(v); if(KIND == CIRC && (int)s.ma.size() > s.ca) s.ma.pop_front(); }
  static void build(int N) {
    auto room = [N](const Sys& s) { return KIND == CIRC ? s.ca > 0 : (int)s.ma.size() < N; };
    auto some = [](const Sys& s) { return !s.ma.empty(); };
    for(int v = 1; v <= 2; ++v) op(mc::fmt("a.Push(%d)", v), [v](Sys& s) { LIB(s.a->Push(T(v))); push(s, v); }, room);
    if constexpr(COPY) op("a.Push(const&)", [](Sys& s) { { T t(3); LIB(s.a->Push((const T&)t)); MC_CHECK((int)t == 3, "Push(const T&) changed its argument"); } push(s, 3); }, room);
    if constexpr(KIND == CIRC) {
      op("a.Pop", [](Sys& s) { int v = (int)LIB(s.a->Pop()); MC_CHECK(v == s.ma.back(), "Pop gave %d, expected %d", v, s.ma.back()); s.ma.pop_back(); }, some);
      op("a.PopBack", [](Sys& s) { int v = (int)LIB(s.a->PopBack()); MC_CHECK(v == s.ma.front(), "PopBack gave %d, expected %d", v, s.ma.front()); s.ma.pop_front(); }, some);
      for(int n = 0; n <= N; ++n) op(mc::fmt("a.SetCapacity(%d)", n), [n](Sys& s) { LIB(s.a->SetCapacity(n)); if(n < s.ca) s.ma.clear(); s.ca = n; });
    } else {
      op("a.Pop", [](Sys& s) { int w = KIND == QUEUE ? s.ma.front() : s.ma.back(); int v = (int)LIB(s.a->Pop()); MC_CHECK(v == w, "Pop gave %d, expected %d", v, w); if(KIND == QUEUE) s.ma.pop_front(); else s.ma.pop_back(); }, some);
      op("a.Discard", [](Sys& s) { LIB(s.a->Discard()); if(KIND == QUEUE) s.ma.pop_front(); else s.ma.pop_back(); }, some);
      op("a.Peek()=4", [](Sys& s) { LIB((void)(s.a->Peek() = T(4))); (KIND == QUEUE ? s.ma.front() : s.ma.back()) = 4; }, some);
      op("a = A(3)", [](Sys& s) { A* n = LIB(new A(3)); delete s.a; s.a = n; s.ma.clear(); MC_CHECK(s.a->Capacity() >= 3, "capacity not reserved"); });
    }
    if constexpr(KIND == STACK && std::is_same<T, int>::value) for(int n = 0; n <= N; n += 2) op(mc::fmt("a.SetLength(%d)", n), [n](Sys& s) { int o = s.ma.size(); LIB(s.a->SetLength(n)); for(int i = o; i < n; ++i) (*s.a)[i] = 5; s.ma.resize(n, 5); });
    if constexpr(KIND == STACK && !std::is_same<T, int>::value) for(int n = 0; n <= N; n += 2) op(mc::fmt("a.SetLength(%d)", n), [n](Sys& s) { LIB(s.a->SetLength(n)); s.ma.resize(n, 0); });
    op("a.Clear", [](Sys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    op("a = move(b)", [](Sys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); s.ca = s.cb; s.cb = 0; MC_CHECK(s.b->Length() == 0, "moved-from container has length %d", (int)s.b->Length()); });
    op("b = A(move(a))", [](Sys& s) { A* n = LIB(new A(std::move(*s.a))); MC_CHECK(s.a->Length() == 0, "moved-from container has length %d", (int)s.a->Length()); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); s.cb = s.ca; s.ca = 0; });
    if constexpr(COPY) {
      op("a = b", [](Sys& s) { LIB(*s.a = *s.b); s.ma = s.mb; s.ca = s.cb; });
      op("a = a", [](Sys& s) { A& r = *s.a; LIB(*s.a = r); });
      op("b = A(a)", [](Sys& s) { A* n = LIB(new A(*s.a)); delete s.b; s.b = n; s.mb = s.ma; s.cb = s.ca; });
    }
  }
  static std::string str(const V& m) { std::string w; for(int v : m) w += mc::fmt("%d ", v); return w; }
  void one(A& x, const V& m, int cap, const char* n) {
    const A& cx = x; int L = (int)m.size();
    MC_CHECK((int)x.Length() == L, "%s has length %d, expected %d", n, (int)x.Length(), L);
    MC_CHECK(x.Capacity() >= x.Length(), "%s: capacity below length", n);
    if constexpr(KIND == CIRC) {
      MC_CHECK((int)x.Capacity() == cap, "%s has capacity %d, expected %d", n, (int)x.Capacity(), cap);
      V g; for(int i = L - 1; i >= 0; --i) { g.push_back((int)x[i]); MC_CHECK((int)cx[i] == g.back(), "const operator[] differs"); }
      MC_CHECK(g == m, "%s holds [%s], expected [%s] (oldest first)", n, str(g).c_str(), str(m).c_str());
      V h; for(auto it = x.begin(); it != x.end(); ++it) { h.push_front((int)*it); MC_CHECK((int)h.size() <= L, "iteration runs past the end"); }
      MC_CHECK(h == m, "%s: iteration gives [%s] for [%s]", n, str(h).c_str(), str(m).c_str());
      if(L) MC_CHECK((int)x.Front() == m.back() && (int)cx.Front() == m.back() && (int)x.Back() == m.front() && (int)cx.Back() == m.front(), "%s: Front/Back wrong for [%s]", n, str(m).c_str());
    }
    if constexpr(KIND == QUEUE) { MC_CHECK(x.Empty() == !L, "Empty"); if(L) MC_CHECK((int)x.Peek() == m.front() && (int)cx.Peek() == m.front(), "%s: Peek is %d, expected %d", n, (int)x.Peek(), m.front()); }
    if constexpr(KIND == STACK) { for(int i = 0; i < L; ++i) MC_CHECK((int)x[i] == m[i] && (int)cx[i] == m[i], "%s[%d] is %d in [%s]", n, i, (int)x[i], str(m).c_str()); if(L) MC_CHECK((int)x.Peek() == m.back() && (int)cx.Peek() == m.back(), "%s: Peek is %d, expected %d", n, (int)x.Peek(), m.back()); }
  }
  void check() { one(*a, ma, ca, "a"); one(*b, mb, cb, "b"); }
  void key(mc::Key& k) { k.seq(ma); k.seq(mb); k.object(a, sizeof(A)); k.object(b, sizeof(A)); }
};
template<int KIND, class A, class T, bool COPY> void go(mc::Ctx& c, int N, int depth) { typedef Sys<KIND, A, T, COPY> S; S::build(N); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(300000, 3000000); mc::bfs<S>(c, o); }
// drains: after every push/pop history of one queue, popping everything yields the pushed order (Queue hides its inside)
template<class A, class T, int KIND> void drain(mc::Ctx& c, int len) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    A* q = LIB(new A((size_t)ch(3))); V m; int n = 1;
    for(int i = 0; i < len; ++i) { int k = ch(3); if(k == 0) { LIB(q->Push(T(n))); m.push_back(n++); } else if(m.size()) { int w = KIND == QUEUE ? m.front() : m.back(); if(k == 1) { int v = (int)LIB(q->Pop()); MC_CHECK(v == w, "Pop gave %d, expected %d", v, w); } else LIB(q->Discard()); if(KIND == QUEUE) m.pop_front(); else m.pop_back(); } }
    c.outcome(mc::fmt("%zu %d", m.size(), n));
    while(m.size()) { int w = KIND == QUEUE ? m.front() : m.back(); int v = (int)LIB(q->Pop()); MC_CHECK(v == w, "draining: Pop gave %d, expected %d", v, w); if(KIND == QUEUE) m.pop_front(); else m.pop_back(); }
    MC_CHECK(q->Length() == 0, "length after draining"); delete q;
  });
}
MC_CONFIG("ArrayCircular<int>") { go<CIRC, ArrayCircular<int>, int, true>(c, c.pick(4, 5), c.pick(8, 9)); }
MC_CONFIG("ArrayCircular<Rel,CONSTRUCT>") { go<CIRC, ArrayCircular<mc::Rel, ptrdiff_t, ARRAY_CONSTRUCT>, mc::Rel, true>(c, c.pick(4, 5), c.pick(8, 9)); }
MC_CONFIG("ArrayCircular<Obj,SAFE>") { go<CIRC, ArrayCircular<mc::Obj, ptrdiff_t, ARRAY_SAFE>, mc::Obj, true>(c, c.pick(4, 5), c.pick(8, 9)); }
MC_CONFIG("ArrayCircular<MoveOnly,MOVE>") { go<CIRC, ArrayCircular<mc::MoveOnly, int, ARRAY_MOVE>, mc::MoveOnly, false>(c, c.pick(4, 5), c.pick(9, 10)); }
MC_CONFIG("Queue<int>") { go<QUEUE, Queue<int>, int, true>(c, c.pick(5, 6), c.pick(7, 9)); }
MC_CONFIG("Queue<Obj,SAFE>") { go<QUEUE, Queue<mc::Obj, ptrdiff_t, ARRAY_SAFE>, mc::Obj, true>(c, c.pick(5, 6), c.pick(7, 9)); }
MC_CONFIG("Stack<int>") { go<STACK, Stack<int>, int, true>(c, c.pick(4, 6), c.pick(6, 8)); }
MC_CONFIG("Stack<Obj,SAFE>") { go<STACK, Stack<mc::Obj, size_t, ARRAY_SAFE>, mc::Obj, true>(c, c.pick(4, 6), c.pick(6, 8)); }
MC_CONFIG("Queue<Obj,SAFE>: long histories") { drain<Queue<mc::Obj, ptrdiff_t, ARRAY_SAFE>, mc::Obj, QUEUE>(c, c.pick(10, 12)); }
MC_CONFIG("Queue<int,short>: long histories") { drain<Queue<int, short>, int, QUEUE>(c, c.pick(11, 13)); }
MC_CONFIG("Stack<MoveOnly,MOVE>: long histories") { drain<Stack<mc::MoveOnly, size_t, ARRAY_MOVE>, mc::MoveOnly, STACK>(c, c.pick(10, 12)); }

// Large queues, stacks and rings: start lengths around the powers of two, the ring offset by every small number, then every pair of operations.
template<int KIND, class A, class T, bool COPY> static void large(mc::Ctx& c) {
  static const int NS[] = { 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257 };
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch.of(NS), off = ch(4) * (n / 3); A* a = LIB(new A()); V m; int cap = 0, nx = 1;
    auto push = [&] { int v = nx++ % 120; LIB(a->Push(T(v))); m.push_back(v); if(KIND == CIRC && (int)m.size() > cap) m.pop_front(); };
    auto pop = [&](bool old) { if(m.empty()) return; int w = old ? m.front() : m.back(), v; if constexpr(KIND == CIRC) v = old ? (int)LIB(a->PopBack()) : (int)LIB(a->Pop()); else v = (int)LIB(a->Pop()); MC_CHECK(v == w, "Pop gave %d, expected %d", v, w); if(old) m.pop_front(); else m.pop_back(); };
    if constexpr(KIND == CIRC) { LIB(a->SetCapacity(n)); cap = n; }
    for(int i = 0; i < off; ++i) { push(); if(i & 1) pop(KIND != STACK); }
    for(int i = 0; i < n; ++i) push();
    for(int st = 0; st < 2; ++st) {
      int L = (int)m.size();
      switch(ch(COPY ? 7 : 5)) {
      case 0: for(int i = ch(3) * L / 2 + 1; i > 0; --i) push(); break;
      case 1: for(int i = ch(3) * L / 2 + 1; i > 0; --i) pop(KIND != STACK); break;
      case 2: if constexpr(KIND == CIRC) { for(int i = ch(2) * L / 2 + 1; i > 0; --i) pop(false); int k[] = { cap + 1, cap * 2, cap + 7, cap, cap - 1 }; int q = k[ch(5)]; LIB(a->SetCapacity(q)); if(q < cap) m.clear(); cap = q; } else { for(int i = 0; i < 40; ++i) { push(); pop(KIND != STACK); } } break;
      case 3: { A* b = LIB(new A(std::move(*a))); LIB(delete a); a = b; break; }
      case 4: { A* b = LIB(new A()); if constexpr(KIND == CIRC) LIB(b->SetCapacity(5)); for(int i = 0; i < 5; ++i) LIB(b->Push(T(i))); LIB(*b = std::move(*a)); LIB(delete a); a = b; break; }
      case 5: if constexpr(COPY) { A* b = LIB(new A(*a)); LIB(delete a); a = b; } break;
      default: if constexpr(COPY) { A* b = LIB(new A()); if constexpr(KIND == CIRC) LIB(b->SetCapacity(5)); for(int i = 0; i < 5; ++i) LIB(b->Push(T(i))); LIB(*b = *a); LIB(delete a); a = b; }
      }
      MC_CHECK((size_t)a->Length() == m.size() && a->Capacity() >= a->Length(), "length %d, expected %zu", (int)a->Length(), m.size());
      if constexpr(KIND == CIRC) for(size_t i = 0; i < m.size(); ++i) MC_CHECK((int)(*a)[(int)i] == m[m.size() - 1 - i], "element %zu is wrong", i);
    }
    while(m.size()) pop(KIND != STACK);
    MC_CHECK(a->Length() == 0, "not empty after draining"); LIB(delete a);
  });
}
MC_CONFIG("large ArrayCircular<int>") { large<CIRC, ArrayCircular<int>, int, true>(c); }
MC_CONFIG("large ArrayCircular<Obj,SAFE>") { large<CIRC, ArrayCircular<mc::Obj, ptrdiff_t, ARRAY_SAFE>, mc::Obj, true>(c); }
MC_CONFIG("large Queue<int>") { large<QUEUE, Queue<int>, int, true>(c); }
MC_CONFIG("large Queue<MoveOnly,MOVE>") { large<QUEUE, Queue<mc::MoveOnly, ptrdiff_t, ARRAY_MOVE>, mc::MoveOnly, false>(c); }
MC_CONFIG("large Stack<Obj,SAFE>") { large<STACK, Stack<mc::Obj, size_t, ARRAY_SAFE>, mc::Obj, true>(c); }
