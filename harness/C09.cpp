// BUILD: seq
// LinkedList, LinkedArray and the intrusive list helpers: every history against a list.
#include "mc.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/BlockAlloc.h"
using namespace bss;
typedef std::vector<int> V;
static std::string str(const V& m) { std::string w; for(int v : m) w += mc::fmt("%d ", v); return w; }
template<class L, class T, bool LAST, bool SIZE> struct LSys : mc::SysBase<LSys<L, T, LAST, SIZE>> {
  typedef mc::SysBase<LSys> B; using B::op; static std::function<L*()> mk; L* a; V m; std::vector<LLNode<T>*> nodes; static int K; static bool POOLED;
  LSys() { a = LIB(mk()); }
  ~LSys() { delete a; }
  // Add goes to the end with a tail pointer, to the front without one
  static void add(LSys& s, int v, LLNode<T>* n) { if(LAST) { s.m.push_back(v); s.nodes.push_back(n); } else { s.m.insert(s.m.begin(), v); s.nodes.insert(s.nodes.begin(), n); } }
  static void build(int N, int k) {
    K = k; auto room = [N](const LSys& s) { return (int)s.m.size() < N; };
    for(int v = 1; v <= k; ++v) {
      op(mc::fmt("Add(%d)", v), [v](LSys& s) { LLNode<T>* n = LIB(s.a->Add(T(v))); add(s, v, n); }, room);
      op(mc::fmt("Insert(%d)", v), [v](LSys& s) { LLNode<T>* n = LIB(s.a->Insert(T(v))); s.m.insert(s.m.begin(), v); s.nodes.insert(s.nodes.begin(), n); }, room);
      op(mc::fmt("Insert(%d,null)", v), [v](LSys& s) { LLNode<T>* n = LIB(s.a->Insert(T(v), nullptr)); add(s, v, n); }, room);
      for(int i = 0; i < N; ++i) op(mc::fmt("Insert(%d,#%d)", v, i), [v, i](LSys& s) { LLNode<T>* n = LIB(s.a->Insert(T(v), s.nodes[i])); s.m.insert(s.m.begin() + i, v); s.nodes.insert(s.nodes.begin() + i, n); }, [N, i](const LSys& s) { return i < (int)s.m.size() && (int)s.m.size() < N; });
    }
    for(int i = 0; i < N; ++i) {
      auto has = [i](const LSys& s) { return i < (int)s.m.size(); };
      op(mc::fmt("Remove(#%d)", i), [i](LSys& s) { LIB(s.a->Remove(s.nodes[i])); s.m.erase(s.m.begin() + i); s.nodes.erase(s.nodes.begin() + i); }, has);
      op(mc::fmt("Remove(iter %d)", i), [i](LSys& s) { auto it = s.a->begin(); for(int j = 0; j < i; ++j) ++it; LIB(s.a->Remove(it)); s.m.erase(s.m.begin() + i); s.nodes.erase(s.nodes.begin() + i); }, has);
      for(int bw = 0; bw < 2; ++bw) op(mc::fmt("Remove(#%d,%d)", i, bw), [i, bw](LSys& s) { LLNode<T>* w = bw ? (i ? s.nodes[i - 1] : nullptr) : (i + 1 < (int)s.nodes.size() ? s.nodes[i + 1] : nullptr); LLNode<T>* r = LIB(s.a->Remove(s.nodes[i], (bool)bw)); MC_CHECK(r == w, "Remove(node, %d) returned the wrong neighbour", bw); s.m.erase(s.m.begin() + i); s.nodes.erase(s.nodes.begin() + i); }, has);
    }
    op("Remove(null)", [](LSys& s) { MC_CHECK(!LIB(s.a->Remove(nullptr, false)), "Remove(null)"); });
    op("Clear", [](LSys& s) { LIB(s.a->Clear()); s.m.clear(); s.nodes.clear(); });
    op("+= (1 2)", [](LSys& s) { L* o = LIB(mk()); LIB(o->Add(T(1))); LIB(o->Add(T(2))); V ov; for(auto n = o->Front(); n; n = n->next) ov.push_back((int)n->item); LIB(*s.a += *o); for(int v : ov) { add(s, v, nullptr); } delete o; // the new nodes are those not seen before
      std::vector<LLNode<T>*> now; for(auto n = s.a->Front(); n && now.size() < 20; n = n->next) now.push_back(n); MC_CHECK(now.size() == s.nodes.size(), "+= gives %zu elements, expected %zu", now.size(), s.nodes.size()); for(size_t i = 0; i < now.size(); ++i) if(!s.nodes[i]) s.nodes[i] = now[i]; }, [N](const LSys& s) { return !POOLED && (int)s.m.size() + 2 <= N; });
    op("+= itself", [](LSys& s) { L* o = s.a; V ov; for(auto n = o->Front(); n; n = n->next) ov.push_back((int)n->item); LIB(*s.a += *o); for(int v : ov) { add(s, v, nullptr); } // the new nodes are those not seen before
      std::vector<LLNode<T>*> now; for(auto n = s.a->Front(); n && now.size() < 20; n = n->next) now.push_back(n); MC_CHECK(now.size() == s.nodes.size(), "+= gives %zu elements, expected %zu", now.size(), s.nodes.size()); for(size_t i = 0; i < now.size(); ++i) if(!s.nodes[i]) s.nodes[i] = now[i]; }, [N](const LSys& s) { return (int)s.m.size() * 2 <= N; });
  }
  void check() {
    V g; LLNode<T>* p = nullptr; size_t i = 0;
    for(LLNode<T>* n = a->Front(); n; n = n->next) { MC_CHECK(i < nodes.size() && n == nodes[i], "node %zu is not the expected one in [%s]", i, str(m).c_str()); MC_CHECK(n->prev == p, "prev of node %zu is wrong", i); g.push_back((int)n->item); p = n; ++i; }
    MC_CHECK(g == m, "list holds [%s], expected [%s]", str(g).c_str(), str(m).c_str());
    V h; for(auto it = a->begin(); it != a->end(); ++it) h.push_back((int)*it); MC_CHECK(h == m, "iteration gives [%s]", str(h).c_str());
    if(p) { h.clear(); LLIter<T> it(p); while(!!it) { MC_CHECK(it.IsValid() && it == LLIter<T>(it.cur) && it != LLIter<T>(), "iterator comparison"); LLIter<T> o = it.cur->prev ? it-- : LLIter<T>(it.cur); h.insert(h.begin(), (int)*o); if(o == it) break; } MC_CHECK(h == m, "backward iteration gives [%s]", str(h).c_str());
      h.clear(); for(LLIter<T> jt(a->Front()); jt.IsValid(); ) { LLIter<T> o = jt++; h.push_back((int)*o.operator->()); if(jt.IsValid()) { LLIter<T> b = jt; MC_CHECK(--b == o, "-- does not undo ++"); } } MC_CHECK(h == m, "postfix iteration gives [%s]", str(h).c_str()); }
    if constexpr(LAST) MC_CHECK(a->Back() == p, "Back is not the last node of [%s]", str(m).c_str());
    if constexpr(SIZE) MC_CHECK(a->Length() == m.size(), "Length is %zu, expected %zu", a->Length(), m.size());
    for(int v = 1; v <= K + 1; ++v) for(int f = -1; f < (int)m.size(); ++f) for(int bw = 0; bw < (LAST && f >= 0 ? 2 : 1); ++bw) {
      LLNode<T>* w = nullptr; int n = (int)m.size(), st = f < 0 ? 0 : f; for(int j = 0; j < n; ++j) { int q = bw ? ((st - j) % n + n) % n : (st + j) % n; if(m[q] == v) { w = nodes[q]; break; } }
      LLNode<T>* r; if constexpr(LAST) r = a->Item(T(v), f < 0 ? nullptr : nodes[f], (bool)bw); else r = a->Item(T(v), f < 0 ? nullptr : nodes[f]);
      MC_CHECK(r == w, "Item(%d) from %d backwards %d is wrong in [%s]", v, f, bw, str(m).c_str());
    }
  }
  void key(mc::Key& k) { k.seq(m); k.object(a, sizeof(L)); }
};
template<class L, class T, bool A, bool S> std::function<L*()> LSys<L, T, A, S>::mk;
template<class L, class T, bool A, bool S> int LSys<L, T, A, S>::K;
template<class L, class T, bool A, bool S> bool LSys<L, T, A, S>::POOLED = false;
template<class T, bool A, bool S> void gol(mc::Ctx& c, int N, int K, int d) { typedef LinkedList<T, StandardAllocator<LLNode<T>>, A, S> L; typedef LSys<L, T, A, S> Y; Y::mk = [] { return new L(); }; Y::build(N, K); mc::BfsOpt o; o.depth = d; o.maxstates = c.pick(200000, 3000000); mc::bfs<Y>(c, o); }
MC_CONFIG("LinkedList<int,last,size>") { gol<int, true, true>(c, c.pick(5, 6), 3, 20); }
MC_CONFIG("LinkedList<int>") { gol<int, false, false>(c, c.pick(5, 6), 3, 20); }
MC_CONFIG("LinkedList<Obj,size>") { gol<mc::Obj, false, true>(c, c.pick(5, 6), 3, 20); }
MC_CONFIG("LinkedList<Obj,last>") { gol<mc::Obj, true, false>(c, c.pick(5, 6), 3, 20); }
MC_CONFIG("LinkedList<int,pooled>") { typedef LinkedList<int, PolymorphicAllocator<LLNode<int>, BlockPolicy>, true, true> L; typedef LSys<L, int, true, true> Y; static BlockPolicy<LLNode<int>>* p = nullptr; Y::mk = [] { delete p; p = new BlockPolicy<LLNode<int>>(4); return new L(p); }; Y::POOLED = true; Y::build(c.pick(4, 5), 2); mc::BfsOpt o; o.depth = c.pick(9, 10); o.leakcheck = false; mc::bfs<Y>(c, o); }

template<class A, class T> struct ASys : mc::SysBase<ASys<A, T>> {
  typedef mc::SysBase<ASys> B; using B::op; typedef typename A::CT_ CT; A *a, *b; V ma, mb; std::vector<CT> ia, ib; // values and their indices, in list order
  ASys() { a = LIB(new A()); b = LIB(new A((CT)2)); }
  ~ASys() { delete a; delete b; }
  static void put(ASys& s, int pos, int v, CT i) { for(CT x : s.ia) MC_CHECK(x != i, "index %d handed out twice", (int)i); s.ma.insert(s.ma.begin() + pos, v); s.ia.insert(s.ia.begin() + pos, i); }
  static void build(int N, int K, bool two) {
    auto room = [N](const ASys& s) { return (int)s.ma.size() < N; };
    for(int v = 1; v <= K; ++v) {
      op(mc::fmt("Add(%d)", v), [v](ASys& s) { CT i; if(v & 1) i = LIB(s.a->Add(T(v))); else { T t(v); i = LIB(s.a->Add((const T&)t)); MC_CHECK((int)t == v, "Add changed its argument"); } put(s, (int)s.ma.size(), v, i); }, room);
      op(mc::fmt("InsertAfter(%d,-1)", v), [v](ASys& s) { CT i = LIB(s.a->InsertAfter(T(v), (CT)-1)); put(s, (int)s.ma.size(), v, i); }, room);
      op(mc::fmt("InsertBefore(%d,-1)", v), [v](ASys& s) { CT i = LIB(s.a->InsertBefore(T(v), (CT)-1)); put(s, (int)s.ma.size(), v, i); }, room);
      for(int p = 0; p < N; ++p) {
        auto has = [N, p](const ASys& s) { return p < (int)s.ma.size() && (int)s.ma.size() < N; };
        op(mc::fmt("InsertBefore(%d,#%d)", v, p), [v, p](ASys& s) { T t(v); CT i = (v & 1) ? LIB(s.a->InsertBefore((const T&)t, s.ia[p])) : LIB(s.a->InsertBefore(T(v), s.ia[p])); put(s, p, v, i); }, has);
        op(mc::fmt("InsertAfter(%d,#%d)", v, p), [v, p](ASys& s) { T t(v); CT i = (v & 1) ? LIB(s.a->InsertAfter(T(v), s.ia[p])) : LIB(s.a->InsertAfter((const T&)t, s.ia[p])); put(s, p + 1, v, i); }, has);
      }
    }
    for(int p = 0; p < N; ++p) {
      auto has = [p](const ASys& s) { return p < (int)s.ma.size(); };
      op(mc::fmt("Remove(#%d)", p), [p](ASys& s) { int v = (int)LIB(s.a->Remove(s.ia[p])); MC_CHECK(v == s.ma[p], "Remove returned %d, expected %d", v, s.ma[p]); s.ma.erase(s.ma.begin() + p); s.ia.erase(s.ia.begin() + p); }, has);
      op(mc::fmt("iterator %d .Remove", p), [p](ASys& s) { auto it = s.a->begin(); for(int j = 0; j < p; ++j) ++it; LIB((it++).Remove()); s.ma.erase(s.ma.begin() + p); s.ia.erase(s.ia.begin() + p); }, has);
      op(mc::fmt("a[#%d] = 9", p), [p](ASys& s) { LIB((void)((*s.a)[s.ia[p]] = T(9))); s.ma[p] = 9; }, has);
    }
    op("Clear", [](ASys& s) { LIB(s.a->Clear()); s.ma.clear(); s.ia.clear(); });
    op("SetCapacity(N-1)", [N](ASys& s) { LIB(s.a->SetCapacity(N - 1)); MC_CHECK((int)s.a->Capacity() >= N - 1, "SetCapacity"); });
    if(two) {
      op("a = b", [](ASys& s) { LIB(*s.a = *s.b); s.ma = s.mb; s.ia = s.ib; });
      op("a = a", [](ASys& s) { A& r = *s.a; LIB(*s.a = r); });
      op("b = A(a)", [](ASys& s) { A* n = LIB(new A(*s.a)); delete s.b; s.b = n; s.mb = s.ma; s.ib = s.ia; });
      op("a = move(b)", [](ASys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.ia = s.ib; s.mb.clear(); s.ib.clear(); });
      op("b = A(move(a))", [](ASys& s) { A* n = LIB(new A(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ib = s.ia; s.ma.clear(); s.ia.clear(); });
    }
  }
  void one(A& x, const V& m, const std::vector<CT>& idx, const char* n) {
    const A& cx = x;
    MC_CHECK((size_t)x.Length() == m.size() && x.Capacity() >= x.Length(), "%s has length %d, expected %zu", n, (int)x.Length(), m.size());
    V g; size_t i = 0; for(CT p = x.Front(); p != (CT)-1; x.Next(p), ++i) { MC_CHECK(i < m.size() && p == idx[i], "%s: position %zu has index %d", n, i, (int)p); g.push_back((int)x[p]); MC_CHECK((int)cx[p] == g.back() && (int)*x.GetItemPtr(p) == g.back(), "access differs"); }
    MC_CHECK(g == m, "%s holds [%s], expected [%s]", n, str(g).c_str(), str(m).c_str());
    g.clear(); for(CT p = x.Back(); p != (CT)-1; x.Prev(p)) { g.push_back((int)x[p]); MC_CHECK(g.size() <= m.size(), "%s: backward walk does not end", n); } std::reverse(g.begin(), g.end()); MC_CHECK(g == m, "%s backwards holds [%s], expected [%s]", n, str(g).c_str(), str(m).c_str());
    g.clear(); for(auto it = x.begin(); it != x.end(); ++it) g.push_back((int)*it); MC_CHECK(g == m, "%s: iteration", n);
    g.clear(); for(auto it = cx.begin(); it != cx.end(); it++) g.push_back((int)*it); MC_CHECK(g == m, "%s: const iteration", n);
  }
  void check() { one(*a, ma, ia, "a"); one(*b, mb, ib, "b"); }
  void key(mc::Key& k) { k.seq(ma); k.seq(mb); k.seq(ia); k.seq(ib); k.word(a->Capacity()); k.word(b->Capacity()); if(std::is_same<T, int>::value) { k.object(a, sizeof(A)); k.object(b, sizeof(A)); } }
};
template<class A, class T> void goa(mc::Ctx& c, int N, int K, bool two, int d) { typedef ASys<A, T> Y; Y::build(N, K, two); mc::BfsOpt o; o.depth = d; o.maxstates = c.pick(200000, 3000000); mc::bfs<Y>(c, o); }
MC_CONFIG("LinkedArray<int>") { goa<LinkedArray<int>, int>(c, c.pick(4, 5), 2, false, c.pick(7, 9)); }
MC_CONFIG("LinkedArray<int>: two") { goa<LinkedArray<int>, int>(c, c.pick(3, 4), 1, true, c.pick(9, 10)); }
MC_CONFIG("LinkedArray<Obj,SAFE>") { goa<LinkedArray<mc::Obj, unsigned, ARRAY_SAFE>, mc::Obj>(c, c.pick(4, 5), 2, false, c.pick(9, 10)); }
MC_CONFIG("LinkedArray<Obj,SAFE>: two") { goa<LinkedArray<mc::Obj, unsigned, ARRAY_SAFE>, mc::Obj>(c, c.pick(3, 4), 1, true, c.pick(9, 10)); }

// intrusive helpers
struct Nd : LLBase<Nd> { int id; };
static LLBase<Nd>& alt(Nd* n) { return *n; }
MC_CONFIG("LLBase helpers") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    Nd pool[5]; V m; Nd *root = nullptr, *last = nullptr; for(int i = 0; i < 5; ++i) { pool[i].id = i; pool[i].next = pool[i].prev = (Nd*)8; }
    for(int step = 0; step < c.pick(5, 6); ++step) {
      int k = ch(7); int fr = -1; for(int i = 0; i < 5 && fr < 0; ++i) if(std::find(m.begin(), m.end(), i) == m.end()) fr = i;
      if(k < 5 && (fr < 0)) continue;
      Nd* n = fr < 0 ? nullptr : &pool[fr];
      if(k == 0) { LLAdd<Nd>(n, root, last); m.insert(m.begin(), fr); }
      else if(k == 1) { LLAddAfter<Nd>(n, root, last); m.push_back(fr); }
      else if(k == 2) { if(m.empty()) continue; int p = ch(m.size()); if(p && ch(2)) LLInsert<Nd>(n, &pool[m[p]]); else LLInsert<Nd>(n, &pool[m[p]], root); m.insert(m.begin() + p, fr); }
      else if(k == 3) { if(m.empty()) continue; int p = ch(m.size()); if(p + 1 < (int)m.size() && ch(2)) LLInsertAfter<Nd>(n, &pool[m[p]]); else LLInsertAfter<Nd>(n, &pool[m[p]], last); m.insert(m.begin() + p + 1, fr); }
      else if(k == 4) { if(m.empty()) { AltLLAdd<Nd, &alt>(n, root); last = n; } else { if(ch(2)) { last = LLAddAfter<Nd>(n, last); m.push_back(fr); fr = -1; } else if(ch(2)) { LLAdd<Nd>(n, root); } else AltLLAdd<Nd, &alt>(n, root); } if(fr >= 0) m.insert(m.begin(), fr); }
      else if(k == 5) { if(m.empty()) continue; int p = ch(m.size()); LLRemove<Nd>(&pool[m[p]], root, last); m.erase(m.begin() + p); }
      else { if(m.empty()) continue; int p = ch(m.size()); Nd* q = &pool[m[p]]; if(last == q) last = q->prev; int w = ch(p ? 3 : 2); if(w == 2) LLRemove<Nd>(q); else if(w) LLRemove<Nd>(q, root); else AltLLRemove<Nd, &alt>(q, root); m.erase(m.begin() + p); }
      V g, h; Nd* pv = nullptr; for(Nd* x = root; x; x = x->next) { MC_CHECK(x->prev == pv, "prev link wrong"); pv = x; g.push_back(x->id); MC_CHECK(g.size() <= 5, "cyclic"); }
      MC_CHECK(last == pv, "last is wrong in [%s]", str(m).c_str()); MC_CHECK(g == m, "list is [%s], expected [%s]", str(g).c_str(), str(m).c_str());
      for(LLIterator<Nd> it(root); it.IsValid(); ++it) h.push_back((*it)->id); MC_CHECK(h == m, "iterator"); h.clear(); for(LLIterator<Nd> it(last), e; it != e; it--) { h.insert(h.begin(), it->id); MC_CHECK(!(it == e) && !!it && it == LLIterator<Nd>(*it), "iterator comparison"); if(it->next) { LLIterator<Nd> x = it; MC_CHECK((x++) == it && *x == it->next && *--x == *it, "iterator steps"); } } MC_CHECK(h == m, "backward iterator"); c.outcome(str(m));
    }
  });
}

// Long lists: insertion positions and removal orders of several kinds.
static std::vector<int> order(int kind, int n) { // a permutation of 0..n-1
  std::vector<int> v; static const int ST[] = { 3, 5, 7, 11, 13 };
  if(kind == 0) for(int i = 0; i < n; ++i) v.push_back(i); else if(kind == 1) for(int i = n; i-- > 0;) v.push_back(i);
  else if(kind == 2) for(int i = 0; i < n; ++i) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 3) for(int i = n; i-- > 0;) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 4) { int b = 0; while((1 << b) < n) ++b; for(int i = 0; i < (1 << b); ++i) { int r = 0; for(int k = 0; k < b; ++k) if(i >> k & 1) r |= 1 << (b - 1 - k); if(r < n) v.push_back(r); } }
  else { int s = ST[kind - 5]; for(int o = 0; o < s; ++o) for(int i = o; i < n; i += s) v.push_back(i); }
  return v;
}

template<class T, bool LAST, bool SIZE> static void longlist(mc::Ctx& c) { typedef LinkedList<T, StandardAllocator<LLNode<T>>, LAST, SIZE> L; typedef LSys<L, T, LAST, SIZE> Y; Y::mk = [] { return new L(); };
  mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 9, 16, 33, 64 }; int n = ch.of(NS), how = ch(4); auto out = order(ch(10), n); Y s; Y::K = 0;
    for(int i = 0; i < n; ++i) { int p = how == 0 ? (int)s.m.size() : how == 1 ? 0 : how == 2 ? (int)s.m.size() / 2 : (int)s.m.size() * (i % 4) / 3; int v = i % 100; LLNode<T>* nd; if(p == (int)s.m.size() && (LAST || s.m.empty())) nd = LIB(s.a->Add(T(v))); else { if(p == (int)s.m.size()) --p; nd = LIB(s.a->Insert(T(v), s.nodes[p])); } s.m.insert(s.m.begin() + p, v); s.nodes.insert(s.nodes.begin() + p, nd); }
    s.check(); auto all = s.nodes; int k = 0;
    for(int o : out) { auto nd = all[o]; int i = (int)(std::find(s.nodes.begin(), s.nodes.end(), nd) - s.nodes.begin()); LIB(s.a->Remove(nd)); s.nodes.erase(s.nodes.begin() + i); s.m.erase(s.m.begin() + i); if(k++ % 5 == 0) s.check(); }
    s.check(); });
}
MC_CONFIG("long LinkedList<int,last,size>") { longlist<int, true, true>(c); }
MC_CONFIG("long LinkedList<Obj>") { longlist<mc::Obj, false, false>(c); }
template<class A, class T> static void longarray(mc::Ctx& c) { typedef ASys<A, T> Y; typedef typename A::CT_ CT;
  mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 9, 16, 33, 64, 100 }; int n = ch.of(NS), how = ch(4), copy = ch(3); auto out = order(ch(10), n); Y s; 
    auto put = [&](int i) { int p = how == 0 ? (int)s.ma.size() : how == 1 ? 0 : how == 2 ? (int)s.ma.size() / 2 : (int)s.ma.size() * (i % 4) / 3; int v = i % 100; CT x = p == (int)s.ma.size() ? LIB(s.a->Add(T(v))) : LIB(s.a->InsertBefore(T(v), s.ia[p])); Y::put(s, p, v, x); };
    for(int i = 0; i < n; ++i) put(i);
    s.check(); auto all = s.ia; int k = 0;
    for(int o : out) { CT x = all[o]; auto f = std::find(s.ia.begin(), s.ia.end(), x); int i = (int)(f - s.ia.begin()); int v = (int)LIB(s.a->Remove(x)); MC_CHECK(v == s.ma[i], "Remove gave %d, expected %d", v, s.ma[i]); s.ia.erase(f); s.ma.erase(s.ma.begin() + i); if(k++ % 5 == 0) s.check(); if(k == n / 2) break; }
    if(copy == 1) { LIB(*s.b = *s.a); s.mb = s.ma; s.ib = s.ia; } else if(copy == 2) { A* q = LIB(new A(*s.a)); LIB(delete s.a); s.a = q; }
    for(int i = 0; i < n; ++i) put(i + 50); // the holes are filled again
    s.check(); });
}
MC_CONFIG("long LinkedArray<int>") { longarray<LinkedArray<int>, int>(c); }
MC_CONFIG("long LinkedArray<Obj,SAFE>") { longarray<LinkedArray<mc::Obj, unsigned, ARRAY_SAFE>, mc::Obj>(c); }
