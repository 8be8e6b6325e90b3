// BUILD: seq
// AATree: ordered, balanced multiset; every history over small value sets until no new tree shape appears.
#include "mc.h"
#include "bss-util/AATree.h"
using namespace bss;
static std::vector<int>* g_trav; template<class T> static void visit(T& x) { g_trav->push_back((int)x); }
template<class T, class Tree> struct Sys : mc::SysBase<Sys<T, Tree>> {
  typedef mc::SysBase<Sys> B; using B::op; typedef AANODE<T> N;
  static std::function<Tree*()> mk; static int K; static bool TWO; Tree* a; std::multiset<int> m;
  Sys() { a = LIB(mk()); }
  ~Sys() { delete a; }
  static void build(int k, int dup, int total) {
    K = k;
    for(int v = 0; v < k; ++v) {
      op(mc::fmt("Insert(%d)", v), [v](Sys& s) { { T t(v); LIB(s.a->Insert(t)); } s.m.insert(v); }, [v, dup, total](const Sys& s) { return (int)s.m.count(v) < dup && (int)s.m.size() < total; });
      op(mc::fmt("Remove(%d)", v), [v](Sys& s) { bool r; { T t(v); r = LIB(s.a->Remove(t)); } MC_CHECK(r == (s.m.count(v) > 0), "Remove(%d) returned %d with %zu copies present", v, r, s.m.count(v)); if(r) s.m.erase(s.m.find(v)); });
    }
    op("Clear", [](Sys& s) { LIB(s.a->Clear()); s.m.clear(); });
  }
  void check() {
    std::vector<int> want(m.begin(), m.end()), got; g_trav = &got; a->template Traverse<&visit<T>>();
    std::string g; for(int v : got) g += mc::fmt("%d ", v);
    MC_CHECK(got == want, "traversal gives [%s], %zu elements expected", g.c_str(), want.size());
    MC_CHECK(a->IsEmpty() == m.empty() && (a->GetRoot() == nullptr) == m.empty(), "IsEmpty/GetRoot wrong");
    for(int k = -1; k <= K; ++k) { T x(k); N* n = a->Get(x); MC_CHECK((n != nullptr) == (m.count(k) > 0) && (!n || (int)n->data == k), "Get(%d) wrong in [%s]", k, g.c_str()); }
    if(N* r = a->GetRoot()) { int h = height(r, 0); int nn = (int)m.size(), bound = 0; while((1 << bound) < nn + 1) ++bound; MC_CHECK(h <= 2 * bound, "height %d for %d elements", h, nn); }
  }
  static int height(const N* n, int d) { MC_CHECK(d < 64, "the tree is cyclic"); if(!n->level) return 0; return 1 + std::max(height(n->left, d + 1), height(n->right, d + 1)); }
  // the tree keeps scratch pointers of its last removal: the last two operations are part of the state
  static void shape(mc::Key& k, const N* n) { if(!n || !n->level) { k.word(0); return; } k.word(n->level); k.word((int)n->data + 1); shape(k, n->left); shape(k, n->right); }
  int last = -1, last2 = -1; void apply(int i) { B::apply(i); last2 = last; last = i; }
  void key(mc::Key& k) { shape(k, a->GetRoot()); k.seq(m); k.word(last); if(TWO) k.word(last2); }
};
template<class T, class Tr> std::function<Tr*()> Sys<T, Tr>::mk; template<class T, class Tr> int Sys<T, Tr>::K; template<class T, class Tr> bool Sys<T, Tr>::TWO;
template<class T, class Tr> void go(mc::Ctx& c, std::function<Tr*()> mk, int k, int dup, int total, int depth, bool leak = true) { typedef Sys<T, Tr> S; S::mk = mk; S::build(k, dup, total); S::TWO = k < 6; mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(300000, 4000000); o.leakcheck = leak; mc::bfs<S>(c, o); }
template<class T> using Std = AATree<T, CompT<T>, StandardAllocator<AANODE<T>>>;
MC_CONFIG("distinct values") { go<int, Std<int>>(c, [] { return new Std<int>(); }, c.pick(11, 13), 1, 99, 60); }
MC_CONFIG("duplicates") { go<int, Std<int>>(c, [] { return new Std<int>(); }, c.pick(4, 5), 3, c.pick(8, 9), 60); }
MC_CONFIG("objects") { go<mc::Obj, Std<mc::Obj>>(c, [] { return new Std<mc::Obj>(); }, c.pick(5, 6), 2, c.pick(6, 7), 40); }
MC_CONFIG("pooled nodes") { typedef AATree<int> T; static BlockPolicy<AANODE<int>>* p = nullptr; go<int, T>(c, [] { delete p; p = new BlockPolicy<AANODE<int>>(4); return new T(p); }, c.pick(4, 5), 1, 99, c.pick(8, 10), false); }

// Large trees: insertion orders (up, down, both ends inward, strides, bit reversed), removal orders of the same kinds, sizes around the powers of two.
static std::vector<int> order(int kind, int n) {
  std::vector<int> v; static const int ST[] = { 3, 5, 7, 11, 13 };
  if(kind == 0) for(int i = 0; i < n; ++i) v.push_back(i); else if(kind == 1) for(int i = n; i-- > 0;) v.push_back(i);
  else if(kind == 2) for(int i = 0; i < n; ++i) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 3) for(int i = n; i-- > 0;) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 4) { int b = 0; while((1 << b) < n) ++b; for(int i = 0; i < (1 << b); ++i) { int r = 0; for(int k = 0; k < b; ++k) if(i >> k & 1) r |= 1 << (b - 1 - k); if(r < n) v.push_back(r); } }
  else { int s = ST[kind - 5]; for(int o = 0; o < s; ++o) for(int i = o; i < n; i += s) v.push_back(i); }
  return v;
}

template<class T, class Tr> static void large(mc::Ctx& c) {
  typedef Sys<T, Tr> S; S::mk = [] { return new Tr(); };
  mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 15, 16, 31, 33, 40, 64, 65, 100 };
    int n = ch.of(NS), dup = ch(2) + 1; S::K = n; auto in = order(ch(10), n), out = order(ch(10), n); S s;
    for(int d = 0; d < dup; ++d) for(int v : in) { { T t(v); LIB(s.a->Insert(t)); } s.m.insert(v); }
    s.check();
    int i = 0; for(int v : out) { bool r; { T t(v); r = LIB(s.a->Remove(t)); } MC_CHECK(r, "Remove(%d) failed", v); s.m.erase(s.m.find(v)); if(i++ % 5 == 0) s.check(); }
    if(dup > 1) s.check();
    for(int v : in) { T t(v); bool r = LIB(s.a->Remove(t)); MC_CHECK(r == (dup > 1), "Remove(%d) gave %d", v, r); if(r) s.m.erase(s.m.find(v)); }
    s.check();
  });
}
MC_CONFIG("large trees") { large<int, Std<int>>(c); }
MC_CONFIG("large trees of objects") { large<mc::Obj, Std<mc::Obj>>(c); }
