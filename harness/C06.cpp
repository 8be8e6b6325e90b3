// BUILD: seq
// TRBtree: threaded red-black multiset; every history over small value sets until no new tree shape appears.
#include "mc.h"
#include "bss-util/TRBtree.h"
#include "bss-util/BlockAlloc.h"
using namespace bss;
template<class T, class Tree> struct Sys : mc::SysBase<Sys<T, Tree>> {
  typedef mc::SysBase<Sys> B; using B::op; typedef TRB_Node<T> N;
  static std::function<Tree*()> mk; static int K; Tree *a, *b; std::multiset<int> m, mb;
  Sys() { a = LIB(mk()); b = LIB(mk()); }
  ~Sys() { delete a; delete b; }
  static void build(int k, int dup, int total, bool moves, bool byptr) {
    K = k;
    for(int v = 0; v < k; ++v) {
      op(mc::fmt("Insert(%d)", v), [v](Sys& s) { N* n; { T t(v); n = LIB(s.a->Insert(t)); } MC_CHECK(n && (int)n->value == v, "Insert(%d) returned a node with another value", v); s.m.insert(v); }, [v, dup, total](const Sys& s) { return (int)s.m.count(v) < dup && (int)s.m.size() < total; });
      op(mc::fmt("Remove(%d)", v), [v](Sys& s) { bool r; { T t(v); r = LIB(s.a->Remove(t)); } MC_CHECK(r == (s.m.count(v) > 0), "Remove(%d) returned %d with %zu copies present", v, r, s.m.count(v)); if(r) s.m.erase(s.m.find(v)); });
    }
    // removal through node pointers, including duplicates that are not in the tree proper
    if(byptr) for(int i = 0; i < total; ++i) op(mc::fmt("Remove(node %d)", i), [i](Sys& s) { N* n = s.a->Front(); for(int j = 0; j < i; ++j) n = n->next; int v = (int)n->value; bool r = LIB(s.a->Remove(n)); MC_CHECK(r, "Remove(node) returned false"); s.m.erase(s.m.find(v)); }, [i](const Sys& s) { return i < (int)s.m.size(); });
    op("Remove(null)", [](Sys& s) { MC_CHECK(!LIB(s.a->Remove((N*)nullptr)), "Remove(null) returned true"); });
    op("Clear", [](Sys& s) { LIB(s.a->Clear()); s.m.clear(); });
    if(moves) {
      op("b = Tree(move(a))", [](Sys& s) { Tree* n = LIB(new Tree(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.m; s.m.clear(); });
      op("a = move(b)", [](Sys& s) { LIB(*s.a = std::move(*s.b)); s.m = s.mb; s.mb.clear(); });
    }
  }
  static bool nil(const N* n) { return n->left == n || !n; }
  static int height(const N* n, int d) { MC_CHECK(d < 64, "the tree is cyclic"); if(!n || nil(n)) return 0; return 1 + std::max(height(n->left, d + 1), height(n->right, d + 1)); }
  static int black(const N* n) { if(nil(n)) return 0; int l = black(n->left), r = black(n->right); MC_CHECK(l == r, "black heights differ at %d", (int)n->value); MC_CHECK(n->color != 1 || (n->left->color != 1 && n->right->color != 1), "red node %d has a red child", (int)n->value); return l + (n->color == 0); }
  static void one(Tree& t, const std::multiset<int>& m, const char* nm) {
    std::vector<int> want(m.begin(), m.end()), got; N* prev = nullptr; std::string g;
    for(auto it = t.begin(); it != t.end(); ++it) { N* n = *it; MC_CHECK(n->prev == prev, "%s: back link broken at %d", nm, (int)n->value); prev = n; got.push_back((int)n->value); g += mc::fmt("%d ", got.back()); MC_CHECK(got.size() <= want.size(), "%s: list is longer than the number of elements: %s", nm, g.c_str()); MC_CHECK(Tree::Validate(n), "%s: Validate fails at %d", nm, (int)n->value); }
    MC_CHECK(got == want, "%s: list is [%s], %zu elements expected", nm, g.c_str(), want.size());
    MC_CHECK(t.Front() == (want.empty() ? nullptr : *t.begin()) && t.Back() == prev, "%s: Front/Back wrong", nm);
    std::set<int> u(m.begin(), m.end());
    for(int k = -1; k <= K; ++k) {
      T x(k); N* n = t.Get(x); MC_CHECK((n != nullptr) == (u.count(k) > 0) && (!n || (int)n->value == k), "%s: Get(%d) wrong in [%s]", nm, k, g.c_str());
      N* bf = t.GetNear(x, true); N* af = t.GetNear(x, false);
      if(u.empty()) { MC_CHECK(!bf && !af, "%s: GetNear on an empty tree returned a node", nm); continue; }
      auto up = u.upper_bound(k); int wb = up == u.begin() ? *u.begin() : *std::prev(up); auto lo = u.lower_bound(k); int wa = lo == u.end() ? *u.rbegin() : *lo;
      MC_CHECK(bf && (int)bf->value == wb, "%s: GetNear(%d,before) is %d, expected %d in [%s]", nm, k, bf ? (int)bf->value : -99, wb, g.c_str());
      MC_CHECK(af && (int)af->value == wa, "%s: GetNear(%d,after) is %d, expected %d in [%s]", nm, k, af ? (int)af->value : -99, wa, g.c_str());
    }
    const N* r = t.GetRoot(); int h = height(r, 0); int nn = (int)u.size(), bound = 0; while((1 << bound) < nn + 1) ++bound;
    MC_CHECK(h <= 2 * bound, "%s: height %d for %d distinct values", nm, h, nn);
    MC_CHECK(t.DEBUGVERIFY() >= 0, "%s: DEBUGVERIFY fails for [%s]", nm, g.c_str());
    if(r && !nil(r)) { MC_CHECK(r->color == 0, "root is red"); black(r); }
  }
  void check() { one(*a, m, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { k.object(a, sizeof(Tree)); k.object(b, sizeof(Tree)); k.seq(m); k.seq(mb); }
};
template<class T, class Tr> std::function<Tr*()> Sys<T, Tr>::mk; template<class T, class Tr> int Sys<T, Tr>::K;
template<class T, class Tr> void go(mc::Ctx& c, std::function<Tr*()> mk, int k, int dup, int total, bool mv, bool bp, int depth) { typedef Sys<T, Tr> S; S::mk = mk; S::build(k, dup, total, mv, bp); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(300000, 4000000); mc::bfs<S>(c, o); }
typedef TRBtree<int> TI; typedef TRBtree<mc::Obj> TO;
MC_CONFIG("distinct values") { go<int, TI>(c, [] { return new TI(); }, c.pick(11, 13), 1, 99, false, false, 60); }
MC_CONFIG("duplicates") { go<int, TI>(c, [] { return new TI(); }, c.pick(5, 6), 3, c.pick(9, 10), false, true, 60); }
MC_CONFIG("2 copies of 6 values") { go<int, TI>(c, [] { return new TI(); }, 7, 2, c.pick(9, 10), false, false, 60); }
MC_CONFIG("objects, moves") { go<mc::Obj, TO>(c, [] { return new TO(); }, 4, 2, c.pick(5, 6), true, true, 40); }
struct BlockTree { typedef TRBtree<int, CompT<int>, PolymorphicAllocator<TRB_Node<int>, BlockPolicy>> T; };
MC_CONFIG("pooled nodes, moves") { typedef BlockTree::T T; static BlockPolicy<TRB_Node<int>>* p = nullptr; mc::BfsOpt o; o.depth = c.pick(7, 9); o.leakcheck = false; typedef Sys<int, T> S; S::mk = [] { static int n = 0; if(!(n++ & 1)) { delete p; p = new BlockPolicy<TRB_Node<int>>(4); } return new T(p); }; S::build(3, 2, c.pick(4, 5), true, true); mc::bfs<S>(c, o); }

// Large trees: insertion orders (up, down, both ends inward, strides, bit reversed), removal orders of the same kinds, sizes around the powers of two.
static std::vector<int> order(int kind, int n) {
  std::vector<int> v; static const int ST[] = { 3, 5, 7, 11, 13 };
  if(kind == 0) for(int i = 0; i < n; ++i) v.push_back(i); else if(kind == 1) for(int i = n; i-- > 0;) v.push_back(i);
  else if(kind == 2) for(int i = 0; i < n; ++i) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 3) for(int i = n; i-- > 0;) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 4) { int b = 0; while((1 << b) < n) ++b; for(int i = 0; i < (1 << b); ++i) { int r = 0; for(int k = 0; k < b; ++k) if(i >> k & 1) r |= 1 << (b - 1 - k); if(r < n) v.push_back(r); } }
  else { int s = ST[kind - 5]; for(int o = 0; o < s; ++o) for(int i = o; i < n; i += s) v.push_back(i); }
  return v;
}

template<class T, class Tr> static void large(mc::Ctx& c) {
  typedef Sys<T, Tr> S; S::mk = [] { return new Tr(); };
  mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 15, 16, 31, 33, 40, 64, 65, 100 };
    int n = ch.of(NS), dup = ch(2) + 1; S::K = n; auto in = order(ch(10), n), out = order(ch(10), n); S s;
    for(int d = 0; d < dup; ++d) for(int v : in) { { T t(v); LIB(s.a->Insert(t)); } s.m.insert(v); }
    S::one(*s.a, s.m, "after the insertions");
    int i = 0; for(int v : out) { bool r; { T t(v); r = LIB(s.a->Remove(t)); } MC_CHECK(r, "Remove(%d) failed", v); s.m.erase(s.m.find(v)); if(i++ % 5 == 0) S::one(*s.a, s.m, "while removing"); }
    if(dup > 1) S::one(*s.a, s.m, "after the removals");
    for(int v : in) { T t(v); bool r = LIB(s.a->Remove(t)); MC_CHECK(r == (dup > 1), "Remove(%d) gave %d", v, r); if(r) s.m.erase(s.m.find(v)); }
    S::one(*s.a, s.m, "at the end");
  });
}
MC_CONFIG("large trees") { large<int, TI>(c); }
MC_CONFIG("large trees of objects") { large<mc::Obj, TO>(c); }
