// BUILD: seq
// AVL tree: ordered map/set, balanced, data stays with its key, every node freed once.
#include "mc.h"
#include "bss-util/AVLTree.h"
using namespace bss;
template<class Data, class Tree> struct AvlSys {
  static constexpr bool HASDATA = !std::is_void<Data>::value;
  int K; bool rep = true; Tree* t; std::map<int, int> m; int ctr = 100;
  AvlSys(int k, bool r = true) : K(k), rep(r) { mc::Track tr; t = new Tree(); }
  ~AvlSys() { delete t; }
  // ops: [0,K) insert; [K,2K) remove; 2K clear; 2K+1 move-construct ; 2K+2.. replace(i->j)
  int nops() const { return 2 * K + 3 + K * K; }
  bool enabled(int op) const { return op < 2 * K + 3 || (rep && (op - 2 * K - 3) / K != (op - 2 * K - 3) % K && m.count((op - 2 * K - 3) / K) && !m.count((op - 2 * K - 3) % K)); }
  std::string opname(int op) const {
    if(op < K) return mc::fmt("Insert(%d)", op); if(op < 2 * K) return mc::fmt("Remove(%d)", op - K);
    if(op == 2 * K) return "Clear"; if(op == 2 * K + 1) return "move-construct"; if(op == 2 * K + 2) return "move-assign";
    op -= 2 * K + 3; return mc::fmt("ReplaceKey(%d,%d)", op / K, op % K);
  }
  int val(int k) { return HASDATA ? k * 10 + 1 + (ctr ? 0 : 0) : k; }
  void apply(int op) {
    mc::Track tr;
    if(op < K) {
      bool had; { mc::NoTrack n; had = m.count(op); }
      auto* r = ins(op, val(op));
      MC_CHECK((r != nullptr) == !had, "Insert(%d) returned %s but the key was %s", op, r ? "a node" : "null", had ? "present" : "absent");
      mc::NoTrack n; if(!had) m[op] = val(op);
    } else if(op < 2 * K) {
      int k = op - K; bool had; { mc::NoTrack n; had = m.count(k); }
      bool r = t->Remove(k); MC_CHECK(r == had, "Remove(%d) returned %d, key was %s", k, r, had ? "present" : "absent");
      mc::NoTrack n; m.erase(k);
    } else if(op == 2 * K) { t->Clear(); mc::NoTrack n; m.clear(); }
    else if(op == 2 * K + 1) { Tree* n = new Tree(std::move(*t)); MC_CHECK(!t->GetRoot(), "moved-from tree not empty"); delete t; t = n; }
    else if(op == 2 * K + 2) { Tree* n = new Tree(); n->Insert(0); *n = std::move(*t); MC_CHECK(!t->GetRoot(), "moved-from tree not empty"); delete t; t = n; }
    else {
      int a = (op - 2 * K - 3) / K, b = (op - 2 * K - 3) % K; bool r = t->ReplaceKey(a, b);
      MC_CHECK(r, "ReplaceKey(%d,%d) failed although the new key was free", a, b);
      mc::NoTrack n; int v = m[a]; m.erase(a); m[b] = HASDATA ? v : b;
    }
  }
  auto* ins(int k, int v) { if constexpr(HASDATA) return t->Insert(k, Data(v)); else return t->Insert(k); }
  template<class N> static int keyof(N* n) { if constexpr(HASDATA) return n->_key.first; else return n->_key; }
  template<class N> int height(N* n) { if(!n) return 0; int l = height(n->_left), r = height(n->_right); MC_CHECK(l - r <= 1 && r - l <= 1, "tree not height balanced at key %d: left height %d right height %d", keyof(n), l, r); return 1 + std::max(l, r); }
  void check() {
    std::vector<std::pair<int, int>> got, want(m.begin(), m.end());
    t->Traverse([&](auto& kd) { if constexpr(HASDATA) got.push_back({ kd.first, (int)kd.second }); else got.push_back({ kd, kd }); });
    std::reverse(want.begin(), want.end()); auto rev = want; std::reverse(rev.begin(), rev.end());
    std::string g, w; for(auto& x : got) g += mc::fmt("%d:%d ", x.first, x.second); for(auto& x : rev) w += mc::fmt("%d:%d ", x.first, x.second);
    MC_CHECK(got == want || got == rev, "in-order traversal gives [%s], expected [%s]", g.c_str(), w.c_str());
    for(int k = -1; k <= K; ++k) {
      bool has = m.count(k);
      auto* r = t->GetRef(k); MC_CHECK((r != nullptr) == has, "GetRef(%d) %s", k, has ? "missed a present key" : "found an absent key");
      if(r) MC_CHECK((int)*r == m[k], "GetRef(%d) gives %d, expected %d", k, (int)*r, m[k]);
      if constexpr(std::is_void<Data>::value || std::is_copy_constructible<Data>::value) { typename Tree::KeyGet inv(-5); int g = (int)t->Get(k, inv); MC_CHECK(g == (has ? m[k] : -5), "Get(%d) gives %d", k, g); }
      auto* nr = t->Near(k); MC_CHECK((nr != nullptr) == !m.empty(), "Near(%d) null-ness", k);
      if(nr) { int q = keyof(nr); MC_CHECK(m.count(q), "Near(%d) returned key %d not in the tree", k, q);
        if(has) MC_CHECK(q == k, "Near(%d) returned %d", k, q);
        else { auto it = m.lower_bound(k); bool ok = (it != m.end() && it->first == q); if(it != m.begin()) { --it; ok = ok || it->first == q; } MC_CHECK(ok, "Near(%d) returned %d, which is neither neighbour", k, q); } }
    }
    height(t->GetRoot());
  }
  void key(mc::Key& k) { k.object(t, sizeof(Tree)); for(auto& x : m) { k.word(x.first); k.word(x.second); } }
};
template<class D> using T1 = AVLTree<int, D, CompT<int>, StandardAllocator<typename internal::AVLTreeDataField<int, D>::Node>>;
template<class D> struct TreeX : T1<D> { using T1<D>::T1; typedef typename T1<D>::KeyGet KeyGet; TreeX() = default; TreeX(TreeX&&) = default; TreeX& operator=(TreeX&& o) { T1<D>::operator=(std::move(o)); return *this; } };
template<class D> void go(mc::Ctx& c, int K, int depth, bool rep = true) { typedef AvlSys<D, TreeX<D>> S; mc::BfsOpt o; o.depth = depth; mc::bfs<S>(c, o, [K, rep] { return new S(K, rep); }); }
MC_CONFIG("avl-map-obj") { go<mc::Obj>(c, c.pick(5, 6), 40); }
MC_CONFIG("avl-set") { go<void>(c, c.pick(10, 12), 60); }
MC_CONFIG("avl-map-insert-remove") { go<mc::Obj>(c, c.pick(9, 11), 60, false); }
MC_CONFIG("avl-map-moveonly") { go<mc::MoveOnly>(c, c.pick(5, 6), 40); }

// Large trees: insertion orders (up, down, both ends inward, strides, bit reversed), removal orders of the same kinds, sizes around the powers of two.
static std::vector<int> order(int kind, int n) {
  std::vector<int> v; static const int ST[] = { 3, 5, 7, 11, 13 };
  if(kind == 0) for(int i = 0; i < n; ++i) v.push_back(i); else if(kind == 1) for(int i = n; i-- > 0;) v.push_back(i);
  else if(kind == 2) for(int i = 0; i < n; ++i) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 3) for(int i = n; i-- > 0;) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 4) { int b = 0; while((1 << b) < n) ++b; for(int i = 0; i < (1 << b); ++i) { int r = 0; for(int k = 0; k < b; ++k) if(i >> k & 1) r |= 1 << (b - 1 - k); if(r < n) v.push_back(r); } }
  else { int s = ST[kind - 5]; for(int o = 0; o < s; ++o) for(int i = o; i < n; i += s) v.push_back(i); }
  return v;
}

template<class D> static void large(mc::Ctx& c) {
  typedef AvlSys<D, TreeX<D>> S;
  mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 15, 16, 31, 33, 40, 64, 65, 100 };
    int n = ch.of(NS); auto in = order(ch(10), n), out = order(ch(10), n); bool rk = ch(2); S s(3 * n);
    for(int v : in) s.apply(v);
    s.check(); int i = 0;
    for(int v : out) { if(rk) s.apply(2 * s.K + 3 + v * s.K + (i & 1 ? 3 * n - 1 - v : n + (v * 7) % n)); else s.apply(s.K + v); if(rk && (i & 1) == 0) s.apply(s.K + n + (v * 7) % n); if(i++ % 5 == 0) s.check(); }
    s.check();
    if(rk) { for(int v = 2 * n; v < 3 * n; ++v) if(s.m.count(v)) s.apply(s.K + v); s.check(); }
    MC_CHECK(s.m.empty(), "harness: keys left");
  });
}
MC_CONFIG("large trees") { large<void>(c); }
MC_CONFIG("large maps") { large<mc::Obj>(c); }
