// BUILD: seq
// KDTree: after every history, a query visits exactly the stored rectangles it touches.
#include "mc.h"
#include "bss-util/KDTree.h"
using namespace bss;
struct It { float r[4]; LLBase<It> l; KDNode<It>* n; int id; };
static const float* rect(It* i) { return i->r; }
static LLBase<It>& list(It* i) { return i->l; }
static KDNode<It>*& node(It* i) { return i->n; }
static std::vector<int>* g_hits;
static void hit(It* i) { g_hits->push_back(i->id); }
typedef KDTree<It, &rect, &list, &node, StandardAllocator<KDNode<It>>> SK;
typedef KDTree<It, &rect, &list, &node> PK;
static std::string str(const float* r) { return mc::fmt("[%g,%g,%g,%g]", r[0], r[1], r[2], r[3]); }
// every node: parent link, alternating axis, counts and sums of its subtree, items that know their node
static void walk(KDNode<It>* n, KDNode<It>* par, int axis, std::set<int>& seen, uint32_t& num, double (&tot)[2], mc::Key* k) {
  MC_CHECK(n->parent == par && n->axis == axis, "a node has the wrong parent or axis");
  uint32_t c = 0; double t[2] = { 0, 0 }; It* prev = 0; std::vector<uint64_t> ids;
  for(It* i = n->items; i; prev = i, i = i->l.next) { MC_CHECK(seen.insert(i->id).second, "item %d is stored twice", i->id); MC_CHECK(i->l.prev == prev, "item list links are broken at item %d", i->id); MC_CHECK(i->n == n, "item %d does not know its node", i->id); ++c; t[0] += i->r[0] + i->r[2]; t[1] += i->r[1] + i->r[3]; ids.push_back(i->id); }
  if(k) { k->word(ids.size()); for(auto x : ids) k->word(x); uint32_t d; memcpy(&d, &n->div, 4); k->word(d); k->word((uint64_t)(uint16_t)n->balance); k->word((n->left ? 1 : 0) + (n->right ? 2 : 0)); }
  if(n->left) walk(n->left, n, axis ^ 1, seen, c, t, k);
  if(n->right) walk(n->right, n, axis ^ 1, seen, c, t, k);
  MC_CHECK(n->num == c, "a node counts %u items, its subtree has %u", n->num, c);
  MC_CHECK(n->total[0] == (float)t[0] && n->total[1] == (float)t[1], "a node's sums (%g,%g) differ from those of its items (%g,%g)", n->total[0], n->total[1], t[0], t[1]);
  num += c; tot[0] += t[0]; tot[1] += t[1];
}
template<class K> void verify(K& t, const std::vector<It*>& in, const std::vector<std::array<float, 4>>& queries, mc::Key* k = 0) {
  std::set<int> seen; uint32_t num = 0; double tot[2] = { 0, 0 }; if(t.GetRoot()) walk(t.GetRoot(), 0, 0, seen, num, tot, k);
  std::set<int> want; for(It* i : in) want.insert(i->id); MC_CHECK(seen == want, "the tree stores %zu items, expected %zu", seen.size(), want.size());
  std::set<int> all; t.TraverseAll([&](It* i) { for(; i; i = i->l.next) all.insert(i->id); }); MC_CHECK(all == want, "TraverseAll gives %zu items, expected %zu", all.size(), want.size());
  for(auto& q0 : queries) {
    float q[4] = { q0[0], q0[1], q0[2], q0[3] }; std::vector<int> h, a, w; g_hits = &h; t.template Traverse<&hit>(q); t.TraverseAction(q, [&](It* i) { a.push_back(i->id); });
    for(It* i : in) if(i->r[0] <= q[2] && i->r[2] >= q[0] && i->r[1] <= q[3] && i->r[3] >= q[1]) w.push_back(i->id);
    std::sort(h.begin(), h.end()); std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end());
    MC_CHECK(h == w && a == w, "query %s finds %zu (Traverse) and %zu (TraverseAction) items, expected %zu", str(q).c_str(), h.size(), a.size(), w.size());
  }
}
static std::vector<std::array<float, 4>> grid(float lo, float hi, float step, bool rects) {
  std::vector<std::array<float, 4>> v; for(float x = lo; x <= hi; x += step) for(float y = lo; y <= hi; y += step) v.push_back({ x, y, x, y });
  v.push_back({ -FLT_MAX, -FLT_MAX, FLT_MAX, FLT_MAX }); for(float x = lo; x <= hi; x += step) { v.push_back({ x, lo, x, hi }); v.push_back({ lo, x, hi, x }); v.push_back({ lo, lo, x, hi }); v.push_back({ x, lo, hi, hi }); v.push_back({ lo, x, hi, hi }); v.push_back({ lo, lo, hi, x }); }
  if(rects) for(float x = lo; x < hi; x += 1) for(float y = lo; y < hi; y += 1) for(float X = x; X < hi; X += 1) for(float Y = y; Y < hi; Y += 1) v.push_back({ x, y, X, Y });
  return v;
}
typedef std::vector<std::array<float, 4>> U;
template<class K> struct KSys : mc::SysBase<KSys<K>> {
  typedef mc::SysBase<KSys> B; using B::op; static U u; static uint32_t thr; static std::vector<std::array<float, 4>> q; K *t, *o; It it[16]; unsigned in;
  KSys() : in(0) { t = LIB(new K(thr)); o = 0; for(size_t i = 0; i < u.size(); ++i) { memset(&it[i], 0, sizeof(It)); memcpy(it[i].r, u[i].data(), sizeof it[i].r); it[i].id = (int)i; } }
  ~KSys() { delete t; }
  static void build() {
    for(size_t i = 0; i < u.size(); ++i) {
      op(mc::fmt("Insert(%s #%zu)", str(u[i].data()).c_str(), i), [i](KSys& s) { LIB(s.t->Insert(&s.it[i])); s.in |= 1u << i; }, [i](const KSys& s) { return !(s.in >> i & 1); });
      op(mc::fmt("Remove(#%zu)", i), [i](KSys& s) { LIB(s.t->Remove(&s.it[i])); s.in &= ~(1u << i); }, [i](const KSys& s) { return s.in >> i & 1; });
    }
    op("Clear", [](KSys& s) { LIB(s.t->Clear()); s.in = 0; });
    op("InsertRoot(odd), Solve", [](KSys& s) { LIB(s.t->Clear()); s.in = 0; for(size_t i = 1; i < u.size(); i += 2) { LIB(s.t->InsertRoot(&s.it[i])); s.in |= 1u << i; } LIB(s.t->Solve()); });
    op("InsertRoot(all), Solve", [](KSys& s) { LIB(s.t->Clear()); s.in = 0; for(size_t i = 0; i < u.size(); ++i) { LIB(s.t->InsertRoot(&s.it[i])); s.in |= 1u << i; } LIB(s.t->Solve()); });
    op("InsertRoot(all), remove them, Solve", [](KSys& s) { LIB(s.t->Clear()); s.in = 0; for(size_t i = 0; i < u.size(); ++i) LIB(s.t->InsertRoot(&s.it[i])); for(size_t i = 0; i < u.size(); ++i) LIB(s.t->Remove(&s.it[i])); LIB(s.t->Solve()); });
    op("InsertRoot(all), Remove all but the last, Solve", [](KSys& s) { LIB(s.t->Clear()); s.in = 0; for(size_t i = 0; i < u.size(); ++i) LIB(s.t->InsertRoot(&s.it[i])); for(size_t i = 0; i + 1 < u.size(); ++i) LIB(s.t->Remove(&s.it[i])); s.in = 1u << (u.size() - 1); LIB(s.t->Solve()); });
    op("Rebalance(root)", [](KSys& s) { LIB(s.t->Rebalance(s.t->GetRoot())); }, [](const KSys& s) { return s.t->GetRoot() && s.in; });
    op("moved", [](KSys& s) { K* n = LIB(new K(std::move(*s.t))); delete s.t; s.t = n; });
    op("move assigned", [](KSys& s) { K* n = LIB(new K(thr)); It* x = new It(); memset(x, 0, sizeof(It)); LIB(n->Insert(x)); LIB(*n = std::move(*s.t)); delete x; delete s.t; s.t = n; });
  }
  void check() { std::vector<It*> v; for(size_t i = 0; i < u.size(); ++i) if(in >> i & 1) v.push_back(&it[i]); verify(*t, v, q); }
  void key(mc::Key& k) { k.word(in); std::set<int> seen; uint32_t n = 0; double tt[2] = { 0, 0 }; k.word(t->GetRoot() ? 1 : 0); if(t->GetRoot()) walk(t->GetRoot(), 0, 0, seen, n, tt, &k); }
};
template<class K> U KSys<K>::u; template<class K> uint32_t KSys<K>::thr; template<class K> std::vector<std::array<float, 4>> KSys<K>::q;
template<class K> void go(mc::Ctx& c, U u, uint32_t thr, int depth, bool leak, uint64_t max) { typedef KSys<K> Y; Y::u = u; Y::thr = thr; Y::q = grid(-0.5f, 8.5f, 1.0f, false); { auto g = grid(0, 8, 1, false); Y::q.insert(Y::q.end(), g.begin(), g.end()); } Y::build(); mc::BfsOpt o; o.depth = depth; o.leakcheck = leak; o.maxstates = max; mc::bfs<Y>(c, o); }
MC_CONFIG("histories: points on a line") { go<SK>(c, U{ { 0, 0, 0, 0 }, { 1, 0, 1, 0 }, { 2, 1, 2, 1 }, { 4, 0, 4, 0 }, { 5, 2, 5, 2 }, { 8, 0, 8, 0 } }, 20, c.pick(7, 10), true, c.pick(25000, 1000000)); }
MC_CONFIG("histories: boxes of several sizes") { go<SK>(c, U{ { 0, 0, 1, 1 }, { 2, 3, 3, 4 }, { 5, 1, 8, 2 }, { 1, 5, 2, 8 }, { 6, 6, 7, 7 }, { 3, 0, 4, 8 } }, 20, c.pick(7, 10), true, c.pick(25000, 1000000)); }
MC_CONFIG("histories: always rebalancing") { go<SK>(c, U{ { 0, 0, 0, 0 }, { 1, 3, 2, 4 }, { 3, 1, 3, 1 }, { 4, 7, 5, 8 }, { 7, 2, 7, 2 }, { 8, 8, 8, 8 }, { 6, 5, 6, 5 } }, 0, c.pick(7, 10), true, c.pick(25000, 1000000)); }
MC_CONFIG("histories: rarely rebalancing") { go<SK>(c, U{ { 0, 0, 0, 0 }, { 1, 3, 1, 4 }, { 3, 1, 3, 1 }, { 4, 7, 5, 7 }, { 7, 2, 7, 2 }, { 8, 8, 8, 8 }, { 6, 5, 6, 5 }, { 2, 6, 2, 6 } }, 60, c.pick(7, 10), true, c.pick(25000, 1000000)); }
MC_CONFIG("histories: pooled nodes") { go<PK>(c, U{ { 0, 0, 0, 0 }, { 1, 2, 3, 4 }, { 5, 1, 6, 1 }, { 8, 8, 8, 8 } }, 20, c.pick(8, 12), false, c.pick(60000, 500000)); }
// every sequence of small boxes inserted, then every one of them removed in each rotation
static void seqs(mc::Ctx& c, std::vector<std::array<float, 4>> boxes, int n, uint32_t thr) {
  auto q = grid(-0.5f, 3.5f, 0.5f, false);
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::vector<It> it(n); std::vector<It*> in; SK* t = LIB(new SK(thr));
    for(int i = 0; i < n; ++i) { memset(&it[i], 0, sizeof(It)); memcpy(it[i].r, boxes[ch((int)boxes.size())].data(), 16); it[i].id = i; LIB(t->Insert(&it[i])); in.push_back(&it[i]); }
    verify(*t, in, q); int nodes = 0; t->TraverseAll([&](It*) { ++nodes; }); int first = ch(n); for(int k = 0; k < n; ++k) { LIB(t->Remove(in[(first) % in.size()])); in.erase(in.begin() + first % in.size()); verify(*t, in, q); } c.outcome(nodes); delete t;
  });
}
MC_CONFIG("insertion sequences: intervals") { std::vector<std::array<float, 4>> b; for(int x = 0; x < 4; ++x) for(int X = x; X < 4 && X < x + 2; ++X) b.push_back({ (float)x, 1, (float)X, 1 }); seqs(c, b, c.pick(4, 6), 20); }
MC_CONFIG("insertion sequences: points") { std::vector<std::array<float, 4>> b; for(int x = 0; x < 4; ++x) for(int y = 0; y < 3; y += 2) b.push_back({ (float)x, (float)y, (float)x, (float)y }); seqs(c, b, c.pick(4, 6), 0); }
MC_CONFIG("insertion sequences: boxes") { std::vector<std::array<float, 4>> b; for(int x = 0; x < 3; ++x) for(int X = x; X < 3; ++X) for(int y = 0; y < 3; ++y) for(int Y = y; Y < 3; ++Y) b.push_back({ (float)x, (float)y, (float)X, (float)Y }); seqs(c, b, c.pick(3, 4), 20); }
MC_CONFIG("insertion sequences: far apart") { std::vector<std::array<float, 4>> b; for(float x : { 0.f, 0.5f, 1.f, 3.f }) b.push_back({ x, x == 1.f ? 3.f : 0.f, x, x == 1.f ? 3.f : 0.f }); seqs(c, b, c.pick(6, 8), 30); }

// Many items: point sets and boxes in several orders, inserted one by one or solved at once, removed in several orders.
static std::vector<int> order(int kind, int n) { // a permutation of 0..n-1
  std::vector<int> v; static const int ST[] = { 3, 5, 7, 11, 13 };
  if(kind == 0) for(int i = 0; i < n; ++i) v.push_back(i); else if(kind == 1) for(int i = n; i-- > 0;) v.push_back(i);
  else if(kind == 2) for(int i = 0; i < n; ++i) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 3) for(int i = n; i-- > 0;) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 4) { int b = 0; while((1 << b) < n) ++b; for(int i = 0; i < (1 << b); ++i) { int r = 0; for(int k = 0; k < b; ++k) if(i >> k & 1) r |= 1 << (b - 1 - k); if(r < n) v.push_back(r); } }
  else { int s = ST[kind - 5]; for(int o = 0; o < s; ++o) for(int i = o; i < n; i += s) v.push_back(i); }
  return v;
}

MC_CONFIG("many items") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const int NS[] = { 9, 16, 25, 40 }; int n = ch.of(NS), shape = ch(3); auto in = order(ch(7), n), out = order(ch(7), n); static const uint32_t TH[] = { 0, 20, 60 }; uint32_t thr = ch.of(TH); bool solve = ch(2);
    std::vector<It> it(n); for(int i = 0; i < n; ++i) { It& x = it[i]; memset(&x, 0, sizeof(It)); x.id = i; int a = i % 8, b = shape == 0 ? i / 8 : shape == 1 ? (i * 5) % 8 : a; x.r[0] = (float)a; x.r[1] = (float)b; x.r[2] = (float)(a + (shape == 2 ? i % 3 : 0)); x.r[3] = (float)(b + (shape == 1 ? i % 2 : 0)); }
    std::vector<std::array<float, 4>> q; for(int x = 0; x < 9; x += 2) for(int y = 0; y < 9; y += 2) { q.push_back({ (float)x, (float)y, (float)x, (float)y }); q.push_back({ (float)x, 0, 8, (float)y }); q.push_back({ 0, (float)y, (float)x, 8 }); }
    SK* t = LIB(new SK(thr)); std::vector<It*> have;
    for(int i : in) { if(solve) LIB(t->InsertRoot(&it[i])); else LIB(t->Insert(&it[i])); have.push_back(&it[i]); }
    if(solve) LIB(t->Solve());
    verify(*t, have, q); int k = 0;
    for(int i : out) { LIB(t->Remove(&it[i])); have.erase(std::find(have.begin(), have.end(), &it[i])); if(++k % 3 == 0 && k % 2) { It& x = it[i]; x.r[0] = 8 - x.r[0]; x.r[2] = x.r[0]; LIB(t->Insert(&x)); have.push_back(&x); } if(k % 8 == 0) verify(*t, have, q); }
    verify(*t, have, q); LIB(delete t);
  });
}
