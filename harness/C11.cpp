// BUILD: seq
// Graph: adjacency structure under every history, matrix round trips, breadth-first search, maximum flow and circulations.
#include "mc.h"
#include "bss-util/Graph.h"
using namespace bss;
using internal::__edge_MaxFlow; using internal::__vertex_Demand; using internal::__edge_LowerBound;
template<class G> struct GSys : mc::SysBase<GSys<G>> {
  typedef mc::SysBase<GSys> B; using B::op; typedef typename G::EDGE_ ED; typedef typename G::CT_ CT;
  struct M { std::vector<std::pair<CT, int>> nodes; std::vector<std::pair<ED*, std::array<int, 3>>> edges; }; // node order; edges in insertion order: from, to, data
  G *a, *b; M ma, mb; static std::function<G*()> mk;
  GSys() { a = LIB(mk()); b = LIB(mk()); }
  ~GSys() { delete a; delete b; }
  static void build(int N, int E) {
    for(int v = 1; v <= 2; ++v) op(mc::fmt("AddNode(%d)", v), [v](GSys& s) { CT i = LIB(s.a->AddNode(&v)); for(auto& p : s.ma.nodes) MC_CHECK(p.first != i, "AddNode returned an index in use"); s.ma.nodes.push_back({ i, v }); }, [N](const GSys& s) { return (int)s.ma.nodes.size() < N; });
    for(int i = 0; i < N; ++i) {
      for(int j = 0; j < N; ++j) op(mc::fmt("AddEdge(#%d,#%d)", i, j), [i, j](GSys& s) { int d = 10 + (int)s.ma.edges.size(); CT f = s.ma.nodes[i].first, t = s.ma.nodes[j].first; ED* e = LIB(s.a->AddEdge(f, t, &d)); MC_CHECK(e->from == f && e->to == t && e->data == d, "AddEdge returned an edge with other ends"); s.ma.edges.push_back({ e, { (int)f, (int)t, d } }); }, [i, j, E](const GSys& s) { return std::max(i, j) < (int)s.ma.nodes.size() && (int)s.ma.edges.size() < E; });
      op(mc::fmt("RemoveNode(#%d)", i), [i](GSys& s) { CT x = s.ma.nodes[i].first; LIB(s.a->RemoveNode(x)); s.ma.nodes.erase(s.ma.nodes.begin() + i); auto& e = s.ma.edges; for(size_t k = 0; k < e.size();) if(e[k].second[0] == x || e[k].second[1] == x) e.erase(e.begin() + k); else ++k; }, [i](const GSys& s) { return i < (int)s.ma.nodes.size(); });
    }
    for(int k = 0; k < E; ++k) op(mc::fmt("RemoveEdge(#%d)", k), [k](GSys& s) { LIB(s.a->RemoveEdge(s.ma.edges[k].first)); s.ma.edges.erase(s.ma.edges.begin() + k); }, [k](const GSys& s) { return k < (int)s.ma.edges.size(); });
    op("b = G(move(a))", [](GSys& s) { G* n = LIB(new G(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; delete s.a; s.a = LIB(mk()); s.ma = M(); });
    op("a = move(b)", [](GSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; delete s.b; s.b = LIB(mk()); s.mb = M(); });
  }
  static void one(G& g, const M& m, const char* n) {
    MC_CHECK((size_t)g.NumNodes() == m.nodes.size() && (size_t)g.NumEdges() == m.edges.size(), "%s has %d nodes and %d edges, expected %zu and %zu", n, (int)g.NumNodes(), (int)g.NumEdges(), m.nodes.size(), m.edges.size());
    size_t i = 0; for(CT x = g.Front(); x != (CT)-1; g.GetNodes().Next(x), ++i) {
      MC_CHECK(i < m.nodes.size() && m.nodes[i].first == x && g[x].data == m.nodes[i].second, "%s: node %zu is wrong", n, i);
      std::set<ED*> out, in, wo, wi; for(ED* e = g[x].to; e; e = e->next) MC_CHECK(out.insert(e).second, "edge list is cyclic"); for(ED* e = g[x].from; e; e = e->alt.next) MC_CHECK(in.insert(e).second, "edge list is cyclic");
      for(auto& p : m.edges) { if(p.second[0] == (int)x) wo.insert(p.first); if(p.second[1] == (int)x) wi.insert(p.first); }
      MC_CHECK(out == wo && in == wi, "%s: edges of node %d are wrong", n, (int)x);
    }
    MC_CHECK(i == m.nodes.size(), "%s: nodes missing", n);
    for(auto& p : m.edges) MC_CHECK(p.first->from == (CT)p.second[0] && p.first->to == (CT)p.second[1] && p.first->data == p.second[2], "%s: an edge was changed", n);
    size_t len = m.nodes.size(); std::vector<int> mat(len * len + 1, 0); std::vector<int> nd(len + 1, -1); MC_CHECK((size_t)g.ToMatrix(nullptr, nullptr) == len, "ToMatrix(null)");
    if(len) { g.ToMatrix(mat.data(), nd.data()); for(size_t r = 0; r < len; ++r) { MC_CHECK(nd[r] == m.nodes[r].second, "%s: vertex %zu of the matrix is %d, expected %d", n, r, nd[r], m.nodes[r].second); for(size_t k = 0; k < len; ++k) { std::set<int> w; for(auto& p : m.edges) if(p.second[0] == (int)m.nodes[r].first && p.second[1] == (int)m.nodes[k].first) w.insert(p.second[2]); MC_CHECK(w.empty() ? mat[r * len + k] == 0 : w.count(mat[r * len + k]), "%s: matrix entry (%zu,%zu) is %d", n, r, k, mat[r * len + k]); } } MC_CHECK(nd[len] == -1, "ToMatrix wrote past the vertices"); }
  }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { for(auto* m : { &ma, &mb }) { k.word(m->nodes.size()); for(auto& p : m->nodes) { k.word(p.first); k.word(p.second); } k.word(m->edges.size()); for(auto& e : m->edges) for(int x : e.second) k.word(x); } k.object(a, sizeof(G)); }
};
template<class G> std::function<G*()> GSys<G>::mk;
typedef Graph<int, int, uint16_t, StandardAllocator<Edge<int, uint16_t>>> SG;
MC_CONFIG("Graph: histories") { typedef GSys<SG> Y; Y::mk = [] { return new SG(); }; Y::build(3, c.pick(3, 4)); mc::BfsOpt o; o.depth = c.pick(6, 8); o.maxstates = c.pick(200000, 2000000); mc::bfs<Y>(c, o); }
typedef Graph<int, int, uint8_t> PG;
MC_CONFIG("Graph: histories, pooled edges") { typedef GSys<PG> Y; Y::mk = [] { return new PG(); }; Y::build(3, 3); mc::BfsOpt o; o.leakcheck = false; o.depth = c.pick(5, 7); o.maxstates = c.pick(200000, 2000000); mc::bfs<Y>(c, o); }

// matrix round trip and breadth-first search: every graph with n vertices
typedef Graph<void, void> VG; static std::vector<int>* g_vis; static int g_stop;
static bool visit(uint16_t v) { g_vis->push_back(v); return v == g_stop; }
MC_CONFIG("matrices and breadth-first search: all graphs") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    int n = 1 + ch(4); char m[16] = {}, m2[16] = {}; for(int i = 0; i < n * n; ++i) m[i] = (char)ch(2);
    VG* g = LIB(new VG((uint16_t)n, m, nullptr)); g->ToMatrix(m2, nullptr); MC_CHECK(!memcmp(m, m2, n * n), "the matrix does not survive a round trip");
    for(int root = 0; root < n; ++root) for(g_stop = -1; g_stop < n; g_stop = (g_stop < 0 ? n - 1 : n)) {
      std::vector<int> v; g_vis = &v; BreadthFirstGraph<VG, &visit>(*g, (uint16_t)root);
      std::vector<int> dist(n, 99); dist[root] = 0; for(int k = 0; k < n; ++k) for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(m[i * n + j]) dist[j] = std::min(dist[j], dist[i] + 1);
      std::set<int> seen; for(size_t i = 0; i < v.size(); ++i) { MC_CHECK(seen.insert(v[i]).second, "vertex %d visited twice from %d", v[i], root); MC_CHECK(dist[v[i]] < 99, "unreachable vertex %d visited", v[i]); if(i) MC_CHECK(dist[v[i - 1]] <= dist[v[i]], "vertex %d visited before nearer ones", v[i - 1]); }
      bool stopped = g_stop >= 0 && seen.count(g_stop); if(stopped) MC_CHECK(v.back() == g_stop, "the search went on after the action asked to stop");
      else { int r = 0; for(int d : dist) r += d < 99; MC_CHECK((int)v.size() == r, "visited %zu of %d reachable vertices", v.size(), r); }
    }
    c.outcome(mc::fmt("%d", (int)g->NumEdges())); delete g;
  });
}
// parallel edges
MC_CONFIG("breadth-first search: multigraphs") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    int n = 3, m = ch(c.pick(6, 7)); VG* g = LIB(new VG((uint16_t)n)); std::vector<std::pair<int, int>> e; for(int i = 0; i < m; ++i) { int p = ch(n * n); e.push_back({ p / n, p % n }); LIB(g->AddEdge(p / n, p % n, nullptr)); }
    for(int root = 0; root < n; ++root) { std::vector<int> v; g_vis = &v; g_stop = -1; BreadthFirstGraph<VG, &visit>(*g, (uint16_t)root); std::set<int> r{ root }; for(int k = 0; k < n; ++k) for(auto& x : e) if(r.count(x.first)) r.insert(x.second); MC_CHECK(std::set<int>(v.begin(), v.end()) == r && v.size() == r.size() && v[0] == root, "visited %zu vertices, %zu are reachable", v.size(), r.size()); }
    c.outcome(m); delete g;
  });
}

// maximum flow: every network of the listed shape; the oracle is the minimum cut over all vertex subsets
struct Arc { int f, t, cap; };
static int mincut(int n, int s, int t, const std::vector<Arc>& e) { int best = 1 << 30; for(int S = 0; S < (1 << n); ++S) if((S >> s & 1) && !(S >> t & 1)) { int w = 0; for(auto& x : e) if((S >> x.f & 1) && !(S >> x.t & 1)) w += x.cap; best = std::min(best, w); } return best; }
template<class G> static void judge(G& g, int n, int s, int t, const std::vector<Arc>& e, const std::vector<typename G::EDGE_*>& p) {
  std::string d; for(size_t i = 0; i < e.size(); ++i) d += mc::fmt("%d->%d:%d/%d ", e[i].f, e[i].t, p[i]->data.flow, e[i].cap);
  std::vector<int> net(n, 0); for(size_t i = 0; i < e.size(); ++i) { int f = p[i]->data.flow; MC_CHECK(p[i]->data.capacity == e[i].cap, "capacity changed"); MC_CHECK(f >= 0 && f <= e[i].cap, "edge %d->%d carries %d of %d (%s)", e[i].f, e[i].t, f, e[i].cap, d.c_str()); net[e[i].f] -= f; net[e[i].t] += f; }
  for(int v = 0; v < n; ++v) if(v != s && v != t) MC_CHECK(net[v] == 0, "vertex %d keeps %d (source %d sink %d: %s)", v, net[v], s, t, d.c_str());
  int w = mincut(n, s, t, e); MC_CHECK(net[t] == w, "flow is %d, the minimum cut is %d (source %d sink %d: %s)", net[t], w, s, t, d.c_str());
}
typedef Graph<__edge_MaxFlow<void>, void> FG;
static void solve(mc::Ctx& c, int n, int s, int t, const std::vector<Arc>& e) {
  FG* g = LIB(new FG((uint16_t)n)); std::vector<FG::EDGE_*> p; for(auto& x : e) { __edge_MaxFlow<void> d = { 0, x.cap }; p.push_back(LIB(g->AddEdge((uint16_t)x.f, (uint16_t)x.t, &d))); }
  MaxFlow_PushRelabel(*g, (uint16_t)s, (uint16_t)t); judge(*g, n, s, t, e, p); c.outcome(mincut(n, s, t, e)); delete g;
}
MC_CONFIG("maximum flow: all small multigraphs") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = 2 + ch(3), m = ch(c.pick(5, 6)); std::vector<Arc> e; int st = ch(2); int s = st ? n - 1 : 0, t = st ? 0 : n - 1; for(int i = 0; i < m; ++i) { int k = ch(n * (n - 1)); int f = k / (n - 1), x = k % (n - 1); if(x >= f) ++x; e.push_back({ f, x, 1 + ch(2) }); } solve(c, n, s, t, e); }); }
// edges that connect a vertex to itself, several times even; and vertices whose indices are not consecutive, because others were removed before
MC_CONFIG("maximum flow: loops") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = 3, m = ch(c.pick(6, 7)); std::vector<Arc> e; int s = 0, t = 2; for(int i = 0; i < m; ++i) { int k = ch(n * n); e.push_back({ k / n, k % n, 1 + (i & 1) }); } solve(c, n, s, t, e); }); }
MC_CONFIG("breadth-first search: after removals") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    int n = 4, N = 4 + ch(4), sz = ch(2) ? N : 12; VG* g = LIB(new VG((uint16_t)sz)); for(int i = 0; i < sz; ++i) LIB(g->AddEdge((uint16_t)i, (uint16_t)((i + 1) % sz), nullptr)); static const int KEEP[][4] = { { 0, 1, 2, 3 }, { 3, 2, 1, 0 }, { 0, 2, 4, 6 }, { 3, 4, 5, 6 }, { 1, 3, 5, 6 } }; auto& kp = KEEP[ch(5)]; if(*std::max_element(kp, kp + 4) >= N) return;
    int sh = sz > N ? 5 : 0; std::vector<int> id; for(int i = 0; i < n; ++i) id.push_back(kp[i] + sh); for(int i = 0; i < sz; ++i) if(std::find(id.begin(), id.end(), i) == id.end()) LIB(g->RemoveNode((uint16_t)i)); for(int i : id) while((*g)[i].to) LIB(g->RemoveEdge((*g)[i].to));
    unsigned adj = 0; for(int k = 0; k < n * n; ++k) if(k / n != k % n && ch(2)) { adj |= 1u << k; LIB(g->AddEdge((uint16_t)id[k / n], (uint16_t)id[k % n], nullptr)); }
    for(int root = 0; root < n; ++root) { std::vector<int> v; g_vis = &v; g_stop = -1; BreadthFirstGraph<VG, &visit>(*g, (uint16_t)id[root]); std::set<int> r{ root }; for(int k = 0; k < n; ++k) for(int q = 0; q < n * n; ++q) if((adj >> q & 1) && r.count(q / n)) r.insert(q % n); std::set<int> w; for(int x : r) w.insert(id[x]); MC_CHECK(std::set<int>(v.begin(), v.end()) == w && v.size() == w.size() && v[0] == id[root], "visited %zu vertices, %zu are reachable", v.size(), w.size()); }
    c.outcome(adj); delete g;
  });
}
MC_CONFIG("maximum flow: after removals") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    int n = 4, N = 7; FG* g = LIB(new FG((uint16_t)N)); __edge_MaxFlow<void> d0 = { 0, 3 }; for(int i = 0; i + 1 < N; ++i) { LIB(g->AddEdge((uint16_t)i, (uint16_t)(i + 1), &d0)); LIB(g->AddEdge((uint16_t)(i + 1), (uint16_t)i, &d0)); }
    std::vector<int> id; static const int KEEP[][4] = { { 3, 4, 5, 6 }, { 0, 2, 4, 6 }, { 1, 3, 5, 6 }, { 6, 0, 5, 1 }, { 0, 6, 3, 2 } }; auto& kp = KEEP[ch(5)]; bool all = ch(2); // all: every vertex goes and comes again, in the order of the free list
    for(int i = 0; i < N; ++i) if(all || std::find(kp, kp + 4, i) == kp + 4) LIB(g->RemoveNode((uint16_t)i)); for(int i = 0; i < n; ++i) id.push_back(all ? (int)LIB(g->AddNode()) : kp[i]);
    for(int i = 0; i < n; ++i) for(auto* x = (*g)[id[i]].to; x;) { auto* y = x->next; LIB(g->RemoveEdge(x)); x = y; }
    std::vector<Arc> e; std::vector<FG::EDGE_*> p; int s = 0, t = 3; for(int f = 0; f < n; ++f) for(int x = 0; x < n; ++x) if(f != x && x != s && f != t && ch(2)) { e.push_back({ f, x, 1 + (f + x) % 3 }); __edge_MaxFlow<void> d = { 0, e.back().cap }; p.push_back(LIB(g->AddEdge((uint16_t)id[f], (uint16_t)id[x], &d))); }
    MaxFlow_PushRelabel(*g, (uint16_t)id[s], (uint16_t)id[t]); judge(*g, n, s, t, e, p); c.outcome(mincut(n, s, t, e)); delete g;
  });
}
MC_CONFIG("maximum flow: all 4-vertex networks") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = 4; int s = 0, t = 3; if(ch(2)) { s = 2; t = 1; } std::vector<Arc> e; for(int f = 0; f < n; ++f) for(int x = 0; x < n; ++x) if(f != x && x != s && f != t) { int w = ch(c.pick(3, 4)); if(w) e.push_back({ f, x, w }); } solve(c, n, s, t, e); }); }
MC_CONFIG("maximum flow: 5-vertex networks") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = 5, s = 0, t = 4; std::vector<Arc> e; for(int f = 0; f < n; ++f) for(int x = 0; x < n; ++x) if(f != x && x != s && f != t && !(f == s && x == t)) { if(ch(2)) e.push_back({ f, x, (f * 2 + x) % 3 + 1 }); } solve(c, n, s, t, e); }); }
MC_CONFIG_T("maximum flow: 5-vertex networks, other capacities") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = 5, s = 2, t = 0; int q = ch(3); std::vector<Arc> e; for(int f = 0; f < n; ++f) for(int x = 0; x < n; ++x) if(f != x && x != s && f != t) { if(ch(2)) e.push_back({ f, x, (f * (q + 1) + x * 3) % 4 + 1 }); } solve(c, n, s, t, e); }); }

// circulations with demands, and with lower bounds
MC_CONFIG("circulations") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    int n = 3; int dem[3]; dem[0] = ch(5) - 2; dem[1] = ch(5) - 2; dem[2] = -dem[0] - dem[1] + (ch(2) ? 1 : 0); bool lb = ch(2), lp = lb && ch(2); int caps[6], low[6]; for(int i = 0; i < 6; ++i) { caps[i] = ch(3); low[i] = lb && i % 2 == 0 && caps[i] ? 1 : 0; }
    std::vector<Arc> e; std::vector<int> lo; for(int f = 0, k = 0; f < n; ++f) for(int t = 0; t < n; ++t) if(f != t) { if(caps[k]) { e.push_back({ f, t, caps[k] }); lo.push_back(low[k]); } ++k; } if(lp) { e.push_back({ 1, 1, 2 }); lo.push_back(1); }
    // oracle: is there a flow with lo <= f <= cap and in - out == demand?
    bool feasible = false; int total = dem[0] + dem[1] + dem[2]; if(!total) { std::vector<int> f(lo); for(;;) { int net[3] = {}; for(size_t i = 0; i < e.size(); ++i) { net[e[i].f] -= f[i]; net[e[i].t] += f[i]; } if(net[0] == dem[0] && net[1] == dem[1] && net[2] == dem[2]) { feasible = true; break; } size_t i = 0; while(i < f.size() && f[i] == e[i].cap) { f[i] = lo[i]; ++i; } if(i == f.size()) break; ++f[i]; } }
    typedef Graph<__edge_MaxFlow<__edge_LowerBound<void>>, __vertex_Demand<void>> G; __vertex_Demand<void> v[3]; for(int i = 0; i < 3; ++i) v[i].demand = dem[i];
    G* g = LIB(new G(3, v)); std::vector<G::EDGE_*> p; for(size_t i = 0; i < e.size(); ++i) { __edge_MaxFlow<__edge_LowerBound<void>> d; d.flow = 0; d.capacity = e[i].cap; d.d.data.lowerbound = lo[i]; p.push_back(LIB(g->AddEdge(e[i].f, e[i].t, &d))); }
    uint16_t s, t; LIB(LowerBound_Circulation(*g)); for(size_t i = 0; i < e.size(); ++i) MC_CHECK(p[i]->data.capacity == e[i].cap - lo[i] && p[i]->data.d.data.lowerbound == 0, "edge %zu still has a lower bound", i); int r = LIB(Circulation_MaxFlow(*g, s, t)); MC_CHECK(r == total, "Circulation_MaxFlow returned %d for a total demand of %d", r, total);
    if(!total) {
      MaxFlow_PushRelabel(*g, s, t); bool full = true; for(auto* x = (*g)[s].to; x; x = x->next) full = full && x->data.flow == x->data.capacity;
      std::string d; for(size_t i = 0; i < e.size(); ++i) d += mc::fmt("%d->%d:%d..%d ", e[i].f, e[i].t, lo[i], e[i].cap);
      MC_CHECK(full == feasible, "a circulation with demands %d %d %d and edges %s is %sfeasible, but the flow says otherwise", dem[0], dem[1], dem[2], d.c_str(), feasible ? "" : "in");
      if(full) { int net[3] = {}; for(size_t i = 0; i < e.size(); ++i) { int f = p[i]->data.flow + lo[i]; MC_CHECK(f >= lo[i] && f <= e[i].cap, "flow out of bounds"); net[e[i].f] -= f; net[e[i].t] += f; } for(int i = 0; i < 3; ++i) MC_CHECK(net[i] == dem[i], "vertex %d receives %d, its demand is %d", i, net[i], dem[i]); }
    }
    c.outcome(feasible * 2 + (total != 0)); delete g;
  });
}
// large graphs of regular shape
static std::vector<std::pair<int, int>> shape(int kind, int n) {
  std::vector<std::pair<int, int>> e; int w = 1; while(w * w < n) ++w;
  for(int i = 0; i < n; ++i) switch(kind) {
    case 0: if(i + 1 < n) e.push_back({ i, i + 1 }); break; // path
    case 1: e.push_back({ i, (i + n - 1) % n }); break; // ring
    case 2: if(i) { e.push_back({ 0, i }); e.push_back({ i, 0 }); } break; // star
    case 3: if(2 * i + 1 < n) e.push_back({ i, 2 * i + 1 }); if(2 * i + 2 < n) e.push_back({ i, 2 * i + 2 }); break; // binary tree
    case 4: if(i + 1 < n && (i + 1) % w) { e.push_back({ i, i + 1 }); e.push_back({ i + 1, i }); } if(i + w < n) e.push_back({ i, i + w }); break; // grid
    case 5: for(int j = 1; j <= 3; ++j) { e.push_back({ i, (i * 2 + j) % n }); } break; // shuffle
    case 6: for(int j = 0; j < n && n <= 40; ++j) e.push_back({ j, i }); break; // complete, with loops
    case 7: if(i + 1 < n) { e.push_back({ i, i + 1 }); e.push_back({ i, i + 1 }); e.push_back({ i + 1, i }); } break; // doubled path
  }
  return e;
}
static const int GN[] = { 1, 2, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300 };
MC_CONFIG("breadth-first search: large graphs") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    int n = ch.of(GN); auto e = shape(ch(8), n); int root = ch(3); root = root == 0 ? 0 : root == 1 ? n - 1 : n / 2; g_stop = ch(2) ? (root + n / 3) % n : -1; VG* g = LIB(new VG((uint16_t)n)); for(auto& x : e) LIB(g->AddEdge(x.first, x.second, nullptr));
    std::vector<int> v, dist(n, 1 << 20); g_vis = &v; BreadthFirstGraph<VG, &visit>(*g, (uint16_t)root); dist[root] = 0; for(bool more = true; more;) { more = false; for(auto& x : e) if(dist[x.first] + 1 < dist[x.second]) { dist[x.second] = dist[x.first] + 1; more = true; } }
    std::set<int> seen; for(size_t i = 0; i < v.size(); ++i) { MC_CHECK(v[i] >= 0 && v[i] < n && dist[v[i]] < (1 << 20), "vertex %d visited, it cannot be reached", v[i]); MC_CHECK(seen.insert(v[i]).second, "vertex %d visited twice", v[i]); if(i) MC_CHECK(dist[v[i - 1]] <= dist[v[i]], "vertex %d visited before nearer ones", v[i - 1]); }
    if(g_stop >= 0 && dist[g_stop] < (1 << 20)) MC_CHECK(v.size() && v.back() == g_stop, "the search did not stop when asked"); else { size_t r = 0; for(int d : dist) r += d < (1 << 20); MC_CHECK(v.size() == r, "visited %zu of %zu reachable vertices", v.size(), r); }
    c.outcome(v.size()); delete g;
  });
}
static int flowval(int n, int s, int t, const std::vector<Arc>& e) { // augmenting paths
  std::vector<std::array<int, 3>> r; std::vector<std::vector<int>> ad(n); for(auto& x : e) { ad[x.f].push_back((int)r.size()); r.push_back({ x.f, x.t, x.cap }); ad[x.t].push_back((int)r.size()); r.push_back({ x.t, x.f, 0 }); }
  int total = 0; for(;;) { std::vector<int> by(n, -1); std::vector<int> q{ s }; std::vector<bool> in(n); in[s] = true; for(size_t i = 0; i < q.size(); ++i) for(int k : ad[q[i]]) if(r[k][2] && !in[r[k][1]]) { in[r[k][1]] = true; by[r[k][1]] = k; q.push_back(r[k][1]); } if(!in[t]) return total; int f = 1 << 30; for(int v = t; v != s; v = r[by[v]][0]) f = std::min(f, r[by[v]][2]); for(int v = t; v != s; v = r[by[v]][0]) { r[by[v]][2] -= f; r[by[v] ^ 1][2] += f; } total += f; }
}
MC_CONFIG("maximum flow: large networks") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    static const int NS[] = { 2, 6, 7, 8, 9, 12, 16, 17, 25, 33, 40 }; int n = ch.of(NS); auto sh = shape(ch(8), n); int caps = ch(4), st = ch(3), s = st == 0 ? 0 : st == 1 ? n - 1 : n / 2, t = st == 0 ? n - 1 : 0; if(s == t) return; std::vector<Arc> e; int i = 0; for(auto& x : sh) { ++i; if(x.first == x.second || x.second == s || x.first == t) continue; e.push_back({ x.first, x.second, caps == 0 ? 1 : caps == 1 ? 1 + i % 5 : caps == 2 ? 1000 - i * 7 % 1000 : 1 + (x.first * 5 + x.second * 3) % 11 }); }
    FG* g = LIB(new FG((uint16_t)n)); std::vector<FG::EDGE_*> p; for(auto& x : e) { __edge_MaxFlow<void> d = { 0, x.cap }; p.push_back(LIB(g->AddEdge((uint16_t)x.f, (uint16_t)x.t, &d))); }
    MaxFlow_PushRelabel(*g, (uint16_t)s, (uint16_t)t); std::vector<int> net(n, 0); for(size_t k = 0; k < e.size(); ++k) { int f = p[k]->data.flow; MC_CHECK(f >= 0 && f <= e[k].cap, "edge %d->%d carries %d of %d", e[k].f, e[k].t, f, e[k].cap); net[e[k].f] -= f; net[e[k].t] += f; }
    for(int v = 0; v < n; ++v) if(v != s && v != t) MC_CHECK(net[v] == 0, "vertex %d keeps %d", v, net[v]); int w = flowval(n, s, t, e); MC_CHECK(net[t] == w, "flow is %d, the maximum is %d", net[t], w); c.outcome(w); delete g;
  });
}
template<class G> static void largegraph(mc::Ctx& c, int top) {
  mc::enumerate(c, mc::EnumOpt{ std::is_same<G, SG>::value }, [&](mc::Choose& ch) {
    typedef GSys<G> Y; int n = ch.of(GN); if(n > top) return; auto e = shape(ch(8), n); int rem = ch(5), again = ch(2); if(e.size() > (sizeof(typename G::CT_) == 1 ? 125 : 600)) return; G* g = LIB(new G()); typename Y::M m; for(int i = 0; i < n; ++i) { int v = i * 3; auto x = LIB(g->AddNode(&v)); m.nodes.push_back({ x, v }); }
    auto addall = [&] { for(size_t i = 0; i < e.size(); ++i) { int d = 10 + (int)i; if(e[i].first >= (int)m.nodes.size() || e[i].second >= (int)m.nodes.size()) continue; auto f = m.nodes[e[i].first].first, t = m.nodes[e[i].second].first; m.edges.push_back({ LIB(g->AddEdge(f, t, &d)), { (int)f, (int)t, d } }); } }; addall();
    auto rn = [&](size_t i) { auto x = m.nodes[i].first; LIB(g->RemoveNode(x)); m.nodes.erase(m.nodes.begin() + i); auto& q = m.edges; for(size_t k = 0; k < q.size();) if(q[k].second[0] == (int)x || q[k].second[1] == (int)x) q.erase(q.begin() + k); else ++k; };
    if(rem == 1) for(size_t i = 0; i < m.nodes.size(); ++i) rn(i);
    if(rem == 2) while(m.nodes.size() > 1) rn(m.nodes.size() - 1);
    if(rem == 3) for(size_t k = 0; k < m.edges.size(); k += 1) { LIB(g->RemoveEdge(m.edges[k].first)); m.edges.erase(m.edges.begin() + k); }
    if(rem == 4) { while(!m.edges.empty()) { LIB(g->RemoveEdge(m.edges.back().first)); m.edges.pop_back(); } rn(m.nodes.size() / 2); }
    if(again) { for(int i = 0; i < 3 && (int)m.nodes.size() < top; ++i) { int v = 1000 + i; auto x = LIB(g->AddNode(&v)); m.nodes.push_back({ x, v }); } addall(); } // indices and edge blocks are reused
    if(m.nodes.size() < 70) Y::one(*g, m, "g"); else { MC_CHECK((size_t)g->NumNodes() == m.nodes.size() && (size_t)g->NumEdges() == m.edges.size(), "%d nodes and %d edges, expected %zu and %zu", (int)g->NumNodes(), (int)g->NumEdges(), m.nodes.size(), m.edges.size()); std::map<int, std::pair<std::set<void*>, std::set<void*>>> w; for(auto& p : m.edges) { w[p.second[0]].first.insert(p.first); w[p.second[1]].second.insert(p.first); MC_CHECK(p.first->data == p.second[2], "an edge was changed"); } for(auto& x : m.nodes) { std::set<void*> o, in; for(auto* q = (*g)[x.first].to; q; q = q->next) MC_CHECK(o.insert(q).second, "cyclic"); for(auto* q = (*g)[x.first].from; q; q = q->alt.next) MC_CHECK(in.insert(q).second, "cyclic"); MC_CHECK(o == w[x.first].first && in == w[x.first].second && (*g)[x.first].data == x.second, "node %d is wrong", (int)x.first); } }
    c.outcome(m.nodes.size() * 1000 + m.edges.size()); delete g;
  });
}
MC_CONFIG("large Graph") { largegraph<SG>(c, 310); }
MC_CONFIG("large Graph, pooled edges") { largegraph<PG>(c, 150); }
