// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// Trie: every small word list x every query. DisjointSet: every history against a partition.
#include "mc.h"
#include "bss-util/Trie.h"
#include "bss-util/DisjointSet.h"
using namespace bss;
typedef std::vector<std::string> W;
static std::string str(const W& w) { std::string r; for(auto& s : w) r += "\"" + s + "\" "; return r; }
static std::string low(std::string s) { for(char& c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
template<class T, bool IC> void query(const Trie<T, IC>& t, const W& w, const std::string& q) {
  // any entry equal to the query is a right answer (words may repeat)
  T r = t.Get(q.c_str()), r2 = t.Get(q.c_str(), (T)q.size()), r3 = t[q.c_str()]; bool in = false; for(auto& s : w) in = in || (IC ? low(s) == low(q) : s == q);
  for(T x : { r, r2, r3 }) {
    if(!in) MC_CHECK(x == (T)-1, "looking up \"%s\" gives %d, but it is not among %s", q.c_str(), (int)x, str(w).c_str());
    else MC_CHECK((size_t)x < w.size() && (IC ? low(w[x]) == low(q) : w[x] == q), "looking up \"%s\" gives %d among %s", q.c_str(), (int)x, str(w).c_str());
  }
}
static void all(const std::string& alpha, int len, W& out) { out.push_back(""); for(size_t i = 0; i < out.size(); ++i) if((int)out[i].size() < len) for(char c : alpha) out.push_back(out[i] + c); }
template<class T, bool IC> void tries(mc::Ctx& c, const std::string& alpha, int len, int words, bool dup) {
  W u; all(alpha, len, u); W q; all(alpha + "m", len + 1, q);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = 1 + ch(words); W w; std::vector<const char*> p; std::vector<bool> used(u.size());
    for(int i = 0; i < n; ++i) { int k = ch((int)u.size()); if(!dup && used[k]) return; used[k] = true; w.push_back(u[k]); } for(auto& s : w) p.push_back(s.c_str());
    Trie<T, IC>* t = LIB(new Trie<T, IC>((T)n, p.data())); MC_CHECK(t->Length() == (T)n, "Length"); for(auto& s : q) query<T, IC>(*t, w, s);
    if(n == 2) { Trie<T, IC>* v = LIB(new Trie<T, IC>((T)2, p[0], p[1])); for(auto& s : q) query<T, IC>(*v, w, s); delete v; const char* const a[2] = { p[0], p[1] }; v = LIB(new Trie<T, IC>(a)); for(auto& s : q) query<T, IC>(*v, w, s); LIB(*t = *v); for(auto& s : q) query<T, IC>(*t, w, s); delete v; v = LIB(new Trie<T, IC>(*t)); for(auto& s : q) query<T, IC>(*v, w, s); delete t; t = LIB(new Trie<T, IC>(std::move(*v))); for(auto& s : q) query<T, IC>(*t, w, s); LIB(*v = std::move(*t)); for(auto& s : q) query<T, IC>(*v, w, s); delete v; }
    c.outcome(str(w)); delete t;
  });
}
MC_CONFIG("Trie: all word lists over ab") { tries<uint8_t, false>(c, "ab", 2, c.pick(5, 6), true); }
MC_CONFIG("Trie: longer words") { tries<uint8_t, false>(c, "ab", 3, c.pick(4, 5), true); }
MC_CONFIG("Trie: non-ASCII bytes") { tries<uint16_t, false>(c, "a\xC3\x7F", 2, c.pick(4, 5), false); }
MC_CONFIG("Trie: ignoring case") { tries<uint8_t, true>(c, "aA_Z", 2, c.pick(3, 3), true); }
MC_CONFIG("Trie: many siblings") { mc::enumerate(c, [&](mc::Choose& ch) { // n words with distinct first letters, m of them with a second letter
    int n = 1 + ch(40), two = ch(3), rev = ch(2); W w; for(int i = 0; i < n; ++i) { std::string s(1, (char)('!' + (rev ? n - i : i) * 2)); if(two == 1 || (two == 2 && i % 3 == 0)) s += (char)('a' + i % 26); w.push_back(s); } std::vector<const char*> p; for(auto& s : w) p.push_back(s.c_str()); Trie<uint8_t>* t = LIB(new Trie<uint8_t>((uint8_t)n, p.data())); for(auto& s : w) { query<uint8_t, false>(*t, w, s); query<uint8_t, false>(*t, w, s + "z"); query<uint8_t, false>(*t, w, s.substr(0, 1)); } for(int x = 1; x < 256; ++x) query<uint8_t, false>(*t, w, std::string(1, (char)x)); c.outcome(mc::fmt("%d %d", n, two)); delete t; }); }
// node counts close to what the index type can address
MC_CONFIG("Trie: large tries in small index types") { mc::enumerate(c, [&](mc::Choose& ch) { int n = 1 + ch(12), len = 1 + ch(19); W w; for(int i = 0; i < n; ++i) { std::string s; for(int j = 0; j < len; ++j) s += (char)('a' + (j == 0 ? i : (i + j) % 26)); w.push_back(s); } if(n * (len + 1) + 1 > 250) { c.outcome(0); return; } std::vector<const char*> p; for(auto& s : w) p.push_back(s.c_str()); Trie<uint8_t>* t = LIB(new Trie<uint8_t>((uint8_t)n, p.data())); for(auto& s : w) { query<uint8_t, false>(*t, w, s); query<uint8_t, false>(*t, w, s.substr(0, s.size() - 1)); query<uint8_t, false>(*t, w, s + "a"); } c.outcome(n * 64 + len); delete t; }); }

// DisjointSet
template<class T> struct DSys : mc::SysBase<DSys<T>> {
  typedef mc::SysBase<DSys> B; using B::op; typedef DisjointSet<T> D; typedef std::vector<int> P; D *a, *b; P pa, pb; static int N; // P: class of each element
  DSys() { a = LIB(new D((T)N)); b = LIB(new D((T)2)); pa = fresh(N); pb = fresh(2); }
  ~DSys() { delete a; delete b; }
  static P fresh(int n) { P p; for(int i = 0; i < n; ++i) p.push_back(i); return p; }
  static void join(P& p, int x, int y) { int from = p[y], to = p[x]; for(int& v : p) if(v == from) v = to; }
  static void build(int n, int maxn, bool two) {
    N = n;
    for(int x = 0; x <= maxn; ++x) for(int y = 0; y <= maxn; ++y) op(mc::fmt("Union(%d,%d)", x, y), [x, y](DSys& s) { bool ok = x < (int)s.pa.size() && y < (int)s.pa.size(); if(ok) ok = s.a->IsSetName(x) && s.a->IsSetName(y) && x != y; bool r = LIB(s.a->Union(x, y)); MC_CHECK(r == ok, "Union(%d,%d) returned %d", x, y, r); if(r) join(s.pa, x, y); });
    for(int x = 0; x < maxn; ++x) op(mc::fmt("Find(%d)", x), [x](DSys& s) { int r = (int)LIB(s.a->Find(x)); MC_CHECK(r >= 0 && r < (int)s.pa.size() && s.pa[r] == s.pa[x] && s.a->IsSetName(r), "Find(%d) gives %d", x, r); }, [x](const DSys& s) { return x < (int)s.pa.size(); });
    op("Reset", [](DSys& s) { LIB(s.a->Reset()); s.pa = fresh((int)s.pa.size()); });
    if(two) {
      op("AddSets(1)", [](DSys& s) { LIB(s.a->AddSets(1)); s.pa.push_back(1000 + (int)s.pa.size()); }, [maxn](const DSys& s) { return (int)s.pa.size() < maxn && s.pa.size() > 0; });
      op("a = b", [](DSys& s) { LIB(*s.a = *s.b); s.pa = s.pb; });
      op("a = a", [](DSys& s) { D& r = *s.a; LIB(*s.a = r); });
      op("b = D(a)", [](DSys& s) { D* n = LIB(new D(*s.a)); delete s.b; s.b = n; s.pb = s.pa; });
      op("a = move(b)", [](DSys& s) { LIB(*s.a = std::move(*s.b)); s.pa = s.pb; s.pb.clear(); });
      op("b = D(move(a))", [](DSys& s) { D* n = LIB(new D(std::move(*s.a))); delete s.b; s.b = n; s.pb = s.pa; s.pa.clear(); });
    }
  }
  void one(D& x0, const P& p, const char* n) {
    D x(x0); // queries compress paths: ask a copy
    int len = (int)p.size(); std::set<int> cl(p.begin(), p.end());
    MC_CHECK((int)x.Length() == len && (int)x.NumSets() == (int)cl.size(), "%s has %d elements in %d sets, expected %d in %zu", n, (int)x.Length(), (int)x.NumSets(), len, cl.size());
    int names = 0; for(int i = 0; i < len; ++i) names += x.IsSetName(i); MC_CHECK(names == (int)cl.size() && !x.IsSetName(len), "%s has %d set names for %zu sets", n, names, cl.size());
    for(int i = 0; i < len; ++i) {
      int r = (int)x.Find(i); MC_CHECK(r >= 0 && r < len && p[r] == p[i] && x.IsSetName(r), "%s: Find(%d) gives %d", n, i, r);
      std::vector<T> e; for(int j = 0; j < len; ++j) { if(p[j] == p[i]) e.push_back(j); MC_CHECK(((int)x.Find(j) == r) == (p[j] == p[i]), "%s: %d and %d %s", n, i, j, p[j] == p[i] ? "are in different sets" : "are in one set"); }
      MC_CHECK((int)x.NumElements(i) == (int)e.size() && (int)x.GetElements(i, (T*)nullptr) == (int)e.size(), "%s: NumElements(%d) is %d, expected %zu", n, i, (int)x.NumElements(i), e.size());
      auto u = x.GetElements(i); MC_CHECK(std::vector<T>(u.get(), u.get() + e.size()) == e, "%s: GetElements(%d) wrong", n, i);
    }
    MC_CHECK((int)x.NumElements(len) == -1 && !x.GetElements(len), "%s: NumElements of no element", n);
  }
  void check() { one(*a, pa, "a"); one(*b, pb, "b"); }
  void key(mc::Key& k) { k.object(a, sizeof(D)); k.object(b, sizeof(D)); }
};
template<class T> int DSys<T>::N;
template<class T> void god(mc::Ctx& c, int n, int maxn, bool two, int d) { typedef DSys<T> Y; Y::build(n, maxn, two); mc::BfsOpt o; o.depth = d; o.maxstates = c.pick(200000, 3000000); mc::bfs<Y>(c, o); }
MC_CONFIG("DisjointSet: one set") { god<uint32_t>(c, c.pick(6, 7), c.pick(6, 7), false, 30); }
MC_CONFIG("DisjointSet: copies, moves, growth") { god<size_t>(c, 3, c.pick(4, 5), true, c.pick(6, 8)); }
MC_CONFIG("DisjointSet<uint8_t>") { god<uint8_t>(c, 4, 5, true, c.pick(5, 7)); }
// Kruskal: every sequence of edges
MC_CONFIG("MinSpanningTree: all edge sequences") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = 1 + ch(4), m = ch(c.pick(6, 7)); std::vector<std::pair<uint32_t, uint32_t>> e; for(int i = 0; i < m; ++i) { int p = ch(n * n); e.push_back({ (uint32_t)(p / n), (uint32_t)(p % n) }); }
    std::vector<int> p; for(int i = 0; i < n; ++i) p.push_back(i); std::vector<std::pair<uint32_t, uint32_t>> want; for(auto& x : e) if(p[x.first] != p[x.second]) { DSys<uint32_t>::join(p, x.first, x.second); want.push_back(x); }
    auto t = LIB(DisjointSet<uint32_t>::MinSpanningTree((uint32_t)n, e.begin(), e.end())); MC_CHECK((size_t)t.Capacity() == want.size(), "tree has %d edges, expected %zu", (int)t.Capacity(), want.size());
    for(size_t i = 0; i < want.size(); ++i) MC_CHECK(t[i] == want[i], "edge %zu of the tree is wrong", i); c.outcome(want.size());
  });
}
// large sets: every size on a lattice, several orders of unions between set names
template<class T> static void largeds(mc::Ctx& c, int top) {
  static const int NS[] = { 1, 2, 7, 8, 9, 16, 31, 33, 64, 65, 100, 120, 127, 128, 129, 200, 257, 300 };
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch.of(NS), how = ch(5), find = ch(3), mid = ch(3); if(n > top) return; DisjointSet<T>* d = LIB(new DisjointSet<T>((T)n)); std::vector<int> p; for(int i = 0; i < n; ++i) p.push_back(i);
    auto nm = [&](int x) { return (int)d->Find((T)x); }; auto un = [&](int x, int y) { if(p[x] == p[y]) return; int a = nm(x), b = nm(y); MC_CHECK(a != b, "%d and %d are in one set", x, y); MC_CHECK(LIB(d->Union((T)a, (T)b)), "Union(%d,%d) of two set names fails", a, b); DSys<T>::join(p, x, y); };
    if(how == 0) for(int i = 1; i < n; ++i) un(0, i);
    if(how == 1) for(int i = n - 1; i > 0; --i) un(i, i - 1);
    if(how == 2) for(int s = 1; s < n; s *= 2) for(int i = 0; i + s < n; i += 2 * s) un(i + s, i);
    if(how == 3) for(int s = 1; s * 4 < n; s *= 2) for(int i = 0; i + s < n; i += 2 * s) un(i, i + s);
    if(how == 4) for(int i = 3; i < n; ++i) un(i, i - 3);
    if(mid == 1 && n + 5 <= top) { LIB(d->AddSets(5)); for(int i = 0; i < 5; ++i) p.push_back(n++); if(find) un(n - 1, 0); }
    if(mid == 2) { auto* e = LIB(new DisjointSet<T>(*d)); delete d; d = LIB(new DisjointSet<T>(std::move(*e))); delete e; }
    std::map<int, std::vector<T>> cl; for(int i = 0; i < n; ++i) cl[p[i]].push_back((T)i);
    MC_CHECK((int)d->NumSets() == (int)cl.size() && (int)d->Length() == n, "%d sets of %d elements, expected %zu of %d", (int)d->NumSets(), (int)d->Length(), cl.size(), n);
    for(int k = 0; k < n; ++k) { int i = find == 0 ? k : find == 1 ? n - 1 - k : (k * 7 + 3) % n; int r = nm(i); MC_CHECK(r >= 0 && r < n && p[r] == p[i] && d->IsSetName((T)r), "Find(%d) gives %d", i, r); MC_CHECK((int)d->NumElements((T)i) == (int)cl[p[i]].size(), "NumElements(%d) is %d, expected %zu", i, (int)d->NumElements((T)i), cl[p[i]].size()); }
    for(auto& x : cl) { auto u = LIB(d->GetElements(x.second.back())); MC_CHECK(std::vector<T>(u.get(), u.get() + x.second.size()) == x.second, "GetElements wrong"); int root = nm(x.second[0]); for(T e : x.second) MC_CHECK(nm(e) == root, "two elements of one set have different names"); }
    c.outcome(cl.size() * 1000 + n); delete d;
  });
}
MC_CONFIG("large DisjointSet<uint32_t>") { largeds<uint32_t>(c, 310); }
MC_CONFIG("large DisjointSet<uint8_t>") { largeds<uint8_t>(c, 127); }
MC_CONFIG("MinSpanningTree: large graphs") { mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 1, 2, 8, 17, 33, 64, 100, 257 }; int n = ch.of(NS), k = 1 + ch(5), off = ch(3), rev = ch(2); std::vector<std::pair<uint32_t, uint32_t>> e, want; for(int i = 0; i < n; ++i) for(int j = 1; j <= k; ++j) { uint32_t x = i, y = (i * j + off + j) % n; if(rev) std::swap(x, y); e.push_back({ x, y }); }
    std::vector<int> p; for(int i = 0; i < n; ++i) p.push_back(i); for(auto& x : e) if(p[x.first] != p[x.second]) { DSys<uint32_t>::join(p, x.first, x.second); want.push_back(x); }
    auto t = LIB(DisjointSet<uint32_t>::MinSpanningTree((uint32_t)n, e.begin(), e.end())); MC_CHECK((size_t)t.Capacity() == want.size(), "tree has %d edges, expected %zu", (int)t.Capacity(), want.size()); for(size_t i = 0; i < want.size(); ++i) MC_CHECK(t[i] == want[i], "edge %zu of the tree is wrong", i); c.outcome(want.size()); }); }
