// BUILD: seq
// ArraySort, Map and the binary searches.
#include "mc.h"
#include "bss-util/ArraySort.h"
#include "bss-util/Map.h"
using namespace bss;
typedef std::vector<int> V;
static std::string str(const V& m) { std::string w; for(int v : m) w += mc::fmt("%d ", v); return w; }
template<class A, class T, bool DESC> struct SSys : mc::SysBase<SSys<A, T, DESC>> {
  typedef mc::SysBase<SSys> B; using B::op; A *a, *b; V ma, mb; static int K;
  SSys() { a = LIB(new A()); b = LIB(new A((size_t)2)); }
  ~SSys() { delete a; delete b; }
  static bool lt(int x, int y) { return DESC ? x > y : x < y; }
  static void ins(V& m, int v) { m.insert(std::upper_bound(m.begin(), m.end(), v, lt), v); }
  static void build(int N, int k) {
    K = k;
    auto room = [N](const SSys& s) { return (int)s.ma.size() < N; };
    for(int v = 1; v <= k; ++v) {
      op(mc::fmt("a.Insert(%d)", v), [v](SSys& s) { size_t i = LIB(s.a->Insert(T(v))); ins(s.ma, v); MC_CHECK(i < s.ma.size() && (int)(*s.a)[i] == v, "Insert(%d) returned index %zu which does not hold it", v, i); }, room);
      for(int i = 0; i < N; ++i) op(mc::fmt("a.ReplaceData(%d,%d)", i, v), [i, v](SSys& s) { size_t r; { T t(v); r = LIB(s.a->ReplaceData(i, t)); } s.ma.erase(s.ma.begin() + i); ins(s.ma, v); MC_CHECK(r < s.ma.size() && (int)(*s.a)[r] == v, "ReplaceData(%d,%d) returned %zu which does not hold it", i, v, r); }, [i](const SSys& s) { return i < (int)s.ma.size(); });
    }
    op("a.Insert(const&)", [k](SSys& s) { { T t((k + 1) / 2); LIB(s.a->Insert((const T&)t)); MC_CHECK((int)t == (k + 1) / 2, "Insert changed its argument"); } ins(s.ma, (k + 1) / 2); }, room);
    for(int i = 0; i <= N; ++i) op(mc::fmt("a.Remove(%d)", i), [i](SSys& s) { bool r = LIB(s.a->Remove(i)); MC_CHECK(r == (i < (int)s.ma.size()), "Remove(%d) returned %d for %zu elements", i, r, s.ma.size()); if(r) s.ma.erase(s.ma.begin() + i); });
    for(int i = 1; i <= N + 1; ++i) op(mc::fmt("a.Discard(%d)", i), [i](SSys& s) { LIB(s.a->Discard(i)); if(i > (int)s.ma.size()) s.ma.clear(); else s.ma.resize(s.ma.size() - i); });
    op("a.Clear", [](SSys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    op("a.SetCapacity(N)", [N](SSys& s) { LIB(s.a->SetCapacity(N)); MC_CHECK((int)s.a->Capacity() >= N, "SetCapacity"); });
    op("a = move(b)", [](SSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); MC_CHECK(s.b->Length() == 0, "moved-from array not empty"); });
    op("b = A(move(a))", [](SSys& s) { A* n = LIB(new A(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); MC_CHECK(s.a->Length() == 0, "moved-from array not empty"); });
    op("a = b", [](SSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
    op("b = A(a)", [](SSys& s) { A* n = LIB(new A(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
  }
  void one(A& x, const V& m, const char* n) {
    const A& cx = x; V g; for(const T* p = cx.begin(); p != cx.end(); ++p) g.push_back((int)*p);
    MC_CHECK(g == m, "%s is [%s], expected [%s]", n, str(g).c_str(), str(m).c_str());
    MC_CHECK(x.Length() == m.size() && x.Empty() == m.empty() && x.Capacity() >= x.Length(), "Length/Empty/Capacity wrong");
    for(size_t i = 0; i < m.size(); ++i) MC_CHECK((int)cx[i] == m[i], "operator[]");
    if(m.size()) MC_CHECK((int)x.Front() == m.front() && (int)cx.Back() == m.back(), "Front/Back");
    for(int v = 0; v <= K + 1; ++v) {
      T t(v); size_t f = x.Find(t); bool has = std::count(m.begin(), m.end(), v) > 0;
      MC_CHECK(has ? (f < m.size() && m[f] == v) : f == (size_t)-1, "Find(%d) is %zd in [%s]", v, (ssize_t)f, str(m).c_str());
      size_t ub = std::upper_bound(m.begin(), m.end(), v, lt) - m.begin(), lb = std::lower_bound(m.begin(), m.end(), v, lt) - m.begin();
      size_t bf = x.FindNear(t, true), af = x.FindNear(t, false);
      MC_CHECK(bf == ub - 1, "FindNear(%d,before) is %zd in [%s], expected %zd", v, (ssize_t)bf, str(m).c_str(), (ssize_t)ub - 1);
      MC_CHECK(af == (lb < m.size() ? lb : (size_t)-1), "FindNear(%d,after) is %zd in [%s]", v, (ssize_t)af, str(m).c_str());
    }
  }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { k.seq(ma); k.seq(mb); k.object(a, sizeof(A)); k.object(b, sizeof(A)); }
};
template<class A, class T, bool D> int SSys<A, T, D>::K;
template<class A, class T, bool D> void gos(mc::Ctx& c, int N, int k, int depth) { typedef SSys<A, T, D> S; S::build(N, k); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(300000, 3000000); mc::bfs<S>(c, o); }
MC_CONFIG("ArraySort<int>, 5 values") { gos<ArraySort<int>, int, false>(c, c.pick(5, 6), c.pick(4, 5), c.pick(7, 8)); }
MC_CONFIG("ArraySort<int,descending>") { gos<ArraySort<int, CompTInv<int>>, int, true>(c, c.pick(4, 6), 4, c.pick(7, 8)); }
MC_CONFIG("ArraySort<Obj,SAFE>") { gos<ArraySort<mc::Obj, CompT<mc::Obj>, size_t, ARRAY_SAFE>, mc::Obj, false>(c, c.pick(4, 5), c.pick(3, 4), c.pick(6, 7)); }
// stability-free bulk: all insertion orders of 7 distinct keys
MC_CONFIG("ArraySort: all insertion orders") { mc::enumerate(c, [&](mc::Choose& ch) { int n = c.pick(7, 8); ArraySort<int>* a = LIB(new ArraySort<int>()); V left; for(int i = 0; i < n; ++i) left.push_back(i); V m; while(left.size()) { int k = ch(left.size()); int v = left[k]; left.erase(left.begin() + k); size_t i = LIB(a->Insert(v)); MC_CHECK((*a)[i] == v, "Insert returned %zu", i); m.push_back(v); std::sort(m.begin(), m.end()); MC_CHECK(V(a->begin(), a->end()) == m, "not sorted: [%s]", str(V(a->begin(), a->end())).c_str()); } c.outcome(1); delete a; }); }
// Map
template<class A, class T> struct MSys : mc::SysBase<MSys<A, T>> {
  typedef mc::SysBase<MSys> B; using B::op; A *a, *b; typedef std::vector<std::pair<int, int>> M; M ma, mb; static int K;
  MSys() { a = LIB(new A()); b = LIB(new A()); }
  ~MSys() { delete a; delete b; }
  static M got(const A& x) { M g; for(size_t i = 0; i < x.Length(); ++i) g.push_back({ (int)x.KeyIndex(i), (int)x.DataIndex(i) }); return g; }
  static std::string s(const M& m) { std::string w; for(auto& p : m) w += mc::fmt("%d:%d ", p.first, p.second); return w; }
  // the multiset must match; the model then adopts the order among equal keys
  static void adopt(A& x, M& m, const char* what) { M g = got(x), h = g, w = m; MC_CHECK(std::is_sorted(g.begin(), g.end(), [](auto& p, auto& q) { return p.first < q.first; }), "%s: keys not sorted: %s", what, s(g).c_str()); std::sort(h.begin(), h.end()); std::sort(w.begin(), w.end()); MC_CHECK(h == w, "%s: holds %s, expected %s", what, s(g).c_str(), s(m).c_str()); m = g; }
  static void build(int N, int k, bool dup) {
    K = k;
    for(int v = 1; v <= k; ++v) {
      auto room = [N, v, dup](const MSys& s) { return (int)s.ma.size() < N && (dup || !std::count_if(s.ma.begin(), s.ma.end(), [v](auto& p) { return p.first == v; })); };
      for(int d = 1; d <= 2; ++d) {
        op(mc::fmt("a.Insert(%d,%d)", v, d), [v, d](MSys& s) { size_t i; { T kk(v); if(d == 1) i = LIB(s.a->Insert(kk, T(d))); else { T dd(d); i = LIB(s.a->Insert(kk, (const T&)dd)); } } s.ma.push_back({ v, d }); adopt(*s.a, s.ma, "Insert"); MC_CHECK(i < s.ma.size() && s.ma[i] == std::make_pair(v, d), "Insert(%d,%d) returned %zu", v, d, i); }, room);
        if(d == 2) for(int i = 0; i < N; ++i) op(mc::fmt("a.Replace(%d,%d,%d)", i, v, d), [v, d, i](MSys& s) { size_t r; { T kk(v), dd(d); r = LIB(s.a->Replace(i, kk, (const T&)dd)); } s.ma[i] = { v, d }; adopt(*s.a, s.ma, "Replace"); MC_CHECK(r < s.ma.size() && s.ma[r] == std::make_pair(v, d), "Replace returned %zu", r); }, [i, dup, v](const MSys& s) { return i < (int)s.ma.size() && (dup || s.ma[i].first == v); });
        op(mc::fmt("a.Set(%d,%d)", v, 2 + d), [v, d](MSys& s) { T kk(v), dd(2 + d); size_t r = LIB(s.a->Set(kk, dd)); int n = 0, at = -1; for(size_t i = 0; i < s.ma.size(); ++i) if(s.ma[i].first == v) { ++n; at = i; } if(n) { MC_CHECK(r < s.ma.size() && s.ma[r].first == v, "Set(%d) returned %zd", v, (ssize_t)r); s.ma[r].second = 2 + d; } MC_CHECK(got(*s.a) == s.ma, "Set(%d,%d): holds %s, expected %s", v, 2 + d, MSys::s(got(*s.a)).c_str(), MSys::s(s.ma).c_str()); });
      }
      for(int i = 0; i < N; ++i) op(mc::fmt("a.ReplaceKey(%d,%d)", i, v), [v, i](MSys& s) { size_t r; { T kk(v); r = LIB(s.a->ReplaceKey(i, kk)); } if(i >= (int)s.ma.size()) { MC_CHECK(r == (size_t)-1, "ReplaceKey out of range returned %zu", r); return; } int d = s.ma[i].second; s.ma[i].first = v; adopt(*s.a, s.ma, "ReplaceKey"); MC_CHECK(r < s.ma.size() && s.ma[r] == std::make_pair(v, d), "ReplaceKey returned %zu", r); }, [dup, v](const MSys& s) { return dup || !std::count_if(s.ma.begin(), s.ma.end(), [v](auto& p) { return p.first == v; }); });
      op(mc::fmt("a.Remove(%d)", v), [v](MSys& s) { T kk(v); size_t r = LIB(s.a->Remove(kk)); bool has = std::count_if(s.ma.begin(), s.ma.end(), [v](auto& p) { return p.first == v; }); if(!has) MC_CHECK(r == (size_t)-1, "Remove of a missing key returned %zd", (ssize_t)r); else { MC_CHECK(r < s.ma.size() && s.ma[r].first == v, "Remove(%d) returned %zd", v, (ssize_t)r); s.ma.erase(s.ma.begin() + r); } });
    }
    for(int i = 0; i <= N; ++i) op(mc::fmt("a.RemoveIndex(%d)", i), [i](MSys& s) { bool r = LIB(s.a->RemoveIndex(i)); MC_CHECK(r == (i < (int)s.ma.size()), "RemoveIndex returned %d", r); if(r) s.ma.erase(s.ma.begin() + i); });
    op("a.Discard(1)", [](MSys& s) { LIB(s.a->Discard(1)); if(s.ma.size()) s.ma.pop_back(); });
    op("a.Clear", [](MSys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    op("a = move(b)", [](MSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); });
    op("b = A(move(a))", [](MSys& s) { A* n = LIB(new A(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); });
    op("a = b", [](MSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
    op("b = A(a)", [](MSys& s) { A* n = LIB(new A(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
  }
  void one(A& x, const M& m, const char* n) {
    MC_CHECK(got(x) == m, "%s holds %s, expected %s", n, s(got(x)).c_str(), s(m).c_str());
    for(size_t i = 0; i < m.size(); ++i) MC_CHECK((int)x(i) == m[i].second && (int)std::get<0>(x[i]) == m[i].first, "operator() / operator[]");
    for(int v = 0; v <= K + 1; ++v) {
      T t(v); size_t r = x.Get(t); bool has = false; size_t lb = 0, ub = 0; for(auto& p : m) { has |= p.first == v; lb += p.first < v; ub += p.first <= v; }
      MC_CHECK(has ? r < m.size() && m[r].first == v : r == (size_t)-1, "Get(%d) is %zd in %s", v, (ssize_t)r, s(m).c_str());
      if(has) { int d = (int)x.GetData(t); bool ok = false; for(auto& p : m) ok |= p.first == v && p.second == d; MC_CHECK(ok, "GetData(%d) is %d in %s", v, d, s(m).c_str()); }
      MC_CHECK(x.GetNear(t, true) == ub - 1, "GetNear(%d,before) is %zd in %s", v, (ssize_t)x.GetNear(t, true), s(m).c_str());
      MC_CHECK(x.GetNear(t, false) == (lb < m.size() ? lb : (size_t)-1), "GetNear(%d,after) is %zd in %s", v, (ssize_t)x.GetNear(t, false), s(m).c_str());
    }
  }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { for(auto* m : { &ma, &mb }) { k.word(m->size()); for(auto& p : *m) { k.word(p.first); k.word(p.second); } } k.object(a, sizeof(A)); k.object(b, sizeof(A)); }
};
template<class A, class T> int MSys<A, T>::K;
template<class A, class T> void gom(mc::Ctx& c, int N, int k, bool dup, int depth) { typedef MSys<A, T> S; S::build(N, k, dup); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(300000, 3000000); mc::bfs<S>(c, o); }
MC_CONFIG("Map<int,int>, distinct keys") { gom<Map<int, int>, int>(c, 4, 4, false, c.pick(6, 7)); }
MC_CONFIG("Map<int,int>, duplicate keys") { gom<Map<int, int, CompT<int>, uint64_t>, int>(c, 4, 3, true, c.pick(6, 7)); }
MC_CONFIG("Map<Obj,Obj,SAFE>") { gom<Map<mc::Obj, mc::Obj, CompT<mc::Obj>, size_t, ARRAY_SAFE>, mc::Obj>(c, 3, 3, true, c.pick(6, 7)); }
// Binary searches: every sorted array of length 0..7 over 0..5, every key, every subrange
MC_CONFIG("BinarySearch*: all sorted arrays x keys x ranges") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch(c.pick(8, 10)); int a[10]; int cur = 0; for(int i = 0; i < n; ++i) { cur += ch(c.pick(4, 3)); a[i] = cur * 2; if(cur > 4) cur = 4; }
    for(int i = 1; i < n; ++i) if(a[i] < a[i - 1]) a[i] = a[i - 1];
    std::vector<int> v(a, a + n); if(!n) a[0] = 99;
    for(int f = 0; f <= n; ++f) for(int l = f; l <= n; ++l) for(int k = -1; k <= 10; ++k) {
      int* h = v.data(); int lb = std::lower_bound(h + f, h + l, k) - h, ub = std::upper_bound(h + f, h + l, k) - h;
      int r1 = BinarySearchBefore<int, int, CompT<int>>(h, k, f, l), r2 = BinarySearchAfter<int, int, CompT<int>>(h, k, f, l);
      int r3 = BinarySearchExact<int, int, int, CompT<int>>(h, k, f, l);
      MC_CHECK(r1 == ub - 1 && r2 == lb, "search of %d in [%d,%d) of [%s]: before %d after %d, expected %d %d", k, f, l, str(v).c_str(), r1, r2, ub - 1, lb);
      MC_CHECK(lb < ub ? r3 >= f && r3 < l && v[r3] == k : r3 == -1, "BinarySearchExact(%d) in [%d,%d) of [%s] is %d", k, f, l, str(v).c_str(), r3);
      size_t u1 = BinarySearchBefore<int, size_t, CompT<int>>(h, k, f, l), u3 = BinarySearchExact<int, int, size_t, CompT<int>>(h, k, f, l); uint8_t u4 = BinarySearchExact<int, int, uint8_t, CompT<int>>(h, k, f, l), u5 = BinarySearchAfter<int, uint8_t, CompT<int>>(h, k, f, l);
      MC_CHECK(u1 == (size_t)(ub - 1) && u3 == (size_t)r3 && u4 == (uint8_t)r3 && u5 == lb, "unsigned index type gives a different result");
    }
    c.outcome(n);
  });
}

// Large arrays and maps: insertion orders of several kinds, sizes around the powers of two, every kind of removal and replacement order.
static std::vector<int> order(int kind, int n) { // a permutation of 0..n-1
  std::vector<int> v; static const int ST[] = { 3, 5, 7, 11, 13 };
  if(kind == 0) for(int i = 0; i < n; ++i) v.push_back(i); else if(kind == 1) for(int i = n; i-- > 0;) v.push_back(i);
  else if(kind == 2) for(int i = 0; i < n; ++i) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 3) for(int i = n; i-- > 0;) v.push_back(i & 1 ? n - 1 - i / 2 : i / 2);
  else if(kind == 4) { int b = 0; while((1 << b) < n) ++b; for(int i = 0; i < (1 << b); ++i) { int r = 0; for(int k = 0; k < b; ++k) if(i >> k & 1) r |= 1 << (b - 1 - k); if(r < n) v.push_back(r); } }
  else { int s = ST[kind - 5]; for(int o = 0; o < s; ++o) for(int i = o; i < n; i += s) v.push_back(i); }
  return v;
}

template<class A, class T, bool DESC> static void largesort(mc::Ctx& c) {
  typedef SSys<A, T, DESC> S;
  mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 9, 15, 16, 17, 33, 64, 65, 100, 130 };
    int n = ch.of(NS), dv = ch(2) ? 3 : 1; S::K = n; auto in = order(ch(10), n), out = order(ch(10), n); int how = ch(3); S s;
    for(int v : in) { v = v / dv + 1; size_t i = LIB(s.a->Insert(T(v))); S::ins(s.ma, v); MC_CHECK(i < s.ma.size() && (int)(*s.a)[i] == v, "Insert(%d) returned index %zu", v, i); }
    s.check(); int k = 0;
    for(int v : out) { int w = v / dv + 1; T t(w); size_t at = s.a->Find(t);
      if(how == 0) { MC_CHECK(at < s.ma.size() && s.ma[at] == w, "Find(%d) is %zd", w, (ssize_t)at); MC_CHECK(LIB(s.a->Remove(at)), "Remove failed"); s.ma.erase(s.ma.begin() + at); }
      else { size_t i = (size_t)v * 7 % s.ma.size(); int x = how == 1 ? w : n + 1 - w; size_t r; { T y(x); r = LIB(s.a->ReplaceData(i, y)); } s.ma.erase(s.ma.begin() + i); S::ins(s.ma, x); MC_CHECK(r < s.ma.size() && (int)(*s.a)[r] == x, "ReplaceData(%zu,%d) returned %zu", i, x, r); }
      if(k++ % 9 == 0) s.one(*s.a, s.ma, "a"); }
    s.check();
  });
}
MC_CONFIG("large ArraySort<int>") { largesort<ArraySort<int>, int, false>(c); }
MC_CONFIG("large ArraySort<Obj,SAFE,descending>") { largesort<ArraySort<mc::Obj, CompTInv<mc::Obj>, size_t, ARRAY_SAFE>, mc::Obj, true>(c); }
template<class A, class T> static void largemap(mc::Ctx& c) {
  typedef MSys<A, T> S;
  mc::enumerate(c, [&](mc::Choose& ch) { static const int NS[] = { 9, 15, 16, 17, 33, 64, 65, 100 };
    int n = ch.of(NS); S::K = n; auto in = order(ch(10), n), out = order(ch(10), n); int how = ch(3); S s;
    for(int v : in) { ++v; { T kk(v); size_t i = LIB(s.a->Insert(kk, T(v % 50))); MC_CHECK((int)s.a->KeyIndex(i) == v, "Insert(%d) returned %zu", v, i); } s.ma.push_back({ v, v % 50 }); S::adopt(*s.a, s.ma, "Insert"); }
    s.check(); int k = 0;
    for(int v : out) { ++v; size_t at; { T kk(v); at = s.a->Get(kk); }
      if(how == 0) { MC_CHECK(at < s.ma.size() && s.ma[at].first == v, "Get(%d) is %zd", v, (ssize_t)at); { T kk(v); LIB(s.a->Remove(kk)); } s.ma.erase(s.ma.begin() + at); }
      else if(how == 1) { MC_CHECK(at < s.ma.size() && s.ma[at].first == v, "Get(%d) is %zd", v, (ssize_t)at); { T kk(v), dd(v % 31); LIB(s.a->Set(kk, dd)); } s.ma[at].second = v % 31; }
      else { MC_CHECK(at < s.ma.size() && s.ma[at].first == v, "Get(%d) is %zd", v, (ssize_t)at); int x = n + 1 + k; { T kk(x); LIB(s.a->ReplaceKey(at, kk)); } s.ma[at].first = x; S::adopt(*s.a, s.ma, "ReplaceKey"); }
      if(k++ % 9 == 0) s.one(*s.a, s.ma, "a"); }
    s.check();
  });
}
MC_CONFIG("large Map<int,int>") { largemap<Map<int, int>, int>(c); }
MC_CONFIG("large Map<Obj,Obj,SAFE>") { largemap<Map<mc::Obj, mc::Obj, CompT<mc::Obj>, size_t, ARRAY_SAFE>, mc::Obj>(c); }
MC_CONFIG("BinarySearch*: long arrays") {
  mc::enumerate(c, [&](mc::Choose& ch) { int n = 1 + ch(c.pick(140, 300)), step = ch(3) + 1, rep = ch(3) + 1; std::vector<int> v; for(int i = 0; i < n; ++i) v.push_back(i / rep * step); int* h = v.data();
    for(int k = -1; k <= v.back() + 1; ++k) { int lb = std::lower_bound(h, h + n, k) - h, ub = std::upper_bound(h, h + n, k) - h; int r1 = BinarySearchBefore<int, int, CompT<int>>(h, k, 0, n), r2 = BinarySearchAfter<int, int, CompT<int>>(h, k, 0, n), r3 = BinarySearchExact<int, int, int, CompT<int>>(h, k, 0, n); size_t u3 = BinarySearchExact<int, int, size_t, CompT<int>>(h, k, 0, n);
      MC_CHECK(r1 == ub - 1 && r2 == lb && (lb < ub ? r3 >= lb && r3 < ub : r3 == -1) && u3 == (size_t)r3, "search of %d in %d elements, step %d, runs of %d: before %d after %d exact %d", k, n, step, rep, r1, r2, r3); } });
}
