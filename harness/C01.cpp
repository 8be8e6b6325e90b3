// BUILD: seq
// Array, DynArray, CompactArray: sequence semantics and element lifetimes under every history of two arrays.
#include "mc.h"
#include "bss-util/Array.h"
#include "bss-util/DynArray.h"
#include "bss-util/CompactArray.h"
using namespace bss;
enum { ARR, DYN, CMP };
template<class A> struct ArrOf; template<class T, class C, ARRAY_TYPE AT, class Al> struct ArrOf<DynArray<T, C, AT, Al>> { typedef Array<T, C, AT, Al> type; };
template<int KIND, class A, class T, bool COPY, bool SIMPLE> struct Sys : mc::SysBase<Sys<KIND, A, T, COPY, SIMPLE>> {
  typedef std::vector<int> V; typedef mc::SysBase<Sys> B;
  using B::op; A *a, *b; V ma, mb;
  Sys() { a = LIB(new A()); b = LIB(new A()); }
  ~Sys() { delete a; delete b; }
  static size_t len(const A& x) { if constexpr(KIND == ARR) return x.Capacity(); else return x.Length(); }
  static void build(int N, bool light = false) {

    for(int v = 1; v <= 2; ++v) {
      op(mc::fmt("a.Add(%d)", v), [v](Sys& s) { size_t r = LIB(s.a->Add(T(v))); MC_CHECK(r == s.ma.size(), "Add returned index %zu, expected %zu", r, s.ma.size()); s.ma.push_back(v); }, [N](const Sys& s) { return (int)s.ma.size() < N; });
      if constexpr(COPY) if(v == 1) op("a.Add(const&)", [](Sys& s) { { T t(3); LIB(s.a->Add((const T&)t)); MC_CHECK((int)t == 3, "Add(const T&) changed its argument"); } s.ma.push_back(3); }, [N](const Sys& s) { return (int)s.ma.size() < N; });
      for(int i = 0; i <= N; ++i) op(mc::fmt("a.Insert(%d,%d)", v, i), [v, i](Sys& s) { LIB(s.a->Insert(T(v), i)); s.ma.insert(s.ma.begin() + i, v); }, [N, i](const Sys& s) { return i <= (int)s.ma.size() && (int)s.ma.size() < N; });
    }
    for(int i = 0; i < N; ++i) op(mc::fmt("a.Remove(%d)", i), [i](Sys& s) { LIB(s.a->Remove(i)); s.ma.erase(s.ma.begin() + i); }, [i](const Sys& s) { return i < (int)s.ma.size(); });
    op("a.RemoveLast", [](Sys& s) { LIB(s.a->RemoveLast()); s.ma.pop_back(); }, [](const Sys& s) { return !s.ma.empty(); });
    op("a.Clear", [](Sys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    if constexpr(KIND == DYN) op("a.AddConstruct(4)", [](Sys& s) { size_t r = LIB(s.a->AddConstruct(4)); MC_CHECK(r == s.ma.size(), "AddConstruct returned %zu", r); s.ma.push_back(4); }, [N](const Sys& s) { return (int)s.ma.size() < N; });
    if constexpr(KIND != ARR) for(int n : [N] { std::vector<int> v; for(int k = 0; k <= N; ++k) v.push_back(k); v.push_back(16); return v; }()) op(mc::fmt("a.SetLength(%d)", n), [n](Sys& s) { size_t old = s.ma.size(); LIB(s.a->SetLength(n)); s.ma.resize(n, SIMPLE ? 5 : 0); if constexpr(SIMPLE) for(size_t k = old; k < (size_t)n; ++k) s.a->begin()[k] = 5; });
    for(int n = 0; n <= N + 1; ++n) {
      op(mc::fmt("a.SetCapacity(%d)", n), [n](Sys& s) {
        size_t old = s.ma.size(); LIB(s.a->SetCapacity(n));
        if constexpr(KIND == ARR) { s.ma.resize(n, SIMPLE ? 5 : 0); if constexpr(SIMPLE) for(size_t k = old; k < (size_t)n; ++k) s.a->begin()[k] = 5; }
        else MC_CHECK((int)s.a->Capacity() >= n, "SetCapacity(%d) left capacity %d", n, (int)s.a->Capacity());
      }, [n, N](const Sys& s) { return KIND != ARR || n <= N; });
      if constexpr(KIND == ARR) op(mc::fmt("a.SetCapacityDiscard(%d)", n), [n](Sys& s) { if(n == (int)s.ma.size()) { LIB(s.a->SetCapacityDiscard(n)); return; } LIB(s.a->SetCapacityDiscard(n)); s.ma.assign(n, SIMPLE ? 5 : 0); if constexpr(SIMPLE) for(int k = 0; k < n; ++k) s.a->begin()[k] = 5; }, [n, N](const Sys& s) { return n <= N; });
    }
    if constexpr(KIND == DYN) { typedef typename ArrOf<A>::type AR; // the fixed-size array of the same kind
      op("a = move(Array{1,2,1})", [](Sys& s) { { AR r; for(int v : { 1, 2, 1 }) r.Add(T(v)); LIB(*s.a = std::move(r)); MC_CHECK(r.Capacity() == 0, "moved-from Array has length %zu", (size_t)r.Capacity()); } s.ma = { 1, 2, 1 }; }, [N](const Sys& s) { return N >= 3; });
      op("a = move(Array{})", [](Sys& s) { { AR r; LIB(*s.a = std::move(r)); } s.ma.clear(); });
      if constexpr(COPY) op("a = Array{2,2}", [](Sys& s) { { AR r; r.Add(T(2)); r.Add(T(2)); LIB(*s.a = r); MC_CHECK(r.Capacity() == 2 && (int)r[0] == 2 && (int)r[1] == 2, "assigning an Array changed it"); } s.ma = { 2, 2 }; }, [N](const Sys& s) { return N >= 2; });
    }
    op("a = move(b)", [](Sys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); MC_CHECK(len(*s.b) == 0, "moved-from array has length %zu", len(*s.b)); });
    op("b = A(move(a))", [](Sys& s) { A* n = LIB(new A(std::move(*s.a))); MC_CHECK(len(*s.a) == 0, "moved-from array has length %zu", len(*s.a)); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); });
    if constexpr(COPY) {
      op("a.Set({1,2,1})", [](Sys& s) { { T t[3] = { T(1), T(2), T(1) }; LIB(s.a->Set(t, 3)); } s.ma = { 1, 2, 1 }; }, [N](const Sys& s) { return N >= 3; });
      op("a = Slice{2}", [](Sys& s) { { T t[1] = { T(2) }; LIB(*s.a = Slice<const T, typename std::decay<decltype(s.a->Capacity())>::type>(t, 1)); } s.ma = { 2 }; });
      op("a.Set(0)", [](Sys& s) { LIB(s.a->Set((const T*)nullptr, 0)); s.ma.clear(); });
      op("a = {1,2}", [](Sys& s) { A* n = LIB(new A({ T(1), T(2) })); delete s.a; s.a = n; s.ma = { 1, 2 }; }, [N](const Sys& s) { return N >= 2; });
      op("a = {1,2,2,1}", [](Sys& s) { A* n = LIB(new A({ T(1), T(2), T(2), T(1) })); delete s.a; s.a = n; s.ma = { 1, 2, 2, 1 }; }, [N](const Sys& s) { return N >= 4; });
      op("a = A(Slice{2,1})", [](Sys& s) { A* n; { T t[2] = { T(2), T(1) }; n = LIB(new A(Slice<const T, typename std::decay<decltype(s.a->Capacity())>::type>(t, 2))); } delete s.a; s.a = n; s.ma = { 2, 1 }; }, [N](const Sys& s) { return N >= 2; });
      op("a = b", [](Sys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
      op("b = A(a)", [](Sys& s) { A* n = LIB(new A(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
      op("a = a", [](Sys& s) { A& r = *s.a; LIB(*s.a = r); });
      if constexpr(KIND != CMP) {
        op("a += b", [](Sys& s) { LIB(*s.a += *s.b); s.ma.insert(s.ma.end(), s.mb.begin(), s.mb.end()); }, [N](const Sys& s) { return (int)(s.ma.size() + s.mb.size()) <= N; });
        op("a += a", [](Sys& s) { A& r = *s.a; LIB(r += r); V m = s.ma; s.ma.insert(s.ma.end(), m.begin(), m.end()); }, [N](const Sys& s) { return (int)s.ma.size() * 2 <= N; });
        op("b = a + b", [](Sys& s) { A* n = LIB(new A(*s.a + *s.b)); delete s.b; s.b = n; V t = s.ma; t.insert(t.end(), s.mb.begin(), s.mb.end()); s.mb = t; }, [N](const Sys& s) { return (int)(s.ma.size() + s.mb.size()) <= N; });
      }
    }
  }
  void one(const A& x, const V& m, const char* n) {
    size_t l = len(x); std::string got; const T* p = x.begin(); bool ok = l == m.size() && (size_t)(x.end() - x.begin()) == m.size();
    for(size_t i = 0; i < l && i < 64; ++i) { int v = (int)p[i]; got += mc::fmt("%d ", v); if(i < m.size() && v != m[i]) ok = false; }
    std::string w; for(int v : m) w += mc::fmt("%d ", v);
    MC_CHECK(ok, "array %s is [%s], expected [%s]", n, got.c_str(), w.c_str());
    MC_CHECK(x.Capacity() >= l, "capacity %zu is less than length %zu", (size_t)x.Capacity(), l);
    MC_CHECK(x.Empty() == m.empty(), "Empty() is wrong");
    if constexpr(KIND != CMP) { auto sl = x.GetSlice(); MC_CHECK(sl.length == m.size() && (!l || sl.start == p), "GetSlice() is wrong"); }
    if(l) { MC_CHECK((int)x.Front() == m.front() && (int)x.Back() == m.back(), "Front/Back are %d/%d", (int)x.Front(), (int)x.Back()); MC_CHECK((int)x[(size_t)(l - 1)] == m.back(), "operator[] is wrong"); MC_CHECK((int)const_cast<A&>(x).Front() == m.front() && (int)const_cast<A&>(x).Back() == m.back(), "Front/Back are wrong"); }
  }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { k.seq(ma); k.seq(mb); k.object(a, sizeof(A)); k.object(b, sizeof(A)); }
};
template<int KIND, class A, class T, bool COPY, bool SIMPLE> void go(mc::Ctx& c, int N, int depth) { typedef Sys<KIND, A, T, COPY, SIMPLE> S; S::build(N); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(1500000, 6000000); mc::bfs<S>(c, o); }
MC_CONFIG("Array<int>") { go<ARR, Array<int>, int, true, true>(c, c.pick(3, 4), c.pick(7, 8)); }
MC_CONFIG("Array<Rel,CONSTRUCT>") { go<ARR, Array<mc::Rel, size_t, ARRAY_CONSTRUCT>, mc::Rel, true, false>(c, c.pick(3, 4), 7); }
MC_CONFIG("Array<Obj,SAFE>") { go<ARR, Array<mc::Obj, size_t, ARRAY_SAFE>, mc::Obj, true, false>(c, c.pick(3, 4), 7); }
MC_CONFIG("Array<MoveOnly,MOVE>") { go<ARR, Array<mc::MoveOnly, size_t, ARRAY_MOVE>, mc::MoveOnly, false, false>(c, c.pick(4, 5), c.pick(6, 7)); }
MC_CONFIG("DynArray<int>") { go<DYN, DynArray<int>, int, true, true>(c, c.pick(4, 5), c.pick(5, 6)); }
MC_CONFIG("DynArray<short,uint8>") { go<DYN, DynArray<short, uint8_t>, short, true, true>(c, c.pick(4, 5), c.pick(5, 6)); }
MC_CONFIG("DynArray<Rel,CONSTRUCT>") { go<DYN, DynArray<mc::Rel, size_t, ARRAY_CONSTRUCT>, mc::Rel, true, false>(c, c.pick(4, 5), c.pick(5, 6)); }
MC_CONFIG("DynArray<Obj,SAFE>") { go<DYN, DynArray<mc::Obj, size_t, ARRAY_SAFE>, mc::Obj, true, false>(c, c.pick(4, 5), c.pick(5, 6)); }
MC_CONFIG("DynArray<MoveOnly,MOVE>") { go<DYN, DynArray<mc::MoveOnly, size_t, ARRAY_MOVE>, mc::MoveOnly, false, false>(c, c.pick(4, 5), c.pick(5, 6)); }
MC_CONFIG("CompactArray<int,2>") { go<CMP, CompactArray<int, 2>, int, true, true>(c, c.pick(4, 5), c.pick(5, 6)); }
MC_CONFIG("CompactArray<long,1,uint32>") { go<CMP, CompactArray<long, 1, uint32_t>, long, true, true>(c, c.pick(4, 5), c.pick(5, 6)); }
MC_CONFIG("CompactArray<char,9>") { go<CMP, CompactArray<char, 9>, char, true, true>(c, c.pick(11, 12), 4); }

// Slices of slices: a signed length counts negative ends from the back, an end of 0 is the end.
template<class CT> static void slices(mc::Ctx& c) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch(c.pick(6, 8)); int* d = (int*)malloc(n * sizeof(int) + 1); for(int i = 0; i < n; ++i) d[i] = 10 + i;
    Slice<int, CT> s(d, (CT)n); int lo = 0, hi = n; // the range of d the slice has to be
    int steps = ch(3) + 1;
    for(int k = 0; k < steps; ++k) {
      int len = hi - lo, how = ch(5); const Slice<int, CT> cs(s); Slice<int, CT> r;
      if(how == 0) { if(!len) break; Slice<int, CT> old = LIB(s++); MC_CHECK(old.start == d + lo && (int)old.length == len, "s++ gave back something else"); ++lo; }
      else if(how == 1) { if(!len) break; r = LIB(++s); MC_CHECK(r.start == s.start && r.length == s.length, "++s gave back something else"); ++lo; }
      else if(how == 2) { int b = ch(len + 1); CT bb = (CT)b; if(std::is_signed<CT>::value && b < len && ch(2)) bb = (CT)(b - len); s = ch(2) ? LIB(s(bb)) : Slice<int, CT>(LIB(cs(bb))); lo += b; }
      else { // both ends
        int b = ch(len + 1), e = b + ch(len - b + 1); CT bb = (CT)b, ee = (CT)e; if(std::is_signed<CT>::value) { if(b < len && ch(2)) bb = (CT)(b - len); if(ch(2)) ee = (CT)(e - len); }
        if(ee == 0) e = len; // an end of zero is the end
        s = how == 3 ? LIB(s(bb, ee)) : Slice<int, CT>(LIB(cs(bb, ee))); hi = lo + e; lo += b;
      }
      MC_CHECK(s.start == d + lo && (int)s.length == hi - lo, "slice is [%d,%d), expected [%d,%d)", (int)(s.start - d), (int)(s.start - d + s.length), lo, hi);
      MC_CHECK(s.begin() == d + lo && s.end() == d + hi && !s == (lo == hi) && s.Valid() == (lo != hi), "begin/end/Valid disagree with the range");
      if(lo != hi) { MC_CHECK(s.Front() == 10 + lo && s.Back() == 9 + hi, "Front/Back are wrong"); for(int i = 0; i < hi - lo; ++i) MC_CHECK(s[(CT)i] == 10 + lo + i, "element %d is wrong", i); }
    }
    free(d);
  });
}
MC_CONFIG("Slice<int,int>") { slices<int>(c); }
MC_CONFIG("Slice<int,size_t>") { slices<size_t>(c); }
// Multi-dimensional views: row-major, one element per index tuple.
MC_CONFIG("ArrayMultiRef") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int z = ch(4) + 1, y = ch(4) + 1, x = ch(4) + 1, w = ch(3) + 1; std::vector<int> d(z * y * x * w); for(size_t i = 0; i < d.size(); ++i) d[i] = (int)i;
    ArrayMultiRef<int, int, int, int> r(d.data(), z, y, x); ArrayMultiRef<int, int, int> r2(d.data(), z, y); ArrayMultiRef<int, short, size_t, int, long> r4(d.data(), (short)z, (size_t)y, x, w);
    ArrayMultiRef<int, int, int, int> rc(r);
    for(int a = 0; a < z; ++a) for(int b = 0; b < y; ++b) { MC_CHECK(&r2(a, b) == &d[a * y + b], "2 dimensions: wrong element");
      for(int e = 0; e < x; ++e) { MC_CHECK(&r(a, b, e) == &d[(a * y + b) * x + e] && &rc(a, b, e) == &r(a, b, e) && r.GetIndice(a, b, e) == (a * y + b) * x + e, "3 dimensions: wrong element");
        for(int f = 0; f < w; ++f) MC_CHECK(&r4((short)a, (size_t)b, e, (long)f) == &d[((a * y + b) * x + e) * w + f], "4 dimensions: wrong element"); } }
    MC_CHECK(!!r && r == d.data() && !(r != d.data()) && (int*)r == d.data(), "pointer view is wrong");
  });
}
// VARARRAY: on the stack or, beyond 64 KB, on the heap; elements live exactly as long as the array.
template<class T> static void vararray(size_t n) {
  size_t live = (size_t)mc::Obj::live;
  { VARARRAY(T, v, n); MC_CHECK(v.Length() == n && (size_t)(v.end() - v.begin()) == n && v.GetSlice().length == n && v.GetSlice().start == v.begin(), "length %zu, expected %zu", v.Length(), n);
    if(!std::is_trivial<T>::value) MC_CHECK((size_t)mc::Obj::live == live + n, "%zu elements were constructed, expected %zu", (size_t)mc::Obj::live - live, n);
    for(size_t i = 0; i < n; ++i) v[i] = T((int)(i & 7)); for(size_t i = 0; i < n; ++i) MC_CHECK((int)v[i] == (int)(i & 7), "element %zu is wrong", i);
    if(n) MC_CHECK((int)v.Front() == 0 && (int)v.Back() == (int)((n - 1) & 7) && (int)*v == 0, "Front/Back are wrong"); }
  MC_CHECK((size_t)mc::Obj::live == live, "elements were not destroyed");
}
MC_CONFIG("VARARRAY") {
  mc::enumerate(c, [&](mc::Choose& ch) { int k = ch(3); size_t sz = k == 0 ? 1 : k == 1 ? 8 : sizeof(mc::Obj), edge = 0xFFFF / sz; size_t n = ch(2) ? edge - 2 + ch(5) : ch(5);
    if(k == 0) vararray<char>(n); else if(k == 1) vararray<long>(n); else vararray<mc::Obj>(n); });
}

// Large arrays: every start length of a lattice that straddles the powers of two, every way of getting there, every pair of operations.
template<int KIND, class A, class T, bool COPY, bool SIMPLE> static void large(mc::Ctx& c) {
  static const int NS[] = { 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500 };
  typedef std::vector<int> V; typedef typename std::decay<decltype(std::declval<A>().Capacity())>::type CT;
  static V want; static A* cur;
  auto len = [](const A& x) -> size_t { if constexpr(KIND == ARR) return x.Capacity(); else return x.Length(); };
  auto val = [](int i) { return 1 + i % 120; };
  auto same = [&](const A& x, const V& m, const char* n) { MC_CHECK(len(x) == m.size() && x.Capacity() >= m.size(), "%s has length %zu, expected %zu", n, len(x), m.size()); const T* p = x.begin(); for(size_t i = 0; i < m.size(); ++i) MC_CHECK((int)p[i] == m[i], "%s[%zu] is %d, expected %d", n, i, (int)p[i], m[i]); };
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch.of(NS); if(sizeof(CT) == 1 && n > 70) n = 70; V m; A* a = LIB(new A()); A* b = nullptr;
    int how = ch(4);
    if(how == 0) for(int i = 0; i < n; ++i) { LIB(a->Add(T(val(i)))); m.push_back(val(i)); }
    else if(how == 1) { if(KIND == ARR) n = n / 2 + 1; for(int i = 0; i < n; ++i) { LIB(a->Insert(T(val(i)), (CT)(i / 2))); m.insert(m.begin() + i / 2, val(i)); } }
    else if(how == 2) { if constexpr(KIND != ARR) LIB(a->SetCapacity((CT)n)); for(int i = 0; i < n; ++i) { LIB(a->Add(T(val(i)))); m.push_back(val(i)); } }
    else { if constexpr(COPY) { std::vector<T> t; for(int i = 0; i < n; ++i) { t.push_back(T(val(i))); m.push_back(val(i)); } LIB(a->Set(t.data(), (CT)n)); } else { for(int i = 0; i < n + 2; ++i) LIB(a->Add(T(val(i)))); for(int i = 0; i < n + 2; ++i) m.push_back(val(i)); LIB(a->Remove((CT)0)); m.erase(m.begin()); LIB(a->RemoveLast()); m.pop_back(); } }
    same(*a, m, "a");
    for(int st = 0; st < 2; ++st) {
      int L = (int)m.size(); auto pos = [&](int k) { int p[] = { 0, 1, L / 2, L - 1, L - 8, L }; return std::max(0, std::min(p[k], L)); };
      auto grown = [&](int k) { size_t old = m.size(); m.resize(k, SIMPLE ? 5 : 0); if constexpr(SIMPLE) for(size_t i = old; i < m.size(); ++i) a->begin()[i] = 5; };
      switch(ch(COPY ? 10 : 7)) {
      case 0: LIB(a->Add(T(9))); m.push_back(9); break;
      case 1: { int p = pos(ch(6)); LIB(a->Insert(T(7), (CT)p)); m.insert(m.begin() + p, 7); break; }
      case 2: { int p = pos(ch(5)); if(p >= L) break; LIB(a->Remove((CT)p)); m.erase(m.begin() + p); break; }
      case 3: { int k[] = { L + 1, L - 1, 2 * L, L / 2, 0, 130 }; int q = std::max(0, k[ch(6)]); if(sizeof(CT) == 1 && q > 150) break; LIB(a->SetCapacity((CT)q)); if constexpr(KIND == ARR) grown(q); break; }
      case 4: if constexpr(KIND != ARR) { int k[] = { L + 1, L - 1, 2 * L, L / 2 }; int q = std::max(0, k[ch(4)]); if(sizeof(CT) == 1 && q > 150) break; LIB(a->SetLength((CT)q)); grown(q); } break;
      case 5: { b = LIB(new A(std::move(*a))); MC_CHECK(len(*a) == 0, "moved-from array is not empty"); LIB(delete a); a = b; b = nullptr; break; }
      case 6: { b = LIB(new A()); for(int i = 0; i < 3; ++i) LIB(b->Add(T(i))); LIB(*b = std::move(*a)); LIB(delete a); a = b; b = nullptr; break; }
      case 7: if constexpr(COPY) { b = LIB(new A(*a)); same(*a, m, "the copied array"); LIB(delete a); a = b; b = nullptr; } break;
      case 8: if constexpr(COPY) { b = LIB(new A()); int q = ch(2) ? 3 : 70; for(int i = 0; i < q; ++i) LIB(b->Add(T(i))); LIB(*b = *a); same(*a, m, "the copied array"); LIB(delete a); a = b; b = nullptr; } break;
      default: if constexpr(COPY && KIND != CMP) { if(sizeof(CT) == 1 && L > 48) break; b = LIB(new A(*a + *a)); LIB(*a += *b); V t = m; m.insert(m.end(), t.begin(), t.end()); V t2 = m; m = t; m.insert(m.end(), t2.begin(), t2.end()); LIB(delete b); b = nullptr; if(sizeof(CT) == 1) st = 2; } break;
      }
      same(*a, m, "a");
    }
    LIB(delete a);
  });
}
MC_CONFIG("large Array<int>") { large<ARR, Array<int>, int, true, true>(c); }
MC_CONFIG("large Array<Obj,SAFE>") { large<ARR, Array<mc::Obj, size_t, ARRAY_SAFE>, mc::Obj, true, false>(c); }
MC_CONFIG("large DynArray<int>") { large<DYN, DynArray<int>, int, true, true>(c); }
MC_CONFIG("large DynArray<short,uint8>") { large<DYN, DynArray<short, uint8_t>, short, true, true>(c); }
MC_CONFIG("large DynArray<Rel,CONSTRUCT>") { large<DYN, DynArray<mc::Rel, size_t, ARRAY_CONSTRUCT>, mc::Rel, true, false>(c); }
MC_CONFIG("large DynArray<Obj,SAFE>") { large<DYN, DynArray<mc::Obj, size_t, ARRAY_SAFE>, mc::Obj, true, false>(c); }
MC_CONFIG("large DynArray<MoveOnly,MOVE>") { large<DYN, DynArray<mc::MoveOnly, size_t, ARRAY_MOVE>, mc::MoveOnly, false, false>(c); }
MC_CONFIG("large CompactArray<int,2>") { large<CMP, CompactArray<int, 2>, int, true, true>(c); }
MC_CONFIG("large CompactArray<char,9>") { large<CMP, CompactArray<char, 9>, char, true, true>(c); }
