// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// Hash: map/set semantics for every history, with forced collisions, growth, tombstones and rebuilds.
#include "mc.h"
#include "bss-util/Hash.h"
using namespace bss;
template<class K, int MASK> khint_t HF(const K& k) { return (khint_t)((int)k & MASK); }
template<class K> bool HE(const K& a, const K& b) { return (int)a == (int)b; }
typedef std::map<int, int> M;
static std::string s(const M& m) { std::string w; for(auto& p : m) w += mc::fmt("%d:%d ", p.first, p.second); return w; }
template<class H> struct IsMap { static const bool v = H::IsMap; };
template<class H, class K, class D, bool COPY> struct Sys : mc::SysBase<Sys<H, K, D, COPY>> {
  typedef mc::SysBase<Sys> B; using B::op; H *a, *b; M ma, mb; static int N, CAP;
  Sys() { a = LIB(new H(CAP)); b = LIB(new H()); }
  ~Sys() { delete a; delete b; }
  static bool exist(const H& h, khiter_t i, int k) { return h.ExistsIter(i) && (int)h.GetKey(i) == k; }
  static void build(int n, int cap, int ndata) {
    N = n; CAP = cap;
    for(int k = 0; k < n; ++k) {
      if constexpr(IsMap<H>::v) {
        for(int d = 1; d <= ndata; ++d) {
          op(mc::fmt("a.Insert(%d,%d)", k, d), [k, d](Sys& s) { khiter_t i; { K kk(k); if constexpr(COPY) { if(d == 1) { D dd(d); i = LIB(s.a->Insert((const K&)kk, (const D&)dd)); } else i = LIB(s.a->Insert((const K&)kk, D(d))); } else i = LIB(s.a->Insert((const K&)kk, D(d))); MC_CHECK((int)kk == k, "Insert changed the key passed by const reference"); } s.ma[k] = d; MC_CHECK(exist(*s.a, i, k) && (int)s.a->Value(i) == d, "Insert(%d,%d) returned %d", k, d, (int)i); });
          if(d == 1) op(mc::fmt("a.Set(%d,%d)", k, d + 2), [k, d](Sys& s) { bool r; { K kk(k); r = LIB(s.a->Set(kk, D(d + 2))); } MC_CHECK(r == (s.ma.count(k) > 0), "Set(%d) returned %d", k, r); if(r) s.ma[k] = d + 2; });
        }
      } else
        op(mc::fmt("a.Insert(%d)", k), [k](Sys& s) { khiter_t i; { K kk(k); if constexpr(COPY) { if(k & 1) i = LIB(s.a->Insert((const K&)kk)); else i = LIB(s.a->Insert(std::move(kk))); } else i = LIB(s.a->Insert(std::move(kk))); } s.ma[k] = 0; MC_CHECK(exist(*s.a, i, k), "Insert(%d) returned %d", k, (int)i); });
      op(mc::fmt("a.Remove(%d)", k), [k](Sys& s) { bool r; { K kk(k); r = LIB(s.a->Remove(kk)); } MC_CHECK(r == (s.ma.erase(k) > 0), "Remove(%d) returned %d", k, r); });
    }
    op("a.RemoveIter(first)", [](Sys& s) { if(s.ma.empty()) return; auto it = s.a->begin(); int k = (int)s.a->GetKey(it.cur); bool r = LIB(s.a->RemoveIter(it.cur)); MC_CHECK(r && s.ma.erase(k), "RemoveIter of an existing element returned %d", r); MC_CHECK(!s.a->RemoveIter(it.cur), "RemoveIter removed twice"); });
    op("a.Clear", [](Sys& s) { LIB(s.a->Clear()); s.ma.clear(); });
    op("a.SetCapacity(8)", [](Sys& s) { LIB(s.a->SetCapacity(8)); MC_CHECK(s.a->Capacity() >= 8, "SetCapacity"); });
    op("a = move(b)", [](Sys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); });
    op("b = H(move(a))", [](Sys& s) { H* n = LIB(new H(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); });
    if constexpr(COPY) {
      op("a = b", [](Sys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
      op("b = H(a)", [](Sys& s) { H* n = LIB(new H(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
      op("a = a", [](Sys& s) { H& r = *s.a; LIB(*s.a = r); });
    }
  }
  static void one(H& h, const M& m, const char* n, int N) {
    MC_CHECK((int)h.Length() == (int)m.size(), "%s has length %d, expected %zu", n, (int)h.Length(), m.size());
    MC_CHECK(h.Capacity() >= h.Length(), "capacity");
    const H& c = h;
    for(int k = -1; k <= N; ++k) {
      K kk(k); bool has = m.count(k); khiter_t i = h.Iterator(kk);
      MC_CHECK(h.Exists(kk) == has && h(kk) == has && h.ExistsIter(i) == has, "%s: Exists(%d) is %d, contents %s", n, k, h.Exists(kk), s(m).c_str());
      if(has) MC_CHECK((int)h.GetKey(i) == k, "GetKey");
      if constexpr(IsMap<H>::v) {
        if(has) MC_CHECK((int)h.Value(i) == m.at(k) && (int)c.Value(i) == m.at(k) && h.PointerValue(i) == &h.Value(i), "%s: value of %d is %d, expected %d", n, k, (int)h.Value(i), m.at(k)); else MC_CHECK(!h.PointerValue(i), "PointerValue of a missing key");
        if constexpr(std::is_integral<D>::value) { MC_CHECK(h.Get(kk) == (has ? m.at(k) : (D)~0) && c[kk] == h.Get(kk), "%s: Get(%d) is %d", n, k, (int)h.Get(kk)); D v = 77; MC_CHECK(c(kk, v) == has && v == (has ? m.at(k) : 77), "%s: operator()(%d,v)", n, k); }
        else MC_CHECK(has ? h.Get(kk) && (int)*h.Get(kk) == m.at(k) : h.Get(kk) == nullptr, "%s: Get(%d)", n, k);
      }
    }
    M g; size_t cnt = 0; khiter_t last = 0; for(auto it = h.begin(); it != h.end(); ++it) { int d = 0; if constexpr(IsMap<H>::v) d = (int)std::get<1>(*it); int k; if constexpr(IsMap<H>::v) k = (int)std::get<0>(*it); else k = (int)*it; g[k] = d; last = it.cur; MC_CHECK(++cnt <= m.size(), "%s: iteration does not end", n); }
    MC_CHECK(g == m && cnt == m.size(), "%s: iteration gives %s, expected %s", n, s(g).c_str(), s(m).c_str());
    if(cnt) { auto it = h.end(); size_t back = 0; do { --it; ++back; MC_CHECK(h.ExistsIter(it.cur) && back <= cnt, "%s: backward iteration leaves the elements", n); } while(it != h.begin()); MC_CHECK(back == cnt, "%s: backward iteration visits %zu of %zu", n, back, cnt); }
  }
  void check() { one(*a, ma, "a", N); one(*b, mb, "b", N); }
  void key(mc::Key& k) { k.object(a, sizeof(H)); k.object(b, sizeof(H)); for(auto* m : { &ma, &mb }) { k.word(m->size()); for(auto& p : *m) { k.word(p.first); k.word(p.second); } } }
};
template<class H, class K, class D, bool C> int Sys<H, K, D, C>::N; template<class H, class K, class D, bool C> int Sys<H, K, D, C>::CAP;
template<class H, class K, class D, bool C> void go(mc::Ctx& c, int n, int cap, int nd, int depth) { typedef Sys<H, K, D, C> S; S::build(n, cap, nd); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(300000, 3000000); mc::bfs<S>(c, o); }
using mc::Obj; using mc::Rel; using mc::MoveOnly;
MC_CONFIG("Hash<int,int>, one bucket chain") { go<Hash<int, int, ARRAY_SIMPLE, HF<int, 0>, HE<int>>, int, int, true>(c, 4, 4, 2, c.pick(5, 6)); }
MC_CONFIG("Hash<int,int>, 2 home buckets") { go<Hash<int, int, ARRAY_SIMPLE, HF<int, 1>, HE<int>>, int, int, true>(c, c.pick(4, 5), 4, 1, c.pick(7, 8)); }
MC_CONFIG("Hash<int,int>, identity hash") { go<Hash<int, int, ARRAY_SIMPLE, HF<int, ~0>, HE<int>>, int, int, true>(c, 5, 4, 1, c.pick(6, 7)); }
MC_CONFIG("Hash<int,int>, default buckets") { go<Hash<int, int>, int, int, true>(c, 3, 0, 2, c.pick(5, 6)); }
MC_CONFIG("Hash<int> set, 2 home buckets") { go<Hash<int, void, ARRAY_SIMPLE, HF<int, 1>, HE<int>>, int, int, true>(c, c.pick(5, 6), 4, 1, c.pick(7, 8)); }
MC_CONFIG("Hash<Rel,Rel,CONSTRUCT>") { go<Hash<Rel, Rel, ARRAY_CONSTRUCT, HF<Rel, 1>, HE<Rel>>, Rel, Rel, true>(c, 4, 4, 1, c.pick(7, 8)); }
MC_CONFIG("Hash<Obj,Obj,SAFE>") { go<Hash<Obj, Obj, ARRAY_SAFE, HF<Obj, 2>, HE<Obj>>, Obj, Obj, true>(c, 4, 4, 1, c.pick(7, 8)); }
MC_CONFIG("Hash<Obj,SAFE> set") { go<Hash<Obj, void, ARRAY_SAFE, HF<Obj, 2>, HE<Obj>>, Obj, int, true>(c, 4, 4, 1, c.pick(7, 8)); }
MC_CONFIG("Hash<int,MoveOnly,MOVE>") { go<Hash<int, MoveOnly, ARRAY_MOVE, HF<int, 1>, HE<int>>, int, MoveOnly, false>(c, 4, 4, 1, c.pick(7, 8)); }
MC_CONFIG("Hash<MoveOnly,MOVE> set") { go<Hash<MoveOnly, void, ARRAY_MOVE, HF<MoveOnly, 1>, HE<MoveOnly>>, MoveOnly, int, false>(c, 4, 4, 1, c.pick(7, 8)); }
// many keys: growth through several sizes, with removal patterns in between
template<class H, class K, class D> void bulk(mc::Ctx& c) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const int strides[6] = { 1, 4, 32, 64, -7, 33 }; int st = strides[ch(6)]; int n = 8 * (1 + ch(c.pick(10, 24))), rm = 1 + ch(4), cap = ch(3); 
    H* h = LIB(new H(cap * 20)); M m;
    auto put = [&](int i) { int k = i * st; if constexpr(IsMap<H>::v) { K kk(k); LIB(h->Insert(kk, D(i))); m[k] = i; } else { K kk(k); LIB(h->Insert(kk)); m[k] = 0; } };
    auto all = [&](const char* what) { MC_CHECK(h->Length() == m.size(), "%s: length %d, expected %zu", what, (int)h->Length(), m.size()); for(int i = -2; i < 2 * n + 2; ++i) { K kk(i * st); bool has = m.count(i * st); khiter_t it = h->Iterator(kk); MC_CHECK(h->Exists(kk) == has, "%s: Exists(%d) is %d", what, i * st, !has); if constexpr(IsMap<H>::v) if(has) MC_CHECK((int)h->Value(it) == m[i * st], "%s: value of %d", what, i * st); } };
    for(int i = 0; i < n; ++i) put(i);
    all("after inserting");
    for(int i = 0; i < n; i += rm) { K kk(i * st); bool r = LIB(h->Remove(kk)); MC_CHECK(r == (m.erase(i * st) > 0), "Remove"); }
    all("after removing");
    for(int i = n; i < 2 * n; ++i) put(i);
    all("after inserting more");
    for(int r = 0; r < 3; ++r) for(int i = 0; i < n; ++i) { put(i); K kk((i + n) * st); bool x = LIB(h->Remove(kk)); MC_CHECK(x == (m.erase((i + n) * st) > 0), "Remove"); put(i + n); K k2(i * st); LIB(h->Remove(k2)); m.erase(i * st); }
    all("after churning");
    H* g = LIB(new H(*h)); LIB(h->Clear()); delete h; h = g; all("copy");
    c.outcome(n * 1000 + rm); delete h;
  });
}
MC_CONFIG("Hash<int,int>: many keys") { bulk<Hash<int, int>, int, int>(c); }
MC_CONFIG("Hash<uint64,Obj,SAFE>: many keys") { bulk<Hash<uint64_t, Obj, ARRAY_SAFE>, uint64_t, Obj>(c); }
MC_CONFIG("Hash<short> set: many keys") { bulk<Hash<int64_t, void>, int64_t, int>(c); }
// string keys
template<class H, class K, bool INS> void strings(mc::Ctx& c, int depth) {
  static const char* S[8] = { "", "a", "A", "ab", "aB", "AB", "z[", "Z{" };
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::map<std::string, int> m; H* h = LIB(new H()); auto low = [](const char* x) { std::string r = x; if(INS) for(char& q : r) if(q >= 'A' && q <= 'Z') q += 32; return r; };
    for(int i = 0; i < depth; ++i) { int k = ch(16); const char* w = S[k / 2]; if(k & 1) { bool r = LIB(h->Remove(K(w))); MC_CHECK(r == (m.erase(low(w)) > 0), "Remove(%s) returned %d", w, r); } else { LIB(h->Insert(K(w), i)); m[low(w)] = i; } }
    MC_CHECK(h->Length() == m.size(), "length"); for(const char* w : S) { auto it = m.find(low(w)); MC_CHECK((int)h->Get(K(w)) == (it == m.end() ? -1 : it->second), "Get(\"%s\") is %d", w, (int)h->Get(K(w))); }
    c.outcome(m.size()); delete h;
  });
}
MC_CONFIG("Hash<const char*>: string keys") { strings<Hash<const char*, int>, const char*, false>(c, c.pick(4, 5)); }
MC_CONFIG("HashIns<const char*>: string keys") { strings<HashIns<const char*, int>, const char*, true>(c, c.pick(4, 5)); }
MC_CONFIG("Hash<Str>: string keys") { strings<Hash<Str, int, ARRAY_SAFE>, Str, false>(c, c.pick(4, 5)); }
MC_CONFIG("HashIns<Str>: string keys") { strings<HashIns<Str, int, ARRAY_SAFE>, Str, true>(c, c.pick(4, 5)); }
// default hash functions are functions of the value: equal keys hash equally, whatever their representation
MC_CONFIG("tuple, pair and array keys") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    typedef std::tuple<int, uint64_t, short> T3; typedef std::pair<char, int> P2; typedef std::array<int, 2> A2;
    Hash<T3, int>* a = LIB(new Hash<T3, int>()); Hash<P2, int>* p = LIB(new Hash<P2, int>()); Hash<A2>* r = LIB(new Hash<A2>()); std::map<T3, int> ma; std::map<P2, int> mp; std::set<A2> mr;
    for(int i = 0; i < 3; ++i) { T3 t(ch(2), ch(2) ? 1ull << 33 : 0, ch(2)); P2 q(std::get<0>(t), std::get<2>(t)); A2 x = { std::get<0>(t), (int)(std::get<1>(t) >> 33) }; LIB(a->Insert(t, i)); ma[t] = i; LIB(p->Insert(q, i)); mp[q] = i; LIB(r->Insert(x)); mr.insert(x); }
    for(int v = 0; v < 8; ++v) { T3 t(v & 1, v & 2 ? 1ull << 33 : 0, v >> 2); P2 q(v & 1, v >> 2); A2 x = { v & 1, (v >> 1) & 1 }; MC_CHECK(a->Get(t) == (ma.count(t) ? ma[t] : -1), "tuple key"); MC_CHECK(p->Get(q) == (mp.count(q) ? mp[q] : -1), "pair key"); MC_CHECK(r->Exists(x) == (mr.count(x) > 0), "array key"); }
    c.outcome(ma.size()); delete a; delete p; delete r;
  });
}
// every pair of characters, at every position: exactly equal strings (or, without case, strings equal but for case) are the same key
template<class T, bool INS, class H, class K> void characters(mc::Ctx& c) {
  std::vector<T> A; for(int i = 1; i < (sizeof(T) == 1 ? 256 : 128); ++i) A.push_back((T)i); if(sizeof(T) > 1) for(int x : { 0xC0, 0xE0, 0x100, 0x141, 0x410, 0x430, 0xFFFD, 0x10FFFF }) A.push_back((T)x);
  mc::enumerate(c, [&](mc::Choose& ch) {
    T a = ch.of(A); int pos = ch(3); T x[5] = { 'q', 'Q', 'z', 0 }, y[5] = { 'q', INS ? (T)'q' : (T)'Q', 'z', 0 }; x[pos] = a; y[pos] = a; H* h = LIB(new H()); if(ch(2)) LIB(h->SetCapacity(1000)); LIB(h->Insert(K(x), 7)); size_t found = 0;
    for(T b : A) { y[pos] = b; bool eq; if constexpr(sizeof(T) == 1) eq = INS ? !strcasecmp(x, y) : !strcmp(x, y); else eq = INS ? !wcscasecmp(x, y) : !wcscmp(x, y); bool got = h->Exists(K(y)); MC_CHECK(got == eq, "a key with character %d at %d is %sfound by one with %d", (int)a, pos, got ? "" : "not ", (int)b); if(got) { MC_CHECK((int)h->Get(K(y)) == 7, "Get"); ++found; LIB(h->Insert(K(y), 7)); MC_CHECK(h->Length() == 1, "equal keys are two elements"); } }
    c.outcome(found); delete h;
  });
}
MC_CONFIG("Hash<const char*>: all characters") { characters<char, false, Hash<const char*, int>, const char*>(c); }
MC_CONFIG("HashIns<const char*>: all characters") { characters<char, true, HashIns<const char*, int>, const char*>(c); }
MC_CONFIG("HashIns<Str>: all characters") { characters<char, true, HashIns<Str, int, ARRAY_SAFE>, Str>(c); }
MC_CONFIG("Hash<std::string>: all characters") { characters<char, false, Hash<std::string, int, ARRAY_SAFE>, std::string>(c); }
MC_CONFIG("Hash<const wchar_t*>: all characters") { characters<wchar_t, false, Hash<const wchar_t*, int>, const wchar_t*>(c); }
MC_CONFIG("HashIns<const wchar_t*>: all characters") { characters<wchar_t, true, HashIns<const wchar_t*, int>, const wchar_t*>(c); }
MC_CONFIG("HashIns<std::wstring>: all characters") { characters<wchar_t, true, HashIns<std::wstring, int, ARRAY_SAFE>, std::wstring>(c); }
// composite keys: every table of two out of many keys, and the table of all of them, so that different keys share a bucket
template<class K, class F> void composite(mc::Ctx& c, F key, int n) {
  std::vector<K> ks; for(int i = 0; i < n; ++i) ks.push_back(key(i));
  mc::enumerate(c, [&](mc::Choose& ch) {
    int a = ch(n), b = ch(n); Hash<K, int, ARRAY_SAFE>* h = LIB(new Hash<K, int, ARRAY_SAFE>()); LIB(h->Insert(ks[a], a)); MC_CHECK(h->Exists(ks[b]) == (a == b), "key %d is%s found in a table of key %d", b, a == b ? " not" : "", a); LIB(h->Insert(ks[b], b)); MC_CHECK(h->Length() == (a == b ? 1u : 2u), "keys %d and %d: length %d", a, b, (int)h->Length()); MC_CHECK((int)h->Get(ks[a]) == a && (int)h->Get(ks[b]) == b, "keys %d and %d: their data is %d and %d", a, b, (int)h->Get(ks[a]), (int)h->Get(ks[b]));
    bool r = LIB(h->Remove(ks[a])); MC_CHECK(r && !h->Exists(ks[a]) && h->Exists(ks[b]) == (a != b), "Remove of key %d next to %d", a, b); c.outcome(a == b);
    if(b == 0) { for(int i = 0; i < n; ++i) LIB(h->Insert(ks[i], i)); MC_CHECK((int)h->Length() == n, "%d keys, length %d", n, (int)h->Length()); for(int i = 0; i < n; ++i) MC_CHECK((int)h->Get(ks[i]) == i, "key %d of %d has data %d", i, n, (int)h->Get(ks[i])); }
    delete h;
  });
}
MC_CONFIG("all pairs of tuple keys") { typedef std::tuple<int, uint64_t, short> K; composite<K>(c, [](int i) { static const uint64_t V[] = { 0, 1, 1ull << 32, ~0ull, 77 }; return K(i % 6 - 2, V[i / 6 % 5], (short)(i / 30 - 2)); }, c.pick(150, 150)); }
MC_CONFIG("all pairs of pair keys") { typedef std::pair<char, int> K; composite<K>(c, [](int i) { return K((char)(i % 16 - 5), i / 16 * 3 - 9); }, c.pick(144, 320)); }
MC_CONFIG("all pairs of array keys") { typedef std::array<int, 2> K; composite<K>(c, [](int i) { return K{ i % 12, i / 12 - 3 }; }, c.pick(150, 150)); }
MC_CONFIG("all pairs of (string, int) keys") { typedef std::pair<std::string, int> K; composite<K>(c, [](int i) { static const char* W[] = { "", "a", "b", "ab", "ba", "aa", "A", "abc" }; return K(W[i % 8], i / 8 - 4); }, c.pick(96, 160)); }
MC_CONFIG("all pairs of byte keys") { composite<uint8_t>(c, [](int i) { return (uint8_t)i; }, 256); }
MC_CONFIG("all pairs of 16-bit keys") { composite<short>(c, [](int i) { return (short)(i * 257 - 20000); }, 160); }
