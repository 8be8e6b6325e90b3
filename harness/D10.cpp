// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c,UBJSON.cpp
// Library types through the serializers: every small value of every serializable type, written and read back with each engine.
#include "mc.h"
#include <sstream>
#include <map>
#include <set>
#include "bss-util/JSON.h"
#include "bss-util/UBJSON.h"
#include "bss-util/TOML.h"
#include "bss-util/Geometry.h"
#include "bss-util/ArraySort.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/CompactArray.h"
#include "bss-util/Stack.h"
#include "bss-util/Queue.h"
#include "bss-util/Map.h"
#include "bss-util/Hash.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
#include "bss-util/RandomQueue.h"
#include "bss-util/Variant.h"
using namespace bss;
template<class X> struct Box { int head = 0; X x; int tail = 0; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Box>(GenPair("head", head), GenPair("x", x), GenPair("tail", tail)); } };
static std::string hex(const std::string& s) { std::string o; for(unsigned char ch : s) o += ch >= 32 && ch < 127 ? std::string(1, (char)ch) : mc::fmt("<%02x>", ch); return o; }
template<class E, class X, class Q> static void trip(const char* name, const char* what, X& x, Q eq) {
  Box<X> a, b; a.head = 7; a.tail = -9; b.head = 1; b.tail = 2; a.x = x; std::stringstream ss; { Serializer<E> s; s.Serialize(a, ss, 0); } std::string text = ss.str(); { std::istringstream in(text); Serializer<E> s; s.Parse(b, in, 0); }
  MC_CHECK(b.head == 7 && b.tail == -9, "%s through %s: neighbours read as %d and %d; written: %s", what, name, b.head, b.tail, hex(text).c_str()); MC_CHECK(eq(x, b.x), "%s through %s: reads back different; written: %s", what, name, hex(text).c_str());
}
template<class X, class Q> static void all(const char* what, X& x, Q eq, int engines = 7) { if(engines & 1) trip<JSONEngine>("JSON", what, x, eq); if(engines & 2) trip<UBJSONEngine>("UBJSON", what, x, eq); if(engines & 4) trip<TOMLEngine>("TOML", what, x, eq); }
template<class T, size_t N> static bool same(const T (&a)[N], const T (&b)[N]) { for(size_t i = 0; i < N; ++i) if(!(a[i] == b[i])) return false; return true; }
// ---------------------------------------------------------------- fixed size
template<class T> static T val(mc::Choose& ch) { static const double d[] = { 0, 1, -2.5, 1e6 }, i[] = { 0, 1, -3, 100000 }; return (T)(std::is_floating_point_v<T> ? d[ch(4)] : i[ch(4)]); }
template<class X, class T, size_t N> static void fixed(mc::Ctx& c, const char* what, T (X::*v)[N]) { mc::enumerate(c, [&](mc::Choose& ch) { X x; for(size_t i = 0; i < N; ++i) (x.*v)[i] = N > 4 && i > 2 ? (T)(i + 1) : val<T>(ch); all(what, x, [&](const X& p, const X& q) { return same(p.*v, q.*v); }); c.outcome((long long)(x.*v)[0]); }); }
template<class X, class T, size_t N, size_t M> static void fixed2(mc::Ctx& c, const char* what, T (X::*v)[M][N]) { mc::enumerate(c, [&](mc::Choose& ch) { X x; for(size_t i = 0; i < M; ++i) for(size_t j = 0; j < N; ++j) (x.*v)[i][j] = i * N + j > 3 ? (T)(i * N + j) : val<T>(ch); all(what, x, [&](const X& p, const X& q) { for(size_t i = 0; i < M; ++i) if(!same((p.*v)[i], (q.*v)[i])) return false; return true; }, 7); c.outcome((long long)(x.*v)[0][0]); }); }
#ifndef ONLY
#define ONLY 0
#endif
#define T_(n) (ONLY == 0 || ONLY == n)
#if T_(1)
MC_CONFIG("vectors") { fixed(c, "Vector<float,2>", &Vector<float, 2>::v); fixed(c, "Vector<int,3>", &Vector<int, 3>::v); fixed(c, "Vector<double,4>", &Vector<double, 4>::v); fixed(c, "Vector<float,5>", &Vector<float, 5>::v); }
#endif
#if T_(2)
MC_CONFIG("matrices") { fixed2(c, "Matrix<float,2,2>", &Matrix<float, 2, 2>::v); fixed2(c, "Matrix<double,3,3>", &Matrix<double, 3, 3>::v); fixed2(c, "Matrix<float,4,4>", &Matrix<float, 4, 4>::v); fixed2(c, "Matrix<int,2,3>", &Matrix<int, 2, 3>::v); }
#endif
#if T_(3)
MC_CONFIG("shapes") { fixed(c, "Circle", &Circle<float>::v); fixed(c, "Sphere", &Sphere<double>::v); fixed(c, "4-sphere", &NSphere<float, 4>::v); fixed(c, "Line", &Line<float>::v); fixed(c, "Line3d", &Line3d<double>::v); fixed(c, "Rect<int>", &Rect<int>::ltrb); fixed(c, "Rect<float>", &Rect<float>::ltrb); fixed(c, "Ellipse", &Ellipse<double>::v); fixed(c, "CircleSector", &CircleSector<double>::v); }
#endif
#if T_(4)
MC_CONFIG("triangle") { mc::enumerate(c, [&](mc::Choose& ch) { Triangle<double> t; for(int i = 0; i < 3; ++i) { t.v[i].x = val<double>(ch); t.v[i].y = i ? i : val<double>(ch); } all("Triangle", t, [](const Triangle<double>& a, const Triangle<double>& b) { return same(a.v, b.v); }, 7); c.outcome((long long)t.v[0].x); }); }
#endif
// ---------------------------------------------------------------- sequences
template<class E> static E elem(mc::Choose& ch) { if constexpr(std::is_same_v<E, Str>) { static const char* s[] = { "", "a", "x y", "q\"\\", "\xc3\xa9" }; return Str(s[ch(5)]); } else if constexpr(std::is_same_v<E, bool>) return ch(2) != 0; else if constexpr(std::is_floating_point_v<E>) { static const double d[] = { 0, -2.5, 1e6 }; return (E)d[ch(3)]; } else { static const long long d[] = { 0, -1, 100, 70000 }; return (E)d[ch(sizeof(E) == 1 ? 3 : 4)]; } }
template<class X, class E, class A, class Q> static void seq(mc::Ctx& c, const char* what, int maxlen, A add, Q list, int engines = 7) { mc::enumerate(c, [&](mc::Choose& ch) { X x; int n = (int)ch(maxlen + 1); for(int i = 0; i < n; ++i) add(x, elem<E>(ch)); all(what, x, [&](const X& a, const X& b) { return list(const_cast<X&>(a)) == list(const_cast<X&>(b)); }, engines); c.outcome(n); }); }
#define LIST(X, E, LEN, AT) [](X& x) { std::vector<E> v; for(size_t i = 0; i < (size_t)(LEN); ++i) v.push_back(AT); return v; }
#if T_(5)
MC_CONFIG("Array") { typedef Array<int> A; seq<A, int>(c, "Array<int>", c.pick(5, 7), [](A& x, int v) { x.Add(v); }, LIST(A, int, x.Capacity(), x[i])); typedef Array<Str, size_t, ARRAY_SAFE> B; seq<B, Str>(c, "Array<Str>", c.pick(5, 7), [](B& x, Str v) { x.Add(v); }, LIST(B, std::string, x.Capacity(), std::string(x[i].c_str()))); }
#endif
#if T_(6)
MC_CONFIG("DynArray") { typedef DynArray<int> A; seq<A, int>(c, "DynArray<int>", c.pick(5, 7), [](A& x, int v) { x.Add(v); }, LIST(A, int, x.Length(), x[i])); typedef DynArray<Str, size_t, ARRAY_SAFE> B; seq<B, Str>(c, "DynArray<Str>", c.pick(5, 7), [](B& x, Str v) { x.Add(v); }, LIST(B, std::string, x.Length(), std::string(x[i].c_str()))); typedef DynArray<double> D; seq<D, double>(c, "DynArray<double>", c.pick(5, 7), [](D& x, double v) { x.Add(v); }, LIST(D, double, x.Length(), x[i])); typedef DynArray<int16_t> S; seq<S, int16_t>(c, "DynArray<int16_t>", c.pick(5, 7), [](S& x, int16_t v) { x.Add(v); }, LIST(S, int, x.Length(), x[i])); }
#endif
#if T_(7)
MC_CONFIG("DynArray<bool>") { typedef DynArray<bool> A; seq<A, bool>(c, "DynArray<bool>", c.pick(12, 16), [](A& x, bool v) { x.Add(v); }, LIST(A, int, x.Length(), (int)(bool)x[i])); }
#endif
#if T_(8)
MC_CONFIG("CompactArray") { typedef CompactArray<int> A; seq<A, int>(c, "CompactArray<int>", c.pick(6, 8), [](A& x, int v) { x.Add(v); }, LIST(A, int, x.Length(), x[i])); }
#endif
#if T_(9)
MC_CONFIG("ArraySort") { typedef ArraySort<int> A; seq<A, int>(c, "ArraySort<int>", c.pick(5, 7), [](A& x, int v) { x.Insert(v); }, LIST(A, int, x.Length(), x[i])); }
#endif
#if T_(10)
MC_CONFIG("ArrayCircular") { typedef ArrayCircular<int> A; seq<A, int>(c, "ArrayCircular<int>", c.pick(5, 7), [](A& x, int v) { if(x.Length() == x.Capacity()) x.SetCapacity(x.Capacity() + 2); x.Push(v); }, LIST(A, int, x.Length(), x[i])); }
#endif
#if T_(11)
MC_CONFIG("Stack") { typedef Stack<int> A; seq<A, int>(c, "Stack<int>", c.pick(5, 7), [](A& x, int v) { x.Push(v); }, LIST(A, int, x.Length(), x[i])); }
#endif
#if T_(12)
MC_CONFIG("Queue") { typedef Queue<int> A; seq<A, int>(c, "Queue<int>", c.pick(5, 7), [](A& x, int v) { x.Push(v); }, [](A& x) { A t(x); std::vector<int> v; while(t.Length()) v.push_back(t.Pop()); return v; }); }
#endif
#if T_(13)
MC_CONFIG("BinaryHeap") { typedef BinaryHeap<int> A; seq<A, int>(c, "BinaryHeap<int>", c.pick(5, 7), [](A& x, int v) { x.Insert(v); }, [](A& x) { A t(x); std::vector<int> v; while(!t.Empty()) v.push_back(t.Pop()); return v; }); }
#endif
#if T_(14)
MC_CONFIG("RandomQueue") { typedef RandomQueue<int> A; seq<A, int>(c, "RandomQueue<int>", c.pick(5, 7), [](A& x, int v) { x.Push(v); }, LIST(A, int, x.Length(), x.begin()[i])); }
#endif
#if T_(15)
MC_CONFIG("Polygon") { mc::enumerate(c, [&](mc::Choose& ch) { int n = (int)ch(4); std::vector<Vector<double, 2>> v; for(int i = 0; i < n; ++i) v.push_back(Vector<double, 2>(val<double>(ch), i)); Polygon<double> p(v.data(), n); all("Polygon", p, [](const Polygon<double>& a, const Polygon<double>& b) { if(a.GetCount() != b.GetCount()) return false; for(size_t i = 0; i < a.GetCount(); ++i) if(!(a[i] == b[i])) return false; return true; }, 7); c.outcome(n); }); }
#endif
#if T_(16)
MC_CONFIG("std") { typedef std::vector<int> A; seq<A, int>(c, "std::vector<int>", c.pick(5, 7), [](A& x, int v) { x.push_back(v); }, LIST(A, int, x.size(), x[i])); typedef std::vector<Str> B; seq<B, Str>(c, "std::vector<Str>", c.pick(5, 7), [](B& x, Str v) { x.push_back(v); }, LIST(B, std::string, x.size(), std::string(x[i].c_str()))); typedef std::array<double, 3> S; mc::enumerate(c, [&](mc::Choose& ch) { S s; for(auto& v : s) v = elem<double>(ch); all("std::array<double,3>", s, [](const S& a, const S& b) { return a == b; }); c.outcome((long long)s[0]); }); typedef std::tuple<int, double, Str> Tu; mc::enumerate(c, [&](mc::Choose& ch) { Tu s(elem<int>(ch), elem<double>(ch), elem<Str>(ch)); all("std::tuple", s, [](const Tu& a, const Tu& b) { return std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b) && !strcmp(std::get<2>(a).c_str(), std::get<2>(b).c_str()); }, 7); c.outcome(std::get<0>(s)); }); }
#endif
// ---------------------------------------------------------------- maps
template<class X, class I, class Q> static void maps(mc::Ctx& c, const char* what, I ins, Q list, int engines = 7) { mc::enumerate(c, [&](mc::Choose& ch) { X x; int mask = (int)ch(8); static const char* k[] = { "a", "key", "z_2" }; for(int i = 0; i < 3; ++i) if(mask & (1 << i)) ins(x, k[i], elem<int>(ch)); all(what, x, [&](const X& a, const X& b) { return list(const_cast<X&>(a)) == list(const_cast<X&>(b)); }, engines); c.outcome(mask); }); }
#if T_(17)
MC_CONFIG("Hash") { typedef Hash<Str, int, ARRAY_SAFE> A; maps<A>(c, "Hash<Str,int>", [](A& x, const char* k, int v) { x.Insert(k, v); }, [](A& x) { std::map<std::string, int> m; for(auto [k, v] : x) m[std::string(k.c_str())] = v; return m; }); }
#endif
#if T_(18)
MC_CONFIG("Map") { typedef Map<Str, int, CompStr<Str>, size_t, ARRAY_SAFE> A; maps<A>(c, "Map<Str,int>", [](A& x, const char* k, int v) { x.Insert(k, v); }, [](A& x) { std::map<std::string, int> m; for(size_t i = 0; i < x.Length(); ++i) m[std::string(x.KeyIndex(i).c_str())] = x.DataIndex(i); return m; }); }
#endif
#if T_(19)
MC_CONFIG("Hash<int,Str>") { typedef Hash<int, Str, ARRAY_SAFE> A; mc::enumerate(c, [&](mc::Choose& ch) { A x; int n = (int)ch(3); for(int i = 0; i < n; ++i) x.Insert(i * 17 + 1, elem<Str>(ch)); auto list = [](const A& y) { std::map<int, std::string> m; for(auto [k, v] : y) m[k] = v.c_str(); return m; }; all("Hash<int,Str>", x, [&](const A& a, const A& b) { return list(a) == list(b); }); c.outcome(n); }); }
#endif
#if T_(20)
MC_CONFIG("Hash set") { typedef Hash<int> A; seq<A, int>(c, "Hash<int>", c.pick(5, 7), [](A& x, int v) { x.Insert(v); }, [](A& x) { std::set<int> s; for(auto k : x) s.insert(k); return s; }); }
#endif
#if T_(21)
MC_CONFIG("Variant") { typedef Variant<int, double, Str> A; mc::enumerate(c, [&](mc::Choose& ch) { A x; int k = (int)ch(3); if(k == 0) x = elem<int>(ch); else if(k == 1) x = elem<double>(ch); else x = elem<Str>(ch); all("Variant", x, [](const A& a, const A& b) { if(a.tag() != b.tag()) return false; return a.is<int>() ? a.get<int>() == b.get<int>() : a.is<double>() ? a.get<double>() == b.get<double>() : !strcmp(a.get<Str>().c_str(), b.get<Str>().c_str()); }); c.outcome(k); }); }
#endif
#if T_(22)
MC_CONFIG("pairs") { typedef std::pair<Str, int> P; typedef DynArray<P, size_t, ARRAY_SAFE> A; maps<A>(c, "DynArray<pair<Str,int>>", [](A& x, const char* k, int v) { x.Add(P(Str(k), v)); }, [](A& x) { std::vector<std::pair<std::string, int>> m; for(auto& p : x) m.push_back({ std::string(p.first.c_str()), p.second }); return m; }); }
#endif
#if T_(23)
MC_CONFIG("nested") { typedef DynArray<Vector<double, 2>> A; mc::enumerate(c, [&](mc::Choose& ch) { A x; int n = (int)ch(3); for(int i = 0; i < n; ++i) x.Add(Vector<double, 2>(val<double>(ch), val<double>(ch))); all("DynArray<Vector>", x, [](const A& a, const A& b) { if(a.Length() != b.Length()) return false; for(size_t i = 0; i < a.Length(); ++i) if(!(a[i] == b[i])) return false; return true; }, 7); c.outcome(n); }); typedef DynArray<DynArray<int>, size_t, ARRAY_SAFE> B; mc::enumerate(c, [&](mc::Choose& ch) { B x; int n = (int)ch(3); for(int i = 0; i < n; ++i) { DynArray<int> d; int m = (int)ch(3); for(int j = 0; j < m; ++j) d.Add(elem<int>(ch)); x.Add(d); } all("DynArray<DynArray<int>>", x, [](const B& a, const B& b) { if(a.Length() != b.Length()) return false; for(size_t i = 0; i < a.Length(); ++i) { if(a[i].Length() != b[i].Length()) return false; for(size_t j = 0; j < a[i].Length(); ++j) if(a[i][j] != b[i][j]) return false; } return true; }, 7); c.outcome(n); }); }
#endif
// ---------------------------------------------------------------- long sequences and big maps
static const int LENS[] = { 7, 8, 9, 15, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000 };
template<class E> static E at(int i, int k) { if constexpr(std::is_same_v<E, Str>) return Str(mc::fmt("%s%d", k ? "some longer text " : "s", i).c_str()); else if constexpr(std::is_same_v<E, bool>) return k ? i % 3 == 0 : i % 2 == 0; else return (E)(k ? i * 37 - 900 : i); }
template<class X, class E, class A, class Q> static void lng(mc::Ctx& c, const char* what, A add, Q list, int engines = 7) { mc::enumerate(c, [&](mc::Choose& ch) { X x; int n = ch.of(LENS), k = ch(2); for(int i = 0; i < n; ++i) add(x, at<E>(i, k)); all(what, x, [&](const X& a, const X& b) { return list(const_cast<X&>(a)) == list(const_cast<X&>(b)); }, engines); c.outcome(n); }); }
#if T_(24)
MC_CONFIG("long sequences") {
  typedef DynArray<int> A; lng<A, int>(c, "DynArray<int>", [](A& x, int v) { x.Add(v); }, LIST(A, int, x.Length(), x[i])); typedef DynArray<Str, size_t, ARRAY_SAFE> B; lng<B, Str>(c, "DynArray<Str>", [](B& x, Str v) { x.Add(v); }, LIST(B, std::string, x.Length(), std::string(x[i].c_str()))); typedef DynArray<bool> C; lng<C, bool>(c, "DynArray<bool>", [](C& x, bool v) { x.Add(v); }, LIST(C, int, x.Length(), (int)(bool)x[i]));
  typedef Array<double> D; lng<D, double>(c, "Array<double>", [](D& x, double v) { x.Add(v); }, LIST(D, double, x.Capacity(), x[i])); typedef DynArray<int16_t> F; lng<F, int16_t>(c, "DynArray<int16_t>", [](F& x, int16_t v) { x.Add(v); }, LIST(F, int, x.Length(), x[i])); typedef std::vector<int64_t> G; lng<G, int64_t>(c, "std::vector<int64_t>", [](G& x, int64_t v) { x.push_back(v); }, LIST(G, int64_t, x.size(), x[i]));
}
MC_CONFIG("big maps") { typedef Hash<Str, int, ARRAY_SAFE> A; mc::enumerate(c, [&](mc::Choose& ch) { A x; int n = ch.of(LENS), k = ch(2); for(int i = 0; i < n; ++i) x.Insert(mc::fmt("%s%d", k ? "a_longer_key_" : "k", i).c_str(), i * 3); auto list = [](const A& y) { std::map<std::string, int> m; for(auto [a, b] : y) m[a.c_str()] = b; return m; }; all("Hash<Str,int>", x, [&](const A& a, const A& b) { return list(a) == list(b) && (int)list(b).size() == n; }); c.outcome(n); }); }
#endif
