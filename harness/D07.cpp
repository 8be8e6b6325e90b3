// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c,UBJSON.cpp
// UBJSON: every small value in every encoding, typed structures, every short byte sequence.
#include "mc.h"
#include <sstream>
#include "bss-util/UBJSON.h"
using namespace bss;
typedef std::string S; typedef UBJSONTuple U;
static S esc(const S& s) { S r; char b[8]; for(char c : s) { if((unsigned char)c >= 33 && (unsigned char)c < 127) r += c; else { snprintf(b, 8, "<%02x>", (unsigned char)c); r += b; } } return r; }
struct V { char k = 'Z'; int64_t i = 0; double d = 0; S s; std::vector<V> a; std::vector<std::pair<S, V>> o;
  S show() const { switch(k) { case 'i': case 'U': case 'I': case 'l': case 'L': case 'C': return S(1, k) + std::to_string(i); case 'd': case 'D': return S(1, k) + mc::fmt("%.17g", d); case 'S': case 'H': return S(1, k) + "'" + esc(s) + "'"; case '[': { S r = "["; for(auto& x : a) r += x.show() + ","; return r + "]"; } case '{': { S r = "{"; for(auto& x : o) r += esc(x.first) + ":" + x.second.show() + ","; return r + "}"; } } return S(1, k); } };
static V num(char k, int64_t i) { V v; v.k = k; v.i = i; return v; }
static V str(const S& s) { V v; v.k = 'S'; v.s = s; return v; }
static V flt(char k, double d) { V v; v.k = k; v.d = d; return v; }
static V lit(char k) { V v; v.k = k; return v; }
// ---- reference encoding ----
static void be(S& o, uint64_t v, int n) { for(int i = n - 1; i >= 0; --i) o += (char)(v >> (8 * i)); }
static void enclen(S& o, size_t n, int w = 0) { if(w == 1) { o += 'I'; be(o, n, 2); } else if(w == 2) { o += 'L'; be(o, n, 8); } else if(n < 128) { o += 'i'; be(o, n, 1); } else if(n < 256) { o += 'U'; be(o, n, 1); } else { o += 'I'; be(o, n, 2); } }
static void enc(S& o, const V& v, int mode, bool typed = false) { if(!typed) o += v.k; switch(v.k) { case 'i': case 'U': case 'C': be(o, v.i, 1); break; case 'I': be(o, v.i, 2); break; case 'l': be(o, v.i, 4); break; case 'L': be(o, v.i, 8); break; case 'd': { float f = (float)v.d; uint32_t u; memcpy(&u, &f, 4); be(o, u, 4); } break; case 'D': { uint64_t u; memcpy(&u, &v.d, 8); be(o, u, 8); } break; case 'S': case 'H': enclen(o, v.s.size(), mode / 4); o += v.s; break;
  case '[': case '{': { bool arr = v.k == '['; size_t n = arr ? v.a.size() : v.o.size(); bool hom = n > 0; for(size_t i = 1; i < n; ++i) if((arr ? v.a[i].k : v.o[i].second.k) != (arr ? v.a[0].k : v.o[0].second.k)) hom = false; int m = mode & 3; if(m == 2 && !hom) m = 1; if(m == 2) { o += '$'; o += arr ? v.a[0].k : v.o[0].second.k; } if(m == 1 || m == 2) { o += '#'; enclen(o, n, mode / 4); } for(size_t i = 0; i < n; ++i) { if(m == 3 && arr) o += 'N'; if(!arr) { enclen(o, v.o[i].first.size(), mode / 4); o += v.o[i].first; } enc(o, arr ? v.a[i] : v.o[i].second, mode, m == 2); } if(m == 0 || m == 3) o += arr ? ']' : '}'; } break; } }
// ---- reference decoding; throws on anything that is not UBJSON ----
struct Bad {};
struct Dec { const S& t; size_t p = 0; int get() { if(p >= t.size()) throw Bad(); return (unsigned char)t[p++]; } int peek() { return p < t.size() ? (unsigned char)t[p] : -1; } uint64_t be(int n) { uint64_t v = 0; for(int i = 0; i < n; ++i) v = (v << 8) | get(); return v; }
  int64_t in(char k) { switch(k) { case 'i': return (int8_t)be(1); case 'U': return (uint8_t)be(1); case 'I': return (int16_t)be(2); case 'l': return (int32_t)be(4); case 'L': return (int64_t)be(8); } throw Bad(); }
  size_t len() { int64_t n = in((char)get()); if(n < 0) throw Bad(); return (size_t)n; } S bytes(size_t n) { if(n > t.size() - p) throw Bad(); S r = t.substr(p, n); p += n; return r; }
  V val(int k0 = -1) { while(k0 < 0 || k0 == 'N') k0 = get(); char k = (char)k0; V v; v.k = k; switch(k) { case 'Z': case 'T': case 'F': break; case 'C': v.i = (int8_t)be(1); break; case 'i': case 'U': case 'I': case 'l': case 'L': v.i = in(k); break; case 'd': { uint32_t u = (uint32_t)be(4); float f; memcpy(&f, &u, 4); v.d = f; } break; case 'D': { uint64_t u = be(8); memcpy(&v.d, &u, 8); } break; case 'S': case 'H': v.s = bytes(len()); break;
    case '[': case '{': { int ty = -1; bool cnt = false; size_t n = 0; if(peek() == '$') { get(); ty = get(); if(peek() != '#') throw Bad(); } if(peek() == '#') { get(); cnt = true; n = len(); } char e = k == '[' ? ']' : '}'; while(cnt ? n-- > 0 : peek() != e) { if(k == '[') v.a.push_back(val(ty)); else { S key = bytes(len()); v.o.push_back({ key, val(ty) }); } } if(!cnt) get(); } break; default: throw Bad(); } return v; } };
static bool decode(const S& t, V& v) { try { Dec d{ t }; v = d.val(); return d.p == t.size(); } catch(Bad&) { return false; } }
static V from(const U& u) { V v; v.k = (char)u.Type; switch(u.Type) { case U::TYPE_INT8: v.i = (int8_t)u.Int8; break; case U::TYPE_CHAR: v.i = (int8_t)u.Int8; break; case U::TYPE_UINT8: v.i = u.UInt8; break; case U::TYPE_INT16: v.i = u.Int16; break; case U::TYPE_INT32: v.i = u.Int32; break; case U::TYPE_INT64: v.i = u.Int64; break; case U::TYPE_FLOAT: v.d = u.Float; break; case U::TYPE_DOUBLE: v.d = u.Double; break; case U::TYPE_STRING: case U::TYPE_BIGNUM: v.s = S(u.String, u.Length); MC_CHECK(!u.String[u.Length], "string not terminated"); break; case U::TYPE_ARRAY: for(auto& x : u.Array) v.a.push_back(from(x)); break; case U::TYPE_OBJECT: for(auto& x : u.Object) v.o.push_back({ x.first, from(x.second) }); break; default: break; } return v; }
static void both(mc::Ctx& c, const V& v) { for(int mode = 0; mode < 12; ++mode) { S t; enc(t, v, mode); std::istringstream is(t); U* u = LIB(new U()); LIB(u->Parse(is, U::TYPE_NONE)); MC_CHECK(from(*u).show() == v.show(), "%s is read as %s", esc(t).c_str(), from(*u).show().c_str()); MC_CHECK(is.peek() == -1, "%s is not read to its end", esc(t).c_str());
    U* w = LIB(new U(*u)); MC_CHECK(from(*w).show() == v.show() && from(*u).show() == v.show(), "copy of %s", v.show().c_str()); U* x = LIB(new U(std::move(*u))); delete u; MC_CHECK(from(*x).show() == v.show(), "moved %s", v.show().c_str()); delete w;
    std::ostringstream os; LIB(x->Write(os, U::TYPE_NONE)); V r; MC_CHECK(decode(os.str(), r) && r.show() == v.show(), "%s is written as %s", v.show().c_str(), esc(os.str()).c_str()); std::istringstream is2(os.str()); U y; LIB(y.Parse(is2, U::TYPE_NONE)); MC_CHECK(from(y).show() == v.show(), "%s does not survive", v.show().c_str()); delete x; } c.outcome(v.show()); }
static const std::vector<V>& leaves() { static const std::vector<V> l = { lit('Z'), lit('T'), num('i', -128), num('U', 200), num('C', 65), num('I', -300), num('l', 70000), num('L', INT64_MIN), flt('d', 0.5), flt('D', 1e300), str(""), str("ab"), str(S("\0]\xFF", 3)), lit('F') }; return l; }
static const std::vector<V>& few() { static const std::vector<V> l = { lit('T'), num('U', 7), str("x"), num('i', -1) }; return l; }
static V tree(mc::Choose& ch, int depth, int wid, bool all) { int n = ch(depth > 0 ? 3 : 1); if(!n) return all ? ch.of(leaves()) : ch.of(few()); V v; v.k = n == 1 ? '[' : '{'; int w = ch(wid + 1); static const char* K[] = { "a", "", "a longer key than sixteen" }; for(int i = 0; i < w; ++i) { V x = tree(ch, depth - 1, wid, all && depth > 1); if(n == 1) v.a.push_back(x); else v.o.push_back({ K[i], x }); } return v; }
MC_CONFIG("values: all scalars and flat containers") { leaves(); few(); mc::enumerate(c, [&](mc::Choose& ch) { V v; int n = ch(4); if(n < 2) { v.k = n ? '[' : '{'; int w = ch(4); static const char* K[] = { "k", "", "a longer key than sixteen" }; for(int i = 0; i < w; ++i) { V x = w == 3 ? ch.of(few()) : ch.of(leaves()); if(n) v.a.push_back(x); else v.o.push_back({ K[i], x }); } } else v = ch.of(leaves()); both(c, v); }); }
MC_CONFIG("values: all small trees") { leaves(); few(); mc::enumerate(c, [&](mc::Choose& ch) { V v = tree(ch, 2, c.pick(2, 2), false); both(c, v); }); }
MC_CONFIG("values: sizes") { mc::enumerate(c, [&](mc::Choose& ch) { static const int N[] = { 0, 1, 127, 128, 255, 256, 300, 4095, 4096, 4097, 32767, 32768, 40000 }; int n = ch.of(N); V v; switch(ch(4)) { case 0: v = str(S(n, 'x')); break; case 1: v.k = '['; for(int i = 0; i < n; ++i) v.a.push_back(num('U', i & 255)); break; case 2: v.k = '{'; if(n > 5000) n = 5; for(int i = 0; i < n; ++i) v.o.push_back({ std::to_string(i), num('I', i) }); break; case 3: v.k = '{'; v.o.push_back({ S(n, 'k'), lit('T') }); break; } for(int mode : { 0, 1, 2, 8 }) { if(mode < 8 && n > 32767) continue; S t; enc(t, v, mode); std::istringstream is(t); U u; LIB(u.Parse(is, U::TYPE_NONE)); MC_CHECK(from(u).show() == v.show(), "value of %d elements", n); std::ostringstream os; LIB(u.Write(os, U::TYPE_NONE)); V r; MC_CHECK(decode(os.str(), r) && r.show() == v.show(), "value of %d elements is written wrongly", n); } c.outcome(n); }); }
template<class T> static void ints(mc::Ctx& c, mc::Choose& ch) { typedef std::numeric_limits<T> L; std::vector<T> vs = { 0, 1, L::min(), L::max(), (T)(L::max() - 1), (T)(L::min() + 1) }; for(int b : { 7, 8, 15, 16, 31, 32, 63 }) if(b < (int)sizeof(T) * 8) for(int d = -1; d < 2; ++d) { vs.push_back((T)(((uint64_t)1 << b) + d)); vs.push_back((T)(0 - ((uint64_t)1 << b) + d)); } T n = ch.of(vs); std::ostringstream os; { U u(U::TYPE_NONE, n); LIB(u.Write(os, U::TYPE_NONE)); } V r; S w = std::to_string(n); MC_CHECK(decode(os.str(), r) && (r.k == 'H' ? r.s == w : std::to_string(r.i) == w), "%s is written as %s", w.c_str(), esc(os.str()).c_str()); std::istringstream is(os.str()); Serializer<UBJSONEngine> e; T m = (T)(n + 1); LIB(e.Parse(m, is)); MC_CHECK(m == n, "%s is read as %s", w.c_str(), std::to_string(m).c_str()); c.outcome(w); }
MC_CONFIG("numbers: every width at its boundaries") { mc::enumerate(c, [&](mc::Choose& ch) { switch(ch(9)) { case 0: ints<char>(c, ch); break; case 1: ints<uint8_t>(c, ch); break; case 2: ints<int16_t>(c, ch); break; case 3: ints<uint16_t>(c, ch); break; case 4: ints<int32_t>(c, ch); break; case 5: ints<uint32_t>(c, ch); break; case 6: ints<int64_t>(c, ch); break; case 7: ints<uint64_t>(c, ch); break; case 8: ints<signed char>(c, ch); break; } }); }
static void robust(mc::Ctx& c, const S& t) { U* u = LIB(new U()); bool ok = true; try { std::istringstream is(t); LIB(u->Parse(is, U::TYPE_NONE)); } catch(std::runtime_error&) { ok = false; } V r; if(decode(t, r)) { MC_CHECK(ok && from(*u).show() == r.show(), "%s is read as %s, expected %s", esc(t).c_str(), ok ? from(*u).show().c_str() : "an error", r.show().c_str()); c.outcome(r.show()); } delete u; }
template<class T, size_t N> static void texts(mc::Ctx& c, const T (&tk)[N], int len) { mc::enumerate(c, [&](mc::Choose& ch) { int n = ch(len + 1); S t; for(int i = 0; i < n; ++i) t += ch.of(tk); robust(c, t); }); }
MC_CONFIG("bytes: all short sequences") { static const char tk[] = { '[', ']', '{', '}', '$', '#', 'i', 'U', 'S', 'T', 'N', 'C', 0, 1, 2, '\xFF' }; texts(c, tk, c.pick(5, 6)); }
MC_CONFIG("bytes: tokens") { static const char* const tk[] = { "[", "]", "{", "}", "$[", "$U", "$S", "$T", "#i\x02", "#U\x01", "i\x01", "U\x02", "i\x01" "k", "S", "I\x01", "N", "Z" }; texts(c, tk, c.pick(4, 6)); }
MC_CONFIG("bytes: huge lengths in short input") { static const char* T1[] = { "S", "H", "[#", "{#", "[$S#", "{$i#", "{", "[$[#", "[$U#" }; static const char ty[] = { 'I', 'l', 'L', 'i', 'U' }; mc::enumerate(c, [&](mc::Choose& ch) { S t = ch.of(T1); t += ch.of(ty); int w = ch(4); for(int i = 0; i < 8; ++i) t += (char)(w == 0 ? 0x7F : w == 1 ? (i ? 0xFF : 0x7F) : w == 2 ? 0xFF : (i ? 0 : 0x80)); robust(c, t); robust(c, t + "abc"); }); }
MC_CONFIG("bytes: every prefix and deletion") { V v; v.k = '{'; V a; a.k = '['; a.a = { num('U', 1), num('U', 2) }; V b = a; b.a.push_back(str("z")); V o; o.k = '{'; o.o = { { "x", lit('T') }, { "y", lit('T') } }; v.o = { { "a", a }, { "b", b }, { "o", o }, { "s", str("hello") }, { "n", num('L', 5) } }; mc::enumerate(c, [&](mc::Choose& ch) { S t; enc(t, v, ch(4)); int w = ch(3), p = ch(90); if(p >= (int)t.size()) return; if(w == 0) t.resize(p); else if(w == 1) t.erase(p, 1); else { t[p] = (char)(t[p] ^ (1 << ch(8))); if((p + 1 < (int)t.size() || true) && t.find("$Z#") != S::npos) return; } robust(c, t); }); }
// ---- typed structures ----
enum EN : short { EN_A = -2, EN_B = 300 };
struct In { int32_t x = 0; Str s; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<In>(GenPair("x", x), GenPair("s", s)); } bool operator==(const In& r) const { return x == r.x && s == r.s; } };
struct Mid { uint16_t a = 0; std::vector<In> l; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Mid>(GenPair("a", a), GenPair("l", l)); } bool operator==(const Mid& r) const { return a == r.a && l == r.l; } };
struct Big { int64_t a = 0; uint16_t b = 0; double d = 0; float f = 0; bool t = false; Str s; std::string u; In in; Mid mid; DynArray<int16_t> da; std::vector<double> vd; std::vector<Str> ds; DynArray<Mid, size_t, ARRAY_SAFE> di; int fx[3] = { 0, 0, 0 }; std::array<bool, 2> ab{ { false, false } }; std::tuple<short, Str, double> tu{ 0, "", 0 }; uint64_t q = 0; int8_t by = 0; EN en = EN_A; std::vector<uint8_t> v8; std::vector<char> vc; DynArray<uint8_t> d8; uint8_t f8[2] = { 0, 0 }; std::vector<uint16_t> v16; std::vector<uint32_t> v32; std::vector<uint64_t> v64; std::vector<int8_t> vi8; DynArray<bool> db; std::vector<std::vector<int>> vv; std::vector<float> vf; std::vector<EN> ve; std::vector<std::tuple<int, Str>> vt;
  template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Big>(GenPair("a", a), GenPair("b", b), GenPair("d", d), GenPair("f", f), GenPair("t", t), GenPair("s", s), GenPair("u", u), GenPair("in", in), GenPair("mid", mid), GenPair("da", da), GenPair("vd", vd), GenPair("ds", ds), GenPair("di", di), GenPair("fx", fx), GenPair("ab", ab), GenPair("tu", tu), GenPair("q", q), GenPair("by", by), GenPair("en", en), GenPair("v8", v8), GenPair("vc", vc), GenPair("d8", d8), GenPair("f8", f8), GenPair("v16", v16), GenPair("v32", v32), GenPair("v64", v64), GenPair("vi8", vi8), GenPair("db", db), GenPair("vv", vv), GenPair("vf", vf), GenPair("ve", ve), GenPair("vt", vt)); } };
template<class A> static bool arr(const A& x, const A& y) { if(x.Length() != y.Length()) return false; for(size_t i = 0; i < x.Length(); ++i) if(!(x[i] == y[i])) return false; return true; }
static void same(const Big& x, const Big& y, const S& t) {
#define SAME(m) MC_CHECK(x.m == y.m, "member " #m " does not survive: %s", esc(t).c_str())
#define SAMEA(m) MC_CHECK(arr(x.m, y.m), "member " #m " does not survive: %s", esc(t).c_str())
  SAME(a); SAME(b); SAME(d); SAME(f); SAME(t); SAME(s); SAME(u); SAME(in); SAME(mid); SAME(vd); SAME(ds); SAME(ab); SAME(tu); SAME(q); SAME(by); SAME(en); SAME(v8); SAME(vc); SAME(v16); SAME(v32); SAME(v64); SAME(vi8); SAME(vv); SAME(vf); SAME(ve); SAME(vt); SAMEA(da); SAMEA(di); SAMEA(d8); for(int i = 0; i < 3; ++i) SAME(fx[i]); SAME(f8[0]); SAME(f8[1]); SAME(db.Length()); for(size_t i = 0; i < x.db.Length(); ++i) MC_CHECK((bool)x.db[i] == (bool)y.db[i], "bool array");
}
static void warm() { Big v; v.di.Add(Mid()); v.mid.l.push_back(In()); Serializer<UBJSONEngine> e; std::stringstream os; e.Serialize(v, os); e.Parse(v, os); }
static const char* STRS[] = { "", "a", "}]\x7F", "longer than sixteen bytes" };
MC_CONFIG("typed structures: round trip") { warm(); mc::enumerate(c, [&](mc::Choose& ch) {
    Big v; switch(ch(9)) {
    case 0: { static const int64_t A[] = { 0, -5, INT64_MIN, INT64_MAX, 255, 128 }; v.a = ch.of(A); static const uint16_t B[] = { 0, 9, 65535 }; v.b = ch.of(B); v.t = ch(2); static const uint64_t Q[] = { 0, 1, UINT64_MAX, (uint64_t)INT64_MAX + 1 }; v.q = ch.of(Q); v.by = (int8_t)(ch(3) * 64 - 1); v.en = ch(2) ? EN_A : EN_B; } break;
    case 1: { static const double D[] = { 0, -1.5, 0.1, 1e300, 1.0 / 3, 5e-324 }; v.d = ch.of(D); static const float F[] = { 0, 0.1f, -3e38f, 1e-40f }; v.f = ch.of(F); for(int n = ch(3); n > 0; --n) v.vf.push_back(ch.of(F)); } break;
    case 2: v.s = ch.of(STRS); v.u = ch(2) ? S("x\0y", 3) : ch.of(STRS); v.in.s = ch.of(STRS); v.in.x = -ch(2); break;
    case 3: for(int n = ch(4); n > 0; --n) v.da.Add((int16_t)(ch(3) * -300)); for(int n = ch(3); n > 0; --n) v.vd.push_back(ch(2) ? 1e20 : 0.1); break;
    case 4: for(int n = ch(3); n > 0; --n) v.ds.push_back(Str(ch.of(STRS))); for(int n = ch(3); n > 0; --n) { Mid i; i.a = (uint16_t)ch(2); for(int k = ch(3); k > 0; --k) { In z; z.x = ch(2); z.s = k == 1 ? ch.of(STRS) : ""; i.l.push_back(z); } v.di.Add(i); v.mid = i; } break;
    case 5: for(int i = 0; i < 3; ++i) v.fx[i] = ch(3) - 1; v.ab = { { (bool)ch(2), (bool)ch(2) } }; v.tu = std::make_tuple((short)-ch(2), Str(ch.of(STRS)), ch(2) ? 0.1 : -2.0); break;
    case 6: for(int n = ch(4); n > 0; --n) { uint8_t x = (uint8_t)(ch(3) * 127); v.v8.push_back(x); v.vc.push_back((char)x); v.d8.Add(x); v.vi8.push_back((int8_t)x); v.f8[0] = x; v.f8[1] = (uint8_t)n; } break;
    case 7: for(int n = ch(3); n > 0; --n) { int x = ch(3); v.v16.push_back(x == 2 ? 65535 : x); v.v32.push_back(x == 2 ? UINT32_MAX : x); v.v64.push_back(x == 2 ? UINT64_MAX : x); v.db.Add(x > 0); v.ve.push_back(x ? EN_A : EN_B); } break;
    case 8: for(int n = ch(4); n > 0; --n) { std::vector<int> w; for(int k = ch(3); k > 0; --k) w.push_back(ch(2) ? -7 : 100000); v.vv.push_back(w); v.vt.push_back(std::make_tuple(n, Str(STRS[n]))); } break;
    }
    Serializer<UBJSONEngine> e; std::stringstream os; LIB(e.Serialize(v, os)); S t = os.str(); V r; MC_CHECK(decode(t, r) && r.k == '{' && r.o.size() == 32, "not well-formed: %s", esc(t).c_str()); Big w; Serializer<UBJSONEngine> e2; LIB(e2.Parse(w, os)); same(v, w, t);
    for(int mode = 0; mode < 3; ++mode) { S t2; enc(t2, r, mode); std::stringstream is(t2); Big z; LIB(e.Parse(z, is)); same(v, z, t2); } c.outcome(t); }); }
// documents from elsewhere: any member order, unknown members, any integer width
struct Sm { int32_t a = 0; Str s; std::vector<int> l; uint8_t f[2] = { 0, 0 }; In o; bool b = false; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Sm>(GenPair("a", a), GenPair("s", s), GenPair("l", l), GenPair("f", f), GenPair("o", o), GenPair("b", b)); } };
MC_CONFIG("typed structures: foreign documents") { { Sm v; Serializer<UBJSONEngine> e; std::stringstream os; e.Serialize(v, os); e.Parse(v, os); }
  mc::enumerate(c, [&](mc::Choose& ch) { V v; v.k = '{'; Sm w; static const char* names[] = { "a", "s", "l", "f", "o", "b" }; int used = 0, n = ch(c.pick(4, 5)); static const V unk[] = { lit('T'), num('l', 3), str("a"), flt('D', 1) };
    for(int i = 0; i < n; ++i) { int m = ch(7); if(m < 6) { if(used >> m & 1) m = 6; else used |= 1 << m; } static const char W[] = { 'i', 'U', 'I', 'l', 'L' }; V x; switch(m) { case 0: x = num(ch.of(W), 5); w.a = 5; break; case 1: x = str("hey"); w.s = "hey"; break; case 2: { x.k = '['; char k = ch.of(W); x.a = { num(k, 1), num(k, 2) }; w.l = { 1, 2 }; } break; case 3: { x.k = '['; char k = ch.of(W); int cnt = ch(3) + 1; for(int j = 0; j < cnt; ++j) { x.a.push_back(num(k, 8 + j)); if(j < 2) w.f[j] = (uint8_t)(8 + j); } } break; case 4: x.k = '{'; x.o = { { "zz", num('U', 1) }, { "x", num('I', 77) } }; w.o.x = 77; break; case 5: x = lit('T'); w.b = true; break; case 6: { int q = ch(6); if(q < 4) x = unk[q]; else if(q == 4) { x.k = '['; x.a = { str("a"), num('U', 1) }; } else { x.k = '{'; x.o = { { "a", num('U', 9) } }; } } break; }
      v.o.push_back({ m < 6 ? S(names[m]) : "u" + std::to_string(i), x }); }
    for(int mode = 0; mode < 4; ++mode) { S t; enc(t, v, mode); t += "i\x07"; std::istringstream is(t); Sm z; Serializer<UBJSONEngine> e; LIB(e.Parse(z, is)); MC_CHECK(z.a == w.a && z.s == w.s && z.l == w.l && z.f[0] == w.f[0] && z.f[1] == w.f[1] && z.o == w.o && z.b == w.b, "%s is read wrongly", esc(t).c_str()); MC_CHECK(is.get() == 'i' && is.get() == 7 && is.get() == -1, "%s is not read to its end", esc(t).c_str()); } c.outcome(v.show()); }); }
// A negative length is an error wherever a length is read, in every width.
MC_CONFIG("bytes: negative lengths") { mc::enumerate(c, [&](mc::Choose& ch) { static const char* T1[] = { "S", "H", "[#", "{#", "[$S#", "[$U#", "{$i#", "{" }; static const char ty[] = { 'i', 'I', 'l', 'L' }; static const int W[] = { 1, 2, 4, 8 }; static const int64_t N[] = { -1, -2, -128, INT64_MIN }; S t = ch.of(T1); int k = ch(4), noop = ch(2); int64_t n = ch.of(N); if(n == INT64_MIN) n = (int64_t)(~0ull << (W[k] * 8 - 1)); if(noop) t += 'N'; t += ty[k]; for(int i = W[k] - 1; i >= 0; --i) t += (char)((uint64_t)n >> (i * 8)); t += S(ch(2) ? 300 : 3, 'Z');
    bool thrown = false; { std::istringstream ss(t); UBJSONTuple u; try { LIB(u.Parse(ss, UBJSONTuple::TYPE_NONE)); } catch(const std::runtime_error&) { thrown = true; } } MC_CHECK(thrown, "the length %lld of type %c is accepted", (long long)n, ty[k]); c.outcome(t); }); }
