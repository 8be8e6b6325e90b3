// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// JSON: values and typed structures, written and parsed; every short text.
#include "mc.h"
#include <fstream>
#include "bss-util/JSON.h"
#include "bss-util/Hash.h"
#include "json_ref.h"
using namespace bss;
static J from(const JSONValue& v) {
  J r; switch(v.tag()) {
  case JSONValue::Type<Str>::value: r.t = J::STR; r.s = v.get<Str>(); break;
  case JSONValue::Type<double>::value: r.t = J::NUM; r.n = v.get<double>(); break;
  case JSONValue::Type<int64_t>::value: r.t = J::NUM; r.n = v.get<int64_t>(); break;
  case JSONValue::Type<bool>::value: r.t = v.get<bool>() ? J::TRUE_ : J::FALSE_; break;
  case JSONValue::Type<JSONValue::JSONArray>::value: r.t = J::ARR; for(auto& x : v.get<JSONValue::JSONArray>()) r.a.push_back(from(x)); break;
  case JSONValue::Type<JSONValue::JSONObject>::value: r.t = J::OBJ; for(auto& x : v.get<JSONValue::JSONObject>()) { r.k.push_back(x.first); r.a.push_back(from(x.second)); } break;
  default: r.t = J::NUL; }
  return r;
}
static JSONValue into(const J& j) {
  JSONValue r; switch(j.t) {
  case J::STR: { Str s(std::string(j.s)); r = s; } break;
  case J::NUM: if(j.isint) r = (int64_t)j.n; else r = (double)j.n; break;
  case J::TRUE_: r = true; break; case J::FALSE_: r = false; break;
  case J::ARR: { JSONValue::JSONArray a; for(auto& x : j.a) a.Add(into(x)); r = a; } break;
  case J::OBJ: { JSONValue::JSONObject o; for(size_t i = 0; i < j.a.size(); ++i) o.Add(std::pair<Str, JSONValue>(Str(std::string(j.k[i])), into(j.a[i]))); r = o; } break;
  default: break; }
  return r;
}
static J parse(const std::string& t) { std::istringstream ss(t); JSONValue v; LIB(ParseJSON(v, ss)); return from(v); }
static void roundtrip(const J& j) {
  JSONValue v = into(j); MC_CHECK(from(v) == j, "a JSONValue holding %s reads back as %s", j.show().c_str(), from(v).show().c_str());
  const JSONValue& cv = v; JSONValue cp(cv); JSONValue as; as = cv; JSONValue mv(std::move(cp)); MC_CHECK(from(as) == j && from(mv) == j, "copies of %s differ", j.show().c_str());
  for(int pretty = 0; pretty < 2; ++pretty) {
    std::ostringstream os; LIB(WriteJSON(v, os, (size_t)pretty)); std::string t = os.str(); J ref; bool ok = J::parse(t, ref);
    MC_CHECK(ok, "%s is written as %s, which is not JSON", j.show().c_str(), J::esc(t).c_str()); MC_CHECK(ref == j, "%s is written as %s", j.show().c_str(), J::esc(t).c_str());
    J back = parse(t); MC_CHECK(back == j, "%s written as %s parses as %s", j.show().c_str(), J::esc(t).c_str(), back.show().c_str());
  }
}
static std::vector<J> leaves(bool big) {
  std::vector<J> r{ J(J::NUL), J(J::TRUE_), J(J::FALSE_) };
  for(int64_t i : { (int64_t)0, (int64_t)-7, INT64_MAX, INT64_MIN }) r.push_back(J::i(i));
  for(double d : { 0.5, -1e20, 0.1 + 0.2 }) r.push_back(J::d(d));
  if(big) for(double d : { 1e-7, 1.7976931348623157e308, 5e-324, 3.0, 1e15, 123456789.125, -2.5e-300, 1e100, 16777217.0, 1.0 / 3 }) r.push_back(J::d(d));
  for(const char* s : { "", "a", "\"", "\\", "1,]}", "{[:" }) r.push_back(J::str(s));
  if(big) { for(const char* s : { "/", "\b\f\n\r\t", "\x01\x1f", "\xC3\xA9", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBF", "null", "true", " x ", "\\u0041", "\\\"", "seventeen letters and more" }) r.push_back(J::str(s)); r.push_back(J::str(std::string("a\0b", 3))); r.push_back(J(J::ARR)); r.push_back(J(J::OBJ)); }
  return r;
}
static const char* KEYS[] = { "k", "", "a\"b\\", "x y,}:" };
MC_CONFIG("values: every scalar, alone and nested") { auto L = leaves(true); mc::enumerate(c, [&](mc::Choose& ch) { J j = ch.of(L); int depth = ch(4); for(int i = 0; i < depth; ++i) { int w = ch(6); J o(w < 2 ? J::ARR : J::OBJ); if(w == 1) o.a.push_back(J::i(1)); o.a.push_back(j); if(w >= 2) o.k.push_back(KEYS[w - 2]); if(w == 1) o.a.push_back(J(J::NUL)); j = o; } roundtrip(j); c.outcome(j.show()); }); }
static J tree(mc::Choose& ch, int& left, int depth, const std::vector<J>& L) {
  int k = ch(depth > 0 ? (int)L.size() + 2 : (int)L.size()); if(k < (int)L.size()) return L[k];
  J o(k == (int)L.size() ? J::ARR : J::OBJ); while(left > 0 && ch(2)) { --left; if(o.t == J::OBJ) o.k.push_back(KEYS[ch(2)]); o.a.push_back(tree(ch, left, depth - 1, L)); } return o;
}
MC_CONFIG("values: all small trees") { std::vector<J> L{ J(J::NUL), J::i(-7), J::d(1e20), J::str("a\"],"), J(J::FALSE_) }; mc::enumerate(c, [&](mc::Choose& ch) { int left = c.pick(3, 4); J j = tree(ch, left, 3, L); roundtrip(j); c.outcome(j.show()); }); }
static void text(mc::Ctx& c, const std::string& t) { J ref, got = parse(t); if(J::parse(t, ref)) { if(!ref.vague()) MC_CHECK(got == ref, "%s parses as %s, expected %s", J::esc(t).c_str(), got.show().c_str(), ref.show().c_str()); c.outcome(ref.show()); } }
template<class A> static void texts(mc::Ctx& c, const A& tok, int len) { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(len + 1); std::string t; for(int i = 0; i < n; ++i) t += ch.of(tok); text(c, t); }); }
MC_CONFIG("texts: all short token sequences, structure") { static const char* tok[] = { "{", "}", "[", "]", "\"a\"", ",", ":", " ", "1", "null", "\"" }; texts(c, tok, c.pick(6, 7)); }
MC_CONFIG("texts: inside an object") { static const char* tok[] = { "}", "]", "[", "\"b\"", ",", ":", "\n", "2", "true", "{" }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(6, 8)); std::string t = ch(2) ? "[ {\"a\":" : "{ \"a\" : "; for(int i = 0; i < n; ++i) t += ch.of(tok); text(c, t); }); }
MC_CONFIG("texts: all short strings") { static const char* tok[] = { "a", "\\", "\"", "/", "u", "00", "4", "1", "n", ",", "}", "\xC3\xA9", " " }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(6, 7)), w = ch(2); std::string t = w ? "[\"" : "\""; for(int i = 0; i < n; ++i) t += ch.of(tok); t += "\""; if(w) t += ",5]"; text(c, t); }); }
MC_CONFIG("texts: all short numbers") { static const char* tok[] = { "0", "1", "25", ".", "e", "E", "-", "+", " " }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(6, 8)), w = ch(3); std::string t; for(int i = 0; i < n; ++i) t += ch.of(tok); text(c, w == 0 ? t : w == 1 ? "[" + t + ",3]" : "{\"k\":" + t + "}"); }); }
MC_CONFIG("texts: escaped code points") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int hi = ch(0x1100); char b[32]; for(int lo = 0; lo < 256; ++lo) { uint32_t x = hi * 256 + lo; if(x >= 0xD800 && x <= 0xDFFF) continue; if(x < 0x10000) snprintf(b, 32, (lo & 1) ? "\\u%04x" : "\\u%04X", x); else snprintf(b, 32, "\\u%04x\\u%04x", 0xD800 + ((x - 0x10000) >> 10), 0xDC00 + ((x - 0x10000) & 0x3FF)); text(c, std::string("\"a") + b + "b\""); } }); }
MC_CONFIG("texts: bytes") { static const char tok[] = { '{', '[', '"', '\\', 'u', 't', '-', ',', ':', '\xFF', '\0', ' ' }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(7, 8)); std::string t; for(int i = 0; i < n; ++i) t += ch.of(tok); text(c, t); }); }
// whitespace in every gap of a well-formed text
MC_CONFIG("texts: whitespace in every gap") { static const char* doc[] = { "[ 1 , true , \"a\" , null , 2.5 ]", "{ \"a\" : 1 , \"b\" : [ false , { } ] , \"c\" : null }", "[ [ ] , { \"k\" : \"v\" } , -3 ]", "{ \"a\" : true , \"b\" : { \"c\" : null } }" }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { std::string d = ch.of(doc), t; int gaps = 0; t += ch(2) ? " " : ""; for(char x : d) { if(x != ' ') { t += x; continue; } if(gaps++ < c.pick(11, 15)) t += ch(2) ? (gaps & 1 ? "\n\t" : " ") : ""; } t += ch(2) ? "\n" : ""; text(c, t); }); }
// one or two gaps, or all of them, filled with every kind of whitespace; also for a typed structure
static const char* WS[] = { "", " ", "\t", "\n", "\r", "\r\n", "\t\r\n ", "\n\n", "  " };
static std::string gaps(mc::Choose& ch, const std::string& d) {
  int n = 0; for(char x : d) n += x == ' '; int g = ch(n + 1), h = g < n ? g + ch(n - g) : n; const char *w = ch.of(WS), *v = g == h ? w : ch.of(WS); static const char* B[] = { "", " ", "\r\n" }; const char* base = ch.of(B);
  std::string t; int i = 0; for(char x : d) { if(x != ' ') { t += x; continue; } t += g == n || i == g ? w : i == h ? v : base; ++i; } return t; }
MC_CONFIG("texts: every kind of whitespace in every pair of gaps") { static const char* doc[] = { " [ 1 , true , \"a\" , null , 2.5 ] ", " { \"a\" : 1 , \"b\" : [ false , { } ] , \"c\" : null } ", "[ [ ] , { \"k\" : \"v\" } , -3 ]", "{ \"a\" : true , \"b\" : { \"c\" : null , \"d\" : 1e3 } }" }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { std::string d = ch.of(doc); text(c, gaps(ch, d)); }); }
// typed structures
enum class Colour : uint16_t { RED, BLUE = 700 };
struct In { int32_t x = 0; Str s; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<In>(GenPair("x", x), GenPair("s", s)); } bool operator==(const In& r) const { return x == r.x && s == r.s; } };
struct Big { int64_t a = 0; uint16_t b = 0; double d = 0; float f = 0; bool t = false; Str s; std::string u; In in; DynArray<int16_t> da; std::vector<double> vd; DynArray<Str, uint16_t, ARRAY_SAFE> ds; DynArray<In, uint32_t, ARRAY_SAFE> di; int fx[3] = { 0, 0, 0 }; std::array<bool, 2> ab{ { false, false } }; std::tuple<short, Str, double> tu{ 0, "", 0 }; Hash<int, int> h; Colour co = Colour::RED; DynArray<bool> bits; uint64_t q = 0; uint8_t by = 0; int8_t sb = 0;
  template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Big>(GenPair("a", a), GenPair("b", b), GenPair("d", d), GenPair("f", f), GenPair("t", t), GenPair("s", s), GenPair("u", u), GenPair("in", in), GenPair("da", da), GenPair("vd", vd), GenPair("ds", ds), GenPair("di", di), GenPair("fx", fx), GenPair("ab", ab), GenPair("tu", tu), GenPair("h", h), GenPair("co", co), GenPair("bits", bits), GenPair("q", q), GenPair("by", by), GenPair("sb", sb)); } };
template<class T> static std::vector<T> vec(const DynArray<T, uint16_t, ARRAY_SAFE>& a) { return std::vector<T>(a.begin(), a.end()); }
static void same(const Big& x, const Big& y, const std::string& t) {
#define SAME(m) MC_CHECK(x.m == y.m, "member " #m " does not survive: %s", J::esc(t).c_str())
  SAME(a); SAME(b); SAME(d); SAME(f); SAME(t); SAME(s); SAME(u); SAME(in); SAME(vd); SAME(ab); SAME(tu); SAME(co); SAME(q); SAME(by); SAME(sb);
  SAME(da.Length()); for(size_t i = 0; i < x.da.Length(); ++i) SAME(da[i]); SAME(ds.Length()); for(uint16_t i = 0; i < x.ds.Length(); ++i) SAME(ds[i]); SAME(di.Length()); for(uint32_t i = 0; i < x.di.Length(); ++i) SAME(di[i]); for(int i = 0; i < 3; ++i) SAME(fx[i]); SAME(bits.Length()); for(size_t i = 0; i < x.bits.Length(); ++i) MC_CHECK((bool)x.bits[i] == (bool)y.bits[i], "bits do not survive");
  SAME(h.Length()); for(int k : { -1, 3, 44 }) { MC_CHECK(x.h.Exists(k) == y.h.Exists(k) && (!x.h.Exists(k) || x.h[k] == y.h[k]), "the hash does not survive: %s", J::esc(t).c_str()); }
}
static const char* STRS[] = { "", "a", "q\"\\,]}", "\n\xC3\xA9/" };
static void warm() { std::ostringstream os; Big v; WriteJSON(v, os, 0); ParseJSON(v, "{}"); } // the name tables are built once
MC_CONFIG("typed structures: round trip") { warm(); mc::enumerate(c, [&](mc::Choose& ch) {
    Big v; // one member group at a time, every combination within the group
    switch(ch(7)) {
    case 0: { static const int64_t A[] = { 0, -5, INT64_MIN, INT64_MAX }; v.a = ch.of(A); static const uint16_t B[] = { 0, 9, 65535 }; v.b = ch.of(B); v.t = ch(2); v.co = ch(2) ? Colour::BLUE : Colour::RED; static const uint64_t Q[] = { 0, 1, UINT64_MAX }; v.q = ch.of(Q); } break;
    case 1: { static const double D[] = { 0, -1.5, 0.1, 1e300, 1.0 / 3, 5e-324, 123456789 }; v.d = ch.of(D); static const float F[] = { 0, 0.1f, -3e38f, 1e-40f, 16777215 }; v.f = ch.of(F); } break;
    case 2: v.s = ch.of(STRS); v.u = ch.of(STRS); v.in.s = ch.of(STRS); v.in.x = -ch(2); break;
    case 3: for(int n = ch(4); n > 0; --n) v.da.Add((int16_t)(ch(3) * -300)); for(int n = ch(3); n > 0; --n) v.vd.push_back(ch(2) ? 1e20 : 0.1); for(int n = ch(4); n > 0; --n) v.bits.Add(ch(2)); break;
    case 4: for(int n = ch(4); n > 0; --n) v.ds.Add(Str(ch.of(STRS))); for(int n = ch(3); n > 0; --n) { In i; i.x = ch(2); i.s = ch.of(STRS); v.di.Add(i); } break;
    case 5: for(int i = 0; i < 3; ++i) v.fx[i] = ch(3) - 1; v.ab = { { (bool)ch(2), (bool)ch(2) } }; v.tu = std::make_tuple((short)-ch(2), Str(ch.of(STRS)), ch(2) ? 0.1 : -2.0); break;
    case 6: for(int k : { -1, 3, 44 }) if(int d = ch(3)) v.h.Insert(k, d - 2); { static const int by[] = { 0, 1, 10, 34, 44, 65, 125, 128, 255 }; v.by = (uint8_t)ch.of(by); v.sb = (int8_t)ch.of(by); } break;
    }
    for(int pretty = 0; pretty < 2; ++pretty) { std::ostringstream os; LIB(WriteJSON(v, os, (size_t)pretty)); std::string t = os.str(); J ref; MC_CHECK(J::parse(t, ref), "a structure is written as %s, which is not JSON", J::esc(t).c_str()); Big w; std::istringstream is(t); LIB(ParseJSON(w, is)); same(v, w, t); Big z; LIB(ParseJSON(z, t.c_str())); same(v, z, t); c.outcome(t); } }); }
struct Small { int a = -9; Str s{ "?" }; DynArray<int> l; bool t = false; In in; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Small>(GenPair("a", a), GenPair("s", s), GenPair("l", l), GenPair("t", t), GenPair("in", in)); } };
MC_CONFIG("typed structures: every member order, unknown members anywhere") { { Small w; ParseJSON(w, "{\"in\":{}}"); } static const char* unk[] = { "1", "null", "\"x\"", "\"}],{\"", "{}", "{\"a\":7,\"s\":\"n\"}", "[]", "[1,[2,{\"a\":3}],\"]\"]", "{ \"a\" : [ { } , 3 ] , \"z\" : 1 }", "\"\\\"\"" };
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    std::vector<std::string> m{ ch(2) ? "\"a\":\"12\"" : "\"a\":12", "\"s\":\"q,}\"", "\"l\":[4,5 ]", ch(2) ? "\"t\":true" : "\"t\":1", "\"in\":{\"x\":3,\"s\":\"w\"}" }, o; while(!m.empty()) { int i = ch((int)m.size()); o.push_back(m[i]); m.erase(m.begin() + i); }
    int u = ch(6); std::string x = "\"" + std::string(ch(2) ? "zz" : "al") + "\":" + ch.of(unk); o.insert(o.begin() + u, x); const char* sep = ch(2) ? " ,\n" : ","; std::string t = "{"; for(size_t i = 0; i < o.size(); ++i) t += (i ? sep : "") + o[i]; t += " }";
    Small v; std::istringstream is(t); LIB(ParseJSON(v, is)); MC_CHECK(v.a == 12 && v.s == "q,}" && v.l.Length() == 2 && v.l[0] == 4 && v.l[1] == 5 && v.t && v.in.x == 3 && v.in.s == "w", "%s is read as a=%d s=%s l[%zu] t=%d in={%d,%s}", J::esc(t).c_str(), v.a, v.s.c_str(), v.l.Length(), v.t, v.in.x, v.in.s.c_str()); }); }
MC_CONFIG("typed structures: every kind of whitespace in every pair of gaps") { { Small w; ParseJSON(w, "{\"in\":{}}"); } mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    static const char* doc[] = { " { \"a\" : 12 , \"s\" : \"q,}\" , \"l\" : [ 4 , 5 ] , \"t\" : true , \"in\" : { \"x\" : 3 , \"s\" : \"w\" } } ", "{ \"in\" : { \"s\" : \"w\" , \"x\" : 3 } , \"u\" : [ { \"a\" : 7 } , 2 ] , \"t\" : true , \"l\" : [ 4 , 5 ] , \"s\" : \"q,}\" , \"v\" : null , \"a\" : 12 }" }; std::string d = ch.of(doc), t = gaps(ch, d);
    Small v; std::istringstream is(t); LIB(ParseJSON(v, is)); MC_CHECK(v.a == 12 && v.s == "q,}" && v.l.Length() == 2 && v.l[0] == 4 && v.l[1] == 5 && v.t && v.in.x == 3 && v.in.s == "w", "%s is read as a=%d s=%s l[%zu] t=%d in={%d,%s}", J::esc(t).c_str(), v.a, v.s.c_str(), v.l.Length(), v.t, v.in.x, v.in.s.c_str()); c.outcome(t.size()); }); }
MC_CONFIG("typed structures: all short texts") { { Small w; ParseJSON(w, "{\"in\":{}}"); } static const char* tok[] = { "{", "}", "[", "]", "\"a\"", "\"s\"", "\"l\"", ",", ":", "1", "\"", "\"in\"", " " }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(6, 7)); std::string t; for(int i = 0; i < n; ++i) t += ch.of(tok); Small v; std::istringstream is(t); LIB(ParseJSON(v, is)); J ref; if(J::parse(t, ref) && ref.t == J::OBJ) { for(size_t i = 0; i < ref.k.size(); ++i) { if(ref.k[i] == "a" && ref.a[i].t == J::NUM && i + 1 == ref.k.size()) MC_CHECK(v.a == (int)ref.a[i].n, "%s gives a=%d", J::esc(t).c_str(), v.a); } } c.outcome(n); }); }
// Sizes: long strings and keys with one special character anywhere near an end, long arrays and objects, deep nesting.
MC_CONFIG("values: sizes") {
  static const int NS[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 5000 }; static const char* SP[] = { "\"", "\\", "\n", "\xC3\xA9", "\xF0\x9F\x98\x80", "\x01", ",", "/", "}" };
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch.of(NS); J j;
    switch(ch(5)) {
    case 0: case 1: { int at = ch(4); std::string s(n, 'x'), sp = ch.of(SP); size_t p = at == 0 ? 0 : at == 1 ? s.size() / 2 : at == 2 ? s.size() - 1 : s.size(); s.insert(p, sp); if(ch(2)) { j = J(J::OBJ); j.k.push_back(s); j.a.push_back(J::i(4)); j.k.push_back("k"); j.a.push_back(J::str(s)); } else { j = J(J::ARR); j.a.push_back(J::str(s)); j.a.push_back(J(J::NUL)); } break; }
    case 2: { j = J(J::ARR); int kind = ch(3); if(n > 1100) break; for(int i = 0; i < n; ++i) j.a.push_back(kind == 0 ? J::i(i * 7919 - 5000) : kind == 1 ? J::str(std::to_string(i)) : J(i % 3 ? J::TRUE_ : J::ARR)); break; }
    case 3: { j = J(J::OBJ); if(n > 1100) break; for(int i = 0; i < n; ++i) { j.k.push_back("key" + std::to_string(i)); j.a.push_back(J::d(i / 4.0 + 0.5)); } break; }
    default: { if(n > 130) break; int kind = ch(3); for(int i = 0; i < n; ++i) { J o(kind == 0 || (kind == 2 && i % 2) ? J::ARR : J::OBJ); if(o.t == J::OBJ) o.k.push_back("n"); o.a.push_back(j); if(i % 5 == 0) { o.a.push_back(J::i(i)); if(o.t == J::OBJ) o.k.push_back("m"); } j = o; } }
    }
    roundtrip(j);
  });
}
MC_CONFIG("typed structures: sizes") { warm();
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const int NS[] = { 15, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257, 1000, 1024, 1025 }; int n = ch.of(NS); Big v;
    switch(ch(6)) { case 0: for(int i = 0; i < n; ++i) v.da.Add((int16_t)(i * 131)); break; case 1: for(int i = 0; i < n; ++i) v.vd.push_back(i / 7.0); break; case 2: for(int i = 0; i < n; ++i) v.bits.Add((i / 3) & 1); break; case 3: for(int i = 0; i < n; ++i) v.ds.Add(Str(i % 7 ? std::to_string(i) : std::string("\"},"))); break; case 4: for(int i = 0; i < n; ++i) { In x; x.x = i; x.s = i % 5 ? "s" : ""; v.di.Add(x); } break; default: v.s = std::string(n, 'a') + "\"" + std::string(n, 'b'); v.u = std::string(n, '\\'); }
    for(int pretty = 0; pretty < 2; ++pretty) { std::ostringstream os; LIB(WriteJSON(v, os, (size_t)pretty)); std::string t = os.str(); Big w; std::istringstream is(t); LIB(ParseJSON(w, is)); same(v, w, t.substr(0, 200)); }
  });
}

// What follows half of a surrogate pair is read as if it were not there, and a number is a boolean unless it is zero.
MC_CONFIG("texts: halves of surrogate pairs") { mc::enumerate(c, [&](mc::Choose& ch) { static const char* H[] = { "\\ud800", "\\ud83d", "\\udbff", "\\uDBFF" }; struct N { const char* t; const char* s; }; static const N NX[] = { { "\\n", "\n" }, { "\\\\", "\\" }, { "\\\"", "\"" }, { "\\/", "/" }, { "x", "x" }, { "u", "u" }, { "\\u0041", "A" }, { "\\u00e9", "\xC3\xA9" }, { "\\ue000", "\xEE\x80\x80" }, { "", "" } };
    int n = ch(3); std::string h = ch.of(H); const N& x = ch.of(NX); std::string t = "[\"", want; for(int i = 0; i < n; ++i) { t += "p"; want += "p"; } t += h + x.t + "z\", 5]"; std::istringstream ss(t); JSONValue v; LIB(ParseJSON(v, ss)); MC_CHECK(v.is<JSONValue::JSONArray>() && v.get<JSONValue::JSONArray>().Length() == 2, "%s is not read as an array of two", t.c_str()); auto& a = v.get<JSONValue::JSONArray>(); MC_CHECK(a[1].is<int64_t>() && a[1].get<int64_t>() == 5, "what follows the string in %s is lost", t.c_str()); MC_CHECK(a[0].is<Str>(), "no string in %s", t.c_str()); std::string got = a[0].get<Str>().c_str(), tail = std::string(x.s) + "z"; MC_CHECK(got.substr(0, n) == want && got.size() >= tail.size() && got.substr(got.size() - tail.size()) == tail, "%s is read as \"%s\"", t.c_str(), got.c_str()); c.outcome(got); }); }
struct Bo { bool a = false, b = false; int n = 0; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Bo>(GenPair("a", a), GenPair("b", b), GenPair("n", n)); } };
MC_CONFIG("typed structures: booleans") { { Bo w; ParseJSON(w, "{\"a\":1}"); } mc::enumerate(c, [&](mc::Choose& ch) { struct N { const char* t; bool v; }; static const N NX[] = { { "0", false }, { "1", true }, { "2", true }, { "256", true }, { "65536", true }, { "4294967296", true }, { "18446744073709551615", true }, { "true", true }, { "false", false }, { "00", false } }; static const char* WS[] = { "", " ", "\n" }; const N &x = ch.of(NX), &y = ch.of(NX); std::string w = ch.of(WS), u = ch.of(WS); Bo b; b.a = ch(2); b.b = ch(2); std::string t = "{\"a\":" + w + x.t + u + ",\"b\":" + u + y.t + w + ",\"n\":7}"; std::istringstream ss(t); LIB(ParseJSON(b, ss)); MC_CHECK(b.a == x.v && b.b == y.v && b.n == 7, "%s is read as %d, %d, %d", t.c_str(), b.a, b.b, b.n); c.outcome(t); }); }
