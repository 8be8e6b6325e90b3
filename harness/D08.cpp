// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// TOML: every small document against a reference reader, typed structures written and read, unknown members, every short text.
#include "mc.h"
#include <fstream>
#include <map>
#include <sstream>
#include "bss-util/TOML.h"
using namespace bss;
typedef std::string S;
typedef std::chrono::system_clock::time_point TP;
static S esc(const S& s) { S r; char b[8]; for(char c : s) { if((unsigned char)c >= 32 && (unsigned char)c < 127) r += c; else { snprintf(b, 8, "<%02x>", (unsigned char)c); r += b; } } return r; }
static TP at(int64_t sec, int64_t us = 0) { return TP(std::chrono::duration_cast<TP::duration>(std::chrono::seconds(sec) + std::chrono::microseconds(us))); }
struct V { char k = 'N'; S s; int64_t i = 0; double d = 0; std::vector<V> a; std::map<S, V> t;
  static V str(const S& s) { V v; v.k = 'S'; v.s = s; return v; } static V num(int64_t i) { V v; v.k = 'I'; v.i = i; return v; } static V flt(double d) { V v; v.k = 'D'; v.d = d; return v; } static V bol(bool b) { V v; v.k = 'B'; v.i = b; return v; } static V date(TP p) { V v; v.k = 'T'; v.i = (int64_t)p.time_since_epoch().count(); return v; } static V arr(std::vector<V> a = {}) { V v; v.k = 'A'; v.a = a; return v; } static V tab(std::map<S, V> t = {}) { V v; v.k = 'O'; v.t = t; return v; }
  S show() const { switch(k) { case 'S': return "'" + esc(s) + "'"; case 'I': return std::to_string(i); case 'D': return mc::fmt("%.17gf", d); case 'B': return i ? "true" : "false"; case 'T': return mc::fmt("@%lld", (long long)i); case 'A': { S r = "["; for(auto& x : a) r += x.show() + ","; return r + "]"; } case 'O': { S r = "{"; for(auto& x : t) r += esc(x.first) + ":" + x.second.show() + ","; return r + "}"; } } return "nothing"; } };
static V from(TOMLValue& v) { if(v.is<Str>()) return V::str(v.get<Str>()); if(v.is<double>()) return V::flt(v.get<double>()); if(v.is<int64_t>()) return V::num(v.get<int64_t>()); if(v.is<bool>()) return V::bol(v.get<bool>()); if(v.is<TP>()) return V::date(v.get<TP>());
  if(v.is<TOMLValue::TOMLArray>()) { V r = V::arr(); auto& a = v.get<TOMLValue::TOMLArray>(); for(size_t i = 0; i < a.Length(); ++i) r.a.push_back(from(a[i])); return r; }
  if(v.is<TOMLValue::TOMLTable>()) { V r = V::tab(); for(auto p : v.get<TOMLValue::TOMLTable>()) r.t[S(std::get<0>(p).c_str())] = from(std::get<1>(p)); return r; } return V(); }
static V parse(const S& t) { std::istringstream ss(t); TOMLValue v; LIB(ParseTOML(v, ss)); return from(v); }
static void reads(const S& t, const V& want) { V got = parse(t); MC_CHECK(got.show() == want.show(), "%s is read as %s, expected %s", esc(t).c_str(), got.show().c_str(), want.show().c_str()); }
struct Sc { const char* t; V v; };
static const std::vector<Sc>& scalars() { static std::vector<Sc> s = { { "0", V::num(0) }, { "-1", V::num(-1) }, { "+42", V::num(42) }, { "9223372036854775807", V::num(INT64_MAX) }, { "-9223372036854775808", V::num(INT64_MIN) }, { "9007199254740993", V::num(9007199254740993ll) }, { "1.5", V::flt(1.5) }, { "-0.25", V::flt(-0.25) }, { "1e-6", V::flt(1e-6) }, { "6.626E-34", V::flt(6.626E-34) }, { "2.0", V::num(2) }, { "1e3", V::num(1000) }, { "1e300", V::flt(1e300) }, { "3.1415926535897931", V::flt(3.1415926535897931) },
  { "true", V::bol(true) }, { "false", V::bol(false) }, { "\"\"", V::str("") }, { "''", V::str("") }, { "\"a b\"", V::str("a b") }, { "'a\\b'", V::str("a\\b") }, { "\"\\\"\\\\\\n\\t\\b\\f\\r\"", V::str("\"\\\n\t\b\f\r") }, { "\"\\u00e9\\u20AC\\U0001F600\"", V::str("\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80") }, { "\"# , ] } [ { = '\"", V::str("# , ] } [ { = '") }, { "'# , ] } \"'", V::str("# , ] } \"") }, { "\"\xC3\xA9\"", V::str("\xC3\xA9") }, { "\" x \"", V::str(" x ") },
  { "\"\"\"a\nb\"\"\"", V::str("a\nb") }, { "\"\"\"\na\"\"\"", V::str("a") }, { "\"\"\"\r\n\r\na\"\"\"", V::str("\r\na") }, { "\"\"\"\n\r\na\"\"\"", V::str("\r\na") }, { "\"\"\"a\\\n   b\"\"\"", V::str("ab") }, { "\"\"\"a\\  \n \r\n \t b\"\"\"", V::str("ab") }, { "\"\"\"\\\n  a \\\n  \"\"\"", V::str("a ") }, { "\"\"\"x\"y\"\"z\\\"\"\"\"", V::str("x\"y\"\"z\"") }, { "\"\"\"\"\"\"", V::str("") }, { "\"\"\"\n[a]\nb = 1 # c\n\"\"\"", V::str("[a]\nb = 1 # c\n") },
  { "'''a'b''c'''", V::str("a'b''c") }, { "'''\na\\\nb'''", V::str("a\\\nb") }, { "''''''", V::str("") }, { "'''[x]\n]'''", V::str("[x]\n]") },
  { "1979-05-27T07:32:00Z", V::date(at(296638320)) }, { "1979-05-27T00:32:00-07:00", V::date(at(296638320)) }, { "1979-05-27T08:02:00+00:30", V::date(at(296638320)) }, { "1979-05-27", V::date(at(296611200)) }, { "1970-01-01T00:00:00Z", V::date(at(0)) }, { "1969-12-31T23:59:59Z", V::date(at(-1)) }, { "2000-02-29T23:59:59Z", V::date(at(951868799)) }, { "2024-12-31T07:32:00", V::date(at(1735630320)) },
  { "[]", V::arr() }, { "[ ]", V::arr() }, { "[ 1 ]", V::arr({ V::num(1) }) }, { "[1,2]", V::arr({ V::num(1), V::num(2) }) }, { "[[1, 2], [], [3]]", V::arr({ V::arr({ V::num(1), V::num(2) }), V::arr(), V::arr({ V::num(3) }) }) }, { "[\n1 # , ]\n, # x\n2,\n]", V::arr({ V::num(1), V::num(2) }) }, { "[ \"]\", '[,' ]", V::arr({ V::str("]"), V::str("[,") }) }, { "[[[]], [[1]]]", V::arr({ V::arr({ V::arr() }), V::arr({ V::arr({ V::num(1) }) }) }) }, { "[ [\"a\"]\n,\n['b'] ]", V::arr({ V::arr({ V::str("a") }), V::arr({ V::str("b") }) }) }, { "[true,false , true]", V::arr({ V::bol(true), V::bol(false), V::bol(true) }) },
  { "{}", V::tab() }, { "{ }", V::tab() }, { "{ a = 1 }", V::tab({ { "a", V::num(1) } }) }, { "{a=1,b={c=\"}\"},d=[{}]}", V::tab({ { "a", V::num(1) }, { "b", V::tab({ { "c", V::str("}") } }) }, { "d", V::arr({ V::tab() }) } }) }, { "{ \"k k\" = [ 1\n, 2 ], 'l' = 'x' }", V::tab({ { "k k", V::arr({ V::num(1), V::num(2) }) }, { "l", V::str("x") } }) }, { "[ { a = 1 }, { a = 2 } ]", V::arr({ V::tab({ { "a", V::num(1) } }), V::tab({ { "a", V::num(2) } }) }) } };
  return s; }
static void warm() { parse("a = [1, {b = 'x'}]\n[c]\nd = 1.5"); }
MC_CONFIG("values: every value in every place") { warm(); auto& sc = scalars(); mc::enumerate(c, [&](mc::Choose& ch) { const Sc& x = sc[ch((int)sc.size())]; const Sc& y = sc[(int)((&x - sc.data()) + 1 + ch(3) * 7) % sc.size()]; static const char* NL[] = { "\n", "\r\n", " # c = [\n", "\t\n\n" }; S nl = ch.of(NL), t; bool end = ch(2); V w = V::tab();
    switch(ch(8)) {
    case 0: t = S("k = ") + x.t + nl + "l =" + y.t; w.t = { { "k", x.v }, { "l", y.v } }; break;
    case 1: t = S("k=") + x.t + nl + "[t]" + nl + "l = " + y.t; w.t = { { "k", x.v }, { "t", V::tab({ { "l", y.v } }) } }; break;
    case 2: t = S("k = [") + x.t + "," + y.t + "]" + nl + "z = 1"; w.t = { { "k", V::arr({ x.v, y.v }) }, { "z", V::num(1) } }; break;
    case 3: t = S("k = [ ") + x.t + " , [" + y.t + " ] ]" + nl + "z = 1"; w.t = { { "k", V::arr({ x.v, V::arr({ y.v }) }) }, { "z", V::num(1) } }; break;
    case 4: t = S("k = { a = ") + x.t + ", b = " + y.t + " }" + nl + "z = 1"; w.t = { { "k", V::tab({ { "a", x.v }, { "b", y.v } }) }, { "z", V::num(1) } }; break;
    case 5: t = S("k = [ # c ]") + "\n  " + x.t + nl + "  , " + y.t + ",\n]" + nl + "z = 1"; w.t = { { "k", V::arr({ x.v, y.v }) }, { "z", V::num(1) } }; break;
    case 6: t = S("[[k]]") + nl + "a = " + x.t + nl + "[[k]]" + nl + "\"b c\" = " + y.t; w.t = { { "k", V::arr({ V::tab({ { "a", x.v } }), V::tab({ { "b c", y.v } }) }) } }; break;
    case 7: t = S("[[k]]") + nl + "[k.s]" + nl + "'a' = " + x.t + nl + "b = {x=" + y.t + "}"; w.t = { { "k", V::arr({ V::tab({ { "s", V::tab({ { "a", x.v }, { "b", V::tab({ { "x", y.v } }) } }) } }) }) } }; break;
    } if(end) t += nl; reads(t, w); c.outcome(t); }); }
// documents made of lines, read by a reference reader
struct Line { const char* t; std::vector<S> path; int kind; const char* key; V v; }; // kind: 0 pair, 1 table, 2 table array, 3 nothing
static const std::vector<Line>& lines() { static std::vector<Line> l = { { "x = 1", {}, 0, "x", V::num(1) }, { "[a]", { "a" }, 1, "", {} }, { "[[l]]", { "l" }, 2, "", {} }, { "[a.b]", { "a", "b" }, 1, "", {} }, { "[l.m]", { "l", "m" }, 1, "", {} }, { "[[l.n]]", { "l", "n" }, 2, "", {} }, { "y = [[1], [2, 3]]", {}, 0, "y", V::arr({ V::arr({ V::num(1) }), V::arr({ V::num(2), V::num(3) }) }) }, { "[ a . \"b\" . 'c' ] # [d]", { "a", "b", "c" }, 1, "", {} }, { "  [[ l . n . o ]]", { "l", "n", "o" }, 2, "", {} }, { "z = '''\n[q]\n'''", {}, 0, "z", V::str("[q]\n") }, { "# [a]", {}, 3, "", {} } }; return l; }
static bool ref(const std::vector<const Line*>& d, V& root) { root = V::tab(); std::vector<S> cur; std::map<S, int> seen; V* at = &root; std::function<bool(V&)> ok;
  for(auto* l : d) { if(l->kind == 3) continue; if(l->kind == 0) { if(at->t.count(l->key)) return false; at->t[l->key] = l->v; continue; }
    V* p = &root; S id; for(size_t i = 0; i < l->path.size(); ++i) { bool last = i + 1 == l->path.size(); V* q = p->t.count(l->path[i]) ? &p->t[l->path[i]] : 0; 
      if(!last) { if(!q) { p->t[l->path[i]] = V::tab(); q = &p->t[l->path[i]]; } if(q->k == 'A') { if(q->a.empty() || q->a.back().k != 'O') return false; id += "." + l->path[i] + "#" + std::to_string(q->a.size()); q = &q->a.back(); } else id += "." + l->path[i]; if(q->k != 'O') return false; p = q; }
      else if(l->kind == 1) { if(q && q->k != 'O') return false; id += "." + l->path[i]; if(seen[id]++) return false; if(!q) { p->t[l->path[i]] = V::tab(); q = &p->t[l->path[i]]; } p = q; }
      else { if(q && q->k != 'A') return false; if(!q) { p->t[l->path[i]] = V::arr(); q = &p->t[l->path[i]]; } q->a.push_back(V::tab()); p = &q->a.back(); } }
    at = p; }
  return true; }
MC_CONFIG("documents: all short sequences of lines") { warm(); auto& ls = lines(); int len = c.pick(5, 6); mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(len + 1); const char* nl = n < 4 && ch(2) ? "\r\n" : "\n"; std::vector<const Line*> d; S t; for(int i = 0; i < n; ++i) { d.push_back(&ls[ch((int)ls.size())]); t += d.back()->t; t += nl; } V w; if(ref(d, w)) { reads(t, w); c.outcome(w.show()); } else parse(t); }); }
// values built from tokens with every kind of spacing
static void gen(mc::Choose& ch, int& left, int depth, const char* ws, bool trail, S& t, V& v) { int k = depth > 0 && left > 0 ? ch(4) : ch(2); --left; if(k == 0) { t += "1"; v = V::num(1); } else if(k == 1) { t += "\"]\""; v = V::str("]"); } else if(k == 2) { t += "["; t += ws; v = V::arr(); bool first = true; while(left > 0 && ch(2)) { if(!first) { t += ","; t += ws; } first = false; V x; gen(ch, left, depth - 1, ws, trail, t, x); v.a.push_back(x); t += ws; } if(!first && trail) { t += ","; t += ws; } t += "]"; } else { t += "{ "; v = V::tab(); int n = 0; while(left > 0 && ch(2)) { if(n) t += " , "; S key(1, (char)('a' + n++)); t += key + " = "; gen(ch, left, depth - 1, ws, trail, t, v.t[key]); } t += " }"; } }
MC_CONFIG("documents: all small nested values") { warm(); mc::enumerate(c, [&](mc::Choose& ch) { static const char* WS[] = { "", " ", "\n", "\r\n\t", " # ],}\n" }; int left = c.pick(6, 8); S t = "k = "; V v; const char* ws = ch.of(WS); bool tr = ch(2); gen(ch, left, 4, ws, tr, t, v); V w = V::tab({ { "k", v }, { "n", V::num(7) } }); t += "\nn = 7"; reads(t, w); c.outcome(w.show()); }); }
// typed structures
enum Col : uint8_t { RED = 1, BLUE = 200 };
struct In { int32_t x = 0; Str s; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<In>(GenPair("x", x), GenPair("s", s)); } bool operator==(const In& r) const { return x == r.x && s == r.s; } };
struct Mid { uint16_t a = 0; std::vector<In> l; In in; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Mid>(GenPair("a", a), GenPair("l", l), GenPair("in", in)); } bool operator==(const Mid& r) const { return a == r.a && l == r.l && in == r.in; } };
struct Big { int64_t a = 0; uint16_t b = 0; double d = 0; float f = 0; bool t = false; Str s; std::string u; In in; Mid mid; DynArray<int16_t> da; std::vector<double> vd; std::vector<Str> ds; DynArray<Mid, size_t, ARRAY_SAFE> di; int fx[3] = { 0, 0, 0 }; std::array<bool, 2> ab{ { false, false } }; std::tuple<short, Str, double> tu{ 0, "", 0 }; uint64_t q = 0; int8_t by = 0; Col col = RED; std::vector<std::vector<int>> vv; TP tp; Hash<Str, int64_t, ARRAY_SAFE> h; Hash<Str, In, ARRAY_SAFE> hi;
  template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Big>(GenPair("a", a), GenPair("b", b), GenPair("in", in), GenPair("d", d), GenPair("f", f), GenPair("t", t), GenPair("s", s), GenPair("u", u), GenPair("mid", mid), GenPair("da", da), GenPair("vd", vd), GenPair("ds", ds), GenPair("di", di), GenPair("fx", fx), GenPair("ab", ab), GenPair("tu", tu), GenPair("q", q), GenPair("by", by), GenPair("col", col), GenPair("vv", vv), GenPair("h", h), GenPair("hi", hi), GenPair("tp", tp)); } };
template<class H> static S hs(H& h) { std::map<S, S> m; for(auto p : h) { std::ostringstream o; if constexpr(std::is_same_v<std::decay_t<decltype(std::get<1>(p))>, In>) o << std::get<1>(p).x << std::get<1>(p).s.c_str(); else o << std::get<1>(p); m[S(std::get<0>(p).c_str())] = o.str(); } S r; for(auto& x : m) r += x.first + ":" + x.second + ";"; return r; }
static void same(Big& x, Big& y, const S& t) {
#define SAME(m) MC_CHECK(x.m == y.m, "member " #m " does not survive: %s", esc(t).c_str())
  SAME(a); SAME(b); SAME(d); SAME(f); SAME(t); SAME(s); SAME(u); SAME(in); SAME(mid); SAME(vd); SAME(ds); SAME(ab); SAME(tu); SAME(q); SAME(by); SAME(col); SAME(vv); SAME(tp); SAME(da.Length()); for(size_t i = 0; i < x.da.Length(); ++i) SAME(da[i]); SAME(di.Length()); for(size_t i = 0; i < x.di.Length(); ++i) SAME(di[i]); for(int i = 0; i < 3; ++i) SAME(fx[i]); MC_CHECK(hs(x.h) == hs(y.h), "the map h does not survive: %s", esc(t).c_str()); MC_CHECK(hs(x.hi) == hs(y.hi), "the map hi does not survive: %s", esc(t).c_str());
}
static const char* STRS[] = { "", "a", "q\"\\'#=[]{},", "\xC3\xA9\n\r\t\x01", " [x]\n" };
static const char* KEYS[] = { "a", "b-1_Z", "k k", "x.y", "q\"", "#=[]", "\xC3\xA9" };
static void warmtyped() { warm(); Big v; v.di.Add(Mid()); v.mid.l.push_back(In()); v.hi.Insert("a", In()); std::stringstream os; WriteTOML(v, os); Big w; ParseTOML(w, os); }
static Big typed(mc::Choose& ch) { Big v; switch(ch(9)) {
    case 0: { static const int64_t A[] = { 0, -5, INT64_MIN, INT64_MAX }; v.a = ch.of(A); static const uint16_t B[] = { 0, 9, 65535 }; v.b = ch.of(B); v.t = ch(2); static const uint64_t Q[] = { 0, 1, UINT64_MAX }; v.q = ch.of(Q); v.by = (int8_t)(ch(3) * 64 - 1); v.col = ch(2) ? BLUE : RED; } break;
    case 1: { static const double D[] = { 0, -1.5, 0.1, 1e300, 1.0 / 3, 5e-324, 123456789 }; v.d = ch.of(D); static const float F[] = { 0, 0.1f, -3e38f, 1e-40f, 16777215 }; v.f = ch.of(F); } break;
    case 2: v.s = ch.of(STRS); v.u = ch.of(STRS); v.in.s = ch.of(STRS); v.in.x = -ch(2); break;
    case 3: for(int n = ch(4); n > 0; --n) v.da.Add((int16_t)(ch(3) * -300)); for(int n = ch(3); n > 0; --n) v.vd.push_back(ch(2) ? 1e20 : 0.1); break;
    case 4: { int ns = ch(3); for(int n = ns; n > 0; --n) v.ds.push_back(Str(ch.of(STRS))); } for(int n = v.ds.size() > 1 ? 0 : ch(3); n > 0; --n) { Mid i; i.a = (uint16_t)ch(2); i.in.s = ch(2) ? "}" : ""; for(int k = ch(3); k > 0; --k) { In z; z.x = ch(2); z.s = k == 1 ? ch.of(STRS) : ""; i.l.push_back(z); } v.di.Add(i); v.mid = i; } break;
    case 5: for(int i = 0; i < 3; ++i) v.fx[i] = ch(3) - 1; v.ab = { { (bool)ch(2), (bool)ch(2) } }; v.tu = std::make_tuple((short)-ch(2), Str(ch.of(STRS)), ch(2) ? 0.1 : -2.0); break;
    case 6: for(int n = ch(4); n > 0; --n) { v.vv.push_back({}); for(int k = ch(3); k > 0; --k) v.vv.back().push_back(-k * 100); } break;
    case 7: { static const int64_t T[] = { 0, 1, -1, 951868799, 951782400, 4102444799ll, -9000000000ll }; v.tp = at(ch.of(T)); } break;
    case 8: { int n = ch(4); for(int i = 0; i < n; ++i) v.h.Insert(ch.of(KEYS), (int64_t)i - 1); int m = ch(3); for(int i = 0; i < m; ++i) { In z; z.x = i + 1; z.s = ch.of(STRS); v.hi.Insert(KEYS[(ch(2) + i * 3) % 7], z); } } break;
  } return v; }
MC_CONFIG("typed structures: round trip") { warmtyped(); mc::enumerate(c, [&](mc::Choose& ch) { Big v = typed(ch); std::stringstream os; LIB(WriteTOML(v, os)); S t = os.str(); Big w; LIB(ParseTOML(w, os)); same(v, w, t);
    V g = parse(t); MC_CHECK(g.k == 'O' && g.t.size() == 23 && g.t["s"].show() == V::str(v.s).show() && g.t["a"].show() == V::num(v.a).show() && g.t["in"].show() == V::tab({ { "x", V::num(v.in.x) }, { "s", V::str(v.in.s) } }).show() && g.t["tp"].show() == V::date(v.tp).show() && g.t["vv"].a.size() == v.vv.size() && g.t["di"].a.size() == v.di.Length() && g.t["h"].t.size() == v.h.Length(), "what is written is read as another document: %s gives %s", esc(t).c_str(), g.show().c_str());
    for(auto p : v.h) { S k = std::get<0>(p).c_str(); MC_CHECK(g.t["h"].t.count(k) && g.t["h"].t[k].i == std::get<1>(p), "key %s is written as something else: %s", esc(k).c_str(), esc(t).c_str()); }
    c.outcome(t); }); }
MC_CONFIG("typed structures: one serializer, file, repeated use") { warmtyped(); mc::enumerate(c, [&](mc::Choose& ch) { Big v, v2; v.a = ch(3); v.in.x = ch(2); v2.s = ch.of(STRS); v2.mid.a = (uint16_t)ch(2); S f = S(mc::scratch()) + "/d08.toml"; LIB(WriteTOML(v, f.c_str())); { std::ifstream fs(f, std::ios::binary); Big w; LIB(ParseTOML(w, fs)); same(v, w, "file"); }
    Serializer<TOMLEngine> e; std::stringstream o1, o2; LIB(e.Serialize(v, o1)); LIB(e.Serialize(v2, o2)); Big w, w2; LIB(e.Parse(w, o1)); LIB(e.Parse(w2, o2)); same(v, w, o1.str()); same(v2, w2, o2.str()); c.outcome(o2.str()); }); }
static const char* DOC[] = { "a = 5\n", "s = \"x\"\n", "fx = [1, 2,\n 3]\n", "vv = [[1], [], [2, 3]]\n", "[in]\n", "x = -2\n", "[mid]\n", "a = 9\n", "[mid.in]\n", "s = 'y'\n", "[[di]]\n", "a = 7\n", "[[di.l]]\n", "x = 1\n", "[[di.l]]\n", "s = \"2\"\n", "[di.in]\n", "x = 11\n", "[[di]]\n", "l = [{ x = 3 }, { s = \"]\", x = 4 }]\n" };
static void check(Big& w, const S& t) { Big v; v.a = 5; v.s = "x"; v.fx[0] = 1; v.fx[1] = 2; v.fx[2] = 3; v.vv = { { 1 }, {}, { 2, 3 } }; v.in.x = -2; v.mid.a = 9; v.mid.in.s = "y"; Mid m; m.a = 7; In i; i.x = 1; m.l.push_back(i); i.x = 0; i.s = "2"; m.l.push_back(i); m.in.x = 11; v.di.Add(m); Mid n; i.x = 3; i.s = ""; n.l.push_back(i); i.x = 4; i.s = "]"; n.l.push_back(i); v.di.Add(n); same(v, w, t); }
MC_CONFIG("typed structures: unknown members are skipped") { warmtyped(); auto& sc = scalars(); mc::enumerate(c, [&](mc::Choose& ch) { const Sc& x = sc[ch((int)sc.size())]; size_t N = sizeof(DOC) / sizeof(*DOC); size_t pos = (size_t)ch((int)N + 1); bool crlf = ch(2); S t; 
    for(size_t i = 0; i <= N; ++i) { if(i == pos) { if(i == N) { t += S("[zz]\nk = ") + x.t + "\n[zz.y]\nk = " + x.t + "\n[[in.q]]\nk = " + x.t + "\n"; } else if(DOC[i][0] == '[') { t += S("[zz]\nk = ") + x.t + "\n[mid.zz]\nk = " + x.t + " # [\n  [[zzz]]\nk = " + x.t + "\n"; } else { t += S("zz = ") + x.t + "\n\"z z\"=[" + x.t + "," + x.t + "] # \"\n"; } } if(i < N) t += DOC[i]; }
    if(crlf) { S r; for(char k : t) { if(k == '\n' && (r.empty() || r.back() != '\r')) r += '\r'; r += k; } t = r; } std::istringstream ss(t); Big w; LIB(ParseTOML(w, ss)); check(w, t); c.outcome(t); }); }
MC_CONFIG("typed structures: unknown members of inline tables") { warmtyped(); auto& sc = scalars(); mc::enumerate(c, [&](mc::Choose& ch) { const Sc& x = sc[ch((int)sc.size())]; int p = ch(3); S z = S("zz = ") + x.t; S t = "mid = { " + (p == 0 ? z + ", " : "") + "a = 9, l = [{ " + (p == 1 ? z + "," : "") + "x = 3 }, { s = 'q'" + (p == 2 ? "," + z : "") + " }] }\nb = 4\n"; std::istringstream ss(t); Big w, v; LIB(ParseTOML(w, ss)); v.b = 4; v.mid.a = 9; In i; i.x = 3; v.mid.l.push_back(i); i.x = 0; i.s = "q"; v.mid.l.push_back(i); same(v, w, t); c.outcome(t); }); }
MC_CONFIG("typed structures: texts of values") { warmtyped(); mc::enumerate(c, [&](mc::Choose& ch) { static const char* SP[] = { "", " ", "\t " }; S a = ch.of(SP), b = ch.of(SP), t; bool nl = ch(2); Big v; 
    switch(ch(11)) { case 0: t = "a" + a + "=" + b + "-12" + a; v.a = -12; break; case 1: t = "d =" + b + "2.5e2" + a; v.d = 250; break; case 2: t = "t =" + b + "true" + a; v.t = true; break; case 3: t = "fx =" + b + "[" + a + "1" + b + "," + a + "2" + a + "]" + b; v.fx[0] = 1; v.fx[1] = 2; break; case 4: t = "fx = [" + a + "\"1\"" + b + "," + a + "\"2\"," + b + "3]"; v.fx[0] = 1; v.fx[1] = 2; v.fx[2] = 3; break; case 5: t = "by =" + b + "\"12\"" + a; v.by = 12; break; case 6: t = "\"a\"" + a + "=" + b + "1"; v.a = 1; break; case 7: t = "s =" + b + "bare word" + a; v.s = "bare word"; break; case 8: t = "s =" + b + "caf\xC3\xA9" + a; v.s = "caf\xC3\xA9"; break; case 9: t = "tu =" + b + "[1" + a + ",\"x\"" + b + ", 0.5, 9]"; v.tu = std::make_tuple((short)1, Str("x"), 0.5); break; case 10: t = "ab = [" + a + "true" + b + ", 0, 1]" + a; v.ab = { { true, false } }; break; }
    t += nl ? "\nb = 3" : ""; if(nl) v.b = 3; std::istringstream ss(t); Big w; LIB(ParseTOML(w, ss)); same(v, w, t); c.outcome(t); }); }
// robustness
static void feed(const S& t) { parse(t); std::istringstream ss(t); Big w; LIB(ParseTOML(w, ss)); }
MC_CONFIG("texts: bytes") { warmtyped(); static const char tk[] = { '[', ']', '{', '}', '=', ',', '.', '"', '\'', '\\', '#', 'a', '1', '-', 't', ' ', '\n', '\r', '\0', '\xFF' }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(5, 6)); S t; for(int i = 0; i < n; ++i) t += ch.of(tk); feed(t); c.outcome(n); }); }
MC_CONFIG("texts: token sequences") { warmtyped(); static const char* tk[] = { "[", "]", "[[", "]]", "di", "in", "fx", "tu", "x", ".", " = ", "{", "}", ",", "1", "\"\"\"", "'''", "\"", "\n", "-", "2006-01-02", "T", "\\", "vv", "tp" }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(5, 6)); S t; for(int i = 0; i < n; ++i) t += ch.of(tk); feed(t); feed("vv = [" + t); feed("in = {" + t); feed("[" + t); c.outcome(n); }); }
MC_CONFIG("texts: every prefix and every deletion of a document") { warmtyped(); S d; for(auto* l : DOC) d += l; for(auto& x : scalars()) d += S("zz = ") + x.t + "\n"; d += "h = { \"a\" = 1 }\ntp = 2006-01-02T15:04:05-07:00\ntu = [1, \"a\", 2.0]\n"; mc::enumerate(c, [&](mc::Choose& ch) { size_t n = (size_t)ch((int)d.size() + 1); int k = ch(4); S t = d; if(k == 0) t = d.substr(0, n); else if(n < d.size()) t.erase(n, (size_t)k); feed(t); c.outcome((int)n); }); }
// Sizes: long strings, keys, arrays, inline tables, table arrays, many keys, deep nesting.
MC_CONFIG("documents: sizes") { warmtyped();
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const int NS[] = { 15, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097 }; int n = ch.of(NS); S t; V w = V::tab(); V one = V::num(1);
    switch(ch(9)) {
    case 0: { static const char* Q[] = { "\"", "'", "\"\"\"", "'''" }; S q = ch.of(Q), s(n, 'x'); static const char* SP[] = { "", "#", "]", "=", "\xC3\xA9", "," }; s.insert(ch(2) ? n / 2 : n, ch.of(SP)); t = "k = " + q + s + q + "\nz = 1\n"; w.t = { { "k", V::str(s) }, { "z", one } }; break; }
    case 1: { S k(n, 'k'); bool qq = ch(2); t = (qq ? "\"" + k + " .\"" : k) + " = 1\n[" + k + "t]\na = 1\n"; w.t = { { qq ? k + " ." : k, one }, { k + "t", V::tab({ { "a", one } }) } }; break; }
    case 2: { bool nl = ch(2); V a = V::arr(); t = "k = ["; for(int i = 0; i < n; ++i) { t += (i ? "," : "") + S(nl ? "\n" : " ") + std::to_string(i * 7919); a.a.push_back(V::num(i * 7919)); } t += "]\nz = 1"; w.t = { { "k", a }, { "z", one } }; break; }
    case 3: { if(n > 300) return; V a = V::tab(); t = "k = {"; for(int i = 0; i < n; ++i) { t += (i ? ", n" : "n") + std::to_string(i) + " = \"v" + std::to_string(i) + "\""; a.t["n" + std::to_string(i)] = V::str("v" + std::to_string(i)); } t += "}\nz = 1"; w.t = { { "k", a }, { "z", one } }; break; }
    case 4: { if(n > 300) return; V a = V::arr(); for(int i = 0; i < n; ++i) { t += "[[k]]\n"; V e = V::tab(); if(i % 3) { t += "x = " + std::to_string(i) + "\n"; e.t["x"] = V::num(i); } if(i % 4 == 0) { t += "[k.s]\ny = 1\n"; e.t["s"] = V::tab({ { "y", one } }); } a.a.push_back(e); } w.t = { { "k", a } }; break; }
    case 5: { for(int i = 0; i < n; ++i) { S k = "key" + std::to_string(i); t += k + " = " + std::to_string(i) + (i % 5 ? "\n" : " # c\n\n"); w.t[k] = V::num(i); } break; }
    case 6: { if(n > 65) return; V v = one; S a = "1"; for(int i = 0; i < n; ++i) { if(i % 2) { a = "{ n = " + a + " }"; v = V::tab({ { "n", v } }); } else { a = "[" + a + "]"; v = V::arr({ v }); } } t = "k = " + a + "\nz = 1"; w.t = { { "k", v }, { "z", one } }; break; }
    case 7: { if(n > 65) return; V v = V::tab({ { "x", one } }); S p; for(int i = n; i-- > 0;) { S k = "t" + std::to_string(i); v = V::tab({ { k, v } }); p = k + (p.empty() ? "" : "." + p); } t = "[" + p + "]\nx = 1\n"; w = v; break; }
    default: { Big v; int m = std::min(n, 300); for(int i = 0; i < m; ++i) { v.da.Add((int16_t)(i * 3)); v.vd.push_back(i / 8.0); v.ds.push_back(Str(std::to_string(i))); Mid d; d.a = (uint16_t)i; if(i % 3 == 0) { In x; x.x = i; d.l.push_back(x); } v.di.Add(d); v.h.Insert(Str("h" + std::to_string(i)), (int64_t)i); } v.s = S(n, '\\'); v.u = S(n, '\n'); std::stringstream os; LIB(WriteTOML(v, os)); S q = os.str(); Big r; LIB(ParseTOML(r, os)); same(v, r, q.substr(0, 200)); return; }
    }
    reads(t, w);
  });
}
