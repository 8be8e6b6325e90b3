// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c,XML.cpp
// XML: edit histories of a node tree, written and parsed documents, typed structures, every short text.
#include "mc.h"
#include <fstream>
#include <cmath>
#include "bss-util/XML.h"
using namespace bss;
typedef std::string S;
static S esc(const S& s) { S r; char b[8]; for(char c : s) { if((unsigned char)c >= 32 && (unsigned char)c < 127) r += c; else { snprintf(b, 8, "<%02x>", (unsigned char)c); r += b; } } return r; }
struct X {
  S name, text; std::vector<std::pair<S, S>> at; std::vector<X> kid;
  bool operator==(const X& r) const { return name == r.name && text == r.text && at == r.at && kid == r.kid; }
  S show() const { S r = name + "("; for(auto& a : at) r += a.first + "=" + esc(a.second) + " "; r += ")"; if(!text.empty()) r += "'" + esc(text) + "'"; if(!kid.empty()) { r += "["; for(auto& k : kid) r += k.show() + ","; r += "]"; } return r; }
  void set(const S& n, const S& v) { for(auto& a : at) if(a.first == n) { a.second = v; return; } at.push_back({ n, v }); }
};
static X from(const XMLNode& n) { X r; r.name = n.GetName(); r.text = n.GetValue().String; for(size_t i = 0; i < n.GetAttributes(); ++i) r.at.push_back({ n.GetAttribute(i)->Name, n.GetAttribute(i)->String }); for(size_t i = 0; i < n.GetNodes(); ++i) r.kid.push_back(from(*n.GetNode(i))); return r; }
static void access(const XMLNode& n, const X& m) {
  MC_CHECK(from(n) == m, "the tree is %s, expected %s", from(n).show().c_str(), m.show().c_str());
  for(const char* nm : { "a", "b", "c" }) {
    std::vector<size_t> at, kd; for(size_t i = 0; i < m.at.size(); ++i) if(m.at[i].first == nm) at.push_back(i); for(size_t i = m.kid.size(); i-- > 0; ) if(m.kid[i].name == nm) kd.push_back(i);
    const XMLValue* v = n.GetAttribute(nm); MC_CHECK(v == (at.empty() ? 0 : n.GetAttribute(at[0])) && v == n(nm), "GetAttribute(%s) does not find the attribute of that name", nm); MC_CHECK(at.empty() ? !n.GetAttributeString(nm) : m.at[at[0]].second == n.GetAttributeString(nm), "GetAttributeString(%s)", nm);
    const XMLNode* p = n.GetNode(nm); MC_CHECK(p == (kd.empty() ? 0 : n.GetNode(kd[0])) && p == n[nm], "GetNode(%s) does not find the node added last under that name", nm);
    const XMLNode* prev = 0; for(size_t i : kd) { MC_CHECK(p == n.GetNode(i) && p->prev == prev, "the chain of nodes called %s is broken", nm); prev = p; p = p->next; } MC_CHECK(!p, "the chain of nodes called %s does not end", nm);
  }
  MC_CHECK(!n.GetNode(m.kid.size()) && !n.GetAttribute(m.at.size()), "access past the end"); MC_CHECK((size_t)(n.end() - n.begin()) == m.kid.size(), "iteration"); for(size_t i = 0; i < m.kid.size(); ++i) access(*n.GetNode(i), m.kid[i]);
}
static X norm(X x) { bool ws = true; for(char c : x.text) if(!(c > 0 && c < 33)) ws = false; if(ws) x.text.clear(); for(auto& k : x.kid) k = norm(k); return x; } // text of nothing but whitespace is not kept
static X squash(X x) { S t; for(char c : x.text) if(!(c > 0 && c < 33)) t += c; x.text = t; for(auto& k : x.kid) k = squash(k); return x; } // pretty printing adds whitespace to text
static void build(XMLNode& n, const X& m) { for(auto& a : m.at) n.AddAttribute(a.first.c_str())->String = a.second; if(!m.text.empty()) n.SetValue(m.text.c_str()); for(auto& k : m.kid) build(*n.AddNode(k.name.c_str()), k); }
static X readfile(const S& t) { std::istringstream ss(t); XMLFile f(ss); return from(f); }
static void roundtrip(const X& m) {
  XMLFile f; X root; root.name = "xml"; root.at = { { "v", "1" } }; root.kid = { m }; build(f, root); access(f, root);
  for(int pretty = 0; pretty < 2; ++pretty) { std::ostringstream os; LIB(f.Write(os, (bool)pretty)); X got = readfile(os.str()); got.text.clear(); X a = pretty ? squash(got) : norm(got), b = pretty ? squash(root) : norm(root); MC_CHECK(a == b, "%s is written as %s and read as %s", root.show().c_str(), esc(os.str()).c_str(), got.show().c_str()); }
}
static const char* TXT[] = { "", "t", "<", ">", "&", "\"", "'", "&lt;", "a b", " x", "x ", "&#65;", "\xC3\xA9", "]]>", "-->", "/", "=", "</a>", "a\nb" };
MC_CONFIG("documents: every text in every place") { mc::enumerate(c, [&](mc::Choose& ch) { X m; m.name = "a"; S t = ch.of(TXT), u = ch.of(TXT); switch(ch(6)) { case 0: m.text = t + u; break; case 1: m.at = { { "k", t + u } }; break; case 2: m.at = { { "k", t }, { "l", u } }; break; case 3: m.text = t; m.at = { { "k", u } }; break; case 4: { X k; k.name = "b"; k.text = t; m.kid = { k }; m.text = u; } break; case 5: { X k; k.name = "a"; k.at = { { "k", t } }; X l; l.name = "a"; l.at = { { "k", u } }; k.kid = { l }; m.kid = { k, l }; } break; } roundtrip(m); c.outcome(m.show()); }); }
static X tree(mc::Choose& ch, int& left, int depth) { X m; m.name = ch(2) ? "b" : "a"; static const char* T[] = { "", "t&", "1 2" }; m.text = ch.of(T); if(ch(2)) m.at.push_back({ "k", "<v>" }); while(depth > 0 && left > 0 && ch(2)) { --left; m.kid.push_back(tree(ch, left, depth - 1)); } return m; }
MC_CONFIG("documents: all small trees") { mc::enumerate(c, [&](mc::Choose& ch) { int left = c.pick(2, 3); X m = tree(ch, left, 3); roundtrip(m); c.outcome(m.show()); }); }
// reference reader for texts made of whole tokens
static bool ref(const std::vector<S>& tok, X& root) { std::vector<X> st(1); st[0].name = "xml"; auto text = [&](const S& s) { st.back().text += s; };
  for(auto& t : tok) { if(t == "<a>" || t == "< a >" || t == "<a k=\"1\">" || t == "<b\tk = \"x &lt; y\"  l=\"\">") { X x; x.name = t[1] == 'b' ? "b" : "a"; if(t == "<a k=\"1\">") x.at = { { "k", "1" } }; if(x.name == "b") x.at = { { "k", "x < y" }, { "l", "" } }; st.push_back(x); }
    else if(t == "</a>" || t == "</a >" || t == "</b>") { if(st.size() < 2 || st.back().name[0] != t[2]) return false; X x = st.back(); st.pop_back(); st.back().kid.push_back(x); }
    else if(t == "<b/>") { X x; x.name = "b"; st.back().kid.push_back(x); } else if(t == "<a l=\"q\" />") { X x; x.name = "a"; x.at = { { "l", "q" } }; st.back().kid.push_back(x); }
    else if(t[0] == '<' && t[1] == '!') {} else if(t == "&lt;") text("<"); else if(t == "&amp;") text("&"); else if(t == "&#65;") text("A"); else if(t == "&#xe9;") text("\xC3\xA9"); else text(t); }
  if(st.size() != 1) return false; root = st[0]; return true; }
template<size_t N> static void texts(mc::Ctx& c, const char* const (&tk)[N], int len) { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(len + 1); std::vector<S> tok; S t; for(int i = 0; i < n; ++i) { tok.push_back(ch.of(tk)); t += tok.back(); } X got = readfile(t), want; if(ref(tok, want)) { got.text = want.text = ""; MC_CHECK(got == want, "%s is read as %s, expected %s", esc(t).c_str(), got.show().c_str(), want.show().c_str()); c.outcome(want.show()); } }); }
MC_CONFIG("texts: all short token sequences") { static const char* const tk[] = { "<a>", "</a>", "<a k=\"1\">", "<b/>", "t", " ", "&amp;", "<!--c-->", "</b>" }; texts(c, tk, c.pick(5, 7)); }
MC_CONFIG("texts: attributes, entities, comments") { static const char* const tk[] = { "<b\tk = \"x &lt; y\"  l=\"\">", "</b>", "< a >", "</a >", "<a l=\"q\" />", "&lt;", "&#65;", "&#xe9;", "<!-- - <x> -->", "<!-- a-b -> </c> - > -->", "<!---->", "\n" }; texts(c, tk, c.pick(5, 6)); }
MC_CONFIG("texts: bytes") { static const char tk[] = { '<', '>', '/', '!', '-', '?', 'a', '=', '"', '&', ';', '#', 'x', ' ', '\xFF' }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(6, 7)); S t; for(int i = 0; i < n; ++i) t += ch.of(tk); X x = readfile(t); std::istringstream ss(t); XMLNode nd(ss); x = from(nd); c.outcome(x.kid.size()); }); }
MC_CONFIG("texts: every prefix of a document") { S d = "<?xml v=\"1\"?><!-- c --><a k=\"1\" l = \"&quot;\" m>x&lt;<b/>y<!-- d --><c><a>&#xe9;</a ></c></a> <b z='1' />"; mc::enumerate(c, [&](mc::Choose& ch) { int n = ch((int)d.size() + 1), del = ch((int)d.size()); S t = d.substr(0, n); readfile(t); t = d; t.erase(del, 1 + n % 3); X x = readfile(t); c.outcome(x.show()); }); }
// whitespace of every kind between the parts of tags
MC_CONFIG("texts: every kind of whitespace in every pair of gaps") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    // gaps: '~' may be empty, '_' may not
    static const char* doc[] = { "<?xml_v=\"1\"~?>~<a_k~=~\"1\"_l~=~\"x y\"~>t<b~/>~</a~>~<c_m~=~\"2\"~/>~", "<a~>~<b_k~=~\"1\"~>t</b~>~<c_l~=~\"2\"_m=\"3\"~/>~<b~></b~>~</a~>~" }; int w = ch(2); S d = doc[w], t; static const char* WS[] = { "", " ", "\t", "\n", "\r", "\r\n", "\t\r\n ", "  " }; static const char* B[] = { "", " ", "\r\n" };
    int n = 0; for(char x : d) n += x == '~' || x == '_'; int g = ch(n + 1), h = g < n ? g + ch(n - g) : n; S u = ch.of(WS), v = g == h ? u : S(ch.of(WS)), base = ch.of(B); int i = 0; for(char x : d) { if(x != '~' && x != '_') { t += x; continue; } S f = g == n || i == g ? u : i == h ? v : base; if(x == '_' && f.empty()) f = " "; t += f; ++i; }
    X want; want.name = "xml"; X a, b, e, f; a.name = "a"; b.name = "b"; e.name = "c"; if(w == 0) { want.at = { { "v", "1" } }; a.at = { { "k", "1" }, { "l", "x y" } }; a.text = "t"; a.kid = { b }; e.at = { { "m", "2" } }; want.kid = { a, e }; } else { f = b; b.at = { { "k", "1" } }; b.text = "t"; e.at = { { "l", "2" }, { "m", "3" } }; a.kid = { b, e, f }; want.kid = { a }; }
    X got = squash(readfile(t)); got.text = ""; MC_CHECK(got == want, "%s is read as %s, expected %s", esc(t).c_str(), got.show().c_str(), want.show().c_str()); c.outcome(t.size()); }); }
MC_CONFIG("texts: declaration") { mc::enumerate(c, [&](mc::Choose& ch) { static const char* ws[] = { "", " ", "\n" }; S t = S("<?xml version=\"1.0\" encoding=\"UTF-8\"") + ch.of(ws) + "?>" + ch.of(ws) + (ch(2) ? "<!-- x -->" : "") + ch.of(ws) + "<r/>" + ch.of(ws); X w; w.name = "xml"; w.at = { { "version", "1.0" }, { "encoding", "UTF-8" } }; X k; k.name = "r"; w.kid = { k }; X g = readfile(t); g.text = ""; MC_CHECK(g == w, "%s is read as %s", esc(t).c_str(), g.show().c_str()); c.outcome(t); }); }
// numbers
MC_CONFIG("values: numbers") { struct N { const char* s; int64_t i; double f; }; static const N ns[] = { { "", 0, 0 }, { "0", 0, 0 }, { "12", 12, 12 }, { "-12", -12, -12 }, { "9223372036854775807", INT64_MAX, 9223372036854775807.0 }, { "-9223372036854775808", INT64_MIN, -9223372036854775808.0 }, { "18446744073709551615", -1, 18446744073709551615.0 }, { "0x1F", 31, 31 }, { "0xFFFFFFFFFFFFFFFF", -1, 18446744073709551615.0 }, { "1.5", 1, 1.5 }, { "-2.25", -2, -2.25 }, { "1e-6", 1, 1e-6 }, { "x", 0, 0 }, { "0b0", 0, 0 }, { "0b101", 5, 0 }, { "0b1111111111111111111111111111111111111111111111111111111111111111", -1, 0 } };
  mc::enumerate(c, [&](mc::Choose& ch) { const N& n = ch.of(ns); int w = ch(3); XMLNode d; if(w == 0) d.SetValue(n.s); else { S t = w == 1 ? S("<a>") + n.s + "</a>" : S("<a k=\"") + n.s + "\"/>"; d = XMLNode(t.c_str()); } const XMLValue* v = w == 2 ? d.GetAttribute("k") : &d.GetValue(); MC_CHECK(v && v->Integer == n.i && v->Float == n.f && v->String == n.s, "%s is evaluated as %lld and %g", n.s, v ? (long long)v->Integer : 0, v ? v->Float : 0); MC_CHECK((int64_t)*v == n.i && (double)*v == n.f, "conversions"); if(w == 2) MC_CHECK(d.GetAttributeInt("k") == n.i && d.GetAttributeFloat("k") == n.f, "GetAttributeInt/Float"); XMLNode e; e.SetValue(n.i); MC_CHECK(e.GetValue().Integer == n.i && e.GetValue().String == std::to_string(n.i), "SetValue(int)"); MC_CHECK(e.GetValue().Float == (double)n.i, "SetValue(%lld) gives the number %g", (long long)n.i, e.GetValue().Float); e.SetValue(n.f); if(std::fabs(n.f) < 1e18) MC_CHECK(e.GetValue().Integer == (int64_t)n.f, "SetValue(%g) gives the integer %lld", n.f, (long long)e.GetValue().Integer); MC_CHECK(e.GetValue().Float == n.f && strtod(e.GetValue().String.c_str(), 0) == n.f, "SetValue(%g) gives the text %s", n.f, e.GetValue().String.c_str()); c.outcome(n.i); }); }
// edit histories
struct XSys : mc::SysBase<XSys> {
  XMLNode *a, *b; X ma, mb; static int MX;
  XSys() { a = LIB(new XMLNode()); b = LIB(new XMLNode()); b->SetName("n"); mb.name = "n"; }
  ~XSys() { delete a; delete b; }
  static size_t total(const X& x) { size_t n = 1 + x.at.size(); for(auto& k : x.kid) n += total(k); return n; }
  static void build() {
    for(const char* nm : { "a", "b" }) { S n = nm;
      op("AddNode " + n, [n](XSys& s) { XMLNode* r = LIB(s.a->AddNode(n.c_str())); X x; x.name = n; s.ma.kid.push_back(x); MC_CHECK(r == s.a->GetNode(s.ma.kid.size() - 1), "AddNode returns another node"); }, [](const XSys& s) { return (int)s.ma.kid.size() < MX; });
      op("AddAttribute " + n, [n](XSys& s) { S v = std::to_string(s.ma.at.size()); XMLValue* r = LIB(s.a->AddAttribute(n.c_str())); MC_CHECK(r && r->String.empty(), "AddAttribute returns a used value"); r->String = v; s.ma.set(n, v); }, [](const XSys& s) { return s.ma.at.size() < 3; });
      op("RemoveNode " + n, [n](XSys& s) { int at = -1; for(size_t i = 0; i < s.ma.kid.size(); ++i) if(s.ma.kid[i].name == n) at = (int)i; bool r = LIB(s.a->RemoveNode(n.c_str())); MC_CHECK(r == (at >= 0), "RemoveNode returns %d", r); if(at >= 0) s.ma.kid.erase(s.ma.kid.begin() + at); });
      op("RemoveAttribute " + n, [n](XSys& s) { int at = -1; for(size_t i = 0; i < s.ma.at.size(); ++i) if(s.ma.at[i].first == n) at = (int)i; bool r = LIB(s.a->RemoveAttribute(n.c_str())); MC_CHECK(r == (at >= 0), "RemoveAttribute returns %d", r); if(at >= 0) s.ma.at.erase(s.ma.at.begin() + at); });
    }
    for(size_t i = 0; i < 4; ++i) op(mc::fmt("RemoveNode at %zu", i), [i](XSys& s) { bool r = LIB(s.a->RemoveNode(i)); MC_CHECK(r == (i < s.ma.kid.size()), "RemoveNode returns %d", r); if(r) s.ma.kid.erase(s.ma.kid.begin() + i); });
    for(size_t i = 0; i < 3; ++i) op(mc::fmt("RemoveAttribute at %zu", i), [i](XSys& s) { bool r = LIB(s.a->RemoveAttribute(i)); MC_CHECK(r == (i < s.ma.at.size()), "RemoveAttribute returns %d", r); if(r) s.ma.at.erase(s.ma.at.begin() + i); });
    op("AddAttribute value", [](XSys& s) { XMLValue v; v.Name = "b"; v.String = "w"; v.Integer = 3; LIB(s.a->AddAttribute(v)); s.ma.set("b", "w"); }, [](const XSys& s) { return s.ma.at.size() < 3; });
    op("AddNode copy of b", [](XSys& s) { XMLNode* r = LIB(s.a->AddNode(*s.b)); MC_CHECK(r != s.b, "AddNode returns its argument"); s.ma.kid.push_back(s.mb); }, [](const XSys& s) { return (int)s.ma.kid.size() < MX && total(s.ma) + total(s.mb) < 8; });
    op("first child gets a child", [](XSys& s) { LIB(s.a->GetNode((size_t)0)->AddNode("a")); X x; x.name = "a"; s.ma.kid[0].kid.push_back(x); }, [](const XSys& s) { return !s.ma.kid.empty() && s.ma.kid[0].kid.size() < 2; });
    op("SetValue", [](XSys& s) { LIB(s.a->SetValue("7")); s.ma.text = "7"; });
    op("Clear", [](XSys& s) { LIB(s.a->Clear()); s.ma.kid.clear(); s.ma.at.clear(); });
    op("swap", [](XSys& s) { std::swap(s.a, s.b); std::swap(s.ma, s.mb); });
    op("a = b", [](XSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
    op("a = a", [](XSys& s) { XMLNode& r = *s.a; LIB(*s.a = r); });
    op("b = copy of a", [](XSys& s) { XMLNode* n = LIB(new XMLNode(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
    op("a = move(b)", [](XSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; delete s.b; s.b = new XMLNode(); s.mb = X(); });
    op("b = XMLNode(move(a))", [](XSys& s) { XMLNode* n = LIB(new XMLNode(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; delete s.a; s.a = new XMLNode(); s.ma = X(); });
  }
  void check() { access(*a, ma); access(*b, mb); }
  static void k1(mc::Key& k, const X& x) { k.str(x.name); k.str(x.text); k.word(x.at.size()); for(auto& a : x.at) { k.str(a.first); k.str(a.second); } k.word(x.kid.size()); for(auto& y : x.kid) k1(k, y); }
  void key(mc::Key& k) { k1(k, ma); k1(k, mb); }
};
int XSys::MX = 3;
MC_CONFIG("edit histories") { XSys::MX = c.pick(3, 4); XSys::build(); mc::BfsOpt o; o.depth = c.pick(6, 9); o.maxstates = c.pick(60000, 1500000); mc::bfs<XSys>(c, o); }
// typed structures
struct In { int32_t x = 0; Str s; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<In>(GenPair("x", x), GenPair("s", s)); } bool operator==(const In& r) const { return x == r.x && s == r.s; } };
struct Mid { uint16_t a = 0; std::vector<In> l; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Mid>(GenPair("a", a), GenPair("l", l)); } bool operator==(const Mid& r) const { return a == r.a && l == r.l; } };
struct Big { int64_t a = 0; uint16_t b = 0; double d = 0; float f = 0; bool t = false; Str s; std::string u; In in; Mid mid; DynArray<int16_t> da; std::vector<double> vd; std::vector<Str> ds; DynArray<Mid, size_t, ARRAY_SAFE> di; int fx[3] = { 0, 0, 0 }; std::array<bool, 2> ab{ { false, false } }; std::tuple<short, Str, double> tu{ 0, "", 0 }; uint64_t q = 0; int8_t by = 0;
  template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Big>(GenPair("a", a), GenPair("b", b), GenPair("d", d), GenPair("f", f), GenPair("t", t), GenPair("s", s), GenPair("u", u), GenPair("in", in), GenPair("mid", mid), GenPair("da", da), GenPair("vd", vd), GenPair("ds", ds), GenPair("di", di), GenPair("fx", fx), GenPair("ab", ab), GenPair("tu", tu), GenPair("q", q), GenPair("by", by)); } };
static void same(const Big& x, const Big& y, const S& t) {
#define SAME(m) MC_CHECK(x.m == y.m, "member " #m " does not survive: %s", esc(t).c_str())
  SAME(a); SAME(b); SAME(d); SAME(f); SAME(t); SAME(s); SAME(u); SAME(in); SAME(mid); SAME(vd); SAME(ds); SAME(ab); SAME(tu); SAME(q); SAME(by); SAME(da.Length()); for(size_t i = 0; i < x.da.Length(); ++i) SAME(da[i]); SAME(di.Length()); for(size_t i = 0; i < x.di.Length(); ++i) SAME(di[i]); for(int i = 0; i < 3; ++i) SAME(fx[i]);
}
static const char* STRS[] = { "", "a", "q\"&<>", "\xC3\xA9/'" };
static void warm() { Big v; v.di.Add(Mid()); v.mid.l.push_back(In()); Serializer<XMLEngine> e; std::stringstream os; e.Serialize(v, os, "big"); e.Parse(v, os, "big"); } // the name tables are built once
MC_CONFIG("typed structures: round trip") { warm(); mc::enumerate(c, [&](mc::Choose& ch) {
    Big v; switch(ch(6)) {
    case 0: { static const int64_t A[] = { 0, -5, INT64_MIN, INT64_MAX }; v.a = ch.of(A); static const uint16_t B[] = { 0, 9, 65535 }; v.b = ch.of(B); v.t = ch(2); static const uint64_t Q[] = { 0, 1, UINT64_MAX }; v.q = ch.of(Q); v.by = (int8_t)(ch(3) * 64 - 1); } break;
    case 1: { static const double D[] = { 0, -1.5, 0.1, 1e300, 1.0 / 3, 5e-324, 123456789 }; v.d = ch.of(D); static const float F[] = { 0, 0.1f, -3e38f, 1e-40f, 16777215 }; v.f = ch.of(F); } break;
    case 2: v.s = ch.of(STRS); v.u = ch.of(STRS); v.in.s = ch.of(STRS); v.in.x = -ch(2); break;
    case 3: for(int n = ch(4); n > 0; --n) v.da.Add((int16_t)(ch(3) * -300)); for(int n = ch(3); n > 0; --n) v.vd.push_back(ch(2) ? 1e20 : 0.1); break;
    case 4: for(int n = ch(3); n > 0; --n) v.ds.push_back(Str(ch.of(STRS))); for(int n = ch(3); n > 0; --n) { Mid i; i.a = (uint16_t)ch(2); for(int k = ch(3); k > 0; --k) { In z; z.x = ch(2); z.s = k == 1 ? ch.of(STRS) : ""; i.l.push_back(z); } v.di.Add(i); v.mid = i; } break;
    case 5: for(int i = 0; i < 3; ++i) v.fx[i] = ch(3) - 1; v.ab = { { (bool)ch(2), (bool)ch(2) } }; v.tu = std::make_tuple((short)-ch(2), Str(ch.of(STRS)), ch(2) ? 0.1 : -2.0); break;
    }
    for(int pretty = 0; pretty < 2; ++pretty) { Serializer<XMLEngine> e; e.engine.pretty = pretty; std::stringstream os; LIB(e.Serialize(v, os, "big")); S t = os.str(); Big w; Serializer<XMLEngine> e2; LIB(e2.Parse(w, os, "big")); same(v, w, t); std::stringstream is(t); Big z; LIB(e.Parse(z, is, "big")); same(v, z, t); c.outcome(t); } }); }
// Sizes: long texts, attributes and names, many attributes, many nodes, deep nesting.
MC_CONFIG("documents: sizes") {
  static const int NS[] = { 15, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 4097 }; static const char* SP[] = { "<", "&", "\"", "\xC3\xA9", "'", ">" };
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch.of(NS); X m; m.name = "a";
    switch(ch(5)) {
    case 0: { S s(n, 'x'); int at = ch(4); s.insert(at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n, ch.of(SP)); if(ch(2)) m.text = s; else m.at = { { "k", s }, { "l", s } }; break; }
    case 1: { m.name = S(n, 'n'); m.at = { { S(n, 'k'), "v" } }; X x; x.name = S(n, 'm'); m.kid = { x, x }; break; }
    case 2: if(n > 130) break; for(int i = 0; i < n; ++i) m.at.push_back({ "k" + std::to_string(i), std::to_string(i * 7) }); break;
    case 3: if(n > 300) break; for(int i = 0; i < n; ++i) { X x; x.name = i % 3 ? "b" : "c" + std::to_string(i); if(i % 4) x.text = std::to_string(i); m.kid.push_back(x); } break;
    default: if(n > 130) break; for(int i = 0; i < n; ++i) { X x; x.name = i % 2 ? "p" : "q"; x.kid = { m }; if(i % 5 == 0) x.at = { { "d", "1" } }; m = x; }
    }
    roundtrip(m);
  });
}
