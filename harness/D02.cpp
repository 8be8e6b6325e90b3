// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// Strings: UTF-8/UTF-32 conversion, Str helpers, StringTable.
#include "mc.h"
#include "bss-util/Str.h"
#include "bss-util/StringTable.h"
#include <sstream>
using namespace bss;
typedef std::vector<uint32_t> CP; typedef std::string S;
static S enc(const CP& c) { S r; for(uint32_t x : c) { if(x < 0x80) r += (char)x; else if(x < 0x800) { r += (char)(0xC0 | x >> 6); r += (char)(0x80 | (x & 63)); } else if(x < 0x10000) { r += (char)(0xE0 | x >> 12); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); } else { r += (char)(0xF0 | x >> 18); r += (char)(0x80 | (x >> 12 & 63)); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); } } return r; }
// strict decoder: code points up to the first ill-formed or incomplete sequence
static CP dec(const S& s) { CP r; size_t i = 0; while(i < s.size()) { uint8_t b = (uint8_t)s[i]; int n = b < 0x80 ? 0 : b >= 0xC2 && b <= 0xDF ? 1 : b >= 0xE0 && b <= 0xEF ? 2 : b >= 0xF0 && b <= 0xF4 ? 3 : -1; if(n < 0 || i + n >= s.size()) return r; uint32_t v = n == 0 ? b : b & (0x3F >> n); for(int k = 1; k <= n; ++k) { uint8_t x = (uint8_t)s[i + k]; if((x & 0xC0) != 0x80) return r; v = v << 6 | (x & 63); } if((n == 2 && (v < 0x800 || (v >= 0xD800 && v <= 0xDFFF))) || (n == 3 && (v < 0x10000 || v > 0x10FFFF))) return r; r.push_back(v); i += n + 1; } return r; }
static S show(const S& s) { S r; for(char c : s) r += mc::fmt("%02x ", (uint8_t)c); return r; }
template<class T> struct Exact { T* p; size_t n; Exact(const T* s, size_t k, bool term) : n(k + term) { p = (T*)malloc(n * sizeof(T) + (n == 0)); if(k) memcpy(p, s, k * sizeof(T)); if(term) p[k] = 0; } ~Exact() { free(p); } }; // heap block of exactly that size: reading past it is detected
static void to8(const CP& cp, bool term, size_t cut) {
  std::vector<char32_t> v(cp.begin(), cp.end()); Exact<char32_t> in(v.data(), v.size(), term); ptrdiff_t len = term ? -1 : (ptrdiff_t)v.size(); S w = enc(cp); if(term) w += '\0';
  size_t need = UTF32toUTF8(in.p, len, 0, 0); if(term || v.size()) MC_CHECK(need >= w.size(), "UTF32toUTF8 asks for %zu bytes, %zu are needed", need, w.size());
  size_t cap = cut == ~(size_t)0 ? need : cut; char* out = (char*)malloc(cap + (cap == 0)); size_t r = UTF32toUTF8(in.p, len, out, cap);
  S got(out, r <= cap ? r : 0); free(out); MC_CHECK(r <= cap, "UTF32toUTF8 reports %zu bytes in a buffer of %zu", r, cap);
  if(cap >= w.size()) MC_CHECK(got == w, "%zu code points become %s, expected %s", cp.size(), show(got).c_str(), show(w).c_str());
  else { MC_CHECK(w.compare(0, got.size(), got) == 0, "a truncated conversion is not a prefix"); CP d = dec(got); MC_CHECK(enc(d) == got, "a truncated conversion ends inside a character"); MC_CHECK(got.size() + 4 > cap, "a truncated conversion leaves room unused"); }
}
static void to32(const S& s, bool term, size_t cut) {
  Exact<char> in(s.data(), s.size(), term); ptrdiff_t len = term ? -1 : (ptrdiff_t)s.size(); S full(s); if(term) full += '\0'; CP w = dec(full);
  size_t need = UTF8toUTF32(in.p, len, 0, 0); if(term || s.size()) MC_CHECK(need >= w.size(), "UTF8toUTF32 asks for %zu units, %zu are needed", need, w.size());
  size_t cap = cut == ~(size_t)0 ? need : cut; char32_t* out = (char32_t*)malloc(cap * 4 + (cap == 0)); size_t r = UTF8toUTF32(in.p, len, out, cap); CP got(out, out + (r <= cap ? r : 0)); free(out); MC_CHECK(r <= cap, "UTF8toUTF32 reports %zu units in a buffer of %zu", r, cap);
  if(w.size() > cap) w.resize(cap); MC_CHECK(got == w, "%s decodes to %zu code points, expected %zu (or different ones)", show(s).c_str(), got.size(), w.size());
}
MC_CONFIG("UTF: every code point") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int hi = ch(0x1100); for(int lo = 0; lo < 256; ++lo) { uint32_t x = hi * 256 + lo; if(!x || (x >= 0xD800 && x <= 0xDFFF)) continue; to8({ x }, true, ~(size_t)0); to32(enc({ x }), true, ~(size_t)0); } c.outcome(hi); }); }
static const uint32_t EDGE[] = { 1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF };
MC_CONFIG("UTF-32 to UTF-8: all sequences of boundary code points, all buffer sizes") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(4, 5)); CP p; for(int i = 0; i < n; ++i) p.push_back(ch.of(EDGE)); for(bool t : { false, true }) { to8(p, t, ~(size_t)0); for(size_t k = 0; k <= enc(p).size() + 1; ++k) to8(p, t, k); } c.outcome(enc(p)); }); }
MC_CONFIG("UTF-32 to UTF-8: out of range") { mc::enumerate(c, [&](mc::Choose& ch) { static const uint32_t bad[] = { 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF }; uint32_t b = ch.of(bad); char32_t in[3] = { U'a', (char32_t)b, U'b' }; char out[16]; size_t n = UTF32toUTF8(in, 3, out, 16); MC_CHECK(S(out, n) == "a\xEF\xBF\xBD" "b" && UTF32toUTF8(in, 3, 0, 0) >= n, "a code point out of range becomes %s", show(S(out, n)).c_str()); c.outcome(b); }); }
MC_CONFIG("UTF-8 to UTF-32: all byte strings over boundary bytes, all buffer sizes") { static const uint8_t by[] = { 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF8, 0xFC, 0xFF };
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch(c.pick(4, 5)); S s; for(int i = 0; i < n; ++i) s += (char)ch.of(by); for(bool t : { false, true }) { to32(s, t, ~(size_t)0); for(size_t k = 0; k <= s.size(); ++k) to32(s, t, k); } c.outcome(dec(s).size()); }); }
MC_CONFIG("UTF-8 to UTF-32: all 4-byte forms") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { S s; static const uint8_t lead[] = { 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC }; s += (char)ch.of(lead); s += (char)(ch(32) * 8); static const uint8_t tr[] = { 1, 0x7F, 0x80, 0xBF, 0xC0, 0xFF }; s += (char)ch.of(tr); s += (char)ch.of(tr); if(ch(2)) s += "\x80\x80"; if(s[1] == 0) return; to32(s, true, ~(size_t)0); to32(s, false, ~(size_t)0); c.outcome(dec(s).size()); }); }
// Str built from and converted to UTF-32
typedef StrT<char32_t> S32;
MC_CONFIG("Str and UTF-32 strings") { mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch(5); CP p; for(int i = 0; i < n; ++i) p.push_back(ch.of(EDGE)); if(n == 4 && p[0] != 0x41) return; S w = enc(p); std::vector<char32_t> v(p.begin(), p.end()); Exact<char32_t> in(v.data(), v.size(), false); v.push_back(0); Exact<char> in8(w.data(), w.size(), false);
    try {
      Str a(v.data()), b(in.p, (size_t)n); Str d; d = v.data(); S32 e(v.data()), f(w.c_str()), g; g = w.c_str(); Str h(e), i; i = e; S32 j(h), k(in8.p, w.size());
      for(Str* x : { &a, &b, &d, &h, &i }) MC_CHECK(*x == w && x->size() == w.size() && strlen(x->c_str()) == x->size(), "a Str made from %d UTF-32 characters is %s, expected %s", n, show(*x).c_str(), show(w).c_str());
      for(S32* x : { &e, &f, &g, &j, &k }) MC_CHECK(CP(x->begin(), x->end()) == p, "a UTF-32 string made from %s has %zu characters, expected %d", show(w).c_str(), x->size(), n);
    } catch(std::exception& x) { mc::fail("converting %s throws %s", show(w).c_str(), x.what()); }
    c.outcome(w); }); }
// Str helpers
static void words(const S& al, int len, std::vector<S>& o) { o.push_back(""); for(size_t i = 0; i < o.size(); ++i) if((int)o[i].size() < len) for(char c : al) o.push_back(o[i] + c); }
static S trim(S s) { auto ws = [](char c) { return c > 0 && c < 33; }; while(!s.empty() && ws(s.back())) s.pop_back(); while(!s.empty() && ws(s[0])) s.erase(0, 1); return s; }
MC_CONFIG("Trim, StripChar, ReplaceChar: all strings") { std::vector<S> w; words(S("a \t\xC3\x1F!"), c.pick(5, 6), w); mc::enumerate(c, [&](mc::Choose& ch) { S s = w[ch((int)w.size())]; for(int big = 0; big < 2; ++big) { if(big) s = s + S(20, 'x') + s; Str a(s.c_str()); Str t = LIB(a.Trim()); MC_CHECK(t == trim(s) && t.size() == trim(s).size(), "Trim of %s gives %s", show(s).c_str(), show(t).c_str()); MC_CHECK(a == s, "Trim changed its string");
    for(char x : { 'a', ' ', '\xC3', 'q' }) { S st, rp; for(char y : s) { if(y != x) st += y; rp += y == x ? 'Z' : y; } Str r = LIB(Str::StripChar(s.c_str(), x)); MC_CHECK(r == st && r.size() == st.size(), "StripChar gives %s", show(r).c_str()); Str q(s.c_str()); q.ReplaceChar(x, 'Z'); MC_CHECK(q == rp, "ReplaceChar gives %s", show(q).c_str()); } } c.outcome(trim(s)); }); }
MC_CONFIG("Explode, ParseTokens, chunks: all strings") { std::vector<S> w; words("ab,;", c.pick(6, 7), w); mc::enumerate(c, [&](mc::Choose& ch) {
    S s = w[ch((int)w.size())]; std::vector<S> tok, tok2, chunk(1); S cur; for(char x : s + ",") if(x == ',') { if(!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += x; for(char x : s + ",") if(x == ',' || x == ';') { if(!cur.empty()) tok2.push_back(cur); cur.clear(); } else cur += x; for(char x : s) if(x == ',') chunk.push_back(""); else chunk.back() += x;
    std::vector<Str> r = Str::Explode(',', s.c_str()); MC_CHECK(std::vector<S>(r.begin(), r.end()) == tok, "Explode of \"%s\" gives %zu parts, expected %zu", s.c_str(), r.size(), tok.size());
    std::vector<S> pt; size_t n = Str::ParseTokens<S>(s.c_str(), ",;", pt, [](const char* x) { return S(x); }); MC_CHECK(n == tok2.size() && pt == tok2, "ParseTokens of \"%s\" gives %zu tokens, expected %zu", s.c_str(), n, tok2.size());
    for(size_t i = 0; i < chunk.size() + 2; ++i) { Str k((uint16_t)i, s.c_str(), ','); MC_CHECK(k == (i < chunk.size() ? chunk[i] : S()), "chunk %zu of \"%s\" is \"%s\"", i, s.c_str(), k.c_str()); }
    S nul; for(auto& t : tok) nul += t + S(1, '\0'); nul += S(1, '\0'); r.clear(); Str::Explode(r, '\0', nul.data()); MC_CHECK(std::vector<S>(r.begin(), r.end()) == tok, "Explode at null characters"); c.outcome(tok.size() * 100 + tok2.size()); }); }
template<class T> static void wideHelpers(mc::Ctx& c) { typedef StrT<T> X; typedef std::basic_string<T> W; std::vector<S> w; words("ab,; ", c.pick(5, 6), w); auto wide = [](const S& s) { return W(s.begin(), s.end()); }; auto arr = [](const std::vector<X>& v) { return std::vector<W>(v.begin(), v.end()); }; mc::enumerate(c, [&](mc::Choose& ch) {
    S s = w[ch((int)w.size())]; W t = wide(s); t.shrink_to_fit(); Exact<T> in(t.data(), t.size(), true); std::vector<W> tok, tok2, chunk(1); W cur; for(char x : s + ",") if(x == ',') { if(!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += x; for(char x : s + ",") if(x == ',' || x == ';') { if(!cur.empty()) tok2.push_back(cur); cur.clear(); } else cur += x; for(char x : s) if(x == ',') chunk.push_back(W()); else chunk.back() += x;
    X a(in.p); MC_CHECK(a == t && a.size() == t.size(), "a wide string made from \"%s\" differs", s.c_str()); MC_CHECK(a.Trim() == wide(trim(s)), "Trim of wide \"%s\"", s.c_str());
    for(char x : { 'a', ',', 'q' }) { W st, rp; for(T y : t) { if(y != (T)x) st += y; rp += y == (T)x ? (T)'Z' : y; } X r = LIB(X::StripChar(in.p, x)); MC_CHECK(r == st && r.size() == st.size(), "StripChar of wide \"%s\"", s.c_str()); X q(in.p); q.ReplaceChar(x, 'Z'); MC_CHECK(q == rp, "ReplaceChar of wide \"%s\"", s.c_str()); }
    for(size_t i = 0; i < chunk.size() + 3; ++i) { X k = LIB(X((uint16_t)i, in.p, (T)',')); MC_CHECK(k == (i < chunk.size() ? chunk[i] : W()), "chunk %zu of wide \"%s\"", i, s.c_str()); }
    std::vector<X> r = LIB(X::Explode((T)',', in.p)); MC_CHECK(arr(r) == tok, "Explode of wide \"%s\" gives %zu parts, expected %zu", s.c_str(), r.size(), tok.size());
    const T delim[] = { (T)',', (T)';', 0 }; std::vector<W> pt; size_t n = LIB((X::template ParseTokens<W>((const T*)in.p, (const T*)delim, pt, [](const T* x) { return W(x); }))); MC_CHECK(n == tok2.size() && pt == tok2, "ParseTokens of wide \"%s\" gives %zu tokens, expected %zu", s.c_str(), n, tok2.size());
    W nul; for(auto& k : tok) nul += k + W(1, 0); nul += W(1, 0); r.clear(); X::Explode(r, (T)0, nul.data()); MC_CHECK(arr(r) == tok, "Explode of a wide string at null characters");
    X b(in.p), e = a + b, f = a + in.p, g = a + (T)'c', h = X(a) + X(b); MC_CHECK(e == t + t && f == t + t && g == t + W(1, (T)'c') && h == t + t, "concatenating wide strings"); b = in.p; b += a; b += in.p; b += (T)'c'; MC_CHECK(b == t + t + t + W(1, (T)'c'), "appending to wide strings"); c.outcome(tok.size() * 100 + tok2.size()); }); }
MC_CONFIG("string helpers: wchar_t") { wideHelpers<wchar_t>(c); }
MC_CONFIG("string helpers: char32_t") { wideHelpers<char32_t>(c); }
MC_CONFIG("concatenation and StrF") { std::vector<S> w{ "", "a", "%", "seventeen letters", S(40, 'q') }; mc::enumerate(c, [&](mc::Choose& ch) {
    S x = ch.of(w), y = ch.of(w), z = ch.of(w); int k = ch(3), num = k == 0 ? 0 : k == 1 ? -1 : 2147483647; Str a(x.c_str()), b(y.c_str());
    MC_CHECK(a + b == x + y && a + y.c_str() == x + y && x.c_str() + b == x + y && Str(a) + b == x + y && a + Str(b) == x + y && Str(a) + Str(b) == x + y && Str(a) + y.c_str() == x + y && x.c_str() + Str(b) == x + y && a + 'c' == x + 'c' && 'c' + b == 'c' + y && Str(a) + 'c' == x + 'c' && 'c' + Str(b) == 'c' + y, "concatenating \"%s\" and \"%s\" goes wrong", x.c_str(), y.c_str()); MC_CHECK(a == x && b == y, "concatenation changed an operand");
    Str f = LIB(StrF("%s|%d|%s|%%%s", x.c_str(), num, y.c_str(), z.c_str())); S e = x + "|" + std::to_string(num) + "|" + y + "|%" + z; MC_CHECK(f == e && f.size() == e.size(), "StrF gives \"%s\", expected \"%s\"", f.c_str(), e.c_str()); a += b; a += z.c_str(); a += 'c'; MC_CHECK(a == x + y + z + "c", "appending goes wrong"); Str n((const char*)0); n = (const char*)0; MC_CHECK(n.empty(), "null"); c.outcome(e); }); }
MC_CONFIG("concatenation of strings with null characters") { std::vector<S> w; words(S("a\0", 2), 4, w); w.push_back(S(20, 'x') + S(1, '\0') + S(20, 'y')); mc::enumerate(c, [&](mc::Choose& ch) { S x = ch.of(w), y = ch.of(w); Str a(x), b(y); MC_CHECK(a == x && Str(x.data(), x.size()) == x, "a Str made from a string with null characters");
    MC_CHECK(a + b == x + y && Str(a) + b == x + y && a + Str(b) == x + y && Str(a) + Str(b) == x + y && a + 'c' == x + 'c' && 'c' + b == 'c' + y && Str(a) + 'c' == x + 'c' && 'c' + Str(b) == 'c' + y && a + "s" == x + "s" && "s" + b == "s" + y && "s" + Str(b) == "s" + y && Str(a) + "s" == x + "s", "concatenating %s and %s goes wrong", show(x).c_str(), show(y).c_str()); MC_CHECK(a == x && b == y, "concatenation changed an operand"); Str d(a); d += b; MC_CHECK(d == x + y, "appending"); d = a; MC_CHECK(d == x, "assignment"); d = Str(b); MC_CHECK(d == y, "move assignment"); a.ReplaceChar('\0', 'q'); S z = x; for(char& k : z) if(!k) k = 'q'; MC_CHECK(a == z, "ReplaceChar of a null character"); c.outcome(x + y); }); }
// StringTable: histories, for narrow and wide characters
template<class C> static std::basic_string<C> wid(const S& s) { return std::basic_string<C>(s.begin(), s.end()); }
template<class C> struct TSys : mc::SysBase<TSys<C>> {
  typedef mc::SysBase<TSys<C>> B; typedef StringTable<C, size_t> T; T *a, *b; std::vector<S> ma, mb;
  static T* mk(const std::vector<S>& v) { std::vector<std::basic_string<C>> k; for(auto& s : v) k.push_back(wid<C>(s)); std::vector<const C*> p; for(auto& s : k) p.push_back(s.c_str()); return new T(p.data(), p.size()); }
  TSys() { a = LIB(mk({})); b = LIB(mk({ "x", "" })); mb = { "x", "" }; }
  ~TSys() { delete a; delete b; }
  static void append(T& t, const S& w) { std::basic_string<C> k = wid<C>(w); k.shrink_to_fit(); Exact<C> in(k.data(), k.size(), true); if(w.size() == 1) t += in.p; else t.AppendString(in.p); }
  static void dump(T& t, std::ostream& o) { t.DumpToStream(&o); }
  static void build(size_t mx) {
    std::vector<S> W = { "", "a", "bc" };
    for(auto& w : W) { B::op("Append \"" + w + "\"", [w](TSys& s) { LIB(append(*s.a, w)); s.ma.push_back(w); }, [mx](const TSys& s) { return s.ma.size() < mx; }); }
    B::op("a = {bc,,a}", [](TSys& s) { delete s.a; s.ma = { "bc", "", "a" }; s.a = LIB(mk(s.ma)); });
    B::op("a += b", [](TSys& s) { LIB(*s.a += *s.b); s.ma.insert(s.ma.end(), s.mb.begin(), s.mb.end()); }, [mx](const TSys& s) { return s.ma.size() + s.mb.size() <= mx; });
    B::op("a += a", [](TSys& s) { LIB(*s.a += *s.a); std::vector<S> m(s.ma); s.ma.insert(s.ma.end(), m.begin(), m.end()); }, [mx](const TSys& s) { return s.ma.size() * 2 <= mx; });
    B::op("a = a", [](TSys& s) { T& t = *s.a; LIB(t = t); });
    B::op("b = a + b", [](TSys& s) { T* n = LIB(new T(*s.a + *s.b)); delete s.b; s.b = n; std::vector<S> m(s.ma); m.insert(m.end(), s.mb.begin(), s.mb.end()); s.mb = m; }, [mx](const TSys& s) { return s.ma.size() + s.mb.size() <= mx; });
    B::op("a = b", [](TSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
    B::op("b = T(a)", [](TSys& s) { T* n = LIB(new T(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
    B::op("a = move(b)", [](TSys& s) { LIB(*s.a = std::move(*s.b)); s.ma = s.mb; s.mb.clear(); });
    B::op("b = T(move(a))", [](TSys& s) { T* n = LIB(new T(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; s.ma.clear(); });
    B::op("a through a stream", [](TSys& s) { std::stringstream ss; dump(*s.a, ss); S d = ss.str(); T* n = LIB(new T(&ss, d.size())); delete s.a; s.a = n; });
    B::op("a through a stream, asking for more than there is", [](TSys& s) { std::stringstream ss; dump(*s.a, ss); S d = ss.str(); T* n = LIB(new T(&ss, d.size() + 3 * sizeof(C))); delete s.a; s.a = n; });
  }
  static void one(T& t, const std::vector<S>& m, const char* n) { MC_CHECK(t.Length() == m.size(), "%s has %zu strings, expected %zu", n, t.Length(), m.size()); size_t tot = 0; for(size_t i = 0; i < m.size(); ++i) { MC_CHECK(wid<C>(m[i]) == t.GetString(i) && t.GetString(i) == t[i], "%s: string %zu is not \"%s\"", n, i, m[i].c_str()); tot += m[i].size() + 1; } MC_CHECK(t.TotalWordCapacity() == tot, "%s holds %zu characters, expected %zu", n, t.TotalWordCapacity(), tot); }
  void check() { one(*a, ma, "a"); one(*b, mb, "b"); }
  void key(mc::Key& k) { for(auto* m : { &ma, &mb }) { k.word(m->size()); for(auto& s : *m) k.str(s); } }
};
MC_CONFIG("StringTable: histories") { TSys<char>::build(4); mc::BfsOpt o; o.depth = c.pick(7, 12); o.maxstates = c.pick(30000, 500000); mc::bfs<TSys<char>>(c, o); }
MC_CONFIG("StringTable: histories, wide characters") { TSys<wchar_t>::build(4); mc::BfsOpt o; o.depth = c.pick(6, 12); o.maxstates = c.pick(15000, 300000); mc::bfs<TSys<wchar_t>>(c, o); }
// long strings: every length on a lattice, contents that repeat with a short period
static const int LEN[] = { 7, 8, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097 };
static const char* PAT[] = { "a", "ab ", "x,", ",;b", "\xC3\xA4", " \t", "a b,c;dd,,e" };
MC_CONFIG("long strings") { mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch.of(LEN); const char* p = ch.of(PAT); static const char* PRE[] = { "", " ", "\t  ", "," }; S s(ch.of(PRE)); size_t pl = strlen(p); for(int i = 0; i < n; ++i) s += p[i % pl]; s += ch.of(PRE);
    Str a(s.c_str()); MC_CHECK(a.size() == s.size() && a == s, "a Str of %zu characters", s.size()); Str t = LIB(a.Trim()); MC_CHECK(t == trim(s) && a == s, "Trim of a long string"); for(char x : { 'a', ' ', ',', '\xA4' }) { S st, rp; for(char y : s) { if(y != x) st += y; rp += y == x ? 'Z' : y; } Str r = LIB(Str::StripChar(s.c_str(), x)); MC_CHECK(r == st, "StripChar of a long string"); Str q(s.c_str()); q.ReplaceChar(x, 'Z'); MC_CHECK(q == rp, "ReplaceChar of a long string"); }
    std::vector<S> tok, tok2, chunk(1); S cur; for(char x : s + ",") if(x == ',') { if(!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += x; for(char x : s + ",") if(x == ',' || x == ';') { if(!cur.empty()) tok2.push_back(cur); cur.clear(); } else cur += x; for(char x : s) if(x == ',') chunk.push_back(""); else chunk.back() += x;
    std::vector<Str> r = Str::Explode(',', s.c_str()); MC_CHECK(std::vector<S>(r.begin(), r.end()) == tok, "Explode of a long string gives %zu parts, expected %zu", r.size(), tok.size()); std::vector<S> pt; size_t k = Str::ParseTokens<S>(s.c_str(), ",;", pt, [](const char* x) { return S(x); }); MC_CHECK(k == tok2.size() && pt == tok2, "ParseTokens of a long string gives %zu tokens, expected %zu", k, tok2.size());
    for(size_t i : { (size_t)0, chunk.size() / 2, chunk.size() - 1, chunk.size() }) { Str q((uint16_t)i, s.c_str(), ','); MC_CHECK(q == (i < chunk.size() ? chunk[i] : S()), "chunk %zu of a long string", i); }
    Str f = LIB(StrF("%s|%d|%s", s.c_str(), n, s.c_str())); S e = s + "|" + std::to_string(n) + "|" + s; MC_CHECK(f == e && f.size() == e.size(), "StrF of a long string"); MC_CHECK(a + Str(f) == s + e && a + f == s + e && a + s.c_str() == s + s && a + 'c' == s + 'c', "concatenating long strings"); c.outcome(tok.size() * 100000 + s.size()); }); }
MC_CONFIG("UTF: long strings") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { int n = ch.of(LEN); uint32_t x = ch.of(EDGE), y = ch.of(EDGE); int at = ch(3); CP p(n, x); p[at == 0 ? 0 : at == 1 ? n - 1 : n / 2] = y; S w = enc(p); for(bool t : { false, true }) { to8(p, t, ~(size_t)0); to32(w, t, ~(size_t)0); for(size_t k : { w.size() - 1, w.size(), w.size() + 1, w.size() / 2 }) to8(p, t, k); for(int k : { n - 1, n, n + 1, n / 2 }) to32(w, t, k); S b = w; b[w.size() / 2] = '\xFF'; to32(b, t, ~(size_t)0); }
    std::vector<char32_t> v(p.begin(), p.end()); v.push_back(0); Str a(v.data()); S32 f(w.c_str()), g(a); Str h(f); MC_CHECK(a == w && a.size() == w.size() && h == w && CP(f.begin(), f.end()) == p && CP(g.begin(), g.end()) == p, "a long string does not survive UTF-32"); c.outcome(w.size()); }); }
MC_CONFIG("StringTable: many strings") { mc::enumerate(c, [&](mc::Choose& ch) { typedef StringTable<char, uint32_t> T; static const int NS[] = { 0, 1, 7, 8, 9, 31, 64, 65, 255, 256, 257, 300 }; int n = ch.of(NS), per = 1 + ch(3), len = ch.of(LEN) % 300, how = ch(4); std::vector<S> m; for(int i = 0; i < n; ++i) m.push_back(i % per == 0 ? S(len, 'a' + i % 26) : i % per == 1 ? S() : std::to_string(i)); std::vector<const char*> p; for(auto& s : m) p.push_back(s.c_str()); T* t = LIB(new T(p.data(), p.size()));
    auto same = [&](T& x) { MC_CHECK(x.Length() == m.size(), "%d strings, expected %zu", (int)x.Length(), m.size()); size_t tot = 0; for(size_t i = 0; i < m.size(); ++i) { MC_CHECK(m[i] == x.GetString((uint32_t)i), "string %zu of %zu is wrong", i, m.size()); tot += m[i].size() + 1; } MC_CHECK(x.TotalWordCapacity() == tot, "%zu characters, expected %zu", (size_t)x.TotalWordCapacity(), tot); };
    same(*t); if(how == 0) for(int i = 0; i < 20; ++i) { S s(i * 13 % 40, 'q'); LIB(t->AppendString(s.c_str())); m.push_back(s); } if(how == 1) { T o(p.data(), p.size()); LIB(*t += o); auto k = m; m.insert(m.end(), k.begin(), k.end()); } if(how == 2) { std::stringstream ss; t->DumpToStream(&ss); T* u = LIB(new T(&ss, ss.str().size())); delete t; t = u; } if(how == 3) { T* u = LIB(new T(*t)); delete t; t = LIB(new T(std::move(*u))); delete u; } same(*t); c.outcome(m.size()); delete t; }); }
