// BUILD: seq lib=bss_util_c.c
// Text, byte, search and random helpers: every short input against independent implementations.
#include "mc.h"
#include "bss-util/bss_util.h"
#include "bss-util/bss_util_c.h"
#include "bss-util/algo.h"
#include "bss-util/AliasTable.h"
#include <sstream>
#include <unistd.h>
using namespace bss;
static uint64_t fnv(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; for(size_t i = 0; i < n; ++i) h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211ull; return h; }
// an exactly sized heap copy, so that every access outside is caught
template<class T> struct Exact { std::unique_ptr<T[]> p; size_t n; Exact(const T* s, size_t k) : p(new T[k]), n(k) { if(k) memcpy((void*)p.get(), s, k * sizeof(T)); } explicit Exact(size_t k) : p(new T[k]), n(k) { memset((void*)p.get(), 0x5a, k * sizeof(T)); } T* get() { return p.get(); } };
static Exact<char> z(const std::string& s) { return Exact<char>(s.c_str(), s.size() + 1); }
static std::string vis(const std::string& s) { std::string r; for(unsigned char c : s) if(c < 32 || c > 126) r += mc::fmt("\\x%02x", c); else r += (char)c; return r; }
template<class A> static std::string word(mc::Choose& ch, const A& al, int maxlen) { std::string s; int n = ch(maxlen + 1); for(int i = 0; i < n; ++i) s += ch.of(al); return s; }

static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static void base64(const uint8_t* src, size_t n) {
  std::string want; for(size_t i = 0; i < n; i += 3) { uint32_t v = 0; for(size_t k = 0; k < 3; ++k) v = (v << 8) | (i + k < n ? src[i + k] : 0); size_t d = n - i >= 3 ? 4 : n - i + 1; for(size_t k = 0; k < d; ++k) want += B64[(v >> (18 - 6 * k)) & 63]; }
  Exact<uint8_t> in(src, n); size_t len = Base64Encode(in.get(), n, 0); if(len != want.size()) mc::fail("Base64Encode announces %zu characters for %zu bytes, expected %zu", len, n, want.size());
  Exact<char> out(len); size_t w = Base64Encode(in.get(), n, out.get()); if(w != len || std::string(out.get(), len) != want) mc::fail("Base64Encode of %zu bytes (%s) gives %s, expected %s", n, vis(std::string((const char*)src, n)).c_str(), vis(std::string(out.get(), len)).c_str(), want.c_str());
  size_t back = Base64Decode(out.get(), len, 0); if(back != n) mc::fail("Base64Decode announces %zu bytes for %s, expected %zu", back, want.c_str(), n); Exact<uint8_t> dec(n); w = Base64Decode(out.get(), len, dec.get()); if(w != n || memcmp(dec.get(), src, n)) mc::fail("Base64Decode of %s does not give the bytes it encodes", want.c_str());
}
MC_CONFIG("base64, all inputs of up to two bytes, all third bytes") { mc::enumerate(c, [&](mc::Choose& ch) { uint8_t b[3] = { (uint8_t)ch(256), 0, 0 }; if(!b[0]) base64(b, 0); base64(b, 1); for(int i = 0; i < 256; ++i) { b[1] = (uint8_t)i; base64(b, 2); static const uint8_t th[] = { 0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff }; for(uint8_t t : th) { b[2] = t; base64(b, 3); } } c.outcome(b[0]); }); }
MC_CONFIG("base64, lengths") { mc::enumerate(c, [&](mc::Choose& ch) { static const uint8_t al[] = { 0, 0xff, 0xa5, 0x1b }; int n = ch(c.pick(8, 10)); std::vector<uint8_t> b; for(int i = 0; i < n; ++i) b.push_back(ch.of(al)); base64(b.data(), b.size()); c.outcome(fnv(b.data(), b.size())); }); }
MC_CONFIG("base64, arbitrary text") { mc::enumerate(c, [&](mc::Choose& ch) { static const char al[] = { 'A', '_', '-', '+', '/', '=', ',', '{', ' ', 0, (char)0x80, (char)0xff }; std::string s = word(ch, al, c.pick(5, 6)); Exact<char> in(s.data(), s.size()); size_t n = Base64Decode(in.get(), s.size(), 0); size_t want = s.size() % 4 == 1 ? 0 : s.size() / 4 * 3 + (s.size() % 4 ? s.size() % 4 - 1 : 0); MC_CHECK(n == want, "Base64Decode announces %zu bytes for %zu characters, expected %zu", n, s.size(), want); Exact<uint8_t> out(n); MC_CHECK(Base64Decode(in.get(), s.size(), out.get()) == n, "Base64Decode(%s) writes another number of bytes than announced", vis(s).c_str()); c.outcome(n); }); }
MC_CONFIG_T("base64, all inputs of three bytes") { mc::enumerate(c, [&](mc::Choose& ch) { uint8_t b[3] = { (uint8_t)ch(256), (uint8_t)ch(256), 0 }; for(int i = 0; i < 256; ++i) { b[2] = (uint8_t)i; base64(b, 3); } c.outcome(b[0] * 256 + b[1]); }); }
MC_CONFIG("numbers as text") {
  static std::vector<int> v; if(v.empty()) { std::set<int> s; for(int k = 0; k < 31; ++k) for(int d = -1; d <= 1; ++d) { s.insert((1 << k) + d); s.insert(-(1 << k) + d); } for(long long p = 10; p < 3000000000ll; p *= 10) for(int d = -1; d <= 1; ++d) if(p + d < 2147483647) { s.insert((int)p + d); s.insert(-(int)p + d); } for(int d = 0; d < 3; ++d) { s.insert(2147483647 - d); s.insert(-2147483647 + d); } for(int k = -300; k <= 300; ++k) s.insert(k); v.assign(s.begin(), s.end()); v.push_back(INT_MIN); }
  mc::enumerate(c, [&](mc::Choose& ch) {
    int x = v[ch((int)v.size())]; unsigned radix = ch(35) + 2; std::string d; unsigned long long a = x < 0 ? -(long long)x : x; do { int t = (int)(a % radix); d += (char)(t < 10 ? '0' + t : 'A' + t - 10); a /= radix; } while(a); std::reverse(d.begin(), d.end());
    for(int size = 2; size <= 34; ++size) { std::string want = d; int room = size - 1 - (x < 0); if((int)want.size() > room) want = want.substr(want.size() - room); if(x < 0) want = "-" + want; // a number that does not fit keeps its sign and last digits
      Exact<char> b(size); int r = itoa_r(x, b.get(), size, radix); MC_CHECK(r == 0 && want == b.get(), "itoa_r(%d, radix %u, size %d) gives \"%s\", expected \"%s\"", x, radix, size, vis(std::string(b.get(), strnlen(b.get(), size))).c_str(), want.c_str()); }
    for(int size : { -1, 0, 1 }) { Exact<char> b(1); MC_CHECK(itoa_r(x, b.get(), size, radix) != 0 && b.get()[0] == 0x5a, "itoa_r with size %d", size); } Exact<char> b(40); MC_CHECK(itoa_r(x, b.get(), 40, ch(2)) != 0 && itoa_r(x, 0, 40, radix) != 0, "itoa_r without a radix or buffer"); c.outcome((uint64_t)x);
  });
}
template<class T> static void trims(mc::Ctx& c) {
  static const char al[] = { ' ', '\t', 'a', '\n', 1, '!', (char)0xe9, 127 };
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::string s = word(ch, al, c.pick(5, 6)); auto sp = [](char x) { return x > 0 && x < 33; }; size_t l = 0, e = s.size(); while(l < e && sp(s[l])) ++l; while(e > l && sp(s[e - 1])) --e; size_t re = s.size(); while(re && sp(s[re - 1])) --re;
    auto a = z(s); char* r = strltrim<char>(a.get()); MC_CHECK(s.substr(l) == r && s == a.get(), "strltrim(\"%s\")", vis(s).c_str()); auto b = z(s); r = strrtrim<char>(b.get()); MC_CHECK(r == b.get() && s.substr(0, re) == r, "strrtrim(\"%s\") is \"%s\"", vis(s).c_str(), vis(r).c_str());
    auto d = z(s); r = strtrim<char>(d.get()); MC_CHECK(s.substr(l, e - l) == r, "strtrim(\"%s\") is \"%s\"", vis(s).c_str(), vis(r).c_str()); for(char f : { 'a', ' ', '?' }) { auto g = z(s); std::string w = s; for(char& x : w) if(x == f) x = '#'; MC_CHECK(strreplace<char>(g.get(), f, '#') == g.get() && w == g.get(), "strreplace(\"%s\")", vis(s).c_str()); size_t n = std::count(s.begin(), s.end(), f); MC_CHECK(strccount<char>(d.get() + 0, f) <= n && strccount<char>(z(s).get(), f) == n && strccount<char>(z(s).get(), f, s.size()) == n && strccount<char>(z(s).get(), (char)0, s.size() + 1) == 1, "strccount(\"%s\")", vis(s).c_str()); }
    { struct { char b[5]; char guard; } t; memset(&t, 0x5a, sizeof(t)); auto src = z(s); char* q = strcpyx0(t.b, src.get()); MC_CHECK(q == t.b && t.guard == 0x5a && strnlen(t.b, 5) == std::min<size_t>(4, s.size()) && !s.compare(0, 4, t.b), "strcpyx0(\"%s\") into 5 characters", vis(s).c_str()); } c.outcome(fnv(s.data(), s.size()));
  });
}
MC_CONFIG("trimming, counting, replacing, copying") { trims<char>(c); }
MC_CONFIG("byte search") { mc::enumerate(c, [&](mc::Choose& ch) { static const char al[] = { 0, 'a' }; std::string h = word(ch, al, c.pick(9, 11)), n = word(ch, al, 4); Exact<char> a(h.data(), h.size()), b(n.data(), n.size()); const void* r = ByteSearch((const void*)a.get(), h.size(), (const void*)b.get(), n.size()); size_t p = n.empty() ? std::string::npos : h.find(n); const void* e = p == std::string::npos ? 0 : a.get() + p; MC_CHECK(r == e && ByteSearch((void*)a.get(), h.size(), (void*)b.get(), n.size()) == e, "ByteSearch for %s in %s", vis(n).c_str(), vis(h).c_str()); c.outcome(p); }); }
MC_CONFIG("code points as UTF-8") { mc::enumerate(c, [&](mc::Choose& ch) { int blk = ch(0x112); for(int k = 0; k < 4096; ++k) { int x = blk * 4096 + k; std::string s = "<", w = "<"; OutputUnicode(s, x); if(x < 0x80) w += (char)x; else if(x < 0x800) { w += (char)(0xc0 + x / 64); w += (char)(0x80 + x % 64); } else if(x < 0x10000) { w += (char)(0xe0 + x / 4096); w += (char)(0x80 + x / 64 % 64); w += (char)(0x80 + x % 64); } else if(x <= 0x10ffff) { w += (char)(0xf0 + x / 262144); w += (char)(0x80 + x / 4096 % 64); w += (char)(0x80 + x / 64 % 64); w += (char)(0x80 + x % 64); } if(s != w) mc::fail("OutputUnicode(U+%x) gives %s", x, vis(s).c_str()); } c.outcome(blk); }); }
MC_CONFIG("command lines") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const char al[] = { ' ', 'a', '"', '\t', '-' }; std::string s = word(ch, al, c.pick(7, 8)); std::vector<std::string> want; bool ok = true; auto sp = [](char x) { return x == ' ' || x == '\t'; };
    for(size_t i = 0; i < s.size();) { if(sp(s[i])) { ++i; continue; } if(s[i] == '"') { size_t k = i + 1; while(k < s.size() && !(s[k] == '"' && (k + 1 == s.size() || sp(s[k + 1])))) ++k; if(k == s.size()) ok = false; want.push_back(s.substr(i + 1, k - i - 1)); i = k + 1; } else { size_t k = i; while(k < s.size() && !sp(s[k])) ++k; want.push_back(s.substr(i, k - i)); i = k; } }
    auto a = z(s); int n = ToArgV<char>(0, a.get()); MC_CHECK(n == (int)want.size() && s == a.get(), "ToArgV(\"%s\") counts %d arguments, expected %zu", vis(s).c_str(), n, want.size()); Exact<char*> av(n); MC_CHECK(ToArgV<char>(av.get(), a.get()) == n, "ToArgV(\"%s\") finds another number of arguments than it counts", vis(s).c_str());
    if(ok) for(int i = 0; i < n; ++i) MC_CHECK(want[i] == av.get()[i], "ToArgV(\"%s\"): argument %d is \"%s\", expected \"%s\"", vis(s).c_str(), i, vis(av.get()[i]).c_str(), vis(want[i]).c_str());
    std::vector<std::vector<std::string>> g, w; ProcessCmdArgs(n, av.get(), [&](const char* const* p, int k) { g.emplace_back(p, p + k); }); for(int i = 0; i < n; ++i) { std::string x = av.get()[i]; if(!i || x[0] == '-') w.emplace_back(); w.back().push_back(x); } MC_CHECK(g == w, "ProcessCmdArgs of \"%s\" makes %zu groups, expected %zu", vis(s).c_str(), g.size(), w.size()); c.outcome(fnv(s.data(), s.size()));
  });
}
MC_CONFIG("formats") {
  static const char* tok[] = { "{0}", "{1}", "{2}", "{00}", "{01}", "{10}", "{99}", "{", "}", "0", "{a}", "{}", "{000}", "x", "{-1}" };
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::string f; int n = ch(c.pick(4, 5)); for(int i = 0; i < n; ++i) f += ch.of(tok); auto want = [&](std::vector<std::string> a) { std::string r; for(size_t i = 0; i < f.size();) { auto dg = [&](size_t k) { return k < f.size() && f[k] >= '0' && f[k] <= '9'; }; int v = -1; size_t len = 0; if(f[i] == '{' && dg(i + 1)) { if(i + 2 < f.size() && f[i + 2] == '}') { v = f[i + 1] - '0'; len = 3; } else if(dg(i + 2) && i + 3 < f.size() && f[i + 3] == '}') { v = (f[i + 1] - '0') * 10 + f[i + 2] - '0'; len = 4; } } if(v < 0) { r += f[i++]; continue; } r += v < (int)a.size() ? a[v] : mc::fmt("{INVALID PARAMETER %d}", v); i += len; } return r; };
    auto fz = z(f); std::ostringstream o1, o2, o3; SafeFormat(o1, fz.get(), 42); SafeFormat(o2, fz.get(), "{0}", 'c'); SafeFormat(o3, fz.get(), 1u, -2, std::string("three"));
    MC_CHECK(o1.str() == want({ "42" }), "SafeFormat(\"%s\", 42) gives \"%s\"", f.c_str(), o1.str().c_str()); MC_CHECK(o2.str() == want({ "{0}", "c" }), "SafeFormat(\"%s\", \"{0}\", 'c') gives \"%s\"", f.c_str(), o2.str().c_str()); MC_CHECK(o3.str() == want({ "1", "-2", "three" }), "SafeFormat(\"%s\", 1, -2, \"three\") gives \"%s\"", f.c_str(), o3.str().c_str()); c.outcome(fnv(f.data(), f.size()));
  });
}
template<class T> static void load(const std::string& path, const std::string& s) {
  auto r = bssLoadFile<T>(path.c_str()); auto t = bssLoadFile<T, true>(path.c_str()); size_t n = s.size() / sizeof(T);
  MC_CHECK(r.second == n && r.first && !memcmp(r.first.get(), s.data(), n * sizeof(T)), "bssLoadFile of %zu bytes as elements of %zu gives %zu elements", s.size(), sizeof(T), r.second); MC_CHECK(t.second == n + 1 && t.first && !memcmp(t.first.get(), s.data(), n * sizeof(T)) && t.first[n] == 0, "bssLoadFile of %zu bytes as elements of %zu, with terminator, gives %zu elements", s.size(), sizeof(T), t.second);
}
MC_CONFIG("loading files") { mc::enumerate(c, [&](mc::Choose& ch) { static const char al[] = { 0, '\n', '\r', (char)0xff }; std::string s; int n = ch(7); for(int i = 0; i < n; ++i) s += i < 4 ? ch.of(al) : 'x'; std::string p = std::string(mc::scratch()) + "/E03.bin"; FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); load<char>(p, s); load<uint8_t>(p, s); if(s.size() % 2 == 0) load<uint16_t>(p, s); if(s.size() % 4 == 0) load<uint32_t>(p, s); MC_CHECK(!bssLoadFile<char>((p + ".none").c_str()).first && bssLoadFile<char>((p + ".none").c_str()).second == 0, "bssLoadFile of a missing file"); unlink(p.c_str()); c.outcome(fnv(s.data(), s.size())); }); }
template<class CT> static void search(mc::Ctx& c) {
  typedef signed char S; mc::enumerate(c, [&](mc::Choose& ch) { // all sorted arrays over five values, all ranges, all keys
    int n = ch(c.pick(8, 9)); std::vector<int> v; int at = 0; for(int i = 0; i < n; ++i) { at += ch(5 - at / 2) * 2; v.push_back(at); if(at > 8) return; } Exact<int> a(v.data(), n);
    for(int f = 0; f <= n; ++f) for(int l = f; l <= n; ++l) for(int k = -1; k <= 9; ++k) { long up = std::upper_bound(v.begin() + f, v.begin() + l, k) - v.begin(), lo = std::lower_bound(v.begin() + f, v.begin() + l, k) - v.begin();
      CT b = BinarySearchBefore<int, CT, CompT<int>>(a.get(), k, (CT)f, (CT)l), t = BinarySearchAfter<int, CT, CompT<int>>(a.get(), k, (CT)f, (CT)l), e = BinarySearchExact<int, int, CT, CompT<int>>(a.get(), k, f, l); MC_CHECK(b == (CT)(up - 1), "BinarySearchBefore(%d) in [%d, %d) is %ld, expected %ld", k, f, l, (long)b, up - 1); MC_CHECK(t == (CT)lo, "BinarySearchAfter(%d) in [%d, %d) is %ld, expected %ld", k, f, l, (long)t, lo);
      if(lo == up) MC_CHECK(e == (CT)-1, "BinarySearchExact(%d) finds %ld", k, (long)e); else MC_CHECK((long)e >= lo && (long)e < up, "BinarySearchExact(%d) in [%d, %d) is %ld, not in [%ld, %ld)", k, f, l, (long)e, lo, up);
      if(!f && l == n) MC_CHECK((BinarySearchBefore<int, CT, CompT<int>>(a.get(), (CT)n, k)) == b && (BinarySearchAfter<int, CT, CompT<int>>(a.get(), (CT)n, k)) == t, "whole array search"); }
    c.outcome(fnv(v.data(), v.size() * 4)); });
}
MC_CONFIG("binary search, unsigned index") { search<size_t>(c); }
MC_CONFIG("binary search, small signed index") { search<int>(c); }
struct N { N* l = 0; N* r = 0; int id = 0; }; static std::vector<int> visited; static int stopat;
static bool act(N* n) { visited.push_back(n->id); return (int)visited.size() == stopat; } static N* lc(N* n) { return n->l; } static N* rc(N* n) { return n->r; }
static N* shape(mc::Choose& ch, int n, std::vector<std::unique_ptr<N>>& own) { if(!n) return 0; own.emplace_back(new N); N* x = own.back().get(); x->id = (int)own.size(); int left = ch(n); x->l = shape(ch, left, own); x->r = shape(ch, n - 1 - left, own); return x; }
MC_CONFIG("breadth first order of binary trees") { mc::enumerate(c, [&](mc::Choose& ch) { int n = ch(c.pick(10, 12)); std::vector<std::unique_ptr<N>> own; N* root = shape(ch, n, own); std::vector<int> want; if(root) { std::vector<N*> q{ root }; for(size_t i = 0; i < q.size(); ++i) { want.push_back(q[i]->id); if(q[i]->l) q.push_back(q[i]->l); if(q[i]->r) q.push_back(q[i]->r); } } stopat = ch(2) ? (n + 1) / 2 : 0; if(stopat) want.resize(stopat); visited.clear(); BreadthFirstTree<N, act, lc, rc>(root, (size_t)n); MC_CHECK(visited == want, "BreadthFirstTree of a tree of %d nodes visits %zu of them, or in another order (stop at %d)", n, visited.size(), stopat); c.outcome(fnv(want.data(), want.size() * 4)); }); }
// a generator under the control of the exploration
struct Gen { typedef uint64_t result_type; std::function<uint64_t()> f; static uint64_t min() { return 0; } static uint64_t max() { return ~0ull; } uint64_t operator()() { return f(); } };
MC_CONFIG("shuffles") { static std::set<std::vector<int>> seen[9]; for(auto& s : seen) s.clear(); mc::enumerate(c, [&](mc::Choose& ch) { int n = ch(c.pick(8, 9)), left = n; Exact<int> a(n); for(int i = 0; i < n; ++i) a.get()[i] = i; Gen g{ [&]() -> uint64_t { if(left <= 0) mc::fail("Shuffle draws too many numbers"); int k = ch(left); uint64_t r = (uint64_t)(((long double)k + 0.5L) / left * 18446744073709551616.0L); --left; return r; } }; Shuffle<int, int, Gen>(a.get(), n, g); std::vector<int> v(a.get(), a.get() + n), s = v; std::sort(s.begin(), s.end()); for(int i = 0; i < n; ++i) MC_CHECK(s[i] == i, "Shuffle lost an element"); if(!seen[n].insert(v).second) mc::fail("two different draws give the same order of %d elements, so the orders are not equally likely", n); c.outcome(fnv(v.data(), v.size() * 4)); }); }
MC_CONFIG("random integers stay in their range") { mc::enumerate(c, [&](mc::Choose& ch) { static const uint64_t e[] = { 0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, ~0ull << 11, (~0ull << 11) - 1, ~0ull << 10 }; static const int64_t lim[] = { -2147483648ll, -7, -1, 0, 1, 2, 100, 2147483647 }; uint64_t v = ch.of(e); Gen g{ [&] { return v; } }; int64_t lo = ch.of(lim), hi = ch.of(lim); if(lo >= hi) return; int64_t r = bssrand<int64_t, Gen>(lo, hi, g); MC_CHECK(r >= lo && r < hi, "bssrand(%lld, %lld) gives %lld", (long long)lo, (long long)hi, (long long)r); if(hi - lo < 2147483647) { int q = bssrand<int, Gen>((int)lo, (int)hi, g); MC_CHECK(q == r, "bssrand on int"); } c.outcome((uint64_t)r); }); }
MC_CONFIG("xorshift engines") { mc::enumerate(c, [&](mc::Choose& ch) {
    static const uint64_t seeds[] = { 0, 1, 2, 0x123456789abcdefull, ~0ull, 1ull << 63 }; uint64_t s = ch.of(seeds), x = s; auto star = [](uint64_t& v) { v ^= v >> 12; v ^= v << 25; v ^= v >> 27; return v * 2685821657736338717ull; }; uint64_t y = s; if(s) { MC_CHECK(xorshift64star(x) == star(y) && x == y, "xorshift64star"); } int skip = ch(40);
    XorshiftEngine<uint64_t> a(s), b(s), d(s); std::set<uint64_t> diff; uint64_t st[17]; bool ref = s != 0; if(ref) { uint64_t q = s; star(q); for(int i = 0; i < 16; ++i) st[i] = star(q); } int p = 0; for(int i = 0; i < skip; ++i) { uint64_t r = a(); diff.insert(r); if(ref) { uint64_t s0 = st[p], s1 = st[p = (p + 1) & 15]; s1 ^= s1 << 31; s1 ^= s1 >> 11; s0 ^= s0 >> 30; st[p] = s0 ^ s1; MC_CHECK(r == st[p] * 1181783497276652981ull, "number %d of the engine seeded with %llx is not that of xorshift1024*", i, (unsigned long long)s); } }
    MC_CHECK(diff.size() == (size_t)skip, "the engine seeded with %llu repeats itself within %d numbers", (unsigned long long)s, skip); MC_CHECK((a == d) == !skip && (a != d) == !!skip, "comparison of engines"); b.discard(skip); MC_CHECK(a == b && a() == b(), "discard(%d)", skip); XorshiftEngine<uint64_t> e2(a); MC_CHECK(e2 == a && e2() == a(), "copy of an engine"); XorshiftEngine<uint32_t> f(s); MC_CHECK(f() == (uint32_t)d(), "narrow engine"); uint64_t arr[16]; for(int i = 0; i < 16; ++i) arr[i] = i * 77 + s + 1; XorshiftEngine<uint64_t> g(arr), h(1); h.seed(arr); MC_CHECK(g == h && g() == h(), "seeding with an array"); c.outcome(a()); }); }
template<class U, class F> struct AT : AliasTable<U, F> { typedef AliasTable<U, F> B; using B::B; AT(const AT&) = default; AT(AT&&) = default; AT() {} AT& operator=(const AT&) = default; AT& operator=(AT&&) = default;
  void check(const std::vector<F>& p, const char* what) const { MC_CHECK(this->GetCount() == p.size(), "%s: the table has %zu entries", what, (size_t)this->GetCount()); std::vector<F> m(p.size()); for(size_t i = 0; i < p.size(); ++i) { F q = this->_prob[i]; MC_CHECK(q >= 0 && q <= 1, "%s: probability %g", what, (double)q); m[i] += q; if(q < 1) { MC_CHECK(this->_alias[i] < p.size(), "%s: alias", what); m[this->_alias[i]] += 1 - q; } } for(size_t i = 0; i < p.size(); ++i) MC_CHECK(std::fabs(m[i] / p.size() - p[i]) < 1e-6, "%s: outcome %zu has probability %g, expected %g", what, i, (double)m[i] / p.size(), (double)p[i]);
    for(size_t i = 0; i < p.size(); ++i) for(int k = 0; k < 3; ++k) { bool first = true; Gen g{ [&]() -> uint64_t { if(first) { first = false; return (uint64_t)(((long double)i + 0.5L) / p.size() * 18446744073709551616.0L); } return k == 0 ? 1ull << 44 : k == 1 ? 1ull << 63 : ~0ull; } }; U r = this->Get(g); MC_CHECK(r < p.size() && p[r] > 0, "%s: drew outcome %zu, whose probability is zero", what, (size_t)r); } } };
template<class U, class F> static void alias(mc::Ctx& c) { mc::enumerate(c, [&](mc::Choose& ch) { int n = ch(c.pick(5, 6)) + 1; std::vector<F> p; F sum = 0; for(int i = 0; i < n; ++i) { p.push_back((F)ch(5)); sum += p.back(); } if(sum == 0) return; for(F& x : p) x /= sum; AT<U, F> t(p.data(), (U)n); t.check(p, "made"); AT<U, F> cp(t); cp.check(p, "copied"); std::vector<F> one{ 1 }; AT<U, F> as(one.data(), 1); as = t; as.check(p, "assigned"); t.check(p, "copied from"); as = *&as; as.check(p, "assigned to itself"); AT<U, F> mv(std::move(cp)); mv.check(p, "moved"); AT<U, F> ma; ma = std::move(mv); ma.check(p, "move assigned"); c.outcome(fnv(p.data(), p.size() * sizeof(F))); }); }
MC_CONFIG("alias tables") { alias<size_t, double>(c); }
MC_CONFIG("alias tables, small index") { alias<uint16_t, double>(c); }
MC_CONFIG("alias tables, float") { alias<uint32_t, float>(c); }
