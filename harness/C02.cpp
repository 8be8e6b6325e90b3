// BUILD: seq
// DynArray<bool>, BitField, BitStream, ArbitraryArray: bit-exact storage.
#include "mc.h"
#include "bss-util/DynArray.h"
#include "bss-util/BitField.h"
#include "bss-util/BitStream.h"
#include <sstream>
using namespace bss;
typedef std::vector<int> V;
typedef DynArray<bool, size_t> BA;
static std::string show(const V& v) { std::string s; for(int x : v) s += x ? '1' : '0'; return s; }
static void same(const BA& a, const V& m, const char* what) {
  MC_CHECK(a.Length() == m.size(), "%s: length %zu, expected %zu", what, (size_t)a.Length(), m.size());
  V g; for(size_t i = 0; i < m.size(); ++i) g.push_back(a[i]);
  MC_CHECK(g == m, "%s: bits %s, expected %s", what, show(g).c_str(), show(m).c_str());
  MC_CHECK(a.Capacity() >= a.Length() && a.Empty() == m.empty(), "%s: capacity/Empty wrong", what);
  if(m.size()) {
    BA& n = const_cast<BA&>(a);
    MC_CHECK((bool)a.Front() == (bool)m.front() && (bool)a.Back() == (bool)m.back(), "%s: const Front/Back wrong for %s", what, show(m).c_str());
    MC_CHECK((bool)n.Front() == (bool)m.front() && (bool)n.Back() == (bool)m.back(), "%s: Front/Back wrong for %s", what, show(m).c_str());
    V h; for(auto it = n.begin(); it != n.end(); ++it) { h.push_back((bool)*it); if(h.size() > m.size()) break; }
    MC_CHECK(h == m, "%s: iteration gives %s for %s", what, show(h).c_str(), show(m).c_str());
    h.clear(); auto it = n.end(); for(size_t i = 0; i < m.size(); ++i) { --it; h.push_back((bool)*it); } std::reverse(h.begin(), h.end());
    MC_CHECK(h == m, "%s: backward iteration gives %s for %s", what, show(h).c_str(), show(m).c_str());
  }
}
static void counts(const BA& a, const V& m) { for(size_t i = 0; i < m.size(); ++i) { size_t w = 0; for(size_t l = 0; i + l <= m.size(); ++l) { if(l) w += m[i + l - 1]; MC_CHECK(a.CountBits(i, l) == w, "CountBits(%zu,%zu) is %zu, expected %zu in %s", i, l, (size_t)a.CountBits(i, l), w, show(m).c_str()); } } }
// One operation chosen exhaustively
static void step(mc::Choose& ch, BA*& a, V& m, bool full) {
  int L = (int)m.size(); int op = ch(full ? 14 : 12);
  switch(op) {
  case 0: { int v = ch(2); size_t r = LIB(a->Add(v)); MC_CHECK(r == m.size(), "Add returned %zu", r); m.push_back(v); break; }
  case 1: { size_t r = LIB(a->AddConstruct()); MC_CHECK(r == m.size(), "AddConstruct returned %zu", r); m.push_back(0); break; }
  case 2: { int v = ch(2), i = ch(L + 1); LIB(a->Insert(v, i)); m.insert(m.begin() + i, v); break; }
  case 3: if(L) { int i = ch(L); LIB(a->Remove(i)); m.erase(m.begin() + i); } break;
  case 4: if(L) { LIB(a->RemoveLast()); m.pop_back(); } break;
  case 5: if(L) { int i = ch(L), v = ch(2); (*a)[i] = (bool)v; m[i] = v; } break;
  case 6: { int n = ch(L + 10); LIB(a->SetLength(n)); m.resize(n, 0); break; }
  case 7: { int n = ch(3) * 9; LIB(a->SetCapacity(n)); MC_CHECK((int)a->Capacity() >= n, "SetCapacity(%d) left %d", n, (int)a->Capacity()); break; }
  case 8: LIB(a->Flip()); for(int& x : m) x = !x; break;
  case 9: { BA* n = LIB(new BA(*a)); delete a; a = n; break; }
  case 10: { int k = ch(4); BA* n = LIB(new BA()); for(int i = 0; i < k * 8 - (k == 3); ++i) LIB(n->Add(true)); LIB(*n = *a); same(*a, m, "source of an assignment"); delete a; a = n; break; }
  case 11: { BA* n = LIB(new BA(std::move(*a))); MC_CHECK(a->Length() == 0, "moved-from array not empty"); LIB(*a = std::move(*n)); MC_CHECK(n->Length() == 0, "moved-from array not empty"); delete n; break; }
  case 12: LIB(a->Clear()); m.clear(); break;
  case 13: if(L) { int i = ch(L); (*a)[i].flip(); m[i] = !m[i]; } break;
  }
}
static void boolarr(mc::Ctx& c, int minL, int maxL, int steps, bool runs, int resv) {
  mc::enumerate(c, [&, minL, maxL, steps, runs, resv](mc::Choose& ch) {
    int L = minL + ch(maxL - minL + 1); V m; BA* a = LIB(new BA((size_t)(resv && ch(2) ? L + resv : 0)));
    if(runs) { int p = ch(L + 1), q = p + ch(L - p + 1); for(int i = 0; i < L; ++i) m.push_back(i >= p && i < q); }
    else for(int i = 0; i < L; ++i) m.push_back(ch(2));
    for(int v : m) LIB(a->Add(v));
    same(*a, m, "built"); counts(*a, m);
    for(int s = 0; s < steps; ++s) { std::string before = show(m); step(ch, a, m, true); same(*a, m, mc::fmt("after one operation on %s", before.c_str()).c_str()); }
    counts(*a, m); c.outcome(show(m));
    delete a;
  });
}
MC_CONFIG("DynArray<bool>: all contents of length 0..9, 1 op") { boolarr(c, 0, c.pick(9, 12), 1, false, 0); }
MC_CONFIG("DynArray<bool>: all contents of length 0..4, 2 ops") { boolarr(c, 0, c.pick(4, 6), 2, false, 1); }
MC_CONFIG("DynArray<bool>: one run of ones in 6..18 bits, 1 op") { boolarr(c, 6, c.pick(18, 34), 1, true, 9); }
MC_CONFIG("DynArray<bool>: one run of ones in 7..9 bits, 2 ops") { boolarr(c, c.pick(8, 7), c.pick(8, 9), 2, true, 0); }
MC_CONFIG_T("DynArray<bool>: all contents of length 0..3, 3 ops") { boolarr(c, 0, 3, 3, false, 0); }
// initializer lists
MC_CONFIG("DynArray<bool>: initializer lists") { mc::enumerate(c, [&](mc::Choose& ch) { bool b[9]; for(bool& x : b) x = ch(2); V m(b, b + 9); { BA a({ b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8] }); same(a, m, "initializer list"); } V m3(b, b + 3); BA a3({ b[0], b[1], b[2] }); same(a3, m3, "initializer list"); }); }
// BitField: every value of a byte
MC_CONFIG("BitField<uint8>: every value x every operation") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int v = ch(256), k = ch(7); BitField<uint8_t> f((uint8_t)v); const BitField<uint8_t>& cf = f; int w = v;
    MC_CHECK(cf.Get() == v, "Get");
    if(k < 2) { int b = 1 << ch(8); if(k) f += b; else f -= b; w = k ? v | b : v & ~b; MC_CHECK(cf[b] == (bool)k && cf.Get(b) == (bool)k, "bit"); }
    if(k == 2) { int b = 1 << ch(8); int on = ch(2); f[b] = (bool)on; w = on ? v | b : v & ~b; MC_CHECK((bool)f[b] == (bool)on && !f[b] == !on, "bit reference"); }
    if(k == 3) { int b = 1 << ch(8); f[b].flip(); w = v ^ b; }
    if(k == 4) { int m = ch(256), x = ch(4); static const int xs[4] = { 0, 255, 0x5A, 0x0F }; f(m) = xs[x]; w = (v & ~m) | (xs[x] & m); MC_CHECK(cf(m) == (w & m) && (uint8_t)f(m) == (w & m) && cf.GetGroup(m) == (w & m), "group"); }
    if(k == 5) { int m = ch(256), x = ch(4); static const int xs[4] = { 0, 255, 0x5A, 0x0F }; f.Set(xs[x] & m, m); w = (v & ~m) | (xs[x] & m); }
    if(k == 6) { f = 7; w = 7; }
    MC_CHECK(cf.Get() == (uint8_t)w && (uint8_t)cf == (uint8_t)w, "value %02x op %d gives %02x, expected %02x", v, k, cf.Get(), (uint8_t)w);
    c.outcome(w);
  });
}
// BitStream: sequences of fields of every width
static void bitstream(mc::Ctx& c, int nf, int maxw, const std::vector<unsigned>& pats) {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    std::vector<int> w; std::vector<unsigned> val; std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); size_t total = 0;
    { BitStream<std::stringstream> bs(ss); for(int i = 0; i < nf; ++i) { w.push_back(1 + ch(maxw)); val.push_back(pats[ch((int)pats.size())]); bs.Write(&val.back(), w.back()); total += w.back(); } }
    std::string raw = ss.str(); MC_CHECK(raw.size() == (total + 7) / 8, "%zu bits were written as %zu bytes", total, raw.size());
    size_t pos = 0; for(int i = 0; i < nf; ++i) for(int b = 0; b < w[i]; ++b, ++pos) MC_CHECK(((unsigned char)raw[pos / 8] >> (pos % 8) & 1) == (val[i] >> b & 1), "bit %d of field %d (width %d, value %x) is wrong", b, i, w[i], val[i]);
    int fill = ch(2) ? 0xFF : 0; BitStream<std::stringstream> rs(ss);
    for(int i = 0; i < nf; ++i) { unsigned g; memset(&g, fill, sizeof g); rs.Read(&g, w[i]); unsigned keep = 0xFFFFFFFFu; int nb = (w[i] + 7) / 8 * 8; if(nb < 32) keep = (1u << nb) - 1; unsigned want = w[i] < 32 ? val[i] & ((1u << w[i]) - 1) : val[i];
      MC_CHECK((g & keep) == want, "field %d (width %d) written as %x is read back as %x (destination was filled with %02x)", i, w[i], want, g & keep, fill); }
  });
}
MC_CONFIG("BitStream: 1 field, widths 1..32") { bitstream(c, 1, 32, { 0, 0xFFFFFFFF, 0xA5A5A5A5, 0x5A5A5A5A, 0x01020304, 0x80000001 }); }
MC_CONFIG("BitStream: 2 fields, widths 1..20") { bitstream(c, 2, c.pick(20, 32), { 0, 0xFFFFFFFF, 0xA5A5A5A5, 0x12345678 }); }
MC_CONFIG("BitStream: 3 fields, widths 1..10") { bitstream(c, 3, c.pick(10, 17), { 0, 0xFFFFFFFF, 0x2D6B1C5A }); }
MC_CONFIG("BitStream: typed values") { mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); int ty[4]; static const bool bv[2] = { false, true }; int bi[4]; { BitStream<std::stringstream> bs(ss); for(int i = 0; i < 4; ++i) { ty[i] = ch(3); bi[i] = ch(2); if(ty[i] == 0) bs << bv[bi[i]]; else if(ty[i] == 1) bs << (uint8_t)(bi[i] ? 0xC3 : 0x3C); else bs << (int)(bi[i] ? 0x12345678 : -2); } }
  BitStream<std::stringstream> rs(ss); for(int i = 0; i < 4; ++i) { if(ty[i] == 0) { bool b = true; rs >> b; MC_CHECK(*(char*)&b == bi[i], "bool %d is read back as %d", bi[i], *(char*)&b); } else if(ty[i] == 1) { uint8_t b = 0xFF; rs >> b; MC_CHECK(b == (bi[i] ? 0xC3 : 0x3C), "byte read back as %02x", b); } else { int b = -1; rs >> b; MC_CHECK(b == (bi[i] ? 0x12345678 : -2), "int read back as %x", b); } } }); }
// ArbitraryArray
typedef ArbitraryArray<uint32_t> AA;
struct AAS : mc::SysBase<AAS> {
  AA* a; std::vector<std::string> m; size_t el = 1; AAS() { a = LIB(new AA(0, 1)); } ~AAS() { delete a; }
  static std::string bytes(const void* p, size_t n) { return std::string((const char*)p, n); }
  static void build(int N) {
    static const uint64_t vals[2] = { 0x1122334455667788ull, 0x99AABBCCDDEEFF00ull };
    for(int v = 0; v < 2; ++v) op(mc::fmt("Add(v%d)", v), [v](AAS& s) { uint64_t x = vals[v]; size_t r = LIB(s.a->Add(x)); MC_CHECK(r == s.m.size(), "Add returned %zu", r); s.m.push_back(bytes(&x, s.el)); }, [N](const AAS& s) { return (int)s.m.size() < N; });
    for(int i = 0; i < N; ++i) op(mc::fmt("Remove(%d)", i), [i](AAS& s) { LIB(s.a->Remove(i)); s.m.erase(s.m.begin() + i); }, [i](const AAS& s) { return i < (int)s.m.size(); });
    op("RemoveLast", [](AAS& s) { LIB(s.a->RemoveLast()); s.m.pop_back(); }, [](const AAS& s) { return !s.m.empty(); });
    op("Clear", [](AAS& s) { LIB(s.a->Clear()); s.m.clear(); });
    for(int e : { 1, 2, 3, 5, 8 }) op(mc::fmt("SetElement(%d)", e), [e](AAS& s) { LIB(s.a->SetElement((uint32_t)e)); for(auto& x : s.m) x.resize(e, '\0'); s.el = e; });
    for(int e : { 1, 3, 4 }) for(int n = 0; n <= 2; ++n) op(mc::fmt("SetElement(array,%d,%d)", e, n), [e, n](AAS& s) { char src[16]; for(int i = 0; i < 16; ++i) src[i] = 'a' + i; LIB(s.a->SetElement((const void*)src, (uint32_t)e, (uint32_t)n)); s.m.clear(); for(int i = 0; i < n; ++i) s.m.push_back(bytes(src + i * e, e)); s.el = e; });
    op("copy", [](AAS& s) { AA* n = LIB(new AA(*s.a)); delete s.a; s.a = n; });
    op("assign", [](AAS& s) { AA* n = LIB(new AA(2, 3)); LIB(*n = *s.a); delete s.a; s.a = n; });
    op("move", [](AAS& s) { AA* n = LIB(new AA(std::move(*s.a))); delete s.a; s.a = n; });
    op("move-assign", [](AAS& s) { AA* n = LIB(new AA(2, 3)); LIB(*n = std::move(*s.a)); delete s.a; s.a = n; });
  }
  void check() {
    MC_CHECK(a->Length() == m.size() && a->Element() == el && a->Empty() == m.empty(), "length %u element %u, expected %zu and %zu", a->Length(), a->Element(), m.size(), el);
    for(size_t i = 0; i < m.size(); ++i) MC_CHECK(bytes(a->Get(i), el) == m[i] && (*a)[i] == a->Get(i), "element %zu has wrong bytes", i);
  }
  void key(mc::Key& k) { k.word(el); for(auto& x : m) k.str(x); k.object(a, sizeof(AA)); }
};
MC_CONFIG("ArbitraryArray: all histories") { AAS::build(3); mc::BfsOpt o; o.depth = c.pick(5, 7); mc::bfs<AAS>(c, o); }

// Long bit arrays: lengths around the word sizes, periodic contents, positions at both ends, the middle and the word edges.
MC_CONFIG("DynArray<bool>: long arrays") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const int LS[] = { 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600 }; static const int PER[] = { 1, 2, 3, 7, 8, 9, 64 };
    int L = ch.of(LS), per = ch.of(PER), inv = ch(2); V m; BA* a = LIB(new BA((size_t)(ch(2) ? L : 0)));
    for(int i = 0; i < L; ++i) { int v = (i / per + inv) & 1; m.push_back(v); LIB(a->Add(v)); }
    for(int st = 0; st < c.pick(1, 2); ++st) {
      int n = (int)m.size(); int P[] = { 0, 1, 7, 8, 9, n / 2, n - 33, n - 9, n - 8, n - 1 };
      auto pos = [&] { return std::max(0, std::min(P[ch(10)], n - 1)); };
      switch(ch(9)) {
      case 0: { int v = ch(2); LIB(a->Add(v)); m.push_back(v); break; }
      case 1: { int i = pos(), v = ch(2); LIB(a->Insert(v, i)); m.insert(m.begin() + i, v); break; }
      case 2: { int i = pos(); LIB(a->Remove(i)); m.erase(m.begin() + i); break; }
      case 3: { int i = pos(), v = ch(2); (*a)[i] = (bool)v; m[i] = v; break; }
      case 4: { int k[] = { n + 1, n - 1, 2 * n, n / 2, n + 64, n - 8 }; int q = k[ch(6)]; LIB(a->SetLength(q)); m.resize(q, 0); break; }
      case 5: LIB(a->Flip()); for(int& x : m) x = !x; break;
      case 6: { BA* b = LIB(new BA(*a)); LIB(delete a); a = b; break; }
      case 7: { BA* b = LIB(new BA()); for(int i = 0; i < 40; ++i) LIB(b->Add(i & 1)); LIB(*b = *a); LIB(delete a); a = b; break; }
      default: { BA* b = LIB(new BA(std::move(*a))); LIB(delete a); a = b; LIB(a->SetCapacity(2 * n)); break; }
      }
      same(*a, m, "after one operation");
    }
    int n = (int)m.size(); int P[] = { 0, 1, 7, 8, 9, 31, 32, 33, n / 2, n - 9, n - 8, n - 1 }; std::vector<int> sum(1, 0); for(int v : m) sum.push_back(sum.back() + v);
    for(int i : P) for(int e : P) if(i >= 0 && e >= i && e < n) MC_CHECK((int)a->CountBits(i, e - i + 1) == sum[e + 1] - sum[i], "CountBits(%d,%d) is %d, expected %d", i, e - i + 1, (int)a->CountBits(i, e - i + 1), sum[e + 1] - sum[i]);
    LIB(delete a);
  });
}
// BitField of every width: references and groups, their comparisons and their assignment to each other.
template<class T> static void fields(mc::Ctx& c) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const uint64_t VS[] = { 0, ~0ull, 0x8000000000000001ull, 0x0123456789ABCDEFull, 0xAAAAAAAAAAAAAAAAull, 0x00000000FFFF8000ull }; T v = (T)ch.of(VS), w = v; BitField<T> f(v), g((T)ch.of(VS)); const BitField<T>& cf = f; const T gv = g.Get();
    T b = (T)((T)1 << ch(sizeof(T) * 8)), b2 = (T)((T)1 << (ch(4) * (sizeof(T) * 8 - 1) / 3)); static const uint64_t MS[] = { 0, ~0ull, 0xF0F0F0F0F0F0F0F0ull, 0x00FF00FF00FF00FFull, 0x8000000080008080ull }; 
    bool is = (v & b) != 0, is2 = (gv & b2) != 0; MC_CHECK(cf[b] == is && (bool)f[b] == is && cf.Get(b) == is && !f[b] == !is, "bit");
    MC_CHECK((f[b] == true) == is && (f[b] == false) == !is && (f[b] != true) == !is && (f[b] != false) == is, "reference comparison");
    for(bool x : { false, true }) MC_CHECK((f[b] && x) == (is && x) && (f[b] || x) == (is || x), "reference logic");
    for(char x : { (char)0, (char)1, (char)6 }) MC_CHECK((f[b] | x) == (x | (char)is) && (f[b] & x) == (x & (char)is) && (f[b] ^ x) == (x ^ (char)is), "reference arithmetic");
    switch(ch(8)) {
    case 0: f[b] = g[b2]; w = is2 ? (T)(v | b) : (T)(v & ~b); break;
    case 1: f[b] = true; w = (T)(v | b); break;
    case 2: f[b] = false; w = (T)(v & ~b); break;
    case 3: f[b].flip(); w = (T)(v ^ b); break;
    case 4: { T m = (T)ch.of(MS); MC_CHECK((f(m) == (T)(v & m)) && !(f(m) != (T)(v & m)) && (!f(m) == !(v & m)) && (T)f(m) == (T)(v & m) && cf(m) == (T)(v & m), "group comparison"); f(m) = g.Get(); w = (T)((v & (T)~m) | (gv & m)); break; }
    case 5: { T m = (T)ch.of(MS), m2 = (T)ch.of(MS); f(m) = g(m2); w = (T)((v & (T)~m) | (gv & m2 & m)); break; }
    case 6: { T m = (T)ch.of(MS); f += m; w = (T)(v | m); break; }
    default: { T m = (T)ch.of(MS); f -= m; w = (T)(v & (T)~m); }
    }
    MC_CHECK(cf.Get() == w && (T)cf == w && g.Get() == gv, "value %llx became %llx, expected %llx", (unsigned long long)v, (unsigned long long)cf.Get(), (unsigned long long)w);
    BitField<T> h(f), k; k = w; MC_CHECK(h.Get() == w && k.Get() == w, "copy"); k.Set(v); MC_CHECK(k.Get() == v, "Set");
  });
}
MC_CONFIG("BitField<uint8>: references") { fields<uint8_t>(c); }
MC_CONFIG("BitField<uint16>: references") { fields<uint16_t>(c); }
MC_CONFIG("BitField<uint32>: references") { fields<uint32_t>(c); }
MC_CONFIG("BitField<uint64>: references") { fields<uint64_t>(c); }
// A stream object that is moved or assigned in the middle of a byte goes on where it was.
MC_CONFIG("BitStream: moved and assigned") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    typedef BitStream<std::stringstream> BS; std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary), other(std::ios::in | std::ios::out | std::ios::binary); int w[3]; unsigned val[3] = { 0x2D6B1C5A, 0xFFFFFFFF, 0xA5A5A5A5 }; size_t total = 0; int how = ch(2), at = ch(2); int ow = ch(2) ? 3 : 0;
    { BS* bs = new BS(ss); for(int i = 0; i < 3; ++i) { w[i] = 1 + ch(10); bs->Write(&val[i], w[i]); total += w[i]; if(i == at) { BS* n; if(how == 0) n = new BS(std::move(*bs)); else { n = new BS(other); unsigned z = 5; n->Write(&z, ow); *n = std::move(*bs); } delete bs; bs = n; } } delete bs; }
    std::string raw = ss.str(), oth = other.str(); MC_CHECK(raw.size() == (total + 7) / 8, "%zu bits were written as %zu bytes", total, raw.size()); MC_CHECK(oth.size() == (how && ow ? 1u : 0u) && (oth.empty() || oth[0] == 5), "what was written before an assignment is lost");
    size_t pos = 0; for(int i = 0; i < 3; ++i) for(int b = 0; b < w[i]; ++b, ++pos) MC_CHECK(((unsigned char)raw[pos / 8] >> (pos % 8) & 1) == (val[i] >> b & 1), "bit %d of field %d is wrong", b, i);
    { std::stringstream dummy; BS* rs = new BS(ss); for(int i = 0; i < 3; ++i) { unsigned g = 0; rs->Read(&g, w[i]); MC_CHECK(g == (val[i] & ((1u << w[i]) - 1)), "field %d is read back as %x", i, g); if(i == at) { BS* n; if(how == 0) n = new BS(*rs); else { n = new BS(dummy); *n = *rs; } delete rs; rs = n; } } delete rs; }
  });
}
MC_CONFIG("serialized values") {
  mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); std::vector<int> ty; static const char* S[] = { "", "a", "two words", "\xFF\x01" }; std::vector<int> vs; size_t want = 0;
    for(int i = 0; i < 3; ++i) { ty.push_back(ch(5)); vs.push_back(ch(4)); int v = vs.back(); switch(ty[i]) { case 0: bssSerialize<char>((char)(v * 83), ss); want += 1; break; case 1: bssSerialize<uint64_t>(0x0123456789ABCDEFull >> v * 8, ss); want += 8; break; case 2: bssSerialize<double>(v / 3.0, ss); want += 8; break; default: bssSerialize<const char*>(S[v], ss); want += sizeof(size_t) + strlen(S[v]); } }
    MC_CHECK(ss.str().size() == want, "%zu bytes, expected %zu", ss.str().size(), want);
    for(int i = 0; i < 3; ++i) { int v = vs[i]; switch(ty[i]) { case 0: { char x = 0; bssDeserialize(x, ss); MC_CHECK(x == (char)(v * 83), "char"); break; } case 1: { uint64_t x = 0; bssDeserialize(x, ss); MC_CHECK(x == 0x0123456789ABCDEFull >> v * 8, "uint64"); break; } case 2: { double x = 0; bssDeserialize(x, ss); MC_CHECK(x == v / 3.0, "double"); break; } case 3: { std::string x = "old"; bssDeserialize(x, ss); MC_CHECK(x == S[v], "string"); break; } default: { Str x("older"); bssDeserialize(x, ss); MC_CHECK(x == std::string(S[v]), "Str"); } } }
  });
}
