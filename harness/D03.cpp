// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c release
// Single-threaded allocators: BlockAlloc/BlockPolicy/BlockPolicySize, GreedyBlockPolicy, StandardAllocator.
#include "mc.h"
#include "bss-util/BlockAlloc.h"
#include "bss-util/GreedyBlockAlloc.h"
#include "bss-util/Alloc.h"
using namespace bss;
struct Live { uint8_t* p; size_t n; uint8_t pat; };
static void fill(Live& l) { memset(l.p, l.pat, l.n); }
static void intact(const std::vector<Live>& v) {
  for(auto& l : v) for(size_t i = 0; i < l.n; ++i) MC_CHECK(l.p[i] == l.pat, "byte %zu of a live block was changed", i);
  std::vector<Live> s(v); std::sort(s.begin(), s.end(), [](const Live& a, const Live& b) { return a.p < b.p; }); for(size_t i = 1; i < s.size(); ++i) MC_CHECK(s[i - 1].p + s[i - 1].n <= s[i].p, "two live blocks overlap");
}
// A: wrapper with alloc(kind), dealloc, clear, moved(), capacity() (blocks available before growing; ~0 = unknown)
template<class A> struct Sys : mc::SysBase<Sys<A>> {
  typedef mc::SysBase<Sys> B; using B::op; A* a; std::vector<Live> v; uint8_t next; static size_t MAXL; uint64_t lastcap;
  Sys() : next(1) { a = LIB(new A()); lastcap = a->capacity(); }
  ~Sys() { delete a; }
  void alloc(int kind) {
    uint64_t cap = a->capacity(); size_t n = A::size(kind); uint8_t* p = (uint8_t*)LIB(a->alloc(kind)); MC_CHECK(p, "allocation gives null"); MC_CHECK((size_t)p % A::align(kind) == 0, "the block is not aligned to %zu", A::align(kind));
    Live l{ p, n, next }; next = (uint8_t)(next % 9 + 1); for(auto& x : v) MC_CHECK(p + n <= x.p || x.p + x.n <= p, "the block overlaps a live block"); fill(l); v.push_back(l);
    if(A::exact && v.size() <= cap) MC_CHECK(a->capacity() == cap, "the allocator grew although %zu of %zu blocks were free", (size_t)(cap - v.size() + 1), (size_t)cap);
  }
  static void build(size_t maxl) {
    MAXL = maxl; for(int k = 0; k < A::kinds; ++k) op(mc::fmt("Alloc(%zu)", A::size(k)), [k](Sys& s) { s.alloc(k); }, [](const Sys& s) { return s.v.size() < MAXL; });
    for(size_t i = 0; i < maxl; ++i) op(mc::fmt("Dealloc(#%zu)", i), [i](Sys& s) { Live l = s.v[i]; s.v.erase(s.v.begin() + i); LIB(s.a->dealloc(l.p, l.n)); }, [i](const Sys& s) { return i < s.v.size(); });
    op("Clear", [](Sys& s) { LIB(s.a->clear()); s.v.clear(); });
    op("moved", [](Sys& s) { A* n = LIB(s.a->moved()); delete s.a; s.a = n; });
    op("fill and empty", [](Sys& s) { size_t n = s.v.size(); while(s.v.size() < MAXL + 4) s.alloc(0); intact(s.v); while(s.v.size() > n) { Live l = s.v.back(); s.v.pop_back(); LIB(s.a->dealloc(l.p, l.n)); } });
  }
  void check() { intact(v); }
  void key(mc::Key& k) { k.object(a, sizeof(A)); k.word(v.size()); for(auto& l : v) { k.word(l.pat); k.word(l.n); } }
};
template<class A> size_t Sys<A>::MAXL;
template<size_t SZ, size_t AL, size_t INIT> struct BA : BlockAlloc {
  static constexpr int kinds = 1; static constexpr bool exact = true; BA() : BlockAlloc(SZ, INIT, AL) {} BA(BA&& m) : BlockAlloc(std::move(m)) {}
  static size_t size(int) { return SZ; } static size_t align(int) { return AL; }
  void* alloc(int) { return Alloc(); } void dealloc(void* p, size_t) { Dealloc(p); } void clear() { Clear(); } BA* moved() { return new BA(std::move(*this)); }
  uint64_t capacity() const { uint64_t n = 0; for(const Node* r = GetRoot(); r; r = r->next) n += r->size / GetSize(); return n; }
};
struct alignas(16) A16 { char c[48]; }; struct alignas(32) A32 { char c[32]; }; struct P24 { void* p[3]; };
template<class T> struct BP : BlockPolicy<T> {
  typedef BlockPolicy<T> P; static constexpr int kinds = 1; static constexpr bool exact = true; BP() : P(2) {} static size_t size(int) { return sizeof(T); } static size_t align(int) { return alignof(T); }
  void* alloc(int) { return P::allocate(1); } void dealloc(void* p, size_t) { P::deallocate((T*)p, 1); } void clear() { P::Clear(); } BP* moved() { BP* n = new BP(); n->P::allocate(1); n->P::operator=(std::move(*this)); return n; }
  uint64_t capacity() const { uint64_t n = 0; for(auto* r = BlockAlloc::GetRoot(); r; r = r->next) n += r->size / BlockAlloc::GetSize(); return n; }
};
struct BS : BlockPolicySize<48, 16> {
  typedef BlockPolicySize<48, 16> P; static constexpr int kinds = 3; static constexpr bool exact = true; BS() : P(1) {} BS(BS&& m) : P(std::move(m)) {} static size_t size(int k) { return k == 0 ? sizeof(A16) : k == 1 ? sizeof(P24) : 8; } static size_t align(int k) { return k == 0 ? 16 : 8; }
  void* alloc(int k) { return k == 0 ? (void*)P::allocate<A16>(1) : k == 1 ? (void*)P::allocate<P24>(1) : (void*)P::allocate<void*>(1); } void dealloc(void* p, size_t) { P::deallocate((char*)p); } void clear() { P::Clear(); } BS* moved() { return new BS(std::move(*this)); }
  uint64_t capacity() const { uint64_t n = 0; for(auto* r = BlockAlloc::GetRoot(); r; r = r->next) n += r->size / BlockAlloc::GetSize(); return n; }
};
template<class T, int INIT> struct GP : GreedyBlockPolicy<T> {
  typedef GreedyBlockPolicy<T> P; static constexpr int kinds = 3; static constexpr bool exact = false; GP() : P(INIT) {} GP(GP&& m) : P(std::move(m)) {} static size_t size(int k) { return sizeof(T) * (k == 0 ? 1 : k == 1 ? 3 : 9); } static size_t align(int) { return alignof(T); }
  void* alloc(int k) { return P::allocate(k == 0 ? 1 : k == 1 ? 3 : 9); } void dealloc(void* p, size_t) { P::deallocate(p); } void clear() { P::Clear(); } GP* moved() { return new GP(std::move(*this)); } uint64_t capacity() const { return ~0ull; }
};
template<class A> void go(mc::Ctx& c, int maxl, int depth) { typedef Sys<A> Y; Y::build(maxl); mc::BfsOpt o; o.depth = depth; o.maxstates = c.pick(100000, 2000000); mc::bfs<Y>(c, o); }
MC_CONFIG("BlockAlloc: 8 byte blocks") { go<BA<8, 1, 2>>(c, 6, c.pick(11, 16)); }
MC_CONFIG("BlockAlloc: 13 byte blocks aligned to 8") { go<BA<13, 8, 1>>(c, 6, c.pick(11, 16)); }
MC_CONFIG("BlockAlloc: 40 byte blocks aligned to 32") { go<BA<40, 32, 3>>(c, 6, c.pick(11, 16)); }
MC_CONFIG("BlockAlloc: no initial blocks") { go<BA<16, 4, 0>>(c, 5, c.pick(11, 16)); }
MC_CONFIG("BlockPolicy<pointers>") { go<BP<P24>>(c, 6, c.pick(11, 16)); }
MC_CONFIG("BlockPolicy<16-byte aligned>") { go<BP<A16>>(c, 5, c.pick(11, 16)); }
MC_CONFIG("BlockPolicySize") { go<BS>(c, 5, c.pick(8, 11)); }
MC_CONFIG("GreedyBlockPolicy<char>") { go<GP<char, 8>>(c, 6, c.pick(8, 11)); }
MC_CONFIG("GreedyBlockPolicy<pointers>") { go<GP<P24, 0>>(c, 6, c.pick(8, 11)); }
MC_CONFIG("GreedyBlockPolicy<32-byte aligned>") { go<GP<A32, 64>>(c, 6, c.pick(8, 11)); }
// growth far beyond the first chunk
template<class A> void grow(mc::Ctx& c, int n) { mc::enumerate(c, [&](mc::Choose& ch) { int stride = 1 + ch(4), again = ch(2); A* a = LIB(new A()); std::vector<Live> v; auto one = [&](int k) { k %= A::kinds; Live l{ (uint8_t*)LIB(a->alloc(k)), A::size(k), (uint8_t)(v.size() % 250 + 1) }; MC_CHECK(l.p && (size_t)l.p % A::align(k) == 0, "block %zu is null or misaligned", v.size()); fill(l); v.push_back(l); }; for(int i = 0; i < n; ++i) one(i); intact(v); std::vector<Live> keep; for(size_t i = 0; i < v.size(); ++i) if(i % (stride + 1)) LIB(a->dealloc(v[i].p, v[i].n)); else keep.push_back(v[i]); v = keep; intact(v); if(again) { LIB(a->clear()); v.clear(); } for(int i = 0; i < n; ++i) one(i); intact(v); c.outcome(stride * 2 + again); delete a; }); }
MC_CONFIG("growth") { grow<BA<8, 8, 1>>(c, 300); grow<BA<24, 16, 0>>(c, 300); grow<BP<A16>>(c, 300); grow<BS>(c, 300); grow<GP<char, 8>>(c, 300); grow<GP<P24, 1>>(c, 300); grow<GP<A32, 64>>(c, 300); }
// StandardAllocator: reallocation keeps contents and alignment
template<class T, int AL> void std_(mc::Ctx& c, int depth) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    StandardAllocator<T, AL> a; static const size_t sizes[] = { 1, 2, 4, 7, 32 }; size_t n = ch.of(sizes); T* p = LIB(a.allocate(n)); size_t al = AL > (int)alignof(T) ? AL : alignof(T); std::string log = mc::fmt("%zu", n);
    std::vector<uint8_t> m(n * sizeof(T)); auto set = [&](size_t from) { for(size_t i = from; i < n * sizeof(T); ++i) ((uint8_t*)p)[i] = m[i] = (uint8_t)(i * 7 + n + 1); }; set(0);
    for(int i = 0; i < depth; ++i) { MC_CHECK(p && (size_t)p % al == 0, "not aligned to %zu", al); for(size_t j = 0; j < m.size(); ++j) MC_CHECK(((uint8_t*)p)[j] == m[j], "byte %zu changed after sizes %s", j, log.c_str()); size_t o = n; n = ch.of(sizes); p = LIB(a.allocate(n, p, o)); log += mc::fmt(" %zu", n); m.resize(n * sizeof(T)); for(size_t j = 0; j < bssmin(o, n) * sizeof(T); ++j) MC_CHECK(((uint8_t*)p)[j] == m[j], "byte %zu lost in reallocation, sizes %s", j, log.c_str()); if(o < n) set(o * sizeof(T)); }
    MC_CHECK((size_t)p % al == 0, "not aligned to %zu", al); c.outcome(log); LIB(a.deallocate(p, n));
  });
}
MC_CONFIG("StandardAllocator") { std_<char, 0>(c, c.pick(4, 6)); std_<P24, 0>(c, c.pick(3, 5)); }
MC_CONFIG("StandardAllocator, aligned") { std_<A16, 16>(c, c.pick(3, 5)); std_<A32, 32>(c, c.pick(3, 5)); std_<A32, 64>(c, c.pick(3, 5)); std_<char, 16>(c, c.pick(3, 5)); }
MC_CONFIG("AlignSize") { mc::enumerate(c, [&](mc::Choose& ch) { size_t s = ch(200), al = 1 + ch(64), r = AlignSize(s, al); MC_CHECK(r >= s && r % al == 0 && r < s + al, "AlignSize(%zu,%zu) = %zu", s, al, r); c.outcome(r); }); }
