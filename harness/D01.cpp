// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// Owning values: ref_ptr/RefCounter, OwnerPtr, Variant, Delegate and stored calls.
#include "mc.h"
#include "bss-util/bss_util.h"
#include "bss-util/RefCounter.h"
#include "bss-util/SmartPtr.h"
#include "bss-util/Variant.h"
#include "bss-util/Delegate.h"
#include "bss-util/Str.h"
using namespace bss;

// ref_ptr: slots holding references to nodes, nodes holding references to older nodes
struct Nd; static std::set<Nd*> g_live;
struct Nd : RefCounter { int id; ref_ptr<Nd> next; Nd(int i) : id(i) { g_live.insert(this); } ~Nd() { g_live.erase(this); } int refs() const { return _refs; } Nd& assign(const Nd& n) { RefCounter::operator=(n); return *this; } };
struct RSys : mc::SysBase<RSys> {
  static int S, MAXN; ref_ptr<Nd>* s[3]; struct M { Nd* p; int next; }; std::vector<M> n; int m[3] = { -1, -1, -1 }; // model: node index per slot, next index per node
  RSys() { g_live.clear(); for(auto& x : s) x = new ref_ptr<Nd>(); }
  ~RSys() noexcept(false) { for(auto& x : s) delete x; if(!std::uncaught_exceptions()) MC_CHECK(g_live.empty(), "%zu objects outlive all references", g_live.size()); }
  int count(int k) const { int r = 0; for(int i = 0; i < 3; ++i) r += m[i] == k; for(size_t i = 0; i < n.size(); ++i) r += n[i].next == k && alive((int)i); return r; }
  bool alive(int k) const { for(int i = 0; i < 3; ++i) if(m[i] == k) return true; for(size_t i = k + 1; i < n.size(); ++i) if(n[i].next == k && alive((int)i)) return true; return false; }
  static void build() {
    for(int i = 0; i < S; ++i) {
      op(mc::fmt("s%d = new", i), [i](RSys& y) { Nd* p = LIB(new Nd((int)y.n.size())); *y.s[i] = p; y.m[i] = (int)y.n.size(); y.n.push_back({ p, -1 }); }, [](const RSys& y) { return (int)y.n.size() < MAXN; });
      op(mc::fmt("s%d = null", i), [i](RSys& y) { *y.s[i] = (Nd*)0; y.m[i] = -1; });
      op(mc::fmt("s%d = s%d->next", i, i), [i](RSys& y) { *y.s[i] = (*y.s[i])->next; y.m[i] = y.n[y.m[i]].next; }, [i](const RSys& y) { return y.m[i] >= 0; });
      op(mc::fmt("s%d = move(s%d->next)", i, i), [i](RSys& y) { int k = y.m[i]; *y.s[i] = std::move((*y.s[i])->next); y.m[i] = y.n[k].next; y.n[k].next = -1; }, [i](const RSys& y) { return y.m[i] >= 0; });
      op(mc::fmt("s%d = (T*)s%d->next", i, i), [i](RSys& y) { *y.s[i] = (Nd*)(*y.s[i])->next; y.m[i] = y.n[y.m[i]].next; }, [i](const RSys& y) { return y.m[i] >= 0; });
      for(int j = 0; j < S; ++j) {
        op(mc::fmt("s%d = s%d", i, j), [i, j](RSys& y) { const ref_ptr<Nd>& r = *y.s[j]; *y.s[i] = r; y.m[i] = y.m[j]; });
        op(mc::fmt("s%d = (T*)s%d", i, j), [i, j](RSys& y) { *y.s[i] = (Nd*)*y.s[j]; y.m[i] = y.m[j]; });
        if(i != j) op(mc::fmt("s%d = move(s%d)", i, j), [i, j](RSys& y) { *y.s[i] = std::move(*y.s[j]); y.m[i] = y.m[j]; y.m[j] = -1; });
        if(i != j) op(mc::fmt("s%d = ref_ptr(s%d)", i, j), [i, j](RSys& y) { delete y.s[i]; y.s[i] = new ref_ptr<Nd>(*y.s[j]); y.m[i] = y.m[j]; });
        if(i != j) op(mc::fmt("s%d = ref_ptr(move(s%d))", i, j), [i, j](RSys& y) { delete y.s[i]; y.s[i] = new ref_ptr<Nd>(std::move(*y.s[j])); y.m[i] = y.m[j]; y.m[j] = -1; });
        if(i != j) op(mc::fmt("s%d->next = s%d", i, j), [i, j](RSys& y) { (*y.s[i])->next = *y.s[j]; y.n[y.m[i]].next = y.m[j]; }, [i, j](const RSys& y) { return y.m[i] >= 0 && y.m[j] < y.m[i]; });
      }
      op(mc::fmt("Grab and Drop of s%d", i), [i](RSys& y) { Nd* p = *y.s[i]; int r = p->refs(); MC_CHECK(p->Grab() == r + 1 && p->Grab(2) == r + 3 && p->Drop() == r + 2 && p->Drop() == r + 1 && p->Drop() == r, "Grab and Drop miscount"); }, [i](const RSys& y) { return y.m[i] >= 0; });
      op(mc::fmt("copy assignment of the object in s%d", i), [i](RSys& y) { Nd* p = *y.s[i]; ref_ptr<Nd> q(LIB(new Nd(99))); int r = p->refs(); p->assign(*q); MC_CHECK(p->refs() == r && q->refs() == 1, "assigning objects changed a reference count"); }, [i](const RSys& y) { return y.m[i] >= 0; });
    }
  }
  void check() {
    std::set<Nd*> w; for(size_t k = 0; k < n.size(); ++k) if(alive((int)k)) { w.insert(n[k].p); MC_CHECK(g_live.count(n[k].p), "object %zu was destroyed while referenced", k); MC_CHECK(n[k].p->refs() == count((int)k), "object %zu counts %d references, expected %d", k, n[k].p->refs(), count((int)k)); }
    MC_CHECK(g_live.size() == w.size(), "%zu objects are alive, %zu are referenced", g_live.size(), w.size());
    for(int i = 0; i < 3; ++i) { Nd* p = m[i] < 0 ? 0 : n[m[i]].p; const ref_ptr<Nd>& c = *s[i]; MC_CHECK(*s[i] == p && !(*s[i] != p) && !*s[i] == !p && (Nd*)*s[i] == p && (const Nd*)c == p && s[i]->operator->() == p && c.operator->() == p, "slot %d refers to the wrong object", i); if(p) MC_CHECK((*(*s[i])).id == m[i] && (*c).id == m[i], "slot %d refers to the wrong object", i); }
  }
  void key(mc::Key& k) { std::map<int, int> ren; auto r = [&](int x) { return x < 0 ? -1 : ren.emplace(x, (int)ren.size()).first->second; }; k.word(n.size()); for(int i = 0; i < 3; ++i) k.word(m[i]); for(auto& x : n) k.word(x.next); for(size_t i = 0; i < n.size(); ++i) k.word(alive((int)i)); (void)r; }
};
int RSys::S, RSys::MAXN;
MC_CONFIG("ref_ptr: two references, chains of objects") { RSys::S = 2; RSys::MAXN = c.pick(4, 5); RSys::build(); mc::BfsOpt o; o.depth = c.pick(10, 13); o.maxstates = c.pick(200000, 2000000); mc::bfs<RSys>(c, o); }
struct Cp : RefCounter { static int live; int v; Cp(int x) : v(x) { ++live; } Cp(const Cp& c) : RefCounter(c), v(c.v) { ++live; } Cp& operator=(const Cp&) = default; ~Cp() { --live; } int refs() const { return _refs; } }; int Cp::live = 0;
MC_CONFIG("ref_ptr: copies of counted objects") { mc::enumerate(c, [&](mc::Choose& ch) { // a copied or assigned object starts out with (keeps) its own references
    int a = 1 + ch(4), b = 1 + ch(4), how = ch(3), order = ch(4); Cp::live = 0; std::vector<ref_ptr<Cp>> x, y; Cp* p = new Cp(1); for(int i = 0; i < a; ++i) x.emplace_back(p);
    Cp* q = how == 0 ? LIB(new Cp(*p)) : new Cp(2); MC_CHECK(q->refs() == 0, "an object copied from one with %d references starts with %d", a, q->refs()); for(int i = 0; i < b; ++i) y.emplace_back(q); if(how == 1) LIB(*q = *p); if(how == 2) LIB(*p = *q);
    MC_CHECK(p->refs() == a && q->refs() == b, "after copying there are %d and %d references, expected %d and %d", p->refs(), q->refs(), a, b); MC_CHECK(p->v == q->v, "the copy differs");
    for(int i = 0; !x.empty() || !y.empty(); ++i) { auto& z = y.empty() || (!x.empty() && ((order & 1) ? i % 2 == (order >> 1) : order >> 1)) ? x : y; z.pop_back(); MC_CHECK(Cp::live == !x.empty() + !y.empty(), "%d objects live with %zu and %zu references", Cp::live, x.size(), y.size()); } c.outcome(a * 16 + b * 4 + how); }); }
MC_CONFIG("ref_ptr: three references") { RSys::S = 3; RSys::MAXN = 3; RSys::build(); mc::BfsOpt o; o.depth = c.pick(8, 10); o.maxstates = c.pick(200000, 2000000); mc::bfs<RSys>(c, o); }

// OwnerPtr: copies never own, moves transfer, and the owner destroys exactly once
struct Ow { int id; Ow(int i) : id(i) {} }; static std::vector<int> g_del; static const char* g_err;
struct OwDel { void operator()(Ow* p) const { if(!p) return; if(p->id < 0 || p->id >= 100) { g_err = "an object is deleted twice, or one that is not owned"; return; } g_del.push_back(p->id); p->id = -1; } };
struct OSys : mc::SysBase<OSys> {
  typedef OwnerPtr<Ow, OwDel> P; P* s[3]; std::vector<Ow*> o; std::vector<int> dead; Ow st; struct M { int p; bool own; } m[3]; // p: -1 null, -2 the static object
  OSys() : st(100) { g_err = 0; g_del.clear(); for(int i = 0; i < 3; ++i) { s[i] = new P(); m[i] = { -1, false }; } }
  ~OSys() noexcept(false) { for(auto& x : s) delete x; bool bad = g_del.size() != o.size(); for(auto* x : o) delete x; if(!std::uncaught_exceptions()) { MC_CHECK(!g_err, "%s", g_err); MC_CHECK(!bad, "%zu of %zu owned objects were deleted", g_del.size(), o.size()); } }
  void drop(int i) { if(m[i].own) dead.push_back(m[i].p); m[i].own = false; }
  static void build() {
    for(int i = 0; i < 3; ++i) {
      op(mc::fmt("s%d = new", i), [i](OSys& y) { Ow* p = new Ow((int)y.o.size()); y.drop(i); *y.s[i] = internal::OwnerPtrRef<Ow>(p); y.m[i] = { (int)y.o.size(), true }; y.o.push_back(p); }, [](const OSys& y) { return y.o.size() < 4; });
      op(mc::fmt("s%d = P(new)", i), [i](OSys& y) { Ow* p = new Ow((int)y.o.size()); y.drop(i); delete y.s[i]; y.s[i] = new P(internal::OwnerPtrRef<Ow>(p)); y.m[i] = { (int)y.o.size(), true }; y.o.push_back(p); }, [](const OSys& y) { return y.o.size() < 4; });
      op(mc::fmt("s%d = static", i), [i](OSys& y) { y.drop(i); *y.s[i] = y.st; y.m[i] = { -2, false }; });
      op(mc::fmt("s%d = P(static)", i), [i](OSys& y) { y.drop(i); delete y.s[i]; y.s[i] = new P(y.st); y.m[i] = { -2, false }; });
      op(mc::fmt("s%d = P()", i), [i](OSys& y) { y.drop(i); delete y.s[i]; y.s[i] = new P(); y.m[i] = { -1, false }; });
      for(int j = 0; j < 3; ++j) {
        op(mc::fmt("s%d = s%d", i, j), [i, j](OSys& y) { const P& r = *y.s[j]; *y.s[i] = r; if(i != j) { y.drop(i); y.m[i] = { y.m[j].p, false }; } });
        op(mc::fmt("s%d = move(s%d)", i, j), [i, j](OSys& y) { *y.s[i] = std::move(*y.s[j]); if(i != j) { y.drop(i); y.m[i] = y.m[j]; y.m[j].own = false; } });
        if(i != j) op(mc::fmt("s%d = P(s%d)", i, j), [i, j](OSys& y) { const P& r = *y.s[j]; y.drop(i); delete y.s[i]; y.s[i] = new P(r); y.m[i] = { y.m[j].p, false }; });
        if(i != j) op(mc::fmt("s%d = P(move(s%d))", i, j), [i, j](OSys& y) { y.drop(i); delete y.s[i]; y.s[i] = new P(std::move(*y.s[j])); y.m[i] = y.m[j]; y.m[j].own = false; });
      }
    }
  }
  void check() {
    MC_CHECK(!g_err, "%s", g_err); auto d = g_del, w = dead; std::sort(d.begin(), d.end()); std::sort(w.begin(), w.end()); MC_CHECK(d == w, "%zu objects were deleted, expected %zu", d.size(), w.size());
    for(int i = 0; i < 3; ++i) { Ow* p = m[i].p == -1 ? 0 : m[i].p == -2 ? &st : o[m[i].p]; const P& c = *s[i]; MC_CHECK((Ow*)*s[i] == p && (const Ow*)c == p && !*s[i] == !p && *s[i] == p && !(*s[i] != p) && s[i]->operator->() == p && (*s[i] == *s[i]), "pointer %d is wrong", i); }
  }
  void key(mc::Key& k) { k.word(o.size()); for(auto& x : m) { k.word(x.p); k.word(x.own); } for(auto* x : o) k.word(x->id >= 0); }
};
MC_CONFIG("OwnerPtr: all histories") { OSys::build(); mc::BfsOpt o; o.depth = c.pick(8, 11); o.maxstates = c.pick(200000, 2000000); mc::bfs<OSys>(c, o); }

// Variant
struct alignas(16) Big { int v; char pad[44]; Big(int x = 0) : v(x) { MC_CHECK(((size_t)this & 15) == 0, "a Variant constructs a 16-byte aligned type at a misaligned address"); } Big(const Big& b) : v(b.v) { MC_CHECK(((size_t)this & 15) == 0, "a Variant copies a 16-byte aligned type to a misaligned address"); } Big& operator=(const Big&) = default; };
template<class V, class... Ts> struct VSys : mc::SysBase<VSys<V, Ts...>> {
  typedef mc::SysBase<VSys> B; using B::op; V *a, *b; struct M { int t, v; } ma{ -1, 0 }, mb{ -1, 0 };
  VSys() { a = LIB(new V()); b = LIB(new V()); }
  ~VSys() { delete a; delete b; }
  template<class T> static T mk(int v) { if constexpr(std::is_same_v<T, Str>) { return Str(v == 1 ? "one" : "a string long enough to be allocated"); } else return T(v); }
  template<class T> static bool eq(const T& x, int v) { if constexpr(std::is_same_v<T, Str>) return v ? x == mk<Str>(v) : x.empty(); else if constexpr(std::is_arithmetic_v<T>) return x == (T)v; else return x.v == v; }
  template<class T> static void ops() {
    int t = V::template Type<T>::value;
    for(int v = 1; v <= 2; ++v) {
      op(mc::fmt("a = T%d(%d)", t, v), [t, v](VSys& s) { LIB(*s.a = mk<T>(v)); s.ma = { t, v }; });
      op(mc::fmt("a = lvalue T%d(%d)", t, v), [t, v](VSys& s) { const T x = mk<T>(v); LIB(*s.a = x); MC_CHECK(eq(x, v), "assigning a Variant changed its source"); s.ma = { t, v }; });
    }
    op(mc::fmt("a = V(T%d(1))", t), [t](VSys& s) { delete s.a; s.a = 0; s.a = LIB(new V(mk<T>(1))); s.ma = { t, 1 }; });
    op(mc::fmt("a = V(lvalue T%d(2))", t), [t](VSys& s) { T x = mk<T>(2); V* n = LIB(new V(x)); MC_CHECK(eq(x, 2), "constructing a Variant from an lvalue changed it"); delete s.a; s.a = n; s.ma = { t, 2 }; });
    op(mc::fmt("a.typeset<T%d>", t), [t](VSys& s) { LIB(s.a->template typeset<T>()); s.ma = { t, 0 }; });
  }
  static void build() {
    (ops<Ts>(), ...);
    op("a = b", [](VSys& s) { const V& r = *s.b; LIB(*s.a = r); s.ma = s.mb; });
    op("a = b (non-const)", [](VSys& s) { LIB(*s.a = *s.b); s.ma = s.mb; });
    op("b = a", [](VSys& s) { const V& r = *s.a; LIB(*s.b = r); s.mb = s.ma; });
    op("a = a", [](VSys& s) { const V& r = *s.a; LIB(*s.a = r); });
    op("b = move(a), a renewed", [](VSys& s) { LIB(*s.b = std::move(*s.a)); s.mb = s.ma; delete s.a; s.a = LIB(new V()); s.ma = { -1, 0 }; });
    op("b = V(a)", [](VSys& s) { const V& r = *s.a; V* n = LIB(new V(r)); delete s.b; s.b = n; s.mb = s.ma; });
    op("b = V(a non-const)", [](VSys& s) { V* n = LIB(new V(*s.a)); delete s.b; s.b = n; s.mb = s.ma; });
    op("b = V(move(a)), a renewed", [](VSys& s) { V* n = LIB(new V(std::move(*s.a))); delete s.b; s.b = n; s.mb = s.ma; delete s.a; s.a = LIB(new V()); s.ma = { -1, 0 }; });
    op("a = V()", [](VSys& s) { delete s.a; s.a = LIB(new V()); s.ma = { -1, 0 }; });
  }
  template<class T> static void one(V& x, const M& m, const char* n) {
    int t = V::template Type<T>::value; MC_CHECK(V::template type<T>() == t && V::template contains<T>() && x.template is<T>() == (m.t == t), "%s: is<T%d> is wrong, the tag is %d, expected %d", n, t, x.tag(), m.t);
    if(m.t == t) { const V& c = x; MC_CHECK(((size_t)&x.template get<T>() % alignof(T)) == 0, "%s: the value is misaligned for its type", n); MC_CHECK(eq<T>(x.template get<T>(), m.v) && eq<T>(c.template get<T>(), m.v), "%s holds a wrong value of T%d", n, t); MC_CHECK((char*)&x.template get<T>() >= (char*)&x && (char*)(&x.template get<T>() + 1) <= (char*)(&x + 1), "%s: the value does not fit in the Variant", n); }
  }
  void check() { MC_CHECK(a->tag() == ma.t && b->tag() == mb.t, "tags are %d and %d, expected %d and %d", a->tag(), b->tag(), ma.t, mb.t); (one<Ts>(*a, ma, "a"), ...); (one<Ts>(*b, mb, "b"), ...); long live = 0; for(auto& m : { ma, mb }) { int i = 0; ((live += m.t == i && std::is_same_v<Ts, mc::Obj>, ++i), ...); } MC_CHECK(mc::Obj::live == live, "%ld objects alive, expected %ld", mc::Obj::live, live); }
  void key(mc::Key& k) { k.word(ma.t); k.word(ma.v); k.word(mb.t); k.word(mb.v); }
};
template<class V, class... Ts> void gov(mc::Ctx& c) { typedef VSys<V, Ts...> Y; Y::build(); mc::BfsOpt o; o.depth = 20; mc::bfs<Y>(c, o); }
MC_CONFIG("Variant<int, Obj, Big, Str>") { gov<Variant<int, mc::Obj, Big, Str>, int, mc::Obj, Big, Str>(c); }
MC_CONFIG("Variant<Obj, double>") { gov<Variant<mc::Obj, double>, mc::Obj, double>(c); }
MC_CONFIG("Variant<Str, char, Obj>") { gov<Variant<Str, char, mc::Obj>, Str, char, mc::Obj>(c); }
MC_CONFIG("Variant<Big>") { gov<Variant<Big>, Big>(c); }
MC_CONFIG("Variant conversions") { typedef Variant<char, int, double, long long> V; mc::enumerate(c, [&](mc::Choose& ch) { static const int vals[] = { 0, 1, -1, 77, 127, -128 }; int t = ch(4), x = ch.of(vals); V v; if(t == 0) v = (char)x; else if(t == 1) v = (int)x; else if(t == 2) v = (double)x; else v = (long long)x; MC_CHECK(v.convert<int>() == x && v.convert<double>() == x && v.convert<char>() == (char)x && v.convert<long long>() == x && v.convert<float>() == x, "convert gives %d for %d", v.convert<int>(), x); MC_CHECK(v.tag() == t, "convert changed the tag"); V w(v); MC_CHECK(w.convert<int>() == x, "a copy converts differently"); c.outcome(t * 1000 + x); }); }

// Delegate and stored calls: all targets x copies x arguments
static std::vector<int> g_calls;
struct Tg { int k; int mem(int x, int y) { g_calls.push_back(k * 100 + x * 10 + y); return k + x - y; } int cmem(int x, int y) const { g_calls.push_back(k * 100 + x * 10 + y + 1000); return k - x + y; } virtual int vm(int x, int y) { g_calls.push_back(k * 100 + x * 10 + y + 2000); return 1; } };
struct Tg2 : Tg { virtual int vm(int x, int y) override { g_calls.push_back(k * 100 + x * 10 + y + 3000); return 2; } };
static int cfn(Tg* t, int x, int y) { g_calls.push_back(t->k * 100 + x * 10 + y + 4000); return t->k * x * y; }
static int ccfn(const Tg* t, int x, int y) { g_calls.push_back(t->k * 100 + x * 10 + y + 5000); return t->k * x + y; }
static int sfn(int x, int y) { g_calls.push_back(x * 10 + y + 6000); return x * 7 + y; }
struct RT { std::string log; int refm(int& x, const std::string& s, std::string v) { log += s + v + ","; return ++x; } int crefm(int& x, const std::string& s, std::string v) const { ++x; return (int)(s.size() * 10 + v.size()); } };
static int g_n; static std::string g_txt; static int reff(int& x, const std::string& s, std::string v) { g_txt += s + v + ","; return x += 2; } static int cat(std::string a, std::string b, int n) { g_txt += a + "|" + b + "|" + std::to_string(n) + ";"; return (int)a.size(); }
MC_CONFIG("Delegate: references, state and repeated calls") { typedef Delegate<int, int&, const std::string&, std::string> D; mc::enumerate(c, [&](mc::Choose& ch) { int kind = ch(4), first = ch(5), calls = 1 + ch(3); static const char* const W[] = { "", "a", "a string too long to be stored inside of the object" }; std::string s = ch.of(W), v = ch.of(W), s0 = s; RT t; g_txt.clear(); int state = 0; std::function<int(int&, const std::string&, std::string)> f = [state, &t](int& x, const std::string& a, std::string b) mutable { t.log += a + b + std::to_string(++state) + ","; return x = state; };
    auto mk = [&](int k) { return k == 0 ? D::From<RT, &RT::refm>(&t) : k == 1 ? D::From<RT, &RT::crefm>(&t) : k == 2 ? D::FromC<&reff>() : k == 3 ? D(f) : D(); }; D d = mk(first); { D e = mk(kind); LIB(d = e); MC_CHECK(d.RawSource() == e.RawSource() && d.RawFunc() == e.RawFunc() && d.IsEmpty() == e.IsEmpty(), "an assigned Delegate differs from its source"); D k(e); MC_CHECK(k.RawSource() == e.RawSource() && k.RawFunc() == e.RawFunc(), "a copied Delegate differs from its source"); }
    int x = 5, wx = 5; std::string wl, wt; for(int i = 0; i < calls; ++i) { int r = LIB(d(x, s, v)), wr; if(kind == 0) { wr = ++wx; wl += s + v + ","; } else if(kind == 1) { ++wx; wr = (int)(s.size() * 10 + v.size()); } else if(kind == 2) { wr = wx += 2; wt += s + v + ","; } else { wr = wx = i + 1; wl += s + v + std::to_string(i + 1) + ","; } MC_CHECK(r == wr && x == wx && t.log == wl && g_txt == wt && s == s0, "call %d through a Delegate returns %d and leaves %d, expected %d and %d", i, r, x, wr, wx); }
    g_txt.clear(); wt.clear(); { StoreFunction<int, std::string, std::string, int> sf(&cat, std::string(s), std::string(v), int(calls)); for(int i = 0; i < calls; ++i) { LIB(sf()); wt += s + "|" + v + "|" + std::to_string(calls) + ";"; MC_CHECK(g_txt == wt, "a stored call repeated %d times ran with \"%s\"", i, g_txt.c_str()); } auto sg = sf; sf.Call(); sg.Call(); wt += wt.substr(0, wt.size() / calls) + wt.substr(0, wt.size() / calls); MC_CHECK(g_txt == wt, "a copied stored call ran with \"%s\"", g_txt.c_str()); }
    c.outcome(kind * 100 + first * 10 + calls); }); }
MC_CONFIG("Delegate: all targets") { typedef Delegate<int, int, int> D; mc::enumerate(c, [&](mc::Choose& ch) {
    Tg2 t; t.k = 1 + ch(3); int x = ch(4), y = ch(4), kind = ch(7), via = ch(4); std::function<int(int, int)> f = [&](int p, int q) { g_calls.push_back(p * 10 + q + 7000); return p - q * 3 + t.k; };
    D d; MC_CHECK(d.IsEmpty(), "a default Delegate is not empty"); int call = t.k * 100 + x * 10 + y, ret = 0;
    switch(kind) { case 0: d = D::From<Tg, &Tg::mem>(&t); ret = t.k + x - y; break; case 1: d = D::From<Tg, &Tg::cmem>(&t); call += 1000; ret = t.k - x + y; break; case 2: d = D::From<Tg, &Tg::vm>(&t); call += 3000; ret = 2; break; case 3: d = D::FromC<Tg, &cfn>((Tg*)&t); call += 4000; ret = t.k * x * y; break; case 4: d = D::FromC<Tg, &ccfn>((const Tg*)&t); call += 5000; ret = t.k * x + y; break; case 5: d = D::FromC<&sfn>(); call = x * 10 + y + 6000; ret = x * 7 + y; break; default: d = D(f); call = x * 10 + y + 7000; ret = x - y * 3 + t.k; }
    if(kind != 5) MC_CHECK(!d.IsEmpty(), "a bound Delegate is empty"); g_calls.clear(); int r; D e(d), g; g = e;
    if(via == 0) r = d(x, y); else if(via == 1) r = e(x, y); else if(via == 2) r = g(x, y); else { StoreDelegate<int, int, int> s(d, int(x), int(y)); r = s(); MC_CHECK(g_calls.size() == 1, "a stored call ran %zu times", g_calls.size()); g_calls.clear(); r = s.Call(); }
    MC_CHECK(g_calls.size() == 1 && g_calls[0] == call && r == ret, "the delegate called its target %zu times with %d, result %d, expected %d and %d", g_calls.size(), g_calls.empty() ? -1 : g_calls[0], r, call, ret);
    g_calls.clear(); { auto k = defer(d, int(x), int(y)); MC_CHECK(g_calls.empty(), "a deferred call ran early"); } MC_CHECK(g_calls.size() == 1 && g_calls[0] == call, "a deferred call ran %zu times", g_calls.size());
    g_calls.clear(); { auto k = defer(&sfn, int(x), int(y)); MC_CHECK(g_calls.empty(), "a deferred call ran early"); } MC_CHECK(g_calls.size() == 1 && g_calls[0] == x * 10 + y + 6000, "a deferred function ran %zu times", g_calls.size());
    g_calls.clear(); StoreFunction<int, int, int> sf(&sfn, int(x), int(y)); StoreFunction<int, int, int> sg(sf); r = sg(); MC_CHECK(g_calls.size() == 1 && g_calls[0] == x * 10 + y + 6000 && r == x * 7 + y, "a stored function was called with other arguments");
    c.outcome(call); }); }
