// BUILD: seq
// Exact number types: Rational (all small fractions), Fixed (all small bit patterns, several formats), Dual (all small expressions, against jets).
#include "mc.h"
#include "bss-util/Rational.h"
#include "bss-util/FixedPt.h"
#include "bss-util/Dual.h"
#include <cmath>
using namespace bss;
typedef __int128 I;
static int64_t gcd(int64_t a, int64_t b) { a = std::abs(a); b = std::abs(b); while(b) { int64_t t = a % b; a = b; b = t; } return a; }
struct Q { int64_t n, d; Q(int64_t a = 0, int64_t b = 1) : n(a), d(b) { if(d < 0) { n = -n; d = -d; } int64_t g = gcd(n, d); if(g) { n /= g; d /= g; } } };
static bool operator==(const Q& a, const Q& b) { return a.n == b.n && a.d == b.d; }
static std::string sh(const Q& q) { return mc::fmt("%lld/%lld", (long long)q.n, (long long)q.d); }
template<class T> static std::string sh(const Rational<T>& q) { return mc::fmt("%lld/%lld", (long long)q.N(), (long long)q.D()); }
template<class T> static void same(const Rational<T>& r, const Q& q, const char* what, const std::string& a, const std::string& b) { MC_CHECK(r.N() == q.n && r.D() == q.d, "%s %s %s is %s, expected %s", a.c_str(), what, b.c_str(), sh(r).c_str(), sh(q).c_str()); }
template<class T> static void rational(mc::Ctx& c, int K) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    typedef Rational<T> R; int an = ch(2 * K + 1) - K, ad = ch(2 * K) - K; if(ad >= 0) ++ad; R a((T)an, (T)ad); Q x(an, ad); std::string sa = mc::fmt("(%d/%d)", an, ad);
    same(a, x, "simplified", sa, ""); { R s; MC_CHECK(s.N() == 0 && s.D() == 1, "the default value is not zero"); s.SetFraction((T)an, (T)ad); same(s, x, "by SetFraction", sa, ""); R i((T)an); same(i, Q(an, 1), "from an integer", sa, ""); s = (T)ad; same(s, Q(ad, 1), "assigned an integer", sa, ""); }
    MC_CHECK((double)a == (double)x.n / x.d && (float)a == (float)((double)x.n / x.d) && a.Truncate() == x.n / x.d && !a == (x.n == 0), "conversions of %s", sa.c_str()); same(a.Abs(), Q(std::abs(x.n), x.d), "absolute", sa, "");
    { R s(a); ++s; same(s, Q(x.n + x.d, x.d), "incremented", sa, ""); --s; --s; same(s, Q(x.n - x.d, x.d), "decremented", sa, ""); }
    for(int bn = -K; bn <= K; ++bn) for(int bd = -K; bd <= K; ++bd) {
      if(!bd) continue; R b((T)bn, (T)bd); Q y(bn, bd); std::string sb = mc::fmt("(%d/%d)", bn, bd);
      Q s(x.n * y.d + y.n * x.d, x.d * y.d), d(x.n * y.d - y.n * x.d, x.d * y.d), p(x.n * y.n, x.d * y.d); same(a + b, s, "+", sa, sb); same(a - b, d, "-", sa, sb); same(a * b, p, "*", sa, sb); R t(a); t += b; same(t, s, "+=", sa, sb); t = a; t -= b; same(t, d, "-=", sa, sb); t = a; t *= b; same(t, p, "*=", sa, sb);
      if(bn) { Q q(x.n * y.d, x.d * y.n); same(a / b, q, "/", sa, sb); t = a; t /= b; same(t, q, "/=", sa, sb); }
      int64_t cmp = x.n * y.d - y.n * x.d; MC_CHECK((a < b) == (cmp < 0) && (a > b) == (cmp > 0) && (a <= b) == (cmp <= 0) && (a >= b) == (cmp >= 0) && (a == b) == !cmp && (a != b) == !!cmp, "%s compared with %s", sa.c_str(), sb.c_str());
    }
    for(int i = -K; i <= K; ++i) {
      T k = (T)i; std::string sb = mc::fmt("%d", i); same(a + k, Q(x.n + i * x.d, x.d), "+", sa, sb); same(a - k, Q(x.n - i * x.d, x.d), "-", sa, sb); same(a * k, Q(x.n * i, x.d), "*", sa, sb); same(k + a, Q(x.n + i * x.d, x.d), "added to", sa, sb); same(k - a, Q(i * x.d - x.n, x.d), "subtracted from", sa, sb); same(k * a, Q(x.n * i, x.d), "multiplying", sa, sb);
      R t(a); t += k; same(t, Q(x.n + i * x.d, x.d), "+=", sa, sb); t = a; t -= k; same(t, Q(x.n - i * x.d, x.d), "-=", sa, sb); t = a; t *= k; same(t, Q(x.n * i, x.d), "*=", sa, sb); if(i) { same(a / k, Q(x.n, x.d * i), "/", sa, sb); t = a; t /= k; same(t, Q(x.n, x.d * i), "/=", sa, sb); } if(x.n) same(k / a, Q(i * x.d, x.n), "dividing", sa, sb);
      int64_t cmp = x.n - i * x.d; MC_CHECK((a < k) == (cmp < 0) && (a > k) == (cmp > 0) && (a <= k) == (cmp <= 0) && (a >= k) == (cmp >= 0) && (a == k) == !cmp && (a != k) == !!cmp, "%s compared with the integer %d", sa.c_str(), i);
      MC_CHECK((k < a) == (cmp > 0) && (k > a) == (cmp < 0) && (k <= a) == (cmp >= 0) && (k >= a) == (cmp <= 0) && (k == a) == !cmp && (k != a) == !!cmp, "the integer %d compared with %s", i, sa.c_str());
    }
    { R t(a); t += t; same(t, Q(2 * x.n, x.d), "added to itself", sa, ""); t = a; t -= t; same(t, Q(0, 1), "subtracted from itself", sa, ""); t = a; t *= t; same(t, Q(x.n * x.n, x.d * x.d), "multiplied by itself", sa, ""); if(x.n) { t = a; t /= t; same(t, Q(1, 1), "divided by itself", sa, ""); } }
    c.outcome(x.n * 1000 + x.d);
  });
}
MC_CONFIG("Rational<int>") { rational<int>(c, c.pick(16, 30)); }
MC_CONFIG("Rational<int64>") { rational<int64_t>(c, c.pick(9, 16)); }
MC_CONFIG("Rational<int>, large terms") { // near the limits of the type, where only a simplifying order of operations avoids overflow
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const int v[] = { 1 << 30, 3 << 28, 65535 * 2, 46341, 2147483647, 1 << 16, 3, 1 }; int an = ch.of(v), ad = ch.of(v), bn = ch.of(v), bd = ch.of(v); if(ch(2)) an = -an; Q x(an, ad), y(bn, bd); Rational<int> a(an, ad), b(bn, bd); auto fits = [](I n) { return n <= 2147483647 && n >= -2147483647; }; std::string sa = sh(x), sb = sh(y);
    same(a, x, "simplified", sa, ""); Q p(Q(x.n, y.d).n * Q(y.n, x.d).n, Q(x.n, y.d).d * Q(y.n, x.d).d), q(Q(x.n, y.n).n * Q(y.d, x.d).n, Q(x.n, y.n).d * Q(y.d, x.d).d); if(fits(p.n) && fits(p.d)) same(a * b, p, "*", sa, sb); if(fits(q.n) && fits(q.d)) same(a / b, q, "/", sa, sb);
    if(fits((I)x.n + y.n) && x.d == y.d) same(a + b, Q(x.n + y.n, x.d), "+", sa, sb); c.outcome(p.n * 31 + p.d);
  });
}

// Fixed: D fraction bits in T; all operands from a set of bit patterns
template<uint8_t D, class T> static Fixed<D, T> raw(T b) { return Fixed<D, T>(bss::internal::__FixedBits<T>{ b }); }
template<class T> static bool fit(I x) { return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max(); }
static I flr(I a, int s) { return s >= 0 ? a * ((I)1 << s) : (a >> -s); }
template<class T, uint8_t D> static std::vector<T> patterns() { std::set<T> s; for(int k = 0; k < 12; ++k) { s.insert((T)k); s.insert((T)-k); } for(int k = 2; k < (int)sizeof(T) * 8 - 2; k += (k < D + 6 ? 1 : 5)) for(int d = -1; d <= 1; ++d) { s.insert((T)(((T)1 << k) + d)); s.insert((T)-(((T)1 << k) + d)); } s.insert((T)(((T)1 << D) / 3)); s.insert((T)(((T)7 << D) / 5)); s.insert((T)-(((T)22 << D) / 7)); return std::vector<T>(s.begin(), s.end()); }
#define FX(r, e, ...) do { if(fit<T>(e)) { T got_ = (r).Bits(); if(got_ != (T)(e)) mc::fail("%s (bits %lld, %lld; formats %d, %d): bits %lld, expected %lld", mc::fmt(__VA_ARGS__).c_str(), (long long)x, (long long)y, (int)D, (int)B, (long long)got_, (long long)(e)); } } while(0)
template<uint8_t D, uint8_t B, class T> static void fixed(mc::Ctx& c, int all = 0) {
  static std::vector<T> P = patterns<T, D>(), R = patterns<T, B>(); if(all) { std::set<T> s(P.begin(), P.end()); for(int k = -all; k <= all; ++k) s.insert((T)k); P.assign(s.begin(), s.end()); }
  mc::enumerate(c, [&](mc::Choose& ch) {
    T x = P[ch((int)P.size())]; T y = 0; auto a = raw<D, T>(x); MC_CHECK(a.Bits() == x && (raw<D, T>(x) == a), "bits");
    MC_CHECK((T)a == (T)(x >> D), "the integral part of bits %lld", (long long)x); double want = std::ldexp((double)x, -D); if(std::abs((I)x < 0 ? -(double)x : (double)x) < 9007199254740992.0) { MC_CHECK((double)a == want, "as double: bits %lld are %.17g, expected %.17g", (long long)x, (double)a, want); MC_CHECK(std::fabs((float)a - want) <= std::fabs(want) * 3e-7 + std::ldexp(1.0, D < 22 ? -D : -22), "as float: bits %lld are %g, expected %g", (long long)x, (float)a, want); if(D <= 40) FX((Fixed<D, T>(want)), (I)x, "from double"); if(std::fabs(x) < 16777216) FX((Fixed<D, T>((float)want)), (I)x, "from float"); }
    if(std::fabs((double)x) < (1 << 20)) FX((Fixed<D, T>((T)x)), (I)x << D, "from an integer"); FX(-a, -(I)x, "negation");
    for(int s = 0; s < 5; ++s) { y = s; FX(a >> (T)s, (I)x >> s, "shifted right"); if(x >= 0) FX(a << (T)s, (I)x << s, "shifted left"); auto t = a; t >>= (T)s; FX(t, (I)x >> s, ">>="); t = a; if(x >= 0) { t <<= (T)s; FX(t, (I)x << s, "<<="); } }
    { y = 0; Fixed<B, T> conv(a); FX(conv, flr(x, B - D), "converted to the other format"); Fixed<B, T> as = raw<B, T>(1); as = a; FX(as, flr(x, B - D), "assigned to the other format"); }
    if(std::fabs((double)x) >= 3 && sizeof(T) == 4) { auto r = a.Reciprocal(); double t = 4294967296.0 / x; MC_CHECK(std::fabs((double)r.Bits() - t) <= 4, "reciprocal of bits %lld has bits %lld, exactly %g", (long long)x, (long long)r.Bits(), t); }
    for(T q : P) { y = q; auto b = raw<D, T>(y); FX(a + b, (I)x + y, "+"); FX(a - b, (I)x - y, "-"); FX(a * b, ((I)x * y) >> D, "*"); if(y) { FX(a % b, (I)x % y, "%%"); if(sizeof(T) == 4) FX(a / b, ((I)x << D) / y, "/"); } auto t = a; if(fit<T>((I)x + y)) { t += b; FX(t, (I)x + y, "+="); } t = a; if(fit<T>((I)x - y)) { t -= b; FX(t, (I)x - y, "-="); } t = a; if(fit<T>(((I)x * y) >> D)) { t *= b; FX(t, ((I)x * y) >> D, "*="); } if(y) { t = a; t %= b; FX(t, (I)x % y, "%%="); if(sizeof(T) == 4) { t = a; t /= b; FX(t, ((I)x << D) / y, "/="); } }
      MC_CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "comparison of bits %lld and %lld", (long long)x, (long long)y); }
    for(T q : R) { y = q; auto b = raw<B, T>(y); I k = flr(y, D - B); if(!fit<T>(k)) k = flr(0, 0), y = 0, b = raw<B, T>(0); I kn = flr(-(I)y, D - B);
      FX(a + b, (I)x + k, "+ other format"); FX(a - b, (I)x + kn, "- other format"); FX(a * b, ((I)x * y) >> B, "* other format"); if(y && sizeof(T) == 4) FX(a / b, ((I)x << B) / y, "/ other format"); auto t = a; if(fit<T>((I)x + k)) { t += b; FX(t, (I)x + k, "+= other format"); } t = a; if(fit<T>((I)x + kn)) { t -= b; FX(t, (I)x + kn, "-= other format"); } t = a; t *= b; FX(t, ((I)x * y) >> B, "*= other format"); if(y && sizeof(T) == 4) { t = a; t /= b; FX(t, ((I)x << B) / y, "/= other format"); }
      if(y && sizeof(T) == 8 && std::fabs((double)x) < 1e9 && std::fabs((double)y) > 64) { double e = std::ldexp((double)x / y, B), g = (double)(a / b).Bits(); if(std::fabs(e) < 4e18) MC_CHECK(std::fabs(g - e) <= 2 + std::fabs(e) * std::fabs((double)y) * 2.2e-19 + std::fabs(e) * 1e-15, "/ (bits %lld, %lld): %g, exactly %g", (long long)x, (long long)y, g, e); } }
    for(double f : { 0.0, 1.0, -0.5, 2.75, -3.25 }) { y = (T)(f * 4); I k = (I)(f * (double)((T)1 << D)); FX(a + f, (I)x + k, "+ double"); FX(a - f, (I)x - k, "- double"); FX(a * f, ((I)x * k) >> D, "* double"); FX(a + (float)f, (I)x + k, "+ float"); FX(a - (float)f, (I)x - k, "- float"); FX(a * (float)f, ((I)x * k) >> D, "* float"); FX(f + a, (I)x + k, "double +"); FX(f - a, k - (I)x, "double -"); FX(f * a, ((I)x * k) >> D, "double *"); FX((float)f + a, (I)x + k, "float +"); FX((float)f - a, k - (I)x, "float -"); FX((float)f * a, ((I)x * k) >> D, "float *");
      auto t = a; if(fit<T>((I)x + k)) { t += f; FX(t, (I)x + k, "+= double"); t = a; t += (float)f; FX(t, (I)x + k, "+= float"); } t = a; if(fit<T>((I)x - k)) { t -= f; FX(t, (I)x - k, "-= double"); t = a; t -= (float)f; FX(t, (I)x - k, "-= float"); } t = a; t *= f; FX(t, ((I)x * k) >> D, "*= double"); t = a; t *= (float)f; FX(t, ((I)x * k) >> D, "*= float");
      if(sizeof(T) == 4) { if(k) { FX(a / f, ((I)x << D) / k, "/ double"); FX(a / (float)f, ((I)x << D) / k, "/ float"); t = a; t /= f; FX(t, ((I)x << D) / k, "/= double"); t = a; t /= (float)f; FX(t, ((I)x << D) / k, "/= float"); } if(x) { FX(f / a, (k << D) / x, "double /"); FX((float)f / a, (k << D) / x, "float /"); } }
      double g = f; g += a; MC_CHECK(g == f + (double)a, "double += fixed"); g = f; g -= a; MC_CHECK(g == f - (double)a, "double -= fixed"); g = f; g *= a; MC_CHECK(g == f * (double)a, "double *= fixed"); float h = (float)f; h += a; MC_CHECK(h == (float)f + (float)a, "float += fixed"); h = (float)f; h -= a; MC_CHECK(h == (float)f - (float)a, "float -= fixed"); h = (float)f; h *= a; MC_CHECK(h == (float)f * (float)a, "float *= fixed"); if(x) { g = f; g /= a; MC_CHECK(g == f / (double)a, "double /= fixed"); h = (float)f; h /= a; if((float)a != 0) MC_CHECK(h == (float)f / (float)a, "float /= fixed"); } }
    c.outcome((uint64_t)x);
  });
}
MC_CONFIG("Fixed<12> and Fixed<16>, 32 bit") { fixed<12, 16, int32_t>(c); }
MC_CONFIG("Fixed<16> and Fixed<12>, 32 bit") { fixed<16, 12, int32_t>(c); }
MC_CONFIG("Fixed<6> and Fixed<9>, 32 bit, all small values") { fixed<6, 9, int32_t>(c, c.pick(700, 4000)); }
MC_CONFIG("Fixed<1> and Fixed<20>, 32 bit") { fixed<1, 20, int32_t>(c); }
MC_CONFIG("Fixed<23> and Fixed<31>, 64 bit") { fixed<23, 31, int64_t>(c); }
MC_CONFIG("Fixed<31> and Fixed<23>, 64 bit") { fixed<31, 23, int64_t>(c); }

// Dual: expressions built from x, constants and the operators; derivatives against truncated Taylor series
enum { ORD = 3 };
struct J { double a[ORD + 1]; }; // Taylor coefficients
static J jc(double v) { J j{}; j.a[0] = v; return j; }
static J mul(const J& x, const J& y) { J r{}; for(int i = 0; i <= ORD; ++i) for(int k = 0; k <= i; ++k) r.a[i] += x.a[k] * y.a[i - k]; return r; }
static J add(const J& x, const J& y, double s) { J r; for(int i = 0; i <= ORD; ++i) r.a[i] = x.a[i] + s * y.a[i]; return r; }
static J quo(const J& x, const J& y) { J r{}; for(int i = 0; i <= ORD; ++i) { double s = x.a[i]; for(int k = 0; k < i; ++k) s -= r.a[k] * y.a[i - k]; r.a[i] = s / y.a[0]; } return r; }
static J expj(const J& x) { J r{}; r.a[0] = std::exp(x.a[0]); for(int i = 1; i <= ORD; ++i) { for(int k = 1; k <= i; ++k) r.a[i] += k * x.a[k] * r.a[i - k]; r.a[i] /= i; } return r; }
static J logj(const J& x) { J r{}; r.a[0] = std::log(x.a[0]); for(int i = 1; i <= ORD; ++i) { double s = i * x.a[i]; for(int k = 1; k < i; ++k) s -= k * r.a[k] * x.a[i - k]; r.a[i] = s / (i * x.a[0]); } return r; }
static void sincos(const J& x, J& s, J& co) { s = J{}; co = J{}; s.a[0] = std::sin(x.a[0]); co.a[0] = std::cos(x.a[0]); for(int i = 1; i <= ORD; ++i) { for(int k = 1; k <= i; ++k) { s.a[i] += k * x.a[k] * co.a[i - k]; co.a[i] -= k * x.a[k] * s.a[i - k]; } s.a[i] /= i; co.a[i] /= i; } }
template<int O> struct E { Dual<double, O> d; J j; std::string n; };
template<int O> static E<O> expr(mc::Choose& ch, int depth, double at) {
  if(!depth) { int k = ch(4); if(k == 0) { J x{}; x.a[0] = at; x.a[1] = 1; return { Dual<double, O>(at, 1), x, "x" }; } double v = k == 1 ? 1 : k == 2 ? 3 : -2; return { Dual<double, O>(v), jc(v), mc::fmt("%g", v) }; }
  int op = ch(13); E<O> l = expr<O>(ch, depth - 1, at); J s, co;
  switch(op) {
  case 0: case 1: case 2: case 3: { E<O> r = expr<O>(ch, depth - 1, at); if(op == 0) return { l.d + r.d, add(l.j, r.j, 1), "(" + l.n + "+" + r.n + ")" }; if(op == 1) return { l.d - r.d, add(l.j, r.j, -1), "(" + l.n + "-" + r.n + ")" }; if(op == 2) return { l.d * r.d, mul(l.j, r.j), "(" + l.n + "*" + r.n + ")" }; if(std::fabs(r.j.a[0]) < 1e-3) return l; return { l.d / r.d, quo(l.j, r.j), "(" + l.n + "/" + r.n + ")" }; }
  case 4: return { -l.d, add(jc(0), l.j, -1), "-" + l.n };
  case 5: sincos(l.j, s, co); return { l.d.sin(), s, "sin " + l.n };
  case 6: sincos(l.j, s, co); return { l.d.cos(), co, "cos " + l.n };
  case 7: if(l.j.a[0] > 5) return l; return { l.d.exp(), expj(l.j), "exp " + l.n };
  case 8: if(l.j.a[0] < 0.01) return l; return { l.d.log(), logj(l.j), "log " + l.n };
  case 9: if(l.j.a[0] < 0.01) return l; { J r = logj(l.j); for(double& v : r.a) v /= std::log(10.0); return { l.d.log10(), r, "log10 " + l.n }; }
  case 10: if(std::fabs(l.j.a[0]) < 1e-3) return l; return { l.d ^ 3.0, mul(l.j, mul(l.j, l.j)), l.n + "^3" };
  case 11: if(std::fabs(l.j.a[0]) < 1e-3) return l; { J r = l.j; double sg = l.j.a[0] < 0 ? -1 : 1; for(double& v : r.a) v *= sg; return { l.d.Abs(), r, "|" + l.n + "|" }; }
  default: { int k = ch(4); if(k == 0) return { l.d + 2.0, add(l.j, jc(2), 1), l.n + "+2" }; if(k == 1) return { 2.0 - l.d, add(jc(2), l.j, -1), "2-" + l.n }; if(k == 2) return { 2.0 * l.d, mul(jc(2), l.j), "2*" + l.n }; if(std::fabs(l.j.a[0]) < 1e-3) return l; return { 2.0 / l.d, quo(jc(2), l.j), "2/" + l.n }; }
  }
}
template<int O> static void dual(mc::Ctx& c, int depth) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    double at = std::vector<double>{ 0.5, -2.0, 3.0 }[ch(3)]; E<O> e = expr<O>(ch, depth, at); double f = 1; for(int k = 0; k <= O; ++k) { if(k) f *= k; double w = e.j.a[k] * f, g = e.d(k), mag = 1 + std::fabs(w); for(int i = 0; i <= ORD; ++i) mag = std::max(mag, std::fabs(e.j.a[i])); if(!std::isfinite(w) || mag > 1e12) continue; MC_CHECK(std::fabs(w - g) <= mag * 1e-7, "derivative %d of %s at %g is %.12g, expected %.12g", k, e.n.c_str(), at, g, w); c.outcome((uint64_t)(int64_t)(g * 64)); }
  });
}
MC_CONFIG("Dual, first derivatives") { dual<1>(c, 2); }
MC_CONFIG("Dual, second derivatives") { dual<2>(c, 2); }
MC_CONFIG("Dual, third derivatives") { dual<3>(c, 2); }
