// BUILD: seq lib=bss_util_c.c
// Integer, bit and floating point helpers of bss_util.h: whole domains of 8 and 16 bit operands, boundary values of wider ones, against exact arithmetic.
#include "mc.h"
#include "bss-util/bss_util.h"
#include <cfloat>
using namespace bss;
typedef __int128 I; typedef unsigned __int128 U;
static std::string show(I x) { if(!x) return "0"; bool neg = x < 0; U u = neg ? -(U)x : (U)x; std::string s; while(u) { s += char('0' + (int)(u % 10)); u /= 10; } if(neg) s += '-'; std::reverse(s.begin(), s.end()); return s; }
#define S(x) show((I)(x)).c_str()
template<class T> static const char* tn() { static std::string s = std::string(std::is_signed<T>::value ? "int" : "uint") + std::to_string(sizeof(T) * 8); return s.c_str(); }
// all values of a small type, or the neighbourhood of every power of two (both signs) and some patterns of a wide one
template<class T> static const std::vector<T>& vals(bool all16 = true) {
  static std::vector<T> v[2]; std::vector<T>& r = v[all16]; if(!r.empty()) return r;
  if(sizeof(T) == 1 || (sizeof(T) == 2 && all16)) for(I i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) r.push_back((T)i);
  else {
    std::set<T> s; for(int k = 0; k < (int)sizeof(T) * 8; ++k) for(int d = -2; d <= 2; ++d) { U p = (U)1 << k; s.insert((T)(p + d)); s.insert((T)(-p + d)); }
    for(U p : { (U)0x5555555555555555ull, (U)0xAAAAAAAAAAAAAAAAull, (U)0x0123456789ABCDEFull, (U)0xFEDCBA9876543210ull, (U)1000000007ull, (U)10, (U)100, (U)999999999999ull }) s.insert((T)p);
    r.assign(s.begin(), s.end());
  }
  return r;
}
template<class T> static const std::vector<T>& few() { static std::vector<T> r; if(r.empty()) { if(sizeof(T) == 1) r = vals<T>(); else { auto& a = vals<T>(false); for(size_t i = 0; i < a.size(); ++i) r.push_back(a[i]); } } return r; }
template<class T> static int width() { return (int)sizeof(T) * 8; }
template<class T> static I wrap(I x) { return (I)(T)x; }
static I floordiv(I a, I b) { I q = a / b; if((a % b) && ((a < 0) != (b < 0))) --q; return q; }
static int popc(U x) { int n = 0; for(; x; x &= x - 1) ++n; return n; }
static int log2f_(U x) { int r = 0; while(x >>= 1) ++r; return r; }
static U isqrt(U x) { U r = 0; for(int b = 33; b-- > 0; ) { U t = r | ((U)1 << b); if(t * t <= x) r = t; } return r; }
template<class... T> struct Types {};
template<class F, class... T> static void each(Types<T...>, F f) { (f((T*)0), ...); }
typedef Types<int8_t, int16_t, int32_t, int64_t> Signed; typedef Types<uint8_t, uint16_t, uint32_t, uint64_t> Unsigned; typedef Types<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t> All;
#define TYPE(p) typename std::remove_pointer<decltype(p)>::type

MC_CONFIG("one operand, integers") {
  int n = 0; each(All(), [&](auto* p) { typedef TYPE(p) T; n += 1; });
  mc::enumerate(c, [&](mc::Choose& ch) {
    int k = ch(8), i = 0; each(All(), [&](auto* p) { typedef TYPE(p) T; typedef typename std::make_unsigned<T>::type UT;
      if(i++ != k) return; auto& v = vals<T>(); T x = v[ch((int)v.size())]; const int w = width<T>();
      MC_CHECK(BitCount<T>(x) == popc((UT)x), "BitCount<%s>(%s) is %d, expected %d", tn<T>(), S(x), (int)BitCount<T>(x), popc((UT)x));
      MC_CHECK((I)(UT)bssAbs<T>(x) == (x < 0 ? -(I)x : (I)x), "bssAbs<%s>(%s) is %s", tn<T>(), S(x), S(bssAbs<T>(x)));
      MC_CHECK(tsignzero<T>(x) == (x > 0) - (x < 0), "tsignzero<%s>(%s)", tn<T>(), S(x));
      { T f = x; FlipEndian(&f); UT want = 0; for(int b = 0; b < (int)sizeof(T); ++b) want = (UT)((U)want | ((U)(((U)(UT)x >> (8 * b)) & 255) << (8 * (sizeof(T) - 1 - b)))); MC_CHECK((UT)f == want, "FlipEndian<%s>(%s)", tn<T>(), S(x)); }
      for(int b = 0; b < w; ++b) {
        T m = GetBitMask<T>(b); MC_CHECK((UT)m == (UT)((U)1 << b), "GetBitMask<%s>(%d) is %s", tn<T>(), b, S((UT)m));
        for(int on = 0; on < 2; ++on) { T r = bssSetBit<T>(x, m, on); U e = (U)(UT)x & ~((U)1 << b); if(on) e |= (U)1 << b; MC_CHECK((UT)r == (UT)e, "bssSetBit<%s>(%s, bit %d, %d) is %s", tn<T>(), S(x), b, on, S((UT)r)); }
        T a[3] = { (T)~x, x, (T)~x }; MC_CHECK(bssGetBit<T>(a, w + b) == (bool)(((U)(UT)x >> b) & 1) && bssGetBit<T>(a, b) == !(((U)(UT)x >> b) & 1), "bssGetBit<%s> of bit %d of %s", tn<T>(), b, S((UT)x));
      }
      if constexpr(std::is_signed<T>::value) MC_CHECK(tsign<T>(x) == (x < 0 ? -1 : 1), "tsign<%s>(%s)", tn<T>(), S(x));
      else {
        for(int neg = 0; neg < 2; ++neg) { I r = bssNegate<T>(x, (char)neg); MC_CHECK(r == wrap<typename std::make_signed<T>::type>(neg ? -(I)x : (I)x), "bssNegate<%s>(%s, %d) is %s", tn<T>(), S(x), neg, S(r)); }
        T q = IntFastSqrt<T>(x); MC_CHECK((U)q == isqrt(x), "IntFastSqrt<%s>(%s) is %s, expected %s", tn<T>(), S(x), S(q), S(isqrt(x)));
        if(x && (U)x <= ((U)1 << (w - 1))) { U e = 1; while(e < x) e *= 2; T r = NextPow2(x); MC_CHECK(r == e, "NextPow2<%s>(%s) is %s, expected %s", tn<T>(), S(x), S(r), S(e)); }
        int l = x ? log2f_(x) : 0; if constexpr(sizeof(T) >= 4) MC_CHECK((int)bssLog2(x) == l, "bssLog2<%s>(%s) is %d, expected %d", tn<T>(), S(x), (int)bssLog2(x), l);
        if(w == 32 && popc(x) == 1) MC_CHECK((int)bssLog2_p2((uint32_t)x) == l, "bssLog2_p2(%s)", S(x));
        MC_CHECK((bool)ISPOW2(x) == (popc(x) == 1), "ISPOW2(%s)", S(x));
        for(T t : { (T)1, (T)3, (T)7, (T)15, (T)63 }) if((U)x + t <= std::numeric_limits<T>::max()) { U r = (T)T_NEXTMULTIPLE(x, t); U e = ((U)x + t) / (t + 1) * (t + 1); MC_CHECK(r == e, "T_NEXTMULTIPLE<%s>(%s, %s) is %s", tn<T>(), S(x), S(t), S(r)); }
      }
      c.outcome((uint64_t)x * 8 + k);
    });
  });
}
template<int Q> static void all32(mc::Ctx& c) { mc::enumerate(c, [&](mc::Choose& ch) { // every 32 bit number
    uint32_t hi = (uint32_t)ch(16384) + Q * 16384; for(uint32_t l = 0; l < 65536; ++l) { uint32_t x = (hi << 16) | l; int l2 = x ? 31 - __builtin_clz(x) : 0; uint32_t q = IntFastSqrt<uint32_t>(x);
      if(BitCount<uint32_t>(x) != __builtin_popcount(x) || BitCount<int32_t>((int32_t)x) != __builtin_popcount(x)) mc::fail("BitCount(%u)", x); if((int)bssLog2(x) != l2) mc::fail("bssLog2(%u) is %d", x, (int)bssLog2(x)); if((uint64_t)q * q > x || (uint64_t)(q + 1) * (q + 1) <= x) mc::fail("IntFastSqrt(%u) is %u", x, q);
      if(x && x <= 0x80000000u && NextPow2(x) != (l2 < 31 && (x & (x - 1)) ? 2u << l2 : 1u << l2)) mc::fail("NextPow2(%u) is %u", x, NextPow2(x)); uint32_t f = x; FlipEndian(&f); if(f != __builtin_bswap32(x)) mc::fail("FlipEndian(%u)", x); }
    c.outcome(hi); }); }
MC_CONFIG_T("all 32 bit numbers, first quarter") { all32<0>(c); }
MC_CONFIG_T("all 32 bit numbers, second quarter") { all32<1>(c); }
MC_CONFIG_T("all 32 bit numbers, third quarter") { all32<2>(c); }
MC_CONFIG_T("all 32 bit numbers, last quarter") { all32<3>(c); }
MC_CONFIG("two operands, integers") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int k = ch(8), i = 0; each(All(), [&](auto* p) { typedef TYPE(p) T; typedef typename std::make_unsigned<T>::type UT;
      if(i++ != k) return; auto& v = few<T>(); auto& xs = vals<T>(); T x = xs[ch((int)xs.size())]; const int w = width<T>();
      for(T y : v) {
        if(y > 0) { I r = IntDiv<T, T>(x, y); MC_CHECK(r == floordiv(x, y), "IntDiv<%s>(%s, %s) is %s, expected %s", tn<T>(), S(x), S(y), S(r), S(floordiv(x, y))); }
        if constexpr(std::is_signed<T>::value) if(y > 0) { I r = bssMod<T>(x, y); MC_CHECK(r == (I)x - floordiv(x, y) * y, "bssMod<%s>(%s, %s) is %s", tn<T>(), S(x), S(y), S(r)); }
        for(int s : { 0, 1, w / 2 - 1, w / 2, w - 1 }) {
          I full = (I)x * (I)y; if(!std::is_signed<T>::value) { U f = (U)x * (U)y; full = (I)(f >> s); } else full >>= s; // the 64 bit product fits
          if(w < 64 || true) { T r = bssMultiplyExtract<T>(x, y, (T)s); MC_CHECK(r == (T)full, "bssMultiplyExtract<%s>(%s, %s, %d) is %s, expected %s", tn<T>(), S(x), S(y), s, S(r), S((T)full)); }
          if(w == 64) { T r = bss::internal::_bssmultiplyextract<T>(x, y, (T)s); MC_CHECK(r == (T)full, "_bssmultiplyextract<%s>(%s, %s, %d) is %s, expected %s", tn<T>(), S(x), S(y), s, S(r), S((T)full)); }
        }
        if(w == 64) for(int s : { 64, 65, 127 }) { U f = std::is_signed<T>::value ? (U)((I)x * (I)y) : (U)x * (U)y; I full = std::is_signed<T>::value ? (I)f >> s : (I)(f >> s); T r = bss::internal::_bssmultiplyextract<T>(x, y, (T)s); MC_CHECK(r == (T)full, "_bssmultiplyextract<%s>(%s, %s, %d) is %s, expected %s", tn<T>(), S(x), S(y), s, S(r), S((T)full)); }
      }
      c.outcome((uint64_t)x * 8 + k);
    });
  });
}
MC_CONFIG("bit ranges") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int k = ch(4), i = 0; each(Unsigned(), [&](auto* p) { typedef TYPE(p) T; if(i++ != k) return; const int w = width<T>(); int low = ch(2 * w - 1) - (w - 1);
      for(int high = low; high < w && high - low < w; ++high) { U e = 0; for(int b = low; b <= high; ++b) e |= (U)1 << ((b + w) % w); T r = GetBitMask<T>(low, high); MC_CHECK(r == (T)e, "GetBitMask<%s>(%d, %d) is %llx, expected %llx", tn<T>(), low, high, (unsigned long long)r, (unsigned long long)e); c.outcome((uint64_t)e); }
    });
  });
}
template<int B> static void limits(mc::Ctx& c) {
  typedef BitLimit<B> L; U um = ((U)1 << B) - 1; I sm = -((I)1 << (B - 1)), sx = ((I)1 << (B - 1)) - 1;
  MC_CHECK((U)L::UNSIGNED_MAX == um && L::UNSIGNED_MIN == 0, "BitLimit<%d>::UNSIGNED_MAX is %s", B, S(L::UNSIGNED_MAX));
  MC_CHECK((I)L::SIGNED_MIN == sm, "BitLimit<%d>::SIGNED_MIN is %s, expected %s", B, S(L::SIGNED_MIN), S(sm)); MC_CHECK((I)L::SIGNED_MAX == sx, "BitLimit<%d>::SIGNED_MAX is %s, expected %s", B, S(L::SIGNED_MAX), S(sx));
  MC_CHECK(sizeof(typename L::SIGNED) * 8 >= B && (B <= 8 || sizeof(typename L::SIGNED) * 4 < B), "BitLimit<%d> picks a type of %zu bytes", B, sizeof(typename L::SIGNED)); c.outcome(B);
  if constexpr(B < 64) limits<B + 1>(c);
}
MC_CONFIG("bit limits") { mc::enumerate(c, [&](mc::Choose& ch) { limits<1>(c); }); }
template<class T, int K> static void shifts(T x) {
  const int w = width<T>(); U m = w == 64 ? (U)~0ull : ((U)1 << w) - 1;
  MC_CHECK((SafeShift<T, K>(x)) == (T)(((U)x << K) & m), "SafeShift<%s, %d>(%s)", tn<T>(), K, S(x)); MC_CHECK((SafeShift<T, -K>(x)) == (T)(x >> K), "SafeShift<%s, -%d>(%s)", tn<T>(), K, S(x)); if constexpr(K > 0) shifts<T, K - 1>(x);
}
MC_CONFIG("shifts") { mc::enumerate(c, [&](mc::Choose& ch) { int k = ch(4), i = 0; each(Unsigned(), [&](auto* p) { typedef TYPE(p) T; if(i++ != k) return; auto& v = few<T>(); T x = v[ch((int)v.size())]; shifts<T, (int)sizeof(T) * 8 - 1>(x); c.outcome((uint64_t)x * 4 + k); }); }); }
MC_CONFIG("endianness of memory blocks") {
  mc::enumerate(c, [&](mc::Choose& ch) { int n = ch(18); uint8_t b[20]; for(int i = 0; i < 20; ++i) b[i] = (uint8_t)(i * 7 + 1); FlipEndian(b + 1, (uint8_t)n); MC_CHECK(b[0] == 1 && b[n + 1] == (uint8_t)((n + 1) * 7 + 1), "FlipEndian of %d bytes writes outside", n); for(int i = 0; i < n; ++i) MC_CHECK(b[1 + i] == (uint8_t)((n - i) * 7 + 1), "FlipEndian of %d bytes", n); c.outcome(n); });
}
static bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
MC_CONFIG("calendar") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int from = -1200 + 400 * ch(11); static const int md[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int64_t day = 0; bool first = true; // day numbers must be consecutive through 400 years, wherever they start
    MC_CHECK(DaysFromCivil<int64_t>(1970, 1, 1) == 0 && DaysFromCivil<int>(2000, 3, 1) == 11017, "DaysFromCivil of the epoch");
    for(int y = from; y < from + 401; ++y) for(int m = 0; m < 12; ++m) for(int d = 1; d <= md[m] + (m == 1 && leap(y)); ++d) {
      int64_t x = DaysFromCivil<int64_t>(y, m + 1, d); if(!first) ++day; else { day = x; first = false; } MC_CHECK(x == day && DaysFromCivil<int>(y, m + 1, d) == day, "DaysFromCivil(%d, %d, %d) is %lld, the day after the previous one is %lld", y, m + 1, d, (long long)x, (long long)day);
    }
    c.outcome((uint64_t)day);
  });
}
MC_CONFIG("hashes") { // FNV-1a of every string of up to three bytes over an alphabet with high bytes
  static const char al[] = { 'a', 'Z', ' ', 1, 127 }; mc::enumerate(c, [&](mc::Choose& ch) {
    std::string s; int n = ch(5); for(int i = 0; i < n; ++i) s += ch.of(al); uint32_t h = 0x811c9dc5; uint64_t g = 0xcbf29ce484222325ull; for(char x : s) { h = (h ^ (uint8_t)x) * 0x1000193u; g = (g ^ (uint8_t)x) * 0x100000001b3ull; }
    MC_CHECK(hash_fnv1a(s.c_str()) == h, "hash_fnv1a(%s)", s.c_str()); MC_CHECK(hash64_fnv1a(s.c_str()) == g, "hash64_fnv1a(%s) is %llx, FNV-1a is %llx", s.c_str(), (unsigned long long)hash64_fnv1a(s.c_str()), (unsigned long long)g); c.outcome(g);
  });
}
template<class F, class B> static B bits(F f) { B b; memcpy(&b, &f, sizeof(f)); return b; }
template<class F, class B> static F real(B b) { F f; memcpy(&f, &b, sizeof(f)); return f; }
template<class F, class B> static std::vector<F> reals() {
  std::vector<F> r; int w = (int)sizeof(F) * 8, man = std::numeric_limits<F>::digits - 1; B inf = bits<F, B>(std::numeric_limits<F>::infinity());
  std::set<B> s; for(B e = 0; e <= inf; e += (((B)1) << man) * (w == 32 ? 9 : 73)) for(int d = -3; d <= 3; ++d) s.insert(e + d); for(int d = -3; d <= 3; ++d) { s.insert(inf + d); for(F k : { (F)1, (F)2, (F)0.5, std::numeric_limits<F>::min(), std::numeric_limits<F>::epsilon(), (F)16777216, (F)1e10 }) s.insert(bits<F, B>(k) + d); }
  for(int m = 0; m < man; ++m) s.insert(bits<F, B>(1) + ((B)1 << m));
  for(B b : s) if(b <= inf) { r.push_back(real<F, B>(b)); r.push_back(-real<F, B>(b)); }
  return r;
}
template<class F, class B> static void comparisons(mc::Ctx& c) {
  static std::vector<F> v = reals<F, B>(); typedef typename std::make_signed<B>::type SB; const B sign = (B)1 << (sizeof(B) * 8 - 1);
  mc::enumerate(c, [&](mc::Choose& ch) {
    F a = v[ch((int)v.size())]; auto ord = [&](F f) { B b = bits<F, B>(f); return b & sign ? -(I)(b & ~sign) : (I)b; };
    MC_CHECK(fsign(a) == (std::signbit(a) ? -1 : 1), "fsign(%g)", (double)a);
    for(F e : { std::numeric_limits<F>::epsilon(), (F)0.5, (F)0, (F)1 }) MC_CHECK(fSmall(a, e) == (std::fabs(a) <= e), "fSmall(%g, %g)", (double)a, (double)e); MC_CHECK(fSmall(a) == (std::fabs(a) <= std::numeric_limits<F>::epsilon()), "fSmall(%g) with the default tolerance", (double)a);
    for(F b : v) {
      I d = ord(a) - ord(b); if(d < 0) d = -d; 
      for(SB m : { (SB)0, (SB)1, (SB)2, (SB)5, (SB)100 }) MC_CHECK(fCompare(a, b, m) == (d <= m), "fCompare(%a, %a, %s) is %d, but they are %s representable steps apart", (double)a, (double)b, S(m), (int)fCompare(a, b, m), S(d));
      MC_CHECK(fCompare(a, b) == (d <= 1), "fCompare(%a, %a)", (double)a, (double)b);
      bool e = a == 0 ? std::fabs(b) <= std::numeric_limits<F>::epsilon() : b == 0 ? std::fabs(a) <= std::numeric_limits<F>::epsilon() : d <= 1; MC_CHECK(fCompareSmall(a, b) == e, "fCompareSmall(%a, %a) is %d", (double)a, (double)b, (int)fCompareSmall(a, b));
    }
    c.outcome((uint64_t)bits<F, B>(a));
  });
}
MC_CONFIG("float comparison") { comparisons<float, uint32_t>(c); }
MC_CONFIG("double comparison") { comparisons<double, uint64_t>(c); }
MC_CONFIG("rounding") { // every multiple of 1/8 with up to 16 bits, and the neighbourhood of the ends of the range
  mc::enumerate(c, [&](mc::Choose& ch) {
    int hi = ch(512); for(int l = 0; l < 2048; ++l) { double x = ((hi - 256) * 2048 + l) / 8.0; int fl = (int)std::floor(x); double fr = x - fl; int e = fr < 0.5 ? fl : fr > 0.5 ? fl + 1 : fl + (fl & 1);
      MC_CHECK(fFastRound(x) == e && fFastRound((float)x) == e, "fFastRound(%g) is %d and %d, expected %d", x, fFastRound(x), fFastRound((float)x), e); MC_CHECK(fFastTruncate(x) == (int)x && fFastTruncate((float)x) == (int)x, "fFastTruncate(%g)", x); }
    for(double x : { 2147483646.0, 2147483646.5, 2147483647.0, -2147483648.0, -2147483647.5 }) MC_CHECK(fFastTruncate(x) == (int)x, "fFastTruncate(%.1f) is %d", x, fFastTruncate(x)); c.outcome(hi);
  });
}
MC_CONFIG("square roots of reals") { // every mantissa of a float at exponents of both parities, on the whole range
  mc::enumerate(c, [&](mc::Choose& ch) {
    int blk = ch(256); static const int ex[] = { -100, -51, -1, 0, 1, 30, 127 }; for(uint32_t m = 0; m < (1u << 15); ++m) for(int e : { 0, 1, c.thorough ? -51 : 0, c.thorough ? 100 : 1 }) {
      float f = real<float, uint32_t>(((uint32_t)(127 + e) << 23) | (uint32_t)(blk << 15) | m); float r = FastSqrt<float>(f); double t = std::sqrt((double)f); if(std::fabs(r - t) > t * 1e-5) mc::fail("FastSqrt(%af) is %g, not within 1e-5 of %g", (double)f, (double)r, t); 
      if(!(m & 63)) { double g = f, q = FastSqrt<double>(g); if(std::fabs(q - t) > t * 1e-10) mc::fail("FastSqrt(%a) is %.17g, not within 1e-10 of %.17g", g, q, t); } }
    for(int e : ex) { double g = std::ldexp(1 + blk / 256.0, e), q = FastSqrt<double>(g), t = std::sqrt(g); float fr = FastSqrt<float>((float)g); MC_CHECK(std::fabs(q - t) <= t * 1e-10 && std::fabs(fr - t) <= t * 1e-5, "FastSqrt(%a) is %.17g and %.9g", g, q, (double)fr); }
    c.outcome(blk);
  });
}
MC_CONFIG("angles, averages and interpolation") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int what = ch(4);
    if(what == 0) { int a = ch(65) - 32, b = ch(65) - 32; double u = PI / 8, A = a * u, B = b * u; int d = ((b - a) % 16 + 16) % 16, e = std::min(d, 16 - d); // angles in sixteenths of a turn
      MC_CHECK(std::fabs(AngleDist<double>(A, B) - e * u) < 1e-9 && std::fabs(AngleDist<float>((float)A, (float)B) - e * u) < 1e-4, "AngleDist(%d/8 pi, %d/8 pi) is %g", a, b, AngleDist<double>(A, B));
      double s = AngleDistSigned<double>(A, B), w = (d > 8 ? d - 16 : d) * u; MC_CHECK(d == 8 ? std::fabs(std::fabs(s) - PI) < 1e-9 : std::fabs(s - w) < 1e-9, "AngleDistSigned(%d/8 pi, %d/8 pi) is %g, expected %g", a, b, s, w); c.outcome(e); }
    else if(what == 1) { int n = ch(6) + 1; double avg = 0, var = 0, mean = 0, av2 = 0, sum = 0; std::vector<double> x; for(int i = 0; i < n; ++i) { double v = std::vector<double>{ 0, 1, -3, 8 }[ch(4)]; x.push_back(v); sum += v; }
      int k = 0; for(double v : x) { ++k; avg = bssAvg<double, int>(avg, v, k); bssVariance<double, int>(var, av2, v, k); } mean = sum / n; double ss = 0; for(double v : x) ss += (v - mean) * (v - mean);
      MC_CHECK(std::fabs(avg - mean) < 1e-9, "bssAvg of %d values gives %g, their mean is %g", n, avg, mean); MC_CHECK(std::fabs(av2 - mean) < 1e-9 && std::fabs(var - ss) < 1e-9, "bssVariance of %d values gives mean %g and sum of squares %g, expected %g and %g", n, av2, var, mean, ss); c.outcome((uint64_t)(ss * 1000)); }
    else if(what == 2) { int a = ch(9) - 4, b = ch(9) - 4, t = ch(9); double r = lerp<double>(a, b, t / 8.0); MC_CHECK(r == a + (b - a) * t / 8.0, "lerp(%d, %d, %d/8) is %g", a, b, t, r); c.outcome((uint64_t)(int)(r * 8)); }
    else { int a[4]; for(int& x : a) x = (ch(5) - 2) * 3; int64_t d2 = (int64_t)(a[0] - a[2]) * (a[0] - a[2]) + (int64_t)(a[1] - a[3]) * (a[1] - a[3]); MC_CHECK(DistSqr<int>(a[0], a[1], a[2], a[3]) == d2 && Dist<int>(a[0], a[1], a[2], a[3]) == (int)isqrt(d2), "Dist(%d,%d,%d,%d) is %d", a[0], a[1], a[2], a[3], Dist<int>(a[0], a[1], a[2], a[3]));
      MC_CHECK(std::fabs(Dist<double>(a[0], a[1], a[2], a[3]) - std::sqrt((double)d2)) < 1e-9, "Dist on doubles"); c.outcome((uint64_t)d2); }
  });
}
MC_CONFIG("modulo of reals") { mc::enumerate(c, [&](mc::Choose& ch) { int x = ch(129) - 64, m = ch(16) + 1; double r = bssFMod<double>(x / 4.0, m / 4.0), e = (x - floordiv(x, m) * m) / 4.0; MC_CHECK(std::fabs(r - e) < 1e-12, "bssFMod(%g, %g) is %g, expected %g", x / 4.0, m / 4.0, r, e); c.outcome((uint64_t)(e * 4)); }); }
