// BUILD: seq
// Vectors, matrices and SIMD lanes: every small operand against component-wise arithmetic in wide integers / doubles.
#include "mc.h"
#include "bss-util/vector.h"
#include <cmath>
#include <climits>
using namespace bss;
template<class T> static constexpr bool FP = std::is_floating_point_v<T>;
template<class T> static constexpr double EPS = sizeof(T) == 4 ? 2e-4 : 1e-9;
static bool nearly(double a, double b, double eps) { return std::fabs(a - b) <= eps * (1 + std::max(std::fabs(a), std::fabs(b))); }
template<class V> static std::string show(const V& v, int n) { std::string s = "("; for(int i = 0; i < n; ++i) s += mc::fmt("%s%g", i ? "," : "", (double)v[i]); return s + ")"; }
// the component-wise expectation is computed in double; the operands are small, so every sum, difference and product is exact
template<class T> static T div_(double a, double b) { if constexpr(FP<T>) return (T)a / (T)b; else return (T)((int64_t)a / (int64_t)b); }
template<class T, int N> static void vsame(const Vector<T, N>& r, const double (&e)[N], const char* what, const std::string& a, const std::string& b) { for(int i = 0; i < N; ++i) MC_CHECK((double)r.v[i] == e[i], "%s %s %s: component %d is %g, expected %g", a.c_str(), what, b.c_str(), i, (double)r.v[i], e[i]); }
#define EACH(expr) { for(int i = 0; i < N; ++i) e[i] = (expr); }
template<class T, int N> static void swizzles(const Vector<T, N>& a, const std::string& sa) {
#define SW2(n, p, q) { auto r = a.n(); MC_CHECK(r.v[0] == a.v[p] && r.v[1] == a.v[q], "%s." #n, sa.c_str()); }
#define SW3(n, p, q, s) { auto r = a.n(); MC_CHECK(r.v[0] == a.v[p] && r.v[1] == a.v[q] && r.v[2] == a.v[s], "%s." #n, sa.c_str()); }
#define SW4(n, p, q, s, t) { auto r = a.n(); MC_CHECK(r.v[0] == a.v[p] && r.v[1] == a.v[q] && r.v[2] == a.v[s] && r.v[3] == a.v[t], "%s." #n, sa.c_str()); }
  if constexpr(N == 2) { SW2(yx, 1, 0); MC_CHECK(a.x == a.v[0] && a.y == a.v[1], "%s named components", sa.c_str()); }
  if constexpr(N == 3) { SW2(xz, 0, 2); SW2(zx, 2, 0); SW2(zy, 2, 1); SW2(yz, 1, 2); SW2(yx, 1, 0); SW3(xzy, 0, 2, 1); SW3(zxy, 2, 0, 1); SW3(zyx, 2, 1, 0); SW3(yzx, 1, 2, 0); SW3(yxz, 1, 0, 2); MC_CHECK(a.xy.v[0] == a.v[0] && a.xy.v[1] == a.v[1] && a.x == a.v[0] && a.y == a.v[1] && a.z == a.v[2], "%s named components", sa.c_str()); }
  if constexpr(N == 4) {
    SW2(xz, 0, 2); SW2(xw, 0, 3); SW2(zx, 2, 0); SW2(zy, 2, 1); SW2(zw, 2, 3); SW2(yz, 1, 2); SW2(yx, 1, 0); SW2(yw, 1, 3);
    SW3(xyw, 0, 1, 3); SW3(xzy, 0, 2, 1); SW3(xzw, 0, 2, 3); SW3(xwy, 0, 3, 1); SW3(xwz, 0, 3, 2); SW3(zxy, 2, 0, 1); SW3(zxw, 2, 0, 3); SW3(zyx, 2, 1, 0); SW3(zyw, 2, 1, 3); SW3(zwx, 2, 3, 0); SW3(zwy, 2, 3, 1); SW3(wxy, 3, 0, 1); SW3(wxz, 3, 0, 2); SW3(wyx, 3, 1, 0); SW3(wyz, 3, 1, 2); SW3(wzx, 3, 2, 0); SW3(wzy, 3, 2, 1);
    SW4(xywz, 0, 1, 3, 2); SW4(xzyw, 0, 2, 1, 3); SW4(xzwy, 0, 2, 3, 1); SW4(xwyz, 0, 3, 1, 2); SW4(xwzy, 0, 3, 2, 1); SW4(zxyw, 2, 0, 1, 3); SW4(zxwy, 2, 0, 3, 1); SW4(zyxw, 2, 1, 0, 3); SW4(zywx, 2, 1, 3, 0); SW4(zwxy, 2, 3, 0, 1); SW4(zwyx, 2, 3, 1, 0);
    SW4(wxyz, 3, 0, 1, 2); SW4(wxzy, 3, 0, 2, 1); SW4(wyxz, 3, 1, 0, 2); SW4(wyzx, 3, 1, 2, 0); SW4(wzxy, 3, 2, 0, 1); SW4(wzyx, 3, 2, 1, 0);
    MC_CHECK(a.x == a.v[0] && a.y == a.v[1] && a.z == a.v[2] && a.w == a.v[3] && a.r == a.v[0] && a.g == a.v[1] && a.b == a.v[2] && a.a == a.v[3] && a.xy.v[1] == a.v[1] && a.xyz.v[2] == a.v[2] && a.rgb.v[2] == a.v[2], "%s named components", sa.c_str());
  }
  if constexpr(N > 4) { auto r = a.template Swizzle<3, 0, 4>(); MC_CHECK(r.v[0] == a.v[3] && r.v[1] == a.v[0] && r.v[2] == a.v[4], "%s.Swizzle", sa.c_str()); }
}
template<class T, int N> static void vectors(mc::Ctx& c, std::vector<int> vals) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    T av[N], bv[N]; bool zero = false, azero = false; for(int i = 0; i < N; ++i) { av[i] = (T)ch.of(vals); azero |= av[i] == 0; } for(int i = 0; i < N; ++i) { bv[i] = (T)ch.of(vals); zero |= bv[i] == 0; }
    Vector<T, N> a(av), b(bv); const Vector<T, N> A(a), B(b); std::string sa = show(av, N), sb = show(bv, N); double e[N];
    EACH((double)av[i]); vsame<T, N>(a, e, "constructed", sa, ""); { std::array<T, N> arr; for(int i = 0; i < N; ++i) arr[i] = av[i]; vsame<T, N>(Vector<T, N>(arr), e, "from std::array", sa, ""); Vector<double, N> dd(a); for(int i = 0; i < N; ++i) MC_CHECK(dd.v[i] == e[i], "converting %s to double", sa.c_str()); Vector<int, N> ii; ii = a; for(int i = 0; i < N; ++i) MC_CHECK(ii.v[i] == (int)e[i], "assigning %s to an int vector", sa.c_str()); ii = dd; Vector<T, N> back(ii); vsame<T, N>(back, e, "converted and back", sa, ""); Vector<T, N> s(b); s = a; vsame<T, N>(s, e, "assigned over", sa, sb); Vector<T, N>& self = s; s = self; vsame<T, N>(s, e, "assigned to itself", sa, ""); }
    { Vector<T, N> l = [&]() -> Vector<T, N> { if constexpr(N == 2) return Vector<T, N>{ av[0], av[1] }; else if constexpr(N == 3) return Vector<T, N>{ av[0], av[1], av[2] }; else if constexpr(N == 4) return Vector<T, N>{ av[0], av[1], av[2], av[3] }; else return Vector<T, N>{ av[0], av[1], av[2], av[3], av[4] }; }(); vsame<T, N>(l, e, "from a list", sa, ""); }
#define BIN(op, opeq) { EACH((double)av[i] op (double)bv[i]); vsame<T, N>(A op B, e, #op, sa, sb); Vector<T, N> t(a); Vector<T, N>& ret = (t opeq B); MC_CHECK(&ret == &t, "compound assignment result"); vsame<T, N>(t, e, #opeq, sa, sb); EACH((double)av[i] op (double)bv[0]); vsame<T, N>(A op bv[0], e, #op " scalar", sa, sb); t = a; t opeq bv[0]; vsame<T, N>(t, e, #opeq " scalar", sa, sb); EACH((double)bv[0] op (double)av[i]); vsame<T, N>(bv[0] op A, e, "(scalar) " #op, sb, sa); EACH((double)av[i] op (double)av[i]); t = a; t opeq t; vsame<T, N>(t, e, #opeq " itself", sa, sa); }
    BIN(+, +=) BIN(-, -=) BIN(*, *=)
    if(!zero) { EACH((double)div_<T>(av[i], bv[i])); vsame<T, N>(A / B, e, "/", sa, sb); Vector<T, N> t(a); t /= B; vsame<T, N>(t, e, "/=", sa, sb); }
    if(bv[0] != 0) { EACH((double)div_<T>(av[i], bv[0])); vsame<T, N>(A / bv[0], e, "/ scalar", sa, sb); Vector<T, N> t(a); t /= bv[0]; vsame<T, N>(t, e, "/= scalar", sa, sb); }
    if(!azero) { EACH((double)div_<T>(bv[0], av[i])); vsame<T, N>(bv[0] / A, e, "dividing a scalar", sa, sb); }
    EACH(-(double)av[i]); vsame<T, N>(-A, e, "negated", sa, ""); EACH(std::fabs((double)av[i])); vsame<T, N>(A.Abs(), e, "Abs", sa, "");
    if constexpr(!std::is_same_v<T, double>) { Vector<double, N> bd(b); EACH((double)av[i] + (double)bv[i]); vsame<T, N>(A + bd, e, "+ a vector of doubles", sa, sb); EACH((double)av[i] * (double)bv[i]); vsame<T, N>(A * bd, e, "* a vector of doubles", sa, sb); }
    EACH((double)av[i]); vsame<T, N>(A, e, "left operand afterwards", sa, sb); EACH((double)bv[i]); vsame<T, N>(B, e, "right operand afterwards", sa, sb);
    double dot = 0, ds = 0, len = 0; for(int i = 0; i < N; ++i) { dot += (double)av[i] * bv[i]; ds += ((double)av[i] - bv[i]) * ((double)av[i] - bv[i]); len += (double)av[i] * av[i]; }
    MC_CHECK((double)A.Dot(B) == dot, "%s . %s is %g, expected %g", sa.c_str(), sb.c_str(), (double)A.Dot(B), dot); MC_CHECK((double)A.DistanceSq(B) == ds, "squared distance %s %s is %g, expected %g", sa.c_str(), sb.c_str(), (double)A.DistanceSq(B), ds);
    MC_CHECK((NVectorDot<T, N>(A.v, B.v) == (T)dot && NVectorDistanceSq<T, N>(A.v, B.v) == (T)ds), "array forms of dot and squared distance %s %s", sa.c_str(), sb.c_str());
    if constexpr(FP<T>) {
      MC_CHECK(nearly(A.Distance(B), std::sqrt(ds), EPS<T>) && nearly(NVectorDistance<T, N>(A.v, B.v), std::sqrt(ds), EPS<T>), "distance %s %s is %g, expected %g", sa.c_str(), sb.c_str(), (double)A.Distance(B), std::sqrt(ds)); MC_CHECK(nearly(A.Length(), std::sqrt(len), EPS<T>), "length of %s is %g, expected %g", sa.c_str(), (double)A.Length(), std::sqrt(len));
      if(len > 0) { Vector<T, N> n = A.Normalize(); alignas(16) T out[N]; NVectorNormalize<T, N>(A.v, out); for(int i = 0; i < N; ++i) MC_CHECK(nearly(n.v[i], av[i] / std::sqrt(len), EPS<T>) && nearly(out[i], av[i] / std::sqrt(len), EPS<T>), "normalized %s has %g at %d", sa.c_str(), (double)n.v[i], i); }
    } else { MC_CHECK((int64_t)A.Length() == (int64_t)std::sqrt(len) && (int64_t)A.Distance(B) == (int64_t)std::sqrt(ds), "integer length/distance of %s %s", sa.c_str(), sb.c_str()); }
    int cmp = 0; for(int i = 0; i < N && !cmp; ++i) cmp = av[i] < bv[i] ? -1 : av[i] > bv[i];
    MC_CHECK((A < B) == (cmp < 0) && (A > B) == (cmp > 0) && (A <= B) == (cmp <= 0) && (A >= B) == (cmp >= 0) && (A == B) == !cmp && (A != B) == !!cmp, "%s compared with %s", sa.c_str(), sb.c_str());
    { bool lt = 1, gt = 1, le = 1, ge = 1, eq = 1; for(int i = 0; i < N; ++i) { lt &= av[i] < bv[0]; gt &= av[i] > bv[0]; le &= av[i] <= bv[0]; ge &= av[i] >= bv[0]; eq &= av[i] == bv[0]; } MC_CHECK((A < bv[0]) == lt && (A > bv[0]) == gt && (A <= bv[0]) == le && (A >= bv[0]) == ge && (A == bv[0]) == eq && (A != bv[0]) == !eq, "%s compared with the scalar %g", sa.c_str(), (double)bv[0]); }
    if constexpr(N == 2) { MC_CHECK((double)A.Cross(B) == (double)av[0] * bv[1] - (double)av[1] * bv[0] && A.Cross(bv[0], bv[1]) == A.Cross(B), "%s x %s is %g", sa.c_str(), sb.c_str(), (double)A.Cross(B)); }
    if constexpr(N == 3) { double x[3] = { (double)av[1] * bv[2] - (double)av[2] * bv[1], (double)av[2] * bv[0] - (double)av[0] * bv[2], (double)av[0] * bv[1] - (double)av[1] * bv[0] }; vsame<T, 3>(A.Cross(B), x, "cross", sa, sb); vsame<T, 3>(A.Cross(bv[0], bv[1], bv[2]), x, "cross", sa, sb); }
    { alignas(16) T o[N][N]; A.template Outer<N>(B, o); for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) MC_CHECK((double)o[i][j] == (double)av[i] * bv[j], "outer product of %s and %s has %g at %d,%d", sa.c_str(), sb.c_str(), (double)o[i][j], i, j); Vector<T, 2> k((T)3, (T)-2); T o2[N][2]; A.template Outer<2>(k, o2); for(int i = 0; i < N; ++i) MC_CHECK((double)o2[i][0] == 3.0 * av[i] && (double)o2[i][1] == -2.0 * av[i], "outer product of %s and (3,-2)", sa.c_str()); }
    swizzles<T, N>(a, sa); c.outcome((long long)(dot * 1000 + ds));
  });
}
MC_CONFIG("Vector2<float>") { vectors<float, 2>(c, { -7, -2, -1, 0, 1, 3, 100 }); }
MC_CONFIG("Vector2<int>") { vectors<int, 2>(c, { -7, -2, -1, 0, 1, 3, 100 }); }
MC_CONFIG("Vector3<float>") { if(c.thorough) vectors<float, 3>(c, { -7, -2, -1, 0, 1, 3, 100 }); else vectors<float, 3>(c, { -7, -1, 0, 1, 3 }); }
MC_CONFIG("Vector3<double>") { vectors<double, 3>(c, { -7, 0, 1, 3 }); }
MC_CONFIG("Vector3<int>") { vectors<int, 3>(c, { -7, 0, 1, 3 }); }
MC_CONFIG("Vector4<float>") { if(c.thorough) vectors<float, 4>(c, { -7, -1, 0, 1, 3 }); else vectors<float, 4>(c, { -7, 0, 1 }); }
MC_CONFIG("Vector4<int>") { if(c.thorough) vectors<int, 4>(c, { -7, -1, 0, 1, 3 }); else vectors<int, 4>(c, { -7, 0, 1 }); }
MC_CONFIG("Vector4<double>") { vectors<double, 4>(c, { -3, 0, 1 }); }
MC_CONFIG("Vector4<int64>") { vectors<int64_t, 4>(c, { -3, 0, 1 }); }
MC_CONFIG("Vector5<float>") { if(c.thorough) vectors<float, 5>(c, { -7, 0, 1 }); else vectors<float, 5>(c, { -7, 2 }); }
MC_CONFIG("Vector5<int>") { vectors<int, 5>(c, { -7, 2 }); }

// ---- matrices ----
template<class T, int M, int N> static std::string mshow(const T (&m)[M][N]) { std::string s; for(int i = 0; i < M; ++i) s += show(m[i], N); return s; }
template<class T, int M, int N> static void msame(const T (&r)[M][N], const double (&e)[M][N], const char* what, const std::string& a, const std::string& b) { for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) MC_CHECK((double)r[i][j] == e[i][j], "%s %s %s: element %d,%d is %g, expected %g", a.c_str(), what, b.c_str(), i, j, (double)r[i][j], e[i][j]); }
// operands: one or two non-zero elements at any place, or dense with distinct values: bilinearity makes these the generators of all products
template<class T, int M, int N> static void pick(mc::Choose& ch, T (&m)[M][N], bool two) {
  for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) m[i][j] = 0;
  int k = ch(M * N + 2); if(k < M * N) { m[k / N][k % N] = 3; if(two) { int l = ch(M * N); m[l / N][l % N] += -2; } } else for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) m[i][j] = (T)(k == M * N ? i * N + j + 1 : (i * 7 + j * 3 + i * j) % 11 - 5);
}
template<class T, int M, int N> static void matrices(mc::Ctx& c, bool two) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    Matrix<T, M, N> a, b; pick(ch, a.v, two); pick(ch, b.v, two); std::string sa = mshow(a.v), sb = mshow(b.v); double e[M][N], A[M][N], B[M][N]; for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) { A[i][j] = a.v[i][j]; B[i][j] = b.v[i][j]; }
#define MEACH(expr) { for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) e[i][j] = (expr); }
    Matrix<T, M, N> t; T s = (T)B[M - 1][N - 1];
#define MBIN(o, op, opeq) { MEACH(A[i][j] o B[i][j]); msame((a op b).v, e, #op, sa, sb); t = a; Matrix<T, M, N>& r = (t opeq b); MC_CHECK(&r == &t, "result"); msame(t.v, e, #opeq, sa, sb); MEACH(A[i][j] o A[i][j]); t = a; t opeq t; msame(t.v, e, #opeq " itself", sa, sb); }
#define MSC(op, opeq) { MEACH(A[i][j] op (double)s); msame((a op s).v, e, #op " scalar", sa, sb); t = a; t opeq s; msame(t.v, e, #opeq " scalar", sa, sb); MEACH((double)s op A[i][j]); msame((s op a).v, e, "after scalar " #op, sa, sb); }
    MBIN(+, +, +=) MBIN(-, -, -=) MBIN(*, ^, ^=) MSC(+, +=) MSC(-, -=) MSC(*, *=)
    MEACH(-A[i][j]); msame((-a).v, e, "negated", sa, "");
    { bool nz = true, az = true; MEACH((nz &= b.v[i][j] != 0, az &= a.v[i][j] != 0, 0)); if(nz) { MEACH((double)div_<T>(A[i][j], B[i][j])); msame((a / b).v, e, "/", sa, sb); t = a; t /= b; msame(t.v, e, "/=", sa, sb); } if(s != 0) { MEACH((double)div_<T>(A[i][j], (double)s)); msame((a / s).v, e, "/ scalar", sa, sb); t = a; t /= s; msame(t.v, e, "/= scalar", sa, sb); } if(az) { MEACH((double)div_<T>((double)s, A[i][j])); msame((s / a).v, e, "dividing a scalar", sa, sb); } }
    { bool eq = true, sc = true; MEACH((eq &= A[i][j] == B[i][j], sc &= A[i][j] == (double)s, 0)); MC_CHECK((a == b) == eq && (a != b) == !eq && (a == s) == sc && (a != s) == !sc, "%s compared with %s", sa.c_str(), sb.c_str()); Matrix<T, M, N> k(a); MC_CHECK(k == a, "a copy differs"); k.v[M - 1][0] += 1; MC_CHECK(k != a && !(k == a), "a changed copy is equal"); }
    double et[N][M]; for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) et[j][i] = A[i][j];
    Matrix<T, N, M> tr; a.Transpose(tr.v); msame(tr.v, et, "transposed", sa, ""); tr = (~a); msame(tr.v, et, "~", sa, ""); tr = a.Transpose(); msame(tr.v, et, "Transpose()", sa, ""); Matrix<T, M, N>::Transpose(a.v, tr.v); msame(tr.v, et, "static Transpose", sa, ""); if constexpr(M == N) { Matrix<T, M, N> k; a.Transpose(k); msame(k.v, et, "Transpose(Matrix)", sa, ""); }
    { Matrix<double, M, N> dd(a); MEACH(A[i][j]); msame(dd.v, e, "converted to double", sa, ""); Matrix<int, M, N> ii; ii = a; msame(ii.v, e, "assigned to int", sa, ""); Matrix<T, M, N> k(a.v); msame(k.v, e, "from an array", sa, ""); }
    Matrix<T, N, N> sq; pick(ch, sq.v, false); double S[N][N], P[M][N]; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) S[i][j] = sq.v[i][j]; for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) { P[i][j] = 0; for(int k = 0; k < N; ++k) P[i][j] += A[i][k] * S[k][j]; }
    std::string ss = mshow(sq.v); msame((a * sq).v, P, "*", sa, ss); t = a; Matrix<T, M, N>& ret = (t *= sq); MC_CHECK(&ret == &t, "result"); msame(t.v, P, "*=", sa, ss); MEACH(A[i][j]); msame(a.v, e, "after the products", sa, "");
    { double Q[M][M]; for(int i = 0; i < M; ++i) for(int j = 0; j < M; ++j) { Q[i][j] = 0; for(int k = 0; k < N; ++k) Q[i][j] += A[i][k] * B[j][k]; } Matrix<T, N, M> bt; b.Transpose(bt.v); Matrix<T, M, M> q; q = a * bt; msame(q.v, Q, "* transposed", sa, sb); }
    if constexpr(M == N) { double Q[N][N]; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) { Q[i][j] = 0; for(int k = 0; k < N; ++k) Q[i][j] += A[i][k] * A[k][j]; } t = a; MatrixMultiply<T, N, N, N>(t.v, t.v, t.v); msame(t.v, Q, "squared in place", sa, ""); t = a; MatrixMultiply<T, N, N, N>(sq.v, t.v, t.v); for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) { Q[i][j] = 0; for(int k = 0; k < N; ++k) Q[i][j] += S[i][k] * A[k][j]; } msame(t.v, Q, "as right operand and result of", sa, ss); }
    { Vector<T, N> col; Vector<T, M> row; for(int i = 0; i < N; ++i) col.v[i] = (T)S[0][i]; for(int i = 0; i < M; ++i) row.v[i] = (T)B[i][0]; double ce[M], re[N]; for(int i = 0; i < M; ++i) { ce[i] = 0; for(int k = 0; k < N; ++k) ce[i] += A[i][k] * S[0][k]; } for(int j = 0; j < N; ++j) { re[j] = 0; for(int k = 0; k < M; ++k) re[j] += B[k][0] * A[k][j]; } vsame<T, M>(a * col, ce, "* column", sa, ss); vsame<T, N>(row * a, re, "after row *", sa, sb); Vector<T, N> v(col); double ve[N]; for(int j = 0; j < N; ++j) { ve[j] = 0; for(int k = 0; k < N; ++k) ve[j] += S[0][k] * S[k][j]; } Vector<T, N>& vr = (v *= sq); MC_CHECK(&vr == &v, "result"); vsame<T, N>(v, ve, "row *=", show(col.v, N), ss); }
    if constexpr(M == 4 && N == 4 && (std::is_same_v<T, float> || std::is_same_v<T, int>)) { alignas(16) T l[4], o[4]; double re[4]; for(int i = 0; i < 4; ++i) l[i] = (T)S[0][i]; for(int j = 0; j < 4; ++j) { re[j] = 0; for(int k = 0; k < 4; ++k) re[j] += S[0][k] * A[k][j]; } sseVecT<T> r = MatrixMultiply1x4<T>(l, a.v); r.Set(o); for(int j = 0; j < 4; ++j) MC_CHECK((double)o[j] == re[j], "1x4 product"); }
    { constexpr int K = M < N ? M : N; Vector<T, K> d; for(int i = 0; i < K; ++i) d.v[i] = (T)A[i][i] + 5; MEACH(i == j ? A[i][i] + 5 : 0); t = b; Matrix<T, M, N>::Diagonal(d.v, t.v); msame(t.v, e, "diagonal", sa, ""); t = b; Matrix<T, M, N>::Diagonal(d, t); msame(t.v, e, "diagonal", sa, ""); t = Matrix<T, M, N>::Diagonal(d.v); msame(t.v, e, "diagonal", sa, ""); MEACH(i == j); t = b; Matrix<T, M, N>::Identity(t); msame(t.v, e, "identity", sa, ""); t = Matrix<T, M, N>::Identity(); msame(t.v, e, "identity", sa, ""); }
    c.outcome((long long)(P[0][0] * 64 + P[M - 1][N - 1]));
  });
}
MC_CONFIG("Matrix2x2<float>") { matrices<float, 2, 2>(c, true); }
MC_CONFIG("Matrix2x2<int>") { matrices<int, 2, 2>(c, true); }
MC_CONFIG("Matrix3x3<float>") { matrices<float, 3, 3>(c, c.thorough); }
MC_CONFIG("Matrix3x3<int64>") { matrices<int64_t, 3, 3>(c, false); }
MC_CONFIG("Matrix4x4<float>") { matrices<float, 4, 4>(c, c.thorough); }
MC_CONFIG("Matrix4x4<int>") { matrices<int, 4, 4>(c, false); }
MC_CONFIG("Matrix4x4<double>") { matrices<double, 4, 4>(c, false); }
MC_CONFIG("Matrix2x3<float>") { matrices<float, 2, 3>(c, true); }
MC_CONFIG("Matrix3x2<int>") { matrices<int, 3, 2>(c, false); }
MC_CONFIG("Matrix3x4<float>") { matrices<float, 3, 4>(c, false); }
MC_CONFIG("Matrix4x2<int>") { matrices<int, 4, 2>(c, false); }
MC_CONFIG("Matrix5x4<float>") { matrices<float, 5, 4>(c, false); }
MC_CONFIG("Matrix5x5<double>") { matrices<double, 5, 5>(c, false); }

template<int N> static double refdet(const double (&m)[N][N]) { if constexpr(N == 1) return m[0][0]; else { double d = 0; for(int k = 0; k < N; ++k) { double s[N - 1][N - 1]; for(int i = 1; i < N; ++i) for(int j = 0, q = 0; j < N; ++j) if(j != k) s[i - 1][q++] = m[i][j]; d += (k % 2 ? -1 : 1) * m[0][k] * refdet<N - 1>(s); } return d; } }
template<class T, int N> static void detinv(mc::Ctx& c, const T (&v)[N][N]) {
  Matrix<T, N, N> m(v); double A[N][N]; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) A[i][j] = v[i][j]; std::string s = mshow(v); double det = refdet<N>(A);
  MC_CHECK((double)m.Determinant() == det && (double)(MatrixDeterminant<T, N>(m.v)) == det, "determinant of %s is %g, expected %g", s.c_str(), (double)m.Determinant(), det); c.outcome((long long)det);
  if constexpr(FP<T>) if(det != 0) {
    Matrix<T, N, N> inv = m.Inverse(), i2, i3(v); alignas(16) T raw[N][N]; m.Inverse(i2); m.Inverse(raw); 
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) { double cof; if constexpr(N == 2) cof = ((i + j) % 2 ? -1 : 1) * A[1 - j][1 - i]; else { double sub[N - 1][N - 1]; for(int p = 0, x = 0; p < N; ++p) if(p != j) { for(int q = 0, y = 0; q < N; ++q) if(q != i) sub[x][y++] = A[p][q]; ++x; } cof = ((i + j) % 2 ? -1 : 1) * refdet<N - 1>(sub); }
      MC_CHECK(nearly(inv.v[i][j], cof / det, EPS<T>) && inv.v[i][j] == i2.v[i][j] && inv.v[i][j] == raw[i][j], "inverse of %s has %g at %d,%d, expected %g", s.c_str(), (double)inv.v[i][j], i, j, cof / det); }
    if constexpr(N == 4) { i3.Inverse(i3); MC_CHECK(i3 == inv, "inverting %s in place", s.c_str()); }
  }
}
template<class T> static void det2(mc::Ctx& c) { mc::enumerate(c, [&](mc::Choose& ch) { T v[2][2]; for(auto& r : v) for(auto& x : r) x = (T)(ch(9) - 4); detinv<T, 2>(c, v); }); }
template<class T> static void det3(mc::Ctx& c, std::vector<int> vals) { mc::enumerate(c, [&](mc::Choose& ch) { T v[3][3]; for(auto& r : v) for(auto& x : r) x = (T)ch.of(vals); detinv<T, 3>(c, v); }); }
template<class T> static void det4(mc::Ctx& c) {
  mc::enumerate(c, [&](mc::Choose& ch) { alignas(16) T v[4][4]; for(auto& r : v) for(auto& x : r) x = (T)ch(2); detinv<T, 4>(c, v); });
  static const int ROWS[][4] = { { 1, 0, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 }, { 1, 2, 3, 4 }, { -1, 3, 0, 2 }, { 2, -2, 1, 0 }, { 5, 1, -3, 2 }, { 0, 4, -1, -1 } };
  mc::enumerate(c, [&](mc::Choose& ch) { alignas(16) T v[4][4]; for(auto& r : v) { auto& q = ROWS[ch(9)]; for(int j = 0; j < 4; ++j) r[j] = (T)q[j]; } detinv<T, 4>(c, v); });
}
MC_CONFIG("determinant and inverse, 2x2") { det2<float>(c); det2<double>(c); det2<int>(c); }
MC_CONFIG("determinant and inverse, 3x3 float") { if(c.thorough) det3<float>(c, { -2, 0, 1, 3 }); else det3<float>(c, { -2, 0, 1 }); }
MC_CONFIG("determinant and inverse, 3x3 double") { det3<double>(c, { -2, 0, 3 }); }
MC_CONFIG("determinant, 3x3 int") { det3<int>(c, { -2, 0, 3 }); }
MC_CONFIG("determinant and inverse, 4x4 float") { det4<float>(c); }
MC_CONFIG("determinant and inverse, 4x4 double") { det4<double>(c); }
MC_CONFIG("determinant, 4x4 int64") { det4<int64_t>(c); }

// ---- transforms: every rotation by a multiple of 30 degrees, about every small centre ----
template<class T, int N> static void apply(const T (&m)[N][N], const double (&p)[N], double (&o)[N]) { for(int i = 0; i < N; ++i) { o[i] = 0; for(int k = 0; k < N; ++k) o[i] += (double)m[i][k] * p[k]; } }
template<class T, int N> static void tmatch(const T (&m)[N][N], const T (&t)[N][N], const double (&p)[N], const double (&e)[N], const char* what, double r) { double o[N]; apply<T, N>(m, p, o); for(int i = 0; i < N; ++i) { MC_CHECK(nearly(o[i], e[i], EPS<T>), "%s (angle %g) takes %s to %s, expected %s", what, r, show(p, N).c_str(), show(o, N).c_str(), show(e, N).c_str()); for(int j = 0; j < N; ++j) MC_CHECK(m[i][j] == t[j][i], "the transposed form of %s (angle %g) is not the transpose", what, r); } }
template<class T> static void transforms(mc::Ctx& c) { typedef double D2[2]; typedef double D3[3]; typedef double D4[4];
  static const double XY[] = { 0, 1, -3 };
  mc::enumerate(c, [&](mc::Choose& ch) {
    double r = (ch(25) - 12) * M_PI / 6, x = XY[ch(3)], y = XY[ch(3)], cx = XY[ch(3)], cy = XY[ch(3)], px = XY[ch(3)], py = XY[ch(3)], pz = 2, C = std::cos(r), S = std::sin(r); T R = (T)r;
    { Matrix<T, 2, 2> m, t; Matrix<T, 2, 2>::Rotation(R, m); Matrix<T, 2, 2>::Rotation_T(R, t); tmatch<T, 2>(m.v, t.v, { px, py }, { C * px - S * py, S * px + C * py }, "rotation", r); T a[2][2], b[2][2]; Matrix<T, 2, 2>::Rotation(R, a); Matrix<T, 2, 2>::Rotation_T(R, b); tmatch<T, 2>(a, b, { px, py }, { C * px - S * py, S * px + C * py }, "rotation", r); }
#define T3(call, ...) { Matrix<T, 3, 3> m, t; Matrix<T, 3, 3>::call(__VA_ARGS__, m); Matrix<T, 3, 3>::call##_T(__VA_ARGS__, t); tmatch<T, 3>(m.v, t.v, P, E, #call, r); alignas(16) T a[3][3], b[3][3]; Matrix<T, 3, 3>::call(__VA_ARGS__, a); Matrix<T, 3, 3>::call##_T(__VA_ARGS__, b); tmatch<T, 3>(a, b, P, E, #call, r); }
#define T4(call, ...) { Matrix<T, 4, 4> m, t; Matrix<T, 4, 4>::call(__VA_ARGS__, m); Matrix<T, 4, 4>::call##_T(__VA_ARGS__, t); tmatch<T, 4>(m.v, t.v, P, E, #call, r); alignas(16) T a[4][4], b[4][4]; Matrix<T, 4, 4>::call(__VA_ARGS__, a); Matrix<T, 4, 4>::call##_T(__VA_ARGS__, b); tmatch<T, 4>(a, b, P, E, #call, r); }
    { double P[3] = { px, py, pz }; { double E[3] = { px, C * py - S * pz, S * py + C * pz }; T3(RotationX, R) } { double E[3] = { C * px + S * pz, py, C * pz - S * px }; T3(RotationY, R) } { double E[3] = { C * px - S * py, S * px + C * py, pz }; T3(RotationZ, R) } }
    { double P[3] = { px, py, 1 }; { double E[3] = { C * px - S * py, S * px + C * py, 1 }; T3(AffineRotation, R) } { double E[3] = { px + x, py + y, 1 }; T3(Translation, (T)x, (T)y) } { double E[3] = { C * (px - cx) - S * (py - cy) + cx + x, S * (px - cx) + C * (py - cy) + cy + y, 1 }; T3(AffineTransform, (T)x, (T)y, R, (T)cx, (T)cy) } Matrix<T, 3, 3> m, t; Matrix<T, 3, 3>::AffineScaling((T)x, (T)y, m); m.Transpose(t); tmatch<T, 3>(m.v, t.v, P, { px * x, py * y, 1 }, "AffineScaling", 0); }
    { double P[4] = { px, py, pz, 1 }; { double E[4] = { px, C * py - S * pz, S * py + C * pz, 1 }; T4(AffineRotationX, R) } { double E[4] = { C * px + S * pz, py, C * pz - S * px, 1 }; T4(AffineRotationY, R) } { double E[4] = { C * px - S * py, S * px + C * py, pz, 1 }; T4(AffineRotationZ, R) } { double E[4] = { px + x, py + y, pz + cx, 1 }; T4(Translation, (T)x, (T)y, (T)cx) } { double E[4] = { C * (px - cx) - S * (py - cy) + cx + x, S * (px - cx) + C * (py - cy) + cy + y, pz + 7, 1 }; T4(AffineTransform, (T)x, (T)y, (T)7, R, (T)cx, (T)cy) } Matrix<T, 4, 4> m, t; Matrix<T, 4, 4>::AffineScaling((T)x, (T)y, (T)cx, m); m.Transpose(t); tmatch<T, 4>(m.v, t.v, P, { px * x, py * y, pz * cx, 1 }, "AffineScaling", 0); }
    { Vector<T, 2> p((T)px, (T)py), q = p.Rotate(R, Vector<T, 2>((T)cx, (T)cy)), q2 = p.Rotate(R, (T)cx, (T)cy); double ex = C * (px - cx) - S * (py - cy) + cx, ey = S * (px - cx) + C * (py - cy) + cy; MC_CHECK(nearly(q.x, ex, EPS<T>) && nearly(q.y, ey, EPS<T>) && q == q2, "(%g,%g) rotated by %g about (%g,%g) is (%g,%g)", px, py, r, cx, cy, (double)q.x, (double)q.y); }
    if(px != 0 || py != 0) { Vector<T, 2> p((T)px, (T)py), q = Vector<T, 2>::ToPolar(p), b = Vector<T, 2>::FromPolar(q); MC_CHECK(nearly(q.x, std::hypot(px, py), EPS<T>) && nearly(q.y, std::atan2(py, px), EPS<T>) && nearly(b.x, px, EPS<T>) && nearly(b.y, py, EPS<T>), "(%g,%g) in polar form is (%g,%g)", px, py, (double)q.x, (double)q.y); }
    c.outcome((long long)(C * 100) * 1000 + (long long)(cx * 10 + cy));
  });
}
MC_CONFIG("transforms, float") { transforms<float>(c); }
MC_CONFIG("transforms, double") { transforms<double>(c); }
// a unit quaternion (axis, angle) against Rodrigues' rotation of the basis vectors
template<class T, int N> static void quaternions(mc::Ctx& c) {
  static const double AX[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 1, 1, 0 }, { 0, 1, -1 }, { 1, -2, 3 }, { 2, 1, 1 } };
  mc::enumerate(c, [&](mc::Choose& ch) {
    auto& ax = AX[ch(8)]; double th = (ch(25) - 12) * M_PI / 6, l = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]), k[3] = { ax[0] / l, ax[1] / l, ax[2] / l }, s = std::sin(th / 2); alignas(16) T q[4] = { (T)(k[0] * s), (T)(k[1] * s), (T)(k[2] * s), (T)std::cos(th / 2) }, o[N][N];
    for(auto& r : o) for(auto& x : r) x = (T)-9; FromQuaternion<T, N>(q, o);
    for(int j = 0; j < 3; ++j) { double v[3] = {}, e[3]; v[j] = 1; double d = k[j], cr[3] = { k[1] * v[2] - k[2] * v[1], k[2] * v[0] - k[0] * v[2], k[0] * v[1] - k[1] * v[0] }; for(int i = 0; i < 3; ++i) { e[i] = v[i] * std::cos(th) + cr[i] * std::sin(th) + k[i] * d * (1 - std::cos(th)); MC_CHECK(nearly(o[i][j], e[i], EPS<T>), "the matrix of the rotation by %g about (%g,%g,%g) has %g at %d,%d, expected %g", th, ax[0], ax[1], ax[2], (double)o[i][j], i, j, e[i]); } }
    if(N == 4 && std::is_same_v<T, float>) for(int i = 0; i < 4; ++i) MC_CHECK(o[3][i] == (i == 3) && o[i][3] == (i == 3), "the fourth row and column of the matrix of a quaternion are not those of the identity"); c.outcome((long long)(th * 100));
  });
}
MC_CONFIG("quaternions") { quaternions<float, 4>(c); quaternions<double, 3>(c); quaternions<float, 3>(c); }
MC_CONFIG("splines") {
  static const float M1[4][4] = { { -1, 3, -3, 1 }, { 3, -6, 3, 0 }, { -3, 3, 0, 0 }, { 1, 0, 0, 0 } }, M2[4][4] = { { 1, 2, 3, 4 }, { 5, -6, 7, 8 }, { 9, 10, -11, 12 }, { 13, 14, 15, 16 } };
  mc::enumerate(c, [&](mc::Choose& ch) {
    alignas(16) float m[4][4], p[4]; memcpy(m, ch(2) ? M1 : M2, sizeof m); for(auto& x : p) x = (float)(ch(4) - 1); float t = ch(9) / 8.f; double a[4] = { t * t * t, t * t, t, 1 }, e = 0; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) e += a[i] * m[i][j] * p[j];
    float r = GenericBSpline(t, p, m); MC_CHECK(nearly(r, e, 1e-5), "spline at %g through %s is %g, expected %g", t, show(p, 4).c_str(), r, e); c.outcome((long long)(e * 64));
  });
  mc::enumerate(c, [&](mc::Choose& ch) { float v[3][3]; for(auto& r : v) for(auto& x : r) x = (float)(ch(3) * 2 - 1); double u[3], w[3]; for(int i = 0; i < 3; ++i) { u[i] = v[1][i] - v[0][i]; w[i] = v[2][i] - v[0][i]; } double cr[3] = { u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0] }, area = std::sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]) / 2; if(area > 0.5) { float r = NTriangleArea<float, 3>(v[0], v[1], v[2]); MC_CHECK(nearly(r, area, 2e-3), "area of %s is %g, expected %g", mshow(v).c_str(), r, area); } c.outcome((long long)(area * 64)); });
}

// ---- SIMD: every lane independently ----
template<class T> struct Lanes { static constexpr int N = 16 / sizeof(T); };
template<class T> static void simd(mc::Ctx& c, const std::vector<T>& E) {
  constexpr int N = Lanes<T>::N; typedef std::make_unsigned_t<std::conditional_t<FP<T>, int, T>> U;
  mc::enumerate(c, [&](mc::Choose& ch) {
    size_t ia = ch((int)E.size()), ib = ch((int)E.size()); alignas(16) T a[N], b[N], o[N]; for(int i = 0; i < N; ++i) { a[i] = E[(ia + i * 3) % E.size()]; b[i] = E[(ib + i * 5) % E.size()]; } // the pair (ia, ib) is in lane 0; the other lanes hold other pairs
    int rot = ch(N); std::rotate(a, a + rot, a + N); std::rotate(b, b + rot, b + N); // ... and it visits every lane
    sseVecT<T> x(a), y(b); std::string s = show(a, N) + " and " + show(b, N);
#define SD(what, expr, want) { sseVecT<T> z = (expr); z.Set(o); for(int i = 0; i < N; ++i) { T w = (want); MC_CHECK(o[i] == w, "%s of %s: lane %d is %g, expected %g", what, s.c_str(), i, (double)o[i], (double)w); } }
#define SDQ(what, stmt, want) { sseVecT<T> z(x); stmt; z.Set(o); for(int i = 0; i < N; ++i) { T w = (want); MC_CHECK(o[i] == w, "%s of %s: lane %d is %g, expected %g", what, s.c_str(), i, (double)o[i], (double)w); } }
#define MASK(what, expr, cond) { sseVecT<T> z = (expr); alignas(16) unsigned char raw[16]; memcpy(raw, &z, 16); for(int i = 0; i < N; ++i) for(size_t k = 0; k < sizeof(T); ++k) MC_CHECK(raw[i * sizeof(T) + k] == ((cond) ? 255 : 0), "%s of %s: lane %d", what, s.c_str(), i); }
    if constexpr(FP<T>) { SD("+", x + y, a[i] + b[i]) SD("-", x - y, a[i] - b[i]) SD("*", x * y, a[i] * b[i]) SDQ("+=", z += y, a[i] + b[i]) SDQ("-=", z -= y, a[i] - b[i]) SDQ("*=", z *= y, a[i] * b[i]) bool nz = true; for(T q : b) nz &= q != 0; if(nz) { SD("/", x / y, a[i] / b[i]) SDQ("/=", z /= y, a[i] / b[i]) } SD("min", x.min(y), std::min(a[i], b[i])) SD("max", x.max(y), std::max(a[i], b[i])) }
    else {
      SD("+", x + y, (T)((U)a[i] + (U)b[i])) SD("-", x - y, (T)((U)a[i] - (U)b[i])) SD("&", x & y, (T)(a[i] & b[i])) SD("|", x | y, (T)(a[i] | b[i])) SD("^", x ^ y, (T)(a[i] ^ b[i])) SD("~", ~x, (T)~a[i]) SDQ("+=", z += y, (T)((U)a[i] + (U)b[i])) SDQ("-=", z -= y, (T)((U)a[i] - (U)b[i])) SDQ("&=", z &= y, (T)(a[i] & b[i])) SDQ("|=", z |= y, (T)(a[i] | b[i])) SDQ("^=", z ^= y, (T)(a[i] ^ b[i]))
      if constexpr(sizeof(T) == 4) { SD("*", x * y, (T)((U)a[i] * (U)b[i])) SDQ("*=", z *= y, (T)((U)a[i] * (U)b[i])) SD("min", x.min(y), std::min(a[i], b[i])) SD("max", x.max(y), std::max(a[i], b[i])) }
      if constexpr(sizeof(T) > 1) { int sh = (int)((unsigned)(ia * 5 + ib) % (sizeof(T) * 8)); sseVecT<T> cnt = sseVecT<T>::ZeroVector(); { alignas(16) T k[N] = {}; k[0] = (T)sh; cnt = sseVecT<T>(k); } SD("<<", x << sh, (T)((U)a[i] << sh)) SDQ("<<=", z <<= sh, (T)((U)a[i] << sh)) SDQ("<<= register", z <<= cnt, (T)((U)a[i] << sh)) if constexpr(sizeof(T) == 4) { SD(">>", x >> sh, (T)(a[i] >> sh)) SDQ(">>=", z >>= sh, (T)(a[i] >> sh)) } else { SD(">>", x >> sh, (T)((U)a[i] >> sh)) SDQ(">>=", z >>= sh, (T)((U)a[i] >> sh)) } }
    }
    if constexpr(!std::is_same_v<T, int64_t>) { MASK("==", x == y, a[i] == b[i]) MASK("!=", x != y, a[i] != b[i]) MASK("<", x < y, a[i] < b[i]) MASK("<=", x <= y, a[i] <= b[i]) MASK(">", x > y, a[i] > b[i]) MASK(">=", x >= y, a[i] >= b[i]) if constexpr(!FP<T>) { MASK("!", !x, a[i] == 0) } }
    { T one; x.Set(one); MC_CHECK(one == a[0], "the first lane of %s", s.c_str()); char buf[16 + sizeof(T)]; T* un = (T*)(buf + 1); memcpy(buf + 1, a, 16); sseVecT<T> z{ BSS_UNALIGNED<const T>(un) }; z.Set(o); MC_CHECK(!memcmp(o, a, 16), "unaligned load of %s", s.c_str()); memset(buf, 7, sizeof buf); y.Set(BSS_UNALIGNED<T>(un)); MC_CHECK(!memcmp(buf + 1, b, 16) && buf[0] == 7, "unaligned store of %s", s.c_str()); z = a[1]; z.Set(o); for(T q : o) MC_CHECK(q == a[1], "broadcast"); z = b; z.Set(o); MC_CHECK(!memcmp(o, b, 16), "assignment from an array"); z = sseVecT<T>::ZeroVector(); z.Set(o); for(T q : o) MC_CHECK(q == 0, "zero"); }
    if constexpr(N == 4 && sizeof(T) == 4) { auto sum = [&](auto z) { return z; }; (void)sum; T r = x.Sum(); if constexpr(FP<T>) { double e = (double)a[0] + a[1] + a[2] + a[3]; double mag = 0; for(T q : a) mag += std::fabs(q); MC_CHECK(std::fabs(r - e) <= mag * 1e-6, "sum of %s is %g", s.c_str(), (double)r); } else MC_CHECK(r == (T)((U)a[0] + (U)a[1] + (U)a[2] + (U)a[3]), "sum of %s is %g", s.c_str(), (double)r);
      SD("shuffle", (x.template Shuffle<2, 0, 3, 1>()), (a[(int)"2031"[i] - 48])) SD("shuffle", (x.template Shuffle<3, 3, 1, 0>()), (a[(int)"3310"[i] - 48])) SD("static shuffle", (sseVecT<T>::template Shuffle<BSS_SSE_SHUFFLE(1, 2, 3, 0)>(x)), (a[(int)"1230"[i] - 48])) SD("lanes", (sseVecT<T>(a[0], a[1], a[2], a[3])), a[i]) }
    if constexpr(N == 2) { T r = x.Sum(); if constexpr(FP<T>) MC_CHECK(r == a[0] + a[1], "sum of %s", s.c_str()); else MC_CHECK(r == (T)((U)a[0] + (U)a[1]), "sum of %s", s.c_str()); SD("swap", x.Swap(), a[1 - i]) SD("lanes", (sseVecT<T>(a[0], a[1])), a[i]) }
    if constexpr(N == 8) SD("lanes", (sseVecT<T>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])), a[i]) if constexpr(N == 16) SD("lanes", (sseVecT<T>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15])), a[i])
    if constexpr(N == 8) { SD("shuffle of the low half", (sseVecT<T>::template ShuffleLo<BSS_SSE_SHUFFLE(2, 0, 3, 1)>(x)), (a[(int)"20314567"[i] - 48])) SD("shuffle of the high half", (sseVecT<T>::template ShuffleHi<BSS_SSE_SHUFFLE(2, 0, 3, 1)>(x)), (a[(int)"01236475"[i] - 48])) }
    if constexpr(std::is_same_v<T, float>) { SD("floor", x.floor(), std::floor(a[i])) SD("ceil", x.ceil(), std::ceil(a[i])) alignas(16) int q[4]; bool in = true; for(float f : a) in &= std::fabs(f) < 2e9f; if(in) { sseVeci t(x.xmm); t.Set(q); for(int i = 0; i < 4; ++i) MC_CHECK(q[i] == (int)a[i], "%g truncated is %d", a[i], q[i]); sseVeci rd(x.xmm, 0); rd.Set(q); for(int i = 0; i < 4; ++i) MC_CHECK(q[i] == (int)std::nearbyint(a[i]), "%g rounded is %d", a[i], q[i]); } }
    if constexpr(std::is_same_v<T, int>) { sseVec f(x.xmm); alignas(16) float q[4]; f.Set(q); for(int i = 0; i < 4; ++i) MC_CHECK(q[i] == (float)a[i], "%d as float is %g", a[i], q[i]); }
    c.outcome((long long)(ia * 1000 + ib));
  });
}
MC_CONFIG("SIMD, float") { simd<float>(c, { 0.f, 1.f, -1.f, 0.5f, -0.5f, 1.5f, -1.5f, 2.5f, -2.5f, 0.25f, -0.75f, 100.f, -3.f, 8388607.f, 8388609.f, -8388608.f, 1e6f, -1e-3f, 2147483520.f, 3e9f, -3e9f, 1e20f }); }
MC_CONFIG("SIMD, double") { simd<double>(c, { 0., 1., -1., 0.5, -2.5, 100., 1e-9, -1e100, 3., 7. }); }
MC_CONFIG("SIMD, int8") { std::vector<char> v; for(int i = -128; i < 128; i += c.pick(5, 1)) v.push_back((char)i); v.push_back(127); simd<char>(c, v); }
MC_CONFIG("SIMD, int16") { simd<int16_t>(c, { 0, 1, -1, 2, -2, 127, 128, 255, 256, -256, 32767, -32768, 12345, -12345, 0x5555, 3, 100 }); }
MC_CONFIG("SIMD, int32") { simd<int>(c, { 0, 1, -1, 2, -2, 3, -3, 255, 256, 65535, 65536, -65536, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 123456789, -123456789, 0x55555555 }); }
MC_CONFIG("SIMD, int64") { simd<int64_t>(c, { 0, 1, -1, 2, -2, 255, 1LL << 31, 1LL << 32, -(1LL << 32), INT64_MAX, INT64_MIN, 123456789012345LL, -123456789012345LL, 0x5555555555555555LL }); }
