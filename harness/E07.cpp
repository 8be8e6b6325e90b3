// BUILD: seq
// Curves, solvers, quadrature and samplers of algo.h: every curve, polynomial and subdivision of a small lattice against exact integer or long double arithmetic.
#include "mc.h"
#include <cmath>
#include <deque>
#include "bss-util/algo.h"
#include "bss-util/RandomQueue.h"
using namespace bss;
typedef long double L;
template<class T> static L eps() { return sizeof(T) == 4 ? 3e-5L : 1e-9L; }
template<class T> static bool near(T a, L b, L scale = 1) { return std::isfinite((double)a) && fabsl((L)a - b) <= eps<T>() * (1 + fabsl(b) + scale); }
static const double TS[] = { 0, 0.125, 0.25, 0.5, 0.625, 1 };
static L bez3(L t, L a, L b, L c, L d) { L s = 1 - t; return s * s * s * a + 3 * s * s * t * b + 3 * s * t * t * c + t * t * t * d; }
static L bez2(L t, L a, L b, L c) { L s = 1 - t; return s * s * a + 2 * s * t * b + t * t * c; }
static constexpr double CM[4][4] = { { 1, -2, 3, -4 }, { 0, 5, -6, 7 }, { 8, 0, -9, 10 }, { -11, 12, 0, 13 } };
// ---------------------------------------------------------------- evaluators
template<class T> static void evals(mc::Ctx& c) { static const int V[] = { -3, 0, 1, 4 };
  mc::enumerate(c, [&](mc::Choose& ch) { T t = (T)TS[ch(6)], p[4]; for(auto& v : p) v = (T)ch.of(V); L t1 = t, t2 = t1 * t1, t3 = t2 * t1, a = p[0], b = p[1], d = p[2], e = p[3];
#define EV(what, got, want) { T g = (got); L w = (want); MC_CHECK(near(g, w), "%s at %g of %g %g %g %g is %g, expected %g", what, (double)t, (double)p[0], (double)p[1], (double)p[2], (double)p[3], (double)g, (double)w); }
    EV("UniformQuadraticBSpline", (UniformQuadraticBSpline<T, T>(t, p[0], p[1], p[2])), (a * (1 - 2 * t1 + t2) + b * (1 + 2 * t1 - 2 * t2) + d * t2) / 2)
    EV("UniformCubicBSpline", (UniformCubicBSpline<T, T>(t, p[0], p[1], p[2], p[3])), (t3 * (-a + 3 * b - 3 * d + e) + t2 * (3 * a - 6 * b + 3 * d) + t1 * (-3 * a + 3 * d) + a + 4 * b + d) / 6)
    EV("CubicBSpline", (CubicBSpline<T, T>(t, p[0], p[1], p[2], p[3])), (t3 * (-a + 3 * b - 3 * d + e) + t2 * (2 * a - 5 * b + 4 * d - e) + t1 * (-a + d) + 2 * b) / 2)
    EV("BezierCurve", (BezierCurve<T, T>(t, p[0], p[1], p[2], p[3])), bez3(t1, a, b, d, e))
    EV("QuadraticBezierCurve", (QuadraticBezierCurve<T, T>(t, p[0], p[1], p[2])), bez2(t1, a, b, d))
    if constexpr(sizeof(T) == 8) { L w_ = 0, pw[4] = { t3, t2, t1, 1 }; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) w_ += pw[i] * CM[i][j] * p[j]; EV("StaticGenericSpline", (StaticGenericSpline<T, T, CM>(t, p)), w_) }
    c.outcome((long long)(p[0] + 10 * p[3])); });
}
MC_CONFIG("splines double") { evals<double>(c); }
MC_CONFIG("splines float") { evals<float>(c); }
// ---------------------------------------------------------------- splitting
template<class T, int I> static void split(mc::Ctx& c) { static const int V[] = { -2, 0, 3 };
  mc::enumerate(c, [&](mc::Choose& ch) { T t = (T)TS[ch(6)], P[4][I]; for(auto& p : P) for(int i = 0; i < I; ++i) p[i] = (T)(i < 2 ? ch.of(V) : i + (int)p[0] * 2); T N1[I], N2[I], N3[I], R1[I], R2[I]; SplitCubic<T, I>(t, P[0], P[1], P[2], P[3], N1, N2, N3, R1, R2);
    for(int i = 0; i < I; ++i) for(double s : TS) { L l = bez3(s, P[0][i], N1[i], N2[i], N3[i]), r = bez3(s, N3[i], R1[i], R2[i], P[3][i]), wl = bez3(s * t, P[0][i], P[1][i], P[2][i], P[3][i]), wr = bez3(t + s * (1 - (L)t), P[0][i], P[1][i], P[2][i], P[3][i]); MC_CHECK(near((T)l, wl, 4) && near((T)r, wr, 4), "SplitCubic at %g of %g %g %g %g, coordinate %d: the halves at %g are %g and %g, expected %g and %g", (double)t, (double)P[0][i], (double)P[1][i], (double)P[2][i], (double)P[3][i], i, s, (double)l, (double)r, (double)wl, (double)wr); }
    T M1[I], M2[I], Q1[I]; SplitQuadratic<T, I>(t, P[0], P[1], P[2], M1, M2, Q1);
    for(int i = 0; i < I; ++i) for(double s : TS) { L l = bez2(s, P[0][i], M1[i], M2[i]), r = bez2(s, M2[i], Q1[i], P[2][i]), wl = bez2(s * t, P[0][i], P[1][i], P[2][i]), wr = bez2(t + s * (1 - (L)t), P[0][i], P[1][i], P[2][i]); MC_CHECK(near((T)l, wl, 4) && near((T)r, wr, 4), "SplitQuadratic at %g of %g %g %g, coordinate %d: the halves at %g are %g and %g, expected %g and %g", (double)t, (double)P[0][i], (double)P[1][i], (double)P[2][i], i, s, (double)l, (double)r, (double)wl, (double)wr); }
    c.outcome((long long)(N3[0] * 16)); });
}
MC_CONFIG("splits") { split<double, 1>(c); split<double, 2>(c); split<float, 2>(c); if(c.thorough) split<double, 3>(c); }
// ---------------------------------------------------------------- quadratics
template<class T> static void quad(mc::Ctx& c) { int n = c.pick(8, 24);
  mc::enumerate(c, [&](mc::Choose& ch) { long long a = (int)ch(2 * n + 1) - n, b = (int)ch(2 * n + 1) - n, d = (int)ch(2 * n + 1) - n; long long D = b * b - 4 * a * d; c.outcome(a == 0 ? 0 : D > 0 ? 2 : D == 0 ? 1 : 3); if(a == 0 || D < 0) return; T r[2]; SolveQuadratic<T>((T)a, (T)b, (T)d, r); L s = sqrtl((L)D), w0 = (-b - s) / (2 * a), w1 = (-b + s) / (2 * a); L tol = D ? 1 : 100; bool ok = (near(r[0], w0, tol) && near(r[1], w1, tol)) || (near(r[0], w1, tol) && near(r[1], w0, tol)); MC_CHECK(ok, "SolveQuadratic(%lld, %lld, %lld) gives %.10g and %.10g, expected %.10g and %.10g", a, b, d, (double)r[0], (double)r[1], (double)w0, (double)w1); });
}
MC_CONFIG("quadratic roots") { quad<double>(c); quad<float>(c); }
MC_CONFIG("quadratic fits") { int n = c.pick(2, 4); mc::enumerate(c, [&](mc::Choose& ch) { double x[3], y[3]; for(int i = 0; i < 3; ++i) { x[i] = (int)ch(2 * n + 1) - n; y[i] = (int)ch(2 * n + 1) - n; } c.outcome((x[0] != x[1]) + 2 * (x[1] != x[2]) + 4 * (x[0] != x[2])); if(x[0] == x[1] || x[1] == x[2] || x[0] == x[2]) return;
    for(double t = -3; t <= 3; t += 0.5) { L w = 0; for(int i = 0; i < 3; ++i) { L k = y[i]; for(int j = 0; j < 3; ++j) if(i != j) k *= ((L)t - x[j]) / ((L)x[i] - x[j]); w += k; } double g = QuadraticFit<double>(t, x[0], y[0], x[1], y[1], x[2], y[2]); MC_CHECK(near(g, w, 50), "QuadraticFit at %g through (%g,%g) (%g,%g) (%g,%g) is %g, expected %g", t, x[0], y[0], x[1], y[1], x[2], y[2], g, (double)w);
      // the canonical fit is the quadratic with x1 -> x1, x2 -> the middle of x1 and x3, x3 -> x3
      L yy[3] = { x[0], (x[0] + x[2]) / 2, x[2] }; w = 0; for(int i = 0; i < 3; ++i) { L k = yy[i]; for(int j = 0; j < 3; ++j) if(i != j) k *= ((L)t - x[j]) / ((L)x[i] - x[j]); w += k; } g = QuadraticCanonicalFit<double>(t, x[0], x[1], x[2]); MC_CHECK(near(g, w, 50), "QuadraticCanonicalFit at %g of %g %g %g is %g, expected %g", t, x[0], x[1], x[2], g, (double)w); } }); }
// ---------------------------------------------------------------- cubics
template<class T> static void cubic(mc::Ctx& c) { int n = c.pick(8, 12);
  mc::enumerate(c, [&](mc::Choose& ch) { long long k[4]; for(auto& v : k) v = (int)ch(2 * n + 1) - n; long long a = k[0], b = k[1], d = k[2], e = k[3]; if(!a) return; long long D = 18 * a * b * d * e - 4 * b * b * b * e + b * b * d * d - 4 * a * d * d * d - 27 * a * a * e * e; T r[3] = { NAN, NAN, NAN }; int m = solveCubic<T>((T)a, (T)b, (T)d, (T)e, r); c.outcome(m + 10 * (D > 0 ? 1 : D < 0 ? 2 : 3));
    MC_CHECK(D > 0 ? m == 3 : D < 0 ? m == 1 : m >= 1 && m <= 3, "solveCubic(%lld, %lld, %lld, %lld) gives %d roots; the discriminant is %lld", a, b, d, e, m, D);
    L tol = sizeof(T) == 4 ? 2e-2L : 1e-2L; for(int i = 0; i < m; ++i) { L x = r[i], v = ((a * x + b) * x + d) * x + e, s = fabsl(a * x * x * x) + fabsl(b * x * x) + fabsl(d * x) + fabsl((L)e) + 1; MC_CHECK(std::isfinite((double)r[i]) && fabsl(v) <= tol * s, "solveCubic(%lld, %lld, %lld, %lld): root %d of %d is %.12g, where the polynomial is %.12g", a, b, d, e, i, m, (double)r[i], (double)v); }
    if(D > 0) { std::sort(r, r + 3); for(int i = 0; i < 2; ++i) { // a root of the derivative lies between neighbours
        L q = sqrtl((L)b * b - 3.0L * a * d), x = (a > 0) == (i == 0) ? (-b - q) / (3 * a) : (-b + q) / (3 * a); MC_CHECK(r[i] < x && x < r[i + 1], "solveCubic(%lld, %lld, %lld, %lld) gives the roots %.10g %.10g %.10g, but two of them should be separated by %.10g", a, b, d, e, (double)r[0], (double)r[1], (double)r[2], (double)x); } } });
}
MC_CONFIG("cubic roots") { cubic<double>(c); }
// ---------------------------------------------------------------- inflection points and approximation by quadratics
typedef long long Pt[2];
MC_CONFIG("inflection points") { static const int V[] = { -2, 0, 1, 3 }; mc::enumerate(c, [&](mc::Choose& ch) { double P[4][2]; P[0][0] = 0; P[0][1] = 0; for(int k = 1; k < 4; ++k) for(int i = 0; i < 2; ++i) P[k][i] = ch.of(V); double a[2], b[2], d[2]; for(int i = 0; i < 2; ++i) { a[i] = P[1][i] - P[0][i]; b[i] = P[2][i] - 2 * P[1][i] + P[0][i]; d[i] = P[3][i] - 3 * P[2][i] + 3 * P[1][i] - P[0][i]; } double A = b[0] * d[1] - b[1] * d[0], B = a[0] * d[1] - a[1] * d[0], C = a[0] * b[1] - a[1] * b[0]; c.outcome(A == 0 ? 0 : B * B - 4 * A * C < 0 ? 1 : 2); if(A == 0 || B * B - 4 * A * C < 0) return;
    double r[2]; CubicInflectionPoints<double>(P[0], P[1], P[2], P[3], r); for(double t : r) { MC_CHECK(std::isfinite(t), "CubicInflectionPoints of (0,0) (%g,%g) (%g,%g) (%g,%g) gives %g", P[1][0], P[1][1], P[2][0], P[2][1], P[3][0], P[3][1], t); L d1[2], d2[2]; for(int i = 0; i < 2; ++i) { d1[i] = 3 * (a[i] + 2 * (L)t * b[i] + (L)t * t * d[i]); d2[i] = 6 * (b[i] + (L)t * d[i]); } L x = d1[0] * d2[1] - d1[1] * d2[0], s = (fabsl(d1[0]) + fabsl(d1[1])) * (fabsl(d2[0]) + fabsl(d2[1])) + 1; MC_CHECK(fabsl(x) <= 1e-6L * s * (1 + fabsl((L)t)), "CubicInflectionPoints of (0,0) (%g,%g) (%g,%g) (%g,%g) gives %.10g, where the curvature is %.10g", P[1][0], P[1][1], P[2][0], P[2][1], P[3][0], P[3][1], t, (double)x); }
    MC_CHECK(B * B - 4 * A * C == 0 || fabs(r[0] - r[1]) > 1e-9, "CubicInflectionPoints of (0,0) (%g,%g) (%g,%g) (%g,%g) gives %.10g twice", P[1][0], P[1][1], P[2][0], P[2][1], P[3][0], P[3][1], r[0]); }); }
template<class T> static void approx(mc::Ctx& c, const std::vector<int>& V, T err) {
  mc::enumerate(c, [&](mc::Choose& ch) { T P[4][2]; P[0][0] = 0; P[0][1] = 0; for(int k = 1; k < 4; ++k) for(int i = 0; i < 2; ++i) P[k][i] = (T)ch.of(V); struct Q { T p[3][2]; }; std::vector<Q> out; auto what = [&] { return mc::fmt("ApproxCubic of (0,0) (%g,%g) (%g,%g) (%g,%g) within %g", (double)P[1][0], (double)P[1][1], (double)P[2][0], (double)P[2][1], (double)P[3][0], (double)P[3][1], (double)err); };
    ApproxCubic<T>(P[0], P[1], P[2], P[3], [&](const T(&a)[2], const T(&b)[2], const T(&d)[2]) { Q q; for(int i = 0; i < 2; ++i) { q.p[0][i] = a[i]; q.p[1][i] = b[i]; q.p[2][i] = d[i]; } out.push_back(q); MC_CHECK(out.size() < 5000, "%s does not end", what().c_str()); }, err);
    MC_CHECK(out.size() && out[0].p[0][0] == P[0][0] && out[0].p[0][1] == P[0][1] && out.back().p[2][0] == P[3][0] && out.back().p[2][1] == P[3][1], "%s does not start and end where the curve does", what().c_str()); for(size_t i = 1; i < out.size(); ++i) MC_CHECK(out[i].p[0][0] == out[i - 1].p[2][0] && out[i].p[0][1] == out[i - 1].p[2][1], "%s: piece %zu does not start where the one before it ends", what().c_str(), i);
    // march along the pieces and the curve together
    const int K = 400; static std::vector<std::array<L, 2>> cur; cur.clear(); for(int i = 0; i <= K; ++i) cur.push_back({ bez3((L)i / K, P[0][0], P[1][0], P[2][0], P[3][0]), bez3((L)i / K, P[0][1], P[1][1], P[2][1], P[3][1]) });
    auto seg = [](L x, L y, const std::array<L, 2>& a, const std::array<L, 2>& b) { L dx = b[0] - a[0], dy = b[1] - a[1], l = dx * dx + dy * dy, t = l ? std::min(1.0L, std::max(0.0L, ((x - a[0]) * dx + (y - a[1]) * dy) / l)) : 0; return hypotl(x - a[0] - t * dx, y - a[1] - t * dy); };
    std::vector<std::array<L, 2>> qp; for(auto& q : out) for(int j = 0; j < 8; ++j) { L t = j / 8.0L; qp.push_back({ bez2(t, q.p[0][0], q.p[1][0], q.p[2][0]), bez2(t, q.p[0][1], q.p[1][1], q.p[2][1]) }); } qp.push_back({ out.back().p[2][0], out.back().p[2][1] }); L slack = (L)err * 1.05L + 2e-3L;
    for(auto& p : qp) { L m = 1e9; for(int i = 0; i < K; ++i) m = std::min(m, seg(p[0], p[1], cur[i], cur[i + 1])); MC_CHECK(m <= slack, "%s: a piece passes through (%g,%g), %g away from the curve", what().c_str(), (double)p[0], (double)p[1], (double)m); }
    for(int i = 0; i <= K; i += 4) { L m = 1e9; for(size_t j = 0; j + 1 < qp.size(); ++j) m = std::min(m, seg(cur[i][0], cur[i][1], qp[j], qp[j + 1])); MC_CHECK(m <= slack + (L)err + 0.02L, "%s: no piece comes closer than %g to the curve at %g", what().c_str(), (double)m, i / (double)K); }
    c.outcome(out.size()); });
}
MC_CONFIG("approximation") { approx<double>(c, { -2, 0, 3 }, 0.05); approx<float>(c, { -1, 0, 4 }, 0.1f); approx<double>(c, { 0, 2 }, 0.01); if(c.thorough) approx<double>(c, { -3, 0, 1, 4 }, 0.02); }
// ---------------------------------------------------------------- root finding
MC_CONFIG("Newton") { mc::enumerate(c, [&](mc::Choose& ch) { static const double A[] = { -4, -1, 0, 2 }, B[] = { -3, 0, 1, 5 }, X[] = { -3, -1, -0.5, 0, 0.7, 2, 10 }; double k3 = (int)ch(3) - 1, k2 = (int)ch(3) - 1, k1 = ch.of(A), k0 = ch.of(B), x0 = ch.of(X); size_t it = (size_t[]){ 0, 1, 2, 20, 60 }[ch(5)]; auto F = [&](double x) { return ((k3 * x + k2) * x + k1) * x + k0; }; auto dF = [&](double x) { return (3 * k3 * x + 2 * k2) * x + k1; }; double r = 12345; bool ok = NewtonRaphson<double>(r, x0, F, dF, 1e-9, it); c.outcome(ok);
    double x = x0; bool want = false; for(size_t i = 0; i < it && !want; ++i) { if(fabs(F(x)) <= 1e-9) want = true; else x -= F(x) / dF(x); }
    MC_CHECK(ok == want, "NewtonRaphson of %gx^3%+gx^2%+gx%+g from %g in %zu steps returns %d, expected %d", k3, k2, k1, k0, x0, it, ok, want); if(ok) MC_CHECK(fabs(F(r)) <= 1e-9, "NewtonRaphson of %gx^3%+gx^2%+gx%+g from %g in %zu steps gives %.10g, where it is %g", k3, k2, k1, k0, x0, it, r, F(r)); }); }
MC_CONFIG("Newton with bisection") { mc::enumerate(c, [&](mc::Choose& ch) { int kind = (int)ch(7); double root = ((int)ch(9) - 4) / 2.0, lo = (int)ch(3) - 6, hi = 4 + (int)ch(3), x0 = lo + (hi - lo) * ch(9) / 8.0; if(x0 == lo || x0 == hi) x0 = (lo + hi) / 2 ; auto F = [&](double y) { double x = y - root; return kind == 0 ? x : kind == 1 ? x * x * x : kind == 2 ? x * x * x + x : kind == 3 ? atan(x * 8) : kind == 5 ? (x < 0 ? -sqrt(-x) : sqrt(x)) : kind == 6 ? cbrt(x) : x < 0 ? x / 100 : x * 50; }; auto dF = [&](double y) { double x = y - root; return kind == 0 ? 1 : kind == 1 ? 3 * x * x : kind == 2 ? 3 * x * x + 1 : kind == 3 ? 8 / (1 + 64 * x * x) : kind == 5 ? 0.5 / sqrt(fabs(x)) : kind == 6 ? 1 / (3 * cbrt(x * x)) : x < 0 ? 0.01 : 50; }; double r = NewtonRaphsonBisection<double>(x0, lo, hi, F, dF, 1e-10, 60); c.outcome(kind); MC_CHECK(fabs(r - root) <= (kind == 1 ? 1e-3 : 1e-6), "NewtonRaphsonBisection of function %d with the root %g in [%g, %g] from %g gives %.10g", kind, root, lo, hi, x0, r); }); }
// ---------------------------------------------------------------- quadrature
static double poly(double x, double a, double b, double d) { (void)d; return a * x + b; }
static double mono(double x, int k) { double r = 1; while(k--) r *= x; return r; }
template<int N> static void gauss(mc::Ctx& c) { mc::enumerate(c, [&](mc::Choose& ch) { double a = ((int)ch(9) - 4) / 2.0, b = ((int)ch(9) - 4) / 2.0; int k = (int)ch(2 * N); double g = GaussianQuadrature<double, N, int>(a, b, &mono, k); L w = (powl(b, k + 1) - powl(a, k + 1)) / (k + 1); MC_CHECK(near(g, w), "GaussianQuadrature with %d points of x^%d over [%g, %g] is %.12g, expected %.12g", N, k, a, b, g, (double)w); g = GaussianQuadrature<double, N, double, double, double>(a, b, &poly, 3.0, -2.0, 0.0); w = 1.5L * (b * b - a * a) - 2 * (b - a); MC_CHECK(near(g, w), "GaussianQuadrature with %d points of 3x-2 over [%g, %g] is %.12g, expected %.12g", N, a, b, g, (double)w); c.outcome(k); }); }
MC_CONFIG("quadrature") { gauss<1>(c); gauss<2>(c); gauss<3>(c); gauss<4>(c); gauss<5>(c); }
// ---------------------------------------------------------------- samplers
MC_CONFIG("subdivision") { mc::enumerate(c, [&](mc::Choose& ch) { static const double FR[] = { 0.25, 0.5, 0.875 }; double rect[4] = { -8, 0, 8, 32 }; struct R { double r[4]; size_t d; }; std::vector<R> leaf; size_t calls = 0; std::vector<R> pending; StochasticSubdivider<double>(rect, [&](size_t d, const double(&r)[4]) { ++calls; MC_CHECK(r[0] <= r[2] && r[1] <= r[3] && r[0] >= -8 && r[2] <= 8 && r[1] >= 0 && r[3] <= 32, "a rect at depth %zu lies outside of the whole", d); bool stop = d >= (size_t)c.pick(4, 5) || ch(2); return stop ? 2.0 : -1.0; }, [&](const double(&r)[4]) { R x; for(int i = 0; i < 4; ++i) x.r[i] = r[i]; leaf.push_back(x); }, [&](size_t d, const double(&)[4]) { return FR[d % 3]; });
    MC_CHECK(calls == 2 * leaf.size() - 1, "%zu rects were visited and %zu are leaves", calls, leaf.size()); double area = 0; for(auto& l : leaf) area += (l.r[2] - l.r[0]) * (l.r[3] - l.r[1]); MC_CHECK(area == 16 * 32, "the leaves cover an area of %g of 512", area); for(size_t i = 0; i < leaf.size(); ++i) for(size_t j = 0; j < i; ++j) MC_CHECK(leaf[i].r[0] >= leaf[j].r[2] || leaf[j].r[0] >= leaf[i].r[2] || leaf[i].r[1] >= leaf[j].r[3] || leaf[j].r[1] >= leaf[i].r[3], "two leaves overlap"); c.outcome(leaf.size()); }); }
struct Script { typedef uint64_t result_type; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ULL; } std::deque<uint64_t> q; uint64_t last = 0x8000000000000000ULL; size_t used = 0; uint64_t operator()() { ++used; if(q.empty()) return last; uint64_t r = q.front(); q.pop_front(); return r; } };
MC_CONFIG("normal distribution") { Script e; NormalZig<128, double, Script> z(128, 9.91256303526217e-3, ZIGNOR_R, e); auto f = [](L x) { return expl(-0.5L * x * x); }; L V = 9.91256303526217e-3L;
  L X[129]; X[0] = V / f(ZIGNOR_R); X[1] = ZIGNOR_R; X[128] = 0; for(int i = 2; i < 128; ++i) X[i] = sqrtl(-2 * logl(V / X[i - 1] + f(X[i - 1]))); // every box has the area V
  for(int i = 0; i < 128; ++i) { MC_CHECK(fabsl(z.s_adZigX[i] - X[i]) < 1e-9L, "box %d ends at %.12g, expected %.12g", i, z.s_adZigX[i], (double)X[i]); MC_CHECK(fabsl(z.s_adZigR[i] - X[i + 1] / X[i]) < 1e-9L, "the ratio of box %d is %.12g, expected %.12g", i, z.s_adZigR[i], (double)(X[i + 1] / X[i])); }
  MC_CHECK(fabsl(z.s_adZigX[128]) < 1e-9L, "the last box ends at %g", z.s_adZigX[128]); int n = c.pick(32, 256);
  mc::enumerate(c, [&](mc::Choose& ch) { int i = (int)ch(128), a = (int)ch(n), b = (int)ch(8); L u01 = (a + 0.5L) / n, u = 2 * u01 - 1, w = (b + 0.5L) / 8; e.q = { (uint64_t)(u01 * 18446744073709551616.0L), ((uint64_t)i << 57) | 12345, (uint64_t)(w * 18446744073709551616.0L), 0xC000000000000000ULL, 1ULL << 63, ((uint64_t)5 << 57) }; e.used = 0; e.last = 1ULL << 63; double got = z.Get();
    L x = u * X[i]; if(fabsl(fabsl(u) - X[i + 1] / X[i]) < 1e-6L) return; if(fabsl(u) < X[i + 1] / X[i]) { MC_CHECK(e.used == 2 && fabsl(got - x) < 1e-9L, "box %d at %g: gives %.12g after %zu draws, expected %.12g after 2", i, (double)u, got, e.used, (double)x); c.outcome(0); }
    else if(i == 0) { L p = logl(w) / ZIGNOR_R, q = logl(0.75L); if(fabsl(-2 * q - p * p) < 1e-9L) return; if(-2 * q >= p * p) { L t = u < 0 ? p - ZIGNOR_R : ZIGNOR_R - p; MC_CHECK(e.used == 4 && fabsl(got - t) < 1e-9L, "tail at %g: gives %.12g after %zu draws, expected %.12g after 4", (double)u, got, e.used, (double)t); c.outcome(1); } else MC_CHECK(e.used > 4, "tail at %g accepts a rejected sample", (double)u); }
    else { L y = f(X[i]) + 0 * w; y = f(X[i + 1]) + w * (f(X[i]) - f(X[i + 1])); bool in = y < f(x); if(fabsl(y - f(x)) < 1e-9L) return; if(in) { MC_CHECK(e.used == 3 && fabsl(got - x) < 1e-9L, "wedge of box %d at %g: gives %.12g after %zu draws, expected %.12g after 3", i, (double)u, got, e.used, (double)x); c.outcome(2); } else { MC_CHECK(e.used > 3, "wedge of box %d at %g accepts a point above the density", i, (double)u); c.outcome(3); } } }); }
MC_CONFIG("poisson disks") { int n = c.pick(200, 3000); mc::enumerate(c, [&](mc::Choose& ch) { static const float D[] = { 1.0f, 3.5f, 9.0f }; int seed = (int)ch(n); float d = ch.of(D); float rect[4] = { -5, 10, 15, 22 }; bss_getdefaultengine().seed((uint64_t)seed * 0x9E3779B97F4A7C15ULL + 1); std::vector<std::array<float, 2>> pts; PoissonDiskSample<float>(rect, d, [&](float* p) { pts.push_back({ p[0], p[1] }); MC_CHECK(pts.size() < 5000, "too many points"); }, 10); MC_CHECK(!pts.empty(), "no point"); for(size_t i = 0; i < pts.size(); ++i) { MC_CHECK(pts[i][0] >= rect[0] && pts[i][0] <= rect[2] && pts[i][1] >= rect[1] && pts[i][1] <= rect[3], "seed %d: point %zu (%g,%g) is outside", seed, i, pts[i][0], pts[i][1]); for(size_t j = 0; j < i; ++j) MC_CHECK(hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1]) >= d * 0.99999, "seed %d: points %zu and %zu are %g apart, less than %g", seed, i, j, hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1]), d); } c.outcome(pts.size()); }); }
