// BUILD: seq
// Shapes: containment, collision, intersection and distance of every shape of a small lattice, against exact integer arithmetic (or a long double oracle with a margin).
#include "mc.h"
#include "bss-util/Geometry.h"
#include <cmath>
using namespace bss;
typedef long double L;
static const double E = 1e-9;
static bool nr(double a, double b, double e = E) { return std::fabs(a - b) <= e * (1 + std::fabs(b)); }
typedef Vector<double, 2> V;
static long sq(long a) { return a * a; }
static std::string pts(const std::vector<V>& v) { std::string s; for(auto& p : v) s += mc::fmt("(%g,%g)", p.x, p.y); return s; }

// ---------------------------------------------------------------- circles and spheres
MC_CONFIG("circles") {
  int m = c.pick(6, 8), R = c.pick(6, 7);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int cx = (int)ch(2) - 1, cy = 2 * (int)ch(2) - 1, r = 1 + (int)ch(R), x = (int)ch(2 * m + 1) - m, y = (int)ch(2 * m + 1) - m, r2 = 1 + (int)ch(R); long d2 = sq(x - cx) + sq(y - cy); std::string at = mc::fmt("circle (%d,%d) radius %d and (%d,%d) radius %d", cx, cy, r, x, y, r2);
    auto T = [&](auto z) { typedef decltype(z) N; typedef Vector<N, 2> W; Circle<N> k((N)cx, (N)cy, (N)r), o(W((N)x, (N)y), (N)r2); const Circle<N>& q = k;
      MC_CHECK(q.x == (N)cx && q.c.y == (N)cy && q.v[2] == (N)r && q.Diameter() == (N)(2 * r) && q.Radius() == (N)r, "%s: its parts", at.c_str());
      bool in = d2 < sq(r); MC_CHECK(q.ContainsPoint(o.c) == in && q.ContainsPoint((N)x, (N)y) == in && CircleContainsPoint<N>(cx, cy, r, x, y) == in && RadiusContainsPoint<N>(r, x - cx, y - cy) == in && (SphereContainsPoint<N, 2>(o.c, q.c, r) == in), "%s: contains the point: should be %d", at.c_str(), in);
      bool cc = r > r2 && d2 < sq(r - r2); MC_CHECK(q.ContainsCircle(o) == cc && q.ContainsCircle(o.c, (N)r2) == cc && q.ContainsCircle((N)x, (N)y, (N)r2) == cc && CircleContainsCircle<N>(cx, cy, r, x, y, r2) == cc && (SphereContainsSphere<N, 2>(q.c, r, o.c, r2) == cc), "%s: contains the circle: should be %d", at.c_str(), cc);
      bool co = d2 < sq(r + r2); MC_CHECK(q.CircleCollide((N)x, (N)y, (N)r2) == co && q.CircleCollide(o.c, (N)r2) == co && CircleCircleCollide<N>(cx, cy, r, x, y, r2) == co && (SphereSphereCollide<N, 2>(q.c, r, o.c, r2) == co), "%s: collide: should be %d", at.c_str(), co);
      Circle<float> cf(q); Circle<double> cd; cd = cf; MC_CHECK(cd.x == cx && cd.y == cy && cd.r == r, "%s: converted", at.c_str()); };
    T((double)0); T((float)0); T((int)0);
    Circle<double> k(cx, cy, r); MC_CHECK(nr(k.Area(), M_PI * r * r) && nr(k.Circumference(), 2 * M_PI * r), "%s: area/circumference", at.c_str());
    V o[2] = { V(99, 99), V(99, 99) }; bool meet = d2 <= sq(r + r2) && d2 >= sq(r - r2) && d2 > 0;
    for(int w = 0; w < 2; ++w) { int n = w ? k.CircleIntersect(x, y, r2, o) : CircleCircleIntersect<double>(cx, cy, r, x, y, r2, o); MC_CHECK((n > 0) == meet && n <= 2, "%s: %d intersections, should %sintersect", at.c_str(), n, meet ? "" : "not "); bool tangent = d2 == sq(r + r2) || d2 == sq(r - r2);
      for(int i = 0; i < n; ++i) MC_CHECK(nr(std::hypot(o[i].x - cx, o[i].y - cy), r, 1e-6) && nr(std::hypot(o[i].x - x, o[i].y - y), r2, 1e-6), "%s: (%g,%g) is reported as intersection but is not on both circles", at.c_str(), o[i].x, o[i].y);
      if(n > 0 && !tangent) MC_CHECK(n == 2 && std::hypot(o[0].x - o[1].x, o[0].y - o[1].y) > 1e-3, "%s: both intersections must be reported", at.c_str()); }
    if(d2 > 0) { double X, Y; for(int w = 0; w < 3; ++w) { if(w == 0) k.NearestPoint(x, y, X, Y); else if(w == 1) k.NearestPoint(V(x, y), X, Y); else CircleNearestPoint<double>(cx, cy, r, x, y, X, Y); double s = r / std::sqrt((double)d2); MC_CHECK(nr(X, cx + (x - cx) * s) && nr(Y, cy + (y - cy) * s), "%s: nearest point of the circle is (%g,%g), expected (%g,%g)", at.c_str(), X, Y, cx + (x - cx) * s, cy + (y - cy) * s); } }
    c.outcome(meet);
  });
}
template<int N> static void spheres(mc::Ctx& c, int m, int R) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    double a[N], b[N]; long d2 = 0; for(int i = 0; i < N; ++i) { a[i] = i - 1; b[i] = (int)ch(2 * m + 1) - m; d2 += sq((long)(a[i] - b[i])); } int r = 1 + (int)ch(R), r2 = 1 + (int)ch(R); Vector<double, N> A(a), B(b); NSphere<double, N> s(A, r), o(b, r2);
    bool in = d2 < sq(r), cc = r > r2 && d2 < sq(r - r2), co = d2 < sq(r + r2);
    MC_CHECK(s.ContainsPoint(B) == in && s.ContainsSphere(o) == cc && s.ContainsSphere(B, r2) == cc && s.SphereCollide(o) == co && s.SphereCollide(B, r2) == co && s.Diameter() == 2 * r, "%d-sphere radius %d and radius %d, squared distance %ld", N, r, r2, d2);
    NSphere<float, N> f(s); for(int i = 0; i < N; ++i) MC_CHECK(f.c.v[i] == (float)a[i] && s.v[i] == a[i], "sphere centre"); MC_CHECK(f.r == r && s.v[N] == r, "sphere radius");
    if constexpr(N == 3) { MC_CHECK(nr(s.Volume(), 4 * M_PI * r * r * r / 3) && nr(s.SurfaceArea(), 4 * M_PI * r * r) && s.x == a[0] && s.y == a[1] && s.z == a[2], "sphere volume/surface"); }
    c.outcome(co);
  });
}
MC_CONFIG("sphere3") { spheres<3>(c, c.pick(5, 7), 4); }
MC_CONFIG("sphere4") { spheres<4>(c, c.pick(3, 4), 4); }

// ---------------------------------------------------------------- lines
MC_CONFIG("line_circle") {
  int m = c.pick(4, 5);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int X1 = (int)ch(2 * m + 1) - m, Y1 = (int)ch(2 * m + 1) - m, X2 = (int)ch(2 * m + 1) - m, Y2 = (int)ch(2 * m + 1) - m, r = 1 + (int)ch(m + 1), cx = (int)ch(2), cy = -(int)ch(2); if(X1 == X2 && Y1 == Y2) return;
    long dx = X2 - X1, dy = Y2 - Y1, fx = X1 - cx, fy = Y1 - cy, len2 = dx * dx + dy * dy, det = dx * fy - dy * fx; std::string at = mc::fmt("line (%d,%d)-(%d,%d), circle (%d,%d) radius %d", X1, Y1, X2, Y2, cx, cy, r);
    Circle<double> k(cx, cy, r); bool hit = det * det <= sq(r) * len2; // the exact crossing parameters are (-f.d -+ sqrt(r^2 len2 - det^2)) / len2
    L s = hit ? sqrtl((L)(sq(r) * len2 - det * det)) : 0, b = fx * dx + fy * dy, t[2] = { (-b - s) / len2, (-b + s) / len2 };
    auto ok = [&](int i, bool lo, bool hi) { return hit && (!lo || t[i] >= 0) && (!hi || t[i] <= 1); };
    for(int w = 0; w < 3; ++w) { bool e[2] = { ok(0, w > 0, w > 1), ok(1, w > 0, w > 1) }; bool any = e[0] || e[1]; bool edge = false; for(int i = 0; i < 2; ++i) edge |= hit && w && (fabsl(t[i]) < 1e-6L || (w > 1 && fabsl(t[i] - 1) < 1e-6L)); if(edge) continue; /* an end exactly on the outline: the square root is approximate, either answer */ bool g = w == 0 ? k.LineCollide(X1, Y1, X2, Y2) : w == 1 ? k.RayCollide(X1, Y1, X2, Y2) : k.LineSegmentCollide(X1, Y1, X2, Y2);
      MC_CHECK(g == any, "%s: %s crosses the outline: said %d, should be %d", at.c_str(), w == 0 ? "line" : w == 1 ? "ray" : "segment", g, any);
      V o[2] = { V(99, 99), V(99, 99) }; int n = w == 0 ? k.LineIntersect(X1, Y1, X2, Y2, o) : w == 1 ? k.RayIntersect(X1, Y1, X2, Y2, o) : k.LineSegmentIntersect(X1, Y1, X2, Y2, o); int want = e[0] + e[1];
      MC_CHECK(n == want || (s == 0 && hit && n > 0 && any), "%s: %d intersections with the %s, expected %d", at.c_str(), n, w == 0 ? "line" : w == 1 ? "ray" : "segment", want); int j = 0;
      for(int i = 0; i < 2; ++i) if(e[i]) { MC_CHECK(j >= n || (nr(o[j].x, (double)(X1 + t[i] * dx), 1e-7) && nr(o[j].y, (double)(Y1 + t[i] * dy), 1e-7)), "%s: intersection %d is (%g,%g), expected (%g,%g)", at.c_str(), j, o[j].x, o[j].y, (double)(X1 + t[i] * dx), (double)(Y1 + t[i] * dy)); ++j; } }
    c.outcome(hit);
  });
}
MC_CONFIG("line_point") {
  int m = c.pick(5, 7);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int X1 = (int)ch(2 * m + 1) - m, Y1 = (int)ch(2 * m + 1) - m, X2 = (int)ch(2 * m + 1) - m, Y2 = (int)ch(2 * m + 1) - m, x = (int)ch(2 * m + 1) - m, y = (int)ch(2 * m + 1) - m; if(X1 == X2 && Y1 == Y2) return;
    double dx = X2 - X1, dy = Y2 - Y1, u = ((x - X1) * dx + (y - Y1) * dy) / (dx * dx + dy * dy); std::string at = mc::fmt("line (%d,%d)-(%d,%d), point (%d,%d)", X1, Y1, X2, Y2, x, y);
    double us = u < 0 ? 0 : u > 1 ? 1 : u, ur = u < 0 ? 0 : u, X, Y; auto d2 = [&](double w) { return (X1 + w * dx - x) * (X1 + w * dx - x) + (Y1 + w * dy - y) * (Y1 + w * dy - y); };
    MC_CHECK(nr(LinePointParametricProject<double>(X1, Y1, X2, Y2, x, y), u), "%s: projection", at.c_str());
    LineNearestPoint<double>(X1, Y1, X2, Y2, x, y, X, Y); MC_CHECK(nr(X, X1 + u * dx) && nr(Y, Y1 + u * dy), "%s: nearest point (%g,%g)", at.c_str(), X, Y); RayNearestPoint<double>(X1, Y1, X2, Y2, x, y, X, Y); MC_CHECK(nr(X, X1 + ur * dx) && nr(Y, Y1 + ur * dy), "%s: nearest point of the ray (%g,%g)", at.c_str(), X, Y); LineSegmentNearestPoint<double>(X1, Y1, X2, Y2, x, y, X, Y); MC_CHECK(nr(X, X1 + us * dx) && nr(Y, Y1 + us * dy), "%s: nearest point of the segment (%g,%g)", at.c_str(), X, Y);
    double a = LinePointDistanceSqr<double>(X1, Y1, X2, Y2, x, y), b = LinePointDistance<double>(X1, Y1, X2, Y2, x, y), e = LineSegmentPointDistanceSqr<double>(X1, Y1, X2, Y2, x, y), f = LineSegmentPointDistance<double>(X1, Y1, X2, Y2, x, y);
    MC_CHECK(nr(a, d2(u)), "%s: squared distance %g, expected %g", at.c_str(), a, d2(u)); MC_CHECK(nr(b, std::sqrt(a)), "%s: distance %g, expected %g", at.c_str(), b, std::sqrt(a)); MC_CHECK(nr(e, d2(us)), "%s: squared distance to the segment %g, expected %g", at.c_str(), e, d2(us)); MC_CHECK(nr(f, std::sqrt(d2(us)), 1e-7), "%s: distance to the segment %g, expected %g", at.c_str(), f, std::sqrt(d2(us)));
    Line<double> l(X1, Y1, X2, Y2); MC_CHECK(nr(l.Length(), std::hypot(dx, dy)), "%s: length", at.c_str()); V p = l.ParametricPoint(0.25); MC_CHECK(p.x == X1 + dx / 4 && p.y == Y1 + dy / 4, "%s: parametric point", at.c_str()); Line<double> rot = l.Rotate(M_PI / 2, x, y); MC_CHECK(nr(rot.x1, x - (Y1 - y)) && nr(rot.y1, y + (X1 - x)) && nr(rot.x2, x - (Y2 - y)) && nr(rot.y2, y + (X2 - x)) && rot.p1.x == rot.v[0], "%s: rotated about the point", at.c_str());
    Line<float> lf(l); Line<double> lb; Line<double>& ret = (lb = lf); MC_CHECK(&ret == &lb && lb.x1 == X1 && lb.y1 == Y1 && lb.x2 == X2 && lb.y2 == Y2, "%s: converted", at.c_str());
    Line3d<double> l3(X1, Y1, x, X2, Y2, y); MC_CHECK(nr(l3.Length(), std::sqrt(dx * dx + dy * dy + (y - x) * (y - x))), "%s: 3d length", at.c_str()); Vector<double, 3> p3 = l3.ParametricPoint(0.5); MC_CHECK(p3.v[0] == X1 + dx / 2 && p3.v[1] == Y1 + dy / 2 && p3.v[2] == (x + y) / 2.0, "%s: 3d parametric point", at.c_str()); Line3d<float> f3(l3); Line3d<double> b3; Line3d<double>& r3 = (b3 = f3); MC_CHECK(&r3 == &b3 && b3.z1 == x && b3.z2 == y && b3.x2 == X2, "%s: 3d converted", at.c_str());
    c.outcome(u < 0 ? 0 : u > 1 ? 2 : 1);
  });
}
MC_CONFIG("line_line") {
  int m = c.pick(5, 6);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int a[8]; for(int i = 0; i < 8; ++i) a[i] = (int)ch(m); if((a[0] == a[2] && a[1] == a[3]) || (a[4] == a[6] && a[5] == a[7])) return;
    long rx = a[2] - a[0], ry = a[3] - a[1], sx = a[6] - a[4], sy = a[7] - a[5], qx = a[4] - a[0], qy = a[5] - a[1], D = rx * sy - ry * sx, T = qx * sy - qy * sx, U = qx * ry - qy * rx; std::string at = mc::fmt("(%d,%d)-(%d,%d) and (%d,%d)-(%d,%d)", a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    bool par = D == 0; if(D < 0) { D = -D; T = -T; U = -U; } bool seg = !par && T >= 0 && T <= D && U >= 0 && U <= D; bool corner = !par && seg && (T == 0 || U == 0 || T == D || U == D);
    V o(99, 99); bool ll = LineLineIntersect<double>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], o); MC_CHECK(ll == !par, "lines %s: intersect %d, should be %d", at.c_str(), ll, !par); if(!par) MC_CHECK(nr(o.x, a[0] + rx * (double)T / D) && nr(o.y, a[1] + ry * (double)T / D), "lines %s meet at (%g,%g), expected (%g,%g)", at.c_str(), o.x, o.y, a[0] + rx * (double)T / D, a[1] + ry * (double)T / D);
    o = V(99, 99); bool ss = LineSegmentLineSegmentIntersect<double>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], o); MC_CHECK(ss == seg, "segments %s: intersect %d, should be %d", at.c_str(), ss, seg); if(seg) MC_CHECK(nr(o.x, a[0] + rx * (double)T / D) && nr(o.y, a[1] + ry * (double)T / D), "segments %s meet at (%g,%g)", at.c_str(), o.x, o.y);
    bool overlap = false; if(par && T == 0) { long n = rx * rx + ry * ry, p = qx * rx + qy * ry, q = p + sx * rx + sy * ry; overlap = !(std::max(p, q) < 0 || std::min(p, q) > n); } // collinear and overlapping: not specified
    if(!overlap) { bool cs = LineSegmentLineSegmentCollide<double>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); MC_CHECK(cs == seg, "segments %s: collide %d, should be %d", at.c_str(), cs, seg);
      if(a[4] == a[6]) { bool v = LineSegmentLineVertCollide<double>(a[0], a[1], a[2], a[3], a[4], a[5], a[7]); MC_CHECK(v == seg, "segments %s (second vertical): collide %d, should be %d", at.c_str(), v, seg); }
      if(a[5] == a[7]) { bool h = LineSegmentLineHorzCollide<double>(a[0], a[1], a[2], a[3], a[4], a[6], a[5]); MC_CHECK(h == seg, "segments %s (second horizontal): collide %d, should be %d", at.c_str(), h, seg); } }
    c.outcome(par * 4 + seg * 2 + corner);
  });
}

// ---------------------------------------------------------------- rectangles
MC_CONFIG("rects") {
  int m = c.pick(5, 6);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int a[4], b[4]; a[0] = (int)ch(m); a[1] = (int)ch(m); a[2] = a[0] + (int)ch(m - a[0]); a[3] = a[1] + (int)ch(m - a[1]); b[0] = (int)ch(m); b[1] = (int)ch(m); b[2] = b[0] + (int)ch(m - b[0]); b[3] = b[1] + (int)ch(m - b[1]); std::string at = mc::fmt("rects [%d,%d,%d,%d] [%d,%d,%d,%d]", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
    auto T = [&](auto z) { typedef decltype(z) N; typedef Vector<N, 2> W; const Rect<N> A((N)a[0], (N)a[1], (N)a[2], (N)a[3]), B(W((N)b[0], (N)b[1]), W((N)(b[2] - b[0]), (N)(b[3] - b[1])));
      MC_CHECK(B.left == b[0] && B.top == b[1] && B.right == b[2] && B.bottom == b[3] && B.ltrb[3] == b[3] && B.topleft.y == b[1] && B.bottomright.x == b[2], "%s: parts of the second", at.c_str());
      Rect<N> I = A.Intersection(B), I2 = B.Intersection(A), U = A.Union(B); bool any = false;
      for(int x = -1; x <= m; ++x) for(int y = -1; y <= m; ++y) {
        bool ia = x >= a[0] && x < a[2] && y >= a[1] && y < a[3], ib = x >= b[0] && x < b[2] && y >= b[1] && y < b[3]; any |= ia && ib;
        MC_CHECK(A.ContainsPoint((N)x, (N)y) == ia && RectContainsPoint<N>(a[0], a[1], a[2], a[3], x, y) == ia, "%s: first contains (%d,%d): should be %d", at.c_str(), x, y, ia); MC_CHECK(I.ContainsPoint((N)x, (N)y) == (ia && ib) && I2.ContainsPoint((N)x, (N)y) == (ia && ib), "%s: intersection contains (%d,%d): should be %d", at.c_str(), x, y, ia && ib); MC_CHECK(!(ia || ib) || U.ContainsPoint((N)x, (N)y), "%s: union must contain (%d,%d)", at.c_str(), x, y);
        if(c.thorough || ((x + y) & 1)) { Rect<N> X = A.ExpandTo(W((N)x, (N)y)), Y(A); RectExpandTo<N>(Y, W((N)x, (N)y)); N e[4] = { (N)std::min(a[0], x), (N)std::min(a[1], y), (N)std::max(a[2], x), (N)std::max(a[3], y) }; for(int i = 0; i < 4; ++i) MC_CHECK(X.ltrb[i] == e[i] && Y.ltrb[i] == e[i], "%s: first expanded to (%d,%d)", at.c_str(), x, y); } }
      bool col = b[0] <= a[2] && a[0] <= b[2] && b[1] <= a[3] && a[1] <= b[3], con = b[0] >= a[0] && b[1] >= a[1] && b[2] <= a[2] && b[3] <= a[3];
      MC_CHECK(A.RectCollide(B) == col && B.RectCollide(A) == col && A.RectCollide((N)b[0], (N)b[1], (N)b[2], (N)b[3]) == col, "%s: collide: should be %d", at.c_str(), col); MC_CHECK(A.ContainsRect(B) == con && A.ContainsRect((N)b[0], (N)b[1], (N)b[2], (N)b[3]) == con, "%s: contains: should be %d", at.c_str(), con);
      for(int i = 0; i < 4; ++i) MC_CHECK(U.ltrb[i] == (N)(i < 2 ? std::min(a[i], b[i]) : std::max(a[i], b[i])), "%s: union is not the smallest rectangle around both", at.c_str()); MC_CHECK(I.IsCanonical() && (I.Area() > 0) == any, "%s: intersection is degenerate exactly when nothing overlaps", at.c_str());
      MC_CHECK(A.Area() == (N)((a[2] - a[0]) * (a[3] - a[1])) && A.Dim().x == a[2] - a[0] && A.Dim().y == a[3] - a[1] && A.IsCanonical(), "%s: size", at.c_str()); Rect<N> R((N)a[2], (N)a[3], (N)a[0], (N)a[1]); MC_CHECK(R.Canonical() == A && (R.IsCanonical() == (a[0] == a[2] && a[1] == a[3])), "%s: canonical form", at.c_str()); Rect<N> F = A.Inflate((N)2); MC_CHECK(F.left == a[0] - 2 && F.top == a[1] - 2 && F.right == a[2] + 2 && F.bottom == a[3] + 2, "%s: inflated", at.c_str());
      int cmp = 0; for(int i = 0; i < 4 && !cmp; ++i) cmp = a[i] < b[i] ? -1 : a[i] > b[i]; MC_CHECK((A < B) == (cmp < 0) && (A > B) == (cmp > 0) && (A <= B) == (cmp <= 0) && (A >= B) == (cmp >= 0) && (A == B) == !cmp && (A != B) == !!cmp, "%s: ordering", at.c_str());
      bool alls = true; for(int i = 0; i < 4; ++i) alls &= a[i] == b[0]; MC_CHECK((A == (N)b[0]) == alls && (A != (N)b[0]) == !alls, "%s: compared with a number", at.c_str());
#define OP(op, opeq) { Rect<N> x = A op B, y(A), p = A op B.topleft, q(A), s = A op (N)b[3], t(A); y opeq B; q opeq B.topleft; t opeq (N)b[3]; for(int i = 0; i < 4; ++i) { MC_CHECK(x.ltrb[i] == (N)(a[i] op b[i]) && y.ltrb[i] == x.ltrb[i], "%s: " #op, at.c_str()); MC_CHECK(p.ltrb[i] == (N)(a[i] op b[i & 1]) && q.ltrb[i] == p.ltrb[i], "%s: " #op " a vector", at.c_str()); MC_CHECK(s.ltrb[i] == (N)(a[i] op b[3]) && t.ltrb[i] == s.ltrb[i], "%s: " #op " a number", at.c_str()); } }
      OP(+, +=) OP(-, -=) OP(*, *=)
      if(b[0] && b[1]) { Rect<N> x = A / B, y(A), p = A / B.topleft, q(A), s = A / (N)b[3], t(A); y /= B; q /= B.topleft; t /= (N)b[3]; for(int i = 0; i < 4; ++i) { MC_CHECK(x.ltrb[i] == (N)((N)a[i] / (N)b[i]) && y.ltrb[i] == x.ltrb[i], "%s: /", at.c_str()); MC_CHECK(p.ltrb[i] == (N)((N)a[i] / (N)b[i & 1]) && q.ltrb[i] == p.ltrb[i], "%s: / a vector", at.c_str()); MC_CHECK(s.ltrb[i] == (N)((N)a[i] / (N)b[3]) && t.ltrb[i] == s.ltrb[i], "%s: / a number", at.c_str()); } }
      Rect<N> neg = -A, ab = neg.Abs(); for(int i = 0; i < 4; ++i) MC_CHECK(neg.ltrb[i] == (N)-a[i] && ab.ltrb[i] == (N)a[i], "%s: negated/absolute", at.c_str()); Rect<double> cv(A); Rect<N> bk; bk = cv; MC_CHECK(bk == A && (cv.right == a[2]), "%s: converted", at.c_str()); };
    T((int)0); T((float)0); T((double)0);
    Rect<float> S((float)a[0], (float)a[1], (float)a[2], (float)a[3]); sseVecT<float> v = S.ToSSE(); Rect<float> S2(v), S3(9, 9, 9, 9); S3 = v; MC_CHECK(S2 == S && S3 == S, "%s: through a SIMD vector", at.c_str()); Rect<double> D(a[0], a[1], a[2], a[3]); Circle<double> k = D.BoundingCircle(); MC_CHECK(D.Center().x == (a[0] + a[2]) / 2.0 && D.Center().y == (a[1] + a[3]) / 2.0 && k.x == D.Center().x && k.y == D.Center().y && nr(k.r, std::hypot(a[2] - a[0], a[3] - a[1]) / 2), "%s: centre/bounding circle", at.c_str()); Rect<double> P = D.Project(3); MC_CHECK(P.left == a[0] / 4.0 && P.bottom == a[3] / 4.0, "%s: projected", at.c_str());
    c.outcome(a[0] * 64 + b[2]);
  });
}
MC_CONFIG("rect_circle") {
  int m = c.pick(6, 8);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int l = (int)ch(m) - 1, t = (int)ch(m) - 2, r = l + (int)ch(m), b = t + (int)ch(m), x = (int)ch(2 * m + 4) - m - 1, y = (int)ch(2 * m + 4) - m - 1, R = 1 + (int)ch(3), half = (int)ch(2); std::string at = mc::fmt("rect [%d,%d,%d,%d], circle (%d,%d) radius %d%s", l, t, r, b, x, y, R, half ? " (in halves)" : "");
    long dx = x < l ? l - x : x > r ? x - r : 0, dy = y < t ? t - y : y > b ? y - b : 0; bool want = dx * dx + dy * dy <= sq(R); double s = half ? 0.5 : 1; typedef Rect<double> D; D d(l * s, t * s, r * s, b * s); Circle<double> k(x * s, y * s, R * s);
    MC_CHECK(d.CircleCollide(k) == want && d.CircleCollide(k.c, R * s) == want && d.CircleCollide(x * s, y * s, R * s) == want && k.RectCollide(l * s, t * s, r * s, b * s) == want, "%s: collide: should be %d", at.c_str(), want);
    Rect<float> f(d); Circle<float> kf(k); MC_CHECK(f.CircleCollide(kf) == want, "%s: collide (float): should be %d", at.c_str(), want); if(!half) { Rect<int> i(l, t, r, b); Circle<int> ki(x, y, R); MC_CHECK(i.CircleCollide(ki) == want && ki.RectCollide(l, t, r, b) == want, "%s: collide (int): should be %d", at.c_str(), want); }
    c.outcome(want);
  });
}
MC_CONFIG("rect_line") {
  int m = c.pick(8, 10);
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const int rs[][4] = { { 2, 2, 4, 4 }, { 2, 1, 3, 4 }, { 1, 2, 4, 3 }, { 2, 2, 2, 4 }, { 3, 3, 3, 3 }, { 0, 0, 3, 1 } }; const int* q = rs[ch(6)]; int X1 = (int)ch(m), Y1 = (int)ch(m), X2 = (int)ch(m), Y2 = (int)ch(m), half = (int)ch(2); if(X1 == X2 && Y1 == Y2) return; std::string at = mc::fmt("rect [%d,%d,%d,%d], segment (%d,%d)-(%d,%d)%s", q[0], q[1], q[2], q[3], X1, Y1, X2, Y2, half ? " (in halves)" : "");
    // exact: clip the segment's parameter interval against the four sides in rationals (numerator/denominator over a common denominator)
    long dx = X2 - X1, dy = Y2 - Y1; bool out = false; long ln = 0, ld = 1, hn = 1, hd = 1; long P[4] = { -dx, dx, -dy, dy }, Q[4] = { X1 - q[0], q[2] - X1, Y1 - q[1], q[3] - Y1 };
    for(int i = 0; i < 4; ++i) { if(P[i] == 0) { out |= Q[i] < 0; continue; } long n = Q[i], d = P[i]; if(d < 0) { n = -n; d = -d; if(n * ld > ln * d) { ln = n; ld = d; } } else if(n * hd < hn * d) { hn = n; hd = d; } } bool hit = !out && ln * hd <= hn * ld, touch = hit && ln * hd == hn * ld;
    if(touch && dx && dy) { c.outcome(3); return; } // a slanted segment that only touches a corner: rounding may go either way
    double s = half ? 0.5 : 1; Rect<double> d(q[0] * s, q[1] * s, q[2] * s, q[3] * s); MC_CHECK(d.LineCollide(X1 * s, Y1 * s, X2 * s, Y2 * s) == hit && d.LineCollide(V(X1 * s, Y1 * s), V(X2 * s, Y2 * s)) == hit && d.LineCollide(Line<double>(X1 * s, Y1 * s, X2 * s, Y2 * s)) == hit, "%s: collide: should be %d", at.c_str(), hit);
    c.outcome(hit);
  });
}

// ---------------------------------------------------------------- polygons
static int orient(V a, V b, V p) { double z = (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); return z > 0 ? 1 : z < 0 ? -1 : 0; }
static bool onseg(V a, V b, V p) { return orient(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool cross(V a, V b, V p, V q) { int s = orient(a, b, p), t = orient(a, b, q), u = orient(p, q, a), v = orient(p, q, b); return (s != t && u != v) || onseg(a, b, p) || onseg(a, b, q) || onseg(p, q, a) || onseg(p, q, b); }
static bool simple(const std::vector<V>& v) { size_t n = v.size(); for(size_t i = 0; i < n; ++i) { V a = v[i], b = v[(i + 1) % n]; if(a == b) return false; for(size_t j = i + 1; j < n; ++j) { V p = v[j], q = v[(j + 1) % n]; if((i + 1) % n == j) { if(onseg(a, b, q) || onseg(p, q, a)) return false; } else if((j + 1) % n == i) { if(onseg(a, b, p) || onseg(p, q, b)) return false; } else if(cross(a, b, p, q)) return false; } } return true; }
static void polygons(mc::Ctx& c, int n, int m) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::vector<V> v; for(int i = 0; i < n; ++i) { int x = (int)ch(m), y = (int)ch(m); v.push_back(V(x, y)); } if(!simple(v)) return; std::string at = "polygon " + pts(v);
    Polygon<double> p(v.data(), v.size()); const Polygon<double> q(p); long A2 = 0; double cx = 0, cy = 0; V lo = v[0], hi = v[0]; bool pos = false, neg = false;
    for(int i = 0; i < n; ++i) { V a = v[i], b = v[(i + 1) % n]; double k = a.x * b.y - b.x * a.y; A2 += (long)k; cx += (a.x + b.x) * k; cy += (a.y + b.y) * k; int o = orient(a, b, v[(i + 2) % n]); pos |= o > 0; neg |= o < 0; lo = V(std::min(lo.x, a.x), std::min(lo.y, a.y)); hi = V(std::max(hi.x, a.x), std::max(hi.y, a.y)); }
    bool convex = !(pos && neg); MC_CHECK(q.GetCount() == (size_t)n && q.end() - q.begin() == n && q[n - 1] == v[n - 1], "%s: copied", at.c_str());
    MC_CHECK(nr(std::fabs(q.Area()), std::abs(A2) / 2.0), "%s: area %g, expected %g", at.c_str(), q.Area(), A2 / 2.0); MC_CHECK(q.IsConvex() == convex, "%s: convex: should be %d", at.c_str(), convex); V ce = q.Centroid(); MC_CHECK(nr(ce.x, cx / (3 * A2)) && nr(ce.y, cy / (3 * A2)), "%s: centroid (%g,%g), expected (%g,%g)", at.c_str(), ce.x, ce.y, cx / (3 * A2), cy / (3 * A2));
    Rect<double> bb = q.AABB(); MC_CHECK(bb.left == lo.x && bb.top == lo.y && bb.right == hi.x && bb.bottom == hi.y, "%s: bounding box [%g,%g,%g,%g]", at.c_str(), bb.left, bb.top, bb.right, bb.bottom);
    Triangle<double> tr; if(n == 3) { for(int i = 0; i < 3; ++i) tr.v[i] = v[i]; MC_CHECK(nr(std::fabs(tr.Area()), std::abs(A2) / 2.0), "%s: triangle area %g", at.c_str(), tr.Area()); Triangle<float> tf(tr); MC_CHECK(tf.v[2].x == (float)v[2].x && tf.v[1].y == (float)v[1].y, "%s: triangle converted", at.c_str()); }
    for(int x = -1; x <= 2 * m; ++x) for(int y = -1; y <= 2 * m; ++y) { V t(x / 2.0, y / 2.0); bool edge = false; int w = 0; for(int i = 0; i < n; ++i) { V a = v[i], b = v[(i + 1) % n]; edge |= onseg(a, b, t); if(a.y <= t.y) { if(b.y > t.y && orient(a, b, t) > 0) ++w; } else if(b.y <= t.y && orient(a, b, t) < 0) --w; }
      bool in = w != 0; if(!edge) MC_CHECK(q.ContainsPoint(t) == in, "%s: contains (%g,%g): should be %d", at.c_str(), t.x, t.y, in); if(convex) MC_CHECK(q.ConvexContainsPoint(t) == (in || edge), "%s (convex): contains (%g,%g): should be %d", at.c_str(), t.x, t.y, in || edge); if(n == 3 && !edge) { const Triangle<double>& ct = tr; MC_CHECK(ct.ContainsPoint(t.x, t.y) == in, "triangle %s: contains (%g,%g): should be %d", at.c_str(), t.x, t.y, in); } }
    Polygon<float> f(q); for(int i = 0; i < n; ++i) MC_CHECK(f[i].x == (float)v[i].x && f[i].y == (float)v[i].y, "%s: converted", at.c_str()); Polygon<double> d; d = f; MC_CHECK(d.GetCount() == (size_t)n && d[1] == v[1], "%s: assigned from another type", at.c_str()); d.CenterPolygon(); for(int i = 0; i < n; ++i) MC_CHECK(nr(d[i].x, v[i].x - cx / (3 * A2)) && nr(d[i].y, v[i].y - cy / (3 * A2)), "%s: centred", at.c_str()); d = q; MC_CHECK(d[n - 1] == v[n - 1] && d.GetCount() == (size_t)n, "%s: assigned", at.c_str()); Polygon<double> mv(std::move(d)); MC_CHECK(mv.GetCount() == (size_t)n && mv[0] == v[0], "%s: moved", at.c_str()); V arr[3] = { v[0], v[1], v[2] }; Polygon<double> fa(arr); MC_CHECK(fa.GetCount() == 3 && fa[2] == v[2], "%s: from an array", at.c_str()); fa.SetVertices(v.data(), (uint16_t)n); MC_CHECK(fa.GetCount() == (size_t)n && fa[n - 1] == v[n - 1], "%s: SetVertices", at.c_str()); fa.SetVertices(arr); MC_CHECK(fa.GetCount() == 3 && fa[1] == v[1], "%s: SetVertices from an array", at.c_str());
    c.outcome(convex * 64 + std::abs(A2));
  });
}
MC_CONFIG("triangles") { polygons(c, 3, c.pick(6, 8)); }
MC_CONFIG("quads") { polygons(c, 4, c.pick(4, 5)); }
MC_CONFIG("pentagons") { polygons(c, 5, c.pick(3, 4)); }
MC_CONFIG("hexagons") { polygons(c, 6, 3); }

// ---------------------------------------------------------------- ellipses
static L edist(L A, L B, L x, L y, L* ox = 0, L* oy = 0) { // distance from an outside point to the ellipse, by bisection on the Lagrange multiplier
  x = fabsl(x); y = fabsl(y); L lo = -1e3, hi = 1e3; if(x * x / (A * A) + y * y / (B * B) <= 1) { if(ox) *ox = x, *oy = y; return 0; } lo = 0; hi = (x + y + A + B) * (A + B) * 4; for(int i = 0; i < 200; ++i) { L t = (lo + hi) / 2, u = A * x / (t + A * A), w = B * y / (t + B * B); (u * u + w * w > 1 ? lo : hi) = t; } L px = A * A * x / (lo + A * A), py = B * B * y / (lo + B * B); if(ox) *ox = px, *oy = py; return hypotl(px - x, py - y); }
MC_CONFIG("ellipses") {
  int m = c.pick(12, 16);
  mc::enumerate(c, [&](mc::Choose& ch) {
    int A = 1 + (int)ch(4), B = 1 + (int)ch(4), x = (int)ch(2 * m + 1) - m, y = (int)ch(2 * m + 1) - m, cx = (int)ch(2), cy = -(int)ch(2); long k = sq(x) * sq(B) + sq(y) * sq(A), one = sq(A) * sq(B); std::string at = mc::fmt("ellipse (%d,%d) axes %d,%d and (%d,%d)", cx, cy, A, B, x + cx, y + cy); Ellipse<double> e(cx, cy, A, B);
    if(k != one) MC_CHECK(e.ContainsPoint(x + cx, y + cy) == (k < one), "%s: contains: should be %d", at.c_str(), k < one); MC_CHECK(nr(e.Area(), M_PI * A * B), "%s: area", at.c_str());
    double X, Y; e.NearestPoint(x + cx, y + cy, X, Y); L px, py, d = edist(A, B, x, y, &px, &py); L got = hypotl(X - cx - x, Y - cy - y); MC_CHECK(fabsl(got - d) < 1e-3 && sq(1) * ((X - cx) * (X - cx) / (A * A) + (Y - cy) * (Y - cy) / (B * B)) <= 1 + 1e-6, "%s: nearest point (%g,%g) at distance %g, the nearest is at %g", at.c_str(), X, Y, (double)got, (double)d);
    for(int r = 1; r <= 4; ++r) if(fabsl(d - r) > 1e-2) { MC_CHECK(e.CircleCollide(x + cx, y + cy, r) == (d < r) && Circle<double>(x + cx, y + cy, r).EllipseCollide(cx, cy, A, B) == (d < r) && e.CircleCollide(Circle<double>(x + cx, y + cy, r)) == (d < r), "%s: circle of radius %d at the point collides: should be %d (distance %g)", at.c_str(), r, d < r, (double)d); }
    Ellipse<float> f(e); MC_CHECK(f.x == cx && f.y == cy && f.a == A && f.b == B, "%s: converted", at.c_str()); Ellipse<double> ec(Circle<double>(cx, cy, A)); MC_CHECK(ec.x == cx && ec.y == cy && ec.a == A && ec.b == A, "%s: from a circle", at.c_str());
    for(int w = 0; w < 3; ++w) for(int h = 0; h < 3; ++h) { L qx = x < -w ? x + w : x > 0 ? x : 0, qy = y < -h ? y + h : y > 0 ? y : 0; L v = qx * qx * B * B + qy * qy * A * A; if(fabsl(v - one) < 1e-9) continue; bool want = v < one; Rect<double> r(x + cx, y + cy, x + cx + w, y + cy + h); MC_CHECK(e.RectCollide(r) == want && e.RectCollide(r.left, r.top, r.right, r.bottom) == want, "%s: rectangle from the point, %d x %d, collides: should be %d", at.c_str(), w, h, want); }
    c.outcome((int)(d * 10));
  });
}

// ---------------------------------------------------------------- circle sectors
struct Sec { L x, y, in, out, mn, rg; };
static const L TAU = 2 * M_PIl;
static L ang(L x, L y) { L a = atan2l(-y, x); return a < 0 ? a + TAU : a; }
static bool inang(L x, L y, const Sec& s, L g) { if(s.rg >= TAU - 1e-12L) return true; L a = fmodl(ang(x, y) - s.mn + 4 * TAU, TAU), d = hypotl(x, y), w = d > 1e-6L ? g / d : TAU; return a <= s.rg + w || a >= TAU - w; }
static bool insec(L x, L y, const Sec& s, L g) { x -= s.x; y -= s.y; L d = hypotl(x, y); return d <= s.out + g && d >= s.in - g && inang(x, y, s, g); } // g > 0 grows the sector, g < 0 shrinks it
static bool insecS(L x, L y, const Sec& s, L g) { if(g >= 0) return insec(x, y, s, g); x -= s.x; y -= s.y; L d = hypotl(x, y); if(d > s.out + g || (s.in > 0 && d < s.in - g)) return false; if(s.rg >= TAU - 1e-12L) return true; if(d < 1e-6L) return false; L a = fmodl(ang(x, y) - s.mn + 4 * TAU, TAU), w = -g / d; return a >= w && a <= s.rg - w; }
// 1 = certainly, 0 = certainly not, -1 = within the margin
static L segdist(L x1, L y1, L x2, L y2, L px, L py);
static int segsec(L x1, L y1, L x2, L y2, const Sec& s) { // the crossing parameters of the segment with the two circles and the two boundary lines cut it into pieces that are inside or outside as a whole
  std::vector<L> t = { 0, 1 }; L ax = x1 - s.x, ay = y1 - s.y, dx = x2 - x1, dy = y2 - y1, a = dx * dx + dy * dy, b = ax * dx + ay * dy; for(L r : { s.in, s.out }) { L q = b * b - a * (ax * ax + ay * ay - r * r); if(q >= 0 && r > 0) { t.push_back((-b - sqrtl(q)) / a); t.push_back((-b + sqrtl(q)) / a); } }
  for(L w : { s.mn, s.mn + s.rg }) { L ux = cosl(w), uy = -sinl(w), D = dx * uy - dy * ux; if(fabsl(D) > 1e-12L) t.push_back(-(ax * uy - ay * ux) / D); } std::sort(t.begin(), t.end());
  bool yes = false, maybe = false; auto at = [&](L u) { L x = x1 + u * dx, y = y1 + u * dy; yes |= insecS(x, y, s, -1e-4L); maybe |= insecS(x, y, s, 1e-4L); }; for(size_t i = 0; i < t.size(); ++i) { if(t[i] >= 0 && t[i] <= 1) at(t[i]); if(i + 1 < t.size()) { L u = (t[i] + t[i + 1]) / 2; if(u > 0 && u < 1) at(u); } } for(L u : { 0.0L, 1.0L }) { L x = x1 + u * dx, y = y1 + u * dy; if(insecS(x, y, s, -1e-4L) != insecS(x, y, s, 1e-4L)) return -1; } /* an end within rounding of the outline: either answer */ if(!insec(x1, y1, s, 0) && !insec(x2, y2, s, 0) && s.rg < TAU - 1e-9L) for(L w : { s.mn, s.mn + s.rg }) for(L r : { s.in, s.out }) if(segdist(x1, y1, x2, y2, s.x + r * cosl(w), s.y - r * sinl(w)) < 1e-4L) return -1; /* exactly through a corner and out again: likewise */ return yes ? 1 : maybe ? -1 : 0; }
static L segdist(L x1, L y1, L x2, L y2, L px, L py) { L dx = x2 - x1, dy = y2 - y1, n = dx * dx + dy * dy, u = n > 0 ? ((px - x1) * dx + (py - y1) * dy) / n : 0; u = u < 0 ? 0 : u > 1 ? 1 : u; return hypotl(x1 + u * dx - px, y1 + u * dy - py); }
static L secdist(const Sec& s, L px, L py) { L x = px - s.x, y = py - s.y, d = hypotl(x, y); if(inang(x, y, s, 0)) return d > s.out ? d - s.out : d < s.in ? s.in - d : 0; L r = 1e9; for(L w : { s.mn, s.mn + s.rg }) r = std::min(r, segdist(s.in * cosl(w), -s.in * sinl(w), s.out * cosl(w), -s.out * sinl(w), x, y)); return r; }
// two closed connected regions meet iff one contains a point of the other or their outlines cross; the outlines are cut finely and every piece's distance to the other region is known exactly
static int secsec(const Sec& a, const Sec& b) { auto mind = [](const Sec& p, const Sec& q) { L best = 1e9; auto walk = [&](auto f, L len) { // f is 1-Lipschitz in arc length, so stepping by the current distance never jumps over a contact
      L u = 0; while(u <= len) { L x, y; f(u, x, y); L d = secdist(q, x, y); best = std::min(best, d); if(best < 1e-4L) return; u += std::max<L>(d, 1e-3L); } L x, y; f(len, x, y); best = std::min(best, secdist(q, x, y)); };
    for(L r : { p.in, p.out }) if(r > 0) walk([&](L u, L& x, L& y) { L w = p.mn + u / r; x = p.x + r * cosl(w); y = p.y - r * sinl(w); }, p.rg * r); if(p.rg < TAU - 1e-9L) for(L w : { p.mn, p.mn + p.rg }) walk([&](L u, L& x, L& y) { x = p.x + (p.in + u) * cosl(w); y = p.y - (p.in + u) * sinl(w); }, p.out - p.in); return best; };
  auto sh = [](Sec s, L g) { s.in = std::max<L>(0, s.in - g); s.out += g; if(s.rg < TAU - 1e-9L) { s.mn -= g; s.rg += 2 * g; if(s.rg > TAU) s.rg = TAU; } return s; };
  L d = std::min(mind(a, b), mind(b, a)); if(d > 2e-3L) return 0; Sec p = sh(a, -2e-2L), q = sh(b, -2e-2L); return std::min(mind(p, q), mind(q, p)) < 1e-4L ? 1 : -1; }
static std::string str(const Sec& s) { return mc::fmt("sector (%g,%g) radii %g..%g angle %g+%g", (double)s.x, (double)s.y, (double)s.in, (double)s.out, (double)s.mn, (double)s.rg); }
static const double MINS[] = { 0, M_PI / 2, M_PI, 0.3, 2.0, 5.5 }, RGS[] = { 0.7, M_PI / 2, M_PI, 4.0, 2 * M_PI };
MC_CONFIG("sector_points") {
  int m = c.pick(12, 16);
  mc::enumerate(c, [&](mc::Choose& ch) {
    Sec s{ (L)(int)ch(2), -(L)(int)ch(2), (L)(int)ch(3), 0, 0, 0 }; s.out = s.in + 1 + (int)ch(2); double mn = ch.of(MINS), rg = ch.of(RGS); s.mn = mn; s.rg = rg; int x = (int)ch(2 * m + 1) - m, y = (int)ch(2 * m + 1) - m; CircleSector<double> k((double)s.x, (double)s.y, (double)s.in, (double)s.out, mn, rg); double X = (double)s.x + x / 2.0, Y = (double)s.y + y / 2.0; std::string at = str(s) + mc::fmt(" and point (%g,%g)", X, Y);
    MC_CHECK(k.x == (double)s.x && k.y == (double)s.y && k.pos.y == k.y && k.inner == (double)s.in && k.outer == (double)s.out && nr(k.min, mn) && k.range == rg, "%s: parts", at.c_str()); MC_CHECK(nr(k.Area(), (double)((s.out * s.out - s.in * s.in) * rg / 2)) && nr(k.ArcLengthOuter(), (double)(rg * s.out)) && nr(k.ArcLengthInner(), (double)(rg * s.in)), "%s: area/arc lengths", at.c_str()); CircleSector<float> f(k); MC_CHECK(f.x == (float)k.x && f.y == (float)k.y && f.inner == (float)k.inner && f.outer == (float)k.outer && f.range == (float)k.range, "%s: converted", at.c_str());
    CircleSector<double> k2(V((double)s.x, (double)s.y), (double)s.in, (double)s.out, mn - 2 * M_PI, rg); MC_CHECK(k2.min >= 0 && (nr(k2.min, mn) || nr(k2.min + 2 * M_PI, mn + 2 * M_PI) || (mn == 0 && nr(k2.min, 2 * M_PI))), "%s: a start angle below 0 must be brought into [0,2pi]: %g", at.c_str(), k2.min);
    bool in = insecS(X, Y, s, -1e-9L), out = !insecS(X, Y, s, 1e-9L); if(in || out) { MC_CHECK(k.ContainsPoint(X, Y) == in && k2.ContainsPoint(X, Y) == in && CircleSectorContainsPoint<double>(k.x, k.y, k.inner, k.outer, k.min, k.range, X, Y) == in, "%s: contains: should be %d", at.c_str(), in); }
    for(int R = 1; R <= 5; R += 2) { L d = secdist(s, X, Y), r = R / 2.0L; if(fabsl(d - r) < 1e-6L) continue; MC_CHECK(k.CircleCollide(X, Y, (double)r) == (d < r), "%s: circle of radius %g at the point collides: should be %d (distance %g)", at.c_str(), (double)r, d < r, (double)d); }
    c.outcome(in + 2 * out);
  });
}
MC_CONFIG("sector_lines") {
  int m = c.pick(6, 8);
  mc::enumerate(c, [&](mc::Choose& ch) {
    Sec s{ 0, 0, (L)(int)ch(2), 0, 0, 0 }; s.x = s.in; s.y = -s.in; s.out = s.in + 1 + (int)ch(2); double mn = ch.of(MINS), rg = ch.of(RGS); s.mn = mn; s.rg = rg; int x1 = (int)ch(2 * m + 1) - m, y1 = (int)ch(2 * m + 1) - m, x2 = (int)ch(2 * m + 1) - m, y2 = (int)ch(2 * m + 1) - m; if(x1 == x2 && y1 == y2) return; CircleSector<double> k((double)s.x, (double)s.y, (double)s.in, (double)s.out, mn, rg);
    int want = segsec(x1, y1, x2, y2, s); c.outcome(want); if(want < 0) return; bool got = k.IntersectLine(x1, y1, x2, y2); MC_CHECK(got == want, "%s and segment (%d,%d)-(%d,%d): intersect %d, should be %d", str(s).c_str(), x1, y1, x2, y2, got, want); V p[2] = { V(x1, y1), V(x2, y2) }; MC_CHECK(k.IntersectPolygon(p, 2) == got, "%s and segment (%d,%d)-(%d,%d) as a polygon", str(s).c_str(), x1, y1, x2, y2);
  });
}
MC_CONFIG("sector_polygons") {
  int m = c.pick(5, 6);
  mc::enumerate(c, [&](mc::Choose& ch) {
    Sec s{ 2, 1, (L)(int)ch(2), 0, 0, 0 }; s.out = s.in + 1; double mn = ch.of(MINS), rg = ch.of(RGS); s.mn = mn; s.rg = rg; V p[3]; for(int i = 0; i < 3; ++i) { int x = (int)ch(m), y = (int)ch(m); p[i] = V(x, y); } if(orient(p[0], p[1], p[2]) == 0) return; CircleSector<double> k(2, 1, (double)s.in, (double)s.out, mn, rg);
    int want = 0; for(int i = 0; i < 3; ++i) { int w = segsec(p[i].x, p[i].y, p[(i + 1) % 3].x, p[(i + 1) % 3].y, s); if(w == 1) want = 1; else if(w < 0 && !want) want = -1; } c.outcome(want); if(want < 0) return;
    if(!want) { L ax = s.x + (s.in + 0.5L) * cosl(s.mn + s.rg / 2), ay = s.y - (s.in + 0.5L) * sinl(s.mn + s.rg / 2); V q((double)ax, (double)ay); int o = orient(p[0], p[1], p[2]); if(orient(p[0], p[1], q) == o && orient(p[1], p[2], q) == o && orient(p[2], p[0], q) == o) { c.outcome(7); return; } } // the whole sector inside the polygon: not specified
    bool got = k.IntersectPolygon(p, 3); MC_CHECK(got == want, "%s and triangle %s: intersect %d, should be %d", str(s).c_str(), pts({ p[0], p[1], p[2] }).c_str(), got, want);
  });
}
static void sectors(mc::Ctx& c, int offs) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    Sec a{ 0, 0, (L)(int)ch(3), 0, 0, 0 }, b{ 0, 0, (L)(int)ch(3), 0, 0, 0 }; a.out = a.in + 1; b.out = b.in + 1; a.x = 1; a.y = 2; int q = (int)ch(offs); static const double O[][2] = { { 0, 0 }, { 1.3, 0 }, { 0, -2.2 }, { 1.6, 1.1 }, { -2.7, 1.4 }, { 3.6, 0.4 }, { -0.4, 0.3 }, { 0, 4.4 } }; b.x = a.x + O[q][0]; b.y = a.y + O[q][1]; double am = ch.of(MINS), ar = ch.of(RGS), bm = 0.17 + ch.of(MINS), br = ch.of(RGS); a.mn = am; a.rg = ar; b.mn = bm; b.rg = br;
    int want = secsec(a, b); c.outcome(want); if(want < 0) return; CircleSector<double> k((double)a.x, (double)a.y, (double)a.in, (double)a.out, am, ar), l((double)b.x, (double)b.y, (double)b.in, (double)b.out, bm, br); bool g = k.CircleSectorCollide((double)b.x, (double)b.y, (double)b.in, (double)b.out, bm, br), h = l.CircleSectorCollide((double)a.x, (double)a.y, (double)a.in, (double)a.out, am, ar);
    MC_CHECK(g == want && h == want, "%s and %s: collide %d / %d, should be %d", str(a).c_str(), str(b).c_str(), g, h, want);
  });
}
MC_CONFIG("sector_sector") { sectors(c, 8); }
