// 3D geometry: lines, segments, planes, triangles, surfaces, solid formulas and the sphere against exact arithmetic on grids
// mc-flags: -O2
#include "mc.h"
#include "mml/base/Geometry/Geometry3D.h"
#include "mml/base/Geometry/Geometry.h"
#include "mml/base/Geometry/GeometrySpherical.h"
using namespace MML; typedef long long ll; static const double PI = 3.14159265358979323846;
struct V { ll x, y, z; bool zero() const { return !x && !y && !z; } bool operator==(const V& o) const { return x == o.x && y == o.y && z == o.z; } };
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } static ll dt(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static V cr(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } static std::string str(V a) { return "(" + std::to_string(a.x) + "," + std::to_string(a.y) + "," + std::to_string(a.z) + ")"; } static mc::Hash& hv(mc::Hash& h, V a) { return h.u(a.x + 50 + 100 * (a.y + 50) + 10000 * (a.z + 50)); }
// exactly known similarity transforms of the grid into space
struct T { double s, r[3][3], o[3]; Pnt3Cart p(double x, double y, double z) const { double q[3]; for (int i = 0; i < 3; i++) q[i] = o[i] + s * (r[i][0] * x + r[i][1] * y + r[i][2] * z); return Pnt3Cart(q[0], q[1], q[2]); } Pnt3Cart p(V a) const { return p((double)a.x, (double)a.y, (double)a.z); } Vec3Cart d(double x, double y, double z) const { double q[3]; for (int i = 0; i < 3; i++) q[i] = s * (r[i][0] * x + r[i][1] * y + r[i][2] * z); return Vec3Cart(q[0], q[1], q[2]); } Vec3Cart d(V a) const { return d((double)a.x, (double)a.y, (double)a.z); } double tol() const { return 1e-12 * std::max(1.0, s) + 1e-13 * (std::fabs(o[0]) + std::fabs(o[1]) + std::fabs(o[2])); } };
static const T TS[] = {{1, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}}, {1, {{2 / 3., -1 / 3., 2 / 3.}, {2 / 3., 2 / 3., -1 / 3.}, {-1 / 3., 2 / 3., 2 / 3.}}, {1, -2, 3}}, {25, {{0.6, -0.8, 0}, {0.8, 0.6, 0}, {0, 0, 1}}, {10, 20, -5}}};
static bool eq(double a, double b, double tol) { return std::fabs(a - b) <= tol; } static bool at(const Pnt3Cart& a, const Pnt3Cart& b, double tol) { return eq(a.X(), b.X(), tol) && eq(a.Y(), b.Y(), tol) && eq(a.Z(), b.Z(), tol); } static bool vat(const Vec3Cart& a, const Vec3Cart& b, double tol) { return eq(a.X(), b.X(), tol) && eq(a.Y(), b.Y(), tol) && eq(a.Z(), b.Z(), tol); }
static std::string ps(const Pnt3Cart& a) { return "(" + std::to_string(a.X()) + "," + std::to_string(a.Y()) + "," + std::to_string(a.Z()) + ")"; }
// all vectors with coordinates lo..hi
static mc::Hash& ctx_h() { static mc::Hash h; h = mc::Hash(); return h; }
static V gv(mc::Ctx& ctx, int lo, int hi) { int w = hi - lo + 1, k = ctx.choose(w * w * w); return {lo + k % w, lo + k / w % w, lo + k / w / w}; }
static V dirv(mc::Ctx& ctx) { static const V D[] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {1, 1, 0}, {-1, 0, 1}, {0, 1, -1}, {1, 1, 1}, {-1, -1, 1}, {2, 1, 0}, {1, -2, 2}, {-1, 0, 0}, {-1, -1, -1}}; return D[ctx.choose(12)]; }
MC_SCENARIO(line_pairs, 2) { // every pair of lines
	V d1 = ctx.thorough ? gv(ctx, -1, 1) : dirv(ctx), d2 = gv(ctx, -2, 2), w = ctx.thorough ? gv(ctx, -3, 3) : gv(ctx, -1, 1), p1{1, 2, 0}; if (d1.zero() || d2.zero()) ctx.prune(); V p2 = p1 + w, n = cr(d1, d2); ll N = dt(n, n); bool par = n.zero(), coin = par && cr(d1, w).zero(); ll tri = dt(w, n); double l1 = std::sqrt((double)dt(d1, d1)), l2 = std::sqrt((double)dt(d2, d2)); V cw = cr(w, d1); double dist = par ? std::sqrt((double)dt(cw, cw)) / l1 : std::fabs((double)tri) / std::sqrt((double)N); std::string nm = "dir " + str(d1) + " and dir " + str(d2) + " offset " + str(w); double k1 = 0, k2 = 0; if (!par) { k1 = (double)dt(cr(w, d2), n) / N; k2 = (double)dt(cr(w, d1), n) / N; }
	int ti = 0; for (const T& t : TS) { ctx.step(); Line3D a(t.p(p1), t.d(d1)), b(t.p(p2), t.p(p2 + d2)); double tol = t.tol() * 20; std::string m = nm + " transform " + std::to_string(ti++); ctx.check(eq(a.Direction().NormL2(), 1, 1e-12) && eq(b.Direction().NormL2(), 1, 1e-12) && at(a.StartPoint(), t.p(p1), 0) && vat(b.Direction() * (l2 * t.s), t.d(d2), tol), "ctor", m);
		ctx.check(a.IsParallel(b) == par && b.IsParallel(a) == par, "parallel", m); ctx.check(a.IsPerpendicular(b) == (dt(d1, d2) == 0), "perpendicular", m, ": IsPerpendicular ", a.IsPerpendicular(b), " with scalar product ", dt(d1, d2)); ctx.check(a.AreEqual(b, 1e-9) == coin && (b == a) == coin, "equal", m);
		double e = t.s * dist; ctx.check(eq(a.Dist(b), e, tol) && eq(b.Dist(a), e, tol), "distance", m, ": ", a.Dist(b), " expected ", e); double od = -7; Pnt3Cart q1, q2; bool h = a.Dist(b, od, q1, q2); ctx.check(h == !par && eq(od, e, tol), "distance-points", m, ": ", od, " expected ", e); Pnt3Cart f1 = t.p(p1.x + k1 * d1.x, p1.y + k1 * d1.y, p1.z + k1 * d1.z), f2 = t.p(p2.x + k2 * d2.x, p2.y + k2 * d2.y, p2.z + k2 * d2.z); if (!par) ctx.check(at(q1, f1, tol) && at(q2, f2, tol), "distance-points", m, ": nearest ", ps(q1), ps(q2), " expected ", ps(f1), ps(f2));
		auto r = a.Intersection(b); ctx.check(r.HasIntersection() == (!par && tri == 0) && r.IsIntersecting() == r.HasIntersection() && r.IsSkew() == (!par && tri != 0) && r.AreSkew() == r.IsSkew() && r.IsParallel() == (par && !coin) && r.IsCoincident() == coin, "intersection-kind", m, ": type ", (int)r.type); if (!par) ctx.check(at(r.point1, f1, tol) && at(r.point2, f2, tol) && at(a(r.t1), f1, tol) && at(b(r.t2), f2, tol) && eq(r.distance, e, tol), "intersection-points", m, ": ", ps(r.point1), ps(r.point2), " t1 ", r.t1, " t2 ", r.t2, " distance ", r.distance); Pnt3Cart ip; bool hi = a.Intersects(b, ip); ctx.check(hi == (coin || (!par && tri == 0)) && (!hi || (a.Dist(ip) < tol && b.Dist(ip) < tol)), "intersects", m); }
	ctx.state(hv(hv(hv(ctx_h(), d1), d2), w)); ctx.outcome(mc::Hash().d(dist).u(par).u(coin)); ctx.nontrivial(); }
MC_SCENARIO(line_points, 2) { // lines and segments against every point
	V d = dirv(ctx), q = ctx.thorough ? gv(ctx, -3, 3) : gv(ctx, -2, 2), p{0, 1, 1}, z = p + q; ll L = dt(d, d); double u = (double)dt(q, d) / L, us = std::min(1.0, std::max(0.0, u)); V c = cr(q, d); double e = std::sqrt((double)dt(c, c) / L); auto on = [&](double k, const T& t) { return t.p(p.x + k * d.x, p.y + k * d.y, p.z + k * d.z); }; std::string nm = str(p) + "+" + str(d) + " point " + str(z); double es = std::sqrt(std::pow(q.x - us * d.x, 2) + std::pow(q.y - us * d.y, 2) + std::pow(q.z - us * d.z, 2));
	for (const T& t : TS) { ctx.step(); double tol = t.tol() * 20; Line3D a(t.p(p), t.d(d)); Pnt3Cart P = t.p(z); ctx.check(eq(a.Dist(P), t.s * e, tol), "line-point-distance", nm, ": ", a.Dist(P), " expected ", t.s * e); ctx.check(at(a.NearestPointOnLine(P), on(u, t), tol), "nearest-point", nm); ctx.check(a.IsPointOnLine(P, 1e-9) == c.zero() && a.IsPointOnLine(t.p(p)), "on-line", nm); if (c.zero()) ctx.check(mc::throws([&] { a.PerpendicularLineThroughPoint(P); }), "perpendicular-line", nm, ": no error for a point on the line"); else { Line3D o = a.PerpendicularLineThroughPoint(P); ctx.check(at(o.StartPoint(), P, 0) && std::fabs(ScalarProduct(o.Direction(), a.Direction())) < 1e-11 && at(o(t.s * e), on(u, t), tol), "perpendicular-line", nm); }
		SegmentLine3D g(t.p(p), t.p(p + d)), g2(t.p(p), t.d(d), 1.0); for (auto* s : {&g, &g2}) { ctx.check(eq(s->Length(), t.s * std::sqrt((double)L), tol) && eq(s->Dist(P), t.s * es, tol) && at((*s)(0.25), on(0.25, t), tol) && at((*s)(0), on(0, t), tol) && at((*s)(1), on(1, t), tol) && vat(s->Direction(), t.d(d), tol), "segment", nm, ": distance ", s->Dist(P), " expected ", t.s * es); } ctx.check(mc::throws([&] { g(1.0000001); }) && mc::throws([&] { g(-1e-9); }), "segment-range", nm); SegmentLine3D z0(t.p(p), t.p(p)); ctx.check(eq(z0.Dist(P), t.s * std::sqrt((double)dt(q, q)), tol), "segment", nm, ": point-like segment"); }
	ctx.check(mc::throws([&] { Line3D(Pnt3Cart(1, 2, 3), Vec3Cart(0, 0, 0)); }) && mc::throws([&] { Line3D(Pnt3Cart(1, 2, 3), Pnt3Cart(1, 2, 3)); }), "null-direction", nm); ctx.state(hv(hv(ctx_h(), d), q)); ctx.outcome(mc::Hash().d(e).d(es)); ctx.nontrivial(); }
static void plane_is(mc::Ctx& ctx, const Plane3D& P, V p, V n, const T& t, const std::string& nm) { // P must be the plane through p with normal n
	double ln = std::sqrt((double)dt(n, n)), tol = t.tol() * 50; Vec3Cart un = t.d(n) / (t.s * ln); double nn = P.Normal().NormL2(); Vec3Cart g = P.Normal() / nn; ctx.check(vat(g, un, 1e-11) || vat(g, un * -1.0, 1e-11), "plane-normal", nm); ctx.check(P.DistToPoint(P.GetPointOnPlane()) < tol * 100 && P.IsPointOnPlane(t.p(p), 1e-9) , "plane-point", nm); double sx, sy, sz; P.GetCoordAxisSegments(sx, sy, sz); if (std::isfinite(sx) && std::fabs(sx) < 1e6) ctx.check(P.DistToPoint(Pnt3Cart(sx, 0, 0)) < tol * 100, "axis-segments", nm); if (std::isfinite(sy) && std::fabs(sy) < 1e6) ctx.check(P.DistToPoint(Pnt3Cart(0, sy, 0)) < tol * 100, "axis-segments", nm); if (std::isfinite(sz) && std::fabs(sz) < 1e6) ctx.check(P.DistToPoint(Pnt3Cart(0, 0, sz)) < tol * 100, "axis-segments", nm);
	for (int k = 0; k < 27; k++) { V q{k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1}; V z = p + q; ll s = dt(q, n); double e = t.s * std::fabs((double)s) / ln; Pnt3Cart Z = t.p(z); ctx.check(eq(P.DistToPoint(Z), e, tol), "plane-point-distance", nm, " point ", str(z), ": ", P.DistToPoint(Z), " expected ", e); ctx.check(P.IsPointOnPlane(Z, 1e-9) == (s == 0), "on-plane", nm, " point ", str(z)); double f = (double)s / dt(n, n); ctx.check(at(P.ProjectionToPlane(Z), t.p(z.x - f * n.x, z.y - f * n.y, z.z - f * n.z), tol), "projection", nm, " point ", str(z)); } }
MC_SCENARIO(planes, 2) { // planes against points and lines, in every form of construction
	V n = ctx.thorough ? gv(ctx, -3, 3) : gv(ctx, -2, 2); if (n.zero()) { ctx.check(mc::throws([&] { Plane3D(Pnt3Cart(1, 2, 3), Vec3Cart(0, 0, 0)); }) && mc::throws([&] { Plane3D(Pnt3Cart(0, 0, 0), Pnt3Cart(1, 1, 1), Pnt3Cart(2, 2, 2)); }) && mc::throws([&] { Plane3D(1.0, 0.0, 2.0); }), "null-normal", "zero"); ctx.outcome(0); ctx.state(0); ctx.nontrivial(); return; } V p = gv(ctx, 0, 2), d = dirv(ctx); std::string nm = "plane through " + str(p) + " normal " + str(n);
	for (const T& t : TS) { ctx.step(); double tol = t.tol() * 50, ln = std::sqrt((double)dt(n, n)), ld = std::sqrt((double)dt(d, d)); Plane3D P(t.p(p), t.d(n)); plane_is(ctx, P, p, n, t, nm); V a = n.x || n.y ? V{n.y, -n.x, 0} : V{1, 0, 0}, b = cr(n, a); Plane3D Q(t.p(p), t.p(p + a), t.p(p + b)); plane_is(ctx, Q, p, n, t, nm + " by points"); Vec3Cart un = t.d(n) / (t.s * ln); Plane3D W(std::acos(un.X()), std::acos(un.Y()), std::acos(un.Z()), un.X() * t.p(p).X() + un.Y() * t.p(p).Y() + un.Z() * t.p(p).Z()); ctx.check(W.IsPointOnPlane(t.p(p), 1e-7 * t.s * 4) && vat(W.Normal(), un, 1e-7), "plane-angles", nm); double sx, sy, sz; P.GetCoordAxisSegments(sx, sy, sz); if (std::fabs(sx) > 1e-6 && std::fabs(sy) > 1e-6 && std::fabs(sz) > 1e-6 && std::fabs(sx) < 1e6 && std::fabs(sy) < 1e6 && std::fabs(sz) < 1e6) plane_is(ctx, Plane3D(sx, sy, sz), p, n, t, nm + " by segments");
		V z{1, -1, 2}; Line3D l(t.p(z), t.d(d)); ll nd = dt(n, d), off = dt(n, z - p); ctx.check(P.IsLineOnPlane(l) == (nd == 0 && off == 0), "line-on-plane", nm, " line dir ", str(d)); double ang = std::asin(std::min(1.0, std::fabs((double)nd) / (ln * ld))); ctx.check(eq(std::fabs(P.AngleToLine(l)), ang, 3e-8), "angle-to-line", nm, " line dir ", str(d), ": ", P.AngleToLine(l), " expected ", ang); Pnt3Cart ip(-77, 0, 0); for (const Plane3D& X : {P, Q}) { bool h = X.IntersectionWithLine(l, ip); ctx.check(h == (nd != 0), "plane-line", nm, " line dir ", str(d)); if (nd) { double k = -(double)off / nd; ctx.check(at(ip, t.p(z.x + k * d.x, z.y + k * d.y, z.z + k * d.z), tol), "plane-line", nm, " line dir ", str(d), ": ", ps(ip)); } } }
	ctx.check(Plane3D::GetXYPlane().IsPointOnPlane(Pnt3Cart(3, 4, 0)) && !Plane3D::GetXYPlane().IsPointOnPlane(Pnt3Cart(0, 0, 1)) && Plane3D::GetXZPlane().IsPointOnPlane(Pnt3Cart(3, 0, 4)) && !Plane3D::GetXZPlane().IsPointOnPlane(Pnt3Cart(0, 1, 0)) && Plane3D::GetYZPlane().IsPointOnPlane(Pnt3Cart(0, 3, 4)) && !Plane3D::GetYZPlane().IsPointOnPlane(Pnt3Cart(1, 0, 0)), "coordinate-planes", ""); ctx.state(hv(hv(hv(ctx_h(), n), p), d)); ctx.outcome(mc::Hash().u(dt(n, d) + 50).u(dt(n, V{1, -1, 2} - p) + 90)); ctx.nontrivial(); }
MC_SCENARIO(plane_pairs, 2) { // every pair of planes
	V n1 = gv(ctx, -1, 1), n2 = ctx.thorough ? gv(ctx, -2, 2) : gv(ctx, -1, 1), w = gv(ctx, -1, 1), p1{1, 0, 2}; if (n1.zero() || n2.zero()) ctx.prune(); V p2 = p1 + w, c = cr(n1, n2); bool par = c.zero(); double l1 = std::sqrt((double)dt(n1, n1)), l2 = std::sqrt((double)dt(n2, n2)); std::string nm = "normals " + str(n1) + str(n2) + " offset " + str(w);
	for (const T& t : TS) { ctx.step(); double tol = t.tol() * 60; Plane3D A(t.p(p1), t.d(n1)), B(t.p(p2), t.d(n2)); ctx.check(A.IsParallelToPlane(B) == par && B.IsParallelToPlane(A) == par, "planes-parallel", nm, ": IsParallelToPlane ", A.IsParallelToPlane(B)); ctx.check(A.IsPerpendicularToPlane(B) == (dt(n1, n2) == 0), "planes-perpendicular", nm); double e = par ? t.s * std::fabs((double)dt(w, n1)) / l1 : 0; ctx.check(eq(A.DistToPlane(B), e, tol), "plane-distance", nm, ": ", A.DistToPlane(B), " expected ", e); double cs = std::fabs((double)dt(n1, n2)) / (l1 * l2); ctx.check(eq(std::fabs(std::cos(A.AngleToPlane(B))), cs, 1e-12), "angle-to-plane", nm);
		Line3D L; bool h = A.IntersectionWithPlane(B, L); ctx.check(h == !par, "plane-plane", nm); if (h) for (double k : {-3.0, 0.0, 2.0}) ctx.check(A.DistToPoint(L(k)) < tol && B.DistToPoint(L(k)) < tol, "plane-plane", nm, ": point ", k, " of the line is ", A.DistToPoint(L(k)), " and ", B.DistToPoint(L(k)), " away"); if (h) ctx.check(eq(L.Direction().NormL2(), 1, 1e-12), "plane-plane", nm);
		double s1[3], s2[3]; A.GetCoordAxisSegments(s1[0], s1[1], s1[2]); B.GetCoordAxisSegments(s2[0], s2[1], s2[2]); bool ok = true; for (int i = 0; i < 3; i++) ok = ok && std::fabs(s1[i]) > 1e-6 && std::fabs(s1[i]) < 1e6 && std::fabs(s2[i]) > 1e-6 && std::fabs(s2[i]) < 1e6; if (ok) { Plane3D C(s1[0], s1[1], s1[2]), D(s2[0], s2[1], s2[2]); bool g = C.IntersectionWithPlane(D, L); if (t.s == 1) ctx.check(g == !par, "plane-plane", nm, " by segments"); if (g && !par) for (double k : {-3.0, 2.0}) ctx.check(A.DistToPoint(L(k)) < tol * 100 && B.DistToPoint(L(k)) < tol * 100, "plane-plane", nm, " by segments"); ctx.check(C.IsParallelToPlane(D) == par && eq(C.DistToPlane(D), e, tol * 10), "plane-distance", nm, " by segments: ", C.DistToPlane(D)); } }
	ctx.state(hv(hv(hv(ctx_h(), n1), n2), w)); ctx.outcome(mc::Hash().u(dt(n1, n2) + 50).u(par)); ctx.nontrivial(); }
MC_SCENARIO(triangles, 2) { // every triangle with two free corners
	V a{0, 1, 0}, b = gv(ctx, 0, ctx.thorough ? 3 : 2), c = gv(ctx, 0, ctx.thorough ? 3 : 2); V u = b - a, v = c - a, n = cr(u, v); bool deg = n.zero(); double area = std::sqrt((double)dt(n, n)) / 2; ll l[3] = {dt(b - a, b - a), dt(c - b, c - b), dt(a - c, a - c)}; std::string nm = str(a) + str(b) + str(c); bool right = l[0] + l[1] == l[2] || l[1] + l[2] == l[0] || l[0] + l[2] == l[1], iso = l[0] == l[1] || l[1] == l[2] || l[0] == l[2], equi = l[0] == l[1] && l[1] == l[2];
	for (const T& t : TS) { ctx.step(); double tol = t.tol() * 60, S = t.s; Triangle3D R(t.p(a), t.p(b), t.p(c)); ctx.check(eq(R.A(), S * std::sqrt((double)l[0]), tol) && eq(R.B(), S * std::sqrt((double)l[1]), tol) && eq(R.C(), S * std::sqrt((double)l[2]), tol), "sides", nm); ctx.check(R.Area() >= 0 && eq(R.Area(), S * S * area, deg ? 1e-6 * S * S : 1e-9 * S * S), "area", nm, ": area ", R.Area(), " expected ", S * S * area); ctx.check(at(R.Centroid(), t.p((a.x + b.x + c.x) / 3.0, (a.y + b.y + c.y) / 3.0, (a.z + b.z + c.z) / 3.0), tol), "centroid", nm); double e = 1e-9 * S * S; if (!deg) ctx.check(R.IsRight(e) == right && R.IsIsosceles(e) == iso && R.IsEquilateral(e) == equi, "kind", nm);
		if (deg) ctx.check(t.s != 1 || t.o[0] || mc::throws([&] { R.getDefinedPlane(); }), "degenerate-plane", nm); else { plane_is(ctx, R.getDefinedPlane(), a, n, t, nm); for (int i = -1; i <= 4; i++) for (int j = -1; j <= 4; j++) for (int k = -1; k <= 1; k++) { double pi = i / 3.0, pj = j / 3.0, pk = k / 4.0; Pnt3Cart z = t.p(a.x + pi * u.x + pj * v.x + pk * n.x, a.y + pi * u.y + pj * v.y + pk * n.y, a.z + pi * u.z + pj * v.z + pk * n.z); bool in = i >= 0 && j >= 0 && i + j <= 3 && k == 0; bool g = R.IsPointInside(z, 1e-9); ctx.check(g == in, k ? "off-plane" : "inside", nm, " barycentric ", i, "/3 ", j, "/3 height ", k, "/4: ", g); }
			TriangleSurface3D s(t.p(a), t.p(b), t.p(c)); double L = std::sqrt((double)std::max(l[0], std::max(l[1], l[2]))) * S, H = 2 * area * S * S / L; ctx.check(eq(s.getMinU(), 0, tol) && eq(s.getMaxU(), L, tol), "surface-range", nm); double A = 0; for (int i = 0; i < 100; i++) { double m = L * (i + 0.5) / 100; ctx.check(s.getMinW(m) == 0 && s.getMaxW(m) >= 0 && s.getMaxW(m) <= H * (1 + 1e-9), "surface-range", nm); A += s.getMaxW(m) * L / 100; } ctx.check(eq(A, area * S * S, 1e-3 * area * S * S), "surface-range", nm, ": parameter area ", A); Plane3D pl(t.p(a), t.p(b), t.p(c)); Triangle3D big(t.p(a), t.p(b), t.p(c)); for (double f : {0.0, 0.13, 0.5, 0.87, 1.0}) for (double g : {0.0, 0.5, 1.0}) { auto q = s(f * L, g * s.getMaxW(f * L)); Pnt3Cart Z(q[0], q[1], q[2]); ctx.check(pl.DistToPoint(Z) < tol * 10 && big.IsPointInside(Z, 1e-6 * std::max(1., S)), "surface-point", nm, " u ", f, "L: ", ps(Z)); } auto q1 = s(0, 0), q2 = s(L, 0); double um = s._pnt3XCoord; auto q3 = s(um, s.getMaxW(um)); int hit = 0; for (auto& c3 : {t.p(a), t.p(b), t.p(c)}) for (auto& q : {q1, q2, q3}) hit += at(Pnt3Cart(q[0], q[1], q[2]), c3, tol * 10); ctx.check(hit == 3, "surface-corners", nm); } }
	ctx.state(hv(hv(ctx_h(), b), c)); ctx.outcome(mc::Hash().d(area).u(right).u(iso)); ctx.nontrivial(); }
MC_SCENARIO(rectangles, 1) { // rectangles with every orientation of the frame
	V u = dirv(ctx); int w = ctx.range(1, 3); V a = u.x || u.y ? V{u.y, -u.x, 0} : V{1, 0, 0}, n = cr(u, a); int k = ctx.choose(2); V v = k ? n : a; v = {v.x * w, v.y * w, v.z * w}; V p{1, -1, 2}; double lu = std::sqrt((double)dt(u, u)), lv = std::sqrt((double)dt(v, v)); std::string nm = str(p) + "+" + str(u) + "+" + str(v);
	for (const T& t : TS) { ctx.step(); double tol = t.tol() * 60, S = t.s; RectSurface3D r(t.p(p), t.p(p + u), t.p(p + u + v), t.p(p + v)); ctx.check(eq(r.getArea(), S * S * lu * lv, 1e-10 * S * S * lu * lv) && eq(r.getMaxU() - r.getMinU(), S * lu, tol) && eq(r.getMaxW() - r.getMinW(), S * lv, tol), "rect-size", nm); auto c = [&](double i, double j) { return t.p(p.x + i * u.x + j * v.x, p.y + i * u.y + j * v.y, p.z + i * u.z + j * v.z); }; ctx.check(at(r.getCenter(), c(.5, .5), tol), "rect-center", nm); for (double i : {0.0, 0.25, 1.0}) for (double j : {0.0, 0.25, 1.0}) { auto q = r(r.getMinU() + i * S * lu, r.getMinW() + j * S * lv); ctx.check(at(Pnt3Cart(q[0], q[1], q[2]), c(i, j), tol), "rect-point", nm, " at ", i, " ", j); } Vec3Cart g = r.getNormal(), un = t.d(cr(u, v)); ctx.check(vat(g * (S * lu * lv), un, 1e-9 * S * lu * lv), "rect-normal", nm); ctx.check(mc::throws([&] { RectSurface3D(t.p(p), t.p(p + u), t.p(p + u + v), t.p(p + v + cr(u, v))); }), "rect-coplanar", nm, ": non-coplanar corners accepted"); }
	ctx.state(hv(hv(ctx_h(), u), v)); ctx.outcome(mc::Hash().d(lu).d(lv)); ctx.nontrivial(); }
MC_SCENARIO(tetrahedra, 2) { // the six-edge tetrahedron against coordinates
	V a{0, 0, 0}, b = gv(ctx, 0, 2), c = gv(ctx, 0, 2), d = ctx.thorough ? gv(ctx, 0, 2) : gv(ctx, 0, 1); auto ln = [](V x) { return std::sqrt((double)dt(x, x)); }; ll det = dt(b, cr(c, d)); if (cr(b, c).zero() || cr(c, d).zero() || cr(b, d).zero() || cr(c - b, d - b).zero()) ctx.prune(); double s = ctx.pick({1.0, 0.02, 30.0}); Tetrahedron t(s * ln(b), s * ln(c), s * ln(d), s * ln(c - b), s * ln(d - b), s * ln(d - c)); double vol = std::fabs((double)det) / 6, ar = (ln(cr(b, c)) + ln(cr(b, d)) + ln(cr(c, d)) + ln(cr(c - b, d - b))) / 2; std::string nm = str(b) + str(c) + str(d) + " scale " + std::to_string(s); ctx.step(); ctx.check(eq(t.Volume(), vol * s * s * s, (det ? 1e-11 : 1e-5) * s * s * s), "tetra-volume", nm, ": ", t.Volume(), " expected ", vol * s * s * s); ctx.check(eq(t.SurfaceArea(), ar * s * s, 1e-9 * s * s), "tetra-area", nm, ": ", t.SurfaceArea(), " expected ", ar * s * s); ctx.check(eq(t.Inradius(), 3 * vol / ar * s, (det ? 1e-8 : 1e-4) * s), "tetra-inradius", nm); ctx.check(eq(t.FaceABC().Area(), s * s * ln(cr(b, c)) / 2, 1e-9 * s * s) && eq(t.FaceABD().Area(), s * s * ln(cr(b, d)) / 2, 1e-9 * s * s) && eq(t.FaceACD().Area(), s * s * ln(cr(c, d)) / 2, 1e-9 * s * s) && eq(t.FaceBCD().Area(), s * s * ln(cr(c - b, d - b)) / 2, 1e-9 * s * s), "tetra-faces", nm); bool reg = dt(b, b) == dt(c, c) && dt(c, c) == dt(d, d) && dt(b, b) == dt(c - b, c - b) && dt(b, b) == dt(d - b, d - b) && dt(b, b) == dt(d - c, d - c); ctx.check(t.IsRegular() == reg, "tetra-regular", nm); if (reg) ctx.check(eq(t.Circumradius(), s * ln(b) * std::sqrt(3. / 8), 1e-10 * s), "tetra-circumradius", nm);
	ctx.state(hv(hv(hv(ctx_h(), b), c), d).d(s)); ctx.outcome(mc::Hash().d(vol).d(ar)); ctx.nontrivial(); }
template <class F> static double quad(F f, double a, double b) { double s = 0; int n = 400; static const double x[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, w[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763}; double h = (b - a) / n; for (int i = 0; i < n; i++) { double m = a + (i + 0.5) * h; for (int k = 0; k < 4; k++) s += w[k] * h / 2 * (f(m + x[k] * h / 2) + f(m - x[k] * h / 2)); } return s; }
MC_SCENARIO(solids, 1) { // formulas against the integrals of their solids of revolution
	double r = ctx.pick({0.5, 1.0, 3.0, 200.0}), h = ctx.pick({0.25, 1.0, 7.0}); int k = ctx.choose(6); std::string nm = "r " + std::to_string(r) + " h " + std::to_string(h) + " solid " + std::to_string(k); ctx.step(); auto rel = [&](double g, double e, const char* key, double tol = 1e-11) { ctx.check(std::isfinite(g) && std::fabs(g - e) <= tol * std::fabs(e), key, nm, ": ", g, " expected ", e); };
	if (k == 0) { SphereGeom s(r); rel(s.Volume(), quad([&](double z) { return PI * (r * r - z * z); }, -r, r), "sphere"); rel(s.SurfaceArea(), 4 * PI * r * r, "sphere"); rel(s.Diameter(), 2 * r, "sphere"); double c = r * std::min(h, 1.5) ; rel(s.CapVolume(c), quad([&](double z) { return PI * (r * r - z * z); }, r - c, r), "sphere-cap"); rel(s.CapArea(c), quad([&](double) { return 2 * PI * r; }, r - c, r), "sphere-cap"); rel(s.ZoneArea(c), 2 * PI * r * c, "sphere-cap"); rel(SphereGeom::FromVolume(s.Volume()).Radius(), r, "sphere-from"); rel(SphereGeom::FromSurfaceArea(s.SurfaceArea()).Radius(), r, "sphere-from"); rel(SphereGeom::Circumscribed(Rectangle(r, h), 2.0).Radius(), std::sqrt(r * r + h * h + 4) / 2, "sphere-from"); rel(s.GreatCircle().Radius(), r, "sphere"); ctx.check(s.IsValid() && !SphereGeom(0).IsValid() && !SphereGeom(-1).IsValid() && !SphereGeom().IsValid(), "valid", nm); }
	if (k == 1) { CylinderGeom c(r, h); rel(c.Volume(), PI * r * r * h, "cylinder"); rel(c.LateralArea(), 2 * PI * r * h, "cylinder"); rel(c.BaseArea(), PI * r * r, "cylinder"); rel(c.SurfaceArea(), 2 * PI * r * (r + h), "cylinder"); rel(c.Diameter(), 2 * r, "cylinder"); auto f = CylinderGeom::FromVolume(c.Volume(), r); rel(f.Height(), h, "cylinder-from"); rel(f.Radius(), r, "cylinder-from"); rel(c.Base().Radius(), r, "cylinder"); ctx.check(c.IsValid() && !CylinderGeom(r, 0).IsValid() && !CylinderGeom(0, h).IsValid(), "valid", nm); }
	if (k == 2) { ConeGeom c(r, h); double sl = std::hypot(r, h); rel(c.Volume(), quad([&](double z) { return PI * r * r * (z / h) * (z / h); }, 0, h), "cone"); rel(c.SlantHeight(), sl, "cone"); rel(c.LateralArea(), quad([&](double z) { return 2 * PI * r * z / h * sl / h; }, 0, h), "cone"); rel(c.BaseArea(), PI * r * r, "cone"); rel(c.SurfaceArea(), PI * r * (r + sl), "cone"); rel(std::tan(c.ApexAngle()), r / h, "cone"); auto f = ConeGeom::FromSlantHeight(r, sl); rel(f.Height(), h, "cone-from", 1e-8 * (1 + r / h)); rel(f.Radius(), r, "cone-from"); ctx.check(c.IsValid() && !ConeGeom(r, -1).IsValid() && !ConeGeom(0, 1).IsValid(), "valid", nm); }
	if (k == 3) { for (double q : {0.5, 1.0, 2.5}) { double r2 = r * q; Frustum f(r, r2, h); double sl = std::hypot(r - r2, h); rel(f.Volume(), quad([&](double z) { double x = r + (r2 - r) * z / h; return PI * x * x; }, 0, h), "frustum"); rel(f.LateralArea(), quad([&](double z) { return 2 * PI * (r + (r2 - r) * z / h) * sl / h; }, 0, h), "frustum"); rel(f.SurfaceArea(), PI * (r + r2) * sl + PI * (r * r + r2 * r2), "frustum"); rel(f.SlantHeight(), sl, "frustum"); ctx.check(f.BottomBase().Radius() == r && f.TopBase().Radius() == r2 && f.IsValid() && !Frustum(r, 0, h).IsValid(), "valid", nm); } }
	if (k == 4) for (double q : {0.2, 0.9, 0.9999, 1 - 1e-6, 1.0, 1 + 1e-6, 1.001, 1.3, 5.0}) { Spheroid s(r, r * q); double c = r * q; rel(s.Volume(), quad([&](double z) { return PI * r * r * (1 - z * z / (c * c)); }, -c, c), "spheroid"); double A = quad([&](double th) { double st = std::sin(th), ct = std::cos(th); return 2 * PI * r * st * std::sqrt(r * r * ct * ct + c * c * st * st); }, 0, PI); rel(s.SurfaceArea(), A, "spheroid-area", 1e-9); ctx.check(s.IsOblate() == (q < 1) && s.IsProlate() == (q > 1) && s.IsValid() && !Spheroid(0, 1).IsValid(), "spheroid-kind", nm); rel(s.Eccentricity() + 1, std::sqrt(q <= 1 ? 1 - q * q : 1 - 1 / (q * q)) + 1, "eccentricity", 1e-7); rel(s.Flattening() + 3, 1 - q + 3, "flattening"); if (q == 1) ctx.check(s.IsSphere(), "spheroid-kind", nm); if (std::fabs(q - 1) > 0.05) ctx.check(!s.IsSphere(), "spheroid-kind", nm); }
	if (k == 5) for (double q : {0.1, 0.5, 0.99}) { double R = r / q; TorusGeom t(R, r); rel(t.Volume(), quad([&](double th) { double z = std::cos(th); (void)z; return PI * 4 * R * r * r * std::sin(th) * std::sin(th); }, 0, PI), "torus"); rel(t.SurfaceArea(), quad([&](double th) { return 2 * PI * (R + r * std::cos(th)) * r; }, 0, 2 * PI), "torus"); ctx.check(t.IsValid() && t.IsRingTorus() && !t.IsHornTorus() && !t.IsSpindleTorus() && TorusGeom(r, r).IsHornTorus() && TorusGeom(r, R).IsSpindleTorus() && t.InnerRadius() == R - r && t.OuterRadius() == R + r && t.TubeCrossSection().Radius() == r, "torus", nm); }
	ctx.state(mc::Hash().d(r).d(h).u(k)); ctx.outcome(mc::Hash().d(r * (k + 1)).d(h)); ctx.nontrivial(); }
MC_SCENARIO(sphere_distance, 2) { // great-circle distance between every pair of grid positions, and near-coincident or near-antipodal ones
	static const double LA[] = {-90, -60, -45, 0, 30, 45, 89.999999, 90}, LO[] = {-180, -90, -30, 0, 45, 90, 179.999999, 180}; double la1 = LA[ctx.choose(8)], lo1 = LO[ctx.choose(8)]; double la2, lo2; std::string nm; double dd = 0; if (ctx.flag()) { la2 = LA[ctx.choose(8)]; lo2 = LO[ctx.choose(8)]; } else { static const double E[] = {0, 1e-3, 1e-5, 1e-7, 1e-9}; dd = E[ctx.choose(5)]; int dir = ctx.choose(3); la2 = dir == 0 ? la1 : la1 > 0 ? la1 - dd : la1 + dd; lo2 = dir == 1 ? lo1 : lo1 > 0 ? lo1 - dd : lo1 + dd; } ctx.step(); typedef long double ld; auto vec = [](double la, double lo, ld* v) { ld a = (ld)la * PI / 180, o = (ld)lo * PI / 180; v[0] = cosl(a) * cosl(o); v[1] = cosl(a) * sinl(o); v[2] = sinl(a); }; ld a[3], b[3]; vec(la1, lo1, a); vec(la2, lo2, b); ld c[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; double e = (double)atan2l(sqrtl(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]); nm = ctx.cat("(", la1, ",", lo1, ") to (", la2, ",", lo2, ")"); double g = SphericalGeometryCalculator::DistanceBetweenLatLong(la1, lo1, la2, lo2), g2 = SphericalGeometryCalculator::DistanceBetweenLatLong(6371.0, la1, lo1, la2, lo2), g3 = SphericalGeometryCalculator::DistanceBetweenLatLong(la2, lo2, la1, lo1); ctx.check(eq(g, e, 2e-15 + 1e-13 * e + 4e-15), "great-circle", nm, ": ", g, " expected ", e); ctx.check(eq(g2, 6371 * e, 6371 * (1e-13 * e + 6e-15)), "great-circle-radius", nm, ": ", g2); ctx.check(eq(g, g3, 1e-14), "great-circle-symmetric", nm); auto s = SphericalGeometryCalculator::SphericalFromLatLong(la1, lo1); auto p = SphericalGeometryCalculator::CartesianFromSpherical(s); ctx.check(eq(p.X(), (double)a[0], 1e-14) && eq(p.Y(), (double)a[1], 1e-14) && eq(p.Z(), (double)a[2], 1e-14) && eq(SphericalGeometryCalculator::RadiusFromCartesian(p), 1, 1e-14), "lat-long", nm); Pnt3Cart big(3e200, 4e200, 1.2e201); ctx.check(mc::near(SphericalGeometryCalculator::RadiusFromCartesian(big), 1.3e201, 1e-13), "radius", nm); ctx.state(mc::Hash().d(la1).d(lo1).d(la2).d(lo2)); ctx.outcome(mc::Hash().d(e)); ctx.nontrivial(); }
