// planar geometry: points, lines, segments, triangles, polygons, circles, boxes and shape formulas against exact arithmetic on grids
// mc-flags: -O2
#include "mc.h"
#include <array>
#include <set>
#include "mml/base/Geometry/Geometry2D.h"
#include "mml/algorithms/CompGeometry/Intersections.h"
using namespace MML; using mc::Frac; typedef long long ll; static const double PI = 3.14159265358979323846;
struct IP { ll x, y; bool operator==(const IP& o) const { return x == o.x && y == o.y; } };
static ll cr(IP a, IP b) { return a.x * b.y - a.y * b.x; } static ll dt(IP a, IP b) { return a.x * b.x + a.y * b.y; } static IP sub(IP a, IP b) { return {a.x - b.x, a.y - b.y}; } static ll cr3(IP o, IP a, IP b) { return cr(sub(a, o), sub(b, o)); }
// exactly known similarity transforms of the grid into the plane
struct T { double s, c, n, ox, oy; Point2Cartesian p(double x, double y) const { return Point2Cartesian(ox + s * (c * x - n * y), oy + s * (n * x + c * y)); } Point2Cartesian p(IP a) const { return p((double)a.x, (double)a.y); } bool exact() const { return n == 0 && (s == 1 || s == 1000); } double tol() const { return 1e-10 * std::max(1.0, s) + 1e-12 * (std::fabs(ox) + std::fabs(oy)); } };
static const T TS[] = {{1, 1, 0, 0, 0}, {1, 0.6, 0.8, 0, 0}, {1000, 1, 0, 100, -50}, {0.01, 0.28, 0.96, 1, 2}};
static bool at(const Point2Cartesian& a, const Point2Cartesian& b, double tol) { return std::fabs(a.X() - b.X()) <= tol && std::fabs(a.Y() - b.Y()) <= tol; }
static std::string s(IP a) { return "(" + std::to_string(a.x) + "," + std::to_string(a.y) + ")"; }
static bool eq(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static double fd(const Frac& f) { return (double)f.n / (double)f.d; }
// all points of a w x w grid
static IP gp(mc::Ctx& ctx, int w) { int k = ctx.choose(w * w); return {k % w, k / w}; }
// segment intersection: 0 none, 1 point, 2 overlap
struct Isec { int kind = 0; double ax = 0, ay = 0, bx = 0, by = 0; };
static Isec isec(IP p1, IP q1, IP p2, IP q2) { Isec r; IP d1 = sub(q1, p1), d2 = sub(q2, p2), w = sub(p2, p1); ll D = cr(d1, d2); bool z1 = !d1.x && !d1.y, z2 = !d2.x && !d2.y;
	if (D) { ll t = cr(w, d2), u = cr(w, d1); if (D < 0) { D = -D; t = -t; u = -u; } if (t < 0 || t > D || u < 0 || u > D) return r; r.kind = 1; r.ax = p1.x + (double)(t * d1.x) / D; r.ay = p1.y + (double)(t * d1.y) / D; return r; }
	IP d = z1 ? d2 : d1; if (z1 && z2) { if (p1 == p2) { r.kind = 1; r.ax = p1.x; r.ay = p1.y; } return r; } if (cr(d, w)) return r;
	auto key = [&](IP a) { return dt(a, d); }; IP lo1 = p1, hi1 = q1, lo2 = p2, hi2 = q2; if (key(lo1) > key(hi1)) std::swap(lo1, hi1); if (key(lo2) > key(hi2)) std::swap(lo2, hi2); IP lo = key(lo1) > key(lo2) ? lo1 : lo2, hi = key(hi1) < key(hi2) ? hi1 : hi2; if (key(lo) > key(hi)) return r; r.kind = key(lo) == key(hi) ? 1 : 2; r.ax = lo.x; r.ay = lo.y; r.bx = hi.x; r.by = hi.y; return r; }
MC_SCENARIO(segments, 2) { // every pair of segments, degenerate ones included
	int w = ctx.thorough ? 5 : 3; IP p1 = gp(ctx, w), q1 = gp(ctx, w), p2 = gp(ctx, w), q2 = gp(ctx, w); Isec e = isec(p1, q1, p2, q2); std::string n = s(p1) + s(q1) + " x " + s(p2) + s(q2); int ti = 0;
	for (const T& t : TS) { ctx.step(); SegmentLine2D a(t.p(p1), t.p(q1)), b(t.p(p2), t.p(q2)); auto r = a.Intersection(b); auto r2 = CompGeometry::Intersections::IntersectSegments(t.p(p1), t.p(q1), t.p(p2), t.p(q2)), r3 = CompGeometry::Intersections::IntersectSegments(a, b); Point2Cartesian ip(-77, -77); bool h = a.Intersects(b, &ip); double tol = t.tol();
		for (auto& x : {r, r2, r3}) { bool pt = x.type == SegmentIntersectionType::Point, ov = x.type == SegmentIntersectionType::Overlap; ctx.check(x.HasIntersection() == (e.kind != 0) && x.IsPointIntersection() == (e.kind == 1) && x.IsOverlap() == (e.kind == 2) && pt == (e.kind == 1) && ov == (e.kind == 2), "kind", n, " transform ", ti, ": type ", (int)x.type, ", true kind ", e.kind); if (e.kind == 1) ctx.check(at(x.point, t.p(e.ax, e.ay), tol), "point", n, " transform ", ti); if (e.kind == 2) ctx.check((at(x.overlapStart, t.p(e.ax, e.ay), tol) && at(x.overlapEnd, t.p(e.bx, e.by), tol)) || (at(x.overlapEnd, t.p(e.ax, e.ay), tol) && at(x.overlapStart, t.p(e.bx, e.by), tol)), "overlap", n, " transform ", ti); if (x.type == SegmentIntersectionType::Collinear) ctx.check(cr3(p1, q1, p2) == 0 && cr3(p1, q1, q2) == 0, "kind", n, ": reported collinear"); }
		ctx.check(h == (e.kind != 0) && (e.kind != 1 || at(ip, t.p(e.ax, e.ay), tol)), "intersects", n, " transform ", ti); ti++; }
	ctx.state(mc::Hash().u(p1.x + 9 * p1.y).u(q1.x + 9 * q1.y).u(p2.x + 9 * p2.y).u(q2.x + 9 * q2.y)); ctx.outcome(mc::Hash().u(e.kind).d(e.ax).d(e.by)); ctx.nontrivial(); }
MC_SCENARIO(lines, 2) { // every pair of lines through grid points
	int w = 3; IP p1 = gp(ctx, w), q1 = gp(ctx, w), p2 = gp(ctx, w), q2 = gp(ctx, w); if (p1 == q1 || p2 == q2) ctx.prune(); IP d1 = sub(q1, p1), d2 = sub(q2, p2), wv = sub(p2, p1); ll D = cr(d1, d2); int kind = D ? 0 : cr(d1, wv) ? 1 : 2; std::string n = s(p1) + s(q1) + " x " + s(p2) + s(q2); double ix = 0, iy = 0; if (D) { ix = p1.x + (double)(cr(wv, d2) * d1.x) / D; iy = p1.y + (double)(cr(wv, d2) * d1.y) / D; }
	for (const T& t : TS) for (int form = 0; form < 2; form++) { ctx.step(); auto mk = [&](IP p, IP q) { Point2Cartesian a = t.p(p), b = t.p(q); return form ? Line2D(a, Vector2Cartesian(3 * (b.X() - a.X()), 3 * (b.Y() - a.Y()))) : Line2D(a, b); }; Line2D a = mk(p1, q1), b = mk(p2, q2); Point2Cartesian ip; double tol = t.tol() * 4; auto r = a.Intersection(b), r2 = CompGeometry::Intersections::IntersectLines2D(a, b), r3 = CompGeometry::Intersections::IntersectLines2D(a.StartPoint(), a.Direction(), b.StartPoint(), b.Direction()); bool h = a.Intersects(b, &ip);
		for (auto& x : {r, r2, r3}) { ctx.check(x.IsPoint() == (kind == 0) && x.HasIntersection() == (kind == 0) && x.IsParallel() == (kind == 1) && x.IsCoincident() == (kind == 2), "line-kind", n, " type ", (int)x.type, " expected ", kind); if (kind == 0) ctx.check(at(x.point, t.p(ix, iy), tol) && at(a(x.t1), t.p(ix, iy), tol) && at(b(x.t2), t.p(ix, iy), tol), "line-point", n, ": (", x.point.X(), ",", x.point.Y(), ") t1 ", x.t1, " t2 ", x.t2); }
		ctx.check(h == (kind == 0) && (!h || at(ip, t.p(ix, iy), tol)), "line-intersects", n); ctx.check(std::fabs(a.Direction().NormL2() - 1) < 1e-12, "unit", n); }
	ctx.state(mc::Hash().u(p1.x + 9 * p1.y).u(q1.x + 9 * q1.y).u(p2.x + 9 * p2.y).u(q2.x + 9 * q2.y)); ctx.outcome(mc::Hash().u(kind).d(ix).d(iy)); ctx.nontrivial(); }
MC_SCENARIO(point_to_line, 2) { // distance, closest point, containment, perpendicular
	IP p = gp(ctx, 3), q = gp(ctx, 3), z = gp(ctx, 4); IP d = sub(q, p), w = sub(z, p); ll L = dt(d, d); std::string n = s(p) + s(q) + " to " + s(z); double u = L ? (double)dt(w, d) / L : 0, us = std::min(1.0, std::max(0.0, u)); auto foot = [&](double k) { return std::make_pair(p.x + k * d.x, p.y + k * d.y); }; auto f = foot(u), fs = foot(us); double dl = L ? std::fabs((double)cr(d, w)) / std::sqrt((double)L) : 0, ds = std::hypot(z.x - fs.first, z.y - fs.second);
	for (const T& t : TS) { double tol = t.tol() * 2; Point2Cartesian a = t.p(p), b = t.p(q), c = t.p(z); SegmentLine2D g(a, b); ctx.step(); ctx.check(eq(g.Length(), t.s * std::sqrt((double)L), tol) && at(g.Midpoint(), t.p((p.x + q.x) / 2.0, (p.y + q.y) / 2.0), tol), "segment", n, " length ", g.Length()); for (double k : {0.0, 0.25, 1.0}) { auto m = foot(k); ctx.check(at(g.PointOnSegment(k), t.p(m.first, m.second), tol), "segment", n, " point at ", k); } ctx.check(mc::throws([&] { g.PointOnSegment(1.0001); }) && mc::throws([&] { g.PointOnSegment(-1e-9); }), "segment-range", n); ctx.check(eq(g.DistanceToPoint(c), t.s * ds, tol) && at(g.ClosestPoint(c), t.p(fs.first, fs.second), tol), "segment-distance", n, ": ", g.DistanceToPoint(c), " expected ", t.s * ds); SegmentLine2D g2(a, Vector2Cartesian(b.X() - a.X(), b.Y() - a.Y()), 2.0); ctx.check(at(g2.EndPoint(), t.p(p.x + 2 * d.x, p.y + 2 * d.y), tol), "segment", n, " from direction"); ctx.check(g.ClosestPoint(c).Dist(c) <= g.DistanceToPoint(c) + tol, "segment-distance", n);
		if (L) { Line2D l(a, b); ctx.check(eq(l.DistanceToPoint(c), t.s * dl, tol), "line-distance", n, ": ", l.DistanceToPoint(c)); ctx.check(at(l.ClosestPoint(c), t.p(f.first, f.second), tol), "line-distance", n, ": closest"); ctx.check(l.Contains(c, t.tol()) == (cr(d, w) == 0), "line-contains", n); Line2D o = l.Perpendicular(c); ctx.check(at(o.StartPoint(), c, 0) && std::fabs(o.Direction().X() * l.Direction().X() + o.Direction().Y() * l.Direction().Y()) < 1e-12 && eq(o.Direction().NormL2(), 1, 1e-12), "perpendicular", n); } }
	ctx.state(mc::Hash().u(p.x + 9 * p.y).u(q.x + 9 * q.y).u(z.x + 9 * z.y)); ctx.outcome(mc::Hash().d(dl).d(ds)); ctx.nontrivial(); }
static void triangle(mc::Ctx& ctx, double x[3], double y[3], const T& t, const std::string& n, bool deg, int flags) { // flags: 1 right, 2 isosceles, 4 equilateral
	double tol = t.tol() * 4, S = t.s; Point2Cartesian P[3] = {t.p(x[0], y[0]), t.p(x[1], y[1]), t.p(x[2], y[2])}; Triangle2D r(P[0], P[1], P[2]); double A2 = (x[1] - x[0]) * (y[2] - y[0]) - (y[1] - y[0]) * (x[2] - x[0]), l[3]; for (int i = 0; i < 3; i++) l[i] = std::hypot(x[(i + 1) % 3] - x[i], y[(i + 1) % 3] - y[i]); double area = std::fabs(A2) / 2; double atol = (deg ? 2e-8 : 1e-10) * S * S * 10 + 1e-12;
	ctx.check(eq(r.A(), S * l[0], tol) && eq(r.B(), S * l[1], tol) && eq(r.C(), S * l[2], tol) && eq(r.Perimeter(), S * (l[0] + l[1] + l[2]), tol), "sides", n); ctx.check(r.Area() >= 0 && eq(r.Area(), S * S * area, atol), "area", n, ": area ", r.Area(), " expected ", S * S * area); ctx.check(eq(r.SignedArea(), S * S * A2 / 2, 1e-10 * S * S + 1e-13), "signed-area", n); if (!deg) ctx.check(r.IsCounterClockwise() == (A2 > 0) && r.IsClockwise() == (A2 < 0), "orientation", n); ctx.check(at(r.Centroid(), t.p((x[0] + x[1] + x[2]) / 3, (y[0] + y[1] + y[2]) / 3), tol), "centroid", n);
	if (deg) { ctx.check(mc::throws([&] { r.Circumcenter(); }), "degenerate", n, ": circumcenter of a degenerate triangle"); ctx.check(mc::throws([&] { r.CircumRadius(); }), "degenerate", n, ": circumradius of a degenerate triangle is ", [&] { try { return r.CircumRadius(); } catch (...) { return 0.0; } }()); ctx.check(mc::throws([&] { Circle2D::FromThreePoints(P[0], P[1], P[2]); }), "degenerate", n); double ir = 0; mc::throws([&] { ir = r.InRadius(); }); ctx.check(ir >= 0 && ir <= 1e-6 * S, "degenerate", n, ": inradius ", ir); }
	else { double R = S * l[0] * l[1] * l[2] / (4 * area), rin = S * 2 * area / (l[0] + l[1] + l[2]); auto cc = r.Circumcenter(); double ct = t.tol() * 40 * (1 + R / S); for (auto& p : P) ctx.check(eq(cc.Dist(p), R, ct), "circumcenter", n, ": distance ", cc.Dist(p), " radius ", R); ctx.check(eq(r.CircumRadius(), R, ct), "circumradius", n, ": ", r.CircumRadius(), " expected ", R); auto c3 = Circle2D::FromThreePoints(P[0], P[1], P[2]); ctx.check(at(c3.Center(), cc, ct) && eq(c3.Radius(), R, ct), "circumcircle", n); ctx.check(eq(r.InRadius(), rin, tol * 4), "inradius", n, ": ", r.InRadius(), " expected ", rin); auto ic = r.Incenter(); for (int i = 0; i < 3; i++) ctx.check(eq(SegmentLine2D(P[i], P[(i + 1) % 3]).DistanceToPoint(ic), rin, tol * 4), "incenter", n, ": distance to side ", i); ctx.check(r.Contains(ic), "incenter", n);
		double an[3]; for (int i = 0; i < 3; i++) { double ux = x[(i + 1) % 3] - x[i], uy = y[(i + 1) % 3] - y[i], vx = x[(i + 2) % 3] - x[i], vy = y[(i + 2) % 3] - y[i]; an[i] = std::atan2(std::fabs(ux * vy - uy * vx), ux * vx + uy * vy); } ctx.check(eq(r.AngleA(), an[2], 1e-7) && eq(r.AngleB(), an[0], 1e-7) && eq(r.AngleC(), an[1], 1e-7), "angles", n, ": ", r.AngleA(), " ", r.AngleB(), " ", r.AngleC(), " expected ", an[2], " ", an[0], " ", an[1]); double e = 1e-9 * std::max(S, S * S); ctx.check(r.IsRight(e) == bool(flags & 1), "right", n); ctx.check(r.IsIsosceles(1e-9 * S) == bool(flags & 2), "isosceles", n); ctx.check(r.IsEquilateral(1e-9 * S) == bool(flags & 4), "equilateral", n);
		for (int gx = -1; gx <= 9; gx++) for (int gy = -1; gy <= 9; gy++) { double px = gx / 3.0, py = gy / 3.0; double m = 1e9; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3; double c = ((x[j] - x[i]) * (py - y[i]) - (y[j] - y[i]) * (px - x[i])) * (A2 > 0 ? 1 : -1); m = std::min(m, c); } ctx.check(r.Contains(t.p(px, py), 1e-9) == (m > -1e-9), "contains", n, ": (", px, ",", py, ")"); } }
	Triangle2D c(P[1], P[1], P[0]); c.Area(); c.Perimeter(); c.Pnt1() = P[0]; c.Pnt2() = P[1]; c.Pnt3() = P[2]; for (int k = 0; k < 3; k++) { Point2Cartesian keep = P[k], zz(P[k].X() + S, P[k].Y() - S); c.Perimeter(); (k == 0 ? c.Pnt1() : k == 1 ? c.Pnt2() : c.Pnt3()) = zz; Point2Cartesian Z[3] = {P[0], P[1], P[2]}; Z[k] = zz; ctx.check(eq(c.A(), Z[0].Dist(Z[1]), tol) && eq(c.B(), Z[1].Dist(Z[2]), tol) && eq(c.C(), Z[2].Dist(Z[0]), tol), "stale", n, ": sides after moving vertex ", k); (k == 0 ? c.Pnt1() : k == 1 ? c.Pnt2() : c.Pnt3()) = keep; } ctx.check(eq(c.A(), S * l[0], tol) && eq(c.B(), S * l[1], tol) && eq(c.C(), S * l[2], tol) && eq(c.Area(), r.Area(), atol) && eq(c.Perimeter(), r.Perimeter(), tol), "stale", n, ": sides after moving the vertices"); }
MC_SCENARIO(triangles, 2) { // every triple of grid points
	int w = ctx.thorough ? 4 : 3; IP a[3] = {gp(ctx, w), gp(ctx, w), gp(ctx, w)}; ll l[3], A2 = cr3(a[0], a[1], a[2]); for (int i = 0; i < 3; i++) l[i] = dt(sub(a[(i + 1) % 3], a[i]), sub(a[(i + 1) % 3], a[i])); int fl = (l[0] + l[1] == l[2] || l[0] + l[2] == l[1] || l[1] + l[2] == l[0]) | (l[0] == l[1] || l[1] == l[2] || l[0] == l[2] ? 2 : 0); double x[3], y[3]; for (int i = 0; i < 3; i++) { x[i] = a[i].x; y[i] = a[i].y; } for (const T& t : TS) { ctx.step(); triangle(ctx, x, y, t, s(a[0]) + s(a[1]) + s(a[2]), A2 == 0, fl); } ctx.state(mc::Hash().u(a[0].x + 9 * a[0].y).u(a[1].x + 9 * a[1].y).u(a[2].x + 9 * a[2].y)); ctx.outcome(mc::Hash().u(fl).u(A2 + 99)); ctx.nontrivial(); }
MC_SCENARIO(equilateral, 1) { const T& t = TS[ctx.choose(4)]; double k = ctx.pick({0.0, 1.0, 2.5}); double x[3] = {k, k + 1, k + 0.5}, y[3] = {0, 0, std::sqrt(3) / 2}; int o = ctx.choose(3); if (o == 1) { std::swap(x[0], x[1]); std::swap(y[0], y[1]); } if (o == 2) { std::swap(x[0], x[2]); std::swap(y[0], y[2]); } ctx.step(); triangle(ctx, x, y, t, "equilateral", false, 6); ctx.state(mc::Hash().d(k).d(t.s).d(t.n).u(o)); ctx.outcome(mc::Hash().d(k)); ctx.nontrivial(); }
MC_SCENARIO(polygons, 3) { // every closed polygon of distinct grid points
	int n = ctx.range(3, ctx.thorough ? 7 : 5), w = 3; std::vector<IP> v; for (int i = 0; i < n; i++) { IP p = gp(ctx, w); for (auto& q : v) if (q == p) ctx.prune(); v.push_back(p); } std::string nm; for (auto& p : v) nm += s(p); ll A2 = 0, mx = 0, my = 0; double per = 0; int lo = 0, hi = 0; bool left = false, right = false; auto V = [&](int i) { return v[i % n]; }; for (int i = 0; i < n; i++) { ll c = cr(V(i), V(i + 1)); A2 += c; mx += (V(i).x + V(i + 1).x) * c; my += (V(i).y + V(i + 1).y) * c; per += std::sqrt((double)dt(sub(V(i + 1), V(i)), sub(V(i + 1), V(i)))); ll k = cr3(V(i), V(i + 1), V(i + 2)); (k > 0 ? left : right) |= k != 0; } (void)lo; (void)hi;
	bool simple = true; for (int i = 0; i < n; i++) { if (cr3(V(i), V(i + 1), V(i + 2)) == 0 && dt(sub(V(i + 1), V(i)), sub(V(i + 2), V(i + 1))) < 0) simple = false; for (int j = i + 2; j < n; j++) if ((j + 1) % n != i && isec(V(i), V(i + 1), V(j), V(j + 1)).kind) simple = false; } ll bx0 = 9, bx1 = -9, by0 = 9, by1 = -9; for (auto& p : v) { bx0 = std::min(bx0, p.x); bx1 = std::max(bx1, p.x); by0 = std::min(by0, p.y); by1 = std::max(by1, p.y); }
	int tn = 0; for (const T& t : TS) { if (n >= 6 && tn++ % 2) continue; ctx.step(); std::vector<Point2Cartesian> pv; for (auto& p : v) pv.push_back(t.p(p)); Polygon2D P(pv); double tol = t.tol() * 4; ctx.check(P.NumVertices() == n && P.Vertex(n - 1) == pv[n - 1] && P[0] == pv[0] && mc::throws([&] { P.Vertex(n); }) && mc::throws([&] { P.Vertex(-1); }) && mc::throws([&] { P.Edge(n); }) && P.Edge(n - 1).EndPoint() == pv[0], "access", nm); double off = std::fabs(t.ox) + std::fabs(t.oy) + 5 * t.s, at2 = 1e-12 * off * off + 1e-12; ctx.check(eq(P.SignedArea(), t.s * t.s * A2 / 2.0, at2) && eq(P.Area(), t.s * t.s * std::fabs((double)A2) / 2, at2), "polygon-area", nm, ": ", P.SignedArea()); ctx.check(eq(P.Perimeter(), t.s * per, tol), "perimeter", nm); if (A2) ctx.check(P.IsCounterClockwise() == (A2 > 0) && P.IsClockwise() == (A2 < 0), "polygon-orientation", nm); if (A2) { double ctol = 1e-12 * off * off * off / (t.s * t.s) + tol; ctx.check(at(P.Centroid(), t.p(mx / (3.0 * A2), my / (3.0 * A2)), ctol), "polygon-centroid", nm, ": ", P.Centroid().X(), " ", P.Centroid().Y()); } else if (t.exact()) ctx.check(mc::throws([&] { P.Centroid(); }), "polygon-centroid", nm, ": centroid of a polygon of zero area"); if (t.exact()) { auto b = P.GetBoundingBox(); ctx.check(at({b.minX, b.minY}, t.p(bx0, by0), 0) && at({b.maxX, b.maxY}, t.p(bx1, by1), 0) && b.Width() == t.s * (bx1 - bx0) && b.Height() == t.s * (by1 - by0) && at(b.Center(), t.p((bx0 + bx1) / 2.0, (by0 + by1) / 2.0), tol), "bounding-box", nm); }
		if (t.exact()) ctx.check(P.IsSimple() == simple, "simple", nm, ": IsSimple ", P.IsSimple()); if (simple) { bool cv = !(left && right); ctx.check(P.IsConvex() == cv, "convex", nm, ": IsConvex ", P.IsConvex()); if (cv) { auto tr = P.Triangularization(); double sum = 0; for (auto& q : tr) sum += std::fabs(q.SignedArea()); ctx.check((int)tr.size() == n - 2 && eq(sum, t.s * t.s * std::fabs((double)A2) / 2, 1e-9 * t.s * t.s), "fan", nm); } } else if (A2 && t.exact()) ctx.check(!P.IsConvex() , "convex", nm, ": self-intersecting polygon called convex");
		for (int gx = -1; gx <= 9; gx++) for (int gy = -1; gy <= 9; gy++) { IP q{gx, gy}; bool on = false; int wn = 0; for (int i = 0; i < n; i++) { IP a{4 * V(i).x, 4 * V(i).y}, b{4 * V(i + 1).x, 4 * V(i + 1).y}; ll c = cr3(a, b, q); if (c == 0 && dt(sub(a, q), sub(b, q)) <= 0) on = true; if (a.x <= q.x && b.x > q.x && c < 0) wn--; else if (a.x > q.x && b.x <= q.x && c > 0) wn++; } if (on) continue; // crossings of the vertical ray upwards
			auto p = t.p(gx / 4.0, gy / 4.0); int got = P.WindingNumber(p); ctx.check(got == wn, "winding", nm, " transform: point (", gx, ",", gy, ")/4 winding ", got, " expected ", wn); ctx.check(P.Contains(p) == (wn % 2 != 0), "polygon-contains", nm, ": (", gx, ",", gy, ")/4"); }
		Polygon2D R = P; R.Reverse(); ctx.check(eq(R.SignedArea(), -P.SignedArea(), at2) && R[0] == pv[n - 1] && R.NumVertices() == n, "reverse", nm); Polygon2D Q; for (auto& p : pv) Q.AddVertex(p); ctx.check(Q.Vertices() == P.Vertices(), "access", nm); Q.Clear(); ctx.check(Q.NumVertices() == 0 && Q.Area() == 0 && Q.Perimeter() == 0 && mc::throws([&] { Q.Centroid(); }) && mc::throws([&] { Q.GetBoundingBox(); }) && !Q.Contains(pv[0]) && Q.WindingNumber(pv[0]) == 0, "empty", nm); }
	mc::Hash h; for (auto& p : v) h.u(p.x + 9 * p.y); ctx.state(h); ctx.outcome(mc::Hash().u(A2 + 99).u(simple).u(left).u(right)); ctx.nontrivial(); }
MC_SCENARIO(circles, 3) { // every pair of circles, circle and point, circle and line, circle and box
	IP a = gp(ctx, 4), b = gp(ctx, 4); int r1 = ctx.range(0, 3), r2 = ctx.range(0, 4); ll d2 = dt(sub(a, b), sub(a, b)); std::string n = s(a) + " r" + std::to_string(r1) + ", " + s(b) + " r" + std::to_string(r2); ctx.step(); double S = ctx.pick({1.0, 1024.0}), ox = 3 * S; auto p = [&](double x, double y) { return Point2Cartesian(ox + S * x, S * y); }; Circle2D A(p(a.x, a.y), S * r1), B(ox + S * b.x, S * b.y, S * r2); bool want = d2 <= (r1 + r2) * (r1 + r2) && d2 >= (r1 - r2) * (r1 - r2); ctx.check(A.Intersects(B) == want && B.Intersects(A) == want, "circle-circle", n); Point2Cartesian z = p(b.x, b.y); double d = S * std::sqrt((double)d2), tol = 1e-12 * S * 10; ctx.check(eq(A.DistanceFromCenter(z), d, tol) && eq(A.SignedDistance(z), d - S * r1, tol) && eq(A.DistanceToPoint(z), std::fabs(d - S * r1), tol) && A.Contains(z) == (d2 <= r1 * r1) && A.IsOnBoundary(z) == (d2 == r1 * r1), "circle-point", n); auto c = A.ClosestPoint(z); ctx.check(eq(A.Center().Dist(c), S * r1, tol) && eq(c.Dist(z), std::fabs(d - S * r1), tol), "circle-closest", n); ctx.check(eq(A.Diameter(), 2 * S * r1, tol) && eq(A.Area(), PI * S * S * r1 * r1, 1e-11 * S * S * 10) && eq(A.Circumference(), 2 * PI * S * r1, tol * 10) && A.Perimeter() == A.Circumference(), "circle-size", n);
	for (double th : {0.0, 0.7, 2.5, -1.0, 6.0}) { auto q = A.PointAt(th); auto tg = A.TangentAt(th); ctx.check(eq(q.X(), ox + S * (a.x + r1 * std::cos(th)), tol) && eq(q.Y(), S * (a.y + r1 * std::sin(th)), tol), "circle-at", n); ctx.check(std::fabs(tg.X() * (q.X() - A.Center().X()) + tg.Y() * (q.Y() - A.Center().Y())) <= tol && eq(tg.NormL2(), 1, 1e-12), "tangent", n); ctx.check(eq(A.ArcLength(th), S * r1 * std::fabs(th), tol) && eq(A.SectorArea(th), S * S * r1 * r1 * std::fabs(th) / 2, tol * S) && eq(A.ChordLength(th), A.PointAt(0).Dist(q), tol * 4), "arc", n, " chord ", A.ChordLength(th)); }
	auto bb = A.GetBoundingBox(); ctx.check(eq(bb.minX, ox + S * (a.x - r1), tol) && eq(bb.maxX, ox + S * (a.x + r1), tol) && eq(bb.minY, S * (a.y - r1), tol) && eq(bb.maxY, S * (a.y + r1), tol), "circle-box", n); auto tr = A.Translated(Vector2Cartesian(S, -2 * S)); auto sc = A.Scaled(2); ctx.check(at(tr.Center(), p(a.x + 1, a.y - 2), tol) && tr.Radius() == A.Radius() && at(sc.Center(), A.Center(), 0) && sc.Radius() == 2 * A.Radius() && mc::throws([&] { A.Scaled(0); }) && mc::throws([&] { Circle2D(z, -1); }) && mc::throws([&] { Circle2D(0, 0, -1); }), "circle-copy", n); auto fd2 = Circle2D::FromDiameter(p(a.x, a.y), z); ctx.check(at(fd2.Center(), p((a.x + b.x) / 2.0, (a.y + b.y) / 2.0), tol) && eq(fd2.Radius(), d / 2, tol), "diameter", n);
	if (r2 < 4) { IP dir[4] = {{1, 0}, {0, 1}, {1, 1}, {2, -1}}; IP q = dir[r2]; ll cx = cr(q, sub(a, b)), lhs = cx * cx, rhs = r1 * r1 * dt(q, q); if (lhs != rhs || r2 < 2) ctx.check(A.Intersects(Line2D(z, Vector2Cartesian(q.x, q.y))) == (lhs <= rhs), "circle-line", n); } { Box2D box(p(b.x, b.y), p(b.x + r2, b.y + 1)); ll dx = std::max<ll>({b.x - a.x, 0, a.x - b.x - r2}), dy = std::max<ll>({b.y - a.y, 0, a.y - b.y - 1}); ctx.check(box.Intersects(A) == (dx * dx + dy * dy <= r1 * r1), "box-circle", n); }
	ctx.state(mc::Hash().u(a.x + 9 * a.y).u(b.x + 9 * b.y).u(r1).u(r2).d(S)); ctx.outcome(mc::Hash().u(want).u(d2)); ctx.nontrivial(); }
MC_SCENARIO(boxes, 3) { // every pair of boxes given by any two corners
	int w = 3; IP a = gp(ctx, w), b = gp(ctx, w), c = gp(ctx, w), d = gp(ctx, w); std::string n = s(a) + s(b) + " & " + s(c) + s(d); ctx.step(); const double S = 2, O = 1; auto p = [&](double x, double y) { return Point2Cartesian(O + S * x, S * y - O); }; Box2D A(p(a.x, a.y), p(b.x, b.y)), B(O + S * c.x, S * c.y - O, O + S * d.x, S * d.y - O); struct R { ll x0, y0, x1, y1; }; auto nr = [](IP u, IP v) { return R{std::min(u.x, v.x), std::min(u.y, v.y), std::max(u.x, v.x), std::max(u.y, v.y)}; }; R ra = nr(a, b), rb = nr(c, d); auto is = [&](const Box2D& q, double x0, double y0, double x1, double y1) { return at(q.Min(), p(x0, y0), 1e-12) && at(q.Max(), p(x1, y1), 1e-12); };
	ctx.check(is(A, ra.x0, ra.y0, ra.x1, ra.y1) && is(B, rb.x0, rb.y0, rb.x1, rb.y1), "normalize", n); double W = S * (ra.x1 - ra.x0), H = S * (ra.y1 - ra.y0); ctx.check(A.Width() == W && A.Height() == H && A.Area() == W * H && A.Perimeter() == 2 * (W + H) && eq(A.Diagonal(), std::hypot(W, H), 1e-12) && at(A.Center(), p((a.x + b.x) / 2.0, (a.y + b.y) / 2.0), 1e-12) && A.IsDegenerate() == (W == 0 || H == 0) && A.Size().X() == W && A.HalfExtents().Y() == H / 2 && A.MinX() == A.Min().X() && A.MaxY() == A.Max().Y() && A.MinY() == A.Min().Y() && A.MaxX() == A.Max().X(), "box-size", n); if (H) ctx.check(eq(A.AspectRatio(), W / H, 1e-12), "box-size", n); ctx.check(at(A.BottomLeft(), p(ra.x0, ra.y0), 0) && at(A.BottomRight(), p(ra.x1, ra.y0), 0) && at(A.TopLeft(), p(ra.x0, ra.y1), 0) && at(A.TopRight(), p(ra.x1, ra.y1), 0) && A.Corners().size() == 4 && A.Corners() == A.ToPolygon().Vertices() && eq(A.ToPolygon().SignedArea(), W * H, 1e-12), "corners", n);
	bool x = ra.x0 <= rb.x1 && rb.x0 <= ra.x1 && ra.y0 <= rb.y1 && rb.y0 <= ra.y1, in = ra.x0 <= rb.x0 && ra.x1 >= rb.x1 && ra.y0 <= rb.y0 && ra.y1 >= rb.y1; ctx.check(A.Intersects(B) == x && A.Contains(B) == in, "box-box", n); auto I = A.Intersection(B); if (x) ctx.check(is(I, std::max(ra.x0, rb.x0), std::max(ra.y0, rb.y0), std::min(ra.x1, rb.x1), std::min(ra.y1, rb.y1)), "box-intersection", n); else ctx.check(I.MinX() == 0 && I.MaxX() == 0 && I.MinY() == 0 && I.MaxY() == 0, "box-intersection", n); ctx.check(is(A.Union(B), std::min(ra.x0, rb.x0), std::min(ra.y0, rb.y0), std::max(ra.x1, rb.x1), std::max(ra.y1, rb.y1)), "box-union", n);
	Box2D E = A; E.ExpandToInclude(p(c.x, c.y)); ctx.check(is(E, std::min(ra.x0, c.x), std::min(ra.y0, c.y), std::max(ra.x1, c.x), std::max(ra.y1, c.y)), "expand", n); ctx.check(is(Box2D::FromPoints({p(a.x, a.y), p(c.x, c.y), p(b.x, b.y)}), std::min(ra.x0, c.x), std::min(ra.y0, c.y), std::max(ra.x1, c.x), std::max(ra.y1, c.y)) && mc::throws([] { Box2D::FromPoints({}); }), "from-points", n); ctx.check(is(A.Expanded(S), ra.x0 - 1, ra.y0 - 1, ra.x1 + 1, ra.y1 + 1) && is(A.Translated(Vector2Cartesian(S, -S)), ra.x0 + 1, ra.y0 - 1, ra.x1 + 1, ra.y1 - 1) && is(A.Scaled(3), 2 * ra.x0 - ra.x1, 2 * ra.y0 - ra.y1, 2 * ra.x1 - ra.x0, 2 * ra.y1 - ra.y0) && is(Box2D::FromCenterAndSize(A.Center(), W, H), ra.x0, ra.y0, ra.x1, ra.y1) && is(Box2D::FromCenterAndHalfExtents(A.Center(), W / 2, H / 2), ra.x0, ra.y0, ra.x1, ra.y1), "box-copy", n);
	for (int gx = -2; gx <= 6; gx++) for (int gy = -2; gy <= 6; gy++) { double px = gx / 2.0, py = gy / 2.0; bool inside = px >= ra.x0 && px <= ra.x1 && py >= ra.y0 && py <= ra.y1; double dx = std::max({ra.x0 - px, 0.0, px - ra.x1}), dy = std::max({ra.y0 - py, 0.0, py - ra.y1}); auto q = p(px, py); ctx.check(A.Contains(q) == inside && eq(A.DistanceToPoint(q), S * std::hypot(dx, dy), 1e-12), "box-point", n, ": ", px, ",", py); if (!inside) ctx.check(eq(A.ClosestPoint(q).Dist(q), S * std::hypot(dx, dy), 1e-12) && A.Contains(A.ClosestPoint(q)), "box-closest", n); }
	ctx.state(mc::Hash().u(a.x + 9 * a.y).u(b.x + 9 * b.y).u(c.x + 9 * c.y).u(d.x + 9 * d.y)); ctx.outcome(mc::Hash().u(x).u(in).d(W).d(H)); ctx.nontrivial(); }
// --- shape formulas against constructed coordinates or numerical integrals
template <class F> static double simp(F f, double a, double b, int m = 2000) { double h = (b - a) / m, r = f(a) + f(b); for (int i = 1; i < m; i++) r += (i & 1 ? 4 : 2) * f(a + i * h); return r * h / 3; }
static bool rel(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
MC_SCENARIO(shape_triangle, 2) { int a = ctx.range(1, 7), b = ctx.range(1, 7), c = ctx.range(1, 7); double k = ctx.pick({1.0, 0.01, 300.0}); Triangle t(k * a, k * b, k * c); bool ok = a + b > c && a + c > b && b + c > a; std::string n = std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c); ctx.step(); if (k == 1 || (a + b != c && a + c != b && b + c != a)) ctx.check(t.IsValid() == ok, "triangle-valid", n); ctx.state(mc::Hash().u(a).u(b).u(c).d(k)); ctx.outcome(mc::Hash().u(ok).u(a * b * c)); ctx.nontrivial(); if (!ok) return; // B at origin, C at (a,0), A above
	double x = (double)(a * a + c * c - b * b) / (2 * a), y = std::sqrt(std::max(0.0, (double)c * c - x * x)); x *= k; y *= k; double A = k * a, B = k * b, C = k * c, ar = A * y / 2; ctx.check(rel(t.Area(), ar) && rel(t.Perimeter(), A + B + C) && rel(t.Semiperimeter(), (A + B + C) / 2), "triangle-area", n); ctx.check(rel(t.AngleB(), std::atan2(y, x), 1e-7) && rel(t.AngleC(), std::atan2(y, A - x), 1e-7) && rel(t.AngleA(), PI - std::atan2(y, x) - std::atan2(y, A - x), 1e-7), "triangle-angle", n); ctx.check(rel(t.AltitudeToA(), y) && rel(t.AltitudeToB(), 2 * ar / B) && rel(t.AltitudeToC(), 2 * ar / C), "altitude", n); ctx.check(rel(t.MedianToA(), std::hypot(x - A / 2, y)) && rel(t.MedianToB(), std::hypot((x + A) / 2, y / 2)) && rel(t.MedianToC(), std::hypot(x / 2 - A, y / 2)), "median", n); double ux = A / 2, uy = (x * x + y * y - A * x) / (2 * y); ctx.check(rel(t.Circumradius(), std::hypot(ux, uy), 1e-8) && rel(t.Inradius(), 2 * ar / (A + B + C)) && rel(Circle::Inscribed(t).Radius(), t.Inradius()) && rel(Circle::Circumscribed(t).Radius(), t.Circumradius()), "triangle-radii", n);
	int q[3] = {a * a, b * b, c * c}; std::sort(q, q + 3); double e = 1e-9 * (k > 1 ? k * k : 1); if (k == 1) ctx.check(t.IsAcute() == (q[0] + q[1] > q[2]) && t.IsObtuse() == (q[0] + q[1] < q[2]), "acute", n); if (k >= 1) { ctx.check(t.IsRight(e) == (q[0] + q[1] == q[2]), "triangle-right", n); ctx.check(t.IsIsosceles() == (a == b || b == c || a == c) && t.IsEquilateral() == (a == b && b == c) && t.IsScalene() == (a != b && b != c && a != c), "triangle-kind", n); } }
MC_SCENARIO(shape_regular, 2) { int m = ctx.range(3, 14); double sd = ctx.pick({1.0, 0.25, 40.0}); RegularPolygon g(m, sd); double R = sd / (2 * std::sin(PI / m)); std::vector<Point2Cartesian> v; for (int i = 0; i < m; i++) v.push_back({R * std::cos(2 * PI * i / m), R * std::sin(2 * PI * i / m)}); Polygon2D P(v); std::string n = std::to_string(m) + "-gon"; ctx.step(); ctx.check(rel(g.Area(), P.Area()) && rel(g.Perimeter(), P.Perimeter()) && rel(g.Circumradius(), R) && rel(g.Apothem(), SegmentLine2D(v[0], v[1]).Midpoint().Dist({0, 0})) && rel(g.Inradius(), g.Apothem()) && rel(g.InteriorAngle(), PI - 2 * PI / m) && rel(g.ExteriorAngle(), 2 * PI / m) && rel(g.CentralAngle(), 2 * PI / m) && g.IsValid() && rel(g.InscribedCircle().Radius(), g.Inradius()) && rel(g.CircumscribedCircle().Radius(), R), "regular", n); ctx.check(rel(RegularPolygon::FromCircumradius(m, R).SideLength(), sd) && rel(RegularPolygon::FromInradius(m, g.Inradius()).SideLength(), sd) && rel(RegularPolygon::FromArea(m, P.Area()).SideLength(), sd) && RegularPolygon::FromArea(m, P.Area()).NumSides() == m, "regular-from", n); RegularPolygon f[9] = {RegularPolygon::EquilateralTriangle(sd), RegularPolygon::Square(sd), RegularPolygon::Pentagon(sd), RegularPolygon::Hexagon(sd), RegularPolygon::Heptagon(sd), RegularPolygon::Octagon(sd), RegularPolygon::Nonagon(sd), RegularPolygon::Decagon(sd), RegularPolygon::Dodecagon(sd)}; for (int i = 0; i < 9; i++) ctx.check(f[i].NumSides() == (i < 8 ? i + 3 : 12) && f[i].SideLength() == sd, "regular-named", i); ctx.check(!RegularPolygon(2, 1).IsValid() && !RegularPolygon(3, 0).IsValid(), "regular", "validity"); ctx.state(mc::Hash().u(m).d(sd)); ctx.outcome(mc::Hash().u(m)); ctx.nontrivial(); }
MC_SCENARIO(shape_round, 2) { double r = ctx.pick({0.5, 1.0, 3.0, 20.0}), th = ctx.pick({0.1, 1.0, PI / 2, 2.5, PI, 4.0, 6.0, 2 * PI}), q = ctx.pick({0.1, 0.5, 0.9, 1.0}); ctx.step(); std::string n = "radius " + std::to_string(r) + " angle " + std::to_string(th); Circle c(r); double ch = std::hypot(r * std::cos(th) - r, r * std::sin(th)); double sec = simp([&](double) { return r * r / 2; }, 0, th), arc = simp([&](double) { return r; }, 0, th); auto segA = simp([&](double u) { return r * r * (1 - std::cos(u)) / 2; }, 0, th); // d/du of (u - sin u) r^2/2
	ctx.check(rel(c.Area(), simp([&](double u) { return 4 * r * r * std::cos(u) * std::cos(u); }, 0, PI / 2)) && rel(c.Circumference(), 2 * PI * r) && c.Diameter() == 2 * r && rel(c.ArcLength(th), arc) && rel(c.SectorArea(th), sec) && rel(c.ChordLength(th), ch, 1e-8) && rel(c.SegmentArea(th), segA), "circle", n); ctx.check(rel(Circle::FromArea(c.Area()).Radius(), r) && rel(Circle::FromCircumference(c.Perimeter()).Radius(), r), "circle-from", n); CircularSector s1(r, th); ctx.check(s1.IsValid() && rel(s1.Area(), sec) && rel(s1.ArcLength(), arc) && rel(s1.ChordLength(), ch, 1e-8) && rel(s1.Perimeter(), arc + 2 * r) && rel(s1.AngleDegrees(), th * 180 / PI) && !CircularSector(r, 6.4).IsValid() && !CircularSector(r, 0).IsValid(), "sector", n); CircularSegment s2(r, th); double sag = r - r * std::cos(th / 2); ctx.check(s2.IsValid() && rel(s2.Area(), segA) && rel(s2.ArcLength(), arc) && rel(s2.ChordLength(), ch, 1e-8) && rel(s2.Sagitta(), sag) && rel(s2.Perimeter(), arc + ch, 1e-8) && rel(CircularSegment::FromSagitta(r, sag).Angle(), th, 1e-6), "segment-shape", n);
	Annulus an(q * r, r * 1.5); ctx.check(an.IsValid() && rel(an.Area(), PI * r * r * (2.25 - q * q)) && rel(an.Width(), r * (1.5 - q)) && rel(an.InnerCircumference(), 2 * PI * q * r) && rel(an.OuterCircumference(), 3 * PI * r) && rel(an.MeanCircumference(), PI * r * (q + 1.5)) && an.InnerCircle().Radius() == q * r && an.OuterCircle().Radius() == 1.5 * r && !Annulus(1, 1).IsValid(), "annulus", n); Ellipse e(r, q * r); double a = r, b = q * r, f = std::sqrt(a * a - b * b); double per = simp([&](double u) { return std::sqrt(a * a * std::sin(u) * std::sin(u) + b * b * std::cos(u) * std::cos(u)); }, 0, 2 * PI, 20000); ctx.check(rel(e.Area(), PI * a * b) && std::fabs(e.Circumference() - per) <= 1e-4 * per && e.IsCircle() == (q == 1) && e.MajorAxis() == 2 * a && e.MinorAxis() == 2 * b, "ellipse", n, " b/a ", q, " circumference ", e.Circumference(), " ", per); ctx.check(rel(e.LinearEccentricity(), f) && rel(e.FocalDistance(), 2 * f) && rel(e.Eccentricity(), f / a), "ellipse-foci", n); double x = a * std::cos(th), y = b * std::sin(th); ctx.check(rel(std::hypot(x - e.LinearEccentricity(), y) + std::hypot(x + e.LinearEccentricity(), y), 2 * a), "ellipse-foci", n); ctx.check(rel(e.SemiLatusRectum(), b * std::sqrt(1 - f * f / a / a)), "ellipse-foci", n); if (q < 1) ctx.check(rel(std::hypot(x - f, y), e.Eccentricity() * std::fabs(e.DirectrixDistance() - x)) && rel(Ellipse::FromFoci(2 * f, 2 * a).SemiMinor(), b) && Ellipse::FromFoci(2 * f, 2 * a).SemiMajor() == a, "ellipse-foci", n); ctx.state(mc::Hash().d(r).d(th).d(q)); ctx.outcome(mc::Hash().d(r).d(th)); ctx.nontrivial(); }
MC_SCENARIO(shape_quads, 2) { double a = ctx.pick({1.0, 2.0, 0.5}), b = ctx.pick({1.0, 3.0, 0.25, 1.5}), g = ctx.pick({0.2, PI / 4, 1.0, PI / 2, 2.0, 2.9}); ctx.step(); std::string n = std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(g); Point2Cartesian O(0, 0), A(a, 0), B(b * std::cos(g), b * std::sin(g)), C(A.X() + B.X(), B.Y()); Polygon2D P({O, A, C, B}); Parallelogram q(a, b, g); double p = A.Dist(B), r = C.Dist(O); ctx.check(q.IsValid() && rel(q.Area(), P.Area()) && rel(q.Perimeter(), P.Perimeter()) && rel(q.HeightToA(), B.Y()) && rel(q.HeightToB(), P.Area() / b) && rel(q.DiagonalP(), p) && rel(q.DiagonalQ(), r) && rel(q.AcuteAngle(), std::min(g, PI - g)) && rel(q.ObtuseAngle(), std::max(g, PI - g)) && rel(q.AngleDegrees(), g * 180 / PI) && q.IsRectangle() == (g == PI / 2) && q.IsRhombus() == (a == b) && q.IsSquare() == (a == b && g == PI / 2), "parallelogram", n);
	double cosb = ((C.X()) * (A.X() - B.X()) + (C.Y()) * (A.Y() - B.Y())) / (p * r), th = std::acos(std::max(-1.0, std::min(1.0, cosb))); auto f = Parallelogram::FromDiagonals(p, r, th); std::pair<double, double> diags(std::min(f.DiagonalP(), f.DiagonalQ()), std::max(f.DiagonalP(), f.DiagonalQ())); ctx.check(rel(diags.first, std::min(p, r), 1e-7) && rel(diags.second, std::max(p, r), 1e-7) && rel(f.Area(), P.Area(), 1e-7) && rel(f.Perimeter(), P.Perimeter(), 1e-7) && rel(f.AcuteAngle(), q.AcuteAngle(), 1e-6), "from-diagonals", n, ": from diagonals ", p, " ", r, " angle ", th, " got area ", f.Area(), " expected ", P.Area()); Rhombus h(a, b); double sd = std::hypot(a, b) / 2, ac = 2 * std::atan(std::min(a, b) / std::max(a, b)); Polygon2D H({Point2Cartesian(a / 2, 0), Point2Cartesian(0, b / 2), Point2Cartesian(-a / 2, 0), Point2Cartesian(0, -b / 2)}); ctx.check(h.IsValid() && rel(h.Side(), sd) && rel(h.Area(), H.Area()) && rel(h.Perimeter(), H.Perimeter()) && rel(h.AcuteAngle(), ac) && rel(h.ObtuseAngle(), PI - ac) && rel(h.Height(), sd * std::sin(ac)) && rel(h.Inradius(), SegmentLine2D(H[0], H[1]).DistanceToPoint(O)) && rel(h.InscribedCircle().Radius(), h.Inradius()) && h.IsSquare() == (a == b), "rhombus", n); auto h2 = Rhombus::FromSideAndDiagonal(sd, a), h3 = Rhombus::FromSideAndAngle(a, g); ctx.check(rel(h2.Diagonal1(), a) && rel(h2.Diagonal2(), b, 1e-8) && rel(h3.Side(), a) && rel(h3.Area(), a * a * std::sin(g)) && rel(h3.AcuteAngle(), std::min(g, PI - g)), "rhombus-from", n);
	Rectangle R(a, b); ctx.check(R.IsValid() && R.Area() == a * b && R.Perimeter() == 2 * (a + b) && rel(R.Diagonal(), std::hypot(a, b)) && rel(R.AspectRatio(), a / b) && R.IsSquare() == (a == b) && rel(R.InscribedCircleRadius(), std::min(a, b) / 2) && rel(R.CircumscribedCircleRadius(), std::hypot(a, b) / 2) && Rectangle::Square(a).Area() == a * a, "rectangle", n); auto R2 = Rectangle::FromDiagonalAndRatio(std::hypot(a, b), a / b); auto R3 = Rectangle::GoldenRectangle(a); ctx.check(rel(R2.Width(), a) && rel(R2.Height(), b) && rel(R3.Width() / R3.Height(), (1 + std::sqrt(5)) / 2), "rectangle-from", n); Trapezoid Z(a, b, g); ctx.check(Z.IsValid() && rel(Z.Area(), (a + b) * g / 2) && rel(Z.Median(), (a + b) / 2) && Z.IsParallelogram() == (a == b), "trapezoid", n); auto I = Trapezoid::Isosceles(a, b, g + 2); ctx.check(rel(I.Height() * I.Height() + (a - b) * (a - b) / 4, (g + 2) * (g + 2)), "trapezoid", n); ctx.state(mc::Hash().d(a).d(b).d(g)); ctx.outcome(mc::Hash().d(p).d(r)); ctx.nontrivial(); }
MC_SCENARIO(point_systems, 2) { // polar, cylindrical, spherical points: conversion round trip and distance
	auto c1 = [&] { return (double)ctx.range(-1, 2); }; double x = c1(), y = c1(), z = c1(), u = c1(), v = c1(), w = c1(); double k = 1; ctx.step(); for (double S : {1.0, 0.125, 1000.0}) { (void)k; Point3Cartesian a(S * x, S * y, S * z), b(S * u, S * v, S * w); double d = S * std::sqrt((x - u) * (x - u) + (y - v) * (y - v) + (z - w) * (z - w)), tol = 1e-10 * S, dtol = d == 0 ? 5e-8 * S : 1e-9 * S; Point3Spherical sa(a), sb(b); Point3Cylindrical ca(a), cb(b); auto same3 = [&](const Point3Cartesian& p, const Point3Cartesian& q) { return eq(p.X(), q.X(), tol) && eq(p.Y(), q.Y(), tol) && eq(p.Z(), q.Z(), tol); }; ctx.check(same3(sa.TransfToCart(), a), "spherical", x, " ", y, " ", z); ctx.check(same3(ca.TransfToCart(), a), "cylindrical", x, " ", y, " ", z); ctx.check(sa.R() >= 0 && sa.Theta() >= 0 && sa.Theta() <= PI + 1e-12 && ca.R() >= 0 && std::fabs(sa.Phi()) <= PI + 1e-12 && std::fabs(ca.Phi()) <= PI + 1e-12, "range", x, y, z); ctx.check(eq(a.Dist(b), d, tol) && eq(sa.Dist(sb), d, dtol) && eq(ca.Dist(cb), d, dtol), "distance", x, " ", y, " ", z, " to ", u, " ", v, " ", w, ": ", a.Dist(b), " ", sa.Dist(sb), " ", ca.Dist(cb), " expected ", d); ctx.check(a.IsEqualTo(b) == (d == 0) && (a == b) == (d == 0) && (a != b) == (d != 0), "equal", x, y, z); ctx.check(same3((a + b) - b, a) && same3(a * 2 - a, a) && same3((3 * a) / 3, a), "arithmetic", x, y, z); Point2Cartesian p(S * x, S * y), q(S * u, S * v); Point2Polar pp(p), pq(q); double d2 = S * std::hypot(x - u, y - v), t2 = d2 == 0 ? 5e-8 * S : 1e-9 * S; ctx.check(at(pp.TransfToCart(), p, tol) && eq(pp.Dist(pq), d2, t2) && eq(p.Dist(q), d2, tol) && at((p + q) - q, p, tol) && at((2 * p) / 2, p, tol) && pp.R() >= 0, "polar", x, " ", y); }
	{ Point3Cartesian a(x, y, z); Point3Spherical sa(a); Point3Cylindrical ca(a); Point2Polar pa(Point2Cartesian(x, y)); ctx.check(sa.IsEqualTo(sa) && ca.IsEqualTo(ca) && pa.IsEqualTo(pa) && sa == sa && ca == ca && pa == pa, "self-equal", x, " ", y, " ", z, ": spherical self distance ", sa.Dist(sa), " cylindrical ", ca.Dist(ca), " polar ", pa.Dist(pa)); } ctx.state(mc::Hash().d(x).d(y).d(z).d(u).d(v).d(w)); ctx.outcome(mc::Hash().d(x * u + y * v + z * w)); ctx.nontrivial(); }
