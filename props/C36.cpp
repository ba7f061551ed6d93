// planar algorithms: convex hull, clipping, boolean operations, closest pair, minimum enclosing circle, ray-triangle intersection
// mc-flags: -O2
#include "mc.h"
#include <random>
static thread_local unsigned long g_seed = 0; // the seed source of the enclosing circle is a choice of the explorer
#include <set>
#include "mml/algorithms/CompGeometry/ConvexHull.h"
#include "mml/algorithms/CompGeometry/PolygonOps.h"
#define random_device mc_random_device
namespace std { struct mc_random_device { unsigned operator()() { return (unsigned)g_seed; } typedef unsigned result_type; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } double entropy() const { return 0; } }; }
#include "mml/algorithms/CompGeometry/Circles.h"
#undef random_device
using namespace MML; using namespace MML::CompGeometry; typedef long long ll;
struct IP { ll x, y; bool operator==(const IP& o) const { return x == o.x && y == o.y; } bool operator<(const IP& o) const { return x != o.x ? x < o.x : y < o.y; } };
typedef std::vector<IP> Poly;
static ll cr(IP o, IP a, IP b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); } static ll dq(IP a, IP b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
static bool onseg(IP a, IP b, IP p) { return cr(a, b, p) == 0 && (p.x - a.x) * (p.x - b.x) + (p.y - a.y) * (p.y - b.y) <= 0; }
struct T { double s, c, n, ox, oy; Point2Cartesian p(double x, double y) const { return Point2Cartesian(ox + s * (c * x - n * y), oy + s * (n * x + c * y)); } Point2Cartesian p(IP a) const { return p((double)a.x, (double)a.y); } };
static const T TS[] = {{1, 1, 0, 0, 0}, {0.5, 0.6, 0.8, 3, -7}, {1000, 1, 0, 100, -50}};
static std::string str(const Poly& v) { std::string s; for (auto& p : v) s += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; return s; }
static Polygon2D mk(const Poly& v, const T& t) { std::vector<Point2Cartesian> r; for (auto& p : v) r.push_back(t.p(p)); return Polygon2D(r); }
static bool at(const Point2Cartesian& a, const Point2Cartesian& b, double tol) { return std::fabs(a.X() - b.X()) <= tol && std::fabs(a.Y() - b.Y()) <= tol; }
static IP gp(mc::Ctx& ctx, int w) { int k = ctx.choose(w * w); return {k % w, k / w}; }
// a multiset of n grid points in nondecreasing order, then permuted
static Poly multiset(mc::Ctx& ctx, int n, int w, int perms) { Poly v; int last = 0, m = w * w; for (int i = 0; i < n; i++) { last += ctx.choose(m - last); v.push_back({last % w, last / w}); } int k = n > 1 && perms > 1 ? ctx.choose(perms) : 0; if (k == 1) std::reverse(v.begin(), v.end()); if (k == 2) for (int i = 0; i < n; i++) std::swap(v[i], v[(i * 2 + 1) % n]); return v; }
// extreme points in counter-clockwise order
static Poly hull(Poly v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); Poly e; for (auto& p : v) { bool in = false; for (auto& a : v) for (auto& b : v) { if (a == p || b == p) continue; if (onseg(a, b, p)) in = true; for (auto& c : v) { if (c == p) continue; ll s1 = cr(a, b, p), s2 = cr(b, c, p), s3 = cr(c, a, p); if (cr(a, b, c) != 0 && ((s1 >= 0 && s2 >= 0 && s3 >= 0) || (s1 <= 0 && s2 <= 0 && s3 <= 0))) in = true; } } if (!in) e.push_back(p); } if (e.size() < 3) return e; double mx = 0, my = 0; for (auto& p : e) { mx += (double)p.x / e.size(); my += (double)p.y / e.size(); } std::sort(e.begin(), e.end(), [&](IP a, IP b) { return std::atan2(a.y - my, a.x - mx) < std::atan2(b.y - my, b.x - mx); }); return e; }
static bool sameCyc(const Polygon2D& p, const Poly& e, const T& t, double tol) { int n = e.size(); if (p.NumVertices() != n) return false; if (!n) return true; for (int k = 0; k < n; k++) { bool ok = true; for (int i = 0; i < n && ok; i++) ok = at(p[i], t.p(e[(i + k) % n]), tol); if (ok) return true; } return false; }
MC_SCENARIO(convex_hull, 3) { int n = ctx.range(0, ctx.thorough ? 7 : 5); Poly v = multiset(ctx, n, n <= 4 ? 4 : 3, 3); Poly e = hull(v); ctx.step(); for (const T& t : TS) { double tol = 1e-9 * t.s; auto P = ConvexHull2D::Compute(mk(v, t).Vertices()); if (n >= 3) ctx.check(sameCyc(P, e, t, tol), "hull", str(v), ": hull has ", P.NumVertices(), " vertices, extreme points ", str(e)); else ctx.check(P.NumVertices() == n, "hull", str(v)); auto Q = ConvexHull2D::Compute(mk(v, t)); ctx.check(Q.Vertices() == P.Vertices(), "hull", str(v), ": polygon form"); if (e.size() >= 3) { ctx.check(P.IsCounterClockwise() && P.IsConvex() && P.IsSimple(), "hull-order", str(v)); auto R = ConvexHull2D::Compute(P); ctx.check(sameCyc(R, e, t, tol), "hull-idempotent", str(v)); } } mc::Hash h; for (auto& p : v) h.u(p.x + 9 * p.y); ctx.state(h.u(n)); ctx.outcome(mc::Hash().u(e.size()).u(n)); ctx.nontrivial(); }
MC_SCENARIO(hull_structured, 2) { int kind = ctx.choose(6), n = ctx.pick({8, 15, 30, 60}); Poly v; for (int i = 0; i < n; i++) switch (kind) { case 0: v.push_back({i % 7, i / 7}); break; case 1: v.push_back({(ll)std::lround(20 * std::cos(i)), (ll)std::lround(20 * std::sin(i))}); break; case 2: v.push_back({i, i * i}); break; case 3: v.push_back({3, (i * 7) % 11}); break; case 4: v.push_back({(i * 37) % 101, (i * i * 53) % 97}); break; default: v.push_back({i % 2 ? i : -i, (i % 3) - 1}); } Poly e = hull(v); ctx.step(); for (const T& t : TS) { auto P = ConvexHull2D::Compute(mk(v, t)); ctx.check(sameCyc(P, e, t, 1e-9 * t.s), "hull-structured", "kind ", kind, " n ", n, ": ", P.NumVertices(), " vertices, ", e.size(), " extreme points"); } ctx.state(mc::Hash().u(kind).u(n)); ctx.outcome(mc::Hash().u(e.size()).u(kind)); ctx.nontrivial(); }
// --- area of the common region of two polygons by vertical slabs (even-odd rule)
typedef std::vector<std::pair<double, double>> DP;
static DP dp(const Poly& v) { DP r; for (auto& p : v) r.push_back({(double)p.x, (double)p.y}); return r; }
static std::vector<double> cuts(const DP& v, double x) { std::vector<double> r; for (size_t i = 0; i < v.size(); i++) { auto a = v[i], b = v[(i + 1) % v.size()]; if ((a.first < x) != (b.first < x)) r.push_back(a.second + (x - a.first) * (b.second - a.second) / (b.first - a.first)); } std::sort(r.begin(), r.end()); return r; }
static double common(const DP& a, const DP& b, bool uni = false) { std::vector<double> xs; auto edges = [&](const DP& v, size_t i) { return std::make_pair(v[i], v[(i + 1) % v.size()]); }; for (auto& p : a) xs.push_back(p.first); for (auto& p : b) xs.push_back(p.first); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { auto e = edges(a, i), f = edges(b, j); double dx = e.second.first - e.first.first, dy = e.second.second - e.first.second, fx = f.second.first - f.first.first, fy = f.second.second - f.first.second, D = dx * fy - dy * fx; if (std::fabs(D) < 1e-12) continue; double t = ((f.first.first - e.first.first) * fy - (f.first.second - e.first.second) * fx) / D; if (t > -1e-9 && t < 1 + 1e-9) xs.push_back(e.first.first + t * dx); } for (const DP* v : {&a, &b}) for (size_t i = 0; i < v->size(); i++) for (size_t j = i + 2; j < v->size(); j++) { auto e = edges(*v, i), f = edges(*v, j); double dx = e.second.first - e.first.first, dy = e.second.second - e.first.second, fx = f.second.first - f.first.first, fy = f.second.second - f.first.second, D = dx * fy - dy * fx; if (std::fabs(D) < 1e-12) continue; double t = ((f.first.first - e.first.first) * fy - (f.first.second - e.first.second) * fx) / D; if (t > 0 && t < 1) xs.push_back(e.first.first + t * dx); } std::sort(xs.begin(), xs.end()); double A = 0; for (size_t k = 0; k + 1 < xs.size(); k++) { double x0 = xs[k], x1 = xs[k + 1]; if (x1 - x0 < 1e-12) continue; double x = (x0 + x1) / 2; auto ca = cuts(a, x), cb = cuts(b, x); double len = 0; std::vector<double> ys = ca; ys.insert(ys.end(), cb.begin(), cb.end()); std::sort(ys.begin(), ys.end()); for (size_t i = 0; i + 1 < ys.size(); i++) { double y = (ys[i] + ys[i + 1]) / 2; auto in = [&](const std::vector<double>& c) { int m = 0; for (double q : c) m += q < y; return m & 1; }; if (uni ? (in(ca) || in(cb)) : (in(ca) && in(cb))) len += ys[i + 1] - ys[i]; } A += len * (x1 - x0); } return A; }
static bool inside(const DP& v, double x, double y) { int m = 0; for (double q : cuts(v, x)) m += q < y; return m & 1; }
static double margin(const DP& v, double x, double y) { double m = 1e9; for (size_t i = 0; i < v.size(); i++) { auto a = v[i], b = v[(i + 1) % v.size()]; double dx = b.first - a.first, dy = b.second - a.second, L = dx * dx + dy * dy, t = L ? std::max(0.0, std::min(1.0, ((x - a.first) * dx + (y - a.second) * dy) / L)) : 0; m = std::min(m, std::hypot(x - a.first - t * dx, y - a.second - t * dy)); } return m; }
static bool simple(const Poly& v) { int n = v.size(); auto V = [&](int i) { return v[i % n]; }; for (int i = 0; i < n; i++) { if (cr(V(i), V(i + 1), V(i + 2)) == 0) return false; for (int j = i + 2; j < n; j++) { if ((j + 1) % n == i) continue; IP a = V(i), b = V(i + 1), c = V(j), d = V(j + 1); if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return false; ll s1 = cr(a, b, c), s2 = cr(a, b, d), s3 = cr(c, d, a), s4 = cr(c, d, b); if (((s1 > 0) != (s2 > 0)) && ((s3 > 0) != (s4 > 0))) return false; } } return true; }
static bool convex(const Poly& v) { int n = v.size(); bool p = false, m = false; for (int i = 0; i < n; i++) { ll c = cr(v[i], v[(i + 1) % n], v[(i + 2) % n]); p |= c > 0; m |= c < 0; } return !(p && m); }
static Poly simplePoly(mc::Ctx& ctx, int n, int w) { Poly v; for (int i = 0; i < n; i++) { IP p = gp(ctx, w); for (auto& q : v) if (q == p) ctx.prune(); if (i && p < v[0]) ctx.prune(); v.push_back(p); } if (!simple(v)) ctx.prune(); return v; } // least vertex first, both orientations
static const Poly CLIPS[] = {{{0, 0}, {2, 0}, {2, 2}, {0, 2}}, {{1, 0}, {2, 1}, {1, 2}, {0, 1}}, {{0, 0}, {2, 1}, {1, 2}}, {{1, 0}, {2, 0}, {0, 2}, {0, 1}}, {{0, 0}, {1, 0}, {2, 1}, {2, 2}, {0, 1}}, {{-1, -1}, {3, -1}, {3, 3}, {-1, 3}}, {{1, -1}, {2, -1}, {2, 3}, {1, 3}}, {{3, 0}, {4, 0}, {4, 1}}, {{2, 0}, {3, 0}, {3, 2}, {2, 2}}, {{0, 0}, {1, 0}, {2, 0}, {2, 1}, {0, 1}}};
static void samples(mc::Ctx& ctx, const char* key, const Poly& A, const Poly& B, const std::vector<Polygon2D>& R, const T& t, const std::string& w, int op) { DP a = dp(A), b = dp(B); std::vector<DP> rs; for (auto& P : R) { DP r; for (auto& p : P.Vertices()) { double x = (p.X() - t.ox) / t.s, y = (p.Y() - t.oy) / t.s; r.push_back({t.c * x + t.n * y, -t.n * x + t.c * y}); } rs.push_back(r); } for (int i = -4; i <= 17; i++) for (int j = -4; j <= 17; j++) { double x = i / 5.0 + 0.013, y = j / 5.0 + 0.0071; if (margin(a, x, y) < 1e-4 || margin(b, x, y) < 1e-4) continue; bool got = false, skip = false; for (auto& r : rs) { if (r.size() < 3) continue; if (margin(r, x, y) < 1e-6) skip = true; got |= inside(r, x, y); } if (skip) continue; bool ia = inside(a, x, y), ib = inside(b, x, y); if (op == 0) ctx.check(got == (ia && ib), key, w, ": point ", x, ",", y, " in the result: ", got, " in A ", ia, " in B ", ib); if (op == 1) ctx.check(got || !(ia || ib), key, w, ": point ", x, ",", y, " of the union is missing"); if (op == 2) ctx.check((got || !(ia && !ib)), key, w, ": point ", x, ",", y, " of the difference is missing"); if (op == 3) ctx.check(!got || ia, key, w, ": point ", x, ",", y, " outside A"); } }
MC_SCENARIO(clip, 3) { // every simple polygon against convex regions of both orientations
	int n = ctx.range(3, ctx.thorough ? 5 : 4); int k = ctx.choose(10); Poly c = CLIPS[k]; if (ctx.flag()) std::reverse(c.begin(), c.end()); Poly v = simplePoly(ctx, n, 3); std::string w = str(v) + " clipped to " + str(c); double want = common(dp(v), dp(c)); ctx.step(); for (const T& t : TS) { Polygon2D S = mk(v, t), C = mk(c, t); auto R = PolygonOps::ClipPolygon(S, C); double ar = R.NumVertices() >= 3 ? R.Area() / (t.s * t.s) : 0; ctx.check(std::fabs(ar - want) < 1e-7, "clip-area", w, ": area ", ar, " expected ", want); samples(ctx, "clip", v, c, {R}, t, w, 0); auto I = PolygonOps::PolygonIntersectionApprox(S, C); double ai = 0; for (auto& p : I) ai += p.Area() / (t.s * t.s); ctx.check(std::fabs(ai - want) < 1e-7 && I.size() <= 1, "intersection", w, ": area ", ai, " expected ", want);
		if (k == 5 || k == 0 || k == 6 || k == 8) { if (t.n == 0) { double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& p : C.Vertices()) { x0 = std::min(x0, p.X()); x1 = std::max(x1, p.X()); y0 = std::min(y0, p.Y()); y1 = std::max(y1, p.Y()); } auto Q = PolygonOps::ClipToRect(S, x0, y0, x1, y1); ctx.check(std::fabs((Q.NumVertices() >= 3 ? Q.Area() : 0) / (t.s * t.s) - want) < 1e-7, "rect", w); samples(ctx, "rect", v, c, {Q}, t, w, 0); } } if (t.n == 0 && t.s == 1) { ctx.check(PolygonOps::ClipPolygon(Polygon2D(), C).NumVertices() == 0 && PolygonOps::ClipPolygon(S, Polygon2D({t.p(0, 0), t.p(1, 1)})).NumVertices() == 0, "clip-empty", w); } }
	mc::Hash h; for (auto& p : v) h.u(p.x + 9 * p.y); for (auto& p : c) h.u(p.x + 9 * p.y); ctx.state(h); ctx.outcome(mc::Hash().u((ll)std::lround(want * 1e6)).u(n)); ctx.nontrivial(); }
MC_SCENARIO(boolean_pairs, 3) { // all pairs of triangles (quadrilaterals): convex intersection exact, union and difference cover what they approximate
	int w = 3; Poly a = simplePoly(ctx, 3, w); Poly b = simplePoly(ctx, ctx.thorough ? 4 : 3, w); if (ctx.flag()) for (auto& p : b) { p.x = 2 * p.x - 1; p.y = 2 * p.y - 1; } const T& t = TS[0]; Polygon2D A = mk(a, t), B = mk(b, t); std::string nm = str(a) + " and " + str(b); ctx.step(); double want = common(dp(a), dp(b)); auto sum = [](const std::vector<Polygon2D>& v) { double s = 0; for (auto& p : v) s += p.Area(); return s; }; if (convex(b)) ctx.check(std::fabs(sum(PolygonOps::PolygonIntersectionApprox(A, B)) - want) < 1e-9, "intersection", nm, ": area ", sum(PolygonOps::PolygonIntersectionApprox(A, B)), " expected ", want); auto I2 = PolygonOps::PolygonIntersectionApprox(B, A); ctx.check(std::fabs(sum(I2) - want) < 1e-9, "intersection", nm, " swapped"); Poly all = a; all.insert(all.end(), b.begin(), b.end()); Poly e = hull(all); auto U = PolygonOps::PolygonUnionApprox(A, B); ctx.check(U.size() == 1 && sameCyc(U[0], e, t, 1e-9), "union", nm, ": hull of the union"); auto D = PolygonOps::PolygonDifferenceApprox(A, B); if (convex(b)) { samples(ctx, "difference", a, b, D, t, nm, 2); samples(ctx, "difference", a, b, D, t, nm, 3); } ctx.check(D.size() <= 1 && sum(D) <= A.Area() + 1e-9, "difference", nm); if (want == 0 && convex(b)) ctx.check(D.size() == 1 && std::fabs(sum(D) - A.Area()) < 1e-9, "difference", nm, ": disjoint");
	mc::Hash h; for (auto& p : all) h.u(p.x + 9 * p.y + 40); ctx.state(h); ctx.outcome(mc::Hash().u((ll)std::lround(want * 1e6))); ctx.nontrivial(); }
MC_SCENARIO(boolean_concave, 3) { // concave second operand: the documented approximation still covers the true result
	Poly b = ctx.choose(2) ? Poly{{0, 0}, {2, 0}, {2, 2}, {1, 1}} : Poly{{0, 0}, {3, 0}, {3, 1}, {1, 1}, {1, 3}, {0, 3}}; if (ctx.flag()) std::reverse(b.begin(), b.end()); Poly a = simplePoly(ctx, ctx.range(3, 4), 3); const T& t = TS[0]; std::string nm = str(a) + " and " + str(b); ctx.step(); auto I = PolygonOps::PolygonIntersectionApprox(mk(a, t), mk(b, t)); double want = common(dp(a), dp(b)), s = 0; for (auto& p : I) s += p.Area(); ctx.check(s >= want - 1e-9 && I.size() <= 1, "intersection-cover", nm, ": area ", s, " true area ", want); auto U = PolygonOps::PolygonUnionApprox(mk(a, t), mk(b, t)); Poly all = a; all.insert(all.end(), b.begin(), b.end()); ctx.check(U.size() == 1 && sameCyc(U[0], hull(all), t, 1e-9), "union", nm); mc::Hash h; for (auto& p : all) h.u(p.x + 9 * p.y + 40); ctx.state(h); ctx.outcome(mc::Hash().u((ll)std::lround(want * 1e6))); ctx.nontrivial(); }
// --- closest pair
static void closest(mc::Ctx& ctx, const Poly& v, const T& t, const std::string& w) { int n = v.size(); ll best = -1; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (best < 0 || dq(v[i], v[j]) < best) best = dq(v[i], v[j]); auto r = Circles::ClosestPair(mk(v, t).Vertices()); if (n < 2) { ctx.check(r.distance == std::numeric_limits<Real>::max(), "closest-none", w); return; } double d = t.s * std::sqrt((double)best); bool found = false; for (int i = 0; i < n && !found; i++) for (int j = 0; j < n && !found; j++) found = i != j && dq(v[i], v[j]) == best && at(r.p1, t.p(v[i]), 1e-9 * t.s) && at(r.p2, t.p(v[j]), 1e-9 * t.s); ctx.check(std::fabs(r.distance - d) <= 1e-9 * t.s && found, "closest", w, ": distance ", r.distance, " expected ", d); }
MC_SCENARIO(closest_pair, 3) { int n = ctx.range(0, ctx.thorough ? 8 : 6); int w = n >= 7 ? 3 : n >= 6 ? 3 : 4; Poly v = multiset(ctx, n, w, 3); ctx.step(); int k = ctx.choose(3); if (k == 1) for (auto& p : v) p.x *= 5; if (k == 2) for (auto& p : v) { p.y *= 7; p.x += p.y % 2; } for (const T& t : TS) closest(ctx, v, t, str(v)); mc::Hash h; for (auto& p : v) h.u(p.x + 90 * p.y); ctx.state(h.u(n)); ctx.outcome(mc::Hash().u(n).u(k)); ctx.nontrivial(); }
MC_SCENARIO(closest_structured, 2) { // one close pair placed anywhere among spread points, around every split
	int n = ctx.pick({8, 13, 24, 40}), kind = ctx.choose(4), at1 = ctx.choose(n), dx = ctx.range(-2, 2), dy = ctx.range(-2, 2); if (!dx && !dy && ctx.flag()) ctx.prune(); Poly v; for (int i = 0; i < n; i++) switch (kind) { case 0: v.push_back({i * 10, (i * 37) % 50}); break; case 1: v.push_back({0, i * 10}); break; case 2: v.push_back({(i % 5) * 10, (i / 5) * 10}); break; default: v.push_back({(i % 2) * 9, i * 10}); } v.push_back({v[at1].x + dx, v[at1].y + dy}); ctx.step(); closest(ctx, v, TS[0], "kind " + std::to_string(kind) + " n " + std::to_string(n) + " at " + std::to_string(at1)); std::reverse(v.begin(), v.end()); closest(ctx, v, TS[2], "reversed"); ctx.state(mc::Hash().u(n).u(kind).u(at1).u(dx + 9).u(dy + 9)); ctx.outcome(mc::Hash().u(n).u(kind)); ctx.nontrivial(); }
// --- minimum enclosing circle: radius from all pairs and triples
static double mec(const Poly& v) { auto covers = [&](double x, double y, double r2) { for (auto& p : v) if ((p.x - x) * (p.x - x) + (p.y - y) * (p.y - y) > r2 * (1 + 1e-12) + 1e-12) return false; return true; }; double best = 1e300; int n = v.size(); if (!n) return 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double x = (v[i].x + v[j].x) / 2.0, y = (v[i].y + v[j].y) / 2.0, r2 = dq(v[i], v[j]) / 4.0; if (r2 < best && covers(x, y, r2)) best = r2; for (int k = j + 1; k < n; k++) { ll D = 2 * cr(v[i], v[j], v[k]); if (!D) continue; ll ax = v[j].x - v[i].x, ay = v[j].y - v[i].y, bx = v[k].x - v[i].x, by = v[k].y - v[i].y; double ux = (double)(by * (ax * ax + ay * ay) - ay * (bx * bx + by * by)) / D, uy = (double)(ax * (bx * bx + by * by) - bx * (ax * ax + ay * ay)) / D; r2 = ux * ux + uy * uy; if (r2 < best && covers(v[i].x + ux, v[i].y + uy, r2)) best = r2; } } return std::sqrt(best); }
static void enclose(mc::Ctx& ctx, const Poly& v, const T& t, const std::string& w) { double r = t.s * mec(v), tol = 1e-8 * t.s * (1 + mec(v)); auto c = Circles::MinimumEnclosingCircle(mk(v, t).Vertices()); for (auto& p : v) ctx.check(c.Center().Dist(t.p(p)) <= c.Radius() + tol, "covers", w, " seed ", g_seed, ": a point is ", c.Center().Dist(t.p(p)) - c.Radius(), " outside"); ctx.check(std::fabs(c.Radius() - r) <= tol, "minimal", w, " seed ", g_seed, ": radius ", c.Radius(), " minimal ", r); }
MC_SCENARIO(enclosing_circle, 3) { int n = ctx.range(0, ctx.thorough ? 7 : 5); Poly v = multiset(ctx, n, n <= 4 ? 4 : 3, 1); g_seed = n > 1 ? ctx.choose(ctx.thorough ? 24 : 8) * 7919 : 0; ctx.step(); for (const T& t : TS) { enclose(ctx, v, t, str(v)); if (n > 2) { auto c = Circles::MinimumEnclosingCircle(mk(v, t)); ctx.check(std::fabs(c.Radius() - t.s * mec(v)) <= 1e-8 * t.s, "minimal", str(v), ": polygon form"); } } mc::Hash h; for (auto& p : v) h.u(p.x + 9 * p.y); ctx.state(h.u(n).u(g_seed)); ctx.outcome(mc::Hash().u(n).u((ll)std::lround(1e6 * mec(v)))); ctx.nontrivial(); }
MC_SCENARIO(enclosing_structured, 2) { int n = ctx.pick({6, 12, 20, 30}), kind = ctx.choose(6); g_seed = ctx.choose(ctx.thorough ? 200 : 40); Poly v; for (int i = 0; i < n; i++) switch (kind) { case 5: v.push_back({(ll)std::lround((2000 + i % 3) * std::cos(i)), (ll)std::lround((2000 + i % 3) * std::sin(i))}); break; case 0: v.push_back({i % 5, i / 5}); break; case 1: { static const IP q[12] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}}; v.push_back(q[i % 12]); break; } case 2: v.push_back({i, i}); break; case 3: v.push_back({(i * 37) % 101, (i * i * 53) % 97}); break; default: v.push_back({2, 2}); } ctx.step(); enclose(ctx, v, TS[ctx.choose(3)], "kind " + std::to_string(kind) + " n " + std::to_string(n)); ctx.state(mc::Hash().u(n).u(kind).u(g_seed)); ctx.outcome(mc::Hash().u(n).u(kind)); ctx.nontrivial(); }
// --- ray and triangle: exact test by integer volumes
struct V3 { ll x, y, z; }; static V3 sub(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } static ll dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
MC_SCENARIO(ray_triangle, 3) { auto g = [&](int w) { int k = ctx.choose(w * w * w); return V3{k % w, (k / w) % w, k / w / w}; }; V3 a = g(2), b = g(2), c = g(2); if (ctx.thorough) { int k = ctx.choose(3); a.x *= 1 + k; c.z *= 1 + k; } V3 o = g(3); o.x--; V3 N = cross(sub(b, a), sub(c, a)); ctx.step();
	for (int q = 0; q < 27; q++) { V3 d{q % 3 - 1, (q / 3) % 3 - 1, q / 9 - 1}; ll D = -dot(d, N); /* det */ for (double S : {1.0, 8.0}) for (int cull = 0; cull < 2; cull++) { auto P = [&](V3 p) { return Point3Cartesian(S * p.x + 1, S * p.y, S * p.z - 2); }; Vector3Cartesian dir(2.0 * d.x, 2.0 * d.y, 2.0 * d.z); auto r = Intersections::IntersectRayTriangle(P(o), dir, P(a), P(b), P(c), cull); bool hit = false; double t = 0, u = 0, v = 0; if (D != 0 && !(cull && D < 0)) { V3 w = sub(o, a); ll un = -dot(d, cross(w, sub(c, a))), vn = -dot(d, cross(sub(b, a), w)), tn = dot(w, N); // o + t d = a + u e1 + v e2
				ll un2 = un, vn2 = vn, tn2 = tn, D2 = D; if (D2 < 0) { un2 = -un2; vn2 = -vn2; tn2 = -tn2; D2 = -D2; } hit = un2 >= 0 && vn2 >= 0 && un2 + vn2 <= D2 && tn2 >= 0; t = (double)tn2 / D2 * S / 2; u = (double)un2 / D2; v = (double)vn2 / D2; }
			std::string w = "triangle/ray case"; auto say = [&] { return mc::Ctx::cat("(", a.x, a.y, a.z, ")(", b.x, b.y, b.z, ")(", c.x, c.y, c.z, ") from (", o.x, ",", o.y, ",", o.z, ") along (", d.x, ",", d.y, ",", d.z, ") cull ", cull, ": hit ", r.hit, " t ", r.t, " expected ", hit, " t ", t); }; if (r.hit != hit || r.Hit() != hit) ctx.check(false, "hit", say()); if (hit) { auto bc = r.GetBarycentricCoords(); bool ok = std::fabs(r.t - t) < 1e-9 && std::fabs(r.u - u) < 1e-9 && std::fabs(r.v - v) < 1e-9 && std::fabs(r.BarycentricW() - (1 - u - v)) < 1e-9 && std::get<0>(bc) == r.u && std::get<1>(bc) == r.v && std::fabs(std::get<2>(bc) - (1 - u - v)) < 1e-9; auto A = P(a), B = P(b), C = P(c); ok = ok && std::fabs((1 - u - v) * A.X() + u * B.X() + v * C.X() - r.point.X()) < 1e-9 && std::fabs((1 - u - v) * A.Y() + u * B.Y() + v * C.Y() - r.point.Y()) < 1e-9 && std::fabs((1 - u - v) * A.Z() + u * B.Z() + v * C.Z() - r.point.Z()) < 1e-9; if (!ok) ctx.check(false, "hit-place", say()); }
			auto r2 = Intersections::IntersectRayTriangle(P(o), dir, Triangle3D(P(a), P(b), P(c)), cull); ctx.check(r2.hit == r.hit && r2.t == r.t, "forms", w); if (q != 13 && S == 1) { Line3D L(P(o), dir); auto r3 = Intersections::IntersectRayTriangle(L, Triangle3D(P(a), P(b), P(c)), cull); auto r4 = Intersections::IntersectRayTriangle(L, P(a), P(b), P(c), cull); double ln = 2 * std::sqrt((double)dot(d, d)); double edge = std::min({u, v, 1 - u - v}); bool safe = !hit || (edge > 1e-9 && t > 1e-9); if (hit && safe) ctx.check(r3.hit && r4.hit && std::fabs(r3.t - t * ln) < 1e-9 && std::fabs(r4.t - t * ln) < 1e-9, "forms", say()); else if (D == 0) ctx.check(!r3.hit && !r4.hit, "forms", say()); } } }
	ctx.state(mc::Hash().u(a.x + 8 * a.y + 64 * a.z).u(b.x + 8 * b.y + 64 * b.z).u(c.x + 8 * c.y + 64 * c.z).u(o.x + 3 + 8 * o.y + 64 * o.z)); ctx.outcome(mc::Hash().u(N.x + 9).u(N.y + 9).u(N.z + 9)); ctx.nontrivial(); }
