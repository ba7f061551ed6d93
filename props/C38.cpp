// C38: ear clipping, Delaunay triangulation and Voronoi diagrams against exact integer geometry
// mc-flags: -O1 -fsanitize=address
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/algorithms/CompGeometry/Triangulation.h"
#include "mml/algorithms/CompGeometry/VoronoiDiagram.h"
#include <map>
#include <set>
#include <algorithm>
using namespace MML; using namespace MML::CompGeometry;
typedef long long I; typedef __int128 B; typedef long double L; typedef Point2Cartesian D2;
struct P { I x, y; bool operator<(const P& o) const { return x < o.x || (x == o.x && y < o.y); } bool operator==(const P& o) const { return x == o.x && y == o.y; } };
typedef std::vector<P> PS; typedef std::array<int, 3> T3;
static I cr(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sg(B v) { return (v > 0) - (v < 0); }
static bool on(P a, P b, P p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool meet(P a, P b, P c, P d) { int s = sg(cr(a, b, c)) * sg(cr(a, b, d)), t = sg(cr(c, d, a)) * sg(cr(c, d, b)); return (s < 0 && t < 0) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b); }
static int incirc(P a, P b, P c, P p) { B ax = a.x - p.x, ay = a.y - p.y, bx = b.x - p.x, by = b.y - p.y, cx = c.x - p.x, cy = c.y - p.y, ap = ax * ax + ay * ay, bp = bx * bx + by * by, cp = cx * cx + cy * cy; return sg(ax * (by * cp - bp * cy) - ay * (bx * cp - bp * cx) + ap * (bx * cy - by * cx)); }
static PS hull(PS q) { std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); if (q.size() < 3) return q; PS h; for (int k = 0; k < 2; k++) { size_t s = h.size(); for (auto& p : q) { while (h.size() >= s + 2 && cr(h[h.size() - 2], h.back(), p) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(q.begin(), q.end()); } return h; }
static I area2(const PS& p) { I s = 0; for (size_t i = 0; i < p.size(); i++) s += p[i].x * p[(i + 1) % p.size()].y - p[i].y * p[(i + 1) % p.size()].x; return s; }
struct T { double s, ox, oy; int rot; }; static const T ID{1, 0, 0, 0};
static const T TS[] = {{1e-6, 0, 0, 0}, {1e6, 0, 0, 0}, {1, 3000, -1000, 0}, {0x1p-30, 0, 0, 0}, {1, 0, 0, 1}, {1e-4, 1, 2, 1}, {7e3, 0, 0, 1}};
static D2 tr(L x, L y, const T& t) { if (t.rot) { L a = .6L * x - .8L * y; y = .8L * x + .6L * y; x = a; } return D2(double(x * t.s) + t.ox, double(y * t.s) + t.oy); }
static D2 tr(P p, const T& t) { return tr(p.x, p.y, t); }
static bool eq(const D2& a, const D2& b) { return a.X() == b.X() && a.Y() == b.Y(); }
// the offset rounds the rotated points away from their common lines
static bool rounded(const PS& p, const T& t) { if (!t.rot || t.ox == 0) return false; for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < i; j++) for (size_t k = 0; k < j; k++) if (cr(p[i], p[j], p[k]) == 0) return true; return false; }
static std::string show(const PS& p) { std::string s; for (auto& q : p) s += mc::Ctx::cat(q.x, ",", q.y, " "); return s; }

// ---------- ear clipping
static void ear(mc::Ctx& ctx, const PS& p, const T& t) {
	std::vector<D2> v; for (auto& q : p) v.push_back(tr(q, t)); auto tri = Triangulation::EarClipTriangulation(Polygon2D(v)); ctx.step(); std::string nm = ctx.cat("polygon ", show(p), "scale ", t.s, ": "); int n = p.size();
	ctx.check((int)tri.size() == n - 2, "ear-count", nm, tri.size(), " triangles"); I A = area2(p), S = 0; std::map<std::pair<int, int>, int> ed;
	for (auto& x : tri) { int k[3]; for (int j = 0; j < 3; j++) { const D2& q = j == 0 ? x.Pnt1() : j == 1 ? x.Pnt2() : x.Pnt3(); k[j] = -1; for (int i = 0; i < n; i++) if (eq(v[i], q)) k[j] = i; ctx.check(k[j] >= 0, "ear-vertex", nm); }
		I a = cr(p[k[0]], p[k[1]], p[k[2]]); if (n == 3 && a < 0) { std::swap(k[0], k[1]); a = -a; } ctx.check(a > 0, "ear-orientation", nm, "triangle ", show({p[k[0]], p[k[1]], p[k[2]]}), " has doubled area ", a); S += a; for (int j = 0; j < 3; j++) ctx.check(!ed[{k[j], k[(j + 1) % 3]}]++, "ear-overlap", nm); }
	ctx.check(S == std::llabs(A), "ear-area", nm, S, " expected ", A); int d = A > 0 ? 1 : -1;
	for (int i = 0; i < n; i++) { int a = i, b = (i + d + n) % n; ctx.check(ed.count({a, b}) && !ed.count({b, a}), "ear-boundary", nm, "side ", a, "-", b); } for (auto& e : ed) { int a = e.first.first, b = e.first.second; if ((a + d + n) % n != b) ctx.check(ed.count({b, a}), "ear-open", nm, a, "-", b); } ctx.nontrivial();
}
static PS polygon(mc::Ctx& ctx, int W, int Hh, int maxn) {
	PS p; int n = 3 + ctx.choose(maxn - 2); int used = 0; for (int i = 0; i < n; i++) { int c = ctx.choose(W * Hh); if (used >> c & 1) ctx.prune(); used |= 1 << c; P q{c % W, c / W};
		if (i >= 2) { if (cr(p[i - 2], p[i - 1], q) == 0 && (q.x - p[i - 1].x) * (p[i - 1].x - p[i - 2].x) + (q.y - p[i - 1].y) * (p[i - 1].y - p[i - 2].y) < 0) ctx.prune(); for (int j = 0; j + 2 < i; j++) if (meet(p[j], p[j + 1], p[i - 1], q)) ctx.prune(); if (i > 1 && on(p[i - 2], p[i - 1], q)) ctx.prune(); if (i > 1 && on(p[i - 1], q, p[i - 2])) ctx.prune(); } p.push_back(q); }
	for (int j = 1; j + 2 < n; j++) if (meet(p[j], p[j + 1], p[n - 1], p[0])) ctx.prune(); if (on(p[n - 1], p[0], p[1]) || on(p[n - 1], p[0], p[n - 2]) || on(p[n - 2], p[n - 1], p[0]) || on(p[0], p[1], p[n - 1])) ctx.prune(); if (area2(p) == 0) ctx.prune(); return p;
}
MC_SCENARIO(ear_clip, 3) { PS p = polygon(ctx, 3, 3, ctx.thorough ? 9 : 8); mc::Hash h; for (auto& q : p) h.u(q.x * 9 + q.y); ctx.state(h); ear(ctx, p, ID); }
MC_SCENARIO(ear_clip_wide, 3) { PS p = polygon(ctx, 4, ctx.thorough ? 3 : 2, 8); mc::Hash h; for (auto& q : p) h.u(q.x * 9 + q.y); ctx.state(h); ear(ctx, p, ID); }
MC_SCENARIO(ear_clip_similar, 3) { const T& t = TS[ctx.choose(7)]; PS p = polygon(ctx, 3, 3, 5); if (rounded(p, t)) ctx.prune(); ear(ctx, p, t); }
// combs, spirals and stars of any size
MC_SCENARIO(ear_clip_large, 2) {
	int k = ctx.choose(4), n = 2 + ctx.choose(ctx.thorough ? 16 : 8); PS p; if (k == 0) { for (int i = 0; i < n; i++) { p.push_back({4 * i, 0}); p.push_back({4 * i + 2, 9 + i % 3}); } p.push_back({4 * n, 0}); p.push_back({4 * n, -2}); p.push_back({0, -3}); }
	else if (k == 1) { PS a, b; I x = 0, y = 0, s = 3; static const I dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1}; for (int i = 0; i < n + 1; i++) { a.push_back({x * 10, y * 10}); P in{x * 10 - 3 * (dx[i % 4] - dx[(i + 3) % 4]) * 0, y * 10}; I ux = dx[(i + 1) % 4], uy = dy[(i + 1) % 4], vx = i ? dx[i % 4] : 0, vy = i ? dy[i % 4] : 0; (void)in; b.push_back({x * 10 + 3 * ux * 1 - (i ? 3 * dx[(i + 3) % 4] : 0), y * 10 + 3 * uy - (i ? 3 * dy[(i + 3) % 4] : 0)}); (void)vx; (void)vy; x += dx[i % 4] * (s + i); y += dy[i % 4] * (s + i); }
		p = a; for (int i = (int)b.size() - 1; i >= 0; i--) p.push_back(b[i]); }
	else if (k == 2) { for (int i = 0; i < 2 * n + 2; i++) { double r = i % 2 ? 300 : 1000, f = 2 * M_PI * i / (2 * n + 2); p.push_back({llround(r * cos(f)), llround(r * sin(f))}); } }
	else { for (int i = 0; i < n; i++) p.push_back({i, 0}); for (int i = 0; i < n; i++) p.push_back({n - 1, i + 1}); for (int i = 0; i < n - 1; i++) p.push_back({n - 2 - i, n}); for (int i = n - 1; i > 0; i--) p.push_back({0, i}); }
	int m = p.size(); for (int i = 0; i < m; i++) for (int j = i + 2; j < m; j++) if (!(i == 0 && j == m - 1) && meet(p[i], p[i + 1], p[j], p[(j + 1) % m])) ctx.prune();
	int r = ctx.choose(3) * m / 3; std::rotate(p.begin(), p.begin() + r, p.end()); if (ctx.flag()) std::reverse(p.begin(), p.end()); if (area2(p) == 0) ctx.prune(); ear(ctx, p, ID);
}

// ---------- Delaunay
static void delaunay(mc::Ctx& ctx, const PS& in, const T& t, const DelaunayTriangulation& dt, bool exact) {
	std::string nm = ctx.cat("points ", show(in), "scale ", t.s, " offset ", t.ox, " rot ", t.rot, ": "); int n = in.size(); ctx.check(dt.NumPoints() == n && dt.NumTriangles() == (int)dt.triangles.size(), "points", nm);
	for (int i = 0; i < n; i++) ctx.check(eq(dt.points[i], tr(in[i], t)), "points", nm, i); PS h = hull(in); bool flat = h.size() < 3 || area2(h) == 0; PS d = in; std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end());
	if (flat) { ctx.check(dt.NumTriangles() == 0, "flat", nm, dt.NumTriangles(), " triangles"); ctx.check(dt.neighbors.empty() && dt.GetConvexHullEdges().empty(), "flat-neighbors", nm); return; }
	std::map<std::pair<int, int>, int> ed; std::set<P> used; std::map<P, std::set<int>> idx; I S = 0;
	for (size_t f = 0; f < dt.triangles.size(); f++) { auto& k = dt.triangles[f]; for (int v : k) ctx.check(v >= 0 && v < n, "index", nm, v); I a = cr(in[k[0]], in[k[1]], in[k[2]]); ctx.check(a > 0, "orientation", nm, "triangle ", k[0], " ", k[1], " ", k[2], " has doubled area ", a); S += a;
		for (auto& p : d) ctx.check(incirc(in[k[0]], in[k[1]], in[k[2]], p) <= 0, "circumcircle", nm, p.x, ",", p.y, " in the circle of ", k[0], " ", k[1], " ", k[2]); for (int j = 0; j < 3; j++) { ctx.check(!ed.count({k[j], k[(j + 1) % 3]}), "overlap", nm, "edge ", k[j], "-", k[(j + 1) % 3]); ed[{k[j], k[(j + 1) % 3]}] = f; used.insert(in[k[j]]); idx[in[k[j]]].insert(k[j]); } }
	ctx.check(S == area2(h), "cover", nm, "doubled area ", S, " hull ", area2(h)); ctx.check(used.size() == d.size(), "unused", nm, used.size(), " of ", d.size(), " points used"); for (auto& i : idx) ctx.check(i.second.size() == 1, "duplicate", nm, "two copies of one point in use"); int hb = 0; for (auto& p : d) { for (size_t i = 0; i < h.size(); i++) if (on(h[i], h[(i + 1) % h.size()], p)) { hb++; break; } }
	ctx.check(dt.NumTriangles() == 2 * (int)d.size() - 2 - hb, "count", nm, dt.NumTriangles()); ctx.check(dt.neighbors.size() == dt.triangles.size(), "neighbors", nm); std::set<std::pair<int, int>> open;
	for (size_t f = 0; f < dt.triangles.size(); f++) for (int j = 0; j < 3; j++) { int a = dt.triangles[f][j], b = dt.triangles[f][(j + 1) % 3]; auto it = ed.find({b, a}); ctx.check(dt.neighbors[f][j] == (it == ed.end() ? -1 : it->second), "neighbor", nm, "triangle ", f, " edge ", j, ": ", dt.neighbors[f][j]); if (it == ed.end()) { open.insert({a, b}); int q = 0; for (size_t i = 0; i < h.size(); i++) q += on(h[i], h[(i + 1) % h.size()], in[a]) && on(h[i], h[(i + 1) % h.size()], in[b]); ctx.check(q, "hull-edge", nm, a, "-", b); } }
	auto he = dt.GetConvexHullEdges(); ctx.check(std::set<std::pair<int, int>>(he.begin(), he.end()) == open && he.size() == open.size() && (int)open.size() == hb, "hull-edges", nm, he.size(), " edges"); ctx.nontrivial();
	// location and interpolation on the half-integer lattice
	auto lin = [&](const D2& q) { return 2 + 3 * (q.X() - t.ox) / t.s - (q.Y() - t.oy) / t.s; }; std::vector<Real> val; L big = 1; for (auto& p : dt.points) { val.push_back(lin(p)); big = std::max<L>(big, fabsl(val.back())); } I mx = h[0].x, my = h[0].y, Mx = mx, My = my; for (auto& p : h) { mx = std::min(mx, p.x); Mx = std::max(Mx, p.x); my = std::min(my, p.y); My = std::max(My, p.y); } I sx = std::max<I>(1, (Mx - mx) / 4), sy = std::max<I>(1, (My - my) / 4);
	for (I x = 2 * mx - sx; x <= 2 * Mx + sx; x += sx) for (I y = 2 * my - sy; y <= 2 * My + sy; y += sy) { P q{x, y}; bool in2 = true, edge = false; for (size_t i = 0; i < h.size(); i++) { P a{2 * h[i].x, 2 * h[i].y}, b{2 * h[(i + 1) % h.size()].x, 2 * h[(i + 1) % h.size()].y}; I c = cr(a, b, q); if (c < 0) in2 = false; if (c == 0) edge = true; }
		D2 w = tr(x / 2.0L, y / 2.0L, t); int k = dt.LocatePoint(w); ctx.check(k >= -1 && k < dt.NumTriangles(), "locate-range", nm); if (edge && !exact) continue; ctx.check((k >= 0) == in2, "locate", nm, "(", x / 2.0, ",", y / 2.0, "): ", k); Real g = dt.Interpolate(w, val, -777.0);
		if (!in2) { ctx.check(g == -777.0, "interpolate-outside", nm); continue; } auto& v = dt.triangles[k]; for (int j = 0; j < 3; j++) { P a{2 * in[v[j]].x, 2 * in[v[j]].y}, b{2 * in[v[(j + 1) % 3]].x, 2 * in[v[(j + 1) % 3]].y}; I c = cr(a, b, q); ctx.check(c >= 0, "locate-wrong", nm, "(", x / 2.0, ",", y / 2.0, ") in triangle ", k); }
		ctx.check(std::fabs(g - lin(w)) <= 1e-10 * big * (exact ? 1 : 1 + 1e-4 * (std::fabs(t.ox) + std::fabs(t.oy)) / t.s), "interpolate", nm, "(", x / 2.0, ",", y / 2.0, "): ", g, " expected ", lin(w)); }
	val.push_back(0); ctx.check(dt.Interpolate(tr(h[0], t), val, 5.0) == 5.0, "interpolate-size", nm);
}
// ---------- Voronoi
typedef std::vector<std::pair<L, L>> Poly;
static Poly cut(const Poly& p, L a, L b, L c) { Poly r; size_t n = p.size(); for (size_t i = 0; i < n; i++) { auto u = p[i], v = p[(i + 1) % n]; L d1 = a * u.first + b * u.second - c, d2 = a * v.first + b * v.second - c; if (d1 >= 0) r.push_back(u); if ((d1 > 0 && d2 < 0) || (d1 < 0 && d2 > 0)) { L s = d1 / (d1 - d2); r.push_back({u.first + s * (v.first - u.first), u.second + s * (v.second - u.second)}); } } return r; }
static L ar(const Poly& p) { L s = 0; for (size_t i = 0; i < p.size(); i++) s += p[i].first * p[(i + 1) % p.size()].second - p[i].second * p[(i + 1) % p.size()].first; return s / 2; }
static L ar(const Polygon2D& q, L ox, L oy) { Poly p; for (int i = 0; i < q.NumVertices(); i++) p.push_back({q[i].X() - ox, q[i].Y() - oy}); return ar(p); }
static Poly cell(const std::vector<D2>& s, int i, Poly p, L ox, L oy) { for (size_t j = 0; j < s.size(); j++) { L ax = s[i].X() - ox, ay = s[i].Y() - oy, bx = s[j].X() - ox, by = s[j].Y() - oy; if (ax == bx && ay == by) continue; p = cut(p, ax - bx, ay - by, (ax * ax + ay * ay - bx * bx - by * by) / 2); } return p; }
static void voronoi(mc::Ctx& ctx, const PS& in, const T& t) {
	std::vector<D2> s; for (auto& p : in) s.push_back(tr(p, t)); auto vd = Voronoi::ComputeVoronoi(s); ctx.step(); std::string nm = ctx.cat("sites ", show(in), "scale ", t.s, " offset ", t.ox, " rot ", t.rot, ": "); int n = in.size(); ctx.check(vd.NumSites() == n && (int)vd.cells.size() == n && (int)vd.cellIsInfinite.size() == n, "sites", nm);
	PS d = in; std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); PS h = hull(in); bool flat = h.size() < 3 || area2(h) == 0; std::map<P, int> first; L ext = 0; for (auto& p : in) ext = std::max<L>(ext, std::max(std::abs(p.x - d[0].x), std::abs(p.y - d[0].y))); if (ext == 0) ext = 1; ext *= t.s;
	L eps = (1e-11L + 1e-14L * (fabsl(t.ox) + fabsl(t.oy)) / ext); auto dist = [&](L x, L y, int i) { return hypotl(x - s[i].X(), y - s[i].Y()); };
	auto nobodyCloser = [&](L x, L y, L r, L tol) { for (int i = 0; i < n; i++) if (dist(x, y, i) < r - tol) return false; return true; };
	for (int v = 0; v < vd.NumVertices(); v++) { L x = vd.vertices[v].X(), y = vd.vertices[v].Y(), r = 1e300L; for (int i = 0; i < n; i++) r = std::min(r, dist(x, y, i)); int c = 0; std::set<P> at; for (int i = 0; i < n; i++) if (dist(x, y, i) <= r + eps * (r + ext) * (1 + r / ext) * 10) at.insert(in[i]); ctx.check(at.size() >= 3, "vertex", nm, "vertex ", v, " (", (double)x, ",", (double)y, ") is nearest to ", at.size(), " sites only"); (void)c; }
	std::set<std::pair<P, P>> pairs;
	for (auto& e : vd.edges) { ctx.check(e.site1 >= 0 && e.site1 < n && e.site2 >= 0 && e.site2 < n && !(in[e.site1] == in[e.site2]), "edge-sites", nm, e.site1, " ", e.site2); P a = in[e.site1], b = in[e.site2]; if (b < a) std::swap(a, b); ctx.check(pairs.insert({a, b}).second, "edge-twice", nm, "sites ", e.site1, " ", e.site2); ctx.check(e.IsInfinite() == (e.v1 < 0 || e.v2 < 0) && e.v1 < vd.NumVertices() && e.v2 < vd.NumVertices(), "edge-vertices", nm);
		std::vector<std::pair<L, L>> at; L mx = ((L)s[e.site1].X() + s[e.site2].X()) / 2, my = ((L)s[e.site1].Y() + s[e.site2].Y()) / 2; for (int v : {e.v1, e.v2}) if (v >= 0) at.push_back({vd.vertices[v].X(), vd.vertices[v].Y()}); if (e.IsInfinite()) { L dx = e.direction.X(), dy = e.direction.Y(), dl = hypotl(dx, dy); ctx.check(dl > 0, "edge-direction", nm); dx *= 3 * ext / dl; dy *= 3 * ext / dl; if (at.empty()) { at.push_back({mx, my}); at.push_back({mx - dx, my - dy}); } else ctx.check(e.v2 < 0 && e.v1 >= 0, "edge-ray", nm); auto st = at[0]; for (int k : {1, 20}) at.push_back({st.first + k * dx, st.second + k * dy}); }
		if (at.size() == 2) at.push_back({(at[0].first + at[1].first) / 2, (at[0].second + at[1].second) / 2}); for (auto& q : at) { L r = dist(q.first, q.second, e.site1), tol = eps * (r + ext) * (1 + r / ext) * 10; ctx.check(fabsl(dist(q.first, q.second, e.site2) - r) <= tol, "edge-bisector", nm, "sites ", e.site1, " ", e.site2, " at (", (double)q.first, ",", (double)q.second, ")"); ctx.check(nobodyCloser(q.first, q.second, r, tol), "edge-empty", nm, "sites ", e.site1, " ", e.site2, ": a third site is nearer at (", (double)q.first, ",", (double)q.second, ")"); } }
	// cells
	L R = 4 * ext, ox = s[0].X(), oy = s[0].Y(); Poly big = {{-1e3L * R, -1e3L * R}, {1e3L * R, -1e3L * R}, {1e3L * R, 1e3L * R}, {-1e3L * R, 1e3L * R}}; double x0 = s[0].X() - 0.7 * ext, y0 = s[0].Y() - 1.1 * ext, x1 = s[0].X() + 1.3 * ext, y1 = s[0].Y() + 0.45 * ext; Poly rect = {{x0 - ox, y0 - oy}, {x1 - ox, y0 - oy}, {x1 - ox, y1 - oy}, {x0 - ox, y1 - oy}};
	L sum = 0; std::set<P> done; std::map<P, Poly> exact;
	for (int i = 0; i < n; i++) { bool onh = flat; for (size_t k = 0; k < h.size() && !flat; k++) if (on(h[k], h[(k + 1) % h.size()], in[i])) onh = true; bool dup = std::count(in.begin(), in.end(), in[i]) > 1; Poly c = cell(s, i, big, ox, oy);
		if (!dup) { ctx.check(vd.IsCellInfinite(i) == onh, "infinite", nm, "site ", i, ": ", vd.IsCellInfinite(i)); if (onh) ctx.check(vd.GetCell(i).NumVertices() == 0, "infinite-cell", nm); else { Polygon2D g = vd.GetCell(i); L a = ar(g, ox, oy); ctx.check(fabsl(a - ar(c)) <= eps * 1e3L * std::max(ar(c), ext * ext), "cell-area", nm, "site ", i, ": ", (double)a, " expected ", (double)ar(c)); }
			std::set<int> own; for (int v = 0; v < vd.NumVertices() && !flat; v++) { L x = vd.vertices[v].X(), y = vd.vertices[v].Y(), r = dist(x, y, i); bool near = nobodyCloser(x, y, r, eps * (r + ext) * (1 + r / ext) * 10); bool listed = std::count(vd.cells[i].begin(), vd.cells[i].end(), v); if (!near) ctx.check(!listed, "foreign-cell-vertex", nm, "site ", i, " vertex ", v); else if (!listed && r < 20 * ext) { bool same = false; for (int w : vd.cells[i]) same |= hypotl(vd.vertices[w].X() - x, vd.vertices[w].Y() - y) <= eps * (r + ext) * (1 + r / ext) * 10; ctx.check(same, "missing-cell-vertex", nm, "site ", i, " vertex ", v, " (", (double)x, ",", (double)y, ")"); } }
			ctx.check(std::set<int>(vd.cells[i].begin(), vd.cells[i].end()).size() == vd.cells[i].size(), "cell-repeats", nm, "site ", i); ctx.check(vd.GetCellVertexIndices(i) == vd.cells[i], "cell-indices", nm); if (!flat) { auto& c2 = vd.cells[i]; L turn = 0; int m = c2.size(); for (int k = 0; k + 1 < m; k++) { auto &a = vd.vertices[c2[k]], &b = vd.vertices[c2[k + 1]]; L z = ((L)a.X() - s[i].X()) * ((L)b.Y() - s[i].Y()) - ((L)a.Y() - s[i].Y()) * ((L)b.X() - s[i].X()); L sc = dist(a.X(), a.Y(), i) * dist(b.X(), b.Y(), i); if (fabsl(z) > 1e-6L * sc) { if (z < 0) ctx.check(false, "cell-order", nm, "site ", i); turn = z; } } } }
		Poly q = rect; { Poly c3 = cell(s, i, rect, ox, oy); L want = c3.size() < 3 ? 0 : ar(c3); Polygon2D g = vd.GetClippedCell(i, x0, y0, x1, y1); L a = fabsl(ar(g, ox, oy)); ctx.check(fabsl(a - want) <= eps * 100 * ext * ext, "clipped", nm, "site ", i, ": ", (double)a, " expected ", (double)want); if (done.insert(in[i]).second) sum += a; for (int k = 0; k < g.NumVertices(); k++) ctx.check(g[k].X() >= x0 - eps * ext && g[k].X() <= x1 + eps * ext && g[k].Y() >= y0 - eps * ext && g[k].Y() <= y1 + eps * ext, "clipped-outside", nm); } }
	ctx.check(fabsl(sum - ar(rect)) <= eps * 1000 * ext * ext, "clipped-cover", nm, (double)sum, " of ", (double)ar(rect));
	// two cells that share a boundary of positive length have an edge
	for (size_t i = 0; i < d.size(); i++) for (size_t j = i + 1; j < d.size(); j++) { int a = std::find(in.begin(), in.end(), d[i]) - in.begin(), b = std::find(in.begin(), in.end(), d[j]) - in.begin(); L mx = ((L)s[a].X() + s[b].X()) / 2, my = ((L)s[a].Y() + s[b].Y()) / 2, dx = -((L)s[b].Y() - s[a].Y()), dy = (L)s[b].X() - s[a].X(), lo = -1e12L, hi = 1e12L;
		for (int k = 0; k < n; k++) if (!(in[k] == d[i]) && !(in[k] == d[j])) { L qx = s[k].X() - mx, qy = s[k].Y() - my, c = (qx * qx + qy * qy - (dx * dx + dy * dy) / 4) / 2, g = qx * dx + qy * dy; if (fabsl(g) < 1e-12L * (dx * dx + dy * dy)) { if (c < 0) hi = lo; } else if (g > 0) hi = std::min(hi, c / g); else lo = std::max(lo, c / g); } if (hi - lo > 1e-6L) ctx.check(pairs.count({d[i], d[j]}), "missing-edge", nm, "between ", d[i].x, ",", d[i].y, " and ", d[j].x, ",", d[j].y); else if (hi - lo < -1e-6L) ctx.check(!pairs.count({d[i], d[j]}), "false-edge", nm, "between ", d[i].x, ",", d[i].y, " and ", d[j].x, ",", d[j].y); }
	for (int k = 0; k < 9; k++) { D2 q(ox + (k % 3 - 1) * 0.6 * (double)ext, oy + (k / 3 - 1) * 0.7 * (double)ext); int f = vd.FindNearestSite(q); ctx.check(f >= 0 && f < n && nobodyCloser(q.X(), q.Y(), dist(q.X(), q.Y(), f), 1e-13L * ext), "nearest", nm); }
	ctx.check(vd.IsCellInfinite(-1) && vd.IsCellInfinite(n) && vd.GetCell(n).NumVertices() == 0 && vd.GetCellVertexIndices(-1).empty() && vd.GetClippedCell(n, 0, 0, 1, 1).NumVertices() == 0, "range", nm); if (!flat) ctx.nontrivial();
}
static void both(mc::Ctx& ctx, const PS& in, const T& t, bool exact, int what = 3) { std::vector<D2> s; for (auto& p : in) s.push_back(tr(p, t)); if (what & 1) { auto dt = Triangulation::ComputeDelaunay(s); ctx.step(); delaunay(ctx, in, t, dt, exact); auto tl = Triangulation::DelaunayTriangulate(s); ctx.check((int)tl.size() == dt.NumTriangles(), "list", show(in)); for (size_t i = 0; i < tl.size(); i++) { auto q = dt.GetTrianglePoints(i); ctx.check(eq(tl[i].Pnt1(), q[0]) && eq(tl[i].Pnt2(), q[1]) && eq(tl[i].Pnt3(), q[2]), "list-triangle", show(in)); ctx.check(eq(q[0], s[dt.triangles[i][0]]) && eq(q[2], s[dt.triangles[i][2]]), "triangle-points", show(in)); } } if (what & 2) voronoi(ctx, in, t); mc::Hash h; for (auto& p : in) h.u(p.x).u(p.y); ctx.state(h); }
static PS subset(mc::Ctx& ctx, int W, int H, int k) { PS p; int last = -1; for (int i = 0; i < k; i++) { int r = W * H - (k - i) - last; last += 1 + ctx.choose(r); p.push_back({last % W, last / W}); } return p; }
// every set of points of the 4x4 grid up to five (7), two orders
MC_SCENARIO(grid_sets, 3) { int k = ctx.choose(ctx.thorough ? 8 : 6); PS p = subset(ctx, 4, 4, k); if (p.empty()) { auto dt = Triangulation::ComputeDelaunay({}); ctx.check(dt.NumTriangles() == 0 && dt.NumPoints() == 0, "empty"); auto v = Voronoi::ComputeVoronoi({}); ctx.check(v.NumSites() == 0 && v.NumEdges() == 0 && v.FindNearestSite(D2(0, 0)) == -1, "empty"); return; } both(ctx, p, ID, true); if (p.size() > 2) { std::swap(p[0], p[p.size() - 2]); std::reverse(p.begin() + 1, p.end()); both(ctx, p, ID, true, 1); } }
MC_SCENARIO(grid3, 3) { int m = ctx.choose(512); PS p; for (int i = 0; i < 9; i++) if (m >> i & 1) p.push_back({i % 3, i / 3}); if (p.size() < 4) ctx.prune(); int n = p.size(), st = 1 + ctx.choose(n - 1); while (std::__gcd(st, n) > 1) st++; PS q; for (int i = 0; i < n; i++) q.push_back(p[i * st % n]); both(ctx, q, ID, true); }
// thin and far-flung sets: anisotropic coordinates, every order
MC_SCENARIO(thin, 3) {
	static const PS A[] = {{{0, 0}, {100, 0}, {50, 1}, {50, -1}, {25, 1}}, {{0, 0}, {1000, 1}, {2000, 3}, {3000, 6}, {4000, 10}}, {{0, 0}, {1, 0}, {1000, 1}, {0, 1000}, {7, 3}}, {{0, 0}, {10000, 0}, {5000, 1}, {5001, 1}, {2500, 0}}, {{0, 0}, {0, 100}, {1, 50}, {3, 51}, {0, 50}}, {{-500, 0}, {500, 0}, {0, 1}, {0, 2}, {0, -1}}, {{0, 0}, {3, 4}, {300, 400}, {4, 3}, {150, 201}}, {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {1000, 999}}, {{5, 0}, {3, 4}, {0, 5}, {-3, 4}, {-5, 0}}};
	PS a = A[ctx.choose(9)], q; while (!a.empty()) { int i = ctx.choose((int)a.size()); q.push_back(a[i]); a.erase(a.begin() + i); } int cutoff = ctx.choose(2); if (cutoff) q.pop_back(); both(ctx, q, ID, true, 3);
}
// every sequence of points with repetitions, and collinear sequences
MC_SCENARIO(repeats, 3) { int k = 2 + ctx.choose(ctx.thorough ? 5 : 4); int kind = ctx.choose(3); PS p; for (int i = 0; i < k; i++) { int c = ctx.choose(kind == 0 ? 4 : 5); static const P A[] = {{0, 0}, {2, 0}, {0, 2}, {2, 2}, {1, 1}}, B[] = {{0, 0}, {1, 0}, {2, 0}, {5, 0}, {-3, 0}}, C[] = {{0, 0}, {1, 2}, {2, 4}, {-3, -6}, {1, 1}}; p.push_back(kind == 0 ? A[c] : kind == 1 ? B[c] : C[c]); } both(ctx, p, ID, true); }
MC_SCENARIO(similar, 3) { const T& t = TS[ctx.choose(7)]; int k = 3 + ctx.choose(2); PS p = subset(ctx, 3, 3, k); if (ctx.flag()) { p.push_back({4, 1}); p.push_back({1, 1}); } if (rounded(p, t)) ctx.prune(); both(ctx, p, t, false); }
// cocircular sets and larger grids
MC_SCENARIO(large, 2) { int k = ctx.choose(4); PS q; if (k == 0) for (I x = -8; x <= 8; x++) for (I y = -8; y <= 8; y++) { if (x * x + y * y == 65 || x * x + y * y == 25 || (x == 0 && y == 0)) q.push_back({x, y}); } else if (k == 1) for (int i = 0; i < 36; i++) q.push_back({i % 6, i / 6}); else if (k == 2) for (int i = 0; i < 40; i++) q.push_back({i * i % 41, i * 7 % 41}); else for (int i = 0; i < 30; i++) q.push_back({i * 3, i * i}); int n = q.size(), st = 1 + ctx.choose(ctx.thorough ? 20 : 8); while (std::__gcd(st, n) > 1) st++; int s0 = ctx.choose(3) * n / 3; PS p; for (int i = 0; i < n; i++) p.push_back(q[(s0 + i * st) % n]); both(ctx, p, ID, true); }
