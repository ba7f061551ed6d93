// C39: three-dimensional convex hulls against exact integer geometry
// mc-flags: -O1 -fsanitize=address
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/algorithms/CompGeometry/ConvexHull3D.h"
#include <map>
#include <set>
#include <algorithm>
#include <numeric>
using namespace MML; using namespace MML::CompGeometry;
typedef long long I; typedef std::array<I, 3> P; typedef std::vector<P> PS; typedef long double L;
static P sub(P a, P b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static P cr(P a, P b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static I dt(P a, P b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static bool z(P a) { return !a[0] && !a[1] && !a[2]; }
static P prim(P a) { I g = std::__gcd(std::__gcd(std::llabs(a[0]), std::llabs(a[1])), std::llabs(a[2])); for (auto& x : a) x /= g; return a; }
struct Hull { int dim = -1; PS ext; std::map<std::pair<P, I>, int> planes; L vol = 0, area = 0; P n{}; PS pts; };
// convex polygon of coplanar points (normal n): strictly convex corners in order
static PS polygon(PS q, P n) {
	int k = 0; for (int i = 1; i < 3; i++) if (std::llabs(n[i]) > std::llabs(n[k])) k = i; int a = (k + 1) % 3, b = (k + 2) % 3;
	std::sort(q.begin(), q.end(), [&](const P& x, const P& y) { return std::tie(x[a], x[b]) < std::tie(y[a], y[b]); }); q.erase(std::unique(q.begin(), q.end()), q.end());
	auto c = [&](P o, P x, P y) { return (x[a] - o[a]) * (y[b] - o[b]) - (x[b] - o[b]) * (y[a] - o[a]); };
	PS h; for (int pass = 0; pass < 2; pass++) { size_t s = h.size(); for (auto& p : q) { while (h.size() >= s + 2 && c(h[h.size() - 2], h.back(), p) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(q.begin(), q.end()); }
	return h;
}
static Hull oracle(PS pts) {
	Hull H; std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end()); H.pts = pts; int n = pts.size();
	if (!n) return H; if (n == 1) { H.dim = 0; H.ext = pts; return H; }
	P d = sub(pts[1], pts[0]); P nn{}; bool planar = true; int k = -1; for (int i = 2; i < n && k < 0; i++) if (!z(cr(d, sub(pts[i], pts[0])))) k = i;
	if (k < 0) { H.dim = 1; H.ext = {pts.front(), pts.back()}; return H; }
	nn = cr(d, sub(pts[k], pts[0])); for (auto& p : pts) if (dt(nn, sub(p, pts[0]))) planar = false;
	if (planar) { H.dim = 2; H.n = nn; H.ext = polygon(pts, nn); P s{}; for (size_t i = 1; i + 1 < H.ext.size(); i++) { P c = cr(sub(H.ext[i], H.ext[0]), sub(H.ext[i + 1], H.ext[0])); for (int j = 0; j < 3; j++) s[j] += c[j]; } H.area = sqrtl((L)dt(s, s)); return H; }
	H.dim = 3; std::set<P> ex; I v6 = 0;
	for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int l = j + 1; l < n; l++) {
		P m = cr(sub(pts[j], pts[i]), sub(pts[l], pts[i])); if (z(m)) continue; m = prim(m); int s = 0; bool ok = true;
		for (auto& p : pts) { I e = dt(m, sub(p, pts[i])); int t = (e > 0) - (e < 0); if (!t) continue; if (s && t != s) { ok = false; break; } s = t; } if (!ok) continue;
		if (s > 0) for (auto& x : m) x = -x; auto key = std::make_pair(m, dt(m, pts[i])); if (H.planes[key]++) continue;
		PS on; for (auto& p : pts) if (dt(m, p) == key.second) on.push_back(p); PS pg = polygon(on, m); for (auto& p : pg) ex.insert(p); P sv{};
		for (size_t t = 1; t + 1 < pg.size(); t++) { P c = cr(sub(pg[t], pg[0]), sub(pg[t + 1], pg[0])); for (int q = 0; q < 3; q++) sv[q] += c[q]; } 
		H.area += sqrtl((L)dt(sv, sv)) / 2; I h = dt(sv, pg[0]); v6 += dt(sv, m) > 0 ? h : -h; }
	H.vol = v6 / (L)6; H.ext.assign(ex.begin(), ex.end()); return H;
}
static bool inside(const Hull& H, P p) {                 // p in the same integer lattice
	if (H.dim <= 0) return H.dim == 0 && p == H.ext[0];
	if (H.dim == 1) { P d = sub(H.ext[1], H.ext[0]), e = sub(p, H.ext[0]); return z(cr(d, e)) && dt(d, e) >= 0 && dt(d, e) <= dt(d, d); }
	if (H.dim == 2) { if (dt(H.n, sub(p, H.ext[0]))) return false; int s = 0; for (size_t i = 0; i < H.ext.size(); i++) { I e = dt(H.n, cr(sub(H.ext[(i + 1) % H.ext.size()], H.ext[i]), sub(p, H.ext[i]))); if (!e) continue; int t = e > 0 ? 1 : -1; if (s && t != s) return false; s = t; } return true; }
	for (auto& k : H.planes) if (dt(k.first.first, p) > k.first.second) return false; return true;
}
// similarity transforms: scale, offset, rotation by a rational angle (only approximate in doubles)
struct T { double s; double o[3]; int rot; };
static Point3Cartesian tr(P p, const T& t) { double x = p[0], y = p[1], zz = p[2]; if (t.rot) { double a = .6 * x - .8 * y, b = .8 * x + .6 * y; x = a; y = b; a = 5. / 13 * y - 12. / 13 * zz; b = 12. / 13 * y + 5. / 13 * zz; y = a; zz = b; } return {x * t.s + t.o[0], y * t.s + t.o[1], zz * t.s + t.o[2]}; }
static const T ID{1, {0, 0, 0}, 0};
static void verify(mc::Ctx& ctx, const PS& in, const Hull& H, const T& t = ID, int grid = 3) {
	std::vector<Point3Cartesian> pts; for (auto& p : in) pts.push_back(tr(p, t)); if (ctx.verbose) for (auto& p : in) ctx.note(p[0], ",", p[1], ",", p[2]);
	ConvexHull3D h = ConvexHull3DComputer::Compute(pts); ctx.step(); std::string nm = ctx.cat(in.size(), " points, dimension ", H.dim, " scale ", t.s, " rotated ", t.rot, ": ");
	auto same = [&](const Point3Cartesian& a, const Point3Cartesian& b) { return a.X() == b.X() && a.Y() == b.Y() && a.Z() == b.Z(); };
	std::vector<P> V; for (auto& v : h.vertices) { int k = -1; for (size_t i = 0; i < pts.size(); i++) if (same(v, pts[i])) k = i; ctx.check(k >= 0, "foreign-vertex", nm, "a hull vertex is none of the points"); V.push_back(in[k]); }
	std::set<P> vs(V.begin(), V.end()), es(H.ext.begin(), H.ext.end());
	ctx.check(vs.size() == V.size(), "repeated-vertex", nm, V.size(), " vertices, ", vs.size(), " distinct"); for (auto& e : es) ctx.check(vs.count(e), "missing-vertex", nm, "corner (", e[0], ",", e[1], ",", e[2], ") is no vertex");
	for (auto& e : vs) ctx.check(es.count(e), "extra-vertex", nm, "(", e[0], ",", e[1], ",", e[2], ") is a vertex but no corner"); ctx.check(h.NumVertices() == (int)V.size() && h.NumFaces() == (int)h.faces.size(), "counts", nm);
	if (H.dim < 2) ctx.check(h.NumFaces() == 0, "faces", nm, h.NumFaces(), " faces");
	std::map<std::pair<int, int>, int> ed; std::vector<char> used(V.size(), 0);
	for (size_t f = 0; f < h.faces.size(); f++) { auto& F = h.faces[f]; for (int j = 0; j < 3; j++) { ctx.check(F[j] >= 0 && F[j] < h.NumVertices(), "face-index", nm, "vertex index ", F[j]); used[F[j]] = 1; }
		P m = cr(sub(V[F[1]], V[F[0]]), sub(V[F[2]], V[F[0]])); ctx.check(!z(m), "degenerate-face", nm, "face ", f, " has no area");
		if (H.dim == 3) { m = prim(m); ctx.check(H.planes.count({m, dt(m, V[F[0]])}), "not-supporting", nm, "face ", f, " is no outward face of the hull"); }
		for (int j = 0; j < 3; j++) { auto e = std::make_pair(F[j], F[(j + 1) % 3]); if (H.dim == 3) ctx.check(!ed.count(e), "edge-twice", nm, "edge ", e.first, "-", e.second, " in the same direction in two faces"); ed[e] = f; } }
	for (auto& e : ed) ctx.check(ed.count({e.first.second, e.first.first}), "open", nm, "edge ", e.first.first, "-", e.first.second, " has no opposite");
	if (H.dim >= 2) { for (size_t v = 0; v < V.size(); v++) ctx.check(used[v], "unused-vertex", nm, "vertex ", v, " is in no face"); ctx.check(H.dim == 2 ? h.NumFaces() == 2 * (h.NumVertices() - 2) : h.NumFaces() == 2 * h.NumVertices() - 4, "euler", nm, h.NumFaces(), " faces on ", h.NumVertices(), " vertices"); }
	ctx.check(h.neighbors.size() == h.faces.size(), "neighbors", nm, h.neighbors.size(), " entries for ", h.faces.size(), " faces");
	for (size_t f = 0; f < h.faces.size(); f++) for (int j = 0; j < 3; j++) { int g = h.neighbors[f][j]; ctx.check(g >= 0 && g < h.NumFaces() && g != (int)f, "neighbor", nm, "face ", f, " edge ", j, ": ", g); int a = h.faces[f][j], b = h.faces[f][(j + 1) % 3]; bool ok = false; for (int q = 0; q < 3; q++) ok |= h.faces[g][q] == b && h.faces[g][(q + 1) % 3] == a && h.neighbors[g][q] == (int)f; ctx.check(ok, "neighbor-edge", nm, "face ", g, " does not share edge ", j, " of face ", f); }
	double off = std::fabs(t.o[0]) + std::fabs(t.o[1]) + std::fabs(t.o[2]), rel = 1e-12 + 1e-13 * off / t.s; L vol = H.vol * t.s * t.s * t.s, ar = H.area * t.s * t.s, vsc = 64 * t.s * t.s * t.s, asc = 64 * t.s * t.s, vtol = off > 0 ? 1e-12 * off * off * off / vsc + rel : 1e-13;
	ctx.check(fabsl(h.Volume() - vol) <= vtol * vsc, "volume", nm, h.Volume(), " expected ", (double)vol); ctx.check(fabsl(h.SurfaceArea() - ar) <= rel * asc, "area", nm, h.SurfaceArea(), " expected ", (double)ar);
	if (!V.empty()) { Point3Cartesian c = h.Centroid(); L s[3] = {0, 0, 0}; for (auto& v : h.vertices) { s[0] += v.X(); s[1] += v.Y(); s[2] += v.Z(); } int n = V.size(); double ct = 1e-14 * (off + 64 * t.s); ctx.check(std::fabs(c.X() - s[0] / n) <= ct && std::fabs(c.Y() - s[1] / n) <= ct && std::fabs(c.Z() - s[2] / n) <= ct, "centroid", nm); }
	if (grid) { double tol = 1e-10 * t.s; if (off > 0 || t.rot) tol = 1e-9 * t.s + 1e-14 * off;
		for (I x = -1; x <= grid; x++) for (I y = -1; y <= grid; y++) for (I w = -1; w <= grid; w++) { bool e = inside(H, {x, y, w}), g = h.Contains(tr({x, y, w}, t), tol); ctx.check(e == g, "contains", nm, "(", x, ",", y, ",", w, "): ", g); } }
	ctx.outcome(mc::Hash().u(h.NumVertices()).u(h.NumFaces())); if (H.dim >= 2) ctx.nontrivial();
}
static P cell(int k, int m) { return {k % m, k / m % m, k / m / m}; }
// every set of up to 5 (6) points of the 3x3x3 grid, in two orders
MC_SCENARIO(grid_sets, 2) {
	int k = 1 + ctx.choose(ctx.thorough ? 6 : 5); PS p; int last = -1; for (int i = 0; i < k; i++) { int r = 27 - (k - i) - last; last += 1 + ctx.choose(r); p.push_back(cell(last, 3)); }
	Hull H = oracle(p); mc::Hash s; for (auto& q : p) s.u(q[0] + 3 * q[1] + 9 * q[2]); ctx.state(s); verify(ctx, p, H, ID, 2); std::reverse(p.begin(), p.end()); verify(ctx, p, H, ID, 0);
}
// every order of every set of up to 6 (7) cube corners, and with one point repeated
MC_SCENARIO(cube_orders, 3) {
	int mask = 1 + ctx.choose(255), n = __builtin_popcount(mask); if (n > (ctx.thorough ? 7 : 5) || (n == 5 && !ctx.thorough && mask % 3)) ctx.prune(); PS a, p; for (int i = 0; i < 8; i++) if (mask >> i & 1) a.push_back(cell(i, 2)); Hull H = oracle(a); int rep = ctx.choose(2);
	while (!a.empty()) { int i = ctx.choose((int)a.size()); p.push_back(a[i]); a.erase(a.begin() + i); } if (rep) { p.push_back(p[0]); p.insert(p.begin() + p.size() / 2, p[p.size() / 2]); } verify(ctx, p, H, ID, rep ? 0 : 2);
}
// full boxes, shells and punctured boxes of grid points, in strided orders
MC_SCENARIO(boxes, 2) {
	int a = 1 + ctx.choose(4), b = 1 + ctx.choose(4), c = 1 + ctx.choose(4); PS q; int kind = ctx.choose(6); for (int x = 0; x < a; x++) for (int y = 0; y < b; y++) for (int w = 0; w < c; w++) { bool in = kind == 0 || (kind == 1 ? (x + y + w) % 2 == 0 : kind == 2 ? (x > 0) + (y > 0) + (w > 0) < 3 : kind == 3 ? x + y + w < 4 : kind == 4 ? (x - y) * (x - y) + w < 4 : (x * y + w) % 3 != 1); if (in) q.push_back({x, y, w}); }
	int n = q.size(); if (!n) ctx.prune(); int st = 1 + ctx.choose(7); while (std::__gcd(st, n) > 1) st++; int s0 = ctx.choose(2) * (n / 2); PS p; for (int i = 0; i < n; i++) p.push_back(q[(s0 + (I)i * st) % n]); verify(ctx, p, oracle(p), ID, 4);
}
// lattice points of spheres and shells in strided orders
MC_SCENARIO(spheres, 2) {
	int N = ctx.pick({1, 2, 3, 5, 6, 9}), M = ctx.choose(3); PS q; for (I x = -3; x <= 3; x++) for (I y = -3; y <= 3; y++) for (I w = -3; w <= 3; w++) { I r = x * x + y * y + w * w; if (M == 0 ? r == N : M == 1 ? r == N || r <= 1 : r == N && w >= 0) q.push_back({x, y, w}); }
	int n = q.size(); int st = 1 + ctx.choose(9); while (std::__gcd(st, n) > 1) st++; PS p; int s0 = ctx.choose(3) * n / 3; for (int i = 0; i < n; i++) p.push_back(q[(s0 + (I)i * st) % n]); verify(ctx, p, oracle(p), ID, 3);
}
// scale, offset and rotation do not change the hull
MC_SCENARIO(similar, 2) {
	static const T ts[] = {{1e-6, {0, 0, 0}, 0}, {1e6, {0, 0, 0}, 0}, {1, {1000, -2000, 500}, 0}, {0x1p-24, {0, 0, 0}, 0}, {0x1p-12, {1, 1, 1}, 0}, {1, {0, 0, 0}, 1}, {1e-5, {0, 0, 0}, 1}, {1e5, {0, 0, 0}, 1}};
	const T& t = ts[ctx.choose(8)]; int k = ctx.choose(3); PS p;
	if (k == 0) { int mask = 1 + ctx.choose(255); for (int i = 0; i < 8; i++) if (mask >> i & 1) p.push_back(cell(i, 2)); if (ctx.flag()) for (int i = 0; i < 27; i += 2) p.push_back(cell(i, 3)); }
	else if (k == 1) { int j = 2 + ctx.choose(2), last = -1; for (int i = 0; i < j; i++) { int r = 27 - (j - i) - last; last += 1 + ctx.choose(r); p.push_back(cell(last, 3)); } p.push_back({1, 1, 1}); p.push_back({2, 0, 1}); }
	else { int a = 1 + ctx.choose(4), b = 1 + ctx.choose(4), c = 1 + ctx.choose(4); for (int x = 0; x < a; x++) for (int y = 0; y < b; y++) for (int w = 0; w < c; w++) p.push_back({x, y, w}); if (ctx.flag()) std::reverse(p.begin(), p.end()); }
	verify(ctx, p, oracle(p), t, 3);
}
MC_SCENARIO(accessors, 1) {
	ConvexHull3D e = ConvexHull3DComputer::Compute({}); ctx.check(e.NumVertices() == 0 && e.NumFaces() == 0 && e.Volume() == 0 && e.SurfaceArea() == 0 && !e.Contains(Point3Cartesian(0, 0, 0)), "empty"); ctx.step();
	PS p; for (int i = 0; i < 8; i++) p.push_back(cell(i, 2)); std::vector<Point3Cartesian> q; for (auto& x : p) q.push_back(tr(x, ID)); auto h = ConvexHull3DComputer::Compute(q); for (int f = 0; f < h.NumFaces(); f++) { Triangle3D t = h.GetFace(f); for (int j = 0; j < 3; j++) { auto& a = h.vertices[h.faces[f][j]]; Point3Cartesian b = j == 0 ? t.Pnt1() : j == 1 ? t.Pnt2() : t.Pnt3(); ctx.check(a.X() == b.X() && a.Y() == b.Y() && a.Z() == b.Z(), "get-face"); } }
	double s = ctx.pick({1e-3, 1.0, 1e3}); for (auto& x : q) x = Point3Cartesian(x.X() * s, x.Y() * s, x.Z() * s); h = ConvexHull3DComputer::Compute(q); for (double d : {1e-6, -1e-6, 3e-6}) ctx.check(h.Contains(Point3Cartesian(s / 2, s / 2, s + d), 2e-6) == (d < 2e-6), "contains-tolerance", "side ", s, " distance ", d); ctx.nontrivial();
}
