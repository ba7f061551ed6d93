// k-d tree: every query answered exactly as an exhaustive search over the points
// mc-flags: -O2
#include "mc.h"
#include <set>
#include "mml/algorithms/CompGeometry/KDTree.h"
using namespace MML; typedef std::vector<double> P; typedef std::vector<P> Pts;
static double d2(const P& a, const P& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
template <int D> static VectorN<Real, D> vn(const P& p) { VectorN<Real, D> v; for (int i = 0; i < D; i++) v[i] = p[i]; return v; }
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)); }
static std::string str(const Pts& a) { std::string s; char z[32]; for (auto& p : a) { s += "("; for (double x : p) { snprintf(z, 32, "%g ", x); s += z; } s += ")"; } return s; }
struct A2 { typedef KDTree2D T; typedef Point2Cartesian Q; static Q q(const P& p) { return Q(p[0], p[1]); } static P back(const Q& q) { return {q.X(), q.Y()}; } };
struct A3 { typedef KDTree3D T; typedef Point3Cartesian Q; static Q q(const P& p) { return Q(p[0], p[1], p[2]); } static P back(const Q& q) { return {q.X(), q.Y(), q.Z()}; } };
template <int D> struct AN { typedef KDTree<D> T; typedef VectorN<Real, D> Q; static Q q(const P& p) { return vn<D>(p); } static P back(const Q& q) { P p; for (int i = 0; i < D; i++) p.push_back(q[i]); return p; } };
template <class A> static void build(typename A::T& t, const Pts& pts, int leaf) { std::vector<typename A::Q> v; for (auto& p : pts) v.push_back(A::q(p)); KDTreeConfig c; c.max_leaf_size = leaf; t.build(v, c); }
template <class A> static void query(mc::Ctx& ctx, const typename A::T& t, const Pts& pts, const P& q, const std::string& w) {
	int n = pts.size(); std::vector<std::pair<double, int>> all; for (int i = 0; i < n; i++) all.push_back({d2(pts[i], q), i}); std::sort(all.begin(), all.end());
	auto r = t.findNearest(A::q(q)); if (n == 0) ctx.check(!r.found && r.status == AlgorithmStatus::InvalidInput, "empty", "nearest in an empty tree"); else ctx.check(r.found && r.status == AlgorithmStatus::Success && r.index < (size_t)n && same(d2(pts[r.index], q), all[0].first) && same(r.distance, std::sqrt(all[0].first)), "nearest", w, ": nearest of ", str({q}), " is ", r.found ? str({pts[r.index < (size_t)n ? r.index : 0]}) : "none", " at ", r.distance, ", least distance ", std::sqrt(all[0].first));
	for (int k : {0, 1, 2, 3, n - 1, n, n + 2}) { if (k < 0) continue; auto s = t.findKNearest(A::q(q), k); size_t m = std::min(k, n); if (k == 0) { ctx.check(s.indices.empty() && s.status == AlgorithmStatus::InvalidInput, "knn", "k=0"); continue; } bool ok = s.indices.size() == m && s.distances.size() == m; std::set<size_t> u(s.indices.begin(), s.indices.end()); ok = ok && u.size() == m; for (size_t i = 0; ok && i < m; i++) ok = s.indices[i] < (size_t)n && same(d2(pts[s.indices[i]], q), all[i].first) && same(s.distances[i], std::sqrt(all[i].first)); ctx.check(ok, "knn", w, ": ", k, " nearest of ", str({q})); }
	std::set<double> radii = {0, 0.5, 1, 100}; for (size_t i = 0; i < all.size() && radii.size() < 9; i++) { double R = std::sqrt(all[i].first); radii.insert(R * R == all[i].first && R == std::floor(R) ? R : R * (1 + 1e-9)); } for (double R : radii) { auto s = t.findInRadius(A::q(q), R); std::set<size_t> got(s.indices.begin(), s.indices.end()), want; for (auto& a : all) if (a.first <= R * R) want.insert(a.second); bool ok = got == want && s.indices.size() == got.size() && s.distances.size() == got.size(); for (size_t i = 0; ok && i < s.indices.size(); i++) ok = same(s.distances[i], std::sqrt(d2(pts[s.indices[i]], q))); ctx.check(ok, "radius", w, ": within ", R, " of ", str({q}), " got ", got.size(), " expected ", want.size()); }
	if (n) ctx.check(t.findInRadius(A::q(q), -1).status == AlgorithmStatus::InvalidInput && t.findInRadius(A::q(q), -1).indices.empty(), "radius", "negative radius");
	for (double h : {0.0, 0.5, 1.0, 3.0}) for (int s = 0; s < 2; s++) { P lo = q, hi = q; for (size_t i = 0; i < q.size(); i++) { lo[i] -= (s && i == 0) ? -0.5 : h; hi[i] += (s && i == 1) ? 0 : h; } auto g = t.findInBox(A::q(lo), A::q(hi)); std::set<size_t> got(g.begin(), g.end()), want; for (int i = 0; i < n; i++) { bool in = true; for (size_t k = 0; k < q.size(); k++) in = in && pts[i][k] >= lo[k] && pts[i][k] <= hi[k]; if (in) want.insert(i); } ctx.check(got == want && g.size() == got.size(), "box", w, ": in box ", str({lo, hi}), " got ", got.size(), " expected ", want.size()); }
}
template <class A> static void stats(mc::Ctx& ctx, const typename A::T& t, const Pts& pts, int leaf, const std::string& w) { auto& s = t.stats(); size_t n = pts.size(); if (leaf < 1) leaf = 1; ctx.check(t.size() == n && t.empty() == (n == 0) && s.num_points == n, "stats", w, ": size ", t.size()); for (size_t i = 0; i < n; i++) ctx.check(A::back(t.point(i)) == pts[i], "stats", "point ", i); if (n) { size_t d = 0; while (((n + (1u << d) - 1) >> d) > (size_t)leaf) d++; ctx.check(s.num_nodes == 2 * s.num_leaf_nodes - 1 && s.num_leaf_nodes * leaf >= n && s.tree_depth == d, "stats", w, ": nodes ", s.num_nodes, " leaves ", s.num_leaf_nodes, " depth ", s.tree_depth, " expected ", d); } else ctx.check(s.num_nodes == 0 && s.tree_depth == 0, "stats", "empty"); }
template <class A> static void full(mc::Ctx& ctx, const Pts& pts, int leaf, const Pts& qs) { std::string w = "leaf " + std::to_string(leaf) + " points " + (pts.size() > 12 ? std::to_string(pts.size()) : str(pts)); typename A::T t; build<A>(t, pts, leaf); stats<A>(ctx, t, pts, leaf, w); for (auto& q : qs) query<A>(ctx, t, pts, q, w); mc::Hash h; h.u(leaf).u(pts.size()); for (auto& p : pts) for (double x : p) h.d(x); ctx.state(h); ctx.outcome(mc::Hash().u(t.stats().num_nodes).u(pts.size()).d(pts.empty() ? 0 : t.findNearest(A::q(qs[0])).distance)); ctx.nontrivial(); }
static Pts grid(int D, std::vector<double> v) { Pts r = {{}}; for (int k = 0; k < D; k++) { Pts n; for (auto& p : r) for (double x : v) { auto q = p; q.push_back(x); n.push_back(q); } r = n; } return r; }
MC_SCENARIO(plane_small, 3) { // every point multiset (in order of a nondecreasing grid index) with every leaf size
	int n = ctx.range(0, ctx.thorough ? 6 : 5); Pts g = grid(2, {0, 1, 2}); if (n == 5 && !ctx.thorough) g = grid(2, {0, 1}); Pts pts; int last = 0; for (int i = 0; i < n; i++) { last += ctx.choose((int)g.size() - last); pts.push_back(g[last]); } int leaf = ctx.range(0, 3); int ord = n > 1 ? ctx.choose(3) : 0; if (ord == 1) std::reverse(pts.begin(), pts.end()); if (ord == 2) for (int i = 0; i + 2 < n; i++) std::swap(pts[i], pts[i + 2]); full<A2>(ctx, pts, leaf, grid(2, {-0.5, 1, 1.5})); }
MC_SCENARIO(plane_ordered, 3) { // every sequence of points
	int n = 4; Pts g = grid(2, {0, 1}); if (ctx.thorough) g = grid(2, {0, 1, 2}); Pts pts; for (int i = 0; i < n; i++) pts.push_back(g[ctx.choose((int)g.size())]); full<A2>(ctx, pts, ctx.range(-1, 2), grid(2, {0, 0.5, 1})); }
MC_SCENARIO(space_small, 3) { int n = ctx.range(1, ctx.thorough ? 5 : 4); Pts g = grid(3, {0, 1}); Pts pts; int last = 0; for (int i = 0; i < n; i++) { last += ctx.choose((int)g.size() - last); pts.push_back(g[last]); } int leaf = ctx.range(1, 2); if (ctx.flag()) std::reverse(pts.begin(), pts.end()); full<A3>(ctx, pts, leaf, grid(3, {0, 0.5})); }
MC_SCENARIO(other_dimensions, 3) { int D = ctx.pick({1, 4}); int n = ctx.range(1, 5); Pts pts; for (int i = 0; i < n; i++) { P p; int k = ctx.choose(D == 1 ? 4 : 5); for (int j = 0; j < D; j++) p.push_back(D == 1 ? k : (k >> (j % 2)) % 2 + (k == 4) * j); pts.push_back(p); } int leaf = ctx.range(1, 2); if (D == 1) full<AN<1>>(ctx, pts, leaf, grid(1, {-1, 0.5, 1, 2.5})); else full<AN<4>>(ctx, pts, leaf, {{0, 0, 0, 0}, {1, 0.5, 1, 0}, {0, 1, 2, 3}}); }
MC_SCENARIO(structured, 2) { // larger sets with ties: lattices, lines, coincident points, spirals
	int kind = ctx.choose(6), n = ctx.pick({7, 16, 33, ctx.thorough ? 200 : 64}), leaf = ctx.pick({1, 2, 4, 10, 32}); double off = ctx.pick({0.0, 1e6, -1e-3}); Pts pts; for (int i = 0; i < n; i++) { double x, y; switch (kind) { case 0: x = i % 6; y = i / 6; break; case 1: x = 1; y = (i * 5) % 11; break; case 2: x = y = 0.5; break; case 3: x = i; y = i; break; case 4: x = std::floor(8 * std::cos(i)); y = std::floor(8 * std::sin(i * 2)); break; default: x = (i * i) % 7; y = (i * 3) % 5; } pts.push_back({x + off, y - off}); } Pts q; for (double a : {-1.0, 0.5, 2.0, 3.25, 9.0}) for (double b : {0.0, 1.5, 4.0, 8.0}) q.push_back({a + off, b - off}); full<A2>(ctx, pts, leaf, q); if (kind >= 3) { Pts p3, q3; for (size_t i = 0; i < pts.size(); i++) p3.push_back({pts[i][0], pts[i][1], (double)(i % 4)}); for (auto& p : q) q3.push_back({p[0], p[1], 1.5}); full<A3>(ctx, p3, leaf, q3); } }
MC_SCENARIO(lifecycle, 3) { // build, rebuild, clear and move in every order
	KDTree2D a, b; Pts pa, pb; KDTree<2> c, d; Pts pc, pd; int steps = ctx.thorough ? 5 : 4; auto sets = [](int k) -> Pts { switch (k) { case 0: return {}; case 1: return {{1, 1}}; default: return {{0, 0}, {2, 1}, {1, 3}, {0, 2}, {2, 1}}; } };
	for (int i = 0; i < steps; i++) { ctx.step(); int op = ctx.choose(6); if (op < 3) { pa = sets(op); build<A2>(a, pa, 1); pc = pa; build<AN<2>>(c, pc, 1); } else if (op == 3) { a.clear(); pa.clear(); c.clear(); pc.clear(); } else if (op == 4) { b = std::move(a); pb = pa; pa = sets(1); build<A2>(a, pa, 2); d = std::move(c); pd = pc; pc = pa; build<AN<2>>(c, pc, 2); } else { std::swap(a, b); std::swap(pa, pb); std::swap(c, d); std::swap(pc, pd); } for (P q : Pts{{0, 0}, {1.5, 1}, {2, 3}}) { query<A2>(ctx, a, pa, q, "lifecycle"); query<A2>(ctx, b, pb, q, "lifecycle"); query<AN<2>>(ctx, c, pc, q, "lifecycle"); query<AN<2>>(ctx, d, pd, q, "lifecycle"); } ctx.check(a.size() == pa.size() && b.size() == pb.size() && a.empty() == pa.empty() && b.empty() == pb.empty(), "stats", "sizes after step ", i); ctx.state(mc::Hash().u(pa.size()).u(pb.size()).u(op).u(i)); } ctx.outcome(mc::Hash().u(pa.size()).u(pb.size())); ctx.nontrivial(); }
MC_SCENARIO(brute_force, 2) { int n = ctx.range(0, 4); Pts g = grid(2, {0, 1, 3}), pts; int last = 0; for (int i = 0; i < n; i++) { last += ctx.choose((int)g.size() - last); pts.push_back(g[last]); } std::vector<Point2Cartesian> v; std::vector<Point3Cartesian> w; for (auto& p : pts) { v.push_back(Point2Cartesian(p[0], p[1])); w.push_back(Point3Cartesian(p[0], p[1], p[0] - p[1])); } for (auto& q : grid(2, {0, 1.5, 2})) { double best = INFINITY, b3 = INFINITY; for (auto& p : pts) { best = std::min(best, d2(p, q)); b3 = std::min(b3, d2({p[0], p[1], p[0] - p[1]}, {q[0], q[1], 0.5})); } auto r = FindNearestBruteForce2D(v, Point2Cartesian(q[0], q[1])); auto s = FindNearestBruteForce3D(w, Point3Cartesian(q[0], q[1], 0.5)); if (!n) ctx.check(!r.found && !s.found, "empty", "brute force"); else ctx.check(r.found && s.found && same(r.distance, std::sqrt(best)) && same(d2(pts[r.index], q), best) && same(s.distance, std::sqrt(b3)), "brute", str(pts)); } ctx.state([&] { mc::Hash h; for (auto& p : pts) h.d(p[0]).d(p[1]); return h.u(n); }()); ctx.outcome(mc::Hash().u(n)); ctx.nontrivial(); }
