// Graph container: every operation history up to a depth against an adjacency-map reference.
#include "mc.h"
#include <mml/base/Graph.h>
#include <map>
using namespace MML;
using G = Graph<int, Real>;
struct Ref { bool dir, loops; std::vector<int> data; std::map<std::pair<size_t, size_t>, double> e; };  // undirected edges stored with both orientations
static void compare(mc::Ctx& ctx, const G& g, const Ref& r) {
	size_t n = r.data.size(), edges = 0;
	for (auto& [k, w] : r.e) if (r.dir || k.first <= k.second) edges++;
	ctx.check(g.numVertices() == n && g.isEmpty() == (n == 0), "num-vertices", g.numVertices(), " expected ", n);
	ctx.check(g.numEdges() == edges, "num-edges", g.numEdges(), " expected ", edges);
	ctx.check(g.isDirected() == r.dir && g.isUndirected() == !r.dir && g.allowsSelfLoops() == r.loops, "type", "type");
	bool weighted = false; for (auto& [k, w] : r.e) if (std::fabs(w - 1) > 1e-10) weighted = true;
	ctx.check(g.isWeighted() == weighted, "is-weighted", g.isWeighted());
	auto A = g.toAdjacencyMatrix(), D = g.toDegreeMatrix(), L = g.toLaplacianMatrix(); auto N = g.toNormalizedLaplacian();
	ctx.check(A.rows() == (int)n && D.rows() == (int)n && L.rows() == (int)n && N.rows() == (int)n, "matrix-size", "matrix dimension");
	std::vector<double> od(n, 0);
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { auto it = r.e.find({i, j}); if (it != r.e.end()) od[i] += it->second; }
	for (size_t i = 0; i < n; i++) {
		ctx.check(g.vertexData(i) == r.data[i], "vertex-data", "vertex ", i, " data ", g.vertexData(i));
		size_t out = 0, in = 0;
		for (size_t j = 0; j < n; j++) {
			auto it = r.e.find({i, j}); bool has = it != r.e.end(); double w = has ? it->second : 0; out += has; in += r.e.count({j, i});
			ctx.check(g.hasEdge(i, j) == has, "has-edge", "hasEdge(", i, ",", j, ")=", !has);
			if (has) ctx.check(g.edgeWeight(i, j) == w, "edge-weight", "edgeWeight(", i, ",", j, ")=", g.edgeWeight(i, j), " expected ", w);
			else ctx.check(mc::throws([&] { g.edgeWeight(i, j); }), "edge-weight-missing", "no exception for a missing edge");
			ctx.check(A(i, j) == w, "adjacency", "A(", i, ",", j, ")=", A(i, j), " expected ", w);
			ctx.check(mc::near(D(i, j), i == j ? od[i] : 0, 1e-12), "degree-matrix", "D(", i, ",", j, ")=", D(i, j));
			ctx.check(mc::near(L(i, j), D(i, j) - A(i, j), 1e-12), "laplacian", "L(", i, ",", j, ")=", L(i, j), " but D-A=", D(i, j) - A(i, j));
			double nl = (i == j) - (od[i] > 0 && od[j] > 0 ? w / std::sqrt(od[i] * od[j]) : 0);
			ctx.check(mc::near(N(i, j), nl, 1e-12), "normalized-laplacian", "N(", i, ",", j, ")=", N(i, j), " expected ", nl);
		}
		ctx.check(g.degree(i) == out && g.outDegree(i) == out && g.inDegree(i) == in, "degree", "degree(", i, ")=", g.degree(i), "/", g.inDegree(i), " expected ", out, "/", in);
		auto& nb = g.neighbors(i); ctx.check(nb.size() == out, "neighbors", "neighbour list size");
		for (size_t a = 0; a < nb.size(); a++) { auto it = r.e.find({i, nb[a].to}); ctx.check(it != r.e.end() && it->second == nb[a].weight, "neighbors", "neighbour entry"); for (size_t b = 0; b < a; b++) ctx.check(nb[a].to != nb[b].to, "neighbors", "duplicate"); }
	}
	for (size_t bad : {n, n + 1}) {
		ctx.check(!g.hasEdge(bad, 0) && !g.hasEdge(0, bad), "bad-has-edge", "out of range");
		ctx.check(mc::throws([&] { g.degree(bad); }) && mc::throws([&] { g.neighbors(bad); }) && mc::throws([&] { g.vertexData(bad); }) && mc::throws([&] { g.inDegree(bad); }) && mc::throws([&] { g.edgeWeight(0, bad); }), "bad-index", "no exception for an out-of-range vertex");
	}
	std::string s = g.toString(); ctx.check(s.find("V=" + std::to_string(n)) != std::string::npos && s.find("E=" + std::to_string(edges)) != std::string::npos, "to-string", s);
}
static uint64_t hash(const Ref& r) { mc::Hash h; h.u(r.dir).u(r.loops); for (int d : r.data) h.u(d); for (auto& [k, w] : r.e) h.u(k.first).u(k.second).d(w); return h.h; }
static void add(mc::Ctx& ctx, G& g, Ref& r, size_t a, size_t b, double w) {
	size_t n = r.data.size(); bool ok = a < n && b < n && (a != b || r.loops) && !r.e.count({a, b});
	bool th = mc::throws([&] { g.addEdge(a, b, w); });
	ctx.note("addEdge(", a, ",", b, ",", w, ")", th ? " throws" : "");
	ctx.check(th == !ok, "add-edge-accept", "addEdge(", a, ",", b, ") ", th ? "rejected" : "accepted");
	if (ok) { r.e[{a, b}] = w; if (!r.dir) r.e[{b, a}] = w; }
}
MC_SCENARIO(histories, 5) {
	Ref r; r.dir = ctx.flag(); r.loops = ctx.flag(); int start = ctx.choose(2) * 3;
	G g((size_t)start, r.dir ? G::Type::Directed : G::Type::Undirected, r.loops); for (int i = 0; i < start; i++) r.data.push_back(i);
	int depth = ctx.thorough ? 5 : 4;
	for (int k = 0; k < depth; k++) {
		size_t n = r.data.size(); int lim = (int)std::min<size_t>(n + 1, 3);
		int op = ctx.choose(5);
		if (op == 0) { int d = 10 + k; size_t id = g.addVertex(d); ctx.note("addVertex"); ctx.check(id == n, "add-vertex-id", id); r.data.push_back(d); }
		else if (op == 1) { size_t a = ctx.choose(lim), b = ctx.choose(lim); double w = (k & 1) ? 2.5 : 1; add(ctx, g, r, a, b, w); }
		else if (op == 2) { size_t a = ctx.choose(lim), b = ctx.choose(lim); bool ok = r.e.count({a, b}); bool got = g.removeEdge(a, b); ctx.note("removeEdge(", a, ",", b, ")"); ctx.check(got == ok, "remove-result", "removeEdge(", a, ",", b, ")=", got); r.e.erase({a, b}); if (!r.dir) r.e.erase({b, a}); }
		else if (op == 3) { if (k == 0) ctx.prune(); g.clear(); ctx.note("clear"); r.data.clear(); r.e.clear(); }
		else { // copy, change the copy, original unaffected
			G h = g; if (n) h.vertexData(0) = 77; h.addVertex(5); if (n > 1) { if (!h.removeEdge(0, 1)) h.addEdge(0, 1, 3); } ctx.note("copy");
		}
		ctx.step(); ctx.state(hash(r)); compare(ctx, g, r);
	}
	ctx.nontrivial(); ctx.outcome(hash(r));
}
MC_SCENARIO(edge_toggle_histories, 4) { // longer histories of edge insertions/removals on 3 vertices
	Ref r; r.dir = ctx.flag(); r.loops = ctx.flag(); G g(3, r.dir ? G::Type::Directed : G::Type::Undirected, r.loops); r.data = {0, 1, 2};
	int depth = ctx.thorough ? 6 : 5;
	for (int k = 0; k < depth; k++) {
		int p = ctx.choose(r.loops ? 9 : 6); size_t a = r.loops ? p / 3 : p / 2, b = r.loops ? p % 3 : (a + 1 + p % 2) % 3;
		if (r.e.count({a, b})) { ctx.note("remove ", a, b); ctx.check(g.removeEdge(a, b), "remove-result", "existing edge not removed"); r.e.erase({a, b}); if (!r.dir) r.e.erase({b, a}); }
		else add(ctx, g, r, a, b, 1 + k);
		ctx.step(); ctx.state(hash(r)); 
	}
	compare(ctx, g, r); ctx.nontrivial();
}
MC_SCENARIO(factories, 2) {
	int kind = ctx.choose(5), n = kind == 4 ? 1 + ctx.choose(16) : 1 + ctx.choose(8);
	Ref r; r.dir = false; r.loops = false; auto e = [&](size_t a, size_t b) { if (a != b) { r.e[{a, b}] = 1; r.e[{b, a}] = 1; } };
	G g; size_t V = n;
	if (kind == 0) { g = createPathGraph<int, Real>(n); for (int i = 0; i + 1 < n; i++) e(i, i + 1); }
	else if (kind == 1) { g = createCycleGraph<int, Real>(n); for (int i = 0; i + 1 < n; i++) e(i, i + 1); if (n > 2) e(n - 1, 0); }
	else if (kind == 2) { g = createCompleteGraph<int, Real>(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e(i, j); }
	else if (kind == 3) { g = createStarGraph<int, Real>(n); for (int i = 1; i < n; i++) e(0, i); }
	else { int R = 1 + (n - 1) / 4, C = 1 + (n - 1) % 4; V = R * C; g = createGridGraph<int, Real>(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { if (j + 1 < C) e(i * C + j, i * C + j + 1); if (i + 1 < R) e(i * C + j, i * C + j + C); } }
	for (size_t i = 0; i < V; i++) r.data.push_back((int)i);
	ctx.note("factory ", kind, " n=", n); ctx.step(); ctx.state(hash(r)); compare(ctx, g, r);
}
MC_SCENARIO(factories_empty, 1) { // the empty graph of each family
	int kind = ctx.choose(4); G g; ctx.step(); ctx.state(kind);
	g = kind == 0 ? createPathGraph<int, Real>(0) : kind == 1 ? createCycleGraph<int, Real>(0) : kind == 2 ? createCompleteGraph<int, Real>(0) : createStarGraph<int, Real>(0);
	ctx.check(g.numVertices() == 0 && g.numEdges() == 0, "empty-family", "not empty");
}
