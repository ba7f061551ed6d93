// Graph algorithms on every small graph, against brute force.
#include "mc.h"
#include <mml/algorithms/GraphAlgorithms.h>
#include <mml/algorithms/GraphSpectral.h>
#include <set>
#include <tuple>
#include <array>
using namespace MML;
using G = Graph<int, Real>;
static const double INF = std::numeric_limits<double>::infinity();
struct M { int n; bool dir; std::vector<std::vector<double>> w; std::vector<std::vector<char>> e; };   // reference graph
static std::vector<std::pair<int, int>> pairs(int n, bool dir) {
	std::vector<std::pair<int, int>> p;
	for (int i = 0; i < n; i++) for (int j = dir ? 0 : i + 1; j < n; j++) if (i != j) p.push_back({i, j});
	return p;
}
// builds the graph described by `code` (base = weights.size()+1 digits per pair, 0 = absent); order of insertion 0..2
static void build(mc::Ctx& ctx, int n, bool dir, const std::vector<double>& ws, uint64_t code, int order, G& g, M& m) {
	auto p = pairs(n, dir); int base = (int)ws.size() + 1;
	m.n = n; m.dir = dir; m.w.assign(n, std::vector<double>(n, INF)); m.e.assign(n, std::vector<char>(n, 0));
	std::vector<std::tuple<int, int, double>> es;
	for (auto& q : p) { int d = code % base; code /= base; if (d) es.push_back({q.first, q.second, ws[d - 1]}); }
	if (order == 1) std::reverse(es.begin(), es.end());
	if (order == 2) for (auto& e : es) if (!dir) std::swap(std::get<0>(e), std::get<1>(e));
	for (auto& [a, b, w] : es) {
		g.addEdge(a, b, w); m.e[a][b] = 1; m.w[a][b] = w; if (!dir) { m.e[b][a] = 1; m.w[b][a] = w; }
		ctx.note(a, "-", b, ":", w);
	}
	mc::Hash h; h.u(n).u(dir); for (auto& r : m.w) for (double x : r) h.d(x == INF ? -99 : x); ctx.state(h); if (es.size() > 1) ctx.nontrivial();
}
static std::vector<std::vector<double>> floyd(const M& m, bool hops, bool* neg = nullptr) {
	auto d = std::vector<std::vector<double>>(m.n, std::vector<double>(m.n, INF));
	for (int i = 0; i < m.n; i++) { d[i][i] = 0; for (int j = 0; j < m.n; j++) if (m.e[i][j]) d[i][j] = std::min(d[i][j], hops ? 1.0 : m.w[i][j]); }
	for (int k = 0; k < m.n; k++) for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
	if (neg) { *neg = false; for (int i = 0; i < m.n; i++) if (d[i][i] < 0) *neg = true; }
	return d;
}
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
// parent tree: every reached vertex reaches the root along existing edges with consistent distance
static void tree(mc::Ctx& ctx, const M& m, int s, const TraversalResult& r, bool hops, bool reach_only) {
	for (int v = 0; v < m.n; v++) {
		bool fin = r.distance[v] != INF;
		if (v == s) { ctx.check(r.parent[v] == GRAPH_NOT_FOUND, "root-parent", "start vertex has a parent"); ctx.check(r.distance[v] == 0, "root-distance", "distance[start]=", r.distance[v]); continue; }
		ctx.check(fin == (r.parent[v] != GRAPH_NOT_FOUND), "parent-iff-reached", "vertex ", v);
		if (!fin) continue;
		int p = (int)r.parent[v];
		ctx.check(p >= 0 && p < m.n && m.e[p][v], "parent-edge", "parent ", p, " of ", v, " is not a neighbour");
		ctx.check(r.distance[v] == r.distance[p] + (hops ? 1.0 : m.w[p][v]), "parent-distance", "distance[", v, "]=", r.distance[v], " but parent distance ", r.distance[p]);
		auto path = ReconstructPath(r.parent, s, v);
		ctx.check(!path.empty() && (int)path.front() == s && (int)path.back() == v && path.size() <= (size_t)m.n, "path-ends", "reconstructed path wrong");
		for (size_t i = 1; i < path.size(); i++) ctx.check(m.e[path[i - 1]][path[i]], "path-edge", "path uses a missing edge");
	}
	(void)reach_only;
}
static void unweighted(mc::Ctx& ctx, int n, bool dir, uint64_t code, int order) {
	G g(n, dir ? G::Type::Directed : G::Type::Undirected); M m; build(ctx, n, dir, {1.0}, code, order, g, m);
	auto d = floyd(m, true);
	for (int s = 0; s < n; s++) {
		auto b = BFS(g, s); ctx.step();
		size_t reach = 0; for (int v = 0; v < n; v++) { ctx.check(b.distance[v] == d[s][v], "bfs-distance", "BFS(", s, ") distance[", v, "]=", b.distance[v], " expected ", d[s][v]); if (d[s][v] < INF) reach++; }
		ctx.check(b.nodesVisited == reach && b.visitOrder.size() == reach, "bfs-reach", "BFS visited ", b.nodesVisited, " of ", reach);
		for (size_t i = 1; i < b.visitOrder.size(); i++) ctx.check(b.distance[b.visitOrder[i - 1]] <= b.distance[b.visitOrder[i]], "bfs-layers", "BFS order not by distance");
		ctx.check(std::set<size_t>(b.visitOrder.begin(), b.visitOrder.end()).size() == reach, "bfs-once", "vertex visited twice");
		tree(ctx, m, s, b, true, false);
		std::vector<size_t> vo; BFSVisit(g, s, [&](size_t v) { vo.push_back(v); return true; }); ctx.step();
		ctx.check(vo.size() == reach && std::set<size_t>(vo.begin(), vo.end()).size() == reach, "bfsvisit-reach", "BFSVisit visited ", vo.size());
		for (size_t i = 1; i < vo.size(); i++) ctx.check(d[s][vo[i - 1]] <= d[s][vo[i]], "bfsvisit-layers", "BFSVisit order not by distance");
		auto f = DFS(g, s); ctx.step();
		ctx.check(f.nodesVisited == reach && f.visitOrder.size() == reach && std::set<size_t>(f.visitOrder.begin(), f.visitOrder.end()).size() == reach, "dfs-reach", "DFS visited ", f.nodesVisited, " of ", reach);
		for (int v = 0; v < n; v++) ctx.check((f.distance[v] != INF) == (d[s][v] < INF), "dfs-distance-reach", "DFS distance finite iff reachable");
		tree(ctx, m, s, f, true, false);
		// depth-first order: each next vertex is a neighbour of the most recent visited vertex that still has unvisited neighbours
		auto dfs_order = [&](const std::vector<size_t>& o, const char* k) {
			std::vector<char> vis(n, 0); std::vector<int> st;
			ctx.check(!o.empty() && (int)o[0] == s, k, "does not begin at the start vertex");
			for (size_t i = 0; i < o.size(); i++) {
				if (i) {
					while (!st.empty()) { bool un = false; for (int v = 0; v < n; v++) if (m.e[st.back()][v] && !vis[v]) un = true; if (un) break; st.pop_back(); }
					ctx.check(!st.empty() && m.e[st.back()][o[i]] && !vis[o[i]], k, "vertex ", o[i], " is not a depth-first continuation");
				}
				vis[o[i]] = 1; st.push_back((int)o[i]);
			}
		};
		dfs_order(f.visitOrder, "dfs-order");
		std::vector<size_t> fo; DFSVisit(g, s, [&](size_t v) { fo.push_back(v); return true; }); ctx.step();
		ctx.check(fo.size() == reach, "dfsvisit-reach", "DFSVisit visited ", fo.size()); dfs_order(fo, "dfsvisit-order");
		int stop = (int)reach / 2 + 1; int cnt = 0; DFSVisit(g, s, [&](size_t) { return ++cnt < stop; }); int cb = 0; BFSVisit(g, s, [&](size_t) { return ++cb < stop; });
		ctx.check(cnt == std::min<int>(stop, reach) && cb == std::min<int>(stop, reach), "visitor-stop", "visitor's stop request ignored");
		for (int t = 0; t < n; t++) {
			auto p = ShortestPathUnweighted(g, s, t); ctx.step();
			ctx.check(p.found == (d[s][t] < INF), "sp-found", "ShortestPathUnweighted(", s, ",", t, ") found=", p.found);
			if (p.found) {
				ctx.check(p.totalWeight == d[s][t] && p.path.size() == d[s][t] + 1 && (int)p.path.front() == s && (int)p.path.back() == t, "sp-length", "unweighted shortest path has length ", p.totalWeight, " expected ", d[s][t]);
				for (size_t i = 1; i < p.path.size(); i++) ctx.check(m.e[p.path[i - 1]][p.path[i]], "sp-edges", "path uses a missing edge");
			} else ctx.check(p.path.empty(), "sp-empty", "path without found");
		}
	}
	bool conn = true; for (int v = 0; v < n; v++) if (d[0][v] == INF) conn = false;
	if (!dir) {
		auto c = ConnectedComponents(g); ctx.step();
		ctx.check((int)c.componentId.size() == n, "cc-size", "componentId size");
		std::set<size_t> ids(c.componentId.begin(), c.componentId.end());
		ctx.check(ids.size() == c.numComponents && c.components.size() == c.numComponents, "cc-count", "numComponents ", c.numComponents, " distinct ", ids.size());
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ctx.check((c.componentId[i] == c.componentId[j]) == (d[i][j] < INF), "cc-partition", "vertices ", i, ",", j);
		size_t tot = 0; for (size_t k = 0; k < c.components.size(); k++) { tot += c.components[k].size(); for (size_t v : c.components[k]) ctx.check(c.componentId[v] == k, "cc-lists", "component list disagrees with ids"); }
		ctx.check(tot == (size_t)n, "cc-lists", "component lists do not cover the graph");
		ctx.check(IsConnected(g) == conn && IsConnectedSpectral(g) == conn, "is-connected", "IsConnected wrong");
		auto t = TopologicalSort(g); ctx.check(!t.isDAG, "toposort-undirected", "undirected graph reported as DAG");
	} else {
		auto t = TopologicalSort(g); ctx.step();
		bool cyc = false; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && d[i][j] < INF && d[j][i] < INF) cyc = true;
		ctx.check(t.isDAG == !cyc && IsDAG(g) == !cyc, "is-dag", "isDAG=", t.isDAG, " cyclic=", cyc);
		if (t.isDAG) {
			std::vector<int> pos(n, -1); for (size_t i = 0; i < t.order.size(); i++) pos[t.order[i]] = (int)i;
			ctx.check(t.order.size() == (size_t)n, "topo-size", "order has ", t.order.size());
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j]) ctx.check(pos[i] >= 0 && pos[i] < pos[j], "topo-order", "edge ", i, "->", j, " not respected");
		} else ctx.check(t.order.empty(), "topo-cyclic-order", "an order was returned for a cyclic graph");
	}
	mc::Hash o; for (auto& r : d) for (double x : r) o.d(x == INF ? -1 : x); ctx.outcome(o);
}
MC_SCENARIO(unweighted_undirected, 2) {
	int n = 1 + ctx.choose(6), order = ctx.choose(3);
	uint64_t N = ipow(2, n * (n - 1) / 2); uint64_t code = ctx.choose((int)N);
	unweighted(ctx, n, false, code, order);
}
MC_SCENARIO(unweighted_directed, 2) {
	int n = 1 + ctx.choose(4), order = ctx.choose(2);
	unweighted(ctx, n, true, ctx.choose((int)ipow(2, n * (n - 1))), order);
}
static void sp(mc::Ctx& ctx, int n, bool dir, const std::vector<double>& ws, uint64_t code, int order) {
	G g(n, dir ? G::Type::Directed : G::Type::Undirected); M m; build(ctx, n, dir, ws, code, order, g, m);
	bool anyneg = false; for (double w : ws) if (w < 0) anyneg = true;
	auto d = floyd(m, false);
	for (int s = 0; s < n; s++) {
		if (!anyneg) {
			auto r = Dijkstra(g, s); ctx.step();
			for (int v = 0; v < n; v++) ctx.check(r.distance[v] == d[s][v], "dijkstra-distance", "Dijkstra(", s, ")[", v, "]=", r.distance[v], " expected ", d[s][v]);
			tree(ctx, m, s, r, false, false);
			for (int t = 0; t < n; t++) {
				auto p = DijkstraPath(g, s, t); ctx.step();
				ctx.check(p.found == (d[s][t] < INF), "dijkstrapath-found", s, "->", t);
				if (!p.found) continue;
				ctx.check(p.totalWeight == d[s][t], "dijkstrapath-weight", "weight ", p.totalWeight, " expected ", d[s][t]);
				double sum = 0; ctx.check((int)p.path.front() == s && (int)p.path.back() == t, "dijkstrapath-ends", "ends");
				for (size_t i = 1; i < p.path.size(); i++) { ctx.check(m.e[p.path[i - 1]][p.path[i]], "dijkstrapath-edge", "missing edge"); sum += m.w[p.path[i - 1]][p.path[i]]; }
				ctx.check(sum == p.totalWeight, "dijkstrapath-sum", "path weight ", sum, " reported ", p.totalWeight);
			}
		}
		auto b = BellmanFord(g, s); ctx.step();
		bool reachneg = false; for (int v = 0; v < n; v++) if (d[s][v] < INF && d[v][v] < 0) reachneg = true;
		ctx.check(HasNegativeCycle(g, s) == reachneg, "negative-cycle", "HasNegativeCycle(", s, ")=", !reachneg);
		if (reachneg) ctx.check(b.distance.empty() && b.parent.empty(), "negative-cycle-result", "distances reported despite a negative cycle");
		else {
			ctx.check((int)b.distance.size() == n, "bellman-size", "size");
			size_t reach = 0; std::vector<double> best(n, INF); // exact: Bellman relaxation over n rounds on reachable part
			best[s] = 0; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m.e[i][j] && best[i] < INF) best[j] = std::min(best[j], best[i] + m.w[i][j]);
			for (int v = 0; v < n; v++) { ctx.check(b.distance[v] == best[v], "bellman-distance", "BellmanFord(", s, ")[", v, "]=", b.distance[v], " expected ", best[v]); reach += best[v] < INF; }
			ctx.check(b.nodesVisited == reach, "bellman-visited", "nodesVisited ", b.nodesVisited);
			bool zero = false; for (int v = 0; v < n; v++) for (int u = 0; u < n; u++) if (u != v && d[u][v] < INF && d[v][u] < INF && d[u][v] + d[v][u] == 0) zero = true;
			if (!zero) tree(ctx, m, s, b, false, false);
		}
	}
}
MC_SCENARIO(shortest_paths_nonneg, 3) {
	bool dir = ctx.flag(); int n = 2 + ctx.choose(ctx.thorough ? 3 : dir ? 2 : 3), order = ctx.choose(2);
	std::vector<double> ws = dir ? n <= 3 ? std::vector<double>{0, 1, 2.5, 4} : std::vector<double>{1, 3} : n <= 4 ? std::vector<double>{0, 1, 3, 7} : ctx.thorough ? std::vector<double>{1, 2.5, 4} : std::vector<double>{1, 3};
	uint64_t N = ipow(ws.size() + 1, dir ? n * (n - 1) : n * (n - 1) / 2);
	uint64_t hi = ctx.choose((int)((N + 4095) / 4096)), lo = ctx.choose(4096); if (hi * 4096 + lo >= N) ctx.prune();
	sp(ctx, n, dir, ws, hi * 4096 + lo, order);
}
MC_SCENARIO(shortest_paths_negative, 3) {
	int n = 2 + ctx.choose(ctx.thorough ? 3 : 2), order = ctx.choose(2);
	std::vector<double> ws = n <= 3 ? std::vector<double>{-2, -1, 1, 2, 4} : std::vector<double>{-2, 1, 3};
	if (n == 4 && order) ctx.prune();
	uint64_t N = ipow(ws.size() + 1, n * (n - 1));
	uint64_t hi = ctx.choose((int)((N + 4095) / 4096)), lo = ctx.choose(4096); if (hi * 4096 + lo >= N) ctx.prune();
	sp(ctx, n, true, ws, hi * 4096 + lo, order);
}
MC_SCENARIO(spanning_trees, 3) {
	int n = 1 + ctx.choose(5), order = ctx.choose(3);
	std::vector<double> ws = n <= 4 ? std::vector<double>{-1, 0, 2, 5} : ctx.thorough ? std::vector<double>{1, 2, 4} : std::vector<double>{1, 2};
	if (n == 5 && order && !ctx.thorough) ctx.prune();
	uint64_t N = ipow(ws.size() + 1, n * (n - 1) / 2);
	uint64_t hi = ctx.choose((int)((N + 4095) / 4096)), lo = ctx.choose(4096); if (hi * 4096 + lo >= N) ctx.prune();
	G g(n, G::Type::Undirected); M m; build(ctx, n, false, ws, hi * 4096 + lo, order, g, m);
	// brute force: cheapest spanning forest by trying all edge subsets is 2^10; use exchange-free greedy on sorted weights (matroid) via repeated min cut-edge
	std::vector<std::tuple<double, int, int>> es; for (auto [a, b] : pairs(n, false)) if (m.e[a][b]) es.push_back({m.w[a][b], a, b});
	double best = INF; int comps = 0; { std::vector<int> id(n, -1); for (int i = 0; i < n; i++) if (id[i] < 0) { comps++; std::vector<int> st{i}; id[i] = i; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v = 0; v < n; v++) if (m.e[u][v] && id[v] < 0) { id[v] = i; st.push_back(v); } } } }
	int need = n - comps, E = (int)es.size();
	for (int mask = 0; mask < (1 << E); mask++) {
		if (__builtin_popcount(mask) != need) continue;
		std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; double sum = 0; bool acyc = true;
		for (int k = 0; k < E && acyc; k++) if (mask >> k & 1) { auto [w, a, b] = es[k]; int x = p[a], y = p[b]; if (x == y) acyc = false; for (int& q : p) if (q == y) q = x; sum += w; }
		if (acyc) best = std::min(best, sum);
	}
	auto verify = [&](const MSTResult& r, const char* who, bool forest, int start) {
		ctx.step();
		ctx.check(r.isComplete == (comps == 1), "mst-complete", who, " isComplete=", r.isComplete, " components=", comps);
		std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; double sum = 0;
		for (auto& [u, v, w] : r.edges) {
			ctx.check(u < (size_t)n && v < (size_t)n && m.e[u][v] && m.w[u][v] == w, "mst-edge", who, " reports a non-existing edge");
			int x = p[u], y = p[v]; ctx.check(x != y, "mst-cycle", who, " edges contain a cycle"); for (int& q : p) if (q == y) q = x; sum += w;
		}
		ctx.check(mc::near(sum, r.totalWeight, 1e-12), "mst-sum", who, " totalWeight ", r.totalWeight, " but edges sum ", sum);
		if (comps == 1 || forest) { ctx.check((int)r.edges.size() == need, "mst-size", who, " has ", r.edges.size(), " edges, expected ", need); ctx.check(mc::near(r.totalWeight, best, 1e-12), "mst-minimal", who, " weight ", r.totalWeight, " minimum ", best); }
		else { auto d = floyd(m, true); int reach = 0; for (int v = 0; v < n; v++) reach += d[start][v] < INF; ctx.check((int)r.edges.size() == reach - 1, "mst-component", who, " does not span the start component"); }
	};
	verify(Kruskal(g), "Kruskal", true, 0);
	for (int s = 0; s < n; s++) verify(Prim(g, s), "Prim", false, s);
}
// Structure and centrality measures vs. their definitions
static void measures(mc::Ctx& ctx, int n, bool dir, uint64_t code, int order) {
	G g(n, dir ? G::Type::Directed : G::Type::Undirected); M m; build(ctx, n, dir, {1.0}, code, order, g, m);
	auto d = floyd(m, true); bool conn = true; double diam = 0, sum = 0; int E = 0;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (d[i][j] == INF) conn = false; diam = std::max(diam, d[i][j]); E += m.e[i][j]; if (i != j) sum += d[i][j]; }
	ctx.step(8);
	if (n > 1) ctx.check(mc::near(GraphDensity(g), (double)E / (n * (n - 1)), 1e-12), "density", GraphDensity(g));
	ctx.check(GraphDiameter(g) == (n > 1 ? diam : 0), "diameter", GraphDiameter(g), " expected ", diam);
	if (n > 1 && conn) ctx.check(mc::near(AveragePathLength(g), sum / (n * (n - 1)), 1e-12), "average-path-length", AveragePathLength(g), " expected ", sum / (n * (n - 1)));
	if (!dir && n > 1) { auto c = DegreeCentrality(g); for (int v = 0; v < n; v++) { int k = 0; for (int u = 0; u < n; u++) k += m.e[v][u]; ctx.check(mc::near(c[v], (double)k / (n - 1), 1e-12), "degree-centrality", c[v]); } }
	if (conn && n > 1) { auto c = ClosenessCentrality(g); for (int v = 0; v < n; v++) { double s = 0; for (int u = 0; u < n; u++) s += d[v][u]; ctx.check(mc::near(c[v], (n - 1) / s, 1e-12), "closeness", "closeness[", v, "]=", c[v]); } }
	if (n > 2) {
		// betweenness by definition: count shortest paths through v
		std::vector<std::vector<double>> sg(n, std::vector<double>(n, 0));
		for (int s = 0; s < n; s++) { sg[s][s] = 1; for (int L = 1; L < n; L++) for (int v = 0; v < n; v++) if (d[s][v] == L) for (int u = 0; u < n; u++) if (m.e[u][v] && d[s][u] == L - 1) sg[s][v] += sg[s][u]; }
		auto raw = BetweennessCentrality(g, false), nor = BetweennessCentrality(g, true);
		for (int v = 0; v < n; v++) {
			double b = 0; for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) if (s != t && s != v && t != v && d[s][t] < INF && d[s][v] + d[v][t] == d[s][t]) b += sg[s][v] * sg[v][t] / sg[s][t];
			if (!dir) b /= 2;
			ctx.check(mc::near(raw[v], b, 1e-10), "betweenness", "betweenness[", v, "]=", raw[v], " expected ", b);
			ctx.check(mc::near(nor[v], b * 2.0 / ((n - 1) * (n - 2)), 1e-10), "betweenness-normalized", nor[v]);
		}
	}
	if (!dir) {
		double cc = 0; int k2 = 0; for (int v = 0; v < n; v++) { std::vector<int> nb; for (int u = 0; u < n; u++) if (m.e[v][u]) nb.push_back(u); if (nb.size() < 2) continue; k2++; int t = 0; for (int a : nb) for (int b : nb) if (a < b && m.e[a][b]) t++; cc += 2.0 * t / (nb.size() * (nb.size() - 1)); }
		ctx.check(mc::near(AverageClusteringCoefficient(g), k2 ? cc / k2 : 0, 1e-12), "clustering", AverageClusteringCoefficient(g));
		auto ev = LaplacianEigenvalues(g); // sum = 2E, count of zeros = components, ascending, sum of squares = sum deg^2 + 2E
		double s1 = 0, s2 = 0, q2 = E; int zeros = 0, comps = (int)ConnectedComponents(g).numComponents;
		for (size_t i = 0; i < ev.size(); i++) { s1 += ev[i]; s2 += ev[i] * ev[i]; if (std::fabs(ev[i]) < 1e-8) zeros++; if (i) ctx.check(ev[i - 1] <= ev[i] + 1e-9, "laplacian-ascending", "not ascending"); }
		for (int v = 0; v < n; v++) { double k = g.degree(v); q2 += k * k; }
		ctx.check((int)ev.size() == n && mc::near(s1, E, 1e-8) && mc::near(s2, q2, 1e-7), "laplacian-moments", "trace ", s1, " expected ", E, "; trace2 ", s2, " expected ", q2);
		ctx.check(zeros == comps, "laplacian-kernel", zeros, " zero eigenvalues, ", comps, " components");
		double ac = AlgebraicConnectivity(g); ctx.check((ac > 1e-8) == (conn && n > 1), "algebraic-connectivity", "value ", ac);
		double lb = AlgebraicConnectivityBound(g); ctx.check(lb <= ac + 1e-8 && (!conn || n < 2 || lb > 0), "algebraic-connectivity-bound", "lower bound ", lb, " exceeds the algebraic connectivity ", ac);
	}
	if (!dir) for (int exact = 0; exact < 2; exact++) {	// eigenvector centrality: the non-negative unit eigenvector of the largest eigenvalue
		auto c = exact ? EigenvectorCentrality(g, 20000, 1e-13) : EigenvectorCentrality(g); double tol = exact ? 1e-9 : 1e-3;
		std::vector<long double> x(n, 1), y(n); for (int it = 0; it < 400; it++) { long double t = 0; for (int i = 0; i < n; i++) { y[i] = x[i]; for (int j = 0; j < n; j++) if (m.e[i][j]) y[i] += x[j]; t = std::max(t, y[i]); } for (int i = 0; i < n; i++) x[i] = y[i] / t; }
		double q = 0, qx = 0, xx = 0, norm = 0, res = 0; bool neg = (int)c.size() != n; for (int i = 0; i < n && !neg; i++) { norm += c[i] * c[i]; neg |= c[i] < 0; xx += x[i] * x[i]; for (int j = 0; j < n; j++) if (m.e[i][j]) { q += c[i] * c[j]; qx += x[i] * x[j]; } }
		for (int i = 0; i < n && !neg; i++) { double t = -q * c[i]; for (int j = 0; j < n; j++) if (m.e[i][j]) t += c[j]; res = std::max(res, std::fabs(t)); }
		ctx.check(!neg && mc::near(norm, 1, 1e-12), "eigenvector-centrality-unit", "norm ", norm); ctx.check(std::fabs(q - qx / xx) < tol && res < tol, "eigenvector-centrality", exact ? "" : "defaults: ", "eigenvalue ", q, " expected ", qx / xx, " residual ", res);
	}
	auto pr = PageRank(g, 0.85, 2000, 1e-13); double ps = 0; for (double x : pr) { ps += x; ctx.check(x > 0, "pagerank-positive", x); }
	ctx.check(mc::near(ps, 1, 1e-9), "pagerank-sum", ps);
	for (int v = 0; v < n; v++) { double x = 0.15 / n; for (int u = 0; u < n; u++) { int k = 0; for (int t = 0; t < n; t++) k += m.e[u][t]; if (k == 0) x += 0.85 * pr[u] / n; else if (m.e[u][v]) x += 0.85 * pr[u] / k; } ctx.check(mc::near(x, pr[v], 1e-8), "pagerank-fixed-point", "rank[", v, "]=", pr[v], " fixed point gives ", x); }
	mc::Hash o; o.d(diam == INF ? -1 : diam).d(sum == INF ? -1 : sum); ctx.outcome(o);
}
MC_SCENARIO(measures_undirected, 3) {
	int n = 1 + ctx.choose(6), order = ctx.choose(n == 6 ? 1 : 2);
	uint64_t N = ipow(2, n * (n - 1) / 2), hi = ctx.choose((int)((N + 255) / 256)), lo = ctx.choose(256); if (hi * 256 + lo >= N) ctx.prune();
	measures(ctx, n, false, hi * 256 + lo, order);
}
MC_SCENARIO(measures_directed, 3) {
	int n = 2 + ctx.choose(3), order = ctx.choose(2);
	uint64_t N = ipow(2, n * (n - 1)), hi = ctx.choose((int)((N + 255) / 256)), lo = ctx.choose(256); if (hi * 256 + lo >= N) ctx.prune();
	measures(ctx, n, true, hi * 256 + lo, order);
}
MC_SCENARIO(out_of_range_vertices, 1) {
	int n = ctx.choose(3); G g((size_t)n); size_t bad = n + ctx.choose(2);
	ctx.check(BFS(g, bad).visitOrder.empty() && DFS(g, bad).visitOrder.empty() && Dijkstra(g, bad).distance.empty() && !DijkstraPath(g, bad, 0).found && !DijkstraPath(g, 0, bad).found && !ShortestPathUnweighted(g, bad, 0).found && BellmanFord(g, bad).distance.empty(), "invalid-start", "an out-of-range vertex was accepted");
	ctx.check(Kruskal(g).isComplete == (n <= 1) && Prim(g).isComplete == (n <= 1), "mst-empty", "n=", n); ctx.step(8); ctx.state(n);
}
