// reference frame hierarchies under every short history of attaching, detaching, copying and destroying; positions in the parent frame
// mc-flags: -O1 -fsanitize=address -fno-omit-frame-pointer
#include "mc.h"
#include "mml/core/CoordSystem.h"
#include <memory>
#include <set>
using namespace MML; typedef long double L; typedef VectorN<Real, 3> X;
static const L PI = 3.14159265358979323846264338327950288L;
// model: parent[i] = -1 none; children in the order of attachment
struct Model { static const int N = 4; bool live[N] = {}; int par[N]; std::vector<int> ch[N]; Model() { for (int& p : par) p = -1; }
	bool anc(int a, int b) const { for (int c = b; c >= 0; c = par[c]) if (c == a) return true; return false; }   // a is b or an ancestor of b
	void cut(int i) { if (par[i] >= 0) { auto& v = ch[par[i]]; v.erase(std::find(v.begin(), v.end(), i)); par[i] = -1; } }
	bool set(int i, int p) { if (par[i] == p) return true; if (p >= 0 && anc(i, p)) return false; cut(i); if (p >= 0) { par[i] = p; ch[p].push_back(i); } return true; }
	bool add(int p, int i) { if (i < 0 || anc(i, p)) return false; if (par[i] == p) return true; cut(i); par[i] = p; ch[p].push_back(i); return true; }
	bool rem(int p, int i) { if (i < 0 || par[i] != p) return false; cut(i); return true; }
	void kill(int i) { cut(i); for (int c : ch[i]) par[c] = -1; ch[i].clear(); live[i] = false; }
	mc::Hash hash() const { mc::Hash h; for (int i = 0; i < N; i++) { h.d(live[i]).d(par[i]).d(ch[i].size()); for (int c : ch[i]) h.d(c); } return h; } };
struct Op { int op, a, b; };
static bool applicable(const Model& m, const Op& o) { bool bl = o.b >= 0 && m.live[o.b]; switch (o.op) { case 0: case 1: case 2: return m.live[o.a] && (o.b < 0 || bl); case 3: return m.live[o.a] && o.b >= 0 && !bl; case 4: return m.live[o.a] && o.b < 0; case 5: return o.b != o.a && (o.b < 0 || bl); default: return m.live[o.a] && bl; } }
static const char* ON[] = {"set parent", "add child", "remove child", "copy", "destroy", "create", "assign"};
struct World { Model m; std::unique_ptr<ReferenceFrame3D> f[Model::N]; mc::Ctx& ctx; int n; std::string nm; World(mc::Ctx& c, int n) : ctx(c), n(n) {}
	ReferenceFrame3D* at(int i) { return i < 0 ? nullptr : f[i].get(); }
	void check() { for (int i = 0; i < n; i++) if (m.live[i]) { auto* p = f[i]->GetParentFrame(); ctx.check(p == at(m.par[i]), "parent", nm, ": frame ", i); auto& c = f[i]->GetChildFrames(); ctx.check(c.size() == m.ch[i].size(), "child-count", nm, ": frame ", i, " has ", c.size(), " children, expected ", m.ch[i].size()); for (int e : m.ch[i]) ctx.check(std::count(c.begin(), c.end(), f[e].get()) == 1, "children", nm, ": frame ", i, " misses ", e); } }
	void make(int a, int b) { if (a % 2) f[a].reset(new InertialFrame3D(at(b), Vector3Cartesian(1, 2, 3), Vector3Cartesian(4, 5, 6))); else f[a].reset(new ReferenceFrame3D(at(b))); m.live[a] = true; m.set(a, b); }
	void apply(const Op& o) { int a = o.a, b = o.b; bool got = true, want = true; nm += ctx.cat(" ", ON[o.op], " ", a, ",", b, ";"); ctx.step();
		switch (o.op) { case 0: want = m.set(a, b); got = f[a]->SetParentFrame(at(b)); break; case 1: want = m.add(a, b); got = f[a]->AddChildFrame(at(b)); break; case 2: want = m.rem(a, b); got = f[a]->RemoveChildFrame(at(b)); break;
		case 3: { auto* in = dynamic_cast<InertialFrame3D*>(f[a].get()); f[b].reset(in ? new InertialFrame3D(*in) : new ReferenceFrame3D(*f[a])); m.live[b] = true; auto* p = f[b]->GetParentFrame(); ctx.check(!p || p == f[a]->GetParentFrame(), "copy-parent", nm); ctx.check(f[b]->GetChildFrames().empty(), "copy-children", nm); if (p) m.set(b, m.par[a]); break; }
		case 4: f[a].reset(); m.kill(a); break;
		case 5: if (m.live[a]) { f[a].reset(); m.kill(a); } make(a, b); break;
		default: { int was = m.par[b]; *at(b) = *at(a); if (f[b]->GetParentFrame() != at(was)) { ctx.check(f[b]->GetParentFrame() == at(m.par[a]), "assign-parent", nm); ctx.check(m.set(b, m.par[a]), "assign-cycle", nm); } } }
		ctx.check(got == want, "result", nm, ": returned ", got, " expected ", want); check(); ctx.state(m.hash()); }
	void end() { ctx.outcome(m.hash()); ctx.nontrivial(); nm += " end"; for (int i = 0; i < n; i++) if (m.live[i]) { f[i].reset(); m.kill(i); check(); } } };
// every reachable hierarchy of n frames, by a shortest history that builds it
static const std::vector<std::vector<Op>>& reach(int n) {
	static std::vector<std::vector<Op>> R[Model::N + 1]; auto& r = R[n]; if (!r.empty()) return r; std::set<std::vector<int>> seen; std::vector<Model> q; auto add = [&](const Model& m, std::vector<Op> h) { std::vector<int> k; for (int i = 0; i < n; i++) k.push_back(m.live[i] ? m.par[i] : -2); if (seen.insert(k).second) { q.push_back(m); r.push_back(h); } }; add(Model(), {});
	for (size_t i = 0; i < q.size(); i++) for (int a = 0; a < n; a++) for (int b = -1; b < n; b++) for (int op : {0, 4, 5}) { Op o{op, a, b}; if (!applicable(q[i], o)) continue; Model m = q[i]; if (op == 0) { if (!m.set(a, b)) continue; } else if (op == 4) m.kill(a); else { if (m.live[a]) m.kill(a); m.live[a] = true; m.set(a, b); } auto h = r[i]; h.push_back(o); add(m, h); } return r; }
static void hist(mc::Ctx& ctx, int n, int depth) { auto& all = reach(n); auto h = all[ctx.choose((int)all.size())]; World w(ctx, n); for (auto& o : h) w.apply(o); for (int d = 0; d < depth; d++) { std::vector<Op> L; for (int op = 0; op < 7; op++) for (int a = 0; a < n; a++) for (int b = -1; b < n; b++) if (applicable(w.m, {op, a, b})) L.push_back({op, a, b}); w.apply(L[ctx.choose((int)L.size())]); } w.end(); }
MC_SCENARIO(hierarchies3, 2) { hist(ctx, 3, 2); }
MC_SCENARIO(hierarchies4, 2) { hist(ctx, 4, 1); }
MC_SCENARIO(hierarchies3_deep, 2, true) { hist(ctx, 3, 3); }
MC_SCENARIO(hierarchies4_deep, 2, true) { hist(ctx, 4, 2); }
// positions: what a frame says about its origin and about local points at a time
MC_SCENARIO(positions, 2) {
	ReferenceFrame3D root; double t = ctx.pick({0.0, 0.75, -2.0, 10.0, 1e4}); X p; for (int i = 0; i < 3; i++) p[i] = ctx.pick({-2.0, 0.0, 1.5}); int k = ctx.choose(6); std::string nm = ctx.cat("frame ", k, " t ", t, " point ", p[0], ",", p[1], ",", p[2]); ctx.step(); auto near = [&](const auto& a, L x, L y, L z, const char* key, L tol = 1e-12L) { L s = 1 + fabsl(x) + fabsl(y) + fabsl(z); ctx.check(fabsl(a[0] - x) <= tol * s && fabsl(a[1] - y) <= tol * s && fabsl(a[2] - z) <= tol * s, key, nm, ": ", a[0], ",", a[1], ",", a[2], " expected ", (double)x, ",", (double)y, ",", (double)z); };
	if (k == 0) { near(root.GetOriginPositionAtTime(t), 0, 0, 0, "origin"); near(root.GetLocalPosInParentFrameAtTime(p, t), p[0], p[1], p[2], "position"); NonInertialFrame3D g(&root); near(g.GetLocalPosInParentFrameAtTime(p, t), p[0], p[1], p[2], "position"); ctx.check(g.GetParentFrame() == &root, "parent", nm); }
	else if (k == 1) { InertialFrame3D a(&root, Vector3Cartesian(1, -2, 0.5), Vector3Cartesian(3, 0, -1)), b(&a, Vector3Cartesian(0, 1, 0), Vector3Cartesian(0, 0, 2)); near(a.GetOriginPositionAtTime(t), 3 + t, -2 * t, -1 + 0.5L * t, "origin"); near(a.GetLocalPosInParentFrameAtTime(p, t), 3 + t + p[0], -2 * t + p[1], -1 + 0.5L * t + p[2], "position"); auto in = b.GetLocalPosInParentFrameAtTime(p, t); near(a.GetLocalPosInParentFrameAtTime(in, t), 3 + t + p[0], -t + p[1], 1 + 0.5L * t + p[2], "nested"); InertialFrame3D c(a); near(c.GetLocalPosInParentFrameAtTime(p, t), 3 + t + p[0], -2 * t + p[1], -1 + 0.5L * t + p[2], "copy-position"); ctx.check(b.GetParentFrame() == &a && root.GetChildFrames().size() == 2, "parent", nm); }
	else if (k == 2) { int form = ctx.choose(3); double R = ctx.pick({2.0, 1e3}), T = ctx.pick({5.0, -3.0}), a0 = form ? ctx.pick({0.0, 1.0, -2.5}) : 0.0, inc = form == 2 ? ctx.pick({0.0, 0.4, 1.5707963267948966, -0.3}) : 0.0; nm += ctx.cat(" radius ", R, " period ", T, " angle ", a0, " inclination ", inc); std::unique_ptr<CircleOrbitingFrame3DCartesian> f(form == 0 ? new CircleOrbitingFrame3DCartesian(&root, R, T) : form == 1 ? new CircleOrbitingFrame3DCartesian(&root, R, T, a0) : new CircleOrbitingFrame3DCartesian(&root, R, T, inc, a0)); L an = a0 + 2 * PI * t / T, x = R * cosl(an), y = R * sinl(an), z = fabsl(sinl(inc)) * fabsl(y); auto o = f->GetOriginPositionAtTime(t); L tol = 1e-12L * (1 + fabsl(an)); ctx.check(fabsl(o[0] - x) <= tol * R && fabsl(o[1] - y * cosl(inc)) <= tol * R && fabsl(fabsl(o[2]) - z) <= tol * R, "orbit", nm, ": ", o[0], ",", o[1], ",", o[2]); near(f->GetLocalPosInParentFrameAtTime(p, t), o[0] + p[0], o[1] + p[1], o[2] + p[2], "position"); auto q = f->GetOriginPositionAtTime(t + T); near(q, o[0], o[1], o[2], "period", 1e-11L * (1 + fabsl(an))); ctx.check(f->GetParentFrame() == &root, "parent", nm); auto ax = f->_axis; ctx.check(fabsl(ax[0] * o[0] + ax[1] * o[1] + ax[2] * o[2]) <= 1e-12L * R * (1 + fabsl(an)) && fabsl(ax.NormL2() - 1) <= 1e-14L, "orbit-axis", nm); ctx.check(fabsl(f->_speed - 2 * PI * R / T) <= 1e-12L * R, "orbit-speed", nm); }
	else if (k == 3) { static const double A[5][3] = {{0, 0, 1}, {0, 0, -2}, {1, 0, 0}, {1, 2, 2}, {-0.3, 0.1, 0.2}}; int a = ctx.choose(5); double T = ctx.pick({5.0, -3.0, 24.0}); nm += ctx.cat(" axis ", a, " period ", T); RotatingFrame3D f(&root, T, X{A[a][0], A[a][1], A[a][2]}); L n = sqrtl((L)A[a][0] * A[a][0] + (L)A[a][1] * A[a][1] + (L)A[a][2] * A[a][2]), u[3] = {A[a][0] / n, A[a][1] / n, A[a][2] / n}, an = 2 * PI * fmodl(t / (L)T, 1), d = u[0] * p[0] + u[1] * p[1] + u[2] * p[2]; L c[3] = {u[1] * p[2] - u[2] * p[1], u[2] * p[0] - u[0] * p[2], u[0] * p[1] - u[1] * p[0]}, e[3]; for (int i = 0; i < 3; i++) e[i] = d * u[i] + cosl(an) * (p[i] - d * u[i]) + sinl(an) * c[i]; near(f.GetLocalPosInParentFrameAtTime(p, t), e[0], e[1], e[2], "rotating", 1e-12L * (1 + fabsl(t))); near(f.GetOriginPositionAtTime(t), 0, 0, 0, "origin"); near(f.GetLocalPosInParentFrameAtTime(p, 0), p[0], p[1], p[2], "rotating-start"); }
	else { double R = ctx.pick({6371.0, 10.0}), T = ctx.pick({24.0, -7.0}); HardSphereRotatingFrame f(&root, R, T, X{0, 0, 1}); double lat = ctx.pick({0.0, 45.0, -60.0, 89.0}), lon = ctx.pick({0.0, 90.0, -120.0}); nm += ctx.cat(" radius ", R, " latitude ", lat, " longitude ", lon);
		if (k == 4) { L h = p[2] + 3, la = lat * PI / 180, lo = lon * PI / 180 + 2 * PI * fmodl(t / (L)T, 1); near(f.GetLocalPosInParentFrameAtTime(X{lat, lon, (double)h}, t), (R + h) * cosl(la) * cosl(lo), (R + h) * cosl(la) * sinl(lo), (R + h) * sinl(la), "sphere", 1e-12L * (1 + fabsl(t))); near(f.GetOriginPositionAtTime(t), 0, 0, 0, "origin"); }
		else { RotatingSphereLocalCartesian l(f, lat, lon); X q{p[0] * R * 1e-5, p[1] * R * 1e-5, p[2]}; auto g = l.GetLocalPosInParentFrameAtTime(q, t); ctx.check(g[2] == q[2], "local-height", nm); auto a = f.GetLocalPosInParentFrameAtTime(X{lat, lon, 0}, 0), b = f.GetLocalPosInParentFrameAtTime(g, 0), up = f.GetLocalPosInParentFrameAtTime(X{lat, lon, 1}, 0); L U[3], E[3], N[3], lo = lon * PI / 180; for (int i = 0; i < 3; i++) U[i] = up[i] - a[i]; E[0] = -sinl(lo); E[1] = cosl(lo); E[2] = 0; N[0] = U[1] * E[2] - U[2] * E[1]; N[1] = U[2] * E[0] - U[0] * E[2]; N[2] = U[0] * E[1] - U[1] * E[0]; L e = 0, n = 0, h = 0; for (int i = 0; i < 3; i++) { L d = b[i] - a[i]; e += d * E[i]; n += d * N[i]; h += d * U[i]; } L tol = 0.02L * (fabsl(q[0]) + fabsl(q[1])) + 1e-3L * fabsl(q[2]) * 1 + 1e-9L * R; ctx.check(fabsl(e - q[0]) <= tol && fabsl(n - q[1]) <= tol && fabsl(h - q[2]) <= tol + 1e-3L, "local-tangent", nm, ": east ", (double)e, " north ", (double)n, " up ", (double)h, " expected ", q[0], ",", q[1], ",", q[2]); } }
	ctx.state(mc::Hash().s(nm)); ctx.nontrivial(); }
