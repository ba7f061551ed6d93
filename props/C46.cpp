// C46: dynamical systems: models, fixed points, Lyapunov exponents, sweeps, sections
// mc-flags: -O1
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/systems/DynamicalSystemAnalyzer.h"
#include "mml/systems/ContinuousSystems.h"
#include "mml/systems/DiscreteMaps.h"
#include <memory>
#include <functional>
using namespace MML; using namespace MML::Systems;
typedef std::vector<Real> V; typedef long double L;
static V vec(const Vector<Real>& x) { V r; for (int i = 0; i < x.size(); i++) r.push_back(x[i]); return r; }
static Vector<Real> mv(const V& x) { Vector<Real> r(x.size()); for (size_t i = 0; i < x.size(); i++) r[i] = x[i]; return r; }
static std::unique_ptr<IDynamicalSystem> make(int s) { switch (s) { case 0: return std::make_unique<LorenzSystem>(); case 1: return std::make_unique<RosslerSystem>(); case 2: return std::make_unique<VanDerPolSystem>(); case 3: return std::make_unique<DuffingSystem>(); case 4: return std::make_unique<ChuaCircuit>(); case 5: return std::make_unique<HenonHeilesSystem>(); default: return std::make_unique<DoublePendulumSystem>(); } }
// the textbook equations; the double pendulum as the solution of its Lagrange equations
static V field(int s, const V& p, const V& x) { switch (s) { case 0: return {p[0] * (x[1] - x[0]), x[0] * (p[1] - x[2]) - x[1], x[0] * x[1] - p[2] * x[2]}; case 1: return {-x[1] - x[2], x[0] + p[0] * x[1], p[1] + x[2] * (x[0] - p[2])}; case 2: return {x[1], p[0] * (1 - x[0] * x[0]) * x[1] - x[0]}; case 3: return {x[1], p[3] * std::cos(x[2]) - p[0] * x[1] - p[1] * x[0] - p[2] * x[0] * x[0] * x[0], p[4]};
	case 4: { Real u = x[0], f = u > 1 ? p[3] * u + p[2] - p[3] : u < -1 ? p[3] * u - p[2] + p[3] : p[2] * u; return {p[0] * (x[1] - u - f), u - x[1] + x[2], -p[1] * x[1]}; } case 5: return {x[2], x[3], -x[0] - 2 * x[0] * x[1], -x[1] - x[0] * x[0] + x[1] * x[1]};
	default: { Real m1 = p[0], m2 = p[1], l1 = p[2], l2 = p[3], g = p[4], c = std::cos(x[0] - x[1]), s = std::sin(x[0] - x[1]), a = (m1 + m2) * l1, b = m2 * l2 * c, e = l1 * c, f = l2, r1 = -m2 * l2 * x[3] * x[3] * s - (m1 + m2) * g * std::sin(x[0]), r2 = l1 * x[2] * x[2] * s - g * std::sin(x[1]), D = a * f - b * e; return {x[2], x[3], (r1 * f - b * r2) / D, (a * r2 - e * r1) / D}; } } }
MC_SCENARIO(models, 3) {
	int s = ctx.choose(7); auto sys = make(s); int P = sys->getNumParam(), n = sys->getDim(); ctx.step(); std::string nm = ctx.cat("system ", s, " "); static const int DIM[] = {3, 3, 2, 3, 3, 4, 4}, NP[] = {3, 3, 1, 5, 4, 1, 5}; ctx.check(n == DIM[s] && P == NP[s], "dimensions", nm, n, " ", P);
	V p = vec(sys->getParams()); ctx.check((int)p.size() == P, "params", nm); for (int i = 0; i < P; i++) { auto r = sys->getParamRange(i); ctx.check(p[i] == sys->getParam(i) && r.first <= p[i] && p[i] <= r.second && !sys->getParamName(i).empty(), "defaults", nm, i); } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) ctx.check(sys->getStateName(i) != sys->getStateName(j), "names", nm); for (int i = 0; i < P; i++) for (int j = 0; j < i; j++) ctx.check(sys->getParamName(i) != sys->getParamName(j), "names", nm);
	int how = ctx.choose(3); Real f1 = ctx.pick({1.0, 0.4, 1.7}); Vector<Real> q = mv(p); for (int i = 0; i < P; i++) q[i] = p[i] * (i % 2 ? f1 : 2 - f1) + (f1 == 1 ? 0 : 0.1); if (how == 1) sys->setParams(q); else if (how == 2) for (int i = P; i-- > 0;) sys->setParam(i, q[i]); else q = mv(p); for (int i = 0; i < P; i++) ctx.check(sys->getParam(i) == q[i] && sys->getParams()[i] == q[i], "set", nm, i); p = vec(q);
	V x(n); static const Real X[] = {0, 0.7, -1.3, 2.2, -0.4}; int z = ctx.choose(5), zz = ctx.choose(5); for (int i = 0; i < n; i++) x[i] = X[(z + i * (ctx.thorough ? ctx.choose(5) : zz)) % 5]; Vector<Real> o(n), lo(n), hi(n); sys->derivs(0.3, mv(x), o); V want = field(s, p, x); for (int i = 0; i < n; i++) ctx.check(mc::near(o[i], want[i], 1e-11), "equations", nm, "component ", i, ": ", o[i], " instead of ", want[i]);
	Matrix<Real> J(1, 1), JD; sys->jacobian(0.3, mv(x), J); sys->IDynamicalSystem::jacobian(0.3, mv(x), JD); ctx.check(J.rows() == n && J.cols() == n && JD.rows() == n, "jacobian-size", nm); for (int j = 0; j < n; j++) { V a(x), b(x); Real d = 1e-5; a[j] -= d; b[j] += d; V fa = field(s, p, a), fb = field(s, p, b); for (int i = 0; i < n; i++) { Real w = (fb[i] - fa[i]) / (2 * d); ctx.check(std::fabs(J(i, j) - w) <= (s == 6 ? 1e-3 : 1e-6) * (1 + std::fabs(w)), "jacobian", nm, i, ",", j, ": ", J(i, j), " instead of ", w); ctx.check(std::fabs(JD(i, j) - w) <= 1e-5 * (1 + std::fabs(w)), "numerical-jacobian", nm, i, ",", j); } }
	ctx.check(sys->isHamiltonian() == (s == 5), "hamiltonian", nm); int ni = sys->getNumInvariants(); ctx.check(ni == (s >= 5), "invariants", nm); for (int k = 0; k < ni; k++) { V a(x), b(x); Real d = 1e-5; for (int i = 0; i < n; i++) { a[i] -= d * want[i]; b[i] += d * want[i]; } Real ea = sys->computeInvariant(k, mv(a)), eb = sys->computeInvariant(k, mv(b)), sc = 1; for (Real w : want) sc += w * w; ctx.check(std::fabs(eb - ea) / (2 * d) <= 1e-7 * sc * sc, "invariant-drifts", nm, (eb - ea) / (2 * d)); V c(x); c[n - 1] += 0.5; ctx.check(sys->computeInvariant(k, mv(c)) != sys->computeInvariant(k, mv(x)) && !sys->getInvariantName(k).empty(), "invariant", nm); }
	if (s == 0) { Real tr = J(0, 0) + J(1, 1) + J(2, 2); ctx.check(mc::near(static_cast<LorenzSystem&>(*sys).getDivergence(), tr, 1e-12), "divergence", nm); } ctx.check(sys->getDefaultInitialCondition().size() == n, "initial", nm); ctx.nontrivial(); mc::Hash h; h.u(s); for (Real w : want) h.d(w); ctx.state(h);
}
template<int N> static void mapcheck(mc::Ctx& ctx, IDiscreteMap<N>& m, int s) {
	V p; int P = s == 1 ? 2 : 1; Real f = ctx.pick({1.0, 0.6}); for (int i = 0; i < P; i++) { m.setParam(i, m.getParam(i) * f); p.push_back(m.getParam(i)); } V x(N); for (auto& c : x) c = ctx.pick({0.3, 0.0, 0.62, 0.95, -0.45, 2.1, 0.53, 0.48}); ctx.step(); auto F = [&](const std::vector<L>& y) { std::vector<L> r; switch (s) { case 0: r = {p[0] * y[0] * (1 - y[0])}; break; case 1: r = {1 - p[0] * y[0] * y[0] + y[1], p[1] * y[0]}; break; case 2: { L q = y[0] + p[0] * sinl(y[1]); r = {q, y[1] + q}; break; } default: r = {p[0] * (y[0] < 0.5L ? y[0] : 1 - y[0])}; } return r; };
	const Real tw = 2 * Constants::PI; std::vector<L> y(x.begin(), x.end()); std::vector<L> w = F(y); V got = vec(m.iterate(mv(x))); for (int i = 0; i < N; i++) { Real d = got[i] - (Real)w[i]; if (s == 2) { ctx.check(got[i] >= 0 && got[i] <= tw, "wrap", got[i]); d -= tw * std::round(d / tw); } ctx.check(std::fabs(d) < 1e-13 * (1 + std::fabs((Real)w[i])) * 10, "map", "map ", s, ": ", got[i], " instead of ", (Real)w[i]); }
	Matrix<Real> J(3, 3); m.jacobian(mv(x), J); ctx.check(J.rows() == N && J.cols() == N && m.getDim() == N, "size", s); for (int j = 0; j < N; j++) { auto a = y, b = y; a[j] -= 1e-6L; b[j] += 1e-6L; auto fa = F(a), fb = F(b); for (int i = 0; i < N; i++) ctx.check(std::fabs(J(i, j) - (Real)((fb[i] - fa[i]) / 2e-6L)) < 1e-8, "jacobian", "map ", s, " ", i, ",", j); }
	// exponents: logarithms of the diagonal of R for the product of the Jacobians
	int n = ctx.pick({1, 2, 7, 12}), skip = ctx.pick({0, 3}); std::vector<L> c = y; auto bad = [&]() { for (L q : c) if (!(fabsl(q) < 1e6L)) return true; return false; }; auto adv = [&]() { c = F(c); if (s == 2) for (auto& q : c) q -= 2 * acosl(-1.0L) * floorl(q / (2 * acosl(-1.0L))); }; for (int i = 0; i < skip && !bad(); i++) adv(); L M[2][2] = {{1, 0}, {0, 1}}; bool sing = false; for (int k = 0; k < n && !bad(); k++) { V cd; for (L q : c) cd.push_back((Real)q); Matrix<Real> K(N, N); m.jacobian(mv(cd), K); L T[2][2] = {}; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int l = 0; l < N; l++) T[i][j] += K(i, l) * M[l][j]; memcpy(M, T, sizeof M); adv(); }
	std::string nm = ctx.cat("map ", s, " from ", x[0], " iterations ", n, " skipped ", skip); DiscreteMapLyapunovResult<Real> r; bool t = mc::throws([&] { r = DiscreteMapLyapunov<N>::Compute(m, mv(x), n, skip); }); if (bad()) { if (!t) for (int i = 0; i < N; i++) ctx.check(!std::isnan(r.exponents[i]), "nan", nm); return; } ctx.check(!t, "refused", nm); if (t) return;
	L r1 = hypotl(M[0][0], M[1][0]), r2 = 1; if (N == 2) { r2 = r1 > 0 ? fabsl(M[0][0] * M[1][1] - M[0][1] * M[1][0]) / r1 : 0; } else r1 = fabsl(M[0][0]); sing = r1 < 1e-9L || r2 < 1e-9L; V e; for (int i = 0; i < N; i++) e.push_back(r.exponents[i]); for (int i = 1; i < N; i++) ctx.check(e[i - 1] >= e[i], "sorted", nm, ": ", e[0], " ", e[1]); ctx.check(r.maxExponent == e[0] && r.isChaotic == (r.maxExponent > 0.01), "summary", nm, r.maxExponent); if (!sing) { Real a = logl(r1) / n, b = logl(r2) / n; if (N == 2 && b > a) std::swap(a, b); ctx.check(std::fabs(e[0] - a) < 1e-7 && (N == 1 || std::fabs(e[N - 1] - b) < 1e-7), "exponents", nm, ": ", e[0], " ", e[N - 1], " instead of ", a, " ", b); } else if (N == 1 && r1 == 0) ctx.check(e[0] < -1e300, "collapsed", nm, ": ", e[0]);
	ctx.check(mc::throws([&] { DiscreteMapLyapunov<N>::Compute(m, mv(x), 0, 0); }), "no-iterations", nm); ctx.nontrivial(); mc::Hash h; h.u(s); for (Real q : e) h.d(q); ctx.state(h);
}
MC_SCENARIO(maps, 2) { int s = ctx.choose(4); LogisticMap a; HenonMap b; StandardMap c; TentMap d; if (s == 0) mapcheck<1>(ctx, a, 0); else if (s == 1) { ctx.check(b.jacobianDeterminant() == -0.3 && b.getA() == 1.4 && b.getB() == 0.3, "henon", ""); mapcheck<2>(ctx, b, 1); } else if (s == 2) mapcheck<2>(ctx, c, 2); else mapcheck<1>(ctx, d, 3); }
MC_SCENARIO(long_orbits, 1) { // limits that are known
	int c = ctx.choose(7); ctx.step(); LogisticMap l4(4), l2(2), l32(3.2); HenonMap h; TentMap t(1.7); Vector<Real> one(1, 0.3), two(2, 0.1); auto near = [&](Real a, Real b, Real tol) { ctx.check(std::fabs(a - b) < tol, "limit", "case ", c, ": ", a, " instead of ", b); }; switch (c) { case 0: near(DiscreteMapLyapunov<1>::Compute(l4, one, 20000).maxExponent, std::log(2.0), 0.02); break; case 1: ctx.check(DiscreteMapLyapunov<1>::Compute(l2, Vector<Real>(1, 0.5)).maxExponent < -1e9, "superstable", DiscreteMapLyapunov<1>::Compute(l2, Vector<Real>(1, 0.5)).maxExponent); break; case 2: near(DiscreteMapLyapunov<1>::Compute(l32, one).maxExponent, 0.5 * std::log(std::fabs(3.2 * 3.2 * (1 - 2 * 0.5130445095326298) * (1 - 2 * 0.7994554904673701))), 1e-6); ctx.check(!DiscreteMapLyapunov<1>::Compute(l32, one).isChaotic, "chaotic", "period 2"); break; case 3: { auto r = DiscreteMapLyapunov<2>::Compute(h, two); near(r.exponents[0] + r.exponents[1], std::log(0.3), 1e-9); near(r.exponents[0], 0.419, 0.01); ctx.check(r.isChaotic, "chaotic", "henon"); break; } case 4: near(DiscreteMapLyapunov<1>::Compute(t, one).maxExponent, std::log(1.7), 1e-9); near(t.analyticalLyapunov(), std::log(1.7), 1e-12); break;
	case 5: { HenonMap z(0.2, 0.0); auto r = DiscreteMapLyapunov<2>::Compute(z, two, 50, 5); ctx.check(r.exponents[1] < -20 && std::isfinite(r.exponents[0]), "degenerate", r.exponents[0], " ", r.exponents[1]); break; } case 6: { LogisticMap l5(5); ctx.check(mc::throws([&] { DiscreteMapLyapunov<1>::Compute(l5, one); }), "diverges", ""); break; } } ctx.nontrivial();
}
struct Lin : IDynamicalSystem { int n; std::vector<V> A; V c; Real p = 0; int calls = 0, mode = 0; Lin(int nn, std::vector<V> a, V cc) : n(nn), A(a), c(cc) {} int getDim() const override { return n; } int getNumParam() const override { return 1; } Real getParam(int) const override { return p; } void setParam(int, Real v) override { p = v; } Vector<Real> getParams() const override { return Vector<Real>(1, p); } void setParams(const Vector<Real>& q) override { p = q[0]; }
	void derivs(const Real, const Vector<Real>& x, Vector<Real>& o) const override { if (mode == 1) throw std::runtime_error("no"); for (int i = 0; i < n; i++) { o[i] = 0; for (int j = 0; j < n; j++) o[i] += A[i][j] * (x[j] - c[j]); if (mode == 2) o[i] = std::sqrt(-1.0 - x[0] * x[0]); } } void jacobian(Real, const Vector<Real>&, Matrix<Real>& J) const override { J.Resize(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J(i, j) = A[i][j]; } };
MC_SCENARIO(fixed_points, 4) {
	Real a = ctx.range(-2, 2), b = ctx.range(-2, 2), c = ctx.range(-2, 2), d = ctx.range(-2, 2); int n = ctx.pick({2, 3}); Real e = n == 3 ? ctx.pick({-1.5, 0.0, 0.7}) : 0; int it = ctx.pick({50, 1, 0}), g = ctx.choose(3); ctx.step(); Real det = a * d - b * c, tr = a + d, disc = tr * tr - 4 * det; std::vector<V> A = n == 2 ? std::vector<V>{{a, b}, {c, d}} : std::vector<V>{{a, b, a + b - e}, {c, d, c + d - e}, {0, 0, e}}; /* P^-1 diag(B,e) P with P = [[1,0,1],[0,1,1],[0,0,1]] */ V ctr = {1.5, -0.25, 3}; ctr.resize(n); Lin s(n, A, ctr);
	std::string nm = ctx.cat("[", a, " ", b, "; ", c, " ", d, "] with ", e, " dimension ", n, " iterations ", it, " guess ", g); V gu(ctr); if (g == 1) gu[0] += 2; else if (g == 2) for (auto& q : gu) q = -3; FixedPoint<Real> f = FixedPointFinder::Find(s, mv(gu), 1e-10, it); Vector<Real> res(n); s.derivs(0, f.location, res); ctx.check(f.convergenceResidual == res.NormL2() && f.iterations >= 0 && f.iterations <= it, "residual", nm, ": ", f.convergenceResidual, " after ", f.iterations); bool conv = f.convergenceResidual < 1e-10, reg = det != 0 && (n == 2 || e != 0); Vector<Real> f0(n); s.derivs(0, mv(gu), f0); bool start = f0.NormL2() < 1e-10; if (reg && (it || start)) { ctx.check(conv, "not-found", nm); for (int i = 0; i < n && conv; i++) ctx.check(std::fabs(f.location[i] - ctr[i]) < 1e-8, "location", nm, ": ", f.location[i]); } if (start) ctx.check(conv && f.iterations == 0, "start", nm);
	auto D = FindFixedPointDetailed(s, mv(gu), 1e-10, it); ctx.check(D.IsSuccess() == conv && (conv || D.status == (!reg && it ? AlgorithmStatus::SingularMatrix : AlgorithmStatus::MaxIterationsExceeded)) && (conv || !D.error_message.empty()) && D.fixed_point.convergenceResidual == f.convergenceResidual && D.algorithm_name == "FixedPointFinder", "detailed", nm, ": ", ToString(D.status)); if (!conv) { ctx.check(f.type == FixedPointType::Unknown && !f.isStable && f.eigenvalues.empty(), "unconverged", nm); ctx.check(FixedPointFinder::FindMultiple(s, {mv(gu)}).empty() || it < 50, "multiple", nm); return; }
	// what the exact characteristic polynomial says
	ctx.check((int)f.eigenvalues.size() == n && f.jacobian.rows() == n, "eigenvalues", nm); std::complex<Real> su = 0, pr = 1; for (auto q : f.eigenvalues) { su += q; pr *= q; } ctx.check(std::abs(su - std::complex<Real>(tr + (n == 3 ? e : 0))) < 1e-7 && std::abs(pr - std::complex<Real>(det * (n == 3 ? e : 1))) < 1e-6, "spectrum", nm); if (disc == 0 || (n == 3 && det * e == 0 && disc >= 0)) { return; }
	bool cx = disc < 0; std::vector<Real> re; if (cx) re = {tr / 2, tr / 2}; else re = {(tr - std::sqrt(disc)) / 2, (tr + std::sqrt(disc)) / 2}; if (n == 3) re.push_back(e); int pos = 0, neg = 0; for (Real q : re) { pos += q > 1e-9; neg += q < -1e-9; } if (n == 3 && !cx && (std::fabs(re[0] - e) < 1e-3 || std::fabs(re[1] - e) < 1e-3)) return; bool star = n == 2 && b == 0 && c == 0 && a == d; typedef FixedPointType T; T w = cx ? (pos && neg ? T::SaddleFocus : neg == n ? T::StableFocus : pos ? T::UnstableFocus : neg ? T::Unknown : T::Center) : (pos && neg ? T::Saddle : neg == n ? T::StableNode : pos == n ? T::UnstableNode : T::Unknown); ctx.check(f.type == w || star, "type", nm, ": ", ToString(f.type), " instead of ", ToString(w)); ctx.check(f.isStable == (neg == n), "stable", nm); ctx.nontrivial(); mc::Hash h; h.u((int)w).u(n); ctx.state(h);
}
MC_SCENARIO(boxes, 1) { // with the zero field every grid point is a fixed point of its own
	int n = ctx.range(1, 3), g = ctx.range(1, 4); ctx.step(); Lin s(n, std::vector<V>(n, V(n, 0)), V(n, 0)); DynamicalSystemAnalyzer<Real> an(s); Vector<Real> lo(n), hi(n); for (int i = 0; i < n; i++) { lo[i] = -1 - i; hi[i] = 2 + 3 * i; } auto r = an.FindFixedPointsInBox(lo, hi, g); int tot = 1; for (int i = 0; i < n; i++) tot *= g; ctx.check((int)r.size() == tot, "number", n, " ", g, ": ", r.size()); for (int k = 0; k < tot; k++) { Vector<Real> w(n); int q = k; for (int i = 0; i < n; i++, q /= g) w[i] = lo[i] + (g == 1 ? 0.5 : Real(q % g) / (g - 1)) * (hi[i] - lo[i]); int hit = 0; for (auto& f : r) hit += (f.location - w).NormL2() < 1e-9; ctx.check(hit == 1, "grid", n, " ", g, " point ", k); } ctx.nontrivial();
}
MC_SCENARIO(fixed_point_sets, 1) {
	int c = ctx.choose(4); ctx.step(); Lin s(2, {{1, 0}, {0, 1}}, {0, 0}); s.mode = c; if (c == 1) { auto D = FindFixedPointDetailed(s, Vector<Real>(2, 1.0), 1e-10, 50, [] { DynSysConfig q; q.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; return q; }()); ctx.check(!D.IsSuccess() && !D.error_message.empty(), "throwing", ""); ctx.check(mc::throws([&] { DynSysConfig q; q.exception_policy = EvaluationExceptionPolicy::Propagate; FindFixedPointDetailed(s, Vector<Real>(2, 1.0), 1e-10, 50, q); }), "propagate", ""); }
	else if (c == 2) { auto D = FindFixedPointDetailed(s, Vector<Real>(2, 1.0)); ctx.check(!D.IsSuccess() && D.fixed_point.type == FixedPointType::Unknown && !D.fixed_point.isStable, "undefined", ToString(D.status)); ctx.check(FixedPointFinder::FindMultiple(s, {Vector<Real>(2, 1.0)}).empty(), "undefined-multiple", ""); }
	else { Real rho = ctx.pick({28.0, 10.0, 14.0, 0.5}); LorenzSystem l(10, rho); DynamicalSystemAnalyzer<Real> an(l); auto r = an.FindFixedPointsInBox(Vector<Real>(3, -30.0), Vector<Real>(3, 30.0), c ? 4 : 5); Real q = std::sqrt(8.0 / 3 * std::max(rho - 1, Real(0))); std::vector<V> want = {{0, 0, 0}}; if (rho > 1) { want.push_back({q, q, rho - 1}); want.push_back({-q, -q, rho - 1}); } ctx.check(r.size() == want.size(), "lorenz", "rho ", rho, ": ", r.size()); for (auto& w : want) { int hit = 0; for (auto& f : r) if ((f.location - mv(w)).NormL2() < 1e-7) { hit++; bool stable = w[0] == 0 ? rho < 1 : rho < 24.7; ctx.check(f.isStable == stable, "lorenz-stability", "rho ", rho, " at ", w[0], ": ", ToString(f.type)); } ctx.check(hit == 1, "lorenz-location", "rho ", rho, " ", w[0]); }
		auto rep = an.Analyze(l.getDefaultInitialCondition(), {}, 20); ctx.check(rep.dimension == 3 && rep.numParameters == 3 && rep.currentParams[1] == rho && rep.stateNames[2] == "z" && rep.paramNames[0] == "sigma" && rep.numStableFixedPoints + rep.numUnstableFixedPoints + rep.numSaddlePoints == (int)rep.fixedPoints.size() && rep.isChaotic == rep.lyapunov.isChaotic && rep.isDissipative && !rep.isConservative && rep.kaplanYorkeDimension == rep.lyapunov.kaplanYorkeDimension && rep.summary.find(ctx.cat("Found: ", rep.fixedPoints.size())) != std::string::npos, "report", ""); auto ly = LyapunovAnalyzer::Compute(l, l.getDefaultInitialCondition(), 20); ctx.check(ly.maxExponent == rep.lyapunov.maxExponent && an.ComputeMaxLyapunov(l.getDefaultInitialCondition(), 20) == ly.maxExponent && an.IsChaotic(l.getDefaultInitialCondition(), 20) == ly.isChaotic && an.GetFractalDimension(l.getDefaultInitialCondition(), 20) == ly.kaplanYorkeDimension && an.IsDissipative(l.getDefaultInitialCondition(), 20), "facade", ""); Real lt = an.GetLyapunovTime(l.getDefaultInitialCondition(), 20); ctx.check(ly.maxExponent > 1e-9 ? mc::near(lt, 1 / ly.maxExponent, 1e-12) : std::isinf(lt), "lyapunov-time", lt); }
	ctx.nontrivial();
}
struct Fn : IDynamicalSystem { int n; std::function<void(Real, const V&, V&)> f; Real p = 1; Fn(int nn, std::function<void(Real, const V&, V&)> g) : n(nn), f(g) {} int getDim() const override { return n; } int getNumParam() const override { return 1; } Real getParam(int) const override { return p; } void setParam(int, Real v) override { p = v; } Vector<Real> getParams() const override { return Vector<Real>(1, p); } void setParams(const Vector<Real>& q) override { p = q[0]; } void derivs(const Real t, const Vector<Real>& x, Vector<Real>& o) const override { V r(n); f(t, vec(x), r); for (int i = 0; i < n; i++) o[i] = r[i]; } };
static V flow(const IDynamicalSystem& s, V x, Real T, int m) { int n = x.size(); Vector<Real> o(n); auto f = [&](Real t, const V& y) { s.derivs(t, mv(y), o); return vec(o); }; Real h = T / m; for (int k = 0; k < m; k++) { Real t = k * h; V k1 = f(t, x), y(n); for (int i = 0; i < n; i++) y[i] = x[i] + h / 2 * k1[i]; V k2 = f(t + h / 2, y); for (int i = 0; i < n; i++) y[i] = x[i] + h / 2 * k2[i]; V k3 = f(t + h / 2, y); for (int i = 0; i < n; i++) y[i] = x[i] + h * k3[i]; V k4 = f(t + h, y); for (int i = 0; i < n; i++) x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); } return x; }
static Fn user(int c) { switch (c) { case 0: return Fn(1, [](Real, const V& x, V& o) { o[0] = x[0] * (1 - x[0]); }); case 1: return Fn(2, [](Real, const V& x, V& o) { o[0] = x[1]; o[1] = -std::sin(x[0]) - 0.2 * x[1]; }); case 2: return Fn(2, [](Real t, const V& x, V& o) { o[0] = -0.5 * x[0] + x[1]; o[1] = (1 + std::cos(t)) * x[1] * 0.3 - x[0] * x[0]; }); case 3: return Fn(3, [](Real, const V& x, V& o) { o[0] = -0.3 * x[0] + x[1] * x[2]; o[1] = 0.2 * x[1] - x[0] * x[2]; o[2] = -x[2] + 0.1 * x[0] * x[1]; }); default: return Fn(2, [](Real, const V& x, V& o) { o[0] = -0.1 * x[0]; o[1] = 0.4 * x[1]; }); } }
MC_SCENARIO(exponents, 3) {
	int c = ctx.choose(5); Fn s = user(c); int n = s.n; Real T = ctx.pick({2.0, 0.7}), dt = ctx.pick({1.0, 0.1, 0.3, 50.0}), h = ctx.pick({0.01, 0.1, 0.07}); int z = ctx.choose(3); V x; for (int i = 0; i < n; i++) x.push_back(i == 0 ? V{0.2, 0.6, 0.9}[z] : V{0.5, -0.4, 0.8}[z]); ctx.step(); std::string nm = ctx.cat("system ", c, " start ", z, " time ", T, " orthonormalized every ", dt, " step ", h); LyapunovResult<Real> r = LyapunovAnalyzer::Compute(s, mv(x), T, dt, h);
	std::vector<V> col; for (int j = 0; j < n; j++) { V a(x), b(x); a[j] -= 1e-4; b[j] += 1e-4; V fa = flow(s, a, T, 400), fb = flow(s, b, T, 400), q(n); for (int i = 0; i < n; i++) q[i] = (fb[i] - fa[i]) / 2e-4; col.push_back(q); } V want; for (int j = 0; j < n; j++) { for (int k = 0; k < j; k++) { Real dot = 0; for (int i = 0; i < n; i++) dot += col[j][i] * col[k][i]; for (int i = 0; i < n; i++) col[j][i] -= dot * col[k][i]; } Real q = 0; for (Real w : col[j]) q += w * w; q = std::sqrt(q); for (Real& w : col[j]) w /= q; want.push_back(std::log(q) / T); } if (c == 0) { Real e = std::exp(T), exact = std::log(e / std::pow(1 - x[0] + x[0] * e, 2)) / T; ctx.check(std::fabs(want[0] - exact) < 1e-6, "oracle", nm); } std::sort(want.rbegin(), want.rend());
	Real sum = 0; ctx.check(r.exponents.size() == n, "size", nm); for (int i = 0; i < n; i++) { ctx.check(std::fabs(r.exponents[i] - want[i]) < (h > 0.05 ? 5e-6 : 2e-7), "exponent", nm, " ", i, ": ", r.exponents[i], " instead of ", want[i]); sum += r.exponents[i]; if (i) ctx.check(r.exponents[i - 1] >= r.exponents[i], "sorted", nm); } ctx.check(r.maxExponent == r.exponents[0] && mc::near(r.sum, sum, 1e-12) && r.totalTime == T, "summary", nm); int m = std::ceil(T / dt - 1e-9); ctx.check(r.numOrthonormalizations >= m && r.numOrthonormalizations <= m + 1, "count", nm, ": ", r.numOrthonormalizations); if (r.maxExponent <= 0) ctx.check(!r.isChaotic, "chaotic", nm); Real cum = 0, ky = 0; int j = 0; while (j < n && cum + r.exponents[j] >= 0) cum += r.exponents[j++]; ky = j == n ? n : j == 0 ? 0 : j + cum / std::fabs(r.exponents[j]); ctx.check(mc::near(r.kaplanYorkeDimension, ky, 1e-9), "dimension", nm, ": ", r.kaplanYorkeDimension, " instead of ", ky); auto D = ComputeLyapunovDetailed(s, mv(x), T, dt, h); ctx.check(D.IsSuccess() && D.lyapunov.maxExponent == r.maxExponent, "detailed", nm); ctx.nontrivial(); mc::Hash H; H.d(r.maxExponent); ctx.state(H);
}
MC_SCENARIO(regular_or_chaotic, 1) {
	int c = ctx.choose(12); ctx.step(); LyapunovResult<Real> r; Real T = 200; bool chaos = false; auto lin = [&](std::vector<V> A) { Lin s(A.size(), A, V(A.size(), 0)); r = LyapunovAnalyzer::Compute(s, Vector<Real>(A.size(), 1.0), T); }; switch (c) { case 0: { VanDerPolSystem s(1); r = LyapunovAnalyzer::Compute(s, Vector<Real>({2.0, 0.0}), T); break; } case 1: { HenonHeilesSystem s; r = LyapunovAnalyzer::Compute(s, Vector<Real>({0.05, 0.0, 0.05, 0.0}), T); break; } case 2: { RosslerSystem s(0.2, 0.2, 2.5); r = LyapunovAnalyzer::Compute(s, Vector<Real>({1.0, 1.0, 0.0}), T); break; } case 3: { LorenzSystem s(10, 10); r = LyapunovAnalyzer::Compute(s, Vector<Real>(3, 1.0), T); break; } case 4: lin({{0, 1}, {-1, 0}}); break; case 5: lin({{-1, 3}, {0, -1}}); break; case 6: { DoublePendulumSystem s; r = LyapunovAnalyzer::Compute(s, Vector<Real>({0.1, 0.1, 0.0, 0.0}), T); break; } case 7: { LorenzSystem s; r = LyapunovAnalyzer::Compute(s, Vector<Real>(3, 1.0), T); chaos = true; ctx.check(std::fabs(r.sum + 41.0 / 3) < 0.01 && std::fabs(r.maxExponent - 0.906) < 0.1, "lorenz", r.maxExponent, " ", r.sum); break; } case 8: { RosslerSystem s; r = LyapunovAnalyzer::Compute(s, Vector<Real>({1.0, 1.0, 0.0}), T); chaos = true; break; } case 9: lin({{0.5, 0}, {1, -1}}); chaos = true; break; case 10: { DoublePendulumSystem s; r = LyapunovAnalyzer::Compute(s, Vector<Real>({2.0, 2.0, 0.0, 0.0}), 100); chaos = true; break; }
	case 11: { Fn s(1, [](Real, const V& x, V& o) { o[0] = x[0] * x[0]; }); ctx.check(mc::throws([&] { LyapunovAnalyzer::Compute(s, Vector<Real>(1, 1.0), 50); }), "blow-up", ""); auto D = ComputeLyapunovDetailed(s, Vector<Real>(1, 1.0), 50, 1, 0.01, [] { DynSysConfig q; q.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; return q; }()); ctx.check(!D.IsSuccess(), "blow-up-detailed", ""); Lin l(2, {{-800, 0}, {0, -1}}, {0, 0}); r = LyapunovAnalyzer::Compute(l, Vector<Real>(2, 1.0), 4, 1, 0.002); for (int i = 0; i < 2; i++) ctx.check(!std::isnan(r.exponents[i]), "strong-contraction", r.exponents[0], " ", r.exponents[1]); ctx.check(std::fabs(r.exponents[0] + 1) < 1e-6 && r.exponents[1] < -100, "strong-contraction", r.exponents[0], " ", r.exponents[1]); for (V q : std::vector<V>{{0, 1, 0.1}, {1, 0, 0.1}, {1, 1, 0}, {-1, 1, 0.1}, {1, -1, 0.1}, {1, 1, -0.1}}) ctx.check(mc::throws([&] { LyapunovAnalyzer::Compute(l, Vector<Real>(2, 1.0), q[0], q[1], q[2]); }), "refuse", q[0], " ", q[1], " ", q[2]); break; } }
	ctx.check(r.isChaotic == chaos, "chaotic", "case ", c, ": ", r.maxExponent); ctx.nontrivial();
}
MC_SCENARIO(sweeps, 2) {
	int N = ctx.pick({1, 2, 5, 0}), comp = ctx.choose(2), c = ctx.choose(3); Real p0 = ctx.pick({1.0, 4.0}), p1 = ctx.pick({9.0, 1.0}), tt = ctx.pick({0.0, 2.5}), tr = ctx.pick({10.0, 3.33}), h = ctx.pick({0.05, 0.08}); ctx.step(); bool bomb = false; Real pp = 0; Fn* self = nullptr; Fn s(2, [&](Real t, const V& x, V& o) { pp = self->p; if (bomb && pp != p0) throw std::runtime_error("no"); o[0] = x[1]; o[1] = c == 0 ? -pp * x[0] : c == 1 ? pp * (1 - x[0] * x[0]) * x[1] - x[0] : -x[0] + pp * std::sin(t); }); self = &s; s.p = 7; V x = {1, 0.5};
	std::string nm = ctx.cat("system ", c, " ", N, " values from ", p0, " to ", p1, " component ", comp, " transient ", tt, " record ", tr, " step ", h); auto B = BifurcationAnalyzer::Sweep(s, 0, p0, p1, N, mv(x), comp, tt, tr, h); ctx.check(s.p == 7, "restored", nm); ctx.check((int)B.parameterValues.size() == N && (int)B.attractorValues.size() == N && B.parameterName == s.getParamName(0), "size", nm); if ((int)B.parameterValues.size() != N || (int)B.attractorValues.size() != N) return; size_t mx = 0; for (int i = 0; i < N; i++) { Real p = N > 1 ? p0 + (p1 - p0) * i / (N - 1) : p0; ctx.check(mc::near(B.parameterValues[i], p, 1e-14), "parameter", nm, " ", i, ": ", B.parameterValues[i]); s.p = B.parameterValues[i]; auto run = [&](Real T, std::vector<Real>* out) { Real t = 0, a = x[comp], b = a; while (t < T) { Real dt = std::min(h, T - t); Vector<Real> o(2); auto f = [&](Real u, const V& y) { s.derivs(u, mv(y), o); return vec(o); }; V k1 = f(t, x), k2 = f(t + dt / 2, {x[0] + dt / 2 * k1[0], x[1] + dt / 2 * k1[1]}), k3 = f(t + dt / 2, {x[0] + dt / 2 * k2[0], x[1] + dt / 2 * k2[1]}), k4 = f(t + dt, {x[0] + dt * k3[0], x[1] + dt * k3[1]}); for (int j = 0; j < 2; j++) x[j] += dt * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]) / 6; if (out && b > a && b > x[comp]) out->push_back(b); a = b; b = x[comp]; t += dt; } }; run(tt, nullptr); std::vector<Real> w; run(tr, &w); mx = std::max(mx, w.size()); ctx.check(w.size() == B.attractorValues[i].size(), "maxima", nm, " ", i, ": ", B.attractorValues[i].size(), " instead of ", w.size()); for (size_t k = 0; k < w.size() && k < B.attractorValues[i].size(); k++) ctx.check(std::fabs(w[k] - B.attractorValues[i][k]) < 1e-7 * (1 + std::fabs(w[k])), "maximum", nm, " ", i); }
	ctx.check(B.numRecordedPoints == (int)mx && std::fabs(B.numTransientSteps - tt / h) <= 1, "counts", nm, ": ", B.numRecordedPoints, " ", B.numTransientSteps); s.p = 7; auto D = SweepBifurcationDetailed(s, 0, p0, p1, N, mv({1, 0.5}), comp, tt, tr, h); ctx.check(D.IsSuccess() && D.diagram.attractorValues == B.attractorValues, "detailed", nm);
	DynamicalSystemAnalyzer<Real> an(s); auto sc = an.ScanChaosVsParameter(0, p0, p1, N, mv({1, 0.5}), 5); ctx.check((int)sc.size() == N && s.p == 7, "scan", nm); for (size_t i = 0; i < sc.size() && i < B.parameterValues.size(); i++) { s.p = sc[i].first; ctx.check(mc::near(sc[i].first, B.parameterValues[i], 1e-14) && sc[i].second == LyapunovAnalyzer::Compute(s, mv({1, 0.5}), 5).maxExponent, "scan-value", nm, " ", i, ": ", sc[i].first); } s.p = 7; bomb = true; if (N > 1 && p0 != p1) { ctx.check(mc::throws([&] { BifurcationAnalyzer::Sweep(s, 0, p0, p1, N, mv({1, 0.5}), comp, tt, tr, h); }) && s.p == 7, "restored-after-failure", nm, ": ", s.p); ctx.check(mc::throws([&] { an.ScanChaosVsParameter(0, p0, p1, N, mv({1, 0.5}), 5); }) && s.p == 7, "restored-after-failed-scan", nm, ": ", s.p); } bomb = false;
	for (int b = 0; b < 5; b++) ctx.check(mc::throws([&] { BifurcationAnalyzer::Sweep(s, b == 0 ? 1 : b == 1 ? -1 : 0, 1, 2, 2, mv({1, 0}), b == 2 ? 2 : b == 3 ? -1 : 0, 1, 1, b == 4 ? 0 : 0.1); }) && s.p == 7, "refuse", nm, " ", b); ctx.nontrivial(); mc::Hash H; H.u(mx).u(N); ctx.state(H);
}
MC_SCENARIO(sections, 2) {
	int c = ctx.choose(2), var = ctx.choose(2), dir = ctx.pick({0, 1, -1, 3}), num = ctx.pick({5, 1, 0}); Real v = ctx.pick({0.0, 0.5, -0.25, 0.75, 2.0}), h = ctx.pick({0.125, 0.0625}); if (v == 2 && !(num == 1 && h == 0.125 && dir == 0)) ctx.prune(); ctx.step(); std::string nm = ctx.cat(c ? "triangle wave" : "oscillator", " variable ", var, " value ", v, " direction ", dir, " number ", num, " step ", h);
	// 0: x'' = -x; 1: both components a triangle wave of exactly representable values, period 4, between -1 and 1, shifted against each other
	Fn s(2, [&](Real t, const V& x, V& o) { if (c == 0) { o[0] = x[1]; o[1] = -x[0]; } else for (int i = 0; i < 2; i++) { Real u = std::fmod(t + i * 1 + (4 + 1 - h / 2), 4); o[i] = u == 0 || u == 2 ? 0 : u < 2 ? 1 : -1; } }); V x = c ? V{0, 1} : V{1, 0};
	PoincareSection<Real> sec(var, v, dir); auto D = ComputePoincareSectionDetailed(s, mv(x), sec, num, h); auto R = PhaseSpaceAnalyzer::ComputePoincareSection(s, mv(x), sec, num, h); ctx.check(R.size() == D.intersections.size() && D.IsSuccess() == ((int)R.size() == num), "detailed", nm, R.size()); if (v == 2) { ctx.check(R.empty() && !D.error_message.empty(), "none", nm); return; } ctx.check((int)R.size() == num, "number", nm, ": ", R.size());
	V y = flow(s, x, 100, std::lround(100 / h)); Real t = 100; size_t k = 0; for (int st = 0; k < R.size() && st < 20000; st++, t += h) { V q = y; { Vector<Real> o(2); auto f = [&](Real u, const V& z) { s.derivs(u, mv(z), o); return vec(o); }; V k1 = f(t, y), k2 = f(t + h / 2, {y[0] + h / 2 * k1[0], y[1] + h / 2 * k1[1]}), k3 = f(t + h / 2, {y[0] + h / 2 * k2[0], y[1] + h / 2 * k2[1]}), k4 = f(t + h, {y[0] + h * k3[0], y[1] + h * k3[1]}); for (int j = 0; j < 2; j++) y[j] += h * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]) / 6; } Real a = q[var] - v, b = y[var] - v; if (c) { if (std::fabs(a) < 1e-9) a = 0; if (std::fabs(b) < 1e-9) b = 0; } bool up = a < 0 && b >= 0, dn = a > 0 && b <= 0; if (!(up && dir >= 0) && !(dn && dir <= 0)) continue; Real al = a / (a - b); for (int j = 0; j < 2; j++) ctx.check(std::fabs(R[k][j] - (q[j] + al * (y[j] - q[j]))) < 1e-7, "crossing", nm, " number ", k, " component ", j, ": ", R[k][j], " instead of ", q[j] + al * (y[j] - q[j])); ctx.check(std::fabs(R[k][var] - v) < 1e-9, "on-section", nm); k++; } ctx.check(k == R.size(), "count", nm); if (c == 0) for (auto& r : R) { Real other = std::sqrt(1 - v * v), sg = r[1 - var] > 0 ? 1 : -1; ctx.check(std::fabs(r[1 - var] - sg * other) < 0.01, "circle", nm); if (dir) ctx.check((var == 0) == (sg * dir > 0), "direction", nm, r[1 - var]); }
	for (int b = 0; b < 4; b++) ctx.check(mc::throws([&] { PhaseSpaceAnalyzer::ComputePoincareSection(s, mv(x), PoincareSection<Real>(b == 0 ? 2 : b == 1 ? -1 : 0, 0, 0), 1, b == 2 ? 0 : b == 3 ? -0.1 : 0.1); }), "refuse", nm, b); ctx.nontrivial(); mc::Hash H; H.u(R.size()).d(v).u(var + 2 * c); ctx.state(H);
}
MC_SCENARIO(trajectories, 1) {
	Real T = ctx.pick({1.0, 0.95, 0.0, 2.5, -1.0}), out = ctx.pick({0.1, 0.25, 0.03, 1.0, 7.0}), h = ctx.pick({0.01, 0.1, 0.04, 1.0, 0.0123}); int c = ctx.choose(2); ctx.step(); Fn s(2, [&](Real t, const V& x, V& o) { if (c) { o[0] = 2 * t; o[1] = 1; } else { o[0] = x[1]; o[1] = -x[0]; } }); V x = {1, c ? 2.0 : 0.0}; std::string nm = ctx.cat("system ", c, " time ", T, " every ", out, " step ", h); auto R = PhaseSpaceAnalyzer::IntegrateTrajectory(s, mv(x), T, out, h); int n = T < 0 ? 1 : (int)std::floor(T / out + 1e-6) + 1; ctx.check((int)R.size() == n, "number", nm, ": ", R.size(), " instead of ", n); Real hh = std::min(h, out), tol = 1e-10 + 0.05 * hh * hh * hh * hh; for (int k = 0; k < (int)R.size(); k++) { Real t = k * out; V w = c ? V{1 + t * t, 2 + t} : V{std::cos(t), -std::sin(t)}; for (int j = 0; j < 2; j++) ctx.check(std::fabs(R[k][j] - w[j]) <= (c ? 1e-11 : tol), "point", nm, " ", k, ": ", R[k][j], " instead of ", w[j]); } auto D = IntegrateTrajectoryDetailed(s, mv(x), T, out, h); ctx.check(D.IsSuccess() && D.points.size() == R.size() && D.function_evaluations == (int)R.size(), "detailed", nm); for (int b = 0; b < 4; b++) ctx.check(mc::throws([&] { PhaseSpaceAnalyzer::IntegrateTrajectory(s, mv(x), 1, b == 0 ? 0 : b == 1 ? -1 : 0.1, b == 2 ? 0 : b == 3 ? -1 : 0.1); }), "refuse", nm, b); ctx.nontrivial(); mc::Hash H; H.u(R.size()); ctx.state(H);
}
