// C45: boundary value problems by shooting
// mc-flags: -O1
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/algorithms/ODESolvers/BVPShootingMethod.h"
using namespace MML;
// kinds 0-3 linear, 4 pendulum, 5 cubic (may blow up), 6 undefined for fast starts; dimension 4: two coupled copies
struct Sys : IODESystem { int k, d; Real S; Sys(int kk, int dd, Real s) : k(kk), d(dd), S(s) {} int getDim() const override { return d; }
	Real acc(Real t, Real y, Real v) const { switch (k) { case 0: return -4 * y + S * t; case 1: return 9 * y - S; case 2: return -9.81 * S; case 3: return -2 * v - 5 * y + S * std::sin(t); case 4: return -S * std::sin(y / S); case 5: return y * y * y / (S * S) + v * v / S; default: return v > 3 * S ? std::sqrt(-1 - std::fabs(v)) : -y; } }
	void derivs(const Real t, const Vector<Real>& x, Vector<Real>& o) const override { if (d == 3) { o[0] = x[1]; o[1] = x[2]; o[2] = -x[2] - 2 * x[1] + acc(t, x[0], x[1]); return; } for (int i = 0; i + 1 < d; i += 2) { o[i] = x[i + 1]; o[i + 1] = acc(t, x[i], x[i + 1]) + (d == 4 ? 0.5 * (x[2 - i] - x[i]) : 0); } } };
template<class C> static ODESystemSolution direct(const Sys& s, const Vector<Real>& x, Real t0, Real t1, int n) { C c; return ODESystemFixedStepSolver(s, c).integrate(x, t0, t1, n); }
template<class R> static bool consistent(mc::Ctx& ctx, const R& r, const std::string& nm) { ctx.check(r.converged == (r.status == AlgorithmStatus::Success) && r.converged == (r.failureReason == BVPFailureReason::None) && r.converged == r.success() && r.converged == r.failureDetails.empty() && !r.algorithm_name.empty() && (r.getFailureDescription() == "Success") == r.converged && r.elapsed_time_ms >= 0, "status", nm, ": converged ", r.converged, " status ", ToString(r.status), " reason ", BVPFailureReasonToString(r.failureReason), " ", r.failureDetails); return r.converged; }
static bool same(const ODESystemSolution& a, const ODESystemSolution& b) { if (a.size() != b.size() || a.getSysDim() != b.getSysDim()) return false; for (int n = 0; n < a.size(); n++) { if (a.getTValue(n) != b.getTValue(n)) return false; for (int i = 0; i < a.getSysDim(); i++) { Real p = a.getXValue(n, i), q = b.getXValue(n, i); if (!(p == q) && !(std::isnan(p) && std::isnan(q))) return false; } } return true; }
static const Real IV[][2] = {{0, 1}, {0, 0.3}, {-1, 1}, {1, 0}, {10, 10.5}};
template<class C> static void one(mc::Ctx& ctx) {
	int k = ctx.choose(7); Sys s(k, 2, ctx.pick({1.0, 1e6, 1e-3})); int iv = ctx.thorough ? ctx.choose(5) : ctx.pick({0, 2, 3}); Real t0 = IV[iv][0], t1 = IV[iv][1]; int si = ctx.choose(2), ti = ctx.choose(2), n = ctx.pick({1, 20, 77}); Real tol = ctx.pick({1e-10, 1e-5}) * s.S, star = ctx.pick({1.5, -0.7, 0.0}) * s.S; int ge = ctx.choose(8), conv = ti == 0 && si == 1 ? ctx.choose(2) : 0, lim = ctx.pick({100, 1, 4}); static const Real G[][2] = {{-1, 1}, {1, 2}, {2, 1}, {0, 1}, {-3, -2}, {100, 101}, {0, 0}, {-1000, -900}}; Real g1 = star + G[ge][0] * s.S, g2 = star + G[ge][1] * s.S; ctx.step();
	std::string nm = ctx.cat("system ", k, " scale ", s.S, " on [", t0, ",", t1, "] shoot ", si, " target ", ti, " steps ", n, " tol ", tol, " solution ", star, " guesses ", g1, ",", g2, " limit ", lim); Vector<Real> x0(2); x0[0] = conv ? 0.25 * s.S : 0.4 * s.S; x0[1] = conv ? 0 : -0.3 * s.S; Vector<Real> xs(x0); xs[si] = star; Real target = direct<C>(s, xs, t0, t1, n).getXValuesAtEnd()[ti]; if (!std::isfinite(target)) ctx.prune();
	auto at = [&](Real v) { Vector<Real> q(x0); q[si] = v; return direct<C>(s, q, t0, t1, n).getXValuesAtEnd()[ti] - target; };
	BVPShootingSolver<C> solver(s, n, tol, lim); BVPShootingResult r = conv ? solver.solvePositionBVP(t0, t1, x0[0], target, g1, g2) : solver.solve1D(t0, t1, x0, si, ti, target, g1, g2); bool lin = k < 4; Real slope = lin ? std::fabs(at(star + s.S) - at(star)) / s.S : 0;
	if (consistent(ctx, r, nm)) { Real v = r.shootingParams[0]; ctx.check(r.shootingParams.size() == 1 && std::isfinite(v), "parameter", nm); Vector<Real> q(x0); q[si] = v; ctx.check(same(r.solution, direct<C>(s, q, t0, t1, n)), "solution", nm); ctx.check(r.residual == std::fabs(r.solution.getXValuesAtEnd()[ti] - target), "residual", nm, r.residual);
		Real dv = 2 * tol + 1e-13 * std::fabs(v), lo = at(v - dv), hi = at(v + dv), here = at(v); ctx.check(here == 0 || (lo > 0) != (hi > 0) || (lo > 0) != (here > 0) || std::fabs(here) <= 1e-13 * n * s.S * (1 + std::fabs(v / s.S)) * 10, "not-a-root", nm, ": ", v, " defects ", lo, " ", here, " ", hi); if (lin && slope > 1e-3) ctx.check(std::fabs(v - star) <= 2 * tol + 1e-11 * (s.S + std::fabs(star)) / std::min(Real(1), slope), "root", nm, ": ", v); ctx.check(r.iterations >= 0 && r.iterations <= lim, "limit", nm, ": ", r.iterations); }
	else { if (lin && slope > 1e-3 && ge != 6) ctx.check(lim < 100 && r.failureReason == BVPFailureReason::MaxIterationsExceeded && r.status == AlgorithmStatus::MaxIterationsExceeded, "not-found", nm, r.getFailureDescription()); if (ge == 6) ctx.check(r.failureReason != BVPFailureReason::None, "equal-guesses", nm); }
	ctx.nontrivial(); mc::Hash h; h.u(r.converged).d(r.residual); ctx.state(h);
}
MC_SCENARIO(one_parameter, 4) { if (ctx.flag()) one<RungeKutta4_StepCalculator>(ctx); else one<EulerStep_Calculator>(ctx); }
MC_SCENARIO(parameters, 4) {
	typedef RungeKutta4_StepCalculator C; int k = ctx.choose(6); int d = ctx.pick({2, 3, 4}); Sys s(k, d, ctx.pick({1.0, 1e9, 1e-3})); int iv = ctx.pick({0, 1, 3, 4}); Real t0 = IV[iv][0], t1 = IV[iv][1]; int set = ctx.choose(7), n = ctx.pick({1, 30}); Real tol = ctx.pick({1e-9, 1e-4}) * s.S; int lim = ctx.pick({50, 3, 2, 1}); Real off = ctx.pick({0.0, 0.2, -3.0, 1e3}); bool viacfg = ctx.flag();
	static const std::vector<std::vector<int>> U[3] = {{{1}, {0}, {0, 1}, {1, 0}, {1}, {0}, {0, 1}}, {{2}, {1, 2}, {0, 1, 2}, {2, 0, 1}, {1}, {0, 2}, {2, 1}}, {{1, 3}, {3, 1}, {0, 1, 2, 3}, {1}, {3}, {0, 2}, {1, 2, 3}}}, T[3] = {{{0}, {1}, {0, 1}, {0, 1}, {1}, {0}, {1, 0}}, {{0}, {0, 2}, {0, 1, 2}, {1, 0, 2}, {1}, {1, 0}, {0, 1}}, {{0, 2}, {0, 2}, {0, 1, 2, 3}, {0}, {0}, {1, 3}, {0, 2, 1}}};
	const std::vector<int>&u = U[d - 2][set], &t = T[d - 2][set]; int m = u.size(); ctx.step(); std::string nm = ctx.cat("system ", k, " dim ", d, " scale ", s.S, " on [", t0, ",", t1, "] set ", set, " steps ", n, " tol ", tol, " limit ", lim, " guess off ", off); Vector<Real> x0(d), xs; for (int i = 0; i < d; i++) x0[i] = (0.5 - 0.2 * i) * s.S; Vector<Real> xe = direct<C>(s, x0, t0, t1, n).getXValuesAtEnd(); for (int i = 0; i < d; i++) if (!std::isfinite(xe[i])) ctx.prune();
	ShootingConfig c; c.unknownIndices = u; c.targetIndices = t; Vector<Real> known(x0); for (int i = 0; i < m; i++) { c.unknownGuesses.push_back(x0[u[i]] + off * s.S * (i % 2 ? -1 : 1)); c.targetValues.push_back(xe[t[i]]); known[u[i]] = 99; } BVPSolverConfig bc(tol, lim); bc.num_integration_steps = n; bc.jacobian_delta = 1e-6 * std::min(s.S, Real(1)); BVPShootingSolverND<C> solver = viacfg ? BVPShootingSolverND<C>(s, bc) : BVPShootingSolverND<C>(s, n, tol, lim, 1e-6 * std::min(s.S, Real(1))); ShootingResultND r = solver.solve(t0, t1, known, c);
	bool ok = consistent(ctx, r, nm); if (r.failureReason == BVPFailureReason::InvalidConfiguration) { ctx.check(false, "refused", nm); return; } ctx.check(r.shootingParams.size() == m && r.residuals.size() == m, "sizes", nm); Vector<Real> q(known); bool fin = true; for (int i = 0; i < m; i++) { q[u[i]] = r.shootingParams[i]; fin = fin && std::isfinite(r.shootingParams[i]); } auto sol = direct<C>(s, q, t0, t1, n); ctx.check(same(r.solution, sol), "solution", nm); Vector<Real> e = sol.getXValuesAtEnd(); Real norm = 0; for (int i = 0; i < m; i++) { Real f = e[t[i]] - xe[t[i]]; norm += f * f; if (std::isfinite(f)) ctx.check(f == r.residuals[i], "residuals", nm); } norm = std::sqrt(norm); if (std::isfinite(norm)) ctx.check(mc::near(norm, r.residualNorm, 1e-12), "norm", nm, norm, " ", r.residualNorm); ctx.check(ok == (r.residualNorm < tol), "converged", nm, ": residual ", r.residualNorm); ctx.check(r.iterations >= 1 && r.iterations <= lim, "limit", nm, r.iterations); if (ok) ctx.check(fin, "finite", nm);
	// linear problems need one Newton step, up to the accuracy of the difference quotients
	if (k < 4) { Matrix<Real> J(m, m); for (int j = 0; j < m; j++) { Vector<Real> p(x0); p[u[j]] += s.S; Vector<Real> pe = direct<C>(s, p, t0, t1, n).getXValuesAtEnd(); for (int i = 0; i < m; i++) J(i, j) = (pe[t[i]] - xe[t[i]]) / s.S; } Real det = m == 1 ? J(0, 0) : m == 2 ? J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0) : 1; bool regular = m == 1 ? std::fabs(det) > 1e-3 : m == 2 ? std::fabs(det) > 1e-3 : n == 30 && iv != 1 && set == 2; if (regular && (lim >= 3 || tol > 1e-6 * s.S) && (lim > 1 || off == 0) && std::fabs(off) < 10) { ctx.check(ok, "not-found", nm, r.getFailureDescription(), " ", r.residualNorm); if (ok && m <= 2) for (int i = 0; i < m; i++) ctx.check(std::fabs(r.shootingParams[i] - x0[u[i]]) <= 30 * tol / std::min(Real(1), std::fabs(det)), "parameter", nm, ": ", r.shootingParams[i]); } }
	ctx.nontrivial(); mc::Hash h; h.u(ok).d(r.residualNorm); ctx.state(h);
}
MC_SCENARIO(refusals, 1) {
	Sys s(0, 2, 1); int bad = ctx.choose(8); ctx.step(); Vector<Real> x0(2, 0.5); ShootingConfig c; c.unknownIndices = {1}; c.unknownGuesses = {0.3}; c.targetIndices = {0}; c.targetValues = {0.2}; int si = 1, ti = 0; switch (bad) { case 0: c.unknownIndices = {2}; si = 2; break; case 1: c.targetIndices = {-1}; ti = -1; break; case 2: c.targetIndices = {2}; ti = 2; break; case 3: c.unknownGuesses.clear(); break; case 4: c.targetValues = {1, 2}; break; case 5: c = ShootingConfig(); break; case 6: c.unknownIndices = {-1}; si = -1; break; case 7: x0 = Vector<Real>(1, 0.5); break; }
	BVPShootingSolverND<> nd(s, 20); ShootingResultND r = nd.solve(0, 1, x0, c); ctx.check(!r.converged && r.failureReason == BVPFailureReason::InvalidConfiguration && r.status == AlgorithmStatus::InvalidInput && !r.failureDetails.empty(), "parameters", "case ", bad, " ", r.getFailureDescription()); if (bad <= 2 || bad >= 6) { BVPShootingSolver<> o(s, 20); BVPShootingResult q = o.solve1D(0, 1, x0, si, ti, 0.2, 0, 1); ctx.check(!consistent(ctx, q, "refusal") && q.failureReason == BVPFailureReason::InvalidConfiguration, "one", "case ", bad, q.getFailureDescription()); }
	// a component the parameter cannot move: reported, not solved; steps must be positive
	Sys f(0, 4, 0); struct Un : IODESystem { int getDim() const override { return 3; } void derivs(const Real, const Vector<Real>& x, Vector<Real>& o) const override { o[0] = x[1]; o[1] = -x[0]; o[2] = 1; } } un; Vector<Real> u0(3, 0.5); ShootingConfig g; g.unknownIndices = {1}; g.unknownGuesses = {0.3}; g.targetIndices = {2}; g.targetValues = {7}; BVPShootingSolverND<> un1(un, 20); ShootingResultND ur = un1.solve(0, 1, u0, g); ctx.check(!consistent(ctx, ur, "unreachable") && ur.failureReason == BVPFailureReason::SingularJacobian, "unreachable", ur.getFailureDescription()); BVPShootingSolver<> uo(un, 20); BVPShootingResult uq = uo.solve1D(0, 1, u0, 1, 2, 7, 0, 1); ctx.check(!consistent(ctx, uq, "unreachable") && uq.failureReason == BVPFailureReason::BracketingFailed, "unreachable-one", uq.getFailureDescription()); BVPShootingSolver<> z(s, 0); ctx.check(bad == 7 || !z.solve1D(0, 1, Vector<Real>(2, 0.5), 1, 0, 1, 0, 1).converged, "steps", ""); ctx.nontrivial();
}
