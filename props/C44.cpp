// C44: implicit solvers for stiff systems and differential-algebraic equations
// mc-flags: -O1
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/algorithms/ODESolvers/ODESolverStiff.h"
#include "mml/algorithms/DAESolvers.h"
using namespace MML; typedef long double LD;
struct Stop {};
// ---- known solutions: x = S p(t) + S Q exp(L (t - t0)) Q^T d
static const Real QQ[3][3] = {{2 / 3.0, -1 / 3.0, 2 / 3.0}, {2 / 3.0, 2 / 3.0, -1 / 3.0}, {-1 / 3.0, 2 / 3.0, 2 / 3.0}}, Q2[2][2] = {{0.6, -0.8}, {0.8, 0.6}};
static const Real LAM[][3] = {{-1, -2, -0.5}, {0, 0, 0}, {-1, -30, -3}, {-1000, -1, -1e6}, {0.5, -0.5, -4}, {-1e4, -1e4, -1e5}};
struct Prob { int dim, pk, lk; Real S, off, t0; bool nl;
	Real lam(int i) const { return LAM[lk][i]; } Real q(int i, int j) const { return dim == 1 ? 1 : dim == 2 ? Q2[i][j] : QQ[i][j]; }
	Real p(int i, Real t) const { Real u = t - t0; switch (pk) { case 0: return 1 + 0.5 * i; case 1: return 1 + (i + 1) * u; case 2: return 1 + u * u - i * u; case 3: return std::cos((1 + 0.5 * i) * u) + 0.5; default: return 2 * std::exp(-u) + i; } }
	Real dp(int i, Real t) const { Real u = t - t0; switch (pk) { case 0: return 0; case 1: return i + 1; case 2: return 2 * u - i; case 3: return -(1 + 0.5 * i) * std::sin((1 + 0.5 * i) * u); default: return -2 * std::exp(-u); } }
	Real d(int i) const { return off * (i == 1 ? -0.5 : 1); }
	Real A(int i, int j) const { Real v = 0; for (int k = 0; k < dim; k++) v += q(i, k) * lam(k) * q(j, k); return v; }
	Real mode(int k) const { Real v = 0; for (int j = 0; j < dim; j++) v += q(j, k) * d(j); return v; }
	Real exact(int i, Real t) const { Real v = p(i, t); for (int k = 0; k < dim; k++) v += q(i, k) * mode(k) * std::exp(lam(k) * (t - t0)); return S * v; }
	Real sz() const { return S * 4; }
	void f(Real t, const Vector<Real>& y, Vector<Real>& o) const { for (int i = 0; i < dim; i++) { Real v = S * dp(i, t); for (int j = 0; j < dim; j++) v += A(i, j) * (y[j] - S * p(j, t)); if (nl) { Real w = (y[i] - S * p(i, t)) / S; v -= S * 8 * w * w * w + S * 2 * w * std::fabs(w); } o[i] = v; } }
	void J(Real t, const Vector<Real>& y, Matrix<Real>& o) const { for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) { o(i, j) = A(i, j); if (nl && i == j) { Real w = (y[i] - S * p(i, t)) / S; o(i, j) -= 24 * w * w + 4 * std::fabs(w); } } } };
struct Sys : IODESystemWithJacobian { const Prob& P; mutable int nf = 0, nj = 0; Sys(const Prob& p) : P(p) {} int getDim() const override { return P.dim; } void derivs(Real t, const Vector<Real>& y, Vector<Real>& o) const override { if (++nf > 3000000) throw Stop(); P.f(t, y, o); } void jacobian(const Real t, const Vector<Real>& y, Vector<Real>& o, Matrix<Real>& m) const override { nj++; P.J(t, y, m); if (P.pk == 1 || P.pk == 4) for (int i = 0; i < P.dim; i++) o[i] = 0; /* as the systems of the test bed */ else if (P.pk == 3) P.f(t, y, o); } };
struct GridT { Real t0, len, h; int n; };
static const GridT GR[] = {{0, 1, 0.1, 10}, {0, 1, 0.05, 20}, {0, 1, 0.3, 4}, {0, 0.3, 0.1, 3}, {2, 0.35, 0.1, 4}, {-1, 1, 0.07, 15}, {0, 0.1, 0.1, 1}, {0, 0.05, 0.1, 1}, {0, 0.2, 0.1, 2}, {50, 0.5, 0.02, 25}, {0, 0, 0.1, 0}, {0, 0.9, 0.1, 9}, {0, 0.999, 0.1, 10}, {0, 0.41, 0.1, 5}, {1, 1, 0.02, 50}};

static int ORD[] = {1, 2, 4, 3, 5}; // backward Euler, BDF2, BDF4, RODAS, Radau
// bound of the error of point n (step h) of a problem
static Real bound(const Prob& P, int m, Real h, int n, Real len) {
	if (n == 0) return 0; static const Real CM[] = {3, 5, 6, 6, 3}; static const int RED[] = {1, 2, 4, 2, 3}; bool stiff = false; Real grow = 1, tr = 0; for (int k = 0; k < P.dim; k++) { Real z = std::fabs(P.lam(k)) * h; if (z > 0.31) stiff = true; if (P.lam(k) > 0) grow = std::exp(P.lam(k) * len) * 2; Real mo = std::fabs(P.mode(k)); if (mo > 1e-12) tr += mo * (z <= 0.31 ? CM[m] * std::pow(z, ORD[m]) * 1.0 : std::min(1.5 * std::pow(0.8, n), CM[m] * z)); }
	Real e = P.pk == 0 ? 0 : P.pk == 1 ? 0 : CM[m] * std::pow(h, stiff || P.nl ? std::min(RED[m] + (P.nl && !stiff ? 1 : 0), ORD[m]) : ORD[m]) * 2; return P.S * (e * grow * std::max(len, Real(0.3)) + tr * grow + 2e-13 * (1 + (m == 3 ? 1e3 : 0))); }
static void pick(mc::Ctx& ctx, Prob& P, const GridT& g) { P.dim = ctx.thorough ? 1 + ctx.choose(3) : ctx.pick({1, 3}); P.pk = ctx.thorough ? ctx.choose(5) : ctx.pick({1, 3, 4}); P.lk = ctx.choose(6); P.S = ctx.thorough ? ctx.pick({1.0, 1e9, 1e-2}) : ctx.pick({1.0, 1e9}); P.off = ctx.pick({0.0, 1.0}); P.nl = P.off == 0 && P.lk != 4 && ctx.flag(); P.t0 = g.t0; }
static std::string desc(const Prob& P, const GridT& g) { return mc::Ctx::cat("dim=", P.dim, " p", P.pk, " lambda", P.lk, " scale=", P.S, " offset=", P.off, P.nl ? " nonlinear" : "", " t0=", g.t0, " length=", g.len, " h=", g.h); }
static int gridNo(mc::Ctx& ctx) { static const int Q[] = {0, 2, 3, 5, 6, 7, 8, 9, 10, 12, 13}; return ctx.thorough ? ctx.choose(15) : Q[ctx.choose(11)]; }
template<class S> static bool grid(mc::Ctx& ctx, const S& s, const GridT& g, Real tend, int expect, const std::string& nm) {
	ctx.check(s.size() == expect + 1, "points", nm, ": ", s.size(), " instead of ", expect + 1); if (s.size() != expect + 1) return false; ctx.check(s.getTValue(0) == g.t0, "start", nm); if (expect == g.n) ctx.check(std::fabs(s.getTValue(expect) - tend) <= 1e-13 * (1 + std::fabs(tend)), "end", nm, ": ", s.getTValue(expect)); for (int i = 1; i <= expect; i++) { Real st = s.getTValue(i) - s.getTValue(i - 1); if (!(st > 0 && st <= g.h * (1 + 1e-6)) || (i < g.n && std::fabs(st - g.h) > 1e-9 * g.h + 1e-13 * (1 + std::fabs(tend)))) { ctx.check(false, "step", nm, ": step ", i, " of ", st); return false; } } ctx.check(s.getNumStepsOK() == expect && s.getNumStepsBad() == 0 && s.getNumSteps() == expect, "statistics", nm, ": ", s.getNumStepsOK()); return true; }
MC_SCENARIO(stiff, 4) {
	const GridT& g = GR[gridNo(ctx)]; Prob P; pick(ctx, P, g); int m = ctx.choose(2), form = ctx.choose(3); Real tol = P.nl ? 1e-11 : P.lk == 3 ? 1e-8 : ctx.pick({1e-8, 1e-12}); if (P.S == 1e9 && P.lk == 3) ctx.prune(); /* rounding of the rotated matrix */ Real tend = g.t0 + g.len; if (g.t0 == -1 && g.n == 15) tend = 0; ctx.step(); std::string nm = ctx.cat(m ? "BDF2 " : "backward Euler ", form == 2 ? "detailed " : form ? "config " : "", desc(P, g), " tol=", tol);
	Sys s(P); Vector<Real> y0(P.dim); for (int i = 0; i < P.dim; i++) y0[i] = P.exact(i, g.t0); StiffSolverConfig c; c.step_size = g.h; c.newton_tol = tol; c.max_newton_iter = 25; std::unique_ptr<ODESystemSolution> sol; try { if (form == 0) sol.reset(new ODESystemSolution(m ? SolveBDF2(s, g.t0, y0, tend, g.h, 25, tol) : SolveBackwardEuler(s, g.t0, y0, tend, g.h, 25, tol))); else if (form == 1) { StiffSolverResult r = m ? SolveBDF2(s, g.t0, y0, tend, c) : SolveBackwardEuler(s, g.t0, y0, tend, c); ctx.check(r.status == AlgorithmStatus::Success && r.error_message.empty() && !r.algorithm_name.empty(), "status", nm, r.error_message); if (r.status != AlgorithmStatus::Success) return; ctx.check(r.total_steps == g.n && r.jacobian_evaluations == s.nj && r.newton_iterations >= g.n, "counts", nm, ": ", r.total_steps, " ", r.jacobian_evaluations, " of ", s.nj, " ", r.newton_iterations); sol.reset(new ODESystemSolution(r.solution)); } else { ODEStiffConfig dc; dc.solver = c; if (tol == 1e-12) dc.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; ODEStiffResult r = m ? SolveBDF2Detailed(s, g.t0, y0, tend, dc) : SolveBackwardEulerDetailed(s, g.t0, y0, tend, dc); ctx.check(r.IsSuccess() && r.solution.has_value() && r.total_steps == g.n && r.jacobian_evaluations == s.nj, "detailed", nm, r.error_message); if (!r.IsSuccess() || !r.solution) return; sol.reset(new ODESystemSolution(*r.solution)); } } catch (const std::exception& e) { ctx.check(false, "refused", nm, " ", e.what()); return; }
	if (!grid(ctx, *sol, g, tend, g.n, nm)) return; for (int n = 0; n <= g.n; n++) for (int i = 0; i < P.dim; i++) { Real e = std::fabs(sol->getXValue(n, i) - P.exact(i, sol->getTValue(n))), b = bound(P, m, g.h, n, g.len) + 3 * n * tol; if (!(e <= b)) { ctx.check(false, "error", nm, ": point ", n, " component ", i, " off by ", e, " allowed ", b); n = g.n; break; } } ctx.check(true, "error"); ctx.nontrivial(); mc::Hash h; for (int i = 0; i < P.dim; i++) h.d(sol->getXValue(g.n, i)); ctx.state(h);
}
MC_SCENARIO(rosenbrock, 3) {
	const GridT& g = GR[gridNo(ctx)]; Prob P; pick(ctx, P, g); Real tol = ctx.pick({1e-4, 1e-6}); int form = ctx.choose(3); Real mx = form ? ctx.pick({0.1, 0.02}) : 0; int lim = form ? ctx.pick({100000, 4}) : 50000; Real tend = g.t0 + g.len; ctx.step(); std::string nm = ctx.cat("Rosenbrock ", form == 2 ? "detailed " : form ? "config " : "", desc(P, g), " tol=", tol, " max step=", mx, " limit=", lim); Sys s(P); Vector<Real> y0(P.dim); for (int i = 0; i < P.dim; i++) y0[i] = P.exact(i, g.t0); StiffSolverConfig c; c.step_size = g.h; c.tolerance = tol; c.max_step_size = mx; c.max_steps = lim; if (P.S < 1) ctx.prune();
	std::unique_ptr<ODESystemSolution> sol; try { Rosenbrock23Solver ros(s, tol, tol); if (form == 0) sol.reset(new ODESystemSolution(ros.Solve(g.t0, y0, tend, g.h))); else { StiffSolverResult r = ros.Solve(y0, g.t0, tend, c); std::string em = r.error_message; AlgorithmStatus st = r.status; int steps = r.total_steps, nj = r.jacobian_evaluations; if (form == 2) { s.nj = 0; ODEStiffConfig dc; dc.solver = c; ODEStiffResult d = SolveRosenbrock23Detailed(s, y0, g.t0, tend, dc); st = d.status; em = d.error_message; steps = d.total_steps; nj = d.jacobian_evaluations; } bool needs = g.len > lim * mx * 1.02; if (lim == 4) { ctx.check(st != AlgorithmStatus::Success || steps <= 4, "limit", nm, steps); if (needs) ctx.check(st != AlgorithmStatus::Success && !em.empty(), "limit-silent", nm); if (st != AlgorithmStatus::Success) return; } ctx.check(st == AlgorithmStatus::Success && em.empty(), "status", nm, em); if (st != AlgorithmStatus::Success) return; ctx.check(nj == s.nj && steps == r.solution.getNumStepsOK(), "counts", nm, nj, " ", s.nj); sol.reset(new ODESystemSolution(r.solution)); } } catch (const std::exception& e) { ctx.check(false, "refused", nm, " ", e.what()); return; }
	int N = sol->size() - 1; ctx.check(sol->getTValue(0) == g.t0 && std::fabs(sol->getTValue(N) - tend) <= 1e-13 * (1 + std::fabs(tend)), "ends", nm, ": ", sol->getTValue(N)); ctx.check(sol->getNumStepsOK() == N, "statistics", nm); Real grow = P.lk == 4 ? 3 : 1; for (int n = 0; n <= N; n++) { if (n) { Real st = sol->getTValue(n) - sol->getTValue(n - 1); if (!(st > 0 && (!mx || st <= mx * 1.011))) { ctx.check(false, "step", nm, ": ", st); break; } } for (int i = 0; i < P.dim; i++) { Real e = std::fabs(sol->getXValue(n, i) - P.exact(i, sol->getTValue(n))); if (!(e <= 30 * tol * (1 + P.sz()) * grow)) { ctx.check(false, "error", nm, ": t=", sol->getTValue(n), " off by ", e); n = N; break; } } } ctx.nontrivial(); mc::Hash h; h.u(N).d(sol->getXValue(N, 0)); ctx.state(h);
}
struct Root : IODESystemWithJacobian { int k; mutable int nf = 0; Root(int kk) : k(kk) {} int getDim() const override { return 1; } void derivs(Real, const Vector<Real>& y, Vector<Real>& o) const override { if (++nf > 3000000) throw Stop(); o[0] = k == 0 ? -2 * std::sqrt(y[0]) : k == 1 ? y[0] * y[0] : k == 2 ? NAN : std::log(y[0]) - 3; } void jacobian(const Real, const Vector<Real>& y, Vector<Real>&, Matrix<Real>& m) const override { m(0, 0) = k == 0 ? -1 / std::sqrt(y[0]) : k == 1 ? 2 * y[0] : k == 2 ? 0 : 1 / y[0]; } };
// systems whose solution ends inside the interval: never a success with undefined values
MC_SCENARIO(domain, 2) {
	Root s(ctx.choose(4)); int m = ctx.choose(3); Real h = ctx.pick({0.1, 0.01, 0.3}), tend = ctx.pick({0.5, 2.0}); StiffSolverConfig c; c.step_size = h; c.tolerance = ctx.pick({1e-3, 1e-6}); Vector<Real> y0(1, 1.0); ctx.step(); std::string nm = ctx.cat("system ", s.k, " method ", m, " h=", h, " to ", tend, " tol=", c.tolerance); bool stop = false; try { Rosenbrock23Solver ros(s, 1, 1); StiffSolverResult r = m == 0 ? SolveBackwardEuler(s, 0, y0, tend, c) : m == 1 ? SolveBDF2(s, 0, y0, tend, c) : ros.Solve(y0, 0, tend, c); ctx.check((r.status == AlgorithmStatus::Success) == r.error_message.empty(), "message", nm); if (s.k == 2) ctx.check(r.status != AlgorithmStatus::Success, "undefined", nm); if (r.status == AlgorithmStatus::Success) for (int i = 0; i < r.solution.size(); i++) ctx.check(std::isfinite(r.solution.getXValue(i, 0)), "finite", nm, " at ", r.solution.getTValue(i)); if (s.k < 2 && tend < 1) { ctx.check(r.status == AlgorithmStatus::Success || (h > 0.2 && m < 2), "regular", nm, r.error_message); if (r.status == AlgorithmStatus::Success && h <= 0.1) { Real ex = s.k == 0 ? 0.25 : 2, e = std::fabs(r.solution.getXValuesAtEnd()[0] - ex); ctx.check(e <= (m == 2 ? 100 * c.tolerance : m == 0 ? 8 * h : 40 * h * h), "accuracy", nm, ": ", e); } } if (s.k == 1 && tend > 1 && m == 2) ctx.check(r.status != AlgorithmStatus::Success, "pole", nm); } catch (const Stop&) { stop = true; } catch (const std::exception& e) { ctx.check(false, "thrown", nm, " ", e.what()); } ctx.check(!stop, "endless", nm); ctx.nontrivial();
}
MC_SCENARIO(refusals, 1) {
	Prob P{1, 3, 0, 1, 0, 0, false}; Sys s(P); int bad = ctx.choose(5); Real h = bad == 0 ? 0 : bad == 1 ? -0.1 : bad == 2 ? NAN : 0.1, tend = bad == 3 ? -1 : bad == 4 ? NAN : 1; Vector<Real> y0(1, P.exact(0, 0)); ctx.step(); StiffSolverConfig c; c.step_size = h; std::string nm = ctx.cat("h=", h, " to ", tend); auto ok = [](auto g) { try { g(); return true; } catch (const std::exception&) { return false; } }; ctx.check(!ok([&] { SolveBackwardEuler(s, 0, y0, tend, h); }) && !ok([&] { SolveBDF2(s, 0, y0, tend, h); }), "direct", nm); ctx.check(SolveBackwardEuler(s, 0, y0, tend, c).status != AlgorithmStatus::Success && SolveBDF2(s, 0, y0, tend, c).status != AlgorithmStatus::Success, "config", nm);
	Rosenbrock23Solver ros(s); bool r = false; try { ros.Solve(0, y0, tend, h); r = true; } catch (const Stop&) {} catch (const std::exception&) {} ctx.check(!r, "rosenbrock", nm); ctx.nontrivial();
}
// ---- differential-algebraic systems: y = q(t, x) hidden in a constraint
struct Dae : IODESystemDAEWithJacobian { const Prob& P; int ad; bool nlg; Real gs; mutable int nj = 0, nf = 0; Dae(const Prob& p, int a, bool n, Real s) : P(p), ad(a), nlg(n), gs(s) {}
	int getDiffDim() const override { return P.dim; } int getAlgDim() const override { return ad; }
	Real C(int i, int j) const { return 0.5 - 0.4 * i + 0.3 * j; } Real G(int i, int j) const { return gs * (i == j ? 1 : i < j ? 0.5 : -0.25); } Real Bc(int i, int j) const { return 0.7 * (i + 1) - 0.5 * j; }
	Real r(int i, Real t) const { return P.S * std::sin((t - P.t0) * (i + 1)); }
	Real q(int i, Real t, const Vector<Real>& x) const { Real v = r(i, t); for (int j = 0; j < P.dim; j++) v += C(i, j) * x[j]; if (nlg) v += 0.25 * x[0] * x[0] / P.S; return v; } Real qx(int i, int j, const Vector<Real>& x) const { return C(i, j) + (nlg && j == 0 ? 0.5 * x[0] / P.S : 0); }
	Real w(int i, Real t, const Vector<Real>& x, const Vector<Real>& y) const { return y[i] - q(i, t, x); }
	void diffEqs(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& o) const override { if (++nf > 3000000) throw Stop(); P.f(t, x, o); for (int i = 0; i < P.dim; i++) for (int j = 0; j < ad; j++) o[i] += Bc(i, j) * w(j, t, x, y); }
	Real gw(Real v) const { return nlg ? v + v * v * v / (P.S * P.S) : v; } Real gd(Real v) const { return nlg ? 1 + 3 * v * v / (P.S * P.S) : 1; }
	void algConstraints(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& o) const override { for (int i = 0; i < ad; i++) { o[i] = 0; for (int j = 0; j < ad; j++) o[i] += G(i, j) * gw(w(j, t, x, y)); } }
	void jacobian_fx(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& o) const override { nj++; P.J(t, x, o); for (int i = 0; i < P.dim; i++) for (int k = 0; k < P.dim; k++) for (int j = 0; j < ad; j++) o(i, k) -= Bc(i, j) * qx(j, k, x); }
	void jacobian_fy(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& o) const override { for (int i = 0; i < P.dim; i++) for (int j = 0; j < ad; j++) o(i, j) = Bc(i, j); }
	void jacobian_gx(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& o) const override { for (int i = 0; i < ad; i++) for (int k = 0; k < P.dim; k++) { o(i, k) = 0; for (int j = 0; j < ad; j++) o(i, k) -= G(i, j) * gd(w(j, t, x, y)) * qx(j, k, x); } }
	void jacobian_gy(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& o) const override { for (int i = 0; i < ad; i++) for (int j = 0; j < ad; j++) o(i, j) = G(i, j) * gd(w(j, t, x, y)); } };
MC_SCENARIO(dae, 4) {
	const GridT& g = GR[gridNo(ctx)]; Prob P; pick(ctx, P, g); int ad = 1 + ctx.choose(2), m = ctx.choose(5), mode = ctx.choose(3); bool nlg = mode > 0; if (nlg && P.off && (P.lk == 2 || P.lk == 3 || P.lk == 5)) ctx.prune(); /* a jump far from the linear range */ if (P.S == 1e9 && P.lk == 3) ctx.prune(); /* rounding of the rotated matrix */ Real gs = mode == 2 ? 20 : 1; Real tol = P.nl || nlg ? 1e-11 : 1e-8; int lim = ctx.pick({100000, 3, -1}); if (lim < 0) { if (g.n == 0) ctx.prune(); lim = g.n; } Real tend = g.t0 + g.len; if (g.t0 == -1 && g.n == 15) tend = 0; ctx.step(); static const char* MN[] = {"backward Euler ", "BDF2 ", "BDF4 ", "RODAS ", "Radau "}; std::string nm = ctx.cat(MN[m], desc(P, g), " algebraic=", ad, nlg ? " nonlinear constraint" : "", " gs=", gs, " limit=", lim); Dae s(P, ad, nlg, gs); Vector<Real> x0(P.dim), y0(ad); for (int i = 0; i < P.dim; i++) x0[i] = P.exact(i, g.t0); for (int i = 0; i < ad; i++) y0[i] = s.q(i, g.t0, x0);
	DAESolverConfig c; c.step_size = g.h; c.newton_tol = tol; c.max_newton_iter = 60; c.max_steps = lim; std::unique_ptr<DAESolverResult> rp; try { rp.reset(new DAESolverResult(m == 0 ? SolveDAEBackwardEuler(s, g.t0, x0, y0, tend, c) : m == 1 ? SolveDAEBDF2(s, g.t0, x0, y0, tend, c) : m == 2 ? SolveDAEBDF4(s, g.t0, x0, y0, tend, c) : m == 3 ? SolveDAERODAS(s, g.t0, x0, y0, tend, c) : SolveDAERadauIIA(s, g.t0, x0, y0, tend, c))); } catch (const std::exception& e) { ctx.check(false, "refused", nm, " ", e.what()); return; } const DAESolverResult& r = *rp; const DAESolution& sol = r.solution; int expect = std::min(g.n, lim); ctx.check((r.status == AlgorithmStatus::Success) == (lim >= g.n) && r.error_message.empty() == (r.status == AlgorithmStatus::Success), "status", nm, " ", r.error_message); if (lim >= g.n && r.status != AlgorithmStatus::Success) return; if (lim < g.n) ctx.check(r.status == AlgorithmStatus::MaxIterationsExceeded, "limit-status", nm);
	if (!P.nl && !nlg && m != 3) ctx.check(r.newton_iterations <= (P.S > 1 ? 6 : 3) * expect, "iterations", nm, ": ", r.newton_iterations);
	if (!grid(ctx, sol, g, tend, expect, nm)) return; ctx.check(r.total_steps == expect && r.jacobian_evaluations == s.nj && (m == 3 ? r.newton_iterations == 0 : r.newton_iterations >= expect) && !r.algorithm_name.empty(), "counts", nm, ": ", r.total_steps, " ", r.jacobian_evaluations, " of ", s.nj, " ", r.newton_iterations); Real viol = 0; Vector<Real> gv(ad), x(P.dim), y(ad); Real qn = nlg ? 4 : 2, cond = mode == 2 ? 1 : 2; for (int n = 0; n <= expect; n++) { Real b = bound(P, m, g.h, n, g.len) * (nlg && m == 3 ? 1 : 1) + 4 * n * tol; bool bad = false; for (int i = 0; i < P.dim; i++) { x[i] = sol.getXValue(n, i); Real e = std::fabs(x[i] - P.exact(i, sol.getTValue(n))); if (m == 3 && n) b += 0; if (!(e <= b + (m == 3 && n ? P.S * 6 * g.h * g.h * g.h : 0))) { ctx.check(false, "error", nm, ": point ", n, " component ", i, " off by ", e, " allowed ", b); bad = true; break; } } if (bad) break; for (int i = 0; i < ad; i++) y[i] = sol.getYValue(n, i); s.algConstraints(sol.getTValue(n), x, y, gv); if (n) viol = std::max(viol, gv.NormL2()); for (int i = 0; i < ad; i++) { Real e = std::fabs(y[i] - s.q(i, sol.getTValue(n), x)); if (!(e <= cond * tol + 1e-12 * P.S + (m == 3 && n ? P.S * (20 * g.h * g.h * g.h * (1 + (P.off ? 30 : 0))) : 0))) { ctx.check(false, "constraint", nm, ": point ", n, " off by ", e); bad = true; break; } } if (bad) break; } (void)qn;
	ctx.check(std::fabs(viol - r.max_constraint_violation) <= 1e-9 * viol + 1e-13 * P.S * gs, "violation", nm, ": ", viol, " reported ", r.max_constraint_violation);
	// the solution object
	if (expect >= 1 && P.pk == 3) { Vector<Real> tv = sol.getTValues(); Matrix<Real> xv = sol.getXValues(), yv = sol.getYValues(); bool same = tv.size() == expect + 1 && xv.cols() == expect + 1 && yv.cols() == expect + 1 && xv.rows() == P.dim && yv.rows() == ad && sol.getXValues(0).size() == expect + 1 && sol.getYValues(ad - 1).size() == expect + 1; if (same) for (int n = 0; n <= expect; n++) { same = same && tv[n] == sol.getTValue(n) && xv(P.dim - 1, n) == sol.getXValue(n, P.dim - 1) && yv(ad - 1, n) == sol.getYValue(n, ad - 1) && sol.getXValues(0)[n] == sol.getXValue(n, 0) && sol.getYValues(0)[n] == sol.getYValue(n, 0); } ctx.check(same, "values", nm); ctx.check(sol.getXValuesAtEnd()[0] == sol.getXValue(expect, 0) && sol.getYValuesAtEnd()[0] == sol.getYValue(expect, 0), "at-end", nm); Real tm = 0.5 * (sol.getTValue(0) + sol.getTValue(1)), mid = 0.5 * (sol.getXValue(0, 0) + sol.getXValue(1, 0)), ymid = 0.5 * (sol.getYValue(0, ad - 1) + sol.getYValue(1, ad - 1)); ctx.check(mc::near(sol.getXAsLinInterp(0)(tm), mid, 1e-9) && mc::near(sol.getYAsLinInterp(ad - 1)(tm), ymid, 1e-9), "interpolation", nm); if (expect >= 3) { Real sp = sol.getXAsSplineInterp(0)(sol.getTValue(2)); ctx.check(mc::near(sp, sol.getXValue(2, 0), 1e-9) && mc::near(sol.getYAsSplineInterp(0)(sol.getTValue(2)), sol.getYValue(2, 0), 1e-9), "spline", nm); if (P.dim == 3) { auto cu = sol.getXAsParamCurve3D(0, 1, 2); auto e = cu(tend), b = cu(g.t0); ctx.check(mc::near(e[2], sol.getXValue(expect, 2), 1e-9) || lim < g.n, "curve", nm); (void)b; } } bool thr = true; for (int k : {-1, expect + 1}) try { sol.getXValue(k, 0); thr = false; } catch (const IndexError&) {} ctx.check(thr, "index", nm); }
	ctx.nontrivial(); mc::Hash h; h.d(sol.getXValue(expect, 0)).d(sol.getYValue(expect, 0)); ctx.state(h);
}
MC_SCENARIO(dae_consistent, 2) {
	Prob P{1 + ctx.choose(3), 3, 0, ctx.pick({1.0, 1e3}), 0, 0, false}; int ad = 1 + ctx.choose(2); bool nlg = ctx.flag(); Dae s(P, ad, nlg, ctx.pick({1.0, 20.0, 1e-3})); Vector<Real> x0(P.dim), y0(ad), y; for (int i = 0; i < P.dim; i++) x0[i] = P.exact(i, 0.0); Real t0 = ctx.pick({0.0, 0.7}), off = ctx.pick({0.0, 1e-9, 0.3, -2.0, 50.0}); for (int i = 0; i < ad; i++) y0[i] = s.q(i, t0, x0) + off * (i + 1); y = y0; int it = ctx.pick({60, 1, 0}); ctx.step(); std::string nm = ctx.cat("dim=", P.dim, ",", ad, nlg ? " nonlinear" : "", " scale=", P.S, ",", s.gs, " t=", t0, " guess off ", off, " iterations ", it); Vector<Real> g(ad); s.algConstraints(t0, x0, y0, g); bool fits = g.NormL2() < 1e-9; ctx.check(VerifyConsistentIC(s, t0, x0, y0, 1e-9) == fits, "verify", nm); bool ok = ComputeConsistentIC(s, t0, x0, y, it, 1e-9); s.algConstraints(t0, x0, y, g); if (ok) { ctx.check(g.NormL2() < 1e-9, "consistent", nm, g.NormL2()); for (int i = 0; i < ad; i++) ctx.check(std::fabs(y[i] - s.q(i, t0, x0)) <= 1e-5, "value", nm, y[i]); } if (it == 60) ctx.check(ok, "not-found", nm); ctx.nontrivial();
	// invalid input and failing iterations are reported
	DAESolverConfig c; int bad = ctx.choose(5); c.step_size = bad == 0 ? 0 : bad == 1 ? -1 : bad == 2 ? NAN : 0.1; Real tend = bad == 3 ? -1 : 1; if (bad == 4) { c.max_newton_iter = 1; c.newton_tol = 1e-13; if (P.S > 1) return; } Vector<Real> ys(ad); for (int i = 0; i < ad; i++) ys[i] = s.q(i, 0, x0); DAESolverResult r[5] = {SolveDAEBackwardEuler(s, 0, x0, ys, tend, c), SolveDAEBDF2(s, 0, x0, ys, tend, c), SolveDAEBDF4(s, 0, x0, ys, tend, c), SolveDAERadauIIA(s, 0, x0, ys, tend, c), SolveDAERODAS(s, 0, x0, ys, tend, c)}; for (int k = 0; k < (bad == 4 ? 4 : 5); k++) { ctx.check(r[k].status != AlgorithmStatus::Success && !r[k].error_message.empty(), "reported", "solver ", k, " case ", bad, " ", nm); ctx.check(r[k].solution.size() <= 2, "partial", "solver ", k, " case ", bad, " size ", r[k].solution.size()); }
}

// convergence order at the end of a smooth, mildly stiff problem; one step of the Rosenbrock method
MC_SCENARIO(order, 2) {
	int m = ctx.choose(6); Prob P; P.dim = 1 + ctx.choose(3); P.pk = ctx.pick({3, 4}); P.lk = ctx.pick({0, 1, 2, 4}); P.S = ctx.pick({1.0, 1e3}); P.off = ctx.pick({0.0, 1.0}); P.nl = P.off == 0 && ctx.flag(); P.t0 = ctx.pick({0.0, -0.7}); int ad = 1 + ctx.choose(2); bool nlg = m < 5 && !(P.lk == 2 && P.off) && ctx.flag(); ctx.step(); std::string nm = ctx.cat("method ", m, " dim=", P.dim, " p", P.pk, " lambda", P.lk, " scale=", P.S, " offset=", P.off, P.nl ? " nonlinear" : "", " t0=", P.t0, " algebraic=", ad, nlg ? " nonlinear constraint" : "");
	if (m == 5) { if (ad > 1) ctx.prune(); Real e[3]; Sys s(P); Rosenbrock23Solver ros(s); for (int k = 0; k < 3; k++) { Real h = 0.02 / (1 << k); Vector<Real> y(P.dim), o(P.dim), er(P.dim); for (int i = 0; i < P.dim; i++) y[i] = P.exact(i, P.t0); ctx.check(ros.Step(P.t0, y, h, o, er), "step-failed", nm); e[k] = 0; for (int i = 0; i < P.dim; i++) e[k] = std::max(e[k], std::fabs(o[i] - P.exact(i, P.t0 + h))); } if (e[2] > 1e-9 * P.S) ctx.check(std::log2(e[1] / e[2]) > (P.lk == 2 ? 1.9 : 2.5), "step-order", nm, ": ", e[0], " ", e[1], " ", e[2]);
		Prob Q = P; Q.lk = 5; Q.off = 1; Q.nl = false; Q.pk = 0; Sys q(Q); Rosenbrock23Solver rq(q); Vector<Real> y(Q.dim), o(Q.dim), er(Q.dim); for (int i = 0; i < Q.dim; i++) y[i] = Q.exact(i, Q.t0); rq.Step(Q.t0, y, 10, o, er); for (int i = 0; i < Q.dim; i++) ctx.check(std::fabs(o[i] - Q.S * Q.p(i, Q.t0)) < 1e-3 * Q.S, "damping", nm, ": ", o[i]); ctx.nontrivial(); return; }
	Dae s(P, ad, nlg, 1); Real e[2] = {0, 0}; Vector<Real> x0(P.dim), y0(ad); for (int i = 0; i < P.dim; i++) x0[i] = P.exact(i, P.t0); for (int i = 0; i < ad; i++) y0[i] = s.q(i, P.t0, x0); for (int k = 0; k < 2; k++) { DAESolverConfig c; c.step_size = (m == 4 ? 0.1 : m == 0 ? 0.005 : 0.025) / (1 << k); c.newton_tol = 1e-13 * P.S; c.max_newton_iter = 60; DAESolverResult r = m == 0 ? SolveDAEBackwardEuler(s, P.t0, x0, y0, P.t0 + 1, c) : m == 1 ? SolveDAEBDF2(s, P.t0, x0, y0, P.t0 + 1, c) : m == 2 ? SolveDAEBDF4(s, P.t0, x0, y0, P.t0 + 1, c) : m == 3 ? SolveDAERODAS(s, P.t0, x0, y0, P.t0 + 1, c) : SolveDAERadauIIA(s, P.t0, x0, y0, P.t0 + 1, c); ctx.check(r.status == AlgorithmStatus::Success, "status", nm, r.error_message); if (r.status != AlgorithmStatus::Success) return; auto xe = r.solution.getXValuesAtEnd(); for (int i = 0; i < P.dim; i++) e[k] += std::fabs(xe[i] - P.exact(i, P.t0 + 1)); }
	if (e[1] > (m == 3 ? 1e-8 : 1e-10) * P.S) ctx.check(std::log2(e[0] / e[1]) > (P.lk == 2 && m == 4 ? 3.0 : ORD[m] - 0.5), "order", nm, ": ", e[0], " ", e[1]); ctx.nontrivial(); mc::Hash h; h.d(e[1]); ctx.state(h);
}
