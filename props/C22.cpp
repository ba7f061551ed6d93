// Iterative linear solvers: every iterate is the method's, convergence is reported truthfully
#include "mc.h"
#include "linref.h"
#include "mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"
using namespace MML; using ref::M; using ref::Q;
typedef std::vector<double> VD; typedef IterativeSolverResult R;
static std::string show(const M<int>& m) { std::string s = "["; for (int i = 0; i < m.r; i++) { for (int j = 0; j < m.c; j++) s += std::to_string(m(i, j)) + " "; s += "; "; } return s + "]"; }
static const char* NM[] = {"Jacobi", "GaussSeidel", "SOR"};
static VD sweep(int meth, double om, const M<int>& a, const VD& b, VD x) { VD o = x; int n = a.r; for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) if (j != i) s += a(i, j) * (meth == 0 ? o[j] : x[j]); double g = (b[i] - s) / a(i, i); x[i] = meth == 2 ? (1 - om) * x[i] + om * g : g; } return x; }
static double relres(const M<int>& a, const VD& b, const VD& x) { double r = 0, nb = 0; for (int i = 0; i < a.r; i++) { double t = -b[i]; for (int j = 0; j < a.r; j++) t += a(i, j) * x[j]; r += t * t; nb += b[i] * b[i]; } return std::sqrt(r) / (nb > 0 ? std::sqrt(nb) : 1); }
static R call(int meth, int form, const Matrix<Real>& A, const Vector<Real>& b, double om, const Vector<Real>& x0, double tol, int mi) {
	IterativeSolverConfig c(tol, mi); c.omega = om;
	if (form) return meth == 0 ? JacobiSolver::Solve(A, b, c, x0) : meth == 1 ? GaussSeidelSolver::Solve(A, b, c, x0) : SORSolver::Solve(A, b, c, x0);
	return meth == 0 ? JacobiSolver::Solve(A, b, x0, tol, mi) : meth == 1 ? GaussSeidelSolver::Solve(A, b, x0, tol, mi) : SORSolver::Solve(A, b, om, x0, tol, mi); }
static void run(mc::Ctx& ctx, const M<int>& a, VD b, VD start) {
	int n = a.r; Matrix<Real> A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = a(i, j); Vector<Real> bv(b), x0(start); bool zd = false, dd = true; for (int i = 0; i < n; i++) { int s = 0; for (int j = 0; j < n; j++) if (j != i) s += std::abs(a(i, j)); if (!a(i, i)) zd = true; if (std::abs(a(i, i)) <= s) dd = false; }
	bool spd = a == a.t(); for (int k = 1; k <= n && spd; k++) { M<int> m(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) m(i, j) = a(i, j); spd = ref::det(m) > 0; }
	for (int meth = 0; meth < 3; meth++) for (double om : {1.25, 0.5}) { if (meth < 2 && om != 1.25) continue; for (int form = 0; form < 2; form++) {
		std::string who = std::string(NM[meth]) + " " + show(a); if (zd) { ctx.check(mc::throws([&] { call(meth, form, A, bv, om, x0, 1e-10, 50); }), "zero-diagonal", who, " accepted"); continue; }
		VD x = start.empty() ? VD(n, 0.0) : start; int conv = -1; double tol = 1e-8;
		for (int k = 1; k <= 4; k++) { // limited iterations: exactly the k-th iterate
			if (conv < 0) { x = sweep(meth, om, a, b, x); if (relres(a, b, x) < tol) conv = k; }
			R r = call(meth, form, A, bv, om, x0, tol, k); bool big = false; for (double d : x) big = big || std::fabs(d) > 1e6; if (big) break;
			ctx.check(r.solution.size() == n, "iterate", who); for (int i = 0; i < n; i++) ctx.check(mc::near(r.solution[i], x[i], 1e-9), "iterate", who, " after ", k, ": x", i, " = ", r.solution[i], ", expected ", x[i]);
			double rr = relres(a, b, x); ctx.check(r.converged == (conv > 0), "converged", who, " after ", k, " iterations: converged ", r.converged, " residual ", rr); ctx.check(mc::near(r.residual, rr, 1e-9), "residual", who, " reports ", r.residual, ", is ", rr); ctx.check(r.iterations == (conv > 0 ? conv : k), "iterations", who, " reports ", r.iterations, " of at most ", k);
			if (form) ctx.check(r.algorithm_name == NM[meth] && (r.status == AlgorithmStatus::Success) == r.converged && (r.converged || (r.status == AlgorithmStatus::MaxIterationsExceeded && !r.error_message.empty())) && (meth < 2 || r.omega_used == om), "status", who, " ", ToString(r.status)); }
		if (form) continue;
		R r = call(meth, 0, A, bv, om, x0, 1e-11, 4000); VD y; for (int i = 0; i < n; i++) y.push_back(r.solution[i]); if (r.converged) { ctx.check(relres(a, b, y) < 1.1e-11, "converged", who, " claims convergence with residual ", relres(a, b, y)); std::vector<int> bi(b.begin(), b.end()); std::vector<Q> e; if (ref::solve(a, bi, e)) { double amp = 0; M<Q> inv; ref::inverse(a, inv); for (auto& q : inv.v) amp = std::max(amp, std::fabs(ref::val(q))); for (int i = 0; i < n; i++) ctx.check(std::fabs(y[i] - ref::val(e[i])) <= 1e-9 * (1 + amp * 10), "solution", who, " x", i, " = ", y[i]); } ctx.check(r.iterations >= 1 && r.iterations <= 4000, "iterations", who); }
		if (dd && (meth < 2 || om < 1)) ctx.check(r.converged, "diagonally-dominant", who, " did not converge"); if (spd && meth) ctx.check(r.converged, "positive-definite", who, " omega ", om, " did not converge");
		bool thr = false; Vector<Real> s; try { s = meth == 0 ? JacobiSolver::SolveSimple(A, bv, 1e-11, 4000) : meth == 1 ? GaussSeidelSolver::SolveSimple(A, bv, 1e-11, 4000) : SORSolver::SolveSimple(A, bv, om, 1e-11, 4000); } catch (const ConvergenceError&) { thr = true; }
		R rz = call(meth, 0, A, bv, om, Vector<Real>(), 1e-11, 4000); ctx.check(thr == !rz.converged, "simple", who, " SolveSimple throws ", thr); if (!thr) for (int i = 0; i < n; i++) ctx.check(mc::near(s[i], rz.solution[i], 1e-9), "simple", who); } }
	mc::Hash h; for (int q : a.v) h.u(q + 20); for (double d : b) h.d(d); ctx.state(h); ctx.outcome(mc::Hash().u(zd).u(dd).u(spd)); ctx.nontrivial();
}
MC_SCENARIO(size_1_2, 3) { int n = ctx.range(1, 2); M<int> a(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = i == j ? ctx.range(-4, 4) : ctx.range(-2, 2); VD b; for (int i = 0; i < n; i++) b.push_back(ctx.pick({0, 3, -2})); VD s; int k = ctx.choose(3); if (k) for (int i = 0; i < n; i++) s.push_back(k == 1 ? 1 + i : -b[i]); run(ctx, a, b, s); }
MC_SCENARIO(size_3, 3) { M<int> a(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a(i, j) = i == j ? ctx.pick({5, 2, -3}) : (j > i || ctx.thorough ? ctx.range(-1, 1) : ctx.pick({0, -2})); run(ctx, a, {1, -2, 7}, ctx.flag() ? VD{1, 2, 3} : VD{}); }
MC_SCENARIO(dominant_4, 3) { M<int> a(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a(i, j) = i == j ? (i % 2 ? -5 : 4) + (i == 3) : (i + j == 3 || i == 0) ? ctx.range(-1, 1) : (i * 7 + j * 5) % 3 - 1; run(ctx, a, {1, -2, 7, 4}, {}); }
MC_SCENARIO(optimal_and_arguments, 1) {
	int n = ctx.range(1, 6); Matrix<Real> A(n, n, 0.0); M<int> a(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { a(i, j) = i == j ? 2 : std::abs(i - j) == 1 ? -1 : 0; A(i, j) = a(i, j); } VD b; for (int i = 0; i < n; i++) b.push_back(i % 3 - 1 + (i == 0) * 4); Vector<Real> bv(b);
	R r = SORSolver::SolveOptimal(A, bv); VD y; for (int i = 0; i < n; i++) y.push_back(r.solution[i]); ctx.check(r.converged && relres(a, b, y) < 1e-9, "optimal", "SolveOptimal does not solve the Poisson system of size ", n);
	double om = SORSolver::EstimateOptimalOmega(A, bv); ctx.check(om >= 1 && om < 2, "estimate", om); double best = 1e300; int arg = -1; if (n > 2) { for (int i = 0; i <= 10; i++) { VD x(n, 0.0); for (int k = 0; k < 50 && (relres(a, b, x) > 1e-14 || k == 0); k++) x = sweep(2, 1 + 0.095 * i, a, b, x); double q = relres(a, b, x); if (q < best) best = q, arg = i; } VD x(n, 0.0); for (int k = 0; k < 50; k++) x = sweep(2, om, a, b, x); ctx.check(relres(a, b, x) <= std::max(best * 10, 1e-12), "estimate", "omega ", om, " leaves residual ", relres(a, b, x), ", best sample ", 1 + 0.095 * arg, " leaves ", best); }
	for (double w : {0.0, -0.5, 2.0, 2.5}) ctx.check(mc::throws([&] { SORSolver::Solve(A, bv, w); }), "omega", w, " accepted"); Vector<Real> bad(n + 1); Matrix<Real> rect(n, n + 1, 1.0);
	ctx.check(mc::throws([&] { JacobiSolver::Solve(A, bad, Vector<Real>(), 1e-8, 5); }) && mc::throws([&] { GaussSeidelSolver::Solve(A, bad, Vector<Real>(), 1e-8, 5); }) && mc::throws([&] { SORSolver::Solve(A, bad, 1.1); }) && mc::throws([&] { JacobiSolver::Solve(rect, bv, Vector<Real>(), 1e-8, 5); }) && mc::throws([&] { GaussSeidelSolver::Solve(rect, bv, Vector<Real>(), 1e-8, 5); }) && mc::throws([&] { SORSolver::Solve(rect, bv, 1.1); }), "size", "mismatch accepted");
	ctx.state(n); ctx.outcome(n); ctx.nontrivial(); }
