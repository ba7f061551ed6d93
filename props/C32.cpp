// Eigenvalue solvers: symmetric Jacobi and QR, general QR; definiteness
// mc-flags: -O2
#include "mc.h"
#include <complex>
#include "mml/algorithms/MatrixAlg.h"
using namespace MML; typedef std::complex<double> Z; typedef std::vector<std::vector<double>> D;
static Matrix<Real> mk(const D& a) { int n = a.size(); Matrix<Real> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = a[i][j]; return m; }
static std::string str(const D& a) { std::string s; char z[40]; for (auto& r : a) { for (double x : r) { snprintf(z, 40, "%g ", x); s += z; } s += "; "; } return s; }
static double nrm(const D& a) { double s = 0; for (auto& r : a) for (double x : r) s += x * x; return std::sqrt(s); }
static mc::Hash hsh(const D& a) { mc::Hash h; h.u(a.size()); for (auto& r : a) for (double x : r) h.d(x); return h; }
// characteristic polynomial (monic, ascending), exact for integer entries
static std::vector<long double> charpoly(const D& a) { int n = a.size(); std::vector<std::vector<long double>> M(n, std::vector<long double>(n)); std::vector<long double> c(n + 1); c[n] = 1; for (int k = 1; k <= n; k++) { auto N = M; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { N[i][j] = i == j ? c[n - k + 1] : 0; for (int q = 0; q < n; q++) N[i][j] += (long double)a[i][q] * M[q][j]; } M = N; long double t = 0; for (int i = 0; i < n; i++) for (int q = 0; q < n; q++) t += (long double)a[i][q] * M[q][i]; c[n - k] = -t / k; } return c; }
// ---- symmetric
template <class R> void symres(mc::Ctx& ctx, const char* w, const D& a, const R& r, double sc, double tol) {
	int n = a.size(); double N = std::max(nrm(a), sc); ctx.check(r.converged, "sym-converge", w, " on ", str(a)); ctx.check(r.eigenvalues.size() == n && r.eigenvectors.rows() == n && r.eigenvectors.cols() == n, "sym-shape", w);
	for (int k = 0; k < n; k++) { double e = 0; for (int i = 0; i < n; i++) { double s = -r.eigenvalues[k] * r.eigenvectors(i, k); for (int j = 0; j < n; j++) s += a[i][j] * r.eigenvectors(j, k); e += s * s; } ctx.check(std::sqrt(e) <= tol * N, "sym-residual", w, " on ", str(a), ": pair ", k, " value ", r.eigenvalues[k], " residual ", std::sqrt(e)); if (k) ctx.check(r.eigenvalues[k - 1] <= r.eigenvalues[k], "sym-order", w, " not ascending"); for (int m = 0; m <= k; m++) { double d = 0; for (int i = 0; i < n; i++) d += r.eigenvectors(i, k) * r.eigenvectors(i, m); ctx.check(std::fabs(d - (m == k)) < 1e-10, "sym-orthonormal", w, " on ", str(a), ": v", m, ".v", k, " = ", d); } }
}
static void symall(mc::Ctx& ctx, const D& a, double sc) {
	int n = a.size(); MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = a[i][j]; auto j1 = SymmMatEigenSolverJacobi::Solve(S, 1e-12 * sc); symres(ctx, "Jacobi", a, j1, sc, 1e-10); auto q1 = SymmMatEigenSolverQR::Solve(S, 1e-12 * std::min(1.0, sc)); symres(ctx, "QR", a, q1, sc, 1e-10); auto M = mk(a); auto j2 = SymmMatEigenSolverJacobi::Solve(M, 1e-12 * sc); auto q2 = SymmMatEigenSolverQR::Solve(M, 1e-12 * std::min(1.0, sc)); for (int i = 0; i < n; i++) ctx.check(j2.eigenvalues[i] == j1.eigenvalues[i] && q2.eigenvalues[i] == q1.eigenvalues[i], "sym-overloads", "matrix and symmetric-matrix forms differ on ", str(a));
	for (int lim = 1; lim <= 2; lim++) { EigenSolverConfig c; c.tolerance = 1e-12 * sc; c.max_iterations = lim; auto r = SymmMatEigenSolverJacobi::Solve(S, c); ctx.check(r.iterations <= lim && (r.status == AlgorithmStatus::Success) == r.converged && r.error_message.empty() == r.converged, "sym-report", "Jacobi limit ", lim); double off = 0; (void)off; auto q = SymmMatEigenSolverQR::Solve(M, c); ctx.check(q.iterations <= lim && (q.status == AlgorithmStatus::Success) == q.converged && q.error_message.empty() == q.converged, "sym-report", "QR limit ", lim); if (r.converged) symres(ctx, "Jacobi limited", a, r, sc, 1e-10); if (q.converged) symres(ctx, "QR limited", a, q, sc, 1e-10); }
	if (sc == 1) { auto c = charpoly(a); int zero = 0; while (zero < n && std::fabs((double)c[zero]) < 1e-9) zero++; int pos = 0, last = 0; for (int i = n; i >= 0; i--) { int s = std::fabs((double)c[i]) < 1e-9 ? 0 : c[i] > 0 ? 1 : -1; if (s) { if (last && s != last) pos++; last = s; } } int neg = n - zero - pos; using namespace MatrixAlg; auto d = ClassifyDefiniteness(S); Definiteness e = neg == 0 && zero == 0 ? Definiteness::PositiveDefinite : neg == 0 && pos > 0 ? Definiteness::PositiveSemiDefinite : pos == 0 && zero == 0 ? Definiteness::NegativeDefinite : pos == 0 && neg > 0 ? Definiteness::NegativeSemiDefinite : Definiteness::Indefinite; if (pos + neg > 0) { ctx.check(d == e && ClassifyDefiniteness(M) == e, "definiteness", str(a), " inertia +", pos, " 0:", zero, " -", neg, " classified ", (int)d); ctx.check(IsPositiveDefinite(S) == (neg + zero == 0) && IsPositiveSemiDefinite(M) == (neg == 0) && IsNegativeDefinite(M) == (pos + zero == 0) && IsNegativeSemiDefinite(S) == (pos == 0) && IsIndefinite(M) == (pos > 0 && neg > 0) && IsPositiveDefinite(M) == (neg + zero == 0) && IsPositiveSemiDefinite(S) == (neg == 0) && IsNegativeDefinite(S) == (pos + zero == 0) && IsNegativeSemiDefinite(M) == (pos == 0) && IsIndefinite(S) == (pos > 0 && neg > 0), "definiteness", "predicates on ", str(a)); } else ctx.check(IsPositiveSemiDefinite(S) && !IsPositiveDefinite(S) && !IsIndefinite(S), "definiteness", "zero matrix"); }
	ctx.state(hsh(a)); ctx.outcome(mc::Hash().d(std::round(j1.eigenvalues[0] / sc * 1e6))); ctx.nontrivial();
}
static D sym(mc::Ctx& ctx, int n, int lo, int hi, double sc) { D a(n, std::vector<double>(n)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a[i][j] = a[j][i] = sc * ctx.range(lo, hi); return a; }
MC_SCENARIO(symmetric_small, 3) { int n = ctx.range(1, 2); double sc = ctx.pick({1.0, 0x1p-8, 0x1p24}); symall(ctx, sym(ctx, n, -3, 3, sc), sc); }
MC_SCENARIO(symmetric_3, 3) { double sc = ctx.pick({1.0, 0x1p-8, 0x1p24}); symall(ctx, sym(ctx, 3, -1, ctx.thorough ? 2 : 1, sc), sc); }
MC_SCENARIO(symmetric_4, 3) { symall(ctx, sym(ctx, 4, 0, 1, 1), 1); }
MC_SCENARIO(symmetric_tridiagonal, 3) { int n = ctx.range(3, ctx.thorough ? 7 : 6); D a(n, std::vector<double>(n)); for (int i = 0; i + 1 < n; i++) a[i][i + 1] = a[i + 1][i] = ctx.pick({0.0, 1.0, 1e-6}); int d = ctx.choose(4); for (int i = 0; i < n; i++) a[i][i] = d == 0 ? 2 : d == 1 ? i : d == 2 ? -3 : (i % 2 ? 5 : -5); symall(ctx, a, 1); }
MC_SCENARIO(symmetric_spectrum, 2) { int n = ctx.range(3, 6); std::vector<double> ev(n); for (int i = 0; i < n; i++) ev[i] = ctx.pick({-1.0, 0.0, 2.0}); D a(n, std::vector<double>(n)); // reflect diag(ev) by I - 2vv^T
	std::vector<double> v(n); double s = 0; for (int i = 0; i < n; i++) { v[i] = 1 + (i * i) % 3; s += v[i] * v[i]; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = 0; for (int k = 0; k < n; k++) x += ev[k] * ((i == k) - 2 * v[i] * v[k] / s) * ((j == k) - 2 * v[j] * v[k] / s); a[i][j] = x; } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i][j] = a[j][i]; symall(ctx, a, 1); auto r = SymmMatEigenSolverJacobi::Solve(mk(a)); std::sort(ev.begin(), ev.end()); for (int i = 0; i < n; i++) ctx.check(std::fabs(r.eigenvalues[i] - ev[i]) < 1e-9, "sym-values", str(a), " value ", i, " = ", r.eigenvalues[i], " expected ", ev[i]); }
// ---- general
static void general(mc::Ctx& ctx, const D& a, double sc = 1) {
	int n = a.size(); auto M = mk(a); auto r = EigenSolver::Solve(M, 1e-12 * (sc < 1 ? sc : 1)); double N = std::max(nrm(a), sc); ctx.check(r.converged, "gen-converge", str(a), " after ", r.iterations); ctx.check((int)r.eigenvalues.size() == n && r.eigenvectors.rows() == n && r.eigenvectors.cols() == n && (int)r.isComplexPair.size() == n, "gen-shape", str(a), ": ", r.eigenvalues.size(), " values");
	if (r.converged && (int)r.eigenvalues.size() == n) { auto c = charpoly(a); std::vector<std::complex<long double>> p = {1}; for (auto& e : r.eigenvalues) { decltype(p) q(p.size() + 1); for (size_t i = 0; i < p.size(); i++) { q[i + 1] += p[i]; q[i] -= p[i] * std::complex<long double>(e.real, e.imag); } p = q; } double f = 1; for (int i = n - 1; i >= 0; i--) { f *= N; ctx.check(std::abs(p[i] - std::complex<long double>(c[i])) <= 1e-8 * f * (n - i), "gen-values", str(a), ": coefficient ", i, " of the characteristic polynomial from the eigenvalues is ", (double)p[i].real(), ", exact ", (double)c[i]); }
		for (int i = 0; i < n; i++) { auto e = r.eigenvalues[i]; ctx.check(r.isComplexPair[i] == (e.imag != 0), "gen-pair", str(a), ": value ", e.real, "+", e.imag, "i marked complex=", (int)r.isComplexPair[i]); if (e.imag > 0) { ctx.check(i + 1 < n && r.eigenvalues[i + 1].real == e.real && r.eigenvalues[i + 1].imag == -e.imag, "gen-pair", str(a), ": conjugate does not follow"); } 
			std::vector<Z> v(n); Z l(e.real, e.imag); double vn = 0; if (e.imag < 0) continue; for (int j = 0; j < n; j++) { v[j] = Z(r.eigenvectors(j, i), e.imag > 0 && i + 1 < n ? r.eigenvectors(j, i + 1) : 0); vn += std::norm(v[j]); } double res = 0; for (int j = 0; j < n; j++) { Z s = -l * v[j]; for (int k = 0; k < n; k++) s += a[j][k] * v[k]; res += std::norm(s); } ctx.check(vn > 1e-3 && vn < 2.1 && std::sqrt(res) <= 1e-9 * N, "gen-vector", str(a), ": value ", e.real, "+", e.imag, "i residual ", std::sqrt(res), " norm ", std::sqrt(vn)); }
		ctx.check(r.maxResidual <= 1e-9 * N, "gen-residual", str(a), " reported residual ", r.maxResidual); }
	EigenSolverConfig c; c.tolerance = 1e-12 * (sc < 1 ? sc : 1); c.max_iterations = 2; auto q = EigenSolver::Solve(M, c); ctx.check((q.status == AlgorithmStatus::Success) == q.converged && q.error_message.empty() == q.converged, "gen-report", "limit 2"); if (q.converged) ctx.check(r.iterations <= 3, "gen-report", "converged within 2 but needs ", r.iterations); if (r.converged && r.iterations > 0) { c.max_iterations = r.iterations + 1; ctx.check(EigenSolver::Solve(M, c).converged, "gen-report", str(a), ": limit one above the iterations needed"); }
	auto h = MatrixAlg::ReduceToHessenberg(M); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double o = 0, s = 0; for (int k = 0; k < n; k++) { o += h.Q(k, i) * h.Q(k, j); for (int m = 0; m < n; m++) s += h.Q(i, k) * h.H(k, m) * h.Q(j, m); } ctx.check(std::fabs(o - (i == j)) < 1e-12 && std::fabs(s - a[i][j]) < 1e-12 * N, "hessenberg", str(a)); if (i > j + 1) ctx.check(std::fabs(h.H(i, j)) <= 1e-15 * N, "hessenberg", "not upper Hessenberg"); }
	ctx.state(hsh(a)); ctx.outcome(mc::Hash().u(r.iterations).d(r.eigenvalues.empty() ? 0 : std::round(r.eigenvalues[0].real / sc * 1e4))); ctx.nontrivial();
}
MC_SCENARIO(general_2, 3) { double sc = ctx.pick({1.0, 0x1p-20, 0x1p24}); D a(2, std::vector<double>(2)); for (auto& r : a) for (auto& x : r) x = sc * ctx.range(-3, 3); general(ctx, a, sc); }
MC_SCENARIO(general_3, 4) { D a(3, std::vector<double>(3)); for (auto& r : a) for (auto& x : r) x = ctx.range(-1, 1); general(ctx, a); }
MC_SCENARIO(general_4, 4) { D a(4, std::vector<double>(4)); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (ctx.thorough || i < 3) a[i][j] = ctx.choose(2); else a[i][j] = (i * j) % 2 + (j == 0); general(ctx, a); }
MC_SCENARIO(general_blocks, 3) { // block triangular: every mix of 1x1, real and complex 2x2 and 3x3 blocks, coupled or not, rotated or not
	int n = 0; D a(7, std::vector<double>(7)); int top = ctx.thorough ? 7 : 6; while (n < top) { int k = ctx.choose(7); if (k == 6) break; int w = k < 2 ? 1 : k < 4 ? 2 : 3; if (n + w > top) ctx.prune(); static const double B[6][9] = {{2}, {-1}, {1, 2, 3, 0}, {1, -2, 2, 1}, {0, 0, 1, 1, 0, 0, 0, 1, 0}, {1, 2, 0, 0, 1, 3, 1, 0, 1}}; for (int i = 0; i < w; i++) for (int j = 0; j < w; j++) a[n + i][n + j] = B[k][i * w + j]; n += w; } if (n == 0) ctx.prune(); a.resize(n); for (auto& r : a) r.resize(n);
	int coup = ctx.choose(3); if (coup) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (a[i][j] == 0 && (coup == 2 || j == i + 2 || j == n - 1)) a[i][j] = ((i + 2 * j) % 5) - 2; int rot = ctx.choose(2); if (rot) { D b = a; std::vector<double> v(n); double s = 0; for (int i = 0; i < n; i++) { v[i] = 1 + i % 2; s += v[i] * v[i]; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = 0; for (int k = 0; k < n; k++) for (int m = 0; m < n; m++) x += ((i == k) - 2 * v[i] * v[k] / s) * a[k][m] * ((m == j) - 2 * v[m] * v[j] / s); b[i][j] = x; } a = b; } general(ctx, a); }
MC_SCENARIO(general_companion, 3) { int n = ctx.range(2, ctx.thorough ? 7 : 5); std::vector<double> c(n); for (auto& x : c) x = ctx.range(-1, 1) * (ctx.thorough ? 1 : 2); int form = ctx.choose(2); D a(n, std::vector<double>(n)); for (int i = 0; i + 1 < n; i++) a[form ? i + 1 : i][form ? i : i + 1] = 1; for (int i = 0; i < n; i++) (form ? a[i][n - 1] : a[n - 1][i]) = c[i]; general(ctx, a); }
MC_SCENARIO(general_permutation, 3) { int n = ctx.range(3, 6); std::vector<int> p(n); std::vector<char> u(n); D a(n, std::vector<double>(n)); for (int i = 0; i < n; i++) { int k = ctx.choose(n - i); for (int j = 0; j < n; j++) if (!u[j] && k-- == 0) { u[j] = 1; a[i][j] = 1; break; } } if (ctx.flag()) a[0][n - 1] -= 1; general(ctx, a); }
MC_SCENARIO(general_graded, 3) { // entries of very different size below the diagonal
	static const double G[] = {0, 1, -1e-4, 1e-8, 1e-12, -1e-16}; D a = {{1, 2, -1, 0.5}, {0, -2, 1, 1}, {0, 0, 3, -1}, {0, 0, 0, 4}}; if (ctx.flag()) for (int i = 0; i < 4; i++) a[i][i] = i < 2 ? 1 : -1; a[1][0] = ctx.pick({1.0, -1.0, 1e-9, 0.0}); for (auto [i, j] : {std::pair<int, int>{2, 0}, {3, 0}, {2, 1}, {3, 1}}) a[i][j] = G[ctx.choose(ctx.thorough || j == 0 ? 6 : 4)]; a[3][2] = ctx.pick({1.0, 0.0, -1e-6}); general(ctx, a); }
