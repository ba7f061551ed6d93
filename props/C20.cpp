// mc-flags: -O1
// Direct linear solvers: exact solution for every small system, singular systems refused
#include "mc.h"
#include "linref.h"
#include "mml/core/LinAlgEqSolvers/LinAlgDirect.h"
#include "mml/core/LinAlgEqSolvers/LinAlgQR.h"
#include "mml/core/LinAlgEqSolvers/LinAlgSVD.h"
using namespace MML;
using ref::M; using ref::Q;
typedef std::vector<double> VD; typedef std::vector<int> VI;
static std::string show(const M<int>& m) { std::string s = "["; for (int i = 0; i < m.r; i++) { for (int j = 0; j < m.c; j++) s += std::to_string(m(i, j)) + " "; s += "; "; } return s + "]"; }
enum { OK = 0, SING = 1, NUM = 2, DIM = 3, OTHER = 4 };
template <class F> static int att(F f) { try { f(); return OK; } catch (const SingularMatrixError&) { return SING; } catch (const MatrixNumericalError&) { return NUM; } catch (const MatrixDimensionError&) { return DIM; } catch (const VectorDimensionError&) { return DIM; } catch (const std::exception&) { return OTHER; } }
static const char* SN[] = {"GaussJordan::SolveConst", "GaussJordan::Solve", "GaussJordan::SolveInPlace(vector)", "GaussJordan::SolveInPlace(matrix)", "LU", "LU bool", "LU matrix", "LUInPlace", "LUInPlace matrix", "QR", "QR LS", "Band", "Band matrix", "Cholesky", "GJ detailed", "LU detailed", "Cholesky detailed", "Band detailed", "SVD", "SVD matrix"};
struct Sys { M<int> a; std::vector<VI> b; double sa = 1, sb = 1; int n() const { return a.r; } };
static double cell(const Sys& s, int i, int j) { return s.a(i, j) * s.sa; }
static BandDiagonalMatrix band(const Sys& s, int extra) { // tightest band (+extra) that holds the matrix
	int n = s.n(), m1 = 0, m2 = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (s.a(i, j)) { m1 = std::max(m1, i - j); m2 = std::max(m2, j - i); }
	m1 = std::min(n - 1, m1 + (extra & 1)); m2 = std::min(n - 1, m2 + (extra >> 1)); Matrix<Real> d(n, m1 + m2 + 1, 99.0);
	for (int i = 0; i < n; i++) for (int k = 0; k <= m1 + m2; k++) { int j = i + k - m1; if (j >= 0 && j < n) d(i, k) = cell(s, i, j); }
	return BandDiagonalMatrix(n, m1, m2, d);
}
template <class F> static bool capture(int& st, F f) { st = att(f); return st == OK; }
static void run(mc::Ctx& ctx, const Sys& s) {
	int n = s.n(), nb = s.b.size(); std::vector<std::vector<Q>> X(nb); bool ok = true; for (int k = 0; k < nb; k++) ok = ref::solve(s.a, s.b[k], X[k]) && ok;
	double f = s.sb / s.sa, tol = 1e-9; bool sym = s.a == s.a.t(); int sg = s.sa > 0 ? 1 : -1; bool pd = sym; for (int k = 1; k <= n && pd; k++) { M<int> m(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) m(i, j) = sg * s.a(i, j); pd = ref::det(m) > 0; }
	Matrix<Real> A(n, n), B(n, nb); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A(i, j) = cell(s, i, j); for (int k = 0; k < nb; k++) B(i, k) = s.b[k][i] * s.sb; } const Matrix<Real> A0(A), B0(B);
	Vector<Real> b(n); for (int i = 0; i < n; i++) b[i] = B(i, 0); const Vector<Real> b0(b);
	auto vec = [&](int who, const Vector<Real>& x, int k = 0) { ctx.check(x.size() == n, "solution", SN[who], " size ", x.size()); for (int i = 0; i < n; i++) { double e = ref::val(X[k][i]) * f; ctx.check(std::fabs(x[i] - e) <= tol * (std::fabs(f) + std::fabs(e)), "solution", SN[who], " ", show(s.a), " * ", s.sa, " rhs ", k, ": x", i, " = ", x[i], ", exact ", e); } };
	auto mat = [&](int who, const Matrix<Real>& x) { ctx.check(x.rows() == n && x.cols() == nb, "solution", SN[who], " shape"); for (int k = 0; k < nb; k++) vec(who, x.VectorFromColumn(k), k); };
	auto sing = [&](int who, int st) { ctx.check(st == SING, "singular-accepted", SN[who], " ", show(s.a), " * ", s.sa, " status ", st); };
	auto verdict = [&](int who, int st, auto use) { if (ok) { ctx.check(st == OK, "regular-refused", SN[who], " ", show(s.a), " * ", s.sa, " status ", st); use(); } else sing(who, st); };
	int st; Vector<Real> x; Matrix<Real> xm;
	{ capture(st, [&] { x = GaussJordanSolver<Real>::SolveConst(A, b); }); verdict(0, st, [&] { vec(0, x); }); }
	{ Matrix<Real> w(A); capture(st, [&] { x = GaussJordanSolver<Real>::Solve(w, b); }); verdict(1, st, [&] { vec(1, x); }); }
	{ Matrix<Real> w(A); x = b; capture(st, [&] { GaussJordanSolver<Real>::SolveInPlace(w, x); }); verdict(2, st, [&] { vec(2, x); }); }
	{ Matrix<Real> w(A); xm = B; capture(st, [&] { GaussJordanSolver<Real>::SolveInPlace(w, xm); }); verdict(3, st, [&] { mat(3, xm); M<Q> inv; ref::inverse(s.a, inv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ctx.check(std::fabs(w(i, j) - ref::val(inv(i, j)) / s.sa) <= tol * (std::fabs(ref::val(inv(i, j))) + 1) / std::fabs(s.sa), "inverse-in-place", "GaussJordan leaves a wrong inverse of ", show(s.a)); }); }
	double dt = (double)ref::det(s.a); for (int i = 0; i < n; i++) dt *= s.sa; double dtol = tol * std::fabs(std::pow(s.sa, n)) * 10;
	{ st = att([&] { LUSolver<Real> lu(A); x = lu.Solve(b); Vector<Real> y(n), z(n - 1); ctx.check(lu.Solve(b, y), "bool", ""); vec(5, y); y = b; ctx.check(lu.Solve(y, y), "bool", "aliased"); vec(5, y); ctx.check(!lu.Solve(b, z) && !lu.Solve(z, y), "size", "LU accepted a vector of the wrong size"); ctx.check(mc::throws([&] { (void)lu.Solve(z); }), "size", "");
		Matrix<Real> o(n, nb); lu.Solve(B, o); mat(6, o); o = B; lu.Solve(o, o); mat(6, o); Matrix<Real> iv; lu.inverse(iv); M<Q> inv; ref::inverse(s.a, inv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ctx.check(std::fabs(iv(i, j) - ref::val(inv(i, j)) / s.sa) <= tol * (std::fabs(ref::val(inv(i, j))) + 1) / std::fabs(s.sa), "inverse", "LU inverse of ", show(s.a));
		ctx.check(std::fabs(lu.det() - dt) <= dtol, "det", "LU det of ", show(s.a), " = ", lu.det(), " expected ", dt); Matrix<Real> bad(n, nb + 1), bad2(n + 1, nb); ctx.check(mc::throws([&] { lu.Solve(B, bad); }) && mc::throws([&] { lu.Solve(bad2, bad); }), "size", "LU matrix sizes"); }); verdict(4, st, [&] { vec(4, x); }); }
	{ Matrix<Real> w(A); st = att([&] { LUSolverInPlace<Real> lu(w); x = lu.Solve(b); Vector<Real> y(n), z(n + 1); ctx.check(lu.Solve(b, y), "bool", ""); vec(7, y); ctx.check(!lu.Solve(b, z), "size", ""); Matrix<Real> BB(B); mat(8, lu.Solve(BB)); }); verdict(7, st, [&] { vec(7, x); }); }
	{ st = att([&] { QRSolver<Real> qr(A); ctx.check(qr.isSingular() == !ok && qr.IsSingular() == !ok, "singular-accepted", "QR isSingular ", qr.isSingular(), " for ", show(s.a), " * ", s.sa); ctx.check(std::fabs(qr.det() - dt) <= dtol, "det", "QR det of ", show(s.a), " = ", qr.det(), " expected ", dt); x = qr.Solve(b); Vector<Real> y = qr.LeastSquaresSolve(b); vec(10, y); Matrix<Real> iv; qr.inverse(iv); M<Q> inv; ref::inverse(s.a, inv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ctx.check(std::fabs(iv(i, j) - ref::val(inv(i, j)) / s.sa) <= tol * (std::fabs(ref::val(inv(i, j))) + 1) / std::fabs(s.sa), "inverse", "QR inverse of ", show(s.a));
		Vector<Real> z(n + 1); ctx.check(mc::throws([&] { (void)qr.Solve(z); }) && mc::throws([&] { (void)qr.LeastSquaresSolve(z); }), "size", "QR"); }); verdict(9, st, [&] { vec(9, x); }); }
	for (int e = 0; e < 4; e++) { auto bd = band(s, e); st = att([&] { BandDiagonalSolver bs(bd); x = bs.Solve(b); mat(12, bs.Solve(B)); Vector<Real> z(n + 1), y(n); ctx.check(!bs.Solve(b, z) && mc::throws([&] { (void)bs.Solve(z); }), "size", "band"); y = b; ctx.check(bs.Solve(y, y), "bool", ""); vec(11, y); ctx.check(std::fabs(bs.Det() - dt) <= dtol, "det", "band det of ", show(s.a), " = ", bs.Det(), " expected ", dt); }); verdict(11, st, [&] { vec(11, x); }); }
	if (sym || s.sa == 1) { st = att([&] { CholeskySolver<Real> ch(A); ctx.check(pd, "cholesky-domain", "Cholesky accepts ", show(s.a), " * ", s.sa); x = ch.Solve(b); ctx.check(mc::near(ch.logdet(), std::log(dt), 1e-9), "det", "Cholesky logdet"); Matrix<Real> iv; ch.inverse(iv); M<Q> inv; ref::inverse(s.a, inv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ctx.check(std::fabs(iv(i, j) - ref::val(inv(i, j)) / s.sa) <= tol * (std::fabs(ref::val(inv(i, j))) + 1) / std::fabs(s.sa), "inverse", "Cholesky inverse of ", show(s.a)); Vector<Real> y; ch.Solve(b, y); vec(13, y); ctx.check(mc::throws([&] { (void)ch.Solve(Vector<Real>(n + 1)); }), "size", "Cholesky"); });
		ctx.check((st == OK) == (pd), "cholesky-domain", "Cholesky status ", st, " for ", show(s.a), " * ", s.sa); if (pd) vec(13, x); else ctx.check(st == (sym ? SING : DIM), "cholesky-domain", "wrong error ", st); }
	{ st = att([&] { SVDecompositionSolver<Real> sv(A); x = sv.Solve(b); Matrix<Real> o(n, nb); sv.Solve(B, o); if (ok) mat(19, o); }); ctx.check(st == OK, "svd", "status ", st, " for ", show(s.a)); if (ok) vec(18, x); }
	// detailed variants: the exception becomes the status, or propagates
	for (int pol = 0; pol < 2; pol++) { LinearSolverConfig c; c.exception_policy = pol ? EvaluationExceptionPolicy::ConvertToStatus : EvaluationExceptionPolicy::Propagate; c.estimate_error = true;
		auto det = [&](int who, const char* name, auto call) { LinearSolverResult<Real> r; int q = att([&] { r = call(c); }); if (ok) { ctx.check(q == OK && r.status == AlgorithmStatus::Success && r.IsSuccess() && (bool)r && r.algorithm_name == name && r.error_message.empty(), "detailed", SN[who], " failed"); vec(who, r.solution); double rn = 0; for (int i = 0; i < n; i++) { double t = -b[i]; for (int j = 0; j < n; j++) t += A(i, j) * r.solution[j]; rn += t * t; } ctx.check(std::fabs(r.residual_norm - std::sqrt(rn)) <= 1e-12 * std::fabs(s.sb), "detailed-residual", SN[who], " ", r.residual_norm, " vs ", std::sqrt(rn)); }
			else if (pol) ctx.check(q == OK && r.status == AlgorithmStatus::SingularMatrix && !r.IsSuccess() && !r && r.algorithm_name == name && !r.error_message.empty(), "detailed-singular", SN[who], " status ", ToString(r.status), " for ", show(s.a)); else sing(who, q); };
		det(14, "GaussJordanSolver", [&](auto& c) { return GaussJordanSolveDetailed<Real>(A, b, c); }); det(15, "LUSolver", [&](auto& c) { return LUSolveDetailed<Real>(A, b, c); });
		auto bd = band(s, 0); det(17, "BandDiagonalSolver", [&](auto& c) { return BandDiagonalSolveDetailed(bd, b, c); });
		if (pd) det(16, "CholeskySolver", [&](auto& c) { return CholeskySolveDetailed<Real>(A, b, c); }); }
	ctx.check(A == A0 && B == B0 && b == b0, "argument-changed", "a const argument was modified");
	mc::Hash h; for (int q : s.a.v) h.u(q + 50); ctx.state(h.d(s.sa).d(s.sb)); ctx.outcome(mc::Hash().u(ok).u(pd)); ctx.nontrivial();
}
static void rhs(Sys& s) { int n = s.n(); VI b1, b2(n, 0), b3(n, 0); for (int i = 0; i < n; i++) b1.push_back(i % 2 ? -i - 2 : i + 1); b2[n - 1] = 3; s.b = {b1, b2, b3}; }
static void scale(mc::Ctx& ctx, Sys& s) { static const double k[] = {1, 1.0 / (1 << 20) / (1 << 20) / (1 << 20), -(double)(1 << 30)}; s.sa = k[ctx.choose(3)]; s.sb = s.sa == 1 ? 1 : 4; }
MC_SCENARIO(all_2x2, 3) { Sys s; s.a = M<int>(2, 2); for (int& x : s.a.v) x = ctx.range(-3, ctx.thorough ? 6 : 3); rhs(s); scale(ctx, s); run(ctx, s); }
MC_SCENARIO(all_3x3, 4) { Sys s; s.a = M<int>(3, 3); for (int i = 0; i < 9; i++) s.a.v[i] = ctx.range(-1, ctx.thorough && i >= 4 ? 2 : 1); rhs(s); if (ctx.thorough) scale(ctx, s); run(ctx, s); }
MC_SCENARIO(rows_3x3, 3) { // dependent rows and columns with entries that do not divide exactly
	static const int R[][3] = {{1, 2, 3}, {2, 4, 6}, {4, 5, 6}, {7, 8, 9}, {3, 1, 7}, {-9, -3, -21}, {0, 0, 0}, {0, 0, 5}, {13, 11, 17}}; Sys s; s.a = M<int>(3, 3); bool tr = ctx.flag();
	for (int i = 0; i < 3; i++) { int k = ctx.choose(9); for (int j = 0; j < 3; j++) s.a(i, j) = R[k][j]; } if (tr) s.a = s.a.t(); rhs(s); scale(ctx, s); run(ctx, s); }
MC_SCENARIO(binary_4x4, 4) { Sys s; s.a = M<int>(4, 4); int free = ctx.thorough ? 16 : 12; for (int i = 0; i < 16; i++) s.a.v[i] = i < free ? ctx.choose(2) : (i % 5 ? 1 : 3); rhs(s); run(ctx, s); }
MC_SCENARIO(symmetric_4x4, 3) { Sys s; s.a = M<int>(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j <= i; j++) s.a(i, j) = s.a(j, i) = i == j ? ctx.range(1, ctx.thorough ? 4 : 3) : ctx.range(-1, i == 3 && !ctx.thorough ? 0 : 1); rhs(s); run(ctx, s); }
MC_SCENARIO(size_1_and_5, 2) {
	if (ctx.flag()) { Sys s; s.a = M<int>(1, 1); s.a(0, 0) = ctx.range(-3, 3); rhs(s); scale(ctx, s); run(ctx, s); return; }
	// 5x5 permuted band matrices: every permutation of rows forces another pivot sequence
	Sys s; s.a = M<int>(5, 5); int u = ctx.choose(3); bool used[5] = {}; for (int i = 0; i < 5; i++) { int p = ctx.choose(5); if (used[p]) { ctx.prune(); return; } used[p] = true; for (int j = 0; j < 5; j++) if (std::abs(p - j) <= 1 + (u == 2)) s.a(i, j) = p == j ? 4 - u : (j > p ? -1 - u : 2); } rhs(s); scale(ctx, s); run(ctx, s); }
MC_SCENARIO(complex_2x2, 3) { // complex systems against the equivalent real one of twice the size
	static const int V[][2] = {{0, 0}, {1, 0}, {0, 1}, {-1, 0}, {1, -2}, {2, 1}}; int nv = 6, n = 2; M<int> r(4, 4); Matrix<Complex> a(2, 2); Vector<Complex> b({Complex(1, 2), Complex(0, -3)}); VI rb = {1, 0, 2, -3};
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { auto v = V[ctx.choose(nv)]; a(i, j) = Complex(v[0], v[1]); r(i, j) = r(i + 2, j + 2) = v[0]; r(i, j + 2) = -v[1]; r(i + 2, j) = v[1]; }
	std::vector<Q> x; bool ok = ref::solve(r, rb, x); std::vector<Q> y; Vector<Complex> g; int st;
	auto chk = [&](const char* who, int st, const Vector<Complex>& g) { if (!ok) { ctx.check(st == SING, "singular-accepted", who, " complex ", show(r)); return; } ctx.check(st == OK && g.size() == n, "regular-refused", who, " complex ", show(r)); for (int i = 0; i < n; i++) ctx.check(std::abs(g[i] - Complex(ref::val(x[i]), ref::val(x[i + 2]))) <= 1e-10 * (1 + std::abs(g[i])), "solution", who, " complex ", show(r)); };
	st = att([&] { g = GaussJordanSolver<Complex>::SolveConst(a, b); }); chk("GaussJordan", st, g);
	st = att([&] { LUSolver<Complex> lu(a); g = lu.Solve(b); Complex d = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); ctx.check(std::abs(lu.det() - d) <= 1e-10, "det", "complex"); }); chk("LU", st, g);
	st = att([&] { Matrix<Complex> w(a); LUSolverInPlace<Complex> lu(w); g = lu.Solve(b); }); chk("LUInPlace", st, g);
	mc::Hash h; for (int q : r.v) h.u(q + 9); ctx.state(h); ctx.outcome(mc::Hash().u(ok)); ctx.nontrivial(); }
MC_SCENARIO(shapes_and_nonfinite, 2) {
	int R = ctx.choose(4), C = ctx.choose(4), L = ctx.choose(4), bad = ctx.choose(3); Matrix<Real> a(R, C, 0.0); for (int i = 0; i < std::min(R, C); i++) a(i, i) = i + 2; Vector<Real> b(L, 1.0); Matrix<Real> bm(L, 1, 1.0);
	bool shape = R == C && R > 0 && L == R; if (bad && R == C && R) { a(R - 1, 0) = bad == 1 ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity(); shape = false; }
	auto t = [&](const char* w, auto f) { int s = att(f); ctx.check((s == OK) == shape, "shape", w, " accepted ", R, "x", C, " rhs ", L, " bad ", bad, " -> ", s); };
	if (!bad) { t("GJ const", [&] { (void)GaussJordanSolver<Real>::SolveConst(a, b); }); t("GJ", [&] { auto w = a; (void)GaussJordanSolver<Real>::Solve(w, b); }); t("GJ in place", [&] { auto w = a; auto x = b; GaussJordanSolver<Real>::SolveInPlace(w, x); }); t("GJ mat", [&] { auto w = a; auto x = bm; GaussJordanSolver<Real>::SolveInPlace(w, x); }); t("Cholesky", [&] { CholeskySolver<Real> c(a); (void)c.Solve(b); }); t("QR", [&] { if (!R || !C) throw MatrixDimensionError("empty", 0, 0, 0, 0); QRSolver<Real> q(a); (void)q.Solve(b); }); }
	t("LU", [&] { LUSolver<Real> l(a); (void)l.Solve(b); }); t("LU in place", [&] { auto w = a; LUSolverInPlace<Real> l(w); (void)l.Solve(b); });
	if (!bad) { LinearSolverConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = GaussJordanSolveDetailed<Real>(a, b, c); auto l = LUSolveDetailed<Real>(a, b, c); ctx.check((r.status == AlgorithmStatus::Success) == shape && (l.status == AlgorithmStatus::Success) == shape && (shape || (r.status == AlgorithmStatus::InvalidInput && l.status == AlgorithmStatus::InvalidInput)), "detailed-shape", ToString(r.status), " ", ToString(l.status)); }
	ctx.state(mc::Hash().u(R).u(C).u(L).u(bad)); ctx.outcome(mc::Hash().u(shape)); ctx.nontrivial();
}
// undefined elements anywhere: an error or an undefined solution, never a crash or a finite answer
MC_SCENARIO(undefined_elements, 2) {
	int n = 1 + ctx.choose(ctx.thorough ? 4 : 3), cells = n * n, where = ctx.choose(cells + 2); Matrix<Real> A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = i == j ? n + 1 : (i + 2 * j) % 3; if (where < cells) A(where / n, where % n) = NAN; else if (where == cells) for (int i = 0; i < cells; i++) A(i / n, i % n) = NAN; Vector<Real> b(n, 1.0); if (where == cells + 1) { b[n - 1] = NAN; }
	auto fin = [&](const char* w, auto f) { Vector<Real> x; int s = att([&] { x = f(); }); bool all = s == OK && x.size() == n; if (all) for (int i = 0; i < n; i++) all = all && std::isfinite(x[i]); ctx.check(!all, "undefined", w, " n=", n, " undefined at ", where); };
	fin("GaussJordan", [&] { return GaussJordanSolver<Real>::SolveConst(A, b); }); fin("LU", [&] { LUSolver<Real> l(A); return l.Solve(b); }); fin("LU in place", [&] { Matrix<Real> w(A); LUSolverInPlace<Real> l(w); return l.Solve(b); }); fin("QR", [&] { QRSolver<Real> q(A); return q.Solve(b); }); if (where >= cells || where / n <= where % n) fin("Cholesky", [&] { CholeskySolver<Real> c(A); return c.Solve(b); }); // needs the upper triangle only
	ctx.state(mc::Hash().u(n).u(where)); ctx.nontrivial();
}
