// mc-flags: -O1
// Factorizations (QR, Cholesky, SVD) and matrix functions: defining identities and exact rational facts on every small matrix
#include "mc.h"
#include "linref.h"
#include "mml/core/MatrixUtils.h"
using namespace MML;
using ref::M; using ref::Q;
typedef std::vector<double> VD; typedef std::vector<int> VI; typedef Matrix<Real> MR;
static std::string show(const M<int>& m) { std::string s = "["; for (int i = 0; i < m.r; i++) { for (int j = 0; j < m.c; j++) s += std::to_string(m(i, j)) + " "; s += "; "; } return s + "]"; }
static double mx(const M<int>& a) { double m = 1; for (int x : a.v) m = std::max(m, (double)std::abs(x)); return m; }
static M<double> D(const MR& a) { M<double> r(a.rows(), a.cols()); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r(i, j) = a(i, j); return r; }
static double dist(const M<double>& a, const M<double>& b) { if (a.r != b.r || a.c != b.c) return 1e300; double m = 0; for (size_t i = 0; i < a.v.size(); i++) { double d = std::fabs(a.v[i] - b.v[i]); if (!(d <= m)) m = d == d ? d : 1e300; } return m; }
static M<double> eye(int n) { M<double> r(n, n); for (int i = 0; i < n; i++) r(i, i) = 1; return r; }
static MR mk(const M<int>& a, double s) { MR m(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) m(i, j) = a(i, j) * s; return m; }
static M<double> dm(const M<int>& a, double s) { return D(mk(a, s)); }
static const double T = 1e-10;
// columns of x span a subspace of dimension k of the vectors orthogonal to everything in the row space of a (a x = 0)
static void orthonormal(mc::Ctx& ctx, const M<double>& q, const char* what, const M<int>& a) { ctx.check(q.c == 0 || dist(q.t() * q, eye(q.c)) <= T, "orthonormal", what, " of ", show(a)); }
static void kills(mc::Ctx& ctx, const M<double>& a, const M<double>& x, const char* what, const M<int>& s, double sc) { if (!x.c) return; M<double> p = a * x; for (double d : p.v) ctx.check(std::fabs(d) <= T * sc, "subspace", what, " of ", show(s), " not mapped to zero"); }
// exact pseudo-inverse solution of least squares: checked through its defining equations
static void lsq(mc::Ctx& ctx, const M<int>& a, double sc, const Vector<Real>& x, const VI& b, const char* who, bool minnorm, const M<double>& null) {
	int m = a.r, n = a.c; ctx.check(x.size() == n, "least-squares", who, " size"); double nx = 1.0 / sc; for (int j = 0; j < n; j++) nx = std::max(nx, std::fabs(x[j])); ctx.check(nx <= 1e4 / sc, "least-squares", who, " ", show(a), ": solution of size ", nx);
	for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) { double r = -b[i]; for (int k = 0; k < n; k++) r += a(i, k) * sc * x[k]; s += a(i, j) * r; } ctx.check(std::fabs(s) <= 1e-8 * mx(a) * mx(a), "least-squares", who, " ", show(a), ": A^T(Ax-b) row ", j, " = ", s); }
	if (minnorm && null.c) for (int c = 0; c < null.c; c++) { double s = 0; for (int j = 0; j < n; j++) s += null(j, c) * x[j]; ctx.check(std::fabs(s) <= 1e-9 * nx, "min-norm", who, " ", show(a), ": component along the null space ", s); }
}
// exact null space basis (columns) as doubles, orthonormalized
static M<double> nullspace(const M<int>& a) {
	M<Q> w = ref::toQ(a); ref::rref(w, a.c); std::vector<int> piv; std::vector<bool> isp(a.c, false); int r = 0; for (int c = 0; c < a.c && r < a.r; c++) if (w(r, c) == Q(1)) { bool lead = true; for (int k = 0; k < c; k++) if (w(r, k) != Q(0)) lead = false; if (lead) { piv.push_back(c); isp[c] = true; r++; } }
	std::vector<VD> B; for (int c = 0; c < a.c; c++) if (!isp[c]) { VD v(a.c, 0.0); v[c] = 1; for (size_t k = 0; k < piv.size(); k++) v[piv[k]] = -ref::val(w(k, c)); for (auto& u : B) { double d = 0; for (int i = 0; i < a.c; i++) d += u[i] * v[i]; for (int i = 0; i < a.c; i++) v[i] -= d * u[i]; } double nn = 0; for (double x : v) nn += x * x; for (double& x : v) x /= std::sqrt(nn); B.push_back(v); }
	M<double> o(a.c, B.size()); for (size_t k = 0; k < B.size(); k++) for (int i = 0; i < a.c; i++) o(i, k) = B[k][i]; return o;
}
static void same_space(mc::Ctx& ctx, const M<double>& x, const M<double>& y, const char* what, const M<int>& a) { // equal projectors
	ctx.check(x.c == y.c && (x.c == 0 || x.r == y.r), "subspace-dimension", what, " of ", show(a), ": ", x.c, " columns, expected ", y.c); ctx.check(x.c == 0 || dist(x * x.t(), y * y.t()) <= 1e-8, "subspace", what, " of ", show(a)); }
static M<double> complement(const M<double>& n) { // orthonormal basis of the orthogonal complement
	std::vector<VD> B; for (int c = 0; c < n.c; c++) { VD v; for (int i = 0; i < n.r; i++) v.push_back(n(i, c)); B.push_back(v); } size_t k0 = B.size();
	for (int c = 0; c < n.r; c++) { VD v(n.r, 0.0); v[c] = 1; for (int p = 0; p < 2; p++) for (auto& u : B) { double d = 0; for (int i = 0; i < n.r; i++) d += u[i] * v[i]; for (int i = 0; i < n.r; i++) v[i] -= d * u[i]; } double nn = 0; for (double x : v) nn += x * x; if (nn < 1e-8) continue; for (double& x : v) x /= std::sqrt(nn); B.push_back(v); }
	M<double> o(n.r, B.size() - k0); for (size_t k = k0; k < B.size(); k++) for (int i = 0; i < n.r; i++) o(i, k - k0) = B[k][i]; return o; }
static void svd(mc::Ctx& ctx, const M<int>& a, double sc) {
	int m = a.r, n = a.c, rk = ref::rank(a); MR A = mk(a, sc); const MR A0(A); M<double> d = dm(a, sc); double sz = mx(a) * sc * std::max(m, n);
	SVDecompositionSolver<Real> s(A); auto w = s.getW(); auto U = D(s.getU()), V = D(s.getV());
	ctx.check(w.size() == n && U.r == m && U.c == n && V.r == n && V.c == n, "svd-shape", show(a)); M<double> S(n, n); for (int i = 0; i < n; i++) { S(i, i) = w[i]; ctx.check(w[i] >= 0 && (i == 0 || w[i] <= w[i - 1]), "svd-order", show(a), " w", i, " = ", w[i]); ctx.check((w[i] > 1e-9 * sz) == (i < rk), "svd-rank", show(a), " singular value ", i, " = ", w[i], ", exact rank ", rk); }
	ctx.check(dist(U * S * V.t(), d) <= T * sz, "svd-product", show(a), " * ", sc, ": U W V^T differs by ", dist(U * S * V.t(), d)); orthonormal(ctx, V, "V", a); M<double> U1(m, rk); for (int i = 0; i < m; i++) for (int j = 0; j < rk; j++) U1(i, j) = U(i, j); orthonormal(ctx, U1, "U", a);
	ctx.check(s.Rank() == rk && s.Nullity() == n - rk && Utils::RankSVD(A) == rk && Utils::Nullity(A) == n - rk, "svd-rank", show(a), " * ", sc, ": Rank ", s.Rank(), ", exact ", rk);
	double ic = rk < n ? 0 : w[n - 1] / w[0]; ctx.check(std::fabs(s.inv_condition() - ic) <= 1e-9, "condition", show(a)); double cn = Utils::ConditionNumber(A); ctx.check(rk == n ? mc::near(cn * ic, 1, 1e-9) : cn > 1e12, "condition", show(a), " condition number ", cn);
	auto res = Utils::ComputeSVD(A); ctx.check(res.rank == rk && dist(D(res.U), U) == 0 && dist(D(res.V), V) == 0 && Utils::SingularValues(A) == w && (rk == n ? mc::near(res.conditionNumber, cn, 1e-12) : res.conditionNumber > 1e12), "svd-wrapper", show(a));
	auto N = nullspace(a), L = nullspace(a.t()); auto C = complement(L), R = complement(N);
	for (int k = 0; k < 2; k++) { auto f = Utils::ComputeFundamentalSubspaces(A); auto cs = D(k ? Utils::ColumnSpace(A) : f.columnSpace), rs = D(k ? Utils::RowSpace(A) : f.rowSpace), ns = D(k ? Utils::NullSpace(A) : f.nullSpace), ls = D(k ? Utils::LeftNullSpace(A) : f.leftNullSpace);
		if (!k) ctx.check(f.rank == rk, "svd-rank", "fundamental subspaces"); orthonormal(ctx, cs, "column space", a); orthonormal(ctx, rs, "row space", a); orthonormal(ctx, ns, "null space", a); orthonormal(ctx, ls, "left null space", a);
		same_space(ctx, cs, C, "column space", a); same_space(ctx, rs, R, "row space", a); same_space(ctx, ns, N, "null space", a); same_space(ctx, ls, L, "left null space", a); }
	ctx.check(dist(D(Utils::Kernel(A)), D(Utils::NullSpace(A))) == 0 && dist(D(Utils::Range(A)), D(Utils::ColumnSpace(A))) == 0, "subspace", "aliases");
	VI b; Vector<Real> bb(m); for (int i = 0; i < m; i++) { b.push_back(i % 2 ? -3 - i : i + 2); bb[i] = b[i]; } auto x = s.Solve(bb); lsq(ctx, a, sc, x, b, "SVD", true, N);
	MR BB(m, 2), X(n, 2); for (int i = 0; i < m; i++) { BB(i, 0) = b[i]; BB(i, 1) = -b[m - 1 - i]; } s.Solve(BB, X); auto x0 = X.VectorFromColumn(0), x1 = X.VectorFromColumn(1); VI b1; for (int i = 0; i < m; i++) b1.push_back(-b[m - 1 - i]); lsq(ctx, a, sc, x0, b, "SVD matrix", true, N); lsq(ctx, a, sc, x1, b1, "SVD matrix", true, N);
	ctx.check(mc::throws([&] { (void)s.Solve(Vector<Real>(m + 1)); }) && mc::throws([&] { MR bad(n + 1, 2); s.Solve(BB, bad); }), "size", "SVD accepted a wrong size");
	auto P = D(Utils::PseudoInverse(A)); ctx.check(P.r == n && P.c == m, "pseudo-inverse", "shape"); M<double> AP = d * P, PA = P * d; ctx.check(dist(AP * d, d) <= 1e-9 * sz && dist(PA * P, P) <= 1e-8 / sc && dist(AP.t(), AP) <= 1e-9 && dist(PA.t(), PA) <= 1e-9, "pseudo-inverse", "Penrose conditions fail for ", show(a));
	ctx.check(A == A0, "argument-changed", ""); mc::Hash h; for (int q : a.v) h.u(q + 40); ctx.state(h.u(m).u(n)); ctx.outcome(mc::Hash().u(rk).u(m).u(n)); ctx.nontrivial();
}
static void qr(mc::Ctx& ctx, const M<int>& a, double sc) {
	int m = a.r, n = a.c, rk = ref::rank(a); MR A = mk(a, sc); double sz = mx(a) * sc * m; M<double> d = dm(a, sc);
	if (m < n) { ctx.check(mc::throws([&] { QRSolver<Real> q(A); }), "qr-shape", "wide matrix accepted"); return; }
	QRSolver<Real> q(A); auto Qm = D(q.GetQ()), R = D(q.GetR()); ctx.check(q.rows() == m && q.cols() == n && Qm.r == m && Qm.c == n && R.r == n && R.c == n, "qr-shape", show(a));
	ctx.check(dist(Qm * R, d) <= T * sz, "qr-product", show(a), " * ", sc, ": QR differs from A by ", dist(Qm * R, d)); orthonormal(ctx, Qm, "Q", a); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) ctx.check(R(i, j) == 0, "qr-triangular", "");
	ctx.check(q.isSingular() == (rk < n), "qr-rank", show(a), " * ", sc, ": singular ", q.isSingular(), ", exact rank ", rk);
	Vector<Real> b(m); VI bi; for (int i = 0; i < m; i++) { bi.push_back((i * 5) % 7 - 2); b[i] = bi[i]; } Vector<Real> t, u; q.QtMultiply(b, t); q.QMultiply(t, u); ctx.check(t.size() == m && u.size() == m, "q-multiply", "size"); for (int i = 0; i < m; i++) ctx.check(std::fabs(u[i] - b[i]) <= T * 10, "q-multiply", "Q Q^T b differs from b"); for (int j = 0; j < n; j++) { double e = 0; for (int i = 0; i < m; i++) e += Qm(i, j) * b[i]; ctx.check(std::fabs(e - t[j]) <= T * 10, "q-multiply", show(a), " Q^T b row ", j); }
	M<double> none(n, 0); if (rk == n) { auto x = q.LeastSquaresSolve(b); lsq(ctx, a, sc, x, bi, "QR", false, none); Vector<Real> y; q.LeastSquaresSolve(b, y); ctx.check(x == y, "least-squares", "forms differ"); Vector<Real> c(n), z; for (int i = 0; i < n; i++) c[i] = i + 1; q.RSolve(c, z); for (int i = 0; i < n; i++) { double s = 0, ns = 1; for (int j = 0; j < n; j++) { s += R(i, j) * z[j]; ns = std::max(ns, std::fabs(R(i, j) * z[j])); } ctx.check(std::fabs(s - c[i]) <= 1e-9 * ns, "r-solve", show(a)); } }
	else ctx.check(mc::throws([&] { (void)q.LeastSquaresSolve(b); }), "singular-accepted", "QR least squares of rank-deficient ", show(a));
	if (m != n) ctx.check(mc::throws([&] { (void)q.Solve(b); }) && mc::throws([&] { (void)q.det(); }) && mc::throws([&] { MR i; q.inverse(i); }), "qr-shape", "square-only operation accepted");
	ctx.check(mc::throws([&] { Vector<Real> o; q.QtMultiply(Vector<Real>(m + 1), o); }) && mc::throws([&] { Vector<Real> o; q.QMultiply(Vector<Real>(m + 1), o); }) && mc::throws([&] { Vector<Real> o; q.RSolve(Vector<Real>(n + 1), o); }), "size", "QR");
}
static M<int> ipow(M<int> a, int k) { M<int> r(a.r, a.r); for (int i = 0; i < a.r; i++) r(i, i) = 1; while (k--) r = r * a; return r; }
static long long tr(const M<int>& a) { long long t = 0; for (int i = 0; i < std::min(a.r, a.c); i++) t += a(i, i); return t; }
static void utils(mc::Ctx& ctx, const M<int>& a, double sc) {
	int m = a.r, n = a.c, rk = ref::rank(a); MR A = mk(a, sc); double fro = 0, inf = 0, one = 0; for (int x : a.v) fro += (double)x * x; for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += std::abs(a(i, j)); inf = std::max(inf, s); } for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += std::abs(a(i, j)); one = std::max(one, s); }
	ctx.check(mc::near(Utils::FrobeniusNorm(A) / sc, std::sqrt(fro), 1e-12) && Utils::InfinityNorm(A) == inf * sc && Utils::OneNorm(A) == one * sc && Utils::Trace(A) == tr(a) * sc, "norms", show(a));
	if (sc == 1) ctx.check(Utils::RankGaussian(A) == rk, "rank-gaussian", show(a), ": ", Utils::RankGaussian(A), ", exact ", rk);
	MR Z(m, n, 0.0); double big = 0; for (int x : a.v) big = std::max(big, (double)std::abs(x)); ctx.check(Utils::MaxAbsDiff(A, Z) == big * sc, "max-diff", "");
	if (m != n) { ctx.check(!Utils::IsSymmetric(A) && !Utils::IsSkewSymmetric(A) && mc::throws([&] { (void)Utils::IsNilpotent(A); }) && mc::throws([&] { (void)Utils::IsUnipotent(A); }), "predicates", "non-square"); return; }
	bool ut = true, lt = true, hs = true, sy = a == a.t(), sk = a == a.t() * -1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (a(i, j) && i > j) { ut = false; if (i > j + 1) hs = false; } if (a(i, j) && i < j) lt = false; }
	if (sc >= 1) { ctx.check(Utils::IsUpperTriangular(A) == ut && Utils::IsLowerTriangular(A) == lt && Utils::IsDiagonal(A) == (ut && lt) && Utils::IsUpperHessenberg(A) == hs && Utils::IsSymmetric(A) == sy && Utils::IsSkewSymmetric(A) == sk, "predicates", show(a));
		M<int> zero(n, n), id = ipow(a, 0); ctx.check(Utils::IsNilpotent(A) == (ipow(a, n) == zero), "nilpotent", show(a), " -> ", Utils::IsNilpotent(A)); if (sc == 1) ctx.check(Utils::IsUnipotent(A) == (ipow(a - id, n) == zero), "unipotent", show(a), " -> ", Utils::IsUnipotent(A)); }
	double dt = ref::det(a), k = std::pow(sc, n); ctx.check(std::fabs(Utils::Det(A) - dt * k) <= 1e-10 * std::fabs(k) * std::pow(mx(a), n), "det", show(a), " = ", Utils::Det(A), ", exact ", dt * k);
	if (n == 1) { MatrixNM<Real, 1, 1> f; f(0, 0) = A(0, 0); ctx.check(Utils::Det(f) == dt * k, "det", "1"); } if (n == 2) { MatrixNM<Real, 2, 2> f; for (int i = 0; i < 4; i++) f(i / 2, i % 2) = A(i / 2, i % 2); ctx.check(mc::near(Utils::Det(f) / k, dt, 1e-12), "det", "2"); }
	if (n == 3) { MatrixNM<Real, 3, 3> f; for (int i = 0; i < 9; i++) f(i / 3, i % 3) = A(i / 3, i % 3); ctx.check(mc::near(Utils::Det(f) / k, dt, 1e-11), "det", "3 fixed ", show(a)); } if (n == 4) { MatrixNM<Real, 4, 4> f; for (int i = 0; i < 16; i++) f(i / 4, i % 4) = A(i / 4, i % 4); ctx.check(std::fabs(Utils::Det(f) / k - dt) <= 1e-10 * std::pow(mx(a), 4), "det", "4 fixed"); }
	if (sc == 1) { PolynomRealFunc p; Real d0; MR inv; bool threw = mc::throws([&] { Utils::FaddeevAlg(A, p, d0, inv); }); // characteristic polynomial: coefficient of x^(n-k) is (-1)^k * sum of principal k-minors
		ctx.check(dt == 0 || !threw, "faddeev", "threw"); if (!threw) { ctx.check(p.degree() == n, "faddeev", "degree"); for (int kk = 0; kk <= n; kk++) { double s = 0; for (int mask = 0; mask < (1 << n); mask++) if (__builtin_popcount(mask) == kk) { std::vector<int> ix; for (int i = 0; i < n; i++) if (mask >> i & 1) ix.push_back(i); M<int> sub(kk, kk); for (int i = 0; i < kk; i++) for (int j = 0; j < kk; j++) sub(i, j) = a(ix[i], ix[j]); s += ref::det(sub); } if (kk % 2) s = -s; ctx.check(std::fabs(p[n - kk] - s) <= 1e-9 * std::pow(mx(a), kk), "faddeev", show(a), " coefficient of x^", n - kk, " = ", p[n - kk], ", exact ", s); }
			ctx.check(std::fabs(d0 - dt) <= 1e-9 * std::pow(mx(a), n), "faddeev", "det"); M<Q> iv; if (ref::inverse(a, iv)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ctx.check(std::fabs(inv(i, j) - ref::val(iv(i, j))) <= 1e-9 * (1 + std::fabs(ref::val(iv(i, j)))), "faddeev", "inverse of ", show(a)); } }
	M<int> q(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q(i, j) = (i * 3 + j * j) % 4 - 1; auto st = D(Utils::SimilarityTransform(mk(q, 1), A)); ctx.check(dist(st, dm(q.t() * a * q, sc)) <= 1e-9 * sc * mx(a) * 20, "similarity", show(a));
}
static void all(mc::Ctx& ctx, const M<int>& a) { double sc = ctx.pick({1.0, 1.0 / (1 << 30), 1048576.0}); svd(ctx, a, sc); qr(ctx, a, sc); utils(ctx, a, sc); }
static void shape(mc::Ctx& ctx, int m, int n, int lo, int hi) { M<int> a(m, n); for (int& x : a.v) x = ctx.range(lo, hi); all(ctx, a); }
MC_SCENARIO(tiny, 3) { static const int S[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}}; auto s = S[ctx.choose(6)]; shape(ctx, s[0], s[1], -3, s[0] * s[1] >= 3 && !ctx.thorough ? 2 : 4); }
MC_SCENARIO(rectangular, 3) { bool t = ctx.flag(); M<int> a(2, 3); for (int& x : a.v) x = ctx.range(-1, ctx.thorough ? 3 : 2); all(ctx, t ? a : a.t()); }
MC_SCENARIO(square_3x3, 4) { M<int> a(3, 3); for (int i = 0; i < 9; i++) a.v[i] = ctx.range(-1, ctx.thorough && i > 5 ? 2 : 1); if (ctx.thorough) { all(ctx, a); return; } svd(ctx, a, 1); qr(ctx, a, 1); utils(ctx, a, 1); }
MC_SCENARIO(rank_patterns, 3) { // sums of outer products: every rank up to 4, values that do not divide exactly, all shapes up to 5
	static const int U[][5] = {{1, 2, 3, 4, 5}, {3, -1, 0, 2, 7}, {0, 0, 1, 0, 3}, {13, 5, -8, 3, 1}, {1, 1, 1, 1, 1}}; int m = ctx.range(1, 5), n = ctx.range(1, 5); M<int> a(m, n);
	int k1 = ctx.choose(6), k2 = ctx.choose(6), k3 = ctx.choose(3), k4 = ctx.thorough ? ctx.choose(3) : 0; for (int t = 0; t < 4; t++) { int k = t == 0 ? k1 : t == 1 ? k2 : t == 2 ? k3 : k4; if (!k) continue; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) += U[k - 1][i] * U[(k + t) % 5][j]; }
	all(ctx, a); }
MC_SCENARIO(cholesky_factor, 3) {
	int n = ctx.range(1, 4); M<int> a(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a(i, j) = a(j, i) = i == j ? ctx.range(n < 4 ? 0 : 1, 4) : ctx.range(-1, n < 4 ? 2 : 0);
	bool pd = true; for (int k = 1; k <= n && pd; k++) { M<int> m(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) m(i, j) = a(i, j); pd = ref::det(m) > 0; }
	bool threw = mc::throws([&] { CholeskySolver<Real> c(mk(a, 1)); auto L = D(c.L()); ctx.check(pd, "cholesky-domain", show(a), " accepted"); ctx.check(L.r == n && dist(L * L.t(), dm(a, 1)) <= T * 10, "cholesky-product", show(a)); for (int i = 0; i < n; i++) { ctx.check(L(i, i) > 0, "cholesky-diagonal", ""); for (int j = i + 1; j < n; j++) ctx.check(L(i, j) == 0, "cholesky-triangular", ""); } });
	ctx.check(threw == !pd, "cholesky-domain", show(a)); mc::Hash h; for (int q : a.v) h.u(q + 9); ctx.state(h.u(n)); ctx.outcome(mc::Hash().u(pd)); ctx.nontrivial(); }
MC_SCENARIO(nilpotent_unipotent_4, 3) { // all strictly triangular 0/1 patterns, with and without identity, under a permutation
	int n = ctx.range(1, ctx.thorough ? 5 : 4); M<int> a(n, n); bool un = ctx.flag(); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) a(i, j) = ctx.choose(2); int rot = ctx.choose(n), low = ctx.flag(); M<int> b(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b((i + rot) % n, (j + rot) % n) = low ? a(j, i) : a(i, j); if (un) for (int i = 0; i < n; i++) b(i, i) = 1; utils(ctx, b, 1);
	mc::Hash h; for (int q : b.v) h.u(q + 9); ctx.state(h.u(n)); ctx.outcome(mc::Hash().u(un)); ctx.nontrivial(); }
