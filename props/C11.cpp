// MatrixSym, TridiagonalMatrix, BandDiagonalMatrix behave as the dense matrix they represent
#include "mc.h"
#include "linref.h"
#include "mml/base/Matrix/MatrixSym.h"
#include "mml/base/Matrix/MatrixTriDiag.h"
#include "mml/base/Matrix/MatrixBandDiag.h"
using namespace MML;
using ref::M;
typedef std::vector<double> VD;
static bool eq(double a, double b) { return mc::near(a, b, 1e-12); }
template <class A> static bool same(const A& a, const M<double>& r) { for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) if (!eq(a(i, j), r(i, j))) return false; return true; }
template <class V> static bool samev(const V& a, const VD& r) { if ((size_t)a.size() != r.size()) return false; for (size_t i = 0; i < r.size(); i++) if (!eq(a[i], r[i])) return false; return true; }
static Matrix<double> mk(const M<double>& r) { Matrix<double> m(r.r, r.c); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) m(i, j) = r(i, j); return m; }
static VD mul(const M<double>& a, const VD& x) { VD y(a.r, 0.0); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) y[i] += a(i, j) * x[j]; return y; }
static double fro(const M<double>& a) { double s = 0; for (double x : a.v) s += x * x; return std::sqrt(s); }
static double ninf(const M<double>& a) { double m = 0; for (int i = 0; i < a.r; i++) { double s = 0; for (int j = 0; j < a.c; j++) s += std::fabs(a(i, j)); m = std::max(m, s); } return m; }
static double tr(const M<double>& a) { double s = 0; for (int i = 0; i < a.r; i++) s += a(i, i); return s; }
static const double P[] = {2, -3, 5, 0, 7, -1, 4, 11, -6, 1, 3, 8, -9, 13, -2};
static Vector<double> vec(const VD& v) { return Vector<double>(v); }
static const double full(int i, int j) { return P[(3 * i + 5 * j) % 15]; }

MC_SCENARIO(symmetric, 4) {
	int n = ctx.choose(5); M<double> r(n, n); int how = ctx.choose(4); MatrixSym<double> a(n);
	M<double> g(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g(i, j) = full(i, j);
	if (how == 0) { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { r(i, j) = r(j, i) = full(i, j); if ((i + j) % 2) a(i, j) = full(i, j); else a(j, i) = full(i, j); } }
	else if (how == 1) { a = MatrixSym<double>::FromLower(mk(g)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) r(i, j) = r(j, i) = g(i, j); }
	else if (how == 2) { a = MatrixSym<double>::FromUpper(mk(g)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) r(i, j) = r(j, i) = g(i, j); }
	else { a = MatrixSym<double>::FromFullMatrix(mk(g)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = (g(i, j) + g(j, i)) / 2; }
	int depth = ctx.thorough ? 3 : 2;
	for (int k = 0; k < depth; k++) {
		ctx.step(); n = r.r; M<double> b(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b(i, j) = P[(std::max(i, j) * 2 + std::min(i, j) + k) % 15]; auto B = MatrixSym<double>::FromLower(mk(b));
		switch (ctx.choose(13)) {
			case 0: a += B; r = r + b; break;
			case 1: a -= B; r = r - b; break;
			case 2: a = a + B * 2.0; r = r + b * 2.0; break;
			case 3: a = 3.0 * a - B; r = r * 3.0 - b; break;
			case 4: a *= 5; r = r * 5.0; break;
			case 5: if (n && r(n - 1, n - 1)) { double s = r(n - 1, n - 1); a /= a(n - 1, n - 1); for (auto& x : r.v) x /= s; } break;
			case 6: a = -a; r = r * -1.0; break;
			case 7: { int m = n + 1; a.Resize(m, true); M<double> q(m, m); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q(i, j) = r(i, j); r = q; break; }
			case 8: { int m = n / 2; a.Resize(m, true); M<double> q(m, m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) q(i, j) = r(i, j); r = q; break; }
			case 9: if (n > 1) { a(0, n - 1) = 42; r(0, n - 1) = r(n - 1, 0) = 42; a.at(n - 1, n - 2) = 17; r(n - 1, n - 2) = r(n - 2, n - 1) = 17; } break;
			case 10: { MatrixSym<double> t(std::move(a)); ctx.check(a.Dim() == 0 && a.empty(), "sym-moved", ""); a = t; MatrixSym<double> u; u = std::move(t); a = u; break; }
			case 11: { int m = (n + 1) % 4; a.Resize(m); M<double> q(m, m); if (m == n) q = r; r = q; break; }
			case 12: { MatrixSym<double> w(n + 1); ctx.check(mc::throws([&] { a += w; }) && mc::throws([&] { a -= w; }) && mc::throws([&] { (void)(a + w); }) && mc::throws([&] { (void)(a - w); }) && mc::throws([&] { (void)(a * w); }) && !a.IsEqualTo(w), "sym-shape", "size mismatch accepted"); break; }
		}
		n = r.r; ctx.check(a.Dim() == n && a.rows() == n && a.cols() == n && same(a, r) && a.size() == (size_t)n * (n + 1) / 2, "sym-content", "dim ", n);
	}
	for (int i = -1; i <= n; i++) for (int j = -1; j <= n; j++) if (i < 0 || j < 0 || i == n || j == n) ctx.check(mc::throws([&] { (void)a.at(i, j); }), "sym-at", i, ",", j); else ctx.check(eq(a.at(i, j), r(i, j)), "sym-at", i, ",", j);
	auto D = a.GetAsMatrix(); ctx.check(D.rows() == n && same(D, r), "sym-dense", "");
	ctx.check(eq(a.Trace(), tr(r)) && eq(a.NormFrobenius(), fro(r)) && eq(a.NormInf(), ninf(r)) && eq(a.Norm1(), ninf(r)), "sym-norms", "");
	VD x; for (int i = 0; i < n; i++) x.push_back(i + 1 + (i == 2)); VD d; for (int i = 0; i < n; i++) d.push_back(r(i, i));
	ctx.check(samev(a * vec(x), mul(r, x)) && samev(vec(x) * a, mul(r, x)) && samev(a.VectorFromDiagonal(), d), "sym-vector", "");
	for (int i = 0; i < n; i++) { VD row; for (int j = 0; j < n; j++) row.push_back(r(i, j)); ctx.check(samev(a.VectorFromRow(i), row) && samev(a.VectorFromColumn(i), row), "sym-rows", i); }
	ctx.check(mc::throws([&] { a.VectorFromRow(n); }) && mc::throws([&] { a.VectorFromColumn(-1); }), "sym-rows", "out of range accepted");
	if (n) { M<double> g2(n, 2); for (int i = 0; i < n; i++) { g2(i, 0) = i - 1; g2(i, 1) = P[i]; } auto pr = a * mk(g2); ctx.check(pr.cols() == 2 && same(pr, r * g2), "sym-product", ""); ctx.check(same(a * a, r * r), "sym-product", "");
		ctx.check(mc::throws([&] { (void)(a * vec(VD(n + 1))); }) && mc::throws([&] { (void)(vec(VD(n + 1)) * a); }) && mc::throws([&] { (void)(a * Matrix<double>(n + 1, 1)); }), "sym-shape", "size mismatch accepted");
		MatrixSym<double> c(a); ctx.check(c.IsEqualTo(a), "sym-equal", ""); c(n - 1, 0) += 1; ctx.check(!c.IsEqualTo(a), "sym-equal", "difference not seen"); }
	ctx.check(mc::throws([&] { MatrixSym<double> q(-1); }), "sym-negative", "");
	mc::Hash h; for (double q : r.v) h.d(q); ctx.state(h); ctx.outcome(mc::Hash().u(n).u(how)); ctx.nontrivial();
}
// unused corners of the storage hold junk
static TridiagonalMatrix<double> tri(const M<double>& r, double junk) { int n = r.r; Vector<double> a(n), d(n), c(n); for (int i = 0; i < n; i++) { a[i] = i ? r(i, i - 1) : junk; d[i] = r(i, i); c[i] = i + 1 < n ? r(i, i + 1) : junk; } return TridiagonalMatrix<double>(n, a, d, c); }
MC_SCENARIO(tridiagonal, 4) {
	int n = 3 + ctx.choose(3); M<double> r(n, n); int seed = ctx.choose(3);
	for (int i = 0; i < n; i++) for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); j++) r(i, j) = P[(3 * i + j + seed * 4) % 15];
	TridiagonalMatrix<double> a = tri(r, ctx.choose(2) ? 99 : 0);
	for (int k = 0; k < 2; k++) {
		M<double> b(n, n); for (int i = 0; i < n; i++) for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); j++) b(i, j) = P[(i + 2 * j + k) % 15]; auto B = tri(b, -7);
		switch (ctx.choose(6)) {
			case 0: a = a + B; r = r + b; break; case 1: a = a - B; r = r - b; break; case 2: a = a * 3.0; r = r * 3.0; break; case 3: a = -2.0 * a; r = r * -2.0; break; case 4: a = a / 4.0; for (auto& x : r.v) x /= 4; break;
			case 5: a = a.GetTranspose(); r = r.t(); break;
		}
		const auto& ca = a; ctx.check(ca.rows() == n && ca.cols() == n && same(ca, r), "tri-content", "dim ", n);
	}
	auto same2 = tri(r, 5), other = tri(r, 6); ctx.check(a.IsEqualTo(same2), "tri-equal", "equal matrices compare different"); for (int i = 0; i < n; i++) for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); j++) { auto c = other; c(i, j) += 1; ctx.check(!a.IsEqualTo(c), "tri-equal", "difference at ", i, ",", j, " not seen"); }
	ctx.check(mc::throws([&] { a(0, n - 1) = 1; }) && mc::throws([&] { a(2, 0) = 1; }), "tri-write-outside", "write outside the band accepted");
	M<double> w(n + 1, n + 1); auto W = tri(w, 0); ctx.check(mc::throws([&] { (void)(a + W); }) && mc::throws([&] { (void)(a - W); }) && !a.IsEqualTo(W), "tri-shape", "");
	ctx.check(mc::throws([&] { TridiagonalMatrix<double> t(n, vec(VD(n - 1)), vec(VD(n)), vec(VD(n))); }) && mc::throws([&] { TridiagonalMatrix<double> t(n, {1, 2, 3}); }) && mc::throws([&] { a.Solve(vec(VD(n - 1, 1.0))); }), "tri-sizes", "wrong sizes accepted");
	mc::Hash h; for (double q : r.v) h.d(q); ctx.state(h); ctx.outcome(mc::Hash().u(n)); ctx.nontrivial();
}
// Solve: the solution satisfies the system, or the matrix was refused because a leading principal minor vanishes
MC_SCENARIO(tridiagonal_solve, 5) {
	int n = 3; static const std::vector<int> A = {-1, 0, 1, 2}; M<int> r(n, n); for (int i = 0; i < n; i++) for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); j++) r(i, j) = i == 0 && j == 0 ? ctx.pick({0, 1, 3}) : i == j ? ctx.pick({-1, 0, 2, 3}) : ctx.pick(A);
	M<double> rd(n, n); for (size_t i = 0; i < r.v.size(); i++) rd.v[i] = r.v[i];
	auto a = tri(rd, 55); std::vector<int> b = {1, -2, 4}; VD bd(b.begin(), b.end()); bool minor0 = false; for (int k = 1; k <= n; k++) { M<int> m(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) m(i, j) = r(i, j); if (!ref::det(m)) minor0 = true; }
	bool refused = false; Vector<double> x(n); try { x = a.Solve(vec(bd)); } catch (const SingularMatrixError&) { refused = true; }
	ctx.check(refused == minor0, refused ? "tri-solve-refused" : "tri-solve-singular", "leading minors nonzero: ", !minor0);
	if (!refused) { std::vector<ref::Q> q; ref::solve(r, b, q); for (int i = 0; i < n; i++) ctx.check(mc::near(x[i], ref::val(q[i]), 1e-9), "tri-solution", "x[", i, "]=", x[i], " expected ", ref::val(q[i])); }
	mc::Hash h; for (int q : r.v) h.u(q); ctx.state(h); ctx.outcome(mc::Hash().u(refused)); ctx.nontrivial();
}
static BandDiagonalMatrix band(const M<double>& r, int m1, int m2, double junk) { int n = r.r; Matrix<double> d(n, m1 + m2 + 1); for (int i = 0; i < n; i++) for (int k = 0; k <= m1 + m2; k++) { int j = i + k - m1; d(i, k) = j >= 0 && j < n ? r(i, j) : junk; } return BandDiagonalMatrix(n, m1, m2, d); }
MC_SCENARIO(banded, 4) {
	int n = 1 + ctx.choose(5), m1 = ctx.choose(3), m2 = ctx.choose(3); bool symv = m1 == m2 && ctx.flag(); if (m1 >= n || m2 >= n) { ctx.prune(); return; }
	auto gen = [&](int s) { M<double> r(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i - j <= m1 && j - i <= m2) r(i, j) = symv ? P[(std::max(i, j) + 3 * std::min(i, j) + s) % 15] : P[(3 * i + 5 * j + s) % 15]; return r; };
	M<double> r = gen(0), b = gen(4); auto a = band(r, m1, m2, 77), B = band(b, m1, m2, -5); int M1 = m1, M2 = m2;
	for (int k = 0; k < (ctx.thorough ? 3 : 2); k++) {
		bool compat = M1 == m1 && M2 == m2;
		int op = ctx.choose(9); if (!compat && op < 2) { ctx.check(mc::throws([&] { a += B; }) && mc::throws([&] { (void)(a - B); }), "band-shape", "different bands accepted"); continue; }
		switch (op) {
			case 0: if (k) { a += B; r = r + b; } else { a = a + B; r = r + b; } break;
			case 1: if (k) { a -= B; r = r - b; } else { a = a - B; r = r - b; } break;
			case 2: a = a * 3.0; r = r * 3.0; break; case 3: a = -2.0 * a; r = r * -2.0; break; case 4: a *= 5.0; r = r * 5.0; break; case 5: a /= 4.0; for (auto& x : r.v) x /= 4; break; case 6: a = -a; r = r * -1.0; break;
			case 7: a = a.Transpose(); r = r.t(); std::swap(M1, M2); break;
			case 8: a = a / 2.0; for (auto& x : r.v) x /= 2; break;
		}
		ctx.step(); const auto& ca = a; ctx.check(same(ca, r), "band-content", "n=", n, " m1=", M1, " m2=", M2);
	}
	const auto& ca = a; ctx.check(ca.GetDimension() == n && ca.GetLowerBandwidth() == M1 && ca.GetUpperBandwidth() == M2, "band-shape", "");
	auto F = ca.ToFullMatrix(); ctx.check(F.rows() == n && same(F, r), "band-dense", "");
	VD x; for (int i = 0; i < n; i++) x.push_back(1 + i * i); ctx.check(samev(ca * vec(x), mul(r, x)), "band-vector", "n=", n, " m1=", M1, " m2=", M2); ctx.check(mc::throws([&] { (void)(ca * vec(VD(n + 1))); }), "band-vector-size", "");
	ctx.check(eq(ca.Trace(), tr(r)) && eq(ca.NormFrobenius(), fro(r)) && eq(ca.NormInf(), ninf(r)), "band-norms", "trace/Frobenius/Inf");
	bool sym = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (r(i, j) != r(j, i)) sym = false; bool in = i - j <= M1 && j - i <= M2; ctx.check(ca.IsInBand(i, j) == in, "band-membership", i, ",", j); if (!in) ctx.check(mc::throws([&] { a(i, j) = 1; }), "band-write-outside", i, ",", j); }
	if (M1 == M2) ctx.check(ca.IsSymmetric() == sym, "band-symmetric", "");
	for (int k = -M2 - 1; k <= M1 + 1; k++) { if (k < -M2 || k > M1) { ctx.check(mc::throws([&] { ca.GetDiagonal(k); }), "band-diagonal-range", k); continue; } VD d; for (int i = 0; i < n; i++) { int j = i - k; if (j >= 0 && j < n) d.push_back(r(i, j)); } ctx.check(samev(ca.GetDiagonal(k), d), "band-diagonal", k); }
	auto E = band(r, M1, M2, 1234); ctx.check(ca.IsEqualTo(E), "band-equal", "equal matrices compare different"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (ca.IsInBand(i, j)) { auto c = E; c(i, j) += 1; ctx.check(!ca.IsEqualTo(c), "band-equal", "difference not seen"); }
	ctx.check(mc::throws([&] { (void)(ca / 0.0); }) && mc::throws([&] { a /= 0.0; }) && mc::throws([&] { BandDiagonalMatrix q(n, m1, m2, Matrix<double>(n, m1 + m2 + 2)); }), "band-refuse", "");
	mc::Hash h; for (double q : r.v) h.d(q); ctx.state(h.u(M1).u(M2)); ctx.outcome(mc::Hash().u(M1).u(M2)); ctx.nontrivial();
}
