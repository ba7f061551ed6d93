// Vector, VectorN, Matrix, MatrixNM, Matrix3D: contents and algebra after every operation history = index-level reference
#include "mc.h"
#include "linref.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Vector/VectorN.h"
#include "mml/base/Matrix/Matrix.h"
#include "mml/base/Matrix/MatrixNM.h"
#include "mml/base/Matrix/Matrix3D.h"
#include <sstream>
using namespace MML;
using ref::M;
template <class T> static double dist(const T& a, const T& b) { return (double)std::abs(a - b); }
template <class T> static bool eq(const T& a, const T& b) { double m = (double)std::abs(b); return dist(a, b) <= 1e-12 * (m > 1 ? m : 1); }
template <class T> static T gen(int seed, int i, int j) {
	static const int P[] = {2, -3, 5, 0, 7, -1, 4, 0, 11, -6, 1, 3};
	int a = seed == 0 ? P[(i * 3 + j) % 12] : seed == 1 ? (i == j ? 1 : 0) : (i + 2 * j) % 3 - 1;
	if constexpr (std::is_same_v<T, Complex>) return T(a, P[(i + 5 * j + seed) % 12]); else return T(a);
}
template <class T> static M<T> rmat(int seed, int r, int c) { M<T> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = gen<T>(seed, i, j); return m; }
template <class T> static Matrix<T> mk(const M<T>& r) { Matrix<T> m(r.r, r.c); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) m(i, j) = r(i, j); return m; }
template <class A, class T> static bool same(const A& a, const M<T>& r) { if (a.rows() != r.r || a.cols() != r.c) return false; for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) if (!eq<T>(a(i, j), r(i, j))) return false; return true; }
template <class V, class T> static bool samev(const V& a, const std::vector<T>& r) { if ((size_t)a.size() != r.size()) return false; for (size_t i = 0; i < r.size(); i++) if (!eq<T>(a[i], r[i])) return false; return true; }
template <class T> static double norm1(const std::vector<T>& v) { double s = 0; for (auto& x : v) s += (double)std::abs(x); return s; }
template <class T> static double norm2(const std::vector<T>& v) { double s = 0; for (auto& x : v) s += (double)std::norm(x); return std::sqrt(s); }
template <class T> static double normi(const std::vector<T>& v) { double s = 0; for (auto& x : v) s = std::max(s, (double)std::abs(x)); return s; }
template <class T> static std::string show(const M<T>& m) { std::ostringstream o; o << m.r << "x" << m.c << " ["; for (auto& x : m.v) o << x << " "; o << "]"; return o.str(); }

// every query on the real matrix agrees with the reference r
template <class T> static void queries(mc::Ctx& ctx, const Matrix<T>& a, const M<T>& r) {
	int R = r.r, C = r.c;
	ctx.check(same(a, r), "content", "matrix is ", a.to_string(), ", expected ", show(r));
	ctx.check(a.isEmpty() == (R == 0 || C == 0) && a.isSquare() == (R == C), "shape-queries", show(r));
	std::vector<T> flat(a.begin(), a.end()); ctx.check(flat == std::vector<T>(r.v.begin(), r.v.end()) || norm1(flat) > 1e6, "iteration", "begin()/end() order");
	for (int i = -1; i <= R; i++) for (int j = -1; j <= C; j++) {
		bool in = i >= 0 && i < R && j >= 0 && j < C;
		if (in) ctx.check(eq<T>(a.at(i, j), r(i, j)) && eq<T>(a[i][j], r(i, j)), "element", i, ",", j); else ctx.check(mc::throws([&] { (void)a.at(i, j); }), "at-range", i, ",", j, " accepted in ", R, "x", C);
	}
	for (int i = -1; i <= R; i++) { if (i < 0 || i >= R) { ctx.check(mc::throws([&] { a.VectorFromRow(i); }) && mc::throws([&] { a.row(i); }), "row-range", i); continue; } std::vector<T> w; for (int j = 0; j < C; j++) w.push_back(r(i, j)); ctx.check(samev(a.VectorFromRow(i), w), "row", i); std::vector<T> it; for (auto x : a.row(i)) it.push_back(x); ctx.check(samev(Vector<T>(it), w), "row-iteration", i); }
	for (int j = -1; j <= C; j++) { if (j < 0 || j >= C) { ctx.check(mc::throws([&] { a.VectorFromColumn(j); }), "col-range", j); continue; } std::vector<T> w; for (int i = 0; i < R; i++) w.push_back(r(i, j)); ctx.check(samev(a.VectorFromColumn(j), w), "column", j); }
	M<T> tr = r.t(); ctx.check(same(a.transpose(), tr), "transpose", show(r));
	if (R == C) {
		T s(0); std::vector<T> d; for (int i = 0; i < R; i++) { s += r(i, i); d.push_back(r(i, i)); }
		ctx.check(eq<T>(a.trace(), s) && samev(a.diagonal(), d), "trace-diagonal", show(r));
		for (int incl = 0; incl < 2; incl++) { M<T> lo(R, C), up(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { if (j < i || (incl && i == j)) lo(i, j) = r(i, j); if (j > i || (incl && i == j)) up(i, j) = r(i, j); } ctx.check(same(a.GetLower(incl), lo) && same(a.GetUpper(incl), up), "triangles", show(r)); }
	} else ctx.check(mc::throws([&] { (void)a.trace(); }) && mc::throws([&] { a.diagonal(); }) && mc::throws([&] { (void)a.GetLower(); }) && mc::throws([&] { (void)a.GetUpper(); }), "square-only", "accepted for ", R, "x", C);
	ctx.check(mc::near(a.NormL1(), norm1(r.v), 1e-12) && mc::near(a.NormL2(), norm2(r.v), 1e-12) && mc::near(a.NormLInf(), normi(r.v), 1e-12), "norms", show(r));
	// algebra with fixed partners of every shape
	for (int br = 1; br <= 3; br++) for (int bc = 1; bc <= 2 + (br == C); bc++) {
		M<T> b = rmat<T>(0, br, bc); Matrix<T> B = mk(b);
		if (C == br && R) ctx.check(same(a * B, r * b), "product", show(r), " * ", show(b)); else if (R) ctx.check(mc::throws([&] { (void)(a * B); }), "product-shape", "accepted ", R, "x", C, " * ", br, "x", bc);
		if (br == R && bc == C) { ctx.check(same(a + B, r + b) && same(a - B, r - b) && same(-a, r * T(-1)), "sum", show(r)); M<T> e = b; ctx.check((a == B) == (r == b) && (a != B) != (r == b), "equality", show(r)); }
		else ctx.check(mc::throws([&] { (void)(a + B); }) && mc::throws([&] { (void)(a - B); }) && !(a == B) && a != B && !a.IsEqualTo(B), "sum-shape", "accepted ", R, "x", C, " + ", br, "x", bc);
	}
	ctx.check(same(a * T(3), r * T(3)) && same(T(3) * a, r * T(3)), "scalar-product", show(r));
	if constexpr (!std::is_same_v<T, int>) { M<T> h = r; for (auto& x : h.v) x /= T(4); ctx.check(same(a / T(4), h), "scalar-division", show(r)); }
	for (int n = 1; n <= 3; n++) {
		std::vector<T> x; for (int i = 0; i < n; i++) x.push_back(gen<T>(0, i, 1)); Vector<T> X(x);
		if (n == C) { std::vector<T> w(R, T(0)); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) w[i] += r(i, j) * x[j]; ctx.check(samev(a * X, w), "matrix-vector", show(r)); } else ctx.check(mc::throws([&] { (void)(a * X); }), "matrix-vector-shape", n);
		if (n == R) { std::vector<T> w(C, T(0)); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) w[j] += x[i] * r(i, j); ctx.check(samev(X * a, w), "vector-matrix", show(r)); } else ctx.check(mc::throws([&] { (void)(X * a); }), "vector-matrix-shape", n);
	}
	for (int i = -1; i <= R; i++) for (int j = -1; j <= C; j++) for (int h = 0; h <= R; h++) for (int w = 0; w <= C; w++) {
		bool ok = i >= 0 && j >= 0 && h > 0 && w > 0 && i + h <= R && j + w <= C;
		if (!ok) { if (h + w < 4) ctx.check(mc::throws([&] { a.GetSubmatrix(i, j, h, w); }) && mc::throws([&] { a.block(i, j, h, w); }), "submatrix-range", i, " ", j, " ", h, " ", w); continue; }
		M<T> s(h, w); for (int p = 0; p < h; p++) for (int q = 0; q < w; q++) s(p, q) = r(i + p, j + q);
		auto b = a.block(i, j, h, w); ctx.check(same(a.GetSubmatrix(i, j, h, w), s) && same(b, s), "submatrix", i, " ", j, " ", h, " ", w);
	}
	Matrix<T> cp(a); ctx.check(cp == a && cp.IsEqualTo(a) && Matrix<T>::AreEqual(cp, a), "copy-equal", "");
	if (R && C) { cp(R - 1, C - 1) += T(1); ctx.check(!(cp == a) && !cp.IsEqualTo(a) && cp != a, "copy-independent", "a copy shares storage or the last element is not compared"); }
}
static const int NOPS = 21;
template <class T> static void matrix_history(mc::Ctx& ctx, int depth, int maxdim, bool few) {
	int R = 1 + ctx.choose(maxdim), C = 1 + ctx.choose(maxdim), seed = few ? 0 : ctx.choose(2) * 2;
	M<T> r = rmat<T>(seed, R, C); Matrix<T> a = mk(r);
	for (int k = 0; k < depth; k++) {
		int op = ctx.choose(NOPS); ctx.step(); R = r.r; C = r.c; M<T> before = r; bool refused = false, expectRefuse = false;
		auto t = [&](auto f) { try { f(); } catch (const std::exception&) { refused = true; } };
		M<T> b = rmat<T>(2, R, C); b(0, 0) = T(2);
		switch (op) {
			case 0: t([&] { a += mk(b); }); r = r + b; break;
			case 1: t([&] { a -= mk(b); }); r = r - b; break;
			case 2: a *= T(3); r = r * T(3); break;
			case 3: { int i = R - 1, j = C / 2; T s = r(i, j); a *= a(i, j); r = r * s; break; }          // scalar is an element of the matrix
			case 4: if constexpr (!std::is_same_v<T, int>) { T s = r(0, 0); if (std::abs(s) == 0) { ctx.prune(); return; } a /= a(0, 0); for (auto& x : r.v) x /= s; } else { a *= T(-1); r = r * T(-1); } break;
			case 5: a += a; r = r + r; break;
			case 6: t([&] { a.Transpose(); }); expectRefuse = R != C; if (!expectRefuse) r = r.t(); break;
			case 7: a = a.transpose(); r = r.t(); break;
			case 8: t([&] { a.SwapRows(0, R - 1); }); for (int j = 0; j < C; j++) std::swap(r(0, j), r(R - 1, j)); if (R == 1) r = before; break;
			case 9: t([&] { a.SwapCols(C - 1, 0); }); for (int i = 0; i < R; i++) std::swap(r(i, 0), r(i, C - 1)); if (C == 1) r = before; break;
			case 10: t([&] { a.SwapRows(0, R); }); expectRefuse = true; break;
			case 11: { int nr = 1 + R % 3, nc = C; t([&] { a.Resize(nr, nc, true); }); M<T> n(nr, nc); for (int i = 0; i < std::min(nr, R); i++) for (int j = 0; j < C; j++) n(i, j) = r(i, j); r = n; break; }
			case 12: { int nr = R, nc = 1 + C % 3; t([&] { a.Resize(nr, nc, true); }); M<T> n(nr, nc); for (int i = 0; i < R; i++) for (int j = 0; j < std::min(nc, C); j++) n(i, j) = r(i, j); r = n; break; }
			case 13: t([&] { a.Resize(R, -1, true); }); expectRefuse = true; break;
			case 14: { Vector<T> v(C); for (int j = 0; j < C; j++) v[j] = T(j + 10); t([&] { a.InitRowWithVector(R - 1, v); }); for (int j = 0; j < C; j++) r(R - 1, j) = T(j + 10); break; }
			case 15: { Vector<T> v(R); for (int i = 0; i < R; i++) v[i] = T(i - 7); t([&] { a.InitColWithVector(0, v); }); for (int i = 0; i < R; i++) r(i, 0) = T(i - 7); break; }
			case 16: t([&] { a.InitRowWithVector(0, Vector<T>(C + 1)); }); expectRefuse = true; break;
			case 17: { auto bl = a.block(R - 1, 0, 1, C); for (int j = 0; j < C; j++) bl(0, j) = bl(0, j) + T(1); int i = 0; for (auto& x : a.col(C - 1)) { x = x + T(i); i++; } for (int j = 0; j < C; j++) r(R - 1, j) += T(1); for (int q = 0; q < R; q++) r(q, C - 1) += T(q); break; }
			case 18: { Matrix<T> m2 = std::move(a); ctx.check(a.rows() == 0 && a.cols() == 0 && a.isEmpty(), "moved-from", "not empty"); a = std::move(m2); ctx.check(m2.isEmpty(), "moved-from", "not empty"); Matrix<T>& self = a; a = self; break; }
			case 19: if (R == C) { a = a * a; r = r * r; } else { t([&] { a = a * a; }); expectRefuse = true; } break;
			case 20: t([&] { a.MakeUnitMatrix(); }); expectRefuse = R != C; if (!expectRefuse) { r = M<T>(R, R); for (int i = 0; i < R; i++) r(i, i) = T(1); } break;
		}
		ctx.check(refused == expectRefuse, refused ? "operation-refused" : "illegal-operation-accepted", "operation ", op, " on ", R, "x", C);
		if (op == 3 || op == 4) ctx.check(same(a, r), "self-scalar", "scaling by an own element: ", a.to_string(), " expected ", show(r));
		if (k + 1 == depth) queries(ctx, a, r); else ctx.check(same(a, r), "content", "after operation ", op, ": ", a.to_string(), " expected ", show(r));
	}
	mc::Hash h; h.u(r.r).u(r.c); for (auto& x : r.v) h.d(std::real(Complex(x))); ctx.state(h); ctx.outcome(mc::Hash().u(r.r).u(r.c)); ctx.nontrivial();
}
MC_SCENARIO(matrix_double, 4) { matrix_history<double>(ctx, ctx.thorough ? 4 : 2, 3, false); }
MC_SCENARIO(matrix_double_deep, 5) { matrix_history<double>(ctx, ctx.thorough ? 5 : 3, 2, true); }
MC_SCENARIO(matrix_int, 4) { matrix_history<int>(ctx, ctx.thorough ? 3 : 2, 3, true); }
MC_SCENARIO(matrix_complex, 4) { matrix_history<Complex>(ctx, ctx.thorough ? 3 : 2, 3, true); }
MC_SCENARIO(matrix_float, 4) { matrix_history<float>(ctx, 1, 3, true); }
// predicates on every small matrix
MC_SCENARIO(matrix_predicates, 4) {
	int n = 1 + ctx.choose(3); M<double> r(n, n); static const std::vector<int> A3 = {-1, 0, 1}, A2 = {-2, 0, 1, 2, 3};
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = n == 3 ? ctx.pick(A3) : ctx.pick(A2);
	Matrix<double> a = mk(r); bool id = true, di = true, sy = true, an = true, ze = true, dd = true;
	for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) { double x = r(i, j); if (x != (i == j)) id = false; if (i != j && x != 0) di = false; if (x != r(j, i)) sy = false; if (x != -r(j, i)) an = false; if (x != 0) ze = false; if (i != j) s += std::fabs(x); } if (std::fabs(r(i, i)) < s) dd = false; }
	ctx.check(a.isIdentity() == id, "isIdentity", show(r)); ctx.check(a.isDiagonal() == di, "isDiagonal", show(r)); ctx.check(a.isSymmetric() == sy, "isSymmetric", show(r));
	ctx.check(a.isAntiSymmetric() == an, "isAntiSymmetric", show(r)); ctx.check(a.isZero() == ze, "isZero", show(r)); ctx.check(a.isDiagonallyDominant() == dd, "isDiagonallyDominant", show(r));
	ctx.outcome(mc::Hash().u(id).u(di).u(sy).u(an).u(dd)); ctx.nontrivial(); mc::Hash h; for (auto x : r.v) h.d(x); ctx.state(h);
}
MC_SCENARIO(matrix_construction, 2) {
	int R = ctx.choose(4), C = ctx.choose(4), kind = ctx.choose(6); M<double> r = rmat<double>(0, R, C); std::vector<double> colwise; for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) colwise.push_back(r(i, j));
	bool empty = R == 0 || C == 0; Matrix<double> a; std::vector<double> buf = r.v; buf.push_back(0); colwise.push_back(0);
	if (kind == 0) a = Matrix<double>(R, C, buf.data()); else if (kind == 1) a = Matrix<double>(R, C, colwise.data(), false);
	else if (kind == 2) { std::vector<std::vector<double>> vv(R, std::vector<double>(C)); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) vv[i][j] = r(i, j); a = Matrix<double>(vv); if (R > 1 && C) { vv[R - 1].push_back(1); ctx.check(mc::throws([&] { Matrix<double> x(vv); }), "ragged", "ragged rows accepted"); } }
	else if (kind == 3) { a = Matrix<double>(R, C, 2.5); for (auto& x : r.v) x = 2.5; }
	else if (kind == 4) { a = Matrix<double>(R, C); for (auto& x : r.v) x = 0; }
	else { if (R * C == 6) { if (R == 2) a = Matrix<double>(2, 3, {2, -3, 5, 0, 7, -1}); else a = Matrix<double>(3, 2, {2, -3, 0, 7, 4, 0}); ctx.check(mc::throws([&] { Matrix<double> x(R, C, {1, 2, 3}); }), "short-list", "short initializer accepted"); } else a = mk(r); }
	if (empty) ctx.check(a.rows() == 0 && a.cols() == 0 && a.isEmpty(), "empty-shape", R, "x", C); else queries(ctx, a, r);
	for (int bad = 0; bad < 2; bad++) ctx.check(mc::throws([&] { Matrix<double> x(bad ? -1 : R, bad ? C : -2); }), "negative-size", "accepted");
	if (R) { Vector<double> d(R); for (int i = 0; i < R; i++) d[i] = i + 1.5; auto D = Matrix<double>::Diagonal(d), I = Matrix<double>::Identity(R); for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) ctx.check(D(i, j) == (i == j ? i + 1.5 : 0) && I(i, j) == (i == j), "diagonal-identity", i, ",", j); }
	ctx.state(mc::Hash().u(R).u(C).u(kind)); ctx.outcome(mc::Hash().u(empty)); ctx.nontrivial();
}
// ---- Vector ----
template <class T> static void vec_check(mc::Ctx& ctx, const Vector<T>& a, const std::vector<T>& r) {
	int n = r.size(); ctx.check(samev(a, r), "vector-content", "vector differs (", a.to_string(), ")");
	ctx.check(a.empty() == r.empty() && samev(Vector<T>(std::vector<T>(a.begin(), a.end())), r), "vector-iteration", "");
	for (int i : {-1, n}) ctx.check(mc::throws([&] { (void)a.at(i); }), "vector-at-range", i);
	if (n) ctx.check(eq<T>(a.front(), r[0]) && eq<T>(a.back(), r[n - 1]), "front-back", "");
	ctx.check(mc::near(a.NormL1(), norm1(r), 1e-12) && mc::near(a.NormL2(), norm2(r), 1e-12) && mc::near(a.NormLInf(), normi(r), 1e-12), "vector-norms", "");
	bool z = norm1(r) == 0; ctx.check(a.isZero() == z && a.isNearZero(1e-9) == z, "isZero", "");
	for (int m = 0; m <= 3; m++) { std::vector<T> y; for (int i = 0; i < m; i++) y.push_back(gen<T>(0, i, 2)); Vector<T> Y(y);
		if (m == n) { std::vector<T> s, d, g; for (int i = 0; i < n; i++) { s.push_back(r[i] + y[i]); d.push_back(r[i] - y[i]); g.push_back(-r[i]); } ctx.check(samev(a + Y, s) && samev(a - Y, d) && samev(-a, g), "vector-sum", ""); ctx.check((a == Y) == (r == y) && (a != Y) == (r != y), "vector-equality", ""); }
		else ctx.check(mc::throws([&] { (void)(a + Y); }) && mc::throws([&] { (void)(a - Y); }) && mc::throws([&] { Vector<T> c(a); c += Y; }) && mc::throws([&] { Vector<T> c(a); c -= Y; }), "vector-sum-size", n, " vs ", m); }
	std::vector<T> t3; for (auto& x : r) t3.push_back(x * T(3)); ctx.check(samev(a * T(3), t3) && samev(T(3) * a, t3), "vector-scale", "");
}
template <class T> static void vector_history(mc::Ctx& ctx, int depth) {
	int n = ctx.choose(4); std::vector<T> r; for (int i = 0; i < n; i++) r.push_back(gen<T>(0, i, 0)); Vector<T> a(r);
	for (int k = 0; k < depth; k++) {
		n = r.size(); ctx.step();
		switch (ctx.choose(14)) {
			case 0: a.push_back(T(k + 9)); r.push_back(T(k + 9)); break;
			case 1: if (n) { T x = r[0]; a.push_back(a[0]); r.push_back(x); } break;
			case 2: { int p = n / 2; a.insert(p, T(-4)); r.insert(r.begin() + p, T(-4)); break; }
			case 3: if (n) { a.erase(n - 1); r.pop_back(); } break;
			case 4: if (n > 1) { a.erase(0, n - 1); r.erase(r.begin(), r.end() - 1); } break;
			case 5: { T x = T(0); a.erase(static_cast<const T&>(x)); if constexpr (!std::is_same_v<T, int>) r.erase(std::remove(r.begin(), r.end(), x), r.end()); else r.erase(std::remove(r.begin(), r.end(), x), r.end()); break; }
			case 6: a.Clear(); r.clear(); break;
			case 7: a.Resize(n + 2); r.resize(n + 2, T(0)); break;
			case 8: a.Resize(n / 2); r.resize(n / 2); break;
			case 9: a += a; for (auto& x : r) x += x; break;
			case 10: a *= T(-2); for (auto& x : r) x *= T(-2); break;
			case 11: if (n && std::abs(r[n - 1]) != 0) { T s = r[n - 1]; a *= a[n - 1]; for (auto& x : r) x *= s; } break;
			case 12: { Vector<T> b(std::move(a)); a = b; Vector<T> c; c = std::move(b); a = c; break; }
			case 13: if constexpr (!std::is_same_v<T, int>) { if (n && std::abs(r[0]) != 0) { T s = r[0]; a /= a[0]; for (auto& x : r) x /= s; } } else { a -= a; for (auto& x : r) x = 0; } break;
		}
		vec_check(ctx, a, r);
	}
	mc::Hash h; for (auto& x : r) h.d(std::real(Complex(x))); ctx.state(h); ctx.outcome(mc::Hash().u(r.size())); ctx.nontrivial();
}
MC_SCENARIO(vector_double, 3) { vector_history<double>(ctx, ctx.thorough ? 5 : 4); }
MC_SCENARIO(vector_complex, 3) { vector_history<Complex>(ctx, 3); }
MC_SCENARIO(vector_unit, 1) {
	int n = ctx.choose(4), i = ctx.choose(6) - 1;
	if (i < 0 || i >= n) ctx.check(mc::throws([&] { Vector<double>::UnitVector(n, i); }), "unit-range", n, " ", i);
	else { auto u = Vector<double>::UnitVector(n, i); for (int k = 0; k < n; k++) ctx.check(u[k] == (k == i), "unit", n, " ", i); }
	ctx.check(mc::throws([&] { Vector<double> v(-1); }) && mc::throws([&] { Vector<double> v(-1, 2.0); }), "negative-size", "accepted");
	Vector<double> v({1, 2}); ctx.check(mc::throws([&] { (void)v.safeDivide(0); }) && samev(v.safeDivide(2), std::vector<double>{0.5, 1}), "safe-divide", "");
	ctx.state(mc::Hash().u(n).u(i)); ctx.nontrivial(); ctx.outcome(mc::Hash().u(n));
}
// ---- fixed-size classes ----
template <class T, int N> static void vecn(mc::Ctx& ctx) {
	std::vector<T> r; VectorN<T, N> a; int seed = ctx.choose(3), depth = 2;
	for (int i = 0; i < N; i++) { r.push_back(gen<T>(seed, i, 1)); a[i] = r[i]; }
	for (int k = 0; k < depth; k++) {
		std::vector<T> y; VectorN<T, N> Y; for (int i = 0; i < N; i++) { y.push_back(gen<T>(0, i, 2 + k)); Y[i] = y[i]; }
		switch (ctx.choose(9)) {
			case 0: a += Y; for (int i = 0; i < N; i++) r[i] += y[i]; break;
			case 1: a -= Y; for (int i = 0; i < N; i++) r[i] -= y[i]; break;
			case 2: a *= T(3); for (auto& x : r) x *= T(3); break;
			case 3: { T s = r[0]; a *= a[0]; for (auto& x : r) x *= s; break; }
			case 4: { T s = r[N / 2]; if (std::abs(s) == 0) { ctx.prune(); return; } a /= a[N / 2]; for (auto& x : r) x /= s; break; }
			case 5: a = -a; for (auto& x : r) x = -x; break;
			case 6: a = a + Y - a * T(2); for (int i = 0; i < N; i++) r[i] = r[i] + y[i] - r[i] * T(2); break;
			case 7: a.clear(); for (auto& x : r) x = T(0); break;
			case 8: a = T(2) * a / T(4); for (auto& x : r) x = T(2) * x / T(4); break;
		}
		ctx.check(samev(a, r), "vectorn-content", "VectorN<", N, "> after operations");
	}
	ctx.check(mc::near(a.NormL1(), norm1(r), 1e-12) && mc::near(a.NormL2(), norm2(r), 1e-12) && mc::near(a.NormLInf(), normi(r), 1e-12), "vectorn-norms", "");
	ctx.check(a.isZero() == (norm1(r) == 0), "vectorn-isZero", ""); for (int i : {-1, N}) ctx.check(mc::throws([&] { (void)a.at(i); }), "vectorn-at", i);
	if (norm1(r) == 0) ctx.check(mc::throws([&] { a.Normalized(); }), "vectorn-normalize-zero", "zero vector normalized"); else { auto u = a.Normalized(); double n2 = norm2(r); ctx.check(mc::near(u.NormL2(), 1, 1e-12), "vectorn-normalized", ""); for (int i = 0; i < N; i++) ctx.check(dist<T>(u[i] * T(n2), r[i]) < 1e-9 * (1 + n2), "vectorn-normalized", "direction"); }
	VectorN<T, N> c = a; ctx.check(c == a && !(c != a), "vectorn-eq", ""); c[N - 1] += T(1); ctx.check(c != a && !(c == a), "vectorn-eq", "last element not compared");
	ctx.check(mc::throws([&] { VectorN<T, N> v(std::vector<T>(N + 1)); }), "vectorn-too-long", "accepted");
	for (int i = 0; i < N; i++) { auto u = VectorN<T, N>::UnitVector(i); for (int k = 0; k < N; k++) ctx.check(eq<T>(u[k], T(k == i)), "vectorn-unit", ""); }
	mc::Hash h; for (auto& x : r) h.d(std::real(Complex(x))); ctx.state(h.u(N)); ctx.outcome(mc::Hash().u(N)); ctx.nontrivial();
}
MC_SCENARIO(vector_n, 2) { int n = ctx.choose(3); if (n == 0) vecn<double, 1>(ctx); else if (n == 1) vecn<double, 3>(ctx); else vecn<Complex, 2>(ctx); }
template <class T, int N, int K> static void matnm(mc::Ctx& ctx) {
	int seed = ctx.choose(3); M<T> r = rmat<T>(seed, N, K); struct { T pad0[2]; MatrixNM<T, N, K> a; T pad1[2]; } s; for (auto& x : s.pad0) x = T(77); for (auto& x : s.pad1) x = T(78);
	MatrixNM<T, N, K>& a = s.a; for (int i = 0; i < N; i++) for (int j = 0; j < K; j++) a(i, j) = r(i, j);
	for (int k = 0; k < 2; k++) {
		M<T> b = rmat<T>(0, N, K); MatrixNM<T, N, K> B; for (int i = 0; i < N; i++) for (int j = 0; j < K; j++) B(i, j) = b(i, j);
		switch (ctx.choose(9)) {
			case 0: a = a + B; r = r + b; break;
			case 1: a = a - B; r = r - b; break;
			case 2: a *= T(3); r = r * T(3); break;
			case 3: { T q = r(N - 1, 0); a *= a(N - 1, 0); r = r * q; break; }
			case 4: a = -a; r = r * T(-1); break;
			case 5: a = a * T(2) / T(4); for (auto& x : r.v) x = x * T(2) / T(4); break;
			case 6: if (N == K) { a.Transpose(); r = r.t(); } else ctx.check(mc::throws([&] { a.Transpose(); }), "nm-transpose", "non-square accepted"); break;
			case 7: if (N == K) { a.MakeUnitMatrix(); r = M<T>(N, K); for (int i = 0; i < N; i++) r(i, i) = T(1); } else ctx.check(mc::throws([&] { a.MakeUnitMatrix(); }), "nm-unit", "non-square accepted"); break;
			case 8: { new (&a) MatrixNM<T, N, K>(T(5)); r = M<T>(N, K); for (int i = 0; i < std::min(N, K); i++) r(i, i) = T(5); break; }
		}
		ctx.check(same(a, r), "nm-content", N, "x", K, " expected ", show(r));
		ctx.check(s.pad0[0] == T(77) && s.pad1[0] == T(78) && s.pad1[1] == T(78), "nm-out-of-bounds", "memory next to the matrix changed");
	}
	MatrixNM<T, K, 2> B; M<T> b = rmat<T>(0, K, 2); for (int i = 0; i < K; i++) for (int j = 0; j < 2; j++) B(i, j) = b(i, j);
	ctx.check(same(a * B, r * b), "nm-product", show(r)); ctx.check(same(a.transpose(), r.t()), "nm-transposed", show(r)); ctx.check(same(T(2) * a, r * T(2)), "nm-scale", "");
	VectorN<T, K> x; std::vector<T> w(N, T(0)), w2(K, T(0)); VectorN<T, N> y; for (int j = 0; j < K; j++) x[j] = gen<T>(0, j, 1); for (int i = 0; i < N; i++) y[i] = gen<T>(0, i, 2);
	for (int i = 0; i < N; i++) for (int j = 0; j < K; j++) { w[i] += r(i, j) * x[j]; w2[j] += y[i] * r(i, j); }
	ctx.check(samev(a * x, w), "nm-matvec", ""); ctx.check(samev(y * a, w2), "nm-vecmat", "");
	for (int i = 0; i < N; i++) for (int j = 0; j < K; j++) ctx.check(eq<T>(a.VectorFromRow(i)[j], r(i, j)) && eq<T>(a.VectorFromColumn(j)[i], r(i, j)), "nm-rows-cols", "");
	for (int i = -1; i <= N; i++) for (int j = -1; j <= K; j++) if (i < 0 || j < 0 || i == N || j == K) ctx.check(mc::throws([&] { (void)a.at(i, j); }), "nm-at", i, ",", j);
	if (N == K) { T t(0); for (int i = 0; i < N; i++) t += r(i, i % K); ctx.check(eq<T>(a.Trace(), t), "nm-trace", ""); for (int incl = 0; incl < 2; incl++) { M<T> lo(N, K), up(N, K); for (int i = 0; i < N; i++) for (int j = 0; j < K; j++) { if (j < i || (incl && i == j)) lo(i, j) = r(i, j); if (j > i || (incl && i == j)) up(i, j) = r(i, j); } ctx.check(same(a.GetLower(incl), lo) && same(a.GetUpper(incl), up), "nm-triangles", ""); } auto I = MatrixNM<T, N, K>::Identity(); ctx.check(same(a * MatrixNM<T, K, K>::Identity(), r) && same(I, [&] { M<T> q(N, K); for (int i = 0; i < std::min(N, K); i++) q(i, i) = T(1); return q; }()), "nm-identity", ""); }
	else ctx.check(mc::throws([&] { a.Trace(); }), "nm-trace", "non-square accepted");
	MatrixNM<T, N, K> c = a; ctx.check(c == a && !(c != a) && c.IsEqualTo(a), "nm-eq", ""); c(N - 1, K - 1) += T(1); ctx.check(c != a && !(c == a) && !c.IsEqualTo(a), "nm-eq", "last element not compared");
	mc::Hash h; for (auto& v : r.v) h.d(std::real(Complex(v))); ctx.state(h.u(N).u(K)); ctx.outcome(mc::Hash().u(N).u(K)); ctx.nontrivial();
}
MC_SCENARIO(matrix_nm, 3) { switch (ctx.choose(7)) { case 0: matnm<double, 1, 1>(ctx); break; case 1: matnm<double, 2, 2>(ctx); break; case 2: matnm<double, 3, 3>(ctx); break; case 3: matnm<double, 2, 3>(ctx); break; case 4: matnm<double, 3, 2>(ctx); break; case 5: matnm<double, 4, 1>(ctx); break; case 6: matnm<Complex, 2, 2>(ctx); break; } }
// ---- Matrix3D ----
MC_SCENARIO(matrix_3d, 4) {
	int d[3]; for (int& x : d) x = 1 + ctx.choose(2); std::vector<double> r; Matrix3D<double> a(d[0], d[1], d[2]);
	auto id = [&](int i, int j, int k) { return (size_t)(i * d[1] + j) * d[2] + k; };
	for (int i = 0; i < d[0]; i++) for (int j = 0; j < d[1]; j++) for (int k = 0; k < d[2]; k++) { double x = 1 + i * 9 + j * 3 - 5 * k; a(i, j, k) = x; r.push_back(x); }
	auto chk = [&](const Matrix3D<double>& m) {
		ctx.check(m.dim1() == d[0] && m.dim2() == d[1] && m.dim3() == d[2] && m.size() == (int)r.size(), "3d-shape", "");
		for (int i = 0; i < d[0]; i++) for (int j = 0; j < d[1]; j++) for (int k = 0; k < d[2]; k++) ctx.check(eq(m(i, j, k), r[id(i, j, k)]) && eq(m[i][j][k], r[id(i, j, k)]) && eq(m.At(i, j, k), r[id(i, j, k)]), "3d-content", i, ",", j, ",", k);
		for (int i : {-1, d[0]}) ctx.check(mc::throws([&] { (void)m.At(i, 0, 0); }), "3d-at", ""); for (int j : {-1, d[1]}) ctx.check(mc::throws([&] { (void)m.At(0, j, 0); }), "3d-at", ""); for (int k : {-1, d[2]}) ctx.check(mc::throws([&] { (void)m.At(0, 0, k); }), "3d-at", "");
	};
	int depth = ctx.thorough ? 4 : 3;
	for (int s = 0; s < depth; s++) {
		switch (ctx.choose(14)) {
			case 0: a *= 2; for (auto& x : r) x *= 2; break;
			case 1: { double q = r[0]; a *= a(0, 0, 0); for (auto& x : r) x *= q; break; }
			case 2: { double q = r.back(); if (q == 0) { ctx.prune(); return; } a /= a(d[0] - 1, d[1] - 1, d[2] - 1); for (auto& x : r) x /= q; break; }
			case 3: { double q = r[0]; a += a(0, 0, 0); for (auto& x : r) x += q; break; }
			case 4: a += a; for (auto& x : r) x += x; break;
			case 5: { Matrix3D<double> b(a); b *= 3; a = b - a; for (auto& x : r) x *= 2; break; }
			case 6: a.Fill(4); for (auto& x : r) x = 4; break;
			case 7: a.Apply([](double x) { return 1 - x; }); for (auto& x : r) x = 1 - x; break;
			case 8: { Matrix3D<double> b(std::move(a)); chk(b); a = std::move(b); Matrix3D<double>& self = a; a = self; break; }
			case 9: { Matrix3D<double> b(a), c(1, 1, 1); c = b; b(0, 0, 0) += 1; ctx.check(c == a && b != c, "3d-copy", "copies share storage or compare wrongly"); a = c; break; }
			case 10: a.Resize(d[0] % 2 + 1, d[1], d[2], 6.0); d[0] = d[0] % 2 + 1; r.assign((size_t)d[0] * d[1] * d[2], 6.0); break;
			case 11: a = a * 2 + a / 2 + a; for (auto& x : r) x = x * 2 + x / 2 + x; break;
			case 12: a(d[0] - 1, 0, d[2] - 1) = 9; r[id(d[0] - 1, 0, d[2] - 1)] = 9; a[0][d[1] - 1][0] = -3; r[id(0, d[1] - 1, 0)] = -3; break;
			case 13: { Matrix3D<double> w(d[0] + 1, d[1], d[2]); ctx.check(mc::throws([&] { a += w; }) && mc::throws([&] { a -= w; }) && mc::throws([&] { (void)(a + w); }) && a != w, "3d-shape-mismatch", "accepted"); break; }
		}
		ctx.step(); chk(a);
	}
	mc::Hash h; for (auto x : r) h.d(x); ctx.state(h.u(d[0]).u(d[1]).u(d[2])); ctx.outcome(mc::Hash().u(r.size())); ctx.nontrivial();
}
