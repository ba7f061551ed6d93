// Inversion: exact for every small integer matrix; singular matrices are refused
#include "mc.h"
#include "linref.h"
#include "mml/base/Matrix/Matrix.h"
#include "mml/base/Matrix/MatrixNM.h"
#include "mml/base/Matrix/MatrixSym.h"
using namespace MML;
using ref::M; using ref::Q;
static std::string show(const M<int>& m) { std::string s = "["; for (int x : m.v) s += std::to_string(x) + " "; return s + "]"; }
template <class A> static void cmp(mc::Ctx& ctx, const A& x, const M<Q>& inv, double scale, const M<int>& r, const char* what) {
	for (int i = 0; i < r.r; i++) for (int j = 0; j < r.r; j++) { double e = ref::val(inv(i, j)) / scale; ctx.check(std::fabs(std::real(Complex(x(i, j))) - e) <= 1e-10 * (1 / std::fabs(scale) + std::fabs(e)), "inverse", what, " of ", scale, " * ", show(r), ": entry ", i, ",", j, " is ", std::real(Complex(x(i, j))), ", expected ", e); }
}
template <class F> static int attempt(F f) { try { f(); return 0; } catch (const SingularMatrixError&) { return 1; } catch (const std::exception&) { return 2; } }
template <int N> static void one(mc::Ctx& ctx, const M<int>& r) {
	M<Q> inv; bool ok = ref::inverse(r, inv); double scale = ctx.pick({1.0, 1e-9, 1e9});
	// power-of-two-free scaling makes rounding play; a singular matrix is only claimed to be refused when it is exactly representable
	Matrix<double> a(N, N); MatrixNM<double, N, N> f; Matrix<Complex> c(N, N); bool sym = r == r.t(); MatrixSym<double> s(N);
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { a(i, j) = f(i, j) = r(i, j) * scale; c(i, j) = Complex(0, r(i, j) * scale); s(i, j) = r(i, j) * scale; }
	Matrix<double> ia; MatrixNM<double, N, N> fi; Matrix<Complex> ic; Matrix<double> is;
	int ra = attempt([&] { ia = a.inverse(); }), rf = attempt([&] { fi = f.GetInverse(); }), rc = attempt([&] { ic = c.inverse(); }), rs = sym ? attempt([&] { is = s.GetInverse(); }) : -1;
	if (ok) {
		ctx.check(ra == 0 && rf == 0 && rc == 0 && rs <= 0, "nonsingular-refused", scale, " * ", show(r));
		cmp(ctx, ia, inv, scale, r, "Matrix::inverse"); cmp(ctx, fi, inv, scale, r, "MatrixNM::GetInverse"); if (sym) cmp(ctx, is, inv, scale, r, "MatrixSym::GetInverse");
		Matrix<Complex> ri(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) ri(i, j) = ic(i, j) * Complex(0, 1); cmp(ctx, ri, inv, scale, r, "Matrix<Complex>::inverse");
		Matrix<double> b(a); b.Invert(); ctx.check(b == ia, "in-place", "Invert and inverse differ"); b.Invert(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) ctx.check(std::fabs(b(i, j) - a(i, j)) <= 1e-7 * scale, "double-inverse", show(r));
	} else if (scale == 1.0) ctx.check(ra == 1 && rf == 1 && rc == 1 && (!sym || rs == 1), "singular-accepted", show(r), " Matrix ", ra, " MatrixNM ", rf, " complex ", rc, " sym ", rs);
	ctx.check(a(N - 1, 0) == r(N - 1, 0) * scale, "argument-changed", "");
	mc::Hash h; for (int q : r.v) h.u(q); ctx.state(h.d(scale)); ctx.outcome(mc::Hash().u(ok).u(ra)); ctx.nontrivial();
}
MC_SCENARIO(all_2x2, 3) { M<int> r(2, 2); for (int& x : r.v) x = ctx.range(-4, 4); one<2>(ctx, r); }
MC_SCENARIO(all_3x3, 4) { M<int> r(3, 3); int k = ctx.thorough ? 2 : 1; for (int i = 0; i < 9; i++) r.v[i] = i >= 7 ? ctx.range(-2, 2) : ctx.range(-1, i < 3 ? 1 : k); one<3>(ctx, r); }
MC_SCENARIO(binary_4x4, 4) { M<int> r(4, 4); for (int i = 0; i < 16; i++) r.v[i] = i < 14 || ctx.thorough ? ctx.choose(2) : (i % 3); one<4>(ctx, r); }
MC_SCENARIO(permutation_scaled_5x5, 3) { int p[5]; bool used[5] = {}; M<int> r(5, 5); for (int i = 0; i < 5; i++) { int c = ctx.choose(5); if (used[c]) { ctx.prune(); return; } used[c] = true; p[i] = c; r(i, c) = (i % 2 ? -1 : 1) * (1 << (3 * i)); } r(0, p[1]) += 1; r(4, p[2]) -= 3; one<5>(ctx, r); }
MC_SCENARIO(shapes, 1) {
	int R = ctx.choose(4), C = ctx.choose(4); Matrix<double> a(R, C, 2.0); if (R == 1 && C == 1) { ctx.check(a.inverse()(0, 0) == 0.5, "1x1", ""); }
	else if (R && C && R != C) ctx.check(mc::throws([&] { (void)a.inverse(); }), "non-square", R, "x", C, " accepted");
	Matrix<double> z(R, R, 0.0); if (R) ctx.check(attempt([&] { (void)z.inverse(); }) == 1, "singular-accepted", "zero matrix of size ", R);
	ctx.nontrivial(); ctx.state(mc::Hash().u(R).u(C)); ctx.outcome(mc::Hash().u(R == C));
}
