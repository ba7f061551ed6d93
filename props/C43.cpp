// C43: minimizers in one and several dimensions
// mc-flags: -O1
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/algorithms/Optimization.h"
#include "mml/algorithms/OptimizationMultidim.h"
using namespace MML; typedef MinimizationResult MR; namespace M1 = MML::Minimization; typedef Optimization::MultidimMinimizationResult MD;
struct Stop {}; // too many evaluations
static const int LIMIT = 2000000;
// ---- one dimension: shapes around a centre
struct F1 : IRealFunction { int kind; Real c, s, k; mutable int n = 0; mutable Real best = INFINITY; Real sign = 1;
	F1(int kk, Real cc, Real ss, Real k0) : kind(kk), c(cc), s(ss), k(k0) {}
	Real at(Real x) const { Real y = (x - c) / s; switch (kind) { case 0: return y * y + k; case 1: return std::fabs(y) + k; case 2: return y * y * y * y + k; case 3: return std::cosh(y) + k; case 4: return (y < 0 ? -3 * y : y) + k; case 5: return std::exp(y) - y + k; case 6: return y * y * (y * y - 2) + k; case 7: return std::sin(3 * y) + 0.1 * y * y + k; case 8: return -std::exp(-y * y) + k; case 9: return std::floor(std::fabs(y)) + k; case 10: return y * y / (1 + y * y) + k; case 11: return k; case 12: return y + k; case 13: return -y * y * y + k; default: return y < -1 ? NAN : y * y; } }
	Real d(Real x) const { Real y = (x - c) / s; switch (kind) { case 0: return 2 * y / s; case 1: return (y > 0) - (y < 0) ? ((y > 0) - (y < 0)) / s : 0; case 2: return 4 * y * y * y / s; case 3: return std::sinh(y) / s; case 4: return (y < 0 ? -3 : 1) / s; case 5: return (std::exp(y) - 1) / s; case 6: return 4 * y * (y * y - 1) / s; case 7: return (3 * std::cos(3 * y) + 0.2 * y) / s; case 8: return 2 * y * std::exp(-y * y) / s; case 10: return 2 * y / ((1 + y * y) * (1 + y * y)) / s; case 12: return 1 / s; case 13: return -3 * y * y / s; default: return 0; } }
	Real operator()(Real x) const override { if (++n > LIMIT) throw Stop(); Real v = sign * at(x); if (v < best) best = v; return v; }
	bool unimodal() const { return kind <= 5; } };
struct D1 : IRealFunction { const F1& f; D1(const F1& g) : f(g) {} Real operator()(Real x) const override { return f.sign * f.d(x); } };
static const Real CS[] = {0, 1, -3.7, 250, 1e-8, 1e6}, SS[] = {1, 1e-3, 40}, IV[][2] = {{0, 1}, {-1, 1}, {-2, 0.3}, {5, 4}, {-0.1, 0.1}, {30, 31}, {-1, 0}, {0, 0}};
static const char* NM[] = {"square", "abs", "quartic", "cosh", "kink", "exp", "wells", "ripples", "gauss", "stairs", "witch", "constant", "line", "cubic", "nan"};
MC_SCENARIO(bracket, 2) {
	F1 f(ctx.choose(15), CS[ctx.choose(6)], SS[ctx.choose(3)], ctx.flag() ? 5 : 0); const Real* iv = IV[ctx.choose(8)]; Real a = iv[0] * f.s + f.c, b = iv[1] * f.s + f.c; if (ctx.flag()) { a = iv[0]; b = iv[1]; } ctx.step(); std::string nm = ctx.cat(NM[f.kind], " c=", f.c, " s=", f.s, " k=", f.k, " from ", a, ",", b); MinimumBracket r; bool th = false, stop = false; try { r = M1::BracketMinimum(f, a, b); } catch (const Stop&) { stop = true; } catch (const std::exception&) { th = true; } ctx.check(!stop, "endless", nm); if (th || stop) { if (f.unimodal() && a != b && std::isfinite(f.at(a)) && std::isfinite(f.at(b)) && f.kind != 3 && f.kind != 5) ctx.check(false, "refused", nm); return; }
	bool fin = std::isfinite(r.ax) && std::isfinite(r.bx) && std::isfinite(r.cx); if (!r.valid) { ctx.check(!f.unimodal() && f.kind != 6 && f.kind != 7, "invalid", nm); return; } ctx.check(fin && std::isfinite(r.fb), "finite", nm, ": ", r.ax, " ", r.bx, " ", r.cx); if (!fin) return;
	ctx.check(r.fa == f.at(r.ax) && r.fb == f.at(r.bx) && r.fc == f.at(r.cx), "values", nm); ctx.check(r.fb <= r.fa && r.fb <= r.fc, "values-order", nm, r.fa, " ", r.fb, " ", r.fc); ctx.check((r.ax <= r.bx && r.bx <= r.cx) || (r.ax >= r.bx && r.bx >= r.cx), "order", nm, ": ", r.ax, " ", r.bx, " ", r.cx); if (f.unimodal()) ctx.check((r.ax - f.c) * (r.cx - f.c) <= 0 || f.at(f.c) >= r.fb, "contains", nm, ": ", r.ax, " ", r.cx); if (f.kind == 12 || f.kind == 13) ctx.check(false, "unbounded", nm, ": ", r.ax, " ", r.bx, " ", r.cx); ctx.nontrivial(); mc::Hash h; h.d(r.bx).d(r.cx); ctx.state(h);
}
MC_SCENARIO(line, 3) {
	F1 f(ctx.choose(11), CS[ctx.choose(6)], SS[ctx.choose(3)], ctx.flag() ? 5 : 0); const Real* iv = IV[ctx.choose(8)]; static const Real TL[] = {3e-8, 1e-4, 1e-12, 1e-14, 1e-17}; Real tol = TL[ctx.choose(5)]; Real a = iv[0] * f.s + f.c, b = iv[1] * f.s + f.c; if (ctx.flag()) { a = iv[0]; b = iv[1]; } int method = ctx.choose(3), lim = ctx.pick({100, 500, 5}); bool maxim = method < 2 && ctx.flag(), cfg = ctx.flag(), br = !maxim && !cfg && ctx.flag(); ctx.step(); std::string nm = ctx.cat(NM[f.kind], " c=", f.c, " s=", f.s, " k=", f.k, " from ", a, ",", b, " tol=", tol, " limit=", lim, " method ", method, maxim, cfg, br, " "); F1 g = f; if (!std::isfinite(f.at(a)) || !std::isfinite(f.at(b))) { ctx.prune(); } MinimumBracket mb; try { mb = M1::BracketMinimum(f, a, b); } catch (...) { ctx.prune(); } if (!mb.valid) ctx.prune();
	if (maxim) g.sign = -1; D1 dg(g); Minimization1DConfig c; c.tolerance = tol; c.max_iterations = lim; MR r; bool th = false, stop = false; int thIter = -1; std::string msg; g.n = 0; try {
		if (method == 0) r = maxim ? (cfg ? M1::GoldenSectionMaximize(g, a, b, tol) : M1::GoldenSectionMaximize(g, a, b, tol)) : br ? M1::GoldenSectionSearch(g, mb, tol) : cfg ? M1::GoldenSectionSearch(g, a, b, c) : M1::GoldenSectionSearch(g, a, b, tol); else if (method == 1) r = maxim ? (cfg ? M1::BrentMaximize(g, a, b, c) : M1::BrentMaximize(g, a, b, tol, lim)) : br ? M1::BrentMinimize(g, mb, tol, lim) : cfg ? M1::BrentMinimize(g, a, b, c) : M1::BrentMinimize(g, a, b, tol, lim); else r = br ? M1::BrentMinimizeWithDeriv(g, dg, mb, tol, lim) : cfg ? M1::BrentMinimizeWithDeriv(g, dg, a, b, c) : M1::BrentMinimizeWithDeriv(g, dg, a, b, tol, lim); } catch (const NumericInputError&) { ctx.prune(); } catch (const Stop&) { stop = true; } catch (const OptimizationError& e) { th = true; thIter = e.iterations(); msg = e.what(); }
	ctx.check(!stop, "endless", nm); if (stop) return; if (th) { ctx.check(method > 0 && thIter == lim, "gives-up", nm, msg); if (lim == 500 && tol > 1e-15) ctx.check(false, "no-convergence", nm, msg); return; } if (maxim) r.fmin = -r.fmin;
	bool flatNoise = false; Real fb = f.at(mb.bx); if (!r.converged) { ctx.check(cfg && r.status == AlgorithmStatus::MaxIterationsExceeded && !r.error_message.empty() && r.iterations >= lim, "status", nm); return; } ctx.check(r.status == AlgorithmStatus::Success, "status", nm); if (cfg) ctx.check((method > 0 || !maxim) ? !r.algorithm_name.empty() : true, "name", nm); if (method > 0 || cfg) ctx.check(r.iterations <= lim || (method == 0 && maxim), "limit", nm, r.iterations);
	ctx.check(r.fmin == f.at(r.xmin), "value", nm, ": ", r.fmin, " at ", r.xmin); Real lo = std::min(mb.ax, mb.cx), hi = std::max(mb.ax, mb.cx); ctx.check(r.xmin >= lo && r.xmin <= hi, "inside", nm, ": ", r.xmin, " of ", lo, ",", hi); if (method > 0 && br) ctx.check(r.fmin <= g.best + (g.sign < 0 ? INFINITY : 0), "best", nm, ": ", r.fmin, " best evaluated ", g.best); if (method > 0) ctx.check(r.fmin <= fb, "improves", nm);
	Real te = std::max(tol, 3e-16); if (method > 0 && tol < 1e-15) ; else if (f.unimodal()) { Real fs = f.at(f.c), dx = std::fabs(r.xmin - f.c); ctx.check(dx <= 6 * te * std::fabs(f.c) + 1e-15 * f.s + 3e-16 * std::fabs(f.c) || r.fmin <= fs + 2e-14 * std::fabs(fs) + 1e-25 || (method == 0 && f.c == 0 && r.fmin <= fs + 1e-15), "minimum", nm, ": ", r.xmin, " off ", dx, " f=", r.fmin - fs); }
	else if (f.kind != 9) { /* a local minimum: no lower value a few tolerances away */ Real h = 20 * te * std::fabs(r.xmin) + 1e-14 * f.s; Real ns = 8e-16 * (std::fabs(r.fmin) + std::fabs(f.k) + 1); if (h < 0.1 * f.s) ctx.check(f.at(r.xmin + h) >= r.fmin - ns && f.at(r.xmin - h) >= r.fmin - ns, "local-minimum", nm, ": ", r.xmin); } (void)flatNoise; ctx.nontrivial(); mc::Hash hh; hh.d(r.xmin); ctx.state(hh);
}
MC_SCENARIO(refusals, 1) {
	F1 f(0, 0, 1, 0); D1 d(f); MinimumBracket none; auto T = [](auto g) { try { g(); } catch (const NumericInputError&) { return true; } catch (...) {} return false; }; static const Real BAD[] = {0, -1, NAN, INFINITY}; Real t = BAD[ctx.choose(4)]; ctx.step(); ctx.check(T([&] { M1::GoldenSectionSearch(f, 0, 1, t); }) && T([&] { M1::BrentMinimize(f, 0, 1, t); }) && T([&] { M1::BrentMinimizeWithDeriv(f, d, 0, 1, t); }) && T([&] { M1::BrentMaximize(f, 0, 1, t); }), "tolerance", t); ctx.check(T([&] { M1::GoldenSectionSearch(f, none); }) && T([&] { M1::BrentMinimize(f, none); }) && T([&] { M1::BrentMinimizeWithDeriv(f, d, none); }), "bracket"); ctx.check(T([&] { M1::BrentMinimize(f, 0, 1, 1e-8, 0); }) && T([&] { M1::BrentMinimizeWithDeriv(f, d, 0, 1, 1e-8, -3); }), "limit"); ctx.check(T([&] { M1::BracketMinimum(f, NAN, 1); }) && T([&] { M1::BracketMinimum(f, 0, INFINITY); }), "bounds"); ctx.nontrivial();
}
// ---- several dimensions
namespace OP = MML::Optimization;
template<int N> struct FN : OP::IDifferentiableScalarFunction<N> { typedef VectorN<Real, N> P; int kind; Real c[3], s, k; Real A[3][3]; mutable int n = 0; mutable Real best = INFINITY; Real sign = 1;
	Real at(const P& x) const { Real y[N], v = 0; for (int i = 0; i < N; i++) y[i] = x[i] - c[i]; switch (kind) { case 0: for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) v += 0.5 * A[i][j] * y[i] * y[j]; break; case 1: for (int i = 0; i < N; i++) v += y[i] * y[i] * y[i] * y[i] + y[i] * y[i] * (i + 1); break; case 2: for (int i = 0; i < N; i++) v += std::cosh(y[i] * (1 + 0.5 * i)) - 1; for (int i = 0; i + 1 < N; i++) v += (y[i] - y[i + 1]) * (y[i] - y[i + 1]); break; default: if (N == 1) v = y[0] * y[0]; else for (int i = 0; i + 1 < N; i++) { Real u = y[i] + 1, w = y[i + 1] + 1; v += 100 * (w - u * u) * (w - u * u) + (1 - u) * (1 - u); } } return s * v + k; }
	Real operator()(const P& x) const override { if (++n > LIMIT) throw Stop(); Real v = at(x); if (v < best) best = v; return sign * v; }
	void Gradient(const P& x, P& g) const override { Real y[N]; for (int i = 0; i < N; i++) { y[i] = x[i] - c[i]; g[i] = 0; } switch (kind) { case 0: for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) g[i] += A[i][j] * y[j]; break; case 1: for (int i = 0; i < N; i++) g[i] = 4 * y[i] * y[i] * y[i] + 2 * (i + 1) * y[i]; break; case 2: for (int i = 0; i < N; i++) g[i] = (1 + 0.5 * i) * std::sinh(y[i] * (1 + 0.5 * i)); for (int i = 0; i + 1 < N; i++) { g[i] += 2 * (y[i] - y[i + 1]); g[i + 1] -= 2 * (y[i] - y[i + 1]); } break; default: if (N == 1) g[0] = 2 * y[0]; else for (int i = 0; i + 1 < N; i++) { Real u = y[i] + 1, w = y[i + 1] + 1; g[i + 1] += 200 * (w - u * u); g[i] += -400 * u * (w - u * u) - 2 * (1 - u); } } for (int i = 0; i < N; i++) g[i] *= sign * s; }
	bool quadratic() const { return kind == 0; } };
static const Real AA[][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{1, 0, 0}, {0, 4, 0}, {0, 0, 9}}, {{2, 1, 0}, {1, 2, 1}, {0, 1, 2}}, {{4, -3, 1}, {-3, 5, 0}, {1, 0, 3}}, {{100, 0, 0}, {0, 1, 0}, {0, 0, 10}}, {{10, 9, 0}, {9, 10, 0}, {0, 0, 1}}};
static const Real CC[][3] = {{0, 0, 0}, {1, -2, 3}, {0.3, 0.7, -0.2}, {100, 50, -20}};
static const Real ST[][3] = {{0, 0, 0}, {1, 1, 1}, {-1.5, 2, 0.5}, {3, 0, -1}, {0, 1, 0}, {5, -4, 7}, {-0.5, -0.5, -0.5}};
template<int N> static void multi(mc::Ctx& ctx) {
	FN<N> f; f.kind = ctx.choose(4); int a = f.kind == 0 ? ctx.choose(N == 1 ? 2 : 6) : 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) f.A[i][j] = AA[a][i][j] * (N == 1 && a ? 7 : 1); const Real* cc = CC[ctx.choose(4)]; for (int i = 0; i < 3; i++) f.c[i] = cc[i]; f.s = ctx.pick({1.0, 1e-4, 1e5}); f.k = ctx.pick({0.0, 3.0, -200.0}); const Real* st = ST[ctx.choose(7)]; bool far = ctx.flag(); VectorN<Real, N> x0; for (int i = 0; i < N; i++) x0[i] = st[i] + (far ? 0 : f.c[i]);
	if (far && cc[0] == 100 && (f.kind == 2 || f.kind == 3)) ctx.prune(); int method = ctx.choose(6); Real tol = ctx.pick({3e-8, 1e-12}); int lim = ctx.pick({5000, 3, 1}); bool cfg = ctx.flag(), maxim = method == 0 && ctx.flag(); ctx.step(); if (maxim) { f.sign = -1; if (!cfg) lim = 5000; } static const char* MN[] = {"nelder-mead", "powell", "polak-ribiere", "fletcher-reeves", "bfgs", "lbfgs"}; std::string nm = ctx.cat(MN[method], maxim ? " maximum" : "", " N=", N, " kind ", f.kind, " A", a, " c=", f.c[0], " s=", f.s, " k=", f.k, " start ", x0[0], ",", N > 1 ? x0[N - 1] : 0, " tol=", tol, " limit=", lim, cfg ? " config" : "");
	OP::MultidimOptimizationConfig c(tol, lim); c.lbfgs_memory_size = 1 + a; MD r; bool th = false, stop = false; std::string msg; OP::NelderMead nmz(tol, lim); try { switch (method) {
		case 0: r = cfg ? (maxim ? OP::NelderMeadMaximize(f, x0, c) : OP::NelderMeadMinimize(f, x0, c)) : maxim ? OP::NelderMeadMaximize(f, x0, 1.0, tol) : nmz.Minimize(f, x0, 1.0); break;
		case 1: if (cfg) r = OP::PowellMinimize(f, x0, c); else { OP::Powell o(tol, lim); r = o.Minimize(f, x0); } break;
		case 2: case 3: { auto m = method == 2 ? OP::ConjugateGradient::Method::PolakRibiere : OP::ConjugateGradient::Method::FletcherReeves; if (cfg) r = OP::ConjugateGradientMinimize(f, x0, c, m); else { OP::ConjugateGradient o(tol, 1e-8, lim, m); r = o.Minimize(f, x0); } break; }
		case 4: if (cfg) r = OP::BFGSMinimize(f, x0, c); else { OP::BFGS o(tol, 1e-8, lim); r = o.Minimize(f, x0); } break;
		default: if (cfg) r = OP::LBFGSMinimize(f, x0, c); else { OP::LBFGS o(tol, 1e-8, lim, 1 + a); r = o.Minimize(f, x0); } } } catch (const Stop&) { stop = true; } catch (const std::exception& e) { th = true; msg = e.what(); }
	ctx.check(!stop, "endless", nm); bool over = (method == 2 || method == 3 || method == 1) && f.kind == 2 && f.s >= 1; /* the first step overflows */ ctx.check(!th || over, "refused", nm, " ", msg); if (stop || th) return; if (maxim) r.fmin = -r.fmin; ctx.check(r.xmin.size() == N, "size", nm); if (r.xmin.size() != N) return; VectorN<Real, N> x; for (int i = 0; i < N; i++) x[i] = r.xmin[i]; Real fx = f.at(x); ctx.check(r.fmin == fx, "value", nm, ": ", r.fmin, " at x: ", fx); ctx.check(f.at(x) <= f.at(x0), "worse-than-start", nm, ": ", f.at(x), " from ", f.at(x0)); if (method == 0) ctx.check(fx <= f.best, "best", nm, ": ", f.at(x), " evaluated ", f.best); if (cfg) ctx.check((r.status == AlgorithmStatus::Success) == r.converged && r.error_message.empty() == r.converged && !r.algorithm_name.empty(), "status", nm);
	int cap = lim; if (method == 0) ctx.check(r.iterations == f.n && r.iterations <= lim + 2 * N + 3 && (!cfg || r.function_evaluations == f.n), "evaluations", nm, r.iterations, " of ", f.n); else ctx.check(r.iterations <= cap && (r.converged || r.iterations == cap), "iterations", nm, r.iterations); Real fs = f.k, sc = std::fabs(fs), ex = f.at(x) - fs;
	if (lim == 5000 && (method || tol > 1e-10) && !(method == 3 && f.kind == 3)) ctx.check(r.converged, "not-converged", nm, r.iterations); if (r.converged && lim == 5000) { Real tolf = f.kind == 3 ? 1e-3 : 1e-4; bool vague = f.k != 0 && f.s < 1; /* the function tolerance is relative to the offset */ if (!vague && !(method == 3 && f.kind == 3)) ctx.check(ex <= tolf * f.s * (f.kind == 3 && f.k != 0 ? 20 : 1) || ex <= 300 * tol * (sc + 1e-8), "minimum", nm, ": excess ", ex, " at ", x[0], " iterations ", r.iterations); Real dx = 0; for (int i = 0; i < N; i++) dx = std::max(dx, std::fabs(x[i] - f.c[i])); if (sc == 0 && f.kind != 3) ctx.check(dx <= 1e-2, "minimizer", nm, ": off by ", dx); if (f.quadratic() && method >= 1 && method <= 3) ctx.check(r.iterations <= 4 * N + 12, "finite-termination", nm, r.iterations); if (method >= 4 && f.quadratic()) ctx.check(r.iterations <= (method == 4 || 1 + a >= N ? 45 : 150), "superlinear", nm, r.iterations); } ctx.nontrivial(); mc::Hash h; h.d(fx).u(r.iterations); ctx.state(h);
}
MC_SCENARIO(multi1, 3) { multi<1>(ctx); }
MC_SCENARIO(multi2, 3) { multi<2>(ctx); }
MC_SCENARIO(multi3, 3) { multi<3>(ctx); }
