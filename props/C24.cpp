// numerical and automatic differentiation: stencils exact to their order, honest error estimates and counts, exact duals
// mc-flags: -O1
#include "mc.h"
#include "mml/core/Derivation/ForwardAD.h"
#include "mml/base/Function.h"
#include "mml/core/Derivation.h"
#include "mml/interfaces/ITensorField.h"
#include <complex>
using namespace MML; namespace D = MML::Derivation; typedef long double L;
struct RF : IRealFunction { std::function<double(double)> f; mutable long n = 0; mutable double lo = INFINITY, hi = -INFINITY; RF(std::function<double(double)> g) : f(g) {} Real operator()(Real x) const override { n++; lo = std::min(lo, x); hi = std::max(hi, x); return f(x); } };
// derivative order, exactness degree, first inexact degree, stencil radius without / with error estimate, evaluations without / with
struct Rule { const char* name; int der, ord, ro, rw, eo, ew; double defh; };
static const Rule RU[] = {{"NDer1", 1, 1, 1, 1, 2, 3, 0}, {"NDer2", 1, 2, 1, 2, 2, 4, 1}, {"NDer4", 1, 4, 2, 3, 4, 6, 2}, {"NDer6", 1, 6, 3, 4, 6, 8, 3}, {"NDer8", 1, 8, 4, 5, 8, 10, 4}, {"NSecDer2", 2, 3, 1, 2, 3, 5, 1}, {"NSecDer4", 2, 5, 2, 3, 5, 7, 2}, {"NThirdDer2", 3, 4, 2, 3, 4, 6, 2}, {"NThirdDer4", 3, 6, 3, 4, 6, 8, 2}};
static double stdstep(int i) { const double h[] = {D::NDer1_h, D::NDer2_h, D::NDer4_h, D::NDer6_h, D::NDer8_h}; return h[(int)RU[i].defh]; }
static double simple(int i, const IRealFunction& f, double x, double h, Real* e) { switch (i) { case 0: return D::NDer1(f, x, h, e); case 1: return D::NDer2(f, x, h, e); case 2: return D::NDer4(f, x, h, e); case 3: return D::NDer6(f, x, h, e); case 4: return D::NDer8(f, x, h, e); case 5: return D::NSecDer2(f, x, h, e); case 6: return D::NSecDer4(f, x, h, e); case 7: return D::NThirdDer2(f, x, h, e); default: return D::NThirdDer4(f, x, h, e); } }
static double simpled(int i, const IRealFunction& f, double x, Real* e) { switch (i) { case 0: return e ? D::NDer1(f, x, e) : D::NDer1(f, x); case 1: return e ? D::NDer2(f, x, e) : D::NDer2(f, x); case 2: return e ? D::NDer4(f, x, e) : D::NDer4(f, x); case 3: return e ? D::NDer6(f, x, e) : D::NDer6(f, x); case 4: return e ? D::NDer8(f, x, e) : D::NDer8(f, x); case 5: return D::NSecDer2(f, x, e); case 6: return D::NSecDer4(f, x, e); case 7: return D::NThirdDer2(f, x, e); default: return D::NThirdDer4(f, x, e); } }
static DerivativeResult<Real> det(int i, const IRealFunction& f, double x, double h, const DerivativeConfig& c) { switch (i) { case 0: return D::NDer1Detailed(f, x, h, c); case 1: return D::NDer2Detailed(f, x, h, c); case 2: return D::NDer4Detailed(f, x, h, c); case 3: return D::NDer6Detailed(f, x, h, c); case 4: return D::NDer8Detailed(f, x, h, c); case 5: return D::NSecDer2Detailed(f, x, h, c); case 6: return D::NSecDer4Detailed(f, x, h, c); case 7: return D::NThirdDer2Detailed(f, x, h, c); default: return D::NThirdDer4Detailed(f, x, h, c); } }
static DerivativeResult<Real> detd(int i, const IRealFunction& f, double x, const DerivativeConfig& c) { switch (i) { case 0: return D::NDer1Detailed(f, x, c); case 1: return D::NDer2Detailed(f, x, c); case 2: return D::NDer4Detailed(f, x, c); case 3: return D::NDer6Detailed(f, x, c); case 4: return D::NDer8Detailed(f, x, c); case 5: return D::NSecDer2Detailed(f, x, c); case 6: return D::NSecDer4Detailed(f, x, c); case 7: return D::NThirdDer2Detailed(f, x, c); default: return D::NThirdDer4Detailed(f, x, c); } }
static L ff(int d, int k) { L r = 1; for (int i = 0; i < k; i++) r *= d - i; return r; }
static L mono(L x, int d, int der) { return der > d ? 0 : ff(d, der) * powl(x, d - der); }
// equal up to rounding (a variant may sum in another order)
static bool eqr(double a, double b) { return a == b || std::fabs(a - b) <= 1e-5 * (std::fabs(a) + std::fabs(b)) + 1e-7; }
static bool ok(L got, L want, L scale, double tol) { return std::isfinite((double)got) && fabsl(got - want) <= tol * (scale + fabsl(want)); }
// every stencil on every polynomial up to one degree beyond its order: exact below, and the estimate is the truncation error itself there
MC_SCENARIO(stencils, 2) {
	int i = ctx.choose(9); auto& R = RU[i]; int d = ctx.range(0, R.ord + 1), d2 = ctx.range(0, std::max(0, d - 1)); double x = ctx.pick({0.0, 1.0, -1.5, 3.0, -0.75}), h = ctx.pick({0.5, 0.25, 1.0, 0.0625}); double c1 = ctx.pick({1.0, -2.5}), c2 = ctx.pick({0.0, 3.0}); auto P = [=](double t) { return (double)(c1 * mono(t, d, 0) + c2 * mono(t, d2, 0)); }; RF f(P); L ex = c1 * mono(x, d, R.der) + c2 * mono(x, d2, R.der); std::string nm = ctx.cat(R.name, " of ", c1, "x^", d, "+", c2, "x^", d2, " at ", x, " h ", h); double w = std::fabs(x) + R.rw * h; L mag = fabsl(c1) * powl(std::max(1.0, w), d) + fabsl(c2) * powl(std::max(1.0, w), d2), rnd = 200 * 2.3e-16L * mag / powl(h, R.der); ctx.step();
	Real e = -7; double v = simple(i, f, x, h, nullptr); ctx.check(f.n == R.eo && f.lo >= x - R.ro * h && f.hi <= x + R.ro * h, "evaluations", nm, ": ", f.n); f.n = 0; double v2 = simple(i, f, x, h, &e); ctx.check(f.n == R.ew && f.lo >= x - R.rw * h && f.hi <= x + R.rw * h, "evaluations", nm, " with error: ", f.n); ctx.check(eqr(v2, v) || fabsl(v2 - v) <= rnd, "variants", nm); L te = fabsl(v - ex); ctx.check(e >= 0, "error-sign", nm);
	if (d <= R.ord) { ctx.check(te <= rnd, "exactness", nm, ": ", v, " expected ", (double)ex); ctx.check(e <= rnd, "error-of-exact", nm, ": error estimate ", e); } else { L T; switch (i) { case 0: T = h; break; case 1: T = h * h; break; case 2: T = 4 * powl(h, 4); break; case 3: T = 36 * powl(h, 6); break; case 4: T = 576 * powl(h, 8); break; case 5: T = 2 * h * h; break; case 6: T = 8 * powl(h, 4); break; case 7: T = 30 * h * h; break; default: T = 294 * powl(h, 4); } T *= fabsl(c1); ctx.check(fabsl(te - T) <= rnd, "truncation", nm, ": error ", (double)te, " expected ", (double)T); ctx.check(fabsl(e - te) <= rnd, "error-estimate", nm, ": estimate ", e, " true ", (double)te); }
	DerivativeConfig c; for (int q = 0; q < 2; q++) { c.estimate_error = q; c.step = 0; f.n = 0; auto r = det(i, f, x, h, c); ctx.check((eqr(r.value, v) || fabsl(r.value - v) <= rnd) && (eqr(r.error, q ? e : 0) || (q && fabsl(r.error - e) <= rnd)) && r.step_used == h && r.function_evaluations == f.n && f.n == (q ? R.ew : R.eo) && r.IsSuccess(), "detailed", nm, ": reported ", r.function_evaluations, " evaluations, made ", f.n); c.step = h; auto r2 = detd(i, f, x, c); ctx.check((eqr(r2.value, v) || fabsl(r2.value - v) <= rnd) && r2.step_used == h && (eqr(r2.error, r.error) || fabsl(r2.error - r.error) <= rnd), "detailed-step", nm); } ctx.state(mc::Hash().u(i).u(d).u(d2).d(x).d(h).d(c1).d(c2)); ctx.outcome(mc::Hash().d(v).d(e)); ctx.nontrivial(); }
struct F1 { const char* name; std::function<double(double)> f; std::function<L(L, int)> d; };
static const std::vector<F1>& fam() { static std::vector<F1> v = {{"sin", [](double t) { return std::sin(t); }, [](L t, int k) { return sinl(t + k * 1.57079632679489661923L); }}, {"exp", [](double t) { return std::exp(0.8 * t); }, [](L t, int k) { return powl(0.8L, k) * expl(0.8L * t); }}, {"1/(t+4)", [](double t) { return 1 / (t + 4); }, [](L t, int k) { return (k % 2 ? -1 : 1) * (k < 2 ? 1 : k == 2 ? 2 : 6) / powl(t + 4, k + 1); }}, {"cos(2t+0.3)", [](double t) { return std::cos(2 * t + 0.3); }, [](L t, int k) { return powl(2, k) * cosl(2 * t + 0.3L + k * 1.57079632679489661923L); }}, {"log(t+4)", [](double t) { return std::log(t + 4); }, [](L t, int k) { return (k == 1 ? 1 : k == 2 ? -1 : 2) / powl(t + 4, k); }}}; return v; }
MC_SCENARIO(default_steps, 1) { // default steps: scaled with the argument, accurate at every magnitude, estimate covers the error
	static const double X0[] = {0, 0.7, -0.7, 1, -1.9, 2.5}; int i = ctx.choose(9), fi = ctx.choose(5); double u = X0[ctx.choose(6)], S = ctx.pick({1.0, 10.0, 1e3, 1e6, 1e10}); auto& F = fam()[fi]; double x = u * S; RF f([&](double t) { return F.f(t / S); }); auto& R = RU[i]; double sc = S; L ex = F.d((L)x / S, R.der) / powl(sc, R.der); double h = stdstep(i) * std::max(1.0, std::fabs(x)); std::string nm = ctx.cat(R.name, " ", F.name, " at ", x, " scale ", S); DerivativeConfig c; ctx.step(); Real e = -1; double v = simpled(i, f, x, &e); double lo = f.lo, hi = f.hi; auto r = detd(i, f, x, c); ctx.check(mc::near(r.step_used / h, 1, 1e-12) && lo >= x - R.rw * h * 1.0001 && hi <= x + R.rw * h * 1.0001 && hi > x + 0.5 * h, "default-step", nm, ": ", r.step_used); ctx.check(eqr(r.value, v) && eqr(r.error, e) && eqr(simpled(i, f, x, nullptr), v), "variants", nm);
	static const double TOL[] = {1e-7, 3e-9, 3e-10, 1e-10, 1e-9, 2e-4, 1e-8, 1e-4, 1e-5}; bool conditioned = std::fabs(x) < 1 ? S == 1 : u != 0; if (conditioned || S >= 1) { double s0 = std::max(std::fabs(x), 1.0) / S; L scale = powl(1 / std::min(s0, 1.0), R.der) * 3 / powl(sc, R.der); ctx.check(ok(v, ex, scale, TOL[i]), "default-accuracy", nm, ": ", v, " expected ", (double)ex); ctx.check(fabsl(v - ex) <= 30 * e + 1e-15 * scale, "default-estimate", nm, ": error ", (double)fabsl(v - ex), " estimate ", e); ctx.check(e <= 100 * TOL[i] * (scale + fabsl(ex)), "default-estimate", nm, ": estimate ", e); }
	if (i == 2) { Real e2; ctx.check(eqr(D::Derive(f, x), v) && eqr(D::DeriveErr(f, x, &e2), v) && eqr(e2, e), "alias", nm); } if (i == 6) { Real e2; ctx.check(eqr(D::DeriveSec(f, x, &e2), v) && eqr(e2, e), "alias", nm); } if (i == 7) { Real e2; ctx.check(eqr(D::DeriveThird(f, x, &e2), v) && eqr(e2, e), "alias", nm); } ctx.state(mc::Hash().u(i).u(fi).d(u).d(S)); ctx.outcome(mc::Hash().d(v)); ctx.nontrivial(); }
MC_SCENARIO(one_sided, 1) { // Left never looks right of x, Right never left of it, and both are the one-sided slope of a corner
	int i = ctx.choose(5), side = ctx.choose(2), mode = ctx.choose(4); double x = ctx.pick({0.0, 1.0, -2.0, 100.0, -3e5}), sl = ctx.pick({2.0, -1.0}), sr = ctx.pick({1.0, 5.0}); double h = 0.125 * (mode >= 2 ? ctx.pick({1.0, 0.25}) : 1); RF f([=](double t) { return 3 + (t < x ? sl : sr) * (t - x); }); Real e = -1; Real* pe = mode & 1 ? &e : nullptr; double v = 0; ctx.step(); std::string nm = ctx.cat(RU[i].name, side ? "Right" : "Left", " mode ", mode, " at ", x, " slopes ", sl, ",", sr);
#define OS(N) case N: if (mode < 2) v = side ? D::NDer##N##Right(f, x, pe) : D::NDer##N##Left(f, x, pe); else v = side ? D::NDer##N##Right(f, x, h, pe) : D::NDer##N##Left(f, x, h, pe); break;
	switch (RU[i].ord) { OS(1) OS(2) OS(4) OS(6) OS(8) } double slack = 1e-9 * std::max(1.0, std::fabs(x)); ctx.check(side ? f.lo >= x - slack : f.hi <= x + slack, "wrong-side", nm, ": evaluated in [", f.lo, ", ", f.hi, "]"); ctx.check(ok(v, side ? sr : sl, 1, mode < 2 ? 1e-6 : 1e-9), "one-sided-value", nm, ": ", v); if (pe) ctx.check(e >= 0 && e <= (mode < 2 ? 1e-4 : 1e-7), "one-sided-error", nm, ": ", e); double far = (mode < 2 ? stdstep(i) * std::max(1.0, std::fabs(x)) : h) * 12; ctx.check(f.lo >= x - far && f.hi <= x + far, "reach", nm); ctx.state(mc::Hash().s(nm).d(h)); ctx.outcome(mc::Hash().d(v)); ctx.nontrivial(); }
MC_SCENARIO(detailed_failures, 1) { // throwing / non-finite functions and bad steps: statuses follow the policy at every evaluation index
	int i = ctx.choose(9), kind = ctx.choose(7), pol = ctx.choose(2), est = ctx.choose(2); auto& R = RU[i]; int n = est ? R.ew : R.eo, at = kind < 4 ? ctx.range(0, n) : n; DerivativeConfig c; c.estimate_error = est; c.exception_policy = pol ? EvaluationExceptionPolicy::ConvertToStatus : EvaluationExceptionPolicy::Propagate; c.check_finite = ctx.flag(); long k = 0; double h = kind == 4 ? 0.0 : kind == 5 ? -0.5 : kind == 6 ? std::nan("") : 0.5; RF f([&](double t) -> double { if (k++ == at) { if (kind == 0) throw std::runtime_error("user"); if (kind == 1) throw NumericInputError("user"); if (kind == 2) return std::nan(""); if (kind == 3) return INFINITY; } return t * t + std::sin(t); }); DerivativeResult<Real> r; std::string e; ctx.step(); bool th = mc::throws([&] { r = det(i, f, 1.0, h, c); }, &e); std::string nm = ctx.cat(R.name, " kind ", kind, " at evaluation ", at, " of ", n, " policy ", pol, " check ", c.check_finite);
	bool fail = kind < 2 ? at < n : kind < 4 ? at < n && c.check_finite : true; if (!fail) ctx.check(!th && r.IsSuccess() && r.error_message.empty(), "spurious-failure", nm, ": ", e); else if (!pol) ctx.check(th, "propagate", nm); else { auto want = kind == 0 ? AlgorithmStatus::AlgorithmSpecificFailure : kind == 1 || kind >= 4 ? AlgorithmStatus::InvalidInput : AlgorithmStatus::NumericalInstability; ctx.check(!th && !r.IsSuccess() && r.status == want && !r.error_message.empty() && r.algorithm_name == R.name, "status", nm, ": ", e); } if (kind >= 4) ctx.check(f.n == 0, "bad-step-evaluates", nm); ctx.state(mc::Hash().s(nm).u(est)); ctx.outcome(mc::Hash().u(th).u((int)r.status)); ctx.nontrivial(); }
MC_SCENARIO(richardson, 1) { // extrapolated derivatives: accurate, estimate covers the error, every iteration bound is usable
	int der = ctx.range(1, 3), fi = ctx.choose(13), it = ctx.choose(13) - 1; double x = ctx.pick({0.0, 1.0, -1.5, 2.0}), h = ctx.pick({0.1, 0.4, -0.2, 0.0}), con = ctx.pick({1.4, 2.0}); int deg = fi - 5; std::function<double(double)> g; L ex; if (fi < 5) { g = fam()[fi].f; ex = fam()[fi].d(x, der); } else { g = [deg](double t) { return (double)mono(t, deg, 0); }; ex = mono(x, deg, der); } RF f(g); auto call = [&](double hh, Real* e, int m, double cn) { return der == 1 ? D::NDerRichardson(f, x, hh, e, m, cn) : der == 2 ? D::NSecDerRichardson(f, x, hh, e, m, cn) : D::NThirdDerRichardson(f, x, hh, e, m, cn); }; Real e = -1; ctx.step(); std::string nm = ctx.cat("Richardson ", der, " function ", fi, " at ", x, " h ", h, " iterations ", it, " con ", con); double v = call(h, &e, it, con); ctx.check(eqr(call(h, nullptr, it, con), v), "variants", nm); ctx.check(e >= 0, "error-sign", nm);
	if (h == 0 || it < 1) ctx.check(e > 1e300 && f.n == 0, "no-work", nm); else { double w = (der == 3 ? 2 : 1) * std::fabs(h) * 1.0001; ctx.check(f.lo >= x - w && f.hi <= x + w, "reach", nm); static const double T[] = {0, 1e-10, 1e-8, 1e-6}; L S = 10 + powl(4, std::max(0, deg)); if (it >= 8 && con < 2 && h == 0.1) ctx.check(ok(v, ex, S, T[der]), "richardson-value", nm, ": ", v, " expected ", (double)ex); if (it > 1) ctx.check(fabsl(v - ex) <= 2 * e + 1e-13 * S / powl(std::fabs(h) / powl(con, it), der), "richardson-error", nm, ": error ", (double)fabsl(v - ex), " estimate ", e); if (it == 1) ctx.check(e > 1e300, "richardson-error", nm, ": one evaluation has no error estimate"); }
	if (it == 0 && h == 0.1) { Real e1 = -1, e2 = -1, e3 = -1; double d = der == 3 ? 0.2 : 0.1; double v1 = call(d, &e1, 10, 1.4); double v2 = der == 1 ? D::NDerRichardson(f, x, &e2) : der == 2 ? D::NSecDerRichardson(f, x, &e2) : D::NThirdDerRichardson(f, x, &e2); double v3 = der == 1 ? D::NDerAdaptive(f, x, &e3) : der == 2 ? D::NSecDerAdaptive(f, x, &e3) : D::NThirdDerAdaptive(f, x, &e3); ctx.check(eqr(v1, v2) && eqr(v1, v3) && eqr(e1, e2) && eqr(e1, e3), "adaptive", nm); } ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(v)); if (it > 1 && h != 0) ctx.nontrivial(); }
// ---- partial derivatives: monomials x^a y^b z^c
template<int N> struct SF : IScalarFunction<N> { std::function<double(const VectorN<Real, N>&)> f; mutable long n = 0; Real operator()(const VectorN<Real, N>& x) const override { n++; return f(x); } };
template<int N> static L mon(const VectorN<Real, N>& p, const int* e, const int* d) { L r = 1; for (int i = 0; i < N; i++) r *= mono(p[i], e[i], d[i]); return r; }
static const int KS[] = {1, 2, 4, 6, 8};
#define BYK(k, X) switch (k) { case 1: { X(1) break; } case 2: { X(2) break; } case 4: { X(4) break; } case 6: { X(6) break; } default: { X(8) break; } }
MC_SCENARIO(scalar_partials, 2) {
	int k = KS[ctx.choose(5)], v = ctx.choose(3), mode = ctx.choose(3); int e[3]; for (int q = 0; q < 3; q++) e[q] = q == v ? ctx.range(0, std::min(k, 5) + 1) : ctx.range(0, 2); VectorN<Real, 3> p[] = {{0.5, -1.25, 2}, {1, 1, 1}, {-2, 0.75, 40}}; auto x = p[ctx.choose(3)]; SF<3> f; int z[3] = {0, 0, 0}; f.f = [&](const VectorN<Real, 3>& q) { return (double)mon<3>(q, e, z); }; int d[3] = {0, 0, 0}; d[v] = 1; L ex = mon<3>(x, e, d); double h = mode == 2 ? 0 : 0.25; Real er = -1; VectorN<Real, 3> ev, all, all0; double r = 0, r0 = 0; ctx.step(); std::string nm = ctx.cat("NDer", k, "Partial ", v, " of exponents ", e[0], e[1], e[2], " at ", x[0], ",", x[1], ",", x[2], " mode ", mode);
#define X(K) if (mode < 2) { r = D::NDer##K##Partial(f, v, x, h, &er); r0 = D::NDer##K##Partial(f, v, x, h); all = D::NDer##K##PartialByAll(f, x, h, &ev); all0 = D::NDer##K##PartialByAll(f, x, h); } else { r = D::NDer##K##Partial(f, v, x, &er); r0 = D::NDer##K##Partial(f, v, x); all = D::NDer##K##PartialByAll(f, x, &ev); all0 = D::NDer##K##PartialByAll(f, x); }
	BYK(k, X)
#undef X
	L oth = 1; for (int q = 0; q < 3; q++) if (q != v) oth *= powl(std::fabs(x[q]), e[q]); L mag = oth * powl(std::fabs(x[v]) + 1.5, e[v]); ctx.check(eqr(r, r0) && eqr(all[v], r) && eqr(ev[v], er) && eqr(all0[v], r), "variants", nm); if (mode < 2) { if (e[v] <= k) { ctx.check(fabsl(r - ex) <= 1e-12 * mag, "partial-exact", nm, ": ", r, " expected ", (double)ex); ctx.check(er >= 0 && er <= 1e-12 * mag + 1e-300, "partial-estimate", nm, ": ", er); } else ctx.check(fabsl(fabsl(r - ex) - er) <= 1e-12 * mag && (fabsl(r - ex) > 1e-6 * oth), "partial-estimate", nm, ": error ", (double)fabsl(r - ex), " estimate ", er); } else { ctx.check(ok(r, ex, mag / std::max(1.0, std::fabs(x[v])), k == 1 ? 1e-6 : 1e-8), "partial-default", nm, ": ", r, " expected ", (double)ex); ctx.check(fabsl(r - ex) <= 30 * er + 1e-14 * mag, "partial-estimate", nm); }
	for (int q = 0; q < 3; q++) { int dd[3] = {0, 0, 0}; dd[q] = 1; L eq = mon<3>(x, e, dd); L s = 1; for (int j = 0; j < 3; j++) s *= powl(std::fabs(x[j]) + 1, e[j]); if (mode == 2 || e[q] <= k) ctx.check(ok(all[q], eq, s, k == 1 && mode == 2 ? 1e-5 : 1e-7), "partial-by-all", nm, " component ", q); ctx.check(ev[q] >= 0, "error-sign", nm); } if (k == 4 && mode == 2) { Real e2 = -1; VectorN<Real, 3> e3; ctx.check(eqr(D::DerivePartial<3>(f, v, x, &e2), r) && eqr(e2, er) && eqr(D::DerivePartialAll<3>(f, x, &e3)[v], r), "alias", nm); } ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(r)); ctx.nontrivial(); }
MC_SCENARIO(second_partials, 2) {
	int k = ctx.pick({2, 4}), a = ctx.choose(3), b = ctx.choose(3), mode = ctx.choose(3), pi = ctx.choose(3); int e[3]; int lim = a == b ? k + 2 : k; for (int q = 0; q < 3; q++) e[q] = q == a ? ctx.range(0, lim) : q == b ? ctx.range(0, 2) : ctx.range(0, 1); VectorN<Real, 3> p[] = {{0.5, -1.25, 2}, {1, 1, 1}, {-2, 3e5, 30}}; auto x = p[pi]; SF<3> f; int z[3] = {0, 0, 0}; f.f = [&](const VectorN<Real, 3>& q) { return (double)mon<3>(q, e, z); }; int d[3] = {0, 0, 0}; d[a]++; d[b]++; L ex = mon<3>(x, e, d); double h = mode == 1 ? 0.125 : 0.25; Real er = -1; double r, r0; ctx.step(); if (k == 2) { r = mode < 2 ? D::NSecDer2Partial(f, a, b, x, h, &er) : D::NSecDer2Partial(f, a, b, x, &er); r0 = mode < 2 ? D::NSecDer2Partial(f, a, b, x, h) : D::NSecDer2Partial(f, a, b, x); } else { r = mode < 2 ? D::NSecDer4Partial(f, a, b, x, h, &er) : D::NSecDer4Partial(f, a, b, x, &er); r0 = mode < 2 ? D::NSecDer4Partial(f, a, b, x, h) : D::NSecDer4Partial(f, a, b, x); } std::string nm = ctx.cat("NSecDer", k, "Partial ", a, ",", b, " of exponents ", e[0], e[1], e[2], " at point ", pi, " mode ", mode); L mag = 1; for (int q = 0; q < 3; q++) mag *= powl(std::fabs(x[q]) + (q == a || q == b ? 1 : 0), e[q]);
	ctx.check(eqr(r, r0) && er >= 0, "variants", nm); if (mode < 2) { L rnd = 1e-13 * mag / (h * h); if (a != b || e[a] <= k + 1) ctx.check(fabsl(r - ex) <= rnd, "second-exact", nm, ": ", r, " expected ", (double)ex); else ctx.check(fabsl(fabsl(r - ex) - er) <= rnd, "second-estimate", nm, ": error ", (double)fabsl(r - ex), " estimate ", er); if (a == b && e[a] <= k + 1) ctx.check(er <= rnd, "second-estimate", nm, ": estimate ", er); } else { L s = mag / std::max(1.0, std::max(std::fabs(x[a]), std::fabs(x[b]))); ctx.check(ok(r, ex, s, k == 2 ? 1e-3 : 1e-6), "second-default", nm, ": ", r, " expected ", (double)ex); } if (k == 4 && mode == 2) { Real e2; ctx.check(D::DeriveSecPartial<3>(f, a, b, x, &e2) == r && e2 == er, "alias", nm); } ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(r)); ctx.nontrivial(); }
// ---- vector functions, Jacobians, curves, surfaces, tensor fields: component i is a monomial of its own
static const int EX[3][3] = {{2, 1, 0}, {0, 2, 1}, {1, 1, 1}};
static double comp(int i, double x, double y, double z) { return std::pow(x, EX[i][0]) * std::pow(y, EX[i][1]) * std::pow(z, EX[i][2]) * (i + 1); }
static L dcomp(int i, int j, const VectorN<Real, 3>& p) { int d[3] = {0, 0, 0}; d[j] = 1; return (i + 1) * mon<3>(p, EX[i], d); }
MC_SCENARIO(vector_partials, 1) {
	int k = KS[ctx.choose(5)], i = ctx.choose(3), j = ctx.choose(3), mode = ctx.choose(2); VectorN<Real, 3> p[] = {{0.5, -1.25, 2}, {1, 1, 1}, {-2, 300, 7e4}}; int pi = ctx.choose(3); auto x = p[pi]; VectorFunctionFromStdFunc<3> f([](const VectorN<Real, 3>& q) { return VectorN<Real, 3>{comp(0, q[0], q[1], q[2]), comp(1, q[0], q[1], q[2]), comp(2, q[0], q[1], q[2])}; }); Real er = -1; double r = 0, r0 = 0, h = 0.25; VectorN<Real, 3> row, re, row0; MatrixNM<Real, 3, 3> M, me, M0; ctx.step(); std::string nm = ctx.cat("vector NDer", k, "Partial ", i, ",", j, " point ", pi, " mode ", mode);
#define X(K) if (mode) { r = D::NDer##K##Partial(f, i, j, x, h, &er); r0 = D::NDer##K##Partial(f, i, j, x, h); row = D::NDer##K##PartialByAll(f, i, x, h, &re); row0 = D::NDer##K##PartialByAll(f, i, x, h); M = D::NDer##K##PartialAllByAll(f, x, h, &me); M0 = D::NDer##K##PartialAllByAll(f, x, h); } else { r = D::NDer##K##Partial(f, i, j, x, &er); r0 = D::NDer##K##Partial(f, i, j, x); row = D::NDer##K##PartialByAll(f, i, x, &re); row0 = D::NDer##K##PartialByAll(f, i, x); M = D::NDer##K##PartialAllByAll(f, x, &me); M0 = D::NDer##K##PartialAllByAll(f, x); }
	BYK(k, X)
#undef X
	ctx.check(eqr(r, r0) && eqr(row[j], r) && eqr(row0[j], r) && eqr(M(i, j), r) && eqr(M0(i, j), r) && eqr(re[j], er) && eqr(me(i, j), er), "variants", nm); L ex = dcomp(i, j, x), mag = std::fabs(comp(i, x[0], x[1], x[2])) / std::max(1.0, std::fabs(x[j])) + fabsl(ex); if (mode == 0 || EX[i][j] <= k) ctx.check(ok(r, ex, mag * (mode ? 4 * std::max(1.0, std::fabs(x[j])) : 1), mode ? 1e-12 : k == 1 ? 1e-6 : 1e-8), "vector-partial", nm, ": ", r, " expected ", (double)ex); else ctx.check(ok(fabsl(r - ex), er, mag, 1e-9), "vector-estimate", nm);
	if (k == 4 && mode == 0) { auto J = D::calcJacobian(f, x); VectorFunctionNMFromStdFunc<3, 2> g([](const VectorN<Real, 3>& q) { return VectorN<Real, 2>{comp(0, q[0], q[1], q[2]), comp(1, q[0], q[1], q[2])}; }); VectorFunctionNMFromStdFunc<2, 3> g2([](const VectorN<Real, 2>& q) { return VectorN<Real, 3>{comp(0, q[0], q[1], 1.5), comp(1, q[0], q[1], 1.5), comp(2, q[0], q[1], 1.5)}; }); auto J2 = D::calcJacobian(g, x); auto J3 = D::calcJacobian(g2, VectorN<Real, 2>{x[0], x[1]}); VectorN<Real, 3> x3{x[0], x[1], 1.5}; ctx.check(eqr(J(i, j), r) && eqr(D::DeriveVecPartial<3>(f, i, j, x, &er), r) && eqr(D::DeriveVecPartialAll<3>(f, i, x, &re)[j], r) && eqr(D::DeriveVecPartialAllByAll<3>(f, x, &me)(i, j), r), "jacobian", nm); if (i < 2) ctx.check(ok(J2(i, j), ex, mag, 1e-8), "jacobian-nm", nm, ": ", J2(i, j)); if (j < 2) { L e3 = dcomp(i, j, x3); ctx.check(ok(J3(i, j), e3, fabsl(e3) + std::fabs(comp(i, x[0], x[1], 1.5)) / std::max(1.0, std::fabs(x[j])), 1e-8), "jacobian-nm", nm, ": ", J3(i, j)); } }
	ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(r)); ctx.nontrivial(); }
MC_SCENARIO(dynamic_jacobians, 1) { // run-time sized Jacobians, ODE and map Jacobians at small and large arguments
	int n = ctx.range(1, 4), m = ctx.range(1, 4), api = ctx.choose(7); double S = ctx.pick({1.0, 1e3, 1e8, 1e12}); double h = ctx.flag() ? 0 : 1e-3 * (api >= 4 ? 1 : S); auto g = [n, S](const Vector<Real>& x, int i) { double a = x[i % n] / S, b = x[(i + 1) % n] / S; return (i + 1) * a * b + 0.5 * a; }; auto dg = [n, S](const Vector<Real>& x, int i, int j) { L a = x[i % n] / S, b = x[(i + 1) % n] / S, r = 0; if (j == i % n) r += (i + 1) * b + 0.5; if (j == (i + 1) % n) r += (i + 1) * a; return r / S; }; Vector<Real> x(n); for (int i = 0; i < n; i++) x[i] = (i % 2 ? -1 : 1) * (0.5 + 0.25 * i) * S; if (api != 1) m = n; auto F = [&](const Vector<Real>& q) { Vector<Real> r(m); for (int i = 0; i < m; i++) r[i] = g(q, i); return r; }; auto Od = [&](Real t, const Vector<Real>& q, Vector<Real>& r) { for (int i = 0; i < n; i++) r[i] = g(q, i) + t; }; Matrix<Real> J; ctx.step(); Vector<Real> x0 = x; switch (api) { case 0: J = D::calcJacobianDyn(F, x, h); break; case 1: J = D::calcJacobianDyn(F, x, m, h); break; case 2: D::calcJacobianDynInPlace(F, x, J, h); break; case 3: J = D::calcJacobianDyn2(F, x, h); break; case 4: D::calcJacobianODE(Od, 2.0, x, J, h); break; case 5: J = D::calcJacobianODE(Od, 2.0, x, h); break; default: D::calcJacobianMap(F, x, J, h); } std::string nm = ctx.cat("dynamic Jacobian API ", api, " ", m, "x", n, " scale ", S, " h ", h); ctx.check(J.rows() == m && J.cols() == n, "jacobian-shape", nm); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { L ex = dg(x, i, j); ctx.check(ok(J(i, j), ex, 1 / S, 1e-7), "jacobian-dyn", nm, " (", i, ",", j, "): ", J(i, j), " expected ", (double)ex); if (api < 2) ctx.check(D::NDer4PartialDyn(F, i, j, x, h) == J(i, j), "variants", nm); } ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(J(0, 0))); ctx.nontrivial(); }
template<int N> static VectorN<Real, N> cur(int k, int der, const IParametricCurve<N>& c, double t, double h, Real* e) { if (der == 2) return k == 2 ? (h ? D::NSecDer2(c, t, h, e) : D::NSecDer2(c, t, e)) : (h ? D::NSecDer4(c, t, h, e) : D::NSecDer4(c, t, e)); if (der == 3) return k == 2 ? (h ? D::NThirdDer2(c, t, h, e) : D::NThirdDer2(c, t, e)) : (h ? D::NThirdDer4(c, t, h, e) : D::NThirdDer4(c, t, e)); switch (k) { case 1: return h ? D::NDer1(c, t, h, e) : D::NDer1(c, t, e); case 2: return h ? D::NDer2(c, t, h, e) : D::NDer2(c, t, e); case 4: return h ? D::NDer4(c, t, h, e) : D::NDer4(c, t, e); case 6: return h ? D::NDer6(c, t, h, e) : D::NDer6(c, t, e); default: return h ? D::NDer8(c, t, h, e) : D::NDer8(c, t, e); } }
MC_SCENARIO(curves, 1) { // each curve stencil: exact per component, estimate = norm of the truncation error one degree further
	int i = ctx.choose(9); auto& R = RU[i]; int k = R.name[0] == 'N' && R.der == 1 ? KS[i] : i == 5 || i == 7 ? 2 : 4, d = ctx.range(0, R.ord + 1); double t = ctx.pick({0.0, 1.0, -1.5, 2000.0}), h = ctx.pick({0.0, 0.5, 0.125}); double S = std::max(1.0, std::fabs(t)); if (h && S > 10) h *= S; ParametricCurveFromStdFunc<3> c([=](Real q) { return VectorN<Real, 3>{(double)mono(q / S, d, 0), -2 * (double)mono(q / S, std::max(0, d - 1), 0), 0.5 * (double)mono(q / S, d, 0) + 3}; }); Real e = -1; ctx.step(); auto v = cur<3>(k, R.der, c, t, h, &e), v0 = cur<3>(k, R.der, c, t, h, nullptr); L ex[3] = {mono(t / S, d, R.der), -2 * mono(t / S, std::max(0, d - 1), R.der), 0.5L * mono(t / S, d, R.der)}, err = 0; L sd = powl(S, R.der); bool same = true; for (int q = 0; q < 3; q++) { ex[q] /= sd; same = same && v[q] == v0[q]; err += (v[q] - ex[q]) * (v[q] - ex[q]); } err = sqrtl(err); std::string nm = ctx.cat("curve ", R.name, " degree ", d, " at ", t, " h ", h); ctx.check(same && e >= 0, "variants", nm); double hs = h ? h / S : stdstep(i); L rnd = 500 * 2.3e-16L * powl(std::max(1.0, std::fabs(t / S) + R.rw * hs), d) * 4 / powl(hs, R.der) / sd;
	if (d <= R.ord) { ctx.check(err <= rnd, "curve-exact", nm, ": error ", (double)err); ctx.check(e <= 3 * rnd, "curve-estimate", nm, ": estimate ", e); } else { ctx.check(fabsl(err - e) <= rnd, "curve-estimate", nm, ": error ", (double)err, " estimate ", e); } if (i == 2 && h == 0) ctx.check(eqr(D::DeriveCurve<3>(c, t, &e)[0], v[0]), "alias", nm); if (i == 6 && h == 0) ctx.check(eqr(D::DeriveCurveSec<3>(c, t, &e)[0], v[0]), "alias", nm); if (i == 8 && h == 0) ctx.check(eqr(D::DeriveCurveThird<3>(c, t, &e)[0], v[0]), "alias", nm); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(v[0]).d(v[1])); ctx.nontrivial(); }
MC_SCENARIO(surfaces, 1) {
	int op = ctx.choose(7), a = ctx.range(0, 2), b = ctx.range(0, 2), mode = ctx.choose(4); double u = ctx.pick({0.5, -1.0, 200.0}), w = ctx.pick({1.0, -0.25, 3000.0}), su = std::max(1.0, std::fabs(u)), sw = std::max(1.0, std::fabs(w)); double h = 0.25 * (mode == 2 ? 2 : 1); std::function<VectorN<Real, 3>(Real, Real)> sf = [=](Real p, Real q) { p /= su; q /= sw; return VectorN<Real, 3>{std::pow(p, a) * std::pow(q, b), p - 2 * q, 3 * p * q * q + 1}; }; ParametricSurfaceFromStdFunc<3> f(sf, -1e6, 1e6, -1e6, 1e6); static const int DU[] = {1, 0, 1, 0, 2, 1, 0}, DW[] = {0, 1, 0, 1, 0, 1, 2}; Real e = -1; bool he = mode % 2; Real* pe = he ? &e : nullptr; VectorN<Real, 3> v; ctx.step(); bool def = mode >= 2;
	switch (op) { case 0: v = def ? D::NDer1_u(f, u, w, pe) : D::NDer1_u(f, u, w, h, pe); break; case 1: v = def ? D::NDer1_w(f, u, w, pe) : D::NDer1_w(f, u, w, h, pe); break; case 2: v = def ? D::NDer2_u(f, u, w, pe) : D::NDer2_u(f, u, w, h, pe); break; case 3: v = def ? D::NDer2_w(f, u, w, pe) : D::NDer2_w(f, u, w, h, pe); break; case 4: v = def ? D::NDer2_uu(f, u, w, pe) : D::NDer2_uu(f, u, w, h, pe); break; case 5: v = def ? D::NDer2_uw(f, u, w, pe) : mode == 1 ? D::NDer2_uw(f, u, w, h, 2 * h, pe) : D::NDer2_uw(f, u, w, h, h, pe); break; default: v = def ? D::NDer2_ww(f, u, w, pe) : D::NDer2_ww(f, u, w, h, pe); }
	L p = u / su, q = w / sw; auto T = [&](int x, int y) { return mono(p, x, DU[op]) * mono(q, y, DW[op]) / powl(su, DU[op]) / powl(sw, DW[op]); }; L ex[3] = {T(a, b), T(1, 0) - 2 * T(0, 1), 3 * T(1, 2) + T(0, 0)}; std::string nm = ctx.cat("surface op ", op, " exponents ", a, b, " at ", u, ",", w, " mode ", mode); double tol = def ? (op < 2 ? 1e-6 : op < 4 ? 1e-8 : 1e-3) : (op < 2 ? 4 : op < 4 ? 1e-12 : 1e-8); L sc = 4 / powl(su, DU[op]) / powl(sw, DW[op]); if (op == 5) sc = 40 / std::min(su, sw) / std::max(su, sw) * std::max(su, sw) / std::min(su, sw) * std::max(su, sw) / std::max(su, sw); if (!def && op < 2) { L k0 = op ? 3 * p / sw / sw : 0; L k1 = op ? (b == 2 ? mono(p, a, 0) / sw / sw : 0) : (a == 2 ? mono(q, b, 0) / su / su : 0); ctx.check(ok(v[1], ex[1], sc, 1e-12) && ok(v[0], ex[0] + h * k1, sc, 1e-12) && ok(v[2], ex[2] + h * k0, sc, 1e-12), "surface-first-order", nm); } else for (int c = 0; c < 3; c++) ctx.check(ok(v[c], ex[c], sc + (def ? 0 : 1e-14 / tol / (h * h)), tol), "surface-partial", nm, " component ", c, ": ", v[c], " expected ", (double)ex[c]); if (he) ctx.check(e >= 0, "error-sign", nm); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(v[0])); ctx.nontrivial(); }
template<int N> struct T2 : ITensorField2<N> { T2() : ITensorField2<N>(0, 2) {} Real Component(int i, int j, const VectorN<Real, N>& x) const override { return x[i] * x[j] + i; } Tensor2<N> operator()(const VectorN<Real, N>&) const override { return Tensor2<N>(0, 2); } };
template<int N> struct T3 : ITensorField3<N> { T3() : ITensorField3<N>(0, 3) {} Real Component(int i, int j, int k, const VectorN<Real, N>& x) const override { return x[i] * (x[j] + 2) + 5 * x[k]; } Tensor3<N> operator()(const VectorN<Real, N>&) const override { return Tensor3<N>(0, 3); } };
template<int N> struct T4 : ITensorField4<N> { T4() : ITensorField4<N>(0, 4) {} Real Component(int i, int j, int k, int l, const VectorN<Real, N>& x) const override { return x[i] * (x[j] + 2) + 5 * x[k] - 7 * x[l]; } Tensor4<N> operator()(const VectorN<Real, N>&) const override { return Tensor4<N>(0, 4); } };
MC_SCENARIO(tensor_fields, 1) {
	int rank = ctx.range(2, 4), k = ctx.pick({1, 2, 4}), i = ctx.choose(3), j = ctx.choose(3), q = rank > 2 ? ctx.choose(3) : 0, l = rank > 3 ? ctx.choose(3) : 0, d = ctx.choose(3), mode = ctx.choose(3); VectorN<Real, 3> p[] = {{0.5, -1.25, 2}, {100, 30, -2000}}; auto x = p[ctx.choose(2)]; double h = 0.25; Real e = -1; double r = 0; T2<3> a; T3<3> b; T4<3> c; ctx.step();
#define TF(K) if (rank == 2) r = mode == 0 ? D::NDer##K##Partial(a, i, j, d, x, h, &e) : mode == 1 ? D::NDer##K##Partial(a, i, j, d, x, &e) : D::NDer##K##Partial(a, i, j, d, x, h); else if (rank == 3) r = mode == 0 ? D::NDer##K##Partial(b, i, j, q, d, x, h, &e) : mode == 1 ? D::NDer##K##Partial(b, i, j, q, d, x, &e) : D::NDer##K##Partial(b, i, j, q, d, x, h); else r = mode == 0 ? D::NDer##K##Partial(c, i, j, q, l, d, x, h, &e) : mode == 1 ? D::NDer##K##Partial(c, i, j, q, l, d, x, &e) : D::NDer##K##Partial(c, i, j, q, l, d, x, h);
	if (k == 1) { TF(1) } else if (k == 2) { TF(2) } else { TF(4) } L ex = (i == d ? x[j] + (rank > 2 ? 2 : 0) : 0) + (j == d ? x[i] : 0) + (rank > 2 && q == d ? 5 : 0) - (rank > 3 && l == d ? 7 : 0); bool quad = i == d && j == d; L bias = k == 1 && mode != 1 && quad ? h : 0; std::string nm = ctx.cat("tensor rank ", rank, " NDer", k, " component ", i, j, q, l, " by ", d, " mode ", mode); L mag = 0; for (int s = 0; s < 3; s++) mag = std::max(mag, (L)std::fabs(x[s])); ctx.check(ok(r, ex + bias, 10 + (mode == 1 ? mag * mag / std::max(1.0, std::fabs(x[d])) : mag * mag), mode == 1 ? (k == 1 ? 1e-6 : 1e-8) : 1e-13), "tensor-partial", nm, ": ", r, " expected ", (double)(ex + bias)); if (mode == 0) ctx.check(fabsl(e - bias) <= 1e-11 + 1e-14 * mag * mag, "tensor-estimate", nm, ": ", e); ctx.state(mc::Hash().s(nm).d(x[0])); ctx.outcome(mc::Hash().d(r)); ctx.nontrivial(); }
// ---- automatic differentiation against complex-step derivatives
namespace S = MML::Symbolic; typedef std::complex<double> C; typedef S::Dual<double> Du;
static const int NU = 14, NB = 6; static const char* UN[] = {"id", "-", "sqrt", "exp", "log", "log10", "sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asin", "acos"}; static const char* BN[] = {"+", "-", "*", "/", "pow", "fma"};
static C lg10(C x) { return std::log(x) / std::log(10.0); } static Du lg10(const Du& x) { return S::log10(x); }
// asin/acos/atan of complex lose tiny imaginary parts in some libraries: use the exact chain rule on the complex step
static C asn(C x) { return C(std::asin(x.real()), x.imag() / std::sqrt(1 - x.real() * x.real())); } static Du asn(const Du& x) { return S::asin(x); } static C acs(C x) { return C(std::acos(x.real()), -x.imag() / std::sqrt(1 - x.real() * x.real())); } static Du acs(const Du& x) { return S::acos(x); } static C atn(C x) { return C(std::atan(x.real()), x.imag() / (1 + x.real() * x.real())); } static Du atn(const Du& x) { return S::atan(x); }
template<class T> static T un(int o, const T& x) { using std::sqrt; using std::exp; using std::log; using std::sin; using std::cos; using std::tan; using std::sinh; using std::cosh; using std::tanh; using namespace MML::Symbolic; switch (o) { case 0: return x; case 1: return -x; case 2: return sqrt(x); case 3: return exp(x); case 4: return log(x); case 5: return lg10(x); case 6: return sin(x); case 7: return cos(x); case 8: return tan(x); case 9: return atn(x); case 10: return sinh(x); case 11: return cosh(x); case 12: return tanh(x); case 13: return asn(x); default: return acs(x); } }
static C pw(C a, C b) { return std::exp(b * std::log(a)); } static Du pw(const Du& a, const Du& b) { return S::pow(a, b); } static C fm(C a, C b) { return a * b + a; } static Du fm(const Du& a, const Du& b) { return S::fma(a, b, a); }
template<class T> static T bi(int o, const T& a, const T& b) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return pw(a, b); default: return fm(a, b); } }
MC_SCENARIO(dual_expressions, 2) { // every expression u(v(x) op w(y)) over the operation set: value and derivative
	int o = ctx.choose(NB), u = ctx.choose(NU + 1), v = ctx.choose(NU + 1), w = ctx.choose(NU + 1), leaf = ctx.choose(3); static const double XS[] = {0.4, 0.9, -0.6, 1.7, -2.3}; for (double x : XS) { auto ev = [&](auto X, auto K) { auto a = un(v, X); auto b = un(w, leaf == 0 ? K : leaf == 1 ? X : X * X + K); return un(u, bi(o, a, b)); }; const double H = 1e-100; C c = ev(C(x, H), C(0.8, 0)); Du d = ev(Du(x, 1), Du(0.8)); ctx.step(); auto plain = [&](double X) { auto g = [&](auto q, auto k) { return ev(q, k); }; return g(Du(X, 0), Du(0.8)).value; }; std::string nm = ctx.cat(UN[u], "(", UN[v], "(x) ", BN[o], " ", UN[w], leaf == 0 ? "(0.8))" : leaf == 1 ? "(x))" : "(x^2+0.8))", " at x=", x); double dv = d.deriv, cd = c.imag() / H; bool real = std::isfinite(d.value) && std::fabs(c.real()) < 1e12 && std::isfinite(cd) && std::fabs(cd) < 1e12; { Du z = ev(Du(x, 0), Du(0.8)); if (real && std::isfinite(dv)) ctx.check(z.value == d.value && (z.deriv == 0), "constant-derivative", nm, ": ", z.deriv); } // domain: compare only where the real expression is defined
		C c2 = ev(C(x, 0), C(0.8, 0)); { C in = bi(o, un(v, C(x, 0)), un(w, leaf == 0 ? C(0.8, 0) : leaf == 1 ? C(x, 0) : C(x * x + 0.8, 0))); if (u == 2 && std::abs(in) < 1e-12) continue; C ih = bi(o, un(v, C(x, H)), un(w, leaf == 0 ? C(0.8, 0) : leaf == 1 ? C(x, H) : C(x, H) * C(x, H) + 0.8)); if (std::abs(in) > 1e12 || (std::abs(in) < 1e-12 && in != C(0)) || !(std::fabs(ih.imag() / H) < 1e12)) continue; } if (!real || std::fabs(c2.imag()) > 1e-9 || std::fabs(c2.real() - d.value) > 1e-9 * (1 + std::fabs(d.value))) continue; double cond = std::fabs(cd) + std::fabs(d.value) + 1; (void)plain; ctx.check(std::isfinite(dv) && std::fabs(dv - cd) <= 1e-7 * cond, "dual-derivative", nm, ": ", dv, " expected ", cd); Du t = ev(Du(x, -2.5), Du(0.8)); ctx.check(std::fabs(t.deriv + 2.5 * dv) <= 1e-9 * (1 + std::fabs(dv)), "dual-linear", nm); ctx.nontrivial(); }
	ctx.state(mc::Hash().u(o).u(u).u(v).u(w).u(leaf)); ctx.outcome(mc::Hash().u(o).u(u).u(v).u(w).u(leaf)); }
MC_SCENARIO(dual_operators, 1) { // scalar mixes, compound assignment (also onto itself), comparisons, powers at special points, abs/floor/ceil/atan2
	double a = ctx.pick({2.0, -1.5, 0.5, 1e-170, -3e160}), da = ctx.pick({1.0, 0.0, -2.0}), b = ctx.pick({3.0, -0.25, 2.0, 1e-170, 4e160}), db = ctx.pick({0.0, 1.0, 0.5}); Du x(a, da), y(b, db); ctx.step(); std::string nm = ctx.cat("(", a, ",", da, ") with (", b, ",", db, ")"); auto eq = [&](const Du& r, L v, L d, const char* op) { if (fabsl(v) > 1e308L || fabsl(d) > 1e308L) return; ctx.check(fabsl(r.value - v) <= 1e-14 * fabsl(v) + 1e-300L && fabsl(r.deriv - d) <= 1e-14 * (fabsl(d) ) + 1e-300L + 1e-14L * (fabsl(v) > 1e-200 && fabsl(v) < 1e200 ? fabsl(v) : 0), op, nm, ": (", r.value, ",", r.deriv, ") expected (", (double)v, ",", (double)d, ")"); };
	L A = a, B = b, DA = da, DB = db; auto tame = std::fabs(a) > 1e-3 && std::fabs(a) < 1e3 && std::fabs(b) > 1e-3 && std::fabs(b) < 1e3; eq(x + y, A + B, DA + DB, "add"); eq(x - y, A - B, DA - DB, "sub"); eq(x * y, A * B, DA * B + A * DB, "mul"); eq(x / y, A / B, DA / B - (A / B) * (DB / B), "div"); eq(-x, -A, -DA, "neg"); eq(+x, A, DA, "pos"); eq(x + b, A + B, DA, "mix"); eq(b + x, A + B, DA, "mix"); eq(x - b, A - B, DA, "mix"); eq(b - x, B - A, -DA, "mix"); eq(x * b, A * B, DA * B, "mix"); eq(b * x, A * B, DA * B, "mix"); eq(x / b, A / B, DA / B, "mix"); eq(b / x, B / A, -(B / A) * (DA / A), "mix"); if (tame) { Du z = x; z += y; eq(z, A + B, DA + DB, "compound"); z = x; z -= y; eq(z, A - B, DA - DB, "compound"); z = x; z *= y; eq(z, A * B, DA * B + A * DB, "compound"); z = x; z /= y; eq(z, A / B, DA / B - (A / B) * (DB / B), "compound"); z = x; z += z; eq(z, 2 * A, 2 * DA, "self"); z = x; z -= z; eq(z, 0, 0, "self"); z = x; z *= z; eq(z, A * A, 2 * A * DA, "self"); z = x; z /= z; eq(z, 1, 0, "self"); }
	ctx.check((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "compare", nm); eq(S::abs(x), fabsl(A), a < 0 ? -DA : DA, "abs"); eq(S::floor(x), floorl(A), 0, "floor"); eq(S::ceil(x), ceill(A), 0, "ceil"); if (tame) { eq(S::atan2(x, y), atan2l(A, B), (B * DA - A * DB) / (A * A + B * B), "atan2"); eq(S::fma(x, y, x), A * B + A, DA * B + A * DB + DA, "fma"); }
	double base = ctx.pick({0.0, 1.0, 2.0, -2.0, 0.5}), ex = ctx.pick({0.0, 1.0, 2.0, 3.0, 0.5, 1.5, -1.0, -2.0}); std::string pn = ctx.cat("pow(", base, ",", ex, ") direction (", da, ",", db, ")"); bool def = !(base < 0 && ex != std::floor(ex)) && !(base == 0 && ex < 0); if (def) { L v = powl(base, ex), d1 = ex == 0 ? 0 : ex * powl(base, ex - 1.0L), d2 = base == 0 ? 0 : v * logl(base); bool dok = std::isfinite((double)d1); auto pq = [&](const Du& r, L d, const char* k) { ctx.check(fabsl(r.value - v) <= 1e-14 * fabsl(v) && fabsl(r.deriv - d) <= 1e-13 * (fabsl(d) + fabsl(v)), k, pn, ": (", r.value, ",", r.deriv, ") expected (", (double)v, ",", (double)d, ")"); }; if (dok) { pq(S::pow(Du(base, da), Du(ex, 0)), d1 * da, "pow"); pq(S::pow(Du(base, da), ex), d1 * da, "pow"); if (ex == std::floor(ex)) pq(S::pow(Du(base, da), (int)ex), d1 * da, "pow"); } if (base > 0 || (base == 0 && ex > 0)) { pq(S::pow(base, Du(ex, db)), d2 * db, "pow"); if (dok || db != 0) pq(S::pow(Du(base, 0), Du(ex, db)), d2 * db, "pow"); if (dok && db != 0 && da != 0) pq(S::pow(Du(base, da), Du(ex, db)), d1 * da + d2 * db, "pow"); } }
	auto dr = S::derivative([](auto q) { return q * q * q - 2 * q; }, a); if (tame) ctx.check(mc::near(dr.first, a * a * a - 2 * a, 1e-13) && mc::near(dr.second, 3 * a * a - 2, 1e-13), "derivative", nm); int e[3] = {(int)(std::fabs(base)), 1, 2}; std::vector<double> p = {base, 0.75, -1.5}; auto g = S::gradient([&](const std::vector<Du>& q) { return S::pow(q[0], e[0]) * q[1] + q[2] * q[2] * q[1]; }, p); ctx.check(g.size() == 3 && mc::near(g[0], (e[0] ? e[0] * std::pow(p[0], e[0] - 1) : 0) * p[1], 1e-13) && mc::near(g[1], std::pow(p[0], e[0]) + p[2] * p[2], 1e-13) && mc::near(g[2], 2 * p[2] * p[1], 1e-13), "gradient", nm, " base ", base); ctx.state(mc::Hash().s(nm).s(pn)); ctx.outcome(mc::Hash().d(dr.first).d(g[0])); ctx.nontrivial(); }
