// numerical integration: rules are exact where they must be, reported errors and convergence are truthful
// mc-flags: -O2
#include "mc.h"
#include "mml/core/Integration.h"
#include "mml/core/Integration/MonteCarloIntegration.h"
#include "mml/core/Integration/PathIntegration.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
#include "mml/core/Integration/SurfaceIntegration.h"
#include <set>
#include <map>
using namespace MML; typedef long double L; static const L PI = 3.141592653589793238462643383279502884L;
struct RF : IRealFunction { std::function<double(double)> f; mutable long n = 0; RF(std::function<double(double)> g) : f(g) {} Real operator()(Real x) const override { n++; return f(x); } };
struct F1 { std::string name; std::function<double(double)> f; std::function<L(L)> I; /* antiderivative */ L mag; /* bound of |f| on [-3,3] */ bool smooth; };
static std::vector<F1> fam() { std::vector<F1> v; for (int d = 0; d < 8; d++) v.push_back({"(x-0.3)^" + std::to_string(d), [d](double x) { return std::pow(x - 0.3, d); }, [d](L x) { return powl(x - 0.3L, d + 1) / (d + 1); }, powl(3.3L, d), true}); for (double k : {1.0, -0.7}) v.push_back({"exp", [k](double x) { return std::exp(k * x); }, [k](L x) { return expl(k * x) / k; }, 25, true}); for (double k : {1.0, 6.0}) v.push_back({"sin", [k](double x) { return std::sin(k * x + 0.4); }, [k](L x) { return -cosl(k * x + 0.4) / k; }, 1, true}); v.push_back({"lorentz", [](double x) { return 1 / (1 + 4 * x * x); }, [](L x) { return atanl(2 * x) / 2; }, 1, true}); v.push_back({"sin^2(4 pi x)", [](double x) { double q = std::sin(4 * 3.14159265358979323846 * x); return q * q; }, [](L x) { return x / 2 - sinl(8 * PI * x) / (16 * PI); }, 1, true}); v.push_back({"abs", [](double x) { return std::fabs(x - 0.7); }, [](L x) { L u = x - 0.7; return u * fabsl(u) / 2; }, 4, false}); v.push_back({"step", [](double x) { return x < 0.45 ? 1.0 : 3.0; }, [](L x) { return x < 0.45 ? x : 0.45 + 3 * (x - 0.45); }, 3, false}); v.push_back({"zero", [](double) { return 0.0; }, [](L) -> L { return 0; }, 0, true}); return v; }
static const double IV[][2] = {{0, 1}, {-1, 1}, {-2, 3}, {1, 0}, {2.5, -0.5}, {0.5, 0.5}, {-3, -2.75}};
static bool ok(double got, L want, L scale, double tol) { return std::isfinite(got) && fabsl(got - want) <= tol * (scale + fabsl(want)); }
// every Gauss rule is the rule of its weight: exact for all polynomials of degree 2n-1
MC_SCENARIO(gauss_rules, 2) {
	int fm = ctx.choose(6), n = ctx.range(1, ctx.thorough ? 100 : 64); double a = 0, b = 0; GaussQuadratureRule r(0); std::string nm; std::function<L(int)> mom; std::function<L(L, int)> base; double lo = -1, hi = 1; double tol = 1e-12; auto build = [&](std::function<GaussQuadratureRule()> g) { std::string e; bool bad = mc::throws([&] { r = g(); }, &e); ctx.check(!bad, "rule-refused", nm, ": ", e); return !bad; }; ctx.step();
	if (fm == 0) { int k = ctx.choose(6); a = IV[k][0]; b = IV[k][1]; if (a == b) b = a + 0.5; nm = ctx.cat("Legendre n=", n, " [", a, ",", b, "]"); if (!build([&] { return GaussLegendreRule(n, a, b); })) return; L c = ((L)a + b) / 2, h = ((L)b - a) / 2; mom = [=](int d) { return d % 2 ? 0.0L : 2 * h / (d + 1); }; base = [=](L x, int d) { return powl((x - c) / h, d); }; lo = std::min(a, b); hi = std::max(a, b); }
	if (fm == 1) { a = ctx.pick({0.0, 0.5, -0.5, 2.0, 5.0, -0.9}); nm = ctx.cat("Laguerre n=", n, " alpha=", a); if (!build([&] { return GaussLaguerreRule(n, a); })) return; mom = [=](int d) { return expl(lgammal((L)a + d + 1)); }; base = [](L x, int d) { return powl(x, d); }; lo = 0; hi = INFINITY; tol = 1e-9; }
	if (fm == 2) { nm = ctx.cat("Hermite n=", n); if (!build([&] { return GaussHermiteRule(n); })) return; mom = [](int d) { return d % 2 ? 0.0L : expl(lgammal((d + 1) / 2.0L)); }; base = [](L x, int d) { return powl(x, d); }; lo = -INFINITY; hi = INFINITY; tol = 1e-9; }
	if (fm == 3) { a = ctx.pick({0.0, 0.5, -0.5, 2.0, -0.9}); b = ctx.pick({0.0, -0.5, 0.5, 1.0, 4.0, -0.9}); nm = ctx.cat("Jacobi n=", n, " alpha=", a, " beta=", b); if (n > 40) { n = 40; nm += " n=40"; } if (!build([&] { return GaussJacobiRule(n, a, b); })) return; mom = [=](int d) { return expl((a + b + d + 1) * logl(2) + lgammal((L)a + 1) + lgammal((L)b + d + 1) - lgammal((L)a + b + d + 2)); }; base = [](L x, int d) { return powl(1 + x, d); }; tol = 1e-8; }
	if (fm == 4) { nm = ctx.cat("Chebyshev1 n=", n); if (!build([&] { return GaussChebyshev1Rule(n); })) return; mom = [](int d) { L m = d % 2 ? 0 : PI; for (int k = 2; k <= d; k += 2) m *= (k - 1) / (L)k; return m; }; base = [](L x, int d) { return powl(x, d); }; }
	if (fm == 5) { nm = ctx.cat("Chebyshev2 n=", n); if (!build([&] { return GaussChebyshev2Rule(n); })) return; mom = [](int d) { L m = d % 2 ? 0 : PI; for (int k = 2; k <= d; k += 2) m *= (k - 1) / (L)k; return m / (d + 2); }; base = [](L x, int d) { return powl(x, d); }; }
	ctx.check(r.n == n && (int)r.nodes.size() == n && (int)r.weights.size() == n, "rule-size", nm); std::vector<double> s = r.nodes; std::sort(s.begin(), s.end()); bool in = true, pos = true; double sg = (fm == 0 && b < a) ? -1 : 1; for (int i = 0; i < n; i++) { in = in && s[i] > lo && s[i] < hi && (!i || s[i] > s[i - 1]); pos = pos && r.weights[i] * sg > 0; } ctx.check(in, "nodes", nm, ": nodes not distinct inside the interval"); if (n <= 40) ctx.check(pos, "weights", nm, ": weights not positive");
	for (int d = 0; d < 2 * n; d++) { L q = 0, m = 0; for (int i = 0; i < n; i++) { L t = r.weights[i] * base(r.nodes[i], d); q += t; m += fabsl(t); } L e = mom(d); ctx.check(fabsl(q - e) <= tol * (m + fabsl(e)) + 1e-15L * fabsl(mom(0)), "exactness", nm, " degree ", d, ": ", (double)q, " expected ", (double)e); } // and not exact at degree 2n when it cannot be
	{ std::vector<double> x(n), w(n + 1); ctx.check(mc::throws([&] { if (fm == 0) GaussLegendre(x, w); else if (fm == 1) GaussLaguerre(x, w, a); else if (fm == 2) GaussHermite(x, w); else if (fm == 3) GaussJacobi(x, w, a, b); else if (fm == 4) GaussChebyshev1(x, w); else GaussChebyshev2(x, w); }), "rule-mismatch", nm); if (fm == 3) ctx.check(mc::throws([&] { GaussJacobiRule(n, -1, 0); }) && mc::throws([&] { GaussJacobiRule(n, 0, -1.5); }), "rule-parameter", nm); }
	RF f([](double x) { return 2 + 3 * x; }); L e = 0; for (int i = 0; i < n; i++) e += r.weights[i] * (2 + 3 * r.nodes[i]); IntegrationResult v; IntegrationDetailedResult dv; switch (fm) { case 0: v = IntegrateGaussLegendre(f, a, b, n); dv = IntegrateGaussLegendreDetailed(f, a, b, n); break; case 1: v = IntegrateGaussLaguerre(f, n, a); dv = IntegrateGaussLaguerreDetailed(f, n, a); break; case 2: v = IntegrateGaussHermite(f, n); dv = IntegrateGaussHermiteDetailed(f, n); break; case 3: v = IntegrateGaussJacobi(f, a, b, n); dv = IntegrateGaussJacobiDetailed(f, a, b, n); break; case 4: v = IntegrateGaussChebyshev1(f, n); dv = IntegrateGaussChebyshev1Detailed(f, n); break; default: v = IntegrateGaussChebyshev2(f, n); dv = IntegrateGaussChebyshev2Detailed(f, n); } ctx.check(ok(v.value, e, 1, 1e-11) && v.converged && dv.value == v.value && dv.converged && dv.IsSuccess() && dv.function_evaluations == n && f.n == 2 * n, "rule-use", nm); ctx.state(mc::Hash().u(fm).u(n).d(a).d(b)); ctx.outcome(mc::Hash().d(v.value).u(n)); ctx.nontrivial(); }
// own Gauss-Legendre nodes, for the embedded rules
static void gl(int n, std::vector<L>& x, std::vector<L>& w) { for (int i = 0; i < n; i++) { L z = cosl(PI * (i + 0.75L) / (n + 0.5L)), p = 0; for (int it = 0; it < 50; it++) { L a = 1, b = 0; for (int j = 0; j < n; j++) { L c = b; b = a; a = ((2 * j + 1) * z * b - j * c) / (j + 1); } p = n * (z * a - b) / (z * z - 1); z -= a / p; } x.push_back(z); w.push_back(2 / ((1 - z * z) * p * p)); } }
MC_SCENARIO(kronrod, 1) { // fixed Gauss-Kronrod rules: degree of exactness and the embedded error estimate
	int ru = ctx.choose(4), deg = ctx.range(0, 52), iv = ctx.choose(7); double a = IV[iv][0], b = IV[iv][1]; L c = ((L)a + b) / 2, h = ((L)b - a) / 2; long n = 0; auto f = [&](double x) { n++; return h == 0 ? 1.0 : (double)(powl((x - c) / h, deg) + 0.5L * powl((x - c) / h, std::max(0, deg - 1))); }; auto mo = [&](int d) { return d % 2 ? 0.0L : 2 * h / (d + 1); }; L ex = mo(deg) + 0.5L * mo(std::max(0, deg - 1)); static const int N[] = {7, 10, 15, 0}, E[] = {23, 31, 47, 19}, K[] = {15, 21, 31, 10}; std::string nm = ctx.cat("GK", K[ru], " degree ", deg, " interval ", iv); ctx.step(); double val, err; int ne; bool cv; RF g(f);
	if (ru == 3) { auto r = IntegrateGauss10(g, a, b); val = r.value; err = 0; ne = 10; cv = r.converged; ctx.check(r.converged && IntegrateGauss10Detailed(g, a, b).value == val && IntegrateGauss10Detailed(g, a, b).function_evaluations == 10 && Integrate(g, a, b, GAUSS10).value == val && Integrate<GAUSS10>(g, a, b).value == val && IntegrateDetailed(g, a, b, GAUSS10).value == val && IntegrateDetailed<GAUSS10>(g, a, b).value == val, "variants", nm); n = 10; }
	else { auto r = ru == 0 ? Integration::IntegrateGK15(f, a, b) : ru == 1 ? Integration::IntegrateGK21(f, a, b) : Integration::IntegrateGK31(f, a, b); val = r.value; err = r.error_estimate; ne = r.function_evals; cv = r.converged; long m = n; auto d = ru == 0 ? Integration::IntegrateGK15Detailed(f, a, b) : ru == 1 ? Integration::IntegrateGK21Detailed(f, a, b) : Integration::IntegrateGK31Detailed(f, a, b); double s = ru == 0 ? Integration::IntegrateGaussKronrod15(f, a, b) : ru == 1 ? Integration::IntegrateGaussKronrod21(f, a, b) : Integration::IntegrateGaussKronrod31(f, a, b); ctx.check(d.value == val && d.error_estimate == err && d.function_evaluations == ne && d.converged == cv && d.IsSuccess() && s == val, "variants", nm); if (ru == 1) ctx.check(IntegrateGK21(g, a, b).value == val && IntegrateGK21Detailed(g, a, b).error_estimate == err && Integrate(g, a, b, GAUSS10KRONROD21).value == val && Integrate<GAUSS10KRONROD21>(g, a, b).value == val && IntegrateDetailed(g, a, b, GAUSS10KRONROD21).value == val && IntegrateDetailed<GAUSS10KRONROD21>(g, a, b).value == val, "variants", nm); n = m; }
	ctx.check(cv && ne == K[ru] && n == K[ru], "evaluations", nm, ": reported ", ne, " made ", n); L sc = fabsl(h); if (deg <= E[ru]) ctx.check(ok(val, ex, sc, 1e-14), "kronrod-exactness", nm, ": ", val, " expected ", (double)ex); else ctx.check(ok(val, ex, sc, 0.03), "kronrod-accuracy", nm); if (ru < 3) { std::vector<L> x, w; gl(N[ru], x, w); L q = 0; for (size_t i = 0; i < x.size(); i++) q += h * w[i] * (powl(x[i], deg) + 0.5L * powl(x[i], std::max(0, deg - 1))); ctx.check(fabsl(err - fabsl(val - q)) <= 1e-14 * sc + 1e-18, "kronrod-error", nm, ": ", err, " expected ", (double)fabsl(val - q)); } ctx.state(mc::Hash().u(ru).u(deg).u(iv)); ctx.outcome(mc::Hash().d(val).d(err)); ctx.nontrivial(); }
MC_SCENARIO(refinement, 2) { // trapezoid, Simpson, Romberg: converged means accurate, not converged carries an honest error estimate
	static const auto fs = fam(); int m = ctx.choose(3), fi = ctx.choose((int)fs.size()), iv = ctx.choose(7); double eps = ctx.pick({1e-3, 1e-6, 1e-9}); int cap = ctx.pick({20, 8, 6, 14}); double a = IV[iv][0], b = IV[iv][1]; auto& F = fs[fi]; RF f(F.f); int &ms = Defaults::TrapezoidIntegrationMaxSteps, &ss = Defaults::SimpsonIntegrationMaxSteps, &rs = Defaults::RombergIntegrationMaxSteps; ms = ss = rs = cap; IntegrationResult r, r2, r3; IntegrationDetailedResult d, d2, d3; ctx.step(); std::string nm = ctx.cat(m == 0 ? "Trap " : m == 1 ? "Simpson " : "Romberg ", F.name, " interval ", iv, " eps ", eps, " max steps ", cap);
	if (m == 0) { r = IntegrateTrap(f, a, b, eps); long n = f.n; r2 = Integrate(f, a, b, TRAP, eps); r3 = Integrate<TRAP>(f, a, b, eps); d = IntegrateTrapDetailed(f, a, b, {}, eps); d2 = IntegrateDetailed(f, a, b, TRAP, {}, eps); d3 = IntegrateDetailed<TRAP>(f, a, b, {}, eps); f.n = n; } else if (m == 1) { r = IntegrateSimpson(f, a, b, eps); long n = f.n; r2 = Integrate(f, a, b, SIMPSON, eps); r3 = Integrate<SIMPSON>(f, a, b, eps); d = IntegrateSimpsonDetailed(f, a, b, {}, eps); d2 = IntegrateDetailed(f, a, b, SIMPSON, {}, eps); d3 = IntegrateDetailed<SIMPSON>(f, a, b, {}, eps); f.n = n; } else { r = IntegrateRomberg(f, a, b, eps); long n = f.n; r2 = Integrate(f, a, b, ROMBERG, eps); r3 = Integrate<ROMBERG>(f, a, b, eps); d = IntegrateRombergDetailed(f, a, b, {}, eps); d2 = IntegrateDetailed(f, a, b, ROMBERG, {}, eps); d3 = IntegrateDetailed<ROMBERG>(f, a, b, {}, eps); f.n = n; } ms = ss = rs = 20;
	L ex = F.I(b) - F.I(a), sc = F.mag * fabsl((L)b - a); auto same = [&](const IntegrationResult& q) { return q.value == r.value && q.error_estimate == r.error_estimate && q.converged == r.converged && q.iterations == r.iterations; }; auto samed = [&](const IntegrationDetailedResult& q) { return q.value == r.value && q.error_estimate == r.error_estimate && q.converged == r.converged && q.iterations == r.iterations && (q.status == (r.converged ? AlgorithmStatus::Success : AlgorithmStatus::MaxIterationsExceeded)) && q.error_message.empty() == r.converged; }; ctx.check(same(r2) && same(r3) && samed(d) && samed(d2) && samed(d3), "variants", nm); ctx.check(f.n <= (1L << (cap - 1)) + 1, "steps", nm, ": ", f.n, " evaluations"); ctx.check(r.error_estimate >= 0, "error-sign", nm);
	if (r.converged) { ctx.check(r.error_estimate <= eps * fabsl(ex) * 1.5 + 1e-15, "false-convergence", nm, ": error estimate ", r.error_estimate); if (F.smooth) ctx.check(fabsl(r.value - ex) <= (m == 2 ? 20 : 2) * eps * fabsl(ex) + 2e-14 * sc, "accuracy", nm, ": ", r.value, " expected ", (double)ex); else ctx.check(fabsl(r.value - ex) <= (m ? 0.05 : 0.02) * sc, "accuracy", nm, ": ", r.value, " expected ", (double)ex); }
	else if (F.smooth && cap > 5) { bool honest = fabsl(r.value - ex) <= (m == 2 ? 30 : 3) * r.error_estimate + 1e-13 * sc; ctx.check(honest, "unconverged-error", nm, ": not converged, reported error ", r.error_estimate, " true error ", (double)fabsl(r.value - ex)); } if (F.smooth && cap == 20 && eps > 1e-7 && fabsl(ex) > 1e-6 * sc) ctx.check(r.converged, "no-convergence", nm); if (a == b) ctx.check(r.value == 0 && (cap <= 6 || r.converged), "empty-interval", nm); ctx.state(mc::Hash().u(m).u(fi).u(iv).d(eps).u(cap)); ctx.outcome(mc::Hash().d(r.value).u(r.converged).u(f.n)); if (cap > 6) ctx.nontrivial(); }
MC_SCENARIO(gk_adaptive, 2) { // adaptive Gauss-Kronrod: error within the estimate, estimate within the tolerance when converged, honest counts
	static const auto fs = fam(); int fi = ctx.choose((int)fs.size()), iv = ctx.choose(7), ru = ctx.choose(3); double tol = ctx.pick({1e-3, 1e-6, 1e-10, 1e-12}); int dep = ctx.pick({50, 0, 3, 12}); int kind = ctx.choose(3); double ta = kind == 1 ? 0 : tol, tr = kind == 2 ? 0 : tol; auto& F = fs[fi]; if (kind == 1 && !F.smooth) dep = std::min(dep, 12); double a = IV[iv][0], b = IV[iv][1]; long n = 0; auto f = [&](double x) { if (++n > 4000000) throw std::runtime_error("too many evaluations"); return F.f(x); }; auto R = (Integration::GKRule)ru; ctx.step(); std::string nm = ctx.cat("adaptive GK", ru, " ", F.name, " interval ", iv, " tol ", ta, ",", tr, " depth ", dep); Integration::GKResult r; std::string e; bool bad = mc::throws([&] { r = Integration::IntegrateGKAdaptive(f, a, b, ta, tr, dep, R); }, &e); ctx.check(!bad, "adaptive-end", nm, ": ", e); if (bad) return;
	long made = n; L ex = F.I(b) - F.I(a), sc = F.mag * fabsl((L)b - a); ctx.check(r.function_evals == made, "evaluations", nm, ": reported ", r.function_evals, " made ", made); if (F.smooth && F.name[3] != '^') ctx.check(fabsl(r.value - ex) <= r.error_estimate * 1.0001 + 1e-14 * sc, "adaptive-error", nm, ": error ", (double)fabsl(r.value - ex), " estimate ", r.error_estimate); if (r.converged) ctx.check(r.error_estimate <= (ta + tr * sc) * 1.0001, "false-convergence", nm, ": estimate ", r.error_estimate); if (dep == 50 && tol >= 1e-10 && kind != 1 && F.smooth) ctx.check(r.converged, "no-convergence", nm, ": estimate ", r.error_estimate); if (dep == 0) ctx.check(made == (ru == 0 ? 15 : ru == 1 ? 21 : 31) && r.converged == (r.error_estimate <= std::max(ta, tr * std::fabs(r.value))), "depth", nm); ctx.check(made <= 31 * ((2L << std::min(dep, 26)) - 1), "depth", nm);
	auto d = Integration::IntegrateGKAdaptiveDetailed(f, a, b, {}, ta, tr, dep, R); ctx.check(d.value == r.value && d.converged == r.converged && d.error_estimate == r.error_estimate && d.function_evaluations == r.function_evals && (d.status == (r.converged ? AlgorithmStatus::Success : AlgorithmStatus::MaxIterationsExceeded)), "variants", nm); if (ru == 0 && kind == 0 && dep == 50) { double er = -1; double v1 = Integration::IntegrateGaussKronrod(f, a, b, tol), v2 = Integration::IntegrateGaussKronrod(f, a, b, &er, tol); ctx.check(v1 == r.value && v2 == r.value && er == r.error_estimate, "variants", nm); } ctx.state(mc::Hash().u(fi).u(iv).u(ru).d(tol).u(dep).u(kind)); ctx.outcome(mc::Hash().d(r.value).u(made).u(r.converged)); ctx.nontrivial(); }
MC_SCENARIO(bad_integrands, 2) { // integrands that throw or yield NaN: every call ends, statuses follow the policy
	int api = ctx.choose(14), kind = ctx.choose(4), pol = ctx.choose(2); IntegrationConfig c; c.exception_policy = pol ? EvaluationExceptionPolicy::ConvertToStatus : EvaluationExceptionPolicy::Propagate; long n = 0; Defaults::RombergIntegrationMaxSteps = 9; auto g = [&](double x) -> double { if (++n > 3000000) throw std::out_of_range("runaway"); if (kind == 0 && n == 4) throw std::runtime_error("user"); if (kind == 1 && n == 3) throw std::invalid_argument("user"); if (kind == 2 && x > 0.4) return std::nan(""); return kind == 3 ? 1.0 : x; }; RF f(g); IntegrationDetailedResult r; std::string e; auto f2 = [&](double x, double) { return g(x); }; auto f3 = [&](double x, double, double) { return g(x); }; ctx.step(); std::string nm = ctx.cat("API ", api, " kind ", kind, " policy ", pol);
	bool th = mc::throws([&] { switch (api) { case 0: r = IntegrateTrapDetailed(f, 0, 1, c); break; case 1: r = IntegrateSimpsonDetailed(f, 0, 1, c); break; case 2: r = IntegrateRombergDetailed(f, 0, 1, c); break; case 3: r = IntegrateGauss10Detailed(f, 0, 1, c); break; case 4: r = IntegrateGK21Detailed(f, 0, 1, c); break; case 5: r = IntegrateOpenDetailed(f, 0, 1, c); break; case 6: r = IntegrateLowerSingularDetailed(f, 0, 1, c); break; case 7: r = IntegrateInteriorSingularDetailed(f, 0, 1, 0.5, c); break; case 8: r = IntegrateGaussLegendreDetailed(f, 0, 1, 8, c); break; case 9: r = Integration::IntegrateGKAdaptiveDetailed(g, 0, 1, c); break; case 10: r = Integration::IntegrateGK15Detailed(g, 0, 1, c); break; case 11: r = Integration::IntegrateAdaptive2DDetailed(f2, 0, 1, 0, 1, c, 1e-8, 6); break; case 12: r = Integration::IntegrateAdaptive3DDetailed(f3, 0, 1, 0, 1, 0, 1, c, 1e-6, 2); break; default: r = IntegrateInteriorSingularDetailed(f, 0, 1, kind == 3 ? 1.0 : 0.0, c); } }, &e); Defaults::RombergIntegrationMaxSteps = 20; ctx.check(e.find("runaway") == std::string::npos && n <= 3000000, "runaway", nm, ": evaluation count out of control");
	bool expect = kind < 2 || api == 13; if (expect && api != 13) { if (!pol) ctx.check(th, "propagate", nm); else ctx.check(!th && r.status == (kind == 1 ? AlgorithmStatus::InvalidInput : AlgorithmStatus::AlgorithmSpecificFailure) && !r.error_message.empty() && !r.converged, "status", nm); } else if (api == 13) { if (!pol) ctx.check(th && n == 0, "singular-point", nm); else ctx.check(!th && r.status == AlgorithmStatus::InvalidInput && !r.converged, "singular-point", nm); } else if (kind == 2) { ctx.check(!th, "nan", nm); if (api != 3 && api != 4 && api != 8 && api != 10) ctx.check(!r.converged && !r.IsSuccess(), "nan", nm, ": NaN integrand reported as converged"); } else ctx.check(!th && r.converged && r.IsSuccess() && ok(r.value, 1, 0, 1e-9), "constant", nm, ": ", r.value); ctx.state(mc::Hash().u(api).u(kind).u(pol)); ctx.outcome(mc::Hash().u((int)r.status).u(th)); ctx.nontrivial(); }
MC_SCENARIO(improper, 1) { // infinite ranges and endpoint singularities of known integrals
	int k = ctx.choose(13); double a = ctx.pick({0.0, 1.0, -1.5, 4.0}), s = ctx.pick({1.0, 0.5, 3.0}); double eps = ctx.pick({1e-6, 1e-10}); ctx.step(); IntegrationResult r; IntegrationDetailedResult d; L ex = 0; std::string nm = ctx.cat("improper ", k, " a ", a, " s ", s, " eps ", eps); double b = a + 2 * s;
	auto up = [&](std::function<double(double)> f, L e) { RF g(f); r = IntegrateUpperInf(g, a, eps); d = IntegrateUpperInfDetailed(g, a, {}, eps); ex = e; }; auto dn = [&](std::function<double(double)> f, L e) { RF g(f); r = IntegrateLowerInf(g, a, eps); d = IntegrateLowerInfDetailed(g, a, {}, eps); ex = e; };
	switch (k) { case 0: up([=](double x) { return std::exp(-(x - a) / s); }, s); break; case 1: up([=](double x) { return 1 / ((x - a + s) * (x - a + s)); }, 1 / (L)s); break; case 2: up([=](double x) { return (x - a) * std::exp(-(x - a) / s); }, (L)s * s); break; case 3: up([=](double x) { return 1 / (s * s + (x - a) * (x - a)); }, PI / 2 / s); break; case 4: dn([=](double x) { return std::exp((x - a) / s); }, s); break; case 5: dn([=](double x) { return (1 + a - x) / std::pow(a - x + s, 4); }, 1 / (3 * powl(s, 3)) + (1 / (2 * powl(s, 2)) - 1 / (3 * powl(s, 2)))); break;
		case 6: { RF g([=](double x) { double u = (x - a) / s; return (1 + u) * std::exp(-u * u); }); r = IntegrateInf(g, eps); d = IntegrateInfDetailed(g, {}, eps); ex = s * sqrtl(PI); break; } case 7: { RF g([=](double x) { return 1 / (s * s + x * x); }); r = IntegrateInfSplit(g, a, eps); d = IntegrateInfSplitDetailed(g, a, {}, eps); ex = PI / s; break; }
		case 8: { RF g([=](double x) { return (1 + (x - a)) / std::sqrt(x - a); }); r = IntegrateLowerSingular(g, a, b, eps); d = IntegrateLowerSingularDetailed(g, a, b, {}, eps); L w = (L)b - a; ex = 2 * sqrtl(w) + powl(w, 1.5L) / 1.5L; break; } case 9: { RF g([=](double x) { return (1 + (b - x)) / std::sqrt(b - x); }); r = IntegrateUpperSingular(g, a, b, eps); d = IntegrateUpperSingularDetailed(g, a, b, {}, eps); L w = (L)b - a; ex = 2 * sqrtl(w) + powl(w, 1.5L) / 1.5L; break; } case 10: { RF g([=](double x) { return (1 + (x - a)) / std::sqrt((x - a) * (b - x)); }); r = IntegrateBothSingular(g, a, b, eps); d = IntegrateBothSingularDetailed(g, a, b, {}, eps); ex = PI * (1 + ((L)b - a) / 2); break; } case 11: { double c = a + 0.6 * s; RF g([=](double x) { return (x < c ? 1 : 2) / std::sqrt(std::fabs(x - c)); }); r = IntegrateInteriorSingular(g, a, b, c, eps); d = IntegrateInteriorSingularDetailed(g, a, b, c, {}, eps); ex = 2 * sqrtl((L)c - a) + 4 * sqrtl((L)b - c); break; }
		default: { RF g([=](double x) { return 1 + 3 * (x - a) * (x - a); }); r = IntegrateOpen(g, a, b, eps); d = IntegrateOpenDetailed(g, a, b, {}, eps); L w = (L)b - a; ex = w + w * w * w; ctx.check(ok(IntegrateOpen(g, b, a, eps).value, -ex, 0, 1e-12), "reversed", nm); } }
	ctx.check(r.converged, "no-convergence", nm); ctx.check(ok(r.value, ex, 0, (eps > 1e-8 ? 3000 : 20) * eps + 1e-12), "improper-value", nm, ": ", r.value, " expected ", (double)ex); ctx.check(d.value == r.value && d.converged == r.converged && d.error_estimate == r.error_estimate && d.iterations == r.iterations && d.IsSuccess(), "variants", nm); ctx.check(r.error_estimate <= 2.1 * eps * fabsl(ex) && r.error_estimate >= 0, "false-convergence", nm); ctx.state(mc::Hash().u(k).d(a).d(s).d(eps)); ctx.outcome(mc::Hash().d(r.value)); ctx.nontrivial(); }
MC_SCENARIO(sides, 1) { // composite improper integrals: value, error, effort and convergence are those of both parts
	int side = ctx.choose(3), api = ctx.choose(4), cap = ctx.range(5, 9); double c = ctx.pick({0.0, 0.5}); double k = ctx.pick({25.0, 3.0}); if (api == 0) c = 0; RF f([=](double x) { bool hard = side == 2 || (side == 1) == (x > c); double y = x - c, e = api < 2 ? std::exp(-std::fabs(y)) : 1; return hard ? e * (1 + std::cos(k * y)) : e; }); Defaults::RombergIntegrationMaxSteps = cap; IntegrationResult r, l, u; double eps = 1e-7; IntegrationDetailedResult d; switch (api) { case 0: r = IntegrateInf(f, eps); d = IntegrateInfDetailed(f, {}, eps); l = IntegrateLowerInf(f, 0, eps); u = IntegrateUpperInf(f, 0, eps); break; case 1: r = IntegrateInfSplit(f, c, eps); d = IntegrateInfSplitDetailed(f, c, {}, eps); l = IntegrateLowerInf(f, c, eps); u = IntegrateUpperInf(f, c, eps); break; case 2: r = IntegrateBothSingular(f, c - 1, c + 1, eps); d = IntegrateBothSingularDetailed(f, c - 1, c + 1, {}, eps); l = IntegrateLowerSingular(f, c - 1, c, eps); u = IntegrateUpperSingular(f, c, c + 1, eps); break; default: r = IntegrateInteriorSingular(f, c - 1, c + 1, c, eps); d = IntegrateInteriorSingularDetailed(f, c - 1, c + 1, c, {}, eps); l = IntegrateUpperSingular(f, c - 1, c, eps); u = IntegrateLowerSingular(f, c, c + 1, eps); } Defaults::RombergIntegrationMaxSteps = 20; ctx.step(); std::string nm = ctx.cat("composite ", api, " hard side ", side, " cap ", cap, " c ", c, " k ", k); ctx.check(ok(r.value, (L)l.value + u.value, 0, 1e-14) && ok(r.error_estimate, (L)l.error_estimate + u.error_estimate, 0, 1e-14) && r.iterations == l.iterations + u.iterations, "composite", nm); ctx.check(r.converged == (l.converged && u.converged), "composite-converged", nm, ": ", r.converged, " from ", l.converged, " and ", u.converged); ctx.check(d.value == r.value && d.converged == r.converged && d.IsSuccess() == r.converged && d.iterations == r.iterations, "variants", nm); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(r.value).u(l.converged).u(u.converged)); if (l.converged != u.converged) ctx.nontrivial(); }
static Real lin1(Real x) { return -1 + x / 2; } static Real lin2(Real x) { return 2 - x * x / 4; } static Real zl(Real x, Real y) { return x - y; } static Real zu(Real x, Real y) { return 3 + x * y / 2 + x / 4; }
struct SF2 : IScalarFunction<2> { int i, j; Real operator()(const VectorN<Real, 2>& v) const override { return std::pow(v[0], i) * std::pow(v[1], j); } }; struct SF3 : IScalarFunction<3> { int i, j, k; Real operator()(const VectorN<Real, 3>& v) const override { return std::pow(v[0], i) * std::pow(v[1], j) * std::pow(v[2], k); } };
static L inner3(L x, L y, int k) { return (powl(3 + x * y / 2 + x / 4, k + 1) - powl(x - y, k + 1)) / (k + 1); }
MC_SCENARIO(nested, 2) { // double and triple integrals over curved regions
	bool tri = ctx.flag(); int m = ctx.choose(5); auto M = (IntegrationMethod)m; int i = ctx.range(0, 3), j = ctx.range(0, 3), k = tri ? ctx.range(0, 2) : 0; if (tri && (m < 3) && (i + j + k) % 3 && !ctx.thorough) ctx.prune(); double x1 = ctx.pick({0.0, -1.0}), x2 = ctx.pick({1.0, -0.5, 2.0}); if (m < 2 && tri && (i || j) && !ctx.thorough) ctx.prune(); std::vector<L> x, w; gl(14, x, w); L ex = 0, sc = 0; for (int p = 0; p < 14; p++) { L X = ((L)x1 + x2) / 2 + ((L)x2 - x1) / 2 * x[p], lo = -1 + X / 2, hi = 2 - X * X / 4; for (int q = 0; q < 14; q++) { L Y = (lo + hi) / 2 + (hi - lo) / 2 * x[q]; L t = w[p] * w[q] * ((L)x2 - x1) / 2 * (hi - lo) / 2 * powl(X, i) * powl(Y, j) * (tri ? inner3(X, Y, k) : 1); ex += t; sc += fabsl(t); } } ctx.step(); std::string nm = ctx.cat(tri ? "triple " : "double ", m, " x^", i, " y^", j, " z^", k, " [", x1, ",", x2, "]"); double tol = m == 4 ? 1e-12 : m == 3 ? 1e-9 : m == 2 ? (tri ? 1e-4 : 1e-6) : m == 1 ? 1e-4 : 2e-3; IntegrationResult r; IntegrationDetailedResult d;
	if (!tri) { SF2 f; f.i = i; f.j = j; r = Integrate2D(f, M, x1, x2, lin1, lin2); d = Integrate2DDetailed(f, M, x1, x2, lin1, lin2); } else { SF3 f; f.i = i; f.j = j; f.k = k; r = Integrate3D(f, M, x1, x2, lin1, lin2, zl, zu); if (m >= 3) { d = Integrate3DDetailed(f, M, x1, x2, lin1, lin2, zl, zu); if (m == 3) ctx.check(Integrate3D(f, x1, x2, lin1, lin2, zl, zu).value == r.value && Integrate3DDetailed(f, x1, x2, lin1, lin2, zl, zu).value == r.value, "variants", nm); } } ctx.check(ok(r.value, ex, sc, tol), "nested-value", nm, ": ", r.value, " expected ", (double)ex); if (!tri || m >= 3) ctx.check(d.value == r.value && d.converged == r.converged, "variants", nm); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(r.value)); ctx.nontrivial(); }
MC_SCENARIO(adaptive_cells, 2) { // adaptive integration over rectangles and boxes
	bool three = ctx.flag(); int fn = ctx.choose(6), bx = ctx.choose(4), dep = ctx.pick({0, 2, three ? 4 : 10}); double tol = ctx.pick({1e-3, 1e-7}); int budget = ctx.pick({20000000, three ? 20000 : 3000}); static const double B[][6] = {{0, 1, 0, 1, 0, 1}, {-1, 2, 0.5, 1, -0.5, 0}, {-2, -1, -3, 1, 2, 5}, {0, 0.01, 0, 0.02, -0.01, 0.01}}; const double* q = B[bx]; L w[3], c[3]; for (int i = 0; i < 3; i++) { w[i] = (L)q[2 * i + 1] - q[2 * i]; c[i] = ((L)q[2 * i + 1] + q[2 * i]) / 2; } double t0 = q[0] + 0.37 * (double)w[0]; long n = 0; bool in = true; auto g = [&](double x, double y, double z) -> double { n++; in = in && x >= q[0] && x <= q[1] && y >= q[2] && y <= q[3] && (!three || (z >= q[4] && z <= q[5])); double u = (x - (double)c[0]) / (double)w[0], v = (y - (double)c[1]) / (double)w[1], t = three ? (z - (double)c[2]) / (double)w[2] : 0; switch (fn) { case 0: return 1; case 1: return (1 + u + 8 * std::pow(u, 5)) * (2 - v * v) * (1 + 3 * t * t); case 2: return std::exp(6 * u + 2 * v - t); case 3: return 1 / (0.02 + u * u) * (1 + v); case 4: return std::fabs(x - t0); default: return 0; } };
	auto e1 = [](L k) { return k == 0 ? 1.0L : (expl(k / 2) - expl(-k / 2)) / k; }; L vol = w[0] * w[1] * (three ? w[2] : 1), ex = 0, sc = 0; switch (fn) { case 0: ex = 1; sc = 1; break; case 1: ex = (2 - 1 / 12.0L) * (three ? 1.25L : 1); sc = 8; break; case 2: ex = e1(6) * e1(2) * (three ? e1(-1) : 1); sc = 100; break; case 3: { L h = sqrtl(0.02L); ex = 2 / h * atanl(0.5L / h); sc = 75; break; } case 4: { L p = (L)t0 - q[0], r = w[0] - p; ex = (p * p + r * r) / 2 / w[0]; sc = w[0]; break; } default: break; } ex *= vol; sc *= vol; ctx.step(); std::string nm = ctx.cat(three ? "3D " : "2D ", fn, " box ", bx, " depth ", dep, " tol ", tol, " budget ", budget); double val, err; long rep; int cells, md; bool cv; int cell = three ? 3375 : 225, ch = three ? 8 : 4; IntegrationDetailedResult d, d2; auto run = [&](auto r) { val = r.value; err = r.error_estimate; rep = r.function_evaluations; cells = r.cells_subdivided; md = r.max_depth_reached; cv = r.converged; }; auto f2 = [&](double x, double y) { return g(x, y, 0); }; auto f3 = g; long made; bool same = true;
	if (!three) { auto r = Integration::IntegrateAdaptive2D(f2, q[0], q[1], q[2], q[3], tol, dep, budget); made = n; run(r); Integration::AdaptiveConfig2D cf; cf.absoluteTolerance(tol).relativeTolerance(tol).maxDepth(dep).maxEvaluations(budget); auto s = Integration::IntegrateAdaptive2D(f2, q[0], q[1], q[2], q[3], cf); same = s.value == val && s.converged == cv && s.function_evaluations == rep; d = Integration::IntegrateAdaptive2DDetailed(f2, q[0], q[1], q[2], q[3], {}, tol, dep, budget); d2 = Integration::IntegrateAdaptive2DDetailed(f2, q[0], q[1], q[2], q[3], cf); ctx.check(Integration::IntegrateAdaptive2D(f2, q[1], q[1], q[2], q[3]).value == 0, "empty", nm); } else { auto r = Integration::IntegrateAdaptive3D(f3, q[0], q[1], q[2], q[3], q[4], q[5], tol, dep, budget); made = n; run(r); Integration::AdaptiveConfig3D cf; cf.absoluteTolerance(tol).relativeTolerance(tol).maxDepth(dep).maxEvaluations(budget); auto s = Integration::IntegrateAdaptive3D(f3, q[0], q[1], q[2], q[3], q[4], q[5], cf); same = s.value == val && s.converged == cv && s.function_evaluations == rep; d = Integration::IntegrateAdaptive3DDetailed(f3, q[0], q[1], q[2], q[3], q[4], q[5], {}, tol, dep, budget); d2 = Integration::IntegrateAdaptive3DDetailed(f3, q[0], q[1], q[2], q[3], q[4], q[5], cf); }
	ctx.check(same && d.value == val && d2.value == val && d.converged == cv && d2.converged == cv && d.function_evaluations == rep && d2.function_evaluations == rep && d.error_estimate == err && d.IsSuccess() == cv && d2.IsSuccess() == cv, "variants", nm); ctx.check(in, "outside", nm, ": evaluated outside the region"); ctx.check(rep == made, "evaluations", nm, ": reported ", rep, " made ", made); ctx.check(made == (1L + (long)ch * cells) * cell, "cells", nm, ": ", made, " evaluations, ", cells, " subdivided cells"); ctx.check(md <= dep && (cells == 0) == (md == 0), "depth", nm); ctx.check(made <= (long)budget + (long)cell * (1 + ch * (dep + 1)), "budget", nm, ": ", made, " evaluations"); ctx.check(fabsl(val - ex) <= err * 1.001 + 1e-13 * sc, "adaptive-error", nm, ": ", val, " expected ", (double)ex, " estimate ", err); if (cv) ctx.check(err <= tol * (1 + sc) * 1.001, "false-convergence", nm, ": estimate ", err); if (fn <= 1 || fn == 5) ctx.check(cv && cells == 0, "no-convergence", nm); if (fn == 2 && dep >= 2 && budget > 1000000) ctx.check(cv, "no-convergence", nm, ": estimate ", err); if (fn == 3 && dep > 2 && budget > 1000000) ctx.check(cv, "no-convergence", nm, ": estimate ", err, " value ", val); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(val).u(made).u(cv)); ctx.nontrivial(); }
// curves and surfaces
struct Curve : IParametricCurve<3> { int k; double s; Real getMinT() const override { return -10; } Real getMaxT() const override { return 10; } VectorN<Real, 3> operator()(Real t) const override { switch (k) { case 0: return VectorN<Real, 3>{1 + 2 * s * t, 2 - s * t, 2 * s * t}; case 1: return VectorN<Real, 3>{s * std::cos(t), s * std::sin(t), 0.5}; case 2: return VectorN<Real, 3>{s * std::cos(t), s * std::sin(t), 0.75 * s * t}; default: return VectorN<Real, 3>{s * t, s * t * t, s * t * t * t * 2 / 3}; } } L len(L a, L b) const { auto P = [&](L t) -> L { switch (k) { case 0: return 3 * s * t; case 1: return s * t; case 2: return 1.25L * s * t; default: return s * (t + 2 * t * t * t / 3); } }; return P(b) - P(a); } };
struct Scal : IScalarFunction<3> { Real operator()(const VectorN<Real, 3>&) const override { return 2.5; } }; struct Grad : IVectorFunction<3> { VectorN<Real, 3> operator()(const VectorN<Real, 3>& p) const override { return VectorN<Real, 3>{2 * p[0] + p[1], p[0] + p[2], p[1] - 3}; } static L pot(const VectorN<Real, 3>& p) { return (L)p[0] * p[0] + (L)p[0] * p[1] + (L)p[1] * p[2] - 3 * (L)p[2]; } };
MC_SCENARIO(paths, 1) { // lengths, masses and line integrals along curves
	Curve c; c.k = ctx.choose(4); c.s = ctx.pick({1.0, 0.5, 3.0}); double a = ctx.pick({0.0, -1.0, 0.25}), b = ctx.pick({1.0, 2.5, -0.5}); std::string nm = ctx.cat("curve ", c.k, " scale ", c.s, " [", a, ",", b, "]"); ctx.step(); L len = c.len(a, b); auto r = PathIntegration::ParametricCurveLength<3>(c, a, b); ctx.check(r.converged && ok(r.value, len, 0, 2e-4), "length", nm, ": ", r.value, " expected ", (double)len); RF rho([](double t) { return 2 + t; }); auto m = PathIntegration::ParametricCurveMass<3>(c, rho, a, b); L em = 0; { std::vector<L> x, w; gl(12, x, w); for (int i = 0; i < 12; i++) { L t = ((L)a + b) / 2 + ((L)b - a) / 2 * x[i]; L sp = c.k == 0 ? 3 * c.s : c.k == 1 ? c.s : c.k == 2 ? 1.25L * c.s : c.s * (1 + 2 * t * t); em += ((L)b - a) / 2 * w[i] * sp * (2 + t); } } ctx.check(m.converged && ok(m.value, em, 0, 2e-4), "mass", nm, ": ", m.value, " expected ", (double)em); auto s = PathIntegration::LineIntegral(Scal(), c, a, b); ctx.check(s.converged && ok(s.value, 2.5L * len, 0, 2e-5), "line-scalar", nm, ": ", s.value); auto v = PathIntegration::LineIntegral(Grad(), c, a, b, 1e-6); L pd = Grad::pot(c(b)) - Grad::pot(c(a)); ctx.check(ok(v.value, pd, c.s * (1 + c.s), 1e-5), "line-vector", nm, ": ", v.value, " expected ", (double)pd); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(v.value)); ctx.nontrivial(); }
struct VF : IVectorFunction<3> { int k; VectorN<Real, 3> operator()(const VectorN<Real, 3>& p) const override { switch (k) { case 0: return VectorN<Real, 3>{1, -2, 0.5}; case 1: return VectorN<Real, 3>{p[0], p[1], p[2]}; case 2: return VectorN<Real, 3>{p[1], -p[0], 2}; case 3: return VectorN<Real, 3>{0, 0, 3 * p[2] + 1}; default: return VectorN<Real, 3>{p[0] * p[0], p[0] * p[1], p[2]}; } } };
struct Surf : IParametricSurfaceRect<3> { double s; Real getMinU() const override { return 0; } Real getMaxU() const override { return 1; } Real getMinW() const override { return 0; } Real getMaxW() const override { return 1; } VectorN<Real, 3> operator()(Real u, Real w) const override { return VectorN<Real, 3>{s * (u + 0.2 * w), s * (w - 0.1 * u), s * (0.5 * u + 0.3 * w) + 1}; } };
MC_SCENARIO(fluxes, 1) { // flux through bodies (divergence theorem) and patches
	VF f; f.k = ctx.choose(5); int kind = ctx.choose(6); double s = ctx.pick({1.0, 2.0, 0.5}); int pos = ctx.choose(2); ctx.step(); Pnt3Cart C = pos ? Pnt3Cart(1, -2, 0.5) : Pnt3Cart(0, 0, 0); L div[] = {0, 3, 0, 3, 0}; double v = 0; L ex = 0, area = 6 * s * s, fl = 4 * (1 + s) * (1 + s); std::string nm = ctx.cat("field ", f.k, " body ", kind, " size ", s, " position ", pos); double rel = 1e-9; L cx = C.X(); auto dv = [&](L vol) { return f.k == 4 ? (3 * cx + 1) * vol : div[f.k] * vol; };
	if (kind == 0) { v = SurfaceIntegration::SurfaceIntegral(f, Cube3D(s, C), 1e-5); ex = dv(powl(s, 3)); } if (kind == 1) { v = SurfaceIntegration::SurfaceIntegral(f, CubeWithTriangles3D(s, C), 1e-5); ex = dv(powl(s, 3)); } if (kind == 2) { Sphere3D b(s, C, 24, 32); v = SurfaceIntegration::SurfaceIntegral(f, b, 1e-5); ex = dv(4 * PI / 3 * powl(s, 3)); rel = 0.03; area = 13 * s * s; } if (kind == 3) { Pyramid3D b(s, 1.5 * s, Vec3Cart(C.X(), C.Y(), C.Z())); v = SurfaceIntegration::SurfaceIntegral(f, b, 1e-5); ex = dv(powl(s, 3) / 2); } if (kind == 4) { Triangle3D t(C, Pnt3Cart(C.X() + s, C.Y(), C.Z()), Pnt3Cart(C.X(), C.Y() + s, C.Z() + s)); v = SurfaceIntegration::SurfaceIntegral(f, t, 1e-7); L nx = 0, ny = -(L)s * s, nz = (L)s * s; std::vector<L> x, w; gl(6, x, w); for (int p = 0; p < 6; p++) for (int q = 0; q < 6; q++) { L u = (1 + x[p]) / 2, t2 = (1 - u) * (1 + x[q]) / 2, wt = w[p] / 2 * w[q] / 2 * (1 - u); VectorN<Real, 3> g = f(VectorN<Real, 3>{(Real)(C.X() + s * u), (Real)(C.Y() + s * t2), (Real)(C.Z() + s * t2)}); ex += wt * (g[0] * nx + g[1] * ny + g[2] * nz); } area = s * s; }
	if (kind == 5) { Surf S; S.s = s; v = SurfaceIntegration::SurfaceIntegral(f, S, 0, 1, 0, pos ? 2 : 1, 40, 40); L w2 = pos ? 2 : 1; L nx = (L)s * s * (-0.1L * 0.3L - 0.5L), ny = (L)s * s * (0.5L * 0.2L - 0.3L), nz = (L)s * s * (1 + 0.02L); std::vector<L> x, w; gl(6, x, w); for (int p = 0; p < 6; p++) for (int q = 0; q < 6; q++) { L U = (1 + x[p]) / 2, W = w2 * (1 + x[q]) / 2; VectorN<Real, 3> g = f(S((Real)U, (Real)W)); ex += w[p] / 2 * w[q] * w2 / 2 * (g[0] * nx + g[1] * ny + g[2] * nz); } rel = f.k == 4 ? 1e-3 : 1e-8; area = 2 * s * s; } if (f.k == 4) rel = std::max(rel, 1e-4); ctx.check(ok(v, ex, area * fl, rel), "flux", nm, ": ", v, " expected ", (double)ex); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(v)); ctx.nontrivial(); }
template <int N> struct SFN : IScalarFunction<N> { std::function<double(const VectorN<Real, N>&)> g; Real operator()(const VectorN<Real, N>& v) const override { return g(v); } };
template <int N> static void monte(mc::Ctx& ctx, unsigned seed, int smp) {
	VectorN<Real, N> lo, hi; double vol = 1; for (int i = 0; i < N; i++) { lo[i] = -1 + i; hi[i] = lo[i] + 0.5 + i; vol *= hi[i] - lo[i]; } bool anti = ctx.flag(); double cst = ctx.pick({0.1, 1.0 / 3, -7.7, 0.0}); MonteCarloConfig c; c.samples(smp).randomSeed(seed).antithetic(anti); std::string nm = ctx.cat("dimension ", N, " seed ", seed, " samples ", smp, " antithetic ", anti, " constant ", cst); std::vector<VectorN<Real, N>> pts; bool in = true; SFN<N> f; f.g = [&](const VectorN<Real, N>& p) { for (int i = 0; i < N; i++) in = in && p[i] >= lo[i] && p[i] <= hi[i]; pts.push_back(p); return cst; }; ctx.step(); MonteCarloIntegrator<N> I(seed); auto r = I.integrate(f, lo, hi, c); int used = anti ? smp / 2 * 2 : smp; ctx.check((int)pts.size() == used && (int)r.samples_used == used && r.function_evaluations == used, "mc-samples", nm, ": ", pts.size(), " reported ", r.samples_used); ctx.check(in, "mc-outside", nm); ctx.check(ok(r.value, (L)cst * vol, 0, 1e-12), "mc-constant", nm, ": ", r.value); ctx.check(std::isfinite(r.error_estimate) && r.error_estimate >= 0 && r.error_estimate <= 1e-6 * vol * std::fabs(cst) + 1e-12 && r.converged && r.variance >= 0, "mc-error", nm, ": error estimate ", r.error_estimate, " converged ", r.converged);
	auto p1 = pts; pts.clear(); auto r2 = I.integrate(f, lo, hi, c); ctx.check(r2.value == r.value && pts.size() == p1.size(), "mc-reproducible", nm); for (size_t i = 0; i < pts.size(); i++) for (int d = 0; d < N; d++) ctx.check(pts[i][d] == p1[i][d], "mc-reproducible", nm); if (anti) for (size_t i = 0; i + 1 < pts.size(); i += 2) for (int d = 0; d < N; d++) ctx.check(ok(pts[i][d] + pts[i + 1][d], (L)lo[d] + hi[d], 1, 1e-14), "mc-antithetic", nm);
	SFN<N> g; std::vector<double> vals; g.g = [&](const VectorN<Real, N>& p) { double s = 1; for (int i = 0; i < N; i++) s += p[i] * (i + 1); vals.push_back(s); return s; }; auto r3 = I.integrate(g, lo, hi, c); L m = 0, m2 = 0, ct = 1; for (int i = 0; i < N; i++) ct += (i + 1) * ((L)lo[i] + hi[i]) / 2; std::vector<L> u; if (anti) for (size_t i = 0; i + 1 < vals.size(); i += 2) u.push_back(((L)vals[i] + vals[i + 1]) / 2); else for (double x : vals) u.push_back(x); for (L x : u) m += x; m /= u.size(); for (L x : u) m2 += (x - m) * (x - m); m2 /= u.size(); ctx.check(ok(r3.value, m * vol, 1, 1e-12) && ok(r3.variance, m2, 1, 1e-10) && fabsl(r3.error_estimate - vol * sqrtl(m2 / u.size())) <= 1e-6 * vol, "mc-mean", nm, ": ", r3.value, " expected ", (double)(m * vol), " error ", r3.error_estimate); if (anti) ctx.check(ok(r3.value, ct * vol, 0, 1e-12), "mc-antithetic", nm, ": antithetic pairs integrate linear functions exactly");
	StratifiedMonteCarloIntegrator<N> S(seed); int st = 3, per = 2; std::map<int, int> cnt; SFN<N> h; h.g = [&](const VectorN<Real, N>& p) { int id = 0; for (int i = 0; i < N; i++) { int k = (int)std::floor((p[i] - lo[i]) / ((hi[i] - lo[i]) / st)); id = id * 8 + k; } cnt[id]++; return cst; }; auto r4 = S.integrate(h, lo, hi, st, per, seed); int tot = 1; for (int i = 0; i < N; i++) tot *= st; bool each = (int)cnt.size() == tot; for (auto& q : cnt) each = each && q.second == per; ctx.check(each && (int)r4.samples_used == tot * per, "mc-strata", nm, ": strata not sampled equally"); ctx.check(ok(r4.value, (L)cst * vol, 0, 1e-12) && std::isfinite(r4.error_estimate), "mc-constant", nm, ": stratified ", r4.value, " error ", r4.error_estimate);
	HitOrMissIntegrator<N> H(seed); int hits = 0; auto r5 = H.estimateVolume([&](const VectorN<Real, N>& p) { for (int i = 0; i < N; i++) in = in && p[i] >= lo[i] && p[i] <= hi[i]; bool q = p[0] < lo[0] + 0.3 * (hi[0] - lo[0]); hits += q; return q; }, lo, hi, smp, seed); L pr = (L)hits / smp; ctx.check(in && ok(r5.value, vol * pr, 0, 1e-12) && ok(r5.error_estimate, vol * sqrtl(pr * (1 - pr) / smp), 1e-6, 1e-9), "mc-hits", nm, ": ", r5.value); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(r3.value).d(r5.value)); ctx.nontrivial(); }
MC_SCENARIO(montecarlo, 2) { int N = ctx.range(1, 3); unsigned seed = ctx.range(1, ctx.thorough ? 40 : 8); int smp = ctx.pick({1, 2, 7, 64, 501}); if (smp == 1) smp = 3; if (N == 1) monte<1>(ctx, seed, smp); else if (N == 2) monte<2>(ctx, seed, smp); else monte<3>(ctx, seed, smp); RF f([](double x) { return 3 + 0 * x; }); MonteCarloConfig c; c.samples(smp).randomSeed(seed); ctx.check(ok(IntegrateMonteCarlo1D(f, 1, 3, c).value, 6, 0, 1e-12), "mc-constant", "1D wrapper"); auto pi = EstimatePi(2000, seed); ctx.check(std::fabs(pi.value - (double)PI) < 0.25, "mc-pi", pi.value); auto bv = EstimateUnitBallVolume<3>(2000, seed); ctx.check(std::fabs(bv.value - 4 * (double)PI / 3) < 0.6, "mc-ball", bv.value); }
