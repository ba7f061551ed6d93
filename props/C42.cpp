// explicit ODE solvers: step calculators, fixed step, adaptive steppers, dense output, events, solution container
// mc-flags: -O1 -fsanitize=address -fno-omit-frame-pointer
#include "mc.h"
#include "mml/algorithms/ODESolvers.h"
#include "mml/algorithms/ODESolvers/ODESolverEventDetection.h"
#include <map>
#include <functional>
#include <algorithm>
using namespace MML; typedef long double L; typedef std::vector<L> LV; typedef Vector<Real> V;

// ---- systems with a closed-form flow
struct Sys : IODESystem {
	const char* name; int n; std::function<void(L, const LV&, LV&)> f; std::function<LV(L, const LV&, L)> flow; std::vector<LV> starts;
	mutable long calls = 0;
	int getDim() const override { return n; }
	void derivs(const Real t, const V& x, V& d) const override { calls++; LV a(n), b(n); for (int i = 0; i < n; i++) a[i] = x[i]; f(t, a, b); for (int i = 0; i < n; i++) d[i] = (Real)b[i]; }
};
static const std::vector<Sys>& systems() {
	static std::vector<Sys> s = [] {
		std::vector<Sys> r; auto add = [&](const char* nm, int n, std::vector<LV> st, std::function<void(L, const LV&, LV&)> f, std::function<LV(L, const LV&, L)> fl) { Sys q; q.name = nm; q.n = n; q.f = f; q.flow = fl; q.starts = st; r.push_back(q); };
		add("decay", 1, {{1}, {-3}}, [](L, const LV& x, LV& d) { d[0] = -x[0]; }, [](L t, const LV& x, L u) { return LV{x[0] * expl(t - u)}; });
		add("oscillator", 2, {{1, 0}, {0, 2}}, [](L, const LV& x, LV& d) { d[0] = x[1]; d[1] = -x[0]; }, [](L t, const LV& x, L u) { L c = cosl(u - t), s = sinl(u - t); return LV{x[0] * c + x[1] * s, x[1] * c - x[0] * s}; });
		add("growth-cos", 1, {{1}, {0.5}}, [](L t, const LV& x, LV& d) { d[0] = x[0] * cosl(t); }, [](L t, const LV& x, L u) { return LV{x[0] * expl(sinl(u) - sinl(t))}; });
		add("logistic", 1, {{0.25}, {2}}, [](L, const LV& x, LV& d) { d[0] = x[0] * (1 - x[0]); }, [](L t, const LV& x, L u) { L e = expl(u - t); return LV{x[0] * e / (1 + x[0] * (e - 1))}; });
		add("polynomial", 2, {{0, 1}, {5, -2}}, [](L t, const LV& x, LV& d) { d[0] = 3 * t * t - 2 * t + 1; d[1] = 2; }, [](L t, const LV& x, L u) { auto p = [](L a) { return a * a * a - a * a + a; }; return LV{x[0] + p(u) - p(t), x[1] + 2 * (u - t)}; });
		add("forced", 2, {{1, 0}, {-1, 1}}, [](L t, const LV& x, LV& d) { d[0] = x[1]; d[1] = t - x[0]; }, [](L t, const LV& x, L u) { L c = cosl(u - t), s = sinl(u - t), a = x[0] - t, b = x[1] - 1; return LV{u + a * c + b * s, 1 + b * c - a * s}; });
		add("coupled", 3, {{1, 0.5, -1}}, [](L, const LV& x, LV& d) { d[0] = -x[0] + x[1]; d[1] = -2 * x[1]; d[2] = x[0] - x[2]; }, [](L t, const LV& x, L u) { L w = u - t, e = expl(-w), g = expl(-2 * w); L a = x[0] + x[1], b = -x[1]; return LV{a * e + b * g, x[1] * g, x[2] * e + a * w * e + b * (e - g)}; });
		add("product", 2, {{1, 1}, {0.5, -1}}, [](L, const LV& x, LV& d) { d[0] = -x[0] * x[0]; d[1] = x[0] * x[1]; }, [](L t, const LV& x, L u) { L q = 1 + x[0] * (u - t); return LV{x[0] / q, x[1] * q}; });
		return r; }();
	return s;
}
static V toV(const LV& a) { V v((int)a.size()); for (size_t i = 0; i < a.size(); i++) v[(int)i] = (Real)a[i]; return v; }
static LV toL(const V& a) { LV v(a.size()); for (int i = 0; i < a.size(); i++) v[i] = a[i]; return v; }
static L big(const LV& a) { L m = 0; for (L x : a) m = std::max(m, fabsl(x)); return m; }
static L dist(const LV& a, const V& b) { L m = 0; for (int i = 0; i < (int)a.size(); i++) { if (!std::isfinite(b[i])) return INFINITY; m = std::max(m, fabsl(a[i] - b[i])); } return m; }
// largest fourth derivative of the flow along [a,b]
static L fourth(const Sys& s, L t0, const LV& x0, L a, L b) {
	L m = 0, d = 0.02L; for (int k = 0; k <= 16; k++) { L c = a + (b - a) * k / 16; LV y[5]; for (int j = 0; j < 5; j++) y[j] = s.flow(t0, x0, c + (j - 2) * d); for (int i = 0; i < s.n; i++) m = std::max(m, fabsl(y[0][i] - 4 * y[1][i] + 6 * y[2][i] - 4 * y[3][i] + y[4][i]) / (d * d * d * d)); }
	return m;
}

// ---- fixed-step calculators
struct Calc { const char* name; const IODESystemStepCalculator* c; int order; int err; bool separable; };
static const std::vector<Calc>& calcs() {
	static std::vector<Calc> c = {{"Euler", &StepCalculators::EulerStepCalc, 1, 0, false}, {"EulerCromer", &StepCalculators::EulerCromerStepCalc, 2, 2, false}, {"Verlet", &StepCalculators::VelocityVerletStepCalc, 2, 0, true}, {"Leapfrog", &StepCalculators::LeapfrogStepCalc, 2, 0, true},
		{"Midpoint", &StepCalculators::MidpointStepCalc, 2, 0, false}, {"RK4", &StepCalculators::RK4_Basic, 4, 0, false}, {"CashKarp", &StepCalculators::RK5_CashKarp, 5, 5, false}, {"DP5", &StepCalculators::DormandPrince5StepCalc, 5, 5, false}, {"DP8", &StepCalculators::DormandPrince8StepCalc, 8, 8, false}};
	return c;
}
static V onestep(const Calc& c, const Sys& s, Real t, const V& x, Real h, V& err) { V d(s.n), o(s.n), e(s.n); s.derivs(t, x, d); V x2 = x; c.c->calcStep(s, t, x2, d, h, o, e); err = e; return o; }
// local error of order p+1, error estimate of its order, start vector untouched, repeated calls agree
MC_SCENARIO(step_order, 2) {
	const Calc& c = calcs()[ctx.choose((int)calcs().size())]; const Sys& s = systems()[ctx.choose((int)systems().size())]; int sg = ctx.flag() ? -1 : 1;
	if (c.separable && std::string(s.name) != "oscillator" && std::string(s.name) != "forced") ctx.prune();
	std::string nm = ctx.cat(c.name, " on ", s.name, " sign ", sg); L prev = -1, prevE = -1; Real H = c.order >= 8 ? 0.125 : 0.0625;
	for (int k = 0; k < 3; k++) { Real h = sg * H / (1 << k); L er = 0, em = 0, sc = 1;
		for (auto& x0 : s.starts) for (Real t : {0.0, -1.5, 2.0}) { V x = toV(x0), e; V y = onestep(c, s, t, x, h, e); L q = dist(s.flow(t, toL(x), (L)t + h), y), z = big(toL(e)); ctx.step(); er = std::max(er, q); em = std::max(em, z); sc = std::max(sc, 1 + big(x0)); ctx.outcome(mc::Hash().d(y[0])); if (!c.err) ctx.check(z == 0, "no-estimate", nm, ": estimate ", (double)z); }
		L fl = 4e-15L * sc; ctx.check(er <= 30 * powl(fabsl((L)h), c.order + 1) * sc + fl, "local-error", nm, " h=", h, ": error ", (double)er);
		if (k) ctx.check(er <= prev / powl(2, c.order + 0.4L) + 1e-12L * sc, "order", nm, ": error ", (double)er, " after halving, ", (double)prev, " before");
		if (c.err && k) ctx.check(em <= prevE / powl(2, c.err - 0.7L) + fl, "estimate-order", nm, ": estimate ", (double)em, " after halving, ", (double)prevE, " before"); if (c.err) ctx.check(er <= 6 * em + fl, "estimate", nm, " h=", h, ": error ", (double)er, " estimate ", (double)em);
		prev = er; prevE = em; }
	ctx.state(mc::Hash().s(nm)); ctx.nontrivial(); }
// a method of order p integrates t^k, k < p, exactly, and linear systems with its Taylor polynomial
MC_SCENARIO(step_exact, 2) {
	const Calc& c = calcs()[ctx.choose((int)calcs().size())]; if (c.separable) ctx.prune(); int k = ctx.choose(c.order); Real t = ctx.pick({0.0, -1.0, 3.0}), h = ctx.pick({1.0, 0.25, -2.0});
	Sys s; s.name = "power"; s.n = 2; s.f = [k](L t, const LV& x, LV& d) { d[0] = powl(t, k); d[1] = x[0] * 0 + 1; }; V x(2); x[0] = 2; x[1] = -1; V e; V y = onestep(c, s, t, x, h, e); L u = (L)t + h, ex = 2 + (powl(u, k + 1) - powl(t, k + 1)) / (k + 1);
	ctx.check(fabsl(y[0] - ex) <= 2e-14L * (3 + powl(fabsl(t) + fabsl(h), k + 1)), "quadrature", c.name, " t^", k, " from ", t, " by ", h, ": ", y[0], " expected ", (double)ex); ctx.check(fabsl(y[1] - (-1 + (L)h)) < 1e-15L * 10, "quadrature", c.name, " constant");
	// nilpotent shift system: x' = N x is solved exactly up to order p
	Sys z; z.name = "shift"; z.n = c.order + 1; int n = z.n; z.f = [n](L, const LV& x, LV& d) { for (int i = 0; i < n; i++) d[i] = i + 1 < n ? x[i + 1] : 0; }; V w(n); for (int i = 0; i < n; i++) w[i] = (i * 3 + k) % 5 - 2; V q = onestep(c, z, t, w, h, e);
	for (int i = 0; i < n; i++) { L r = 0, f = 1; for (int j = i; j < n; j++) { r += w[j] * f; f *= (L)h / (j - i + 1); } ctx.check(fabsl(q[i] - r) <= 1e-13L * 40, "taylor", c.name, " component ", i, ": ", q[i], " expected ", (double)r); }
	ctx.state(mc::Hash().s(c.name).u(k).d(t).d(h)); ctx.outcome(mc::Hash().d(y[0])); ctx.step(2); ctx.nontrivial(); }
// the fixed-step solver composes the calculator; grid, global order, direction; symmetric methods are reversible
MC_SCENARIO(fixed_step, 2) {
	const Calc& c = calcs()[ctx.choose((int)calcs().size())]; const Sys& s = systems()[ctx.choose((int)systems().size())]; LV x0 = s.starts[ctx.choose((int)s.starts.size())]; int N = ctx.pick({1, 2, 3, 7, 40}); Real t1 = ctx.pick({0.0, -0.7, 1e4}), span = ctx.pick({0.3, 1.0, -0.5});
	if (c.separable && std::string(s.name) != "oscillator" && std::string(s.name) != "forced") ctx.prune(); Real t2 = t1 + span; std::string nm = ctx.cat(c.name, " on ", s.name, " [", t1, ",", t2, "] N=", N); V v = toV(x0);
	ODESystemFixedStepSolver fs(s, *c.c); auto sol = fs.integrate(v, t1, t2, N); ctx.check(dist(x0, v) == 0, "const", nm); ctx.check(sol.size() == N + 1 && sol.getNumSteps() == N && sol.getSysDim() == s.n && sol.getT1() == t1 && sol.getT2() == t2, "grid", nm, ": size ", sol.size());
	L h = ((L)t2 - t1) / N; V x = v; for (int k = 0; k <= N; k++) { ctx.check(fabsl(sol.getTValue(k) - (t1 + k * h)) <= 3e-16L * (1 + fabsl(t1)), "grid", nm, ": time ", k, " is ", sol.getTValue(k)); for (int i = 0; i < s.n; i++) ctx.check(fabsl(sol.getXValue(k, i) - x[i]) <= (1e-13L + 1e-15L * fabsl(t1)) * (k + 1) * (1 + big(toL(x))), "compose", nm, ": step ", k, " component ", i, " is ", sol.getXValue(k, i), " expected ", x[i]); V e; if (k < N) x = onestep(c, s, (Real)(t1 + k * h), x, (Real)h, e); }
	ctx.check(sol.getTValue(N) == t2, "grid", nm, ": last time ", sol.getTValue(N)); V en = sol.getXValuesAtEnd(); for (int i = 0; i < s.n; i++) ctx.check(en[i] == sol.getXValue(N, i), "end", nm);
	if (c.separable) { auto back = fs.integrate(en, t2, t1, N); ctx.check(dist(x0, back.getXValuesAtEnd()) <= (1e-12L + 1e-14L * fabsl(t1)) * (1 + big(x0)), "reversible", nm); }
	V wrong(s.n + 1); ctx.check(mc::throws([&] { fs.integrate(wrong, t1, t2, N); }), "size", nm); V less(s.n - 1); ctx.check(mc::throws([&] { fs.integrate(less, t1, t2, N); }), "size", nm); for (int b : {0, -1}) ctx.check(mc::throws([&] { fs.integrate(v, t1, t2, b); }), "steps", nm);
	ctx.state(mc::Hash().s(nm).d((double)x0[0])); ctx.outcome(mc::Hash().d(en[0])); ctx.step(N); ctx.nontrivial(); }

// ---- adaptive steppers
static const char* SN[] = {"DP5", "CashKarp", "DP8", "BulirschStoer", "BulirschStoerRational"};
static std::unique_ptr<IAdaptiveStepper> mk(int k, const IODESystem& s) { switch (k) { case 0: return std::make_unique<DormandPrince5_Stepper>(s); case 1: return std::make_unique<CashKarp_Stepper>(s); case 2: return std::make_unique<DormandPrince8_Stepper>(s); case 3: return std::make_unique<BulirschStoer_Stepper>(s); } return std::make_unique<BulirschStoerRational_Stepper>(s); }
// every sequence of trial steps (and a restart from another state in between)
MC_SCENARIO(steppers, 2) {
	int k = ctx.choose(5); const Sys& s = systems()[ctx.choose((int)systems().size())]; LV x0 = s.starts[ctx.choose((int)s.starts.size())]; Real eps = ctx.pick({1e-6, 1e-10}), t = ctx.pick({0.0, -1.0}); auto st = mk(k, s); std::string nm = ctx.cat(SN[k], " on ", s.name, " eps=", eps, " t=", t);
	V x = toV(x0), d(s.n); s.derivs(t, x, d); bool bs = k >= 3; int depth = ctx.thorough ? 4 : 3;
	for (int i = 0; i < depth; i++) { int op = ctx.choose(ctx.thorough ? 6 : 5); if (op == 4) { for (int j = 0; j < s.n; j++) x[j] = x[j] * 0.5 + 0.25; t += 0.5; s.derivs(t, x, d); st->resetFSAL(); nm += " restart"; continue; }
		Real h = op == 0 ? 1e-3 : op == 1 ? 0.05 : op == 2 ? 0.4 : op == 3 ? 1.7 : 0.2; nm += ctx.cat(" h=", h); LV xo = toL(x); V xb = x, db = d; long c0 = s.calls; StepResult r = st->doStep(t, x, d, h, eps); long used = s.calls - c0; ctx.step();
		ctx.check(r.funcEvals == used, "evaluations", nm, ": reported ", r.funcEvals, " made ", used);
		if (!r.accepted) { ctx.check(bs, "rejected", nm); ctx.check(r.hNext > 0 && r.hNext < h && dist(xo, x) == 0 && dist(toL(db), d) == 0, "rejected-state", nm, " hNext ", r.hNext); continue; }
		ctx.check(r.hDone > 0 && r.hDone <= h && r.hNext > 0 && std::isfinite(r.hNext) && r.errMax >= 0 && r.errMax <= 1, "step", nm, ": hDone ", r.hDone, " hNext ", r.hNext, " err ", r.errMax); ctx.check((r.rejected > 0) == (r.hDone < h) || bs, "rejections", nm, ": ", r.rejected, " hDone ", r.hDone);
		LV ex = s.flow(t, xo, (L)t + r.hDone); LV dd(s.n), xl = toL(x); L sc = std::max(big(xo), big(ex)); { LV a(s.n); s.f(t, xo, a); sc += r.hDone * big(a); } ctx.check(dist(ex, x) <= (bs ? op == 3 ? 400 : 12 : 3) * (L)eps * sc + 1e-14L * (1 + sc), "accuracy", nm, " hDone ", r.hDone, ": error ", (double)dist(ex, x), " scale ", (double)sc);
		s.f((L)(t + r.hDone), xl, dd); ctx.check(dist(dd, d) <= 1e-13L * (1 + big(dd)), "end-derivative", nm, ": off by ", (double)dist(dd, d)); ctx.check(dist(toL(d), st->getFinalDeriv()) == 0, "final-derivative", nm);
		L m4 = fourth(s, t, xo, t, t + r.hDone); for (int q = 0; q <= 4; q++) { Real th = q / 4.0; V y = st->interpolate(t + th * r.hDone); LV a(s.n), her(s.n); s.f(t, xo, a); L z = th; for (int j = 0; j < s.n; j++) her[j] = (2 * z * z * z - 3 * z * z + 1) * xo[j] + (z * z * z - 2 * z * z + z) * r.hDone * a[j] + (3 * z * z - 2 * z * z * z) * xl[j] + (z * z * z - z * z) * r.hDone * dd[j]; L tl = 2e-13L * (1 + sc) * (1 + 1e-16L / r.hDone); LV tr = s.flow(t, xo, t + z * r.hDone); ctx.check(dist(her, y) <= tl || dist(tr, y) <= 1.5L * m4 * powl(r.hDone, 4) / 384 + 6 * (L)eps * sc + tl, "dense-output", nm, " theta ", th, ": ", y[0], " expected ", (double)tr[0]); if (q == 0) ctx.check(dist(xo, y) <= tl, "dense-start", nm); if (q == 4) ctx.check(dist(xl, y) <= tl, "dense-end", nm); }
		t += r.hDone; ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(x[0])); }
	int ord[] = {5, 5, 8, 16, 16}; ctx.check(st->order() == ord[k], "order", SN[k]); if (!bs) { auto f = mk(k, s); ctx.check(mc::throws([&] { f->interpolate(0.1); }), "no-step", SN[k]); } ctx.nontrivial(); }

template<class S> static ODESystemSolution run(const Sys& s, const V& x, Real a, Real b, Real iv, Real eps, Real h0, SolutionStatistics& st) { ODEAdaptiveIntegrator<S> in(s); auto r = in.integrate(x, a, b, iv, eps, h0); st = in.getStatistics(); return r; }
static ODESystemSolution runk(int k, const Sys& s, const V& x, Real a, Real b, Real iv, Real eps, Real h0, SolutionStatistics& st) { switch (k) { case 0: return run<DormandPrince5_Stepper>(s, x, a, b, iv, eps, h0, st); case 1: return run<CashKarp_Stepper>(s, x, a, b, iv, eps, h0, st); case 2: return run<DormandPrince8_Stepper>(s, x, a, b, iv, eps, h0, st); case 3: return run<BulirschStoer_Stepper>(s, x, a, b, iv, eps, h0, st); } return run<BulirschStoerRational_Stepper>(s, x, a, b, iv, eps, h0, st); }
static void grid(mc::Ctx& ctx, const std::string& nm, const ODESystemSolution& sol, Real a, Real b, Real iv) {
	int n = sol.size(); ctx.check(n >= 2 && sol.getTValue(0) == a && sol.getTValue(n - 1) == b, "output-ends", nm, ": ", n, " points, last ", sol.getTValue(n - 1)); L step = iv;
	for (int i = 0; i + 1 < n; i++) ctx.check(fabsl(sol.getTValue(i) - (a + i * step)) <= 1e-12L * (1 + fabsl(a) + fabsl(b)), "output-grid", nm, ": point ", i, " at ", sol.getTValue(i), " expected ", (double)(a + i * step));
	L last = (L)b - sol.getTValue(n - 2); ctx.check(last > 1e-9L * iv && last <= iv * (1 + 1e-9L) + 1e-12L * (1 + fabsl(b)), "output-last", nm, ": last interval ", (double)last, " of ", iv, ", ", n, " points"); V tv = sol.getTValues(); ctx.check(tv.size() == n, "output-size", nm, ": ", tv.size(), " times for ", n, " points"); }
MC_SCENARIO(adaptive, 3) {
	int k = ctx.choose(5); const Sys& s = systems()[ctx.choose((int)systems().size())]; LV x0 = s.starts[ctx.choose((int)s.starts.size())]; Real a = ctx.pick({0.0, -0.3, 1000.0}), span = ctx.pick({0.3, 0.7, 2.0}), iv = ctx.pick({0.1, 0.25, 3.0}), eps = ctx.pick({1e-5, 1e-9}), h0 = ctx.pick({0.0, 0.5}); Real b = a + span; if (a == 1000.0 && h0 > 0) ctx.prune();
	std::string nm = ctx.cat(SN[k], " on ", s.name, " from ", (double)x0[0], " [", a, ",", b, "] every ", iv, " eps ", eps, " h0 ", h0); s.calls = 0; SolutionStatistics st; auto sol = runk(k, s, toV(x0), a, b, iv, eps, h0, st); ctx.step();
	grid(ctx, nm, sol, a, b, iv); ctx.check(st.status == AlgorithmStatus::Success && st.error_message.empty(), "status", nm); ctx.check(st.totalFuncEvals == s.calls, "evaluations", nm, ": reported ", st.totalFuncEvals, " made ", s.calls); ctx.check(st.acceptedSteps > 0 && st.minStepSize > 0 && st.minStepSize <= st.maxStepSize && st.maxStepSize <= span * (1 + 1e-12) && st.totalSteps() == st.acceptedSteps + st.rejectedSteps && st.maxStepSize * st.acceptedSteps >= span * (1 - 1e-9), "statistics", nm, ": ", st.acceptedSteps, " steps up to ", st.maxStepSize);
	L m4 = fourth(s, a, x0, a, b), sc = 0; for (int i = 0; i < sol.size(); i++) sc = std::max(sc, big(s.flow(a, x0, sol.getTValue(i)))); sc += 1; L tol = 3 * eps * sc * (st.acceptedSteps + 1) * expl(span) + 1e-13L * sc * (1 + fabsl(a));
	for (int i = 0; i < sol.size(); i++) { V y(s.n); for (int j = 0; j < s.n; j++) y[j] = sol.getXValue(i, j); L e = dist(s.flow(a, x0, sol.getTValue(i)), y); bool end = i == 0 || i == sol.size() - 1; ctx.check(e <= tol + (end ? 0 : 1.5L * m4 * powl(st.maxStepSize, 4) / 384), end ? "end-accuracy" : "output-accuracy", nm, " point ", i, ": error ", (double)e, " allowed ", (double)tol); }
	ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(sol.getXValue(sol.size() - 1, 0))); ctx.nontrivial(); }
// the output grid for every combination of span and interval: no point left out, none doubled
MC_SCENARIO(output_grid, 2) {
	int k = ctx.choose(2); Real a = ctx.pick({0.0, 0.1, -0.3, 7.7}); int sp = ctx.range(1, 12), den = ctx.pick({10, 7, 4}); Real iv = ctx.pick({0.1, 0.05, 1.0 / 7, 0.25, 0.3, 1.0}); Real b = a + sp / (Real)den; Sys s = systems()[4]; SolutionStatistics st; auto sol = runk(k * 2, s, toV({0, 1}), a, b, iv, 1e-8, 0, st); std::string nm = ctx.cat(SN[k * 2], " [", a, ",", b, "] every ", iv); grid(ctx, nm, sol, a, b, iv);
	for (int i = 0; i < sol.size(); i++) ctx.check(fabsl(sol.getXValue(i, 1) - (1 + 2 * ((L)sol.getTValue(i) - a))) < 1e-9L, "grid-value", nm, " point ", i); for (int c = 0; c < 2; c++) { auto li = sol.getSolAsLinInterp(c); for (int i = 0; i < sol.size(); i++) ctx.check(mc::near(li(sol.getTValue(i)), sol.getXValue(i, c), 1e-12), "grid-interp", nm); }
	ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().u(sol.size())); ctx.step(); ctx.nontrivial(); }
// output at given times: every increasing subset of a grid, and sequences that are not increasing
MC_SCENARIO(output_times, 2) {
	int k = ctx.choose(5); const Sys& s = systems()[ctx.pick({0, 1, 4, 5})]; std::vector<Real> g = {0, 1e-3, 0.1, 0.35, 1.0, 1.6}; std::vector<Real> t; for (Real x : g) if (ctx.flag()) t.push_back(x - 0.4); int bad = ctx.choose(3); if (bad == 1 && t.size() >= 2) t[1] = t[0]; if (bad == 2 && t.size() >= 2) std::swap(t[0], t.back()); V tv((int)t.size()); for (size_t i = 0; i < t.size(); i++) tv[(int)i] = t[i]; LV x0 = s.starts[0]; std::string nm = ctx.cat(SN[k], " on ", s.name, " at ", t.size(), " times bad=", bad);
	auto go = [&](auto in) { SolutionStatistics st; s.calls = 0; if (t.size() < 2 || bad) { ctx.check(mc::throws([&] { in.integrateAt(toV(x0), tv, 1e-8); }), "times-refused", nm); return; }
		auto sol = in.integrateAt(toV(x0), tv, 1e-8); st = in.getStatistics(); ctx.check(sol.size() == (int)t.size(), "times-count", nm, ": ", sol.size()); ctx.check(st.totalFuncEvals == s.calls, "times-evaluations", nm, ": reported ", st.totalFuncEvals, " made ", s.calls); for (int i = 0; i < sol.size(); i++) { ctx.check(fabsl(sol.getTValue(i) - (L)t[i]) <= 1e-15L, "times", nm); V y(s.n); for (int j = 0; j < s.n; j++) y[j] = sol.getXValue(i, j); L e = dist(s.flow(t[0], x0, t[i]), y); ctx.check(e <= 3e-8L * (1 + big(x0)) * (st.acceptedSteps + 1), "times-accuracy", nm, " at ", t[i], ": error ", (double)e); } ctx.outcome(mc::Hash().d(sol.getXValue(sol.size() - 1, 0))); };
	if (k == 0) go(ODEAdaptiveIntegrator<DormandPrince5_Stepper>(s)); else if (k == 1) go(ODEAdaptiveIntegrator<CashKarp_Stepper>(s)); else if (k == 2) go(ODEAdaptiveIntegrator<DormandPrince8_Stepper>(s)); else if (k == 3) go(ODEAdaptiveIntegrator<BulirschStoer_Stepper>(s)); else go(ODEAdaptiveIntegrator<BulirschStoerRational_Stepper>(s)); ctx.state(mc::Hash().s(nm).seq(t)); ctx.step(); ctx.nontrivial(); }
// step limits, configuration, right-hand sides that become NaN or infinite, arguments that make no sense
MC_SCENARIO(limits, 2) {
	int k = ctx.choose(5), what = ctx.choose(4); const Sys& base = systems()[ctx.pick({0, 1})]; V x = toV(base.starts[0]); std::string nm = ctx.cat(SN[k], " limit ", what, " ", base.name);
	auto go = [&](auto tag) { typedef typename decltype(tag)::type S;
		if (what == 0) { int m = ctx.range(1, 12); Sys s = base; ODEIntegratorConfig c; c.tolerance = 1e-8; c.max_steps = m; c.output_interval = 0.1; c.max_step_size = ctx.pick({0.05, 0.11, 1e9}); ODEAdaptiveIntegrator<S> in(s); auto sol = in.integrate(x, 0, 1, c); auto st = in.getStatistics(); nm += ctx.cat(" max ", m, " size ", c.max_step_size); ODEIntegratorConfig c2 = c; c2.max_steps = 100000; ODEAdaptiveIntegrator<S> f(s); auto full = f.integrate(x, 0, 1, c2); int need = f.getStatistics().acceptedSteps; ctx.check(f.getStatistics().maxStepSize <= c.max_step_size * (1 + 1e-12), "max-step-size", nm, ": ", f.getStatistics().maxStepSize); grid(ctx, nm, full, 0, 1, 0.1);
			ctx.check(st.acceptedSteps == std::min(need, m), "max-steps", nm, ": accepted ", st.acceptedSteps, " needs ", need); ctx.check((st.status == AlgorithmStatus::Success) == (need <= m) && (need <= m || (st.status == AlgorithmStatus::MaxIterationsExceeded && !st.error_message.empty())), "max-steps-status", nm, ": needs ", need); ctx.check(need <= m ? sol.size() == full.size() : sol.size() < full.size() && sol.size() >= 1, "max-steps-points", nm, ": ", sol.size()); for (int i = 0; i < sol.size(); i++) ctx.check(sol.getTValue(i) == full.getTValue(i) && sol.getXValue(i, 0) == full.getXValue(i, 0), "max-steps-values", nm, " point ", i);
			ODEAdaptiveConfig dc; dc.integrator = c; dc.exception_policy = ctx.flag() ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; s.calls = 0; auto r = ODEAdaptiveIntegrateDetailed<S>(s, x, 0, 1, dc); ctx.check(r.IsSuccess() == (need <= m) && r.solution.has_value() && r.accepted_steps == st.acceptedSteps && r.rejected_steps == st.rejectedSteps && r.total_func_evals == s.calls && r.function_evaluations == s.calls && r.max_step_size == st.maxStepSize && r.min_step_size == st.minStepSize, "detailed", nm, " steps ", r.accepted_steps, " evaluations ", r.function_evaluations, " made ", s.calls); ctx.outcome(mc::Hash().u(need)); }
		else if (what == 1) { Real at = ctx.pick({0.0, 0.37, 0.9}); Real v = ctx.pick({(Real)NAN, (Real)INFINITY}); int comp = ctx.choose(base.n); Sys s = base; auto f0 = base.f; s.f = [=](L t, const LV& y, LV& d) { f0(t, y, d); if (t > at) d[comp] = v; }; ODEAdaptiveIntegrator<S> in(s); nm += ctx.cat(" ", v, " after ", at); ctx.check(mc::throws([&] { in.integrate(x, 0, 1, 0.1, 1e-8); }), "nonfinite", nm); ctx.check(s.calls < 100000, "nonfinite-bounded", nm, ": ", s.calls, " calls"); ODEAdaptiveConfig dc; dc.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = ODEAdaptiveIntegrateDetailed<S>(s, x, 0, 1, dc); ctx.check(!r.IsSuccess() && !r.error_message.empty(), "nonfinite-detailed", nm); }
		else if (what == 2) { int c = ctx.choose(6); Sys s = base; ODEAdaptiveIntegrator<S> in(s); auto bad = [&] { switch (c) { case 0: in.integrate(x, 1, 0, 0.1); break; case 1: in.integrate(x, 0, 1, 0.0); break; case 2: in.integrate(x, 0, 1, -0.1); break; case 3: in.integrate(x, 0, 1, NAN); break; case 4: in.integrate(x, 0, INFINITY, 1.0); break; case 5: in.integrate(x, NAN, 1, 1.0); break; } }; ctx.check(mc::throws(bad), "bad-argument", nm, " case ", c); }
		else { Real iv = ctx.pick({0.0, 0.2}); Sys s = base; ODEIntegratorConfig c; c.tolerance = 1e-7; c.initial_step_size = ctx.pick({0.0, 0.01, 5.0}); c.output_interval = iv; ODEAdaptiveIntegrator<S> in(s); auto sol = in.integrate(x, 0, 2, c); grid(ctx, nm, sol, 0, 2, iv > 0 ? iv : 0.02); auto again = in.integrate(x, 0, 2, c); ctx.check(again.size() == sol.size(), "repeat", nm); for (int i = 0; i < sol.size(); i++) ctx.check(mc::near(again.getXValue(i, 0), sol.getXValue(i, 0), 1e-12), "repeat", nm, " point ", i); L e = dist(base.flow(0, base.starts[0], 2), sol.getXValuesAtEnd()); ctx.check(e < 1e-5, "config-accuracy", nm, ": ", (double)e); } };
	struct A { typedef DormandPrince5_Stepper type; }; struct B { typedef CashKarp_Stepper type; }; struct C { typedef DormandPrince8_Stepper type; }; struct D { typedef BulirschStoer_Stepper type; }; struct E { typedef BulirschStoerRational_Stepper type; };
	if (k == 0) go(A{}); else if (k == 1) go(B{}); else if (k == 2) go(C{}); else if (k == 3) go(D{}); else go(E{}); ctx.state(mc::Hash().s(nm)); ctx.step(); ctx.nontrivial(); }

// ---- events: hybrid automata with x' = +-1 whose handlers jump
struct Ev { Real c; EventDirection want; EventAction act; int reset; };   // reset: 0 keep the position, 1 back to 0, 2 to c - 0.35
struct Auto : IODESystemWithEvents {
	std::vector<Ev> e; Real slope = 1; mutable long calls = 0, handled = 0; int getDim() const override { return 2; } void derivs(const Real, const V&, V& d) const override { calls++; d[0] = slope; d[1] = 0; }
	int getNumEvents() const override { return (int)e.size(); } Real eventFunction(int i, Real, const V& x) const override { return slope * x[0] - e[i].c; } EventDirection getEventDirection(int i) const override { return e[i].want; } EventAction getEventAction(int i) const override { return e[i].act; }
	void handleEvent(int i, Real, V& x) const override { handled++; x[1] += 1 << (2 * i); if (e[i].reset == 1) x[0] = 0; else if (e[i].reset == 2) x[0] = slope * (e[i].c - 0.35); }
};
template<class S> static void automaton(mc::Ctx& ctx, const Auto& au, Real u0, Real t0, Real tEnd, Real iv, const std::string& nm) {
	// the model: u = slope * x[0] runs with unit speed
	struct M { int i; L t, u; L mark; }; std::vector<M> ev; L t = t0, u = u0, mark = 0; bool stopped = false; std::vector<bool> at(au.e.size(), false); struct Seg { L t, u, mark; }; std::vector<Seg> seg{{t, u, mark}}; bool edge = false;
	for (int guard = 0; guard < 200; guard++) { L nx = INFINITY; for (size_t i = 0; i < au.e.size(); i++) if (au.e[i].want != EventDirection::Decreasing && au.e[i].c > u + 1e-9L) nx = std::min(nx, (L)au.e[i].c); L te = t + (nx - u); if (te > tEnd + 1e-9L) { u += tEnd - t; t = tEnd; break; } if (te > tEnd - 1e-9L) { edge = true; break; }
		t = te; u = nx; L keep = u; bool restart = false, stop = false; for (size_t i = 0; i < au.e.size() && !stop; i++) if (au.e[i].want != EventDirection::Decreasing && fabsl(au.e[i].c - keep) < 1e-9L) { ev.push_back({(int)i, t, keep, seg.back().mark}); if (au.e[i].act == EventAction::Stop) stop = true; else if (au.e[i].act == EventAction::Restart) { restart = true; mark += 1 << (2 * i); if (au.e[i].reset == 1) u = 0; else if (au.e[i].reset == 2) u = au.e[i].c - 0.35L; } }
		if (restart) seg.push_back({t, u, mark}); if (stop) { stopped = true; break; } }
	if (edge || ev.size() > 60) ctx.prune();
	V x(2); x[0] = au.slope * u0; x[1] = 0; ODEEventDetectionIntegrator<S> in(au); au.calls = au.handled = 0; auto r = in.integrateWithEvents(au, x, t0, tEnd, iv, 1e-9, 1e-12); ctx.step();
	ctx.check(r.events.size() == ev.size(), "event-count", nm, ": ", r.events.size(), " events, expected ", ev.size(), r.events.empty() ? 0.0 : r.events.back().time); for (size_t i = 0; i < ev.size(); i++) { auto& q = r.events[i]; ctx.check(q.eventIndex == ev[i].i, "event-index", nm, ": event ", i, " is ", q.eventIndex, " expected ", ev[i].i); ctx.check(fabsl(q.time - ev[i].t) < 1e-9L, "event-time", nm, ": event ", i, " at ", q.time, " expected ", (double)ev[i].t); ctx.check(q.direction == EventDirection::Increasing && std::fabs(q.eventValue) < 1e-9 && q.state.size() == 2 && fabsl(au.slope * q.state[0] - ev[i].u) < 1e-9L && fabsl(q.state[1] - ev[i].mark) < 1e-9L, "event-state", nm, ": event ", i, " state ", q.state[0], ",", q.state[1], " expected ", (double)ev[i].u, ",", (double)ev[i].mark); }
	ctx.check(r.terminatedByEvent == stopped, "event-stop", nm); ctx.check(fabsl(r.finalTime - t) < 1e-9L, "event-final-time", nm, ": ", r.finalTime, " expected ", (double)t); ctx.check(r.finalState.size() == 2 && fabsl(au.slope * r.finalState[0] - u) < 1e-8L && fabsl(r.finalState[1] - mark) < 1e-9L, "event-final-state", nm, ": ", r.finalState[0], ",", r.finalState[1], " expected ", (double)u, ",", (double)mark);
	if (!stopped) { grid(ctx, nm, r.solution, t0, tEnd, iv); } for (int i = 0; i < r.solution.size(); i++) { L tt = r.solution.getTValue(i); ctx.check(tt <= t + 1e-9L, "event-output-time", nm, ": output at ", (double)tt); bool near = false; Seg g = seg[0]; for (auto& s : seg) { if (s.t <= tt) g = s; if (fabsl(s.t - tt) < 1e-9L && s.t > t0) near = true; } if (!near) ctx.check(fabsl(au.slope * r.solution.getXValue(i, 0) - (g.u + tt - g.t)) < 1e-8L && fabsl(r.solution.getXValue(i, 1) - g.mark) < 1e-9L, "event-output", nm, ": output at ", (double)tt, " is ", r.solution.getXValue(i, 0)); }
	if (stopped) { int want = (int)floorl((t - t0) / iv + 1e-7L) + 1; ctx.check(std::abs(r.solution.size() - want) <= (fabsl(remainderl(t - t0, iv)) < 1e-7L ? 1 : 0), "event-output-count", nm, ": ", r.solution.size(), " outputs, expected ", want); }
	ctx.check(in.getStatistics().totalFuncEvals <= au.calls, "event-evaluations", nm); ctx.outcome(mc::Hash().u(ev.size()).d((double)t)); ctx.state(mc::Hash().s(nm)); ctx.nontrivial(); }
static void chooseEv(mc::Ctx& ctx, Auto& a, int n, std::string& nm, bool full) { for (int i = 0; i < n; i++) { Ev e; e.c = full ? ctx.pick({0.25, 0.5, 0.93, 7.0}) : ctx.pick({0.25, 0.5, 0.93}); int d = ctx.choose(full ? 3 : 1); e.want = d == 0 ? EventDirection::Both : d == 1 ? EventDirection::Increasing : EventDirection::Decreasing; int k = ctx.choose(5); e.act = k == 0 ? EventAction::Continue : k == 1 ? EventAction::Stop : EventAction::Restart; e.reset = k >= 2 ? k - 2 : 0; a.e.push_back(e); nm += ctx.cat(" (c=", e.c, " dir ", d, " act ", k, ")"); } }
MC_SCENARIO(events2, 3) { Auto a; std::string nm; chooseEv(ctx, a, 2, nm, true); a.slope = ctx.flag() ? -1 : 1; Real u0 = ctx.pick({0.0, 0.25, -0.4}); nm = ctx.cat("slope ", a.slope, " from ", u0) + nm; automaton<DormandPrince5_Stepper>(ctx, a, u0, 0, 2.2, 0.3, nm); }
MC_SCENARIO(events3, 3) { Auto a; std::string nm; chooseEv(ctx, a, 3, nm, false); Real u0 = ctx.pick({0.0, -0.4}); nm = ctx.cat("from ", u0) + nm; automaton<DormandPrince5_Stepper>(ctx, a, u0, 1, 2.7, 0.25, nm); }
MC_SCENARIO(event_steppers, 2) { Auto a; int k = ctx.range(1, 3); std::string nm; chooseEv(ctx, a, 2, nm, false); Real iv = ctx.pick({0.07, 1.0}); nm = ctx.cat(SN[k], " every ", iv) + nm; if (k == 1) automaton<CashKarp_Stepper>(ctx, a, 0, 0, 1.7, iv, nm); else if (k == 2) automaton<DormandPrince8_Stepper>(ctx, a, 0, 0, 1.7, iv, nm); else automaton<BulirschStoer_Stepper>(ctx, a, 0, 0, 1.7, iv, nm); }
// bouncing ball and oscillator crossings
struct Ball : IODESystemWithEvents { Real rest; bool pin; EventDirection dir; int getDim() const override { return 2; } void derivs(const Real, const V& x, V& d) const override { d[0] = x[1]; d[1] = -2; } int getNumEvents() const override { return 1; } Real eventFunction(int, Real, const V& x) const override { return x[0]; } EventDirection getEventDirection(int) const override { return dir; } EventAction getEventAction(int) const override { return EventAction::Restart; } void handleEvent(int, Real, V& x) const override { x[1] = -rest * x[1]; if (pin) x[0] = 0; } };
struct Osc : IODESystemWithEvents { Real level; EventDirection dir; int getDim() const override { return 2; } void derivs(const Real, const V& x, V& d) const override { d[0] = x[1]; d[1] = -x[0]; } int getNumEvents() const override { return 2; } Real eventFunction(int i, Real, const V& x) const override { return x[i] - level; } EventDirection getEventDirection(int i) const override { return dir; } };
MC_SCENARIO(bounces, 2) {
	Ball b; b.rest = ctx.pick({1.0, 0.5}); b.pin = ctx.flag(); b.dir = ctx.flag() ? EventDirection::Both : EventDirection::Decreasing; Real y0 = ctx.pick({1.0, 0.0, 0.25}), v0 = ctx.pick({0.0, 1.0, -1.0}); if (y0 == 0 && v0 <= 0) ctx.prune(); int k = ctx.choose(3); V x(2); x[0] = y0; x[1] = v0; std::string nm = ctx.cat(SN[k], " ball ", y0, ",", v0, " restitution ", b.rest, " pin ", b.pin, " both ", b.dir == EventDirection::Both); std::vector<L> tm; L t = 0, v = v0, T = b.rest == 1 ? 9 : 0; { L dd = v0 + sqrtl((L)v0 * v0 + 4 * (L)y0); t = dd / 2; v = sqrtl((L)v0 * v0 + 4 * (L)y0); if (!T) T = t + v * (b.rest + b.rest * b.rest) * 1.0L + 0.3L * v * b.rest * b.rest * b.rest; for (int i = 0; i < 100 && t < T; i++) { tm.push_back(t); v *= b.rest; t += v; } } if (fabsl(tm.back() - T) < 1e-3L || fabsl(t - T) < 1e-3L) ctx.prune();
	auto go = [&](auto in) { auto r = in.integrateWithEvents(b, x, 0, (Real)T, 0.2, 1e-9, 1e-12); ctx.check(r.events.size() == tm.size(), "bounce-count", nm, ": ", r.events.size(), " expected ", tm.size()); for (size_t i = 0; i < tm.size(); i++) ctx.check(fabsl(r.events[i].time - tm[i]) < 1e-6L && r.events[i].direction == EventDirection::Decreasing, "bounce-time", nm, ": bounce ", i, " at ", r.events[i].time, " expected ", (double)tm[i]); for (int i = 0; i < r.solution.size(); i++) ctx.check(r.solution.getXValue(i, 0) > -1e-6, "bounce-floor", nm, ": below the floor at ", r.solution.getTValue(i)); ctx.outcome(mc::Hash().u(tm.size())); };
	if (k == 0) go(ODEEventDetectionIntegrator<DormandPrince5_Stepper>(b)); else if (k == 1) go(ODEEventDetectionIntegrator<CashKarp_Stepper>(b)); else go(ODEEventDetectionIntegrator<DormandPrince8_Stepper>(b)); ctx.state(mc::Hash().s(nm)); ctx.step(); ctx.nontrivial(); }
MC_SCENARIO(crossings, 2) {
	Osc o; o.level = ctx.pick({0.0, 0.5, -0.8, 1.5}); int d = ctx.choose(3); o.dir = d == 0 ? EventDirection::Both : d == 1 ? EventDirection::Increasing : EventDirection::Decreasing; Real ph = ctx.pick({0.0, 0.7, 1.2, -2.0}); V x(2); x[0] = std::cos(ph); x[1] = -std::sin(ph); int k = ctx.choose(2); std::string nm = ctx.cat(SN[k], " oscillator level ", o.level, " dir ", d, " phase ", ph); L T = 11; struct E { L t; int i; bool inc; }; std::vector<E> ex; // x0 = cos(t+ph), x1 = -sin(t+ph) = cos(t+ph+pi/2)
	if (fabsl(o.level) < 1) { L PI = acosl(-1), al = acosl(o.level); for (int i = 0; i < 2; i++) for (int n = -4; n < 5; n++) for (int sgn : {-1, 1}) { L t = sgn * al + 2 * PI * n - ph - (i ? PI / 2 : 0); if (t > 1e-9L && t < T) { bool inc = sgn < 0; if (d == 0 || (d == 1) == inc) ex.push_back({t, i, inc}); } } } std::sort(ex.begin(), ex.end(), [](const E& a, const E& b) { return a.t < b.t; });
	auto go = [&](auto in) { auto r = in.integrateWithEvents(o, x, 0, (Real)T, 0.5, 1e-9, 1e-12); ctx.check(r.events.size() == ex.size(), "crossing-count", nm, ": ", r.events.size(), " expected ", ex.size()); for (size_t i = 0; i < ex.size(); i++) ctx.check(r.events[i].eventIndex == ex[i].i && fabsl(r.events[i].time - ex[i].t) < 1e-4L && (r.events[i].direction == EventDirection::Increasing) == ex[i].inc, "crossing", nm, ": ", i, " is event ", r.events[i].eventIndex, " at ", r.events[i].time, " expected ", ex[i].i, " at ", (double)ex[i].t); ctx.check(!r.terminatedByEvent && std::fabs(r.finalTime - 11) < 1e-9, "crossing-end", nm); ctx.outcome(mc::Hash().u(ex.size())); };
	if (k == 0) go(ODEEventDetectionIntegrator<DormandPrince5_Stepper>(o)); else go(ODEEventDetectionIntegrator<CashKarp_Stepper>(o)); ctx.state(mc::Hash().s(nm)); ctx.step(); ctx.nontrivial(); }

// ---- solution container: every history of operations against a plain table
MC_SCENARIO(container, 2) {
	int dim = 2, cap = ctx.pick({1, 3}); ODESystemSolution s(0, 1, dim, cap); std::map<int, Real> T; std::map<std::pair<int, int>, Real> X; int count = 0, depth = ctx.thorough ? 4 : 3; std::string nm = ctx.cat("capacity ", cap); int ok = 0, bad = 0;
	for (int d = 0; d < depth; d++) { int op = ctx.choose(8); if (op < 3) { int i = op == 0 ? count : op == 1 ? 0 : ctx.pick({5, 23}); V y(2); y[0] = 10 * d + 1; y[1] = 10 * d + 2; s.fillValues(i, 0.5 + i, y); T[i] = 0.5 + i; X[{i, 0}] = y[0]; X[{i, 1}] = y[1]; count = std::max(count, i + 1); nm += ctx.cat(" fill ", i); }
		else if (op == 3) { int i = ctx.pick({2, 17}); s.setTVal(i, 3 + i); T[i] = 3 + i; count = std::max(count, i + 1); nm += ctx.cat(" setT ", i); } else if (op == 4) { int i = ctx.pick({1, 30}), c = ctx.choose(2); s.setXVal(i, c, 7 + i + c); X[{i, c}] = 7 + i + c; count = std::max(count, i + 1); nm += ctx.cat(" setX ", i); }
		else if (op == 5) { if (!count) continue; int k = (count - 1) / 2; s.setFinalSize(k); count = k + 1; for (auto it = T.begin(); it != T.end();) it = it->first >= count ? T.erase(it) : std::next(it); for (auto it = X.begin(); it != X.end();) it = it->first.first >= count ? X.erase(it) : std::next(it); nm += ctx.cat(" final ", k); } else if (op == 6) { s.reserve(9); ctx.check(s.capacity() >= 9, "reserve", nm); nm += " reserve"; } else { s.incrementSuccessfulSteps(); s.incrementRejectedSteps(); s.incrementRejectedSteps(); ok++; bad += 2; nm += " inc"; }
		ctx.step(); ctx.check(s.size() == count && s.isEmpty() == (count == 0) && s.getNumSteps() == std::max(0, count - 1) && s.capacity() >= count && s.getTotalSavedSteps() == s.capacity(), "size", nm, ": ", s.size(), " expected ", count); ctx.check(s.getNumStepsOK() == ok && s.getNumStepsBad() == bad && s.getTotalNumSteps() == ok + bad, "counters", nm);
		V tv = s.getTValues(); Matrix<Real> xv = s.getXValues(); ctx.check(tv.size() == count && (count == 0 || (xv.rows() == dim && xv.cols() == count)), "views", nm, ": ", tv.size(), " times"); for (int i = 0; i < count; i++) { if (T.count(i)) ctx.check(s.getTValue(i) == T[i] && tv[i] == T[i], "time", nm, " ", i); for (int c = 0; c < dim; c++) if (X.count({i, c})) ctx.check(s.getXValue(i, c) == X[{i, c}] && xv[c][i] == X[{i, c}] && s.getXValues(c)[i] == X[{i, c}], "value", nm, " ", i); } for (int c = 0; c < dim; c++) ctx.check(s.getXValues(c).size() == count, "component", nm); if (count) { V e = s.getXValuesAtEnd(); for (int c = 0; c < dim; c++) if (X.count({count - 1, c})) ctx.check(e[c] == X[{count - 1, c}], "end", nm); }
		for (int i : {-1, count, count + 1}) ctx.check(mc::throws([&] { s.getTValue(i); }) && mc::throws([&] { s.getXValue(i, 0); }), "index", nm); for (int c : {-1, 2}) ctx.check(mc::throws([&] { s.getXValues(c); }) && mc::throws([&] { s.getSolAsLinInterp(c); }) && mc::throws([&] { s.getSolAsPolyInterp(c, 1); }) && mc::throws([&] { s.getSolAsSplineInterp(c); }) && mc::throws([&] { s.getSolAsParamCurve2D(0, c); }) && mc::throws([&] { s.getSolAsParamCurve2D(c, 1); }) && mc::throws([&] { s.getSolAsParamCurve3D(0, 1, c); }) && mc::throws([&] { s.setXVal(0, c, 1); }), "component-range", nm, " ", c); V w(3); ctx.check(mc::throws([&] { s.fillValues(0, 1, w); }) && mc::throws([&] { s.fillValues(-1, 1, V(2)); }) && mc::throws([&] { s.setTVal(-1, 1); }) && mc::throws([&] { s.setXVal(-1, 0, 1); }), "refused", nm); if (!count) ctx.check(mc::throws([&] { s.getXValuesAtEnd(); }), "empty", nm); }
	ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().u(count)); ctx.nontrivial(); }
// interpolated views of a partly filled container go through exactly the stored points
MC_SCENARIO(interpolants, 2) {
	int cap = ctx.pick({5, 12}), n = ctx.range(4, 6), c = ctx.choose(3), pat = ctx.choose(3); ODESystemSolution s(-1, -1 + 0.5 * (n - 1), 3, cap); for (int i = 0; i < n; i++) { V y(3); y[0] = i * i - pat; y[1] = (i * 7 + pat) % 5; y[2] = -2 * i; s.fillValues(i, -1 + 0.5 * i, y); } std::string nm = ctx.cat("capacity ", cap, " points ", n, " component ", c); auto li = s.getSolAsLinInterp(c); auto po = s.getSolAsPolyInterp(c, 2); auto sp = s.getSolAsSplineInterp(c); for (int i = 0; i < n; i++) { Real t = s.getTValue(i), v = s.getXValue(i, c); ctx.check(mc::near(li(t), v, 1e-12) && mc::near(po(t), v, 1e-10) && mc::near(sp(t), v, 1e-12), "through-points", nm, " point ", i, ": ", li(t), " ", po(t), " ", sp(t), " expected ", v); if (i) { Real m = t - 0.25; ctx.check(mc::near(li(m), (v + s.getXValue(i - 1, c)) / 2, 1e-12), "between", nm, " before point ", i); } }
	auto c2 = s.getSolAsParamCurve2D(c, (c + 1) % 3); auto c3 = s.getSolAsParamCurve3D(c, (c + 1) % 3, (c + 2) % 3); for (int e = 0; e < 2; e++) { Real t = e ? s.getT2() : s.getT1(); int i = e ? n - 1 : 0; auto p = c2(t); auto q = c3(t); ctx.check(mc::near(p[0], s.getXValue(i, c), 1e-9) && mc::near(p[1], s.getXValue(i, (c + 1) % 3), 1e-9) && mc::near(q[0], s.getXValue(i, c), 1e-9) && mc::near(q[2], s.getXValue(i, (c + 2) % 3), 1e-9), "curve-ends", nm, " end ", e, ": ", p[0], ",", p[1]); } ctx.state(mc::Hash().s(nm).u(pat)); ctx.outcome(mc::Hash().d(li(0.1))); ctx.step(5); ctx.nontrivial(); }
