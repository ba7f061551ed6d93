// One-dimensional root finding: bracketing searches and the six refinement methods
#include "mc.h"
#include "mml/algorithms/RootFinding/RootFindingBracketing.h"
#include "mml/algorithms/RootFinding/RootFindingMethods.h"
using namespace MML; using namespace MML::RootFinding; typedef long double LD;
struct F : IRealFunction { int kind = 0; std::vector<double> r; double s = 1; double nanLo = -1e300, nanHi = 1e300; mutable std::vector<double> tr;
	double val(double x) const { double v = s; switch (kind) { case 0: for (double q : r) v *= x - q; return v; case 1: return s * std::atan(3 * (x - r[0])); case 2: return s * std::expm1(x - r[0]); case 3: return s * (x < r[0] ? -1 : 1); default: return s * std::expm1(4 * (x - r[0])) * (x - r[0]) * (x - r[0]); } }
	double der(double x) const { LD d = 0; switch (kind) { case 0: for (size_t i = 0; i < r.size(); i++) { LD t = s; for (size_t j = 0; j < r.size(); j++) if (j != i) t *= x - r[j]; d += t; } return d; case 1: return 3 * s / (1 + 9 * (x - r[0]) * (x - r[0])); case 2: return s * std::exp(x - r[0]); default: return 0; } }
	double operator()(double x) const override { tr.push_back(x); if (x < nanLo || x > nanHi) return NAN; return val(x); }
	double dist(double x) const { double d = INFINITY; for (double q : r) d = std::min(d, std::fabs(x - q)); return d; } };
typedef RootFindingResult (*Det)(const IRealFunction&, Real, Real, const RootFindingConfig&); typedef Real (*Sim)(const IRealFunction&, Real, Real, Real);
static Det det[] = {FindRootBisection, FindRootFalsePosition, FindRootRidders, FindRootBrent, FindRootNewton, FindRootSecant}; static Sim sim[] = {FindRootBisection, FindRootFalsePosition, FindRootRidders, FindRootBrent, FindRootNewton, FindRootSecant};
static const char* nm[] = {"Bisection", "FalsePosition", "Ridders", "Brent", "Newton", "Secant"};
static int sg(double x) { return (x > 0) - (x < 0); }
static RootFindingResult run(int m, const F& f, double a, double b, double tol, int mi) { RootFindingConfig c; c.tolerance = tol; c.max_iterations = mi; f.tr.clear(); return det[m](f, a, b, c); }
static F fun(mc::Ctx& ctx, bool scales) { F f; f.kind = ctx.choose(5); static const double g[] = {-2, -0.5, 0, 0.3, 1, 3}; if (f.kind == 0) { int n = ctx.range(1, 3), lo = 0; for (int i = 0; i < n; i++) { lo += ctx.choose(6 - lo); f.r.push_back(g[lo]); } } else f.r.push_back(g[ctx.choose(6)]); f.s = ctx.pick(scales ? std::vector<double>{1, -1, 1e-200, -1e-170, 1e150, 1e200} : std::vector<double>{1, -0.5, 40}); return f; }
static void honest(mc::Ctx& ctx, int m, const F& f, const RootFindingResult& r, int limit, const char* w) { // what the report says is what happened
	ctx.check(r.error_message.empty() == r.converged, "report", nm[m], " ", w, ": converged=", r.converged, " message '", r.error_message, "'"); ctx.check((r.status == AlgorithmStatus::Success) == r.converged, "report", nm[m], " ", w, ": converged=", r.converged, " but status ", ToString(r.status)); if (limit > 0) ctx.check(r.iterations_used <= limit, "report", nm[m], " used ", r.iterations_used, " of ", limit);
	if (r.iterations_used > 0) { double v = f.val(r.root); if (std::isfinite(r.function_value)) ctx.check(r.function_value == v, "report", nm[m], " ", w, ": function_value ", r.function_value, " but f(", r.root, ")=", v); } }
MC_SCENARIO(methods, 4) {
	int m = ctx.choose(6); F f = fun(ctx, m == 0 || m == 3 || m == 2); double a = ctx.pick({-4.0, -1.0, 0.1, 0.7}), b = a + ctx.pick({0.5, 1.9, 7.0}); if (ctx.flag()) std::swap(a, b); double tol = ctx.pick({1e-3, 1e-10}); double fa = f.val(a), fb = f.val(b); bool br = sg(fa) * sg(fb) < 0, zero = fa == 0 || fb == 0; if (!std::isfinite(fa) || !std::isfinite(fb)) ctx.prune();
	auto r = run(m, f, a, b, tol, m < 4 ? 200 : 100); honest(ctx, m, f, r, m < 4 ? 200 : 100, "run"); ctx.check(r.algorithm_name.empty() || r.algorithm_name.find(nm[m]) != std::string::npos, "report", "name ", r.algorithm_name); auto tr = f.tr; double lo = std::min(a, b), hi = std::max(a, b);
	if (!br && !zero) { ctx.check(!r.converged && r.status == AlgorithmStatus::InvalidInput, "not-bracketed", nm[m], " on an interval without sign change: converged=", r.converged, " status ", ToString(r.status)); ctx.check(mc::throws([&] { sim[m](f, a, b, tol); }), "not-bracketed", nm[m], " simple form accepted"); }
	if (br) {
		if (m == 0 || m == 2 || m == 3) ctx.check(r.converged, "converges", nm[m], " on [", a, ",", b, "] scale ", f.s, " kind ", f.kind, " root ", f.r[0], ": ", r.error_message);
		if (m < 4) for (double x : tr) ctx.check(x >= lo - 1e-15 * std::fabs(lo) && x <= hi + 1e-15 * std::fabs(hi), "leaves-bracket", nm[m], " evaluated at ", x, " outside [", lo, ",", hi, "]");
		if (r.converged) { ctx.check(f.dist(r.root) >= 0 && (m == 5 || (r.root >= lo - tol && r.root <= hi + tol)), "root", nm[m], " outside the bracket: ", r.root);
			double e = f.dist(r.root), lim = tol * 1.0000001 + 1e-14; bool byval = (m == 1 || m == 2) && std::fabs(f.val(r.root)) < tol; if (m == 4 || m == 5) lim = 12 * tol + 1e-9; if (m == 2) lim = 10 * tol + 1e-13; bool simple = (f.kind == 0 && f.r.size() == 1) || f.kind == 1 || f.kind == 2; bool stuck = m >= 4; if (m == 2 && !simple) byval = true; /* Ridders stops on the distance of its iterates: no bound at multiple roots */ if (!byval && m != 5) ctx.check(e <= lim || (stuck && std::fabs(f.val(r.root)) < 1e-12 * std::fabs(f.s)), "root", nm[m], " on [", a, ",", b, "] kind ", f.kind, " scale ", f.s, ": root ", r.root, " is ", e, " away from a root, tolerance ", tol); if (m == 0) ctx.check(r.achieved_tolerance < tol || r.function_value == 0, "report", "achieved tolerance ", r.achieved_tolerance); }
		if (m == 3 && r.converged && (f.kind == 2 || (f.kind == 0 && f.r.size() == 1)) && std::fabs(f.s) == 1 && tol < 1e-9) ctx.check(r.iterations_used <= 16, "speed", "Brent took ", r.iterations_used, " iterations on a smooth function with a simple root");
		std::string w; double sv = NAN; bool th = mc::throws([&] { sv = sim[m](f, a, b, tol); }); int dflt = m < 3 ? 50 : m == 3 ? 100 : 20; auto rd = run(m, f, a, b, tol, 0), rx = run(m, f, a, b, tol, dflt); ctx.check(th == !rd.converged && (th || sv == rd.root), "simple-form", nm[m], " simple ", th ? "threw" : "returned", " but detailed converged=", rd.converged); ctx.check(rd.converged == rx.converged && rd.root == rx.root, "default-limit", nm[m]);
		int k = r.iterations_used; if (r.converged && k > 1 && k < 60) { auto q = run(m, f, a, b, tol, k), p = run(m, f, a, b, tol, k - 1); ctx.check(q.converged && q.root == r.root, "limit", nm[m], " needs ", k, " iterations but fails with that limit"); ctx.check(!p.converged && p.status == AlgorithmStatus::MaxIterationsExceeded && p.iterations_used == k - 1, "limit", nm[m], " with limit ", k - 1, ": converged=", p.converged, " used ", p.iterations_used, " status ", ToString(p.status)); honest(ctx, m, f, p, k - 1, "limited"); }
		ctx.nontrivial(); }
	ctx.state(mc::Hash().u(m).u(f.kind).d(f.s).d(f.r[0]).d(f.r.back()).u(f.r.size()).d(a).d(b).d(tol)); ctx.outcome(mc::Hash().u(m).u(r.converged).u(r.iterations_used)); }
MC_SCENARIO(iterates, 4) { // the k-th iterate is the one the method defines
	int m = ctx.pick({0, 1, 2, 4, 5}); F f = fun(ctx, false); if (m >= 4 && f.kind > 2) ctx.prune(); double a = ctx.pick({-4.0, -1.0, 0.1, 0.7}), b = a + ctx.pick({0.5, 1.9, 7.0}); if (ctx.flag()) std::swap(a, b); double fa = f.val(a), fb = f.val(b); if (sg(fa) * sg(fb) >= 0) ctx.prune();
	int k = ctx.range(1, 5); auto r = run(m, f, a, b, 1e-300, k); double x1 = a, x2 = b, f1 = fa, f2 = fb, x = 0; bool hit = false;
	if (m == 0) { double lo = fa < 0 ? a : b, hi = fa < 0 ? b : a; for (int i = 0; i < k && !hit; i++) { double c = lo + 0.5 * (hi - lo), v = f.val(c); if (v <= 0) lo = c; else hi = c; hit = v == 0; } ctx.check(std::fabs(r.root - lo) <= std::fabs(hi - lo) + 1e-15, "iterate", "bisection after ", k, ": ", r.root, " bracket ", lo, "..", hi); ctx.check(hit || std::fabs(r.achieved_tolerance - std::fabs(hi - lo)) <= 1e-12 * std::fabs(hi - lo) + 1e-16, "iterate", "bracket width reported ", r.achieved_tolerance); }
	else if (m == 1) { for (int i = 0; i < k && !hit; i++) { x = x1 - f1 * (x2 - x1) / (f2 - f1); double v = f.val(x); if (sg(v) == sg(f1)) { x1 = x; f1 = v; } else { x2 = x; f2 = v; } hit = v == 0; } if (!hit) ctx.check(mc::near(r.root, x, 1e-9), "iterate", "false position after ", k, ": ", r.root, " expected ", x); }
	else if (m == 2) { for (int i = 0; i < k && !hit; i++) { double c = 0.5 * (x1 + x2), v = f.val(c), s = std::sqrt(v * v - f1 * f2); x = c + (c - x1) * sg(f1 - f2) * v / s; double w = f.val(x); hit = std::fabs(w) < 1e-9 || v == 0; if (sg(v) * sg(w) < 0) { x1 = c; f1 = v; x2 = x; f2 = w; } else if (sg(f1) * sg(w) < 0) { x2 = x; f2 = w; } else { x1 = x; f1 = w; } } if (!hit) ctx.check(mc::near(r.root, x, 1e-8), "iterate", "Ridders after ", k, ": ", r.root, " expected ", x); }
	else if (m == 4) { x = 0.5 * (a + b); bool out = false; for (int i = 0; i < k && !hit && !out; i++) { double d = f.der(x), v = f.val(x); if (std::fabs(d) < 1e-6 || std::fabs(v) < 1e-7) { hit = true; break; } x -= v / d; out = (a - x) * (x - b) < 0; } if (!hit) { ctx.check(mc::near(r.root, x, 1e-6), "iterate", "Newton after ", k, ": ", r.root, " expected ", x); ctx.check(!out || (!r.converged && r.status != AlgorithmStatus::Success), "iterate", "left the bracket"); } }
	else { if (std::fabs(f1) < std::fabs(f2)) { std::swap(x1, x2); std::swap(f1, f2); } for (int i = 0; i < k && !hit; i++) { if (f1 == f2 || std::fabs(f2) < 1e-9) { hit = true; break; } x = x2 - f2 * (x2 - x1) / (f2 - f1); x1 = x2; f1 = f2; x2 = x; f2 = f.val(x); if (!std::isfinite(f2) || std::fabs(x) > 1e6) hit = true; } if (!hit) ctx.check(mc::near(r.root, x, 1e-7), "iterate", "secant after ", k, ": ", r.root, " expected ", x); }
	ctx.state(mc::Hash().u(m).u(f.kind).d(f.s).d(f.r[0]).d(f.r.back()).u(f.r.size()).d(a).d(b).u(k)); ctx.outcome(mc::Hash().u(m).d(r.root)); ctx.nontrivial(); }
MC_SCENARIO(non_finite, 3) { // functions with a limited domain: never a made-up root
	int m = ctx.choose(6); F f; f.kind = ctx.choose(3); f.r = {ctx.pick({-0.5, 0.3, 1.0})}; f.nanLo = ctx.pick({-1e300, -2.0, -0.2, 0.5}); f.nanHi = ctx.pick({1e300, 2.0, 0.8, 0.1}); double a = ctx.pick({-3.0, -1.0, 0.0}), b = ctx.pick({0.4, 1.5, 3.0}); double tol = 1e-9; auto r = run(m, f, a, b, tol, 100); auto tr = f.tr; if (r.converged) ctx.check(std::isfinite(r.root) && std::isfinite(r.function_value) && (m == 5 || f.dist(r.root) <= 1e-6 || std::fabs(f.val(r.root)) < 1e-8), "made-up-root", nm[m], " root ", r.root, " of kind ", f.kind, " at ", f.r[0], " valid on ", f.nanLo, "..", f.nanHi); else { ctx.check(r.status != AlgorithmStatus::Success && !r.error_message.empty(), "report", nm[m], " status ", ToString(r.status)); }
	bool ends = a >= f.nanLo && a <= f.nanHi && b >= f.nanLo && b <= f.nanHi; if (!ends && m != 4) ctx.check(!r.converged, "made-up-root", nm[m], " with undefined end"); ctx.check(mc::throws([&] { run(m, f, a, b, tol, 0); }) == false, "report", "detailed form threw"); ctx.state(mc::Hash().u(m).u(f.kind).d(f.r[0]).d(f.nanLo).d(f.nanHi).d(a).d(b)); ctx.outcome(mc::Hash().u(m).u(r.converged)); ctx.nontrivial(); }
MC_SCENARIO(brackets, 3) { // systematic subdivision: exactly the sign changes, in order, arrays of the reported length
	F f; double a = ctx.pick({-3.0, 0.05, -1.0}), w = ctx.pick({1.0, 6.0, 30.0}); int n = ctx.pick({1, 2, 3, 7, 19, 20, 21, 40, 41, 80, 100, 200}); int what = ctx.choose(4); struct G : IRealFunction { int what; double w; const F* f; double operator()(double x) const override { switch (what) { case 0: return std::sin(w * x + 0.3); case 1: return x - 0.777; case 2: return (x - 0.777) * (x - 1.111) * (x + 0.333) * 1e-200; default: return std::fmod(std::floor(x * 50 / w), 2) == 0 ? 1 : -1; } } } g; g.what = what; g.w = what == 0 ? 11 : w;
	Vector<Real> x1(3), x2; int k = FindRootBrackets(g, a, a + w, n, x1, x2); ctx.check(k >= 0 && x1.size() == k && x2.size() == k, "length", k, " brackets but arrays of ", x1.size(), " and ", x2.size()); std::vector<int> e; double dx = w / n, x = a; std::vector<double> gx = {a}; for (int i = 0; i < n; i++) gx.push_back(x += dx); int cnt = 0; for (int i = 0; i < n; i++) if (sg(g(gx[i])) * sg(g(gx[i + 1])) < 0) { bool found = false; for (int j = 0; j < k; j++) found = found || (std::fabs(x1[j] - gx[i]) < 1e-9 * dx + 1e-13 && std::fabs(x2[j] - gx[i + 1]) < 1e-9 * dx + 1e-13); bool edge = sg(g(gx[i] - 1e-12)) != sg(g(gx[i] + 1e-12)) || sg(g(gx[i + 1] - 1e-12)) != sg(g(gx[i + 1] + 1e-12)); if (!edge) ctx.check(found, "missed", "sign change in [", gx[i], ",", gx[i + 1], "] not reported"); cnt++; }
	for (int j = 0; j < k; j++) { ctx.check(x1[j] < x2[j] && sg(g(x1[j])) * sg(g(x2[j])) <= (what == 3 ? 1 : 0) && (j == 0 || x1[j] >= x1[j - 1]), "bad-bracket", "[", x1[j], ",", x2[j], "]"); } ctx.check(k >= cnt - 2 && k <= cnt + 2, "count", k, " reported, ", cnt, " present"); ctx.state(mc::Hash().d(a).d(w).u(n).u(what)); ctx.outcome(mc::Hash().u(k)); ctx.nontrivial(); }
MC_SCENARIO(expand, 3) { // geometric search
	F f = fun(ctx, true); double a = ctx.pick({-6.0, -1.0, 0.1, 0.7, 5.0}), b = a + ctx.pick({0.01, 0.5, -0.5, 2.0, 0.0}); int t = ctx.pick({0, 1, 3, 50}); if (a == b) { ctx.check(mc::throws([&] { BracketRoot(f, a, b, t); }), "range", "empty range accepted"); ctx.nontrivial(); return; } double x1 = a, x2 = b; bool ok = BracketRoot(f, x1, x2, t); bool now = sg(f.val(a)) * sg(f.val(b)) < 0; if (ok) ctx.check(sg(f.val(x1)) * sg(f.val(x2)) < 0, "bracket", "reported [", x1, ",", x2, "] has no sign change"); if (now && t > 0) ctx.check(ok && x1 == a && x2 == b, "bracket", "existing bracket [", a, ",", b, "] scale ", f.s, " not recognised"); ctx.check(std::min(x1, x2) <= std::min(a, b) && std::max(x1, x2) >= std::max(a, b), "bracket", "interval shrank"); if (f.kind == 0 && f.r.size() == 1 && t == 50 && f.val(a) != 0 && f.val(b) != 0) ctx.check(ok, "bracket", "single root ", f.r[0], " not bracketed from [", a, ",", b, "] scale ", f.s); ctx.state(mc::Hash().u(f.kind).d(f.s).d(f.r[0]).d(f.r.back()).u(f.r.size()).d(a).d(b).u(t)); ctx.outcome(mc::Hash().u(ok).d(x1)); ctx.nontrivial(); }
