// C52: function algebra, Taylor polynomials, extrapolation, guards of singular and invalid values.
// mc-flags: -O1
#include "MMLBase.h"
#include "base/Function.h"
#include "core/FunctionHelpers.h"
#include "core/RichardsonExtrapolation.h"
#include "core/SingularityHandling.h"
#include "core/NumericValidation.h"
#include "core/AlgorithmTypes.h"
#include "../mc/mc.h"
#include <memory>
#include <thread>
using namespace MML;
typedef long double LD;
static const Real NaN = std::numeric_limits<Real>::quiet_NaN(), INF = std::numeric_limits<Real>::infinity();
struct Fn : IRealFunction { std::function<Real(Real)> f; Fn(std::function<Real(Real)> g) : f(std::move(g)) {} Real operator()(Real x) const override { return f(x); } };
static bool same(Real a, Real b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool close(LD a, LD b, LD tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }

// ---------------- algebra of functions: all expressions up to three operators deep
struct Tree { std::vector<std::unique_ptr<IRealFunction>> keep; };
typedef std::pair<const IRealFunction*, std::function<Real(Real)>> Ex;
static Ex build(mc::Ctx& ctx, Tree& t, int depth, std::string& id) {
  int k = depth == 0 ? ctx.choose(3) : ctx.choose(12);
  auto add = [&](IRealFunction* f, std::function<Real(Real)> g) { t.keep.emplace_back(f); return Ex(f, std::move(g)); };
  if (depth == 0) { id += mc::Ctx::cat("f", k); switch (k) { case 0: return add(new Fn([](Real x) { return 2 * x - 1; }), [](Real x) { return 2 * x - 1; }); case 1: return add(new Fn([](Real x) { return x * x + 0.5; }), [](Real x) { return x * x + 0.5; }); default: return add(new Fn([](Real x) { return std::sin(x); }), [](Real x) { return std::sin(x); }); } }
  static const char* NAMES[] = {"sum", "diff", "product", "quotient", "compose", "absdiff", "diffsqr", "scale", "shift", "negate", "abs", "pow"}; id += NAMES[k]; id += "("; Ex a = build(ctx, t, depth - 1, id); auto u = a.second; const IRealFunction& A = *a.first;
  if (k < 7) { id += ","; Ex b = build(ctx, t, 0, id); id += ")"; auto v = b.second; const IRealFunction& B = *b.first; switch (k) {
    case 0: return add(new RealFuncSum(A, B), [u, v](Real x) { return u(x) + v(x); }); case 1: return add(new RealFuncDiff(A, B), [u, v](Real x) { return u(x) - v(x); });
    case 2: return add(new RealFuncProduct(A, B), [u, v](Real x) { return u(x) * v(x); }); case 3: return add(new RealFuncQuotient(A, B), [u, v](Real x) { return u(x) / v(x); });
    case 4: return add(new RealFuncCompose(A, B), [u, v](Real x) { return u(v(x)); }); case 5: return add(new RealFuncAbsDiff(A, B), [u, v](Real x) { return std::abs(u(x) - v(x)); });
    default: return add(new RealFuncDiffSqr(A, B), [u, v](Real x) { Real d = u(x) - v(x); return d * d; }); } }
  id += ")"; switch (k) { case 7: return add(new RealFuncScale(A, -2.5), [u](Real x) { return -2.5 * u(x); }); case 8: return add(new RealFuncShift(A, 0.75), [u](Real x) { return u(x) + 0.75; }); case 9: return add(new RealFuncNegate(A), [u](Real x) { return -u(x); });
    case 10: return add(new RealFuncAbs(A), [u](Real x) { return std::abs(u(x)); }); default: { Real p = ctx.pick({2.0, 3.0, 0.5}); id += mc::Ctx::cat("^", p); return add(new RealFuncPow(A, p), [u, p](Real x) { return std::pow(u(x), p); }); } } }
MC_SCENARIO(function_algebra, 1) {
  Tree t; std::string id; int depth = 1 + ctx.choose(ctx.thorough ? 3 : 2); Ex e = build(ctx, t, depth, id); ctx.step(); ctx.nontrivial(); mc::Hash h; h.s(id);
  for (Real x : {-2.0, -0.3, 0.0, 0.5, 1.7}) { Real got = (*e.first)(x), want = e.second(x); h.d(got); ctx.check(same(got, want) || close(got, want, 1e-14L), "function-value", id, " at ", x, " is ", got, " expected ", want); } ctx.state(h);
}
// ---------------- Taylor polynomials and derived functions of all small polynomials
struct Poly { std::vector<LD> c; LD at(LD x, int der = 0) const { LD s = 0; for (int i = (int)c.size() - 1; i >= der; i--) { LD f = c[i]; for (int k = 0; k < der; k++) f *= i - k; s = s * x + f; } return s; } };
static Poly choosePoly(mc::Ctx& ctx, int deg, std::string& id) { Poly p; for (int i = 0; i <= deg; i++) { LD v = ctx.choose(3) - 1; if (i == 1) v *= 2.5L; if (i == 2) v *= 0.75L; p.c.push_back(v); id += mc::Ctx::cat((double)v, " "); } return p; }
MC_SCENARIO(taylor, 1) {   // second and third order
  std::string id; Poly p = choosePoly(ctx, 4, id); Real a = ctx.pick({0.0, 1.0, -1.5, 3.0}); ctx.step(); ctx.nontrivial(); Fn f([&](Real x) { return (Real)p.at(x); }); auto t2 = TaylorSeries2(f, a); auto t3 = TaylorSeries3(f, a); id += mc::Ctx::cat("around ", a);
  LD e2 = 1e-5L, e3 = 2e-2L; ctx.check(t2.degree() == 2 && t3.degree() == 3, "taylor-degree", id);
  LD scale = 1 + std::abs(p.at(a, 4)); for (LD d : {0.0L, 0.125L, -1.0L, 2.0L}) { LD x = a + d, w2 = p.at(a) + p.at(a, 1) * d + p.at(a, 2) / 2 * d * d, w3 = w2 + p.at(a, 3) / 6 * d * d * d; LD tol2 = (d == 0 ? 1e-8L : e2) * scale * 30, tol3 = (d == 0 ? 1e-6L : e3) * scale;
    ctx.check(std::abs(t2((Real)x) - w2) <= tol2, "taylor2", id, " at ", (double)x, " is ", t2((Real)x), " expected ", (double)w2); ctx.check(std::abs(t3((Real)x) - w3) <= tol3, "taylor3", id, " at ", (double)x, " is ", t3((Real)x), " expected ", (double)w3); }
  mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(derived, 1) {
  std::string id; Poly p = choosePoly(ctx, 4, id); Real x = ctx.pick({0.0, 0.7, -2.0}); ctx.step(); ctx.nontrivial(); Fn f([&](Real t) { return (Real)p.at(t); }); id += mc::Ctx::cat("at ", x); LD d1 = p.at(x, 1), d2 = p.at(x, 2), d3 = p.at(x, 3), d4 = p.at(x, 4);
  LD s = 1 + std::abs(p.at(x)) + std::abs(d1) + std::abs(d2) + std::abs(d3) + std::abs(d4);
  struct C { const char* n; Real v; LD w, tol; } def[] = {{"1", RealFuncDerived1(f)(x), d1, 3e-7L}, {"2", RealFuncDerived2(f)(x), d1, 1e-8L}, {"4", RealFuncDerived4(f)(x), d1, 1e-10L}, {"6", RealFuncDerived6(f)(x), d1, 1e-10L}, {"8", RealFuncDerived8(f)(x), d1, 1e-10L}, {"second 2", RealFuncSecondDerived2(f)(x), d2, 2e-4L}, {"second 4", RealFuncSecondDerived4(f)(x), d2, 1e-5L}, {"second 6", RealFuncSecondDerived6(f)(x), d2, 1e-5L}};
  for (auto& c : def) ctx.check(std::abs(c.v - c.w) <= c.tol * s, "derived", c.n, " of ", id, " is ", c.v, " expected ", (double)c.w);
  for (Real h : {0.5, 0.125}) {   // with a given step the error is that of the difference formula with this step
    LD forward = (p.at(x + h) - p.at(x)) / h, central = (p.at(x + h) - p.at(x - h)) / (2 * h), sec = (p.at(x + h) - 2 * p.at(x) + p.at(x - h)) / (h * h);
    C given[] = {{"1", RealFuncDerived1(f, h)(x), forward, 1e-12L}, {"2", RealFuncDerived2(f, h)(x), central, 1e-12L}, {"4", RealFuncDerived4(f, h)(x), d1, 1e-12L}, {"6", RealFuncDerived6(f, h)(x), d1, 1e-12L}, {"8", RealFuncDerived8(f, h)(x), d1, 1e-12L}, {"second 2", RealFuncSecondDerived2(f, h)(x), sec, 1e-11L}, {"second 4", RealFuncSecondDerived4(f, h)(x), d2, 1e-11L}, {"second 6", RealFuncSecondDerived6(f, h)(x), d2, 1e-11L}};
    for (auto& c : given) ctx.check(std::abs(c.v - c.w) <= c.tol * s, "derived-step", c.n, " of ", id, " step ", h, " is ", c.v, " expected ", (double)c.w); }
  mc::Hash h; h.s(id); ctx.state(h);
}
// ---------------- extrapolation
MC_SCENARIO(neville, 1) {   // polynomials through points in every order, extrapolated to zero
  int n = 2 + ctx.choose(4); static const LD XS[] = {1, 0.25L, 0.0625L, -0.5L, 0.04L, 2}; std::vector<int> left{0, 1, 2, 3, 4, 5}; std::vector<Real> xs, ys; LD scale = ctx.pick({1.0, 1e-8, 1e6}); std::string id; std::vector<LD> c; for (int i = 0; i < n; i++) { int k = ctx.choose((int)std::min<size_t>(left.size(), 4)); xs.push_back((Real)(XS[left[k]] * scale)); left.erase(left.begin() + k); c.push_back(i < 2 ? ctx.choose(2) * 2 - 1.0L : i % 2 ? 0.5L : -2); id += mc::Ctx::cat(xs.back(), " "); }
  ctx.step(); ctx.nontrivial(); for (Real x : xs) { LD v = 0, u = x / scale; for (int i = n - 1; i >= 0; i--) v = v * u + c[i]; ys.push_back((Real)v); } auto r = Richardson::NevilleExtrapolate(ys, xs);
  ctx.check(r.converged && close(r.value, c[0], 1e-10L) && r.error_estimate >= 0 && r.iterations == n, "neville", id, " is ", r.value, " expected ", (double)c[0]);
  // the error estimate is the last correction: without the farthest column, the value is off by it
  auto dup = xs; dup[n - 1] = dup[0]; ctx.check(!Richardson::NevilleExtrapolate(ys, dup).converged, "neville-same-points", id); dup.pop_back(); auto bad = Richardson::NevilleExtrapolate(ys, dup); ctx.check(!bad.converged && bad.value == ys[0], "neville-sizes", id);
  mc::Hash h; h.s(id); for (Real y : ys) h.d(y); ctx.state(h);
}
MC_SCENARIO(extrapolate, 1) {   // even error expansions
  LD v = ctx.pick({0.0, 1.0, -3.25, 1000.0}), c1 = ctx.pick({0.0, 1.0, -20.0}), c2 = ctx.pick({0.0, 0.5, -4.0}), c3 = ctx.pick({0.0, 2.0}); Real h0 = ctx.pick({0.1, 1.0, -0.5}), con = ctx.pick({1.4, 2.0}); int it = ctx.pick({2, 3, 4, 6, 10}); ctx.step(); ctx.nontrivial(); int calls = 0; std::vector<Real> hs;
  auto r = Richardson::Extrapolate([&](Real h) { calls++; hs.push_back(h); LD q = (LD)h * h; return (Real)(v + c1 * q + c2 * q * q + c3 * q * q * q); }, h0, con, it); std::string id = mc::Ctx::cat((double)v, " + ", (double)c1, " h^2 + ", (double)c2, " h^4 + ", (double)c3, " h^6 from ", h0, " by ", con, " up to ", it, " times");
  int terms = c3 ? 3 : c2 ? 2 : c1 ? 1 : 0; LD err = std::abs(r.value - v), size = std::abs(v) + std::abs(c1) + std::abs(c2) + std::abs(c3); if (it > terms && !c3 && std::abs(c1) >= 4.5L * std::abs(c2) * h0 * h0) ctx.check(err <= 1e-11L * (1 + size), "extrapolated", id, " is ", r.value, " off by ", (double)err); if (!c3) ctx.check(err <= r.error_estimate * 1.5L + 1e-12L * (1 + size), "extrapolation-error", id, " off by ", (double)err, " estimate ", r.error_estimate); ctx.check(r.converged && r.iterations == calls && calls <= it, "extrapolation-steps", id, " ", r.iterations, " calls ", calls);
  bool steps = true; LD h = h0; for (Real x : hs) { steps &= close(x, h, 1e-13L); h /= con; } ctx.check(steps, "extrapolation-at", id); mc::Hash hh; hh.s(id); ctx.state(hh);
}
MC_SCENARIO(extrapolate_derivative, 1) {   // derivatives of real functions, with rounding errors
  int k = ctx.choose(5); LD x = ctx.pick({0.3, 1.0, 2.4}), h0 = ctx.pick({0.05, 0.2, 0.25}), con = ctx.pick({1.4, 2.0}); if (k == 3 && x == 1) { ctx.prune(); return; } /* leading error term vanishes: growth of the error ends the search early */ ctx.step(); ctx.nontrivial(); std::function<LD(LD)> f[] = {[](LD t) { return std::sin(t); }, [](LD t) { return std::exp(t); }, [](LD t) { return std::log(t + 1); }, [](LD t) { return 1 / (1 + t * t); }, [](LD t) { return t * t * t; }}, d[] = {[](LD t) { return std::cos(t); }, [](LD t) { return std::exp(t); }, [](LD t) { return 1 / (t + 1); }, [](LD t) { return -2 * t / (1 + t * t) / (1 + t * t); }, [](LD t) { return 3 * t * t; }};
  auto r = Richardson::Extrapolate([&](Real h) { return ((Real)f[k](x + h) - (Real)f[k](x - h)) / (2 * h); }, (Real)h0, (Real)con); LD err = std::abs(r.value - d[k](x)); ctx.check(r.converged && err < 1e-9L * (1 + std::abs(d[k](x))), "derivative", "function ", k, " at ", (double)x, " from ", (double)h0, " off by ", (double)err); ctx.check(err <= 20 * r.error_estimate + 1e-12L, "derivative-error", "function ", k, " at ", (double)x, " off by ", (double)err, " estimate ", r.error_estimate); mc::Hash h; h.d(r.value); ctx.state(h);
}
MC_SCENARIO(simple_extrapolation, 1) {
  LD v = ctx.pick({0.0, 1.0, -7.5}), c = ctx.pick({0.0, 1.0, -3.0}), r = ctx.pick({2.0, 3.0, 1.5, 10.0}), h = ctx.pick({1.0, 0.1}); int p = 1 + ctx.choose(6); ctx.step(); ctx.nontrivial(); Real a = (Real)(v + c * std::pow(h, (LD)p)), b = (Real)(v + c * std::pow(h / r, (LD)p)); Real s = Richardson::SimpleExtrapolate(a, b, (Real)r, p), e = Richardson::SimpleErrorEstimate(a, b, (Real)r, p);
  std::string id = mc::Ctx::cat((double)v, " + ", (double)c, " h^", p, " ratio ", (double)r); ctx.check(close(s, v, 1e-12L), "simple", id, " is ", s); ctx.check(std::abs(e - std::abs((LD)b - v)) < 1e-12L * (1 + std::abs(v)), "simple-error", id, " is ", e, " expected ", (double)std::abs((LD)b - v)); mc::Hash hh; hh.s(id); ctx.state(hh);
}
MC_SCENARIO(extrapolation_refused, 1) {
  int k = ctx.choose(4); ctx.step(); ctx.nontrivial(); if (k == 0) ctx.check(!Richardson::Extrapolate([](Real h) { return h; }, 0.0).converged, "no-step", ""); if (k == 1) ctx.check(!Richardson::Extrapolate([](Real) { return NaN; }, 0.1).converged, "undefined", ""); if (k == 2) ctx.check(!Richardson::NevilleExtrapolate({}, {}).converged, "nothing", ""); if (k == 3) { auto r = Richardson::NevilleExtrapolate({2.5}, {1}); ctx.check(!r.converged && r.value == 2.5, "single", ""); } mc::Hash h; h.u(k); ctx.state(h);
}
// ---------------- guards
static const SingularityPolicy POL[] = {SingularityPolicy::Throw, SingularityPolicy::ReturnNaN, SingularityPolicy::ReturnInf, SingularityPolicy::Clamp, SingularityPolicy::ReturnZero};
static const char* PN[] = {"Throw", "ReturnNaN", "ReturnInf", "Clamp", "ReturnZero"};
MC_SCENARIO(safe_division, 1) {
  int pi = ctx.choose(5); Real num = ctx.pick({1.0, -2.5, 0.0, 1e300, -1e-300}), den = ctx.pick({0.0, 1e-13, -1e-13, 1e-11, -1e-11, 2.0, -3.0, 0.005, -0.005, 1e200}), tol = ctx.pick({1e-12, 0.01, 1e-20}); int kind = ctx.choose(2); ctx.step(); ctx.nontrivial(); std::string id = mc::Ctx::cat(num, "/", den, " tolerance ", tol, " ", PN[pi]), msg; ctx.check(std::string(SingularityPolicyToString(POL[pi])) == PN[pi], "policy-name", PN[pi]);
  bool singular = std::abs(den) < tol; ctx.check(Singularity::IsNearZero(den, tol) == singular, "near-zero", id); Real got = 0; bool threw = mc::throws([&] { got = kind ? Singularity::SafeDivide(num, den, POL[pi], "here", tol) : tol == 1e-12 ? Singularity::SafeDivide(num, den, POL[pi]) : Singularity::SafeDivide(num, den, POL[pi], nullptr, tol); }, &msg);
  ctx.check(threw == (singular && pi == 0), "refusal", id); if (threw) ctx.check(!kind || msg.find("here") != std::string::npos, "refusal-context", id, " ", msg); else { Real c = den >= 0 ? tol : -tol, want = !singular ? num / den : pi == 1 ? NaN : pi == 2 ? (num >= 0 ? INF : -INF) : pi == 3 ? num / c : 0; if (singular && pi == 2 && (num == 0 || den < 0)) { ctx.check(std::isinf(got), "quotient", id, " is ", got); } else ctx.check(same(got, want), "quotient", id, " is ", got, " expected ", want); } mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(safe_inverses, 1) {
  int pi = ctx.choose(5); LD r = ctx.pick({0.0, 1e-16, 0.3, 2.0, 1e5}); LD th = ctx.pick({0.0, 3.14159265358979323846, 1.0, 2.5, 1e-16, 1.5707963267948966}); ctx.step(); ctx.nontrivial(); Real R = (Real)r, T = (Real)th; LD s = std::sin(th), c = std::cos(th); bool origin = r < 1e-12L, pole = std::abs(s) < 1e-12L; std::string id = mc::Ctx::cat("r ", R, " theta ", T, " ", PN[pi]);
  ctx.check(Singularity::IsAtSphericalOrigin(R) == origin && Singularity::IsAtCylindricalAxis(R) == origin && Singularity::IsAtSphericalPole(T) == pole && Singularity::IsAtSphericalSingularity(R, T) == (origin || pole), "where", id); std::string d = Singularity::DescribeSphericalSingularity(R, T); ctx.check(d.rfind(origin ? "origin" : pole ? "pole" : "none", 0) == 0, "description", id, " ", d);
  auto one = [&](const char* n, std::function<Real()> f, LD num, LD den, bool singular) { if (std::abs(den) < 1e-12L && !singular) return; Real got = 0; std::string msg; bool threw = mc::throws([&] { got = f(); }, &msg); ctx.check(threw == (singular && pi == 0), "inverse-refusal", n, " ", id); if (threw) return; if (!singular) ctx.check(std::abs(got - num / den) <= 1e-13L * (std::abs(num / den) + 1 / std::abs(den)), "inverse", n, " ", id, " is ", got, " expected ", (double)(num / den)); else ctx.check(pi == 1 ? std::isnan(got) : pi == 2 ? std::isinf(got) && std::signbit(got) == (num < 0) : pi == 3 ? std::isfinite(got) && std::abs(got) >= 0.99e12L * std::abs(num) : got == 0, "inverse-singular", n, " ", id, " is ", got); };
  one("1/r", [&] { return Singularity::SafeInverseR(R, POL[pi]); }, 1, r, origin); one("1/r^2", [&] { return Singularity::SafeInverseR2(R, POL[pi]); }, 1, r * r, origin); one("1/(r sin)", [&] { return Singularity::SafeInverseRSinTheta(R, T, POL[pi]); }, 1, r * s, origin || (pole && r < 10)); one("1/(r sin)^2", [&] { return Singularity::SafeInverseR2Sin2Theta(R, T, POL[pi]); }, 1, r * r * s * s, origin || pole); one("cot/r^2", [&] { return Singularity::SafeCotThetaOverR2(R, T, POL[pi]); }, c, r * r * s, origin || (pole && r < 10)); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(validation, 1) {
  Real x = ctx.pick({0.0, -0.0, 1.0, -1.0, 1e-320, -1e-320, 1.7e308, -1.7e308, (double)NaN, (double)INF, -(double)INF}), y = ctx.pick({2.0, (double)NaN, -(double)INF}); int m = ctx.pick({-1, 0, 1, 100, -2147483647 - 1}); ctx.step(); ctx.nontrivial(); std::string id = mc::Ctx::cat(x, " ", y, " ", m);
  bool fin = x - x == 0, finy = y - y == 0; auto refused = [&](const char* n, bool want, const char* name, std::function<void()> f) { bool numeric = true, threw = false; std::string msg; try { f(); } catch (const NumericInputError& e) { threw = true; msg = e.what(); } catch (...) { threw = true; numeric = false; } ctx.check(threw == want && numeric, "validation", n, " of ", id); if (threw) ctx.check(msg.find(name) != std::string::npos, "validation-message", n, " of ", id, ": ", msg); };
  refused("finite", !fin, "xyz", [&] { ValidateFinite(x, "xyz"); }); refused("finite", !fin, "xyz", [&] { ValidateFinite(x, std::string("xyz")); }); refused("bounds", !fin || !finy, "alg", [&] { ValidateBounds(x, y, "alg"); }); refused("bounds", !fin || !finy, "alg", [&] { ValidateBounds(y, x, std::string("alg")); }); refused("tolerance", !(fin && x > 0), "alg", [&] { ValidateTolerance(x, "alg"); }); refused("tolerance", !(fin && x > 0), "alg", [&] { ValidateTolerance(x, std::string("alg")); }); refused("value", !fin, "fun", [&] { ValidateFunctionValue(x, "fun"); }); refused("value", !fin, "fun", [&] { ValidateFunctionValue(x, std::string("fun")); }); refused("iterations", m <= 0, "alg", [&] { ValidateMaxIterations(m, "alg"); }); refused("step", !(fin && x > 0), "alg", [&] { ValidateStepSize(x, "alg"); });
  ctx.check(IsFinite(x) == fin && IsFiniteValue(x) == fin && IsFiniteValue((float)x) == (fin && std::abs(x) < 1e38) && IsFiniteValue(m) && IsFunctionValueValid(x) == fin, "finite", id); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(results, 1) {
  static const AlgorithmStatus S[] = {AlgorithmStatus::Success, AlgorithmStatus::MaxIterationsExceeded, AlgorithmStatus::NumericalInstability, AlgorithmStatus::SingularMatrix, AlgorithmStatus::InvalidInput, AlgorithmStatus::Stalled, AlgorithmStatus::ToleranceUnachievable, AlgorithmStatus::AlgorithmSpecificFailure}; static const char* N[] = {"Success", "MaxIterationsExceeded", "NumericalInstability", "SingularMatrix", "InvalidInput", "Stalled", "ToleranceUnachievable", "AlgorithmSpecificFailure"};
  int k = ctx.choose(8), it = ctx.pick({0, 1, 77}); Real tol = ctx.pick({0.0, 1e-9}); ctx.step(); ctx.nontrivial(); ctx.check(ToString(S[k]) == N[k], "status-name", N[k]);
  auto a = MakeSuccessResult<IterativeResultBase>(it, tol, "alg"); ctx.check(a.converged && a.iterations_used == it && a.achieved_tolerance == tol && a.status == AlgorithmStatus::Success && a.algorithm_name == "alg" && a.error_message.empty(), "success-result", it); auto b = MakeFailureResult<IterativeResultBase>(S[k], "why", it, "alg"); ctx.check(!b.converged && b.iterations_used == it && b.status == S[k] && b.error_message == "why" && b.algorithm_name == "alg", "failure-result", N[k]);
  auto c = MakeEvaluationSuccessResult<EvaluationResult<Real>>("alg", it); ctx.check(c && c.IsSuccess() && c.function_evaluations == it && c.algorithm_name == "alg" && c.error_message.empty(), "evaluation-result", it); auto d = MakeEvaluationFailureResult<DerivativeResult<Real>>(S[k], "why", "alg", it); ctx.check(d.IsSuccess() == (k == 0) && (bool)d == (k == 0) && d.status == S[k] && d.error_message == "why" && d.algorithm_name == "alg" && d.function_evaluations == it, "evaluation-failure", N[k]);
  mc::Hash h; h.u(k * 1000 + it * 2 + (tol > 0)); ctx.state(h);
}
