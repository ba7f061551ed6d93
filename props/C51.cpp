// C51: analysis of functions and fields.
// mc-flags: -O1
#include "MMLBase.h"
#include "base/Function.h"
#include "algorithms/FunctionsAnalyzer.h"
#include "algorithms/FieldAnalyzers.h"
#include "algorithms/FieldLineTracer.h"
#include "../mc/mc.h"
using namespace MML;
typedef long double LD;
static const Real NaN = std::numeric_limits<Real>::quiet_NaN(), INF = std::numeric_limits<Real>::infinity();
struct Fn : IRealFunction { std::function<Real(Real)> f; Fn(std::function<Real(Real)> g) : f(std::move(g)) {} Real operator()(Real x) const override { return f(x); } };
template <class V> static std::string list(const V& v) { std::string s; for (auto x : v) s += mc::Ctx::cat(x, " "); return s; }

// ---------------- roots, optima, inflections
// roots of a * prod (x - r_i), r_i from a pool of values on and off the sampling grid of a thousand points
static const LD POOL[] = {-2.5, -1, -0.37L, 0.0005L, 0.25, 1.1234567L, 2.75, 3.999L};
MC_SCENARIO(roots, 1) {
  std::vector<LD> r; std::string id; for (LD p : POOL) if (ctx.flag()) { r.push_back(p); id += mc::Ctx::cat((double)p, " "); } if (r.size() > 4) { ctx.prune(); return; }
  LD a = ctx.pick({1.0, -0.01, 100.0}); Real eps = ctx.pick({1e-6, 1e-10, 1e-4}); int iv = ctx.choose(2); Real x1 = iv ? -4 : -3, x2 = iv ? 4 : 3.5; ctx.step(); ctx.nontrivial();
  Fn f([&](Real x) { LD v = a; for (LD q : r) v *= x - q; return (Real)v; }); RealFunctionAnalyzer an(f); auto got = an.GetRoots(x1, x2, eps); std::vector<LD> want; for (LD q : r) if (q >= x1 && q <= x2) want.push_back(q);
  if (r.empty()) want.clear(); std::string where = mc::Ctx::cat("factor ", (double)a, " roots ", id, "eps ", eps, " on [", x1, ",", x2, "]");
  ctx.check(got.size() == want.size(), "root-count", where, " found ", list(got));
  for (size_t i = 0; i < want.size(); i++) ctx.check(std::abs(got[i] - want[i]) <= 2 * eps + 1e-12L, "root", where, " found ", list(got));
  mc::Hash h; h.s(where); ctx.state(h);
}
// roots without a change of sign are seen when they are among the points sampled
MC_SCENARIO(touching_roots, 1) {
  LD r1 = ctx.pick({-1.0, 0.0, 2.0}), r2 = ctx.pick({-2.0, 1.0, 3.0}), a = ctx.pick({1.0, -4.0, 0.1}); Real eps = ctx.pick({1e-6, 1e-8, 1e-4}); bool dbl = ctx.flag(); ctx.step(); ctx.nontrivial();
  Fn f([&](Real x) { return (Real)(a * (x - r1) * (x - r1) * (x - r2) * (dbl ? x - r2 : 1)); }); RealFunctionAnalyzer an(f); auto got = an.GetRoots(-4, 4, eps); std::vector<LD> want{std::min(r1, r2), std::max(r1, r2)}; bool ok = got.size() == 2 && std::abs(got[0] - want[0]) <= 0.01L && std::abs(got[1] - want[1]) <= 0.01L;
  ctx.check(ok, "touching-roots", "factor ", (double)a, " double root ", (double)r1, dbl ? " double" : " simple", " root ", (double)r2, " eps ", eps, " found ", list(got)); mc::Hash h; h.d(r1).d(r2).d(a).d(eps).u(dbl); ctx.state(h);
}
MC_SCENARIO(periods, 1) {
  int n = ctx.pick({0, 1, 2, 3, 7, 12, 25, 45}); LD gap = ctx.pick({1.0, 0.5, 0.37}); LD first = ctx.pick({0.5, 0.123}); int pts = ctx.pick({1024, 1000, 4096}); ctx.step(); ctx.nontrivial(); Real end = (Real)(first + (n - 1) * gap + gap / 2); if (n == 0) end = (Real)first / 2; if (pts == 1000 && n > 12) { ctx.prune(); return; }
  Fn f([&](Real x) { LD u = (x - first) / gap, k = std::round(u), d = u - k; return (Real)(std::fmod(std::abs(k), 2) ? -d : d); });   // a triangle wave, zero at first + k gap
  Fn g([&](Real x) { return (Real)std::sin(3.14159265358979323846264L * (x - first) / gap); }); Real start = 0.0625; LD lo = first; while (lo - gap > start) lo -= gap; int m = 0; for (LD z = lo; z < end; z += gap) m++;
  RealFunctionAnalyzer an(g); Real p = an.calcRootsPeriod(start, end, pts); ctx.check(m < 2 ? p == 0 : std::abs(p - gap) < 1e-6L, "roots-period", m, " roots ", (double)gap, " apart from ", (double)lo, " on ", pts, " points is ", p); (void)f; mc::Hash h; h.u(n).d(gap).d(first).u(pts); ctx.state(h);
}
// f' = a prod (x - q)^m: optima where m is odd, inflections (horizontal) where it is even
MC_SCENARIO(optima, 1) {
  std::vector<std::pair<LD, int>> q; std::string id; static const LD Q[] = {-1.7L, -0.5L, 0.31L, 1.25L}; int deg = 0; for (LD p : Q) if (int m = ctx.choose(3)) { q.push_back({p, m}); deg += m; id += mc::Ctx::cat((double)p, m == 2 ? "(double) " : " "); } if (deg > 4) { ctx.prune(); return; } LD a = ctx.pick({1.0, -3.0, 0.0}); if (a == 0 && deg) { ctx.prune(); return; } Real eps = ctx.pick({1e-6, 1e-5}); ctx.step(); ctx.nontrivial();
  std::vector<LD> c{a}; for (auto& p : q) for (int k = 0; k < p.second; k++) { c.push_back(0); for (size_t i = c.size() - 1; i > 0; i--) c[i] = c[i - 1] - p.first * c[i]; c[0] *= -p.first; }
  Fn f([&](Real x) { LD v = 0; for (int i = (int)c.size() - 1; i >= 0; i--) v = (v + c[i] / (i + 1)) * x; return (Real)(v + 0.75L); }); RealFunctionAnalyzer an(f); auto o = an.GetLocalOptimums(-2.3, 2.2, eps); auto oc = an.GetLocalOptimumsClassified(-2.3, 2.2, eps); std::vector<LD> want; for (auto& p : q) if (p.second == 1) want.push_back(p.first);
  std::string where = mc::Ctx::cat("derivative ", (double)a, " with roots ", id, "eps ", eps); std::vector<Real> ov; for (int i = 0; i < o.size(); i++) ov.push_back(o[i]);
  ctx.check(ov.size() == want.size() && oc.size() == want.size(), "optima-count", where, " found ", list(ov)); for (size_t i = 0; i < want.size(); i++) {
    LD s = 0, x = want[i]; for (int k = (int)c.size() - 1; k > 0; k--) s = s * x + k * c[k]; ctx.check(std::abs(ov[i] - x) < 1e-4L && std::abs(oc[i].x - x) < 1e-4L && std::abs(oc[i].value - f((Real)x)) < 1e-6L && oc[i].type == (s > 0 ? CriticalPointType::LOCAL_MINIMUM : CriticalPointType::LOCAL_MAXIMUM), "optimum", where, " found ", list(ov)); }
  // inflections: sign changes of f''
  std::vector<LD> d; for (size_t k = 1; k < c.size(); k++) d.push_back(k * c[k]); auto val = [&](LD x) { LD v = 0; for (int i = (int)d.size() - 1; i >= 0; i--) v = v * x + d[i]; return v; };
  std::vector<LD> infl; bool clear = true; if (d.size() > 1) { LD p = val(-2.30037L); LD px = -2.30037L; for (int i = 1; i <= 4500; i++) { LD x = -2.30037L + i * 0.001L, v = val(x); if (p * v < 0) { LD l = px, h = x; for (int k = 0; k < 60; k++) { LD m = (l + h) / 2; (val(m) * p > 0 ? l : h) = m; } infl.push_back(l); if (std::abs(val(l + 0.01L) - val(l - 0.01L)) < 0.01L) clear = false; } p = v; px = x; } }
  auto gi = an.GetInflectionPoints(-2.3, 2.2, eps); std::vector<Real> gv; for (int i = 0; i < gi.size(); i++) gv.push_back(gi[i]);
  if (clear) { ctx.check(gv.size() == infl.size(), "inflection-count", where, " found ", list(gv), " expected ", infl.size()); for (size_t i = 0; i < infl.size(); i++) ctx.check(std::abs(gv[i] - infl[i]) < 1e-3L, "inflection", where, " found ", list(gv)); }
  mc::Hash h; h.s(where); ctx.state(h);
}

// ---------------- samples: monotonic, extreme values, undefined points
MC_SCENARIO(samples, 1) {
  int n = 1 + ctx.choose(ctx.thorough ? 6 : 5); Real x1 = ctx.pick({0.0, -1.5}), x2 = ctx.pick({1.0, 2.25}); std::vector<Real> y; std::string id; bool bad = false; for (int i = 0; i <= n; i++) { int c = ctx.choose(n < 5 ? 4 : 3); y.push_back(c < 3 ? c * 1.5 - 1 : i % 2 ? NaN : INF); bad |= c == 3; id += mc::Ctx::cat(y.back(), " "); } ctx.step(); ctx.nontrivial();
  Fn f([&](Real x) { long k = std::lround((x - x1) / ((x2 - x1) / n)); return k < 0 || k > n ? 0 : y[k]; }); RealFunctionAnalyzer an(f); std::string where = mc::Ctx::cat("values ", id, "on [", x1, ",", x2, "]");
  Real lo = INF, hi = -INF; std::vector<int> undef; bool up = true, down = true; for (int i = 0; i <= n; i++) { if (std::isfinite(y[i])) lo = std::min(lo, y[i]), hi = std::max(hi, y[i]); else undef.push_back(i); if (i) { up &= y[i] >= y[i - 1]; down &= y[i] <= y[i - 1]; } }
  Real mn = an.MinInNPoints(x1, x2, n), mx = an.MaxInNPoints(x1, x2, n); ctx.check(std::isfinite(lo) ? mn == lo && mx == hi : std::isnan(mn) && std::isnan(mx), "extreme-values", where, " are ", mn, " ", mx);
  if (!bad) ctx.check(an.isMonotonic(x1, x2, n) == (up || down), "monotonic", where);
  auto r = an.AnalyzeInterval(x1, x2, n); ctx.check(r.isDefinedEverywhere == undef.empty() && r.undefinedPoints.size() == undef.size(), "undefined-points", where, " are ", list(r.undefinedPoints)); if (undef.empty()) ctx.check(r.minValue == lo && r.maxValue == hi && r.isMonotonic == (up || down), "interval-analysis", where, " min ", r.minValue, " max ", r.maxValue);
  mc::Hash h; h.s(where); ctx.state(h);
}

// ---------------- continuity
// branches next to a point c: value of the limit, or infinite, or none
struct Branch { const char* name; std::function<LD(LD)> f; int kind; LD limit; };   // f(distance); kind 0 finite limit, 1 +inf, -1 -inf, 2 no limit
static const Branch BR[] = {{"0", [](LD) { return 0.0L; }, 0, 0}, {"1.5", [](LD) { return 1.5L; }, 0, 1.5L}, {"1.5+2h", [](LD h) { return 1.5L + 2 * h; }, 0, 1.5L}, {"-400h", [](LD h) { return -400 * h; }, 0, 0}, {"3-h^2", [](LD h) { return 3 - h * h; }, 0, 3}, {"sqrt", [](LD h) { return std::sqrt(h); }, 0, 0}, {"1/h", [](LD h) { return 1 / h; }, 1, 0}, {"-2/h", [](LD h) { return -2 / h; }, -1, 0}, {"1/h^2", [](LD h) { return 1 / (h * h); }, 1, 0}, {"-exp(1/h)", [](LD h) { return -std::exp(1 / h); }, -1, 0}, {"sin(1/h)", [](LD h) { return std::sin(1 / h); }, 2, 0}};
static const char* TYPES[] = {"JUMP", "REMOVABLE", "INFINITE", "OSCILLATORY", "UNKNOWN"};
MC_SCENARIO(discontinuities, 1) {
  const Branch &L = BR[ctx.choose(11)], &R = BR[ctx.choose(11)]; int vk = ctx.choose(6); LD c = ctx.pick({0.0, 1.0, 0.3137, -2.77}); ctx.step(); LD vc = vk == 0 ? L.limit : vk == 1 ? R.limit : vk == 2 ? 7 : vk == 5 ? -7 : 0; if (vk == 0 && L.kind) { ctx.prune(); return; } if (vk == 1 && (R.kind || (L.kind == 0 && L.limit == R.limit))) { ctx.prune(); return; } ctx.nontrivial();
  Fn f([&](Real x) { LD h = (LD)x - (LD)(Real)c; if (h == 0) return vk == 3 ? NaN : vk == 4 ? INF : (Real)vc; return (Real)(h < 0 ? L.f(-h) : R.f(h)); }); RealFunctionAnalyzer an(f); Real x = (Real)c; std::string where = mc::Ctx::cat(L.name, " | ", vk == 3 ? "nan" : vk == 4 ? "inf" : mc::Ctx::cat((double)vc), " | ", R.name, " at ", (double)c);
  bool finite = !L.kind && !R.kind, same = finite && L.limit == R.limit, cont = same && (vk < 3 || vk == 5) && vc == L.limit; bool steep = std::string(L.name) == "sqrt" || std::string(R.name) == "sqrt";
  ctx.check(an.isDefinedAtPoint(x) == (vk < 3 || vk == 5), "defined", where); ctx.check(an.isContinuousAtPoint(x, 1e-6) == cont, "continuous-at-point", where);
  Real l = an.ComputeLeftLimit(x), r = an.ComputeRightLimit(x); auto okLim = [&](const Branch& b, Real v) { return b.kind == 0 ? std::abs(v - b.limit) < (steep ? 1e-3 : 1e-4) : b.kind == 2 ? std::isnan(v) : v == b.kind * INF; };
  ctx.check(okLim(L, l), "left-limit", where, " is ", l); ctx.check(okLim(R, r), "right-limit", where, " is ", r);
  auto d = an.ClassifyDiscontinuity(x); DiscontinuityType want = std::abs(L.kind) == 1 || std::abs(R.kind) == 1 ? DiscontinuityType::INFINITE : L.kind == 2 || R.kind == 2 ? DiscontinuityType::OSCILLATORY : !same ? DiscontinuityType::JUMP : !cont ? DiscontinuityType::REMOVABLE : DiscontinuityType::UNKNOWN;
  ctx.check(d.type == want && d.x == x && (want != DiscontinuityType::JUMP || std::abs(d.jumpSize - std::abs(L.limit - R.limit)) < 2e-3), "discontinuity-type", where, " is ", TYPES[(int)d.type], " expected ", TYPES[(int)want]);
  mc::Hash h; h.s(where); ctx.state(h);
}
MC_SCENARIO(search, 1) {   // jumps and poles are found wherever they are, and nothing else is
  const int ok[] = {0, 1, 2, 3, 4, 6, 7, 8}; const Branch &L = BR[ok[ctx.choose(8)]], &R = BR[ok[ctx.choose(8)]]; LD c = ctx.thorough ? -1.9L + 0.0731L * ctx.choose(52) : ctx.pick({0.0, 1.0, 0.3137, -1.77, 1.9999}); int n = ctx.pick({10, 100, 1000}); Real eps = ctx.pick({1e-6, 1e-5}); if ((n <= 100 && (std::string(L.name) == "-400h" || std::string(R.name) == "-400h"))) { ctx.prune(); return; } ctx.step(); ctx.nontrivial();   // far apart samples do not tell a jump from the slope next to it
  Fn f([&](Real x) { LD h = (LD)x - (LD)(Real)c; if (h == 0) return R.kind ? NaN : (Real)R.limit; return (Real)(h < 0 ? L.f(-h) : R.f(h)); }); RealFunctionAnalyzer an(f); auto d = an.FindDiscontinuities(-2, 2, n, eps); std::string where = mc::Ctx::cat(L.name, " | ", R.name, " at ", (double)c, " with ", n, " points, eps ", eps), found; for (auto& p : d) found += mc::Ctx::cat(p.x, ":", TYPES[(int)p.type], " ");
  bool cont = !L.kind && !R.kind && L.limit == R.limit, pole = L.kind || R.kind;
  if (cont) { ctx.check(d.empty(), "search-count", where, " found ", found); ctx.check(an.isContinuous(-2, 2, n, eps), "is-continuous", where); }
  else { ctx.check(d.size() == 1 && std::abs(d[0].x - c) < 1e-3L && d[0].type == (pole ? DiscontinuityType::INFINITE : DiscontinuityType::JUMP), "search-count", where, " found ", found); std::vector<Real> at; ctx.check(!an.isContinuous(-2, 2, n, eps, &at) && !at.empty() && std::all_of(at.begin(), at.end(), [&](Real x) { return std::abs(x - c) < 1e-3L; }), "is-continuous", where, " at ", list(at)); }
  mc::Hash h; h.s(where); ctx.state(h);
}
MC_SCENARIO(many_steps, 1) {   // staircases: all steps are found
  int k = 1 + ctx.choose(6); LD w = ctx.pick({0.5, 0.37, 0.81}), off = ctx.pick({0.0, 0.113, 0.25}); int n = ctx.pick({40, 333, 500}); ctx.step(); ctx.nontrivial(); Real a = -0.2, b = (Real)(off + (k - 1) * w + w / 2); Fn f([&](Real x) { return (Real)std::clamp<LD>(std::floor((x - off) / w) + 1, 0, k) + 0.25 * x; }); RealFunctionAnalyzer an(f); auto d = an.FindDiscontinuities(a, b, n); std::string where = mc::Ctx::cat(k, " steps of ", (double)w, " from ", (double)off, " with ", n, " points"), found; for (auto& p : d) found += mc::Ctx::cat(p.x, ":", TYPES[(int)p.type], " ");
  bool good = (int)d.size() == k; for (int i = 0; good && i < k; i++) good = std::abs(d[i].x - (off + i * w)) < 1e-3L && d[i].type == DiscontinuityType::JUMP && std::abs(d[i].jumpSize - 1) < 1e-3; ctx.check(good, "steps", where, " found ", found); mc::Hash h; h.s(where); ctx.state(h);
}
MC_SCENARIO(smooth_points, 1) {   // smooth functions are continuous and differentiable wherever they are defined, kinks are not differentiable
  LD s = ctx.pick({1.0, 1e-3, 1000.0, -50.0}); int kind = ctx.choose(6); Real x = ctx.pick({0.0, 0.7, -1.3, 2.0}); ctx.step(); ctx.nontrivial(); Real kink = 0.7;
  Fn f([&](Real t) -> Real { switch (kind) { case 0: return (Real)(s * t); case 1: return (Real)(s * t * t); case 2: return (Real)(s * std::sin((LD)t)); case 3: return (Real)(s * std::exp((LD)t)); case 4: return (Real)(s * 3); default: return (Real)(s * std::abs((LD)t - kink)); } }); RealFunctionAnalyzer an(f); auto p = an.AnalyzePoint(x); std::string where = mc::Ctx::cat("function ", kind, " times ", (double)s, " at ", x);
  LD d1[] = {s, 2 * s * x, s * std::cos((LD)x), s * std::exp((LD)x), 0, x < kink ? -s : s}, d2[] = {0, 2 * s, -s * std::sin((LD)x), s * std::exp((LD)x), 0, 0}; bool at = kind == 5 && x == kink;
  ctx.check(p.isDefined && p.isContinuous && p.value == f(x) && p.x == x, "smooth-continuous", where); if (std::abs(s) > 0.01L || !at) ctx.check(p.isDerivativeDefined == !at, "differentiable", where);
  if (!at) ctx.check(std::abs(p.derivative - d1[kind]) < 1e-7L * (1 + std::abs(s)) && std::abs(p.secondDerivative - d2[kind]) < 1e-5L * (1 + std::abs(s)), "derivatives", where, " are ", p.derivative, " ", p.secondDerivative);
  if (!at) ctx.check(p.isInflectionPoint == (kind == 2 && x == 0), "inflection-point", where); mc::Hash h; h.s(where); ctx.state(h);
}
MC_SCENARIO(compare, 1) {
  LD a[3], b[3]; std::string id; for (auto& v : a) { v = ctx.choose(3) - 1; id += mc::Ctx::cat((double)v, " "); } for (auto& v : b) { v = ctx.choose(3) - 1; id += mc::Ctx::cat((double)v, " "); } Real lo = ctx.pick({-1.0, 0.5}), hi = 2; int n = ctx.pick({1, 3, 8}); ctx.step(); ctx.nontrivial();
  auto P = [](LD* c) { return [c](Real x) { return (Real)(c[0] + x * (c[1] + x * c[2])); }; }; Fn f(P(a)), g(P(b)); RealFunctionComparer cmp(f, g); LD sum = 0, mx = 0, rs = 0, rm = 0; std::string where = mc::Ctx::cat("polynomials ", id, "from ", lo, " in ", n, " points");
  for (int i = 0; i <= n; i++) { LD x = lo + i * (LD)(hi - lo) / n, u = f((Real)x), w = g((Real)x), d = std::abs(u - w); if (i < n) sum += d; mx = std::max(mx, d); if (u != 0) { if (std::abs(u) < 1e-9L) { ctx.prune(); return; } if (i < n) rs += d / std::abs(u); rm = std::max(rm, d / std::abs(u)); } }
  LD t = 1e-12L; ctx.check(std::abs(cmp.getAbsDiffSum(lo, hi, n) - sum) < t && std::abs(cmp.getAbsDiffAvg(lo, hi, n) - sum / n) < t && std::abs(cmp.getAbsDiffMax(lo, hi, n) - mx) < t, "absolute-difference", where, " max ", cmp.getAbsDiffMax(lo, hi, n), " expected ", (double)mx);
  ctx.check(std::abs(cmp.getRelDiffSum(lo, hi, n) - rs) < t * (1 + rs) && std::abs(cmp.getRelDiffAvg(lo, hi, n) - rs / n) < t * (1 + rs) && std::abs(cmp.getRelDiffMax(lo, hi, n) - rm) < t * (1 + rm), "relative-difference", where, " max ", cmp.getRelDiffMax(lo, hi, n), " expected ", (double)rm);
  LD c0 = a[0] - b[0], c1 = a[1] - b[1], c2 = a[2] - b[2]; auto I = [&](LD x) { return x * (c0 + x * (c1 / 2 + x * c2 / 3)); }; auto Q = [&](LD x) { return c0 * c0 * x + c0 * c1 * x * x + (c1 * c1 + 2 * c0 * c2) * x * x * x / 3 + c1 * c2 * x * x * x * x / 2 + c2 * c2 * x * x * x * x * x / 5; };
  LD want = I(hi) - I(lo), sq = Q(hi) - Q(lo), ab = 0; { std::vector<LD> z{(LD)lo, (LD)hi}; if (c2 != 0) { LD D = c1 * c1 - 4 * c0 * c2; if (D > 0) for (int s : {-1, 1}) { LD q = (-c1 + s * std::sqrt(D)) / (2 * c2); if (q > lo && q < hi) z.push_back(q); } } else if (c1 != 0 && -c0 / c1 > lo && -c0 / c1 < hi) z.push_back(-c0 / c1); std::sort(z.begin(), z.end()); for (size_t i = 1; i < z.size(); i++) ab += std::abs(I(z[i]) - I(z[i - 1])); }
  for (auto m : {IntegrationMethod::TRAP, IntegrationMethod::SIMPSON, IntegrationMethod::ROMBERG}) { LD it = m == IntegrationMethod::TRAP ? 2e-3L : 1e-5L; ctx.check(std::abs(cmp.getIntegratedDiff(lo, hi, m) - want) < it && std::abs(cmp.getIntegratedSqrDiff(lo, hi, m) - sq) < it * 4, "integrated-difference", where, " method ", (int)m, " is ", cmp.getIntegratedDiff(lo, hi, m), " expected ", (double)want, " squared ", cmp.getIntegratedSqrDiff(lo, hi, m), " expected ", (double)sq); if (m != IntegrationMethod::ROMBERG) ctx.check(std::abs(cmp.getIntegratedAbsDiff(lo, hi, m) - ab) < 5e-3L, "integrated-absolute-difference", where, " method ", (int)m, " is ", cmp.getIntegratedAbsDiff(lo, hi, m), " expected ", (double)ab); }
  mc::Hash h; h.s(where); ctx.state(h);
}

// ---------------- fields
struct SF : IScalarFunction<3> { LD q[3], m[3], l[3]; Real operator()(const VectorN<Real, 3>& p) const override { LD x = p[0], y = p[1], z = p[2]; return (Real)(q[0] * x * x + q[1] * y * y + q[2] * z * z + m[0] * x * y + m[1] * y * z + m[2] * z * x + l[0] * x + l[1] * y + l[2] * z); } };
MC_SCENARIO(scalar_fields, 1) {
  SF f; std::string id; for (auto& v : f.q) { v = ctx.choose(3) - 1; id += mc::Ctx::cat((double)v, " "); } for (auto& v : f.m) v = 0; f.m[0] = ctx.choose(2); f.m[2] = ctx.choose(2) * 0.5L; for (auto& v : f.l) v = 0; f.l[1] = ctx.choose(2); id += mc::Ctx::cat((double)f.m[0], " ", (double)f.m[2], " ", (double)f.l[1]); ctx.step(); ctx.nontrivial(); ScalarFieldAnalyzer an(f); Vec3Cart lo(-1, -0.5, 0), hi(1, 0.5, 2); LD lap = 2 * (f.q[0] + f.q[1] + f.q[2]);
  int found = 0, want = 0; for (int i = 0; i <= 4; i++) for (int j = 0; j <= 4; j++) for (int k = 0; k <= 4; k++) { LD x = -1 + 0.5L * i, y = -0.5L + 0.25L * j, z = 0.5L * k; LD g[] = {2 * f.q[0] * x + f.m[0] * y + f.m[2] * z, 2 * f.q[1] * y + f.m[0] * x + f.l[1], 2 * f.q[2] * z + f.m[2] * x}; Vec3Cart p((Real)x, (Real)y, (Real)z), v = an.GradientAt(p); bool zero = !g[0] && !g[1] && !g[2]; want += zero;
    ctx.check(std::abs(v.X() - g[0]) + std::abs(v.Y() - g[1]) + std::abs(v.Z() - g[2]) < 1e-7L && std::abs(an.LaplacianAt(p) - lap) < 1e-5L && an.IsCriticalPoint(p) == zero && [&] { LD gl = std::sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2]); for (LD tol : {0.4L, 1.1L, 1e-3L}) if (an.IsCriticalPoint(p, (Real)tol) != (gl < tol)) return false; return true; }(), "scalar-field", id, " at ", (double)x, " ", (double)y, " ", (double)z); }
  auto cp = an.FindCriticalPoints(lo, hi, 4); found = (int)cp.size(); ctx.check(found == want, "critical-points", id, " are ", found, " expected ", want); ctx.check(an.IsHarmonic(lo, hi) == (lap == 0), "harmonic", id); mc::Hash h; h.s(id); ctx.state(h);
}
struct VF : IVectorFunction<3> { LD A[3][3], s[3]; VectorN<Real, 3> operator()(const VectorN<Real, 3>& p) const override { VectorN<Real, 3> r; for (int i = 0; i < 3; i++) { LD v = s[i] * p[i] * p[i]; for (int j = 0; j < 3; j++) v += A[i][j] * p[j]; r[i] = (Real)v; } return r; } };
MC_SCENARIO(vector_fields, 1) {
  VF f; std::string id; for (auto& r : f.A) for (auto& v : r) { v = 0; } f.A[0][0] = ctx.choose(3) - 1; f.A[1][1] = ctx.choose(3) - 1; f.A[2][2] = ctx.choose(2); f.A[0][1] = ctx.choose(2); f.A[1][0] = ctx.choose(3) - 1; f.A[1][2] = ctx.choose(2); f.A[2][1] = ctx.choose(2); f.A[0][2] = f.A[0][1] ? 0 : ctx.choose(2); for (auto& v : f.s) v = 0; f.s[0] = ctx.choose(2); f.s[2] = ctx.choose(2) * -0.5L; for (auto& r : f.A) for (LD v : r) id += mc::Ctx::cat((double)v, " "); id += mc::Ctx::cat((double)f.s[0], " ", (double)f.s[2]); ctx.step(); ctx.nontrivial();
  VectorFieldAnalyzer an(f); Vec3Cart lo(-1, -2, 0), hi(1, 0.5, 2), p(0.3, -0.4, 1.25); LD tr = f.A[0][0] + f.A[1][1] + f.A[2][2], c[] = {f.A[2][1] - f.A[1][2], f.A[0][2] - f.A[2][0], f.A[1][0] - f.A[0][1]}, cl = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), dv = tr + 2 * f.s[0] * 0.3L + 2 * f.s[2] * 1.25L;
  Vec3Cart cu = an.CurlAt(p); ctx.check(std::abs(an.DivergenceAt(p) - dv) < 1e-7L && std::abs(cu.X() - c[0]) + std::abs(cu.Y() - c[1]) + std::abs(cu.Z() - c[2]) < 1e-7L && an.IsSolenoidalAt(p) == (std::abs(dv) < 1e-6L) && an.IsIrrotationalAt(p) == (cl == 0), "vector-field", id);
  bool sol = tr == 0 && !f.s[0] && !f.s[2]; ctx.check(an.IsSolenoidal(lo, hi) == sol && an.IsIrrotational(lo, hi) == (cl == 0) && an.IsConservative(lo, hi) == (cl == 0), "field-kind", id); LD md = 0; for (LD x : {-1, 1}) for (LD z : {0, 2}) md = std::max(md, std::abs(tr + 2 * f.s[0] * x + 2 * f.s[2] * z)); ctx.check(std::abs(an.MaxDivergence(lo, hi) - md) < 1e-6L && std::abs(an.MaxCurlMagnitude(lo, hi) - cl) < 1e-6L, "field-maximum", id);
  LD NS[][3] = {{0, 0, 1}, {0, 0, -2}, {1, 0, 0}, {0, 3, 0}, {1, 2, -2}, {-3, 0.1L, 0}, {-1, 0, 0}, {0, -1, 0}}; if (!f.s[0] && !f.s[2]) for (auto& n : NS) { LD nl = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); for (int pts : {3, 8, 100}) { LD area = 0.5L * pts * 2.25L * std::sin(2 * 3.14159265358979323846264L / pts), w = (c[0] * n[0] + c[1] * n[1] + c[2] * n[2]) / nl, got = an.CirculationAroundCircle(p, Vec3Cart((Real)n[0], (Real)n[1], (Real)n[2]), 1.5, pts);
    ctx.check(std::abs(got - w * area) <= std::max<LD>(1e-11L, std::abs(w) * (3.14159265358979323846264L * 2.25L - area) * 1.01L), "circulation", id, " around ", (double)n[0], " ", (double)n[1], " ", (double)n[2], " is ", (double)got, " expected ", (double)(w * area)); } }
  mc::Hash h; h.s(id); ctx.state(h);
}
// field lines
struct F2 : IVectorFunction<2> { int kind; LD mag; VectorN<Real, 2> operator()(const VectorN<Real, 2>& p) const override { Real x = p[0], y = p[1], m = (Real)mag; switch (kind) { case 0: return {m, 0}; case 1: return {-m * y, m * x}; case 2: return {m * x, m * y}; case 3: return {m * x, -m * y}; case 4: return {0, 0}; default: return {x < 0.5 ? m : NaN, 0}; } } };
MC_SCENARIO(field_lines, 1) {
  F2 f; f.kind = ctx.choose(6); f.mag = ctx.pick({1.0, 1e-6, 300.0}); FieldLineTracer2D::Config cf; cf.stepSize = ctx.pick({0.05, 0.013}); cf.maxLength = ctx.pick({3.0, 1.01, 20.0, 1.61}); cf.maxPoints = ctx.pick({10000, 1, 17}); int dir = 1 + ctx.choose(3); cf.traceForward = dir & 1; cf.traceBackward = dir & 2; VectorN<Real, 2> s{0.25, -0.75}; auto box = BoundingBox2D::Create2D(-1.5, 1.5, -2, 1.25); ctx.step(); ctx.nontrivial();
  FieldLineTracer2D tr(cf); auto l = tr.Trace(f, s, box); std::string id = mc::Ctx::cat("field ", f.kind, " times ", (double)f.mag, " step ", cf.stepSize, " length ", cf.maxLength, " points ", cf.maxPoints, " directions ", dir); LD len = 0; bool inside = true, onLine = true, regular = true; size_t at = 0, seen = 0;
  for (size_t i = 0; i < l.size(); i++) { auto& p = l.points[i]; inside &= p[0] >= -1.5 && p[0] <= 1.5 && p[1] >= -2 && p[1] <= 1.25 && !std::isnan(p[0] + p[1]); if (p[0] == s[0] && p[1] == s[1]) at = i, seen++; LD x = p[0], y = p[1], inv = f.kind == 0 || f.kind == 5 ? y + 0.75L : f.kind == 1 ? x * x + y * y - 0.625L : f.kind == 2 ? x * 3 + y : f.kind == 3 ? x * y + 0.1875L : 0; onLine &= std::abs(inv) < 1e-6L; if (i) { LD dx = x - l.points[i - 1][0], dy = y - l.points[i - 1][1], d = std::sqrt(dx * dx + dy * dy); len += d; regular &= std::abs(d - cf.stepSize) < 0.01L * cf.stepSize || (f.kind == 2 && std::abs(x) < 0.1);
      F2 u = f; auto v = u(l.points[i - 1]); regular &= dx * v[0] + dy * v[1] > 0 || (f.kind == 2 && std::abs(x) < 0.1); } }
  ctx.check(seen == 1 || (f.kind == 1 && seen >= 1), "line-start", id, " seen ", seen); ctx.check(inside, "line-inside", id); ctx.check(onLine, "line-points", id); ctx.check(regular, "line-steps", id); ctx.check(std::abs(l.totalLength - len) < 0.01L * len + 1e-9L, "line-length", id, " is ", l.totalLength, " expected ", (double)len);
  size_t fw = l.size() - 1 - at, bw = at; if (f.kind != 1) ctx.check((cf.traceForward || fw == 0) && (cf.traceBackward || bw == 0) && (int)fw < cf.maxPoints && (int)bw < cf.maxPoints && fw * cf.stepSize < cf.maxLength + 1.01 * cf.stepSize && bw * cf.stepSize < cf.maxLength + 1.01 * cf.stepSize, "line-limits", id, " ", bw, "+", fw);
  // what ended the line
  auto limit = [&](LD room) { return std::min<LD>(std::min<LD>(cf.maxPoints - 1, std::ceil(cf.maxLength / cf.stepSize - 1e-9L)), room / cf.stepSize); }; if (f.kind == 0) { LD rf = 1.25L, rb = 1.75L; LD wf = cf.traceForward ? std::floor(limit(rf)) : 0, wb = cf.traceBackward ? std::floor(limit(rb)) : 0; bool hit = (cf.traceForward && rf / cf.stepSize < std::min<LD>(cf.maxPoints - 1, cf.maxLength / cf.stepSize) - 1e-9L) || (cf.traceBackward && rb / cf.stepSize < std::min<LD>(cf.maxPoints - 1, cf.maxLength / cf.stepSize) - 1e-9L); ctx.check(std::abs((LD)fw - wf) <= 1 && std::abs((LD)bw - wb) <= 1 && l.hitBoundary == hit && !l.hitSingularity, "straight-line", id, " ", bw, "+", fw, " expected ", (double)wb, "+", (double)wf); }
  if (f.kind == 4) ctx.check(l.size() == 1 && (l.hitSingularity == (cf.maxPoints > 1)) && !l.hitBoundary, "no-field", id); if (f.kind == 5 && dir == 1) ctx.check(l.hitSingularity == (cf.maxPoints > 1 && (cf.maxPoints - 1) * cf.stepSize > 0.251), "undefined-field", id, " points ", l.size());
  bool boxed = true; for (Real bx : {-1.5, 1.5, 0.5}) for (Real by : {-2.0, 1.25, 0.5}) { boxed &= box.Contains({bx, by}); if (bx != 0.5) boxed &= !box.Contains({bx * 1.0001, by}); if (by != 0.5) boxed &= !box.Contains({bx, by * 1.0001}); } ctx.check(boxed && tr.Trace(f, VectorN<Real, 2>{3, 0}, box).empty(), "line-outside", id); mc::Hash h; h.s(id); ctx.state(h);
}
struct F3 : IVectorFunction<3> { VectorN<Real, 3> c; VectorN<Real, 3> operator()(const VectorN<Real, 3>& p) const override { return p - c; } };
MC_SCENARIO(field_seeds, 1) {   // lines from a source leave it in all directions
  int n = ctx.choose(12); Real r = ctx.pick({0.1, 0.5}); bool three = ctx.flag(); ctx.step(); ctx.nontrivial(); std::string id = mc::Ctx::cat(three ? "3D " : "2D ", n, " lines from radius ", r); FieldLineTracer3D::Config c3; c3.maxLength = 1; FieldLineTracer2D::Config c2; c2.maxLength = 1; bool ok = true; std::vector<std::vector<LD>> st; LD sum = 0;
  if (three) { F3 f; f.c = VectorN<Real, 3>{0.5, -1, 2}; auto ls = FieldLineTracer3D(c3).TraceFromSource(f, f.c, n, r, BoundingBox3D::Create3D(-9, 9, -9, 9, -9, 9)); ok = (int)ls.size() == n; for (auto& l : ls) { if (l.empty()) { ok = false; continue; } auto a = l.points.front() - f.c, b = l.points.back() - f.c; LD la = a.NormL2(), lb = b.NormL2(), ab = a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; ok &= std::abs(la - r) < 1e-12L && std::abs(ab - la * lb) < 1e-9L && std::abs(lb - r - l.totalLength) < 1e-9L; st.push_back({a[0], a[1], a[2]}); } }
  else { struct G : IVectorFunction<2> { VectorN<Real, 2> operator()(const VectorN<Real, 2>& p) const override { return {p[0] - 0.5, p[1] + 1}; } } f; VectorN<Real, 2> c{0.5, -1}; auto ls = FieldLineTracer2D(c2).TraceFromSource(f, c, n, r, BoundingBox2D::Create2D(-9, 9, -9, 9)); ok = (int)ls.size() == n; for (auto& l : ls) { if (l.empty()) { ok = false; continue; } auto a = l.points.front() - c, b = l.points.back() - c; LD la = a.NormL2(), lb = b.NormL2(), ab = a[0] * b[0] + a[1] * b[1]; ok &= std::abs(la - r) < 1e-12L && std::abs(ab - la * lb) < 1e-9L && std::abs(lb - r - l.totalLength) < 1e-9L; st.push_back({a[0], a[1]}); } }
  for (size_t i = 0; i < st.size(); i++) for (size_t j = 0; j < i; j++) { LD d = 0; for (size_t k = 0; k < st[i].size(); k++) d += (st[i][k] - st[j][k]) * (st[i][k] - st[j][k]); ok &= std::sqrt(d) > 0.3L * r; } (void)sum; ctx.check(ok, "seeds", id); mc::Hash h; h.s(id); ctx.state(h);
}
