// C40: descriptive statistics, correlations, hypothesis tests and confidence intervals against their definitions
// mc-flags: -O1
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/algorithms/Statistics.h"
#include "mml/algorithms/Statistics/StatisticsRank.h"
#include "mml/algorithms/Statistics/StatisticsHypothesis.h"
#include "mml/algorithms/Statistics/StatisticsConfidence.h"
#include <boost/math/distributions.hpp>
#include <map>
using namespace MML; using namespace MML::Statistics; typedef long double L; typedef std::vector<Real> V; typedef Vector<Real> VR;
struct T { double s, o; }; static const T TS[] = {{1, 0}, {0.1, 0.7}, {1e-16, 0}, {1, 1e6}, {3e20, 0}};
static VR vec(const V& v) { VR r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[(int)i] = v[i]; return r; }
static std::string show(const V& v) { std::string s; for (Real x : v) s += mc::Ctx::cat(x, " "); return s; }
static L mean(const V& v) { L s = 0; for (Real x : v) s += x; return s / v.size(); }
static L cov(const V& a, const V& b) { L m = mean(a), k = mean(b), s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - m) * (b[i] - k); return s / (a.size() - 1); }
static StatisticsConfig CTS() { StatisticsConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; return c; }
static bool constant(const V& v) { for (Real x : v) if (x != v[0]) return false; return true; }
static L top(const V& v) { L m = 0; for (Real x : v) m = std::max<L>(m, fabsl(x)); return m; }
static const Real BASE[] = {-2, 0, 1, 1.5, 3};
static V seq(mc::Ctx& ctx, int n, int k, const T& t) { V v; for (int i = 0; i < n; i++) v.push_back(BASE[ctx.choose(k)] * t.s + t.o); return v; }
static Real bnear(L got, L want, L tol) { return fabsl(got - want) <= tol; }
// every sample up to a length
MC_SCENARIO(samples, 3) {
	const T& t = TS[ctx.choose(5)]; int n = 1 + ctx.choose(ctx.thorough ? 7 : 5); V v = seq(ctx, n, 5, t), s = v; std::sort(s.begin(), s.end()); VR x = vec(v); ctx.step(); std::string nm = show(v); L M = top(v), m = mean(v), e = 1e-15L * M; { mc::Hash h; for (Real q : v) h.d(q); ctx.state(h); }
	auto S = [&](const char* w, Real g, L want, L tol) { ctx.check(bnear(g, want, tol), w, nm, ": ", g, " expected ", (double)want); };
	S("mean", Mean(x), m, e); S("avg", Avg(x), m, e); S("median", Median(x), n % 2 ? s[n / 2] : ((L)s[n / 2 - 1] + s[n / 2]) / 2, e); S("range", Range(x), (L)s[n - 1] - s[0], e); Real a, b, c; MinMax(x, a, b); ctx.check(a == s[0] && b == s[n - 1], "minmax", nm);
	auto pct = [&](L p) { L r = p / 100 * (n - 1); int k = std::min(n - 1, (int)floorl(r + 1e-12L)); L f = std::max<L>(0, r - k); return k + 1 < n ? s[k] + f * ((L)s[k + 1] - s[k]) : (L)s[k]; }; Real last = s[0]; for (Real p : {0.0, 1.0, 10.0, 25.0, 100.0 / 3, 50.0, 60.0, 75.0, 99.9, 100.0}) { Real g = Percentile(x, p); S("percentile", g, pct(p), 1e-13L * M); ctx.check(g >= last - e, "percentile-order", nm); last = g; } ctx.check(mc::throws([&] { Percentile(x, -0.5); }) && mc::throws([&] { Percentile(x, 100.5); }), "percentile-range");
	Quartiles(x, a, b, c); S("q1", a, pct(25), 1e-14L * M); S("q2", b, pct(50), 1e-14L * M); S("q3", c, pct(75), 1e-14L * M); S("iqr", IQR(x), pct(75) - pct(25), 1e-14L * M);
	{ std::map<Real, int> cnt; for (Real q : v) cnt[q]++; int best = 0; Real md = 0; for (auto& q : cnt) if (q.second > best) { best = q.second; md = q.first; } Real g = Mode(x); ctx.check(cnt[g] == best && g == md, "mode", nm, ": ", g); }
	for (Real q : {0.0, 10.0, 20.0, 25.0, 34.0, 49.9}) { int k = (int)floorl((L)n * q / 100); L w = 0; for (int i = k; i < n - k; i++) w += s[i]; S("trimmed", TrimmedMean(x, q), w / (n - 2 * k), 2 * e); } ctx.check(mc::throws([&] { TrimmedMean(x, 50); }) && mc::throws([&] { TrimmedMean(x, -1); }), "trim-range");
	{ L md = n % 2 ? s[n / 2] : ((L)s[n / 2 - 1] + s[n / 2]) / 2; std::vector<L> d; for (Real q : v) d.push_back(fabsl(q - md)); std::sort(d.begin(), d.end()); S("mad", MAD(x), n % 2 ? d[n / 2] : (d[n / 2 - 1] + d[n / 2]) / 2, 2 * e); }
	bool pos = s[0] > 0; auto tg = mc::throws([&] { a = GeometricMean(x); }), th = mc::throws([&] { b = HarmonicMean(x); }); ctx.check(tg == !pos && th == !pos, "positive", nm); if (pos) { L g = 0, h = 0; for (Real q : v) { g += logl(q); h += 1 / (L)q; } S("geometric", a, expl(g / n), 1e-13L * M); S("harmonic", b, n / h, 1e-14L * M); ctx.check(b <= a * (1 + 1e-13) && a <= Mean(x) * (1 + 1e-13), "mean-order", nm); }
	bool same = constant(v); if (n > 1) { L var = cov(v, v), tol = 1e-14L * var + 1e-15L * M * sqrtl(var) + 1e-31L * M * M; if (same) { var = 0; tol = 0; } AvgVar(x, a, b); S("avgvar-mean", a, m, e); S("avgvar", b, var, tol); S("variance", Variance(x), var, tol); AvgStdDev(x, a, c); S("stddev", c, sqrtl(var), same ? 0 : 1e-14L * sqrtl(var) + e); S("stddev", StdDev(x), sqrtl(var), same ? 0 : 1e-14L * sqrtl(var) + e); ctx.check(Variance(x) >= 0, "negative-variance", nm);
		Real ave, ad, sd, vr, sk, cu; bool thr = mc::throws([&] { Moments(x, ave, ad, sd, vr, sk, cu); }); ctx.check(thr == same, "moments-constant", nm); if (!thr) { L A = 0, k3 = 0, k4 = 0; for (Real q : v) { L d = q - m; A += fabsl(d); k3 += d * d * d; k4 += d * d * d * d; } L sg = sqrtl(var), rel = 1e-12L + 1e-14L * M / sg; S("m-ave", ave, m, e); S("m-adev", ad, A / n, e); S("m-sdev", sd, sg, 1e-14L * sg + e); S("m-var", vr, var, tol); S("m-skew", sk, k3 / (n * sg * sg * sg), rel * 10); S("m-curt", cu, k4 / (n * var * var) - 3, rel * 10); } }
	else { ctx.check(mc::throws([&] { Real q, w, y, z, u, r; Moments(x, q, w, y, z, u, r); }), "moments-one", nm); }
	VR rk = ComputeRanks(x); for (int i = 0; i < n; i++) { int lo = 0, eq = 0; for (Real q : v) { lo += q < v[i]; eq += q == v[i]; } ctx.check(rk[i] == lo + (eq + 1) / 2.0, "rank", nm, "of ", v[i], ": ", rk[i]); } ctx.check(x.size() == n, "unchanged"); for (int i = 0; i < n; i++) ctx.check(x[i] == v[i], "unchanged", nm); ctx.nontrivial();
}
MC_SCENARIO(refusals, 1) {
	VR z(0), o(1); o[0] = 1; auto T = [](auto f) { return mc::throws(f); }; Real a, b, c, d, e, f; switch (ctx.choose(1)) { default: ctx.check(T([&] { Mean(z); }) && T([&] { Variance(z); }) && T([&] { StdDev(z); }) && T([&] { Median(z); }) && T([&] { Percentile(z, 50); }) && T([&] { Quartiles(z, a, b, c); }) && T([&] { Range(z); }) && T([&] { IQR(z); }) && T([&] { MinMax(z, a, b); }) && T([&] { Mode(z); }) && T([&] { TrimmedMean(z, 10); }) && T([&] { MAD(z); }) && T([&] { GeometricMean(z); }) && T([&] { HarmonicMean(z); }) && T([&] { Moments(z, a, b, c, d, e, f); }), "empty"); }
	ctx.check(T([&] { WeightedMean(o, z); }) && T([&] { WeightedMean(z, z); }) && T([&] { WeightedVariance(o, o); }) && T([&] { Covariance(o, o); }) && T([&] { PearsonCorrelation(o, o); }) && T([&] { SpearmanCorrelation(o, o); }) && T([&] { KendallCorrelation(o, o); }) && T([&] { OneSampleTTest(o, 0); }), "short"); ctx.check(ComputeRanks(z).size() == 0, "no-ranks"); VR p(2), q(3); p[0] = 1; p[1] = 2; q[0] = 1; q[1] = 2; q[2] = 3;
	ctx.check(T([&] { WeightedMean(p, q); }) && T([&] { WeightedVariance(p, q); }) && T([&] { Covariance(p, q); }) && T([&] { PearsonCorrelation(p, q); }) && T([&] { SpearmanCorrelation(p, q); }) && T([&] { KendallCorrelation(p, q); }) && T([&] { PairedTTest(p, q); }) && T([&] { ConfidenceIntervalPairedDifference(p, q); }) && T([&] { ChiSquareGoodnessOfFit(p, q); }), "sizes"); ctx.check(T([&] { PearsonCorrelationWithTest(p, p); }) && T([&] { SpearmanCorrelationWithTest(p, p); }) && T([&] { KendallCorrelationWithTest(p, p); }), "two"); ctx.nontrivial(); ctx.step();
}
MC_SCENARIO(weighted, 2) {
	const T& t = TS[ctx.choose(5)]; int n = 1 + ctx.choose(3); V v = seq(ctx, n, 4, t), w; static const Real W[] = {0, 1, 0.5, 3, -1}; for (int i = 0; i < n; i++) w.push_back(W[ctx.choose(5)]); ctx.step(); std::string nm = ctx.cat(show(v), "weights ", show(w)); L s = 0, k = 0; bool neg = false; for (int i = 0; i < n; i++) { s += w[i] * (L)v[i]; k += w[i]; neg |= w[i] < 0; } Real g = 0; bool th = mc::throws([&] { g = WeightedMean(vec(v), vec(w)); }); ctx.check(th == (neg || k <= 0), "weighted-mean", nm, th); if (th) return; L m = s / k; ctx.check(bnear(g, m, 2e-15L * top(v)), "weighted-mean", nm, ": ", g);
	Real q = 0; th = mc::throws([&] { q = WeightedVariance(vec(v), vec(w)); }); ctx.check(th == (n < 2 || k <= 1), "weighted-variance-refusal", nm); if (!th) { L u = 0; for (int i = 0; i < n; i++) u += w[i] * (v[i] - m) * (v[i] - m); u /= k - 1; ctx.check(bnear(q, u, 1e-13L * u + 1e-15L * top(v) * sqrtl(u) + 1e-30L * top(v) * top(v)), "weighted-variance", nm, ": ", q, " expected ", (double)u); } ctx.nontrivial();
}
// every pair of samples
MC_SCENARIO(pairs, 3) {
	const T &t = TS[ctx.choose(5)], &u = TS[ctx.choose(3)]; int n = 2 + ctx.choose(ctx.thorough ? 4 : 3), k = n < 4 ? 4 : 3; V x = seq(ctx, n, k, t), y = seq(ctx, n, k, u); VR a = vec(x), b = vec(y); ctx.step(); std::string nm = ctx.cat(show(x), "/ ", show(y)); bool cx = constant(x), cy = constant(y); L c = cov(x, y), vx = cov(x, x), vy = cov(y, y);
	L tol = 1e-14L * sqrtl(vx * vy) + 1e-15L * (top(x) * sqrtl(vy) + top(y) * sqrtl(vx)) + 1e-30L * top(x) * top(y); ctx.check(bnear(Covariance(a, b), cx || cy ? 0 : c, cx || cy ? 0 : tol) || ((cx || cy) && std::fabs(Covariance(a, b)) <= tol), "covariance", nm, ": ", Covariance(a, b), " expected ", (double)c);
	Real r = 0; bool th = mc::throws([&] { r = PearsonCorrelation(a, b); }); ctx.check(th == (cx || cy), "pearson-constant", nm, th); bool skip = n < 3; L rr = 0; if (!th) { rr = c / sqrtl(vx * vy); L rt = 1e-13L + 1e-14L * (top(x) / sqrtl(vx) + top(y) / sqrtl(vy)); ctx.check(bnear(r, rr, rt), "pearson", nm, ": ", r, " expected ", (double)rr); ctx.check(std::fabs(r) <= 1, "pearson-range", nm, ": |r|-1=", std::fabs(r) - 1); ctx.check(bnear(RSquared(a, b), rr * rr, 2 * rt), "r2", nm); if (!skip) { auto q = PearsonCorrelationWithTest(a, b); ctx.check(q.r == r && q.degreesOfFreedom == n - 2, "pearson-test", nm); if (1 - rr * rr > 1e-6L) { L tt = rr * sqrtl((n - 2) / (1 - rr * rr)); ctx.check(bnear(q.tStatistic, tt, 1e-6L * (1 + fabsl(tt))), "pearson-t", nm, ": ", q.tStatistic); } else ctx.check(q.tStatistic * rr > 1e3, "pearson-t-large", nm, ": ", q.tStatistic); } }
	auto ranks = [](const V& v) { V o; for (Real q : v) { int lo = 0, eq = 0; for (Real w : v) { lo += w < q; eq += w == q; } o.push_back(lo + (eq + 1) / 2.0); } return o; }; Real s = 0; th = mc::throws([&] { s = SpearmanCorrelation(a, b); }); ctx.check(th == (cx || cy), "spearman-constant", nm); L rs = 0; if (!th) { V rx = ranks(x), ry = ranks(y); rs = cov(rx, ry) / sqrtl(cov(rx, rx) * cov(ry, ry)); ctx.check(bnear(s, rs, 1e-14L) && std::fabs(s) <= 1, "spearman", nm, ": ", s, " expected ", (double)rs); }
	int con = 0, dis = 0, tx = 0, ty = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { int p = (x[i] > x[j]) - (x[i] < x[j]), q = (y[i] > y[j]) - (y[i] < y[j]); if (p && q) (p == q ? con : dis)++; else if (q) tx++; else if (p) ty++; } L den = sqrtl((L)(con + dis + tx) * (con + dis + ty)), kt = den > 0 ? (con - dis) / den : 0; Real kd = KendallCorrelation(a, b); ctx.check(bnear(kd, kt, 1e-14L), "kendall", nm, ": ", kd, " expected ", (double)kt);
	if (!skip) { auto q = KendallCorrelationWithTest(a, b); L z = kt / sqrtl(2 * (2.0L * n + 5) / (9.0L * n * (n - 1))); ctx.check(q.n == n && q.rho == kd && bnear(q.zScore, z, 1e-13L), "kendall-z", nm); auto d = KendallCorrelationWithTestDetailed(a, b); ctx.check(d.IsSuccess() && d.rho == q.rho && d.zScore == q.zScore && d.n == n, "kendall-detailed", nm); auto e = KendallCorrelationDetailed(a, b); ctx.check(e.IsSuccess() && e.rho == kd && e.n == n, "kendall-detailed", nm); auto f = SpearmanCorrelationWithTestDetailed(a, b, CTS()); auto h = SpearmanCorrelationDetailed(a, b, CTS()); ctx.check(f.IsSuccess() == !th && h.IsSuccess() == !th, "spearman-detailed", nm); if (!th) { auto w = SpearmanCorrelationWithTest(a, b); ctx.check(w.rho == s && w.n == n && bnear(w.zScore, rs * sqrtl(n - 1), 1e-13L) && f.rho == s && f.zScore == w.zScore && f.n == n && h.rho == s && h.n == n, "spearman-test", nm); } }
	// matrices of two or three variables
	for (int p = 2; p <= 3; p++) { MML::Matrix<Real> m(n, p); std::vector<V> col = {x, y}; if (p == 3) { V z; for (int i = 0; i < n; i++) z.push_back(x[i] / t.s + i * i); col.push_back(z); } for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) m(i, j) = col[j][i]; auto C = CovarianceMatrix(m); ctx.check(C.rows() == p && C.cols() == p, "cov-size"); bool any = false; for (int i = 0; i < p; i++) { any |= constant(col[i]); for (int j = 0; j < p; j++) { L w = cov(col[i], col[j]), tl = 1e-14L * sqrtl(cov(col[i], col[i]) * cov(col[j], col[j])) + 1e-15L * (top(col[i]) * sqrtl(cov(col[j], col[j])) + top(col[j]) * sqrtl(cov(col[i], col[i]))) + 1e-30L * top(col[i]) * top(col[j]); ctx.check(bnear(C(i, j), w, tl) && C(i, j) == C(j, i), "cov-matrix", nm, i, ",", j, ": ", C(i, j)); } }
		MML::Matrix<Real> R(1, 1); bool tc = mc::throws([&] { R = CorrelationMatrix(m); }); ctx.check(tc == any, "corr-constant", nm); if (!tc) for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { L vi = cov(col[i], col[i]), vj = cov(col[j], col[j]), w = cov(col[i], col[j]) / sqrtl(vi * vj); ctx.check(bnear(R(i, j), w, 1e-13L + 1e-14L * (top(col[i]) / sqrtl(vi) + top(col[j]) / sqrtl(vj))), "corr-matrix", nm, i, ",", j, ": ", R(i, j)); ctx.check(std::fabs(R(i, j)) <= 1 + 1e-15, "corr-range", nm); } } ctx.nontrivial(); mc::Hash h; h.d(r).d(s).d(kd); ctx.state(h);
}
MC_SCENARIO(significance, 1) { int i = ctx.choose(60); Real z = (i - 30) * 0.15; static const Real A[] = {0.5, 0.2, 0.1, 0.05, 0.02, 0.01, 0.001, 1e-5}; Real al = A[ctx.choose(8)]; ctx.step(); boost::math::normal_distribution<L> b; L p = 2 * boost::math::cdf(boost::math::complement(b, fabsl(z))); RankCorrelationResult r{0.1, z, 20}; RankCorrelationDetailedResult d; d.zScore = z; if (fabsl(p - al) > 1e-3L * al) ctx.check(r.IsSignificant(al) == (p < al) && d.IsSignificant(al) == (p < al), "significant", "z=", z, " alpha=", al, " p=", (double)p); ctx.nontrivial(); }
// ---- tests
static L tp(L t, int df) { boost::math::students_t_distribution<L> b(df); return 2 * boost::math::cdf(boost::math::complement(b, fabsl(t))); }
static L tc(L a, int df) { boost::math::students_t_distribution<L> b(df); return boost::math::quantile(boost::math::complement(b, a / 2)); }
static const Real AL[] = {0.05, 0.01, 0.3, 1e-6};
template<class R, class Dt> static void same(mc::Ctx& ctx, const R& r, const Dt& d, const std::string& nm) { ctx.check(d.IsSuccess() && d.testStatistic == r.testStatistic && d.pValue == r.pValue && d.criticalValue == r.criticalValue && d.rejectNull == r.rejectNull && d.confidenceLevel == r.confidenceLevel && d.degreesOfFreedom == r.degreesOfFreedom && d.testName == r.testName, "detailed", nm); }
template<class R> static void verdict(mc::Ctx& ctx, const R& r, L stat, L p, L crit, int df, Real alpha, const std::string& nm, bool degenerate, bool differ, L rel = 1e-9L) {
	ctx.check(r.confidenceLevel == 1 - alpha && r.degreesOfFreedom == df, "df", nm, r.degreesOfFreedom); ctx.check(r.pValue >= 0 && r.pValue <= 1 && !std::isnan(r.testStatistic), "p-range", nm, "p=", r.pValue, " statistic=", r.testStatistic);
	if (degenerate) { ctx.check(r.rejectNull == differ, "degenerate", nm, "rejected: ", r.rejectNull); ctx.check(differ ? r.pValue == 0 && std::fabs(r.testStatistic) > 100 : r.pValue == 1 && r.testStatistic == 0, "degenerate-p", nm, "p=", r.pValue, " statistic=", r.testStatistic); return; }
	ctx.check(bnear(r.testStatistic, stat, rel * (1 + fabsl(stat))), "statistic", nm, ": ", r.testStatistic, " expected ", (double)stat); ctx.check(bnear(r.pValue, p, 1e-8L * p + 2e-11L + rel * p), "p", nm, ": ", r.pValue, " expected ", (double)p); ctx.check(bnear(r.criticalValue, crit, 1e-6L * crit), "critical", nm, ": ", r.criticalValue, " expected ", (double)crit); ctx.check(r.rejectNull == (fabsl((L)r.testStatistic) > r.criticalValue), "verdict", nm); if (fabsl(p - alpha) > 1e-5L * alpha) ctx.check(r.rejectNull == (p < alpha), "verdict-p", nm, "p=", (double)p, " alpha=", alpha);
}
// the verdict turns exactly where the significance level passes the p-value
template<class F> static void edge(mc::Ctx& ctx, F f, L p, const std::string& nm) { if (p < 1e-5L || p > 0.99L) return; ctx.check(f(Real(p * 1.001L)) && !f(Real(p * 0.999L)), "edge", nm, "p=", (double)p); }
static void interval(mc::Ctx& ctx, const ConfidenceInterval& c, L est, L margin, Real conf, const std::string& nm, L tol, bool clip = false) { L lo = est - margin, hi = est + margin; if (clip) { lo = std::max<L>(0, lo); hi = std::min<L>(1, hi); } ctx.check(bnear(c.estimate, est, tol) && bnear(c.marginOfError, margin, tol + 2e-6L * margin) && bnear(c.lowerBound, lo, 2 * tol + 2e-6L * margin) && bnear(c.upperBound, hi, 2 * tol + 2e-6L * margin) && c.confidenceLevel == conf, "interval", nm, ": ", c.estimate, " +- ", c.marginOfError, " [", c.lowerBound, ",", c.upperBound, "] expected ", (double)est, " +- ", (double)margin); }
static void sameCi(mc::Ctx& ctx, const ConfidenceInterval& c, const ConfidenceIntervalDetailedResult& d, const std::string& nm) { ctx.check(d.IsSuccess() && d.estimate == c.estimate && d.lowerBound == c.lowerBound && d.upperBound == c.upperBound && d.marginOfError == c.marginOfError && d.confidenceLevel == c.confidenceLevel && d.parameter == c.parameter, "ci-detailed", nm); }
MC_SCENARIO(t_tests, 3) {
	static const T TT[] = {{1, 0}, {0.1, 0.7}, {1e-9, 0}, {1e8, 3}}; const T& t = TT[ctx.choose(4)]; Real alpha = AL[ctx.choose(4)]; int n = 2 + ctx.choose(2), k = 2 + ctx.choose(2); V x = seq(ctx, n, 4, t), y = seq(ctx, k, n + k > 4 ? 3 : 4, t); ctx.step(); std::string nm = ctx.cat(show(x), "/ ", show(y), "alpha ", alpha, ": "); VR a = vec(x), b = vec(y); L m1 = mean(x), m2 = mean(y), v1 = constant(x) ? 0 : cov(x, x), v2 = constant(y) ? 0 : cov(y, y), M = std::max(top(x), top(y)), tol = 1e-13L * M; L cond = 1e-9L;
	Real mu = 0.5 * t.s + t.o; { bool dg = v1 == 0; if (dg) mu = ctx.flag() ? x[0] : mu; L s = dg ? 0 : (m1 - mu) / sqrtl(v1 / n); auto r = OneSampleTTest(a, mu, alpha); verdict(ctx, r, s, dg ? 0 : tp(s, n - 1), tc(alpha, n - 1), n - 1, alpha, "one-sample " + nm, dg, dg && x[0] != mu, cond); if (!dg) edge(ctx, [&](Real q) { return OneSampleTTest(a, mu, q).rejectNull; }, tp(s, n - 1), "one-sample " + nm); same(ctx, r, OneSampleTTestDetailed(a, mu, alpha), nm); auto c = ConfidenceIntervalMean(a, 1 - alpha); interval(ctx, c, m1, dg ? 0 : tc(alpha, n - 1) * sqrtl(v1 / n), 1 - alpha, "mean " + nm, tol); sameCi(ctx, c, ConfidenceIntervalMeanDetailed(a, 1 - alpha), nm); if (!dg && fabsl(tp(s, n - 1) - alpha) > 1e-5L * alpha) ctx.check(r.rejectNull == (mu < c.lowerBound || mu > c.upperBound), "duality", nm); }
	{ int df = n + k - 2; L pv = ((n - 1) * v1 + (k - 1) * v2) / df, se = sqrtl(pv * (1.0L / n + 1.0L / k)); bool dg = pv == 0; L s = dg ? 0 : (m1 - m2) / se; auto r = TwoSampleTTest(a, b, alpha); verdict(ctx, r, s, dg ? 0 : tp(s, df), tc(alpha, df), df, alpha, "two-sample " + nm, dg, dg && x[0] != y[0], cond); if (!dg) edge(ctx, [&](Real q) { return TwoSampleTTest(a, b, q).rejectNull; }, tp(s, df), "two-sample " + nm); same(ctx, r, TwoSampleTTestDetailed(a, b, alpha), nm); auto c = ConfidenceIntervalMeanDifference(a, b, 1 - alpha); interval(ctx, c, m1 - m2, dg ? 0 : tc(alpha, df) * se, 1 - alpha, "difference " + nm, tol); sameCi(ctx, c, ConfidenceIntervalMeanDifferenceDetailed(a, b, 1 - alpha), nm); }
	{ L e1 = v1 / n, e2 = v2 / k; bool dg = e1 + e2 == 0; L dfx = dg ? n + k - 2 : (e1 + e2) * (e1 + e2) / (e1 * e1 / (n - 1) + e2 * e2 / (k - 1)); int df = (int)floorl(dfx); auto r = WelchTTest(a, b, alpha); same(ctx, r, WelchTTestDetailed(a, b, alpha), nm); bool nearInt = fabsl(dfx - roundl(dfx)) < 1e-9L; if (nearInt && !dg) { df = r.degreesOfFreedom; ctx.check(fabsl(df - dfx) < 1.01L, "welch-df", nm, df); } if (dg) df = r.degreesOfFreedom; L s = dg ? 0 : (m1 - m2) / sqrtl(e1 + e2); ctx.check(df >= 1, "welch-df", nm, df); verdict(ctx, r, s, dg ? 0 : tp(s, df), tc(alpha, df), df, alpha, "welch " + nm, dg, dg && x[0] != y[0], cond); if (!dg) edge(ctx, [&](Real q) { return WelchTTest(a, b, q).rejectNull; }, tp(s, df), "welch " + nm); }
	if (n == k) { V d; for (int i = 0; i < n; i++) d.push_back(y[i] - x[i]); bool dg = constant(d); L m = mean(d), v = dg ? 0 : cov(d, d); bool noisy = !dg && sqrtl(v) < 1e-9L * M; if (!noisy) { L s = dg ? 0 : m / sqrtl(v / n); auto r = PairedTTest(a, b, alpha); verdict(ctx, r, s, dg ? 0 : tp(s, n - 1), tc(alpha, n - 1), n - 1, alpha, "paired " + nm, dg, dg && d[0] != 0, cond); same(ctx, r, PairedTTestDetailed(a, b, alpha), nm); auto c = ConfidenceIntervalPairedDifference(a, b, 1 - alpha); interval(ctx, c, m, dg ? 0 : tc(alpha, n - 1) * sqrtl(v / n), 1 - alpha, "paired " + nm, tol); sameCi(ctx, c, ConfidenceIntervalPairedDifferenceDetailed(a, b, 1 - alpha), nm); } } ctx.nontrivial();
}
MC_SCENARIO(chi_square, 2) {
	Real alpha = AL[ctx.choose(4)]; static const Real F[] = {0, 1, 3, 10, 2.5}; if (ctx.flag()) { int n = 2 + ctx.choose(3); V o, e; L so = 0, se = 0; for (int i = 0; i < n; i++) { o.push_back(F[ctx.choose(4)]); so += o.back(); } for (int i = 0; i < n; i++) { e.push_back(1 + (i * 7 % 3)); se += e.back(); } if (so == 0) { ctx.check(mc::throws([&] { ChiSquareGoodnessOfFit(vec(o), vec(e), alpha); }), "sum"); return; } for (auto& q : e) q = Real(q * so / se); ctx.step(); L s = 0; for (int i = 0; i < n; i++) s += (o[i] - (L)e[i]) * (o[i] - (L)e[i]) / e[i]; boost::math::chi_squared_distribution<L> b(n - 1); auto r = ChiSquareGoodnessOfFit(vec(o), vec(e), alpha); std::string nm = ctx.cat("fit ", show(o), "/ ", show(e), "alpha ", alpha); verdict(ctx, r, s, boost::math::cdf(boost::math::complement(b, s)), boost::math::quantile(boost::math::complement(b, (L)alpha)), n - 1, alpha, nm, false, false); edge(ctx, [&](Real q) { return ChiSquareGoodnessOfFit(vec(o), vec(e), q).rejectNull; }, boost::math::cdf(boost::math::complement(b, s)), nm); same(ctx, r, ChiSquareGoodnessOfFitDetailed(vec(o), vec(e), alpha), nm); V e2 = e; e2[0] *= 1.01; V o2 = o; o2[0] = -1; V e3 = e; e3[1] = 0; ctx.check(mc::throws([&] { ChiSquareGoodnessOfFit(vec(o), vec(e2), alpha); }) && mc::throws([&] { ChiSquareGoodnessOfFit(vec(o2), vec(e), alpha); }) && mc::throws([&] { ChiSquareGoodnessOfFit(vec(o), vec(e3), alpha); }), "fit-refusal", nm); ctx.nontrivial(); return; }
	int R = 2 + ctx.choose(2), C = R == 3 ? 2 : 2 + ctx.choose(2); MML::Matrix<Real> m(R, C); std::vector<L> rs(R), cs(C); L N = 0; V all; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { m(i, j) = F[ctx.choose(4)]; rs[i] += m(i, j); cs[j] += m(i, j); N += m(i, j); all.push_back(m(i, j)); } ctx.step(); std::string nm = ctx.cat(R, "x", C, " ", show(all), "alpha ", alpha); bool zero = false; for (L q : rs) zero |= q == 0; for (L q : cs) zero |= q == 0; HypothesisTestResult r; bool th = mc::throws([&] { r = ChiSquareIndependence(m, alpha); }); ctx.check(th == zero, "empty-row", nm, th); ctx.check(ChiSquareIndependenceDetailed(m, alpha, CTS()).IsSuccess() == !zero, "detailed-empty", nm); if (th) return;
	L s = 0; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { L e = rs[i] * cs[j] / N; s += (m(i, j) - e) * (m(i, j) - e) / e; } int df = (R - 1) * (C - 1); boost::math::chi_squared_distribution<L> b(df); verdict(ctx, r, s, boost::math::cdf(boost::math::complement(b, s)), boost::math::quantile(boost::math::complement(b, (L)alpha)), df, alpha, nm, false, false); edge(ctx, [&](Real q) { return ChiSquareIndependence(m, q).rejectNull; }, boost::math::cdf(boost::math::complement(b, s)), nm); same(ctx, r, ChiSquareIndependenceDetailed(m, alpha), nm); m(0, 0) = -1; ctx.check(mc::throws([&] { ChiSquareIndependence(m, alpha); }), "negative"); ctx.nontrivial();
}
MC_SCENARIO(anova, 2) {
	static const T TT[] = {{1, 0}, {0.1, 0.7}, {1e-9, 0}}; const T& t = TT[ctx.choose(3)]; Real alpha = AL[ctx.choose(3)]; int k = 2 + ctx.choose(2); std::vector<V> g; std::vector<VR> gv; int N = 0; L tot = 0; for (int i = 0; i < k; i++) { int n = 2 + (k == 2 ? ctx.choose(2) : i % 2); g.push_back(seq(ctx, n, k == 2 ? 4 : 2, t)); gv.push_back(vec(g.back())); N += n; for (Real q : g.back()) tot += q; } ctx.step(); std::string nm = "anova "; for (auto& q : g) nm += show(q) + "/ "; L gm = tot / N, B = 0, W = 0; bool zero = true, differ = false; for (auto& q : g) { L m = mean(q); B += q.size() * (m - gm) * (m - gm); if (!constant(q)) { zero = false; W += cov(q, q) * (q.size() - 1); } differ |= q[0] != g[0][0]; }
	int d1 = k - 1, d2 = N - k; L F = zero ? 0 : B / d1 / (W / d2); boost::math::fisher_f_distribution<L> b(d1, d2); auto r = OneWayANOVA(gv, alpha); verdict(ctx, r, F, zero ? 0 : boost::math::cdf(boost::math::complement(b, F)), boost::math::quantile(boost::math::complement(b, (L)alpha)), d1, alpha, nm, zero, differ, 1e-8L); if (!zero) edge(ctx, [&](Real q) { return OneWayANOVA(gv, q).rejectNull; }, boost::math::cdf(boost::math::complement(b, F)), nm); same(ctx, r, OneWayANOVADetailed(gv, alpha), nm); gv.pop_back(); gv.push_back(VR(1)); ctx.check(mc::throws([&] { OneWayANOVA(gv, alpha); }), "group-size"); gv.resize(1); ctx.check(mc::throws([&] { OneWayANOVA(gv, alpha); }), "one-group"); ctx.nontrivial();
}
MC_SCENARIO(proportions, 2) {
	static const Real CL[] = {0.9, 0.95, 0.99, 0.5}; Real cl = CL[ctx.choose(4)]; int n = 1 + ctx.choose(9), s = ctx.choose(n + 1); boost::math::normal_distribution<L> b; L z = boost::math::quantile(b, 1 - (1 - (L)cl) / 2); ctx.step(); L p = (L)s / n; auto c = ConfidenceIntervalProportion(s, n, cl); std::string nm = ctx.cat(s, "/", n, " at ", cl); interval(ctx, c, p, z * sqrtl(p * (1 - p) / n), cl, nm, 1e-9L, true); sameCi(ctx, c, ConfidenceIntervalProportionDetailed(s, n, cl), nm); ctx.check(c.lowerBound >= 0 && c.upperBound <= 1 && c.lowerBound <= c.upperBound, "bounds", nm); int k = 1 + ctx.choose(5), u = ctx.choose(k + 1); L q = (L)u / k; auto d = ConfidenceIntervalProportionDifference(s, n, u, k, cl); interval(ctx, d, p - q, z * sqrtl(p * (1 - p) / n + q * (1 - q) / k), cl, nm + " difference", 1e-9L); sameCi(ctx, d, ConfidenceIntervalProportionDifferenceDetailed(s, n, u, k, cl), nm);
	ctx.check(mc::throws([&] { ConfidenceIntervalProportion(n + 1, n, cl); }) && mc::throws([&] { ConfidenceIntervalProportion(-1, n, cl); }) && mc::throws([&] { ConfidenceIntervalProportion(0, 0, cl); }) && mc::throws([&] { ConfidenceIntervalProportion(s, n, 0); }) && mc::throws([&] { ConfidenceIntervalProportion(s, n, 1); }) && mc::throws([&] { ConfidenceIntervalProportionDifference(s, n, k + 1, k, cl); }) && mc::throws([&] { ConfidenceIntervalProportionDifference(s, 0, u, k, cl); }), "refusal", nm); ctx.nontrivial();
}
MC_SCENARIO(policies, 1) {
	bool prop = ctx.flag(); StatisticsConfig cfg; cfg.exception_policy = prop ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; VR a(1), g(3); a[0] = 1; g[0] = 1; g[1] = 2; g[2] = 4; int k = ctx.choose(8); ctx.step(); bool ok = true, thr = mc::throws([&] { auto f = [&](auto r) { ok = r.IsSuccess(); ctx.check(!ok && r.status == AlgorithmStatus::InvalidInput && !r.error_message.empty() && !r.algorithm_name.empty(), "status", k); };
		if (k == 0) f(OneSampleTTestDetailed(a, 0, 0.05, cfg)); else if (k == 1) f(TwoSampleTTestDetailed(a, g, 0.05, cfg)); else if (k == 2) f(WelchTTestDetailed(g, g, 1.5, cfg)); else if (k == 3) f(PairedTTestDetailed(g, a, 0.05, cfg)); else if (k == 4) f(ChiSquareGoodnessOfFitDetailed(g, a, 0.05, cfg)); else if (k == 5) f(ConfidenceIntervalMeanDetailed(g, 1.0, cfg)); else if (k == 6) f(SpearmanCorrelationDetailed(g, a, cfg)); else f(KendallCorrelationWithTestDetailed(a, a, cfg)); }); ctx.check(thr == prop, "policy", k, prop); ctx.nontrivial();
}
