// C41: probability distributions against independent reference implementations
// mc-flags: -O1
#include "mc.h"
#include "mml/MMLBase.h"
#include "mml/algorithms/Statistics/Distributions.h"
#include <boost/math/distributions.hpp>
#include <functional>
using namespace MML; using namespace MML::Statistics; namespace bm = boost::math; typedef long double L;
typedef bm::policies::policy<bm::policies::overflow_error<bm::policies::user_error>, bm::policies::domain_error<bm::policies::user_error>, bm::policies::evaluation_error<bm::policies::ignore_error>, bm::policies::underflow_error<bm::policies::ignore_error>, bm::policies::denorm_error<bm::policies::ignore_error>> Pol;
namespace boost { namespace math { namespace policies { template<class T> T user_overflow_error(const char*, const char*, const T&) { return std::numeric_limits<T>::infinity(); } template<class T> T user_domain_error(const char*, const char*, const T&) { return std::numeric_limits<T>::quiet_NaN(); } } } }
static const L INF = std::numeric_limits<L>::infinity();
struct D { std::string name; std::function<Real(Real)> pdf, cdf, inv; std::function<Real()> mean, var; std::function<L(L)> rpdf, rcdf, rccdf, rinv; L rmean, rvar; bool hasMean = true, hasVar = true; L lo = -INF, hi = INF; L scale = 1; int inv0 = 0; /* 0 refuses p=0 and 1, 1 returns the ends, 2 p=0 only */ std::function<Real(Real)> crit, tail; int tails = 0; bool throwsBelow = false; };
template<class M, class B> static D mk(std::string n, M m, B b, L scale) { D d; d.name = n; d.pdf = [m](Real x) { return m.pdf(x); }; d.cdf = [m](Real x) { return m.cdf(x); }; d.rpdf = [b](L x) -> L { try { return bm::pdf(b, x); } catch (...) { return NAN; } }; d.rcdf = [b](L x) { return bm::cdf(b, x); }; d.rccdf = [b](L x) { return bm::cdf(bm::complement(b, x)); }; d.rinv = [b](L p) -> L { try { return bm::quantile(b, p); } catch (...) { return NAN; } }; d.scale = scale; return d; }
#define INV(d, m) d.inv = [m](Real p) { return m.inverseCdf(p); }
#define MOM(d, m, b) d.mean = [m]() { return m.mean(); }; d.var = [m]() { return m.variance(); }; d.rmean = d.hasMean ? bm::mean(b) : 0; d.rvar = d.hasVar ? bm::variance(b) : 0
typedef bm::normal_distribution<L, Pol> BN; typedef bm::students_t_distribution<L, Pol> BT; typedef bm::chi_squared_distribution<L, Pol> BX; typedef bm::fisher_f_distribution<L, Pol> BF; typedef bm::cauchy_distribution<L, Pol> BC; typedef bm::exponential_distribution<L, Pol> BE; typedef bm::logistic_distribution<L, Pol> BL; typedef bm::uniform_distribution<L, Pol> BU; typedef bm::gamma_distribution<L, Pol> BG; typedef bm::beta_distribution<L, Pol> BB; typedef bm::weibull_distribution<L, Pol> BW; typedef bm::pareto_distribution<L, Pol> BP; typedef bm::lognormal_distribution<L, Pol> BLN;
static const std::vector<int> DF = [] { std::vector<int> v; for (int i = 1; i <= 40; i++) v.push_back(i); for (int i : {60, 99, 100, 101, 299, 1000, 5001, 20000}) v.push_back(i); return v; }();
static const Real SC[] = {1, 1e-6, 250, 3e7}, LO[] = {0, -2.5, 1000}, SH[] = {1, 0.5, 2, 3.7, 0.05, 20, 0.9, 1.1, 0.25, 8, 150.5, 5000};
static D make(mc::Ctx& ctx) {
	int k = ctx.choose(13); switch (k) {
	case 0: { Real s = SC[ctx.choose(4)], m = LO[ctx.choose(3)]; NormalDistribution n(m, s); BN b(m, s); D d = mk(ctx.cat("normal(", m, ",", s, ")"), n, b, s); INV(d, n); MOM(d, n, b); return d; }
	case 1: { int f = DF[ctx.choose(48)]; TDistribution t(f); BT b(f); D d = mk(ctx.cat("t(", f, ")"), t, b, 1); d.hasMean = f > 1; d.hasVar = f > 2; INV(d, t); MOM(d, t, b); d.crit = [t](Real a) { return t.criticalValue(a); }; d.tail = [t](Real x) { return t.twoTailedPValue(x); }; d.tails = 2; return d; }
	case 2: { int f = DF[ctx.choose(48)]; ChiSquareDistribution c(f); BX b(f); D d = mk(ctx.cat("chi2(", f, ")"), c, b, f); MOM(d, c, b); d.lo = 0; d.crit = [c](Real a) { return c.criticalValue(a); }; d.tail = [c](Real x) { return c.rightTailPValue(x); }; d.tails = 1; return d; }
	case 3: { int f = DF[ctx.choose(46)], g = DF[ctx.choose(46)]; FDistribution c(f, g); BF b(f, g); D d = mk(ctx.cat("F(", f, ",", g, ")"), c, b, 1); d.hasMean = g > 2; d.hasVar = g > 4; MOM(d, c, b); d.lo = 0; d.crit = [c](Real a) { return c.criticalValue(a); }; d.tail = [c](Real x) { return c.rightTailPValue(x); }; d.tails = 1; return d; }
	case 4: { Real s = SC[ctx.choose(4)], m = LO[ctx.choose(3)]; CauchyDistribution n(m, s); BC b(m, s); D d = mk(ctx.cat("cauchy(", m, ",", s, ")"), n, b, s); INV(d, n); return d; }
	case 5: { Real s = SC[ctx.choose(4)]; ExponentialDistribution n(s); BE b(s); D d = mk(ctx.cat("exponential(", s, ")"), n, b, 1 / (L)s); INV(d, n); MOM(d, n, b); d.lo = 0; d.inv0 = 2; d.throwsBelow = true; return d; }
	case 6: { Real s = SC[ctx.choose(4)], m = LO[ctx.choose(3)]; LogisticDistribution n(m, s); BL b(m, s); D d = mk(ctx.cat("logistic(", m, ",", s, ")"), n, b, s); INV(d, n); MOM(d, n, b); return d; }
	case 7: { Real s = SC[ctx.choose(4)], m = LO[ctx.choose(3)]; UniformDistribution n(m, m + s); BU b(m, m + s); D d = mk(ctx.cat("uniform(", m, ",", m + s, ")"), n, b, s); INV(d, n); MOM(d, n, b); d.lo = m; d.hi = m + s; d.inv0 = 1; return d; }
	case 8: { Real s = SC[ctx.choose(4)], k2 = SH[ctx.choose(12)]; GammaDistribution n(k2, s); BG b(k2, s); D d = mk(ctx.cat("gamma(", k2, ",", s, ")"), n, b, s * (L)k2); INV(d, n); MOM(d, n, b); d.lo = 0; d.inv0 = 1; return d; }
	case 9: { Real a = SH[ctx.choose(12)], c = SH[ctx.choose(12)]; BetaDistribution n(a, c); BB b(a, c); D d = mk(ctx.cat("beta(", a, ",", c, ")"), n, b, 1); INV(d, n); MOM(d, n, b); d.lo = 0; d.hi = 1; d.inv0 = 1; return d; }
	case 10: { Real s = SC[ctx.choose(4)], k2 = SH[ctx.choose(10)]; WeibullDistribution n(k2, s); BW b(k2, s); D d = mk(ctx.cat("weibull(", k2, ",", s, ")"), n, b, s); INV(d, n); MOM(d, n, b); d.lo = 0; d.inv0 = 1; return d; }
	case 11: { Real s = SC[ctx.choose(4)], k2 = SH[ctx.choose(12)]; ParetoDistribution n(k2, s); BP b(s, k2); D d = mk(ctx.cat("pareto(", k2, ",", s, ")"), n, b, s); d.hasMean = k2 > 1; d.hasVar = k2 > 2; INV(d, n); MOM(d, n, b); d.lo = s; d.inv0 = 1; L S = s, K = k2; d.rpdf = [S, K](L x) { return x < S ? 0 : K / x * expl(K * logl(S / x)); }; return d; }
	default: { static const Real S[] = {1, 0.05, 3}; Real s = S[ctx.choose(3)], m = S[ctx.choose(3)] - 1; LogNormalDistribution n(m, s); BLN b(m, s); D d = mk(ctx.cat("lognormal(", m, ",", s, ")"), n, b, expl(m)); INV(d, n); MOM(d, n, b); d.lo = 0; d.inv0 = 1; Real md = n.median(); ctx.check(std::fabs(md - std::exp(m)) <= 1e-14 * md, "median", d.name); return d; }
	}
}
static const L PG[] = {1e-12L, 1e-9L, 1e-6L, 1e-4L, 1e-3L, 0.01L, 0.024L, 0.0245L, 0.05L, 0.1L, 0.25L, 0.4L, 0.5L, 0.6L, 0.75L, 0.9L, 0.95L, 0.975L, 0.976L, 0.99L, 0.999L, 0.9999L, 0.999999L};
// values at quantiles and between
MC_SCENARIO(values, 3) {
	D d = make(ctx); { mc::Hash h; h.s(d.name); ctx.state(h); } int n = 23; std::vector<Real> xs; for (int i = 0; i < n; i++) { L x = d.rinv(PG[i]); if (std::isfinite((Real)x) && (Real)x > d.lo && (Real)x < d.hi) xs.push_back(x); } int m = xs.size(); for (int i = 0; i + 1 < m; i++) xs.push_back((xs[i] + xs[i + 1]) / 2); std::sort(xs.begin(), xs.end()); if (d.lo == -INF) { xs.insert(xs.begin(), xs[0] - Real(1000 * d.scale)); xs.push_back(xs.back() + Real(1000 * d.scale)); }
	Real last = 0; for (Real x : xs) { ctx.step(); Real p = d.pdf(x), c = d.cdf(x); L rp = d.rpdf(x), rc = d.rcdf(x); L cond = 1 + fabsl(logl(std::max<L>(fabsl(rp), 1e-300L))); (void)cond;
		ctx.check(std::isfinite(p) && fabsl(p - rp) <= 1e-9L * fabsl(rp) + 1e-290L, "pdf", d.name, " at ", x, ": ", p, " expected ", (double)rp); ctx.check(c >= 0 && c <= 1 && fabsl(c - rc) <= 2e-11L, "cdf", d.name, " at ", x, ": ", c, " expected ", (double)rc); ctx.check(c >= last - 1e-12, "monotone", d.name, " at ", x); last = c;
		if (d.tails) { L q = d.rccdf(d.tails == 2 ? fabsl(x) : x) * d.tails; Real t = d.tail(x); ctx.check(t >= 0 && t <= 1 + 1e-15 && fabsl(t - q) <= 4e-11L, "p-value", d.name, " at ", x, ": ", t, " expected ", (double)q); } } ctx.nontrivial();
}
// outside and at the ends of the support, and far away
MC_SCENARIO(ends, 3) {
	D d = make(ctx); { mc::Hash h; h.s(d.name); ctx.state(h); } Real I = INFINITY; if (d.hi == INF) { for (Real x : {I, Real(1e300)}) { ctx.check(d.cdf(x) == 1 || (x != I && std::fabs(d.cdf(x) - (Real)d.rcdf(x)) < 1e-11), "cdf-far", d.name, " at ", x, ": ", d.cdf(x)); Real p = d.pdf(x); ctx.check(p >= 0 && p <= 1e-10, "pdf-far", d.name, " at ", x, ": ", p); if (d.tail) ctx.check(d.tail(x) >= 0 && d.tail(x) <= 1e-10 + 3 * (x == I ? 0 : (Real)d.rccdf(x)), "p-far", d.name); } }
	if (d.lo == -INF) for (Real x : {-I, Real(-1e300)}) { ctx.check(std::fabs(d.cdf(x)) < 1e-15, "cdf-low", d.name, " at ", x, ": ", d.cdf(x)); Real p = d.pdf(x); ctx.check(p >= 0 && p <= 1e-10, "pdf-low", d.name, " at ", x, ": ", p); }
	else { Real lo = d.lo; for (Real x : {lo - Real(d.scale), Real(-1e300)}) { if (d.throwsBelow) { ctx.check(mc::throws([&] { (void)d.pdf(x); }) && mc::throws([&] { (void)d.cdf(x); }), "below", d.name); } else ctx.check(d.pdf(x) == 0 && d.cdf(x) == 0, "below", d.name, " at ", x); }
		ctx.check(d.cdf(lo) == 0, "cdf-at-end", d.name, ": ", d.cdf(lo)); L eps = d.scale * 1e-9L; if (d.lo > 0 && d.name[0] == 'p') eps *= 1e-3L; L near = d.rpdf(d.lo + eps), nearer = d.rpdf(d.lo + eps * 1e-3L); Real p = d.pdf(lo); if (near > 3 * d.rpdf(d.lo + eps * 3) || nearer > 1.03L * near) { if (nearer > 1.05L * near) ctx.check(p == I, "pdf-at-end", d.name, ": ", p, " where the density is unbounded"); } else if (nearer < 0.9L * near) ctx.check(p == 0, "pdf-at-end", d.name, ": ", p); else ctx.check(fabsl(p - nearer) <= 1e-3L * nearer, "pdf-at-end", d.name, ": ", p, " expected ", (double)nearer); }
	if (d.hi < INF) { Real hi = d.hi; ctx.check(d.cdf(hi) == 1 && d.cdf(hi + 1) == 1 && d.pdf(hi + Real(d.scale)) == 0, "above", d.name); L eps = 1e-9L * d.scale, near = d.rpdf(d.hi - eps), nearer = d.rpdf(d.hi - eps * 1e-3L); Real p = d.pdf(hi); if (nearer > 1.05L * near) ctx.check(p == I, "pdf-at-top", d.name, ": ", p); else if (nearer < 0.9L * near) ctx.check(p == 0, "pdf-at-top", d.name, ": ", p); else if (fabsl(nearer - near) < 1e-3L * near) ctx.check(fabsl(p - nearer) <= 1e-3L * nearer, "pdf-at-top", d.name, ": ", p); } ctx.nontrivial();
	if (d.mean) { if (d.hasMean) ctx.check(fabsl(d.mean() - d.rmean) <= 1e-12L * fabsl(d.rmean) + 1e-300L, "mean", d.name, ": ", d.mean()); else ctx.check(mc::throws([&] { (void)d.mean(); }), "no-mean", d.name); if (d.hasVar) ctx.check(fabsl(d.var() - d.rvar) <= 1e-9L * fabsl(d.rvar), "variance", d.name, ": ", d.var(), " expected ", (double)d.rvar); else ctx.check(mc::throws([&] { (void)d.var(); }), "no-variance", d.name); }
}
// quantiles
MC_SCENARIO(quantiles, 3) {
	D d = make(ctx); { mc::Hash h; h.s(d.name); ctx.state(h); } if (!d.inv && !d.crit) ctx.prune(); Real last = -INFINITY; bool slack = false; for (L p : PG) { ctx.step();
		if (d.inv) { Real pp = p, x = d.inv(pp); ctx.check(std::isfinite(x) && x >= d.lo && x <= d.hi && x >= last, "quantile", d.name, " p=", (double)p, ": ", x); last = x; L c = d.rcdf(x), t = std::min<L>(pp, 1 - (L)pp), err = pp > 0.5 ? fabsl(d.rccdf(x) - (1 - (L)pp)) : fabsl(c - pp); L tol = 2e-7L * t + 2e-12L; L ulp = d.rpdf(x) * std::fabs(x) * 4e-16L; (void)slack; if (std::isfinite((Real)d.rinv(pp)) && std::fabs((Real)d.rinv(pp)) > 1e-300 && (Real)d.rinv(pp) < d.hi) ctx.check(err <= tol + ulp || (d.rcdf(x - 4e-16L * std::fabs(x)) <= pp + tol && d.rcdf(std::min(d.hi, x + 4e-16L * std::fabs(x))) >= pp - tol), "quantile", d.name, " p=", (double)p, ": ", x, " expected ", (double)d.rinv(pp), " error in p ", (double)err); }
		if (d.crit && p < 0.9999L) { Real a = p, x = d.crit(a); L q = d.tails * d.rccdf(x); ctx.check(std::isfinite(x) && x >= 0 && fabsl(q - p) <= 2e-7L * p + (d.tails == 2 ? 1e-11L : 4e-12L), "critical", d.name, " alpha=", (double)p, ": ", x, " has tail ", (double)q); } }
	for (Real bad : {Real(-0.1), Real(1.1)}) { if (d.inv0 == 1 && d.inv && d.name[0] != 'u') continue; if (d.inv) ctx.check(mc::throws([&] { (void)d.inv(bad); }), "quantile-range", d.name, " ", bad); }
	if (d.crit) for (Real bad : {Real(0), Real(1), Real(-1)}) ctx.check(mc::throws([&] { (void)d.crit(bad); }), "critical-range", d.name, " ", bad);
	if (d.inv) { if (d.inv0 == 0) ctx.check(mc::throws([&] { (void)d.inv(0); }) && mc::throws([&] { (void)d.inv(1); }), "quantile-ends", d.name); if (d.inv0 >= 1) ctx.check(d.inv(0) == (Real)d.lo, "quantile-0", d.name); if (d.inv0 == 1) ctx.check(d.inv(1) == (Real)d.hi, "quantile-1", d.name); if (d.inv0 == 2) ctx.check(mc::throws([&] { (void)d.inv(1); }), "quantile-1", d.name); } ctx.nontrivial();
}
MC_SCENARIO(parameters, 1) {
	static const Real V[] = {0, -1, 1}; Real a = V[ctx.choose(3)], b = V[ctx.choose(3)]; ctx.step(); auto T = [](auto f) { return mc::throws(f); }; std::string nm = ctx.cat(a, ",", b);
	ctx.check(T([&] { NormalDistribution(a, b); }) == (b <= 0), "normal", nm); ctx.check(T([&] { CauchyDistribution(a, b); }) == (b <= 0), "cauchy", nm); ctx.check(T([&] { LogisticDistribution(a, b); }) == (b <= 0), "logistic", nm); ctx.check(T([&] { LogNormalDistribution(a, b); }) == (b <= 0), "lognormal", nm); ctx.check(T([&] { UniformDistribution(a, b); }) == (b <= a), "uniform", nm);
	ctx.check(T([&] { GammaDistribution(a, b); }) == (a <= 0 || b <= 0), "gamma", nm); ctx.check(T([&] { BetaDistribution(a, b); }) == (a <= 0 || b <= 0), "beta", nm); ctx.check(T([&] { WeibullDistribution(a, b); }) == (a <= 0 || b <= 0), "weibull", nm); ctx.check(T([&] { ParetoDistribution(a, b); }) == (a <= 0 || b <= 0), "pareto", nm); ctx.check(T([&] { ExponentialDistribution e(a); (void)e; }) == (a <= 0), "exponential", nm);
	ctx.check(T([&] { TDistribution t((int)a); (void)t; }) == (a < 1), "t", nm); ctx.check(T([&] { ChiSquareDistribution t((int)a); (void)t; }) == (a < 1), "chi2", nm); ctx.check(T([&] { FDistribution((int)a, (int)b); }) == (a < 1 || b < 1), "F", nm); ctx.nontrivial();
}
MC_SCENARIO(normal_scores, 1) {
	int i = ctx.choose(41); Real z = (i - 20) * 0.4; ctx.step(); BN b(0, 1); ctx.check(fabsl(StandardNormal::pdf(z) - bm::pdf(b, (L)z)) <= 1e-14L, "pdf", z); ctx.check(fabsl(StandardNormal::cdf(z) - bm::cdf(b, (L)z)) <= 1e-15L, "cdf", z); ctx.check(fabsl(StandardNormal::sf(z) - bm::cdf(bm::complement(b, (L)z))) <= 1e-15L, "sf", z); ctx.check(fabsl(StandardNormal::twoTailedPValue(z) - 2 * bm::cdf(bm::complement(b, fabsl(z)))) <= 1e-15L, "two-tailed", z);
	Real p = (i + 0.5) / 41; ctx.check(fabsl(StandardNormal::inverseCdf(p) - bm::quantile(b, (L)p)) <= 5e-9L, "inverse", p); for (Real m : {-3.0, 0.0, 1e6}) for (Real s : {1e-3, 1.0, 50.0}) { NormalDistribution n(m, s); Real x = n.fromZScore(z); ctx.check(std::fabs(x - (m + s * z)) <= 1e-12 * (std::fabs(m) + s), "from-z", z); ctx.check(std::fabs(n.zScore(m + s * z) - z) <= 1e-12 * (1 + std::fabs(m) / s), "z", z); ctx.check(n.stddev() == s && n.mean() == m && std::fabs(n.variance() - s * s) < 1e-14 * s * s, "moments", m, " ", s); } ctx.check(TDistribution(3).sf(0) == 0.5, "t-sf"); ctx.nontrivial();
}
