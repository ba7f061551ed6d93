// Polynomial roots: closed forms up to degree 4 and the iterative finders, against polynomials built from known roots
// mc-flags: -O2
#include "mc.h"
#include <complex>
#include "mml/algorithms/RootFinding/RootFindingPolynoms.h"
using namespace MML; typedef std::complex<double> Z; typedef std::complex<long double> LZ; typedef long double LD;
// a root pattern: real roots and conjugate pairs from small grids; coefficients are exact
struct Pat { std::vector<Z> r; std::vector<double> c; };
static std::vector<double> coefs(const std::vector<Z>& r, double lead) { std::vector<LZ> p = {LZ(lead)}; for (Z q : r) { std::vector<LZ> n(p.size() + 1, LZ(0)); for (size_t i = 0; i < p.size(); i++) { n[i + 1] += p[i]; n[i] -= LZ(q) * p[i]; } p = n; } std::vector<double> c; for (auto x : p) c.push_back((double)x.real()); return c; }
static Pat pattern(mc::Ctx& ctx, int deg, double lead, const std::vector<double>& re, const std::vector<Z>& cz) { Pat p; int last = 0, lastc = 0; bool inC = false; while ((int)p.r.size() < deg) { bool canPair = deg - (int)p.r.size() >= 2; int nr = inC ? 0 : (int)re.size() - last, nc = canPair ? (int)cz.size() - lastc : 0; if (nr + nc == 0) ctx.prune(); int k = ctx.choose(nr + nc); if (k < nr) { last += k; p.r.push_back(re[last]); } else { if (!inC && (deg - (int)p.r.size()) % 2) { ctx.prune(); } inC = true; lastc += k - nr; p.r.push_back(cz[lastc]); p.r.push_back(std::conj(cz[lastc])); } } p.c = coefs(p.r, lead); return p; }
static double mult(const Pat& p, size_t i, double rad) { int m = 0; for (auto& q : p.r) m += std::abs(q - p.r[i]) <= rad; return m; }
// largest distance in the best matching of two small multisets (greedy from the most isolated is enough for well separated clusters; exact by permutation up to 6)
static double matchDist(std::vector<Z> a, const std::vector<Z>& b, const std::vector<double>& tol) { int n = a.size(); if ((int)b.size() != n) return INFINITY; std::vector<int> own(n, -1); // bipartite feasibility: a[i] may serve b[j] when within tol[j]
	struct K { static bool aug(int j, int n, const std::vector<Z>& a, const std::vector<Z>& b, const std::vector<double>& tol, std::vector<int>& own, std::vector<char>& seen) { for (int i = 0; i < n; i++) if (!seen[i] && std::abs(a[i] - b[j]) <= tol[j]) { seen[i] = 1; if (own[i] < 0 || aug(own[i], n, a, b, tol, own, seen)) { own[i] = j; return true; } } return false; } };
	for (int j = 0; j < n; j++) { std::vector<char> seen(n); if (!K::aug(j, n, a, b, tol, own, seen)) { double d = INFINITY; for (auto& x : a) d = std::min(d, std::abs(x - b[j])); return d == 0 ? INFINITY : std::isnan(d) ? INFINITY : d; } } return 0; }
static std::string str(const std::vector<Z>& v) { std::string s; char z[80]; for (auto& x : v) { snprintf(z, 80, "(%.9g,%.9g) ", x.real(), x.imag()); s += z; } return s; }
static void verify(mc::Ctx& ctx, const char* what, const Pat& p, const std::vector<Z>& got, double base, const char* key) { double big = 1; for (auto& q : p.r) big = std::max(big, std::abs(q)); std::vector<double> tol; for (size_t i = 0; i < p.r.size(); i++) { double m = mult(p, i, 1e-9 * big); double sep = INFINITY; for (auto& q : p.r) if (std::abs(q - p.r[i]) > 1e-9 * big) sep = std::min(sep, std::abs(q - p.r[i]) / big); (void)sep; tol.push_back(big * 6 * std::pow(base, 1 / m)); } double d = matchDist(got, p.r, tol); ctx.check(d == 0, key, what, ": roots ", str(p.r), "got ", str(got)); }
static const std::vector<double> RE = {-3, -2, -1, 0, 0.5, 1, 2, 5}; static const std::vector<Z> CZ = {{0, 1}, {0, 2}, {1, 1}, {-1, 2}, {-0.5, 0.5}, {3, 0.5}};
static mc::Hash hp(const Pat& p, int f) { mc::Hash h; h.u(f); for (double c : p.c) h.d(c); return h; }
MC_SCENARIO(quadratic, 3) {
	double lead = ctx.pick({1.0, -2.0, 0.25, 1e6, 1e-6}); std::vector<double> re = RE; for (double x : {1e-4, 1e4, -1e6, 1.0 / 3}) re.push_back(x); int k = ctx.choose(2); Pat p = k ? pattern(ctx, 2, lead, {}, {{0, 1}, {0, 2}, {1, 1}, {-1, 2}, {-0.5, 0.5}, {3, 0.5}, {1e3, 1e-2}, {1e-3, 50}}) : pattern(ctx, 2, lead, re, {});
	Complex x1(9, 9), x2(9, 9); int n = SolveQuadratic(p.c[2], p.c[1], p.c[0], x1, x2); double a = std::abs(p.r[0]), b = std::abs(p.r[1]), rel = 1e-13; bool dbl = p.r[0] == p.r[1]; if (dbl) ctx.check(std::abs(x1 - p.r[0]) <= 1e-7 * (1e-300 + a) && std::abs(x2 - p.r[0]) <= 1e-7 * (1e-300 + a), "quadratic", "double root ", str(p.r), " got ", str({x1, x2})); else { (void)b; double t0 = std::abs(p.r[0]) * rel, t1 = std::abs(p.r[1]) * rel; double cond = (a + b) / std::abs(p.r[0] - p.r[1]); t0 *= cond * 4; t1 *= cond * 4; bool ok = (std::abs(x1 - p.r[0]) <= t0 && std::abs(x2 - p.r[1]) <= t1) || (std::abs(x2 - p.r[0]) <= t0 && std::abs(x1 - p.r[1]) <= t1); ctx.check(ok, "quadratic", "roots ", str(p.r), " lead ", lead, " got ", str({x1, x2})); }
	ctx.check(n == (k ? 0 : 2) || (dbl && n >= 0), "quadratic-count", "real roots reported ", n, " for ", str(p.r)); Complex y1, y2; SolveQuadratic(Complex(p.c[2]), Complex(p.c[1]), Complex(p.c[0]), y1, y2); double big = std::max(a, b); ctx.check(matchDist({y1, y2}, p.r, std::vector<double>(2, (dbl ? 1e-7 : 1e-10) * big + 1e-300)) == 0, "quadratic-complex", "roots ", str(p.r), " got ", str({y1, y2}));
	ctx.state(hp(p, 2)); ctx.outcome(mc::Hash().u(n).d(x1.real())); ctx.nontrivial(); }
MC_SCENARIO(quadratic_complex, 3) { // any complex roots and leading coefficient
	int re1 = ctx.range(-3, 3), im1 = ctx.range(-3, 3), re2 = ctx.range(-3, 3), im2 = ctx.range(-2, 3); Z a = ctx.pick(std::vector<Z>{{1, 0}, {0, 1}, {-2, 0.5}, {1e5, 1e5}}); Z r1(re1, im1), r2(re2, im2); Complex x1, x2; SolveQuadratic(a, -a * (r1 + r2), a * r1 * r2, x1, x2); ctx.check(matchDist({x1, x2}, {r1, r2}, std::vector<double>(2, r1 == r2 ? 2e-7 : 1e-12)) == 0, "quadratic-complex", str({r1, r2}), " got ", str({x1, x2})); Complex l1, l2; SolveQuadratic(Z(0), a, -a * r1, l1, l2); ctx.check(std::abs(l1 - r1) < 1e-12, "degenerate", "linear"); ctx.state(mc::Hash().d(re1).d(im1).d(re2).d(im2).d(a.real())); ctx.outcome(mc::Hash().d(x1.real()).d(x1.imag())); ctx.nontrivial(); }
MC_SCENARIO(cubic, 3) { double lead = ctx.pick({1.0, -2.0, 0.25, 1e5}); double sc = ctx.pick({1.0, 1e-3, 1e3, 1.0 / 3}); std::vector<double> re = RE; std::vector<Z> cz = CZ; for (auto& x : re) x *= sc; for (auto& x : cz) x *= sc; Pat p = pattern(ctx, 3, lead, re, cz); Complex x[3]; int n = SolveCubic(p.c[3], p.c[2], p.c[1], p.c[0], x[0], x[1], x[2]); verify(ctx, "cubic", [&] { Pat q = p; for (auto& r : q.r) r /= sc; return q; }(), {x[0] / sc, x[1] / sc, x[2] / sc}, 1e-14, "cubic"); int real = 0; bool rep = false; for (size_t i = 0; i < 3; i++) { real += p.r[i].imag() == 0; rep = rep || mult(p, i, 1e-12 * sc) > 1; } if (!rep) ctx.check(n == real, "cubic-count", "reported ", n, " real roots of ", str(p.r)); else ctx.check(n == 1 || n == 3, "cubic-count", n); if (n == 1 && !rep) ctx.check(std::fabs(x[0].imag()) == 0, "cubic-count", "first root not the real one"); ctx.state(hp(p, 3)); ctx.outcome(mc::Hash().u(n).d(x[0].real())); ctx.nontrivial(); }
MC_SCENARIO(quartic, 3) { double lead = ctx.pick({1.0, -2.0, 0.25}); double sc = ctx.thorough ? ctx.pick({1.0, 1e-3, 1e3, 1.0 / 3}) : ctx.pick({1.0, 1.0 / 3}); std::vector<double> re = RE; std::vector<Z> cz = CZ; for (auto& x : re) x *= sc; for (auto& x : cz) x *= sc; Pat p = pattern(ctx, 4, lead, re, cz); Complex x[4]; SolveQuartic(p.c[4], p.c[3], p.c[2], p.c[1], p.c[0], x[0], x[1], x[2], x[3]); Pat q = p; for (auto& r : q.r) r /= sc; verify(ctx, "quartic", q, {x[0] / sc, x[1] / sc, x[2] / sc, x[3] / sc}, 1e-13, "quartic"); ctx.state(hp(p, 4)); ctx.outcome(mc::Hash().d(x[0].real()).d(x[1].imag())); ctx.nontrivial(); }
MC_SCENARIO(degenerate, 3) { // zero leading coefficients: the lower-degree equation
	int a = ctx.range(-2, 2), b = ctx.range(-2, 2), c = ctx.range(-2, 2); Complex x1, x2, x3, x4, y1, y2, y3; int n2 = SolveQuadratic(0.0, (double)a, (double)b, x1, x2); if (a) ctx.check(n2 == 1 && std::abs(x1 - Z(-b / (double)a)) < 1e-14, "degenerate", "linear"); else ctx.check(n2 == 0, "degenerate", "constant ", n2); if (a) { SolveCubic(0.0, a, b, c, x1, x2, x3); SolveQuadratic((double)a, (double)b, (double)c, y1, y2); ctx.check(std::abs(x1 - y1) < 1e-12 && std::abs(x2 - y2) < 1e-12, "degenerate", "cubic without leading term"); SolveQuartic(0.0, a, b, c, 1, x1, x2, x3, x4); SolveCubic(a, b, c, 1, y1, y2, y3); ctx.check(std::abs(x1 - y1) < 1e-12 && std::abs(x2 - y2) < 1e-12 && std::abs(x3 - y3) < 1e-12, "degenerate", "quartic without leading term"); } ctx.state(mc::Hash().d(a).d(b).d(c)); ctx.outcome(mc::Hash().d(x1.real())); ctx.nontrivial(); }
static std::vector<Z> tov(const Vector<Complex>& v) { std::vector<Z> r; for (int i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
static PolynomReal poly(const std::vector<double>& c) { return PolynomReal(c); }
MC_SCENARIO(iterative, 3) {
	int deg = ctx.range(1, ctx.thorough ? 7 : 5); double lead = ctx.pick({1.0, -2.0, 0.25}); std::vector<double> re = RE; std::vector<Z> cz = CZ; if (deg >= 5) { re = {-2, -1, 0, 1, 3}; cz = {{0, 1}, {1, 1}, {-1, 2}}; } Pat p = pattern(ctx, deg, lead, re, cz); auto P = poly(p.c); int mx = 1; for (size_t i = 0; i < p.r.size(); i++) mx = std::max(mx, (int)mult(p, i, 1e-9));
	std::vector<Z> L; std::string w; bool tl = mc::throws([&] { L = tov(RootFinding::LaguerreRoots(P)); }, &w); bool sym = false; { int n = 0; for (Z q : {Z(0, 0), Z(1, 0), Z(0, 1), Z(1, 1)}) for (auto& r : p.r) if (r == q) { n++; break; } sym = n == 4; } /* the fixed start 0.5+0.5i is a symmetry centre: an honest failure */ ctx.check(!tl || sym, "laguerre", "failed on ", str(p.r), w); if (!tl) verify(ctx, "Laguerre", p, L, mx > 3 ? 1e-8 : mx > 1 ? 1e-9 : 1e-11, "laguerre");
	std::vector<Z> E; bool te = mc::throws([&] { E = tov(RootFinding::EigenvalueRoots(P)); }, &w); ctx.check(!te, "eigenvalue", "failed on ", str(p.r), w); if (!te) verify(ctx, "EigenvalueRoots", p, E, mx > 2 ? 1e-8 : 1e-9, "eigenvalue");
	std::vector<Z> B; bool tb = mc::throws([&] { B = tov(RootFinding::BairstowRoots(P)); }, &w); if (!tb) verify(ctx, "Bairstow", p, B, mx > 1 ? 1e-9 : 1e-9, "bairstow"); if (deg <= 2 && mx == 1) ctx.check(!tb, "bairstow", "failed on ", str(p.r), w); Vector<Complex> g; for (auto& q : L) g.push_back(q + 1e-3); 
	ctx.state(hp(p, deg)); ctx.outcome(mc::Hash().u(tb).u(tl).d(L.empty() ? 0 : L[0].real())); ctx.nontrivial(); }
MC_SCENARIO(iterative_degenerate, 2) { // constants, empty and padded polynomials: no invented roots
	std::vector<double> c; int n = ctx.range(0, 3); for (int i = 0; i < n; i++) c.push_back(ctx.range(-1, 1)); int pad = ctx.choose(3); int d = n - 1; while (d >= 0 && c[d] == 0) d--; for (int i = 0; i < pad; i++) c.push_back(0); auto P = poly(c); for (int m = 0; m < 3; m++) { std::vector<Z> r; bool t = mc::throws([&] { r = tov(m == 0 ? RootFinding::LaguerreRoots(P) : m == 1 ? RootFinding::EigenvalueRoots(P) : RootFinding::BairstowRoots(P)); }); if (t) continue; static const char* nm[] = {"Laguerre", "Eigenvalue", "Bairstow"}; if (d <= 0) { if (d == 0 || c.size() <= 1) ctx.check(r.empty(), "invented", nm[m], " gives ", r.size(), " roots of a constant with ", c.size(), " coefficients: ", str(r)); continue; } for (auto& x : r) { Z v = 0; for (int i = d; i >= 0; i--) v = v * x + c[i]; ctx.check(std::abs(v) < 1e-4, "invented", nm[m], " degree ", d, " padded to ", c.size(), ": ", str(r)); } ctx.check((int)r.size() == d, "invented", nm[m], " gives ", r.size(), " roots at degree ", d, " with ", c.size(), " coefficients"); } ctx.state([&] { mc::Hash h; for (double x : c) h.d(x); return h.u(c.size()); }()); ctx.outcome(mc::Hash().u(d + 1)); ctx.nontrivial(); }
