// Polynomials: exact arithmetic over small-integer coefficients against an index-level reference
#include "mc.h"
#include <complex>
#include <map>
#include <sstream>
#include "mml/base/Polynom.h"
#include "mml/base/ChebyshevPolynom.h"
using namespace MML; typedef std::vector<long long> L; typedef Polynom<Real> P;
static P mk(const L& a) { std::vector<Real> v; for (auto x : a) v.push_back((Real)x); return P(v); }
static L trim(L a) { while (!a.empty() && !a.back()) a.pop_back(); return a; }
static long long ev(const L& a, long long x) { long long s = 0, p = 1; for (auto c : a) { s += c * p; p *= x; } return s; }
static L mul(const L& a, const L& b) { L o(a.empty() || b.empty() ? 0 : a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) o[i + j] += a[i] * b[j]; return o; }
static L add(const L& a, const L& b, int s) { L o(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); i++) o[i] += a[i]; for (size_t i = 0; i < b.size(); i++) o[i] += s * b[i]; return o; }
static std::string sh(const L& a) { std::string s = "{"; for (auto x : a) s += std::to_string(x) + ","; return s + "}"; }
// value equality as polynomials: every coefficient exact, missing ones zero
static bool same(const P& p, const L& a) { for (int i = 0; i <= std::max(p.degree(), (int)a.size()); i++) if (p.coeff(i) != (i < (int)a.size() ? (Real)a[i] : 0.0)) return false; return true; }
static L any(mc::Ctx& ctx, int maxlen, int lo, int hi) { int n = ctx.choose(maxlen + 1); L a; for (int i = 0; i < n; i++) a.push_back(ctx.range(lo, hi)); return a; }
MC_SCENARIO(pairs, 4) {
	int big = ctx.thorough; L a = any(ctx, 5, -1 - big, 2), b = any(ctx, 3, -1, 2); P p = mk(a), q = mk(b), p0 = p, q0 = q;
	ctx.check(same(p + q, add(a, b, 1)) && same(p - q, add(a, b, -1)), "add", sh(a), sh(b)); P pr = p * q; ctx.check(same(pr, mul(a, b)), "multiply", sh(a), " * ", sh(b)); ctx.check(same(-p, add({}, a, -1)), "negate", sh(a));
	bool eq = trim(a) == trim(b); ctx.check((p == q) == eq && (p != q) == !eq && p.IsEqual(q) == eq && p.IsEqualTo(q) == eq && p.IsEqualTo(q, 3.5), "equal", sh(a), " ", sh(b)); for (int s = -2; s <= 3; s++) { L c = a; for (auto& x : c) x *= s; L e = a.empty() ? L{0} : a; e[0] += s; L f = a.empty() ? L{0} : a; f[0] -= s; L g = add({}, a, -1); if (g.empty()) g = {0}; g[0] += s; double sc = s; ctx.check(same(p * sc, c) && same(sc * p, c), "scalar", sh(a), " * ", s); ctx.check(same(p + sc, e) && same(sc + p, e) && same(p - sc, f) && same(sc - p, g), "scalar", sh(a), " +- ", s); if (s == 2) { P h = p / 2.0; for (size_t i = 0; i < a.size(); i++) ctx.check(h.coeff(i) == a[i] / 2.0, "scalar", "/2"); } }
	for (int x = -3; x <= 3; x++) { ctx.check(p(x) == ev(a, x) && p.eval(x) == ev(a, x), "eval", sh(a), " at ", x); ctx.check(pr(x) == (double)ev(a, x) * ev(b, x), "multiply", "value at ", x); PolynomRealFunc f(p); ctx.check(f(x) == ev(a, x), "eval", "as function"); }
	if (!trim(b).empty()) { P quo, rem; quo = mk({9, 9, 9, 9, 9, 9, 9}); P::poldiv(p, q, quo, rem); P back = quo * q + rem; L tb = trim(b); int dr = rem.degree(); while (dr >= 0 && rem[dr] == 0) dr--; ctx.check(dr < (int)tb.size() - 1, "division", sh(a), " by ", sh(b), ": remainder of degree ", dr); for (int i = 0; i <= std::max(back.degree(), (int)a.size()); i++) ctx.check(mc::near_abs(back.coeff(i), i < (int)a.size() ? (double)a[i] : 0, 1e-12), "division", sh(a), " by ", sh(b), ": quotient*divisor+remainder differs at ", i, ": ", back.coeff(i)); P pa = p, pq, prr; P::poldiv(pa, q, pa, prr); P::poldiv(p, q, pq, prr); ctx.check(pa == quo && pq == quo && prr == rem, "division", "aliased quotient"); P pb = p, q2; P::poldiv(pb, q, q2, pb); ctx.check(q2 == quo && pb == rem, "division", "aliased remainder"); P self, sr; P::poldiv(q, q, self, sr); ctx.check(same(self, {1}) && same(sr, {}), "division", "by itself"); }
	else { P x1 = mk({1, 2}), x2 = mk({3}); ctx.check(mc::throws([&] { P::poldiv(p, q, x1, x2); }), "division", "by zero accepted"); ctx.check(same(x1, {1, 2}) && same(x2, {3}), "division", "refused call changed its results"); }
	ctx.check(p == p0 && q == q0, "operands", "changed"); ctx.state(mc::Hash().s(sh(a)).s(sh(b))); ctx.outcome(mc::Hash().s(sh(trim(mul(a, b))))); ctx.nontrivial();
}
MC_SCENARIO(single, 3) { // accessors, degree, derivative and integral of every small polynomial
	L a = any(ctx, ctx.thorough ? 6 : 5, -2, 2); P p = mk(a); int n = a.size(); ctx.check(p.degree() == n - 1 && p.isNull() == (n == 0) && p.leadingTerm() == (n ? a.back() : 0) && p.constantTerm() == (n ? a[0] : 0) && p.coeff(-1) == 0 && p.coeff(n) == 0 && (int)p.coefficients().size() == n, "access", sh(a)); int k = 0; for (Real c : p) ctx.check(c == a[k++], "access", "iteration");
	L d; for (int i = 1; i < n; i++) d.push_back(i * a[i]); ctx.check(same(p.derivative(), d) && p.derivative().degree() <= std::max(n - 2, -1), "derivative", sh(a)); P in = p.integral(); ctx.check(in.coeff(0) == 0 && in.derivative().degree() <= n - 1, "integral", sh(a)); for (int i = 0; i < n; i++) ctx.check(mc::near(in.coeff(i + 1), a[i] / (i + 1.0), 1e-15), "integral", sh(a), " at ", i); for (int i = 0; i <= n; i++) ctx.check(mc::near_abs(in.derivative().coeff(i), i < n ? (double)a[i] : 0, 1e-14), "integral", "derivative of the integral");
	P r = p; r.Reduce(); ctx.check(same(r, a) && r.degree() == (int)trim(a).size() - 1, "reduce", sh(a)); P r1 = p; r1.Reduce(1.5); L t = a; while (!t.empty() && std::llabs(t.back()) < 2) t.pop_back(); ctx.check(same(r1, t) && r1.degree() == (int)t.size() - 1, "reduce", sh(a), " with threshold"); P sd = p; sd.SetDegree(2); ctx.check(sd.degree() == 2, "reduce", "SetDegree"); for (int i = 0; i < 3; i++) ctx.check(sd[i] == p.coeff(i), "reduce", "SetDegree");
	for (int x : {-2, 0, 1, 3}) for (int m = 0; m < 7; m++) { Vector<Real> pd(m + 1); for (int i = 0; i <= m; i++) pd[i] = 77; p.Derive(x, pd); L c = a; for (int i = 0; i <= m; i++) { ctx.check(pd[i] == ev(c, x), "derivative", sh(a), " derivative ", i, " of ", m, " at ", x, ": ", pd[i], " instead of ", ev(c, x)); L e; for (size_t j = 1; j < c.size(); j++) e.push_back(j * c[j]); c = e; } }
	PolynomComplex pc; { std::vector<Complex> v; for (auto x : a) v.push_back(Complex(x, 1 - x)); pc = PolynomComplex(v); } PolynomComplexRealCoef pm(std::vector<Real>(a.begin(), a.end())); for (Complex z : {Complex(0, 1), Complex(2, -1), Complex(-1, 0)}) { Complex s = 0, m = 0, w = 1; for (int i = 0; i < n; i++) { s += Complex(a[i], 1 - a[i]) * w; m += (Real)a[i] * w; w *= z; } ctx.check(pc(z) == s && pm(z) == m, "eval", "complex"); } { auto sq = pc * pc; Complex s = pc(Complex(1, 2)); ctx.check(std::abs(sq(Complex(1, 2)) - s * s) < 1e-9 * (1 + std::norm(s)), "multiply", "complex"); }
	ctx.state(mc::Hash().s(sh(a))); ctx.outcome(mc::Hash().s(sh(d))); ctx.nontrivial();
}
MC_SCENARIO(printing, 3) { // printed text reads back as the same polynomial and leaves the stream format alone
	L a = any(ctx, ctx.thorough ? 6 : 5, -2, 2); int prec = ctx.pick({6, 0, 3}); bool fl = ctx.flag(); double sc = prec == 3 ? 1.625 : 1; P p = mk(a) * sc; std::ostringstream o; o.precision(9); if (fl) o << std::scientific << std::showpos; auto f0 = o.flags(); if (prec == 6) o << p; else p.Print(o, 10, prec); ctx.check(o.flags() == f0 && o.precision() == 9 && o.width() == 0, "stream-state", "precision ", o.precision()); std::string s = o.str();
	if (!fl) { if (prec == 6) ctx.check(p.to_string() == s, "print", "to_string differs"); std::map<int, double> got; std::string t; for (char c : s) if (c != ' ') t += c; size_t i = 0; while (i < t.size()) { double sg = 1; if (t[i] == '+' || t[i] == '-') sg = t[i++] == '-' ? -1 : 1; char* e; double v = std::isdigit(t[i]) ? std::strtod(t.c_str() + i, &e) : 1; if (std::isdigit(t[i])) i = e - t.c_str(); int d = 0; if (i < t.size() && t[i] == 'x') { d = 1; i++; if (i < t.size() && t[i] == '^') { d = std::strtol(t.c_str() + i + 1, &e, 10); i = e - t.c_str(); } } else if (i < t.size() && t[i] != '+' && t[i] != '-') ctx.fail("print", "cannot read " + s); ctx.check(!got.count(d), "print", "power ", d, " twice in ", s); got[d] = sg * v; }
		for (int d = 0; d < 8; d++) ctx.check(mc::near_abs(got[d], d < (int)a.size() ? a[d] * sc : 0, 1e-9), "print", sh(a), " * ", sc, " printed as \"", s, "\""); }
	ctx.state(mc::Hash().s(sh(a)).u(prec).u(fl)); ctx.outcome(mc::Hash().s(s)); ctx.nontrivial();
}
MC_SCENARIO(interpolating, 3) { // the polynomial through n points is the unique one of degree < n
	int n = ctx.range(1, ctx.thorough ? 5 : 4); std::vector<Real> x, y; L xs; bool dup = false; for (int i = 0; i < n; i++) { int v = ctx.range(-2, 2); for (auto w : xs) dup = dup || w == v; xs.push_back(v); x.push_back(v); y.push_back(0); } std::vector<int> ys; for (int i = 0; i < n; i++) ys.push_back(ctx.range(0, n < 4 ? 2 : 1)); for (int i = 0; i < n; i++) y[i] = ys[i] - 1;
	if (dup) ctx.check(mc::throws([&] { (void)P::FromValues(x, y); }), "interpolate", "repeated abscissa accepted"); else { P p = P::FromValues(x, y); ctx.check(p.degree() <= n - 1, "interpolate", "degree"); for (int i = 0; i < n; i++) ctx.check(mc::near_abs(p(x[i]), y[i], 1e-11), "interpolate", "value at ", x[i], " is ", p(x[i]), " not ", y[i]); y.push_back(0); ctx.check(mc::throws([&] { (void)P::FromValues(x, y); }), "interpolate", "size mismatch accepted"); }
	ctx.state(mc::Hash().s(sh(xs)).s(sh(L(ys.begin(), ys.end())))); ctx.outcome(mc::Hash().u(dup).u(n)); ctx.nontrivial();
}
MC_SCENARIO(special, 2) {
	int n = ctx.range(-2, ctx.thorough ? 30 : 12), xi = ctx.range(-4, 4); double x = xi / 2.0; if (n < 0) { ctx.check(mc::throws([&] { (void)ChebyshevT(n, x); }) && mc::throws([&] { (void)ChebyshevU(n, x); }), "chebyshev", "negative order accepted"); if (n == -1) ctx.check(P::Monomial(-1).isNull() || same(P::Monomial(-1), {}), "factories", "Monomial(-1)"); ctx.nontrivial(); ctx.state(mc::Hash().u(n + 9).u(xi + 9)); ctx.outcome(mc::Hash().u(n + 9)); return; }
	// explicit power sums T_n = n/2 sum (-1)^k (n-k-1)!/(k!(n-2k)!) (2x)^(n-2k), via integer coefficient recurrence
	std::vector<L> T = {{1}, {0, 1}}, U = {{1}, {0, 2}}; for (int k = 2; k <= n; k++) { T.push_back(add(mul({0, 2}, T[k - 1]), T[k - 2], -1)); U.push_back(add(mul({0, 2}, U[k - 1]), U[k - 2], -1)); } auto val = [&](const L& c) { long double s = 0; for (int i = (int)c.size() - 1; i >= 0; i--) s = s * x + c[i]; return (double)s; }; ctx.check(mc::near(ChebyshevT(n, x), val(T[n]), 1e-10), "chebyshev", "T", n, "(", x, ") = ", ChebyshevT(n, x)); ctx.check(mc::near(ChebyshevU(n, x), val(U[n]), 1e-10), "chebyshev", "U", n, "(", x, ") = ", ChebyshevU(n, x)); if (std::fabs(x) <= 1) ctx.check(mc::near_abs(ChebyshevT(n, x), std::cos(n * std::acos(x)), 1e-11), "chebyshev", "cosine form");
	L m(n + 1, 0); m[n] = 1; ctx.check(same(P::Monomial(n), m) && P::Monomial(n).degree() == n, "factories", "Monomial"); ctx.check(P(n).degree() == n && same(P(n), {}), "factories", "zero of degree n"); ctx.check(same(P::Constant(x), {}) == (x == 0) && P::Constant(x)(5) == x && P::Zero()(x) == 0 && P::Linear(3, -1)(x) == 3 * x - 1, "factories", ""); ctx.state(mc::Hash().u(n + 9).u(xi + 9)); ctx.outcome(mc::Hash().d(ChebyshevT(n, x))); ctx.nontrivial();
}
