// C49: orthogonal polynomials, expansions, Chebyshev approximation, standard functions.
// mc-flags: -O1
#include "base/StandardFunctions.h"
#include "MMLBase.h"
#include "base/Function.h"
#include "base/DiracDeltaFunction.h"
#include "core/OrthogonalBasis/ChebyshevBasis.h"
#include "core/OrthogonalBasis/HermiteBasis.h"
#include "core/OrthogonalBasis/LaguerreBasis.h"
#include "core/OrthogonalBasis/LegendreBasis.h"
#include "algorithms/ChebyshevApproximation.h"
#include "../mc/mc.h"
using namespace MML;
typedef long double LD;
typedef std::vector<LD> V;
static const LD PIL = 3.14159265358979323846264338327950288L;
static LD gammaL(LD x) { return std::tgamma(x); }
static LD binom(LD n, int k) { LD r = 1; for (int i = 0; i < k; i++) r *= (n - i) / (k - i); return r; }
static LD horner(const V& c, LD x) { LD r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
static LD sizeAt(const V& c, LD x) { LD r = 0, p = 1; for (auto v : c) { r += std::abs(v) * p; p *= std::abs(x); } return r; }
static V axpy(LD s, const V& a, LD t, const V& b) { V r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); i++) r[i] += s * a[i]; for (size_t i = 0; i < b.size(); i++) r[i] += t * b[i]; return r; }
static V der(V c) { if (c.size() <= 1) return {0}; V r; for (size_t i = 1; i < c.size(); i++) r.push_back(i * c[i]); return r; }

enum Kind { T, U, P, H, HE, L, LA, KINDS };
static const char* NAMES[] = {"Chebyshev T", "Chebyshev U", "Legendre", "Hermite", "probabilist Hermite", "Laguerre", "associated Laguerre"};
// power series by explicit sums
static V series(Kind k, int n, LD al = 0) {
  V c(n + 1, 0);
  for (int m = 0; 2 * m <= n && k != L && k != LA; m++) {
    LD s = m % 2 ? -1 : 1;
    if (k == T) c[n - 2 * m] = n == 0 ? 1 : s * n / 2.0L * gammaL(n - m) / (gammaL(m + 1) * gammaL(n - 2 * m + 1)) * std::pow(2.0L, n - 2 * m);
    if (k == U) c[n - 2 * m] = s * binom(n - m, m) * std::pow(2.0L, n - 2 * m);
    if (k == P) c[n - 2 * m] = s * binom(n, m) * binom(2 * n - 2 * m, n) / std::pow(2.0L, n);
    if (k == H) c[n - 2 * m] = s * gammaL(n + 1) / (gammaL(m + 1) * gammaL(n - 2 * m + 1)) * std::pow(2.0L, n - 2 * m);
    if (k == HE) c[n - 2 * m] = s * gammaL(n + 1) / (gammaL(m + 1) * gammaL(n - 2 * m + 1) * std::pow(2.0L, m));
  }
  if (k == L || k == LA) for (int m = 0; m <= n; m++) c[m] = (m % 2 ? -1 : 1) * binom(n + al, n - m) / gammaL(m + 1);
  return c;
}
static LD moment(Kind k, int p, LD al = 0) {
  bool odd = p % 2;
  if (k == L) return gammaL(p + 1); if (k == LA) return gammaL(p + al + 1);
  if (odd) return 0;
  int j = p / 2;
  if (k == T) return PIL * binom(2 * j, j) / std::pow(4.0L, j);
  if (k == U) return PIL / 2 * binom(2 * j, j) / (j + 1) / std::pow(4.0L, j);
  if (k == P) return 2.0L / (p + 1);
  if (k == H) return gammaL((p + 1) / 2.0L);
  return std::sqrt(2.0L) * std::pow(2.0L, j) * gammaL((p + 1) / 2.0L);
}
struct B {
  Kind k; Real al; ChebyshevBasis t; ChebyshevBasisSecondKind u; LegendreBasis p; HermiteBasis h; ProbabilistHermiteBasis e; LaguerreBasis l; std::unique_ptr<AssociatedLaguerreBasis> a;
  B(Kind kind, Real alpha) : k(kind), al(alpha) { if (k == LA) a.reset(new AssociatedLaguerreBasis(alpha)); }
#define EACH(call) switch (k) { case T: return t.call; case U: return u.call; case P: return p.call; case H: return h.call; case HE: return e.call; case L: return l.call; default: return a->call; }
  Real eval(int n, Real x) { EACH(Evaluate(n, x)) }
  Real weight(Real x) { EACH(WeightFunction(x)) }
  Real norm(int n) { EACH(Normalization(n)) }
  Real lo() { EACH(DomainMin()) }
  Real hi() { EACH(DomainMax()) }
  bool rec(int n, Real& x, Real& y, Real& z) { switch (k) { case T: t.RecurrenceCoefficients(n, x, y, z); break; case U: u.RecurrenceCoefficients(n, x, y, z); break; case P: p.RecurrenceCoefficients(n, x, y, z); break; case H: h.RecurrenceCoefficients(n, x, y, z); break; case HE: return false; case L: l.RecurrenceCoefficients(n, x, y, z); break; default: a->RecurrenceCoefficients(n, x, y, z); } return true; }
  OrthogonalBasis* base() { return k == T ? (OrthogonalBasis*)&t : k == P ? (OrthogonalBasis*)&p : k == H ? (OrthogonalBasis*)&h : k == L ? (OrthogonalBasis*)&l : nullptr; }
};
static Real alphaOf(mc::Ctx& ctx, Kind k) { return k == LA ? ctx.pick({0.0, 1.0, 0.5, 3.0, -0.5, 5.0}) : 0; }

MC_SCENARIO(bases, 1) {
  Kind k = (Kind)ctx.choose(KINDS); Real al = alphaOf(ctx, k); int n = ctx.choose(ctx.thorough ? 17 : 13);
  B b(k, al); V c = series(k, n, al), cn = series(k, n + 1, al); ctx.step(); if (n > 1) ctx.nontrivial();
  bool inf = k == H || k == HE, half = k == L || k == LA;
  std::string id = mc::Ctx::cat(NAMES[k], " ", n, k == LA ? mc::Ctx::cat(" alpha ", al) : "");
  for (int i = 0; i <= 24; i++) {
    Real x = half ? i * 0.5 : inf ? (i - 12) * 0.25 : (i - 12) / 8.0;      // Chebyshev and Legendre also outside of [-1,1], where defined
    if (k == P && std::abs(x) > 1) continue;
    LD e = horner(c, x);
    ctx.check(std::abs(b.eval(n, x) - e) <= 2e-14L * sizeAt(c, x), "value", id, " at ", x, " is ", b.eval(n, x), " expected ", (double)e);
    Real p, q, r;
    if (b.rec(n, p, q, r) && (n > 0 || k != T)) { LD nx = (p * (LD)x + q) * b.eval(n, x) + (n ? r * (LD)b.eval(n - 1, x) : 0); ctx.check(std::abs(nx - horner(cn, x)) <= 2e-13L * (sizeAt(cn, x) + sizeAt(c, x)), "recurrence", id, " at ", x); }
    LD w = k == T ? (std::abs(x) < 1 ? 1 / std::sqrt(1 - (LD)x * x) : -1) : k == U ? (std::abs(x) < 1 ? std::sqrt(1 - (LD)x * x) : -1) : k == P ? 1 : k == H ? std::exp(-(LD)x * x) : k == HE ? std::exp(-(LD)x * x / 2) : std::pow((LD)x, (LD)al) * std::exp(-(LD)x);
    if (w >= 0 && std::isfinite((double)w)) ctx.check(std::abs(b.weight(x) - w) <= 1e-14L * w, "weight", id, " at ", x);
  }
  ctx.check((half ? b.lo() == 0 && std::isinf(b.hi()) && b.hi() > 0 : inf ? std::isinf(b.lo()) && b.lo() < 0 && std::isinf(b.hi()) && b.hi() > 0 : b.lo() == -1 && b.hi() == 1), "domain", id);
  // orthogonality and norms from exact moments; the values above tie the series to the implementation
  for (int m = 0; m <= n && n <= 8; m++) {
    V d = series(k, m, al); LD s = 0, sz = 0;
    for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) { LD v = c[i] * d[j] * moment(k, i + j, al); s += v; sz += std::abs(v); }
    if (m == n) ctx.check(std::abs(b.norm(n) - s) <= 1e-12L * std::abs(s) + 1e-17L * sz, "norm", id, " is ", b.norm(n), " expected ", (double)s);
    else ctx.check(std::abs(s) <= 1e-16L * sz, "orthogonal", id, " and ", m);
  }
  ctx.check(mc::throws([&] { b.eval(-1 - n, 0.5); }) && mc::throws([&] { b.norm(-1 - n); }), "negative-degree", id);
  { Real p, q, r; ctx.check(k == HE || mc::throws([&] { b.rec(-1 - n, p, q, r); }), "negative-recurrence", id); }
  if (k == LA) ctx.check(b.a->Alpha() == al && mc::throws([&] { AssociatedLaguerreBasis z(-1.0 - n); }), "alpha", id);
  mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(high_degrees, 1) {
  int n = ctx.pick({50, 100, 170, 171, 200, 400}); Real al = ctx.pick({0.0, 2.0, -0.5}); ctx.step(); ctx.nontrivial();
  AssociatedLaguerreBasis a(al);
  LD e = std::exp(std::lgamma(n + al + 1.0L) - std::lgamma(n + 1.0L));
  ctx.check(std::abs(a.Normalization(n) - e) <= 1e-10L * e, "high-laguerre-norm", "degree ", n, " alpha ", al, " norm ", a.Normalization(n), " expected ", (double)e);
  HermiteBasis h; LD s = 0, t = 0, edge = 0; const LD st = 0.03125L;
  for (int i = -1600; i <= 1600; i++) { Real x = (Real)(i * st); LD v = h.QuantumWavefunction(n, x), w = h.QuantumWavefunction(n - 2, x); s += v * v * st; t += v * w * st; if (std::abs(i) == 1600) edge = std::max(edge, std::abs(v)); }
  ctx.check(std::abs(s - 1) < 1e-8L && std::abs(t) < 1e-8L && edge < 1e-8L, "high-wavefunction", "degree ", n, " norm ", (double)s, " product ", (double)t);
  for (Real x : {0.3, -0.7}) { ctx.check(std::abs(ChebyshevT(n, x) - std::cos(n * std::acos((LD)x))) < 1e-11L * n, "high-chebyshev", n, " at ", x); ctx.check(std::abs(ChebyshevU(n, x) - std::sin((n + 1) * std::acos((LD)x)) / std::sqrt(1 - (LD)x * x)) < 1e-10L * n, "high-chebyshev-u", n, " at ", x); }
  mc::Hash q; q.u(n); q.d(al); ctx.state(q);
}
MC_SCENARIO(wavefunctions, 1) {
  int n = ctx.choose(13); HermiteBasis h; V c = series(H, n); LD f = 1 / std::sqrt(std::pow(2.0L, n) * gammaL(n + 1) * std::sqrt(PIL)); ctx.step(); if (n) ctx.nontrivial();
  for (int i = -20; i <= 20; i++) { Real x = i * 0.2; LD g = std::exp(-(LD)x * x / 2); ctx.check(std::abs(h.QuantumWavefunction(n, x) - f * horner(c, x) * g) <= 1e-13L * f * sizeAt(c, x) * g + 1e-15L, "wavefunction", n, " at ", x); }
  ctx.check(mc::throws([&] { h.QuantumWavefunction(-1 - n, 0.0); }), "wavefunction-negative", n);
  mc::Hash q; q.u(n); ctx.state(q);
}
MC_SCENARIO(associated_legendre, 1) {
  int m = ctx.choose(6), l = ctx.choose(8); AssociatedLegendreBasis b(m); ctx.step();
  std::string id = mc::Ctx::cat("l=", l, " m=", m);
  ctx.check(b.Order() == m && b.DomainMin() == -1 && b.DomainMax() == 1 && mc::throws([&] { AssociatedLegendreBasis z(-1 - m); }), "order", id);
  if (l < m) { ctx.check(mc::throws([&] { b.Evaluate(l, 0.5); }), "below-order", id); return; }
  ctx.nontrivial(); V c = series(P, l); for (int i = 0; i < m; i++) c = der(c);
  int sign = 0; bool ok = true;
  for (int i = -8; i <= 8; i++) { Real x = i / 8.0; LD f = std::pow(1 - (LD)x * x, m / 2.0L), e = f * horner(c, x), v = b.Evaluate(l, x), tol = 1e-12L * (f * sizeAt(c, x) + 1e-3L);
    if (std::abs(std::abs(v) - std::abs(e)) > tol) ok = false;
    if (std::abs(e) > 1e-6L) { int sg = v * e > 0 ? 1 : -1; if (sign && sg != sign) ok = false; sign = sg; } }
  ctx.check(ok && (sign >= 0 || m % 2 == 1), "associated-legendre", id);      // with or without the phase (-1)^m
  mc::Hash q; q.u(m); q.u(l); ctx.state(q);
}
MC_SCENARIO(coefficients, 1) {
  Kind k = ctx.pick({T, P, H, L}); int n = ctx.choose(ctx.thorough ? 9 : 7), f = ctx.choose(10); B b(k, 0); ctx.step(); ctx.nontrivial();
  LD e = 0, scale = 1; std::function<Real(Real)> fn; std::string id = mc::Ctx::cat(NAMES[k], " ", n, " of function ", f);
  if (f < 6) { fn = [f](Real x) { return std::pow(x, f); }; V c = series(k, n); LD s = 0, nn = 0, sz = 0; for (int i = 0; i <= n; i++) { LD v = c[i] * moment(k, i + f); s += v; sz += std::abs(v); for (int j = 0; j <= n; j++) nn += c[i] * c[j] * moment(k, i + j); } e = s / nn; if (std::abs(s) < 1e-15L * sz) e = 0; scale = std::max<LD>(1, sz / nn); }
  else if (f == 6) { fn = [](Real) { return 2.5; }; e = n == 0 ? 2.5L : 0; }
  else if (f == 7) { int m = 3; fn = [&b, m](Real x) { return b.eval(m, x); }; e = n == m; scale = k == L ? 10 : 10; }
  else if (f == 8) {    // generating functions
    if (k == T) { fn = [](Real x) { return std::exp(x); }; e = (n ? 2 : 1) * (LD)std::cyl_bessel_i((double)n, 1.0); }
    else if (k == P) { fn = [](Real x) { return 1 / std::sqrt(1.25 - x); }; e = std::pow(0.5L, n); }
    else if (k == H) { fn = [](Real x) { return std::exp(x - 0.25); }; e = std::pow(0.5L, n) / gammaL(n + 1); }
    else { fn = [](Real x) { return 1.5 * std::exp(-0.5 * x); }; e = std::pow(1 / 3.0L, n); }
  } else { fn = [](Real) { return 0.0; }; }
  RealFunctionFromStdFunc F{std::function<Real(Real)>(fn)};
  Real v = b.base()->ComputeCoefficient(F, n);
  ctx.check(std::abs(v - e) <= 1e-6L * scale, "coefficient", id, " is ", v, " expected ", (double)e);
  mc::Hash q; q.s(id); ctx.state(q);
}
MC_SCENARIO(nodes, 1) {
  int n = ctx.choose(14); ChebyshevBasis t; ChebyshevBasisSecondKind u; ctx.step(); std::string id = mc::Ctx::cat("n=", n);
  auto ex = t.GetExtrema(n); bool ok = (int)ex.size() == n + 1; for (int k = 0; k <= n && ok; k++) ok = std::abs(ex[k] - (n ? std::cos(k * PIL / n) : 1)) < 1e-15L * 4 && std::abs(std::abs(ChebyshevT(n, ex[k])) - 1) < 1e-12;
  ctx.check(ok, "extrema", id);
  if (n == 0) { ctx.check(mc::throws([&] { t.GetZeros(0); }) && mc::throws([&] { u.GetZeros(0); }) && mc::throws([&] { ChebyshevRoots(0); }) && mc::throws([&] { ChebyshevExtrema(0); }) && mc::throws([&] { t.GetExtrema(-1); }), "no-nodes", id); return; }
  ctx.nontrivial();
  auto z = t.GetZeros(n); auto zu = u.GetZeros(n); Vector<Real> r = ChebyshevRoots(n), e2 = ChebyshevExtrema(n);
  ok = (int)z.size() == n && (int)zu.size() == n && r.size() == n && e2.size() == n + 1;
  for (int k = 0; k < n && ok; k++) ok = std::abs(z[k] - std::cos((2 * k + 1) * PIL / (2 * n))) < 1e-15L * 4 && std::abs(r[k] - z[k]) < 1e-15 * 4 && std::abs(zu[k] - std::cos((k + 1) * PIL / (n + 1))) < 1e-15L * 4 && std::abs(ChebyshevT(n, z[k])) < 1e-12 * n && std::abs(ChebyshevU(n, zu[k])) < 1e-11 * n * n;
  for (int k = 0; k <= n && ok; k++) ok = std::abs(e2[k] - ex[k]) < 1e-15 * 4;
  ctx.check(ok, "nodes", id);
  mc::Hash q; q.u(n); ctx.state(q);
}
static const std::vector<std::pair<double, double>> INTERVALS = {{-1, 1}, {0, 2}, {0.1, 0.7}, {-3, -0.3}, {100, 101}, {0, 1e-6}};
static LD cheb(const Vector<Real>& c, int m, LD a, LD b, LD x) { LD y = (2 * x - a - b) / (b - a), s = c[0] / 2.0L, t0 = 1, t1 = y; for (int j = 1; j < m; j++) { s += c[j] * t1; LD t2 = 2 * y * t1 - t0; t0 = t1; t1 = t2; } return s; }
MC_SCENARIO(approximation, 1) {
  int iv = ctx.choose((int)INTERVALS.size()), n = 1 + ctx.choose(ctx.thorough ? 12 : 8), f = ctx.choose(10); bool object = ctx.flag();
  Real a = INTERVALS[iv].first, b = INTERVALS[iv].second; LD mid = ((LD)a + b) / 2, half = ((LD)b - a) / 2;
  // polynomials in the normalized variable, and functions which are none
  V c; int deg = f < 8 ? f : -1; for (int j = 0; j <= deg; j++) c.push_back((j * 5 + 2) % 7 - 3.0L + (j == deg ? 4 : 0));
  std::function<Real(Real)> fn; if (f < 8) fn = [=](Real x) { return (Real)horner(c, (x - mid) / half); }; else if (f == 8) fn = [=](Real x) { return std::exp((Real)((x - mid) / half)); }; else fn = [=](Real x) { return std::abs((Real)((x - mid) / half)); };
  RealFunctionFromStdFunc F{std::function<Real(Real)>(fn)};
  ChebyshevApproximation A = object ? ChebyshevApproximation(F, a, b, n) : ChebyshevApproximation(fn, a, b, n);
  std::string id = mc::Ctx::cat("[", a, ",", b, "] n=", n, " function ", f); ctx.step(); if (n > 2) ctx.nontrivial();
  LD size = 10; LD tol = 1e-12L * size * n * (iv == 4 ? 1e3L : 1);
  ctx.check(A.NumCoefficients() == n && A.NumTerms() == n && A.degree() == n - 1 && A.TruncatedDegree() == n - 1 && A.DomainMin() == a && A.DomainMax() == b && A.Coefficients().size() == n && A.Coefficient(n - 1) == A.Coefficients()[n - 1] && mc::throws([&] { A.Coefficient(n); }) && mc::throws([&] { A.Coefficient(-1); }), "accessors", id);
  for (int k = 0; k < n; k++) { Real x = (Real)(mid + half * std::cos((k + 0.5L) * PIL / n)); ctx.check(std::abs(A(x) - (LD)fn(x)) <= tol, "interpolates", id, " node ", k, " value ", A(x), " expected ", fn(x)); }
  if (f < 8 && deg < n) {    // exact for polynomials, as are integral and derivative
    V d = der(c), I(1, 0); for (int j = 0; j <= deg; j++) I.push_back(c[j] / (j + 1)); I[0] = -horner(I, -1);
    auto D = A.Derivative(), J = A.Integral(); auto JD = J.Derivative(); auto PP = A.ToPolynomial();
    ctx.check(D.DomainMin() == a && D.DomainMax() == b && J.DomainMin() == a && J.DomainMax() == b, "calculus-domain", id);
    for (int i = 0; i <= 16; i++) { Real x = i == 16 ? b : (Real)(a + (b - a) * (i / 16.0)); LD y = (x - mid) / half;
      ctx.check(std::abs(A(x) - horner(c, y)) <= tol, "polynomial", id, " at ", x);
      ctx.check(std::abs(D(x) * half - horner(d, y)) <= tol * 20 * n * n, "derivative", id, " at ", x, " is ", D(x));
      ctx.check(std::abs(J(x) / half - horner(I, y)) <= tol * 2, "integral", id, " at ", x, " is ", J(x), " expected ", (double)(horner(I, y) * half));
      ctx.check(std::abs(JD(x) - A(x)) <= tol * 20 * n, "derivative-of-integral", id, " at ", x);
      ctx.check(std::abs(PP((Real)y) - horner(c, y)) <= tol * 100, "to-polynomial", id, " at ", x); }
    ctx.check(A.MaxError(F, 100) <= tol && A.MaxError(fn, 77) <= tol, "max-error-zero", id);
    Polynom<Real> q(std::vector<Real>{1, -2, 0.5}); auto Q = ChebyshevApproximation::FromPolynomial(q, a, b); ctx.check(Q.NumCoefficients() == 3, "from-polynomial-size", id); for (int i = 0; i <= 4; i++) { Real x = i == 4 ? b : a + (b - a) * i / 4; ctx.check(std::abs(Q(x) - q(x)) <= 1e-11 * (1 + std::abs(q(x))), "from-polynomial", id, " at ", x); }
  } else {   // the reported error is the largest one seen, and not less than at any sample
    Real e = A.MaxError(F, 64); LD m = 0; for (int i = 0; i <= 64; i++) { LD x = std::min<LD>(a + (LD)i * (b - a) / 64, b); m = std::max(m, std::abs(cheb(A.Coefficients(), n, a, b, x) - (LD)fn((Real)x))); }
    ctx.check(std::abs(e - m) <= tol * 2 && A.MaxError(fn, 64) == e, "max-error", id, " ", e, " expected ", (double)m);
  }
  Real out = (b - a) * 0.01; ctx.check(mc::throws([&] { A(a - out); }) && mc::throws([&] { A(b + out); }) && mc::throws([&] { A.Eval(a - out, 1); }) && mc::throws([&] { A.Eval(b + out, 1); }), "outside", id);
  mc::Hash q; q.s(id); ctx.state(q);
}
// arbitrary coefficients: every evaluation uses exactly the terms it should, after any history of truncations
MC_SCENARIO(truncation, 1) {
  int n = 1 + ctx.choose(4); Vector<Real> c(n); for (int j = 0; j < n; j++) c[j] = ctx.pick({0.0, 1e-9, -1e-3, 2.0}); int iv = ctx.choose(2) * 2;
  Real a = INTERVALS[iv].first, b = INTERVALS[iv].second; ChebyshevApproximation A(c, a, b); int m = n; std::string id = mc::Ctx::cat("n=", n, " interval ", iv); for (int j = 0; j < n; j++) id += mc::Ctx::cat(" ", c[j]);
  ctx.step(); if (n > 1) ctx.nontrivial(); mc::Hash q; q.s(id);
  for (int s = 0; s < 2; s++) {
    int op = ctx.choose(5); q.u(op);
    if (op == 0) { int k = ctx.choose(n + 2); bool bad = k <= 0 || k > n; ctx.check(mc::throws([&] { A.SetNumTerms(k); }) == bad, "set-terms", id, " to ", k); if (!bad) m = k; q.u(k); }
    else if (op < 4) { Real th = op == 1 ? 1e-9 : op == 2 ? 0.1 : 10; while (m > 1 && std::abs(c[m - 1]) < th) m--; ctx.check(A.Truncate(th) == m, "truncate", id, " by ", th); }
    ctx.check(A.NumTerms() == m && A.TruncatedDegree() == m - 1 && A.NumCoefficients() == n && A.degree() == n - 1, "terms", id, " ", A.NumTerms(), " expected ", m);
    for (int i = 0; i <= 4; i++) { Real x = i == 4 ? b : a + (b - a) * i / 4;
      ctx.check(std::abs(A(x) - cheb(c, m, a, b, x)) < 1e-13L, "evaluates-terms", id, " terms ", m, " at ", x);
      for (int k = 0; k <= n + 1; k++) { bool bad = k <= 0 || k > m; Real v = 0; ctx.check(mc::throws([&] { v = A.Eval(x, k); }) == bad, "eval-terms-refused", id, " ", k, " of ", m); if (!bad) ctx.check(std::abs(v - cheb(c, k, a, b, x)) < 1e-13L, "eval-terms", id, " ", k, " at ", x); } }
    auto P = A.ToPolynomial(); for (int k = 0; k <= n + 1; k++) { bool bad = k <= 0 || k > n; ctx.check(mc::throws([&] { A.ToPolynomial(k); }) == bad, "polynomial-refused", id, " ", k); if (!bad) { auto R = A.ToPolynomial(k); for (Real y : {-1.0, 0.25, 1.0}) { ctx.check(std::abs(R(y) - cheb(c, k, -1, 1, y)) < 1e-13L, "polynomial-terms", id, " ", k, " at ", y); if (k == m) ctx.check(R(y) == P(y), "polynomial-current", id); } } }
  }
  if (m == n) { auto J = A.Integral(); ctx.check(std::abs(J(a)) < 1e-14 && J.NumCoefficients() >= n + (c[n - 1] != 0), "integral-start", id, " ", J(a)); auto D = J.Derivative(); for (int i = 0; i <= 4; i++) { Real x = i == 4 ? b : a + (b - a) * i / 4; ctx.check(std::abs(D(x) - A(x)) < 1e-12, "integral-inverse", id, " at ", x, " ", D(x), " expected ", A(x)); } }
  ctx.state(q);
}
// many terms: smooth functions are approximated to rounding, also between the nodes
MC_SCENARIO(many_terms, 1) {
  int n = ctx.pick({20, 31, 42, 50, 64, 97}), f = ctx.choose(4), iv = ctx.choose((int)INTERVALS.size()); bool object = ctx.flag(), series = ctx.flag();
  Real a = INTERVALS[iv].first, b = INTERVALS[iv].second; LD mid = ((LD)a + b) / 2, half = ((LD)b - a) / 2; ctx.step(); ctx.nontrivial();
  std::string id = mc::Ctx::cat("[", a, ",", b, "] n=", n, " function ", f); const Real rs = (Real)mid, h = (Real)half;
  // f 0..2: functions with fast decaying coefficients; 3: the last polynomial of the series
  auto g = [f, n](LD y) -> LD { return f == 0 ? std::exp(2 * y) : f == 1 ? std::cos(5 * y + 1) : f == 2 ? 1 / (3 + y) : std::cos((n - 1) * std::acos(std::min<LD>(1, std::max<LD>(-1, y)))); };
  auto gd = [f](LD y) -> LD { return f == 0 ? 2 * std::exp(2 * y) : f == 1 ? -5 * std::sin(5 * y + 1) : -1 / ((3 + y) * (3 + y)); };
  LD trunc = f == 0 ? 2 * std::pow(2.0L, n) / std::pow(2.0L, n) / gammaL(n + 1) * std::exp(2.0L) : f == 1 ? 4 * std::pow(2.5L, n) / gammaL(n + 1) * 2 : f == 2 ? 4 * std::pow(3 - std::sqrt(8.0L), n) : 0;
  Real scale = iv == 4 ? 1e4 : 10;
  std::function<Real(Real)> fn = [=](Real x) { return (Real)g(((LD)x - rs) / h); }; RealFunctionFromStdFunc F{std::function<Real(Real)>(fn)};
  ChebyshevApproximation A = object ? ChebyshevApproximation(F, a, b, n) : ChebyshevApproximation(fn, a, b, n);
  if (series) A = ChebyshevApproximation(A.Coefficients(), a, b);
  LD tol = trunc * 2 + 1e-13L * scale * n * (f == 3 ? n : 1);
  for (int i = 0; i <= 40; i++) { Real x = i == 40 ? b : (Real)(a + (b - a) * (i / 40.0)); LD y = ((LD)x - mid) / half; ctx.check(std::abs(A(x) - g(y)) <= tol, "many-terms", id, " at ", x, " is ", A(x), " expected ", (double)g(y)); }
  if (f < 3) { auto D = A.Derivative(), JD = A.Integral().Derivative(); for (int i = 0; i <= 40; i++) { Real x = i == 40 ? b : (Real)(a + (b - a) * (i / 40.0)); LD y = ((LD)x - mid) / half;
    ctx.check(std::abs(D(x) * half - gd(y)) <= tol * n * n, "many-terms-derivative", id, " at ", x, " is ", D(x)); ctx.check(std::abs(JD(x) - A(x)) <= tol * n, "many-terms-integral", id, " at ", x); } }
  mc::Hash q; q.s(id); ctx.state(q);
}
MC_SCENARIO(refusals, 1) {
  int k = ctx.choose(8); ctx.step(); ctx.nontrivial(); auto f = std::function<Real(Real)>([](Real x) { return x; }); RealFunctionFromStdFunc F{f};
  bool bad = true; switch (k) {
    case 0: bad = mc::throws([&] { ChebyshevApproximation A(f, 0, 1, 0); }) && mc::throws([&] { ChebyshevApproximation A(F, 0, 1, 0); }); break;
    case 1: bad = mc::throws([&] { ChebyshevApproximation A(f, 0, 1, -2); }) && mc::throws([&] { ChebyshevApproximation A(F, 0, 1, -2); }); break;
    case 2: bad = mc::throws([&] { ChebyshevApproximation A(f, 1, 1, 4); }) && mc::throws([&] { ChebyshevApproximation A(F, 1, 1, 4); }); break;
    case 3: bad = mc::throws([&] { ChebyshevApproximation A(f, 2, 1, 4); }) && mc::throws([&] { ChebyshevApproximation A(F, 2, 1, 4); }); break;
    case 4: bad = mc::throws([&] { ChebyshevApproximation A(Vector<Real>(0), 0, 1); }); break;
    case 5: bad = mc::throws([&] { ChebyshevApproximation A(Vector<Real>(2, 1.0), 1, 0); }); break;
    case 6: { ChebyshevApproximation A; bad = A(0.5) == 0 && A.NumTerms() == 0 && A.Derivative()(0.5) == 0 && A.Integral()(0.5) == 0; break; }
    default: bad = mc::throws([&] { ChebyshevT(-1, 0.5); }) && mc::throws([&] { ChebyshevU(-3, 0.5); });
  }
  ctx.check(bad, "refused", "case ", k); mc::Hash q; q.u(k); ctx.state(q);
}
MC_SCENARIO(standard_functions, 1) {
  using namespace Functions;
  int i = ctx.choose(41); Real x = (i - 20) * 0.17 + 0.003; ctx.step(); ctx.nontrivial();
  auto eq = [&](Real a, LD e, const char* what) { ctx.check(std::abs(a - e) <= 1e-13L * std::max<LD>(1, std::abs(e)), what, "at ", x, " is ", a, " expected ", (double)e); };
  LD X = x; eq(Sin(x), std::sin(X), "sin"); eq(Cos(x), std::cos(X), "cos"); eq(Tan(x), std::tan(X), "tan"); eq(Sec(x), 1 / std::cos(X), "sec"); eq(Csc(x), 1 / std::sin(X), "csc"); eq(Ctg(x), 1 / std::tan(X), "ctg");
  eq(Exp(x), std::exp(X), "exp"); eq(Sinh(x), std::sinh(X), "sinh"); eq(Cosh(x), std::cosh(X), "cosh"); eq(Tanh(x), std::tanh(X), "tanh"); eq(Sech(x), 1 / std::cosh(X), "sech"); eq(Csch(x), 1 / std::sinh(X), "csch"); eq(Ctgh(x), 1 / std::tanh(X), "ctgh");
  eq(Atan(x), std::atan(X), "atan"); eq(Asinh(x), std::asinh(X), "asinh"); eq(Erf(x), std::erf(X), "erf"); eq(Erfc(x), std::erfc(X), "erfc");
  if (std::abs(x) < 1) { eq(Asin(x), std::asin(X), "asin"); eq(Acos(x), std::acos(X), "acos"); eq(Atanh(x), std::atanh(X), "atanh"); }
  if (x > 0) { eq(Log(x), std::log(X), "log"); eq(Log10(x), std::log10(X), "log10"); eq(Sqrt(x), std::sqrt(X), "sqrt"); eq(Pow(x, 2.5), X * X * std::sqrt(X), "pow"); eq(TGamma(x), std::tgamma(X), "gamma"); eq(LGamma(x), std::lgamma(X), "lgamma"); }
  if (x > 1) eq(Acosh(x), std::acosh(X), "acosh");
  // special functions by independent series and quadrature
  auto quad = [&](auto g, LD lo, LD hi) { LD s = 0; const int N = 400; for (int j = 0; j < N; j++) { LD m = lo + (hi - lo) * (j + 0.5L) / N, h = (hi - lo) / (2 * N); LD r = std::sqrt(0.6L) * h; s += h / 9 * (5 * g(m - r) + 8 * g(m) + 5 * g(m + r)); } return s; };
  auto near = [&](Real a, LD e, const char* what) { ctx.check(std::abs(a - e) <= 1e-9L * std::max<LD>(1, std::abs(e)), what, "at ", x, " is ", a, " expected ", (double)e); };
  int n = i % 4;
  if (x > 0) {
    near(CylBesselJ(n, x), quad([&](LD t) { return std::cos(n * t - X * std::sin(t)); }, 0, PIL) / PIL, "bessel-j");
    near(CylBesselI(n, x), quad([&](LD t) { return std::exp(X * std::cos(t)) * std::cos(n * t); }, 0, PIL) / PIL, "bessel-i");
    if (x > 0.3) near(CylBesselK(n, x), quad([&](LD t) { return std::exp(-X * std::cosh(t)) * std::cosh(n * t); }, 0, 7), "bessel-k");
    if (x > 0.3) { LD e = (quad([&](LD t) { return std::sin(X * std::sin(t) - n * t); }, 0, PIL) - quad([&](LD t) { return (std::exp(n * t) + (n % 2 ? -1 : 1) * std::exp(-n * t)) * std::exp(-X * std::sinh(t)); }, 0, 7)) / PIL; near(CylNeumann(n, x), e, "neumann"); near(CylBesselY(n, x), e, "bessel-y"); }
    near(SphBessel(n, x), n == 0 ? std::sin(X) / X : n == 1 ? (std::sin(X) / X - std::cos(X)) / X : n == 2 ? ((3 / X / X - 1) * std::sin(X) - 3 * std::cos(X) / X) / X : ((15 / X / X / X - 6 / X) * std::sin(X) / X - (15 / X / X - 1) * std::cos(X) / X), "sph-bessel");
    if (x > 0.3 && n < 2) near(SphNeumann(n, x), n == 0 ? -std::cos(X) / X : -(std::cos(X) / X + std::sin(X)) / X, "sph-neumann");
    near(Beta(x, 2.5), std::exp(std::lgamma(X) + std::lgamma(2.5L) - std::lgamma(X + 2.5L)), "beta");
    near(AssocLaguerre(n, 2, x), horner(series(LA, n, 2), X), "assoc-laguerre"); near(Laguerre(n, x), horner(series(L, n), X), "laguerre");
    LD ei = 0.57721566490153286061L + std::log(X), term = 1; for (int j = 1; j < 60; j++) { term *= X / j; ei += term / j; } near(Expint(x), ei, "expint");
    if (x > 1.2) { LD z = 0; const int N = 200; for (int j = 1; j < N; j++) z += std::pow((LD)j, -X); z += std::pow((LD)N, 1 - X) / (X - 1) + std::pow((LD)N, -X) / 2 + X * std::pow((LD)N, -X - 1) / 12 - X * (X + 1) * (X + 2) * std::pow((LD)N, -X - 3) / 720; near(RiemannZeta(x), z, "zeta"); }
  }
  near(Hermite(n, x), horner(series(H, n), X), "hermite");
  if (std::abs(x) < 1) {
    near(Legendre(n, x), horner(series(P, n), X), "legendre");
    near(Ellint_1(x, 0.9), quad([&](LD t) { return 1 / std::sqrt(1 - X * X * std::sin(t) * std::sin(t)); }, 0, 0.9L), "ellint-1"); near(Ellint_2(x, 0.9), quad([&](LD t) { return std::sqrt(1 - X * X * std::sin(t) * std::sin(t)); }, 0, 0.9L), "ellint-2");
    near(Ellint_3(x, 0.3, 0.9), quad([&](LD t) { LD s = std::sin(t) * std::sin(t); return 1 / ((1 - 0.3L * s) * std::sqrt(1 - X * X * s)); }, 0, 0.9L), "ellint-3");
    near(Comp_ellint_1(x), quad([&](LD t) { return 1 / std::sqrt(1 - X * X * std::sin(t) * std::sin(t)); }, 0, PIL / 2), "comp-ellint-1"); near(Comp_ellint_2(x), quad([&](LD t) { return std::sqrt(1 - X * X * std::sin(t) * std::sin(t)); }, 0, PIL / 2), "comp-ellint-2");
    near(Comp_ellint_3(x, 0.3), quad([&](LD t) { LD s = std::sin(t) * std::sin(t); return 1 / ((1 - 0.3L * s) * std::sqrt(1 - X * X * s)); }, 0, PIL / 2), "comp-ellint-3");
  }
  if (x > 0) for (int m = 0; m <= n; m++) { V c = series(P, n); for (int j = 0; j < m; j++) c = der(c); LD K = std::sqrt((2 * n + 1) / (4 * PIL) * gammaL(n - m + 1) / gammaL(n + m + 1)), e = K * std::pow(std::abs(std::sin(X)), (LD)m) * horner(c, std::cos(X)); if (x < 3.1) ctx.check(std::abs(std::abs(SphLegendre(n, m, x)) - std::abs(e)) < 1e-10L, "sph-legendre", n, " ", m, " at ", x); }
  mc::Hash q; q.u(i); ctx.state(q);
}
MC_SCENARIO(factorials, 1) {
  int n = ctx.choose(31) - 3; ctx.step(); ctx.nontrivial(); using namespace Functions;
  if (n < 0) { ctx.check(mc::throws([&] { Factorial(n); }) && mc::throws([&] { FactorialInt(n); }) && mc::throws([&] { FactorialStirling(n); }), "factorial-negative", n); return; }
  LD e = 1; for (int i = 2; i <= n; i++) e *= i;
  ctx.check(std::abs(Factorial(n) - e) <= 1e-14L * e, "factorial", n);
  ctx.check(std::abs(FactorialStirling(n) - e) <= e / (n < 2 ? 1e9L : 12 * n - 1), "stirling", n, " ", FactorialStirling(n));
  long long v = 0; bool t = mc::throws([&] { v = FactorialInt(n); });
  ctx.check(t == (n > 20) && (t || (LD)v == e), "factorial-int", n, " ", v);
  mc::Hash q; q.u(n); ctx.state(q);
}
MC_SCENARIO(delta_functions, 1) {
  int N = ctx.pick({1, 2, 10, 1000, 50000, 1000000}); ctx.step(); ctx.nontrivial(); DiracStep s(N); DiracExp e(N); DiracSqr q(N); DiracSin w(N);
  for (int i = -60; i <= 60; i++) { Real u = i * 0.0937, x = u / N; LD X = (LD)x * N; std::string id = mc::Ctx::cat("N=", N, " at ", u, "/N");
    if (std::abs(std::abs(u) - 0.5) > 1e-9) ctx.check(s(x) == (std::abs(u) < 0.5 ? N : 0), "step", id);
    ctx.check(std::abs(e(x) - N / std::sqrt(2 * PIL) * std::exp(-X * X / 2)) <= 1e-13L * N, "exp", id); ctx.check(std::abs(q(x) - N / PIL / (1 + X * X)) <= 1e-13L * N, "sqr", id, " ", q(x)); ctx.check(std::abs(w(x) - (X == 0 ? N / PIL : N * std::sin(X) / (PIL * X))) <= 1e-13L * N, "sin", id); }
  mc::Hash h; h.u(N); ctx.state(h);
}
