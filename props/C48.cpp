// C48: least squares curve fitting.
// mc-flags: -O1
#include "MMLBase.h"
#include "base/Function.h"
#include "algorithms/CurveFitting.h"
#include "../mc/mc.h"
using namespace MML;
typedef long double LD;
typedef std::vector<LD> V;
typedef std::vector<V> M;

static std::string str(const V& a) { std::string s = "("; for (auto x : a) s += mc::Ctx::cat((double)x, " "); return s + ")"; }
static Vector<Real> toV(const V& a) { Vector<Real> r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = (double)a[i]; return r; }
static V fromV(const Vector<Real>& a) { V r; for (int i = 0; i < a.size(); i++) r.push_back(a[i]); return r; }
static int rref(M& a, LD tol = 1e-9L) {
  size_t r = 0;
  for (size_t c = 0; c + 1 < a[0].size() + 1 && c < a[0].size() && r < a.size(); c++) {
    size_t p = r; for (size_t i = r; i < a.size(); i++) if (std::abs(a[i][c]) > std::abs(a[p][c])) p = i;
    if (std::abs(a[p][c]) < tol) continue;
    std::swap(a[p], a[r]); LD d = a[r][c]; for (auto& x : a[r]) x /= d;
    for (size_t i = 0; i < a.size(); i++) if (i != r) { LD f = a[i][c]; for (size_t j = 0; j < a[0].size(); j++) a[i][j] -= f * a[r][j]; }
    r++;
  }
  return (int)r;
}
static int rankOf(M a) { return rref(a); }
// statistics of any fit, from its values at the data
struct Stats { LD norm, r2, mse, tot, size; bool varies; };
static Stats stats(const V& y, const V& fit) {
  LD res = 0, mean = 0, tot = 0, size = 0; int n = y.size();
  for (auto v : y) { mean += v; size = std::max(size, std::abs(v)); } mean /= n;
  for (int i = 0; i < n; i++) { res += (y[i] - fit[i]) * (y[i] - fit[i]); tot += (y[i] - mean) * (y[i] - mean); }
  bool varies = std::sqrt(tot / n) > 1e-13L * size;
  LD r2 = varies ? 1 - res / tot : std::sqrt(res / n) <= 1e-9L * size ? 1 : 0;
  return {std::sqrt(res), r2, res / n, tot, size, varies};
}

// straight lines over all small data sets, moved and scaled
MC_SCENARIO(lines, 1) {
  int n = 1 + ctx.choose(4);
  double s = ctx.pick({1.0, 0x1p-40, 0x1p30}), off = ctx.pick({0.0, 1e6, -3e8}), t = ctx.pick({1.0, 0x1p-45, 0x1p20}), yo = ctx.pick({0.0, 1e4});
  V x, y, x0, y0;
  for (int i = 0; i < n; i++) {
    double u = ctx.choose(3) + (n > 3 && i == 3 ? 2 : 0), v = ctx.choose(n < 4 ? 3 : 2) - 1;
    x0.push_back(u); y0.push_back(v);
    x.push_back((double)(s * (u + off))); y.push_back((double)(t * (v + yo)));
  }
  bool distinct = false; for (auto v : x0) if (v != x0[0]) distinct = true;
  std::string id = mc::Ctx::cat("x=", str(x0), " + ", off, " times ", s, ", y=", str(y0), " + ", yo, " times ", t);
  ctx.step();
  mc::Hash h; for (auto v : x) h.d((double)v); for (auto v : y) h.d((double)v); ctx.state(h);
  Real a = -7, b = -7, norm = -7; bool refused = false;
  bool thrown = mc::throws([&] { try { norm = LinearLeastSquares<Real>(toV(x), toV(y), a, b); } catch (const SingularMatrixError&) { refused = true; throw; } });
  if (!distinct && n > 2) { ctx.check(thrown && refused, "line-singular", id, " accepted: a=", a); return; }
  ctx.check(!thrown, "line-refused", id); if (thrown) return;
  LD ea = 0, eb, mx = 0, my = 0, sxx = 0, sxy = 0;
  for (int i = 0; i < n; i++) { mx += x[i]; my += y[i]; } mx /= n; my /= n;
  for (int i = 0; i < n; i++) { sxx += (x[i] - mx) * (x[i] - mx); sxy += (x[i] - mx) * (y[i] - my); }
  if (distinct) ea = sxy / sxx;
  eb = my - ea * mx;
  LD scale = t / s;       // natural unit of slopes
  LD ts = 1e-12L * (1 + std::abs(yo)) + 1e-15L * std::abs(off) ;
  ctx.check(std::abs(a - ea) <= scale * ts, "slope", id, " a=", a, " expected ", (double)ea);
  // the line itself, at the data and in the middle
  LD worst = 0; V fit; for (int i = 0; i < n; i++) { fit.push_back(ea * x[i] + eb); worst = std::max(worst, std::abs((LD)a * x[i] + b - fit[i])); }
  ctx.check(worst <= t * (ts + 1e-15L * std::abs(off)) * 10, "line", id, " off by ", (double)worst);
  Stats st = stats(y, fit);
  LD rt = t * (ts + 1e-15L * std::abs(off)) * 20;
  ctx.check(std::abs(norm - st.norm) <= rt, "residual-norm", id, " ", norm, " expected ", (double)st.norm);
  auto d = LinearLeastSquaresDetailed<Real>(toV(x), toV(y));
  ctx.check(d.a == a && d.b == b && d.residual_norm == norm, "detailed-same", id);
  LD rel = st.varies ? 3 * rt / t * (1 + yo * 1e-8L) : 0;
  ctx.check(std::abs(d.r_squared - st.r2) <= rel + 1e-9L, "r-squared", id, " ", d.r_squared, " expected ", (double)st.r2);
  ctx.check(std::abs(d.mean_squared_error - st.mse) <= rt * (2 * st.norm + rt), "mse", id, " ", d.mean_squared_error, " expected ", (double)st.mse);
  auto f = LinearFitDetailed<Real>(toV(x), toV(y));
  ctx.check(f.IsSuccess() && f.coefficients.size() == 2 && f.coefficients[0] == a && f.coefficients[1] == b && f.r_squared == d.r_squared && f.mean_squared_error == d.mean_squared_error && f.residual_norm == norm, "fit-detailed", id);
  if (n > 1 && distinct) ctx.nontrivial();
}
// a longer line with known deviations that do not change the least squares solution
MC_SCENARIO(known_lines, 1) {
  int n = ctx.pick({5, 8, 21, 64}); double off = ctx.pick({0.0, 1000.0, 1e7}), a0 = ctx.pick({0.0, 2.5, -3e3}), b0 = ctx.pick({0.0, -7.0, 1e3}), e = ctx.pick({0.0, 0.5}), st = ctx.pick({1.0, 1e-3});
  V x, y; LD e1 = 0;
  for (int i = 0; i < n; i++) x.push_back((double)(off + st * (i - (n - 1) / 2.0)));
  for (int i = 0; i < n; i++) { LD d = e * (i == 0 || i == n - 1 ? 1 : i == 1 || i == n - 2 ? -1 : 0); e1 += d * d; y.push_back((double)(a0 * (x[i] - off) + b0 + d)); }
  Real a, b; ctx.step(); ctx.nontrivial();
  Real norm = LinearLeastSquares<Real>(toV(x), toV(y), a, b);
  std::string id = mc::Ctx::cat("n=", n, " off=", off, " slope ", a0, " intercept ", b0, " deviation ", e, " step ", st);
  LD unc = 1e-15L * (std::abs(a0) * off + std::abs(b0) + 1) * 20 / st;
  ctx.check(std::abs(a - a0) <= unc + 1e-11L * std::abs(a0), "known-slope", id, " a=", a);
  ctx.check(std::abs((LD)a * off + b - b0) <= unc * st * n + 1e-11L * (std::abs(a0) + std::abs(b0)) + 2e-16L * off * std::abs(a0) * 4, "known-middle", id, " b=", b);
  ctx.check(std::abs(norm - std::sqrt(e1)) <= 1e-9L + unc * st * n * 4, "known-residual", id, " ", norm, " expected ", (double)std::sqrt(e1));
  mc::Hash h; h.u(n); h.d(off); h.d(a0); h.d(b0); h.d(e); h.d(st); ctx.state(h);
}
struct Basis { const char* name; std::function<Real(Real)> f; };
static const std::vector<Basis>& bases() {
  static std::vector<Basis> b = {{"1", [](Real) { return 1.0; }}, {"x", [](Real x) { return x; }}, {"x^2", [](Real x) { return x * x; }}, {"|x|", [](Real x) { return std::abs(x); }}, {"step", [](Real x) { return x > 0 ? 1.0 : 0.0; }}, {"x+1", [](Real x) { return x + 1; }}, {"0", [](Real) { return 0.0; }}, {"x^3/10^6", [](Real x) { return 1e-6 * x * x * x; }}};
  return b;
}
static void generalFacts(mc::Ctx& ctx, const M& A, const V& y, const GeneralLinearFitResult<Real>& r, const std::string& id) {
  int m = A.size(), n = A[0].size();
  int rank = rankOf(A);
  ctx.check(r.coefficients.size() == n && r.num_data_points == m && r.num_basis_functions == n, "sizes", id);
  if (r.coefficients.size() != n) return;
  V c = fromV(r.coefficients), fit(m, 0); LD size = 0, asz = 0;
  for (auto v : y) size = std::max(size, std::abs(v));
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { fit[i] += A[i][j] * c[j]; asz = std::max(asz, std::abs(A[i][j])); }
  // normal equations: the residual is orthogonal to every basis function
  for (int j = 0; j < n; j++) { LD g = 0; for (int i = 0; i < m; i++) g += A[i][j] * (y[i] - fit[i]); ctx.check(std::abs(g) <= 1e-9L * size * (asz + 1) * m, "normal-equations", id, " function ", j, " residual product ", (double)g); }
  // minimal norm: the coefficients lie in the row space
  if (rank < n) { M E = A; E.push_back(c); LD cn = 0; for (auto v : c) cn = std::max(cn, std::abs(v)); M F = A; int r0 = rref(F); V p = c; for (int i = 0; i < r0; i++) { int k = 0; while (std::abs(F[i][k]) < 0.5L) k++; LD f = p[k]; for (int j = 0; j < n; j++) p[j] -= f * F[i][j]; } LD q = 0; for (auto v : p) q = std::max(q, std::abs(v)); ctx.check(q <= 1e-9L * (cn + size), "minimal-norm", id, " component ", (double)q); }
  Stats st = stats(y, fit);
  ctx.check(std::abs(r.residual_norm - st.norm) <= 1e-11L * size * m, "general-residual", id, " ", r.residual_norm, " expected ", (double)st.norm);
  ctx.check(std::abs(r.mean_squared_error - st.mse) <= 1e-10L * size * size, "general-mse", id);
  ctx.check(std::abs(r.r_squared - st.r2) <= 1e-9L * (1 + std::abs(st.r2)), "general-r-squared", id, " ", r.r_squared, " expected ", (double)st.r2);
  LD adj = st.varies && m > n ? 1 - (1 - st.r2) * (m - 1) / (m - n) : st.r2;
  ctx.check(std::abs(r.adjusted_r_squared - adj) <= 1e-9L * (1 + std::abs(adj)) * m, "adjusted", id, " ", r.adjusted_r_squared, " expected ", (double)adj);
  ctx.check(r.effective_rank == rank, "effective-rank", id, " ", r.effective_rank, " expected ", rank);
  if (rank > 0) { ctx.check(r.condition_number >= 1 - 1e-12 && std::isfinite(r.condition_number), "condition", id, " ", r.condition_number);
    if (rank == 2 && n == 2) { LD p = 0, q = 0, w = 0; for (int i = 0; i < m; i++) { p += A[i][0] * A[i][0]; q += A[i][1] * A[i][1]; w += A[i][0] * A[i][1]; } LD T = p + q, D = p * q - w * w, e = (T + std::sqrt(T * T - 4 * D)) / 2; ctx.check(std::abs(r.condition_number - e / std::sqrt(D)) <= 1e-8L * e / std::sqrt(D), "condition-value", id, " ", r.condition_number, " expected ", (double)(e / std::sqrt(D))); } }
  else ctx.check(std::isinf(r.condition_number), "condition-zero", id);
}
MC_SCENARIO(general, 1) {
  int n = 1 + ctx.choose(3); std::vector<int> k; for (int i = 0; i < n; i++) k.push_back(ctx.choose(8));
  int m = n + ctx.choose(ctx.thorough ? 4 : 3); int grid = ctx.choose(2);
  double t = ctx.pick({1.0, 0x1p-45});
  V x, y; for (int i = 0; i < m; i++) x.push_back(grid ? i - 1 : i == 0 ? -2 : i == 1 ? 2 : i - 2);
  int pat = ctx.choose(ctx.thorough ? 8 : 4);
  for (int i = 0; i < m; i++) y.push_back(t * (pat == 0 ? i + 1 : pat == 1 ? (i % 2 ? -2 : 3) : pat == 2 ? 4 : pat == 3 ? (i == 0 ? 5 : 0) : (i * pat) % 5 - 2));
  Vector<std::function<Real(Real)>> B(n); std::vector<std::unique_ptr<IRealFunction>> own; Vector<const IRealFunction*> P(n);
  std::string id = "basis"; M A(m, V(n));
  for (int j = 0; j < n; j++) { B[j] = bases()[k[j]].f; own.emplace_back(new RealFunctionFromStdFunc(std::function<Real(Real)>(bases()[k[j]].f))); P[j] = own.back().get(); id += std::string(" ") + bases()[k[j]].name; for (int i = 0; i < m; i++) A[i][j] = bases()[k[j]].f((double)x[i]); }
  id += mc::Ctx::cat(" x=", str(x), " y=", str(y)); ctx.step(); if (n > 1) ctx.nontrivial();
  auto r = GeneralLinearLeastSquares<Real>(toV(x), toV(y), B);
  generalFacts(ctx, A, y, r, id);
  auto q = GeneralLinearLeastSquares<Real>(toV(x), toV(y), P);
  bool same = q.coefficients.size() == n; for (int j = 0; j < n && same; j++) same = q.coefficients[j] == r.coefficients[j];
  ctx.check(same && q.residual_norm == r.residual_norm && q.r_squared == r.r_squared && q.adjusted_r_squared == r.adjusted_r_squared && q.mean_squared_error == r.mean_squared_error && q.effective_rank == r.effective_rank && q.condition_number == r.condition_number && q.num_data_points == m && q.num_basis_functions == n, "function-objects", id);
  for (double u : {-1.5, 0.0, 2.25}) { LD e = 0; for (int j = 0; j < n; j++) e += (LD)r.coefficients[j] * bases()[k[j]].f(u); LD sz = 0; for (int j = 0; j < n; j++) sz += std::abs(r.coefficients[j]) * 6; ctx.check(std::abs(r.evaluate(u, B) - e) <= 1e-14L * sz && std::abs(r.evaluate(u, P) - e) <= 1e-14L * sz, "evaluate", id, " at ", u); }
  auto d = GeneralLinearFitDetailed<Real>(toV(x), toV(y), B);
  same = d.IsSuccess() && d.coefficients.size() == n; for (int j = 0; j < n && same; j++) same = d.coefficients[j] == r.coefficients[j];
  ctx.check(same && d.residual_norm == r.residual_norm && d.r_squared == r.r_squared && d.adjusted_r_squared == r.adjusted_r_squared && d.effective_rank == r.effective_rank && d.condition_number == r.condition_number && d.mean_squared_error == r.mean_squared_error, "general-detailed", id);
  mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(polynomials, 1) {
  int deg = ctx.choose(ctx.thorough ? 6 : 5), m = deg + 1 + ctx.choose(3); double t = ctx.pick({1.0, 0x1p-45, 1e3}); int pat = ctx.choose(4), xs = ctx.choose(3);
  V x, y; M A;
  for (int i = 0; i < m; i++) { LD u = xs == 0 ? i - m / 2 : xs == 1 ? i * 0.5 : (i % 2 ? -1 : 1) * (i + 1) * 0.25; x.push_back(u); }
  V c; for (int j = 0; j <= deg; j++) c.push_back((j * 3 + pat) % 4 - 1.0L);
  for (int i = 0; i < m; i++) { LD v = 0, p = 1; V row; for (int j = 0; j <= deg; j++) { row.push_back(p); v += c[j] * p; p *= x[i]; } A.push_back(row); if (pat == 3) v += i % 3; y.push_back((double)(t * v)); }
  std::string id = mc::Ctx::cat("degree ", deg, " x=", str(x), " y=", str(y)); ctx.step(); ctx.nontrivial();
  auto r = PolynomialFit<Real>(toV(x), toV(y), deg);
  generalFacts(ctx, A, y, r, id);
  if (pat != 3) for (int j = 0; j <= deg && r.coefficients.size() == deg + 1; j++) ctx.check(std::abs(r.coefficients[j] - t * c[j]) <= 1e-7L * t, "polynomial-coefficients", id, " coefficient ", j, " is ", r.coefficients[j]);
  for (double u : {0.0, 1.0, -2.5, 3.0}) { LD e = 0, p = 1, sz = 0; for (int j = 0; j < r.coefficients.size(); j++) { e += (LD)r.coefficients[j] * p; sz += std::abs((LD)r.coefficients[j] * p); p *= u; } ctx.check(std::abs(EvaluatePolynomial<Real>(u, r.coefficients) - e) <= 1e-14L * sz, "evaluate-polynomial", id, " at ", u); }
  auto d = PolynomialFitDetailed<Real>(toV(x), toV(y), deg);
  bool same = d.IsSuccess() && d.coefficients.size() == deg + 1; for (int j = 0; j <= deg && same; j++) same = d.coefficients[j] == r.coefficients[j];
  ctx.check(same && d.residual_norm == r.residual_norm && d.r_squared == r.r_squared && d.adjusted_r_squared == r.adjusted_r_squared && d.effective_rank == r.effective_rank && d.condition_number == r.condition_number && d.mean_squared_error == r.mean_squared_error, "polynomial-detailed", id);
  mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(refusals, 1) {
  int nx = ctx.choose(4), ny = ctx.choose(4), nb = ctx.choose(4), deg = nb - 1; bool equal = ctx.flag();
  Vector<Real> x(nx), y(ny); for (int i = 0; i < nx; i++) x[i] = equal ? 2 : i; for (int i = 0; i < ny; i++) y[i] = i * i;
  Vector<std::function<Real(Real)>> B(nb); Vector<const IRealFunction*> P(nb); RealFunctionFromStdFunc one(std::function<Real(Real)>([](Real v) { return v + 1; }));
  for (int j = 0; j < nb; j++) { B[j] = [j](Real v) { return std::pow(v, j); }; P[j] = &one; }
  std::string id = mc::Ctx::cat(nx, " x, ", ny, " y, ", nb, " functions", equal ? ", equal x" : ""); ctx.step(); ctx.nontrivial();
  CurveFittingConfig quiet, loud; quiet.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; loud.exception_policy = EvaluationExceptionPolicy::Propagate;
  Real a, b;
  auto judge = [&](const char* what, bool bad, bool singular, auto plain, auto detailed) {
    int kind = 0; try { plain(); } catch (const SingularMatrixError&) { kind = 2; } catch (const CurveFittingError&) { kind = 1; } catch (...) { kind = 3; }
    ctx.check(kind == (bad ? 1 : singular ? 2 : 0), what, id, " outcome ", kind);
    int k2 = 0; try { auto r = detailed(quiet); bool fail = bad || singular; ctx.check(r.IsSuccess() == !fail && (!fail || (r.status == (bad ? AlgorithmStatus::InvalidInput : AlgorithmStatus::SingularMatrix) && !r.error_message.empty() && r.coefficients.size() == 0)), what, id, " captured status"); } catch (...) { k2 = 1; }
    ctx.check(k2 == 0, what, id, " not captured");
    int k3 = 0; try { detailed(loud); } catch (const SingularMatrixError&) { k3 = 2; } catch (const CurveFittingError&) { k3 = 1; } catch (...) { k3 = 3; }
    ctx.check(k3 == kind, what, id, " not propagated");
  };
  bool badData = nx != ny || nx == 0;
  judge("line", badData, equal && nx > 2, [&] { LinearLeastSquares<Real>(x, y, a, b); }, [&](auto& c) { return LinearFitDetailed<Real>(x, y, c); });
  judge("general", badData || nb == 0 || nx < nb, false, [&] { GeneralLinearLeastSquares<Real>(x, y, B); }, [&](auto& c) { return GeneralLinearFitDetailed<Real>(x, y, B, c); });
  judge("polynomial", badData || deg < 0 || nx < deg + 1, false, [&] { PolynomialFit<Real>(x, y, deg); }, [&](auto& c) { return PolynomialFitDetailed<Real>(x, y, deg, c); });
  int kind = 0; try { GeneralLinearLeastSquares<Real>(x, y, P); } catch (const CurveFittingError&) { kind = 1; }
  ctx.check(kind == (badData || nb == 0 || nx < nb), "function-objects-refused", id);
  GeneralLinearFitResult<Real> r; r.coefficients = Vector<Real>(2, 1.0);
  ctx.check(mc::throws([&] { r.evaluate(1.0, B); }) == (nb != 2) && mc::throws([&] { r.evaluate(1.0, P); }) == (nb != 2), "evaluate-refused", id);
  mc::Hash h; h.s(id); ctx.state(h);
}
