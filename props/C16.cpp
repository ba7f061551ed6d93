// Interpolation: every small table (ascending and descending, uneven), every query position
#include "mc.h"
#include "mml/base/InterpolatedFunction.h"
using namespace MML; typedef long double D; typedef std::vector<double> W;
struct T { W x, y; int n; bool desc; Vector<Real> vx() const { return Vector<Real>(std::vector<Real>(x.begin(), x.end())); } Vector<Real> vy() const { return Vector<Real>(std::vector<Real>(y.begin(), y.end())); } uint64_t h() const { mc::Hash q; for (double v : x) q.d(v); for (double v : y) q.d(v); return q.h; } };
static T table(mc::Ctx& ctx, int lo, int hi, bool desc_ok = true) { T t; t.n = ctx.range(lo, hi); t.desc = desc_ok && ctx.flag(); double x = ctx.pick({-1.0, 100.0}); for (int i = 0; i < t.n; i++) { t.x.push_back(x); x += i + 1 < t.n ? ctx.pick({1.0, 0.25, 3.0}) : 0; t.y.push_back(i % 2 || t.n < 4 ? ctx.range(-1, 2) : (i * 7 % 5) - 2); } if (t.desc) std::reverse(t.x.begin(), t.x.end()); return t; }
static W queries(const T& t) { W q; for (double v : t.x) q.push_back(v); for (int i = 0; i + 1 < t.n; i++) for (double f : {0.5, 0.125, 0.9}) q.push_back(t.x[i] + f * (t.x[i + 1] - t.x[i])); return q; }
static int seg(const T& t, double x) { int s = 0; for (int i = 0; i + 1 < t.n; i++) if (t.desc ? x <= t.x[i] : x >= t.x[i]) s = i; return s; }
static double lagr(const T& t, int s, int m, double x) { D v = 0; for (int i = s; i < s + m; i++) { D l = t.y[i]; for (int j = s; j < s + m; j++) if (j != i) l *= ((D)x - t.x[j]) / ((D)t.x[i] - t.x[j]); v += l; } return v; }
#define NEAR(a, b, tol, key, ...) do { double a_ = (a), b_ = (b); ctx.check(mc::near(a_, b_, tol), key, __VA_ARGS__, " gives ", a_, " instead of ", b_); } while (0)
MC_SCENARIO(linear_and_polynomial, 4) {
	T t = table(ctx, 2, ctx.thorough ? 5 : 4); LinearInterpRealFunc f(t.vx(), t.vy()), g(t.vx(), t.vy(), true); auto qs = queries(t); double a = std::min(t.x[0], t.x.back()), b = std::max(t.x[0], t.x.back()); ctx.check(f.MinX() == a && f.MaxX() == b && f.getNumPoints() == t.n, "domain", f.MinX(), " ", f.MaxX());
	for (int rep = 0; rep < 2; rep++) for (size_t k = 0; k < qs.size(); k++) { double x = qs[rep ? qs.size() - 1 - k : k]; int s = std::min(seg(t, x), t.n - 2); double e = lagr(t, s, 2, x); NEAR(f(x), e, 1e-12, "linear", "linear at ", x); NEAR(g(x), e, 1e-12, "linear", "linear at ", x); }
	for (double x : {a - 1, b + 2}) { ctx.check(f(x) == 0, "linear", "outside"); int s = (x < a) != t.desc ? 0 : t.n - 2; NEAR(g(x), lagr(t, s, 2, x), 1e-12, "linear", "extrapolated at ", x); }
	for (int m = 2; m <= t.n; m++) { PolynomInterpRealFunc p(t.vx(), t.vy(), m); ctx.check(p.getInterpOrder() == m, "domain", "order"); for (double x : qs) { double v = p(x); int s = std::min(seg(t, x), t.n - 2), c0 = std::max(0, std::min(t.n - m, s - (m - 2) / 2)), c1 = std::max(0, std::min(t.n - m, s - (m - 1) / 2)); double e0 = lagr(t, c0, m, x), e1 = lagr(t, c1, m, x); ctx.check(mc::near(v, e0, 1e-11) || mc::near(v, e1, 1e-11), "polynomial", "order ", m, " at ", x, " gives ", v, " instead of ", e0); } for (int i = 0; i < t.n; i++) NEAR(p(t.x[i]), t.y[i], 1e-11, "polynomial", "node ", i); double o = a - 0.5; int w = t.desc ? t.n - m : 0; NEAR(p(o), lagr(t, w, m, o), 1e-10, "polynomial", "extrapolated"); }
	ctx.state(t.h()); ctx.outcome(mc::Hash().d(f(qs.back()))); ctx.nontrivial();
}
struct Cub { double y0, y1, d0, d1, h; double v(double s) const { double u = 1 - s; return u * u * (1 + 2 * s) * y0 + s * s * (1 + 2 * u) * y1 + h * (u * u * s * d0 - s * s * u * d1); } double d(double s) const { return (6 * s * s - 6 * s) / h * y0 - (6 * s * s - 6 * s) / h * y1 + (3 * s * s - 4 * s + 1) * d0 + (3 * s * s - 2 * s) * d1; } double dd(double s) const { return ((12 * s - 6) * (y0 - y1) / h + (6 * s - 4) * d0 + (6 * s - 2) * d1) / h; } double I(double s) const { double s2 = s * s, s3 = s2 * s, s4 = s3 * s; return h * ((s4 / 2 - s3 + s) * y0 + (s3 - s4 / 2) * y1 + h * ((s4 / 4 - 2 * s3 / 3 + s2 / 2) * d0 + (s4 / 4 - s3 / 3) * d1)); } };
// slopes of the cubic spline (natural or clamped), by solving the C2 conditions densely in long double
static std::vector<Cub> spline(const T& t, bool cl, double p1, double bn, bool cr) { int n = t.n; std::vector<std::vector<D>> A(n, std::vector<D>(n + 1, 0)); auto h = [&](int i) { return (D)t.x[i + 1] - t.x[i]; }; if (cl) { A[0][0] = 1; A[0][n] = p1; } else { A[0][0] = 2; A[0][1] = 1; A[0][n] = 3 * ((D)t.y[1] - t.y[0]) / h(0); } if (cr) { A[n - 1][n - 1] = 1; A[n - 1][n] = bn; } else { A[n - 1][n - 1] = 2; A[n - 1][n - 2] = 1; A[n - 1][n] = 3 * ((D)t.y[n - 1] - t.y[n - 2]) / h(n - 2); } for (int i = 1; i < n - 1; i++) { A[i][i - 1] = 1 / h(i - 1); A[i][i] = 2 / h(i - 1) + 2 / h(i); A[i][i + 1] = 1 / h(i); A[i][n] = 3 * (((D)t.y[i] - t.y[i - 1]) / h(i - 1) / h(i - 1) + ((D)t.y[i + 1] - t.y[i]) / h(i) / h(i)); }
	for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (std::fabs((double)A[r][c]) > std::fabs((double)A[p][c])) p = r; std::swap(A[p], A[c]); for (int r = 0; r < n; r++) if (r != c) { D f = A[r][c] / A[c][c]; for (int k = c; k <= n; k++) A[r][k] -= f * A[c][k]; } } std::vector<Cub> o; for (int i = 0; i + 1 < n; i++) o.push_back({t.y[i], t.y[i + 1], (double)(A[i][n] / A[i][i]), (double)(A[i + 1][n] / A[i + 1][i + 1]), (double)h(i)}); return o; }
MC_SCENARIO(splines, 4) {
	T t = table(ctx, 2, ctx.thorough ? 5 : 4); int bc = ctx.choose(4); double p1 = bc & 1 ? 1.5 : 1e99, pn = bc & 2 ? -0.75 : 1e99; SplineInterpRealFunc f(t.vx(), t.vy(), p1, pn); auto cs = spline(t, bc & 1, p1, pn, bc & 2); double S = 20;
	for (double x : queries(t)) { int i = std::min(seg(t, x), t.n - 2); double s = (x - t.x[i]) / cs[i].h; NEAR(f(x) / S, cs[i].v(s) / S, 1e-12, "spline", "value at ", x); NEAR(f.Derivative(x) / 100, cs[i].d(s) / 100, 1e-11, "spline-derivative", "at ", x); NEAR(f.SecondDerivative(x) / 1000, cs[i].dd(s) / 1000, 1e-11, "spline-second-derivative", "at ", x); } for (int i = 0; i < t.n; i++) { NEAR(f(t.x[i]), t.y[i], 1e-12, "spline", "node ", i); NEAR(f.GetSecondDerivative(i) / 1000, (i < t.n - 1 ? cs[i].dd(0) : cs[i - 1].dd(1)) / 1000, 1e-11, "spline-second-derivative", "node ", i); } ctx.check(mc::throws([&] { (void)f.GetSecondDerivative(-1); }) && mc::throws([&] { (void)f.GetSecondDerivative(t.n); }), "spline-second-derivative", "index");
	auto P = [&](double x) { int k = std::min(seg(t, x), t.n - 2); double v = 0; for (int i = 0; i < k; i++) v += cs[i].I(1); return v + cs[k].I((x - t.x[k]) / cs[k].h); }; auto qs = queries(t); double a = qs[ctx.choose(std::min<int>(4, qs.size()))]; for (double b : qs) { NEAR(f.Integrate(a, b) / S, (P(b) - P(a)) / S, 1e-11, "spline-integral", "from ", a, " to ", b, " (times 20)"); NEAR(f.Integrate(b, a) / S, (P(a) - P(b)) / S, 1e-11, "spline-integral", "from ", b, " to ", a); } ctx.check(mc::throws([&] { (void)f.Integrate(std::min(t.x[0], t.x.back()) - 1, t.x[0]); }) && mc::throws([&] { (void)f.Integrate(t.x[0], std::max(t.x[0], t.x.back()) + 1); }), "spline-integral", "outside the table accepted");
	ctx.state(mc::Hash().u(t.h()).u(bc).d(a)); ctx.outcome(mc::Hash().d(std::round(1e9 * P(qs.back())))); ctx.nontrivial();
}
MC_SCENARIO(rational, 4) { // data of a rational function of matching degree is reproduced; nodes are exact; weights reproduce polynomials
	T t = table(ctx, 2, ctx.thorough ? 5 : 4); double c = ctx.pick({0.0, 0.5}); for (int m = 2; m <= t.n; m++) { T r = t; double o = std::min(t.x[0], t.x.back()); auto fn = [&](double x) { double u = x - o + 0.3; return m == 2 ? 3 / (1 + c * u) : m == 3 ? (2 + 3 * u) / (1 + c * u) : m == 4 ? (2 + u) / (1 + c * u + u * u) : (1 + u + 2 * u * u) / (1 + u * c + u * u); }; for (int i = 0; i < t.n; i++) r.y[i] = fn(r.x[i]); RationalInterpRealFunc f(r.vx(), r.vy(), m); for (double x : queries(r)) { try { NEAR(f(x), fn(x), 1e-7, "rational", "order ", m, " at ", x); } catch (RealFuncInterpRuntimeError&) { ctx.check(m > 2 || c == 0, "rational", "pole reported for pole-free data"); } } for (int i = 0; i < t.n; i++) ctx.check(f(r.x[i]) == r.y[i], "rational", "node"); }
	for (int d = 0; d < t.n; d++) { BarycentricRationalInterp b(t.vx(), t.vy(), d); ctx.check(b.getNumPoints() == t.n && b.getBlendingParameter() == d, "barycentric", "parameters"); for (int i = 0; i < t.n; i++) ctx.check(b(t.x[i]) == t.y[i], "barycentric", "node"); for (double x : queries(t)) { D num = 0, den = 0; bool node = false; for (int i = 0; i + d < t.n; i++) { D l = i & 1 ? -1 : 1; for (int j = i; j <= i + d; j++) { node = node || x == t.x[j]; l /= ((D)x - t.x[j]); } if (node) break; num += l * (D)lagr(t, i, d + 1, x); den += l; } if (!node) NEAR(b(x), (double)(num / den), 1e-9, "barycentric", "blending ", d, " at ", x); } ctx.check(mc::throws([&] { (void)b.getWeight(-1); }) && mc::throws([&] { (void)b.getWeight(t.n); }), "barycentric", "index"); } ctx.check(mc::throws([&] { BarycentricRationalInterp(t.vx(), t.vy(), t.n); }) && mc::throws([&] { BarycentricRationalInterp(t.vx(), t.vy(), -1); }), "barycentric", "bad blending accepted");
	ctx.state(mc::Hash().u(t.h()).d(c)); ctx.outcome(mc::Hash().u(t.n)); ctx.nontrivial();
}
MC_SCENARIO(refused, 2) { // tables that do not define a function
	int n = ctx.range(0, 4), dy = ctx.range(-1, 1), m = ctx.range(0, 5); if (n + dy < 0) ctx.prune(); Vector<Real> x(n), y(n + dy); bool dup = n > 1 && ctx.flag(); for (int i = 0; i < n; i++) x[i] = i; if (dup) x[n - 1] = x[0]; bool bad = n < 2 || dy || dup; auto E = [&](bool b, const char* w, std::function<void()> f) { bool t = mc::throws(f); ctx.check(t == b, "refused", w, " n ", n, " values ", n + dy, " order ", m, dup ? " repeated" : "", t ? " refused" : " accepted"); };
	E(bad, "linear", [&] { LinearInterpRealFunc f(x, y); }); E(bad, "spline", [&] { SplineInterpRealFunc f(x, y); }); E(bad || m < 2 || m > n, "polynomial", [&] { PolynomInterpRealFunc f(x, y, m); }); E(bad || m < 2 || m > n, "rational", [&] { RationalInterpRealFunc f(x, y, m); }); if (!dup) E(dy || n <= m, "barycentric", [&] { BarycentricRationalInterp f(x, y, m); }); Matrix<Real> z(n, std::max(1, n + dy)), z0(3, 3); Vector<Real> w(3); for (int i = 0; i < 3; i++) w[i] = i; if (!dup) { E(n != 3, "bilinear", [&] { BilinearInterp2D f(x, w, z0); }); E(n != 3, "bilinear", [&] { BilinearInterp2D f(w, x, z0); }); E(n != 3, "bicubic", [&] { BicubicSplineInterp2D f(x, w, z0); }); E(n != 3, "bicubic", [&] { BicubicSplineInterp2D f(w, x, z0); }); } if (n == 1) { Matrix<Real> one(1, 3), tr(3, 1); E(true, "bilinear", [&] { BilinearInterp2D f(x, w, one); }); E(true, "bilinear", [&] { BilinearInterp2D f(w, x, tr); }); E(true, "bicubic", [&] { BicubicSplineInterp2D f(x, w, one); (void)f(0, 0); }); E(true, "bicubic", [&] { BicubicSplineInterp2D f(w, x, tr); }); }
	ctx.state(mc::Hash().u(n).u(dy + 1).u(m).u(dup)); ctx.outcome(mc::Hash().u(bad)); ctx.nontrivial();
}
MC_SCENARIO(surfaces, 4) { // grids: bilinear against the four-corner formula, bicubic against nested splines
	int m = ctx.range(2, 3), n = ctx.range(2, ctx.thorough ? 4 : 3); T a, b; a.n = m; b.n = n; a.desc = ctx.flag(); b.desc = ctx.flag(); double x = 0; for (int i = 0; i < m; i++) { a.x.push_back(x); x += i ? 0.5 : ctx.pick({1.0, 2.0}); } x = -1; for (int j = 0; j < n; j++) { b.x.push_back(x); x += j ? 0.25 : ctx.pick({1.0, 0.5}); } if (a.desc) std::reverse(a.x.begin(), a.x.end()); if (b.desc) std::reverse(b.x.begin(), b.x.end()); a.y.resize(m); b.y.resize(n); Matrix<Real> z(m, n); int bits = ctx.choose(ctx.thorough ? 64 : 32); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) z(i, j) = (i * n + j < 5 ? bits >> (i * n + j) & 1 : (i * 3 + j * 5) % 4) - 0.5; Vector<Real> va = a.vx(), vb = b.vx(); BilinearInterp2D f(va, vb, z); BicubicSplineInterp2D g(va, vb, z); ctx.check(f.getGridDim1() == m && f.getGridDim2() == n && g.getGridDim1() == m && g.getGridDim2() == n, "grid", "");
	for (double p : queries(a)) for (double q : queries(b)) { int i = std::min(seg(a, p), m - 2), j = std::min(seg(b, q), n - 2); double t = (p - a.x[i]) / (a.x[i + 1] - a.x[i]), u = (q - b.x[j]) / (b.x[j + 1] - b.x[j]); double z00 = z(i, j), z10 = z(i + 1, j), z01 = z(i, j + 1), z11 = z(i + 1, j + 1); double e = (1 - t) * (1 - u) * z00 + t * (1 - u) * z10 + (1 - t) * u * z01 + t * u * z11; NEAR(f(p, q), e, 1e-13, "bilinear", "at ", p, ",", q); double v, d1, d2; f.interpWithDerivatives(p, q, v, d1, d2); NEAR(v, e, 1e-13, "bilinear", "with derivatives"); bool pn = t == 0 || t == 1, qn = u == 0 || u == 1; if (!pn) NEAR(d1, ((1 - u) * (z10 - z00) + u * (z11 - z01)) / (a.x[i + 1] - a.x[i]), 1e-12, "bilinear", "d/dx1 at ", p, ",", q); if (!qn) NEAR(d2, ((1 - t) * (z01 - z00) + t * (z11 - z10)) / (b.x[j + 1] - b.x[j]), 1e-12, "bilinear", "d/dx2 at ", p, ",", q);
		T col = a, dc = a; for (int k = 0; k < m; k++) { T row = b; for (int l = 0; l < n; l++) row.y[l] = z(k, l); auto cs = spline(row, false, 0, 0, false); col.y[k] = cs[j].v(u); dc.y[k] = cs[j].d(u); } auto cc = spline(col, false, 0, 0, false), cd = spline(dc, false, 0, 0, false); NEAR(g(p, q), cc[i].v(t), 1e-11, "bicubic", "at ", p, ",", q); g.interpWithDerivatives(p, q, v, d1, d2); NEAR(v, cc[i].v(t), 1e-11, "bicubic", "with derivatives"); NEAR(d1, cc[i].d(t), 1e-10, "bicubic", "d/dx1 at ", p, ",", q); NEAR(d2, cd[i].v(t), 1e-10, "bicubic", "d/dx2 at ", p, ",", q); }
	ctx.state(mc::Hash().u(m).u(n).u(bits).u(a.desc).u(b.desc).d(a.x[0]).d(b.x[0])); ctx.outcome(mc::Hash().d(f(a.x[0], b.x[1]))); ctx.nontrivial();
}
MC_SCENARIO(curves, 4) { // polylines and spline curves through every small point sequence, open and closed
	int n = ctx.range(2, 4); bool close = ctx.flag(); int range = ctx.choose(3); double t0 = range == 0 ? 0 : range == 1 ? -1 : 2, t1 = range == 0 ? 1 : range == 1 ? 5.5 : 2.5; std::vector<std::pair<double, double>> P; for (int i = 0; i < n; i++) { double px = i == 0 ? 0 : ctx.choose(3), py = i == 0 ? 0 : ctx.choose(2); P.push_back({px, py}); } bool rep = false; for (int i = 0; i < n; i++) if (i || close) rep = rep || P[i] == P[(i + n - 1) % n]; Matrix<Real> M(n, 2); for (int i = 0; i < n; i++) M(i, 0) = P[i].first, M(i, 1) = P[i].second;
	int segs = close ? n : n - 1; W len{0}; for (int i = 0; i < segs; i++) { auto u = P[i], v = P[(i + 1) % n]; len.push_back(len.back() + std::hypot(u.first - v.first, u.second - v.second)); } double L = len.back(); auto at = [&](double t, double& x, double& y) { int i = 0; while (i < segs - 1 && t * L > len[i + 1]) i++; double w = len[i + 1] - len[i], a = w > 0 ? (t * L - len[i]) / w : 0; auto u = P[i], v = P[(i + 1) % n]; x = u.first + a * (v.first - u.first); y = u.second + a * (v.second - u.second); };
	if (range == 0 && L > 0) { LinInterpParametricCurve<2> c(M, close); ctx.check(c.getMinT() == 0 && c.getMaxT() == 1, "polyline", "range"); for (int k = -2; k <= 18; k++) { double t = k / 16.0 + (k % 2 ? 0.003 : 0.001), s = close ? t - std::floor(t) : std::min(1.0, std::max(0.0, t)), x, y; at(s, x, y); auto v = c(t); ctx.check(mc::near_abs(v[0], x, 1e-11) && mc::near_abs(v[1], y, 1e-11), "polyline", close ? "closed" : "open", " at ", t, ": (", v[0], ",", v[1], ") instead of (", x, ",", y, ")"); } for (int i = 0; i < n; i++) { bool dbl = false; for (int j = 0; j <= segs; j++) dbl = dbl || (j != i && len[j] == len[i]); if (!dbl && len[i] / L < 1) { auto v = c(len[i] / L); ctx.check(mc::near_abs(v[0], P[i].first, 1e-11) && mc::near_abs(v[1], P[i].second, 1e-11), "polyline", "vertex ", i); } } }
	if (rep) ctx.check(mc::throws([&] { SplineInterpParametricCurve<2> c(t0, t1, M, close); }), "spline-curve", "repeated point accepted"); else { SplineInterpParametricCurve<2> c(t0, t1, M, close); ctx.check(c.getMinT() == t0 && c.getMaxT() == t1, "spline-curve", "range"); auto TT = [&](double s) { return t0 + s * (t1 - t0); }; for (int i = 0; i <= segs; i++) { double t = i == segs ? t1 : TT(len[i] / L); auto v = c(std::min(t1, std::max(t0, t))); ctx.check(mc::near_abs(v[0], P[i % n].first, 1e-9) && mc::near_abs(v[1], P[i % n].second, 1e-9), "spline-curve", close ? "closed" : "open", " range [", t0, ",", t1, "] vertex ", i, " at ", t, ": (", v[0], ",", v[1], ") instead of (", P[i % n].first, ",", P[i % n].second, ")"); }
		SplineInterpParametricCurve<2> r(M, close); double wob = 0; for (int k = 0; k <= 16; k++) { auto u = r(k / 16.0), v = c(k == 16 ? t1 : TT(k / 16.0)); ctx.check(mc::near_abs(u[0], v[0], 1e-9) && mc::near_abs(u[1], v[1], 1e-9), "spline-curve", "depends on the parameter range at ", k, "/16: ", u[0], " ", v[0]); if (k) { auto w = r((k - 1) / 16.0); wob = std::max(wob, std::hypot(u[0] - w[0], u[1] - w[1])); } } ctx.check(wob <= 2.5 * L / 4, "spline-curve", "jump of ", wob, " on a curve of length ", L); if (close) { ctx.check(mc::throws([&] { (void)c(t0 - 0.25); }) && mc::throws([&] { (void)c(t1 + 0.25); }), "spline-curve", "outside the closed range accepted"); } if (n == 4 && !close) { T xt, yt; xt.n = 4; xt.desc = false; for (int i = 0; i < 4; i++) { xt.x.push_back(len[i] / L); } yt = xt; for (auto& q : P) xt.y.push_back(q.first), yt.y.push_back(q.second); for (int k = 0; k <= 16; k++) { auto v = r(k / 16.0); ctx.check(mc::near_abs(v[0], lagr(xt, 0, 4, k / 16.0), 1e-9) && mc::near_abs(v[1], lagr(yt, 0, 4, k / 16.0), 1e-9), "spline-curve", "four points: not the cubic"); } } }
	Matrix<Real> M3(n, 3); ctx.check(mc::throws([&] { SplineInterpParametricCurve<2> c(M3, close); }), "spline-curve", "wrong dimension accepted"); mc::Hash h; for (auto& q : P) h.d(q.first).d(q.second); ctx.state(h.u(close).u(range)); ctx.outcome(mc::Hash().d(L).u(close)); ctx.nontrivial();
}
MC_SCENARIO(closed_smooth, 2) { // a closed spline curve has no seam: starting at another vertex gives (nearly) the same smooth curve
	int n = ctx.range(8, 12), var = ctx.choose(8), rot = ctx.range(1, n - 1); std::vector<std::pair<double, double>> P; for (int i = 0; i < n; i++) { double a = 2 * M_PI * i / n, r = 1 + 0.05 * (var >> (i % 3) & 1); P.push_back({r * std::cos(a), 1.5 * r * std::sin(a)}); } Matrix<Real> A(n, 2), B(n, 2); double off = 0, L = 0; for (int i = 0; i < n; i++) { A(i, 0) = P[i].first; A(i, 1) = P[i].second; B(i, 0) = P[(i + rot) % n].first; B(i, 1) = P[(i + rot) % n].second; double d = std::hypot(P[i].first - P[(i + 1) % n].first, P[i].second - P[(i + 1) % n].second); L += d; if (i < rot) off += d; } off /= L; SplineInterpParametricCurve<2> a(A, true), b(B, true);
	double worst = 0, seam = 0; for (int k = 0; k < 64; k++) { double t = k / 64.0, s = t - off; if (s < 0) s += 1; auto u = a(t), v = b(s); worst = std::max(worst, std::hypot(u[0] - v[0], u[1] - v[1])); } double e = 1e-4; auto p0 = a(0), p1 = a(e), q1 = a(1 - e), q0 = a(1); for (int j = 0; j < 2; j++) seam = std::max(seam, std::fabs((p1[j] - p0[j]) - (q0[j] - q1[j])) / e / L); ctx.check(worst < 4e-3, "closed-spline", "depends on the first vertex by ", worst); ctx.check(seam < 4e-2, "closed-spline", "tangent jumps by ", seam, " at the seam"); ctx.note(worst, " ", seam); ctx.state(mc::Hash().u(n).u(var).u(rot)); ctx.outcome(mc::Hash().d(std::round(1e5 * worst))); ctx.nontrivial();
}
