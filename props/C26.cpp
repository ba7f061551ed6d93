// vector calculus in Cartesian, spherical, cylindrical and general coordinates; metric tensors; predefined fields; singularity policy
// mc-flags: -O1
#include "mc.h"
#include "mml/core/FieldOperations.h"
#include "mml/core/Fields.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include <array>
using namespace MML; typedef long double L; typedef std::array<L, 3> V; typedef std::array<V, 3> M;
namespace SO = ScalarFieldOperations; namespace VO = VectorFieldOperations; typedef VectorN<Real, 3> X;
static const L PI = 3.14159265358979323846264338327950288L;
static L pw(L x, int n) { L r = 1; while (n-- > 0) r *= x; return r; }
// basis of the scalar fields: the 20 monomials of degree <= 3, and one transcendental field (k == 20)
struct Mono { int a, b, c; bool tr; };
static Mono mono(int k) { if (k == 20) return {0, 0, 0, true}; for (int a = 0; a < 4; a++) for (int b = 0; a + b < 4; b++) for (int c = 0; a + b + c < 4; c++) if (!k--) return {a, b, c, false}; return {0, 0, 0, false}; }
static L d1(L x, int n, int d) { return d == 0 ? pw(x, n) : d == 1 ? (n ? n * pw(x, n - 1) : 0) : (n > 1 ? n * (n - 1) * pw(x, n - 2) : 0); }
static L ev(const Mono& m, const V& x, int i = -1, int j = -1) { int d[3] = {}; if (i >= 0) d[i]++; if (j >= 0) d[j]++;
	if (m.tr) { L e = expl(0.3L * x[0]) * pw(0.3L, d[0]), u = 0.7L * x[1] - 0.4L * x[2]; int n = d[1] + d[2]; L t = n == 0 ? sinl(u) : n == 1 ? cosl(u) : -sinl(u); return e * t * pw(0.7L, d[1]) * pw(-0.4L, d[2]); }
	return d1(x[0], m.a, d[0]) * d1(x[1], m.b, d[1]) * d1(x[2], m.c, d[2]); }
static V grad(const Mono& m, const V& x) { return {ev(m, x, 0), ev(m, x, 1), ev(m, x, 2)}; }
static L lapl(const Mono& m, const V& x) { return ev(m, x, 0, 0) + ev(m, x, 1, 1) + ev(m, x, 2, 2); }
enum Sys { CART, SPH, CYL };
static V tocart(Sys s, const V& q) { if (s == SPH) return {q[0] * sinl(q[1]) * cosl(q[2]), q[0] * sinl(q[1]) * sinl(q[2]), q[0] * cosl(q[1])}; if (s == CYL) return {q[0] * cosl(q[1]), q[0] * sinl(q[1]), q[2]}; return q; }
// rows: the orthonormal basis vectors of the system
static M frame(Sys s, const V& q) { M m{}; if (s == SPH) { L S = sinl(q[1]), C = cosl(q[1]), s2 = sinl(q[2]), c2 = cosl(q[2]); m[0] = {S * c2, S * s2, C}; m[1] = {C * c2, C * s2, -S}; m[2] = {-s2, c2, 0}; } else if (s == CYL) { m[0] = {cosl(q[1]), sinl(q[1]), 0}; m[1] = {-sinl(q[1]), cosl(q[1]), 0}; m[2] = {0, 0, 1}; } else for (int i = 0; i < 3; i++) m[i][i] = 1; return m; }
static V scale(Sys s, const V& q) { if (s == SPH) return {1, q[0], q[0] * sinl(q[1])}; if (s == CYL) return {1, q[0], 1}; return {1, 1, 1}; }
static V mul(const M& a, const V& v) { V r{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i] += a[i][j] * v[j]; return r; }
static V vl(const X& x) { return {x[0], x[1], x[2]}; }
struct SF : IScalarFunction<3> { Mono m; Sys s; mutable int calls = 0; SF(Mono m, Sys s) : m(m), s(s) {} Real operator()(const X& q) const override { calls++; return (Real)ev(m, tocart(s, vl(q))); } };
// vector field: component c of the Cartesian field is the monomial m; seen in the orthonormal basis of the system
struct VF : IVectorFunction<3> { Mono m; int c; Sys s; bool contra; mutable int calls = 0; VF(Mono m, int c, Sys s, bool contra = false) : m(m), c(c), s(s), contra(contra) {} X operator()(const X& q) const override { calls++; V p = vl(q), h = scale(s, p); M f = frame(s, p); L w = ev(m, tocart(s, p)); X r; for (int i = 0; i < 3; i++) r[i] = (Real)(f[i][c] * w / (contra ? h[i] : 1)); return r; } };
static const char* SN[] = {"Cartesian", "spherical", "cylindrical"};
static V place(mc::Ctx& ctx, Sys s) { if (s == SPH) return {(L)ctx.pick({0.4, 1.0, 2.5}), (L)ctx.pick({0.3, 1.5707963267948966, 2.7}), (L)ctx.pick({-2.5, 0.0, 1.0})}; if (s == CYL) return {(L)ctx.pick({0.4, 1.0, 2.5}), (L)ctx.pick({-2.5, 0.0, 1.0, 3.1}), (L)ctx.pick({-1.5, 0.0, 2.0})}; return {(L)ctx.pick({-1.5, 0.0, 0.7}), (L)ctx.pick({-1.0, 0.0, 2.0}), (L)ctx.pick({-0.5, 0.0, 1.2})}; }
static X pt(const V& q) { return X{(Real)q[0], (Real)q[1], (Real)q[2]}; }
static Vec3Sph ps(const X& q) { return Vec3Sph(q[0], q[1], q[2]); }
static Vec3Cyl pc(const X& q) { return Vec3Cyl(q[0], q[1], q[2]); }
static const int ORD[] = {0, 1, 2, 4, 6, 8};   // 0: the default
static L tolg(int o) { return o == 1 ? 2e-6L : o == 2 ? 2e-9L : o == 6 ? 5e-8L : o == 8 ? 5e-7L : 2e-9L; }
// gradient and Laplacian of a basis of scalar fields in the three systems, every order, with the detailed forms
MC_SCENARIO(scalar_fields, 3) {
	Sys s = (Sys)ctx.choose(3); int k = ctx.choose(21); V q0 = place(ctx, s); X q = pt(q0); V qd = vl(q); Mono m = mono(k); SF f(m, s); std::string nm = ctx.cat(SN[s], " field ", k, " at ", q[0], ",", q[1], ",", q[2]); ctx.step(); M fr = frame(s, qd); V h = scale(s, qd); V g = mul(fr, grad(m, tocart(s, qd))); L lp = lapl(m, tocart(s, qd)); L big = 1; for (L v : tocart(s, qd)) big = std::max(big, fabsl(v)); big = big * big * big; L hm = std::min(std::min(L(1), h[1]), h[2]);
	for (int o : ORD) { X r; if (s == CART) r = o ? SO::GradientCart<3>(f, q, o) : SO::GradientCart<3>(f, q); else if (s == SPH) { auto v = o ? X(SO::GradientSpher(f, ps(q), o)) : SO::GradientSpher(f, ps(q)); r = v; } else { auto v = o ? X(SO::GradientCyl(f, pc(q), o)) : X(SO::GradientCyl(f, pc(q))); r = v; }
		for (int i = 0; i < 3; i++) ctx.check(fabsl(r[i] - g[i]) <= tolg(o) * big / hm, "gradient", nm, " order ", o, " component ", i, ": ", r[i], " expected ", (double)g[i]);
		for (int est = 0; est < 2; est++) { FieldOperationConfig c; c.derivative_order = o; c.estimate_error = est; f.calls = 0; auto same = [&](auto res, const char* what) { ctx.check(res.IsSuccess() && res.error_message.empty(), "detailed-status", nm, " ", what); ctx.check(res.function_evaluations == f.calls, "detailed-evaluations", nm, " ", what, " order ", o, " estimate ", est, ": reported ", res.function_evaluations, " made ", f.calls); for (int i = 0; i < 3; i++) { ctx.check(std::fabs(res.value[i] - r[i]) <= 1e-13 * (double)(big / hm), "detailed-value", nm, " ", what, " order ", o, " component ", i, ": ", res.value[i], " plain ", r[i]); ctx.check(est ? res.error[i] >= 0 && std::isfinite(res.error[i]) : res.error[i] == 0, "detailed-error", nm, " ", what, " order ", o, " component ", i, ": ", res.error[i]); if (est) ctx.check(fabsl(res.error[i]) <= 100 * tolg(o) * big / hm * (o == 1 || o == 2 ? 1000 : 1), "detailed-error-size", nm, " ", what, " order ", o, " component ", i, ": ", res.error[i]); } };
			if (s == CART) same(SO::GradientCartDetailed<3>(f, q, c), "GradientCartDetailed"); else if (s == SPH) same(SO::GradientSpherDetailed(f, ps(q), c), "GradientSpherDetailed"); else same(SO::GradientCylDetailed(f, pc(q), c), "GradientCylDetailed"); } }
	Real l = s == CART ? SO::LaplacianCart<3>(f, q) : s == SPH ? SO::LaplacianSpher(f, ps(q)) : SO::LaplacianCyl(f, pc(q)); ctx.check(fabsl(l - lp) <= 5e-6L * big / (hm * hm), "laplacian", nm, ": ", l, " expected ", (double)lp);
	for (int est = 0; est < 2; est++) { FieldOperationConfig c; c.estimate_error = est; f.calls = 0; auto res = s == CART ? SO::LaplacianCartDetailed<3>(f, q, c) : s == SPH ? SO::LaplacianSpherDetailed(f, ps(q), c) : SO::LaplacianCylDetailed(f, pc(q), c); ctx.check(res.IsSuccess(), "detailed-status", nm, " Laplacian"); ctx.check(res.function_evaluations == f.calls, "detailed-evaluations", nm, " Laplacian estimate ", est, ": reported ", res.function_evaluations, " made ", f.calls); ctx.check(std::fabs(res.value - l) <= 1e-9 * (double)(big / (hm * hm)), "detailed-value", nm, " Laplacian: ", res.value, " plain ", l); ctx.check(res.error >= 0 && (est || res.error == 0), "detailed-error", nm, " Laplacian ", res.error); }
	for (int o : {-1, 3, 5, 7, 9, 10}) { ctx.check(mc::throws([&] { if (s == CART) SO::GradientCart<3>(f, q, o); else if (s == SPH) SO::GradientSpher(f, ps(q), o); else SO::GradientCyl(f, pc(q), o); }), "order-refused", nm, " order ", o); FieldOperationConfig c; c.derivative_order = o; auto ask = [&] { return s == CART ? SO::GradientCartDetailed<3>(f, q, c).status : s == SPH ? SO::GradientSpherDetailed(f, ps(q), c).status : SO::GradientCylDetailed(f, pc(q), c).status; }; ctx.check(mc::throws([&] { ask(); }), "order-refused", nm, " detailed, order ", o); c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; ctx.check(ask() == AlgorithmStatus::InvalidInput, "order-status", nm, " order ", o); }
	ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(l)); ctx.nontrivial(); }
// divergence and curl of a basis of vector fields
MC_SCENARIO(vector_fields, 3) {
	Sys s = (Sys)ctx.choose(3); int k = ctx.choose(21), c = ctx.choose(3); V q0 = place(ctx, s); X q = pt(q0); V qd = vl(q), x = tocart(s, qd); Mono m = mono(k); VF f(m, c, s); std::string nm = ctx.cat(SN[s], " field ", k, " along ", c, " at ", q[0], ",", q[1], ",", q[2]); ctx.step(); V h = scale(s, qd); V cu{}; cu[(c + 1) % 3] = ev(m, x, (c + 2) % 3); cu[(c + 2) % 3] = -ev(m, x, (c + 1) % 3); V w = mul(frame(s, qd), cu); L dv = ev(m, x, c); L big = 1; for (L v : x) big = std::max(big, fabsl(v)); big = big * big * big; L hm = std::min(std::min(L(1), h[1]), h[2]), tol = 3e-9L * big / hm;
	Real d = s == CART ? VO::DivCart<3>(f, q) : s == SPH ? VO::DivSpher(f, q) : VO::DivCyl(f, q); ctx.check(fabsl(d - dv) <= tol, "divergence", nm, ": ", d, " expected ", (double)dv); X r; if (s == CART) r = VO::CurlCart(f, q); else if (s == SPH) r = VO::CurlSpher(f, q); else r = VO::CurlCyl(f, q); for (int i = 0; i < 3; i++) ctx.check(fabsl(r[i] - w[i]) <= 2 * tol, "curl", nm, " component ", i, ": ", r[i], " expected ", (double)w[i]);
	for (int est = 0; est < 2; est++) { FieldOperationConfig cf; cf.estimate_error = est; f.calls = 0; auto a = s == CART ? VO::DivCartDetailed<3>(f, q, cf) : s == SPH ? VO::DivSpherDetailed(f, q, cf) : VO::DivCylDetailed(f, q, cf); ctx.check(a.IsSuccess(), "detailed-status", nm, " divergence"); ctx.check(a.function_evaluations == f.calls, "detailed-evaluations", nm, " divergence estimate ", est, ": reported ", a.function_evaluations, " made ", f.calls); ctx.check(fabsl(a.value - d) <= tol / 100, "detailed-value", nm, " divergence"); ctx.check(a.error >= 0 && (est || a.error == 0), "detailed-error", nm, " divergence ", a.error);
		f.calls = 0; auto same = [&](auto b) { ctx.check(b.IsSuccess(), "detailed-status", nm, " curl"); ctx.check(b.function_evaluations == f.calls, "detailed-evaluations", nm, " curl estimate ", est, ": reported ", b.function_evaluations, " made ", f.calls); for (int i = 0; i < 3; i++) { ctx.check(fabsl(b.value[i] - r[i]) <= tol / 100, "detailed-value", nm, " curl"); ctx.check(b.error[i] >= 0 && (est || b.error[i] == 0), "detailed-error", nm, " curl ", b.error[i]); } }; if (s == CART) same(VO::CurlCartDetailed(f, q, cf)); else if (s == SPH) same(VO::CurlSpherDetailed(f, q, cf)); else same(VO::CurlCylDetailed(f, q, cf)); }
	// the general-coordinate operators agree, on contravariant components
	VF fc(m, c, s, true); SF sf(m, s); V g = mul(frame(s, qd), grad(m, x)); auto gen = [&](const MetricTensorField<3>& met, const char* what) { Real d1 = VO::Divergence<3>(fc, q, met), d2 = VO::DivergenceViaDet<3>(fc, q, met); ctx.check(fabsl(d1 - dv) <= 30 * tol / hm, "divergence-christoffel", nm, " ", what, ": ", d1, " expected ", (double)dv); ctx.check(fabsl(d2 - dv) <= 30 * tol / hm, "divergence-determinant", nm, " ", what, ": ", d2, " expected ", (double)dv); if (c == 0) { X gc = SO::Gradient<3>(sf, q, met); for (int i = 0; i < 3; i++) ctx.check(fabsl(gc[i] * h[i] - g[i]) <= 30 * tol / hm, "gradient-metric", nm, " ", what, " component ", i, ": ", gc[i] * (double)h[i], " expected ", (double)g[i]); } };
	if (s == CART) gen(MetricTensorCartesian3D(), "metric"); else if (s == SPH) gen(MetricTensorSpherical(), "metric"); else gen(MetricTensorCylindrical(), "metric"); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(d).d(r[0]).d(r[1]).d(r[2])); ctx.nontrivial(); }
// identities: curl of a gradient and divergence of a curl vanish where the inner operator is the library's own
MC_SCENARIO(identities, 2) {
	Sys s = (Sys)ctx.choose(3); int k = ctx.choose(21), c = ctx.choose(3); static const double Q[3][2][3] = {{{0.7, -1.0, 1.2}, {0, 0.5, -0.5}}, {{1.0, 1.2, 0.5}, {2.5, 2.3, -2.0}}, {{1.0, 0.5, -1.0}, {2.0, -2.5, 0.0}}}; int w = ctx.choose(2); X q{Q[s][w][0], Q[s][w][1], Q[s][w][2]}; Mono m = mono(k); std::string nm = ctx.cat(SN[s], " field ", k, " along ", c, " place ", w); ctx.step();
	SF f(m, s); VF v(m, c, s); VectorFunctionFromStdFunc<3> G([&](const X& p) -> X { if (s == CART) return SO::GradientCart<3>(f, p); if (s == SPH) return SO::GradientSpher(f, ps(p)); return SO::GradientCyl(f, pc(p)); }), C([&](const X& p) -> X { if (s == CART) return VO::CurlCart(v, p); if (s == SPH) return VO::CurlSpher(v, p); return VO::CurlCyl(v, p); });
	X z; if (s == CART) z = VO::CurlCart(G, q); else if (s == SPH) z = VO::CurlSpher(G, q); else z = VO::CurlCyl(G, q); Real dc = s == CART ? VO::DivCart<3>(C, q) : s == SPH ? VO::DivSpher(C, q) : VO::DivCyl(C, q), dg = s == CART ? VO::DivCart<3>(G, q) : s == SPH ? VO::DivSpher(G, q) : VO::DivCyl(G, q); for (int i = 0; i < 3; i++) ctx.check(std::fabs(z[i]) <= 1e-6, "curl-grad", nm, ": ", z[i]); ctx.check(std::fabs(dc) <= 1e-6, "div-curl", nm, ": ", dc); ctx.check(fabsl(dg - lapl(m, tocart(s, vl(q)))) <= 1e-6L, "div-grad", nm, ": ", dg); ctx.state(mc::Hash().s(nm)); ctx.nontrivial(); }
// metric tensors: components, inverse, Christoffel symbols, raising and lowering, covariant derivatives
struct Geo { int n; std::function<L(int, int, const L*)> g; };
static L gs(int k, int i, int j, const L* q) { auto J3 = [&](L (&J)[3][3]) { L r = 0; for (int a = 0; a < 3; a++) r += J[a][i] * J[a][j]; return r; };
	switch (k) { case 0: return i == j; case 1: case 7: return i != j ? 0 : i == 0 ? 1 : i == 1 ? q[0] * q[0] : q[0] * q[0] * sinl(q[1]) * sinl(q[1]); case 2: case 8: return i != j ? 0 : i == 1 ? q[0] * q[0] : 1; case 3: return i != j ? 0 : i ? 1 : -1;
	case 4: { static const L A[3][3] = {{2, 0.5L, -0.3L}, {0.5L, 1, 0.2L}, {-0.3L, 0.2L, 3}}; return A[i][j]; }
	case 5: { L J[3][3] = {{1, 0.6L * q[1], 0}, {0.2L * q[2], 1, 0.2L * q[0]}, {0, 0.3L * q[2], 1 + 0.3L * q[1]}}; return J3(J); }
	default: return i != j ? 0.1L * sinl(q[0] + q[1]) : i ? sinl(q[0]) * sinl(q[0]) + 0.2L : 1 + 0.1L * q[1] * q[1]; } }
template<int N> struct User : MetricTensorField<N> { int k; User(int k) : k(k) {} Real Component(int i, int j, const VectorN<Real, N>& p) const override { L q[4]; for (int a = 0; a < N; a++) q[a] = p[a]; return (Real)gs(k, i, j, q); } };
template<int N> static void metric(mc::Ctx& ctx, const MetricTensorField<N>& met, int k, const std::vector<std::vector<double>>& P, L slack) {
	int w = ctx.choose((int)P.size()); VectorN<Real, N> p; L q[4] = {}; for (int i = 0; i < N; i++) q[i] = p[i] = P[w][i]; std::string nm = ctx.cat("metric ", k, " place ", w); ctx.step(); L g[4][4], gi[4][4], dg[4][4][4], big = 1;
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { g[i][j] = gs(k, i, j, q); big = std::max(big, fabsl(g[i][j])); for (int c = 0; c < N; c++) { L e = 1e-3L, s[4]; for (int u = 0; u < 4; u++) { L z[4] = {q[0], q[1], q[2], q[3]}; z[c] += e * (u < 2 ? u - 2 : u - 1); s[u] = gs(k, i, j, z); } dg[i][j][c] = (s[0] - 8 * s[1] + 8 * s[2] - s[3]) / (12 * e); } }
	{ L a[4][8] = {}; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) a[i][j] = g[i][j]; a[i][N + i] = 1; } for (int c = 0; c < N; c++) { int b = c; for (int i = c; i < N; i++) if (fabsl(a[i][c]) > fabsl(a[b][c])) b = i; std::swap(a[b], a[c]); L d = a[c][c]; for (int j = 0; j < 2 * N; j++) a[c][j] /= d; for (int i = 0; i < N; i++) if (i != c) { L t = a[i][c]; for (int j = 0; j < 2 * N; j++) a[i][j] -= t * a[c][j]; } } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) gi[i][j] = a[i][N + j]; }
	L bigi = 1; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) bigi = std::max(bigi, fabsl(gi[i][j])); auto G = met.GetCovariantMetric(p); auto GI = met.GetContravariantMetric(p); auto T = met(p); L t1 = slack + 1e-14L;
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { ctx.check(fabsl(G[i][j] - g[i][j]) <= t1 * big && fabsl(T(i, j) - g[i][j]) <= t1 * big && fabsl(met.Component(i, j, p) - g[i][j]) <= t1 * big, "components", nm, " ", i, j, ": ", G[i][j], " expected ", (double)g[i][j]); ctx.check(fabsl(GI[i][j] - gi[i][j]) <= t1 * bigi * bigi * big, "inverse", nm, " ", i, j, ": ", GI[i][j], " expected ", (double)gi[i][j]); } ctx.check(T.NumCovar() == 2 && T.NumContravar() == 0, "variance", nm);
	L ch[4][4][4], t2 = (slack > 0 ? 2e-7L : 1e-9L) * big * bigi; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int l = 0; l < N; l++) { ch[i][j][l] = 0; for (int m = 0; m < N; m++) ch[i][j][l] += gi[i][m] * (dg[m][l][j] + dg[m][j][l] - dg[j][l][m]) / 2; Real r = met.GetChristoffelSymbolSecondKind(i, j, l, p); ctx.check(fabsl(r - ch[i][j][l]) <= t2, "christoffel-second", nm, " ", i, j, l, ": ", r, " expected ", (double)ch[i][j][l]); L e = (dg[l][i][j] + dg[l][j][i] - dg[i][j][l]) / 2; Real r1 = met.GetChristoffelSymbolFirstKind(i, j, l, p); ctx.check(fabsl(r1 - e) <= t2 * big * 4, "christoffel-first", nm, " ", i, j, l, ": ", r1, " expected ", (double)e); }
	for (int v = 0; v < N; v++) { VectorN<Real, N> u; for (int i = 0; i < N; i++) u[i] = v == i ? 2.0 : v * 0.5 - i * 0.25; auto lo = met.LowerIndex(u, p), up = met.RaiseIndex(u, p), back = met.RaiseIndex(lo, p); for (int i = 0; i < N; i++) { L a = 0, b = 0; for (int j = 0; j < N; j++) a += g[i][j] * u[j], b += gi[i][j] * u[j]; ctx.check(fabsl(lo[i] - a) <= 10 * t1 * big, "lower-vector", nm, ": ", lo[i], " expected ", (double)a); ctx.check(fabsl(up[i] - b) <= 10 * t1 * big * bigi * bigi, "raise-vector", nm, ": ", up[i], " expected ", (double)b); ctx.check(fabsl(back[i] - u[i]) <= 50 * t1 * big * big * bigi * bigi, "raise-of-lower", nm, ": ", back[i]); } }
	for (int pat = 0; pat < 4; pat++) for (int idx = 0; idx < 2; idx++) { Tensor2<N> t(2, 0); t.setContravar(0, pat & 1); t.setContravar(1, pat >> 1); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t(i, j) = 1.5 * i - j * j + 0.5 * i * j + 1; bool up = (pat >> idx) & 1; auto r = up ? met.LowerIndex(t, idx, p) : met.RaiseIndex(t, idx, p); std::string tn = ctx.cat(nm, up ? " lower" : " raise", " index ", idx, " of pattern ", pat); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { L e = 0; for (int m = 0; m < N; m++) { L x = idx ? (up ? g[j][m] : gi[j][m]) : (up ? g[i][m] : gi[i][m]); e += x * (idx ? t(i, m) : t(m, j)); } ctx.check(fabsl(r(i, j) - e) <= 100 * t1 * big * bigi * bigi, "tensor-index", tn, " ", i, j, ": ", r(i, j), " expected ", (double)e); } for (int i = 0; i < 2; i++) ctx.check(r.IsContravar(i) == (i == idx ? !up : t.IsContravar(i)), "tensor-variance", tn, " index ", i); ctx.check(r.NumContravar() == r.IsContravar(0) + r.IsContravar(1) && r.NumCovar() + r.NumContravar() == 2, "tensor-variance", tn); }
	VectorFunctionFromStdFunc<N> F([](const VectorN<Real, N>& x) { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = 1 + i + 0.5 * x[i] * x[(i + 1) % N] - 0.25 * x[0]; return r; }); auto val = F(p); for (int j = 0; j < N; j++) { auto a = met.CovariantDerivativeContravar(F, j, p), b = met.CovariantDerivativeCovar(F, j, p); for (int i = 0; i < N; i++) { L d = (j == i ? 0.5L * q[(i + 1) % N] : 0) + (j == (i + 1) % N ? 0.5L * q[i] : 0) - (j == 0 ? 0.25L : 0), x = d, y = d; for (int m = 0; m < N; m++) x += ch[i][m][j] * val[m], y -= ch[m][i][j] * val[m]; L t = 100 * t2; ctx.check(fabsl(a[i] - x) <= t && fabsl(met.CovariantDerivativeContravarComp(F, i, j, p) - x) <= t, "covariant-derivative-contra", nm, " ", i, ";", j, ": ", a[i], " expected ", (double)x); ctx.check(fabsl(b[i] - y) <= t && fabsl(met.CovariantDerivativeCovarComp(F, i, j, p) - y) <= t, "covariant-derivative-co", nm, " ", i, ";", j, ": ", b[i], " expected ", (double)y); } }
	ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(GI[0][0]).d(G[N - 1][N - 1])); ctx.nontrivial(); }
MC_SCENARIO(metrics, 2) {
	int k = ctx.choose(9); static const std::vector<std::vector<double>> S = {{1, 1, 0.5}, {0.5, 2.5, -3}, {4, 1.5707963267948966, 0}, {2, 0.2, 3.1}}, C = {{1, 1, 0.5}, {0.5, 2.5, -3}, {4, 0, 0}, {2, -2, 7}}, A = {{0, 0, 0}, {0.5, -0.5, 1}, {-1, 0.3, 0.2}}, Mk = {{0, 0, 0, 0}, {1, -2, 3, 0.5}}, U = {{1, 0.5}, {0.4, -1}, {2, 0}};
	switch (k) { case 0: { MetricTensorCartesian3D m; return metric<3>(ctx, m, 0, A, 0); } case 1: { MetricTensorSpherical m; int w = ctx.choose((int)S.size()); X p{S[w][0], S[w][1], S[w][2]}; MetricTensorSphericalContravar mc; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { L q[3] = {p[0], p[1], p[2]}; L e = i == j ? 1 / gs(1, i, i, q) : 0; ctx.check(fabsl(mc.Component(i, j, p) - e) <= 1e-14L * (1 + e), "spherical-contravariant", "place ", w, " ", i, j); } auto T = mc(p); ctx.check(T.NumContravar() == 2 && T.NumCovar() == 0, "variance", "spherical contravariant"); return metric<3>(ctx, m, 1, {S[w]}, 0); } case 2: { MetricTensorCylindrical m; return metric<3>(ctx, m, 2, C, 0); } case 3: { MetricTensorMinkowski m; return metric<4>(ctx, m, 3, Mk, 0); } case 4: case 5: { User<3> m(k); return metric<3>(ctx, m, k, A, 0); } case 6: { User<2> m(k); return metric<2>(ctx, m, k, U, 0); }
	case 7: { CoordTransfSphericalToCartesian t; MetricTensorFromCoordTransf<Vector3Spherical, Vector3Cartesian, 3> m(t); return metric<3>(ctx, m, 7, S, 1e-9L); } default: { CoordTransfCylindricalToCartesian t; MetricTensorFromCoordTransf<Vector3Cylindrical, Vector3Cartesian, 3> m(t); return metric<3>(ctx, m, 8, C, 1e-9L); } } }
// predefined fields: closed form, symmetry of the derivatives (sources and circulation), behaviour on the singular set
MC_SCENARIO(predefined, 2) {
	using namespace Fields; double c = ctx.pick({1.0, -2.5, 10.0}); X p; for (int i = 0; i < 3; i++) p[i] = ctx.pick({-1.5, 0.0, 0.8, 2.0}); int d = ctx.choose(4); static const double DIR[4][3] = {{0, 0, 1}, {1, 0, 0}, {1, 2, 2}, {-1, 1, 0.5}}; X dir{DIR[d][0], DIR[d][1], DIR[d][2]}; X cen{0.25 * d, -0.1 * d, 0.5}; std::string nm = ctx.cat("constant ", c, " direction ", d, " at ", p[0], ",", p[1], ",", p[2]); ctx.step();
	auto near = [&](const X& a, const V& e, const char* what) { L s = 1e-300L; for (L v : e) s = std::max(s, fabsl(v)); for (int i = 0; i < 3; i++) ctx.check(fabsl(a[i] - e[i]) <= 1e-13L * s, what, nm, " component ", i, ": ", a[i], " expected ", (double)e[i]); }; auto val = [&](Real a, L e, const char* what) { ctx.check(fabsl(a - e) <= 1e-13L * (fabsl(e) + 1e-300L), what, nm, ": ", a, " expected ", (double)e); };
	V x = vl(p); L r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], r = sqrtl(r2), rho2 = x[0] * x[0] + x[1] * x[1]; V n{(L)dir[0], (L)dir[1], (L)dir[2]}; L dn = sqrtl(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); V u{n[0] / dn, n[1] / dn, n[2] / dn}; auto cross = [](const V& a, const V& b) { return V{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; };
	if (r > 0) { V F{-x[0] / (r * r2), -x[1] / (r * r2), -x[2] / (r * r2)}, Fc{c * F[0], c * F[1], c * F[2]}, Fm{-F[0], -F[1], -F[2]}; near(InverseRadialPotentialForceFieldCart(p), F, "inverse-radial-force"); near(InverseRadialPotentialForceFieldCart(c, p), Fc, "inverse-radial-force"); near(InverseRadialForceFieldCart(c)(p), Fc, "inverse-radial-force"); near(InverseRadialForceFieldCart()(p), Fm, "inverse-radial-force"); val(InverseRadialPotentialFieldCart(p), 1 / r, "inverse-radial-potential"); val(InverseRadialPotentialFieldCart(c, p), c / r, "inverse-radial-potential"); val(InverseRadialFieldCart(c)(p), c / r, "inverse-radial-potential"); val(InverseRadialFieldCart()(p), -1 / r, "inverse-radial-potential"); X ps{(double)r, 1.0, 2.0}, pcy{(double)sqrtl(rho2), 1.0, p[2]}; val(InverseRadialPotentialFieldSpher(c, ps), c / r, "inverse-radial-potential"); val(InverseRadialPotentialFieldSpher(ps), 1 / r, "inverse-radial-potential"); val(InverseRadialFieldSpher(c)(ps), c / r, "inverse-radial-potential"); val(InverseRadialPotentialFieldCyl(c, pcy), c / r, "inverse-radial-potential"); val(InverseRadialPotentialFieldCyl(pcy), 1 / r, "inverse-radial-potential"); near(InverseRadialPotentialForceFieldSph(c, ps), V{-c / r2, 0, 0}, "inverse-radial-force"); near(InverseRadialPotentialForceFieldSph(ps), V{-1 / r2, 0, 0}, "inverse-radial-force"); near(InverseRadialForceFieldSpher(c)(ps), V{-c / r2, 0, 0}, "inverse-radial-force"); InverseRadialFieldCart pot(c); X g = SO::GradientCart<3>(pot, p); for (int i = 0; i < 3; i++) ctx.check(fabsl(g[i] - Fc[i]) <= 1e-9L * fabsl(c) * (1 + 1 / (r2 * r2)), "force-is-gradient", nm); }
	V lc{0, 0, 0}; if (rho2 > 0) lc = {-c * x[1] / rho2, c * x[0] / rho2, 0}; near(InfiniteLineCurrentField(c)(p), lc, "line-current"); near(PotentialVortexField(c)(p), lc, "potential-vortex");
	{ Line3D ln(Pnt3Cart(cen[0], cen[1], cen[2]), Vec3Cart(dir[0], dir[1], dir[2])); V y{x[0] - cen[0], x[1] - cen[1], x[2] - cen[2]}; auto around = [&](const V& y) { L t = y[0] * u[0] + y[1] * u[1] + y[2] * u[2]; V q{y[0] - t * u[0], y[1] - t * u[1], y[2] - t * u[2]}; L s = q[0] * q[0] + q[1] * q[1] + q[2] * q[2]; if (s < 1e-24L) return V{0, 0, 0}; V b = cross(u, q); for (L& e : b) e *= c / s; return b; }; V e = around(y); X b = InfiniteLineCurrentFieldGeneral(ln, c)(p); L s = fabsl(e[0]) + fabsl(e[1]) + fabsl(e[2]); for (int i = 0; i < 3; i++) ctx.check(fabsl(b[i] - e[i]) <= 1e-12L * s, "line-current-general", nm, " component ", i, ": ", b[i], " expected ", (double)e[i]); V e0 = around(x); X pv = PotentialVortexField(c, dir)(p); s = fabsl(e0[0]) + fabsl(e0[1]) + fabsl(e0[2]); for (int i = 0; i < 3; i++) ctx.check(fabsl(pv[i] - e0[i]) <= 1e-12L * s, "potential-vortex", nm, " component ", i, ": ", pv[i], " expected ", (double)e0[i]); }
	near(VortexField(dir)(p), cross(n, x), "vortex"); near(VortexField(c)(p), cross(V{0, 0, c}, x), "vortex"); near(SaddleField(c)(p), V{c * x[0], -c * x[1], 0}, "saddle"); L sg = x[2] >= 0 ? c : -c; near(InfinitePlaneCurrentField(c, dir)(p), V{sg * n[0], sg * n[1], sg * n[2]}, "plane-current"); near(InfinitePlaneCurrentField(c)(p), V{0, sg, 0}, "plane-current");
	{ V y{x[0] - cen[0], x[1] - cen[1], x[2] - cen[2]}; L s2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], s = sqrtl(s2); if (s > 0) { near(SourceSinkField(c, cen)(p), V{c * y[0] / (s * s2), c * y[1] / (s * s2), c * y[2] / (s * s2)}, "source"); L t = n[0] * y[0] + n[1] * y[1] + n[2] * y[2]; V e; L q = 0; for (int i = 0; i < 3; i++) e[i] = (3 * t * y[i] - s2 * n[i]) / (s2 * s2 * s), q = std::max(q, fabsl(e[i])); near(DipoleField(dir, cen)(p), e, "dipole"); } else { near(SourceSinkField(c, cen)(p), V{0, 0, 0}, "source"); near(DipoleField(dir, cen)(p), V{0, 0, 0}, "dipole"); } L sig = 0.5L + d; val(GaussianBumpField(c, (double)sig, cen)(p), c * expl(-s2 / (sig * sig)), "gaussian"); L mh = c * (1 - s2 / (sig * sig)) * expl(-s2 / (2 * sig * sig)); ctx.check(fabsl(MexicanHatField(c, (double)sig, cen)(p) - mh) <= 1e-14L * fabsl(c) * (1 + s2 / (sig * sig)), "mexican-hat", nm); }
	// sources and circulation at regular points
	auto dc = [&](const IVectorFunction<3>& f, L div, const V& curl, L reg, const char* what) { if (reg < 0.3L) return; L t = 1e-7L * (fabsl(c) + 1); ctx.check(fabsl(VO::DivCart<3>(f, p) - div) <= t, "field-divergence", nm, " ", what); X q = VO::CurlCart(f, p); for (int i = 0; i < 3; i++) ctx.check(fabsl(q[i] - curl[i]) <= t, "field-curl", nm, " ", what); }; const V Z{0, 0, 0}; dc(InverseRadialForceFieldCart(c), 0, Z, r, "inverse radial"); dc(InfiniteLineCurrentField(c), 0, Z, sqrtl(rho2), "line"); dc(VortexField(dir), 0, V{2 * n[0], 2 * n[1], 2 * n[2]}, 1, "vortex"); dc(SaddleField(c), 0, Z, 1, "saddle"); dc(SourceSinkField(c), 0, Z, r, "source"); dc(DipoleField(dir), 0, Z, r, "dipole"); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(lc[0]).d(lc[1])); ctx.nontrivial(); }
// what each operator does on the axis, at the pole and at the origin under every policy
MC_SCENARIO(singularities, 2) {
	auto pol = (SingularityPolicy)ctx.choose(5); const double T = Singularity::DEFAULT_SINGULARITY_TOL; std::string nm = ctx.cat("policy ", SingularityPolicyToString(pol)); int what = ctx.choose(3); ctx.step();
	auto expect = [&](const std::string& m, double num, double den, double tol, auto call) { bool thrown = false; double r = 0; try { r = call(); } catch (const DomainError& e) { thrown = true; ctx.check(std::string(e.what()).size() > 0, "message", m); } bool sing = std::fabs(den) < tol; ctx.check(thrown == (sing && pol == SingularityPolicy::Throw), "throws", m, ": ", thrown); if (thrown) return; double e = num / den; if (sing) switch (pol) { case SingularityPolicy::ReturnNaN: ctx.check(std::isnan(r), "nan", m, ": ", r); return; case SingularityPolicy::ReturnInf: e = num >= 0 ? INFINITY : -INFINITY; break; case SingularityPolicy::Clamp: e = num / (den >= 0 ? tol : -tol); break; case SingularityPolicy::ReturnZero: e = 0; break; default: break; } ctx.check(std::isinf(e) ? r == e : std::fabs(r - e) <= 4e-16 * std::fabs(e), "value", m, ": ", r, " expected ", e); };
	if (what == 0) { double num = ctx.pick({1.0, -3.0, 0.0, 1e-5}), den = ctx.pick({0.0, -0.0, 1e-13, -1e-13, 9.9e-13, 1e-12, -1e-12, 1e-6, 2.0, -1e5, 1e-300}), tol = ctx.pick({-1.0, 1e-8, 1.0}); expect(ctx.cat(nm, " ", num, "/", den, " tol ", tol), num, den, tol < 0 ? T : tol, [&] { return tol < 0 ? Singularity::SafeDivide(num, den, pol) : Singularity::SafeDivide(num, den, pol, "here", tol); }); ctx.check(Singularity::IsNearZero(den) == (std::fabs(den) < T), "near-zero", den); }
	else if (what == 1) { double r = ctx.pick({0.0, 1e-13, 1e-12, 1e-7, 1e-5, 0.5, 3.0}), th = ctx.pick({0.0, 1e-13, 1e-7, 0.5, 1.5707963267948966, 3.0, 3.14159265358979323846}); std::string m = ctx.cat(nm, " r ", r, " theta ", th); double s = std::sin(th), tol = ctx.pick({T, 1e-6, 0.3}); expect(m + " 1/r", 1, r, tol, [&] { return tol == T ? Singularity::SafeInverseR(r, pol) : Singularity::SafeInverseR(r, pol, "here", tol); }); expect(m + " 1/r2", 1, r * r, tol, [&] { return tol == T ? Singularity::SafeInverseR2(r, pol) : Singularity::SafeInverseR2(r, pol, "here", tol); }); expect(m + " 1/rsin", 1, r * s, tol, [&] { return tol == T ? Singularity::SafeInverseRSinTheta(r, th, pol) : Singularity::SafeInverseRSinTheta(r, th, pol, "here", tol); }); expect(m + " 1/r2sin2", 1, r * r * s * s, tol, [&] { return tol == T ? Singularity::SafeInverseR2Sin2Theta(r, th, pol) : Singularity::SafeInverseR2Sin2Theta(r, th, pol, "here", tol); }); expect(m + " cot/r2", std::cos(th), r * r * s, tol, [&] { return tol == T ? Singularity::SafeCotThetaOverR2(r, th, pol) : Singularity::SafeCotThetaOverR2(r, th, pol, "here", tol); }); bool o = r < tol, po = std::fabs(s) < tol; ctx.check(Singularity::IsAtSphericalOrigin(r, tol) == o && Singularity::IsAtCylindricalAxis(r, tol) == o && Singularity::IsAtSphericalPole(th, tol) == po && Singularity::IsAtSphericalSingularity(r, th, tol) == (o || po), "predicates", m); std::string ds = Singularity::DescribeSphericalSingularity(r, th, tol); ctx.check(ds.find(o ? "origin" : po ? "pole" : "none") == 0, "describe", m, ": ", ds); }
	else { int op = ctx.choose(7); double r = ctx.pick({0.0, 1.5}), th = ctx.pick({0.0, 1.1, 3.14159265358979323846}); bool sph = op == 0 || op == 2 || op == 3 || op == 5; bool sing = r == 0 || (sph && std::sin(th) < 1e-12); SF f(mono(20), CART); VF v(mono(20), 1, CART); X p{r, th, 0.7}; std::string m = ctx.cat(nm, " operator ", op, " r ", r, " theta ", th); auto call = [&](EvaluationExceptionPolicy ep, bool det, double* out, AlgorithmStatus* st) { FieldOperationConfig c; c.exception_policy = ep; auto put3 = [&](const auto& w) { for (int i = 0; i < 3; i++) out[i] = w[i]; }; auto D = [&](const auto& w) { *st = w.status; ctx.check(w.IsSuccess() || !w.error_message.empty(), "message", m); return w.value; }; out[1] = out[2] = 0; *st = AlgorithmStatus::Success;
			switch (op) { case 0: det ? put3(D(SO::GradientSpherDetailed(f, ps(p), c, pol))) : put3(SO::GradientSpher(f, ps(p), pol)); break; case 1: det ? put3(D(SO::GradientCylDetailed(f, pc(p), c, pol))) : put3(SO::GradientCyl(f, pc(p), pol)); break; case 2: out[0] = det ? D(SO::LaplacianSpherDetailed(f, ps(p), c, pol)) : SO::LaplacianSpher(f, ps(p), pol); break; case 3: out[0] = det ? D(VO::DivSpherDetailed(v, p, c, pol)) : VO::DivSpher(v, p, pol); break; case 4: out[0] = det ? D(VO::DivCylDetailed(v, p, c, pol)) : VO::DivCyl(v, p, pol); break; case 5: det ? put3(D(VO::CurlSpherDetailed(v, p, c, pol))) : put3(VO::CurlSpher(v, p, pol)); break; default: det ? put3(D(VO::CurlCylDetailed(v, p, c, pol))) : put3(VO::CurlCyl(v, p, pol)); } };
		double a[3], b[3], e[3]; AlgorithmStatus st; bool want = sing && pol == SingularityPolicy::Throw; bool t1 = mc::throws([&] { call(EvaluationExceptionPolicy::Propagate, false, a, &st); }), t2 = mc::throws([&] { call(EvaluationExceptionPolicy::Propagate, true, b, &st); }), t3 = mc::throws([&] { call(EvaluationExceptionPolicy::ConvertToStatus, true, e, &st); }); ctx.check(t1 == want && t2 == want && !t3, "operator-throws", m, ": ", t1, t2, t3, " expected ", want); ctx.check(st == (want ? AlgorithmStatus::InvalidInput : AlgorithmStatus::Success), "operator-status", m); if (!want) for (int i = 0; i < 3; i++) ctx.check(std::isnan(a[i]) ? std::isnan(b[i]) && std::isnan(e[i]) : (std::fabs(a[i] - b[i]) <= 1e-9 * std::fabs(a[i]) && std::fabs(a[i] - e[i]) <= 1e-9 * std::fabs(a[i])) || (a[i] == b[i] && a[i] == e[i]), "operator-detailed", m, " component ", i, ": ", a[i], " ", b[i], " ", e[i]); if (sing && pol == SingularityPolicy::ReturnNaN) ctx.check(std::isnan(a[0]) || std::isnan(a[1]) || std::isnan(a[2]), "operator-nan", m); if (pol == SingularityPolicy::ReturnZero || pol == SingularityPolicy::Clamp) ctx.check(std::isfinite(a[0]) && std::isfinite(a[1]) && std::isfinite(a[2]), "operator-finite", m); if (op < 2 && !want) { X g = SO::GradientCart<3>(f, p); ctx.check(std::fabs(a[0] - g[0]) <= 1e-12 && (op == 0 || std::fabs(a[2] - g[2]) <= 1e-12), "operator-regular-part", m); } }
	ctx.state(mc::Hash().s(nm).d(what)); ctx.nontrivial(); }
