// coordinate transformations: maps, inverses, bases, Jacobians, vector and tensor transformation, copies
// mc-flags: -O1
#include "mc.h"
#include "mml/core/CoordTransf/CoordTransfSpherical.h"
#include "mml/core/CoordTransf/CoordTransfCylindrical.h"
#include "mml/core/CoordTransf/CoordTransf2D.h"
#include "mml/core/CoordTransf/CoordTransf3D.h"
#include "mml/core/CoordTransf/CoordTransfLorentz.h"
#include <array>
#include <memory>
using namespace MML; typedef long double L; typedef std::array<L, 4> V; typedef std::array<V, 4> M;
static const L PI = 3.14159265358979323846264338327950288L;
enum Kind { LIN, SPH, CYL, POL, TOSPH, TOCYL };
struct Ref { int n; Kind k; std::function<V(V)> f, g; std::function<M(V)> J; };
static M inv(const M& a, int n) { L w[4][8] = {}; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) w[i][j] = a[i][j]; w[i][n + i] = 1; } for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(w[i][c]) > fabsl(w[p][c])) p = i; for (int j = 0; j < 2 * n; j++) std::swap(w[c][j], w[p][j]); L d = w[c][c]; for (int j = 0; j < 2 * n; j++) w[c][j] /= d; for (int i = 0; i < n; i++) if (i != c) { L m = w[i][c]; for (int j = 0; j < 2 * n; j++) w[i][j] -= m * w[c][j]; } } M r{}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = w[i][n + j]; return r; }
static V mul(const M& a, const V& x, int n) { V r{}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i] += a[i][j] * x[j]; return r; }
static M mulm(const M& a, const M& b) { M r{}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) r[i][j] += a[i][k] * b[k][j]; return r; }
static Ref lin(int n, M a) { M b = inv(a, n); return {n, LIN, [=](V x) { return mul(a, x, n); }, [=](V x) { return mul(b, x, n); }, [=](V) { return a; }}; }
static M rot(int ax, L t) { M r{}; int i = (ax + 1) % 3, j = (ax + 2) % 3; r[ax][ax] = 1; r[i][i] = r[j][j] = cosl(t); r[i][j] = -sinl(t); r[j][i] = sinl(t); return r; }
static V sph2c(V q) { return {q[0] * sinl(q[1]) * cosl(q[2]), q[0] * sinl(q[1]) * sinl(q[2]), q[0] * cosl(q[1])}; }
static V c2sph(V q) { return {sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]), atan2l(sqrtl(q[0] * q[0] + q[1] * q[1]), q[2]), atan2l(q[1], q[0])}; }
static V cyl2c(V q) { return {q[0] * cosl(q[1]), q[0] * sinl(q[1]), q[2]}; }
static V c2cyl(V q) { return {sqrtl(q[0] * q[0] + q[1] * q[1]), atan2l(q[1], q[0]), q[2]}; }
static M Jsph(V q) { L s = sinl(q[1]), c = cosl(q[1]), S = sinl(q[2]), C = cosl(q[2]), r = q[0]; M m{}; m[0] = {s * C, r * c * C, -r * s * S}; m[1] = {s * S, r * c * S, r * s * C}; m[2] = {c, -r * s, 0}; return m; }
static M Jcyl(V q) { M m{}; m[0] = {cosl(q[1]), -q[0] * sinl(q[1]), 0}; m[1] = {sinl(q[1]), q[0] * cosl(q[1]), 0}; m[2] = {0, 0, 1}; return m; }
static Ref rsph() { return {3, SPH, sph2c, c2sph, Jsph}; }
static Ref rcyl() { return {3, CYL, cyl2c, c2cyl, Jcyl}; }
static Ref rpol() { return {2, POL, [](V q) { return V{q[0] * cosl(q[1]), q[0] * sinl(q[1])}; }, [](V q) { return V{sqrtl(q[0] * q[0] + q[1] * q[1]), atan2l(q[1], q[0])}; }, [](V q) { M m{}; m[0] = {cosl(q[1]), -q[0] * sinl(q[1])}; m[1] = {sinl(q[1]), q[0] * cosl(q[1])}; return m; }}; }
static Ref rtosph() { return {3, TOSPH, c2sph, sph2c, [](V q) { return inv(Jsph(c2sph(q)), 3); }}; }
static Ref rtocyl() { return {3, TOCYL, c2cyl, cyl2c, [](V q) { return inv(Jcyl(c2cyl(q)), 3); }}; }
// runs fn on the object itself or on a copy that has outlived its (destroyed, overwritten) original
template<class T, class Fn, class... A> static void run(mc::Ctx& ctx, Fn& fn, const std::string& nm, const Ref& r, A... a) {
	struct Slot { alignas(T) char b[sizeof(T)]; }; std::unique_ptr<Slot> s(new Slot); T* o = new (s->b) T(a...);
	if (!ctx.flag()) { fn(nm, *o, r); o->~T(); } else { T c(*o); o->~T(); std::memset(s->b, 0xA5, sizeof(T)); fn(nm + " (copy)", c, r); } }
template<int N> static VectorN<Real, N> vn(const V& v) { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = (double)v[i]; return r; }
template<class X, int N> static X mk(const V& v) { X r; for (int i = 0; i < N; i++) r[i] = (double)v[i]; return r; }
static const V BA[][3] = {{V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}}, {V{2, 0, 0}, V{0, 0, -1}, V{0, 3, 0}}, {V{1, 2, 2}, V{2, 1, -2}, V{2, -2, 1}}, {V{0.6L, 0.8L, 0}, V{-0.8L, 0.6L, 0}, V{0, 0, 1}}, {V{0.25L, 0, 0}, V{0, 0.25L, 0}, V{0, 0, 0.5L}}};
static const V OB[][3] = {{V{1, 0, 0}, V{1, 1, 0}, V{0, 0, 1}}, {V{1, 0, 0}, V{0.5L, 2, 0}, V{-1, 0.5L, 1}}, {V{0, 1, 1}, V{1, 0, 1}, V{1, 1, 0}}, {V{2, 1, 0}, V{0, -1, 1}, V{1, 0, 3}}};
template<class Fn> static void all(mc::Ctx& ctx, int only, Fn fn) {
	int k = ctx.choose(15); if (only && !(only >> k & 1)) ctx.prune(); static const double AN[] = {0.0, 0.5, -1.2, 2.0, 3.14159265358979, 6.0}; auto an = [&] { return AN[ctx.choose(6)]; };
	switch (k) {
	case 0: return run<CoordTransfSphericalToCartesian>(ctx, fn, "SphericalToCartesian", rsph());
	case 1: return run<CoordTransfCartesianToSpherical>(ctx, fn, "CartesianToSpherical", rtosph());
	case 2: return run<CoordTransfCylindricalToCartesian>(ctx, fn, "CylindricalToCartesian", rcyl());
	case 3: return run<CoordTransfCartesianToCylindrical>(ctx, fn, "CartesianToCylindrical", rtocyl());
	case 4: return run<CoordTransfPolarToCartesian2D>(ctx, fn, "PolarToCartesian2D", rpol());
	case 5: { double a = an(); M m = rot(2, a); return run<CoordTransfCart2DRotation>(ctx, fn, ctx.cat("Cart2DRotation ", a), lin(2, m), a); }
	case 6: { double a = ctx.pick({0.5, 1.5707963267948966, 2.0, -0.7, 4.0}); M m{}; m[0] = {1, cosl(a)}; m[1] = {0, sinl(a)}; return run<CoordTransfObliqueToCartesian2D>(ctx, fn, ctx.cat("ObliqueToCartesian2D ", a), lin(2, m), a); }
	case 7: { double a = ctx.pick({0.5, 1.5707963267948966, 2.0, -0.7, 4.0}); M m{}; m[0] = {1, cosl(a)}; m[1] = {0, sinl(a)}; return run<CoordTransfCartesianToOblique2D>(ctx, fn, ctx.cat("CartesianToOblique2D ", a), lin(2, inv(m, 2)), a); }
	case 8: { int x = ctx.choose(3); double a = an(); std::string nm = ctx.cat("RotationAxis ", x, " ", a); if (x == 0) return run<CoordTransfCart3DRotationXAxis>(ctx, fn, nm, lin(3, rot(0, a)), a); if (x == 1) return run<CoordTransfCart3DRotationYAxis>(ctx, fn, nm, lin(3, rot(1, a)), a); return run<CoordTransfCart3DRotationZAxis>(ctx, fn, nm, lin(3, rot(2, a)), a); }
	case 9: { double a = an(), b = an(), c = an(); return run<CoordTransfCart3DRotationEuler>(ctx, fn, ctx.cat("RotationEuler ", a, " ", b, " ", c), lin(3, mulm(rot(2, a), mulm(rot(1, b), rot(2, c)))), a, b, c); }
	case 10: { int i = ctx.choose(5); M m{}; for (int j = 0; j < 3; j++) m[j] = BA[i][j]; return run<CoordTransf3DCartOrthogonal>(ctx, fn, ctx.cat("CartOrthogonal base ", i), lin(3, m), vn<3>(m[0]), vn<3>(m[1]), vn<3>(m[2])); }
	case 11: { int i = ctx.choose(9); M m{}; MatrixNM<Real, 3, 3> q; for (int j = 0; j < 3; j++) { m[j] = i < 5 ? BA[i][j] : OB[i - 5][j]; for (int c = 0; c < 3; c++) q(j, c) = (double)m[j][c]; } return run<CoordTransf3DCartGeneral>(ctx, fn, ctx.cat("CartGeneral matrix ", i), lin(3, m), q); }
	case 12: { int i = ctx.choose(9); L s = ctx.pick({1.0, 1e-5, 1e5}); M m{}; VectorN<Real, 3> b[3]; for (int j = 0; j < 3; j++) { V w = i < 5 ? BA[i][j] : OB[i - 5][j]; for (int c = 0; c < 3; c++) m[c][j] = w[c] * s, b[j][c] = (double)(w[c] * s); } return run<CoordTransfCartesianToOblique3D>(ctx, fn, ctx.cat("CartesianToOblique3D base ", i, " scale ", (double)s), lin(3, inv(m, 3)), b[0], b[1], b[2]); }
	case 13: { int x = ctx.choose(3), form = ctx.choose(3); double a = an(); Vec3Cart axis(x == 0, x == 1, x == 2); M m = rot(x, a); MatrixNM<Real, 3, 3> q; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q(i, j) = (double)m[i][j]; std::string nm = ctx.cat("RotationQuaternion axis ", x, " ", a, " form ", form); if (form == 0) return run<CoordTransfCart3DRotationQuaternion>(ctx, fn, nm, lin(3, m), axis, a); if (form == 1) return run<CoordTransfCart3DRotationQuaternion>(ctx, fn, nm, lin(3, m), q); Quaternion u = Quaternion::FromAxisAngle(axis, a); return run<CoordTransfCart3DRotationQuaternion>(ctx, fn, nm, lin(3, m), Quaternion(3 * u.w(), 3 * u.x(), 3 * u.y(), 3 * u.z())); }
	default: { double v = ctx.pick({0.0, 0.3, 0.6, 0.99}); L g = 1 / sqrtl((1 - (L)v) * (1 + (L)v)); M m{}; m[0] = {g, -v * g, 0, 0}; m[1] = {-v * g, g, 0, 0}; m[2][2] = m[3][3] = 1; return run<CoordTransfLorentzXAxis>(ctx, fn, ctx.cat("Lorentz ", v), lin(4, m), v); } } }
static L adiff(L a, L b) { L d = fmodl(fabsl(a - b), 2 * PI); return std::min(d, 2 * PI - d); }
template<class T> struct Sz { template<class F, class G, int N> static F from(const CoordTransfWithInverse<F, G, N>&); template<class F, class G, int N> static G to(const CoordTransfWithInverse<F, G, N>&); template<class F, class G, int N> static std::integral_constant<int, N> dim(const CoordTransfWithInverse<F, G, N>&); typedef decltype(from(std::declval<T>())) From; typedef decltype(to(std::declval<T>())) To; static constexpr int N = decltype(dim(std::declval<T>()))::value; };
static L norm(const V& v, int n) { L s = 0; for (int i = 0; i < n; i++) s += v[i] * v[i]; return sqrtl(s); }
template<class X> static V vl(const X& x, int n) { V r{}; for (int i = 0; i < n; i++) r[i] = x[i]; return r; }
// a point in curvilinear coordinates agrees with the reference point (angles modulo 2 pi, undetermined angles free)
static bool cur_eq(Kind k, const V& a, const V& b, L tol) { bool s = k == TOSPH || k == SPH; L rho = s ? b[0] * fabsl(sinl(b[1])) : b[0]; if (fabsl(a[0] - b[0]) > tol * (b[0] + (s || k == POL || k == CYL || k == TOCYL ? 0 : 1)) || a[0] < 0) return false; int ph = s ? 2 : 1; if (s && b[0] > 0 && fabsl(a[1] - b[1]) > tol) return false; if (s && !(a[1] >= 0 && a[1] <= PI + 1e-15L)) return false; if (!s && k != POL && fabsl(a[2] - b[2]) > tol * (b[0] + fabsl(b[2]))) return false; if (!(fabsl(a[ph]) <= PI + 1e-15L)) return false; return !(rho > 1e-300L && b[0] > 0 && rho > tol * b[0] * 1e-12L) || adiff(a[ph], b[ph]) <= tol; }
static V source(mc::Ctx& ctx, const Ref& r, bool maps) {
	V x{}; if (maps) switch (r.k) {
	case LIN: { static const L C[] = {-2, 0, 1.5L}; for (int i = 0; i < r.n; i++) x[i] = C[ctx.choose(3)]; L s = ctx.pick({1.0, 1e-8, 1e8}); for (auto& c : x) c *= s; return x; }
	case SPH: return {(L)ctx.pick({0.0, 1e-15, 0.5, 3.0, 1e10}), (L)ctx.pick({0.0, 1e-9, 0.3, 1.5707963267948966, 2.0, 3.1415926}), (L)ctx.pick({-3.1, -1.0, 0.0, 1e-9, 2.0, 3.14159265358979})};
	case CYL: return {(L)ctx.pick({0.0, 1e-15, 0.5, 3.0, 1e10}), (L)ctx.pick({-3.1, -1.0, 0.0, 1e-9, 2.0, 3.14159265358979}), (L)ctx.pick({0.0, -2.0, 1e8})};
	case POL: return {(L)ctx.pick({0.0, 1e-15, 0.5, 3.0, 1e10}), (L)ctx.pick({-3.1, -1.0, 0.0, 1e-9, 2.0, 3.14159265358979})};
	default: { static const L C[] = {-2, 0, 1, 1e-9L, -1e-10L}; for (int i = 0; i < 3; i++) x[i] = C[ctx.choose(5)]; L s = ctx.pick({1.0, 1e-15, 1e-3, 1e8}); for (auto& c : x) c *= s; return x; } }
	switch (r.k) {
	case LIN: { static const L C[] = {-2, 0, 1.5L}; int a = ctx.choose(3); for (int i = 0; i < r.n; i++) x[i] = C[(a + i * i) % 3] * 1; L s = ctx.pick({1.0, 40.0}); for (auto& c : x) c *= s; return x; }
	case SPH: return {(L)ctx.pick({0.5, 2.0, 10.0}), (L)ctx.pick({0.3, 1.2, 2.9}), (L)ctx.pick({-3.0, 0.0, 1.0, 3.1415926535})};
	case CYL: return {(L)ctx.pick({0.5, 2.0, 10.0}), (L)ctx.pick({-3.0, 0.0, 1.0, 3.1415926535}), (L)ctx.pick({0.0, -4.0})};
	case POL: return {(L)ctx.pick({0.5, 2.0, 10.0}), (L)ctx.pick({-3.0, 0.0, 1.0, 3.1415926535})};
	default: { static const L C[] = {-2, 0, 1}; for (int i = 0; i < 3; i++) x[i] = C[ctx.choose(3)]; if (x[0] == 0 && x[1] == 0) ctx.prune(); L s = ctx.pick({1.0, 20.0}); for (auto& c : x) c *= s; return x; } } }
// forward and inverse maps, component functions and the function-call operator describe one bijection, at any magnitude
MC_SCENARIO(maps, 3) {
	all(ctx, 0, [&](const std::string& nm0, auto& t, const Ref& r) { typedef std::decay_t<decltype(t)> T; typedef typename Sz<T>::From From; typedef typename Sz<T>::To To; constexpr int N = Sz<T>::N; V x = source(ctx, r, true); From p = mk<From, N>(x); V xd = vl(p, N); std::string nm = ctx.cat(nm0, " at ", (double)x[0], ",", (double)x[1], ",", (double)x[2]); ctx.step();
		To y = t.transf(p); V yr = r.f(xd), yv = vl(y, N); const bool tocur = r.k >= TOSPH; M J{}; L amp = 1; if (r.k == LIN) { J = r.J(x); amp = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) amp = std::max(amp, fabsl(J[i][j])); }
		L size = r.k == LIN ? amp * norm(xd, N) : r.k == CYL ? fabsl(x[0]) + fabsl(x[2]) : fabsl(x[0]); if (tocur) ctx.check(cur_eq(r.k, yv, yr, 2e-15L), "forward", nm, ": ", y[0], ",", y[1], " expected ", (double)yr[0], ",", (double)yr[1]); else for (int i = 0; i < N; i++) ctx.check(fabsl(y[i] - yr[i]) <= 4e-15L * size, "forward", nm, " component ", i, ": ", y[i], " expected ", (double)yr[i]);
		auto whole = t(p); for (int i = 0; i < N; i++) { double s = (double)(tocur ? fabsl(yr[i]) : size); ctx.check(std::fabs(t.coordTransfFunc(i)(p) - y[i]) <= 4e-15 * s && std::fabs(whole[i] - y[i]) <= 4e-15 * s, "component-function", nm, " component ", i, ": ", t.coordTransfFunc(i)(p), " map gives ", y[i]); }
		From b = t.transfInverse(y); V bv = vl(b, N), br = r.g(yv); L ampi = 1; if (r.k == LIN) { M K = inv(J, N); ampi = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) ampi = std::max(ampi, fabsl(K[i][j])); }
		L back = r.k == LIN ? ampi * norm(yv, N) : norm(xd, N); bool curback = r.k == SPH || r.k == CYL || r.k == POL; if (curback) { ctx.check(cur_eq(r.k, bv, br, 2e-15L), "inverse", nm, ": ", b[0], ",", b[1]); bool reg = x[0] > 0 && (r.k != SPH || (x[1] > 0 && x[1] < PI - 1e-7L)); if (reg) ctx.check(fabsl(b[0] - xd[0]) <= 4e-15L * xd[0] && (r.k == POL || r.k == CYL || fabsl(b[1] - xd[1]) <= 1e-15L) && adiff(b[r.k == SPH ? 2 : 1], xd[r.k == SPH ? 2 : 1]) <= 4e-15L, "round-trip", nm, ": ", b[0], ",", b[1]); } else for (int i = 0; i < N; i++) { ctx.check(fabsl(b[i] - br[i]) <= 8e-15L * back, "inverse", nm, " component ", i, ": ", b[i], " expected ", (double)br[i]); ctx.check(fabsl(b[i] - xd[i]) <= 2e-14L * (back + ampi * size), "round-trip", nm, " component ", i, ": ", b[i]); }
		for (int i = 0; i < N; i++) ctx.check(std::fabs(t.inverseCoordTransfFunc(i)(y) - b[i]) <= 8e-15 * (double)(curback ? fabsl(bv[i]) : back), "inverse-component-function", nm, " component ", i); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(y[0]).d(y[1])); ctx.nontrivial(); }); }
// Jacobian, the four sets of basis vectors and the four vector transformation laws
MC_SCENARIO(vectors, 3) {
	all(ctx, 0, [&](const std::string& nm0, auto& t, const Ref& r) { typedef std::decay_t<decltype(t)> T; typedef typename Sz<T>::From From; typedef typename Sz<T>::To To; constexpr int N = Sz<T>::N; V x = source(ctx, r, false); From p = mk<From, N>(x); V xd = vl(p, N); To q = t.transf(p); std::string nm = ctx.cat(nm0, " at ", (double)x[0], ",", (double)x[1], ",", (double)x[2]); ctx.step(); M J = r.J(xd), K = inv(J, N); L sj = 0, sk = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sj = std::max(sj, fabsl(J[i][j])), sk = std::max(sk, fabsl(K[i][j])); L tj = 2e-9L * (sj + (r.k >= TOSPH ? 0.1L : 0)), tk = 2e-9L * (sk + 0.1L * (r.k < TOSPH && r.k != LIN)); if (r.k == LIN && sj * sk > 1e4L) { tj *= sj * sk / 1e4L; tk *= sj * sk / 1e4L; } if (r.k == LIN) tj += 1e-12L * norm(vl(q, N), N), tk += 1e-12L * norm(xd, N);
		auto JM = t.jacobian(p); for (int i = 0; i < N; i++) { auto e = t.getBasisVec(i, p); auto ei = t.getInverseBasisVec(i, p); auto d = t.getContravarBasisVec(i, q); auto di = t.getInverseContravarBasisVec(i, q); for (int j = 0; j < N; j++) { ctx.check(fabsl(JM(i, j) - J[i][j]) <= tj, "jacobian", nm, " ", i, j, ": ", JM(i, j), " expected ", (double)J[i][j]); ctx.check(fabsl(e[j] - J[j][i]) <= tj, "basis", nm, " ", i, j, ": ", e[j], " expected ", (double)J[j][i]); ctx.check(fabsl(ei[j] - J[i][j]) <= tj, "inverse-basis", nm, " ", i, j, ": ", ei[j]); ctx.check(fabsl(d[j] - K[i][j]) <= tk, "contravariant-basis", nm, " ", i, j, ": ", d[j], " expected ", (double)K[i][j]); ctx.check(fabsl(di[j] - K[j][i]) <= tk, "inverse-contravariant-basis", nm, " ", i, j, ": ", di[j]); } }
		for (int k = 0; k <= N; k++) { From a; To b; for (int i = 0; i < N; i++) { a[i] = k < N ? i == k : 1.5 - i * i; b[i] = k < N ? i == k : 0.5 + i; } auto c1 = t.transfVecContravariant(a, p); auto c2 = t.transfInverseVecContravariant(b, q); auto v1 = t.transfVecCovariant(a, q); auto v2 = t.transfInverseVecCovariant(b, p); for (int i = 0; i < N; i++) { L w[4] = {}; for (int j = 0; j < N; j++) w[0] += J[i][j] * a[j], w[1] += K[i][j] * b[j], w[2] += K[j][i] * a[j], w[3] += J[j][i] * b[j]; std::string m = ctx.cat(nm, " vector ", k, " component ", i); L z = 12; ctx.check(fabsl(c1[i] - w[0]) <= z * tj, "contravariant", m, ": ", c1[i], " expected ", (double)w[0]); ctx.check(fabsl(c2[i] - w[1]) <= z * tk, "inverse-contravariant", m, ": ", c2[i], " expected ", (double)w[1]); ctx.check(fabsl(v1[i] - w[2]) <= z * tk, "covariant", m, ": ", v1[i], " expected ", (double)w[2]); ctx.check(fabsl(v2[i] - w[3]) <= z * tj, "inverse-covariant", m, ": ", v2[i], " expected ", (double)w[3]); } }
		ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(JM(0, 0)).d(JM(N - 1, 0))); ctx.nontrivial(); }); }
template<int N> struct TT { template<int R, class TEN, class G> static void each(TEN& t, G g) { int ix[5] = {}; int tot = 1; for (int i = 0; i < R; i++) tot *= N; for (int k = 0; k < tot; k++) { int c = k; for (int i = R - 1; i >= 0; i--) ix[i] = c % N, c /= N; if constexpr (R == 2) g(t(ix[0], ix[1]), ix, k); else if constexpr (R == 3) g(t(ix[0], ix[1], ix[2]), ix, k); else if constexpr (R == 4) g(t(ix[0], ix[1], ix[2], ix[3]), ix, k); else g(t(ix[0], ix[1], ix[2], ix[3], ix[4]), ix, k); } } };
template<int N, int R, class TEN, class F> static void tens(mc::Ctx& ctx, int mask, const M& J, const M& K, const std::string& nm, F f) {
	TEN t(R, 0); for (int i = 0; i < R; i++) t.setContravar(i, mask >> i & 1); int tot = 1; for (int i = 0; i < R; i++) tot *= N; std::vector<L> a(tot), b(tot); TT<N>::template each<R>(t, [&](double& c, const int*, int k) { c = ((k * 7 + 3) % 11 - 5) * 0.5 + 0.25; a[k] = c; }); L sc = 3; for (int s = 0; s < R; s++) { int st = 1; for (int i = s + 1; i < R; i++) st *= N; bool con = mask >> s & 1; L mx = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) mx = std::max(mx, fabsl((con ? J : K)[i][j]) * N); sc *= mx; for (int k = 0; k < tot; k++) { int d = k / st % N; b[k] = 0; for (int j = 0; j < N; j++) b[k] += (con ? J[d][j] : K[j][d]) * a[k + (j - d) * st]; } a = b; }
	auto res = f(t); int nc = 0; for (int i = 0; i < R; i++) { nc += mask >> i & 1; ctx.check(res.IsContravar(i) == bool(mask >> i & 1), "tensor-variance", nm, " index ", i); } ctx.check(res.NumContravar() == nc && res.NumCovar() == R - nc, "tensor-variance", nm); TT<N>::template each<R>(res, [&](double& c, const int* ix, int k) { ctx.check(fabsl(c - a[k]) <= 1e-8L * sc, "tensor", nm, " component ", ix[0], ix[1], ": ", c, " expected ", (double)a[k]); }); }
// tensors of rank 2-5, every variance pattern: every index is contracted with its own Jacobian and keeps its variance
MC_SCENARIO(tensors, 4) {
	int rank = ctx.range(2, 5), mask = ctx.choose(1 << rank); all(ctx, rank == 5 && !ctx.thorough ? 0x92 : 0x55bf, [&](const std::string& nm0, auto& t, const Ref& r) { typedef std::decay_t<decltype(t)> T; typedef typename Sz<T>::From From; constexpr int N = Sz<T>::N; V x{}; bool second = ctx.flag(); switch (r.k) { case SPH: x = second ? V{2, 2.0L, 3.1415926535L} : V{0.75L, 0.6L, -1}; break; case CYL: case POL: x = second ? V{2, 3.1415926535L, 1} : V{0.75L, -1, 3}; break; default: x = second ? V{-2, 0, 1, 1} : V{0.5L, 1, -1.5L, 2}; } if (nm0.find("copy") != std::string::npos || (N == 4 && rank > 3 && !(ctx.thorough && rank == 4)) || (N == 3 && rank == 5 && second)) ctx.prune(); From p = mk<From, N>(x); V xd = vl(p, N); M J = r.J(xd), K = inv(J, N); std::string nm = ctx.cat(nm0, " rank ", rank, " variance mask ", mask, " position ", second); ctx.step(); ctx.nontrivial();
		switch (rank) { case 2: tens<N, 2, Tensor2<N>>(ctx, mask, J, K, nm, [&](auto& q) { return t.transfTensor2(q, p); }); break; case 3: tens<N, 3, Tensor3<N>>(ctx, mask, J, K, nm, [&](auto& q) { return t.transfTensor3(q, p); }); break; case 4: tens<N, 4, Tensor4<N>>(ctx, mask, J, K, nm, [&](auto& q) { return t.transfTensor4(q, p); }); break; default: tens<N, 5, Tensor5<N>>(ctx, mask, J, K, nm, [&](auto& q) { return t.transfTensor5(q, p); }); }
		ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().s(nm0)); }); }
// unit bases of spherical coordinates; rotations compose, interpolate and keep lengths; boosts keep intervals; orientation
MC_SCENARIO(algebra, 2) {
	int what = ctx.choose(4); static const double AN[] = {0.0, 0.5, -1.2, 2.0, 3.0}; ctx.step(); ctx.nontrivial();
	if (what == 0) { Vector3Spherical p(ctx.pick({0.5, 2.0}), ctx.pick({0.3, 1.2, 2.9}), ctx.pick({-3.0, 0.0, 1.0, 3.0})); int i = ctx.choose(3); CoordTransfSphericalToCartesian t; V u[3]; M J = Jsph(vl(p, 3)); L h[3] = {1, (L)p[0], p[0] * sinl(p[1])}; for (int a = 0; a < 3; a++) for (int c = 0; c < 3; c++) u[a][c] = J[c][a] / h[a]; auto e = t.getUnitBasisVec(i, p); auto g = t.getInverseUnitBasisVec(i, p); for (int c = 0; c < 3; c++) { ctx.check(fabsl(e[c] - u[i][c]) <= 1e-15L, "unit-basis", i, c, ": ", e[c]); ctx.check(fabsl(g[c] - u[c][i]) <= 1e-15L, "inverse-unit-basis", i, c, ": ", g[c]); } ctx.state(mc::Hash().d(p[0]).d(p[1]).d(p[2]).u(i)); ctx.outcome(mc::Hash().d(e[0])); return; }
	if (what == 1) { int x = ctx.choose(3), y = ctx.choose(3); double a = AN[ctx.choose(5)], b = AN[ctx.choose(5)]; double s = ctx.pick({0.0, 0.25, 0.5, 1.0}); typedef CoordTransfCart3DRotationQuaternion Q; Q p(Vec3Cart(x == 0, x == 1, x == 2), a), q(Vec3Cart(y == 0, y == 1, y == 2), b); auto c = p.Compose(q); std::string nm = ctx.cat("axis ", x, " angle ", a, " then axis ", y, " angle ", b); M m = mulm(rot(y, b), rot(x, a)); auto same = [&](const Q& r, const M& w, const char* key) { for (int i = 0; i < 3; i++) { Vec3Cart e(i == 0, i == 1, i == 2); auto v = r.transf(e); for (int j = 0; j < 3; j++) ctx.check(fabsl(v[j] - w[j][i]) <= 5e-15L && fabsl(r.GetTransformationMatrix()(j, i) - w[j][i]) <= 5e-15L && fabsl(r.GetInverseMatrix()(i, j) - w[j][i]) <= 5e-15L && fabsl(r.coordTransfFunc(j)(e) - w[j][i]) <= 5e-15L, key, nm, ": ", v[j], " expected ", (double)w[j][i]); } }; same(c, m, "compose");
		if (x == y && fabs(a - b) < 3.1) { auto z = p.Interpolate(q, s); same(z, rot(x, a + (b - a) * s), "interpolate"); } L c2 = AN[(x + 2 * y) % 5]; same(Q::FromEulerZYX(a, b, (double)c2), mulm(rot(2, a), mulm(rot(1, b), rot(0, c2))), "euler-zyx"); same(Q::FromEulerXYZ(a, b, (double)c2), mulm(rot(0, a), mulm(rot(1, b), rot(2, c2))), "euler-xyz"); ctx.check(mc::near(p.GetRotationAngle(), std::fabs(a), 1e-14) || a < 0, "angle", nm, ": ", p.GetRotationAngle()); ctx.state(mc::Hash().s(nm).d(s)); ctx.outcome(mc::Hash().d((double)m[0][0]).d((double)m[1][2])); return; }
	if (what == 2) { double v = ctx.pick({0.0, 0.3, 0.6, 0.99}), w = ctx.pick({0.0, 0.5, 0.8}); Vector4Minkowski e{(double)ctx.range(-2, 2), (double)ctx.range(-1, 2), (double)ctx.range(0, 1), (double)ctx.range(-1, 0)}; CoordTransfLorentzXAxis a(v), b(w), c((v + w) / (1 + v * w)); auto I = [](const Vector4Minkowski& q) { return q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3]; }; auto f = a.transf(e), g = b.transf(f), h = c.transf(e); std::string nm = ctx.cat("boosts ", v, ", ", w, " of ", e[0], ",", e[1], ",", e[2], ",", e[3]); ctx.check(std::fabs(I(f) - I(e)) <= 1e-12 * (1 + f[0] * f[0]), "interval", nm); for (int i = 0; i < 4; i++) ctx.check(std::fabs(g[i] - h[i]) <= 1e-12 * (1 + std::fabs(g[0])), "velocity-addition", nm, " component ", i); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(f[0]).d(f[1])); return; }
	int i = ctx.choose(9), flip = ctx.choose(2), perm = ctx.choose(6); static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}}; V b[3]; for (int j = 0; j < 3; j++) b[j] = i < 5 ? BA[i][P[perm][j]] : OB[i - 5][P[perm][j]]; if (flip) for (auto& c : b[0]) c = -c; L det = b[0][0] * (b[1][1] * b[2][2] - b[1][2] * b[2][1]) - b[0][1] * (b[1][0] * b[2][2] - b[1][2] * b[2][0]) + b[0][2] * (b[1][0] * b[2][1] - b[1][1] * b[2][0]); MatrixNM<Real, 3, 3> m; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m(r, c) = (double)b[r][c]; CoordTransf3DCartGeneral g(m); CoordTransfCartesianToOblique3D o(vn<3>(b[0]), vn<3>(b[1]), vn<3>(b[2])); ctx.check(g.IsRightHanded() == (det > 0) && o.IsRightHanded() == (det > 0), "orientation", "base ", i, " permutation ", perm, " flip ", flip); if (i < 5) { CoordTransf3DCartOrthogonal h(vn<3>(b[0]), vn<3>(b[1]), vn<3>(b[2])); ctx.check(h.IsRightHanded() == (det > 0), "orientation", "orthogonal base ", i, " permutation ", perm, " flip ", flip); auto tm = h.getTransfMatrix(), im = h.getInvTransfMatrix(); auto id = tm * im; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) ctx.check(std::fabs(id(r, c) - (r == c)) < 1e-14, "matrices", "orthogonal base ", i); }
	auto id = g.getTransfMatrix() * g.getInvTransfMatrix(); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { ctx.check(std::fabs(id(r, c) - (r == c)) < 1e-13, "matrices", "general base ", i); ctx.check(std::fabs(ScalarProduct(o.Base(r), o.Dual(c)) - (r == c)) < 1e-13, "dual-base", "base ", i, " ", r, c); } ctx.state(mc::Hash().u(i).u(flip).u(perm)); ctx.outcome(mc::Hash().u(det > 0)); }
// parameters that define no transformation are refused, all others accepted
MC_SCENARIO(parameters, 1) {
	int what = ctx.choose(5); ctx.step(); ctx.nontrivial(); bool bad = false, th = false; std::string nm;
	if (what == 0) { double v = ctx.pick({0.0, 0.5, 0.999999999, 1.0, 1.5, -0.1, -2.0, (double)INFINITY, (double)NAN}); bad = !(v >= 0 && v < 1); th = mc::throws([&] { CoordTransfLorentzXAxis t(v); }); nm = ctx.cat("Lorentz ", v); }
	else if (what == 1) { int k = ctx.range(-3, 3); double d = ctx.pick({0.0, 1e-3, -0.5, 1.5707963}); bool first = ctx.flag(); double a = (double)(k * PI) + d; bad = d == 0; th = mc::throws([&] { if (first) CoordTransfObliqueToCartesian2D t(a); else CoordTransfCartesianToOblique2D t(a); }); nm = ctx.cat("Oblique2D ", a); }
	else { VectorN<Real, 3> b[3]; int D[3][3]; for (int i = 0; i < 3; i++) { int c = ctx.choose(what == 2 ? 9 : 13); static const int E[][3] = {{1, 0, 0}, {0, 2, 0}, {0, 0, -1}, {1, 1, 0}, {1, -1, 0}, {0, 0, 0}, {0, 1, 1}, {2, 0, 0}, {1, 1, 1}, {2, -2, 0}, {0, 1, -1}, {1, 1, -2}, {1, 2, 3}}; for (int j = 0; j < 3; j++) D[i][j] = E[c][j]; } double s = ctx.pick({1.0, 1e-5, 1e5}); if (what == 3 && s != 1) s = 1; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b[i][j] = D[i][j] * s; int det = D[0][0] * (D[1][1] * D[2][2] - D[1][2] * D[2][1]) - D[0][1] * (D[1][0] * D[2][2] - D[1][2] * D[2][0]) + D[0][2] * (D[1][0] * D[2][1] - D[1][1] * D[2][0]); bool orth = true; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { int p = 0; for (int c = 0; c < 3; c++) p += D[i][c] * D[j][c]; orth &= p == 0; } nm = ctx.cat(what == 2 ? "oblique" : what == 3 ? "general" : "orthogonal", " base ", D[0][0], D[0][1], D[0][2], " ", D[1][0], D[1][1], D[1][2], " ", D[2][0], D[2][1], D[2][2], " scale ", s);
		if (what == 2) { bad = det == 0; th = mc::throws([&] { CoordTransfCartesianToOblique3D t(b[0], b[1], b[2]); }); } else if (what == 3) { MatrixNM<Real, 3, 3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = b[i][j]; bad = det == 0; th = mc::throws([&] { CoordTransf3DCartGeneral t(m); }); } else { if (s < 1 && !orth) ctx.prune(); bad = !orth || det == 0; th = mc::throws([&] { CoordTransf3DCartOrthogonal t(b[0], b[1], b[2]); }); } }
	ctx.check(th == bad, bad ? "accepted" : "refused", nm); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().u(th)); }
