// C50: differential geometry of curves and surfaces.
// mc-flags: -O1
#include "MMLBase.h"
#include "base/Function.h"
#include "core/Curves.h"
#include "core/Surfaces.h"
#include "../mc/mc.h"
using namespace MML; using namespace MML::Curves; using namespace MML::Surfaces;
typedef long double LD;
static const LD PIL = 3.14159265358979323846264338327950288L;
struct V3 { LD x = 0, y = 0, z = 0; };
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 operator*(LD s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
static LD dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD len(V3 a) { return std::sqrt(dot(a, a)); }
static V3 unit(V3 a) { return (1 / len(a)) * a; }
template <class T> static V3 v3(const T& a) { return {a[0], a[1], a[2]}; }
template <class T> static V3 v2(const T& a) { return {a[0], a[1], 0}; }
static LD dist(V3 a, V3 b) { return len(a - b); }
static std::string str(V3 a) { return mc::Ctx::cat("(", (double)a.x, ",", (double)a.y, ",", (double)a.z, ")"); }

// exact derivatives up to the third of a product and a quotient of functions: jets
struct J { LD d[4] = {0, 0, 0, 0}; };
static J jt(LD t) { J r; r.d[0] = t; r.d[1] = 1; return r; }
static J jc(LD c) { J r; r.d[0] = c; return r; }
static J operator+(J a, J b) { for (int i = 0; i < 4; i++) a.d[i] += b.d[i]; return a; }
static J operator-(J a, J b) { for (int i = 0; i < 4; i++) a.d[i] -= b.d[i]; return a; }
static J operator*(J a, J b) { static const LD B[4][4] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}}; J r; for (int n = 0; n < 4; n++) for (int k = 0; k <= n; k++) r.d[n] += B[n][k] * a.d[k] * b.d[n - k]; return r; }
static J operator*(LD s, J a) { for (auto& x : a.d) x *= s; return a; }
static J comp(J a, LD f0, LD f1, LD f2, LD f3) { J r; r.d[0] = f0; r.d[1] = f1 * a.d[1]; r.d[2] = f2 * a.d[1] * a.d[1] + f1 * a.d[2]; r.d[3] = f3 * a.d[1] * a.d[1] * a.d[1] + 3 * f2 * a.d[1] * a.d[2] + f1 * a.d[3]; return r; }
static J sinJ(J a) { LD s = std::sin(a.d[0]), c = std::cos(a.d[0]); return comp(a, s, c, -s, -c); }
static J cosJ(J a) { LD s = std::sin(a.d[0]), c = std::cos(a.d[0]); return comp(a, c, -s, -c, s); }
static J expJ(J a) { LD e = std::exp(a.d[0]); return comp(a, e, e, e, e); }
static J invJ(J a) { LD x = a.d[0]; return comp(a, 1 / x, -1 / (x * x), 2 / (x * x * x), -6 / (x * x * x * x)); }
struct CJ { J x, y, z; V3 at(int n) const { return {x.d[n], y.d[n], z.d[n]}; } };

struct Poly2 : ICurveCartesian2D { LD a[2][4]; LD s;
  Real getMinT() const override { return -10; } Real getMaxT() const override { return 10; }
  VectorN<Real, 2> operator()(Real t) const override { VectorN<Real, 2> r; for (int i = 0; i < 2; i++) r[i] = (Real)(s * (a[i][0] + (LD)t * (a[i][1] + (LD)t * (a[i][2] + (LD)t * a[i][3])))); return r; }
  CJ jet(LD t) const { CJ r; J T = jt(t); J* o[2] = {&r.x, &r.y}; for (int i = 0; i < 2; i++) *o[i] = s * (jc(a[i][0]) + a[i][1] * T + a[i][2] * (T * T) + a[i][3] * (T * T * T)); return r; } };
struct Poly3 : ICurveCartesian3D { V3 A[4]; LD s;
  Real getMinT() const override { return -10; } Real getMaxT() const override { return 10; }
  VectorN<Real, 3> operator()(Real t) const override { V3 v = s * (A[0] + (LD)t * (A[1] + (LD)t * (A[2] + (LD)t * A[3]))); return VectorN<Real, 3>{(Real)v.x, (Real)v.y, (Real)v.z}; }
  CJ jet(LD t) const { CJ r; J T = jt(t), T2 = T * T, T3 = T2 * T; r.x = s * (jc(A[0].x) + A[1].x * T + A[2].x * T2 + A[3].x * T3); r.y = s * (jc(A[0].y) + A[1].y * T + A[2].y * T2 + A[3].y * T3); r.z = s * (jc(A[0].z) + A[1].z * T + A[2].z * T2 + A[3].z * T3); return r; } };

// scale: size of the curve; derivatives are numerical
static void check2(mc::Ctx& ctx, ICurveCartesian2D& c, Real t, const CJ& j, LD scale, const std::string& id) {
  V3 p = j.at(0), d = j.at(1), e = j.at(2); LD tol = 1e-8L * scale;
  ctx.check(dist(v2(c(t)), p) <= 1e-13L * scale, "curve2d-point", id, " is ", str(v2(c(t))), " expected ", str(p));
  ctx.check(dist(v2(c.getTangent(t)), d) <= tol, "curve2d-tangent", id, " is ", str(v2(c.getTangent(t))), " expected ", str(d));
  ctx.check(dist(v2(c.getNormal(t)), e) <= 1e-5L * scale, "curve2d-second", id, " is ", str(v2(c.getNormal(t))), " expected ", str(e));
  LD sp = len(d); if (sp < 0.005L * scale) return;
  ctx.nontrivial(); V3 u = (1 / sp) * d;
  ctx.check(dist(v2(c.getTangentUnit(t)), u) <= tol / sp * 2, "curve2d-unit-tangent", id);
  LD k = (d.x * e.y - d.y * e.x) / (sp * sp * sp), ktol = 1e-5L * scale / (sp * sp) * 4 + std::abs(k) * 1e-7L * scale / sp;
  Real ks = c.getSignedCurvature(t), ka = c.getCurvature(t);
  ctx.check(std::abs(ks - k) <= ktol, "curve2d-signed-curvature", id, " is ", ks, " expected ", (double)k);
  ctx.check(std::abs(ka - std::abs(ks)) <= 1e-12L * std::abs(ks), "curve2d-curvature", id, " is ", ka, " signed ", ks);
  ctx.check(ka < 1e-12 ? std::isinf(c.getRadiusOfCurvature(t)) : std::abs(c.getRadiusOfCurvature(t) * ka - 1) < 1e-12, "curve2d-radius", id);
  V3 n = v2(c.getNormalUnit(t)); ctx.check(std::abs(len(n) - 1) < 1e-12L && std::abs(dot(n, u)) < tol / sp * 2, "curve2d-unit-normal", id, " normal ", str(n), " tangent ", str(u));
  if (std::abs(k) > 10 * ktol) ctx.check(dot(n, e) > 0, "curve2d-normal-side", id);
}
static void check3(mc::Ctx& ctx, ICurveCartesian3D& c, Real t, const CJ& j, LD scale, const std::string& id) {
  V3 p = j.at(0), d = j.at(1), e = j.at(2), f = j.at(3); LD tol = 1e-8L * scale;
  ctx.check(dist(v3(c(t)), p) <= 1e-13L * scale, "curve3d-point", id, " is ", str(v3(c(t))), " expected ", str(p));
  ctx.check(dist(v3(c.getTangent(t)), d) <= tol, "curve3d-tangent", id, " is ", str(v3(c.getTangent(t))), " expected ", str(d));
  ctx.check(dist(v3(c.getSecondDerivative(t)), e) <= 1e-5L * scale, "curve3d-second", id, " is ", str(v3(c.getSecondDerivative(t))), " expected ", str(e));
  LD sp = len(d); if (sp < 0.005L * scale) return;
  V3 T = (1 / sp) * d, x = cross(d, e); LD cx = len(x), rt = tol / sp * 2;
  ctx.check(dist(v3(c.getTangentUnit(t)), T) <= rt, "curve3d-unit-tangent", id);
  LD k = cx / (sp * sp * sp), ktol = 1e-5L * scale / (sp * sp) * 4 + k * 1e-7L * scale / sp; Real ka = c.getCurvature(t);
  ctx.check(std::abs(ka - k) <= ktol, "curve3d-curvature", id, " is ", ka, " expected ", (double)k);
  ctx.check(ka == 0 ? std::isinf(c.getRadiusOfCurvature(t)) : std::abs(c.getRadiusOfCurvature(t) * ka - 1) < 1e-12, "curve3d-radius", id);
  if (k * scale < 0.02L) return;
  ctx.nontrivial(); V3 B = (1 / cx) * x, N = cross(B, T); LD ft = 1e-5L * scale * sp / cx * 4 + rt * 10;
  V3 n = v3(c.getNormal(t)), b = v3(c.getBinormal(t)), kv = v3(c.getCurvatureVector(t));
  ctx.check(dist(n, N) <= ft, "curve3d-normal", id, " is ", str(n), " expected ", str(N)); ctx.check(dist(b, B) <= ft, "curve3d-binormal", id, " is ", str(b), " expected ", str(B));
  ctx.check(dist(kv, k * N) <= ktol + k * ft, "curve3d-curvature-vector", id);
  LD tau = dot(x, f) / (cx * cx), ttol = 1e-3L * scale / cx * 4 + std::abs(tau) * 1e-5L * scale * sp / cx * 8; Real ta = c.getTorsion(t);
  ctx.check(std::abs(ta - tau) <= ttol, "curve3d-torsion", id, " is ", ta, " expected ", (double)tau);
  Vector3Cartesian t3, n3, b3; c.getMovingTrihedron(t, t3, n3, b3); ctx.check(dist(v3(t3), v3(c.getTangentUnit(t))) + dist(v3(n3), n) + dist(v3(b3), b) == 0, "curve3d-trihedron", id);
  V3 normals[3] = {B, T, N}; Plane3D pl[3] = {c.getOsculationPlane(t), c.getNormalPlane(t), c.getRectifyingPlane(t)};
  for (int i = 0; i < 3; i++) { V3 m = v3(pl[i].Normal()); Point3Cartesian q((Real)p.x, (Real)p.y, (Real)p.z); ctx.check(dist(m, normals[i]) <= ft, "curve3d-plane", id, " plane ", i, " normal ", str(m), " expected ", str(normals[i])); ctx.check(std::abs(pl[i].DistToPoint(q)) <= 1e-9L * (scale + len(p)), "curve3d-plane-point", id, " plane ", i); }
}
static const LD SCALES[] = {1, 1e-6L, 1e5L};
MC_SCENARIO(polynomial_plane_curves, 1) {
  Poly2 c; c.s = SCALES[ctx.choose(3)]; LD cs[] = {0, 1, -2}; std::string id = mc::Ctx::cat("scale ", (double)c.s);
  for (int i = 0; i < 2; i++) { c.a[i][0] = i + 0.5L; for (int k = 1; k < 4; k++) { c.a[i][k] = k == 3 && !ctx.thorough ? (ctx.flag() ? 1 : 0) : cs[ctx.choose(3)]; id += mc::Ctx::cat(" ", (double)c.a[i][k]); } }
  ctx.step(); for (Real t : {-1.0, 0.0, 0.5, 2.0}) check2(ctx, c, t, c.jet(t), c.s * 20, mc::Ctx::cat(id, " at ", t)); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(polynomial_space_curves, 1) {
  static const V3 L[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {0, -1, 2}, {1, -1, 1}, {-2, 1, 1}};
  Poly3 c; c.s = SCALES[ctx.choose(3)]; c.A[0] = {0.5L, -1, 2}; std::string id = mc::Ctx::cat("scale ", (double)c.s); for (int k = 1; k < 4; k++) { c.A[k] = L[ctx.choose(8)]; id += str(c.A[k]); }
  ctx.step(); for (Real t : {-1.0, 0.0, 0.5, 1.5}) check3(ctx, c, t, c.jet(t), c.s * 20, mc::Ctx::cat(id, " at ", t)); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(plane_curves, 1) {
  int kind = ctx.choose(9), it = ctx.choose(25); LD p = ctx.pick({1.0, 2.5, 1e-5}), q = ctx.pick({0.0, 0.75}); Real t = it * 0.37 - 3; ctx.step(); J T = jt(t); CJ j; std::unique_ptr<ICurveCartesian2D> c; LD sc = 1; Real P = (Real)p, Q = (Real)q;
  J C = cosJ(T), S = sinJ(T);
  switch (kind) {
    case 0: c = std::make_unique<Circle2DCurve>(P, Pnt2Cart(Q, -1)); j.x = jc(q) + p * C; j.y = jc(-1) + p * S; sc = p + 1e3L * 0; if (p < 1) return; sc = p + 2; break;
    case 1: { if (q == 0) q = 0.2L; Real l = (Real)-q; c = std::make_unique<LogSpiralCurve>(l, P); J e = expJ((LD)l * T); j.x = p * (e * C); j.y = p * (e * S); sc = p * e.d[0] * 4; break; }
    case 2: { c = std::make_unique<LemniscateCurve>(); J i = invJ(jc(1) + S * S); j.x = C * i; j.y = S * C * i; sc = 20; break; }
    case 3: { int n = q == 0 ? 1 : 3; c = std::make_unique<DeltoidCurve>(n); j.x = (2.0L * n) * (C * (jc(1) + C)); j.y = (2.0L * n) * (S * (jc(1) - C)); sc = 10 * n; break; }
    case 4: c = std::make_unique<AstroidCurve>(P); j.x = p * (C * C * C); j.y = p * (S * S * S); sc = 8 * p; break;
    case 5: { int n = q == 0 ? 2 : 5; if (p < 1) return; c = std::make_unique<EpitrochoidCurve>(1.0, P, n); j.x = C - p * cosJ((LD)n * T); j.y = S - p * sinJ((LD)n * T); sc = p * n * n * n * n; break; }
    case 6: c = std::make_unique<ArchimedeanSpiralCurve>(P); j.x = p * (T * C); j.y = p * (T * S); sc = 10 * p; break;
    case 7: { c = std::make_unique<ButterflyCurve>(P); J s = sinJ((1 / 12.0L) * T), r = expJ(C) - 2.0L * cosJ(4.0L * T) - s * s * s * s * s; j.x = p * (S * r); j.y = p * (C * r); sc = 500 * p; break; }
    default: c = std::make_unique<Circle2DCurve>(P); j.x = p * C; j.y = p * S; sc = p * 2; break;
  }
  std::string id = mc::Ctx::cat("plane curve ", kind, " ", P, " ", Q, " at ", t); check2(ctx, *c, t, j, sc * 4, id); mc::Hash h; h.s(id); ctx.state(h);
}
struct PolarPoly : ICurvePolar2D { LD r0, r1, r2, w0, w1, w2;
  Real getMinT() const override { return -10; } Real getMaxT() const override { return 10; }
  VectorN<Real, 2> operator()(Real t) const override { return VectorN<Real, 2>{(Real)(r0 + r1 * t + r2 * t * t), (Real)(w0 + w1 * t + w2 * t * t)}; } };
static void checkPolar(mc::Ctx& ctx, ICurvePolar2D& c, Real t, const CJ& j, LD scale, const std::string& id) {
  V3 d = j.at(1), e = j.at(2); LD sp = len(d);
  ctx.check(dist(v2(c.toCartesian(t)), j.at(0)) <= 1e-13L * scale, "polar-point", id, " is ", str(v2(c.toCartesian(t))), " expected ", str(j.at(0)));
  ctx.check(dist(v2(c.getTangent(t)), d) <= 1e-8L * scale, "polar-tangent", id, " is ", str(v2(c.getTangent(t))), " expected ", str(d));
  V3 n = v2(c.getNormal(t)), g = v2(c.getTangent(t)); ctx.check(n.x == -g.y && n.y == g.x, "polar-normal", id);
  if (sp < 0.005L * scale) return; ctx.nontrivial();
  ctx.check(dist(v2(c.getTangentUnit(t)), (1 / sp) * d) <= 2e-8L * scale / sp && std::abs(dot(v2(c.getNormalUnit(t)), d)) <= 2e-8L * scale && std::abs(len(v2(c.getNormalUnit(t))) - 1) < 1e-12L, "polar-units", id);
  LD k = std::abs(d.x * e.y - d.y * e.x) / (sp * sp * sp), ktol = 4e-5L * scale / (sp * sp) + k * 1e-6L; Real ka = c.getCurvature(t);
  ctx.check(std::abs(ka - k) <= ktol, "polar-curvature", id, " is ", ka, " expected ", (double)k);
  ctx.check(ka < 1e-12 ? std::isinf(c.getRadiusOfCurvature(t)) : std::abs(c.getRadiusOfCurvature(t) * ka - 1) < 1e-12, "polar-radius", id);
}
MC_SCENARIO(polar_curves, 1) {
  PolarPoly c; c.r0 = ctx.pick({1.0, 2.0}); c.r1 = ctx.pick({0.0, 0.5, -1.0}); c.r2 = ctx.pick({0.0, 0.25}); c.w0 = ctx.pick({0.0, 2.0}); c.w1 = ctx.pick({0.0, 1.0, -2.0}); c.w2 = ctx.pick({0.0, 0.5}); ctx.step();
  for (Real t : {-1.0, 0.0, 0.75}) { J T = jt(t), r = jc(c.r0) + c.r1 * T + c.r2 * (T * T), w = jc(c.w0) + c.w1 * T + c.w2 * (T * T); CJ j; j.x = r * cosJ(w); j.y = r * sinJ(w);
    std::string id = mc::Ctx::cat("r=", (double)c.r0, ",", (double)c.r1, ",", (double)c.r2, " angle=", (double)c.w0, ",", (double)c.w1, ",", (double)c.w2, " at ", t); checkPolar(ctx, c, t, j, 60, id); mc::Hash h; h.s(id); ctx.state(h); }
}
MC_SCENARIO(polar_circles, 1) {
  Real R = ctx.pick({1.0, 2.0, 1e-3}); int o = ctx.choose(9); static const double O[][2] = {{0, 0}, {0.25, 0}, {-0.4, 0.3}, {0, -0.5}, {3, 0}, {-3, 0.5}, {-2, -2}, {0.45, -0.45}, {-0.6, -0.2}}; Pnt2Cart m(O[o][0] * R, O[o][1] * R); Circle2DCurvePolar c(R, m); ctx.step();
  for (int i = 0; i <= 16; i++) { Real t = i == 8 ? Constants::PI : i * Constants::PI / 8; CJ j; j.x = jc(m.X()) + (LD)R * cosJ(jt(t)); j.y = jc(m.Y()) + (LD)R * sinJ(jt(t)); LD d = len(j.at(0)); if (d < 0.3L * R) continue;
    std::string id = mc::Ctx::cat("polar circle ", R, " at (", m.X(), ",", m.Y(), ") t ", t); checkPolar(ctx, c, t, j, R * 60, id); }
  mc::Hash h; h.u(o); h.d(R); ctx.state(h);
}
static VectorN<Real, 3> cubicFn(Real t) { return VectorN<Real, 3>{t, t * t, t * t * t}; }
MC_SCENARIO(space_curves, 1) {
  int kind = ctx.choose(9), it = ctx.choose(17); LD p = ctx.pick({1.0, 2.5, 1e-5}), q = ctx.pick({0.5, -2.0}); Real t = it * 0.4 - 3.1; ctx.step(); J T = jt(t), C = cosJ(T), S = sinJ(T), Z = jc(0); CJ j; LD sc = 1; Real P = (Real)p, Q = (Real)q; std::unique_ptr<ICurveCartesian3D> c; Pnt3Cart m(Q, 1, -2); std::string id = mc::Ctx::cat("space curve ", kind, " ", P, " ", Q, " at ", t);
  bool line = false;
  switch (kind) {
    case 0: if (p < 1) { m = Pnt3Cart(0, 0, 0); } c = std::make_unique<Circle3DXYCurve>(P, m); j.x = jc(m.X()) + p * C; j.y = jc(m.Y()) + p * S; j.z = jc(m.Z()); sc = p; break;
    case 1: if (p < 1) { m = Pnt3Cart(0, 0, 0); } c = std::make_unique<Circle3DXZCurve>(P, m); j.x = jc(m.X()) + p * C; j.z = jc(m.Z()) + p * S; j.y = jc(m.Y()); sc = p; break;
    case 2: if (p < 1) { m = Pnt3Cart(0, 0, 0); } c = std::make_unique<Circle3DYZCurve>(P, m); j.y = jc(m.Y()) + p * C; j.z = jc(m.Z()) + p * S; j.x = jc(m.X()); sc = p; break;
    case 3: {   // a circle around any axis: distance from center, plane and orientation
      static const V3 NS[] = {{0, 0, 1}, {0, 0, -2}, {1, 0, 0}, {0, 3, 0}, {1, 1, 1}, {-1, 2, 0.5L}, {1e-6L, 0, 1}}; V3 n = NS[ctx.choose(7)]; Circle3DCurve k(P, Vec3Cart(n.x, n.y, n.z), m); V3 M = v3(VectorN<Real, 3>{m.X(), m.Y(), m.Z()}), r = v3(k(t)) - M, g = v3(k(t + 0.25)) - M; LD tl = 4e-15L; ctx.nontrivial();
      ctx.check(std::abs(len(r) - p) <= tl + 1e-14L * p && std::abs(dot(r, unit(n))) <= tl + 1e-14L * p, "circle-on-plane", id, " normal ", str(n)); if (p >= 1) ctx.check(std::abs(dot(cross(r, g), unit(n)) - p * p * std::sin(0.25L)) <= 1e-13L * p * p, "circle-orientation", id, " normal ", str(n));
      if (p >= 1) { ctx.check(std::abs(k.getCurvature(t) * p - 1) < 1e-4L && std::abs(k.getTorsion(t)) < 1e-2L && dist(v3(k.getBinormal(t)), unit(n)) < 1e-5L, "circle-frame", id, " normal ", str(n)); } return; }
    case 4: c = std::make_unique<HelixCurve>(P, (Real)(q * p)); j.x = p * C; j.y = p * S; j.z = (LD)(Real)(q * p) * T; sc = 3 * p; ctx.check(std::abs(c->getCurvature(t) * p * (1 + q * q) - 1) < 1e-12L && std::abs(c->getTorsion(t) * p * (1 + q * q) - q) < 1e-12L, "helix", id); break;
    case 5: c = std::make_unique<TwistedCubicCurve>(); j.x = T; j.y = T * T; j.z = T * T * T; sc = 40; break;
    case 6: { int n = q > 0 ? 1 : 4; c = std::make_unique<ToroidalSpiralCurve>(n, P); J w = jc(4) + sinJ((LD)n * T); j.x = p * (w * C); j.y = p * (w * S); j.z = p * cosJ((LD)n * T); sc = p * n * n * n * 8; break; }
    case 7: c = std::make_unique<CurveCartesian3D>(-4.0, 4.0, cubicFn); ctx.check(c->getMinT() == -4 && c->getMaxT() == 4, "limits", id); j.x = T; j.y = T * T; j.z = T * T * T; sc = 40; break;
    default: { V3 A{q, 1, -2}, B{1, 1.5L, p}; Real t1 = -1.5, t2 = 2; c = std::make_unique<LineCurve>(t1, Pnt3Cart(A.x, A.y, A.z), t2, Pnt3Cart(B.x, B.y, B.z)); V3 d = (1 / 3.5L) * (B - A), s0 = A + 1.5L * d; j.x = jc(s0.x) + d.x * T; j.y = jc(s0.y) + d.y * T; j.z = jc(s0.z) + d.z * T; sc = 4; line = true; ctx.check(c->getMinT() == t1 && c->getMaxT() == t2, "limits", id);
      Vec3Cart dir(1, 2, -2); LineCurve l2(-1, 3, Pnt3Cart(1, 2, 3), dir); ctx.check(dist(v3(l2(t)), V3{1, 2, 3} + (LD)t * (V3{1 / 3.0L, 2 / 3.0L, -2 / 3.0L})) < 1e-13L && l2.isArcLengthParametrized(-1, 3, 5), "line-arc-length", id); } }
  if (!line && p < 1 && kind < 3) sc = p;
  check3(ctx, *c, t, j, sc * 4, id); mc::Hash h; h.s(id); ctx.state(h);
}
// speed is one up to t0 only
struct Bent : ICurveCartesian3D { Real t0, v; Real getMinT() const override { return 0; } Real getMaxT() const override { return 10; } VectorN<Real, 3> operator()(Real t) const override { return VectorN<Real, 3>{t <= t0 ? t : t0 + (t - t0) * v, 1, 2}; } };
MC_SCENARIO(arc_length, 1) {
  Bent c; c.t0 = ctx.pick({0.0, 1.0, 1.9, 5.0}); c.v = ctx.pick({1.0, 1.25, 0.5}); int n = ctx.pick({1, 2, 3, 10, 100}); Real a = 0, b = 2; ctx.step(); ctx.nontrivial();
  bool want = c.v == 1 || c.t0 >= b; ctx.check(c.isArcLengthParametrized(a, b, n) == want, "arc-length", "speed ", c.v, " from ", c.t0, " checked at ", n, " points"); mc::Hash h; h.d(c.t0).d(c.v).u(n); ctx.state(h);
}
MC_SCENARIO(curve_refusals, 1) {
  int k = ctx.choose(6); ctx.step(); ctx.nontrivial(); bool ok = true;
  switch (k) { case 0: ok = mc::throws([] { LogSpiralCurve c(0.0); }) && mc::throws([] { LogSpiralCurve c(1.0, 2.0); }); break; case 1: ok = mc::throws([] { LogSpiralCurve c(-1.0, 0.0); }); break; case 2: ok = mc::throws([] { AstroidCurve c(0.0); }) && mc::throws([] { AstroidCurve c(-1.0); }); break;
    case 3: ok = mc::throws([] { Circle3DCurve c(1, Vec3Cart(0, 0, 0), Pnt3Cart(0, 0, 0)); }); break; case 4: ok = mc::throws([] { PlaneSurface p(Vec3Cart(0, 0, 0), Vec3Cart(0, 0, 1), Vec3Cart(1, 0, 0.1), Vec3Cart(0, 1, 0)); }) && mc::throws([] { PlaneSurface p(Vec3Cart(0, 0, 0), Vec3Cart(0, 0, 1), Vec3Cart(1, 0, 0), Vec3Cart(0, 1, -0.1)); }); break;
    default: ok = mc::throws([] { PlaneSurface p(Vec3Cart(0, 0, 0), Vec3Cart(0, 0, 1), Vec3Cart(0, 0, 2)); }) && mc::throws([] { PlaneSurface p(Vec3Cart(0, 0, 0), Vec3Cart(1, 0, 1), Vec3Cart(-2, 0, -2)); }); }
  ctx.check(ok, "refused", k);
}

// ---------------- surfaces
struct S2 { V3 r, u, w, uu, uw, ww; };
static void checkSurface(mc::Ctx& ctx, ISurfaceCartesian& s, Real u, Real w, const S2& j, LD size, const std::string& id, LD rel = 1) {
  LD E = dot(j.u, j.u), F = dot(j.u, j.w), G = dot(j.w, j.w); V3 x = cross(j.u, j.w); LD area = len(x), lu = std::sqrt(E), lw = std::sqrt(G);
  LD t1 = 4e-7L * size * rel, t2 = 1e-5L * size * rel;
  ctx.check(dist(v3(s(u, w)), j.r) <= 1e-13L * size, "surface-point", id, " is ", str(v3(s(u, w))), " expected ", str(j.r));
  VectorN<Real, 3> a, b; s.Tangents(u, w, a, b); ctx.check(dist(v3(a), j.u) <= t1 && dist(v3(b), j.w) <= t1, "surface-tangents", id, " are ", str(v3(a)), str(v3(b)), " expected ", str(j.u), str(j.w));
  VectorN<Real, 3> f = s.GetFirstNormalFormCoefficients(u, w); ctx.check(std::abs(f[0] - E) <= 4 * t1 * lu + t1 * t1 && std::abs(f[1] - F) <= 2 * t1 * (lu + lw) + t1 * t1 && std::abs(f[2] - G) <= 4 * t1 * lw + t1 * t1, "first-form", id, " is ", f[0], " ", f[1], " ", f[2], " expected ", (double)E, " ", (double)F, " ", (double)G);
  if (area < 0.02L * (E + G)) return; ctx.nontrivial();
  V3 n = (1 / area) * x; LD nt = 4 * t1 * (lu + lw) / area;
  ctx.check(s.isRegular(u, w), "regular", id); V3 nn = v3(s.Normal(u, w)); ctx.check(dist(nn, n) <= nt, "surface-normal", id, " is ", str(nn), " expected ", str(n));
  LD L = dot(j.uu, n), M = dot(j.uw, n), N = dot(j.ww, n), st = t2 + nt * (len(j.uu) + len(j.uw) + len(j.ww));
  VectorN<Real, 3> g = s.GetSecondNormalFormCoefficients(u, w); ctx.check(std::abs(g[0] - L) <= st && std::abs(g[1] - M) <= st && std::abs(g[2] - N) <= st, "second-form", id, " is ", g[0], " ", g[1], " ", g[2], " expected ", (double)L, " ", (double)M, " ", (double)N);
  // shape operator in an orthonormal frame of the tangent plane
  V3 e1 = unit(j.u), e2 = cross(n, e1); auto inFrame = [&](V3 d, LD& p, LD& q) { p = dot(d, e1); q = dot(d, e2); };
  LD u1, u2, w1, w2; inFrame(j.u, u1, u2); inFrame(j.w, w1, w2); LD det = u1 * w2 - u2 * w1;   // e1 = (w2 U - u2 W)/det, e2 = (-w1 U + u1 W)/det
  auto II = [&](LD a1, LD b1, LD a2, LD b2) { LD p1 = (w2 * a1 - w1 * b1) / det, q1 = (-u2 * a1 + u1 * b1) / det, p2 = (w2 * a2 - w1 * b2) / det, q2 = (-u2 * a2 + u1 * b2) / det; return L * p1 * p2 + M * (p1 * q2 + p2 * q1) + N * q1 * q2; };
  LD A = II(1, 0, 1, 0), B = II(1, 0, 0, 1), C = II(0, 1, 0, 1), H = (A + C) / 2, K = A * C - B * B, D = std::sqrt((A - C) * (A - C) / 4 + B * B), k1 = H + D, k2 = H - D, km = std::max(std::abs(k1), std::abs(k2));
  LD m = std::min(lu, lw), kt = 8 * (st / (m * m) + km * t1 * (lu + lw) / area * 4) * std::max<LD>(1, (E + G) / area);
  Real gk = s.GaussianCurvature(u, w), mk = s.MeanCurvature(u, w); ctx.check(std::abs(gk - K) <= 2 * kt * (km + kt), "gaussian-curvature", id, " is ", gk, " expected ", (double)K); ctx.check(std::abs(mk - H) <= kt, "mean-curvature", id, " is ", mk, " expected ", (double)H);
  Real c1, c2; s.PrincipalCurvatures(u, w, c1, c2); LD kd = kt + std::min(std::sqrt(4 * kt * (km + kt)), 4 * kt * (km + kt) / std::max<LD>(D, 1e-30L)); ctx.check(c1 >= c2 && std::abs(c1 - k1) <= kd && std::abs(c2 - k2) <= kd, "principal-curvatures", id, " are ", c1, " ", c2, " expected ", (double)k1, " ", (double)k2);
  VectorN<Real, 3> d1, d2; s.PrincipalDirections(u, w, d1, d2); V3 q1 = v3(d1), q2 = v3(d2); LD dt = 1e-6L + 4 * nt;
  ctx.check(std::abs(len(q1) - 1) < 1e-12L && std::abs(len(q2) - 1) < 1e-12L && std::abs(dot(q1, q2)) <= dt && std::abs(dot(q1, n)) <= dt && std::abs(dot(q2, n)) <= dt, "principal-directions-frame", id, " ", str(q1), str(q2));
  LD a1, b1, a2, b2; inFrame(q1, a1, b1); inFrame(q2, a2, b2); LD kk = 8 * kd; ctx.check(std::abs(II(a1, b1, a1, b1) - k1) <= kk && std::abs(II(a2, b2, a2, b2) - k2) <= kk && std::abs(II(a1, b1, a2, b2)) <= kk, "principal-directions", id, " ", str(q1), str(q2), " curvatures ", (double)II(a1, b1, a1, b1), " ", (double)II(a2, b2, a2, b2), " expected ", (double)k1, " ", (double)k2);
  Real big = (Real)(4 * kt * (km + kt)); LD hb = 2 * kt; if (std::abs(K) > 2 * big || K == 0) { bool flat = std::abs(K) <= big; ctx.check(s.isFlat(u, w, big) == flat, "is-flat", id); ctx.check(s.isHyperbolic(u, w, big) == (K < -big), "is-hyperbolic", id); }
  if (K == 0 && std::abs(H) > 4 * kt) { Real e = (Real)std::max<LD>(big, 0); if (std::abs(H) > 2 * e) ctx.check(s.isParabolic(u, w, e), "is-parabolic", id); } (void)hb;
}
struct Patch : ISurfaceCartesian { LD s, p, q, z[6];
  Real getMinU() const override { return -5; } Real getMaxU() const override { return 5; } Real getMinW() const override { return -5; } Real getMaxW() const override { return 5; }
  S2 at(LD u, LD w) const { S2 j; j.r = s * V3{u + p * w, q * u + w, z[0] * u + z[1] * w + z[2] * u * u + z[3] * u * w + z[4] * w * w + z[5] * u * u * w}; j.u = s * V3{1, q, z[0] + 2 * z[2] * u + z[3] * w + 2 * z[5] * u * w}; j.w = s * V3{p, 1, z[1] + z[3] * u + 2 * z[4] * w + z[5] * u * u}; j.uu = s * V3{0, 0, 2 * z[2] + 2 * z[5] * w}; j.uw = s * V3{0, 0, z[3] + 2 * z[5] * u}; j.ww = s * V3{0, 0, 2 * z[4]}; return j; }
  VectorN<Real, 3> operator()(Real u, Real w) const override { V3 r = at(u, w).r; return VectorN<Real, 3>{(Real)r.x, (Real)r.y, (Real)r.z}; } };
MC_SCENARIO(patches, 1) {
  Patch f; f.s = SCALES[ctx.choose(3)]; f.p = ctx.pick({0.0, 0.5}); f.q = ctx.pick({0.0, -0.5}); std::string id = mc::Ctx::cat("patch scale ", (double)f.s, " ", (double)f.p, " ", (double)f.q); LD cs[] = {0, 1, -1}; for (int i = 0; i < 6; i++) { f.z[i] = i < 2 || i == 5 ? (LD)ctx.choose(2) : cs[ctx.choose(3)]; id += mc::Ctx::cat(" ", (double)f.z[i]); }
  ctx.step(); for (auto uw : std::vector<std::pair<Real, Real>>{{0, 0}, {0.5, -0.25}, {-1, 0.75}}) checkSurface(ctx, f, uw.first, uw.second, f.at(uw.first, uw.second), f.s * 8, mc::Ctx::cat(id, " at ", uw.first, ",", uw.second)); mc::Hash h; h.s(id); ctx.state(h);
}
// products of functions of one parameter each
static void term(S2& j, int axis, J a, J b) { auto put = [&](V3& v, LD x) { (axis == 0 ? v.x : axis == 1 ? v.y : v.z) += x; }; put(j.r, a.d[0] * b.d[0]); put(j.u, a.d[1] * b.d[0]); put(j.w, a.d[0] * b.d[1]); put(j.uu, a.d[2] * b.d[0]); put(j.uw, a.d[1] * b.d[1]); put(j.ww, a.d[0] * b.d[2]); }
MC_SCENARIO(surfaces, 1) {
  int kind = ctx.choose(11), iu = ctx.choose(9), iw = ctx.choose(9); LD p = ctx.pick({1.0, 3.0, 1e-4, 1e3}); ctx.step(); Real P = (Real)p; std::unique_ptr<ISurfaceCartesian> s; S2 j; LD size = 1; J one = jc(1), zero = jc(0);
  Real u = 0.1 + iu * 0.35, w = 0.15 + iw * 0.7; LD rel = 1;
  auto make = [&](LD U, LD W) { J a = jt(U), b = jt(W); J cu = cosJ(a), su = sinJ(a), cw = cosJ(b), sw = sinJ(b); S2 j;
    switch (kind) {
      case 0: s = std::make_unique<CylinderSurface>(P, 2 * P); term(j, 0, p * cu, one); term(j, 1, p * su, one); term(j, 2, one, b); break;
      case 1: s = std::make_unique<Torus>(2 * P, 0.5 * P); term(j, 0, cu, p * (jc(2) + 0.5L * cw)); term(j, 1, su, p * (jc(2) + 0.5L * cw)); term(j, 2, one, 0.5L * p * sw); break;
      case 2: s = std::make_unique<Sphere>(P); term(j, 0, p * su, cw); term(j, 1, p * su, sw); term(j, 2, p * cu, one); break;
      case 3: s = std::make_unique<Ellipsoid>(P, 2 * P, 0.5 * P); term(j, 0, p * su, cw); term(j, 1, 2 * p * su, sw); term(j, 2, 0.5L * p * cu, one); break;
      case 4: { J e = expJ(a), i = invJ(e), ch = 0.5L * (e + i), sh = 0.5L * (e - i); s = std::make_unique<Hyperboloid>(P, 2 * P, 0.5 * P); term(j, 0, p * ch, cw); term(j, 1, 2 * p * ch, sw); term(j, 2, 0.5L * p * sh, one); break; }
      case 5: { LD x = U; J r; LD k = p / std::sqrt(2.0L); r.d[0] = k * std::sqrt(x); r.d[1] = k * 0.5L / std::sqrt(x); r.d[2] = -k * 0.25L / (x * std::sqrt(x)); s = std::make_unique<Paraboloid>(P, 2.0); term(j, 0, r, cw); term(j, 1, r, sw); term(j, 2, a, one); break; }
      case 6: s = std::make_unique<Helicoid>(P); term(j, 0, a, cw); term(j, 1, a, sw); term(j, 2, one, p * b); break;
      case 7: s = std::make_unique<EnneperSurface>(P); term(j, 0, p * (a - (1 / 3.0L) * (a * a * a)), one); term(j, 0, p * a, b * b); term(j, 1, one, p * (b - (1 / 3.0L) * (b * b * b))); term(j, 1, a * a, p * b); term(j, 2, p * (a * a), one); term(j, 2, one, (-p) * (b * b)); break;
      case 8: s = std::make_unique<MonkeySaddle>(); term(j, 0, a, one); term(j, 1, one, b); term(j, 2, a * a * a, one); term(j, 2, a, -3.0L * (b * b)); break;
      case 9: { J h = 0.5L * a, ch = cosJ(h), sh = sinJ(h); s = std::make_unique<MobiusStrip>(P); term(j, 0, p * cu, one); term(j, 0, p * (cu * ch), b); term(j, 1, p * su, one); term(j, 1, p * (su * ch), b); term(j, 2, p * sh, b); break; }
      default: { s = std::make_unique<DiniSurface>(P, 0.2 * P); J lt; LD v = W; lt.d[0] = std::log(std::tan(v / 2)); lt.d[1] = 1 / std::sin(v); lt.d[2] = -std::cos(v) / (std::sin(v) * std::sin(v)); term(j, 0, p * cu, sw); term(j, 1, p * su, sw); term(j, 2, one, p * (cw + lt)); term(j, 2, 0.2L * p * a, one); } }
    return j; };
  if (kind == 4) u = iu * 0.3 - 1; if (kind == 5) { u = 0.5 + iu; } if (kind == 6) { u = iu * 0.8 - 3; } if (kind == 7 || kind == 8) { u = iu * 0.4 - 1.6; w = iw * 0.4 - 1.5; } if (kind == 9) { u = iu * 0.7; w = iw * 0.2 - 0.8; } if (kind == 10) { w = 0.3 + 0.15 * iw; }
  j = make(u, w); size = std::max({len(j.r), len(j.u), len(j.w), len(j.uu), len(j.uw), len(j.ww)}) * 2; if (kind == 5 || kind == 4) size *= 2; if (kind == 10) size *= 4;
  std::string id = mc::Ctx::cat("surface ", kind, " size ", P, " at ", u, ",", w); checkSurface(ctx, *s, u, w, j, size, id, rel); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(degenerate_points, 1) {   // poles of spheres and ellipsoids, whatever the size
  Real R = ctx.pick({1.0, 1e-4, 1e4}); int k = ctx.choose(4); Real w = ctx.pick({0.0, 1.0}); ctx.step(); ctx.nontrivial(); std::unique_ptr<ISurfaceCartesian> s; if (k < 2) s = std::make_unique<Sphere>(R); else s = std::make_unique<Ellipsoid>(R, 2 * R, R); Real u = k % 2 ? Constants::PI : 0; (void)u; if (k % 2) return;
  Real a, b; s->PrincipalCurvatures(0, w, a, b); VectorN<Real, 3> n = s->Normal(0, w), d1, d2; s->PrincipalDirections(0, w, d1, d2); Real L, M, N; s->GetSecondNormalFormCoefficients(0, w, L, M, N);
  ctx.check(!s->isRegular(0, w) && len(v3(n)) == 0 && a == 0 && b == 0 && s->GaussianCurvature(0, w) == 0 && s->MeanCurvature(0, w) == 0 && L == 0 && M == 0 && N == 0 && len(v3(d1)) == 0 && len(v3(d2)) == 0, "degenerate", "radius ", R, " kind ", k); mc::Hash h; h.u(k).d(R).d(w); ctx.state(h);
}
MC_SCENARIO(planes, 1) {
  int x = ctx.choose(5) - 2, y = ctx.choose(5) - 2, z = ctx.choose(5) - 2; if (!x && !y && !z) { ctx.prune(); return; } int mode = ctx.choose(4); ctx.step(); ctx.nontrivial(); Vec3Cart n(x, y, z), pt(1, -2, 0.5); V3 nu = unit(V3{(LD)x, (LD)y, (LD)z}); std::string id = mc::Ctx::cat("normal (", x, ",", y, ",", z, ") mode ", mode);
  std::unique_ptr<PlaneSurface> p; V3 want{};
  if (mode == 0) p = std::make_unique<PlaneSurface>(pt, n);
  else if (mode < 3) { V3 d = mode == 1 ? V3{1, 2, -1} : V3{-3, 0, 1}; V3 pr = d - dot(d, nu) * nu; if (len(pr) < 1e-9L) { bool t = mc::throws([&] { PlaneSurface q(pt, n, Vec3Cart(d.x, d.y, d.z)); }); ctx.check(t, "plane-parallel-axis", id); return; } p = std::make_unique<PlaneSurface>(pt, n, Vec3Cart(d.x, d.y, d.z)); want = unit(pr); }
  else { Vec3Cart a, b; n.GetPerpendicularVectors(a, b); p = std::make_unique<PlaneSurface>(pt, n, a, b, -1, 2, -3, 4); ctx.check(p->getMinU() == -1 && p->getMaxU() == 2 && p->getMinW() == -3 && p->getMaxW() == 4, "plane-limits", id); want = v3(a); }
  V3 o = v3((*p)(0, 0)), a = v3((*p)(1, 0)) - o, b = v3((*p)(0, 1)) - o, c = v3((*p)(2, -3)) - o;
  ctx.check(dist(o, {1, -2, 0.5L}) == 0 && std::abs(len(a) - 1) < 1e-14L && std::abs(len(b) - 1) < 1e-14L && std::abs(dot(a, b)) < 1e-14L && std::abs(dot(a, nu)) < 1e-14L && std::abs(dot(b, nu)) < 1e-14L && dist(c, 2 * a - 3 * b) < 1e-13L, "plane-axes", id, " axes ", str(a), str(b));
  if (mode) ctx.check(dist(a, want) < 1e-13L, "plane-first-axis", id, " ", str(a), " expected ", str(want));
  ctx.check(dist(v3(p->Normal(0.5, -1)), nu) < 1e-6L && std::abs(p->GaussianCurvature(0.3, 1)) < 1e-9 && std::abs(p->MeanCurvature(0.3, 1)) < 1e-4, "plane-normal", id, " ", str(v3(p->Normal(0.5, -1)))); ctx.check(p->isFlat(0.3, 1, 1e-3) && !p->isParabolic(0.3, 1, 1e-3) && !p->isHyperbolic(0.3, 1, 1e-3), "plane-kind", id); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(closed_surfaces, 1) {   // one-sided surfaces are glued to themselves with a flip, and torn nowhere
  Real sc = ctx.pick({1.0, 0.25}); int iv = ctx.choose(17); Real v = iv * 0.39; ctx.step(); ctx.nontrivial(); KleinBottle k(sc); MobiusStrip m(sc); std::string id = mc::Ctx::cat("scale ", sc, " at ", v); LD P2 = 2 * PIL;
  ctx.check(dist(v3(k(0, v)), v3(k((Real)P2, (Real)(PIL - v)))) < 1e-12L * sc && dist(v3(k(1, v)), v3(k(1, (Real)(v + P2)))) < 1e-12L * sc, "klein-glued", id);
  Real w = iv / 8.0 - 1; ctx.check(dist(v3(m(0, w)), v3(m((Real)P2, -w))) < 1e-12L * sc, "moebius-glued", id);
  LD worst = 0, at = 0; for (int i = 0; i < 4000; i++) { LD d = dist(v3(k(i * Constants::PI / 2000, v)), v3(k((i + 1) * Constants::PI / 2000, v))); if (d > worst) worst = d, at = i; } ctx.check(worst < 0.08L * sc, "klein-torn", id, " jump ", (double)worst, " near u=", (double)(at * PIL / 2000));
  mc::Hash h; h.d(sc).d(v); ctx.state(h);
}
