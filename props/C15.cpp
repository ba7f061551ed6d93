// Points and vectors in Cartesian, polar, spherical and cylindrical form; angle conversions; quaternions
#include "mc.h"
#include <sstream>
#include "mml/base/Vector/VectorTypes.h"
#include "mml/base/Quaternions.h"
using namespace MML; static const double PI = 3.14159265358979323846;
struct V { double x, y, z; V operator+(V b) const { return {x + b.x, y + b.y, z + b.z}; } V operator-(V b) const { return {x - b.x, y - b.y, z - b.z}; } V operator*(double s) const { return {x * s, y * s, z * s}; } double dot(V b) const { return x * b.x + y * b.y + z * b.z; } V cr(V b) const { return {y * b.z - z * b.y, z * b.x - x * b.z, x * b.y - y * b.x}; } double n() const { return std::sqrt(dot(*this)); } };
static V of(const Vector3Cartesian& v) { return {v.X(), v.Y(), v.Z()}; } static V of(const Point3Cartesian& v) { return {v.X(), v.Y(), v.Z()}; } static V of(const Vector2Cartesian& v) { return {v.X(), v.Y(), 0}; } static V of(const Point2Cartesian& v) { return {v.X(), v.Y(), 0}; }
static V sph(double r, double t, double p) { return {r * std::sin(t) * std::cos(p), r * std::sin(t) * std::sin(p), r * std::cos(t)}; } static V cyl(double r, double p, double z) { return {r * std::cos(p), r * std::sin(p), z}; }
static V of(const Vector3Spherical& v) { return sph(v.R(), v.Theta(), v.Phi()); } static V of(const Vector3Cylindrical& v) { return cyl(v.R(), v.Phi(), v.Z()); } static V of(const Vector2Polar& v) { return cyl(v.R(), v.Phi(), 0); }
static bool eq(V a, V b, double tol = 1e-12) { return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol && std::fabs(a.z - b.z) <= tol; }
static std::string sh(V a) { char s[90]; snprintf(s, 90, "(%.15g,%.15g,%.15g)", a.x, a.y, a.z); return s; }
static V grid(mc::Ctx& ctx, int m) { V v; v.x = ctx.range(-m, m); v.y = ctx.range(-m, m); v.z = ctx.range(-m, m); return v; }
MC_SCENARIO(cartesian, 4) {
	int m = ctx.thorough ? 2 : 1; V a = grid(ctx, 2), b = grid(ctx, m); Vector3Cartesian u(a.x, a.y, a.z), w(b.x, b.y, b.z); Point3Cartesian p(a.x, a.y, a.z), q(b.x, b.y, b.z); double d = (a - b).n();
	ctx.check(eq(of(u + w), a + b, 0) && eq(of(u - w), a - b, 0) && eq(of(-u), a * -1, 0) && eq(of(u * 2.5), a * 2.5, 0) && eq(of(2.5 * u), a * 2.5, 0) && eq(of(u / 2.0), a * 0.5, 0) && u * w == a.dot(b) && u.ScalarProduct(w) == a.dot(b) && ScalarProduct(u, w) == a.dot(b) && eq(of(VectorProduct(u, w)), a.cr(b), 0), "vector-op", sh(a), sh(b)); ctx.check((u == w) == (d == 0) && (u != w) == (d != 0) && u.IsEqualTo(w) == (d == 0) && (p == q) == (d == 0) && (p != q) == (d != 0) && p.IsEqualTo(q) == (d == 0) && mc::near(p.Dist(q), d, 1e-15), "equality", sh(a), sh(b));
	ctx.check(eq(of(p + q), a + b, 0) && eq(of(p - q), a - b, 0) && eq(of(p * 3), a * 3, 0) && eq(of(3 * p), a * 3, 0) && eq(of(p / 4), a * 0.25, 0) && eq(of(p + w), a + b, 0) && eq(of(p - w), a - b, 0) && eq(of(Vector3Cartesian(p, q)), b - a, 0) && eq(of(Vector3Cartesian(p)), a, 0) && eq(of(u.getAsPoint()), a, 0), "point-op", sh(a), sh(b)); { auto t = p; t += q; ctx.check(eq(of(t), a + b, 0), "point-op", "+="); t -= q; t *= 3; t /= 2; ctx.check(eq(of(t), a * 1.5, 0), "point-op", "compound"); t = p; t += t; t -= t; ctx.check(eq(of(t), {0, 0, 0}, 0), "point-op", "self"); }
	double n = a.n(), nb = b.n(); ctx.check(mc::near(u.NormL2(), n, 1e-15), "norm", sh(a)); V un = n ? a * (1 / n) : V{0, 0, 0}; ctx.check(eq(of(u.Normalized()), un) && eq(of(u.GetAsUnitVector()), un) && eq(of(u.GetAsUnitVectorAtPos(w)), un), "unit", sh(a)); if (n && nb) { V bu = b * (1 / nb); if (!eq(un, bu * -1)) ctx.check(u.IsParallelTo(w) == eq(un, bu), "parallel", sh(a), sh(b)); double c = a.dot(b) / n / nb; ctx.check(mc::near_abs(u.AngleToVector(w), std::atan2(a.cr(b).n(), a.dot(b)), 3e-8), "angle", sh(a), sh(b), " ", c); } else ctx.check(mc::throws([&] { (void)u.AngleToVector(w); }), "angle", "zero vector accepted"); ctx.check(u.IsPerpendicularTo(w) == (a.dot(b) == 0), "perpendicular", sh(a), sh(b));
	Vector3Cartesian e1, e2; bool ok = u.GetPerpendicularVectors(e1, e2); ctx.check(ok == (n != 0), "perpendicular", "GetPerpendicularVectors"); if (ok) ctx.check(mc::near(e1.NormL2(), 1, 1e-12) && mc::near(e2.NormL2(), 1, 1e-12) && mc::near_abs(u * e1, 0, 1e-12) && mc::near_abs(u * e2, 0, 1e-12) && mc::near_abs(e1 * e2, 0, 1e-12), "perpendicular", sh(a));
	Vector2Cartesian s(a.x, a.y), t(b.x, b.y); V a2{a.x, a.y, 0}, b2{b.x, b.y, 0}; Point2Cartesian s1(a.x, a.y), t1(b.x, b.y); double n2 = a2.n(); V u2 = n2 ? a2 * (1 / n2) : a2; ctx.check(eq(of(s + t), a2 + b2, 0) && eq(of(s - t), a2 - b2, 0) && eq(of(-s), a2 * -1, 0) && eq(of(s * 3), a2 * 3, 0) && eq(of(3 * s), a2 * 3, 0) && eq(of(s / 2), a2 * 0.5, 0) && s * t == a2.dot(b2) && ScalarProduct(s, t) == a2.dot(b2) && eq(of(Vector2Cartesian(s1, t1)), b2 - a2, 0) && eq(of(s1 + t), a2 + b2, 0) && eq(of(s1 - t), a2 - b2, 0) && eq(of(s1 + t1), a2 + b2, 0) && eq(of(s1 - t1), a2 - b2, 0) && eq(of(s1 * 3), a2 * 3, 0) && eq(of(s1 / 2), a2 * .5, 0), "2d", sh(a2), sh(b2)); ctx.check((s == t) == ((a2 - b2).n() == 0) && (s != t) == ((a2 - b2).n() != 0) && (s1 == t1) == ((a2 - b2).n() == 0) && s.IsEqualTo(t) == ((a2 - b2).n() == 0) && mc::near(s1.Dist(t1), (a2 - b2).n(), 1e-15) && eq(of(s.Normalized()), u2) && eq(of(s.GetAsUnitVector()), u2), "2d", ""); Vector2Cartesian v1, v2; s.getPerpendicularVectors(v1, v2); ctx.check(v1 * s == 0 && v2 * s == 0 && v1 == -v2 && eq(of(v1), {-a.y, a.x, 0}, 0), "2d", "perpendicular");
	Vector4Minkowski k{a.x, b.x, b.y, b.z}, l{b.z, a.x, a.y, a.z}; double in = a.x * a.x - b.dot(b); ctx.check(ScalarProduct(k, l) == a.x * b.z - b.x * a.x - b.y * a.y - b.z * a.z && k.isTimelike() == (in > 0) && k.isSpacelike() == (in < 0) && k.isLightlike() == (in == 0) && mc::near(std::fabs(k.Norm()), std::sqrt(std::fabs(in)), 1e-14), "minkowski", "interval ", in); ctx.check(k.Norm() == 0 || (k.Norm() > 0) == (in > 0), "minkowski", "sign");
	ctx.state(mc::Hash().d(a.x).d(a.y).d(a.z).d(b.x).d(b.y).d(b.z)); ctx.outcome(mc::Hash().d(a.dot(b)).d(d)); ctx.nontrivial();
}
MC_SCENARIO(curvilinear_vectors, 4) { // operators agree with the same vectors in Cartesian form
	int A = ctx.thorough ? 12 : 8; double r1 = ctx.pick({1.0, 0.0, 2.5}), t1 = PI * ctx.choose(5) / 4, p1 = 2 * PI * ctx.choose(A) / A - PI, r2 = ctx.pick({1.0, 0.0, 0.75}), t2 = PI * ctx.choose(4) / 3, p2 = 2 * PI * ctx.choose(A) / A - PI; double z1 = t1 - 1, z2 = 1 - t2; double tol = 1e-12;
	{ Vector3Spherical a(r1, t1, p1), b(r2, t2, p2); V u = of(a), w = of(b); ctx.check(eq(of(a + b), u + w, 3e-8) && eq(of(a - b), u - w, 3e-8), "spherical", sh(u), " and ", sh(w), ": sum ", sh(of(a + b)), " difference ", sh(of(a - b))); ctx.check(eq(of(-a), u * -1, tol) && eq(of(a * 2), u * 2, tol) && eq(of(2 * a), u * 2, tol) && eq(of(a / 2), u * .5, tol) && mc::throws([&] { (void)(a / 0.0); }), "spherical", sh(u)); auto s = a + b; ctx.check(s.R() >= 0 && s.Theta() >= 0 && s.Theta() <= PI + 1e-15 && std::fabs(s.Phi()) <= PI + 1e-15, "spherical", "range");
		V er = sph(1, t2, p2), et{std::cos(t2) * std::cos(p2), std::cos(t2) * std::sin(p2), -std::sin(t2)}, ep{-std::sin(p2), std::cos(p2), 0}; auto c = a.GetAsUnitVectorAtPos(b); double k = r1 ? 1 / r1 : 0; ctx.check(mc::near_abs(c[0], k * u.dot(er), tol) && mc::near_abs(c[1], k * u.dot(et), tol) && mc::near_abs(c[2], k * u.dot(ep), tol), "spherical", "components at a position"); auto g = a.GetAsUnitVectorAtPosGlobalSpher(b); if (r1) ctx.check(eq(of(g), V{u.dot(et) * k, u.dot(ep) * k, u.dot(er) * k}, 3e-8), "spherical", "angles at a position"); else ctx.check(g.R() == 0, "spherical", "zero"); Vector3Spherical a2(r1, t1, p1 + 2 * PI); ctx.check(a.IsEqualTo(a2, 1e-9) && a == a && a != Vector3Spherical(r1, t1, p1 + 1) && !a.IsEqualTo(Vector3Spherical(r1 + 1, t1, p1)) && !a.IsEqualTo(Vector3Spherical(r1, t1 + 0.1, p1)) && !a.IsEqualTo(Vector3Spherical(r1, t1, p1 + 0.1)), "spherical", "equality"); }
	{ Vector3Cylindrical a(r1, p1, z1), b(r2, p2, z2); V u = of(a), w = of(b); ctx.check(eq(of(a + b), u + w, tol) && eq(of(a - b), u - w, tol), "cylindrical", sh(u), sh(w)); { V g = of(-a); if (z1 != 0 && eq(g, {-u.x, -u.y, u.z}, tol)) ctx.soft(false, "negation-keeps-z", sh(u), " -> ", sh(g)); else ctx.check(eq(g, u * -1, tol), "cylindrical-negation", sh(u), " -> ", sh(g)); } ctx.check(eq(of(a * 2), u * 2, tol) && eq(of(2 * a), u * 2, tol) && eq(of(a / 2), u * .5, tol) && mc::throws([&] { (void)(a / 0.0); }), "cylindrical", "scaling"); auto c = a.GetAsUnitVectorAtPos(b); double k = u.n() ? 1 / u.n() : 0; ctx.check(mc::near_abs(c[0], k * (u.x * std::cos(p2) + u.y * std::sin(p2)), tol) && mc::near_abs(c[1], k * (u.y * std::cos(p2) - u.x * std::sin(p2)), tol) && mc::near_abs(c[2], k * u.z, tol), "cylindrical", "components at a position"); }
	{ Vector2Polar a(r1, p1), b(r2, p2); V u = of(a), w = of(b); ctx.check(eq(of(a + b), u + w, 3e-8), "polar", sh(u), " + ", sh(w), " = ", sh(of(a + b))); ctx.check(eq(of(a - b), u - w, 3e-8), "polar", sh(u), " - ", sh(w), " = ", sh(of(a - b))); ctx.check(eq(of(-a), u * -1, tol) && eq(of(a * 2), u * 2, tol) && eq(of(2 * a), u * 2, tol) && eq(of(a / 2), u * .5, tol), "polar", "scaling"); }
	ctx.state(mc::Hash().d(r1).d(t1).d(p1).d(r2).d(t2).d(p2)); ctx.outcome(mc::Hash().d(std::round(1e6 * (sph(r1, t1, p1) - sph(r2, t2, p2)).n()))); ctx.nontrivial();
}
MC_SCENARIO(points, 4) { // distances and conversions of points; radii that differ by nothing or by one unit in the last place
	int A = 8; double r1 = ctx.pick({1.0, 0.0, 2.5, 1.0 / 3, 0.7}), t1 = PI * ctx.choose(5) / 4, p1 = 2 * PI * ctx.choose(A) / A - PI; int how = ctx.choose(5); double r2 = how == 0 ? r1 : how == 1 ? std::nextafter(r1, 9) : how == 2 ? r1 * (1 + 1e-9) : how == 3 ? 0.75 : 0, t2 = ctx.flag() ? t1 : PI * ctx.choose(4) / 3, p2 = ctx.flag() ? p1 : 2 * PI * ctx.choose(A) / A; double z1 = t1 - 1, z2 = ctx.flag() ? z1 : 0.5;
	auto D = [&](const char* k, double got, V a, V b) { double d = (a - b).n(); ctx.check(mc::near_abs(got, d, 5e-7), k, "distance of ", sh(a), " and ", sh(b), ": ", got, " instead of ", d); };
	Point2Polar a(r1, p1), b(r2, p2); D("polar-distance", a.Dist(b), cyl(r1, p1, 0), cyl(r2, p2, 0)); ctx.check(eq(of(a.TransfToCart()), cyl(r1, p1, 0)), "polar", "to Cartesian"); Point2Polar back(a.TransfToCart()); ctx.check(eq(cyl(back.R(), back.Phi(), 0), cyl(r1, p1, 0)) && back.R() >= 0 && std::fabs(back.Phi()) <= PI + 1e-15, "polar", "round trip");
	Point3Spherical s(r1, t1, p1), t(r2, t2, p2); D("spherical-distance", s.Dist(t), sph(r1, t1, p1), sph(r2, t2, p2)); ctx.check(eq(of(s.TransfToCart()), sph(r1, t1, p1)), "spherical", "to Cartesian"); Point3Spherical sb(s.TransfToCart()); ctx.check(eq(sph(sb.R(), sb.Theta(), sb.Phi()), sph(r1, t1, p1)) && sb.R() >= 0 && sb.Theta() >= 0 && sb.Theta() <= PI, "spherical", "round trip");
	Point3Cylindrical c(r1, p1, z1), d(r2, p2, z2); D("cylindrical-distance", c.Dist(d), cyl(r1, p1, z1), cyl(r2, p2, z2)); ctx.check(eq(of(c.TransfToCart()), cyl(r1, p1, z1)), "cylindrical", "to Cartesian"); Point3Cylindrical cb(c.TransfToCart()); ctx.check(eq(cyl(cb.R(), cb.Phi(), cb.Z()), cyl(r1, p1, z1)), "cylindrical", "round trip");
	{ double q1 = r1 * (0.9 + 0.1 * how) + 0.1, q2 = std::nextafter(q1, how & 1 ? 9 : 0), al = t1 * 0.37 + 0.1 * how, be = p1 * 0.73; for (double q : {q1, q2}) { D("polar-distance", Point2Polar(q1, al).Dist(Point2Polar(q, al)), cyl(q1, al, 0), cyl(q, al, 0)); D("spherical-distance", Point3Spherical(q1, al, be).Dist(Point3Spherical(q, al, be)), sph(q1, al, be), sph(q, al, be)); D("cylindrical-distance", Point3Cylindrical(q1, al, be).Dist(Point3Cylindrical(q, al, be)), cyl(q1, al, be), cyl(q, al, be)); ctx.check(Point2Polar(q1, al).IsEqualTo(Point2Polar(q, al), 1e-6) && Point3Spherical(q1, al, be).IsEqualTo(Point3Spherical(q, al, be), 1e-6) && Point3Cylindrical(q1, al, be).IsEqualTo(Point3Cylindrical(q, al, be), 1e-6), "point-equality", "nearly equal points at radius ", q1); } }
	double x, y, z, rr, th, ph; Utils::SphericalToCartesian(r1, t1, p1, x, y, z); ctx.check(eq({x, y, z}, sph(r1, t1, p1)), "utils", "spherical"); Utils::CartesianToSpherical(x, y, z, rr, th, ph); ctx.check(eq(sph(rr, th, ph), {x, y, z}, 3e-8) && th >= 0, "utils", "spherical back"); Utils::CylindricalToCartesian(r1, p1, z1, x, y, z); ctx.check(eq({x, y, z}, cyl(r1, p1, z1)), "utils", "cylindrical"); Utils::CartesianToCylindrical(x, y, z, rr, ph, th); ctx.check(eq(cyl(rr, ph, th), {x, y, z}) && rr >= 0, "utils", "cylindrical back"); Utils::PolarToCartesian(r1, p1, x, y); ctx.check(eq({x, y, 0}, cyl(r1, p1, 0)), "utils", "polar"); Utils::CartesianToPolar(x, y, rr, ph); ctx.check(eq(cyl(rr, ph, 0), {x, y, 0}) && rr >= 0, "utils", "polar back");
	ctx.state(mc::Hash().d(r1).d(t1).d(p1).d(r2).d(t2).d(p2).d(z2)); ctx.outcome(mc::Hash().d(std::round(1e6 * c.Dist(d)))); ctx.nontrivial();
}
MC_SCENARIO(angles, 2, false, 5) {
	int k = ctx.range(-9, 9); double e = ctx.pick({0.0, 1e-16, -1e-16, 1e-12, -1e-9, 0.3}), sc = ctx.pick({1.0, 1e9, 1e17}); double a = (k * PI / 2 + e) * sc; double b = Utils::AngleTo2PiRange(a), c = Utils::AngleToPiPiRange(a); ctx.check(b >= 0 && b < 2 * PI, "range", a, " -> ", b, " not in [0,2pi)"); ctx.check(c >= -PI && c < PI, "range", a, " -> ", c, " not in [-pi,pi)"); double tol = 1e-14 * (1 + std::fabs(a)); if (tol < 0.1) { ctx.check(std::fabs(std::remainder(b - a, 2 * PI)) <= tol && std::fabs(std::remainder(c - a, 2 * PI)) <= tol, "range", a, " -> ", b, " ", c); }
	if (sc == 1) { double dg = k * 12.5 + e * 100, D, M, S; Utils::AngleDegToExplicit(dg, D, M, S); ctx.check(D == std::floor(D) && M == std::floor(M) && M >= 0 && M <= 60 && S > -1e-9 && S <= 60 + 1e-9, "explicit", dg, " -> ", D, " ", M, " ", S); ctx.check(mc::near_abs(Utils::ExplicitToAngleDeg(D, M, S), dg, 1e-9) && mc::near_abs(D + M / 60 + S / 3600, dg, 1e-9), "explicit", dg); Utils::AngleRadToExplicit(a, D, M, S); ctx.check(mc::near_abs(Utils::ExplicitToAngleRad(D, M, S), a, 1e-9), "explicit", a); ctx.check(mc::near_abs(Utils::DegToRad(dg), dg * PI / 180, 1e-12) && mc::near_abs(Utils::RadToDeg(Utils::DegToRad(dg)), dg, 1e-10), "degrees", dg); }
	ctx.state(mc::Hash().u(k + 99).d(e).d(sc)); ctx.outcome(mc::Hash().d(b)); ctx.nontrivial();
}
struct Rm { double m[3][3]; Rm operator*(const Rm& b) const { Rm o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { o.m[i][j] = 0; for (int k = 0; k < 3; k++) o.m[i][j] += m[i][k] * b.m[k][j]; } return o; } V operator*(V v) const { return {m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z, m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z}; } };
static Rm rot(int ax, double a) { double c = std::cos(a), s = std::sin(a); Rm r{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; int i = (ax + 1) % 3, j = (ax + 2) % 3; r.m[i][i] = c; r.m[j][j] = c; r.m[i][j] = -s; r.m[j][i] = s; return r; }
static bool eqm(const MatrixNM<Real, 3, 3>& a, const Rm& b, double tol = 1e-10) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(std::fabs(a(i, j) - b.m[i][j]) <= tol)) return false; return true; }
MC_SCENARIO(rotations, 3) { // every Euler triple: rotation = product of elementary rotations; all conversions agree
	int A = ctx.thorough ? 24 : 12; double y = 2 * PI * ctx.choose(A) / A - PI, p = PI * ctx.choose(A / 2 + 1) / (A / 2) - PI / 2, r = 2 * PI * ctx.choose(A) / A - PI; Rm R = rot(2, y) * rot(1, p) * rot(0, r), X = rot(0, r) * rot(1, p) * rot(2, y); Quaternion q = Quaternion::FromEulerZYX(y, p, r), q2 = Quaternion::FromEulerXYZ(r, p, y); bool lock = std::fabs(std::fabs(p) - PI / 2) < 1e-9;
	ctx.check(q.isUnit(1e-12) && eqm(q.ToRotationMatrix(), R), "euler-zyx", "yaw ", y, " pitch ", p, " roll ", r); ctx.check(q2.isUnit(1e-12) && eqm(q2.ToRotationMatrix(), X), "euler-xyz", "roll ", r, " pitch ", p, " yaw ", y);
	for (V v : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{1, -2, 0.5}}) { Vec3Cart w(v.x, v.y, v.z); ctx.check(eq(of(q.Rotate(w)), R * v) && eq(of((q * Quaternion(w) * q.Conjugate()).Vector()), R * v), "rotate", sh(v)); }
	Quaternion b = Quaternion::FromRotationMatrix(q.ToRotationMatrix()); ctx.check(eqm(b.ToRotationMatrix(), R, 1e-7) && b.isUnit(1e-7) && std::fabs(std::fabs(b.Dot(q)) - 1) < 1e-7, "from-matrix", "yaw ", y, " pitch ", p, " roll ", r); Vec3Cart e = q.ToEulerZYX(); if (!lock) ctx.check(eqm(Quaternion::FromEulerZYX(e[0], e[1], e[2]).ToRotationMatrix(), R, 1e-7) && std::fabs(e[1]) <= PI / 2, "to-euler", "yaw ", y, " pitch ", p, " roll ", r, " -> ", e[0], " ", e[1], " ", e[2]); else ctx.check(mc::near_abs(e[1], p, 1e-6) && std::isfinite(e[0]) && std::isfinite(e[2]), "to-euler", "at gimbal lock");
	for (int s = 0; s < 2; s++) { Quaternion z = s ? -q : q; Vec3Cart ax; double an; z.ToAxisAngle(ax, an); ctx.check(mc::near(ax.NormL2(), 1, 1e-9) && an >= 0 && an <= 2 * PI + 1e-12 && eqm(Quaternion::FromAxisAngle(ax, an).ToRotationMatrix(), R, 1e-6), "axis-angle", "yaw ", y, " pitch ", p, " roll ", r, " axis ", sh(of(ax)), " angle ", an); }
	Quaternion qi = q.Inverse(); ctx.check((q * qi).isIdentity(1e-12) && (qi * q).isIdentity(1e-12) && qi.isApprox(q.Conjugate(), 1e-12), "inverse", "unit"); Quaternion c = q * q2; ctx.check(eqm(c.ToRotationMatrix(), R * X), "compose", ""); ctx.state(mc::Hash().d(y).d(p).d(r)); ctx.outcome(mc::Hash().d(std::round(1e6 * std::fabs(q.w())))); ctx.nontrivial();
}
MC_SCENARIO(half_turns, 2) { // rotations by (nearly) half a turn about (nearly) every axis: the matrix trace gives no information
	double c[4]; for (int i = 0; i < 4; i++) c[i] = i ? ctx.pick({0.0, 1.0, -1.0, 1e-9, -1e-5, 0.5}) : ctx.pick({0.0, 1e-9, -1e-5}); double n = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3]); if (n < 0.1) ctx.prune(); Quaternion q = Quaternion(c[0], c[1], c[2], c[3]) / n; auto m = q.ToRotationMatrix(); Quaternion b = Quaternion::FromRotationMatrix(m); ctx.check(b.isUnit(1e-7) && std::fabs(std::fabs(b.Dot(q)) - 1) < 1e-7, "from-matrix", "quaternion ", q, " read back as ", b); auto k = b.ToRotationMatrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ctx.check(mc::near_abs(k(i, j), m(i, j), 1e-7), "from-matrix", "quaternion ", q, " read back as ", b); ctx.state(mc::Hash().d(c[0]).d(c[1]).d(c[2]).d(c[3])); ctx.outcome(mc::Hash().u(c[1] > c[2]).u(c[2] > c[3]).u(c[1] > c[3])); ctx.nontrivial();
}
MC_SCENARIO(quaternion_algebra, 4) {
	int a[4], b[4]; for (int i = 0; i < 4; i++) a[i] = ctx.range(-1, i < 2 || ctx.thorough ? 2 : 1); for (int i = 0; i < 4; i++) b[i] = ctx.range(i & 1 ? -1 : 0, i == 0 ? 2 : 1); Quaternion p(a[0], a[1], a[2], a[3]), q(b[0], b[1], b[2], b[3]); auto is = [&](const Quaternion& z, double w, double x, double y, double u) { return z.w() == w && z.x() == x && z.y() == y && z.z() == u; };
	V va{(double)a[1], (double)a[2], (double)a[3]}, vb{(double)b[1], (double)b[2], (double)b[3]}; V c = va.cr(vb) + vb * a[0] + va * b[0]; double w = a[0] * b[0] - va.dot(vb); ctx.check(is(p * q, w, c.x, c.y, c.z), "product", ""); { auto t = p; t *= q; ctx.check(t == p * q, "product", "in place"); t = p; t *= t; ctx.check(t == p * p, "product", "squared in place"); }
	ctx.check(is(p + q, a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]) && is(p - q, a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]) && is(-p, -a[0], -a[1], -a[2], -a[3]) && is(p * 3.0, 3 * a[0], 3 * a[1], 3 * a[2], 3 * a[3]) && 3.0 * p == p * 3.0 && p / 2.0 == p * 0.5 && is(p.Conjugate(), a[0], -a[1], -a[2], -a[3]), "linear", ""); { auto t = p; t += q; ctx.check(t == p + q, "linear", "+="); t -= q; ctx.check(t == p, "linear", "-="); t *= 2.0; ctx.check(t == p * 2.0, "linear", "*="); } double n2 = a[0] * a[0] + va.dot(va); ctx.check(p.NormSquared() == n2 && mc::near(p.Norm(), std::sqrt(n2), 1e-15) && p.Dot(q) == a[0] * b[0] + va.dot(vb) && p.Scalar() == a[0] && eq(of(p.Vector()), va, 0) && p[0] == a[0] && p[3] == a[3], "norm", ""); bool same = true; for (int i = 0; i < 4; i++) same = same && a[i] == b[i]; ctx.check((p == q) == same && (p != q) == !same && p.isApprox(q) == same && p.isUnit() == (n2 == 1) && p.isIdentity() == (a[0] == 1 && va.dot(va) == 0), "equal", "");
	if (n2 == 0) ctx.check(mc::throws([&] { (void)p.Inverse(); }) && mc::throws([&] { (void)p.Normalized(); }) && mc::throws([&] { auto t = p; t.Normalize(); }), "zero", "accepted"); else { ctx.check((p * p.Inverse()).isIdentity(1e-14) && (p.Inverse() * p).isIdentity(1e-14) && p.Normalized().isUnit(1e-14) && (p.Normalized() * std::sqrt(n2)).isApprox(p, 1e-14), "inverse", ""); }
	double t = 0.25 * (1 + std::abs(a[0])); Quaternion l = Quaternion::Lerp(p, q, t); ctx.check(mc::near(l.x(), a[1] + t * (b[1] - a[1]), 1e-15) && mc::near(l.w(), a[0] + t * (b[0] - a[0]), 1e-15) && Quaternion::Lerp(p, q, 0) == p && Quaternion::Lerp(p, q, 1) == q, "lerp", "");
	if (n2 && b[0] * b[0] + vb.dot(vb)) { Quaternion u = p.Normalized(), v = q.Normalized(); double d = u.Dot(v), th = std::acos(std::min(1.0, std::fabs(d))); if (d < 0) v = -v; for (double s : {0.0, 0.25, 0.5, 0.8, 1.0}) { Quaternion m = Quaternion::Slerp(u, q.Normalized(), s); ctx.check(m.isUnit(1e-9), "slerp", "not a unit quaternion at ", s); if (std::fabs(d) > 1e-9) { ctx.check(mc::near_abs(std::acos(std::min(1.0, m.Dot(u))), s * th, 1e-6) && mc::near_abs(std::acos(std::min(1.0, m.Dot(v))), (1 - s) * th, 1e-6), "slerp", "angle at ", s); if (s == 0) ctx.check(m.isApprox(u, 1e-9), "slerp", "start"); if (s == 1) ctx.check(m.isApprox(v, 1e-9), "slerp", "end"); } } }
	std::ostringstream o; o << p; double g[4]; ctx.check(sscanf(o.str().c_str(), "[%lf, %lfi, %lfj, %lfk]", g, g + 1, g + 2, g + 3) == 4 && is(p, g[0], g[1], g[2], g[3]), "print", o.str()); ctx.state(mc::Hash().u(a[0] + 9).u(a[1] + 9).u(a[2] + 9).u(a[3] + 9).u(b[0] + 9).u(b[1] + 9).u(b[2] + 9).u(b[3] + 9)); ctx.outcome(mc::Hash().d(w).d(c.x)); ctx.nontrivial();
}
