// solid bodies and bounding volumes: boxes, spheres, meshes and solids agree with the body they describe
// mc-flags: -O2
#include "mc.h"
#include <memory>
#include <map>
#include <set>
#include <array>
#include "mml/base/Geometry/Geometry3DBodies.h"
using namespace MML; static const double PI = 3.14159265358979323846;
static bool eq(double a, double b, double tol) { return std::isfinite(a) && std::fabs(a - b) <= tol; } static bool at(const Pnt3Cart& a, const Pnt3Cart& b, double tol) { return eq(a.X(), b.X(), tol) && eq(a.Y(), b.Y(), tol) && eq(a.Z(), b.Z(), tol); }
struct I3 { int lo[3], hi[3]; };
static I3 ibox(mc::Ctx& ctx, int n) { I3 b; for (int i = 0; i < 3; i++) { int k = ctx.choose((n + 1) * n / 2); int c = 0; for (int l = 0; l < n; l++) for (int h = l; h < n; h++) if (c++ == k) { b.lo[i] = l; b.hi[i] = h; } } return b; }
static std::string bs(const I3& b) { std::string s; for (int i = 0; i < 3; i++) s += "[" + std::to_string(b.lo[i]) + "," + std::to_string(b.hi[i]) + "]"; return s; }
MC_SCENARIO(boxes, 2) { // every pair of integer boxes, flat and point-like ones included
	int n = ctx.thorough ? 4 : 3; I3 a = ibox(ctx, n), b = ibox(ctx, n); double sc = 0.5, of[3] = {-1, 2, 0.25}; auto P = [&](int x, int y, int z) { return Pnt3Cart(of[0] + sc * x, of[1] + sc * y, of[2] + sc * z); }; Box3D A(P(a.lo[0], a.hi[1], a.lo[2]), P(a.hi[0], a.lo[1], a.hi[2])), B(of[0] + sc * b.hi[0], of[1] + sc * b.lo[1], of[2] + sc * b.lo[2], of[0] + sc * b.lo[0], of[1] + sc * b.hi[1], of[2] + sc * b.hi[2]); ctx.step(); std::string nm = bs(a) + " and " + bs(b); auto is = [&](const Box3D& x, const I3& i) { return at(x.Min(), P(i.lo[0], i.lo[1], i.lo[2]), 1e-12) && at(x.Max(), P(i.hi[0], i.hi[1], i.hi[2]), 1e-12); };
	ctx.check(is(A, a) && is(B, b), "normalized", nm); double d[3]; for (int i = 0; i < 3; i++) d[i] = sc * (a.hi[i] - a.lo[i]); ctx.check(eq(A.Width(), d[0], 1e-12) && eq(A.Height(), d[1], 1e-12) && eq(A.Depth(), d[2], 1e-12) && eq(A.Volume(), d[0] * d[1] * d[2], 1e-12) && eq(A.SurfaceArea(), 2 * (d[0] * d[1] + d[1] * d[2] + d[0] * d[2]), 1e-12) && eq(A.Diagonal(), std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), 1e-12) && A.Size().X() == A.Width() && A.Size().Y() == A.Height() && A.Size().Z() == A.Depth() && eq(A.HalfExtents().Z(), d[2] / 2, 1e-12), "measures", nm); ctx.check(A.IsDegenerate() == (d[0] * d[1] * d[2] == 0), "degenerate", nm); ctx.check(A.MinX() == A.Min().X() && A.MinY() == A.Min().Y() && A.MinZ() == A.Min().Z() && A.MaxX() == A.Max().X() && A.MaxY() == A.Max().Y() && A.MaxZ() == A.Max().Z(), "measures", nm);
	bool meet = true, sub = true; I3 in, un; for (int i = 0; i < 3; i++) { in.lo[i] = std::max(a.lo[i], b.lo[i]); in.hi[i] = std::min(a.hi[i], b.hi[i]); meet = meet && in.lo[i] <= in.hi[i]; un.lo[i] = std::min(a.lo[i], b.lo[i]); un.hi[i] = std::max(a.hi[i], b.hi[i]); sub = sub && a.lo[i] <= b.lo[i] && b.hi[i] <= a.hi[i]; } ctx.check(A.Intersects(B) == meet && B.Intersects(A) == meet, "intersects", nm); if (meet) ctx.check(is(A.Intersection(B), in), "intersection", nm); else ctx.check(A.Intersection(B).Volume() == 0, "intersection", nm, ": disjoint boxes"); ctx.check(is(A.Union(B), un), "union", nm); ctx.check(A.Contains(B) == sub, "contains-box", nm); Box3D E = A; for (auto& c : B.Corners()) E.ExpandToInclude(c); ctx.check(is(E, un), "expand", nm); Box3D F = Box3D::FromPoints({A.Corner000(), A.Corner111(), B.Corner110(), B.Corner001()}); ctx.check(is(F, un), "from-points", nm); auto cs = A.Corners(); std::set<std::array<double, 3>> seen; for (auto& c : cs) { seen.insert({c.X(), c.Y(), c.Z()}); ctx.check((c.X() == A.MinX() || c.X() == A.MaxX()) && (c.Y() == A.MinY() || c.Y() == A.MaxY()) && (c.Z() == A.MinZ() || c.Z() == A.MaxZ()), "corners", nm); } int ne = (d[0] > 0) + (d[1] > 0) + (d[2] > 0); ctx.check(cs.size() == 8 && (int)seen.size() == 1 << ne, "corners", nm); ctx.check(A.Corner100().X() == A.MaxX() && A.Corner100().Y() == A.MinY() && A.Corner010().Y() == A.MaxY() && A.Corner011().Z() == A.MaxZ() && A.Corner011().X() == A.MinX() && A.Corner101().Y() == A.MinY() && A.Corner101().X() == A.MaxX() && A.Corner101().Z() == A.MaxZ(), "corners", nm);
	for (int k = 0; k < 27; k++) { int q[3] = {k % 3 * 2 - 1, k / 3 % 3 * 2 - 1, k / 9 * 2 - 1}; Pnt3Cart p = P(q[0], q[1], q[2]); double s = 0, cl[3]; bool ins = true; for (int i = 0; i < 3; i++) { double t = std::max({0, a.lo[i] - q[i], q[i] - a.hi[i]}) * sc; s += t * t; ins = ins && t == 0; cl[i] = std::min(std::max(q[i], a.lo[i]), a.hi[i]); } ctx.check(A.Contains(p) == ins, "contains-point", nm); ctx.check(eq(A.DistanceToPoint(p), std::sqrt(s), 1e-12), "distance", nm, ": ", A.DistanceToPoint(p), " expected ", std::sqrt(s)); ctx.check(at(A.ClosestPoint(p), P((int)cl[0], (int)cl[1], (int)cl[2]), 1e-12), "closest", nm); }
	Pnt3Cart c = A.Center(); ctx.check(at(c, P(0, 0, 0) + Vec3Cart(sc * (a.lo[0] + a.hi[0]) / 2., sc * (a.lo[1] + a.hi[1]) / 2., sc * (a.lo[2] + a.hi[2]) / 2.), 1e-12), "center", nm); Box3D C1 = Box3D::FromCenterAndSize(c, d[0], d[1], d[2]), C2 = Box3D::FromCenterAndHalfExtents(c, d[0] / 2, d[1] / 2, d[2] / 2), C3 = Box3D::FromCenterAndHalfExtents(c, A.HalfExtents()); ctx.check(is(C1, a) && is(C2, a) && is(C3, a), "from-center", nm); Box3D X = A.Expanded(0.5); ctx.check(at(X.Min(), A.Min() - Vec3Cart(.5, .5, .5), 1e-12) && at(X.Max(), A.Max() + Vec3Cart(.5, .5, .5), 1e-12), "expanded", nm); Box3D T = A.Translated(Vec3Cart(1, -2, 3)); ctx.check(at(T.Min(), A.Min() + Vec3Cart(1, -2, 3), 1e-12) && at(T.Max(), A.Max() + Vec3Cart(1, -2, 3), 1e-12), "translated", nm); for (double f : {0.0, 0.5, 2.0, -1.0}) { Box3D S = A.Scaled(f); ctx.check(at(S.Center(), c, 1e-12) && eq(S.Width(), std::fabs(f) * d[0], 1e-12) && eq(S.Height(), std::fabs(f) * d[1], 1e-12) && eq(S.Depth(), std::fabs(f) * d[2], 1e-12), "scaled", nm, " by ", f); }
	ctx.check(mc::throws([&] { Box3D::FromPoints({}); }), "from-points", "empty set"); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().u(meet).u(sub).d(A.Volume())); ctx.nontrivial(); }
MC_SCENARIO(spheres, 1) { // bounding spheres
	double r1 = ctx.pick({0.0, 1.0, 2.5}), r2 = ctx.pick({0.0, 1.5, 5.0}); static const int C[][3] = {{0, 0, 0}, {3, 0, 0}, {2, -1, 2}, {0, 0, 7}, {6, 2, 3}, {0, 4, 3}}; int k = ctx.choose(6), m = ctx.choose(6); Pnt3Cart c(C[k][0], C[k][1], C[k][2]), e(C[m][0], C[m][1], C[m][2]); BoundingSphere3D A(c, r1), B(e, r2); ctx.step(); std::string nm = ctx.cat("spheres ", k, " ", m, " radii ", r1, " ", r2); double d = std::sqrt(std::pow(C[k][0] - C[m][0], 2) + std::pow(C[k][1] - C[m][1], 2) + std::pow(C[k][2] - C[m][2], 2)); ctx.check(A.Intersects(B) == (d <= r1 + r2) && B.Intersects(A) == A.Intersects(B), "sphere-intersects", nm); ctx.check(A.Contains(e) == (d <= r1), "sphere-contains", nm); BoundingSphere3D X = A; X.ExpandToInclude(e); ctx.check(eq(X.Radius(), std::max(r1, d), 1e-12) && at(X.Center(), c, 0) && X.Contains(e), "sphere-expand", nm); ctx.check(eq(A.Volume(), 4. / 3 * PI * r1 * r1 * r1, 1e-10), "sphere-volume", nm); ctx.check(mc::throws([&] { BoundingSphere3D(c, -0.1); }), "sphere-negative", nm); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(d).d(r1).d(r2)); ctx.nontrivial(); }
struct Mesh { std::vector<std::array<Pnt3Cart, 3>> t; void quad(const RectSurface3D& r) { t.push_back({r._pnt1, r._pnt2, r._pnt3}); t.push_back({r._pnt1, r._pnt3, r._pnt4}); } };
// a mesh must be a closed, consistently outward oriented surface with the given area and volume
static void mesh(mc::Ctx& ctx, const Mesh& m, const std::string& nm, double vol, double area, double rel, std::function<double(const Pnt3Cart&)> vertexOff, double size, const Pnt3Cart& cen) {
	double V = 0, A = 0; std::map<std::array<long long, 3>, int> id; auto vid = [&](const Pnt3Cart& p) { double q = 1e7 / size; std::array<long long, 3> k{llround((p.X() - cen.X()) * q), llround((p.Y() - cen.Y()) * q), llround((p.Z() - cen.Z()) * q)}; return id.emplace(k, (int)id.size()).first->second; }; std::map<std::pair<int, int>, int> ed; for (auto& f : m.t) { double a[3], b[3], o[3]; auto c = [](const Pnt3Cart& p, const Pnt3Cart& q, double* r) { r[0] = p.X() - q.X(); r[1] = p.Y() - q.Y(); r[2] = p.Z() - q.Z(); }; c(f[1], f[0], a); c(f[2], f[0], b); c(f[0], cen, o); double n[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; V += (n[0] * o[0] + n[1] * o[1] + n[2] * o[2]) / 6; A += std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) / 2; int v[3] = {vid(f[0]), vid(f[1]), vid(f[2])}; ctx.check(v[0] != v[1] && v[1] != v[2] && v[0] != v[2], "mesh-degenerate", nm); for (int i = 0; i < 3; i++) ed[{v[i], v[(i + 1) % 3]}]++; for (auto& p : f) ctx.check(std::fabs(vertexOff(p)) <= 1e-9 * size, "mesh-vertex", nm, ": vertex off the surface by ", vertexOff(p)); }
	bool closed = true; for (auto& e : ed) if (e.second != 1 || !ed.count({e.first.second, e.first.first})) closed = false; ctx.check(closed, "mesh-closed", nm, ": the faces do not form a closed consistently oriented surface"); ctx.check(std::fabs(V - vol) <= rel * vol, "mesh-volume", nm, ": oriented mesh volume ", V, " body volume ", vol); ctx.check(std::fabs(A - area) <= rel * area, "mesh-area", nm, ": mesh area ", A, " body area ", area); }
MC_SCENARIO(bodies, 2) { // every body: measures, containment, bounding volumes and mesh describe the same solid
	static const double CE[][3] = {{0, 0, 0}, {1, -2, 3}, {10, 0, 0.5}}; int kind = ctx.choose(8), ci = ctx.choose(4); double s = ctx.pick({1.0, 4.0, 0.3}), q = ctx.pick({0.25, 0.5, 2.0}); bool dflt = ci == 3; double ox = dflt ? 0 : CE[ci][0], oy = dflt ? 0 : CE[ci][1], oz = dflt ? 0 : CE[ci][2]; Pnt3Cart C(ox, oy, oz); Vec3Cart VC(ox, oy, oz); int fine = ctx.thorough ? 2 : 1; std::unique_ptr<IBody> B; Mesh M; double vol = 0, area = 0, rel = 1e-12; Pnt3Cart cen = C; std::function<double(double, double, double)> f; /* <0 inside, relative to the reference point */ std::function<double(const Pnt3Cart&)> voff; double lo[3], hi[3]; auto setb = [&](double a, double b, double c, double d, double e, double g) { lo[0] = ox + a; hi[0] = ox + b; lo[1] = oy + c; hi[1] = oy + d; lo[2] = oz + e; hi[2] = oz + g; }; const char* names[] = {"cube", "triangle cube", "sphere", "pyramid", "equilateral pyramid", "torus", "cylinder", "sphere coarse"}; std::string nm = ctx.cat(names[kind], " size ", s, " ratio ", q, " position ", ci);
	auto tri = [&](BodyWithTriangleSurfaces* b) { for (int i = 0; i < b->GetSurfaceCount(); i++) { auto& t = b->GetSurface(i); M.t.push_back({t.Pnt1(), t.Pnt2(), t.Pnt3()}); } ctx.check(mc::throws([&] { b->GetSurface(b->GetSurfaceCount()); }) && mc::throws([&] { b->GetSurface(-1); }), "surface-index", nm); B.reset(b); }; auto rect = [&](BodyWithRectSurfaces* b) { for (int i = 0; i < b->GetSurfaceCount(); i++) M.quad(b->GetSurface(i)); ctx.check(mc::throws([&] { b->GetSurface(b->GetSurfaceCount()); }) && mc::throws([&] { b->GetSurface(-1); }), "surface-index", nm); B.reset(b); };
	if (kind < 2) { if (kind == 0) rect(dflt ? new Cube3D(s) : new Cube3D(s, C)); else tri(dflt ? new CubeWithTriangles3D(s) : new CubeWithTriangles3D(s, C)); vol = s * s * s; area = 6 * s * s; f = [=](double x, double y, double z) { return std::max({std::fabs(x), std::fabs(y), std::fabs(z)}) - s / 2; }; setb(-s / 2, s / 2, -s / 2, s / 2, -s / 2, s / 2); }
	if (kind == 2 || kind == 7) { int la = kind == 7 ? 3 : 48 * fine, lg = kind == 7 ? 5 : 60 * fine; tri(dflt ? new Sphere3D(s, la, lg) : new Sphere3D(s, C, la, lg)); vol = 4. / 3 * PI * s * s * s; area = 4 * PI * s * s; rel = kind == 7 ? 0.6 : 0.01; f = [=](double x, double y, double z) { return std::sqrt(x * x + y * y + z * z) - s; }; setb(-s, s, -s, s, -s, s); }
	if (kind == 3 || kind == 4) { double h = kind == 3 ? s * q : s / std::sqrt(3.0); if (kind == 3) tri(dflt ? new Pyramid3D(s, h) : new Pyramid3D(s, h, VC)); else tri(dflt ? new PyramidEquilateral3D(s) : new PyramidEquilateral3D(s, VC)); vol = s * s * h / 3; area = s * s + 2 * s * std::hypot(h, s / 2); cen = Pnt3Cart(ox, oy, oz + h / 4); f = [=](double x, double y, double z) { return std::max({-z, std::max(std::fabs(x), std::fabs(y)) - s / 2 * (1 - z / h)}); }; setb(-s / 2, s / 2, -s / 2, s / 2, 0, h); }
	if (kind == 5) { double r = s * std::min(q, 0.8); rect(dflt ? new Torus3D(s, r, 60 * fine, 48 * fine) : new Torus3D(s, r, C, 60 * fine, 48 * fine)); vol = 2 * PI * PI * s * r * r; area = 4 * PI * PI * s * r; rel = 0.02; f = [=](double x, double y, double z) { return std::hypot(std::hypot(x, y) - s, z) - r; }; setb(-s - r, s + r, -s - r, s + r, -r, r); }
	if (kind == 6) { double h = s * q; tri(dflt ? new Cylinder3D(s, h, 120 * fine) : new Cylinder3D(s, h, C, 120 * fine)); if (dflt) { oz = -h / 2; } vol = PI * s * s * h; area = 2 * PI * s * (s + h); rel = 0.005; f = [=](double x, double y, double z) { return std::max({-z, z - h, std::hypot(x, y) - s}); }; setb(-s, s, -s, s, 0, h); cen = Pnt3Cart(ox, oy, oz + h / 2); }
	if (kind == 6 || kind == 3 || kind == 4) voff = [=](const Pnt3Cart& p) { return f(p.X() - ox, p.Y() - oy, p.Z() - oz); }; else voff = [=](const Pnt3Cart& p) { return f(p.X() - ox, p.Y() - oy, p.Z() - oz); };
	ctx.step(); ctx.check(mc::near(B->Volume() / vol, 1, 1e-12), "volume", nm, ": ", B->Volume(), " expected ", vol); ctx.check(mc::near(B->SurfaceArea() / area, 1, 1e-12), "surface-area", nm, ": ", B->SurfaceArea(), " expected ", area); double size = std::max({hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2]}); ctx.check(at(B->GetCenter(), cen, 1e-12 * (size + 20)), "centroid", nm); Box3D bb = B->GetBoundingBox(); ctx.check(at(bb.Min(), Pnt3Cart(lo[0], lo[1], lo[2]), 1e-12 * (size + 20)) && at(bb.Max(), Pnt3Cart(hi[0], hi[1], hi[2]), 1e-12 * (size + 20)), "bounding-box", nm); auto sp = B->GetBoundingSphere(); int n = 8 + 4 * fine; long in = 0; std::vector<IBody*> one{B.get()}; ComposedSolidSurfaces3D cs(one); cs.AddSolid(nullptr); for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) for (int k = 0; k <= n; k++) { double m = 0.13, x = lo[0] - m * size + (hi[0] - lo[0] + 2 * m * size) * (i + 0.31) / (n + 1), y = lo[1] - m * size + (hi[1] - lo[1] + 2 * m * size) * (j + 0.57) / (n + 1), z = lo[2] - m * size + (hi[2] - lo[2] + 2 * m * size) * (k + 0.43) / (n + 1); double d = f(x - ox, y - oy, z - oz); if (std::fabs(d) < 1e-9 * size) continue; bool g = B->IsInside(Pnt3Cart(x, y, z)); ctx.check(g == (d < 0), "inside", nm, ": (", x, ",", y, ",", z, ") ", g); if (d < 0) { in++; ctx.check(bb.Contains(Pnt3Cart(x, y, z)) && sp.Center().Dist(Pnt3Cart(x, y, z)) <= sp.Radius() * (1 + 1e-12), "bounding-sphere", nm); } ctx.check(cs.IsInside(Pnt3Cart(x, y, z)) == (d < 0), "composed", nm); }
	for (auto& t : M.t) for (auto& p : t) ctx.check(sp.Center().Dist(p) <= sp.Radius() * (1 + 1e-9), "bounding-sphere", nm, ": mesh vertex outside"); if (kind == 7) { Mesh m2 = M; double v6 = 0; mesh(ctx, M, nm, vol, area, rel, voff, size, C); (void)v6; } else mesh(ctx, M, nm, vol, area, rel, voff, size, cen); ctx.check(in > 0, "inside", nm); ctx.check(cs.GetSolidCount() == 2 && cs.GetSolid(0) == B.get(), "composed", nm); ctx.state(mc::Hash().s(nm)); ctx.outcome(mc::Hash().d(vol).d(area)); ctx.nontrivial(); }
static Real by1(Real x) { return -1 - x; } static Real by2(Real x) { return 2 + x; } static Real bz1(Real x, Real y) { return -x - y * y; } static Real bz2(Real x, Real y) { return 3 + x * y + y / 2; } static Real den(const VectorN<Real, 3>& v) { return v[0] + 10 * v[1] + 100 * v[2]; }
MC_SCENARIO(boundary_solid, 1) { // solids given by boundary functions
	SolidBodyWithBoundary a(0, 2, by1, by2, bz1, bz2, den); SolidBodyWithBoundaryConstDensity b(0, 2, by1, by2, bz1, bz2, 7.5); int i = ctx.choose(12), j = ctx.choose(16), k = ctx.choose(20); double x = -0.45 + 0.25 * i, y = -4.1 + 0.6 * j, z = -25.3 + 2.1 * k; bool in = x > 0 && x < 2 && y > by1(x) && y < by2(x) && z > bz1(x, y) && z < bz2(x, y); ctx.step(); ctx.check(a.IsInside(Pnt3Cart(x, y, z)) == in && b.IsInside(Pnt3Cart(x, y, z)) == in, "boundary-inside", x, " ", y, " ", z); ctx.check(a.getDensity(VectorN<Real, 3>{x, y, z}) == x + 10 * y + 100 * z && b.getDensity(VectorN<Real, 3>{x, y, z}) == 7.5, "density", x, " ", y, " ", z); ctx.check(mc::throws([&] { a.Volume(); }) && mc::throws([&] { a.SurfaceArea(); }), "not-implemented", ""); ctx.state(mc::Hash().u(i).u(j).u(k)); ctx.outcome(mc::Hash().u(in)); ctx.nontrivial(); }
