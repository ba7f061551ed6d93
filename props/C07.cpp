// Serializer: a reported success means the complete, correct document is on disk; every failure is reported.
#include "scratch.h"
#include "mc.h"
#include <iostream>
#include <numeric>
#include <mml/base/Function.h>
#include <mml/tools/Serializer.h>
using namespace MML; namespace S = MML::Serializer; using std::string; using std::vector;
struct Tok { bool num; double v; string s; Tok(double x) : num(true), v(x) {} Tok(int x) : num(true), v(x) {} Tok(const char* x) : num(false), v(0), s(x) {} Tok(const string& x) : num(false), v(0), s(x) {} };
struct Doc { vector<vector<Tok>> l; double tol = 2e-6; Doc& add(vector<Tok> t) { l.push_back(t); return *this; } };
static string squeeze(const string& s) { std::istringstream i(s); string w, r; while (i >> w) r += (r.empty() ? "" : " ") + w; return r; }
static void compare(mc::Ctx& ctx, const string& text, const Doc& d) {
	vector<string> lines; std::istringstream is(text); string x; while (std::getline(is, x)) lines.push_back(x);
	ctx.check(!text.empty() && text.back() == '\n', "final-newline", "document does not end in a newline");
	ctx.check(lines.size() == d.l.size(), "line-count", lines.size(), " lines, expected ", d.l.size(), ": ", text.substr(0, 300));
	for (size_t i = 0; i < lines.size(); i++) {
		bool lit = true; for (auto& t : d.l[i]) if (t.num) lit = false;
		if (lit) { string e; for (auto& t : d.l[i]) e += (e.empty() ? "" : " ") + t.s; ctx.check(squeeze(lines[i]) == squeeze(e), "text-line", "line ", i, " '", lines[i], "' expected '", e, "'"); continue; }
		std::istringstream ls(lines[i]); for (auto& t : d.l[i]) { string w; ctx.check(bool(ls >> w), "missing-token", "line ", i, " '", lines[i], "' is short"); if (!t.num) ctx.check(w == t.s, "token", "line ", i, " '", w, "' expected '", t.s, "'"); else { char* e; double v = strtod(w.c_str(), &e); ctx.check(!*e && (v == t.v || std::fabs(v - t.v) <= d.tol * std::max(std::fabs(t.v), 1e-12) + 1e-15), "value", "line ", i, " '", lines[i], "': ", w, " expected ", t.v); } }
		string w; ctx.check(!(ls >> w), "extra-token", "line ", i, " '", lines[i], "'");
	}
}
using Save = std::function<SerializeResult(string)>;
static void ok_doc(mc::Ctx& ctx, const Save& save, const Doc& d, bool faults = true) {
	ctx.step(); mc::TempFile tf; auto r = save(tf.path); ctx.check(r.success && r.error == SerializeError::OK, "not-saved", "save failed: ", r.message); string text = tf.read(); ctx.state(mc::Hash().s(text)); compare(ctx, text, d); ctx.outcome(mc::Hash().u(d.l.size()).s(d.l[0][0].s));
	r = save(""); ctx.check(!r.success && r.error == SerializeError::INVALID_PARAMETERS, "empty-name", "empty file name accepted");
	r = save(mc::scratch_dir() + "/no/such/x"); ctx.check(!r.success && r.error == SerializeError::FILE_NOT_OPENED, "no-dir", "unwritable path: success=", r.success);
	{ mc::TempFile t2; t2.write(string(5000, 'x')); save(t2.path); ctx.check(t2.read() == text, "overwrite", "an existing longer file was not replaced"); }
	if (faults) for (size_t k = 0; k < text.size(); k++) { mc::TempFile t2; { mc::WriteLimit wl(k); r = save(t2.path); } ctx.step(); ctx.check(!r.success && r.error == SerializeError::WRITE_FAILED, "write-fault", "room for only ", k, " of ", text.size(), " bytes but success=", r.success); }
}
static void invalid(mc::Ctx& ctx, const Save& save, const char* what) { ctx.step(); mc::TempFile tf; auto r = save(tf.path); ctx.check(!r.success && r.error == SerializeError::INVALID_PARAMETERS, "invalid-accepted", what, ": success=", r.success, " ", r.message); }
static const vector<string> TITLES = {"T", "a longer title"};
struct Rng { double a, b; int n; bool bad; };
static Rng rng(mc::Ctx& ctx) { static const Rng g[] = {{0, 1, 2, false}, {-2.5, 3.75, 3, false}, {1e-3, 2e3, 4, false}, {0, 1, 1, true}, {1, 1, 3, true}, {2, 1, 3, true}, {0, 1, 0, true}, {0, 1, -2, true}}; return g[ctx.choose(8)]; }
static double X(const Rng& r, int i) { return r.a + (r.b - r.a) * i / (r.n - 1); }
static Real fq(Real x) { return x * x / 3 - 1; } static Real fc(Real x) { return 12345.678 - x; }
MC_SCENARIO(real_functions, 2) {
	Rng r = rng(ctx); string t = ctx.pick(TITLES); int kind = ctx.choose(4); RealFunction f(fq), g(fc); int prec = ctx.pick({6, 15});
	Save sv; Doc d; d.tol = prec == 15 ? 2e-14 : 1e-5; Vector<Real> pts(std::max(r.n, 0)); if (!r.bad) for (int i = 0; i < r.n; i++) pts[i] = X(r, i) + 0.01 * i * (i < r.n - 1);
	auto H = [&](const char* ty) { d.add({ty}).add({t}).add({"x1:", r.a}).add({"x2:", r.b}).add({"NumPoints:", r.n}); };
	if (kind == 0) { sv = [&](string p) { return S::SaveRealFunc(f, t, r.a, r.b, r.n, p, prec); }; if (!r.bad) { H("REAL_FUNCTION"); for (int i = 0; i < r.n; i++) d.add({X(r, i), fq(X(r, i))}); } }
	if (kind == 1) { sv = [&](string p) { return S::SaveRealFuncEquallySpaced(f, t, r.a, r.b, r.n, p, prec); }; if (!r.bad) { H("REAL_FUNCTION_EQUALLY_SPACED"); for (int i = 0; i < r.n; i++) d.add({fq(X(r, i))}); } }
	if (kind == 2) { if (r.bad && r.n > 1) ctx.prune(); sv = [&](string p) { return S::SaveRealFunc(f, t, pts, p, prec); }; if (!r.bad) { H("REAL_FUNCTION"); for (int i = 0; i < r.n; i++) d.add({pts[i], fq(pts[i])}); } }
	if (kind == 3) { vector<IRealFunction*> fs{&f, &g}; sv = [=, &f, &g](string p) { return S::SaveRealMultiFunc(fs, t, {"first one", "second"}, r.a, r.b, r.n, p, prec); }; if (!r.bad) { d.add({"MULTI_REAL_FUNCTION"}).add({t}).add({2}).add({"first one"}).add({"second"}).add({"x1:", r.a}).add({"x2:", r.b}).add({"NumPoints:", r.n}); for (int i = 0; i < r.n; i++) d.add({X(r, i), fq(X(r, i)), fc(X(r, i))}); }
		invalid(ctx, [&](string p) { return S::SaveRealMultiFunc(fs, t, {"one"}, 0, 1, 3, p, prec); }, "legend size"); invalid(ctx, [&](string p) { return S::SaveRealMultiFunc(vector<IRealFunction*>{}, t, {}, 0, 1, 3, p, prec); }, "no functions"); }
	if (r.bad) invalid(ctx, sv, "range/points"); else ok_doc(ctx, sv, d);
}
MC_SCENARIO(interpolated_multi, 2) {
	Rng r = rng(ctx); if (!r.bad && (r.a < -2.5 || r.b > 4)) ctx.prune(); string t = ctx.pick(TITLES); int kind = ctx.choose(3), nf = ctx.range(0, 2), nl = ctx.range(0, 2);
	Vector<Real> x{-3, -1, 0, 2, 5}; vector<Vector<Real>> ys{Vector<Real>{1, -1, 2, 0.5, 7}, Vector<Real>{0, 1, 4, 9, 16}}; vector<string> leg(nl, "leg end"); Save sv; Doc d; vector<vector<double>> vals(nf);
	vector<LinearInterpRealFunc> fl; vector<PolynomInterpRealFunc> fp; vector<SplineInterpRealFunc> fs; for (int i = 0; i < nf; i++) { fl.emplace_back(x, ys[i]); fp.emplace_back(x, ys[i], 3); fs.emplace_back(x, ys[i]); }
	bool bad = r.bad || nf == 0 || nl != nf; if (!bad) for (int i = 0; i < r.n; i++) for (int k = 0; k < nf; k++) vals[k].push_back(kind == 0 ? fl[k](X(r, i)) : kind == 1 ? fp[k](X(r, i)) : fs[k](X(r, i)));
	sv = [&](string p) { return kind == 0 ? S::SaveRealMultiFunc(fl, t, leg, r.a, r.b, r.n, p) : kind == 1 ? S::SaveRealMultiFunc(fp, t, leg, r.a, r.b, r.n, p) : S::SaveRealMultiFunc(fs, t, leg, r.a, r.b, r.n, p); };
	if (bad) { invalid(ctx, sv, "range/points/legend"); return; } d.tol = 1e-5;
	d.add({"MULTI_REAL_FUNCTION"}).add({t}).add({nf}); for (int k = 0; k < nf; k++) d.add({"leg end"}); d.add({"x1:", r.a}).add({"x2:", r.b}).add({"NumPoints:", r.n}); for (int i = 0; i < r.n; i++) { vector<Tok> row{X(r, i)}; for (int k = 0; k < nf; k++) row.push_back(vals[k][i]); d.add(row); } ok_doc(ctx, sv, d);
}
static VectorN<Real, 2> c2(Real t) { return VectorN<Real, 2>{t * t, 1 - t}; } static VectorN<Real, 3> c3(Real t) { return VectorN<Real, 3>{t * t, 1 - t, 1e5 / 7 * t}; }
MC_SCENARIO(curves, 2) {
	Rng r = rng(ctx); string t = ctx.pick(TITLES); int kind = ctx.choose(8); ParametricCurve<2> f2(c2); ParametricCurve<3> f3(c3); Save sv; Doc d; d.tol = 1e-5; int n = std::max(r.n, 0); if ((kind == 2 || kind == 4) && r.bad && r.n > 1) ctx.prune(); if (kind >= 5 && r.n < 0) ctx.prune();
	Vector<Real> pts(n), vx(n), vy(n); vector<VectorN<Real, 2>> vals; if (n >= 2) for (int i = 0; i < n; i++) { pts[i] = r.bad ? i : X(r, i) + 0.01 * i * (i < n - 1); } for (int i = 0; i < n; i++) { vx[i] = i * 1.5 - 1; vy[i] = 100.0 / (i + 3); vals.push_back(VectorN<Real, 2>{vx[i], vy[i]}); }
	auto H = [&](const char* ty) { d.add({ty}).add({t}).add({"t1:", r.a}).add({"t2:", r.b}).add({"NumPoints:", r.n}); };
	auto R3 = [&](double u) { auto v = c3(u); d.add({u, v[0], v[1], v[2]}); }; auto R2 = [&](double u) { auto v = c2(u); d.add({u, v[0], v[1]}); };
	switch (kind) {
	case 0: sv = [&](string p) { return S::SaveParamCurveCartesian2DResult(f2, t, r.a, r.b, r.n, p); }; if (!r.bad) { H("PARAMETRIC_CURVE_CARTESIAN_2D"); for (int i = 0; i < n; i++) R2(X(r, i)); } break;
	case 1: sv = [&](string p) { return S::SaveParamCurveCartesian3DResult(f3, t, r.a, r.b, r.n, p); }; if (!r.bad) { H("PARAMETRIC_CURVE_CARTESIAN_3D"); for (int i = 0; i < n; i++) R3(X(r, i)); } break;
	case 2: sv = [&](string p) { return S::SaveParamCurve<3>(f3, "SOME_TYPE", t, pts, p); }; if (!r.bad) { H("SOME_TYPE"); for (int i = 0; i < n; i++) R3(pts[i]); } break;
	case 3: sv = [&](string p) { return S::SaveAsParamCurve<2>(vals, "TY", t, r.a, r.b, r.n, p); }; if (!r.bad) { H("TY"); for (int i = 0; i < n; i++) d.add({X(r, i), vals[i][0], vals[i][1]}); invalid(ctx, [&](string p) { return S::SaveAsParamCurve<2>(vals, "TY", t, r.a, r.b, n + 1, p); }, "too few values"); } break;
	case 4: sv = [&](string p) { return S::SaveAsParamCurve<2>(vals, "TY", t, pts, p); }; if (!r.bad) { H("TY"); for (int i = 0; i < n; i++) d.add({pts[i], vals[i][0], vals[i][1]}); vals.push_back(vals[0]); Vector<Real> more(n + 2); for (int i = 0; i < n + 2; i++) more[i] = i; invalid(ctx, [&](string p) { return S::SaveAsParamCurve<2>(vals, "TY", t, more, p); }, "too few values"); } break;
	case 5: sv = [&](string p) { return S::SaveAsParamCurve2D(vx, vy, t, p, r.a, r.b); }; if (!r.bad) { H("PARAMETRIC_CURVE_CARTESIAN_2D"); for (int i = 0; i < n; i++) d.add({X(r, i), vx[i], vy[i]}); Vector<Real> shorter(n - 1 > 0 ? n - 1 : 1); invalid(ctx, [&](string p) { return S::SaveAsParamCurve2D(vx, shorter, t, p); }, "sizes differ"); } break;
	case 6: sv = [&](string p) { return S::SaveParamCurve<2>(f2, "ANY 2D", t, r.a, r.b, r.n, p); }; if (!r.bad) { H("ANY 2D"); for (int i = 0; i < n; i++) R2(X(r, i)); } break;
	default: ctx.prune(); }
	if (r.bad) invalid(ctx, sv, "range/points"); else ok_doc(ctx, sv, d);
}
struct Surf : IParametricSurface<3> { VectorN<Real, 3> operator()(Real u, Real w) const override { return VectorN<Real, 3>{u + w, u * w, w - 2 * u}; } VectorN<Real, 3> operator()(const VectorN<Real, 2>& c) const override { return (*this)(c[0], c[1]); } Real getMinU() const override { return 0; } Real getMaxU() const override { return 1; } Real getMinW(Real) const override { return 0; } Real getMaxW(Real) const override { return 1; } };
static VectorN<Real, 3> sfnm(const VectorN<Real, 2>& c) { return Surf()(c[0], c[1]); } static Real sf2(const VectorN<Real, 2>& x) { return x[0] * 10 - x[1]; } static Real sf3(const VectorN<Real, 3>& x) { return x[0] * 10 - x[1] + x[2] * x[2]; }
static VectorN<Real, 2> vf2(const VectorN<Real, 2>& x) { return VectorN<Real, 2>{-x[1], x[0]}; } static VectorN<Real, 3> vf3(const VectorN<Real, 3>& x) { return VectorN<Real, 3>{-x[1], x[0], x[2] + 1}; }
MC_SCENARIO(surfaces_and_fields, 3) {
	static const Rng g[] = {{0, 1, 2, false}, {-2.5, 3.75, 3, false}, {0, 1, 1, true}, {1, 1, 3, true}, {2, 1, 2, true}}; Rng a = g[ctx.choose(5)], b = g[ctx.choose(5)]; int kind = ctx.choose(10); Rng c = kind == 2 || (kind >= 5 && kind < 9) ? g[ctx.choose(5)] : g[0]; bool bad = a.bad || b.bad || c.bad; string t = TITLES[1]; double thr = kind == 4 || kind == 6 || kind == 8 ? ctx.pick({-1.0, 0.0, 1.0, 2.5, 1e6}) : 1;
	if (a.bad + b.bad + c.bad > 1 && !ctx.thorough) ctx.prune(); if (thr <= 0) bad = true;
	Surf s; VectorFunctionNM<2, 3> fnm(sfnm); ScalarFunction<2> f2(sf2); ScalarFunction<3> f3(sf3); VectorFunction<2> v2(vf2); VectorFunction<3> v3(vf3); Save sv; Doc d; d.tol = 1e-5; auto I = [&](auto fn) { if (!bad) for (int i = 0; i < a.n; i++) for (int j = 0; j < b.n; j++) fn(X(a, i), X(b, j)); }; auto J = [&](auto fn) { I([&](double x, double y) { for (int k = 0; k < c.n; k++) fn(x, y, X(c, k)); }); };
	auto H = [&](string p, string n, const Rng& q) { d.add({p + "1:", q.a}).add({p + "2:", q.b}).add({"NumPoints" + n + ":", q.n}); };
	switch (kind) {
	case 0: sv = [&](string p) { return S::SaveParametricSurface(s, t, a.a, a.b, a.n, b.a, b.b, b.n, p); }; d.add({"PARAMETRIC_SURFACE_CARTESIAN"}).add({t}); H("u", "U", a); H("w", "W", b); I([&](double u, double w) { auto v = s(u, w); d.add({u, w, v[0], v[1], v[2]}); }); break;
	case 1: sv = [&](string p) { return S::SaveScalarFunc2DCartesian(f2, t, a.a, a.b, a.n, b.a, b.b, b.n, p); }; d.add({"SCALAR_FUNCTION_CARTESIAN_2D"}).add({t}); H("x", "X", a); H("y", "Y", b); I([&](double x, double y) { d.add({x, y, sf2({x, y})}); }); break;
	case 2: sv = [&](string p) { return S::SaveScalarFunc3DCartesian(f3, t, a.a, a.b, a.n, b.a, b.b, b.n, c.a, c.b, c.n, p); }; d.add({"SCALAR_FUNCTION_CARTESIAN_3D"}).add({t}); H("x", "X", a); H("y", "Y", b); H("z", "Z", c); J([&](double x, double y, double z) { d.add({x, y, z, sf3({x, y, z})}); }); break;
	case 3: sv = [&](string p) { return S::SaveVectorFunc2DCartesian(v2, t, a.a, a.b, a.n, b.a, b.b, b.n, p); }; d.add({"VECTOR_FIELD_2D_CARTESIAN"}).add({t}); I([&](double x, double y) { d.add({x, y, -y, x}); }); break;
	case 4: sv = [&](string p) { return S::SaveVectorFunc2DCartesian(v2, t, a.a, a.b, a.n, b.a, b.b, b.n, p, thr); }; d.add({"VECTOR_FIELD_2D_CARTESIAN"}).add({t}); I([&](double x, double y) { if (std::hypot(x, y) < thr) d.add({x, y, -y, x}); }); break;
	case 5: case 7: sv = [&](string p) { return kind == 5 ? S::SaveVectorFunc3DCartesian(v3, t, a.a, a.b, a.n, b.a, b.b, b.n, c.a, c.b, c.n, p) : S::SaveVectorFuncSpherical(v3, t, a.a, a.b, a.n, b.a, b.b, b.n, c.a, c.b, c.n, p); }; d.add({kind == 5 ? "VECTOR_FIELD_3D_CARTESIAN" : "VECTOR_FIELD_SPHERICAL"}).add({t}); J([&](double x, double y, double z) { d.add({x, y, z, -y, x, z + 1}); }); break;
	case 6: case 8: sv = [&](string p) { return kind == 6 ? S::SaveVectorFunc3DCartesian(v3, t, a.a, a.b, a.n, b.a, b.b, b.n, c.a, c.b, c.n, p, thr) : S::SaveVectorFuncSpherical(v3, t, a.a, a.b, a.n, b.a, b.b, b.n, c.a, c.b, c.n, p, thr); }; d.add({kind == 6 ? "VECTOR_FIELD_3D_CARTESIAN" : "VECTOR_FIELD_SPHERICAL"}).add({t}); J([&](double x, double y, double z) { if (std::sqrt(x * x + y * y + (z + 1) * (z + 1)) < thr) d.add({x, y, z, -y, x, z + 1}); }); break;
	default: sv = [&](string p) { return S::SaveParametricSurface((const IVectorFunctionNM<2, 3>&)fnm, t, a.a, a.b, a.n, b.a, b.b, b.n, p); }; d.add({"PARAMETRIC_SURFACE_CARTESIAN"}).add({t}); H("u", "U", a); H("w", "W", b); I([&](double u, double w) { auto v = s(u, w); d.add({u, w, v[0], v[1], v[2]}); }); }
	if (bad) invalid(ctx, sv, "range/points/threshold"); else ok_doc(ctx, sv, d, kind < 3 || a.n * b.n * c.n <= 8);
}
MC_SCENARIO(ode_solutions, 2) {
	int dim = ctx.range(1, 3), n = ctx.range(1, 3), kind = ctx.choose(4), i1 = ctx.range(-1, 3), i2 = kind >= 2 ? ctx.range(-1, 3) : 0, i3 = kind == 3 ? ctx.range(0, 3) : 0; string t = ctx.pick(TITLES); ODESystemSolution sol(0, 2.5, dim, n); for (int i = 0; i <= n; i++) { Vector<Real> y(dim); for (int k = 0; k < dim; k++) y[k] = (k + 1) * 1.25 - i; sol.fillValues(i, 2.5 * i / n, y); } sol.setFinalSize(n);
	auto in = [&](int i) { return i >= 0 && i < dim; }; Save sv; Doc d; d.tol = 1e-5; bool bad; auto Y = [&](int i, int k) { return (k + 1) * 1.25 - i; };
	auto Hd = [&](const char* ty, const char* v) { d.add({ty}).add({t}).add({string(v) + "1:", 0.0}).add({string(v) + "2:", 2.5}).add({"NumPoints:", n + 1}); };
	if (kind == 0) { bad = !in(i1); sv = [&](string p) { return S::SaveODESolutionComponentAsFunc(sol, i1, t, p); }; if (!bad) { Hd("REAL_FUNCTION", "x"); for (int i = 0; i <= n; i++) d.add({2.5 * i / n, Y(i, i1)}); } }
	else if (kind == 1) { int nl = i1 + 1; bad = nl != dim; sv = [&](string p) { return S::SaveODESolutionAsMultiFunc(sol, t, vector<string>(nl, "le g"), p); }; if (!bad) { d.add({"MULTI_REAL_FUNCTION"}).add({t}).add({dim}); for (int k = 0; k < dim; k++) d.add({"le g"}); d.add({"x1:", 0.0}).add({"x2:", 2.5}).add({"NumPoints:", n + 1}); for (int i = 0; i <= n; i++) { vector<Tok> r{2.5 * i / n}; for (int k = 0; k < dim; k++) r.push_back(Y(i, k)); d.add(r); } } }
	else if (kind == 2) { bad = !in(i1) || !in(i2); sv = [&](string p) { return S::SaveODESolAsParametricCurve2D(sol, p, i1, i2, t); }; if (!bad) { Hd("PARAMETRIC_CURVE_CARTESIAN_2D", "t"); for (int i = 0; i <= n; i++) d.add({2.5 * i / n, Y(i, i1), Y(i, i2)}); } }
	else { bad = !in(i1) || !in(i2) || !in(i3); sv = [&](string p) { return S::SaveODESolAsParametricCurve3D(sol, p, i1, i2, i3, t); }; if (!bad) { Hd("PARAMETRIC_CURVE_CARTESIAN_3D", "t"); for (int i = 0; i <= n; i++) d.add({2.5 * i / n, Y(i, i1), Y(i, i2), Y(i, i3)}); } }
	if (bad) invalid(ctx, sv, "component index / legend"); else ok_doc(ctx, sv, d, n < 3);
}
template<int N, class L, class SaveF> static void fl(mc::Ctx& ctx, const char* ty, SaveF save, std::function<L(vector<VectorN<Real, N>>)> mk) {
	int nl = ctx.range(0, 3); vector<L> lines; Doc d; d.tol = 1e-15; d.add({ty}).add({"Title: my title"}).add({"NUM_LINES:", nl}); double v = 1.0 / 3;
	for (int i = 0; i < nl; i++) { int np = ctx.range(0, 2); vector<VectorN<Real, N>> pts; d.add({"LINE", i}).add({np}); for (int k = 0; k < np; k++) { VectorN<Real, N> p; vector<Tok> row; for (int j = 0; j < N; j++) { v = -v * 3.7; p[j] = v; row.push_back(v); } pts.push_back(p); d.add(row); } lines.push_back(mk(pts)); }
	Save sv = [&](string p) { return save(lines, "my title", p); }; if (nl == 0) invalid(ctx, sv, "no lines"); else ok_doc(ctx, sv, d);
}
MC_SCENARIO(field_lines, 2) {
	using P2 = vector<VectorN<Real, 2>>; using P3 = vector<VectorN<Real, 3>>; switch (ctx.choose(4)) {
	case 0: fl<2, P2>(ctx, "FIELD_LINES_2D", [](auto& l, string t, string p) { return S::SaveFieldLines2D(l, t, p); }, [](P2 x) { return x; }); break;
	case 1: fl<3, P3>(ctx, "FIELD_LINES_3D", [](auto& l, string t, string p) { return S::SaveFieldLines3D(l, t, p); }, [](P3 x) { return x; }); break;
	case 2: fl<2, FieldLine2D>(ctx, "FIELD_LINES_2D", [](auto& l, string t, string p) { return S::SaveFieldLines2D(l, t, p); }, [](P2 x) { FieldLine2D f; f.points = x; return f; }); break;
	default: fl<3, FieldLine3D>(ctx, "FIELD_LINES_3D", [](auto& l, string t, string p) { return S::SaveFieldLines3D(l, t, p); }, [](P3 x) { FieldLine3D f; f.points = x; return f; }); }
}
MC_SCENARIO(particles, 3) {
	int nb = ctx.range(0, 2), steps = ctx.range(1, 4), every = ctx.range(0, 3), three = ctx.choose(2), twist = ctx.choose(8); double w = 10, h = 20.5, dp = 5, dt = 0.25; vector<vector<Pnt2Cart>> p2(nb); vector<vector<Pnt3Cart>> p3(nb); vector<string> col(nb, "red"); vector<Real> rad(nb, 1.5);
	for (int b = 0; b < nb; b++) for (int i = 0; i < steps; i++) { p2[b].push_back(Pnt2Cart(b + i * 0.5, -i)); p3[b].push_back(Pnt3Cart(b + i * 0.5, -i, 3 + b)); }
	int decl = nb; bool bad = nb == 0 || every == 0; switch (twist) { case 1: w = 0; bad = true; break; case 2: h = -1; bad = true; break; case 3: dt = 0; bad = true; break; case 4: col.push_back("x"); bad = true; break; case 5: rad.push_back(1); bad = true; break; case 6: decl = nb + 1; bad = true; break; case 7: if (nb < 2) ctx.prune(); p2[1].pop_back(); p3[1].pop_back(); bad = true; break; }
	Save sv = [&](string p) { return three ? S::SaveParticleSimulation3D(p, decl, w, h, dp, p3, col, rad, dt, every) : S::SaveParticleSimulation2D(p, decl, w, h, p2, col, rad, dt, every); };
	if (bad) { invalid(ctx, sv, "particle parameters"); return; } Doc d; d.add({three ? "PARTICLE_SIMULATION_DATA_3D" : "PARTICLE_SIMULATION_DATA_2D"}).add({"Width:", w}).add({"Height:", h}); if (three) d.add({"Depth:", dp}); d.add({"NumBalls:", nb}); for (int b = 0; b < nb; b++) d.add({"Ball_" + std::to_string(b + 1), "red", 1.5});
	vector<int> fr; for (int i = 0; i < steps; i += every) fr.push_back(i); d.add({"NumSteps:", (int)fr.size()}); for (size_t k = 0; k < fr.size(); k++) { d.add({"Step", (int)k, fr[k] * dt}); for (int b = 0; b < nb; b++) { vector<Tok> r{b, b + fr[k] * 0.5, -fr[k]}; if (three) r.push_back(3 + b); d.add(r); } } ok_doc(ctx, sv, d);
}
