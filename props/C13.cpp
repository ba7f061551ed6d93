// Interval algebra: membership of every point of interest in every set operation of every pair of intervals
#include "mc.h"
#include <memory>
#include "mml/base/Intervals.h"
using namespace MML; typedef std::shared_ptr<BaseInterval> P;
struct I { int kind; double a, b; bool in(double x) const { bool lo = kind == 5 || kind == 6 || kind == 4 ? true : (kind == 1 || kind == 2 || kind == 8) ? x >= a : x > a; bool hi = kind == 7 || kind == 8 || kind == 4 ? true : (kind == 1 || kind == 3 || kind == 6) ? x <= b : x < b; return lo && hi; }
	// kinds: 0 open, 1 closed, 2 [a,b), 3 (a,b], 4 R, 5 (-inf,b), 6 (-inf,b], 7 (a,inf), 8 [a,inf)
	P make() const { switch (kind) { case 0: return std::make_shared<OpenInterval>(a, b); case 1: return std::make_shared<ClosedInterval>(a, b); case 2: return std::make_shared<ClosedOpenInterval>(a, b); case 3: return std::make_shared<OpenClosedInterval>(a, b); case 4: return std::make_shared<CompleteRInterval>(); case 5: return std::make_shared<NegInfToOpenInterval>(b); case 6: return std::make_shared<NegInfToClosedInterval>(b); case 7: return std::make_shared<OpenToInfInterval>(a); default: return std::make_shared<ClosedToInfInterval>(a); } }
	bool fin() const { return kind < 4; } std::string s() const { static const char* f[] = {"(%g,%g)", "[%g,%g]", "[%g,%g)", "(%g,%g]", "R", "(-inf,%.0s%g)", "(-inf,%.0s%g]", "(%g,inf)", "[%g,inf)"}; char z[60]; if (kind == 5) snprintf(z, 60, "(-inf,%g)", b); else if (kind == 6) snprintf(z, 60, "(-inf,%g]", b); else if (kind == 7 || kind == 8) snprintf(z, 60, f[kind], a); else if (kind == 4) snprintf(z, 60, "R"); else snprintf(z, 60, f[kind], a, b); return z; } };
static I any(mc::Ctx& ctx, int top) { I i; i.kind = ctx.choose(9); i.a = i.b = 0; if (i.kind < 4) { i.a = ctx.choose(top); i.b = i.a + ctx.choose(top - (int)i.a) + (i.kind != 1); } else if (i.kind < 7) { if (i.kind > 4) i.b = ctx.choose(top + 1); } else i.a = ctx.choose(top + 1); return i; }
static std::vector<double> probes(int top) { std::vector<double> p = {-1e9}; for (int i = -1; i <= top + 1; i++) { p.push_back(i - 1e-6); p.push_back(i); p.push_back(i + 0.5); } p.push_back(1e9); return p; }
static const int TOP = 4;
MC_SCENARIO(pairs, 3) {
	I x = any(ctx, TOP), y = any(ctx, TOP); P px = x.make(), py = y.make(); auto pr = probes(TOP + 1); bool meet = false, sub = true;
	for (double q : pr) { ctx.check(px->contains(q) == x.in(q), "contains", x.s(), " at ", q); meet = meet || (x.in(q) && y.in(q)); sub = sub && (!y.in(q) || x.in(q)); }
	auto In = Interval::Intersection(*px, *py), Un = Interval::Union(*px, *py), Di = Interval::Difference(*px, *py), Co = Interval::Complement(*px);
	for (double q : pr) { ctx.check(In.contains(q) == (x.in(q) && y.in(q)), "intersection", x.s(), " and ", y.s(), " at ", q, ": ", In.contains(q)); ctx.check(Un.contains(q) == (x.in(q) || y.in(q)), "union", x.s(), " or ", y.s(), " at ", q, ": ", Un.contains(q)); ctx.check(Di.contains(q) == (x.in(q) && !y.in(q)), "difference", x.s(), " minus ", y.s(), " at ", q, ": ", Di.contains(q)); ctx.check(Co.contains(q) == !x.in(q), "complement", x.s(), " at ", q, ": ", Co.contains(q)); }
	if (x.fin() && y.fin()) { double inter = std::max(0.0, std::min(x.b, y.b) - std::max(x.a, y.a)), lx = x.b - x.a, ly = y.b - y.a; ctx.check(In.getMeasure() == inter && Un.getMeasure() == lx + ly - inter && Di.getMeasure() == lx - inter, "measure", x.s(), " ", y.s(), ": ", In.getMeasure(), " ", Un.getMeasure(), " ", Di.getMeasure()); ctx.check(Un.getLowerBound() == std::min(x.a, y.a) && Un.getUpperBound() == std::max(x.b, y.b) && Un.getLength() == std::max(x.b, y.b) - std::min(x.a, y.a), "hull", "union of ", x.s(), " ", y.s()); if (meet) ctx.check(In.getLowerBound() == std::max(x.a, y.a) && In.getUpperBound() == std::min(x.b, y.b), "hull", "intersection"); ctx.check(px->getLength() == lx && px->getLowerBound() == x.a && px->getUpperBound() == x.b, "bounds", x.s()); }
	Interval one; one.AddInterval(ClosedInterval(-100, -99)); struct H { static void add(Interval& v, const I& i, const P& p) { switch (i.kind) { case 0: v.AddInterval(*std::static_pointer_cast<OpenInterval>(p)); break; case 1: v.AddInterval(*std::static_pointer_cast<ClosedInterval>(p)); break; case 2: v.AddInterval(*std::static_pointer_cast<ClosedOpenInterval>(p)); break; case 3: v.AddInterval(*std::static_pointer_cast<OpenClosedInterval>(p)); break; case 4: v.AddInterval(*std::static_pointer_cast<CompleteRInterval>(p)); break; case 5: v.AddInterval(*std::static_pointer_cast<NegInfToOpenInterval>(p)); break; case 6: v.AddInterval(*std::static_pointer_cast<NegInfToClosedInterval>(p)); break; case 7: v.AddInterval(*std::static_pointer_cast<OpenToInfInterval>(p)); break; default: v.AddInterval(*std::static_pointer_cast<ClosedToInfInterval>(p)); } } };
	H::add(one, x, px); ctx.check(one.intersects(*py) == (meet || y.in(-99.5) || y.in(-99)), "intersects", x.s(), " and ", y.s(), " -> ", one.intersects(*py)); ctx.check(one.contains(*py) == sub, "contains-interval", x.s(), " contains ", y.s(), " -> ", one.contains(*py));
	for (double q : pr) ctx.check(one.contains(q) == x.in(q), "composite", "");
	ctx.state(mc::Hash().u(x.kind).d(x.a).d(x.b).u(y.kind).d(y.a).d(y.b)); ctx.outcome(mc::Hash().u(meet).u(sub).u(x.kind)); ctx.nontrivial();
}
MC_SCENARIO(composite, 3) { // three pieces: membership is the union, measure of disjoint pieces adds up
	I v[3]; double base = 0, meas = 0; Interval c; for (int k = 0; k < 3; k++) { v[k].kind = ctx.choose(4); v[k].a = base + ctx.choose(2); v[k].b = v[k].a + 1 + ctx.choose(2); base = v[k].b + 1; meas += v[k].b - v[k].a; }
	int ord = ctx.choose(3); for (int k = 0; k < 3; k++) { auto& q = v[(k + ord) % 3]; switch (q.kind) { case 0: c.AddInterval(OpenInterval(q.a, q.b)); break; case 1: c.AddInterval(ClosedInterval(q.a, q.b)); break; case 2: c.AddInterval(ClosedOpenInterval(q.a, q.b)); break; default: c.AddInterval(OpenClosedInterval(q.a, q.b)); } }
	for (double q : probes(14)) { bool e = false; for (auto& i : v) e = e || i.in(q); ctx.check(c.contains(q) == e, "composite", "at ", q); }
	ctx.check(c.getMeasure() == meas && c.getLowerBound() == v[0].a && c.getUpperBound() == v[2].b && c.getLength() == v[2].b - v[0].a, "measure", "");
	std::vector<double> pts; int n = ctx.range(3, 12); c.GetEquidistantCovering(n, pts); ctx.check(pts.size() >= 3, "covering", "no points"); for (double p : pts) ctx.check(c.contains(p), "covering", "point ", p, " outside"); for (auto& i : v) { bool hit = false; for (double p : pts) hit = hit || i.in(p); ctx.check(hit, "covering", "piece without a point"); }
	ctx.state(mc::Hash().u(ord).d(v[0].b).d(v[1].b).d(v[2].b).u(v[0].kind).u(v[1].kind).u(v[2].kind).u(n)); ctx.outcome(mc::Hash().d(meas)); ctx.nontrivial();
}
MC_SCENARIO(coverings_and_holes, 2) {
	double a = ctx.pick({-3.0, 0.0, 1e6}), w = ctx.pick({1.0, 7.5, 1e-3}); int n = ctx.range(-1, 9), kind = ctx.choose(4); I i; i.kind = kind; i.a = a; i.b = a + w; auto p = i.make(); std::vector<double> v = {1, 2, 3}; p->GetEquidistantCovering(n, v);
	ctx.check((int)v.size() == std::max(0, n), "covering", "asked for ", n, " points, got ", v.size()); bool cl = kind == 1 || kind == 2, cu = kind == 1 || kind == 3; for (size_t k = 0; k < v.size(); k++) { ctx.check(i.in(v[k]), "covering", i.s(), " point ", v[k]); if (n > 1) ctx.check(std::fabs(v[k] - (a + w * k / (n - 1))) <= 0.0011 * w / (n - 1) + 1e-9 * std::fabs(a) * 1e-3, "covering", i.s(), " point ", k, " = ", v[k]); } if (n == 1) ctx.check(mc::near(v[0], a + w / 2, 1e-12), "covering", "midpoint"); if (n > 1) { if (cl) ctx.check(v[0] == a, "covering", "closed end missing"); if (cu) ctx.check(std::fabs(v[n - 1] - a - w) <= 1e-9 * w + 1e-15 * std::fabs(a), "covering", "closed end missing"); }
	double h0 = ctx.pick({0.5, -1.25}), hd = ctx.pick({1.0, 0.75, 2.0}); CompleteRWithReccuringPointHoles R(h0, hd); ClosedIntervalWithReccuringPointHoles C(-2, 3, h0, hd); for (int k = -40; k <= 40; k++) { double x = k / 8.0; double m = (x - h0) / hd; bool hole = m == std::floor(m); ctx.check(R.contains(x) == !hole, "holes", "R at ", x); ctx.check(C.contains(x) == (!hole && x >= -2 && x <= 3), "holes", "closed at ", x); } ctx.check(!R.isContinuous() && !C.isContinuous() && p->isContinuous(), "holes", "continuity flag");
	ctx.state(mc::Hash().d(a).d(w).u(n + 1).u(kind).d(h0).d(hd)); ctx.outcome(mc::Hash().u(n + 1).u(kind)); ctx.nontrivial();
}
MC_SCENARIO(three_way, 3, true) { // composed operations: (x minus y) and (x meets y) partition x; De Morgan through complements
	I x = any(ctx, 3), y = any(ctx, 3), z = any(ctx, 3); P px = x.make(), py = y.make(), pz = z.make(); auto d = Interval::Difference(*px, *py), m = Interval::Intersection(*px, *py); for (double q : probes(4)) { ctx.check((d.contains(q) || m.contains(q)) == x.in(q) && !(d.contains(q) && m.contains(q)), "partition", x.s(), " ", y.s(), " at ", q); }
	ctx.check(d.intersects(*pz) == [&] { for (double q : probes(4)) if (x.in(q) && !y.in(q) && z.in(q)) return true; return false; }(), "intersects", x.s(), " minus ", y.s(), " with ", z.s()); ctx.state(mc::Hash().u(x.kind).d(x.a).d(x.b).u(y.kind).d(y.a).d(y.b).u(z.kind).d(z.a).d(z.b)); ctx.outcome(mc::Hash().u(x.kind).u(y.kind).u(z.kind)); ctx.nontrivial();
}
