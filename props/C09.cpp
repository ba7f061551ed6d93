// Timer / ScopedTimer: all histories under a virtual clock (steady_clock::now is replaced at link time)
#include "mc.h"
#include <chrono>
#include <functional>
#include <sstream>
#include <stdexcept>
static long long g_ns = 0;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(duration(g_ns)); }
#include "tools/Timer.h"
using namespace MML;
static double sec(long long ns) { return std::chrono::duration<double>(std::chrono::nanoseconds(ns)).count(); }
struct CoutCap { std::ostringstream os; std::streambuf* old; CoutCap() : old(std::cout.rdbuf(os.rdbuf())) {} ~CoutCap() { std::cout.rdbuf(old); } };
static bool same(double a, double b) { return std::abs(a - b) <= 1e-12 * std::max(1.0, std::abs(b)); }
MC_SCENARIO(timer_histories, 4) {
	g_ns = ctx.pick(std::vector<long long>{1, 5000000000LL});
	Timer t; t.Start(); long long start = g_ns; std::vector<long long> marks; std::vector<std::string> names;
	int depth = ctx.thorough ? 8 : 6;
	static const long long D[] = {0, 1, 1500000000LL};
	for (int k = 0; k < depth; k++) {
		switch (ctx.choose(5)) {
			case 0: g_ns += D[1]; break;
			case 1: g_ns += D[2]; break;
			case 2: t.MarkTime(); marks.push_back(g_ns); names.push_back("Unnamed Mark"); break;
			case 3: { std::string n = "m" + std::to_string(k); t.MarkTime(n); marks.push_back(g_ns); names.push_back(n); break; }
			case 4: if (k % 2) t.Reset(); else t.Start(); start = g_ns; marks.clear(); names.clear(); break;
		}
		ctx.step();
		ctx.check(t.GetMarkCount() == marks.size(), "mark-count", t.GetMarkCount(), " marks, expected ", marks.size());
		if (marks.empty()) {
			ctx.check(mc::throws([&] { t.GetTotalTime(); }) && mc::throws([&] { t.GetIntervalTime(); }) && mc::throws([&] { t.GetMarkTimeFromStart(); }), "no-marks", "a time was returned without marks");
		} else {
			double sum = 0;
			for (size_t i = 0; i < marks.size(); i++) {
				double iv = t.GetIntervalTime(i), fs = t.GetMarkTimeFromStart(i); sum += iv;
				ctx.check(same(iv, sec(marks[i] - (i ? marks[i - 1] : start))), "interval", "interval ", i, " = ", iv);
				ctx.check(same(fs, sec(marks[i] - start)) && same(fs, sum), "from-start", "mark ", i, " from start = ", fs);
			}
			ctx.check(same(t.GetTotalTime(), sec(marks.back() - start)), "total", "total ", t.GetTotalTime());
			ctx.check(mc::throws([&] { t.GetIntervalTime(marks.size()); }) && mc::throws([&] { t.GetMarkTimeFromStart(marks.size()); }), "mark-range", "index past the last mark accepted");
		}
	}
	CoutCap c; t.Print(); std::string o = c.os.str();
	size_t lines = std::count(o.begin(), o.end(), '\n'); ctx.check(lines == (marks.empty() ? 1 : marks.size() + 2), "print", "printed:\n", o);
	size_t p = 0; for (auto& n : names) { p = o.find(n, p); ctx.check(p != std::string::npos, "print", "mark ", n, " missing or out of order:\n", o); p++; }
	mc::Hash h; for (auto m : marks) h.u(m - start); ctx.state(h); ctx.outcome(mc::Hash().u(marks.size())); ctx.nontrivial();
}
MC_SCENARIO(scoped_timers, 3) {
	g_ns = 1000; long long d1 = ctx.pick(std::vector<long long>{0, 7, 2000000000LL}), d2 = ctx.pick(std::vector<long long>{0, 300000000LL});
	int kind = ctx.choose(5), silent = ctx.choose(2), unwinding = ctx.choose(2);   // result, callback, throwing callback, plain, empty callback
	double res = -1; int calls = 0; std::string cbname; double cbt = -1; std::string out;
	try {
		CoutCap c; try {
			struct Run { std::ostringstream& o; std::string& out; ~Run() { out = o.str(); } } keep{c.os, out};
			auto cb = [&](const std::string& n, double t) { calls++; cbname = n; cbt = t; if (kind == 2) throw std::runtime_error("cb"); };
			auto body = [&](ScopedTimer& s) { g_ns += d1; ctx.check(same(s.elapsed(), sec(d1)), "elapsed", s.elapsed()); ctx.check(s.name() == "job" && res == -1 && calls == 0, "too-early", "reported before the end of the scope"); g_ns += d2; ctx.check(same(s.elapsed(), sec(d1 + d2)), "elapsed", s.elapsed()); if (unwinding) throw 5; };
			if (kind == 0) { ScopedTimer s("job", res, silent); body(s); }
			else if (kind == 1 || kind == 2) { ScopedTimer s("job", cb, silent); body(s); }
			else if (kind == 4) { ScopedTimer s("job", ScopedTimer::Callback(), silent); body(s); }
			else { ScopedTimer s("job"); body(s); }
		} catch (int k) { ctx.check(unwinding && k == 5, "unwinding", "foreign exception"); }
	} catch (const std::runtime_error&) { ctx.fail("callback-exception-escapes", "exception of the callback left the destructor"); }
	if (kind == 0) ctx.check(same(res, sec(d1 + d2)), "scoped-result", res); else ctx.check(res == -1, "scoped-result", res);
	ctx.check(calls == (kind == 1 || kind == 2), "callback-once", calls, " calls");
	if (calls) ctx.check(cbname == "job" && same(cbt, sec(d1 + d2)), "callback-args", cbname, " ", cbt);
	bool quiet = kind != 3 && silent; ctx.check(quiet ? out.empty() : out.find("job") != std::string::npos && std::count(out.begin(), out.end(), '\n') == 1, "silent", "printed '", out, "'");
	ctx.state(mc::Hash().u(kind).u(silent).u(d1).u(d2).u(unwinding)); ctx.outcome(mc::Hash().u(kind).u(silent)); ctx.nontrivial();
}
