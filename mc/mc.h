// Bounded exhaustive explorer ("mc") used by every check in /verif.
//
// A *scenario* is a function that drives the real MML code and obtains every
// nondeterministic decision (operation, argument, environment answer, schedule)
// from Ctx::choose(n).  The explorer enumerates *all* choice sequences by
// depth-first re-execution: no sampling, no randomness.  A scenario compares the
// implementation with an oracle through Ctx::check(); a failing check is re-executed
// from its recorded choices (it must fail again) before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <limits>
#include <initializer_list>
#include <type_traits>

namespace mc {

struct Failure { std::string key, msg; };     // thrown by fail()
struct Prune {};                              // thrown by prune(): case outside the bounded space

// ---------------------------------------------------------------- hashing
inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
struct Hash {
	uint64_t h = 0x1234567;
	Hash& u(uint64_t v) { h = mix(h, v); return *this; }
	Hash& d(double v) { uint64_t b; if (v == 0) v = 0; std::memcpy(&b, &v, 8); return u(b); }
	Hash& s(const std::string& v) { u(v.size()); for (unsigned char c : v) u(c); return *this; }
	template<class C> Hash& seq(const C& c) { for (const auto& x : c) d((double)x); return u(0xabcdef); }
};

class Ctx {
public:
	// --- nondeterminism
	int choose(int n);                         // returns 0..n-1, all of them explored
	bool flag() { return choose(2) == 1; }
	int range(int lo, int hi) { return lo + choose(hi - lo + 1); }   // inclusive
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + choose((int)l.size())); }
	template<class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
	// --- observations
	void state(uint64_t h);                    // a reached state (deduplicated)
	void state(const Hash& h) { state(h.h); }
	void outcome(uint64_t h);                  // an observed result (deduplicated)
	void outcome(const Hash& h) { outcome(h.h); }
	void step(uint64_t n = 1) { steps += n; }  // real API operations executed against the oracle
	void nontrivial() { nontriv = true; }
	// --- verdicts
	[[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
	template<class... A> void check(bool ok, const char* key, const A&... msg) {
		++checks;
		if (!ok) fail(key, cat(msg...));
	}
	// records the failure and lets the execution continue (keys may carry the failing input)
	template<class... A> bool soft(bool ok, const std::string& key, const A&... msg) {
		++checks;
		if (!ok) softs.push_back(Failure{key, cat(msg...)});
		return ok;
	}
	std::vector<Failure> softs;
	[[noreturn]] void prune() { throw Prune{}; }
	// --- trace of the case, kept only while replaying or sampling
	bool verbose = false;
	template<class... A> void note(const A&... a) { if (verbose) { trace += cat(a...); trace += "; "; } }
	std::string trace;
	bool thorough = false;

	template<class... A> static std::string cat(const A&... a) {
		std::ostringstream o; o.precision(17); int d[] = {0, (put(o, a), 0)...}; (void)d; return o.str();
	}
	// engine side
	std::vector<int> choices, arity;
	size_t pos = 0;
	uint64_t steps = 0, checks = 0;
	bool nontriv = false;
	int shard = 0, nshards = 1, split = 0;
	bool skip_shard = false;
	void* engine = nullptr;
private:
	template<class T> static void put(std::ostringstream& o, const T& x) { o << x; }
	template<class T> static void put(std::ostringstream& o, const std::vector<T>& v) { o << '['; for (size_t i = 0; i < v.size(); i++) { if (i) o << ','; T e = v[i]; put(o, e); } o << ']'; }
};

struct Scenario {
	std::string name;
	std::function<void(Ctx&)> fn;
	int split;          // number of leading choices that define a shard unit
	bool thorough_only;
	int hang_s;         // seconds without finishing one execution => hang candidate
};
std::vector<Scenario>& scenarios();
struct Reg {
	Reg(const char* n, std::function<void(Ctx&)> f, int split = 2, bool thorough_only = false, int hang_s = 30) {
		scenarios().push_back({n, std::move(f), split, thorough_only, hang_s});
	}
};
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
// MC_SCENARIO(name, split[, thorough_only[, hang_s]]) { body using ctx }
#define MC_SCENARIO(NAME, ...) \
	static void MC_CAT(mc_fn_, NAME)(mc::Ctx& ctx); \
	static mc::Reg MC_CAT(mc_reg_, NAME)(#NAME, MC_CAT(mc_fn_, NAME), ##__VA_ARGS__); \
	static void MC_CAT(mc_fn_, NAME)([[maybe_unused]] mc::Ctx& ctx)

// ---------------------------------------------------------------- numeric helpers
inline bool near(double a, double b, double tol) {      // mixed abs/rel
	if (std::isnan(a) || std::isnan(b)) return false;
	if (std::isinf(a) || std::isinf(b)) return a == b;
	if (a == b) return true;
	return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
inline bool near_abs(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }

// runs f; returns true if it threw any std::exception (text in *what)
template<class F> bool throws(F&& f, std::string* what = nullptr) {
	try { f(); } catch (const Failure&) { throw; } catch (const Prune&) { throw; }
	catch (const std::exception& e) { if (what) *what = e.what(); return true; }
	return false;
}

// ---------------------------------------------------------------- exact rationals for oracles
struct Frac {
	__int128 n, d;
	static __int128 g(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { auto t = a % b; a = b; b = t; } return a ? a : 1; }
	Frac(long long v = 0) : n(v), d(1) {}
	Frac(__int128 a, __int128 b) { if (b < 0) { a = -a; b = -b; } auto k = g(a, b); n = a / k; d = b / k; }
	Frac operator+(const Frac& o) const { return Frac(n * o.d + o.n * d, d * o.d); }
	Frac operator-(const Frac& o) const { return Frac(n * o.d - o.n * d, d * o.d); }
	Frac operator*(const Frac& o) const { return Frac(n * o.n, d * o.d); }
	Frac operator/(const Frac& o) const { return Frac(n * o.d, d * o.n); }
	Frac operator-() const { return Frac(-n, d); }
	bool operator==(const Frac& o) const { return n == o.n && d == o.d; }
	bool operator!=(const Frac& o) const { return !(*this == o); }
	bool operator<(const Frac& o) const { return n * o.d < o.n * d; }
	bool zero() const { return n == 0; }
	double val() const { return (double)((long double)n / (long double)d); }
};

} // namespace mc
