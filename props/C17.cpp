// Tensors of rank 2-5: index arithmetic, variance bookkeeping, contraction, evaluation, bounds
// mc-flags: -fsanitize=address -fsanitize=undefined -fno-sanitize-recover=undefined
#include "mc.h"
#include <sstream>
#include "mml/base/Tensor.h"
using namespace MML; template <class E, class F> bool thr(F f) { try { f(); } catch (const E&) { return true; } catch (...) {} return false; }
template <int N> struct R { std::vector<double> v; int r; R(int r) : v((size_t)std::pow(N, r) + 0.5), r(r) {} static int lin(const std::vector<int>& i) { int l = 0; for (int x : i) l = l * N + x; return l; } };
template <int N> static std::vector<int> unlin(int l, int r) { std::vector<int> i(r); for (int k = r; k--; l /= N) i[k] = l % N; return i; }
template <int N> double get(const Tensor2<N>& t, const std::vector<int>& i) { return t(i[0], i[1]); }
template <int N> double get(const Tensor3<N>& t, const std::vector<int>& i) { return t(i[0], i[1], i[2]); }
template <int N> double get(const Tensor4<N>& t, const std::vector<int>& i) { return t(i[0], i[1], i[2], i[3]); }
template <int N> double get(const Tensor5<N>& t, const std::vector<int>& i) { return t(i[0], i[1], i[2], i[3], i[4]); }
template <int N> double& set(Tensor2<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1]); }
template <int N> double& set(Tensor3<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1], i[2]); }
template <int N> double& set(Tensor4<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1], i[2], i[3]); }
template <int N> double& set(Tensor5<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1], i[2], i[3], i[4]); }
template <int N> double cat(const Tensor2<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1]); }
template <int N> double cat(const Tensor3<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1], i[2]); }
template <int N> double cat(const Tensor4<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1], i[2], i[3]); }
template <int N> double cat(const Tensor5<N>& t, const std::vector<int>& i) { return t.at(i[0], i[1], i[2], i[3], i[4]); }
typedef std::vector<VectorN<double, 2>> V2;
template <class T, class V> double ev(const T& t, const V& v, std::integral_constant<int, 2>) { return t(v[0], v[1]); }
template <class T, class V> double ev(const T& t, const V& v, std::integral_constant<int, 3>) { return t(v[0], v[1], v[2]); }
template <class T, class V> double ev(const T& t, const V& v, std::integral_constant<int, 4>) { return t(v[0], v[1], v[2], v[3]); }
template <class T, class V> double ev(const T& t, const V& v, std::integral_constant<int, 5>) { return t(v[0], v[1], v[2], v[3], v[4]); }
static double cell(int fam, int l) { switch (fam) { case 0: return 1 + l; case 1: return (l * l * 7 + 3 * l) % 11 - 5; default: return l == fam - 2 ? 1 : 0; } }
template <int N, int RK, class T> void counts(mc::Ctx& ctx, const T& t, const std::vector<bool>& up, const char* k) { int c = 0; for (int i = 0; i < RK; i++) { ctx.check(t.IsContravar(i) == up[i] && t.IsCovar(i) == !up[i], k, "rank ", RK, " index ", i, " variance"); c += up[i]; } ctx.check(t.NumContravar() == c && t.NumCovar() == RK - c, k, "rank ", RK, ": counts ", t.NumCovar(), ",", t.NumContravar(), " for ", c, " contravariant"); }
template <int N, int RK, class T> T make(mc::Ctx& ctx, int fam, std::vector<bool>& up) { // every variance pattern: constructor or setContravar
	int nc = ctx.range(0, RK); T t(nc, RK - nc); up.assign(RK, true); for (int i = 0; i < nc; i++) up[i] = false; counts<N, RK>(ctx, t, up, "constructor");
	int tot = 1; for (int i = 0; i < RK; i++) tot *= N; for (int l = 0; l < tot; l++) ctx.check(get<N>(t, unlin<N>(l, RK)) == 0, "constructor", "not zero"); for (int l = 0; l < tot; l++) set<N>(t, unlin<N>(l, RK)) = cell(fam, l);
	int m = ctx.choose(1 << RK); for (int i = 0; i < RK; i++) if (m >> i & 1) { t.setContravar(i, !up[i]); up[i] = !up[i]; counts<N, RK>(ctx, t, up, "setContravar"); } return t; }
template <int N> double scal(const VectorN<double, N>& v, const std::vector<int>& i) { return v[i[0]]; }
template <int N> double gres(const VectorN<double, N>& v, const std::vector<int>& i) { return v[i[0]]; }
template <int N, class T> double gres(const T& t, const std::vector<int>& i) { return get<N>(t, i); }
template <int N> void vres(mc::Ctx&, const VectorN<double, N>&, const std::vector<bool>&) {}
template <int N> void vres(mc::Ctx& c, const Tensor2<N>& t, const std::vector<bool>& u) { counts<N, 2>(c, t, u, "contract-variance"); }
template <int N> void vres(mc::Ctx& c, const Tensor3<N>& t, const std::vector<bool>& u) { counts<N, 3>(c, t, u, "contract-variance"); }
template <int N, int RK, class T> void all(mc::Ctx& ctx, int fam) {
	std::vector<bool> up; T t = make<N, RK, T>(ctx, fam, up); int tot = 1; for (int i = 0; i < RK; i++) tot *= N;
	const T& ct = t; for (int l = 0; l < tot; l++) { auto i = unlin<N>(l, RK); ctx.check(get<N>(ct, i) == cell(fam, l) && cat<N>(ct, i) == cell(fam, l), "element", "at ", l); }
	for (int k = 0; k < RK; k++) for (int bad : {-1, N, N + 5}) { std::vector<int> i(RK, N - 1); i[k] = bad; ctx.check(thr<TensorIndexError>([&] { cat<N>(ct, i); }) && thr<TensorIndexError>([&] { set<N>(t, i); }), "bounds", "index ", k, " = ", bad, " accepted"); }
	std::vector<VectorN<double, N>> v(RK); for (int k = 0; k < RK; k++) for (int i = 0; i < N; i++) v[k][i] = (k * 3 + i * 2) % 5 - 1 + (k == i); double e = 0; for (int l = 0; l < tot; l++) { double x = cell(fam, l); auto i = unlin<N>(l, RK); for (int k = 0; k < RK; k++) x *= v[k][i[k]]; e += x; } double got = ev(ct, v, std::integral_constant<int, RK>()); ctx.check(got == e, "evaluate", "rank ", RK, " on vectors: ", got, " expected ", e);
	if constexpr (RK > 2) { int a = ctx.choose(RK), b = ctx.choose(RK); if (a == b) { ctx.check(thr<TensorIndexError>([&] { ct.Contract(a, b); }), "bounds", "same index contracted"); for (int bad : {-1, RK, RK + 1}) ctx.check(thr<TensorIndexError>([&] { ct.Contract(a, bad); }) && thr<TensorIndexError>([&] { ct.Contract(bad, a); }), "bounds", "Contract(", a, ",", bad, ")"); }
		else { auto r = ct.Contract(a, b); std::vector<int> rest; std::vector<bool> ru; for (int k = 0; k < RK; k++) if (k != a && k != b) { rest.push_back(k); ru.push_back(up[k]); } int rt = tot / N / N; for (int l = 0; l < rt; l++) { auto j = unlin<N>(l, RK - 2); double s = 0; for (int q = 0; q < N; q++) { std::vector<int> i(RK); i[a] = i[b] = q; for (size_t k = 0; k < rest.size(); k++) i[rest[k]] = j[k]; s += cell(fam, R<N>::lin(i)); } ctx.check(gres<N>(r, j) == s, "contract", "rank ", RK, " Contract(", a, ",", b, ")[", l, "] = ", gres<N>(r, j), " expected ", s); } vres<N>(ctx, r, ru); } ctx.state(mc::Hash().u(RK).u(N).u(fam).u(a).u(b).u([&] { int m = 0; for (bool x : up) m = 2 * m + x; return m; }())); }
	else { int c = up[0] + up[1]; double tr = 0; for (int i = 0; i < N; i++) tr += cell(fam, i * N + i); if (c == 1) ctx.check(ct.Contract() == tr, "contract", "trace ", ct.Contract()); else ctx.check(thr<TensorCovarContravarNumError>([&] { ct.Contract(); }), "contract", "same variance contracted");
		auto M = ct.GetMatrix(); std::vector<bool> u2; T o = make<N, 2, T>(ctx, 1, u2); for (int l = 0; l < tot; l++) { auto i = unlin<N>(l, 2); ctx.check(M(i[0], i[1]) == cell(fam, l), "element", "GetMatrix"); }
		if (u2 == up) { T s = ct + o, d = ct - o; for (int l = 0; l < tot; l++) { auto i = unlin<N>(l, 2); ctx.check(get<N>(s, i) == cell(fam, l) + cell(1, l) && get<N>(d, i) == cell(fam, l) - cell(1, l), "arithmetic", "sum or difference"); } counts<N, 2>(ctx, s, up, "arith-variance"); counts<N, 2>(ctx, d, up, "arith-variance"); T al = t; al = al + al; ctx.check(get<N>(al, {0, N - 1}) == 2 * cell(fam, N - 1), "arithmetic", "alias"); }
		else if (u2[0] + u2[1] != c) ctx.check(thr<TensorCovarContravarArithmeticError>([&] { ct + o; }) && thr<TensorCovarContravarArithmeticError>([&] { ct - o; }), "arithmetic", "tensors of different variance combined");
		T m1 = ct * 2.0, m2 = 2.0 * ct, q = ct / 4.0; for (int l = 0; l < tot; l++) { auto i = unlin<N>(l, 2); ctx.check(get<N>(m1, i) == 2 * cell(fam, l) && get<N>(m2, i) == 2 * cell(fam, l) && get<N>(q, i) == cell(fam, l) / 4, "arithmetic", "scalar"); } counts<N, 2>(ctx, m1, up, "arith-variance"); counts<N, 2>(ctx, m2, up, "arith-variance"); counts<N, 2>(ctx, q, up, "arith-variance");
		ctx.state(mc::Hash().u(N).u(fam).u(up[0]).u(up[1]).u(u2[0]).u(u2[1])); }
	ctx.outcome(mc::Hash().d(e).u(RK)); ctx.nontrivial();
}
MC_SCENARIO(rank2, 3) { int f = ctx.choose(6); if (ctx.flag()) all<2, 2, Tensor2<2>>(ctx, f); else all<3, 2, Tensor2<3>>(ctx, f); }
MC_SCENARIO(rank3, 3) { int f = ctx.choose(5); if (ctx.flag()) all<2, 3, Tensor3<2>>(ctx, f); else all<3, 3, Tensor3<3>>(ctx, f); }
MC_SCENARIO(rank4, 3) { int f = ctx.choose(ctx.thorough ? 8 : 3); if (ctx.flag()) all<2, 4, Tensor4<2>>(ctx, f); else all<3, 4, Tensor4<3>>(ctx, f); }
MC_SCENARIO(rank5, 3) { int f = ctx.choose(ctx.thorough ? 5 : 2); if (ctx.thorough && ctx.flag()) all<3, 5, Tensor5<3>>(ctx, f); else all<2, 5, Tensor5<2>>(ctx, f); }
template <class T> void bad(mc::Ctx& ctx, int rk, int c, int u) { bool ok = c >= 0 && u >= 0 && c + u == rk; bool t = thr<TensorCovarContravarNumError>([&] { T x(c, u); (void)x; }); ctx.check(t == !ok, "bad-counts", "rank ", rk, " (", c, ",", u, ") ", t ? "refused" : "accepted"); }
MC_SCENARIO(constructors, 2) { // every pair of index counts, every initializer length
	int rk = ctx.range(2, 5), c = ctx.range(-3, 7), u = ctx.range(-3, 7); switch (rk) { case 2: bad<Tensor2<3>>(ctx, 2, c, u); ctx.check(thr<TensorCovarContravarNumError>([&] { Tensor2<2> x(c, u, {1.0}); }) == !(c >= 0 && u >= 0 && c + u == 2), "bad-counts", "list"); break; case 3: bad<Tensor3<3>>(ctx, 3, c, u); ctx.check(thr<TensorCovarContravarNumError>([&] { Tensor3<2> x(c, u, {1.0}); }) == !(c >= 0 && u >= 0 && c + u == 3), "bad-counts", "list"); break; case 4: bad<Tensor4<3>>(ctx, 4, c, u); break; default: bad<Tensor5<2>>(ctx, 5, c, u); }
	if (rk == 2 && c + u == 2 && c >= 0 && u >= 0) { Tensor2<2> a(c, u, {}), b(c, u, {1, 2, 3}), d(c, u, {1, 2, 3, 4}); ctx.check(a(0, 0) == 0 && a(1, 1) == 0 && b(0, 1) == 2 && b(1, 0) == 3 && b(1, 1) == 0 && d(1, 1) == 4 && d(1, 0) == 3, "initializer", "rank 2"); ctx.check(thr<TensorCovarContravarNumError>([&] { Tensor2<2> e(c, u, {1, 2, 3, 4, 5}); }), "initializer", "too many accepted"); std::vector<bool> up = {c < 1, c < 2}; counts<2, 2>(ctx, d, up, "constructor"); }
	if (rk == 3 && c + u == 3 && c >= 0 && u >= 0) { Tensor3<2> a(c, u, {}), b(c, u, {1, 2, 3}), d(c, u, {1, 2, 3, 4, 5, 6, 7, 8}); ctx.check(a(0, 0, 0) == 0 && b(0, 1, 0) == 3 && b(0, 1, 1) == 0 && d(1, 0, 0) == 5 && d(1, 1, 1) == 8 && d(0, 1, 1) == 4, "initializer", "rank 3"); ctx.check(thr<TensorCovarContravarNumError>([&] { Tensor3<2> e(c, u, {1, 2, 3, 4, 5, 6, 7, 8, 9}); }), "initializer", "too many accepted"); }
	ctx.state(mc::Hash().u(rk).u(c + 9).u(u + 9)); ctx.outcome(mc::Hash().u(rk).u(c + u == rk)); ctx.nontrivial();
}
