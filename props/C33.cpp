// Fourier transforms (DFT, FFT, real FFT, DCT-II, DST-I) and window functions against their definitions
// mc-flags: -O2
#include "mc.h"
#include <complex>
#include <map>
#include <stdexcept>
#include "mml/algorithms/Fourier.h"
#include "mml/algorithms/FourierRealFFT.h"
#include "mml/algorithms/FourierWindowing.h"
using namespace MML; using namespace MML::Fourier;
typedef std::complex<double> Z; typedef long double LD; typedef std::complex<LD> LZ; static const LD PIL = acosl(-1.0L);
static LZ unit(long long num, long long den) { static std::map<long long, std::vector<LZ>> T; auto& t = T[den]; if (t.empty()) for (long long i = 0; i < den; i++) { LD a = 2 * PIL * i / den; t.push_back(LZ(cosl(a), sinl(a))); } num %= den; return t[num < 0 ? num + den : num]; } // exp(2 pi i num/den)
static Vector<Complex> cv(const std::vector<Z>& a) { Vector<Complex> v((int)a.size()); for (size_t i = 0; i < a.size(); i++) v[i] = a[i]; return v; }
static Vector<Real> rv(const std::vector<double>& a) { Vector<Real> v((int)a.size()); for (size_t i = 0; i < a.size(); i++) v[i] = a[i]; return v; }
static std::vector<LZ> dft(const std::vector<Z>& a, int sgn) { int N = a.size(); std::vector<LZ> r(N); for (int k = 0; k < N; k++) for (int n = 0; n < N; n++) if (a[n] != Z(0)) r[k] += LZ(a[n]) * unit((long long)sgn * k * n, N); return r; }
static double nrm(const std::vector<Z>& a) { double s = 0; for (Z z : a) s += std::abs(z); return s; }
template <class V> static std::string str(const V& a) { std::string s; char z[64]; for (size_t i = 0; i < (size_t)a.size() && i < 16; i++) { Z q = a[(int)i]; snprintf(z, 64, "%g%+gi ", q.real(), q.imag()); s += z; } return s; }
template <class V> static void cmp(mc::Ctx& ctx, const char* key, const char* what, const V& got, const std::vector<LZ>& ref, double tol, const std::vector<Z>& in) { ctx.check(got.size() == (int)ref.size(), key, what, " of ", in.size(), " samples has ", got.size()); for (int i = 0; i < got.size(); i++) { LZ d = LZ(Z(got[i])) - ref[i]; ctx.check(std::abs(d) <= tol, key, what, " N=", in.size(), " of ", str(in), ": [", i, "] = ", Z(got[i]).real(), "+", Z(got[i]).imag(), "i, defined ", (double)ref[i].real(), "+", (double)ref[i].imag(), "i"); } }
static bool pow2(int n) { return n > 0 && (n & (n - 1)) == 0; }
static mc::Hash hz(const std::vector<Z>& a) { mc::Hash h; h.u(a.size()); for (Z z : a) h.d(z.real()).d(z.imag()); return h; }
static void complexAll(mc::Ctx& ctx, const std::vector<Z>& a, bool slow) {
	int N = a.size(); auto v = cv(a); auto F = dft(a, -1), I = dft(a, 1); for (auto& z : I) z /= N; double tol = 1e-14 * (nrm(a) + 1) * (4 + std::log2(N) * 2), dt = tol * (slow ? 4 + N / 8.0 : 1); 
	if (slow) { cmp(ctx, "dft", "DFT::Forward", DFT::Forward(v), F, dt, a); cmp(ctx, "dft-inverse", "DFT::Inverse", DFT::Inverse(v), I, dt, a); for (int k = 0; k < N; k++) ctx.check(std::abs(LZ(DFT::ComputeBin(v, k)) - F[k]) <= dt, "dft-bin", "ComputeBin ", k, " of ", str(a)); auto ri = DFT::InverseReal(v); for (int i = 0; i < N; i++) ctx.check(std::fabs(ri[i] - (double)I[i].real()) <= dt, "dft-inverse", "InverseReal ", i); auto d = DFT::ForwardDetailed(v); ctx.check(d.status == AlgorithmStatus::Success && d.input_size == N && d.value == DFT::Forward(v), "detailed", "DFT::ForwardDetailed"); auto e = DFT::InverseDetailed(v); ctx.check(e.status == AlgorithmStatus::Success && e.value == DFT::Inverse(v), "detailed", "DFT::InverseDetailed"); auto f = DFT::InverseRealDetailed(v); ctx.check(f.status == AlgorithmStatus::Success && f.value == ri, "detailed", "DFT::InverseRealDetailed"); }
	if (pow2(N)) { auto w = FFT::Forward(v); cmp(ctx, "fft", "FFT::Forward", w, F, tol, a); cmp(ctx, "fft-inverse", "FFT::Inverse", FFT::Inverse(v), I, tol, a); auto b = FFT::Inverse(w); for (int i = 0; i < N; i++) ctx.check(std::abs(b[i] - a[i]) <= tol, "roundtrip", "FFT N=", N, " of ", str(a)); auto t = v; FFT::Transform(t, -1); for (auto& z : I) z *= N; cmp(ctx, "fft-inverse", "FFT::Transform(-1)", t, I, tol, a); auto d = FFT::ForwardDetailed(v); ctx.check(d.status == AlgorithmStatus::Success && d.value == w && d.input_size == N, "detailed", "FFT::ForwardDetailed"); auto z = FFT::ZeroPad(v); ctx.check(z == v, "pad", "already a power of two"); }
	else { for (int q = 0; q < 2; q++) { ctx.check(mc::throws([&] { q ? FFT::Inverse(v) : FFT::Forward(v); }), "refuse", "FFT of ", N, " samples"); FourierConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto d = q ? FFT::InverseDetailed(v, c) : FFT::ForwardDetailed(v, c); ctx.check(d.status == AlgorithmStatus::InvalidInput && !d.error_message.empty(), "refuse", "FFT detailed of ", N); } auto z = FFT::ZeroPad(v); ctx.check(pow2(z.size()) && z.size() >= N && z.size() < 2 * N, "pad", N, " padded to ", z.size()); for (int i = 0; i < z.size(); i++) ctx.check(z[i] == (i < N ? a[i] : Z(0)), "pad", "sample ", i); }
	ctx.state(hz(a)); ctx.outcome(mc::Hash().d((double)F[N / 2].real()).d((double)F[N / 3].imag())); ctx.nontrivial();
}
static void realAll(mc::Ctx& ctx, const std::vector<double>& a, bool slow) {
	int N = a.size(); std::vector<Z> ac(a.begin(), a.end()); auto v = rv(a); double s = nrm(ac) + 1, tol = 1e-14 * s * (4 + 2 * std::log2(N)), dt = tol * (slow ? 4 + N / 8.0 : 1); auto F = dft(ac, -1);
	if (slow) { cmp(ctx, "dft", "DFT::Forward(real)", DFT::Forward(v), F, dt, ac); ctx.check(DFT::ForwardDetailed(v).value == DFT::Forward(v), "detailed", "DFT::ForwardDetailed(real)"); }
	if (pow2(N) && N >= 2) { auto h = RealFFT::Forward(v); std::vector<LZ> half(F.begin(), F.begin() + N / 2 + 1); cmp(ctx, "realfft", "RealFFT::Forward", h, half, tol, ac); auto b = RealFFT::Inverse(h); ctx.check(b.size() == N, "realfft", "inverse size"); for (int i = 0; i < N; i++) ctx.check(std::fabs(b[i] - a[i]) <= tol, "realfft-inverse", "N=", N, " of ", str(ac), " sample ", i, " = ", b[i]);
		auto p = v; RealFFT::Transform(p, 1); ctx.check(std::fabs(p[0] - (double)F[0].real()) <= tol && std::fabs(p[1] - (double)F[N / 2].real()) <= tol, "realfft-packed", "DC/Nyquist of ", str(ac)); for (int k = 1; k < N / 2; k++) ctx.check(std::abs(LZ(p[2 * k], p[2 * k + 1]) - F[k]) <= tol, "realfft-packed", "bin ", k, " of ", str(ac)); RealFFT::Transform(p, -1); for (int i = 0; i < N; i++) ctx.check(std::fabs(p[i] - a[i]) <= tol, "realfft-packed", "roundtrip sample ", i, " of ", str(ac)); }
	else { ctx.check(mc::throws([&] { RealFFT::Forward(v); }) && mc::throws([&] { auto p = v; RealFFT::Transform(p, 1); }), "refuse", "RealFFT of ", N); }
	// DCT-II: c[k] = (2/N) sum x cos(pi k (n+1/2)/N)
	std::vector<LD> C(N), S(N); for (int k = 0; k < N; k++) for (int n = 0; n < N; n++) if (a[n] != 0) { C[k] += a[n] * unit((long long)k * (2 * n + 1), 4 * N).real() * 2 / N; S[k] += a[n] * unit((long long)(k + 1) * (n + 1), 2 * N + 2).imag() * sqrtl(2.0L / (N + 1)); }
	auto c = DCT::ForwardII(v), cr = DCT::ForwardII_Reference(v); ctx.check(c.size() == N && cr.size() == N, "dct", "size"); for (int k = 0; k < N; k++) ctx.check(std::fabs(c[k] - (double)C[k]) <= dt && std::fabs(cr[k] - (double)C[k]) <= dt, "dct", "N=", N, " of ", str(ac), " [", k, "] = ", c[k], " / ", cr[k], " defined ", (double)C[k]);
	std::vector<LD> X(N); for (int n = 0; n < N; n++) for (int k = 0; k < N; k++) if (a[k] != 0) X[n] += (k ? 1.0L : 0.5L) * a[k] * unit((long long)k * (2 * n + 1), 4 * N).real(); auto x = DCT::InverseII(v), xr = DCT::InverseII_Reference(v); for (int n = 0; n < N; n++) ctx.check(std::fabs(x[n] - (double)X[n]) <= dt && std::fabs(xr[n] - (double)X[n]) <= dt, "dct-inverse", "N=", N, " of ", str(ac), " [", n, "] = ", x[n], " / ", xr[n], " defined ", (double)X[n]);
	if (pow2(N)) { auto cf = DCT::ForwardII_Fast(v), xf = DCT::InverseII_Fast(v); for (int k = 0; k < N; k++) ctx.check(std::fabs(cf[k] - (double)C[k]) <= tol && std::fabs(xf[k] - (double)X[k]) <= tol, "dct-fast", "N=", N, " [", k, "] = ", cf[k], " / ", xf[k]); } else ctx.check(mc::throws([&] { DCT::ForwardII_Fast(v); }) && mc::throws([&] { DCT::InverseII_Fast(v); }), "refuse", "fast DCT of ", N);
	auto back = DCT::InverseII(c); auto st = DCT::ForwardDST(v), sb = DCT::InverseDST(st); for (int n = 0; n < N; n++) { ctx.check(std::fabs(back[n] - a[n]) <= dt * 2, "roundtrip", "DCT N=", N, " of ", str(ac)); ctx.check(std::fabs(st[n] - (double)S[n]) <= dt, "dst", "N=", N, " of ", str(ac), " [", n, "] = ", st[n], " defined ", (double)S[n]); ctx.check(std::fabs(sb[n] - a[n]) <= dt * 2, "roundtrip", "DST N=", N, " of ", str(ac)); }
	ctx.check(DCT::VerifyRoundTrip(v, 2 * dt) && DCT::VerifyFastMatchesReference(v, 2 * dt), "verify", "self checks"); ctx.check(DCT::ForwardIIDetailed(v).value == c && DCT::InverseIIDetailed(v).value == x && DCT::ForwardDSTDetailed(v).value == st && DCT::InverseDSTDetailed(st).value == sb, "detailed", "DCT/DST");
	mc::Hash h; h.u(N); for (double q : a) h.d(q); ctx.state(h); ctx.outcome(mc::Hash().d((double)C[N / 2]).d((double)S[N / 3])); ctx.nontrivial();
}
MC_SCENARIO(complex_small, 3) { int N = ctx.range(1, ctx.thorough ? 6 : 5); std::vector<Z> a(N); for (auto& z : a) z = ctx.pick(std::vector<Z>{{0, 0}, {1, 0}, {0, -1}, {-2, 1}}); complexAll(ctx, a, true); }
MC_SCENARIO(real_small, 3) { int N = ctx.range(1, ctx.thorough ? 9 : 8); std::vector<double> a(N); for (auto& z : a) z = N > 6 && !ctx.thorough ? ctx.choose(2) : ctx.range(-1, 1); realAll(ctx, a, true); }
MC_SCENARIO(impulses, 3) { // every unit vector determines a linear transform completely
	int N = ctx.thorough ? ctx.range(2, 130) : ctx.pick({2, 3, 7, 8, 12, 16, 31, 32, 33, 48, 64, 100, 128}); int j = ctx.choose(N); int re = ctx.choose(2); if (re) { std::vector<double> a(N); a[j] = 1; realAll(ctx, a, N <= 33 || ctx.thorough); } else { std::vector<Z> a(N); a[j] = Z(0, 1); complexAll(ctx, a, N <= 33 || ctx.thorough); } }
MC_SCENARIO(large, 2) { // every power of two; impulse at structured positions plus superposition
	int lg = ctx.range(1, ctx.thorough ? 13 : 11), N = 1 << lg; int p = ctx.choose(5); std::vector<Z> a(N); int q = p == 0 ? 1 : p == 1 ? N - 1 : p == 2 ? N / 2 : p == 3 ? N / 3 : (N / 5) * 2; a[q] = Z(1, 0); a[(q * 7 + 3) % N] += Z(0, -2); complexAll(ctx, a, false); if (lg <= 10) { std::vector<double> b(N); b[q] = 1; b[(q * 7 + 3) % N] += -2; auto v = rv(b); std::vector<Z> bc(b.begin(), b.end()); auto F = dft(bc, -1); F.resize(N / 2 + 1); cmp(ctx, "realfft", "RealFFT::Forward", RealFFT::Forward(v), F, 1e-12, bc); auto bk = RealFFT::Inverse(RealFFT::Forward(v)); for (int i = 0; i < N; i++) ctx.check(std::fabs(bk[i] - b[i]) < 1e-12, "realfft-inverse", "N=", N); auto c = DCT::ForwardII(v); auto xb = DCT::InverseII(c); for (int k = 0; k < N; k++) { LD C = 0; for (int n : {q, (q * 7 + 3) % N}) if (b[n] != 0) C += b[n] * unit((long long)k * (2 * n + 1), 4 * N).real() * 2 / N; if ((q * 7 + 3) % N == q) C /= 2; ctx.check(std::fabs(c[k] - (double)C) < 1e-13, "dct", "N=", N, " [", k, "]"); ctx.check(std::fabs(xb[k] - b[k]) < 1e-11, "roundtrip", "DCT N=", N); } } }
MC_SCENARIO(sizes, 2, false, 20) { int what = ctx.choose(4); auto bad = [&](const char* w, auto f) { ctx.check(mc::throws(f), "refuse", w); };
	if (what == 0) { Vector<Complex> e(0); Vector<Real> r(0); bad("DFT::Forward", [&] { DFT::Forward(e); }); bad("DFT::Forward real", [&] { DFT::Forward(r); }); bad("DFT::Inverse", [&] { DFT::Inverse(e); }); bad("FFT::Forward", [&] { FFT::Forward(e); }); bad("FFT::Inverse", [&] { FFT::Inverse(e); }); bad("RealFFT::Forward", [&] { RealFFT::Forward(r); }); bad("RealFFT::Inverse", [&] { RealFFT::Inverse(e); }); bad("RealFFT::Inverse 1", [&] { RealFFT::Inverse(Vector<Complex>(1)); }); bad("RealFFT::Inverse 4", [&] { RealFFT::Inverse(Vector<Complex>(4)); }); bad("RealFFT::Forward 1", [&] { RealFFT::Forward(Vector<Real>(1)); }); bad("DCT", [&] { DCT::ForwardII(r); }); bad("IDCT", [&] { DCT::InverseII(r); }); bad("DST", [&] { DCT::ForwardDST(r); }); bad("DCT ref", [&] { DCT::ForwardII_Reference(r); }); bad("IDCT ref", [&] { DCT::InverseII_Reference(r); }); Vector<Complex> q(4); for (int k : {-1, 4, 100}) bad("bin", [&] { DFT::ComputeBin(q, k); });
		FourierConfig c; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; ctx.check(DFT::ForwardDetailed(e, c).status == AlgorithmStatus::InvalidInput && DCT::ForwardIIDetailed(r, c).status == AlgorithmStatus::InvalidInput && !DCT::ForwardDSTDetailed(r, c).error_message.empty() && DCT::InverseIIDetailed(r, c).status == AlgorithmStatus::InvalidInput && DFT::InverseRealDetailed(e, c).status == AlgorithmStatus::InvalidInput, "refuse", "captured as status"); ctx.state(mc::Hash().u(99)); ctx.nontrivial(); return; }
	if (what == 1) { for (int n = -3; n <= 5000; n++) { int p = FFT::NextPowerOfTwo(n); ctx.check(pow2(p) && p >= n && (p == 1 || p / 2 < n), "pow2", n, " -> ", p); ctx.check(FFT::IsPowerOfTwo(n) == pow2(n), "pow2", n); int l = FFT::Log2(n); if (n > 0) ctx.check((1 << l) <= n && n < (2 << l), "pow2", "Log2 ", n, " = ", l); } ctx.state(mc::Hash().u(98)); ctx.nontrivial(); return; }
	int b = ctx.range(12, 30), n = (1 << b) + ctx.range(-1, 1); if (what == 2) { int p = 0; bool t = mc::throws([&] { p = FFT::NextPowerOfTwo(n); }); if (n <= (1 << 30)) ctx.check(!t && pow2(p) && p >= n && p / 2 < n, "pow2", n, " -> ", p); else ctx.check(t, "pow2", n, " has no next power of two in an int but gave ", p); } else { ctx.check(FFT::IsPowerOfTwo(n) == pow2(n) && !FFT::IsPowerOfTwo(-n), "pow2", n); ctx.check(FFT::Log2(n) == (n >= (1 << b) ? b : b - 1), "pow2", "Log2 ", n); } ctx.state(mc::Hash().u(what).u(n)); ctx.outcome(mc::Hash().u(n)); ctx.nontrivial(); }
MC_SCENARIO(windows, 2) {
	int n = ctx.range(-1, ctx.thorough ? 300 : 65); int w = ctx.choose(8); double par = w == 6 ? ctx.pick({0.0, 0.5, 5.0, 8.6, 20.0, 60.0, 200.0}) : w == 7 ? ctx.pick({0.4, 0.5, 1.0, 0.1}) : 0; auto mk = [&]() -> Vector<Real> { using namespace Windows; switch (w) { case 0: return Rectangular(n); case 1: return Hann(n); case 2: return Hamming(n); case 3: return Blackman(n); case 4: return Bartlett(n); case 5: return Welch(n); case 6: return Kaiser(n, par); default: return Gaussian(n, par); } }; static const char* nm[] = {"Rectangular", "Hann", "Hamming", "Blackman", "Bartlett", "Welch", "Kaiser", "Gaussian"};
	if (n <= 0) { ctx.check(mc::throws([&] { mk(); }), "window-refuse", nm[w], " of size ", n); ctx.state(mc::Hash().u(w).u(n + 5)); ctx.nontrivial(); return; } if (w >= 6) ctx.check(mc::throws([&] { w == 6 ? Windows::Kaiser(n, -0.5) : Windows::Gaussian(n, 0.0); }), "window-refuse", nm[w], " parameter");
	auto I0 = [](LD x) { LD s = 1, t = 1; for (int k = 1; k < 2000; k++) { t *= x / 2 / k; t *= x / 2 / k; s += t; if (t < 1e-22L * s) break; } return s; }; auto v = mk(); ctx.check(v.size() == n, "window", nm[w], " size ", v.size());
	for (int i = 0; i < n; i++) { LD x = n == 1 ? 0 : 2.0L * i / (n - 1) - 1, c = n == 1 ? -1 : unit(i, n - 1).real(), c2 = n == 1 ? 1 : unit(2 * i, n - 1).real(), e; switch (w) { case 0: e = 1; break; case 1: e = 0.5L * (1 - c); break; case 2: e = 0.54L - 0.46L * c; break; case 3: e = 0.42L - 0.5L * c + 0.08L * c2; break; case 4: e = 1 - fabsl(x); break; case 5: e = 1 - x * x; break; case 6: e = I0(par * sqrtl(1 - x * x)) / I0(par); break; default: e = expl(-0.5L * (x / par) * (x / par)); } ctx.check(std::fabs(v[i] - (double)e) <= 1e-10, "window", nm[w], "(", n, ", ", par, ")[", i, "] = ", v[i], " defined ", (double)e); ctx.check(std::fabs(v[i] - v[n - 1 - i]) <= 1e-12, "window-symmetry", nm[w], "(", n, ")"); }
	ctx.state(mc::Hash().u(w).u(n + 5).d(par)); ctx.outcome(mc::Hash().d(v[n / 3])); ctx.nontrivial(); }
