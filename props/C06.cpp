// Matrix and vector file formats: exact round trips; truncated, corrupted or unwritable files are reported.
#include "scratch.h"
#include "mc.h"
#include <iostream>
#include <mml/tools/serializer/MatrixIO.h>
#include <mml/base/Vector/Vector.h>
#include <mml/tools/serializer/VectorIO.h>
#include <complex>
using namespace MML;
template<class T> static std::vector<T> alphabet();
template<> std::vector<double> alphabet<double>() { return {1, -2.5, 1.0 / 3, 123456.789, -1e-300, 1.7976931348623157e308, 0, 3.0000000000000004, 5e-324}; }
template<> std::vector<float> alphabet<float>() { return {1, -2.5f, 1.0f / 3, 123456.79f, -1e-30f, 3.4028235e38f, 0, 16777216}; }
template<> std::vector<int> alphabet<int>() { return {1, -2, 0, 2147483647, -2147483647 - 1, 1000000}; }
struct Mute { std::streambuf* o; Mute() { o = std::cerr.rdbuf(nullptr); } ~Mute() { std::cerr.rdbuf(o); } };
template<class T> static bool same(const Matrix<T>& a, const Matrix<T>& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (!(a(i, j) == b(i, j))) return false; return true; }
template<class T> static bool save(int f, const Matrix<T>& m, const std::string& p) { return f == 0 ? Serializer::SaveMatrixToFile(m, p) : f == 1 ? Serializer::SaveMatrixToCSV(m, p) : Serializer::SaveMatrixToBinary(m, p); }
template<class T> static bool load(int f, Matrix<T>& m, const std::string& p) { return f == 0 ? Serializer::LoadMatrixFromFile(p, m) : f == 1 ? Serializer::LoadMatrixFromCSV(p, m) : Serializer::LoadMatrixFromBinary(p, m); }
static const char* FN[] = {"text", "csv", "binary"};
template<class T> static Matrix<T> mat(mc::Ctx& ctx, int r, int c, int free) { auto al = alphabet<T>(); Matrix<T> m(r, c); int k = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++, k++) m(i, j) = k < free ? ctx.pick(al) : al[(k * 5 + 1) % al.size()]; return m; }
template<class T> static void roundtrip(mc::Ctx& ctx) {
	Mute mu; int f = ctx.choose(3), r = ctx.range(1, ctx.thorough ? 4 : 3), c = ctx.range(1, ctx.thorough ? 4 : 3); auto m = mat<T>(ctx, r, c, ctx.thorough ? 3 : 2); mc::TempFile tf; ctx.step(); ctx.note(FN[f], " ", r, "x", c, " first ", m(0, 0));
	ctx.check(save(f, m, tf.path), "save", FN[f], " save failed"); int pre = ctx.choose(3); Matrix<T> back = pre == 0 ? Matrix<T>() : pre == 1 ? Matrix<T>(1, 1) : Matrix<T>(5, 4);
	ctx.check(load(f, back, tf.path), "load", FN[f], " load of a saved file failed"); ctx.check(same(m, back), "round-trip", FN[f], " ", r, "x", c, " came back as ", back.rows(), "x", back.cols(), ", first element ", back(0, 0), " of ", m(0, 0), ", last ", back(back.rows() - 1, back.cols() - 1), " of ", m(r - 1, c - 1));
	if (f == 2) ctx.check(tf.read().size() == Serializer::EstimateMatrixBinaryFileSize<T>(r, c), "size-estimate", "estimate");
	mc::Hash h; h.u(f).u(r).u(c).d(m(0, 0)).d(m(r - 1, c - 1)); ctx.state(h);
}
MC_SCENARIO(matrix_round_trip_double, 3) { roundtrip<double>(ctx); }
MC_SCENARIO(matrix_round_trip_float, 3) { roundtrip<float>(ctx); }
MC_SCENARIO(matrix_round_trip_int, 3) { roundtrip<int>(ctx); }
template<class T> static void faults(mc::Ctx& ctx) {
	Mute mu; int f = ctx.choose(3), r = ctx.range(1, 3), c = ctx.range(1, 3); auto m = mat<T>(ctx, r, c, ctx.thorough ? 2 : 1); mc::TempFile tf; save(f, m, tf.path); std::string good = tf.read();
	int mode = ctx.choose(2); ctx.note(FN[f], mode ? " write fault" : " truncation");
	for (size_t k = 0; k <= good.size(); k++) {
		ctx.step(); ctx.state(mc::Hash().s(good.substr(0, k)).u(f).u(mode));
		if (mode == 1) { // the disk is full after k bytes
			mc::TempFile t2; bool ok; { mc::WriteLimit wl(k); ok = save(f, m, t2.path); }
			Matrix<T> back; ctx.check(ok == (k >= good.size()), "write-fault", FN[f], " save of ", good.size(), " bytes with room for ", k, " returned ", ok);
			if (ok) ctx.check(load(f, back, t2.path) && same(m, back), "write-fault-content", FN[f]);
			continue;
		}
		mc::TempFile t2; t2.write(good.substr(0, k)); Matrix<T> back; bool ok = load(f, back, t2.path);
		if (f == 2) ctx.check(ok == (k == good.size()), "truncated-binary", "binary file cut to ", k, " of ", good.size(), " bytes: load returned ", ok);
		else if (f == 0) { // the number of complete or partial values present decides
			std::istringstream is(good.substr(0, k)); std::string w; int n = 0; while (is >> w) n++; std::istringstream d(good.substr(0, k)); int rr = 0, cc = 0; d >> rr >> cc;
			if (n < 2 + r * c && rr == r && cc == c) ctx.check(!ok, "truncated-text", "text file cut to ", k, " bytes holds ", n - 2, " of ", r * c, " values but load succeeded");
			if (n < 2) ctx.check(!ok, "truncated-text", "no dimensions but load succeeded");
		} else { std::string part = good.substr(0, k); size_t last = part.rfind('\n'); std::string tail = last == std::string::npos ? part : part.substr(last + 1); int commas = std::count(tail.begin(), tail.end(), ','); int full = std::count(part.begin(), part.end(), '\n');
			if (full == 0 && tail.empty()) ctx.check(!ok, "truncated-csv", "empty csv loaded");
			else if (!tail.empty() && full > 0 && commas < c - 1) ctx.check(!ok, "truncated-csv", "csv cut to ", k, " bytes has a short last row but load succeeded");
			else if (ok) ctx.check(back.rows() == full + !tail.empty(), "truncated-csv-rows", back.rows()); }
	}
}
MC_SCENARIO(matrix_faults_double, 3) { faults<double>(ctx); }
MC_SCENARIO(matrix_faults_int, 3) { faults<int>(ctx); }
MC_SCENARIO(binary_header_corruption, 2) { // any single header byte changed: rejected, or (reserved word / fewer rows or columns) still consistent with the declared size
	Mute mu; int r = ctx.range(1, 2), c = ctx.range(1, 2); auto m = mat<double>(ctx, r, c, 0); mc::TempFile tf; Serializer::SaveMatrixToBinary(m, tf.path); std::string s = tf.read(); int pos = ctx.choose(24); unsigned char v = (unsigned char)ctx.pick({0, 1, 2, 3, 4, 8, 16, 127, 128, 255});
	if ((unsigned char)s[pos] == v) ctx.prune(); s[pos] = (char)v; tf.write(s); ctx.step(); ctx.state(mc::Hash().s(s)); Matrix<double> back; bool ok = false; bool threw = mc::throws([&] { ok = Serializer::LoadMatrixFromBinary(tf.path, back); });
	uint32_t w[6]; memcpy(w, s.data(), 24); bool must = pos < 8 || (pos >= 16 && pos < 20) || w[2] == 0 || w[3] == 0 || (uint64_t)w[2] * w[3] > (uint64_t)r * c;
	ctx.check(!threw, "corrupt-throw", "exception on corrupt header byte ", pos); if (must) ctx.check(!ok, "corrupt-accepted", "header byte ", pos, "=", (int)v, " accepted as ", back.rows(), "x", back.cols());
	if (pos >= 20) ctx.check(ok && same(m, back), "reserved", "reserved word matters");
}
MC_SCENARIO(bad_text, 1) {
	Mute mu; Matrix<double> b; mc::TempFile tf; ctx.step();
	struct Case { int f; const char* t; }; static const Case cs[] = {{0, ""}, {0, "2"}, {0, "x y"}, {0, "0 3\n"}, {0, "2 0\n"}, {0, "-1 2\n1 2"}, {0, "2 2\n1 2 3"}, {0, "2 2\n1 x 3 4"}, {0, "2 2\n1 2 3 z"}, {0, "1 1\n"}, {0, "200000 1\n1"}, {1, ""}, {1, "1,x\n2,3\n"}, {1, "1,2\n3\n"}, {1, "1,2\n3,4,5\n"}, {1, "a\n"}, {1, "1,,3\n"}, {1, "1,2x\n"}, {2, ""}, {2, "garbage garbage garbage garbage"}};
	auto& k = cs[ctx.choose(20)]; tf.write(k.t); ctx.note("format ", FN[k.f], " content ", k.t); bool ok = false; bool th = mc::throws([&] { ok = load(k.f, b, tf.path); });
	ctx.check(!ok && !th, "bad-text", FN[k.f], " content '", k.t, th ? "' threw" : "' was accepted");
}
MC_SCENARIO(paths, 1) {
	Mute mu; Matrix<double> b(1, 1); std::string none = mc::scratch_dir() + "/no/such/dir/x"; ctx.step(); int f = ctx.choose(3);
	ctx.check(!save(f, b, none) && !load(f, b, none), "no-path", FN[f], " reported success"); std::vector<std::complex<double>> v(1); ctx.check(!Serializer::SaveComplexVector(v, none) && !Serializer::LoadComplexVector(none, v), "no-path-vec", "success");
}
MC_SCENARIO(csv_variants, 2) { // hand-written csv: spaces, CRLF, missing final newline, blank lines
	Mute mu; int v = ctx.choose(6); std::string nl = v & 1 ? "\r\n" : "\n", sp = v & 2 ? " " : ""; std::string t = "1," + sp + "-2.5" + nl + (v == 4 ? nl : "") + "3," + sp + "4e2" + (v == 5 ? "" : nl); mc::TempFile tf; tf.write(t); Matrix<double> b; ctx.step(); ctx.note(t);
	if (v == 4) ctx.prune();
	ctx.check(Serializer::LoadMatrixFromCSV(tf.path, b), "csv-variant", "not loaded: ", t); ctx.check(b.rows() == 2 && b.cols() == 2 && b(0, 0) == 1 && b(0, 1) == -2.5 && b(1, 0) == 3 && b(1, 1) == 400, "csv-variant", "values of ", t);
}
template<class T> static void vec(mc::Ctx& ctx) {
	Mute mu; using C = std::complex<T>; auto al = alphabet<T>(); int n = ctx.range(0, 4); std::vector<C> v; for (int i = 0; i < n; i++) v.emplace_back(i < 2 ? ctx.pick(al) : al[i % al.size()], i < 1 ? ctx.pick(al) : al[(i + 3) % al.size()]); mc::TempFile tf; ctx.step();
	ctx.check(Serializer::SaveComplexVector(v, tf.path), "save-vec", "failed"); std::vector<C> b(3, C(9, 9)); ctx.check(Serializer::LoadComplexVector(tf.path, b) && b == v, "vec-round-trip", "complex vector of ", n, " came back different");
	std::vector<T> re, rb; for (auto& z : v) re.push_back(z.real()); mc::TempFile t2; ctx.check(Serializer::SaveRealAsComplex(re, t2.path) && Serializer::LoadComplexAsReal(t2.path, rb) && rb == re, "real-round-trip", "real vector");
	Vector<T> mv(n), mb; for (int i = 0; i < n; i++) mv[i] = re[i]; mc::TempFile t3; ctx.check(Serializer::SaveVectorAsComplex(mv, t3.path) && Serializer::LoadComplexAsVector(t3.path, mb) && mb.size() == n, "vector-round-trip", "Vector"); for (int i = 0; i < n; i++) ctx.check(mb[i] == re[i], "vector-round-trip", "element ", i);
	std::string good = tf.read(); ctx.state(mc::Hash().s(good)); int stepk = n > 2 ? 3 : 1;
	for (size_t k = 0; k < good.size(); k += stepk) { mc::TempFile c; c.write(good.substr(0, k)); std::vector<C> x; bool ok = false; bool th = mc::throws([&] { ok = Serializer::LoadComplexVector(c.path, x); }); ctx.check(!ok && !th, "vec-truncated", "vector file cut to ", k, " of ", good.size(), th ? " threw" : " loaded");
		mc::TempFile w; bool s; { mc::WriteLimit wl(k); s = Serializer::SaveComplexVector(v, w.path); } ctx.check(!s, "vec-write-fault", "save with room for ", k, " of ", good.size(), " bytes reported success"); }
	for (int pos = 0; pos < 16; pos++) for (int d : {1, 128}) { std::string s = good; s[pos] ^= d; mc::TempFile c; c.write(s); std::vector<C> x; bool ok = false; bool th = mc::throws([&] { ok = Serializer::LoadComplexVector(c.path, x); }); uint32_t cnt; memcpy(&cnt, s.data() + 8, 4); ctx.check(!th, "vec-corrupt", "threw"); if (pos < 8 || pos >= 12 || cnt > (uint32_t)n) ctx.check(!ok, "vec-corrupt", "header byte ", pos, " corrupted but loaded"); }
}
MC_SCENARIO(vectors_double, 2) { vec<double>(ctx); }
MC_SCENARIO(vectors_float, 2) { vec<float>(ctx); }
// the file methods of Vector itself: text and binary
template<class T> static bool vsave(int f, const Vector<T>& v, const std::string& p) { return f ? Vector<T>::SaveToBinary(v, p) : Vector<T>::SaveToFile(v, p); }
template<class T> static bool vload(int f, Vector<T>& v, const std::string& p) { return f ? Vector<T>::LoadFromBinary(p, v) : Vector<T>::LoadFromFile(p, v); }
template<class T> static bool vsame(const Vector<T>& a, const Vector<T>& b) { if (a.size() != b.size()) return false; for (int i = 0; i < (int)a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
template<class T, class A> static void own(mc::Ctx& ctx, const A& al) {
	Mute mu; static const char* FV[] = {"vector text", "vector binary"}; int f = ctx.choose(2), n = ctx.range(0, ctx.thorough ? 5 : 3); Vector<T> v(n); for (int i = 0; i < n; i++) v[i] = i < 2 ? al[ctx.choose((int)al.size())] : al[(i * 5 + 1) % al.size()]; mc::TempFile tf; ctx.step(); ctx.note(FV[f], " ", n);
	ctx.check(vsave(f, v, tf.path), "own-save", FV[f]); Vector<T> back(ctx.choose(2) * 7); ctx.check(vload(f, back, tf.path) && vsame(v, back), "own-round-trip", FV[f], " of ", n, " came back as ", back.size()); std::string good = tf.read(); ctx.state(mc::Hash().s(good).u(f));
	for (size_t k = 0; k < good.size(); k++) {
		mc::TempFile c; c.write(good.substr(0, k)); Vector<T> x; bool ok = false, th = mc::throws([&] { ok = vload(f, x, c.path); }); ctx.check(!th, "own-truncated", FV[f], " cut to ", k, " bytes threw"); std::istringstream is(good.substr(0, k)); std::string w; int m = 0; while (is >> w) m++; size_t declared = 0; std::istringstream(good) >> declared; size_t found = 0; std::istringstream(good.substr(0, k)) >> found;
		if (f || m == 0 || (found == declared && m < 1 + n)) ctx.check(!ok, "own-truncated", FV[f], " cut to ", k, " of ", good.size(), " bytes loaded as ", x.size(), " elements of ", n);
		mc::TempFile t; bool s; { mc::WriteLimit wl(k); s = vsave(f, v, t.path); } ctx.check(!s, "own-write-fault", FV[f], " save of ", good.size(), " bytes with room for ", k, " reported success");
	}
	if (f) for (int pos = 0; pos < 16; pos++) for (int d : {1, 2, 128}) { std::string s = good; s[pos] ^= d; mc::TempFile c; c.write(s); Vector<T> x; bool ok = false, th = mc::throws([&] { ok = vload(f, x, c.path); }); uint32_t cnt; memcpy(&cnt, s.data() + 8, 4); ctx.check(!th, "own-corrupt", "header byte ", pos, " threw"); if (pos < 8 || pos >= 12 || cnt > (uint32_t)n) ctx.check(!ok, "own-corrupt", "header byte ", pos, " accepted"); else ctx.check(ok && x.size() == (int)cnt, "own-corrupt", "a shorter count"); }
	else if (n) for (const char* bad : {"", "x", "-1\n1\n", "99999999999\n1\n2\n", "2\n1 z\n"}) { mc::TempFile c; c.write(bad); Vector<T> x; bool ok = false, th = mc::throws([&] { ok = vload(f, x, c.path); }); ctx.check(!ok && !th, "own-bad-text", "'", bad, th ? "' threw" : "' was accepted"); }
	std::string none = mc::scratch_dir() + "/no/such/dir/x"; ctx.check(!vsave(f, v, none) && !vload(f, v, none), "own-no-path", FV[f]);
}
MC_SCENARIO(own_vectors_double, 2) { own<double>(ctx, alphabet<double>()); }
MC_SCENARIO(own_vectors_float, 2) { own<float>(ctx, alphabet<float>()); }
MC_SCENARIO(own_vectors_int, 2) { own<int>(ctx, alphabet<int>()); }
MC_SCENARIO(own_vectors_complex, 2) { std::vector<Complex> al; for (double x : {1.0, 1.0 / 3, -1e-300, 0.0}) for (double y : {0.0, -2.0 / 7, 3.0000000000000004}) al.emplace_back(x, y); own<Complex>(ctx, al); }
