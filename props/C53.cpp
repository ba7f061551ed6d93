// C53: helpers for vectors and matrices: mixed real and complex arithmetic, constructions, predicates, series.
// mc-flags: -O1
#include "MMLBase.h"
#include "base/BaseUtils.h"
#include "base/Polynom.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixNM.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "../mc/mc.h"
#include <algorithm>
using namespace MML;
typedef long double LD;
typedef std::complex<LD> CL;
static const Complex CV[] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {2, -3}, {-0.5, 4}, {3, 2}};
// ---------------- mixed arithmetic: all shapes, entries from a small table (sums and products are exact)
static Real rv(int seed, int k) { static const Real V[] = {0, 1, -1, 2, -3, 0.5, 7}; return V[(seed * 3 + k * (seed + 2) + k / 3) % 7]; }
static Complex cv(int seed, int k) { return {rv(seed, k), rv(seed + 1, k + 2)}; }
template<class T, class F> static Vector<T> vec(int n, F f) { Vector<T> v(n); for (int i = 0; i < n; i++) v[i] = f(i); return v; }
template<class T, class F> static Matrix<T> mat(int r, int c, F f) { Matrix<T> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = f(i, j); return m; }
template<class F> static bool isVec(const Vector<Complex>& v, int n, F f) { if ((int)v.size() != n) return false; for (int i = 0; i < n; i++) if (v[i] != f(i)) return false; return true; }
template<class T, class F> static bool isMat(const Matrix<T>& m, int r, int c, F f) { if (m.rows() != r || m.cols() != c) return false; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (m(i, j) != T(f(i, j))) return false; return true; }
MC_SCENARIO(mixed_vectors, 1) {
  int n = 1 + ctx.choose(4), m = 1 + ctx.choose(4), s = ctx.choose(5), k = ctx.choose(8); ctx.step(); ctx.nontrivial(); auto A = vec<Complex>(n, [&](int i) { return cv(s, i); }); auto B = vec<Real>(m, [&](int i) { return rv(s + 1, i); }); std::string id = mc::Ctx::cat("sizes ", n, " ", m, " values ", s, " scalar ", k);
  auto op = [&](const char* nm, std::function<Vector<Complex>()> f, std::function<Complex(int)> w) { Vector<Complex> r(1); bool threw = mc::throws([&] { r = f(); }); ctx.check(threw == (n != m), nm, id, threw ? " refused" : " accepted"); if (!threw) ctx.check(isVec(r, n, w), nm, id); };
  op("add", [&] { return Utils::AddVec(A, B); }, [&](int i) { return A[i] + B[i]; }); op("add", [&] { return Utils::AddVec(B, A); }, [&](int i) { return A[i] + B[i]; }); op("sub", [&] { return Utils::SubVec(A, B); }, [&](int i) { return A[i] - B[i]; }); op("sub", [&] { return Utils::SubVec(B, A); }, [&](int i) { return B[i] - A[i]; });
  for (auto& r : {Utils::MulVec(CV[k], B), Utils::MulVec(B, CV[k])}) ctx.check(isVec(r, m, [&](int i) { return Complex(CV[k].real() * B[i], CV[k].imag() * B[i]); }), "scale", id);
  auto C = vec<Complex>(m, [&](int i) { return cv(s + 2, i); }); Complex got; bool threw = mc::throws([&] { got = Utils::ScalarProduct(A, C); }); ctx.check(threw == (n != m), "inner-product", id); if (!threw) { Complex w = 0; for (int i = 0; i < n; i++) w += A[i] * Complex(C[i].real(), -C[i].imag()); ctx.check(got == w, "inner-product", id, " is ", got.real(), " ", got.imag()); }
  ctx.check(isMat(Utils::OuterProduct(A, C), n, m, [&](int i, int j) { return A[i] * C[j]; }), "outer-product", id); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(mixed_matrices, 1) {
  int r = 1 + ctx.choose(3), c = 1 + ctx.choose(3), r2 = 1 + ctx.choose(3), c2 = 1 + ctx.choose(3), s = ctx.choose(4), k = ctx.choose(4) + 4; ctx.step(); ctx.nontrivial(); auto fc = [&](int i, int j) { return cv(s, i * 3 + j); }; auto fr = [&](int i, int j) { return rv(s + 1, i * 3 + j); };
  auto A = mat<Complex>(r, c, fc); auto B = mat<Real>(r2, c2, fr); std::string id = mc::Ctx::cat(r, "x", c, " and ", r2, "x", c2, " values ", s, " scalar ", k);
  auto op = [&](const char* nm, bool fits, int R, int C, std::function<Matrix<Complex>()> f, std::function<Complex(int, int)> w) { Matrix<Complex> m(1, 1); bool threw = mc::throws([&] { m = f(); }); ctx.check(threw == !fits, nm, id, threw ? " refused" : " accepted"); if (!threw) ctx.check(isMat(m, R, C, w), nm, id); };
  bool eq = r == r2 && c == c2; op("add", eq, r, c, [&] { return Utils::AddMat(A, B); }, [&](int i, int j) { return fc(i, j) + fr(i, j); }); op("add", eq, r, c, [&] { return Utils::AddMat(B, A); }, [&](int i, int j) { return fc(i, j) + fr(i, j); });
  op("sub", eq, r, c, [&] { return Utils::SubMat(A, B); }, [&](int i, int j) { return fc(i, j) - fr(i, j); }); op("sub", eq, r, c, [&] { return Utils::SubMat(B, A); }, [&](int i, int j) { return fr(i, j) - fc(i, j); });
  op("scale", true, r2, c2, [&] { return Utils::MulMat(CV[k], B); }, [&](int i, int j) { return CV[k] * fr(i, j); }); op("scale", true, r2, c2, [&] { return Utils::MulMat(B, CV[k]); }, [&](int i, int j) { return CV[k] * fr(i, j); });
  op("product", c == r2, r, c2, [&] { return Utils::MulMat(A, B); }, [&](int i, int j) { Complex t = 0; for (int q = 0; q < c; q++) t += fc(i, q) * fr(q, j); return t; }); op("product", c2 == r, r2, c, [&] { return Utils::MulMat(B, A); }, [&](int i, int j) { Complex t = 0; for (int q = 0; q < r; q++) t += fr(i, q) * fc(q, j); return t; });
  // a vector is a matrix with one column or one row
  if (c2 == 1) { auto v = vec<Real>(r2, [&](int i) { return fr(i, 0); }); op("matrix-vector", c == r2, r, 1, [&] { return Utils::ColumnMatrixFromVector(Utils::MulMatVec(A, v)); }, [&](int i, int) { Complex t = 0; for (int q = 0; q < c; q++) t += fc(i, q) * fr(q, 0); return t; }); }
  if (c == 1) { auto v = vec<Complex>(r, [&](int i) { return fc(i, 0); }); op("matrix-vector", c2 == r, r2, 1, [&] { return Utils::ColumnMatrixFromVector(Utils::MulMatVec(B, v)); }, [&](int i, int) { Complex t = 0; for (int q = 0; q < r; q++) t += fr(i, q) * fc(q, 0); return t; }); }
  if (r == 1) { auto v = vec<Complex>(c, [&](int i) { return fc(0, i); }); op("vector-matrix", c == r2, 1, c2, [&] { return Utils::RowMatrixFromVector(Utils::MulVecMat(v, B)); }, [&](int, int j) { Complex t = 0; for (int q = 0; q < c; q++) t += fc(0, q) * fr(q, j); return t; }); }
  if (r2 == 1) { auto v = vec<Real>(c2, [&](int i) { return fr(0, i); }); op("vector-matrix", c2 == r, 1, c, [&] { return Utils::RowMatrixFromVector(Utils::MulVecMat(v, A)); }, [&](int, int j) { Complex t = 0; for (int q = 0; q < r; q++) t += fr(0, q) * fc(q, j); return t; }); }
  ctx.check(isMat(Utils::GetRealPart(A), r, c, [&](int i, int j) { return fc(i, j).real(); }) && isMat(Utils::GetImagPart(A), r, c, [&](int i, int j) { return fc(i, j).imag(); }), "parts", id); ctx.check(isMat(Utils::GetConjugateTranspose(A), c, r, [&](int i, int j) { return Complex(fc(j, i).real(), -fc(j, i).imag()); }), "conjugate-transpose", id);
  ctx.check(isMat(Utils::CmplxMatFromRealMat(B), r2, c2, [&](int i, int j) { return Complex(fr(i, j), 0); }) && Utils::IsComplexMatReal(Utils::CmplxMatFromRealMat(B)), "complex-of-real", id); mc::Hash h; h.s(id); ctx.state(h);
}
// ---------------- matrices from vectors
MC_SCENARIO(constructions, 1) {
  int n = ctx.choose(4); std::vector<Vector<Real>> b; std::string id = "sizes"; for (int i = 0; i < n; i++) { int k = 1 + ctx.choose(3); b.push_back(vec<Real>(k, [&](int j) { return rv(i, j + 1); })); id += mc::Ctx::cat(" ", k); } ctx.step(); ctx.nontrivial();
  bool same = n > 0; for (auto& v : b) same &= v.size() == b[0].size(); Matrix<Real> R(1, 1), C(1, 1); bool tr = mc::throws([&] { R = Utils::MatrixFromVectorsInRows(b); }), tc = mc::throws([&] { C = Utils::MatrixFromVectorsInColumns(b); });
  if (!n) { ctx.check(tr || R.rows() == 0, "rows-of-nothing", id); ctx.check(tc || C.cols() == 0, "columns-of-nothing", id); } else { ctx.check(tr == !same && tc == !same, "ragged", id, " ", tr, tc); if (!tr) { int w = (int)b[0].size(); ctx.check(isMat(R, n, w, [&](int i, int j) { return b[i][j]; }), "rows", id); ctx.check(isMat(C, w, n, [&](int i, int j) { return b[j][i]; }), "columns", id); } }
  for (auto& v : b) { int w = (int)v.size(); ctx.check(isMat(Utils::RowMatrixFromVector(v), 1, w, [&](int, int j) { return v[j]; }) && isMat(Utils::ColumnMatrixFromVector(v), w, 1, [&](int i, int) { return v[i]; }) && isMat(Utils::DiagonalMatrixFromVector(v), w, w, [&](int i, int j) { return i == j ? v[i] : 0; }), "from-vector", id);
    if (w == 3) { VectorN<Real, 3> f{v[0], v[1], v[2]}; auto a = Utils::RowMatrixFromVector(f); auto c = Utils::ColumnMatrixFromVector(f); auto d = Utils::DiagonalMatrixFromVector(f); bool ok = true; for (int i = 0; i < 3; i++) { ok &= a(0, i) == v[i] && c(i, 0) == v[i]; for (int j = 0; j < 3; j++) ok &= d(i, j) == (i == j ? v[i] : 0); } ctx.check(ok, "from-fixed-vector", id); } }
  mc::Hash h; h.s(id); ctx.state(h);
}
// ---------------- predicates and algebra over all small matrices
MC_SCENARIO(complex_predicates, 1) {   // all 1x1 and 2x2 matrices over the table, all 3x3 of three bands
  int n = 1 + ctx.choose(3); std::string id; static const int BAND[3][3] = {{0, 1, 2}, {1, 0, 1}, {2, 1, 0}}; std::vector<Complex> e; if (n < 3) for (int i = 0; i < n * n; i++) e.push_back(CV[ctx.choose(ctx.thorough || n == 1 ? 8 : 6)]); else { Complex up[3], lo[3]; for (auto& x : up) x = CV[ctx.choose(5)]; for (int i = 0; i < 3; i++) lo[i] = ctx.choose(2) ? std::conj(up[i]) : up[i]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e.push_back(j >= i ? up[BAND[i][j]] : lo[BAND[i][j]]); }
  ctx.step(); ctx.nontrivial(); auto m = mat<Complex>(n, n, [&](int i, int j) { return e[i * n + j]; }); for (auto& x : e) id += mc::Ctx::cat("(", x.real(), ",", x.imag(), ")"); bool herm = true, unit = true, real = true;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Complex a = e[i * n + j], b = e[j * n + i]; herm &= a.real() == b.real() && a.imag() == -b.imag(); real &= a.imag() == 0; CL t = 0; for (int k = 0; k < n; k++) t += CL(e[i * n + k]) * std::conj(CL(e[j * n + k])); unit &= t == CL(i == j ? 1 : 0, 0); }
  ctx.check(Utils::IsHermitian(m) == herm, "hermitian", id); ctx.check(Utils::IsUnitary(m) == unit, "unitary", id); ctx.check(Utils::IsComplexMatReal(m) == real, "real", id); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(orthogonal, 1) {   // all 2x2 over five values and all 3x3 over -1, 0, 1
  int n = 2 + ctx.choose(2); std::vector<int> e; std::string id; for (int i = 0; i < n * n; i++) { e.push_back(n == 2 ? ctx.choose(5) - 2 : ctx.choose(3) - 1); id += mc::Ctx::cat(e.back(), " "); } ctx.step(); ctx.nontrivial(); auto m = mat<Real>(n, n, [&](int i, int j) { return (Real)e[i * n + j]; });
  bool o = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int t = 0; for (int k = 0; k < n; k++) t += e[i * n + k] * e[j * n + k]; o &= t == (i == j); } ctx.check(Utils::IsOrthogonal(m) == o, "orthogonal", id);
  Matrix<Real> S(1, 1), A(1, 1); Utils::MatrixDecomposeToSymAntisym(m, S, A); ctx.check(isMat(S, n, n, [&](int i, int j) { return (e[i * n + j] + e[j * n + i]) / 2.0; }) && isMat(A, n, n, [&](int i, int j) { return (e[i * n + j] - e[j * n + i]) / 2.0; }), "decomposition", id); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(nearly, 1) {   // rotations and unitary matrices with rounding, and perturbed beyond the tolerance
  int n = 2 + ctx.choose(2), p = ctx.choose(12), q = ctx.choose(6), at = ctx.choose(n * n); Real d = ctx.pick({0.0, 1e-3, -0.25}); ctx.step(); ctx.nontrivial(); Real a = 0.3 + p * 0.55, f = q * 1.1; std::string id = mc::Ctx::cat("dim ", n, " angle ", a, " phase ", f, " changed at ", at, " by ", d);
  auto g = [&](int i, int j) -> Real { if (n == 3 && (i == 1 || j == 1)) return i == j; int u = i ? 1 : 0, v = j ? 1 : 0; return u == v ? std::cos(a) : u ? std::sin(a) : -std::sin(a); };
  auto R = mat<Real>(n, n, g); R(at / n, at % n) += d; LD off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD t = 0; for (int k = 0; k < n; k++) t += (LD)R(i, k) * R(j, k); off = std::max(off, std::abs(t - (i == j))); } ctx.check(Utils::IsOrthogonal(R) == (off < 1e-9L), "orthogonal", id, " off by ", (double)off); if (off > 1e-9L) { ctx.check(Utils::IsOrthogonal(R, (double)(off * 1.01L)), "orthogonal-tolerance", id); ctx.check(!Utils::IsOrthogonal(R, (double)(off * 0.99L)), "orthogonal-tolerance", id); }
  auto U = mat<Complex>(n, n, [&](int i, int j) { return R(i, j) * std::exp(Complex(0, f * (j + 1))); }); ctx.check(Utils::IsUnitary(U) == (off < 1e-9L), "unitary", id); mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(commutators, 1) {
  int e[8]; std::string id; for (int& x : e) { x = ctx.choose(3) - 1; id += mc::Ctx::cat(x, " "); } ctx.step(); ctx.nontrivial(); auto A = mat<Real>(2, 2, [&](int i, int j) { return (Real)e[2 * i + j]; }), B = mat<Real>(2, 2, [&](int i, int j) { return (Real)e[4 + 2 * i + j]; });
  auto p = [&](int o, int w, int i, int j) { return e[o + 2 * i] * e[w + j] + e[o + 2 * i + 1] * e[w + 2 + j]; }; ctx.check(isMat(Utils::Commutator(A, B), 2, 2, [&](int i, int j) { return p(0, 4, i, j) - p(4, 0, i, j); }), "commutator", id); ctx.check(isMat(Utils::AntiCommutator(A, B), 2, 2, [&](int i, int j) { return p(0, 4, i, j) + p(4, 0, i, j); }), "anticommutator", id); mc::Hash h; h.s(id); ctx.state(h);
}
// ---------------- power series: error within the bound of the omitted terms
MC_SCENARIO(series, 1) {
  int dim = 1 + ctx.choose(2); std::vector<LD> e; std::string id; for (int i = 0; i < dim * dim; i++) { static const LD V[] = {0, 1, -2, 0.25L, 0.5L}; e.push_back(V[ctx.choose(dim == 1 ? 5 : 4)]); id += mc::Ctx::cat((double)e.back(), " "); } int n = ctx.pick({1, 2, 3, 4, 5, 8, 10, 11, 30}); ctx.step(); ctx.nontrivial();
  auto A = mat<Real>(dim, dim, [&](int i, int j) { return (Real)e[i * dim + j]; }); id += mc::Ctx::cat("terms ", n); LD norm = 0; for (LD x : e) norm += x * x; norm = std::sqrt(norm); std::vector<LD> P(dim * dim, 0), sum[5]; for (int i = 0; i < dim; i++) P[i * dim + i] = 1; for (auto& s : sum) s.assign(dim * dim, 0); LD fact = 1, bound = std::exp(norm);
  for (int k = 0; k <= 80; k++) { for (int i = 0; i < dim * dim; i++) { LD t = P[i] / fact; sum[0][i] += t; if (k % 2) { sum[1][i] += k % 4 == 1 ? t : -t; sum[3][i] += t; } else { sum[2][i] += k % 4 ? -t : t; sum[4][i] += t; } } std::vector<LD> Q(dim * dim, 0); for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) for (int l = 0; l < dim; l++) Q[i * dim + j] += P[i * dim + l] * e[l * dim + j]; P = Q; fact *= k + 1; if (k <= n) bound *= norm / (k + 1); }
  struct S { const char* n; Matrix<Real> m; } got[] = {{"exp", Utils::Exp(A, n)}, {"sin", Utils::Sin(A, n)}, {"cos", Utils::Cos(A, n)}, {"sinh", Utils::Sinh(A, n)}, {"cosh", Utils::Cosh(A, n)}};
  for (int f = 0; f < 5; f++) for (int i = 0; i < dim * dim; i++) { LD err = std::abs(got[f].m(i / dim, i % dim) - sum[f][i]); ctx.check(err <= bound * (1 + 1e-12L) + 1e-13L * std::exp(norm), "series", got[f].n, " of ", id, " entry ", i, " is ", got[f].m(i / dim, i % dim), " expected ", (double)sum[f][i], " within ", (double)bound); }
  mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(not_square, 1) {
  int r = 1 + ctx.choose(4), c = 1 + ctx.choose(4), k = ctx.choose(9); ctx.step(); ctx.nontrivial(); auto A = mat<Real>(r, c, [&](int i, int j) { return rv(1, i + j); }); auto Z = mat<Complex>(r, c, [&](int i, int j) { return cv(1, i + j); }); Matrix<Real> S(1, 1), T(1, 1); bool threw = mc::throws([&] { switch (k) { case 0: Utils::Exp(A); break; case 1: Utils::Sin(A); break; case 2: Utils::Cos(A); break; case 3: Utils::Sinh(A); break; case 4: Utils::Cosh(A); break; case 5: Utils::IsOrthogonal(A); break; case 6: Utils::IsHermitian(Z); break; case 7: Utils::IsUnitary(Z); break; default: Utils::MatrixDecomposeToSymAntisym(A, S, T); } });
  ctx.check(threw == (r != c), "not-square", "operation ", k, " on ", r, "x", c);
}
// ---------------- projections and angles: all pairs of small vectors
MC_SCENARIO(projections, 1) {
  int n = 2 + ctx.choose(2); std::vector<int> a, b; std::string id; for (int i = 0; i < n; i++) a.push_back(ctx.choose(4) - 1); for (int i = 0; i < n; i++) b.push_back(ctx.choose(4) - 2); Real scale = ctx.pick({1.0, 1e-6, 1e5}); ctx.step(); ctx.nontrivial(); int ab = 0, bb = 0, aa = 0; for (int i = 0; i < n; i++) { ab += a[i] * b[i]; bb += b[i] * b[i]; aa += a[i] * a[i]; id += mc::Ctx::cat("(", a[i], " ", b[i], ")"); } id += mc::Ctx::cat(" times ", scale);
  auto A = vec<Real>(n, [&](int i) { return (Real)a[i]; }), B = vec<Real>(n, [&](int i) { return b[i] * scale; }); LD w = ab * (LD)scale; ctx.check(std::abs(Utils::ScalarProduct(A, B) - w) <= 1e-14L * std::abs(scale) * 10, "scalar-product", id);
  if (bb) { auto p = Utils::VectorProjectionParallelTo(A, B), q = Utils::VectorProjectionPerpendicularTo(A, B); bool ok = (int)p.size() == n && (int)q.size() == n; for (int i = 0; i < n && ok; i++) { LD t = (LD)ab * b[i] / bb; ok = std::abs(p[i] - t) < 1e-13L && std::abs(q[i] - (a[i] - t)) < 1e-13L; } ctx.check(ok, "projection", id);
    if (aa) { LD ang = std::acos(std::clamp(ab / std::sqrt((LD)aa * bb), (LD)-1, (LD)1)); bool flat = ab * ab == aa * bb; Real got = Utils::VectorsAngle(A, B); ctx.check(std::abs(got - ang) < (flat ? 1e-7L : 1e-13L), "angle", id, " is ", got, " expected ", (double)ang);
      if (n == 3) { VectorN<Real, 3> u{A[0], A[1], A[2]}, v{B[0], B[1], B[2]}; ctx.check(Utils::ScalarProduct(u, v) == Utils::ScalarProduct(A, B) && std::abs(Utils::VectorsAngle(u, v) - ang) < (flat ? 1e-7L : 1e-13L), "fixed-vectors", id); VectorN<Complex, 3> y{Complex(a[0], b[1]), Complex(a[1], b[2]), Complex(a[2], b[0])}, z{Complex(b[0], a[2]), Complex(b[1], a[0]), Complex(b[2], a[1])}; Complex t = 0; for (int i = 0; i < 3; i++) t += y[i] * Complex(z[i].real(), -z[i].imag()); ctx.check(Utils::ScalarProduct(y, z) == t, "fixed-inner-product", id); } } }
  auto shorter = vec<Real>(n - 1, [&](int i) { return B[i]; }); bool refused = mc::throws([&] { Utils::ScalarProduct(A, shorter); }) && mc::throws([&] { Utils::VectorsAngle(A, shorter); }) && mc::throws([&] { Utils::VectorProjectionParallelTo(A, shorter); }); ctx.check(refused, "sizes", id); mc::Hash h; h.s(id); ctx.state(h);
}
// ---------------- symbols, angles, comparisons
MC_SCENARIO(symbols, 1) {
  int i[4]; for (int& x : i) x = ctx.choose(7) - 1; ctx.step(); ctx.nontrivial(); auto sign = [&](int n) { int s = 1; for (int a = 0; a < n; a++) { if (i[a] < 1 || i[a] > n) return 0; for (int b = 0; b < a; b++) if (i[a] == i[b]) return 0; else if (i[b] > i[a]) s = -s; } return s; };
  ctx.check(Utils::LeviCivita(i[0], i[1], i[2], i[3]) == sign(4), "levi-civita-4", i[0], i[1], i[2], i[3]); if (i[3] == 0) ctx.check(Utils::LeviCivita(i[0], i[1], i[2]) == sign(3), "levi-civita-3", i[0], i[1], i[2]); ctx.check(Utils::KroneckerDelta(i[0], i[1]) == (i[0] == i[1]), "delta", i[0], i[1]); mc::Hash h; h.d(i[0] * 343 + i[1] * 49 + i[2] * 7 + i[3]); ctx.state(h);
}
MC_SCENARIO(explicit_angles, 1) {
  int d = ctx.pick({0, 1, 44, 359, -1, -90, 1000}), m = ctx.choose(60), s = ctx.pick({0, 1, 30, 59}); Real frac = ctx.pick({0.0, 0.25, 0.5}), sec = s + frac; ctx.step(); ctx.nontrivial(); LD w = d + m / 60.0L + sec / 3600.0L; std::string id = mc::Ctx::cat(d, " ", m, " ", sec); Real a = Utils::ExplicitToAngleDeg(d, m, sec), ar = Utils::ExplicitToAngleRad(d, m, sec); const LD PI = 3.14159265358979323846264L;
  ctx.check(std::abs(a - w) < 1e-15L * (1 + std::abs(w)) && std::abs(ar - w * PI / 180) < 1e-15L * (1 + std::abs(w)), "to-angle", id, " is ", a); Real D, M, S; for (int rad = 0; rad < 2; rad++) { if (rad) Utils::AngleRadToExplicit(ar, D, M, S); else Utils::AngleDegToExplicit(a, D, M, S); LD back = D + M / 60.0L + S / 3600.0L;
    ctx.check(D == std::floor(D) && M == std::floor(M) && M >= 0 && M < 60 && S > -1e-8 && S < 60 + 1e-8, "parts", id, " are ", D, " ", M, " ", S); ctx.check(std::abs(back - w) < 1e-12L * (1 + std::abs(w) / 100), "round-trip", id, " is ", D, " ", M, " ", S); if (s + frac > 0) ctx.check(D == d && M == m && std::abs(S - sec) < 1e-8L, "parts", id, " are ", D, " ", M, " ", S); }
  mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(comparisons, 1) {
  Real eps = ctx.pick({1e-10, 0.5, 1e-3}), x = ctx.pick({0.0, 0.6, 0.9, 1.1, -0.9, -1.1, (double)NAN}), y = ctx.pick({0.0, 0.6, -0.9, 1.1, (double)NAN}); Complex base = CV[ctx.pick({0, 3})]; int at = ctx.choose(3); ctx.step(); ctx.nontrivial(); Complex z(base.real() + x * eps, base.imag() + y * eps); std::string id = mc::Ctx::cat("off by (", x, ",", y, ") times ", eps, " at ", at);
  bool per = std::abs(x) <= 1 && std::abs(y) <= 1, ab = x * x + y * y <= 1; if (eps == 1e-10 && base != Complex(0, 0) && std::abs(x * x + y * y - 1) < 1e-3) return; ctx.check(Utils::AreEqual(base, z, eps) == per && Utils::AreEqual(z, base, eps) == per, "equal", id); ctx.check(Utils::AreEqualAbs(base, z, eps) == ab && Utils::AreEqualAbs(z, base, eps) == ab, "equal-abs", id);
  Vector<Complex> a(3), b(3); for (int i = 0; i < 3; i++) a[i] = b[i] = CV[i + 5 - (i > 0)]; a[at] = base; b[at] = z; ctx.check(Utils::AreEqual(a, b, eps) == per && Utils::AreEqualAbs(a, b, eps) == ab, "equal-vectors", id); Vector<Complex> sh(2); sh[0] = a[0]; sh[1] = a[1]; ctx.check(!Utils::AreEqual(a, sh, eps) && !Utils::AreEqualAbs(sh, a, eps), "equal-sizes", id);
  Vector<Real> u(3), v(3); for (int i = 0; i < 3; i++) u[i] = v[i] = i; u[at] = 0; v[at] = x * eps; ctx.check(Utils::AreEqual(u, v, eps) == (std::abs(x) <= 1), "equal-real-vectors", id); mc::Hash h; h.s(id); ctx.state(h);
}
// ---------------- comparisons within a tolerance of every container, with one entry off
MC_SCENARIO(containers, 1) {
  int at = ctx.choose(9), swap = ctx.choose(2), v = ctx.choose(9); static const Real INF = std::numeric_limits<Real>::infinity(), N = std::numeric_limits<Real>::quiet_NaN(); static const Real X[] = {1, 1, 1, 1, 1, N, INF, INF, INF}, Y[] = {1, 1.4, 0.6, 1.6, 0.4, N, INF, -INF, N}; static const bool EQ[] = {true, true, true, false, false, false, true, false, false}; Real x = swap ? Y[v] : X[v], y = swap ? X[v] : Y[v], eps = 0.5; bool want = EQ[v]; ctx.step(); ctx.nontrivial();
  std::string id = mc::Ctx::cat(x, " against ", y, " at ", at); int r = at / 3, c = at % 3; auto f = [&](Real z) { return [=](int i, int j) { return i == r && j == c ? z : (Real)(i + j); }; }; auto A = mat<Real>(3, 3, f(x)), B = mat<Real>(3, 3, f(y));
  ctx.check(A.IsEqualTo(B, eps) == want && Matrix<Real>::AreEqual(A, B, eps) == want, "matrix", id); auto ZA = mat<Complex>(3, 3, [&](int i, int j) { return Complex(1, f(x)(i, j)); }), ZB = mat<Complex>(3, 3, [&](int i, int j) { return Complex(1, f(y)(i, j)); }); ctx.check(ZA.IsEqualTo(ZB, eps) == want, "complex-matrix", id);
  MatrixNM<Real, 3, 3> NA, NB; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { NA(i, j) = A(i, j); NB(i, j) = B(i, j); } ctx.check(NA.IsEqualTo(NB, eps) == want, "fixed-matrix", id);
  if (c <= r) { MatrixSym<Real> SA(3), SB(3); for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) { SA(i, j) = A(i, j); SB(i, j) = B(i, j); } ctx.check(SA.IsEqualTo(SB, eps) == want, "symmetric-matrix", id); }
  if (std::abs(r - c) <= 1) { Vector<Real> z(3); TridiagonalMatrix<Real> TA(3, z, z, z), TB(3, z, z, z); for (int i = 0; i < 3; i++) for (int j = std::max(0, i - 1); j <= std::min(2, i + 1); j++) { TA(i, j) = A(i, j); TB(i, j) = B(i, j); } ctx.check(TA.IsEqualTo(TB, eps) == want, "tridiagonal", id); BandDiagonalMatrix DA(3, 1, 1, Matrix<Real>(3, 3)), DB(3, 1, 1, Matrix<Real>(3, 3)); for (int i = 0; i < 3; i++) for (int j = std::max(0, i - 1); j <= std::min(2, i + 1); j++) { DA(i, j) = A(i, j); DB(i, j) = B(i, j); } ctx.check(DA.IsEqualTo(DB, eps) == want, "band", id);
    BandDiagonalMatrix DS(3, 1, 1, Matrix<Real>(3, 3)); for (int i = 0; i < 3; i++) for (int j = std::max(0, i - 1); j <= std::min(2, i + 1); j++) DS(i, j) = i == r && j == c ? x : i == c && j == r ? y : i + j; bool s = r == c ? x == x : want; ctx.check(DS.IsSymmetric(eps) == s || (r == c), "band-symmetric", id); }
  if (r == 0) { VectorN<Real, 3> u, w; Vector<Real> U(3), W(3); std::vector<Real> p(3), q(3); for (int i = 0; i < 3; i++) { U[i] = u[i] = p[i] = A(0, i); W[i] = w[i] = q[i] = B(0, i); } ctx.check(u.IsEqualTo(w, eps) == want && U.IsEqualTo(W, eps) == want, "vector", id); if (std::isfinite(x) && std::isfinite(y)) ctx.check(Polynom<Real>(p).IsEqualTo(Polynom<Real>(q), eps) == want, "polynomial", id); else if (x != x || y != y) ctx.check(!Polynom<Real>(p).IsEqualTo(Polynom<Real>(q), eps), "polynomial", id); }
  mc::Hash h; h.s(id); ctx.state(h);
}
MC_SCENARIO(matrix_predicates, 1) {   // identity, zero, symmetric and antisymmetric matrices with up to two entries replaced
  int base = ctx.choose(4), p = ctx.choose(9), q = ctx.choose(9); static const Real INF = std::numeric_limits<Real>::infinity(), N = std::numeric_limits<Real>::quiet_NaN(); static const Real V[] = {0, 1, -1, 1.4, 0.4, -0.6, 5, INF, -INF, N}; Real x = V[ctx.choose(10)], y = V[ctx.choose(10)], eps = 0.5; ctx.step(); ctx.nontrivial();
  auto A = mat<Real>(3, 3, [&](int i, int j) { Real z = base == 0 ? i == j : base == 1 ? 0 : base == 2 ? i * j + 1 : j - i; if (i * 3 + j == p) z = x; if (i * 3 + j == q) z = y; return z; }); std::string id; for (int i = 0; i < 9; i++) id += mc::Ctx::cat(A(i / 3, i % 3), " ");
  bool one = true, zero = true, diag = true, sym = true, anti = true, dom = true; auto in = [&](Real a, Real b) { return a == b || std::abs(a - b) <= eps; };
  for (int i = 0; i < 3; i++) { LD s = 0; for (int j = 0; j < 3; j++) { Real a = A(i, j), b = A(j, i); one &= in(a, i == j); zero &= in(a, 0); if (i != j) { diag &= in(a, 0); sym &= in(a, b); s += std::abs(a); } anti &= in(a, -b); } dom &= std::abs((LD)A(i, i)) >= s; }
  ctx.check(A.isIdentity(eps) == one, "identity", id); ctx.check(A.isZero(eps) == zero, "zero", id); ctx.check(A.isDiagonal(eps) == diag, "diagonal", id); ctx.check(A.isSymmetric(eps) == sym, "symmetric", id); ctx.check(A.isAntiSymmetric(eps) == anti, "antisymmetric", id); ctx.check(A.isDiagonallyDominant() == dom, "dominant", id); mc::Hash h; h.s(id); ctx.state(h);
}
