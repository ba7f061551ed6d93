// C47: LinearSystem facade, rectangular structure tests and definiteness classification.
// mc-flags: -O1
#include "MMLBase.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "systems/LinearSystem.h"
#include "algorithms/MatrixAlg.h"
#include "../mc/mc.h"
using namespace MML;
using namespace MML::Systems;
typedef long double LD;
typedef std::vector<std::vector<LD>> M;
typedef std::vector<LD> V;

static M zeros(int m, int n) { return M(m, V(n, 0)); }
static M tr(const M& a) { M r = zeros(a[0].size(), a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[j][i] = a[i][j]; return r; }
static M mul(const M& a, const M& b) {
  M r = zeros(a.size(), b[0].size());
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) r[i][j] += a[i][k] * b[k][j];
  return r;
}
// reduced row echelon form of a matrix of small integers; pivot columns
static std::vector<int> rref(M& a) {
  std::vector<int> piv; size_t r = 0;
  for (size_t c = 0; c < a[0].size() && r < a.size(); c++) {
    size_t p = r; for (size_t i = r; i < a.size(); i++) if (std::abs(a[i][c]) > std::abs(a[p][c])) p = i;
    if (std::abs(a[p][c]) < 1e-9L) continue;
    std::swap(a[p], a[r]); LD d = a[r][c]; for (auto& x : a[r]) x /= d;
    for (size_t i = 0; i < a.size(); i++) if (i != r) { LD f = a[i][c]; for (size_t j = 0; j < a[0].size(); j++) a[i][j] -= f * a[r][j]; }
    piv.push_back((int)c); r++;
  }
  return piv;
}
static int rankOf(M a) { return (int)rref(a).size(); }
static M inv(const M& a) {
  int n = a.size(); M e = zeros(n, 2 * n);
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) e[i][j] = a[i][j]; e[i][n + i] = 1; }
  rref(e); M r = zeros(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = e[i][n + j];
  return r;
}
static M pinv(const M& a) {            // exact rank factorization A = C F
  M f = a; auto piv = rref(f); int r = piv.size();
  if (r == 0) return zeros(a[0].size(), a.size());
  f.resize(r); M c = zeros(a.size(), r);
  for (size_t i = 0; i < a.size(); i++) for (int k = 0; k < r; k++) c[i][k] = a[i][piv[k]];
  M ft = tr(f), ct = tr(c);
  return mul(mul(ft, inv(mul(f, ft))), mul(inv(mul(ct, c)), ct));
}
static LD det(const M& a) {
  int n = a.size();
  if (n == 1) return a[0][0];
  if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
  LD s = 0;
  for (int j = 0; j < n; j++) {
    M b; for (int i = 1; i < n; i++) { V r; for (int k = 0; k < n; k++) if (k != j) r.push_back(a[i][k]); b.push_back(r); }
    s += (j % 2 ? -1 : 1) * a[0][j] * det(b);
  }
  return s;
}
static LD norm2(const V& v) { LD s = 0; for (auto x : v) s += x * x; return std::sqrt(s); }
static Matrix<Real> toM(const M& a, double s = 1) { Matrix<Real> r(a.size(), a[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r(i, j) = double(a[i][j] * s); return r; }
static Vector<Real> toV(const V& a, double s = 1) { Vector<Real> r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = double(a[i] * s); return r; }
static M fromM(const Matrix<Real>& a) { M r = zeros(a.rows(), a.cols()); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) r[i][j] = a(i, j); return r; }
static std::string str(const M& a) { std::string s = "["; for (auto& r : a) { for (auto x : r) s += mc::Ctx::cat((double)x, " "); s += "; "; } return s + "]"; }
static std::string str(const V& a) { std::string s = "("; for (auto x : a) s += mc::Ctx::cat((double)x, " "); return s + ")"; }
static bool closeM(const M& a, const M& b, LD tol) {
  if (a.size() != b.size()) return false;
  LD size = 1e-300L; for (auto& r : b) for (auto x : r) size = std::max(size, std::abs(x));
  for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); j++) if (!(std::abs(a[i][j] - b[i][j]) <= tol * size)) return false; }
  return true;
}
static bool closeAbs(const M& a, const M& b, LD tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); j++) if (!(std::abs(a[i][j] - b[i][j]) <= tol)) return false; }
  return true;
}
static bool closeV(const Vector<Real>& x, const V& e, LD tol, LD size = 1e-300L) {
  if (x.size() != (int)e.size()) return false;
  for (auto v : e) size = std::max(size, std::abs(v));
  for (size_t i = 0; i < e.size(); i++) if (!(std::abs(x[i] - e[i]) <= tol * size)) return false;
  return true;
}
static V times(const M& a, const V& x) { V r(a.size(), 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < x.size(); j++) r[i] += a[i][j] * x[j]; return r; }
static M ident(int n) { M r = zeros(n, n); for (int i = 0; i < n; i++) r[i][i] = 1; return r; }

static V pickRhs(mc::Ctx& ctx, int m) {
  switch (ctx.choose(ctx.thorough ? 4 : 3)) {
    case 0: { V b(m); for (int i = 0; i < m; i++) b[i] = i + 1; return b; }
    case 1: { V b(m, 0); b[m - 1] = -3; return b; }
    case 2: { V b(m, 1); return b; }
    default: { V b(m, 0); b[0] = 5; if (m > 1) b[1] = -2; return b; }
  }
}
// eigenvalues signs of a symmetric integer matrix, from exact principal minors
static bool allPrincipal(const M& a, int sign, bool strict) {
  int n = a.size();
  for (int mask = 1; mask < (1 << n); mask++) {
    std::vector<int> ix; for (int i = 0; i < n; i++) if (mask >> i & 1) ix.push_back(i);
    M b = zeros(ix.size(), ix.size());
    for (size_t i = 0; i < ix.size(); i++) for (size_t j = 0; j < ix.size(); j++) b[i][j] = sign * a[ix[i]][ix[j]];
    LD d = det(b);
    if (strict ? d < 0.5L : d < -0.5L) return false;
  }
  return true;
}

// everything that depends on the matrix only
static void matrixFacts(mc::Ctx& ctx, const M& a, double s) {
  const int m = a.size(), n = a[0].size(), r = rankOf(a);
  const std::string id = mc::Ctx::cat("A=", str(a), " * ", s);
  const Matrix<Real> A = toM(a, s);
  LinearSystem<Real> S(A);
  ctx.step();
  bool up = true, lo = true, sym = m == n, dd = m == n; int zero = 0;
  for (int i = 0; i < m; i++) { LD off = 0; for (int j = 0; j < n; j++) {
    if (i > j && a[i][j] != 0) up = false;
    if (i < j && a[i][j] != 0) lo = false;
    if (m == n && a[i][j] != a[j][i]) sym = false;
    if (a[i][j] == 0) zero++;
    if (i != j) off += std::abs(a[i][j]);
  } if (m == n && std::abs(a[i][i]) <= off) dd = false; }
  ctx.check(S.rows() == m && S.cols() == n && S.isSquare() == (m == n) && S.isOverdetermined() == (m > n) && S.isUnderdetermined() == (m < n), "shape", id);
  ctx.check(S.isUpperTriangular(0) == up && S.isLowerTriangular(0) == lo && S.isDiagonal(0) == (up && lo) && S.isSymmetric(0) == sym, "structure", id);
  ctx.check(S.isDiagonallyDominant() == dd, "dominance", id);
  ctx.check(mc::near(S.Sparsity(0), double(zero) / (m * n), 1e-12), "sparsity", id);
  ctx.check(S.Rank() == r && S.Nullity() == n - r, "rank", id, " rank ", S.Rank(), " expected ", r);
  bool pd = sym && allPrincipal(a, 1, true);
  if (s > 0) ctx.check(S.isPositiveDefinite(0) == pd, "positive-definite", id);

  if (m == n) {
    LD d = det(a);
    LD sd = d; for (int i = 0; i < n; i++) sd *= s;
    if (std::abs(d) > 0.5L) {
      ctx.check(std::abs(S.Determinant() - sd) <= 1e-10L * std::abs(sd), "determinant", id, " det ", S.Determinant());
      M ia = inv(a);
      M is = ia; for (auto& q : is) for (auto& x : q) x /= s;
      ctx.check(closeM(fromM(S.Inverse()), is, 1e-9L), "inverse", id);
      // condition numbers
      LD n1 = 0, i1 = 0, nI = 0, iI = 0;
      for (int j = 0; j < n; j++) { LD c = 0, e = 0, f = 0, g = 0; for (int i = 0; i < n; i++) { c += std::abs(a[i][j]); e += std::abs(ia[i][j]); f += std::abs(a[j][i]); g += std::abs(ia[j][i]); } n1 = std::max(n1, c); i1 = std::max(i1, e); nI = std::max(nI, f); iI = std::max(iI, g); }
      ctx.check(std::abs(S.ConditionNumber1() - n1 * i1) <= 1e-8L * n1 * i1, "condition-1", id, " ", S.ConditionNumber1(), " expected ", (double)(n1 * i1));
      ctx.check(std::abs(S.ConditionNumberInf() - nI * iI) <= 1e-8L * nI * iI, "condition-inf", id, " ", S.ConditionNumberInf());
      // spectral condition number lies between the bounds by other norms
      LD c2 = S.ConditionNumber();
      ctx.check(c2 >= 1 - 1e-9L && c2 <= std::sqrt(n1 * i1 * nI * iI) * (1 + 1e-8L) && c2 * n >= n1 * i1 * (1 - 1e-8L), "condition-2", id, " ", (double)c2);
      ctx.check(S.AssessStability() == MatrixStability::WellConditioned || c2 >= 1e4L, "stability", id);
      ctx.check(S.ExpectedDigitsLost() == (int)std::log10((double)c2), "digits", id);
      auto lu = S.GetLU();
      ctx.check(lu.valid && std::abs(lu.determinant - sd) <= 1e-10L * std::abs(sd), "lu-valid", id);
      bool shape = lu.L.rows() == n && lu.U.rows() == n && (int)lu.permutation.size() == n;
      ctx.check(shape, "lu-factors", id, " factors are empty");
      if (shape) {
        bool tri = true; std::vector<int> seen(n, 0);
        for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { if (i < j && lu.L(i, j) != 0) tri = false; if (i > j && lu.U(i, j) != 0) tri = false; } if (lu.L(i, i) != 1) tri = false; }
        M pa = zeros(n, n);
        for (int i = 0; i < n; i++) { int k = lu.permutation[i]; if (k < 0 || k >= n || seen[k]++) { tri = false; continue; } for (int j = 0; j < n; j++) pa[i][j] = a[k][j] * s; }
        ctx.check(tri && closeM(mul(fromM(lu.L), fromM(lu.U)), pa, 1e-12L), "lu-product", id, " L=", str(fromM(lu.L)), " U=", str(fromM(lu.U)));
      }
    } else {
      ctx.check(S.ConditionNumber() > 1e10, "condition-singular", id);
      // a threshold as relative as the pivots of rounded eliminations allow: exact singularity may be refused or reported as a tiny pivot
      double dt = 0; if (!mc::throws([&] { dt = S.Determinant(); })) ctx.check(std::abs(dt) <= 1e-10 * std::pow(std::abs(s) * 6, n), "determinant-singular", id, " ", dt);
    }
    if (sym) {
      auto ch = S.GetCholesky();
      ctx.check(ch.valid == (pd && s > 0), "cholesky-valid", id);
      if (ch.valid) {
        bool low = true; for (int i = 0; i < n; i++) { for (int j = i + 1; j < n; j++) if (ch.L(i, j) != 0) low = false; if (!(ch.L(i, i) > 0)) low = false; }
        M L = fromM(ch.L);
        ctx.check(low && closeM(mul(L, tr(L)), fromM(A), 1e-12L), "cholesky-product", id);
      }
    }
  } else {
    ctx.check(mc::throws([&] { S.Determinant(); }) && mc::throws([&] { S.Inverse(); }) && mc::throws([&] { S.GetEigen(); }), "square-required", id);
    ctx.check(!S.isSymmetric() && !S.isPositiveDefinite(), "square-predicates", id);
  }
  if (m >= n) {
    auto qr = S.GetQR();
    if (r == n) ctx.check(qr.valid, "qr-valid", id);
    if (qr.valid) {
      M Q = fromM(qr.Q), R = fromM(qr.R);
      bool ok = Q.size() == (size_t)m && R.size() == Q[0].size() && closeM(mul(Q, R), fromM(A), 1e-11L) && closeAbs(mul(tr(Q), Q), ident(Q[0].size()), 1e-11L);
      for (size_t i = 0; i < R.size() && ok; i++) for (int j = 0; j < n && j < (int)i; j++) if (std::abs(R[i][j]) > 1e-11L * std::abs(s) * 10) ok = false;
      ctx.check(ok, "qr-product", id, " Q=", str(Q), " R=", str(R));
    }
  }
  {
    auto sv = S.GetSVD();
    ctx.check(sv.valid && sv.rank == r, "svd-rank", id);
    if (sv.valid) {
      M U = fromM(sv.U), W = fromM(sv.V); int k = sv.singularValues.size();
      bool ok = (int)U.size() == m && (int)W.size() == n && (int)U[0].size() == k && (int)W[0].size() == k; M uw = U;
      for (int j = 0; j < k && ok; j++) { if (sv.singularValues[j] < 0 || (j && sv.singularValues[j] > sv.singularValues[j - 1])) ok = false; for (int i = 0; i < m; i++) uw[i][j] *= sv.singularValues[j]; }
      if (ok) { M p = mul(uw, tr(W)); LD sz = 10 * std::abs(s); ok = closeAbs(p, fromM(A), 1e-11L * sz) && closeAbs(mul(tr(W), W), ident(k), 1e-11L); }
      ctx.check(ok, "svd-product", id);
    }
    M P = pinv(a); for (auto& q : P) for (auto& x : q) x /= s;
    ctx.check(r == 0 ? closeAbs(fromM(S.PseudoInverse()), P, 0) : closeM(fromM(S.PseudoInverse()), P, 1e-9L), "pseudo-inverse", id, " got ", str(fromM(S.PseudoInverse())), " expected ", str(P));
    Matrix<Real> N = S.NullSpace(), C = S.ColumnSpace();
    bool ok = N.cols() == n - r && (n == r || N.rows() == n);
    if (ok && r < n) { M nn = fromM(N); ok = closeAbs(mul(tr(nn), nn), ident(n - r), 1e-11L); M z = mul(fromM(A), nn); for (auto& q : z) for (auto x : q) if (std::abs(x) > 1e-11L * std::abs(s) * 10) ok = false; }
    ctx.check(ok, "null-space", id, " ", N.rows(), "x", N.cols());
    ok = C.cols() == r && (r == 0 || C.rows() == m);
    if (ok && r > 0) { M cc = fromM(C); ok = closeAbs(mul(tr(cc), cc), ident(r), 1e-11L) && closeAbs(mul(cc, mul(tr(cc), fromM(A))), fromM(A), 1e-11L * std::abs(s) * 10); }
    ctx.check(ok, "column-space", id, " ", C.rows(), "x", C.cols());
  }
}

// everything about A x = b
static void systemFacts(mc::Ctx& ctx, const M& a, const V& b, double s, double t) {
  const int m = a.size(), n = a[0].size(), r = rankOf(a);
  const std::string id = mc::Ctx::cat("A=", str(a), "*", s, " b=", str(b), "*", t);
  const Matrix<Real> A = toM(a, s); const Vector<Real> B = toV(b, t);
  M aug = a; for (int i = 0; i < m; i++) aug[i].push_back(b[i]);
  const bool consistent = rankOf(aug) == r;
  V x = times(pinv(a), b); for (auto& v : x) v *= (LD)t / s;      // least squares solution of minimal norm
  const LD size = t / s;
  LinearSystem<Real> S(A, B);
  ctx.step();
  // the automatic solution
  Vector<Real> y; bool singular = false;
  bool thrown = mc::throws([&] { try { y = S.Solve(); } catch (const SingularMatrixError&) { singular = true; throw; } });
  if (thrown) ctx.check(singular && m > n && r < n, "solve-refused", id);
  else ctx.check(closeV(y, x, 1e-8L, size), "solve", id, " got ", y[0], n > 1 ? mc::Ctx::cat(" ", y[1]) : "", " expected ", str(x));
  if (!thrown) { Vector<Real> z = SolveLinearSystem<Real>(A, B); ctx.check(z.size() == y.size() && (Vector<Real>(z - y)).NormL2() == 0, "solve-function", id); }
  // explicit methods
  auto method = [&](const char* name, bool must, auto f) {
    Vector<Real> z;
    if (mc::throws([&] { z = f(); })) { ctx.check(!must, name, id, " refused"); return; }
    if (must) ctx.check(closeV(z, x, 1e-8L, size), name, id, " wrong solution");
    else if (m != n) ctx.check(z.size() == n, name, id, " size");
  };
  const bool regular = m == n && r == n;
  method("gauss-jordan", regular, [&] { return S.SolveByGaussJordan(); });
  method("lu", regular, [&] { return S.SolveByLU(); });
  method("qr", m >= n && r == n, [&] { return S.SolveByQR(); });
  method("least-squares", m >= n && r == n, [&] { return S.SolveLeastSquares(); });
  method("least-squares-function", m >= n && r == n, [&] { return SolveLeastSquares<Real>(A, B); });
  method("svd", true, [&] { return S.SolveBySVD(); });
  if (S.isSymmetric(0) && S.isPositiveDefinite(0)) method("cholesky", true, [&] { return S.SolveByCholesky(); });
  if (m != n) ctx.check(mc::throws([&] { S.SolveByLU(); }) && mc::throws([&] { S.SolveByGaussJordan(); }) && mc::throws([&] { S.SolveByCholesky(); }) && mc::throws([&] { S.SolveIterative(); }), "square-methods", id);
  // residuals: of the exact solution and of one which is not a solution
  Vector<Real> w(n); for (int i = 0; i < n; i++) w[i] = (i + 1) * t / s;
  V wl(n); for (int i = 0; i < n; i++) wl[i] = w[i];
  V res = times(a, wl); for (int i = 0; i < m; i++) res[i] = res[i] * s - b[i] * t;
  LD bn = norm2(b) * t, rn = norm2(res);
  ctx.check(std::abs(S.ResidualNorm(w) - rn) <= 1e-12L * (rn + bn), "residual", id);
  ctx.check(std::abs(S.RelativeResidual(w) - rn / bn) <= 1e-12L * (rn / bn + 1), "relative-residual", id);
  auto v = S.Verify(w);
  LD wn = norm2(wl), an = 0; for (auto& q : a) { LD z = 0; for (auto e : q) z += std::abs(e); an = std::max(an, z); } an *= s;
  ctx.check(v.absoluteResidual == S.ResidualNorm(w) && v.relativeResidual == S.RelativeResidual(w), "verify-residual", id);
  if (an > 0) ctx.check(std::abs(v.backwardError - rn / (an * wn)) <= 1e-10L * (rn + bn) / (an * wn), "verify-backward", id);
  if (regular) ctx.check(std::abs(v.estimatedForwardError - v.relativeResidual * S.ConditionNumber()) <= 1e-10L * std::abs(v.estimatedForwardError), "verify-forward", id);
  ctx.check(v.isAccurate == (v.relativeResidual < 1e-8), "verify-accurate", id);
  if (!thrown && consistent) ctx.check(S.Verify(y).isAccurate, "verify-solution", id);
  // the analysis
  auto an1 = S.Analyze();
  ctx.check(an1.rows == m && an1.cols == n && an1.isSquare == (m == n) && an1.rank == r && an1.nullity == n - r, "analysis-rank", id);
  ctx.check(an1.hasNoSolution == !consistent && an1.hasUniqueSolution == (consistent && r == n) && an1.hasInfiniteSolutions == (consistent && r < n), "solution-count", id,
            " none=", an1.hasNoSolution, " unique=", an1.hasUniqueSolution, " infinite=", an1.hasInfiniteSolutions);
  ctx.check(an1.isSymmetric == S.isSymmetric() && an1.isPositiveDefinite == S.isPositiveDefinite() && an1.isDiagonallyDominant == S.isDiagonallyDominant() && an1.isUpperTriangular == S.isUpperTriangular() && an1.isLowerTriangular == S.isLowerTriangular() && an1.isDiagonal == S.isDiagonal() && an1.sparsity == S.Sparsity() && an1.conditionNumber == S.ConditionNumber() && an1.stability == S.AssessStability() && an1.expectedDigitsLost == S.ExpectedDigitsLost() && an1.isOverdetermined == (m > n) && an1.isUnderdetermined == (m < n), "analysis-agrees", id);
  if (regular) ctx.check(std::abs(an1.determinant - S.Determinant()) == 0, "analysis-determinant", id);
  ctx.check(an1.analysisReport.find(mc::Ctx::cat("Matrix: ", m, "x", n)) != std::string::npos && an1.analysisReport.find(mc::Ctx::cat("Rank: ", r)) != std::string::npos && an1.analysisReport.find(consistent ? r == n ? "unique" : "infinite" : "none") != std::string::npos, "report", id, " ", an1.analysisReport);
}

static M pickM(mc::Ctx& ctx, int m, int n, const std::vector<int>& vals) {
  M a = zeros(m, n);
  for (auto& r : a) for (auto& x : r) x = vals[ctx.choose((int)vals.size())];
  return a;
}
static void done(mc::Ctx& ctx, const M& a, double s) { mc::Hash h; for (auto& r : a) for (auto x : r) h.d((double)x); h.d(s); ctx.state(h); if (rankOf(a) > 0) ctx.nontrivial(); }

MC_SCENARIO(square2, 1) {
  double s = ctx.pick({1.0, 0x1p-32, 0x1p30});
  M a = pickM(ctx, 2, 2, {-2, -1, 0, 1, 2, 3});
  if (ctx.flag()) { matrixFacts(ctx, a, s); done(ctx, a, s); }
  else { V b = pickRhs(ctx, 2); systemFacts(ctx, a, b, s, ctx.pick({1.0, 0x1p-40})); }
}
MC_SCENARIO(square3, 1) {
  double s = ctx.thorough ? ctx.pick({1.0, 0x1p-32}) : 1;
  std::vector<int> v = ctx.thorough ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 1, -2};
  M a = zeros(3, 3);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    if (!ctx.thorough && i == 0 && j == 2) a[i][j] = 1;
    else a[i][j] = v[ctx.choose(3)];
  }
  if (ctx.flag()) { matrixFacts(ctx, a, s); done(ctx, a, s); }
  else { V b = ctx.thorough ? pickRhs(ctx, 3) : V{1, 2, 3}; systemFacts(ctx, a, b, s, 1); }
}
MC_SCENARIO(rectangular, 1) {
  struct { int m, n; } sh[] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {4, 2}, {2, 4}};
  int k = ctx.choose(9);
  double s = ctx.thorough || k < 5 ? ctx.pick({1.0, 0x1p-32}) : 1;
  std::vector<int> v = k < 5 ? std::vector<int>{-3, -1, 0, 1, 2} : k < 7 ? (ctx.thorough ? std::vector<int>{-2, -1, 0, 1} : std::vector<int>{-1, 0, 2}) : ctx.thorough ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 1};
  M a = pickM(ctx, sh[k].m, sh[k].n, v);
  if (ctx.flag()) { matrixFacts(ctx, a, s); done(ctx, a, s); }
  else { V b = pickRhs(ctx, sh[k].m); systemFacts(ctx, a, b, s, 1); }
}
MC_SCENARIO(square4, 1) {   // sparse 4x4: permuted, with coupling
  int p[4] = {0, 1, 2, 3};
  for (int i = 0; i < 3; i++) std::swap(p[i], p[i + ctx.choose(4 - i)]);
  M a = zeros(4, 4);
  int d = ctx.choose(3);
  for (int i = 0; i < 4; i++) a[i][p[i]] = d == 0 ? 1 : d == 1 ? i - 1 : 3 - 2 * i;
  int e = ctx.choose(16), f = ctx.choose(16);
  a[e / 4][e % 4] += 2; a[f / 4][f % 4] -= 1;
  if (ctx.flag()) { matrixFacts(ctx, a, 1); done(ctx, a, 1); }
  else systemFacts(ctx, a, ctx.flag() ? V{1, 2, 3, 4} : V{0, 0, 0, -3}, 1, 1);
}
MC_SCENARIO(nearly_structured, 1) {    // an element far below the others still matters
  double eps = ctx.pick({1e-9, 1e-12, -3e-9, 1e-7});
  int kind = ctx.choose(4);
  double p = ctx.pick({1.0, 2.0, -3.0}), q = ctx.pick({1.0, -2.0, 5.0}), c = ctx.pick({0.0, 1.0, 1e9, 1e8});
  Matrix<Real> A(2, 2); 
  if (kind == 0) { A(0, 0) = p; A(0, 1) = c; A(1, 0) = eps; A(1, 1) = q; }
  else if (kind == 1) { A(0, 0) = p; A(1, 0) = c; A(0, 1) = eps; A(1, 1) = q; }
  else if (kind == 2) { A(0, 0) = p * eps; A(0, 1) = q * eps; A(1, 0) = 2 * eps; A(1, 1) = (c > 2 ? 3 : c) * eps; }        // everything small
  else { A(0, 0) = 3 * std::abs(p); A(0, 1) = 1 + eps; A(1, 0) = 1; A(1, 1) = std::abs(q); }            // nearly symmetric
  LD d = (LD)A(0, 0) * A(1, 1) - (LD)A(0, 1) * A(1, 0);
  LD size = std::max(std::max(std::abs(A(0, 0)), std::abs(A(1, 1))), std::max(std::abs(A(0, 1)), std::abs(A(1, 0))));
  LD rowmix = std::abs((LD)A(0, 0) * A(1, 1)) + std::abs((LD)A(0, 1) * A(1, 0));
  if (std::abs(d) < 0.05L * rowmix || d == 0 || size * size / std::abs(d) > 1e9L) { ctx.prune(); return; }
  ctx.step(); ctx.nontrivial();
  double b0 = kind == 2 ? eps : 1, b1 = kind == 2 ? -2 * eps : 2;
  LD x0 = (b0 * (LD)A(1, 1) - b1 * (LD)A(0, 1)) / d, x1 = ((LD)A(0, 0) * b1 - (LD)A(1, 0) * b0) / d;
  LinearSystem<Real> S(A, Vector<Real>({b0, b1}));
  if (ctx.flag()) { S.isUpperTriangular(); S.isSymmetric(); S.isPositiveDefinite(); S.Analyze(); }      // earlier questions do not matter
  Vector<Real> y = S.Solve();
  LD tol = 1e-15L * 100 * std::max<LD>(10, size * size / std::abs(d));
  ctx.check(std::abs(y[0] - x0) + std::abs(y[1] - x1) <= tol * (std::abs(x0) + std::abs(x1)), "nearly-structured", "A=", str(fromM(A)), " got ", y[0], " ", y[1], " expected ", (double)x0, " ", (double)x1);
  auto v = S.Verify(y); ctx.check(v.isAccurate, "nearly-structured-residual", "A=", str(fromM(A)), " relative residual ", v.relativeResidual);
  mc::Hash h; h.d(A(0, 0)); h.d(A(0, 1)); h.d(A(1, 0)); h.d(A(1, 1)); ctx.state(h);
}
MC_SCENARIO(histories, 1) {    // the answers do not depend on the questions asked before
  int kind = ctx.choose(4);
  Matrix<Real> A = kind == 0 ? Matrix<Real>{3, 3, {1, 0, 0, 0, 1e-3, 0, 0, 0, 1e-6}} : kind == 1 ? Matrix<Real>{2, 2, {4, 1, 1 + 1e-5, 3}} : kind == 2 ? Matrix<Real>{3, 2, {1, 1, 1, 1, 1, 1.0001}} : Matrix<Real>{2, 2, {2, 1, 1, 2}};
  Vector<Real> b(A.rows(), 1.0);
  LinearSystem<Real> S(A, b);
  int len = ctx.thorough ? 4 : 3; mc::Hash h; h.u(kind);
  for (int i = 0; i < len; i++) {
    LinearSystem<Real> F(A, b);
    int q = ctx.choose(14);
    ctx.step(); h.u(q);
    auto same = [&](auto f) { auto x = f(S), y = f(F); ctx.check(x == y, "history", "kind ", kind, " question ", q, " after ", i, " others: ", x, " instead of ", y); };
    const double tols[3] = {1e-8, 1e-4, 1e-2};
    if (q < 3) same([&](auto& L) { return L.Rank(tols[q]); });
    else if (q < 6) same([&](auto& L) { return (int)L.isSymmetric(tols[q - 3]); });
    else if (q < 9) same([&](auto& L) { return (int)L.isPositiveDefinite(tols[q - 6]); });
    else if (q == 9) same([&](auto& L) { return L.Rank(); });
    else if (q == 10) same([&](auto& L) { return L.Nullity(tols[2]); });
    else if (q == 11) same([&](auto& L) { return L.ConditionNumber(); });
    else if (q == 12) same([&](auto& L) { return L.Analyze().analysisReport; });
    else same([&](auto& L) { return L.Solve()[0]; });
    if (kind == 0 && q < 3) ctx.check(S.Rank(tols[q]) == 3 - (q == 1) - 2 * (q == 2), "rank-tolerance", "tolerance ", tols[q], " rank ", S.Rank(tols[q]));
    if (kind == 1 && q >= 3 && q < 6) ctx.check(S.isSymmetric(tols[q - 3]) == (q != 3), "symmetry-tolerance", "tolerance ", tols[q - 3]);
  }
  ctx.nontrivial(); ctx.state(h);
}
MC_SCENARIO(multiple, 1) {
  M a = pickM(ctx, 2, 2, {-2, 0, 1, 3});
  if (std::abs(det(a)) < 0.5L) { ctx.prune(); return; }
  int p = 1 + ctx.choose(3); M B = zeros(2, p);
  for (int i = 0; i < 2; i++) for (int j = 0; j < p; j++) B[i][j] = (i + 1) * (j + 2) - 3 * i * j;
  LinearSystem<Real> S(toM(a), toM(B));
  ctx.step(); ctx.nontrivial();
  ctx.check(closeM(fromM(S.SolveMultiple()), mul(inv(a), B), 1e-12L), "solve-multiple", "A=", str(a), " columns ", p);
  ctx.check(mc::throws([&] { S.Solve(); }) && mc::throws([&] { S.SolveByLU(); }) && mc::throws([&] { S.SolveBySVD(); }) && mc::throws([&] { S.SolveLeastSquares(); }) && mc::throws([&] { S.ResidualNorm(Vector<Real>(2, 1.0)); }) && mc::throws([&] { S.GetRHS(); }), "multiple-single", "A=", str(a), ": an operation with a single right-hand side is accepted");
  auto an = S.Analyze(); ctx.check(an.hasUniqueSolution && !an.hasNoSolution, "multiple-analysis", "A=", str(a));
  LinearSystem<Real> H(toM(a));
  ctx.check(mc::throws([&] { H.Solve(); }) && mc::throws([&] { H.SolveMultiple(); }) && mc::throws([&] { H.SolveByQR(); }) && mc::throws([&] { H.GetRHS(); }) && mc::throws([&] { H.Verify(Vector<Real>(2, 1.0)); }), "no-rhs", "A=", str(a));
  LinearSystem<Real> O(toM(a), Vector<Real>(2, 1.0));
  ctx.check(mc::throws([&] { O.SolveMultiple(); }) && O.GetRHS()[1] == 1 && O.GetMatrix()(0, 1) == a[0][1], "single-multiple", "A=", str(a));
  for (int k = 0; k < 4; k++) if (k != 2) ctx.check(mc::throws([&] { LinearSystem<Real> L(toM(a), Vector<Real>(k, 1.0)); }) && (k == 0 || mc::throws([&] { LinearSystem<Real> L(toM(a), Matrix<Real>(k, 2, 1.0)); })), "sizes", "A=", str(a), " right-hand side of ", k);
  mc::Hash h; for (auto& r : a) for (auto x : r) h.d((double)x); h.u(p); ctx.state(h);
}
MC_SCENARIO(inconsistent_multiple, 1) {
  int k = ctx.choose(4);
  M a = k < 2 ? M{{1, 2}, {2, 4}} : M{{1, 0}, {0, 1}, {1, 1}};
  M B = k == 0 ? M{{1, 3}, {2, 6}} : k == 1 ? M{{1, 3}, {2, 5}} : k == 2 ? M{{1, 0}, {2, 1}, {3, 1}} : M{{1, 0}, {2, 1}, {3, 7}};
  ctx.step(); ctx.nontrivial();
  auto an = LinearSystem<Real>(toM(a), toM(B)).Analyze();
  ctx.check(an.hasNoSolution == (k % 2 == 1) && an.hasUniqueSolution == (k == 2) && an.hasInfiniteSolutions == (k == 0), "multiple-count", "case ", k);
  auto hm = AnalyzeMatrix<Real>(toM(a));
  ctx.check(!hm.hasNoSolution && hm.hasUniqueSolution == (k >= 2) && hm.rank == (k < 2 ? 1 : 2), "homogeneous", "case ", k);
  mc::Hash h; h.u(k); ctx.state(h);
}
MC_SCENARIO(stability, 1) {
  int k = ctx.choose(15), n = 2 + ctx.choose(2); double s = ctx.pick({1.0, 0x1p-40, 0x1p20});
  Matrix<Real> A(n, n, 0.0); for (int i = 0; i < n; i++) A(i, i) = s; A(n - 1, n - 1) = 1.5 * s * std::pow(10.0, -k);
  double cond = k == 0 ? 1.5 : std::pow(10.0, k) / 1.5;
  LinearSystem<Real> S(A); ctx.step(); ctx.nontrivial();
  ctx.check(mc::near(S.ConditionNumber() / cond, 1, 1e-2), "condition", "10^-", k, " condition ", S.ConditionNumber());
  auto st = S.AssessStability();
  ctx.check(st == (cond >= 1e12 ? MatrixStability::Singular : cond >= 1e8 ? MatrixStability::IllConditioned : cond >= 1e4 ? MatrixStability::ModeratelyConditioned : MatrixStability::WellConditioned), "stability-class", "10^-", k);
  ctx.check(S.ExpectedDigitsLost() == (k == 0 ? 0 : k - 1), "digits-lost", "10^-", k, " digits ", S.ExpectedDigitsLost());
  mc::Hash h; h.u(k); h.u(n); h.d(s); ctx.state(h);
}
MC_SCENARIO(iterative, 1) {
  int n = 2 + ctx.choose(2); M a = zeros(n, n);
  for (int i = 0; i < n; i++) { LD off = 0; for (int j = 0; j < n; j++) if (i != j) { a[i][j] = ctx.choose(n == 2 ? 5 : 3) - (n == 2 ? 2 : 1); off += std::abs(a[i][j]); } a[i][i] = off + 1; }
  if (ctx.flag()) for (auto& x : a[0]) x = -x;
  IterativeMethod meth = ctx.pick({IterativeMethod::Auto, IterativeMethod::Jacobi, IterativeMethod::GaussSeidel, IterativeMethod::SOR});
  V b = pickRhs(ctx, n), x = times(inv(a), b);
  LinearSystem<Real> S(toM(a), toV(b)); ctx.step(); ctx.nontrivial();
  bool spd = S.isSymmetric(0) && allPrincipal(a, 1, true);
  Vector<Real> y;
  if (mc::throws([&] { y = S.SolveIterative(meth, 1e-11, 5000); })) ctx.check(meth == IterativeMethod::SOR && !spd, "iterative-converges", "A=", str(a), " method ", (int)meth);
  else ctx.check(closeV(y, x, 1e-7L), "iterative", "A=", str(a), " b=", str(b), " method ", (int)meth, " got ", y[0], " ", y[1], " expected ", str(x));
  // too few iterations are reported, not returned
  Vector<Real> z; bool none = mc::throws([&] { z = S.SolveIterative(meth, 1e-13, 1); });
  if (!none) ctx.check(S.RelativeResidual(z) < 1e-8, "iterative-stops", "A=", str(a), " method ", (int)meth);
  mc::Hash h; for (auto& r : a) for (auto v : r) h.d((double)v); h.u((int)meth); ctx.state(h);
}
MC_SCENARIO(definiteness, 1) {
  int n = 1 + ctx.choose(3); M a = zeros(n, n);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a[i][j] = a[j][i] = n == 3 && !ctx.thorough ? (i == j ? ctx.choose(5) - 2 : ctx.choose(3) - 1) : ctx.choose(5) - 2;
  typedef MatrixAlg::Definiteness D;
  bool pd = allPrincipal(a, 1, true), psd = allPrincipal(a, 1, false), nd = allPrincipal(a, -1, true), nsd = allPrincipal(a, -1, false);
  D want = pd ? D::PositiveDefinite : psd ? D::PositiveSemiDefinite : nd ? D::NegativeDefinite : nsd ? D::NegativeSemiDefinite : D::Indefinite;
  MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) S(i, j) = (double)a[i][j];
  Matrix<Real> A = toM(a), N = A;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { N(i, j) += 3; N(j, i) -= 3; }      // same quadratic form
  ctx.step(); if (n > 1) ctx.nontrivial();
  std::string id = str(a);
  ctx.check(MatrixAlg::ClassifyDefiniteness(S) == want && MatrixAlg::ClassifyDefiniteness(A) == want && MatrixAlg::ClassifyDefiniteness(N) == want, "classify", id, " class ", (int)MatrixAlg::ClassifyDefiniteness(A), " expected ", (int)want);
  auto all = [&](auto& X) {
    ctx.check(MatrixAlg::IsPositiveDefinite(X) == pd && MatrixAlg::IsPositiveSemiDefinite(X) == psd && MatrixAlg::IsNegativeDefinite(X) == nd, "definite", id);
    ctx.check(MatrixAlg::IsNegativeSemiDefinite(X) == (nsd && want != D::PositiveSemiDefinite), "negative-semidefinite", id);
    ctx.check(MatrixAlg::IsIndefinite(X) == (!psd && !nsd), "indefinite", id);
  };
  all(S); all(A); all(N);
  ctx.check(MatrixAlg::IsSymmetric(A) && MatrixAlg::IsSymmetric(N) == (n == 1) && MatrixAlg::IsSkewSymmetric(A) == (norm2(a[0]) + (n > 1 ? norm2(a[1]) : 0) + (n > 2 ? norm2(a[2]) : 0) == 0), "symmetry", id);
  ctx.check(mc::throws([&] { MatrixAlg::ClassifyDefiniteness(Matrix<Real>(n, n + 1, 1.0)); }), "definiteness-square", id);
  if (n > 1) {
    LinearSystem<Real> L(A);
    Vector<Real> e = L.EigenvaluesSymmetric(); LD tr1 = 0, tr2 = 0, s1 = 0, s2 = 0, mx = 0;
    for (int i = 0; i < n; i++) { s1 += e[i]; s2 += (LD)e[i] * e[i]; mx = std::max<LD>(mx, std::abs(e[i])); tr1 += a[i][i]; for (int j = 0; j < n; j++) tr2 += a[i][j] * a[i][j]; }
    ctx.check(std::abs(s1 - tr1) < 1e-9L && std::abs(s2 - tr2) < 1e-8L, "eigenvalues-symmetric", id);
    Vector<Real> g = L.Eigenvalues(); LD t1 = 0, t2 = 0; for (int i = 0; i < n; i++) { t1 += g[i]; t2 += (LD)g[i] * g[i]; }
    ctx.check(std::abs(t1 - tr1) < 1e-6L && std::abs(t2 - tr2) < 1e-5L, "eigenvalues", id, " trace ", (double)t1);
    ctx.check(std::abs(L.SpectralRadius() - mx) < 1e-6L && !L.HasComplexEigenvalues(1e-6), "spectral-radius", id, " ", L.SpectralRadius(), " expected ", (double)mx);
    ctx.check(mc::throws([&] { LinearSystem<Real>(N).EigenvaluesSymmetric(); }), "eigenvalues-refused", id);
  }
  mc::Hash h; for (auto& r : a) for (auto x : r) h.d((double)x); ctx.state(h);
}
MC_SCENARIO(eigen2, 1) {    // general 2x2: real and complex pairs
  M a = pickM(ctx, 2, 2, {-3, -1, 0, 1, 2, 4});
  LD t = a[0][0] + a[1][1], d = det(a), disc = t * t - 4 * d;
  LinearSystem<Real> S(toM(a)); ctx.step(); ctx.nontrivial();
  ctx.check(S.HasComplexEigenvalues(1e-6) == (disc < -0.5L), "complex", str(a));
  LD rho = disc >= 0 ? std::max(std::abs(t + std::sqrt(disc)), std::abs(t - std::sqrt(disc))) / 2 : std::sqrt(d);
  LD tol = disc == 0 ? 1e-4L : 1e-7L;
  ctx.check(std::abs(S.SpectralRadius() - rho) < tol, "radius", str(a), " ", S.SpectralRadius(), " expected ", (double)rho);
  Vector<Real> e = S.Eigenvalues(); LD re1 = disc >= 0 ? (t - std::sqrt(disc)) / 2 : t / 2, re2 = disc >= 0 ? (t + std::sqrt(disc)) / 2 : t / 2;
  ctx.check(e.size() == 2 && std::abs(std::min(e[0], e[1]) - re1) < tol && std::abs(std::max(e[0], e[1]) - re2) < tol, "real-parts", str(a), " ", e[0], " ", e[1]);
  mc::Hash h; for (auto& r : a) for (auto x : r) h.d((double)x); ctx.state(h);
}
MC_SCENARIO(rectangular_structure, 1) {      // predicates and SVD-free structure of every shape up to 4x4
  int m = 1 + ctx.choose(4), n = 1 + ctx.choose(4); int i = ctx.choose(m), j = ctx.choose(n); bool full = ctx.flag(); double e = ctx.pick({1.0, -1e-3});
  Matrix<Real> A(m, n, 0.0);
  for (int r = 0; r < m && r < n; r++) A(r, r) = 2;
  if (full) for (int r = 0; r < m; r++) for (int c = r; c < n; c++) A(r, c) = 3;
  if (A(i, j) == 0 || i == j) A(i, j) = e;
  bool up = true, lo = true, he = true; for (int r = 0; r < m; r++) for (int c = 0; c < n; c++) if (A(r, c) != 0) { if (r > c) up = false; if (r < c) lo = false; if (r > c + 1) he = false; }
  ctx.step(); ctx.nontrivial(); std::string id = str(fromM(A));
  ctx.check(Utils::IsUpperTriangular(A) == up && Utils::IsLowerTriangular(A) == lo && Utils::IsDiagonal(A) == (up && lo), "predicates", id);
  ctx.check(Utils::IsUpperHessenberg(A) == he, "hessenberg", id);
  ctx.check(Utils::IsUpperTriangular(A, 1e-2) == (up || (e == -1e-3 && i > j)), "tolerance", id);
  mc::Hash h; for (int r = 0; r < m; r++) for (int c = 0; c < n; c++) h.d(A(r, c)); h.u(m); ctx.state(h);
}
