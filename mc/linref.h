// Reference dense matrices (index-level definitions) and exact rational linear algebra for small matrices.
#pragma once
#include "mc.h"
#include <vector>
#include <complex>
#include <cmath>
namespace ref {
template <class T> struct M {
	int r = 0, c = 0; std::vector<T> v;
	M() {} M(int r_, int c_, T x = T(0)) : r(r_), c(c_), v((size_t)r_ * c_, x) {}
	T& operator()(int i, int j) { return v[(size_t)i * c + j]; } const T& operator()(int i, int j) const { return v[(size_t)i * c + j]; }
	M t() const { M o(c, r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o(j, i) = (*this)(i, j); return o; }
	M operator*(const M& b) const { M o(r, b.c); for (int i = 0; i < r; i++) for (int j = 0; j < b.c; j++) for (int k = 0; k < c; k++) o(i, j) = o(i, j) + (*this)(i, k) * b(k, j); return o; }
	M operator+(const M& b) const { M o = *this; for (size_t i = 0; i < v.size(); i++) o.v[i] = v[i] + b.v[i]; return o; }
	M operator-(const M& b) const { M o = *this; for (size_t i = 0; i < v.size(); i++) o.v[i] = v[i] - b.v[i]; return o; }
	M operator*(T s) const { M o = *this; for (auto& x : o.v) x = x * s; return o; }
	bool operator==(const M& b) const { return r == b.r && c == b.c && v == b.v; }
};
typedef mc::Frac Q;
inline M<Q> toQ(const M<int>& a) { M<Q> o(a.r, a.c); for (size_t i = 0; i < a.v.size(); i++) o.v[i] = Q(a.v[i]); return o; }
// Gauss-Jordan over the rationals: returns rank, reduces a in place (augmented columns from nc on are carried along)
inline int rref(M<Q>& a, int nc) {
	int row = 0; for (int c = 0; c < nc && row < a.r; c++) {
		int p = -1; for (int i = row; i < a.r; i++) if (a(i, c) != Q(0)) { p = i; break; }
		if (p < 0) continue;
		for (int j = 0; j < a.c; j++) std::swap(a(p, j), a(row, j));
		Q d = a(row, c); for (int j = 0; j < a.c; j++) a(row, j) = a(row, j) / d;
		for (int i = 0; i < a.r; i++) if (i != row && a(i, c) != Q(0)) { Q f = a(i, c); for (int j = 0; j < a.c; j++) a(i, j) = a(i, j) - f * a(row, j); }
		row++;
	} return row;
}
inline int rank(const M<int>& a) { M<Q> q = toQ(a); return rref(q, a.c); }
inline double val(const Q& q) { return (double)((long double)q.n / (long double)q.d); }
inline long long det(const M<int>& a) { // Leibniz / cofactor, exact
	int n = a.r; if (n == 0) return 1; if (n == 1) return a(0, 0);
	long long s = 0; for (int k = 0; k < n; k++) { if (!a(0, k)) continue; M<int> m(n - 1, n - 1); for (int i = 1; i < n; i++) { int cc = 0; for (int j = 0; j < n; j++) if (j != k) m(i - 1, cc++) = a(i, j); } s += (k % 2 ? -1LL : 1LL) * a(0, k) * det(m); } return s;
}
inline bool inverse(const M<int>& a, M<Q>& inv) { int n = a.r; M<Q> w(n, 2 * n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) w(i, j) = Q(a(i, j)); w(i, n + i) = Q(1); } if (rref(w, n) < n) return false; inv = M<Q>(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv(i, j) = w(i, n + j); return true; }
inline bool solve(const M<int>& a, const std::vector<int>& b, std::vector<Q>& x) { int n = a.r; M<Q> w(n, n + 1); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) w(i, j) = Q(a(i, j)); w(i, n) = Q(b[i]); } if (rref(w, n) < n) return false; x.clear(); for (int i = 0; i < n; i++) x.push_back(w(i, n)); return true; }
} // namespace ref
