// High-precision helpers shared by oracles (no HelFEM code in here).
#pragma once
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <vector>
namespace mp {
  using R = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<100, boost::multiprecision::digit_base_10>, boost::multiprecision::et_off>;
  using J = std::vector<R>;   // truncated Taylor series in t, J[k] = coefficient of t^k
  inline J mul(const J & a, const J & b) {
    J c(a.size(), R(0));
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; i + j < c.size() && j < b.size(); j++) c[i + j] += a[i] * b[j];
    return c;
  }
  inline J lin(size_t n, const R & c0, const R & c1) { J a(n, R(0)); a[0] = c0; if (n > 1) a[1] = c1; return a; }
  inline J inv(const J & a) {
    J b(a.size(), R(0)); b[0] = R(1) / a[0];
    for (size_t k = 1; k < a.size(); k++) { R s = 0; for (size_t j = 1; j <= k; j++) s += a[j] * b[k - j]; b[k] = -s * b[0]; }
    return b;
  }
  // a/(t*c1 + c0); exact deflation when c0 == 0 (then a[0] must be 0)
  inline J divlin(const J & a, const R & c0, const R & c1) {
    J b(a.size() - 1, R(0));
    if (c0 == 0) { for (size_t k = 0; k + 1 < a.size(); k++) b[k] = a[k + 1] / c1; return b; }
    J q = mul(a, inv(lin(a.size(), c0, c1))); q.pop_back(); return q;
  }
  // Hermite interpolation family: nodes x, orders 0..m. Jet of B_{i,k} about the point z with n+1 coefficients.
  struct Hermite {
    std::vector<R> x; int m;
    std::vector<J> invW;   // Taylor of 1/W_i about x_i to order m
    Hermite(const std::vector<R> & x_, int m_) : x(x_), m(m_) {
      for (size_t i = 0; i < x.size(); i++) {
        J w(m + 1, R(0)); w[0] = 1;
        for (size_t j = 0; j < x.size(); j++) if (j != i) for (int p = 0; p <= m; p++) w = mul(w, lin(m + 1, R(1), R(1) / (x[i] - x[j])));
        invW.push_back(inv(w));
      }
    }
    J W(size_t i, const R & z, size_t n) const {
      J w(n, R(0)); w[0] = 1;
      for (size_t j = 0; j < x.size(); j++) if (j != i) { J f = lin(n, (z - x[j]) / (x[i] - x[j]), R(1) / (x[i] - x[j])); for (int p = 0; p <= m; p++) w = mul(w, f); }
      return w;
    }
    J eval(size_t i, int k, const R & z, size_t n) const { return eval(W(i, z, n), i, k, z, n); }
    J eval(const J & w, size_t i, int k, const R & z, size_t n) const {
      J u = lin(n, z - x[i], R(1));
      J q(n, R(0));
      for (int p = m - k; p >= 0; p--) { q = mul(q, u); q[0] += invW[i][p]; }
      J r = mul(w, q);
      R f = 1;
      for (int p = 1; p <= k; p++) { r = mul(r, u); f *= p; }
      for (auto & v : r) v /= f;
      return r;
    }
  };
  // jets of Legendre polynomials P_0..P_L about z
  inline std::vector<J> legendre(int L, const R & z, size_t n) {
    std::vector<J> P; J one(n, R(0)); one[0] = 1; P.push_back(one);
    J u = lin(n, z, R(1)); if (L >= 1) P.push_back(u);
    for (int k = 1; k < L; k++) { J a = mul(u, P[k]); for (size_t i = 0; i < n; i++) a[i] = (R(2 * k + 1) * a[i] - R(k) * P[k - 1][i]) / R(k + 1); P.push_back(a); }
    return P;
  }
  inline R fact(int n) { R f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
}
