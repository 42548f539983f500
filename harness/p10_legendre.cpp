// LIBS: core
// P10: associated Legendre functions against derivatives of P_l and Q_l in 400-digit arithmetic.
#include "vt.h"
#include <legendre/Legendre.h>
#include <legendre_poly.h>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <vector>
#include <map>
#include <array>
using H = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<420, boost::multiprecision::digit_base_10>, boost::multiprecision::et_off>;
using J = std::vector<H>;
static J mul(const J & a, const J & b) { J c(a.size(), H(0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; i + j < c.size(); j++) c[i + j] += a[i] * b[j]; return c; }
static J mulx(const H & x, const J & a) { J c(a.size()); for (size_t i = 0; i < a.size(); i++) c[i] = x * a[i] + (i ? a[i - 1] : H(0)); return c; }
// P_l^m and Q_l^m for all 0<=l<=L, 0<=m<=M: w^m times the m-th derivative, with (-1)^m on the cut
struct Table { int L, M; std::vector<H> P, Q; };
static Table reference(int L, int M, const H & x, bool wantq) {
  using boost::multiprecision::abs; using boost::multiprecision::sqrt; using boost::multiprecision::log; size_t n = M + 1; bool cut = abs(x) <= 1; Table t{L, M, std::vector<H>((size_t) (L + 1) * n), std::vector<H>((size_t) (L + 1) * n)};
  std::vector<J> P(L + 1, J(n, H(0))), W(L + 1, J(n, H(0))); P[0][0] = 1; if (L >= 1) { P[1] = mulx(x, P[0]); W[1][0] = 1; }
  for (int k = 1; k < L; k++) { J a = mulx(x, P[k]), b = mulx(x, W[k]); for (size_t i = 0; i < n; i++) { P[k + 1][i] = (H(2 * k + 1) * a[i] - H(k) * P[k - 1][i]) / H(k + 1); W[k + 1][i] = (H(2 * k + 1) * b[i] - H(k) * W[k - 1][i]) / H(k + 1); } }
  H w = sqrt(abs((1 - x) * (1 + x))); J q(n, H(0));
  if (wantq) { q[0] = (log(abs(x + 1)) - log(abs(x - 1))) / 2; H ip = 1, im = 1; for (size_t i = 1; i < n; i++) { ip /= (x + 1); im /= (x - 1); int sg = i % 2 ? 1 : -1; q[i] = H(sg) * (ip - im) / H(2 * (int) i); } }
  H wm = 1; std::vector<H> fac(n, H(1)); for (size_t i = 1; i < n; i++) fac[i] = fac[i - 1] * H((int) i);
  for (int l = 0; l <= L; l++) { J Q; if (wantq) { Q = mul(P[l], q); for (size_t i = 0; i < n; i++) Q[i] -= W[l][i]; } wm = 1; for (size_t m = 0; m < n; m++) { H f = wm * fac[m] * ((cut && m % 2) ? -1 : 1); t.P[m * (L + 1) + l] = f * P[l][m]; if (wantq) t.Q[m * (L + 1) + l] = f * Q[m]; wm *= w; } }
  return t;
}
template <typename T> static T argument(vt::Source & s, int L) {
  T eps = std::numeric_limits<T>::epsilon(), x; T xc = L > 0 ? std::cosh(std::log(T(1000)) / (2 * L)) : T(3);
  switch (s.draw(8)) {
    case 0: x = T(s.real(-1, 1)); break;
    case 1: x = T(1) - T(s.logreal(1e-14, 0.5)); break;
    case 2: x = T(1) + T(s.logreal(1e-14, 0.5)); break;
    case 3: x = T(1) + T(s.logreal(1e-3, 50)); break;
    case 4: x = xc * (T(1) + (s.flag() ? T(1) : T(-1)) * T(s.logreal(1e-16, 0.3))); break;
    case 5: x = T(s.logreal(1.5, 1e4)); break;
    case 6: x = T(s.logreal(1e-12, 1)); break;
    default: x = T(s.range(-3, 3)) + (s.flag() ? eps * T(s.range(1, 4)) : T(0)); }
  if (s.flag(1, 4)) x = -x; return x;
}
static int degree(vt::Source & s) { return s.flag(1, 4) ? s.range(0, 4) : s.flag(1, 4) ? s.range(20, 60) : s.range(2, 25); }
template <typename T> static H up(T x) { return H(x); }
template <typename T> static double rel(T got, const H & want, const H & scale) { H d = up(got) - want; return (double) (boost::multiprecision::abs(d) / scale); }
template <typename T> static void first(vt::Source & s, vt::Ctx & c) {
  int L = degree(s), M = s.range(0, std::min(12, L + 3)); T x = argument<T>(s, L); c.d("lmax=%d mmax=%d x=%.21Lg", L, M, (long double) x); c.label("branch", std::abs(x) <= 1 ? "cut" : "outside"); c.nontrivial = L > 1 && M > 0;
  std::vector<T> out((size_t) (L + 1) * (M + 1), T(-77)); helfem::legendre::plm<T>(out.data(), L, M, x); Table t = reference(L, M, up(x), false); T eps = std::numeric_limits<T>::epsilon();
  for (int m = 0; m <= M; m++) for (int l = 0; l <= L; l++) { size_t i = (size_t) m * (L + 1) + l; if (m > l) { c.ok(out[i] == T(0), vt::fmt("P_%d^%d must be zero", l, m)); continue; }
    // scale: the entry or, near its zeros, the values next to it and the derivative
    H sc = boost::multiprecision::abs(t.P[i]); if (std::abs(x) < 1) { H w = boost::multiprecision::sqrt((1 - up(x)) * (1 + up(x))); H o = 0; for (int k = m; k <= l; k++) o = std::max(o, H(boost::multiprecision::abs(t.P[(size_t) m * (L + 1) + k]))); sc = o; (void) w; } if (sc == 0) { c.ok(out[i] == T(0), "zero entry"); continue; } double r = rel(out[i], t.P[i], sc) / (double) eps; c.evals++; if (!(r <= 20 + 6.0 * l + 0.5 * l * l)) c.fail(vt::fmt("P_%d^%d(%.17Lg): got %.21Lg, relative error %.3g epsilon", l, m, (long double) x, (long double) out[i], r)); }
  int L2 = L + s.range(0, 20), M2 = M + s.range(0, 4); std::vector<T> big((size_t) (L2 + 1) * (M2 + 1)); helfem::legendre::plm<T>(big.data(), L2, M2, x); for (int m = 0; m <= M; m++) for (int l = 0; l <= L; l++) c.ok(big[(size_t) m * (L2 + 1) + l] == out[(size_t) m * (L + 1) + l], "larger table");
}
template <typename T> static void second(vt::Source & s, vt::Ctx & c) {
  int L = degree(s), M = s.range(0, std::min(10, L + 2)); T x = argument<T>(s, L); T eps = std::numeric_limits<T>::epsilon(); if (std::abs(x) == T(1)) { std::vector<T> out((size_t) (L + 1) * (M + 1)); c.d("lmax=%d mmax=%d x=%Lg", L, M, (long double) x); c.throws([&] { helfem::legendre::qlm<T>(out.data(), L, M, x); }, "singular argument"); return; }
  if (std::abs(x) > 1) while (L > 1 && 2.0 * L * std::log10((double) std::abs(x) + std::sqrt((double) (x * x) - 1)) > 330) L /= 2;
  c.d("lmax=%d mmax=%d x=%.21Lg", L, M, (long double) x); T xc = L > 0 ? std::cosh(std::log(T(1000)) / (2 * L)) : T(1e9); c.label("regime", std::abs(x) <= 1 ? "cut" : std::abs(x) < xc ? "decomposition" : "continued fraction"); c.nontrivial = L > 1 && M > 0;
  std::vector<T> out((size_t) (L + 1) * (M + 1), T(-77)); helfem::legendre::qlm<T>(out.data(), L, M, x); Table t = reference(L, M, up(x), true);
  for (int m = 0; m <= M; m++) for (int l = 0; l <= L; l++) { size_t i = (size_t) m * (L + 1) + l; H sc = boost::multiprecision::abs(t.Q[i]); double amp = 20 + 10.0 * l;
    if (std::abs(x) < 1) { for (int k = 0; k <= l; k++) for (int q = 0; q <= m; q++) sc = std::max(sc, H(boost::multiprecision::abs(t.Q[(size_t) q * (L + 1) + k])) * (q == m ? H(1) : H(0))); if (l > 0) sc += boost::multiprecision::abs(t.P[i]); if (m > 1) { // upward in m: two terms that may cancel
        H w = boost::multiprecision::sqrt((1 - up(x)) * (1 + up(x))); sc += H(2 * (m - 1)) * boost::multiprecision::abs(up(x)) / w * boost::multiprecision::abs(t.Q[i - (L + 1)]) + H((l + m - 1) * std::abs(l - m + 2)) * boost::multiprecision::abs(t.Q[i - 2 * (L + 1)]); } amp = 40 + 20.0 * l + 40.0 * m * m + 4.0 * l * l; }
    else { double g = (double) std::abs(x) + std::sqrt((double) ((std::abs(x) - 1) * (std::abs(x) + 1))), kappa = std::pow(g, 2 * l + 1); // cancellation of the decomposition (documented), steps of the downward recurrence otherwise
      amp = std::abs(x) < xc ? 80 + 20.0 * (l + 1) * kappa : 100 + 60.0 * (L + 1); if (m > l) amp *= 4; }
    if (sc == 0) { c.ok(out[i] == T(0), "zero entry"); continue; }
    double r = rel(out[i], t.Q[i], sc) / (double) eps; c.evals++; if (!(r <= amp)) c.fail(vt::fmt("Q_%d^%d(%.21Lg): got %.21Lg, expected %.21Lg, relative error %.3g epsilon (allowed %.3g)", l, m, (long double) x, (long double) out[i], (long double) t.Q[i], r, amp)); }
}
VT_CHECK(first_kind_double, 6000, 60000, "degree above one and order above zero") { first<double>(s, c); }
VT_CHECK(first_kind_long, 3000, 30000, "degree above one and order above zero") { first<long double>(s, c); }
VT_CHECK(second_kind_double, 6000, 60000, "degree above one and order above zero") { second<double>(s, c); }
VT_CHECK(second_kind_long, 3000, 30000, "degree above one and order above zero") { second<long double>(s, c); }
// the relations the two kinds satisfy together: Wronskian-type (Casoratian) and the table does not depend on its size
template <typename T> static void relations(vt::Source & s, vt::Ctx & c) {
  int L = s.range(2, 20), M = s.range(0, std::min(4, L - 1)); T x = argument<T>(s, L); if (std::abs(x) == T(1) || std::abs(x) > 50) throw vt::Reject(); T eps = std::numeric_limits<T>::epsilon();
  c.d("lmax=%d mmax=%d x=%.21Lg", L, M, (long double) x); c.nontrivial = M > 0; size_t n = (size_t) (L + 1) * (M + 1); std::vector<T> P(n), Q(n); helfem::legendre::plm<T>(P.data(), L, M, x); helfem::legendre::qlm<T>(Q.data(), L, M, x);
  // (l-m+1) (P_{l+1} Q_l - P_l Q_{l+1}) = +-(l+m)!/(l-m)!
  for (int m = 0; m <= M; m++) for (int l = m; l < L; l++) { T f = 1; for (int k = l - m + 1; k <= l + m; k++) f *= T(k); size_t i = (size_t) m * (L + 1) + l; T a = T(l - m + 1) * P[i + 1] * Q[i], b = T(l - m + 1) * P[i] * Q[i + 1]; T want = (std::abs(x) > 1 && m % 2) ? -f : f; T tol = eps * T(6000 + 2000 * L) * (std::abs(a) + std::abs(b) + f); if (m > 1) tol *= 50; c.ok(std::abs(a - b - want) <= tol, vt::fmt("Casoratian l=%d m=%d: %.17Lg instead of %.17Lg", l, m, (long double) (a - b), (long double) want)); }
  int L2 = L + s.range(1, 15), M2 = M + s.range(0, 3); if (std::abs(x) > 1) { double g = (double) std::abs(x) + std::sqrt((double) (x * x - 1)); if (2 * L2 * std::log10(g) > 250) L2 = L; } std::vector<T> big((size_t) (L2 + 1) * (M2 + 1)); helfem::legendre::qlm<T>(big.data(), L2, M2, x);
  double g = (double) std::abs(x) + std::sqrt(std::max(0.0, (double) ((std::abs(x) - 1) * (std::abs(x) + 1))));
  for (int m = 0; m <= M; m++) for (int l = m; l <= L; l++) { T a = Q[(size_t) m * (L + 1) + l], b = big[(size_t) m * (L2 + 1) + l]; double amp = std::abs(x) <= 1 ? 0 : 400 + 40.0 * (l + 1) * std::min(1000.0 * g * g, std::pow(g, 2 * l + 1)) + 200 * L2; c.ok(std::abs(a - b) <= T(amp) * eps * std::abs(a), vt::fmt("Q_%d^%d changes with the table size: %.17Lg and %.17Lg", l, m, (long double) a, (long double) b)); }
  int bad = s.range(0, 3); std::vector<T> o(16); c.throws([&] { (bad & 1 ? helfem::legendre::plm<T> : helfem::legendre::qlm<T>)(o.data(), bad & 2 ? -1 - s.range(0, 3) : 1, bad & 2 ? 1 : -1 - s.range(0, 3), T(0.3)); }, "negative size");
}
VT_CHECK(relations_double, 6000, 60000, "order above zero") { relations<double>(s, c); }
VT_CHECK(relations_long, 3000, 30000, "order above zero") { relations<long double>(s, c); }
VT_CHECK(polynomial_batch, 4000, 40000, "several points and degree above two") {
  int L = s.range(0, 40), n = s.range(1, 8); helfem::Vec<double> x(n); for (int i = 0; i < n; i++) x(i) = s.flag(1, 6) ? (double) s.range(-1, 1) : s.flag(1, 5) ? s.real(-1.5, 1.5) : s.real(-1, 1); c.d("lmax=%d n=%d x0=%.17g", L, n, x(0)); c.nontrivial = n > 1 && L > 2;
  auto P = helfem::legendre::legendre_batch<double>(L, x), D = helfem::legendre::dlegendre_batch<double>(L, x), E = helfem::legendre::d2legendre_batch<double>(L, x); c.ok(P.rows() == n && P.cols() == L + 1 && D.rows() == n && D.cols() == L + 1 && E.rows() == n && E.cols() == L + 1, "shape");
  using F = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<60, boost::multiprecision::digit_base_10>, boost::multiprecision::et_off>;
  for (int i = 0; i < n; i++) { std::vector<std::array<F, 3>> p(L + 2); F X = x(i); p[0] = {F(1), F(0), F(0)}; p[1] = {X, F(1), F(0)}; for (int k = 1; k < L; k++) { F a = 2 * k + 1, b = k, d = k + 1; p[k + 1] = {(a * X * p[k][0] - b * p[k - 1][0]) / d, (a * (p[k][0] + X * p[k][1]) - b * p[k - 1][1]) / d, (a * (2 * p[k][1] + X * p[k][2]) - b * p[k - 1][2]) / d}; }
    double g[3] = {1, 1, 1}; for (int l = 0; l <= L; l++) { double v[3] = {P(i, l), D(i, l), E(i, l)}; for (int q = 0; q < 3; q++) { g[q] = std::max(g[q], std::abs((double) p[l][q])); double sc = std::max(g[q], std::pow((double) l + 1, 2.0 * q) * 0.2); c.close(v[q], (double) p[l][q], 1e-14 * (l + 2) * sc, 0, vt::fmt("derivative %d of P_%d(%.17g)", q, l, x(i))); } } }
}
VT_MAIN()
