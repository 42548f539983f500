// Radial two-electron reference integrals shared by the harnesses.
#pragma once
#include "gen.h"
#include <RadialBasis.h>
#include <CoulombExchangeFE.h>
#include <erfc_expn.h>
#include <utils.h>
#include <Eigen/Eigenvalues>
#include <boost/math/special_functions/bessel.hpp>
#include <boost/multiprecision/float128.hpp>
using namespace helfem; using namespace gen; using namespace helfem::atomic::basis;
using RB = FEMRadialBasis; using q128 = boost::multiprecision::float128;
static FEspec rspec(vt::Source & s, int maxel, int maxn, size_t cap) { FEspec e = fespec(s, 0.0, maxel, maxn, false); while (e.nbf() < 2) { e.N++; if (e.N > 4 && e.nbf() < 2) throw vt::Reject(); } if (e.nbf() > cap) throw vt::Reject(); return e; }
static double bare(int L, double a, double b) { double l = std::min(a, b), g = std::max(a, b); return std::pow(l / g, L) / g; }
static double yuk(int L, double lam, double a, double b) { double l = lam * std::min(a, b), g = lam * std::max(a, b); return boost::math::cyl_bessel_i(L + 0.5, l) * std::sqrt(M_PI / (2 * l)) * boost::math::cyl_bessel_k(L + 0.5, g) * std::sqrt(2 / (M_PI * g)); }
// multipole coefficient of erfc(R)/R: (2n+1)/2 int erfc(R)/R P_n(t) dt, R^2 = X^2+x^2-2Xxt, substituted to R
static double phiref(int n, double X, double x) {
  static std::vector<double> gx, gw; if (gx.empty()) gauss(60, gx, gw); static std::vector<q128> qx, qw;
  if (qx.empty()) { int N = 60; for (int i = 0; i < N; i++) { q128 z = gx[i], dp; for (int it = 0; it < 4; it++) { q128 p0 = 1, p1 = z; for (int k = 1; k < N; k++) { q128 p2 = ((2 * k + 1) * z * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } dp = N * (z * p1 - p0) / (z * z - 1); z -= p1 / dp; } qx.push_back(z); qw.push_back(2 / ((1 - z * z) * dp * dp)); } }
  q128 Xq = X, xq = x, lo = abs(Xq - xq), hi = Xq + xq, sum = 0; int np = std::max(1, (int) std::ceil((double) (hi - lo) / 2)); 
  for (int p = 0; p < np; p++) { q128 a = lo + (hi - lo) * p / np, b = lo + (hi - lo) * (p + 1) / np; for (size_t i = 0; i < qx.size(); i++) { q128 R = (a + b) / 2 + (b - a) / 2 * qx[i], t = (Xq * Xq + xq * xq - R * R) / (2 * Xq * xq), p0 = 1, p1 = t; if (n == 0) p1 = 1; for (int k = 1; k < n; k++) { q128 p2 = ((2 * k + 1) * t * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } sum += qw[i] * (b - a) / 2 * boost::multiprecision::erfc(R) * p1; } }
  return (double) ((2 * n + 1) * sum / (2 * Xq * xq));
}
static double philong(int n, double X, double x) {
  if (std::pow(std::max(X, x) / std::min(X, x), n) > 1e8) return phiref(n, X, x);
  static std::vector<double> gx, gw; if (gx.empty()) gauss(24, gx, gw); long double lo = fabsl((long double) X - x), hi = (long double) X + x, sum = 0; int np = std::max(1, (int) std::ceil((double) (hi - lo)));
  for (int p = 0; p < np; p++) { long double a = lo + (hi - lo) * p / np, b = lo + (hi - lo) * (p + 1) / np; for (size_t i = 0; i < gx.size(); i++) { long double R = (a + b) / 2 + (b - a) / 2 * gx[i], t = ((long double) X * X + (long double) x * x - R * R) / (2 * (long double) X * x), p0 = 1, p1 = n ? t : 1; for (int k = 1; k < n; k++) { long double p2 = ((2 * k + 1) * t * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } sum += gw[i] * (b - a) / 2 * erfcl(R) * p1; } }
  return (double) ((2 * n + 1) * sum / (2 * (long double) X * x));
}
using Ker = std::function<double(double, double)>;
// all integrals (ij|kl) over the whole basis, or over one element pair
static MatD refints(const FEspec & e, const Ker & k, int ie, int je, int no = 0, int ni = 0) {
  int deg = e.N * (e.order() + 1) - 1; if (!no) no = 2 * deg + 14; if (!ni) ni = deg + 14;
  int n = (int) e.nbf(); MatD G = MatD::Zero(n * n, n * n); std::vector<double> ox, ow, ix, iw; gauss(no, ox, ow); gauss(ni, ix, iw);
  // high multipoles vary over factors of r, and towards the nucleus the outer integrand has r^k log r terms: graded panels
  { std::vector<double> px, pw, br = {e.b[ie]}; if (ie == 0) { for (int k = 7; k > 0; k--) br.push_back(e.b[1] * std::pow(0.25, k)); } else for (double y = 2 * e.b[ie]; y < e.b[ie + 1]; y *= 2) br.push_back(y); br.push_back(e.b[ie + 1]); double H = 0.5 * (e.b[ie + 1] - e.b[ie]), M = 0.5 * (e.b[ie + 1] + e.b[ie]);
    for (size_t k = 0; k + 1 < br.size(); k++) for (int i = 0; i < no; i++) { px.push_back((0.5 * (br[k + 1] + br[k]) + 0.5 * (br[k + 1] - br[k]) * ox[i] - M) / H); pw.push_back(0.5 * (br[k + 1] - br[k]) * ow[i] / H); } ox = px; ow = pw; no = (int) ox.size(); }
  auto prod = [&](const MatD & f, int q) { VecD v(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v(i * n + j) = f(q, i) * f(q, j); return v; };
  MatD fo = e.eval(ox, 0, ie); double hi = 0.5 * (e.b[ie + 1] - e.b[ie]), hj = 0.5 * (e.b[je + 1] - e.b[je]);
  for (int o = 0; o < no; o++) { double r = e.coord(ox[o], ie); std::vector<double> xb = {-1, 1}; { double lo = ie == je ? r : std::max(e.b[je], 0.25 * e.b[je + 1]); xb = {-1}; if (ie == je || je == 0) { if (lo < e.b[je + 1]) xb.push_back((lo - e.coord(0, je)) / hj); } else lo = e.b[je]; for (double y = 2 * lo; y < e.b[je + 1]; y *= 2) xb.push_back((y - e.coord(0, je)) / hj); xb.push_back(1); } VecD V = VecD::Zero(n * n);
    for (size_t p = 0; p + 1 < xb.size(); p++) { double A = 0.5 * (xb[p + 1] - xb[p]), B = 0.5 * (xb[p + 1] + xb[p]); std::vector<double> x(ni); for (int q = 0; q < ni; q++) x[q] = B + A * ix[q]; MatD f = e.eval(x, 0, je); for (int q = 0; q < ni; q++) V += (iw[q] * A * hj * k(r, e.coord(x[q], je))) * prod(f, q); }
    G += ow[o] * hi * prod(fo, o) * V.transpose(); }
  return G;
}
static MatD sub(const MatD & G, int n, size_t a, size_t b, size_t c, size_t d) { int ni = (int) (b - a + 1), nj = (int) (d - c + 1); MatD r(ni * ni, nj * nj); for (int i = 0; i < ni; i++) for (int j = 0; j < ni; j++) for (int k = 0; k < nj; k++) for (int l = 0; l < nj; l++) r(i * ni + j, k * nj + l) = G((a + i) * n + a + j, (c + k) * n + c + l); return r; }

static MatD refglobal(const FEspec & e, const Ker & k, int no = 0, int ni = 0) { int n = (int) e.nbf(); MatD G = MatD::Zero(n * n, n * n); for (int i = 0; i < e.nel(); i++) for (int j = 0; j < e.nel(); j++) G += refints(e, k, i, j, no, ni); return G; }
