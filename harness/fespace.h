// Piecewise polynomials of a given degree and smoothness on given elements:
// eigenvalues of -u''/2 + V u in exactly that space (constraints projected out).
#pragma once
#include "oracle1d.h"
namespace fespace {
using oracle1d::Fun;
struct Space { std::vector<double> cuts; int degree = 1, smooth = 0; int left = 1, right = 1; /* derivatives 0..left-1 vanish at the left end, and so on */ };
// the space spanned by a primitive family with n nodes per element
inline Space family(int primbas, int n, const std::vector<double> & cuts, bool derivs) { int k = primbas == 5 || primbas == 101 ? 1 : primbas == 8 ? 2 : primbas == 9 ? 3 : 0; Space s; s.cuts = cuts; s.degree = (k + 1) * n - 1; s.smooth = k; s.left = s.right = derivs ? k + 1 : 1; return s; }
inline int dimension(const Space & s) { int ne = (int) s.cuts.size() - 1; return ne * (s.degree + 1) - (ne - 1) * (s.smooth + 1) - s.left - s.right; }
// Legendre polynomials and derivatives at x: d[k][n]
inline std::vector<std::vector<double>> leg(int n, int kmax, double x) { std::vector<std::vector<double>> d(kmax + 1, std::vector<double>(n + 1, 0.0)); for (int i = 0; i <= n; i++) { d[0][i] = i == 0 ? 1 : i == 1 ? x : ((2 * i - 1) * x * d[0][i - 1] - (i - 1) * d[0][i - 2]) / i; for (int k = 1; k <= kmax; k++) d[k][i] = i < k ? 0 : (i >= 2 ? d[k][i - 2] : 0) + (2 * i - 1) * d[k - 1][i - 1]; } return d; }
struct Problem { Eigen::MatrixXd N, T, D; int nb, ne; std::vector<double> cuts; };
inline Eigen::VectorXd solve(const Space & s, const Fun & V, const std::vector<double> & brk = {}, double kin = 1) {
  int nb = s.degree + 1, ne = (int) s.cuts.size() - 1, n = nb * ne; Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n); std::vector<double> q, w; oracle1d::gl(std::max(30, nb + 20), q, w);
  for (int e = 0; e < ne; e++) { double a = s.cuts[e], b = s.cuts[e + 1], h = (b - a) / 2; std::set<double> p = {a, b}; for (double x : brk) if (x > a + 1e-9 * h && x < b - 1e-9 * h) p.insert(x); { std::vector<double> more; double lo = 0; for (double x : p) { if (lo > 0 && a >= 0) for (double y = 2 * lo; y < 0.9 * x; y *= 2) more.push_back(y); lo = x; } p.insert(more.begin(), more.end()); } std::vector<double> pv(p.begin(), p.end()); for (size_t k = 0; k + 1 < pv.size(); k++) { double hh = (pv[k + 1] - pv[k]) / 2; for (size_t t = 0; t < q.size(); t++) { double r = pv[k] + hh * (1 + q[t]), x = (r - a) / h - 1; auto L = leg(s.degree, 1, x); double v = V(r); Eigen::VectorXd f(nb), g(nb); for (int i = 0; i < nb; i++) { double no = std::sqrt((2 * i + 1) / (2 * h)); f(i) = no * L[0][i]; g(i) = no * L[1][i] / h; } H.block(e * nb, e * nb, nb, nb) += w[t] * hh * (v * f * f.transpose() + 0.5 * kin * g * g.transpose()); } } }
  std::vector<Eigen::VectorXd> rows; auto put = [&](Eigen::VectorXd & row, int e, double x, int d, double sg) { double h = (s.cuts[e + 1] - s.cuts[e]) / 2; auto L = leg(s.degree, d, x); for (int i = 0; i < nb; i++) row(e * nb + i) += sg * std::sqrt((2 * i + 1) / (2 * h)) * L[d][i] / std::pow(h, d); };
  for (int d = 0; d < s.left; d++) { Eigen::VectorXd r = Eigen::VectorXd::Zero(n); put(r, 0, -1, d, 1); rows.push_back(r); } for (int d = 0; d < s.right; d++) { Eigen::VectorXd r = Eigen::VectorXd::Zero(n); put(r, ne - 1, 1, d, 1); rows.push_back(r); } for (int e = 0; e + 1 < ne; e++) for (int d = 0; d <= s.smooth; d++) { Eigen::VectorXd r = Eigen::VectorXd::Zero(n); put(r, e, 1, d, 1); put(r, e + 1, -1, d, -1); rows.push_back(r); }
  int m = (int) rows.size(); Eigen::MatrixXd C(n, m); for (int i = 0; i < m; i++) C.col(i) = rows[i].normalized(); Eigen::HouseholderQR<Eigen::MatrixXd> qr(C); Eigen::MatrixXd Q = qr.householderQ(); Eigen::MatrixXd N = Q.rightCols(n - m); Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(N.transpose() * H * N, Eigen::EigenvaluesOnly); return es.eigenvalues(); }
}
