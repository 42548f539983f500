// Independent solution of -u''/2 + V u = E u on [0,R], u(0)=u(R)=0: Lagrange
// elements on Chebyshev points, Gauss-Legendre panels, graded towards the origin.
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <vector>
#include <set>
#include <cmath>
namespace oracle1d {
using Fun = std::function<double(double)>;
inline void gl(int n, std::vector<double> & x, std::vector<double> & w) { x.resize(n); w.resize(n); for (int i = 0; i < n; i++) { double z = std::cos(M_PI * (i + 0.75) / (n + 0.5)), dp = 0; for (int it = 0; it < 100; it++) { double p0 = 1, p1 = 0; for (int k = 0; k < n; k++) { double p2 = p1; p1 = p0; p0 = ((2 * k + 1) * z * p1 - k * p2) / (k + 1); } dp = n * (z * p0 - p1) / (z * z - 1); double d = p0 / dp; z -= d; if (std::abs(d) < 1e-16) break; } x[i] = z; w[i] = 2 / ((1 - z * z) * dp * dp); } }
// all eigenvalues in ascending order; cuts: panel boundaries including both ends
inline Eigen::VectorXd solve(const Fun & V, std::vector<double> cuts, int N = 17, bool neumann = false) {
  std::vector<double> xn(N), wb(N); for (int i = 0; i < N; i++) { xn[i] = -std::cos(M_PI * i / (N - 1)); wb[i] = (i % 2 ? -1.0 : 1.0) * (i == 0 || i == N - 1 ? 0.5 : 1.0); } std::vector<double> q, qw; gl(40, q, qw);
  Eigen::MatrixXd f(40, N), g(40, N); for (int t = 0; t < 40; t++) { double den = 0; for (int j = 0; j < N; j++) den += wb[j] / (q[t] - xn[j]); for (int j = 0; j < N; j++) f(t, j) = wb[j] / (q[t] - xn[j]) / den; for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < N; k++) if (k != j) s += 1 / (q[t] - xn[k]); g(t, j) = f(t, j) * s; } }
  int ne = (int) cuts.size() - 1, n = ne * (N - 1) + 1; Eigen::MatrixXd S = Eigen::MatrixXd::Zero(n, n), H = S; for (int e = 0; e < ne; e++) { double h = (cuts[e + 1] - cuts[e]) / 2; Eigen::VectorXd ws(40), wv(40), wt(40); for (int t = 0; t < 40; t++) { double r = cuts[e] + h * (1 + q[t]); ws(t) = qw[t] * h; wv(t) = ws(t) * V(r); wt(t) = qw[t] / h; } S.block(e * (N - 1), e * (N - 1), N, N) += f.transpose() * ws.asDiagonal() * f; H.block(e * (N - 1), e * (N - 1), N, N) += f.transpose() * wv.asDiagonal() * f + 0.5 * g.transpose() * wt.asDiagonal() * g; }
  int m = n - (neumann ? 1 : 2); Eigen::GeneralizedSelfAdjointEigenSolver<Eigen::MatrixXd> es(H.block(1, 1, m, m), S.block(1, 1, m, m), Eigen::EigenvaluesOnly); return es.eigenvalues(); }
inline std::vector<double> levels(const Fun & V, double R, int, int Z, const std::vector<double> & brk) { std::set<double> cut = {0, R}; double a = 1.0 / std::max(1, Z); for (double x : {0.5, 1.5, 3.0, 6.0, 10.0, 16.0, 25.0, 40.0, 60.0, 90.0, 130.0}) if (x * a < 0.95 * R) cut.insert(x * a); for (double b : brk) if (b > 0 && b < R) cut.insert(b); std::vector<double> c(cut.begin(), cut.end()); auto e = solve(V, c); return std::vector<double>(e.data(), e.data() + std::min<Eigen::Index>(e.size(), 5)); }
// nuclear attraction of the finite models and their kinks
inline std::pair<Fun, std::vector<double>> nucleus(int model, int Z, double rms) { if (model == 1) { double mu = std::sqrt(1.5) / rms; return {[=](double r) { return -Z * std::erf(mu * r) / r; }, {rms, 3 * rms, 6 * rms}}; } if (model == 2) { double R = std::sqrt(5.0 / 3) * rms; return {[=](double r) { return r >= R ? -Z / r : -Z / (2 * R) * (3 - r * r / (R * R)); }, {R}}; } if (model == 3) return {[=](double r) { return r >= rms ? -Z / r : -Z / rms; }, {rms}}; return {[=](double r) { return -Z / r; }, {}}; }
// confining potential and its kinks; R: box size (Junquera form)
inline std::pair<Fun, std::vector<double>> confinement(int k, int N, double r0, double V, double sh, double R = 0) {
  if (k == 1) return {[=](double r) { return r < sh ? 0.0 : (r0 < 0 ? -1 : 1) * std::pow(std::abs(r0), -std::abs(N)) * std::pow(r - sh, N); }, {sh}};
  if (k == 2) { double a = std::abs(r0); return {[=](double r) { if (r < sh) return 0.0; double x = (r - sh) / a, t = 1, sum = 0; for (int i = 1; i <= N; i++) t *= x; for (int i = N; i < N + 400; i++) { sum += t; t *= x / (i + 1); } return sum; }, {sh}}; }
  if (k == 3) return {[=](double r) { return r < sh ? 0.0 : V; }, {sh}};
  if (k == 4) return {[=](double r) { return r <= sh ? 0.0 : V * std::exp(-(R - sh) / (r - sh)) / std::pow(R - r, N); }, {sh, sh + 0.1 * (R - sh), sh + 0.25 * (R - sh), sh + 0.5 * (R - sh), R - 0.1 * (R - sh), R - 0.01 * (R - sh)}};
  return {[](double) { return 0.0; }, {}};
}
}
