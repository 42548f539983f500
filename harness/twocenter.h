// One electron in the field of two point charges: separation in prolate
// spheroidal coordinates, each factor solved by its own expansion.
#pragma once
#include "oracle1d.h"
namespace twocenter {
// lowest (k-th) eigenvalue of -d/deta[(1-eta^2) d/deta] + m^2/(1-eta^2) - p2 eta^2 - q eta in normalised P_l^m
inline double angular(double p2, double q, int m, int k) { const int n = 40; Eigen::MatrixXd E = Eigen::MatrixXd::Zero(n + 1, n + 1), H = Eigen::MatrixXd::Zero(n, n); for (int i = 0; i < n; i++) { double l = m + i + 1; E(i, i + 1) = E(i + 1, i) = std::sqrt((l * l - m * m) / (4 * l * l - 1)); } Eigen::MatrixXd E2 = E * E; for (int i = 0; i < n; i++) H(i, i) = (m + i) * (m + i + 1.0); H -= p2 * E2.topLeftCorner(n, n) + q * E.topLeftCorner(n, n); return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(H, Eigen::EigenvaluesOnly).eigenvalues()(k); }
// the radial factor on elements in mu with xi = cosh(mu); X vanishes at mumax and, for m>0, at 0
struct Radial { Eigen::MatrixXd S, K, C1, C2, M; int n;
  Radial(double mumax, int ne = 8, int N = 14) { std::vector<double> xn(N), wb(N), q, qw; for (int i = 0; i < N; i++) { xn[i] = -std::cos(M_PI * i / (N - 1)); wb[i] = (i % 2 ? -1.0 : 1.0) * (i == 0 || i == N - 1 ? 0.5 : 1.0); } const int Q = 34; oracle1d::gl(Q, q, qw); Eigen::MatrixXd f(Q, N), g(Q, N); for (int t = 0; t < Q; t++) { double den = 0; for (int j = 0; j < N; j++) den += wb[j] / (q[t] - xn[j]); for (int j = 0; j < N; j++) { f(t, j) = wb[j] / (q[t] - xn[j]) / den; double s = 0; for (int k = 0; k < N; k++) if (k != j) s += 1 / (q[t] - xn[k]); g(t, j) = f(t, j) * s; } }
    n = ne * (N - 1) + 1; S = K = C1 = C2 = M = Eigen::MatrixXd::Zero(n, n); for (int e = 0; e < ne; e++) { double h = mumax / ne / 2; Eigen::VectorXd s(Q), k(Q), c1(Q), c2(Q), m(Q); for (int t = 0; t < Q; t++) { double u = mumax / ne * e + h * (1 + q[t]), w = qw[t] * h, sh = std::sinh(u), ch = std::cosh(u); s(t) = w * sh; k(t) = w * sh / (h * h); c1(t) = w * sh * ch; c2(t) = w * sh * ch * ch; m(t) = w / sh; } auto B = [&](Eigen::MatrixXd & A, const Eigen::MatrixXd & x, const Eigen::VectorXd & w) { A.block(e * (N - 1), e * (N - 1), N, N) += x.transpose() * w.asDiagonal() * x; }; B(S, f, s); B(K, g, k); B(C1, f, c1); B(C2, f, c2); B(M, f, m); } }
  double level(double p2, double q, int m, int k) const { int o = m ? 1 : 0, d = n - 1 - o; Eigen::MatrixXd H = K + p2 * C2 - q * C1; if (m) H += double(m * m) * M; Eigen::GeneralizedSelfAdjointEigenSolver<Eigen::MatrixXd> es(H.block(o, o, d, d), S.block(o, o, d, d), Eigen::EigenvaluesOnly); return es.eigenvalues()(k); } };
// electronic level of charges Z1, Z2 at distance R with kx radial and ke angular nodes, |m|
inline double level(double Z1, double Z2, double R, double mumax, int m, int kx = 0, int ke = 0) { Radial rad(mumax); auto F = [&](double E) { double p2 = -E * R * R / 2; return rad.level(p2, R * (Z1 + Z2), m, kx) + angular(p2, R * (Z1 - Z2), m, ke); }; double lo = -(Z1 + Z2) * (Z1 + Z2) / 2 - 0.1, hi = lo; double f0 = F(lo); // F decreases with E
  double step = 0.05 * (Z1 + Z2) * (Z1 + Z2); while (true) { hi += step; if (F(hi) * f0 <= 0) break; lo = hi; if (hi > 50 * (Z1 + Z2) * (Z1 + Z2) + 50) return NAN; } bool s0 = f0 > 0; for (int i = 0; i < 70 && hi - lo > 1e-13 * (1 + std::abs(lo)); i++) { double mid = (lo + hi) / 2; if ((F(mid) > 0) == s0) lo = mid; else hi = mid; } return (lo + hi) / 2; }
}
