// Reference two-electron integrals in prolate spheroidal coordinates.
#pragma once
#include "diatgen.h"
// P_L^M(cosh mu) and |Q_L^M(cosh mu)| for M <= L <= top, Hobson normalisation
struct PQ { int top, cap; std::vector<std::vector<LD>> P, Q; // [M][L]
  PQ(int t, int m) : top(t), cap(m), P(m + 1, std::vector<LD>(t + 2, 0)), Q(m + 1, std::vector<LD>(t + 2, 0)) {}
  void eval(LD mu, bool wantq) { LD x = std::cosh(mu), s = std::sinh(mu), pm = 1; for (int M = 0; M <= cap; M++) { auto & p = P[M]; if (M) pm *= (2 * M - 1) * s; std::fill(p.begin(), p.end(), 0); p[M] = pm; p[M + 1] = x * (2 * M + 1) * pm; for (int L = M + 2; L <= top + 1 && L < (int) p.size(); L++) p[L] = ((2 * L - 1) * x * p[L - 1] - (L + M - 1) * p[L - 2]) / (L - M); }
    if (!wantq) return; if (mu * (top + 1) < 1) { LD q0 = std::log1p(2 / std::expm1(mu)); auto & q = Q[0]; q[0] = q0; q[1] = (mu < 1 ? x * q0 - 1 : 0); for (int L = 2; L <= top; L++) q[L] = ((2 * L - 1) * x * q[L - 1] - (L - 1) * q[L - 2]) / L; std::vector<LD> sg = q; for (int M = 0; M < cap; M++) { std::vector<LD> n(top + 2, 0); for (int L = 1; L <= top; L++) n[L] = ((L - M) * x * sg[L] - (L + M) * sg[L - 1]) / s; n[0] = M == 0 ? -1 / s : 0; if (M > 0) { /* degrees below the order: from the definition, by raising Q_0 */ LD a = 0; (void) a; n[0] = lowest(M + 1, x, s); } sg = n; for (int L = M + 1; L <= top; L++) Q[M + 1][L] = std::fabs(sg[L]); } }
    else for (int M = 0; M <= cap; M++) { auto & q = Q[M]; auto & p = P[M]; int N = top + 40 + (int) (30 / (double) mu); LD r = std::exp(-mu); std::vector<LD> rr(top + 2, 0); for (int L = N; L > M; L--) { r = (L + M) / ((2 * L + 1) * x - (L - M + 1) * r); if (L - 1 <= top) rr[L - 1] = r; } LD f = 1; for (int k = 2; k <= 2 * M; k++) f *= k; q[M] = f / (p[M + 1] - p[M] * rr[M]); for (int L = M + 1; L <= top; L++) q[L] = q[L - 1] * rr[L - 1]; } }
  // (x^2-1)^{M/2} d^M/dx^M Q_0 with Q_0 = (log(x+1)-log(x-1))/2
  static LD lowest(int M, LD x, LD s) { LD f = 1; for (int k = 2; k < M; k++) f *= k; LD sg = M % 2 ? 1 : -1, xm = s * s / (x + 1); return 0.5L * f * sg * std::pow(s, M) * (std::pow(x + 1, -M) - std::pow(xm, -M)); } };
// radial integrals  T_ab(ij,kl) = int int w_a f_i f_j(1) P(min) Q(max) w_b f_k f_l(2),  w_0 = sinh, w_2 = sinh cosh^2; n^2 x n^2
struct DEri { const DSpec & p; int n, na, cap, top; std::vector<std::vector<MatD>> T[3]; // [00,02,22][M][L]
  std::vector<double> g[2]; std::vector<double> F; double big = 0;
  int gi(int a, int b, int L) const { return (a * na + b) * (top + 1) + L; }
  double cp(int ch, int a, int b, int L) const { return g[ch][gi(a, b, L)]; }
  DEri(const DSpec & q, bool integrals = true) : p(q) { n = p.nr(); na = p.na(); int mm = p.m.cwiseAbs().maxCoeff(); cap = p.m.maxCoeff() - p.m.minCoeff(); (void) mm; top = 2 * p.l.maxCoeff() + 2; cap = std::min(cap, top); for (int ch = 0; ch < 2; ch++) { g[ch].assign((size_t) na * na * (top + 1), 0); for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) { int M = p.m(a) - p.m(b); for (int L = std::abs(M); L <= top; L++) g[ch][gi(a, b, L)] = (double) (ch ? sph::integral(p.l(a), p.m(a), L, M, p.l(b), p.m(b), [](LD) { return (LD) -1; }, 0) : sph::integral(p.l(a), p.m(a), L, M, p.l(b), p.m(b), [](LD x) { return x * x; }, 2)); } }
    // channel 0 carries cos^2 with the plain weight, channel 1 carries -1 with the cosh^2 weight
    if (integrals) radial(); }
  double fac(int L, int M) const { M = std::abs(M); double f = 4 * M_PI * std::pow(p.R, 5); for (int k = L - M + 1; k <= L + M; k++) f /= k; return f; }
  bool used(int L, int M) const { for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) if (std::abs(p.m(a) - p.m(b)) == M && (std::abs(cp(0, a, b, L)) > 1e-14 || std::abs(cp(1, a, b, L)) > 1e-14)) return true; return false; }
  void radial(int only = -1) {
    struct Pan { double a, b; int el; }; std::vector<Pan> pan; for (int el = 0; el < p.e.nel(); el++) { double a = p.e.b[el], b = p.e.b[el + 1]; std::vector<double> br; if (el == 0) { br.push_back(0); for (int k = 9; k > 0; k--) br.push_back(b * std::pow(0.25, k)); } else { br.push_back(a); for (double y = 2 * a; y < b; y *= 2) br.push_back(y); } br.push_back(b); for (size_t i = 0; i + 1 < br.size(); i++) if (only < 0 || el == only) pan.push_back({br[i], br[i + 1], el}); }
    int deg = p.e.N * (p.e.order() + 1) - 1, np = deg + 16; std::vector<double> gx, gw; gauss(np, gx, gw); int N2 = n * (n + 1) / 2; std::vector<std::vector<char>> us(cap + 1, std::vector<char>(top + 1, 0)); for (int M = 0; M <= cap; M++) for (int L = M; L <= top; L++) us[M][L] = used(L, M); PQ f(top, cap);
    auto row = [&](const MatD & v, int q, VecD & o) { int k = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) o(k++) = v(q, i) * v(q, j); };
    // D_ab = int_{x<y} P(x) w_a ff(x) Q(y) w_b ff(y)
    std::vector<std::vector<MatD>> D[2][2]; std::vector<std::vector<VecD>> low[2]; for (int a = 0; a < 2; a++) { low[a].assign(cap + 1, std::vector<VecD>(top + 1)); for (int b = 0; b < 2; b++) D[a][b].assign(cap + 1, std::vector<MatD>(top + 1)); for (int M = 0; M <= cap; M++) for (int L = M; L <= top; L++) if (us[M][L]) { low[a][M][L] = VecD::Zero(N2); for (int b = 0; b < 2; b++) D[a][b][M][L] = MatD::Zero(N2, N2); } }
    VecD oo(N2), in(N2); for (auto & P : pan) { double h = 0.5 * (P.b - P.a), mid = 0.5 * (P.a + P.b), H = 0.5 * (p.e.b[P.el + 1] - p.e.b[P.el]), C = 0.5 * (p.e.b[P.el + 1] + p.e.b[P.el]); std::vector<double> xo(np); for (int q = 0; q < np; q++) xo[q] = (mid + h * gx[q] - C) / H; MatD fo = p.e.eval(xo, 0, P.el);
      std::vector<std::vector<VecD>> lp[2]; for (int a = 0; a < 2; a++) lp[a] = low[a];
      for (int q = 0; q < np; q++) { double y = mid + h * gx[q]; row(fo, q, oo); f.eval(y, true); auto Pm = f.P; auto Qm = f.Q; double wy = h * gw[q] * std::sinh(y), c2 = std::cosh(y) * std::cosh(y); std::vector<std::vector<VecD>> acc[2]; for (int a = 0; a < 2; a++) acc[a] = lp[a];
        std::vector<double> xi(np); for (int k = 0; k < np; k++) xi[k] = (0.5 * (P.a + y) + 0.5 * (y - P.a) * gx[k] - C) / H; MatD fi = p.e.eval(xi, 0, P.el); for (int k = 0; k < np; k++) { double x = 0.5 * (P.a + y) + 0.5 * (y - P.a) * gx[k]; f.eval(x, false); row(fi, k, in); double wx = 0.5 * (y - P.a) * gw[k] * std::sinh(x), d2 = std::cosh(x) * std::cosh(x); for (int M = 0; M <= cap; M++) for (int L = M; L <= top; L++) if (us[M][L]) { double t = wx * (double) f.P[M][L]; acc[0][M][L] += t * in; acc[1][M][L] += t * d2 * in; } }
        for (int M = 0; M <= cap; M++) for (int L = M; L <= top; L++) if (us[M][L]) { double t = wy * (double) Qm[M][L], u = wy * (double) Pm[M][L]; for (int a = 0; a < 2; a++) { D[a][0][M][L].noalias() += (t * acc[a][M][L]) * oo.transpose(); D[a][1][M][L].noalias() += (t * c2 * acc[a][M][L]) * oo.transpose(); } low[0][M][L] += u * oo; low[1][M][L] += u * c2 * oo; } } }
    for (int k = 0; k < 3; k++) T[k].assign(cap + 1, std::vector<MatD>(top + 1)); std::vector<int> map(n * n); { int k = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { map[i * n + j] = map[j * n + i] = k++; } }
    for (int M = 0; M <= cap; M++) for (int L = M; L <= top; L++) if (us[M][L]) for (int k = 0; k < 3; k++) { int a = k == 2, b = k > 0; MatD S = D[a][b][M][L] + D[b][a][M][L].transpose(); MatD G(n * n, n * n); for (int i = 0; i < n * n; i++) for (int j = 0; j < n * n; j++) G(i, j) = S(map[i], map[j]); T[k][M][L] = G; big = std::max(big, fac(L, M) * G.cwiseAbs().maxCoeff()); } }
  MatD t(int a, int b, int L, int M) const { M = std::abs(M); if (a == 0 && b == 0) return T[0][M][L]; if (a == 0) return T[1][M][L]; if (b == 0) return T[1][M][L].transpose(); return T[2][M][L]; }
  // full-space (with the functions that are dropped) contraction, then selection
  MatD grow(const MatD & P) const { auto l = p.list(); MatD X = MatD::Zero(n * na, n * na); for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) X(l[i].first * n + l[i].second, l[j].first * n + l[j].second) = P(i, j); return X; }
  MatD cut(const MatD & X) const { auto l = p.list(); MatD P(l.size(), l.size()); for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) P(i, j) = X(l[i].first * n + l[i].second, l[j].first * n + l[j].second); return P; }
  MatD J(const MatD & Pp) const { MatD P = grow(Pp), r = MatD::Zero(n * na, n * na); for (int M = -cap; M <= cap; M++) for (int L = std::abs(M); L <= top; L++) { if (!used(L, std::abs(M))) continue; VecD v[2] = {VecD::Zero(n * n), VecD::Zero(n * n)}; for (int ch = 0; ch < 2; ch++) for (int c = 0; c < na; c++) for (int d = 0; d < na; d++) if (p.m(c) - p.m(d) == M) { double x = cp(ch, c, d, L); if (x) for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) v[ch](k * n + l) += x * P(c * n + k, d * n + l); }
      for (int ch = 0; ch < 2; ch++) { VecD w = fac(L, M) * (t(ch, 0, L, M) * v[0] + t(ch, 1, L, M) * v[1]); for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) if (p.m(b) - p.m(a) == M) { double x = cp(ch, b, a, L); if (x) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(a * n + i, b * n + j) += x * w(i * n + j); } } } return cut(r); }
  MatD K(const MatD & Pp) const { MatD P = grow(Pp), r = MatD::Zero(n * na, n * na); for (int b = 0; b < na; b++) for (int c = 0; c < na; c++) for (int M = -cap; M <= cap; M++) for (int L = std::abs(M); L <= top; L++) { if (!used(L, std::abs(M))) continue; for (int ch = 0; ch < 2; ch++) for (int dh = 0; dh < 2; dh++) { MatD Q = MatD::Zero(n, n); bool any = false; for (int a = 0; a < na; a++) for (int d = 0; d < na; d++) if (p.m(b) - p.m(a) == M && p.m(c) - p.m(d) == M) { double x = cp(ch, b, a, L) * cp(dh, c, d, L); if (x) { any = true; Q += x * P.block(a * n, d * n, n, n); } } if (!any) continue; MatD X = t(ch, dh, L, M); for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) { double v = 0; for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) v += X(i * n + j, k * n + l) * Q(i, l); r(b * n + j, c * n + k) -= fac(L, M) * v; } } } return cut(r); }
};
