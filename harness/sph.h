// Independent spherical harmonics: normalised associated Legendre functions by
// their own recurrence in long double, Condon-Shortley phase, any sign of m.
#pragma once
#include "gen.h"
#include <complex>
namespace sph {
  using LD = long double; const LD PI = 3.14159265358979323846264338327950288L;
  // Theta(l,m), l = |m|..L with Y = Theta e^{i m phi}, int |Y|^2 = 1
  inline void theta(int L, int m, LD x, LD st, std::vector<LD> & out) {
    int a = std::abs(m); out.assign(L + 1, 0); if (a > L) return;
    LD v = std::sqrt(1 / (4 * PI)); for (int k = 1; k <= a; k++) v *= -st * std::sqrt((LD) (2 * k + 1) / (LD) (2 * k));
    if (m < 0 && (a & 1)) v = -v;
    out[a] = v; if (L > a) out[a + 1] = x * std::sqrt((LD) (2 * a + 3)) * v;
    for (int l = a + 2; l <= L; l++) { LD A = std::sqrt((LD) (4 * l * l - 1) / (LD) (l * l - a * a)), B = std::sqrt((LD) ((l - 1) * (l - 1) - a * a) / (LD) (4 * (l - 1) * (l - 1) - 1)); out[l] = A * (x * out[l - 1] - B * out[l - 2]); }
  }
  inline LD theta1(int l, int m, LD x) { if (std::abs(m) > l) return 0; std::vector<LD> t; theta(l, m, x, std::sqrt(std::max((LD) 0, (1 - x) * (1 + x))), t); return t[l]; }
  inline std::complex<LD> Y(int l, int m, LD x, LD phi) { return theta1(l, m, x) * std::exp(std::complex<LD>(0, m * phi)); }
  // Gauss-Legendre in long double
  inline const std::pair<std::vector<LD>, std::vector<LD>> & rule(int n) {
    static std::map<int, std::pair<std::vector<LD>, std::vector<LD>>> cache; auto & e = cache[n];
    if (e.first.empty()) { e.first.resize(n); e.second.resize(n); for (int i = 0; i < n; i++) { LD z = -std::cos(PI * (i + 0.75L) / (n + 0.5L)), dp = 1; for (int it = 0; it < 100; it++) { LD p0 = 1, p1 = z; for (int k = 1; k < n; k++) { LD p2 = ((2 * k + 1) * z * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } dp = n * (z * p1 - p0) / (z * z - 1); LD dz = p1 / dp; z -= dz; if (std::fabs(dz) < 1e-19L) break; } e.first[i] = z; e.second[i] = 2 / ((1 - z * z) * dp * dp); } }
    return e;
  }
  // values of Theta(l,m) at the nodes of an n-point rule, cached
  inline const std::vector<std::vector<LD>> & onrule(int n, int m, int L) {
    static std::map<std::pair<int, int>, std::vector<std::vector<LD>>> cache; auto & e = cache[{n, m}];
    if (e.empty() || (int) e[0].size() <= L) { auto & r = rule(n); e.assign(n, {}); for (int i = 0; i < n; i++) theta(L, m, r.first[i], std::sqrt((1 - r.first[i]) * (1 + r.first[i])), e[i]); }
    return e;
  }
  // int Y_L^M* f(cos) Y_l^m Y_lp^mp dOmega, f a polynomial of degree df
  template <typename F> LD integral(int L, int M, int l, int m, int lp, int mp, F f, int df) {
    if (M != m + mp || std::abs(M) > L || std::abs(m) > l || std::abs(mp) > lp) return 0;
    int n = (L + l + lp + df) / 2 + 2; n = (n + 7) / 8 * 8; auto & r = rule(n); int top = std::max(L, std::max(l, lp)); top = (top + 15) / 16 * 16;
    auto & a = onrule(n, M, top); LD s = 0; { auto & b = onrule(n, m, top); auto & c = onrule(n, mp, top); for (int i = 0; i < n; i++) s += r.second[i] * a[i][L] * b[i][l] * c[i][lp] * f(r.first[i]); } return 2 * PI * s;
  }
  inline LD gaunt(int L, int M, int l, int m, int lp, int mp) { return integral(L, M, l, m, lp, mp, [](LD) { return (LD) 1; }, 0); }
}
