// LIBS: core general
// P11: spherical harmonics and Gaunt tables against Gauss-Legendre integrals of independently computed functions.
#include "sph.h"
#include "../src/general/gaunt.h"
#include "../src/general/spherical_harmonics.h"
using LD = sph::LD; using helfem::gaunt::GauntT;
VT_CHECK(harmonics, 4000, 60000, "degree above one and nonzero order") {
  int l = s.flag(1, 6) ? s.range(15, 60) : s.range(0, 14), m = s.range(-l, l); double x = s.flag(1, 8) ? s.pick({1.0, -1.0, 0.0}) : s.flag(1, 6) ? 1 - s.logreal(1e-12, 0.1) : s.real(-1, 1), phi = s.sym(7); c.d("l=%d m=%d cos=%.17g phi=%.17g", l, m, x, phi); c.nontrivial = l > 1 && m != 0; c.label("m", m < 0 ? "negative" : m > 0 ? "positive" : "zero");
  std::complex<double> y = spherical_harmonics(l, m, x, phi); std::complex<LD> r = sph::Y(l, m, x, phi); double tol = 2e-14 * (l + 1) * (l + 1);
  c.close(y.real(), (double) r.real(), tol, 0, "real part"); c.close(y.imag(), (double) r.imag(), tol, 0, "imaginary part");
  std::complex<double> z = spherical_harmonics(l, -m, x, phi); double sg = m % 2 ? -1 : 1; c.ok(std::abs(z - sg * std::conj(y)) <= 1e-13, "conjugation symmetry");
}
VT_CHECK(addition_theorem, 600, 6000, "degree above one") {
  int l = s.range(0, 25); double x = s.real(-1, 1), y = s.real(-1, 1), p = s.sym(7), q = s.sym(7); c.d("l=%d", l); c.nontrivial = l > 1; std::complex<double> a = 0; for (int m = -l; m <= l; m++) a += spherical_harmonics(l, m, x, p) * std::conj(spherical_harmonics(l, m, y, q));
  LD g = x * (LD) y + std::sqrt((1 - (LD) x * x) * (1 - (LD) y * y)) * std::cos((LD) (p - q)); g = std::max((LD) -1, std::min((LD) 1, g)); LD want = sph::theta1(l, 0, g) * std::sqrt((2 * l + 1) / (4 * sph::PI)); c.close(a.real(), (double) want, 1e-12 * (l + 1), 0, "addition theorem"); c.close(a.imag(), 0, 1e-12 * (l + 1), 0, "addition theorem, imaginary part");
}
template <typename T> struct Tab { int L, l, lp, mc; int cap; GauntT<T> t; };
template <typename T> static Tab<T> table(vt::Source & s, vt::Ctx & c) {
  bool wide = s.flag(1, 5); int big = wide ? 26 : 9; Tab<T> t; t.L = s.range(0, big); t.l = s.range(0, big); t.lp = s.range(0, big); t.mc = wide ? s.range(0, 4) : s.flag(1, 3) ? -1 : s.range(0, 10);
  t.t = GauntT<T>(t.L, t.l, t.lp, t.mc); int all = std::max(t.L, std::max(t.l, t.lp)); t.cap = t.mc < 0 ? all : std::min(t.mc, all); c.d("table Lmax=%d lmax=%d lpmax=%d mcap=%d; ", t.L, t.l, t.lp, t.mc); c.label("cap", t.mc < 0 ? "none" : t.mc < all ? "active" : "loose"); return t;
}
template <typename T> static void lookup(vt::Source & s, vt::Ctx & c) {
  Tab<T> t = table<T>(s, c); const double eps = 1e-13; int nz = 0;
  auto one = [&](int L, int M, int l, int m, int lp) {
    bool indeg = L >= 0 && l >= 0 && lp >= 0 && L <= t.L && l <= t.l && lp <= t.lp, inord = std::abs(M) <= L && std::abs(m) <= l; std::string w = vt::fmt("(%d,%d;%d,%d;%d,%d)", L, M, l, m, lp, M - m);
    if (!indeg || !inord) { c.ok(t.t.coeff(L, M, l, m, lp) == T(0), "must be zero " + w); return; }
    if (std::abs(M) > t.cap || std::abs(m) > t.cap) { c.throws([&] { t.t.coeff(L, M, l, m, lp); }, "outside the order window " + w); return; }
    T v = t.t.coeff(L, M, l, m, lp); bool zero = (L + l + lp) % 2 || lp < std::abs(L - l) || lp > L + l || std::abs(M - m) > lp; if (zero) { c.ok(v == T(0), "selection rule " + w); return; }
    LD r = sph::gaunt(L, M, l, m, lp, M - m); if (std::abs(r) > 1e-12L) nz++; c.close((double) v, (double) r, eps * (1 + 0.05 * (L + l + lp)), 0, "coefficient " + w); c.ok(std::abs((LD) v - helfem::gaunt::gaunt_coefficient_T<T>(L, M, l, m, lp, M - m)) <= 1e-15L, "direct evaluation " + w); };
  int mode = s.range(0, 2);
  if (mode == 0) for (int k = 0; k < 60; k++) one(s.range(-1, t.L + 2), s.range(-t.L - 1, t.L + 1), s.range(-1, t.l + 2), s.range(-t.l - 1, t.l + 1), s.range(-1, t.lp + 2));
  else if (mode == 1) for (int k = 0; k < 200; k++) { int L = s.range(0, t.L), l = s.range(0, t.l), lp = s.range(0, t.lp); int cL = std::min(L, t.cap), cl = std::min(l, t.cap); if ((L + l + lp) % 2) { if (lp < t.lp) lp++; else if (lp > 0) lp--; } one(L, s.range(-cL, cL), l, s.range(-cl, cl), lp); }
  else { int l = s.range(0, t.l), lp = s.range(0, t.lp), cl = std::min(l, t.cap); for (int m = -cl; m <= cl; m++) for (int L = 0; L <= t.L; L++) for (int M = -std::min(L, t.cap); M <= std::min(L, t.cap); M++) one(L, M, l, m, lp); }
  c.d("%d nonzero", nz); c.nontrivial = nz >= 5;
}
VT_CHECK(table_double, 1000, 15000, "at least five nonzero coefficients compared") { lookup<double>(s, c); }
VT_CHECK(table_long, 400, 4000, "at least five nonzero coefficients compared") { lookup<long double>(s, c); }
VT_CHECK(couplings, 500, 12000, "at least five nonzero couplings compared") {
  int lm = s.range(1, 12); int mc = s.flag() ? -1 : s.range(0, lm); int hi = lm + 5; bool shrink = s.flag(1, 3); GauntT<double> g(hi, shrink ? 5 : hi, hi, mc); int cap = mc < 0 ? hi : mc; c.d("couplings up to l=%d, order cap %d, lmax %d", lm, mc, shrink ? 5 : hi); int nz = 0;
  for (int k = 0; k < 60; k++) { int lj = s.range(0, lm), li = s.flag() ? s.range(std::max(0, lj - 5), std::min(lm, lj + 5)) : s.range(0, lm); int cj = std::min(lj, cap), ci = std::min(li, cap), mj = s.range(-cj, cj), mi = s.flag(1, 4) ? s.range(-ci, ci) : mj; if (std::abs(mi) > li) mi = 0; std::string w = vt::fmt("(%d,%d|%d,%d)", lj, mj, li, mi);
    auto I = [&](auto f, int d) { if (mi != mj) return 0.0; return (double) (sph::integral(lj, mj, li, mi, 0, 0, f, d) * std::sqrt(4 * sph::PI)); };
    struct Op { const char * n; double v; double r; } ops[] = {{"cos", g.cosine_coupling(lj, mj, li, mi), I([](LD x) { return x; }, 1)}, {"cos^2", g.cosine2_coupling(lj, mj, li, mi), I([](LD x) { return x * x; }, 2)}, {"cos^3", g.cosine3_coupling(lj, mj, li, mi), I([](LD x) { return x * x * x; }, 3)}, {"cos^4", g.cosine4_coupling(lj, mj, li, mi), I([](LD x) { return x * x * x * x; }, 4)}, {"cos^5", g.cosine5_coupling(lj, mj, li, mi), I([](LD x) { return x * x * x * x * x; }, 5)}, {"sin^2", g.sine2_coupling(lj, mj, li, mi), I([](LD x) { return 1 - x * x; }, 2)}, {"cos^2 sin^2", g.cosine2_sine2_coupling(lj, mj, li, mi), I([](LD x) { return x * x * (1 - x * x); }, 4)}};
    for (auto & o : ops) { if (std::abs(o.r) > 1e-12) nz++; c.close(o.v, o.r, 1e-13, 0, std::string(o.n) + " coupling " + w); } }
  c.nontrivial = nz >= 5;
}
VT_CHECK(modified, 500, 12000, "at least three nonzero coefficients compared") {
  int lb = s.range(0, 7), Lm = 2 * lb; int mc = s.flag() ? -1 : s.range(0, lb); GauntT<double> g(Lm + 2, std::max(2, Lm + 2), Lm + 2, mc < 0 ? -1 : 2 * mc); int cap = mc < 0 ? lb : mc; c.d("basis lmax=%d, order cap %d", lb, mc); int nz = 0;
  for (int k = 0; k < 60; k++) { int lj = s.range(0, lb), li = s.range(0, lb), mj = s.range(-std::min(lj, cap), std::min(lj, cap)), mi = s.range(-std::min(li, cap), std::min(li, cap)); int M = s.flag(1, 5) ? s.range(-Lm, Lm) : mj - mi; int lo = std::abs(mj - mi); if (lo > Lm) continue; int L = s.range(std::abs(M), std::max(std::abs(M), Lm)); std::string w = vt::fmt("(%d,%d;%d,%d;%d,%d)", lj, mj, L, M, li, mi);
    if (M != mj - mi) { c.ok(g.mod_coeff(lj, mj, L, M, li, mi) == 0, "order selection rule " + w); continue; }
    double r = (double) sph::integral(lj, mj, L, M, li, mi, [](LD x) { return x * x; }, 2); if (std::abs(r) > 1e-12) nz++; c.close(g.mod_coeff(lj, mj, L, M, li, mi), r, 1e-13, 0, "cos^2 coefficient from the table " + w); c.close(helfem::gaunt::modified_gaunt_coefficient(lj, mj, L, M, li, mi), r, 1e-13, 0, "cos^2 coefficient " + w); }
  c.nontrivial = nz >= 3;
}
VT_CHECK(product_expansion, 250, 6000, "both degrees above zero") {
  int l = s.range(0, 10), lp = s.range(0, 10), m = s.range(-l, l), mp = s.range(-lp, lp); GauntT<double> g(l + lp + s.range(0, 2), l + s.range(0, 3), lp + s.range(0, 3), s.flag() ? -1 : std::max(std::abs(m), std::abs(m + mp)) + s.range(0, 2)); double x = s.real(-1, 1), p = s.sym(7); c.d("Y(%d,%d) Y(%d,%d) at cos=%.17g phi=%.17g", l, m, lp, mp, x, p); c.nontrivial = l > 0 && lp > 0;
  std::complex<double> a = spherical_harmonics(l, m, x, p) * spherical_harmonics(lp, mp, x, p), b = 0; for (int L = 0; L <= l + lp; L++) if (std::abs(m + mp) <= L) b += g.coeff(L, m + mp, l, m, lp) * spherical_harmonics(L, m + mp, x, p); c.ok(std::abs(a - b) <= 1e-12 * (1 + l + lp), vt::fmt("product differs from its expansion by %.3g", std::abs(a - b)));
}
VT_MAIN()
