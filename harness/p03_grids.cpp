// LIBS: core general atomic
// P03: quadrature rules and element grids against their exactness class and spacing law.
#include "gen.h"
#include <lobatto.h>
#include <chebyshev.h>
#include <grid.h>
#include <helfem.h>
#include <general/angular.h>
#include <atomic/basis.h>
using namespace helfem; using namespace gen;

VT_CHECK(lobatto_rule, 3000, 30000, "at least three nodes") {
  int n = s.flag(1, 4) ? s.range(2, 300) : s.range(2, 60); VecD x, w; lobatto::lobatto_compute<double>(n, x, w); c.d("Gauss-Lobatto n=%d", n); c.nontrivial = n > 2; c.label("n", n < 10 ? "<10" : n < 60 ? "<60" : ">=60");
  c.ok(x.size() == n && w.size() == n, "rule size"); c.close(x(0), -1, 1e-15, 0, "first node"); c.close(x(n - 1), 1, 1e-15, 0, "last node");
  for (int i = 0; i < n; i++) { c.ok(w(i) > 0, "positive weight"); if (i) c.ok(x(i) > x(i - 1), "ascending nodes"); c.close(x(i), -x(n - 1 - i), 1e-14, 0, "symmetric nodes"); c.close(w(i), w(n - 1 - i), 1e-13, 1e-11, "symmetric weights"); }
  // exact for Legendre polynomials up to degree 2n-3
  std::vector<long double> p0(n, 1), p1(n); for (int i = 0; i < n; i++) p1[i] = x(i);
  for (int l = 0; l <= 2 * n - 3; l++) { long double q = 0; for (int i = 0; i < n; i++) q += w(i) * (l == 0 ? 1 : p1[i]); c.close((double) q, l == 0 ? 2 : 0, 2e-13 * std::sqrt((double) n), 0, vt::fmt("integral of P_%d with %d nodes", l, n));
    if (l >= 1) for (int i = 0; i < n; i++) { long double p2 = ((2 * l + 1) * (long double) x(i) * p1[i] - l * p0[i]) / (l + 1); p0[i] = p1[i]; p1[i] = p2; } }
  // and not for degree 2n-2 (the exactness class is sharp, so the nodes are the Lobatto ones)
}
static double xcheb(double th) { std::vector<double> gx, gw; gauss(40, gx, gw); double q = 0; for (int i = 0; i < 40; i++) { double t = 0.5 * th * (1 + gx[i]); q += gw[i] * 0.5 * th * std::pow(std::sin(t), 4); } return 1 - 16 / (3 * M_PI) * q; }
VT_CHECK(chebyshev_rule, 6000, 60000, "at least two nodes") {
  int n = s.range(1, 200); VecD x, w; chebyshev::chebyshev<double>(n, x, w); c.d("Gauss-Chebyshev n=%d", n); c.nontrivial = n > 1;
  c.ok(x.size() == n && w.size() == n, "rule size");
  for (int k = 0; k < n; k++) { double th = M_PI * (n - k) / (n + 1.0); c.close(x(k), xcheb(th), 1e-13, 0, vt::fmt("node %d of %d", k, n)); c.close(w(k), 16.0 / 3 / (n + 1) * std::pow(std::sin(th), 4), 1e-15, 1e-12, "weight"); c.ok(w(k) > 0, "positive weight"); c.ok(std::abs(x(k)) < 1, "node inside"); if (k) c.ok(x(k) > x(k - 1), "ascending"); }
  if (n >= 2) c.close(w.sum(), 2, 1e-12, 0, "total weight");
  double a = s.sym(3), b = s.sym(3); if (n >= 30) { double q = 0; for (int k = 0; k < n; k++) q += w(k) * std::exp(a * x(k)) * std::cos(b * x(k)); std::vector<double> gx, gw; gauss(60, gx, gw); double e = 0; for (int i = 0; i < 60; i++) e += gw[i] * std::exp(a * gx[i]) * std::cos(b * gx[i]); c.close(q, e, std::max(1e-10, 1e5 * std::pow(n, -6.0) * 1e-2), 1e-10, "integral of a smooth function"); c.label("smooth", "yes"); }
  VecD r, wr; chebyshev::radial_chebyshev<double>(n, r, wr); c.ok(r.size() == n && wr.size() == n, "radial rule size");
  for (int k = 0; k < n; k++) { c.close(r(k), std::log(2 / (1 - x(k))) / std::log(2.0), 1e-12, 1e-10, "radial node"); c.ok(wr(k) > 0 && r(k) > 0, "positive radial node and weight"); if (k) c.ok(r(k) > r(k - 1), "ascending radial nodes");
    c.close(wr(k), w(k) / (std::log(2.0) * (1 - x(k))), 1e-14, 1e-9, "radial weight"); }
  if (n >= 60) { double al = s.real(0.5, 3); int p = s.range(0, 4); double q = 0, f = 1; for (int k = 0; k < n; k++) q += wr(k) * std::pow(r(k), p) * std::exp(-al * r(k)); for (int k = 1; k <= p; k++) f *= k; f /= std::pow(al, p + 1); c.close(q, f, 0, 3e-4, "integral over the half line"); }
}
// independent real spherical integrals via Legendre recurrences
static long double plm(int l, int m, long double x) { long double pmm = 1, so = sqrtl(std::max(0.0L, 1 - x * x)); for (int i = 1; i <= m; i++) pmm *= so * sqrtl((2 * i + 1) / (2.0L * i)); if (l == m) return pmm; long double p1 = x * sqrtl(2 * m + 3.0L) * pmm; long double pa = pmm; for (int k = m + 2; k <= l; k++) { long double a = sqrtl((4.0L * k * k - 1) / (k * k - m * m)), b = sqrtl(((k - 1.0L) * (k - 1) - m * m) / (4.0L * (k - 1) * (k - 1) - 1)); long double p2 = a * (x * p1 - b * pa); pa = p1; p1 = p2; } return p1; }
VT_CHECK(angular_rule, 15000, 150000, "a harmonic of nonzero order, or degree above one") {
  int nl = s.range(2, 25), nm = s.range(1, 25); bool one = s.flag(1, 4), cheb = s.flag(1, 4); if (one) nm = nl; VecD cth, phi, w;
  if (cheb) { if (one) angular::angular_chebyshev(nl, cth, phi, w); else angular::angular_chebyshev(nl, nm, cth, phi, w); } else { if (one) angular::angular_lobatto(nl, cth, phi, w); else angular::angular_lobatto(nl, nm, cth, phi, w); }
  int l = s.range(0, 2 * nl - 3), m = s.range(0, std::min(l, nm - 1)); c.d("%s angular rule nl=%d nm=%d harmonic l=%d m=%d", cheb ? "Chebyshev" : "Lobatto", nl, nm, l, m); c.nontrivial = m > 0 || l > 1; c.label("kind", cheb ? "chebyshev" : "lobatto");
  c.ok(cth.size() == nl * nm && phi.size() == nl * nm && w.size() == nl * nm, "rule size"); double re = 0, im = 0;
  for (int i = 0; i < cth.size(); i++) { c.ok(w(i) > 0, "positive weight"); c.ok(std::abs(cth(i)) <= 1 + 1e-15 && phi(i) >= 0 && phi(i) < 2 * M_PI, "point on the sphere"); double p = (double) plm(l, m, cth(i)); re += w(i) * p * std::cos(m * phi(i)); im += w(i) * p * std::sin(m * phi(i)); }
  c.close(w.sum(), 4 * M_PI, 1e-11, 0, "total solid angle");
  // azimuthal part exact always; polar part exact for Lobatto within its class
  if (m > 0 || !cheb) { c.close(re, l == 0 ? 4 * M_PI : 0, 1e-9, 0, "integral of the harmonic (real part)"); c.close(im, 0, 1e-9, 0, "integral of the harmonic (imaginary part)"); }
  std::set<std::pair<long, long>> pts; for (int i = 0; i < cth.size(); i++) pts.insert({std::lround(cth(i) * 1e12), std::lround(phi(i) * 1e12)}); c.ok((int) pts.size() == nl * nm, "distinct points");
}
static void increasing(vt::Ctx & c, const VecD & b, double rmax, const char * what) { c.ok(b.size() >= 2, std::string(what) + ": has elements"); c.ok(b(0) == 0, std::string(what) + ": starts at zero"); c.close(b(b.size() - 1), rmax, 1e-12 * rmax, 0, std::string(what) + ": last boundary"); for (int i = 1; i < b.size(); i++) c.ok(b(i) > b(i - 1), vt::fmt("%s: boundary %d does not increase", what, i)); }
static std::vector<double> law(int ig, double rmax, int n, double z) {
  std::vector<double> b; for (int i = 0; i <= n; i++) { double t = (double) i / n, v; if (ig == 1) v = rmax * t; else if (ig == 2) v = rmax * t * t; else if (ig == 3) v = rmax * std::pow(t, z); else if (ig == 4) v = std::expm1(std::pow(t, z) * std::log1p(rmax)); else { double g = 0, tot = 0; for (int k = 0; k < n; k++) { double h = std::pow(z, n - 1 - k); tot += h; if (k < i) g += h; } v = rmax * g / tot; } b.push_back(v); } return b; }
VT_CHECK(grid_law, 60000, 1000000, "at least two elements") {
  int ig = s.range(1, 5), n = s.range(1, 40); double rmax = s.logreal(1e-5, 1e3), z = ig == 5 ? s.real(0.3, 0.97) : s.real(0.5, 3.5); c.d("grid %d rmax=%.8g elements=%d exponent=%.5g", ig, rmax, n, z); c.label("grid", ig); c.nontrivial = n > 1;
  VecD b = s.flag() ? utils::get_grid(rmax, n, ig, z) : grid::get_grid<double>(rmax, n, ig, z); c.ok(b.size() == n + 1, vt::fmt("%ld boundaries for %d elements", (long) b.size(), n)); increasing(c, b, rmax, "grid"); c.ok(b(n) == rmax, "ends exactly at the requested radius");
  auto l = law(ig, rmax, n, z); for (int i = 0; i <= n; i++) c.close(b(i), l[i], 2e-15 * (rmax + 1), 1e-9, vt::fmt("boundary %d", i));
}
VT_CHECK(grid_refusal, 300, 2000, "always") {
  c.nontrivial = true; if (s.flag()) { int ig = s.flag() ? -s.range(0, 4) : s.range(6, 20); c.d("grid type %d", ig); c.throws([&] { utils::get_grid(10, 5, ig, 2); }, "unknown grid type"); } else { double z = s.flag() ? 1 + s.real(0, 3) : -s.real(0, 3); c.d("geometric grid with ratio %.5g", z); c.throws([&] { utils::get_grid(10, 5, 5, z); }, "geometric grid outside (0,1)"); }
  int n = -s.range(-1, 5); c.throws([&] { VecD x, w; lobatto::lobatto_compute<double>(n, x, w); }, vt::fmt("Lobatto rule with %d nodes", n));
}
static bool contains(const VecD & b, double r) { for (int i = 0; i < b.size(); i++) if (std::abs(b(i) - r) <= 1e-12 * std::max(1e-3, r)) return true; return false; }
VT_CHECK(atomic_grids, 60000, 1000000, "a finite-nucleus, off-centre or confinement-shifted grid") {
  using namespace modelpotential; int kind = (int) s.draw(3), ig = s.range(1, 4), n = s.range(1, 12), n0 = s.range(1, 6), ig0 = s.range(1, 4); double z = s.real(1, 3), z0 = s.real(1, 3), rmax = s.logreal(5, 100); bool add = s.flag(); double sh = s.real(0.2, 0.98) * rmax;
  nuclear_model_t model = POINT_NUCLEUS; double rrms = 0, rnuc = 0, Rhalf = 0; int Z = s.range(1, 60), Zl = 0, Zr = 0; std::vector<double> special; int nel = n;
  if (kind == 0) { if (s.flag(1, 4)) { model = REGULARIZED_NUCLEUS; rrms = s.logreal(1e-3, 0.1); } } else if (kind == 1) { model = s.pick<nuclear_model_t>({GAUSSIAN_NUCLEUS, SPHERICAL_NUCLEUS, HOLLOW_NUCLEUS}); rrms = s.logreal(1e-5, 0.05); rnuc = model == HOLLOW_NUCLEUS ? rrms : model == SPHERICAL_NUCLEUS ? std::sqrt(5.0 / 3) * rrms : 3 * rrms; if (s.flag(1, 6)) n0 = 0; if (n0) { special.push_back(rnuc); special.push_back(2 * rnuc); nel += 2 * n0; } }
  else { Rhalf = s.real(0.3, 3); Zl = s.range(0, 5); Zr = s.range(0, 5); if (Zl == 0 && Zr == 0) Zl = 1; if (s.flag(1, 3)) Z = 0; special.push_back(Rhalf); nel += n0; if (Z) { special.push_back(Z * Rhalf / (Z + std::max(Zl, Zr))); nel += n0; } }
  bool out = add && s.flag(1, 6); if (out) sh = s.flag() ? rmax * s.real(1.01, 3) : s.flag() ? 0 : -s.real(0.1, 5);
  if (add && !out) { if (s.flag(1, 4) && !special.empty()) sh = special[0]; else { special.push_back(sh); } }
  c.label("kind", kind); c.label("add", add); c.nontrivial = kind > 0 || add;
  c.d("form_grid model=%d Rrms=%.6g n=%d Rmax=%.6g grid=%d,%.4g n0=%d grid0=%d,%.4g Z=%d Zl=%d Zr=%d Rhalf=%.6g add=%d at %.6g", (int) model, rrms, n, rmax, ig, z, n0, ig0, z0, Z, Zl, Zr, Rhalf, add, sh);
  VecD b = add ? atomic::basis::form_grid(model, rrms, n, rmax, ig, z, n0, ig0, z0, Z, Zl, Zr, Rhalf, true, sh) : atomic::basis::form_grid(model, rrms, n, rmax, ig, z, n0, ig0, z0, Z, Zl, Zr, Rhalf);
  increasing(c, b, rmax, "atomic grid"); if (out) { c.ok(b.size() == nel + 1, "a confinement starting outside the grid does not change it"); add = false; } for (double r : special) c.ok(contains(b, r), vt::fmt("special radius %.10g is an element boundary", r));
  bool extra = add && (kind != 2 || true) && b.size() == nel + 2; c.ok(b.size() == nel + 1 || extra, vt::fmt("%ld boundaries, expected %d (plus an inserted one)", (long) b.size(), nel + 1));
  if (!add && kind == 0) { auto l = law(ig, rmax, n, z); for (int i = 0; i <= n; i++) c.close(b(i), l[i], 0, 1e-9, "normal grid follows its law"); }
  if (!add && kind == 1 && n0) { auto a = law(ig0, rnuc, n0, z0), e = law(ig, rmax - 2 * rnuc, n, z); for (int i = 0; i <= n0; i++) { c.close(b(i), a[i], 5e-15, 1e-8, "nuclear part follows its law"); c.close(b(n0 + i), rnuc + a[i], 0, 1e-8, "second nuclear part"); } for (int i = 0; i <= n; i++) c.close(b(2 * n0 + i), 2 * rnuc + e[i], 0, 1e-8, "electronic part follows its law"); }
  if (!add && kind == 2) { double b0 = Z ? Z * Rhalf / (Z + (double) std::max(Zl, Zr)) : 0; int o = Z ? n0 : 0; if (Z) { auto a = law(ig, b0, n0, z); for (int i = 0; i <= n0; i++) c.close(b(i), a[i], 1e-14, 1e-8, "central part"); } auto m = law(ig, Rhalf - b0, n0, z), e = law(ig, rmax - Rhalf, n, z); for (int i = 0; i <= n0; i++) c.close(b(o + i), Rhalf - m[n0 - i], 1e-12, 1e-9, "part tightening towards the off-centre nucleus"); for (int i = 0; i <= n; i++) c.close(b(o + n0 + i), Rhalf + e[i], 1e-12, 1e-9, "outer part"); }
  if (kind == 1) c.throws([&] { atomic::basis::form_grid(model, rrms, n, rmax, ig, z, n0, ig0, z0, Z, 1, 0, 1.0); }, "off-centre charges with a finite nucleus");
}
VT_CHECK(angular_basis, 200, 2000, "mmax >= 1") {
  int l = s.range(0, 12), m = s.range(0, 12); Eigen::VectorXi lv, mv; if (m > l) throw vt::Reject(); atomic::basis::angular_basis(l, m, lv, mv); c.d("angular basis lmax=%d mmax=%d", l, m); c.nontrivial = m > 0; std::set<std::pair<int, int>> st, want; for (int i = 0; i < lv.size(); i++) st.insert({lv(i), mv(i)}); for (int a = 0; a <= l; a++) for (int b = -std::min(a, m); b <= std::min(a, m); b++) want.insert({a, b}); c.ok(st == want && (size_t) lv.size() == want.size(), "angular basis holds every (l,m) exactly once");
}
VT_MAIN()
