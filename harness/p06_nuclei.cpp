// LIBS: core general
// P06: nuclear models against numerical electrostatics of their charge distributions.
#include "gen.h"
#include <general/model_potential.h>
#include <PointNucleus.h>
#include <GaussianNucleus.h>
#include <SphericalNucleus.h>
#include <HollowNucleus.h>
#include <RegularizedNucleus.h>
using namespace helfem; using namespace gen; using namespace helfem::modelpotential;
using ld = long double;
static const ld PI = 3.14159265358979323846264338327950288L;
static ld integ(const std::function<ld(ld)> & f, ld a, ld b, int panels = 8) {
  static std::vector<double> x, w; if (x.empty()) gauss(40, x, w);
  ld s = 0; if (!(b > a)) return 0; for (int p = 0; p < panels; p++) { ld A = a + (b - a) * p / panels, h = (b - a) / panels / 2; for (size_t i = 0; i < x.size(); i++) s += w[i] * h * f(A + h * (1 + x[i])); } return s;
}
// radius on and around every branch point of the model
static double radius(vt::Source & s, double R) {
  switch (s.draw(6)) { case 0: return R * s.real(0.01, 3); case 1: return R * (1 + (s.flag() ? 1 : -1) * s.logreal(1e-15, 1e-2)); case 2: return R * s.logreal(1e-9, 1); case 3: return R * s.logreal(1, 1e6); case 4: return s.logreal(1e-6, 50); default: return R * s.logreal(1e-4, 2e-2); }
}
static int charge(vt::Source & s) { return s.flag(1, 8) ? (s.flag() ? 0 : -s.range(1, 3)) : s.range(1, 130); }
struct Case { nuclear_model_t k; const char * name; };
static const Case kinds[] = {{POINT_NUCLEUS, "point"}, {GAUSSIAN_NUCLEUS, "gaussian"}, {SPHERICAL_NUCLEUS, "spherical"}, {HOLLOW_NUCLEUS, "hollow"}};
// V of a unit positive charge spread with rms radius R seen by an electron, by integrating the radial charge distribution
static double reference(int k, double R, double r) {
  if (k == 0) return -1.0 / r;
  if (k == 3) return r >= R ? -1.0 / r : -1.0 / R;
  std::function<ld(ld)> q; ld end;
  if (k == 1) { ld mu2 = 1.5L / ((ld) R * R); q = [=](ld x) { return 4 * PI * x * x * std::pow(mu2 / PI, 1.5L) * std::exp(-mu2 * x * x); }; end = 9.0L * R; }
  else { ld R0 = sqrtl(5.0L / 3) * R; q = [=](ld x) { return 3 * x * x / (R0 * R0 * R0); }; end = R0; }
  if (r <= 0) return (double) -integ([&](ld x) { return q(x) / x; }, 0, end);
  if (r >= end) return -1.0 / r;
  return (double) -(integ(q, 0, r) / r + integ([&](ld x) { return q(x) / x; }, r, end, 12));
}
template <typename T> static std::shared_ptr<ModelPotentialT<T>> model(nuclear_model_t k, int Z, T R) { return std::shared_ptr<ModelPotentialT<T>>(get_nuclear_model<T>(k, Z, R)); }

VT_CHECK(charge_distributions, 60000, 600000, "finite nucleus") {
  int k = (int) s.draw(4), Z = charge(s); double R = s.flag(1, 4) ? s.logreal(0.01, 3) : s.logreal(1e-6, 1e-2); double r = radius(s, R);
  c.d("%s Z=%d Rrms=%.17g r=%.17g", kinds[k].name, Z, R, r); c.label("model", kinds[k].name); c.nontrivial = k > 0 && Z != 0;
  auto m = model<double>(kinds[k].k, Z, R); double want = Z * reference(k, R, r); c.close(m->V(r), want, 0, 4e-14, "potential of the charge distribution");
  if (k > 0) { double v0 = m->V(0.0); c.ok(std::isfinite(v0), "finite at the centre"); c.close(v0, Z * reference(k, R, 0), 0, 4e-14, "potential at the centre"); }
  auto ml = model<long double>(kinds[k].k, Z, (long double) R); c.close((double) ml->V(r), want, 0, 4e-14, "potential in long double");
  // scaling: V(aR; ar) = V/a
  double a = s.logreal(0.1, 10); c.close(model<double>(kinds[k].k, Z, a * R)->V(a * r) * a, m->V(r), 0, 1e-13, "homogeneity under scaling of all lengths");
  if (r > 0) c.close(m->V(r), Z * model<double>(kinds[k].k, 1, R)->V(r), 0, 1e-14, "linear in the charge");
  // attraction weaker than the point charge and than at the centre, monotone
  if (Z > 0) { double r2 = r * (1 + s.logreal(1e-6, 1)); c.ok(m->V(r2) >= m->V(r) * (1 + 1e-14), "attraction decreases outwards"); c.ok(m->V(r) >= -Z / r * (1 + 1e-14), "no stronger than a point charge"); }
}
VT_CHECK(breakpoints, 20000, 200000, "interval contains the edge of the charge") {
  int k = (int) s.draw(4), Z = s.range(1, 100); double R = s.logreal(1e-6, 3); double edge = k == 2 ? std::sqrt(5.0 / 3) * R : k == 3 ? R : -1;
  double a = s.flag(1, 3) ? 0 : R * s.logreal(0.05, 3), b = a + R * s.logreal(0.05, 4); c.d("%s R=%.10g [%.10g,%.10g]", kinds[k].name, R, a, b); c.label("model", kinds[k].name);
  auto bp = model<double>(kinds[k].k, Z, R)->breakpoints(a, b); bool in = edge > a * (1 + 1e-14) && edge < b * (1 - 1e-14); c.nontrivial = in;
  if (std::abs(edge - a) < 1e-13 * R || std::abs(edge - b) < 1e-13 * R) throw vt::Reject();
  for (double x : bp) c.ok(x > a && x < b, "breakpoints lie strictly inside"); if (in) { c.ok(bp.size() == 1, "edge reported once"); if (bp.size() == 1) c.close(bp[0], edge, 0, 1e-14, "edge radius"); }
  else if (edge > 0) c.ok(bp.empty(), "no breakpoint outside");
}
VT_CHECK(accessors, 5000, 50000, "any") {
  int Z = s.range(1, 100); double R = s.logreal(1e-6, 3), R2 = s.logreal(1e-6, 3), r = radius(s, R2); c.d("Z=%d R=%.10g R2=%.10g r=%.10g", Z, R, R2, r); c.nontrivial = true;
  GaussianNucleus g(Z, R); c.close(g.get_mu(), std::sqrt(1.5) / R, 0, 1e-14, "Gaussian exponent"); g.set_mu(std::sqrt(1.5) / R2); c.close(g.V(r), Z * reference(1, R2, r), 0, 4e-14, "after set_mu");
  SphericalNucleus p(Z, R); c.close(p.get_R0(), std::sqrt(5.0 / 3) * R, 0, 1e-14, "sphere radius"); p.set_R0(std::sqrt(5.0 / 3) * R2); c.close(p.V(r), Z * reference(2, R2, r), 0, 4e-14, "after set_R0");
  HollowNucleus h(Z, R); c.close(h.get_R(), R, 0, 1e-14, "shell radius"); h.set_R(R2); c.close(h.V(r), Z * reference(3, R2, r), 0, 4e-14, "after set_R");
  c.throws([&] { model<double>(NOSUCH_NUCLEUS, Z, R); }, "unknown model"); c.throws([&] { model<double>((nuclear_model_t) (6 + s.draw(20)), Z, R); }, "unknown model number");
}
static ld V1(ld a, ld b, ld r) {
  ld g = expl(-a * a * r * r), k = 2 * a / sqrtl(PI); ld e = r > 1e-8L / a ? erfl(a * r) / r : k * (1 - a * a * r * r / 3);
  ld hr = -e - k * g + 2 * a * a * b * g, h1 = hr * r, h2 = -2 * k * g + 2 * k * a * a * r * r * g + 2 * a * a * b * g - 4 * a * a * a * a * r * r * b * g;
  return -0.5L + 0.5L * h2 + 0.5L * h1 * h1 + hr;
}
static ld norm(ld a, ld b) { // phi^2 = exp(2h)/pi
  auto f = [&](ld r) { ld h = -r * erfl(a * r) - b * expl(-a * a * r * r); return 4 * r * r * expl(2 * h); };
  ld c1 = 1 / a; return integ(f, 0, c1, 6) + integ(f, c1, 6 * c1, 10) + integ(f, 6 * c1, 6 * c1 + 30, 20) + integ(f, 6 * c1 + 30, 6 * c1 + 60, 4);
}
VT_CHECK(regularized, 250, 3000, "radius inside the regularised region") {
  double a = s.logreal(1.2, 30); int Z = s.range(1, 118); RegularizedNucleus m(Z, a); double b = m.get_b(); c.d("Z=%d a=%.17g b=%.17g", Z, a, b); c.close(m.get_a(), a, 0, 0, "parameter");
  c.close((double) norm(a, b), 1.0, 3e-8, 0, "the reference orbital is normalised");
  for (int i = 0; i < 40; i++) { double R = 1 / (a * Z); double r = s.flag(1, 5) ? 6.0554544523933429e-06 / Z * (1 + (s.flag() ? 1 : -1) * s.logreal(1e-12, 0.5)) : radius(s, R); c.evals++; if (r > 500.0 / Z) r = 500.0 / Z; if (a * Z * r < 3) c.nontrivial = true;
    ld want = (ld) Z * Z * V1(a, b, (ld) Z * r); double sc = (double) Z * Z * (1 + a * a * (std::abs(b) + 3)) * std::min(1.0, 1 / (Z * r * a) + std::exp(-0.5 * a * a * Z * Z * r * r)); c.close(m.V(r), (double) want, 2e-14 * sc, 4e-14, vt::fmt("potential at r=%.17g", r));
    if (a * Z * r > 7) c.close(m.V(r), -Z / r, 3e-15 * Z * Z, 1e-14, vt::fmt("bare nucleus at r=%.17g", r)); }
  double x = s.logreal(1e-3, 10); RegularizedNucleus m1(1, a); c.close(m.V(x / Z), (double) Z * Z * m1.V(x), 1e-13 * Z * Z * a * a, 1e-13, "V(Z,r) = Z^2 V(1,Zr)"); c.ok(std::isfinite(m.V(0.0)), "finite at the centre"); c.close(m.V(0.0), (double) ((ld) Z * Z * V1(a, b, 0)), 1e-14 * Z * Z * a * a * (b + 3), 1e-13, "value at the centre");
  auto g = model<double>(REGULARIZED_NUCLEUS, Z, a); c.close(g->V(x / Z), m.V(x / Z), 0, 1e-15, "selected model"); c.ok(g->breakpoints(0, 10).empty(), "smooth");
  double a2 = s.logreal(1.2, 30); m.set_a(a2); c.close((double) norm(a2, m.get_b()), 1.0, 3e-8, 0, "normalised after set_a");
}
VT_MAIN()
