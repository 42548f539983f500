// LIBS: core general
// P04: one-electron radial matrices against independent Gauss-Legendre panels.
#include "gen.h"
#include <RadialBasis.h>
#include <general/model_potential.h>
#include <general/RadialPotential.h>
#include <Eigen/Eigenvalues>
#include <boost/math/special_functions/bessel.hpp>
using namespace helfem; using namespace gen;
using RB = atomic::basis::FEMRadialBasis; using BK = RB::BasisKind;
using Fn = std::function<double(double)>;

static FEspec rspec(vt::Source & s, int maxel = 5, int maxn = 9) { FEspec e = fespec(s, 0.0, maxel, maxn, false); if (e.order() > 0 && s.flag(1, 6)) e.zdl = true; while (e.nbf() < 2) { e.N++; if (e.N > 4 && e.nbf() < 2) throw vt::Reject(); } return e; }
static int rquad(vt::Source & s) { return s.range(5, 40); }
// reference block of one element: k = derivative order of B, over: divide by r
struct Panel { MatD m, a; };
static MatD fun(const FEspec & e, int iel, const std::vector<double> & x, BK k) {
  auto inv = [&](int p, MatD m) { for (size_t i = 0; i < x.size(); i++) m.row(i) /= std::pow(e.coord(x[i], iel), p); return m; };
  switch (k) { case BK::B0: return e.eval(x, 0, iel); case BK::B1: return e.eval(x, 1, iel); case BK::B2: return e.eval(x, 2, iel);
    case BK::R0: return inv(1, e.eval(x, 0, iel)); case BK::R1: return inv(1, e.eval(x, 1, iel)) - inv(2, e.eval(x, 0, iel));
    default: return inv(1, e.eval(x, 2, iel)) - 2 * inv(2, e.eval(x, 1, iel)) + 2 * inv(3, e.eval(x, 0, iel)); }
}
// magnitude of the terms behind fun(), the scale of its rounding error
static MatD funa(const FEspec & e, int iel, const std::vector<double> & x, BK k) {
  auto inv = [&](int p, MatD m) { for (size_t i = 0; i < x.size(); i++) m.row(i) /= std::pow(e.coord(x[i], iel), p); return MatD(m.cwiseAbs()); };
  switch (k) { case BK::R1: return inv(1, e.eval(x, 1, iel)) + inv(2, e.eval(x, 0, iel)); case BK::R2: return inv(1, e.eval(x, 2, iel)) + 2 * inv(2, e.eval(x, 1, iel)) + 2 * inv(3, e.eval(x, 0, iel)); default: return fun(e, iel, x, k).cwiseAbs(); }
}
static Panel block(const FEspec & e, int iel, BK l, BK r, const Fn & w, std::vector<double> brk = {}, double xl = -1, double xr = 1, int nq = 60, bool grade = false) {
  std::vector<double> xb = {xl, xr}; double h = 0.5 * (e.b[iel + 1] - e.b[iel]), mid = 0.5 * (e.b[iel + 1] + e.b[iel]);
  for (double b : brk) { double x = (b - mid) / h; if (x > xl + 1e-14 && x < xr - 1e-14) xb.push_back(x); }
  if (grade) { std::vector<double> add; for (double q = 0.5; q > 1e-9; q *= 0.25) add.push_back(xr - (xr - xl) * q); xb.insert(xb.end(), add.begin(), add.end()); for (double b : brk) { double x = (b - mid) / h; for (double q = 0.5; q > 1e-3; q *= 0.5) if (x > xl - 1e-12 && x + (xr - x) * q < xr && x < xr) xb.push_back(x + (xr - x) * q); } }
  std::sort(xb.begin(), xb.end()); std::vector<double> gx, gw; gauss(nq, gx, gw); Panel p; size_t n = e.nbf(); p.m = MatD::Zero(n, n); p.a = MatD::Zero(n, n);
  for (size_t i = 0; i + 1 < xb.size(); i++) { double A = 0.5 * (xb[i + 1] - xb[i]), B = 0.5 * (xb[i + 1] + xb[i]); if (A <= 0) continue; std::vector<double> x(nq); for (int q = 0; q < nq; q++) x[q] = A * gx[q] + B;
    MatD L = fun(e, iel, x, l), R = fun(e, iel, x, r); MatD La = funa(e, iel, x, l), Ra = funa(e, iel, x, r);
    for (int q = 0; q < nq; q++) { double v = gw[q] * A * h * (w ? w(e.coord(x[q], iel)) : 1.0); L.row(q) *= v; La.row(q) *= std::abs(v); }
    p.m += L.transpose() * R; p.a += La.transpose() * Ra; }
  return p;
}
static void cmp(vt::Ctx & c, const FEspec & e, const RB & rb, int iel, const MatD & got, const Panel & p, double rel, const std::string & what, double scale = 1, double floor = 1e-300) {
  size_t a, b; rb.get_idx(iel, a, b); MatD w = scale * p.m.block(a, a, b - a + 1, b - a + 1); double sc = std::abs(scale) * p.a.maxCoeff(); same(c, got, w, rel * sc + floor, vt::fmt("%s, element %d", what.c_str(), iel));
}
static void cmpg(vt::Ctx & c, const FEspec & e, const MatD & got, BK l, BK r, const Fn & w, double scale, double rel, const std::string & what, std::vector<double> brk = {}) {
  size_t n = e.nbf(); MatD want = MatD::Zero(n, n), ab = want; for (int i = 0; i < e.nel(); i++) { Panel p = block(e, i, l, r, w, brk); want += scale * p.m; ab += std::abs(scale) * p.a; }
  same(c, got, want, rel * ab.maxCoeff(), what); }
static void setup(vt::Ctx & c, const FEspec & e, int nq) { c.d("%s nquad=%d", e.str().c_str(), nq); c.label("family", e.f.name); c.nontrivial = e.nel() > 1 && e.nbf() > 3; }

VT_CHECK(named_matrices, 500, 8000, "at least two elements and four functions") {
  FEspec e = rspec(s); int nq = rquad(s); RB rb(e.make(), nq); setup(c, e, nq); c.ok(rb.Nbf() == e.nbf(), "number of functions"); c.ok((int) rb.Nel() == e.nel(), "number of elements");
  double tol = 1e-11;
  cmpg(c, e, rb.overlap(), BK::B0, BK::B0, Fn(), 1, tol, "overlap"); cmpg(c, e, rb.kinetic(), BK::B1, BK::B1, Fn(), 0.5, tol, "kinetic"); cmpg(c, e, rb.kinetic_l(), BK::R0, BK::R0, Fn(), 0.5, tol, "centrifugal"); cmpg(c, e, rb.nuclear(), BK::B0, BK::B0, [](double r) { return 1 / r; }, -1, tol, "nuclear");
  for (int i = 0; i < e.nel(); i++) { cmp(c, e, rb, i, rb.overlap(i), block(e, i, BK::B0, BK::B0, Fn()), tol, "overlap"); cmp(c, e, rb, i, rb.kinetic(i), block(e, i, BK::B1, BK::B1, Fn()), tol, "kinetic", 0.5); cmp(c, e, rb, i, rb.kinetic_l(i), block(e, i, BK::R0, BK::R0, Fn()), tol, "centrifugal", 0.5); cmp(c, e, rb, i, rb.nuclear(i), block(e, i, BK::B0, BK::B0, [](double r) { return 1 / r; }), tol, "nuclear", -1); }
  auto lo = [&](const MatD & m) { return Eigen::SelfAdjointEigenSolver<MatD>(m, Eigen::EigenvaluesOnly).eigenvalues(); };
  for (const MatD & m : {rb.overlap(), rb.kinetic(), rb.kinetic_l(), MatD(-rb.nuclear())}) { samer(c, m, m.transpose(), 1e-13, "symmetry"); VecD ev = lo(m); c.ok(ev(0) > -1e-12 * ev(ev.size() - 1), "definiteness"); }
}
VT_CHECK(moments_and_bessel, 15000, 20000, "nonzero power, or a Bessel weight") {
  FEspec e = rspec(s); int nq = rquad(s); RB rb(e.make(), nq); setup(c, e, nq); int iel = (int) s.draw(e.nel());
  int kind = (int) s.draw(4); c.label("kind", kind);
  if (kind == 0) { int n = s.range(iel == 0 ? -2 : -8, 8); c.d(" <r^%d> element %d", n, iel); c.nontrivial = n != 0; cmp(c, e, rb, iel, rb.radial_integral(n, iel), block(e, iel, BK::B0, BK::B0, [&](double r) { return std::pow(r, n); }), 1e-11, "moment"); }
  else if (kind == 1) { int n = s.range(iel == 0 ? -2 : -5, 5); double xl = s.real(-1, 0.9), xr = s.real(xl + 0.05, 1); c.d(" <r^%d> element %d x in [%.5g,%.5g]", n, iel, xl, xr); c.nontrivial = true; cmp(c, e, rb, iel, rb.radial_integral(n, iel, xl, xr), block(e, iel, BK::B0, BK::B0, [&](double r) { return std::pow(r, n); }, {}, xl, xr), 1e-11, "partial moment"); }
  else { int L = s.range(0, 8); double lam = s.logreal(0.05, 4); c.d(" Bessel %s L=%d lambda=%.6g element %d", kind == 2 ? "i" : "k", L, lam, iel); c.nontrivial = true;
    if (kind == 2) cmp(c, e, rb, iel, rb.bessel_il_integral(L, lam, iel), block(e, iel, BK::B0, BK::B0, [&](double r) { double x = lam * r; return boost::math::cyl_bessel_i(L + 0.5, x) * std::sqrt(M_PI / (2 * x)); }), 1e-10, "i_L integral");
    else { if (iel == 0) { if (e.nel() < 2) throw vt::Reject(); iel = 1; } if (lam * e.b[iel] < 0.02) throw vt::Reject(); cmp(c, e, rb, iel, rb.bessel_kl_integral(L, lam, iel), block(e, iel, BK::B0, BK::B0, [&](double r) { double x = lam * r; return boost::math::cyl_bessel_k(L + 0.5, x) * std::sqrt(2 / (M_PI * x)); }), 1e-10, "k_L integral"); } }
}
VT_CHECK(generic_elements, 12000, 15000, "a non-constant weight") {
  FEspec e = rspec(s); int nq = rquad(s); RB rb(e.make(), nq); setup(c, e, nq); int iel = (int) s.draw(e.nel()); Smooth f = smooth(s); double q = s.real(0.05, 0.95) * e.b.back(), jump = s.flag() ? s.sym(3) : 0; std::vector<double> brk; if (jump != 0) brk.push_back(q); Fn w = [=](double r) { return f(r) + (r > q ? jump * (r - q) : 0); };
  const BK ks[] = {BK::B0, BK::B1, BK::B2, BK::R0, BK::R1, BK::R2}; int a = (int) s.draw(6), b = (int) s.draw(6); bool unit = s.flag(1, 5); if (unit) { w = Fn(); brk.clear(); } c.d(" kinds %d,%d weight %s kink %.4g at %.5g element %d", a, b, unit ? "1" : f.str().c_str(), jump, q, iel); c.nontrivial = !unit;
  // second derivatives over r near the origin lose digits in the quotient reference
  double tol = 1e-10; bool near0 = iel == 0 && (a >= 4 || b >= 4); if (near0) { tol = 1e-6; if (e.f.m >= 1 || e.N > 7) tol = 1e-4; }
  if (e.f.m < 0 && (a == 5 || b == 5 || a == 2 || b == 2)) tol = std::max(tol, 1e-9);
  cmp(c, e, rb, iel, rb.matrix_element(iel, ks[a], ks[b], w, brk, -1), block(e, iel, ks[a], ks[b], w, brk), tol, "weighted matrix element");
  if (!near0 && a < 4 && b < 4) cmpg(c, e, rb.matrix_element(ks[a], ks[b], w, brk, -1), ks[a], ks[b], w, 1, tol, "global weighted matrix", brk);
  double xl = s.real(-1, 0.5), xr = s.real(xl + 0.1, 1); if (jump == 0 || unit) cmp(c, e, rb, iel, rb.matrix_element(iel, ks[a], ks[b], w, xl, xr), block(e, iel, ks[a], ks[b], w, {}, xl, xr), tol, "sub-range matrix element");
}
VT_CHECK(confinement, 25000, 40000, "the potential is nonzero somewhere in the element") {
  FEspec e = rspec(s); int nq = rquad(s); RB rb(e.make(), nq); setup(c, e, nq); double R = e.b.back(); int iel = (int) s.draw(e.nel()); int ic = s.range(1, 4), N = s.range(ic == 1 ? -2 : 1, ic == 4 ? 2 : 6); double r0 = s.logreal(0.3, 5), V = s.logreal(0.01, 50), sh = s.flag(1, 3) ? 0 : s.flag(1, 5) ? e.b[s.draw(e.nel())] : s.real(0.01, 0.95) * R; if (ic == 1 && s.flag(1, 4)) r0 = -r0; if (N < 0) sh = 0;
  c.label("iconf", ic); c.d(" confinement type %d N=%d r0=%.6g V=%.6g shift=%.6g element %d", ic, N, r0, V, sh, iel); c.nontrivial = sh < e.b[iel + 1] && e.nbf() > 1;
  Fn w; double tol = 1e-10; bool grade = false;
  if (ic == 1) w = [=](double r) { double sg = r0 < 0 ? -1 : 1, a = std::abs(r0); return r < sh ? 0 : sg * std::pow(a, -std::abs(N)) * std::pow(r - sh, N); };
  else if (ic == 2) w = [=](double r) { if (r < sh) return 0.0; long double x = (long double) (r - sh) / r0, fac = 1, t = 1; for (int k = 1; k <= N; k++) { fac *= k; t *= x / k; } long double sum = 0; for (int k = N; k < N + 400; k++) { sum += t; t *= x / (k + 1); } return (double) (fac * sum); };
  else if (ic == 3) w = [=](double r) { return r < sh ? 0 : V; };
  else { grade = true; tol = N == 1 ? 1e-8 : 3e-4; w = [=](double r) { return r <= sh ? 0 : V * std::exp(-(R - sh) / (r - sh)) / std::pow(R - r, N); }; }
  Panel p = block(e, iel, BK::B0, BK::B0, w, {sh}, -1, 1, 60, grade); if (ic == 2) tol = 1e-9; bool step = ic == 3 || (ic == 1 && N == 0); double unit = block(e, iel, BK::B0, BK::B0, Fn()).a.maxCoeff();
  cmp(c, e, rb, iel, rb.confinement_potential(iel, N, r0, ic, V, sh), p, tol, "confinement", 1, ic == 2 ? 1e-13 * std::tgamma(N + 1.0) * std::exp(std::max(0.0, (e.b[iel + 1] - sh) / r0)) * unit : step ? 3e-5 * (ic == 3 ? V : 1) * unit : ic == 4 ? 1e-11 * V * unit : 1e-13 * unit * std::pow(std::abs(r0), -std::abs(N)));
}
VT_CHECK(confinement_refusal, 400, 2000, "always") {
  FEspec e = rspec(s, 2, 4); RB rb(e.make(), 10); setup(c, e, 10); c.nontrivial = true; switch (s.draw(7)) {
    case 0: c.d(" diverging potential with a shift"); c.throws([&] { rb.confinement_potential(0, -s.range(1, 2), 1.0, 1, 0, s.real(0.1, 1)); }, "negative power with a shift"); break;
    case 1: c.d(" exponential N<1"); c.throws([&] { rb.confinement_potential(0, -s.range(0, 3), 1.0, 2, 0, 0); }, "exponential with N < 1"); break;
    case 2: c.d(" attractive barrier"); c.throws([&] { rb.confinement_potential(0, 1, 1.0, 3, -s.real(0.1, 3), 1); }, "attractive barrier"); break;
    case 3: c.d(" Junquera N<1"); c.throws([&] { rb.confinement_potential(0, -s.range(0, 3), 1.0, 4, 1, 0.1); }, "Junquera with N < 1"); break;
    case 4: c.d(" Junquera V<=0"); c.throws([&] { rb.confinement_potential(0, 1, 1.0, 4, -s.real(0, 3), 0.1); }, "Junquera with V <= 0"); break;
    case 5: { int k = s.flag() ? s.range(5, 9) : -s.range(0, 4); c.d(" type %d", k); c.throws([&] { rb.confinement_potential(0, 1, 1.0, k, 1, 0.1); }, "unknown type"); break; }
    default: { double R = s.real(0.05, 0.95) * e.b[1]; c.d(" off-centre charge inside an element"); c.throws([&] { rb.nuclear_offcenter(0, R, s.range(0, 4)); }, "off-centre nucleus within an element"); } }
}
VT_CHECK(offcentre, 6000, 8000, "multipole order above zero") {
  FEspec e = rspec(s, 6, 7); if (e.nel() < 2) throw vt::Reject(); int nq = rquad(s); RB rb(e.make(), nq); setup(c, e, nq); int k = s.range(1, e.nel()), L = s.range(0, 10); double R = e.b[k]; c.d(" Rhalf=%.6g L=%d", R, L); c.nontrivial = L > 0;
  for (int i = 0; i < e.nel(); i++) cmp(c, e, rb, i, rb.nuclear_offcenter(i, R, L), block(e, i, BK::B0, BK::B0, [&](double r) { double a = std::min(r, R), b = std::max(r, R); return std::pow(a / b, L) / b; }), 1e-11, "off-centre nucleus", -std::sqrt(4 * M_PI / (2 * L + 1)));
}
VT_CHECK(model_potentials, 9000, 12000, "a finite-size or guess potential") {
  using namespace modelpotential; FEspec e = rspec(s, 5, 8); int nq = rquad(s); RB rb(e.make(), nq); setup(c, e, nq); int iel = (int) s.draw(e.nel()), Z = s.range(1, 90), k = (int) s.draw(6); double rr = s.flag() ? s.real(0.05, 1.5) : s.real(0.1, 0.9) * e.b.back(); std::unique_ptr<ModelPotential> p; Fn w; std::vector<double> brk; c.label("model", k); c.nontrivial = k > 0;
  double z = Z; c.d(" model %d Z=%d size=%.5g element %d", k, Z, rr, iel);
  if (k == 0) { p.reset(get_nuclear_model<double>(POINT_NUCLEUS, Z, 0.0)); w = [=](double r) { return -z / r; }; }
  if (k == 1) { p.reset(get_nuclear_model<double>(GAUSSIAN_NUCLEUS, Z, rr)); w = [=](double r) { return -z / r * std::erf(std::sqrt(1.5) * r / rr); }; }
  if (k == 2) { p.reset(get_nuclear_model<double>(SPHERICAL_NUCLEUS, Z, rr)); double R0 = std::sqrt(5.0 / 3) * rr; brk = {R0}; w = [=](double r) { return r >= R0 ? -z / r : -z / (2 * R0) * (3 - r * r / (R0 * R0)); }; }
  if (k == 3) { p.reset(get_nuclear_model<double>(HOLLOW_NUCLEUS, Z, rr)); brk = {rr}; w = [=](double r) { return -z / std::max(r, rr); }; }
  if (k == 4) { p.reset(new GSZAtom(Z, s.real(0.3, 1.5), s.real(0.5, 3))); ModelPotential * q = p.get(); w = [q](double r) { return q->V(r); }; }
  if (k == 5) { p.reset(new TFAtom(Z)); ModelPotential * q = p.get(); w = [q](double r) { return q->V(r); }; }
  cmp(c, e, rb, iel, rb.model_potential(p.get(), iel), block(e, iel, BK::B0, BK::B0, w, brk, -1, 1, k == 5 ? 400 : k == 1 ? 200 : 100), k == 5 ? 1e-7 : 1e-10, "model potential");
}
VT_CHECK(cross_basis, 700, 8000, "the bases differ") {
  FEspec a = rspec(s), b = s.flag(1, 8) ? a : rspec(s); if (s.flag(1, 3) && b.b.size() > 1) { double q = a.b.back() / b.b.back(); for (auto & x : b.b) x *= q; b.b.back() = a.b.back(); }
  int na = rquad(s), nb = rquad(s); RB ra(a.make(), na), rb(b.make(), nb); c.d("%s nquad=%d x %s nquad=%d", a.str().c_str(), na, b.str().c_str(), nb); c.nontrivial = a.str() != b.str();
  int n = s.range(-1, 4); bool ld = s.flag(1, 3), rd = s.flag(1, 3); if (n < 0 && (ld || rd)) n = 0; c.d(" r^%d derivatives %d,%d", n, ld, rd); Smooth f = smooth(s); bool pot = s.flag(1, 3);
  struct P : modelpotential::ModelPotential { Smooth f; double V(double r) const override { return f(r); } } P0; P0.f = f;
  auto ref = [&](BK l, BK r, const Fn & w, MatD & ab) { std::vector<double> x, gw; gauss(40, x, gw); std::vector<double> br = a.b; br.insert(br.end(), b.b.begin(), b.b.end()); std::sort(br.begin(), br.end()); MatD m = MatD::Zero(a.nbf(), b.nbf()); ab = m; double hi = std::min(a.b.back(), b.b.back());
    for (size_t i = 0; i + 1 < br.size(); i++) { double l0 = br[i], h0 = br[i + 1]; if (h0 - l0 < 1e-13 || h0 > hi + 1e-12) continue; auto find = [](const FEspec & e, double r) { int k = 0; while (k + 1 < e.nel() && e.b[k + 1] < r) k++; return k; }; double mid = 0.5 * (l0 + h0); int ia = find(a, mid), ib = find(b, mid); std::vector<double> xa(40), xb(40), rr(40); for (int q = 0; q < 40; q++) { double r0 = mid + 0.5 * (h0 - l0) * x[q]; rr[q] = r0; xa[q] = (r0 - a.coord(0, ia)) / (0.5 * (a.b[ia + 1] - a.b[ia])); xb[q] = (r0 - b.coord(0, ib)) / (0.5 * (b.b[ib + 1] - b.b[ib])); }
      MatD A = fun(a, ia, xa, l), B = fun(b, ib, xb, r), Aa = A.cwiseAbs(); for (int q = 0; q < 40; q++) { double v = gw[q] * 0.5 * (h0 - l0) * w(rr[q]); A.row(q) *= v; Aa.row(q) *= std::abs(v); } m += A.transpose() * B; ab += Aa.transpose() * B.cwiseAbs(); } return m; };
  MatD ab; Fn w = pot ? Fn([&](double r) { return f(r); }) : Fn([&](double r) { return std::pow(r, n); }); MatD want = ref(ld ? BK::B1 : BK::B0, rd ? BK::B1 : BK::B0, w, ab); MatD got = pot ? ra.model_potential(rb, &P0, ld, rd) : ra.radial_integral(rb, n, ld, rd);
  same(c, got, want, 1e-10 * ab.maxCoeff() + 1e-300, "cross-basis matrix"); if (!pot && !ld && !rd && n == 0) same(c, ra.overlap(rb), want, 1e-10 * ab.maxCoeff(), "cross-basis overlap");
  if (pot || n >= 0) same(c, ra.matrix_element(rb, BK::B2, BK::B0, w), ref(BK::B2, BK::B0, w, ab), 1e-9 * ab.maxCoeff() + 1e-300, "second-derivative cross-basis matrix");
  const BK rk[] = {BK::R0, BK::R1, BK::R2}; BK k = rk[s.draw(3)]; c.throws([&] { ra.matrix_element(rb, k, BK::B0, w); }, "over-r kind across bases");
}
VT_CHECK(evaluation, 12000, 15000, "two elements or more") {
  FEspec e = rspec(s, 5, 8); int nq = rquad(s); RB rb(e.make(), nq); setup(c, e, nq); int iel = (int) s.draw(e.nel()); c.nontrivial = e.nel() > 1; bool cached = s.flag(); if (cached) { rb.fill_quadrature_cache(false, false); if (s.flag()) rb.fill_quadrature_cache(true, s.flag()); }
  std::vector<double> x; for (int i = 0; i < 4; i++) x.push_back(iel == 0 ? s.real(-0.9, 1) : s.real(-1, 1)); size_t a, b; rb.get_idx(iel, a, b); auto cut = [&](const MatD & m) { return MatD(m.middleCols(a, b - a + 1)); };
  double t = e.f.m >= 2 ? 1e-7 : 1e-9; const BK kk[] = {BK::R0, BK::R1, BK::R2}; const MatD ev[] = {rb.get_bf(tovec(x), iel), rb.get_df(tovec(x), iel), rb.get_lf(tovec(x), iel)}; for (int k = 0; k < 3; k++) same(c, ev[k], cut(fun(e, iel, x, kk[k])), t * funa(e, iel, x, kk[k]).maxCoeff(), vt::fmt("derivative %d of R", k));
  VecD xq = rb.get_xq(); c.ok((int) xq.size() == nq && rb.get_nquad() == nq, "quadrature order"); samer(c, rb.get_bf(iel), rb.get_bf(xq, iel), 1e-14, "R at the quadrature points"); samer(c, rb.get_df(iel), rb.get_df(xq, iel), 1e-14, "R' at the quadrature points"); samer(c, rb.get_lf(iel), rb.get_lf(xq, iel), 1e-14, "R'' at the quadrature points");
  VecD r = rb.get_r(iel), w = rb.get_wrad(iel); double sum = 0, m1 = 0; for (int i = 0; i < r.size(); i++) { c.close(r(i), e.coord(xq(i), iel), 1e-13, 1e-13, "radius"); sum += w(i); m1 += w(i) * r(i); } double h = e.b[iel + 1] - e.b[iel]; c.close(sum, h, 1e-12, 1e-11, "radial weights"); c.close(m1, h * e.coord(0, iel), 1e-12, 1e-4, "first moment of the radial weights");
  MatD C = randmat(s, (int) e.nbf(), 2); int at = (int) s.draw(5); double rr; int je; double xx; if (at == 0) { rr = 0; je = 0; xx = -1; } else if (at == 1) { int k = s.range(0, e.nel() - 1); rr = e.b[k + 1]; je = k; xx = 1; } else if (at == 2) { rr = e.b.back() * (1 + s.logreal(1e-6, 5)); je = -1; xx = 0; } else { je = (int) s.draw(e.nel()); xx = s.real(-1, 1); rr = e.coord(xx, je); }
  c.d(" orbitals at r=%.8g", rr); VecD o = rb.eval_orbs(C, rr); c.ok(o.size() == 2, "number of orbital values"); VecD want = VecD::Zero(2); if (at == 0) want = (e.eval({-1.0}, 1, 0) * C).transpose(); else if (je >= 0 && rr > 1e-3) want = (fun(e, je, {xx}, BK::R0) * C).transpose(); else if (je >= 0) want = o; for (int i = 0; i < 2; i++) c.close(o(i), want(i), 1e-9 * e.N * e.N, 1e-8, "orbital value");
  // nucleus
  MatD d1 = e.eval({-1.0}, 1, 0), d2 = e.eval({-1.0}, 2, 0); MatD P = randsymf(s, (int) e.nbf()); double nd = (d1 * P * d1.transpose())(0, 0), ng = (d1 * P * d2.transpose())(0, 0); c.close(rb.nuclear_density(P), nd, 1e-10 * d1.cwiseAbs().sum() * d1.cwiseAbs().sum(), 0, "density at the nucleus"); c.close(rb.nuclear_density_gradient(P), ng, 1e-10 * d1.cwiseAbs().sum() * d2.cwiseAbs().sum() + 1e-12, 0, "density gradient at the nucleus"); RowVec<double> no = rb.nuclear_orbital(C); MatD wo = d1 * C; c.ok(no.size() == 2, "nuclear orbital count"); for (int i = 0; i < 2; i++) c.close(no(i), wo(0, i), 1e-10 * d1.cwiseAbs().sum(), 0, "orbital at the nucleus");
  // consistency with the density near the nucleus
  int n = (int) e.nbf() + (s.flag() ? 1 : -1); MatD bad = MatD::Zero(n, n); c.throws([&] { rb.nuclear_density(bad); }, "density of a wrong size"); c.throws([&] { rb.nuclear_density_gradient(bad); }, "gradient of a wrong size");
}
VT_CHECK(spherical_potential, 5000, 6000, "at least two functions in the element") {
  FEspec e = rspec(s, 4, 7); int nq = s.range(15 + 2 * e.N * (e.order() + 1), 2 * e.N * (e.order() + 1) + 40); RB rb(e.make(), nq); setup(c, e, nq); int iel = (int) s.draw(e.nel()); size_t a, b; rb.get_idx(iel, a, b); int n = (int) (b - a + 1); c.nontrivial = n > 1; MatD V = rb.spherical_potential(iel); c.ok(V.rows() == nq && V.cols() == n * n, "shape"); VecD r = rb.get_r(iel), xq = rb.get_xq();
  for (int t = 0; t < 3; t++) { int ip = (int) s.draw(nq); auto f0 = block(e, iel, BK::B0, BK::B0, Fn(), {}, -1, xq(ip)), f1 = block(e, iel, BK::B0, BK::B0, [](double q) { return 1 / q; }, {}, xq(ip), 1); double sc = (f0.a / r(ip) + f1.a).maxCoeff(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.close(V(ip, i * n + j), f0.m(a + i, a + j) / r(ip) + f1.m(a + i, a + j), 1e-6 * sc, 0, vt::fmt("potential of product (%d,%d) at point %d", i, j, ip)); }
}
VT_CHECK(quadrature_seed, 300, 3000, "different starting orders") {
  FEspec e = rspec(s, 4, 8); int n1 = s.range(1, 12), n2 = s.range(20, 120); RB a(e.make(), n1), b(e.make(), n2); setup(c, e, n1); c.d(" vs %d", n2); samer(c, a.overlap(), b.overlap(), 1e-13, "overlap"); samer(c, a.kinetic(), b.kinetic(), 1e-13, "kinetic"); samer(c, a.kinetic_l(), b.kinetic_l(), 1e-13, "centrifugal"); samer(c, a.nuclear(), b.nuclear(), 1e-13, "nuclear"); FEspec o = rspec(s, 3, 5); RB r1(o.make(), s.range(1, 9)), r2(o.make(), s.range(20, 60)); samer(c, a.overlap(r1), b.overlap(r2), 1e-11, "cross-basis overlap"); int L = s.range(0, 4), iel = (int) s.draw(e.nel()); samer(c, a.twoe_integral(L, iel), b.twoe_integral(L, iel), 1e-10, "two-electron block");
}
VT_MAIN()
