// LIBS: core general atomic sadatom sadscf checkpoint diatomic
// P14: diatomic basis matrices and evaluated functions against quadrature in prolate spheroidal coordinates.
#include "diatgen.h"
#include "../src/diatomic/twodquadrature.h"
#include "../src/general/gsz.h"
#include "../src/general/lcao.h"
#include <ModelPotential.h>
#include <Eigen/Eigenvalues>
#include <unistd.h>
using helfem::diatomic::twodquad::TwoDGrid;
static int angpts(const DSpec & p, int extra) { return p.l.maxCoeff() + 4 + extra; }
// entrywise tolerance: relative to the geometric mean of the diagonal of a majorising operator
static void cmpd(vt::Ctx & c, const MatD & got, const MatD & want, const VecD & d, double rel, const std::string & w, const DSpec & p, bool sym = true) {
  c.ok(got.rows() == want.rows() && got.cols() == want.cols(), w + ": shape"); c.evals += got.size(); double mx = d.maxCoeff(); auto L = p.list();
  for (int i = 0; i < got.rows(); i++) for (int j = 0; j < got.cols(); j++) { double t = rel * std::sqrt(d(i) * d(j)) + 3e-15 * mx; if (!(std::abs(got(i, j) - want(i, j)) <= t)) c.fail(vt::fmt("%s: element (%d,%d) is %.15g, expected %.15g (difference %.3g, allowed %.3g)", w.c_str(), i, j, got(i, j), want(i, j), got(i, j) - want(i, j), t)); if (sym && !(std::abs(got(i, j) - got(j, i)) <= t)) c.fail(w + ": not symmetric"); if (p.m(L[i].first) != p.m(L[j].first)) c.ok(got(i, j) == 0, w + ": forbidden element is not zero"); } }
VT_CHECK(overlap_kinetic, 700, 25000, "more than one shell") {
  DSpec p = dspec(s, c); DB b = p.make(); auto L = p.list(); c.nontrivial = p.na() > 1; c.ok(b.Nbf() == L.size() && b.Ndummy() == (size_t) p.nr() * p.na() && b.Nrad() == (size_t) p.nr() && b.Nang() == (size_t) p.na(), "number of functions"); MatD S = volume(p, p, [](double, double) { return 1.0; }, angpts(p, 0)); cmpd(c, b.overlap(), S, S.diagonal(), 1e-11, "overlap", p);
  auto sh = [](double mu) { return std::sinh(mu); }; MatD T = mupanels(p.e, p.e, 1, 1, sh), I = mupanels(p.e, p.e, 0, 0, sh), C = mupanels(p.e, p.e, 0, 0, [](double mu) { return 1 / std::sinh(mu); }); int n = (int) L.size(); MatD K = MatD::Zero(n, n);
  // angular gradient by direct quadrature of the derivative of the harmonics
  std::vector<double> ag(p.na()); for (int a = 0; a < p.na(); a++) { int l = p.l(a), m = p.m(a); auto & r = sph::rule((l + 8 + 7) / 8 * 8); LD g = 0; for (size_t q = 0; q < r.first.size(); q++) { LD x = r.first[q], st = std::sqrt((1 - x) * (1 + x)), t = sph::theta1(l, m, x), dth = m * x / st * t; if (m + 1 <= l) dth += std::sqrt((LD) ((l - m) * (l + m + 1))) * sph::theta1(l, m + 1, x); g += r.second[q] * (dth * dth + m * m * t * t / (st * st)); } ag[a] = (double) (2 * sph::PI * g); }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (L[i].first == L[j].first) { int a = L[i].first, m = p.m(a), x = L[i].second, y = L[j].second; K(i, j) = 0.5 * p.R * (T(x, y) + ag[a] * I(x, y) + (m ? m * m * C(x, y) : 0)); }
  cmpd(c, b.kinetic(), K, K.diagonal(), 1e-9, "kinetic energy", p); }
VT_CHECK(fields, 700, 25000, "a coupling between different shells") {
  DSpec p = dspec(s, c); DB b = p.make(); double R = p.R; for (int i = 0; i < p.na(); i++) for (int j = 0; j < i; j++) if (p.m(i) == p.m(j) && std::abs(p.l(i) - p.l(j)) <= 4) c.nontrivial = true;
  auto r2 = [R](double mu, double x) { double ch = std::cosh(mu); return R * R * (ch * ch + x * x - 1); }; auto z = [R](double mu, double x) { return R * std::cosh(mu) * x; }; MatD one = volume(p, p, [](double, double) { return 1.0; }, angpts(p, 0));
  MatD D = volume(p, p, z, angpts(p, 2)), DA = volume(p, p, [&](double mu, double) { return R * std::cosh(mu); }, angpts(p, 2)); cmpd(c, b.dipole_z(), D, DA.diagonal(), 1e-11, "dipole", p);
  MatD Q = volume(p, p, [&](double mu, double x) { double zz = z(mu, x); return 0.5 * (3 * zz * zz - r2(mu, x)); }, angpts(p, 3)), QA = volume(p, p, [&](double mu, double) { return R * R * std::cosh(mu) * std::cosh(mu); }, angpts(p, 3)); cmpd(c, b.quadrupole_zz(), Q, QA.diagonal(), 1e-11, "quadrupole", p);
  double B = s.sym(3); c.d(" B=%.6g", B); MatD V = volume(p, p, [&](double mu, double x) { double sh = std::sinh(mu); return B * B / 8 * R * R * sh * sh * (1 - x * x); }, angpts(p, 3)); VecD d = B * B / 8 * QA.diagonal() + std::abs(B) * 4 * one.diagonal(); auto L = p.list(); for (int i = 0; i < V.rows(); i++) for (int j = 0; j < V.cols(); j++) if (p.m(L[i].first) == p.m(L[j].first)) V(i, j) -= 0.5 * B * p.m(L[i].first) * one(i, j); cmpd(c, b.Bz_field(B), V, d, 1e-11, "magnetic field", p);
}
VT_CHECK(nuclear, 700, 25000, "different charges and more than one shell") {
  DSpec p = dspec(s, c); c.nontrivial = p.Z1 != p.Z2 && p.na() > 1; DB b = p.make(); double R = p.R; int Z1 = p.Z1, Z2 = p.Z2; auto v = [=](double mu, double x) { double ch = std::cosh(mu); return -Z1 / (R * (ch + x)) - Z2 / (R * (ch - x)); }; MatD V = volume(p, p, v, angpts(p, 1)); VecD d = (-V.diagonal()).cwiseAbs().array() + 1e-300; VecD full = -volume(p, p, [=](double mu, double x) { double ch = std::cosh(mu); return -(Z1 + Z2 + 1) * (1 / (R * (ch + x)) + 1 / (R * (ch - x))); }, angpts(p, 1)).diagonal(); (void) d; cmpd(c, b.nuclear(), V, full, 1e-11, "nuclear attraction", p);
  DSpec q = p; std::swap(q.Z1, q.Z2); MatD W = q.make().nuclear(); auto L = p.list(); for (int i = 0; i < W.rows(); i++) for (int j = 0; j < W.cols(); j++) W(i, j) *= (p.l(L[i].first) + p.l(L[j].first)) % 2 ? -1 : 1; cmpd(c, b.nuclear(), W, full, 1e-12, "exchanging the nuclei reflects the potential", p);
  c.ok(b.get_Z1() == p.Z1 && b.get_Z2() == p.Z2 && b.get_Rhalf() == p.R && b.get_mumax() == p.e.b.back() && b.get_nquad() == p.nq && b.get_poly_nnodes() == p.e.N && b.get_bval().isApprox(tovec(p.e.b), 0) && b.get_lval() == p.l && b.get_mval() == p.m, "stored parameters"); }
VT_CHECK(model_potential, 60, 600, "more than one shell") {
  using namespace helfem::modelpotential; DSpec p = dspec(s, c, 3, 4, 2, 4, 1.0); p.nq = s.range(60, 90); int lang = s.range(60, 100); DB b = p.make(); c.nontrivial = p.na() > 1; int k = s.range(0, 2); double a1 = s.real(0.3, 1), a2 = s.real(0.3, 1); std::unique_ptr<ModelPotential> v1, v2; if (k == 0) { v1.reset(new GSZAtom(s.range(1, 30), a1, s.real(0.5, 2))); v2.reset(new GSZAtom(s.range(1, 30), a2, s.real(0.5, 2))); } else if (k == 1) { v1.reset(get_nuclear_model<double>(GAUSSIAN_NUCLEUS, s.range(1, 10), a1)); v2.reset(get_nuclear_model<double>(GAUSSIAN_NUCLEUS, s.range(1, 10), a2)); } else { v1.reset(get_nuclear_model<double>(POINT_NUCLEUS, p.Z1, 0)); v2.reset(get_nuclear_model<double>(POINT_NUCLEUS, p.Z2, 0)); }
  c.d(" potential %d lang=%d", k, lang); c.label("potential", k); TwoDGrid g(&b, lang); double R = p.R; auto f = [&](double mu, double x) { double ch = std::cosh(mu); return v1->V(R * (ch + x)) + v2->V(R * (ch - x)); }; MatD V = volume(p, p, f, 120, 60); VecD d = (-V.diagonal()).cwiseAbs().array() + 1; MatD got = g.model_potential(v1.get(), v2.get()); cmpd(c, got, V, d, 1e-5, "model potential", p); if (k == 2) { VecD e = b.nuclear().diagonal().cwiseAbs().array() + 1; cmpd(c, got, b.nuclear(), e, 1e-5, "point-nucleus model potential", p); }
}
VT_CHECK(projection, 80, 800, "an order or degree above zero") {
  using namespace helfem; using namespace diatomic::twodquad; DSpec p = dspec(s, c, 3, 4, 3, 5, 1.2); p.nq = s.range(50, 80); int lang = s.range(60, 90); DB b = p.make(); bool sto = s.flag(); int pr = s.range(0, 2), m = p.m((int) s.draw(p.na())), l = std::abs(m) + s.range(0, 2); probe_t pt = pr == 0 ? PROBE_LEFT : pr == 1 ? PROBE_RIGHT : PROBE_MIDDLE; int nx = s.range(1, 3); Vector ex(nx); for (int i = 0; i < nx; i++) ex(i) = s.logreal(0.3, 2) / (sto ? p.R : p.R * p.R); c.d(" %s l=%d m=%d probe %d exponents %.5g..", sto ? "STO" : "GTO", l, m, pr, ex(0)); c.nontrivial = l > 0; c.label("probe", pr); c.label("kind", sto ? "sto" : "gto"); TwoDGrid g(&b, lang);
  MatD P = sto ? g.sto_projection(l, m, ex, pt) : g.gto_projection(l, m, ex, pt), O = sto ? g.sto_overlap(l, m, ex, pt) : g.gto_overlap(l, m, ex, pt); auto L = p.list(); c.ok(P.rows() == nx && P.cols() == (int) L.size() && O.rows() == nx && O.cols() == nx, "shape"); double R = p.R; MatD W = MatD::Zero(nx, L.size()), V = MatD::Zero(nx, nx);
  // reference: angular and radial Gauss-Legendre, angular part split at the mid-plane for the bond centre
  std::vector<double> gx, gw; gauss(48, gx, gw); for (int half = 0; half < 2; half++) for (int t = 0; t < 48; t++) { LD x = half - 0.5L + 0.5L * gx[t]; double wx = 0.5 * gw[t]; std::vector<double> th(p.na()); for (int a = 0; a < p.na(); a++) th[a] = (double) sph::theta1(p.l(a), p.m(a), x);
    for (int el = 0; el < p.e.nel(); el++) { MatD u = p.e.eval(gx, 0, el); for (int q = 0; q < 48; q++) { double mu = p.e.coord(gx[q], el), ch = std::cosh(mu), sh = std::sinh(mu), zc = R * ch * (double) x, rho = R * sh * (double) std::sqrt((1 - x) * (1 + x)), z = pr == 0 ? zc + R : pr == 1 ? zc - R : zc, r = pr == 0 ? R * (ch + (double) x) : pr == 1 ? R * (ch - (double) x) : std::hypot(zc, rho); double ct = r > 0 ? std::max(-1.0, std::min(1.0, z / r)) : 1; if (pr == 0) ct = (double) ((1 + ch * x) / (ch + x)); if (pr == 1) ct = (double) (-(1 - ch * x) / (ch - x)); double Y = (double) sph::theta1(l, m, std::max(-1.0, std::min(1.0, ct))); double w = wx * gw[q] * 0.5 * (p.e.b[el + 1] - p.e.b[el]) * 2 * M_PI * R * R * R * sh * (sh * sh + (double) ((1 - x) * (1 + x))); std::vector<double> f(nx); for (int i = 0; i < nx; i++) f[i] = Y * (sto ? lcao::radial_STO(r, l, ex(i)) : lcao::radial_GTO(r, l, ex(i))); for (int i = 0; i < nx; i++) { for (int j = 0; j < nx; j++) V(i, j) += w * f[i] * f[j]; for (size_t k = 0; k < L.size(); k++) if (p.m(L[k].first) == m) W(i, k) += w * f[i] * th[L[k].first] * u(q, L[k].second); } } } }
  // phases: the code uses |m| and measures the polar angle of the right atom towards the left one; a global sign is conventional
  double tol = sto && pr == 2 ? 2e-3 : 1e-5; VecD nb = b.overlap().diagonal().cwiseSqrt(); double dot = 0; for (int i = 0; i < nx; i++) for (size_t k = 0; k < L.size(); k++) dot += P(i, k) * W(i, k) / (nb(k) * nb(k)); double sg = dot < 0 ? -1 : 1; if (m >= 0 && (pr != 1 || l % 2 == 0 || true)) c.label("sign", sg > 0 ? "+" : "-"); c.evals += P.size(); for (int i = 0; i < nx; i++) for (size_t k = 0; k < L.size(); k++) if (!(std::abs(sg * P(i, k) - W(i, k)) <= tol * nb(k))) c.fail(vt::fmt("projection of function %d on basis function %zu is %.12g, expected %.12g", i, k, P(i, k), sg * W(i, k)));
  same(c, O, V, tol, "overlap of the projected functions");
}
VT_CHECK(cross_overlap, 700, 15000, "the two bases share an order") {
  DSpec p = dspec(s, c, 4), q = dspec(s, c, 4); q.R = p.R; if (s.flag()) { double f = p.e.b.back() / q.e.b.back(); for (auto & x : q.e.b) x *= f; q.e.b.back() = p.e.b.back(); } DB a = p.make(), b = q.make(); for (int i = 0; i < p.na(); i++) for (int j = 0; j < q.na(); j++) if (p.m(i) == q.m(j)) c.nontrivial = true; MatD S = volume(p, q, [](double, double) { return 1.0; }, std::max(angpts(p, 0), angpts(q, 0))); VecD dp = a.overlap().diagonal().cwiseSqrt(), dq = b.overlap().diagonal().cwiseSqrt(); MatD X = a.overlap(b), Y = b.overlap(a); c.ok(X.rows() == S.rows() && X.cols() == S.cols() && Y.rows() == S.cols() && Y.cols() == S.rows(), "shape"); c.evals += X.size(); double mx = dp.maxCoeff() * dq.maxCoeff(); for (int i = 0; i < X.rows(); i++) for (int j = 0; j < X.cols(); j++) { double t = 1e-10 * dp(i) * dq(j) + 1e-14 * mx; if (!(std::abs(X(i, j) - S(i, j)) <= t && std::abs(Y(j, i) - S(i, j)) <= t)) c.fail(vt::fmt("overlap between two bases (%d,%d): %.14g and %.14g, expected %.14g", i, j, X(i, j), Y(j, i), S(i, j))); } MatD O = a.overlap(), OO = a.overlap(a); VecD d = O.diagonal(); cmpd(c, OO, O, d, 1e-11, "overlap with itself", p);
}
VT_CHECK(evaluation, 700, 25000, "more than one shell with nonzero order") {
  DSpec p = dspec(s, c, 5, 6); DB b = p.make(); double x = s.flag(1, 6) ? s.pick({1.0, -1.0, 0.0}) : s.flag(1, 5) ? 1 - s.logreal(1e-10, 1e-2) : s.real(-1, 1), phi = s.sym(4); int iel = (int) s.draw(p.e.nel()); c.d(" element %d cos=%.17g phi=%.6g", iel, x, phi); int nzm = 0; for (int i = 0; i < p.na(); i++) nzm += p.m(i) != 0; c.nontrivial = p.na() > 1 && nzm; VecD mu = b.get_r(iel), w = b.get_wrad(iel); c.ok(mu.size() == p.nq && w.size() == p.nq && b.get_rad_Nel() == (size_t) p.e.nel(), "quadrature size"); int ir = (int) s.draw(p.nq); double lo = p.e.b[iel], hi = p.e.b[iel + 1], M = mu(ir), h = 0.5 * (hi - lo); c.ok(M >= lo - 1e-13 && M <= hi * (1 + 1e-13), "radial point outside the element"); c.close(w.sum(), hi - lo, 0, 1e-9, "radial weights");
  std::vector<double> xi = {(M - 0.5 * (lo + hi)) / h}; MatD u0 = p.e.eval(xi, 0, iel), u1 = p.e.eval(xi, 1, iel), u2 = p.e.eval(xi, 2, iel); auto L = p.list(); auto dum = b.bf_list_dummy(iel), real = b.bf_list(iel); Eigen::MatrixXcd f = b.eval_bf(iel, ir, x, phi), dr, dt, dp; b.eval_df(iel, ir, x, phi, dr, dt, dp); c.ok(f.rows() == 1 && f.cols() == (int) dum.size() && dr.cols() == f.cols() && dt.cols() == f.cols() && dp.cols() == f.cols(), "shapes"); auto T = [&](int l, int m) { return (double) sph::theta1(l, m, x); }; auto dT = [&](int l, int m) { LD d = 0; if (m + 1 <= l) d += 0.5L * std::sqrt((LD) ((l - m) * (l + m + 1))) * sph::theta1(l, m + 1, x); if (m - 1 >= -l) d -= 0.5L * std::sqrt((LD) ((l + m) * (l - m + 1))) * sph::theta1(l, m - 1, x); return (double) d; };
  double m0 = u0.cwiseAbs().maxCoeff() + 1e-3, m1 = u1.cwiseAbs().maxCoeff() + m0 / h, m2 = u2.cwiseAbs().maxCoeff() + m1 / h; double ch = std::cosh(M), sh = std::sinh(M); double h2 = p.R * p.R * (sh * sh + (1 - x) * (1 + x));
  auto cl = [&](std::complex<double> a, std::complex<double> z, double tol, const char * n, int l, int m) { c.evals++; if (!(std::abs(a - z) <= tol)) c.fail(vt::fmt("%s for l=%d m=%d at mu=%.10g: (%.12g,%.12g) instead of (%.12g,%.12g)", n, l, m, M, a.real(), a.imag(), z.real(), z.imag())); };
  for (size_t k = 0; k < dum.size(); k++) { int a = (int) (dum[k] / p.nr()), g = (int) (dum[k] % p.nr()), l = p.l(a), m = p.m(a); std::complex<double> e = std::exp(std::complex<double>(0, m * phi)); double t = 1e-11 * (l + 1); cl(f(0, k), u0(0, g) * T(l, m) * e, t * m0, "value", l, m); cl(dr(0, k), u1(0, g) * T(l, m) * e, t * m1, "mu derivative", l, m); cl(dt(0, k), u0(0, g) * dT(l, m) * e, t * (l + 1) * m0, "nu derivative", l, m); cl(dp(0, k), std::complex<double>(0, m) * u0(0, g) * T(l, m) * e, t * (l + 1) * m0, "phi derivative", l, m); }
  // real-index list: exactly the kept ones, in order
  { auto pi = b.pure_indices(); c.ok(pi.size() == L.size(), "pure index count"); for (size_t i = 0; i < pi.size(); i++) c.ok(pi[i] == (Eigen::Index) L[i].first * p.nr() + L[i].second, "pure index"); std::map<Eigen::Index, Eigen::Index> inv; for (size_t i = 0; i < pi.size(); i++) inv[pi[i]] = i; std::vector<Eigen::Index> want; for (auto d : dum) if (inv.count(d)) want.push_back(inv[d]); c.ok(want == real, "function list of the element"); for (int g = 0; g < p.nr(); g++) if (std::abs(u0(0, g)) > 1e-9) for (int a = 0; a < p.na(); a++) c.ok(std::find(dum.begin(), dum.end(), (Eigen::Index) a * p.nr() + g) != dum.end(), "function missing from the element"); }
  // fixed-order real evaluation
  int m = s.flag(1, 5) ? s.range(-5, 5) : p.m((int) s.draw(p.na())); auto dm = b.bf_list_dummy(iel, m); MatD fm = b.eval_bf(iel, ir, x, m), fm2 = b.eval_bf(iel, ir, x, m, b.get_rad_bf(iel)), a1, a2, lf; b.eval_df(iel, ir, x, m, a1, a2); b.eval_lf(iel, ir, x, m, lf); c.ok(fm.cols() == (int) dm.size() && a1.cols() == fm.cols() && a2.cols() == fm.cols() && lf.cols() == fm.cols(), "fixed-order shapes"); for (size_t k = 0; k < dm.size(); k++) { int a = (int) (dm[k] / p.nr()), g = (int) (dm[k] % p.nr()), l = p.l(a); c.ok(p.m(a) == m, "order of the listed function"); double t = 1e-11 * (l + 1); cl(fm(0, k), u0(0, g) * T(l, m), t * m0, "fixed-order value", l, m); c.ok(fm2(0, k) == fm(0, k), "hoisted evaluation"); cl(a1(0, k), u1(0, g) * T(l, m), t * m1, "fixed-order mu derivative", l, m); cl(a2(0, k), u0(0, g) * dT(l, m), t * (l + 1) * m0, "fixed-order nu derivative", l, m); if (sh > 0) { double lap = (u2(0, g) + ch / sh * u1(0, g) - (l * (l + 1) + m * m / (sh * sh)) * u0(0, g)) * T(l, m) / h2, sc = (m2 + ch / sh * m1 + (l * (l + 1) + m * m / (sh * sh)) * m0) / h2; cl(lf(0, k), lap, 10 * t * sc, "fixed-order Laplacian", l, m); } }
  // free point
  double mm = s.flag(1, 4) ? p.e.b[s.draw(p.e.b.size())] : s.real(0, p.e.b.back()); int el = 0; while (el + 1 < p.e.nel() && mm > p.e.b[el + 1]) el++; Eigen::VectorXcd v = b.eval_bf(mm, x, phi); c.ok(v.size() == (int) L.size(), "length"); MatD u = p.e.eval({std::min(1.0, 2 * (mm - p.e.b[el]) / (p.e.b[el + 1] - p.e.b[el]) - 1)}, 0, el); double mu0 = u.cwiseAbs().maxCoeff() + 1e-3; for (size_t i = 0; i < L.size(); i++) { int l = p.l(L[i].first), q = p.m(L[i].first); cl(v(i), u(0, L[i].second) * T(l, q) * std::exp(std::complex<double>(0, q * phi)), 1e-11 * (l + 1) * mu0, "value at a free point", l, q); } c.throws([&] { b.eval_bf(p.e.b.back() + s.logreal(1e-6, 1), x, phi); }, "point beyond the last element");
}
VT_CHECK(symmetry_sets, 700, 25000, "more than one block") {
  DSpec p = dspec(s, c, 5, 8); DB b = p.make(); int sym = s.range(0, 3); auto L = p.list(); int mmx = p.m.cwiseAbs().maxCoeff(); if (sym == 3) { bool paired = true; for (int i = 0; i < p.na(); i++) { bool f = false; for (int j = 0; j < p.na(); j++) f |= p.l(i) == p.l(j) && p.m(i) == -p.m(j); paired &= f; } if (!paired) sym = 2; } c.d(" symmetry %d", sym); c.label("symmetry", sym); auto idx = b.get_sym_idx(sym); auto lab = b.get_sym_labels(sym); auto mir = b.get_sym_mirror_idx(sym); c.ok(idx.size() == lab.size() && mir.size() == idx.size(), "one label and mirror per block"); c.nontrivial = idx.size() > 1; std::set<Eigen::Index> seen; std::vector<int> owner(L.size(), -1);
  for (size_t k = 0; k < idx.size(); k++) { for (auto i : idx[k]) { c.ok(i >= 0 && i < (Eigen::Index) L.size() && seen.insert(i).second, "blocks are disjoint and in range"); owner[i] = (int) k; int l = p.l(L[i].first), m = p.m(L[i].first); std::string ms = vt::fmt(m > 0 ? "m=+%d" : "m=%d", m), want = sym == 0 ? "all" : sym == 1 ? ms : sym == 2 ? ms + (l % 2 ? " u" : " g") : vt::fmt("|m|=%d", m); c.ok(lab[k] == want, "block labelled " + lab[k] + " holds a function of " + want); }
    if (sym == 3 && k > 0) { c.ok(mir[k].size() == idx[k].size(), "mirror size"); for (size_t q = 0; q < mir[k].size(); q++) { auto i = mir[k][q], j = idx[k][q]; c.ok(seen.insert(i).second, "mirror overlaps a block"); owner[i] = 1000 + (int) k; c.ok(p.m(L[i].first) == -p.m(L[j].first), "mirror order"); } std::multiset<std::pair<int, int>> A, B; for (auto i : mir[k]) A.insert({p.l(L[i].first), L[i].second}); for (auto i : idx[k]) B.insert({p.l(L[i].first), L[i].second}); c.ok(A == B, "mirror holds the same functions"); } else c.ok(mir[k].empty(), "no mirror"); }
  c.ok(seen.size() == L.size(), "blocks and mirrors cover the basis"); if (sym < 3) for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < i; j++) { int a = L[i].first, z = L[j].first; bool eq = sym == 0 || (p.m(a) == p.m(z) && (sym == 1 || (p.l(a) - p.l(z)) % 2 == 0)); c.ok((owner[i] == owner[j]) == eq, "functions of one symmetry share a block"); } c.ok(sym != 3 || (int) idx.size() == mmx + 1, "number of blocks");
  int m = s.range(-5, 5); auto mi = b.m_indices(m), me = b.m_indices(m, false), mo = b.m_indices(m, true); size_t n1 = 0, n2 = 0; for (auto & x : L) if (p.m(x.first) == m) { n1++; if (p.l(x.first) % 2) n2++; } c.ok(mi.size() == n1 && mo.size() == n2 && me.size() == n1 - n2, "index list lengths"); for (auto i : mi) c.ok(p.m(L[i].first) == m, "m index"); for (auto i : mo) c.ok(p.l(L[i].first) % 2 == 1, "odd index"); for (auto i : me) c.ok(p.l(L[i].first) % 2 == 0, "even index");
  if (sym < 3) { bool chol = s.flag(); MatD S = b.overlap(), Z = S; VecD d = S.diagonal().cwiseSqrt().cwiseInverse(); Eigen::SelfAdjointEigenSolver<MatD> es(d.asDiagonal() * S * d.asDiagonal(), Eigen::EigenvaluesOnly); double lo = es.eigenvalues()(0), sp = S.diagonal().maxCoeff() / S.diagonal().minCoeff(); if (sym == 0) for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < L.size(); j++) (void) Z; bool blockdiag = true; if (sym == 2) for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < L.size(); j++) if (owner[i] != owner[j] && S(i, j) != 0) blockdiag = false; (void) sp; if (lo > 1e-8 && blockdiag) { MatD X = b.Sinvh(chol, sym); MatD I = X.transpose() * S * X; same(c, I, MatD::Identity(I.rows(), I.cols()), 1e-12 / lo + 1e-14 * sp, "orthonormalisation"); } }
  int bad = s.flag() ? -s.range(1, 3) : s.range(4, 7); c.throws([&] { b.get_sym_idx(bad); }, "unknown symmetry"); c.throws([&] { b.get_sym_labels(bad); }, "unknown symmetry labels");
}
VT_CHECK(boundaries, 700, 20000, "a nonzero order is present") {
  DSpec p = dspec(s, c, 4, 6); DB b = p.make(); auto L = p.list(); int n = (int) L.size(), N = (int) b.Ndummy(); c.nontrivial = N > n; MatD P = randmat(s, n, n), X = b.expand_boundaries(P); c.ok(X.rows() == N && X.cols() == N, "expanded size"); same(c, b.remove_boundaries(X), P, 0, "removing restored boundaries"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.ok(X(L[i].first * p.nr() + L[i].second, L[j].first * p.nr() + L[j].second) == P(i, j), "expanded element"); c.close(X.cwiseAbs().sum(), P.cwiseAbs().sum(), 0, 1e-12, "nothing else is filled in"); int k = n + (s.flag() ? 1 : -1); MatD W = MatD::Zero(k, k); c.throws([&] { b.expand_boundaries(W); }, "wrong size to expand"); if (N + 1 != n) { MatD U = MatD::Zero(N + 1, N + 1); c.throws([&] { b.remove_boundaries(U); }, "wrong size to trim"); } std::vector<Eigen::Index> bad = {0, N}; c.throws([&] { b.dummy_idx_to_real_idx(bad); }, "index out of range");
}
VT_CHECK(shell_list, 1500, 15000, "several orders") {
  int M = s.range(0, 5); Eigen::VectorXi lm(M + 1); for (int i = 0; i <= M; i++) { lm(i) = s.range(-1, 9); } c.d("lmax=[%d..]", lm(0)); c.nontrivial = M > 0; Eigen::VectorXi l, m; helfem::diatomic::basis::lm_to_l_m(lm, l, m); std::multiset<std::pair<int, int>> got, want; for (int i = 0; i < l.size(); i++) got.insert({l(i), m(i)}); for (int k = 0; k <= M; k++) for (int a = k; a <= lm(k); a++) { want.insert({a, k}); if (k) want.insert({a, -k}); } c.ok(got == want, "shells are exactly the requested degrees of each order");
}
VT_MAIN()
