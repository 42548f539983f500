// LIBS: core general atomic
// P12: atomic basis matrices and evaluated functions against independent radial and angular quadrature.
#include "atomgen.h"
VT_CHECK(overlap_kinetic, 4000, 40000, "more than one shell and more than one radial function") {
  Spec p = spec(s, c); AB b = p.make(); c.nontrivial = p.na() > 1 && p.nr() > 1; c.ok(b.Nbf() == (size_t) p.nr() * p.na() && b.Ndummy() == b.Nbf() && b.Nrad() == (size_t) p.nr() && b.Nang() == (size_t) p.na(), vt::fmt("number of functions %zu", b.Nbf()));
  MatD A = delta(p); auto one = [](double) { return 1.0; }; cmp(c, b.overlap(), kron(A, radial(p.e, p.e, 0, 0, one)), 1e-11, "overlap", A);
  // 1/2 <grad|grad>: radial part integrated by parts plus the angular gradient
  MatD K = radial(p.e, p.e, 1, 1, one), C = radial(p.e, p.e, 0, 0, [](double r) { return 1 / (r * r); }); MatD W = MatD::Zero(A.rows() * p.nr(), A.cols() * p.nr());
  for (int i = 0; i < p.na(); i++) { int l = p.l(i), m = p.m(i), n = l + 8; auto & r = sph::rule((n + 7) / 8 * 8); LD g = 0; for (size_t q = 0; q < r.first.size(); q++) { LD x = r.first[q], st = std::sqrt((1 - x) * (1 + x)), t = sph::theta1(l, m, x); LD dth = m * x / st * t; if (m + 1 <= l) dth += std::sqrt((LD) ((l - m) * (l + m + 1))) * sph::theta1(l, m + 1, x); g += r.second[q] * (dth * dth + m * m * t * t / (st * st)); } W.block(i * p.nr(), i * p.nr(), p.nr(), p.nr()) = 0.5 * K + 0.5 * (double) (2 * sph::PI * g) * C; }
  cmp(c, b.kinetic(), W, 1e-10, "kinetic energy", A);
}
VT_CHECK(fields, 3000, 30000, "a coupling between different shells") {
  Spec p = spec(s, c); AB b = p.make(); MatD A1 = ang(p, [](LD x) { return x; }, 1), A2 = ang(p, [](LD x) { return (3 * x * x - 1) / 2; }, 2), S2 = ang(p, [](LD x) { return 1 - x * x; }, 2); auto pw = [&](int n) { return radial(p.e, p.e, 0, 0, [n](double r) { return std::pow(r, n); }); };
  for (int i = 0; i < p.na(); i++) for (int j = 0; j < i; j++) if (std::abs(A1(i, j)) > 1e-12 || std::abs(A2(i, j)) > 1e-12) c.nontrivial = true;
  cmp(c, b.dipole_z(), kron(A1, pw(1)), 1e-11, "dipole", A1, pw(1).cwiseAbs().maxCoeff()); cmp(c, b.quadrupole_zz(), QF * kron(A2, pw(2)), 1e-11, "quadrupole", A2, pw(2).cwiseAbs().maxCoeff());
  double B = s.sym(3); c.d(" B=%.6g", B); MatD L = MatD::Zero(p.na(), p.na()); for (int i = 0; i < p.na(); i++) L(i, i) = -0.5 * B * p.m(i); cmp(c, b.Bz_field(B), kron(S2, B * B / 8 * pw(2)) + kron(L, pw(0)), 1e-11, "magnetic field", S2, 0.1 * pw(2).cwiseAbs().maxCoeff()); }
VT_CHECK(nuclear, 3000, 30000, "an off-centre charge or a non-point nucleus") {
  using namespace helfem::modelpotential; Spec p = spec(s, c, 4, 5, 4); int k = s.range(0, 4); bool off = s.flag(2, 3) && p.e.nel() > 1; if (k) { p.mod = (nuclear_model_t) (k == 1 ? GAUSSIAN_NUCLEUS : k == 2 ? SPHERICAL_NUCLEUS : k == 3 ? HOLLOW_NUCLEUS : REGULARIZED_NUCLEUS); p.Rrms = k == 4 ? s.real(1.5, 6) : s.logreal(0.05, 0.5) * p.e.b[1]; if (p.Z == 0) p.Z = 1; if (k == 4) p.Z = std::min(p.Z, 4); }
  if (off) { p.Zl = s.range(0, 12); p.Zr = s.range(0, 12); p.Rh = p.e.b[s.range(1, p.e.nel())]; } c.d(" Z=%d model=%d size=%.5g Zl=%d Zr=%d R=%.5g", p.Z, (int) p.mod, p.Rrms, p.Zl, p.Zr, p.Rh); c.label("model", k); c.label("off-centre", off ? "yes" : "no"); c.nontrivial = k || p.Zl || p.Zr; AB b = p.make();
  std::vector<double> brk; std::function<double(double)> w; double Z = p.Z, R = p.Rrms; double R0 = std::sqrt(5.0 / 3) * R; std::unique_ptr<ModelPotential> q; if (k == 0) w = [=](double r) { return -Z / r; }; if (k == 1) w = [=](double r) { return -Z / r * std::erf(std::sqrt(1.5) * r / R); }; if (k == 2) { brk = {R0}; w = [=](double r) { return r >= R0 ? -Z / r : -Z / (2 * R0) * (3 - r * r / (R0 * R0)); }; } if (k == 3) { brk = {R}; w = [=](double r) { return -Z / std::max(r, R); }; } if (k == 4) { q.reset(get_nuclear_model<double>(p.mod, p.Z, R)); ModelPotential * qq = q.get(); w = [qq](double r) { return qq->V(r); }; }
  if (k == 1) for (double t = 0.5; t < 8; t += 0.5) brk.push_back(t * R); if (k == 4) for (double t = 0.25; t < 8; t += 0.25) brk.push_back(t / (p.Z * std::sqrt(R)));
  MatD A = delta(p), want = kron(A, radial(p.e, p.e, 0, 0, w, brk, 60)), D = A;
  // off-centre charges: the angular integral by the substitution s = |r - R|, which removes the singularity
  if (off && (p.Zl || p.Zr)) for (int i = 0; i < p.na(); i++) for (int j = 0; j < p.na(); j++) if (p.m(i) == p.m(j)) { int n = p.l(i) + p.l(j) + 6; auto & g = sph::rule((n + 7) / 8 * 8);
      auto f = [&](double r) { LD lo = std::fabs(r - (LD) p.Rh), hi = r + (LD) p.Rh, v = 0; for (size_t t = 0; t < g.first.size(); t++) { LD d = 0.5L * (lo + hi) + 0.5L * (hi - lo) * g.first[t], x = (r * (LD) r + (LD) p.Rh * p.Rh - d * d) / (2 * r * (LD) p.Rh); x = std::max((LD) -1, std::min((LD) 1, x)); LD y = sph::theta1(p.l(i), p.m(i), x) * sph::theta1(p.l(j), p.m(j), x), z = sph::theta1(p.l(i), p.m(i), -x) * sph::theta1(p.l(j), p.m(j), -x); v += 0.5L * (hi - lo) * g.second[t] / (r * (LD) p.Rh) * (p.Zr * y + p.Zl * z); } return (double) (-2 * sph::PI * v); };
      MatD M = radial(p.e, p.e, 0, 0, f, {}, 24); want.block(i * p.nr(), j * p.nr(), p.nr(), p.nr()) += M; D(i, j) = 1; }
  cmp(c, b.nuclear(), want, k == 4 ? 1e-7 : 1e-9, "nuclear attraction", D);
  MatD Vp = b.nuclear(); if (off && k == 0) { Spec f = p; std::swap(f.Zl, f.Zr); MatD Vm = f.make().nuclear(); int n = p.nr(); for (int i = 0; i < p.na(); i++) for (int j = 0; j < p.na(); j++) Vm.block(i * n, j * n, n, n) *= (p.l(i) + p.l(j)) % 2 ? -1 : 1; samer(c, Vp, Vm, 1e-12, "exchanging the two charges reflects the potential"); }
}
VT_CHECK(scalar_potentials, 2500, 25000, "more than one shell") {
  using namespace helfem::modelpotential; Spec p = spec(s, c); AB b = p.make(); c.nontrivial = p.na() > 1; MatD A = delta(p); int Z = s.range(1, 60); GSZAtom g(Z, s.real(0.3, 1.2), s.real(0.5, 3)); c.d(" GSZ Z=%d", Z); cmp(c, b.model_potential(&g), kron(A, radial(p.e, p.e, 0, 0, [&](double r) { return g.V(r); }, {0.02, 0.1, 0.25, 0.5, 1, 1.5, 2})), 1e-9, "model potential", A);
  c.ok(b.confinement(s.range(1, 5), 2.0, 0, 1.0, 0.5).isZero(0), "no confinement"); int N = s.range(1, 6); double r0 = s.real(0.5, 1.0) * p.e.b.back(), sh = 0, V = s.real(0.1, 5); int ic = s.range(1, 3); if (ic == 1) { c.d(" confinement r^%d", N); cmp(c, b.confinement(N, r0, 1, V, sh), kron(A, radial(p.e, p.e, 0, 0, [&](double r) { return std::pow(r / r0, N); })), 1e-10, "polynomial confinement", A); }
}
VT_CHECK(cross_overlap, 2500, 25000, "the two bases share a shell") {
  Spec p = spec(s, c, 3), q = spec(s, c, 3); if (s.flag()) { double f = p.e.b.back() / q.e.b.back(); for (auto & x : q.e.b) x *= f; q.e.b.back() = p.e.b.back(); } AB a = p.make(), b = q.make(); MatD R = radial(p.e, q.e, 0, 0, [](double) { return 1.0; }); MatD A = MatD::Zero(p.na(), q.na()); for (int i = 0; i < p.na(); i++) for (int j = 0; j < q.na(); j++) if (p.l(i) == q.l(j) && p.m(i) == q.m(j)) { A(i, j) = 1; c.nontrivial = true; } MatD want = kron(A, R); same(c, a.overlap(b), want, 1e-11 * std::max(1.0, want.cwiseAbs().maxCoeff()), "overlap between two bases"); same(c, b.overlap(a), MatD(want.transpose()), 1e-11 * std::max(1.0, want.cwiseAbs().maxCoeff()), "transposed overlap"); same(c, a.overlap(a), a.overlap(), 1e-11 * a.overlap().cwiseAbs().maxCoeff(), "overlap with itself");
}
VT_CHECK(evaluation, 3000, 30000, "more than one shell with nonzero order") {
  Spec p = spec(s, c, 6, 6); AB b = p.make(); double x = s.flag(1, 6) ? s.pick({1.0, -1.0, 0.0}) : s.flag(1, 5) ? 1 - s.logreal(1e-10, 1e-2) : s.real(-1, 1), phi = s.sym(4); int iel = (int) s.draw(p.e.nel()); c.d(" element %d cos=%.17g phi=%.6g", iel, x, phi); int nzm = 0; for (int i = 0; i < p.na(); i++) nzm += p.m(i) != 0; c.nontrivial = p.na() > 1 && nzm; c.label("pole", std::abs(x) == 1 ? "yes" : "no");
  helfem::Vec<double> r = b.get_r(iel), w = b.get_wrad(iel); auto list = b.bf_list(iel); Eigen::MatrixXcd f = b.eval_bf(iel, x, phi), dr, dt, dp, lf = b.eval_lf(iel, x, phi); b.eval_df(iel, x, phi, dr, dt, dp); c.ok(f.rows() == r.size() && w.size() == r.size() && f.cols() == (Eigen::Index) list.size() && dr.cols() == f.cols() && dt.cols() == f.cols() && dp.cols() == f.cols() && lf.cols() == f.cols(), "shapes");
  auto rng = b.radial_element_range(iel); size_t nl = rng.second - rng.first + 1; c.ok(list.size() == nl * p.na(), "function list length"); std::vector<double> xi(r.size()); double lo = p.e.b[iel], hi = p.e.b[iel + 1]; for (int k = 0; k < r.size(); k++) { c.ok(r(k) >= lo - 1e-12 * hi && r(k) <= hi * (1 + 1e-12), "radial point outside the element"); xi[k] = 2 * (r(k) - lo) / (hi - lo) - 1; }
  MatD u = p.e.eval(xi, 0, iel), u1 = p.e.eval(xi, 1, iel), u2 = p.e.eval(xi, 2, iel); double h = hi - lo; std::set<Eigen::Index> in(list.begin(), list.end()); c.ok(in.size() == list.size(), "repeated function in the list");
  for (int g = 0; g < p.nr(); g++) if (u.col(g).cwiseAbs().maxCoeff() > 1e-9) for (int i = 0; i < p.na(); i++) c.ok(in.count((Eigen::Index) i * p.nr() + g), "function missing from the list");
  double m0 = u.cwiseAbs().maxCoeff(), m1 = u1.cwiseAbs().maxCoeff(), m2 = u2.cwiseAbs().maxCoeff();
  for (size_t k = 0; k < list.size(); k++) { int ia = (int) (list[k] / p.nr()), g = (int) (list[k] % p.nr()), l = p.l(ia), m = p.m(ia); LD st = std::sqrt((1 - (LD) x) * (1 + (LD) x)); std::complex<double> e = std::exp(std::complex<double>(0, m * phi)); double T = (double) sph::theta1(l, m, x); LD d = 0; if (m + 1 <= l) d += 0.5L * std::sqrt((LD) ((l - m) * (l + m + 1))) * sph::theta1(l, m + 1, x); if (m - 1 >= -l) d -= 0.5L * std::sqrt((LD) ((l + m) * (l - m + 1))) * sph::theta1(l, m - 1, x); (void) st; double dT = (double) d;
    for (int q = 0; q < r.size(); q++) { double R = r(q), inv = 1 / R; double F = u(q, g) * inv, G = u1(q, g) * inv - F * inv, H = u2(q, g) * inv - l * (l + 1) * F * inv * inv; double t = 2e-11 * (l + 1), e0 = t * m0 * inv, e1 = t * (m1 + m0 * (inv + 1 / h)) * inv, e2 = 4 * t * (m2 + m1 * inv + m0 * inv * (inv + 1 / h) * (1 + l * l)) * inv;
      auto cl = [&](std::complex<double> a, std::complex<double> z, double tol, const char * n) { c.evals++; if (!(std::abs(a - z) <= tol)) c.fail(vt::fmt("%s of function %ld (l=%d m=%d) at r=%.10g: (%.12g,%.12g) instead of (%.12g,%.12g)", n, (long) list[k], l, m, R, a.real(), a.imag(), z.real(), z.imag())); };
      cl(f(q, k), F * T * e, e0, "value"); cl(dr(q, k), G * T * e, e1, "radial derivative"); cl(dt(q, k), F * dT * e, e0 * (l + 1), "polar derivative"); cl(dp(q, k), std::complex<double>(0, m) * F * T * e, e0 * (l + 1), "azimuthal derivative"); cl(lf(q, k), H * T * e, e2, "Laplacian"); } }
}
// the quadrature the DFT grid uses: overlap recovered from evaluated functions
VT_CHECK(grid_overlap, 250, 2500, "more than one shell") {
  Spec p = spec(s, c, 3, 4, 3, 5); p.nq = 150; AB b = p.make(); c.nontrivial = p.na() > 1; int lm = p.l.maxCoeff(), nph = 2 * lm + 2; auto & g = sph::rule(8); Eigen::MatrixXcd S = Eigen::MatrixXcd::Zero(b.Nbf(), b.Nbf());
  for (int iel = 0; iel < p.e.nel(); iel++) { auto r = b.get_r(iel), w = b.get_wrad(iel); auto li = b.bf_list(iel); for (size_t i = 0; i < g.first.size(); i++) for (int j = 0; j < nph; j++) { Eigen::MatrixXcd f = b.eval_bf(iel, (double) g.first[i], 2 * M_PI * j / nph); Eigen::MatrixXcd wf = f; for (int q = 0; q < r.size(); q++) wf.row(q) *= w(q) * r(q) * r(q) * (double) g.second[i] * 2 * M_PI / nph; Eigen::MatrixXcd M = f.adjoint() * wf; for (size_t a = 0; a < li.size(); a++) for (size_t z = 0; z < li.size(); z++) S(li[a], li[z]) += M(a, z); } }
  MatD O = b.overlap(); double mx = O.cwiseAbs().maxCoeff(); same(c, S.real(), O, 1e-6 * mx, "quadrature overlap"); same(c, S.imag(), MatD::Zero(O.rows(), O.cols()), 1e-8 * mx, "imaginary part");
}
VT_CHECK(symmetry_sets, 3000, 30000, "more than one block") {
  Spec p = spec(s, c, 5, 8); AB b = p.make(); int sym = s.range(0, 2); c.d(" symmetry %d", sym); auto idx = b.get_sym_idx(sym); auto lab = b.get_sym_labels(sym); c.ok(idx.size() == lab.size(), "one label per block"); c.nontrivial = idx.size() > 1; std::set<Eigen::Index> seen; int n = p.nr(); std::vector<int> owner(b.Nbf(), -1);
  for (size_t k = 0; k < idx.size(); k++) for (auto i : idx[k]) { c.ok(i >= 0 && i < (Eigen::Index) b.Nbf() && seen.insert(i).second, "blocks are disjoint and in range"); owner[i] = (int) k; int l = p.l(i / n), m = p.m(i / n); std::string want = sym == 0 ? "all" : sym == 1 ? vt::fmt(m > 0 ? "m=+%d" : "m=%d", m) : vt::fmt(m > 0 ? "l=%d m=+%d" : "l=%d m=%d", l, m); c.ok(lab[k] == want, "block labelled " + lab[k] + " holds a function of " + want); }
  c.ok(seen.size() == b.Nbf(), "blocks cover the basis"); for (int i = 0; i < (int) b.Nbf(); i++) for (int j = 0; j < i; j++) { int a = i / n, z = j / n; bool eq = sym == 0 || (p.m(a) == p.m(z) && (sym == 1 || p.l(a) == p.l(z))); c.ok((owner[i] == owner[j]) == eq, "functions of one symmetry share a block"); }
  int m = s.range(-5, 5), l = s.range(0, 6); auto mi = b.m_indices(m), lm = b.lm_indices(l, m); size_t c1 = 0, c2 = 0; for (int a = 0; a < p.na(); a++) { if (p.m(a) == m) c1 += n; if (p.m(a) == m && p.l(a) == l) c2 += n; } c.ok(mi.size() == c1 && lm.size() == c2, "index list lengths"); for (auto i : mi) c.ok(p.m(i / n) == m, "m index"); for (auto i : lm) c.ok(p.m(i / n) == m && p.l(i / n) == l, "lm index");
  bool chol = s.flag(); MatD X = b.Sinvh(chol, sym), S = b.overlap(); MatD I = X.transpose() * S * X; same(c, I, MatD::Identity(I.rows(), I.cols()), 1e-9, "orthonormalisation"); int col = 0; for (size_t k = 0; k < idx.size(); k++) for (size_t q = 0; q < idx[k].size(); q++, col++) for (int i = 0; i < X.rows(); i++) if (owner[i] != (int) k) c.ok(X(i, col) == 0, "orthonormal vectors stay within their block");
  int bad = s.flag() ? -s.range(1, 3) : s.range(3, 6); c.throws([&] { b.get_sym_idx(bad); }, "unknown symmetry"); c.throws([&] { b.get_sym_labels(bad); }, "unknown symmetry labels");
}
VT_CHECK(angular_basis, 600, 6000, "order limit below the degree limit") {
  int L = s.range(0, 10), M = s.range(0, L + 1); c.d("lmax=%d mmax=%d", L, M); c.nontrivial = M < L; Eigen::VectorXi l, m; helfem::atomic::basis::angular_basis(L, M, l, m); std::set<std::pair<int, int>> got, want; for (int i = 0; i < l.size(); i++) c.ok(got.insert({l(i), m(i)}).second, "repeated shell"); for (int a = 0; a <= L; a++) for (int b = -std::min(a, M); b <= std::min(a, M); b++) want.insert({a, b}); c.ok(got == want, "the shells are exactly all degrees up to lmax with orders up to mmax");
}
VT_MAIN()
