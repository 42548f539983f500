// LIBS: core general atomic sadatom sadscf checkpoint
// P16: spherically averaged atoms: matrices against spherical averages, derived quantities against their definitions.
#include "sadgen.h"
#include <NAORadialBasis.h>
#include <xc.h>
static const double fp = 4 * M_PI;
static void cmps(vt::Ctx & c, const MatD & got, const MatD & want, double rel, const std::string & w) { samer(c, got, want, rel, w); samer(c, got, got.transpose(), 1e-12, w + ": symmetry"); }
VT_CHECK(one_electron, 1500, 15000, "at least two elements") {
  using namespace helfem::modelpotential; SSpec p = sspec(s, c, 5, 8, 3, true); c.nontrivial = p.e.nel() > 1; int k = s.range(0, 3); double a = s.real(0.3, 1.2); if (k) { p.mod = k == 1 ? GAUSSIAN_NUCLEUS : k == 2 ? SPHERICAL_NUCLEUS : HOLLOW_NUCLEUS; p.Rrms = a; } c.d(" right=%d nucleus %d size %.5g", p.e.zfr, k, a); c.label("nucleus", k); SB b = p.make(); auto one = [](double) { return 1.0; }; c.ok(b.Nbf() == p.e.nbf() && b.charge() == p.Z && (int) b.get_rad_Nel() == p.e.nel(), "sizes");
  MatD S = radial(p.e, p.e, 0, 0, one); cmps(c, b.overlap(), S, 1e-11, "overlap"); cmps(c, b.kinetic(), 0.5 * radial(p.e, p.e, 1, 1, one), 1e-11, "kinetic energy"); cmps(c, b.kinetic_l(), 0.5 * radial(p.e, p.e, 0, 0, [](double r) { return 1 / (r * r); }), 1e-11, "centrifugal term");
  double Z = p.Z, R0 = k == 2 ? std::sqrt(5.0 / 3) * a : a; MatD V = radial(p.e, p.e, 0, 0, [&](double r) { return -Z * (k == 0 ? 1 / r : k == 1 ? std::erf(std::sqrt(1.5) * r / a) / r : k == 2 ? (r >= R0 ? 1 / r : (3 - r * r / (R0 * R0)) / (2 * R0)) : 1 / std::max(r, R0)); }, {R0}, k == 1 ? 150 : 40); cmps(c, b.nuclear(), V, 1e-9, "nuclear attraction"); std::unique_ptr<ModelPotential> mp(get_nuclear_model<double>(k == 0 ? POINT_NUCLEUS : p.mod, p.Z, p.Rrms)); samer(c, b.model_potential(mp.get()), V, 1e-9, "model potential");
  Smooth f = smooth(s); double q = s.real(0.05, 0.95) * p.e.b.back(), j = s.sym(2); cmps(c, b.potential([&](double r) { return f(r) + (r > q ? j * (r - q) : 0); }, {q}), radial(p.e, p.e, 0, 0, [&](double r) { return f(r) + (r > q ? j * (r - q) : 0); }, {q}), 1e-8, "arbitrary potential");
  auto R = b.Rmatrices(); std::set<int> pw; for (auto & m : R) { int n = m.first; c.ok(pw.insert(n).second, "one matrix per power"); cmps(c, m.second, radial(p.e, p.e, 0, 0, [n](double r) { return std::pow(r, n); }), 1e-11, vt::fmt("<r^%d>", n)); } c.ok(pw == std::set<int>({-2, -1, 1, 2, 3}), "powers"); MatD X = b.Sinvh(); samer(c, X.transpose() * S * X, MatD::Identity(X.cols(), X.cols()), 1e-7, "half-inverse overlap");
  double r0 = s.real(0.5, 4), sh = s.flag() ? 0 : s.real(0, 0.9) * p.e.b.back(); int N = s.range(1, 4); cmps(c, b.confinement(N, r0, 1, 0, sh), radial(p.e, p.e, 0, 0, [&](double r) { return r < sh ? 0 : std::pow((r - sh) / r0, N); }, {sh}), 1e-8, "polynomial confinement"); same(c, b.confinement(N, r0, 0, 3, sh), MatD::Zero(p.n(), p.n()), 0, "no confinement");
  SSpec g = sspec(s, c, 3, 5, 1, true); samer(c, b.overlap(g.make()), radial(p.e, g.e, 0, 0, one), 1e-10, "cross-basis overlap");
}
static double coup(int lo, int li, int L) { double v = 0; for (int a = -lo; a <= lo; a++) for (int b = -li; b <= li; b++) if (std::abs(a - b) <= L) { double g = (double) sph::gaunt(lo, a, L, a - b, li, b); v += g * g; } return v / (2 * lo + 1); }
static std::vector<MatD> dens(vt::Source & s, vt::Ctx & c, const SSpec & p) { std::vector<MatD> P; int k = (int) s.draw(3); c.label("density", k); for (int l = 0; l <= p.lmax; l++) { if (k == 0) P.push_back(randsymf(s, p.n())); else if (k == 1) { MatD C = randmat(s, p.n(), 1); P.push_back(C * C.transpose() * s.real(0, 2)); } else P.push_back(s.flag() ? randsymf(s, p.n()) : MatD::Zero(p.n(), p.n())); } return P; }
VT_CHECK(two_electron, 260, 2600, "at least two angular momenta and two elements") {
  SSpec p = sspec(s, c, 3, 5, 3); if (p.n() > 8) throw vt::Reject(); p.nq = std::max(p.nq, 5 * (p.e.order() + 1)); c.d(" nquad %d", p.nq); SB b = p.make(); auto P = dens(s, c, p); MatD D = randsymf(s, p.n()); int n = p.n(); c.nontrivial = p.lmax > 0 && p.e.nel() > 1; c.throws([&] { b.coulomb(D); }, "Coulomb before the integrals are computed"); c.throws([&] { b.exchange(P); }, "exchange before the integrals are computed"); c.throws([&] { b.rs_exchange(P); }, "range-separated exchange before the integrals are computed"); b.compute_tei(); std::vector<MatD> bad(P); bad.push_back(P[0]); c.throws([&] { b.exchange(bad); }, "too many angular momenta"); std::vector<MatD> worse(P.size(), MatD::Zero(n + 1, n + 1)); c.throws([&] { b.exchange(worse); }, "density of a wrong size");
  int mode = s.range(0, 2); double lam = s.logreal(0.2, 2.2); c.d(" mode %d parameter %.5g", mode, lam); c.label("mode", mode); if (mode == 1) b.compute_yukawa(lam); if (mode == 2) b.compute_erfc(lam);
  auto flat = [&](const MatD & M) { VecD v(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v(i * n + j) = M(i, j); return v; }; auto run = [&](auto kern, auto fac, bool rs, double tol) { std::vector<MatD> R; for (int L = 0; L <= 2 * p.lmax; L++) R.push_back(kern(L)); std::vector<MatD> K = rs ? b.rs_exchange(P) : b.exchange(P); c.ok((int) K.size() == p.lmax + 1, "one exchange matrix per angular momentum"); double sc = 0; for (auto & m : R) sc = std::max(sc, m.cwiseAbs().maxCoeff() * fac(0)); double mp = 1e-30; for (auto & m : P) mp = std::max(mp, m.cwiseAbs().maxCoeff());
    for (int lo = 0; lo <= p.lmax; lo++) { MatD W = MatD::Zero(n, n); for (int li = 0; li <= p.lmax; li++) for (int L = std::abs(lo - li); L <= lo + li; L++) { double f = coup(lo, li, L) * fac(L); if (f < 1e-14) continue; for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) W(j, k) -= f * R[L](i * n + j, k * n + l) * P[li](i, l); } same(c, K[lo], W, (tol * sc + 1e-11 * fp) * mp * n, vt::fmt("exchange matrix of l=%d", lo)); } };
  MatD R0 = refglobal(p.e, Ker([](double x, double y) { return bare(0, x, y); })); VecD j = fp * R0 * flat(D); MatD J(n, n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) J(i, k) = j(i * n + k); same(c, b.coulomb(D), J, (1e-8 * fp * R0.cwiseAbs().maxCoeff() + 1e-11 * fp) * D.cwiseAbs().maxCoeff() * n, "Coulomb matrix");
  run([&](int L) { return refglobal(p.e, Ker([L](double x, double y) { return bare(L, x, y); })); }, [](int L) { return fp / (2 * L + 1); }, false, 1e-8);
  if (mode == 1) run([&](int L) { return refglobal(p.e, Ker([=](double x, double y) { return yuk(L, lam, x, y); })); }, [&](int) { return fp * lam; }, true, 1e-7);
  if (mode == 2) { FEMRadialBasis rb(p.e.make(), p.nq); run([&](int L) { MatD G = MatD::Zero(n * n, n * n); for (int i = 0; i < p.e.nel(); i++) for (int k = 0; k < p.e.nel(); k++) { size_t a, z, x, y; rb.get_idx(i, a, z); rb.get_idx(k, x, y); MatD g = rb.erfc_integral(L, lam, i, k); int u = (int) (z - a + 1), v = (int) (y - x + 1); for (int q = 0; q < u; q++) for (int l = 0; l < u; l++) for (int t = 0; t < v; t++) for (int r = 0; r < v; r++) G((a + q) * n + a + l, (x + t) * n + x + r) += g(q * u + l, t * v + r); } return G; }, [&](int L) { return fp * lam / (2 * L + 1); }, true, 1e-9); }
  VecD cc = randmat(s, n, 1).col(0); int k = s.range(0, 4); MatD Rk = refglobal(p.e, Ker([k](double x, double y) { return bare(k, x, y); })); MatD cp = cc * cc.transpose(); double F = flat(cp).dot(Rk * flat(cp)); c.close(b.slater_F(k, cc), F, 1e-10 * Rk.cwiseAbs().maxCoeff(), 1e-7, "Slater-Condon integral"); VecD sh = cc.head(n - 1); c.throws([&] { b.slater_F(k, sh); }, "orbital of a wrong length");
}
VT_CHECK(spherical_average, 120, 1200, "at least two angular momenta") {
  SSpec p = sspec(s, c, 3, 6, 2); if (p.n() > 10) throw vt::Reject(); c.nontrivial = p.lmax > 0; int n = p.n(); Spec a; a.e = p.e; a.zd = p.e.zdr; a.Z = p.Z; a.Zl = a.Zr = 0; a.Rh = 1; a.Rrms = 0; a.mod = helfem::modelpotential::POINT_NUCLEUS; a.nq = p.nq; int na = (p.lmax + 1) * (p.lmax + 1); a.l.resize(na); a.m.resize(na); { int k = 0; for (int l = 0; l <= p.lmax; l++) for (int m = -l; m <= l; m++) { a.l(k) = l; a.m(k++) = m; } }
  AB full = a.make(); SB b = p.make(); full.compute_tei(true); b.compute_tei(); auto P = dens(s, c, p); MatD F = MatD::Zero(na * n, na * n), tot = MatD::Zero(n, n); for (int k = 0; k < na; k++) { F.block(k * n, k * n, n, n) = P[a.l(k)]; tot += P[a.l(k)]; } int mode = s.range(0, 2); double lam = s.logreal(0.2, 2); c.d(" mode %d parameter %.5g", mode, lam); if (mode == 1) { full.compute_yukawa(lam); b.compute_yukawa(lam); } if (mode == 2) { full.compute_erfc(lam); b.compute_erfc(lam); }
  MatD J = full.coulomb(F), K = full.exchange(F), Y; if (mode) Y = full.rs_exchange(F); auto Ks = b.exchange(P); std::vector<MatD> Ys; if (mode) Ys = b.rs_exchange(P); MatD Js = b.coulomb(tot / fp); double tj = 1e-10 * (J.cwiseAbs().maxCoeff() + K.cwiseAbs().maxCoeff()); for (int k = 0; k < na; k++) { same(c, J.block(k * n, k * n, n, n), Js, tj, "Coulomb matrix of a closed shell"); same(c, K.block(k * n, k * n, n, n), Ks[a.l(k)], tj, "exchange matrix of a closed shell"); if (mode) same(c, Y.block(k * n, k * n, n, n), Ys[a.l(k)], tj, "range-separated exchange of a closed shell"); } MatD T = full.kinetic(), V = full.nuclear(); for (int k = 0; k < na; k++) { samer(c, b.kinetic() + a.l(k) * (a.l(k) + 1) * b.kinetic_l(), T.block(k * n, k * n, n, n), 1e-12, "kinetic energy"); if (p.Z) samer(c, b.nuclear(), V.block(k * n, k * n, n, n), 1e-12, "nuclear attraction"); }
}
VT_CHECK(density, 500, 5000, "more than one angular momentum") {
  Orb o = orbitals(s, c, 2); auto & p = o.p; auto Pl = occupy(s, c, o); MatD P = total(Pl); SB b = p.make(); c.nontrivial = p.lmax > 0; Den D{p.e, P}; double N = D.integ(0, 1e9, 0); VecD r = b.radii(), w = b.quadrature_weights(), n = b.electron_density(P), n2 = b.electron_density(P, true), g = b.electron_density_gradient(P), l = b.electron_density_laplacian(P), t = b.kinetic_energy_density(Pl); size_t M = 1 + (size_t) p.e.nel() * p.nq; for (const VecD * v : {&r, &w, &n, &n2, &g, &l, &t}) c.ok((size_t) v->size() == M, "one value per quadrature point and nucleus"); double e0 = 0; { MatD d1 = p.e.eval({-1.0}, 1, 0), d2 = p.e.eval({-1.0}, 2, 0); e0 = (d1 * P * d1.transpose())(0, 0); double e1 = (d1 * P * d2.transpose())(0, 0); c.close(n(0), e0, 1e-9 * d1.squaredNorm() * P.norm(), 1e-9, "density at the nucleus"); c.close(b.nuclear_density(P), e0 / fp, 1e-9 * d1.squaredNorm() * P.norm(), 1e-9, "nuclear density"); c.close(b.nuclear_density_gradient(P), e1 / fp, 1e-9 * d1.norm() * d2.norm() * P.norm(), 1e-8, "nuclear density gradient"); c.close(r(0), 0, 0, 0, "first radius"); c.close(w(0), 0, 0, 0, "first weight"); }
  double cnt = 0, sw = 0; VecD nmax(1); nmax(0) = n.maxCoeff(); for (size_t i = 1; i < M; i++) { cnt += w(i) * n2(i); sw += w(i); int el = (int) (i - 1) / p.nq; if (r(i) < 0.02 * p.e.b[1]) continue; double d[3], q[3]; D.d(r(i), d, el); D.q(r(i), el, q); double k = 1 / (r(i) * r(i)), s0 = k * (q[0] + 1e-12), s1 = k * (std::abs(q[1]) + 2 * q[0] / r(i)) + 1e-11 * N, s2 = k * (std::abs(q[2]) + 4 * std::abs(q[1]) / r(i) + 6 * q[0] / (r(i) * r(i))) + 2 * s1 / r(i) + 1e-11 * N; c.close(n(i), d[0], 1e-10 * s0 + 1e-13 * N, 1e-9, "density"); c.close(n2(i), q[0], 1e-12 * N, 1e-9, "radial density"); c.close(g(i), d[1], 1e-8 * s1 + 1e-13 * N * k, 1e-8, "density gradient"); c.close(l(i), d[2] + 2 * d[1] / r(i), 1e-7 * s2 + 1e-12 * N * k, 1e-7, "density Laplacian");
    double ked = 0; { double X = D.x(r(i), el); VecD f0 = p.e.eval({X}, 0, el).row(0).transpose(), f1 = p.e.eval({X}, 1, el).row(0).transpose(); VecD B1 = f1 / r(i) - f0 / (r(i) * r(i)); ked = 0.5 * B1.dot(P * B1); for (int L = 1; L <= p.lmax; L++) ked += 0.5 * L * (L + 1) * f0.dot(Pl[L] * f0) * k * k; } c.close(t(i), ked, 1e-8 * s2 + 1e-10, 1e-8, "kinetic energy density"); }
  c.close(cnt, N, 1e-4 * N, 0, "electron count from the grid"); c.close(sw, p.e.b.back(), 1e-9, 1e-9, "weights span the range"); MatD C = o.C[0].leftCols(2), Cv = b.orbitals(C), Cd = b.orbitals_derivative(C), Cl = b.orbitals_second_derivative(C); c.ok((size_t) Cv.rows() == M && (size_t) Cd.rows() == M && (size_t) Cl.rows() == M && Cv.cols() == 2, "orbital table shape"); MatD at0 = p.e.eval({-1.0}, 1, 0) * C; for (int k = 0; k < 2; k++) c.close(Cv(0, k), at0(0, k), 1e-9 * (1 + C.norm()), 1e-9, "orbital at the nucleus"); for (int tr = 0; tr < 6; tr++) { size_t i = 1 + s.draw(M - 1); if (r(i) < 0.02 * p.e.b[1]) continue; int el = (int) (i - 1) / p.nq; double X = D.x(r(i), el), R = r(i); MatD u = p.e.eval({X}, 0, el) * C, v = p.e.eval({X}, 1, el) * C, z = p.e.eval({X}, 2, el) * C; double sc = (u.norm() / (R * R * R) + v.norm() / (R * R) + z.norm() / R + 1) * 1e-8; VecD ev = b.eval_orbs(C, R); for (int k = 0; k < 2; k++) { c.close(Cv(i, k), u(0, k) / R, sc, 1e-9, "orbital"); c.close(ev(k), u(0, k) / R, sc, 1e-9, "orbital evaluated at a radius"); c.close(Cd(i, k), v(0, k) / R - u(0, k) / (R * R), sc, 1e-8, "orbital derivative"); c.close(Cl(i, k), z(0, k) / R - 2 * v(0, k) / (R * R) + 2 * u(0, k) / (R * R * R), 100 * sc, 1e-7, "second orbital derivative"); } }
}
VT_CHECK(characteristic_radii, 900, 9000, "more than one orbital") {
  Orb o = orbitals(s, c, 2, 30); auto & p = o.p; auto Pl = occupy(s, c, o, 3); MatD P = total(Pl); SB b = p.make(); c.nontrivial = P.trace() != 0; Den D{p.e, P}; double N = D.integ(0, 1e9, 0); VecD xq = b.get_radial().get_xq(); auto gap = [&](double r) { double g = 0; for (int i = 1; i < p.e.nel(); i++) { double h = 0.5 * (1 - xq(xq.size() - 1)) * std::max(p.e.b[i + 1] - p.e.b[i], p.e.b[i] - p.e.b[i - 1]); if (std::abs(r - p.e.b[i]) <= 1.01 * h) g = std::max(g, 2.02 * h); } return g; };
  int which = s.range(0, 2); c.label("radius", which); if (which == 0) { double eps = s.logreal(1e-5, 0.4 * N), r = b.electron_count_radius(P, eps, 1e-12); c.d(" electrons outside %.6g", eps); c.close(D.integ(r, 1e9, 0), eps, 1e-9 + 1e-7 * eps, 0, "electrons outside the radius"); c.close(b.electron_count_radius(P, eps), r, 1e-8, 1e-8, "default convergence threshold"); }
  else if (which == 1) { double thr = s.flag(1, 4) ? 1e-3 : s.logreal(1e-6, 1e-1); c.d(" density threshold %.6g", thr); double R = p.e.b.back(); std::vector<double> rr, nn; for (int el = 0; el < p.e.nel(); el++) for (int k = 0; k < 150; k++) { double r = p.e.b[el] + (p.e.b[el + 1] - p.e.b[el]) * (k + 0.5) / 150; rr.push_back(r); nn.push_back(D.n(r, el) / fp); } int i = (int) rr.size() - 1; while (i >= 0 && nn[i] <= thr) i--; double got = b.vdw_radius(P, thr, 1e-12); if (i < 0) { if (D.n(1e-3) / fp > 0.9 * thr) throw vt::Reject(); c.close(got, 0, 0, 0, "density never reaches the threshold"); return; } int el = i / 150; for (int k = std::max(0, (el - 1) * 150); k + 1 < std::min((int) rr.size(), (el + 2) * 150); k++) if (nn[k + 1] > nn[k] && nn[k] > 0.01 * thr) throw vt::Reject(); double lo = rr[i], hi = i + 1 < (int) rr.size() ? rr[i + 1] : R; for (int k = 0; k < 60; k++) { double m = 0.5 * (lo + hi); (D.n(m) / fp > thr ? lo : hi) = m; } c.close(got, 0.5 * (lo + hi), gap(lo) + 1e-6, 1e-6, "radius where the density falls to the threshold"); c.close(b.vdw_radius(P, thr), got, 1e-8, 1e-8, "default convergence threshold"); if (thr == 1e-3) c.close(b.vdw_radius(P), got, 1e-8, 1e-8, "default density threshold"); }
  else { bool rsq = s.flag(3, 4); c.d(" r^2 weight %d", rsq); double best = -1, at = 0; std::vector<double> v; for (int el = 0; el < p.e.nel(); el++) for (int k = 0; k < 300; k++) { double r = p.e.b[el] + (p.e.b[el + 1] - p.e.b[el]) * (k + 0.5) / 300; double y = D.n(r, el) * (rsq ? r * r : 1); v.push_back(y); if (y > best) { best = y; at = r; } } if (!rsq && at > 0.01 * p.e.b[1]) throw vt::Reject(); for (size_t k = 1; k + 1 < v.size(); k++) if (v[k] > v[k - 1] && v[k] > v[k + 1] && v[k] > 0.98 * best && v[k] < 0.99999 * best) throw vt::Reject(); double r = b.electron_density_maximum_radius(P, rsq); double y = D.n(std::max(r, 1e-7)) * (rsq ? r * r : 1); c.ok(y >= best * (1 - 1e-9) - 1e-12 || (gap(r) > 0 && y >= best * (1 - 1e-2)), vt::fmt("density %.12g at the reported maximum r=%.10g, but %.12g at r=%.10g", y, r, best, at)); if (rsq) for (double d : {1e-4, -1e-4}) c.ok(D.n(r + d * r) * (r + d * r) * (r + d * r) <= y * (1 + 1e-8) || gap(r) > 0, "the reported radius is a maximum"); }
}
VT_CHECK(coulomb_screening, 300, 3000, "at least two elements") {
  SSpec p = sspec(s, c, 5, 7, 0); int top = 2 * p.e.N * (p.e.order() + 1); p.nq = s.range(top + 15, top + 40); SB b = p.make(); MatD C = randmat(s, p.n(), 2), P = s.flag() ? MatD(C * C.transpose()) : randsymf(s, p.n()); Den D{p.e, P}; c.nontrivial = p.e.nel() > 1; VecD V = b.coulomb_screening(P), r = b.radii(); c.ok(V.size() == r.size(), "shape"); c.close(V(0), 0, 0, 0, "no screening at the nucleus"); MatD ab = P.cwiseAbs(); double sc = D.integ(0, 1e9, 0); { MatD S = radial(p.e, p.e, 0, 0, [](double) { return 1.0; }); sc = S.cwiseAbs().cwiseProduct(ab).sum(); } for (int t = 0; t < 12; t++) { int i = 1 + (int) s.draw(r.size() - 1); double want = D.integ(0, r(i), 0) + r(i) * D.integ(r(i), 1e9, -1); c.close(V(i), want, 2e-6 * sc, 0, vt::fmt("screening at r=%.8g", r(i))); }
}
static const int ldas[] = {1, 7, 12, 9}, ggas[] = {101, 102, 106, 109, 116, 130, 131, 132, 134};
VT_CHECK(xc_screening, 250, 2500, "a gradient-corrected functional and a polarised density") {
  Orb o = orbitals(s, c, 1); auto & p = o.p; auto A = occupy(s, c, o), B = s.flag(1, 4) ? A : occupy(s, c, o); MatD Pa = total(A), Pb = total(B); SB b = p.make(); bool gga = s.flag(3, 4); int x = gga ? ggas[s.draw(9)] : ldas[s.draw(4)], cf = s.flag() ? (s.flag() ? ldas[s.draw(4)] : ggas[s.draw(9)]) : 0; if (s.flag(1, 10)) x = 0; c.d(" x=%d c=%d", x, cf); c.nontrivial = (x > 100 || cf > 100) && (Pa - Pb).norm() > 0; MatD v = b.xc_screening(Pa, Pb, x, cf); VecD r = b.radii(); c.ok(v.rows() == r.size() && v.cols() == 2, "shape"); Den da{p.e, Pa}, db{p.e, Pb}; std::vector<int> ids; for (int i : {x, cf}) if (i > 0) ids.push_back(i);
  auto loc = [&](double R, int el, double * vr, double * F) { double a[3], g[3]; da.d(R, a, el); db.d(R, g, el); double rho[2] = {a[0] / fp, g[0] / fp}, ga = a[1] / fp, gb = g[1] / fp, sg[3] = {ga * ga, ga * gb, gb * gb}; vr[0] = vr[1] = F[0] = F[1] = 0; for (int id : ids) { xc_func_type f; xc_func_init(&f, id, XC_POLARIZED); double w[2] = {0, 0}, u[3] = {0, 0, 0}; if (f.info->family == XC_FAMILY_LDA) xc_lda_vxc(&f, 1, rho, w); else { xc_gga_vxc(&f, 1, rho, sg, w, u); F[0] += 2 * u[0] * ga + u[1] * gb; F[1] += 2 * u[2] * gb + u[1] * ga; } vr[0] += w[0]; vr[1] += w[1]; xc_func_end(&f); } };
  for (int t = 0; t < 10; t++) { int i = 1 + (int) s.draw(r.size() - 1), el = (i - 1) / p.nq; double R = r(i); if (R < 0.05 * p.e.b[1]) continue; double a = da.n(R, el) / fp, g = db.n(R, el) / fp; if (std::min(a, g) < 1e-5) continue; double edge = std::min(R - p.e.b[el], p.e.b[el + 1] - R), h = std::min(0.01 * R, 0.3 * edge); double v0[2], F0[2], want[2], w2[2]; loc(R, el, v0, F0); auto der = [&](double hh, double * out) { double q[2], f[6][2]; int k = 0; for (int m : {-3, -2, -1, 1, 2, 3}) { loc(R + m * hh, el, q, f[k]); for (int z = 0; z < 2; z++) f[k][z] *= (R + m * hh) * (R + m * hh); k++; } for (int z = 0; z < 2; z++) out[z] = v0[z] - (45 * (f[3][z] - f[2][z]) - 9 * (f[4][z] - f[1][z]) + (f[5][z] - f[0][z])) / (60 * hh) / (R * R); }; der(h, want); der(0.5 * h, w2); for (int z = 0; z < 2; z++) { double err = 30 * std::abs(want[z] - w2[z]); if (err > 1e-3 * (1 + std::abs(want[z]))) continue; c.close(v(i, z), R * w2[z], R * (err + 1e-6 * (1 + std::abs(want[z]))), 1e-6, vt::fmt("exchange-correlation screening at r=%.8g spin %d", R, z)); } }
  VecD u = b.xc_screening(Pa + Pb, x, cf); MatD vv = b.xc_screening((Pa + Pb) / 2, (Pa + Pb) / 2, x, cf); for (int i = 0; i < u.size(); i++) c.close(u(i), 0.5 * (vv(i, 0) + vv(i, 1)), 1e-12, 1e-12, "unpolarised screening"); int mg[] = {202, 263, 267, 231, 203}; int m = mg[s.draw(5)]; c.throws([&] { b.xc_screening(Pa, Pb, s.flag() ? m : 0, m); }, "meta-GGA");
}
VT_CHECK(contracted, 300, 3000, "more than one angular momentum") {
  Orb o = orbitals(s, c, 3); SB b = o.p.make(); c.nontrivial = o.p.lmax > 0; std::vector<int> keep; int n = o.p.n(); for (size_t l = 0; l < o.C.size(); l++) keep.push_back(s.range(-1, std::min(n, 3))); auto R = helfem::sadatom::basis::extract_naos_per_l(b, o.C, keep); size_t k = 0; MatD S = radial(o.p.e, o.p.e, 0, 0, [](double) { return 1.0; }); for (size_t l = 0; l < keep.size(); l++) { c.d(" %d", keep[l]); if (!keep[l]) continue; c.ok(k < R.size() && R[k].first == (int) l, "angular momenta in order"); MatD C = keep[l] < 0 ? o.C[l] : MatD(o.C[l].leftCols(keep[l])); c.ok((int) R[k].second.Nbf() == C.cols(), "number of contracted functions"); if (keep[l] > 0) samer(c, R[k].second.overlap(), C.transpose() * S * C, 1e-9, "overlap of the contracted functions"); k++; } c.ok(k == R.size(), "nothing else is returned"); auto bad = keep; bad[0] = n + 1; c.throws([&] { helfem::sadatom::basis::extract_naos_per_l(b, o.C, bad); }, "more functions than orbitals"); bad = keep; bad.push_back(1); c.throws([&] { helfem::sadatom::basis::extract_naos_per_l(b, o.C, bad); }, "too many angular momenta");
}
VT_CHECK(history, 80, 800, "a query is repeated after another one") {
  SSpec p = sspec(s, c, 3, 5, 2); if (p.n() > 9) throw vt::Reject(); int n = p.n(); double lam = s.logreal(0.2, 2), mu = s.logreal(0.2, 2); auto P = dens(s, c, p); MatD D = total(P); SB f = p.make(); f.compute_tei(); auto K0 = f.exchange(P); MatD J0 = f.coulomb(D); SB y = p.make(); y.compute_yukawa(lam); auto Y0 = y.rs_exchange(P); SB e = p.make(); e.compute_erfc(mu); auto E0 = e.rs_exchange(P); VecD n0 = f.electron_density(D), v0 = f.coulomb_screening(D); SB cur = p.make(); bool tei = false; int rs = 0, steps = s.range(2, 8); c.nontrivial = steps > 3; auto all = [&](const std::vector<MatD> & a, const std::vector<MatD> & b, const char * w) { for (size_t i = 0; i < a.size(); i++) same(c, a[i], b[i], 0, w); };
  for (int k = 0; k < steps; k++) { int op = s.range(0, 8); c.d(" op%d", op); if (op == 0) { cur.compute_tei(); tei = true; } else if (op == 1) { cur.compute_yukawa(lam); rs = 1; } else if (op == 2) { cur.compute_erfc(mu); rs = 2; } else if (op == 3) { SB t = cur; cur = t; } else if (op == 4) { cur.fill_quadrature_cache(s.flag(), s.flag()); } else if (op == 5) { MatD Q = randsymf(s, n); cur.electron_density_laplacian(Q); cur.coulomb_screening(Q); if (tei) cur.coulomb(Q); } else if (op == 6) { same(c, cur.electron_density(D), n0, 0, "density"); same(c, cur.coulomb_screening(D), v0, 0, "screening"); } else if (op == 7 && tei) { all(cur.exchange(P), K0, "exchange"); same(c, cur.coulomb(D), J0, 0, "Coulomb matrix"); } else if (op == 8 && rs) all(cur.rs_exchange(P), rs == 1 ? Y0 : E0, "range-separated exchange of the mode selected last"); }
  if (tei) { all(cur.exchange(P), K0, "exchange"); same(c, cur.coulomb(D), J0, 0, "Coulomb matrix"); } if (rs) all(cur.rs_exchange(P), rs == 1 ? Y0 : E0, "range-separated exchange of the mode selected last");
}
VT_MAIN()
