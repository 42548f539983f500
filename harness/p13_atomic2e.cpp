// LIBS: core general atomic
// P13: atomic Coulomb and exchange matrices against explicit contraction with independently computed repulsion integrals.
#include "atomgen.h"
#include "radgen.h"
// radial integrals per multipole and couplings int Y_a* Y_L^{ma-mb} Y_b
struct Eri { int n, na, NL; const Spec & p; std::vector<MatD> R; std::vector<double> F; std::vector<double> g;
  Eri(const Spec & p_) : p(p_) { n = p.nr(); na = p.na(); NL = 2 * p.l.maxCoeff() + 1; g.assign((size_t) na * na * NL, 0); for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) for (int L = 0; L < NL; L++) g[((size_t) a * na + b) * NL + L] = (double) sph::gaunt(p.l(a), p.m(a), L, p.m(a) - p.m(b), p.l(b), p.m(b)); for (int L = 0; L < NL; L++) F.push_back(4 * M_PI / (2 * L + 1)); }
  double cp(int a, int b, int L) const { return g[((size_t) a * na + b) * NL + L]; }
  bool used(int L) const { for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) if (std::abs(cp(a, b, L)) > 1e-14) return true; return false; }

  template <typename K> void kernel(K k) { R.clear(); for (int L = 0; L < NL; L++) R.push_back(used(L) ? refglobal(p.e, Ker([&](double a, double b) { return k(L, a, b); })) : MatD::Zero(n * n, n * n)); }
  double scale() const { double s = 0; for (int L = 0; L < NL; L++) s = std::max(s, R[L].cwiseAbs().maxCoeff() * F[L]); return s; }
  MatD J(const MatD & P) const { int N = n * na; MatD r = MatD::Zero(N, N); for (int L = 0; L < NL; L++) { if (!used(L)) continue; std::map<int, VecD> V; for (int c = 0; c < na; c++) for (int d = 0; d < na; d++) { double x = cp(c, d, L); if (x == 0) continue; VecD v(n * n); for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) v(k * n + l) = x * P(c * n + k, d * n + l); int M = p.m(c) - p.m(d); if (V.count(M)) V[M] += v; else V[M] = v; }
      for (auto & kv : V) { VecD w = F[L] * (R[L] * kv.second); for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) if (p.m(b) - p.m(a) == kv.first) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(a * n + i, b * n + j) += cp(b, a, L) * w(i * n + j); } } return r; }
  MatD K(const MatD & P) const { int N = n * na; MatD r = MatD::Zero(N, N); for (int b = 0; b < na; b++) for (int c = 0; c < na; c++) for (int L = 0; L < NL; L++) { MatD Q = MatD::Zero(n, n); bool any = false; for (int a = 0; a < na; a++) for (int d = 0; d < na; d++) if (p.m(b) - p.m(a) == p.m(c) - p.m(d)) { double x = cp(b, a, L) * cp(c, d, L); if (x == 0) continue; any = true; Q += x * P.block(a * n, d * n, n, n); } if (!any) continue;
      for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) { double v = 0; for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) v += R[L](i * n + j, k * n + l) * Q(i, l); r(b * n + j, c * n + k) -= F[L] * v; } } return r; } };
static Spec rspec13(vt::Source & s, vt::Ctx & c, int lcap, int most, int maxn, int cap) { Spec p = spec(s, c, lcap, most, 3, maxn); if (p.nr() > cap) throw vt::Reject(); return p; }
static MatD density(vt::Source & s, vt::Ctx & c, const Spec & p) { int N = p.nr() * p.na(), k = (int) s.draw(4); MatD P; if (k == 0) { P = randsymf(s, N); c.d(" dense density"); } else if (k == 1) { MatD C = randmat(s, N, 1 + (int) s.draw(2)); P = C * C.transpose(); c.d(" orbital density"); } else if (k == 2) { P = randsymf(s, N); for (int a = 0; a < p.na(); a++) for (int b = 0; b < p.na(); b++) if (p.m(a) != p.m(b)) P.block(a * p.nr(), b * p.nr(), p.nr(), p.nr()).setZero(); c.d(" density diagonal in m"); } else { P = MatD::Zero(N, N); int i = (int) s.draw(N), j = (int) s.draw(N); P(i, j) = P(j, i) = s.flag() ? 1 : -1e3; c.d(" one density element (%d,%d)", i, j); } c.label("density", k); return P; }
static void relations(vt::Source & s, vt::Ctx & c, const std::function<MatD(const MatD &)> & J, const std::function<MatD(const MatD &)> & K, int N, double sc) {
  MatD P = randsymf(s, N), Q = randsymf(s, N), C = randmat(s, N, 1), D = C * C.transpose(); double t = 1e-11 * sc * N * N; if (J) { MatD jp = J(P), jq = J(Q); samer(c, jp, jp.transpose(), 1e-11, "Coulomb symmetry"); c.close((jp.cwiseProduct(Q)).sum(), (jq.cwiseProduct(P)).sum(), t, 0, "Coulomb permutation symmetry"); same(c, J(2 * P - 3 * Q), 2 * jp - 3 * jq, t, "Coulomb linearity"); }
  MatD kp = K(P), kq = K(Q); samer(c, kp, kp.transpose(), 1e-11, "exchange symmetry"); c.close((kp.cwiseProduct(Q)).sum(), (kq.cwiseProduct(P)).sum(), t, 0, "exchange permutation symmetry"); same(c, K(2 * P - 3 * Q), 2 * kp - 3 * kq, t, "exchange linearity"); if (J) { double ej = J(D).cwiseProduct(D).sum(), ek = K(D).cwiseProduct(D).sum(); c.ok(ej > 0, "a density repels itself"); c.close(-ek, ej, 1e-10 * std::abs(ej), 0, "self-interaction of one orbital cancels"); } c.ok(K(D).cwiseProduct(D).sum() < 0, "exchange lowers the energy"); }
VT_CHECK(bare, 500, 4000, "more than one shell and more than one element") {
  Spec p = rspec13(s, c, s.flag(1, 4) ? 5 : 3, 6, 4, 6); MatD P = density(s, c, p); AB b = p.make(); c.throws([&] { b.coulomb(P); }, "Coulomb before the integrals are computed"); c.throws([&] { b.exchange(P); }, "exchange before the integrals are computed"); b.compute_tei(s.flag()); c.nontrivial = p.na() > 1 && p.e.nel() > 1; c.label("elements", p.e.nel());
  Eri e(p); e.kernel([](int L, double x, double y) { return bare(L, x, y); }); double t = 1e-7 * e.scale() * P.cwiseAbs().maxCoeff() * p.nr(); same(c, b.coulomb(P), e.J(P), t, "Coulomb matrix"); same(c, b.exchange(P), e.K(P), t, "exchange matrix");
}
VT_CHECK(relations_bare, 700, 6000, "more than one shell and more than one element") {
  Spec p = rspec13(s, c, 4, 7, 6, 10); AB b = p.make(); b.compute_tei(true); c.nontrivial = p.na() > 1 && p.e.nel() > 1; int N = p.nr() * p.na(); MatD one = b.coulomb(MatD::Identity(N, N)); relations(s, c, [&](const MatD & P) { return b.coulomb(P); }, [&](const MatD & P) { return b.exchange(P); }, N, std::max(1.0, one.cwiseAbs().maxCoeff()));
}
VT_CHECK(yukawa, 250, 2500, "more than one shell and more than one element") {
  Spec p = rspec13(s, c, 3, 5, 4, 5); double lam = s.logreal(0.15, 2.5); MatD P = density(s, c, p); c.d(" lambda=%.6g", lam); AB b = p.make(); c.throws([&] { b.rs_exchange(P); }, "range-separated exchange before the integrals are computed"); if (s.flag(1, 3)) { b.compute_erfc(s.real(0.2, 1)); c.d(" after erfc"); } if (s.flag(1, 3)) b.compute_tei(true); b.compute_yukawa(lam); c.nontrivial = p.na() > 1 && p.e.nel() > 1;
  Eri e(p); e.kernel([&](int L, double x, double y) { return yuk(L, lam, x, y); }); for (auto & f : e.F) f = 4 * M_PI * lam; double t = 1e-6 * e.scale() * P.cwiseAbs().maxCoeff() * p.nr(); same(c, b.rs_exchange(P), e.K(P), t, "Yukawa exchange matrix"); relations(s, c, nullptr, [&](const MatD & Q) { return b.rs_exchange(Q); }, p.nr() * p.na(), std::max(1.0, e.scale()));
}
VT_CHECK(erfc, 300, 3000, "more than one shell and more than one element") {
  Spec p = rspec13(s, c, 3, 5, 4, 6); double mu = s.logreal(0.15, 2.5); MatD P = density(s, c, p); c.d(" mu=%.6g", mu); AB b = p.make(); if (s.flag(1, 3)) { b.compute_yukawa(s.real(0.2, 1)); c.d(" after yukawa"); } if (s.flag(1, 3)) b.compute_tei(true); b.compute_erfc(mu); c.nontrivial = p.na() > 1 && p.e.nel() > 1;
  FEMRadialBasis rb(p.e.make(), p.nq); Eri e(p); int n = p.nr(); for (int L = 0; L < e.NL; L++) { MatD G = MatD::Zero(n * n, n * n); for (int i = 0; i < p.e.nel(); i++) for (int j = 0; j < p.e.nel(); j++) { size_t a, z, x, y; rb.get_idx(i, a, z); rb.get_idx(j, x, y); MatD g = rb.erfc_integral(L, mu, i, j); int u = (int) (z - a + 1), v = (int) (y - x + 1); for (int k = 0; k < u; k++) for (int l = 0; l < u; l++) for (int q = 0; q < v; q++) for (int r = 0; r < v; r++) G((a + k) * n + a + l, (x + q) * n + x + r) += g(k * u + l, q * v + r); } e.R.push_back(G); e.F[L] = 4 * M_PI * mu / (2 * L + 1); }
  double t = 1e-10 * e.scale() * P.cwiseAbs().maxCoeff() * n * p.na(); same(c, b.rs_exchange(P), e.K(P), t, "erfc exchange matrix"); relations(s, c, nullptr, [&](const MatD & Q) { return b.rs_exchange(Q); }, n * p.na(), std::max(1.0, e.scale()));
}
// rotation about the y axis: real coefficients, obtained by projecting rotated harmonics on the sphere
static MatD wigner(int l, double beta) { MatD D(2 * l + 1, 2 * l + 1); int nt = 8 * ((l + 8) / 8), np = 2 * l + 2; auto & g = sph::rule(nt); LD cb = std::cos((LD) beta), sb = std::sin((LD) beta); for (int a = -l; a <= l; a++) for (int b = -l; b <= l; b++) { LD v = 0; for (int i = 0; i < nt; i++) for (int j = 0; j < np; j++) { LD x = g.first[i], st = std::sqrt((1 - x) * (1 + x)), ph = 2 * sph::PI * (j + 0.3L) / np; LD X = st * std::cos(ph), Y = st * std::sin(ph), Z = x, xr = cb * X - sb * Z, zr = sb * X + cb * Z; v += g.second[i] * 2 * sph::PI / np * (std::conj(sph::Y(l, a, x, ph)) * sph::Y(l, b, std::max((LD) -1, std::min((LD) 1, zr)), std::atan2(Y, xr))).real(); } D(a + l, b + l) = (double) v; } return D; }
VT_CHECK(rotation, 350, 3000, "a degree above zero and a generic angle") {
  Spec p = spec(s, c, 2, 3, 3, 4); std::set<int> ls; int k = s.range(1, 3); for (int i = 0; i < k; i++) ls.insert(s.range(0, s.flag(1, 4) ? 4 : 2)); std::vector<std::pair<int, int>> sh; for (int l : ls) for (int m = -l; m <= l; m++) sh.push_back({l, m}); if (p.nr() * (int) sh.size() > 90) throw vt::Reject(); p.l.resize(sh.size()); p.m.resize(sh.size()); for (size_t i = 0; i < sh.size(); i++) { p.l(i) = sh[i].first; p.m(i) = sh[i].second; } double be = s.real(0, 3.2); c.d(" full shells to %d, rotation by %.6g", *ls.rbegin(), be); c.nontrivial = *ls.rbegin() > 0 && be > 0.01;
  int n = p.nr(), N = n * p.na(); MatD D = MatD::Zero(p.na(), p.na()); { int o = 0; for (int l : ls) { D.block(o, o, 2 * l + 1, 2 * l + 1) = wigner(l, be); o += 2 * l + 1; } } MatD U = kron(D, MatD::Identity(n, n)); MatD I = U.transpose() * U; same(c, I, MatD::Identity(N, N), 1e-13, "rotation matrix is orthogonal");
  AB b = p.make(); MatD P = randsymf(s, N), Q = U * P * U.transpose(); b.compute_tei(true); samer(c, b.coulomb(Q), U * b.coulomb(P) * U.transpose(), 1e-10, "rotated Coulomb matrix"); samer(c, b.exchange(Q), U * b.exchange(P) * U.transpose(), 1e-10, "rotated exchange matrix"); if (s.flag(1, 3)) { b.compute_yukawa(s.logreal(0.2, 2)); samer(c, b.rs_exchange(Q), U * b.rs_exchange(P) * U.transpose(), 1e-10, "rotated Yukawa exchange"); } else if (s.flag(1, 2) && n < 8) { b.compute_erfc(s.logreal(0.2, 2)); samer(c, b.rs_exchange(Q), U * b.rs_exchange(P) * U.transpose(), 1e-10, "rotated erfc exchange"); }
  samer(c, b.overlap(), U * b.overlap() * U.transpose(), 1e-11, "rotated overlap"); samer(c, b.kinetic(), U * b.kinetic() * U.transpose(), 1e-11, "rotated kinetic energy");
}
VT_CHECK(density_fitting, 250, 2500, "more than one element and more than one multipole") {
  Spec p = rspec13(s, c, 2, 4, 4, 7); double tol = s.logreal(1e-11, 1e-2); c.d(" tolerance %.4g", tol); AB b = p.make(); c.throws([&] { b.radial_df_factors(tol); }, "factors before the integrals are computed"); b.compute_tei(true); auto B = b.radial_df_factors(tol); Eri e(p); c.ok((int) B.size() == e.NL, "one factor set per multipole"); int n = p.nr(); c.nontrivial = p.e.nel() > 1 && e.NL > 1;
  for (int L = 0; L < e.NL; L++) { MatD R = refglobal(p.e, Ker([&](double x, double y) { return bare(L, x, y); })); MatD G = MatD::Zero(n * n, n * n); for (auto & v : B[L]) { VecD f(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f(i * n + j) = v(i, j); G += f * f.transpose(); c.ok((v - v.transpose()).cwiseAbs().maxCoeff() <= 1e-10 * (1 + v.cwiseAbs().maxCoeff()), "factor symmetry"); } same(c, G, R, 2 * tol + 1e-7 * R.cwiseAbs().maxCoeff(), vt::fmt("factors of multipole %d", L)); c.ok((int) B[L].size() <= n * (n + 1) / 2, "number of factors"); c.ok(!B[L].empty() || R.diagonal().maxCoeff() < 1.01 * tol + 1e-9, "no factors only for negligible integrals"); }
  int N = n * p.na(); MatD P = randsymf(s, N); e.R.clear(); for (int L = 0; L < e.NL; L++) { MatD G = MatD::Zero(n * n, n * n); for (auto & v : B[L]) { VecD f(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f(i * n + j) = v(i, j); G += f * f.transpose(); } e.R.push_back(G); } double t = (4 * tol + 1e-9 * e.scale()) * n * n * p.na() * p.na() * 4 * M_PI; same(c, e.J(P), b.coulomb(P), t, "Coulomb matrix from the factors"); same(c, e.K(P), b.exchange(P), t, "exchange matrix from the factors");
}
VT_CHECK(storage, 300, 3000, "more than one element") {
  Spec p = rspec13(s, c, 2, 4, 4, 7); AB a = p.make(); int N = p.nr() * p.na(); MatD P = randsymf(s, N); double lam = s.logreal(0.2, 2), mu = s.logreal(0.2, 2); c.nontrivial = p.e.nel() > 1; AB f = p.make(); f.compute_tei(true); MatD J0 = f.coulomb(P), K0 = f.exchange(P); AB y = p.make(); y.compute_yukawa(lam); MatD Y0 = y.rs_exchange(P); AB g = p.make(); g.compute_erfc(mu); MatD E0 = g.rs_exchange(P);
  bool tei = false; int rs = 0; AB cur = a; for (int k = 0, n = s.range(1, 6); k < n; k++) { int op = s.range(0, 5); c.d(" op%d", op); if (op == 0) { cur.compute_tei(s.flag()); tei = true; } else if (op == 1) { cur.compute_yukawa(lam); rs = 1; } else if (op == 2) { cur.compute_erfc(mu); rs = 2; } else if (op == 3) { AB t = cur; cur = t; } else if (op == 4 && tei) { same(c, cur.coulomb(P), J0, 0, "Coulomb matrix"); same(c, cur.exchange(P), K0, 0, "exchange matrix"); } else if (op == 5 && rs) same(c, cur.rs_exchange(P), rs == 1 ? Y0 : E0, 0, "range-separated exchange of the mode selected last"); }
  if (tei) { same(c, cur.coulomb(P), J0, 0, "Coulomb matrix"); same(c, cur.exchange(P), K0, 0, "exchange matrix"); } if (rs) same(c, cur.rs_exchange(P), rs == 1 ? Y0 : E0, 0, "range-separated exchange of the mode selected last");
}
VT_MAIN()
