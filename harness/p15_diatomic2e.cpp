// LIBS: core general atomic sadatom sadscf checkpoint diatomic
// P15: diatomic Coulomb and exchange matrices against contraction with independently integrated Neumann multipoles,
// closed-form Slater repulsion, and the symmetries of the repulsion.
#include "diat2e.h"
#include <Eigen/Cholesky>
#include "../src/diatomic/twodquadrature.h"
static DSpec spec15(vt::Source & s, vt::Ctx & c, int lcap, int most, int maxn, int cap) { DSpec p = dspec(s, c, lcap, most, 3, maxn); if (p.nr() > cap) throw vt::Reject(); return p; }
static MatD density(vt::Source & s, vt::Ctx & c, const DSpec & p) { auto L = p.list(); int N = (int) L.size(), k = (int) s.draw(4); MatD P; if (k == 0) { P = randsymf(s, N); c.d(" dense density"); } else if (k == 1) { MatD C = randmat(s, N, 1 + (int) s.draw(2)); P = C * C.transpose(); c.d(" orbital density"); } else if (k == 2) { P = randsymf(s, N); for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) if (p.m(L[a].first) != p.m(L[b].first)) P(a, b) = 0; c.d(" density diagonal in m"); } else { P = MatD::Zero(N, N); int i = (int) s.draw(N), j = (int) s.draw(N); P(i, j) = P(j, i) = s.flag() ? 1 : -1e3; c.d(" one density element (%d,%d)", i, j); } c.label("density", k); return P; }
VT_CHECK(expansion, 400, 4000, "an order above zero contributes") {
  // the reference itself: the multipole sum converges to the inverse distance, and the functions satisfy the Wronskian
  double mu1 = s.logreal(0.02, 2), mu2 = s.logreal(1.4, 2.5) * mu1, x1 = s.sym(1), x2 = s.sym(1), ph = s.real(0, 3); c.d("mu=%.5g,%.5g cos=%.5g,%.5g phi=%.5g", mu1, mu2, x1, x2, ph); c.nontrivial = true; int top = (int) std::min(300.0, 40 / (mu2 - mu1)) , cap = std::min(top, 60); if (40 / (mu2 - mu1) > 300) throw vt::Reject(); PQ a(top, cap), b(top, cap); a.eval(mu1, false); b.eval(mu2, true); LD sum = 0; for (int M = 0; M <= cap; M++) { std::vector<LD> t1, t2; sph::theta(top, M, x1, std::sqrt((1 - x1) * (LD) (1 + x1)), t1); sph::theta(top, M, x2, std::sqrt((1 - x2) * (LD) (1 + x2)), t2); for (int L = M; L <= top; L++) { LD f = 4 * sph::PI; for (int k = L - M + 1; k <= L + M; k++) f /= k; sum += (M ? 2 : 1) * f * a.P[M][L] * b.Q[M][L] * t1[L] * t2[L] * std::cos(M * (LD) ph); } }
  auto pt = [](double mu, double x, double p, double * r) { double st = std::sqrt((1 - x) * (1 + x)); r[0] = std::sinh(mu) * st * std::cos(p); r[1] = std::sinh(mu) * st * std::sin(p); r[2] = std::cosh(mu) * x; }; double r1[3], r2[3]; pt(mu1, x1, 0, r1); pt(mu2, x2, ph, r2); double d = 0; for (int k = 0; k < 3; k++) d += (r1[k] - r2[k]) * (r1[k] - r2[k]); c.close((double) sum, 1 / std::sqrt(d), 1e-9, 1e-8, "Neumann expansion of the inverse distance"); }
VT_CHECK(matrices, 260, 2500, "more than one shell and more than one element") {
  DSpec p = spec15(s, c, s.flag(1, 4) ? 5 : 3, 5, 4, 6); MatD P = density(s, c, p); DB b = p.make(); c.throws([&] { b.coulomb(P); }, "Coulomb before the integrals are computed"); c.throws([&] { b.exchange(P); }, "exchange before the integrals are computed"); b.compute_tei(s.flag()); c.nontrivial = p.na() > 1 && p.e.nel() > 1; c.label("elements", p.e.nel()); DEri e(p); MatD J = e.J(P), K = e.K(P); double t = 3e-8 * std::max(J.cwiseAbs().maxCoeff(), K.cwiseAbs().maxCoeff()) + 1e-14 * e.big * P.cwiseAbs().maxCoeff(); same(c, b.coulomb(P), J, t, "Coulomb matrix"); same(c, b.exchange(P), K, t, "exchange matrix"); }
VT_CHECK(kernel, 160, 1600, "more than one element or a Hermite family") {
  DSpec p = spec15(s, c, s.flag(1, 4) ? 6 : 4, 4, 5, 8); DB b = p.make(); DEri e(p, false); std::vector<std::pair<int, int>> lm; for (int M = 0; M <= e.cap; M++) for (int L = M; L <= e.top; L++) if (e.used(L, M)) lm.push_back({L, M}); auto LM = lm[s.draw(lm.size())]; int L = LM.first, M = LM.second, el = (int) s.draw(p.e.nel()); c.d(" L=%d M=%d element %d", L, M, el); c.nontrivial = p.e.nel() > 1 || p.e.order() > 0; e.radial(el);
  std::vector<int> id; { std::vector<double> x = {-0.37, 0.11, 0.83}; MatD v = p.e.eval(x, 0, el); for (int i = 0; i < p.nr(); i++) if (v.col(i).cwiseAbs().maxCoeff() > 0) id.push_back(i); } int k = (int) id.size(), n = p.nr(); MatD W(2 * k * k, 2 * k * k); MatD T[2][2]; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { MatD G = e.t(x, y, L, M); T[x][y].resize(k * k, k * k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) for (int u = 0; u < k; u++) for (int v = 0; v < k; v++) T[x][y](j * k + i, v * k + u) = G(id[i] * n + id[j], id[u] * n + id[v]); if (M & 1) T[x][y] *= -1; /* the sign of the second-kind function is conventional */ W.block(x * k * k, y * k * k, k * k, k * k) = (x == y ? 1 : -1) * T[x][y]; }
  samer(c, b.in_element_kernel(el, L, s.flag() ? M : -M), W, 1e-7, "two-channel kernel"); MatD X = b.in_element_kernel_exchange(el, L, M); c.ok(X.rows() == k * k && X.cols() == 4 * k * k, "shape of the exchange-ordered kernel"); MatD R[2][2], K = MatD::Zero(k, k); VecD r(4 * k * k); double sc = 0; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { R[x][y] = randmat(s, k, k); for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) r((2 * x + y) * k * k + j * k + i) = R[x][y](i, j); for (int j = 0; j < k; j++) for (int q = 0; q < k; q++) for (int i = 0; i < k; i++) for (int l = 0; l < k; l++) K(j, q) += T[x][y](j * k + i, l * k + q) * R[x][y](i, l); sc = std::max(sc, T[x][y].cwiseAbs().maxCoeff()); }
  VecD y = X * r; MatD got(k, k); for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) got(i, j) = y(j * k + i); same(c, got, K, 1e-7 * sc * k * k, "exchange-ordered contraction"); b.compute_tei(true); auto er = b.check_cd(el, L, M); c.close(er.first, 0, 1e-9, 0, "factorisation error of the kernel"); c.close(er.second, 0, 1e-8, 0, "factorisation error of the exchange"); }
VT_CHECK(relations, 160, 3500, "more than one shell and more than one element") {
  DSpec p = spec15(s, c, 4, 6, 5, 9); DB b = p.make(); b.compute_tei(true); c.nontrivial = p.na() > 1 && p.e.nel() > 1; auto L = p.list(); int N = (int) L.size(); MatD P = randsymf(s, N), Q = randsymf(s, N), C = randmat(s, N, 1), D = C * C.transpose(); MatD jp = b.coulomb(P), jq = b.coulomb(Q), kp = b.exchange(P), kq = b.exchange(Q); double t = 1e-10 * N * std::max(jp.cwiseAbs().maxCoeff(), kp.cwiseAbs().maxCoeff()); same(c, jp, jp.transpose(), t, "Coulomb symmetry"); same(c, kp, kp.transpose(), t, "exchange symmetry"); c.close(jp.cwiseProduct(Q).sum(), jq.cwiseProduct(P).sum(), t * N, 0, "Coulomb permutation symmetry"); c.close(kp.cwiseProduct(Q).sum(), kq.cwiseProduct(P).sum(), t * N, 0, "exchange permutation symmetry"); same(c, b.coulomb(2 * P - 3 * Q), 2 * jp - 3 * jq, t * 5, "Coulomb linearity"); same(c, b.exchange(2 * P - 3 * Q), 2 * kp - 3 * kq, t * 5, "exchange linearity");
  MatD U = MatD::Identity(N, N); for (int i = 0; i < N; i++) if ((p.l(L[i].first) + p.m(L[i].first)) % 2) U(i, i) = -1; same(c, b.coulomb(U * P * U), U * jp * U, t, "Coulomb matrix of the reflected density"); same(c, b.exchange(U * P * U), U * kp * U, t, "exchange matrix of the reflected density"); double ej = b.coulomb(D).cwiseProduct(D).sum(), ek = b.exchange(D).cwiseProduct(D).sum(); c.ok(ej > 0, "a density repels itself"); c.close(-ek, ej, 1e-9 * ej, 0, "self-interaction of one orbital cancels");
  double f = s.logreal(0.5, 2); DSpec q = p; q.R = f * p.R; DB g = q.make(); g.compute_tei(s.flag()); same(c, g.coulomb(P), std::pow(f, 5) * jp, 1e-12 * N * std::pow(f, 5) * jp.cwiseAbs().maxCoeff(), "scaling of the Coulomb matrix with the bond length"); same(c, g.exchange(P), std::pow(f, 5) * kp, 1e-12 * N * std::pow(f, 5) * kp.cwiseAbs().maxCoeff(), "scaling of the exchange matrix with the bond length"); }
VT_CHECK(mirror, 250, 2500, "orders above zero are present") {
  DSpec p = spec15(s, c, 4, 4, 5, 7); { std::set<std::pair<int, int>> seen; for (int i = 0; i < p.na(); i++) { seen.insert({p.l(i), p.m(i)}); seen.insert({p.l(i), -p.m(i)}); } std::vector<std::pair<int, int>> v(seen.begin(), seen.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.draw(i)]); p.l.resize(v.size()); p.m.resize(v.size()); for (size_t i = 0; i < v.size(); i++) { p.l(i) = v[i].first; p.m(i) = v[i].second; } } c.nontrivial = p.m.maxCoeff() > 0; auto L = p.list(); int N = (int) L.size(); std::map<std::array<int, 3>, int> at; for (int i = 0; i < N; i++) at[{p.l(L[i].first), p.m(L[i].first), L[i].second}] = i;
  MatD A = randsymf(s, N), P = MatD::Zero(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int a = p.m(L[i].first); if (a != p.m(L[j].first)) continue; int i2 = at[{p.l(L[i].first), -a, L[i].second}], j2 = at[{p.l(L[j].first), -a, L[j].second}]; P(i, j) = 0.5 * (A(i, j) + A(i2, j2)); } DB b = p.make(); b.compute_tei(true); MatD K = b.exchange(P), J = b.coulomb(P); c.ok(!b.is_absm_symmetric(), "mirroring is off by default"); b.set_absm_symmetric(true); c.ok(b.is_absm_symmetric(), "mirroring is switched on"); samer(c, b.exchange(P), K, 1e-13, "exchange with mirrored blocks"); samer(c, b.coulomb(P), J, 1e-14, "Coulomb with mirrored blocks"); b.set_absm_symmetric(false); samer(c, b.exchange(P), K, 1e-15, "exchange after switching mirroring off"); }
VT_CHECK(slater, 10, 200, "different exponents") {
  DSpec p; p.e.f = fam(s.range(0, 1)); p.e.N = p.e.f.m == 0 ? s.range(7, 10) : s.range(5, 6); p.e.zfl = p.e.zdl = false; p.e.zfr = p.e.zdr = true; p.R = s.real(0.4, 1.6); double z[2]; z[0] = s.real(0.6, 1.6); z[1] = s.flag(1, 3) ? z[0] : s.real(0.6, 1.6); double zm = std::min(z[0], z[1]), rmax = 22 / zm, mm = std::acosh(rmax / p.R); int nel = s.range(4, 5); for (int i = 0; i <= nel; i++) p.e.b.push_back(mm * i / nel); int lmax = 10 + (int) std::ceil(2.2 * std::max(z[0], z[1]) * p.R); p.l.resize(lmax + 1); p.m.resize(lmax + 1); for (int i = 0; i <= lmax; i++) { p.l(i) = i; p.m(i) = 0; } p.Z1 = p.Z2 = 1; p.nq = 5 * p.e.N; c.d("%s R/2=%.6g exponents %.6g %.6g lmax=%d", p.e.str().c_str(), p.R, z[0], z[1], lmax); c.nontrivial = z[0] != z[1]; DB b = p.make(); b.compute_tei(true);
  MatD S = b.overlap(); int n = p.nr(), N = n * p.na(); VecD C[2]; std::vector<double> gx, gw; gauss(40, gx, gw); for (int k = 0; k < 2; k++) { VecD w = VecD::Zero(N); for (int el = 0; el < nel; el++) { MatD u = p.e.eval(gx, 0, el); double h = 0.5 * (p.e.b[el + 1] - p.e.b[el]); for (int q = 0; q < 40; q++) { double mu = p.e.coord(gx[q], el), ch = std::cosh(mu), sh = std::sinh(mu); for (int t = 0; t < 40; t++) { double x = gx[t], r = p.R * (k ? ch - x : ch + x), f = std::sqrt(z[k] * z[k] * z[k] / M_PI) * std::exp(-z[k] * r) * gw[q] * h * gw[t] * 2 * M_PI * p.R * p.R * p.R * sh * (sh * sh + (1 - x) * (1 + x)); for (int a = 0; a < p.na(); a++) { double th = (double) sph::theta1(a, 0, x) * f; for (int i = 0; i < n; i++) w(a * n + i) += th * u(q, i); } } } } C[k] = S.ldlt().solve(w); c.close(C[k].dot(S * C[k]), 1, 2e-6, 0, "the basis represents the Slater function"); }
  MatD D[2]; MatD J[2]; for (int k = 0; k < 2; k++) { D[k] = C[k] * C[k].transpose(); J[k] = b.coulomb(D[k]); c.close(J[k].cwiseProduct(D[k]).sum(), 0.625 * z[k], 0, 3e-5, "self-repulsion of a Slater 1s density"); c.close(-b.exchange(D[k]).cwiseProduct(D[k]).sum(), 0.625 * z[k], 0, 3e-5, "self-exchange of a Slater 1s orbital"); }
  // repulsion of two 1s clouds at distance 2R: Fourier/one-dimensional form, evaluated by quadrature of the potential of one over the other
  double ref = 0; { double r2 = 2 * p.R; auto pot = [&](double r) { return r < 1e-8 ? z[0] : (1 - (1 + z[0] * r) * std::exp(-2 * z[0] * r)) / r; }; std::vector<double> x, w; gauss(60, x, w); for (int pan = 0; pan < 20; pan++) { double a = 20.0 / z[1] * pan / 20, h = 0.5 / z[1]; for (int i = 0; i < 60; i++) { double r = a + h * (1 + x[i]), sub = 0; double lo = std::abs(r - r2), hi = r + r2; for (int j = 0; j < 60; j++) { double d = 0.5 * (lo + hi) + 0.5 * (hi - lo) * x[j]; sub += w[j] * 0.5 * (hi - lo) * d * pot(d); } ref += w[i] * h * 2 * M_PI * r / r2 * z[1] * z[1] * z[1] / M_PI * std::exp(-2 * z[1] * r) * sub; } } }
  c.close(J[0].cwiseProduct(D[1]).sum(), ref, 0, 3e-5, "repulsion of Slater densities at the two centres"); c.close(J[1].cwiseProduct(D[0]).sum(), ref, 0, 3e-5, "repulsion of Slater densities at the two centres, reversed"); if (z[0] == z[1]) { double t = z[0] * 2 * p.R; c.close(ref, z[0] * (1 - std::exp(-2 * t) * (1 + 11 * t / 8 + 0.75 * t * t + t * t * t / 6)) / t, 0, 1e-8, "closed form"); } }
VT_CHECK(history, 150, 1500, "more than one element") {
  DSpec p = spec15(s, c, 3, 4, 5, 7); c.nontrivial = p.e.nel() > 1; int N = (int) p.list().size(); MatD P = randsymf(s, N); DB f = p.make(); f.compute_tei(true); MatD J0 = f.coulomb(P), K0 = f.exchange(P); DB cur = p.make(); bool tei = false; for (int k = 0, n = s.range(1, 6); k < n; k++) { int op = s.range(0, 4); c.d(" op%d", op); if (op == 0) { cur.compute_tei(s.flag()); tei = true; } else if (op == 1) { DB t = cur; cur = t; } else if (op == 2) { same(c, cur.overlap(), f.overlap(), 0, "overlap"); same(c, cur.nuclear(), f.nuclear(), 0, "nuclear attraction"); } else if (op == 3) { MatD Q = randsymf(s, N); if (tei) { cur.coulomb(Q); cur.exchange(Q); } else { c.throws([&] { cur.coulomb(Q); }, "Coulomb before the integrals are computed"); c.throws([&] { cur.exchange(Q); }, "exchange before the integrals are computed"); } } else if (tei) { same(c, cur.coulomb(P), J0, 0, "Coulomb matrix"); same(c, cur.exchange(P), K0, 0, "exchange matrix"); } } if (tei) { same(c, cur.coulomb(P), J0, 0, "Coulomb matrix"); same(c, cur.exchange(P), K0, 0, "exchange matrix"); } }
VT_MAIN()
