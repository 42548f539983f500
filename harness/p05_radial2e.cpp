// LIBS: core
// P05: radial two-electron integrals and their assembly against nested quadrature of the kernel.
#include "radgen.h"
VT_CHECK(screened_multipole, 6000, 60000, "order above zero and both arguments nonzero") {
  int n = s.range(0, 8); double X, x; int reg = (int) s.draw(5); if (reg == 0) { X = s.real(0.3, 0.7); x = X * s.real(0.5, 1); } else if (reg == 1) { x = s.real(0.35, 0.45); X = x * s.logreal(1, 10); } else if (reg == 2) { x = s.logreal(0.01, 0.4); X = s.logreal(0.05, 6); } else if (reg == 3) { x = s.real(0.4, 6); X = x * (1 + (s.flag(1, 6) ? 0 : s.logreal(1e-8, 1))); } else { X = s.logreal(0.02, 8); x = s.logreal(0.02, 8); }
  c.d("multipole %d of erfc at (%.10g, %.10g)", n, X, x); c.label("regime", reg); c.nontrivial = n > 0; double a = erfc_expn::Phi<double>(n, X, x), b = erfc_expn::Phi<double>(n, x, X), w = phiref(n, X, x), sc = bare(n, X, x);
  c.close(a, b, 1e-15 * sc, 1e-14, "symmetry in the arguments"); double noise = 1e-12; double xm = std::min(X, x); if (xm >= 0.4 || std::max(X, x) < 0.5) noise = 3e-12 * std::max(1.0, std::tgamma(2 * n + 1.0) / std::tgamma(n + 1.0) * std::pow(1.0 / (4 * X * x), n + 1)) ; c.close(a, w, noise * sc + 5e-14 * std::pow(std::max(1.0, 1 / std::min(X, x)), n + 1), 0, "multipole coefficient"); if (n <= 3) c.ok(a >= -1e-9 * sc && a <= (1 + 1e-9) * sc, "between zero and the bare kernel");
  if (s.flag(1, 4)) { double X0 = s.real(0.1, 3); c.close(erfc_expn::Phi<double>(n, X0, 0.0), n ? 0 : std::erfc(X0) / X0, 1e-12, 1e-11, "one electron at the origin"); }
}
VT_CHECK(element_coulomb, 1500, 8000, "more than one function in the element") {
  FEspec e = rspec(s, 4, 6, 14); int nq = s.range(3, 30), L = s.range(0, 8), ie = (int) s.draw(e.nel()); RB rb(e.make(), nq); size_t a, b; rb.get_idx(ie, a, b); c.d("%s nquad=%d L=%d element %d", e.str().c_str(), nq, L, ie); c.nontrivial = b > a; c.label("family", e.f.name);
  MatD w = sub(refints(e, [&](double r, double q) { return bare(L, r, q); }, ie, ie), (int) e.nbf(), a, b, a, b), g = rb.twoe_integral(L, ie); samer(c, g, w, 1e-9, "in-element Coulomb"); samer(c, g, g.transpose(), 1e-13, "symmetry"); int n = (int) (b - a + 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n * n; k++) c.close(g(i * n + j, k), g(j * n + i, k), 1e-12 * g.cwiseAbs().maxCoeff(), 0, "pair symmetry");
  Eigen::SelfAdjointEigenSolver<MatD> es(g, Eigen::EigenvaluesOnly); c.ok(es.eigenvalues()(0) > -1e-12 * es.eigenvalues().maxCoeff(), "positive semidefinite");
  double tol = s.logreal(1e-13, 1e-3); MatD ch = rb.twoe_integral_cholesky(L, ie, tol); c.ok(ch.rows() == n * n && ch.cols() <= n * (n + 1) / 2, "Cholesky shape"); same(c, ch * ch.transpose(), g, 1.01 * tol + 1e-13 * g.cwiseAbs().maxCoeff(), "Cholesky factors reproduce the block"); c.ok(ch.cols() > 0 || g.diagonal().maxCoeff() <= tol, "Cholesky rank");
}
VT_CHECK(element_yukawa, 700, 5000, "more than one function in the element") {
  FEspec e = rspec(s, 3, 5, 12); int nq = s.range(3, 30), L = s.range(0, 6), ie = (int) s.draw(e.nel()); double lam = s.logreal(0.1, 3); RB rb(e.make(), nq); size_t a, b; rb.get_idx(ie, a, b); c.d("%s nquad=%d L=%d lambda=%.6g element %d", e.str().c_str(), nq, L, lam, ie); c.nontrivial = b > a;
  MatD w = sub(refints(e, [&](double r, double q) { return yuk(L, lam, r, q); }, ie, ie), (int) e.nbf(), a, b, a, b), g = rb.yukawa_integral(L, lam, ie); samer(c, g, w, 1e-7, "in-element Yukawa"); double tol = s.logreal(1e-12, 1e-3); MatD ch = rb.yukawa_integral_cholesky(L, lam, ie, tol); same(c, ch * ch.transpose(), g, 1.01 * tol + 1e-12 * g.cwiseAbs().maxCoeff(), "Cholesky factors reproduce the Yukawa block");
  // weaker and weaker screening recovers the bare kernel, stronger screening reduces every diagonal
  double l2 = 1e-3; MatD lim = l2 * (2 * L + 1) * rb.yukawa_integral(L, l2, ie), bareI = rb.twoe_integral(L, ie); samer(c, lim, bareI, L == 0 ? 5e-3 * e.b.back() : 1e-4 * e.b.back() * e.b.back(), "vanishing screening"); MatD strong = lam * (2 * L + 1) * g; for (int i = 0; i < g.rows(); i++) c.ok(strong(i, i) <= bareI(i, i) * (1 + 1e-9) && strong(i, i) >= 0, "screening reduces the self-repulsion");
}
VT_CHECK(element_erfc, 300, 2500, "two different elements, or order above zero") {
  FEspec e = rspec(s, 3, 4, 7); int nq = s.range(14 + 2 * e.N * (e.order() + 1), 38), L = s.range(0, 4), ie = (int) s.draw(e.nel()), je = (int) s.draw(e.nel()); double mu = s.logreal(0.15, 2); RB rb(e.make(), nq); size_t a, b, p, q; rb.get_idx(ie, a, b); rb.get_idx(je, p, q); c.d("%s nquad=%d L=%d mu=%.6g elements %d,%d", e.str().c_str(), nq, L, mu, ie, je); c.nontrivial = ie != je || L > 0;
  MatD w = sub(refints(e, [&](double r, double z) { return philong(L, mu * r, mu * z); }, ie, je, 10, 8), (int) e.nbf(), a, b, p, q), g = rb.erfc_integral(L, mu, ie, je); double sc = rb.erfc_integral(L, mu, ie, ie).cwiseAbs().maxCoeff();
  same(c, g, w, (ie == je ? 20.0 / nq / nq : 1e-2 / nq) * 1e-2 * std::max(sc, w.cwiseAbs().maxCoeff()), "complementary-error-function block"); MatD t = rb.erfc_integral(L, mu, je, ie); same(c, g, t.transpose(), ie == je ? 1e-12 * sc : 1e-10 * std::max(sc, 1e-300), "exchange of the electrons");
  if (ie == je) { MatD bareI = rb.twoe_integral(L, ie), sr = mu * g, lr = bareI - sr; for (int i = 0; i < sr.rows(); i++) c.ok(sr(i, i) >= -1e-3 * bareI.maxCoeff() && lr(i, i) >= -1e-3 * bareI.maxCoeff(), "short- and long-range parts are repulsive"); double m0 = 1e-3; samer(c, m0 * rb.erfc_integral(L, m0, ie, ie), bareI, 5e-3 * e.b.back() + 1e-3, "vanishing screening"); }
}
VT_CHECK(assembly, 900, 3000, "at least two elements") {
  FEspec e = rspec(s, 4, 4, 9); int n = (int) e.nbf(), nq = s.range(4, 30), L = s.range(0, 6); bool yk = s.flag(1, 3); double lam = s.logreal(0.2, 2); RB rb(e.make(), nq); c.d("%s nquad=%d L=%d %s", e.str().c_str(), nq, L, yk ? vt::fmt("Yukawa %.5g", lam).c_str() : "Coulomb"); c.nontrivial = e.nel() > 1; c.label("kernel", yk ? "yukawa" : "coulomb");
  MatD G = refglobal(e, yk ? Ker([&](double a, double b) { return yuk(L, lam, a, b); }) : Ker([&](double a, double b) { return bare(L, a, b); }), 0, 0); bool symd = s.flag(); MatD P = symd ? randsymf(s, n) : randmat(s, n, n); c.d(" %s density", symd ? "symmetric" : "general");
  MatD J = MatD::Zero(n, n), K = J; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) { J(i, j) += G(i * n + j, k * n + l) * P(k, l); K(j, k) += G(i * n + j, k * n + l) * P(i, l); }
  double tol = (yk ? 1e-6 : 1e-7) * G.cwiseAbs().maxCoeff(); MatD gJ, gK; if (yk) { gJ = assemble_J_FE_one_multipole_yukawa<double>(rb, L, lam, P); gK = assemble_K_FE_one_multipole_yukawa<double>(rb, L, lam, P); } else { gJ = assemble_J_FE_one_multipole<double>(rb, L, P); gK = assemble_K_FE_one_multipole<double>(rb, L, P); }
  same(c, gJ, J, tol * n, "Coulomb matrix"); same(c, gK, K, tol * n, "exchange matrix");
  // stored integrals for a range of orders; the one at L must give the same matrices
  int NL = L + 1 + (int) s.draw(2), Ne = e.nel(); std::vector<MatD> sm, bg, tei, kt; compute_disjoint_radial_integrals<double>(rb, NL, sm, bg, yk, lam); compute_in_element_tei<double>(rb, NL, tei, yk, lam); compute_in_element_ktei_from_tei<double>(rb, NL, tei, kt); c.ok((int) sm.size() == NL * Ne && (int) tei.size() == NL * Ne * Ne, "stored table sizes");
  auto rs = [&](size_t i) -> const MatD & { return sm[L * Ne + i]; }; auto rg = [&](size_t i) -> const MatD & { return bg[L * Ne + i]; }; auto tw = [&](size_t i) -> const MatD & { return tei[(size_t) Ne * Ne * L + i * Ne + i]; }; auto kw = [&](size_t i) -> const MatD & { return kt[(size_t) Ne * Ne * L + i * Ne + i]; };
  double t2 = 1e-11 * G.cwiseAbs().maxCoeff() * n; same(c, assemble_J_FE_one_multipole_cached<double>(rb, rs, rg, tw, P), gJ, t2, "Coulomb from stored integrals"); same(c, assemble_K_FE_one_multipole_cached<double>(rb, rs, rg, kw, P), gK, t2, "exchange from stored integrals");
  double ct = s.logreal(1e-13, 1e-6); std::vector<MatD> ch; for (int i = 0; i < Ne; i++) ch.push_back(yk ? rb.yukawa_integral_cholesky(L, lam, i, ct) : rb.twoe_integral_cholesky(L, i, ct)); auto cw = [&](size_t i) -> const MatD & { return ch[i]; }; double t3 = t2 + 4 * ct * n * n; same(c, assemble_J_FE_one_multipole_cached_chol<double>(rb, rs, rg, cw, P), gJ, t3, "Coulomb from Cholesky factors"); same(c, assemble_K_FE_one_multipole_cached_chol<double>(rb, rs, rg, cw, P), gK, t3, "exchange from Cholesky factors");
  // pairwise exchange
  std::vector<MatD> pr(Ne * Ne); for (int i = 0; i < Ne; i++) for (int j = 0; j < Ne; j++) { size_t a, b, p, q; rb.get_idx(i, a, b); rb.get_idx(j, p, q); MatD t; if (i == j) t = tw(i); else { const MatD & x = i > j ? rg(i) : rs(i), & y = i > j ? rs(j) : rg(j); t = Eigen::Map<const VecD>(x.data(), x.size()) * Eigen::Map<const VecD>(y.data(), y.size()).transpose(); } pr[i * Ne + j] = utils::exchange_tei<double>(t, b - a + 1, b - a + 1, q - p + 1, q - p + 1); } auto pw = [&](size_t i, size_t j) -> const MatD & { return pr[i * Ne + j]; }; same(c, assemble_K_FE_one_multipole_cached_pairwise<double>(rb, pw, P), gK, t2, "exchange from element pairs");
  c.close((gJ.cwiseProduct(P)).sum(), (J.cwiseProduct(P)).sum(), tol * n * n, 0, "Coulomb energy");
}
VT_CHECK(assembly_erfc, 150, 800, "at least two elements") {
  FEspec e = rspec(s, 3, 3, 6); int n = (int) e.nbf(), nq = s.range(14 + 2 * e.N * (e.order() + 1), 36), L = s.range(0, 3); double mu = s.logreal(0.2, 1.5); RB rb(e.make(), nq); c.d("%s nquad=%d L=%d mu=%.5g", e.str().c_str(), nq, L, mu); c.nontrivial = e.nel() > 1; MatD G = refglobal(e, [&](double a, double b) { return philong(L, mu * a, mu * b); }, 8, 7), P = randmat(s, n, n), K = MatD::Zero(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) K(j, k) += G(i * n + j, k * n + l) * P(i, l);
  int Ne = e.nel(); std::vector<MatD> kt; compute_erfc_ktei<double>(rb, L + 1, mu, kt); auto pw = [&](size_t i, size_t j) -> const MatD & { return kt[(size_t) Ne * Ne * L + i * Ne + j]; }; same(c, assemble_K_FE_one_multipole_cached_pairwise<double>(rb, pw, P), K, 5e-4 * n * G.cwiseAbs().maxCoeff(), "range-separated exchange");
}
VT_CHECK(exchange_order, 2000, 20000, "rectangular index ranges") {
  int Ni = s.range(1, 5), Nj = s.range(1, 5), Nk = s.range(1, 5), Nl = s.range(1, 5); MatD t = randmat(s, Ni * Nj, Nk * Nl); c.d("exchange reordering of %dx%dx%dx%d", Ni, Nj, Nk, Nl); c.nontrivial = Ni != Nk || Nj != Nl; MatD k = utils::exchange_tei<double>(t, Ni, Nj, Nk, Nl); c.ok(k.rows() == Nj * Nk && k.cols() == Ni * Nl, "shape"); for (int i = 0; i < Ni; i++) for (int j = 0; j < Nj; j++) for (int kk = 0; kk < Nk; kk++) for (int l = 0; l < Nl; l++) c.ok(k(kk * Nj + j, l * Ni + i) == t(j * Ni + i, l * Nk + kk), "reordered entry"); c.throws([&] { utils::exchange_tei<double>(t, Ni + 1, Nj, Nk, Nl); }, "wrong row count"); c.throws([&] { utils::exchange_tei<double>(t, Ni, Nj, Nk, Nl + 1); }, "wrong column count");
}
VT_CHECK(bessel_functions, 20000, 200000, "order above zero") {
  int L = s.range(0, 12); double x = s.logreal(1e-3, 30); if (s.flag(1, 4)) x = 0.5 * (1 + s.sym(1e-3)); bool neg = s.flag(1, 5); c.d("L=%d x=%.12g", L, x); c.nontrivial = L > 0; q128 q = x, il, kl; il = boost::math::cyl_bessel_i(q128(L) + q128(0.5), q) * sqrt(acos(q128(-1)) / (2 * q)); kl = boost::math::cyl_bessel_k(q128(L) + q128(0.5), q) * sqrt(2 / (acos(q128(-1)) * q)); double sg = neg && (L & 1) ? -1 : 1; c.close(utils::bessel_il<double>(neg ? -x : x, L), sg * (double) il, 0, 1e-12, "i_L"); c.close(utils::bessel_kl<double>(x, L), (double) kl, 0, 1e-12, "k_L"); if (L == 0) { c.close(utils::bessel_il<double>(x, 0), std::sinh(x) / x, 0, 1e-12, "i_0"); c.close(utils::bessel_kl<double>(x, 0), std::exp(-x) / x, 0, 1e-12, "k_0"); } c.close(utils::bessel_il<double>(0, L), L == 0 ? 1 : 0, 0, 1e-15, "i_L at zero");
}
VT_MAIN()
