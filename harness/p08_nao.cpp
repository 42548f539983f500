// LIBS: core general
// P08: contracted radial functions.
#include "gen.h"
#include <RadialBasis.h>
#include <NAORadialBasis.h>
#include <STO.h>
#include <GTO.h>
#include <general/lcao.h>
#include <Eigen/Eigenvalues>
using namespace helfem; using namespace gen; using namespace helfem::atomic::basis;
using RB = FEMRadialBasis;
using Fn = std::function<double(double)>;
// a contracted function as a plain list of terms c r^p exp(-a r^q)
struct Term { double c; int p; double a; };
struct Con { std::vector<Term> t; int q; double u(double r) const { double s = 0; for (auto & x : t) s += x.c * std::pow(r, x.p) * std::exp(-x.a * (q == 1 ? r : r * r)); return s; } };
static double mom(int q, int p, double a) { return q == 1 ? std::tgamma(p + 1.0) / std::pow(a, p + 1) : 0.5 * std::tgamma(0.5 * (p + 1)) / std::pow(a, 0.5 * (p + 1)); }
struct Ops { double S, T, L, V, sc; };
static Ops ops(const Con & A, const Con & B) { Ops o{0, 0, 0, 0, 0}; for (auto & x : A.t) for (auto & y : B.t) { double a = x.a + y.a, c = x.c * y.c; int p = x.p + y.p, q = A.q; o.S += c * mom(q, p, a); o.L += 0.5 * c * mom(q, p - 2, a); o.V -= c * mom(q, p - 1, a);
    // u' = c (p r^{p-1} - q a r^{p+q-1}) e
    double k = x.p * y.p * mom(q, p - 2, a) - q * (x.p * y.a + y.p * x.a) * mom(q, p + q - 2, a) + q * q * x.a * y.a * mom(q, p + 2 * q - 2, a); o.T += 0.5 * c * k; o.sc += std::abs(c) * mom(q, p, a); } return o; }
struct Basis { std::vector<Con> f; std::vector<STOContracted> sto; std::vector<GTOContracted> gto; std::string str; double zmax, zmin; };
static Basis contracted(vt::Source & s, int maxf) {
  Basis b; int q = s.flag() ? 1 : 2, nf = s.range(1, maxf); b.zmax = 0; b.zmin = 1e9; double z0 = s.logreal(0.3, 4);
  for (int i = 0; i < nf; i++) { Con f; f.q = q; int np = s.range(1, 3); STOContracted S; GTOContracted G; S.contraction = VecD::Zero(np); G.contraction = VecD::Zero(np); b.str += q == 1 ? " STO{" : " GTO{";
    for (int j = 0; j < np; j++) { int n = s.range(q == 1 ? 1 : 0, q == 1 ? 5 : 4); double z = z0 * s.logreal(1, q == 1 ? 6 : 30), w = s.sym(2); if (std::abs(w) < 0.05) w = 0.5; S.primitives.push_back({n, z}); G.primitives.push_back({n, z}); S.contraction(j) = w; G.contraction(j) = w; int p = q == 1 ? n : n + 1; f.t.push_back({w / std::sqrt(mom(q, 2 * p, 2 * z)), p, z}); b.str += vt::fmt("(%d,%.8g)*%.6g ", n, z, w); b.zmax = std::max(b.zmax, z); b.zmin = std::min(b.zmin, z); }
    b.str += "}"; b.f.push_back(f); b.sto.push_back(S); b.gto.push_back(G); }
  return b; }
static NAORadialBasis make(const Basis & b, double tol = 1e-12, int nel = 30, int nn = 15) { return b.f[0].q == 1 ? make_nao_sto(b.sto, tol, nel, nn) : make_nao_gto(b.gto, tol, nel, nn); }
VT_CHECK(slater_gauss_one_electron, 160, 1500, "more than one function or primitive") {
  Basis b = contracted(s, 4); c.d("%s", b.str.c_str()); size_t n = b.f.size(); c.nontrivial = n > 1 || b.f[0].t.size() > 1; c.label("type", b.f[0].q == 1 ? "STO" : "GTO"); NAORadialBasis nb = make(b); c.ok(nb.Nbf() == n, "one function per input");
  MatD S = nb.overlap(), T = nb.kinetic(), L = nb.kinetic_l(), V = nb.nuclear(); double m = b.f[0].q == 1 ? b.zmax : std::sqrt(b.zmax);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { Ops o = ops(b.f[i], b.f[j]); double sc = std::sqrt(ops(b.f[i], b.f[i]).sc * ops(b.f[j], b.f[j]).sc) + o.sc; c.close(S(i, j), o.S, 3e-9 * sc, 0, "overlap"); c.close(T(i, j), o.T, 1e-7 * sc * m * m, 0, "kinetic"); c.close(L(i, j), o.L, 1e-7 * sc * m * m, 0, "centrifugal"); c.close(V(i, j), o.V, 1e-8 * sc * m, 0, "nuclear"); }
  MatD C = randmat(s, (int) n, 2); for (int k = 0; k < 5; k++) { double r = s.logreal(0.01, 8) / (b.f[0].q == 1 ? b.zmin : std::sqrt(b.zmin)); VecD v = nb.eval_orbs(C, r); c.ok(v.size() == 2, "one value per orbital"); for (int o = 0; o < 2; o++) { double w = 0, a = 0; for (size_t i = 0; i < n; i++) { w += C(i, o) * b.f[i].u(r) / r; for (auto & t : b.f[i].t) a += std::abs(t.c) * std::pow(r, t.p - 1) * std::exp(-t.a * (b.f[i].q == 1 ? r : r * r)); } double pk = 0; for (auto & f : b.f) pk += std::sqrt(ops(f, f).sc); c.close(v(o), w, 1e-7 * pk * std::sqrt(m) / r + 1e-7 * a, 0, vt::fmt("orbital at r=%.6g", r)); } }
}
VT_CHECK(slater_gauss_repulsion, 12, 120, "multipole above zero") {
  Basis b = contracted(s, 2); int k = s.range(0, 4); c.d("k=%d %s", k, b.str.c_str()); size_t n = b.f.size(); c.nontrivial = k > 0; NAORadialBasis nb = make(b, 1e-11, 16, 12); MatD D = randsymf(s, (int) n); MatD J = nb.coulomb_radial(k, nb, D), K = nb.exchange_radial(k, nb, D);
  // reference: cumulative quadrature on a fine mesh
  double R = 45 / (b.f[0].q == 1 ? b.zmin : std::sqrt(b.zmin)) ; if (b.f[0].q == 2) R *= 0.2; int np = 300; std::vector<double> gx, gw; gauss(10, gx, gw); auto edge = [&](int p) { double x = (double) p / np; return R * x * x * x; };
  auto rk = [&](const Fn & f, const Fn & g) { // R^k(f,g) by splitting at the panel, inner panel by sub-quadrature
    double tot = 0, below = 0; std::vector<double> fs(np), fb(np), gs(np), gb(np);
    for (int p = 0; p < np; p++) { double A = edge(p), B = edge(p + 1), h = 0.5 * (B - A); fs[p] = fb[p] = gs[p] = gb[p] = 0; for (int i = 0; i < 10; i++) { double r = A + h * (1 + gx[i]), w = gw[i] * h; fs[p] += w * f(r) * std::pow(r, k); fb[p] += w * f(r) * std::pow(r, -k - 1); gs[p] += w * g(r) * std::pow(r, k); gb[p] += w * g(r) * std::pow(r, -k - 1);
        // same panel: r2 < r and r2 > r
        for (int side = 0; side < 2; side++) { double A2 = side ? r : A, B2 = side ? B : r, h2 = 0.5 * (B2 - A2); double q = 0; for (int j = 0; j < 10; j++) { double r2 = A2 + h2 * (1 + gx[j]); q += gw[j] * h2 * g(r2) * std::pow(r2, side ? -k - 1 : k); } tot += w * f(r) * q * std::pow(r, side ? k : -k - 1); } } }
    double af = 0, ag = 0; for (int p = 0; p < np; p++) { tot += fb[p] * ag + gb[p] * af; af += fs[p]; ag += gs[p]; } (void) below; return tot; };
  Eigen::SelfAdjointEigenSolver<MatD> es(D); double m = b.f[0].q == 1 ? b.zmax : std::sqrt(b.zmax); double sc = 0; for (auto & f : b.f) sc = std::max(sc, ops(f, f).sc);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) { auto fij = [&](double r) { return b.f[i].u(r) * b.f[j].u(r); }; auto rho = [&](double r) { double v = 0; for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++) v += D(x, y) * b.f[x].u(r) * b.f[y].u(r); return v; }; c.close(J(i, j), rk(fij, rho), 1e-7 * sc * sc * m, 0, "Coulomb"); double e = 0; for (size_t p = 0; p < n; p++) { auto v = [&](double r) { double w = 0; for (size_t x = 0; x < n; x++) w += es.eigenvectors()(x, p) * b.f[x].u(r); return w; }; e += es.eigenvalues()(p) * rk([&](double r) { return b.f[i].u(r) * v(r); }, [&](double r) { return b.f[j].u(r) * v(r); }); } c.close(K(i, j), e, 1e-7 * sc * sc * m, 0, "exchange"); }
}
static std::shared_ptr<RB> fe(vt::Source & s, vt::Ctx & c, FEspec & e, int maxel, int maxn) { e = fespec(s, 0.0, maxel, maxn, false); if (e.nbf() < 2) throw vt::Reject(); c.d("%s", e.str().c_str()); return std::make_shared<RB>(e.make(), s.range(15, 40)); }
VT_CHECK(transform, 300, 3000, "at least two contracted functions") {
  FEspec e; auto rb = fe(s, c, e, 4, 7); int n = (int) rb->Nbf(), na = s.range(1, 5), nb = s.range(1, 5); MatD Ca = randmat(s, n, na), Cb = randmat(s, n, nb); NAORadialBasis A(rb, Ca), B(rb, Cb); c.d(" na=%d nb=%d", na, nb); c.nontrivial = na > 1; c.ok((int) A.Nbf() == na && (int) B.Nbf() == nb, "size");
  auto el = [&](const MatD & C, const MatD & M) { MatD r = MatD::Zero(C.cols(), C.cols()); for (int i = 0; i < r.rows(); i++) for (int j = 0; j < r.cols(); j++) for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) r(i, j) += C(p, i) * M(p, q) * C(q, j); return r; };
  samer(c, A.overlap(), el(Ca, rb->overlap()), 1e-12, "overlap"); samer(c, A.kinetic(), el(Ca, rb->kinetic()), 1e-12, "kinetic"); samer(c, A.kinetic_l(), el(Ca, rb->kinetic_l()), 1e-12, "centrifugal"); samer(c, A.nuclear(), el(Ca, rb->nuclear()), 1e-12, "nuclear"); c.ok(&A.underlying() == rb.get() && A.coeffs() == Ca, "accessors");
  NAORadialBasis O = NAORadialBasis::from_owned_radial(*rb, Ca); samer(c, O.overlap(), A.overlap(), 1e-14, "owned copy");
  MatD Co = randmat(s, na, 3); double r = s.real(1e-3, e.b.back() * 1.1); VecD v = A.eval_orbs(Co, r); VecD w = VecD::Zero(3); if (r <= e.b.back()) { int iel = 0; while (iel + 1 < e.nel() && r > e.b[iel + 1]) iel++; MatD f = e.eval({(r - e.coord(0, iel)) / (e.coord(1, iel) - e.coord(0, iel))}, 0, iel) * Ca * Co / r; w = f.row(0).transpose(); } double sc = std::max(1.0, 1 / r) * n * 3; for (int i = 0; i < 3; i++) c.close(v(i), w(i), 1e-11 * sc, 1e-9, vt::fmt("orbital at r=%.10g", r));
  // two-electron: brute-force contraction of the FE operators of a rank-one density
  int k = s.range(0, 5); double lam = s.logreal(0.1, 3); MatD D = randsymf(s, nb); MatD P = Cb * D * Cb.transpose(); samer(c, A.coulomb_radial(k, B, D), el(Ca, assemble_J_FE_one_multipole<double>(*rb, k, P)), 1e-11, "Coulomb"); samer(c, A.exchange_radial(k, B, D), el(Ca, assemble_K_FE_one_multipole<double>(*rb, k, P)), 1e-11, "exchange"); samer(c, A.coulomb_radial_yukawa(k, lam, B, D), el(Ca, assemble_J_FE_one_multipole_yukawa<double>(*rb, k, lam, P)), 1e-11, "screened Coulomb"); samer(c, A.exchange_radial_yukawa(k, lam, B, D), el(Ca, assemble_K_FE_one_multipole_yukawa<double>(*rb, k, lam, P)), 1e-11, "screened exchange");
  // physics: exchange energy trace symmetry  tr(Da J[Db]) = tr(Db J[Da])
  MatD Da = randsymf(s, na); auto tr = [](const MatD & x, const MatD & y) { return x.cwiseProduct(y).sum(); }; double a = tr(Da, A.coulomb_radial(k, B, D)), b = tr(D, B.coulomb_radial(k, A, Da)); MatD Ja = A.coulomb_radial(k, B, D); double mag = Da.cwiseAbs().maxCoeff() * Ja.cwiseAbs().maxCoeff() * na * na; c.close(a, b, 1e-10 * mag, 0, "reciprocity of the Coulomb interaction"); MatD Ka = A.exchange_radial(k, B, D); c.close(tr(Da, Ka), tr(D, B.exchange_radial(k, A, Da)), 1e-10 * na * na * std::max(1.0, Ka.cwiseAbs().maxCoeff()), 0, "reciprocity of the exchange interaction");
}
VT_CHECK(refusal, 400, 4000, "any") {
  FEspec e; auto rb = fe(s, c, e, 3, 5); FEspec e2; auto rb2 = fe(s, c, e2, 3, 5); int n = (int) rb->Nbf(); c.nontrivial = true; c.throws([&] { NAORadialBasis x(rb, MatD::Zero(n + 1 + (int) s.draw(3), 2)); }, "wrong number of rows"); c.throws([&] { NAORadialBasis x(rb, MatD::Zero(n, 0)); }, "no functions"); c.throws([&] { NAORadialBasis x(std::shared_ptr<const RadialBasis>(), MatD::Zero(n, 1)); }, "no basis");
  NAORadialBasis A(rb, randmat(s, n, 2)), B(rb2, randmat(s, (int) rb2->Nbf(), 2)); MatD D = randsymf(s, 2), D3 = randsymf(s, 3); double lam = -s.real(0, 2); c.throws([&] { A.coulomb_radial(0, B, D); }, "different bases"); c.throws([&] { A.exchange_radial(0, B, D); }, "different bases"); c.throws([&] { A.coulomb_radial(0, A, D3); }, "wrong density"); c.throws([&] { A.exchange_radial(0, A, D3); }, "wrong density"); c.throws([&] { A.coulomb_radial_yukawa(0, lam, A, D); }, "screening"); c.throws([&] { A.exchange_radial_yukawa(0, lam, A, D); }, "screening"); c.throws([&] { A.coulomb_radial_yukawa(0, 1, B, D); }, "different bases"); c.throws([&] { A.exchange_radial_yukawa(0, 1, A, D3); }, "wrong density"); c.throws([&] { A.eval_orbs(D3, 1.0); }, "wrong coefficients");
  auto NN = std::make_shared<NAORadialBasis>(rb, randmat(s, n, 2)); NAORadialBasis X(NN, randmat(s, 2, 2)); samer(c, X.overlap(), X.coeffs().transpose() * NN->overlap() * X.coeffs(), 1e-12, "nested contraction"); c.throws([&] { X.coulomb_radial(0, X, D); }, "not finite elements");
  Basis b = contracted(s, 2); c.throws([&] { make_nao_sto({}); }, "empty"); c.throws([&] { make_nao_gto({}); }, "empty"); int w = (int) s.draw(4); if (b.f[0].q == 1) { auto q = b.sto; auto & t = q[s.draw(q.size())]; if (w == 0) t.contraction.conservativeResize(t.contraction.size() + 1); else if (w == 1) t.primitives.clear(); else if (w == 2) t.primitives[s.draw(t.primitives.size())].n = -(int) s.draw(3); else t.primitives[s.draw(t.primitives.size())].zeta = -s.real(0, 1); c.throws([&] { make_nao_sto(q); }, vt::fmt("malformed %d", w)); } else { auto q = b.gto; auto & t = q[s.draw(q.size())]; if (w == 0) t.contraction.conservativeResize(t.contraction.size() + 1); else if (w == 1) t.primitives.clear(); else if (w == 2) t.primitives[s.draw(t.primitives.size())].n = -1 - (int) s.draw(3); else t.primitives[s.draw(t.primitives.size())].alpha = -s.real(0, 1); c.throws([&] { make_nao_gto(q); }, vt::fmt("malformed %d", w)); }
}
VT_CHECK(primitive_orbitals, 20000, 200000, "l above zero") {
  int l = s.range(0, 12); double z = s.logreal(0.01, 1e4), r = s.flag(1, 20) ? 0 : s.logreal(1e-3, 20) / std::sqrt(z); c.d("l=%d zeta=%.12g r=%.12g", l, z, r); c.nontrivial = l > 0; double rs = r / std::sqrt(z);
  auto nrm = [&](int q, double a, int p) { return 1 / std::sqrt(mom(q, 2 * p + 2, 2 * a)); }; double g = nrm(2, z, l) * std::pow(r, l) * std::exp(-z * r * r), st = nrm(1, z, l) * std::pow(rs, l) * std::exp(-z * rs); c.close(lcao::radial_GTO(r, l, z), g, 1e-300, 1e-12, "GTO"); c.close(lcao::radial_STO(rs, l, z), st, 1e-300, 1e-12, "STO"); VecD rv(2), zv(3); rv << r, 2 * r; zv << z, 2 * z, z / 3; MatD m = lcao::radial_GTO(rv, l, zv), m2 = lcao::radial_STO(rv, l, zv); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { c.close(m(i, j), lcao::radial_GTO(rv(i), l, zv(j)), 0, 0, "GTO table"); c.close(m2(i, j), lcao::radial_STO(rv(i), l, zv(j)), 0, 0, "STO table"); }
}
VT_MAIN()
