// LIBS: core general atomic sadatom sadscf diatomic checkpoint
// P17: exchange-correlation energies and matrices of the four grids against pointwise
// evaluation of independently computed densities and against finite differences of the energy.
#include "sadgen.h"
#include "../src/sadatom/dftgrid.h"
#include "../src/atomic/dftgrid.h"
#include <chebyshev.h>
#include "../src/general/angular.h"
#include "xcgen.h"
using xcg::Pts; using xcg::Fun; using xcg::Out;

// ---- independent evaluation of the basis at the nodes of the library's rules
static void atompts(const Spec & p, const AB & b, int lang, int mang, Pts & P) {
  helfem::Vector cth, phi, wa; helfem::angular::angular_chebyshev(lang, mang, cth, phi, wa); int nr = p.nr(), n = nr * p.na(), nw = 0; for (int el = 0; el < p.e.nel(); el++) nw += (int) b.get_r(el).size(); P.alloc(n, nw * (int) wa.size(), 3); int k = 0;
  for (int el = 0; el < p.e.nel(); el++) { VecD r = b.get_r(el), w = b.get_wrad(el); std::vector<double> xi(r.size()); for (int q = 0; q < r.size(); q++) xi[q] = (r(q) - 0.5 * (p.e.b[el] + p.e.b[el + 1])) / (0.5 * (p.e.b[el + 1] - p.e.b[el])); MatD f0 = p.e.eval(xi, 0, el), f1 = p.e.eval(xi, 1, el), f2 = p.e.eval(xi, 2, el);
    for (int a = 0; a < wa.size(); a++) { double x = cth(a), st = std::sqrt((1 - x) * (1 + x)); std::vector<std::complex<double>> Y(p.na()), T(p.na()); for (int i = 0; i < p.na(); i++) { std::complex<double> e = std::exp(std::complex<double>(0, p.m(i) * phi(a))); Y[i] = (double) sph::theta1(p.l(i), p.m(i), x) * e; T[i] = xcg::dtheta(p.l(i), p.m(i), x) * e; }
      for (int q = 0; q < r.size(); q++, k++) { double R = r(q); P.w(k) = wa(a) * w(q) * R * R; for (int i = 0; i < p.na(); i++) for (int j = 0; j < nr; j++) { int u = i * nr + j; double v = f0(q, j) / R, d = f1(q, j) / R - f0(q, j) / (R * R); P.f(u, k) = v * Y[i]; P.g[0](u, k) = d * Y[i]; P.g[1](u, k) = v / R * T[i]; P.g[2](u, k) = std::complex<double>(0, p.m(i)) * v / (R * st) * Y[i]; P.lap(u, k) = (f2(q, j) / R - p.l(i) * (p.l(i) + 1) * f0(q, j) / (R * R * R)) * Y[i]; } } } } }
static void diatpts(const DSpec & p, const DB & b, const VecD & cth, const VecD & phi, const VecD & wa, Pts & P) {
  auto L = p.list(); int n = (int) L.size(), nw = 0; for (int el = 0; el < p.e.nel(); el++) nw += (int) b.get_r(el).size(); P.alloc(n, nw * (int) wa.size(), 3); int k = 0;
  for (int el = 0; el < p.e.nel(); el++) { VecD r = b.get_r(el), w = b.get_wrad(el); std::vector<double> xi(r.size()); for (int q = 0; q < r.size(); q++) xi[q] = (r(q) - 0.5 * (p.e.b[el] + p.e.b[el + 1])) / (0.5 * (p.e.b[el + 1] - p.e.b[el])); MatD f0 = p.e.eval(xi, 0, el), f1 = p.e.eval(xi, 1, el), f2 = p.e.eval(xi, 2, el);
    for (int a = 0; a < wa.size(); a++) { double x = cth(a), st = std::sqrt((1 - x) * (1 + x)); std::vector<std::complex<double>> Y(p.na()), T(p.na()); for (int i = 0; i < p.na(); i++) { std::complex<double> e = std::exp(std::complex<double>(0, p.m(i) * phi(a))); Y[i] = (double) sph::theta1(p.l(i), p.m(i), x) * e; T[i] = xcg::dtheta(p.l(i), p.m(i), x) * e; }
      for (int q = 0; q < r.size(); q++, k++) { double sh = std::sinh(r(q)), ch = std::cosh(r(q)), h2 = p.R * p.R * (sh * sh + st * st), h = std::sqrt(h2); P.w(k) = wa(a) * w(q) * p.R * sh * h2; for (int u = 0; u < n; u++) { int i = L[u].first, j = L[u].second; double v = f0(q, j), m = p.m(i), l = p.l(i); P.f(u, k) = v * Y[i]; P.g[0](u, k) = f1(q, j) / h * Y[i]; P.g[1](u, k) = v / h * T[i]; P.g[2](u, k) = std::complex<double>(0, m) * v / (p.R * sh * st) * Y[i]; P.lap(u, k) = (f2(q, j) + ch / sh * f1(q, j) - (l * (l + 1) + m * m / (sh * sh)) * v) / h2 * Y[i]; } } } } }
static void sadpts(const SSpec & p, const SB & b, Pts & P, VecD & rr) { int n = p.n(), nw = 0, k = 0; for (int el = 0; el < p.e.nel(); el++) nw += (int) b.get_r(el).size(); P.alloc(n, nw, 1); rr.resize(nw); double q4 = 1; /* the grid takes densities divided by 4 pi */
  for (int el = 0; el < p.e.nel(); el++) { VecD r = b.get_r(el), w = b.get_wrad(el); std::vector<double> xi(r.size()); for (int q = 0; q < r.size(); q++) xi[q] = (r(q) - 0.5 * (p.e.b[el] + p.e.b[el + 1])) / (0.5 * (p.e.b[el + 1] - p.e.b[el])); MatD f0 = p.e.eval(xi, 0, el), f1 = p.e.eval(xi, 1, el), f2 = p.e.eval(xi, 2, el); for (int q = 0; q < r.size(); q++, k++) { double R = r(q); rr(k) = R; P.w(k) = 4 * M_PI * w(q) * R * R; for (int j = 0; j < n; j++) { P.f(j, k) = q4 * f0(q, j) / R; P.g[0](j, k) = q4 * (f1(q, j) / R - f0(q, j) / (R * R)); P.lap(j, k) = q4 * f2(q, j) / R; } } } }

// ---- drivers
using helfem::Vector; using helfem::Matrix;
template <class G> struct Grid { const G & g; Fun & f; double thr;
  Out one(const MatD & P) const { Out o; Matrix H; g().eval_Fxc(f.x, f.xp, f.c, f.cp, P, H, o.E, o.N, o.T, thr); o.H = {H}; return o; }
  Out two(const MatD & A, const MatD & B, bool beta = true) const { Out o; Matrix Ha, Hb; g().eval_Fxc(f.x, f.xp, f.c, f.cp, A, B, Ha, Hb, o.E, o.N, o.T, beta, thr); o.H = {Ha, Hb}; return o; } };
template <class D> static void consistency(vt::Source & s, vt::Ctx & c, Fun & f, const D & drv, const Pts & pts, const MatD & Pa, const MatD & Pb, const MatD & Xa, const MatD & Xb, bool empty, const MatD * mask, double thr) {
  auto chk = [&](const Out & o, const Out & w, const char * what) { double sc = w.scale; c.close(o.N, w.N, 1e-9 * w.an, 0, vt::fmt("%s: electron count", what)); if (f.tau()) c.close(o.T, w.T, 1e-8 * w.at, 0, vt::fmt("%s: kinetic energy", what)); if (f.energy()) c.close(o.E, w.E, 1e-7 * w.ae + 10 * w.econd + 1e-10, 0, vt::fmt("%s: energy", what)); for (size_t k = 0; k < o.H.size(); k++) { MatD W = w.H[k]; if (mask) W = W.cwiseProduct(*mask); same(c, o.H[k], W, (f.stiff() ? 2e-5 : 1e-6) * sc + 20 * w.cond + 1e-11, vt::fmt("%s: matrix %d", what, (int) k)); same(c, o.H[k], MatD(o.H[k].transpose()), 1e-11 * sc + 1e-13, vt::fmt("%s: symmetry of matrix %d", what, (int) k)); } };
  MatD P = Pa + Pb; Out r = drv.one(P), rw = xcg::eval(pts, f, {P}, thr); chk(r, rw, "unpolarised"); Out u = drv.two(Pa, Pb, !empty), uw = xcg::eval(pts, f, {Pa, Pb}, thr); if (empty) uw.H[1].setZero(); chk(u, uw, empty ? "fully polarised" : "polarised");
  Out eq = drv.two(0.5 * P, 0.5 * P); /* libxc's own polarised and unpolarised branches differ slightly for some functionals */ double tol = f.stiff() ? 1e-5 : 1e-7, lib = 0, libe = 0; if (f.stiff()) { Out ew = xcg::eval(pts, f, {0.5 * P, 0.5 * P}, thr); chk(eq, ew, "equal spins"); for (int k = 0; k < 2; k++) { MatD dd = ew.H[k] - rw.H[0]; lib = std::max(lib, dd.cwiseAbs().maxCoeff()); } libe = std::abs(ew.E - rw.E); } c.close(eq.E, r.E, tol * (rw.ae + 1e-6) + 20 * rw.econd + 2 * libe, 0, "equal spins: energy"); c.close(eq.N, r.N, 1e-10 * rw.an, 0, "equal spins: electron count"); if (f.tau()) c.close(eq.T, r.T, 1e-9 * rw.at, 0, "equal spins: kinetic energy"); for (int k = 0; k < 2; k++) same(c, eq.H[k], r.H[0], tol * rw.scale + 20 * rw.cond + 2 * lib + 1e-9, "equal spins: matrix");
  if (!empty) { Out sw = drv.two(Pb, Pa); c.close(sw.E, u.E, 1e-8 * uw.ae + 10 * uw.econd + 1e-11, 0, "swapped spins: energy"); same(c, sw.H[0], u.H[1], 1e-7 * uw.scale + 10 * uw.cond + 1e-10, "swapped spins: alpha matrix"); same(c, sw.H[1], u.H[0], 1e-7 * uw.scale + 10 * uw.cond + 1e-10, "swapped spins: beta matrix"); }
  if (!f.energy()) return;
  // derivative of the energy along a direction within the occupied span
  auto dir = [&](const MatD & X) { int k = (int) X.cols(); MatD a = MatD::Zero(k, k); for (int i = 0; i < k; i++) for (int j = 0; j <= i; j++) a(i, j) = a(j, i) = s.sym(1); double nn = a.norm(); if (nn > 0) a /= nn; else a = MatD::Identity(k, k) / std::sqrt((double) k); return MatD(X * a * X.transpose()); };
  auto mdot = [&](const MatD & H, const MatD & X) { return (mask ? MatD(H.cwiseProduct(*mask)) : H).cwiseProduct(X).sum(); }; auto fd = [&](auto E, auto R, double rlin, double lin, double sc, const char * what) { auto st = [&](double h) { return (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h); }; double h = 4e-3, d1 = st(h), d2 = st(0.5 * h), err = 10 * std::abs(d1 - d2); if (err > 1e-3 * std::abs(d2) + 1e-6) return; /* the library may itself be inconsistent */ if (f.stiff()) { double q = h * 0.5, rd = (8 * (R(q) - R(-q)) - (R(2 * q) - R(-2 * q))) / (12 * q); err += 3 * std::abs(rd - rlin); } c.close(lin, d2, err + 1e-6 * sc + 1e-9, 1e-5, vt::fmt("%s: matrix is the derivative of the energy", what)); };
  MatD Da = dir(Xa), Db = dir(Xb); if (mask) { Da = Da.cwiseProduct(*mask).eval(); Db = Db.cwiseProduct(*mask).eval(); } auto dot = [](const MatD & A, const MatD & B) { return A.cwiseProduct(B).sum(); }; double es = rw.ae;
  if (empty) Db.setZero(); fd([&](double h) { return drv.one(P + h * (Da + Db)).E; }, [&](double h) { return xcg::eval1(pts, f, {MatD(P + h * (Da + Db))}, thr, 0).E; }, mdot(rw.H[0], Da + Db), dot(r.H[0], Da + Db), es, "unpolarised"); fd([&](double h) { return drv.two(Pa + h * Da, Pb, !empty).E; }, [&](double h) { return xcg::eval1(pts, f, {MatD(Pa + h * Da), Pb}, thr, 0).E; }, mdot(uw.H[0], Da), dot(u.H[0], Da), es, "alpha"); if (!empty) fd([&](double h) { return drv.two(Pa, Pb + h * Db).E; }, [&](double h) { return xcg::eval1(pts, f, {Pa, MatD(Pb + h * Db)}, thr, 0).E; }, mdot(uw.H[1], Db), dot(u.H[1], Db), es, "beta");
}
static std::pair<MatD, MatD> dens(vt::Source & s, const MatD & S, int most, int least = 1) { least = std::min<int>(least, (int) S.rows()); Eigen::SelfAdjointEigenSolver<MatD> es(S); int n = (int) S.rows(), k = s.range(least, std::min(n, most)); MatD L = es.eigenvectors(); for (int i = 0; i < n; i++) L.col(i) /= std::sqrt(std::max(es.eigenvalues()(i), 1e-14)); Eigen::HouseholderQR<MatD> qr(randmat(s, n, k)); MatD Q = qr.householderQ() * MatD::Identity(n, k); MatD X = L.rightCols(n) * Q; for (int i = 0; i < k; i++) X.col(i) *= std::sqrt(s.real(0.1, 1.0)); return {MatD(X * X.transpose()), X}; }

VT_CHECK(spherical, 260, 2600, "a gradient-dependent functional and more than one angular momentum") {
  SSpec p; p.e = fespec(s, 0, 3, 6, false); p.e.zfl = true; p.e.zdl = false; p.e.zfr = true; if (p.e.nbf() < 1) throw vt::Reject(); p.Z = 1; p.lmax = s.range(0, 3); p.nq = s.range(6, 24); c.d("%s lmax=%d nquad=%d", p.e.str().c_str(), p.lmax, p.nq); Fun f = xcg::pick(s, c, true); SB b = p.make(); double thr = s.flag() ? 1e-12 : 1e-10; c.nontrivial = f.grad() && p.lmax > 0; Pts pts; VecD rr; sadpts(p, b, pts, rr); MatD S = b.overlap(); if (f.stiff() && S.rows() < 2) throw vt::Reject(); int n = p.n(), nl = p.lmax + 1; bool empty = s.flag(1, 5);
  std::vector<MatD> A, B, XA, XB; for (int l = 0; l < nl; l++) { auto a = dens(s, S, 3, f.stiff() ? 2 : 1), d = dens(s, S, 3, f.stiff() ? 2 : 1); A.push_back(a.first * (2 * l + 1) / (4 * M_PI)); XA.push_back(a.second * std::sqrt((2 * l + 1) / (4 * M_PI))); B.push_back(empty ? MatD::Zero(n, n) : MatD(d.first * (2 * l + 1) / (4 * M_PI))); XB.push_back(d.second * std::sqrt((2 * l + 1) / (4 * M_PI))); }
  // stacked matrices: block (l,l) of the angular momenta
  Pts big; big.alloc(n * nl, (int) pts.w.size(), 2); big.w = pts.w; for (int l = 0; l < nl; l++) for (int k = 0; k < pts.w.size(); k++) for (int j = 0; j < n; j++) { int u = l * n + j; big.f(u, k) = pts.f(j, k); big.g[0](u, k) = pts.g[0](j, k); big.g[1](u, k) = std::sqrt(l * (l + 1.0)) / rr(k) * pts.f(j, k); big.lap(u, k) = pts.lap(j, k); }
  big.spherical = true; MatD mask = MatD::Zero(n * nl, n * nl); for (int l = 0; l < nl; l++) mask.block(l * n, l * n, n, n).setOnes(); auto stack = [&](const std::vector<MatD> & v) { MatD M = MatD::Zero(n * nl, n * nl); for (int l = 0; l < nl; l++) M.block(l * n, l * n, n, n) = v[l]; return M; }; auto cube = [&](const MatD & M) { helfem::Cube q(nl); for (int l = 0; l < nl; l++) q[l] = M.block(l * n, l * n, n, n); return q; }; struct Drv { std::function<Out(const MatD &)> one; std::function<Out(const MatD &, const MatD &, bool)> two_; Out two(const MatD & a, const MatD & b, bool be = true) const { return two_(a, b, be); } } drv; helfem::sadatom::dftgrid::DFTGrid g(&b);
  drv.one = [&](const MatD & P) { Out o; helfem::Cube H; g.eval_Fxc(f.x, f.xp, f.c, f.cp, cube(P), H, o.E, o.N, thr); o.T = 0; std::vector<MatD> v(H.begin(), H.end()); o.H = {stack(v)}; return o; }; drv.two_ = [&](const MatD & P, const MatD & Q, bool be) { Out o; helfem::Cube Ha, Hb; g.eval_Fxc(f.x, f.xp, f.c, f.cp, cube(P), cube(Q), Ha, Hb, o.E, o.N, be, thr); o.T = 0; std::vector<MatD> v(Ha.begin(), Ha.end()), w(Hb.begin(), Hb.end()); c.ok((int) v.size() == nl && (int) w.size() == nl, "one matrix per angular momentum"); o.H = {stack(v), stack(w)}; return o; };
  f.notau = true; auto sx = [&](const std::vector<MatD> & X) { int k = 0; for (auto & x : X) k += (int) x.cols(); MatD M = MatD::Zero(n * nl, k); k = 0; for (int l = 0; l < nl; l++) { M.block(l * n, k, n, X[l].cols()) = X[l]; k += (int) X[l].cols(); } return M; };
  // directions that couple different angular momenta do not exist here: keep the diagonal blocks
  MatD Xa = sx(XA), Xb = sx(XB); consistency(s, c, f, drv, big, stack(A), stack(B), Xa, Xb, empty, &mask, thr);
}
VT_CHECK(atom, 150, 1500, "a gradient-dependent functional and more than one shell") {
  Spec p = spec(s, c, 3, 4, 2, 5); p.nq = s.range(4, 9); int lang = s.range(2, 7), mang = s.range(2, 7); c.d(" nquad=%d grid %d,%d", p.nq, lang, mang); Fun f = xcg::pick(s, c, true); double thr = s.flag() ? 1e-12 : 1e-10; AB b = p.make(); c.nontrivial = f.grad() && p.na() > 1; Pts pts; atompts(p, b, lang, mang, pts); MatD S = b.overlap(); if (f.stiff() && S.rows() < 2) throw vt::Reject(); auto A = dens(s, S, 4, f.stiff() ? 2 : 1), B = dens(s, S, 4, f.stiff() ? 2 : 1); bool empty = s.flag(1, 5); if (empty) B.first.setZero(); auto mk = [&] { return helfem::atomic::dftgrid::DFTGrid(&b, lang, mang); }; Grid<decltype(mk)> drv{mk, f, thr}; consistency(s, c, f, drv, pts, A.first, B.first, A.second, B.second, empty, nullptr, thr);
}
VT_CHECK(traces, 60, 600, "a kinetic-energy-dependent functional") {
  Spec p = spec(s, c, 2, 4, 2, 5); p.nq = 60; int lang = 2 * p.l.maxCoeff() + 10, mang = 2 * p.l.maxCoeff() + 3; Fun f = xcg::pick(s, c, true); AB b = p.make(); c.nontrivial = f.tau(); auto A = dens(s, b.overlap(), 3), B = dens(s, b.overlap(), 3); auto mk = [&] { return helfem::atomic::dftgrid::DFTGrid(&b, lang, mang); }; Grid<decltype(mk)> drv{mk, f, 1e-12}; MatD T = b.kinetic(); auto dot = [](const MatD & x, const MatD & y) { return x.cwiseProduct(y).sum(); }; Out o = drv.two(A.first, B.first), r = drv.one(A.first); double N = dot(A.first, b.overlap()), M = dot(B.first, b.overlap()); c.close(o.N, N + M, 1e-5 * (N + M), 0, "electrons"); c.close(r.N, N, 1e-5 * N, 0, "electrons, unpolarised"); if (f.tau()) { double t = dot(A.first, T), u = dot(B.first, T); c.close(o.T, t + u, 1e-4 * (t + u), 0, "kinetic energy"); c.close(r.T, t, 1e-4 * t, 0, "kinetic energy, unpolarised"); }
}
#include "p17_diatomic.inc"
VT_MAIN()
