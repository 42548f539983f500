// Atomic basis generators and reference integrals shared by the harnesses.
#pragma once
#include "sph.h"
#include "../src/atomic/TwoDBasis.h"
#include "../src/atomic/basis.h"
#include <set>
using namespace gen; using LD = sph::LD; using AB = helfem::atomic::basis::TwoDBasis;
struct Spec { FEspec e; Eigen::VectorXi l, m; int Z, Zl, Zr, nq; double Rh, Rrms; helfem::modelpotential::nuclear_model_t mod; bool zd;
  AB make() const { return AB(Z, mod, Rrms, poly(e.f, e.N), zd, nq, tovec(e.b), l, m, Zl, Zr, Rh); }
  int nr() const { return (int) e.nbf(); } int na() const { return (int) l.size(); } };
static void angular(vt::Source & s, Eigen::VectorXi & l, Eigen::VectorXi & m, int lcap, int most) {
  if (s.flag(1, 3)) { int L = s.range(0, std::min(lcap, 3)), M = s.range(0, L); helfem::atomic::basis::angular_basis(L, M, l, m); return; }
  std::set<std::pair<int, int>> seen; std::vector<std::pair<int, int>> v; int n = s.range(1, most); for (int i = 0; i < n; i++) { int a = s.range(0, lcap), b = s.range(-a, a); if (seen.insert({a, b}).second) v.push_back({a, b}); }
  l.resize(v.size()); m.resize(v.size()); for (size_t i = 0; i < v.size(); i++) { l(i) = v[i].first; m(i) = v[i].second; } }
static Spec spec(vt::Source & s, vt::Ctx & c, int lcap = 5, int most = 6, int maxel = 3, int maxn = 6) {
  Spec p; do { p.e = fespec(s, 0, maxel, maxn, false); if (s.replay && p.e.nbf() < 1) throw vt::Reject(); } while (p.e.nbf() < 1); p.e.zfl = true; p.e.zdl = false; p.e.zfr = true; p.zd = p.e.zdr; if (p.e.nbf() < 1) throw vt::Reject();
  angular(s, p.l, p.m, lcap, most); p.Z = s.range(0, 30); p.Zl = p.Zr = 0; p.Rh = 1; p.Rrms = 0.1; p.mod = helfem::modelpotential::POINT_NUCLEUS; p.nq = s.flag(1, 3) ? 0 : s.range(3 * p.e.N, 6 * p.e.N); if (p.nq == 0) p.nq = 5 * p.e.N + 2;
  c.d("%s lm=", p.e.str().c_str()); for (int i = 0; i < p.na(); i++) c.d("(%d,%d)", p.l(i), p.m(i)); return p; }
// radial panel integral of  D^da f_i * w(r) * D^db f_j  where f = u (power r^pw applied)
template <typename W> static MatD radial(const FEspec & e, const FEspec & g, int da, int db, W w, const std::vector<double> & brk = {}, int npt = 40) {
  std::vector<double> x, wt; gauss(npt, x, wt); MatD M = MatD::Zero(e.nbf(), g.nbf()); std::set<double> cut(e.b.begin(), e.b.end()); for (double b : g.b) cut.insert(b); for (double b : brk) cut.insert(b); std::vector<double> pts; double hi = std::min(e.b.back(), g.b.back()); for (double b : cut) if (b >= 0 && b <= hi) pts.push_back(b);
  for (size_t k = 0; k + 1 < pts.size(); k++) { double a = pts[k], b = pts[k + 1]; if (b - a < 1e-13) continue; std::vector<double> r(npt), rw(npt); for (int q = 0; q < npt; q++) { r[q] = 0.5 * (a + b) + 0.5 * (b - a) * x[q]; rw[q] = 0.5 * (b - a) * wt[q]; }
    auto val = [&](const FEspec & f, int d) { int el = 0; while (el + 1 < f.nel() && 0.5 * (a + b) > f.b[el + 1]) el++; std::vector<double> xi(npt); for (int q = 0; q < npt; q++) xi[q] = 2 * (r[q] - f.b[el]) / (f.b[el + 1] - f.b[el]) - 1; return f.eval(xi, d, el); };
    MatD A = val(e, da), B = val(g, db); for (int q = 0; q < npt; q++) B.row(q) *= rw[q] * w(r[q]); M += A.transpose() * B; }
  return M; }
// angular matrix int Y_i^* f Y_j for an azimuthally symmetric polynomial f
template <typename F> static MatD ang(const Spec & p, F f, int deg) { MatD A = MatD::Zero(p.na(), p.na()); for (int i = 0; i < p.na(); i++) for (int j = 0; j < p.na(); j++) if (p.m(i) == p.m(j)) A(i, j) = (double) (sph::integral(p.l(i), p.m(i), p.l(j), p.m(j), 0, 0, f, deg) * std::sqrt(4 * sph::PI)); return A; }
static MatD kron(const MatD & A, const MatD & R) { MatD M(A.rows() * R.rows(), A.cols() * R.cols()); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) M.block(i * R.rows(), j * R.cols(), R.rows(), R.cols()) = A(i, j) * R; return M; }
static void cmp(vt::Ctx & c, const MatD & got, const MatD & want, double rel, const std::string & w, const MatD & A, double scale = 1e-30) {
  double sc = std::max(want.cwiseAbs().maxCoeff(), scale); same(c, got, want, rel * sc, w); same(c, got, MatD(got.transpose()), 1e-12 * sc, w + ": symmetry"); int n = (int) (got.rows() / A.rows()); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) if (std::abs(A(i, j)) < 1e-15 && n) c.ok(got.block(i * n, j * n, n, n).isZero(0), w + vt::fmt(": forbidden block (%d,%d) is not zero", i, j)); }
static const double QF = 1; // r^2 P_2
static MatD delta(const Spec & p) { MatD A = MatD::Zero(p.na(), p.na()); for (int i = 0; i < p.na(); i++) for (int j = 0; j < p.na(); j++) A(i, j) = p.l(i) == p.l(j) && p.m(i) == p.m(j); return A; }
