// Diatomic basis generators and reference integrals in prolate spheroidal coordinates.
#pragma once
#include "sph.h"
#include "../src/diatomic/basis.h"
#include <set>
using namespace gen; using LD = sph::LD; using DB = helfem::diatomic::basis::TwoDBasis;
struct DSpec { FEspec e; Eigen::VectorXi l, m; int Z1, Z2, nq; double R; bool leg = true;
  DB make() const { return DB(Z1, Z2, R, poly(e.f, e.N), nq, tovec(e.b), l, m, leg); }
  int nr() const { return (int) e.nbf(); } int na() const { return (int) l.size(); }
  // (shell, radial function) of every basis function: the value function at mu=0 is dropped for m != 0
  std::vector<std::pair<int, int>> list() const { std::vector<std::pair<int, int>> v; for (int a = 0; a < na(); a++) for (int i = m(a) ? 1 : 0; i < nr(); i++) v.push_back({a, i}); return v; } };
static DSpec dspec(vt::Source & s, vt::Ctx & c, int lcap = 4, int most = 6, int maxel = 3, int maxn = 6, double hmax = 1.6) {
  DSpec p; p.e = fespec(s, 0, maxel, maxn, false); p.e.b = bounds(s, 0, p.e.nel(), 0.25, hmax); p.e.zfl = p.e.zdl = false; p.e.zfr = p.e.zdr = true; if (p.e.nbf() < 2) { p.e.N++; if (p.e.nbf() < 2) throw vt::Reject(); }
  std::vector<std::pair<int, int>> v; int k = s.range(0, 3); if (k == 0) { int M = s.range(0, std::min(2, lcap)); Eigen::VectorXi lm(M + 1); for (int i = 0; i <= M; i++) lm(i) = s.range(i, std::min(lcap, i + 2)); helfem::diatomic::basis::lm_to_l_m(lm, p.l, p.m); } else { std::set<std::pair<int, int>> seen; int n = s.range(1, most); for (int i = 0; i < n; i++) { int a = s.range(0, lcap), b = s.range(-a, a); if (seen.insert({a, b}).second) v.push_back({a, b}); if (k == 2 && b && (int) v.size() < most && seen.insert({a, -b}).second) v.push_back({a, -b}); } p.l.resize(v.size()); p.m.resize(v.size()); for (size_t i = 0; i < v.size(); i++) { p.l(i) = v[i].first; p.m(i) = v[i].second; } }
  p.Z1 = s.range(0, 20); p.Z2 = s.flag(1, 4) ? p.Z1 : s.range(0, 20); p.R = s.logreal(0.2, 4); p.nq = s.range(3 * p.e.N, 8 * p.e.N);
  c.d("%s R/2=%.6g Z=%d,%d nquad=%d lm=", p.e.str().c_str(), p.R, p.Z1, p.Z2, p.nq); for (int i = 0; i < p.na(); i++) c.d("(%d,%d)", p.l(i), p.m(i)); return p; }
// radial integrals int D^da u_i w(mu) D^db u_j dmu over common panels
template <typename W> static MatD mupanels(const FEspec & e, const FEspec & g, int da, int db, W w, int npt = 40, const std::vector<double> & brk = {}) {
  std::vector<double> x, wt; gauss(npt, x, wt); MatD M = MatD::Zero(e.nbf(), g.nbf()); std::set<double> cut(e.b.begin(), e.b.end()); for (double b : g.b) cut.insert(b); for (double b : brk) cut.insert(b); double hi = std::min(e.b.back(), g.b.back()); std::vector<double> pts; for (double b : cut) if (b >= 0 && b <= hi) pts.push_back(b);
  for (size_t k = 0; k + 1 < pts.size(); k++) { double a = pts[k], b = pts[k + 1]; if (b - a < 1e-13) continue; std::vector<double> r(npt), rw(npt); for (int q = 0; q < npt; q++) { r[q] = 0.5 * (a + b) + 0.5 * (b - a) * x[q]; rw[q] = 0.5 * (b - a) * wt[q]; }
    auto val = [&](const FEspec & f, int d) { int el = 0; while (el + 1 < f.nel() && 0.5 * (a + b) > f.b[el + 1]) el++; std::vector<double> xi(npt); for (int q = 0; q < npt; q++) xi[q] = 2 * (r[q] - f.b[el]) / (f.b[el + 1] - f.b[el]) - 1; return f.eval(xi, d, el); };
    MatD A = val(e, da), B = val(g, db); for (int q = 0; q < npt; q++) B.row(q) *= rw[q] * w(r[q]); M += A.transpose() * B; }
  return M; }
// <a| O(mu, cos nu) |b> over the volume, O includes everything but the volume element; nang angular points
template <typename O> static MatD volume(const DSpec & p, const DSpec & q, O op, int nang, int npt = 40) {
  auto & g = sph::rule((nang + 7) / 8 * 8); auto A = p.list(), B = q.list(); MatD M = MatD::Zero(A.size(), B.size());
  for (size_t t = 0; t < g.first.size(); t++) { LD x = g.first[t]; MatD R = mupanels(p.e, q.e, 0, 0, [&](double mu) { double ch = std::cosh(mu), sh = std::sinh(mu); return p.R * p.R * p.R * sh * (sh * sh + (double) ((1 - x) * (1 + x))) * op(mu, (double) x); }, npt);
    std::vector<double> ta(p.na()), tb(q.na()); for (int i = 0; i < p.na(); i++) ta[i] = (double) (sph::theta1(p.l(i), p.m(i), x) * g.second[t] * 2 * sph::PI); for (int i = 0; i < q.na(); i++) tb[i] = (double) sph::theta1(q.l(i), q.m(i), x);
    for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) if (p.m(A[i].first) == q.m(B[j].first)) M(i, j) += ta[A[i].first] * tb[B[j].first] * R(A[i].second, B[j].second); }
  return M; }
