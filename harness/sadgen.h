// Spherically averaged atomic basis generators and density evaluation.
#pragma once
#include "atomgen.h"
#include "radgen.h"
#include "../src/sadatom/basis.h"
#include <Eigen/Eigenvalues>
#include <Eigen/Cholesky>
using SB = helfem::sadatom::basis::TwoDBasis;
struct SSpec { FEspec e; int Z, lmax, nq; helfem::modelpotential::nuclear_model_t mod = helfem::modelpotential::POINT_NUCLEUS; double Rrms = 0;
  SB make() const { return SB(Z, mod, Rrms, poly(e.f, e.N), e.zdr, nq, tovec(e.b), lmax, e.zfr); } int n() const { return (int) e.nbf(); } };
static SSpec sspec(vt::Source & s, vt::Ctx & c, int maxel, int maxn, int lcap, bool right = false) { SSpec p; p.e = fespec(s, 0, maxel, maxn, false); p.e.zfr = right ? s.flag(3, 4) : true; while (p.e.nbf() < 2) { p.e.N++; if (p.e.N > 4 && p.e.nbf() < 2) throw vt::Reject(); } p.Z = s.range(0, 30); p.lmax = s.range(0, lcap); p.nq = s.range(5, 40); c.d("%s Z=%d lmax=%d nquad=%d", p.e.str().c_str(), p.Z, p.lmax, p.nq); return p; }
// hydrogenic-like orbitals of the basis: realistic decaying densities
struct Orb { SSpec p; std::vector<MatD> C; std::vector<VecD> E; };
static Orb orbitals(vt::Source & s, vt::Ctx & c, int lcap, int nq = 0) {
  Orb o; SSpec & p = o.p; int k = (int) s.draw(3); p.e.f = fam(k); p.e.N = k == 1 ? s.range(4, 6) : s.range(6, 10); int nel = s.range(3, 6); p.Z = s.range(1, 12); double R = s.real(28, 40) / std::sqrt(p.Z), ex = s.real(1, 2.2); for (int i = 0; i <= nel; i++) p.e.b.push_back(std::pow(1 + R, std::pow((double) i / nel, ex)) - 1); p.e.b[0] = 0; p.e.zfl = true; p.e.zdl = false; p.e.zfr = true; p.e.zdr = s.flag(); p.lmax = s.range(0, lcap); p.nq = nq ? nq : s.range(20, 40); c.d("%s Z=%d lmax=%d nquad=%d", p.e.str().c_str(), p.Z, p.lmax, p.nq);
  MatD S = radial(p.e, p.e, 0, 0, [](double) { return 1.0; }), T = 0.5 * radial(p.e, p.e, 1, 1, [](double) { return 1.0; }), L = 0.5 * radial(p.e, p.e, 0, 0, [](double r) { return 1 / (r * r); }), V = radial(p.e, p.e, 0, 0, [&](double r) { return -(1 + (p.Z - 1) * std::exp(-r)) / r; }); for (int l = 0; l <= p.lmax; l++) { Eigen::GeneralizedSelfAdjointEigenSolver<MatD> es(MatD(T + l * (l + 1) * L + V), S); o.C.push_back(es.eigenvectors()); o.E.push_back(es.eigenvalues()); } return o; }
// occupied densities per l (total over m)
static std::vector<MatD> occupy(vt::Source & s, vt::Ctx & c, const Orb & o, int most = 2) { std::vector<MatD> P; c.d(" occ"); for (size_t l = 0; l < o.C.size(); l++) { int n = (int) o.C[l].rows(); P.push_back(MatD::Zero(n, n)); int k = std::min(n, l == 0 ? s.range(1, most) : s.range(0, most)); for (int i = 0; i < k; i++) { double f = s.real(0.2, 2.0 * (2 * l + 1)); P.back() += f * o.C[l].col(i) * o.C[l].col(i).transpose(); c.d(" %d%c:%.4g", (int) (i + l + 1), "spdfgh"[l], f); } } return P; }
static MatD total(const std::vector<MatD> & P) { MatD r = P[0]; for (size_t i = 1; i < P.size(); i++) r += P[i]; return r; }
// 4 pi n(r) and derivatives from radial functions u/r
struct Den { const FEspec & e; const MatD & P; int find(double r) const { int el = 0; while (el + 1 < e.nel() && r >= e.b[el + 1]) el++; return el; }
  double x(double r, int el) const { return (r - 0.5 * (e.b[el] + e.b[el + 1])) / (0.5 * (e.b[el + 1] - e.b[el])); }
  void q(double r, int el, double * o, int top = 2) const { double X = x(r, el); VecD f[4]; for (int k = 0; k <= top; k++) f[k] = e.eval({X}, k, el).row(0).transpose(); VecD P0 = P * f[0]; o[0] = f[0].dot(P0); if (top > 0) o[1] = 2 * P0.dot(f[1]); if (top > 1) { VecD P1 = P * f[1]; o[2] = 2 * f[1].dot(P1) + 2 * P0.dot(f[2]); } }
  double n(double r, int el = -1) const { double o[1]; if (el < 0) el = find(r); q(r, el, o, 0); return o[0] / (r * r); }
  void d(double r, double * o, int el = -1) const { if (el < 0) el = find(r); double k[3]; q(r, el, k); o[0] = k[0] / (r * r); o[1] = (k[1] - 2 * k[0] / r) / (r * r); o[2] = (k[2] - 4 * k[1] / r + 6 * k[0] / (r * r)) / (r * r); }
  double integ(double lo, double hi, int pw) const { std::vector<double> gx, gw; gauss(40, gx, gw); double sum = 0; for (int i = 0; i < e.nel(); i++) { double A = std::max(lo, e.b[i]), B = std::min(hi, e.b[i + 1]); if (B <= A) continue; double h = 0.5 * (B - A), m = 0.5 * (A + B); std::vector<double> xs(40); for (int k = 0; k < 40; k++) xs[k] = x(m + h * gx[k], i); MatD f = e.eval(xs, 0, i); for (int k = 0; k < 40; k++) { VecD v = f.row(k).transpose(); sum += gw[k] * h * v.dot(P * v) * std::pow(m + h * gx[k], pw); } } return sum; } };
