// LIBS: core general checkpoint atomic diatomic
// P24: the one-dimensional and one-electron model programs.
#include "prog.h"
#include "fespace.h"
#include "twocenter.h"
#include <checkpoint.h>
#include "../src/atomic/basis.h"
using namespace vt;
namespace {
using Args = std::vector<std::string>;
void note(const std::string & t) { if (const char * f = getenv("VT_FD")) { FILE * g = fopen(f, "a"); fprintf(g, "%s\n", t.c_str()); fclose(g); } }
double r6(double x) { return std::round(x * 1e6) / 1e6; }
std::vector<double> lin(double a, double b, int n) { std::vector<double> v(n + 1); for (int i = 0; i <= n; i++) v[i] = a + (b - a) * i / n; return v; }
void nodes(Source & s, int & prim, int & n, int & nel, int top = 8) { prim = s.pick({4, 4, 3, 5, 8, 9}); n = s.range(2, prim == 9 ? 3 : prim == 8 ? 4 : prim == 5 ? 7 : 13); nel = s.range(1, top); }
prog::Run go(Ctx & c, const std::string & p, const Args & a, const prog::Dir & d) { auto r = prog::run(p, a, d); if (r.rc == -1) throw Reject(); c.ok(r.ok(), fmt("%s %s: exit %d: %s", p.c_str(), prog::join(a).c_str(), r.rc, prog::tail(r.err).c_str())); return r; }
std::vector<double> bracket(const std::string & out) { std::vector<double> e; for (auto & l : prog::lines(out, "E[")) { int i; double x; if (sscanf(l.c_str(), "E[%d] = %lf", &i, &x) == 2) { if (i != (int) e.size()) throw Fail("levels are not numbered in order"); e.push_back(x); } } return e; }
// the deviation the program reports, allowing for the conditioning of its basis
void orthonormal(Ctx & c, const std::string & out) { double dev, cond; c.ok(prog::number(out, "condition number is", cond) && prog::number(out, "devation is", dev), "missing report"); c.ok(dev < 1e-9 + 1e-13 * cond, fmt("orbitals deviate from orthonormality by %.2e (condition number %.1e)", dev, cond)); }
void compare(Ctx & c, const std::vector<double> & got, const Eigen::VectorXd & want, size_t expect, double atol, double rtol, const char * what) { c.ok(got.size() == expect, fmt("%s: %zu levels reported, expected %zu", what, got.size(), expect)); double sc = 0; for (size_t i = 0; i < got.size(); i++) sc = std::max(sc, std::abs(want(i))); for (size_t i = 0; i < got.size(); i++) { if (i) c.ok(got[i] >= got[i - 1], fmt("%s: levels are not ascending", what)); note(fmt("%s %.3e i=%zu %s", what, (got[i] - want(i)) / (atol + rtol * sc), i, c.desc.c_str())); c.evals++; c.close(got[i], want(i), atol + rtol * sc, 0, fmt("%s level %zu", what, i)); } }
// coordinates, weights and orbitals written to the checkpoint
void checkpoint(Ctx & c, const prog::Dir & d, const std::string & f, double a, double b, size_t nbf) { Checkpoint k(d.d + "/" + f, false); helfem::Vector x, w; helfem::Matrix phi, bf, C; k.read("coords", x); k.read("weights", w); k.read("phi", phi); k.read("bf", bf); k.read("C", C); c.ok((size_t) phi.cols() == nbf && phi.rows() == x.size() && w.size() == x.size() && (size_t) C.rows() == nbf, "shapes in the checkpoint"); for (Eigen::Index i = 0; i < x.size(); i++) c.ok(x(i) >= a && x(i) <= b && (!i || x(i) > x(i - 1)), "coordinates in the checkpoint"); c.close(w.sum(), b - a, 1e-6 * (b - a), 0, "sum of the weights"); c.close((phi - bf * C).cwiseAbs().maxCoeff(), 0, 1e-9 * (1 + phi.cwiseAbs().maxCoeff()), 0, "orbitals are their expansions"); helfem::Matrix S = phi.transpose() * w.asDiagonal() * phi; for (Eigen::Index i = 0; i < S.rows(); i++) S(i, i) -= 1; c.close(S.cwiseAbs().maxCoeff(), 0, c.desc.find("primbas=9") != std::string::npos ? 0.3 : 1e-4, 0, "orthonormality of the saved orbitals"); }
}
VT_CHECK(harmonic, 150, 3000, "more than one element or a Hermite basis") {
  int prim, n, nel; nodes(s, prim, n, nel); double xm = r6(s.real(0.5, 10)); auto cuts = lin(-xm, xm, nel); auto sp = fespace::family(prim, n, cuts, true); int dim = fespace::dimension(sp); if (dim < 1) throw Reject(); int nq = 5 * (sp.degree + 1) + s.range(0, 40); Args a = {fmt("%.6f", xm), std::to_string(nel), std::to_string(n), std::to_string(prim), std::to_string(nq)}; c.d("harmonic %s", prog::join(a).c_str()); c.nontrivial = nel > 1 || prim >= 5; c.label("primitive", std::to_string(prim)); prog::Dir d; auto r = go(c, "prog_harmonic", a, d); auto ev = fespace::solve(sp, [](double x) { return 0.5 * x * x; }); Eigen::VectorXd want = 2 * ev; std::vector<double> got; bool on = false; std::istringstream is(r.out); std::string l; while (std::getline(is, l)) { if (l == "Eigenvalues") on = true; else if (on) { int i; double x, y; if (sscanf(l.c_str(), "%d %lf %lf", &i, &x, &y) != 3) break; c.ok(i == (int) got.size(), "numbering"); c.close(x - y, 2 * i + 1, 2e-6, 0, "deviation from the exact level"); got.push_back(x); } } compare(c, got, want, std::min(8, dim), 1e-6, 1e-6, "harmonic"); orthonormal(c, r.out); std::string nb; c.ok(prog::after(r.out, "Basis set contains", nb) && atoi(nb.c_str()) == dim, "number of basis functions"); if (nel >= 4 && xm > 6 && dim > 60 && xm / nel * 14 < dim / nel * 1.0) for (int i = 0; i < 3; i++) c.close(got[i], 2 * i + 1, 1e-4, 0, "exact level"); }
VT_CHECK(softcoulomb, 150, 3000, "two charges") {
  int prim, n, nel; nodes(s, prim, n, nel); double xm = r6(s.real(2, 25)), R = r6(s.real(0, xm)), al = r6(s.logreal(0.1, 3)); int Z1 = s.range(0, 5), Z2 = s.range(0, 5); bool abs = s.flag(1, 3); auto sp = fespace::family(prim, n, lin(-xm, xm, nel), true); int dim = fespace::dimension(sp); if (dim < 1) throw Reject(); Args a = {fmt("--xmax=%.6f", xm), fmt("--nelem=%d", nel), fmt("--nnodes=%d", n), fmt("--primbas=%d", prim), fmt("--Z1=%d", Z1), fmt("--Z2=%d", Z2), fmt("--R=%.6f", R), fmt("--alpha=%.6f", al), fmt("--abs=%d", int(abs)), "--save=s.chk"}; int nq = 10 * (sp.degree + 1) + 100; double h = xm / nel; if (s.flag(1, 4) && prim == 4) { nq = -1; } if (nq > 0) a.push_back(fmt("--nquad=%d", nq)); else { nq = 5 * n; if (al < h || abs) throw Reject(); } c.d("softcoulomb %s", prog::join(a).c_str()); c.nontrivial = Z1 && Z2; c.label("form", abs ? "absolute value" : "square root"); prog::Dir d; auto r = go(c, "prog_softcoulomb", a, d); std::vector<double> brk; for (double x0 : {-R / 2, R / 2}) for (double y : {0.0, al, 3 * al, 8 * al}) { brk.push_back(x0 - y); brk.push_back(x0 + y); } auto want = fespace::solve(sp, [&](double x) { auto v = [&](double z, double x0) { return abs ? -z / (std::abs(x - x0) + al) : -z / std::sqrt((x - x0) * (x - x0) + al * al); }; return v(Z1, -R / 2) + v(Z2, R / 2); }, brk); double kink = (Z1 + Z2) / al; double e = abs ? 30 * kink * (h / al) / (nq * (double) nq) : kink * std::exp(-1.0 * nq * std::min(1.0, al / h)) + kink * 1e-7; compare(c, bracket(r.out), want, std::min(10, dim), 1e-8 + e, 1e-8, "soft Coulomb"); orthonormal(c, r.out); checkpoint(c, d, "s.chk", -xm, xm, dim); }
VT_CHECK(morse, 150, 3000, "parameters other than the defaults") {
  int prim, n, nel; nodes(s, prim, n, nel); double De = r6(s.logreal(0.1, 50)), al = r6(s.logreal(0.3, 3)), re = r6(s.real(0.5, 5)), m = s.flag() ? 1 : r6(s.logreal(0.2, 5)); bool deut = s.flag(1, 4); double rm = r6(re + s.real(2, 15) / al); auto sp = fespace::family(prim, n, lin(0, rm, nel), false); int dim = fespace::dimension(sp); if (dim < 1) throw Reject(); double M = m * (deut ? 2 : 1); int nq = 10 * (sp.degree + 1) + 60; Args a = {fmt("--rmax=%.6f", rm), fmt("--nelem=%d", nel), fmt("--nnodes=%d", n), fmt("--primbas=%d", prim), fmt("--De=%.6f", De), fmt("--a=%.6f", al), fmt("--re=%.6f", re), fmt("--m=%.6f", m), fmt("--nquad=%d", nq), "--save=m.chk"}; if (deut) a.push_back("--deuteron=1"); c.d("morse %s", prog::join(a).c_str()); c.nontrivial = true; c.label("mass", m == 1 && !deut ? "unit" : "other"); prog::Dir d; auto r = go(c, "prog_morse", a, d); auto V = [&](double x) { double t = 1 - std::exp(-al * (x - re)); return De * t * t; }; auto want = fespace::solve(sp, V, {}, 1 / M); double top = std::max(V(0), De); compare(c, bracket(r.out), want, std::min(10, dim), (prim == 9 ? 30 : 1) * (1e-7 + 2e-8 * top), prim == 9 ? 3e-6 : 1e-7, "Morse"); orthonormal(c, r.out); checkpoint(c, d, "m.chk", 0, rm, dim);
  // closed form where the well neither feels the walls nor exceeds the basis
  double w = al * std::sqrt(2 * De / M), e0 = w / 2 - w * w / (16 * De); auto ex = oracle1d::solve([&](double x) { return V(x) * M; }, lin(0, rm, 30), 15); double box = ex(0) / M; c.ok(bracket(r.out)[0] >= box - 1e-7 * (1 + top), "variational bound"); if (w < De && e0 < 0.5 * De && V(0) > 20 * e0 && rm > re + 12 / al) { c.label("well", "deep"); c.close(box, e0, 1e-3 * e0, 0, "oracle"); } }
VT_CHECK(atom, 120, 2000, "several elements and angular momenta") {
  int prim, n, nel; nodes(s, prim, n, nel, 6); if (prim == 9) prim = 8; int Z = s.range(1, 30), lmax = s.range(0, 3), grid = s.range(1, 4), fin = s.flag(1, 3) ? s.range(1, 3) : 0; double zexp = r6(s.real(1, 3)), Rm = r6(s.real(5, 60) / Z), rms = fin ? r6(s.logreal(0.05, 1) / Z) : 0; Args a = {fmt("--Z=%d", Z), fmt("--Rmax=%.6f", Rm), fmt("--nelem=%d", nel), fmt("--nnodes=%d", n), fmt("--primbas=%d", prim), fmt("--lmax=%d", lmax), fmt("--grid=%d", grid), fmt("--zexp=%.6f", zexp), "--save=o.chk"}; int nel0 = 0; if (fin) { nel0 = s.range(1, 2); a.push_back(fmt("--finitenuc=%d", fin)); a.push_back(fmt("--Rrms=%.6f", rms)); a.push_back(fmt("--nelem0=%d", nel0)); } auto bv = helfem::atomic::basis::form_grid((helfem::modelpotential::nuclear_model_t) fin, rms, nel, Rm, grid, zexp, nel0, 4, 2.0, Z, 0, 0, 0.0); std::vector<double> cuts(bv.data(), bv.data() + bv.size()); for (size_t i = 1; i < cuts.size(); i++) if (cuts[i] - cuts[i - 1] < 1e-4 * Rm / nel) throw Reject(); auto sp = fespace::family(prim, n, cuts, false); int dim = fespace::dimension(sp); if (dim < 1) throw Reject(); c.d("1e_atom %s", prog::join(a).c_str()); c.nontrivial = nel > 1 && lmax > 0; c.label("nucleus", std::to_string(fin)); prog::Dir d; auto r = go(c, "prog_1e_atom", a, d);
  auto vn = oracle1d::nucleus(fin, Z, rms); std::istringstream is(r.out); std::string l; std::vector<std::vector<double>> lev; while (std::getline(is, l)) { int k; double x; if (sscanf(l.c_str(), "l=%d eigenvalues", &k) == 1) { c.ok(k == (int) lev.size(), "order of angular momenta"); lev.push_back({}); } else if (!lev.empty() && sscanf(l.c_str(), "  %lf", &x) == 1) lev.back().push_back(x); } c.ok((int) lev.size() == lmax + 1, "angular momenta reported"); Checkpoint k(d.d + "/o.chk", false); helfem::Vector x, w; k.read("r", x); k.read("wr", w); c.close(w.sum(), Rm, 1e-5 * Rm, 0, "sum of the weights");
  for (int q = 0; q <= lmax; q++) { auto want = fespace::solve(sp, [&](double x) { return vn.first(x) + q * (q + 1) / (2 * x * x); }, vn.second); c.ok((int) lev[q].size() == dim, fmt("%zu levels from %d functions", lev[q].size(), dim)); std::vector<double> lo(lev[q].begin(), lev[q].begin() + std::min(dim, 6)); compare(c, lo, want, lo.size(), 1e-7 * Z * Z + (fin ? 1e-5 * Z * Z : 0), 1e-7, "one-electron atom"); for (size_t i = 1; i < lev[q].size(); i++) c.ok(lev[q][i] >= lev[q][i - 1], "ascending"); if (!fin) c.ok(lev[q][0] >= -0.5 * Z * Z / ((q + 1.0) * (q + 1)) * (1 + 1e-7), "variational bound"); helfem::Vector E; helfem::Matrix orb; k.read("E_" + std::to_string(q), E); k.read("orbs_" + std::to_string(q), orb); c.ok(E.size() == dim && orb.cols() == dim && orb.rows() == x.size(), "shapes in the checkpoint"); for (int i = 0; i < dim; i++) c.close(E(i), lev[q][i], 1e-12 * (1 + std::abs(E(i))), 0, "saved level"); helfem::Vector wr = w.array() * x.array() * x.array(); helfem::Matrix S = orb.transpose() * wr.asDiagonal() * orb; for (int i = 0; i < dim; i++) S(i, i) -= 1; c.close(S.cwiseAbs().maxCoeff(), 0, c.desc.find("primbas=9") != std::string::npos ? 0.3 : 1e-4, 0, "orthonormality of the saved orbitals"); } }
VT_CHECK(diatomic, 24, 300, "different charges") {
  int Z1 = s.range(0, 4), Z2 = s.range(Z1 ? 0 : 1, 4); double R = r6(s.real(0.6, 4)); int prim = s.pick({4, 4, 3, 5, 8}), n = prim == 4 || prim == 3 ? 9 : prim == 5 ? 5 : 3, nel = s.range(2, 3), mmax = s.range(0, 1), lmax = s.range(8, 11); if (prim == 5 || prim == 8) nel++; double Rm = r6(std::max(R, s.real(12, 25) / std::max(Z1, Z2) + R)); bool list = s.flag(); Args a = {fmt("--Z1=%d", Z1), fmt("--Z2=%d", Z2), fmt("--Rbond=%.6f", R), fmt("--Rmax=%.6f", Rm), fmt("--nelem=%d", nel), fmt("--nnodes=%d", n), fmt("--primbas=%d", prim), "--save=d.chk"}; if (list) { std::string t; for (int m = 0; m <= mmax; m++) t += (m ? "," : "") + std::to_string(lmax); a.push_back("--lmax=" + t); } else { a.push_back(fmt("--lmax=%d", lmax)); a.push_back(fmt("--mmax=%d", mmax)); } c.d("diatomic_1e %s", prog::join(a).c_str()); c.nontrivial = Z1 != Z2; c.label("charges", Z1 == Z2 ? "equal" : !Z1 || !Z2 ? "one" : "different"); prog::Dir d; go(c, "prog_diatomic_1e", a, d); Checkpoint k(d.d + "/d.chk", false); helfem::Vector E; helfem::Matrix S, T, V, H, C, X; k.read("Ea", E); k.read("S", S); k.read("T", T); k.read("Vnuc", V); k.read("H0", H); k.read("Ca", C); k.read("Sinvh", X); double ek, en, er, et; k.read("Ekin", ek); k.read("Enuc", en); k.read("Enucr", er); k.read("Etot", et); c.close(er, Z1 * Z2 / R, 1e-12, 1e-12, "nuclear repulsion"); c.close(et, ek + en + er, 1e-10, 1e-12, "total"); c.close(E(0), ek + en, 1e-9, 1e-10, "kinetic and nuclear energies of the lowest state"); c.close((H - T - V).cwiseAbs().maxCoeff(), 0, 1e-10 * (1 + H.cwiseAbs().maxCoeff()), 0, "Hamiltonian"); helfem::Matrix r = C.transpose() * S * C; c.close((r - helfem::Matrix::Identity(r.rows(), r.cols())).cwiseAbs().maxCoeff(), 0, 1e-8, 0, "orthonormality"); for (Eigen::Index i = 1; i < E.size(); i++) c.ok(E(i) >= E(i - 1) - 1e-10, "ascending"); double mu = std::acosh(Rm / (R / 2)); std::vector<double> lv; for (int m = 0; m <= mmax; m++) for (int kx = 0; kx < 2; kx++) for (int ke = 0; ke < 2; ke++) { double x = twocenter::level(Z1, Z2, R, mu, m, kx, ke); for (int t = 0; t < (m ? 2 : 1); t++) lv.push_back(x); } std::sort(lv.begin(), lv.end()); double sc = std::pow(std::max(Z1, Z2), 2); for (int i = 0; i < 2; i++) { note(fmt("dia %.3e %d %s", (E(i) - lv[i]) / sc, i, c.desc.c_str())); c.ok(E(i) > lv[i] - 1e-8 * sc, fmt("level %d: %.10f lies below the exact %.10f", i, E(i), lv[i])); c.close(E(i), lv[i], 3e-4 * sc, 0, fmt("level %d", i)); } }
VT_MAIN()
