// Generated inputs for the SCF programs and readers for their reports.
#pragma once
#include "prog.h"
namespace runs {
using Args = std::vector<std::string>;
static const char * methods[] = {"HF", "none", "lda_x", "lda_x-lda_c_vwn", "gga_x_pbe-gga_c_pbe", "hyb_gga_xc_b3lyp", "hyb_gga_xc_pbeh", "hyb_gga_xc_cam_b3lyp", "hyb_gga_xc_camy_b3lyp", "mgga_x_tpss-mgga_c_tpss", "hyb_gga_xc_lc_blyp", "hyb_gga_xc_lcy_pbe", "hyb_mgga_xc_tpssh", "HF-lda_c_pw", "gga_x_b88-gga_c_lyp", "hyb_gga_xc_hse06"};
static const int NM = 16;
inline bool ishf(int m) { return m == 0; }
struct Fd { std::string mode; double analytic, numeric, spread; };
inline std::vector<Fd> fds(const std::string & out) { std::vector<Fd> r; for (auto & l : prog::lines(out, "VSHIM fd")) { char m[64]; Fd f; if (sscanf(l.c_str(), "VSHIM fd mode=%63s analytic=%lf numeric=%lf spread=%lf", m, &f.analytic, &f.numeric, &f.spread) == 4) { f.mode = m; r.push_back(f); } else throw vt::Fail("unreadable line: " + l); } return r; }
struct Result { bool conv = false; double E = 0, first = 0; };
inline Result result(const prog::Run & r) { Result x; std::string v; if (!prog::after(r.out, "VSHIM result converged=", v)) throw vt::Fail("no result; exit " + std::to_string(r.rc) + ": " + prog::tail(r.err)); int cv = 0; if (sscanf(v.c_str(), "%d energy=%lf", &cv, &x.E) != 2) throw vt::Fail("unreadable result"); x.conv = cv; prog::number(r.out, "VSHIM first-energy", x.first); return x; }
// every printed energy line: components and total
struct Comp { double kin = 0, nuc = 0, coul = 0, xc = 0, exx = 0, total = 0, rest = 0, nel = 0; };
inline std::vector<Comp> comps(const std::string & out) { std::vector<Comp> r;
  for (auto & l : prog::lines(out, "Ekin ")) { if (l.compare(0, 5, "Ekin ")) continue; Comp c; std::istringstream is(l); std::string k; double x; bool ok = false; while (is >> k >> x) { if (k == "Ekin") c.kin = x; else if (k == "Enuc") c.nuc = x; else if (k == "Ecoul") c.coul = x; else if (k == "Exc") c.xc = x; else if (k == "Exx") c.exx = x; else if (k == "Etot") { c.total = x; ok = true; } else c.rest += x; } if (!ok) throw vt::Fail("unreadable energy line: " + l); r.push_back(c); }
  for (auto & l : prog::lines(out, "kinetic ")) { if (l.compare(0, 8, "kinetic ") || l.find(" total ") == std::string::npos) continue; Comp c; std::istringstream is(l); std::string k; bool ok = false; while (is >> k) { double x; if (k == "(nel") { is >> k; is >> c.nel; break; } if (!(is >> x)) break; if (k == "kinetic") c.kin = x; else if (k == "nuclear") c.nuc = x; else if (k == "Coulomb") c.coul = x; else if (k == "XC") c.xc = x; else if (k == "Exx") c.exx = x; else if (k == "total") { c.total = x; ok = true; } else c.rest += x; } if (!ok) throw vt::Fail("unreadable energy line: " + l); r.push_back(c); } return r; }
inline void check_sums(vt::Ctx & c, const std::string & out, double grid_tol, bool grid) { auto v = comps(out); c.ok(!v.empty(), "no energies were printed"); for (auto & x : v) { double s = x.kin + x.nuc + x.coul + x.xc + x.exx + x.rest; c.ok(std::abs(s - x.total) < 2e-9, vt::fmt("the components add up to %.10f, the printed total is %.10f", s, x.total)); } auto & z = v.back(); c.ok(z.kin >= 0 && z.coul >= -1e-9 && z.exx <= 1e-9, "sign of an energy component"); if (grid) c.ok(std::abs(z.nel) < grid_tol, vt::fmt("the integrated density misses %.3e electrons", z.nel)); }
inline double r6(double x) { return std::round(x * 1e6) / 1e6; }
// The operators given to the solver must be the derivative of the printed
// energy.  A direction in which the functional itself has a kink (thresholds,
// nodes of the density) is answered by two more directions.
inline void derivative(vt::Ctx & c, const std::string & prog, const Args & a, int seed, int method, double limit = 120) {
  prog::Dir dir; std::string bad; for (int k = 0; k < 3; k++) { auto r = prog::run(prog, a, dir, {{"VSHIM_FD", std::to_string(seed + 7919 * k)}, {"VSHIM_MAXIT", "2"}}, limit); if (r.rc == -1) throw vt::Reject(); if (r.rc != 0 && (r.err.find("not enough orbitals") != std::string::npos || r.err.find("block too small") != std::string::npos || r.err.find("Can't have finite element") != std::string::npos)) throw vt::Reject(); c.ok(r.ok(), vt::fmt("exit %d: %s", r.rc, prog::tail(r.err).c_str())); result(r); if (!k) check_sums(c, r.out, 1e300, false); auto v = fds(r.out); c.ok(!v.empty(), "no derivative was evaluated"); bad.clear();
    for (auto & x : v) { c.evals++; double sc = 1 + std::abs(x.analytic), tol = (method == 15 ? 1e-4 : 3e-6) * sc + x.spread; if (getenv("VT_FD")) { FILE * g = fopen(getenv("VT_FD"), "a"); fprintf(g, "fd %.3e %d %s %s %.3e %.3e\n", std::abs(x.analytic - x.numeric) / tol, k, methods[method], x.mode.c_str(), x.analytic - x.numeric, x.spread); fclose(g); } if (!(std::abs(x.analytic - x.numeric) <= tol)) bad = vt::fmt("%s: the operators predict a slope of %.9g, the energy changes by %.9g (difference %.2e, step error about %.1e)", x.mode.c_str(), x.analytic, x.numeric, x.analytic - x.numeric, x.spread); }
    if (bad.empty()) return; }
  c.fail(bad); }
}
