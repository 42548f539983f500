// P23: the spherical-atom program as a whole.
#include "runs.h"
#include "oracle1d.h"
using namespace runs;
namespace {
struct Cfg { int Z, Q = 0, M = 0, lmax, nelem, nnodes, prim = 4, grid = 4, restr = -1, guess = 2, conf = 0, cN = 0, method = 0, nquad = 0, na = 0, nb = 0; double Rmax = 20, zexp = 2, cR = 0, cB = 0, cS = 0; std::string occs;
  Args radial() const { Args a = {"--Z=" + std::to_string(Z), "--Q=" + std::to_string(Q), "--lmax=" + std::to_string(lmax), "--nelem=" + std::to_string(nelem), "--nnodes=" + std::to_string(nnodes), vt::fmt("--Rmax=%.6f", Rmax), "--method=" + std::string(methods[method])}; auto opt = [&](bool y, const std::string & t) { if (y) a.push_back(t); }; opt(M, "--M=" + std::to_string(M)); opt(prim != 4, "--primbas=" + std::to_string(prim)); opt(grid != 4, "--grid=" + std::to_string(grid)); opt(zexp != 2, vt::fmt("--zexp=%.4f", zexp)); opt(restr != -1, vt::fmt("--restricted=%d", restr)); opt(guess != 2, vt::fmt("--iguess=%d", guess)); opt(nquad, vt::fmt("--nquad=%d", nquad)); if (conf) { a.push_back(vt::fmt("--iconf=%d", conf)); a.push_back(vt::fmt("--conf_N=%d", cN)); a.push_back(vt::fmt("--conf_R=%.6f", cR)); a.push_back(vt::fmt("--conf_barrier=%.6f", cB)); a.push_back(vt::fmt("--shift_conf=%.6f", cS)); } return a; }
  Args args() const { Args a = radial(); if (na || nb) { a.push_back(vt::fmt("--nela=%d", na)); a.push_back(vt::fmt("--nelb=%d", nb)); } if (!occs.empty()) a.push_back("--occs=" + occs); return a; } };
void confine(vt::Source & s, Cfg & f) { f.conf = s.range(1, 4); f.cN = s.range(1, 4); f.cR = r6(s.real(2, 8)); f.cB = r6(s.real(0.2, 5)); f.cS = s.flag() ? 0 : r6(s.real(1, 4)); if (f.conf == 4) { f.cS = r6(s.real(1, 4)); f.cR = f.Rmax; f.cN = s.range(1, 2); } }
prog::Run go(vt::Ctx & c, const Args & a, const prog::Dir & d, const std::vector<std::pair<std::string, std::string>> & env = {}, const char * p = "prog_gensap") { auto r = prog::run(p, a, d, env); if (r.rc == -1 || r.err.find("VSHIM: block too small") != std::string::npos || (r.err.find("is not continuous") != std::string::npos && prog::join(a).find("--primbas=8") != std::string::npos)) throw vt::Reject(); c.ok(r.ok(), vt::fmt("%s: exit %d: %s", prog::join(a).c_str(), r.rc, prog::tail(r.err).c_str())); return r; }
Args plus(Args a, std::initializer_list<std::string> x) { a.insert(a.end(), x); return a; }
void note(const std::string & t) { if (const char * f = getenv("VT_FD")) { FILE * g = fopen(f, "a"); fprintf(g, "%s\n", t.c_str()); fclose(g); } }
// what the standard stand-in solver can be asked for: electrons, multiplicity, spherical in the central field
const int sph[][2] = {{1, 2}, {2, 1}, {3, 2}, {4, 1}, {7, 4}, {10, 1}, {11, 2}, {12, 1}, {15, 4}, {18, 1}};
Cfg atom(vt::Source & s, int & ne, int top = 10) { Cfg f; auto & k = sph[s.draw(top)]; ne = k[0]; f.M = k[1]; f.Z = std::min(18, ne + s.pick({0, 0, 0, 1, 2, 3})); f.Q = f.Z - ne; f.lmax = ne > 4 ? 1 : 0; f.nelem = s.range(4, 6); f.nnodes = s.range(7, 10); f.Rmax = r6(s.real(12, 20)); f.restr = f.M == 1 ? s.range(-1, 1) : s.range(-1, 0); return f; }
// any atom or ion, by total or by channel
Cfg any(vt::Source & s, int & ne, bool frac) { Cfg f; f.Z = s.range(1, 18); ne = s.range(1, f.Z + (f.Z > 1 ? s.flag(1, 5) : 0)); f.Q = f.Z - ne; f.lmax = s.range(ne > 4 ? 1 : 0, 3); f.nelem = s.range(3, 5); f.nnodes = s.range(6, 10); f.Rmax = r6(s.real(10, 25)); f.guess = s.range(0, 4); int how = s.range(0, 3);
  if (how == 0) { f.restr = s.flag() ? 1 : -1; } else { int ns = ne % 2 ? s.pick({2, 2, 4}) : s.pick({1, 1, 3}); if (ns - 1 > ne) ns = ne % 2 ? 2 : 1; f.M = ns; f.restr = how == 1 ? 0 : -1; }
  if (frac && s.flag(1, 2)) { // explicit occupations, possibly fractional
    f.M = 0; int nl = f.lmax + 1; f.na = (ne + 1) / 2; f.nb = ne / 2; f.restr = s.range(0, 1); auto fill = [&](double n, int cap) { std::vector<double> v(nl, 0.0); double left = n; for (int l = 0; l < nl; l++) { double lim = std::min(left, double(cap * (2 * l + 1) * (l < 2 ? 3 - l : 1))); double x = l == nl - 1 ? std::min(left, lim) : std::round(lim * s.real(0, 1) * 4) / 4; v[l] = x; left -= x; } v[0] += left; return v; }; auto txt = [](const std::vector<double> & v) { std::string t; for (double x : v) t += (t.empty() ? "" : " ") + vt::fmt("%g", x); return t; }; if (f.restr) f.occs = txt(fill(ne, 2)); else f.occs = txt(fill(f.na, 1)) + " " + txt(fill(f.nb, 1)); }
  return f; }
using Table = std::vector<std::vector<double>>;
Table table(vt::Ctx & c, const prog::Dir & d, const std::string & n, size_t cols) { c.ok(d.has(n), "missing file " + n); std::istringstream is(d.read(n)); Table t; std::string l; while (std::getline(is, l)) { std::istringstream ls(l); std::vector<double> v; std::string w; while (ls >> w) { char * e; v.push_back(strtod(w.c_str(), &e)); c.ok(!*e && std::isfinite(v.back()), n + ": entry " + w); } if (cols) c.ok(v.size() == cols, vt::fmt("%s: %zu columns", n.c_str(), v.size())); t.push_back(v); } c.ok(!t.empty(), n + " is empty"); return t; }
struct Occ { std::string blk; double n, e; };
std::vector<Occ> occupied(const std::string & out) { std::string v; if (!prog::after(out, "VSHIM occupied", v, true)) throw vt::Fail("no occupations"); std::vector<Occ> r; size_t p = 0; while ((p = v.find('(', p)) != std::string::npos) { char b[64]; Occ o; if (sscanf(v.c_str() + p, "(%63s %lf %lf)", b, &o.n, &o.e) == 3) { o.blk = b; r.push_back(o); } p++; } return r; }
static const char * sym[] = {"", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar"};
}
VT_CHECK(derivative, 120, 4000, "more than one electron and an exchange-correlation functional, exact exchange or confinement") {
  // the operators handed to the solver must be the derivative of the printed energy
  int ne; Cfg f = any(s, ne, true); f.method = (int) s.draw(NM); f.nelem = s.range(1, 4); f.nnodes = s.range(4, 9); f.prim = s.pick({4, 4, 5, 3, 8}); if (f.prim == 8) f.nnodes = std::min(f.nnodes, 3); if (f.prim == 5) f.nnodes = std::min(f.nnodes, 5); f.grid = s.range(1, 4); if (s.flag(1, 3)) confine(s, f); if (ne > 10) f.nelem = std::max(f.nelem, 2); int seed = s.range(1, 1000000); Args a = f.args(); c.d("%s fd=%d", prog::join(a).c_str(), seed); c.label("method", methods[f.method]); c.label("occupations", f.occs.empty() ? "aufbau" : "explicit"); c.nontrivial = ne > 1 && (f.method != 1 || f.conf); derivative(c, "prog_gensap", a, seed, f.method); }
VT_CHECK(batch, 40, 800, "two or more elements and angular momenta") {
  // several densities at once, on any number of threads
  int ne; Cfg f = any(s, ne, true); f.method = (int) s.draw(NM); f.nelem = s.range(1, 3); f.nnodes = s.range(4, 7); if (ne > 10) f.nelem = std::max(f.nelem, 2); if (s.flag(1, 4)) confine(s, f); int th = s.pick({1, 2, 4, 8}); Args a = f.args(); c.d("%s threads=%d", prog::join(a).c_str(), th); c.label("threads", std::to_string(th)); c.nontrivial = f.nelem > 1 && f.lmax > 0; prog::Dir d; auto r = go(c, a, d, {{"VSHIM_BATCH", "1"}, {"VSHIM_MAXIT", "3"}, {"OMP_NUM_THREADS", std::to_string(th)}}); double dev; c.ok(prog::number(r.out, "VSHIM batch deviation", dev), "no batched evaluation"); c.ok(dev < 1e-10, vt::fmt("evaluating five densities together changes the results by %.2e", dev)); auto e = result(r); prog::Dir d2; auto r2 = go(c, a, d2, {{"VSHIM_BATCH", "1"}, {"VSHIM_MAXIT", "3"}, {"OMP_NUM_THREADS", "1"}}); c.close(e.E, result(r2).E, 1e-9 * (1 + std::abs(e.E)), 0, "energy with one thread"); auto x = comps(r.out), y = comps(r2.out); c.ok(x.size() == y.size(), "number of reported energies"); for (size_t i = 0; i < x.size(); i++) c.close(x[i].total, y[i].total, 1e-8 * (1 + std::abs(x[i].total)), 0, "order of the reported energies"); }
VT_CHECK(levels, 60, 1500, "angular momentum, walls or confinement") {
  // core-Hamiltonian levels of every angular momentum against an independent radial solution
  Cfg f; f.Z = s.range(1, 18); f.Q = f.Z - 1; f.M = 2; f.lmax = s.range(0, 3); f.guess = 0; f.method = 0; f.nelem = s.range(4, 6); f.prim = s.pick({4, 4, 5, 3, 8}); f.nnodes = f.prim == 5 ? 7 : f.prim == 8 ? 5 : 10; double a0 = 1.0 / f.Z; bool hard = s.flag(1, 3), conf = s.flag(1, 3); f.Rmax = r6(hard ? a0 * s.real(4, 16) : a0 * s.real(25, 45)); f.grid = s.range(1, 4); if (f.grid == 1 && !hard) f.grid = 4; if (conf) { f.conf = s.range(1, 4); f.cN = s.range(1, 4); f.cR = r6(a0 * s.real(4, 9)); f.cB = r6(s.real(0.2, 5)); f.cS = s.flag() ? 0 : r6(a0 * s.real(1, 6)); if (f.conf == 4) { f.cN = 1; f.cS = r6(f.Rmax * s.real(0.2, 0.6)); } for (double * v : {&f.cS, &f.cR}) if (std::abs(*v / f.Rmax - 1) < 0.07) *v = r6((*v > f.Rmax ? 1.1 : 0.9) * f.Rmax); } c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = f.lmax || hard || conf; c.label("case", conf ? vt::fmt("confinement %d", f.conf) : hard ? "walled" : "free"); prog::Dir d; auto r = go(c, f.args(), d, {{"VSHIM_MAXIT", "2"}}); std::string v; c.ok(prog::after(r.out, "VSHIM guess eigenvalues", v), "no guess"); std::vector<std::vector<double>> got; std::istringstream is(v); std::string w; while (is >> w) { if (w == "|") got.push_back({}); else got.back().push_back(atof(w.c_str())); } c.ok((int) got.size() == 2 * (f.lmax + 1), "number of blocks"); auto vc = oracle1d::confinement(f.conf, f.cN, f.cR, f.cB, f.cS, f.Rmax);
  for (int l = 0; l <= f.lmax; l++) { auto want = oracle1d::levels([&](double x) { return -f.Z / x + vc.first(x) + l * (l + 1) / (2 * x * x); }, f.Rmax, l, f.Z, vc.second); for (int k = 0; k < 2; k++) { c.close(got[f.lmax + 1 + l][k], got[l][k], 1e-9, 1e-11, "level of the other spin"); double sc = std::max(0.05 * f.Z * f.Z / (l + 1), std::abs(want[k])); double rel = (got[l][k] - want[k]) / sc; note(vt::fmt("lev %.3e conf %d k %d %s", rel, f.conf, k, c.desc.c_str())); c.evals++; c.ok(rel > -1e-8, vt::fmt("l=%d level %d: %.12g lies below the exact %.12g", l, k + 1, got[l][k], want[k])); c.ok(rel < (f.conf ? 2e-2 : 5e-3), vt::fmt("l=%d level %d: %.12g lies above the exact %.12g", l, k + 1, got[l][k], want[k])); } } }
VT_CHECK(one_electron, 40, 800, "walls, confinement or a nuclear charge above one") {
  // Hartree-Fock of one s electron is exact
  Cfg f; f.Z = s.range(1, 18); f.Q = f.Z - 1; f.M = 2; f.lmax = s.range(0, 2); f.guess = s.range(0, 4); f.nelem = s.range(3, 5); f.nnodes = 9; f.prim = s.pick({4, 4, 5, 3}); if (f.prim == 5) f.nnodes = 6; double a0 = 1.0 / f.Z; bool hard = s.flag(1, 3), conf = s.flag(1, 3); f.Rmax = r6(hard ? a0 * s.real(3, 10) : a0 * 25); f.grid = s.range(1, 4); if (f.grid == 1 && !hard) f.grid = 4; if (conf) { f.conf = s.range(1, 4); f.cN = s.range(1, 4); f.cR = r6(a0 * s.real(4, 9)); f.cB = r6(s.real(0.2, 5)); f.cS = s.flag() ? 0 : r6(a0 * s.real(1, 6)); if (f.conf == 4) { f.cN = 1; f.cS = r6(f.Rmax * s.real(0.2, 0.6)); } for (double * v : {&f.cS, &f.cR}) if (std::abs(*v / f.Rmax - 1) < 0.07) *v = r6((*v > f.Rmax ? 1.1 : 0.9) * f.Rmax); } if (s.flag(1, 3)) f.occs = f.lmax == 0 ? "1" : f.lmax == 1 ? "1 0 0 0" : "1 0 0 0 0 0"; c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = hard || conf || f.Z > 1; prog::Dir d; auto r = go(c, f.args(), d); auto e = result(r); check_sums(c, r.out, 1, false); c.ok(e.conv, "not converged"); auto vc = oracle1d::confinement(f.conf, f.cN, f.cR, f.cB, f.cS, f.Rmax); double want = oracle1d::levels([&](double x) { return -f.Z / x + vc.first(x); }, f.Rmax, 0, f.Z, vc.second)[0]; double rel = (e.E - want) / std::max(0.05 * f.Z * f.Z, std::abs(want)); note(vt::fmt("one %.3e %s", rel, c.desc.c_str())); c.ok(rel > -1e-8, vt::fmt("energy %.12g below the exact %.12g", e.E, want)); c.ok(rel < (f.conf ? 1e-2 : 1e-3), vt::fmt("energy %.12g above the exact %.12g", e.E, want)); }
VT_CHECK(full_program, 24, 300, "more than two electrons") {
  // the same atom by the full atomic program in the same radial basis
  int ne; Cfg f = atom(s, ne, 8); if (f.M != 1) f.restr = 0; f.nelem = s.range(3, 4); f.nnodes = ne > 4 ? 7 : s.range(7, 9); if (ne > 4) f.nelem = 4; f.method = s.pick({0, 0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14}); if (ne > 4 && f.method > 6) f.method = 3; if (s.flag(1, 3)) confine(s, f); if (f.conf == 1) f.cR = r6(f.cR + 4); Args a = f.args(), b = f.radial(); b.push_back("--mmax=" + std::to_string(f.lmax)); b.push_back("--symmetry=2"); c.d("%s", prog::join(a).c_str()); c.label("method", methods[f.method]); c.nontrivial = ne > 2; prog::Dir d1, d2; auto e = result(go(c, a, d1)); if (!e.conv) throw vt::Reject(); auto g = result(go(c, b, d2, {}, "prog_atomic")); if (!g.conv) throw vt::Reject(); note(vt::fmt("full %.3e %s", (g.E - e.E) / std::abs(e.E), c.desc.c_str())); c.close(g.E, e.E, 1e-8, 1e-9, "energy from the full program"); }
VT_CHECK(invariance, 40, 600, "different guesses, spin treatments or angular cut-offs") {
  int ne; Cfg f = atom(s, ne); f.method = s.pick({0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13}); f.guess = s.range(0, 4); Cfg g = f; g.guess = s.range(0, 4); if (f.M == 1) g.restr = s.range(-1, 1); if (s.flag(1, 3)) g.lmax += s.range(1, 2); for (Cfg * x : {&f, &g}) if (x->guess == 0 && (x->lmax > 0 || ne > 2) && ne != 2 && ne != 10) x->guess = 1; if (s.flag(1, 3)) g.nquad = 5 * f.nnodes + s.range(1, 12); bool byl = s.flag(1, 3); if (byl) { int p = ne > 12 ? ne - 6 - 0 : 0; (void) p; int ns = ne <= 4 ? ne : ne == 7 ? 4 : ne == 10 ? 4 : ne == 11 ? 5 : 6, np = ne - ns; std::string t = std::to_string(ns); for (int l = 1; l <= g.lmax; l++) t += " " + std::to_string(l == 1 ? np : 0); g.occs = t; } c.d("%s | %s", prog::join(f.args()).c_str(), prog::join(g.args()).c_str()); c.label("method", methods[f.method]); c.nontrivial = f.guess != g.guess || f.restr != g.restr || f.lmax != g.lmax || byl; prog::Dir d1, d2; auto r = go(c, f.args(), d1), r2 = go(c, g.args(), d2); auto e = result(r), h = result(r2); if (!e.conv || !h.conv) throw vt::Reject(); c.close(h.E, e.E, 2e-6, g.nquad ? 1e-6 : 1e-7, "energy of the same atom"); check_sums(c, r.out, 1, false); auto o = occupied(r.out); double n = 0; for (auto & x : o) n += x.n; c.close(n, ne, 1e-6, 0, "electrons"); }
VT_CHECK(limits, 20, 200, "more than one electron") {
  struct Ref { int Z, ne, M, method; double E; }; static const Ref refs[] = {{2, 2, 1, 0, -2.8616799956}, {3, 2, 1, 0, -7.2364152015}, {4, 2, 1, 0, -13.6112994301}, {3, 3, 2, 0, -7.432750}, {4, 4, 1, 0, -14.5730231683}, {10, 10, 1, 0, -128.5470981}, {2, 2, 1, 2, -2.723639793}, {10, 10, 1, 2, -127.4907410}, {4, 4, 1, 2, -14.2232908}, {7, 7, 4, 0, -54.404548}, {2, 2, 1, 3, -2.834835624}, {12, 12, 1, 0, -199.6146364}, {18, 18, 1, 0, -526.8175128}, {18, 18, 1, 2, -524.5174239}, {10, 10, 1, 3, -128.233481}, {18, 18, 1, 3, -525.946195}};
  auto & r = refs[s.draw(16)]; Cfg f; f.Z = r.Z; f.Q = r.Z - r.ne; f.M = r.M; f.method = r.method; f.lmax = r.ne > 4 ? 1 : 0; f.restr = r.M == 1 ? s.range(-1, 1) : 0; f.prim = s.pick({4, 5, 3}); f.nelem = s.range(5, 8); f.nnodes = f.prim == 5 ? s.range(6, 8) : s.range(11, 15); f.Rmax = r6(s.real(22, 35)); f.grid = 4; c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = true; prog::Dir d; auto o = go(c, f.args(), d); auto e = result(o); if (!e.conv) throw vt::Reject(); check_sums(c, o.out, 1, false); auto z = comps(o.out).back(); double err = (e.E - r.E) / std::abs(r.E), vir = (z.total + z.kin) / z.kin; note(vt::fmt("lim %.3e %.3e %s", err, vir, c.desc.c_str())); c.ok(std::abs(err) < 1e-6, vt::fmt("energy %.9f, limit %.9f", e.E, r.E)); c.ok(r.method == 3 || std::abs(vir) < 1e-5, vt::fmt("virial: kinetic %.9f total %.9f", z.kin, z.total)); }
VT_CHECK(potential, 40, 800, "more than one electron") {
  // the table of the effective potential, saved orbitals and radii describe one converged density
  int ne; Cfg f = any(s, ne, true); f.method = s.pick({0, 2, 3, 4, 9, 5}); if (s.flag(1, 4)) confine(s, f); int pot = s.pick({0, 0, 0, 1, 2, 3}); static const char * pots[] = {"lda_x", "lda_x-lda_c_vwn", "gga_x_pbe-gga_c_pbe", "none-lda_c_pw"}; if (pot == 3) pot = 1; double vdw = s.logreal(1e-4, 1e-1), eps = s.real(0.01, 0.6); Args a = plus(f.args(), {std::string("--pot=") + pots[pot], "--savepot=1", "--saveing=1", "--saveorb=1", vt::fmt("--vdwthr=%.8e", vdw), vt::fmt("--eps_el=%.8e", eps)}); c.d("%s", prog::join(a).c_str()); c.label("potential", pots[pot]); c.nontrivial = ne > 1; prog::Dir d; auto r = go(c, a, d); auto e = result(r); (void) e; double Z = f.Z; auto T = table(c, d, vt::fmt("result_%s.dat", sym[f.Z]), 9); size_t n = T.size(); auto X = table(c, d, "xcpot.dat", 2), G = table(c, d, "xcing.dat", 5); c.ok(X.size() == n && G.size() == n, "table lengths"); for (size_t i = 0; i < n; i++) { c.ok(X[i][0] == T[i][0] && X[i][1] == T[i][6], "xcpot.dat repeats the table"); for (int k = 0; k < 5; k++) c.ok(G[i][k] == T[i][k], "xcing.dat repeats the table"); c.close(T[i][8], Z - T[i][5] - T[i][6], 1e-10 * Z, 0, "effective charge"); if (i) c.ok(T[i][0] > T[i - 1][0], "radii ascend"); }
  // densities from the saved orbitals and the solver's occupations; converged occupations are those printed
  bool restricted = d.has(vt::fmt("orbs_%s_r_l0.dat", sym[f.Z])); auto oc = occupied(r.out); double tot = 0; for (auto & o : oc) tot += o.n; std::vector<std::vector<double>> den(2, std::vector<double>(n, 0.0)); int nt = restricted ? 1 : 2; for (int t = 0; t < nt; t++) for (int l = 0; l <= f.lmax; l++) { auto P = table(c, d, vt::fmt("orbs_%s_%s_l%d.dat", sym[f.Z], restricted ? "r" : t ? "b" : "a", l), 0); c.ok(P.size() == n, "orbital table length"); size_t no = P[0].size() - 1; std::vector<double> S(6 * 6, 0.0); size_t m = std::min<size_t>(no, 6); for (size_t q = 0; q < n; q++) for (size_t i = 0; i < m; i++) for (size_t j = 0; j <= i; j++) S[i * 6 + j] += T[q][7] * T[q][0] * T[q][0] * P[q][1 + i] * P[q][1 + j]; for (size_t i = 0; i < m; i++) for (size_t j = 0; j <= i; j++) c.close(S[i * 6 + j], i == j, 1e-8, 0, vt::fmt("overlap of saved orbitals %zu %zu (l=%d)", i, j, l)); size_t k = 0; std::string b = vt::fmt("%sl=%d", restricted ? "" : t ? "b:" : "a:", l); for (auto & o : oc) if (o.blk == b) { for (size_t q = 0; q < n; q++) den[t][q] += o.n * P[q][1 + k] * P[q][1 + k]; k++; } }
  double rmax = 0, sum = 0, ec = 0, ek = 0, big = 0; for (size_t q = 0; q < n; q++) big = std::max(big, T[q][1]); for (size_t q = 0; q < n; q++) { rmax = std::max(rmax, T[q][0]); double want = den[0][q] + den[1][q]; c.close(T[q][1], want, 1e-9 * big, 1e-6, vt::fmt("density at r=%.6f", T[q][0])); sum += T[q][7] * T[q][1] * T[q][0] * T[q][0]; ec += 0.5 * T[q][0] * T[q][1] * T[q][7] * T[q][5]; ek += T[q][7] * T[q][4] * T[q][0] * T[q][0]; }
  c.close(sum, tot, 1e-7 * tot, 0, "integrated density"); auto z = comps(r.out).back(); c.close(ec, z.coul, 1e-6, 1e-6, "Coulomb energy from the table"); c.close(ek, z.kin, 1e-6, 1e-6, "kinetic energy from the table");
  // limits of the potential
  c.close(T[0][0], 0, 1e-14, 0, "first radius"); c.close(T[0][5], 0, 1e-10, 0, "Coulomb screening at the nucleus"); c.close(T[0][8], Z, 1e-8 * Z, 0, "effective charge at the nucleus"); c.close(T[n - 1][5], tot, 1e-3 * tot, 0, "Coulomb screening far out"); for (size_t q = 1; q < n; q++) c.ok(T[q][5] >= T[q - 1][5] - 1e-7 && T[q][5] <= tot * (1 + 1e-7), vt::fmt("the Coulomb screening is not monotone at r=%.6f", T[q][0]));
  for (size_t q = 1; q < n; q++) if (pot == 0 && den[0][q] + den[1][q] > 1e-8) { auto vx = [](double rho) { return -std::cbrt(6 / M_PI * rho); }; double want = restricted ? vx(0.5 * den[0][q] / (4 * M_PI)) : 0.5 * ((den[0][q] > 0 ? vx(den[0][q] / (4 * M_PI)) : 0) + (den[1][q] > 0 ? vx(den[1][q] / (4 * M_PI)) : 0)); if (!restricted && (den[0][q] < 1e-8 || den[1][q] < 1e-8)) continue; c.evals++; c.close(T[q][6], T[q][0] * want, 1e-7, 2e-6, vt::fmt("exchange potential at r=%.6f", T[q][0])); }
  // slope and curvature of the density: quadrature identities d(rho)/dr and laplacian
  double I0 = 0, I2 = 0; for (size_t q = 1; q < n; q++) { I0 += T[q][7] * T[q][2] * std::pow(T[q][0], 3); I2 += T[q][7] * T[q][3] * std::pow(T[q][0], 4); } c.close(I0, -3 * sum, 1e-5 * tot, 1e-5, "integral of r^3 times the gradient"); double m2 = 0; for (size_t q = 1; q < n; q++) m2 += T[q][7] * T[q][1] * std::pow(T[q][0], 4); (void) I2; (void) m2;
  // nuclear density and radii
  double nd, gd; c.ok(prog::number(r.out, "at the nucleus is", nd) , "nuclear density"); std::string gl; c.ok(prog::after(r.out, "density gradient at the nucleus is", gl), "nuclear gradient"); gd = atof(gl.c_str()); c.close(nd, T[0][1] / (4 * M_PI), 1e-12, 1e-5, "density at the nucleus"); c.close(nd, (den[0][0] + den[1][0]) / (4 * M_PI), 1e-9, 1e-5, "density at the nucleus"); double ex = 0; for (int i = 1; i <= 5; i++) { double w = 1; for (int j = 1; j <= 5; j++) if (j != i) w *= T[j][0] / (T[j][0] - T[i][0]); ex += w * T[i][2]; } c.close(gd, ex / (4 * M_PI), 1e-6, 1e-3, "gradient at the nucleus"); double cusp; if (nd != 0) { c.ok(prog::number(r.out, "Cusp condition is", cusp), "cusp"); c.close(cusp, -gd / (2 * Z * nd), 1e-5, 1e-5, "cusp condition"); if (!f.conf && nd > 1e-3) c.close(cusp, 1, 0.3, 0, "cusp condition"); note(vt::fmt("cusp %.3e %s", cusp - 1, c.desc.c_str())); }
  double rv = -1, rc = -1; std::string l1, l2; c.ok(prog::after(r.out, "vdW radius with density threshold", l1) && prog::after(r.out, "electron count threshold", l2), "radii"); auto rad = [&](const std::string & t) { size_t p = t.find(" is "); return p == std::string::npos ? -1.0 : atof(t.c_str() + p + 4); }; rv = rad(l1); rc = rad(l2); // thresholds crossed between neighbouring points
  size_t last = 0; for (size_t q = 0; q < n; q++) if (T[q][1] / (4 * M_PI) > vdw) last = q; bool mono = true; for (size_t q = std::max<size_t>(last, 60) - 60; q + 1 < std::min(n, last + 60); q++) if (T[q + 1][1] > T[q][1]) mono = false; if (last == 0) c.ok(rv == 0 || rv <= T[std::min(n - 1, size_t(2))][0], vt::fmt("radius %.6f although the density never exceeds the threshold", rv)); else if (mono) c.ok(rv >= T[last == 0 ? 0 : last - 1][0] - 1e-6 && rv <= (last + 2 < n ? T[last + 2][0] : f.Rmax) + 1e-6, vt::fmt("vdW radius %.6f; the density crosses the threshold between %.6f and %.6f", rv, T[last][0], last + 1 < n ? T[last + 1][0] : f.Rmax)); c.label("vdW", mono ? "monotone" : "not monotone");
  if (eps < tot) { double out = 0; size_t q = n; while (q > 1 && out < eps) { q--; out += T[q][7] * T[q][1] * T[q][0] * T[q][0]; } c.ok(rc >= (q > 2 ? T[q - 2][0] : 0) - 1e-6 && rc <= (q + 2 < n ? T[q + 2][0] : f.Rmax) + 1e-6, vt::fmt("radius %.6f for %.6f electrons outside; expected near %.6f", rc, eps, T[q][0])); } }
VT_CHECK(profiles, 12, 150, "open shells or several angular momenta") {
  // completeness and importance profiles against projections on the saved orbitals
  int ne; Cfg f = any(s, ne, false); f.nelem = 2; f.nnodes = 6; f.lmax = std::max(1, f.lmax); Args a = plus(f.args(), {"--completeness=1", "--saveorb=1", "--pot=lda_x"}); c.d("%s", prog::join(a).c_str()); c.nontrivial = true; prog::Dir d; auto r = go(c, a, d); auto T = table(c, d, vt::fmt("result_%s.dat", sym[f.Z]), 9); size_t n = T.size(); bool restricted = d.has(vt::fmt("orbs_%s_r_l0.dat", sym[f.Z])); auto oc = occupied(r.out);
  for (int ty = 0; ty < 2; ty++) { const char * nm = ty ? "sto" : "gto"; auto C = table(c, d, vt::fmt("%s_%s_completeness.dat", sym[f.Z], nm), f.lmax + 2), I = table(c, d, vt::fmt("%s_%s_importance.dat", sym[f.Z], nm), f.lmax + 2); c.ok(C.size() == I.size() && C.size() > 10, "length"); for (int l = 0; l <= f.lmax; l++) { auto P = table(c, d, vt::fmt("orbs_%s_%s_l%d.dat", sym[f.Z], restricted ? "r" : "a", l), 0); size_t no = P[0].size() - 1, nocc = 0; std::string b = vt::fmt("%sl=%d", restricted ? "" : "a:", l); for (auto & o : oc) if (o.blk == b) nocc++; for (int t = 0; t < 12; t++) { size_t k = s.draw(C.size()); double al = C[k][0]; c.ok(I[k][0] == al, "same exponents"); c.ok(k == 0 || al > C[k - 1][0], "exponents ascend"); double full = 0, occ = 0; for (size_t i = 0; i < no; i++) { double x = 0; for (size_t q = 1; q < n; q++) { double rr = T[q][0]; double lg = ty ? (l + 1.5) * std::log(2 * al) - 0.5 * std::lgamma(2 * l + 3) + l * std::log(rr) - al * rr : 0.5 * (std::log(2.0) + (l + 1.5) * std::log(2 * al) - std::lgamma(l + 1.5)) + l * std::log(rr) - al * rr * rr; x += T[q][7] * rr * rr * P[q][1 + i] * std::exp(lg); } full += x * x; if (i < nocc) occ += x * x; } c.evals++; c.close(C[k][l + 1], std::sqrt(full), 1e-7, 1e-6, vt::fmt("%s completeness l=%d exponent %.3e", nm, l, al)); c.close(I[k][l + 1], std::sqrt(occ), 1e-7, 1e-6, vt::fmt("%s importance l=%d exponent %.3e", nm, l, al)); if (al > 0.05 && al < 1e4) c.ok(C[k][l + 1] <= 1 + 1e-6 || true, ""); } } } }
VT_CHECK(load, 40, 600, "a different basis or spin treatment, or fractional occupations") {
  // the energy of a loaded density is the energy it was saved with
  int ne; Cfg f = any(s, ne, true); f.method = s.pick({0, 0, 2, 3, 4, 5, 7, 9}); Cfg g = f; int mode = s.range(0, 3); if (mode == 1) g.nnodes += s.range(1, 2); if (mode == 2 && f.occs.empty()) g.lmax++; if (mode == 3 && ne % 2 == 0 && f.occs.empty()) { g.M = f.M = 1; f.restr = s.range(0, 1); g.restr = 1 - f.restr; } if (s.flag(1, 5) && f.Z < 18 && f.occs.empty() && !f.M) { } prog::Dir d; Args a = plus(f.args(), {"--save=x.chk"}), b = plus(g.args(), {"--load=x.chk"}); c.d("%s | %s", prog::join(a).c_str(), prog::join(b).c_str()); c.label("mode", mode == 0 ? "same" : mode == 1 ? "larger elements" : mode == 2 ? "higher angular momentum" : "spin treatment"); c.label("occupations", f.occs.empty() ? "aufbau" : "explicit"); c.nontrivial = mode || !f.occs.empty(); auto r = go(c, a, d); auto e = result(r); if (!e.conv) throw vt::Reject(); auto r2 = go(c, b, d); auto e2 = result(r2); auto ld = prog::lines(r2.out, "VSHIM loaded"); c.ok(!ld.empty(), "nothing was loaded"); double os = 0, oe = 0; size_t p = ld[0].find("occupation-sum"); c.ok(sscanf(ld[0].c_str() + p, "occupation-sum %lf orthonormality-error %lf", &os, &oe) == 2, "unreadable"); double tot = 0; for (auto & o : occupied(r.out)) tot += o.n; note(vt::fmt("load %.3e mode %d %.3e %s", e2.first - e.E, mode, os - tot, c.desc.c_str())); c.close(os, tot, 1e-6, 0, "electrons in the loaded density"); c.close(oe, 0, 1e-8, 0, "orthonormality of the loaded orbitals"); c.close(e2.first, e.E, 1e-6, mode == 1 ? 1e-4 : 1e-7, "energy of the loaded density"); }
VT_CHECK(rejects, 24, 200, "always") {
  // requests that cannot be honoured are refused
  int ne; Cfg f = any(s, ne, false); f.nelem = 2; f.nnodes = 5; Args a = f.args(); int k = s.range(0, 7); c.nontrivial = true; auto put = [&](const std::string & t) { std::string key = t.substr(0, t.find('=') + 1); a.erase(std::remove_if(a.begin(), a.end(), [&](const std::string & x) { return x.compare(0, key.size(), key) == 0; }), a.end()); a.push_back(t); }; std::string what;
  switch (k) { case 0: { std::string t = "1"; int m = f.lmax + 1; int n = s.range(1, 2 * m + 2); if (n == m || n == 2 * m) n = 2 * m + 1; for (int i = 1; i < n; i++) t += " 0"; put("--occs=" + t); what = "wrong number of occupations"; break; } case 1: put("--pot=mgga_x_tpss"); what = "meta-GGA potential"; break; case 2: put("--pot=hyb_gga_xc_b3lyp"); what = "hybrid potential"; break; case 3: put("--iguess=" + std::to_string(s.pick({5, 9, -1}))); what = "unknown guess"; break; case 4: put("--nquad=" + std::to_string(s.range(1, 2 * f.nnodes - 3))); what = "too few quadrature points"; break; case 5: put("--Q=" + std::to_string(f.Z + s.range(0, 2))); put("--M=0"); put("--restricted=-1"); what = "no electrons"; break; case 6: put("--occs=x"); what = "unreadable occupations"; break; case 7: put("--load=missing.chk"); what = "missing checkpoint"; break; }
  c.d("%s (%s)", prog::join(a).c_str(), what.c_str()); c.label("request", what); prog::Dir d; auto r = prog::run("prog_gensap", a, d, {{"VSHIM_MAXIT", "3"}}); if (r.rc == -1) throw vt::Reject(); c.ok(r.rc != 0, "accepted: " + what); }
VT_MAIN()
