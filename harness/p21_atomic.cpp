// P21: the atomic program as a whole.
#include "runs.h"
#include "oracle1d.h"
using namespace runs;
namespace {
struct Cfg { int Z, Q = 0, M = 0, lmax, mmax, nelem, nnodes, prim = 4, grid = 4, finite = 0, sym = 1, restr = -1, guess = 2, conf = 0, cN = 0, Zl = 0, Zr = 0, nelem0 = 0, zd = 0, ldft = 0, method = 0; double Rmax = 20, zexp = 2, rms = 0, Ez = 0, Qzz = 0, Bz = 0, cR = 0, cB = 0, cS = 0, Rmid = 0;
  Args args() const { Args a = {"--Z=" + std::to_string(Z), "--Q=" + std::to_string(Q), "--lmax=" + std::to_string(lmax), "--mmax=" + std::to_string(mmax), "--nelem=" + std::to_string(nelem), "--nnodes=" + std::to_string(nnodes), vt::fmt("--Rmax=%.6f", Rmax), "--method=" + std::string(methods[method]), "--symmetry=" + std::to_string(sym)}; auto opt = [&](bool y, const std::string & t) { if (y) a.push_back(t); }; opt(M, "--M=" + std::to_string(M)); opt(prim != 4, "--primbas=" + std::to_string(prim)); opt(grid != 4, "--grid=" + std::to_string(grid)); opt(zexp != 2, vt::fmt("--zexp=%.4f", zexp)); opt(finite, vt::fmt("--finitenuc=%d", finite)); opt(finite, vt::fmt("--Rrms=%.6f", rms)); opt(restr != -1, vt::fmt("--restricted=%d", restr)); opt(guess != 2, vt::fmt("--iguess=%d", guess)); opt(Ez, vt::fmt("--Ez=%.6f", Ez)); opt(Qzz, vt::fmt("--Qzz=%.6f", Qzz)); opt(Bz, vt::fmt("--Bz=%.6f", Bz)); if (conf) { a.push_back(vt::fmt("--iconf=%d", conf)); a.push_back(vt::fmt("--conf_N=%d", cN)); a.push_back(vt::fmt("--conf_R=%.6f", cR)); a.push_back(vt::fmt("--conf_barrier=%.6f", cB)); a.push_back(vt::fmt("--shift_conf=%.6f", cS)); } if (Zl || Zr) { a.push_back(vt::fmt("--Zl=%d", Zl)); a.push_back(vt::fmt("--Zr=%d", Zr)); a.push_back(vt::fmt("--Rmid=%.6f", Rmid)); a.push_back(vt::fmt("--nelem0=%d", nelem0)); } opt(zd, "--zeroder=1"); opt(ldft, vt::fmt("--ldft=%d", ldft)); return a; } };
void confine(vt::Source & s, Cfg & f) { f.conf = s.range(1, 4); f.cN = s.range(1, 4); f.cR = s.real(2, 8); f.cB = s.real(0.2, 5); f.cS = s.flag() ? 0 : s.real(1, 4); if (f.conf == 4) { f.cS = s.real(1, 4); f.cR = f.Rmax; f.cN = s.range(1, 2); } }
prog::Run go(vt::Ctx & c, const Args & a, const prog::Dir & d, const std::vector<std::pair<std::string, std::string>> & env = {}) { auto r = prog::run("prog_atomic", a, d, env); if (r.rc == -1) throw vt::Reject(); c.ok(r.ok(), vt::fmt("%s: exit %d: %s", prog::join(a).c_str(), r.rc, prog::tail(r.err).c_str())); return r; }
// atoms with a spherical ground state in the central-field picture: electrons, multiplicity
const int sph[][2] = {{1, 2}, {2, 1}, {2, 1}, {3, 2}, {4, 1}, {4, 1}, {7, 4}, {10, 1}, {10, 1}, {11, 2}, {12, 1}};
Cfg atom(vt::Source & s, int & ne, bool small = false) { Cfg f; auto & k = sph[s.draw(small ? 6 : 11)]; ne = k[0]; f.M = k[1]; f.Z = std::max(1, ne + s.pick({0, 0, 1, 2, 3})); f.Q = f.Z - ne; f.lmax = f.mmax = ne > 4 ? 1 : 0; f.nelem = 4; f.nnodes = ne > 4 ? 6 : 8; f.Rmax = r6(s.real(12, 18)); f.restr = f.M == 1 ? s.range(-1, 1) : 0; return f; }
double energy(vt::Ctx & c, const Args & a, const char * what, bool * conv = nullptr) { prog::Dir d; auto r = go(c, a, d); auto e = result(r); if (conv) *conv = e.conv; else if (!e.conv) throw vt::Reject(); (void) what; return e.E; }
Args plus(Args a, std::initializer_list<std::string> x) { a.insert(a.end(), x); return a; }
}
VT_CHECK(derivative, 90, 2500, "more than one electron and an exchange-correlation functional, exact exchange or a field") {
  // random input; the operators handed to the solver must be the derivative of the printed energy
  Cfg f; f.Z = s.range(1, 12); f.lmax = s.range(0, 2); f.mmax = s.range(0, f.lmax); f.nelem = s.range(1, 3); f.nnodes = s.range(4, 8); f.Rmax = s.real(6, 25); f.sym = s.range(0, 2); f.method = (int) s.draw(NM); f.prim = s.pick({4, 4, 5, 3, 8}); if (f.prim == 8) f.nnodes = std::min(f.nnodes, 3); if (f.prim == 5) f.nnodes = std::min(f.nnodes, 4); if (f.lmax == 2) { f.nelem = std::min(f.nelem, 2); f.nnodes = std::min(f.nnodes, f.mmax == 2 ? 5 : 6); } f.grid = s.range(1, 4); f.guess = s.range(0, 4); f.zd = s.flag(1, 4);
  int ne = s.range(1, std::min(f.Z + 1, 10)); f.Q = f.Z - ne; f.M = ne % 2 ? s.pick({2, 4}) : s.pick({1, 3}); if (f.M == 4 && ne < 3) f.M = 2; if (f.M == 3 && ne < 2) f.M = 1; f.restr = f.M == 1 && s.flag() ? 1 : 0; if (f.M == 1 && s.flag(1, 6)) f.restr = -1;
  if (s.flag(1, 4)) { f.finite = s.range(1, 3); f.rms = s.logreal(1e-3, 0.2); } if (s.flag(1, 4)) f.Ez = s.sym(0.1); if (s.flag(1, 4)) f.Qzz = s.sym(0.02); if (s.flag(1, 4)) f.Bz = s.sym(0.5); if (s.flag(1, 3)) confine(s, f); if (!f.finite && s.flag(1, 4)) { f.Zl = s.range(0, 3); f.Zr = s.range(0, 3); f.Rmid = s.real(0.8, 3); f.nelem0 = s.range(1, 2); }
  Args a = f.args(); int seed = s.range(1, 1000000); c.d("%s fd=%d", prog::join(a).c_str(), seed); c.label("method", methods[f.method]); c.nontrivial = ne > 1 && (f.method != 1 || f.Ez || f.Qzz || f.Bz || f.conf); derivative(c, "prog_atomic", a, seed, f.method);
}
VT_CHECK(one_electron, 40, 800, "a confined, finite or excited case") {
  // HF of one electron is exact within the basis: independent radial solution
  Cfg f; f.Z = s.range(1, 12); f.Q = f.Z - 1; f.M = 2; int l = s.pick({0, 0, 1, 1, 2}), m = s.range(-l, l); f.lmax = l; f.mmax = std::abs(m); f.sym = 2; f.nnodes = 9; f.nelem = 4; f.prim = s.pick({4, 4, 5, 3, 8}); if (f.prim == 5) f.nnodes = 6; if (f.prim == 8) f.nnodes = 4; f.guess = s.range(0, 4); double a0 = (l + 1.0) / f.Z; bool hard = s.flag(1, 3); bool conf = s.flag(1, 3); f.Rmax = r6(hard ? a0 * s.real(4, 10) * (l + 1) : conf ? a0 * (12 + 4 * l) : a0 * (22 + 4 * l)); f.grid = s.range(1, 4); if (f.grid == 1 && !hard) f.grid = 4; if (s.flag(1, 3)) { f.finite = s.range(1, 3); f.rms = r6(a0 * s.logreal(0.02, 0.5)); } if (conf) { f.conf = s.range(1, 4); f.cN = s.range(1, 4); f.cR = r6(a0 * s.real(4, 9)); f.cB = r6(s.real(0.2, 5)); f.cS = s.flag() ? 0 : r6(a0 * s.real(1, 3) * (l + 1)); if (f.conf == 4) { f.cN = 1; f.cS = r6(f.Rmax * s.real(0.2, 0.6)); } }
  Args a = f.args(); a.push_back("--readocc=1"); prog::Dir dir; dir.write("occs.dat", vt::fmt("1 0 %d %d\n", l, m)); c.d("%s l=%d m=%d", prog::join(a).c_str(), l, m); c.nontrivial = l || hard || f.finite || f.conf; c.label("case", f.finite ? "finite" : f.conf ? "confined" : hard ? "walled" : "free"); auto r = go(c, a, dir); auto e = result(r); check_sums(c, r.out, 1, false); /* an excited state is self-consistent too: a screened guess may end there */ auto again = [&](double rel) { if (rel < 0.05 || !f.guess) return false; Cfg z = f; z.guess = 0; Args b = z.args(); b.push_back("--readocc=1"); e = result(go(c, b, dir)); return true; }; auto vn = oracle1d::nucleus(f.finite, f.Z, f.rms); auto vc = oracle1d::confinement(f.conf, f.cN, f.cR, f.cB, f.cS, f.Rmax); std::vector<double> brk = vn.second; for (double x : vc.second) brk.push_back(x); double want = oracle1d::levels([&](double x) { return vn.first(x) + vc.first(x) + l * (l + 1) / (2 * x * x); }, f.Rmax, l, f.Z, brk)[0]; auto relf = [&] { return (e.E - want) / std::max(0.05 / (l + 1) * f.Z * f.Z, std::abs(want)); }; double rel = relf(); if (again(rel)) rel = relf();
  c.ok(e.conv, "not converged"); if (!f.finite && !f.conf && !hard) c.close(want, -0.5 * f.Z * f.Z / ((l + 1.0) * (l + 1)), 0, 1e-8, "oracle"); c.ok(e.E >= want - 1e-8 * (1 + std::abs(want)), vt::fmt("energy %.12g lies below the exact level %.12g", e.E, want)); if (getenv("VT_FD")) { FILE * g = fopen(getenv("VT_FD"), "a"); fprintf(g, "one %.3e %s\n", rel, c.desc.c_str()); fclose(g); } c.ok(rel < (f.conf ? 1e-2 : f.finite ? 2e-3 : f.prim == 5 || f.prim == 8 ? 1e-5 : 1e-3), vt::fmt("energy %.12g lies above the exact level %.12g", e.E, want));
}
VT_CHECK(invariance, 30, 400, "two different symmetry modes, guesses or spin treatments") {
  // symmetry blocks, guess, spin treatment, angular functions and quadrature are not physics
  int ne; Cfg f = atom(s, ne); f.method = s.pick({0, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13}); f.sym = s.range(0, 2); f.guess = s.range(0, 4); Cfg g = f; g.sym = s.range(0, 2); g.guess = s.range(0, 4); if (f.M == 1) g.restr = s.range(-1, 1); if (s.flag(1, 4) && ne <= 4) { g.lmax++; g.mmax += s.range(0, 1); } /* the core guess leaves 2s and 2p degenerate */ for (Cfg * x : {&f, &g}) if (x->guess == 0 && x->lmax > 0 && ne != 2 && ne != 10) x->guess = 1; bool q = s.flag(1, 4); if (q) g.ldft = 4 * f.lmax + 22; c.d("%s | %s", prog::join(f.args()).c_str(), prog::join(g.args()).c_str()); c.nontrivial = f.sym != g.sym || f.guess != g.guess || f.restr != g.restr; c.label("method", methods[f.method]); double E = energy(c, f.args(), "first"), G = energy(c, g.args(), "second"); c.close(G, E, 2e-6, 2e-7, "energy of the same atom"); }
VT_CHECK(limits, 24, 300, "more than one electron") {
  // complete-basis limits, bounds and the virial theorem of spherical atoms
  struct Ref { int Z, ne, M, method; double E; }; static const Ref refs[] = {{2, 2, 1, 0, -2.8616799956}, {3, 2, 1, 0, -7.2364152015}, {4, 2, 1, 0, -13.6112994301}, {3, 3, 2, 0, -7.432750}, {4, 4, 1, 0, -14.5730231683}, {10, 10, 1, 0, -128.5470981}, {2, 2, 1, 2, -2.723639793}, {10, 10, 1, 2, -127.4907410}, {4, 4, 1, 2, -14.2232908}, {1, 1, 2, 0, -0.5}, {7, 7, 4, 0, -54.404548}, {2, 2, 1, 3, -2.834835624}};
  auto & r = refs[s.draw(12)]; Cfg f; f.Z = r.Z; f.Q = r.Z - r.ne; f.M = r.M; f.method = r.method; f.lmax = f.mmax = r.ne > 4 ? 1 : 0; f.restr = r.M == 1 ? s.range(-1, 1) : 0; f.prim = s.pick({4, 5, 3}); f.nelem = s.range(3, 5); f.nnodes = f.prim == 5 ? s.range(4, 6) : s.range(7, 10); if (r.ne > 4) { f.nelem = 4; f.nnodes = std::min(f.nnodes, f.prim == 5 ? 5 : 8); } f.Rmax = r6(s.real(15, 25) / (r.Z > 4 ? 1.5 : 1)); f.grid = r.ne > 4 ? 4 : s.pick({4, 4, 3, 2}); f.sym = s.range(1, 2); c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = r.ne > 1; prog::Dir dir; auto o = go(c, f.args(), dir); auto e = result(o); if (!e.conv) throw vt::Reject(); check_sums(c, o.out, 1e-4 * r.ne, true); auto z = comps(o.out).back(); double err = (e.E - r.E) / std::abs(r.E), vir = (z.total + z.kin) / z.kin; if (getenv("VT_FD")) { FILE * g = fopen(getenv("VT_FD"), "a"); fprintf(g, "lim %.3e %.3e %s\n", err, vir, c.desc.c_str()); fclose(g); }
  c.ok(err > -3e-7, vt::fmt("energy %.9f below the basis-set limit %.9f", e.E, r.E)); c.ok(err < 2e-2, vt::fmt("energy %.9f far from the limit %.9f", e.E, r.E)); c.ok(r.method == 3 || std::abs(vir) < 0.01 + 20 * std::abs(err), vt::fmt("virial: kinetic %.9f total %.9f", z.kin, z.total));
  Cfg g = f; g.nnodes++; if (s.flag() && r.ne <= 4) { g.lmax++; if (s.flag()) g.mmax++; } double E2 = energy(c, g.args(), "larger basis"); if (f.prim != 5 || true) c.ok(E2 <= e.E + 1e-6 + (r.method ? 1e-5 * std::abs(e.E) : 0), vt::fmt("the larger basis %s gives a higher energy %.9f than %.9f", prog::join(g.args()).c_str(), E2, e.E)); }
VT_CHECK(stark, 10, 120, "always") {
  // polarisation of a hydrogen-like ion; reversal of the field
  Cfg f; f.Z = s.range(1, 4); f.Q = f.Z - 1; f.M = 2; f.lmax = 3; f.mmax = 0; f.nelem = 4; f.nnodes = 8; f.Rmax = r6(22.0 / f.Z); f.sym = s.range(0, 2); double F = s.real(2e-3, 8e-3); f.Ez = r6(F * f.Z * f.Z * f.Z * (s.flag() ? 1 : -1)); F = f.Ez / (f.Z * f.Z * f.Z); f.guess = s.range(0, 4); c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = true; bool cv; double E = energy(c, f.args(), "field", &cv); c.ok(cv, "not converged"); double want = -0.5 - 2.25 * F * F - 3555.0 / 64 * std::pow(F, 4) - 2512779.0 / 512 * std::pow(F, 6); c.close(E / (f.Z * f.Z), want, 2e-6, 0, "energy in the field"); Cfg g = f; g.Ez = -f.Ez; c.close(energy(c, g.args(), "reversed"), E, 1e-8 * f.Z * f.Z, 0, "energy in the reversed field"); }
VT_CHECK(first_order, 16, 200, "always") {
  // quadrupole and magnetic fields on a one-electron state of given m
  Cfg f; f.Z = s.range(1, 4); f.Q = f.Z - 1; f.M = 2; int l = s.pick({1, 1, 1, 2}), m = s.flag() ? l : -l; f.lmax = f.mmax = l; f.sym = s.range(1, 2); f.nelem = 4; f.nnodes = l == 2 ? 6 : 8; f.Rmax = r6(26.0 * (l + 1) / f.Z); bool mag = s.flag(); double n = l + 1, r2 = n * n * (5 * n * n + 1 - 3 * l * (l + 1)) / 2 / (f.Z * f.Z), p2 = (l * (l + 1.0) - 3.0 * m * m) / ((2.0 * l - 1) * (2 * l + 3)); double Z2 = f.Z * f.Z;
  // exact first order; the rest is bounded by the second-order scale
  double first, tol; if (mag) { f.Bz = r6(s.sym(2e-3) * Z2); if (!f.Bz) throw vt::Reject(); double sin2 = 2.0 / 3 * (1 - p2); first = -0.5 * f.Bz * (m + 1) + f.Bz * f.Bz / 8 * r2 * sin2; tol = 50 * std::pow(f.Bz * f.Bz / 8 * r2, 2) * n * n / Z2 + 1e-8 * Z2; } else { f.Qzz = std::round(s.sym(2e-5) * Z2 * Z2 * 1e7) / 1e7; if (!f.Qzz) throw vt::Reject(); first = 0; tol = 0; }
  Args a = f.args(); for (auto & x : a) if (x.rfind("--Qzz=", 0) == 0) x = vt::fmt("--Qzz=%.10f", f.Qzz); a.push_back("--readocc=1"); prog::Dir dir; int sym_eff = f.sym == 2 ? 1 : f.sym; dir.write("occs.dat", sym_eff == 1 ? vt::fmt("1 0 %d\n", m) : vt::fmt("1 0 %d %d\n", l, m));
  c.d("%s m=%d", prog::join(a).c_str(), m); c.label("field", mag ? "magnetic" : "quadrupole"); c.nontrivial = true; auto r = go(c, a, dir); auto e = result(r); c.ok(e.conv, "not converged"); Cfg z = f; z.Bz = z.Qzz = 0; z.sym = 1; Args az = z.args(); az.push_back("--readocc=1"); prog::Dir d2; d2.write("occs.dat", vt::fmt("1 0 %d\n", m)); auto rz = go(c, az, d2); auto e0 = result(rz); c.close(e0.E, -0.5 * Z2 / (n * n), 2e-3 * Z2, 0, "field-free level"); if (!mag) { first = 1.0 * f.Qzz / 3 * r2 * p2; tol = 20 * std::pow(f.Qzz * r2, 2) * n * n / Z2 + 1e-8 * Z2; } if (getenv("VT_FD")) { FILE * g = fopen(getenv("VT_FD"), "a"); fprintf(g, "ord %.3e %.3e %.3e %s\n", e.E - e0.E, first, tol, c.desc.c_str()); fclose(g); } c.close(e.E - e0.E, first, tol, l == 2 ? 5e-3 : 2e-4, "energy shift");
  if (mag) { Args b = a; for (auto & x : b) if (x.rfind("--Bz=", 0) == 0) x = vt::fmt("--Bz=%.6f", -f.Bz); dir.write("occs.dat", sym_eff == 1 ? vt::fmt("1 0 %d\n", -m) : vt::fmt("1 0 %d %d\n", l, -m)); auto r2 = go(c, b, dir); c.close(result(r2).E - 0.5 * f.Bz, e.E + 0.5 * f.Bz, 1e-8 * Z2, 0, "reversed field and angular momentum"); } }
VT_CHECK(reflection, 24, 300, "an external charge or an odd field") {
  // turning the system upside down, or reversing field and currents
  int ne; Cfg f = atom(s, ne, true); f.method = s.pick({0, 0, 2, 4, 5}); f.lmax = s.range(1, 2); f.mmax = 0; f.nelem = 2; f.nnodes = f.lmax == 2 ? 5 : 6; f.sym = s.range(0, 1); bool ch = s.flag(); if (ch) { f.Zl = s.range(0, 3); f.Zr = s.range(0, 3); f.Rmid = r6(s.real(1.0, 4)); f.nelem0 = 1; } f.Ez = r6(s.sym(0.05)); if (s.flag()) f.Qzz = r6(s.sym(0.005)); if (ne % 2 == 0 && s.flag(1, 3)) f.Bz = r6(s.sym(0.2)); Cfg g = f; std::swap(g.Zl, g.Zr); g.Ez = -f.Ez; g.Bz = -f.Bz; c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = f.Ez || f.Zl != f.Zr; prog::Dir d1, d2; auto r1 = go(c, f.args(), d1), r2 = go(c, g.args(), d2); auto a = result(r1), b = result(r2); c.close(b.first, a.first, 1e-7, 1e-8, "first energy of the reflected system"); if (!a.conv || !b.conv) throw vt::Reject(); c.close(b.E, a.E, 2e-7, 1e-8, "energy of the reflected system"); }
VT_CHECK(load, 24, 300, "a different symmetry mode or basis") {
  // the energy of loaded orbitals is the energy they were saved with
  int ne; Cfg f = atom(s, ne); f.nelem = 2; f.nnodes = 6; f.method = s.pick({0, 0, 2, 3, 4, 5, 7, 9}); f.sym = s.range(0, 2); bool field = s.flag(1, 3); if (field) { f.Ez = r6(s.sym(0.03)); f.lmax = std::max(f.lmax, 1); } Cfg g = f; g.sym = s.range(0, 2); int mode = s.range(0, 2); if (mode == 1) { g.nnodes += s.range(1, 2); } if (mode == 2) { g.lmax++; } if (f.M == 1 && s.flag()) g.restr = s.range(-1, 1); prog::Dir dir; Args a = plus(f.args(), {"--save=x.chk"}), b = plus(g.args(), {"--load=x.chk", "--save=y.chk"}); c.d("%s | %s", prog::join(a).c_str(), prog::join(b).c_str()); c.nontrivial = f.sym != g.sym || mode; c.label("basis", mode == 0 ? "same" : mode == 1 ? "larger elements" : "more angular functions"); auto r = go(c, a, dir); auto e = result(r); if (!e.conv) throw vt::Reject(); auto r2 = go(c, b, dir); auto e2 = result(r2); auto ld = prog::lines(r2.out, "VSHIM loaded"); c.ok(!ld.empty(), "nothing was loaded"); double os = 0, oe = 0; size_t p = ld[0].find("occupation-sum"); if (p != std::string::npos) sscanf(ld[0].c_str() + p, "occupation-sum %lf orthonormality-error %lf", &os, &oe); if (getenv("VT_FD")) { FILE * h = fopen(getenv("VT_FD"), "a"); fprintf(h, "load %.3e %d %s | %s\n", e2.first - e.E, mode, c.desc.c_str(), ld[0].c_str()); fclose(h); }
  c.close(e2.first, e.E, mode == 1 && f.method ? 2e-3 * std::abs(e.E) : 3e-7, 1e-8, "energy of the loaded orbitals"); c.ok(e2.conv, "not converged from loaded orbitals"); if (mode == 0) c.close(e2.E, e.E, 1e-6, 1e-7, "final energy after loading"); else if (f.method == 0) c.ok(e2.E <= e.E + 1e-6, vt::fmt("the larger basis ends at %.9f above %.9f", e2.E, e.E)); c.ok(dir.has("y.chk"), "no checkpoint was written"); }
VT_MAIN()
