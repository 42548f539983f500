// P22: the diatomic program as a whole.
#include "runs.h"
#include "twocenter.h"
using namespace runs;
namespace {
const int usable[] = {0, 1, 2, 3, 4, 5, 6, 9, 12, 13, 14}; // no range separation in this program
struct Cfg { int Z1, Z2, Q = 0, M = 1, lmax = 4, mmax = 0, nelem = 2, nnodes = 6, prim = 4, grid = 4, finite = 0, sym = 1, restr = -1, guess = 2, method = 0, purem = -1, ldft = 0, angstrom = 0; double R = 2, Rmax = 15, zexp = 1, rms1 = 0, rms2 = 0, Ez = 0, Qzz = 0, Bz = 0; std::string lm;
  double mumax() const { return std::acosh(Rmax / (R / 2)); }
  Args args() const { Args a = {"--Z1=" + std::to_string(Z1), "--Z2=" + std::to_string(Z2), vt::fmt("--Rbond=%.6f", R), "--nelem=" + std::to_string(nelem), "--nnodes=" + std::to_string(nnodes), vt::fmt("--Rmax=%.6f", Rmax), "--method=" + std::string(methods[method]), "--symmetry=" + std::to_string(sym), "--Q=" + std::to_string(Q), "--M=" + std::to_string(M)}; if (lm.size()) a.push_back("--lmax=" + lm); else { a.push_back("--lmax=" + std::to_string(lmax)); a.push_back("--mmax=" + std::to_string(mmax)); } auto opt = [&](bool y, const std::string & t) { if (y) a.push_back(t); }; opt(prim != 4, "--primbas=" + std::to_string(prim)); opt(grid != 4, "--grid=" + std::to_string(grid)); opt(zexp != 1, vt::fmt("--zexp=%.4f", zexp)); opt(finite, vt::fmt("--finitenuc=%d", finite)); opt(finite, vt::fmt("--Rrms1=%.6f", rms1)); opt(finite, vt::fmt("--Rrms2=%.6f", rms2)); opt(restr != -1, vt::fmt("--restricted=%d", restr)); opt(guess != 2, vt::fmt("--iguess=%d", guess)); opt(Ez, vt::fmt("--Ez=%.6f", Ez)); opt(Qzz, vt::fmt("--Qzz=%.6f", Qzz)); opt(Bz, vt::fmt("--Bz=%.6f", Bz)); opt(purem != -1, "--purem=" + std::to_string(purem)); opt(ldft, "--ldft=" + std::to_string(ldft)); return a; } };
prog::Run go(vt::Ctx & c, const Args & a, const prog::Dir & d, const std::vector<std::pair<std::string, std::string>> & env = {}) { auto r = prog::run("prog_diatomic", a, d, env); if (r.rc == -1) throw vt::Reject(); c.ok(r.ok(), vt::fmt("%s: exit %d: %s", prog::join(a).c_str(), r.rc, prog::tail(r.err).c_str())); return r; }
double energy(vt::Ctx & c, const Args & a) { prog::Dir d; auto r = go(c, a, d); auto e = result(r); if (!e.conv) throw vt::Reject(); return e.E; }
Args plus(Args a, std::initializer_list<std::string> x) { a.insert(a.end(), x); return a; }
void logv(const char * k, double x, const std::string & d) { if (getenv("VT_FD")) { FILE * g = fopen(getenv("VT_FD"), "a"); fprintf(g, "%s %.3e %s\n", k, x, d.c_str()); fclose(g); } }
// closed-shell sigma systems and their multiplicities
struct Mol { int Z1, Z2, Q, M; double R; }; const Mol mols[] = {{1, 1, 0, 1, 1.4}, {1, 1, 1, 2, 2.0}, {2, 1, 1, 1, 1.46}, {2, 2, 0, 1, 3.0}, {2, 2, 1, 2, 2.1}, {3, 1, 0, 1, 3.0}, {3, 0, 1, 1, 1.0}, {2, 0, 0, 1, 1.2}, {4, 0, 0, 1, 0.8}, {3, 0, 0, 2, 1.0}, {1, 1, 0, 3, 2.0}, {3, 1, 1, 2, 3.2}, {3, 2, 1, 1, 3.5}};
Mol mol(vt::Source & s) { Mol m = mols[s.draw(13)]; m.R = r6(m.R * s.real(0.8, 1.3)); if (s.flag()) std::swap(m.Z1, m.Z2); return m; }
Cfg cfg(const Mol & m) { Cfg f; f.Z1 = m.Z1; f.Z2 = m.Z2; f.Q = m.Q; f.M = m.M; f.R = m.R; return f; }
}
VT_CHECK(derivative, 90, 1500, "more than one electron and an exchange-correlation functional, exact exchange or a field") {
  Cfg f; f.Z1 = s.range(0, 6); f.Z2 = s.range(0, 6); if (f.Z1 + f.Z2 == 0) f.Z1 = 1; f.R = r6(s.real(0.7, 4)); f.mmax = s.range(0, 2); f.lmax = f.mmax + s.range(0, 3); f.nelem = s.range(1, 2); f.nnodes = s.range(4, 7); if (f.mmax == 2) { f.nelem = 1; f.lmax = std::min(f.lmax, 3); } f.Rmax = r6(s.real(6, 15)); f.sym = s.range(0, 3); f.method = usable[s.draw(11)]; f.prim = s.pick({4, 4, 5, 3}); if (f.prim == 5) f.nnodes = std::min(f.nnodes, 4); f.grid = s.range(1, 4); f.guess = s.range(0, 4); if (f.guess == 4) f.guess = 2;
  int ne = s.range(1, std::min(f.Z1 + f.Z2 + 1, 8)); f.Q = f.Z1 + f.Z2 - ne; f.M = ne % 2 ? s.pick({2, 4}) : s.pick({1, 3}); if (f.M == 4 && ne < 3) f.M = 2; if (f.M == 3 && ne < 2) f.M = 1; f.restr = f.M == 1 && s.flag() ? 1 : 0; if (s.flag(1, 4)) { f.finite = s.range(1, 4); f.rms1 = r6(s.logreal(1e-2, 0.2)); f.rms2 = r6(s.logreal(1e-2, 0.2)); } if (s.flag(1, 4)) f.Ez = r6(s.sym(0.1)); if (s.flag(1, 4)) f.Qzz = r6(s.sym(0.02)); if (f.sym != 3 && s.flag(1, 4)) f.Bz = r6(s.sym(0.5)); if (f.sym >= 1 && s.flag(1, 3)) f.purem = s.range(0, 1); if (s.flag(1, 4) && f.mmax) { f.lm = std::to_string(f.lmax) + "," + std::to_string(s.range(1, f.lmax)); if (f.mmax == 2) f.lm += "," + std::to_string(s.range(2, f.lmax)); }
  Args a = f.args(); int seed = s.range(1, 1000000); c.d("%s fd=%d", prog::join(a).c_str(), seed); c.label("method", methods[f.method]); c.nontrivial = ne > 1 && (f.method != 1 || f.Ez || f.Qzz || f.Bz); derivative(c, "prog_diatomic", a, seed, f.method); }
VT_CHECK(one_electron, 24, 500, "two charges") {
  // exact levels of one electron and two charges, found by separating the equation
  Cfg f; f.Z1 = s.range(0, 4); f.Z2 = s.range(0, 4); if (f.Z1 + f.Z2 == 0) f.Z2 = 1; int Zt = f.Z1 + f.Z2, Zm = std::max(f.Z1, f.Z2), m = s.pick({0, 0, 0, 1, -1, 2}); f.R = r6(s.real(0.6, 3.5) / Zm); f.Q = Zt - 1; f.M = 2; f.mmax = std::abs(m); f.lmax = std::abs(m) + s.range(6, 8); f.lm = ""; for (int i = 0; i <= f.mmax; i++) f.lm += (i ? "," : "") + std::to_string(i == f.mmax ? f.lmax : i); f.prim = s.pick({4, 4, 3, 5}); f.nelem = s.range(2, 3); f.nnodes = f.prim == 5 ? 5 : 9; bool hard = s.flag(1, 4); int n = std::abs(m) + 1; f.Rmax = r6(hard ? n * n * s.real(2.5, 5) / Zm + f.R : 26.0 * n / Zm + f.R); f.grid = s.pick({4, 4, 1, 2}); f.guess = s.range(0, 3); bool occ = m != 0; f.sym = occ ? 1 : f.Z1 == f.Z2 ? s.range(0, 3) : s.pick({0, 1, 3}); Args a = f.args(); prog::Dir dir; if (occ) { a.push_back("--readocc=1"); dir.write("occs.dat", vt::fmt("1 0 %d\n", m)); } c.d("%s m=%d", prog::join(a).c_str(), m); c.nontrivial = f.Z1 && f.Z2; c.label("case", vt::fmt("m=%d%s", std::abs(m), hard ? " walled" : "")); auto r = go(c, a, dir); auto e = result(r); check_sums(c, r.out, 1, false); c.ok(e.conv, "not converged"); double lev = twocenter::level(f.Z1, f.Z2, f.R, f.mumax(), std::abs(m)); c.ok(std::isfinite(lev), "oracle failed"); if (!hard && !f.Z1) c.close(lev, -0.5 * f.Z2 * f.Z2 / (n * n), 1e-6 * Zm * Zm, 0, "oracle"); double want = lev + f.Z1 * f.Z2 / f.R, rel = (e.E - want) / (Zm * Zm); if (rel > 3e-3 && f.guess) { Cfg z = f; z.guess = 0; Args b = z.args(); if (occ) b.push_back("--readocc=1"); e = result(go(c, b, dir)); rel = (e.E - want) / (Zm * Zm); } logv("one", rel, c.desc); c.ok(rel > -1e-8, vt::fmt("energy %.12g below the exact value %.12g", e.E, want)); c.ok(rel < 3e-3, vt::fmt("energy %.12g above the exact value %.12g", e.E, want)); }
VT_CHECK(mirror, 26, 400, "different charges or a field") {
  // exchanging the nuclei, with the dipole field reversed, is a reflection
  Mol m = mol(s); Cfg f = cfg(m); f.method = usable[s.draw(11)]; f.lmax = s.range(3, 5); f.mmax = s.flag(1, 4) ? 1 : 0; f.nelem = f.mmax ? 1 : s.range(1, 2); f.nnodes = s.range(5, 7); f.sym = s.pick({0, 1, 1, 3}); f.Rmax = r6(s.real(8, 16)); f.restr = m.M == 1 ? s.range(-1, 1) : 0; f.guess = s.range(0, 3); if (s.flag(1, 3)) f.Ez = r6(s.sym(0.03)); if (s.flag(1, 3)) f.Qzz = r6(s.sym(0.005)); if (f.sym != 3 && f.mmax == 0 && s.flag(1, 4)) f.Bz = r6(s.sym(0.1)); if (s.flag(1, 4)) { f.finite = s.range(1, 4); f.rms1 = r6(s.logreal(1e-2, 0.1)); f.rms2 = r6(s.logreal(1e-2, 0.1)); } Cfg g = f; std::swap(g.Z1, g.Z2); std::swap(g.rms1, g.rms2); g.Ez = -f.Ez; c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = f.Z1 != f.Z2 || f.Ez; prog::Dir d1, d2; auto r1 = go(c, f.args(), d1), r2 = go(c, g.args(), d2); auto a = result(r1), b = result(r2); auto p = comps(r1.out).front(), q = comps(r2.out).front(); double sc = std::abs(a.first); c.close(b.first, a.first, 1e-8 * sc, 1e-8, "first energy of the reflected molecule"); c.close(q.nuc, p.nuc, 1e-7 * sc, 1e-8, "first nuclear energy"); c.close(q.kin, p.kin, 1e-7 * sc, 1e-8, "first kinetic energy"); if (!a.conv || !b.conv) throw vt::Reject(); logv("mir", b.E - a.E, c.desc); c.close(b.E, a.E, 3e-7 * (1 + sc), 0, "energy of the reflected molecule"); }
VT_CHECK(invariance, 28, 500, "two different symmetry modes, guesses, spin treatments or quadratures") {
  Mol m = mol(s); Cfg f = cfg(m); f.method = usable[s.draw(11)]; f.mmax = s.flag(1, 3) ? 1 : 0; f.lmax = s.range(3, f.mmax ? 4 : 5); f.nelem = 2; f.nnodes = f.mmax ? 5 : 6; bool homo = m.Z1 == m.Z2; auto sym = [&] { return homo ? s.range(0, 3) : s.pick({0, 1, 3, 2}); }; f.sym = sym(); f.guess = s.range(0, 3); Cfg g = f; g.sym = sym(); g.guess = s.range(0, 3); if (m.M == 1) { f.restr = s.range(-1, 1); g.restr = s.range(-1, 1); } if (f.sym) f.purem = s.range(-1, 1); if (g.sym) g.purem = s.range(-1, 1); if (s.flag(1, 5)) { g.ldft = 4 * f.lmax + 30; } c.d("%s | %s", prog::join(f.args()).c_str(), prog::join(g.args()).c_str()); c.nontrivial = f.sym != g.sym || f.guess != g.guess || f.restr != g.restr || f.purem != g.purem; c.label("method", methods[f.method]); double E = energy(c, f.args()), G = energy(c, g.args()); logv("inv", G - E, c.desc); c.close(G, E, (g.ldft ? 2e-5 : 2e-6) * (1 + std::abs(E)), 0, "energy of the same molecule"); }
VT_CHECK(limits, 10, 260, "always") {
  struct Ref { int Z1, Z2, Q, M; double R, E; int method; int lmin; }; static const Ref refs[] = {{1, 1, 0, 1, 1.4, -1.1336295715, 0, 6}, {3, 1, 0, 1, 3.015, -7.9873522, 0, 10}, {2, 1, 1, 1, 1.455, -2.9331, 0, 8}, {2, 0, 0, 1, 1.0, -2.8616799956, 0, 7}, {0, 2, 0, 1, 1.0, -2.8616799956, 0, 7}, {3, 0, 0, 2, 0.8, -7.432750, 0, 7}, {4, 0, 0, 1, 0.6, -14.5730231683, 0, 7}, {0, 2, 0, 1, 0.8, -2.723639793, 2, 7}, {2, 0, 0, 1, 0.8, -2.834835624, 3, 7}};
  auto & r = refs[s.draw(9)]; Cfg f; f.Z1 = r.Z1; f.Z2 = r.Z2; f.Q = r.Q; f.M = r.M; f.R = r.R; bool ghost = !r.Z1 || !r.Z2; if (ghost) f.R = r6(r.R * s.real(0.7, 1.2)); else if (s.flag()) std::swap(f.Z1, f.Z2); f.method = r.method; f.lmax = r.lmin + s.range(0, 1); f.prim = s.pick({4, 3, 5}); f.nelem = 3; f.nnodes = f.prim == 5 ? 5 : s.range(7, 8); f.Rmax = r6(s.real(16, 22)); f.sym = r.Z1 == r.Z2 ? s.range(1, 3) : s.range(0, 1); f.restr = r.M == 1 ? s.range(-1, 1) : 0; if (f.method && !f.sym) f.sym = 1; c.d("%s", prog::join(f.args()).c_str()); c.nontrivial = true; prog::Dir dir; auto o = go(c, f.args(), dir); auto e = result(o); if (!e.conv) throw vt::Reject(); check_sums(c, o.out, 1e-3, true); auto z = comps(o.out).back(); double err = (e.E - r.E) / std::abs(r.E); logv("lim", err, c.desc); c.ok(err > (r.Z1 == 2 && r.Z2 == 1 ? -1e-3 : -1e-6), vt::fmt("energy %.9f below the basis-set limit %.9f", e.E, r.E)); c.ok(err < 2e-3, vt::fmt("energy %.9f far from the limit %.9f", e.E, r.E)); if (ghost && r.method != 3) c.ok(std::abs((z.total + z.kin) / z.kin) < 0.01, vt::fmt("virial: kinetic %.9f total %.9f", z.kin, z.total));
  Cfg g = f; if (s.flag()) g.lmax++; else g.nnodes++; if (s.flag(1, 4)) { g.mmax++; if (!g.sym) g.sym = 1; } double E2 = energy(c, g.args()); c.ok(E2 <= e.E + 1e-6 + (r.method ? 1e-5 * std::abs(e.E) : 0), vt::fmt("the larger basis %s gives a higher energy %.9f than %.9f", prog::join(g.args()).c_str(), E2, e.E)); }
VT_CHECK(fields, 16, 300, "always") {
  // an off-centre hydrogen-like ion in a field: known response plus the shift of its origin
  Cfg f; int Z = s.range(1, 3); bool first = s.flag(); f.Z1 = first ? Z : 0; f.Z2 = first ? 0 : Z; f.Q = Z - 1; f.M = 2; f.R = r6(s.real(0.6, 2) / Z); f.lmax = 8; f.nelem = 3; f.nnodes = 8; f.Rmax = r6(20.0 / Z); f.sym = s.range(0, 1); double z0 = (first ? -1 : 1) * f.R / 2, Z2 = Z * Z, want; int kind = s.range(0, 3), m = 0; if (kind == 0) f.Ez = r6(s.sym(6e-3) * Z * Z2); else if (kind == 1) f.Qzz = r6(s.sym(2e-3) * Z2 * Z2); else if (kind == 2) f.Bz = r6(s.sym(5e-3) * Z2); else { f.Bz = r6(s.sym(2e-3) * Z2); m = s.pick({1, -1}); f.mmax = 1; f.lm = "1,7"; f.sym = 1; f.Rmax = r6(36.0 / Z); f.nnodes = 7; }
  if (!f.Ez && !f.Qzz && !f.Bz) throw vt::Reject(); Args a = f.args(); prog::Dir dir; Cfg z = f; z.Ez = z.Qzz = z.Bz = 0; Args az = z.args(); if (m) { a.push_back("--readocc=1"); az.push_back("--readocc=1"); dir.write("occs.dat", vt::fmt("1 0 %d\n", m)); } c.d("%s m=%d", prog::join(a).c_str(), m); c.label("field", kind == 0 ? "dipole" : kind == 1 ? "quadrupole" : "magnetic"); c.nontrivial = true; auto r = go(c, a, dir), r0 = go(c, az, dir); auto e = result(r), e0 = result(r0); c.ok(e.conv && e0.conv, "not converged"); c.close(e0.E, -0.5 * Z2 / ((std::abs(m) + 1) * (std::abs(m) + 1)), 3e-4 * Z2, 0, "field-free level"); double F = f.Ez, tol, sh = e.E - e0.E; (void) z0;
  if (kind == 0) { want = -2.25 * F * F / (Z2 * Z2) + F * (Z - 1) * (first ? 1 : -1) * f.R / 2; tol = 2e-5 * Z2 + 100 * std::pow(F / (Z * Z2), 4) * Z2; } else if (kind == 1) { want = f.Qzz / 3 * (1 - Z) * z0 * z0; tol = 60 * std::pow(f.Qzz / (Z2 * Z2), 2) * Z2 + 1e-6 * Z2; } else { double ms = 0.5, r2s = m ? 24.0 / Z2 : 2 / Z2; want = -0.5 * f.Bz * (m + 2 * ms) + f.Bz * f.Bz / 8 * r2s; tol = 60 * std::pow(f.Bz / Z2, 4) * Z2 * (m ? 1000 : 1) + 1e-7 * Z2 + 2e-2 * f.Bz * f.Bz / 8 * r2s; } if (getenv("VT_FD")) { FILE * g = fopen(getenv("VT_FD"), "a"); fprintf(g, "fld %d %.3e %.3e %.3e %s\n", kind, sh, want, tol, c.desc.c_str()); fclose(g); } c.close(sh, want, tol, 0, "energy shift");
  double rest = comps(r.out).back().rest; (void) rest; }
VT_CHECK(load, 30, 400, "a different symmetry mode or basis") {
  Mol m = mol(s); Cfg f = cfg(m); f.method = s.pick({0, 0, 2, 3, 4, 5, 9}); f.lmax = s.range(3, 4); f.mmax = s.flag(1, 3) ? 1 : 0; f.nelem = 2; f.nnodes = 5; bool homo = m.Z1 == m.Z2; f.sym = homo ? s.range(0, 3) : s.pick({0, 1, 3}); Cfg g = f; g.sym = homo ? s.range(0, 3) : s.pick({0, 1, 3}); if (s.flag(1, 3)) { f.Ez = g.Ez = r6(s.sym(0.02)); } int mode = s.range(0, 2); if (mode == 1) g.nnodes += s.range(1, 2); if (mode == 2) g.lmax++; if (m.M == 1 && s.flag()) { f.restr = s.range(-1, 1); g.restr = s.range(-1, 1); } prog::Dir dir; Args a = plus(f.args(), {"--save=x.chk"}), b = plus(g.args(), {"--load=x.chk", "--save=y.chk"}); c.d("%s | %s", prog::join(a).c_str(), prog::join(b).c_str()); c.nontrivial = f.sym != g.sym || mode; c.label("basis", mode == 0 ? "same" : mode == 1 ? "larger elements" : "more angular functions"); auto r = go(c, a, dir); auto e = result(r); if (!e.conv) throw vt::Reject(); auto r2 = go(c, b, dir); auto e2 = result(r2); c.ok(!prog::lines(r2.out, "VSHIM loaded").empty(), "nothing was loaded"); logv("load", e2.first - e.E, vt::fmt("%d ", mode) + c.desc); c.close(e2.first, e.E, (mode && f.method ? 1e-3 : 1e-7) * (1 + std::abs(e.E)), 0, "energy of the loaded orbitals"); if (!e2.conv) throw vt::Reject(); if (mode == 0) c.close(e2.E, e.E, 1e-6, 1e-7, "final energy after loading"); else if (f.method == 0) c.ok(e2.E <= e.E + 1e-6, vt::fmt("the larger basis ends at %.9f above %.9f", e2.E, e.E)); c.ok(dir.has("y.chk"), "no checkpoint was written"); }
VT_CHECK(rejects, 16, 100, "always") {
  // requests the program cannot honour must not produce an energy
  Mol m = mol(s); Cfg f = cfg(m); f.lmax = 2; f.nnodes = 4; f.nelem = 1; int k = s.range(0, 5); Args a; prog::Dir dir; switch (k) { case 0: f.method = s.pick({7, 8, 10, 11, 15}); a = f.args(); break; case 1: f.sym = 0; f.purem = 1; a = f.args(); break; case 2: f.sym = 0; a = plus(f.args(), {"--readocc=1"}); dir.write("occs.dat", "1 0 0\n"); break; case 3: a = plus(f.args(), {"--nquad=" + std::to_string(s.range(1, 2 * f.nnodes - 1))}); break; case 4: f.guess = s.pick({5, 7, -1}); a = f.args(); break; default: { int ne = m.Z1 + m.Z2 - m.Q; f.M = ne % 2 ? s.pick({1, 3}) : s.pick({2, 4}); a = f.args(); } } c.d("%s", prog::join(a).c_str()); c.label("request", k); c.nontrivial = true; auto r = prog::run("prog_diatomic", a, dir); c.ok(r.rc != 0, "the request was accepted"); c.ok(r.rc != -1, "the program hung"); c.ok(r.out.find("VSHIM result") == std::string::npos, "an energy was reported"); c.ok(r.err.size() > 0 || r.out.size() > 0, "no message"); }
VT_MAIN()
