// LIBS: core general
// P07: guess potentials, tabulated atoms, element tables.
#include "gen.h"
#include <general/model_potential.h>
#include <general/atomdb.h>
#include <general/gsz.h>
#include <general/elements.h>
#include <xc.h>
#include <cstring>
// the exponents of Green, Sellin and Zachor (1969), hydrogen first
static const double gszd[] = {1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0.708, 0.575, 0.500, 0.561, 0.621, 0.729, 0.817, 0.868, 0.885, 0.881, 0.862, 1.006, 1.154, 1.116, 1.060, 0.996, 0.837, 0.866, 0.807, 0.751, 0.700, 0.606, 0.612, 0.631, 0.649, 0.663, 0.675, 0.684, 0.689, 0.744, 0.798, 0.855, 0.866, 0.831, 0.825, 0.855, 0.803, 0.788, 0.737, 0.754, 0.775, 0.810, 0.841, 0.870, 0.896, 0.919, 0.940, 1.022, 1.108, 1.150, 1.081, 0.970, 0.938, 0.905, 0.873, 0.842, 0.862, 0.830, 0.754, 0.728, 0.702, 0.677, 0.654, 0.665, 0.672, 0.676, 0.679, 0.680, 0.680, 0.679, 0.661, 0.657, 0.671, 0.690, 0.708, 0.726, 0.744, 0.761, 0.777, 0.818, 0.859, 0.899, 0.927, 0.887, 0.880, 0.872, 0.832, 0.822, 0.842, 0.830, 0.790, 0.778, 0.766, 0.754, 0.742, 0.755};
double sap_effective_charge(int Z, double r);
using namespace helfem; using namespace gen; using namespace helfem::modelpotential;
static const int NR = 701, NZ = 119;
static const std::vector<double> & sapref() { static std::vector<double> t; if (t.empty()) { t.resize((size_t) NR * NZ); std::string f(__FILE__); f = f.substr(0, f.rfind('/')) + "/sap_ref.bin"; FILE * h = fopen(f.c_str(), "rb"); if (!h || fread(t.data(), 8, t.size(), h) != t.size()) { fprintf(stderr, "no %s\n", f.c_str()); abort(); } fclose(h); } return t; }
VT_CHECK(sap, 300000, 3000000, "radius inside the table") {
  int Z = s.range(-3, 123); const auto & t = sapref(); double r; int i = (int) s.draw(NR - 1);
  switch (s.draw(5)) { case 0: r = t[i]; break; case 1: r = s.logreal(1e-10, 60); break; case 2: r = s.real(0, 45); break; case 3: r = t[i] * (1 + 1e-12 * s.sym(1)); break; default: r = t[i] + (t[i + 1] - t[i]) * s.real(0, 1); }
  if (s.flag(1, 50)) r = -r; c.d("Z=%d r=%.17g", Z, r); double v = sap_effective_charge(Z, r);
  double want = 0; if (Z >= 1 && Z <= 118) { const double * y = &t[(size_t) Z * NR]; if (r <= 0) want = y[0]; else if (r >= t[NR - 1]) want = y[NR - 1]; else { int k = (int) (std::upper_bound(t.begin(), t.begin() + NR, r) - t.begin()) - 1; want = y[k] + (y[k + 1] - y[k]) * (r - t[k]) / (t[k + 1] - t[k]); c.nontrivial = true; } }
  c.close(v, want, 1e-12, 1e-12, "interpolated effective charge"); if (Z >= 1 && Z <= 118) { c.ok(v <= Z * (1 + 1e-13) && v >= -1e-12, "within physical bounds"); double r2 = std::abs(r) * (1 + s.logreal(1e-9, 1)) ; c.ok(sap_effective_charge(Z, r2) <= sap_effective_charge(Z, std::abs(r)) + 1e-12, "screening grows outwards");
    if (r > 0) { SAPAtom a(Z); c.close(a.V(r), -want / r, 1e-12 / r, 1e-12, "potential"); } c.close(sap_effective_charge(Z, 0), Z, 1e-12, 0, "bare nucleus at the centre"); }
}
VT_CHECK(gsz_thomas_fermi, 300000, 3000000, "element beyond hydrogen") {
  int Z = s.range(1, 103); double r = s.flag(1, 3) ? s.logreal(1e-8, 1e3) : s.real(0, 20) + 1e-9; c.d("Z=%d r=%.17g", Z, r); c.nontrivial = Z > 1; double d, H; GSZ::GSZ_parameters(Z, d, H);
  c.close(d, gszd[Z - 1], 0, 1e-14, "exponent of this element"); c.close(H, d * std::pow(Z - 1.0, 0.4), 0, 1e-13, "H = d (Z-1)^0.4"); GSZAtom a(Z); double want = Z == 1 ? 1 : 1 + (Z - 1) / (1 + std::expm1(r / gszd[Z - 1]) * gszd[Z - 1] * std::pow(Z - 1.0, 0.4)); c.close(-a.V(r) * r, want, 1e-13, 1e-13, "GSZ effective charge"); c.ok(-a.V(r) * r <= Z * (1 + 1e-13) && -a.V(r) * r >= 1 - 1e-13, "between one and Z");
  GSZAtom b(Z, d * 2, H * 3); c.close(-b.V(r) * r, Z == 1 ? 1 : 1 + (Z - 1) / (1 + std::expm1(r / (2 * gszd[Z - 1])) * 3 * H), 1e-13, 1e-13, "explicit parameters"); VecD rv(2); rv << r, 2 * r; VecD z = GSZ::Z_GSZ(rv, Z); c.close(z(0), want, 1e-13, 1e-13, "vector form"); c.ok(z(1) <= z(0) * (1 + 1e-13), "screening grows outwards");
  int Zt = s.range(1, 118); TFAtom t(Zt); double x = r * std::cbrt(128.0 * Zt / (9 * M_PI * M_PI)), al = 0.7280642371, q = 1 + al * std::sqrt(x) - 0.5430794693 * x * std::exp(-0.3612163121 * std::sqrt(x)); double f = q * q * std::exp(-2 * al * std::sqrt(x)); c.close(-t.V(r) * r, Zt * f, 1e-13, 1e-12, "Thomas-Fermi screening function"); c.ok(-t.V(r) * r <= Zt * (1 + 1e-12) && t.V(r) <= 0, "Thomas-Fermi bounds"); c.close(GSZ::Z_thomasfermi(rv, Zt)(0), Zt * f, 1e-13, 1e-12, "vector form"); c.close(-TFAtom(Zt).V(1e-12) * 1e-12, Zt, 0, 1e-4, "Thomas-Fermi bare nucleus");
  if (s.flag(1, 200)) { int bad = s.flag() ? 104 + (int) s.draw(50) : -1 - (int) s.draw(10); c.d(" bad=%d", bad); c.throws([&] { GSZAtom q2(bad); }, "no parameters for this charge"); }
}
VT_CHECK(dummy_centre, 2000, 20000, "any") {
  double r = s.logreal(1e-6, 50); c.d("r=%.17g", r); c.nontrivial = true; c.close(GSZAtom(0).V(r), 0, 0, 0, "GSZ"); c.close(SAPAtom(0).V(r), 0, 0, 0, "SAP"); c.close(TFAtom(0).V(r), 0, 0, 0, "TF"); c.close(SAPFEAtom(0).V(r), 0, 0, 0, "SAPFE"); c.ok(SAPFEAtom(0).breakpoints(0, 50).empty(), "no kinks");
}
// ---- tabulated atoms
struct Ref { FEspec e; MatD P; int Z; };
static const Ref & ref(int Z) { static std::map<int, Ref> m; auto it = m.find(Z); if (it != m.end()) return it->second; Ref r; r.Z = Z; r.e.f = fam(0); r.e.N = atomdb::data::nnodes; for (int i = 0; i <= atomdb::data::nelem; i++) r.e.b.push_back(atomdb::data::bval[i]); r.e.zfl = true; r.e.zdl = false; r.e.zfr = true; r.e.zdr = false; size_t n = r.e.nbf(); r.P = MatD::Zero(n, n);
  for (int l = 0; l < 4; l++) for (int k = 0; k < atomdb::data::norb[Z - 1][l]; k++) { VecD v(n); for (size_t i = 0; i < n; i++) v(i) = atomdb::data::coefficients[(size_t) (atomdb::data::offset[Z - 1][l] + k) * n + i]; r.P += atomdb::data::occupations[atomdb::data::offset[Z - 1][l] + k] * v * v.transpose(); } return m[Z] = r; }
// q = radial charge, and its first two derivatives
static void radial(const Ref & R, double r, double q[3]) { const auto & b = R.e.b; int iel = 0; while (iel + 1 < R.e.nel() && r >= b[iel + 1]) iel++; double x = (r - 0.5 * (b[iel] + b[iel + 1])) / (0.5 * (b[iel + 1] - b[iel])); VecD f[3]; for (int k = 0; k < 3; k++) f[k] = R.e.eval({x}, k, iel).row(0).transpose(); q[0] = f[0].dot(R.P * f[0]); q[1] = 2 * f[0].dot(R.P * f[1]); q[2] = 2 * f[1].dot(R.P * f[1]) + 2 * f[0].dot(R.P * f[2]); }
// density and derivatives
static void dens(const Ref & R, double r, double d[3]) { double q[3]; radial(R, r, q); double k = 1 / (4 * M_PI * r * r); d[0] = k * q[0]; d[1] = k * (q[1] - 2 * q[0] / r); d[2] = k * (q[2] - 4 * q[1] / r + 6 * q[0] / (r * r)); }
static double around(vt::Source & s, const Ref & R) { const auto & b = R.e.b; switch (s.draw(4)) { case 0: return s.logreal(1e-3, 29.9); case 1: { int i = s.range(1, R.e.nel() - 1); return b[i] * (1 + 1e-6 * s.sym(1)); } default: return s.real(0.01, 12); } }
VT_CHECK(atom_density, 20000, 100000, "more than two electrons and the point inside the table") {
  int Z = s.range(1, atomdb::max_Z()); const Ref & R = ref(Z); static std::map<int, std::shared_ptr<atomdb::Atom>> at; auto & a = at[Z]; if (!a) a = std::make_shared<atomdb::Atom>(Z); double r = around(s, R); c.d("Z=%d r=%.17g", Z, r); c.nontrivial = Z > 2; double q[3], d[3]; for (double b : R.e.b) if (std::abs(r - b) < 1e-12 * r) throw vt::Reject(); radial(R, r, q); dens(R, r, d); double k = 1 / (4 * M_PI * r * r), qs = q[0] + 1e-12;
  c.close(a->radial_density(r), q[0], 1e-11 * qs + 1e-18, 1e-9, "radial density"); c.close(a->density(r), d[0], 1e-11 * k * qs, 1e-9, "density"); double s1 = k * (std::abs(q[1]) + 2 * qs / r) + 1e-12; c.close(a->density_gradient(r), d[1], 1e-8 * s1, 1e-8, "gradient"); double s2 = k * (std::abs(q[2]) + 4 * std::abs(q[1]) / r + 6 * qs / (r * r)) + std::abs(2 * d[1] / r) + 1e-12; c.close(a->density_laplacian(r), d[2] + 2 * d[1] / r, 1e-7 * s2, 1e-7, "Laplacian");
  // enclosed charge and electrostatics from the radial charge by Gauss-Legendre panels
  static std::vector<double> gx, gw; if (gx.empty()) gauss(40, gx, gw); auto integ = [&](double lo, double hi, bool over) { double sum = 0; for (int i = 0; i < R.e.nel(); i++) { double A = std::max(lo, R.e.b[i]), B = std::min(hi, R.e.b[i + 1]); if (B <= A) continue; double h = 0.5 * (B - A), m = 0.5 * (A + B); std::vector<double> xs(gx.size()); for (size_t p = 0; p < gx.size(); p++) xs[p] = (m + h * gx[p] - 0.5 * (R.e.b[i] + R.e.b[i + 1])) / (0.5 * (R.e.b[i + 1] - R.e.b[i])); MatD f = R.e.eval(xs, 0, i); for (size_t p = 0; p < gx.size(); p++) { VecD v = f.row(p).transpose(); double x = m + h * gx[p]; sum += gw[p] * h * v.dot(R.P * v) / (over ? x : 1); } } return sum; };
  if (s.flag(1, 4)) { double in = integ(0, r, false), out = integ(r, 30, true); c.close(a->enclosed_charge(r), in, 1e-11, 1e-10, "enclosed charge"); c.close(a->hartree_screening(r), in + r * out, 1e-11, 1e-10, "electrostatic screening"); c.ok(a->hartree_screening(r) <= a->nelectrons() * (1 + 1e-12), "screening below the electron count"); c.close(a->nelectrons(), Z, 1e-7, 0, "electron count"); c.ok(a->charge() == Z, "charge"); double R2 = 30 * s.logreal(1.0, 10); c.close(a->enclosed_charge(R2), a->nelectrons(), 1e-12, 1e-12, "all charge enclosed"); c.close(a->hartree_screening(R2), a->nelectrons(), 1e-12, 1e-12, "fully screened"); c.close(a->hartree_screening(0), 0, 0, 0, "no screening at the nucleus"); c.close(a->effective_charge(0, 1, 0), Z, 1e-12, 0, "bare nucleus"); }
}
static const int ldas[] = {1, 7, 12, 9}, ggas[] = {101, 102, 106, 109, 116, 130, 131, 132, 134};
static double vref(const Ref & R, double r, const std::vector<int> & ids, double h) { // v_rho - (1/r^2) d/dr (r^2 F), F = 2 vs_aa g_a + vs_ab g_b
  auto both = [&](double x, double & v, double & F) { double d[3]; dens(R, x, d); double rho[2] = {d[0] / 2, d[0] / 2}, g = d[1] / 2, sg[3] = {g * g, g * g, g * g}; v = 0; F = 0; for (int id : ids) { xc_func_type f; xc_func_init(&f, id, XC_POLARIZED); double vr[2] = {0, 0}, vs[3] = {0, 0, 0}; if (f.info->family == XC_FAMILY_LDA) xc_lda_vxc(&f, 1, rho, vr); else { xc_gga_vxc(&f, 1, rho, sg, vr, vs); F += 2 * vs[0] * g + vs[1] * g; } v += vr[0]; xc_func_end(&f); } };
  double v, F0; both(r, v, F0); auto D = [&](double hh) { double a, b, q; both(r + hh, q, a); both(r - hh, q, b); return ((r + hh) * (r + hh) * a - (r - hh) * (r - hh) * b) / (2 * hh); }; double d = (4 * D(h) - D(2 * h)) / 3; return v - d / (r * r); }
VT_CHECK(atom_xc_screening, 3000, 30000, "gradient-corrected functional") {
  int Z = s.range(1, atomdb::max_Z()); const Ref & R = ref(Z); double r = s.logreal(0.02, 8); std::vector<int> ids; bool gga = s.flag(3, 4); int x = gga ? ggas[s.draw(9)] : ldas[s.draw(4)], cf = s.flag() ? (s.flag() ? ldas[s.draw(4)] : ggas[s.draw(9)]) : 0; if (s.flag(1, 20)) x = 0; for (int i : {x, cf}) if (i > 0) ids.push_back(i);
  double h = 1e-3 * r; for (double b : R.e.b) if (std::abs(r - b) < 3 * h) throw vt::Reject(); double d[3]; dens(R, r, d); if (d[0] < 1e-7) throw vt::Reject(); c.d("Z=%d r=%.10g x=%d c=%d", Z, r, x, cf); c.nontrivial = false; for (int i : ids) if (i > 100) c.nontrivial = true; atomdb::Atom a(Z);
  double want = ids.empty() ? 0 : r * vref(R, r, ids, h); double sc = r * (std::cbrt(d[0]) + std::abs(d[1]) / (d[0] * r + 1e-30) * 1e-3) + std::abs(want); double got = a.xc_screening(r, x, cf);
  double w2 = ids.empty() ? 0 : r * vref(R, r, ids, 0.5 * h); c.close(got, want, 2e-5 * sc + 30 * std::abs(want - w2), 0, "exchange-correlation screening"); c.close(a.effective_charge(r, x, cf), Z - a.hartree_screening(r) - got, 1e-12, 1e-12, "effective charge"); SAPFEAtom f(Z, x, cf); c.close(f.V(r), -a.effective_charge(r, x, cf) / r, 0, 1e-12, "potential"); c.close(SAPFEAtom(Z).V(r), -a.effective_charge(r, 1, 0) / r, 0, 1e-12, "default screening is LDA exchange");
  // a sequence of queries with different functionals on one object
  int y = ldas[s.draw(4)]; double first = atomdb::Atom(Z).xc_screening(r, y, 0); c.close(a.xc_screening(r, y, 0), first, 0, 0, "independent of earlier queries"); c.close(a.xc_screening(r, x, cf), got, 0, 0, "repeatable");
}
VT_CHECK(atom_refusal, 3000, 30000, "any") {
  int Z = s.range(1, atomdb::max_Z()); c.nontrivial = true; int bad = s.flag() ? -(int) s.draw(50) : atomdb::max_Z() + 1 + (int) s.draw(200); int lb = s.flag() ? -1 - (int) s.draw(5) : atomdb::lmax() + 1 + (int) s.draw(5), l = s.range(0, atomdb::lmax()); c.d("Z=%d bad=%d l=%d lbad=%d", Z, bad, l, lb);
  c.throws([&] { atomdb::Atom a(bad); }, "no record"); c.throws([&] { atomdb::norb(bad, l); }, "no record"); c.throws([&] { atomdb::occupations(bad, l); }, "no record"); c.throws([&] { atomdb::coefficients(Z, lb); }, "no record"); c.throws([&] { atomdb::norb(Z, lb); }, "no record"); c.throws([&] { atomdb::occupations(Z, lb); }, "no record");
  int mg[] = {202, 263, 267, 231, 203}; int m = mg[s.draw(5)]; c.throws([&] { atomdb::Atom a(Z); a.xc_screening(s.real(0.1, 3), s.flag() ? m : 0, m); }, "meta-GGA");
  MatD C = atomdb::coefficients(Z, l); VecD o = atomdb::occupations(Z, l); c.ok(C.cols() == o.size() && C.cols() == atomdb::norb(Z, l) && C.rows() == atomdb::Nbf(), "shapes"); for (int k = 0; k < C.cols(); k++) { size_t row = atomdb::data::offset[Z - 1][l] + k; c.ok(o(k) == atomdb::data::occupations[row], "occupation"); for (int i = 0; i < C.rows(); i++) c.ok(C(i, k) == atomdb::data::coefficients[row * atomdb::Nbf() + i], "coefficient"); }
  double A = s.real(0, 20), B = A + s.logreal(0.1, 20); auto bp = SAPFEAtom(Z).breakpoints(A, B); std::vector<double> want; for (int i = 0; i <= atomdb::data::nelem; i++) if (atomdb::data::bval[i] > A && atomdb::data::bval[i] < B) want.push_back(atomdb::data::bval[i]); c.ok(bp == want, "kinks are the element boundaries inside the interval");
}
VT_CHECK(elements, 20000, 100000, "symbol, not a number") {
  static const char * sym = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og";
  static std::vector<std::string> t; if (t.empty()) { std::istringstream is(sym); std::string w; t.push_back(""); while (is >> w) t.push_back(w); }
  int Z = s.range(0, 118); std::string w = t[Z]; for (auto & ch : w) if (s.flag()) ch = (char) (s.flag() ? toupper(ch) : tolower(ch)); if (s.flag(1, 4)) w = std::to_string(Z); c.d("'%s'", w.c_str()); c.nontrivial = !w.empty() && isalpha(w[0]); c.ok(get_Z(w) == Z, "charge of the element"); c.ok(element_symbols[Z] == t[Z], "symbol");
  std::string bad; int n = s.range(1, 4); for (int i = 0; i < n; i++) bad += (char) ((s.flag() ? 'a' : 'A') + s.draw(26)); bool known = false; for (auto & q : t) if (strcasecmp(q.c_str(), bad.c_str()) == 0) known = true; c.d(" '%s'", bad.c_str()); if (!known) c.throws([&] { get_Z(bad); }, "unknown element");
  // aufbau by the Madelung rule
  int Z2 = s.range(0, 118), want[4] = {0, 0, 0, 0}; for (int z : {Z, Z2}) { int start = 1; for (int nl = 1; nl <= 8; nl++) for (int l = nl - 1; l >= 0; l--) { int nn = nl - l; if (nn <= l) continue; if (z >= start) for (int m = 0; m <= std::min(l, 3); m++) want[m]++; start += 2 * (2 * l + 1); } }
  int o[4] = {7, 7, 7, 7}; num_orbs(Z, Z2, o[0], o[1], o[2], o[3]); for (int m = 0; m < 4; m++) c.ok(o[m] == want[m], vt::fmt("orbital count m=%d Z=%d,%d: %d vs %d", m, Z, Z2, o[m], want[m]));
}
VT_MAIN()
