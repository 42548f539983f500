// LIBS: core general
// P18: electron counts and the shared SCF building blocks.
#include "gen.h"
#include <helfem.h>
#include <general/scf_driver_common.h>
#include <Eigen/QR>
#include <Eigen/Eigenvalues>
#include <numeric>
#include <climits>
#include <set>
using namespace helfem; using namespace gen; namespace sd = helfem::scf_driver; namespace ooo = OpenOrbitalOptimizer;
using Idx = std::vector<Eigen::Index>;

VT_CHECK(counts, 40000, 600000, "an accepted request with unequal spin counts, or a refused one") {
  int Z = s.range(0, 30), Q = s.range(-6, 34), M = s.range(-2, 9), na = 0, nb = 0, restr = s.range(-1, 1); bool expl = s.flag(1, 3); if (expl) { na = s.range(-2, 12); nb = s.range(-2, 12); } if (s.flag(1, 3)) { M = 0; } if (s.flag(1, 3)) Q = 0; expl = na != 0 || nb != 0;
  c.d("Z=%d Q=%d M=%d nela=%d nelb=%d restricted=%d", Z, Q, M, na, nb, restr);
  // independent decision: list every admissible pair
  bool ok = false, wr = restr != 0; int wa = 0, wb = 0;
  if (expl) { ok = na >= 0 && nb >= 0 && na >= nb; wa = na; wb = nb; if (restr == -1) wr = na == nb; }
  else if (M == 0) { ok = restr != 0 && Z - Q > 0; wb = ok ? (Z - Q) / 2 : 0; wa = ok ? Z - Q - wb : 0; wr = true; }
  else { int hits = 0; for (int a = 0; a <= 80; a++) for (int b = 0; b <= a; b++) if (a + b == Z - Q && a - b + 1 == M) { wa = a; wb = b; hits++; } ok = hits == 1; if (restr == -1) wr = wa == wb; }
  int a = na, b = nb, r = restr, nt = -77; bool re = false; bool threw = false; try { sd::derive_nela_nelb_restricted(a, b, r, Q, M, Z, re, nt); } catch (const std::exception &) { threw = true; }
  c.nontrivial = threw || a != b; c.label("path", expl ? "explicit" : M == 0 ? "count only" : "multiplicity"); c.label("outcome", threw ? "refused" : "accepted");
  c.ok(threw == !ok, ok ? "a consistent request was refused" : vt::fmt("an inconsistent request was accepted as %d + %d", a, b)); if (threw) return;
  c.ok(a >= 0 && b >= 0, "negative spin count"); c.ok(a == wa && b == wb, vt::fmt("counts %d, %d, expected %d, %d", a, b, wa, wb)); c.ok(nt == wa + wb, vt::fmt("total %d", nt)); c.ok(re == wr && (r != 0) == wr, "spin mode");
  if (!expl && M != 0) { int a2 = 0, b2 = 0, q2 = Q, m2 = M; scf::parse_nela_nelb(a2, b2, q2, m2, Z); c.ok(a2 == wa && b2 == wb && q2 == Q && m2 == M, "parsing changes the request"); }
  if (expl) { int a2 = na, b2 = nb, q2 = Q, m2 = M; scf::parse_nela_nelb(a2, b2, q2, m2, Z); c.ok(a2 == na && b2 == nb && q2 == Z - na - nb && m2 == na - nb + 1, "charge and multiplicity of explicit counts"); }
}

struct Sys { int n = 0; std::vector<Idx> sym, mir; MatD S; std::vector<MatD> X; bool paired = false; };
static MatD spd(vt::Source & s, int k) { if (k == 0) return MatD::Zero(0, 0); MatD Qm = Eigen::HouseholderQR<MatD>(randmat(s, k, k)).householderQ(); VecD e(k); for (int i = 0; i < k; i++) e(i) = s.logreal(0.02, 3); MatD S = Qm * e.asDiagonal() * Qm.transpose(); return 0.5 * (S + S.transpose()); }
static MatD ortho(vt::Source & s, int k) { if (k == 0) return MatD::Zero(0, 0); return Eigen::HouseholderQR<MatD>(randmat(s, k, k)).householderQ(); }
static Sys sys(vt::Source & s, vt::Ctx & c) {
  Sys y; int nb = s.range(1, 5); bool pair = s.flag(2, 5); std::vector<int> sz(nb); std::vector<bool> mir(nb, false); for (int k = 0; k < nb; k++) { sz[k] = s.flag(1, 6) ? 0 : s.range(1, 5); mir[k] = pair && k > 0 && sz[k] > 0 && s.flag(2, 3); y.n += sz[k] * (mir[k] ? 2 : 1); } if (y.n == 0) { sz[0] = 1; y.n = 1; }
  Idx perm(y.n); std::iota(perm.begin(), perm.end(), 0); for (int i = y.n - 1; i > 0; i--) std::swap(perm[i], perm[s.draw(i + 1)]); int at = 0; y.sym.resize(nb); y.mir.resize(nb); for (int k = 0; k < nb; k++) { for (int i = 0; i < sz[k]; i++) y.sym[k].push_back(perm[at++]); if (mir[k]) { y.paired = true; for (int i = 0; i < sz[k]; i++) y.mir[k].push_back(perm[at++]); } }
  y.S = MatD::Zero(y.n, y.n); if (s.flag(1, 3)) { MatD R = randsymf(s, y.n); y.S = R; } for (int k = 0; k < nb; k++) { MatD B = spd(s, sz[k]); if (sz[k]) { y.S(y.sym[k], y.sym[k]) = B; if (mir[k]) { y.S(y.mir[k], y.mir[k]) = B; } } }
  y.S = 0.5 * (y.S + y.S.transpose()).eval(); helfem::verbose = false; y.X = sd::build_per_block_Sinvh(y.S, y.sym); std::string d; for (int k = 0; k < nb; k++) d += vt::fmt("%s%d%s", k ? "," : "", sz[k], mir[k] ? "x2" : ""); c.d("n=%d blocks %s", y.n, d.c_str()); return y;
}
static MatD sub(const MatD & A, const Idx & i, const Idx & j) { MatD B((int) i.size(), (int) j.size()); for (size_t a = 0; a < i.size(); a++) for (size_t b = 0; b < j.size(); b++) B(a, b) = A(i[a], j[b]); return B; }
static void put(MatD & A, const Idx & i, const MatD & B, double f = 1) { for (size_t a = 0; a < i.size(); a++) for (size_t b = 0; b < i.size(); b++) A(i[a], i[b]) += f * B(a, b); }
struct State { ooo::Orbitals<double> C; ooo::OrbitalOccupations<double> n; };
static State state(vt::Source & s, const Sys & y, int nt, bool restricted) { State t; for (int z = 0; z < nt; z++) for (size_t k = 0; k < y.sym.size(); k++) { int m = (int) y.sym[k].size(); t.C.push_back(ortho(s, m)); VecD o(m); double top = (restricted ? 2 : 1) * (y.mir[k].empty() ? 1 : 2); for (int i = 0; i < m; i++) o(i) = s.flag(1, 3) ? 0 : s.flag() ? top : s.real(0, top); t.n.push_back(o); } return t; }
// density from first principles: sum over orbitals of occupation times the outer product of the coefficients
static MatD dens(const Sys & y, const MatD & C, const VecD & o, size_t k) { MatD P = MatD::Zero(y.n, y.n); if (y.sym[k].empty()) return P; MatD X = y.X[k]; for (int i = 0; i < o.size(); i++) { VecD v = VecD::Zero(X.rows()); for (int a = 0; a < X.rows(); a++) for (int b = 0; b < X.cols(); b++) v(a) += X(a, b) * C(b, i); MatD B = v * v.transpose(); double f = y.mir[k].empty() ? 1 : 0.5; put(P, y.sym[k], B, f * o(i)); if (!y.mir[k].empty()) put(P, y.mir[k], B, f * o(i)); } return P; }

VT_CHECK(orthonormal, 6000, 60000, "more than one block") {
  Sys y = sys(s, c); bool field = s.flag(); double Bz = s.sym(2); int nt = s.range(1, 2); MatD H = randsymf(s, y.n); c.nontrivial = y.sym.size() > 1; c.ok(y.X.size() == y.sym.size(), "one matrix per block");
  for (size_t k = 0; k < y.sym.size(); k++) { if (y.sym[k].empty()) { c.ok(y.X[k].size() == 0, "empty block"); continue; } MatD B = sub(y.S, y.sym[k], y.sym[k]); c.ok(y.X[k].rows() == B.rows(), "block size"); same(c, MatD(y.X[k].transpose() * B * y.X[k]), MatD::Identity(B.rows(), B.rows()), 1e-11, vt::fmt("block %d orthonormal", (int) k)); }
  auto G = sd::build_coreH_from_H0<double>(H, y.S, y.sym, y.X, nt, field, Bz); c.ok(G.size() == nt * y.sym.size(), "number of guess matrices"); for (int z = 0; z < nt; z++) for (size_t k = 0; k < y.sym.size(); k++) { auto & g = G[z * y.sym.size() + k]; if (y.sym[k].empty()) { c.ok(g.rows() == 0 && g.cols() == 0, "empty guess block"); continue; } MatD B = sub(H, y.sym[k], y.sym[k]); if (field && nt == 2) B += (z ? 0.5 : -0.5) * Bz * sub(y.S, y.sym[k], y.sym[k]); same(c, g, MatD(y.X[k].transpose() * B * y.X[k]), 1e-10, vt::fmt("guess block %d spin %d", (int) k, z)); }
}
VT_CHECK(densities, 12000, 120000, "a fractional or mirrored occupation in more than one block") {
  Sys y = sys(s, c); bool restricted = s.flag(); int nt = restricted ? 1 : 2; State t = state(s, y, nt, restricted); size_t nb = y.sym.size(); c.nontrivial = nb > 1; c.label("spin", restricted ? "restricted" : "unrestricted"); c.label("mirror", y.paired ? "yes" : "no");
  std::vector<MatD> P(nt, MatD::Zero(y.n, y.n)), W = P; double tot[2] = {0, 0}; for (int z = 0; z < nt; z++) for (size_t k = 0; k < nb; k++) { MatD B = MatD::Zero(y.n, y.n); size_t e = z * nb + k; if (y.mir[k].empty() && s.flag()) sd::accumulate_density_block<double>(B, y.sym, k, y.X, t.C[e], t.n[e]); else sd::accumulate_density_block<double>(B, y.sym, k, y.X, t.C[e], t.n[e], &y.mir[k]); MatD w = dens(y, t.C[e], t.n[e], k); same(c, B, w, 1e-10, vt::fmt("density of block %d", (int) k)); c.close((B * y.S).trace(), t.n[e].size() ? t.n[e].sum() : 0.0, 1e-10, 0, "electrons in a block"); sd::accumulate_density_block<double>(P[z], y.sym, k, y.X, t.C[e], t.n[e], &y.mir[k]); W[z] += w; if (t.n[e].size()) tot[z] += t.n[e].sum(); }
  for (int z = 0; z < nt; z++) { same(c, P[z], W[z], 1e-10, "accumulated density"); c.close((P[z] * y.S).trace(), tot[z], 1e-10, 0, "electrons"); }
  auto F = y.paired || s.flag() ? sd::assemble_final_density<double>(y.n, restricted, y.sym, y.X, t.C, t.n, &y.mir) : sd::assemble_final_density<double>(y.n, restricted, y.sym, y.X, t.C, t.n); if (restricted) { same(c, F.first, MatD(0.5 * W[0]), 1e-10, "saved alpha density"); same(c, F.second, F.first, 0, "saved beta density"); } else { same(c, F.first, W[0], 1e-10, "saved alpha density"); same(c, F.second, W[1], 1e-10, "saved beta density"); }
  // reload: orbitals rebuilt from the saved density reproduce it
  ooo::Orbitals<double> C(nt * nb); ooo::OrbitalOccupations<double> n(nt * nb); double top = restricted ? 2 : 1; std::vector<MatD> back(nt, MatD::Zero(y.n, y.n)); for (int z = 0; z < nt; z++) for (size_t k = 0; k < nb; k++) { size_t e = z * nb + k; MatD Ps = restricted ? MatD(F.first + F.second) : z ? F.second : F.first; if (y.mir[k].empty() && s.flag()) sd::fill_block_from_density<double>(e, C, n, Ps, y.sym[k], y.X[k], top); else sd::fill_block_from_density<double>(e, C, n, Ps, y.sym[k], y.X[k], top, &y.mir[k]); int m = (int) y.sym[k].size(); c.ok(C[e].rows() == m && C[e].cols() == m && n[e].size() == m, "reloaded block sizes"); if (!m) continue; same(c, MatD(C[e].transpose() * C[e]), MatD::Identity(m, m), 1e-11, "reloaded orbitals orthonormal"); for (int i = 0; i < m; i++) { c.ok(n[e](i) >= 0 && n[e](i) <= top * (y.mir[k].empty() ? 1 : 2) + 1e-12, "reloaded occupation out of range"); if (i) c.ok(n[e](i) <= n[e](i - 1), "reloaded occupations not descending"); } VecD so = t.n[e]; std::sort(so.data(), so.data() + m, std::greater<double>()); same(c, n[e], so, 1e-9, "reloaded occupations"); sd::accumulate_density_block<double>(back[z], y.sym, k, y.X, C[e], n[e], &y.mir[k]); }
  for (int z = 0; z < nt; z++) same(c, back[z], W[z], 1e-9, "density rebuilt from reloaded orbitals");
}
VT_CHECK(clamping, 4000, 40000, "an occupation outside the allowed range") {
  // densities with eigenvalues outside the physical range (projections between bases produce them)
  Sys y = sys(s, c); double top = s.flag() ? 2 : 1; size_t nb = y.sym.size(); bool out = false; for (size_t k = 0; k < nb; k++) { int m = (int) y.sym[k].size(); if (!m) continue; MatD V = ortho(s, m); VecD o(m); double lim = top; for (int i = 0; i < m; i++) { o(i) = s.real(-0.5 * top, 1.5 * lim); out |= o(i) < 0 || o(i) > lim; } MatD P = MatD::Zero(y.n, y.n), A = y.X[k] * V; put(P, y.sym[k], MatD(A * o.asDiagonal() * A.transpose())); ooo::Orbitals<double> C(1); ooo::OrbitalOccupations<double> n(1); sd::fill_block_from_density<double>(0, C, n, P, y.sym[k], y.X[k], top); VecD w = o.cwiseMax(0.0).cwiseMin(lim); std::sort(w.data(), w.data() + m, std::greater<double>()); same(c, n[0], w, 1e-9, "clamped occupations"); MatD B = MatD::Zero(y.n, y.n), E = B; sd::accumulate_density_block<double>(B, y.sym, k, y.X, C[0], n[0]); put(E, y.sym[k], MatD(A * o.cwiseMax(0.0).cwiseMin(lim).asDiagonal() * A.transpose())); same(c, B, E, 1e-8, "clamped density"); } c.nontrivial = out;
}
VT_CHECK(fock, 8000, 80000, "unrestricted with a field or exchange") {
  Sys y = sys(s, c); bool restricted = s.flag(), xc = s.flag(), exx = s.flag(), field = s.flag(); double Bz = s.sym(3); size_t nb = y.sym.size(); c.nontrivial = !restricted && (field || exx); auto R = [&] { return randsymf(s, y.n); }; MatD H = R(), J = R(), Z = MatD::Zero(y.n, y.n), XA = xc ? R() : Z, XB = xc ? R() : Z, KA = exx ? R() : Z, KB = exx ? R() : Z; if (restricted) { if (s.flag()) XB = MatD(); if (s.flag()) KB = MatD(); } c.label("flags", vt::fmt("%d%d%d%d", restricted, xc, exx, field));
  int nt = restricted ? 1 : 2; ooo::FockMatrix<double> F(nt * nb); auto ob = [&](ooo::FockMatrix<double> & f, size_t b, const helfem::Matrix & A, size_t k) { sd::orthonormalize_fock_block<double>(f, b, y.sym, k, y.X, A); }; sd::assemble_fock_blocks<double>(F, H, J, XA, XB, KA, KB, y.S, nb, restricted, xc, exx, field, Bz, ob);
  for (int z = 0; z < nt; z++) { MatD A = H + J + (z ? XB : XA) + (z ? KB : KA); if (!restricted && field) A += (z ? 0.5 : -0.5) * Bz * y.S; for (size_t k = 0; k < nb; k++) { auto & f = F[z * nb + k]; if (y.sym[k].empty()) { c.ok(f.rows() == 0 && f.cols() == 0, "empty Fock block"); continue; } MatD w = y.X[k].transpose() * sub(A, y.sym[k], y.sym[k]) * y.X[k]; same(c, f, w, 1e-10, vt::fmt("Fock block %d spin %d", (int) k, z)); } }
  // energy of one-electron states: sum of occupation times diagonal equals the trace with the full matrix
  if (y.paired) return; State t = state(s, y, nt, restricted); for (int z = 0; z < nt; z++) { MatD P = MatD::Zero(y.n, y.n), A = H + J + (z ? XB : XA) + (z ? KB : KA); if (!restricted && field) A += (z ? 0.5 : -0.5) * Bz * y.S; double e = 0; for (size_t k = 0; k < nb; k++) { size_t b = z * nb + k; sd::accumulate_density_block<double>(P, y.sym, k, y.X, t.C[b], t.n[b]); if (t.n[b].size()) { MatD D = t.C[b].transpose() * F[b] * t.C[b]; e += D.diagonal().dot(t.n[b]); } } c.close(e, (P * A).trace(), 1e-9, 1e-10, "orbital-energy sum"); }
}
VT_CHECK(exchange, 6000, 60000, "unrestricted") {
  int n = s.range(1, 8); bool restricted = s.flag(), have = !s.flag(1, 5); c.nontrivial = !restricted && have; c.d("n=%d restricted=%d exchange=%d", n, restricted, have); MatD A = randsymf(s, n), B = randsymf(s, n); double q = s.sym(1); auto K = [&](const MatD & P) { MatD X = q * (A * P * A + B * P * B); return helfem::Matrix(0.5 * (X + X.transpose())); }; MatD Pa = randsymf(s, n), Pb = restricted ? Pa : randsymf(s, n), Ka = MatD::Zero(n, n), Kb = Ka; double E = 17; sd::assemble_hf_exchange(Ka, Kb, E, Pa, Pb, restricted, have, K);
  if (!have) { c.close(E, 0, 0, 0, "energy without exchange"); c.ok(Ka.isZero(0) && Kb.isZero(0), "matrices without exchange"); return; } same(c, Ka, MatD(K(Pa)), 1e-11, "alpha exchange"); if (!restricted) same(c, Kb, MatD(K(Pb)), 1e-11, "beta exchange"); double w = 0.5 * (Pa.cwiseProduct(K(Pa)).sum() + Pb.cwiseProduct(K(Pb)).sum()); c.close(E, w, 1e-11, 1e-11, "exchange energy"); if (restricted) { MatD a = MatD::Zero(n, n), b = a; double e = 0; sd::assemble_hf_exchange(a, b, e, Pa, Pa, false, true, K); c.close(E, e, 1e-11, 1e-11, "spin modes agree"); same(c, a, Ka, 1e-12, "spin modes agree: alpha"); same(c, b, Ka, 1e-12, "spin modes agree: beta"); }
}
VT_CHECK(metadata, 4000, 40000, "unrestricted with a degenerate block") {
  size_t nb = s.range(1, 8); bool restricted = s.flag(); size_t nt = restricted ? 1 : 2; int na = s.range(0, 9), nbt = s.range(0, 9), N = na + nbt; std::vector<std::string> lab; std::vector<int> deg; bool dg = false; for (size_t k = 0; k < nb; k++) { lab.push_back(vt::fmt("m=%d", (int) s.range(-9, 9))); deg.push_back(s.range(1, 2)); dg |= deg.back() > 1; } int bad = s.flag(1, 4) ? s.range(1, 4) : 0; if (bad == 1) lab.pop_back(); if (bad == 2) lab.push_back("x"); if (bad == 3) deg.pop_back(); if (bad == 4) deg.push_back(1); c.d("blocks=%d restricted=%d electrons %d+%d bad=%d", (int) nb, restricted, na, nbt, bad); c.nontrivial = !restricted && dg;
  ooo::IndexVector per; Eigen::VectorXd mx, np; std::vector<std::string> de; auto go = [&] { sd::build_ooo_block_metadata<double>(nb, nt, restricted, N, na, nbt, lab, deg, per, mx, np, de); }; if (bad) { c.throws(go, "mismatched labels or degeneracies"); return; } go();
  c.ok(per.size() == (int) nt && np.size() == (int) nt && mx.size() == (int) (nt * nb) && de.size() == nt * nb, "sizes"); c.close(np.sum(), N, 0, 0, "particles"); if (!restricted) { c.close(np(0), na, 0, 0, "alpha particles"); c.close(np(1), nbt, 0, 0, "beta particles"); } std::set<std::string> u; for (size_t z = 0; z < nt; z++) { c.ok(per(z) == (int) nb, "blocks per spin"); for (size_t k = 0; k < nb; k++) { c.close(mx(z * nb + k), deg[k] * (restricted ? 2.0 : 1.0), 0, 0, "largest occupation"); const std::string & d = de[z * nb + k]; c.ok(d.size() >= lab[k].size() && d.compare(d.size() - lab[k].size(), lab[k].size(), lab[k]) == 0, "description " + d); if (!restricted) c.ok(de[k] != de[nb + k], "the spins have the same description"); } }
}
VT_CHECK(timer, 3000, 30000, "more than one build per batch") {
  sd::FockTimer t; int nbat = s.range(1, 5); double sum[6] = {0, 0, 0, 0, 0, 0}; size_t builds = 0; c.d("batches=%d", nbat); for (int b = 0; b < nbat; b++) { t.enter(); int k = s.range(1, 4); c.nontrivial |= k > 1; for (int i = 0; i < k; i++) { sd::FockTimer::Components x; x.density = s.real(0, 1); x.xc = s.real(0, 1); x.coulomb = s.real(0, 1); x.exchange = s.real(0, 1); x.total = x.density + x.xc + x.coulomb + x.exchange + s.real(0, 1); sum[0] += x.density; sum[1] += x.xc; sum[2] += x.coulomb; sum[3] += x.exchange; sum[4] += x.total; t.add_build(x); builds++; } t.leave(); }
  c.ok(t.nbuild == builds && t.nbatch == (size_t) nbat, "number of builds"); c.close(t.tot_density, sum[0], 1e-12, 1e-12, "density time"); c.close(t.tot_xc, sum[1], 1e-12, 1e-12, "XC time"); c.close(t.tot_coulomb, sum[2], 1e-12, 1e-12, "Coulomb time"); c.close(t.tot_exchange, sum[3], 1e-12, 1e-12, "exchange time"); c.close(t.tot_density + t.tot_xc + t.tot_coulomb + t.tot_exchange + t.tot_other, sum[4], 1e-11, 1e-12, "times add up to the total");
}
VT_MAIN()
