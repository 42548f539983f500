// LIBS: core general
// P09: orthonormalisation, eigenvalue helpers, text matrices.
#include "gen.h"
#include <helfem.h>
#include <utils.h>
#include <general/scf_helpers.h>
#include <general/eigen_io.h>
#include <general/radial_block_helper.h>
#include <general/angular_index_helpers.h>
#include <RadialBasis.h>
#include <Eigen/Eigenvalues>
#include <Eigen/QR>
#include <unistd.h>
#include <numeric>
using namespace helfem; using namespace gen;
using MatL = helfem::Mat<long double>;
// SPD matrix with a chosen condition number and badly scaled rows; block structure by labels
static MatD spd(vt::Source & s, const std::vector<int> & lab, double cond, double scale) {
  int n = (int) lab.size(); MatD S = MatD::Zero(n, n); int nl = *std::max_element(lab.begin(), lab.end()) + 1; uint64_t st = s.draw(1u << 30);
  for (int b = 0; b < nl; b++) { std::vector<Eigen::Index> ix; for (int i = 0; i < n; i++) if (lab[i] == b) ix.push_back(i); int k = (int) ix.size(); if (!k) continue; MatD G = randmat(s, k, k); MatD Q = Eigen::HouseholderQR<MatD>(G).householderQ(); VecD e(k); for (int i = 0; i < k; i++) e(i) = std::pow(cond, -(double) (vt::splitmix(st) >> 11) / 9007199254740992.0); MatD B = Q * e.asDiagonal() * Q.transpose(); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) S(ix[i], ix[j]) = 0.5 * (B(i, j) + B(j, i)); }
  for (int i = 0; i < n; i++) { double f = std::pow(scale, (double) (vt::splitmix(st) >> 11) / 9007199254740992.0 - 0.5); S.row(i) *= f; S.col(i) *= f; }
  return 0.5 * (S + S.transpose());
}
static std::vector<int> labels(vt::Source & s, int n, int nl) { std::vector<int> l(n); for (int i = 0; i < n; i++) l[i] = (int) s.draw(nl); return l; }
static double gauge(const MatD & S) { VecD d = S.diagonal().cwiseSqrt().cwiseInverse(); MatD N = d.asDiagonal() * S * d.asDiagonal(); VecD e = Eigen::SelfAdjointEigenSolver<MatD>(N, Eigen::EigenvaluesOnly).eigenvalues(); if (e(0) <= 1e-13) throw vt::Reject(); return e(e.size() - 1) / e(0); }
VT_CHECK(half_inverse, 20000, 200000, "more than two functions with a condition number above ten") {
  int n = s.range(1, 25); double cond = s.logreal(1, 1e9), scale = s.logreal(1, 1e6); bool chol = s.flag(); c.d("n=%d cond=%.3g scale=%.3g chol=%d", n, cond, scale, chol); MatD S = spd(s, std::vector<int>(n, 0), cond, scale); double k = gauge(S); c.nontrivial = n > 2 && k > 10; c.label("kind", chol ? "Cholesky" : "symmetric");
  helfem::verbose = false; MatD X = scf::form_Sinvh<double>(S, chol); c.ok(X.rows() == n && X.cols() == n, "size"); double t = 1e-14 * k * n + 1e-13; same(c, X.transpose() * S * X, MatD::Identity(n, n), t, "X' S X = 1"); VecD d = S.diagonal().cwiseSqrt();
  MatD Y = d.asDiagonal() * X; if (!chol) same(c, Y, Y.transpose(), 1e-13 * k * n + 1e-12, "symmetric in the normalised basis"); else for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) c.ok(X(i, j) == 0, "upper triangular"); samer(c, helfem::utils::invh<double>(S, chol), X, 1e-15, "both entry points");
  MatL L = S.cast<long double>(), XL = scf::form_Sinvh<long double>(L, chol), R = XL.transpose() * L * XL - MatL::Identity(n, n); c.ok((double) R.cwiseAbs().maxCoeff() <= 1e-17 * k * n + 1e-16, vt::fmt("long double residual %.3g", (double) R.cwiseAbs().maxCoeff()));
}
VT_CHECK(indefinite, 1000, 10000, "any") { int n = s.range(2, 12); MatD S = spd(s, std::vector<int>(n, 0), 10, 1); int i = (int) s.draw(n), j = (int) s.draw(n); if (i == j) throw vt::Reject(); S(i, j) = S(j, i) = 1.5 * std::sqrt(S(i, i) * S(j, j)); c.d("n=%d i=%d j=%d", n, i, j); c.nontrivial = true; c.throws([&] { scf::form_Sinvh<double>(S, true); }, "overlap that is not positive definite"); }
static void eigcheck(vt::Ctx & c, const VecD & E, const MatD & C, const MatD & F, const MatD & S, double k, const std::string & what) {
  int n = (int) F.rows(); c.ok(E.size() == C.cols(), what + ": sizes"); VecD d = S.diagonal().cwiseSqrt().cwiseInverse(); MatD Fn = d.asDiagonal() * F * d.asDiagonal(); double f = Fn.cwiseAbs().maxCoeff() * n, t = 1e-13 * k * n; same(c, C.transpose() * S * C, MatD::Identity(C.cols(), C.cols()), t + 1e-12, what + ": orthonormal"); for (int i = 1; i < E.size(); i++) c.ok(E(i) >= E(i - 1), what + ": ascending"); MatD R = C.transpose() * F * C; for (int i = 0; i < E.size(); i++) R(i, i) -= E(i); c.ok(R.cwiseAbs().maxCoeff() <= (t + 1e-12) * f * k, what + vt::fmt(": diagonalises (%.3g)", R.cwiseAbs().maxCoeff()));
}
VT_CHECK(eigenproblem, 12000, 120000, "more than two functions") {
  int n = s.range(1, 24); double cond = s.logreal(1, 1e4); c.d("n=%d cond=%.3g", n, cond); MatD S = spd(s, std::vector<int>(n, 0), cond, 10), F = randsymf(s, n); double k = gauge(S); c.nontrivial = n > 2; bool chol = s.flag(); helfem::verbose = false; MatD X = scf::form_Sinvh<double>(S, chol); VecD E; MatD C; scf::eig_gsym(E, C, F, X); c.ok(E.size() == n, "all eigenvalues"); eigcheck(c, E, C, F, S, k, "full");
  Eigen::GeneralizedSelfAdjointEigenSolver<MatD> g(F, S); double f = g.eigenvalues().cwiseAbs().maxCoeff(); same(c, E, g.eigenvalues(), 1e-12 * k * f * n, "eigenvalues");
  // reduced subspace: a random subset of the orthonormal vectors
  int m = s.range(1, n); std::vector<Eigen::Index> ix(n); std::iota(ix.begin(), ix.end(), 0); for (int i = 0; i < m; i++) std::swap(ix[i], ix[i + s.draw(n - i)]); ix.resize(m); MatD Xs = X(Eigen::all, ix); VecD Es; MatD Cs; scf::eig_gsym(Es, Cs, F, Xs); c.ok(Es.size() == m && Cs.cols() == m && Cs.rows() == n, "subspace size"); eigcheck(c, Es, Cs, F, S, k, "subspace"); for (int i = 0; i < m; i++) c.ok(Es(i) >= E(i) - 1e-10 * k * f && Es(i) <= E(n - m + i) + 1e-10 * k * f, "interlacing");
}
VT_CHECK(blocked_eigenproblem, 12000, 120000, "at least two nonempty blocks") {
  int n = s.range(1, 24), nl = s.range(1, 5); auto lab = labels(s, n, nl); double cond = s.logreal(1, 1e4); std::string ls; for (int l : lab) ls += (char) ('0' + l); c.d("blocks=%s cond=%.3g", ls.c_str(), cond); MatD S = spd(s, lab, cond, 10), F = randsymf(s, n); std::vector<std::vector<Eigen::Index>> idx; std::vector<int> order(nl); std::iota(order.begin(), order.end(), 0); for (int i = 0; i < nl; i++) std::swap(order[i], order[i + s.draw(nl - i)]);
  for (int b : order) { std::vector<Eigen::Index> v; for (int i = 0; i < n; i++) if (lab[i] == b) v.push_back(i); if (v.size()) idx.push_back(v); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (lab[i] != lab[j]) F(i, j) = 0; c.nontrivial = idx.size() > 1; double k = gauge(S);
  MatD X = MatD::Zero(n, n); helfem::verbose = false; for (auto & v : idx) { MatD Sb = S(v, v); X(v, v) = scf::form_Sinvh<double>(Sb, s.flag()); }
  VecD E; MatD C; scf::eig_gsym_sub(E, C, F, X, idx, false); c.ok(E.size() == n, "all eigenvalues"); eigcheck(c, E, C, F, S, k, "blocked"); VecD Ef; MatD Cf; scf::eig_gsym(Ef, Cf, F, X); same(c, E, Ef, 1e-11 * k * Ef.cwiseAbs().maxCoeff() * n + 1e-12, "agrees with the full solution"); for (int o = 0; o < n; o++) { int b = -1; for (int i = 0; i < n; i++) if (C(i, o) != 0) { if (b < 0) b = lab[i]; c.ok(b == lab[i], "orbital stays in one block"); } }
  if (idx.size() > 1) { auto bad = idx; bad.pop_back(); c.throws([&] { VecD e; MatD q; scf::eig_gsym_sub(e, q, F, X, bad, false); }, "blocks that miss functions"); }
}
struct Scratch { std::string d; Scratch() { char t[] = "/tmp/vp09.XXXXXX"; d = mkdtemp(t); } ~Scratch() { for (auto f : {"/m", "/i"}) unlink((d + f).c_str()); rmdir(d.c_str()); } };
VT_CHECK(text_matrices, 6000, 20000, "more than one row and column") {
  Scratch t; int r = s.range(0, 6), q = s.range(0, 6); c.d("%dx%d", r, q); c.nontrivial = r > 1 && q > 1; MatD m(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) m(i, j) = s.flag(1, 10) ? 0 : s.sym(1) * s.logreal(1e-200, 1e200); io::write_raw_ascii<double>(t.d + "/m", m);
  std::ifstream in(t.d + "/m"); std::string line; int nr = 0; while (std::getline(in, line)) { std::istringstream is(line); std::string w; int nc = 0; while (is >> w) { if (nr < r && nc < q) c.ok(strtod(w.c_str(), nullptr) == m(nr, nc), "value read back: " + w); nc++; } c.ok(nc == q, "columns"); nr++; } c.ok(nr == r, "rows");
  for (int i = 0; i < 3; i++) { double x = s.sym(1) * s.logreal(1e-300, 1e300); c.ok(strtod(io::fmt_sci(x).c_str(), nullptr) == x, "formatted scalar " + io::fmt_sci(x)); long double y = (long double) x * 1.000000000000000123L; c.ok(strtold(io::fmt_sci(y).c_str(), nullptr) == y, "formatted long double " + io::fmt_sci(y)); }
  VecD v(r); for (int i = 0; i < r; i++) v(i) = s.sym(3); io::write_raw_ascii<double>(t.d + "/m", v); { std::ifstream f(t.d + "/m"); double x; int i = 0; while (f >> x) { if (i < r) c.ok(x == v(i), "vector read back"); i++; } c.ok(i == r, "vector length"); }
  // integer tables
  int R = s.range(0, 5), Q = s.range(1, 5); Eigen::MatrixXi w(R, Q); { std::ofstream f(t.d + "/i"); for (int i = 0; i < R; i++) { while (s.flag(1, 5)) f << (s.flag() ? "\n" : "  \n"); for (int j = 0; j < Q; j++) { w(i, j) = s.range(-1000, 1000); f << (s.flag() ? " " : "\t ") << w(i, j); } f << (s.flag() ? " \n" : "\n"); } } auto g = io::read_raw_ascii_imat(t.d + "/i"); if (R) { c.ok(g.rows() == R && g.cols() == Q, "integer table shape"); if (g.rows() == R && g.cols() == Q) c.ok(g == w, "integer table values"); } else c.ok(g.size() == 0, "empty table");
  { std::ofstream f(t.d + "/i", std::ios::app); f << "1"; for (int j = 0; j < Q; j++) f << " 2"; f << "\n"; } if (R) c.throws([&] { io::read_raw_ascii_imat(t.d + "/i"); }, "ragged table"); c.throws([&] { io::read_raw_ascii_imat(t.d + "/none"); }, "missing file");
}
VT_CHECK(block_assembly, 8000, 15000, "at least two elements") {
  FEspec e = fespec(s, 0.0, 5, 6, false); if (e.nbf() < 2) throw vt::Reject(); atomic::basis::FEMRadialBasis rb(e.make(), 20); c.d("%s", e.str().c_str()); c.nontrivial = e.nel() > 1; auto num = e.numbering(); std::vector<MatD> blk; std::vector<std::vector<int>> glob;
  for (int iel = 0; iel < e.nel(); iel++) { std::vector<int> g; for (int j = 0; j < e.N; j++) for (int k = 0; k <= e.order(); k++) { auto it = num.find({iel * (e.N - 1) + j, k}); if (it != num.end()) g.push_back(it->second); } glob.push_back(g); blk.push_back(randmat(s, (int) g.size(), (int) g.size())); } MatD want = MatD::Zero(e.nbf(), e.nbf()); for (size_t i = 0; i < blk.size(); i++) for (size_t a = 0; a < glob[i].size(); a++) for (size_t b = 0; b < glob[i].size(); b++) want(glob[i][a], glob[i][b]) += blk[i](a, b); same(c, helfem::assemble_radial_diagonal(rb, [&](size_t i) { return blk[i]; }), want, 1e-14, "assembled blocks");
  int ns = s.range(0, 8); std::vector<int> sz(ns), lb(ns); for (int i = 0; i < ns; i++) { sz[i] = s.range(0, 4); lb[i] = (int) s.draw(3); } std::vector<char> seen; int tot = 0; for (int x : sz) tot += x; seen.assign(tot, 0); for (int l = 0; l < 3; l++) { auto ix = helfem::collect_shell_indices(ns, [&](size_t i) { return (size_t) sz[i]; }, [&](size_t i) { return lb[i] == l; }); std::vector<Eigen::Index> w; int o = 0; for (int i = 0; i < ns; i++) { for (int k = 0; k < sz[i]; k++) if (lb[i] == l) w.push_back(o + k); o += sz[i]; } c.ok(ix == w, "shell indices"); }
}
VT_MAIN()
