// LIBS: core
// P02: finite-element assembly against an independent node-based numbering and Gauss-Legendre quadrature.
#include "gen.h"
#include <Eigen/QR>
using namespace helfem; using namespace gen;

static void labels(vt::Ctx & c, const FEspec & e) { c.label("family", e.f.name); c.label("elements", e.nel()); c.label("bc", vt::fmt("%d%d%d%d", e.zfl, e.zdl, e.zfr, e.zdr)); }
static FEspec draw(vt::Source & s, int maxel = 4, int maxn = 9) {
  double lo = s.flag(1, 4) ? s.sym(3) : 0; FEspec e = fespec(s, lo, maxel, maxn, true);
  if (e.nbf() == 0) throw vt::Reject();
  // an element left without functions, or with fewer functions than the overlap, is outside what the class supports
  if (e.nel() >= 1 && e.N == 2 && e.nel() == 1 && (e.zfl || e.zdl || e.zfr || e.zdr) && e.f.m <= 0 && e.nbf() == 0) throw vt::Reject();
  return e;
}
static void check_numbering(vt::Ctx & c, const FEspec & e, const polynomial_basis::FiniteElementBasis & fe) {
  c.ok(fe.get_nelem() == (size_t) e.nel(), "element count");
  c.ok(fe.get_nbf() == e.nbf(), vt::fmt("%zu global functions, expected %zu", fe.get_nbf(), e.nbf()));
  auto m = e.numbering();
  for (int iel = 0; iel < e.nel(); iel++) {
    std::vector<int> idx; for (int j = 0; j < e.N; j++) for (int k = 0; k <= e.order(); k++) { auto it = m.find({iel * (e.N - 1) + j, k}); if (it != m.end()) idx.push_back(it->second); }
    c.ok(fe.get_nprim(iel) == idx.size(), vt::fmt("element %d has %zu functions, expected %zu", iel, fe.get_nprim(iel), idx.size()));
    if (idx.empty()) continue;
    size_t f, l; fe.get_idx(iel, f, l);
    c.ok((int) f == idx.front() && (int) l == idx.back(), vt::fmt("element %d holds functions %zu..%zu, expected %d..%d", iel, f, l, idx.front(), idx.back()));
  }
}
static MatD global_eval(const polynomial_basis::FiniteElementBasis & fe, const VecD & x, int n, int iel) {
  MatD r = MatD::Zero(x.size(), fe.get_nbf()); size_t f, l; fe.get_idx(iel, f, l);
  MatD v = fe.eval_dnf(x, n, iel); r.block(0, f, x.size(), l - f + 1) = v; return r;
}

VT_CHECK(conformity, 20000, 300000, "at least two elements, or a boundary condition imposed") {
  FEspec e = draw(s, 6); labels(c, e); c.d("%s", e.str().c_str()); c.nontrivial = e.nel() > 1 || e.zfl || e.zdl || e.zfr || e.zdr;
  auto fe = e.make(); check_numbering(c, e, fe);
  int p = e.order();
  VecD L(1), Rr(1); L(0) = -1; Rr(0) = 1;
  double tol = 1e-8;
  for (int iel = 0; iel + 1 < e.nel(); iel++) for (int n = 0; n <= p; n++) same(c, global_eval(fe, Rr, n, iel), global_eval(fe, L, n, iel + 1), tol, vt::fmt("derivative %d from the left and the right of boundary %d", n, iel + 1));
  auto m = e.numbering(); int last = e.nel() * (e.N - 1);
  for (int side = 0; side < 2; side++) for (int n = 0; n <= p; n++) {
    MatD v = global_eval(fe, side ? Rr : L, n, side ? e.nel() - 1 : 0);
    MatD want = MatD::Zero(1, m.size()); auto it = m.find({side ? last : 0, n}); if (it != m.end()) want(0, it->second) = 1;
    same(c, v, want, tol, vt::fmt("derivative %d of the functions at the %s end", n, side ? "right" : "left"));
  }
  // geometry
  VecD b = fe.get_bval(); c.ok(b.size() == (int) e.b.size(), "boundary count");
  for (int i = 0; i < b.size(); i++) c.ok(b(i) == e.b[i], "element boundary kept");
  for (int i = 0; i < e.nel(); i++) {
    c.ok(fe.element_begin(i) == e.b[i] && fe.element_end(i) == e.b[i + 1], "element ends"); c.close(fe.element_length(i), e.b[i + 1] - e.b[i], 1e-14, 1e-14, "element length");
    c.close(fe.element_midpoint(i), 0.5 * (e.b[i + 1] + e.b[i]), 1e-14, 1e-14, "element midpoint"); c.close(fe.scaling_factor(i), 0.5 * (e.b[i + 1] - e.b[i]), 1e-14, 1e-14, "scaling factor");
  }
  c.throws([&] { fe.element_begin(e.nel()); }, "element index past the end"); c.throws([&] { fe.element_length(e.nel()); }, "element index past the end"); c.throws([&] { fe.element_end(e.nel()); }, "element index past the end");
  c.ok(fe.get_poly_nnodes() == e.N, "node count of the primitive basis");
}
VT_CHECK(locate_and_evaluate, 25000, 400000, "at least two elements") {
  FEspec e = draw(s, 30, 7); labels(c, e); auto fe = e.make(); c.nontrivial = e.nel() > 1;
  double r; int k = (int) s.draw(3);
  if (k == 0) r = s.real(e.b.front(), e.b.back()); else { int i = s.range(0, e.nel()); r = e.b[i]; if (k == 2) { r = std::nextafter(r, s.flag() ? 1e300 : -1e300); r = std::min(std::max(r, e.b.front()), e.b.back()); } }
  c.d("%s r=%.17g", e.str().c_str(), r); c.label("point", k == 0 ? "interior" : k == 1 ? "boundary" : "next to boundary");
  size_t iel = fe.find_element(r);
  c.ok(iel < fe.get_nelem() && fe.element_begin(iel) <= r && r <= fe.element_end(iel), vt::fmt("coordinate %.17g was assigned to element %zu", r, iel));
  VecD rv(1); rv(0) = r; VecD x = fe.eval_prim(rv, iel);
  c.ok(x(0) >= -1 - 1e-13 && x(0) <= 1 + 1e-13, "reference coordinate inside [-1,1]");
  c.close(fe.eval_coord(x, iel)(0), r, 1e-13 * (1 + std::abs(r)), 0, "reference coordinate maps back"); c.close(fe.eval_coord(x(0), iel), r, 1e-13 * (1 + std::abs(r)), 0, "scalar reference coordinate maps back");
  for (size_t j = 0; j < fe.get_nelem(); j++) if (r < fe.element_begin(j) || r > fe.element_end(j)) { c.throws([&] { fe.eval_prim(rv, j); }, "coordinate outside the element"); break; }
  int nd = s.range(0, 2);
  samer(c, global_eval(fe, x, nd, iel), e.eval({x(0)}, nd, (int) iel), 1e-9, "functions at a coordinate");
  // all-element evaluation
  std::vector<double> xs; int nx = s.range(1, 4); for (int i = 0; i < nx; i++) xs.push_back(s.real(-1, 1));
  MatD all = fe.eval_dnf(tovec(xs), nd); VecD ra = fe.eval_coord(tovec(xs)), wa = fe.eval_weights(tovec(xs));
  c.ok(all.rows() == (int) (xs.size() * fe.get_nelem()) && all.cols() == (int) fe.get_nbf(), "size of all-element evaluation"); c.ok(ra.size() == all.rows() && wa.size() == all.rows(), "size of coordinates and weights");
  for (int j = 0; j < e.nel(); j++) { samer(c, all.middleRows(j * nx, nx), e.eval(xs, nd, j), 1e-9, "all-element evaluation");
    for (int i = 0; i < nx; i++) { c.close(ra(j * nx + i), e.coord(xs[i], j), 1e-13, 1e-13, "all-element coordinate"); c.close(wa(j * nx + i), xs[i] * 0.5 * (e.b[j + 1] - e.b[j]), 1e-13, 1e-13, "all-element weight"); } }
}
VT_CHECK(over_r, 5000, 80000, "always") {
  FEspec e = fespec(s, 0, 4, 8, true); e.zfl = true; if (e.nbf() == 0) throw vt::Reject(); labels(c, e); auto fe = e.make(); int n = s.range(0, 2); std::vector<double> xs = {s.real(-0.9, 1)}; c.nontrivial = true;
  c.d("%s over_r order %d x=%.6g", e.str().c_str(), n, xs[0]);
  if (fe.get_nprim(0) == 0) { c.nontrivial = false; return; }
  MatD v = fe.eval_over_r(tovec(xs), n, 0); double r = e.coord(xs[0], 0);
  MatD B[3]; for (int k = 0; k <= n; k++) B[k] = fe.eval_dnf(tovec(xs), k, 0);
  MatD w; double tol = 1e-9; if (n == 0) w = B[0] / r; else if (n == 1) w = B[1] / r - B[0] / (r * r); else { w = B[2] / r - 2 * B[1] / (r * r) + 2 * B[0] / (r * r * r); tol = 1e-8; }
  double mag = 0; for (int k = 0; k <= n; k++) mag += B[k].cwiseAbs().maxCoeff() / std::pow(r, n + 1 - k) * 2;
  same(c, v, w, tol * std::max(mag, 1e-10), "function over radius");
  if (e.nel() > 1) c.throws([&] { fe.eval_over_r(tovec(xs), n, 1); }, "over_r on an element that does not start at the origin");
}
// weights: generated smooth function, possibly with a kink; oracle: Gauss-Legendre panels over e.eval
static MatD ref_matrix(const FEspec & e, int a, int b, const std::function<double(double)> & f, const std::vector<double> & kinks, double & mag, int only = -1) {
  std::vector<double> gx, gw; gauss(48, gx, gw); size_t n = e.nbf(); MatD M = MatD::Zero(n, n), Ma = M;
  for (int iel = 0; iel < e.nel(); iel++) {
    if (only >= 0 && iel != only) continue;
    std::vector<double> cut = {-1}; for (double k : kinks) { double x = (k - 0.5 * (e.b[iel] + e.b[iel + 1])) / (0.5 * (e.b[iel + 1] - e.b[iel])); if (x > -1 && x < 1) cut.push_back(x); } cut.push_back(1); std::sort(cut.begin(), cut.end());
    for (size_t q = 0; q + 1 < cut.size(); q++) {
      std::vector<double> xs; for (double g : gx) xs.push_back(0.5 * (cut[q] + cut[q + 1]) + 0.5 * (cut[q + 1] - cut[q]) * g);
      MatD A = e.eval(xs, a, iel), B = e.eval(xs, b, iel);
      for (size_t i = 0; i < xs.size(); i++) A.row(i) *= gw[i] * 0.5 * (cut[q + 1] - cut[q]) * 0.5 * (e.b[iel + 1] - e.b[iel]) * f(e.coord(xs[i], iel));
      M += A.transpose() * B; Ma += A.cwiseAbs().transpose() * B.cwiseAbs();
    }
  }
  mag = std::max(Ma.size() ? Ma.maxCoeff() : 0.0, 1e-12);   // magnitude of the integrand, the scale of rounding errors
  return M;
}
VT_CHECK(matrix_elements, 8000, 100000, "at least two elements and a non-constant weight") {
  FEspec e = draw(s, 4, 8); labels(c, e); auto fe = e.make(); Smooth f = smooth(s); int a = s.range(0, 2), b = s.range(0, 2); std::vector<double> kinks; if (s.flag(1, 3)) kinks.push_back(s.real(e.b.front(), e.b.back()));
  std::function<double(double)> w = [&](double r) { double v = f(r); for (double k : kinks) v += std::abs(r - k); return v; };
  c.nontrivial = e.nel() > 1; c.d("%s <d%d|%s%s|d%d>", e.str().c_str(), a, f.str().c_str(), kinks.empty() ? "" : vt::fmt("+|r-%.6g|", kinks[0]).c_str(), b); c.label("kink", kinks.size());
  c.label("der", vt::fmt("%d%d", a, b));
  double mag; MatD want = ref_matrix(e, a, b, w, kinks, mag); double tol = 1e-10 * mag;
  same(c, fe.matrix_element(a, b, w, kinks), want, tol, "self-converging matrix element");
  auto la = [&](VecD x, size_t iel) { return fe.eval_dnf(x, a, iel); }; auto lb = [&](VecD x, size_t iel) { return fe.eval_dnf(x, b, iel); };
  same(c, fe.matrix_element_auto(la, lb, w, kinks), want, tol, "self-converging matrix element with evaluators");
  if (kinks.empty()) {
    std::vector<double> gx, gw; gauss(40, gx, gw);
    same(c, fe.matrix_element(a, b, tovec(gx), tovec(gw), w), want, tol, "matrix element with a supplied rule"); same(c, fe.matrix_element(la, lb, tovec(gx), tovec(gw), w), want, tol, "matrix element with evaluators and a supplied rule");
    double mag1; MatD w1 = ref_matrix(e, a, b, [](double) { return 1.0; }, {}, mag1); same(c, fe.matrix_element(a, b, tovec(gx), tovec(gw), nullptr), w1, 1e-10 * mag1, "matrix element with unit weight");
    VecD v = fe.vector_element(a, tovec(gx), tovec(gw), w);
    double vm = 1e-12, um = 1e-12; for (int iel = 0; iel < e.nel(); iel++) { MatD A = e.eval(gx, a, iel); for (size_t i = 0; i < gx.size(); i++) { double h = (e.b[iel + 1] - e.b[iel]) * A.row(i).cwiseAbs().maxCoeff(); um = std::max(um, h); vm = std::max(vm, h * std::abs(w(e.coord(gx[i], iel)))); } }
    VecD vr = VecD::Zero(e.nbf()); for (int iel = 0; iel < e.nel(); iel++) { MatD A = e.eval(gx, a, iel); for (size_t i = 0; i < gx.size(); i++) vr += gw[i] * 0.5 * (e.b[iel + 1] - e.b[iel]) * w(e.coord(gx[i], iel)) * A.row(i).transpose(); }
    same(c, v, vr, 1e-10 * vm, "vector element"); same(c, fe.vector_element(la, tovec(gx), tovec(gw), w), vr, 1e-10 * vm, "vector element with evaluator");
    same(c, fe.vector_element(a, tovec(gx), tovec(gw), nullptr).transpose(), ([&] { VecD u = VecD::Zero(e.nbf()); for (int iel = 0; iel < e.nel(); iel++) { MatD A = e.eval(gx, a, iel); for (size_t i = 0; i < gx.size(); i++) u += gw[i] * 0.5 * (e.b[iel + 1] - e.b[iel]) * A.row(i).transpose(); } return u.transpose().eval(); })(), 1e-10 * um, "vector element with unit weight");
  }
  int iel = s.range(0, e.nel() - 1); size_t i0, i1; fe.get_idx(iel, i0, i1);
  if (fe.get_nprim(iel)) {
    double ml; MatD wl = ref_matrix(e, a, b, w, kinks, ml, iel).block(i0, i0, i1 - i0 + 1, i1 - i0 + 1);
    same(c, fe.matrix_element(iel, a, b, w, kinks), wl, 1e-10 * ml, "single-element matrix element");
    // sub-range of the element
    double x0 = s.real(-1, 0.5), x1 = s.real(x0 + 0.1, 1); std::vector<double> gx, gw; gauss(48, gx, gw); MatD sub = MatD::Zero(i1 - i0 + 1, i1 - i0 + 1);
    std::vector<double> xs; for (double g : gx) xs.push_back(0.5 * (x0 + x1) + 0.5 * (x1 - x0) * g); MatD A = fe.eval_dnf(tovec(xs), a, iel), B = fe.eval_dnf(tovec(xs), b, iel);
    for (size_t i = 0; i < xs.size(); i++) sub += gw[i] * 0.5 * (x1 - x0) * 0.5 * (e.b[iel + 1] - e.b[iel]) * f(e.coord(xs[i], iel)) * A.row(i).transpose() * B.row(i);
    same(c, fe.matrix_element_auto(iel, la, lb, f, {}, -1, x0, x1), sub, 1e-10 * ml, "matrix element on part of an element");
  }
}
// polynomial weights with the degree hint
VT_CHECK(polynomial_weight, 3000, 30000, "weight degree >= 1") {
  FEspec e = draw(s, 3, 7); labels(c, e); auto fe = e.make(); int d = s.range(0, 9); double co = s.sym(1); c.nontrivial = d >= 1; c.d("%s weight (r%+.4g)^%d with degree hint", e.str().c_str(), co, d);
  std::function<double(double)> w = [&](double r) { return std::pow(r + co, d); }; int a = s.range(0, 1), b = s.range(0, 1);
  double mag; MatD want = ref_matrix(e, a, b, w, {}, mag); same(c, fe.matrix_element(a, b, w, {}, d), want, 1e-10 * mag, "matrix element of a polynomial weight"); c.label("degree", d);
}
VT_CHECK(refinement, 5000, 80000, "at least one boundary inserted strictly inside an element") {
  FEspec e = draw(s, 3, 6); labels(c, e); auto fe = e.make(); auto old = fe; std::vector<double> b = e.b; int k = s.range(1, 4); std::string ops;
  for (int i = 0; i < k; i++) { double r; if (s.flag(1, 4)) r = b[s.draw(b.size())]; else { int j = s.range(0, (int) b.size() - 2); r = b[j] + (b[j + 1] - b[j]) * s.real(0.15, 0.85); }
    fe.add_boundary(r); ops += vt::fmt(" %.6g", r); if (std::find(b.begin(), b.end(), r) == b.end()) { b.push_back(r); std::sort(b.begin(), b.end()); c.nontrivial = true; } }
  c.d("%s insert%s", e.str().c_str(), ops.c_str());
  FEspec n = e; n.b = b; VecD nb = fe.get_bval(); c.ok(nb.size() == (int) b.size(), vt::fmt("%ld boundaries after insertion, expected %zu", (long) nb.size(), b.size())); for (size_t i = 0; i < b.size(); i++) c.ok(nb(i) == b[i], "boundary list after insertion");
  check_numbering(c, n, fe);
  // collocate: every old function is a combination of the new ones
  std::vector<double> xs; for (int i = 0; i < 2 * e.N * (e.order() + 1) + 2; i++) xs.push_back(-std::cos(M_PI * (i + 0.5) / (2 * e.N * (e.order() + 1) + 2)));
  int np = (int) xs.size() * n.nel(); MatD A(np, fe.get_nbf()), B(np, old.get_nbf()); A.setZero(); B.setZero();
  for (int iel = 0; iel < n.nel(); iel++) { A.middleRows(iel * xs.size(), xs.size()) = global_eval(fe, tovec(xs), 0, iel);
    for (size_t i = 0; i < xs.size(); i++) { double r = n.coord(xs[i], iel); int o = 0; double mid = n.coord(0, iel); while (o + 1 < e.nel() && mid > e.b[o + 1]) o++; VecD x(1); x(0) = std::min(1.0, std::max(-1.0, (r - 0.5 * (e.b[o] + e.b[o + 1])) / (0.5 * (e.b[o + 1] - e.b[o])))); B.row(iel * xs.size() + i) = global_eval(old, x, 0, o).row(0); } }
  VecD sc = A.cwiseAbs().colwise().maxCoeff().transpose(); for (int j = 0; j < A.cols(); j++) if (sc(j) > 0) A.col(j) /= sc(j);
  MatD X = A.colPivHouseholderQr().solve(B); MatD res = A * X - B;
  samer(c, A * X, B, 1e-7, "old functions expressed in the refined basis");
}
VT_CHECK(refusal, 200, 1000, "always") {
  c.nontrivial = true; Fam f = fam((int) s.draw(7)); int N = s.range(2, 6); c.d("%s N=%d without boundaries", f.name, N);
  c.throws([&] { polynomial_basis::FiniteElementBasis fe(poly(f, N), VecD(), true, false, true, false); fe.get_nbf(); }, "basis without elements");
}
VT_MAIN()
