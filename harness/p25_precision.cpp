// LIBS: core general checkpoint atomic diatomic
// P25: the same quantity at three scalar types: agreement to the narrower type's accuracy, and
// quadruple-precision oracles for the widest.
#include "gen.h"
#include <helfem.h>
#include <RadialBasis.h>
#include <FiniteElementBasis.h>
#include <PolynomialBasis.h>
#include <chebyshev.h>
#include <lobatto.h>
#include <erfc_expn.h>
#include <utils.h>
#include <CoulombExchangeFE.h>
#include <general/gaunt.h>
#include <general/model_potential.h>
#include <atomic/TwoDBasis.h>
#include <Eigen/Eigenvalues>
#include <limits>
#include <cmath>
using namespace helfem;
typedef long double L; typedef _Float128 Q;
template <class T> using M = helfem::Mat<T>; template <class T> using V = helfem::Vec<T>;
template <class T> static Q eps() { return (Q) std::numeric_limits<T>::epsilon(); }
static Q qabs(Q a) { return a < 0 ? -a : a; }
static double dd(Q a) { return (double) a; }
// a list of named blocks of values
struct Out { double unit = 0; std::vector<std::string> name; std::vector<std::vector<Q>> v; std::vector<double> slack;
  template <class D> void add(const std::string & n, const Eigen::MatrixBase<D> & m, double k = 1) { name.push_back(n); std::vector<Q> x; for (Eigen::Index j = 0; j < m.cols(); j++) for (Eigen::Index i = 0; i < m.rows(); i++) x.push_back((Q) m(i, j)); v.push_back(x); slack.push_back(k); }
  template <class T> void one(const std::string & n, T x, double k = 1) { name.push_back(n); v.push_back({(Q) x}); slack.push_back(k); } };
static std::map<std::string, double> worst;
static void note(const std::string & n, double d, double l) { const char * f = getenv("VT_FD"); if (!f) return; FILE * o = fopen(f, "a"); fprintf(o, "%s %.3g %.3g\n", n.c_str(), d, l); fclose(o); }
// double and long double against quad, in units of the type's own epsilon
static void compare(vt::Ctx & c, const Out & d, const Out & l, const Out & q, double K) {
  c.ok(d.name.size() == q.name.size() && l.name.size() == q.name.size(), "the types return the same quantities"); if (d.name.size() != q.name.size() || l.name.size() != q.name.size()) return;
  for (size_t k = 0; k < q.name.size(); k++) {
    const char * n = q.name[k].c_str(); c.ok(d.v[k].size() == q.v[k].size() && l.v[k].size() == q.v[k].size(), std::string(n) + ": same shape at every type"); if (d.v[k].size() != q.v[k].size() || l.v[k].size() != q.v[k].size()) return;
    Q sc = 0, ed = 0, el = 0; bool fin = true;
    for (size_t i = 0; i < q.v[k].size(); i++) { Q x = q.v[k][i]; if (!(x == x)) fin = false; if (qabs(x) > sc) sc = qabs(x); Q a = qabs(d.v[k][i] - x), b = qabs(l.v[k][i] - x); if (!(a <= ed)) ed = a; if (!(b <= el)) el = b; }
    if (sc < q.unit) sc = q.unit; if (sc == 0) sc = 1; double rd = dd(ed / sc / eps<double>()), rl = dd(el / sc / eps<L>()); double lim = K * q.slack[k]; note(n, rd / lim, rl / lim); c.evals += 2;
    c.ok(fin, std::string(n) + ": finite"); if (!(rd <= lim)) c.fail(vt::fmt("%s at double differs from quad by %.4g units of double precision (limit %.4g)", n, rd, lim));
    if (!(rl <= lim)) c.fail(vt::fmt("%s at long double differs from quad by %.4g units of long double precision (limit %.4g)", n, rl, lim));
  }
}
static void qclose(vt::Ctx & c, Q a, Q b, Q sc, double K, const char * what) { c.evals++; double r = dd(qabs(a - b) / (sc * eps<Q>())); note(std::string("quad:") + what, r / K, 0); if (!(r <= K)) c.fail(vt::fmt("%s at quad precision: off by %.4g units of quad precision (limit %.4g)", what, r, K)); }
// Gauss-Legendre at quad precision
static void qgauss(int N, std::vector<Q> & x, std::vector<Q> & w) { static std::map<int, std::pair<std::vector<Q>, std::vector<Q>>> cache; auto & e = cache[N]; if (e.first.empty()) for (int i = 0; i < N; i++) { Q z = (Q) cosl(M_PIl * (i + 0.75L) / (N + 0.5L)), dp = 1; for (int it = 0; it < 6; it++) { Q p0 = 1, p1 = z; for (int k = 1; k < N; k++) { Q p2 = ((2 * k + 1) * z * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } if (N == 1) p0 = 1; dp = N * (z * p1 - p0) / (z * z - 1); z -= p1 / dp; } e.first.push_back(z); e.second.push_back(2 / ((1 - z * z) * dp * dp)); } x = e.first; w = e.second; }

static const int FAM[] = {3, 4, 5, 8, 9};
template <class T> static Out shapes(int pb, int n, const std::vector<double> & x, double h) {
  Out o; std::unique_ptr<polynomial_basis::PolynomialBasisT<T>> p(polynomial_basis::get_basis_T<T>(pb, n)); V<T> xx(x.size()); for (size_t i = 0; i < x.size(); i++) xx(i) = T(x[i]);
  int nd = pb == 3 ? 2 : 3; double grow = 1; for (int k = 0; k <= nd; k++) { M<T> f; p->eval_dnf(xx, f, k, T(h)); o.add("derivative " + std::to_string(k), f, grow); grow *= 8; }
  return o;
}
VT_CHECK(shape_functions, 1200, 12000, "more than two nodes") {
  int pb = FAM[s.draw(5)]; int n = s.range(pb == 3 ? 3 : 2, pb <= 4 ? 20 : pb == 5 ? 10 : 7); std::vector<double> x; for (int i = 0; i < 7; i++) x.push_back(i == 0 ? -1 : i == 1 ? 1 : s.sym(1)); double h = s.logreal(1e-2, 10);
  c.d("family %d nodes %d half-length %.6g", pb, n, h); c.label("family", pb); c.nontrivial = n > 2;
  Out d = shapes<double>(pb, n, x, h), l = shapes<L>(pb, n, x, h), q = shapes<Q>(pb, n, x, h); compare(c, d, l, q, pb <= 4 ? 120.0 * n * n : 600.0 * n * n * n);
  // reproduction of a polynomial the family contains, at quad precision
  std::unique_ptr<polynomial_basis::PolynomialBasisT<Q>> p(polynomial_basis::get_basis_T<Q>(pb, n)); int m = pb <= 4 ? 0 : pb == 5 ? 1 : pb == 8 ? 2 : 3;
  if (pb != 3) { V<Q> nx, nw; lobatto::lobatto_compute<Q>(n, nx, nw); int deg = std::min(n * (m + 1) - 1, 12); std::vector<Q> co; for (int k = 0; k <= deg; k++) co.push_back((Q) s.sym(1));
    auto ev = [&](Q t, int der) { Q r = 0; for (int k = deg; k >= der; k--) { Q f = 1; for (int a = 0; a < der; a++) f *= k - a; r = r * t + co[k] * f; } return r; };   // Horner on the derivative
    V<Q> xx(x.size()); for (size_t i = 0; i < x.size(); i++) xx(i) = x[i]; M<Q> f0, f1; p->eval_dnf(xx, f0, 0, Q(1)); p->eval_dnf(xx, f1, 1, Q(1)); double K = (pb <= 4 ? 300.0 : 3000.0) * n * n * n;
    c.ok(f0.cols() == n * (m + 1), "number of functions"); if (f0.cols() != n * (m + 1)) return;
    for (size_t i = 0; i < x.size(); i++) { Q a = 0, b = 0, sa = 0, sb = 0; for (int j = 0; j < n; j++) for (int k = 0; k <= m; k++) { Q w = ev(nx(j), k); a += w * f0(i, j * (m + 1) + k); b += w * f1(i, j * (m + 1) + k); sa += qabs(w * f0(i, j * (m + 1) + k)); sb += qabs(w * f1(i, j * (m + 1) + k)); } qclose(c, a, ev(xx(i), 0), sa + 1, K, "reproduction of a polynomial"); qclose(c, b, ev(xx(i), 1), sb + 1, K, "reproduction of its derivative"); } }
  else { V<Q> xx(x.size()); for (size_t i = 0; i < x.size(); i++) xx(i) = x[i]; M<Q> f0; p->eval_dnf(xx, f0, 0, Q(1)); for (size_t i = 0; i < x.size(); i++) { Q p0 = 1, p1 = xx(i); qclose(c, f0(i, 0) + f0(i, f0.cols() - 1), 1, 1, 50, "end functions add up to one"); (void) p0; (void) p1; } }
}
template <class T> static Out rules(int n) { Out o; o.unit = 1; V<T> x, w; chebyshev::chebyshev<T>(n, x, w); o.add("Chebyshev nodes", x); o.add("Chebyshev weights", w); chebyshev::radial_chebyshev<T>(n, x, w); o.add("radial nodes", x, 10.0 * n * n * n); if (n >= 2) { lobatto::lobatto_compute<T>(n, x, w); o.add("Lobatto nodes", x); o.add("Lobatto weights", w); } return o; }
VT_CHECK(quadrature_rules, 60, 400, "more than two points") {
  int n = s.range(1, 90); c.d("%d points", n); c.nontrivial = n > 2; compare(c, rules<double>(n), rules<L>(n), rules<Q>(n), 30.0 * n);
  V<Q> x, w; chebyshev::chebyshev<Q>(n, x, w); Q pi = std::acos(Q(-1)); qclose(c, utils::pi<Q>(), pi, 3, 2, "pi"); qclose(c, utils::two_over_sqrtpi<Q>(), 2 / std::sqrt(pi), 1, 4, "2/sqrt(pi)"); c.close(dd(w.sum()), 2, n < 3 ? 1 : 1e-4, 0, "weights add up to the length");
  for (int i = 1; i <= n; i++) { Q a = pi * i / (n + 1), si = std::sin(a), co = std::cos(a); qclose(c, x(n - i), 1 - Q(2 * i) / (n + 1) + 2 / pi * (1 + si * si * 2 / 3) * co * si, 1, 40, "Chebyshev node"); qclose(c, w(n - i), 16 * si * si * si * si / 3 / (n + 1), 1, 40, "Chebyshev weight"); }
  if (n >= 2) { lobatto::lobatto_compute<Q>(n, x, w); for (int k = 0; k <= std::min(2 * n - 3, 60); k++) { Q t = 0; for (int i = 0; i < n; i++) { Q m = w(i); for (int j = 0; j < k; j++) m *= x(i); t += m; } qclose(c, t, k % 2 ? Q(0) : Q(2) / (k + 1), 1, 60.0 * n, "Lobatto rule is exact for monomials"); } }
}
template <class T> static Out special(int n, double X, double x) { Out o; o.one("screened multipole", erfc_expn::Phi<T>(n, T(X), T(x)), 1); o.one("i", utils::bessel_il<T>(T(x), n), 1); o.one("k", utils::bessel_kl<T>(T(X), n), 1); return o; }
VT_CHECK(special_functions, 6000, 60000, "order above zero") {
  int n = s.range(0, 8); double X = s.logreal(1e-2, 6), x = X * s.real(0.02, 1); if (s.flag(1, 4)) { X = s.real(0.3, 0.7); x = X * s.real(0.3, 1); } c.d("order %d at (%.12g, %.12g)", n, X, x); c.nontrivial = n > 0;
  // the screened multipole loses digits by cancellation by design when its arguments are small or close: only the Bessel functions get tight limits
  Out d = special<double>(n, X, x), l = special<L>(n, X, x), q = special<Q>(n, X, x); double r = std::min(1.0, X), am = 1; for (int k = 1; k <= n; k++) am *= (2 * k + 1) / std::max(0.05, std::min(0.4, x)); (void) r; (void) am; 
  for (Out * o : {&d, &l, &q}) { o->slack[0] = std::max(1.0, 1e-16 * 0 + 1); o->slack[1] = 40 + 4 * n + 2 * x; if (x >= 0.5) for (int k = 0; k < n; k++) o->slack[1] *= std::max(1.0, (2 * k + 1) / x); o->slack[2] = 20 + 4 * n; }
  { // cancellation measured by the double result itself, and required to shrink in proportion to the type
    Q ed = qabs(d.v[0][0] - q.v[0][0]), el = qabs(l.v[0][0] - q.v[0][0]), sc = qabs(q.v[0][0]); double rd = dd(ed / sc / eps<double>()), rl = dd(el / sc / eps<L>()); note("multipole double", rd, rl); double cd = std::max(n, 1); for (int k = 1; k <= 2 * n; k++) cd *= k; double z = std::min(0.8, 2 * X * x); cd = (200 + 100 * cd / std::pow(z, n + 0.0) / std::pow(std::max(x, 0.4), n)) * 3 * (1 + X * X);
    c.evals += 2; for (Out * o : {&d, &l, &q}) o->slack[0] = cd; /* the small-argument series stops at an absolute accuracy of eps before it is divided by X^(n+1) */ if (x < 0.4) for (Out * o : {&d, &l, &q}) o->slack[0] *= std::max(1.0, dd(Q(1) / (std::pow(Q(X), n + 1) * sc))); if (x < 1e-3 * X) throw vt::Reject(); }
  compare(c, d, l, q, 1);
  // quad oracles: k by its stable recursion, i by its power series, Wronskian
  Q z = X, k0 = std::exp(-z) / z, k1 = std::exp(-z) * (1 + z) / (z * z), kn = n == 0 ? k0 : k1; for (int k = 1; k < n; k++) { Q k2 = k0 + (2 * k + 1) * k1 / z; k0 = k1; k1 = k2; kn = k2; }
  qclose(c, utils::bessel_kl<Q>(z, n), kn, qabs(kn), 60 + 10 * n, "k"); Q y = x, t = 1, sum = 0; for (int k = 1; k <= n; k++) t *= y / (2 * k + 1); for (int k = 0; k < 400; k++) { sum += t; t *= y * y / (2 * (k + 1)) / (2 * n + 2 * k + 3); if (t < sum * eps<Q>() / 100) break; }
  qclose(c, utils::bessel_il<Q>(y, n), sum, sum, l.slack[1] * 10, "i");
  if (n == 0) { Q a = X, b = x; // n=0: 1/(2Xx) int_{X-x}^{X+x} erfc(R) dR
    std::vector<Q> gx, gw; qgauss(60, gx, gw); Q lo = a - b, hi = a + b, S = 0; int np = std::max(2, (int) std::ceil(2 * x)); for (int p = 0; p < np; p++) { Q u = lo + (hi - lo) * p / np, v = lo + (hi - lo) * (p + 1) / np; for (size_t i = 0; i < gx.size(); i++) S += gw[i] * (v - u) / 2 * std::erfc((u + v) / 2 + (v - u) / 2 * gx[i]); } S /= 2 * a * b; qclose(c, erfc_expn::Phi<Q>(0, a, b), S, std::max(S, 1 / a), 1e6, "screened monopole"); }
}
template <class T> static Out gaunts(int Lm, int lm, const std::vector<std::array<int, 5>> & t) { Out o; gaunt::GauntT<T> g(Lm, lm, lm); V<T> a(t.size()), b(t.size()); for (size_t i = 0; i < t.size(); i++) { a(i) = g.coeff(t[i][0], t[i][1], t[i][2], t[i][3], t[i][4]); b(i) = gaunt::gaunt_coefficient_T<T>(t[i][0], t[i][1], t[i][2], t[i][3], t[i][4], t[i][1] - t[i][3]); } o.add("tabulated couplings", a); o.add("couplings", b); return o; }
VT_CHECK(angular_couplings, 400, 4000, "a nonzero coupling") {
  int lm = s.range(0, 6), Lm = 2 * lm; std::vector<std::array<int, 5>> t; for (int i = 0; i < 12; i++) { int l = s.range(0, lm), lp = s.range(0, lm), LL = s.range(std::abs(l - lp), l + lp), m = s.range(-l, l), mp = s.range(-lp, lp); if (std::abs(m + mp) > LL) continue; t.push_back({LL, m + mp, l, m, lp}); } if (t.empty()) throw vt::Reject();
  c.d("lmax %d, %zu couplings", lm, t.size()); Out q = gaunts<Q>(Lm, lm, t); for (Q x : q.v[0]) if (x != 0) c.nontrivial = true; compare(c, gaunts<double>(Lm, lm, t), gaunts<L>(Lm, lm, t), q, 4); for (size_t i = 0; i < t.size(); i++) qclose(c, q.v[0][i], q.v[1][i], 1, 2, "table against direct value");
  int l = s.range(0, lm), lp = s.range(0, lm); Q pi = std::acos(Q(-1)), S = 0; for (int k = std::abs(l - lp); k <= l + lp; k++) S += gaunt::gaunt_coefficient_T<Q>(k, 0, l, 0, lp, 0) * std::sqrt(Q(2 * k + 1) / (4 * pi)); Q w = std::sqrt(Q((2 * l + 1) * (2 * lp + 1))) / (4 * pi); qclose(c, S, w, w, 30, "couplings add up at the pole");
}
struct Rad { int pb, n, nq; std::vector<double> b; std::string str() const { std::string t = vt::fmt("family %d nodes %d nquad %d boundaries", pb, n, nq); for (double x : b) t += vt::fmt(" %.6g", x); return t; } };
static Rad radial(vt::Source & s, int maxel, bool small) { Rad r; r.pb = FAM[s.draw(5)]; r.n = s.range(r.pb == 3 ? 3 : 2, small ? (r.pb <= 4 ? 6 : r.pb == 5 ? 3 : 2) : (r.pb <= 4 ? 10 : r.pb == 5 ? 5 : r.pb == 8 ? 4 : 3)); int ne = s.range(2, maxel); r.b.push_back(0); for (int i = 0; i < ne; i++) r.b.push_back(r.b.back() + s.real(0.3, 2.5)); int nf = r.pb <= 4 ? r.n : r.n * (r.pb == 5 ? 2 : r.pb == 8 ? 3 : 4); r.nq = 2 * nf + s.range(6, 30); return r; }
namespace ab = helfem::atomic::basis; namespace pbs = helfem::polynomial_basis;
template <class T> static pbs::FiniteElementBasisT<T> fe(const Rad & r) { std::shared_ptr<const pbs::PolynomialBasisT<T>> p(pbs::get_basis_T<T>(r.pb, r.n)); V<T> b(r.b.size()); for (size_t i = 0; i < r.b.size(); i++) b(i) = T(r.b[i]); return pbs::FiniteElementBasisT<T>(p, b, true, false, true, false); }
template <class T> static V<T> cast(const std::vector<double> & x) { V<T> r(x.size()); for (size_t i = 0; i < x.size(); i++) r(i) = T(x[i]); return r; }
template <class T> static Out oneel(const Rad & r, const Rad & r2, double lam, double Rrms, int Z, int pw, double rh, int Lo, double x) {
  Out o; auto f = fe<T>(r); ab::FEMRadialBasisT<T> b(f, r.nq), b2(fe<T>(r2), r2.nq);
  o.add("overlap", b.overlap()); o.add("kinetic", b.kinetic()); o.add("centrifugal", b.kinetic_l(), 4); o.add("nuclear", b.nuclear()); o.add("cross-basis overlap", b.overlap(b2), 4);
  for (size_t ie = 0; ie < b.Nel(); ie++) { std::string e = " in element " + std::to_string(ie); (void) e; o.add("<r^n>", b.radial_integral(pw, ie), 20); o.add("spherical potential", b.spherical_potential(ie), 20);
    o.add("i_L integral", b.bessel_il_integral(Lo, T(lam), ie), 100); o.add("k_L integral", b.bessel_kl_integral(std::min(Lo, 1), T(lam), ie), 100); }
  for (int m = 0; m < 5; m++) { std::unique_ptr<modelpotential::ModelPotentialT<T>> n(modelpotential::get_nuclear_model<T>((modelpotential::nuclear_model_t) m, Z, T(Rrms))); V<T> v(4); for (int i = 0; i < 4; i++) v(i) = n->V(T(x) * T(1 << (2 * i))); o.add("nuclear model " + std::to_string(m), v, m == 4 ? 1000 : 20); }
  V<T> c(b.Nbf()); for (int i = 0; i < c.size(); i++) c(i) = T(1) / T(i + 1); M<T> C = c; o.add("orbital", b.eval_orbs(C, T(x)), 200); return o; }
VT_CHECK(radial_operators, 160, 1500, "at least two elements with more than two functions") {
  Rad r = radial(s, 4, false), r2 = radial(s, 3, false); r2.b.back() = r.b.back(); if (r2.b[r2.b.size() - 2] >= r2.b.back()) throw vt::Reject(); double lam = s.logreal(0.1, 3), Rrms = s.logreal(1e-5, 0.3), rh = r.b[s.range(1, (int) r.b.size() - 1)]; int Z = s.range(1, 40), pw = s.range(0, 4), Lo = s.range(0, 4); double x = r.b.back() * s.real(0.001, 0.015);
  c.d("%s; other %s; lambda %.6g Rrms %.6g Z %d <r^%d> L=%d r=%.6g", r.str().c_str(), r2.str().c_str(), lam, Rrms, Z, pw, Lo, x); c.nontrivial = r.n > 2 && r.b.size() > 2;
  Out q = oneel<Q>(r, r2, lam, Rrms, Z, pw, rh, Lo, x); compare(c, oneel<double>(r, r2, lam, Rrms, Z, pw, rh, Lo, x), oneel<L>(r, r2, lam, Rrms, Z, pw, rh, Lo, x), q, 300);
  // at quad: exact Gauss-Legendre integration of the basis functions
  auto f = fe<Q>(r); ab::FEMRadialBasisT<Q> b(f, r.nq); int n = (int) f.get_nbf(); M<Q> S = M<Q>::Zero(n, n), T = S, N = S, TL = S; std::vector<Q> gx, gw; qgauss(50, gx, gw); V<Q> xx(50), ww(50); for (int i = 0; i < 50; i++) { xx(i) = gx[i]; ww(i) = gw[i]; }
  for (size_t ie = 0; ie < f.get_nelem(); ie++) for (int pn = 0, np = ie == 0 ? 1 : 4; pn < np; pn++) { size_t a, e; f.get_idx(ie, a, e); V<Q> xp = xx; if (np > 1) for (int i = 0; i < 50; i++) xp(i) = Q(-1) + Q(2 * pn + 1) / Q(np) + xx(i) / Q(np); M<Q> u = f.eval_dnf(xp, 0, ie), d = f.eval_dnf(xp, 1, ie), R; Q h = (Q(r.b[ie + 1]) - Q(r.b[ie])) / 2; if (ie == 0) R = f.eval_over_r(xp, 0, ie); else { R = u; for (int i = 0; i < R.rows(); i++) R.row(i) /= Q(r.b[ie]) + h * (1 + xp(i)); } V<Q> w = ww * (h / Q(np)); S.block(a, a, e - a + 1, e - a + 1) += u.transpose() * w.asDiagonal() * u; T.block(a, a, e - a + 1, e - a + 1) += Q(0.5) * d.transpose() * w.asDiagonal() * d; N.block(a, a, e - a + 1, e - a + 1) -= u.transpose() * w.asDiagonal() * R; TL.block(a, a, e - a + 1, e - a + 1) += Q(0.5) * R.transpose() * w.asDiagonal() * R; }
  auto mx = [&](const M<Q> & A, const M<Q> & B, const char * t) { Q e = 0, sc = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { e = std::max(e, qabs(A(i, j) - B(i, j))); sc = std::max(sc, qabs(B(i, j))); } qclose(c, e, 0, sc, 20000, t); };
  mx(b.overlap(), S, "overlap"); mx(b.kinetic(), T, "kinetic"); mx(b.nuclear(), N, "nuclear"); mx(b.kinetic_l(), TL, "centrifugal");
  // nuclear models at quad
  Q R0 = Rrms, y = Q(x) * 4; { std::unique_ptr<modelpotential::ModelPotentialT<Q>> g(modelpotential::get_nuclear_model<Q>(modelpotential::GAUSSIAN_NUCLEUS, Z, R0)); Q w = -Z * std::erf(std::sqrt(Q(1.5)) / R0 * y) / y; qclose(c, g->V(y), w, qabs(w), 100, "Gaussian nucleus"); }
  { std::unique_ptr<modelpotential::ModelPotentialT<Q>> g(modelpotential::get_nuclear_model<Q>(modelpotential::SPHERICAL_NUCLEUS, Z, R0)); Q R = R0 * std::sqrt(Q(5) / 3), w = y >= R ? -Z / y : -Z / (2 * R) * (3 - y * y / R / R); qclose(c, g->V(y), w, qabs(w), 100, "spherical nucleus"); }
}
template <class T> static Out twoel(const Rad & r, int Lo, double lam, double mu, const std::vector<double> & rnd) {
  Out o; ab::FEMRadialBasisT<T> b(fe<T>(r), r.nq); size_t ne = b.Nel();
  for (size_t ie = 0; ie < ne; ie++) { M<T> t = b.twoe_integral(Lo, ie); o.add("Coulomb", t, 1); o.add("exchange order", utils::exchange_tei<T>(t, b.Nprim(ie), b.Nprim(ie), b.Nprim(ie), b.Nprim(ie)), 1); o.add("Yukawa", b.yukawa_integral(Lo, T(lam), ie), 1000);
    T tol = T(1e-12) * std::numeric_limits<T>::epsilon() / T(std::numeric_limits<double>::epsilon()); M<T> ch = b.twoe_integral_cholesky(Lo, ie, tol); M<T> cc = ch * ch.transpose(); auto sl = [](const M<T> & A) { Q m = 0; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) m = std::max(m, qabs((Q) A(i, j))); return 100 + 20 / dd(m); }; o.add("Cholesky", cc, sl(cc)); M<T> yc = b.yukawa_integral_cholesky(Lo, T(lam), ie, tol), yy = yc * yc.transpose(); o.add("Yukawa Cholesky", yy, 1000 + sl(yy)); }
  return o; }
VT_CHECK(radial_two_electron, 40, 500, "order above zero and at least two elements") {
  Rad r = radial(s, 3, true); int Lo = s.range(0, 5); double lam = s.logreal(0.2, 2), mu = s.logreal(0.3, 1.5); c.d("%s L=%d lambda %.6g", r.str().c_str(), Lo, lam); c.nontrivial = Lo > 0; std::vector<double> rnd;
  Out q = twoel<Q>(r, Lo, lam, mu, rnd); compare(c, twoel<double>(r, Lo, lam, mu, rnd), twoel<L>(r, Lo, lam, mu, rnd), q, 5000);
  // quad: nested integration by subdivision; in the first element everything is polynomial, so the nested rule is exact
  ab::FEMRadialBasisT<Q> b(fe<Q>(r), r.nq); auto f = fe<Q>(r); size_t a, e; f.get_idx(0, a, e); int n = (int) (e - a + 1), g = 40; std::vector<Q> gx, gw; qgauss(g, gx, gw); V<Q> xx(g); for (int i = 0; i < g; i++) xx(i) = gx[i]; Q h = Q(r.b[1]) / 2; M<Q> G = M<Q>::Zero(n * n, n * n), uo = f.eval_dnf(xx, 0, 0);
  for (int p = 0; p < g; p++) { Q R = h * (1 + gx[p]); V<Q> z(g); for (int i = 0; i < g; i++) z(i) = -1 + (1 + gx[p]) * (1 + gx[i]) / 2; M<Q> ui = f.eval_dnf(z, 0, 0); V<Q> in = V<Q>::Zero(n * n), out(n * n); for (int i = 0; i < g; i++) { Q rr = h * (1 + z(i)), w = gw[i] * R / 2; for (int k = 0; k < Lo; k++) w *= rr / R; for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) in(k * n + l) += w * ui(i, k) * ui(i, l); } for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) out(k * n + l) = uo(p, k) * uo(p, l) * gw[p] * h / R; G += out * in.transpose(); }
  M<Q> W = G + G.transpose(), T = b.twoe_integral(Lo, 0); Q fac = 4 * std::acos(Q(-1)) / (2 * Lo + 1), er1 = 0, er2 = 0, sc = 0; for (int i = 0; i < n * n; i++) for (int j = 0; j < n * n; j++) { sc = std::max(sc, qabs(W(i, j))); er1 = std::max(er1, qabs(T(i, j) - W(i, j))); er2 = std::max(er2, qabs(T(i, j) - fac * W(i, j))); } qclose(c, std::min(er1, er2), 0, sc, 2e5, "in-element Coulomb");
  M<Q> ch = b.twoe_integral_cholesky(Lo, 0, eps<Q>() * 1000), d = ch * ch.transpose() - T; Q m = 0; for (int i = 0; i < n * n; i++) for (int j = 0; j < n * n; j++) m = std::max(m, qabs(d(i, j))); qclose(c, m, 0, sc, 5e4, "Cholesky factors at quad");
}
template <class T> static Out erfcs(const Rad & r, int Lo, double mu) { Out o; ab::FEMRadialBasisT<T> b(fe<T>(r), r.nq); for (size_t i = 0; i < b.Nel(); i++) for (size_t j = 0; j <= i; j++) o.add("erfc block", b.erfc_integral(Lo, T(mu), i, j), 1); return o; }
VT_CHECK(radial_erfc, 12, 100, "at least two elements") {
  Rad r = radial(s, 2, true); if (r.pb != 4) r.pb = 4; r.n = std::min(r.n, 4); r.nq = s.range(12, 18); int Lo = s.range(0, 2); double mu = s.real(0.5, 1.5); for (size_t i = 1; i < r.b.size(); i++) r.b[i] = r.b[i - 1] + s.real(0.8, 2); c.d("%s L=%d mu=%.6g", r.str().c_str(), Lo, mu); c.nontrivial = r.b.size() > 2;
  compare(c, erfcs<double>(r, Lo, mu), erfcs<L>(r, Lo, mu), erfcs<Q>(r, Lo, mu), Lo == 0 ? 1e5 : Lo == 1 ? 1e7 : 1e9);
}
struct At { Rad r; std::vector<int> l, m; int Z, model, Zl, Zr; double Rrms, Rhalf, B, lam; std::vector<double> P; int nrad; };
template <class T> static void atom(const At & a, Out & o, Q & ortho, Q & cond, bool heavy) {
  std::shared_ptr<const pbs::PolynomialBasisT<T>> p(pbs::get_basis_T<T>(a.r.pb, a.r.n)); Eigen::VectorXi lv(a.l.size()), mv(a.l.size()); for (size_t i = 0; i < a.l.size(); i++) { lv(i) = a.l[i]; mv(i) = a.m[i]; }
  ab::TwoDBasisT<T> b(a.Z, (modelpotential::nuclear_model_t) a.model, T(a.Rrms), p, false, a.r.nq, cast<T>(a.r.b), lv, mv, a.Zl, a.Zr, T(a.Rhalf)); int n = (int) b.Nbf();
  M<T> S = b.overlap(); o.add("overlap", S); o.add("kinetic", b.kinetic()); o.add("nuclear", b.nuclear(), a.model == 4 ? 200 : 10); o.add("dipole", b.dipole_z()); o.add("quadrupole", b.quadrupole_zz()); o.add("magnetic field", b.Bz_field(T(a.B)));
  for (int ch = 0; ch < 2; ch++) { M<T> X = b.Sinvh(ch, 0), E = X.transpose() * S * X - M<T>::Identity(X.cols(), X.cols()); Q e = 0; for (int i = 0; i < E.rows(); i++) for (int j = 0; j < E.cols(); j++) e = std::max(e, qabs((Q) E(i, j))); ortho = std::max(ortho, e); if (!ch) { M<T> XX = X * X.transpose(); T t = XX.trace(); cond = (Q) t; } }
  M<T> P(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { P(i, j) = T(a.P[(i * 131 + j * 17) % a.P.size()]); P(j, i) = P(i, j); if (a.m.size() > 1 && a.m[i / a.nrad] != a.m[j / a.nrad]) P(i, j) = P(j, i) = T(0); }
  b.compute_tei(true); o.add("Coulomb", b.coulomb(P), 1000); o.add("exchange", b.exchange(P), 1000); b.compute_yukawa(T(a.lam)); o.add("screened exchange", b.rs_exchange(P), 20000);
  if (heavy) { auto df = b.radial_df_factors(T(1e-10) * std::numeric_limits<T>::epsilon() / T(std::numeric_limits<double>::epsilon())); for (auto & k : df) { M<T> R = M<T>::Zero(a.nrad * a.nrad, a.nrad * a.nrad); for (auto & Bq : k) { Eigen::Map<const V<T>> v(Bq.data(), Bq.size()); R += v * v.transpose(); } o.add("radial factors", R, 1e6); } }
}
VT_CHECK(atomic_operators, 16, 150, "more than one angular function") {
  At a; a.r = radial(s, 2, true); a.nrad = 0; { auto f = fe<double>(a.r); a.nrad = (int) f.get_nbf(); } if (a.nrad > 8) throw vt::Reject(); int na = s.range(1, 2); std::vector<std::pair<int, int>> all; for (int l = 0; l <= 2; l++) for (int m = -l; m <= l; m++) all.push_back({l, m}); while ((int) a.l.size() < na) { auto x = all[s.draw(all.size())]; bool dup = false; for (size_t i = 0; i < a.l.size(); i++) if (a.l[i] == x.first && a.m[i] == x.second) dup = true; if (!dup) { a.l.push_back(x.first); a.m.push_back(x.second); } }
  a.Z = s.range(0, 20); a.model = s.range(0, 4); a.Rrms = s.real(0.2, 0.8); a.Zl = a.model == 0 ? s.range(0, 5) : 0; a.Zr = a.model == 0 ? s.range(0, 5) : 0; a.Rhalf = a.r.b[1]; a.B = s.sym(2); a.lam = s.logreal(0.2, 2); for (int i = 0; i < 200; i++) a.P.push_back(s.sym(1)); bool heavy = a.nrad <= 4;
  c.d("%s Z=%d model %d Rrms %.6g side charges %d %d functions", a.r.str().c_str(), a.Z, a.model, a.Rrms, a.Zl, a.Zr); c.nontrivial = na > 1;
  Out d, l, q; Q od = 0, ol = 0, oq = 0, cd, cl, cq; atom<double>(a, d, od, cd, heavy); atom<L>(a, l, ol, cl, heavy); atom<Q>(a, q, oq, cq, heavy); compare(c, d, l, q, 500);
  double k = 200 * std::max(1.0, dd(cq)); note("ortho", dd(od / eps<double>()) / k, dd(ol / eps<L>()) / k); note("ortho quad", dd(oq / eps<Q>()) / k, 0); c.ok(dd(od / eps<double>()) < k, "orthonormality at double"); c.ok(dd(ol / eps<L>()) < k, "orthonormality at long double"); c.ok(dd(oq / eps<Q>()) < k, "orthonormality at quad");
}
template <class T> static long double hydrogenic(int pb, int n, int nel, double Rmax, int Z, int l, std::vector<Q> & e) {
  std::shared_ptr<const pbs::PolynomialBasisT<T>> p(pbs::get_basis_T<T>(pb, n)); V<T> b(nel + 1); for (int i = 0; i <= nel; i++) b(i) = T(std::expm1(std::log(Rmax + 1) * i / nel)); b(0) = T(0); ab::FEMRadialBasisT<T> r(pbs::FiniteElementBasisT<T>(p, b, true, false, true, false), 5 * p->get_nbf()); M<T> S = r.overlap(), H = r.kinetic() + T(l * (l + 1)) * r.kinetic_l() + T(Z) * r.nuclear(); M<T> X = helfem::utils::invh<T>(S, false), F = X.transpose() * H * X; Eigen::SelfAdjointEigenSolver<M<T>> es(F, Eigen::EigenvaluesOnly); e.clear(); for (int i = 0; i < 2; i++) e.push_back((Q) es.eigenvalues()(i)); return 0; }
VT_CHECK(hydrogenic_levels, 16, 150, "angular momentum above zero or charge above one") {
  int Z = s.range(1, 6), l = s.range(0, 2), n = s.range(10, 13), nel = s.range(5, 7); double Rmax = 120.0 / Z; int pb = s.flag() ? 4 : 3; c.d("Z=%d l=%d family %d nodes %d elements %d", Z, l, pb, n, nel); c.nontrivial = Z > 1 || l;
  std::vector<Q> d, L_, q; hydrogenic<double>(pb, n, nel, Rmax, Z, l, d); hydrogenic<L>(pb, n, nel, Rmax, Z, l, L_); hydrogenic<Q>(pb, n, nel, Rmax, Z, l, q);
  for (int i = 0; i < 2; i++) { Q ex = -Q(Z * Z) / (2 * (l + 1 + i) * (l + 1 + i)); c.ok(q[i] >= ex, "the quad level is above the exact one"); c.close(dd(q[i] / ex), 1, 1e-3, 0, "hydrogenic level"); double lim = 3e4 * Z; double a = dd(qabs(d[i] - q[i]) / eps<double>() / (Q) (Z * Z)), b = dd(qabs(L_[i] - q[i]) / eps<L>() / (Q) (Z * Z)); note("level", a / lim, b / lim); c.ok(a < lim, "the double level has double accuracy"); c.ok(b < lim, "the long double level has long double accuracy"); }
}
// the same finite-element code on the whole line, both ends closed: levels of the oscillator
template <class T> static std::vector<Q> oscillator(int pb, int n, int nel, double xmax, double w2) {
  std::shared_ptr<const pbs::PolynomialBasisT<T>> p(pbs::get_basis_T<T>(pb, n)); V<T> b(nel + 1); for (int i = 0; i <= nel; i++) b(i) = T(-xmax) + T(2 * xmax) * T(i) / T(nel); pbs::FiniteElementBasisT<T> f(p, b, true, true, true, true); V<T> x, w; chebyshev::chebyshev<T>(100, x, w);
  M<T> S = f.matrix_element(false, false, x, w, nullptr), K = f.matrix_element(true, true, x, w, nullptr), P = f.matrix_element(false, false, x, w, [w2](T t) { return T(0.5) * T(w2) * t * t; }); M<T> H = T(0.5) * K + P; Eigen::LLT<M<T>> ch(S); M<T> A = ch.matrixL().solve(H); M<T> B = ch.matrixL().solve(M<T>(A.transpose())); M<T> C = (B + B.transpose()) / T(2);
  Eigen::SelfAdjointEigenSolver<M<T>> es(C, Eigen::EigenvaluesOnly); std::vector<Q> r; for (int i = 0; i < 4 && i < es.eigenvalues().size(); i++) r.push_back((Q) es.eigenvalues()(i)); return r;
}
VT_CHECK(oscillator_levels, 10, 60, "more than one element") {
  int pb = s.pick({3, 4, 5}), n = s.range(9, 15), nel = s.range(2, 5); if (pb == 5) n = (n + 1) / 2; double w2 = s.logreal(0.3, 3), xmax = s.real(8, 9) / std::sqrt(std::sqrt(w2)); c.d("family %d nodes %d elements %d xmax %.6g w2 %.6g", pb, n, nel, xmax, w2); c.nontrivial = nel > 1;
  auto d = oscillator<double>(pb, n, nel, xmax, w2), l = oscillator<L>(pb, n, nel, xmax, w2), q = oscillator<Q>(pb, n, nel, xmax, w2); c.ok(d.size() == 4 && l.size() == 4 && q.size() == 4, "four levels"); if (q.size() != 4) return;
  for (int i = 0; i < 4; i++) { Q ex = std::sqrt(Q(w2)) * (i + Q(0.5)); c.ok(q[i] > ex - ex * Q(1e-22L), "the quad level is not below the exact one"); double lim = 2e4 * n, a = dd(qabs(d[i] - q[i]) / eps<double>() / q[i]), b = dd(qabs(l[i] - q[i]) / eps<L>() / q[i]); note("oscillator level", a / lim, b / lim); c.ok(a < lim, vt::fmt("oscillator level %d at double: %.4g units", i, a)); c.ok(b < lim, vt::fmt("oscillator level %d at long double: %.4g units", i, b)); }
  auto q3 = oscillator<Q>(pb, n, 2 * nel, xmax, w2); if (q3.size() == 4) for (int i = 0; i < 4; i++) c.ok(q3[i] <= q[i] + q[i] * Q(1e-28L), "splitting every element lowers the levels");
}
VT_MAIN()
