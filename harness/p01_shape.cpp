// LIBS: core
// P01: shape functions against an independent 100-digit Hermite/Legendre construction.
#include "vt.h"
#include "mp.h"
#include <PolynomialBasis.h>
#include <helfem.h>
#include <memory>
using namespace helfem;
using mp::R; using mp::J;

struct Fam { int id, m; const char * name; };
static const Fam fams[] = {{4, 0, "LIP"}, {5, 1, "HIP"}, {8, 2, "HIP2"}, {9, 3, "HIP3"}, {3, -1, "Legendre"}, {100, 0, "LIP-Chebyshev"}, {101, 1, "HIP-Chebyshev"}};
static int maxorder(int m) { return m < 0 ? 2 : m == 0 ? 6 : m == 1 ? 6 : 5; }

// cost of the n-th derivative grows like N^n: keep the order affordable
static int pick_order(vt::Source & s, const Fam & f, int N) {
  int mx = maxorder(f.m);
  if (f.m == 0 && N <= 6) mx = 20;
  if (f.m == 1 && N <= 5) mx = 20;
  int o = 0; double cost = N * N;
  while (o < mx) { cost *= N <= 6 ? std::max(1, N - o) : N; if (cost > 4e6) break; o++; }
  return s.range(0, o);
}
static std::vector<double> points(vt::Source & s, const Vec<double> & nodes, double edge) {
  std::vector<double> x;
  int n = s.range(1, 4);
  for (int i = 0; i < n; i++) {
    switch (s.draw(5)) {
      case 0: x.push_back(s.real(-1, 1)); break;
      case 1: x.push_back(nodes((int) s.draw(nodes.size()))); break;
      case 2: x.push_back(-1.0); break;
      case 3: x.push_back(1.0); break;
      default: x.push_back(-1.0 + s.logreal(edge, 0.5)); break;
    }
  }
  return x;
}
static Vec<double> tovec(const std::vector<double> & v) { Vec<double> r(v.size()); for (size_t i = 0; i < v.size(); i++) r((int) i) = v[i]; return r; }

// Which primitive functions survive, by definition
struct Drop { int ff, fd, lf, ld; };
static std::vector<std::pair<int, int>> survivors(const Fam & f, int N, const Drop & d) {
  std::vector<std::pair<int, int>> v;   // (node, derivative order)
  for (int i = 0; i < N; i++) for (int k = 0; k <= std::max(f.m, 0); k++) {
    if (i == 0 && ((k == 0 && d.ff) || (k > 0 && d.fd))) continue;
    if (i == N - 1 && ((k == 0 && d.lf) || (k > 0 && d.ld))) continue;
    v.push_back({i, k});
  }
  return v;
}
struct Ref {
  Fam f; int N; std::vector<R> x; std::unique_ptr<mp::Hermite> h;
  Ref(const Fam & f_, int N_, const Vec<double> & nodes) : f(f_), N(N_) {
    if (f.m >= 0) { for (int i = 0; i < N; i++) x.push_back(R(nodes(i))); h.reset(new mp::Hermite(x, f.m)); }
  }
  // jets in the reference coordinate for the survivors, physical normalisation (half-length e)
  std::vector<J> jets(const std::vector<std::pair<int, int>> & sv, double z, size_t n, double e) const {
    std::vector<J> out;
    if (f.m >= 0) {
      int last = -1; J w;
      for (auto & p : sv) {
        if (p.first != last) { w = h->W(p.first, R(z), n); last = p.first; }
        J j = h->eval(w, p.first, p.second, R(z), n);
        R sc = boost::multiprecision::pow(R(e), p.second); for (auto & v : j) v *= sc;
        out.push_back(j);
      }
    } else {
      auto P = mp::legendre(N, R(z), n);
      for (auto & p : sv) {
        int j = p.first; J r(n, R(0));
        for (size_t t = 0; t < n; t++) {
          if (j == 0) r[t] = (P[0][t] - P[1][t]) / 2;
          else if (j == N - 1) r[t] = (P[0][t] + P[1][t]) / 2;
          else r[t] = (P[j + 1][t] - P[j - 1][t]) / boost::multiprecision::sqrt(R(4 * j + 2));
        }
        out.push_back(r);
      }
    }
    return out;
  }
};
static double errf(const Fam & f, int N, int n) { return 1e-13 * std::pow(N, 1.5) * (1 + n) * (1 + n) * (f.m <= 0 ? 1 : f.m == 1 ? 3 : f.m == 2 ? 10 : 60); }
// Error scale: the largest |d^n B| of each surviving function on the element, never less than a small
// fraction of the Markov bound (derivatives beyond the polynomial degree vanish only up to rounding)
static std::vector<double> scales(const Ref & ref, const std::vector<std::pair<int, int>> & sv, int n, double e, bool over) {
  std::vector<double> sc(sv.size(), 0), s0(sv.size(), 0);
  std::vector<double> zs = {-1.0, 1.0};
  for (int i = 1; i < 2 * ref.N; i++) zs.push_back(-std::cos(M_PI * (i + 0.07) / (2 * ref.N)));
  for (double z : zs) {
    auto j = ref.jets(sv, z, n + 2, e);
    for (size_t i = 0; i < sv.size(); i++) {
      J a = over ? mp::divlin(j[i], R(e) * (R(z) + 1), R(e)) : j[i];
      sc[i] = std::max(sc[i], std::abs((double) (a[n] * mp::fact(n)) / std::pow(e, n)));
      s0[i] = std::max(s0[i], std::abs((double) a[0]));
    }
  }
  double mk = 1e-2; for (int k = 1; k <= n; k++) mk *= (double) ref.N * ref.N / (2 * k - 1) / e;
  // the closed forms expand polynomials in x with coefficients L_i'(x_i)^m ~ (N^2/4)^m, so their rounding error is
  // relative to e^k (N^2/4)^m, not to the function's peak
  for (size_t i = 0; i < sv.size(); i++) sc[i] = std::max(sc[i], std::max(mk * s0[i], 1e-14 / errf(ref.f, ref.N, n) * mk * 5000 * std::pow(e, sv[i].second - (over ? 1 : 0)) * std::pow(std::max(1.0, 0.3 * ref.N * ref.N), std::max(ref.f.m, 0))));
  return sc;
}
static std::unique_ptr<polynomial_basis::PolynomialBasis> make(vt::Ctx & c, const Fam & f, int N) {
  std::unique_ptr<polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(f.id, N));
  c.ok(p->get_nprim() == N * (std::max(f.m, 0) + 1), vt::fmt("%s with %d nodes has %d primitives", f.name, N, p->get_nprim()));
  c.ok(p->get_nbf() == p->get_nprim(), "fresh basis has all primitives enabled");
  c.ok(p->get_noverlap() == std::max(f.m, 0) + 1, vt::fmt("%s shares %d functions with the neighbouring element", f.name, p->get_noverlap()));
  c.ok(p->get_nnodes() == N, "node count is kept");
  if (f.m >= 0) {
    Vec<double> nd = p->get_nodes();
    c.ok(nd.size() == N, "node vector has the requested size");
    for (int i = 0; i < N; i++) {
      if (i) c.ok(nd(i) > nd(i - 1), "nodes ascend");
      if (f.id >= 100) c.close(nd(i), std::cos(M_PI * (N - 1 - i) / (N - 1.0)), 4e-15, 0, "Chebyshev node");
      else if (i == 0 || i == N - 1) c.close(nd(i), i ? 1 : -1, 1e-15, 0, "end node");
      else {
        auto P = mp::legendre(N - 1, R(nd(i)), 3);   // P'_{N-1} vanishes at interior Lobatto nodes
        c.close((double) (P[N - 1][1] / (2 * P[N - 1][2])), 0, 1e-14, 0, vt::fmt("Lobatto node %d of %d: Newton correction", i, N));
      }
    }
  }
  return p;
}
static Drop draw_drop(vt::Source & s, bool over) {
  Drop d; d.ff = over ? 1 : s.flag(); d.fd = s.flag(); d.lf = s.flag(); d.ld = s.flag(); return d;
}
static int nodes_for(vt::Source & s, const Fam & f) { return s.range(2, f.m <= 0 ? 16 : f.m == 1 ? 15 : 12); }

VT_CHECK(derivatives, 6000, 60000, "more than two nodes and (derivative order >= 1 or a Hermite family)") {
  const Fam & f = fams[s.draw(7)]; int N = nodes_for(s, f); double e = s.logreal(1e-2, 50);
  int n = pick_order(s, f, N); Drop d = draw_drop(s, false);
  auto p = make(c, f, N);
  std::vector<double> xs = points(s, p->get_nodes(), 1e-12);
  c.d("%s N=%d half-length=%.6g order=%d drop first(%d,%d) last(%d,%d) x0=%.17g", f.name, N, e, n, d.ff, d.fd, d.lf, d.ld, xs[0]);
  c.label("family", f.name); c.label("order", n); c.nontrivial = N > 2 && (n >= 1 || f.m > 0);
  p->drop_first(d.ff, d.fd); p->drop_last(d.lf, d.ld);
  auto sv = survivors(f, N, d);
  c.ok(p->get_nbf() == (int) sv.size(), vt::fmt("dropping first(%d,%d) last(%d,%d) from %s leaves %d functions, expected %zu", d.ff, d.fd, d.lf, d.ld, f.name, p->get_nbf(), sv.size()));
  if (sv.empty()) return;
  std::unique_ptr<polynomial_basis::PolynomialBasis> q(p->copy());
  Ref ref(f, N, p->get_nodes());
  Mat<double> v = q->eval_dnf(tovec(xs), n, e);
  c.ok(v.rows() == (int) xs.size() && v.cols() == (int) sv.size(), "value matrix has one row per point and one column per function");
  auto sc = scales(ref, sv, n, e, false);
  for (size_t ix = 0; ix < xs.size(); ix++) {
    auto j = ref.jets(sv, xs[ix], n + 1, e);
    for (size_t i = 0; i < sv.size(); i++) {
      double want = (double) (j[i][n] * mp::fact(n)) / std::pow(e, n);
      c.close(v(ix, i), want, errf(f, N, n) * std::max(sc[i], 1e-300), errf(f, N, n), vt::fmt("d^%d of function (node %d, order %d) at x=%.17g", n, sv[i].first, sv[i].second, xs[ix]));
    }
  }
}

VT_CHECK(over_r, 5000, 50000, "a point within 1e-3 of the origin, or derivative order >= 1") {
  const Fam & f = fams[s.draw(7)]; int N = nodes_for(s, f); double e = s.logreal(1e-2, 50);
  int n = std::min(pick_order(s, f, N), f.m < 0 ? 2 : f.m <= 0 ? 6 : f.m == 1 ? 6 : 2); Drop d = draw_drop(s, true);
  auto p = make(c, f, N);
  std::vector<double> xs = points(s, p->get_nodes(), 1e-14);
  double mn = 3; for (double x : xs) mn = std::min(mn, x + 1);
  c.d("%s N=%d half-length=%.6g order=%d drop first(1,%d) last(%d,%d) x0=%.17g", f.name, N, e, n, d.fd, d.lf, d.ld, xs[0]);
  c.label("family", f.name); c.label("order", n); c.label("origin", mn == 0 ? "exact" : mn < 1e-3 ? "near" : "far");
  c.nontrivial = mn < 1e-3 || n >= 1;
  p->drop_first(true, d.fd); p->drop_last(d.lf, d.ld);
  auto sv = survivors(f, N, d);
  if (sv.empty()) { c.nontrivial = false; return; }
  Mat<double> v;
  try { v = p->eval_over_r(tovec(xs), n, e); }
  catch (const std::logic_error &) { if (n <= 2) throw; c.label("refused", "yes"); c.nontrivial = false; return; }   // unsupported orders may be refused
  c.ok(v.rows() == (int) xs.size() && v.cols() == (int) sv.size(), "value matrix has one row per point and one column per function");
  Ref ref(f, N, p->get_nodes());
  auto sc = scales(ref, sv, n, e, true);
  for (size_t ix = 0; ix < xs.size(); ix++) {
    auto j = ref.jets(sv, xs[ix], n + 2, e);
    for (size_t i = 0; i < sv.size(); i++) {
      J a = mp::divlin(j[i], R(e) * (R(xs[ix]) + 1), R(e));
      double want = (double) (a[n] * mp::fact(n)) / std::pow(e, n);
      c.close(v(ix, i), want, errf(f, N, n) * std::max(sc[i], 1e-300), errf(f, N, n), vt::fmt("d^%d of B/r for function (node %d, order %d) at x=%.17g", n, sv[i].first, sv[i].second, xs[ix]));
    }
  }
}

VT_CHECK(refusal, 300, 3000, "always: every case asks for something unsupported") {
  c.nontrivial = true;
  switch (s.draw(5)) {
    case 0: { int id = s.pick<int>({3, 4, 5, 8, 9, 100, 101}); int N = s.range(-3, 1); c.d("get_basis(%d,%d)", id, N); c.label("kind", "nodes"); c.throws([&] { polynomial_basis::get_basis(id, N); }, vt::fmt("family %d with %d nodes", id, N)); break; }
    case 1: { int id = s.range(-5, 120); if (id == 3 || id == 4 || id == 5 || id == 8 || id == 9 || id == 100 || id == 101) throw vt::Reject(); c.d("get_basis(%d,5)", id); c.label("kind", "family"); c.throws([&] { polynomial_basis::get_basis(id, 5); }, vt::fmt("family %d", id)); break; }
    case 2: { const Fam & f = fams[s.draw(7)]; int n = s.flag() ? -s.range(1, 5) : (f.m < 0 ? 3 : f.m <= 1 ? 21 : 6) + s.range(0, 4); int N = s.range(2, 8);
      c.d("%s N=%d derivative order %d", f.name, N, n); c.label("kind", "order");
      std::unique_ptr<polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(f.id, N)); Vec<double> x(1); x(0) = s.real(-1, 1);
      // a supported order would have to be right; here all orders are outside the offered range
      bool threw = false; Mat<double> v; try { v = p->eval_dnf(x, n, 1.0); } catch (const std::exception &) { threw = true; }
      if (!threw) {
        c.ok(n >= 0, vt::fmt("negative derivative order %d was accepted", n));
        Drop d{0, 0, 0, 0}; auto sv = survivors(f, N, d); Ref ref(f, N, p->get_nodes()); auto j = ref.jets(sv, x(0), n + 1, 1.0); auto sc = scales(ref, sv, n, 1.0, false);
        for (size_t i = 0; i < sv.size(); i++) c.close(v(0, i), (double) (j[i][n] * mp::fact(n)), errf(f, N, n) * std::max(sc[i], 1e-300), errf(f, N, n), vt::fmt("order %d accepted but wrong", n));
      }
      break; }
    case 3: { const Fam & f = fams[s.draw(7)]; int N = s.range(2, 8); int n = s.range(0, 2); c.d("%s N=%d over_r without dropping the value function", f.name, N); c.label("kind", "over_r");
      std::unique_ptr<polynomial_basis::PolynomialBasis> p(polynomial_basis::get_basis(f.id, N)); Vec<double> x(1); x(0) = s.real(-1, 1);
      c.throws([&] { p->eval_over_r(x, n, 1.0); }, "B/r with the function that does not vanish at the origin"); break; }
    default: { int N = s.range(2, 8); Vec<double> x = Vec<double>::LinSpaced(N, -1, 1); double sh = s.logreal(1e-6, 0.3); bool left = s.flag(); if (left) x(0) += sh; else x(N - 1) -= sh; if (N > 2 && (x(0) >= x(1) || x(N - 1) <= x(N - 2))) throw vt::Reject();
      c.d("LIP with end node off by %.3g (%s)", sh, left ? "left" : "right"); c.label("kind", "ends");
      c.throws([&] { polynomial_basis::LIPBasis b(x); }, "nodes that do not span the element"); break; }
  }
}
// custom nodes: any node set that spans the element is a valid Lagrange/Hermite basis
VT_CHECK(custom_nodes, 500, 10000, "at least three unevenly spaced nodes") {
  int m = (int) s.draw(4); int N = s.range(2, m == 0 ? 10 : 7);
  std::vector<double> nd = {-1, 1}; for (int i = 2; i < N; i++) nd.push_back(s.real(-0.95, 0.95));
  std::sort(nd.begin(), nd.end()); for (size_t i = 1; i < nd.size(); i++) if (nd[i] - nd[i - 1] < 0.02) throw vt::Reject();
  std::vector<double> shuf = nd; for (size_t i = shuf.size(); i > 1; i--) std::swap(shuf[i - 1], shuf[s.draw(i)]);
  std::unique_ptr<polynomial_basis::PolynomialBasis> p;
  Vec<double> xv = tovec(shuf);
  if (m == 0) p.reset(new polynomial_basis::LIPBasis(xv)); else if (m == 1) p.reset(new polynomial_basis::HIPBasis(xv)); else if (m == 2) p.reset(new polynomial_basis::HIP2Basis(xv, 8)); else p.reset(new polynomial_basis::HIP3Basis(xv, 9));
  Fam f{0, m, "custom"}; int n = s.range(0, m < 2 ? 4 : 5); double e = s.logreal(0.05, 20);
  c.d("order-%d Hermite on %d custom nodes, derivative %d, half-length %.5g", m, N, n, e); c.label("m", m); c.label("order", n); c.nontrivial = N >= 3;
  Drop d{0, 0, 0, 0}; auto sv = survivors(f, N, d); Ref ref(f, N, tovec(nd));
  std::vector<double> xs = points(s, tovec(nd), 1e-9);
  Mat<double> v = p->eval_dnf(tovec(xs), n, e); auto sc = scales(ref, sv, n, e, false);
  for (size_t ix = 0; ix < xs.size(); ix++) { auto j = ref.jets(sv, xs[ix], n + 1, e); for (size_t i = 0; i < sv.size(); i++)
    c.close(v(ix, i), (double) (j[i][n] * mp::fact(n)) / std::pow(e, n), 1e-8 * std::max(sc[i], 1e-300), 1e-8, vt::fmt("d^%d of function (node %d, order %d) at x=%.17g", n, sv[i].first, sv[i].second, xs[ix])); }
}
VT_MAIN()
