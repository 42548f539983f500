// Generators and numerical oracles shared by the harnesses.
#pragma once
#include "vt.h"
#include <types.h>
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <memory>
#include <vector>
namespace gen {
  using VecD = helfem::Vec<double>; using MatD = helfem::Mat<double>;
  inline VecD tovec(const std::vector<double> & v) { VecD r(v.size()); for (size_t i = 0; i < v.size(); i++) r((Eigen::Index) i) = v[i]; return r; }
  inline std::string join(const std::vector<double> & v) { std::string s; for (double x : v) s += vt::fmt("%s%.6g", s.empty() ? "" : ",", x); return s; }
  // Gauss-Legendre rule on [-1,1], computed here (Newton in long double)
  inline void gauss(int n, std::vector<double> & x, std::vector<double> & w) {
    static std::map<int, std::pair<std::vector<double>, std::vector<double>>> cache;
    auto & e = cache[n];
    if (e.first.empty()) {
      e.first.resize(n); e.second.resize(n);
      for (int i = 0; i < n; i++) {
        long double z = -std::cos(3.14159265358979323846264338327950288L * (i + 0.75L) / (n + 0.5L)), dp = 1;
        for (int it = 0; it < 100; it++) {
          long double p0 = 1, p1 = z;
          for (int k = 1; k < n; k++) { long double p2 = ((2 * k + 1) * z * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; }
          if (n == 0) break;
          dp = n * (z * p1 - p0) / (z * z - 1);
          long double dz = p1 / dp; z -= dz;
          if (fabsl(dz) < 1e-19L) break;
        }
        e.first[i] = (double) z; e.second[i] = (double) (2 / ((1 - z * z) * dp * dp));
      }
    }
    x = e.first; w = e.second;
  }
  struct Fam { int id, m; const char * name; };
  inline const Fam & fam(int i) { static const Fam f[] = {{4, 0, "LIP"}, {5, 1, "HIP"}, {3, -1, "Legendre"}, {8, 2, "HIP2"}, {9, 3, "HIP3"}, {100, 0, "LIP-Chebyshev"}, {101, 1, "HIP-Chebyshev"}}; return f[i]; }
  inline std::shared_ptr<helfem::polynomial_basis::PolynomialBasis> poly(const Fam & f, int N) { return std::shared_ptr<helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(f.id, N)); }
  // strictly increasing boundaries from lo, nel elements, ratio of neighbouring lengths bounded
  inline std::vector<double> bounds(vt::Source & s, double lo, int nel, double hmin, double hmax) {
    std::vector<double> b = {lo};
    for (int i = 0; i < nel; i++) b.push_back(b.back() + s.logreal(hmin, hmax));
    return b;
  }
  struct FEspec {
    Fam f; int N; std::vector<double> b; bool zfl, zdl, zfr, zdr;
    int order() const { return std::max(f.m, 0); }
    int nel() const { return (int) b.size() - 1; }
    std::string str() const { return vt::fmt("%s N=%d bval=[%s] bc=(%d,%d|%d,%d)", f.name, N, join(b).c_str(), zfl, zdl, zfr, zdr); }
    helfem::polynomial_basis::FiniteElementBasis make() const { return helfem::polynomial_basis::FiniteElementBasis(poly(f, N), tovec(b), zfl, zdl, zfr, zdr); }
    // independent numbering: function (node g, order k); interior functions of the spectral family sit between the nodes
    std::map<std::pair<int, int>, int> numbering() const {
      std::map<std::pair<int, int>, int> m; int last = nel() * (N - 1), c = 0;
      for (int g = 0; g <= last; g++) for (int k = 0; k <= order(); k++) {
        if (g == 0 && (k == 0 ? zfl : zdl)) continue;
        if (g == last && (k == 0 ? zfr : zdr)) continue;
        m[{g, k}] = c++;
      }
      return m;
    }
    size_t nbf() const { return numbering().size(); }
    // n-th derivatives of all global functions at reference points x of element iel
    MatD eval(const std::vector<double> & x, int n, int iel) const {
      auto p = poly(f, N); auto m = numbering();
      MatD v = p->eval_dnf(tovec(x), n, 0.5 * (b[iel + 1] - b[iel]));
      MatD r = MatD::Zero(x.size(), m.size());
      for (int j = 0; j < N; j++) for (int k = 0; k <= order(); k++) { auto it = m.find({iel * (N - 1) + j, k}); if (it != m.end()) r.col(it->second) = v.col(j * (order() + 1) + k); }
      return r;
    }
    double coord(double x, int iel) const { return 0.5 * (b[iel] + b[iel + 1]) + 0.5 * (b[iel + 1] - b[iel]) * x; }
  };
  inline FEspec fespec(vt::Source & s, double lo, int maxel, int maxn, bool anybc) {
    FEspec e; e.f = fam((int) s.draw(7)); int mx = e.f.m <= 0 ? maxn : e.f.m == 1 ? std::max(3, maxn / 2) : 4;
    e.N = s.range(2, mx); int nel = s.range(1, maxel); e.b = bounds(s, lo, nel, 0.3, 3.0);
    e.zfl = anybc ? s.flag() : true; e.zdl = anybc ? s.flag() : false; e.zfr = anybc ? s.flag() : true; e.zdr = anybc ? s.flag() : s.flag();
    return e;
  }
  // a generated smooth function with bounded derivatives
  struct Smooth {
    double a[4], w, ph, g;
    double operator()(double r) const { return a[0] + a[1] * std::cos(w * r + ph) + a[2] * std::exp(-g * r) + a[3] * r; }
    std::string str() const { return vt::fmt("%.4g%+.4g*cos(%.4g r%+.4g)%+.4g*exp(-%.4g r)%+.4g*r", a[0], a[1], w, ph, a[2], g, a[3]); }
  };
  inline Smooth smooth(vt::Source & s) { Smooth f; for (auto & x : f.a) x = s.sym(2); f.w = s.real(0, 2); f.ph = s.real(0, 3); f.g = s.real(0, 1.5); return f; }
  inline void same(vt::Ctx & c, const MatD & got, const MatD & want, double tol, const std::string & what) {
    c.ok(got.rows() == want.rows() && got.cols() == want.cols(), vt::fmt("%s: size %ldx%ld, expected %ldx%ld", what.c_str(), (long) got.rows(), (long) got.cols(), (long) want.rows(), (long) want.cols()));
    if (!got.size()) return;
    c.evals += got.size();
    for (Eigen::Index j = 0; j < got.cols(); j++) for (Eigen::Index i = 0; i < got.rows(); i++)
      if (!(std::abs(got(i, j) - want(i, j)) <= tol)) c.fail(vt::fmt("%s: element (%ld,%ld) is %.15g, expected %.15g (difference %.3g, allowed %.3g)", what.c_str(), (long) i, (long) j, got(i, j), want(i, j), got(i, j) - want(i, j), tol));
  }
  // tolerance relative to the largest element of the expected matrix
  inline void samer(vt::Ctx & c, const MatD & got, const MatD & want, double rel, const std::string & what) { double m = want.size() ? want.cwiseAbs().maxCoeff() : 0; same(c, got, want, rel * std::max(m, 1e-30), what); }
  inline MatD randsym(vt::Source & s, int n, double a = 1) { MatD m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = s.sym(a); return m; }
  // cheap dense random matrix: one draw seeds it
  inline MatD randmat(vt::Source & s, int r, int cl) { uint64_t st = s.draw(1u << 30); MatD m(r, cl); for (int j = 0; j < cl; j++) for (int i = 0; i < r; i++) m(i, j) = (double) (vt::splitmix(st) >> 11) / 9007199254740992.0 * 2 - 1; return m; }
  inline MatD randsymf(vt::Source & s, int n) { MatD m = randmat(s, n, n); return 0.5 * (m + m.transpose()); }
}
