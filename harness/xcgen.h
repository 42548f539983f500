// Independent exchange-correlation quadrature: density ingredients and matrices from basis values at points.
#pragma once
#include "diatgen.h"
#include <xc.h>
namespace xcg {
  using C = std::complex<double>; using MatC = Eigen::MatrixXcd;
  struct Pts { VecD w; MatC f, lap; std::vector<MatC> g; bool spherical = false; void alloc(int n, int k, int d) { w = VecD::Zero(k); f = lap = MatC::Zero(n, k); g.assign(d, MatC::Zero(n, k)); } };
  inline double dtheta(int l, int m, double x) { double st = std::sqrt((1 - x) * (1 + x)); LD a = sph::theta1(l, m, x), b = l > std::abs(m) ? sph::theta1(l - 1, m, x) : 0; LD k = l > 0 ? std::sqrt((LD) (2 * l + 1) / (2 * l - 1) * (l * l - m * m)) : 0; return (double) ((l * (LD) x * a - k * b) / st); }
  struct Fun { int x = 0, c = 0; helfem::Vector xp, cp; bool notau = false;
    static xc_func_type * init(int id, int spin) { auto * f = new xc_func_type; if (xc_func_init(f, id, spin)) { delete f; return nullptr; } return f; }
    static int fam(int id) { auto * f = init(id, XC_UNPOLARIZED); int k = f->info->family; xc_func_end(f); delete f; return k == XC_FAMILY_LDA || k == XC_FAMILY_HYB_LDA ? 0 : k == XC_FAMILY_GGA || k == XC_FAMILY_HYB_GGA ? 1 : 2; }
    static int flag(int id) { auto * f = init(id, XC_UNPOLARIZED); int k = f->info->flags; xc_func_end(f); delete f; return k; }
    std::vector<int> ids() const { std::vector<int> v; if (x > 0) v.push_back(x); if (c > 0) v.push_back(c); return v; }
    bool grad() const { for (int i : ids()) if (fam(i) > 0) return true; return false; }
    bool tau() const { if (notau) return false; for (int i : ids()) if (fam(i) > 1) return true; return false; }
    bool lapl() const { for (int i : ids()) if (flag(i) & XC_FLAGS_NEEDS_LAPLACIAN) return true; return false; }
    bool energy() const { for (int i : ids()) if (!(flag(i) & XC_FLAGS_HAVE_EXC)) return false; return true; }
    bool stiff() const { for (int i : ids()) if (fam(i) > 1) return true; return false; } };
  inline Fun pick(vt::Source & s, vt::Ctx & c, bool lapl) {
    static const int xl[] = {1, 20}, cl[] = {7, 9, 12, 13}, xg[] = {101, 102, 106, 109, 110, 116, 161, 402, 406}, cg[] = {130, 131, 132, 134}, xm[] = {202, 203, 263}, cm[] = {231, 233, 267}, xq[] = {206, 700, 718}, cq[] = {702, 719}, pot[] = {160, 182, 207};
    Fun f; int k = s.range(0, 9); auto from = [&](const int * a, size_t n) { return a[s.draw(n)]; }; auto X = [&](int t) { return t == 0 ? from(xl, 2) : t == 1 ? from(xg, 9) : t == 2 ? from(xm, 3) : from(xq, 3); }; auto Cc = [&](int t) { return t == 0 ? from(cl, 4) : t == 1 ? from(cg, 4) : t == 2 ? from(cm, 3) : from(cq, 2); };
    int top = lapl ? 3 : 2; if (k == 9) { f.x = from(pot, 3); if (s.flag()) f.c = Cc(0); } else { int t = s.range(0, top), u = s.flag(1, 3) ? s.range(0, top) : t; if (k != 8) f.x = X(t); if (k != 7) f.c = Cc(u); if (f.x == 0 && f.c == 0) f.x = 1; }
    auto ok = [&](int & id) { if (id <= 0) return; auto * q = Fun::init(id, XC_UNPOLARIZED); if (!q) { id = 0; return; } xc_func_end(q); delete q; }; ok(f.x); ok(f.c); if (f.x == 0 && f.c == 0) f.x = 1; c.label("exchange", f.x); c.label("correlation", f.c);
    if (f.x == 101 && s.flag(1, 2)) { f.xp.resize(2); f.xp << s.real(0.3, 1.2), s.real(0.05, 0.4); } if (f.c == 130 && s.flag(1, 2)) { f.cp.resize(3); f.cp << s.real(0.03, 0.1), 0.031090690869654895, s.real(0.8, 1.1); } auto np = [](int id) { auto * q = Fun::init(id, XC_UNPOLARIZED); int n = xc_func_info_get_n_ext_params((xc_func_info_type *) q->info); xc_func_end(q); delete q; return n; }; if (f.xp.size() && np(f.x) != f.xp.size()) f.xp.resize(0); if (f.cp.size() && np(f.c) != f.cp.size()) f.cp.resize(0); c.d(" x=%d c=%d%s%s", f.x, f.c, f.xp.size() ? " x-params" : "", f.cp.size() ? " c-params" : ""); return f; }
  struct Out { double E = 0, N = 0, T = 0, an = 0, at = 0, ae = 0, scale = 0, cond = 0, econd = 0; std::vector<MatD> H; };
  // sum_ij P_ij Re(a_i conj(b_j)) at every point
  inline VecD con(const MatD & P, const MatC & a, const MatC & b) { MatC Q = P.cast<C>() * a; VecD v(a.cols()); for (int k = 0; k < a.cols(); k++) v(k) = (Q.col(k).array() * b.col(k).conjugate().array()).sum().real(); return v; }
  inline void add(MatD & H, const VecD & v, const MatC & a, const MatC & b) { MatC Q = a; for (int k = 0; k < Q.cols(); k++) Q.col(k) *= v(k); MatD X = (Q * b.adjoint()).real(); H += 0.5 * (X + X.transpose()); }
  inline Out eval1(const Pts & p, const Fun & F, const std::vector<MatD> & P, double thr, double pert) {
    int ns = (int) P.size(), n = (int) p.w.size(); Out o; std::vector<VecD> rho, lap, tau; std::vector<std::vector<VecD>> gr(ns); int nd = p.spherical ? 1 : (int) p.g.size();
    for (int z = 0; z < ns; z++) { rho.push_back(con(P[z], p.f, p.f)); VecD k = VecD::Zero(n), kr; for (auto & g : p.g) { VecD t = con(P[z], g, g); k += t; if (kr.size() == 0) kr = t; } tau.push_back(0.5 * k); lap.push_back(2 * (p.spherical ? kr : k) + 2 * con(P[z], p.f, p.lap)); for (int d = 0; d < nd; d++) gr[z].push_back(2 * con(P[z], p.f, p.g[d])); }
    std::vector<double> r(ns * n), sg((ns == 2 ? 3 : 1) * n, 0), L(ns * n), t(ns * n); for (int k = 0; k < n; k++) { for (int z = 0; z < ns; z++) { r[ns * k + z] = rho[z](k); L[ns * k + z] = lap[z](k); t[ns * k + z] = tau[z](k); o.N += p.w(k) * rho[z](k); o.T += p.w(k) * tau[z](k); o.an += std::abs(p.w(k) * rho[z](k)); o.at += std::abs(p.w(k) * tau[z](k)); } for (int d = 0; d < nd; d++) { if (ns == 1) sg[k] += gr[0][d](k) * gr[0][d](k); else { double a = gr[0][d](k), b = gr[1][d](k); sg[3 * k] += a * a; sg[3 * k + 1] += a * b; sg[3 * k + 2] += b * b; } } }
    if (pert > 0) { uint64_t h = 88172645463325252ull; auto jig = [&](std::vector<double> & v) { for (double & x : v) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; x *= 1 + ((h >> 40) & 1 ? pert : -pert); } }; jig(r); jig(sg); jig(L); jig(t); }
    int g3 = ns == 2 ? 3 : 1; std::vector<double> e(n, 0), vr(ns * n, 0), vs(g3 * n, 0), vl(ns * n, 0), vt(ns * n, 0); bool useg = false, uset = false, usel = false;
    for (int id : F.ids()) { auto * f = Fun::init(id, ns == 2 ? XC_POLARIZED : XC_UNPOLARIZED); xc_func_set_dens_threshold(f, thr); const helfem::Vector & q = id == F.x ? F.xp : F.cp; if (q.size()) { std::vector<double> par(q.data(), q.data() + q.size()); xc_func_set_ext_params(f, par.data()); } std::vector<double> E(n, 0), a(ns * n, 0), b(g3 * n, 0), l(ns * n, 0), tt(ns * n, 0); bool en = f->info->flags & XC_FLAGS_HAVE_EXC; int fm = Fun::fam(id);
      if (fm == 0) { if (en) xc_lda_exc(f, n, r.data(), E.data()); xc_lda_vxc(f, n, r.data(), a.data()); } else if (fm == 1) { if (en) xc_gga_exc(f, n, r.data(), sg.data(), E.data()); xc_gga_vxc(f, n, r.data(), sg.data(), a.data(), b.data()); useg = true; } else { if (en) xc_mgga_exc(f, n, r.data(), sg.data(), L.data(), t.data(), E.data()); xc_mgga_vxc(f, n, r.data(), sg.data(), L.data(), t.data(), a.data(), b.data(), l.data(), tt.data()); useg = uset = true; if (f->info->flags & XC_FLAGS_NEEDS_LAPLACIAN) usel = true; else std::fill(l.begin(), l.end(), 0.0); }
      for (int i = 0; i < n; i++) e[i] += E[i]; for (int i = 0; i < ns * n; i++) { vr[i] += a[i]; vl[i] += l[i]; vt[i] += tt[i]; } for (int i = 0; i < g3 * n; i++) vs[i] += b[i]; xc_func_end(f); delete f; }
    for (int k = 0; k < n; k++) { double d = 0; for (int z = 0; z < ns; z++) d += rho[z](k); o.E += p.w(k) * e[k] * d; o.ae += std::abs(p.w(k) * e[k] * d); }
    MatC f2; for (int z = 0; z < ns; z++) { MatD H = MatD::Zero(P[0].rows(), P[0].rows()), A = H; VecD v(n); for (int k = 0; k < n; k++) v(k) = p.w(k) * vr[ns * k + z]; add(H, v, p.f, p.f); auto track = [&] { o.scale = std::max(o.scale, H.cwiseAbs().maxCoeff()); }; track();
      if (useg) for (int d = 0; d < nd; d++) { for (int k = 0; k < n; k++) v(k) = 2 * p.w(k) * (ns == 1 ? 2 * vs[k] * gr[0][d](k) : 2 * vs[3 * k + 2 * z] * gr[z][d](k) + vs[3 * k + 1] * gr[1 - z][d](k)); add(H, v, p.g[d], p.f); track(); }
      if (uset) for (auto & g : p.g) { for (int k = 0; k < n; k++) v(k) = 0.5 * p.w(k) * vt[ns * k + z]; add(H, v, g, g); track(); }
      if (usel) { for (int d = 0; d < nd; d++) { for (int k = 0; k < n; k++) v(k) = 2 * p.w(k) * vl[ns * k + z]; add(H, v, p.g[d], p.g[d]); track(); } for (int k = 0; k < n; k++) v(k) = 2 * p.w(k) * vl[ns * k + z]; add(H, v, p.f, p.lap); track(); }
      o.H.push_back(H); }
    return o; }
  // evaluation with an estimate of its conditioning: the change under a relative perturbation of 1e-10 of every density ingredient
  inline Out eval(const Pts & p, const Fun & F, const std::vector<MatD> & P, double thr) { Out o = eval1(p, F, P, thr, 0); if (F.stiff()) { Out q = eval1(p, F, P, thr, 1e-10); o.econd = std::abs(q.E - o.E); for (size_t k = 0; k < o.H.size(); k++) o.cond = std::max(o.cond, (q.H[k] - o.H[k]).cwiseAbs().maxCoeff()); } return o; }
}
