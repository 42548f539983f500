// included by p17_xc.cpp: the two diatomic grids
#include "../src/diatomic/dftgrid.h"
#include "../src/diatomic/dftgrid_purem.h"
static DSpec purespec(vt::Source & s, vt::Ctx & c, bool & both) { DSpec p = dspec(s, c, 3, 3, 2, 4, 1.2); std::vector<std::pair<int, int>> v; both = s.flag(3, 4); int M = s.range(0, 2); for (int m = 0; m <= M; m++) { if (m && s.flag(1, 4)) continue; int lo = m, k = s.range(1, 2); std::vector<int> ls; for (int l = lo; (int) ls.size() < k && l < lo + 4; l++) if (s.flag(2, 3)) ls.push_back(l); if (ls.empty()) ls.push_back(lo); if (s.flag(1, 3)) std::reverse(ls.begin(), ls.end()); for (int sg : {1, -1}) { if (sg < 0 && (m == 0 || !both)) continue; int q = !both && s.flag() ? -1 : 1; for (int l : ls) v.push_back({l, q * sg * m}); } } if (v.empty()) v.push_back({0, 0}); p.l.resize(v.size()); p.m.resize(v.size()); for (size_t i = 0; i < v.size(); i++) { p.l(i) = v[i].first; p.m(i) = v[i].second; } c.d(" -> "); for (auto & q : v) c.d("(%d,%d)", q.first, q.second); return p; }
VT_CHECK(diatomic, 130, 1300, "a gradient-dependent functional and more than one shell") {
  DSpec p = dspec(s, c, 3, 4, 2, 4, 1.2); p.nq = s.range(4, 9); int lang = s.range(2, 7), mang = s.range(2, 7); c.d(" nquad=%d grid %d,%d", p.nq, lang, mang); Fun f = xcg::pick(s, c, false); double thr = s.flag() ? 1e-12 : 1e-10; DB b = p.make(); if (p.list().empty()) throw vt::Reject(); c.nontrivial = f.grad() && p.na() > 1; helfem::Vector cth, phi, wa; helfem::angular::angular_chebyshev(lang, mang, cth, phi, wa); Pts pts; diatpts(p, b, cth, phi, wa, pts); MatD S = b.overlap(); if (f.stiff() && S.rows() < 2) throw vt::Reject(); auto A = dens(s, S, 4, f.stiff() ? 2 : 1), B = dens(s, S, 4, f.stiff() ? 2 : 1); bool empty = s.flag(1, 5); if (empty) B.first.setZero(); auto mk = [&] { return helfem::diatomic::dftgrid::DFTGrid(&b, lang, mang); }; Grid<decltype(mk)> drv{mk, f, thr}; if (f.lapl()) { c.throws([&] { drv.one(A.first); }, "Laplacian functional on the general diatomic grid"); return; } consistency(s, c, f, drv, pts, A.first, B.first, A.second, B.second, empty, nullptr, thr);
}
VT_CHECK(fixed_order, 220, 2200, "a gradient-dependent functional and a nonzero azimuthal quantum number") {
  bool both; DSpec p = purespec(s, c, both); p.nq = s.range(4, 10); int lang = s.range(2, 8); c.d(" nquad=%d grid %d", p.nq, lang); Fun f = xcg::pick(s, c, true); double thr = s.flag() ? 1e-12 : 1e-10; DB b = p.make(); auto L = p.list(); int n = (int) L.size(); if (!n || (f.stiff() && n < 2)) throw vt::Reject(); bool sym = both && s.flag(), empty = s.flag(1, 5); c.d(" mirrored density %d", sym); c.label("mirrored", sym); c.nontrivial = f.grad() && p.m.cwiseAbs().maxCoeff() > 0; b.set_absm_symmetric(sym);
  helfem::Vector cth, wa; chebyshev::chebyshev(lang, cth, wa); Pts pts; diatpts(p, b, cth, VecD::Zero(cth.size()), 2 * M_PI * wa, pts); MatD S = b.overlap(), mask = MatD::Zero(n, n); std::map<int, std::vector<int>> blk; for (int i = 0; i < n; i++) { blk[p.m(L[i].first)].push_back(i); for (int j = 0; j < n; j++) mask(i, j) = p.m(L[i].first) == p.m(L[j].first); }
  auto mk2 = [&](MatD & P, std::vector<MatD> & X) { P = MatD::Zero(n, n); std::map<int, std::pair<MatD, MatD>> done; for (auto & q : blk) { int k = (int) q.second.size(); MatD s0(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) s0(i, j) = S(q.second[i], q.second[j]); auto d = sym && done.count(-q.first) ? done[-q.first] : dens(s, s0, 3, f.stiff() ? 2 : 1); done[q.first] = d; MatD x = MatD::Zero(n, d.second.cols()); for (int i = 0; i < k; i++) { x.row(q.second[i]) = d.second.row(i); for (int j = 0; j < k; j++) P(q.second[i], q.second[j]) = d.first(i, j); } X.push_back(x); } }; auto join = [&](const std::vector<MatD> & X) { int k = 0; for (auto & x : X) k += (int) x.cols(); MatD M(n, k); k = 0; for (auto & x : X) { M.middleCols(k, x.cols()) = x; k += (int) x.cols(); } return M; };
  MatD A, B; std::vector<MatD> XA, XB; mk2(A, XA); mk2(B, XB); if (empty) B.setZero();
  // perturbations stay within one azimuthal block; a mirrored density is perturbed by a fixed multiple of itself instead
  MatD xa = XA[s.draw(XA.size())], xb = XB[s.draw(XB.size())]; if (sym) { xa = A; xb = empty ? MatD(A) : B; }
  auto g = [&] { return helfem::diatomic::dftgrid_purem::PureMDFTGrid(&b, lang); }; Grid<decltype(g)> drv{g, f, thr}; (void) join;
  if (!sym) consistency(s, c, f, drv, pts, A, B, xa, xb, empty, &mask, thr); else { b.set_absm_symmetric(false); Out r0 = drv.one(A + B), u0 = drv.two(A, B, !empty); b.set_absm_symmetric(true); Out r = drv.one(A + B), u = drv.two(A, B, !empty); Out rw = xcg::eval(pts, f, {A + B}, thr), uw = xcg::eval(pts, f, {A, B}, thr); for (auto * o : {&r, &r0}) { c.close(o->E, rw.E, 1e-7 * rw.ae + 1e-10, 0, "unpolarised energy"); c.close(o->N, rw.N, 1e-9 * rw.an, 0, "unpolarised electron count"); if (f.tau()) c.close(o->T, rw.T, 1e-8 * rw.at, 0, "unpolarised kinetic energy"); same(c, o->H[0], rw.H[0].cwiseProduct(mask), (f.stiff() ? 2e-5 : 1e-6) * rw.scale + 1e-11, "unpolarised matrix"); } for (auto * o : {&u, &u0}) { if (empty) uw.H[1].setZero(); c.close(o->E, uw.E, 1e-7 * uw.ae + 1e-10, 0, "polarised energy"); c.close(o->N, uw.N, 1e-9 * uw.an, 0, "polarised electron count"); if (f.tau()) c.close(o->T, uw.T, 1e-8 * uw.at, 0, "polarised kinetic energy"); for (int k = 0; k < 2; k++) same(c, o->H[k], uw.H[k].cwiseProduct(mask), (f.stiff() ? 2e-5 : 1e-6) * uw.scale + 1e-11, "polarised matrix"); } }
}
VT_CHECK(grids_agree, 60, 600, "a gradient-dependent functional") {
  bool both; DSpec p = purespec(s, c, both); p.nq = s.range(4, 8); int lang = s.range(3, 8), mang = 2 * 2 * p.m.cwiseAbs().maxCoeff() + s.range(1, 4); Fun f = xcg::pick(s, c, false); DB b = p.make(); auto L = p.list(); int n = (int) L.size(); if (n < (f.stiff() ? 2 : 1) || f.lapl()) throw vt::Reject(); c.nontrivial = f.grad(); MatD S = b.overlap(); auto blocky = [&] { MatD C = dens(s, S, 5, f.stiff() ? 2 : 1).first; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (p.m(L[i].first) != p.m(L[j].first)) C(i, j) = 0; return C; }; MatD A = blocky(), B = blocky(); auto g1 = [&] { return helfem::diatomic::dftgrid_purem::PureMDFTGrid(&b, lang); }; auto g2 = [&] { return helfem::diatomic::dftgrid::DFTGrid(&b, lang, mang); }; Grid<decltype(g1)> d1{g1, f, 1e-12}; Grid<decltype(g2)> d2{g2, f, 1e-12}; Out a = d1.two(A, B), e = d2.two(A, B), x = d1.one(A), y = d2.one(A); double sc = e.H[0].cwiseAbs().maxCoeff() + e.H[1].cwiseAbs().maxCoeff() + 1e-3; c.close(a.E, e.E, 1e-7 * (1 + std::abs(e.E)), 0, "energy"); c.close(a.N, e.N, 1e-9 * (1 + e.N), 0, "electrons"); c.close(a.T, e.T, 1e-8 * (1 + e.T), 0, "kinetic energy"); for (int k = 0; k < 2; k++) same(c, a.H[k], e.H[k], (f.stiff() ? 2e-5 : 1e-6) * sc, "polarised matrix"); c.close(x.E, y.E, 1e-7 * (1 + std::abs(y.E)), 0, "unpolarised energy"); same(c, x.H[0], y.H[0], (f.stiff() ? 2e-5 : 1e-6) * sc, "unpolarised matrix");
}
