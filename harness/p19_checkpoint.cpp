// LIBS: core general checkpoint atomic diatomic
// P19: checkpoint histories against a map.
#include "atomgen.h"
#include "diatgen.h"
#include <general/checkpoint.h>
#include <memory>
#include <filesystem>
using namespace gen;
#ifdef HELFEM_HAVE_FLOAT128
typedef _Float128 Q;
#else
typedef long double Q;
#endif
typedef long double L;
template <class T> using M = helfem::Mat<T>; template <class T> using V = helfem::Vec<T>;
enum Kind { SD, SL, SQ, SI, SH, SB, ST, MD, ML, MQ, MI, VD, VL, VQ, AD, AL, AQ, AH, NK };
static const char * kn[] = {"double", "long double", "quad", "int", "size", "bool", "string", "matrix", "long double matrix", "quad matrix", "int matrix", "vector", "long double vector", "quad vector", "array", "long double array", "quad array", "size array"};
// a value: numbers kept in the widest type together with their shape
struct Val { Kind k = SD; std::vector<Q> x; std::vector<long long> i; std::string t; int r = 0, c = 0; std::string str() const { return vt::fmt("%s %dx%d", kn[k], r, c); } };
static int prec(Kind k) { switch (k) { case SD: case MD: case VD: case AD: return 0; case SL: case ML: case VL: case AL: return 1; default: return 2; } }
static int shape(Kind k) { switch (k) { case SD: case SL: case SQ: return 0; case MD: case ML: case MQ: return 1; case VD: case VL: case VQ: return 2; case AD: case AL: case AQ: return 3; default: return -1; } } // floating-point shapes
static Q num(vt::Source & s, int p) { int u = s.range(0, 11); auto base = [&]() -> Q { uint64_t a = s.draw(1ull << 62); Q x = (Q) a; if (p > 0) { x = x * (Q) 4611686018427387904.0; if (p == 2) x += (Q) s.draw(1ull << 62) ; } return x; }; Q v; switch (u) { case 0: v = 0; break; case 1: v = (Q) 1 / 3; break; case 2: v = (Q) -0.0; break; case 3: v = (Q) std::numeric_limits<double>::infinity(); break; case 4: v = -(Q) std::numeric_limits<double>::infinity(); break; case 5: v = (Q) 4.9406564584124654e-324 * (Q) (double) s.range(1, 9); break; case 6: v = (Q) 1.7976931348623157e308; break; case 7: v = (Q) s.range(-5, 5); break; case 8: v = (Q) s.real(-1, 1); break; default: { Q x = base(); int e = s.range(-200, 80); Q f = 1, g = e < 0 ? (Q) 0.5 : (Q) 2; for (int k = 0; k < std::abs(e); k++) f *= g; v = s.flag() ? x * f : -x * f; } } if (p == 0) return (Q) (double) v; if (p == 1) return (Q) (L) v; return v; }
static Val value(vt::Source & s) { Val v; v.k = (Kind) s.draw(NK); auto fill = [&](size_t n) { for (size_t j = 0; j < n; j++) v.x.push_back(num(s, prec(v.k))); };
  switch (v.k) { case SI: v.i = {s.flag() ? s.range(-3, 1000) : (long long) (int) s.draw(1ull << 32)}; break; case SH: v.i = {s.flag() ? s.range(0, 1000) : (long long) s.draw(1ull << 62)}; break; case SB: v.i = {s.flag()}; break; case ST: { int n = s.flag(1, 6) ? s.range(0, 3000) : s.range(0, 12); for (int j = 0; j < n; j++) v.t += (char) (s.flag(1, 8) ? s.range(0, 255) : s.range('a', 'z')); break; }
    case MI: v.r = s.range(0, 5); v.c = s.range(0, 5); for (int j = 0; j < v.r * v.c; j++) v.i.push_back((int) s.draw(1ull << 32)); break; case AH: v.r = s.range(0, 9); for (int j = 0; j < v.r; j++) v.i.push_back((long long) s.draw(1ull << 62)); break;
    default: if (shape(v.k) == 0) fill(1); else if (shape(v.k) == 1) { v.r = s.range(0, 6); v.c = s.range(0, 6); if (s.flag(1, 12)) { v.r = s.range(20, 60); v.c = s.range(1, 40); } fill((size_t) v.r * v.c); } else { v.r = s.flag(1, 12) ? s.range(50, 400) : s.range(0, 9); v.c = 1; fill(v.r); } } return v; }
template <class T> static M<T> mat(const Val & v) { M<T> m(v.r, v.c); for (int j = 0; j < v.c; j++) for (int i = 0; i < v.r; i++) m(i, j) = (T) v.x[(size_t) j * v.r + i]; return m; }
template <class T> static std::vector<T> arr(const Val & v) { std::vector<T> a; for (auto x : v.x) a.push_back((T) x); return a; }
static void put(Checkpoint & h, const std::string & n, const Val & v) { switch (v.k) { case SD: h.write(n, (double) v.x[0]); break; case SL: h.write(n, (L) v.x[0]); break; case SQ: h.write(n, (Q) v.x[0]); break; case SI: h.write(n, (int) v.i[0]); break; case SH: h.write(n, (hsize_t) v.i[0]); break; case SB: h.write(n, (bool) v.i[0]); break; case ST: h.write(n, v.t); break; case MD: h.write(n, mat<double>(v)); break; case ML: h.write(n, mat<L>(v)); break; case MQ: h.write(n, mat<Q>(v)); break; case MI: { Eigen::MatrixXi m(v.r, v.c); for (int k = 0; k < v.r * v.c; k++) m(k % v.r, k / v.r) = (int) v.i[k]; h.write(n, m); break; }
    case VD: { V<double> a = mat<double>(v).col(0); h.write(n, a); break; } case VL: { V<L> a = mat<L>(v).col(0); h.write(n, a); break; } case VQ: { V<Q> a = mat<Q>(v).col(0); h.write(n, a); break; } case AD: h.write(n, arr<double>(v)); break; case AL: h.write(n, arr<L>(v)); break; case AQ: h.write(n, arr<Q>(v)); break; case AH: { std::vector<hsize_t> a; for (auto x : v.i) a.push_back((hsize_t) x); h.write(n, a); break; } default: break; } }
template <class T> static bool sameq(T a, T b) { return a == b ? std::signbit((long double) a) == std::signbit((long double) b) : (a != a && b != b); }
// number b stored with precision from, read with precision to
template <class T> static bool agree(T got, Q want, int from, int to) { if (to >= from) return sameq((Q) got, want); double w = (double) want, d = std::abs(w); if (to == 0) { if (!(d < 1e300) || d < 1e-290) return true; return std::abs((double) ((Q) got - want)) <= 2.3e-16 * d; } L wl = (L) want; return std::abs((L) ((Q) got - want)) <= 1.1e-19L * std::abs(wl) || !std::isfinite(wl); }
template <class T> static void getf(vt::Ctx & c, Checkpoint & h, const std::string & n, const Val & v, int sh, int to, const std::string & w) { int from = prec(v.k); auto one = [&](T g, size_t j) { c.ok(agree<T>(g, v.x[j], from, to), vt::fmt("%s: element %d is %.21Lg, expected %.21Lg", w.c_str(), (int) j, (L) g, (L) v.x[j])); };
  if (sh == 0) { T a = 7; h.read(n, a); one(a, 0); } else if (sh == 1) { M<T> m = M<T>::Constant(2, 3, (T) 5); h.read(n, m); c.ok(m.rows() == v.r && m.cols() == v.c, w + vt::fmt(": shape %dx%d", (int) m.rows(), (int) m.cols())); for (int j = 0; j < v.c; j++) for (int i = 0; i < v.r; i++) one(m(i, j), (size_t) j * v.r + i); } else if (sh == 2) { V<T> m = V<T>::Constant(3, (T) 5); h.read(n, m); c.ok(m.size() == v.r, w + ": length"); for (int i = 0; i < v.r; i++) one(m(i), i); } else { std::vector<T> a(4, (T) 5); h.read(n, a); c.ok((int) a.size() == v.r, w + ": length"); for (int i = 0; i < v.r; i++) one(a[i], i); } }
// can an entry written as v.k be read as k?  1 yes, 0 must be refused, -1 not specified
static int readable(const Val & v, Kind k) { int a = shape(v.k), b = shape(k); if (a >= 0 && b >= 0) { if (a == b) return 1; if (a == 2 && b == 1) return 1; if (a == 1 && b == 2) return v.c == 1; return 0; } if ((a >= 0) != (b >= 0)) return 0; if (v.k == k) return 1; bool sa = v.k == SI || v.k == SH || v.k == SB, sb = k == SI || k == SH || k == SB; if (sa && sb) { if (k == SB) return -1; return v.i[0] >= 0 && v.i[0] <= 1000 ? 1 : -1; } if (v.k == ST && k == AH) return -1; return 0; }
static void get(vt::Ctx & c, Checkpoint & h, const std::string & n, const Val & v, Kind k, const std::string & w) { int sh = shape(k), to = prec(k); if (sh >= 0) { if (to == 0) getf<double>(c, h, n, v, sh, 0, w); else if (to == 1) getf<L>(c, h, n, v, sh, 1, w); else getf<Q>(c, h, n, v, sh, 2, w); return; }
  switch (k) { case SI: { int a = -9; h.read(n, a); c.ok(a == v.i[0], w + vt::fmt(": %d", a)); break; } case SH: { hsize_t a = 9; h.read(n, a); c.ok((long long) a == v.i[0], w + ": value"); break; } case SB: { bool a = !v.i[0]; h.read(n, a); c.ok(a == (v.i[0] != 0), w + ": value"); break; } case ST: { std::string a = "old"; h.read(n, a); c.ok(a == v.t, w + vt::fmt(": a string of length %d came back with length %d", (int) v.t.size(), (int) a.size())); break; } case MI: { Eigen::MatrixXi m = Eigen::MatrixXi::Constant(1, 2, 3); h.read(n, m); c.ok(m.rows() == v.r && m.cols() == v.c, w + ": shape"); for (int j = 0; j < v.r * v.c; j++) c.ok(m(j % v.r, j / v.r) == v.i[j], w + ": element"); break; } case AH: { std::vector<hsize_t> a(2, 1); h.read(n, a); c.ok((int) a.size() == v.r, w + ": length"); for (int j = 0; j < v.r; j++) c.ok((long long) a[j] == v.i[j], w + ": element"); break; } default: break; } }
// a read that has to fail must leave its target alone
template <class T> static bool bad(Checkpoint & h, const std::string & n, T x) { T y = x; try { h.read(n, y); } catch (const std::exception &) { return !(y == x) ? throw vt::Fail("a refused read changed its target") : true; } return false; }
static bool refuse(Checkpoint & h, const std::string & n, Kind k) { switch (k) { case SD: return bad<double>(h, n, 3.5); case SL: return bad<L>(h, n, 3.5L); case SQ: return bad<Q>(h, n, (Q) 3.5); case SI: return bad<int>(h, n, 3); case SH: return bad<hsize_t>(h, n, 3); case SB: return bad<bool>(h, n, true); case ST: return bad<std::string>(h, n, "abc"); case MD: return bad<M<double>>(h, n, M<double>::Constant(2, 2, 1.5)); case ML: return bad<M<L>>(h, n, M<L>::Constant(2, 2, 1.5L)); case MQ: return bad<M<Q>>(h, n, M<Q>::Constant(2, 2, (Q) 1.5)); case MI: return bad<Eigen::MatrixXi>(h, n, Eigen::MatrixXi::Constant(2, 2, 4)); case VD: return bad<V<double>>(h, n, V<double>::Constant(2, 1.5)); case VL: return bad<V<L>>(h, n, V<L>::Constant(2, 1.5L)); case VQ: return bad<V<Q>>(h, n, V<Q>::Constant(2, (Q) 1.5)); case AD: return bad<std::vector<double>>(h, n, {1, 2}); case AL: return bad<std::vector<L>>(h, n, {1, 2}); case AQ: return bad<std::vector<Q>>(h, n, {1, 2}); case AH: return bad<std::vector<hsize_t>>(h, n, {1, 2}); default: return true; } }

struct Scratch { std::string d; Scratch() { char b[] = "/tmp/vtchkXXXXXX"; if (!mkdtemp(b)) throw vt::Reject(); d = b; } ~Scratch() { std::error_code e; std::filesystem::remove_all(d, e); } std::string f(int i) const { return d + "/f" + std::to_string(i) + ".chk"; } };
static const char * names[] = {"Pa", "Pb", "nela", "bval", "x", "a name with spaces", "Z"};
struct H { std::unique_ptr<Checkpoint> p; int file = 0; bool w = false, open = false; };
VT_CHECK(histories, 6000, 40000, "an overwrite with another type and a failing operation") {
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); Scratch dir; const int NF = 2, NH = 3; std::map<std::string, Val> disk[NF]; bool there[NF] = {false, false}; H h[NH]; bool over = false, failed = false; int steps = s.range(3, 40); std::string log; auto note = [&](const std::string & t) { log += (log.empty() ? "" : "; ") + t; };
  struct Say { vt::Ctx & c; std::string & l; ~Say() { c.d("%s", l.substr(0, 3000).c_str()); } } say{c, log};
  auto busy = [&](int f, int but) { for (int k = 0; k < NH; k++) if (k != but && h[k].p && h[k].open && h[k].file == f) return true; return false; };
  for (int st = 0; st < steps; st++) { int k = (int) s.draw(NH); H & q = h[k]; int op = s.range(0, 15);
    if (!q.p || op == 0) { int f = (int) s.draw(NF); bool w = s.flag(2, 3), tr = s.flag(1, 3); if (q.p) { note(vt::fmt("destroy %d", k)); q.p.reset(); q.open = false; } bool clash = busy(f, k), trunc = w && (tr || !there[f]); if (clash && !trunc) continue; bool ok = trunc ? !clash : there[f]; note(vt::fmt("%d=new(file %d,%s,%s)", k, f, w ? "write" : "read", tr ? "truncate" : "keep")); bool threw = false; std::unique_ptr<Checkpoint> np; try { np.reset(new Checkpoint(dir.f(f), w, tr)); } catch (const std::exception &) { threw = true; } c.ok(threw == !ok, ok ? "opening a checkpoint failed" : "an impossible checkpoint was opened"); if (threw) { failed = true; continue; } q.p = std::move(np); q.file = f; q.w = w; if (trunc) { disk[f].clear(); there[f] = true; q.open = false; } else q.open = true; c.ok(q.p->is_open() == q.open, "open state after construction"); continue; }
    auto & D = disk[q.file]; bool canopen = q.open || !busy(q.file, k); auto state = [&](const char * w) { c.ok(q.p->is_open() == q.open, vt::fmt("%s left the checkpoint %s", w, q.open ? "closed" : "open")); };
    if (op == 1) { if (!q.open && !canopen) continue; note(vt::fmt("open %d", k)); if (q.open) { failed = true; c.throws([&] { q.p->open(); }, "opening an open checkpoint"); } else { q.p->open(); q.open = true; } state("open"); continue; }
    if (op == 2) { note(vt::fmt("close %d", k)); if (!q.open) { failed = true; c.throws([&] { q.p->close(); }, "closing a closed checkpoint"); } else { q.p->close(); q.open = false; } state("close"); continue; }
    if (op == 3) { note(vt::fmt("flush %d", k)); q.p->flush(); state("flush"); continue; }
    if (!canopen) continue; const bool weird = s.flag(1, 14); std::string n = weird ? (s.flag() ? "no/group" : "") : names[s.draw(7)]; auto it = D.find(n); bool has = it != D.end();
    if (op <= 8) { Val v = value(s); note(vt::fmt("write %d.%s=%s", k, n.c_str(), v.str().c_str())); if (!q.w || weird) { failed = true; c.throws([&] { put(*q.p, n, v); }, q.w ? "writing under an impossible name" : "writing to a read-only checkpoint"); } else { put(*q.p, n, v); if (has && it->second.k != v.k) over = true; D[n] = v; } state("write"); }
    else if (op <= 12) { Kind kk = has && s.flag(2, 3) ? it->second.k : (Kind) s.draw(NK); int ok = has ? readable(it->second, kk) : 0; if (ok < 0) continue; note(vt::fmt("read %d.%s as %s", k, n.c_str(), kn[kk])); if (ok) get(c, *q.p, n, it->second, kk, vt::fmt("reading %s (%s) as %s", n.c_str(), it->second.str().c_str(), kn[kk])); else { failed = true; c.ok(refuse(*q.p, n, kk), vt::fmt("reading %s as %s was not refused", has ? it->second.str().c_str() : "a missing entry", kn[kk])); } state("read"); }
    else if (op == 13) { note(vt::fmt("remove %d.%s", k, n.c_str())); if (!q.w) { failed = true; c.throws([&] { q.p->remove(n); }, "removing from a read-only checkpoint"); } else { q.p->remove(n); D.erase(n); } state("remove"); }
    else { c.ok(q.p->exist(n) == has, vt::fmt("exist(%s) is wrong", n.c_str())); state("exist"); } }
  for (auto & q : h) { q.p.reset(); q.open = false; } c.nontrivial = over && failed; c.label("refused operations", failed ? "some" : "none");
  // everything must be readable afterwards, and the files must really be closed
  for (int f = 0; f < NF; f++) { if (!there[f]) { c.throws([&] { Checkpoint z(dir.f(f), false); }, "opening a file that was never written"); continue; } for (int pass = 0; pass < 2; pass++) { Checkpoint z(dir.f(f), pass == 1, false); if (s.flag()) z.close(); for (const char * n : names) { auto it = disk[f].find(n); bool has = it != disk[f].end(); c.ok(z.exist(n) == has, vt::fmt("at the end: exist(%s)", n)); if (has) get(c, z, n, it->second, it->second.k, vt::fmt("at the end: %s (%s)", n, it->second.str().c_str())); } } { Checkpoint z(dir.f(f), true, true); for (const char * n : names) c.ok(!z.exist(n), "truncation keeps entries"); } }
  ssize_t left = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_DATASET | H5F_OBJ_FILE); c.ok(left == 0, vt::fmt("%d HDF5 objects are still open", (int) left));
}
VT_CHECK(garbage, 300, 3000, "any") {
  // files that are not checkpoints
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); Scratch dir; int n = s.range(0, 2000); std::string b; for (int i = 0; i < n; i++) b += (char) s.range(0, 255); c.d("a file of %d random bytes", n); { FILE * f = fopen(dir.f(0).c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); } c.nontrivial = true; bool w = s.flag(); c.throws([&] { Checkpoint z(dir.f(0), w, false); }, "a file that is not a checkpoint was opened"); { std::string t(n + 10, 0); FILE * f = fopen(dir.f(0).c_str(), "rb"); size_t m = fread(&t[0], 1, t.size(), f); fclose(f); c.ok(m == b.size() && t.compare(0, m, b) == 0, "the refused file was modified"); } c.throws([&] { Checkpoint z(dir.d + "/missing/x.chk", true); }, "a checkpoint in a missing directory was created"); Checkpoint z(dir.f(0), true, true); z.write("x", 3); int x = 0; z.read("x", x); c.ok(x == 3, "truncated garbage file");
}
template <class B> static void restored(vt::Ctx & c, const B & a, const B & b) { auto eq = [&](const MatD & x, const MatD & y, const char * w) { c.ok(x.rows() == y.rows() && x.cols() == y.cols(), vt::fmt("%s: size", w)); if (x.rows() == y.rows() && x.size()) same(c, y, x, 1e-13 * std::max(1e-12, x.cwiseAbs().maxCoeff()), w); }; eq(a.overlap(), b.overlap(), "restored overlap"); eq(a.kinetic(), b.kinetic(), "restored kinetic energy"); eq(a.nuclear(), b.nuclear(), "restored nuclear attraction"); eq(a.dipole_z(), b.dipole_z(), "restored dipole"); c.ok(a.Nbf() == b.Nbf(), "restored size"); c.ok(a.get_lval() == b.get_lval() && a.get_mval() == b.get_mval(), "restored angular basis"); c.ok(a.get_nquad() == b.get_nquad(), "restored quadrature"); }
VT_CHECK(atomic_basis, 220, 2200, "a finite or off-centre nucleus") {
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); Scratch dir; Spec p = spec(s, c, 3, 4, 3, 5); static const helfem::modelpotential::nuclear_model_t mods[] = {helfem::modelpotential::POINT_NUCLEUS, helfem::modelpotential::GAUSSIAN_NUCLEUS, helfem::modelpotential::SPHERICAL_NUCLEUS, helfem::modelpotential::HOLLOW_NUCLEUS}; p.mod = mods[s.draw(4)]; p.Rrms = s.logreal(0.05, 0.4); if (s.flag()) { p.Zl = s.range(0, 9); p.Zr = s.range(0, 9); p.Rh = p.e.b[s.range(1, p.e.nel())]; } p.zd = s.flag(); c.d(" model=%d Zl=%d Zr=%d R=%.4g zeroder=%d", (int) p.mod, p.Zl, p.Zr, p.Rh, p.zd); c.nontrivial = p.mod != helfem::modelpotential::POINT_NUCLEUS || p.Zl || p.Zr; AB a = p.make(); bool keep = s.flag(), others = s.flag(); VecD pa = VecD::Random(4);
  { Checkpoint z(dir.f(0), true); if (keep) z.open(); if (others) { z.write("Pa", pa); z.write("Z", std::string("to be replaced")); } z.write(a); c.ok(z.is_open() == keep, "open state after writing a basis"); } Checkpoint z(dir.f(0), false); if (!keep) z.close(); { DB d; c.throws([&] { z.read(d); }, "an atomic basis was read as a diatomic one"); c.ok(z.is_open() == keep, "open state after a refused basis"); } AB b; z.read(b); c.ok(z.is_open() == keep, "open state after reading a basis"); restored(c, a, b); c.ok(b.get_Z() == p.Z && b.get_Zl() == p.Zl && b.get_Zr() == p.Zr, "restored charges"); c.ok(b.get_nuclear_model() == p.mod && b.get_nuclear_size() == p.Rrms && b.get_Rhalf() == p.Rh, "restored nuclei"); if (others) { VecD q; z.read("Pa", q); c.ok(q == pa, "unrelated entry changed"); } if (s.flag(1, 4) && a.Nbf() < 40) { a.compute_tei(true); b.compute_tei(true); MatD P = randsymf(s, (int) a.Nbf()); MatD x = a.coulomb(P), y = b.coulomb(P); same(c, y, x, 1e-12 * x.cwiseAbs().maxCoeff(), "restored Coulomb matrix"); x = a.exchange(P); y = b.exchange(P); same(c, y, x, 1e-12 * x.cwiseAbs().maxCoeff(), "restored exchange matrix"); }
}
VT_CHECK(diatomic_basis, 220, 2200, "more than one shell") {
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); Scratch dir; DSpec p = dspec(s, c, 3, 4, 2, 4); DB a = p.make(); c.nontrivial = p.na() > 1; bool keep = s.flag(); { Checkpoint z(dir.f(0), true); if (keep) z.open(); z.write(a); c.ok(z.is_open() == keep, "open state after writing a basis"); } Checkpoint z(dir.f(0), false); if (!keep) z.close(); { AB d; c.throws([&] { z.read(d); }, "a diatomic basis was read as an atomic one"); c.ok(z.is_open() == keep, "open state after a refused basis"); } DB b; z.read(b); c.ok(z.is_open() == keep, "open state after reading a basis"); restored(c, a, b); c.ok(b.get_Z1() == p.Z1 && b.get_Z2() == p.Z2 && b.get_Rhalf() == p.R, "restored molecule"); if (s.flag(1, 4) && a.Nbf() < 30) { a.compute_tei(true); b.compute_tei(true); MatD P = randsymf(s, (int) a.Nbf()); MatD x = a.coulomb(P), y = b.coulomb(P); same(c, y, x, 1e-12 * x.cwiseAbs().maxCoeff(), "restored Coulomb matrix"); x = a.exchange(P); y = b.exchange(P); same(c, y, x, 1e-12 * x.cwiseAbs().maxCoeff(), "restored exchange matrix"); }
}
VT_MAIN()
