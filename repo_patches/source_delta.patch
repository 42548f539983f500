From 1f81fd2293b544a9926ee5e4142bd91f4603cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:32 +0000
Subject: [PATCH 01/31] fix: HIPBasis::drop_last(false, false) must not drop
 the value function

---
 libhelfem/include/HIPBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/include/HIPBasis.h b/libhelfem/include/HIPBasis.h
index 8c34c75..d387894 100644
--- a/libhelfem/include/HIPBasis.h
+++ b/libhelfem/include/HIPBasis.h
@@ -71,7 +71,7 @@ class HIPBasisT : public LIPBasisT<T> {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 2).eval();
     } else if (deriv) {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 1).eval();
-    } else {
+    } else if (func) {
       IVec new_enabled(this->enabled.size() - 1);
       new_enabled.segment(0, this->enabled.size() - 2)
           = this->enabled.segment(0, this->enabled.size() - 2);
-- 
2.43.0


From d519704ac45925acf4e08a47d7b26bff1fb58b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 02/31] fix: finite-nucleus grid must end at Rmax, not Rmax +
 Rnuc

---
 src/atomic/basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 31dece3..6a63b2a 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -59,7 +59,7 @@ namespace helfem {
           // Grid for the finite nucleus
           helfem::Vector bnuc(utils::get_grid(rnuc,num_el_nuc,igrid_nuc,zexp_nuc));
           // and the one for the electrons
-          helfem::Vector belec(utils::get_grid(rmax-rnuc,num_el,igrid,zexp));
+          helfem::Vector belec(utils::get_grid(rmax-2*rnuc,num_el,igrid,zexp));
 
           helfem::Vector bnucel(concatenate_grid(bnuc,bnuc));
           return concatenate_grid(bnucel,belec);
-- 
2.43.0


From 0d8cc3b449be3b91da9089dbeebb16522144f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 03/31] fix: shifted polynomial confinement must be (r -
 shift)^N

The weight (r - shift)^(N+2) combined with the 1/r^2 of the R0*R0
representation gave (r - shift)^(N+2)/r^2 for a nonzero shift.
---
 libhelfem/src/RadialBasis.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..d4a057b 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -502,9 +502,12 @@ namespace helfem {
         // element there so each smooth sub-panel converges by order-refinement.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
                               [N, shift_pot](T r) {
-                                return (r < shift_pot)
-                                    ? T(0)
-                                    : std::pow(r - shift_pot, N + 2);
+                                if (r < shift_pot) return T(0);
+                                // R0*R0 carries 1/r^2, which r^2 undoes; only
+                                // without a shift may it be merged with the
+                                // power (which can then be negative).
+                                if (shift_pot == T(0)) return std::pow(r, N + 2);
+                                return std::pow(r - shift_pot, N) * r * r;
                               },
                               std::vector<T>{shift_pot}, -1);
       }
-- 
2.43.0


From ef8ea1148e833d0cf92a8b9b7da5cda7e53df79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 04/31] fix: cross-basis matrix elements of 1/r must not be NaN

The Gauss-Lobatto rule samples r=0, where the singular weight times the
vanishing basis functions evaluated to inf*0.
---
 libhelfem/src/RadialBasis.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index d4a057b..ada35ce 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -404,8 +404,12 @@ namespace helfem {
 
                   helfem::Vec<T> wtot = wproj * intlen;
                   if (weight)
-                    for (Eigen::Index i = 0; i < r.size(); ++i)
-                      wtot(i) *= weight(r(i));
+                    for (Eigen::Index i = 0; i < r.size(); ++i) {
+                      // As in FiniteElementBasisT::matrix_element: a singular
+                      // weight at an endpoint carries no basis amplitude.
+                      const T fv = weight(r(i));
+                      wtot(i) = std::isfinite(fv) ? (wtot(i) * fv) : T(0);
+                    }
 
                   const helfem::Mat<T> ifunc = eval_B_at<T>(fem,    xi, iel, bra);
                   const helfem::Mat<T> jfunc = eval_B_at<T>(rh.fem, xj, jel, ket);
-- 
2.43.0


From 78a8841d2f42d03cee2748d2f151ab941a2313c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:03 +0000
Subject: [PATCH 05/31] fix: negative binomial coefficients in the short-range
 erfc expansion

choose(n,m) for n<0 is (-1)^m choose(m-n-1,m); the wrong identity made
every Taylor term beyond k=3 wrong (relative errors up to 1e-4).
---
 libhelfem/src/erfc_expn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/src/erfc_expn.cpp b/libhelfem/src/erfc_expn.cpp
index b938487..3ba23d1 100644
--- a/libhelfem/src/erfc_expn.cpp
+++ b/libhelfem/src/erfc_expn.cpp
@@ -79,7 +79,7 @@ namespace helfem {
 
         // Negative binomials
         if(n<0) {
-          return choose<T>(n+m-1,m)*std::pow(T(-1),m);
+          return choose<T>(m-n-1,m)*std::pow(T(-1),m);
         } else {
           // Multiplicative formula keeps the running value as a T
           // and avoids any factorial overflow for large n.
-- 
2.43.0


From 76441b7cf57940d6e6a06cab8c1850aa59ecb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:34 +0000
Subject: [PATCH 06/31] fix: GSZ guess must use the parameters of the requested
 element

The table starts from hydrogen, so the entry for Z is at Z-1; Lr read past
the end of the table. A zero-charge dummy centre gave NaN; it now carries
no potential, as in the other guesses.
---
 src/general/gsz.cpp             | 8 ++++++--
 src/general/model_potential.cpp | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index a77c686..6fd72a1 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -21,17 +21,21 @@ static const double d_Z_GSZ[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0
 namespace helfem {
   namespace GSZ {
     void GSZ_parameters(int Z, double & d, double & H) {
-      if((size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
+      if(Z<1 || (size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
 	std::ostringstream oss;
 	oss << "No GSZ parameters for Z = " << Z << "!\n";
 	throw std::logic_error(oss.str());
       }
 
-      d=d_Z_GSZ[Z];
+      // The table starts from hydrogen
+      d=d_Z_GSZ[Z-1];
       H=d*std::pow(Z-1,0.4);
     }
 
     double Z_GSZ(double r, double Z, double d_Z, double H_Z) {
+      // No screening: avoid 0 * inf at large r
+      if(H_Z == 0.0)
+        return Z;
       return 1.0 + (Z-1)*1.0/(1.0 + (exp(r/d_Z) - 1.0)*H_Z);
     }
 
diff --git a/src/general/model_potential.cpp b/src/general/model_potential.cpp
index 6675d32..bfff3e6 100644
--- a/src/general/model_potential.cpp
+++ b/src/general/model_potential.cpp
@@ -54,8 +54,10 @@ namespace helfem {
       return -GSZ::Z_thomasfermi(r,Z)/r;
     }
 
-    GSZAtom::GSZAtom(int Z_) : Z(Z_) {
-      GSZ::GSZ_parameters(Z,dz,Hz);
+    GSZAtom::GSZAtom(int Z_) : Z(Z_), dz(1.0), Hz(0.0) {
+      // A zero-charge centre has no parameters
+      if(Z != 0)
+        GSZ::GSZ_parameters(Z,dz,Hz);
     }
 
     GSZAtom::GSZAtom(int Z_, double dz_, double Hz_) : Z(Z_), dz(dz_), Hz(Hz_) {
@@ -65,6 +67,7 @@ namespace helfem {
     }
 
     double GSZAtom::V(double r) const {
+      if(Z == 0) return 0.0;   // dummy centre
       return -GSZ::Z_GSZ(r,Z,dz,Hz)/r;
     }
 
-- 
2.43.0


From 1b591a8bc23a2a4dae8e33436c897d4ccc847a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:35 +0000
Subject: [PATCH 07/31] fix: radial GGA screening potential must use the second
 derivative of the density

The divergence of the radial vector field 2 v_sigma grad rho is d/dr + 2/r,
so the chain rule needs rho'', not the Laplacian, when the 2/r term is
added separately; the cross term of d sigma/dr also lacked its factor 1/2.
Also release the correlation functional.
---
 src/general/atomdb.cpp |  9 ++++++---
 src/sadatom/basis.cpp  | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 6c8fc3b..a6f3db3 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -384,9 +384,11 @@ namespace helfem {
         // and for a spherically symmetric density the divergence is
         // d/dr + 2/r. Expanding d/dr of the vsigma terms by the chain
         // rule brings in the second derivatives of the functional and the
-        // Laplacian of the density. Mirrors the grid implementation in
-        // sadatom::basis::TwoDBasis::xc_screening.
+        // second radial derivative of the density. Mirrors the grid
+        // implementation in sadatom::basis::TwoDBasis::xc_screening.
         double corr[2] = {0.0, 0.0};
+        for (int i = 0; i < 2; i++)
+          lapl[i] -= 2.0 / r * grad[i];
 
         // g(t) (d^2 E / d n(t) d sigma(ss')) g(s')
         corr[0] += 2.0 * (grad[0] * v2rhosigma[0] + grad[1] * v2rhosigma[3]) * grad[0];
@@ -395,7 +397,8 @@ namespace helfem {
         corr[1] += (grad[0] * v2rhosigma[1] + grad[1] * v2rhosigma[4]) * grad[0];
 
         // (l(t) g(t') + g(t) l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
-        const double lg = lapl[0] * grad[1] + grad[0] * lapl[1];
+        // with the factor two of the diagonal terms put in below
+        const double lg = 0.5 * (lapl[0] * grad[1] + grad[0] * lapl[1]);
         const double d2Edsaa = lapl[0] * grad[0] * v2sigma2[0] + lg * v2sigma2[1] +
                                lapl[1] * grad[1] * v2sigma2[2];
         const double d2Edsab = lapl[0] * grad[0] * v2sigma2[1] + lg * v2sigma2[3] +
diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a6fd2de..d6d9835 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1120,12 +1120,21 @@ namespace helfem {
           } else {
             xc_lda_vxc(&func, rhoa.size(), rho_libxc.data(), vxc_wrk.data());
           }
+          xc_func_end(&func);
 
           vxc+=vxc_wrk;
         }
 
         // Add GGA correction to xc potential.
         if(do_gga) {
+          // The radial derivative of the gradient is the second
+          // derivative of the density; the 2/r part of the divergence is
+          // added separately below.
+          for(size_t ip=1;ip<Npoints;ip++) {
+            lapla(ip) -= 2.0/r(ip)*grada(ip);
+            laplb(ip) -= 2.0/r(ip)*gradb(ip);
+          }
+
           helfem::Matrix corr = helfem::Matrix::Zero(2,vxc.cols());
 
           // Loop over points: skip nucleus since there's no laplacian there for now
@@ -1145,9 +1154,9 @@ namespace helfem {
 
           for(size_t ip=1;ip<Npoints;ip++) {
             // Second term: (l(t)g(t') + g(t)l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
-            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
-            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
-            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
+            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
+            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
+            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
             // and now we can contract this with the gradient
             corr(0,ip) += 4.0*d2Edsaa*grada(ip) + 2.0*d2Edsab*gradb(ip);
             corr(1,ip) += 4.0*d2Edsbb*gradb(ip) + 2.0*d2Edsab*grada(ip);
-- 
2.43.0


From 7f4e633b62d1dea894cdefb738ccf1826472aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:42 +0000
Subject: [PATCH 08/31] fix: associated Legendre functions lose precision near
 |x| = 1

---
 src/legendre/Legendre.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/legendre/Legendre.h b/src/legendre/Legendre.h
index 1117ffa..6abfe07 100644
--- a/src/legendre/Legendre.h
+++ b/src/legendre/Legendre.h
@@ -97,7 +97,7 @@ inline T q00(T x) {
 template <typename T>
 void seed_plm(T *P, int lmax, int mmax, T x) {
   const T s = sign_factor(x);
-  const T w = sqrt_clamped(s * (T(1) - x * x));
+  const T w = sqrt_clamped(s * ((T(1) - x) * (T(1) + x)));
 
   P[idx(0, 0, lmax)] = T(1);
   const int diag_max = std::min(mmax, lmax);
@@ -135,7 +135,7 @@ void compute_plm(T *P, int lmax, int mmax, T x) {
 template <typename T>
 void seed_qlm(T *Q, int lmax, int mmax, T x) {
   const T s = sign_factor(x);
-  const T w = sqrt_clamped(s * (T(1) - x * x));
+  const T w = sqrt_clamped(s * ((T(1) - x) * (T(1) + x)));
   const T Q00 = q00(x);
 
   Q[idx(0, 0, lmax)] = Q00;
@@ -151,7 +151,7 @@ void seed_qlm(T *Q, int lmax, int mmax, T x) {
     } else {
       Q[idx(0, 1, lmax)] = T(-1) / w;
       if(lmax >= 1)
-        Q[idx(1, 1, lmax)] = -s * w * (Q00 + x / (T(1) - x * x));
+        Q[idx(1, 1, lmax)] = -s * w * (Q00 + x / ((T(1) - x) * (T(1) + x)));
     }
   }
 }
@@ -222,7 +222,7 @@ template <typename T>
 void recur_qlm_in_m_up(T *Q, int lmax, int mmax, T x) {
   if(mmax < 2) return;
   const T s = sign_factor(x);
-  const T w = sqrt_clamped(s * (T(1) - x * x));
+  const T w = sqrt_clamped(s * ((T(1) - x) * (T(1) + x)));
   if(w == T(0))
     throw std::domain_error(
         "helfem::legendre::qlm: w = 0 in m-recurrence; this only happens "
@@ -291,7 +291,7 @@ void compute_qlm_christoffel(T *Q, int lmax, int mmax, T x) {
   // m = 1 column. Reachable only for x > 1 (|x| <= 1 routes through
   // compute_qlm_upward), so x*x - 1 > 0.
   if(mmax >= 1) {
-    const T w = m_sqrt(std::max(x * x - T(1), T(0)));
+    const T w = sqrt_clamped((x - T(1)) * (x + T(1)));
     Q[idx(0, 1, lmax)] = T(-1) / w;
     for(int l = 1; l <= lmax; ++l)
       Q[idx(l, 1, lmax)] = w * Pp[l] * Q00 - P[l] / w - w * Wp[l];
@@ -320,7 +320,7 @@ void compute_qlm_miller(T *Q, int lmax, int mmax, T x) {
     Q[idx(lmax - 1, 1, lmax)] = seed_low;
     Q[idx(lmax, 1, lmax)] = seed_low * ratio1;
     recur_qlm_in_l_down(Q, lmax, 1, x);
-    const T w = sqrt_clamped(sign_factor(x) * (T(1) - x * x));
+    const T w = sqrt_clamped(sign_factor(x) * ((T(1) - x) * (T(1) + x)));
     const T scale = (T(-1) / w) / Q[idx(0, 1, lmax)];
     for(int l = 0; l <= lmax; ++l) Q[idx(l, 1, lmax)] *= scale;
   }
-- 
2.43.0


From b01e1cd6a5a826aa78133f5c188bb66d51fa8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:59 +0000
Subject: [PATCH 09/31] fix: Q_0^0 must not lose precision for small or large
 arguments

---
 src/legendre/Legendre.h          | 9 +++++++--
 src/legendre/Legendre_float128.h | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/legendre/Legendre.h b/src/legendre/Legendre.h
index 6abfe07..6ebc3d0 100644
--- a/src/legendre/Legendre.h
+++ b/src/legendre/Legendre.h
@@ -67,6 +67,7 @@ inline std::size_t idx(int l, int m, int lmax) {
 // instantiating; that adapter specialises these to whatever the type's
 // libm-equivalent is (e.g. logq for __float128).
 template <typename T> inline T m_log (T x) { return std::log (x); }
+template <typename T> inline T m_log1p(T x) { return std::log1p(x); }
 template <typename T> inline T m_sqrt(T x) { return std::sqrt(x); }
 template <typename T> inline T m_cosh(T x) { return std::cosh(x); }
 template <typename T> inline T m_abs (T x) { return std::abs (x); }
@@ -84,10 +85,14 @@ inline T sqrt_clamped(T y) {
   return m_sqrt(std::max(y, T(0)));
 }
 
-// 1/2 ln((x+1)/(x-1)). Stable away from x = +/- 1.
+// 1/2 ln|(x+1)/(x-1)|, with full relative accuracy also for |x| << 1 and
+// |x| >> 1 where the two logarithms would cancel.
 template <typename T>
 inline T q00(T x) {
-  return T(0.5) * (m_log(m_abs(x + T(1))) - m_log(m_abs(x - T(1))));
+  const T a = m_abs(x);
+  const T q = (a <= T(1)) ? m_log1p(a) - m_log1p(-a)
+                          : m_log1p(T(2) / (a - T(1)));
+  return (x < T(0)) ? -T(0.5) * q : T(0.5) * q;
 }
 
 // Seed P_m^m and P_(m+1)^m for every m needed.
diff --git a/src/legendre/Legendre_float128.h b/src/legendre/Legendre_float128.h
index 3c50561..a000914 100644
--- a/src/legendre/Legendre_float128.h
+++ b/src/legendre/Legendre_float128.h
@@ -41,6 +41,7 @@ namespace legendre {
 namespace detail {
 
 template <> inline __float128 m_log <__float128>(__float128 x) { return logq (x); }
+template <> inline __float128 m_log1p<__float128>(__float128 x) { return log1pq(x); }
 template <> inline __float128 m_sqrt<__float128>(__float128 x) { return sqrtq(x); }
 template <> inline __float128 m_cosh<__float128>(__float128 x) { return coshq(x); }
 template <> inline __float128 m_abs <__float128>(__float128 x) { return fabsq(x); }
-- 
2.43.0


From 1287043e26534d2788036a56de53cdb36bc8e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:34 +0000
Subject: [PATCH 10/31] fix: off-centre nuclei must not be dropped with a
 non-point central nucleus

---
 src/atomic/TwoDBasis.cpp | 71 ++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/atomic/TwoDBasis.cpp b/src/atomic/TwoDBasis.cpp
index a601249..a31f8de 100644
--- a/src/atomic/TwoDBasis.cpp
+++ b/src/atomic/TwoDBasis.cpp
@@ -376,68 +376,69 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> TwoDBasisT<T>::nuclear() const {
+        // Full nuclear attraction matrix
+        helfem::Mat<T> V = helfem::Mat<T>::Zero(Ndummy(), Ndummy());
+
+        // Central nucleus
         if(model != modelpotential::POINT_NUCLEUS) {
           modelpotential::ModelPotentialT<T> *pot=modelpotential::get_nuclear_model<T>(model,Z,Rrms);
-          helfem::Mat<T> Vnuc = model_potential(pot);
+          V = model_potential(pot);
           delete pot;
-          return Vnuc;
         } else {
-          // Full nuclear attraction matrix
-          helfem::Mat<T> V = helfem::Mat<T>::Zero(Ndummy(), Ndummy());
-
           if (Z != 0) {
             const helfem::Mat<T> Vrad = helfem::assemble_radial_diagonal(radial,
                 [&](size_t iel) { return radial.radial_integral(-1, iel); });
             for (size_t iang = 0; iang < (size_t) lval.size(); iang++)
               set_sub(V, iang, iang, static_cast<T>(-Z) * Vrad);
           }
+        }
 
-          if(Zl != 0 || Zr != 0) {
-            // Auxiliary matrices
-            int Lmax(2*lval.maxCoeff());
-            std::vector<helfem::Mat<T>> Vaux(Lmax+1);
+        // Off-centre nuclei
+        if(Zl != 0 || Zr != 0) {
+          // Auxiliary matrices
+          int Lmax(2*lval.maxCoeff());
+          std::vector<helfem::Mat<T>> Vaux(Lmax+1);
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
-            for (int L = 0; L <= Lmax; L++) {
-              Vaux[L] = helfem::assemble_radial_diagonal(radial,
-                  [&](size_t iel) { return radial.nuclear_offcenter(iel, Rhalf, L); });
-            }
+          for (int L = 0; L <= Lmax; L++) {
+            Vaux[L] = helfem::assemble_radial_diagonal(radial,
+                [&](size_t iel) { return radial.nuclear_offcenter(iel, Rhalf, L); });
+          }
 
-            int gmax(std::max(lval.maxCoeff(),mval.maxCoeff()));
-            gaunt::GauntT<T> gaunt(gmax,2*gmax,gmax);
+          int gmax(std::max(lval.maxCoeff(),mval.maxCoeff()));
+          gaunt::GauntT<T> gaunt(gmax,2*gmax,gmax);
 
-            /// Loop over basis set
+          /// Loop over basis set
 #ifdef _OPENMP
 #pragma omp parallel for collapse(2)
 #endif
-            for(size_t iang=0;iang<(size_t) lval.size();iang++) {
-              for(size_t jang=0;jang<(size_t) lval.size();jang++) {
-                int li(lval(iang));
-                int mi(mval(iang));
+          for(size_t iang=0;iang<(size_t) lval.size();iang++) {
+            for(size_t jang=0;jang<(size_t) lval.size();jang++) {
+              int li(lval(iang));
+              int mi(mval(iang));
 
-                int lj(lval(jang));
-                int mj(mval(jang));
+              int lj(lval(jang));
+              int mj(mval(jang));
 
-                // Zero contribution
-                if(mi!=mj)
-                  continue;
+              // Zero contribution
+              if(mi!=mj)
+                continue;
 
-                // Loop over L
-                for(int L=std::abs(li-lj);L<=li+lj;L++) {
-                  T cpl(gaunt.coeff(li,mi,L,0,lj));
-                  if(cpl==T(0))
-                    continue;
+              // Loop over L
+              for(int L=std::abs(li-lj);L<=li+lj;L++) {
+                T cpl(gaunt.coeff(li,mi,L,0,lj));
+                if(cpl==T(0))
+                  continue;
 
-                  const T signL = (L & 1) ? T(-1) : T(1);
-                  add_sub(V,iang,jang,(cpl*(signL*T(Zl) + T(Zr)))*Vaux[L]);
-                }
+                const T signL = (L & 1) ? T(-1) : T(1);
+                add_sub(V,iang,jang,(cpl*(signL*T(Zl) + T(Zr)))*Vaux[L]);
               }
             }
           }
-
-          return V;
         }
+
+        return V;
       }
 
       template <typename T>
-- 
2.43.0


From 784a01442d6354dd4c5660bf4dc0d32b66b16b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:11 +0000
Subject: [PATCH 11/31] fix: theta derivative of basis functions must be finite
 and correct at the poles

---
 src/atomic/TwoDBasis.cpp | 20 +++++++-------------
 src/diatomic/basis.cpp   | 32 ++++++++++++++------------------
 2 files changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/atomic/TwoDBasis.cpp b/src/atomic/TwoDBasis.cpp
index a31f8de..d97934b 100644
--- a/src/atomic/TwoDBasis.cpp
+++ b/src/atomic/TwoDBasis.cpp
@@ -1177,25 +1177,19 @@ namespace helfem {
           // and so is phi
           for(size_t i=0;i<(size_t) lval.size();i++)
             dphi.middleCols(i*frad.cols(),frad.cols())=(std::complex<double>(0.0,mval(i))*sph(i))*frad.cast<std::complex<double>>();
-          // sin^2(theta) = (1 - cth)(1 + cth) is algebraically identical to
-          // 1 - cth*cth but avoids the catastrophic cancellation when cth is
-          // close to +/- 1. The std::max(..., 0.0) is a paranoia floor for
-          // the case where round-off pushes the product slightly negative.
-          const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-          // cot(theta) is singular at the poles; for cth = +/- 1 the m*cot*Y
-          // term is the m=0 case (contribution 0) or |m|>=1 with sph(i)=0 in
-          // the limit, so a defensive 0 is the right value here.
-          const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
 
           // but theta is nastier
           for(size_t i=0;i<(size_t) lval.size();i++) {
             int l(lval(i));
             int m(mval(i));
 
-            // Angular factor
-            std::complex<double> angfac(m*cotth*sph(i));
-            if(mval(i)<lval(i))
-              angfac+=sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(lval(i),mval(i)+1,cth,phi);
+            // Angular factor from both ladder operators, regular also at the
+            // poles where m*cot(theta)*Y is a 0/0 limit
+            std::complex<double> angfac(0.0);
+            if(m<l)
+              angfac+=0.5*sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(l,m+1,cth,phi);
+            if(-m<l)
+              angfac-=0.5*sqrt((l+m)*(l-m+1))*std::exp(std::complex<double>(0,phi))*::spherical_harmonics(l,m-1,cth,phi);
 
             dth.middleCols(i*frad.cols(),frad.cols())=angfac*frad.cast<std::complex<double>>();
           }
diff --git a/src/diatomic/basis.cpp b/src/diatomic/basis.cpp
index 196946c..933299c 100644
--- a/src/diatomic/basis.cpp
+++ b/src/diatomic/basis.cpp
@@ -2223,20 +2223,18 @@ namespace helfem {
         // and so is phi
         for(size_t i=0;i<(size_t) lval.size();i++)
           dphi.middleCols(i*Nc,Nc)=(std::complex<double>(0.0,mval(i))*sph(i))*frad.cast<std::complex<double>>();
-        // sin^2(theta) = (1 - cth)(1 + cth) avoids the catastrophic
-        // cancellation in 1 - cth*cth when cth is close to +/- 1.
-        const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-        const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
         // but theta is nastier
         for(size_t i=0;i<(size_t) lval.size();i++) {
           int l(lval(i));
           int m(mval(i));
 
-          // Angular factor
-          std::complex<double> angfac(m*cotth*sph(i));
-          if(mval(i)<lval(i))
-            angfac+=sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(lval(i),mval(i)+1,cth,phi);
+          // Angular factor from both ladder operators, regular also at the
+          // poles where m*cot(theta)*Y is a 0/0 limit
+          std::complex<double> angfac(0.0);
+          if(m<l)
+            angfac+=0.5*sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(l,m+1,cth,phi);
+          if(-m<l)
+            angfac-=0.5*sqrt((l+m)*(l-m+1))*std::exp(std::complex<double>(0,phi))*::spherical_harmonics(l,m-1,cth,phi);
 
           dth.middleCols(i*Nc,Nc)=angfac*frad.cast<std::complex<double>>();
         }
@@ -2250,23 +2248,21 @@ namespace helfem {
           if(mval(i)==m)
             flist.push_back(i);
 
-        // sin^2(theta) = (1 - cth)(1 + cth) avoids the catastrophic
-        // cancellation in 1 - cth*cth when cth is close to +/- 1.
-        const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-        const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
         // Angular factors, evaluated at phi = 0 where they are real.
         helfem::Vector sph(flist.size()), dsph(flist.size());
         for(size_t i=0;i<flist.size();i++) {
           const int l(lval(flist[i]));
           const int mm(mval(flist[i]));
           sph(i)=std::real(::spherical_harmonics(l,mm,cth,0.0));
-          // d Y_l^m / d theta = m cot(th) Y_l^m + sqrt((l-m)(l+m+1)) Y_l^{m+1}
-          // (the e^{-i phi} of the raising term is unity at phi = 0).
-          double angfac = mm*cotth*sph(i);
+          // d Y_l^m / d theta from both ladder operators, regular also at the
+          // poles (the phases of the two terms are unity at phi = 0).
+          double angfac = 0.0;
           if(mm < l)
-            angfac += std::sqrt((double)(l-mm)*(double)(l+mm+1))
+            angfac += 0.5 * std::sqrt((double)(l-mm)*(double)(l+mm+1))
                        * std::real(::spherical_harmonics(l,mm+1,cth,0.0));
+          if(-mm < l)
+            angfac -= 0.5 * std::sqrt((double)(l+mm)*(double)(l-mm+1))
+                       * std::real(::spherical_harmonics(l,mm-1,cth,0.0));
           dsph(i)=angfac;
         }
 
-- 
2.43.0


From 5c227168d8dc9441fc019ab10c739572388054b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:48 +0000
Subject: [PATCH 12/31] fix: measure the polar angle of bond-midpoint probe
 functions from the midpoint

---
 src/diatomic/twodquadrature.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diatomic/twodquadrature.cpp b/src/diatomic/twodquadrature.cpp
index 56f34f0..c4f20e6 100644
--- a/src/diatomic/twodquadrature.cpp
+++ b/src/diatomic/twodquadrature.cpp
@@ -275,7 +275,10 @@ namespace helfem {
           for(size_t ia=0;ia<wang.size();ia++)
             for(size_t ir=0;ir<wrad.size();ir++) {
               size_t idx=ia*wrad.size()+ir;
-              double cthval = cth(ia);
+              // Polar angle z/r around the bond midpoint; the spheroidal
+              // angle nu only coincides with it far from the molecule.
+              double rsq = std::max(chmu(ir)*chmu(ir) + cth(ia)*cth(ia) - 1.0, 0.0);
+              double cthval = rsq > 0.0 ? chmu(ir)*cth(ia)/std::sqrt(rsq) : 1.0;
               double Plm = eval_Plm(cthval);
               for(size_t ix=0;ix<itg.rows();ix++)
                 itg(ix,idx)*=Plm;
-- 
2.43.0


From 0c7cfca0a13a50896cad8497b4f0c95f192e5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 13/31] fix: van der Waals radius must bisect on the density
 threshold

---
 src/sadatom/basis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index d6d9835..47231eb 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -840,11 +840,11 @@ namespace helfem {
             helfem::Vector m = a + (b-a)/2.0;
             double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
 
-            if(density_m < eps) {
+            if(density_m < vdw_threshold) {
               b = m;
-            } else if(density_m > eps) {
+            } else if(density_m > vdw_threshold) {
               a = m;
-            } else if(density_m == eps)
+            } else if(density_m == vdw_threshold)
               break;
 
             ibisect++;
-- 
2.43.0


From 1d371f6ae9d17cb102b2ab191243d28539b7e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:08 +0000
Subject: [PATCH 14/31] fix: fully polarised Laplacian functionals must not
 touch the empty beta Fock matrix

---
 src/atomic/dftgrid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index ff7e7ae..57e8d13 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -418,7 +418,7 @@ namespace helfem {
         }
 
 
-        if(do_mgga_t) {
+        if(do_mgga_t || do_mgga_l) {
           helfem::Vector vtl_a=helfem::Vector::Zero(wtot.size());
           if(do_mgga_t)
             vtl_a += 0.5*vtau.row(0).transpose();
@@ -450,9 +450,11 @@ namespace helfem {
         }
         if(do_mgga_l) {
           helfem::Vector vl_a=vlapl.row(0).transpose().array()*wtot.array();
-          helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
           helfem::dftgrid_common::increment_mgga_lapl_split(Ha,vl_a,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
-          helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          if(beta) {
+            helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
+            helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          }
         }
 
         for(size_t i=0;i<bf_ind.size();i++)
-- 
2.43.0


From 7166c6c70c333771cad00bbc2f8436ea44f5e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:22 +0000
Subject: [PATCH 15/31] fix: --load must transform the density contravariantly
 to the orthonormal basis

---
 src/general/scf_driver_common.h | 10 ++++++++--
 src/sadatom/scf.cpp             |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index a2ac755..16bed31 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -29,6 +29,7 @@
 // symmetric eigensolver is double-only.
 
 #include <Eigen/Eigenvalues>
+#include <Eigen/LU>
 #include <algorithm>
 #include <sstream>
 #include <string>
@@ -222,8 +223,12 @@ namespace helfem {
     /// blocks become 0x0 placeholders. Called per spin channel and
     /// per block from the driver's --load path.
     ///
-    ///   P_orth = Sinvh_k^T . Pspin(dsym[k], dsym[k]) . Sinvh_k
+    ///   P_orth = Sinvh_k^-1 . Pspin(dsym[k], dsym[k]) . Sinvh_k^-T
     ///          -> V, w  (descending); w clamped to [0, max_occ]
+    ///
+    /// A density is contravariant: P = (Sinvh V) w (Sinvh V)^T, so going
+    /// to the orthonormal basis takes the inverse of Sinvh. (Sinvh^T M Sinvh
+    /// is the transform of a covariant matrix such as S or F.)
     template <typename Real>
     inline void fill_block_from_density(
         size_t out_index,
@@ -237,7 +242,8 @@ namespace helfem {
         return;
       }
       const helfem::Matrix Pblk  = Pspin(idx, idx);
-      const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
+      const helfem::Matrix Xinv  = Sinvh_block.inverse();
+      const helfem::Matrix Porth = Xinv * Pblk * Xinv.transpose();
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
       // old symmetric-eigensolver + manual reversal.
diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 2cc312e..848d658 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -484,7 +484,9 @@ namespace helfem {
             } else {
               Pl_new = helfem::Matrix::Zero(Nrad, Nrad);
             }
-            const helfem::Matrix Porth = Sinvh_full.transpose() * Pl_new * Sinvh_full;
+            // The density is contravariant: Sinvh^-1 = Sinvh^T S
+            const helfem::Matrix SX = S_new * Sinvh_full;
+            const helfem::Matrix Porth = SX.transpose() * Pl_new * SX;
             Eigen::SelfAdjointEigenSolver<helfem::Matrix> es(Porth);
             if (es.info() != Eigen::Success)
               throw std::logic_error("--load: eigendecomposition of projected l block density failed");
-- 
2.43.0


From 89b6b42ac50d45b21cd09b4d03e1269954622986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:39 +0000
Subject: [PATCH 16/31] fix: save and load the densities of mirrored |m| blocks
 under --symmetry=3

---
 src/diatomic/main.cpp           | 11 ++++++----
 src/general/scf_driver_common.h | 39 ++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 9ed9424..2e6a923 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -633,13 +633,16 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr,
+            &dmirror[k]);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open,
+            &dmirror[k]);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open,
+            &dmirror[k]);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
@@ -659,7 +662,7 @@ int main(int argc, char **argv) {
     const auto final_occs = scfsolver.get_orbital_occupations();
     helfem::Matrix Pa_final, Pb_final;
     std::tie(Pa_final, Pb_final) = helfem::scf_driver::assemble_final_density<OOO_Real>(
-        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs);
+        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs, &dmirror);
     // Densities written straight through the checkpoint's helfem::Matrix overloads.
     savechk.write("Pa", Pa_final);
     savechk.write("Pb", Pb_final);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index 16bed31..3189c35 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -235,13 +235,20 @@ namespace helfem {
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
         const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
-        const helfem::Matrix & Sinvh_block, double max_occ) {
+        const helfem::Matrix & Sinvh_block, double max_occ,
+        const std::vector<Eigen::Index> * mirror = nullptr) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
         occs[out_index] = helfem::Vector::Zero(0);
         return;
       }
-      const helfem::Matrix Pblk  = Pspin(idx, idx);
+      helfem::Matrix Pblk = Pspin(idx, idx);
+      // A mirrored block carries the electrons of both of its degenerate
+      // partners, so it holds twice the occupation.
+      if (mirror != nullptr && !mirror->empty()) {
+        Pblk += Pspin(*mirror, *mirror);
+        max_occ *= 2.0;
+      }
       const helfem::Matrix Xinv  = Sinvh_block.inverse();
       const helfem::Matrix Porth = Xinv * Pblk * Xinv.transpose();
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
@@ -272,7 +279,8 @@ namespace helfem {
         const std::vector<std::vector<Eigen::Index>> & dsym,
         const std::vector<helfem::Matrix> & Sinvh,
         const OpenOrbitalOptimizer::Orbitals<Real> & final_orbs,
-        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs) {
+        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs,
+        const std::vector<std::vector<Eigen::Index>> * dmirror = nullptr) {
       const size_t nsym = dsym.size();
       const Eigen::Index N = static_cast<Eigen::Index>(Nbf);
       helfem::Matrix Pa_final = helfem::Matrix::Zero(N, N);
@@ -280,17 +288,28 @@ namespace helfem {
       for (size_t k = 0; k < nsym; ++k) {
         if (dsym[k].empty()) continue;
         const std::vector<Eigen::Index> & idx = dsym[k];
+        // The partner of a mirrored block gets half of the occupation,
+        // as in accumulate_density_block.
+        const bool paired = (dmirror != nullptr && !(*dmirror)[k].empty());
+        const double fac = paired ? 0.5 : 1.0;
         const helfem::Matrix orb_a_ao = Sinvh[k] * final_orbs[k];
-        const helfem::Vector occ_a    = final_occs[k];
+        const helfem::Vector occ_a    = fac * final_occs[k];
+        helfem::Matrix Pa_block = orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
+        helfem::Matrix Pb_block;
         if (restricted) {
-          const helfem::Matrix P_block = 0.5 * (orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
-          Pa_final(idx, idx) += P_block;
-          Pb_final(idx, idx) += P_block;
+          Pa_block *= 0.5;
+          Pb_block = Pa_block;
         } else {
           const helfem::Matrix orb_b_ao = Sinvh[k] * final_orbs[nsym + k];
-          const helfem::Vector occ_b    = final_occs[nsym + k];
-          Pa_final(idx, idx) += orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
-          Pb_final(idx, idx) += orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+          const helfem::Vector occ_b    = fac * final_occs[nsym + k];
+          Pb_block = orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+        }
+        Pa_final(idx, idx) += Pa_block;
+        Pb_final(idx, idx) += Pb_block;
+        if (paired) {
+          const std::vector<Eigen::Index> & midx = (*dmirror)[k];
+          Pa_final(midx, midx) += Pa_block;
+          Pb_final(midx, midx) += Pb_block;
         }
       }
       return {Pa_final, Pb_final};
-- 
2.43.0


From 526bdd5f371f18b86931ed55d401aa6f9a3a99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:31 +0000
Subject: [PATCH 17/31] fix: refuse negative explicit electron counts

---
 src/general/scf_helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index b89ccbf..efd0b5b 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -147,6 +147,12 @@ namespace helfem {
         }
 
       } else {
+        if(nela<0 || nelb<0) {
+          std::ostringstream oss;
+          oss << "nela=" << nela << ", nelb=" << nelb << " is not allowed: electron counts cannot be negative!\n";
+          throw std::runtime_error(oss.str());
+        }
+
         Q=Z-nela-nelb;
         M=1+nela-nelb;
 
-- 
2.43.0


From 14f3d56d8708fea57c4feb94c9166b865f79c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:44 +0000
Subject: [PATCH 18/31] fix: checkpoint errors must not leave the file open or
 leak HDF5 handles

---
 src/general/checkpoint.cpp | 425 ++++++++++---------------------------
 1 file changed, 110 insertions(+), 315 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index b266376..fa32895 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -36,6 +36,38 @@ namespace {
     return id;
   }
 
+  // Keeps the file open for the duration of an access routine: an open
+  // file is left open and a closed one is closed again, also when the
+  // routine exits with an exception.
+  class OpenGuard {
+    Checkpoint & chk;
+    const bool cl;
+   public:
+    explicit OpenGuard(Checkpoint & c) : chk(c), cl(!c.is_open()) {
+      if(cl) chk.open();
+    }
+    ~OpenGuard() {
+      if(cl && chk.is_open()) chk.close();
+    }
+    OpenGuard(const OpenGuard &) = delete;
+    OpenGuard & operator=(const OpenGuard &) = delete;
+  };
+
+  // Owned HDF5 identifier, released at the end of the scope. A leaked
+  // identifier would keep the file open after H5Fclose.
+  class H5Handle {
+    const hid_t id;
+    herr_t (* const closer)(hid_t);
+   public:
+    H5Handle(hid_t i, herr_t (*c)(hid_t)) : id(i), closer(c) {}
+    ~H5Handle() {
+      if(id >= 0) closer(id);
+    }
+    H5Handle(const H5Handle &) = delete;
+    H5Handle & operator=(const H5Handle &) = delete;
+    operator hid_t() const { return id; }
+  };
+
   // HDF5 datatype selector for the templated floating-point I/O. Returns
   // the HDF5 *native* (in-memory) datatype matching the C++ scalar T; the
   // write path H5Tcopy()s this for the on-disk (file) datatype, so the
@@ -131,45 +163,29 @@ bool Checkpoint::is_open() const {
 }
 
 bool Checkpoint::exist(const std::string & name) {
-  bool cl=false;
-  if(!opend) {
-    cl=true;
-    open();
-  }
+  const OpenGuard guard(*this);
 
   bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
 
-  if(cl) close();
-
   return ret;
 }
 
 void Checkpoint::remove(const std::string & name) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   if(exist(name)) {
     // Remove the entry from the file.
     H5Ldelete(file, name.c_str(), H5P_DEFAULT);
   }
-
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -182,40 +198,30 @@ void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   dims[0]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  const H5Handle dataspace(H5Screate_simple(2,dims,NULL), H5Sclose);
 
   // Create a datatype. The file datatype matches the T memory type, so
   // T=double stays H5T_IEEE_F64LE (byte-identical to older .chk files).
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  const H5Handle datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -227,7 +233,7 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -247,15 +253,6 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   // read, so a double .chk loads into a long double / _Float128 run.
   m=helfem::Mat<T>::Zero(dims[1],dims[0]);
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 template <typename T>
@@ -280,11 +277,7 @@ void Checkpoint::read(const std::string & name, helfem::Vec<T> & v) {
 void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -297,41 +290,31 @@ void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   dims[1]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  const H5Handle dataspace(H5Screate_simple(2,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  const H5Handle datatype(H5Tcopy(H5T_NATIVE_INT), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -348,26 +331,13 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // column-major buffer is read straight into .data().
   m=Eigen::MatrixXi::Zero(dims[0],dims[1]);
   H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -377,40 +347,30 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  const H5Handle dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  const H5Handle datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, std::vector<T> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -422,7 +382,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -439,23 +399,11 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -465,38 +413,28 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  const H5Handle dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  const H5Handle datatype(H5Tcopy(H5T_NATIVE_HSIZE), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -508,7 +446,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -524,23 +462,11 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   // Allocate memory
   v.resize(dims[0]);
   H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Atomic calculation
   write("HelFEM_ID",1);
@@ -563,17 +489,11 @@ void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   // get_lval/get_mval are Eigen::VectorXi; stored as N x 1 int matrices.
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
-
-  if(cl) close();
 }
 
 
 void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Atomic calculation
   int id;
@@ -612,17 +532,11 @@ void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
 
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::atomic::basis::TwoDBasis(Z, (helfem::modelpotential::nuclear_model_t) finitenuc, Rrms, poly, zeroder, n_quad, bval, lval.col(0), mval.col(0), Zl, Zr, Rhalf);
-  
-  if(cl) close();
 }
 
 void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Atomic calculation
   write("HelFEM_ID",2);
@@ -640,17 +554,11 @@ void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   // get_lval/get_mval are Eigen::VectorXi; stored as N x 1 int matrices.
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
-
-  if(cl) close();
 }
 
 
 void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Atomic calculation
   int id;
@@ -681,57 +589,41 @@ void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
 
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::diatomic::basis::TwoDBasis(Z1, Z2, Rhalf, poly, n_quad, bval, lval.col(0), mval.col(0));
-  
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, T val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  const H5Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  const H5Handle datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, T & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -743,7 +635,7 @@ void Checkpoint::read(const std::string & name, T & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
@@ -752,64 +644,42 @@ void Checkpoint::read(const std::string & name, T & v) {
   // Read. HDF5 converts the disk float type to the T memory type, so a
   // double-on-disk scalar loads into any T.
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 
 void Checkpoint::write(const std::string & name, int val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  const H5Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  const H5Handle datatype(H5Tcopy(H5T_NATIVE_INT), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, int & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -823,63 +693,41 @@ void Checkpoint::read(const std::string & name, int & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, hsize_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  const H5Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  const H5Handle datatype(H5Tcopy(H5T_NATIVE_HSIZE), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, hsize_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -893,14 +741,6 @@ void Checkpoint::read(const std::string & name, hsize_t & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, bool val) {
@@ -917,51 +757,37 @@ void Checkpoint::read(const std::string & name, bool & v) {
 
 void Checkpoint::write_hbool(const std::string & name, hbool_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possibly existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  const H5Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HBOOL);
+  const H5Handle datatype(H5Tcopy(H5T_NATIVE_HBOOL), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
@@ -970,24 +796,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, const std::string & val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
 
   // Remove possibly existing entry
   remove(name);
@@ -997,38 +810,28 @@ void Checkpoint::write(const std::string & name, const std::string & val) {
   dims[0]=val.size()+1;
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  const H5Handle dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_CHAR);
+  const H5Handle datatype(H5Tcopy(H5T_NATIVE_CHAR), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, std::string & val) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  const OpenGuard guard(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  const H5Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -1040,7 +843,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -1058,14 +861,6 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
   val=std::string(wrk);
   free(wrk);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 // Explicit instantiations of the templated floating-point I/O. The
-- 
2.43.0


From a51d7d348aaf4cbe6fa7d40ad6f0cc586bcdb351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 19/31] fix: checkpoint reads must refuse entries of another
 type and keep embedded nulls

---
 src/general/checkpoint.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index fa32895..a2746a0 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -165,7 +165,8 @@ bool Checkpoint::is_open() const {
 bool Checkpoint::exist(const std::string & name) {
   const OpenGuard guard(*this);
 
-  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
+  // Negative values signal an error, e.g. an invalid name
+  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT)>0;
 
   return ret;
 }
@@ -313,6 +314,15 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Get the data type
   const H5Handle datatype(H5Dget_type(dataset), H5Tclose);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+
+  if(hclass!=H5T_INTEGER) {
+    std::ostringstream oss;
+    oss << "Error - " << name << " is not an integer value!\n";
+    throw std::runtime_error(oss.str());
+  }
+
   // Get dataspace
   const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
@@ -789,6 +799,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
   // Get dataspace
   const H5Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+  if(hclass!=H5T_INTEGER)
+    throw std::runtime_error("Error - datatype is not integer!\n");
+
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
@@ -836,7 +851,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
 
-  if(hclass!=H5T_INTEGER) {
+  if(hclass!=H5T_INTEGER || H5Tget_size(datatype)!=sizeof(char)) {
     std::ostringstream oss;
     oss << "Error - " << name << " does not consist of characters!\n";
     throw std::runtime_error(oss.str());
@@ -856,11 +871,12 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   hsize_t dims[ndim];
   H5Sget_simple_extent_dims(dataspace,dims,NULL);
 
-  // Allocate work memory
-  char *wrk=(char *)malloc(dims[0]*sizeof(char));
-  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
-  val=std::string(wrk);
-  free(wrk);
+  // Read the characters, which include the terminating null
+  std::string wrk(dims[0],'\0');
+  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk.data());
+  if(wrk.size() && wrk.back()=='\0')
+    wrk.pop_back();
+  val=wrk;
 }
 
 // Explicit instantiations of the templated floating-point I/O. The
-- 
2.43.0


From 967e83c396876c531c2bcd76fe3e3944950244b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:05 +0000
Subject: [PATCH 20/31] fix: record the Chebyshev-node primitive basis in its
 identifier

---
 libhelfem/src/PolynomialBasis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/PolynomialBasis.cpp b/libhelfem/src/PolynomialBasis.cpp
index 8c148de..93f2d1b 100644
--- a/libhelfem/src/PolynomialBasis.cpp
+++ b/libhelfem/src/PolynomialBasis.cpp
@@ -73,7 +73,7 @@ namespace helfem {
           helfem::Vec<double> x(Nnodes);
           for(int i=0;i<Nnodes;i++)
             x(i) = std::cos(M_PI*(Nnodes-1-i)/(Nnodes-1));
-          poly=new polynomial_basis::LIPBasis(x, 4);
+          poly=new polynomial_basis::LIPBasis(x, primbas);
           if(helfem::verbose)
             printf("Basis set composed of %i-node LIPs with Chebyshev nodes.\n",Nnodes);
           break;
@@ -84,7 +84,7 @@ namespace helfem {
           helfem::Vec<double> x(Nnodes);
           for(int i=0;i<Nnodes;i++)
             x(i) = std::cos(M_PI*(Nnodes-1-i)/(Nnodes-1));
-          poly=new polynomial_basis::HIPBasis(x, 5);
+          poly=new polynomial_basis::HIPBasis(x, primbas);
           if(helfem::verbose)
             printf("Basis set composed of %i-node HIPs with Chebyshev nodes.\n",Nnodes);
           break;
-- 
2.43.0


From 99fdbba6a667a87b8f871d0815dbc18b2913e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:05 +0000
Subject: [PATCH 21/31] fix: write and read empty arrays without forming a
 reference to their first element

---
 src/general/checkpoint.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index a2746a0..1530566 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -368,7 +368,7 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 }
 
 template <typename T>
@@ -408,7 +408,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // Allocate memory. HDF5 converts the disk float type to the T memory
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 }
 
 void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v) {
@@ -433,7 +433,7 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   const H5Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 }
 
 void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
@@ -471,7 +471,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
 
   // Allocate memory
   v.resize(dims[0]);
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
 }
 
 void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
-- 
2.43.0


From e964a8a2849be9efd95260437d71c3a4d4eaa305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 22/31] fix: refuse nuclear charges and functional numbers
 followed by garbage

---
 src/general/dftfuncs.cpp | 15 +++++++++++++--
 src/general/elements.cpp | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/general/dftfuncs.cpp b/src/general/dftfuncs.cpp
index d3f7e31..014562c 100644
--- a/src/general/dftfuncs.cpp
+++ b/src/general/dftfuncs.cpp
@@ -15,6 +15,8 @@
 
 #include <string>
 #include <helfem.h>
+#include <cerrno>
+#include <climits>
 #include <sstream>
 #include <stdexcept>
 #include <cstring>
@@ -63,8 +65,17 @@ std::string get_keyword(int func_id) {
 // Find out ID of functional
 int find_func(std::string name) {
   // Was functional given as a number? If so, use it.
-  if(isdigit(name[0]))
-    return atoi(name.c_str());
+  if(isdigit(name[0])) {
+    char *end;
+    errno=0;
+    const long id=strtol(name.c_str(),&end,10);
+    if(errno || *end!='\0' || id>INT_MAX) {
+      std::ostringstream oss;
+      oss << "\nError: invalid functional number "<<name<<"!\n";
+      throw std::runtime_error(oss.str());
+    }
+    return (int) id;
+  }
 
   // Check if 'none' was specified. This is internal to ERKALE
   if(helfem::utils::stricmp(name,KW_NONE)==0)
diff --git a/src/general/elements.cpp b/src/general/elements.cpp
index c7ed3a1..cd5452e 100644
--- a/src/general/elements.cpp
+++ b/src/general/elements.cpp
@@ -18,6 +18,8 @@
 #include "utils.h"
 #include <cstdio>
 #include <cstdlib>
+#include <cerrno>
+#include <climits>
 #include <strings.h>
 #include <sstream>
 #include <stdexcept>
@@ -28,8 +30,17 @@ int get_Z(std::string el) {
     return 0;
   
   // Is input an integer?
-  if(!isalpha(el[0]))
-    return atoi(el.c_str());
+  if(!isalpha(el[0])) {
+    char *end;
+    errno=0;
+    const long Z=strtol(el.c_str(),&end,10);
+    if(errno || *end!='\0' || Z<INT_MIN || Z>INT_MAX) {
+      std::ostringstream oss;
+      oss << "Nuclear charge \"" << el << "\" is not a valid integer!\n";
+      throw std::runtime_error(oss.str());
+    }
+    return (int) Z;
+  }
 
   // Parse for input
   for(int Z=1;Z<(int) (sizeof(element_symbols)/sizeof(element_symbols[0]));Z++)
-- 
2.43.0


From 27b8f8cc11b2a6a722eb84405dac98ba9da7722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:38 +0000
Subject: [PATCH 23/31] fix: refuse malformed functional parameters instead of
 using the leading part

---
 src/general/scf_helpers.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index efd0b5b..be38542 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -15,7 +15,10 @@
 #include "scf_helpers.h"
 #include "timer.h"
 #include <Eigen/Eigenvalues>
+#include <cerrno>
 #include <cfloat>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <random>
 #include <sstream>
@@ -176,16 +179,27 @@ namespace helfem {
         isfile = probe.good();
       }
 
+      // Every token has to be a complete number
       std::vector<double> vals;
+      auto parse = [&](std::istream & in) {
+        std::string tok;
+        while (in >> tok) {
+          char * end;
+          errno = 0;
+          vals.push_back(std::strtod(tok.c_str(), &end));
+          if (*end != '\0' || (errno == ERANGE && std::isinf(vals.back())))
+            throw std::runtime_error("Invalid functional parameter \"" + tok + "\" in \"" + input + "\".\n");
+        }
+      };
       if (isfile) {
         std::ifstream f(input.c_str());
-        double x;
-        while (f >> x) vals.push_back(x);
+        parse(f);
       } else {
         std::istringstream iss(input);
-        double x;
-        while (iss >> x) vals.push_back(x);
+        parse(iss);
       }
+      if (vals.empty())
+        throw std::runtime_error("No functional parameters in \"" + input + "\".\n");
 
       r.resize(static_cast<Eigen::Index>(vals.size()));
       for (size_t i = 0; i < vals.size(); ++i)
-- 
2.43.0


From 67b8bcb7de39029ad30fd8901f53fc3bd3de605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:38 +0000
Subject: [PATCH 24/31] fix: refuse malformed integer tables and duplicate or
 negative occupations

---
 src/atomic/main.cpp    |  6 ++++++
 src/diatomic/main.cpp  |  6 ++++++
 src/general/eigen_io.h | 11 +++++++++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 57ce0d9..eec1759 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -550,6 +550,7 @@ int main(int argc, char **argv) {
     Eigen::Matrix<OOO_Real, Eigen::Dynamic, 1> fixed_particles =
         Eigen::Matrix<OOO_Real, Eigen::Dynamic, 1>::Zero(nsym * nparttype);
     int total_a = 0, total_b = 0;
+    std::vector<bool> seen(nsym, false);
     for (Eigen::Index i = 0; i < occs.rows(); ++i) {
       const int nocca_i = static_cast<int>(occs(i, 0));
       const int noccb_i = static_cast<int>(occs(i, 1));
@@ -566,6 +567,11 @@ int main(int argc, char **argv) {
       }
       if (matched_block < 0)
         throw std::logic_error("occs.dat: row does not match any current symmetry block.");
+      if (nocca_i < 0 || noccb_i < 0)
+        throw std::logic_error("occs.dat: occupations cannot be negative.");
+      if (seen[matched_block])
+        throw std::logic_error("occs.dat: more than one row for the same symmetry block.");
+      seen[matched_block] = true;
       total_a += nocca_i;
       total_b += noccb_i;
       if (restricted) {
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 2e6a923..627b53a 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -561,6 +561,7 @@ int main(int argc, char **argv) {
     Eigen::Matrix<OOO_Real, Eigen::Dynamic, 1> fixed_particles =
         Eigen::Matrix<OOO_Real, Eigen::Dynamic, 1>::Zero(nsym * nparttype);
     int total_a = 0, total_b = 0;
+    std::vector<bool> seen(nsym, false);
     for (Eigen::Index i = 0; i < occs.rows(); ++i) {
       const int nocca_i = static_cast<int>(occs(i, 0));
       const int noccb_i = static_cast<int>(occs(i, 1));
@@ -580,6 +581,11 @@ int main(int argc, char **argv) {
       }
       if (matched_block < 0)
         throw std::logic_error("occs.dat: row does not match any current symmetry block.");
+      if (nocca_i < 0 || noccb_i < 0)
+        throw std::logic_error("occs.dat: occupations cannot be negative.");
+      if (seen[matched_block])
+        throw std::logic_error("occs.dat: more than one row for the same symmetry block.");
+      seen[matched_block] = true;
       total_a += nocca_i;
       total_b += noccb_i;
       if (restricted) {
diff --git a/src/general/eigen_io.h b/src/general/eigen_io.h
index ce0eb13..7197819 100644
--- a/src/general/eigen_io.h
+++ b/src/general/eigen_io.h
@@ -119,8 +119,15 @@ namespace helfem {
       while (std::getline(in, line)) {
         std::istringstream iss(line);
         std::vector<int> row;
-        int v;
-        while (iss >> v) row.push_back(v);
+        std::string tok;
+        while (iss >> tok) {
+          int v;
+          const char * first = tok.data() + (tok[0] == '+');
+          const auto res = std::from_chars(first, tok.data() + tok.size(), v);
+          if (res.ec != std::errc() || res.ptr != tok.data() + tok.size())
+            throw std::runtime_error(path + ": invalid entry \"" + tok + "\".");
+          row.push_back(v);
+        }
         if (!row.empty()) rows.push_back(row);
       }
       if (rows.empty()) return Eigen::MatrixXi();
-- 
2.43.0


From 2e1637c3b2b4c442024edbcaf0d4351ca4e4bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 25/31] fix: Morse program must not print levels beyond the
 size of the basis

---
 src/harmonic/morse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonic/morse.cpp b/src/harmonic/morse.cpp
index 1684df8..44a44b9 100644
--- a/src/harmonic/morse.cpp
+++ b/src/harmonic/morse.cpp
@@ -21,6 +21,7 @@
 #include "chebyshev.h"
 
 #include <Eigen/Eigenvalues>
+#include <algorithm>
 
 using namespace helfem;
 
@@ -126,7 +127,7 @@ int main(int argc, char **argv) {
   // Go back to non-orthonormal basis
   C=Sinvh*C;
 
-  for(size_t i=0;i<10;i++)
+  for(Eigen::Index i=0;i<std::min<Eigen::Index>(10,E.size());i++)
     printf("E[%i] = % .15e\n",(int) i, E(i));
 
   // Test orthonormality
-- 
2.43.0


From fb4f7116908cbff21dc1a501457ec247e6eb906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 26/31] fix: Morse program must honour the mass given with --m

---
 src/harmonic/morse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonic/morse.cpp b/src/harmonic/morse.cpp
index 44a44b9..62e0e8f 100644
--- a/src/harmonic/morse.cpp
+++ b/src/harmonic/morse.cpp
@@ -68,6 +68,7 @@ int main(int argc, char **argv) {
   double De = parser.get<double>("De");
   double a = parser.get<double>("a");
   double re = parser.get<double>("re");
+  double m = parser.get<double>("m");
   bool deuteron = parser.get<bool>("deuteron");
   std::string save = parser.get<std::string>("save");
 
@@ -98,7 +99,7 @@ int main(int argc, char **argv) {
   // Form potential matrix
   helfem::Matrix V(potential(fem, xq, wq, De, a, re));
   // Form kinetic energy matrix
-  helfem::Matrix T(kinetic(fem, xq, wq));
+  helfem::Matrix T(kinetic(fem, xq, wq)/m);
   if(deuteron)
     T/=2.0;
 
-- 
2.43.0


From 6323f695a323d6abdd5a884f0d9f89054925722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 27/31] fix: one-electron atom program must use the finite
 nucleus it is given

---
 src/sadatom/1e.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sadatom/1e.cpp b/src/sadatom/1e.cpp
index 63a648e..55406ae 100644
--- a/src/sadatom/1e.cpp
+++ b/src/sadatom/1e.cpp
@@ -18,6 +18,8 @@
 #include "../general/constants.h"
 #include "../general/dftfuncs.h"
 #include "../general/elements.h"
+#include "../general/model_potential.h"
+#include "../general/radial_block_helper.h"
 #include "../general/scf_helpers.h"
 #include "utils.h"
 #include "dftgrid.h"
@@ -25,6 +27,7 @@
 #include "Matrix.h"
 #include <Eigen/Eigenvalues>
 #include <cfloat>
+#include <memory>
 
 using namespace helfem;
 
@@ -111,11 +114,18 @@ int main(int argc, char **argv) {
   const helfem::Matrix Sinvh = scf::form_Sinvh(S, /*chol=*/false);
   const helfem::Matrix T     = radial.kinetic();
   const helfem::Matrix Tl    = radial.kinetic_l();
-  const helfem::Matrix V     = radial.nuclear();
+  // Nuclear attraction; the finite nuclear models include the charge
+  helfem::Matrix V = Z * radial.nuclear();
+  if (finitenuc != modelpotential::POINT_NUCLEUS) {
+    const std::unique_ptr<modelpotential::ModelPotential> nuc(
+        modelpotential::get_nuclear_model((modelpotential::nuclear_model_t) finitenuc, Z, Rrms));
+    V = helfem::assemble_radial_diagonal(radial,
+        [&](size_t iel) { return radial.model_potential(nuc.get(), iel); });
+  }
 
   for (int l = 0; l <= lmax; ++l) {
     const helfem::Matrix H0 =
-        Sinvh.transpose() * (T + Z * V + l * (l + 1) * Tl) * Sinvh;
+        Sinvh.transpose() * (T + V + l * (l + 1) * Tl) * Sinvh;
     Eigen::SelfAdjointEigenSolver<helfem::Matrix> es(H0);
     const helfem::Vector E = es.eigenvalues();
     helfem::Matrix C = Sinvh * es.eigenvectors();
-- 
2.43.0


From e7575642fb38bf6ab55bd8f9d3849a282848bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 28/31] fix: importance profile must use all occupied orbitals
 of unrestricted atoms

---
 src/sadatom/main.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sadatom/main.cpp b/src/sadatom/main.cpp
index fc49102..da7b82b 100644
--- a/src/sadatom/main.cpp
+++ b/src/sadatom/main.cpp
@@ -145,15 +145,18 @@ static helfem::Matrix ao_completeness_profile(
 // SCFSolver::ao_importance_profile.
 static helfem::Matrix ao_importance_profile(
     const helfem::sadatom::basis::TwoDBasis & basis,
-    const helfem::Cube & C, const Eigen::VectorXi & occs, int lmax,
+    const helfem::Cube & C, const std::vector<helfem::Vector> & occs, int lmax,
     const helfem::Vector & expn,
     const std::function<helfem::Matrix(int l, const helfem::Vector & r)> & eval_ao) {
   helfem::Matrix I = helfem::Matrix::Zero(expn.size(), lmax + 2);
   I.col(0) = expn;
   for (int l = 0; l <= lmax; l++) {
-    if (occs(l) <= 0) continue;
-    const int nocc = (int) std::ceil(occs(l) / (2.0 * (2.0 * l + 1.0)));
-    const helfem::Matrix Cocc = C[l].leftCols(nocc);
+    std::vector<Eigen::Index> occ;
+    for (Eigen::Index i = 0; i < occs[l].size(); i++)
+      if (occs[l](i) > 0.0) occ.push_back(i);
+    if (occ.empty()) continue;
+    const Eigen::Index nocc = (Eigen::Index) occ.size();
+    const helfem::Matrix Cocc = C[l](Eigen::all, occ);
     helfem::Matrix ao_projection = helfem::Matrix::Zero(nocc, expn.size());
     for (size_t iel = 0; iel < basis.get_rad_Nel(); iel++) {
       const helfem::Vector r  = basis.get_r(iel);
@@ -193,9 +196,9 @@ static void write_profiles(
   io::write_raw_ascii(el + "_sto_completeness.dat",
                       ao_completeness_profile(result.basis, Sinvh, lmax, expn, eval_sto));
   io::write_raw_ascii(el + "_gto_importance.dat",
-                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, lmax, expn, eval_gto));
+                      ao_importance_profile(result.basis, result.orbs_a, result.occs_orb_a, lmax, expn, eval_gto));
   io::write_raw_ascii(el + "_sto_importance.dat",
-                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, lmax, expn, eval_sto));
+                      ao_importance_profile(result.basis, result.orbs_a, result.occs_orb_a, lmax, expn, eval_sto));
   printf("Wrote GTO/STO completeness and importance profiles for %s.\n", el.c_str());
 }
 
-- 
2.43.0


From 28b9b034d6ec4fac04576844c12d75baa450cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 29/31] fix: --load must carry densities between restricted and
 unrestricted atoms and keep fractional counts

---
 src/sadatom/scf.cpp | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 848d658..49d02bd 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -455,7 +455,7 @@ namespace helfem {
             }
           }
           helfem::Cube Pbl_old;
-          if (!restricted && loadchk.exist("sadatom_Pbl_0")) {
+          if (loadchk.exist("sadatom_Pbl_0")) {
             helfem::Matrix slice0;
             loadchk.read("sadatom_Pbl_0", slice0);
             Pbl_old.assign(old_nblock_read, helfem::Matrix::Zero(slice0.rows(), slice0.cols()));
@@ -503,33 +503,34 @@ namespace helfem {
             loaded_occs[base + l] = w;
           };
 
-          // Per-l electron counts to renormalise into. Read from
-          // checkpoint if present, else fall back to trace-preserving
-          // (no rescaling). Checkpoint stores integers as N x 1 matrices.
-          Eigen::VectorXi per_l_a, per_l_b;
-          if (loadchk.exist("sadatom_occs_a")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_a", tmp);
-            per_l_a = tmp.col(0);
-          }
-          if (loadchk.exist("sadatom_occs_b")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_b", tmp);
-            per_l_b = tmp.col(0);
+          // The checkpoint may come from the other spin treatment: a
+          // restricted run needs the total density, an unrestricted run
+          // starting from a restricted density halves it.
+          if (restricted) {
+            for (size_t l = 0; l < Pal_old.size() && l < Pbl_old.size(); ++l)
+              Pal_old[l] += Pbl_old[l];
+          } else if (Pbl_old.empty()) {
+            for (auto & P : Pal_old)
+              P *= 0.5;
+            Pbl_old = Pal_old;
           }
 
+          // Per-l electron counts to renormalise into: those of the loaded
+          // density in its own basis, which also holds for fractional
+          // occupations.
+          const helfem::Matrix S_old = oldbasis.overlap();
+          auto electrons = [&](const helfem::Cube & Pcube, size_t l) {
+            return l < Pcube.size() ? (Pcube[l] * S_old).trace() : 0.0;
+          };
+
           for (size_t l = 0; l < nblock; ++l) {
-            double per_l = (static_cast<int>(l) < per_l_a.size())
-                             ? static_cast<double>(per_l_a(l)) : 0.0;
             double max_occ = restricted ? 2.0 * (2 * l + 1) : (2.0 * l + 1);
-            fill_l(0, l, Pal_old, per_l, max_occ);
+            fill_l(0, l, Pal_old, electrons(Pal_old, l), max_occ);
           }
           if (!restricted) {
             for (size_t l = 0; l < nblock; ++l) {
-              double per_l = (static_cast<int>(l) < per_l_b.size())
-                               ? static_cast<double>(per_l_b(l)) : 0.0;
               double max_occ = 2.0 * l + 1;
-              fill_l(nblock, l, Pbl_old, per_l, max_occ);
+              fill_l(nblock, l, Pbl_old, electrons(Pbl_old, l), max_occ);
             }
           }
           scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
-- 
2.43.0


From 2b97cb90d2e74a4eaa8df417da8194a1582061e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 30/31] fix: confinement starting outside the grid must not
 extend it

---
 src/atomic/basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 6a63b2a..4421f79 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -152,7 +152,7 @@ namespace helfem {
           bval=atomic::basis::normal_grid(Nelem,Rmax,igrid,zexp);
         }
 
-	if(add_el) {
+	if(add_el && shift_conf > 0.0 && shift_conf < Rmax) {
 	  // Check that r is not in bval
 	  bool in_bval = false;
 	  for (Eigen::Index i = 0; i < bval.size(); i++)
-- 
2.43.0


From 8871c51c3b3d4b6ed497739009522dd977bfce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 31/31] fix: modified spherical Bessel functions to the full
 precision of the type

---
 libhelfem/include/math.h | 65 ++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/libhelfem/include/math.h b/libhelfem/include/math.h
index 01d48e7..a08de32 100644
--- a/libhelfem/include/math.h
+++ b/libhelfem/include/math.h
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <stdexcept>
 
 namespace helfem {
 namespace math {
@@ -54,36 +55,27 @@ Vec<T> arsinh(const Vec<T> & x) {
 /// Modified Bessel function i_L(x), where
 ///     i_L(x) = sqrt(pi/(2|x|)) * I_{L+1/2}(|x|),  i_L(-x) = (-1)^L i_L(x).
 ///
-/// For small |x| we evaluate the Taylor series
-///     i_L(x) = x^L/(2L+1)!! * sum_{k>=0} (x^2/2)^k / (k! prod_{j=1..k}(2L+2j+1))
-/// to dodge the sqrt(pi/(2x))*I_{L+1/2}(x) ~ 0/0 limit at x=0; the standard
-/// library's small-argument behaviour for cyl_bessel_i is also more lossy
-/// than the explicit series.
-///
-/// For larger |x| we fall back to the C++17 std::cyl_bessel_i, which
-/// overloads on float/double/long double. For __float128 (or any other T
-/// without a std::cyl_bessel_i overload) a user-supplied specialisation
-/// is required.
+/// Evaluated from the power series
+///     i_L(x) = x^L/(2L+1)!! * sum_{k>=0} (x^2/2)^k / (k! prod_{j=1..k}(2L+2j+1)),
+/// whose terms are all of the same sign, so that there is no
+/// cancellation at any x. std::cyl_bessel_i is not used, as libstdc++
+/// implements it with long double constants, which limits it to
+/// long double accuracy also in _Float128.
 template <typename T>
 T bessel_il(T r, int L) {
   const T absr = std::abs(r);
-  T val;
-  if (absr < T(0.5)) {
-    // (2L+1)!!
-    T dfac = T(1);
-    for (int j = 3; j <= 2*L + 1; j += 2) dfac *= T(j);
-    T term = std::pow(absr, L) / dfac;
-    val = term;
-    const T r2half = T(0.5) * absr * absr;
-    const T tol    = std::numeric_limits<T>::epsilon() * T(0.01);
-    for (int k = 1; k < 256; ++k) {
-      term *= r2half / (T(k) * T(2*L + 2*k + 1));
-      val += term;
-      if (std::abs(term) <= tol * std::abs(val)) break;
-    }
-  } else {
-    const T pi = std::acos(T(-1));
-    val = std::cyl_bessel_i(T(L) + T(0.5), absr) * std::sqrt(pi / (T(2) * absr));
+  // (2L+1)!!
+  T dfac = T(1);
+  for (int j = 3; j <= 2*L + 1; j += 2) dfac *= T(j);
+  T term = std::pow(absr, L) / dfac;
+  T val  = term;
+  const T r2half = T(0.5) * absr * absr;
+  const T tol    = std::numeric_limits<T>::epsilon() * T(0.01);
+  // All terms are non-negative; the comparison also ends the sum when
+  // it has underflowed, overflowed or is not a number.
+  for (int k = 1; term > tol * val; ++k) {
+    term *= r2half / (T(k) * T(2*L + 2*k + 1));
+    val += term;
   }
   return (r < T(0) && (L & 1)) ? -val : val;
 }
@@ -99,13 +91,22 @@ Vec<T> bessel_il(const Vec<T> & r, int L) {
 ///     k_L(r) = sqrt(2/(pi r)) * K_{L+1/2}(r).
 /// Singular at r=0.
 ///
-/// Uses C++17 std::cyl_bessel_k under the hood; same precision-portability
-/// caveat as bessel_il (user-supplied specialisation needed for T without
-/// a std::cyl_bessel_k overload).
+/// Evaluated in closed form for L=0 and L=1 and with the upward
+/// recurrence, which is stable for k_L, for higher L.
 template <typename T>
 T bessel_kl(T r, int L) {
-  const T pi = std::acos(T(-1));
-  return std::cyl_bessel_k(T(L) + T(0.5), r) * std::sqrt(T(2) / (pi * r));
+  if (r < T(0) || L < 0)
+    throw std::domain_error("Bad argument in bessel_kl.");
+  // k_0(r) = exp(-r)/r, k_1(r) = exp(-r)/r (1 + 1/r)
+  T k = std::exp(-r) / r;
+  if (L == 0) return k;
+  T kp = k * (T(1) + T(1) / r);
+  for (int l = 1; l < L; ++l) {
+    const T kpp = k + T(2*l + 1) / r * kp;
+    k  = kp;
+    kp = kpp;
+  }
+  return kp;
 }
 
 template <typename T>
-- 
2.43.0

