From d88b6081b80ea975f68ef5c8d670caa3bc458f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:20 +0000
Subject: [PATCH 01/16] fix: report failed Cholesky factorisation in solve_sym
 (CPU)

---
 src/la/lapack_cpu.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..ec21e3b 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -75,11 +75,13 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
 
     char uplo = 'U';
     auto order = CBLAS_ORDER::CblasColMajor;
-    potrf_t::call(order, uplo, n, ptr_A, lda);
+    int info = potrf_t::call(order, uplo, n, ptr_A, lda);
+    if (info != 0) throw std::runtime_error("solve_sym: potrf failed, matrix is not positive definite");
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-    potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    info = potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    if (info != 0) throw std::runtime_error("solve_sym: potrs failed");
   } else {
     throw std::runtime_error("not implemented");
   }
-- 
2.43.0


From 079e1aebe17052ba1b4a7a01a59c98057ce5a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 02/16] fix: derivative of delta for Methfessel-Paxton and
 Gaussian-spline smearing

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..fe48dc0 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -208,7 +208,7 @@ struct gaussian_spline : summed<gaussian_spline>
     if (x > 8 || x < -8) return 0;
 
     if (x <= 0) {
-      return -2 * mo * std::exp((sqrt2 - x) * x) * (sqrt2 - x);
+      return -2 * mo * std::exp((sqrt2 - x) * x) * x * (sqrt2 - x);
     } else {
       return -2 * mo * std::exp(-x * (sqrt2 + x)) * x * (sqrt2 + x);
     }
@@ -280,7 +280,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
     double sqrtpi = std::sqrt(constants::pi);
-    return mo * std::exp(-x * x) * (2 * x * x - 5) / sqrtpi;
+    return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
-- 
2.43.0


From 86d5d160846d70ffbdfbc09b102d79ac74f817d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 03/16] fix: Gaussian-spline entropy ignored the maximal
 occupation

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index fe48dc0..559771c 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return 0.25 * mo *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return 0.25 * mo *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From ae1e9d8f215a38f2508b0d2874b960045b724b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 04/16] fix: evaluate delta at (mu-e)/kT in the eta gradient,
 it is not even for cold smearing

---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From 0e316b88390b3e1042236f68ade47ae2aa96d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 05/16] fix: reject negative and NaN temperatures

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 559771c..b2ebc7f 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -558,7 +558,7 @@ public:
       , wk(wk)
       , smearing_t(smearing_t)
   {
-    if (T == 0) {
+    if (!(T > 0)) {
       throw std::runtime_error("Temperature must be > 0.");
     }
     kT = T * physical_constants::kb;
-- 
2.43.0


From 15111e703d1dfefd8ef41c1a1d018d791e417a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 06/16] fix: do not accept a line search step with undefined
 free energy

---
 src/linesearch/linesearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..40c5d5b 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -139,7 +139,7 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
                         << " q line prediction error: " << std::scientific << std::setprecision(8) << (F_pred - F_min)
                         << " dE: " << std::scientific << std::setprecision(8) << (F0 - F_min) << "\n";
 
-  if (F_min > F0) {
+  if (!(F_min <= F0)) {
     Logger::GetInstance() << std::setprecision(13)
                           << "\t quadratic line search failed:\n"
                           << "\t - F_min: " << F_min << "\n"
-- 
2.43.0


From 5c965751491530c08aa04ac27f2b1c11e99d8467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 07/16] fix: restore the last accepted state before giving up
 the line search

---
 src/linesearch/linesearch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 40c5d5b..e1ceddd 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -78,6 +78,7 @@ line_search::bt_search(GEODESIC& G, FREE_ENERGY& FE, double F0, bool& force_rest
   // TODO: let logger print state
   Logger::GetInstance().flush();
   if (force_restart)  {
+    G(0);  // leave the backend in the last accepted state
     throw DescentError();
   } else {
     force_restart = true;
-- 
2.43.0


From 1af9052bfb393f4f6350d84f498b67918c4c0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 08/16] fix: reported tolerance was off by one (placeholder for
 the eta slope)

---
 src/nlcglib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..b7a2c6d 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -311,7 +311,7 @@ nlcg_us(EnergyBase& energy_base,
                         free_energy.ks_energy(),
                         free_energy.get_entropy(),
                         slope,
-                        -1,
+                        0,
                         free_energy.get_chemical_potential(),
                         cg_iter);
       cg_write_step_json(free_energy.get_F(),
@@ -372,7 +372,7 @@ nlcg_us(EnergyBase& energy_base,
                         free_energy.ks_energy(),
                         free_energy.get_entropy(),
                         slope /* slope in X and eta, temporarily */,
-                        -1 /* need to separate the two slopes first */,
+                        0 /* need to separate the two slopes first */,
                         free_energy.get_chemical_potential(),
                         cg_iter);
       free_energy.ehandle().print_info();  // print magnetization
-- 
2.43.0


From 309351091c749ac993842dc9b65b65646d22f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 09/16] fix: report the final state when maxiter is reached

---
 src/nlcglib.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index b7a2c6d..f014e29 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -438,6 +438,14 @@ nlcg_us(EnergyBase& energy_base,
       return info;
     }
   }
+  // maxiter reached, report the state after the last step
+  info = print_info(free_energy.get_F(),
+                    free_energy.ks_energy(),
+                    free_energy.get_entropy(),
+                    slope,
+                    0,
+                    free_energy.get_chemical_potential(),
+                    maxiter);
   return info;
 }
 
-- 
2.43.0


From de78c18b07a813dd744f3a02b31ed344bee040d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 10/16] fix: reject a non-positive restart interval (modulo by
 zero)

---
 src/nlcglib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index f014e29..51390a6 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -228,6 +228,10 @@ nlcg_us(EnergyBase& energy_base,
   //                ~FE_UNDERFLOW);  // Enable all floating point exceptions but FE_INEXACT
   nlcg_info info;
 
+  if (restart < 1) {
+    throw std::runtime_error("restart must be >= 1.");
+  }
+
   auto S = Overlap(overlap_base);
   auto P = USPreconditioner(us_precond_base);
 
-- 
2.43.0


From a4f62ddd809840489ba048b83c0cc14998d05012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 11/16] fix: missing return in mvector::operator=

---
 src/la/mvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index c34610a..cedeb87 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -98,6 +98,7 @@ public :
   mvector& operator=(std::map<key_t, T>&& data)
   {
     data_ = std::forward<std::map<key_t, T>>(data);
+    return *this;
   }
 
   template<typename Z>
-- 
2.43.0


From 2de6d735d407929e616cf8155868af3dcd7ea811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 12/16] fix: op_iterator read past the end of the key list

---
 src/operator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operator.hpp b/src/operator.hpp
index e7807ff..4f5176e 100644
--- a/src/operator.hpp
+++ b/src/operator.hpp
@@ -19,7 +19,7 @@ public:
       : keys(keys)
       , obj(obj)
   {
-    if (end) {
+    if (end || keys.empty()) {
       pos = keys.size();
     } else {
       key_t k = keys[0];
@@ -30,7 +30,8 @@ public:
   op_iterator& operator++()
   {
     pos++;
-    pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    if (pos < static_cast<int>(keys.size()))
+      pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
     return *this;
   }
 
-- 
2.43.0


From 87ba23ff1410f1e520707e46ac0a94123081698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 13/16] fix: matrix dimensions in outer (C = A B^H)

---
 src/la/lapack_cpu.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index ec21e3b..27df952 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -192,9 +192,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
 
   // single rank
   if (A.map().is_local() && B.map().is_local() && C.map().is_local()) {
-    int m = A.map().ncols();
-    int k = A.map().nrows();
-    int n = B.map().ncols();
+    int m = A.map().nrows();
+    int k = A.map().ncols();
+    int n = B.map().nrows();
     numeric_t* A_ptr = A.array().data();
     numeric_t* B_ptr = B.array().data();
     numeric_t* C_ptr = C.array().data();
-- 
2.43.0


From 82c9c54ca9b191bdba07ee778b0d1a13638c15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:43 +0000
Subject: [PATCH 14/16] fix: make_mmvector honours the declared stride and
 refuses unknown memory kinds

---
 src/la/mvector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index cedeb87..80e9785 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -399,12 +399,14 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       throw std::runtime_error("recompile nlcglib with CUDA support");
 #endif
     } else if (buffer.memtype == memory_type::host) {
-      Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(buffer.data,
-                                                                            buffer.size[0]);
+      Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(
+          buffer.data, Kokkos::LayoutStride(buffer.size[0], buffer.stride[0]));
       vector_t dst("vector", buffer.size[0]);
       Kokkos::deep_copy(dst, src);
       auto kindex = vector_base->kpoint_index(i);
       mvector[kindex] = dst;
+    } else {
+      throw std::runtime_error("expected host or device memory");
     }
   }
   return mvector;
-- 
2.43.0


From cc858ee6a7c45060b6ebbd352122dc951149bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:03 +0000
Subject: [PATCH 15/16] fix: transform_alloc allocates the shape of A*B

---
 src/la/lapack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index bf411c3..2eed8f5 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -434,7 +434,8 @@ transform_alloc(
     const identity_t<typename M1::numeric_t>& alpha = identity_t<typename M1::numeric_t>{1.0},
     const identity_t<typename M1::numeric_t>& beta = identity_t<typename M1::numeric_t>{0.})
 {
-  to_layout_left_t<M1> C(A.map());
+  Map<SlabLayoutV> map(A.map().comm(), SlabLayoutV({{0, 0, A.map().nrows(), B.map().ncols()}}));
+  to_layout_left_t<M1> C(map);
   transform(C, beta, alpha, A, B);
   return C;
 }
-- 
2.43.0


From 6517f75826e0947f7dbf723158b1aaab4035bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:46 +0000
Subject: [PATCH 16/16] fix: MPI datatype of a pair uses the member offset

---
 src/mpi/mpi_type.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 8fdf03d..94950f3 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <mpi.h>
+#include <cstddef>
 #include <utility>
 #include <complex>
 #include <Kokkos_Core.hpp>
@@ -86,7 +87,8 @@ struct mpi_type<std::pair<T1, T2>>
   {
     MPI_Datatype result;
     int array_of_block_lengths[2] = {1, 1};
-    MPI_Aint array_of_displacements[2] = {0, sizeof(T1)};
+    using pair_t = std::pair<T1, T2>;
+    MPI_Aint array_of_displacements[2] = {offsetof(pair_t, first), offsetof(pair_t, second)};
     MPI_Datatype types[2] = {mpi_type<T1>::type(), mpi_type<T2>::type()};
     CALL_MPI(
         MPI_Type_create_struct, (2,
-- 
2.43.0

