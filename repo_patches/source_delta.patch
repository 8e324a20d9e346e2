From 87bb8d40fc630aae1093ad58980cbce3dd6669a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 01/46] fix: second order post-Newtonian term of the second
 body of a pair (5 v1^2 (n.v1), not (n.v2))

---
 src/interaction/post-newtonian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index 56f39c1..d6c3044 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -245,7 +245,7 @@ namespace hub::force {
             auto Bi = v1s * nv2 + 4 * v2s * nv1 - 5 * v2s * nv2 - 4 * v12 * nv1 + 4 * v12 * nv2 - 6 * nv1 * nv2s +
                       4.5 * nv2 * nv2s + gmr1 * (-15.75 * nv1 + 13.75 * nv2) + gmr2 * (-2 * nv1 - 2 * nv2);
 
-            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv2 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
+            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv1 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
                       4.5 * nv1 * nv1s + gmr2 * (15.75 * nv2 - 13.75 * nv1) + gmr1 * (2 * nv2 + 2 * nv1);
 
             auto coef = consts::G / r2 * INV_C4;
-- 
2.43.0


From 83b0c13cb66dd48a4d8192eed887a7b078788ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 02/46] fix: chain construction must reconsider the second
 closest pair after every new link

---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 3e3f8ff..ee20295 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -272,7 +272,7 @@ namespace hub {
                     if (chained_num == num) {
                         break;
                     } else {
-                        k = 1;
+                        k = 0;  // restart from the second closest pair
                     }
                 }
             }
-- 
2.43.0


From caaa643db80c43fd9ec08ecc21b162d7d2c21d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 03/46] fix: keep the last table cell inside the magneto-disk
 tables

---
 src/interaction/magneto-disk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index 1e3b620..251812c 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -570,7 +570,7 @@ namespace hub::force {
         }
         template <typename Scalar>
         static double interpolate(Scalar x, std::vector<double> const &xarry, std::vector<double> const &yarray) {
-            size_t idx = int((x - xarry[0]) / (xarry[1] - xarry[0]));
+            size_t idx = std::min<size_t>(int((x - xarry[0]) / (xarry[1] - xarry[0])), xarry.size() - 2);
             double x0 = xarry[idx];
             double x1 = xarry[idx + 1];
             double y0 = yarray[idx];
-- 
2.43.0


From 93aaad02a786fc9d9c2098952b59184db8d419ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 04/46] fix: alpha-disk gaseous dynamical friction at Mach 0.1
 uses the subsonic branch

---
 src/interaction/alpha-disk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/alpha-disk.hpp b/src/interaction/alpha-disk.hpp
index f2ee780..3ca3404 100644
--- a/src/interaction/alpha-disk.hpp
+++ b/src/interaction/alpha-disk.hpp
@@ -122,7 +122,7 @@ namespace hub::force {
                     I = (0.5 * log(1 - 1 / (Mach * Mach)) + logR) / (Mach * Mach);
                 } else if ((0.1 < Mach) && (Mach < 1 - eps)) {
                     I = (0.5 * log((1 + Mach) / (1 - Mach)) - Mach) / (Mach * Mach);
-                } else if (Mach < 0.1) {
+                } else if (Mach <= 0.1) {
                     I = Mach / 3.0;
                 } else {
                     I = connect(Mach);
-- 
2.43.0


From 56e35c589bee993f8b9c8e111e564b7a64bde6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 05/46] fix: binding-energy rate of regularised systems counts
 only the extra forces

---
 src/particle-system/archain.hpp     | 4 +++-
 src/particle-system/regu-system.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/particle-system/archain.hpp b/src/particle-system/archain.hpp
index ed47b0d..87143eb 100644
--- a/src/particle-system/archain.hpp
+++ b/src/particle-system/archain.hpp
@@ -302,8 +302,10 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+        StateScalar dbindE_dt{0};
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());  // only the extra forces change the binding energy
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -322,7 +324,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
     template <typename Array>
diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..eaa80ba 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -318,9 +318,11 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+        StateScalar dbindE_dt{0};
 
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());  // only the extra forces change the binding energy
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -336,7 +338,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
 
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
-- 
2.43.0


From 5730635df9eaf8c13807292583058259dda1f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 06/46] fix: Symplectic10th was only of fourth order; use the
 35 stage tenth order scheme of Sofroniou & Spaletta

---
 .../symplectic/symplectic-integrator.hpp      | 136 +++++++++---------
 1 file changed, 72 insertions(+), 64 deletions(-)

diff --git a/src/integrator/symplectic/symplectic-integrator.hpp b/src/integrator/symplectic/symplectic-integrator.hpp
index 091f3c1..1001d4b 100644
--- a/src/integrator/symplectic/symplectic-integrator.hpp
+++ b/src/integrator/symplectic/symplectic-integrator.hpp
@@ -296,69 +296,77 @@ namespace hub::integrator {
     template <typename TypeSystem>
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     void Symplectic10th<TypeSystem>::integrate(ParticleSys &system, typename ParticleSys::Scalar step_size) {
-        /*unroll loop manually*/
-        system.drift(3.0610967201933609e-01 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(4.2693443542461296e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(3.0610967201933609e-01 * step_size);
+        /*unroll loop manually; 35 stage scheme of Sofroniou & Spaletta (2005)*/
+        system.drift(3.93978612608432096E-2 * step_size);
+        system.kick(7.87957225216864193E-2 * step_size);
+        system.drift(1.95945912968397474E-1 * step_size);
+        system.kick(3.13096103415108528E-1 * step_size);
+        system.drift(1.70507243325093297E-1 * step_size);
+        system.kick(2.79183832350780661E-2 * step_size);
+        system.drift(-1.00837229179414514E-1 * step_size);
+        system.kick(-2.29592841593907094E-1 * step_size);
+        system.drift(-4.93153902583711155E-2 * step_size);
+        system.kick(1.30962061077164863E-1 * step_size);
+        system.drift(-6.93856722886729256E-2 * step_size);
+        system.kick(-2.69733405654510714E-1 * step_size);
+        system.drift(-9.73800312493096393E-2 * step_size);
+        system.kick(7.49733431558914357E-2 * step_size);
+        system.drift(9.34833835778508203E-2 * step_size);
+        system.kick(1.11993423999810205E-1 * step_size);
+        system.drift(2.39063436773018478E-1 * step_size);
+        system.kick(3.66133449546226751E-1 * step_size);
+        system.drift(-1.64860902949045733E-2 * step_size);
+        system.kick(-3.99105630136035898E-1 * step_size);
+        system.drift(-1.48009115804282410E-1 * step_size);
+        system.kick(1.03087398527471077E-1 * step_size);
+        system.drift(2.57259136241680658E-1 * step_size);
+        system.kick(4.11430873955890238E-1 * step_size);
+        system.drift(2.03282256686377488E-1 * step_size);
+        system.kick(-4.86636058313526176E-3 * step_size);
+        system.drift(-1.98449857145887584E-1 * step_size);
+        system.kick(-3.92033353708639906E-1 * step_size);
+        system.drift(-1.70045425373095130E-1 * step_size);
+        system.kick(5.19425029624496470E-2 * step_size);
+        system.drift(5.13037968611870717E-2 * step_size);
+        system.kick(5.06650907599244963E-2 * step_size);
+        system.drift(5.01697306998271877E-2 * step_size);
+        system.kick(4.96743706397298791E-2 * step_size);
+        system.drift(4.94960531996622085E-2 * step_size);
+        system.kick(4.93177357595945379E-2 * step_size);
+        system.drift(4.94960531996622085E-2 * step_size);
+        system.kick(4.96743706397298791E-2 * step_size);
+        system.drift(5.01697306998271877E-2 * step_size);
+        system.kick(5.06650907599244963E-2 * step_size);
+        system.drift(5.13037968611870717E-2 * step_size);
+        system.kick(5.19425029624496470E-2 * step_size);
+        system.drift(-1.70045425373095130E-1 * step_size);
+        system.kick(-3.92033353708639906E-1 * step_size);
+        system.drift(-1.98449857145887584E-1 * step_size);
+        system.kick(-4.86636058313526176E-3 * step_size);
+        system.drift(2.03282256686377488E-1 * step_size);
+        system.kick(4.11430873955890238E-1 * step_size);
+        system.drift(2.57259136241680658E-1 * step_size);
+        system.kick(1.03087398527471077E-1 * step_size);
+        system.drift(-1.48009115804282410E-1 * step_size);
+        system.kick(-3.99105630136035898E-1 * step_size);
+        system.drift(-1.64860902949045733E-2 * step_size);
+        system.kick(3.66133449546226751E-1 * step_size);
+        system.drift(2.39063436773018478E-1 * step_size);
+        system.kick(1.11993423999810205E-1 * step_size);
+        system.drift(9.34833835778508203E-2 * step_size);
+        system.kick(7.49733431558914357E-2 * step_size);
+        system.drift(-9.73800312493096393E-2 * step_size);
+        system.kick(-2.69733405654510714E-1 * step_size);
+        system.drift(-6.93856722886729256E-2 * step_size);
+        system.kick(1.30962061077164863E-1 * step_size);
+        system.drift(-4.93153902583711155E-2 * step_size);
+        system.kick(-2.29592841593907094E-1 * step_size);
+        system.drift(-1.00837229179414514E-1 * step_size);
+        system.kick(2.79183832350780661E-2 * step_size);
+        system.drift(1.70507243325093297E-1 * step_size);
+        system.kick(3.13096103415108528E-1 * step_size);
+        system.drift(1.95945912968397474E-1 * step_size);
+        system.kick(7.87957225216864193E-2 * step_size);
+        system.drift(3.93978612608432096E-2 * step_size);
     }
 }  // namespace hub::integrator
-- 
2.43.0


From da2672e3e04c736d85315117a6f8cef5907cc7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 07/46] fix: Bulirsch-Stoer shortens a first step that does not
 converge instead of repeating it until it aborts

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..0b47b1c 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -509,8 +509,8 @@ namespace hub::ode {
                 r = static_cast<Scalar>(consts_.h(k + 1)) / static_cast<Scalar>(consts_.h(0));
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
-        } else {
-            return false;
+        } else {  // first step tries the whole table, and is rejected if none of its columns converged
+            return k == ideal_rank_ + 1 && error > 1.0;
         }
     }
 
-- 
2.43.0


From f8656f85d656d1f3f16d4d677b9695a7c92d2bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 08/46] fix: Bulirsch-Stoer for functions: sub-sequences must
 not advance the caller's time

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 0b47b1c..0797463 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -408,7 +408,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From c26276e57266cdcf59d979739e165347e6458ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 09/46] fix: Bulirsch-Stoer for functions: the modified
 midpoint rule needs an even number of substeps to have an error series in
 even powers

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 0797463..2e7d198 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -245,11 +245,11 @@ namespace hub::ode {
         for (size_t i = 0; i < max_try_num; ++i) {
             iter_num_++;
 
-            integrate_by_n_steps(func, extrap_list_[0], time, iter_h, consts_.h(0));
+            integrate_by_n_steps(func, extrap_list_[0], time, iter_h, 2 * consts_.h(0));
 
             for (size_t k = 1; k <= ideal_rank_ + 1; ++k) {
                 size_t result_order = 2 * k + 1;
-                integrate_by_n_steps(func, extrap_list_[k], time, iter_h, consts_.h(k));
+                integrate_by_n_steps(func, extrap_list_[k], time, iter_h, 2 * consts_.h(k));
 
                 extrapolate(k);
 
-- 
2.43.0


From b3ea6db955b83cd34bac8abda604b2c4bf5ab5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 10/46] fix: Bulirsch-Stoer for functions: leave the first-step
 mode after the first step

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 2e7d198..9fb28cb 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -265,6 +265,7 @@ namespace hub::ode {
                         time += iter_h;
                         data = extrap_list_[0];
                         Scalar new_h = set_next_iteration(k);
+                        first_step_ = false;
                         iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                         last_error_ = error;
                         return iter_h;
-- 
2.43.0


From 3bb8619dc4b8f07b7958dfb1276c8180edd9a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 11/46] fix: sequent iterator returns its finest result, not
 the one before, when the refinements run out

---
 src/ode-iterator/sequent-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 57d8582..082daa5 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -150,7 +150,7 @@ namespace hub::ode {
             auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
             error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
             // std::cout << i << ' ' << error << '\n';
-            if (error <= 1) {
+            if (error <= 1 || i == max_iter_) {
                 break;
             }
             std::swap(output_, dual_steps_output_);
-- 
2.43.0


From bf89d5bec3d6876668daa9228ec35740c52842db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 12/46] fix: PIDController::set_limiter takes effect

---
 src/ode-iterator/step-controller/PID-controller.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index 546b3c7..cae5b74 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -122,6 +122,12 @@ namespace hub::ode {
     void PIDController<TypeSystem>::set_limiter(Scalar S3, Scalar S4) {
         safe_guard3_ = S3;
         safe_guard4_ = S4;
+        limiter_max_[0] = safe_guard4_;
+        limiter_min_[0] = 1.0 / safe_guard4_;
+        for (size_t i = 1; i < max_order; i++) {
+            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
+            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
+        }
     }
 
     template <typename TypeSystem>
@@ -163,13 +169,10 @@ namespace hub::ode {
     template <typename TypeSystem>
     PIDController<TypeSystem>::PIDController() {
         expon_[0] = 0.0;
-        limiter_max_[0] = safe_guard4_;
-        limiter_min_[0] = 1.0 / safe_guard4_;
         for (size_t i = 1; i < max_order; i++) {
             expon_[i] = 1.0 / static_cast<Scalar>(i);
-            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
-            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
         }
+        set_limiter(safe_guard3_, safe_guard4_);
     }
 
 }  // namespace hub::ode
-- 
2.43.0


From 8577317fd6bc6553d5f7855c365267e8e6eb5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 13/46] fix: Bulirsch-Stoer: a first step that converges in the
 last column must not make the next one overrun its tables

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 9fb28cb..7d7138b 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -492,7 +492,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = allowed(k);
             }
             return ideal_step_size_[k];
         }
-- 
2.43.0


From 47782a51804b9d57fc26d2ffe69824d3704c98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 14/46] fix: Simulator::run never steps away from the end time

---
 src/simulator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index 9f4bf5c..a195831 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -412,6 +412,10 @@ namespace hub {
                !run_args.check_stops(particles_, step_size_);) {
             Scalar rest_step = (end_time - particles_.time()) * particles_.step_scale();
 
+            if (step_size_ * rest_step < 0) {  // never step away from the end time
+                step_size_ = -step_size_;
+            }
+
             if (std::abs(step_size_) <= std::abs(rest_step)) [[likely]] {
                 run_args.operations(particles_, step_size_);
                 advance_one_step();
-- 
2.43.0


From ec26300e23af6a46bcdbb8f44b81ed18c1fb41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 15/46] fix: LogTimeSlice over a span of one time unit does not
 loop forever

---
 src/args-callback/callbacks.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..01be9cf 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -399,7 +399,7 @@ namespace hub::callback {
         if (t >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_interval_ > 1 && opt_time_ <= t);
             opt_(ptc, step_size);
         }
     }
@@ -413,7 +413,7 @@ namespace hub::callback {
         if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_interval_ > 1 && opt_time_ <= t);
             return opt_(ptc, step_size);
         } else {
             return false;
-- 
2.43.0


From 048a1f80a6d2cf2d585f85dd3c80599f81d7f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 16/46] fix: LogTimeSlice::reset_slice_params takes over the
 new start time

---
 src/args-callback/callbacks.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 01be9cf..238ee5e 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -424,6 +424,7 @@ namespace hub::callback {
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
         opt_time_ = start + opt_interval_;
+        start_time_ = start;
         end_time_ = end;
     }
 
-- 
2.43.0


From 4221fb5df663531990b3026ecc0d44fcaef53c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 17/46] fix: default constructed StepSlice does not divide by
 zero

---
 src/args-callback/callbacks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 238ee5e..0ce037d 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -171,7 +171,7 @@ namespace hub::callback {
        private:
         Operation opt_;
         size_t step_{0};
-        size_t step_interval_{0};
+        size_t step_interval_{1};
     };
 
     /*---------------------------------------------------------------------------*\
-- 
2.43.0


From eafcd999db54a29cbf9d7ae41d5ba00d41eef2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 18/46] fix: StickyCollision can be called

---
 src/args-callback/collision.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args-callback/collision.hpp b/src/args-callback/collision.hpp
index 34063da..c669e03 100644
--- a/src/args-callback/collision.hpp
+++ b/src/args-callback/collision.hpp
@@ -35,6 +35,7 @@ namespace hub::callback {
      *
      */
     class StickyCollision {
+       public:
         /**
          * @brief Callable interface for collision detection.
          *
-- 
2.43.0


From 7c9488275cb50af22c30261b739aad948d22fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 19/46] fix: each EnergyErrWriter measures against the initial
 energy of its own system

---
 src/args-callback/callbacks.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 0ce037d..8102313 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -27,6 +27,7 @@ License
 
 #include <cassert>
 #include <cmath>
+#include <any>
 #include <fstream>
 #include <iomanip>
 #include <memory>
@@ -296,6 +297,8 @@ namespace hub::callback {
 
        private:
         std::shared_ptr<std::ofstream> fstream_;
+        /** @brief Energy of the system this writer was first called with. */
+        std::any initial_energy_;
     };
 
     /*---------------------------------------------------------------------------*\
@@ -472,8 +475,12 @@ namespace hub::callback {
 
     template <typename ParticleSys>
     void EnergyErrWriter::operator()(ParticleSys& ptc, typename ParticleSys::Scalar step_size) {
-        static typename ParticleSys::Scalar E0 = calc::calc_total_energy(ptc);
-        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, E0) << '\n';
+        using Scalar = typename ParticleSys::Scalar;
+        if (std::any_cast<Scalar>(&initial_energy_) == nullptr) {
+            initial_energy_ = static_cast<Scalar>(calc::calc_total_energy(ptc));
+        }
+        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, std::any_cast<Scalar const&>(initial_energy_))
+                  << '\n';
     }
 
     template <typename T>
-- 
2.43.0


From 92f2aa1f8f0bfedd3dbd8436ff84c95cd47ac991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 20/46] fix: StickyCollision reads positions of the current
 particle containers

---
 src/args-callback/collision.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/args-callback/collision.hpp b/src/args-callback/collision.hpp
index c669e03..9cf1f6c 100644
--- a/src/args-callback/collision.hpp
+++ b/src/args-callback/collision.hpp
@@ -49,20 +49,14 @@ namespace hub::callback {
         bool operator()(ParticleSys const &ptc, typename ParticleSys::Scalar step_size) {
             static_assert(HAS_METHOD(ParticleSys, radius), "Particle system doesn't have method radius()");
 
-            auto const &px = ptc.pos().x;
-            auto const &py = ptc.pos().y;
-            auto const &pz = ptc.pos().z;
+            auto const &p = ptc.pos();
 
             auto const &r = ptc.radius();
 
             size_t num = ptc.number();
             for (size_t i = 0; i < num; ++i) {
                 for (size_t j = i + 1; j < num; ++j) {
-                    auto dx = px[i] - px[j];
-                    auto dy = py[i] - py[j];
-                    auto dz = pz[i] - pz[j];
-
-                    if (sqrt(dx * dx + dy * dy + dz * dz) <= r[i] + r[j]) {
+                    if (distance(p[i], p[j]) <= r[i] + r[j]) {
                         return true;
                     }
                 }
-- 
2.43.0


From 471ec47075d7de5ce1c7629c7560dbfea6cfe782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 21/46] fix: coord_to_orbit: semi-latus rectum of parabolic
 orbits

---
 src/orbits/orbits.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 639e5e5..1761b9d 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -580,12 +580,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type == OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
@@ -641,12 +636,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type != OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
-- 
2.43.0


From 2e0a54393cc4a3ca47933da156ce6e4be6653fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 22/46] fix: coord_to_orbit: periapsis of orbits in the
 reference plane

---
 src/orbits/orbits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 1761b9d..e21dab6 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -591,8 +591,8 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.Omega = 0;
+                args.omega = math::sign(E.y * L.z) * myacos(E.x / args.e);
             }
         } else {
             if (n != 0) {
@@ -647,8 +647,8 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.Omega = 0;
+                args.omega = math::sign(E.y * L.z) * myacos(E.x / args.e);
             }
         } else {
             if (n != 0) {
-- 
2.43.0


From f920697517fceb5b6f7a6da166c66509f80b5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 23/46] fix: coord_to_orbit: phase of circular orbits

---
 src/orbits/orbits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index e21dab6..056d816 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -599,10 +599,10 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
                 Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = math::sign(dot(peri, dr)) * myacos(dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = math::sign(dr.y * L.z) * acos(dot(Vector(1.0, 0, 0), dr / r));
             }
         }
     }
@@ -655,10 +655,10 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
                 Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = math::sign(dot(peri, dr)) * myacos(dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = math::sign(dr.y * L.z) * acos(dot(Vector(1.0, 0, 0), dr / r));
             }
         }
         return args;
-- 
2.43.0


From b04b0de022e96ad9799350d2d3dc9aaf582a7e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 24/46] fix: M_anomaly_to_E_anomaly: search interval that
 contains the root of Kepler's equation

---
 src/orbits/orbits.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 056d816..2d1d674 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -322,15 +322,15 @@ namespace hub::orbit {
             return 0;
         }
 
+        // |E| <= |M| + e for elliptic, (e - 1) * sinh|E| <= |M| for hyperbolic, |E| <= |M| for parabolic orbit
+        const Scalar bound = hub::consts::pi + (e > 1 ? asinh(fabs(M_anomaly) / (e - 1)) : fabs(M_anomaly));
+
         if (0 <= e && e < 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
+            return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); }, -bound, bound);
         else if (e > 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
+            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); }, -bound, bound);
         else if (fabs(e - 1) < math::epsilon<Scalar>::value)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
+            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); }, -bound, bound);
         else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
-- 
2.43.0


From f494b4df2825b1952bd667c60d1e196a54198f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 25/46] fix: tidal_factor of two clusters uses both clusters

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 49e53bf..b749a29 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -800,7 +800,7 @@ namespace hub::orbit {
     auto tidal_factor(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return tidal_factor(cluster1, cluster1, R1, R2);
+        return tidal_factor(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From e6370337883f95051ca3bf220091119249d99093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:03 +0000
Subject: [PATCH 26/46] fix: E_tid of two clusters compiles

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index b749a29..3198d37 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -755,7 +755,7 @@ namespace hub::orbit {
     auto E_tid(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return E_tid(std::forward<Cluster1>(cluster1), std::forward<Cluster2>(cluster2), R1, R2);
+        return E_tid(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From 359bed8d1b0a6028bef7f63070a7737480167807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 27/46] fix: PowerLaw: ordered limits for powers below -1

---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 30edbe1..9197d2d 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -79,7 +79,7 @@ namespace hub::random {
             double beta = power + 1;
             double f_low = pow(low, beta);
             double f_high = pow(high, beta);
-            std::uniform_real_distribution<double> dist{f_low, f_high};
+            std::uniform_real_distribution<double> dist{math::min(f_low, f_high), math::max(f_low, f_high)};
             return pow(dist(generator), 1.0 / beta);
         } else {
             return Logarithm(low, high);
-- 
2.43.0


From 1844b6ad2990dc3f176d2785c39f0c60eed32b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 28/46] fix: random Parameter without a lower limit can draw
 zero and negative values

---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 9197d2d..414d1b8 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -195,7 +195,7 @@ namespace hub::random {
         void set_boundary(double min, double max) { min_ = min, max_ = max; }
 
        private:
-        double min_{std::numeric_limits<double>::min()};
+        double min_{std::numeric_limits<double>::lowest()};
         double max_{std::numeric_limits<double>::max()};
         std::function<double()> dist_;
     };
-- 
2.43.0


From 1c4341cd59bc7c851139cbb50e639dabcbcccd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 29/46] fix: multi_threads_loop hands every item to a thread

---
 src/multi-thread/multi-thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 923af2c..d529d4f 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -63,7 +63,7 @@ namespace hub::multi_thread {
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
-            if (end + len_pth > total_len) end = total_len;
+            if (th_id + 1 == thread_num) end = total_len;
             threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
         }
 
-- 
2.43.0


From 61442899cffeeecad9977b464d009c9da2a9fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 30/46] fix: multi_thread gives every thread an intact copy of
 the job and its arguments

---
 src/multi-thread/multi-thread.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index d529d4f..bf5eb3e 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -64,7 +64,7 @@ namespace hub::multi_thread {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
             if (th_id + 1 == thread_num) end = total_len;
-            threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            threads.emplace_back(std::thread(task, begin, end));
         }
 
         for (auto &thread : threads) {
@@ -77,7 +77,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, args...));
         }
 
         for (auto &th : threads) {
@@ -90,7 +90,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), i, std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, i, args...));
         }
 
         for (auto &th : threads) {
-- 
2.43.0


From 7a63debe0b55f7e528e39a113c4e5ff5222bd886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 31/46] fix: ConcurrentDeque::try_pop_* wait on a unique_lock
 (lock_guard does not compile)

---
 src/multi-thread/concurrent-queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 313a888..531d0bd 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -41,7 +41,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_front(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
@@ -53,7 +53,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_back(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
-- 
2.43.0


From c36ac645b2f295a3ae60d6e087463b0a4e4d5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 32/46] fix: Costream can be written to

---
 src/multi-thread/ciostream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 1a2bf1b..aaa0b38 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -144,7 +144,7 @@ namespace hub::multi_thread {
             return *this;
         }
 
-        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << tup; }
+        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << T(tup); }
 
        private:
         std::unique_ptr<Opip<T>> pip_ptr_;
-- 
2.43.0


From 26fe6af15d36fe94a19a56c0c6de86d867bd5a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 33/46] fix: ConcurrentDeque::stop cannot be missed by a thread
 that is about to wait

---
 src/multi-thread/concurrent-queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 531d0bd..0268a3f 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -27,7 +27,10 @@ namespace hub::multi_thread {
         }
 
         void stop() {
-            stop_ = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                stop_ = true;
+            }
             cv_.notify_all();
         }
 
-- 
2.43.0


From 6c6572f3041e0e91252638dcd050e288e84cd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 34/46] fix: pipe threads start after the flags they read are
 initialised

---
 src/multi-thread/ciostream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index aaa0b38..8abe9b4 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -57,8 +57,8 @@ namespace hub::multi_thread {
         std::mutex mutex_;
         std::condition_variable cv_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
+        std::thread thread_;
     };
 
     template <typename T>
@@ -121,9 +121,9 @@ namespace hub::multi_thread {
         std::condition_variable cv_load_;
         std::condition_variable cv_io_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
         bool eoq_{false};
+        std::thread thread_;
     };
 
     template <typename T>
-- 
2.43.0


From d8d5b27f7ce0828a8eda72df5ac97afcf8cedc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 35/46] fix: Ipip does not deliver a made-up element at the end
 of the file

---
 src/multi-thread/ciostream.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 8abe9b4..0a87143 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -66,16 +66,17 @@ namespace hub::multi_thread {
        public:
         explicit Ipip(const char *file_name)
             : file_(file_name, std::fstream::in), thread_(std::thread([&] {
-                  while (!file_.eof()) {
+                  while (file_.good()) {
                       {
                           std::unique_lock<std::mutex> lock(mutex_);
                           cv_load_.wait(lock, [&] { return stop_ || queue_.empty(); });
 
                           if (stop_) break;
 
-                          for (size_t i = 0; i < 100 && !file_.eof(); ++i) {
+                          for (size_t i = 0; i < 100 && file_.good(); ++i) {
                               T data;
                               file_ >> data;
+                              if (!file_) break;
                               queue_.emplace(std::move(data));
                           }
                       }
-- 
2.43.0


From ef5237d69bdf1df68982e32a90b338c8058add3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 36/46] fix: ThreadPool's destructor cannot be missed by a
 worker that is about to wait

---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 39f2d64..de94f40 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -69,7 +69,10 @@ namespace hub::multi_thread {
     }
 
     ThreadPool::~ThreadPool() {
-        stop_ = true;
+        {
+            std::lock_guard<std::mutex> lock(lock_);
+            stop_ = true;
+        }
         cv_.notify_all();
         for (auto &worker : workers_) {
             if (worker.joinable()) worker.join();
-- 
2.43.0


From 20a3201be96e8fd4d2642a8d96ebdeb3a7d934b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 37/46] fix: thread_pool.h can be included in several source
 files

---
 src/multi-thread/thread_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index de94f40..6459ba2 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -48,7 +48,7 @@ namespace hub::multi_thread {
     /*---------------------------------------------------------------------------*\
          Class ThreadPool Implementation
     \*---------------------------------------------------------------------------*/
-    ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {
+    inline ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {
         for (size_t i = 0; i < max_thread; ++i) {
             workers_.emplace_back([&]() {
                 Task task;
@@ -68,7 +68,7 @@ namespace hub::multi_thread {
         }
     }
 
-    ThreadPool::~ThreadPool() {
+    inline ThreadPool::~ThreadPool() {
         {
             std::lock_guard<std::mutex> lock(lock_);
             stop_ = true;
-- 
2.43.0


From 0ed5bbac4f1113d18e63ae767c7c1e9e3b75105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 38/46] fix: reading a Klein number forgets both of its error
 terms

---
 src/kahan-number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 415af89..7d34bb2 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -397,7 +397,7 @@ namespace hub {
          */
         friend std::istream &operator>>(std::istream &input, Klein &v) {
             input >> v.real;
-            v.err = 0;
+            v.zero_err();
             return input;
         }
     };
-- 
2.43.0


From 717f8770d486710c1856d2bfc456d5d88717fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:17 +0000
Subject: [PATCH 39/46] fix: _ExtPlus methods carry the rounding errors of
 their coordinates

---
 src/spaceHub.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spaceHub.hpp b/src/spaceHub.hpp
index ff5acc6..5e754f8 100644
--- a/src/spaceHub.hpp
+++ b/src/spaceHub.hpp
@@ -269,7 +269,7 @@ namespace hub {
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using NAME##_ExtPlus =                                                                                             \
-        Simulator<system::SYSTEM<particle<details::extended_type>, interactions>, details::ITER##_extplus>;            \
+        Simulator<system::SYSTEM<particle<details::extended_precise_type>, interactions>, details::ITER##_extplus>;    \
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using Const_##NAME##_Ext =                                                                                         \
-- 
2.43.0


From 4d8e2fbe71177864318fb014c6d7e7d44ecb6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:17 +0000
Subject: [PATCH 40/46] fix: disk tables are interpolated between the
 neighbours of the radius

---
 src/interaction/magneto-disk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index 251812c..c351fc4 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -24,6 +24,8 @@ License
  */
 #pragma once
 
+#include <algorithm>
+
 #include "../dev-tools.hpp"
 #include "../macros.hpp"
 #include "../spacehub-concepts.hpp"
@@ -570,7 +572,8 @@ namespace hub::force {
         }
         template <typename Scalar>
         static double interpolate(Scalar x, std::vector<double> const &xarry, std::vector<double> const &yarray) {
-            size_t idx = std::min<size_t>(int((x - xarry[0]) / (xarry[1] - xarry[0])), xarry.size() - 2);
+            // the cell x lies in; the tables are not exactly evenly spaced
+            size_t idx = std::upper_bound(xarry.begin() + 1, xarry.end() - 1, x) - xarry.begin() - 1;
             double x0 = xarry[idx];
             double x1 = xarry[idx + 1];
             double y0 = yarray[idx];
-- 
2.43.0


From 3c2c194748a520e71b0c5ceb00c4f70a154dad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:17 +0000
Subject: [PATCH 41/46] fix: period of the inner orbit in the Kozai-Lidov time
 scale

---
 src/secular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/secular.hpp b/src/secular.hpp
index bd69572..f1c8000 100644
--- a/src/secular.hpp
+++ b/src/secular.hpp
@@ -36,7 +36,7 @@ namespace hub::secular {
     template <typename T = double>
     T ELK_quad_timescale(T m1, T m2, T m3, T a1, T a2, T e2) {
         T m_in = m1 + m2;
-        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / consts::G * m_in);
+        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / (consts::G * m_in));
         T a_ratio_eff = a2 * sqrt(1 - e2 * e2) / a1;
         return P * m_in / m3 * a_ratio_eff * a_ratio_eff * a_ratio_eff;
     }
-- 
2.43.0


From 38a845fe23f1e35f57583517a43e48c4e5450b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:17 +0000
Subject: [PATCH 42/46] fix: kB_on_mp agrees with kB and the proton mass

---
 src/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.hpp b/src/macros.hpp
index 7833ba1..bdad65e 100644
--- a/src/macros.hpp
+++ b/src/macros.hpp
@@ -101,5 +101,5 @@ namespace hub::consts {
     constexpr double G = 1;
     constexpr double C = 299792.458 * unit::kms;
     constexpr double kB = 1.38064852e-23 * unit::m * unit::m * unit::kg / unit::sec / unit::sec;
-    constexpr double kB_on_mp = 9.294676266398779e-06;
+    constexpr double kB_on_mp = kB / unit::mp;
 }  // namespace hub::consts
-- 
2.43.0


From 010444b04e46889da24ee4fe0e13748eb0c41b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:04 +0000
Subject: [PATCH 43/46] fix: auto_name does not repeat a name when prefixes
 alternate

---
 src/tools/auto-name.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index 0bb81ca..6a24d93 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -8,12 +8,12 @@
 #include <iomanip>
 #include <sstream>
 #include <string>
+#include <unordered_map>
 
 namespace hub::tools {
 
     std::string auto_name(std::string const &prefix = "space_") {
-        static int duplicate = 1;
-        static std::string last_name;
+        static std::unordered_map<std::string, int> given;  // how often a name was asked for
 
         auto t = std::time(nullptr);
         auto tm = *std::localtime(&t);
@@ -22,11 +22,11 @@ namespace hub::tools {
 
         auto name = prefix + oss.str();
 
-        if (name == last_name) {
-            return name + '(' + std::to_string(duplicate++) + ").dat";
+        int duplicate = given[name]++;
+
+        if (duplicate > 0) {
+            return name + '(' + std::to_string(duplicate) + ").dat";
         } else {
-            duplicate = 1;
-            last_name = name;
             return name + ".dat";
         }
     }
-- 
2.43.0


From 9050677c03e54c058f96115a66f1e88b72578b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:04 +0000
Subject: [PATCH 44/46] fix: the tools can be included in several source files

---
 src/tools/auto-name.hpp     | 2 +-
 src/tools/config-reader.hpp | 4 ++--
 src/tools/timer.hpp         | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index 6a24d93..60fd2c6 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -12,7 +12,7 @@
 
 namespace hub::tools {
 
-    std::string auto_name(std::string const &prefix = "space_") {
+    inline std::string auto_name(std::string const &prefix = "space_") {
         static std::unordered_map<std::string, int> given;  // how often a name was asked for
 
         auto t = std::time(nullptr);
diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 95a2524..e4467e7 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -65,7 +65,7 @@ namespace hub::tools {
     /*---------------------------------------------------------------------------*\
           Class ConfigReader Implementation
     \*---------------------------------------------------------------------------*/
-    ConfigReader::ConfigReader(std::string const &file_name, char divider, char commenter) {
+    inline ConfigReader::ConfigReader(std::string const &file_name, char divider, char commenter) {
         std::fstream file(file_name);
         if (file.is_open()) {
             std::string line;
@@ -84,7 +84,7 @@ namespace hub::tools {
         }
     }
 
-    ConfigReader::ConfigReader(char const *file_name, char divider, char commenter)
+    inline ConfigReader::ConfigReader(char const *file_name, char divider, char commenter)
         : ConfigReader(std::string(file_name), divider, commenter) {}
 
     template <typename T>
diff --git a/src/tools/timer.hpp b/src/tools/timer.hpp
index 537818d..02fe59b 100644
--- a/src/tools/timer.hpp
+++ b/src/tools/timer.hpp
@@ -66,12 +66,12 @@ namespace hub::tools {
     /*---------------------------------------------------------------------------*\
           Class Timer Implementation
     \*---------------------------------------------------------------------------*/
-    void Timer::start() {
+    inline void Timer::start() {
         active_ = true;
         start_ = std::chrono::steady_clock::now();
     }
 
-    double Timer::get_time() {
+    inline double Timer::get_time() {
         if (active_) {
             auto now = std::chrono::steady_clock::now();
             auto len = std::chrono::duration_cast<std::chrono::nanoseconds>(now - start_);
@@ -81,12 +81,12 @@ namespace hub::tools {
             return duration_;
     }
 
-    void Timer::pause() {
+    inline void Timer::pause() {
         duration_ = get_time();
         active_ = false;
     }
 
-    void Timer::reset() {
+    inline void Timer::reset() {
         active_ = false;
         duration_ = 0;
     }
-- 
2.43.0


From 158b06069d852f709f6c903611d95c7b14cbb49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 45/46] fix: spaceHub.hpp can be included in several source
 files

---
 src/args-callback/callbacks.hpp | 4 ++--
 src/orbits/orbits.hpp           | 2 +-
 src/particle-system/chain.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 8102313..a26bc27 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -434,7 +434,7 @@ namespace hub::callback {
     /*---------------------------------------------------------------------------*\
        Class DefaultWriter Definition
     \*---------------------------------------------------------------------------*/
-    DefaultWriter::DefaultWriter(std::string const& file_name) : fstream_{std::make_shared<std::ofstream>(file_name)} {
+    inline DefaultWriter::DefaultWriter(std::string const& file_name) : fstream_{std::make_shared<std::ofstream>(file_name)} {
         if (!fstream_->is_open()) {
             spacehub_abort("Fail to open the file " + file_name);
         } else {
@@ -464,7 +464,7 @@ namespace hub::callback {
     /*---------------------------------------------------------------------------*\
        Class EnergyErrWriter Definition
     \*---------------------------------------------------------------------------*/
-    EnergyErrWriter::EnergyErrWriter(std::string const& file_name)
+    inline EnergyErrWriter::EnergyErrWriter(std::string const& file_name)
         : fstream_{std::make_shared<std::ofstream>(file_name)} {
         if (!fstream_->is_open()) {
             spacehub_abort("Fail to open the file " + file_name);
diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 2d1d674..f0f6c09 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -50,7 +50,7 @@ namespace hub::orbit {
     /**
      * @brief A place holder that indicates one of the three angles in orbital parameters will be randomly generated.
      */
-    struct RandomIndicator {
+    inline struct RandomIndicator {
     } isotherm;
 
 #if __cplusplus > COMPILER_VERSION
diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index ee20295..d49671e 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -228,7 +228,7 @@ namespace hub {
         }
     }
 
-    bool Chain::try_add_to_chain(std::list<size_t> &list, size_t &head, size_t &tail, Chain::Node &n) {
+    inline bool Chain::try_add_to_chain(std::list<size_t> &list, size_t &head, size_t &tail, Chain::Node &n) {
         if (head == n.i) {
             return try_insert(list, head, n, n.j, [&](size_t idx) { list.emplace_front(idx); });
         } else if (head == n.j) {
-- 
2.43.0


From 152ed8e682c142fc70cf9ee0194da7f6ed0c5546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:31 +0000
Subject: [PATCH 46/46] fix: every command line argument goes into its own
 variable

---
 src/tools/config-reader.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index e4467e7..9a28b2b 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -107,11 +107,8 @@ namespace hub::tools {
         if (argc != n + 1) {
             spacehub_abort("Wrong args number!");
         } else {
-            std::stringstream ss;
-            for (int i = 1; i < argc; ++i) {
-                ss << argv[i] << ' ';
-            }
-            ((ss >> std::forward<Args>(args)), ...);
+            [[maybe_unused]] int i = 1;
+            ((std::stringstream(argv[i++]) >> std::forward<Args>(args)), ...);
         }
     }
 
-- 
2.43.0

