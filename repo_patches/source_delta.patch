From a95214b39dbe6f811ae73edae5dce8c759fd1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 01/29] fix: accept every horizon slice inside the horizon and
 reject negative ones

---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From 9cc31cdf3791b77c22d18fc475a97fde50d7d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 02/29] fix: do not scale the measured state in the predicted
 trajectory

---
 include/mpc/NLMPC/Mapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..a33a8dd 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -204,7 +204,7 @@ namespace mpc
 
             for (int i = 0; i < Xmat.cols(); i++)
             {
-                Xmat.col(i) /= 1.0 / state_scaling(i);
+                Xmat.col(i).tail(ph()) /= 1.0 / state_scaling(i);
             }
 
             // TODO add disturbaces manipulated vars
-- 
2.43.0


From d369e498bc7243f6c0661fd9b5d5f6077b7196fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 03/29] fix: subtract a dimension from an integer in the right
 order

---
 include/mpc/Dim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Dim.hpp b/include/mpc/Dim.hpp
index 52f5a26..91d64bc 100644
--- a/include/mpc/Dim.hpp
+++ b/include/mpc/Dim.hpp
@@ -96,7 +96,7 @@ namespace mpc
 
     constexpr Size operator-(const int &v, const Size &w)
     {
-        return Size(make_dimension(w.value - v, Size::is_static(w.value, v)));
+        return Size(make_dimension(v - w.value, Size::is_static(w.value, v)));
     }
 
     constexpr Size operator*(const int &v, const Size &w)
-- 
2.43.0


From e7bf3fabaeecb94ff6c067af5f226f115c145ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 04/29] fix: compute the standard deviation of the solution
 times without integer division

---
 include/mpc/Profiler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..c1eeed2 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -221,9 +221,9 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    double residual = (stats.numberOfSolutions / (stats.numberOfSolutions - 1.0)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
+                    double stdDev_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt((stdDev_old + residual) / stats.numberOfSolutions);
                 }
             }
         }
-- 
2.43.0


From 3da0a5f32fccd5405e50bc91a84a0fef4c85501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 05/29] fix: advance the time between the steps of the RK4
 integrator

---
 include/mpc/Integrator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mpc/Integrator.hpp b/include/mpc/Integrator.hpp
index 768bedc..280fd68 100644
--- a/include/mpc/Integrator.hpp
+++ b/include/mpc/Integrator.hpp
@@ -46,6 +46,7 @@ public:
             k4 = m_func(t + h, sol + h * k3);
 
             sol += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
+            t += h;
         }
 
         return sol;
-- 
2.43.0


From 9299a6e3c7cc2fa80f69684a549d8c735a96ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 06/29] fix: give the discretised feedforward matrix one row
 per output

---
 include/mpc/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Utils.hpp b/include/mpc/Utils.hpp
index bf8541c..cf7c7bb 100644
--- a/include/mpc/Utils.hpp
+++ b/include/mpc/Utils.hpp
@@ -109,7 +109,7 @@ template <size_t nx, size_t nu, size_t ny>
 void discretization(
     const mat<nx, nx>& A, const mat<nx, nu>& B,
     const mat<ny, nx>& C, const mat<ny, nu>& D, const double& Ts,
-    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<nx, nu>& Dd)
+    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<ny, nu>& Dd)
 {
     // TODO this discretization works only with delay-free systems
     discretization<nx,nu>(A, B, Ts, Ad, Bd);
-- 
2.43.0


From 1d4d56139980e3e1cd75317a66d4e117d3407201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 07/29] fix: treat a not-a-number constraint as violated in the
 feasibility check

---
 include/mpc/NLMPC/Constraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..8234348 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -161,7 +161,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all inequality constraints are satisfied (<= 0)
-                if ((cineq_user.array() > ieq_tolerance).any())
+                if (!(cineq_user.array() <= ieq_tolerance).all())
                 {
                     return false;
                 }
@@ -180,7 +180,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all equality constraints are satisfied (== 0)
-                if (ceq_user.array().abs().maxCoeff() > eq_tolerance)
+                if (!(ceq_user.array().abs() <= eq_tolerance).all())
                 {
                     return false;
                 }
-- 
2.43.0


From e8dc2cccbfd27cebcc58ac466abddcc78362e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 08/29] fix: include the repeated last input in the inequality
 constraints gradient

---
 include/mpc/NLMPC/Constraints.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 8234348..343eefa 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -687,7 +687,9 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     double du = dv * Ua.array()(j);
-                    u0(i, j) += du;
+                    // the last input of the trajectory repeats the previous one
+                    size_t rows = (i == ph() - 1) ? 2 : 1;
+                    u0.col(j).segment(i, rows).array() += du;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -695,11 +697,11 @@ namespace mpc
                     mat<(sizer.ph + 1), sizer.ny> y0_plus = model->getOutput(x0, u0);
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
-                    u0(i, j) -= 2 * du;
+                    u0.col(j).segment(i, rows).array() -= 2 * du;
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
-                    u0(i, j) += du;
+                    u0.col(j).segment(i, rows).array() += du;
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From 8ec4cf5fc703cab77d0c46dab24c5c0053e15f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 09/29] fix: use a slack perturbation representable in double
 precision in the gradients

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 include/mpc/NLMPC/Objective.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 343eefa..f8fa9ef 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -708,7 +708,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..b5edd86 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -249,7 +249,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From d3634d75172ff6e585eda335753811f8603530f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 10/29] fix: apply the state scaling to the objective gradient

---
 include/mpc/NLMPC/Objective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index b5edd86..2a387a7 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -102,9 +102,9 @@ namespace mpc
             {
                 computeJacobian(Xmat, Umat, c.value, e);
 
-                for (int i = 0; i < Xmat.cols(); i++)
+                for (int i = 0; i < (int)Jx.rows(); i++)
                 {
-                    Xmat.col(i) /= 1.0 / mapping->StateScaling()(i);
+                    Jx.row(i) *= mapping->StateScaling()(i);
                 }
 
                 int counter = 0;
-- 
2.43.0


From cec8dcce511965781f1d84580e6dfc1d6c9f93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 11/29] fix: size the equality tolerances of run-time sized
 controllers

---
 include/mpc/NLMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..d4e12d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -251,7 +251,7 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-- 
2.43.0


From 540a87c5d6f39d266c882ee9dae157b98eb8b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 12/29] fix: release the slack variable and the time limit when
 the parameters ask for it

---
 include/mpc/NLMPC/NLOptimizer.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..836c681 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -136,10 +136,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a non positive value means no time limit
+            innerOpt->set_maxtime(nl_param->time_limit > 0 ? nl_param->time_limit : 0);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
@@ -181,6 +179,11 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = -inf;
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = inf;
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From 0fd521e91460bacb59ff1c2a3874e0dc6020d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 13/29] fix: express the bounds of the nonlinear problem in the
 scaled variables

---
 include/mpc/NLMPC/NLOptimizer.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 836c681..8f7cf59 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -100,6 +100,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the solver works on the scaled variables
+            updateBounds();
         }
 
         /**
@@ -640,6 +643,23 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            if (mapping)
+            {
+                auto state_scaling = mapping->StateScaling();
+                for (size_t i = 0; i < ph() * nx(); i++)
+                {
+                    lb_vec[i] /= state_scaling(i % nx());
+                    ub_vec[i] /= state_scaling(i % nx());
+                }
+
+                auto input_scaling = mapping->InputScaling();
+                for (size_t i = 0; i < ch() * nu(); i++)
+                {
+                    lb_vec[(ph() * nx()) + i] /= input_scaling(i % nu());
+                    ub_vec[(ph() * nx()) + i] /= input_scaling(i % nu());
+                }
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
-- 
2.43.0


From 52047aaeac4419dcf6a89be090d6851f3c4b2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 14/29] fix: start the nonlinear solver from the scaled guess
 and keep the last solution for warm starting

---
 include/mpc/NLMPC/NLOptimizer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 8f7cf59..49fc023 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -423,6 +423,9 @@ namespace mpc
             std::vector<double> optX0;
             optX0.assign(((ph() * nx()) + (nu() * ch()) + 1),0.0);
 
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> start_vector;
+            start_vector = opt_vector;
+
             if(is_first_iteration || !enable_warm_start)
             {
                 // the whole optimization vector is initialized with the initial state x0
@@ -432,7 +435,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j);
+                        start_vector[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
                     }
                 }
 
@@ -440,7 +443,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j);
+                        start_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
             }
@@ -454,10 +457,10 @@ namespace mpc
                 {
                     if(i == ph() - 1)
                     {
-                        optX0[(i * nx()) + j] = opt_vector[(i * nx()) + j];
+                        optX0[(i * nx()) + j] = start_vector[(i * nx()) + j];
                     }
                     else{
-                        optX0[(i * nx()) + j] = opt_vector[((i+1) * nx()) + j];
+                        optX0[(i * nx()) + j] = start_vector[((i+1) * nx()) + j];
                     }
                 }
             }
@@ -468,7 +471,7 @@ namespace mpc
             // convert from the optimized vector to the vectorized manipulated variable
             // using the mapping matrix Iz2u
             cvec<(sizer.ph * sizer.nu)> tmp_mult;
-            tmp_mult = mapping->Iz2u() * opt_vector.middleRows((ph() * nx()), (nu() * ch()));
+            tmp_mult = mapping->Iz2u() * start_vector.middleRows((ph() * nx()), (nu() * ch()));
 
             // fill the remaining elements with the previous control action starting from
             // the third element of the control horizon
-- 
2.43.0


From 4b788a3f76d4b311e1155139296f0ae48afec0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 15/29] fix: extend the last input bounds of the control
 horizon instead of reading past the matrix

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..fa1c587 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1);
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1);
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From f5571620bc648eb32f7401fb469037ba6f5242ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 16/29] fix: keep the input constant from the end of the
 control horizon on

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index fa1c587..3f291f2 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -781,8 +781,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From 2305b3f62cce9e7a0b2b432d6c7da499b5ce898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 17/29] fix: bound each input of the linear problem at the step
 it is applied

---
 include/mpc/LMPC/ProblemBuilder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 3f291f2..eae9736 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -734,15 +734,16 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // the extended state at step i holds the input applied at step i - 1
+                if (i == 0)
                 {
-                    tmpMinU = minU.col(i - 1);
-                    tmpMaxU = maxU.col(i - 1);
+                    tmpMinU = minU.col(0);
+                    tmpMaxU = maxU.col(0);
                 }
                 else
                 {
-                    tmpMinU = minU.col(i);
-                    tmpMaxU = maxU.col(i);
+                    tmpMinU = minU.col(i - 1);
+                    tmpMaxU = maxU.col(i - 1);
                 }
                 eMinX.middleRows(i * (nu() + nx()), (nu() + nx())) << minX.col(i), tmpMinU;
                 eMaxX.middleRows(i * (nu() + nx()), (nu() + nx())) << maxX.col(i), tmpMaxU;
-- 
2.43.0


From db17c79c5dabae3222e6f833b309ad97b85798ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 18/29] fix: check the exogenous inputs slice against the
 prediction horizon

---
 include/mpc/LMPC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..1764bf2 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -551,7 +551,7 @@ namespace mpc
             const cvec<Tndu> &uMeas,
             const HorizonSlice& slice)
         {
-            // Replicate all along the control horizon
+            // Replicate all along the prediction horizon
             if (isSliceUnset(slice))
             {
                 mat<Tndu, Tph> uMeasMat;
@@ -567,8 +567,8 @@ namespace mpc
             }
             else
             {
-                // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                // Replicate on segment of the prediction horizon
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From bad600422f3ee121a83d43b7fb463b0d76c6e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 19/29] fix: implement the per step constraints of the linear
 controller

---
 include/mpc/LMPC.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 1764bf2..69e3b84 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -336,7 +336,10 @@ namespace mpc
             }
 
             Logger::instance().log(Logger::log_type::DETAIL) << "Setting constraints for the step " << index << std::endl;
-            return builder.setConstraints(index, XMin, UMin, YMin, XMax, UMax, YMax);
+            bool ret = builder.setStateBounds(index, XMin, XMax);
+            ret = builder.setInputBounds(index, UMin, UMax) && ret;
+            ret = builder.setOutputBounds(index, YMin, YMax) && ret;
+            return ret;
         }
 
         /**
-- 
2.43.0


From 2b96a4d167648fe7bec028e93e70bf35af231981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 20/29] fix: report inaccurate infeasibility and the time limit
 of the linear solver as documented

---
 include/mpc/LMPC/LOptimizer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..542bd50 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -398,13 +398,13 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-                return ResultStatus::UNKNOWN;
+                return ResultStatus::MAX_ITERATION;
             case OSQP_NON_CVX:
                 return ResultStatus::ERROR;
             case OSQP_UNSOLVED:
-- 
2.43.0


From 83ab8eeb43d8b6252032707d2e5e4b04c3130efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 21/29] fix: release the optimiser of the linear controller
 exactly once

---
 include/mpc/LMPC.hpp            |  5 ++++-
 include/mpc/LMPC/LOptimizer.hpp | 14 ++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 69e3b84..6b0b59d 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,10 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            delete optPtr;
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 542bd50..3b6a8ba 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -482,7 +482,11 @@ namespace mpc
          */
         void clearData()
         {
-            osqp_cleanup(work);
+            if (work)
+            {
+                osqp_cleanup(work);
+                work = nullptr;
+            }
 
             if (data)
             {
@@ -495,11 +499,13 @@ namespace mpc
                     csc_spfree(data->P);
                 }
                 c_free(data);
+                data = nullptr;
             }
 
             if (settings)
             {
                 c_free(settings);
+                settings = nullptr;
             }
         }
 
@@ -515,9 +521,9 @@ namespace mpc
             data->A = nullptr;
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
-- 
2.43.0


From 8e80952e415ee4b0d0dc778b6677dde3a69416ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 22/29] fix: keep the previous command when the linear solver
 yields no usable solution

---
 include/mpc/LMPC/LOptimizer.hpp | 74 +++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 3b6a8ba..bd18530 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -264,32 +264,40 @@ namespace mpc
                 Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
             }
 
-            // warm starting the solver
-            if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+            bool hasSolution = false;
+
+            // without a workspace there is nothing to solve
+            if (exitflag == 0 && work)
             {
-                exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
+                // warm starting the solver
+                if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+                {
+                    exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
+                    if (exitflag > 0)
+                    {
+                        Logger::instance().log(Logger::log_type::ERROR) << "Unable to warm start " << exitflag << std::endl;
+                    }
+                }
+                else
+                {
+                    // if we choose to use the warm start but we don't have a solution yet we cannot use it
+                    // we need to wait to have at least a solution
+                    osqp_update_warm_start(work, 0);
+                }
+
+                // solve problem
+                exitflag = osqp_solve(work);
                 if (exitflag > 0)
                 {
-                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to warm start " << exitflag << std::endl;
+                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
                 }
-            }
-            else
-            {
-                // if we choose to use the warm start but we don't have a solution yet we cannot use it
-                // we need to wait to have at least a solution
-                osqp_update_warm_start(work, 0);
-            }
 
-            // solve problem
-            exitflag = osqp_solve(work);
-            if (exitflag > 0)
-            {
-                Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                hasSolution = exitflag == 0 && isSolutionUsable(numVars, numConstraints);
             }
 
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (work->solution->x != NULL)
+            if (hasSolution)
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -354,6 +362,13 @@ namespace mpc
                 r.solver_status = -1;
                 r.status = ResultStatus::ERROR;
 
+                // if the solver explained why there is no solution (e.g. the problem is infeasible) we report it
+                if (exitflag == 0 && work && convertToResultStatus(work->info->status_val) != ResultStatus::SUCCESS)
+                {
+                    r.solver_status = work->info->status_val;
+                    r.status = convertToResultStatus(r.solver_status);
+                }
+
                 // in case of invalid solution we ouput all the sequences to zero
                 sequence.state.setZero();
                 sequence.input.setZero();
@@ -372,6 +387,31 @@ namespace mpc
         std::vector<double> optimal_prev_x, optimal_prev_y;
 
     private:
+        /**
+         * @brief Check if the solver returned a solution for the problem, that is
+         * if the problem is feasible and the solution is made of finite numbers
+         *
+         * @param numVars number of primal variables
+         * @param numConstraints number of dual variables
+         * @return true
+         * @return false
+         */
+        bool isSolutionUsable(const int numVars, const int numConstraints)
+        {
+            if (work->solution == NULL || work->solution->x == NULL || work->solution->y == NULL)
+            {
+                return false;
+            }
+
+            if (convertToResultStatus(work->info->status_val) == ResultStatus::INFEASIBLE)
+            {
+                return false;
+            }
+
+            return Eigen::Map<const cvec<>>(work->solution->x, numVars).allFinite() &&
+                   Eigen::Map<const cvec<>>(work->solution->y, numConstraints).allFinite();
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0


From e84b1e98c85a7e8235041fdb734852f4f839276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 23/29] fix: registering a constraint function again replaces
 the previous one

---
 include/mpc/NLMPC/NLOptimizer.hpp | 42 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 49fc023..2fcd720 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -239,12 +239,9 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                stateEqFun = NLOptimizer::nloptEqConFunWrapper;
+                stateEqTol.assign(tol.data(), tol.data() + tol.size());
+                bindEqualities();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding state defined equality constraints"
                     << std::endl;
@@ -276,6 +273,8 @@ namespace mpc
 
             try
             {
+                // binding again replaces the constraints bound before
+                innerOpt->remove_inequality_constraints();
                 innerOpt->add_inequality_mconstraint(
                     NLOptimizer::nloptUserIneqConFunWrapper,
                     conFunc.get(),
@@ -314,12 +313,9 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptUserEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                userEqFun = NLOptimizer::nloptUserEqConFunWrapper;
+                userEqTol.assign(tol.data(), tol.data() + tol.size());
+                bindEqualities();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user equality constraints"
                     << std::endl;
@@ -327,6 +323,7 @@ namespace mpc
             }
             catch (const std::exception &e)
             {
+                userEqFun = nullptr;
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Unable to bind constraints function\n"
                     << e.what()
@@ -637,6 +634,25 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief (Re)bind the equality constraints known so far to the solver, binding
+         * again replaces the constraints bound before
+         */
+        void bindEqualities()
+        {
+            innerOpt->remove_equality_constraints();
+
+            if (stateEqFun != nullptr)
+            {
+                innerOpt->add_equality_mconstraint(stateEqFun, conFunc.get(), stateEqTol);
+            }
+
+            if (userEqFun != nullptr)
+            {
+                innerOpt->add_equality_mconstraint(userEqFun, conFunc.get(), userEqTol);
+            }
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -874,6 +890,8 @@ namespace mpc
         }
 
         nlopt::opt *innerOpt;
+        nlopt::mfunc stateEqFun = nullptr, userEqFun = nullptr;
+        std::vector<double> stateEqTol, userEqTol;
 
         std::shared_ptr<Objective<sizer>> objFunc;
         std::shared_ptr<Constraints<sizer>> conFunc;
-- 
2.43.0


From d1d1e9409000e6fd38bb3df69d862c1c12c5d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 24/29] fix: track the input increment reference at the step it
 is set for

---
 include/mpc/LMPC/ProblemBuilder.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index eae9736..8e3ef2c 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -558,21 +558,18 @@ namespace mpc
                 // step of the prediction horizon there is the current state of the system)
                 cvec<sizer.ny> yRef_ex;
                 cvec<sizer.nu> uRef_ex;
-                cvec<sizer.nu> deltaURef_ex;
                 cvec<sizer.ndu> uMeas_ex;
 
                 if (i == 0)
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -591,7 +588,7 @@ namespace mpc
                 {
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
-                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
+                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef.col(i));
                 }
 
                 // the first entry of the state evolution is the initial condition of the states
-- 
2.43.0


From 75cbcec871f3f78f6b048d5fa86634b5d0b5dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 25/29] fix: extend the last input bounds over more than one
 step of the horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 8e3ef2c..56e8588 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1);
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1);
+                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1).replicate(1, ph() - ch());
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1).replicate(1, ph() - ch());
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 2b3d0016d6fdbd631e2f8ee2dce765b514344abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 26/29] fix: start the nonlinear solver inside the bounds

---
 include/mpc/NLMPC/NLOptimizer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 2fcd720..a7c94d4 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -11,6 +11,7 @@
 #include <mpc/NLMPC/Objective.hpp>
 #include <mpc/Types.hpp>
 
+#include <cmath>
 #include <nlopt.hpp>
 
 namespace mpc
@@ -500,6 +501,14 @@ namespace mpc
             // put the slack variable in the optimization vector
             optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
 
+            // the solver refuses a starting point which lies outside of the bounds
+            const std::vector<double> lower = innerOpt->get_lower_bounds();
+            const std::vector<double> upper = innerOpt->get_upper_bounds();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                optX0[i] = std::fmax(lower[i], std::fmin(optX0[i], upper[i]));
+            }
+
             // let's start the optimization
             bool optimizationSuccess = false;
 
-- 
2.43.0


From 18ddc603c648a2f90b5458730675aaf0c34fff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 27/29] fix: use a warm start only when it has the size of the
 problem

---
 include/mpc/LMPC/LOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index bd18530..0b02c8e 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -270,7 +270,7 @@ namespace mpc
             if (exitflag == 0 && work)
             {
                 // warm starting the solver
-                if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+                if (settings->warm_start && optimal_prev_x.size() == (size_t)numVars && optimal_prev_y.size() == (size_t)numConstraints)
                 {
                     exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
                     if (exitflag > 0)
-- 
2.43.0


From 3700048492f1d59e7ed567956a60b0afdd5999ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:12 +0000
Subject: [PATCH 28/29] fix: moving a nonlinear controller hands over its
 optimizer; copying one (double free) is not possible

---
 include/mpc/NLMPC.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index d4e12d4..464d6f4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -65,6 +65,17 @@ namespace mpc
             setDimension(nx, nu, 0, ny, ph, ch, ineq, eq);
         }
 
+        // the optimizer has a single owner: a controller can be moved but not copied
+        NLMPC(NLMPC &&other)
+            : IMPC<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>(other),
+              objF(std::move(other.objF)),
+              conF(std::move(other.conF)),
+              model(std::move(other.model)),
+              mapping(std::move(other.mapping))
+        {
+            other.optPtr = nullptr;
+        }
+
         ~NLMPC()
         {
             delete optPtr;
-- 
2.43.0


From fa47336af65c4aaae43fc22e69d0eb5b9d798b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:12 +0000
Subject: [PATCH 29/29] fix: printing statistics keeps its precision and leaves
 the stream's format alone

---
 include/mpc/Profiler.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index c1eeed2..9847cc5 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -87,6 +87,9 @@ namespace mpc
          */
         friend std::ostream &operator<<(std::ostream &os, const SolutionStats &stats)
         {
+            const std::ios_base::fmtflags flags = os.flags();
+            const std::streamsize precision = os.precision();
+
             os << std::fixed << std::setprecision(6);
             os << "Solution stats:" << std::endl;
             os << "  - min: " << stats.minSolutionTime.count() << " s" << std::endl;
@@ -106,10 +109,14 @@ namespace mpc
                 }
             }
 
+            os << std::setprecision(6);
             os << "Total time and number of solutions:" << std::endl;
             os << "  - tot: " << stats.totalSolutionTime.count() << " s" << std::endl;
             os << "  - num: " << stats.numberOfSolutions << std::endl;
 
+            os.flags(flags);
+            os.precision(precision);
+
             return os;
         }
 
-- 
2.43.0

