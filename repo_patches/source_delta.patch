From a981ecfb9f3026e5e71ac4a6630ca1087c6b28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 01/15] fix: CSQP line search shadowed steplength_, so the
 reported step and the regularization update used a stale value

---
 src/csqp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0e1eb79..464f07d 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -313,7 +313,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     bool found = false;
     // less than filter_size_, less or equal iter_
     const std::size_t max_count = std::min(filter_size_, iter_ + 1);
-    for (const double steplength_ : alphas_) {
+    for (const double steplength : alphas_) {
+      steplength_ = steplength;
       try {
         merit_try_ = tryStep(steplength_);
       } catch (std::exception& e) {
-- 
2.43.0


From 3e910b3e00d55e3b516c7b351b669dd0de86928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 02/15] fix: shrinking the filter kept the old buffer capacity,
 so the filter compared trials with stale iterates

---
 include/mim_solvers/csqp.hpp        | 3 +++
 include/mim_solvers/csqp_proxqp.hpp | 3 +++
 include/mim_solvers/fddp.hpp        | 2 ++
 include/mim_solvers/sqp.hpp         | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 6674528..ff51e6f 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -230,8 +230,11 @@ class SolverCSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 03f92cc..f00abc0 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -167,8 +167,11 @@ class SolverPROXQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index 356efb0..267671c 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -136,7 +136,9 @@ class SolverFDDP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
   double get_gap_norm() const { return gap_norm_; };
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 3b11419..0102744 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -142,7 +142,9 @@ class SolverSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
-- 
2.43.0


From c4883ce7d1ce6f15a3bd775d249439597f50523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 03/15] fix: the retry loops never ended when the
 regularization could not grow (zero or negative start, SolverKKT)

---
 src/csqp.cpp        |  6 ++++--
 src/csqp_proxqp.cpp |  3 ++-
 src/ddp.cpp         |  3 ++-
 src/fddp.cpp        |  3 ++-
 src/kkt.cpp         | 19 ++++++-------------
 src/sqp.cpp         |  6 ++++--
 6 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 464f07d..7baeacf 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -257,8 +257,9 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         try {
           computeDirection(true);
         } catch (std::exception& e) {
+          const double preg = preg_;
           increaseRegularization();
-          if (preg_ >= reg_max_) {
+          if (preg_ >= reg_max_ || !(preg_ > preg)) {
             STOP_PROFILER("SolverCSQP::solve");
             return false;
           } else {
@@ -379,9 +380,10 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         try {
           computeDirection(true);
         } catch (std::exception& e) {
+          const double preg = preg_;
           increaseRegularization();
           // preg_ equal to reg_max_
-          if (preg_ >= reg_max_) {
+          if (preg_ >= reg_max_ || !(preg_ > preg)) {
             return false;
           } else {
             continue;
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 55b11cc..6a481ea 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -176,8 +176,9 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
         recalcDiff = false;
+        const double preg = preg_;
         increaseRegularization();
-        if (preg_ == reg_max_) {
+        if (preg_ == reg_max_ || !(preg_ > preg)) {
           return false;
         } else {
           continue;
diff --git a/src/ddp.cpp b/src/ddp.cpp
index f5d9ada..6ecb566 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -87,8 +87,9 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
         recalcDiff = false;
+        const double preg = preg_;
         increaseRegularization();
-        if (preg_ == reg_max_) {
+        if (preg_ == reg_max_ || !(preg_ > preg)) {
           return false;
         } else {
           continue;
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 0f7f542..3605508 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -81,8 +81,9 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
         recalcDiff = false;
+        const double preg = preg_;
         increaseRegularization();
-        if (preg_ == reg_max_) {
+        if (preg_ == reg_max_ || !(preg_ > preg)) {
           return false;
         } else {
           continue;
diff --git a/src/kkt.cpp b/src/kkt.cpp
index 7775019..3903a1f 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -46,20 +46,13 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
-  bool recalc = true;
+  const bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
+    try {
+      computeDirection(recalc);
+    } catch (std::exception& e) {
+      // the direction does not depend on the regularization: retrying is vain
+      return false;
     }
 
     expectedImprovement();
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 5333fcb..1313638 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -105,8 +105,9 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
         recalcDiff = false;
+        const double preg = preg_;
         increaseRegularization();
-        if (preg_ == reg_max_) {
+        if (preg_ == reg_max_ || !(preg_ > preg)) {
           return false;
         } else {
           continue;
@@ -191,8 +192,9 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
         recalcDiff = false;
+        const double preg = preg_;
         increaseRegularization();
-        if (preg_ == reg_max_) {
+        if (preg_ == reg_max_ || !(preg_ > preg)) {
           return false;
         } else {
           continue;
-- 
2.43.0


From 9435d69219ddc863a7d19366027091b90c3819a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 04/15] fix: after a failed derivative evaluation the retry
 used stale derivatives and could report convergence

---
 src/csqp_proxqp.cpp | 1 -
 src/ddp.cpp         | 1 -
 src/fddp.cpp        | 1 -
 src/sqp.cpp         | 2 --
 4 files changed, 5 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 6a481ea..53cece2 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -175,7 +175,6 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         const double preg = preg_;
         increaseRegularization();
         if (preg_ == reg_max_ || !(preg_ > preg)) {
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 6ecb566..cbfa235 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -86,7 +86,6 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         const double preg = preg_;
         increaseRegularization();
         if (preg_ == reg_max_ || !(preg_ > preg)) {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 3605508..4ca3142 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -80,7 +80,6 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         const double preg = preg_;
         increaseRegularization();
         if (preg_ == reg_max_ || !(preg_ > preg)) {
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 1313638..414df92 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -104,7 +104,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         const double preg = preg_;
         increaseRegularization();
         if (preg_ == reg_max_ || !(preg_ > preg)) {
@@ -191,7 +190,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         const double preg = preg_;
         increaseRegularization();
         if (preg_ == reg_max_ || !(preg_ > preg)) {
-- 
2.43.0


From ce0c12f9853bfca1e970047b5c7133b932a8957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 05/15] fix: after a line search without accepted step SQP used
 the cost and gaps of the last rejected trial

---
 src/sqp.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sqp.cpp b/src/sqp.cpp
index 414df92..18c2e11 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -134,6 +134,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     cost_list_.push_back(cost_);
 
     // We need to recalculate the derivatives when the step length passes
+    bool found = false;
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       steplength_ = *it;
@@ -158,6 +159,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         if (is_worse_than_memory_ == false) {
           setCandidate(xs_try_, us_try_, false);
           recalcDiff = true;
+          found = true;
           break;
         }
       }
@@ -166,11 +168,17 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         if (merit_ > merit_try_) {
           setCandidate(xs_try_, us_try_, false);
           recalcDiff = true;
+          found = true;
           break;
         }
       }
     }
 
+    if (!found) {
+      // The node data hold the last rejected trial
+      problem_->calc(xs_, us_);
+    }
+
     if (steplength_ > th_stepdec_) {
       decreaseRegularization();
     }
-- 
2.43.0


From 395d7040e35ea8bde2632f6bfce92d3e7bf25e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 06/15] fix: CSQP reported one inner iteration too many when
 the budget was exhausted

---
 src/csqp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 7baeacf..03cbcbf 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -514,6 +514,10 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
       }
     }
   }
+  if (qp_iters_ > max_qp_iters_) {
+    // The loop counter is one past the number of executed iterations
+    qp_iters_ = max_qp_iters_;
+  }
 
   STOP_PROFILER("SolverCSQP::computeDirection");
   // MIM_SOLVERS_EIGEN_MALLOC_ALLOWED();
-- 
2.43.0


From 0e2d3fae4795497701e4f0203714a643850d55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 07/15] fix: CSQP used an uninitialized factorization at nodes
 without controls

---
 src/csqp.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 03cbcbf..0466291 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1100,8 +1100,10 @@ void SolverCSQP::backwardPass_without_rho_update() {
     }
 
     profiler_k.start();
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (nu != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
     profiler_k.stop();
 
     profiler_Vx.start();
@@ -1193,8 +1195,10 @@ void SolverCSQP::backwardPass_without_rho_update_mt() {
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (models[t]->get_nu() != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
   }
   profiler_mt2.stop();
   profiler_all.stop();
-- 
2.43.0


From 80f583c2fa2d300e20e03bb4f25392d1c81cb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 08/15] fix: CSQP accepted a zero penalty update interval and
 then divided by it

---
 include/mim_solvers/csqp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index ff51e6f..0b19d9c 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -201,6 +201,10 @@ class SolverCSQP : public SolverDDP {
   void setQPCallbacks(const bool inCallbacks);
 
   void set_rho_update_interval(const std::size_t interval) {
+    if (interval == 0) {
+      throw_pretty("Invalid argument: "
+                   << "rho_update_interval value has to be positive.");
+    }
     rho_update_interval_ = interval;
   };
   void set_adaptive_rho_tolerance(const std::size_t tolerance) {
-- 
2.43.0


From 5c0ad1aa15dfa924ed126a5dd45ea1e9302b838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 09/15] fix: the setters accepted NaN, an empty step list and a
 non-positive first step

---
 src/ddp.cpp  | 27 +++++++++++++++------------
 src/fddp.cpp |  2 +-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index cbfa235..00f1a65 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -545,7 +545,7 @@ SolverDDP::get_K() const {
 const std::vector<Eigen::VectorXd>& SolverDDP::get_k() const { return k_; }
 
 void SolverDDP::set_reg_incfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty(
         "Invalid argument: " << "reg_incfactor value is higher than 1.");
   }
@@ -553,7 +553,7 @@ void SolverDDP::set_reg_incfactor(const double regfactor) {
 }
 
 void SolverDDP::set_reg_decfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty(
         "Invalid argument: " << "reg_decfactor value is higher than 1.");
   }
@@ -561,7 +561,7 @@ void SolverDDP::set_reg_decfactor(const double regfactor) {
 }
 
 void SolverDDP::set_regfactor(const double regfactor) {
-  if (regfactor <= 1.) {
+  if (!(regfactor > 1.)) {
     throw_pretty("Invalid argument: " << "regfactor value is higher than 1.");
   }
   set_reg_incfactor(regfactor);
@@ -569,44 +569,47 @@ void SolverDDP::set_regfactor(const double regfactor) {
 }
 
 void SolverDDP::set_reg_min(const double regmin) {
-  if (0. > regmin) {
+  if (!(regmin >= 0.)) {
     throw_pretty("Invalid argument: " << "regmin value has to be positive.");
   }
   reg_min_ = regmin;
 }
 
 void SolverDDP::set_regmin(const double regmin) {
-  if (0. > regmin) {
+  if (!(regmin >= 0.)) {
     throw_pretty("Invalid argument: " << "regmin value has to be positive.");
   }
   reg_min_ = regmin;
 }
 
 void SolverDDP::set_reg_max(const double regmax) {
-  if (0. > regmax) {
+  if (!(regmax >= 0.)) {
     throw_pretty("Invalid argument: " << "regmax value has to be positive.");
   }
   reg_max_ = regmax;
 }
 
 void SolverDDP::set_regmax(const double regmax) {
-  if (0. > regmax) {
+  if (!(regmax >= 0.)) {
     throw_pretty("Invalid argument: " << "regmax value has to be positive.");
   }
   reg_max_ = regmax;
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty() || !(alphas[0] > 0.)) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   double prev_alpha = alphas[0];
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
   for (std::size_t i = 1; i < alphas.size(); ++i) {
     double alpha = alphas[i];
-    if (0. >= alpha) {
+    if (!(alpha > 0.)) {
       throw_pretty("Invalid argument: " << "alpha values has to be positive.");
     }
-    if (alpha >= prev_alpha) {
+    if (!(alpha < prev_alpha)) {
       throw_pretty(
           "Invalid argument: " << "alpha values are monotonously decreasing.");
     }
@@ -616,7 +619,7 @@ void SolverDDP::set_alphas(const std::vector<double>& alphas) {
 }
 
 void SolverDDP::set_th_stepdec(const double th_stepdec) {
-  if (0. >= th_stepdec || th_stepdec > 1.) {
+  if (!(th_stepdec > 0. && th_stepdec <= 1.)) {
     throw_pretty(
         "Invalid argument: " << "th_stepdec value should between 0 and 1.");
   }
@@ -624,7 +627,7 @@ void SolverDDP::set_th_stepdec(const double th_stepdec) {
 }
 
 void SolverDDP::set_th_stepinc(const double th_stepinc) {
-  if (0. >= th_stepinc || th_stepinc > 1.) {
+  if (!(th_stepinc > 0. && th_stepinc <= 1.)) {
     throw_pretty(
         "Invalid argument: " << "th_stepinc value should between 0 and 1.");
   }
@@ -632,7 +635,7 @@ void SolverDDP::set_th_stepinc(const double th_stepinc) {
 }
 
 void SolverDDP::set_th_grad(const double th_grad) {
-  if (0. > th_grad) {
+  if (!(th_grad >= 0.)) {
     throw_pretty("Invalid argument: " << "th_grad value has to be positive.");
   }
   th_grad_ = th_grad;
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 4ca3142..2c9f886 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -385,7 +385,7 @@ void SolverFDDP::forwardPass(const double steplength) {
 double SolverFDDP::get_th_acceptnegstep() const { return th_acceptnegstep_; }
 
 void SolverFDDP::set_th_acceptnegstep(const double th_acceptnegstep) {
-  if (0. > th_acceptnegstep) {
+  if (!(th_acceptnegstep >= 0.)) {
     throw_pretty(
         "Invalid argument: " << "th_acceptnegstep value has to be positive.");
   }
-- 
2.43.0


From e4d6a5e45cbe49c0305df892d20e0fc8be300bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 10/15] fix: PROXQP placed control constraint Jacobians in
 wrong columns for time-varying nu and mixed nx with ndx

---
 src/csqp_proxqp.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 53cece2..f593c51 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -49,13 +49,13 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   n_eq = 0;
   for (std::size_t t = 0; t < T; ++t) {
     if (t < T - 1) {
-      n_vars += models[t + 1]->get_state()->get_nx();
-      n_eq += models[t + 1]->get_state()->get_nx();
+      n_vars += models[t + 1]->get_state()->get_ndx();
+      n_eq += models[t + 1]->get_state()->get_ndx();
     }
     n_vars += models[t]->get_nu();
   }
-  n_vars += problem_->get_terminalModel()->get_state()->get_nx();
-  n_eq += problem_->get_terminalModel()->get_state()->get_nx();
+  n_vars += problem_->get_terminalModel()->get_state()->get_ndx();
+  n_eq += problem_->get_terminalModel()->get_state()->get_ndx();
   P_.resize(n_vars, n_vars);
   P_.setZero();
   q_.resize(n_vars), q_.setZero();
@@ -278,7 +278,7 @@ void SolverPROXQP::calc(const bool recalc) {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
 
     m->get_state()->diff(xs_[t + 1], d->xnext, fs_[t + 1]);
@@ -308,7 +308,7 @@ void SolverPROXQP::calc(const bool recalc) {
       }
     }
     if (nc != 0) {
-      C_.middleCols(T * nx + (t)*nu, nu).middleRows(nin_count, nc) = d->Gu;
+      C_.middleCols(index_u, nu).middleRows(nin_count, nc) = d->Gu;
       l_.segment(nin_count, nc) = lb - d->g;
       u_.segment(nin_count, nc) = ub - d->g;
     }
@@ -332,7 +332,7 @@ void SolverPROXQP::calc(const bool recalc) {
   int nc = m_T->get_ng();
   auto lb = m_T->get_g_lb();
   auto ub = m_T->get_g_ub();
-  const int nx = m_T->get_state()->get_nx();
+  const int nx = m_T->get_state()->get_ndx();
 
   P_.middleCols((T - 1) * nx, nx).middleRows((T - 1) * nx, nx) = d_T->Lxx;
   q_.segment((T - 1) * nx, nx) = d_T->Lx;
@@ -389,7 +389,7 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   double index_u = n_eq;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
     int nc = m->get_ng();
 
-- 
2.43.0


From e782502756e26d69399404fcf275663f76deae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 11/15] fix: the line search could adopt a trial with NaN gaps
 or constraints

---
 src/csqp.cpp        | 3 ++-
 src/csqp_proxqp.cpp | 3 ++-
 src/sqp.cpp         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0466291..58e4227 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1435,7 +1435,8 @@ double SolverCSQP::tryStep(const double steplength) {
                  mu_constraint_ * constraint_norm_try_;
   }
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || std::isnan(gap_norm_try_) ||
+      std::isnan(constraint_norm_try_)) {
     profiler_tryStep.stop();
     throw_pretty("step_error");
   }
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index f593c51..c13aaa2 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -526,7 +526,8 @@ double SolverPROXQP::tryStep(const double steplength) {
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_ +
                mu_constraint_ * constraint_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || std::isnan(gap_norm_try_) ||
+      std::isnan(constraint_norm_try_)) {
     STOP_PROFILER("SolverPROXQP::tryStep");
     throw_pretty("step_error");
   }
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 18c2e11..b6c1c1f 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -371,7 +371,7 @@ double SolverSQP::tryStep(const double steplength) {
 
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || std::isnan(gap_norm_try_)) {
     STOP_PROFILER("SolverSQP::tryStep");
     throw_pretty("step_error");
   }
-- 
2.43.0


From 55eeb6c6c1946ce5c329ede5fba5103030dd347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 12/15] fix: a NaN in the KKT residual was dropped by std::max
 and convergence reported

---
 src/csqp.cpp        |  8 ++++++++
 src/csqp_proxqp.cpp | 16 ++++++++++++++++
 src/ddp.cpp         |  9 +++++++++
 src/fddp.cpp        |  9 +++++++++
 src/kkt.cpp         |  9 +++++++++
 src/sqp.cpp         |  7 +++++++
 6 files changed, 58 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 58e4227..f884b37 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -590,6 +590,7 @@ void SolverCSQP::apply_rho_update(const double rho_sparse_tmp) {
 
 void SolverCSQP::checkKKTConditions() {
   KKT_ = 0.;
+  bool has_nan = false;
   const std::size_t T = problem_->get_T();
   x_grad_norm_ = 0.;
   u_grad_norm_ = 0.;
@@ -615,6 +616,7 @@ void SolverCSQP::checkKKTConditions() {
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
     tmp_vec_u_[t].noalias() += d->Gu.transpose() * y_[t];
     KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    has_nan = has_nan || tmp_vec_x_.hasNaN() || tmp_vec_u_[t].hasNaN();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
     x_grad_norm_ += dxtilde_[t].lpNorm<1>();
     u_grad_norm_ += dutilde_[t].lpNorm<1>();
@@ -629,6 +631,12 @@ void SolverCSQP::checkKKTConditions() {
   KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, constraint_norm_);
+  has_nan = has_nan || tmp_vec_x_.hasNaN() || fs_flat_.hasNaN() ||
+            std::isnan(constraint_norm_);
+  if (has_nan) {
+    // std::max and lpNorm<Infinity> may drop a NaN
+    KKT_ = std::numeric_limits<double>::quiet_NaN();
+  }
   x_grad_norm_ += dxtilde_.back().lpNorm<1>();
   x_grad_norm_ = x_grad_norm_ / static_cast<double>(T + 1);
   u_grad_norm_ = u_grad_norm_ / static_cast<double>(T);
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index c13aaa2..22b07ea 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -424,9 +424,17 @@ void SolverPROXQP::checkKKTConditions() {
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   KKT_ = 0;
+  bool has_nan = false;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
     fs_flat_.segment(t * ndx, ndx) = fs_[t + 1];
+    has_nan = has_nan ||
+              (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
+               d->Gu.transpose() * y_[t])
+                  .hasNaN() ||
+              (t > 0 && (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] -
+                         lag_mul_[t] + d->Gx.transpose() * y_[t])
+                            .hasNaN());
     if (t == 0) {
       KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
                              d->Gu.transpose() * y_[t])
@@ -448,6 +456,14 @@ void SolverPROXQP::checkKKTConditions() {
 
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, constraint_norm_);
+  has_nan = has_nan ||
+            (d_ter->Lx - lag_mul_.back() + d_ter->Gx.transpose() * y_.back())
+                .hasNaN() ||
+            fs_flat_.hasNaN() || std::isnan(constraint_norm_);
+  if (has_nan) {
+    // std::max and lpNorm<Infinity> may drop a NaN
+    KKT_ = std::numeric_limits<double>::quiet_NaN();
+  }
 }
 
 double SolverPROXQP::tryStep(const double steplength) {
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 00f1a65..701c610 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -176,6 +176,7 @@ double SolverDDP::tryStep(const double steplength) {
 
 void SolverDDP::checkKKTConditions() {
   KKT_ = 0.;
+  bool has_nan = false;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -187,6 +188,9 @@ void SolverDDP::checkKKTConditions() {
                         .lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
                               .lpNorm<Eigen::Infinity>());
+    has_nan = has_nan ||
+              (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t]).hasNaN() ||
+              (d->Lu + d->Fu.transpose() * lag_mul_[t + 1]).hasNaN();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -195,6 +199,11 @@ void SolverDDP::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  has_nan = has_nan || (d_ter->Lx - lag_mul_.back()).hasNaN() || fs_flat_.hasNaN();
+  if (has_nan) {
+    // std::max and lpNorm<Infinity> may drop a NaN
+    KKT_ = std::numeric_limits<double>::quiet_NaN();
+  }
 }
 
 double SolverDDP::stoppingCriteria() {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 2c9f886..d7b233f 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -205,6 +205,7 @@ void SolverFDDP::computeDirection(const bool recalcDiff) {
 
 void SolverFDDP::checkKKTConditions() {
   KKT_ = 0.;
+  bool has_nan = false;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -216,6 +217,9 @@ void SolverFDDP::checkKKTConditions() {
                         .lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
                               .lpNorm<Eigen::Infinity>());
+    has_nan = has_nan ||
+              (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t]).hasNaN() ||
+              (d->Lu + d->Fu.transpose() * lag_mul_[t + 1]).hasNaN();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -224,6 +228,11 @@ void SolverFDDP::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  has_nan = has_nan || (d_ter->Lx - lag_mul_.back()).hasNaN() || fs_flat_.hasNaN();
+  if (has_nan) {
+    // std::max and lpNorm<Infinity> may drop a NaN
+    KKT_ = std::numeric_limits<double>::quiet_NaN();
+  }
 }
 
 const Eigen::Vector2d& SolverFDDP::expectedImprovement() {
diff --git a/src/kkt.cpp b/src/kkt.cpp
index 3903a1f..987a96c 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -147,6 +147,7 @@ double SolverKKT::tryStep(const double steplength) {
 
 void SolverKKT::checkKKTConditions() {
   KKT_ = 0.;
+  bool has_nan = false;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract> >& datas =
@@ -158,6 +159,9 @@ void SolverKKT::checkKKTConditions() {
                         .lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lambdas_[t + 1])
                               .lpNorm<Eigen::Infinity>());
+    has_nan = has_nan ||
+              (d->Lx + d->Fx.transpose() * lambdas_[t + 1] - lambdas_[t]).hasNaN() ||
+              (d->Lu + d->Fu.transpose() * lambdas_[t + 1]).hasNaN();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -166,6 +170,11 @@ void SolverKKT::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx - lambdas_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  has_nan = has_nan || (d_ter->Lx - lambdas_.back()).hasNaN() || fs_flat_.hasNaN();
+  if (has_nan) {
+    // std::max and lpNorm<Infinity> may drop a NaN
+    KKT_ = std::numeric_limits<double>::quiet_NaN();
+  }
 }
 
 double SolverKKT::stoppingCriteria() {
diff --git a/src/sqp.cpp b/src/sqp.cpp
index b6c1c1f..5ba7b4f 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -251,6 +251,7 @@ void SolverSQP::computeDirection(const bool recalcDiff) {
 
 void SolverSQP::checkKKTConditions() {
   KKT_ = 0.;
+  bool has_nan = false;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -264,6 +265,7 @@ void SolverSQP::checkKKTConditions() {
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
     KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    has_nan = has_nan || tmp_vec_x_.hasNaN() || tmp_vec_u_[t].hasNaN();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -273,6 +275,11 @@ void SolverSQP::checkKKTConditions() {
   tmp_vec_x_ -= lag_mul_.back();
   KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  has_nan = has_nan || tmp_vec_x_.hasNaN() || fs_flat_.hasNaN();
+  if (has_nan) {
+    // std::max and lpNorm<Infinity> may drop a NaN
+    KKT_ = std::numeric_limits<double>::quiet_NaN();
+  }
 }
 
 void SolverSQP::forwardPass(const double stepLength) {
-- 
2.43.0


From 8406fe83c1234a29ac4ec8efd971f0d2c7bc9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:12 +0000
Subject: [PATCH 13/15] fix: CSQP callbacks saw the merit value of the previous
 iterate

---
 include/mim_solvers/csqp.hpp |  5 +++++
 src/csqp.cpp                 | 39 +++++++++++++++++++-----------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 0b19d9c..bb29b1b 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -131,6 +131,11 @@ class SolverCSQP : public SolverDDP {
    */
   virtual void checkKKTConditions();
 
+  /**
+   * @brief Compute the merit value of the current iterate
+   */
+  void computeMerit();
+
   const std::vector<Eigen::VectorXd>& get_xs_try() const { return xs_try_; };
   const std::vector<Eigen::VectorXd>& get_us_try() const { return us_try_; };
 
diff --git a/src/csqp.cpp b/src/csqp.cpp
index f884b37..8fec5d4 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -276,6 +276,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    computeMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -292,24 +293,6 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     gap_list_.push_back(gap_norm_);
     cost_list_.push_back(cost_);
 
-    // Calculate the coefficient of the merit function.
-    if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
-      lag_mul_inf_norm_ = 0;
-      for (const auto& lag_mul : lag_mul_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
-      }
-      for (const auto& y : y_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
-      }
-      merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
-                           (gap_norm_ + constraint_norm_);
-    } else {
-      merit_ =
-          cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
-    }
-
     // We need to recalculate the derivatives when the step length passes
     bool found = false;
     // less than filter_size_, less or equal iter_
@@ -395,6 +378,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    computeMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -411,6 +395,25 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   return false;
 }
 
+void SolverCSQP::computeMerit() {
+  if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
+    lag_mul_inf_norm_ = 0;
+    for (const auto& lag_mul : lag_mul_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
+    }
+    for (const auto& y : y_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
+    }
+    merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
+                         (gap_norm_ + constraint_norm_);
+  } else {
+    merit_ =
+        cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
+  }
+}
+
 void SolverCSQP::calc(const bool recalc) {
   if (recalc) {
     problem_->calc(xs_, us_);
-- 
2.43.0


From 359ac3c5f001eb7515a64a74f6efa693e18e6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:22 +0000
Subject: [PATCH 14/15] fix: FDDP's trial gap norm measures the gaps of the
 trial trajectory

forwardPass() added diff(xs_try_[t], d->xnext), the distance between a state
and its own successor, for every node, so the filter compared a quantity that
is not zero on a rollout and ignored the initial and terminal gaps.
---
 src/fddp.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fddp.cpp b/src/fddp.cpp
index d7b233f..055bd83 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -309,6 +309,7 @@ void SolverFDDP::forwardPass(const double steplength) {
       // compute Lagrange multipliers for KKT condition check
       lag_mul_[t].noalias() = Vxx_[t] * dx_[t] + Vx_[t];
       xs_try_[t] = xnext_;
+      fs_try_[t].setZero();  // the trial follows the dynamics
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
@@ -319,9 +320,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -337,6 +335,7 @@ void SolverFDDP::forwardPass(const double steplength) {
     const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
     lag_mul_.back() = Vxx_.back() * dx_.back() + Vx_.back();
     xs_try_.back() = xnext_;
+    fs_try_.back().setZero();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
@@ -351,6 +350,9 @@ void SolverFDDP::forwardPass(const double steplength) {
       const std::size_t nu = m->get_nu();
       lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);
+      // gap between the trial state and the end of the previous rollout
+      m->get_state()->diff(xs_try_[t], xnext_, fs_try_[t]);
+      gap_norm_try_ += fs_try_[t].lpNorm<1>();
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
@@ -361,9 +363,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -380,6 +379,8 @@ void SolverFDDP::forwardPass(const double steplength) {
     lag_mul_.back() = Vxx_.back() * (dx_.back() - fs_.back()) + Vx_.back();
     m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
                               xs_try_.back());
+    m->get_state()->diff(xs_try_.back(), xnext_, fs_try_.back());
+    gap_norm_try_ += fs_try_.back().lpNorm<1>();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
-- 
2.43.0


From b3755b76cae3661f3c62145948b281e78d7ce65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:19 +0000
Subject: [PATCH 15/15] fix: DDP and FDDP adopted trials with a NaN in a
 predicted state or gap

---
 src/ddp.cpp  | 4 +++-
 src/fddp.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 701c610..8fd45c5 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -388,7 +388,9 @@ void SolverDDP::forwardPass(const double steplength) {
       STOP_PROFILER("SolverDDP::forwardPass");
       throw_pretty("forward_error");
     }
-    if (raiseIfNaN(xs_try_[t + 1].lpNorm<Eigen::Infinity>())) {
+    // lpNorm<Infinity> may drop a NaN
+    if (xs_try_[t + 1].hasNaN() ||
+        raiseIfNaN(xs_try_[t + 1].lpNorm<Eigen::Infinity>())) {
       STOP_PROFILER("SolverDDP::forwardPass");
       throw_pretty("forward_error");
     }
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 055bd83..a4863e7 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -324,7 +324,8 @@ void SolverFDDP::forwardPass(const double steplength) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      // lpNorm<Infinity> may drop a NaN
+      if (xnext_.hasNaN() || raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
@@ -367,7 +368,8 @@ void SolverFDDP::forwardPass(const double steplength) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
-      if (raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
+      // lpNorm<Infinity> may drop a NaN
+      if (xnext_.hasNaN() || raiseIfNaN(xnext_.lpNorm<Eigen::Infinity>())) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
       }
@@ -384,7 +386,7 @@ void SolverFDDP::forwardPass(const double steplength) {
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
-    if (raiseIfNaN(cost_try_)) {
+    if (raiseIfNaN(cost_try_) || std::isnan(gap_norm_try_)) {
       STOP_PROFILER("SolverFDDP::forwardPass");
       throw_pretty("forward_error");
     }
-- 
2.43.0

