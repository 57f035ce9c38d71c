From c86652c354e305ff797a2543c31cfc5a34ab47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 01/72] fix: BasicArray::middleRows wrote outside its result
 unless it started at row 0

---
 trajopt_common/include/trajopt_common/basic_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_common/include/trajopt_common/basic_array.hpp b/trajopt_common/include/trajopt_common/basic_array.hpp
index d2995bd..98d3e40 100644
--- a/trajopt_common/include/trajopt_common/basic_array.hpp
+++ b/trajopt_common/include/trajopt_common/basic_array.hpp
@@ -71,7 +71,7 @@ struct BasicArray
     {
       for (int j = 0; j < m_nCol; ++j)
       {
-        out(i, j) = at(i, j);
+        out(i - start, j) = at(i, j);
       }
     }
     return out;
-- 
2.43.0


From 39b9aa7a85af43364ea9da0935cc9de33b6d4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 02/72] fix: solver names did not match the solvers they were
 looked up for

---
 trajopt_sco/src/solver_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..36f1c16 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
 std::ostream& operator<<(std::ostream& os, const ModelType& cs)
 {
   auto cs_ivalue_ = static_cast<std::size_t>(cs.value_);
-  if (cs_ivalue_ > ModelType::MODEL_NAMES_.size())
+  if (cs_ivalue_ >= ModelType::MODEL_NAMES_.size())
   {
     std::stringstream conversion_error;
     conversion_error << "Error converting ModelType to string - " << "enum value is " << cs_ivalue_ << '\n';
-- 
2.43.0


From 206c37766a3f620997d46f13b6227d77dc20a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 03/72] fix: simplify2 kept zeros where values of one index
 cancelled

---
 trajopt_sco/src/solver_interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index 36f1c16..eab90d0 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -50,6 +50,9 @@ void simplify2(IntVec& inds, DblVec& vals)
     if (vals[i] != 0.0)
       ind2val[inds[i]] += vals[i];
   }
+  // values of the same index may have cancelled
+  for (auto it = ind2val.begin(); it != ind2val.end();)
+    it = (it->second == 0.0) ? ind2val.erase(it) : std::next(it);
   inds.resize(ind2val.size());
   vals.resize(ind2val.size());
   long unsigned int i_new = 0;
-- 
2.43.0


From 6ea3c32b899fe2b3704a31fbbe8309fadf47a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 04/72] fix: an affine objective left the quadratic part of the
 previous one in place

---
 trajopt_sco/src/bpmpd_interface.cpp   | 2 +-
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..68e2e32 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -540,7 +540,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..6fdb369 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -613,7 +613,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From 331c5c5b19e530d39a3b0f0d67df3cd5205edcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 05/72] fix: messages to the BPMPD process larger than a pipe
 buffer aborted or hung

---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 60 ++++++++++++++++----
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..7bc4bf6 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -3,6 +3,8 @@
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
 #include <cassert>
+#include <cerrno>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <unistd.h>
@@ -16,6 +18,40 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/** @brief Write all bytes: a pipe may accept fewer than asked for at a time */
+inline bool writeAll(int fp, const void* data, std::size_t size)
+{
+  const auto* p = static_cast<const char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = write(fp, p, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      return false;
+    p += n;
+    size -= static_cast<std::size_t>(n);
+  }
+  return true;
+}
+
+/** @brief Read all bytes: a pipe may deliver fewer than asked for at a time */
+inline bool readAll(int fp, void* data, std::size_t size)
+{
+  auto* p = static_cast<char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = read(fp, p, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      return false;
+    p += n;
+    size -= static_cast<std::size_t>(n);
+  }
+  return true;
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
@@ -24,16 +60,16 @@ void ser(int fp, T& x, SerMode mode)
     case SER:
     {
       T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      const bool ok = writeAll(fp, &xcopy, sizeof(T));
+      assert(ok);
+      UNUSED(ok);
       break;
     }
     case DESER:
     {
-      const ssize_t n = read(fp, &x, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      const bool ok = readAll(fp, &x, sizeof(T));
+      assert(ok);
+      UNUSED(ok);
       break;
     }
   }
@@ -48,17 +84,17 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   {
     case SER:
     {
-      const long n = write(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      const bool ok = writeAll(fp, x.data(), sizeof(T) * size);
+      assert(ok);
+      UNUSED(ok);
       break;
     }
     case DESER:
     {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      const bool ok = readAll(fp, x.data(), sizeof(T) * size);
+      assert(ok);
+      UNUSED(ok);
       break;
     }
   }
-- 
2.43.0


From c47f7616a7db705c36bf766671d122a8a24f10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 06/72] fix: addVar with bounds wrote the bounds without the
 lock that makes adding variables threadsafe

---
 trajopt_sco/src/bpmpd_interface.cpp   | 1 +
 trajopt_sco/src/osqp_interface.cpp    | 1 +
 trajopt_sco/src/qpoases_interface.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 68e2e32..8fd87c4 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -332,6 +332,7 @@ void BPMPDModel::update()
 
 void BPMPDModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(m_mutex);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     auto varind = static_cast<std::size_t>(vars[i].var_rep->index);
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 6fdb369..a8cbd82 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -419,6 +419,7 @@ void OSQPModel::update()
 
 void OSQPModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 66b9d80..2c96e96 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -199,6 +199,7 @@ void qpOASESModel::update()
 
 void qpOASESModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (std::size_t i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
-- 
2.43.0


From a17a72a32bb09d20a0c3919b52fe27d885523af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 07/72] fix: ConvexObjective::addMax neither added the maximum
 to the objective nor removed its variable

---
 trajopt_sco/src/modeling.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..bf10823 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -75,6 +75,8 @@ void ConvexObjective::addL2Norm(const AffExprVector& ev)
 void ConvexObjective::addMax(const AffExprVector& ev)
 {
   Var const m = model_->addVar("max", static_cast<double>(-INFINITY), static_cast<double>(INFINITY));
+  vars_.push_back(m);
+  exprInc(quad_, m);
   ineqs_.reserve(ineqs_.size() + ev.size());
   for (const auto& i : ev)
   {
-- 
2.43.0


From 84592a6e68eaaf8c23a723766cf6c8ffdb12cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 08/72] fix: getClosestFeasiblePoint ignored the lower bounds
 and left the bounds of narrow variables

---
 trajopt_sco/src/modeling.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index bf10823..e994cc4 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -265,9 +265,10 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   DblVec y(x.size());
   for (std::size_t i = 0; i < x.size(); i++)
   {
-    // Force it a tiny bit inside the bounds
-    y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    // Force it a tiny bit inside the bounds (no further than the middle of them)
+    const double margin = fmin(delta, (upper_bounds_[i] - lower_bounds_[i]) / 2);
+    y[i] = fmax(lower_bounds_[i] + margin, x[i]);
+    y[i] = fmin(upper_bounds_[i] - margin, y[i]);
   }
   return y;
 }
-- 
2.43.0


From a86306a590b8e8048872e17b8aab81abd4804559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 09/72] fix: the cost and its gradient were those of the first
 cost term only

---
 trajopt_ifopt/src/core/problem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..f018733 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -68,11 +68,10 @@ void Problem::setVariables(const double* x)
 
 double Problem::evaluateCostFunction()
 {
-  Eigen::VectorXd g = Eigen::VectorXd::Zero(1);
   if (hasCostTerms())
-    g = costs_.getValues();
+    return costs_.getValues().sum();
 
-  return g(0);
+  return 0.0;
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
@@ -101,7 +100,9 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
     }
     else
     {
-      jac = costs_.getJacobian();
+      // the costs are stacked, one row per cost term
+      const Jacobian costs_jac = costs_.getJacobian();
+      return costs_jac.transpose() * Eigen::VectorXd::Ones(costs_jac.rows());
     }
   }
 
-- 
2.43.0


From 06b9644000f26c43678a1ea9192380cfd2e9a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 10/72] fix: splitting range bounds read joint position
 coefficients that were not given one per joint

---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From 96c9fac0861582176fa01676c267baf497503836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 11/72] fix: the numerical Hessian was not symmetric, as its
 average with its transpose was taken in place

---
 trajopt_sco/src/num_diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/num_diff.cpp b/trajopt_sco/src/num_diff.cpp
index 3d1c291..ed1e9e6 100644
--- a/trajopt_sco/src/num_diff.cpp
+++ b/trajopt_sco/src/num_diff.cpp
@@ -101,7 +101,7 @@ void calcGradHess(const ScalarOfVector::Ptr& f,
   const VectorOfVector::Ptr grad_func = forwardNumGrad(f, epsilon);
   grad = grad_func->call(x);
   hess = calcForwardNumJac(*grad_func, x, epsilon);
-  hess = (hess + hess.transpose()) / 2;
+  hess = (hess + hess.transpose()).eval() / 2;
 }
 
 struct ForwardNumGrad : public VectorOfVector
-- 
2.43.0


From d39d4339b55da65ed93ad603c3440139e660411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 12/72] fix: a time limit that passed before the first
 evaluation was reported as convergence

---
 trajopt_sco/src/optimizers.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index fce8e57..8aacc8e 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -736,6 +736,16 @@ OptStatus BasicTrustRegionSQP::optimize()
   { /* merit adjustment loop */
     for (int iter = 1;; ++iter)
     { /* sqp loop */
+      // speedup: if you just evaluated the cost when doing the line search, use
+      // that
+      if (results_.cost_vals.empty() && results_.cnt_viols.empty())
+      {  // only happens on the first iteration
+        results_.cnt_viols = evaluateConstraintViols(constraints, results_.x);
+        results_.cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
+        assert(results_.n_func_evals == 0);
+        ++results_.n_func_evals;
+      }
+
       const double elapsed_time = std::chrono::duration<double, std::milli>(Clock::now() - start_time).count() / 1000.0;
       if (elapsed_time > param_.max_time)
       {
@@ -756,16 +766,6 @@ OptStatus BasicTrustRegionSQP::optimize()
       LOG_DEBUG("current iterate: %s", CSTR(results_.x));
       LOG_INFO("iteration %i", iter);
 
-      // speedup: if you just evaluated the cost when doing the line search, use
-      // that
-      if (results_.cost_vals.empty() && results_.cnt_viols.empty())
-      {  // only happens on the first iteration
-        results_.cnt_viols = evaluateConstraintViols(constraints, results_.x);
-        results_.cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
-        assert(results_.n_func_evals == 0);
-        ++results_.n_func_evals;
-      }
-
       // DblVec new_cnt_viols = evaluateConstraintViols(constraints, results_.x);
       // DblVec new_cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
       // cout << "costs" << endl;
-- 
2.43.0


From 5ece36e0c1c9b23bcb8f1ad1d5006afbdeb2bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 13/72] fix: closing log files that could not be opened crashed
 at the end of an optimization

---
 trajopt_sco/src/optimizers.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 8aacc8e..295e542 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -977,15 +977,11 @@ cleanup:
   LOG_INFO("\n==================\n%s==================", CSTR(results_));
   callCallbacks();
 
-  // NOLINTBEGIN(clang-analyzer-core.NonNullParamChecker)
-  if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
+  for (std::FILE* stream : { log_solver_stream, log_vars_stream, log_costs_stream, log_constraints_stream })
   {
-    std::fclose(log_solver_stream);
-    std::fclose(log_vars_stream);
-    std::fclose(log_costs_stream);
-    std::fclose(log_constraints_stream);
+    if (stream != nullptr)
+      std::fclose(stream);
   }
-  // NOLINTEND(clang-analyzer-core.NonNullParamChecker)
 
   return retval;
 }
-- 
2.43.0


From 1fdca180def4f1b8c2163d6bf8c43e5817bcc560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 14/72] fix: quadratic models dropped the gradient of the rows
 without a Hessian

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index bb59d1b..553d4da 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -181,8 +181,8 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
   assert(static_cast<Eigen::Index>(func_hessians.size()) == m);
   assert(x.size() == n);
 
-  linear_coeffs.resize(m, n);
-  linear_coeffs.setZero();  // keep existing behavior: rows with no Hessian stay zero
+  // linear rows: J_i, and -x₀ᵀ H_i below for the rows with a Hessian
+  linear_coeffs = func_jacobian;
 
   // constants = f(x₀) − J(x₀) x₀
   constants.resize(m);
-- 
2.43.0


From 3fdb40e775705d7ea66580ffb160cf090344186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 15/72] fix: quadratic expressions of one variable were
 evaluated as squared affine ones

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index 553d4da..ab86f4a 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -96,8 +96,9 @@ void AffExprs::square(QuadExprs& quad_expr, const Eigen::Ref<const Eigen::Vector
     scratch_qi_trips_.clear();
 
     // Iterate Bw row i (RowMajor outer index is the row)
+    // With a single variable a 1×1 matrix is a general quadratic, so it has to hold the square itself
     for (trajopt_ifopt::Jacobian::InnerIterator it(scratch_bw_, static_cast<int>(i)); it; ++it)
-      scratch_qi_trips_.emplace_back(0, it.col(), it.value());
+      scratch_qi_trips_.emplace_back(0, it.col(), n == 1 ? it.value() * it.value() : it.value());
 
     if (scratch_qi_trips_.empty())
     {
@@ -145,7 +146,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
     if (Q.rows() == 0)
       continue;
 
-    if (Q.rows() == 1)
+    if (Q.rows() == 1 && Q.cols() > 1)
     {
       // Encoded q_i (1×n): add (q_i * x)^2
       double t = 0.0;
-- 
2.43.0


From 160714633203d74218ba2772181b0b4d729156e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 16/72] fix: IfoptQPProblem evaluated costs without the
 coefficients it optimizes them with

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..5aab89b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -62,13 +62,13 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   {
     case CostPenaltyType::kSquared:
     {
-      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
     case CostPenaltyType::kAbsolute:
     {
-      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
-- 
2.43.0


From bfeb62928e1c8a7394f07b1054bccad4ccb1e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 17/72] fix: IfoptQPProblem::setup() called again duplicated
 the names

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 5aab89b..2f8a933 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -94,6 +94,8 @@ void IfoptQPProblem::setup()
   constraint_types_.resize(static_cast<std::size_t>(num_nlp_cnts_));
 
   // Get NLP Cost and Constraint Names for Debug Print
+  constraint_names_.clear();
+  cost_names_.clear();
   for (const auto& cnt : nlp_->getConstraints().getComponents())
   {
     for (Eigen::Index j = 0; j < cnt->getRows(); j++)
-- 
2.43.0


From 066ea9b2a4e33e6de9bf7a55190816d447c4b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 18/72] fix: IfoptQPProblem counted the change of the total
 cost once per cost in the model of every cost

---
 .../include/trajopt_sqp/ifopt_qp_problem.h    |  9 +++-
 .../trajopt_sqp/src/ifopt_qp_problem.cpp      | 51 ++++++++++---------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
index f7a12e6..78f5e7c 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
@@ -113,7 +113,12 @@ protected:
 
   trajopt_ifopt::Jacobian hessian_;
   Eigen::VectorXd gradient_;
-  Eigen::VectorXd cost_constant_;
+
+  /** @brief Local model of each cost (value, gradient and weighted Jacobian at the point of the last convexify()) */
+  Eigen::VectorXd cost_x_initial_;
+  Eigen::VectorXd cost_initial_values_;
+  Eigen::MatrixXd cost_gradients_;
+  std::vector<trajopt_ifopt::Jacobian> cost_weighted_jacobians_;
 
   /** @brief Raw constraint sets underlying each SquaredCost, saved for Hessian/gradient computation */
   std::vector<std::shared_ptr<trajopt_ifopt::ConstraintSet>> cost_constraints_;
@@ -191,7 +196,7 @@ protected:
   /** @brief This calculates the constant expression in the quadratic expression for the constraints */
   void updateConstraintsConstantExpression();
 
-  /** @brief This calculates the constant expression in the quadratic expression for the costs */
+  /** @brief This stores the local model of each cost */
   void updateCostsConstantExpression();
 };
 
diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 2f8a933..cc25adc 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -85,7 +85,6 @@ void IfoptQPProblem::setup()
   num_nlp_vars_ = nlp_->getNumberOfOptimizationVariables();
   num_nlp_cnts_ = nlp_->getNumberOfConstraints();
   num_nlp_costs_ = nlp_->getCosts().getRows();
-  cost_constant_ = Eigen::VectorXd::Zero(1);
 
   num_qp_vars_ = num_nlp_vars_;
   num_qp_cnts_ = num_nlp_cnts_ + num_nlp_vars_;
@@ -377,28 +376,31 @@ void IfoptQPProblem::updateCostsConstantExpression()
   if (num_nlp_costs_ == 0)
     return;
 
-  // Get values about which we will linearize
-  Eigen::VectorXd x_initial = nlp_->getVariableValues().head(num_nlp_vars_);
-  const Eigen::VectorXd cost_initial_value = nlp_->getCosts().getValues();
-
-  // In the case of a QP problem the costs and constraints are represented as
-  // quadratic functions is f(x) = a + b * x + c * x^2.
-  // When convexifying the function it need to produce the same cost values at the values used to calculate
-  // the Jacobian and Hessian, so f(x_initial) = a + b * x + c * x^2 = cost_initial_value.
-  // Therefore a = cost_initial_value - b * x - c * x^2
-  //     where: b = gradient_
-  //            c = hessian_
-  //            x = x_initial
-  //            a = quadratic constant (cost_constant_)
+  // The QP objective is the sum of the costs, but every cost is also evaluated on its own. Therefore the Gauss-Newton model
+  // of each cost is stored: f_i(x) = f_i(x0) + g_i * (x - x0) + |sqrt(w_i) * J_i * (x - x0)|^2
   //
   // Note: This is not used by the QP solver directly but by the Trust Regions Solver
   //       to calculate the merit of the solve.
+  cost_x_initial_ = nlp_->getVariableValues().head(num_nlp_vars_);
+  cost_initial_values_ = nlp_->getCosts().getValues();
+  cost_gradients_.setZero(num_nlp_costs_, num_nlp_vars_);
+  cost_weighted_jacobians_.clear();
+
+  // Costs which the wrapped problem already had do not contribute to the QP objective
+  const Eigen::Index offset = num_nlp_costs_ - static_cast<Eigen::Index>(cost_constraints_.size());
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
+  {
+    const auto& c = cost_constraints_[i];
+    trajopt_ifopt::Jacobian J = c->getJacobian();
+    const Eigen::VectorXd w = c->getCoefficients();
 
-  // The block excludes the slack variables
-  /** @todo I am not sure this is correct because the gradient_ is not each individual cost function gradient */
-  const double result_quad = x_initial.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x_initial;
-  const double result_lin = x_initial.dot(gradient_.head(num_nlp_vars_));
-  cost_constant_ = cost_initial_value.array() - result_quad - result_lin;
+    Eigen::VectorXd errors(c->getRows());
+    trajopt_ifopt::calcBoundsErrors(errors, c->getValues(), c->getBounds());
+
+    const Eigen::VectorXd we = (w.array() * errors.array()).matrix();
+    cost_gradients_.row(offset + static_cast<Eigen::Index>(i)) = 2.0 * (J.transpose() * we).transpose();
+    cost_weighted_jacobians_.emplace_back(w.cwiseAbs().cwiseSqrt().asDiagonal() * J);
+  }
 }
 
 void IfoptQPProblem::updateConstraintsConstantExpression()
@@ -518,10 +520,13 @@ Eigen::VectorXd IfoptQPProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen
   if (num_nlp_costs_ == 0)
     return {};
 
-  auto var_block = var_vals.head(num_nlp_vars_);
-  const double result_quad = var_block.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * var_block;
-  const double result_lin = var_block.dot(gradient_.head(num_nlp_vars_));
-  return cost_constant_.array() + result_lin + result_quad;
+  const Eigen::VectorXd dx = var_vals.head(num_nlp_vars_) - cost_x_initial_;
+  Eigen::VectorXd costs = cost_initial_values_ + cost_gradients_ * dx;
+  const Eigen::Index offset = num_nlp_costs_ - static_cast<Eigen::Index>(cost_weighted_jacobians_.size());
+  for (std::size_t i = 0; i < cost_weighted_jacobians_.size(); ++i)
+    costs[offset + static_cast<Eigen::Index>(i)] += (cost_weighted_jacobians_[i] * dx).squaredNorm();
+
+  return costs;
 }
 
 double IfoptQPProblem::getTotalExactCost() const { return nlp_->evaluateCostFunction(); }
-- 
2.43.0


From 4f93989172d5c684319250cb35671054e626ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 19/72] fix: TrajOptQPProblem evaluated stale models when all
 dynamic squared costs are empty

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..c6fe403 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -152,7 +152,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       scratch_val.resize(n_objective_terms);
 
     auto sq_costs = scratch_val.head(n_objective_terms);
-    squared_objective_nlp.values(sq_costs, var_block);
+    if (n_objective_terms > 0)
+      squared_objective_nlp.values(sq_costs, var_block);
 
     assert(!(sq_costs.array() < -1e-8).any());
     for (const auto& c_info : objective_term_infos)
-- 
2.43.0


From 07abb846d362dff767db0cdb028a79387c7b4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 20/72] fix: TrajOptQPProblem gave constraints after an empty
 one the merit coefficient of another

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index c6fe403..7803b07 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -747,7 +747,11 @@ void TrajOptQPProblem::Implementation::convexify()
     const auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
     if (info.rows == 0)
+    {
+      if (info.type == ComponentInfoType::kMeritConstraint)
+        ++merit_constraint_index;
       continue;
+    }
 
     // Linearize Constraints
     const trajopt_ifopt::Jacobian jac = cnt->getJacobian();
-- 
2.43.0


From 8d91b4c66565ed39f9b716aae3b9f25140e99dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 21/72] fix: TrajOptQPProblem::setup() called again dropped all
 terms

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 7803b07..b02afae 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -693,6 +693,7 @@ void TrajOptQPProblem::Implementation::setup()
   }
 
   // Update
+  initialized = false;
   update();
 
   initialized = true;
-- 
2.43.0


From 34ec34630b9747e2da26dd733f3ac7caa70a2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 22/72] fix: the convex value of hinge and absolute costs was
 always zero at a solution of the QP

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index b02afae..0c54b71 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -130,7 +130,7 @@ struct ConvexProblem
 
 Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& var_vals) const
 {
-  /** @note The legacy trajop appears to use all variables include slack for convex cost evaluation */
+  /** @note Slack variables take up the violation of a penalty row, so they are not part of its value */
   const auto total_cost = static_cast<Eigen::Index>(objective_term_infos.size() + penalty_constraint_infos.size());
 
   if (total_cost == 0)
@@ -173,7 +173,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       continue;
     }
 
-    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows);
+    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows).leftCols(n_nlp_vars);
     auto constant = constraint_constant.segment(row_offset, c_info.rows);
 
     // Ensure scratch buffers big enough (no allocation after first growth)
@@ -187,7 +187,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
 
     // scratch_val = constant + jac * var_vals
     val = constant;                   // copy into scratch (but no alloc)
-    val.noalias() += jac * var_vals;  // mat-vec into existing memory
+    val.noalias() += jac * var_block;  // mat-vec into existing memory
 
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
-- 
2.43.0


From 0d45e0fbeb6bc52c7b4b3b0719f42e8f985babc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 23/72] fix: TrajOptQPProblem evaluated hinge and absolute
 costs without their coefficients

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 0c54b71..20cc421 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -192,7 +192,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
 
-    costs(cost_idx++) = err.sum();
+    costs(cost_idx++) = err.dot(c_info.coeffs);
     assert(!(err.array() < -1e-8).any());
     row_offset += c_info.rows;
   }
@@ -1019,7 +1019,7 @@ Eigen::VectorXd TrajOptQPProblem::Implementation::getExactCosts() const
     auto err = scratch_err.head(c->getRows());
 
     trajopt_ifopt::calcBoundsViolations(err, c->getValues(), c->getBounds());
-    g(cost_idx++) = err.sum();
+    g(cost_idx++) = err.dot(c->getCoefficients());
   }
 
   return g;
-- 
2.43.0


From a9b5b60de20a2fbf0250546be9ddc7d2c65e297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:27 +0000
Subject: [PATCH 24/72] fix: a callback returning false did not stop the trust
 region SQP solver

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..7eb1d73 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -119,10 +119,14 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
       }
 
-      if (stepSQPSolver())
+      if (stepSQPSolver() || status_ == SQPStatus::kStoppedByCallback)
         break;
     }
 
+    // Respect callbacks and exit gracefully
+    if (status_ == SQPStatus::kStoppedByCallback)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
-- 
2.43.0


From d072f2a425cdff85dcb082c158f2e8a270aa0bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:27 +0000
Subject: [PATCH 25/72] fix: the trust region SQP solver went on after the QP
 solver failed too often

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 7eb1d73..ad20f41 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -119,12 +119,12 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
       }
 
-      if (stepSQPSolver() || status_ == SQPStatus::kStoppedByCallback)
+      if (stepSQPSolver() || status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
         break;
     }
 
-    // Respect callbacks and exit gracefully
-    if (status_ == SQPStatus::kStoppedByCallback)
+    // Respect callbacks and abort when the QP solver failed too often
+    if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
       break;
 
     // Check if constraints are satisfied
-- 
2.43.0


From 7d400405e5e22de00f143ca860d34b8e6a6f48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 26/72] fix: the single timestep evaluator ordered contacts by
 the error of their first link only

---
 .../src/constraints/collision/discrete_collision_evaluators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
index 4d80d56..6674523 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
@@ -142,7 +142,7 @@ void SingleTimestepCollisionEvaluator::calcCollisions(trajopt_common::CollisionC
     std::sort(collision_data.gradient_results_sets.begin(),
               collision_data.gradient_results_sets.end(),
               [](const trajopt_common::GradientResultsSet& a, const trajopt_common::GradientResultsSet& b) {
-                return a.max_error[0].error > b.max_error[0].error;
+                return a.getMaxErrorT0() > b.getMaxErrorT0();
               });
   }
 }
-- 
2.43.0


From 3b674ac406118276fd5a398ef7f71634369051c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 27/72] fix: contacts at the end of a split continuous motion
 were not recognized as such

---
 .../constraints/collision/continuous_collision_evaluators.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
index 67d67eb..bc047cc 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
@@ -231,7 +231,7 @@ void LVSContinuousCollisionEvaluator::calcCollisionsHelper(tesseract::collision:
       if (!contacts.empty())
       {
         dist_results.addInterpolatedCollisionResults(
-            contacts, i, last_state_idx, manip_active_link_names_, dt, false, filter);
+            contacts, i, last_state_idx - 1, manip_active_link_names_, dt, false, filter);
       }
       contacts.clear();
     }
-- 
2.43.0


From 66f7275c7ff020ac977011f4e663ad730c566637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 28/72] fix: the averaged gradient of a contact between two
 moving links was halved

---
 .../collision/weighted_average_methods.cpp           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp b/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
index dd10a1a..3b71e63 100644
--- a/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
+++ b/trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
@@ -41,6 +41,8 @@ Eigen::VectorXd getWeightedAvgGradientT0(const trajopt_common::GradientResultsSe
   long cnt{ 0 };
   for (const auto& grad : grad_results_set.results)
   {
+    // Both links of a contact contribute to the gradient of its error, but it is only one term of the average
+    bool has_weight{ false };
     for (std::size_t i = 0; i < 2; ++i)
     {
       if (grad.gradients[i].has_gradient &&
@@ -51,7 +53,9 @@ Eigen::VectorXd getWeightedAvgGradientT0(const trajopt_common::GradientResultsSe
           assert(grad_results_set.max_error[i].has_error[0]);
           const double w = (std::max(grad.error_with_buffer, 0.0) / max_error_with_buffer);
           assert(!(w < 0));
-          total_weight += w;
+          if (!has_weight)
+            total_weight += w;
+          has_weight = true;
           grad_vec.noalias() += w * (grad.gradients[i].scale * grad.gradients[i].gradient);
           ++cnt;
         }
@@ -80,6 +84,8 @@ Eigen::VectorXd getWeightedAvgGradientT1(const trajopt_common::GradientResultsSe
   long cnt{ 0 };
   for (const auto& grad : grad_results_set.results)
   {
+    // Both links of a contact contribute to the gradient of its error, but it is only one term of the average
+    bool has_weight{ false };
     for (std::size_t i = 0; i < 2; ++i)
     {
       if (grad.cc_gradients[i].has_gradient &&
@@ -90,7 +96,9 @@ Eigen::VectorXd getWeightedAvgGradientT1(const trajopt_common::GradientResultsSe
           assert(grad_results_set.max_error[i].has_error[1]);
           const double w = (std::max(grad.error_with_buffer, 0.0) / max_error_with_buffer);
           assert(!(w < 0));
-          total_weight += w;
+          if (!has_weight)
+            total_weight += w;
+          has_weight = true;
           grad_vec.noalias() += w * (grad.cc_gradients[i].scale * grad.cc_gradients[i].gradient);
           ++cnt;
         }
-- 
2.43.0


From bb4f8c7ada58d1915a7a5f567aefec19f43586e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 29/72] fix: the numerical collision constraints accepted the
 bounds of one row only

---
 .../collision/continuous_collision_numerical_constraint.cpp     | 2 +-
 .../collision/discrete_collision_numerical_constraint.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 3bad743..e493724 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -229,7 +229,7 @@ Eigen::VectorXd ContinuousCollisionNumericalConstraint::getCoefficients() const
 
 void ContinuousCollisionNumericalConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 1);
+  assert(bounds.size() == rows_);
   bounds_ = bounds;
 }
 
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
index 367b736..78c89fb 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
@@ -135,7 +135,7 @@ DiscreteCollisionNumericalConstraint::calcValues(const Eigen::Ref<const Eigen::V
 
 void DiscreteCollisionNumericalConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 1);
+  assert(bounds.size() == rows_);
   bounds_ = bounds;
 }
 
-- 
2.43.0


From 80143354691894c506256ce18c8badb3ca00d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 30/72] fix: the numerical continuous collision constraint
 varied the wrong state

---
 .../continuous_collision_numerical_constraint.cpp     | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index e493724..e5817b5 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -171,20 +171,19 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
   const double margin_buffer = collision_evaluator_->getCollisionMarginBuffer();
 
   // Calculate collisions
-  Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
-  const Eigen::VectorXd joint_vals1 = position_vars_[1]->value();
+  const std::array<Eigen::VectorXd, 2> joint_vals{ position_vars_[0]->value(), position_vars_[1]->value() };
 
   trajopt_common::CollisionCacheData collision_data_delta;
   const std::size_t cnt = std::min(bounds_.size(), collision_data_->gradient_results_sets.size());
   const double delta = 1e-8;
   for (std::size_t p = 0; p < 2; p++)
   {
-    Eigen::VectorXd jv = position_vars_[p]->value();
+    std::array<Eigen::VectorXd, 2> jv = joint_vals;
     for (int j = 0; j < n_dof_; j++)
     {
-      jv(j) += delta;
+      jv[p](j) += delta;
       collision_evaluator_->calcCollisionData(
-          collision_data_delta, jv, joint_vals1, vars0_fixed_, vars1_fixed_, bounds_.size());
+          collision_data_delta, jv[0], jv[1], vars0_fixed_, vars1_fixed_, bounds_.size());
 
       for (int i = 0; i < static_cast<int>(cnt); ++i)
       {
@@ -219,7 +218,7 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
           jac.coeffRef(i, position_vars_[p]->getIndex() + j) = dist_delta / delta;
         }
       }
-      jv = position_vars_[p]->value();
+      jv[p] = joint_vals[p];
     }
   }
   return jac;
-- 
2.43.0


From 13c18aa572d21bf048ffe1575159896a7e47f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 31/72] fix: a collision constraint with one null variable was
 not refused

---
 .../constraints/collision/continuous_collision_constraint.cpp | 4 ++--
 .../collision/continuous_collision_numerical_constraint.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
index 8303d7f..abcfb44 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
@@ -54,7 +54,7 @@ ContinuousCollisionConstraint::ContinuousCollisionConstraint(
   , collision_evaluator_(std::move(collision_evaluator))
   , fixed_sparsity_(fixed_sparsity)
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
@@ -257,7 +257,7 @@ ContinuousCollisionConstraintD::ContinuousCollisionConstraintD(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index e5817b5..3abef13 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -52,7 +52,7 @@ ContinuousCollisionNumericalConstraint::ContinuousCollisionNumericalConstraint(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("position_vars contains a nullptr!");
 
   // Set n_dof_ for convenience
-- 
2.43.0


From 7fff14a760279e6d1195e891d9e78d0ae58a2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 32/72] fix: subset singularity terms worked in builds with
 assertions only

---
 trajopt/src/kinematic_terms.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/trajopt/src/kinematic_terms.cpp b/trajopt/src/kinematic_terms.cpp
index dd20e24..d994ca8 100644
--- a/trajopt/src/kinematic_terms.cpp
+++ b/trajopt/src/kinematic_terms.cpp
@@ -643,10 +643,12 @@ MatrixXd AvoidSingularityJacCalculator::operator()(const VectorXd& var_vals) con
 
 VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Get the subset of the input variable values
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  const bool found =
+      getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals);
+  assert(found);
+  UNUSED(found);
 
   // Return the cost using the base class
   return AvoidSingularityErrCalculator::operator()(subset_var_vals);
@@ -654,10 +656,12 @@ VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_val
 
 MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Calculate the gradient using the subset kinematics
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  const bool found =
+      getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals);
+  assert(found);
+  UNUSED(found);
   MatrixXd subset_jac = AvoidSingularityJacCalculator::operator()(subset_var_vals);
 
   // Create an all-zero gradient that is the size of the superset joints
@@ -666,9 +670,10 @@ MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_val
 
   // Update the all-zero superset gradient with the values from the subset gradient
   VectorXd tmp(superset_kin_->numJoints());
-  assert(updateFromSubset(
-             superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp) ==
-         true);
+  const bool updated = updateFromSubset(
+      superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp);
+  assert(updated);
+  UNUSED(updated);
 
   // Create the output gradient
   MatrixXd jac(1, superset_kin_->numJoints());
-- 
2.43.0


From 3e8eda9e7a0a336a8d171a1bcab21189a1817696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 33/72] fix: continuous collision terms split the motion at the
 longest valid segment

---
 trajopt/src/collision_terms.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index 23cd58b..a0c5bbb 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -1115,7 +1115,9 @@ void CastCollisionEvaluator::CalcCollisions(const Eigen::Ref<const Eigen::Vector
 #endif
   };
 
-  if (dist > collision_check_config_.longest_valid_segment_length)
+  const bool single_segment =
+      (collision_check_config_.type == tesseract::collision::CollisionEvaluatorType::CONTINUOUS);
+  if (!single_segment && dist > collision_check_config_.longest_valid_segment_length)
   {
     // Calculate the number state to interpolate
     auto cnt = static_cast<long>(std::ceil(dist / collision_check_config_.longest_valid_segment_length)) + 1;
-- 
2.43.0


From e335164d90b21f29ae1752e8b548768139e087f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 34/72] fix: continuous collision terms did not recognise
 contacts at the end of a split motion

---
 trajopt/src/collision_terms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index a0c5bbb..8d25491 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -1150,7 +1150,7 @@ void CastCollisionEvaluator::CalcCollisions(const Eigen::Ref<const Eigen::Vector
       if (!contacts.empty())
       {
         dist_results.addInterpolatedCollisionResults(
-            contacts, i, last_state_idx, manip_active_link_names_, dt, false, filter);
+            contacts, i, last_state_idx - 1, manip_active_link_names_, dt, false, filter);
       }
       contacts.clear();
     }
-- 
2.43.0


From 5b64608e85164a292a6dffdcdd63c2f414c7a535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 35/72] fix: cart_vel terms up to the last step asked for a
 step after it

---
 trajopt/src/problem_description.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 6e77143..680344e 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1011,6 +1011,8 @@ void CartVelTermInfo::fromJson(ProblemConstructionInfo& pci, const Json::Value&
 void CartVelTermInfo::hatch(TrajOptProb& prob)
 {
   const int n_dof = static_cast<int>(prob.GetKin()->numJoints());
+  // The displacement of a step is that to the next one, which the last step of the trajectory does not have
+  const int final_step = std::min(last_step, prob.GetNumSteps() - 2);
 
   if (term_type == (TermType::TT_COST | TermType::TT_USE_TIME))
   {
@@ -1022,7 +1024,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_COST) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    for (int iStep = first_step; iStep <= final_step; ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
@@ -1037,7 +1039,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_CNT) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    for (int iStep = first_step; iStep <= final_step; ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
-- 
2.43.0


From eecf8d25f513634996a5791521ade74ff390e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 36/72] fix: joint_jerk terms of one step took a step more than
 the jerk has

---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 680344e..41a17ea 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1533,9 +1533,9 @@ void JointJerkTermInfo::hatch(TrajOptProb& prob)
     first_step = prob.GetNumSteps() - 4;
   if ((prob.GetNumSteps() - 1) <= last_step)
     last_step = prob.GetNumSteps() - 1;
-  // If only one time step is desired, calculate velocity with next step (5 steps are needed for 1 jerk calculation)
+  // If only one time step is desired, calculate jerk with the next steps (4 steps are needed for 1 jerk calculation)
   if (last_step == first_step)
-    last_step += 4;
+    last_step += 3;
   if (last_step < first_step)
   {
     const int tmp = first_step;
-- 
2.43.0


From 405f67cc2d6ef02a2c8c74a4085307a882dd6b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 37/72] fix: the safety_margin_buffer of collision terms was
 read but refused

---
 trajopt/src/problem_description.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 41a17ea..d8bde09 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1707,6 +1707,7 @@ void CollisionTermInfo::fromJson(ProblemConstructionInfo& pci, const Json::Value
                                "fixed_steps",
                                "contact_test_type",
                                "longest_valid_segment_length",
+                               "safety_margin_buffer",
                                "coeffs",
                                "dist_pen",
                                "pairs" };
-- 
2.43.0


From faa6ca8a0c7bc13dc7afaa84ffa50001f64f5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 38/72] fix: fixed steps and joints just out of range, or
 negative, were not refused

---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index d8bde09..c0650a1 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -486,7 +486,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& t_idx : bi.fixed_timesteps)
     {
-      if (init_traj.rows() < t_idx)
+      if (t_idx < 0 || t_idx >= init_traj.rows())
       {
         PRINT_AND_THROW("Fixed timestep index is outside the bounds of the initial trajectory.");
       }
@@ -510,7 +510,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& dof_ind : bi.fixed_dofs)
     {
-      if (static_cast<int>(n_dof) < dof_ind)
+      if (dof_ind < 0 || dof_ind >= init_traj.cols())
       {
         PRINT_AND_THROW("DOF(aka Joint) indice is greater than the number of DOF available.");
       }
-- 
2.43.0


From fa86c7a4215b962d7fdd3bbc64adcfb198f1e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 39/72] fix: total_time terms without time variables took the
 last joint for them

---
 trajopt/src/problem_description.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index c0650a1..3ef9b1d 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1853,6 +1853,9 @@ void TotalTimeTermInfo::fromJson(ProblemConstructionInfo& /*pci*/, const Json::V
 
 void TotalTimeTermInfo::hatch(TrajOptProb& prob)
 {
+  if (!prob.GetHasTime())
+    PRINT_AND_THROW(boost::format("%s needs the time variables that basic_info.use_time adds") % name);
+
   Eigen::VectorXd coeff_vec(1);
   coeff_vec[0] = coeff;
 
-- 
2.43.0


From 2b168ff397a9374905f898bfa43c7749c92bc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 40/72] fix: the nearest point of a Cartesian line was wrong
 unless the line pointed away from the tool

---
 .../constraints/cartesian_line_constraint.cpp | 33 +++++++------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 609ecc0..7b8b639 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -36,6 +36,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <tesseract/kinematics/joint_group.h>
 #include <tesseract/common/utils.h>
 #include <console_bridge/console.h>
+#include <algorithm>
 #include <cassert>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -272,37 +273,25 @@ Eigen::Isometry3d CartLineConstraint::getLinePoint(const Eigen::Isometry3d& sour
                                                    const Eigen::Isometry3d& target_tf1,
                                                    const Eigen::Isometry3d& target_tf2) const
 {
-  // distance 1; distance from new pose to first point on line
-  const Eigen::Vector3d d1 = (source_tf.translation() - target_tf1.translation()).array().abs();
-
   // Get the line
   const Eigen::Vector3d line = target_tf2.translation() - target_tf1.translation();
 
-  // Point D, the nearest point on line AB to point C, can be found with:
-  // (AC - (AC * AB)) * AB
-  Eigen::Isometry3d line_point;
-  const Eigen::Vector3d line_norm = line.normalized();
-  const double mag = d1.dot(line_norm);
+  // Point D, the nearest point on line AB to point C, is at the projection of AC onto AB. As a fraction of the line:
+  // (AC * AB) / (AB * AB)
+  const Eigen::Vector3d d1 = source_tf.translation() - target_tf1.translation();
+  const double length_squared = line.squaredNorm();
+  double fraction = (length_squared > 0.0) ? (d1.dot(line) / length_squared) : 0.0;
 
   // If point C is not between the line endpoints, set nearest point to endpoint
-  if (mag > 1.0)
-  {
-    line_point.translation() = info_.target_frame_offset2.translation();
-  }
-  else if (mag < 0)
-  {
-    line_point.translation() = info_.target_frame_offset1.translation();
-  }
-  else
-  {
-    line_point.translation() = info_.target_frame_offset1.translation() + mag * line_norm;
-  }
+  fraction = std::min(std::max(fraction, 0.0), 1.0);
+
+  Eigen::Isometry3d line_point = Eigen::Isometry3d::Identity();
+  line_point.translation() = target_tf1.translation() + (fraction * line);
 
   // The orientation of the line_point is found using quaternion SLERP
   const Eigen::Quaterniond quat_a(target_tf1.rotation());
   const Eigen::Quaterniond quat_b(target_tf2.rotation());
-  const Eigen::Quaterniond slerp = quat_a.slerp(mag, quat_b);
-  line_point.linear() = slerp.toRotationMatrix();
+  line_point.linear() = quat_a.slerp(fraction, quat_b).toRotationMatrix();
 
   return line_point;
 }
-- 
2.43.0


From 1c2baad0fed2c74f431f8cf67f0a418aaf1f563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 41/72] fix: the Jacobian of a Cartesian line constraint read
 and wrote six rows whatever its indices

---
 trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 7b8b639..b61fb9d 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -177,14 +177,14 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       dof_vals_pert(i) = joint_vals(i);
     }
 
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
       {
         // Each jac_block will be for a single variable but for all timesteps. Therefore we must index down to the
         // correct timestep for this variable
-        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0.coeffRef(info_.indices[i], j);
+        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0(i, j);
       }
     }
   }
@@ -236,7 +236,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     //    Jacobian jac_block = jac0.sparseView();
 
     // This does work but could be faster
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
-- 
2.43.0


From 3be52e1950c37e831892ea128ac1b475d000f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 42/72] fix: Cartesian line constraints with fewer than six
 indices accepted bounds of six rows only

---
 trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index b61fb9d..7201d71 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -148,7 +148,7 @@ std::vector<Bounds> CartLineConstraint::getBounds() const { return bounds_; }
 
 void CartLineConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 6);
+  assert(bounds.size() == static_cast<std::size_t>(info_.indices.size()));
   bounds_ = bounds;
 }
 
-- 
2.43.0


From 5fccfe07732bccac6c8b5d222334080b018f00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 43/72] fix: OSQP models took matrices for equal in structure
 after comparing an eighth of it

---
 trajopt_sco/src/osqp_interface.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index a8cbd82..2ac6825 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -195,10 +195,8 @@ bool OSQPModel::updateObjective(bool check_sparsity)
   eigenToCSC(triangular_sm, P_row_indices_, P_column_pointers_, P_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), P_column_pointers_.data(), static_cast<size_t>(P_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), P_row_indices_.data(), static_cast<size_t>(P_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == P_column_pointers_ && prev_row_indices == P_row_indices_;
 
   P_.reset(OSQPCscMatrix_new(n_,
                              n_,
@@ -265,10 +263,8 @@ bool OSQPModel::updateConstraints(bool check_sparsity)
   eigenToCSC(sm, A_row_indices_, A_column_pointers_, A_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), A_column_pointers_.data(), static_cast<size_t>(A_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), A_row_indices_.data(), static_cast<size_t>(A_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == A_column_pointers_ && prev_row_indices == A_row_indices_;
 
   A_.reset(OSQPCscMatrix_new(m_,
                              n_,
-- 
2.43.0


From 71ce05840677e6e0d678bee8d6ac9de849e92c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 44/72] fix: qpOASES models gave a new solver no more steps
 than the failed hotstart had made

---
 trajopt_sco/src/qpoases_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 2c96e96..7d207de 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -241,6 +241,7 @@ CvxOptStatus qpOASESModel::optimize()
     //      tests pass.
     createSolver();
 
+    nWSR = 255;  // the hotstart has left the number of changes it made here
     val = qpoases_problem_->init(&H_, g_.data(), &A_, lb_.data(), ub_.data(), lbA_.data(), ubA_.data(), nWSR, nullptr);
   }
 
-- 
2.43.0


From 5242a024305661d7c7cfe1b5fa57ed19495d08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 45/72] fix: Gurobi models kept removed variables after the
 solver had dropped them in optimize

---
 trajopt_sco/src/gurobi_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_sco/src/gurobi_interface.cpp b/trajopt_sco/src/gurobi_interface.cpp
index 580a728..9419504 100644
--- a/trajopt_sco/src/gurobi_interface.cpp
+++ b/trajopt_sco/src/gurobi_interface.cpp
@@ -225,6 +225,7 @@ DblVec GurobiModel::getVarValues(const VarVector& vars) const
 
 CvxOptStatus GurobiModel::optimize()
 {
+  update();
   ENSURE_SUCCESS(GRBoptimize(m_model));
   int status;
   GRBgetintattr(m_model, GRB_INT_ATTR_STATUS, &status);
-- 
2.43.0


From 6fb7f97a07cb1b27b33e896b4ac3e6bb0a5497be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 46/72] fix: OSQPEigenSolver refused a lower or an upper bound
 before the first solve

---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 248674d..4e125d3 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -241,13 +241,21 @@ bool OSQPEigenSolver::updateGradient(const Eigen::Ref<const Eigen::VectorXd>& gr
 bool OSQPEigenSolver::updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& lowerBound)
 {
   bounds_lower_ = lowerBound.cwiseMax(Eigen::VectorXd::Ones(num_cnts_) * -OSQP_INFTY);
-  return solver_->updateLowerBound(bounds_lower_);
+
+  if (solver_->isInitialized())
+    return solver_->updateLowerBound(bounds_lower_);
+
+  return solver_->data()->setLowerBound(bounds_lower_);
 }
 
 bool OSQPEigenSolver::updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& upperBound)
 {
   bounds_upper_ = upperBound.cwiseMin(Eigen::VectorXd::Ones(num_cnts_) * OSQP_INFTY);
-  return solver_->updateUpperBound(bounds_upper_);
+
+  if (solver_->isInitialized())
+    return solver_->updateUpperBound(bounds_upper_);
+
+  return solver_->data()->setUpperBound(bounds_upper_);
 }
 
 bool OSQPEigenSolver::updateBounds(const Eigen::Ref<const Eigen::VectorXd>& lowerBound,
-- 
2.43.0


From 907dda1e3283b7a1813c041b0a5886e23b22856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 47/72] fix: OSQPEigenSolver asserted on a problem of another
 size instead of refusing it

---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp           | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 4e125d3..d840f2d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -240,7 +240,7 @@ bool OSQPEigenSolver::updateGradient(const Eigen::Ref<const Eigen::VectorXd>& gr
 
 bool OSQPEigenSolver::updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& lowerBound)
 {
-  bounds_lower_ = lowerBound.cwiseMax(Eigen::VectorXd::Ones(num_cnts_) * -OSQP_INFTY);
+  bounds_lower_ = lowerBound.cwiseMax(-OSQP_INFTY);
 
   if (solver_->isInitialized())
     return solver_->updateLowerBound(bounds_lower_);
@@ -250,7 +250,7 @@ bool OSQPEigenSolver::updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>&
 
 bool OSQPEigenSolver::updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& upperBound)
 {
-  bounds_upper_ = upperBound.cwiseMin(Eigen::VectorXd::Ones(num_cnts_) * OSQP_INFTY);
+  bounds_upper_ = upperBound.cwiseMin(OSQP_INFTY);
 
   if (solver_->isInitialized())
     return solver_->updateUpperBound(bounds_upper_);
@@ -261,8 +261,8 @@ bool OSQPEigenSolver::updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>&
 bool OSQPEigenSolver::updateBounds(const Eigen::Ref<const Eigen::VectorXd>& lowerBound,
                                    const Eigen::Ref<const Eigen::VectorXd>& upperBound)
 {
-  bounds_lower_ = lowerBound.cwiseMax(Eigen::VectorXd::Ones(num_cnts_) * -OSQP_INFTY);
-  bounds_upper_ = upperBound.cwiseMin(Eigen::VectorXd::Ones(num_cnts_) * OSQP_INFTY);
+  bounds_lower_ = lowerBound.cwiseMax(-OSQP_INFTY);
+  bounds_upper_ = upperBound.cwiseMin(OSQP_INFTY);
 
   if (solver_->isInitialized())
     return solver_->updateBounds(bounds_lower_, bounds_upper_);
@@ -272,8 +272,9 @@ bool OSQPEigenSolver::updateBounds(const Eigen::Ref<const Eigen::VectorXd>& lowe
 
 bool OSQPEigenSolver::updateLinearConstraintsMatrix(const trajopt_ifopt::Jacobian& linearConstraintsMatrix)
 {
-  assert(num_cnts_ == linearConstraintsMatrix.rows());
-  assert(num_vars_ == linearConstraintsMatrix.cols());
+  // The caller has to set the solver up again for a problem of another size
+  if (num_cnts_ != linearConstraintsMatrix.rows() || num_vars_ != linearConstraintsMatrix.cols())
+    return false;
 
   if (solver_->isInitialized())
     return solver_->updateLinearConstraintsMatrix(linearConstraintsMatrix);
-- 
2.43.0


From 80242bcddd5539289d2d855c2d9df0d63292b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 48/72] fix: OSQPEigenSolver stayed failed after a solve that
 succeeded

---
 trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index d840f2d..faa623d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -169,6 +169,7 @@ bool OSQPEigenSolver::solve()
     {
       std::cout << "OSQP Solution: " << solver_->getSolution().transpose().format(format) << '\n';
     }
+    solver_status_ = QPSolverStatus::kInitialized;
     return true;
   }
 
-- 
2.43.0


From 6f4af860a741ab340179db2bcc6025b138cf5e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 49/72] fix: the warm start of OSQPEigenSolver took slack
 variables from other rows and with other signs

---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index faa623d..1954388 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -304,13 +304,14 @@ bool OSQPEigenSolver::setWarmStart(const QPProblem& qp_problem)
   // If there are slack variables, compute them from constraint violations
   if (num_slacks > 0)
   {
-    // Evaluate constraint violations at current NLP variables
-    const Eigen::VectorXd violations = qp_problem.evaluateConvexConstraintViolations(nlp_vars);
-
-    // Get the constraint matrix (row-major)
     const trajopt_ifopt::Jacobian& constraint_matrix = qp_problem.getConstraintMatrix();
+    const Eigen::VectorXd lower = qp_problem.getBoundsLower();
+    const Eigen::VectorXd upper = qp_problem.getBoundsUpper();
+
+    // The value of every row of the QP at the current NLP variables, without slack
+    const Eigen::VectorXd rows = constraint_matrix * x0_;
 
-    for (Eigen::Index k = 0; k < violations.size(); ++k)
+    for (Eigen::Index k = 0; k < constraint_matrix.rows(); ++k)
     {
       for (trajopt_ifopt::Jacobian::InnerIterator it(constraint_matrix, k); it; ++it)
       {
@@ -320,10 +321,10 @@ bool OSQPEigenSolver::setWarmStart(const QPProblem& qp_problem)
         // Slack variables start at index num_nlp_vars
         if (col_idx >= num_nlp_vars && std::abs(coeff) > 1e-14)
         {
-          // Slack is computed as: slack = violation / coefficient
-          double slack = violations(k) / coeff;
-          // Enforce non-negativity constraint on slack variables
-          x0_(col_idx) = std::max(0.0, slack);
+          // A slack variable raises the row to its lower bound, or lowers it to its upper bound
+          const double slack = (coeff > 0) ? (lower(k) - rows(k)) / coeff : (rows(k) - upper(k)) / -coeff;
+          // Slack variables are not negative, which is also what the row that bounds a slack variable asks for
+          x0_(col_idx) = std::max(x0_(col_idx), slack);
         }
       }
     }
-- 
2.43.0


From 5540b6f70fa4cf5ac78455325c88b51a5f18867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 50/72] fix: the plot callback drew the time column as a joint

---
 trajopt/src/plot_callback.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/plot_callback.cpp b/trajopt/src/plot_callback.cpp
index 8825b16..8ffa975 100644
--- a/trajopt/src/plot_callback.cpp
+++ b/trajopt/src/plot_callback.cpp
@@ -43,10 +43,11 @@ void PlotCosts(const std::shared_ptr<tesseract::visualization::Visualization>& p
     }
   }
 
+  // With time there is a column more than joints
   auto traj = getTraj(results.x, vars);
   tesseract::common::JointTrajectory joint_trajectory;
   for (long i = 0; i < traj.rows(); ++i)
-    joint_trajectory.states.emplace_back(joint_names, traj.row(i));
+    joint_trajectory.states.emplace_back(joint_names, traj.row(i).head(static_cast<long>(joint_names.size())));
 
   plotter->plotTrajectory(joint_trajectory, state_solver);
   plotter->waitForInput();
-- 
2.43.0


From 1086469a12140031adcf40c875b659885fb1394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 51/72] fix: the file callback asked for forward kinematics
 with the time column

---
 trajopt/src/file_write_callback.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/file_write_callback.cpp b/trajopt/src/file_write_callback.cpp
index 289c146..857e24e 100644
--- a/trajopt/src/file_write_callback.cpp
+++ b/trajopt/src/file_write_callback.cpp
@@ -53,8 +53,8 @@ void WriteFile(const std::shared_ptr<std::ofstream>& file,
       joint_angles(j) = traj(i, j);
     }
 
-    // Calc cartesian pose
-    const tesseract::common::TransformMap state = manip->calcFwdKin(joint_angles);
+    // Calc cartesian pose (with time there is a column more than joints)
+    const tesseract::common::TransformMap state = manip->calcFwdKin(joint_angles.head(manip->numJoints()));
 
     for (const auto& it : state)
     {
-- 
2.43.0


From fab468fe26ceb892c460589f479a741147454cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 52/72] fix: the text form of a quadratic expression denoted
 half of its quadratic part

---
 trajopt_sco/src/solver_interface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index eab90d0..3479ffb 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -195,9 +195,11 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
     if (e.coeffs[i] != 0)
     {
       o << op;
-      if (e.coeffs[i] != 1)
+      // the sum in brackets is printed as halved
+      const double coeff = 2 * e.coeffs[i];
+      if (coeff != 1)
       {
-        o << e.coeffs[i] << " ";
+        o << coeff << " ";
       }
       if (e.vars1[i].var_rep->name == e.vars2[i].var_rep->name)
       {
-- 
2.43.0


From 97ec3ab2b07800d64fde4944e92f3471c1f3f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 53/72] fix: all cost terms were printed with the index of the
 first

---
 trajopt_ifopt/src/core/cost_term.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_ifopt/src/core/cost_term.cpp b/trajopt_ifopt/src/core/cost_term.cpp
index 5032ffe..4abcc4f 100644
--- a/trajopt_ifopt/src/core/cost_term.cpp
+++ b/trajopt_ifopt/src/core/cost_term.cpp
@@ -57,6 +57,8 @@ void CostTerm::print(int& index, double /*tol*/) const
   std::cout << std::fixed << std::left << std::setw(30) << name_ << std::right << std::setw(4) << rows_ << std::setw(9)
             << index << std::setfill('.') << std::setw(7) << index + rows_ - 1 << std::setfill(' ') << std::setw(12)
             << cost << "\n";
+
+  index += rows_;
 }
 
 }  // namespace trajopt_ifopt
-- 
2.43.0


From b531f9de474f1060d2134add32ea12ef13d171f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 54/72] fix: restoring a saved iterate left constraints and
 costs at the previous one

---
 trajopt_ifopt/src/core/problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index f018733..2b401c5 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -133,11 +133,11 @@ void Problem::saveCurrent() { x_prev.push_back(variables_->getValues()); }
 
 Variables::Ptr Problem::getOptVariables() const { return variables_; }
 
-void Problem::setOptVariables(int iter) { variables_->setVariables(x_prev.at(static_cast<std::size_t>(iter))); }
+void Problem::setOptVariables(int iter) { setVariables(x_prev.at(static_cast<std::size_t>(iter)).data()); }
 
 void Problem::setOptVariablesFinal()
 {
-  variables_->setVariables(x_prev.at(static_cast<std::size_t>(getIterationCount() - 1)));
+  setVariables(x_prev.at(static_cast<std::size_t>(getIterationCount() - 1)).data());
 }
 
 void Problem::printCurrent() const
-- 
2.43.0


From 81f8cc2cfc038ec05f0d67e45eaec8ed3b420d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 55/72] fix: reporting a step of a problem without constraints
 read past an empty vector

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index ad20f41..a1c08e9 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -565,7 +565,10 @@ void TrustRegionSQPSolver::printStepInfo() const
 
   // Constraint
   const std::string constraints_satisfied =
-      (results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ? "True" : "False";
+      (results_.new_constraint_violations.size() == 0 ||
+       results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ?
+          "True" :
+          "False";
   std::printf("| %s |\n", std::string(88, '=').c_str());
   std::printf("| %10s | %10.3e | %10.3e | %10.3e | %10s | %10s | %10s | SUM CONSTRAINTS (WITHOUT MERIT), Satisfied "
               "(%s)\n",
-- 
2.43.0


From e08ecf5e2b2e657c532f86120f34022ab2a89641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 56/72] fix: the number of QP constraints was printed as that
 of NLP constraints

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp   | 3 ++-
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index cc25adc..47090ae 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -586,7 +586,8 @@ void IfoptQPProblem::print() const
   std::cout << "-------------- QPProblem::print() --------------" << '\n';
   std::cout << "Num NLP Vars: " << num_nlp_vars_ << '\n';
   std::cout << "Num QP Vars: " << num_qp_vars_ << '\n';
-  std::cout << "Num NLP Constraints: " << num_qp_cnts_ << '\n';
+  std::cout << "Num NLP Constraints: " << num_nlp_cnts_ << '\n';
+  std::cout << "Num QP Constraints: " << num_qp_cnts_ << '\n';
   std::cout << "Detected Constraint Type: ";
   for (const auto& cnt : constraint_types_)
     std::cout << static_cast<int>(cnt) << ", ";
diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 20cc421..761a785 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -1075,7 +1075,8 @@ void TrajOptQPProblem::Implementation::print() const
   std::cout << "-------------- QPProblem::print() --------------" << '\n';
   std::cout << "Num NLP Vars: " << cvp.n_nlp_vars << '\n';
   std::cout << "Num QP Vars: " << cvp.num_qp_vars << '\n';
-  std::cout << "Num NLP Constraints: " << cvp.num_qp_cnts << '\n';
+  std::cout << "Num NLP Constraints: " << num_cnt_components << '\n';
+  std::cout << "Num QP Constraints: " << cvp.num_qp_cnts << '\n';
   std::cout << "Box Size: " << box_size.transpose().format(format) << '\n';  // NOLINT
   std::cout << "Constraint Merit Coeff: " << constraint_merit_coeff.transpose().format(format) << '\n';
 
-- 
2.43.0


From 4e0865b25334f7fbe178e71ed4ef3a2f8ed72ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 57/72] fix: optimizing without a problem dereferenced a null
 pointer before it was reported

---
 trajopt_sco/src/optimizers.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 295e542..d6bc33f 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -698,6 +698,11 @@ void BasicTrustRegionSQPResults::printRaw() const
 
 OptStatus BasicTrustRegionSQP::optimize()
 {
+  if (results_.x.empty())
+    PRINT_AND_THROW("you forgot to initialize!");
+  if (!prob_)
+    PRINT_AND_THROW("you forgot to set the optimization problem");
+
   const std::vector<std::string> var_names = getVarNames(prob_->getVars());
   const std::vector<std::string> cost_names = getCostNames(prob_->getCosts());
   const std::vector<Constraint::Ptr> constraints = prob_->getConstraints();
@@ -717,11 +722,6 @@ OptStatus BasicTrustRegionSQP::optimize()
     log_constraints_stream = std::fopen((param_.log_dir + "/trajopt_constraints.log").c_str(), "w");
   }
 
-  if (results_.x.empty())
-    PRINT_AND_THROW("you forgot to initialize!");
-  if (!prob_)
-    PRINT_AND_THROW("you forgot to set the optimization problem");
-
   results_.x = prob_->getClosestFeasiblePoint(results_.x);
 
   assert(results_.x.size() == prob_->getVars().size());
-- 
2.43.0


From a64cfeb8735d12e85ce5de5874e54054a761617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 58/72] fix: voxel index assertions compared all indices with
 the first dimension

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index 4ec3af0..ad882ad 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -252,15 +252,15 @@ public:
   unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k)
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   const unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k) const
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   size_t GetNPrimitivesOnSurf() const { return m_numVoxelsOnSurface; }
-- 
2.43.0


From a4e818c7144a7d7666d3866967cbd1d5884d722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 59/72] fix: voxel grids of meshes with two equal largest sides
 were sized by the smallest side

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index ad882ad..abab004 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -377,14 +377,14 @@ void Volume::Voxelize(const T* const points,
 
   double d[3] = { m_maxBB[0] - m_minBB[0], m_maxBB[1] - m_minBB[1], m_maxBB[2] - m_minBB[2] };
   double r;
-  if (d[0] > d[1] && d[0] > d[2])
+  if (d[0] >= d[1] && d[0] >= d[2])
   {
     r = d[0];
     m_dim[0] = dim;
     m_dim[1] = 2 + static_cast<size_t>(dim * d[1] / d[0]);
     m_dim[2] = 2 + static_cast<size_t>(dim * d[2] / d[0]);
   }
-  else if (d[1] > d[0] && d[1] > d[2])
+  else if (d[1] >= d[0] && d[1] >= d[2])
   {
     r = d[1];
     m_dim[1] = dim;
-- 
2.43.0


From 0588c7a963aacfa3a21e58fbd9eb265caef7a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 60/72] fix: merging convex hulls read past the end of the cost
 matrix

---
 trajopt_ext/vhacd/src/VHACD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD.cpp b/trajopt_ext/vhacd/src/VHACD.cpp
index 96e0213..9068945 100644
--- a/trajopt_ext/vhacd/src/VHACD.cpp
+++ b/trajopt_ext/vhacd/src/VHACD.cpp
@@ -1598,7 +1598,7 @@ void VHACD::MergeConvexHulls(const Parameters& params)
 
         ++top_row;
         rowIdx += p1;
-        for (size_t i = p1 + 1; i < (costSize + 1); ++i)
+        for (size_t i = p1 + 1; i < costSize; ++i)
         {
           costMatrix[rowIdx] = costMatrix[top_row++];
           rowIdx += i;
-- 
2.43.0


From 382ed70407894703a51b09a72d3f028a6761b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 61/72] fix: convex hulls of points nearly in one plane came
 out inconsistent away from the unit scale

---
 .../vhacd/include/vhacd/inc/vhacdICHull.h     |  3 ++
 trajopt_ext/vhacd/src/vhacdICHull.cpp         | 37 +++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
index 1c34422..8417410 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
@@ -98,6 +98,8 @@ private:
   //!
   bool MakeCCW(CircularListElement<TMMTriangle>* f, CircularListElement<TMMEdge>* e, CircularListElement<TMMVertex>* v);
   void Clear();
+  //!    Sets the volume below which a point counts as lying in the plane of a face
+  void UpdateEps();
 
 private:
   static const int32_t sc_dummyIndex;
@@ -107,6 +109,7 @@ private:
   SArray<CircularListElement<TMMTriangle>*> m_trianglesToDelete;
   Vec3<double> m_normal;
   bool m_isFlat;
+  double m_eps;
   ICHull(const ICHull& rhs);
 };
 }  // namespace VHACD
diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index 8ef3d0b..fbc03f9 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -23,6 +23,8 @@
  THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "vhacd/inc/vhacdICHull.h"
+#include <algorithm>
+#include <cmath>
 #include <limits>
 
 #ifdef _MSC_VER
@@ -33,7 +35,7 @@ namespace VHACD
 {
 const double ICHull::sc_eps = 1.0e-15;
 const int32_t ICHull::sc_dummyIndex = std::numeric_limits<int32_t>::max();
-ICHull::ICHull() { m_isFlat = false; }
+ICHull::ICHull() : m_eps(sc_eps) { m_isFlat = false; }
 bool ICHull::AddPoints(const Vec3<double>* points, size_t nPoints)
 {
   if (!points)
@@ -49,8 +51,34 @@ bool ICHull::AddPoints(const Vec3<double>* points, size_t nPoints)
     vertex->GetData().m_pos.Z() = points[i].Z();
     vertex->GetData().m_name = static_cast<int32_t>(i);
   }
+  UpdateEps();
   return true;
 }
+void ICHull::UpdateEps()
+{
+  // volumes below the rounding error of the coordinates cannot be told from zero
+  CircularListElement<TMMVertex>* v = m_mesh.GetVertices().GetHead();
+  const size_t nV = m_mesh.GetNVertices();
+  if (nV == 0)
+  {
+    return;
+  }
+  Vec3<double> minBB = v->GetData().m_pos;
+  Vec3<double> maxBB = v->GetData().m_pos;
+  double magnitude = 0.0;
+  for (size_t i = 0; i < nV; ++i, v = v->GetNext())
+  {
+    for (int32_t h = 0; h < 3; ++h)
+    {
+      const double x = v->GetData().m_pos[h];
+      minBB[h] = std::min(minBB[h], x);
+      maxBB[h] = std::max(maxBB[h], x);
+      magnitude = std::max(magnitude, std::fabs(x));
+    }
+  }
+  const double extent = (maxBB - minBB).GetNorm();
+  m_eps = std::max(sc_eps, 16.0 * std::numeric_limits<double>::epsilon() * magnitude * extent * extent);
+}
 bool ICHull::AddPoint(const Vec3<double>& point, int32_t id)
 {
   if (AddPoints(&point, 1))
@@ -421,12 +449,12 @@ ICHullError ICHull::DoubleTriangle()
   vertices.GetHead() = v3;
 
   double vol = ComputeVolume4(v0->GetData().m_pos, v1->GetData().m_pos, v2->GetData().m_pos, v3->GetData().m_pos);
-  while (fabs(vol) < sc_eps && !v3->GetNext()->GetData().m_tag)
+  while (fabs(vol) < m_eps && !v3->GetNext()->GetData().m_tag)
   {
     v3 = v3->GetNext();
     vol = ComputeVolume4(v0->GetData().m_pos, v1->GetData().m_pos, v2->GetData().m_pos, v3->GetData().m_pos);
   }
-  if (fabs(vol) < sc_eps)
+  if (fabs(vol) < m_eps)
   {
     // compute the barycenter
     Vec3<double> bary(0.0, 0.0, 0.0);
@@ -561,7 +589,7 @@ bool ICHull::ComputePointVolume(double& totalVolume, bool markVisibleFaces)
     ver2.Y() = f->GetData().m_vertices[2]->GetData().m_pos.Y();
     ver2.Z() = f->GetData().m_vertices[2]->GetData().m_pos.Z();
     vol = ComputeVolume4(ver0, ver1, ver2, pos0);
-    if (vol < -sc_eps)
+    if (vol < -m_eps)
     {
       vol = fabs(vol);
       totalVolume += vol;
@@ -773,6 +801,7 @@ const ICHull& ICHull::operator=(ICHull& rhs)
     m_edgesToUpdate = rhs.m_edgesToUpdate;
     m_trianglesToDelete = rhs.m_trianglesToDelete;
     m_isFlat = rhs.m_isFlat;
+    m_eps = rhs.m_eps;
   }
   return (*this);
 }
-- 
2.43.0


From 959b3229d9c6a4206d43e269cc48b8f3fc04403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 62/72] fix: convex decompositions could contain empty hulls

---
 trajopt_ext/vhacd/src/VHACD.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD.cpp b/trajopt_ext/vhacd/src/VHACD.cpp
index 9068945..a557dea 100644
--- a/trajopt_ext/vhacd/src/VHACD.cpp
+++ b/trajopt_ext/vhacd/src/VHACD.cpp
@@ -1322,8 +1322,6 @@ void VHACD::ComputeACD(const Parameters& params)
           }
           PrimitiveSet* bestLeft = pset->Create();
           PrimitiveSet* bestRight = pset->Create();
-          temp.PushBack(bestLeft);
-          temp.PushBack(bestRight);
           pset->Clip(bestPlane, bestRight, bestLeft);
           if (params.m_pca)
           {
@@ -1331,6 +1329,18 @@ void VHACD::ComputeACD(const Parameters& params)
             bestLeft->RevertAlignToPrincipalAxes();
           }
           delete pset;
+          // the best plane may leave everything on one side of it
+          for (PrimitiveSet* part : { bestLeft, bestRight })
+          {
+            if (part->GetNPrimitives() > 0)
+            {
+              temp.PushBack(part);
+            }
+            else
+            {
+              delete part;
+            }
+          }
         }
       }
       else
-- 
2.43.0


From d277cf3e3ab92cf1f752f12d4c3c906330f37987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 63/72] fix: releasing an asynchronous decomposition freed the
 memory its thread was using

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 6759e97..f2e8a1c 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -22,8 +22,8 @@ public:
   MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
   virtual ~MyHACD_API(void)
   {
+    Cancel();  // the thread uses the memory that is released next
     releaseHACD();
-    Cancel();
     mVHACD->Release();
   }
 
-- 
2.43.0


From 9634857297a5c955245812994d1feadb42ba34c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 64/72] fix: computing again leaked the convex hulls of the
 computation before

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
index ea98573..c560316 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
@@ -325,7 +325,7 @@ private:
                   const uint32_t nTriangles,
                   const Parameters& params)
   {
-    Init();
+    Clean();  // what an earlier computation left behind
     if (params.m_projectHullVertices)
     {
       mRaycastMesh = RaycastMesh::createRaycastMesh(nPoints, points, nTriangles, (const uint32_t*)triangles);
-- 
2.43.0


From 1fba82fd5def911b1f84e531055b3496826c4380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 65/72] fix: callbacks of an asynchronous decomposition
 deadlocked when they called back into it

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index f2e8a1c..2a9a2c0 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -246,18 +246,25 @@ public:
     // If we have a new update message and the user has specified a callback we send the message and clear the semaphore
     if (mHaveUpdateMessage && mCallback)
     {
+      // The callback may call back into this object and the thread may have more to say, so it gets a copy
       mMessageMutex.lock();
-      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
+      const double overallProgress = mOverallProgress;
+      const double stageProgress = mStageProgress;
+      const double operationProgress = mOperationProgress;
+      const std::string stage = mStage;
+      const std::string operation = mOperation;
       mHaveUpdateMessage = false;
       mMessageMutex.unlock();
+      mCallback->Update(overallProgress, stageProgress, operationProgress, stage.c_str(), operation.c_str());
     }
     // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
     if (mHaveLogMessage && mLogger)
     {
       mMessageMutex.lock();
-      mLogger->Log(mMessage.c_str());
+      const std::string message = mMessage;
       mHaveLogMessage = false;
       mMessageMutex.unlock();
+      mLogger->Log(message.c_str());
     }
   }
 
-- 
2.43.0


From c4f08f84e2014ad9dea1890ad7895d20db94f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 66/72] fix: convex hulls that could not be simplified were
 left inconsistent

---
 .../vhacd/include/vhacd/inc/vhacdICHull.h     |  3 ++
 trajopt_ext/vhacd/src/VHACD.cpp               | 34 +++++++++++++------
 trajopt_ext/vhacd/src/vhacdICHull.cpp         |  3 +-
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
index 8417410..1f5175d 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
@@ -46,6 +46,8 @@ public:
   static const double sc_eps;
   //!
   bool IsFlat() { return m_isFlat; }
+  //! Multiplies the volume below which a point counts as lying in the plane of a face. Set it before adding points.
+  void SetTolerance(const double tolerance) { m_tolerance = tolerance; }
   //! Returns the computed mesh
   TMMesh& GetMesh() { return m_mesh; }
   //!    Add one point to the convex-hull
@@ -110,6 +112,7 @@ private:
   Vec3<double> m_normal;
   bool m_isFlat;
   double m_eps;
+  double m_tolerance{ 1.0 };
   ICHull(const ICHull& rhs);
 };
 }  // namespace VHACD
diff --git a/trajopt_ext/vhacd/src/VHACD.cpp b/trajopt_ext/vhacd/src/VHACD.cpp
index a557dea..feb7ddc 100644
--- a/trajopt_ext/vhacd/src/VHACD.cpp
+++ b/trajopt_ext/vhacd/src/VHACD.cpp
@@ -1633,7 +1633,7 @@ void VHACD::SimplifyConvexHull(Mesh* const ch, const size_t nvertices, const dou
   {
     return;
   }
-  ICHull icHull;
+  SArray<Vec3<double> > points;
   if (mRaycastMesh)
   {
     // We project these points onto the original source mesh to increase precision
@@ -1708,20 +1708,34 @@ void VHACD::SimplifyConvexHull(Mesh* const ch, const size_t nvertices, const dou
         outCount++;
       }
     }
-    icHull.AddPoints(outputPoints, outCount);
+    for (uint32_t i = 0; i < outCount; i++)
+    {
+      points.PushBack(outputPoints[i]);
+    }
     delete[] outputPoints;
   }
   else
   {
-    icHull.AddPoints(ch->GetPointsBuffer(), ch->GetNPoints());
+    ch->CopyPoints(points);
+  }
+  // Points close to the plane of a face may make the outcome inconsistent, which a larger tolerance settles. If none
+  // does, the convex hull stays as it is.
+  for (const double tolerance : { 1.0, 1.0e2, 1.0e4, 1.0e6 })
+  {
+    ICHull icHull;
+    icHull.SetTolerance(tolerance);
+    icHull.AddPoints(points.Data(), points.Size());
+    if (icHull.Process((uint32_t)nvertices, minVolume) == ICHullErrorOK)
+    {
+      TMMesh& mesh = icHull.GetMesh();
+      const size_t nT = mesh.GetNTriangles();
+      const size_t nV = mesh.GetNVertices();
+      ch->ResizePoints(nV);
+      ch->ResizeTriangles(nT);
+      mesh.GetIFS(ch->GetPointsBuffer(), ch->GetTrianglesBuffer());
+      return;
+    }
   }
-  icHull.Process((uint32_t)nvertices, minVolume);
-  TMMesh& mesh = icHull.GetMesh();
-  const size_t nT = mesh.GetNTriangles();
-  const size_t nV = mesh.GetNVertices();
-  ch->ResizePoints(nV);
-  ch->ResizeTriangles(nT);
-  mesh.GetIFS(ch->GetPointsBuffer(), ch->GetTrianglesBuffer());
 }
 void VHACD::SimplifyConvexHulls(const Parameters& params)
 {
diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index fbc03f9..f936737 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -77,7 +77,7 @@ void ICHull::UpdateEps()
     }
   }
   const double extent = (maxBB - minBB).GetNorm();
-  m_eps = std::max(sc_eps, 16.0 * std::numeric_limits<double>::epsilon() * magnitude * extent * extent);
+  m_eps = m_tolerance * std::max(sc_eps, 16.0 * std::numeric_limits<double>::epsilon() * magnitude * extent * extent);
 }
 bool ICHull::AddPoint(const Vec3<double>& point, int32_t id)
 {
@@ -802,6 +802,7 @@ const ICHull& ICHull::operator=(ICHull& rhs)
     m_trianglesToDelete = rhs.m_trianglesToDelete;
     m_isFlat = rhs.m_isFlat;
     m_eps = rhs.m_eps;
+    m_tolerance = rhs.m_tolerance;
   }
   return (*this);
 }
-- 
2.43.0


From 30245f446b1b602a4dbe7cf3aa0dbf1a44df2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 67/72] fix: reading a malformed mesh file overflowed a buffer
 or left the file open

---
 trajopt_ext/vhacd/src/vhacdMesh.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trajopt_ext/vhacd/src/vhacdMesh.cpp b/trajopt_ext/vhacd/src/vhacdMesh.cpp
index 3c08a22..045f2e3 100644
--- a/trajopt_ext/vhacd/src/vhacdMesh.cpp
+++ b/trajopt_ext/vhacd/src/vhacdMesh.cpp
@@ -36,6 +36,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <fstream>
 #include <iosfwd>
 #include <iostream>
+#include <memory>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string>
@@ -340,14 +341,14 @@ bool Mesh::LoadOFF(const std::string& fileName, bool invert)
   FILE* fid = fopen(fileName.c_str(), "r");
   if (fid)
   {
+    const std::unique_ptr<FILE, int (*)(FILE*)> closer(fid, &fclose);
     const std::string strOFF("OFF");
     char temp[1024];
-    if (fscanf(fid, "%s", temp) != 1)
+    if (fscanf(fid, "%1023s", temp) != 1)
       return false;
 
     if (std::string(temp) != strOFF)
     {
-      fclose(fid);
       return false;
     }
 
@@ -363,6 +364,9 @@ bool Mesh::LoadOFF(const std::string& fileName, bool invert)
     if (fscanf(fid, "%i", &ne) != 1)
       return false;
 
+    if (nv < 0 || nf < 0)
+      return false;
+
     m_points.Resize(static_cast<size_t>(nv));
     m_triangles.Resize(static_cast<size_t>(nf));
     Vec3<double> coord;
@@ -418,7 +422,6 @@ bool Mesh::LoadOFF(const std::string& fileName, bool invert)
             return false;
       }
     }
-    fclose(fid);
   }
   else
   {
-- 
2.43.0


From 436ad405f762af5691d6528b61fcc4ed41c59857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 68/72] fix: copying a circular list started from uninitialised
 members

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdCircularList.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdCircularList.inl b/trajopt_ext/vhacd/include/vhacd/inc/vhacdCircularList.inl
index 2be5180..0554f24 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdCircularList.inl
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdCircularList.inl
@@ -127,6 +127,8 @@ namespace VHACD
     template < typename T > 
     inline CircularList<T>::CircularList(const CircularList& rhs)
     {
+        m_head = 0;
+        m_size = 0;
         if (rhs.m_size > 0)
         {
             CircularListElement<T> * current = rhs.m_head;
-- 
2.43.0


From ea8a872c60c9c118794ae0c9acc37738e7f7c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 69/72] fix: ray casts missed every triangle smaller than a few
 square millimetres

---
 trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp b/trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp
index eab790a..1e1ae90 100644
--- a/trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp
+++ b/trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp
@@ -21,14 +21,16 @@ static inline bool
 rayIntersectsTriangle(const double* p, const double* d, const double* v0, const double* v1, const double* v2, double& t)
 {
   double e1[3], e2[3], h[3], s[3], q[3];
-  double a, f, u, v;
+  double a, f, u, v, eps;
 
   vector(e1, v1, v0);
   vector(e2, v2, v0);
   crossProduct(h, d, e2);
   a = innerProduct(e1, h);
 
-  if (a > -0.00001 && a < 0.00001)
+  // nearly parallel, whatever the size of the triangle
+  eps = 0.00001 * sqrt(innerProduct(e1, e1) * innerProduct(e2, e2));
+  if (a >= -eps && a <= eps)
     return (false);
 
   f = 1 / a;
-- 
2.43.0


From dd4ba670d760af720c63a6779019d907f187cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 70/72] fix: clipping tetrahedra built one part from the wrong
 corner

---
 trajopt_ext/vhacd/src/vhacdVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/vhacdVolume.cpp b/trajopt_ext/vhacd/src/vhacdVolume.cpp
index 9525b72..e9ea19a 100644
--- a/trajopt_ext/vhacd/src/vhacdVolume.cpp
+++ b/trajopt_ext/vhacd/src/vhacdVolume.cpp
@@ -1459,7 +1459,7 @@ void TetrahedronSet::AddClippedTetrahedra(const Vec3<double> (&pts)[10], const i
     for (int32_t h = 0; h < 4; ++h)
     {
       double v = ComputeVolume4(
-          pts[a0], tetrahedron0.m_pts[tetF[h][0]], tetrahedron0.m_pts[tetF[h][1]], tetrahedron0.m_pts[tetF[h][2]]);
+          pts[a1], tetrahedron0.m_pts[tetF[h][0]], tetrahedron0.m_pts[tetF[h][1]], tetrahedron0.m_pts[tetF[h][2]]);
       if (h == h1)
         continue;
       if (v > maxVol)
-- 
2.43.0


From 804dfe15f9ff827dceb6480027d8febd9f1c7ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 71/72] fix: clipping tetrahedra asserted on planes that touch
 a corner

---
 trajopt_ext/vhacd/src/vhacdVolume.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/trajopt_ext/vhacd/src/vhacdVolume.cpp b/trajopt_ext/vhacd/src/vhacdVolume.cpp
index e9ea19a..e18cf8b 100644
--- a/trajopt_ext/vhacd/src/vhacdVolume.cpp
+++ b/trajopt_ext/vhacd/src/vhacdVolume.cpp
@@ -1589,24 +1589,23 @@ void TetrahedronSet::Clip(const Plane& plane,
   }
 
   Tetrahedron tetrahedron;
-  double delta, alpha;
+  double alpha;
   int32_t sign[4];
   int32_t npos, nneg;
   Vec3<double> posPts[10];
   Vec3<double> negPts[10];
   Vec3<double> P0, P1, M;
-  const Vec3<double> n(plane.m_a, plane.m_b, plane.m_c);
   const int32_t edges[6][2] = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
-  double dist;
+  double dist[4];
   for (size_t v = 0; v < nTetrahedra; ++v)
   {
     tetrahedron = m_tetrahedra[v];
     npos = nneg = 0;
     for (int32_t i = 0; i < 4; ++i)
     {
-      dist = plane.m_a * tetrahedron.m_pts[i][0] + plane.m_b * tetrahedron.m_pts[i][1] +
-             plane.m_c * tetrahedron.m_pts[i][2] + plane.m_d;
-      if (dist > 0.0)
+      dist[i] = plane.m_a * tetrahedron.m_pts[i][0] + plane.m_b * tetrahedron.m_pts[i][1] +
+                plane.m_c * tetrahedron.m_pts[i][2] + plane.m_d;
+      if (dist[i] > 0.0)
       {
         sign[i] = 1;
         posPts[npos] = tetrahedron.m_pts[i];
@@ -1653,8 +1652,7 @@ void TetrahedronSet::Clip(const Plane& plane,
         {
           P0 = tetrahedron.m_pts[edges[j][0]];
           P1 = tetrahedron.m_pts[edges[j][1]];
-          delta = (P0 - P1) * n;
-          alpha = -(plane.m_d + (n * P1)) / delta;
+          alpha = dist[edges[j][1]] / (dist[edges[j][1]] - dist[edges[j][0]]);
           assert(alpha >= 0.0 && alpha <= 1.0);
           M = alpha * P0 + (1 - alpha) * P1;
           for (int32_t xx = 0; xx < 3; ++xx)
-- 
2.43.0


From 1ad4097f4bbd25d30aab821080d8fe90875f9946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 72/72] fix: convex hulls that began with three nearly colinear
 points came out flat

---
 trajopt_ext/vhacd/src/vhacdICHull.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index f936737..9e6b345 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -428,6 +428,20 @@ ICHullError ICHull::DoubleTriangle()
   m_isFlat = false;
   CircularList<TMMVertex>& vertices = m_mesh.GetVertices();
   CircularListElement<TMMVertex>* v0 = vertices.GetHead();
+  // start from the largest triangle: other points look coplanar with a sliver
+  double maxArea = -1.0;
+  const size_t nV = vertices.GetSize();
+  CircularListElement<TMMVertex>* v = v0;
+  for (size_t i = 0; i < nV; ++i, v = v->GetNext())
+  {
+    const Vec3<double>& p0 = v->GetData().m_pos;
+    const double area = ((v->GetNext()->GetData().m_pos - p0) ^ (v->GetNext()->GetNext()->GetData().m_pos - p0)).GetNorm();
+    if (area > maxArea)
+    {
+      maxArea = area;
+      v0 = v;
+    }
+  }
   while (Colinear(v0->GetData().m_pos, v0->GetNext()->GetData().m_pos, v0->GetNext()->GetNext()->GetData().m_pos))
   {
     if ((v0 = v0->GetNext()) == vertices.GetHead())
-- 
2.43.0

