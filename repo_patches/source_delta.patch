From 2c1287ed7dbaf9ae4157d05fccae4b9fb7175f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 01/28] fix: report step_norm before the first successful trust
 region step

IterationSummary::step_norm was only computed as a side effect of the
parameter tolerance check, which is skipped until a step has been accepted,
so the first accepted step and all rejected steps before it reported 0.
---
 internal/ceres/trust_region_minimizer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..41b01ef 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -110,6 +110,9 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
+    // Compute the norm of the step in the ambient space.
+    iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+
     if (atleast_one_successful_step && ParameterToleranceReached()) {
       return;
     }
@@ -725,9 +728,6 @@ bool TrustRegionMinimizer::MinTrustRegionRadiusReached() {
 // Solver::Options::parameter_tolerance based convergence check.
 bool TrustRegionMinimizer::ParameterToleranceReached() {
   const double x_norm = x_.norm();
-
-  // Compute the norm of the step in the ambient space.
-  iteration_summary_.step_norm = (x_ - candidate_x_).norm();
   const double step_size_tolerance =
       options_.parameter_tolerance * (x_norm + options_.parameter_tolerance);
 
-- 
2.43.0


From e866397f9e0a0476c527e6898a4559f6cc381e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 02/28] fix: never grow the dogleg radius beyond
 max_trust_region_radius

DoglegStrategy stored the maximum radius but ignored it, contrary to the
documentation of Solver::Options::max_trust_region_radius.
---
 internal/ceres/dogleg_strategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index ef45a0b..666a00f 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -623,7 +623,7 @@ void DoglegStrategy::StepAccepted(double step_quality) {
   }
 
   if (step_quality > increase_threshold_) {
-    radius_ = std::max(radius_, 3.0 * dogleg_step_norm_);
+    radius_ = std::min(max_radius_, std::max(radius_, 3.0 * dogleg_step_norm_));
   }
 
   // Reduce the regularization multiplier, in the hope that whatever
-- 
2.43.0


From 77495075629a59f5add8d5088e2e787e49d7d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 03/28] fix: leave rejected steps out of Summary::final_cost

The minimum over all iterations included the cost of rejected trial points,
so final_cost could be lower than the cost at the returned parameters.
---
 internal/ceres/solver_utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ceres/solver_utils.h b/internal/ceres/solver_utils.h
index 60bca91..fb3f3d1 100644
--- a/internal/ceres/solver_utils.h
+++ b/internal/ceres/solver_utils.h
@@ -55,6 +55,10 @@ void SetSummaryFinalCost(SummaryType* summary) {
   // iteration because the minimizer maybe making non-monotonic steps.
   for (int i = 0; i < summary->iterations.size(); ++i) {
     const IterationSummary& iteration_summary = summary->iterations[i];
+    // The cost of an unsuccessful step belongs to a point that was rejected.
+    if (i > 0 && !iteration_summary.step_is_successful) {
+      continue;
+    }
     summary->final_cost = std::min(iteration_summary.cost, summary->final_cost);
   }
 }
-- 
2.43.0


From 3ab779952a3a95fe80aa95157b057a1392511a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 04/28] fix: reject fixed residual blocks whose cost is not
 finite

The evaluator refuses an accumulated cost that is infinite or NaN, but the
cost of residual blocks removed from the reduced program was not checked, so
Solve could report success with an infinite final_cost.
---
 internal/ceres/program.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/program.cc b/internal/ceres/program.cc
index 826fdab..d37549a 100644
--- a/internal/ceres/program.cc
+++ b/internal/ceres/program.cc
@@ -31,6 +31,7 @@
 #include "ceres/program.h"
 
 #include <algorithm>
+#include <cmath>
 #include <map>
 #include <memory>
 #include <string>
@@ -380,7 +381,8 @@ bool Program::RemoveFixedBlocks(std::vector<double*>* removed_parameter_blocks,
                                   &cost,
                                   nullptr,
                                   nullptr,
-                                  residual_block_evaluate_scratch.get())) {
+                                  residual_block_evaluate_scratch.get()) ||
+        !std::isfinite(*fixed_cost + cost)) {
       *error = absl::StrFormat(
           "Evaluation of the residual %d failed during "
           "removal of fixed residual blocks.",
-- 
2.43.0


From 6301b2e500835466bf2dcc085b655cfd59eb1fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 05/28] fix: canonical views clustering must skip NaN vertex
 weights (compare with std::isnan)

---
 internal/ceres/canonical_views_clustering.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/canonical_views_clustering.cc b/internal/ceres/canonical_views_clustering.cc
index a41e5f8..f208c4b 100644
--- a/internal/ceres/canonical_views_clustering.cc
+++ b/internal/ceres/canonical_views_clustering.cc
@@ -31,6 +31,7 @@
 
 #include "ceres/canonical_views_clustering.h"
 
+#include <cmath>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -141,7 +142,8 @@ void CanonicalViewsClustering::ComputeClustering(
 void CanonicalViewsClustering::FindValidViews(IntSet* valid_views) const {
   const IntSet& views = graph_->vertices();
   for (const auto& view : views) {
-    if (graph_->VertexWeight(view) != WeightedGraph<int>::InvalidWeight()) {
+    // InvalidWeight() is a NaN, which compares unequal to everything.
+    if (!std::isnan(graph_->VertexWeight(view))) {
       valid_views->insert(view);
     }
   }
-- 
2.43.0


From ccac2104f1f012e4885128ed8494a3385bf4ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 06/28] fix: TinySolver gradient test must use the gradient of
 the problem, not of the scaled one

---
 include/ceres/tiny_solver.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 093bc36..74e97fa 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -232,10 +232,14 @@ class TinySolver {
     //
     // TODO(sameeragarwal): Refactor this to allow for DenseQR
     // factorization.
-    jacobian_ = jacobian_ * jacobi_scaling_.asDiagonal();
-    jtj_ = jacobian_.transpose() * jacobian_;
+    //
+    // The reported gradient is that of the problem as given; the step is
+    // computed in the scaled variables.
     g_ = jacobian_.transpose() * residuals_;
     summary.gradient_max_norm = g_.array().abs().maxCoeff();
+    g_.array() *= jacobi_scaling_.array();
+    jacobian_ = jacobian_ * jacobi_scaling_.asDiagonal();
+    jtj_ = jacobian_.transpose() * jacobian_;
     cost_ = residuals_.squaredNorm() / 2;
     return true;
   }
-- 
2.43.0


From 7959c6ee66b9752b45397c312768a3b96b34800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 07/28] fix: TinySolver function_tolerance is relative to the
 cost

---
 include/ceres/tiny_solver.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 74e97fa..c0758cc 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -301,6 +301,9 @@ class TinySolver {
       function(&x_new_[0], &f_x_new_[0], nullptr);
 
       const Scalar cost_change = (2 * cost_ - f_x_new_.squaredNorm());
+      // Both sides of the test are twice the change in cost.
+      const Scalar cost_change_tolerance =
+          2 * cost_ * options.function_tolerance;
       // TODO(sameeragarwal): Better more numerically stable evaluation.
       const Scalar model_cost_change = lm_step_.dot(2 * g_ - jtj_ * lm_step_);
 
@@ -315,7 +318,7 @@ class TinySolver {
 
         // TODO(sameeragarwal): Deal with failure.
         Update(function, x);
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (std::abs(cost_change) < cost_change_tolerance) {
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
         }
@@ -339,7 +342,7 @@ class TinySolver {
         // or the local linear model was not good (rho < 0).
 
         // Additionally if the cost change is too small, then terminate.
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (std::abs(cost_change) < cost_change_tolerance) {
           // Terminate
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
-- 
2.43.0


From 7577c318afb98f1c0acaaa7482575818e1a6767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 08/28] fix: a line search sample with a non-finite gradient is
 not valid

---
 internal/ceres/line_search.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 039975d..ad14262 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -137,6 +137,9 @@ void LineSearchFunction::Evaluate(const double x,
 
   output->gradient = direction_.dot(output->vector_gradient);
   if (!std::isfinite(output->gradient)) {
+    // A point whose gradient was asked for and is not finite is as unusable as
+    // one whose value is not finite.
+    output->value_is_valid = false;
     return;
   }
 
-- 
2.43.0


From 36866b3eb26507075769100b78c9eb8287338a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 09/28] fix: Wolfe bracketing must keep its lowest Armijo point
 when it runs out of iterations

---
 internal/ceres/line_search.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index ad14262..996a845 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -620,9 +620,8 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       // those tested which minimizes f() and satisfies the Armijo condition
       // when we terminate due to the 'artificial' max_num_iterations condition.
       *bracket_low =
-          current.value_is_valid && current.value < bracket_low->value
-              ? current
-              : *bracket_low;
+          current.value_is_valid && current.value < previous.value ? current
+                                                                   : previous;
       break;
     }
     // Either: f(current) is invalid; or, f(current) is valid, but does not
-- 
2.43.0


From 2eb886310dba9c2bdf45b00df843fced61da2142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 10/28] fix: restart nonlinear conjugate gradients when the
 direction is not a number

---
 internal/ceres/line_search_direction.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_direction.cc b/internal/ceres/line_search_direction.cc
index b4e8a33..9a7a151 100644
--- a/internal/ceres/line_search_direction.cc
+++ b/internal/ceres/line_search_direction.cc
@@ -84,7 +84,9 @@ class CERES_NO_EXPORT NonlinearConjugateGradient final
     *search_direction = -current.gradient + beta * previous.search_direction;
     const double directional_derivative =
         current.gradient.dot(*search_direction);
-    if (directional_derivative > -function_tolerance_) {
+    // Written so that a directional derivative which is not a number (beta can
+    // be 0 / 0) restarts too.
+    if (!(directional_derivative <= -function_tolerance_)) {
       LOG(WARNING) << "Restarting non-linear conjugate gradients: "
                    << directional_derivative;
       *search_direction = -current.gradient;
-- 
2.43.0


From 0705a2f6db859f487406b095699c8b53352a7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 11/28] fix: tell the EvaluationCallback when the line search
 falls back to an earlier point

---
 internal/ceres/line_search_minimizer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1f0b05b..446fffc 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -356,7 +356,10 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
       current_state.gradient = optimal_point.vector_gradient;
     } else {
       Evaluator::EvaluateOptions evaluate_options;
-      evaluate_options.new_evaluation_point = false;
+      // The Armijo search ends with the point it evaluated last. The Wolfe
+      // search may have fallen back to the point it started from.
+      evaluate_options.new_evaluation_point =
+          options.line_search_type != ARMIJO;
       if (!evaluator->Evaluate(evaluate_options,
                                optimal_point.vector_x.data(),
                                &(current_state.cost),
-- 
2.43.0


From 76ad92006ecfcc5f8a697f07b9ddb896b17229f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 12/28] fix: reject a zero min_lm_diagonal in
 Solver::Options::IsValid

Both trust region strategies require a positive diagonal and abort otherwise.
---
 internal/ceres/solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 97c1d87..6eff8d8 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -411,8 +411,8 @@ bool TrustRegionOptionsAreValid(const Solver::Options& options,
   OPTION_LE_OPTION(min_trust_region_radius, initial_trust_region_radius);
   OPTION_LE_OPTION(initial_trust_region_radius, max_trust_region_radius);
   OPTION_GE(min_relative_decrease, 0.0);
-  OPTION_GE(min_lm_diagonal, 0.0);
-  OPTION_GE(max_lm_diagonal, 0.0);
+  OPTION_GT(min_lm_diagonal, 0.0);
+  OPTION_GT(max_lm_diagonal, 0.0);
   OPTION_LE_OPTION(min_lm_diagonal, max_lm_diagonal);
   OPTION_GE(max_num_consecutive_invalid_steps, 0);
   OPTION_GT(eta, 0.0);
-- 
2.43.0


From 3d77c2870e72d877114b408237bab806ebabd80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 13/28] fix: do not need CUDA in Schur solvers that ignore the
 sparse library

With sparse_linear_algebra_library_type = CUDA_SPARSE in a build without CUDA,
DENSE_SCHUR and ITERATIVE_SCHUR are valid but aborted asking for page locked
memory, and ITERATIVE_SCHUR without E blocks switched to a CGNR solver that was
given the wrong kind of Jacobian.
---
 internal/ceres/block_jacobian_writer.cc     | 10 ++++++++--
 internal/ceres/trust_region_preprocessor.cc |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/block_jacobian_writer.cc b/internal/ceres/block_jacobian_writer.cc
index 34cdc1b..35f82a5 100644
--- a/internal/ceres/block_jacobian_writer.cc
+++ b/internal/ceres/block_jacobian_writer.cc
@@ -258,8 +258,14 @@ std::unique_ptr<SparseMatrix> BlockJacobianWriter::CreateJacobian() const {
     std::sort(row->cells.begin(), row->cells.end(), CellLessThan);
   }
 
-  return std::make_unique<BlockSparseMatrix>(
-      bs, options_.sparse_linear_algebra_library_type == CUDA_SPARSE);
+  // DENSE_SCHUR and ITERATIVE_SCHUR read the Jacobian on the CPU whatever the
+  // sparse linear algebra library, which they may be given although it is not
+  // available.
+  const bool use_page_locked_memory =
+      options_.sparse_linear_algebra_library_type == CUDA_SPARSE &&
+      options_.linear_solver_type != DENSE_SCHUR &&
+      options_.linear_solver_type != ITERATIVE_SCHUR;
+  return std::make_unique<BlockSparseMatrix>(bs, use_page_locked_memory);
 }
 
 }  // namespace ceres::internal
diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 9d7a37d..90d9bbb 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -92,6 +92,11 @@ void AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(
   if (linear_solver_type_given == ITERATIVE_SCHUR) {
     options->preconditioner_type =
         Preconditioner::PreconditionerForZeroEBlocks(preconditioner_type_given);
+    // CGNR with CUDA_SPARSE runs on the GPU, which ITERATIVE_SCHUR does not
+    // need and which may not be available.
+    if (options->sparse_linear_algebra_library_type == CUDA_SPARSE) {
+      options->sparse_linear_algebra_library_type = NO_SPARSE;
+    }
 
     message = absl::StrFormat(
         "No E blocks. Switching from %s(%s) to %s(%s).",
-- 
2.43.0


From 4af8e3ef474cc4eea4433e7644a263d88c2a1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 14/28] fix: replace SCHUR_POWER_SERIES_EXPANSION when there
 are no E blocks

ITERATIVE_SCHUR then switches to CGNR, which aborts with that preconditioner.
---
 internal/ceres/preconditioner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/preconditioner.cc b/internal/ceres/preconditioner.cc
index 7c51976..ed3cd8b 100644
--- a/internal/ceres/preconditioner.cc
+++ b/internal/ceres/preconditioner.cc
@@ -39,6 +39,7 @@ Preconditioner::~Preconditioner() = default;
 PreconditionerType Preconditioner::PreconditionerForZeroEBlocks(
     PreconditionerType preconditioner_type) {
   if (preconditioner_type == SCHUR_JACOBI ||
+      preconditioner_type == SCHUR_POWER_SERIES_EXPANSION ||
       preconditioner_type == CLUSTER_JACOBI ||
       preconditioner_type == CLUSTER_TRIDIAGONAL) {
     return JACOBI;
-- 
2.43.0


From 82a06fa44069c72ca5b36ffefbaea316f5521d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 15/28] fix: LineManifold Jacobians of the origin point were
 scaled by the norm of the direction

---
 include/ceres/line_manifold.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ceres/line_manifold.h b/include/ceres/line_manifold.h
index 64b61ba..05b05f1 100644
--- a/include/ceres/line_manifold.h
+++ b/include/ceres/line_manifold.h
@@ -234,6 +234,10 @@ bool LineManifold<AmbientSpaceDimension>::PlusJacobian(
       size_, size_ - 1);
   internal::ComputeSphereManifoldPlusJacobian(d, &jacobian_d);
   jacobian_o = jacobian_d;
+
+  // Only the movement of the direction scales with the norm of the direction,
+  // the origin point (the top left block) moves by delta_o itself.
+  jacobian_d /= d.norm();
   return true;
 }
 
@@ -289,6 +293,10 @@ bool LineManifold<AmbientSpaceDimension>::MinusJacobian(
   internal::ComputeSphereManifoldMinusJacobian(d, &jacobian_d);
   jacobian_o = jacobian_d;
 
+  // Only the movement of the direction scales with the norm of the direction,
+  // the origin point (the top left block) moves by delta_o itself.
+  jacobian_d *= d.norm();
+
   return true;
 }
 
-- 
2.43.0


From 62007741d6173e2a9c0a4a58f72504782fefafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 16/28] fix: BlockSparseMatrix::AppendRows copies cells by
 their position

The values of the appended matrix were copied as one run, which assigns
them to the wrong cells when its cells are not stored in row order (for
instance a Jacobian laid out with its E cells first).
---
 internal/ceres/block_sparse_matrix.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/block_sparse_matrix.cc b/internal/ceres/block_sparse_matrix.cc
index e79d62a..06a2ce2 100644
--- a/internal/ceres/block_sparse_matrix.cc
+++ b/internal/ceres/block_sparse_matrix.cc
@@ -658,8 +658,17 @@ void BlockSparseMatrix::AppendRows(const BlockSparseMatrix& m) {
     FreeValues(old_values);
   }
 
-  std::copy(
-      m.values(), m.values() + m.num_nonzeros(), values_ + old_num_nonzeros);
+  // The cells of m may be stored in any order, e.g. E before F.
+  for (int i = 0; i < m_bs->rows.size(); ++i) {
+    const CompressedRow& m_row = m_bs->rows[i];
+    const CompressedRow& row = block_structure_->rows[old_num_row_blocks + i];
+    for (int c = 0; c < m_row.cells.size(); ++c) {
+      const Cell& m_cell = m_row.cells[c];
+      std::copy_n(m.values() + m_cell.position,
+                  m_row.block.size * m_bs->cols[m_cell.block_id].size,
+                  values_ + row.cells[c].position);
+    }
+  }
 
   if (transpose_block_structure_ == nullptr) {
     return;
-- 
2.43.0


From b44290de8ff385ca721f2616b99ba2d4bf4e53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 17/28] fix: Covariance::Compute fails when the Jacobian cannot
 be evaluated

---
 internal/ceres/covariance_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b2449f9..474c082 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -547,7 +547,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingSuiteSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   // Construct a compressed column form of the Jacobian.
@@ -714,7 +718,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
@@ -810,7 +818,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
-- 
2.43.0


From 241df9fa90e1e6a901f8ba3a710ad0384545cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 18/28] fix: GetCovarianceBlock does not read past the end of a
 row

---
 internal/ceres/covariance_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 474c082..14626e5 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -185,7 +185,7 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   // vector to determine where the set of columns corresponding to the
   // covariance block begin.
   int offset = 0;
-  while (cols_begin[offset] != col_begin && offset < row_size) {
+  while (offset < row_size && cols_begin[offset] != col_begin) {
     ++offset;
   }
 
-- 
2.43.0


From f2e930759bad00f49bd45c934e54083de5d17ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 19/28] fix: GetCovarianceBlock returns false when only
 constant blocks were computed

---
 internal/ceres/covariance_impl.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 14626e5..a5dbcdd 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -164,6 +164,13 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
     return true;
   }
 
+  // All the blocks that Compute was asked for are zero.
+  if (covariance_matrix_ == nullptr) {
+    LOG(ERROR) << "Unable to find covariance block for "
+               << original_parameter_block1 << " " << original_parameter_block2;
+    return false;
+  }
+
   const double* parameter_block1 = original_parameter_block1;
   const double* parameter_block2 = original_parameter_block2;
   const bool transpose = parameter_block1 > parameter_block2;
-- 
2.43.0


From d56069ca3ea0cc3b14cebb6f8604684f22dab2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 20/28] fix: GetCovarianceMatrix accepts an empty list of
 parameter blocks

---
 internal/ceres/covariance_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index a5dbcdd..58f45e2 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -294,6 +294,10 @@ bool CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace(
       << "Covariance::GetCovarianceMatrix called when Covariance::Compute "
       << "returned false.";
 
+  if (parameters.empty()) {
+    return true;
+  }
+
   const ProblemImpl::ParameterMap& parameter_map = problem_->parameter_map();
   // For OpenMP compatibility we need to define these vectors in advance
   const int num_parameters = parameters.size();
-- 
2.43.0


From 53cc05a10611cc9eea7cc8989089e1e438f6fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 21/28] fix: DENSE_SVD covariance of a Jacobian with fewer rows
 than columns

---
 internal/ceres/covariance_impl.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 58f45e2..d8eeb7e 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -766,8 +766,10 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
       sqrt(options_.min_reciprocal_condition_number);
 
   const bool automatic_truncation = (options_.null_space_rank < 0);
-  const int max_rank = std::min(num_singular_values,
-                                num_singular_values - options_.null_space_rank);
+  // J'J has one eigenvalue per column of the Jacobian. When the Jacobian has
+  // fewer rows than columns, those without a singular value are zero.
+  const int max_rank = std::min(jacobian.num_cols,
+                                jacobian.num_cols - options_.null_space_rank);
 
   // Compute the squared inverse of the singular values. Truncate the
   // computation based on min_singular_value_ratio and
@@ -775,8 +777,12 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   // the resulting covariance matrix is a Moore-Penrose inverse
   // instead of a regular inverse.
   for (int i = 0; i < max_rank; ++i) {
-    const double singular_value_ratio = singular_values[i] / max_singular_value;
-    if (singular_value_ratio < min_singular_value_ratio) {
+    const double singular_value_ratio =
+        (i < num_singular_values && singular_values[i] > 0.0)
+            ? singular_values[i] / max_singular_value
+            : 0.0;
+    if (singular_value_ratio == 0.0 ||
+        singular_value_ratio < min_singular_value_ratio) {
       // Since the singular values are in decreasing order, if
       // automatic truncation is enabled, then from this point on
       // all values will fail the ratio test and there is nothing to
-- 
2.43.0


From 4e30628d386606496c4ae88e7e5b80389bc893c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 22/28] fix: report a one group ordering that misses a
 parameter block

A user supplied ordering with a single group was only checked for having
as many elements as the program has parameter blocks. If one of them is
not a parameter block of the problem, it stayed in the ordering and was
counted as an E block, which ended in a CHECK failure or a failed memory
allocation instead of an error message.
---
 internal/ceres/reorder_program.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ceres/reorder_program.cc b/internal/ceres/reorder_program.cc
index e02af43..ce64b9a 100644
--- a/internal/ceres/reorder_program.cc
+++ b/internal/ceres/reorder_program.cc
@@ -501,6 +501,11 @@ bool ReorderProgramForSchurTypeLinearSolver(
     // Update the parameter_block_ordering object.
     for (int i = 0; i < schur_ordering.size(); ++i) {
       double* parameter_block = schur_ordering[i]->mutable_user_state();
+      if (!parameter_block_ordering->IsMember(parameter_block)) {
+        *error = absl::StrFormat("No ordering specified for parameter block: %d",
+                                 schur_ordering[i]->index());
+        return false;
+      }
       const int group_id = (i < size_of_first_elimination_group) ? 0 : 1;
       parameter_block_ordering->AddElementToGroup(parameter_block, group_id);
     }
-- 
2.43.0


From aaacb212a8553f263648feb8d62fba4ef172936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 23/28] fix: do not abort when the linear solver ordering is or
 becomes empty

MinNonZeroGroup CHECK-fails on an ordering without groups, which happens
when the user supplies an empty ordering, or one whose elements are all
constant or unused. The linear solvers that do not use the ordering can
go ahead, and the others report that it does not cover the program.
---
 internal/ceres/trust_region_preprocessor.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 90d9bbb..5f491e2 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -187,11 +187,15 @@ bool SetupLinearSolver(PreprocessedProblem* pp) {
     // user's requested linear solver (and a preconditioner as the
     // case may be) so we must use a different one.
     ParameterBlockOrdering* ordering = options.linear_solver_ordering.get();
-    const int min_group_id = ordering->MinNonZeroGroup();
-    ordering->Remove(pp->removed_parameter_blocks);
-    if (IsSchurType(options.linear_solver_type) &&
-        min_group_id != ordering->MinNonZeroGroup()) {
-      AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(&options);
+    if (ordering->NumGroups() > 0) {
+      const int min_group_id = ordering->MinNonZeroGroup();
+      ordering->Remove(pp->removed_parameter_blocks);
+      if (IsSchurType(options.linear_solver_type) &&
+          (ordering->NumGroups() == 0 ||
+           min_group_id != ordering->MinNonZeroGroup())) {
+        AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(
+            &options);
+      }
     }
   }
 
-- 
2.43.0


From 8e2675857812b131a41dbaee1c0b143d92dd90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:49 +0000
Subject: [PATCH 24/28] fix: do not change the user's orderings while
 preprocessing

Solver::Options holds linear_solver_ordering and inner_iteration_ordering
by shared_ptr. TrustRegionPreprocessor removed the constant and unused
parameter blocks from the user's objects, and overwrote a one group
linear solver ordering by the E and F blocks it found. A later Solve with
the same options, or a concurrent one, saw the changed orderings: it
failed, or ran another linear solver than the user asked for.
---
 internal/ceres/trust_region_preprocessor.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 5f491e2..ef5371e 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -30,6 +30,7 @@
 
 #include "ceres/trust_region_preprocessor.h"
 
+#include <memory>
 #include <numeric>
 #include <string>
 #include <vector>
@@ -390,6 +391,18 @@ bool TrustRegionPreprocessor::Preprocess(const Solver::Options& options,
   EventLogger event_logger("TrustRegionPreprocessor::Preprocess");
   CHECK(pp != nullptr);
   pp->options = options;
+  // The orderings are updated below to reflect the reduced program. The user's
+  // copies, which pp->options shares, must not change.
+  if (pp->options.linear_solver_ordering != nullptr) {
+    pp->options.linear_solver_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *pp->options.linear_solver_ordering);
+  }
+  if (pp->options.inner_iteration_ordering != nullptr) {
+    pp->options.inner_iteration_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *pp->options.inner_iteration_ordering);
+  }
   ChangeNumThreadsIfNeeded(&pp->options);
 
   pp->problem = problem;
-- 
2.43.0


From 38d5d55c0acb371f74f71272dbe1f99d8357e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:31 +0000
Subject: [PATCH 25/28] fix: reject inner iteration orderings with unknown
 parameter blocks

CoordinateDescentMinimizer::Init dereferenced the end iterator of the
parameter map for an element of the ordering that is not a parameter
block of the problem.
---
 internal/ceres/coordinate_descent_minimizer.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/coordinate_descent_minimizer.cc b/internal/ceres/coordinate_descent_minimizer.cc
index 556d3aa..7bf64a3 100644
--- a/internal/ceres/coordinate_descent_minimizer.cc
+++ b/internal/ceres/coordinate_descent_minimizer.cc
@@ -67,7 +67,7 @@ bool CoordinateDescentMinimizer::Init(
     const Program& program,
     const ProblemImpl::ParameterMap& parameter_map,
     const ParameterBlockOrdering& ordering,
-    std::string* /*error*/) {
+    std::string* error) {
   parameter_blocks_.clear();
   independent_set_offsets_.clear();
   independent_set_offsets_.push_back(0);
@@ -83,7 +83,16 @@ bool CoordinateDescentMinimizer::Init(
   for (const auto& g_t_e : group_to_elements) {
     const auto& elements = g_t_e.second;
     for (double* parameter_block : elements) {
-      parameter_blocks_.push_back(parameter_map.find(parameter_block)->second);
+      const auto it = parameter_map.find(parameter_block);
+      if (it == parameter_map.end()) {
+        *error = absl::StrFormat(
+            "The inner iteration ordering contains a pointer to a double that "
+            "is not a parameter block in the problem. The invalid double is in "
+            "group: %d",
+            g_t_e.first);
+        return false;
+      }
+      parameter_blocks_.push_back(it->second);
       parameter_block_index[parameter_blocks_.back()] =
           parameter_blocks_.size() - 1;
     }
-- 
2.43.0


From ec937172f46441c92b46c3523e6f38f1fae46a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 26/28] fix: use one triangle of the matrix in dense iterative
 refinement

DENSE_NORMAL_CHOLESKY and DENSE_SCHUR compute only one triangle of the
symmetric matrix they factorize, but DenseIterativeRefiner multiplied by
the full matrix, so that every refinement step made the solution worse.
---
 internal/ceres/iterative_refiner.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/iterative_refiner.cc b/internal/ceres/iterative_refiner.cc
index 54d48f3..31d3a1f 100644
--- a/internal/ceres/iterative_refiner.cc
+++ b/internal/ceres/iterative_refiner.cc
@@ -91,7 +91,11 @@ void DenseIterativeRefiner::Refine(const int num_cols,
   VectorRef solution(solution_ptr, num_cols);
   std::string ignored_message;
   for (int i = 0; i < max_num_iterations_; ++i) {
-    residual_ = rhs - lhs * solution;
+    // Like the Cholesky factorization, use only the lower triangle of the
+    // column major lhs, i.e. the upper triangle of the row major one. The
+    // callers do not fill in the other one.
+    residual_ = rhs;
+    residual_ -= lhs.selfadjointView<Eigen::Upper>() * solution;
     // solution += lhs^-1 residual
     cholesky->Solve(residual_.data(), correction_.data(), &ignored_message);
     solution += correction_;
-- 
2.43.0


From e302cdbc05ee1dfae11919c9202604c2b2825393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 27/28] fix: keep the matrix for iterative refinement of dense
 Cholesky solves

EigenDenseCholesky and LAPACKDenseCholesky factorize in place, so
RefinedDenseCholesky computed residuals with the Cholesky factor where
it needs the matrix itself.
---
 internal/ceres/dense_cholesky.cc | 7 ++++---
 internal/ceres/dense_cholesky.h  | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..881b77b 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,7 +329,8 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
+  // The factorization may overwrite lhs.
+  lhs_ = ConstMatrixRef(lhs, num_cols, num_cols);
   num_cols_ = num_cols;
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
@@ -337,14 +338,14 @@ LinearSolverTerminationType RefinedDenseCholesky::Factorize(
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
+  CHECK_EQ(lhs_.rows(), num_cols_);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      num_cols_, lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..a7629da 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -42,6 +42,7 @@
 #include "Eigen/Dense"
 #include "ceres/context_impl.h"
 #include "ceres/cuda_buffer.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/linear_solver.h"
 
 #ifndef CERES_NO_CUDA
@@ -188,8 +189,8 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  Matrix lhs_;
+  int num_cols_ = -1;
 };
 
 #ifndef CERES_NO_CUDA
-- 
2.43.0


From 2ba60ffb580a2012fea0dff9611d21f4b923673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:10 +0000
Subject: [PATCH 28/28] fix: do not declare CG convergence while the quadratic
 model is positive

With use_spse_initialization CG does not start at zero. If the initial
guess is worse than zero, Q(x) is positive and decreases, so zeta is
negative and CG stopped with SUCCESS after its first iteration, however
far from the solution.
---
 internal/ceres/conjugate_gradients_solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index ba70a13..6b5831b 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -270,8 +270,10 @@ LinearSolver::Summary ConjugateGradientsSolver(
     //   Journal of Computational and Applied Mathematics,
     //   124(1-2), 45-59, 2000.
     //
+    // Q is negative when CG starts at zero, but an initial guess can be worse
+    // than zero. The criterion means nothing until Q is negative.
     const double zeta = summary.num_iterations * (Q1 - Q0) / Q1;
-    if (zeta < options.q_tolerance &&
+    if (Q1 < 0 && zeta < options.q_tolerance &&
         summary.num_iterations >= options.min_num_iterations) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
-- 
2.43.0

