From 08691ee1ecfd3a76604a03967234536bdfec1b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:00 +0000
Subject: [PATCH 01/43] fix: apply the second half of the increment to the
 second element of a pair

---
 include/tinyopt/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index a1d4601..853f0e6 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -344,7 +344,7 @@ struct params_trait<std::pair<T1, T2>> {
     if constexpr (Scalar2ParamsTraits::Dims == Dynamic)
       Scalar2ParamsTraits::PlusEq(v.second, delta.tail(Scalar2ParamsTraits::dims(v.second)));
     else
-      Scalar2ParamsTraits::PlusEq(v.first, delta.template tail<Scalar2ParamsTraits::Dims>());
+      Scalar2ParamsTraits::PlusEq(v.second, delta.template tail<Scalar2ParamsTraits::Dims>());
   }
 };
 
-- 
2.43.0


From 14e09f6ef18a5a0ecdaee833d0e131f67d3afde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:00 +0000
Subject: [PATCH 02/43] fix: update containers of dynamically sized elements
 with the right segments

---
 include/tinyopt/traits.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index 853f0e6..0ef9e06 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -246,6 +246,7 @@ struct params_trait<std::vector<_Scalar>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;  // only used with dynamically sized elements
     for (std::size_t i = 0; i < v.size(); ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -253,7 +254,9 @@ struct params_trait<std::vector<_Scalar>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index d = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, d));
+        offset += d;
       }
     }
   }
@@ -294,6 +297,7 @@ struct params_trait<std::array<_Scalar, N>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;  // only used with dynamically sized elements
     for (std::size_t i = 0; i < N; ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -301,7 +305,9 @@ struct params_trait<std::array<_Scalar, N>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index d = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, d));
+        offset += d;
       }
     }
   }
-- 
2.43.0


From e6a6fec5815c788cf19d99486a3c858ad7656adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:00 +0000
Subject: [PATCH 03/43] fix: bound the number of solver retries when
 max_consec_failures is 0

---
 include/tinyopt/optimizers/optimizer.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 0a2f138..5e47c9e 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -353,9 +353,8 @@ class Optimizer_ {
 
     bool solver_failed = true;
     // Solver linear a few times until it's enough
-    const uint8_t max_tries =
-        options_.max_consec_failures > 0 ? std::max<uint8_t>(1, options_.max_consec_failures) : 255;
-    for (; out.num_consec_failures <= max_tries;) {
+    const int max_tries = options_.max_consec_failures > 0 ? options_.max_consec_failures : 255;
+    for (int tries = 0; tries < max_tries; ++tries) {
       // Accumulate residuals and jacobians
       if (solver_.Build(x, acc, resize_and_clear_solver)) {
         // Ok, let's try to solve for `dx` now
-- 
2.43.0


From ca872ce820da9a43522e206bb01a801f1a10f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:00 +0000
Subject: [PATCH 04/43] fix: do not overwrite the stop reason of an iteration
 that also timed out

---
 include/tinyopt/optimizers/optimizer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 5e47c9e..ef4c0cd 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -300,7 +300,8 @@ class Optimizer_ {
 
       // Check for a time out
       out.duration_ms += static_cast<float>(toc_ms(t));
-      if (options_.max_duration_ms > 0 && out.duration_ms > options_.max_duration_ms) {
+      if (out.stop_reason == StopReason::kNone && options_.max_duration_ms > 0 &&
+          out.duration_ms > options_.max_duration_ms) {
         out.stop_reason = StopReason::kTimedOut;
       }
       // Iteration done
-- 
2.43.0


From 5fb85fed7bc75731f609f91b2f982abc92e71cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:00 +0000
Subject: [PATCH 05/43] fix: report when numerical derivatives were used

---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index ef4c0cd..21310d8 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -170,7 +170,6 @@ class Optimizer_ {
         // TODO #pragma message("Your function cannot be auto-differentiated,
         // using numerical differentiation")
         Output out;
-        out.num_diff_used = true;
         if constexpr (SolverType::FirstOrder) {
           auto loss = diff::CreateNumDiffFunc1(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
@@ -178,6 +177,7 @@ class Optimizer_ {
           auto loss = diff::CreateNumDiffFunc2(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
         }
+        out.num_diff_used = true;
         return out;
       }
 #else
-- 
2.43.0


From 7dfd13092a6e405e10ead442b2b5b6570caa061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:27 +0000
Subject: [PATCH 06/43] fix: prevent the iteration and failure counters from
 wrapping around

---
 include/tinyopt/output.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/output.h b/include/tinyopt/output.h
index 30237e8..e8dbb88 100644
--- a/include/tinyopt/output.h
+++ b/include/tinyopt/output.h
@@ -113,10 +113,10 @@ struct Output {
    * @name Statistics
    * @{
    */
-  uint16_t num_residuals = 0;  ///< Final number of residuals
-  uint16_t num_iters = 0;      ///< Final number of iterations
-  uint8_t num_failures = 0;    ///< Final number of failures to decrease the error
-  uint8_t num_consec_failures =
+  int num_residuals = 0;  ///< Final number of residuals
+  int num_iters = 0;      ///< Final number of iterations
+  int num_failures = 0;   ///< Final number of failures to decrease the error
+  int num_consec_failures =
       0;  ///< Final number of the last consecutive failures to decrease the error
 
   TimePoint start_time =
-- 
2.43.0


From c5e8f97482be3ecf6a9248a2ec8ecc9fd4d897ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:27 +0000
Subject: [PATCH 07/43] fix: fill the reported number of residuals

---
 include/tinyopt/optimizers/optimizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 21310d8..52ee743 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -443,6 +443,7 @@ class Optimizer_ {
       if (iter > 0) solver_.GoodStep(options_.use_step_quality_approx ? rel_derr : 0.0f);
       out.num_consec_failures = 0;
       out.final_cost = cost;
+      out.num_residuals = cost.num_resisuals;
       out.final_rerr_dec = rel_derr;
     } else { /* BAD Step */
       solver_.BadStep();
-- 
2.43.0


From 57ab3fcfaeb0ffd626899036f4472eed7eb89233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:27 +0000
Subject: [PATCH 08/43] fix: rescale the covariance with the sum of squared
 residuals

---
 include/tinyopt/output.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/output.h b/include/tinyopt/output.h
index e8dbb88..74c76b9 100644
--- a/include/tinyopt/output.h
+++ b/include/tinyopt/output.h
@@ -42,7 +42,7 @@ struct Output {
   ///
   /// @param rescaled (optional) If true, the covariance matrix is rescaled by
   ///                 ε² / (#ε - dims), where ε² is the sum of squared residuals
-  ///                 (final_cost²), #ε is the number of residuals (num_residuals),
+  ///                 (final_cost), #ε is the number of residuals (num_residuals),
   ///                 and dims is the number of parameters (H.cols()).
   ///                 This rescaling is useful when observations lack explicit
   ///                 noise modeling and provides a more accurate estimate of the
@@ -62,7 +62,7 @@ struct Output {
   ///
   /// Where:
   ///   - H is the approximated Hessian matrix.
-  ///   - ε (final_cost) is the sum of residuals.
+  ///   - ε² (final_cost) is the sum of squared residuals.
   ///   - #ε (num_residuals) is the number of residuals.
   ///   - dims (H.cols()) is the number of parameters.
   ///
@@ -85,7 +85,7 @@ struct Output {
     const auto &cov = InvCov(final_hessian_dense);
     if (cov) {
       if (rescaled && num_residuals > final_hessian_dense.cols())
-        return cov.value() * (final_cost * final_cost / (num_residuals - final_hessian_dense.cols()));
+        return cov.value() * (final_cost.cost / (num_residuals - final_hessian_dense.cols()));
       else
         return cov.value();
     }
-- 
2.43.0


From 2dbda0c34eec9648de46a1ced521539f22caac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:27 +0000
Subject: [PATCH 09/43] fix: print the last step size only if there is one

---
 include/tinyopt/stop_reasons.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/stop_reasons.h b/include/tinyopt/stop_reasons.h
index a1f4c79..08240f0 100644
--- a/include/tinyopt/stop_reasons.h
+++ b/include/tinyopt/stop_reasons.h
@@ -67,9 +67,9 @@ std::string StopReasonDescription(const Output &out, const Options &options = {}
     case StopReason::kMinDeltaNorm:
       os << "🌞 Reached minimal delta norm (success)";
       if constexpr (!traits::is_nullptr_v<Options>) {
-        if (out.deltas2.empty())
-          os << " |δX|:[" << out.deltas2.back() << " < " << std::sqrt(options.min_step_norm2)
-             << "]";
+        if (!out.deltas2.empty())
+          os << " |δX|:[" << std::sqrt(out.deltas2.back()) << " < "
+             << std::sqrt(options.min_step_norm2) << "]";
         else
           os << " [|δX| < " << std::sqrt(options.min_step_norm2) << "]";
       }
-- 
2.43.0


From 4c181384e68ae816fc616a531d4f75b0f9b17289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:27 +0000
Subject: [PATCH 10/43] fix: keep track of the damping actually applied to the
 LM Hessian

---
 include/tinyopt/solvers/lm.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 75da41d..e26f050 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -64,6 +64,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
         this->ResizeIfNeeded(x);
         this->clear();
       }
+      prev_lambda_ = 0;  // The new system is not damped yet
 
       // Accumulate residuals and update both gardient and Hessian approx (Jt*J)
       const bool success = this->Accumulate(x, acc_func);
@@ -106,14 +107,14 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
 
     // Damping the diagonal: d' = d + lambda*d
     if (lambda_ > 0.0) {
-      const double s =
-          rebuild_linear_system_ ? 1.0 + lambda_ : (1.0 + lambda_) / (1.0 + prev_lambda_);
+      const double s = (1.0 + lambda_) / (1.0 + prev_lambda_);
       for (int i = 0; i < this->H_.rows(); ++i) {
         if constexpr (traits::is_matrix_or_array_v<H_t>)
           this->H_(i, i) *= s;
         else
           this->H_.coeffRef(i, i) *= s;
       }
+      prev_lambda_ = lambda_;
     }
 
     return true;
@@ -131,7 +132,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     // Check whether the previous 'bad' step was actually good and revert the last scaling
     if (bad_factor_ != options_.lm.bad_factor) s /= bad_factor_;
 
-    prev_lambda_ = lambda_;
     lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ = options_.lm.bad_factor;
   }
@@ -139,7 +139,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   /// Damping stategy for a bad step: decrease the damping factor \lambda
   void BadStep(Scalar /*quality*/ = 0.0f) override {
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
-    prev_lambda_ = lambda_;
     lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
   }
@@ -189,7 +188,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
  protected:
   const Options options_;
   Scalar lambda_ = 1e-4f;              ///< Initial damping factor  (\lambda)
-  Scalar prev_lambda_ = 0.0f;          ///< Previous damping factor  (0 at start)
+  Scalar prev_lambda_ = 0.0f;          ///< Damping factor applied to H  (0 if not damped)
   Scalar bad_factor_ = 2.0f;           ///< Current damping scaling factor for bad steps
   bool rebuild_linear_system_ = true;  ///< Whether the linear system (H and gradient) have to be
                                        ///< rebuilt or a simple evaluation can do it.
-- 
2.43.0


From 43450ec56a2ee477b8f700a54e6ceec554e4709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:27 +0000
Subject: [PATCH 11/43] fix: keep the LM damping disabled when damping_init is
 0

---
 include/tinyopt/solvers/lm.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index e26f050..e9072e3 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -122,6 +122,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
 
   /// Damping stategy for a good step: increase the damping factor \lambda
   void GoodStep(Scalar quality) override {
+    if (options_.lm.damping_init == 0) return;  // Damping is disabled
+
     Scalar s = options_.lm.good_factor;  // Scale to apply on damping lambda
 
     // Use an approximative scaling based on the step quality TODO: improve this
@@ -138,6 +140,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
 
   /// Damping stategy for a bad step: decrease the damping factor \lambda
   void BadStep(Scalar /*quality*/ = 0.0f) override {
+    if (options_.lm.damping_init == 0) return;  // Damping is disabled
+
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
     lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
-- 
2.43.0


From b5ab69d82d91b311299086334036df9ce87caf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:27 +0000
Subject: [PATCH 12/43] fix: always build the linear system at the start of an
 optimization

---
 include/tinyopt/optimizers/optimizer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 52ee743..37caa66 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -259,6 +259,9 @@ class Optimizer_ {
     BestXType *best_x = nullptr;
     if constexpr (!kNoCopyX) best_x = new X_t(x);  // using the copy constructor
 
+    // Never start from the linear system of a previous run
+    solver_.Rebuild(true);
+
     std::optional<Vector<Scalar, Dims>> last_dx;
     bool last_was_success = true;  // Last iteration was a success
 
-- 
2.43.0


From 79268001ecc4357129562f8c12d7747d5b227133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:10 +0000
Subject: [PATCH 13/43] fix: accept residuals that do not depend on dynamically
 sized parameters

---
 include/tinyopt/diff/auto_diff.h         |  6 +++++-
 include/tinyopt/diff/optimize_autodiff.h | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/diff/auto_diff.h b/include/tinyopt/diff/auto_diff.h
index 8a88f51..568ab6d 100644
--- a/include/tinyopt/diff/auto_diff.h
+++ b/include/tinyopt/diff/auto_diff.h
@@ -77,7 +77,11 @@ auto Eval(const X_t &x, const CostOrResFunc &cost_or_res_func, bool check_residu
       (traits::is_matrix_or_array_v<ResType> && traits::is_jet_type_v<typename ResType::Scalar>));
 
   if constexpr (!traits::is_matrix_or_array_v<ResType>) {  // One residual
-    return std::make_pair(res.a, res.v.transpose().eval());
+    auto J = res.v.transpose().eval();
+    if constexpr (Dims == Dynamic) {
+      if (J.size() == 0) J.setZero(dims);  // not connected to the parameters
+    }
+    return std::make_pair(res.a, J);
   } else {
     constexpr int ResDims = traits::params_trait<ResType>::Dims;
     const Index res_dims = traits::DynDims(res);
diff --git a/include/tinyopt/diff/optimize_autodiff.h b/include/tinyopt/diff/optimize_autodiff.h
index 64881f3..624ea8d 100644
--- a/include/tinyopt/diff/optimize_autodiff.h
+++ b/include/tinyopt/diff/optimize_autodiff.h
@@ -88,6 +88,14 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
     }
   };
 
+  // Derivatives of a residual, 0 if it does not depend on (dynamically sized) parameters
+  auto derivatives = [&](const Jet &r) -> Vector<Scalar, Dims> {
+    if constexpr (Dims == Dynamic) {
+      if (r.v.size() == 0) return Vector<Scalar, Dims>::Zero(dims);
+    }
+    return r.v;
+  };
+
   auto acc = [&](const auto &x, auto &grad, auto &H) {
     using H_t = decltype(H);
     constexpr bool HasGrad = !traits::is_nullptr_v<decltype(grad)>;
@@ -109,7 +117,7 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
     if constexpr (traits::is_scalar_v<ResType>) {  // One residual
       if constexpr (HasGrad) {
         // Update H and gradient
-        const auto &J = res.v;
+        const auto J = derivatives(res);
         if constexpr (std::is_floating_point_v<X_t>) {
           grad[0] = J[0] * res.a;
           if constexpr (HasH) H(0, 0) = J[0] * J[0];
@@ -131,18 +139,18 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
           for (int c = 0; c < res.cols(); ++c)
             for (int r = 0; r < res.rows(); ++r) {
               const Index i = r + c * res.rows();
-              if constexpr (HasGrad) J.row(i) = res(r, c).v;
+              if constexpr (HasGrad) J.row(i) = derivatives(res(r, c));
               res_f[i] = res(r, c).a;
             }
         } else {  // Vector
           for (Index i = 0; i < res_size; ++i) {
-            if constexpr (HasGrad) J.row(i) = res[i].v;
+            if constexpr (HasGrad) J.row(i) = derivatives(res[i]);
             res_f[i] = res[i].a;
           }
         }
       } else {  // scalar
         for (Index i = 0; i < res_size; ++i) {
-          if constexpr (HasGrad) J.row(i) = res.v;
+          if constexpr (HasGrad) J.row(i) = derivatives(res);
           res_f[i] = res.a;
         }
       }
-- 
2.43.0


From 9dddf0482d26155ab6095eeb5939635e7920d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:34 +0000
Subject: [PATCH 14/43] fix: descend along the gradient of a negative cost too

---
 include/tinyopt/diff/optimize_autodiff.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/diff/optimize_autodiff.h b/include/tinyopt/diff/optimize_autodiff.h
index 624ea8d..2022910 100644
--- a/include/tinyopt/diff/optimize_autodiff.h
+++ b/include/tinyopt/diff/optimize_autodiff.h
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <cassert>
+#include <cmath>
 #include <cstddef>
 #include <type_traits>
 #include <utility>
@@ -118,11 +119,13 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
       if constexpr (HasGrad) {
         // Update H and gradient
         const auto J = derivatives(res);
+        // A general cost can be negative and must still be decreased
+        const Scalar s = IsNLLS ? res.a : std::abs(res.a);
         if constexpr (std::is_floating_point_v<X_t>) {
-          grad[0] = J[0] * res.a;
+          grad[0] = J[0] * s;
           if constexpr (HasH) H(0, 0) = J[0] * J[0];
         } else {
-          grad = J.transpose() * res.a;
+          grad = J * s;
           if constexpr (HasH) H = J * J.transpose();
         }
       }
-- 
2.43.0


From d7c0167936a8e000742b75e5fdd48dc87969a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:34 +0000
Subject: [PATCH 15/43] fix: round the number of inliers so that none gets lost
 when accumulating costs

---
 include/tinyopt/cost.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/cost.h b/include/tinyopt/cost.h
index 98d8d8e..ef66186 100644
--- a/include/tinyopt/cost.h
+++ b/include/tinyopt/cost.h
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <sstream>
 
 #include <tinyopt/log.h>
@@ -81,8 +82,8 @@ struct Cost {
   }
 
   bool isValid() const { return num_resisuals > 0 && cost != std::numeric_limits<Scalar>::max(); }
-  int NumInliers() const { return (int)(num_resisuals * inlier_ratio); }
-  int NumOutliers() const { return (int)(num_resisuals * (1.0f - inlier_ratio)); }
+  int NumInliers() const { return (int)std::lround(num_resisuals * (double)inlier_ratio); }
+  int NumOutliers() const { return num_resisuals - NumInliers(); }
 
   void AddResiduals(int new_residuals, int new_inliers) {
     if (num_resisuals + new_residuals > 0)
-- 
2.43.0


From 91be2407c69ce227542e3c673eec7e271aa53d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:34 +0000
Subject: [PATCH 16/43] fix: return the actual Jacobian of the scalar norms and
 of L1

---
 include/tinyopt/losses/norms.h | 36 +++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index 1b0db1e..ce2a749 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -43,7 +43,13 @@ auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true) {
     else
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, add_scale ? T(2.0) * x : x);
+    const T J = add_scale ? T(2.0) * x : x;
+    if constexpr (traits::is_bool_v<ExportJ>)
+      return std::make_pair(l, J);
+    else if constexpr (traits::is_scalar_v<ExportJ>)
+      return std::make_pair(l, T(J * Jx_or_bool));
+    else
+      return std::make_pair(l, (J * Jx_or_bool).eval());
   }
 }
 
@@ -75,7 +81,13 @@ auto L2(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (J.transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    const T J = x < T(0.0) ? T(-1.0) : T(1.0);
+    if constexpr (traits::is_bool_v<ExportJ>)
+      return std::make_pair(l, J);
+    else if constexpr (traits::is_scalar_v<ExportJ>)
+      return std::make_pair(l, T(J * Jx_or_bool));
+    else
+      return std::make_pair(l, (J * Jx_or_bool).eval());
   }
 }
 
@@ -106,9 +118,15 @@ auto L1(const T &x, const ExportJ &Jx_or_bool) {
     if constexpr (traits::is_bool_v<ExportJ>)
       return std::make_pair(l, RowVector<Scalar, DimsJ>(x.array().sign()));
     else
-      return std::make_pair(l, (x.array().sign() * Jx_or_bool).eval());
+      return std::make_pair(l, (x.array().sign().matrix().transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    const T J = x < T(0.0) ? T(-1.0) : T(1.0);
+    if constexpr (traits::is_bool_v<ExportJ>)
+      return std::make_pair(l, J);
+    else if constexpr (traits::is_scalar_v<ExportJ>)
+      return std::make_pair(l, T(J * Jx_or_bool));
+    else
+      return std::make_pair(l, (J * Jx_or_bool).eval());
   }
 }
 
@@ -145,10 +163,14 @@ auto Linf(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
-    if (x >= 0)
-      return std::make_pair(x, T(1.0));
+    const T l = Linf(x);
+    const T J = x < T(0.0) ? T(-1.0) : T(1.0);
+    if constexpr (traits::is_bool_v<ExportJ>)
+      return std::make_pair(l, J);
+    else if constexpr (traits::is_scalar_v<ExportJ>)
+      return std::make_pair(l, T(J * Jx_or_bool));
     else
-      return std::make_pair(-x, T(-1.0));
+      return std::make_pair(l, (J * Jx_or_bool).eval());
   }
 }
 
-- 
2.43.0


From b9bf134176ffdbcbbbe8f4a66a850a6e5b4ddf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:32 +0000
Subject: [PATCH 17/43] fix: return the derivative of the activations of a
 scalar

---
 include/tinyopt/losses/activations.h |  2 +-
 include/tinyopt/losses/helpers.h     | 20 ++++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/tinyopt/losses/activations.h b/include/tinyopt/losses/activations.h
index cbb2131..821fcbc 100644
--- a/include/tinyopt/losses/activations.h
+++ b/include/tinyopt/losses/activations.h
@@ -28,7 +28,7 @@ DefineLoss(
 
 /// @brief LeakyReLU = {x>0:x, x<=0:a*x}, derivative = {x>0:1, x<=0:a}
 DefineLoss2(LeakyReLU, x > 0 ? x : a * x,
-            x.unaryExpr([a](auto x) { return x > 0 ? 1 : a; }).reshaped().asDiagonal());
+            x.unaryExpr([a](auto x) -> Scalar { return x > 0 ? Scalar(1.0) : Scalar(a); }).reshaped().asDiagonal());
 
 /** @} */
 }  // namespace tinyopt::losses
diff --git a/include/tinyopt/losses/helpers.h b/include/tinyopt/losses/helpers.h
index ec91122..ec61cd4 100644
--- a/include/tinyopt/losses/helpers.h
+++ b/include/tinyopt/losses/helpers.h
@@ -45,10 +45,14 @@
         return std::make_pair(l, Matrix<Scalar, DimsJ, DimsJ>(J));                                \
       }                                                                                           \
     } else { /* scalar */                                                                         \
-      if constexpr (HasJac) {                                                                     \
-        return std::make_pair(l, (0 /*TODO*/ * Jx_or_bool).matrix().eval());                      \
+      using Scalar = std::decay_t<decltype(l)>;                                                   \
+      const Scalar J = name(Vector<Scalar, 1>(x), true).second(0, 0);                             \
+      if constexpr (traits::is_matrix_or_array_v<std::decay_t<ExportJ>>) {                        \
+        return std::make_pair(l, (J * Jx_or_bool).matrix().eval());                               \
+      } else if constexpr (HasJac) {                                                              \
+        return std::make_pair(l, Scalar(J * Jx_or_bool));                                         \
       } else {                                                                                    \
-        return std::make_pair(l, 0 /*TODO*/);                                                     \
+        return std::make_pair(l, J);                                                              \
       }                                                                                           \
     }                                                                                             \
   }
@@ -91,10 +95,14 @@
         return std::make_pair(l, Matrix<Scalar, DimsJ, DimsJ>(J));                                \
       }                                                                                           \
     } else { /* scalar */                                                                         \
-      if constexpr (HasJac) {                                                                     \
-        return std::make_pair(l, ((0 /*TODO*/) * Jx_or_bool).matrix().eval());                    \
+      using Scalar = std::decay_t<decltype(l)>;                                                   \
+      const Scalar J = name(Vector<Scalar, 1>(x), a, true).second(0, 0);                          \
+      if constexpr (traits::is_matrix_or_array_v<std::decay_t<ExportJ>>) {                        \
+        return std::make_pair(l, (J * Jx_or_bool).matrix().eval());                               \
+      } else if constexpr (HasJac) {                                                              \
+        return std::make_pair(l, Scalar(J * Jx_or_bool));                                         \
       } else {                                                                                    \
-        return std::make_pair(l, 0 /*TODO*/);                                                     \
+        return std::make_pair(l, J);                                                              \
       }                                                                                           \
     }                                                                                             \
   }
-- 
2.43.0


From 78025753a2c6787dd848e01b062891878b4bbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:32 +0000
Subject: [PATCH 18/43] fix: keep Tanh finite for large inputs

---
 include/tinyopt/losses/activations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/activations.h b/include/tinyopt/losses/activations.h
index 821fcbc..4bc43db 100644
--- a/include/tinyopt/losses/activations.h
+++ b/include/tinyopt/losses/activations.h
@@ -18,7 +18,7 @@ DefineLoss(
 
 /// @brief Tanh = (e^x-e^-x)/(e^x+e^-x),   derivative = 1 - Tanh(x)^2
 DefineLoss(
-    Tanh, (exp(x) - exp(-x)) / (exp(x) + exp(-x)),
+    Tanh, tanh(x),
     l.unaryExpr([](auto x) -> Scalar { return Scalar(1.0) - x * x; }).reshaped().asDiagonal());
 
 /// @brief ReLU = max(0, x),  derivative = {x>0:1, x<=0:0}
-- 
2.43.0


From 8d126514d4fcb3649669efc54bf87ebca0190659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:32 +0000
Subject: [PATCH 19/43] fix: return the jacobian of SafeSoftmax of a scalar
 only when asked for

---
 include/tinyopt/losses/classif.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/losses/classif.h b/include/tinyopt/losses/classif.h
index ae752f3..1b5fefb 100644
--- a/include/tinyopt/losses/classif.h
+++ b/include/tinyopt/losses/classif.h
@@ -56,11 +56,11 @@ auto SafeSoftmax(const T &x, const ExportJ &Jx_or_bool = nullptr) {
     return SafeSoftmax(x.first, x.second);
   } else if constexpr (!IsMatrix) {  // scalar
     if constexpr (std::is_null_pointer_v<ExportJ>)
-      return std::make_pair(1, 1);
+      return 1;
     else if constexpr (traits::is_matrix_or_array_v<ExportJ>)
       return std::make_pair(1, Jx_or_bool);
     else
-      return 1;
+      return std::make_pair(1, 1);
   } else {  // Matrix
     using std::exp;
     using Scalar = typename T::Scalar;
-- 
2.43.0


From 8d70095135d0020e370346281ed9289f693becf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:59 +0000
Subject: [PATCH 20/43] fix: compute the cosine distance and both of its
 jacobians

---
 include/tinyopt/distances.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/tinyopt/distances.h b/include/tinyopt/distances.h
index 0303056..4762598 100644
--- a/include/tinyopt/distances.h
+++ b/include/tinyopt/distances.h
@@ -67,24 +67,29 @@ auto Linf(const TA &a, const TB &b, const ExportJ &export_jac = nullptr) {
 /// Compute the cosine distance between `a` and `b`: d(a,b) = a ∠ b
 template <typename TA, typename TB, typename ExportJ = std::nullptr_t>
 auto Cosine(const TA &a, const TB &b, const ExportJ & = nullptr) {
-  if constexpr (traits::is_nullptr_v<ExportJ>) {
-    return TA(0);
-  } else if constexpr (traits::is_scalar_v<TA>) {
-    return std::make_tuple(TA(0), TA(0), TA(0));
+  if constexpr (traits::is_scalar_v<TA>) {
+    if constexpr (traits::is_nullptr_v<ExportJ>)
+      return TA(0);
+    else
+      return std::make_tuple(TA(0), TA(0), TA(0));
   } else {  // Vectors
     using Scalar = std::decay_t<typename TA::Scalar>;
-    constexpr double eps2 = FloatEpsilon2<Scalar>();
+    const Scalar eps2 = FloatEpsilon2<Scalar>();
     constexpr Index Dims = traits::params_trait<TA>::Dims;
     using Vec = RowVector<Scalar, Dims>;
-    const auto a_norm = a.norm();
-    const auto b_norm = b.norm();
-    if (a_norm * b_norm < eps2) {
-      return std::make_tuple(Scalar(0), Vec::Zero(a.size()), Vec::Zero(a.size()));
+    const Scalar a_norm = a.norm();
+    const Scalar b_norm = b.norm();
+    const bool is_null = a_norm * b_norm < eps2;
+    const Scalar ab = a.dot(b);
+    const Scalar d = is_null ? Scalar(0) : Scalar(ab / (a_norm * b_norm));
+    if constexpr (traits::is_nullptr_v<ExportJ>) {
+      return d;
     } else {
-      const auto ab = a.dot(b);
-      const auto d = (ab / (a_norm * b_norm));
-      Vec Ja = (b / (a_norm * b_norm)) - (ab * a / (a_norm * a_norm * a_norm * b_norm));
-      Vec Jb = (a / (a_norm * b_norm)) - (ab * b / (a_norm * b_norm * b_norm));
+      Vec Ja = Vec::Zero(a.size()), Jb = Vec::Zero(a.size());
+      if (!is_null) {
+        Ja = (b / (a_norm * b_norm)) - (ab * a / (a_norm * a_norm * a_norm * b_norm));
+        Jb = (a / (a_norm * b_norm)) - (ab * b / (a_norm * b_norm * b_norm * b_norm));
+      }
       return std::make_tuple(d, Ja, Jb);
     }
   }
-- 
2.43.0


From 7f07002ca5837f1e8ab2260700ad04960f31e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:59 +0000
Subject: [PATCH 21/43] fix: return the jacobians of the whitened residuals for
 triangular factors and dynamic sizes

---
 include/tinyopt/losses/mahalanobis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/losses/mahalanobis.h b/include/tinyopt/losses/mahalanobis.h
index d3067b0..145a742 100644
--- a/include/tinyopt/losses/mahalanobis.h
+++ b/include/tinyopt/losses/mahalanobis.h
@@ -147,7 +147,7 @@ auto MahaWhitened(const MatrixBase<Derived> &res, const Cov_t &cov_stevs,
       if constexpr (traits::is_nullptr_v<ExportJ>)
         return res2;
       else if constexpr (traits::is_bool_v<ExportJ>)
-        return std::make_pair(res2, (chol.matrixL().solve(Mat::Identity())).eval());
+        return std::make_pair(res2, (chol.matrixL().solve(Mat::Identity(cov.rows(), cov.cols()))).eval());
       else
         return std::make_pair(res2, (chol.matrixL().solve(Jx_or_bool)).eval());
 
@@ -166,7 +166,7 @@ auto MahaWhitenedInfoU(const MatrixBase<Derived> &res, const MatrixBase<DerivedC
   if constexpr (traits::is_nullptr_v<ExportJ>)
     return res2;
   else if constexpr (traits::is_bool_v<ExportJ>)
-    return std::make_pair(res2, U.eval());
+    return std::make_pair(res2, UU.toDenseMatrix().eval());
   else
     return std::make_pair(res2, (UU * Jx_or_bool).eval());
 }
-- 
2.43.0


From 42a21b3279750706edbe5bd10f8ec070440bda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:59 +0000
Subject: [PATCH 22/43] fix: refuse to invert or solve non positive 1x1 and
 sparse matrices

---
 include/tinyopt/math.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index ce90186..3aa7cdf 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -47,7 +47,7 @@ DenseInvCov(const MatrixBase<Derived> &m) {
   if constexpr (Derived::ColsAtCompileTime == 1) {
     return MatType(m.cwiseInverse().asDiagonal());
   } else if (m.cols() == 1) {
-    return MatType(m.inverse());  // un-protected here...
+    if (m(0, 0) > typename Derived::Scalar(0)) return MatType(m.cwiseInverse());
   } else if (m.cols() > 0) {
     const auto &chol = m.template selfadjointView<Upper>().ldlt();
     if (chol.info() == Eigen::Success && chol.isPositive())
@@ -127,6 +127,7 @@ std::optional<SparseMatrix<typename T::Scalar>> SparseInvCov(
     }
     if (solver.info() != Eigen::Success) return std::nullopt;
   }
+  if (solver.vectorD().minCoeff() < Scalar(0)) return std::nullopt;  // Not positive
   SparseMatrix<Scalar> I(m.rows(), m.cols());
   I.setIdentity();
   auto X = solver.solve(I);
@@ -270,6 +271,8 @@ std::optional<Vector<Scalar, RowsAtCompileTime>> SolveLDLT(
   solver.compute(A);
   if (solver.info() != Eigen::Success)  // Decomposition failed
     return std::nullopt;
+  if (solver.vectorD().size() > 0 && solver.vectorD().minCoeff() < Scalar(0))  // Not positive
+    return std::nullopt;
   auto X = solver.solve(b);
   if (solver.info() != Eigen::Success)  // Solving failed
     return std::nullopt;
-- 
2.43.0


From c24c71f0fd31b4dc08f8280643142cc597512bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:59 +0000
Subject: [PATCH 23/43] fix: do not throw when logging the standard deviation
 of a non invertible system

---
 include/tinyopt/solvers/gn.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index e0e3015..ba2f969 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -176,10 +176,13 @@ class SolverGN
   /// H being the damped Hessian H_ if use_damped == true (faster) or un-damped Hessian() (accurate)
   Scalar MaxStdDev(bool use_damped = true) const {
     const auto &H = use_damped ? H_ : Hessian();
+    const auto I = InvCov(H);
+    if (!I) return 0;
+    using std::sqrt;
     if constexpr (traits::is_sparse_matrix_v<H_t>)
-      return sqrt(InvCov(H).value().coeffs().maxCoeff());
+      return sqrt(I.value().coeffs().maxCoeff());
     else
-      return sqrt(InvCov(H).value().maxCoeff());
+      return sqrt(I.value().maxCoeff());
   }
 
   /// Latest Covariance estimate
-- 
2.43.0


From ec0b4f45cb125f9563a3b3d7ae5ba2053e5a7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:59 +0000
Subject: [PATCH 24/43] fix: differentiate matrices of residuals numerically

---
 include/tinyopt/diff/num_diff.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/diff/num_diff.h b/include/tinyopt/diff/num_diff.h
index 25f1f9f..821875b 100644
--- a/include/tinyopt/diff/num_diff.h
+++ b/include/tinyopt/diff/num_diff.h
@@ -119,7 +119,7 @@ auto NumEval(const X_t &x, const Func &f, const diff::Method &method = diff::Met
       if constexpr (std::is_scalar_v<ResType2>)
         J[r] = (res_plus - res) / h;
       else
-        J.col(r) = (res_plus.reshaped() - res) / h;
+        J.col(r) = (res_plus.reshaped() - res.reshaped()) / h;
     }
   }
   return std::make_pair(res, J);
@@ -206,7 +206,10 @@ auto CreateNumDiffFunc1(X_t &, const ResidualsFunc &residuals,
 
     if constexpr (HasGrad) {
       const auto J = EstimateNumJac(x, residuals, method, h);
-      grad = J.transpose() * res;
+      if constexpr (std::is_scalar_v<std::decay_t<decltype(res)>>)
+        grad = J.transpose() * res;
+      else
+        grad = J.transpose() * res.reshaped().matrix();
     }
 
     using ResType = typename std::decay_t<decltype(res)>;
@@ -293,7 +296,10 @@ auto CreateNumDiffFunc2(X_t &, const ResidualsFunc &residuals,
 
     if constexpr (HasGrad) {
       const auto J = EstimateNumJac(x, residuals, method, h);
-      grad = J.transpose() * res;
+      if constexpr (std::is_scalar_v<std::decay_t<decltype(res)>>)
+        grad = J.transpose() * res;
+      else
+        grad = J.transpose() * res.reshaped().matrix();
       if constexpr (HasH) H = J.transpose() * J;
     }
 
-- 
2.43.0


From 87895042a02982dd4b803ced7d33915e85a5094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:59 +0000
Subject: [PATCH 25/43] fix: normalize the cost evaluated by the gradient
 descent solver

---
 include/tinyopt/solvers/gd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/solvers/gd.h b/include/tinyopt/solvers/gd.h
index 5f42c8c..f997422 100644
--- a/include/tinyopt/solvers/gd.h
+++ b/include/tinyopt/solvers/gd.h
@@ -96,7 +96,7 @@ class SolverGD
   inline Scalar Evaluate(const X_t &x, const AccFunc &acc, bool save) {
     std::nullptr_t nul;
     const auto acc2 = GetAccFunc(acc);
-    const auto &cost = acc2(x, nul);
+    Cost cost = acc2(x, nul);
     this->NormalizeCost(cost);
     if (save) this->cost_ = cost;
     return cost.cost;
-- 
2.43.0


From a51ed811c911d89f0080cdf39eabc420b911bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:23 +0000
Subject: [PATCH 26/43] fix: never accept NaN derivatives in the gradient
 checkers

---
 include/tinyopt/diff/gradient_check.h | 4 ++--
 include/tinyopt/math.h                | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 8be968d..4f97014 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -94,7 +94,7 @@ inline bool CheckGradient(
   };
 
   const auto grad_num = EstimateNumJac(x, f, method, eps / 10.0f).transpose().eval();
-  const double max_dist = (grad_num - grad).cwiseAbs().maxCoeff();
+  const double max_dist = (grad_num - grad).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
   const bool is_within_tol = max_dist < eps;
   if (!is_within_tol && verbose)
     TINYOPT_LOG("Wrong gradient {:.3e}>eps. \nGradient:{}, Numerial Gradient:{}", max_dist, grad,
@@ -203,7 +203,7 @@ inline bool CheckResidualsGradient(
 
     double max_dist;
     if constexpr (DenseH)
-      max_dist = (H_num - H).cwiseAbs().maxCoeff();
+      max_dist = (H_num - H).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
     else {
       MaybeHessian_t H_num_sparse = H_num.sparseView();
       H_num_sparse.makeCompressed();
diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index 3aa7cdf..1942165 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <optional>
 
 #include <tinyopt/types.h>
@@ -346,6 +347,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
         }
       }
       T diff = std::abs(val1 - val2);
+      if (std::isnan(diff)) return diff;
       maxDiff = std::max(maxDiff, diff);
     }
   }
@@ -366,6 +368,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
       }
       if (!found) {  // if the element was not found in mat1
         T diff = std::abs(val1 - val2);
+        if (std::isnan(diff)) return diff;
         maxDiff = std::max(maxDiff, diff);
       }
     }
-- 
2.43.0


From 83a608a4a59f3132270d5e6baf518826d12c7d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:23 +0000
Subject: [PATCH 27/43] fix: do not step away from the point whose final cost
 was just checked

---
 include/tinyopt/optimizers/optimizer.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 37caa66..e60b8ce 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -270,17 +270,17 @@ class Optimizer_ {
       const auto t = tic();
       const auto &[success, maybe_dx] = Step(x, acc, out);
       bool eval_only = false;
+      // On the very last iteration, we only check that the final error is actually lower
+      const bool check_only = options_.check_final_cost && iter + 1 == max_iters;
 
       if (success) {  // Great, let's keep the good work
 
-        ptrait::PlusEq(x, maybe_dx.value());  // Move X by dX
-        last_dx = maybe_dx.value();
+        if (!check_only) {
+          ptrait::PlusEq(x, maybe_dx.value());  // Move X by dX
+          last_dx = maybe_dx.value();
+        }
         last_was_success = true;
 
-        // On the very last iteration, we check that the final error is actually
-        // lower
-        if (options_.check_final_cost && iter + 1 == max_iters) eval_only = true;
-
       } else {  // Failure to decrease error
 
         if (last_dx) {  // Roll-back
@@ -289,7 +289,7 @@ class Optimizer_ {
           else
             x = *best_x;
           last_dx.reset();
-        } else if (maybe_dx) {                  // We failed several times in a row so just
+        } else if (maybe_dx && !check_only) {   // We failed several times in a row so just
                                                 // evaluate the new x+dx
           ptrait::PlusEq(x, maybe_dx.value());  // Move X by dX
           last_dx = maybe_dx.value();
-- 
2.43.0


From 08876bde7a5b7654ab0b0a638985e60115238f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:49 +0000
Subject: [PATCH 28/43] fix: refuse to solve or invert systems holding NaNs

---
 include/tinyopt/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index 1942165..d555287 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -51,7 +51,7 @@ DenseInvCov(const MatrixBase<Derived> &m) {
     if (m(0, 0) > typename Derived::Scalar(0)) return MatType(m.cwiseInverse());
   } else if (m.cols() > 0) {
     const auto &chol = m.template selfadjointView<Upper>().ldlt();
-    if (chol.info() == Eigen::Success && chol.isPositive())
+    if (chol.info() == Eigen::Success && chol.isPositive() && !chol.vectorD().hasNaN())
       return chol.solve(MatType::Identity(m.rows(), m.cols()));
   }
   return std::nullopt;
@@ -128,7 +128,7 @@ std::optional<SparseMatrix<typename T::Scalar>> SparseInvCov(
     }
     if (solver.info() != Eigen::Success) return std::nullopt;
   }
-  if (solver.vectorD().minCoeff() < Scalar(0)) return std::nullopt;  // Not positive
+  if (!(solver.vectorD().array() >= Scalar(0)).all()) return std::nullopt;  // Not positive
   SparseMatrix<Scalar> I(m.rows(), m.cols());
   I.setIdentity();
   auto X = solver.solve(I);
@@ -235,7 +235,7 @@ template <typename Derived, typename Derived2>
 std::optional<Vector<typename Derived::Scalar, Derived::RowsAtCompileTime>> SolveLDLT(
     const MatrixBase<Derived> &A, const MatrixBase<Derived2> &b) {
   const auto &chol = A.template selfadjointView<Upper>().ldlt();
-  if (chol.info() == Eigen::Success && chol.isPositive()) {
+  if (chol.info() == Eigen::Success && chol.isPositive() && !chol.vectorD().hasNaN()) {
     return chol.solve(b);
   }
   return std::nullopt;
@@ -272,7 +272,7 @@ std::optional<Vector<Scalar, RowsAtCompileTime>> SolveLDLT(
   solver.compute(A);
   if (solver.info() != Eigen::Success)  // Decomposition failed
     return std::nullopt;
-  if (solver.vectorD().size() > 0 && solver.vectorD().minCoeff() < Scalar(0))  // Not positive
+  if (!(solver.vectorD().array() >= Scalar(0)).all())  // Not positive
     return std::nullopt;
   auto X = solver.solve(b);
   if (solver.info() != Eigen::Success)  // Solving failed
-- 
2.43.0


From 02701d42de10c0fce068a7c62797a19aa22f5cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:02 +0000
Subject: [PATCH 29/43] fix: refuse fixed-size 1x1 matrices that have no
 positive definite inverse

DenseInvCov inverted a fixed-size 1x1 matrix without looking at it, so a
negative or null value gave a negative or infinite covariance. It now goes
through the same factorization as every other size.
---
 include/tinyopt/math.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index d555287..ac0309b 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -45,9 +45,7 @@ std::optional<
 DenseInvCov(const MatrixBase<Derived> &m) {
   using MatType =
       Matrix<typename Derived::Scalar, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime>;
-  if constexpr (Derived::ColsAtCompileTime == 1) {
-    return MatType(m.cwiseInverse().asDiagonal());
-  } else if (m.cols() == 1) {
+  if (m.cols() == 1) {
     if (m(0, 0) > typename Derived::Scalar(0)) return MatType(m.cwiseInverse());
   } else if (m.cols() > 0) {
     const auto &chol = m.template selfadjointView<Upper>().ldlt();
-- 
2.43.0


From 15fe20446942f7c120a0261de5b97270e6336f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:02 +0000
Subject: [PATCH 30/43] fix: refuse covariances without a Cholesky factor in
 MahaWhitened

The factorization status was ignored, so an indefinite covariance gave an
arbitrary whitening instead of the exception MahaSquaredNorm throws.
---
 include/tinyopt/losses/mahalanobis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tinyopt/losses/mahalanobis.h b/include/tinyopt/losses/mahalanobis.h
index 145a742..01d4fac 100644
--- a/include/tinyopt/losses/mahalanobis.h
+++ b/include/tinyopt/losses/mahalanobis.h
@@ -141,6 +141,8 @@ auto MahaWhitened(const MatrixBase<Derived> &res, const Cov_t &cov_stevs,
       static constexpr Index Dims = Derived::RowsAtCompileTime;
       using Mat = Matrix<Scalar, Dims, Dims>;
       const auto chol = Eigen::SelfAdjointView<const Mat, Upper>(cov).llt();
+      if (chol.info() != Eigen::Success)
+        throw std::invalid_argument("Covariance is not invertible, make sure it is");
       const auto res2 = chol.matrixL().solve(res).eval();
 
       // Jacobian
-- 
2.43.0


From 06c3a7825e4116d8c1d70058fae5633f44a4e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:02 +0000
Subject: [PATCH 31/43] fix: make the (value, jacobian) pair form of the norms
 compile

The one-argument overloads call the two-argument ones, which are declared
further down and not found by name lookup at instantiation.
---
 include/tinyopt/losses/norms.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index ce2a749..5a9ac90 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -14,6 +14,16 @@ namespace tinyopt::losses {
  * @{
  */
 
+// Forward declarations, needed by the (x, Jx) pair variants
+template <typename T, typename ExportJ>
+auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true);
+template <typename T, typename ExportJ>
+auto L2(const T &x, const ExportJ &Jx_or_bool);
+template <typename T, typename ExportJ>
+auto L1(const T &x, const ExportJ &Jx_or_bool);
+template <typename T, typename ExportJ>
+auto Linf(const T &x, const ExportJ &Jx_or_bool);
+
 /// Return the squared L2 norm of a vector or scalar (a.k.a Sum of Squares)
 template <typename T>
 auto SquaredL2(const T &x) {
@@ -29,7 +39,7 @@ auto SquaredL2(const T &x) {
 
 /// Return the squared L2 norm of a vector or scalar and its jacobian  (x.t())
 template <typename T, typename ExportJ>
-auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true) {
+auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale) {
   constexpr bool IsMatrix = traits::is_matrix_or_array_v<T> || traits::is_sparse_matrix_v<T>;
   const auto l = SquaredL2(x);
   if constexpr (std::is_null_pointer_v<ExportJ>) {
-- 
2.43.0


From 8650cd21af2f6406ad914fd7dd04ec3e57508042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:02 +0000
Subject: [PATCH 32/43] fix: handle constants in hypot, fma, lerp and midpoint
 of dynamic Jets

A constant Jet of dynamic size has an empty derivative part. These functions
combined the derivative parts directly and asserted or wrote out of bounds.
---
 include/tinyopt/3rdparty/ceres/jet.h | 31 +++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index e8b1030..4ae8074 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -761,7 +761,10 @@ inline Jet<T, N> hypot(const Jet<T, N>& x, const Jet<T, N>& y) {
   // d/dx sqrt(x^2 + y^2) = 0.5 / sqrt(x^2 + y^2) * 2x = x / sqrt(x^2 + y^2)
   // d/dy sqrt(x^2 + y^2) = y / sqrt(x^2 + y^2)
   const T tmp = hypot(x.a, y.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  else  // the operators support empty infinitesimal parts
+    return Jet<T, N>(tmp, (x.a / tmp * x + y.a / tmp * y).v);
 }
 
 // Like sqrt(x^2 + y^2 + z^2),
@@ -781,7 +784,10 @@ inline Jet<T, N> hypot(const Jet<T, N>& x,
   // d/dy sqrt(x^2 + y^2 + z^2) = y / sqrt(x^2 + y^2 + z^2)
   // d/dz sqrt(x^2 + y^2 + z^2) = z / sqrt(x^2 + y^2 + z^2)
   const T tmp = hypot(x.a, y.a, z.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  else  // the operators support empty infinitesimal parts
+    return Jet<T, N>(tmp, (x.a / tmp * x + y.a / tmp * y + z.a / tmp * z).v);
 }
 
 // Like x * y + z but rounded only once.
@@ -792,7 +798,10 @@ inline Jet<T, N> fma(const Jet<T, N>& x,
   // d/dx fma(x, y, z) = y
   // d/dy fma(x, y, z) = x
   // d/dz fma(x, y, z) = 1
-  return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  else  // the operators support empty infinitesimal parts
+    return Jet<T, N>(fma(x.a, y.a, z.a), (y.a * x + x.a * y + z).v);
 }
 
 // Return value of fmax() and fmin() on equality
@@ -1188,8 +1197,11 @@ template <typename T, int N>
 inline Jet<T, N> lerp(const Jet<T, N>& a,
                       const Jet<T, N>& b,
                       const Jet<T, N>& t) {
-  return Jet<T, N>{lerp(a.a, b.a, t.a),
-                   (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>{lerp(a.a, b.a, t.a),
+                     (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  else  // the operators support empty infinitesimal parts
+    return Jet<T, N>{lerp(a.a, b.a, t.a), ((T(1) - t.a) * a + t.a * b + (b.a - a.a) * t).v};
 }
 
 // Computes the midpoint a + (b - a) / 2.
@@ -1207,9 +1219,12 @@ inline Jet<T, N> midpoint(const Jet<T, N>& a, const Jet<T, N>& b) {
   Jet<T, N> result{midpoint(a.a, b.a)};
   // To avoid overflow in the differential, compute
   // (da + db) / 2 using midpoint.
-  const int n = N != Eigen::Dynamic ? N : a.v.size();
-  for (int i = 0; i < n; ++i) {
-    result.v[i] = midpoint(a.v[i], b.v[i]);
+  if constexpr (N != Eigen::Dynamic) {
+    for (int i = 0; i < N; ++i) {
+      result.v[i] = midpoint(a.v[i], b.v[i]);
+    }
+  } else {  // the operators support empty infinitesimal parts
+    result.v = (T(0.5) * a + T(0.5) * b).v;
   }
   return result;
 }
-- 
2.43.0


From 47e715595859bdb0a69b7dd6b78f5d212cb1a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:02 +0000
Subject: [PATCH 33/43] fix: let CheckResidualsGradient take functions without
 a Hessian argument

The documented two-argument signature did not compile because the loss given
to CheckGradient always had three arguments.
---
 include/tinyopt/diff/gradient_check.h | 33 ++++++++++++---------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 4f97014..5695188 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -159,25 +159,22 @@ inline bool CheckResidualsGradient(
   const double s = downscale ? 0.5 : 1.0;
 
   // Apply L2
-  auto loss = [&](const X_t &x, auto &g, MaybeHessian_t &H) {
-    if constexpr (HasH) {
-      auto res = acc_res_func(x, g, H);
-
-      using ResidualsType = std::decay_t<decltype(res)>;
-      static_assert(!std::is_same_v<ResidualsType, Cost>,
-                    "The function must return residuals, not a cost");
-      return s * losses::SquaredL2(res);
-    } else {
-      auto res = acc_res_func(x, g);
-
-      using ResidualsType = std::decay_t<decltype(res)>;
-      static_assert(!std::is_same_v<ResidualsType, Cost>,
-                    "The function must return residuals, not a cost");
-
-      return s * losses::SquaredL2(res);
-    }
+  auto squared_l2 = [s](const auto &res) {
+    using ResidualsType = std::decay_t<decltype(res)>;
+    static_assert(!std::is_same_v<ResidualsType, Cost>,
+                  "The function must return residuals, not a cost");
+    return s * losses::SquaredL2(res);
   };
-  bool success = CheckGradient(x, loss, eps, method, verbose);
+  bool success;
+  if constexpr (HasH) {
+    auto loss = [&](const X_t &x, auto &g, MaybeHessian_t &H) {
+      return squared_l2(acc_res_func(x, g, H));
+    };
+    success = CheckGradient(x, loss, eps, method, verbose);
+  } else {
+    auto loss = [&](const X_t &x, auto &g) { return squared_l2(acc_res_func(x, g)); };
+    success = CheckGradient(x, loss, eps, method, verbose);
+  }
 
   // Also check the hessian approx Jt*J
   if constexpr (HasH) {
-- 
2.43.0


From bf5d424516aabc43f9be444ed469e926febaa56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:35 +0000
Subject: [PATCH 34/43] fix: do not require dims() from user-defined parameters
 of fixed size

A pair holding a user-defined parameter with a compile-time Dims did not
compile unless the type also had a dims() method.
---
 include/tinyopt/traits.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index 0ef9e06..ce0f54f 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -129,7 +129,12 @@ struct params_trait<T, std::void_t<decltype(T::Dims)>> {
   static constexpr Index Dims = T::Dims;  // Compile-time parameters dimensions
 
   // Execution-time parameters dimensions
-  static Index dims(const T& v) { return Dims == Dynamic ? v.dims() : Dims; }
+  static Index dims([[maybe_unused]] const T& v) {
+    if constexpr (Dims == Dynamic)
+      return v.dims();
+    else
+      return Dims;
+  }
 
   // Cast to a new type, only needed when using automatic differentiation
   template <typename T2>
-- 
2.43.0


From 49630d16ec277261d4a5c7b00aaca2b4a9abd518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:46 +0000
Subject: [PATCH 35/43] fix: print warnings and errors only when logging is
 enabled

---
 include/tinyopt/optimize.h             |  3 ++-
 include/tinyopt/optimizers/optimizer.h | 13 ++++++++-----
 include/tinyopt/solvers/gn.h           |  3 ++-
 include/tinyopt/solvers/lm.h           |  3 ++-
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/tinyopt/optimize.h b/include/tinyopt/optimize.h
index cbc55a8..0743112 100644
--- a/include/tinyopt/optimize.h
+++ b/include/tinyopt/optimize.h
@@ -71,7 +71,8 @@ inline Output Optimize(T &x, const Func &func, const Options &options = {}) {
         return optimizer(x, func);
       }
     default:
-      TINYOPT_LOG("❌ Error: Unknown solver type {}", (int)options.solver_type);
+      if (options.log.enable)
+        TINYOPT_LOG("❌ Error: Unknown solver type {}", (int)options.solver_type);
       throw std::invalid_argument("Error: Unknown solver type");
   }
 }
diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index e60b8ce..bd392dd 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -61,12 +61,14 @@ class Optimizer_ {
   std::variant<StopReason, bool> ResizeIfNeeded(X_t &x) {
     const Index dims = traits::DynDims(x);  // Dynamic size
     if (Dims == Dynamic && dims == 0) {
-      TINYOPT_LOG(
-          "❌ Error: Parameters dimensions cannot be 0 or Dynamic at "
-          "execution time");
+      if (options_.log.enable)
+        TINYOPT_LOG(
+            "❌ Error: Parameters dimensions cannot be 0 or Dynamic at "
+            "execution time");
       return StopReason::kSkipped;
     } else if (dims < 0) {
-      TINYOPT_LOG("❌ Error: Parameters dimensions is negative: {} ", dims);
+      if (options_.log.enable)
+        TINYOPT_LOG("❌ Error: Parameters dimensions is negative: {} ", dims);
       return StopReason::kSkipped;
     }
 
@@ -85,7 +87,8 @@ class Optimizer_ {
       }
       return StopReason::kOutOfMemory;
     } catch (const std::invalid_argument &e) {
-      TINYOPT_LOG("❌ Error: Failed to resize the linear solver. {}", e.what());
+      if (options_.log.enable)
+        TINYOPT_LOG("❌ Error: Failed to resize the linear solver. {}", e.what());
       return StopReason::kSkipped;
     }
     return resized;
diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index ba2f969..6ca6dd3 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -31,7 +31,8 @@ class SolverGN
   explicit SolverGN(const Options &options = {}) : Base(options) {
     // Sparse matrix must use LDLT
     if constexpr (traits::is_sparse_matrix_v<H_t>) {
-      if (!options.hessian.use_ldlt) TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
+      if (!options.hessian.use_ldlt && options.log.enable)
+        TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
     }
   }
 
diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index e9072e3..44e072b 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -37,7 +37,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   explicit SolverLM(const Options &options = {}) : Base(options), options_{options} {
     // Sparse matrix must use LDLT
     if constexpr (traits::is_sparse_matrix_v<H_t>) {
-      if (!options.hessian.use_ldlt) TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
+      if (!options.hessian.use_ldlt && options.log.enable)
+        TINYOPT_LOG("Warning: LDLT must be used with Sparse Matrices");
     }
     reset();
   }
-- 
2.43.0


From 3a0bebe0befac9616081c9e029c5882879b330ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:23 +0000
Subject: [PATCH 36/43] fix: keep the linear system valid when it cannot be
 allocated

Eigen frees the previous storage before allocating the new one. When the
allocation failed, the optimizer reported kOutOfMemory but then copied a
sparse Hessian without indices, and a dense one was freed twice.
Allocate the new system first, and do not save a Hessian when out of memory.
---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 include/tinyopt/solvers/gd.h           | 4 +++-
 include/tinyopt/solvers/gn.h           | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index bd392dd..16c4302 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -318,7 +318,7 @@ class Optimizer_ {
 
     // Copy the very last hessian
     if constexpr (SolverType::FirstOrder == 0) {
-      if (options_.hessian.save_last)
+      if (options_.hessian.save_last && out.stop_reason != StopReason::kOutOfMemory)
         out.final_hessian = solver_.Hessian().template cast<double>().eval();
     }
 
diff --git a/include/tinyopt/solvers/gd.h b/include/tinyopt/solvers/gd.h
index f997422..0d44913 100644
--- a/include/tinyopt/solvers/gd.h
+++ b/include/tinyopt/solvers/gd.h
@@ -41,7 +41,9 @@ class SolverGD
       throw std::invalid_argument("Dimensions cannot be Dynamic here");
     }
     if (grad_.rows() != dims) {
-      grad_.resize(dims);
+      // Allocate first so that the gradient stays valid if there's not enough memory
+      Grad_t grad(dims);
+      grad_.swap(grad);
       return true;
     } else {
       return false;
diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index 6ca6dd3..f8aa5bc 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -52,8 +52,11 @@ class SolverGN
       throw std::invalid_argument("Dimensions cannot be Dynamic here");
     }
     if (grad_.rows() != dims || H_.rows() != dims) {
-      H_.resize(dims, dims);
-      grad_.resize(dims);
+      // Allocate first so that the system stays valid if there's not enough memory
+      H_t H(dims, dims);
+      Grad_t grad(dims);
+      H_.swap(H);
+      grad_.swap(grad);
       return true;
     } else {
       return false;
-- 
2.43.0


From b7887e8ca269e440d9e2cd6e7e61966899856fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:57 +0000
Subject: [PATCH 37/43] fix: do not take the maximum of an empty sparse
 covariance

MaxStdDev() aborted when the inverse of a sparse Hessian had no stored
coefficient, e.g. for infinite Hessians with print_max_stdev.
---
 include/tinyopt/solvers/gn.h | 2 +-
 include/tinyopt/solvers/lm.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index f8aa5bc..6ba04f3 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -184,7 +184,7 @@ class SolverGN
     if (!I) return 0;
     using std::sqrt;
     if constexpr (traits::is_sparse_matrix_v<H_t>)
-      return sqrt(I.value().coeffs().maxCoeff());
+      return I.value().nonZeros() > 0 ? sqrt(I.value().coeffs().maxCoeff()) : 0;
     else
       return sqrt(I.value().maxCoeff());
   }
diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 44e072b..f9089bc 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -185,7 +185,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     if (!I) return 0;
     using std::sqrt;
     if constexpr (traits::is_sparse_matrix_v<H_t>)
-      return sqrt(I.value().coeffs().maxCoeff());
+      return I.value().nonZeros() > 0 ? sqrt(I.value().coeffs().maxCoeff()) : 0;
     else
       return sqrt(I.value().maxCoeff());
   }
-- 
2.43.0


From 5f5b27c607be3ef1cad82ec29c3dd7459452f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:12 +0000
Subject: [PATCH 38/43] fix: pass the parameter of two-argument losses in the
 right order for pairs

---
 include/tinyopt/losses/helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/helpers.h b/include/tinyopt/losses/helpers.h
index ec61cd4..d63f16e 100644
--- a/include/tinyopt/losses/helpers.h
+++ b/include/tinyopt/losses/helpers.h
@@ -67,7 +67,7 @@
   template <typename T, typename ParamType = float>                                               \
   auto name(const T &x, ParamType a) {                                                            \
     if constexpr (traits::is_pair_v<T>) {                                                         \
-      return name(x.first, x.second, a);                                                          \
+      return name(x.first, a, x.second);                                                          \
     } else {                                                                                      \
       constexpr bool IsMatrix = traits::is_matrix_or_array_v<T> || traits::is_sparse_matrix_v<T>; \
       if constexpr (IsMatrix) { /* matrix */                                                      \
-- 
2.43.0


From b82454953d29797169d7de90cb0134f9768bf43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:40:47 +0000
Subject: [PATCH 39/43] fix: size the derivatives of an integer power of a
 negative constant

A dual with a run-time number of derivatives had none allocated in this
branch of pow(T, Jet), so the loop wrote out of bounds.
---
 include/tinyopt/3rdparty/ceres/jet.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index 4ae8074..28b1d46 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -1297,6 +1297,7 @@ inline Jet<T, N> pow(T f, const Jet<T, N>& g) {
     if (f < 0 && g == floor(g.a)) {  // Handle case 3.
       result = Jet<T, N>(pow(f, g.a));
       const int n = N != Eigen::Dynamic ? N : g.v.size();
+      if constexpr (N == Eigen::Dynamic) result.v.setZero(n);
       for (int i = 0; i < n; i++) {
         if (fpclassify(g.v[i]) != FP_ZERO) {
           // Return a NaN when g.v != 0.
-- 
2.43.0


From b0f8e3c1a3552e113840a7aec7c7ceacdd20bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:23 +0000
Subject: [PATCH 40/43] fix: solve one-parameter systems with a small Hessian

Without LDLT, a single fixed-size parameter did not move when its Hessian
was below 1e-7 (1e-4 for float), and the run ended as if it had converged.
Only a Hessian that is not positive leaves the parameter where it is.
---
 include/tinyopt/solvers/gn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index 6ba04f3..59de2c6 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -160,7 +160,7 @@ class SolverGN
       if (dx_) return dx_;                                    // Hopefully not a copy...
     } else if constexpr (!traits::is_sparse_matrix_v<H_t>) {  // Use default inverse
       if constexpr (Dims == 1) {
-        if (H_(0, 0) > FloatEpsilon<Scalar>()) return -H_.inverse() * grad_;
+        if (!(H_(0, 0) <= Scalar(0))) return -grad_ / H_(0, 0);
         return Vector<Scalar, Dims>::Zero(grad_.size());
       } else
         return -H_.inverse() * grad_;
-- 
2.43.0


From 7aba8cad9f0634d431a40472c2405875bc057535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:34:02 +0000
Subject: [PATCH 41/43] fix: differentiate pairs that hold scalars
 automatically

---
 include/tinyopt/diff/jet_traits.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/jet_traits.h b/include/tinyopt/diff/jet_traits.h
index 7ed7374..addd8ff 100644
--- a/include/tinyopt/diff/jet_traits.h
+++ b/include/tinyopt/diff/jet_traits.h
@@ -60,7 +60,12 @@ struct params_trait<diff::Jet<_Scalar, N>> {
       return T2(v);  // use casting operator  by default
   }
   // Define update / manifold
-  static void PlusEq(T& v, const auto& delta) { v += delta; }
+  static void PlusEq(T& v, const auto& delta) {
+    if constexpr (requires { delta[0]; })
+      v += delta[0];
+    else
+      v += delta;
+  }
 };
 
 }  // namespace tinyopt::traits
-- 
2.43.0


From 8106238e0b7e489dd2b04e0d439dc113c363dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:36:21 +0000
Subject: [PATCH 42/43] fix: use the innermost scalar type of nested containers

---
 include/tinyopt/traits.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index ce0f54f..f32f401 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -223,13 +223,13 @@ struct params_trait<T, std::enable_if_t<is_sparse_matrix_v<T>>> {
 template <typename _Scalar>
 struct params_trait<std::vector<_Scalar>> {
   using T = typename std::vector<_Scalar>;
-  using Scalar = _Scalar;  // The scalar type
-  using ScalarParamsTraits = params_trait<Scalar>;
+  using ScalarParamsTraits = params_trait<_Scalar>;
+  using Scalar = typename ScalarParamsTraits::Scalar;  // The (innermost) scalar type
   static constexpr Index Dims = Dynamic;  // Compile-time parameters dimensions
   // Execution-time parameters dimensions
   static Index dims(const T& v) {
     constexpr int ScalarDims = ScalarParamsTraits::Dims;
-    if constexpr (std::is_scalar_v<Scalar> || ScalarDims == 1) {
+    if constexpr (std::is_scalar_v<_Scalar> || ScalarDims == 1) {
       return static_cast<int>(v.size());
     } else if constexpr (ScalarDims == Dynamic) {
       int d = 0;
@@ -243,7 +243,7 @@ struct params_trait<std::vector<_Scalar>> {
   template <typename T2>
   static auto cast(const T& v) {
     using Scalar2 =
-        std::decay_t<decltype(ScalarParamsTraits::template cast<T2>(std::declval<Scalar>()))>;
+        std::decay_t<decltype(ScalarParamsTraits::template cast<T2>(std::declval<_Scalar>()))>;
     std::vector<Scalar2> o;
     o.reserve(v.size());
     for (auto& x : v) o.emplace_back(ScalarParamsTraits::template cast<T2>(x));
@@ -253,7 +253,7 @@ struct params_trait<std::vector<_Scalar>> {
   static void PlusEq(T& v, const auto& delta) {
     [[maybe_unused]] Index offset = 0;  // only used with dynamically sized elements
     for (std::size_t i = 0; i < v.size(); ++i) {
-      if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
+      if constexpr (std::is_scalar_v<_Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
       else if constexpr (ScalarParamsTraits::Dims != Dynamic) {
         ScalarParamsTraits::PlusEq(
@@ -271,8 +271,8 @@ struct params_trait<std::vector<_Scalar>> {
 template <typename _Scalar, std::size_t N>
 struct params_trait<std::array<_Scalar, N>> {
   using T = typename std::array<_Scalar, N>;
-  using Scalar = _Scalar;  // The scalar type
-  using ScalarParamsTraits = params_trait<Scalar>;
+  using ScalarParamsTraits = params_trait<_Scalar>;
+  using Scalar = typename ScalarParamsTraits::Scalar;  // The (innermost) scalar type
   static constexpr Index Dims =
       ScalarParamsTraits::Dims == Dynamic
           ? Dynamic
@@ -280,7 +280,7 @@ struct params_trait<std::array<_Scalar, N>> {
   // Execution-time parameters dimensions
   static Index dims(const T& v) {
     constexpr int ScalarDims = ScalarParamsTraits::Dims;
-    if constexpr (std::is_scalar_v<Scalar> || ScalarDims == 1) {
+    if constexpr (std::is_scalar_v<_Scalar> || ScalarDims == 1) {
       return N;
     } else if constexpr (ScalarDims == Dynamic) {
       int d = 0;
@@ -295,7 +295,7 @@ struct params_trait<std::array<_Scalar, N>> {
   template <typename T2>
   static auto cast(const T& v) {
     using Scalar2 =
-        std::decay_t<decltype(ScalarParamsTraits::template cast<T2>(std::declval<Scalar>()))>;
+        std::decay_t<decltype(ScalarParamsTraits::template cast<T2>(std::declval<_Scalar>()))>;
     std::array<Scalar2, N> o;
     for (std::size_t i = 0; i < N; ++i) o[i] = ScalarParamsTraits::template cast<T2>(v[i]);
     return o;
@@ -304,7 +304,7 @@ struct params_trait<std::array<_Scalar, N>> {
   static void PlusEq(T& v, const auto& delta) {
     [[maybe_unused]] Index offset = 0;  // only used with dynamically sized elements
     for (std::size_t i = 0; i < N; ++i) {
-      if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
+      if constexpr (std::is_scalar_v<_Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
       else if constexpr (ScalarParamsTraits::Dims != Dynamic) {
         ScalarParamsTraits::PlusEq(
-- 
2.43.0


From b3f44af35b423df924e2e1c887a289a8a8b1040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:36:56 +0000
Subject: [PATCH 43/43] fix: increment containers of one-parameter elements

---
 include/tinyopt/traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index f32f401..68ea59b 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -253,7 +253,7 @@ struct params_trait<std::vector<_Scalar>> {
   static void PlusEq(T& v, const auto& delta) {
     [[maybe_unused]] Index offset = 0;  // only used with dynamically sized elements
     for (std::size_t i = 0; i < v.size(); ++i) {
-      if constexpr (std::is_scalar_v<_Scalar> || ScalarParamsTraits::Dims == 1)
+      if constexpr (ScalarParamsTraits::Dims == 1 && requires { v[i] += delta[i]; })
         v[i] += delta[i];
       else if constexpr (ScalarParamsTraits::Dims != Dynamic) {
         ScalarParamsTraits::PlusEq(
@@ -304,7 +304,7 @@ struct params_trait<std::array<_Scalar, N>> {
   static void PlusEq(T& v, const auto& delta) {
     [[maybe_unused]] Index offset = 0;  // only used with dynamically sized elements
     for (std::size_t i = 0; i < N; ++i) {
-      if constexpr (std::is_scalar_v<_Scalar> || ScalarParamsTraits::Dims == 1)
+      if constexpr (ScalarParamsTraits::Dims == 1 && requires { v[i] += delta[i]; })
         v[i] += delta[i];
       else if constexpr (ScalarParamsTraits::Dims != Dynamic) {
         ScalarParamsTraits::PlusEq(
-- 
2.43.0

