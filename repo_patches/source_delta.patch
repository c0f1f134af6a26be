From 521c7b09cb8060b913d5c52fe14ad0557d6a3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 01/16] fix: MpcData::gemvGT skipped the B' product for general
 scalings

---
 fbstab/components/mpc_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 0bed8c5..9a2face 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -191,6 +191,7 @@ void MpcData::gemvGT(const Eigen::VectorXd& x, double a, double b,
       ui.noalias() -= B.transpose() * vp1;
     } else {
       xi.noalias() += a * A.transpose().lazyProduct(vp1);
+      ui.noalias() += a * B.transpose().lazyProduct(vp1);
     }
   }
   // The i = N step of the recursion.
-- 
2.43.0


From e786b38d2c7be511618fe31085ef29c3f6aa10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 02/16] fix: DenseData products with b = 0 must not read y

---
 fbstab/components/dense_data.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/dense_data.cc b/fbstab/components/dense_data.cc
index 4dd3a1c..5fbe56a 100644
--- a/fbstab/components/dense_data.cc
+++ b/fbstab/components/dense_data.cc
@@ -11,27 +11,47 @@ using VectorXd = Eigen::VectorXd;
 
 void DenseData::gemvH(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * H_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * H_ * x;
+  } else {
+    *y = a * H_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvG(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * G_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_ * x;
+  } else {
+    *y = a * G_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvGT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * G_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_.transpose() * x;
+  } else {
+    *y = a * G_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * A_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_ * x;
+  } else {
+    *y = a * A_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvAT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * A_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_.transpose() * x;
+  } else {
+    *y = a * A_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::axpyf(double a, Eigen::VectorXd *y) const { *y += a * f_; }
-- 
2.43.0


From ab89a6f16246b039f3859235b7f758c39167f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 03/16] fix: a primal infeasibility certificate needs
 nonnegative duals

---
 fbstab/components/full_feasibility.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 33a766a..b190533 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -54,7 +54,7 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   }
 
   // The conditions for primal infeasibility are:
-  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)|
+  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)| and v >= 0 (to tol).
 
   // Compute p1 = infnorm(G'*l + A'*v).
   tz_.fill(0.0);
@@ -72,7 +72,7 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0)) {
+  if ((p1 <= tol * u) && (p2 < 0) && (x.v().minCoeff() >= -tol * u)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From d6739ec61218ee8fab48b64f69ea1070843bd635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 04/16] fix: Solve threw when the residual fell below
 inner_tol_min

---
 fbstab/fbstab_algorithm-impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index bc5ce42..f813640 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -177,7 +177,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
 
     // Update subproblem tolerance.
     inner_tol =
-        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min, Ek);
+        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,
+                        std::max(Ek, opts_.inner_tol_min));
 
     // Solve the proximal subproblem.
     xi_->Copy(*xk_);
-- 
2.43.0


From c70264610f0a5601389b24bddd256e56b2e73b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 05/16] fix: validated options could have inner_tol_min >
 inner_tol_max

---
 fbstab/fbstab_algorithm-impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index f813640..b897bfe 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -22,7 +22,8 @@ inline void AlgorithmParameters::ValidateOptions() {
   infeas_tol = std::max(infeas_tol, 1e-14);
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
-  inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
+  inner_tol_min =
+      tools::saturate(inner_tol_min, 1e-14, std::min(1e-2, inner_tol_max));
 
   max_newton_iters = std::max(max_newton_iters, 1);
   max_prox_iters = std::max(max_prox_iters, 1);
-- 
2.43.0


From 8ee7aa2b98d2785b8da75e8c038c8cd7030f11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 06/16] fix: iteration limit exits used the residual of an
 earlier point

---
 fbstab/fbstab_algorithm-impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index b897bfe..cc5941c 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -302,7 +302,9 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
   // Make duals non-negative.
   x->ProjectDuals();
 
-  return Eo;
+  // The returned residual must be that of the point that is handed back.
+  rk_->PenalizedNaturalResidual(*x);
+  return rk_->Norm();
 }
 
 // Helper functions *************************************
-- 
2.43.0


From 301f82efe4d2b34b3591295c8a9ec6dd9daf9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 07/16] fix: MpcData accepted vector sequences with several
 columns

---
 fbstab/components/mpc_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 9a2face..4b24455 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -321,7 +321,7 @@ void MpcData::ValidateInputs() const {
   if (S_.cols() != nx) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (q_.rows() != nx) {
+  if (q_.rows() != nx || q_.cols() != 1) {
     throw std::runtime_error("Size mismatch in q input to MpcData.");
   }
   if (E_.cols() != nx) {
@@ -333,7 +333,7 @@ void MpcData::ValidateInputs() const {
   if (B_.rows() != nx) {
     throw std::runtime_error("Size mismatch in B input to MpcData.");
   }
-  if (c_.rows() != nx) {
+  if (c_.rows() != nx || c_.cols() != 1) {
     throw std::runtime_error("Size mismatch in c input to MpcData.");
   }
 
@@ -344,7 +344,7 @@ void MpcData::ValidateInputs() const {
   if (S_.rows() != nu) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (r_.rows() != nu) {
+  if (r_.rows() != nu || r_.cols() != 1) {
     throw std::runtime_error("Size mismatch in r input to MpcData.");
   }
   if (L_.cols() != nu) {
@@ -358,7 +358,7 @@ void MpcData::ValidateInputs() const {
   if (L_.rows() != nc) {
     throw std::runtime_error("Size mismatch in L input to MpcData.");
   }
-  if (d_.rows() != nc) {
+  if (d_.rows() != nc || d_.cols() != 1) {
     throw std::runtime_error("Size mismatch in d input to MpcData.");
   }
 }
-- 
2.43.0


From bd4d818b35a77fc86cf26d2905333661f9dbcef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 08/16] fix: FBstabDense did not validate the size of the
 margin vector

---
 fbstab/fbstab_dense.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_dense.h b/fbstab/fbstab_dense.h
index 7e309c5..3c36fd8 100644
--- a/fbstab/fbstab_dense.h
+++ b/fbstab/fbstab_dense.h
@@ -172,7 +172,8 @@ class FBstabDense {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and data dimensions.");
     }
-    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size()) {
+    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
+        nv_ != x.y.size()) {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and initial guess "
           "dimensions.");
-- 
2.43.0


From 8b2350b4aeb9c64a7f92f9e63540b8bcabce895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 09/16] fix: FullResidual::Fill left the cached norms stale

---
 fbstab/components/full_residual.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 6c88ca5..de9a429 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -29,6 +29,9 @@ void FullResidual::Fill(double a) {
   z_.setConstant(a);
   l_.setConstant(a);
   v_.setConstant(a);
+  znorm_ = z_.norm();
+  lnorm_ = l_.norm();
+  vnorm_ = v_.norm();
 }
 
 void FullResidual::Negate() {
-- 
2.43.0


From 3a75759754e2b7dfe4be2686c447f60c244f5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 10/16] fix: DenseCholeskySolver used its sizes before
 validating them

---
 fbstab/components/dense_cholesky_solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 3e6bdda..f2f85e4 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -10,7 +10,7 @@
 namespace fbstab {
 
 DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
-    : ldlt_(nz + nl) {
+    : ldlt_(std::max(nz + nl, 0)) {
   if (nz <= 0 || nv <= 0 || nl < 0) {
     throw std::runtime_error(
         "In DenseCholeskySolver: nz and nv must be > 0 and nl >= 0");
-- 
2.43.0


From d8e8cd66d1df55907b483ff3e8e29169e059dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 11/16] fix: linear solvers skipped documented size and data
 checks

---
 fbstab/components/dense_cholesky_solver.cc |  3 ++-
 fbstab/components/riccati_linear_solver.cc | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index f2f85e4..b839fd7 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -36,7 +36,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must be the same size");
   }
-  if (xbar.nz_ != nz_ || xbar.nv_ != nv_) {
+  if (xbar.nz_ != nz_ || xbar.nl_ != nl_ || xbar.nv_ != nv_) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
@@ -92,6 +92,7 @@ bool DenseCholeskySolver::Solve(const FullResidual& r, FullVariable* x) const {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
+  NullDataCheck();
   const auto& A = data_->A_;
   const auto& b = data_->b_;
 
diff --git a/fbstab/components/riccati_linear_solver.cc b/fbstab/components/riccati_linear_solver.cc
index 8211cab..8149d0d 100644
--- a/fbstab/components/riccati_linear_solver.cc
+++ b/fbstab/components/riccati_linear_solver.cc
@@ -86,7 +86,10 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
         "In RiccatiLinearSolver::Initialize: sigma must be positive.");
   }
   NullDataCheck();
-  // TODO: Add size check with the linear solver as well!
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Initialize: x and *this size mismatch.");
+  }
 
   Eigen::Vector2d temp;
   for (int i = 0; i < nv_; i++) {
@@ -210,12 +213,19 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
 }
 
 bool RiccatiLinearSolver::Solve(const FullResidual& r, FullVariable* dx) const {
+  if (dx == nullptr) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: dx cannot be null.");
+  }
   if (!r.SameSize(*dx)) {
     throw std::runtime_error(
         "In RiccatiLinearSolver::Solve: r and dx size mismatch.");
   }
   NullDataCheck();
-  // TODO: Add size check against the *this
+  if (dx->nz_ != nz_ || dx->nl_ != nl_ || dx->nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: dx and *this size mismatch.");
+  }
 
   // Compute the post-elimination residual,
   // r1 = rz - A'*(rv./mus) and r2 = -rl.
-- 
2.43.0


From 331be7b7ec94046117866840baa9b2a9e75a911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 12/16] fix: residual and feasibility objects skipped
 documented checks

---
 fbstab/components/full_feasibility.cc | 4 ++++
 fbstab/components/full_residual.cc    | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index b190533..e26f5ec 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -25,6 +25,10 @@ FullFeasibility::FullFeasibility(int nz, int nl, int nv) {
 FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
     const FullVariable& x, double tol) {
   NullDataCheck();
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In FullFeasibility::CheckFeasibility: size mismatch.");
+  }
 
   // The conditions for dual-infeasibility are:
   // max(Az) <= 0 and f'*z < 0 and |Hz| <= tol * |z| and |Gz| <= tol*|z|
diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index de9a429..8e1c130 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -52,6 +52,14 @@ double FullResidual::Merit() const {
 void FullResidual::InnerResidual(const FullVariable& x,
                                  const FullVariable& xbar, double sigma) {
   NullDataCheck();
+  if (!x.SameSize(xbar) || !SameSize(x)) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: size mismatch.");
+  }
+  if (sigma <= 0) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: sigma must be positive.");
+  }
   // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
   z_.setConstant(0.0);
   data_->axpyf(1.0, &z_);
-- 
2.43.0


From c2ac551108bcadd6560736b172a24b21ff659579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 13/16] fix: DenseData dereferenced null inputs instead of
 throwing

---
 fbstab/components/dense_data.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index fd6451f..7f0cdb5 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <stdexcept>
 
 #include "fbstab/components/abstract_components.h"
 #include "tools/copyable_macros.h"
@@ -44,12 +45,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(H->data(), H->rows(), H->cols()),
-        G_(G->data(), G->rows(), G->cols()),
-        A_(A->data(), A->rows(), A->cols()),
-        f_(f->data(), f->size()),
-        h_(h->data(), h->size()),
-        b_(b->data(), b->size()) {
+      : H_(NonNull(H)->data(), H->rows(), H->cols()),
+        G_(NonNull(G)->data(), G->rows(), G->cols()),
+        A_(NonNull(A)->data(), A->rows(), A->cols()),
+        f_(NonNull(f)->data(), f->size()),
+        h_(NonNull(h)->data(), h->size()),
+        b_(NonNull(b)->data(), b->size()) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
@@ -122,6 +123,15 @@ class DenseData : public Data {
   const Eigen::Map<const Eigen::VectorXd> h_;
   const Eigen::Map<const Eigen::VectorXd> b_;
 
+  // Returns p, throws a runtime_error if it is null.
+  template <class T>
+  static const T* NonNull(const T* p) {
+    if (p == nullptr) {
+      throw std::runtime_error("In DenseData::DenseData: null input.");
+    }
+    return p;
+  }
+
   friend class DenseCholeskySolver;
 };
 
-- 
2.43.0


From 7a9517d491dd65feb3157d6c47dca7dfdf70e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 14/16] fix: DenseData null checks depended on argument
 evaluation order

---
 fbstab/components/dense_data.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index 7f0cdb5..a2db0c2 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -45,12 +45,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(NonNull(H)->data(), H->rows(), H->cols()),
-        G_(NonNull(G)->data(), G->rows(), G->cols()),
-        A_(NonNull(A)->data(), A->rows(), A->cols()),
-        f_(NonNull(f)->data(), f->size()),
-        h_(NonNull(h)->data(), h->size()),
-        b_(NonNull(b)->data(), b->size()) {
+      : H_(NonNull(H)->data(), NonNull(H)->rows(), NonNull(H)->cols()),
+        G_(NonNull(G)->data(), NonNull(G)->rows(), NonNull(G)->cols()),
+        A_(NonNull(A)->data(), NonNull(A)->rows(), NonNull(A)->cols()),
+        f_(NonNull(f)->data(), NonNull(f)->size()),
+        h_(NonNull(h)->data(), NonNull(h)->size()),
+        b_(NonNull(b)->data(), NonNull(b)->size()) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
-- 
2.43.0


From bf13b5707c5ce2cf873167f7cf719639715d20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 15/16] fix: DenseCholeskySolver overflowed on large negative
 sizes before rejecting them

---
 fbstab/components/dense_cholesky_solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index b839fd7..d8d44a8 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -10,7 +10,7 @@
 namespace fbstab {
 
 DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
-    : ldlt_(std::max(nz + nl, 0)) {
+    : ldlt_((nz > 0 && nl >= 0) ? nz + nl : 0) {
   if (nz <= 0 || nv <= 0 || nl < 0) {
     throw std::runtime_error(
         "In DenseCholeskySolver: nz and nv must be > 0 and nl >= 0");
-- 
2.43.0


From 8cd2f1607bf6ca98fef0460cb9a621a0bc84841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 16/16] fix: a loose stall tolerance reported SUCCESS before
 any proximal step

---
 fbstab/fbstab_algorithm-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index cc5941c..ce547d7 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -159,10 +159,10 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
   for (int k = 0; k < opts_.max_prox_iters; k++) {
     // The solver stops if:
     // a) ||rk|| <= abs_tol + rel_tol*(1 + ||w||)
-    // b) ||x(k) - x(k-1)|| <= stall_tol
+    // b) ||x(k) - x(k-1)|| <= stall_tol (once a proximal step has been made)
     rk_->PenalizedNaturalResidual(*xk_);
     Ek = rk_->Norm();
-    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {
+    if (Ek <= combo_tol_ || (k > 0 && dx_->Norm() <= opts_.stall_tol)) {
       PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
       SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                        newton_iters_, *rk_, start_time, E0, os);
-- 
2.43.0

