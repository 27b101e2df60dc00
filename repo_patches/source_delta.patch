From 144fe8b84d5eaff701d97ff3ffd19b97eca568db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 01/46] fix: LQR models cached in the model which data object
 had been initialised

The updated_lqr_ flag lived in the model and was cleared by the first data
object that was differentiated, so every other data object sharing the model
kept the matrices of the previous set_LQR (and the terminal calcDiff could
hide the update from the running one).
---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 48 ++++++++-------------
 include/crocoddyl/core/actions/lqr.hpp      |  1 -
 include/crocoddyl/core/actions/lqr.hxx      | 43 +++++++-----------
 4 files changed, 34 insertions(+), 59 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..dbb7101 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,16 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +201,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +452,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..0efea1d 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..c8bcba7 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,15 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +194,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +425,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 53aa674cc73a6730cc39842163a6079a86de69b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 02/46] fix: weighted quadratic activation updated the Hessian
 of one data object only

The new_weights_ flag lived in the model and was cleared by the first data
object, so every other data object kept the Hessian of the old weights.
---
 .../core/activations/weighted-quadratic.hpp   | 22 ++-----------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..0752581 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,25 +56,13 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
     std::shared_ptr<Data> data =
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
-
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +82,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +98,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From 5333390f45a01285f3c4236f03a129c4d7086501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 03/46] fix: BoxDDP marked a candidate feasible whose rollout
 kept the terminal gap

---
 src/core/solvers/box-ddp.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..39bc580 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -153,12 +153,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-  if ((is_feasible_) || (steplength == 1)) {
-    xs_try_.back() = xnext_;
-  } else {
-    m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
-                              xs_try_.back());
-  }
+  xs_try_.back() = xnext_;
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
 
-- 
2.43.0


From bb5bda1a3607c5b41c8133457c7e7051f1b93594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 04/46] fix: SolverKKT judged a new solve by the feasibility of
 the previous one

---
 src/core/solvers/kkt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d922f4b..04f7208 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -38,6 +38,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     while (true) {
-- 
2.43.0


From d1f173b114392b5756f8006c7b685fb5dfadbee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 05/46] fix: a zero regularization could never be increased

---
 src/core/solvers/ddp.cpp | 3 +++
 src/core/solvers/kkt.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..e343ab4 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -397,6 +397,9 @@ void SolverDDP::computeGains(const std::size_t t) {
 
 void SolverDDP::increaseRegularization() {
   preg_ *= reg_incfactor_;
+  if (preg_ < reg_min_) {
+    preg_ = reg_min_;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 04f7208..6241e87 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -254,6 +254,9 @@ void SolverKKT::computePrimalDual() {
 
 void SolverKKT::increaseRegularization() {
   preg_ *= reg_incfactor_;
+  if (preg_ < reg_min_) {
+    preg_ = reg_min_;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 0226d7be1bdee9edc461764a3eec6bb9b322413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 06/46] fix: SolverKKT retried a failed direction forever and
 then kept stale derivatives

---
 src/core/solvers/kkt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 6241e87..bbef83e 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -46,6 +46,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
         computeDirection(recalc);
       } catch (std::exception& e) {
         recalc = false;
+        increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
         } else {
@@ -69,6 +70,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
         was_feasible_ = is_feasible_;
         setCandidate(xs_try_, us_try_, true);
         cost_ = cost_try_;
+        recalc = true;
         break;
       }
     }
-- 
2.43.0


From e7eb8e04f5ff9f530d1fa2b25fdb26daaee0de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 07/46] fix: SolverKKT accepted directions and steps with
 diverged values

---
 src/core/solvers/kkt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index bbef83e..4fb3b6e 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -135,6 +135,9 @@ double SolverKKT::tryStep(const double steplength) {
   const std::shared_ptr<ActionModelAbstract> m = problem_->get_terminalModel();
   m->get_state()->integrate(xs_[T], steplength * dxs_[T], xs_try_[T]);
   cost_try_ = problem_->calc(xs_try_, us_try_);
+  if (raiseIfNaN(cost_try_)) {
+    throw_pretty("step_error");
+  }
   return cost_ - cost_try_;
 }
 
@@ -250,6 +253,9 @@ double SolverKKT::calcDiff() {
 
 void SolverKKT::computePrimalDual() {
   primaldual_ = kkt_.lu().solve(-kktref_);
+  if (raiseIfNaN(primaldual_.lpNorm<Eigen::Infinity>())) {
+    throw_pretty("primaldual_error");
+  }
   primal_ = primaldual_.segment(0, ndx_ + nu_);
   dual_ = primaldual_.segment(ndx_ + nu_, ndx_);
 }
-- 
2.43.0


From 5a8a0f09dcaaecda5c9ca48046e912157f84e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 08/46] fix: inequality feasibility summed the infinity norm
 and maximised the one norm

---
 src/core/solver-base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..2039e51 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -147,8 +147,9 @@ double SolverAbstract::computeInequalityFeasibility() {
             problem_->get_terminalData()
                 ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
                 .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+        tmp_feas_ = std::max(tmp_feas_,
+                             (problem_->get_terminalData()->g - g_adj_.back())
+                                 .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
@@ -157,8 +158,7 @@ double SolverAbstract::computeInequalityFeasibility() {
           g_adj_[t] = datas[t]
                           ->g.cwiseMax(models[t]->get_g_lb())
                           .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
-- 
2.43.0


From ff5ef1bd8d4d58fe4882416d0fafb1c08a4d6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:23 +0000
Subject: [PATCH 09/46] fix: set_runningModels read the models it had just
 cleared

---
 include/crocoddyl/core/optctrl/shooting.hxx | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..e618667 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -459,7 +459,9 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  const std::size_t T = models.size();
+  std::vector<std::shared_ptr<ActionDataAbstract> > datas;
+  for (std::size_t i = 0; i < T; ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -471,16 +473,12 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
                    << "ndx in " << i
                    << " node is not consistent with the other nodes")
     }
+    datas.push_back(model->createData());
   }
   is_updated_ = true;
-  T_ = models.size();
-  running_models_.clear();
-  running_datas_.clear();
-  for (std::size_t i = 0; i < T_; ++i) {
-    const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
-    running_models_.push_back(model);
-    running_datas_.push_back(model->createData());
-  }
+  T_ = T;
+  running_models_ = models;
+  running_datas_ = datas;
 }
 
 template <typename Scalar>
-- 
2.43.0


From df387ecdb548063a9c4a4127b35268f963ce29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 10/46] fix: a problem built with its data did not check the
 terminal state dimensions

---
 include/crocoddyl/core/optctrl/shooting.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index e618667..8d549eb 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -110,6 +110,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
-- 
2.43.0


From 8249d4e820d978ecfd8b1b0d8860fd467bddf742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:12 +0000
Subject: [PATCH 11/46] fix: profiled sections left open by early returns and
 exceptions

---
 src/core/solvers/box-ddp.cpp | 4 +++-
 src/core/solvers/ddp.cpp     | 3 +++
 src/core/solvers/fddp.cpp    | 1 +
 src/core/solvers/intro.cpp   | 3 +++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 39bc580..432b044 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -72,6 +72,7 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
         !is_feasible_) {
       // No control limits on this model: Use vanilla DDP
       SolverDDP::computeGains(t);
+      STOP_PROFILER("SolverBoxDDP::computeGains");
       return;
     }
 
@@ -81,7 +82,7 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     START_PROFILER("SolverBoxDDP::boxQP");
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
-    START_PROFILER("SolverBoxDDP::boxQP");
+    STOP_PROFILER("SolverBoxDDP::boxQP");
 
     // Compute controls
     START_PROFILER("SolverBoxDDP::Quu_invproj");
@@ -161,6 +162,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
     STOP_PROFILER("SolverBoxDDP::forwardPass");
     throw_pretty("forward_error");
   }
+  STOP_PROFILER("SolverBoxDDP::forwardPass");
 }
 
 const std::vector<Eigen::MatrixXd>& SolverBoxDDP::get_Quu_inv() const {
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index e343ab4..76ad536 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -68,6 +68,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverDDP::solve");
           return false;
         } else {
           continue;
@@ -241,9 +242,11 @@ void SolverDDP::backwardPass() {
     computeValueFunction(t, m);
 
     if (raiseIfNaN(Vx_[t].lpNorm<Eigen::Infinity>())) {
+      STOP_PROFILER("SolverDDP::backwardPass");
       throw_pretty("backward_error");
     }
     if (raiseIfNaN(Vxx_[t].lpNorm<Eigen::Infinity>())) {
+      STOP_PROFILER("SolverDDP::backwardPass");
       throw_pretty("backward_error");
     }
   }
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 6864abf..66ff526 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -50,6 +50,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverFDDP::solve");
           return false;
         } else {
           continue;
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..e7e446b 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -100,6 +100,7 @@ bool SolverIntro::solve(const std::vector<Eigen::VectorXd>& init_xs,
         recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
+          STOP_PROFILER("SolverIntro::solve");
           return false;
         } else {
           continue;
@@ -351,6 +352,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         STOP_PROFILER("SolverIntro::Qzz_inv");
         const Eigen::ComputationInfo& info = Qzz_llt_[t].info();
         if (info != Eigen::Success) {
+          STOP_PROFILER("SolverIntro::computeGains");
           throw_pretty("backward error");
         }
 
@@ -382,6 +384,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         STOP_PROFILER("SolverIntro::Qzz_inv");
         const Eigen::ComputationInfo& info = Qzz_llt_[t].info();
         if (info != Eigen::Success) {
+          STOP_PROFILER("SolverIntro::computeGains");
           throw_pretty("backward error");
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
-- 
2.43.0


From fa1a98ba768fd58ee218c4cf7baaf66e9b790479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 12/46] fix: a rejected warm start had already replaced the
 state trajectory

---
 src/core/solver-base.cpp | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2039e51..a493e82 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -216,13 +216,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
 
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  if (xs_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      xs_[t] = model->get_state()->zero();
-    }
-    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
-  } else {
+  // Validate everything before storing anything
+  if (xs_warm.size() != 0) {
     if (xs_warm.size() != T + 1) {
       throw_pretty("Warm start state vector has wrong dimension, got "
                    << xs_warm.size() << " expecting " << (T + 1));
@@ -249,16 +244,8 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                           std::to_string(nx) + "). ActionModel: "
                    << *problem_->get_terminalModel());
     }
-    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
   }
-
-  if (us_warm.size() == 0) {
-    for (std::size_t t = 0; t < T; ++t) {
-      const std::shared_ptr<ActionModelAbstract>& model = models[t];
-      const std::size_t nu = model->get_nu();
-      us_[t] = Eigen::VectorXd::Zero(nu);
-    }
-  } else {
+  if (us_warm.size() != 0) {
     if (us_warm.size() != T) {
       throw_pretty("Warm start control has wrong dimension, got "
                    << us_warm.size() << " expecting " << T);
@@ -276,6 +263,24 @@ void SolverAbstract::setCandidate(const std::vector<Eigen::VectorXd>& xs_warm,
                      << *model);
       }
     }
+  }
+
+  if (xs_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      xs_[t] = model->get_state()->zero();
+    }
+    xs_.back() = problem_->get_terminalModel()->get_state()->zero();
+  } else {
+    std::copy(xs_warm.begin(), xs_warm.end(), xs_.begin());
+  }
+  if (us_warm.size() == 0) {
+    for (std::size_t t = 0; t < T; ++t) {
+      const std::shared_ptr<ActionModelAbstract>& model = models[t];
+      const std::size_t nu = model->get_nu();
+      us_[t] = Eigen::VectorXd::Zero(nu);
+    }
+  } else {
     std::copy(us_warm.begin(), us_warm.end(), us_.begin());
   }
   is_feasible_ = is_feasible;
-- 
2.43.0


From 59d13fd9efb2ef42c70ef3d516c80e6e644f57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 13/46] fix: set_alpha of the barrier and flat activations
 accepted negative values

---
 include/crocoddyl/core/activations/2norm-barrier.hpp      | 7 ++++++-
 include/crocoddyl/core/activations/quadratic-flat-exp.hpp | 7 ++++++-
 include/crocoddyl/core/activations/quadratic-flat-log.hpp | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/activations/2norm-barrier.hpp b/include/crocoddyl/core/activations/2norm-barrier.hpp
index 7af172b..c25c6db 100644
--- a/include/crocoddyl/core/activations/2norm-barrier.hpp
+++ b/include/crocoddyl/core/activations/2norm-barrier.hpp
@@ -144,7 +144,12 @@ class ActivationModel2NormBarrierTpl
    * @brief Get and set the threshold factor
    */
   const Scalar& get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar& alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar& alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the 2-norm barrier model
diff --git a/include/crocoddyl/core/activations/quadratic-flat-exp.hpp b/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
index f03653f..dd6eef4 100644
--- a/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
+++ b/include/crocoddyl/core/activations/quadratic-flat-exp.hpp
@@ -122,7 +122,12 @@ class ActivationModelQuadFlatExpTpl
   }
 
   Scalar get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the quadratic flat-exp model
diff --git a/include/crocoddyl/core/activations/quadratic-flat-log.hpp b/include/crocoddyl/core/activations/quadratic-flat-log.hpp
index 4f4c19c..67b3429 100644
--- a/include/crocoddyl/core/activations/quadratic-flat-log.hpp
+++ b/include/crocoddyl/core/activations/quadratic-flat-log.hpp
@@ -120,7 +120,12 @@ class ActivationModelQuadFlatLogTpl
   }
 
   Scalar get_alpha() const { return alpha_; };
-  void set_alpha(const Scalar alpha) { alpha_ = alpha; };
+  void set_alpha(const Scalar alpha) {
+    if (alpha < Scalar(0.)) {
+      throw_pretty("Invalid argument: " << "alpha should be a positive value");
+    }
+    alpha_ = alpha;
+  };
 
   /**
    * @brief Print relevant information of the quadratic flat-log model
-- 
2.43.0


From 0c90ba24e381c321983276d6a5e96b2badde6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 14/46] fix: the box QP accepted any acceptance threshold

---
 src/core/solvers/box-qp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..092d3cc 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -28,7 +28,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       qo_(nx),
       Ho_(nx, nx) {
   // Check if values have a proper range
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     std::cerr << "Warning: th_acceptstep value should between 0 and 0.5"
               << std::endl;
   }
@@ -217,7 +217,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
-- 
2.43.0


From 9a9d664d6ad74e9ea851957b9826afe7c04050bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 15/46] fix: set_alphas read an empty list and never checked
 its first value

---
 src/core/solvers/box-qp.cpp | 6 ++++++
 src/core/solvers/ddp.cpp    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 092d3cc..6382655 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -239,7 +239,13 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas has to have one value at least.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 76ad536..f5dce83 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -570,7 +570,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas has to have one value at least.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From dce6e25e70fc592c7192c82885355be4c49e2c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 16/46] fix: a copied or data-built shooting problem left its
 update flag and thread count undefined

---
 include/crocoddyl/core/optctrl/shooting.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 8d549eb..8168a74 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -144,7 +145,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(problem.is_updated_) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From a7d878ef0e65dd1daf46cbeea0740c68aafa4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 17/46] fix: a joint-effort residual built without reference
 left its dynamics flag undefined

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..29c0824 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -57,7 +57,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From 8fa6fc1fe24ec5e5ce2cc3180c09e680e7fc702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 18/46] fix: solvers started with undefined state and control
 regularizations

---
 src/core/solver-base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index a493e82..1c5dbd5 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -36,6 +36,8 @@ SolverAbstract::SolverAbstract(std::shared_ptr<ShootingProblem> problem)
       hfeas_try_(0.),
       preg_(0.),
       dreg_(0.),
+      xreg_(0.),
+      ureg_(0.),
       steplength_(1.),
       th_acceptstep_(0.1),
       th_stop_(1e-9),
-- 
2.43.0


From 00b684ce72081fbf7a828d641b882933af905a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 19/46] fix: the box QP and the Ipopt interface left counters
 and cost undefined

---
 src/core/solvers/box-qp.cpp            | 2 ++
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 6382655..88fe4dd 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -19,6 +19,8 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       reg_(reg),
       fold_(0.),
       fnew_(0.),
+      nf_(0),
+      nc_(0),
       x_(nx),
       xnew_(nx),
       g_(nx),
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..9bd0536 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -13,7 +13,7 @@
 namespace crocoddyl {
 
 IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
-    : problem_(problem) {
+    : problem_(problem), cost_(0.) {
   const std::size_t T = problem_->get_T();
   xs_.resize(T + 1);
   us_.resize(T);
-- 
2.43.0


From d41254cc0b75682b6423b7623d037b8cce7ec475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 20/46] fix: numerical-differentiation data left its step sizes
 undefined

---
 include/crocoddyl/core/numdiff/action.hpp      | 8 ++++++++
 include/crocoddyl/core/numdiff/actuation.hpp   | 3 +++
 include/crocoddyl/core/numdiff/constraint.hpp  | 3 +++
 include/crocoddyl/core/numdiff/cost.hpp        | 3 +++
 include/crocoddyl/core/numdiff/diff-action.hpp | 8 ++++++++
 include/crocoddyl/core/numdiff/residual.hpp    | 3 +++
 6 files changed, 28 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hpp b/include/crocoddyl/core/numdiff/action.hpp
index 43ab73d..a70f132 100644
--- a/include/crocoddyl/core/numdiff/action.hpp
+++ b/include/crocoddyl/core/numdiff/action.hpp
@@ -201,6 +201,14 @@ struct ActionDataNumDiffTpl : public ActionDataAbstractTpl<_Scalar> {
   template <template <typename Scalar> class Model>
   explicit ActionDataNumDiffTpl(Model<Scalar>* const model)
       : Base(model),
+        x_norm(Scalar(0.)),
+        xh_jac(Scalar(0.)),
+        uh_jac(Scalar(0.)),
+        xh_hess(Scalar(0.)),
+        uh_hess(Scalar(0.)),
+        xh_hess_pow2(Scalar(0.)),
+        uh_hess_pow2(Scalar(0.)),
+        xuh_hess_pow2(Scalar(0.)),
         Rx(model->get_model()->get_nr(),
            model->get_model()->get_state()->get_ndx()),
         Ru(model->get_model()->get_nr(), model->get_model()->get_nu()),
diff --git a/include/crocoddyl/core/numdiff/actuation.hpp b/include/crocoddyl/core/numdiff/actuation.hpp
index 08a4ab5..356b896 100644
--- a/include/crocoddyl/core/numdiff/actuation.hpp
+++ b/include/crocoddyl/core/numdiff/actuation.hpp
@@ -151,6 +151,9 @@ struct ActuationDataNumDiffTpl : public ActuationDataAbstractTpl<_Scalar> {
   template <template <typename Scalar> class Model>
   explicit ActuationDataNumDiffTpl(Model<Scalar>* const model)
       : Base(model),
+        x_norm(Scalar(0.)),
+        xh_jac(Scalar(0.)),
+        uh_jac(Scalar(0.)),
         dx(model->get_model()->get_state()->get_ndx()),
         du(model->get_model()->get_nu()),
         xp(model->get_model()->get_state()->get_nx()) {
diff --git a/include/crocoddyl/core/numdiff/constraint.hpp b/include/crocoddyl/core/numdiff/constraint.hpp
index eccd5d9..2da67f1 100644
--- a/include/crocoddyl/core/numdiff/constraint.hpp
+++ b/include/crocoddyl/core/numdiff/constraint.hpp
@@ -167,6 +167,9 @@ struct ConstraintDataNumDiffTpl : public ConstraintDataAbstractTpl<_Scalar> {
   explicit ConstraintDataNumDiffTpl(Model<Scalar>* const model,
                                     DataCollectorAbstract* const shared_data)
       : Base(model, shared_data),
+        x_norm(Scalar(0.)),
+        xh_jac(Scalar(0.)),
+        uh_jac(Scalar(0.)),
         dx(model->get_state()->get_ndx()),
         xp(model->get_state()->get_nx()),
         du(model->get_nu()),
diff --git a/include/crocoddyl/core/numdiff/cost.hpp b/include/crocoddyl/core/numdiff/cost.hpp
index 842d0d8..6f15d6f 100644
--- a/include/crocoddyl/core/numdiff/cost.hpp
+++ b/include/crocoddyl/core/numdiff/cost.hpp
@@ -190,6 +190,9 @@ struct CostDataNumDiffTpl : public CostDataAbstractTpl<_Scalar> {
   explicit CostDataNumDiffTpl(Model<Scalar>* const model,
                               DataCollectorAbstract* const shared_data)
       : Base(model, shared_data),
+        x_norm(Scalar(0.)),
+        xh_jac(Scalar(0.)),
+        uh_jac(Scalar(0.)),
         dx(model->get_state()->get_ndx()),
         xp(model->get_state()->get_nx()),
         du(model->get_nu()),
diff --git a/include/crocoddyl/core/numdiff/diff-action.hpp b/include/crocoddyl/core/numdiff/diff-action.hpp
index d65ef6a..c0501ee 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hpp
+++ b/include/crocoddyl/core/numdiff/diff-action.hpp
@@ -196,6 +196,14 @@ struct DifferentialActionDataNumDiffTpl
   template <template <typename Scalar> class Model>
   explicit DifferentialActionDataNumDiffTpl(Model<Scalar>* const model)
       : Base(model),
+        x_norm(Scalar(0.)),
+        xh_jac(Scalar(0.)),
+        uh_jac(Scalar(0.)),
+        xh_hess(Scalar(0.)),
+        uh_hess(Scalar(0.)),
+        xh_hess_pow2(Scalar(0.)),
+        uh_hess_pow2(Scalar(0.)),
+        xuh_hess_pow2(Scalar(0.)),
         Rx(model->get_model()->get_nr(),
            model->get_model()->get_state()->get_ndx()),
         Ru(model->get_model()->get_nr(), model->get_model()->get_nu()),
diff --git a/include/crocoddyl/core/numdiff/residual.hpp b/include/crocoddyl/core/numdiff/residual.hpp
index 4ce1170..fb6f843 100644
--- a/include/crocoddyl/core/numdiff/residual.hpp
+++ b/include/crocoddyl/core/numdiff/residual.hpp
@@ -167,6 +167,9 @@ struct ResidualDataNumDiffTpl : public ResidualDataAbstractTpl<_Scalar> {
   explicit ResidualDataNumDiffTpl(Model<Scalar>* const model,
                                   DataCollectorAbstract* const shared_data)
       : Base(model, shared_data),
+        x_norm(Scalar(0.)),
+        xh_jac(Scalar(0.)),
+        uh_jac(Scalar(0.)),
         dx(model->get_state()->get_ndx()),
         xp(model->get_state()->get_nx()),
         du(model->get_nu()),
-- 
2.43.0


From 6b71d811eda3eb20ea1ee69cff4222b13bae228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 21/46] fix: default constructors of models, states and
 registry items left members undefined

---
 include/crocoddyl/core/action-base.hpp                |  9 ++++++++-
 include/crocoddyl/core/constraint-base.hpp            | 10 +++++++++-
 .../crocoddyl/core/constraints/constraint-manager.hpp |  2 +-
 include/crocoddyl/core/costs/cost-sum.hpp             |  2 +-
 include/crocoddyl/core/diff-action-base.hpp           | 11 ++++++++++-
 include/crocoddyl/core/diff-action-base.hxx           |  4 +++-
 include/crocoddyl/core/state-base.hxx                 |  2 ++
 7 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/crocoddyl/core/action-base.hpp b/include/crocoddyl/core/action-base.hpp
index d72f2dd..4fa0608 100644
--- a/include/crocoddyl/core/action-base.hpp
+++ b/include/crocoddyl/core/action-base.hpp
@@ -340,7 +340,14 @@ class ActionModelAbstractTpl : public ActionModelBase {
   bool has_control_limits_;  //!< Indicates whether any of the control limits is
                              //!< finite
   ActionModelAbstractTpl()
-      : nu_(0), nr_(0), ng_(0), nh_(0), ng_T_(0), nh_T_(0), state_(nullptr) {}
+      : nu_(0),
+        nr_(0),
+        ng_(0),
+        nh_(0),
+        ng_T_(0),
+        nh_T_(0),
+        state_(nullptr),
+        has_control_limits_(false) {}
 
   /**
    * @brief Update the status of the control limits (i.e. if there are defined
diff --git a/include/crocoddyl/core/constraint-base.hpp b/include/crocoddyl/core/constraint-base.hpp
index d8ff238..56f56ca 100644
--- a/include/crocoddyl/core/constraint-base.hpp
+++ b/include/crocoddyl/core/constraint-base.hpp
@@ -262,7 +262,15 @@ class ConstraintModelAbstractTpl : public ConstraintModelBase {
                        //!< terminal nodes as well
   VectorXs unone_;     //!< No control vector
   ConstraintModelAbstractTpl()
-      : state_(nullptr), residual_(nullptr), nu_(0), ng_(0), nh_(0) {}
+      : ng_internal_(0),
+        nh_internal_(0),
+        state_(nullptr),
+        residual_(nullptr),
+        type_(ConstraintType::Inequality),
+        nu_(0),
+        ng_(0),
+        nh_(0),
+        T_constraint_(true) {}
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/constraints/constraint-manager.hpp b/include/crocoddyl/core/constraints/constraint-manager.hpp
index 1c6d112..fb17220 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hpp
+++ b/include/crocoddyl/core/constraints/constraint-manager.hpp
@@ -20,7 +20,7 @@ struct ConstraintItemTpl {
   typedef _Scalar Scalar;
   typedef ConstraintModelAbstractTpl<Scalar> ConstraintModelAbstract;
 
-  ConstraintItemTpl() {}
+  ConstraintItemTpl() : active(true) {}
   ConstraintItemTpl(const std::string& name,
                     std::shared_ptr<ConstraintModelAbstract> constraint,
                     bool active = true)
diff --git a/include/crocoddyl/core/costs/cost-sum.hpp b/include/crocoddyl/core/costs/cost-sum.hpp
index 8fbe5d7..acae6e1 100644
--- a/include/crocoddyl/core/costs/cost-sum.hpp
+++ b/include/crocoddyl/core/costs/cost-sum.hpp
@@ -22,7 +22,7 @@ struct CostItemTpl {
   typedef _Scalar Scalar;
   typedef CostModelAbstractTpl<Scalar> CostModelAbstract;
 
-  CostItemTpl() {}
+  CostItemTpl() : weight(Scalar(1.)), active(true) {}
   CostItemTpl(const std::string& name, std::shared_ptr<CostModelAbstract> cost,
               const Scalar weight, const bool active = true)
       : name(name), cost(cost), weight(weight), active(active) {}
diff --git a/include/crocoddyl/core/diff-action-base.hpp b/include/crocoddyl/core/diff-action-base.hpp
index 71ffae7..f7efcb8 100644
--- a/include/crocoddyl/core/diff-action-base.hpp
+++ b/include/crocoddyl/core/diff-action-base.hpp
@@ -373,7 +373,16 @@ class DifferentialActionModelAbstractTpl : public DifferentialActionModelBase {
   bool has_control_limits_;  //!< Indicates whether any of the control limits is
                              //!< finite
   DifferentialActionModelAbstractTpl()
-      : nu_(0), nr_(0), ng_(0), nh_(0), ng_T_(0), nh_T_(0), state_(nullptr) {}
+      : ng_internal_(0),
+        nh_internal_(0),
+        nu_(0),
+        nr_(0),
+        ng_(0),
+        nh_(0),
+        ng_T_(0),
+        nh_T_(0),
+        state_(nullptr),
+        has_control_limits_(false) {}
 
   /**
    * @brief Update the status of the control limits (i.e. if there are defined
diff --git a/include/crocoddyl/core/diff-action-base.hxx b/include/crocoddyl/core/diff-action-base.hxx
index 623763b..05918a4 100644
--- a/include/crocoddyl/core/diff-action-base.hxx
+++ b/include/crocoddyl/core/diff-action-base.hxx
@@ -14,7 +14,9 @@ DifferentialActionModelAbstractTpl<Scalar>::DifferentialActionModelAbstractTpl(
     std::shared_ptr<StateAbstract> state, const std::size_t nu,
     const std::size_t nr, const std::size_t ng, const std::size_t nh,
     const std::size_t ng_T, const std::size_t nh_T)
-    : nu_(nu),
+    : ng_internal_(ng),
+      nh_internal_(nh),
+      nu_(nu),
       nr_(nr),
       ng_(ng),
       nh_(nh),
diff --git a/include/crocoddyl/core/state-base.hxx b/include/crocoddyl/core/state-base.hxx
index dd19cce..57c8601 100644
--- a/include/crocoddyl/core/state-base.hxx
+++ b/include/crocoddyl/core/state-base.hxx
@@ -24,6 +24,8 @@ template <typename Scalar>
 StateAbstractTpl<Scalar>::StateAbstractTpl()
     : nx_(0),
       ndx_(0),
+      nq_(0),
+      nv_(0),
       lb_(MathBase::VectorXs::Constant(
           nx_, -std::numeric_limits<Scalar>::infinity())),
       ub_(MathBase::VectorXs::Constant(
-- 
2.43.0


From cdb8b928d419a15daf040c09e5a183a6c7ab812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:45 +0000
Subject: [PATCH 22/46] fix: ActionModelAbstract copy constructor leaves the
 neutral control empty

---
 include/crocoddyl/core/action-base.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index f059805..04ad0fa 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -46,6 +46,7 @@ ActionModelAbstractTpl<Scalar>::ActionModelAbstractTpl(
       g_ub_(other.g_ub_),
       u_lb_(other.u_lb_),
       u_ub_(other.u_ub_),
+      unone_(other.unone_),
       has_control_limits_(other.has_control_limits_) {}
 
 template <typename Scalar>
-- 
2.43.0


From 9c51cacc0cbc311d6cf925feaae1cdca35b3856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:45 +0000
Subject: [PATCH 23/46] fix: LQR models lose their control limits and
 constraint bounds when copied or cast

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 9 +++++----
 include/crocoddyl/core/actions/lqr.hxx      | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index dbb7101..84c95c5 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -75,10 +75,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const DifferentialActionModelLQRTpl& copy)
-    : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
-           copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
-           copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+    : Base(copy), drift_free_(copy.drift_free_) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -226,6 +223,10 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
                  f_.template cast<NewScalar>(), q_.template cast<NewScalar>(),
                  r_.template cast<NewScalar>(), g_.template cast<NewScalar>(),
                  h_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index c8bcba7..2032daf 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -74,10 +74,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const std::size_t nx,
 
 template <typename Scalar>
 ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
-    : Base(std::make_shared<StateVector>(copy.get_A().cols()),
-           copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
-           copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false) {
+    : Base(copy), drift_free_(copy.drift_free_) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -217,6 +214,10 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
                  H_.template cast<NewScalar>(), f_.template cast<NewScalar>(),
                  q_.template cast<NewScalar>(), r_.template cast<NewScalar>(),
                  g_.template cast<NewScalar>(), h_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 2be26f54091d73603a1f9d8d5694091c32025902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 24/46] fix: the unicycle model loses its time step, weights
 and limits when cast

---
 include/crocoddyl/core/actions/unicycle.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index afa0add..4824a50 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -115,6 +115,10 @@ template <typename NewScalar>
 ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   typedef ActionModelUnicycleTpl<NewScalar> ReturnType;
   ReturnType ret;
+  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
+  ret.set_dt(scalar_cast<NewScalar>(dt_));
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From e4d831402747b84902faf7ae652df908a013072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 25/46] fix: integrated action models lose their control limits
 when cast

---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++++
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..e722012 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -165,10 +165,14 @@ IntegratedActionModelEulerTpl<Scalar>::cast() const {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..ed40ed5 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -345,10 +345,14 @@ IntegratedActionModelRKTpl<NewScalar> IntegratedActionModelRKTpl<Scalar>::cast()
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
-- 
2.43.0


From 480745d4c76b5f614d4c51110460c40db8c9c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 26/46] fix: state models lose their limits when cast

---
 include/crocoddyl/core/numdiff/state.hxx    | 2 ++
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index b72e785..9cba81f 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -210,6 +210,8 @@ template <typename NewScalar>
 StateNumDiffTpl<NewScalar> StateNumDiffTpl<Scalar>::cast() const {
   typedef StateNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(state_->template cast<NewScalar>());
+  res.set_lb(lb_.template cast<NewScalar>());
+  res.set_ub(ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..96857a5 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -182,6 +182,8 @@ template <typename NewScalar>
 StateVectorTpl<NewScalar> StateVectorTpl<Scalar>::cast() const {
   typedef StateVectorTpl<NewScalar> ReturnType;
   ReturnType res(nx_);
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From df2518d330c15a1435fcdb20091d4dde6c3c6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 27/46] fix: numdiff action models lose the Gauss
 approximation, limits and bounds when cast

---
 include/crocoddyl/core/numdiff/action.hxx      | 6 +++++-
 include/crocoddyl/core/numdiff/diff-action.hxx | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 4896a91..951b053 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -336,7 +336,11 @@ template <typename Scalar>
 template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  res.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  res.set_u_lb(u_lb_.template cast<NewScalar>());
+  res.set_u_ub(u_ub_.template cast<NewScalar>());
   return res;
 }
 
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 9a8f3ce..894b1f1 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -329,7 +329,11 @@ template <typename NewScalar>
 DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
+  res.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  res.set_g_ub(this->g_ub_.template cast<NewScalar>());
+  res.set_u_lb(u_lb_.template cast<NewScalar>());
+  res.set_u_ub(u_ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 8ccb6aa1c810a167a90af0cdb966b364036cf725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 28/46] fix: the numdiff constraint model loses its bounds when
 cast

---
 include/crocoddyl/core/numdiff/constraint.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/constraint.hxx b/include/crocoddyl/core/numdiff/constraint.hxx
index 41ca28c..f06bef9 100644
--- a/include/crocoddyl/core/numdiff/constraint.hxx
+++ b/include/crocoddyl/core/numdiff/constraint.hxx
@@ -176,6 +176,10 @@ ConstraintModelNumDiffTpl<NewScalar> ConstraintModelNumDiffTpl<Scalar>::cast()
     const {
   typedef ConstraintModelNumDiffTpl<NewScalar> ReturnType;
   ReturnType res(model_->template cast<NewScalar>());
+  if (this->ng_ != 0) {
+    res.update_bounds(this->lb_.template cast<NewScalar>(),
+                      this->ub_.template cast<NewScalar>());
+  }
   return res;
 }
 
-- 
2.43.0


From 00fe2a9b048826e0a07907c452be78f85af89511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 29/46] fix: the smooth-sat squashing model loses its smoothing
 and bounds when cast

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 900d915..6277985 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -75,6 +75,9 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
     typedef SquashingModelSmoothSatTpl<NewScalar> ReturnType;
     ReturnType ret(u_lb_.template cast<NewScalar>(),
                    u_ub_.template cast<NewScalar>(), ns_);
+    ret.set_smooth(scalar_cast<NewScalar>(smooth_));
+    ret.set_s_lb(s_lb_.template cast<NewScalar>());
+    ret.set_s_ub(s_ub_.template cast<NewScalar>());
     return ret;
   }
 
-- 
2.43.0


From 6df9609a9e3784713a514da3a554718fceeacdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 30/46] fix: casting activation bounds applies beta a second
 time

---
 include/crocoddyl/core/activations/quadratic-barrier.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index feec6f6..6919c5b 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -77,8 +77,10 @@ struct ActivationBoundsTpl {
   template <typename NewScalar>
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
-    ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   scalar_cast<NewScalar>(beta));
+    ReturnType res;  // beta has been applied to the bounds already
+    res.lb = lb.template cast<NewScalar>();
+    res.ub = ub.template cast<NewScalar>();
+    res.beta = scalar_cast<NewScalar>(beta);
     return res;
   }
 
-- 
2.43.0


From 6083988e16cf09a383a79898e4e5668501f86fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:27 +0000
Subject: [PATCH 31/46] fix: the deprecated Lxu and Luu getters of the LQR
 model are swapped

---
 include/crocoddyl/core/actions/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 0efea1d..0b883c5 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -223,8 +223,8 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   DEPRECATED("Use get_q", const VectorXs& get_lx() const { return get_q(); })
   DEPRECATED("Use get_r", const VectorXs& get_lu() const { return get_r(); })
   DEPRECATED("Use get_Q", const MatrixXs& get_Lxx() const { return get_Q(); })
-  DEPRECATED("Use get_R", const MatrixXs& get_Lxu() const { return get_R(); })
-  DEPRECATED("Use get_N", const MatrixXs& get_Luu() const { return get_N(); })
+  DEPRECATED("Use get_N", const MatrixXs& get_Lxu() const { return get_N(); })
+  DEPRECATED("Use get_R", const MatrixXs& get_Luu() const { return get_R(); })
   DEPRECATED(
       "Use set_LQR", void set_Fx(const MatrixXs& A) {
         set_LQR(A, B_, Q_, R_, N_, G_, H_, f_, q_, r_, g_, h_);
-- 
2.43.0


From 23c97b5dff38074aee0f5b038a1044df59b3e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:27 +0000
Subject: [PATCH 32/46] fix: changing the smoothing of the smooth-sat model
 discards its s bounds

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 6277985..6a4b009 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -90,9 +90,6 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
 
     d_ = (u_ub_ - u_lb_) * smooth_;
     a_ = d_.array() * d_.array();
-
-    s_lb_ = u_lb_;
-    s_ub_ = u_ub_;
   }
 
   const VectorXs& get_d() const { return d_; };
-- 
2.43.0


From 441ff296756a028f843bd796b62f57a4d19b6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:27 +0000
Subject: [PATCH 33/46] fix: bounds set on an integrated action never reach the
 differential model its getters read

---
 include/crocoddyl/core/action-base.hpp       |  4 ++--
 include/crocoddyl/core/integ-action-base.hpp | 12 ++++++++++++
 include/crocoddyl/core/integ-action-base.hxx | 10 ++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/action-base.hpp b/include/crocoddyl/core/action-base.hpp
index 4fa0608..a562d40 100644
--- a/include/crocoddyl/core/action-base.hpp
+++ b/include/crocoddyl/core/action-base.hpp
@@ -293,12 +293,12 @@ class ActionModelAbstractTpl : public ActionModelBase {
   /**
    * @brief Modify the lower bound of the inequality constraints
    */
-  void set_g_lb(const VectorXs& g_lb);
+  virtual void set_g_lb(const VectorXs& g_lb);
 
   /**
    * @brief Modify the upper bound of the inequality constraints
    */
-  void set_g_ub(const VectorXs& g_ub);
+  virtual void set_g_ub(const VectorXs& g_ub);
 
   /**
    * @brief Modify the control lower bounds
diff --git a/include/crocoddyl/core/integ-action-base.hpp b/include/crocoddyl/core/integ-action-base.hpp
index c7d3e67..5c30e28 100644
--- a/include/crocoddyl/core/integ-action-base.hpp
+++ b/include/crocoddyl/core/integ-action-base.hpp
@@ -122,6 +122,18 @@ class IntegratedActionModelAbstractTpl
    */
   virtual const VectorXs& get_g_ub() const override;
 
+  /**
+   * @brief Modify the lower bound of the inequality constraints of the
+   * differential action model
+   */
+  virtual void set_g_lb(const VectorXs& g_lb) override;
+
+  /**
+   * @brief Modify the upper bound of the inequality constraints of the
+   * differential action model
+   */
+  virtual void set_g_ub(const VectorXs& g_ub) override;
+
   /**
    * @brief Return the differential action model associated to this integrated
    * action model
diff --git a/include/crocoddyl/core/integ-action-base.hxx b/include/crocoddyl/core/integ-action-base.hxx
index bd0f915..bc3cffa 100644
--- a/include/crocoddyl/core/integ-action-base.hxx
+++ b/include/crocoddyl/core/integ-action-base.hxx
@@ -104,6 +104,16 @@ IntegratedActionModelAbstractTpl<Scalar>::get_g_ub() const {
   return differential_->get_g_ub();
 }
 
+template <typename Scalar>
+void IntegratedActionModelAbstractTpl<Scalar>::set_g_lb(const VectorXs& g_lb) {
+  differential_->set_g_lb(g_lb);
+}
+
+template <typename Scalar>
+void IntegratedActionModelAbstractTpl<Scalar>::set_g_ub(const VectorXs& g_ub) {
+  differential_->set_g_ub(g_ub);
+}
+
 template <typename Scalar>
 const std::shared_ptr<DifferentialActionModelAbstractTpl<Scalar> >&
 IntegratedActionModelAbstractTpl<Scalar>::get_differential() const {
-- 
2.43.0


From fc1ad787709b2f520b4d24ff761f490eb22e687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:37 +0000
Subject: [PATCH 34/46] fix: re-adding a registered cost item or removing an
 inactive one corrupts the dimension counters

---
 include/crocoddyl/core/costs/cost-sum.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
@@ -71,7 +75,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 39be94cdec21d4cb16c67bcdb9a2d6ab7b50d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:58 +0000
Subject: [PATCH 35/46] fix: integrated action checkData dereferenced a null
 pointer on data of another type

---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index e722012..7e0faeb 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -181,7 +181,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index ed40ed5..cf4828f 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -361,7 +361,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From 814c9dcbd5c760eea669cd812bbeaba7bc5252fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:58 +0000
Subject: [PATCH 36/46] fix: numdiff action models and control parametrizations
 rejected their own data in checkData

---
 include/crocoddyl/core/controls/poly-one.hpp    |  7 +++++++
 include/crocoddyl/core/controls/poly-one.hxx    | 11 +++++++++++
 include/crocoddyl/core/controls/poly-two-rk.hpp |  7 +++++++
 include/crocoddyl/core/controls/poly-two-rk.hxx | 11 +++++++++++
 include/crocoddyl/core/controls/poly-zero.hpp   |  7 +++++++
 include/crocoddyl/core/controls/poly-zero.hxx   | 11 +++++++++++
 include/crocoddyl/core/numdiff/action.hpp       |  6 ++++++
 include/crocoddyl/core/numdiff/action.hxx       | 11 +++++++++++
 include/crocoddyl/core/numdiff/control.hpp      |  7 +++++++
 include/crocoddyl/core/numdiff/control.hxx      | 11 +++++++++++
 include/crocoddyl/core/numdiff/diff-action.hpp  |  6 ++++++
 include/crocoddyl/core/numdiff/diff-action.hxx  | 11 +++++++++++
 12 files changed, 106 insertions(+)

diff --git a/include/crocoddyl/core/controls/poly-one.hpp b/include/crocoddyl/core/controls/poly-one.hpp
index 2cdebb9..0b9f606 100644
--- a/include/crocoddyl/core/controls/poly-one.hpp
+++ b/include/crocoddyl/core/controls/poly-one.hpp
@@ -95,6 +95,13 @@ class ControlParametrizationModelPolyOneTpl
   virtual std::shared_ptr<ControlParametrizationDataAbstract> createData()
       override;
 
+  /**
+   * @brief Checks that a specific data belongs to this model
+   */
+  virtual bool checkData(
+      const std::shared_ptr<ControlParametrizationDataAbstract>& data)
+      override;
+
   /**
    * @brief Get a value of the control parameters such that the control at the
    * specified time t is equal to the specified value w
diff --git a/include/crocoddyl/core/controls/poly-one.hxx b/include/crocoddyl/core/controls/poly-one.hxx
index 941d61d..699d181 100644
--- a/include/crocoddyl/core/controls/poly-one.hxx
+++ b/include/crocoddyl/core/controls/poly-one.hxx
@@ -44,6 +44,17 @@ ControlParametrizationModelPolyOneTpl<Scalar>::createData() {
   return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
 }
 
+template <typename Scalar>
+bool ControlParametrizationModelPolyOneTpl<Scalar>::checkData(
+    const std::shared_ptr<ControlParametrizationDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  if (d != NULL) {
+    return true;
+  } else {
+    return false;
+  }
+}
+
 template <typename Scalar>
 void ControlParametrizationModelPolyOneTpl<Scalar>::params(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
diff --git a/include/crocoddyl/core/controls/poly-two-rk.hpp b/include/crocoddyl/core/controls/poly-two-rk.hpp
index ee48b35..f32692f 100644
--- a/include/crocoddyl/core/controls/poly-two-rk.hpp
+++ b/include/crocoddyl/core/controls/poly-two-rk.hpp
@@ -106,6 +106,13 @@ class ControlParametrizationModelPolyTwoRKTpl
   virtual std::shared_ptr<ControlParametrizationDataAbstract> createData()
       override;
 
+  /**
+   * @brief Checks that a specific data belongs to this model
+   */
+  virtual bool checkData(
+      const std::shared_ptr<ControlParametrizationDataAbstract>& data)
+      override;
+
   /**
    * @brief Get a value of the control parameters u such that the control at the
    * specified time t is equal to the specified value w
diff --git a/include/crocoddyl/core/controls/poly-two-rk.hxx b/include/crocoddyl/core/controls/poly-two-rk.hxx
index 033d90e..81f0882 100644
--- a/include/crocoddyl/core/controls/poly-two-rk.hxx
+++ b/include/crocoddyl/core/controls/poly-two-rk.hxx
@@ -70,6 +70,17 @@ ControlParametrizationModelPolyTwoRKTpl<Scalar>::createData() {
   return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
 }
 
+template <typename Scalar>
+bool ControlParametrizationModelPolyTwoRKTpl<Scalar>::checkData(
+    const std::shared_ptr<ControlParametrizationDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  if (d != NULL) {
+    return true;
+  } else {
+    return false;
+  }
+}
+
 template <typename Scalar>
 void ControlParametrizationModelPolyTwoRKTpl<Scalar>::params(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
diff --git a/include/crocoddyl/core/controls/poly-zero.hpp b/include/crocoddyl/core/controls/poly-zero.hpp
index 97fa302..c856b4b 100644
--- a/include/crocoddyl/core/controls/poly-zero.hpp
+++ b/include/crocoddyl/core/controls/poly-zero.hpp
@@ -90,6 +90,13 @@ class ControlParametrizationModelPolyZeroTpl
   virtual std::shared_ptr<ControlParametrizationDataAbstract> createData()
       override;
 
+  /**
+   * @brief Checks that a specific data belongs to this model
+   */
+  virtual bool checkData(
+      const std::shared_ptr<ControlParametrizationDataAbstract>& data)
+      override;
+
   /**
    * @brief Get a value of the control parameters such that the control at the
    * specified time t is equal to the specified value u
diff --git a/include/crocoddyl/core/controls/poly-zero.hxx b/include/crocoddyl/core/controls/poly-zero.hxx
index 5b4493d..46b0a86 100644
--- a/include/crocoddyl/core/controls/poly-zero.hxx
+++ b/include/crocoddyl/core/controls/poly-zero.hxx
@@ -50,6 +50,17 @@ ControlParametrizationModelPolyZeroTpl<Scalar>::createData() {
   return data;
 }
 
+template <typename Scalar>
+bool ControlParametrizationModelPolyZeroTpl<Scalar>::checkData(
+    const std::shared_ptr<ControlParametrizationDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  if (d != NULL) {
+    return true;
+  } else {
+    return false;
+  }
+}
+
 template <typename Scalar>
 void ControlParametrizationModelPolyZeroTpl<Scalar>::params(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
diff --git a/include/crocoddyl/core/numdiff/action.hpp b/include/crocoddyl/core/numdiff/action.hpp
index a70f132..7e2786c 100644
--- a/include/crocoddyl/core/numdiff/action.hpp
+++ b/include/crocoddyl/core/numdiff/action.hpp
@@ -99,6 +99,12 @@ class ActionModelNumDiffTpl : public ActionModelAbstractTpl<_Scalar> {
    */
   virtual std::shared_ptr<ActionDataAbstract> createData() override;
 
+  /**
+   * @brief @copydoc Base::checkData()
+   */
+  virtual bool checkData(
+      const std::shared_ptr<ActionDataAbstract>& data) override;
+
   /**
    * @brief @copydoc Base::quasiStatic()
    */
diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 951b053..ceed47b 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -323,6 +323,17 @@ ActionModelNumDiffTpl<Scalar>::createData() {
   return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
 }
 
+template <typename Scalar>
+bool ActionModelNumDiffTpl<Scalar>::checkData(
+    const std::shared_ptr<ActionDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  if (d != NULL) {
+    return model_->checkData(d->data_0);
+  } else {
+    return false;
+  }
+}
+
 template <typename Scalar>
 void ActionModelNumDiffTpl<Scalar>::quasiStatic(
     const std::shared_ptr<ActionDataAbstract>& data, Eigen::Ref<VectorXs> u,
diff --git a/include/crocoddyl/core/numdiff/control.hpp b/include/crocoddyl/core/numdiff/control.hpp
index b132658..94040bf 100644
--- a/include/crocoddyl/core/numdiff/control.hpp
+++ b/include/crocoddyl/core/numdiff/control.hpp
@@ -70,6 +70,13 @@ class ControlParametrizationModelNumDiffTpl
   virtual std::shared_ptr<ControlParametrizationDataAbstract> createData()
       override;
 
+  /**
+   * @brief Checks that a specific data belongs to this model
+   */
+  virtual bool checkData(
+      const std::shared_ptr<ControlParametrizationDataAbstract>& data)
+      override;
+
   /**
    * @brief Get a value of the control parameters such that the control at the
    * specified time t is equal to the specified value u
diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..035a758 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -49,6 +49,17 @@ ControlParametrizationModelNumDiffTpl<Scalar>::createData() {
   return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
 }
 
+template <typename Scalar>
+bool ControlParametrizationModelNumDiffTpl<Scalar>::checkData(
+    const std::shared_ptr<ControlParametrizationDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  if (d != NULL) {
+    return true;
+  } else {
+    return false;
+  }
+}
+
 template <typename Scalar>
 void ControlParametrizationModelNumDiffTpl<Scalar>::params(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
diff --git a/include/crocoddyl/core/numdiff/diff-action.hpp b/include/crocoddyl/core/numdiff/diff-action.hpp
index c0501ee..5eacb3f 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hpp
+++ b/include/crocoddyl/core/numdiff/diff-action.hpp
@@ -106,6 +106,12 @@ class DifferentialActionModelNumDiffTpl
    */
   virtual std::shared_ptr<DifferentialActionDataAbstract> createData() override;
 
+  /**
+   * @brief @copydoc Base::checkData()
+   */
+  virtual bool checkData(
+      const std::shared_ptr<DifferentialActionDataAbstract>& data) override;
+
   /**
    * @brief Cast the diff-action numdiff model to a different scalar type.
    *
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 894b1f1..fd90357 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -315,6 +315,17 @@ DifferentialActionModelNumDiffTpl<Scalar>::createData() {
   return std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
 }
 
+template <typename Scalar>
+bool DifferentialActionModelNumDiffTpl<Scalar>::checkData(
+    const std::shared_ptr<DifferentialActionDataAbstract>& data) {
+  std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
+  if (d != NULL) {
+    return model_->checkData(d->data_0);
+  } else {
+    return false;
+  }
+}
+
 template <typename Scalar>
 void DifferentialActionModelNumDiffTpl<Scalar>::quasiStatic(
     const std::shared_ptr<DifferentialActionDataAbstract>& data,
-- 
2.43.0


From 8d3a8e7564cd579d1b73f27de3e0da970dde7a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:50 +0000
Subject: [PATCH 37/46] fix: SolverKKT never resized its buffers for an updated
 problem

---
 include/crocoddyl/core/solvers/kkt.hpp | 1 +
 src/core/solvers/kkt.cpp               | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/crocoddyl/core/solvers/kkt.hpp b/include/crocoddyl/core/solvers/kkt.hpp
index f9f9970..37d1811 100644
--- a/include/crocoddyl/core/solvers/kkt.hpp
+++ b/include/crocoddyl/core/solvers/kkt.hpp
@@ -31,6 +31,7 @@ class SolverKKT : public SolverAbstract {
   virtual double tryStep(const double steplength = 1);
   virtual double stoppingCriteria();
   virtual const Eigen::Vector2d& expectedImprovement();
+  virtual void resizeData();
 
   const Eigen::MatrixXd& get_kkt() const;
   const Eigen::VectorXd& get_kktref() const;
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index 4fb3b6e..fcd8e80 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -37,6 +37,9 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  if (problem_->is_updated()) {
+    resizeData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   was_feasible_ = false;
   bool recalc = true;
@@ -279,6 +282,11 @@ void SolverKKT::decreaseRegularization() {
   dreg_ = preg_;
 }
 
+void SolverKKT::resizeData() {
+  SolverAbstract::resizeData();
+  allocateData();
+}
+
 void SolverKKT::allocateData() {
   const std::size_t T = problem_->get_T();
   dxs_.resize(T + 1);
-- 
2.43.0


From bb892b1abc4adbe89b20f003262e6fccfe60e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:50 +0000
Subject: [PATCH 38/46] fix: box solvers used the first model's control
 dimension for every node

---
 src/core/solvers/box-ddp.cpp  | 3 +++
 src/core/solvers/box-fddp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 432b044..7a23c9d 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -79,6 +79,9 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     START_PROFILER("SolverBoxDDP::boxQP");
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..753ca13 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -77,6 +77,9 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
 
-- 
2.43.0


From 53937c9b5c4561b4f03ce1380c6d425eabb76df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:50 +0000
Subject: [PATCH 39/46] fix: SolverIpopt ignored problem updates and
 accumulated the constraint count when resized

---
 src/core/solvers/ipopt.cpp             | 3 +++
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/core/solvers/ipopt.cpp b/src/core/solvers/ipopt.cpp
index 4b6f4e3..7d52d8e 100644
--- a/src/core/solvers/ipopt.cpp
+++ b/src/core/solvers/ipopt.cpp
@@ -28,6 +28,9 @@ bool SolverIpopt::solve(const std::vector<Eigen::VectorXd>& init_xs,
                         const std::vector<Eigen::VectorXd>& init_us,
                         const std::size_t maxiter, const bool is_feasible,
                         const double /*reg_init*/) {
+  if (problem_->is_updated()) {
+    resizeData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   ipopt_iface_->set_xs(xs_);
   ipopt_iface_->set_us(us_);
diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 9bd0536..9716353 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,6 +52,7 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From 4a9ea6808ece0965dfa267a041f4f0a34b0e13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 40/46] fix: LQR models accept dynamics matrices with a wrong
 number of columns

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 14 +++++++++-----
 include/crocoddyl/core/actions/lqr.hxx      | 11 +++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index 84c95c5..0e0b0d7 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -358,20 +358,24 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
     const MatrixXs& H, const VectorXs& f, const VectorXs& q, const VectorXs& r,
     const VectorXs& g, const VectorXs& h) {
   const std::size_t nq = state_->get_nq();
-  if (static_cast<std::size_t>(Aq.rows()) != nq) {
+  if (static_cast<std::size_t>(Aq.rows()) != nq ||
+      static_cast<std::size_t>(Aq.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Aq should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(Av.rows()) != nq) {
+  if (static_cast<std::size_t>(Av.rows()) != nq ||
+      static_cast<std::size_t>(Av.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Av should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(B.rows()) != nq) {
+  if (static_cast<std::size_t>(B.rows()) != nq ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
     throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nq) + " rows)");
+        "Invalid argument: " << "B has wrong dimension (it should be " +
+                                    std::to_string(nq) + "," +
+                                    std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != 2 * nq ||
       static_cast<std::size_t>(Q.cols()) != 2 * nq) {
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 2032daf..af9ae80 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -340,15 +340,18 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
                                         const VectorXs& q, const VectorXs& r,
                                         const VectorXs& g, const VectorXs& h) {
   const std::size_t nx = state_->get_nx();
-  if (static_cast<std::size_t>(A.rows()) != nx) {
+  if (static_cast<std::size_t>(A.rows()) != nx ||
+      static_cast<std::size_t>(A.cols()) != nx) {
     throw_pretty(
         "Invalid argument: " << "A should be a squared matrix with size " +
                                     std::to_string(nx));
   }
-  if (static_cast<std::size_t>(B.rows()) != nx) {
+  if (static_cast<std::size_t>(B.rows()) != nx ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
     throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nx) + " rows)");
+        "Invalid argument: " << "B has wrong dimension (it should be " +
+                                    std::to_string(nx) + "," +
+                                    std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != nx ||
       static_cast<std::size_t>(Q.cols()) != nx) {
-- 
2.43.0


From b16a3d0f3098cf8ac052ef5b12a679747a9f1352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 41/46] fix: control numerical differentiation does not check
 the sizes of its arguments

---
 include/crocoddyl/core/numdiff/control.hxx | 23 ++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index 035a758..57a0999 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -29,6 +29,11 @@ template <typename Scalar>
 void ControlParametrizationModelNumDiffTpl<Scalar>::calcDiff(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
+  if (static_cast<std::size_t>(u.size()) != nu_) {
+    throw_pretty(
+        "Invalid argument: " << "u has wrong dimension (it should be " +
+                                    std::to_string(nu_) + ")");
+  }
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   data->w = data_nd->data_0->w;
 
@@ -82,6 +87,15 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::multiplyByJacobian(
     const AssignmentOp op) const {
   assert_pretty(is_a_AssignmentOp(op),
                 ("op must be one of the AssignmentOp {settop, addto, rmfrom}"));
+  if (A.rows() != out.rows() || static_cast<std::size_t>(A.cols()) != nw_ ||
+      static_cast<std::size_t>(out.cols()) != nu_) {
+    throw_pretty("Invalid argument: " << "A and out have wrong dimensions (" +
+                                             std::to_string(A.rows()) + "," +
+                                             std::to_string(A.cols()) +
+                                             " and " +
+                                             std::to_string(out.rows()) + "," +
+                                             std::to_string(out.cols()) + ")");
+  }
   MatrixXs J(nw_, nu_);
   switch (op) {
     case setto:
@@ -106,6 +120,15 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::multiplyJacobianTransposeBy(
     const AssignmentOp op) const {
   assert_pretty(is_a_AssignmentOp(op),
                 ("op must be one of the AssignmentOp {settop, addto, rmfrom}"));
+  if (A.cols() != out.cols() || static_cast<std::size_t>(A.rows()) != nw_ ||
+      static_cast<std::size_t>(out.rows()) != nu_) {
+    throw_pretty("Invalid argument: " << "A and out have wrong dimensions (" +
+                                             std::to_string(A.rows()) + "," +
+                                             std::to_string(A.cols()) +
+                                             " and " +
+                                             std::to_string(out.rows()) + "," +
+                                             std::to_string(out.cols()) + ")");
+  }
   MatrixXs J(nw_, nu_);
   switch (op) {
     case setto:
-- 
2.43.0


From 5d275cc6d5e8fa94050542afc7d486a08c7155a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 42/46] fix: squashed actuation and the smooth saturation do
 not check the size of their argument

---
 .../crocoddyl/core/actuation/actuation-squashing.hpp   | 10 ++++++++++
 .../crocoddyl/core/actuation/squashing/smooth-sat.hpp  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/crocoddyl/core/actuation/actuation-squashing.hpp b/include/crocoddyl/core/actuation/actuation-squashing.hpp
index d8ce15e..d4767bc 100644
--- a/include/crocoddyl/core/actuation/actuation-squashing.hpp
+++ b/include/crocoddyl/core/actuation/actuation-squashing.hpp
@@ -43,6 +43,11 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
   virtual void calc(const std::shared_ptr<ActuationDataAbstract>& data,
                     const Eigen::Ref<const VectorXs>& x,
                     const Eigen::Ref<const VectorXs>& u) override {
+    if (static_cast<std::size_t>(u.size()) != nu_) {
+      throw_pretty(
+          "Invalid argument: " << "u has wrong dimension (it should be " +
+                                      std::to_string(nu_) + ")");
+    }
     Data* d = static_cast<Data*>(data.get());
 
     squashing_->calc(d->squashing, u);
@@ -54,6 +59,11 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
   virtual void calcDiff(const std::shared_ptr<ActuationDataAbstract>& data,
                         const Eigen::Ref<const VectorXs>& x,
                         const Eigen::Ref<const VectorXs>& u) override {
+    if (static_cast<std::size_t>(u.size()) != nu_) {
+      throw_pretty(
+          "Invalid argument: " << "u has wrong dimension (it should be " +
+                                      std::to_string(nu_) + ")");
+    }
     Data* d = static_cast<Data*>(data.get());
 
     squashing_->calcDiff(d->squashing, u);
diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 6a4b009..e7982b5 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -47,6 +47,11 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
 
   virtual void calc(const std::shared_ptr<SquashingDataAbstract>& data,
                     const Eigen::Ref<const VectorXs>& s) override {
+    if (static_cast<std::size_t>(s.size()) != ns_) {
+      throw_pretty(
+          "Invalid argument: " << "s has wrong dimension (it should be " +
+                                      std::to_string(ns_) + ")");
+    }
     // Squashing function used: "Smooth abs":
     // s(u) = 0.5*(lb + ub + sqrt(smooth + (u - lb)^2) - sqrt(smooth + (u -
     // ub)^2))
@@ -58,6 +63,11 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
 
   virtual void calcDiff(const std::shared_ptr<SquashingDataAbstract>& data,
                         const Eigen::Ref<const VectorXs>& s) override {
+    if (static_cast<std::size_t>(s.size()) != ns_) {
+      throw_pretty(
+          "Invalid argument: " << "s has wrong dimension (it should be " +
+                                      std::to_string(ns_) + ")");
+    }
     data->du_ds.diagonal() =
         Scalar(0.5) *
         (Eigen::pow(a_.array() + Eigen::pow((s - u_lb_).array(), 2),
-- 
2.43.0


From 5e3c6e13389371c4435a2e77599eba3d2a5d2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 43/46] fix: vector state integration Jacobian in set mode
 keeps the off-diagonal of its output

---
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index 96857a5..74fecc3 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -125,6 +125,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         Jfirst.diagonal().array() = Scalar(1.);
         break;
       case addto:
@@ -149,6 +150,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         Jsecond.diagonal().array() = Scalar(1.);
         break;
       case addto:
-- 
2.43.0


From 4d3424a3214454b14729c0ec05f799d887804477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 44/46] fix: state numerical differentiation ignores the
 assignment mode

---
 include/crocoddyl/core/numdiff/state.hxx | 46 ++++++++++++++++++++----
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index 9cba81f..1fc91e8 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -145,10 +145,12 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                          Eigen::Ref<MatrixXs> Jfirst,
                                          Eigen::Ref<MatrixXs> Jsecond,
                                          const Jcomponent firstsecond,
-                                         const AssignmentOp) const {
+                                         const AssignmentOp op) const {
   assert_pretty(
       is_a_Jcomponent(firstsecond),
       ("firstsecond must be one of the Jcomponent {both, first, second}"));
+  assert_pretty(is_a_AssignmentOp(op),
+                ("op must be one of the AssignmentOp {settop, addto, rmfrom}"));
   if (static_cast<std::size_t>(x.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x has wrong dimension (it should be " +
@@ -175,15 +177,30 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jfirst.setZero();
+    MatrixXs J = MatrixXs::Zero(ndx_, ndx_);
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = xh_jac;
       integrate(x, dx_, tmp_x_);
       integrate(tmp_x_, dx, tmp_x_);
-      diff(x0_, tmp_x_, Jfirst.col(i));
+      diff(x0_, tmp_x_, J.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jfirst /= xh_jac;
+    J /= xh_jac;
+    switch (op) {
+      case setto:
+        Jfirst = J;
+        break;
+      case addto:
+        Jfirst += J;
+        break;
+      case rmfrom:
+        Jfirst -= J;
+        break;
+      default:
+        throw_pretty(
+            "Invalid argument: allowed operators: setto, addto, rmfrom");
+        break;
+    }
   }
   if (firstsecond == second || firstsecond == both) {
     const Scalar dxh_jac = e_jac_ * std::max(Scalar(1.), dx.norm());
@@ -194,14 +211,29 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jsecond.setZero();
+    MatrixXs J = MatrixXs::Zero(ndx_, ndx_);
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = dxh_jac;
       integrate(x, dx + dx_, tmp_x_);
-      diff(x0_, tmp_x_, Jsecond.col(i));
+      diff(x0_, tmp_x_, J.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jsecond /= dxh_jac;
+    J /= dxh_jac;
+    switch (op) {
+      case setto:
+        Jsecond = J;
+        break;
+      case addto:
+        Jsecond += J;
+        break;
+      case rmfrom:
+        Jsecond -= J;
+        break;
+      default:
+        throw_pretty(
+            "Invalid argument: allowed operators: setto, addto, rmfrom");
+        break;
+    }
   }
 }
 
-- 
2.43.0


From 441a4b856d9b28abb33f0a339c7588e7d79a83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 45/46] fix: control Jacobian products returned by value start
 from uninitialised memory

---
 include/crocoddyl/core/control-base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/control-base.hxx b/include/crocoddyl/core/control-base.hxx
index 14b1a46..7a8f762 100644
--- a/include/crocoddyl/core/control-base.hxx
+++ b/include/crocoddyl/core/control-base.hxx
@@ -33,7 +33,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyByJacobian_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs AJ(A.rows(), nu_);
+  MatrixXs AJ = MatrixXs::Zero(A.rows(), nu_);
   multiplyByJacobian(data, A, AJ, op);
   return AJ;
 }
@@ -43,7 +43,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyJacobianTransposeBy_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs JTA(nu_, A.cols());
+  MatrixXs JTA = MatrixXs::Zero(nu_, A.cols());
   multiplyJacobianTransposeBy(data, A, JTA, op);
   return JTA;
 }
-- 
2.43.0


From e352f1ad4a5361e2a99e59d8567540b1a6995480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:31 +0000
Subject: [PATCH 46/46] fix: ResidualModelNumDiff::calcDiff(data, x) divided by
 a step that no code had set in that call (zero after construction, stale
 afterwards)

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0

