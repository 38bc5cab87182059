From 95d0f3d5757b59dea16edcf52e2ace9da82cd256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:43 +0000
Subject: [PATCH 01/34] fix: normalise the inner expectation of every sample
 with reduction='sum'

The robust loss subtracted log(n_samples) once, after the outer reduction.
With reduction='sum' each of the m inner log-expectations needs its own
normalisation, so the value was off by epsilon * (m - 1) * log(n_samples).
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 0270bf1..019fe00 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -126,10 +126,12 @@ class _DualFormulation(_SampleDisplacer):
                 integrand /= self.epsilon  # -> (n_samples, m, 1)
 
             # Expectation on the zeta samples (collapse 1st dim)
-            second_term = self.reduce_loss_batch(
+            log_mean_exp = (
                 pt.logsumexp(integrand, 0)
+                - pt.log(pt.tensor(zeta.size(0)))
             )  # -> (m, 1)
-            second_term -= pt.log(pt.tensor(zeta.size(0)))  # -> (m, 1)
+            # Outer expectation on the xi samples
+            second_term = self.reduce_loss_batch(log_mean_exp)
             return first_term + self.epsilon * second_term  # (1,)
         elif self.rho.isnan().any():
             return pt.tensor(pt.nan, requires_grad=True)
-- 
2.43.0


From bb0352558bf39f3766b8f89067a10c782e427629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:43 +0000
Subject: [PATCH 02/34] fix: reuse stored samples with a null radius in the
 pre-sampled loss

Forwarding without new adversarial samples failed on an assertion when
rho=0, because the leading unary dimension was not removed before the
reduction.
---
 skwdro/solvers/oracle_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fd4ec4..d56b032 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -526,7 +526,7 @@ class DualPreSampledLoss(_DualLoss):
                         # (1, m, d') or None
                         xi_labels.unsqueeze(0) if xi_labels is not None else None
                     )  # (1, m, 1)
-                    primal_loss = self.reduce_loss_batch(batched_pl)
+                    primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
                     return first_term + primal_loss
                 else:
                     # Reuse the same samples as last forward pass
-- 
2.43.0


From b479f8632d7d1de00d4032002591093d30633943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:43 +0000
Subject: [PATCH 03/34] fix: keep the user's frozen parameters and module modes
 untouched

Differentiating the loss with respect to the data made every parameter
trainable and switched every submodule to training mode, even those the
user had frozen or put in evaluation mode.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index d8a7812..cefa4fd 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -107,6 +107,7 @@ class _SampleDisplacer(_SampledDualLoss):
         disps: (1, m, d), (1, m, d')
         """
         model = self.primal_loss
+        training_modes = {m: m.training for m in model.modules()}
         model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
@@ -155,7 +156,8 @@ class _SampleDisplacer(_SampledDualLoss):
             )
         )
         psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        model.train()
+        for module, mode in training_modes.items():
+            module.training = mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
@@ -192,6 +194,8 @@ class _SampleDisplacer(_SampledDualLoss):
         """
 
         # Freeze the parameters before differentiation wrt xi
+        frozen_params = (*self.primal_loss.parameters(), self._lam)
+        trainable = [param.requires_grad for param in frozen_params]
         self.freeze()
 
         # "Dual" samples for forward pass, to get the gradients wrt them
@@ -200,8 +204,9 @@ class _SampleDisplacer(_SampledDualLoss):
             maybe_unsqueeze(xi_labels)
         )
 
-        # Unfreeze the parameters to allow training
-        self.freeze(rg=True)
+        # Unfreeze the parameters that were trainable to allow training
+        for param, rg in zip(frozen_params, trainable):
+            param.requires_grad = rg
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From 10e8a272b90dea61321ee31509ff4e4293850b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:03 +0000
Subject: [PATCH 04/34] fix: recenter the log-density of labelled samplers

LabeledSampler.log_prob_recentered ignored its new centers, so the
importance sampling weights of every labelled problem were constant.
---
 skwdro/base/samplers/torch/base_samplers.py   | 19 ++++++++++++++++---
 skwdro/base/samplers/torch/classif_sampler.py | 11 +++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index d354928..4e8b4ef 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -213,12 +213,25 @@ class LabeledSampler(BaseSampler, ABC):
             zeta_labels: Optional[pt.Tensor]
     ) -> pt.Tensor:
         assert zeta_labels is not None and xi_labels is not None
-        # TODO: FIX
-        lp_zeta = self._format_logprobs(self.data_s, zeta)
-        lp_zeta_labels = self._format_logprobs(self.labels_s, zeta_labels)
+        if xi_labels.dim() == 1:
+            xi_labels = xi_labels.unsqueeze(-1)
+        lp_zeta = self._format_logprobs(
+            self.data_s, zeta - xi + self.data_s.mean)
+        lp_zeta_labels = self._format_logprobs(
+            self.labels_s, self._recenter_labels(xi_labels, zeta_labels))
         lp = lp_zeta + lp_zeta_labels
         return lp
 
+    def _recenter_labels(
+            self,
+            xi_labels: pt.Tensor,
+            zeta_labels: pt.Tensor
+    ) -> pt.Tensor:
+        """
+        Move labels drawn around ``xi_labels`` to the center of the sampler.
+        """
+        return zeta_labels - xi_labels + self.labels_s.mean
+
 # Helper class ########################
 
 
diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 2766e9b..460d385 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -188,6 +188,7 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
         assert 0. <= p <= 1.
         covar = self.init_covar(xi.size(-1), sigma, tril, prec, cov)
         self.p = p
+        self.xi_labels = xi_labels
         super(ClassificationNormalBernouilliSampler, self).__init__(
             dst.MultivariateNormal(
                 loc=xi,
@@ -214,6 +215,16 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
         assert isinstance(zeta_labels, pt.Tensor)
         return zeta_labels
 
+    def _recenter_labels(
+        self,
+        xi_labels: pt.Tensor,
+        zeta_labels: pt.Tensor
+    ) -> pt.Tensor:
+        """
+        A label is switched or kept relatively to its center.
+        """
+        return zeta_labels / xi_labels * self.xi_labels
+
     def reset_mean(
         self,
         xi: pt.Tensor,
-- 
2.43.0


From 5c373dcf4115f82728612d01b55074f68277e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:03 +0000
Subject: [PATCH 05/34] fix: switch labels with probability p in the bernoulli
 sampler

p is documented as the probability of switching a label, but a label was
kept with probability p.
---
 skwdro/base/samplers/torch/classif_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 460d385..434d65e 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -199,8 +199,8 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
                     p
                 ),
                 dst.transforms.AffineTransform(
-                    loc=-xi_labels,
-                    scale=2 * xi_labels
+                    loc=xi_labels,
+                    scale=-2 * xi_labels
                 )
             ),
             seed
-- 
2.43.0


From 587df2ed2cb739a9844cb546d84bbac5ade08f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:03 +0000
Subject: [PATCH 06/34] fix: return one loss per sample for flat labelled
 batches

A (m, d) batch with scalar labels was averaged over the samples instead
of over the output dimension of each sample.
---
 skwdro/base/losses_torch/wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skwdro/base/losses_torch/wrapper.py b/skwdro/base/losses_torch/wrapper.py
index 34fc7e5..dba3987 100644
--- a/skwdro/base/losses_torch/wrapper.py
+++ b/skwdro/base/losses_torch/wrapper.py
@@ -173,10 +173,10 @@ class WrappedPrimalLoss(Loss):
                 return self._reduce_flat_spatial_dims_loss(flat_loss).view(*b, 1)
             elif xi.dim() == 2 and xi_labels.dim() <= 2:
                 # Forwarding xis
-                flat_loss = self._flat_value_w_labels(
-                    xi, xi_labels
-                ).squeeze()
-                return self._reduce_flat_spatial_dims_loss(flat_loss)
+                flat_loss = self._flat_value_w_labels(xi, xi_labels)
+                return self._reduce_flat_spatial_dims_loss(
+                    flat_loss
+                ).squeeze(-1)
             elif xi.dim() == xi_labels.dim() == 1:
                 # Forwarding xis (no batch dim)
                 b_xi = xi.unsqueeze(0)  # need to consider as zetas, will squeeze later
-- 
2.43.0


From e123546508502be335089b01072e166c2fcdc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:06 +0000
Subject: [PATCH 07/34] fix: evaluate the newsvendor loss without labels

The loss is declared without labels but refused to be evaluated when the
labels were missing. Its l2 regularization was also ignored.
---
 skwdro/base/losses_torch/newsvendor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index aedb15b..9c14a78 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -68,10 +68,10 @@ class NewsVendorLoss_torch(Loss):
         xi_labels : NoneType
             placeholder, do not touch
         """
-        assert xi_labels is not None
+        del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
-        return returns - costs
+        return self.regularize(returns - costs)
 
     @property
     def theta(self) -> pt.Tensor:
-- 
2.43.0


From 56800047bcb7a26f0a6a9bf533e826fa18a60a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:06 +0000
Subject: [PATCH 08/34] fix: make the stopping rule remember copies of the
 iterates of one run

The dual variable was remembered by reference, so its variation was always
null with metric='param' and the optimization stopped at once.
The memory was also kept from one optimization to the next, and the
estimators share a default stopping rule, so the result of a fit depended
on the previous ones.
---
 skwdro/solvers/entropic_dual_torch.py | 2 ++
 skwdro/solvers/optim_cond.py          | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 92999c2..a8ef378 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -96,7 +96,9 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     # _DualLoss.presample determines the way the optimization is performed
     optim_ = optim_presample if loss.presample else optim_postsample
 
+    # The conditions may have already monitored another optimization
     opt_cond: OptCondTorch = opt
+    opt_cond.reset()
 
     losses = optim_(optimizer, xi, xi_labels, loss, opt_cond)
     theta = detach_tensor(loss.theta)
diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index ac34ee9..7d84f73 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -108,7 +108,12 @@ class OptCondTorch:
         self.max_iter: int = 0 if max_iter is None else max_iter
 
         self.verbose = verbose
+        self.reset()
 
+    def reset(self):
+        """
+        Forget the iterates observed so far, to monitor a new optimization.
+        """
         self.l_mem: Optional[pt.Tensor] = None
         self.t_mem: Optional[pt.Tensor] = None
         self.l_0: Optional[pt.Tensor] = None
@@ -141,13 +146,13 @@ class OptCondTorch:
         )
 
         def flattheta() -> pt.Tensor:
-            return self.get_flat_param(dual_loss.primal_loss)
+            return self.get_flat_param(dual_loss.primal_loss).detach().clone()
 
         def flatgrad() -> pt.Tensor:
             return self.get_flat_grad(dual_loss.primal_loss)
 
         def lam() -> pt.Tensor:
-            return dual_loss.lam
+            return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
             return maybe_flatten_grad_else_raise(dual_loss._lam)
-- 
2.43.0


From 55a8a689cd6d9827a939beccf909ecce9355b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:31 +0000
Subject: [PATCH 09/34] fix: run the first iterations of the post-sampled
 solver on the ERM loss

The pretraining steps, documented as ERM iterations, were performed on the
robust loss, and the state of the dual optimizer was never reset after
them.
---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index a8ef378..181bdc1 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -256,7 +256,7 @@ def optim_postsample(
     pretrain_iters, train_iters = interpret_steps_struct(loss.n_iter)
 
     # Pretrain ERM
-    loss.erm_mode = False
+    loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.zero_grad()
 
-- 
2.43.0


From ea4355dd79330cd3979b24d446ee3390417eb6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:18 +0000
Subject: [PATCH 10/34] fix: follow the torch convention in the train method of
 the dual losses

train() switched the user's modules to evaluation mode, and train(True),
which torch calls on every submodule, silently replaced the robust loss by
the ERM one.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 403ac8a..b772c48 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -292,8 +292,8 @@ class _DualLossBase(nn.Module, ABC):
         self.erm_mode = True
         return super().eval()
 
-    def train(self, mode: bool = False):
-        self.erm_mode = mode
+    def train(self, mode: bool = True):
+        self.erm_mode = False
         return super().train(mode)
 
 
-- 
2.43.0


From 18df657c94a4f4de532629f856e5b1f592d42f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:10 +0000
Subject: [PATCH 11/34] fix: keep the dual variable non-negative with every
 default optimizer

Only the adaptive optimizers projected the dual variable on the
non-negative numbers. AdamW and LBFGS could return a negative multiplier,
for which the dual objective is no longer a bound.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 8 ++++++++
 skwdro/solvers/oracle_torch.py                           | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index b772c48..226c72a 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -325,6 +325,14 @@ class _OptimizeableDual(_DualLossBase):
         """
         self._opti = o
 
+    def _project_dual(self, *_):
+        r"""
+        Keep the dual variable :math:`\lambda` feasible after a step of the
+        default optimizers.
+        """
+        with pt.no_grad():
+            self._lam.clamp_(0., None)
+
 
 class _SampledDualLoss(_OptimizeableDual):
     def generate_zetas(
diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index d56b032..ce2cfa6 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -202,6 +202,7 @@ class DualPostSampledLoss(_DualLoss):
                 amsgrad=True,
                 foreach=True
             )
+            self._opti.register_step_post_hook(self._project_dual)
 
     def reset_sampler_mean(
         self,
@@ -436,6 +437,7 @@ class DualPreSampledLoss(_DualLoss):
             tolerance_change=1e-6,
             history_size=30
         )
+        self._opti.register_step_post_hook(self._project_dual)
 
         self.zeta = None
         self.zeta_labels = None
-- 
2.43.0


From 9e1c9aee274672684b3cc03c4a0fe37565bc74bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:56 +0000
Subject: [PATCH 12/34] fix: leave the opt_cond parameter of the estimators as
 given by the user

fit replaced a None parameter by the default stopping rule it used.
---
 skwdro/linear_models/_linear_regression.py   | 8 +++++---
 skwdro/linear_models/_logistic_regression.py | 8 +++++---
 skwdro/operations_research/_newsvendor.py    | 8 +++++---
 skwdro/operations_research/_portfolio.py     | 8 +++++---
 skwdro/operations_research/_weber.py         | 8 +++++---
 5 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7656530..3e34a84 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -175,8 +175,10 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         elif "torch" in self.solver:
             assert isinstance(self.cost_, TorchCost)
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None
+                else self.opt_cond
+            )
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
@@ -201,7 +203,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 _wdro_loss,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond  # type: ignore
             )
             self.coef_ = detach_tensor(
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 0283a74..5c6b1f7 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -261,8 +261,10 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 self.solver in ("entropic_torch", "entropic_torch_post")
             )
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None
+                else self.opt_cond
+            )
 
             _bilat = len(self.classes_) == 2
             module_out = 1 if _bilat else len(self.classes_)
@@ -299,7 +301,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self.wdro_loss_,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond  # type: ignore
             )
 
             assert isinstance(self.wdro_loss_.primal_loss.transform, nn.Linear)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 28dd544..98dd57f 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -152,8 +152,10 @@ class NewsVendor(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None
+                else self.opt_cond
+            )
 
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
@@ -174,7 +176,7 @@ class NewsVendor(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,  # type: ignore
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.theta_)  # type: ignore
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 612e549..c4c6cde 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -213,8 +213,10 @@ class Portfolio(BaseEstimator):
             self.coef_, self.tau_, self.dual_var_, self.result_ = _res
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None
+                else self.opt_cond
+            )
 
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
@@ -236,7 +238,7 @@ class Portfolio(BaseEstimator):
             _res = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,  # type: ignore
             )
             (
                 self.coef_,
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 2bfe8cd..bb6e390 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -125,8 +125,10 @@ class Weber(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None
+                else self.opt_cond
+            )
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             self._wdro_loss = dualize_primal_loss(
@@ -152,7 +154,7 @@ class Weber(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,
+                opt_cond,
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.pos  # type: ignore
-- 
2.43.0


From 43bee9f9afdd9cb82ebec622cd18996f0cf57fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:56 +0000
Subject: [PATCH 13/34] fix: draw the initial parameters of the estimators from
 random_state

The initial weights came from the global generator, so two fits on the
same data with the same random_state gave different results.
---
 skwdro/linear_models/_linear_regression.py   | 4 ++++
 skwdro/linear_models/_logistic_regression.py | 4 ++++
 skwdro/operations_research/_newsvendor.py    | 4 ++++
 skwdro/operations_research/_portfolio.py     | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 3e34a84..f1cd1cc 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -180,6 +180,10 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 else self.opt_cond
             )
 
+            # The initial parameters of the model are random
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
+
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 5c6b1f7..885ee4d 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -266,6 +266,10 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 else self.opt_cond
             )
 
+            # The initial parameters of the model are random
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
+
             _bilat = len(self.classes_) == 2
             module_out = 1 if _bilat else len(self.classes_)
             loss = (
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 98dd57f..e67c7e6 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -157,6 +157,10 @@ class NewsVendor(BaseEstimator):
                 else self.opt_cond
             )
 
+            # The initial parameters of the model are random
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
+
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
                 None,
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index c4c6cde..7aa320c 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -218,6 +218,10 @@ class Portfolio(BaseEstimator):
                 else self.opt_cond
             )
 
+            # The initial parameters of the model are random
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
+
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
                                 risk_level=self.alpha_),
-- 
2.43.0


From 65c639a86c0cc925ba3537be2f7fc7fdecf08aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:56 +0000
Subject: [PATCH 14/34] fix: return probabilities and flat predictions for
 every logistic model

predict_proba failed without intercept, returned the wrong shape with a
single feature, and returned raw scores with more than two classes.
predict returned a column in this last case.
---
 skwdro/linear_models/_logistic_regression.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 885ee4d..dd0e067 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -317,9 +317,10 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 .weight
                 .detach()
                 .cpu()
-                .squeeze()
                 .numpy()
             )
+            if _bilat:
+                self.coef_ = self.coef_.squeeze(0)
 
             if self.fit_intercept:
                 self.intercept_ = (
@@ -389,12 +390,13 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         X = check_array(X)
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
-            p = expit(X.dot(self.coef_) + self.intercept_)
+            p = self.predict_proba_2Class(X)
             return np.vstack((1 - p, p)).T
         else:
-            return self.wdro_loss_.primal_loss.transform(
+            logits = self.wdro_loss_.primal_loss.transform(
                 pt.from_numpy(X).to(self.wdro_loss_.rho)
-            ).detach().cpu().numpy()
+            )
+            return logits.softmax(dim=-1).detach().cpu().numpy()
 
     def predict(self, X):
         """ Robust prediction.
@@ -422,10 +424,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             out = self.le_.inverse_transform((proba >= 0.5).astype('uint8'))
         elif isinstance(self.le_, OneHotEncoder):
             proba = self.predict_proba(X)
-            _p = proba >= np.max(proba, axis=1, keepdims=True)
-            out = self.le_.inverse_transform(
-                _p.astype('uint8')
-            )
+            out = self.classes_[np.argmax(proba, axis=1)]
         else:
             raise ValueError(
                 "The label encoder type {type(self.le_)} is not supported."
-- 
2.43.0


From 2e5c4a6b7fab7a320953f7713ef05ae94a00ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:56 +0000
Subject: [PATCH 15/34] fix: honour fit_intercept=False in the torch solvers of
 LinearRegression

---
 skwdro/linear_models/_linear_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index f1cd1cc..d35688b 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -187,7 +187,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
-                nn.Linear(d, 1),
+                nn.Linear(d, 1, bias=self.fit_intercept),
                 pt.tensor(self.rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
@@ -213,6 +213,8 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
             self.intercept_ = maybe_detach_tensor(
                 _wdro_loss.primal_loss.transform.bias)  # type: ignore
+            if self.intercept_ is None:
+                self.intercept_ = np.zeros(1)
         elif self.solver == "dedicated":
             self.coef_, self.intercept_, self.dual_var_ = spS.WDROLinRegSpecificSolver(
                 rho=self.rho,
-- 
2.43.0


From 4e4f1f60d297d7e0dbf2f9c468c2369f94557f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:57 +0000
Subject: [PATCH 16/34] fix: accept a null radius in the dedicated linear
 regression solver

rho=0 is a valid radius for the estimator and gives the ordinary least
squares.
---
 skwdro/solvers/specific_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index c4db7fc..7ab0fd7 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -156,7 +156,7 @@ def WDROLinRegSpecificSolver(rho: float = 1.0, X: np.ndarray = np.array(
         None), y: np.ndarray = np.array(None), fit_intercept: bool = False):
     n, d = X.shape
 
-    assert rho > 0
+    assert rho >= 0
 
     coeff = cp.Variable(d)
     intercept = cp.Variable(1)
-- 
2.43.0


From de0b94593103aa10aed4f7a820745912fd6ac2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:57 +0000
Subject: [PATCH 17/34] fix: select the requested sampling scheme in Portfolio

entropic_torch_post used the pre-sampled loss, and entropic_torch_pre the
post-sampled one.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 7aa320c..9de2bc2 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -229,7 +229,7 @@ class Portfolio(BaseEstimator):
                 pt.tensor(self.rho_),
                 pt.Tensor(emp.samples),
                 None,
-                "post" not in self.solver,
+                "pre" not in self.solver,
                 self.cost,
                 self.n_zeta_samples,
                 self.random_state,
-- 
2.43.0


From eba1eb3ade60ee31f8ac844e9050cd2b1fc6ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:16 +0000
Subject: [PATCH 18/34] fix: evaluate the fitted portfolio and newsvendor
 decisions as plain floats

Portfolio.eval failed on double precision data with the torch solvers, and
forgot the risk term of the objective with the dedicated one.
NewsVendor.eval returned a tensor attached to the autograd graph.
---
 skwdro/operations_research/_newsvendor.py | 5 ++++-
 skwdro/operations_research/_portfolio.py  | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index e67c7e6..fde7211 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -234,7 +234,10 @@ class NewsVendor(BaseEstimator):
         X = check_array(X)
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            with pt.no_grad():
+                return self._wdro_loss.primal_loss.forward(
+                    pt.Tensor(X)
+                ).mean().item()
         elif self.solver == "dedicated":
             gains = self.k * self.coef_
             losses = self.u * np.minimum(self.coef_, X)
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 9de2bc2..8584029 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -292,8 +292,13 @@ class Portfolio(BaseEstimator):
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            with pt.no_grad():
+                return self._wdro_loss.primal_loss.forward(
+                    pt.Tensor(X)
+                ).mean().item()
         elif self.solver == "dedicated":
-            return -np.mean(X, axis=0) @ self.coef_
+            returns = X @ self.coef_
+            cvar = self.tau_ + np.maximum(-returns - self.tau_, 0) / self.alpha_
+            return float(np.mean(-returns + self.eta_ * cvar))
         else:
             raise (ValueError("Solver not recognized"))
-- 
2.43.0


From d2f8e3f128bc89e3f166fa928e50275c0784782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:16 +0000
Subject: [PATCH 19/34] fix: use the dual of the ground norm in the dedicated
 portfolio solver

The dual norm was deduced from the power of the cost instead of the type
of its norm, so t-NC-1-2 and t-NC-1-inf were solved as t-NC-1-1.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 8584029..c7115a8 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -174,7 +174,7 @@ class Portfolio(BaseEstimator):
         emp = EmpiricalDistributionWithoutLabels(m=N, samples=X)
 
         self.cost_ = cost_from_str(self.cost)  # NormCost(1, 1., "L1 cost")
-        p = self.cost_.power
+        p = self.cost_.p
 
         # Setup values C and d that define the polyhedron of xi_maj
         if (self.C is None or self.d is None):
-- 
2.43.0


From d6d9dfe45f1ab9f3f1f341e241dcbd10e6e7ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:16 +0000
Subject: [PATCH 20/34] fix: score Weber locations with their importance
 weights

eval and score always failed because the loss needs the weights, which
score discarded.
---
 skwdro/operations_research/_weber.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index bb6e390..30478a8 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -176,13 +176,12 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
-        y : None
-            The prediction. Always None for a Portfolio estimator.
+        y : array-like, shape (n_samples_test,), default=None
+            The importance weights, all equal to one if not given.
         '''
-        del y
-        return -self.eval(X)
+        return -self.eval(X, y)
 
-    def eval(self, X):
+    def eval(self, X, y=None):
         '''
         Evaluates the loss with the theta obtained from the fit function.
 
@@ -190,15 +189,22 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
+        y : array-like, shape (n_samples_test,), default=None
+            The importance weights, all equal to one if not given.
         '''
 
         # Check that X has correct shape
         X = check_array(X)
+        weights = np.ones(len(X)) if y is None else np.asarray(y)
 
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            with pt.no_grad():
+                return self._wdro_loss.primal_loss.forward(
+                    pt.Tensor(X),
+                    pt.Tensor(weights.reshape(-1, 1))
+                ).mean().item()
         elif self.solver == "dedicated":
             return -np.mean(X, axis=0) @ self.coef_
         else:
-- 
2.43.0


From a2f18033bcd4d19ea45a50d90bec4c690ca48e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:24 +0000
Subject: [PATCH 21/34] fix: solve the robust newsvendor problem to optimality

The index at which the adversary exhausts its budget was shifted by one,
and the case of a radius large enough to nullify all the demands was
solved without robustness. The decision could be far from optimal.
---
 skwdro/solvers/specific_solvers.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index 7ab0fd7..f4fdfbf 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -10,22 +10,14 @@ def WDRONewsvendorSpecificSolver(k=5., u=7., rho=1.0, samples=None):
     assert samples is not None
     z = np.sort(samples, axis=0)
     n = z.shape[0]
-    a = np.array([sum(z[:i, 0]) for i in range(n - 1)])
-    b = np.array([n * rho - z[i + 1, 0] for i in range(n - 1)])
-    c = np.array([n * rho] * (n - 1))
-
-    lower_bound = b < a
-    upper_bound = a <= c
-
-    if not lower_bound.any():
-        lambda_star = u
-        return SAANewsvendorSpecificSolver2(k=k, u=u, samples=samples)
-    elif not upper_bound.any():
-        lambda_star = 0
-        return 0, lambda_star
-    else:
-        condition = [upper_bound[i] and lower_bound[i] for i in range(n - 1)]
-        i_star = condition.index(True) + 1
+    # The adversary nullifies the smallest demands first, until its budget is
+    # exhausted at the i_star-th one
+    unreached = np.cumsum(z[:, 0]) > n * rho
+
+    if not unreached.any():
+        # All the demands can be nullified
+        return 0., 0.
+    i_star = int(np.argmax(unreached))
 
     s = np.minimum(z / z[i_star, 0], np.ones((n, 1)))
 
-- 
2.43.0


From 0241b4c54075e8769a31c2bf114be203fdbe5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:24 +0000
Subject: [PATCH 22/34] fix: reject unknown engines in cost codes with a label
 penalty

---
 skwdro/base/cost_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 43ac647..9cfe00a 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -114,6 +114,7 @@ def parse_code_torch(
             kappa = DEFAULT_KAPPA
         elif len(splitted) == 5:
             engine_, id_, power_, type_, kappa_ = splitted
+            assert engine_ == 't', "Torch engine not recognized"
             kappa = float(kappa_)
         else:
             raise ValueError("Cost code invalid: " + code)
-- 
2.43.0


From b543d5c10cd341ebda3bd5c1ea6aa4990ffca4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:18 +0000
Subject: [PATCH 23/34] fix: refuse cost codes with too many parts

---
 skwdro/base/cost_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 9cfe00a..e2bcd2b 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -38,6 +38,8 @@ def cost_from_str(code: str) -> TorchCost:
     :rtype: TorchCost
     """
     splitted = code.split('-')
+    if len(splitted) not in (4, 5):
+        raise ValueError("Cost code invalid: " + code)
     engine_, id_, power_, type_ = splitted[:4]
     kappa = float(splitted[4]) if len(splitted) >= 5 else DEFAULT_KAPPA
     if engine_ == 't':
-- 
2.43.0


From 0175c2048ef9276e4526f60af1d7cc3acf02a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:28 +0000
Subject: [PATCH 24/34] fix: apply the l2 strength of the newsvendor estimator

---
 skwdro/operations_research/_newsvendor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index fde7211..aed9586 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -175,6 +175,7 @@ class NewsVendor(BaseEstimator):
                 learning_rate=self.learning_rate,
                 n_iter=self.n_iter,
                 adapt="prodigy" if self.learning_rate is None else None,
+                l2reg=self.l2_reg,
             )
             # Solve dual problem
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
@@ -235,7 +236,8 @@ class NewsVendor(BaseEstimator):
 
         if "entropic" in self.solver:
             with pt.no_grad():
-                return self._wdro_loss.primal_loss.forward(
+                # The decision is evaluated without its penalty
+                return self._wdro_loss.primal_loss.loss.forward(
                     pt.Tensor(X)
                 ).mean().item()
         elif self.solver == "dedicated":
-- 
2.43.0


From 447699ec7b58ef70e7e15c1838fc7fb8edc94288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:31 +0000
Subject: [PATCH 25/34] fix: restore the user's model when a gradient
 evaluation fails

---
 .../_dual_interfaces/_impsamp_interface.py    | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index cefa4fd..f325a34 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -155,9 +155,11 @@ class _SampleDisplacer(_SampledDualLoss):
                 None
             )
         )
-        psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        for module, mode in training_modes.items():
-            module.training = mode
+        try:
+            psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
+        finally:
+            for module, mode in training_modes.items():
+                module.training = mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
@@ -199,14 +201,15 @@ class _SampleDisplacer(_SampledDualLoss):
         self.freeze()
 
         # "Dual" samples for forward pass, to get the gradients wrt them
-        grad_xi, grad_xi_labels = self.compute_functional_grads(
-            xi.unsqueeze(0),
-            maybe_unsqueeze(xi_labels)
-        )
-
-        # Unfreeze the parameters that were trainable to allow training
-        for param, rg in zip(frozen_params, trainable):
-            param.requires_grad = rg
+        try:
+            grad_xi, grad_xi_labels = self.compute_functional_grads(
+                xi.unsqueeze(0),
+                maybe_unsqueeze(xi_labels)
+            )
+        finally:
+            # Unfreeze the parameters that were trainable to allow training
+            for param, rg in zip(frozen_params, trainable):
+                param.requires_grad = rg
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From e97ee57aa5b571d71e1e68d200c641b13e6cb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:31 +0000
Subject: [PATCH 26/34] fix: skip parameters without gradient in bounded groups

---
 skwdro/solvers/hybrid_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/hybrid_opt.py b/skwdro/solvers/hybrid_opt.py
index 9f140f3..1a16972 100644
--- a/skwdro/solvers/hybrid_opt.py
+++ b/skwdro/solvers/hybrid_opt.py
@@ -56,7 +56,8 @@ def rule_max(p):
 
 @prerule('bound')
 def prerule_bound(p):
-    p.grad.clip_(-BOUND, BOUND)
+    if p.grad is not None:
+        p.grad.clip_(-BOUND, BOUND)
 
 
 class HybridOpt(object):
-- 
2.43.0


From 53ea6dd079faa20af75cdbfa293e85e0c0b4855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:31 +0000
Subject: [PATCH 27/34] fix: evaluate the closure of hybrid optimizers at the
 actual parameters

---
 skwdro/solvers/hybrid_opt.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/hybrid_opt.py b/skwdro/solvers/hybrid_opt.py
index 1a16972..4e57ef3 100644
--- a/skwdro/solvers/hybrid_opt.py
+++ b/skwdro/solvers/hybrid_opt.py
@@ -74,12 +74,19 @@ class HybridOpt(object):
                     with torch.no_grad():
                         rules[key](p)
 
-    def step(self, *args, **kwargs):
+    def step(self, closure=None):
+        loss = None
+        if closure is not None:
+            # Evaluate at the parameters, before the rules reparametrize them
+            with torch.enable_grad():
+                loss = closure()
+
         self._apply_rules(PRERULES)
 
-        super(HybridOpt, self).step(*args, **kwargs)
+        super(HybridOpt, self).step()
 
         self._apply_rules(POSTRULES)
+        return loss
 
 
 class HybridSGD(HybridOpt, SGD):
-- 
2.43.0


From 24fc6f27ddb2249d54c5c8cd40022f03a0b4ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:55 +0000
Subject: [PATCH 28/34] fix: evaluate the facility without its l2 penalty

---
 skwdro/operations_research/_weber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 30478a8..287c776 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -201,7 +201,8 @@ class Weber(BaseEstimator):
 
         if "entropic" in self.solver:
             with pt.no_grad():
-                return self._wdro_loss.primal_loss.forward(
+                # The decision is evaluated without its penalty
+                return self._wdro_loss.primal_loss.loss.forward(
                     pt.Tensor(X),
                     pt.Tensor(weights.reshape(-1, 1))
                 ).mean().item()
-- 
2.43.0


From 5ea2ef41cb1ae1662983f9bc2d65c180364ce095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:44 +0000
Subject: [PATCH 29/34] fix: keep the encoded labels of two classes signed
 whatever the type of the features

The labels were stored with the type of the features. With unsigned or
boolean features, the label -1 became a positive number and the classifier
was silently trained on wrong labels.
---
 skwdro/linear_models/_logistic_regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index dd0e067..6178553 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -184,7 +184,8 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                     "Problem with labels, none out of label encoder"
                 )
             else:
-                y = np.array(y, dtype=X.dtype)
+                # The type of X may not hold negative values
+                y = np.array(y, dtype=np.float64)
             y[y == 0.] = -1.
         elif len(self.classes_) > 2:
             # Multiclass classification
-- 
2.43.0


From bfc63b43af56842c4f46655bf25fb6c4285ed705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:44 +0000
Subject: [PATCH 30/34] fix: accept reversed views and weights held as Python
 numbers

Data given as views with negative strides were refused by the tensor
conversion in the portfolio, newsvendor and Weber problems and in the class
probabilities. The evaluation of a Weber decision refused weights held as
Python objects.
---
 skwdro/linear_models/_logistic_regression.py | 1 +
 skwdro/operations_research/_newsvendor.py    | 1 +
 skwdro/operations_research/_portfolio.py     | 2 ++
 skwdro/operations_research/_weber.py         | 5 ++++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 6178553..ab07911 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -389,6 +389,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
 
         # Input validation
         X = check_array(X)
+        X = np.array(X)
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
             p = self.predict_proba_2Class(X)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index aed9586..ae20785 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -233,6 +233,7 @@ class NewsVendor(BaseEstimator):
 
         # Check that X has correct shape
         X = check_array(X)
+        X = np.array(X)
 
         if "entropic" in self.solver:
             with pt.no_grad():
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index c7115a8..5dbce70 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -150,6 +150,7 @@ class Portfolio(BaseEstimator):
 
         # Check that X has correct shape
         X = check_array(X)
+        X = np.array(X)
 
         if self.rho is not float:
             try:
@@ -288,6 +289,7 @@ class Portfolio(BaseEstimator):
 
         # Check that X has correct shape
         X = check_array(X)
+        X = np.array(X)
 
         assert self.is_fitted_  # We have to fit before evaluating
 
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 287c776..6c8c08f 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -106,6 +106,8 @@ class Weber(BaseEstimator):
         """
 
         X, y = check_X_y(X, y, y_numeric=True)
+        X = np.array(X)
+        y = np.array(y)
 
         if self.rho is not float:
             try:
@@ -195,7 +197,8 @@ class Weber(BaseEstimator):
 
         # Check that X has correct shape
         X = check_array(X)
-        weights = np.ones(len(X)) if y is None else np.asarray(y)
+        X = np.array(X)
+        weights = np.ones(len(X)) if y is None else np.array(y, dtype=float)
 
         assert self.is_fitted_  # We have to fit before evaluating
 
-- 
2.43.0


From d213544a311c801e995f0fae2bb820932f0b1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:56:34 +0000
Subject: [PATCH 31/34] fix: judge frozen labels one sample at a time

The log-density of one sample whose label was moved gave minus infinity
to all samples of the batch.
---
 skwdro/base/samplers/torch/base_samplers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index 4e8b4ef..e771c69 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -107,6 +107,10 @@ class BaseSampler(ABC):
         dist: dst.Distribution,
         data: pt.Tensor
     ) -> pt.Tensor:
+        if isinstance(dist, dst.Dirac) and data.dim() == 3:
+            # The point mass reports one joint value for the whole batch
+            away = (data != dist.loc).any(dim=-1, keepdim=True)
+            return pt.zeros_like(data[..., :1]).masked_fill(away, -pt.inf)
         lp = dist.log_prob(data)
         if lp.dim() == 3:
             return lp.sum(dim=-1, keepdim=True)
-- 
2.43.0


From 3df99378bbfb131423af42243171aa79bc434208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:56:34 +0000
Subject: [PATCH 32/34] fix: accept numpy numbers as the radius of the
 multi-class classifier

A radius of numpy double type made the predictions fail on mixed types.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index ab07911..2a51daa 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -283,7 +283,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                     module_out,
                     bias=self.fit_intercept
                 ),
-                pt.tensor(self.rho),
+                pt.tensor(float(self.rho)),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
                 _post_sample,
-- 
2.43.0


From 9ed25c4893e895b2dde8913e7e612ec270bf6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:56:34 +0000
Subject: [PATCH 33/34] fix: accept numpy integers as seeds of the samplers

---
 skwdro/base/samplers/torch/base_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index e771c69..d93af57 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -28,7 +28,7 @@ class BaseSampler(ABC):
         # Set seed
         if seed is not None:
             pt.manual_seed(seed)
-            random.seed(seed)
+            random.seed(int(seed))
 
     @abstractmethod
     def sample(
-- 
2.43.0


From 10eeae83910436d28793d8723d0e110c5d1eb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:56:34 +0000
Subject: [PATCH 34/34] fix: accept numpy integers as iteration budgets

---
 skwdro/wrap_problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/wrap_problem.py b/skwdro/wrap_problem.py
index 28b2bdf..b23506b 100644
--- a/skwdro/wrap_problem.py
+++ b/skwdro/wrap_problem.py
@@ -1,3 +1,4 @@
+from numbers import Integral
 from typing import Tuple, Optional, Union, Callable
 
 import torch as pt
@@ -214,6 +215,8 @@ def dualize_primal_loss(
         DualPostSampledLoss if post_sample
         else DualPreSampledLoss
     )
+    if isinstance(n_iter, Integral):
+        n_iter = int(n_iter)
     return loss_constructor(
         loss,
         cost,
-- 
2.43.0

