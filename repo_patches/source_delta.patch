From 4bb96f344ce896d7e92fe3aa45b79e831395ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 01/93] fix: apply the random scopes in FactorizedLeaf.forward
 when every group is a single feature

The shortcut skipped the per-repetition scope permutation in the forward pass only, so that
sampling (which follows the scopes) drew from a different distribution than forward evaluates.
---
 simple_einet/layers/factorized_leaf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bfffc05..4ba4516 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -83,9 +83,6 @@ class FactorizedLeaf(AbstractLayer):
         # Factorize input channels
         x = x.sum(dim=1)
 
-        if self.num_features == self.num_features_out:
-            return x
-
         # Merge scopes by naive factorization
         x = torch.einsum("bicr,ior->bocr", x, self.scopes)
 
-- 
2.43.0


From 5366156ab59b0f432a01a9fa11eeaadb7cbeba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 02/93] fix: build bottom-up Einets of depth 0 (undefined
 number of sums, wrong feature count)

---
 simple_einet/einet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b26470e..747ad32 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -405,10 +405,11 @@ class Einet(nn.Module):
 
         if self.config.depth == 0:
             # Create a single sum layer
+            _num_sums_out = self.config.num_sums
             layer = SumLayer(
                 num_sums_in=self.config.num_leaves,
-                num_features=1,
-                num_sums_out=self.config.num_classes,
+                num_features=self.config.num_features,
+                num_sums_out=_num_sums_out,
                 num_repetitions=self.config.num_repetitions,
                 dropout=self.config.dropout,
             )
-- 
2.43.0


From bc2676bc4e3514f4456fa31c044363ea25a2c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 03/93] fix: unfold group indices of FactorizedLeafSimple in
 the order the forward pass groups features

The forward pass folds the permuted features into consecutive blocks; sampling tiled the
group indices instead of repeating each of them, assigning leaves of the wrong group.
---
 simple_einet/layers/factorized_leaf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 4ba4516..bdd50b6 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -330,8 +330,8 @@ class FactorizedLeafSimple(AbstractLayer):
         if ctx.is_differentiable:
 
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -347,8 +347,8 @@ class FactorizedLeafSimple(AbstractLayer):
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
@@ -370,8 +370,8 @@ class FactorizedLeafSimple(AbstractLayer):
         num_params = params.shape[-1]  # Number of parameters, e.g. 2 for Normal (mu and sigma)
         if ctx.is_differentiable:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -389,8 +389,8 @@ class FactorizedLeafSimple(AbstractLayer):
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
-- 
2.43.0


From 7943ce75912de6b2c9223971e74f21a1a9d4c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 04/93] fix: dimensions of the one-hot index in
 FactorizedLeafSimple._index_leaf_params

---
 simple_einet/layers/factorized_leaf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bdd50b6..8db357a 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -383,9 +383,8 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
-            indices_out = indices_out.unsqueeze(-1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)  # make space for num_channels and num_params dim
             params = params.squeeze(-2)  # remove repetition index
-            indices_out = indices_out.unsqueeze(-1)  # make space for num_channels dim
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-- 
2.43.0


From e2a4b047d4e7beadaa53253351dbdeeefe96fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 05/93] fix: let Bernoulli leaves be sampled (accept the
 sampling context)

---
 simple_einet/layers/distributions/bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 7b52e05..0872f24 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -3,6 +3,7 @@ from torch import distributions as dist
 from torch import nn
 
 from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf
+from simple_einet.sampling_utils import SamplingContext
 
 
 class Bernoulli(AbstractLeaf):
@@ -26,6 +27,6 @@ class Bernoulli(AbstractLeaf):
         # Create bernoulli parameters
         self.probs = nn.Parameter(torch.randn(1, num_channels, num_features, num_leaves, num_repetitions))
 
-    def _get_base_distribution(self):
+    def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
-- 
2.43.0


From 78287c2cc5068ffc34c341613082d7ec0485491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 06/93] fix: disable input caches and restore the RNG state
 when sampling raises

---
 simple_einet/sampling_utils.py | 48 ++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 852731e..aa3f1d1 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -45,29 +45,31 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = spn(evidence, marginalized_scopes)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
-        if evidence is not None:
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._disable_input_cache()
-
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+    try:
+        # Run forward pass in given context
+        with context():
+            try:
+                if evidence is not None:
+                    # Enter
+                    for module in spn.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._enable_input_cache()
+
+                    _ = spn(evidence, marginalized_scopes)
+
+                # Run in context (nothing needs to be yielded)
+                yield
+            finally:
+                # Exit
+                if evidence is not None:
+                    for module in spn.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._disable_input_cache()
+    finally:
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 @dataclass
-- 
2.43.0


From d2690c66752693d3b10a697d4b236fdcb2bb9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 07/93] fix: honour bounds that are zero in check_valid

---
 simple_einet/type_checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/type_checks.py b/simple_einet/type_checks.py
index 6394610..f98d10b 100644
--- a/simple_einet/type_checks.py
+++ b/simple_einet/type_checks.py
@@ -47,12 +47,12 @@ def _check_bounds(value: Any, expected_type, lower_bound=None, upper_bound=None)
         OutOfBoundsException: If the value is outside the specified bounds.
     """
     # Check lower bound
-    if lower_bound:
+    if lower_bound is not None:
         if not value >= expected_type(lower_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
     # Check upper bound
-    if upper_bound:
+    if upper_bound is not None:
         if not value < expected_type(upper_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
-- 
2.43.0


From ab878241b79489f9f9122a57d00f33454abf6fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 08/93] fix: apply the mean bounds of RatNormal when max_mean
 is zero

---
 simple_einet/layers/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 5a8273b..759b16c 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -105,7 +105,7 @@ class RatNormal(AbstractLeaf):
         else:
             sigma = 1.0
         means = self.means
-        if self.max_mean:
+        if self.max_mean is not None:
             assert self.min_mean is not None
             mean_range = self.max_mean - self.min_mean
             means = torch.sigmoid(self.means) * mean_range + self.min_mean
-- 
2.43.0


From 021fa835844b3f77d7002d2464b83e5a503d0a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 09/93] fix: sample classes from the uniform prior

The uniform log-weights were stored in an attribute nobody reads while sampling used the
randomly initialised logits, contradicting the uniform prior of posterior().
---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 747ad32..f46e2d3 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -332,7 +332,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
@@ -466,7 +466,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
-- 
2.43.0


From 72d9f80de5bbcdc704346eeff86b9d1e7413bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 10/93] fix: sample one row per entry of a class_index list
 (also differentiably)

---
 simple_einet/einet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index f46e2d3..8ff2fb9 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -585,6 +585,9 @@ class Einet(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample for each given class index
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -626,8 +629,7 @@ class Einet(nn.Module):
                             indices = torch.zeros(
                                 size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
                             ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requireds_grad_(True)  # Enable gradients
-                        num_samples = indices.shape[0]
+                            indices.requires_grad_(True)  # Enable gradients
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
                         indices.fill_(class_index)
-- 
2.43.0


From c95bf759bcd24f2ae9e7d2a95352c62f4198e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 11/93] fix: sample classes from their posterior when evidence
 is given

---
 simple_einet/einet.py          | 6 +++++-
 simple_einet/sampling_utils.py | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 8ff2fb9..460422c 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -615,7 +615,7 @@ class Einet(nn.Module):
             is_differentiable=is_differentiable,
             return_leaf_params=return_leaf_params,
         )
-        with sampling_context(self, evidence, marginalized_scopes, requires_grad=is_differentiable, seed=seed):
+        with sampling_context(self, evidence, marginalized_scopes, requires_grad=is_differentiable, seed=seed) as lls_evidence:
             if self.config.num_classes > 1:
                 # If class is given, use it as base index
                 if class_index is not None:
@@ -643,6 +643,10 @@ class Einet(nn.Module):
 
                     ctx.indices_out = indices
                 else:
+                    if evidence is not None:
+                        # Cache the class likelihoods of the evidence, such that classes are sampled from p(C | evidence)
+                        self._class_sampling_root(lls_evidence.view(num_samples, 1, self.config.num_classes, 1))
+
                     # Sample class index from root
                     ctx = self._class_sampling_root.sample(ctx=ctx)
 
diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index aa3f1d1..71acc93 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -55,10 +55,12 @@ def sampling_context(
                         if hasattr(module, "_enable_input_cache"):
                             module._enable_input_cache()
 
-                    _ = spn(evidence, marginalized_scopes)
+                    lls_evidence = spn(evidence, marginalized_scopes)
+                else:
+                    lls_evidence = None
 
-                # Run in context (nothing needs to be yielded)
-                yield
+                # Run in context (with the log-likelihoods of the evidence if given)
+                yield lls_evidence
             finally:
                 # Exit
                 if evidence is not None:
-- 
2.43.0


From 56f4a0f95d0f819c9e2f939e75616231c37c1e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 12/93] fix: assign all features of a multivariate leaf to the
 component chosen for its group when sampling

---
 simple_einet/layers/factorized_leaf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 8db357a..028e69b 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -8,6 +8,14 @@ from simple_einet.layers.distributions import AbstractLeaf
 from simple_einet.sampling_utils import SamplingContext, index_one_hot
 
 
+def _expand_to_base_features(indices: torch.Tensor, base_leaf: AbstractLeaf, dim: int) -> torch.Tensor:
+    """Expand indices from groups of the base leaf (multivariate distributions) to its single features."""
+    if base_leaf.cardinality == 1:
+        return indices
+    indices = indices.repeat_interleave(base_leaf.cardinality, dim=dim)
+    return indices.narrow(dim, 0, base_leaf.num_features)
+
+
 class FactorizedLeaf(AbstractLayer):
     """
     A 'meta'-leaf layer that combines multiple scopes of a base-leaf layer via naive factorization.
@@ -139,6 +147,7 @@ class FactorizedLeaf(AbstractLayer):
 
             indices_in = index_one_hot(indices_out.unsqueeze(1), index=scopes.unsqueeze(-1), dim=2)
             indices_in = indices_in.unsqueeze(1)  # make space for channel dim
+            indices_in = _expand_to_base_features(indices_in, self.base_leaf, dim=2)
             samples = index_one_hot(samples, index=indices_in, dim=-1)
         else:
             # Select the correct repetitions
@@ -149,7 +158,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1)
 
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1)
+            indices_in_gather = _expand_to_base_features(indices_in_gather, self.base_leaf, dim=2)
             samples = samples.gather(dim=-1, index=indices_in_gather)
             samples.squeeze_(-1)  # Remove num_leaves dimension
         return samples
@@ -344,6 +353,7 @@ class FactorizedLeafSimple(AbstractLayer):
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
             indices_out = indices_out.unsqueeze(1)  # make space for channel dim
+            indices_out = _expand_to_base_features(indices_out, self.base_leaf, dim=2)
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
@@ -358,6 +368,7 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, :, : -self.num_dummy_nodes]
 
+            indices_out = _expand_to_base_features(indices_out, self.base_leaf, dim=2)
             indices_out = indices_out.unsqueeze(-1)
             samples = samples.gather(index=indices_out, dim=-1)
             samples = samples.squeeze(-1)
-- 
2.43.0


From ba0f114056d99389b2634138201afdd5e265f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 13/93] fix: pad multivariate normal leaves with marginalized
 dummy variables

Padding by reflection raised for most sizes, and otherwise evaluated the density of an observed
value twice; drop the terms of the dummies instead (their exact marginal) and cut them when sampling.
---
 .../distributions/multivariate_normal.py      | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/simple_einet/layers/distributions/multivariate_normal.py b/simple_einet/layers/distributions/multivariate_normal.py
index efea9d7..680681a 100644
--- a/simple_einet/layers/distributions/multivariate_normal.py
+++ b/simple_einet/layers/distributions/multivariate_normal.py
@@ -40,7 +40,7 @@ class MultivariateNormal(AbstractLeaf):
 
         """
         super().__init__(num_features, num_channels, num_leaves, num_repetitions, cardinality)
-        self._pad_value = num_features % cardinality
+        self._pad_value = -num_features % cardinality
         self.out_features = np.ceil(num_features / cardinality).astype(int)
 
         # Number of separate mulitvariate normal distributions, each covering #cardinality features
@@ -112,9 +112,9 @@ class CustomMultivariateNormalDist:
     def log_prob(self, x: torch.Tensor) -> torch.Tensor:
         batch_size = x.shape[0]
 
-        # Pad dummy variable via reflection
+        # Pad dummy variables
         if self._pad_value != 0:
-            x = F.pad(x, pad=[0, 0, 0, self._pad_value], mode="reflect")
+            x = F.pad(x, pad=[0, 0, 0, 0, 0, self._pad_value])
 
         # Split features into groups
         x = x.view(
@@ -133,10 +133,30 @@ class CustomMultivariateNormalDist:
         x = x.view(batch_size, self._num_dists, self.cardinality)
 
         # Compute multivariate gaussians
-        x = self.mv.log_prob(x)
+        if self._pad_value == 0:
+            x = self.mv.log_prob(x)
+        else:
+            x = self._log_prob_marginalized(x)
         x = x.view(x.shape[0], self.num_channels, self.out_features, self.num_leaves, self.num_repetitions)
         return x
 
+    def _log_prob_marginalized(self, x: torch.Tensor) -> torch.Tensor:
+        """Log probability with the padded dummy variables (the last ones of the last group) marginalized.
+
+        Since scale_tril is lower triangular, log p(x) is a sum over variables in which the terms of the first
+        variables do not depend on the later ones, such that dropping the terms of the dummies marginalizes them.
+        """
+        diff = (x - self.mean).unsqueeze(-1)
+        z = torch.linalg.solve_triangular(self.scale_tril, diff, upper=False).squeeze(-1)
+        log_diag = self.scale_tril.diagonal(dim1=-2, dim2=-1).log()
+        terms = -0.5 * z**2 - log_diag - 0.5 * np.log(2 * np.pi)
+
+        mask = torch.ones(self.out_features, self.cardinality, device=x.device)
+        mask[-1, -self._pad_value :] = 0.0
+        mask = mask.view(1, self.out_features, 1, 1, self.cardinality)
+        mask = mask.expand(self.num_channels, -1, self.num_leaves, self.num_repetitions, -1)
+        return (terms * mask.reshape(self._num_dists, self.cardinality)).sum(-1)
+
     def sample(self, sample_shape: Tuple[int]) -> torch.Tensor:
         samples = self.mv.sample(sample_shape=sample_shape)
 
@@ -150,9 +170,8 @@ class CustomMultivariateNormalDist:
         )
 
         samples = samples.permute(0, 1, 2, 5, 3, 4)
-        samples = samples.reshape(
-            sample_shape[0], self.num_channels, self.num_features, self.num_leaves, self.num_repetitions
-        )
+        samples = samples.reshape(sample_shape[0], self.num_channels, -1, self.num_leaves, self.num_repetitions)
+        samples = samples[:, :, : self.num_features]  # Remove dummy variables
 
         # Add empty dimension to align shape with samples from uniform distributions such that this layer can be used in
         # the same way as other layers in dist_sample (abstract_leaf.py)
@@ -182,7 +201,6 @@ class CustomMultivariateNormalDist:
         )
 
         samples = samples.permute(0, 1, 2, 5, 3, 4)
-        samples = samples.reshape(
-            num_samples, self.num_channels, self.num_features, self.num_leaves, self.num_repetitions
-        )
+        samples = samples.reshape(num_samples, self.num_channels, -1, self.num_leaves, self.num_repetitions)
+        samples = samples[:, :, : self.num_features]  # Remove dummy variables
         return samples
-- 
2.43.0


From 1e827e861934e40a0fcccc616d80f01556ea6961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 14/93] fix: accept non-contiguous inputs and evidence
 (channels-last images, slices)

---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 460422c..2b912f8 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -136,7 +136,7 @@ class Einet(nn.Module):
             x = x.unsqueeze(1)
 
         if x.dim() == 4:  # [N, C, H, W]
-            x = x.view(x.shape[0], self.config.num_channels, -1)
+            x = x.reshape(x.shape[0], self.config.num_channels, -1)
 
         assert x.dim() == 3
         assert (
@@ -691,7 +691,7 @@ class Einet(nn.Module):
                 # First make a copy such that the original object is not changed
                 evidence = evidence.clone().float()
                 shape_evidence = evidence.shape
-                evidence = evidence.view_as(samples)
+                evidence = evidence.reshape(samples.shape)
                 if marginalized_scopes is None:
                     mask = torch.isnan(evidence)
                     evidence[mask] = samples[mask].to(evidence.dtype)
-- 
2.43.0


From f4c7d5b5fb6986e55828effad0482d959e8f32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 15/93] fix: accept non-contiguous inputs in the multivariate
 normal leaf

---
 simple_einet/layers/distributions/multivariate_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multivariate_normal.py b/simple_einet/layers/distributions/multivariate_normal.py
index 680681a..c246f2e 100644
--- a/simple_einet/layers/distributions/multivariate_normal.py
+++ b/simple_einet/layers/distributions/multivariate_normal.py
@@ -117,7 +117,7 @@ class CustomMultivariateNormalDist:
             x = F.pad(x, pad=[0, 0, 0, 0, 0, self._pad_value])
 
         # Split features into groups
-        x = x.view(
+        x = x.reshape(
             batch_size,
             self.num_channels,
             self.out_features,
-- 
2.43.0


From 711308c4a37df58bd3afe84c4c4543a411aa6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 16/93] fix: shape of the one-hot class indices in
 differentiable sampling

---
 simple_einet/einet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 2b912f8..791478b 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -627,8 +627,8 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
                             indices.requires_grad_(True)  # Enable gradients
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
@@ -637,8 +637,8 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
                             indices.requires_grad_(True)  # Enable gradients
 
                     ctx.indices_out = indices
-- 
2.43.0


From 08e4a0cf53b5c5b2db485359ed234f3138daa57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 17/93] fix: mode of a saturated Binomial leaf exceeded
 total_count

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 6b1edc4..23fe48f 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -77,7 +77,7 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
     elif isinstance(distribution, dist.Binomial) or isinstance(distribution, DifferentiableBinomial):
         mode = distribution.probs.clone()
         total_count = distribution.total_count
-        mode = torch.floor(mode * (total_count + 1))
+        mode = torch.floor(mode * (total_count + 1)).clamp(max=total_count)
         if mode.shape[0] == 1:
             return mode.repeat(ctx.num_samples, 1, 1, 1, 1)
         else:
-- 
2.43.0


From f7ee0e88497e848ca38e4e248c23bf6f6be5edae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 18/93] fix: NaN gradients of differentiable sampling with
 saturated Binomial leaves

---
 simple_einet/layers/distributions/binomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/binomial.py b/simple_einet/layers/distributions/binomial.py
index 70532ec..f4d86d3 100644
--- a/simple_einet/layers/distributions/binomial.py
+++ b/simple_einet/layers/distributions/binomial.py
@@ -106,7 +106,8 @@ class DifferentiableBinomial:
             torch.Tensor: A tensor of shape (sample_shape[0], batch_size), containing the drawn samples.
         """
         mu = self.total_count * self.probs
-        sigma = torch.sqrt(self.total_count * self.probs * (1 - self.probs))
+        var = self.total_count * self.probs * (1 - self.probs)
+        sigma = torch.sqrt(var.clamp(min=torch.finfo(var.dtype).tiny))  # The gradient of sqrt is not finite at zero
         epsilon = torch.randn(sample_shape + mu.shape, device=mu.device)
         samples = mu + sigma * epsilon
         samples.clip_(min=0, max=self.total_count)
-- 
2.43.0


From a3f60479118686b36aa23db257573af575ec74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 19/93] fix: dropout of sum layers crashed or dropped all
 children of a node

---
 simple_einet/abstract_layers.py | 22 ++++++++++++++++++++++
 simple_einet/layers/linsum.py   | 24 +++++-------------------
 simple_einet/layers/sum.py      |  9 +--------
 3 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/simple_einet/abstract_layers.py b/simple_einet/abstract_layers.py
index 514931f..e5664d1 100644
--- a/simple_einet/abstract_layers.py
+++ b/simple_einet/abstract_layers.py
@@ -157,6 +157,28 @@ class AbstractSumLayer(AbstractLayer):
         self._is_input_cache_enabled = False
         self._input_cache.clear()
 
+    def _sample_dropout_mask(self, shape: Tuple[int, ...], dim: int) -> torch.Tensor:
+        """
+        Samples a dropout mask in the log domain: 0 for children that are kept and -inf for children that are dropped.
+
+        At least one child of each sum node is kept.
+
+        Args:
+            shape (Tuple[int, ...]): Shape of the mask.
+            dim (int): Dimension of the sum node children.
+
+        Returns:
+            torch.Tensor: Log-domain dropout mask.
+        """
+        dropout_indices = self._bernoulli_dist.sample(shape).bool()
+        invalid_index = dropout_indices.all(dim=dim, keepdim=True)
+        while invalid_index.any():
+            # Resample only nodes for which all children have been dropped
+            resampled = self._bernoulli_dist.sample(shape).bool()
+            dropout_indices = torch.where(invalid_index, resampled, dropout_indices)
+            invalid_index = dropout_indices.all(dim=dim, keepdim=True)
+        return torch.log(1.0 - dropout_indices.float())
+
     @property
     def _device(self):
         """Returns the device of the layer's logits."""
diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index ecd47ac..37f55e5 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -89,14 +89,7 @@ class LinsumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
+            prod_output = prod_output + self._sample_dropout_mask(prod_output.shape, dim=2)
 
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
@@ -272,6 +265,10 @@ class LinsumLayer2(AbstractSumLayer):
         if self._is_input_cache_enabled:
             self._input_cache["x"] = x
 
+        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
+        if self.dropout > 0.0 and self.training:
+            x = x + self._sample_dropout_mask(x.shape, dim=2)
+
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
         x = x.unsqueeze(3)
@@ -287,17 +284,6 @@ class LinsumLayer2(AbstractSumLayer):
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
-        if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
-
         return prod_output
 
     def _sample_from_weights(self, ctx, log_weights):
diff --git a/simple_einet/layers/sum.py b/simple_einet/layers/sum.py
index 4080716..af72be1 100644
--- a/simple_einet/layers/sum.py
+++ b/simple_einet/layers/sum.py
@@ -67,14 +67,7 @@ class SumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(x.shape)
-            invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
-            dropout_indices = torch.log(1 - dropout_indices)
-            x = x + dropout_indices
+            x = x + self._sample_dropout_mask(x.shape, dim=2)
 
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
-- 
2.43.0


From 2e732d44f6861343aad9c01669c10f6910941902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 20/93] fix: pass dropout on in EinsumLayer and apply it out of
 place

---
 simple_einet/layers/einsum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index bb6e6a6..e482781 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -64,6 +64,7 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions=num_repetitions,
             num_sums_in=num_sums_in,
             num_sums_out=num_sums_out,
+            dropout=dropout,
         )
 
         # Create index map from flattened to coordinates (only needed in sampling)
@@ -115,8 +116,7 @@ class EinsumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
-            x[dropout_indices] = np.NINF
+            x = x + self._sample_dropout_mask(x.shape, dim=2)
 
         # Dimensions
         N, D, C, R = x.size()
-- 
2.43.0


From f9605e237e3debc9b977c51e9734901022e65740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 21/93] fix: reject multivariate leaves in bottom-up structures
 at configuration time

---
 simple_einet/einet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 791478b..ec7ce71 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -74,6 +74,7 @@ class EinetConfig:
 
         if self.structure == "bottom-up":
             assert self.layer_type == "linsum", "Bottom-up structure only supports LinsumLayer due to handling of padding (not implemented for einsumlayer yet)."
+            assert cardinality == 1, "Bottom-up structure only supports univariate leaf distributions (cardinality 1)."
 
         # Get minimum number of features present at the lowest layer (num_features is the actual input dimension,
         # cardinality in multivariate distributions reduces this dimension since it merges groups of size #cardinality)
-- 
2.43.0


From 096527e64e1ede19ed87620020eaa243c91de930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 22/93] fix: require that the scopes of MultiDistributionLayer
 cover each feature exactly once

---
 simple_einet/layers/distributions/multidistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5eefab4..b235722 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -41,7 +41,7 @@ class MultiDistributionLayer(AbstractLeaf):
             for scope in scopes:
                 all_scopes.append(scope)
 
-        assert len(all_scopes) == num_features
+        assert sorted(all_scopes) == list(range(num_features)), "Scopes must cover each feature exactly once."
         scope_list = []
         dists = []
         for scopes, dist_class, dist_kwargs in scopes_to_dist:
-- 
2.43.0


From 72bef1edcdd30e9538d766a123d0c54663e7e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 23/93] fix: Mixture ignored marginalized scopes in the
 components' likelihoods

---
 simple_einet/mixture.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b8bab3a..63bf962 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -96,7 +96,10 @@ class Mixture(nn.Module):
         data_idxs_all = []
         for cluster_idx, data_list in separated_data.items():
             data_tensor = torch.stack(data_list, dim=0)
-            lls = self.models[cluster_idx](data_tensor)
+            if marginalized_scope is not None:
+                lls = self.models[cluster_idx](data_tensor, marginalized_scope)
+            else:
+                lls = self.models[cluster_idx](data_tensor)
 
             data_idxs = separated_idxs[cluster_idx]
             for data_idx, ll in zip(data_idxs, lls):
-- 
2.43.0


From 30f55eb1d491dad5f4ed934fa9c833711d585d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 24/93] fix: mixture weights of empty clusters were missing

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 63bf962..fd17d9a 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -57,7 +57,7 @@ class Mixture(nn.Module):
 
         data = data.float()  # input has to be [n, d]
         predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
-        counts = torch.bincount(predictions)
+        counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
         self.centroids.data = self._kmeans.centroids
-- 
2.43.0


From 6650353e0fd6ffc69313d1c311cfe61462cdebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 25/93] fix: choose the mixture component on the observed
 features of all channels

---
 simple_einet/mixture.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index fd17d9a..506e5e2 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -26,7 +26,7 @@ class Mixture(nn.Module):
         for _ in range(n_components):
             if isinstance(config, EinetConfig):
                 model = Einet(config)
-                self.num_features = config.num_features
+                self.num_features = config.num_features * config.num_channels
             elif isinstance(config, ConvPcConfig):
                 assert data_shape is not None, "data_shape must not be None (required for ConvPc)"
                 self.num_features = data_shape.num_pixels * data_shape.channels
@@ -67,14 +67,25 @@ class Mixture(nn.Module):
             self.centroids.data = self.centroids.data * self.config.leaf_kwargs["total_count"]
 
     def _predict_cluster(self, x, marginalized_scopes: Optional[List[int]] = None):
-        x = x.view(x.shape[0], -1)  # input needs to be [n, d]
+        x = x.reshape(x.shape[0], -1)  # input needs to be [n, d]
         if marginalized_scopes is not None:
-            keep_idx = list(sorted([i for i in range(self.num_features) if i not in marginalized_scopes]))
+            # A scope covers the same feature in all channels
+            scopes = set(torch.as_tensor(marginalized_scopes).tolist())
+            n = self.num_features // self.config.num_channels
+            keep_idx = list(sorted([i for i in range(self.num_features) if i % n not in scopes]))
             centroids = self.centroids[:, keep_idx]
             x = x[:, keep_idx]
         else:
             centroids = self.centroids
-        return self._kmeans.max_sim(a=x.float(), b=centroids)[1]
+
+        x = x.float()
+        observed = ~torch.isnan(x)
+        if not observed.all():
+            # Compare with the centroids only in the observed features
+            x = torch.where(observed, x, 0.0)
+            distances = -2 * x @ centroids.t() + observed.float() @ (centroids**2).t()
+            return distances.argmin(dim=1)
+        return self._kmeans.max_sim(a=x, b=centroids)[1]
 
     def _separate_data_by_cluster(self, x: torch.Tensor, marginalized_scope: List[int]):
         cluster_idxs = self._predict_cluster(x, marginalized_scope).tolist()
-- 
2.43.0


From 4bd133be9770df1ac2e11b9f9b8af755f6d02ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 26/93] fix: order and number of unconditional Mixture samples

---
 simple_einet/mixture.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 506e5e2..f15898d 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -151,12 +151,12 @@ class Mixture(nn.Module):
         elif num_samples is None:
             num_samples = 1
 
-        if is_mpe:
-            # Take cluster idx with largest weights
-            cluster_idxs = [self.mixture_weights.argmax().item()]
+        if num_samples_per_cluster is not None:
+            cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
         else:
-            if num_samples_per_cluster is not None:
-                cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
+            if is_mpe:
+                # Take cluster idx with largest weights
+                cluster_idxs = [self.mixture_weights.argmax().item()] * num_samples
             else:
                 # Sample from categorical over weights
                 cluster_idxs = (
@@ -165,14 +165,16 @@ class Mixture(nn.Module):
 
         if evidence is None:
             # Sample without evidence
-            separated_idxs = defaultdict(int)
-            for cluster_idx in cluster_idxs:
-                separated_idxs[cluster_idx] += 1
+            separated_idxs = defaultdict(list)
+            for sample_idx, cluster_idx in enumerate(cluster_idxs):
+                separated_idxs[cluster_idx].append(sample_idx)
 
             samples_all = []
-            for cluster_idx, num_samples_cluster in separated_idxs.items():
+            sample_idxs_all = []
+            for cluster_idx, sample_idxs in separated_idxs.items():
+                sample_idxs_all.extend(sample_idxs)
                 samples = self.models[cluster_idx].sample(
-                    num_samples_cluster,
+                    len(sample_idxs),
                     class_index=class_index,
                     evidence=evidence,
                     is_mpe=is_mpe,
@@ -184,10 +186,8 @@ class Mixture(nn.Module):
                 )
                 samples_all.append(samples)
 
-            samples = torch.cat(samples_all, dim=0)
-
-            # Sort results into original order as observed in the batch
-            L = [(cluster_idxs[i], i) for i in range(len(cluster_idxs))]
+            # Sort results into the order in which the clusters were drawn
+            L = [(sample_idxs_all[i], i) for i in range(len(sample_idxs_all))]
             L.sort()
             _, permutation = zip(*L)
             permutation = torch.tensor(permutation, device=samples.device).view(-1)
-- 
2.43.0


From bcaf1a7c129b9cbac09b978039419cc08b757ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 27/93] fix: a seed covers the choice of clusters and draws
 independent samples per cluster in Mixture

---
 simple_einet/mixture.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index f15898d..ccdba66 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -11,6 +11,7 @@ from torch.utils.data import DataLoader
 
 from simple_einet.einet import EinetConfig, Einet
 from simple_einet.layers.distributions.binomial import Binomial
+from simple_einet.sampling_utils import sampling_context
 from simple_einet.type_checks import check_valid
 
 
@@ -140,6 +141,21 @@ class Mixture(nn.Module):
         seed=None,
         mpe_at_leaves: bool = False,
     ):
+        if seed is not None:
+            # Seed the choice of the clusters and the samples of all clusters at once
+            with sampling_context(self, requires_grad=True, seed=seed):
+                return self.sample(
+                    num_samples=num_samples,
+                    num_samples_per_cluster=num_samples_per_cluster,
+                    class_index=class_index,
+                    evidence=evidence,
+                    is_mpe=is_mpe,
+                    temperature_leaves=temperature_leaves,
+                    temperature_sums=temperature_sums,
+                    marginalized_scopes=marginalized_scopes,
+                    mpe_at_leaves=mpe_at_leaves,
+                )
+
         assert num_samples is None or num_samples_per_cluster is None
         if num_samples is None and num_samples_per_cluster is not None:
             num_samples = num_samples_per_cluster * self.n_components
@@ -181,7 +197,6 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
-                    seed=seed,
                     mpe_at_leaves=mpe_at_leaves,
                 )
                 samples_all.append(samples)
-- 
2.43.0


From f72ff4f6857b54ec1a78f221b1e620687072ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 28/93] fix: Mixture ignored mpe_at_leaves for conditional
 sampling

---
 simple_einet/mixture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index ccdba66..0346ebd 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -224,6 +224,7 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
+                    mpe_at_leaves=mpe_at_leaves,
                 )
 
                 evidence_idxs = separated_idxs[cluster_idx]
-- 
2.43.0


From db1faa91691d5c8202e97c7d7eb49cd39142dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 29/93] fix: conditional sampling of ConvPc called a method
 that does not exist

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 6ce7473..8616ead 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -123,7 +123,7 @@ def sampling_context(
                 if hasattr(module, "_enable_input_cache"):
                     module._enable_input_cache()
 
-            _ = model.log_likelihood(x=evidence)
+            _ = model(evidence)
 
         # Run in context (nothing needs to be yielded)
         yield
-- 
2.43.0


From b8ab7609d99d597b07b38ee2a28a8ef7a0c9c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 30/93] fix: ConvPc with a single leaf channel lost its channel
 dimension

---
 simple_einet/conv_pc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 8616ead..8612516 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -638,9 +638,6 @@ class ConvPc(nn.Module):
         # Factorize data input channels
         x = x.sum(1)
 
-        # Remove empty repetition dimension (artifact from Einet implementation)
-        x = x.squeeze(-1)
-
         # Permute from (N, H, W, C) to (N, C, H, W)
         x = x.permute(0, 3, 1, 2)
 
-- 
2.43.0


From 6504ce2b63cafb23d437eab0f051dbca1e399a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 31/93] fix: disable input caches and restore the RNG state
 when ConvPc sampling raises

---
 simple_einet/conv_pc.py | 48 +++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 8612516..913a26a 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -115,29 +115,31 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = model(evidence)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
-        # Exit
-        if evidence is not None:
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._disable_input_cache()
-
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+    try:
+        # Run forward pass in given context
+        with context():
+            try:
+                if evidence is not None:
+                    # Enter
+                    for module in model.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._enable_input_cache()
+
+                    _ = model(evidence)
+
+                # Run in context (nothing needs to be yielded)
+                yield
+            finally:
+                # Exit
+                if evidence is not None:
+                    for module in model.modules():
+                        if hasattr(module, "_enable_input_cache"):
+                            module._disable_input_cache()
+    finally:
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 class SumConv(nn.Module):
-- 
2.43.0


From e49fd68d3aa1d51deb3e44845cfb405c481351aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 32/93] fix: normalise the weights of SumConv over its input
 channels when sampling

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 913a26a..ac8e240 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -264,7 +264,7 @@ class SumConv(nn.Module):
         logits = logits.permute(0, 1, 2, 4, 3, 5)  # 0 1 2 4 3 5 -> 0 1 2 3 4 5
         logits = logits.contiguous().view(N, Ci, H, W)
 
-        log_weights = logits_to_log_weights(logits, dim=2, temperature=ctx.temperature_sums)
+        log_weights = logits_to_log_weights(logits, dim=1, temperature=ctx.temperature_sums)
         return log_weights
         log_weights_2 = log_weights
 
-- 
2.43.0


From 3cf7d6ffea162fb8e23be110306aad016bb146d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 33/93] fix: accept non-contiguous images and evidence in
 ConvPc

---
 simple_einet/conv_pc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index ac8e240..4d5a5f3 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -631,7 +631,7 @@ class ConvPc(nn.Module):
         return next(self.parameters()).device
 
     def _forward_leaf_data(self, x):
-        x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
+        x = x.reshape(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
         x = self.leaf_data(x, marginalized_scopes=None)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
@@ -724,7 +724,7 @@ class ConvPc(nn.Module):
             # First make a copy such that the original object is not changed
             evidence = evidence.clone().float()
             shape_evidence = evidence.shape
-            evidence = evidence.view_as(samples)
+            evidence = evidence.reshape(samples.shape)
             mask = torch.isnan(evidence)
             evidence[mask] = samples[mask].to(evidence.dtype)
             evidence = evidence.view(shape_evidence)
-- 
2.43.0


From cb549ca657775786b0b2f37d83d646d702cb2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 34/93] fix: discrete piecewise linear samples were category
 indices instead of domain values

---
 simple_einet/layers/distributions/piecewise_linear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index a7f54eb..2a2f5f8 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -319,7 +319,10 @@ class PiecewiseLinearDist:
                             # Sample from a categorical distribution
                             ys_i_wo_tails = ys_i[1:-1]  # Cut off the tail breaks
                             dist = torch.distributions.Categorical(probs=ys_i_wo_tails)
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = dist.sample(sample_shape)
+                            # Map the sampled category to its domain value
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = xs_i[1:-1][
+                                dist.sample(sample_shape)
+                            ]
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Compute the CDF for this piecewise function
                             cdf = self._compute_cdf(xs_i, ys_i)
-- 
2.43.0


From 42cac09d1405f1f53826a9c4c9d9676470c9bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 35/93] fix: normalise discrete piecewise linear leaves over
 the values of their domain

---
 .../layers/distributions/piecewise_linear.py        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 2a2f5f8..9a23877 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -127,9 +127,8 @@ class PiecewiseLinear(AbstractLeaf):
                                 densities = torch.ones(len(mids), device=data.device) / len(mids)
                             else:
                                 # Compute counts
-                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu(), density=True).hist.to(
-                                    data.device
-                                )
+                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu()).hist.to(data.device)
+                                densities = densities / densities.sum()
 
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Find histogram bins using numpys "auto" logic
@@ -179,8 +178,12 @@ class PiecewiseLinear(AbstractLeaf):
                         x = torch.tensor(x, device=data.device)  # , requires_grad=True)
                         y = torch.tensor(y, device=data.device)  # , requires_grad=True)
 
-                        # Compute AUC using the trapeziod rule
-                        auc = torch.trapezoid(x=x, y=y)
+                        if self.domains[i_feature].data_type == DataType.DISCRETE:
+                            # The values of y are probabilities
+                            auc = y.sum()
+                        else:
+                            # Compute AUC using the trapeziod rule
+                            auc = torch.trapezoid(x=x, y=y)
 
                         # Normalize y to sum to 1 using AUC
                         y = y / auc
-- 
2.43.0


From d8eb38e212e67477d72e7ce7d30140619e2e3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 36/93] fix: empty clusters made piecewise linear densities NaN
 or failed

---
 .../layers/distributions/piecewise_linear.py         | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 9a23877..55dc6ae 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -92,7 +92,7 @@ class PiecewiseLinear(AbstractLeaf):
             kmeans.fit(data.view(data.shape[0], -1).float())
 
             predictions = kmeans.predict(data.view(data.shape[0], -1).float())
-            counts = torch.bincount(predictions)
+            counts = torch.bincount(predictions, minlength=self.num_leaves)
             self.mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
@@ -135,9 +135,13 @@ class PiecewiseLinear(AbstractLeaf):
                             bins, _ = _get_bin_edges_torch(data_subset)
 
                             # Construct histogram
-                            densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
-                                data.device
-                            )
+                            if data_subset.shape[0] == 0:
+                                # If there is no data in this cluster, set the density to uniform
+                                densities = torch.ones(len(bins) - 1, device=data.device)
+                            else:
+                                densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
+                                    data.device
+                                )
                             breaks = bins
                             mids = ((breaks + torch.roll(breaks, shifts=-1, dims=0)) / 2)[:-1]
                         else:
-- 
2.43.0


From 836861d281a408fd7822bd4d922419675802fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 37/93] fix: draw piecewise linear samples from the linear
 density within each segment

---
 simple_einet/layers/distributions/piecewise_linear.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 55dc6ae..35b731e 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -343,13 +343,16 @@ class PiecewiseLinearDist:
                             # Clamp indices to be within valid range
                             indices = torch.clamp(indices, 1, len(xs_i) - 1)
 
-                            # Perform linear interpolation to get the sample value
+                            # Invert the CDF of the segment, which is quadratic since the density is linear
                             x0, x1 = xs_i[indices - 1], xs_i[indices]
-                            cdf0, cdf1 = cdf[indices - 1], cdf[indices]
-                            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)  # Avoid division by zero
+                            y0, y1 = ys_i[indices - 1], ys_i[indices]
+                            area = u - cdf[indices - 1]
+                            slope = (y1 - y0) / (x1 - x0)
+                            root = torch.sqrt((y0**2 + 2 * slope * area).clamp(min=0.0))
+                            offset = 2 * area / (y0 + root).clamp(min=1e-8)  # Avoid division by zero
 
                             # Compute the sampled value
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + slope * (u - cdf0)
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = torch.minimum(x0 + offset, x1)
                         else:
                             raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
 
-- 
2.43.0


From c7494c495c8da6c8392d0c72e423786de9632f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 38/93] fix: initialise piecewise linear leaves from
 non-contiguous data

---
 simple_einet/layers/distributions/piecewise_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 35b731e..1d89fdb 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -89,14 +89,14 @@ class PiecewiseLinear(AbstractLeaf):
 
             # Cluster data into num_leaves clusters
             kmeans = KMeans(n_clusters=self.num_leaves, mode="euclidean", verbose=0, init_method="random")
-            kmeans.fit(data.view(data.shape[0], -1).float())
+            kmeans.fit(data.reshape(data.shape[0], -1).float())
 
-            predictions = kmeans.predict(data.view(data.shape[0], -1).float())
+            predictions = kmeans.predict(data.reshape(data.shape[0], -1).float())
             counts = torch.bincount(predictions, minlength=self.num_leaves)
             self.mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
-            cluster_idxs = kmeans.max_sim(a=data.view(data.shape[0], -1).float(), b=kmeans.centroids)[1]
+            cluster_idxs = kmeans.max_sim(a=data.reshape(data.shape[0], -1).float(), b=kmeans.centroids)[1]
             for cluster_idx in range(self.num_leaves):
 
                 # Select data for this cluster
-- 
2.43.0


From 22013ae387f1a8fb57c8baadde58bc27d278e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 39/93] fix: save the functions of piecewise linear leaves in
 the state dict

---
 .../layers/distributions/piecewise_linear.py  | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 1d89fdb..b0ed549 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -223,6 +223,27 @@ class PiecewiseLinear(AbstractLeaf):
         self.xs = None
         self.ys = None
 
+    def get_extra_state(self):
+        # The piecewise linear functions are ragged lists of tensors and hence no parameters or buffers
+        if not self.is_initialized:
+            return None
+        return {
+            "xs": self.xs,
+            "ys": self.ys,
+            "mixture_weights": self.mixture_weights,
+            "domains": [([float(v) for v in d.values] if d.values is not None else None, d.min, d.max, d.data_type.value) for d in self.domains],
+        }
+
+    def set_extra_state(self, state):
+        if state is None:
+            self.reset()
+            return
+        self.xs = state["xs"]
+        self.ys = state["ys"]
+        self.mixture_weights = state["mixture_weights"]
+        self.domains = [Domain(v, lo, hi, DataType(t)) for v, lo, hi, t in state["domains"]]
+        self.is_initialized = True
+
     def _get_base_distribution(self, ctx: SamplingContext = None) -> "PiecewiseLinearDist":
         # Use custom normal instead of PyTorch distribution
         if not self.is_initialized:
-- 
2.43.0


From e47b149a8629aa219f38baa7a6bad5a83178d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 40/93] fix: digits dataset had float64 items and no number of
 classes

---
 simple_einet/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index eac31dd..2b604c8 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -153,6 +153,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         "covtype": 7,
         "breast_cancer": 2,
         "wine": 3,
+        "digits": 10,
     }[dataset_name]
 
 
@@ -474,7 +475,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         digits = datasets.load_digits()
         X, y = digits.data, digits.target
 
-        X = X / X.max()
+        X = (X / X.max()).astype(np.float32)
 
         # Split into train, val, test
         X_train, X_test, y_train, y_test = train_test_split(X, y, test_size=0.1, random_state=42, stratify=y)
-- 
2.43.0


From a6289a59b86439d7617e1260baf11cc25eccb58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 41/93] fix: seed the synthetic circles dataset like the others

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 2b604c8..b070166 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -205,7 +205,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
         data, y = datasets.make_moons(n_samples=n_samples, noise=0.1, random_state=0)
 
     elif tag == "circles":
-        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05)
+        data, y = datasets.make_circles(n_samples=n_samples, factor=0.5, noise=0.05, random_state=0)
 
     elif tag == "aniso":
         # Anisotropicly distributed data
-- 
2.43.0


From f411f6c251d6787cc8ab5e7930e99398c8a746f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 42/93] fix: number of classes of the synthetic datasets with
 more than two clusters

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index b070166..50b81f0 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -124,7 +124,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         int: Number of classes.
     """
     if "synth" in dataset_name:
-        return 2
+        return {"3-clusters": 3, "9-clusters": 9, "aniso": 3, "varied": 3}.get(dataset_name.replace("synth-", ""), 2)
 
     if dataset_name in DEBD:
         return 0
-- 
2.43.0


From 755dd77e7f7fbd9d731b4d93003d42ae1c54a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 43/93] fix: validation and test split of synthetic datasets
 were identical

---
 simple_einet/data.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 50b81f0..e040589 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -385,17 +385,11 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
 
     # Select the datasets
     if "synth" in dataset_name:
-        # Train
-        X, labels = generate_data(dataset_name, n_samples=3000)
-        dataset_train = torch.utils.data.TensorDataset(X, labels)
-
-        # Val
-        X, labels = generate_data(dataset_name, n_samples=1000)
-        dataset_val = torch.utils.data.TensorDataset(X, labels)
-
-        # Test
-        X, labels = generate_data(dataset_name, n_samples=1000)
-        dataset_test = torch.utils.data.TensorDataset(X, labels)
+        # The generator is seeded: split a single draw, else validation and test set would be identical
+        X, labels = generate_data(dataset_name, n_samples=5000)
+        dataset_train = torch.utils.data.TensorDataset(X[:3000], labels[:3000])
+        dataset_val = torch.utils.data.TensorDataset(X[3000:4000], labels[3000:4000])
+        dataset_test = torch.utils.data.TensorDataset(X[4000:], labels[4000:])
 
     elif dataset_name == "mnist" or dataset_name == "mnist-32" or dataset_name == "mnist-16":
         if normalize:
-- 
2.43.0


From f9b555e97fad7d5e333c794b73283d7f50fc0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 44/93] fix: fmnist-16 has a shape and classes but could not be
 loaded

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index e040589..5db7c73 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -487,7 +487,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         dataset_val = torch.utils.data.TensorDataset(torch.tensor(X_val), torch.tensor(y_val))
         dataset_test = torch.utils.data.TensorDataset(torch.tensor(X_test), torch.tensor(y_test))
 
-    elif dataset_name == "fmnist" or dataset_name == "fmnist-32":
+    elif dataset_name == "fmnist" or dataset_name == "fmnist-32" or dataset_name == "fmnist-16":
         if normalize:
             transform.transforms.append(transforms.Normalize([0.5], [0.5]))
 
-- 
2.43.0


From 2212855496f4504986f83f40e677b9575059b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 45/93] fix: make the PCA of the 20newsgroup dataset
 reproducible

---
 simple_einet/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 5db7c73..168aa0c 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -625,6 +625,7 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
         # Do dimensionality reduction with PCA
         pca = PCA(
             n_components=50,
+            random_state=42,
         )
         logger.info("Running PCA with 50 components on 20newsgroup dataset")
         t0 = time.time()
-- 
2.43.0


From 2e99ae4203e369eabb124471046b0ac1d55be237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 46/93] fix: categorical leaves lacked a bin for the largest
 pixel level

---
 simple_einet/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 9181db8..66b2bb5 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -92,7 +92,7 @@ def get_distribution(dist: Dist, cfg):
         leaf_kwargs = {"total_count": 2**cfg.n_bits - 1}
     elif dist == Dist.CATEGORICAL:
         leaf_type = Categorical
-        leaf_kwargs = {"num_bins": 2**cfg.n_bits - 1}
+        leaf_kwargs = {"num_bins": 2**cfg.n_bits}
     elif dist == Dist.MULTIVARIATE_NORMAL:
         leaf_type = MultivariateNormal
         leaf_kwargs = {"cardinality": cfg.multivariate_cardinality}
-- 
2.43.0


From 88ed65bb69f03af2a786fbe36cc4d4c1c5e87845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 47/93] fix: seed_all_rng without a seed raised

---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 7bb3432..8c2052a 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -229,7 +229,7 @@ def seed_all_rng(seed=None):
         seed (int): if None, will use a strong random seed.
     """
     if seed is None:
-        seed = os.getpid() + int(datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
+        seed = os.getpid() + int(datetime.datetime.now().strftime("%S%f")) + int.from_bytes(os.urandom(2), "big")
         logger.info("Using a generated random seed {}".format(seed))
     np.random.seed(seed)
     torch.manual_seed(seed)
-- 
2.43.0


From a6da32460546fd72198d06b31a5687383d3f243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 48/93] fix: train, validation and test split of the fake
 dataset were identical

---
 simple_einet/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 168aa0c..091cc8e 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -560,8 +560,8 @@ def get_datasets(dataset_name, data_dir, normalize: bool) -> Tuple[Dataset, Data
     elif dataset_name == "fake":
         # Load train
         dataset_train = FakeData(size=3000, image_size=shape, num_classes=10, transform=transform)
-        dataset_val = FakeData(size=3000, image_size=shape, num_classes=10, transform=transform)
-        dataset_test = FakeData(size=3000, image_size=shape, num_classes=10, transform=transform)
+        dataset_val = FakeData(size=3000, image_size=shape, num_classes=10, transform=transform, random_offset=3000)
+        dataset_test = FakeData(size=3000, image_size=shape, num_classes=10, transform=transform, random_offset=6000)
 
     elif dataset_name == "flowers":
         if normalize:
-- 
2.43.0


From be8aa0293a251d3232588b6b995ee9e83111aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 49/93] fix: bits per dimension of discrete distributions

---
 simple_einet/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/utils.py b/simple_einet/utils.py
index 58936ff..d84f324 100644
--- a/simple_einet/utils.py
+++ b/simple_einet/utils.py
@@ -45,8 +45,8 @@ def calc_bpd(log_p: Tensor, image_shape: Tuple[int, int, int], has_gauss_dist: b
         bpd = (-bpd / (np.log(2) * n_pixels)).mean()
 
     else:
-        bpd = log_p - np.log(n_bins) * n_pixels
-        bpd = (-bpd / (np.log(2) * n_pixels)).mean()
+        # Discrete distributions assign probabilities (no densities) to the n_bins levels
+        bpd = (-log_p / (np.log(2) * n_pixels)).mean()
 
     return bpd
 
-- 
2.43.0


From 51f4008471842ef46b2e67e564fb2526bd9e0ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 50/93] fix: the varied synthetic dataset could not be
 generated (center_box must be a tuple)

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 091cc8e..7ac7cae 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -225,7 +225,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
             n_samples=n_samples,
             cluster_std=[0.5, 0.1, 0.3],
             random_state=0,
-            center_box=[-2, 2],
+            center_box=(-2, 2),
         )
     else:
         raise ValueError(f"Invalid synthetic dataset name: {tag}.")
-- 
2.43.0


From 2b54d690792243717a712856edcded978565bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 51/93] fix: return the selected leaf parameters per sample in
 bottom-up structures

---
 .../layers/distributions/abstract_leaf.py     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 23fe48f..cde4682 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -92,13 +92,16 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
         raise Exception(f"MPE not yet implemented for type {type(distribution)}")
 
 
-def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) -> torch.Tensor:
+def dist_sample(
+    distribution: dist.Distribution, ctx: SamplingContext = None, params: torch.Tensor = None
+) -> torch.Tensor:
     """
     Sample n samples from a given distribution.
 
     Args:
         distribution: Leaf distribution from which to sample from.
         ctx: Sampling context.
+        params: Parameters of the leaf layer, selected instead of samples if `ctx.return_leaf_params` is set.
 
     Returns:
         torch.Tensor: Samples from the given distribution.
@@ -115,10 +118,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         from simple_einet.layers.distributions.normal import CustomNormal
 
         if ctx.return_leaf_params:
-            samples = distribution.get_params()
-
-            # Add batch dimension
-            samples = samples.unsqueeze(0)
+            # Repeat the parameters for each sample and add the same dimension as for samples
+            samples = params.expand(ctx.num_samples, -1, -1, -1, -1, -1).unsqueeze(1)
         else:
             if type(distribution) == dist.Normal:
                 distribution = dist.Normal(loc=distribution.loc, scale=distribution.scale * np.sqrt(ctx.temperature_leaves))
@@ -144,7 +145,7 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         samples = index_one_hot(samples, index=r_idxs, dim=-2)
     else:
         r_idxs = ctx.indices_repetition.view(-1, 1, 1, 1, 1, 1)
-        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, -1)
+        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, num_params)
         samples = samples.gather(dim=-2, index=r_idxs)
         samples = samples.squeeze(-2)
 
@@ -156,8 +157,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         else:
             # Choose only specific samples for each feature/scope
             p_idxs = ctx.indices_out.view(-1, 1, num_features, 1, 1)
-            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, -1)
-            samples = samples.gather(dim=3, index=p_idxs).squeeze(-1)
+            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, num_params)
+            samples = samples.gather(dim=3, index=p_idxs).squeeze(3)
 
     if ctx.return_leaf_params:
         return samples
@@ -308,7 +309,8 @@ class AbstractLeaf(AbstractLayer, ABC):
             torch.Tensor: A tensor of shape (context.num_samples,) or (1,) containing the drawn samples.
         """
         d = self._get_base_distribution(ctx)
-        samples = dist_sample(distribution=d, ctx=ctx)
+        params = self.get_params() if ctx.return_leaf_params else None
+        samples = dist_sample(distribution=d, ctx=ctx, params=params)
         return samples
 
     def extra_repr(self):
-- 
2.43.0


From cfaa0a5aff980a6b1ff4617a7397a82afe2be48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 52/93] fix: Bernoulli leaves did not return their parameters

---
 simple_einet/layers/distributions/bernoulli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 0872f24..e147f51 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -30,3 +30,6 @@ class Bernoulli(AbstractLeaf):
     def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
+
+    def get_params(self):
+        return self.probs.unsqueeze(-1)
-- 
2.43.0


From 302e880516c65b90b3ecfdc51001babbf41a068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 53/93] fix: order of the parameters of MultiDistributionLayer

---
 simple_einet/layers/distributions/multidistribution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index b235722..c892f65 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -139,4 +139,10 @@ class MultiDistributionLayer(AbstractLeaf):
                 new_shape = list(p.shape)
                 new_shape[-1] = max_num_params - p.shape[-1]
                 params[i] = torch.cat([p, torch.zeros(new_shape, device=p.device, dtype=p.dtype)], dim=-1)
-        return torch.cat(params, dim=2)
+        params = torch.cat(params, dim=2)
+
+        # If inversion is necessary, permute features to obtain the original order
+        if self.needs_inversion:
+            params = params[:, :, self.inverted_index]
+
+        return params
-- 
2.43.0


From fb336bf0931715373c0a9f4084e3da0538384549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 54/93] fix: ConvPc failed when asked for the leaf parameters

---
 simple_einet/conv_pc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 4d5a5f3..9ca8650 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -710,16 +710,22 @@ class ConvPc(nn.Module):
             ctx.indices_out = None
             samples = self.leaf_data.sample(ctx=ctx)
 
-            # Samples are of shape (N, C, H*W, I)
-            N, C, HW, I = samples.shape
-            samples = samples.view(N, self.data_shape.channels, self.data_shape.height, self.data_shape.width, I)
+            # Samples are of shape (N, C, H*W, I), leaf parameters have a last dimension for the parameters in addition
+            N, C, HW, I, *P = samples.shape
+            samples = samples.view(N, self.data_shape.channels, self.data_shape.height, self.data_shape.width, I, *P)
             # (N, C, H, W, I) -> (N, I, C, H, W)
-            samples = samples.permute(0, 4, 1, 2, 3)
+            samples = samples.movedim(4, 1)
 
             indices_out.unsqueeze_(2)  # Make space for in_channels (I) dim
+            if return_leaf_params:
+                indices_out = indices_out.unsqueeze(-1)  # Make space for params dim
             # Index into I
             samples = index_one_hot(samples, index=indices_out, dim=1)
 
+            if return_leaf_params:
+                # Samples contain the distribution parameters instead of the samples
+                return samples
+
         if evidence is not None:
             # First make a copy such that the original object is not changed
             evidence = evidence.clone().float()
-- 
2.43.0


From 92e69b9157d4a973577af04a207558ff1fb23f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 55/93] fix: the leaf temperature was ignored by multivariate
 normal leaves

---
 simple_einet/layers/distributions/abstract_leaf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index cde4682..74f08b6 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -115,6 +115,7 @@ def dist_sample(
         # Add empty last dim to make this the same dim as params
         samples = samples.unsqueeze(-1)
     else:
+        from simple_einet.layers.distributions.multivariate_normal import CustomMultivariateNormalDist
         from simple_einet.layers.distributions.normal import CustomNormal
 
         if ctx.return_leaf_params:
@@ -130,6 +131,11 @@ def dist_sample(
 
             samples = distribution.sample(sample_shape=(ctx.num_samples,)).float()
 
+            if type(distribution) == CustomMultivariateNormalDist and ctx.temperature_leaves != 1.0:
+                # Scale the deviation from the mean, such that the covariance is scaled by the temperature
+                mean = distribution.mpe(num_samples=ctx.num_samples).unsqueeze(1)
+                samples = mean + np.sqrt(ctx.temperature_leaves) * (samples - mean)
+
             # Add empty last dim to make this the same dim as params
             samples = samples.unsqueeze(-1)
 
-- 
2.43.0


From bc54996401ec7201068e0a8736306cd945659d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 56/93] fix: Mixture silently ignored class indices when
 evidence was given

---
 simple_einet/mixture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 0346ebd..2992577 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -156,6 +156,7 @@ class Mixture(nn.Module):
                     mpe_at_leaves=mpe_at_leaves,
                 )
 
+        assert class_index is None or evidence is None, "Cannot provide both, evidence and class indices."
         assert num_samples is None or num_samples_per_cluster is None
         if num_samples is None and num_samples_per_cluster is not None:
             num_samples = num_samples_per_cluster * self.n_components
-- 
2.43.0


From cd41f8d49b4c7679457d833382110027709dedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 57/93] fix: Mixture did not return one sample per entry of a
 class_index list

---
 simple_einet/mixture.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 2992577..e29d9b1 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -165,6 +165,10 @@ class Mixture(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample for each given class index
+            assert num_samples_per_cluster is None, "Cannot provide both, samples per cluster and a list of class indices."
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -192,7 +196,7 @@ class Mixture(nn.Module):
                 sample_idxs_all.extend(sample_idxs)
                 samples = self.models[cluster_idx].sample(
                     len(sample_idxs),
-                    class_index=class_index,
+                    class_index=[class_index[i] for i in sample_idxs] if isinstance(class_index, list) else class_index,
                     evidence=evidence,
                     is_mpe=is_mpe,
                     temperature_leaves=temperature_leaves,
-- 
2.43.0


From bb640d17c92dac22b90ac31707ca55f373058cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 58/93] fix: ConvPc silently ignored a requested class

---
 simple_einet/conv_pc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 9ca8650..cc05c7b 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -668,6 +668,8 @@ class ConvPc(nn.Module):
         marginalized_scopes: List[int] | None = None,
     ) -> torch.Tensor | Tuple[torch.Tensor, torch.Tensor]:
 
+        if class_index is not None:
+            raise ValueError("Cannot sample classes: ConvPc has a single root and no classes.")
         if num_samples is None and evidence is None:
             raise ValueError("Either num_samples or evidence must be given.")
         if num_samples is None and evidence is not None:
-- 
2.43.0


From d05168265cc0069bb38555adc3ee45d27f1586b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 59/93] fix: linsum layers with a single feature dropped it

---
 simple_einet/layers/linsum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index 37f55e5..b2e34f8 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -83,7 +83,7 @@ class LinsumLayer(AbstractSumLayer):
 
         if self._pad > 0:
             # Add dummy marginalized RVs
-            right = torch.cat([right, torch.zeros_like(right[:, : self._pad])], dim=1)
+            right = torch.cat([right, torch.zeros_like(left[:, : self._pad])], dim=1)
 
         prod_output = (left + right).unsqueeze(3)  # N x D/2 x Sin x 1 x R
 
@@ -280,7 +280,7 @@ class LinsumLayer2(AbstractSumLayer):
 
         if self._pad > 0:
             # Add dummy marginalized RVs
-            right = torch.cat([right, torch.zeros_like(right[:, : self._pad])], dim=1)
+            right = torch.cat([right, torch.zeros_like(left[:, : self._pad])], dim=1)
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-- 
2.43.0


From b7b32262f565e44f7030d452656aaebb9e0e2a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 60/93] fix: LinsumLayer2 lost a feature when sampling an odd
 number of features

---
 simple_einet/layers/linsum.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index b2e34f8..cc47096 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -303,11 +303,6 @@ class LinsumLayer2(AbstractSumLayer):
 
             indices = indices.view(ctx.num_samples, -1)
 
-
-        if self._pad > 0:
-            # Cut off dummy marginalized RVs
-            indices = indices[:, : -self._pad]
-
         return indices
 
     def _condition_weights_on_evidence(self, ctx, log_weights):
-- 
2.43.0


From 0b904983deaa87e4e518cc7e35e13dafcf305904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 61/93] fix: EinsumLayer silently broadcast features when their
 number was odd

---
 simple_einet/layers/einsum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index e482781..88e7951 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -59,6 +59,10 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions (int, optional): The number of repetitions. Defaults to 1.
             dropout (float, optional): The dropout probability. Defaults to 0.0.
         """
+        assert (
+            num_features % EinsumLayer.cardinality == 0
+        ), f"num_features must be a multiple of {EinsumLayer.cardinality} but was {num_features}."
+
         super().__init__(
             num_features=num_features,
             num_repetitions=num_repetitions,
-- 
2.43.0


From 8efa87f303d2b534d82dbef1ebe9210b6831fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 62/93] fix: EinsumLayer returned NaN for inputs of probability
 zero

---
 simple_einet/layers/einsum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index 88e7951..216a960 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -131,9 +131,12 @@ class EinsumLayer(AbstractSumLayer):
         right_log_prob = x[:, 1::2]
 
         # Prepare for LogEinsumExp trick (see paper for details)
+        # (no shift where all inputs are -inf, as -inf - (-inf) is undefined)
         left_prob_max = torch.max(left_log_prob, dim=2, keepdim=True)[0]
+        left_prob_max = left_prob_max.masked_fill(left_prob_max == -float("inf"), 0.0)
         left_prob = torch.exp(left_log_prob - left_prob_max)
         right_prob_max = torch.max(right_log_prob, dim=2, keepdim=True)[0]
+        right_prob_max = right_prob_max.masked_fill(right_prob_max == -float("inf"), 0.0)
         right_prob = torch.exp(right_log_prob - right_prob_max)
 
         # Project weights into valid space
-- 
2.43.0


From a6c7c838a8b3083ab64e39adbb0dbc9b6e23d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 63/93] fix: MixingLayer with several features could not be
 conditioned on evidence

---
 simple_einet/layers/mixing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/mixing.py b/simple_einet/layers/mixing.py
index ac244a2..423c2c3 100644
--- a/simple_einet/layers/mixing.py
+++ b/simple_einet/layers/mixing.py
@@ -83,11 +83,11 @@ class MixingLayer(AbstractSumLayer):
 
         # Index lls at correct repetitions
         if ctx.is_differentiable:
-            p_idxs = ctx.indices_out.view(ctx.num_samples, 1, self.num_sums_out, 1)
+            p_idxs = ctx.indices_out.unsqueeze(-1)
             lls = index_one_hot(lls, index=p_idxs, dim=2)
         else:
             p_idxs = ctx.indices_out[..., None, None]
-            p_idxs = p_idxs.expand(-1, 1, 1, self.num_sums_in)
+            p_idxs = p_idxs.expand(-1, -1, -1, self.num_sums_in)
             lls = lls.gather(dim=2, index=p_idxs).squeeze(2)
 
         log_prior = log_weights
-- 
2.43.0


From d806b9da43e1c6369f31864e154d69b8091725c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 64/93] fix: sum layers with one repetition failed when sampled
 without repetition indices

---
 simple_einet/abstract_layers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simple_einet/abstract_layers.py b/simple_einet/abstract_layers.py
index e5664d1..a0b8581 100644
--- a/simple_einet/abstract_layers.py
+++ b/simple_einet/abstract_layers.py
@@ -186,14 +186,17 @@ class AbstractSumLayer(AbstractLayer):
 
     def _check_repetition_indices(self, ctx: SamplingContext):
         if self.num_repetitions == 1 and ctx.indices_repetition is None:
-            ctx.indices_repetition = torch.zeros(ctx.num_samples, dtype=torch.long, device=self._device)
+            if ctx.is_differentiable:
+                ctx.indices_repetition = torch.ones(ctx.num_samples, 1, device=self._device)
+            else:
+                ctx.indices_repetition = torch.zeros(ctx.num_samples, dtype=torch.long, device=self._device)
 
-        assert ctx.indices_repetition.shape[0] == ctx.indices_out.shape[0]
         if self.num_repetitions > 1 and ctx.indices_repetition is None:
             raise Exception(
                 f"Layer has multiple repetitions (num_repetitions=={self.num_repetitions}) "
                 f"but indices_repetition argument was None, expected a Long tensor size #samples."
             )
+        assert ctx.indices_repetition.shape[0] == ctx.indices_out.shape[0]
 
     def _check_context_shapes(self, ctx: SamplingContext):
         assert ctx.indices_out.shape[0] == ctx.num_samples
@@ -211,8 +214,8 @@ class AbstractSumLayer(AbstractLayer):
             assert ctx.indices_repetition.dim() == 1
 
     def sample(self, ctx: SamplingContext) -> SamplingContext:
-        self._check_context_shapes(ctx)
         self._check_repetition_indices(ctx)
+        self._check_context_shapes(ctx)
 
         # Select weights of this layer based on parent sampling path
         log_weights = self._select_weights(ctx, self.logits)
-- 
2.43.0


From dd0cd2ef2ff003a095cc0ab7709fd8fa74e9dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 65/93] fix: product layers could not be sampled

---
 simple_einet/layers/product.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 24d127b..f26b367 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -114,26 +114,25 @@ class ProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
-                ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
+                ctx.indices_out = torch.zeros(ctx.num_samples, self._out_features, dtype=int, device=self._device)
                 ctx.indices_repetition = torch.zeros(ctx.num_samples, dtype=int, device=self._device)
-                return ctx
             else:
                 raise Exception(
                     "Cannot start sampling from Product layer with num_repetitions > 1 and no context given."
                 )
-        else:
-            # Repeat the parent indices, e.g. [0, 2, 3] -> [0, 0, 2, 2, 3, 3] depending on the cardinality
-            indices = torch.repeat_interleave(ctx.indices_out, repeats=self.cardinality, dim=1)
 
-            # Remove padding
-            if self._pad:
-                indices = indices[:, : -self._pad]
+        # Repeat the parent indices, e.g. [0, 2, 3] -> [0, 0, 2, 2, 3, 3] depending on the cardinality
+        indices = torch.repeat_interleave(ctx.indices_out, repeats=self.cardinality, dim=1)
 
-            ctx.indices_out = indices
-            return ctx
+        # Remove padding
+        if self._pad:
+            indices = indices[:, : -self._pad]
+
+        ctx.indices_out = indices
+        return ctx
 
     def extra_repr(self):
         return "num_features={}, cardinality={}, out_shape={}".format(
@@ -259,12 +258,11 @@ class CrossProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
-                ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
+                ctx.indices_out = torch.zeros(ctx.num_samples, self._out_features, dtype=int, device=self._device)
                 ctx.indices_repetition = torch.zeros(ctx.num_samples, dtype=int, device=self._device)
-                return ctx
             else:
                 raise Exception(
                     "Cannot start sampling from CrossProduct layer with num_repetitions > 1 and no context given."
-- 
2.43.0


From 8149f4b7e3d5a1b3c944a32b04d8854378b8e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 66/93] fix: CrossProductLayer failed for an odd number of
 features

---
 simple_einet/layers/product.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index f26b367..a3b4469 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -153,7 +153,7 @@ class CrossProductLayer(AbstractLayer):
 
     Attributes:
         cardinality (int): Number of random children for each product node.
-        _pad (int): Padding to the next power of 2.
+        _pad (int): Padding to the next multiple of the cardinality.
         _out_features (int): Number of output features.
         out_shape (str): Output shape of the layer.
         _scopes (List[List[int]]): List of scopes for each product child.
@@ -173,7 +173,7 @@ class CrossProductLayer(AbstractLayer):
         cardinality = 2  # Fixed to binary graphs for now
         self.cardinality = check_valid(cardinality, int, 2, in_features + 1)
         self._out_features = np.ceil(self.num_features / self.cardinality).astype(int)
-        self._pad = 0
+        self._pad = self.num_features % self.cardinality
 
         # Collect scopes for each product child
         self._scopes = [[] for _ in range(self.cardinality)]
@@ -218,12 +218,8 @@ class CrossProductLayer(AbstractLayer):
         Returns:
             torch.Tensor: Output of shape [batch, ceil(in_features/2), channel * channel].
         """
-        # Check if padding to next power of 2 is necessary
-        if self.num_features != x.shape[1]:
-            # Compute necessary padding to the next power of 2
-            self._pad = 2 ** np.ceil(np.log2(x.shape[1])).astype(np.int) - x.shape[1]
-
-            # Pad marginalized node
+        # Pad marginalized node if in_features is odd
+        if self._pad > 0:
             x = F.pad(x, pad=[0, 0, 0, 0, 0, self._pad], mode="constant", value=0.0)
 
         # Dimensions
-- 
2.43.0


From bfd440a3c7559d02675ef933a7392c6f4a82e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 67/93] fix: one-hot indexing into infinite log-likelihoods
 returned NaN

---
 simple_einet/sampling_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 71acc93..68a029f 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -296,6 +296,8 @@ def index_one_hot(tensor: torch.Tensor, index: torch.Tensor, dim: int) -> torch.
         # print(f"dim={dim}")
         return torch.einsum(einsum_str, tensor, index)
     else:
+        # Entries of value -inf that are not selected must not turn into NaN (-inf * 0)
+        tensor = tensor.masked_fill((index == 0) & torch.isinf(tensor), 0.0)
         return torch.sum(tensor * index, dim=dim)
 
 
-- 
2.43.0


From 207389b50bd7aca05707afd8e29968bbb2d6ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 68/93] fix: init_einet_stats averaged batch statistics instead
 of using those of the data

---
 simple_einet/sampling_utils.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 68a029f..6b15ea4 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -312,21 +312,28 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
     Returns: None
     """
     stats_mean = None
-    stats_var = None
+    stats_ssd = None  # Sum of squared deviations from the mean
+    num_samples = 0
 
-    # Compute mean and std
+    # Compute mean and variance of the whole dataset (batches can be of any size)
     for batch in tqdm(dataloader, desc="Leaf Parameter Initialization"):
         data, label = batch
-        if stats_mean == None:
-            stats_mean = data.mean(dim=0)
-            stats_var = data.var(dim=0)
+        data = data.double()
+        n = data.shape[0]
+        batch_mean = data.mean(dim=0)
+        batch_ssd = ((data - batch_mean) ** 2).sum(dim=0)
+        if stats_mean is None:
+            stats_mean = batch_mean
+            stats_ssd = batch_ssd
         else:
-            stats_mean += data.mean(dim=0)
-            stats_var += data.var(dim=0)
+            delta = batch_mean - stats_mean
+            stats_mean = stats_mean + delta * (n / (num_samples + n))
+            stats_ssd = stats_ssd + batch_ssd + delta**2 * (num_samples * n / (num_samples + n))
+        num_samples += n
 
     # Normalize
-    stats_mean /= len(dataloader)
-    stats_var /= len(dataloader)
+    stats_mean = stats_mean.float()
+    stats_var = (stats_ssd / max(num_samples - 1, 1)).float()
 
     from simple_einet.layers.distributions.normal import Normal
     from simple_einet.einet import Einet
-- 
2.43.0


From 86e79d90be2debb8c08cfc4a71aca6ef94694e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 69/93] fix: init_einet_stats failed for bottom-up structures

---
 simple_einet/sampling_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 6b15ea4..5d0c814 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -348,25 +348,28 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
         else:
             raise ValueError(f"Invalid einet type: {type(einet)} -- must be Einet or EinetMixture.")
 
+        # The leaf layer is wrapped in a factorized leaf only in top-down structures
+        leaves = [getattr(net.leaf, "base_leaf", net.leaf) for net in einets]
+
         # Reshape to match leaf parameters
         stats_mean_v = (
             stats_mean.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.means)
+            .view_as(leaves[0].means)
         )
         stats_var_v = (
             stats_var.view(-1, 1, 1)
             .repeat(1, einets[0].config.num_leaves, einets[0].config.num_repetitions)
-            .view_as(einets[0].leaf.base_leaf.logvar)
+            .view_as(leaves[0].logvar)
         )
 
         # Set leaf parameters
-        for net in einets:
+        for leaf in leaves:
             # Add noise to ensure that values are not completely equal along repetitions and einets
-            net.leaf.base_leaf.means.data = stats_mean_v + 0.1 * torch.normal(
+            leaf.means.data = stats_mean_v + 0.1 * torch.normal(
                 torch.zeros_like(stats_mean_v), torch.std(stats_mean_v)
             )
-            net.leaf.base_leaf.logvar.data = torch.log(
+            leaf.logvar.data = torch.log(
                 stats_var_v
                 + 1e-3
                 + torch.clamp(0.1 * torch.normal(torch.zeros_like(stats_var_v), torch.std(stats_var_v)), min=0.0)
-- 
2.43.0


From ca217c2be4ff72e9b1e8abd2cf1fd30bc88fd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 70/93] fix: preprocess of the Lightning modules altered the
 batch and ignored n_bits and categorical leaves

---
 models_pl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/models_pl.py b/models_pl.py
index 57fcfeb..e06dcb0 100644
--- a/models_pl.py
+++ b/models_pl.py
@@ -15,6 +15,7 @@ from simple_einet.data import get_data_shape
 from simple_einet.dist import Dist, get_distribution
 from simple_einet.einet import EinetConfig, Einet
 from simple_einet.mixture import Mixture
+from simple_einet.utils import reduce_bits
 
 # Translate the dataloader index to the dataset name
 DATALOADER_ID_TO_SET_NAME = {0: "train", 1: "val", 2: "test"}
@@ -119,8 +120,9 @@ class LitModel(pl.LightningModule, ABC):
 
     def preprocess(self, data: torch.Tensor):
         """Preprocess data before passing it to the model."""
-        if self.cfg.dist == Dist.BINOMIAL:
-            data *= 255.0
+        if self.cfg.dist in (Dist.BINOMIAL, Dist.CATEGORICAL):
+            # Discrete leaves model the 2**n_bits levels of the image
+            data = reduce_bits(data, self.cfg.n_bits)
 
         return data
 
-- 
2.43.0


From 17e4f42dad2854ed567ebdc45e98ead8ba5526cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 71/93] fix: classification in main.py ignored the posterior in
 its loss

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 42598c0..4db28b7 100644
--- a/main.py
+++ b/main.py
@@ -64,7 +64,7 @@ def train(args, model: Union[Einet, Mixture], device, train_loader, optimizer, e
         outputs = model(data)
 
         if args.classification:
-            model.posterior(data)
+            outputs = model.posterior(data)
             loss = F.nll_loss(outputs, target, reduction="mean")
         else:
             loss = log_likelihoods(outputs).mean()
-- 
2.43.0


From 83b23af3b1ee9510edeea2d42a9865c78e13a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 72/93] fix: evaluation in main.py failed for batches of a
 single item

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 4db28b7..77189b5 100644
--- a/main.py
+++ b/main.py
@@ -120,7 +120,7 @@ def test(model, device, loader, tag):
 
             lls = log_likelihoods(outputs)
             test_loss += -1 * lls.sum()
-            test_losses += lls.squeeze().cpu().tolist()
+            test_losses += lls.view(-1).cpu().tolist()
 
             if args.classification:
                 _, predicted = outputs.max(1)
-- 
2.43.0


From 22600452b62ab4fb6c5c5958840b6b461625a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 73/93] fix: mixtures could not be trained on the CPU

---
 main_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index b6b687f..4ea3ac4 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -119,7 +119,7 @@ def main(cfg: DictConfig):
         if cfg.mixture:
             # If we chose a mixture of einets, we need to initialize the mixture weights
             logger.info("Initializing Einet mixture weights")
-            model.spn.initialize(dataloader=train_loader, device=devices[0])
+            model.spn.initialize(dataloader=train_loader, device=devices[0] if accelerator == "gpu" else "cpu")
 
         if cfg.init_leaf_data:
             logger.info("Initializing leaf distributions from data statistics")
-- 
2.43.0


From df0eaa4a8737910623346fa9075e1cc6dccae6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 74/93] fix: ProdConv keeps the dtype of its input

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index cc05c7b..d4635d1 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -404,7 +404,7 @@ class ProdConv(nn.Module):
         assert W % Kw == 0, f"Input width must be divisible by kernel size. Width was {W} and kernel size was {Kw}"
 
         # Construct a kernel with ones as weights
-        ones = torch.ones(C, 1, Kh, Kw, device=x.device)
+        ones = torch.ones(C, 1, Kh, Kw, dtype=x.dtype, device=x.device)
 
         # Apply the kernel to the input
         x = F.conv2d(x, ones, groups=C, stride=(Kh, Kw), padding=0, bias=None)
-- 
2.43.0


From e4618fc7d8a067303755b0803d0ba740a8855db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 75/93] fix: models loaded from a state dict shared the
 piecewise linear functions of the original

---
 simple_einet/layers/distributions/piecewise_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index b0ed549..735460e 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -1,3 +1,4 @@
+import copy
 import itertools
 import logging
 from collections import defaultdict
@@ -238,6 +239,8 @@ class PiecewiseLinear(AbstractLeaf):
         if state is None:
             self.reset()
             return
+        # As for parameters and buffers, the loaded state must not share memory with the model it came from
+        state = copy.deepcopy(state)
         self.xs = state["xs"]
         self.ys = state["ys"]
         self.mixture_weights = state["mixture_weights"]
-- 
2.43.0


From b61b27c98cedec7144e9299590af09aa575eaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 76/93] fix: an empty list of marginalized scopes raised an
 IndexError

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 74f08b6..af05f4f 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -255,7 +255,7 @@ class AbstractLeaf(AbstractLayer, ABC):
         if marginalized_scopes is not None:
             # Transform to tensor
             if type(marginalized_scopes) != torch.Tensor:
-                s = torch.tensor(marginalized_scopes)
+                s = torch.tensor(marginalized_scopes, dtype=torch.long)
             else:
                 s = marginalized_scopes
 
-- 
2.43.0


From b9041a5601f4f2c20d080cff18b0520385fa4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 77/93] fix: sizes of an EinetConfig given as numpy or torch
 integers are converted before they are used

---
 simple_einet/einet.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index ec7ce71..1b00730 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -1,6 +1,6 @@
 import logging
 from simple_einet.utils import invert_permutation
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from typing import Any, Dict, List, Type, Union, Optional
 
 import numpy as np
@@ -80,7 +80,7 @@ class EinetConfig:
         # cardinality in multivariate distributions reduces this dimension since it merges groups of size #cardinality)
         min_num_features = np.ceil(self.num_features // cardinality)
         assert (
-            2**self.depth <= min_num_features
+            2 ** int(self.depth) <= min_num_features
         ), f"The tree depth D={self.depth} must be <= {np.floor(np.log2(min_num_features))} (log2(in_features // cardinality))."
 
 
@@ -102,7 +102,11 @@ class Einet(nn.Module):
         """
         super().__init__()
         config.assert_valid()
-        self.config = config
+
+        # Sizes may be given as numpy or torch integers: their arithmetic differs from that of Python ints (e.g. unsigned
+        # values wrap around), therefore convert them
+        sizes = ["num_features", "num_channels", "num_sums", "num_leaves", "num_repetitions", "num_classes", "depth"]
+        self.config = replace(config, **{name: int(getattr(config, name)) for name in sizes})
 
         # Construct the architecture
         if self.config.structure == "top-down":
-- 
2.43.0


From 137f17975f088e64cc1452bd038a09f11d86de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 78/93] fix: ConvPc accepted invalid configurations and images
 its layers cannot tile

---
 simple_einet/conv_pc.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index d4635d1..15b031a 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -519,6 +519,10 @@ class ConvPcConfig:
         # Check that each dimension is valid
         check_valid(self.num_channels, int, 1)
         check_valid(self.num_classes, int, 1)
+        check_valid(self.kernel_size, int, 1)
+        assert len(self.channels) > 0, "ConvPcConfig.channels must name the number of channels of at least one layer."
+        for channels in self.channels:
+            check_valid(channels, int, 1)
         assert self.leaf_type is not None, "EinetConfig.leaf_type parameter was not set!"
         assert self.order in [
             "sum-prod",
@@ -538,6 +542,7 @@ class ConvPc(nn.Module):
     def __init__(self, config: ConvPcConfig, data_shape: Shape):
 
         super().__init__()
+        config.assert_valid()
         self.config = config
         self.data_shape = data_shape
 
@@ -559,6 +564,9 @@ class ConvPc(nn.Module):
 
         if self.config.structure == "bottom-up":
             for i in range(0, len(self.config.channels) - 1):
+                assert (
+                    h % kh == 0 and w % kw == 0 and h > 0 and w > 0
+                ), f"Layer {i} with input of size ({h}, {w}) cannot be divided into patches of size ({kh}, {kw})."
                 layers.append(
                     SumProdLayer(
                         in_channels=self.config.channels[i],
@@ -612,6 +620,9 @@ class ConvPc(nn.Module):
                 )
 
             # Add lowest SumProd layer to reduce data height/width to h/w
+            assert (
+                self.data_shape.height % h == 0 and self.data_shape.width % w == 0
+            ), f"Data of size ({self.data_shape.height}, {self.data_shape.width}) cannot be divided into ({h}, {w}) patches."
             layers.append(
                 ProdConv(
                     kernel_size_h=self.data_shape.height // h,
-- 
2.43.0


From 88fd5c278baa5f287a0b0c850dc4604d3ea44be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 79/93] fix: main.py and main_pwl.py passed a removed argument
 to the learning rate schedulers

---
 main.py     | 2 +-
 main_pwl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 77189b5..dbd2070 100644
--- a/main.py
+++ b/main.py
@@ -197,7 +197,7 @@ if __name__ == "__main__":
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1, verbose=True)
+    lr_scheduler = torch.optim.lr_scheduler.StepLR(optimizer, step_size=2, gamma=1e-1)
 
     model, optimizer = fabric.setup(model, optimizer)
 
diff --git a/main_pwl.py b/main_pwl.py
index 2b2d261..830467a 100644
--- a/main_pwl.py
+++ b/main_pwl.py
@@ -305,7 +305,7 @@ if __name__ == "__main__":
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=lr)
     scheduler = torch.optim.lr_scheduler.MultiStepLR(
-        optimizer, milestones=[int(epochs * 0.8), int(epochs * 0.9)], gamma=0.5, verbose=True
+        optimizer, milestones=[int(epochs * 0.8), int(epochs * 0.9)], gamma=0.5
     )
 
     model.train()
-- 
2.43.0


From 6dd2a85c5f20be59c51fec519b1cb110c9973043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 80/93] fix: swa=true crashed as StochasticWeightAveraging
 needs a learning rate

---
 main_pl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_pl.py b/main_pl.py
index 4ea3ac4..db812af 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -134,7 +134,7 @@ def main(cfg: DictConfig):
 
     # Add StochasticWeightAveraging callback
     if cfg.swa:
-        swa_callback = StochasticWeightAveraging()
+        swa_callback = StochasticWeightAveraging(swa_lrs=cfg.lr)
         callbacks.append(swa_callback)
 
     # Enable rich progress bar
-- 
2.43.0


From 4467ded5ef018bfde022f78c741a7a97dd99cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 81/93] fix: 8-bit pixel levels of digits were no integers,
 discrete leaves refused them

---
 simple_einet/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple_einet/utils.py b/simple_einet/utils.py
index d84f324..e451344 100644
--- a/simple_einet/utils.py
+++ b/simple_einet/utils.py
@@ -60,6 +60,8 @@ def reduce_bits(image: Tensor, n_bits: int) -> Tensor:
     image = image * 255
     if n_bits < 8:
         image = torch.floor(image / 2 ** (8 - n_bits))
+    else:
+        image = torch.round(image)  # Not every dataset has 256 levels (e.g. digits has 17)
 
     return image
 
-- 
2.43.0


From f955c42c30ff95693013bfd3c2106ecd4209a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 82/93] fix: reported shape of the synthetic datasets did not
 fit their items, no model could be built

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 7ac7cae..7795a46 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -78,7 +78,7 @@ def get_data_shape(dataset_name: str) -> Shape:
         Tuple[int, int, int]: Tuple of [channels, height, width].
     """
     if "synth" in dataset_name:
-        return Shape(2, 1, 1)
+        return Shape(1, 2, 1)
 
     if dataset_name in DEBD:
         shape = DEBD_shapes[dataset_name]["train"]
-- 
2.43.0


From cbcff7c6b4dfa1e8d2c6cf6fe27eaea4e6a245bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 83/93] fix: ensure_dir crashed for paths without a directory

---
 exp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 8c2052a..40ced20 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -159,7 +159,7 @@ def ensure_dir(path: str):
     """
 
     d = os.path.dirname(path)
-    if not os.path.exists(d):
+    if d and not os.path.exists(d):
         os.makedirs(d)
 
 
-- 
2.43.0


From b19d48b7aee9144e7a5a0c22d3a7efa2f93b5d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 84/93] fix: plot_distribution crashed without a logger

---
 exp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exp_utils.py b/exp_utils.py
index 40ced20..fc2a571 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -550,5 +550,6 @@ def plot_distribution(model, dataset_name, logger_wandb: WandbLogger = None):
         image = ToTensor()(image)
 
         # Add figure in numpy "image" to TensorBoard writer
-        logger_wandb.log_image("distribution", images=[image])
+        if logger_wandb is not None:
+            logger_wandb.log_image("distribution", images=[image])
         plt.close(fig)
-- 
2.43.0


From 5f0dbf77790f98dad7e7751262cc2ff888dedcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 85/93] fix: README named options of main_pl.py that do not
 exist

---
 README.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index ea95d9d..4326a8a 100644
--- a/README.md
+++ b/README.md
@@ -22,7 +22,7 @@ The `main_pl.py` script offers PyTorch-Lightning based training for discriminati
 Classification on MNIST examples:
 
 ```sh
-python main_pl.py dataset=mnist batch_size=128 epochs=100 dist=normal D=5 I=32 S=32 R=8 lr=0.001 gpu=0 classification=true 
+python main_pl.py dataset=mnist batch_size=128 epochs=100 dist=normal einet.D=5 einet.I=32 einet.S=32 einet.R=8 lr=0.001 gpu=0 classification=true 
 ```
 
 <img src="./res/mnist_classification.png" width=400px><img src="./res/mnist_train_val_test_acc.png" width=400px>
@@ -31,7 +31,7 @@ python main_pl.py dataset=mnist batch_size=128 epochs=100 dist=normal D=5 I=32 S
 Generative training on MNIST:
 
 ``` sh
-python main_pl.py dataset=mnist D=5 I=16 R=10 S=16 lr=0.1 dist=binomial epochs=10 batch_size=128
+python main_pl.py dataset=mnist einet.D=5 einet.I=16 einet.R=10 einet.S=16 lr=0.1 num_classes=1 dist=binomial epochs=10 batch_size=128
 ```
 
 ![MNIST Samples]( ./res/mnist_samples.png )
-- 
2.43.0


From 65c51994c23f25b6b75b9916fd19e9fefb0db09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 86/93] fix: main.py crashed with --structure bottom-up when it
 looked up the leaf distribution

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index dbd2070..122e4fd 100644
--- a/main.py
+++ b/main.py
@@ -193,7 +193,7 @@ if __name__ == "__main__":
         sum(p.numel() for p in model.parameters() if p.requires_grad),
     )
 
-    has_gauss_dist = type(model.leaf.base_leaf) in (Normal, RatNormal)
+    has_gauss_dist = leaf_type in (Normal, RatNormal)
 
     # Optimize Einet parameters (weights and leaf params)
     optimizer = torch.optim.Adam(model.parameters(), lr=args.lr)
-- 
2.43.0


From b201db4a4baca6819b11a9633f350de25a782b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 87/93] fix: main.py crashed on images with several channels,
 its marginalized scopes ran over all channels

---
 main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 122e4fd..5945220 100644
--- a/main.py
+++ b/main.py
@@ -306,8 +306,9 @@ if __name__ == "__main__":
                 ###################
                 # reconstructions #
                 ###################
-                image_scope = np.array(range(np.prod(list(data_shape)))).reshape(data_shape)
-                marginalized_scopes = list(image_scope[:, 0 : round(data_shape[-1] / 2), :].reshape(-1))
+                # Upper half of the image (a feature is a pixel with all its channels)
+                image_scope = np.arange(num_features).reshape(data_shape[1:])
+                marginalized_scopes = list(image_scope[0 : round(data_shape[1] / 2), :].reshape(-1))
 
                 num_samples = 1
                 reconstructions = None
-- 
2.43.0


From 52542fbec083a65cef7517cfab6016321384597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 88/93] fix: load_and_eval looked for checkpoints where no run
 stores them

---
 exp_utils.py | 10 ++++------
 main_pl.py   |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index fc2a571..b2f7621 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -444,18 +444,16 @@ def anneal_tau(epoch, max_epochs):
 
 
 def load_from_checkpoint(results_dir, load_fn, args):
-    """Loads the model from a checkpoint.
+    """Loads the model from the checkpoint of a run.
 
     Args:
+        results_dir: The run directory which contains the checkpoint (model.pt).
         load_fn: The function to load the model from a checkpoint.
     Returns:
         The loaded model.
     """
-    ckpt_dir = os.path.join(results_dir, "tb", "version_0", "checkpoints")
-    files = os.listdir(ckpt_dir)
-    assert len(files) > 0, "Checkpoint directory is empty"
-    ckpt_path = os.path.join(ckpt_dir, files[-1])
-    model = load_fn(checkpoint_path=ckpt_path, args=args)
+    ckpt_path = os.path.join(results_dir, "model.pt")
+    model = load_fn(checkpoint_path=ckpt_path, args=args, weights_only=False)
     return model
 
 
diff --git a/main_pl.py b/main_pl.py
index db812af..860b174 100644
--- a/main_pl.py
+++ b/main_pl.py
@@ -101,8 +101,8 @@ def main(cfg: DictConfig):
     # Load or create model
     if cfg.load_and_eval:
         model = load_from_checkpoint(
-            run_dir,
-            load_fn=SpnGenerative.load_from_checkpoint,
+            cfg.load_and_eval,
+            load_fn=(SpnDiscriminative if cfg.classification else SpnGenerative).load_from_checkpoint,
             args=cfg,
         )
     else:
-- 
2.43.0


From 109261c34e38b1eb2c7674a315708d15f687f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 89/93] fix: samples of ConditionalBinomial leaves could not be
 indexed in bottom-up circuits

---
 simple_einet/layers/distributions/binomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/binomial.py b/simple_einet/layers/distributions/binomial.py
index f4d86d3..c50912e 100644
--- a/simple_einet/layers/distributions/binomial.py
+++ b/simple_einet/layers/distributions/binomial.py
@@ -269,7 +269,8 @@ class ConditionalBinomial(AbstractLeaf):
         # If parent index into out_channels are given
         if ctx.indices_out is not None:
             # Choose only specific samples for each feature/scope
-            samples = torch.gather(samples, dim=2, index=ctx.indices_out.unsqueeze(-1)).squeeze(-1)
+            p_idxs = ctx.indices_out.view(-1, 1, self.num_features, 1).expand(-1, self.num_channels, -1, -1)
+            samples = samples.gather(dim=-1, index=p_idxs).squeeze(-1)
 
         return samples
 
-- 
2.43.0


From 2a7f78adadef8e06005b57937467578afec6758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 90/93] fix: missing values crashed ConditionalBinomial leaves

---
 simple_einet/layers/distributions/binomial.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simple_einet/layers/distributions/binomial.py b/simple_einet/layers/distributions/binomial.py
index c50912e..8f38a12 100644
--- a/simple_einet/layers/distributions/binomial.py
+++ b/simple_einet/layers/distributions/binomial.py
@@ -232,9 +232,18 @@ class ConditionalBinomial(AbstractLeaf):
         x_cond = x[:, :, self.cond_idxs, None, None]
         d = self.get_conditioned_distribution(x_cond)
 
+        # Replace nans with some valid value
+        nan_mask = torch.isnan(x)
+        if nan_mask.any():
+            x = torch.where(nan_mask, self.nan_placeholder, x)
+
         # Compute lls
         x = dist_forward(d, x)
 
+        # Set back to nan
+        if nan_mask.any():
+            x[nan_mask] = torch.nan
+
         # Marginalize
         x = self._marginalize_input(x, marginalized_scopes)
 
-- 
2.43.0


From daf52832af3f128f345bf2846903695100d6e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:50 +0000
Subject: [PATCH 91/93] fix: masked logsumexp applied its mask along the last
 axis whatever dim was given

---
 simple_einet/layers/einsum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index 216a960..f807244 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -34,7 +34,8 @@ def logsumexp(tensors, mask=None, dim=-1):
         assert mask.shape == (tensors.shape[dim],), "Invalid mask shape"
 
     maxes = torch.max(tensors, dim=dim)[0]
-    return ((tensors - maxes.unsqueeze(dim)).exp() * mask).sum(dim=dim).log() + maxes
+    exps = (tensors - maxes.unsqueeze(dim)).exp()
+    return (exps.movedim(dim, -1) * mask).sum(dim=-1).log() + maxes
 
 
 class EinsumLayer(AbstractSumLayer):
-- 
2.43.0


From 6615acde5e8ef4e1f8cd286b8d4297ba997af81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 92/93] fix: make_results_dir gave the third run of an
 experiment the directory of the second

---
 exp_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exp_utils.py b/exp_utils.py
index b2f7621..70934b2 100644
--- a/exp_utils.py
+++ b/exp_utils.py
@@ -90,8 +90,11 @@ def make_results_dir(
 
     if remove_if_exists:
         if os.path.exists(experiment_dir):
-            print("Directory already exists, adding _2 to the name")
-            experiment_dir += "_2"
+            suffix = 2
+            while os.path.exists(f"{experiment_dir}_{suffix}"):
+                suffix += 1
+            print(f"Directory already exists, adding _{suffix} to the name")
+            experiment_dir += f"_{suffix}"
     os.makedirs(experiment_dir, exist_ok=True)
     return experiment_dir + "/"
 
-- 
2.43.0


From 37060790d16e4c33095e815d2c1c55c84dca52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 93/93] fix: ConditionalBinomial leaves ignored mpe_at_leaves

---
 simple_einet/layers/distributions/binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/binomial.py b/simple_einet/layers/distributions/binomial.py
index 8f38a12..6df325d 100644
--- a/simple_einet/layers/distributions/binomial.py
+++ b/simple_einet/layers/distributions/binomial.py
@@ -264,7 +264,7 @@ class ConditionalBinomial(AbstractLeaf):
         d = self.get_conditioned_distribution(x_cond)
 
         # Sample from the specified distribution
-        if ctx.is_mpe:
+        if ctx.is_mpe or ctx.mpe_at_leaves:
             samples = dist_mode(d, ctx)
         else:
             samples = d.sample()
-- 
2.43.0

