From 33f90204b1cca0794cebaa5a68f12589a2ab164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 01/34] fix: adaptive step size uses the target acceptance rate
 given on init

---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e36ac60..1c16204 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -422,7 +422,7 @@ def adaptive_step_size(burn_in = 0,
     m = iteration + 1
 
     h_bar *= (1 - 1/(m + t0))
-    h_bar += 1/(m + t0) * (target_acceptance_rate - acceptance_ratio)
+    h_bar += 1/(m + t0) * (alpha - acceptance_ratio)
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-- 
2.43.0


From 30b13857a7b8a478a1ab52a58305ffc98421c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 02/34] fix: batched likelihood can be evaluated for a batch of
 size one

---
 jax_sgmc/potential.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 2215471..0cd214b 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -134,7 +134,11 @@ def minibatch_potential(prior: Prior,
       lks = likelihood(sample, reference_data)
       state = None
     # Ensure that a scalar is returned to avoid broadcasting with mask
-    return jnp.squeeze(lks), state
+    squeezed_lks = jnp.squeeze(lks)
+    if is_batched and jnp.ndim(lks) > 0:
+      # A batch can consist of a single observation
+      squeezed_lks = jnp.atleast_1d(squeezed_lks)
+    return squeezed_lks, state
 
   # Define the strategies to evaluate the likelihoods sequantially, vectorized
   # or in parallel
-- 
2.43.0


From fc1375afa59c3b4be207a24815273938f8da09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 03/34] fix: square root of the full adapted mass matrix

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 8576e17..939eff5 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -315,7 +315,8 @@ def mass_matrix(diagonal=True, burn_in=1000):
       inv = ssq / iteration
       eigw, eigv = jnp.linalg.eigh(ssq / iteration)
       # Todo: More effective computation
-      sqrt = jnp.matmul(jnp.transpose(eigv), jnp.matmul(jnp.diag(jnp.sqrt(eigw)), eigv))
+      # The mass matrix is the inverse of the covariance
+      sqrt = jnp.matmul(eigv, jnp.matmul(jnp.diag(1 / jnp.sqrt(eigw)), jnp.transpose(eigv)))
     return inv, sqrt
 
   def init(sample: Array, init_cov: Array):
-- 
2.43.0


From e62cefc3d25f75377c6fb3e30f9317f6e24145ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 04/34] fix: default initial covariance of the mass matrix
 adaption

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 939eff5..13e4616 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -134,7 +134,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-      init_flat = map(ravel_fn, init_args)
+      # Unspecified arguments are passed unchanged
+      init_flat = [None if arg is None else ravel_fn(arg) for arg in init_args]
       state = init(x0_flat, *init_flat, **init_kwargs)
 
       # Wrap the potential in a flatten function if potential is provided as
-- 
2.43.0


From 843477f56ac8cb1a921168c7afb6b321bf6a625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 05/34] fix: sign of the mean gradient in the empirical fisher
 information

---
 jax_sgmc/adaption.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 13e4616..74d8945 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -409,8 +409,9 @@ def fisher_information(minibatch_potential: Callable = None,
     N = mb_information.observation_count
     n = mb_information.batch_size
 
-    # Unscale the gradient to get mean
-    sample_grad /= N
+    # Unscale the gradient to get mean. The gradient of the potential is the
+    # negative gradient of the log-likelihood.
+    mean_grad = -sample_grad / N
 
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
@@ -422,9 +423,9 @@ def fisher_information(minibatch_potential: Callable = None,
     @functools.partial(vmap, out_axes=0)
     def sqd(idx):
       if diagonal:
-        return jnp.square(grad_diff_idx(sample, idx) - sample_grad)
+        return jnp.square(grad_diff_idx(sample, idx) - mean_grad)
       else:
-        diff = grad_diff_idx(sample, idx) - sample_grad
+        diff = grad_diff_idx(sample, idx) - mean_grad
         return jnp.outer(diff, diff)
 
     ssq = jnp.sum(sqd(jnp.arange(mb_information.batch_size)), axis=0)
-- 
2.43.0


From 116e79d3eae7624e53cf7f088f107f7c50b76289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 06/34] fix: matrix square root of the full fisher information
 noise model

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 74d8945..335434b 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -452,8 +452,8 @@ def fisher_information(minibatch_potential: Callable = None,
       u_cb, s_cb, _ = jnp.linalg.svd(jnp.diag(friction) - b)
       u, s, _ = jnp.linalg.svd(b)
 
-      noise_scale = jnp.dot(u_cb, jnp.sqrt(s_cb))
-      scale = jnp.dot(u, jnp.sqrt(s))
+      noise_scale = jnp.dot(u_cb, jnp.diag(jnp.sqrt(s_cb)))
+      scale = jnp.dot(u, jnp.diag(jnp.sqrt(s)))
 
     return noise_scale, scale
 
-- 
2.43.0


From f77cc9dee5ae4381cc8d8f46f6c30315f7b164cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 07/34] fix: SGHMC noise scales with the square root of the
 friction

---
 jax_sgmc/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 09df0a3..b9a13e0 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -651,7 +651,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     else:
       noise_state = None
       scaled_noise = tree_scale(jnp.sqrt(2 * parameters.step_size), noise)
-      scaled_noise = tree_multiply(friction, scaled_noise)
+      scaled_noise = tree_multiply(
+        tree_util.tree_map(jnp.sqrt, friction), scaled_noise)
     new_momentum = tree_add(new_momentum, scaled_noise)
 
     new_state = LeapfrogState(
-- 
2.43.0


From fd6daa4c897ed597c1270ce638920c2772028be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 08/34] fix: accept array-valued constant mass in the
 hamiltonian integrators

---
 jax_sgmc/integrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index b9a13e0..f84172b 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -166,7 +166,7 @@ def obabo(potential_fn: StochasticPotential,
   stochastic_gradient = value_and_grad(potential_fn, argnums=0, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -375,7 +375,7 @@ def reversible_leapfrog(potential_fn: StochasticPotential,
   stochastic_gradient = grad(potential_fn, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -595,7 +595,7 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     init_noise_model, update_noise_model, get_noise_model = noise_model
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
-- 
2.43.0


From 30a7338e4f21444ce36277ab1146cb824e96cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 09/34] fix: parallel tempering swaps the chains if the swap is
 accepted

---
 jax_sgmc/integrator.py | 7 ++++++-
 jax_sgmc/solver.py     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index f84172b..28af3ba 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -878,7 +878,12 @@ def langevin_diffusion(
       mini_batch,
       state=state.model_state,
       likelihoods=True)
-    variance = jnp.var(likelihoods)
+    # The stochastic potential is the mean of the likelihoods of the mini-batch,
+    # scaled to the full dataset
+    _, batch_information = mini_batch
+    N = batch_information.observation_count
+    n = batch_information.batch_size
+    variance = N * (N / n) * jnp.var(likelihoods)
 
     scaled_gradient = tree_scale(-parameters.step_size, gradient)
     scaled_noise = tree_scale(
diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index d1db1d3..a6080a5 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -286,8 +286,8 @@ def parallel_tempering(integrator,
     # Swap the chains at random
     (normal_chain, hot_chain) = lax.cond(
       log_u < log_s,
-      lambda cold_hot: cold_hot,
       lambda cold_hot: (cold_hot[1], cold_hot[0]),
+      lambda cold_hot: cold_hot,
       (normal_chain, hot_chain))
 
     return (normal_chain, hot_chain, ssq_estimate, F, step, key), None
-- 
2.43.0


From f3c4d1db0aad4716d58df8a3eb94ca330d7d93d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 10/34] fix: SGGMC reverses the momentum if the proposal is
 rejected

---
 jax_sgmc/solver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index a6080a5..bdb0fd6 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -528,17 +528,18 @@ def sggmc(integrator_fn,
     slice = random.uniform(split)
 
     # If true, the step is accepted
-    mh_integrator_state, new_potential, mh_model_state = lax.cond(
+    mh_integrator_state, new_potential, direction, mh_model_state = lax.cond(
       jnp.log(slice) < log_alpha,
       lambda new_old: new_old[0],
       lambda new_old: new_old[1],
-      ((proposal, new_potential, new_model_state),
-       (state.integrator_state, state.potential,
+      ((proposal, new_potential, 1.0, new_model_state),
+       (state.integrator_state, state.potential, -1.0,
         state.integrator_state.model_state)))
 
     new_integrator_state = integrator.ObaboState(
       positions=mh_integrator_state.positions,
-      momentum=mh_integrator_state.momentum,
+      # The chain is skew-reversible, i.e. a rejection flips the momentum
+      momentum=util.tree_scale(direction, mh_integrator_state.momentum),
       model_state=mh_model_state,
       potential=mh_integrator_state.potential,
       # These parameters must be provided from the updated state, otherwise
-- 
2.43.0


From aa59b2a7a80319c4293ac74b04052cad0789c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 11/34] fix: polynomial step size with equal first and last
 step size

---
 jax_sgmc/scheduler.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 1c16204..41bb868 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -508,15 +508,12 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
 
   """
 
-  # Calculates the required coefficients of the polynomial
-  def find_ab(its, gamma, first, last):
-    ginv = jnp.power(gamma, -1.0)
-    fpow = jnp.power(first, -ginv) # pylint: disable=E1130
-    lpow = jnp.power(last, -ginv) # pylint: disable=E1130
-    apow = jnp.divide(lpow - fpow, its - 1)
-    a = jnp.power(apow, -gamma)
-    b = jnp.power(jnp.divide(first, a), -ginv) # pylint: disable=E1130
-    return a, b
+  # The polynomial a(b + n)^(-gamma) is evaluated in the equivalent form
+  # first * (1 + n / b)^(-gamma), which is also well defined if all steps have
+  # the same size (first == last).
+  def find_inv_b(its, gamma, first, last):
+    ratio = jnp.divide(first, last)
+    return (jnp.power(ratio, jnp.power(gamma, -1.0)) - 1.0) / max(its - 1, 1)
 
   def init_fn(iterations: int,
               first: [float, Array] = first,
@@ -527,9 +524,10 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
-    a, b = find_ab(iterations, gamma, first, last)
-    init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
-    return init_fn(iterations)
+    assert last > 0, f"The last step size must be positive: {last}"
+    inv_b = find_inv_b(iterations, gamma, first, last)
+    n = jnp.arange(iterations)
+    return jnp.multiply(first, jnp.power(1.0 + n * inv_b, -gamma))
 
   def update_fn(state: Array, iteration: int, **kwargs) -> Array:
     del iteration, kwargs
-- 
2.43.0


From 28105aba0ff59f6e08c5e69c9a2c64d15f01dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 12/34] fix: data loader checkpoint can be restored multiple
 times

---
 jax_sgmc/data/numpy_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 02b84eb..08d000c 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -217,12 +217,13 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     """
     # Restore the state by setting the random number generators to the
     # checkpointed state
-    type, value = data.popitem()
+    # The checkpoint must remain valid to restore the state multiple times
+    (type, value), = data.items()
     if type == 'random':
       rng_state, chain_data = value
       self._chains[chain_id]['rng'].bit_generator.state = rng_state
       for key, value in chain_data.items():
-        self._chains[chain_id][key] = value
+        self._chains[chain_id][key] = deepcopy(value)
     elif type == 'ordered':
       self._chains[chain_id]['idx_offset'] = value
     else:
-- 
2.43.0


From 3cbcb0f547fce66a0f09ce3a461bfd82f30144bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 13/34] fix: full data map on device uses the requested batch
 size

---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index a478fc9..d77992c 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -550,7 +550,7 @@ def full_reference_data(data_loader: DataLoader,
       data_loader, cached_batches_count, mb_size)
   elif isinstance(data_loader, DeviceDataLoader):
     init_fn, (_batch_fn, mb_information), cleanup = _full_reference_data_device(
-      data_loader, cached_batches_count)
+      data_loader, mb_size)
   else:
     raise TypeError("The DataLoader must inherit from HostDataLoader or "
                     "DeviceDataLoader")
-- 
2.43.0


From 07fe7cd6ffc0e73a6c56463adeeab910c3df5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 14/34] fix: full data map on device starts each pass at the
 same observation

---
 jax_sgmc/data/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index d77992c..febca46 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -934,7 +934,9 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"observation count. Given {offset} and "
                        f"{total_observations}.")
 
-    init_state = CacheState(current_line=offset)
+    offset = jnp.array(offset)
+    # The initial offset is restored after each pass over the dataset
+    init_state = CacheState(current_line=offset, state=offset)
     return init_state
 
   def batch_fn(data_state: CacheState,
@@ -944,9 +946,16 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
     indices = jnp.mod(jnp.arange(mb_size) + data_state.current_line,
                       total_observations)
 
-    # Update the offset, where to start slicing in the next iteration.
+    # Update the offset, where to start slicing in the next iteration. The next
+    # pass starts again at the initial offset if all samples have been returned.
+    returned = mb_size + jnp.mod(data_state.current_line - data_state.state,
+                                 total_observations)
+    next_line = jnp.where(returned >= total_observations,
+                          data_state.state,
+                          jnp.mod(indices[-1] + 1, total_observations))
     new_state = CacheState(
-      current_line=jnp.mod(indices[-1] + 1, total_observations))
+      current_line=next_line.astype(jnp.asarray(data_state.current_line).dtype),
+      state=data_state.state)
 
     selected_data = tree_index(reference_data, indices)
 
-- 
2.43.0


From df739923c517f468e238f55538325097ea5b9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 15/34] fix: return data for invalid but non-strict data
 requests

---
 jax_sgmc/data/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index febca46..f73e797 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -447,9 +447,9 @@ class _Requests:
                       f"{chain_id}. This might be due to using a pmap in a "
                       f"jitted function. If the preservation ")
 
-      # The request is valid and the first request, so the results have to be
-      # stored in the cache
-      else:
+      # The request is the first request, so the results have to be stored in
+      # the cache
+      if old_request is None:
         # Issue a new token and request data
         new_token = JaxUUID()
         callback_response = self._host_data_loaders[callback_uuid.as_uuid].get_batches(chain_id)
-- 
2.43.0


From b2eb59abe8e7e4e1ea218d43c3656828eeea5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 16/34] fix: carry of non-batched functions in the full data
 mapper

---
 jax_sgmc/data/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index f73e797..9b2cbb1 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1106,9 +1106,7 @@ def full_data_mapper(data_loader: DataLoader = None,
           if states is None:
             state = None
           else:
-            state = tree_util.tree_map(
-              partial(jnp.take_along_axis, indices=0, axis=0),
-              states)
+            state = tree_util.tree_map(lambda leaf: leaf[0], states)
           return results, state
 
     (new_data_state, results) = _helper.get_map_fn(
-- 
2.43.0


From f5b05c8ec2b8fec204380046ba54ac7698c4a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 17/34] fix: batch information for non-batched functions in the
 full data mapper

---
 jax_sgmc/data/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 9b2cbb1..418992d 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1086,23 +1086,31 @@ def full_data_mapper(data_loader: DataLoader = None,
         raise ValueError("The function must be vectorized manually to allow "
                          "masking.")
 
+      # The batch information is not batched
+      def unbatched_fun(observation, info, state):
+        if information:
+          return fun((observation, info), state)
+        return fun(observation, state)
+
       if mb_size == 1:
         # No vmapping required but first axis of all observations must be
         # removed.
         def batched_fun(batch, state):
+          batch, info = batch if information else (batch, None)
           squeezed_batch = tree_util.tree_map(
             partial(jnp.squeeze, axis=0),
             batch)
-          result, state = fun(squeezed_batch, state)
+          result, state = unbatched_fun(squeezed_batch, info, state)
           expanded_result = tree_util.tree_map(
             partial(jnp.expand_dims, axis=0),
                     result)
           return expanded_result, state
       else:
         # Only the first resulting state is passed to the next iteration
-        vmapped_fun = jax.vmap(fun, in_axes=(0, None))
+        vmapped_fun = jax.vmap(unbatched_fun, in_axes=(0, None, None))
         def batched_fun(batch, state):
-          results, states = vmapped_fun(batch, state)
+          batch, info = batch if information else (batch, None)
+          results, states = vmapped_fun(batch, info, state)
           if states is None:
             state = None
           else:
-- 
2.43.0


From ca86abe46374aa4b153dbab177fc6ac016f7af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 18/34] fix: order of the keys to access the leaves of a pytree
 as dict

---
 jax_sgmc/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index bc07d97..e5228f7 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -170,12 +170,14 @@ def pytree_dict_keys(tree: PyTree):
       [('a', 'list_element_0'), ('a', 'list_element_1'), ('b',)]
 
   """
-  node = pytree_to_dict(tree)
-  leaves, treedef = tree_util.tree_flatten(node)
-  idx_tree = tree_util.tree_unflatten(treedef, list(range(len(leaves))))
+  # The keys must have the same order as the leaves of the original tree. The
+  # transformation to a dict does not preserve the order of the leaves.
+  leaves, treedef = tree_util.tree_flatten(tree)
+  idx_tree = pytree_to_dict(
+    tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
-    if node is None:
+    if len(tree_util.tree_leaves(node)) == 0:
       return
     elif isinstance(node, int):
       key_list[node] = path
-- 
2.43.0


From c17cb3861881a9aa9125dae34d19c2b54bc58c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 19/34] fix: HDF5 collector waits until all samples have been
 written

---
 jax_sgmc/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index e5228f7..10700b4 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -412,7 +412,7 @@ class HDF5Collector(DataCollector):
 
   def __init__(self, file: HDF5File):
     assert h5py is not None, "h5py must be installed to use this DataCollector."
-    # Barrier to wait until all data has been processed
+    # Events to wait until all data has been processed
     self._finished = []
     self._sample_count = []
     self._leaf_names = []
@@ -457,7 +457,7 @@ class HDF5Collector(DataCollector):
         dtype=leaf.dtype)
     self._sample_count.append(0)
     self._leaf_names.append(leaf_names)
-    self._finished.append(threading.Barrier(2))
+    self._finished.append(threading.Event())
     return chain_id
 
   def save(self, chain_id: int, values):
@@ -480,7 +480,7 @@ class HDF5Collector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].set()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -492,14 +492,14 @@ class HDF5Collector(DataCollector):
     """Returns after everything has been written to the file.
 
     Finalize is scheduled via host_callback and finished is called in the normal
-    python flow. Via a barrier it is possible to pause the program flow until
+    python flow. Via an event it is possible to pause the program flow until
     all asynchronously saved data has been processed.
 
     Args:
       chain_id: ID of chain requesting continuation of normal program flow.
 
     """
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].wait()
 
 class MemoryCollector(DataCollector):
   """Stores samples entirely in RAM (numpy arrays).
-- 
2.43.0


From b81b6f0e34ba69c7dd8768703514c1ac5b051486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 20/34] fix: memory collector waits until the samples have been
 written to file

---
 jax_sgmc/io.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 10700b4..08197f4 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -583,14 +583,17 @@ class MemoryCollector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    self._finished[chain_id].release()
-    if self._dir:
-      output_dir = Path(self._dir)
-      output_file = output_dir / f"chain_{chain_id}.npz"
-      output_dir.mkdir(exist_ok=True)
-      onp.savez(
-        output_file,
-        **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    try:
+      if self._dir:
+        output_dir = Path(self._dir)
+        output_file = output_dir / f"chain_{chain_id}.npz"
+        output_dir.mkdir(exist_ok=True)
+        onp.savez(
+          output_file,
+          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    finally:
+      # The normal program flow continues after the samples have been written
+      self._finished[chain_id].release()
 
   def finished(self, chain_id):
     """Returns samples after all data has been processed.
-- 
2.43.0


From 148d13315187e09868cdb1dbec41ed4608bb6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 21/34] fix: JSON collector waits until all samples have been
 written

---
 jax_sgmc/io.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 08197f4..47d2053 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -315,6 +315,7 @@ class JSONCollector(DataCollector):
     self._dir.mkdir(exist_ok=True)
     self._collected_samples = []
     self._sample_count = []
+    self._finished = []
     self._write_frequency = write_frequency
 
   def register_data_loader(self, data_loader: data.DataLoader):
@@ -330,6 +331,7 @@ class JSONCollector(DataCollector):
     new_chain = len(self._collected_samples)
     self._collected_samples.append([])
     self._sample_count.append(0)
+    self._finished.append(threading.Event())
     return new_chain
 
   def save(self, chain_id: int, values):
@@ -346,8 +348,11 @@ class JSONCollector(DataCollector):
 
   def finalize(self, chain_id: int):
     """Called after solver finished. """
-    if self._sample_count[chain_id] > 0:
-      self._write_file(chain_id, self._sample_count[chain_id])
+    try:
+      if self._sample_count[chain_id] > 0:
+        self._write_file(chain_id, self._sample_count[chain_id])
+    finally:
+      self._finished[chain_id].set()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -373,8 +378,8 @@ class JSONCollector(DataCollector):
       ujson.dump(samples_as_list, file) # pylint: disable=c-extension-no-member
 
   def finished(self, chain_id: int):
-    """Simply return, nothing to wait for. """
-    return None
+    """Returns after the samples have been written to the file. """
+    self._finished[chain_id].wait()
 
 
 class HDF5Collector(DataCollector):
-- 
2.43.0


From 08f03bca1cff28ea476985f939d6258fb29df38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 22/34] fix: full data map on device marks the samples returned
 double

---
 jax_sgmc/data/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 418992d..27d2a9d 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -960,7 +960,9 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
     selected_data = tree_index(reference_data, indices)
 
     if information:
-      return new_state, (selected_data, mb_info)
+      # Mark the samples returned double in the last batch of a pass
+      mask = jnp.arange(mb_size) + returned - mb_size < total_observations
+      return new_state, (selected_data, mb_info._replace(mask=mask))
     else:
       return new_state, selected_data
 
-- 
2.43.0


From 1931758a73e8f921fdead051cd9d3a9a9fd4fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 23/34] fix: progress bar counts samples with the states of the
 current iteration

---
 jax_sgmc/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 41bb868..a00e5a6 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -190,13 +190,13 @@ def init_scheduler(step_size: specific_scheduler = None,
                                      **kwargs)
 
     if progress_bar:
-      # The burn in and thinning state are required to count the number of
-      # collected samples
+      # The burn in and thinning state of the current iteration are required to
+      # count the number of collected samples
       progress_bar_state = update_progress_bar(
         state.progress_bar_state,
         iteration,
-        burn_in_state,
-        thinning_state,
+        state.burn_in_state,
+        state.thinning_state,
         **kwargs)
     else:
       progress_bar_state = None
-- 
2.43.0


From 04478554951335a1cc89148f0c945f37b59cde6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 24/34] fix: device saving of runs which keep no sample

---
 jax_sgmc/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 47d2053..c377695 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -846,6 +846,9 @@ def no_save() -> Saving:
     return saving_state(chain_id=0, saved_samples=0, data=init_data)
 
   def _update_data_leaf(idx, data_leaf, new_slice):
+    if data_leaf.shape[0] == 0:
+      # No sample is collected during the run, thus nothing has to be updated
+      return data_leaf
     return data_leaf.at[idx].set(new_slice)
 
   def _save_sample(args):
-- 
2.43.0


From 05831a99261f065e50dd98ce77d5db1ba104dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 25/34] fix: fisher information uses the mean of the
 log-likelihood gradients

---
 jax_sgmc/adaption.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 335434b..319acc2 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -403,16 +403,11 @@ def fisher_information(minibatch_potential: Callable = None,
           step_size: Any = jnp.array(1.0),
           model_state: PyTree = None,
           **kwargs: Any):
-    del state, args, kwargs
+    del state, sample_grad, args, kwargs
 
     _, mb_information = mini_batch
-    N = mb_information.observation_count
     n = mb_information.batch_size
 
-    # Unscale the gradient to get mean. The gradient of the potential is the
-    # negative gradient of the log-likelihood.
-    mean_grad = -sample_grad / N
-
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
         smp, mini_batch, likelihoods=True, state=model_state)
@@ -420,15 +415,21 @@ def fisher_information(minibatch_potential: Callable = None,
 
     grad_diff_idx = grad(potential_at_obs, argnums=0)
 
+    obs_grads = vmap(functools.partial(grad_diff_idx, sample))(
+      jnp.arange(mb_information.batch_size))
+    # The gradient of the potential cannot be used as mean because it also
+    # contains the prior and the temperature.
+    mean_grad = jnp.mean(obs_grads, axis=0)
+
     @functools.partial(vmap, out_axes=0)
-    def sqd(idx):
+    def sqd(obs_grad):
       if diagonal:
-        return jnp.square(grad_diff_idx(sample, idx) - mean_grad)
+        return jnp.square(obs_grad - mean_grad)
       else:
-        diff = grad_diff_idx(sample, idx) - mean_grad
+        diff = obs_grad - mean_grad
         return jnp.outer(diff, diff)
 
-    ssq = jnp.sum(sqd(jnp.arange(mb_information.batch_size)), axis=0)
+    ssq = jnp.sum(sqd(obs_grads), axis=0)
 
     if diagonal:
       v = 1 / (n - 1) * ssq
-- 
2.43.0


From 200fd723d48bda61002e423951812c192cb1a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 26/34] fix: AMAGOLD reports an acceptance ratio of zero for
 diverged proposals

---
 jax_sgmc/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index bdb0fd6..10c1234 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -384,6 +384,8 @@ def amagold(integrator_fn,
     # Limit acceptance ratio to 1.0
     log_alpha = state.potential - new_potential + proposal.potential
     log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
+    # A diverged proposal is never accepted
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     slice = random.uniform(split)
 
     # If true, the step is accepted
-- 
2.43.0


From f96654a09ca2332c20184790655a0f32015a9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 27/34] fix: SGGMC rejects diverged proposals

---
 jax_sgmc/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index 10c1234..447e6aa 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -524,8 +524,9 @@ def sggmc(integrator_fn,
       new_potential - state.potential
       + proposal.kinetic_energy_end - proposal.kinetic_energy_start)
     # Limit the probability to 1.0 to ensure correct calculation of acceptance
-    # ratio statistics.
-    log_alpha = jnp.where(log_alpha <= 0, log_alpha, 0.0)
+    # ratio statistics. A diverged proposal is never accepted.
+    log_alpha = jnp.where(log_alpha > 0, 0.0, log_alpha)
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
 
     slice = random.uniform(split)
 
-- 
2.43.0


From e2457b01991a700e5984b289b9ea31cbb900fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 28/34] fix: states of adaption strategies can be combined
 across chains

---
 jax_sgmc/adaption.py | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 319acc2..4853d19 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -100,8 +100,15 @@ def get_unravel_fn(tree: PyTree):
     valid argument.
 
   """
+  # Trees of equal structure share an equal function, such that the states of
+  # different chains can be combined.
   _, unravel_fn = flatten_util.ravel_pytree(tree)
-  return tree_util.Partial(jit(unravel_fn))
+  return tree_util.Partial(unravel_fn)
+
+
+@jit
+def _ravel(tree: PyTree):
+  return flatten_util.ravel_pytree(tree)[0]
 
 
 def adaption(quantity: namedtuple = tuple):
@@ -121,6 +128,22 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
   @functools.wraps(adaption_fn)
   def pytree_adaption(*args, **kwargs) -> AdaptionStrategy:
     init, update, get = adaption_fn(*args, **kwargs)
+    minibatch_potential = kwargs.get("minibatch_potential")
+
+    # Wrap the potential in a flatten function
+    def _flat_potential(unravel_fn,
+                        sample,
+                        mini_batch,
+                        model_state: PyTree = None,
+                        **kwargs):
+      sample_tree = unravel_fn(sample)
+      if model_state is not None:
+        return minibatch_potential(
+          model_state, sample_tree, mini_batch, **kwargs)
+      else:
+        return minibatch_potential(
+          sample_tree, mini_batch, **kwargs)
+
     # Name call for debugging
     named_update = named_call(update, name='update_adaption_state')
     named_get = named_call(get, name='get_adapted_manifold')
@@ -129,8 +152,7 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
                  *init_args,
                  **init_kwargs) -> AdaptionState:
       # Calculate the flattened state and the ravel and unravel fun
-      ravel_fn = tree_util.Partial(
-        jit(lambda tree: flatten_util.ravel_pytree(tree)[0]))
+      ravel_fn = tree_util.Partial(_ravel)
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
@@ -138,22 +160,9 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       init_flat = [None if arg is None else ravel_fn(arg) for arg in init_args]
       state = init(x0_flat, *init_flat, **init_kwargs)
 
-      # Wrap the potential in a flatten function if potential is provided as
-      # kwarg
-      minibatch_potential = kwargs.get("minibatch_potential")
+      # Provide the flattened potential if potential is provided as kwarg
       if minibatch_potential is not None:
-        @tree_util.Partial
-        def flat_potential(sample,
-                           mini_batch,
-                           model_state: PyTree = None,
-                           **kwargs):
-          sample_tree = unravel_fn(sample)
-          if model_state is not None:
-            return minibatch_potential(
-              model_state, sample_tree, mini_batch, **kwargs)
-          else:
-            return minibatch_potential(
-              sample_tree, mini_batch, **kwargs)
+        flat_potential = tree_util.Partial(_flat_potential, unravel_fn)
       else:
         flat_potential = None
 
-- 
2.43.0


From 216a8fbdc48a726d514e5c8c3950f6c0b7e345e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 29/34] fix: progress report of vectorized schedulers

---
 jax_sgmc/scheduler.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index a00e5a6..e04c907 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -26,6 +26,7 @@ from collections import namedtuple
 from typing import Callable, Tuple
 
 import jax.numpy as jnp
+import numpy as onp
 from jax import lax
 from jax import random
 from jax.experimental import host_callback as hcb
@@ -309,6 +310,12 @@ def _progress_bar(burn_in: specific_scheduler,
   """
 
   def _print_fn(info, _):
+    # Vectorized schedulers always call this function and report the progress of
+    # the first chain.
+    info = {name: onp.ravel(value)[0] for name, value in info.items()}
+    if not info["print"]:
+      return
+
     percentage = round(
       int(info['current_iteration']) / int(info['total_iterations']) * 100)
     total_samples = int(info["total_samples"])
@@ -343,20 +350,22 @@ def _progress_bar(burn_in: specific_scheduler,
     saved = sample_burn_in * sample_accepted
     collected_samples += saved
 
+    # Calculate number of steps until the progress should be printed out
+    num_its = jnp.int_(jnp.floor(iterations / steps))
+    print_progress = jnp.logical_and(
+      jnp.mod(iteration, num_its) == 0, enabled)
+
     info = {
       "total_iterations": iterations,
       "current_iteration": iteration,
       "total_samples": tot_samples,
       "collected_samples": collected_samples,
-      "kwargs": kwargs
+      "print": print_progress
     }
 
-    # Calculate number of steps until the progress should be printed out
-    num_its = jnp.int_(jnp.floor(iterations / steps))
-
     # Return the number of collected samples as result of id_tap
     collected_samples = lax.cond(
-      jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled),
+      print_progress,
       lambda arg: hcb.id_tap(_print_fn, arg, result=collected_samples),
       lambda arg: info["collected_samples"],
       info
-- 
2.43.0


From 6c4fbafc59595778ec366921422feb5411f3af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 30/34] fix: save only the kept samples of vectorized chains

Under vmap, cond is replaced by select, such that the samples of all chains
have been sent to the data collector in each iteration.
---
 jax_sgmc/io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index c377695..65d5f5f 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -694,22 +694,26 @@ def save(data_collector: DataCollector = None,
   # Helper functions for host_callback
 
   def _save(data, *unused_args):
-    chain_ids, data = data
+    keep, chain_ids, data = data
 
     # id_tap sends batched arguments to the host
     if chain_ids.ndim == 0:
       data_collector.save(chain_ids, data)
     else:
+      # Under vmap, cond is replaced by select and the sample is also sent to
+      # the host if only other chains or no chains should keep it.
+      keep = onp.broadcast_to(keep, chain_ids.shape)
       for idx, chain_id in enumerate(chain_ids):
-        data_collector.save(chain_id, [leaf[idx] for leaf in data])
+        if keep[idx]:
+          data_collector.save(chain_id, [leaf[idx] for leaf in data])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
     # used to avoid losing the call to Jax's optimizations.
     # Only return the leaves, as tree structure is redundant and requires
     # flattening on the host.
-    chain_id, data = args
-    flat_args = (chain_id, tree_util.tree_leaves(data))
+    keep, chain_id, data = args
+    flat_args = (keep, chain_id, tree_util.tree_leaves(data))
     counter = host_callback.id_tap(_save, flat_args, result=1)
     return counter
 
@@ -742,7 +746,7 @@ def save(data_collector: DataCollector = None,
     return lax.cond(keep,
                     _save_wrapper,
                     lambda *args: 0,
-                    (state.chain_id, sample))
+                    (keep, state.chain_id, sample))
 
   # Todo: Generalize the saving by contracting the scheduler state and the
   #       solver state to a single checkpointing state.
-- 
2.43.0


From d99e45273b5f1d410f781e16dddf167c839166c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 31/34] fix: save values shared by vectorized chains completely

Values that do not depend on the chain are not batched by vmap, but have been
indexed with the position of the chain.
---
 jax_sgmc/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 65d5f5f..f3b5ec9 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -693,7 +693,7 @@ def save(data_collector: DataCollector = None,
 
   # Helper functions for host_callback
 
-  def _save(data, *unused_args):
+  def _save(data, transforms):
     keep, chain_ids, data = data
 
     # id_tap sends batched arguments to the host
@@ -703,9 +703,13 @@ def save(data_collector: DataCollector = None,
       # Under vmap, cond is replaced by select and the sample is also sent to
       # the host if only other chains or no chains should keep it.
       keep = onp.broadcast_to(keep, chain_ids.shape)
+      # Values that are equal for all chains are not batched
+      _, _, *batch_dims = transforms[-1][1]["batch_dims"]
       for idx, chain_id in enumerate(chain_ids):
         if keep[idx]:
-          data_collector.save(chain_id, [leaf[idx] for leaf in data])
+          data_collector.save(
+            chain_id, [leaf if dim is None else leaf[idx]
+                       for leaf, dim in zip(data, batch_dims)])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
-- 
2.43.0


From 264292b0f76487b9f0c523e8a212cfc7c4a26a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 32/34] fix: flat potential passed the model state as sample to
 the potential

---
 jax_sgmc/adaption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 4853d19..a27b3a7 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -139,7 +139,7 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       sample_tree = unravel_fn(sample)
       if model_state is not None:
         return minibatch_potential(
-          model_state, sample_tree, mini_batch, **kwargs)
+          sample_tree, mini_batch, state=model_state, **kwargs)
       else:
         return minibatch_potential(
           sample_tree, mini_batch, **kwargs)
-- 
2.43.0


From e32fe777becfdf985dbdab7d7a22b6c218c75d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 33/34] fix: mini batch and potential were not passed as
 keywords to the adaption

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index a27b3a7..e7b68c1 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -190,8 +190,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
         new_state = named_update(
           state.state,
           *flat_args,
-          mini_batch,
-          state.flat_potential,
+          mini_batch=mini_batch,
+          flat_potential=state.flat_potential,
           **update_kwargs)
 
       updated_state = AdaptionState(
-- 
2.43.0


From 3322dae069ff34163a47868981b95d62ad56a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:51 +0000
Subject: [PATCH 34/34] fix: step size schedules with integer parameters

Raising integers to a negative integer power is either an error or, if traced,
zero: the adaptive step size with decay_constant=1 became infinite.
---
 jax_sgmc/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e04c907..a9cd807 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -435,7 +435,8 @@ def adaptive_step_size(burn_in = 0,
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-    lr = jnp.power(m, -kappa)
+    # Integers cannot be raised to a negative integer power
+    lr = jnp.power(1.0 * m, -kappa)
 
     x_bar_old = x_bar
     x_bar *= (1 - lr)
@@ -485,7 +486,8 @@ def polynomial_step_size(a: Array = 1.0,
     assert b > 0, f"b must be greater than zero: b = {b}"
 
     n = jnp.arange(iterations)
-    unscaled = jnp.power(b + n, -gamma)
+    # Integers cannot be raised to a negative integer power
+    unscaled = jnp.power(1.0 * (b + n), -gamma)
     scaled = jnp.multiply(a, unscaled)
     return scaled
 
-- 
2.43.0

