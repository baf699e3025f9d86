From a14b362d31579bb5ed5cf49dc11b325467084d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 01/20] fix: reflect values repeatedly until they lie within
 the bounds

A value more than one range below the lower bound (or two above the upper)
was reflected past the opposite bound and returned out of range.
---
 pocomc/scaler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index e1f9b3b..ad123e7 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -149,10 +149,11 @@ class Reparameterize:
             x = x.copy()
             for i in self.reflective:
                 for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.high[i] - x[j, i] + self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.low[i] + self.low[i] - x[j, i]
+                    while x[j, i] > self.high[i] or x[j, i] < self.low[i]:
+                        if x[j, i] > self.high[i]:
+                            x[j, i] = self.high[i] - x[j, i] + self.high[i]
+                        else:
+                            x[j, i] = self.low[i] + self.low[i] - x[j, i]
 
         return x
 
-- 
2.43.0


From 93f6809bc71924eaab166354c53a77ec0b642ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 02/20] fix: bounds=None means unbounded on both sides

The lower bound was +inf, so fit() and forward() rejected all data.
---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index ad123e7..fd9f00e 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -54,7 +54,7 @@ class Reparameterize:
         self.ndim = n_dim
 
         if bounds is None:
-            bounds = np.full((self.ndim, 2), np.inf)
+            bounds = np.tile(np.array([-np.inf, np.inf]), (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
             bounds = np.tile(np.array(bounds, dtype=np.float32).reshape(2, 1), self.ndim).T
         assert_array_float(bounds)
-- 
2.43.0


From 9512f62451c98f46b06db54ca882935e00f4b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 03/20] fix: systematic_resample never runs past the last
 weight

Weights whose sum falls short of one by less than the tolerance are not
renormalised, so a position above their sum raised IndexError.
---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 1d0c872..62107c3 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -178,7 +178,7 @@ def systematic_resample(size: np.ndarray,
     cumulative_sum = weights[0]
     indeces = np.empty(size, dtype=int)
     for i in range(size):
-        while positions[i] > cumulative_sum:
+        while positions[i] > cumulative_sum and j < len(weights) - 1:
             j += 1
             cumulative_sum += weights[j]
         indeces[i] = j
-- 
2.43.0


From 237ec421dc786b2111e4955e60a2600205909dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 04/20] fix: recompute results after new particles are added

results was cached on first access and stayed stale after a continued run.
---
 pocomc/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b96656c..70c0817 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -146,6 +146,8 @@ class Particles:
                 value = data.get(key)
                 # Save to past states
                 self.past.get(key).append(value)
+        # Cached results no longer reflect the whole history
+        self.results_dict = None
 
     def pop(self, key):
         """
-- 
2.43.0


From bf732112faed3c9bd14ae31ed01538b194ae24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 05/20] fix: record the iteration index of every iteration

After warm-up the index of the last warm-up batch was stored for ever.
---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 7c7f2ff..8890720 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -729,6 +729,7 @@ class Sampler:
             Dictionary containing the updated particles.
         """
         # Update iteration index
+        current_particles["iter"] = self.t
         self.t += 1
         self.pbar.update_iter()
 
-- 
2.43.0


From 1c25e19a3b950d6c03bc79795a0120fa93501d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 06/20] fix: keep evidence likelihood calls in the count of a
 continued run

---
 pocomc/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 8890720..046e9ec 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -626,8 +626,8 @@ class Sampler:
         current_particles["efficiency"] = results.get('efficiency') / (2.38 / self.n_dim ** 0.5)
         current_particles["steps"] = results.get('steps')
         current_particles["accept"] = results.get('accept')
-        current_particles["calls"] = current_particles.get("calls") + results.get('calls')
-        self.calls = current_particles.get("calls")
+        self.calls += results.get('calls')
+        current_particles["calls"] = self.calls
         self.proposal_scale = results.get('proposal_scale')
 
         return current_particles
-- 
2.43.0


From dea74555156e623cb9fa30dfd58246c30dd089ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 07/20] fix: resume warm-up at the next batch of prior samples

Resuming from a checkpoint written during warm-up evaluated and recorded the
first batches a second time.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 046e9ec..cef7738 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -440,7 +440,7 @@ class Sampler:
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
-            for i in range(self.n_prior//self.n_active):
+            for i in range(self.t, self.n_prior//self.n_active):
                 if save_every is not None:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
-- 
2.43.0


From 59e7b81e8d69002faff2838916005f48cec060a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 08/20] fix: count draws outside the prior support in the
 evidence average

They were dropped from the denominator too, so the estimate was too high by
the flow's mass outside the support.
---
 pocomc/sampler.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index cef7738..cd0f54a 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -895,17 +895,19 @@ class Sampler:
         # compute log prior
         logp = self.log_prior(x_q)
 
-        # keep only finite values
-        x_q = x_q[np.isfinite(logp)]
-        logdetj = logdetj[np.isfinite(logp)]
-        logq = logq[np.isfinite(logp)]
-        logp = logp[np.isfinite(logp)]
+        # keep only finite values (all other draws have zero weight)
+        finite_mask = np.isfinite(logp)
+        x_q = x_q[finite_mask]
+        logdetj = logdetj[finite_mask]
+        logq = logq[finite_mask]
+        logp = logp[finite_mask]
 
         # compute log likelihood
         logl, _ = self._log_like(x_q)
 
         # compute log weights
-        logw = logl + logp + logdetj - logq 
+        logw = np.full(len(finite_mask), -np.inf)
+        logw[finite_mask] = logl + logp + logdetj - logq
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
@@ -913,7 +915,7 @@ class Sampler:
         # compute error on log evidence
         dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
 
-        self.calls += len(logw)
+        self.calls += np.sum(finite_mask)
         self.pbar.update_stats(dict(calls=self.calls))
 
         self.logz = logz
-- 
2.43.0


From 025bbf131cc023e28d73d18aa3a838f202d43162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 09/20] fix: MCMC with string (object) blobs

Elements of an object array have no dtype, so any run with string blobs failed.
---
 pocomc/mcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 2455f26..1e20a30 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -111,7 +111,7 @@ def preconditioned_pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -279,7 +279,7 @@ def preconditioned_rwm(state_dict: dict,
         # Compute log-likelihood, log-prior, and log-posterior
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -440,7 +440,7 @@ def pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -594,7 +594,7 @@ def rwm(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
-- 
2.43.0


From 0bad4b283527784026513a4690ee2441cf3ac972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 10/20] fix: MCMC step with blobs when every proposal is
 outside the prior

No blobs come back for an empty batch; integer or structured blobs then failed.
---
 pocomc/mcmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 1e20a30..5ea0793 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -112,7 +112,8 @@ def preconditioned_pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty_like(blobs)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -280,7 +281,8 @@ def preconditioned_rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty_like(blobs)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -441,7 +443,8 @@ def pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty_like(blobs)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -595,7 +598,8 @@ def rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty_like(blobs)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
-- 
2.43.0


From b55f3f80e4fff4e8da3e0cd43ece220e65bdbaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 11/20] fix: covariance is a matrix in one dimension too

Random-walk Metropolis failed for one-parameter problems.
---
 pocomc/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/geometry.py b/pocomc/geometry.py
index f97a621..30f56cc 100644
--- a/pocomc/geometry.py
+++ b/pocomc/geometry.py
@@ -42,10 +42,10 @@ class Geometry:
         # Learn normal distribution
         if weights is None:
             self.normal_mean = np.mean(theta, axis=0)
-            self.normal_cov = np.cov(theta.T)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T))
         else:
             self.normal_mean = np.average(theta, axis=0, weights=weights)
-            self.normal_cov = np.cov(theta.T, aweights=weights)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T, aweights=weights))
 
         # Learn t distribution
         if weights is not None:
-- 
2.43.0


From e75bb159be2c863822de29c044075476e1b7440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 12/20] fix: cast doubles to floats also when the warning is
 silenced

---
 pocomc/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 62107c3..a9922b7 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -307,8 +307,9 @@ def torch_double_to_float(x: torch.Tensor, warn: bool = True):
     -------
         Single precision (Float32) torch tensor.
     """
-    if x.dtype == torch.float64 and warn:
-        warnings.warn(f"Float64 data is currently unsupported, casting to Float32. Output will also have type Float32.")
+    if x.dtype == torch.float64:
+        if warn:
+            warnings.warn(f"Float64 data is currently unsupported, casting to Float32. Output will also have type Float32.")
         return x.float()
     elif x.dtype == torch.float32:
         return x
-- 
2.43.0


From 423fb8d6ce64b15e9e451c84de3643436ba0bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 13/20] fix: hold out validation_split of the samples, not the
 rest

The fraction documented as used for validation was used for training.
---
 pocomc/flow.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index ec4e00b..cfc8bca 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -245,14 +245,15 @@ class Flow:
             mean_min_dist = torch.mean(min_dist)
 
         if validation_split > 0.0:
-            x_train = x[:int(validation_split * n_samples)]
-            x_valid = x[int(validation_split * n_samples):]
+            n_train = n_samples - int(validation_split * n_samples)
+            x_train = x[:n_train]
+            x_valid = x[n_train:]
             if weights is None:
                 train_dl = DataLoader(TensorDataset(x_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid), batch_size, shuffle)
             else:
-                weights_train = weights[:int(validation_split * n_samples)]
-                weights_valid = weights[int(validation_split * n_samples):]
+                weights_train = weights[:n_train]
+                weights_valid = weights[n_train:]
                 train_dl = DataLoader(TensorDataset(x_train, weights_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid, weights_valid), batch_size, shuffle)
             validation = True
-- 
2.43.0


From 0056890399e9d403e2f42361330fce7fe9d1782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 14/20] fix: a state saved by a serial run keeps the pool of
 the loading sampler

Resuming a serial checkpoint with a pool silently ran serially.
---
 pocomc/sampler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index cd0f54a..0e1276e 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1039,9 +1039,8 @@ class Sampler:
             del state['pbar']  # Cannot be pickled
             try:
                 # deal with pool
-                if state['pool'] is not None:
-                    del state['pool']  # remove pool
-                    del state['distribute']  # remove `pool.map` function hook
+                del state['pool']  # remove pool
+                del state['distribute']  # remove `pool.map` function hook
             except BaseException as e:
                 print(e)
 
-- 
2.43.0


From 77cc5cf6249802a6e575629b097a70c69474cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 15/20] fix: a pool of one process runs serially instead of
 failing

---
 pocomc/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 0e1276e..a006840 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -270,6 +270,9 @@ class Sampler:
         elif isinstance(pool, int) and pool > 1:
             self.pool = Pool(pool)
             self.distribute = self.pool.map
+        elif isinstance(pool, int):
+            self.pool = None
+            self.distribute = map
         else:
             self.distribute = pool.map
 
-- 
2.43.0


From eaef77c6f7439c9802ed51116c8be713aa4ce018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 16/20] fix: save to a temporary file other than the checkpoint
 itself

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index a006840..00a1c31 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1036,7 +1036,7 @@ class Sampler:
         """
         print(f'Saving PMC state to {path}')
         Path(path).parent.mkdir(exist_ok=True)
-        temp_path = Path(path).with_suffix('.temp')
+        temp_path = Path(path).with_name(Path(path).name + '.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
             del state['pbar']  # Cannot be pickled
-- 
2.43.0


From 5a4386ac7f8dd7d5c7c7f84399b8bc6a19d1779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 17/20] fix: MCMC kernels leave the blobs they are given
 unchanged

---
 pocomc/mcmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 5ea0793..b032b79 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -39,6 +39,7 @@ def preconditioned_pcn(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
@@ -218,6 +219,7 @@ def preconditioned_rwm(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
@@ -377,6 +379,7 @@ def pcn(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
@@ -542,6 +545,7 @@ def rwm(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
-- 
2.43.0


From 460a7a8c1f7d611bbfce548e6999e1481d5d239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:15 +0000
Subject: [PATCH 18/20] fix: trimming with ess=1 keeps every sample instead of
 failing by rounding

---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index a9922b7..fba4890 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -46,7 +46,7 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
         weights_trimmed = weights[mask]
         weights_trimmed /= np.sum(weights_trimmed)
         ess_trimmed = 1.0 / np.sum(weights_trimmed**2.0)
-        if ess_trimmed / ess_total >= ess:
+        if ess_trimmed / ess_total >= ess or i == 0:
             break 
         i -= 1
     
-- 
2.43.0


From 5710faf1b71715e7ac1bc097d33df3d2ca97beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:24 +0000
Subject: [PATCH 19/20] fix: full-covariance rescaling works in one dimension

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index fd9f00e..50b5a7c 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -173,7 +173,7 @@ class Reparameterize:
         if self.diagonal:
             self.sigma = np.std(u, axis=0)
         else:
-            self.cov = np.cov(u.T)
+            self.cov = np.atleast_2d(np.cov(u.T))
             self.L = np.linalg.cholesky(self.cov)
             self.L_inv = np.linalg.inv(self.L)
             self.log_det_L = np.linalg.slogdet(self.L)[1]
-- 
2.43.0


From ff96ea20956714db4ddb232174ceb33ae0a99c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:29 +0000
Subject: [PATCH 20/20] fix: flow regularization with zuko 1.1 and later

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index cfc8bca..fdc6faa 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -405,7 +405,7 @@ def regularization_loss(model, laplace_scale=None, gaussian_scale=None):
     total_laplace = 0.0
     total_gaussian = 0.0
 
-    for i, transform in enumerate(model.transforms):
+    for transform in getattr(model.transform, "transforms", [model.transform]):
         if hasattr(transform, "hyper"):
             for parameter_name, parameter in transform.hyper.named_parameters():
                 if parameter_name.endswith('weight'):
-- 
2.43.0

