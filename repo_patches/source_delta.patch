From 4ea6099020b725b1bf1ec5b29d83bbefd4d67398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 01/24] fix: hamming ball radius is drawn from log counts, not
 raw counts

jax.random.categorical takes logits; passing the number of points per radius
as logits made the auxiliary point non-uniform on the ball, so the chain did not
leave the target invariant.
---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..987adf7 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From 9c439144436ece8225135588b332735408509a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 02/24] fix: categorical GWG proposal log-likelihood mixed
 chains of a batch

aux holds one index per chain; indexing (B, 1) rows with a (B,) index broadcast
to (B, B) and summed the proposal terms of every chain into each acceptance
ratio for batch sizes above one.
---
 discs/samplers/gwg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..b4d2306 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -164,7 +164,8 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
     ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
+        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1),
+        jnp.expand_dims(aux[src_to_dst], axis=1),
     ]
     ll = jnp.sum(ll, axis=-1)
     return ll
-- 
2.43.0


From 14fd57473c598017abdca93776685ef3011c6ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 03/24] fix: non-adaptive categorical PAFS omitted the value
 term of the proposal

The reverse log-probability includes the probability of the original values but
the forward one did not include that of the sampled values, so the acceptance
ratio was wrong (the adaptive branch already adds it).
---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From 9f26155684b9f6f51de57832eaf73a01407cfe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 04/24] fix: adaptive step size of DLMC and DMALA became NaN
 when the update went non-positive

The lower clip was applied after the logarithm: with the step size at its
floor and a low acceptance rate the argument of the log is negative, log_tau
turns NaN and the chain never moves again. Clip before taking the log.
---
 discs/samplers/dlmc.py  | 2 +-
 discs/samplers/dmala.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 6bc7014..d4d599c 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -27,7 +27,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 8145938..10a2081 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -28,7 +28,7 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
     # updating tau
     n = jnp.exp(state['log_tau'] + log_z)
     n = n + 3 * (acc - self.target_acceptance_rate)
-    state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
+    state['log_tau'] = jnp.log(jnp.clip(n, a_min=1.0)) - log_z
     state['log_z'] = log_z
 
   def select_sample(
-- 
2.43.0


From a5c0ad097ed5c7ff32e5a3055ca74dafaa17005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 05/24] fix: random walk sampler did not advance its step
 counter

---
 discs/samplers/randomwalk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/randomwalk.py b/discs/samplers/randomwalk.py
index 7d06d76..70a74d2 100644
--- a/discs/samplers/randomwalk.py
+++ b/discs/samplers/randomwalk.py
@@ -55,6 +55,7 @@ class RWSampler(RandomWalkSampler):
       self, rng, log_acc, current_sample, new_sample, sampler_state
   ):
     y, acc = math.mh_step(rng, log_acc, current_sample, new_sample)
+    sampler_state = self.update_sampler_state(sampler_state)
     sampler_state['num_ll_calls'] += 2
     sampler_state['acceptance_rate'] = jnp.mean(acc.astype(jnp.float32))
     return y.astype(jnp.int32), sampler_state
-- 
2.43.0


From 5e7211c6999687ee022d24d8c58d7a2d1473ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:01 +0000
Subject: [PATCH 06/24] fix: Ising energy truncated the neighbour messages of
 integer samples

---
 discs/models/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..cbf04b6 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -48,7 +48,7 @@ class Ising(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-    message = jnp.zeros_like(x)
+    message = jnp.zeros_like(x, dtype=params.dtype)
     message = message.at[:, :-1, :].set(
         message[:, :-1, :] + (2 * x[:, 1:, :] - 1) * w_v
     )
-- 
2.43.0


From c8862c263f7f04dad732f9f800f3bbed0cfbe9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 07/24] fix: categorical FHMM transition matrix was not
 stochastic

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..39e4b66 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -97,7 +97,7 @@ class CategFHMM(FHMM):
     beta = jnp.eye(self.num_categories) * (
         self.beta - (1 - self.beta) / (self.num_categories - 1)
     )
-    beta += (1 - beta) / (self.num_categories - 1)
+    beta += (1 - self.beta) / (self.num_categories - 1)
     self.beta = beta
     self.log_beta = jnp.log(beta)
 
-- 
2.43.0


From 95f862d5e82244aeba5fa1e87cc3c4ca8f997b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 08/24] fix: categorical FHMM took integer samples for one-hot
 ones when K equals the number of categories

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 39e4b66..6ead1a3 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -163,7 +163,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if len(x.shape) - 1 <= len(self.shape):
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From d7ced10e8212024f703af17906772df670c746c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:30 +0000
Subject: [PATCH 09/24] fix: categorical RBM without data mean could not be
 built (jnp.ones called with two sizes)

---
 discs/models/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..d45fd27 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -194,7 +194,7 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.log(jnp.ones((self.num_visible, self.num_categories))),
       )
     else:
       logits = jnp.log(data_mean)
-- 
2.43.0


From 5abd4cc524b5c9885920f056cb15badb7acd7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 10/24] fix: Bernoulli logratio_in_neighborhood did not follow
 the protocol the samplers call

---
 discs/models/bernoulli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/bernoulli.py b/discs/models/bernoulli.py
index 79ffe46..f322e16 100644
--- a/discs/models/bernoulli.py
+++ b/discs/models/bernoulli.py
@@ -46,7 +46,7 @@ class Bernoulli(abstractmodel.AbstractModel):
     (_, loglikelihood), grad = jax.value_and_grad(fun, has_aux=True)(x)
     return loglikelihood, grad
 
-  def get_neighbor_fn(self, x, neighbhor_idx):
+  def get_neighbor_fn(self, _, x, neighbhor_idx):
     x_shape = x.shape
     x = jnp.reshape(x, (x.shape[0], -1))
     brange = jnp.arange(x.shape[0])
@@ -55,10 +55,11 @@ class Bernoulli(abstractmodel.AbstractModel):
     return jnp.reshape(y, x_shape)
 
   def logratio_in_neighborhood(self, params, x):
+    loglikelihood = self.forward(params, x)
     params = params['params']
     params = jnp.expand_dims(params, axis=0)
     diff = (1 - 2 * x) * params
-    return diff, 1, self.get_neighbor_fn
+    return loglikelihood, diff, 1, self.get_neighbor_fn
 
   def get_expected_val(self, params):
     params = params['params']
-- 
2.43.0


From cb8a20e253d1917a23d5d4e687f24e466ebb467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 11/24] fix: MIS logratio_in_neighborhood charged padded edges
 to node 0 and returned no log-likelihood

---
 discs/models/mis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..55fe549 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -44,7 +44,8 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     edge_to = params['bidir_edge_to']
 
     gather2dst = x[:, edge_to]
-    diff_penalty = self.penalty_coeff * gather2dst
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
+    diff_penalty = self.penalty_coeff * gather2dst * edge_mask
     diff_arr = jnp.zeros(x.shape, dtype=diff_penalty.dtype)
     diff_arr = diff_arr.at[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),
                            edge_from].add(diff_penalty)
@@ -52,7 +53,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     sign = (1 - x * 2) * params['mask']
     logratio = (sign - sign * diff_arr) / params['temperature']
     logratio = logratio * params['mask'] + -1e9 * (1 - params['mask'])
-    return logratio, 1, self.get_neighbor_fn
+    return self.forward(params, x), logratio, 1, self.get_neighbor_fn
 
 
 def build_model(config):
-- 
2.43.0


From f65bd747fa8863f72d14b34576e0014c175e59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 12/24] fix: normcut node degrees were in insertion order and
 not padded to the node count of x

---
 discs/graph_loader/normcut_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..8765db8 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,10 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    node_degrees = np.zeros((self.max_num_nodes,), dtype=np.float32)
+    for node, degree in g.degree:
+      node_degrees[node] = degree
+    params['node_degrees'] = node_degrees
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From e064211b78f7ff89031a94a20e5480613a30e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 13/24] fix: normcut logratio_in_neighborhood counted padded
 edges as edges of node 0

---
 discs/models/normcut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..e958062 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -97,6 +97,8 @@ class NormCut(comb_ebm.CombEBM):
     new_choices = jnp.expand_dims(new_choices, (0, 1))
     edge_info = (new_choices + jnp.expand_dims(gather2dst, axis=-2)) % 2
     edge_delta = edge_info - jnp.expand_dims(cur_edge_cut, axis=-2)
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
+    edge_delta = edge_delta * jnp.expand_dims(edge_mask, (0, 2, 3))
     diff_arr = jnp.zeros(
         (bsize, self.num_nodes, self.num_categories, self.num_categories),
         dtype=jnp.int32)
-- 
2.43.0


From 0cd791800187cd85d784eff11e8c0f37508b0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:20 +0000
Subject: [PATCH 14/24] fix: normcut logratio_in_neighborhood ignored the
 balance penalty

---
 discs/models/normcut.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index e958062..e6ed08d 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -59,8 +59,14 @@ class NormCut(comb_ebm.CombEBM):
       x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
     cut_sizes = self.get_cut_sizes(params, x)
 
+    partition_sizes = jnp.sum(x, axis=1)
+    volume = None
+    if self.penalty <= 0:
+      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
+    return -self.get_cost(cut_sizes, partition_sizes, volume)
+
+  def get_cost(self, cut_sizes, partition_sizes, volume):
     if self.penalty > 0:
-      partition_sizes = jnp.sum(x, axis=1)
       if self.stype == 'quad':
         ncost = jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
       else:
@@ -71,10 +77,9 @@ class NormCut(comb_ebm.CombEBM):
         ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
-      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
       cost = jnp.sum((cut_sizes + self.eps) / (volume + self.eps ** 2),
                      axis=-1)
-    return -cost
+    return cost
 
   def forward(self, params, x):
     obj = self.objective(params, x)
@@ -111,10 +116,13 @@ class NormCut(comb_ebm.CombEBM):
         node_degrees, axis=-1)
     cur_volume = jnp.sum(x * node_degrees, axis=1)
     new_volume = jnp.expand_dims(cur_volume, (1, 2)) + diff_volume
-    new_obj = -jnp.sum((new_cut_sizes + self.eps) / (
-        new_volume + self.eps ** 2), axis=-1) / params['temperature']
-    cur_obj = -jnp.sum((cur_cut_sizes + self.eps) / (
-        cur_volume + self.eps ** 2), axis=-1) / params['temperature']
+    cur_size = jnp.sum(x, axis=1)
+    new_size = jnp.expand_dims(cur_size, (1, 2)) + (
+        new_choices - jnp.expand_dims(x, axis=-2))
+    new_obj = -self.get_cost(
+        new_cut_sizes, new_size, new_volume) / params['temperature']
+    cur_obj = -self.get_cost(
+        cur_cut_sizes, cur_size, cur_volume) / params['temperature']
     log_ratio = new_obj - jnp.expand_dims(cur_obj, axis=(1, 2))
     return cur_obj, log_ratio, 1, None
 
-- 
2.43.0


From c273d80306718fa9dbe79b19457399c54ccb483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:52 +0000
Subject: [PATCH 15/24] fix: parallel CO runs with fewer instances than devices
 crashed or mixed instances

---
 discs/experiment/sampling.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..2214704 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -55,11 +55,6 @@ class Experiment:
         bshape = (jax.local_device_count(),)
         x_shape = bshape + (mini_batch,) + self.config_model.shape
         use_put_replicated = True
-        if self.sample_idx:
-          self.sample_idx = jnp.array(
-              [self.sample_idx]
-              * (jax.local_device_count() // self.config.num_models)
-          )
       else:
         reshape_all = False
         bshape = ()
@@ -81,11 +76,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
@@ -501,6 +491,12 @@ class CO_Experiment(Experiment):
     obj_fn = jax.vmap(functools.partial(evaluator.evaluate, model=model))
     return obj_fn
 
+  def _group_by_model(self, val):
+    """Makes the model axis lead when each model is spread over all devices."""
+    if self.parallel and self.config.num_models < jax.local_device_count():
+      val = jnp.swapaxes(val, 0, 1)
+    return val
+
   def _build_temperature_schedule(self, config):
     """Temperature schedule."""
 
@@ -567,6 +563,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
+        eval_val = self._group_by_model(eval_val)
         eval_val = eval_val.reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
@@ -580,7 +577,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              self._group_by_model(new_x),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
@@ -616,6 +613,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
+        eval_val = self._group_by_model(eval_val)
         eval_val = eval_val.reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
@@ -629,7 +627,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              self._group_by_model(new_x),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
-- 
2.43.0


From 902609b33d7c3fc8afe2b803a4f01b0a4961ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 16/24] fix: ESS evaluation raised AttributeError, tfp does not
 load its jax substrate

---
 discs/evaluators/ess_eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 63525de..1317669 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -4,6 +4,7 @@ from discs.evaluators import abstractevaluator
 import jax.numpy as jnp
 import tensorflow as tf
 import tensorflow_probability as tfp
+import tensorflow_probability.substrates.jax  # not loaded by the line above
 
 class ESSevaluator(abstractevaluator.AbstractEvaluator):
   """ESS evaluator class."""
-- 
2.43.0


From 48ededd4596b3977cbe755796ea85a7cbd8c4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:20 +0000
Subject: [PATCH 17/24] fix: ESS rates were normalised by the burn-in share of
 the chain, not the kept one

---
 discs/evaluators/ess_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 1317669..f72610f 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -11,11 +11,11 @@ class ESSevaluator(abstractevaluator.AbstractEvaluator):
 
   def _eval_over_num_ll_calls(self, eval_val, num_loglike_calls):
     """ESS over num of energy evaluation."""
-    return eval_val / (num_loglike_calls * self.config.ess_ratio)
+    return eval_val / (num_loglike_calls * (1 - self.config.ess_ratio))
 
   def _eval_over_mh_step(self, eval_val, mh_steps):
     """ESS over mh steps."""
-    return eval_val / (mh_steps * self.config.ess_ratio)
+    return eval_val / (mh_steps * (1 - self.config.ess_ratio))
 
   def _eval_over_time(self, eval_val, time):
     """ESS over run time."""
-- 
2.43.0


From 9d179b134cc419394ad7765024c41e52dcf33009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:00 +0000
Subject: [PATCH 18/24] fix: estimation error runs of the Bernoulli model
 crashed on a single device

---
 discs/experiment/sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 2214704..204334e 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -304,7 +304,10 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
+        params = params['params']
+        if self.parallel:
+          params = params[0]
+        params = params.reshape(self.config_model.shape)
         saver.dump_params(params)
         # saver.plot_estimation_error(model, params, samples)
 
-- 
2.43.0


From 2abaadab493e1081b8261a6043e5af7fdbde8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 19/24] fix: text infilling scored blanks with a zero vector in
 place of the mask token

The mask one-hot was written to row 1 of a one-row array, so JAX dropped the
write and the blank being scored was not masked.
---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..c909a1a 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From 1586ab6e09a7da3b502fed4d415bc11b6aa69569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 20/24] fix: text infilling results were never saved, the
 evaluator was jitted on strings

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 204334e..dc15f59 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -343,7 +343,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
+    obj_fn = evaluator.evaluate
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
-- 
2.43.0


From dcad5716cc0e136fc7b8da4e2bbdae98dcebc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 21/24] fix: the random key given to a chain was ignored, every
 sentence reused the same randomness

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index dc15f59..ac2ade4 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -178,7 +178,7 @@ class Experiment:
   ):
     """Sets up the model and the samlping alg and gets the chain of samples."""
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False
@@ -370,7 +370,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       self, model, sampler, evaluator, saver, rnd_key=0
   ):
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False, None, None
-- 
2.43.0


From e21a7b06994f078e2a8088f76566a918cb31c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 22/24] fix: infilled sentences kept a piece of their index
 from the tenth resample on

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index ac2ade4..cfdf46f 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -395,9 +395,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From 915f1d5db06968f0557660c3d6bdb2e93e765041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:31 +0000
Subject: [PATCH 23/24] fix: results.csv labels only adaptive runs as adaptive

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..2d4a9be 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -53,7 +53,7 @@ class Saver:
 
     results = {}
     results['sampler'] = self.config.sampler.name
-    if 'adaptive' in self.config.sampler.keys():
+    if self.config.sampler.get('adaptive', False):
       results['sampler'] = f'a_{self.config.sampler.name}'
 
     if 'solver' in self.config.sampler.keys():
-- 
2.43.0


From 1dfbf104f905feef442d62150f8fe2251e00143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:36 +0000
Subject: [PATCH 24/24] fix: path auxiliary sampler derived the key of the new
 values from a key it had already drawn from

---
 discs/samplers/path_auxiliary.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 0d1fdac..a63dcbb 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -103,14 +103,14 @@ class PAFSNoReplacement(PathAuxiliarySampler):
       log_prob = special.logsumexp(log_prob_all, axis=-1)
       log_prob_all = jax.nn.log_softmax(log_prob_all, axis=-1)
       x = jnp.reshape(x, log_prob_all.shape)
+      rng, rng_val = jax.random.split(rng)
     selected_idx, ll_selected = math.multinomial(
         rng, log_prob, num_samples, replacement=False, return_ll=True,
         is_nsample_const=not self.adaptive, need_ordering_info=True)
     if self.adaptive:
       mask = selected_idx['selected_mask']
       if self.num_categories > 2:
-        rng, _ = jax.random.split(rng)
-        new_val = jax.random.categorical(rng, log_prob_all)
+        new_val = jax.random.categorical(rng_val, log_prob_all)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
         ll_val = jnp.sum(new_val * log_prob_all, axis=-1) * mask
         mask = jnp.expand_dims(mask, axis=-1)
@@ -122,8 +122,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
       rows = jnp.expand_dims(jnp.arange(x.shape[0]), axis=1)
       if self.num_categories > 2:
         val_logprob = log_prob_all[rows, selected_idx]
-        rng, _ = jax.random.split(rng)
-        new_val = jax.random.categorical(rng, val_logprob)
+        new_val = jax.random.categorical(rng_val, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
         ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
-- 
2.43.0

