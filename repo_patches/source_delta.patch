From cb6e2a6c881d8ecfd437daad45c8006dccb8d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 01/27] fix: count the final holding time in jump-rate
 posterior and path log-likelihood

---
 ctbayes/mjplib/inference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index eb48efd..f52864b 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -33,7 +33,8 @@ def update(skel: Skeleton, alp0: np.ndarray, bet0: np.ndarray) -> (np.ndarray, n
     dim = bet0.shape[0]
     trans = np.float64([np.bincount(skel.xt[np.hstack([False, (skel.xt == i)[:-1]])], minlength=dim) for i in range(dim)])
     np.fill_diagonal(trans, np.nan)
-    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(0,))[skel.xt == i]) for i in range(dim)])
+    hold_t = np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))
+    hold = np.array([np.sum(hold_t[skel.xt == i]) for i in range(dim)])
     return trans + alp0, (hold + bet0.T).T
 
 
@@ -57,7 +58,8 @@ def eval_loglik(skel: Skeleton, gen: np.ndarray) -> float:
     :return:
     """
 
-    return np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]) + (skel.t[1:] - skel.t[:-1]) * np.diag(gen)[skel.xt[:-1]]).item()
+    hold_t = np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))
+    return (np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]])) + np.sum(hold_t * np.diag(gen)[skel.xt])).item()
 
 
 def eval_logprior(gen: np.ndarray, alp: np.ndarray, bet: np.ndarray) -> float:
-- 
2.43.0


From 3bdda10bef86f678a5fbd205134e4e7968a90628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 02/27] fix: sample the remaining order statistics of batched
 Poisson points within the remaining interval

---
 ctbayes/mjplib/skeleton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 01f2014..c814994 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -54,9 +54,10 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
     if n_points % batch_size != 0:
         batch_sizes = it.chain(batch_sizes, [n_points % batch_size])
 
-    ub = 0
+    ub, n_left = 0, n_points
     for i in batch_sizes:
-        lb, ub = ub, ub + bounds[0] * ome.beta(i, n_points + 1 - i)
+        lb, ub = ub, ub + (bounds[0] - ub) * ome.beta(i, n_left + 1 - i)
+        n_left -= i
         if i == 1:
             u0 = np.array([ub])
         else:
-- 
2.43.0


From bb305fe582186506aa6b01893061d1d5e7e85188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 03/27] fix: keep bounded escape series from reporting false
 lower bounds when the outer series exceeds one

---
 ctbayes/sdelib/hitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 600a22a..5b5c461 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -381,8 +381,8 @@ def series_brownbr_esc(fin_t: float,
     if ub_x is not None:
         num_seq = series_brownbr_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_brownbr_esc(fin_t, init_x, fin_x, ub_x), 1, None)
-        for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+        for i, (r, s) in enumerate(zip(num_seq, den_seq), 1):
+            yield 1 - (1 - r) / (1 - s) if s < 1 else i % 2
 
     # handle unbounded case
     s = 0
@@ -426,8 +426,8 @@ def series_bessel3br_esc(fin_t: float,
     if ub_x is not None:
         num_seq = series_bessel3br_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_bessel3br_esc(fin_t, init_x, fin_x, ub_x), 1, None)
-        for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+        for i, (r, s) in enumerate(zip(num_seq, den_seq), 1):
+            yield 1 - (1 - r) / (1 - s) if s < 1 else i % 2
 
     # handle unbounded case starting from positive value
     if init_x != 0:
-- 
2.43.0


From 5f1642bbb250109f9a291dda96e01b26105b9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 04/27] fix: keep hit information when interpolating a path at
 times it already has

---
 ctbayes/sdelib/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 4dfcd29..e8aa869 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -128,7 +128,7 @@ def fill_wiener_inner(t: np.ndarray, x: np.ndarray, new_t: np.ndarray, min_x: fl
     """
 
     if not len(new_t):
-        return t, x, np.int64([]), None
+        return t, x, np.int64([]), hit_i
 
     assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) < np.max(t)
     assert min_x <= np.min(x)
-- 
2.43.0


From 3efcb938f8f1861d134cc94fd1d86fe03a9dcc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 05/27] fix: make the drift, potential and drift derivative of
 switching model ou3 agree, also for vectors of regimes

---
 ctbayes/switching/models/ou3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/models/ou3.py b/ctbayes/switching/models/ou3.py
index d988334..a6d5ef5 100644
--- a/ctbayes/switching/models/ou3.py
+++ b/ctbayes/switching/models/ou3.py
@@ -10,15 +10,15 @@ def eval_vol(thi, yt):
 
 @curry
 def eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) * xt
+    return -np.prod(thi[yt], axis=-1) * xt
 
 @curry
 def sx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2 * np.square(xt) / 2
+    return -np.prod(thi[yt], axis=-1) * np.square(xt) / 2
 
 @curry
 def dx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2
+    return -np.prod(thi[yt], axis=-1)
 
 @curry
 def reduce(vt):
-- 
2.43.0


From ff7b7b3e822595343dd272ad63484c9363ef3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 06/27] fix: report valid discrepancy bounds for CIR when the
 discrepancy is convex or unbounded below

---
 ctbayes/ito/models/cir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index f78ed6a..c9d681c 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -31,8 +31,8 @@ def dereduce(thi, vt):
 @curry
 def eval_bounds_disc(thi, le_x, ue_x):
     edges_phi = eval_disc(thi, le_x), eval_disc(thi, ue_x)
-    if 4 * thi[0] * thi[1] < 3 * thi[2] ** 2:
-        return np.nan, min(edges_phi), max(edges_phi)
+    if thi[2] ** 2 <= 4 * thi[0] * thi[1] <= 3 * thi[2] ** 2:
+        return -np.inf, min(edges_phi), max(edges_phi)
     argmin_phi = f_argmin_disc(thi)
     min_phi = eval_disc(thi, argmin_phi)
     if le_x < bounds_x[0] or bounds_x[1] < ue_x:
-- 
2.43.0


From e07369aeb59feff6fa44e6e42a7cbfa4d36c633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 07/27] fix: call the CIR discrepancy with its own arguments in
 eval_inf_disc

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index c9d681c..8a2c167 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -49,7 +49,7 @@ def f_argmin_disc(thi):
     return ((4 * thi[1] / thi[2] ** 2 - 2 / thi[0]) ** 2 - 1 / thi[0] ** 2) ** (1 / 4)
 
 def eval_inf_disc(thi):
-    return eval_disc(thi)(None, f_argmin_disc(thi))
+    return eval_disc(thi, f_argmin_disc(thi))
 
 @curry
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
-- 
2.43.0


From ef9b0e25841c3b2fda55f3491350e23cd5ad3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 08/27] fix: anchor raw bridge proposals on the side that was
 drawn, keeping their range inside the state bounds

---
 ctbayes/ea3lib/skeleton.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ctbayes/ea3lib/skeleton.py b/ctbayes/ea3lib/skeleton.py
index 11571b9..00b575f 100755
--- a/ctbayes/ea3lib/skeleton.py
+++ b/ctbayes/ea3lib/skeleton.py
@@ -66,11 +66,16 @@ def sample_raw_skeleton(fin_t: float, init_x: float, fin_x: float, bounds_x: (fl
     """
 
     lo_anchor, lo_sector, hi_sector = layers.sample_anchor(fin_t, init_x, fin_x, *bounds_x, ome=ome)
-    tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, lo_sector, hi_sector, ome=ome)
-    skel = Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
-    if ome.uniform() < .5:
-        return skel
-    return flip_skeleton(skel)
+    if lo_anchor:
+        tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, lo_sector, hi_sector, ome=ome)
+    else:
+        # anchor at the maximum, i.e. at the minimum of the bridge mirrored in time and space
+        (lb_inf_x, ub_inf_x), (lb_sup_x, ub_sup_x) = lo_sector, hi_sector
+        tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(
+            fin_t, -fin_x, -init_x, (-ub_sup_x, -lb_sup_x), (-ub_inf_x, -lb_inf_x), ome=ome)
+        tight_t, tight_x, hit_x, loose_x = fin_t - tight_t, -tight_x, -hit_x, -loose_x
+        hit_i = None if hit_i is None else hit_i[::-1]
+    return Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
 
 
 def flip_poisson_coin(skel: Skeleton, eval_disc: Callable[[np.ndarray], np.ndarray],
-- 
2.43.0


From b362a50018fcb50d7319495417179d177319dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 09/27] fix: treat a flip of zero intensity as having no marks

---
 ctbayes/mjplib/skeleton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index c814994..45aaf5b 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -45,8 +45,8 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
     True
     """
 
-    assert 0 < intensity
-    assert 0 < min(bounds)
+    assert 0 <= intensity
+    assert 0 <= min(bounds)
     assert 0 < batch_size
 
     n_points = ome.poisson(intensity * np.prod(bounds))
-- 
2.43.0


From 1df575cbf22978ecf2ec3d317c6d6646657a91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 10/27] fix: halve the constant term in the gradient of the OU
 discrepancy

---
 ctbayes/ito/models/ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/ou.py b/ctbayes/ito/models/ou.py
index fd370ec..6dd23ed 100755
--- a/ctbayes/ito/models/ou.py
+++ b/ctbayes/ito/models/ou.py
@@ -44,7 +44,7 @@ def eval_inf_disc(thi):
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
     vt = (1 - t / fin_t) * init_v + t / fin_t * fin_v
     bet, sig = thi
-    dbet_phi = bet * (fin_t * np.square(zs) + np.square(vt / sig) + 2 * np.sqrt(fin_t) * zs * vt / sig) - 1
+    dbet_phi = bet * (fin_t * np.square(zs) + np.square(vt / sig) + 2 * np.sqrt(fin_t) * zs * vt / sig) - 1 / 2
     dsig_phi = -bet ** 2 * (np.sqrt(fin_t) * zs * vt / sig ** 2 + np.square(vt) / sig ** 3)
     return np.array([dbet_phi, dsig_phi])
 
-- 
2.43.0


From 6bb68490e438f03f96cff7cd041e4bcdd8b4df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 11/27] fix: weigh bridge proposals relative to the infimum of
 the discrepancy

---
 ctbayes/ea3lib/seed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ea3lib/seed.py b/ctbayes/ea3lib/seed.py
index 00bd92a..da161bf 100755
--- a/ctbayes/ea3lib/seed.py
+++ b/ctbayes/ea3lib/seed.py
@@ -49,12 +49,16 @@ def sample_bridge(bounds_x: (float, float),
     assert bounds_x[0] < bounds_x[1]
     assert 0 <= max_props
 
+    fin_t, = denorm_rsde(np.ones(1), None)[0]
+    _, ends_x = denorm_rsde(np.array([0, 1]), np.zeros(2))
+    inf_disc, _, _ = eval_bounds_disc(np.min(ends_x), np.max(ends_x))
+
     while True:
 
         for _ in range(max_props):
             proposal = sample_raw_seed(bounds_x, norm_rsde, denorm_rsde, ome)
             success, log_weight, proposal = flip_poisson_coin(proposal, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome)
-            if success and np.log(ome.uniform()) < log_weight:
+            if success and np.log(ome.uniform()) < log_weight + fin_t * inf_disc:
                 break
         else:
             raise BudgetConstraintError('None of the proposals were accepted.')
-- 
2.43.0


From 79e78c90c9aa30dd162d1a3c1feb8708e6b53e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 12/27] fix: return the log-Jacobians of scalar proposals as
 they are

---
 ctbayes/misc/adapt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 0436463..d7127ca 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -105,7 +105,7 @@ class MyopicRwSampler(object):
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
         prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
-        return prop, sum(log_p_forw), sum(log_p_backw)
+        return prop, log_p_forw, log_p_backw
 
     def adapt(self, sample: float, prob: float):
 
-- 
2.43.0


From 475b0840535c81b01ab81edb862325a9445e9ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 13/27] fix: draw parameter proposals from the supplied
 generator

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index d7127ca..1bfe943 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -68,7 +68,7 @@ class MyopicMvRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (np.ndarray, float, float):
 
         state_real, log_p_backw = zip(*[transform_to_reals(x_, lb_, ub_) for x_, lb_, ub_ in zip(self.state, *self.bounds)])
-        prop_real = np.random.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = zip(*[transform_to_const(y_, lb_, ub_) for y_, lb_, ub_ in zip(prop_real, *self.bounds)])
         return np.array(prop), sum(log_p_forw), sum(log_p_backw)
 
@@ -103,7 +103,7 @@ class MyopicRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (float, float, float):
 
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
-        prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
         return prop, log_p_forw, log_p_backw
 
-- 
2.43.0


From 6f6bee1efc3744fa786b542ef97f5ec2d997bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 14/27] fix: update running mean and covariance to their batch
 values

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 1bfe943..80713f7 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -23,8 +23,8 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
     """
 
     dev = obs - mean
-    mean = mean + dev / n
-    cov = cov + (np.outer(dev, dev) - cov) / n
+    mean = mean + dev / (n + 1)
+    cov = (n - 1) / n * cov + np.outer(dev, dev) / (n + 1)
 
     return mean, cov
 
-- 
2.43.0


From e833099e8241835e9751e04efed03da3e0a55d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 15/27] fix: leave trimming the observation times to the regime
 proposal

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 9e7c3b5..8f9b04a 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -154,7 +154,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
                   mod: Model, ctrl: Controls, regime_sampler: MyopicMjpSampler, ome: np.random.Generator, pool: Parallel
                   ) -> (mjp_skel.Skeleton, sde_seed.Partition, types.Anchorage):
 
-    y_prime, t_cond = regime_sampler.propose(lam, mod.t[1:-1], ome)
+    y_prime, t_cond = regime_sampler.propose(lam, mod.t, ome)
     z_prime, h_prime = mod.sample_aug(thi, y_prime, mod.t, mod.vt, ome)
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
-- 
2.43.0


From 2bd2911fa0a5a7b4a8874cbcd5c12b973804e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 16/27] fix: include the likelihood in the early rejection of
 parameter proposals

---
 ctbayes/ito/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index f014aa5..73a12aa 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -88,8 +88,8 @@ def eval_param_weight(thi: np.ndarray, mod: Model) -> float:
 def flip_param_precoin(thi_nil: np.ndarray, thi_prime: np.ndarray, log_p_for: float, log_p_back: float,
                        mod: Model, ome: np.random.Generator) -> bool:
 
-    weight_prime = mod.eval_log_prior(thi_prime) + log_p_back
-    weight_nil = mod.eval_log_prior(thi_nil) + log_p_for
+    weight_prime = eval_param_weight(thi_prime, mod) + log_p_back
+    weight_nil = eval_param_weight(thi_nil, mod) + log_p_for
     return np.log(ome.uniform()) < weight_prime - np.logaddexp(weight_prime, weight_nil)
 
 
-- 
2.43.0


From ff122338d62f6fee9089b84b520529efb3b6feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 17/27] fix: map anchors back to the observation scale once

---
 ctbayes/switching/static.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ctbayes/switching/static.py b/ctbayes/switching/static.py
index 302636d..6b63c27 100755
--- a/ctbayes/switching/static.py
+++ b/ctbayes/switching/static.py
@@ -48,11 +48,10 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
 
         xt = reduce(vt)
         y_part = mjp_skel.partition_skeleton(y, t[1:-1])
-        xtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
+        vtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
                          in zip(y_part, xt, xt[1:])] + [vt[-1]])
         tt = np.append(np.hstack([t0 + y_.t for t0, y_ in zip(t, y_part)]), t[-1])
         ytt = np.append(np.hstack([y_.xt for y_ in y_part]), y.xt[-1])
-        vtt = dereduce(xtt)
         z = [sde_seed.sample_raw_seed(bounds_x, normop, inv_normop, ome)
              for (normop, inv_normop) in gen_normops(thi, tt, ytt, vtt)]
         return z, types.Anchorage(tt, ytt, vtt)
-- 
2.43.0


From 68510672feb6900ff43ccd897e256d84457f3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 18/27] fix: fill the diagonal of the initial rate matrix with
 row sums

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index 044bbe2..e2f9ed9 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -37,7 +37,7 @@ def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np
                        ) -> Iterator[Tuple[float, np.ndarray, np.ndarray, List[sde_seed.Partition], List[types.Anchorage]]]:
 
     lam = mod.hyper_lam[0] / mod.hyper_lam[1]
-    lam[np.isnan(lam)] = -np.nansum(lam, 0)
+    lam[np.isnan(lam)] = -np.nansum(lam, 1)
     thi = np.repeat(init_thi[np.newaxis], lam.shape[0], 0)
     y = mjp_skel.sample_forwards(mod.t[-1], None, lam, ome)
     zz, hh = zip(mod.sample_aug(thi, y, mod.t, mod.vt, ome))
-- 
2.43.0


From 1c810cdb892aca0e097a42ce4b5b5cab578fd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 19/27] fix: size default optimiser bounds by the number of
 parameters

---
 ctbayes/switching/mcem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index e2f9ed9..227a4a8 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -70,7 +70,7 @@ def update_param(thi_nil: np.ndarray, zz: List[sde_seed.Partition], hh: List[typ
     def f_wrap_obj(thi_: np.ndarray, i: int) -> float:
         return -np.mean(f_obj(np.vstack([thi_nil[:i], thi_, thi_nil[i+1:]]), i))
 
-    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], len(thi_nil), ctrl.bound_buffer)
+    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], thi_nil.shape[1], ctrl.bound_buffer)
     f_obj = update_objective(thi_nil, zz, hh, mod, ctrl, ome, pool)
     
     opt = pool(
@@ -159,7 +159,7 @@ def est_se(thi: np.ndarray, zz: List[sde_seed.Partition], hh: List[types.Anchora
         thi_ = np.max([np.min([thi_, opt_bounds[1]], 0), opt_bounds[0]], 0)
         return f_obj(np.vstack([thi[:i], thi_, thi[i+1:]]), i)
 
-    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], len(thi), ctrl.bound_buffer)
+    opt_bounds = buffer_bounds(mod.bounds_thi[0], mod.bounds_thi[1], thi.shape[1], ctrl.bound_buffer)
     f_obj = update_objective(thi, zz, hh, mod, ctrl, ome, pool)
     se = []
     for i in range(thi.shape[0]):
-- 
2.43.0


From 0aeb6cf99128913c7e8d4415632ab0212017b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 20/27] fix: start each EM step from the previous optimum

---
 ctbayes/ito/mcem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ef32f4a..da35297 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -33,11 +33,12 @@ class Controls(NamedTuple):
 def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np.random.Generator
                        ) -> Iterator[Tuple[float, np.ndarray, List[seed.Partition]]]:
 
-    zz = [mod.sample_aug(init_thi, mod.t, mod.vt, ome)]
+    thi = init_thi
+    zz = [mod.sample_aug(thi, mod.t, mod.vt, ome)]
     n_particles = 1
     obj_nil = -np.inf
     while True:
-        obj, thi, zz = iterate_em(init_thi, zz[-1], n_particles, mod, ctrl, ome)
+        obj, thi, zz = iterate_em(thi, zz[-1], n_particles, mod, ctrl, ome)
         n_particles = int((n_particles ** (1 / ctrl.learning_rate) + 1) ** ctrl.learning_rate)
         yield obj, thi, zz
         if np.abs(obj - obj_nil) < ctrl.ftol:
-- 
2.43.0


From 8bf12a7dc821be623d1ca17110916bebfb035915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 21/27] fix: return one time per simulated Euler state

---
 ctbayes/misc/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/testing.py b/ctbayes/misc/testing.py
index eb50db1..205b5c6 100755
--- a/ctbayes/misc/testing.py
+++ b/ctbayes/misc/testing.py
@@ -38,4 +38,4 @@ def euler_simulate(ndraws: int,
     for e in noise:
         trajectory.append(trajectory[-1] + dfunc(trajectory[-1]) * res + vfunc(trajectory[-1]) * e)
 
-    return np.arange(0, fin_t, res), np.array(trajectory).T
+    return res * np.arange(len(trajectory)), np.array(trajectory).T
-- 
2.43.0


From 4a8f897ad74e9ea8d921248e98a87457c4732f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 22/27] fix: escape with what coin 2 has revealed so far, so
 that earlier failures are not forgotten

---
 ctbayes/misc/bfactories.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/bfactories.py b/ctbayes/misc/bfactories.py
index d753411..a30d557 100755
--- a/ctbayes/misc/bfactories.py
+++ b/ctbayes/misc/bfactories.py
@@ -21,7 +21,7 @@ def sample_twocoin(w1: float,
     :param c1: generator yielding heads with probability p1
     :param c2: generator yielding heads with probability p2
     :param pr_portkey: probability of escaping with coin 2
-    :param prop0:
+    :param prop0: proposal to escape with as long as coin 2 has not been flipped
     :param ome:
     :param max_props: maximum number of proposals
     :return: coin flip with probability of heads w1 * p1 / (w1 * p1 + w2 * p2)
@@ -53,9 +53,9 @@ def sample_twocoin(w1: float,
 
         # attempt proposal from coin 2
         else:
-            success, prop = next(c2)
+            success, prop0 = next(c2)
             if success:
-                return False, False, prop
+                return False, False, prop0
 
         # attempt escape or abort pathological proposal
         if ome.uniform() < pr_portkey:
-- 
2.43.0


From 8f0e3819504aec809fc0c647a746906eeffb6f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 23/27] fix: sample flat and linear log densities, whose hull
 has zero slopes or parallel tangents

---
 ctbayes/misc/ars.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3e7a613..349a50b 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -112,7 +112,10 @@ def gen_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray) -> np.ndarray:
     array([-0.5,  1. ])
     """
 
-    return np.diff(fx - x * dfx) / (dfx[:-1] - dfx[1:])
+    # tangents that coincide meet anywhere between their supports
+    flat = dfx[:-1] == dfx[1:]
+
+    return np.where(flat, (x[:-1] + x[1:]) / 2, np.diff(fx - x * dfx) / np.where(flat, 1, dfx[:-1] - dfx[1:]))
 
 
 def eval_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarray, x_new: float) -> float:
@@ -181,8 +184,11 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     # prevent over/underflows
     offset = np.max(dfx * (y[1:] - x) + fx)
 
-    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / dfx
-    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / dfx
+    # integrate the exponential of each segment, which is constant where the slope is 0
+    flat = dfx == 0
+    slope = np.where(flat, 1, dfx)
+    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) * np.where(flat, y[1:] - x, 1 / slope)
+    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) * np.where(flat, y[:-1] - x, 1 / slope)
 
     cdf = np.array([0, *np.cumsum(vol_upper - vol_lower)])
     norm = cdf[-1]
@@ -191,4 +197,6 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     z = ome.uniform()
     i = np.searchsorted(cdf / norm, z) - 1
 
+    if flat[i]:
+        return x[i] + (norm * z - cdf[i] + vol_lower[i]) * np.exp(offset - fx[i])
     return x[i] + (np.log((norm * z - cdf[i] + vol_lower[i]) * dfx[i]) - fx[i] + offset) / dfx[i]
-- 
2.43.0


From 80cd4fe0520975b6d7ec79ffd2737115989f6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 24/27] fix: find conditioning times in the grid of a pasted
 state despite rounding errors

---
 ctbayes/switching/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 8f9b04a..787480d 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -223,7 +223,8 @@ def flip_hidden_coins(thi: np.ndarray, z: sde_seed.Partition, h: types.Anchorage
 def split_hidden(z: sde_seed.Partition, h: types.Anchorage, new_t: np.ndarray
                  ) -> (List[sde_seed.Partition], List[types.Anchorage]):
 
-    break_r = [0] + list(np.where(np.isin(h.t[1:-1], new_t))[0] + 1) + [len(h.t) - 1]
+    # match times up to the rounding errors that accrue as sections are shifted and pasted back together
+    break_r = [0] + sorted(np.argmin(np.abs(h.t[1:-1] - t0)) + 1 for t0 in new_t) + [len(h.t) - 1]
     z_part = [z[r0:r1] for r0, r1 in zip(break_r, break_r[1:])]
     h_part = [types.Anchorage(h.t[r0:r1+1] - h.t[r0], h.yt[r0:r1+1], h.vt[r0:r1+1])
               for r0, r1 in zip(break_r, break_r[1:])]
-- 
2.43.0


From 45dc1fa8dd829a95d77b406cda89e499862449b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 25/27] fix: interpolate Wiener vectors at several times or in
 several dimensions

---
 ctbayes/sdelib/interpolators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index e8aa869..6fc4852 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -49,7 +49,8 @@ def fill_wiener_vector(t: np.ndarray, x: np.ndarray, new_t: np.ndarray,
     insert_to = np.searchsorted(t, new_t, side='right')
     sectors = np.unique(insert_to)
 
-    new_x = np.vstack([paths.sample_brownbr(new_t[insert_to == i] - t[i - 1], t[i] - t[i - 1], x[i - 1], x[i], ome)
+    new_x = np.vstack([np.transpose([paths.sample_brownbr(new_t[insert_to == i] - t[i - 1], t[i] - t[i - 1], x0, x1, ome)
+                                     for x0, x1 in zip(x[i - 1], x[i])])
                        for i in sectors])
 
     stack_t = np.insert(np.float64(t), insert_to, new_t)
-- 
2.43.0


From c9b0373d9a11759853ddc40b2bc98a076828f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 26/27] fix: accept an empty request when interpolating Wiener
 vectors

---
 ctbayes/sdelib/interpolators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 6fc4852..f6fd113 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -40,12 +40,12 @@ def fill_wiener_vector(t: np.ndarray, x: np.ndarray, new_t: np.ndarray,
     True
     """
 
-    assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) <= np.max(t)
-    assert t.shape[0] == x.shape[0]
-
     if len(new_t) == 0:
         return t, x, np.int64([])
 
+    assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) <= np.max(t)
+    assert t.shape[0] == x.shape[0]
+
     insert_to = np.searchsorted(t, new_t, side='right')
     sectors = np.unique(insert_to)
 
-- 
2.43.0


From b4800cf39126b17bfa6811afc4f944ca0ce4e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 27/27] fix: report no finite lower bound when a CIR interval
 leaves the state space and the discrepancy has no infimum

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index 8a2c167..18872b9 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -32,7 +32,7 @@ def dereduce(thi, vt):
 def eval_bounds_disc(thi, le_x, ue_x):
     edges_phi = eval_disc(thi, le_x), eval_disc(thi, ue_x)
     if thi[2] ** 2 <= 4 * thi[0] * thi[1] <= 3 * thi[2] ** 2:
-        return -np.inf, min(edges_phi), max(edges_phi)
+        return -np.inf, -np.inf if le_x < bounds_x[0] else min(edges_phi), max(edges_phi)
     argmin_phi = f_argmin_disc(thi)
     min_phi = eval_disc(thi, argmin_phi)
     if le_x < bounds_x[0] or bounds_x[1] < ue_x:
-- 
2.43.0

