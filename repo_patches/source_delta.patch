From 0d40283e941ef110ea0fb5ca5a2f62ab40571a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 01/46] fix: use int instead of np.int, which numpy no longer
 provides

---
 lom/experiments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..f98bf72 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -78,7 +78,7 @@ def dbtf_reconstruct(X, L, hyperparms=[3, .3, 25], compute_output=True):
 
     # load results
     factors_dbtf_sparse = [np.loadtxt('./output/sample_factor' + str(i) + '_sparse.txt',
-                                      delimiter=',', dtype=np.int) for i in range(1, 4)]
+                                      delimiter=',', dtype=int) for i in range(1, 4)]
 
     # convert results to dense arrays
     f_dbtf = []
@@ -170,7 +170,7 @@ def split_train_test(tensor, split=.1, balanced=False):
     def index_generator():
         return tuple([np.random.randint(dim) for dim in tensor.shape])
 
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
+    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=int)
     i = 0
 
     if balanced is False:
-- 
2.43.0


From 0648c2af8ea049221eec2efa825d6912cac35caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 02/46] fix: default model list of the grid search referred to
 an unimported name

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index f98bf72..57f2530 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -322,7 +322,7 @@ def LOM_hyperparms_parallel_gridsearch(X,
     import pandas as pd
 
     if machines is None:
-        machines = aux.canonical_loms()
+        machines = lib.canonical_loms()
 
     # train/test split
     make_split = True
-- 
2.43.0


From 836f9ee68a6c48c95c45fd95f28934bc84214445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 03/46] fix: grid search retries only splits that are too large

The bare except also swallowed interrupts, failed allocations and programming errors and retried forever.
---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 57f2530..2963adf 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -331,7 +331,7 @@ def LOM_hyperparms_parallel_gridsearch(X,
         try:
             X_train, train_mask = split_train_test(X, split=split, balanced=balanced)
             make_split = False
-        except:
+        except (AssertionError, ValueError):
             print('\n\n\n\n\n\n\nMake test set smaller!\n\n\n\n\n\n')
             split *= .1
 
-- 
2.43.0


From 1c94f573ef0fbc2abdf416a79e01f089135e95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 04/46] fix: weight each of two parent layers with its own
 model's output

Both parent terms were computed with the product of the second parent's model.
---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..4cfee15 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -280,8 +280,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_1_posterior_score_fct = get_parent_score_fct(parent_model_1)
+    parent_2_posterior_score_fct = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -298,10 +298,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_1_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_2_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -323,11 +323,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_1_posterior_score_fct(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_2_posterior_score_fct(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -342,8 +342,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_1_posterior_score_fct = get_parent_score_fct(parent_model_1)
+    parent_2_posterior_score_fct = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -365,10 +365,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_1_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_2_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From 9a89916517ff8ab3f048e50c785bc6ad7288fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 05/46] fix: misplaced parenthesis in the 3D sampler with a
 parent layer

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 4cfee15..ecf1758 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -230,7 +230,7 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From 8038a84c0841f037608b032a6c047bd92d8ce6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 06/46] fix: MAX-AND sampler mixed up rank and index of latent
 dimensions

Scores are computed for the l-th ranked dimension, but were applied to (and masked by) the l-th dimension. Scores are sums of log-ratios and must not be truncated to integers.
---
 lom/_numba/max_machine_sampler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..08a5d29 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -14,14 +14,16 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            if Z_fixed[n, l] == 1:
+            # l is the rank of the latent dimension that is updated
+            l_idx = l_sorted[l]
+            if Z_fixed[n, l_idx] == 1:
                 continue
             logit_p = posterior_score_MAX_AND_2D(
                         Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
-            Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
+            Z[n, l_idx] = flip_metropolised_gibbs_numba(logit_p, Z[n, l_idx])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('float64(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
@@ -31,9 +33,9 @@ def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
     D, L = U.shape
 
-    score = np.int32(0)
+    score = np.float64(0)
     for d in range(D):
-        if U[d, l] != 1:  # AND
+        if U[d, l_sorted[l]] != 1:  # AND
             continue
 
         alrdy_active = False
-- 
2.43.0


From 39cc8573449ae1d32cdf4e4e7fd4ce87b0e033aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 07/46] fix: MAX-AND sampler used stale rate ratios after rates
 were set by the user

---
 lom/matrix_update_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..2ded2b0 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -43,9 +43,12 @@ def get_sampling_fct(mat):
     if mod == 'MAX_AND_2D':
         assert p1mod is None
         assert p2mod is None
-        from lom._numba.max_machine_sampler import draw_MAX_AND_2D
+        from lom._numba.max_machine_sampler import (
+            draw_MAX_AND_2D, compute_lbda_ratios)
 
         def MAX_AND_2D(mat):
+            # rates may have been changed or fixed by the user
+            compute_lbda_ratios(mat.layer)
             l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
             draw_MAX_AND_2D(
                 mat(),
-- 
2.43.0


From 4f2e4db6a634ef44bcbd34257ab55e5c2132ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 08/46] fix: MAX-AND outputs use the largest active rate and
 the base rate

The deterministic product took the smallest active rate and the fuzzy product could exceed one for tied rates. Unexplained data points are emitted at the base rate.
---
 lom/_numba/lom_outputs.py       |  6 +++++-
 lom/_numba/lom_outputs_fuzzy.py | 16 +++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..5c7bd7c 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -254,9 +254,13 @@ def XOR_NAND_product_3d(u, z, v):
 def MAX_AND_product_2d(factors, lbdas):
 
     out = np.zeros([f.shape[0] for f in factors])
-    for l_idx in np.argsort(lbdas[:-1]):
+    # from largest to smallest rate
+    for l_idx in np.argsort(-lbdas[:-1]):
         temp = lbdas[l_idx] * OR_AND_product_expand(
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
 
+    # unexplained data points are emitted at the base rate
+    out[out == 0] = lbdas[-1]
+
     return out
diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..bf62f9a 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -215,15 +215,17 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
             acc = 0  # accumulator for sum
             for l1 in range(L):
                 temp1 = Z[n, l1] * U[d, l1] * lbdas[l1]
-                # check for explaining away
+                # check for explaining away by larger rates (ties: by index)
                 prod = 1
                 for l2 in range(L):
-                    if l1 == l2:
-                        continue
-                    temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
-                        prod *= 1 - temp2
+                    if lbdas[l2] > lbdas[l1] or\
+                            (lbdas[l2] == lbdas[l1] and l2 < l1):
+                        prod *= 1 - Z[n, l2] * U[d, l2]
                 acc += temp1 * prod
-            out[n, d] = acc
+            # base rate, if no dimension is active
+            prod = 1
+            for l1 in range(L):
+                prod *= 1 - Z[n, l1] * U[d, l1]
+            out[n, d] = acc + lbdas[-1] * prod
     return out    
 
-- 
2.43.0


From fbc13928e96e19c63b3ffa62772bc20e4c9b96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 09/46] fix: probabilistic outputs of 3-way models

All but OR-AND fell back to the deterministic product, ignoring fuzzy=True, and the fuzzy OR-XOR product had a precedence error.
---
 lom/_numba/lambda_updates_numba.py | 2 +-
 lom/_numba/lom_outputs_fuzzy.py    | 6 +++---
 lom/auxiliary_functions.py         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lom/_numba/lambda_updates_numba.py b/lom/_numba/lambda_updates_numba.py
index 3c96cc0..18849a3 100644
--- a/lom/_numba/lambda_updates_numba.py
+++ b/lom/_numba/lambda_updates_numba.py
@@ -146,7 +146,7 @@ def make_output_function_2d_fuzzy(model):
 def make_output_function_3d_fuzzy(model):
     get_scalar_output_3d = get_scalar_output_function_3d(model, fuzzy=True)
 
-    @jit('float64[:,:](float64[:,:], float64[:,:], float64[:,:])',
+    @jit('float64[:,:,:](float64[:,:], float64[:,:], float64[:,:])',
          nogil=True, nopython=False, parallel=True)
     def output_function_3d(Z, U, V):
         N = Z.shape[0]
diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index bf62f9a..822fca9 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..b355960 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -756,7 +756,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3:
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
-- 
2.43.0


From 6d602e830ceeeeb7cfd29ae8d287748423ca21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 10/46] fix: models with inverted data modified the caller's
 data array in place

---
 lom/auxiliary_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index b355960..4dbe1e6 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -941,7 +941,7 @@ def canonise_model(model, child):
     if invert_data is True and invert_factors is False:
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data.\n')
-        child.val *= -1
+        child.val = -child.val
 
     if invert_data is False and invert_factors is True:
         print('\n' + model + ' is treated as ' + model_new +
@@ -951,7 +951,7 @@ def canonise_model(model, child):
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data and inverted factors. ' +
               ' (invert factors yourself!)\n')
-        child.val *= -1
+        child.val = -child.val
 
     # print warning for OR-NAND models.
     if model_new == 'OR-NAND':
-- 
2.43.0


From 4eef7545bc1e3d77ee17a245b04f4a4d775eda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 11/46] fix: annealing overshot the target dispersion

The schedule was off by one step, ended at target * (1 + 1 / burn_in_min), could run out of steps through rounding and failed for vector valued dispersions.
---
 lom/machine.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index debef3b..6855e6d 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -589,16 +589,13 @@ class Machine():
                         assert fix_lbda_iters == 0
                     except:
                         raise ValueError('fix_lbda_iters should be zero for annealing.')
-                    # pre-compute annealing steps
+                    # remember initially given values
                     if pre_burn_in_iter == fix_lbda_iters + 1:
-                        annealing_lbdas = [np.arange(
-                            lbda() / burn_in_min,
-                            lbda() + 2 * lbda() / burn_in_min,
-                            lbda() / burn_in_min)
-                            for lbda in lbdas]
+                        annealing_lbdas = [lbda() for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter]
+                        lbda.val = annealing_lbdas[lbda_idx] *\
+                            (pre_burn_in_iter / burn_in_min)
 
         # allocate array for lambda traces for burn in detection
         for lbda in lbdas:
-- 
2.43.0


From ad8b15399ab47df097e4a1fb45cc32c116060d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 12/46] fix: first convergence check used a window with an
 uninitialised entry

The check ran before the last iteration of the first window. The reported number of burn-in iterations counted an iteration that was not performed, or left out the pre-burn-in.
---
 lom/machine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 6855e6d..93ef877 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -615,8 +615,9 @@ class Machine():
                       '\t--\t '.join([x.print_value() for x in lbdas]),
                       end='')
 
-            #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            #  check convergence after every convergence_window iterations
+            if burn_in_iter > 1 and\
+                    (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
@@ -643,7 +644,7 @@ class Machine():
 
                     else:
                         # save number of burn in iterations
-                        self.burn_in_iters = burn_in_iter + pre_burn_in_iter
+                        self.burn_in_iters = pre_burn_in_iter + burn_in_iter - 1
                         break
 
             # stop if maximum number of burn in iterations is reached
@@ -658,7 +659,7 @@ class Machine():
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-                self.burn_in_iters = burn_in_iter
+                self.burn_in_iters = pre_burn_in_iter + burn_in_iter - 1
                 break
 
             # draw samples # shuffle(mats)
-- 
2.43.0


From 0fcfc86f325e91a60b5b467bc9b445837a73f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 13/46] fix: priors changed between runs had no effect

The prior was evaluated when the sampling function was first created and cached.
---
 lom/matrix_update_wrappers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 2ded2b0..b3f2b1c 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -126,7 +126,6 @@ def get_sampling_fct(mat):
         elif mat.child_axis == 1:
             # return lambda mat: None
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
-            logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
             def LOM_sampler(mat):
                 # numba_mu.draw_OR_AND_2D(
@@ -136,14 +135,12 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
     # assign functions for all classical LFMs
     else:
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         # standard case: one child, no parents
         if p1mod is None and mod is not None:
             sample = numba_mu.make_sampling_fct_onechild(mod)
@@ -156,7 +153,7 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
@@ -174,7 +171,7 @@ def get_sampling_fct(mat):
                     mat.layer.lbda(),
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -188,7 +185,7 @@ def get_sampling_fct(mat):
                     mat.fixed_entries,
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -204,7 +201,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -224,7 +221,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
-- 
2.43.0


From 6f92692fce3262eed7a1233105b51c884707d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 14/46] fix: layers added after a run were ignored by matrices
 sampled before

The cached sampling function of the earlier architecture was kept.
---
 lom/matrix_update_wrappers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index b3f2b1c..5c72395 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -16,14 +16,17 @@ def get_sampling_fct(mat):
     Other architecture are only partially supported
     """
 
-    # use pre-assigned sampling function if present
-    if mat.sampling_fct is not None:
-        return mat.sampling_fct
-
     # determine order of child dimensions such that first
     # child dimension and mat dimension are aligned.
     mod, p1mod, p2mod = get_relatives_models(mat)
 
+    # use pre-assigned sampling function if present, unless it was assigned
+    # here before further layers were added
+    if mat.sampling_fct is not None:
+        if getattr(mat, 'assigned_for', None) in [None, (mod, p1mod, p2mod)]:
+            return mat.sampling_fct
+    mat.assigned_for = (mod, p1mod, p2mod)
+
     if mod is not None:
         transpose_order = tuple(
             [mat.child_axis] +
-- 
2.43.0


From 85b4cffd7833b588ccb6a3800ab46910c3fb2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 15/46] fix: sampling an unfixed data matrix failed, it belongs
 to no layer

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 93ef877..892ad8e 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -721,7 +721,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From 448deb3c81ff07f52f865ab77c0b34e1d2c41664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 16/46] fix: averages and sample based outputs used stale or
 uninitialised samples

Traces of earlier runs were kept for matrices and dispersions that were fixed later on, aborted runs left traces that were only partly filled (or held burn-in states), and the mc output failed for fixed factors and dispersions.
---
 lom/machine.py | 75 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 892ad8e..fa9137c 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -145,10 +145,20 @@ class Trace():
         self.trace[self.trace_index] = self.val
         self.trace_index += 1
 
+    def samples(self):
+        """
+        Samples recorded in the latest run. The current state is considered
+        the only sample if none were recorded.
+        """
+        if self.trace_index > 0:
+            return self.trace[:self.trace_index]
+        else:
+            return [self()]
+
     def mean(self):
-        if 'trace' in dir(self):
-            return np.mean(self.trace, axis=0)
-        # if no trace is defined, return current state
+        if self.trace_index > 0:
+            return np.mean(self.samples(), axis=0)
+        # if no samples were recorded, return current state
         else:
             return self()
 
@@ -338,6 +348,16 @@ class MachineLayer():
         return (self.model + '-' + str(len(self.factors)) +
                 'D').replace('-', '_')
 
+    @staticmethod
+    def joint_samples(members):
+        """
+        List of joint samples of all members. Members that are fixed
+        contribute their current state to every sample.
+        """
+        samples = [x.samples() for x in members]
+        return [[s[min(t, len(s) - 1)] for s in samples]
+                for t in range(max([len(s) for s in samples]))]
+
     def output(self,
                technique='factor_map',
                noisy_emission=False,
@@ -380,11 +400,11 @@ class MachineLayer():
                         for x in self.factors], self.lbda())
             elif technique == 'mc':
                 out = np.zeros([x().shape[0] for x in self.factors])
-                for t in range(self.lbda.trace.shape[0]):
+                samples = self.joint_samples(self.factors + [self.lbda])
+                for sample in samples:
                     out += lom_outputs.MAX_AND_product_2d(
-                        [x.trace[t, :] for x in self.factors],
-                        self.lbda.trace[t])
-                out /= self.lbda.trace.shape[0]
+                        sample[:-1], sample[-1])
+                out /= len(samples)
             elif technique == 'factor_mean':
                 out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                     .5 * (self.z.mean() + 1),
@@ -428,12 +448,11 @@ class MachineLayer():
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
+                samples = self.joint_samples(self.factors)
 
-                for t in range(self.lbda.trace.shape[0]):
-                    out += aux.lom_generate_data_fast([x.trace[t, :]
-                                                       for x in self.factors],
-                                                      self.model)
-                out /= self.lbda.trace.shape[0]
+                for sample in samples:
+                    out += aux.lom_generate_data_fast(sample, self.model)
+                out /= len(samples)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             # convert to probability of generating a 1
@@ -680,6 +699,10 @@ class Machine():
         sampling phase.
         """
 
+        # samples of previous runs are not valid anymore
+        for member in self.members + self.lbdas:
+            member.trace_index = 0
+
         # create list of matrices to draw samples from
         mats = [mat for mat in self.members if not mat.fixed]
         # sort from large to small, does it affect convergence?
@@ -700,23 +723,21 @@ class Machine():
         #         print('Oo')
         #         thing_to_update.set_sampling_fct()
 
-        # ascertain sure all trace indices are zero
-        for mat in mats:
-            mat.trace_index = 0
-        for lbda in lbdas:
-            if lbda is not None:
-                lbda.trace_index = 0
-
         # burn in markov chain
         print('burning in markov chain...')
-        self.burn_in(mats,
-                     lbdas,
-                     eps=convergence_eps,
-                     convergence_window=convergence_window,
-                     burn_in_min=burn_in_min,
-                     burn_in_max=burn_in_max,
-                     print_step=print_step,
-                     fix_lbda_iters=fix_lbda_iters)
+        try:
+            self.burn_in(mats,
+                         lbdas,
+                         eps=convergence_eps,
+                         convergence_window=convergence_window,
+                         burn_in_min=burn_in_min,
+                         burn_in_max=burn_in_max,
+                         print_step=print_step,
+                         fix_lbda_iters=fix_lbda_iters)
+        finally:
+            # traces used for burn in detection are not samples
+            for lbda in lbdas:
+                lbda.trace_index = 0
 
         # allocate memory to save samples
         print('allocating memory to save samples...')
-- 
2.43.0


From ad5b359e5dd176d8d37b7fad08adb27cc44651b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 17/46] fix: clean-up of latent dimensions skipped dimensions
 and lost alignment

Dimensions following a removed one were not examined, marks of fixed entries and MAX-AND rates were not trimmed along, fixed entries were reset, and a failing allocation left factors of different size.
---
 lom/auxiliary_functions.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 4dbe1e6..fd47ab7 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -116,8 +116,12 @@ def clean_up_codes(layer, reset=True, clean=False):
     l = 0
     while l < layer.size:  # need to use while loop because layer.size changes.
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
+            L = layer.size
             cleaning_action(l, layer)
             reduction_applied = True
+            # the next dimension has moved to position l
+            if layer.size < L:
+                continue
         l += 1
 
     # remove duplicates
@@ -125,12 +129,15 @@ def clean_up_codes(layer, reset=True, clean=False):
     while l < layer.size:
         l_prime = l + 1
         while l_prime < layer.size:
+            L = layer.size
             for f in layer.factors:
                 if np.all(f()[:, l] == f()[:, l_prime]):
                     reduction_applied = True
                     cleaning_action(l_prime, layer)
                     break
-            l_prime += 1
+            # the next dimension has moved to position l_prime after removal
+            if layer.size == L:
+                l_prime += 1
         l += 1
 
     if reduction_applied is True:
@@ -150,13 +157,21 @@ def remove_dimension(l_prime, layer):
     # update for tensorm link does not support parents
     # nor priors
     # layer.size -= 1
-    for f in layer.factors:
-        f.val = np.delete(f.val, l_prime, axis=1)
+    vals = [np.delete(f.val, l_prime, axis=1) for f in layer.factors]
+    fixed_entries = [np.delete(f.fixed_entries, l_prime, axis=1)
+                     for f in layer.factors]
+    lbda_val = layer.lbda.val
+    if layer.model == 'MAX-AND':
+        lbda_val = np.delete(lbda_val, l_prime)
+
+    for f, val, fixed in zip(layer.factors, vals, fixed_entries):
+        f.val, f.fixed_entries = val, fixed
+    layer.lbda.val = lbda_val
 
 
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
-        f.val[:, l_prime] = -1
+        f.val[f.fixed_entries[:, l_prime] != 1, l_prime] = -1
 
 
 def plot_matrix_ax(mat, ax, draw_cbar=True):
-- 
2.43.0


From 4ca16d2669efdd57c4f899932174e282f7f46bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 18/46] fix: runs of the non-parametric model failed when
 dimensions were created

The fixed-entry masks kept their initial size and the trace had room for ten additional dimensions only.
---
 lom/machine.py                | 7 +++++++
 lom/matrix_update_wrappers.py | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index fa9137c..659c93e 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -124,6 +124,13 @@ class Trace():
                                  dtype=self().dtype, fill_value=-1)
 
     def update_trace_IBP(self):
+        # more new columns than anticipated
+        missing = self.val.shape[1] - self.trace.shape[2]
+        if missing > 0:
+            self.trace = np.concatenate(
+                [self.trace,
+                 np.full(self.trace.shape[:2] + (missing,),
+                         dtype=self.trace.dtype, fill_value=-1)], axis=2)
         self.trace[self.trace_index,
                    :self.val.shape[0],
                    :self.val.shape[1]] = self.val
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 5c72395..b6b8ec6 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -123,6 +123,11 @@ def get_sampling_fct(mat):
                     mat.siblings[0].bernoulli_prior,
                     mat.layer.alpha)
 
+                # number of latent dimensions may have changed
+                for f in mat.layer.factors:
+                    if f.fixed_entries.shape != f().shape:
+                        f.fixed_entries = np.zeros(f().shape, dtype=np.int8)
+
             return IBP_sampler
 
         # For U, sample as usual
@@ -131,6 +136,9 @@ def get_sampling_fct(mat):
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
 
             def LOM_sampler(mat):
+                # update of the first factor may have been interrupted
+                if mat.fixed_entries.shape != mat().shape:
+                    mat.fixed_entries = np.zeros(mat().shape, dtype=np.int8)
                 # numba_mu.draw_OR_AND_2D(
                 sample(
                     mat(),
-- 
2.43.0


From 4bc906be0af439ed19f18877ad2193f5607d342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 19/46] fix: a failing output computation left the
 non-parametric model renamed

The layer was renamed to OR-AND while computing outputs.
---
 lom/machine.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 659c93e..f849b84 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -391,10 +391,8 @@ class MachineLayer():
                   'under disregard of technique.')
             return self.prediction
 
-        reset_name_to_IBP = False
-        if self.model == 'OR-AND-IBP':
-            reset_name_to_IBP = True
-            self.model = 'OR-AND'
+        # outputs of the IBP model are those of OR-AND
+        model = 'OR-AND' if self.model == 'OR-AND-IBP' else self.model
 
         # otherwise compute
         if self.model == 'MAX-AND':
@@ -432,33 +430,33 @@ class MachineLayer():
         else:
             if technique == 'point_estimate':
                 out = aux.lom_generate_data_fast(
-                    [x() for x in self.factors], self.model)
+                    [x() for x in self.factors], model)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'factor_map':
                 out = aux.lom_generate_data_fast(
                     [2 * (x.mean() > 0) - 1 for x in self.factors],
-                    self.model)
+                    model)
                 out = np.array(out == 1, dtype=np.int8)  # map to probability of emitting a 1
 
             elif technique == 'factor_mean':
                 # output does not need to be mapped to probabilities
                 out = aux.lom_generate_data_fast(
                     [(x.mean() + 1) * .5 for x in self.factors],  # map to (0,1)
-                    self.model,
+                    model,
                     fuzzy=True)
 
             elif technique == 'factor_mean_old':
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
-                    self.model)
+                    model)
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
                 samples = self.joint_samples(self.factors)
 
                 for sample in samples:
-                    out += aux.lom_generate_data_fast(sample, self.model)
+                    out += aux.lom_generate_data_fast(sample, model)
                 out /= len(samples)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
@@ -469,9 +467,6 @@ class MachineLayer():
 
         self.prediction = out
 
-        if reset_name_to_IBP is True:
-            self.model = 'OR-AND-IBP'
-
         if map_to_probabilities is True:
             return out
         else:
-- 
2.43.0


From f3f5c168e63ce5cb07560d8170b12e3b85dc5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 20/46] fix: explicit seeds of the noise functions were ignored

---
 lom/auxiliary_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index fd47ab7..754a7db 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -555,6 +555,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -570,6 +572,8 @@ def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From 74d3e227759b757962bbf99f8cc7ad62ad29dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 21/46] fix: unsupported models raise instead of blocking in
 the debugger

---
 lom/auxiliary_functions.py    | 2 --
 lom/matrix_update_wrappers.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 754a7db..e3aa402 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -949,8 +949,6 @@ def canonise_model(model, child):
         pass
 
     else:
-        import pdb
-        pdb.set_trace()
         raise NotImplementedError("Model not implemented.")
 
     # print output and invert data if needed.
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index b6b8ec6..ab35763 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -237,8 +237,6 @@ def get_sampling_fct(mat):
             return LOM_sampler_hasparents
 
         else:
-            import pdb
-            pdb.set_trace()
             raise NotImplementedError("More than one parent not supported.")
 
 
-- 
2.43.0


From ed31d541b3fd1f3fc75c9a1f4f18e855863460ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 22/46] fix: failures of the external dbtf solver were ignored

Results of an earlier call were returned if the solver failed or wrote nothing, and factors with a single entry could not be read.
---
 lom/experiments.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 2963adf..099ba96 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -72,13 +72,19 @@ def dbtf_reconstruct(X, L, hyperparms=[3, .3, 25], compute_output=True):
     hyperparms = [str(x) for x in hyperparms]
     shell_command = ['./dbtf_submit_simple.sh'] + [str(dim) for dim in X.shape] + [str(L)] + hyperparms
 
+    # remove results of earlier calls
+    result_files = ['./output/sample_factor' + str(i) + '_sparse.txt' for i in range(1, 4)]
+    for result_file in result_files:
+        if os.path.exists(result_file):
+            os.remove(result_file)
+
     # run dbtf algorithm
     print('Calling dbtf script: ', shell_command)
-    subprocess.call(shell_command)
+    subprocess.check_call(shell_command)
 
     # load results
-    factors_dbtf_sparse = [np.loadtxt('./output/sample_factor' + str(i) + '_sparse.txt',
-                                      delimiter=',', dtype=int) for i in range(1, 4)]
+    factors_dbtf_sparse = [np.loadtxt(result_file, delimiter=',', dtype=int, ndmin=2)
+                           for result_file in result_files]
 
     # convert results to dense arrays
     f_dbtf = []
-- 
2.43.0


From 02dd5fa3817107b5345ff8354bb4aeb88f528480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 23/46] fix: random restarts of the grid search were not
 independent

Workers are forked with the same state of the random generator and random_idx was not used.
---
 lom/experiments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/experiments.py b/lom/experiments.py
index 099ba96..50a6232 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -270,6 +270,9 @@ def LOM_predictive(experiment, return_machine=True):
     # unpack experiment parameters
     X, X_train, train_mask, machine, L, random_idx, lbda_init, anneal = experiment
 
+    # worker processes inherit identical states of the random generator
+    np.random.seed(random_idx)
+
     orm = lom.Machine()
     data = orm.add_matrix(X_train, fixed=True)
     layer = orm.add_layer(latent_size=L, child=data, model=machine)
-- 
2.43.0


From 22cf7df7d7ed4ac906884101b243c8282bbd8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 24/46] fix: quorum model with both factors fixed failed

The quorum was given the sampling function of the second factor.
---
 lom/matrix_update_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index ab35763..97a728a 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -77,6 +77,10 @@ def get_sampling_fct(mat):
 
         mat.layer.q.sampling_fct = q_sampler
 
+        # both factors are fixed
+        if mat is mat.layer.q:
+            return q_sampler
+
         if mat.child_axis == 0:
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
-- 
2.43.0


From 9d13a6b0dd6271a6b4f363ff0e6b87afd7031326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 25/46] fix: interrupted assignment kept the sampling function
 of the earlier architecture

---
 lom/matrix_update_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 97a728a..4ef79cc 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -25,6 +25,7 @@ def get_sampling_fct(mat):
     if mat.sampling_fct is not None:
         if getattr(mat, 'assigned_for', None) in [None, (mod, p1mod, p2mod)]:
             return mat.sampling_fct
+    mat.sampling_fct = None
     mat.assigned_for = (mod, p1mod, p2mod)
 
     if mod is not None:
-- 
2.43.0


From 3106bcc47ddad470988ac3f80b76c486498d8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 26/46] fix: factor_mean_old outputs were not mapped to
 probabilities

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index f849b84..1cedbf5 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -450,6 +450,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From 952e2603bb32a3fd766b0b5201f0541102fb7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 27/46] fix: scores of 2D samplers overflowed for more than 127
 data points

---
 lom/_numba/matrix_updates_numba.py |  8 ++++----
 lom/_numba/posterior_score_fcts.py | 32 +++++++++++++++---------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index ecf1758..8feb302 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -563,14 +563,14 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
         # q[0, d] = np.argmax(logconditional[:, d]) + 1
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
 def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     # TODO: numba
     """
     D, L = U.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -597,11 +597,11 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     return score
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..d47bf13 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -8,7 +8,7 @@ from numba import jit
 from numba.types import int64
 
 # OR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -71,7 +71,7 @@ def posterior_score_OR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -141,7 +141,7 @@ def posterior_score_XOR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -206,7 +206,7 @@ def posterior_score_XOR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -262,7 +262,7 @@ def posterior_score_OR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -313,11 +313,11 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # NAND-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -357,12 +357,12 @@ def posterior_score_NAND_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -408,11 +408,11 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NXOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From 8bad325e4d611f9a71e6cd28f71f3305aca11765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 28/46] fix: MAX-AND sampler updated the wrong dimension beyond
 127 latent dimensions

---
 lom/_numba/max_machine_sampler.py | 2 +-
 lom/matrix_update_wrappers.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 08a5d29..f43a898 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -23,7 +23,7 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
             Z[n, l_idx] = flip_metropolised_gibbs_numba(logit_p, Z[n, l_idx])
 
 
-@jit('float64(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('float64(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])', 
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 4ef79cc..ea8c8bf 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -53,7 +53,7 @@ def get_sampling_fct(mat):
         def MAX_AND_2D(mat):
             # rates may have been changed or fixed by the user
             compute_lbda_ratios(mat.layer)
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.argsort(-mat.layer.lbda()[:-1])
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From 485ad9b1ab206559e7dcf424a21d39505e702b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 29/46] fix: the MAX-AND sampler ignored the Bernoulli priors
 of factors

---
 lom/_numba/max_machine_sampler.py | 5 +++--
 lom/matrix_update_wrappers.py     | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index f43a898..e9cce6c 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -10,7 +10,7 @@ from lom._numba.lom_outputs import OR_AND_product_expand
 
 # @jit('void(int8[:,:], int8[:,:], int8[:,:], float64[:], int8[:], float32[:,:,:])',
 #      nogil=True, nopython=False, parallel=True)
-def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
+def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios, logit_prior):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
@@ -20,7 +20,8 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
                 continue
             logit_p = posterior_score_MAX_AND_2D(
                         Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
-            Z[n, l_idx] = flip_metropolised_gibbs_numba(logit_p, Z[n, l_idx])
+            Z[n, l_idx] = flip_metropolised_gibbs_numba(
+                logit_p + logit_prior, Z[n, l_idx])
 
 
 @jit('float64(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])', 
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index ea8c8bf..cc56faa 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -61,7 +61,8 @@ def get_sampling_fct(mat):
                 mat.layer.child().transpose(transpose_order),
                 mat.layer.lbda(),
                 l_order,
-                mat.layer.lbda_ratios)
+                mat.layer.lbda_ratios,
+                np.float64(logit(mat.bernoulli_prior)))
 
         return MAX_AND_2D
 
-- 
2.43.0


From e32eca5a47088a23c1d17c55ca9f55fc25b6a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 30/46] fix: quorum model ignored dispersion, priors and fixed
 entries when updating factors

---
 lom/_numba/matrix_updates_numba.py | 22 ++++++++++++++--------
 lom/matrix_update_wrappers.py      |  8 ++++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 8feb302..246566a 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -624,8 +624,9 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -634,15 +635,18 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            if Z_fixed[n, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
-                logit_score, Z[n, l])
+                logit_score + logit_prior, Z[n, l])
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -652,8 +656,10 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            if U_fixed[d, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
-                logit_score, U[d, l])
+                logit_score + logit_prior, U[d, l])
     return
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index cc56faa..d09f406 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -87,10 +87,12 @@ def get_sampling_fct(mat):
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return qL_sampler_Z
 
@@ -98,10 +100,12 @@ def get_sampling_fct(mat):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return qL_sampler_U
 
-- 
2.43.0


From db300863480361f26b0cafde7d89ab64ab951111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 31/46] fix: quorum values were sampled without regard to the
 data

---
 lom/_numba/matrix_updates_numba.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 246566a..663ad9b 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -546,13 +546,15 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
                 gamma - lgamma(q_new + 2)
 
             # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
-            logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
-                (N - true_predictions) * m_lbda
+            predictions = 2 * (np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1) - 1
+            true_predictions = np.sum(predictions == X[:, d])
+            false_predictions = np.sum(predictions == -X[:, d])
+            logconditional[q_new, d] = logconditional[q_new, d] - true_predictions * m_lbda -\
+                false_predictions * p_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-        log_p_max = np.max(logconditional)
+        log_p_max = np.max(logconditional[:, d])
         for q_new in prange(q_max - 1):
             logconditional[q_new, d] = np.exp(logconditional[q_new, d] - log_p_max)
 
-- 
2.43.0


From 3f14958f695f4698499cdf85415dd9a4e14229f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 32/46] fix: a draw close to one led to a quorum value outside
 of its range

---
 lom/_numba/matrix_updates_numba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 663ad9b..a6525e4 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -520,7 +520,8 @@ def random_choice(p):
         acc += p[i]
         if rand_float < acc:
             return np.int8(i + 1)
-    return len(p) + 1
+    # probabilities do not add up to one exactly
+    return np.int8(len(p))
 
 
 # @jit('int8(int8[:], int8[:,:], int8[:], float64, float64, float64, int8)',
-- 
2.43.0


From 3623ca7d658782c47dc6fceb0871fa7548ea2a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 33/46] fix: prior on the number of new dimensions in the IBP
 depended on the number of present ones

---
 lom/_numba/matrix_updates_numba.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index a6525e4..c07e866 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -450,9 +450,9 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
 
         lik_L_new = [TN * TN_factor[L_temp] + FN * FN_factor[L_temp]
                      for L_temp in range(L_new_max)]
-        # L_new or L+L_new ??!
-        prior_L_new = [(L_temp + L) * np.log(alpha / N) - (alpha / N) -
-                       gammaln(L + L_temp + 1)
+        # number of new dishes is Poisson(alpha / N)
+        prior_L_new = [L_temp * np.log(alpha / N) - (alpha / N) -
+                       gammaln(L_temp + 1)
                        for L_temp in range(L_new_max)]
         log_L_new = [loglik + logprior
                      for loglik, logprior in zip(lik_L_new, prior_L_new)]
-- 
2.43.0


From 2a016dc806e43e2707dba2ba34793ca80510a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 34/46] fix: non-flat priors of the second factor were misread
 when the IBP model creates dimensions

---
 lom/_numba/matrix_updates_numba.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index c07e866..ff420d7 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -384,7 +384,7 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
 def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     """
     IBP update procedure for 2D OrMachine, drawing U and Z where
-    U has flat prior and Z comes from IBP with concentration parameter alpha.
+    U has Bernoulli prior q and Z comes from IBP with concentration parameter alpha.
     Z[n,l], U[d,l], X[n,d], q: Bernoulli prior, alpha: IPB concentration parameter.
     """
 
@@ -402,9 +402,9 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     # data points for a range of L'
 
     # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    FN_factor = [np.log((expit(lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
                  for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    TN_factor = [np.log((expit(-lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
                  for L_temp in range(L_new_max)]
 
     for n in range(N):
@@ -475,7 +475,7 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
                 for d in range(D):
                     logit_score = lbda * posterior_score_fct(
                         U[d, :], Z, X[:, d], l)
-                    U[d, l] = flip_gibbs_numba(expit(logit_score))
+                    U[d, l] = flip_gibbs_numba(expit(logit_score + logit(q)))
 
         L += L_new
 
-- 
2.43.0


From 55f978155b142757de93910c6a25dc17e37fffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 35/46] fix: outputs of the quorum model were not mapped to
 probabilities

---
 lom/machine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 1cedbf5..21f9741 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -426,6 +426,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
@@ -461,10 +462,11 @@ class MachineLayer():
                 out /= len(samples)
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
-            # convert to probability of generating a 1
-            if noisy_emission is True:
-                out = out * aux.expit(self.lbda.mean()) +\
-                    (1 - out) * aux.expit(-self.lbda.mean())
+        # convert to probability of generating a 1
+        # (outputs of the MAX-AND model are emission probabilities already)
+        if noisy_emission is True and self.model != 'MAX-AND':
+            out = out * aux.expit(self.lbda.mean()) +\
+                (1 - out) * aux.expit(-self.lbda.mean())
 
         self.prediction = out
 
-- 
2.43.0


From 9757959b76cf5cb7c48744745dcfb2d513585f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 36/46] fix: layers of a given shape could not be created for
 models that invert the data

---
 lom/machine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 21f9741..1e4ebdd 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -517,10 +517,6 @@ class Machine():
         information about children's parents need to be assigned.
         """
 
-        # Convert model to canonical representation and invert data
-        # if necessary, return indicators to track inversion.
-        model, invert_data, invert_factors = aux.canonise_model(model, child)
-
         # determine size of all members
         if child is None and shape is not None:
             child = MachineMatrix(shape=shape)
@@ -529,6 +525,10 @@ class Machine():
         else:
             raise ValueError("Not enough shape information provided.")
 
+        # Convert model to canonical representation and invert data
+        # if necessary, return indicators to track inversion.
+        model, invert_data, invert_factors = aux.canonise_model(model, child)
+
         # initialise matrices/factors (use add_matrix)
         factors = [MachineMatrix(shape=(K, latent_size),
                                  child_axis=i)
-- 
2.43.0


From 9cb4428d64af2cc20b594d07931e01d7b65284a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 37/46] fix: lazy outputs were those of an earlier run

---
 lom/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 1e4ebdd..e979bbf 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -707,6 +707,9 @@ class Machine():
         # samples of previous runs are not valid anymore
         for member in self.members + self.lbdas:
             member.trace_index = 0
+        # nor are outputs computed from them
+        for layer in self.layers:
+            layer.prediction = None
 
         # create list of matrices to draw samples from
         mats = [mat for mat in self.members if not mat.fixed]
-- 
2.43.0


From 4c8ef5b3eab5e5f690dcd82f4dc719f7109e49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 38/46] fix: probabilities were treated as states when data of
 general models were generated

---
 lom/auxiliary_functions.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index e3aa402..4d7d8b7 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -763,7 +763,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
     if model not in implemented_loms():
         print('Requested model output is not explicitly implemented.\n' +
               'Falling back to slower general implementation.')
-        return lom_generate_data(factors, model)
+        return lom_generate_data_general(factors, model, fuzzy)
 
     if len(factors) == 2:
 
@@ -785,7 +785,20 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             return out3D(*[np.array(f, dtype=np.float64) for f in factors])
 
     else:
-        return lom_generate_data(factors, model)
+        return lom_generate_data_general(factors, model, fuzzy)
+
+
+def lom_generate_data_general(factors, model, fuzzy):
+    """
+    General implementation for lom_generate_data_fast.
+    Fuzzy factors and outputs are probabilities.
+    """
+
+    if fuzzy is True:
+        out = lom_generate_data_fuzzy([2 * f - 1 for f in factors], model)
+        return .5 * (1 + out)
+
+    return lom_generate_data(factors, model)
 
 
 def lom_generate_data(factors, model='OR-AND'):
-- 
2.43.0


From 256ac60c22a97b9fa1fd59a7fe7451ee6f2b73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 39/46] fix: a third parent layer was silently ignored

---
 lom/matrix_update_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index d09f406..4b31d21 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -262,14 +262,14 @@ def get_relatives_models(mat):
 
     parent1_model = None
     parent2_model = None
+    if len(mat.parents) > 2:
+        raise NotImplementedError("More than two parents are not supported.")
     if len(mat.parents) > 0:
         assert len(mat.parents[0].factors) == 2
         parent1_model = (mat.parents[0].model + '-2D').replace('-', '_')
     if len(mat.parents) > 1:
         assert len(mat.parents[1].factors) == 2
         parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
-        raise NotImplementedError("More than two parents are not supported.")
 
     return model, parent1_model, parent2_model
 
-- 
2.43.0


From 3b8c6bbfdf51b1dc43152846422077e2bb64a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 40/46] fix: parent layers of quorum and non-parametric factors
 were silently ignored

---
 lom/matrix_update_wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 4b31d21..edc58f7 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -68,6 +68,9 @@ def get_sampling_fct(mat):
 
     elif mod == 'qL_AND_2D':
 
+        if p1mod is not None:
+            raise NotImplementedError("Parent layers are not supported.")
+
         def q_sampler(q):
             numba_mu.sample_qL_q(
                 q.layer.factors[0](),
@@ -113,6 +116,9 @@ def get_sampling_fct(mat):
     # Here all updates happen in sampling for the first factor.
     elif mod == 'OR_AND_IBP_2D':
 
+        if p1mod is not None:
+            raise NotImplementedError("Parent layers are not supported.")
+
         if mat.layer.alpha is None:
             print('Setting IBP parameter alpha to 3.')
             mat.layer.alpha = 3
-- 
2.43.0


From 7d210cfeb58aa8b4d5f0a61bb8b401a6a90979ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 41/46] fix: layers that invert the data inverted them for all
 other layers of the same matrix

---
 lom/machine.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index e979bbf..a8c7608 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -527,8 +527,18 @@ class Machine():
 
         # Convert model to canonical representation and invert data
         # if necessary, return indicators to track inversion.
+        values = child()
         model, invert_data, invert_factors = aux.canonise_model(model, child)
 
+        # all layers of a child see the same values
+        if ((invert_data and child.layer is not None) or
+                any(p.invert_data != invert_data for p in child.parents)):
+            child.val = values
+            raise NotImplementedError(
+                "Data can not be inverted for some of their layers only.")
+        elif child.parents:
+            child.val = values  # inverted for the first layer
+
         # initialise matrices/factors (use add_matrix)
         factors = [MachineMatrix(shape=(K, latent_size),
                                  child_axis=i)
-- 
2.43.0


From eec085d3ba180a45211be9c670afa9b6c1f4f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 42/46] fix: clean-up left layers above with rows of dimensions
 that were removed

---
 lom/auxiliary_functions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 4d7d8b7..e8b7d4d 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -154,17 +154,23 @@ def clean_up_codes(layer, reset=True, clean=False):
 
 def remove_dimension(l_prime, layer):
 
-    # update for tensorm link does not support parents
-    # nor priors
+    # update for tensorm link does not support priors
     # layer.size -= 1
-    vals = [np.delete(f.val, l_prime, axis=1) for f in layer.factors]
-    fixed_entries = [np.delete(f.fixed_entries, l_prime, axis=1)
-                     for f in layer.factors]
+    reduced = [(f, np.delete(f.val, l_prime, axis=1),
+                np.delete(f.fixed_entries, l_prime, axis=1))
+               for f in layer.factors]
+    # a latent dimension is a row of factors in the layers above
+    upper = [p.factors[1] for f in layer.factors for p in f.parents]
+    while upper:
+        f = upper.pop()
+        reduced.append((f, np.delete(f.val, l_prime, axis=0),
+                        np.delete(f.fixed_entries, l_prime, axis=0)))
+        upper += [p.factors[0] for p in f.parents]
     lbda_val = layer.lbda.val
     if layer.model == 'MAX-AND':
         lbda_val = np.delete(lbda_val, l_prime)
 
-    for f, val, fixed in zip(layer.factors, vals, fixed_entries):
+    for f, val, fixed in reduced:
         f.val, f.fixed_entries = val, fixed
     layer.lbda.val = lbda_val
 
-- 
2.43.0


From 192ee5adec07e191c3262b8ec11673a463d68742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 43/46] fix: expected density of XOR-XOR was that of two
 factors for any number of factors

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index e8b7d4d..791c290 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1099,7 +1099,7 @@ def expected_density(model, L, K, f):
     elif model_group == 'XOR-XOR':
         d = Inv[0](L * (
             Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
+                   invert(K * f * invert(f)**(K - 1)) ** (L - 1))
         ))
 
     return d
-- 
2.43.0


From 88221004a444c7f059b9030188488af460d64bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 44/46] fix: non-parametric model failed for dispersions beyond
 36

---
 lom/_numba/matrix_updates_numba.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index ff420d7..7fd0ce9 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -402,9 +402,13 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     # data points for a range of L'
 
     # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
+    # (avoid infinities, dispersions can be arbitrarily large)
+    tiny = np.finfo(np.float64).tiny
+    FN_factor = [np.log(max(tiny, expit(lbda) * (1 - (1 - q)**L_temp) +
+                            expit(-lbda) * (1 - q)**L_temp))
                  for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
+    TN_factor = [np.log(max(tiny, expit(-lbda) * (1 - (1 - q)**L_temp) +
+                            expit(lbda) * (1 - q)**L_temp))
                  for L_temp in range(L_new_max)]
 
     for n in range(N):
-- 
2.43.0


From 087ffdd5ff2919e1b72f7cb1ed559ef7e616cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 45/46] fix: quorum values were not drawn from their
 conditional for dispersions beyond 709

---
 lom/_numba/matrix_updates_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 7fd0ce9..ad019e1 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -537,8 +537,8 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
     N, D = X.shape
     q_max = 6
-    p_lbda = np.log(1 + np.exp(lbda))
-    m_lbda = np.log(1 + np.exp(-lbda))
+    p_lbda = np.logaddexp(0., lbda)
+    m_lbda = np.logaddexp(0., -lbda)
 
     logconditional = np.zeros((q_max - 1, D), dtype=np.float64)
 
-- 
2.43.0


From 54b05fe0c5508d4e04e943ee15f27211d51275cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 46/46] fix: held-out ROC area could not be computed and
 counted missing values as negatives

---
 lom/auxiliary_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 791c290..215a5ce 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -301,8 +301,10 @@ def get_roc_auc(data, data_train, prediction):
     compute area under the roc curve
     """
 
-    zero_idx = np.where(data_train == 0)
-    zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
+    # hold-out data. Values that are missing anyway (data coded -1, 0, 1)
+    # can not be scored.
+    zero_idx = np.where((data_train == 0) & ((data != 0) | (-1 not in data)))
+    zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
     auc = sklearn.metrics.roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
 
-- 
2.43.0

