From 1c14e9a65345b1cfcb07f71c451543ee4a950682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:56 +0000
Subject: [PATCH 01/19] fix: VARLiNGAM.fit and bootstrap keep the constructor
 settings

fit() stored the estimated AR coefficients and the selected lags over the
constructor's ar_coefs and lags, so a second fit() on other data reused the
first data's coefficients, and bootstrap() left criterion=None behind when a
fit raised.
---
 lingam/var_lingam.py | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 6883b9b..7aefa18 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -78,6 +78,10 @@ class VARLiNGAM:
         self : object
             Returns the instance itself.
         """
+        return self._fit(X, self._criterion)
+
+    def _fit(self, X, criterion):
+        """Fit the model to X, selecting the lags by ``criterion``."""
         self._causal_order = None
         self._adjacency_matrices = None
 
@@ -92,7 +96,7 @@ class VARLiNGAM:
         M_taus = self._ar_coefs
 
         if M_taus is None:
-            M_taus, lags, residuals = self._estimate_var_coefs(X)
+            M_taus, lags, residuals = self._estimate_var_coefs(X, criterion)
         else:
             lags = M_taus.shape[0]
             residuals = self._calc_residuals(X, M_taus, lags)
@@ -105,8 +109,8 @@ class VARLiNGAM:
         if self._prune:
             B_taus = self._pruning(X, B_taus, model.causal_order_)
 
-        self._ar_coefs = M_taus
-        self._lags = lags
+        self._fitted_ar_coefs = M_taus
+        self._fitted_lags = lags
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -135,19 +139,15 @@ class VARLiNGAM:
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
         lags = self._lags
 
-        criterion = self._criterion
-        self._criterion = None
-
-        self.fit(X)
+        # the lags are not searched while bootstrapping
+        self._fit(X, None)
 
-        fitted_ar_coefs = self._ar_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
 
         total_effects = np.zeros(
-            [n_sampling, n_features, n_features * (1 + self._lags)]
+            [n_sampling, n_features, n_features * (1 + self._fitted_lags)]
         )
 
         adjacency_matrices = []
@@ -166,11 +166,7 @@ class VARLiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j]
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._lags = lags
-
-            self.fit(resampled_X)
+            self._fit(resampled_X, None)
             am = np.concatenate([*self._adjacency_matrices], axis=1)
             adjacency_matrices.append(am)
 
@@ -183,14 +179,12 @@ class VARLiNGAM:
                     )
 
                 # time t-tau
-                for lag in range(self._lags):
+                for lag in range(self._fitted_lags):
                     for from_ in range(n_features):
                         total_effects[
                             i, to, from_ + n_features * (lag + 1)
                         ] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
 
-        self._criterion = criterion
-
         return VARBootstrapResult(adjacency_matrices, total_effects)
 
     def estimate_total_effect(self, X, from_index, to_index, from_lag=0):
@@ -226,8 +220,8 @@ class VARLiNGAM:
                 )
 
         # X + lagged X
-        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._lags + from_lag)))
-        for p in range(1 + self._lags + from_lag):
+        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._fitted_lags + from_lag)))
+        for p in range(1 + self._fitted_lags + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
@@ -310,10 +304,10 @@ class VARLiNGAM:
 
         return p_values
 
-    def _estimate_var_coefs(self, X):
+    def _estimate_var_coefs(self, X, criterion):
         """Estimate coefficients of VAR"""
         # XXX: VAR.fit() is not searching lags correctly
-        if self._criterion not in ["aic", "fpe", "hqic", "bic"]:
+        if criterion not in ["aic", "fpe", "hqic", "bic"]:
             var = VAR(X)
             result = var.fit(maxlags=self._lags, trend="n")
         else:
@@ -324,7 +318,7 @@ class VARLiNGAM:
                 var = VAR(X)
                 fitted = var.fit(maxlags=lag, ic=None, trend="n")
 
-                value = getattr(fitted, self._criterion)
+                value = getattr(fitted, criterion)
                 if value < min_value:
                     min_value = value
                     result = fitted
-- 
2.43.0


From ff8cd1feec85d5959656da9b9d9b2dddd5fefdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:16 +0000
Subject: [PATCH 02/19] fix: VARMALiNGAM.fit and bootstrap keep the constructor
 settings

fit() stored the estimated coefficients and the selected order over the
constructor's ar_coefs, ma_coefs and order, so a second fit() on other data
reused the first data's coefficients, and bootstrap() left criterion=None
behind when a fit raised.
---
 lingam/varma_lingam.py | 54 +++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..7597766 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -90,6 +90,10 @@ class VARMALiNGAM:
         self : object
             Returns the instance itself.
         """
+        return self._fit(X, self._criterion)
+
+    def _fit(self, X, criterion):
+        """Fit the model to X, selecting the order by ``criterion``."""
         self._causal_order = None
         self._adjacency_matrices = None
 
@@ -106,7 +110,9 @@ class VARMALiNGAM:
         order = self._order
 
         if phis is None or thetas is None:
-            phis, thetas, order, residuals = self._estimate_varma_coefs(X)
+            phis, thetas, order, residuals = self._estimate_varma_coefs(
+                X, criterion
+            )
         else:
             p = phis.shape[0]
             q = thetas.shape[0]
@@ -126,9 +132,9 @@ class VARMALiNGAM:
             ).T
             psis, omegas = self._pruning(X, ee, order, model.causal_order_)
 
-        self._ar_coefs = phis
-        self._ma_coefs = thetas
-        self._order = order
+        self._fitted_ar_coefs = phis
+        self._fitted_ma_coefs = thetas
+        self._fitted_order = order
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -158,17 +164,11 @@ class VARMALiNGAM:
         n_features = X.shape[1]
         (p, q) = self._order
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
-
-        criterion = self._criterion
-        self._criterion = None
-
-        self.fit(X)
+        # the order is not searched while bootstrapping
+        self._fit(X, None)
 
-        fitted_ar_coefs = self._ar_coefs
-        fitted_ma_coefs = self._ma_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_ma_coefs = self._fitted_ma_coefs
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
@@ -192,11 +192,7 @@ class VARMALiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._ma_coefs = ma_coefs
-
-            self.fit(resampled_X)
+            self._fit(resampled_X, None)
 
             psi = self._adjacency_matrices[0]
             omega = self._adjacency_matrices[1]
@@ -218,9 +214,9 @@ class VARMALiNGAM:
                             self.estimate_total_effect2(n_features, from_, to, lag + 1)
                         )
 
-        self._criterion = criterion
-
-        return VARMABootstrapResult(adjacency_matrices, total_effects, self._order)
+        return VARMABootstrapResult(
+            adjacency_matrices, total_effects, self._fitted_order
+        )
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
         """Estimate total effect using causal model.
@@ -259,15 +255,15 @@ class VARMALiNGAM:
 
         # X + lagged X
         X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
+            (X.shape[0], X.shape[1] * (1 + from_lag + self._fitted_order[0] + self._fitted_order[1]))
         )
 
-        for p in range(1 + self._order[0]):
+        for p in range(1 + self._fitted_order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+        for q in range(self._fitted_order[1]):
+            pos = n_features * (1 + self._fitted_order[0]) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
@@ -355,8 +351,8 @@ class VARMALiNGAM:
 
         return p_values
 
-    def _estimate_varma_coefs(self, X):
-        if self._criterion not in ["aic", "bic", "hqic"]:
+    def _estimate_varma_coefs(self, X, criterion):
+        if criterion not in ["aic", "bic", "hqic"]:
             result = VARMAX(X, order=self._order, trend="c").fit(maxiter=self._max_iter)
         else:
             min_value = float("Inf")
@@ -372,7 +368,7 @@ class VARMALiNGAM:
             for order in orders:
                 fitted = VARMAX(X, order=order, trend="c").fit(maxiter=self._max_iter)
 
-                value = getattr(fitted, self._criterion)
+                value = getattr(fitted, criterion)
                 if value < min_value:
                     min_value = value
                     result = fitted
-- 
2.43.0


From 176f3ac04f839e37d5c9357485abfa3d77c8881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:16 +0000
Subject: [PATCH 03/19] fix: VARMALiNGAM total effects from lags greater than
 one

The source variable and its parents were always taken at lag 1 whatever
from_lag was, and the error blocks were not shifted with them.
---
 lingam/varma_lingam.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 7597766..3341118 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -258,14 +258,14 @@ class VARMALiNGAM:
             (X.shape[0], X.shape[1] * (1 + from_lag + self._fitted_order[0] + self._fitted_order[1]))
         )
 
-        for p in range(1 + self._fitted_order[0]):
+        for p in range(1 + self._fitted_order[0] + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
         for q in range(self._fitted_order[1]):
-            pos = n_features * (1 + self._fitted_order[0]) + n_features * q
+            pos = n_features * (1 + self._fitted_order[0] + from_lag) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
-                E[:, 0:n_features], q + 1, axis=0
+                E[:, 0:n_features], q + 1 + from_lag, axis=0
             )
 
         # concat psi and omega
@@ -275,8 +275,10 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
+        from_index = (
+            from_index if from_lag == 0 else from_index + (n_features * from_lag)
+        )
+        parents = parents if from_lag == 0 else parents + (n_features * from_lag)
         predictors = [from_index]
         predictors.extend(parents)
 
@@ -320,7 +322,9 @@ class VARMALiNGAM:
         am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
 
         # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        from_index = (
+            from_index if from_lag == 0 else from_index + (n_features * from_lag)
+        )
 
         # Estimate total effect
         effect = calculate_total_effect(am, from_index, to_index)
-- 
2.43.0


From 4afda75cc4d129db1edfc6ab2e0a6ee140c37283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:32 +0000
Subject: [PATCH 04/19] fix: VARMALiNGAM omega misses the inverse factor

np.dot() takes the third argument as its output buffer, so omega was
(I - psi0) theta instead of (I - psi0) theta (I - psi0)^-1.
---
 lingam/varma_lingam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 3341118..ab94b2e 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -420,8 +420,7 @@ class VARMALiNGAM:
         omegas = []
         for j in range(order[1]):
             omega = np.dot(
-                np.eye(psi0.shape[0]) - psi0,
-                thetas[j],
+                np.dot(np.eye(psi0.shape[0]) - psi0, thetas[j]),
                 np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
             )
             omegas.append(omega)
-- 
2.43.0


From b46db7c6a06a1fcf2fb383bfd2edafb489382f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:32 +0000
Subject: [PATCH 05/19] fix: time series bootstraps resample the residuals of
 the given data

The residuals were read from the model inside the loop, so every sample after
the first was drawn from the residuals of the previous resampled fit instead
of those of the data passed to bootstrap().
---
 lingam/var_lingam.py   | 3 ++-
 lingam/varma_lingam.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 7aefa18..978f067 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -145,6 +145,7 @@ class VARLiNGAM:
         self._fit(X, None)
 
         fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros(
             [n_sampling, n_features, n_features * (1 + self._fitted_lags)]
@@ -152,7 +153,7 @@ class VARLiNGAM:
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index ab94b2e..befef30 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -169,12 +169,13 @@ class VARMALiNGAM:
 
         fitted_ar_coefs = self._fitted_ar_coefs
         fitted_ma_coefs = self._fitted_ma_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
-- 
2.43.0


From 08fe5d21a63f09335e889db51ac35da796265f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:44 +0000
Subject: [PATCH 06/19] fix: LiM.fit keeps the loss_type setting

The local search phase overwrote the constructor's loss_type with 'mixed_dag',
so a second fit() of the same instance ran its global phase with another loss.
---
 lingam/lim.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e25e9db..48631e5 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -93,24 +93,26 @@ class LiM:
     def _estimate_LiM(self, X, dis_con, only_global, is_poisson):
         """Estimate the adjacency matrix btw. mixed variables"""
 
+        loss_type = self._loss_type
+
         def _loss(W):
             """Evaluate value and gradient of loss."""
             M = X @ W
-            if self._loss_type == "logistic":
+            if loss_type == "logistic":
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
-            elif self._loss_type == "poisson":
+            elif loss_type == "poisson":
                 loss = -np.sum(X.T @ M) + np.exp(M).sum()
                 for j in range(X.shape[0]):
                     for k in range(X.shape[1]):
                         loss += np.log(_factorial(X[j][k]))
                 loss = 1.0 / X.shape[0] * loss
                 G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
-            elif self._loss_type == "laplace":
+            elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
                 G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
-            elif self._loss_type == "mixed":
+            elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
                 loss_dis = (
@@ -129,7 +131,7 @@ class LiM:
                 G_dis = X.T @ (sigmoid(M) - X) * W_dis
                 G_con = -X.T @ np.tanh(R) * W_con
                 G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
-            elif self._loss_type == "mixed_dag":
+            elif loss_type == "mixed_dag":
                 dag = nx.DiGraph(W)
                 lingam_data = np.transpose(X)
                 df = pd.DataFrame(X)
@@ -322,7 +324,7 @@ class LiM:
         print("W_est (without the 2nd phase) is: \n", W_est)
 
         if not only_global:
-            self._loss_type = "mixed_dag"
+            loss_type = "mixed_dag"
             aa, aaa = _loss(W_est)  # loss
             I = np.where(W_est != 0)
             # check directions
-- 
2.43.0


From 35fceb07de7b2f28c6ddad25b24cb5997943410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:04 +0000
Subject: [PATCH 07/19] fix: MultiGroupRCD tests the F-correlation of every
 dataset

The independence decision compared the last dataset's F-correlation with
ind_corr instead of the largest one.
---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..5662f1b 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -411,7 +411,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From a39e405809ff9c0801b53346644f3ec04419a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:04 +0000
Subject: [PATCH 08/19] fix: MultiGroupRCD returns a total effect for every
 dataset

A source variable affected by confounders in one dataset cut the returned
list short; the entry is now nan, as in RCD, and the other datasets follow.
---
 lingam/multi_group_rcd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 5662f1b..b945b3f 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -166,7 +166,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             # from_index + parents indices
             parents = np.where(np.abs(am[from_index]) > 0)[0]
@@ -212,7 +213,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             effect = calculate_total_effect(am, from_index, to_index)
             effects.append(effect)
-- 
2.43.0


From b4453a83018ac46d41f571bb545f69c7ce64a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:14 +0000
Subject: [PATCH 09/19] fix: root variables are those without incoming edges

calculate_distance_from_root_nodes() and estimate_optimal_intervention() summed
the signed coefficients, so a variable whose incoming effects cancel out was
taken for a root.
---
 lingam/causal_effect.py  | 2 +-
 lingam/utils/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..0c9c710 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6be6c0c..8ddadf0 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1047,7 +1047,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
 
     # find root nodes
     root_indices = np.argwhere(
-        np.isclose(np.sum(adjacency_matrix, axis=1), 0) == True
+        np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True
     ).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
-- 
2.43.0


From bea565458bd9c26c2a496db1df52c48626435ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:23 +0000
Subject: [PATCH 10/19] fix: CausalBasedSimulator.run before train raises the
 intended RuntimeError

The trained state was never initialised, so run() failed with an
AttributeError before reaching its check.
---
 lingam/causal_based_simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..2ae6db3 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -26,6 +26,11 @@ class CausalBasedSimulator:
         Information about trained models.
     """
 
+    def __init__(self):
+        """Construct a CausalBasedSimulator."""
+        self._impl = None
+        self._train_result = None
+
     def train(self, X, causal_graph, cd_algo_name=None, models=None, is_discrete=None):
         """
         Estimate functional relations between variables and variable
-- 
2.43.0


From dd7d1ea1215c35fddf4e2081233fed533fd4accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:33 +0000
Subject: [PATCH 11/19] fix: CausalDataGenerator.generate works without
 adjustments

fit() sets no cause model when there are no adjustment variables, but
generate() called predict() on it.
---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index db4efbe..627ed17 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -213,7 +213,7 @@ class CausalDataGenerator:
                 generated[self._cause] = predicted
                 if self._X[self._cause].dtype == "category":
                     generated[self._cause] = pd.Categorical(generated[self._cause])
-            else:
+            elif self.model_cause_ is not None:
                 if self._X[self._cause].dtype != "category":
                     predicted = self.model_cause_.predict(generated[self._adjustments])
                     generated[self._cause] += np.array(predicted)
-- 
2.43.0


From 26fed925236809acdc483cf3b501cbf7b8bb035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:40 +0000
Subject: [PATCH 12/19] fix: OutOfSampleCausalTuning rejects a configuration
 without a model

The defaults always contain the key 'model', so the check never fired and the
missing model was called as None.
---
 lingam/experimental/oct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/oct.py b/lingam/experimental/oct.py
index c26621e..b61ac0d 100644
--- a/lingam/experimental/oct.py
+++ b/lingam/experimental/oct.py
@@ -208,7 +208,7 @@ class OutOfSampleCausalTuning():
                 config_[key] = value
 
             # check
-            if config_["all_others"] is False and "model" not in config_.keys():
+            if config_["all_others"] is False and config_["model"] is None:
                 raise ValueError(f"model is not specified (config[{config_idx}])")
             elif config_["all_others"] is True:
                 config_["model"] = None
-- 
2.43.0


From a94d41524cec00da99701b3b8e657621b832ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:20 +0000
Subject: [PATCH 13/19] fix: LongitudinalLiNGAM orders the lags as documented
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With n_lags >= 2, adjacency_matrices_[t] held B(t,t-τ), ..., B(t,t-1) after
B(t,t), while the documentation and the total effects read B(t,t-1) first.
---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..a367d6c 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -168,7 +168,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -410,7 +409,8 @@ class LongitudinalLiNGAM:
         X_t = np.array(X_t)
 
         for t in range(self._n_lags, self._T):
-            X = np.vstack(X_t[t - self._n_lags:t])
+            # X(t-1), X(t-2), ..., X(t-τ)
+            X = np.vstack(X_t[t - self._n_lags:t][::-1])
             y = X_t[t]
 
             reg = LinearRegression()
-- 
2.43.0


From 879275003a764e3476883c05e23e5f59e285b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:20 +0000
Subject: [PATCH 14/19] fix: LongitudinalLiNGAM sets the residuals with prior
 knowledge too

residuals_ and get_error_independence_p_values() raised an AttributeError, or
used the residuals of an earlier fit, when prior_knowledge was given.
---
 lingam/longitudinal_lingam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index a367d6c..be22c69 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -91,8 +91,9 @@ class LongitudinalLiNGAM:
 
         n_taus = self._n_lags + 1
 
+        M_tau, N_t = self._compute_residuals(X_t)
+
         if self._Aknw is None:
-            M_tau, N_t = self._compute_residuals(X_t)
             B_t, causal_orders = self._estimate_instantaneous_effects(N_t)
             B_tau = self._estimate_lagged_effects(B_t, M_tau)
 
@@ -107,9 +108,6 @@ class LongitudinalLiNGAM:
                     if t - l != 0:
                         self._adjacency_matrices[t, l + 1] = B_tau[t, l]
 
-            self._residuals = np.zeros((self._T, self._n, self._p))
-            for t in range(self._T):
-                self._residuals[t] = N_t[t].T
             self._causal_orders = causal_orders
         else:
             if (self._T, n_taus, self._p, self._p) != self._Aknw.shape:
@@ -188,6 +186,10 @@ class LongitudinalLiNGAM:
             self._adjacency_matrices = adjs
             self._causal_orders = causal_orders
 
+        self._residuals = np.zeros((self._T, self._n, self._p))
+        for t in range(self._T):
+            self._residuals[t] = N_t[t].T
+
         return self
 
     def bootstrap(self, X_list, n_sampling, start_from_t=1):
-- 
2.43.0


From 3f7324f6122cd5aa6b254738fda9ed2cb542c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:20 +0000
Subject: [PATCH 15/19] fix: LongitudinalLiNGAM skips the timepoints before
 n_lags

bootstrap() and get_error_independence_p_values() started at t=1, where a
model with n_lags >= 2 has no causal order and no residuals.
---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index be22c69..91ce4d7 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -241,7 +241,7 @@ class LongitudinalLiNGAM:
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            for from_t in range(max(start_from_t, self._n_lags), self._T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
@@ -388,7 +388,7 @@ class LongitudinalLiNGAM:
 
         p_values_list = np.zeros([self._T, self._p, self._p])
         p_values_list[:, :, :] = np.nan
-        for t in range(1, self._T):
+        for t in range(self._n_lags, self._T):
             p_values = np.zeros([self._p, self._p])
             for i, j in itertools.combinations(range(self._p), 2):
                 _, p_value = hsic_test_gamma(
-- 
2.43.0


From 705ea646277f82a0a2b6aede57ee4307abf7ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:32 +0000
Subject: [PATCH 16/19] fix: time series and longitudinal bootstraps validate
 n_sampling

As the other bootstrap methods do: a value that is not a positive integer
raises ValueError instead of failing inside NumPy or returning no samples.
---
 lingam/longitudinal_lingam.py | 6 ++++++
 lingam/var_lingam.py          | 7 +++++++
 lingam/varma_lingam.py        | 7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 91ce4d7..f33bee1 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -226,6 +226,12 @@ class LongitudinalLiNGAM:
                 raise ValueError("X_list must be a list with the same shape")
             X_t.append(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         # Bootstrapping
         adjacency_matrices = np.zeros(
             (n_sampling, self._T, 1 + self._n_lags, self._p, self._p)
diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 978f067..b10adf7 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -3,6 +3,7 @@ Python implementation of the LiNGAM algorithms.
 The LiNGAM Project: https://sites.google.com/view/sshimizu06/lingam
 """
 import itertools
+import numbers
 import warnings
 
 import numpy as np
@@ -136,6 +137,12 @@ class VARLiNGAM:
         """
         X = check_array(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index befef30..b2d4863 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -4,6 +4,7 @@ The LiNGAM Project: https://sites.google.com/view/sshimizu06/lingam
 """
 
 import itertools
+import numbers
 import warnings
 
 import numpy as np
@@ -160,6 +161,12 @@ class VARMALiNGAM:
         """
         X = check_array(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         n_samples = X.shape[0]
         n_features = X.shape[1]
         (p, q) = self._order
-- 
2.43.0


From 6364478ddec2474a771bf409e001d4a21f863fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:51 +0000
Subject: [PATCH 17/19] fix: VARMALiNGAM.fit draws from its random_state

---
 lingam/varma_lingam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index b2d4863..0b1215c 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -9,7 +9,7 @@ import warnings
 
 import numpy as np
 from sklearn.linear_model import LinearRegression
-from sklearn.utils import check_array, resample
+from sklearn.utils import check_array, check_random_state, resample
 from statsmodels.tsa.statespace.varmax import VARMAX
 
 from .base import _BaseLiNGAM
@@ -399,10 +399,12 @@ class VARMALiNGAM:
 
         start_index = max(p, q)
 
+        rng = check_random_state(self._random_state)
+
         epsilon = np.zeros([n_features, n_samples])
         for t in range(n_samples):
             if t < start_index:
-                epsilon[:, t] = np.random.normal(size=(n_features))
+                epsilon[:, t] = rng.normal(size=(n_features))
                 continue
 
             ar = np.zeros([n_features, 1])
-- 
2.43.0


From acce666a2712bbe5c16d6f5295b365bbe6f5c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:12 +0000
Subject: [PATCH 18/19] fix: visualize_nonlinear_causal_effect adjusts for
 every parent of the cause, not only unit coefficients

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 3fb1266..402ffd5 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -201,7 +201,7 @@ def _calculate(
 
     for m, sub_index in zip(adj_matrices, index_list):
         # parents of cause except effect
-        covariate = np.where(m[cause_index, :] == 1)[0].tolist()
+        covariate = np.where(np.abs(m[cause_index, :]) > 0)[0].tolist()
         covariate = np.delete(covariate, np.argwhere(covariate == effect_index))
 
         # train
-- 
2.43.0


From 78b085134fd28580f5f7ae28b769c19573a1e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:12 +0000
Subject: [PATCH 19/19] fix: visualize_nonlinear_causal_effect works with any
 index and uses every bootstrap graph

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 402ffd5..71dd64f 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -117,11 +117,11 @@ def visualize_nonlinear_causal_effect(
         adj_matrices = cd_result.adjacency_matrices_
         index_list = cd_result.resampled_indices_
         if index_list is None:
-            index_list = [X.index]
+            index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
         adj_matrices = [cd_result]
-        index_list = [X.index]
+        index_list = [np.arange(len(X))]
         disable_percentile = True
 
     effect_info = _calculate(
-- 
2.43.0

