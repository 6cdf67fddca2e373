From 0b1e1ae6de465c18df5c43f32a97319cecef5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 01/30] fix: solve no longer drops solvable requested times
 when the request starts early

A request starting before the first full window gave a negative slice start,
so the leading rows needed to fill the window were not prepended.
---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 783aed6..23329c4 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -234,7 +234,7 @@ class _CovarianceCombination:
             "times must be consecutive"
 
             # add window - 1 previous time steps to times
-            times = list(all_available_times[zero_index - window + 1 : zero_index]) + times
+            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times
 
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
-- 
2.43.0


From dcea5c4554eb8100b0764d64306ad4decf84a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/30] fix: combine experts that are available at different
 times

Experts with different times crashed the construction (NaN has no .T).
Use the times common to all experts.
---
 cvx/covariance/combination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 23329c4..f95cd0b 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -169,7 +169,8 @@ class _CovarianceCombination:
         self.__returns = returns
 
         # all those quantities don't depend on the window size
-        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()})
+        # only times at which all experts have a prediction can be used
+        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()}).dropna()
         self.__Ls_shifted = self.__Ls.shift(1).dropna()
         self.__nus = pd.DataFrame({key: _nu(Ls, self.means[key]) for key, Ls in self.__Ls.items()})
         self.__nus_shifted = self.__nus.shift(1).dropna()
-- 
2.43.0


From 3ba25ba7b09ad1341f26c34e314f3538413ec968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 03/30] fix: solve windows whose quadratic term is singular

Identical experts, windows with fewer scored returns than experts and
all-zero windows raised LinAlgError although the problem is well posed.
---
 cvx/covariance/combination.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index f95cd0b..c2ea877 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -46,6 +46,18 @@ def _diag_part(cholesky):
     return {key: np.diag(L) for key, L in cholesky.items()}
 
 
+def _psd_factor(matrix):
+    """
+    Computes a factor F of a positive semidefinite matrix, i.e., F @ F.T = matrix
+    """
+    try:
+        return np.linalg.cholesky(matrix)
+    except np.linalg.LinAlgError:
+        # matrix is singular, e.g., due to identical experts or a short window
+        lamda, Q = np.linalg.eigh(matrix)
+        return Q * np.sqrt(np.maximum(lamda, 0))
+
+
 def _A(diags_interval, K):
     """
     param diags_interval: NxK pandas DataFrame where each entry is diagonal
@@ -242,7 +254,7 @@ class _CovarianceCombination:
         # times = prod_Bs.index
         P = {times[i]: sum(prod_Bs.loc[times[i - window + 1] : times[i]]) for i in range(window - 1, len(times))}
 
-        P_chol = {time: np.linalg.cholesky(matrix) for time, matrix in P.items()}
+        P_chol = {time: _psd_factor(matrix) for time, matrix in P.items()}
 
         # Compute A matrix
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
-- 
2.43.0


From 5665c4f6ea71184049cfaaefeab101c1e68bd259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/30] fix: solve reports nothing when experts share fewer
 than two times

It raised an IndexError.
---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index c2ea877..7b6c4cd 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -249,6 +249,10 @@ class _CovarianceCombination:
             # add window - 1 previous time steps to times
             times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times
 
+        # no return has been scored, there is nothing to report
+        if window == 0:
+            return
+
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
         # times = prod_Bs.index
-- 
2.43.0


From e6d46059d1bc50c08c6d3d359c365e19d771629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 05/30] fix: do not report weights of a solve that did not
 reach an optimum

Solver statuses such as user_limit yielded weights that are not a solution
(not even summing to one), infeasible statuses crashed the iteration.
---
 cvx/covariance/combination.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 7b6c4cd..d880226 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -288,6 +288,9 @@ class _CovarianceCombination:
         """
         problem.solve(**kwargs)
 
+        if problem.status not in (cvx.OPTIMAL, cvx.OPTIMAL_INACCURATE):
+            raise cvx.SolverError(f"Solver stopped with status {problem.status}")
+
         weights = problem.weights
 
         # Get non-shifted L
-- 
2.43.0


From 524eaec70e19ca48824aadcae8d1ee840ff5d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 06/30] fix: from_ewmas handles missing returns

The experts treat missing returns as zero, but the combination scored
them as NaN, which made every solve fail.
---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index d880226..9ce4ff0 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -127,6 +127,10 @@ def from_ewmas(returns, pairs, min_periods_vola=20, min_periods_cov=20, clip_at=
 
     return: Yields tuples with time, mean, covariance matrix, weights
     """
+    # missing returns count as zero returns (as in iterated_ewma)
+    if returns.isna().any().any():
+        returns = returns.fillna(0.0)
+
     # compute the covariance matrices, one time series for each pair
     results = {
         f"{pair[0]}-{pair[1]}": {
-- 
2.43.0


From ba106209a5b006865758e0418bb867e537617dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 07/30] fix: EWMA of an empty history reports nothing

Histories shorter than the warm-up (or without any nonzero return) raised
an IndexError in iterated_ewma.
---
 cvx/covariance/ewma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a61a7c9..a6af3f4 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -244,6 +244,10 @@ def _general(
 
     beta = 1 - alpha
 
+    # nothing to report without data
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     _ewma = fct(y[0])
     yield f(k=0)
-- 
2.43.0


From 9610010e04bb4029a4d8d6902b31304282311d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 08/30] fix: rolling_window averages the last rows with equal
 weights

The step sizes were off by one: the first row was counted twice and kept
influencing every later estimate after leaving the window.
---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 30c0af7..ad79da9 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -256,8 +256,8 @@ def rolling_window(returns, memory, min_periods=20):
     Sigmas[0] = np.outer(returns[0], returns[0])
 
     for t in range(1, returns.shape[0]):
-        alpha_old = 1 / min(t + 1, memory)
-        alpha_new = 1 / min(t + 2, memory)
+        alpha_old = 1 / min(t, memory)
+        alpha_new = 1 / min(t + 1, memory)
 
         if t >= memory:
             Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
-- 
2.43.0


From 4c5c8eb61ad2cecc0ec865ace64ee7fd47c45122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 09/30] fix: log_likelihood_sequential returns the
 log-likelihoods

It returned None.
---
 experiments/utils/experiment_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index ad79da9..b1fd424 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -241,7 +241,9 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
             -n / 2 * np.log(2 * np.pi)
             - 1 / 2 * np.log(det)
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
-        )
+        ).item()
+
+    return ll
 
 
 def rolling_window(returns, memory, min_periods=20):
-- 
2.43.0


From 162ab596711aa7b53c45ee7f4b1a81a35cf6a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 10/30] fix: vectorised iterated_ewma runs on arrays again

ewma had been turned into a generator over a dictionary, but iterated_ewma
still called it with arrays and indexed its result.
---
 experiments/utils/iterated_ewma_vec.py | 46 ++++++++++----------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 95f9da3..2221683 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -35,32 +35,20 @@ def get_next_ewma(EWMA, y_last, t, beta, clip_at=None, min_periods=None):
     return old_weight * EWMA + new_weight * y_last
 
 
-# def ewma(y, halflife, clip_at=None, min_periods=None):
-#     """
-#     param y: array with measurements for times t=1,2,...,T=len(y)
-#     halflife: EWMA half life
-#     param clip_at: clip y_last at  +- clip_at*EWMA (optional)
-
-#     returns: list of EWMAs for times t=2,3,...,T+1 = len(y)
-
-
-#     Note: We define EWMA_t as a function of the
-#     observations up to time t-1. This means that
-#     y = [y_1,y_2,...,y_T] (for some T), while
-#     EWMA = [EWMA_2, EWMA_3, ..., EWMA_{T+1}]
-#     This way we don't get a "look-ahead bias" in the EWMA
-#     """
-
-#     beta = np.exp(-np.log(2) / halflife)
-#     EWMAs = np.zeros_like(y)
-#     EWMAs[0] = y[0]
-#     for t in range(1, y.shape[0]):  # First EWMA is for t=2
-#         # y_last = y[t-1] # Note zero-indexing
-#         # EWMA_t = get_next_ewma(EWMA_t, y_last, t, beta, clip_at, min_periods)
-#         EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
+def _ewma_array(y, halflife, clip_at=None, min_periods=None):
+    """
+    param y: array with measurements for times t=1,2,...,T=len(y)
+    halflife: EWMA half life
+    param clip_at: clip y_last at  +- clip_at*EWMA (optional)
 
-#         # EWMAs.append(EWMA_t)
-#     return np.array(EWMAs)
+    returns: array of EWMAs for times t=2,3,...,T+1 = len(y)
+    """
+    beta = np.exp(-np.log(2) / halflife)
+    EWMAs = np.zeros(y.shape)
+    EWMAs[:1] = y[:1]
+    for t in range(1, y.shape[0]):  # First EWMA is for t=2
+        EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
+    return EWMAs
 
 
 def ewma(y, halflife, clip_at=None, min_periods=None):
@@ -218,7 +206,7 @@ def iterated_ewma(
     if mean:  # Need to remove one entry for each estimate
         min_periods_vola = max(min_periods_vola, 2)
         min_periods_cov = max(min_periods_cov, 2)
-        returns_mean = ewma(returns.values, halflife=vola_halflife)
+        returns_mean = _ewma_array(returns.values, halflife=vola_halflife)
     else:
         returns_mean = np.zeros_like(returns)
 
@@ -229,7 +217,7 @@ def iterated_ewma(
         clip_at_var = None
     realized_vars = _get_realized_vars(returns.values - returns_mean)
     D = np.sqrt(
-        ewma(
+        _ewma_array(
             realized_vars,
             halflife=vola_halflife,
             clip_at=clip_at_var,
@@ -257,13 +245,13 @@ def iterated_ewma(
 
     ### Correlation estimation
     if mean:
-        returns_adj_mean = ewma(returns_adj, halflife=cov_halflife)
+        returns_adj_mean = _ewma_array(returns_adj, halflife=cov_halflife)
     else:
         returns_adj_mean = np.zeros_like(returns_adj)
     realized_covs = _get_realized_covs(returns_adj - returns_adj_mean)
 
     # Create correlation matrix
-    R_tilde = ewma(realized_covs, halflife=cov_halflife)
+    R_tilde = _ewma_array(realized_covs, halflife=cov_halflife)
 
     # Apply min_periods_cov
     R_tilde = R_tilde[min_periods_cov - 1 :]
-- 
2.43.0


From 941f20b80ddba15f8a3716965b5e7d09dd0b9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 11/30] fix: Trader.backtest does not leak constraints into
 later backtests

It extended the mutable default (or the caller's) constraint list in place.
---
 experiments/utils/trading_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9267bbf..5199df5 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -260,6 +260,8 @@ class Trader:
         param rhos: pandas DataFrame of uncertainty in expected returns
             if None, then uncertainty is set to zero. Causal estimates
         """
+        cons = list(cons)  # do not modify the caller's list (or the default)
+
         self.portfolio_type = portfolio_type
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
-- 
2.43.0


From 6627536c9df98f1f57b30bf513c3658c498572ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 12/30] fix: dilution with cash follows the current weights and
 target

Metrics after a second backtest, or for another target volatility, silently
used the diluted weights computed earlier.
---
 experiments/utils/trading_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 5199df5..468000a 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -42,6 +42,8 @@ class Trader:
         self.Sigma_hats = Sigma_hats
         self.r_hats = r_hats
         self.diluted = False
+        self.sigma_diluted = None
+        self.ws_diluted = None
 
         assert list(self.returns.index) == list(self.Sigma_hats.keys())
         sigma_hats = []
@@ -209,7 +211,7 @@ class Trader:
         """
         Dilutes the portfolio with cash to achieve a desired volatility.
         """
-        if self.diluted:
+        if self.diluted and self.sigma_diluted in (None, sigma_des):
             print("Already trades cash...")
             return None
         ws_new = []
@@ -224,6 +226,7 @@ class Trader:
 
         self.ws_diluted = np.array(ws_new)
         self.diluted = True
+        self.sigma_diluted = sigma_des
 
     def get_risk_adj_returns(self, sigma_des=0.1):
         """
@@ -262,6 +265,11 @@ class Trader:
         """
         cons = list(cons)  # do not modify the caller's list (or the default)
 
+        # any dilution belongs to the previous weights
+        self.diluted = False
+        self.sigma_diluted = None
+        self.ws_diluted = None
+
         self.portfolio_type = portfolio_type
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
@@ -588,7 +596,7 @@ class Trader:
                 or diluted_with_cash
             ):
                 if diluted_with_cash:
-                    if not self.diluted == True:
+                    if not self.diluted == True or self.sigma_diluted != sigma_des:
                         assert sigma_des is not None
                         self.dilute_with_cash(sigma_des)
                     w_t = self.ws_diluted[t]
-- 
2.43.0


From 192e1688960cd6fdffae9d092bd96cb621d11c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 13/30] fix: robust_min_risk uses the volatilities of each date

A misplaced bracket kept the volatilities of the first date for all dates.
---
 experiments/utils/trading_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 468000a..137a618 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -374,7 +374,9 @@ class Trader:
                     all_prob,
                     all_w,
                     all_L_inv_param,
-                    [*self.L_inv_hats.values(), all_sigma_hat_param, all_sigma_hats],
+                    [*self.L_inv_hats.values()],
+                    all_sigma_hat_param,
+                    all_sigma_hats,
                 ),
             )
             pool.close()
-- 
2.43.0


From d013e8e1c60bbe360b07ff19dc2e39109ede803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 14/30] fix: max_sharpe uses the existing whiteners

Lt_inv_hats no longer exists.
---
 experiments/utils/trading_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 137a618..f918268 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -195,7 +195,7 @@ class Trader:
         param r_hat: return
 
         """
-        L_inv_param.value = L_inv.T
+        L_inv_param.value = L_inv
         r_hat_param.value = r_hat
         prob.solve(solver="ECOS")
 
@@ -553,7 +553,7 @@ class Trader:
             prob = cp.Problem(cp.Minimize(obj), cons)
 
             # Solve problem once to speed up later solves
-            L_inv_param.value = [*self.Lt_inv_hats.values()][0].T
+            L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
             prob.solve(solver="ECOS")
 
@@ -572,7 +572,7 @@ class Trader:
                     all_z,
                     all_L_inv_param,
                     all_r_hat_param,
-                    [*self.Lt_inv_hats.values()],
+                    [*self.L_inv_hats.values()],
                     all_r_hats,
                 ),
             )
-- 
2.43.0


From f8ef3d1743ce7b373f1619c62244ac8ebd4d8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 15/30] fix: the prescient row of the results table carries its
 own name

It carried the name of whichever predictor came last.
---
 experiments/utils/portfolio_backtests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index bea7078..ce9a14f 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -48,7 +48,7 @@ def _create_table_helper(metrics, prescient=True):
         metric = metrics["PRESCIENT"]
         print(
             "   {} & {:.1f}\\% & {:.1f}\\% & {:.1f} & {:.0f}\\% \\\\".format(
-                name,
+                "PRESCIENT",
                 metric.mean_return * 100,
                 metric.risk * 100,
                 metric.sharpe,
-- 
2.43.0


From 68d69314c4abd67b4900d71d3153c5ef873b3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 16/30] fix: regularize_covariance finds equal leading
 eigenvalues

LAPACK's subset driver can return no eigenpair at all when the requested
eigenvalues are tied, e.g., for ten equally correlated assets and rank two.
---
 cvx/covariance/regularization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index f2749de..3227211 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -26,7 +26,9 @@ def _regularize_correlation(R, r):
     n = R.shape[0]
 
     # ascending order of the largest r eigenvalues
-    lamda, Q = sc.linalg.eigh(a=R, subset_by_index=[n - r, n - 1])
+    # (with subset_by_index LAPACK may return none of several equal eigenvalues)
+    lamda, Q = sc.linalg.eigh(a=R)
+    lamda, Q = lamda[n - r :], Q[:, n - r :]
 
     # Sort eigenvalues in descending order
     lamda = lamda[::-1]
-- 
2.43.0


From f9b46e721a6b05262d09bf616fd4cf4ef2463613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 17/30] fix: factors of a singular covariance are finite

Eigenvalues that are zero up to rounding may come out negative.
---
 cvx/covariance/regularization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index 3227211..903af2d 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -65,7 +65,7 @@ def regularize_covariance(sigmas, r, low_rank_format=False):
             cov = vola.reshape(-1, 1) * R.Approximation * vola.reshape(1, -1)
             yield time, pd.DataFrame(cov, index=sigma.columns, columns=sigma.columns)
         else:
-            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(R.Lambda)
+            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(np.maximum(R.Lambda, 0))
             d = np.diag(vola.reshape(-1, 1) * R.D * vola.reshape(1, -1))
             yield (
                 time,
-- 
2.43.0


From 77042fb64763c950b4e275d23fdfa05c7b6f6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 18/30] fix: low_rank_iterated_ewma yields its own mean at
 every step

All results shared one Series, so overwriting one changed the others.
---
 experiments/utils/low_rank_ewma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 83e694c..a50c539 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -83,8 +83,6 @@ def low_rank_iterated_ewma(
     #     print(adj_mean)
     #     assert False
 
-    m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)
-
     for t, low_rank in _ewma_low_rank(
         data=adj, halflife=cov_halflife, min_periods=min_periods_cov, rank=rank
     ):
@@ -92,6 +90,8 @@ def low_rank_iterated_ewma(
             m = scale_mean(
                 vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t]
             )
+        else:
+            m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)
 
         yield IEWMA(
             time=t,
-- 
2.43.0


From a7c927d516ea7239e56f6cfde9631a49732c2150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 19/30] fix: low-rank EWMA of an empty history reports nothing

---
 experiments/utils/low_rank_ewma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index a50c539..b8635ca 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -206,6 +206,10 @@ def _general_low_rank(
     """
     n = y.shape[1]
 
+    # an empty history has no first row and hence no covariance
+    if len(y) == 0:
+        return
+
     def f(k):
         if k < min_periods - 1:
             return times[k], LowRankCovariance(
-- 
2.43.0


From dc1c87436fec680862179ed8f59c0047f85daf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 20/30] fix: log-likelihoods of large universes are finite

---
 experiments/utils/experiment_utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index b1fd424..1a07d7d 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -86,13 +86,19 @@ def turnover(weights):
     return yearly_turnover * 100
 
 
+def _log_det(Sigma):
+    # the determinant itself under- or overflows for many assets
+    sign, logabsdet = np.linalg.slogdet(Sigma)
+    return np.log(sign) + logabsdet
+
+
 def _single_log_likelihood(r, Sigma, m):
     n = len(r)
     Sigma_inv = np.linalg.inv(Sigma)
-    det = np.linalg.det(Sigma)
+    logdet = _log_det(Sigma)
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(det)
+        - 1 / 2 * logdet
         - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
     )
 
@@ -198,12 +204,12 @@ def log_likelihood(returns, Sigmas, means=None, scale=1):
     means = means * scale
     Sigmas = Sigmas * scale**2
 
-    dets = np.linalg.det(Sigmas).reshape(len(Sigmas), 1, 1)
+    logdets = _log_det(Sigmas).reshape(len(Sigmas), 1, 1)
     Sigma_invs = np.linalg.inv(Sigmas)
 
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(dets)
+        - 1 / 2 * logdets
         - 1
         / 2
         * np.transpose(returns - means, axes=(0, 2, 1))
@@ -234,12 +240,12 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
         r = returns[t].reshape(n, 1)
         m = means[t].reshape(n, 1)
         Sigma = Sigmas[t]
-        det = np.linalg.det(Sigma)
+        logdet = _log_det(Sigma)
         Sigma_inv = np.linalg.inv(Sigma)
 
         ll[t] = (
             -n / 2 * np.log(2 * np.pi)
-            - 1 / 2 * np.log(det)
+            - 1 / 2 * logdet
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
         ).item()
 
-- 
2.43.0


From 09e29703ff373c244abd5b0ed43a05c73defe36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 21/30] fix: log-likelihoods accept any asset labels

---
 experiments/utils/experiment_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 1a07d7d..44bfe94 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -126,7 +126,7 @@ def log_likelihood_low_rank(returns, Sigmas, means=None):
         # TODO: forming the covariance matrix is bad...
         cov = low_rank.F @ (low_rank.F).T + np.diag(low_rank.d)
 
-        if not returns.loc[time].isna()[0]:
+        if not returns.loc[time].isna().iloc[0]:
             if means is not None:
                 m = means.loc[time].values.reshape(-1, 1)
             ll.append(
@@ -159,7 +159,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
 
     if r is not None:
         for time, cov in regularize_covariance(Sigmas, r=r):
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
@@ -170,7 +170,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
                 times.append(time)
     else:
         for time, cov in Sigmas.items():
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
-- 
2.43.0


From 78df1091b72ac9a6852a9e017daa60a14e5a0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 22/30] fix: realized covariance of a day with a single return

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 44bfe94..f4ea37d 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -10,7 +10,7 @@ from experiments.utils.iterated_ewma_vec import ewma
 
 def _realized_covariance(returns):
     for time in returns.index.unique():
-        returns_temp = returns.loc[time]
+        returns_temp = returns.loc[[time]]
         T_temp = len(returns_temp)
 
         yield time, returns_temp.cov(ddof=0) * T_temp
@@ -29,7 +29,7 @@ def realized_ewma(returns, halflife, clip_at=None, min_periods=None):
 
 def realized_volas(returns):
     for time in returns.index.unique():
-        yield time, np.sqrt((returns.loc[time] ** 2).sum(axis=0))
+        yield time, np.sqrt((returns.loc[[time]] ** 2).sum(axis=0))
 
 
 def MSE(returns, covariances):
-- 
2.43.0


From 5a15ac5c401fb536a81109d1bda721da5cdce56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 23/30] fix: vectorised iterated_ewma of a history shorter than
 the warm-up is empty

---
 experiments/utils/iterated_ewma_vec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 2221683..75f5496 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -131,7 +131,7 @@ def _refactor_to_corr(Sigmas):
     param Sigmas: Txnxn numpy array of covariance matrices
     """
     V = np.sqrt(np.diagonal(Sigmas, axis1=1, axis2=2))
-    outer_V = np.array([np.outer(v, v) for v in V])
+    outer_V = V[:, :, None] * V[:, None, :]
     return Sigmas / outer_V
 
 
@@ -145,6 +145,10 @@ def _regularize_correlation(R, r):
         defined so that R_hat has unit diagonal; lamda_i, q_i are eigenvalues
         and eigenvectors of R (the r first, in descending order)
     """
+    # no correlations, e.g., for a history shorter than the warm-up
+    if len(R) == 0:
+        return R
+
     eig_decomps = np.linalg.eigh(R)
     Lamda = eig_decomps[0]
     Q = eig_decomps[1]
-- 
2.43.0


From 35913a99db84af0a3c5dd985614526a1b7a684b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 24/30] fix: clipping an EWMA of covariances handles negative
 entries

---
 experiments/utils/iterated_ewma_vec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 75f5496..801ce4b 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -28,9 +28,9 @@ def get_next_ewma(EWMA, y_last, t, beta, clip_at=None, min_periods=None):
     if clip_at:
         assert min_periods, "min_periods must be specified if clip_at is specified"
         if t >= min_periods + 2:
-            return old_weight * EWMA + new_weight * np.clip(
-                y_last, -clip_at * EWMA, clip_at * EWMA
-            )
+            # covariances may be negative
+            bound = clip_at * np.abs(EWMA)
+            return old_weight * EWMA + new_weight * np.clip(y_last, -bound, bound)
 
     return old_weight * EWMA + new_weight * y_last
 
-- 
2.43.0


From 6a578f0b2e8d5a85addaf7665f888d73b6688102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 25/30] fix: volatility-controlled portfolios scale the weights
 of each date

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index f918268..34014ae 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -160,7 +160,7 @@ class Trader:
 
         sigma_r = obj
         w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)
-        ws = (1 - w_cash) * ws
+        ws = (1 - w_cash) * ws.reshape(len(ws), -1)
 
         return np.hstack([ws, w_cash])
 
-- 
2.43.0


From 43fdd18fe5bf7fbe8ae0e8ffe5a6cb60906512b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 26/30] fix: estimators keep rows in the given order when row
 labels are not sorted

---
 cvx/covariance/ewma.py             | 6 ++++--
 experiments/utils/low_rank_ewma.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a6af3f4..3a160d5 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -67,7 +67,8 @@ def center(returns, halflife, min_periods=0, mean_adj=False):
                 min_periods=min_periods,
             )
         )
-        return (returns - mean).dropna(how="all", axis=0), mean
+        # select the rows first: aligning frames with different rows sorts their labels
+        return (returns.loc[mean.index] - mean).dropna(how="all", axis=0), mean
     else:
         return returns, 0.0 * returns
 
@@ -160,7 +161,8 @@ def iterated_ewma(
     # make sure adj is NaN where vola is zero or returns are
     # NaN. This handles NaNs (which in some sense is the same as a constant
     # return series, i.e., vola = 0)
-    adj = clip((returns / vola), clip_at=clip_at)  # if vola is zero, adj is NaN
+    # select the rows first: aligning frames with different rows sorts their labels
+    adj = clip((returns.loc[vola.index] / vola), clip_at=clip_at)  # if vola is zero, adj is NaN
     adj = adj.fillna(0.0)
 
     # center the adj returns again
diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index b8635ca..6cca809 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -72,7 +72,8 @@ def low_rank_iterated_ewma(
     )
 
     # adj the returns
-    adj = clip((returns / vola), clip_at=clip_at)
+    # select the rows first: aligning frames with different rows sorts their labels
+    adj = clip((returns.loc[vola.index] / vola), clip_at=clip_at)
 
     # center the adj returns again? Yes, I think so
     # TODO: Check if this is correct half life
-- 
2.43.0


From 52897d7cb33283fed919845580839c17cceef65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 27/30] fix: EWMA with a warm-up in the generative mode
 notebook

Times before min_periods were yielded without the row number, so that every
min_periods above 1 failed to unpack.
---
 experiments/extensions/generative_mode.ipynb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/extensions/generative_mode.ipynb b/experiments/extensions/generative_mode.ipynb
index 992c08e..830dfac 100644
--- a/experiments/extensions/generative_mode.ipynb
+++ b/experiments/extensions/generative_mode.ipynb
@@ -191,7 +191,7 @@
     "\n",
     "    def f(k):\n",
     "        if k < min_periods - 1:\n",
-    "            return times[k], _ewma * np.nan\n",
+    "            return times[k], _ewma * np.nan, k\n",
     "\n",
     "        return times[k], _ewma, k\n",
     "\n",
-- 
2.43.0


From 8db4ec7a053d79874d3fbf7d959cc260d7f2adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:39 +0000
Subject: [PATCH 28/30] fix: risk with excess=True ignored adjust_factor,
 unlike the mean it is divided into

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 34014ae..661742b 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -656,7 +656,7 @@ class Trader:
             assert rf is not None
             excess_returns = self.rets / self.adjust_factor - rf
             mean_return = np.mean(excess_returns) * 252
-            stdev = np.std(self.rets) * np.sqrt(252)
+            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)
             # mean_return = (np.mean(self.rets/self.adjust_factor) - np.mean(rf))* 252
             # stdev = np.std(self.rets / self.adjust_factor-rf) * np.sqrt(252)
         else:
-- 
2.43.0


From 3ad3dda0a3efe149a4bf00938e9770a7362907ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:32 +0000
Subject: [PATCH 29/30] fix: combine experts whose times are not in the order
 of their labels

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 9ce4ff0..12edaa9 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -268,7 +268,7 @@ class _CovarianceCombination:
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
 
         A = {
-            times[i]: _A(Ls_diag.truncate(before=times[i - window + 1], after=times[i]), self.K)
+            times[i]: _A(Ls_diag.loc[times[i - window + 1] : times[i]], self.K)
             for i in range(window - 1, len(times))
         }
 
-- 
2.43.0


From 47968a7c1704f0b9561055f5a1231f1e83f5c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:56 +0000
Subject: [PATCH 30/30] fix: a start or end date with a falsy label (e.g. 0 in
 event time) was ignored in backtests

---
 experiments/utils/portfolio_backtests.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index ce9a14f..fd7773c 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -114,8 +114,9 @@ class PortfolioBacktest(ABC):
         self.cov_predictors = cov_predictors
         self.mean_predictors = mean_predictors
         self.names = names
-        self.start_date = start_date or list(cov_predictor.keys())[0]
-        self.end_date = end_date or list(cov_predictor.keys())[-1]
+        # a label may be falsy, e.g., 0 in event time
+        self.start_date = list(cov_predictor.keys())[0] if start_date is None else start_date
+        self.end_date = list(cov_predictor.keys())[-1] if end_date is None else end_date
 
     @abstractmethod
     def backtest(self):
-- 
2.43.0

