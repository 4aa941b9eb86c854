From 7b8138377d52b1a30bfc2402471ec4fb6db2f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 01/30] fix: bound the working weights away from zero in online
 updates

The initial fit clips the IRLS weights to [1e-10, 1e10]; the update clipped
to [-1e10, 1e10], so a zero weight (y == 0 or 1 under an inflated law)
turned the working vector and all coefficients into NaN.
---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a2adaa9..e79775f 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1227,7 +1227,7 @@ class OnlineDistributionalRegression(
             dl1dp1 = self.distribution.dl1_dp1(y, fv_it, param=param)
             dl2dp2 = self.distribution.dl2_dp2(y, fv_it, param=param)
             wt = -(dl2dp2 / (dr * dr))
-            wt = np.clip(wt, -1e10, 1e10)
+            wt = np.clip(wt, 1e-10, 1e10)
             wv = eta + dl1dp1 / (dr * wt)
 
             if self.debug:
-- 
2.43.0


From 0e528082fee6944dabbcae57ac1476e2c8b9d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 02/30] fix: do not write defaults into the user's settings
 dictionaries

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index e79775f..30c0591 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -273,6 +273,7 @@ class OnlineDistributionalRegression(
 
     def _process_parameter(self, attribute: Any, default: Any, name: str) -> None:
         if isinstance(attribute, dict):
+            attribute = dict(attribute)
             for p in range(self.distribution.n_params):
                 if p not in attribute.keys():
                     warnings.warn(
@@ -307,6 +308,7 @@ class OnlineDistributionalRegression(
                 for p in range(self.distribution.n_params)
             }
         else:
+            equation = dict(equation)
             for p in range(self.distribution.n_params):
                 # Check that all distribution parameters are in the equation.
                 # If not, add intercept.
-- 
2.43.0


From 0ae520b2850fa8863770869e6a432bab942d8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 03/30] fix: use the average start value in the coordinate
 descent path

The value was computed and then overwritten by the previous fit.
---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index a55e57e..56042ad 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -140,7 +140,7 @@ def online_coordinate_descent_path(
         # Select the according start values for the next CD update
         if which_start_value == "average":
             beta = (beta_path_new[max(i - 1, 0), :] + beta_path[max(i, 0), :]) / 2
-        if which_start_value == "previous_lambda":
+        elif which_start_value == "previous_lambda":
             beta = beta_path_new[max(i - 1, 0), :]
         else:
             beta = beta_path[max(i, 0), :]
-- 
2.43.0


From f3fdac06f1dd9d7fdedd50b6291924446cc0628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 04/30] fix: largest penalty must use absolute cross products

With all coefficients regularised and only negative cross products the grid
became negative.
---
 src/ondil/methods/elasticnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index e3c9fd1..92be4c9 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -89,7 +89,7 @@ class ElasticNetPath(EstimationMethod):
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
         if np.all(is_regularized):
-            lambda_max = np.max(y_gram)
+            lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
             lambda_max = np.max(
-- 
2.43.0


From b4dfc62028eda878780ce28785df2049bbcd526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 05/30] fix: add Distribution.median, which predict_median
 relies on

---
 src/ondil/base/distribution.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index e0f8e95..473ab2d 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -132,6 +132,18 @@ class Distribution(ABC):
         """
         return self.ppf(q, theta)
 
+    def median(self, theta: np.ndarray) -> np.ndarray:
+        """
+        Compute the median of the distribution for the given parameters.
+
+        Args:
+            theta (np.ndarray): The parameters of the distribution.
+
+        Returns:
+            np.ndarray: The medians corresponding to the parameters in `theta`.
+        """
+        return self.ppf(0.5, theta)
+
     @abstractmethod
     def calculate_conditional_initial_values(
         self,
-- 
2.43.0


From be2d2afa719d8200c97fe4af4997b7333bd394fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 06/30] fix: add the mean of the inflated and zero-adjusted
 laws

OnlineDistributionalRegression.predict raised AttributeError for them.
---
 src/ondil/distributions/betainflated.py      | 4 ++++
 src/ondil/distributions/betainflatedzero.py  | 4 ++++
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 22abe2b..ea3aafa 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -220,6 +220,10 @@ class BetaInflated(Distribution):
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
+    def mean(self, theta):
+        mu, _, nu, tau = self.theta_to_params(theta)
+        return (mu + tau) / (1 + nu + tau)
+
     def rvs(self, size, theta):
         sim_unif = st.uniform.rvs(size=size)
         return self.ppf(q=sim_unif, theta=theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 17126fd..d1c480c 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -180,6 +180,10 @@ class BetaInflatedZero(Distribution):
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return mu / (1 + nu)
+
     def rvs(self, size, theta):
         sim_unif = st.uniform.rvs(size=size)
         return self.ppf(q=sim_unif, theta=theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c01aead..40b7738 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -142,6 +142,10 @@ class ZeroAdjustedGamma(Distribution):
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return (1 - nu) * mu
+
     def rvs(self, size, theta):
         sim_unif = st.uniform.rvs(size=size)
         return self.ppf(q=sim_unif, theta=theta)
-- 
2.43.0


From aa97cf4a16928b2fccbea928ff8112ac8ef63315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 07/30] fix: rvs of mixed laws returns the documented (n, size)
 array

---
 src/ondil/distributions/betainflated.py      | 4 ++--
 src/ondil/distributions/betainflatedzero.py  | 4 ++--
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index ea3aafa..da2c459 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -225,8 +225,8 @@ class BetaInflated(Distribution):
         return (mu + tau) / (1 + nu + tau)
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu, tau = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index d1c480c..51caf30 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -185,8 +185,8 @@ class BetaInflatedZero(Distribution):
         return mu / (1 + nu)
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 40b7738..4ba83c2 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -147,8 +147,8 @@ class ZeroAdjustedGamma(Distribution):
         return (1 - nu) * mu
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
-- 
2.43.0


From 3792bd892a0d74648a8af2dc3c87b06b23f7f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 08/30] fix: densities and distribution functions of mixed laws
 outside the support

---
 src/ondil/distributions/betainflated.py      | 2 +-
 src/ondil/distributions/betainflatedzero.py  | 1 +
 src/ondil/distributions/zeroadjustedgamma.py | 8 ++++----
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index da2c459..508db83 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -237,7 +237,7 @@ class BetaInflated(Distribution):
 
         result = np.where(
             (y < 0) | (y > 1),
-            0,
+            -np.inf,
             np.where(
                 y == 0,
                 np.log(nu) - np.log(1 + nu + tau),
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 51caf30..f919044 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -198,6 +198,7 @@ class BetaInflatedZero(Distribution):
         logfy = np.zeros_like(y, dtype=np.float64)
         logfy = np.where(y > 0, logpdf_beta, logfy)
         logfy = np.where(y == 0, np.log(nu), logfy)
+        logfy = np.where(y < 0, -np.inf, logfy)
         result = logfy - np.log(1 + nu)
 
         return result
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 4ba83c2..a852f20 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -113,7 +113,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, nu, cont_cdf)
 
-        return result
+        return np.where(y < 0, 0, result)
 
     def pdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -128,7 +128,7 @@ class ZeroAdjustedGamma(Distribution):
             / (y * spc.gamma(1 / sigma**2))
         )
 
-        return np.where(y == 0, nu, result)
+        return np.where(y < 0, 0, np.where(y == 0, nu, result))
 
     def ppf(self, q, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -161,7 +161,7 @@ class ZeroAdjustedGamma(Distribution):
             - spc.gammaln(1 / sigma**2)
         )
 
-        return np.where(y == 0, np.log(nu), result)
+        return np.where(y < 0, -np.inf, np.where(y == 0, np.log(nu), result))
 
     def logcdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -172,7 +172,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, np.log(nu), cont_logcdf_gamma)
 
-        return result
+        return np.where(y < 0, -np.inf, result)
 
     def logpmf(self, y, theta):
         return super().logpmf(y, theta)
-- 
2.43.0


From 6a2b983f0929ebae3e271cac82a1f588464508f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 09/30] fix: derivative of the inverse softplus link

d/dx log(exp(x) - 1) = 1 / (1 - exp(-x)), not exp(-x).
---
 src/ondil/links/softpluslinks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 7739731..8da05b9 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -37,7 +37,7 @@ class InverseSoftPlus(LinkFunction):
         return robust_softplus(x)
 
     def link_derivative(self, x: np.ndarray):
-        return zero_safe_division(1, (robust_exp(x) - 1) + 1)
+        return zero_safe_division(1, (1 - robust_exp(-x)))
 
     def link_second_derivative(self, x: np.ndarray):
         # return 1 / (2 - 2 * np.cosh(x)) # equivalent
-- 
2.43.0


From 0041f7ddb6f07f8b09bf01441cf025958170f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 10/30] fix: softplus must not underflow to zero for small
 predictors

log(1 + exp(x)) is exactly 0 below x = -37, outside the parameter support.
---
 src/ondil/links/robust_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/robust_math.py b/src/ondil/links/robust_math.py
index 76327f1..4606e64 100644
--- a/src/ondil/links/robust_math.py
+++ b/src/ondil/links/robust_math.py
@@ -49,7 +49,7 @@ def robust_softplus(value):
     if value > 40:
         return value
     else:
-        return np.log(1 + np.exp(value))
+        return np.log1p(np.exp(value))
 
 
 @nb.vectorize(["float32(float32)", "float64(float64)"])
-- 
2.43.0


From becd659d3b380bbaf551626ee1b22b1feb809714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 11/30] fix: weighted, discounted residual sum of squares for
 model selection

The initial fit squared the weights and ignored the forget factor, updates
ignored the weights and discounted a batch of n rows only once.
---
 src/ondil/estimators/online_linear_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 3a246b3..056a918 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -14,6 +14,7 @@ from sklearn.utils.validation import (
 
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..design_matrix import add_intercept
+from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
@@ -154,10 +155,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 y_gram=self._y_gram,
                 is_regularized=self._is_regularized,
             )
-            residuals = np.expand_dims(sample_weight, -1) * (
-                np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            )
-            self._rss = np.sum(residuals**2, axis=0)
+            residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = np.sum(residuals**2 * np.expand_dims(weights, -1), axis=0)
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
@@ -218,7 +218,10 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             )
 
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            self._rss = (1 - self.forget) * self._rss + np.sum(residuals**2, axis=0)
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
+                residuals**2 * np.expand_dims(weights, -1), axis=0
+            )
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
-- 
2.43.0


From 2ea45859dcdd47bb5051fcad24ab7deee07800e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 12/30] fix: sample weights in the likelihood-based selection
 of the initial fit

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 30c0591..459c21b 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -500,7 +500,7 @@ class OnlineDistributionalRegression(
                 theta[:, param] = self.distribution.link_inverse(
                     prediction_path[:, i], param=param
                 )
-                ll[i] = np.sum(f * self.distribution.logpdf(y, theta))
+                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-- 
2.43.0


From 9785bbc56fcbbe31bf6945ac99a5396272e0f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 13/30] fix: AICC for arrays of parameter counts

---
 src/ondil/information_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/information_criteria.py b/src/ondil/information_criteria.py
index 6933cd9..e411639 100644
--- a/src/ondil/information_criteria.py
+++ b/src/ondil/information_criteria.py
@@ -84,7 +84,7 @@ class InformationCriterion:
         if c == "aic":
             return - 2 * ll + p * 2 
         elif c == "aicc":
-            if n - p - 1 == 0:
+            if np.any(n - p - 1 == 0):
                 raise ValueError("Invalid inputs: n - p - 1 must not be zero for AICC calculation.")
             return - 2 * ll + p * 2 * n / ( n - p - 1)
         elif c == "bic":
-- 
2.43.0


From d745ba5c6472db70ece31216b43e0478b2943087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 14/30] fix: a failed first fit leaves the estimator unfitted

n_observations_ was assigned before the fit succeeded, so that partial_fit
after a failed first fit called update on an estimator without
coefficients, and predict did not raise NotFittedError.
---
 src/ondil/base/estimator.py                 |  3 +++
 src/ondil/estimators/online_gamlss.py       |  9 +++++----
 src/ondil/estimators/online_linear_model.py | 12 +++++++-----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ondil/base/estimator.py b/src/ondil/base/estimator.py
index ed6689b..db5e53a 100644
--- a/src/ondil/base/estimator.py
+++ b/src/ondil/base/estimator.py
@@ -11,6 +11,9 @@ class OndilEstimatorMixin(ABC):
         """Has the estimator been fitted."""
         return hasattr(self, "n_observations_")
 
+    def __sklearn_is_fitted__(self) -> bool:
+        return self.is_fitted
+
     @property
     def n_samples_(self) -> int:
         check_is_fitted(self, "n_observations_")
diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 459c21b..38c0c24 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -671,11 +671,9 @@ class OnlineDistributionalRegression(
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
         self._validate_inputs(X, y)
 
-        self.n_observations_ = sample_weight.sum()
+        n_observations = sample_weight.sum()
         self.n_training_ = {
-            p: calculate_effective_training_length(
-                self._forget[p], self.n_observations_
-            )
+            p: calculate_effective_training_length(self._forget[p], n_observations)
             for p in range(self.distribution.n_params)
         }
 
@@ -772,6 +770,9 @@ class OnlineDistributionalRegression(
         )
         message = "Finished fit call"
         self._print_message(message=message, level=1)
+
+        # Only a successful fit makes the estimator fitted
+        self.n_observations_ = n_observations
         return self
 
     @_fit_context(prefer_skip_nested_validation=True)
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 056a918..6384dc5 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -117,21 +117,21 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
         _ = type_of_target(y, raise_unknown=True)
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
 
-        self.n_observations_ = np.sum(sample_weight)
+        n_observations = np.sum(sample_weight)
         self.n_features_ = X.shape[1] + int(self.fit_intercept)
 
-        if self.n_observations_ <= self.n_features_ and self.method == "ols":
+        if n_observations <= self.n_features_ and self.method == "ols":
             raise ValueError(
-                f"You have tried to fit using n_samples={self.n_observations_} and n_features={self.n_features_}. "
+                f"You have tried to fit using n_samples={n_observations} and n_features={self.n_features_}. "
                 "Since we need calculate the inverse Gram matrix, we need at least as many observations as features for OLS-based methods"
             )
-        if self.n_observations_ == 1:
+        if n_observations == 1:
             raise ValueError(
                 "You have tried to fit using only one sample. This is not supported for online linear regression."
             )
 
         self.n_training_ = calculate_effective_training_length(
-            self.forget, self.n_observations_
+            self.forget, n_observations
         )
 
         self._scaler.fit(X, sample_weight=sample_weight)
@@ -171,6 +171,8 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 self._x_gram, self._y_gram, self._is_regularized
             )
 
+        # Only a successful fit makes the estimator fitted
+        self.n_observations_ = n_observations
         return self
 
     @_fit_context(prefer_skip_nested_validation=True)
-- 
2.43.0


From 6193dda1bb4986e5b9843747ffa513b01da26a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 15/30] fix: outer iterations never exceed max_it_outer

The limit was only checked after the minimum number of iterations, so
min_it_outer, prefit_initial, prefit_update or the four cautious
iterations beyond max_it_outer ended in an IndexError.
---
 src/ondil/estimators/online_gamlss.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 38c0c24..f83174c 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -894,7 +894,7 @@ class OnlineDistributionalRegression(
         global_dev_old = global_dev + 1000
         it_outer = 0
 
-        while True:
+        while it_outer < self.max_it_outer:
             # Check relative congergence
             if it_outer >= self._current_min_it_outer:
                 if (
@@ -914,9 +914,6 @@ class OnlineDistributionalRegression(
                 #     self._print_message(message=message, level=1)
                 #     break
 
-                if it_outer >= self.max_it_outer:
-                    break
-
             global_dev_old = global_dev
             it_outer += 1
 
@@ -945,7 +942,7 @@ class OnlineDistributionalRegression(
         global_dev_old = global_dev + 1000
         it_outer = 0
 
-        while True:
+        while it_outer < self.max_it_outer:
             # Check relative congergence
             if it_outer >= self._current_min_it_outer:
                 if (
@@ -957,9 +954,6 @@ class OnlineDistributionalRegression(
                 if np.abs(global_dev_old - global_dev) < self.abs_tol_outer:
                     break
 
-                if it_outer >= self.max_it_outer:
-                    break
-
                 if global_dev > global_dev_old:
                     message = (
                         f"Outer iteration {it_outer}: Global deviance increased. Breaking."
-- 
2.43.0


From 22be0856aa3f8f7f087fb888cd9235c95f32cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 16/30] fix: cautious updates with more than one observation

.item() raised ValueError for every batch of two or more rows.
---
 src/ondil/estimators/online_gamlss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index f83174c..bade39b 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -853,8 +853,8 @@ class OnlineDistributionalRegression(
             self._current_min_it_outer = int(self.prefit_update)
 
         if self.cautious_updates:
-            lower = self.distribution.quantile(0.005, self._fv).item()
-            upper = self.distribution.quantile(0.995, self._fv).item()
+            lower = self.distribution.quantile(0.005, self._fv)
+            upper = self.distribution.quantile(0.995, self._fv)
 
             if np.any(y < lower) or np.any(y > upper):
                 message = (
-- 
2.43.0


From f8fd1e89e5221645b61e10f73aaa17a8415f9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 17/30] fix: accept the documented per-parameter dictionaries

forget, fit_intercept, regularize_intercept, method and ic are documented
and processed as dictionaries but were rejected by the validation.
---
 src/ondil/estimators/online_gamlss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index bade39b..c0031dd 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -35,12 +35,12 @@ class OnlineDistributionalRegression(
     """The online/incremental GAMLSS class."""
 
     _parameter_constraints = {
-        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left")],
-        "fit_intercept": [bool],
+        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left"), dict],
+        "fit_intercept": [bool, dict],
         "scale_inputs": [bool, np.ndarray],
-        "regularize_intercept": [bool],
-        "method": [EstimationMethod, str],
-        "ic": [StrOptions({"aic", "bic", "hqc", "max"})],
+        "regularize_intercept": [bool, dict],
+        "method": [EstimationMethod, str, dict],
+        "ic": [StrOptions({"aic", "bic", "hqc", "max"}), dict],
         "distribution": [callable],
         "equation": [dict, type(None)],
         "model_selection": [StrOptions({"local_rss", "global_ll"})],
-- 
2.43.0


From 8b1c7a889dc5e88cd52e84892f58f3b702487c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 18/30] fix: consistent weighting of the residual-based
 selection in updates

The accumulated residual sum of squares was divided by one mean of weights
and multiplied by another (without sample weights, discounted once per
batch), which mis-weighted old against new observations.
---
 src/ondil/estimators/online_gamlss.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index c0031dd..ba906a0 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -558,14 +558,12 @@ class OnlineDistributionalRegression(
         n_nonzero_coef = np.count_nonzero(beta_path, axis=1)
         prediction_path = X @ beta_path.T
         if self.model_selection == "local_rss":
-            # Denominator
-            # TODO: This should go in the online mean update function.
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
-            )
+            # Denominator, the same mean of weights that multiplies the
+            # model selection data in the next update.
+            denom = (
+                np.sum(w * wt * f)
+                + (1 - self._forget[param]) ** y.shape[0] * self._sum_of_weights[param]
+            ) / self.n_training_[param]
             residuals = wv[:, None] - prediction_path
             rss = (
                 np.sum((residuals**2) * w[:, None] * wt[:, None] * f[:, None], axis=0)
@@ -1178,8 +1176,8 @@ class OnlineDistributionalRegression(
             self._fv[:, param] = fv_it_new[:, param]
 
             # Sum and mean of the weights
-            self._sum_of_weights[param] = np.sum(w * wt)
-            self._mean_of_weights[param] = np.mean(w * wt)
+            self._sum_of_weights[param] = np.sum(w * wt * f)
+            self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
             self._rss[param] = rss_it
@@ -1366,7 +1364,8 @@ class OnlineDistributionalRegression(
 
         # Update the weights
         self._sum_of_weights_new[param] = (
-            np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
+            np.sum(w * wt * f)
+            + (1 - self._forget[param]) ** y.shape[0] * self._sum_of_weights[param]
         )
         self._mean_of_weights_new[param] = (
             self._sum_of_weights_new[param] / self.n_training_[param]
-- 
2.43.0


From 81f1ca0d5a302033d919c3318f07953da5b6d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 19/30] fix: OnlineLasso keeps its constructor arguments

Without them get_params, clone and the parameter validation at the start of
every fit raised AttributeError, so the estimator could not be used.
---
 src/ondil/estimators/online_lasso.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index 616a675..f19a242 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -46,6 +46,16 @@ class OnlineLasso(OnlineLinearModel):
             selection (Literal["cyclic", "random"], optional): Whether to cycle through all coordinates in order or random. For large problems, random might increase convergence. Defaults to 100.
         """
 
+        self.early_stop = early_stop
+        self.beta_lower_bound = beta_lower_bound
+        self.beta_upper_bound = beta_upper_bound
+        self.lambda_n = lambda_n
+        self.lambda_eps = lambda_eps
+        self.start_value = start_value
+        self.tolerance = tolerance
+        self.max_iterations = max_iterations
+        self.selection = selection
+
         concrete_method = LassoPath(
             lambda_eps=lambda_eps,
             lambda_n=lambda_n,
-- 
2.43.0


From 866a724491debcfac70500efb3bbb389d857b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 20/30] fix: step sizes follow the parameter index, not the
 dictionary order

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index ba906a0..0886827 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -633,7 +633,7 @@ class OnlineDistributionalRegression(
 
     def _make_step_size_schedule(self):
         return np.tile(
-            A=list(self._step_size.values()),
+            A=[self._step_size[p] for p in range(self.distribution.n_params)],
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
-- 
2.43.0


From c6c95f5f7d2114619cd9ad37adf10e9e0774e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 21/30] fix: the log-normal and inverse gamma laws have no mass
 at zero

Zero was accepted as a response although the log-density and the start
values are not finite there.
---
 src/ondil/distributions/inversegamma.py    | 2 +-
 src/ondil/distributions/lognormal.py       | 2 +-
 src/ondil/distributions/lognormalmedian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/inversegamma.py b/src/ondil/distributions/inversegamma.py
index d957db4..1164fb6 100644
--- a/src/ondil/distributions/inversegamma.py
+++ b/src/ondil/distributions/inversegamma.py
@@ -29,7 +29,7 @@ class InverseGamma(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.invgamma
     scipy_names = {"mu": "scale", "sigma": "a"}
 
diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 9b97ebe..74d1a4e 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -37,7 +37,7 @@ class LogNormal(ScipyMixin, Distribution):
     corresponding_gamlss: str = "LOGNO"
     parameter_names = {0: "mu", 1: "sigma"}
     parameter_support = {0: (-np.inf, np.inf), 1: (np.nextafter(0, 1), np.inf)}
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
diff --git a/src/ondil/distributions/lognormalmedian.py b/src/ondil/distributions/lognormalmedian.py
index 3929d35..eda162f 100644
--- a/src/ondil/distributions/lognormalmedian.py
+++ b/src/ondil/distributions/lognormalmedian.py
@@ -28,7 +28,7 @@ class LogNormalMedian(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
-- 
2.43.0


From 7a1e07c5b67d5e850cd8f0f7180e86cc976da41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 22/30] fix: derivatives reject parameters that do not exist

Negative indices returned None and the inverse Gaussian law returned zeros
for cross derivatives of parameters it does not have.
---
 src/ondil/base/distribution.py             | 4 ++--
 src/ondil/distributions/inversegaussian.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index 473ab2d..a0da414 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -80,7 +80,7 @@ class Distribution(ABC):
     def _validate_dln_dpn_inputs(
         self, y: np.ndarray, theta: np.ndarray, param: int
     ) -> None:
-        if param >= self.n_params:
+        if param >= self.n_params or param < 0:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {param}. Please remember we start counting at 0."
             )
@@ -88,7 +88,7 @@ class Distribution(ABC):
     def _validate_dl2_dpp_inputs(
         self, y: np.ndarray, theta: np.ndarray, params: Tuple[int, int]
     ) -> None:
-        if max(params) >= self.n_params:
+        if max(params) >= self.n_params or min(params) < 0:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {params}. Please remember we start counting at 0."
             )
diff --git a/src/ondil/distributions/inversegaussian.py b/src/ondil/distributions/inversegaussian.py
index a874dff..0c46b07 100644
--- a/src/ondil/distributions/inversegaussian.py
+++ b/src/ondil/distributions/inversegaussian.py
@@ -87,8 +87,7 @@ class InverseGaussian(ScipyMixin, Distribution):
     def dl2_dpp(
         self, y: np.ndarray, theta: np.ndarray, params: tuple[int, int] = (0, 1)
     ) -> np.ndarray:
-        if params[0] == params[1]:
-            raise ValueError("Cross derivatives must use different parameters.")
+        self._validate_dl2_dpp_inputs(y, theta, params)
         return np.zeros_like(y)
 
     def initial_values(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From f518f29d9fb4ea1659b38882f1f9e454974534d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 23/30] fix: density of the zero adjusted gamma law for small
 sigma

The gamma function overflows for sigma below 0.077 and the density was zero
or not a number.
---
 src/ondil/distributions/zeroadjustedgamma.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index a852f20..da31a22 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -121,12 +121,7 @@ class ZeroAdjustedGamma(Distribution):
         scale = mu * sigma**2
         pdf_gamma = st.gamma(a=shape, loc=0, scale=scale).pdf(y)
 
-        result = (
-            (1 - nu)
-            * (y / (mu * sigma**2)) ** (1 / sigma**2)
-            * (np.exp(-y / (mu * sigma**2)))
-            / (y * spc.gamma(1 / sigma**2))
-        )
+        result = (1 - nu) * pdf_gamma
 
         return np.where(y < 0, 0, np.where(y == 0, nu, result))
 
-- 
2.43.0


From 022fc7334442f4d883606f61e8b8fcd243b729a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 24/30] fix: log-normal density and distribution function below
 zero

They were not a number outside the support instead of 0 and -inf.
---
 src/ondil/distributions/lognormal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 74d1a4e..9fc27e4 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -94,18 +94,19 @@ class LogNormal(ScipyMixin, Distribution):
         Probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return (
+        result = (
             1
             / (y * sigma * np.sqrt(2 * np.pi))
             * np.exp(-((np.log(y) - mu) ** 2) / (2 * sigma**2))
         )
+        return np.where(y <= 0, 0.0, result)
 
     def cdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
         Cumulative distribution function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return st.norm.cdf((np.log(y) - mu) / sigma)
+        return np.where(y <= 0, 0.0, st.norm.cdf((np.log(y) - mu) / sigma))
 
     def ppf(self, p: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
@@ -119,9 +120,10 @@ class LogNormal(ScipyMixin, Distribution):
         Logarithm of the probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
+        result = np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
             -((np.log(y) - mu) ** 2) / (2 * sigma**2)
         )
+        return np.where(y <= 0, -np.inf, result)
 
     def logcdf(self, y, theta):
         return np.log(self.cdf(y, theta))
-- 
2.43.0


From 2308adcc76e06dd2a55e64ffdac67d49ae58ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:49 +0000
Subject: [PATCH 25/30] fix: zero inflated beta log-density at one

The density is zero at one but its logarithm was taken from the beta law,
which can be infinite there.
---
 src/ondil/distributions/betainflatedzero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index f919044..e214f17 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -198,7 +198,7 @@ class BetaInflatedZero(Distribution):
         logfy = np.zeros_like(y, dtype=np.float64)
         logfy = np.where(y > 0, logpdf_beta, logfy)
         logfy = np.where(y == 0, np.log(nu), logfy)
-        logfy = np.where(y < 0, -np.inf, logfy)
+        logfy = np.where((y < 0) | (y >= 1), -np.inf, logfy)
         result = logfy - np.log(1 + nu)
 
         return result
-- 
2.43.0


From 0b25e0864dd33c404d0aa7e305adbfb36cee4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:44 +0000
Subject: [PATCH 26/30] fix: a scaler whose fit failed stays unfitted

---
 src/ondil/scaler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/scaler.py b/src/ondil/scaler.py
index ef4c44d..d8b6ba7 100644
--- a/src/ondil/scaler.py
+++ b/src/ondil/scaler.py
@@ -60,7 +60,7 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
     @property
     def std_(self) -> float | np.ndarray:
         """Standard deviation of the scaled variables."""
-        check_is_fitted(self, ["mean_", "var_"])
+        check_is_fitted(self, "n_observations_")
         if self._do_scale:
             return np.sqrt(self.var_)
         else:
@@ -91,7 +91,6 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
         )
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
         self._prepare_estimator(X)
-        self.n_observations_ = sample_weight.sum()
 
         if self._do_scale:
             forget_vector = init_forget_vector(self.forget, X.shape[0])
@@ -109,6 +108,7 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
             self.var_ = np.average(diff_sq, weights=effective_weights, axis=0)
             self._M = self.var_ * self._cumulative_w
 
+        self.n_observations_ = sample_weight.sum()
         return self
 
     @_fit_context(prefer_skip_nested_validation=True)
@@ -120,7 +120,7 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
             y (None, optional): Not used, present for compatibility with sklearn API. Defaults to None.
             sample_weight (np.ndarray, optional): Weights for each sample. Defaults to None (uniform weights).
         """
-        check_is_fitted(self, ["mean_", "var_"])
+        check_is_fitted(self, "n_observations_")
         X = validate_data(
             self,
             X=X,
@@ -169,7 +169,7 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
         Returns:
             np.ndarray: Scaled X matrix.
         """
-        check_is_fitted(self, ["mean_", "var_"])
+        check_is_fitted(self, "n_observations_")
         X = validate_data(
             self,
             X=X,
@@ -197,7 +197,7 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
         Returns:
             np.ndarray: Scaled back to the original scale.
         """
-        check_is_fitted(self, ["mean_", "var_"])
+        check_is_fitted(self, "n_observations_")
         X = validate_data(
             self,
             X=X,
-- 
2.43.0


From 78884b16a7e113b3574810bc50fddd113b0a1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:30 +0000
Subject: [PATCH 27/30] fix: cross derivative of the reverse Gumbel law for
 integer responses

---
 src/ondil/distributions/reversegumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/distributions/reversegumbel.py b/src/ondil/distributions/reversegumbel.py
index 5428f7a..8435dd6 100644
--- a/src/ondil/distributions/reversegumbel.py
+++ b/src/ondil/distributions/reversegumbel.py
@@ -76,7 +76,7 @@ class ReverseGumbel(ScipyMixin, Distribution):
     ) -> np.ndarray:
         self._validate_dl2_dpp_inputs(y, theta, params)
         _, sigma = self.theta_to_params(theta)
-        return np.full_like(y, -0.422784 / sigma**2)
+        return np.full_like(y, -0.422784 / sigma**2, dtype=np.float64)
 
     def initial_values(self, y: np.ndarray) -> np.ndarray:
         gamma_const = 0.5772157
-- 
2.43.0


From cf8d6f22eb65905870516d0735f23bf421248e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:03 +0000
Subject: [PATCH 28/30] fix: fitting again without a path-based method forgets
 the earlier path

---
 src/ondil/estimators/online_linear_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 6384dc5..586c2b2 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -170,6 +170,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             self.coef_ = self._method.fit_beta(
                 self._x_gram, self._y_gram, self._is_regularized
             )
+            # Fitting again with another method forgets the earlier path
+            if hasattr(self, "coef_path_"):
+                del self.coef_path_
 
         # Only a successful fit makes the estimator fitted
         self.n_observations_ = n_observations
-- 
2.43.0


From f34d76082821c32eef2f74ec65e37928733c1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:35 +0000
Subject: [PATCH 29/30] fix: the linear model counts small coefficients as
 parameters, whatever the unit

---
 src/ondil/estimators/online_linear_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 586c2b2..7433793 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -158,7 +158,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
             weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
             self._rss = np.sum(residuals**2 * np.expand_dims(weights, -1), axis=0)
-            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
+            n_params = np.count_nonzero(self.coef_path_, axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
                 n_parameters=n_params,
@@ -227,7 +227,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
                 residuals**2 * np.expand_dims(weights, -1), axis=0
             )
-            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
+            n_params = np.count_nonzero(self.coef_path_, axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
                 n_parameters=n_params,
-- 
2.43.0


From 9392461841fc180a0870252c6bbbc5b8e293b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:17 +0000
Subject: [PATCH 30/30] fix: the lasso estimator uses its current settings in
 every fit

---
 src/ondil/estimators/online_lasso.py | 33 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index f19a242..15ec851 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -56,23 +56,30 @@ class OnlineLasso(OnlineLinearModel):
         self.max_iterations = max_iterations
         self.selection = selection
 
-        concrete_method = LassoPath(
-            lambda_eps=lambda_eps,
-            lambda_n=lambda_n,
-            start_value_initial="previous_lambda",
-            early_stop=early_stop,
-            start_value_update=start_value,
-            tolerance=tolerance,
-            max_iterations=max_iterations,
-            selection=selection,
-            beta_lower_bound=beta_lower_bound,
-            beta_upper_bound=beta_upper_bound,
-        )
         super().__init__(
             forget=forget,
             scale_inputs=scale_inputs,
             fit_intercept=fit_intercept,
             regularize_intercept=regularize_intercept,
-            method=concrete_method,
+            method=self._make_method(),
             ic=ic,
         )
+
+    def _make_method(self) -> LassoPath:
+        return LassoPath(
+            lambda_eps=self.lambda_eps,
+            lambda_n=self.lambda_n,
+            start_value_initial="previous_lambda",
+            early_stop=self.early_stop,
+            start_value_update=self.start_value,
+            tolerance=self.tolerance,
+            max_iterations=self.max_iterations,
+            selection=self.selection,
+            beta_lower_bound=self.beta_lower_bound,
+            beta_upper_bound=self.beta_upper_bound,
+        )
+
+    def _prepare_fit(self):
+        super()._prepare_fit()
+        # Settings may have been changed by `set_params()` since the construction
+        self._method = self._make_method()
-- 
2.43.0

