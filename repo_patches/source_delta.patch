From b9824874fbac5192d84bb829014fe959d5903d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 01/16] fix: cov_to_corrcoef keeps a unit diagonal and PSD for
 tiny variances

The additive 1e-12 in the denominator dominated the product of two small standard
deviations: correlations of small-variance variables had a diagonal far below one and
the matrix was no longer positive semi-definite.
---
 precise/_linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..08fcf23 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -21,9 +21,10 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
     """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    # Floor the scale rather than adding EPS to the product: a floored two-sided scaling keeps the
+    # unit diagonal (and positive semi-definiteness) however small the variances are.
+    scale = np.maximum(np.sqrt(np.diagonal(a)), EPS)
+    return a / np.outer(scale, scale)
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From 3c13bbe14ba41194ae664ecdfbd9c866a1369706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 02/16] fix: TylerCovariance survives a zero deviation

With a learning rate of one (the first observation, or r=1) a zero deviation made the
shape matrix zero and then NaN for ever.
---
 precise/tyler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..e0952e7 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -52,8 +52,10 @@ class TylerCovariance(BaseOnlineCovariance):
         dev = x - s["mean"]
         C = np.asarray(s["C"], dtype=float)
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
-        C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-        C = p * C / np.trace(C)  # fix the scale: trace == p
+        scatter = np.outer(dev, dev)
+        if np.trace(scatter) > 0:  # a zero deviation has no direction to contribute
+            C = (1 - lr) * C + lr * p * scatter / q  # direction-only contribution
+            C = p * C / np.trace(C)  # fix the scale: trace == p
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
         }
-- 
2.43.0


From 516978174461af6cfd8a8cc7cb3d8dc63f3a9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 03/16] fix: diff=True keeps its own copy of the previous level

partial_fit kept a view of the caller's array, so reusing the buffer zeroed every
difference.
---
 precise/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..aea92a1 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -52,10 +52,11 @@ class BaseOnlineCovariance:
         use_diff = getattr(self, "diff", False)
         for x in as_rows(X):
             if use_diff:
+                current = x.copy()  # x may be a view of a buffer the caller goes on to reuse
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = current
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = current - self._prev_x, current
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From 4812b7d0fb986cae3ab399513d15f9ccd58107f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 04/16] fix: location_ returns a copy of the running mean

Writing into the returned array changed the estimator's state.
---
 precise/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index aea92a1..339a7f3 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -87,7 +87,8 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        # A copy: the caller must not be able to write into the running state through it.
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From 78e31e7c4085f3c2813cd8c19ad72d265123677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 05/16] fix: get_state/set_state carry the previous level of a
 diff=True stream

A restored diff=True estimator lost the level the next difference is taken from, and so
dropped an observation (or kept a stale level of its own).
---
 precise/base.py             | 14 ++++++++++----
 precise/block_covariance.py |  9 +++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 339a7f3..8bccfd2 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -141,16 +141,22 @@ class BaseOnlineCovariance:
     # ------------------------------------------------------- serialization
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
-        if self._state is None:
+        if self._state is None and self._prev_x is None:
             return None
-        return {
+        out = {
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
-            for k, v in self._state.items()
+            for k, v in (self._state or {}).items()
         }
+        if self._prev_x is not None:  # diff=True: the level the next difference is taken from
+            out["prev_x"] = self._prev_x.tolist()
+        return out
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
-        if state is None:
+        state = dict(state or {})
+        prev = state.pop("prev_x", None)
+        self._prev_x = None if prev is None else np.array(prev, dtype=float)
+        if not state:
             self._state = None
             self.n_features_in_ = None
             return self
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..bb738f1 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -92,10 +92,12 @@ class BlockCovariance(BaseOnlineCovariance):
     # The state holds a list of per-block sub-dicts (nested arrays), so we serialize it
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
+        prev = {} if self._prev_x is None else {"prev_x": self._prev_x.tolist()}
         if self._state is None:
-            return None
+            return prev or None
         s = self._state
         return {
+            **prev,
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -106,7 +108,10 @@ class BlockCovariance(BaseOnlineCovariance):
         }
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
-        if state is None:
+        state = dict(state or {})
+        prev = state.pop("prev_x", None)
+        self._prev_x = None if prev is None else np.array(prev, dtype=float)
+        if not state:
             self._state = None
             self.n_features_in_ = None
             return self
-- 
2.43.0


From ff256c0d4b28920bcb8cace6a6d3895b2cc1f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 06/16] fix: reject observations whose length differs from the
 stream's

A length-one observation was silently broadcast into a wider state.
---
 precise/base.py        | 12 +++++++++++-
 precise/conditional.py |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 8bccfd2..d0e838f 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -50,7 +50,9 @@ class BaseOnlineCovariance:
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_n_features(rows)
+        for x in rows:
             if use_diff:
                 current = x.copy()  # x may be a view of a buffer the caller goes on to reuse
                 if self._prev_x is None:
@@ -63,6 +65,14 @@ class BaseOnlineCovariance:
             self._state = self._update_state(self._state, x)
         return self
 
+    def _check_n_features(self, rows: np.ndarray) -> None:
+        """Reject rows whose length differs from the stream's (numpy would broadcast length 1)."""
+        expected = self.n_features_in_ if self._state is not None else None
+        if expected is None and self._prev_x is not None:
+            expected = len(self._prev_x)
+        if expected is not None and rows.shape[1] != expected:
+            raise ValueError(f"Expected {expected} features, got {rows.shape[1]}.")
+
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
         self._state = None
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..5746dab 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -131,7 +131,9 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_n_features(rows)
+        for x in rows:
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From b668a4d9e0243201a3d0673802bb0d842eb2e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 07/16] fix: fit validates its input before discarding the
 current state

---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index d0e838f..5bc73c7 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -75,11 +75,11 @@ class BaseOnlineCovariance:
 
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
-        self._state = None
-        self._prev_x = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
+        self._state = None
+        self._prev_x = None
         return self.partial_fit(arr)
 
     def _fitted_state(self) -> dict:
-- 
2.43.0


From 272d5e29e42d1d3435aee04406bf84afc4843472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 08/16] fix: DynamicUniverse does not evict the universe it
 just created

At max_universes a fresh universe was always the shortest-lived of the non-stale ones,
so names that entered then were never learned.
---
 precise/keyed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..eaac756 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -239,12 +239,14 @@ class DynamicUniverse(_KeyedAdapter):
         if x_keys not in [u.keys_set for u in self.states.values()]:
             fresh = _Universe(keys=x.keys(), factory=self._make)
             fresh.update(x)
-            self._add_universe(fresh)
-            if len(self.states) > self.max_universes:
+            # Make room before adding: a universe just created is always the shortest-lived, and
+            # would otherwise be evicted at once, so that its new names were never learned.
+            if self.states and len(self.states) >= self.max_universes:
                 victim = sorted(
                     self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)
                 )[0][0]
                 del self.states[victim]
+            self._add_universe(fresh)
         return self
 
     def _resolve_keys(self, keys) -> list[str]:
-- 
2.43.0


From 5027c0c1b526f362e422efbfbdee70909afa6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 09/16] fix: no deviation from a prior mean before the first
 observation

Diagonal, DCC, Factor, PartialMoments and Tyler took the first deviation from zero, so
their estimates depended on the location of the data.
---
 precise/dcc.py            | 5 +++--
 precise/diagonal.py       | 5 +++--
 precise/factor.py         | 3 ++-
 precise/partialmoments.py | 3 ++-
 precise/tyler.py          | 3 ++-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/precise/dcc.py b/precise/dcc.py
index e84fa52..9bc374d 100644
--- a/precise/dcc.py
+++ b/precise/dcc.py
@@ -42,10 +42,11 @@ class DCCCovariance(BaseOnlineCovariance):
         p = s["n_dim"]
         n = s["n_samples"] + 1
         r, rv, n_burn = s["r"], s["vol_r"], s["n_burn"]
-        dev = x - s["mean"]  # innovation about the prior mean
+        # There is no prior mean before the first observation, hence no deviation from it.
+        dev = x - s["mean"] if n > 1 else np.zeros(s["n_dim"])
 
         if n <= n_burn:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             h = s["h"] + (dev * dev - s["h"]) / n
         else:
             mean = (1 - rv) * s["mean"] + rv * x
diff --git a/precise/diagonal.py b/precise/diagonal.py
index e6c9fd3..0f4870a 100644
--- a/precise/diagonal.py
+++ b/precise/diagonal.py
@@ -37,10 +37,11 @@ class DiagonalCovariance(BaseOnlineCovariance):
 
     def _update_state(self, s: dict, x: np.ndarray) -> dict:
         n = s["n_samples"] + 1
-        dev = x - s["mean"]
+        # There is no prior mean before the first observation, hence no deviation from it.
+        dev = x - s["mean"] if n > 1 else np.zeros(s["n_dim"])
         sq = dev * dev
         if n <= s["n_burn"]:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             var = s["var"] + (sq - s["var"]) / n
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
diff --git a/precise/factor.py b/precise/factor.py
index e859784..c8e4808 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -45,7 +45,8 @@ class FactorCovariance(BaseOnlineCovariance):
         n = s["n_samples"] + 1
         r, k, n_burn = s["r"], s["k"], s["n_burn"]
 
-        dev = x - s["mean"]
+        # There is no prior mean before the first observation, hence no deviation from it.
+        dev = x - s["mean"] if n > 1 else np.zeros(s["n_dim"])
         sq = dev * dev
         if n <= n_burn:
             # Sample-mean learning rate / empirical accumulation while warming up.
diff --git a/precise/partialmoments.py b/precise/partialmoments.py
index 1884b50..bbc0f01 100644
--- a/precise/partialmoments.py
+++ b/precise/partialmoments.py
@@ -48,7 +48,8 @@ class PartialMomentsCovariance(BaseOnlineCovariance):
             mean = s["mean"] + (x - s["mean"]) / count
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        centered = x - s["mean"]
+        # There is no prior mean before the first observation, hence no deviation from it.
+        centered = x - s["mean"] if count > 1 else np.zeros(s["n_dim"])
 
         prev = np.asarray(s["quadrants"], dtype=float)
         quadrants = np.empty_like(prev)
diff --git a/precise/tyler.py b/precise/tyler.py
index e0952e7..b137814 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -49,7 +49,8 @@ class TylerCovariance(BaseOnlineCovariance):
         else:
             lr = s["r"]
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        dev = x - s["mean"]
+        # There is no prior mean before the first observation, hence no direction from it.
+        dev = x - s["mean"] if n > 1 else np.zeros(p)
         C = np.asarray(s["C"], dtype=float)
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         scatter = np.outer(dev, dev)
-- 
2.43.0


From 511d45670fa79330ba3f91b467a296fc53db0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 10/16] fix: ConditionalCovariance does not standardize by a
 missing or zero forecast

The default volatility model forecasts a zero variance after one observation, so the
second residual of every series was about 1e6 and the correlation close to one.
---
 precise/conditional.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/precise/conditional.py b/precise/conditional.py
index 5746dab..c498c4d 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -145,7 +145,10 @@ class ConditionalCovariance(BaseOnlineCovariance):
             # One-step-ahead standardization: use the forecast made before seeing x.
             m = np.array([vm.mean for vm in models])
             v = np.array([max(vm.variance, 1e-12) for vm in models])
-            eps = (x - m) / np.sqrt(v)
+            # Until a series has a non-degenerate forecast (none before the first observation, a zero
+            # variance after it) its residual cannot be standardized and carries no information.
+            known = (v > 1e-12) & (self._state["n_samples"] > 0)
+            eps = np.where(known, x - m, 0.0) / np.sqrt(v)
             self._corr_model.partial_fit(eps)
             for i, vm in enumerate(models):
                 vm.push(float(x[i]))
-- 
2.43.0


From 8ff81d20a7e1eae4b243f3ee65c64bdce3209f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 11/16] fix: constant-correlation target stays semi-definite
 when a variance is below the floor

---
 precise/shrunk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..ca714a9 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -50,10 +50,13 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
+            sd = np.sqrt(np.maximum(np.diag(S), 0.0))
+            d = np.maximum(sd, 1e-6)
             corr = S / np.outer(d, d)
             off = corr[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
-            target = rbar * np.outer(d, d)
+            # The actual, not the floored, deviations: else a (nearly) constant variable is given
+            # covariances larger than its variance allows and the target is not semi-definite.
+            target = rbar * np.outer(sd, sd)
             np.fill_diagonal(target, np.diag(S))  # preserve the variances
         return (1.0 - self.delta) * S + self.delta * target
-- 
2.43.0


From 715fdf791a7feb3061a98c9f9f1a2a72bc0bff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 12/16] fix: mahalanobis and score reject rows whose length
 differs from the stream's

---
 precise/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/precise/base.py b/precise/base.py
index 5bc73c7..afec557 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -121,6 +121,7 @@ class BaseOnlineCovariance:
         """Squared Mahalanobis distance of each row of ``X`` from ``location_``."""
         rows = as_rows(X)
         prec = self.precision_
+        self._check_n_features(rows)
         centered = rows - self.location_
         return np.einsum("ij,jk,ik->i", centered, prec, centered)
 
@@ -128,6 +129,7 @@ class BaseOnlineCovariance:
         """Mean Gaussian log-likelihood of the rows of ``X`` under the fitted estimate."""
         rows = as_rows(X)
         prec = self.precision_
+        self._check_n_features(rows)
         _, logdet = np.linalg.slogdet(prec)
         p = rows.shape[1]
         quad = self.mahalanobis(rows)
-- 
2.43.0


From 70c93afee9131f200b5a5973a7e1e323f972307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 13/16] fix: geodesic_step stays semi-definite and accurate for
 badly conditioned matrices

---
 precise/_linalg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 08fcf23..bf51a53 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -13,6 +13,7 @@ from __future__ import annotations
 import numpy as np
 
 EPS = 1e-12
+RTOL = 1e-10
 
 
 def to_symmetric(a: np.ndarray) -> np.ndarray:
@@ -101,13 +102,15 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     end = make_pos_def(end)
 
     evals_s, evecs_s = np.linalg.eigh(start)
-    evals_s = np.clip(evals_s, EPS, None)
+    # Bound the conditioning relative to the largest eigenvalue too: otherwise the inverse square
+    # root amplifies rounding without limit and the result is neither accurate nor definite.
+    evals_s = np.clip(evals_s, max(EPS, RTOL * np.max(evals_s)), None)
     start_sqrt = (evecs_s * np.sqrt(evals_s)) @ evecs_s.T
     start_inv_sqrt = (evecs_s * (1.0 / np.sqrt(evals_s))) @ evecs_s.T
 
     middle = to_symmetric(start_inv_sqrt @ end @ start_inv_sqrt)
     evals_m, evecs_m = np.linalg.eigh(middle)
     evals_m = np.clip(evals_m, 0.0, None) ** gamma
-    middle_power = (evecs_m * evals_m) @ evecs_m.T
-
-    return to_symmetric(start_sqrt @ middle_power @ start_sqrt)
+    # As a Gram matrix: semi-definite whatever the rounding in the factors.
+    root = (start_sqrt @ evecs_m) * np.sqrt(evals_m)
+    return to_symmetric(root @ root.T)
-- 
2.43.0


From d927098b3a21b382b2f8eb7ae86442cebe5b7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 14/16] fix: Tyler shape depends on the direction of the
 deviation only, however small it is

The quadratic form of the raw deviation was floored at 1e-12, so data of small scale
(deviations below about 1e-6) were underweighted and every correlation shrank to zero.
---
 precise/tyler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index b137814..5078a2d 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -52,10 +52,11 @@ class TylerCovariance(BaseOnlineCovariance):
         # There is no prior mean before the first observation, hence no direction from it.
         dev = x - s["mean"] if n > 1 else np.zeros(p)
         C = np.asarray(s["C"], dtype=float)
-        q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
-        scatter = np.outer(dev, dev)
-        if np.trace(scatter) > 0:  # a zero deviation has no direction to contribute
-            C = (1 - lr) * C + lr * p * scatter / q  # direction-only contribution
+        size = np.linalg.norm(dev)
+        if size > 0:  # a zero deviation has no direction to contribute
+            u = dev / size  # direction only, so that the floor on q never depends on the scale
+            q = max(float(u @ try_invert(C) @ u), 1e-12)  # Mahalanobis under the current shape
+            C = (1 - lr) * C + lr * p * np.outer(u, u) / q  # direction-only contribution
             C = p * C / np.trace(C)  # fix the scale: trace == p
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
-- 
2.43.0


From a8b8587dc9efd635993fb005d5251df06bfe3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 15/16] fix: nearest_pos_def terminates for matrices whose
 squared norm underflows

---
 precise/_linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index bf51a53..cce0431 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -49,7 +49,9 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
     if is_positive_def(a3):
         return a3
 
-    spacing = np.spacing(np.linalg.norm(a))
+    # The 1-norm: unlike the Frobenius norm it does not underflow to zero, which would leave the
+    # loop below without a step to take.
+    spacing = np.spacing(np.linalg.norm(a, 1))
     identity = np.eye(a.shape[0])
     k = 1
     while not is_positive_def(a3):
-- 
2.43.0


From 2b37bbfdced05b1027aa8ce5597d27d6c9fa3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 16/16] fix: estimators survive a covariance or shape matrix
 that underflows

The inverse of a numerically singular matrix overflowed without raising, and the state of the Huber,
adaptive and Tyler estimators became NaN for good.
---
 precise/_linalg.py  | 20 +++++++++++++++-----
 precise/adaptive.py |  4 ++--
 precise/huber.py    |  4 ++--
 precise/tyler.py    |  4 ++--
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index cce0431..5908199 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -82,12 +82,22 @@ def affine_shrink(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.nd
 def try_invert(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.ndarray:
     """Invert a matrix, falling back to pseudo-inverse then ridge+shrinkage."""
     try:
-        return np.linalg.inv(a)
+        inverse = np.linalg.inv(a)
+        if np.isfinite(inverse).all():  # an underflowing pivot overflows without raising
+            return inverse
     except np.linalg.LinAlgError:
-        try:
-            return np.linalg.pinv(a)
-        except np.linalg.LinAlgError:
-            return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
+        pass
+    try:
+        return np.linalg.pinv(a)
+    except np.linalg.LinAlgError:
+        return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
+
+
+def squared_mahalanobis(dev: np.ndarray, a: np.ndarray) -> float:
+    """Squared Mahalanobis distance of ``dev`` under ``a``; finite even where ``a`` underflows."""
+    with np.errstate(over="ignore", invalid="ignore"):
+        d2 = float(dev @ try_invert(a) @ dev)
+    return d2 if np.isfinite(d2) else float(np.finfo(float).max)
 
 
 def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarray:
diff --git a/precise/adaptive.py b/precise/adaptive.py
index 06d7672..f46f58a 100644
--- a/precise/adaptive.py
+++ b/precise/adaptive.py
@@ -10,7 +10,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._linalg import try_invert
+from precise._linalg import squared_mahalanobis
 from precise._state import emp_update, ewa_init
 from precise.base import BaseOnlineCovariance
 
@@ -51,7 +51,7 @@ class AdaptiveEwaCovariance(BaseOnlineCovariance):
         base = s["r"]
         dev = x - s["mean"]
         # Surprise = Mahalanobis distance under the current estimate; ~p when "as expected".
-        maha2 = float(dev @ try_invert(s["cov"]) @ dev)
+        maha2 = squared_mahalanobis(dev, s["cov"])
         ratio = maha2 / p if p > 0 else 1.0
         sbar = (1 - self._DETECT) * s["sbar"] + self._DETECT * ratio
         r_eff = min(max(base * sbar, base), s["max_r"])
diff --git a/precise/huber.py b/precise/huber.py
index c63444b..6b7e7b8 100644
--- a/precise/huber.py
+++ b/precise/huber.py
@@ -10,7 +10,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._linalg import try_invert
+from precise._linalg import squared_mahalanobis
 from precise._state import emp_update, ewa_init
 from precise.base import BaseOnlineCovariance
 
@@ -42,7 +42,7 @@ class HuberCovariance(BaseOnlineCovariance):
         p = s["n_dim"]
         delta = x - s["mean"]
         # Multivariate Huber weight from the Mahalanobis distance under the current estimate.
-        maha2 = float(delta @ try_invert(s["cov"]) @ delta)
+        maha2 = squared_mahalanobis(delta, s["cov"])
         threshold = (self.c**2) * p
         w = 1.0 if maha2 <= threshold else np.sqrt(threshold / maha2)
         weighted = w * delta
diff --git a/precise/tyler.py b/precise/tyler.py
index 5078a2d..d9c09c5 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -13,7 +13,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._linalg import cov_to_corrcoef, try_invert
+from precise._linalg import cov_to_corrcoef, squared_mahalanobis
 from precise._state import ewa_burn_n
 from precise.base import BaseOnlineCovariance
 
@@ -55,7 +55,7 @@ class TylerCovariance(BaseOnlineCovariance):
         size = np.linalg.norm(dev)
         if size > 0:  # a zero deviation has no direction to contribute
             u = dev / size  # direction only, so that the floor on q never depends on the scale
-            q = max(float(u @ try_invert(C) @ u), 1e-12)  # Mahalanobis under the current shape
+            q = max(squared_mahalanobis(u, C), 1e-12)  # Mahalanobis under the current shape
             C = (1 - lr) * C + lr * p * np.outer(u, u) / q  # direction-only contribution
             C = p * C / np.trace(C)  # fix the scale: trace == p
         return {
-- 
2.43.0

