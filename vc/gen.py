"""Concrete case generation shared by the API-level cross-checks and the replays."""
from __future__ import annotations

import math
import os
import sys

import numpy as np

REPO = os.environ.get("VC_REPO", "/repo")


class Fail(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg, self.data = msg, data


def load():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import precise

    assert precise.__file__.startswith(REPO), precise.__file__
    return precise


FLAVORS = ["gauss", "offset", "const", "dup", "sparse", "tiny", "huge", "mixed", "outlier", "ints",
           "constcol", "alternate", "regime", "smallint", "collinear", "sparsecol"]
NICE = ["gauss", "offset", "ints2", "regime", "corr"]


class Gen:
    def __init__(self, seed, P, tier="quick", index=0):
        self.rng = np.random.default_rng(seed)
        self.P = P
        self.tier = tier
        self.index = index

    # ---------------------------------------------------------------- scalars
    def int(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def pick(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def u(self, a=0.0, b=1.0):
        return float(self.rng.uniform(a, b))

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    # ---------------------------------------------------------------- streams
    def stream(self, n, p, flavor=None):
        r = self.rng
        f = flavor or self.pick(FLAVORS)
        A = r.standard_normal((p, p)) * 0.7 + np.eye(p)
        X = r.standard_normal((n, p)) @ A
        if f == "offset":
            X = X + r.standard_normal(p) * 10 ** r.uniform(0, 2)
        elif f == "const":
            X = np.tile(r.standard_normal(p) * 10 ** r.uniform(-3, 3), (n, 1))
            if r.random() < 0.3:
                X[-1] = r.standard_normal(p)
        elif f == "dup":
            if p > 1:
                X[:, r.integers(p)] = X[:, r.integers(p)]
        elif f == "collinear":
            X = np.outer(r.standard_normal(n), r.standard_normal(p))
        elif f == "sparse":
            X = X * (r.random((n, 1)) < 0.5)
        elif f == "sparsecol":
            X = X * (r.random((n, p)) < 0.4)
        elif f == "tiny":
            X = X * 10 ** r.uniform(-8, -5)
        elif f == "huge":
            X = X * 10 ** r.uniform(4, 6)
        elif f == "mixed":
            X = X * 10 ** r.uniform(-5, 4, p)
        elif f == "outlier":
            X = X * np.clip(np.abs(r.standard_cauchy((n, 1))), 0, 1e5)
        elif f in ("ints", "ints2"):
            X = np.round(X * 2)
        elif f == "smallint":
            X = r.integers(-1, 2, (n, p)).astype(float)
        elif f == "constcol":
            X[:, r.integers(p)] = r.choice([0.0, 3.0])
        elif f == "alternate":
            X = np.outer((-1.0) ** np.arange(n), r.standard_normal(p))
        elif f == "regime":
            X[n // 2:] *= 20
        return X

    # ---------------------------------------------------------------- estimators
    def r_(self, kind="any"):
        if kind == "fast":
            return self.pick([0.2, 0.25, 0.3, 0.21, 0.5, 1 / 3, 0.1])
        return self.pick([0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 0.9, 1.0, 1 / 3, 1 / 7, 0.15, self.u(0.02, 1)])

    def params(self, cls, kind="any"):
        n = cls.__name__
        q = {}
        if n not in ("EmpiricalCovariance", "ConditionalCovariance"):
            q["r"] = self.r_(kind)
        if n in ("BlockCovariance", "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance"):
            q["n_blocks"] = self.int(1, 6)
        if n == "SchurCovariance":
            q["gamma"] = self.pick([0.0, 1.0, 0.5, self.u()])
            q["interpolation"] = self.pick(["linear", "linear", "geodesic"])
        if n == "AdaptiveEwaCovariance":
            q["max_r"] = self.pick([0.5, 0.3, 1.0, 0.05, self.u(0.01, 1)])
        if n == "ShrunkCovariance":
            q["delta"] = self.pick([0.0, 1.0, 0.1, self.u()])
            q["target"] = self.pick(["constant_correlation", "identity"])
        if n == "HuberCovariance":
            q["c"] = self.pick([2.5, 1.0, 0.5, self.u(0.1, 4)])
        if n == "DCCCovariance":
            q["vol_r"] = self.pick([None, None, self.r_(kind)])
        if n == "FactorCovariance":
            q["k"] = self.int(1, 5)
        return q

    def classes(self, conditional=True):
        cs = list(self.P.all_estimators())
        if conditional:
            cs.append(self.P.ConditionalCovariance)
        return cs

    def make(self, cls, kind="any", diff=None, **over):
        """A fresh estimator of class cls with random parameters; returns (factory, description)."""
        P = self.P
        if cls.__name__ == "ConditionalCovariance":
            vols = [P.EwaCovariance, P.DiagonalCovariance, P.EmpiricalCovariance, P.HuberCovariance,
                    P.LedoitWolfCovariance]
            corrs = [P.EwaCovariance, P.LedoitWolfCovariance, P.TylerCovariance, P.EmpiricalCovariance,
                     P.ShrunkCovariance, P.FactorCovariance]
            vc, cc = self.pick(vols), self.pick(corrs)
            vp, cp = self.params(vc, kind), self.params(cc, kind)
            return (lambda: cls(vol=vc(**vp), corr=cc(**cp))), f"{cls.__name__}(vol={vc.__name__}({vp}), corr={cc.__name__}({cp}))"
        q = self.params(cls, kind)
        if diff is not None:
            q["diff"] = diff
        q.update(over)
        return (lambda: cls(**q)), f"{cls.__name__}({q})"

    def any_est(self, kind="any", diff=None, conditional=True):
        cs = self.classes(conditional)
        return self.make(cs[self.index % len(cs)], kind, diff)

    def spd(self, p, cond=None):
        q, _ = np.linalg.qr(self.rng.standard_normal((p, p)))
        e = 10 ** self.rng.uniform(0, np.log10(cond or 10 ** self.u(0.2, 3)), p)
        return sym((q * e) @ q.T)


def sym(a):
    return (a + a.T) / 2


def burn(r):
    return int(min(250, max(5, math.ceil(1.0 / r))))


def mineig(a):
    return float(np.linalg.eigvalsh(sym(a))[0])


def close(a, b, scale=None, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = scale if scale is not None else max(np.abs(a).max(), np.abs(b).max(), 1e-300)
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= tol * s)) and bool(np.isfinite(a).all() == np.isfinite(b).all())


def need(c, msg, **data):
    if not c:
        raise Fail(msg, **data)


def outputs(est, extra=()):
    if est.n_samples_ < 1:
        return {"n": 0}
    out = {"n": est.n_samples_, "loc": est.location_, "cov": est.covariance_, "corr": est.correlation_,
           "p": est.n_features_in_}
    for k in ("gamma_",):
        if hasattr(est, k):
            out[k] = getattr(est, k)
    for k in extra:
        out[k] = getattr(est, k)
    return out


def same_outputs(a, b, tol=1e-10):
    if set(a) != set(b):
        return f"keys differ: {sorted(a)} / {sorted(b)}"
    for k in a:
        if k in ("n", "p"):
            if a[k] != b[k]:
                return f"{k}: {a[k]} != {b[k]}"
        elif a[k] is None or b[k] is None:
            if a[k] is not b[k]:
                return f"{k}: {a[k]} != {b[k]}"
        elif not close(a[k], b[k], tol=tol):
            return f"{k} differs: {np.asarray(a[k]).tolist()} / {np.asarray(b[k]).tolist()}"
    return None


# ------------------------------------------------------------------ reference recursion (EWA)
class Ref:
    """Equal weights for the first burn(r) observations, then weight r.  The textbook recursion."""

    def __init__(self, r=None, burn_n=None):
        self.r = r
        self.nb = (burn(r) if burn_n is None else burn_n) if r is not None else 10 ** 12
        self.n = 0
        self.rows = []
        self.m = self.S = None
        self.prev = None

    def push(self, x):
        x = np.array(x, float)
        self.prev = (None if self.m is None else self.m.copy(), None if self.S is None else self.S.copy())
        if self.n < self.nb:
            self.rows.append(x)
            X = np.array(self.rows)
            self.m = X.mean(0)
            c = X - self.m
            self.S = c.T @ c / len(X)
        else:
            d = x - self.m
            self.m = (1 - self.r) * self.m + self.r * x
            self.S = (1 - self.r) * self.S + self.r * np.outer(d, d)
        self.n += 1
        return self


def block_bounds(p, nb):
    nb = min(max(1, nb), p)
    q, rem = divmod(p, nb)
    out, a = [], 0
    for i in range(nb):
        b = a + q + (1 if i < rem else 0)
        out.append((a, b))
        a = b
    return out


def cross_mask(p, nb):
    g = np.empty(p, int)
    for i, (a, b) in enumerate(block_bounds(p, nb)):
        g[a:b] = i
    return g[:, None] != g[None, :]


def floor_eig(a, eps):
    w, v = np.linalg.eigh(sym(a))
    return sym((v * np.maximum(w, eps)) @ v.T)
