"""Long histories and fitted prototypes (bounded API-level cases; never counted as proved)."""
from __future__ import annotations

import copy
import json
import pickle

import numpy as np

from .gen import FLAVORS, Fail, Ref, burn, close, mineig, need, outputs, same_outputs
from .oracles1 import case, feed, leaves, scale_of

LONG = [270, 520, 1030, 2060, 4200]


def tail(X, k=6):
    """What a replay file shows of a long stream."""
    return {"rows": len(X), "last": X[-k:]}


@case("C01", weight=0.1)
def psd_after_long_history(g):
    p = g.int(1, 4)
    mk, desc = g.any_est(diff=None)
    X = g.stream(g.pick(LONG[:4]), p, FLAVORS[(g.index // 18) % len(FLAVORS)])
    e = mk()
    for i in range(0, len(X), 97):
        e.partial_fit(X[i:i + 97])
        c = e.covariance_
        need(np.isfinite(c).all() and np.array_equal(c, c.T), "covariance_ is not finite and exactly symmetric", est=desc,
             X=tail(X[:i + 97]), cov=c)
        need(mineig(c) >= -1e-9 * max(np.abs(c).max(), 1e-300), "covariance_ has a negative eigenvalue", est=desc,
             X=tail(X[:i + 97]), cov=c)


@case("C02", weight=0.05)
def empirical_long(g):
    p, n = (1, 120000) if g.index == 0 else (g.int(1, 4), g.pick(LONG + [11000]))
    X = g.stream(n, p, g.pick(["gauss", "offset", "ints", "mixed"]))
    e = g.P.EmpiricalCovariance()
    k = g.pick([1, 64, 1000, n])
    for i in range(0, n, k):
        e.partial_fit(X[i:i + k])
    c = X - X.mean(0)
    s = scale_of(X)
    need(e.n_samples_ == n, "n_samples_ is not the number of observations", n=n, got=e.n_samples_)
    need(close(e.location_, X.mean(0), np.sqrt(s), 1e-8), "location_ is not the sample mean", n=n, p=p, got=e.location_,
         want=X.mean(0), X=tail(X))
    need(close(e.covariance_, c.T @ c / n, s, 1e-8), "covariance_ is not the population covariance", n=n, p=p,
         got=e.covariance_, want=c.T @ c / n, X=tail(X))


@case("C03", weight=0.1)
def ewa_long(g):
    p, n = g.int(1, 3), g.pick(LONG)
    r = g.pick([0.002, 0.01, 0.05, 0.3, 1.0, g.u(0.003, 1)])
    X = g.stream(n, p, g.pick(["gauss", "offset", "regime"]))
    e, ref, s = g.P.EwaCovariance(r=r), Ref(r), scale_of(X)
    marks = set(g.rng.integers(0, n, 5).tolist()) | {n - 1}
    for t, x in enumerate(X):
        e.partial_fit(x)
        ref.push(x)
        if t in marks:
            need(close(e.covariance_, ref.S, s, 1e-8) and close(e.location_, ref.m, np.sqrt(s), 1e-8),
                 "after a long history the estimate is not the recursion", r=r, t=t + 1, got=e.covariance_, want=ref.S)


@case("C04", weight=0.1)
def chunking_long(g):
    p, n = g.int(1, 3), g.pick(LONG)
    mk, desc = g.any_est(diff=g.pick([None, True]))
    X = g.stream(n, p, g.pick(["gauss", "offset", "regime"]))
    a, b, c = mk(), mk(), mk()
    for x in X:
        a.partial_fit(x)
    b.fit(X)
    k = g.int(0, n)
    c.partial_fit(X[:k])
    c.partial_fit(X[k:])
    for what, o in (("fit", b), ("two batches", c)):
        d = same_outputs(outputs(a), outputs(o))
        need(d is None, f"row-by-row and {what} disagree on a long stream: {d}", est=desc, n=n, cut=k, X=tail(X))


@case("C05", weight=0.1)
def checkpoint_after_long_history(g):
    p, n = g.int(1, 3), g.pick(LONG[:4])
    mk, desc = g.any_est(diff=g.pick([None, True]))
    e = mk()
    X = g.stream(n + 12, p, g.pick(["gauss", "offset", "regime", "outlier"]))
    for i in range(0, n, 251):
        e.partial_fit(X[i:min(i + 251, n)])
    if desc.startswith("Conditional") or g.coin():
        f = pickle.loads(pickle.dumps(e)) if g.coin() else copy.deepcopy(e)
    else:
        f = type(e)(**e.get_params()).set_state(json.loads(json.dumps(e.get_state())))
    for x in X[n:]:
        d = same_outputs(outputs(e), outputs(f))
        need(d is None, f"restored after {n} observations: {d}", est=desc, n=n, X=tail(X))
        e.partial_fit(x)
        f.partial_fit(x)
    d = same_outputs(outputs(e), outputs(f))
    need(d is None, f"restored after {n} observations and continued: {d}", est=desc, n=n, X=tail(X))


@case("C07", weight=0.1)
def fixed_size_long(g):
    p, n = g.int(1, 3), g.pick(LONG[2:])
    mk, desc = g.any_est(diff=g.pick([None, True]))
    e = mk()
    X = g.stream(n, p, g.pick(["gauss", "offset", "outlier", "sparse"]))
    sizes = {}
    for i in range(0, n, 128):
        e.partial_fit(X[i:i + 128])
        sizes[min(n, i + 128)] = leaves(e)
    need(max(sizes.values()) <= sizes[128] + 4, "the state grows with the number of observations", est=desc, p=p,
         sizes=dict(list(sizes.items())[:3] + list(sizes.items())[-3:]))


@case("C10", weight=0.1)
def finite_after_long_history(g):
    p, n = g.int(1, 3), g.pick(LONG[:4])
    mk, desc = g.any_est(diff=None)
    X = g.stream(n, p, FLAVORS[(g.index // 18) % len(FLAVORS)])
    X = np.vstack([X, np.zeros((g.pick([0, 60, 300, 1500]), p))])
    e = mk()
    try:
        for i in range(0, len(X), 61):
            e.partial_fit(X[i:i + 61])
            v = (e.covariance_, e.correlation_, e.location_)
            need(all(np.isfinite(q).all() for q in v), "an output is not finite", est=desc, X=tail(X[:i + 61]), got=v)
    except (FloatingPointError, ZeroDivisionError, np.linalg.LinAlgError, ValueError, IndexError) as ex:
        raise Fail(f"finite input raises {type(ex).__name__}: {ex}", est=desc, X=tail(X[:i + 61]))


@case("C26", weight=0.1)
def diff_long(g):
    p, n = g.int(1, 3), g.pick(LONG[:4])
    cs = g.classes(False)
    cls = cs[g.index % len(cs)]
    q = g.params(cls)
    X = g.stream(n, p, g.pick(["gauss", "offset", "regime"]))
    a, b = cls(**q, diff=True), cls(**q)
    a.fit(X[: n // 2])
    a.partial_fit(X[n // 2:])
    b.fit(np.diff(X, axis=0))
    d = same_outputs(outputs(a), outputs(b))
    need(d is None, f"diff=True is not the estimator of the differences: {d}", cls=cls.__name__, q=q, n=n, X=tail(X))


@case("C10", weight=0.15)
def extreme_scales(g):
    """Observations whose squares, or whose products of moments, leave the normal range downwards."""
    p = g.int(1, 4)
    mk, desc = g.any_est(diff=None)
    mode = ("all tiny", "tiny", "decay", "large", "mixed")[(g.index // 18) % 5]
    X = g.stream(g.pick([3, 30, 60]), p, g.pick(["gauss", "dup", "collinear", "constcol", "sparse", "ints"]))
    if mode == "decay":
        X = np.vstack([X, np.zeros((1200, p))])
    else:
        lo, hi = {"all tiny": (-170, -140), "tiny": (-90, -60), "large": (20, 60), "mixed": (-100, 30)}[mode]
        X = X * 10.0 ** g.rng.uniform(lo, hi, p if mode == "mixed" else 1)
    e = mk()
    try:
        for i in range(0, len(X), 7):
            e.partial_fit(X[i:i + 7])
            v = (e.covariance_, e.correlation_, e.location_)
            need(all(np.isfinite(q).all() for q in v), "an output is not finite", est=desc, mode=mode, X=tail(X[:i + 7]), got=v)
    except (FloatingPointError, ZeroDivisionError, np.linalg.LinAlgError, ValueError, IndexError) as ex:
        raise Fail(f"finite input raises {type(ex).__name__}: {ex}", est=desc, mode=mode, X=tail(X[:i + 7]))


@case("C10", weight=0.1)
def degenerate_forever(g):
    """A constant series, a duplicated column or a tight robustness cutoff, for a thousand observations and more."""
    p = g.int(2, 4)
    mk, desc = g.any_est("fast", diff=None)
    X = g.stream(g.pick([900, 1800, 3000]), p, g.pick(["constcol", "dup", "collinear", "gauss", "alternate"]))
    e = mk()
    for i in range(0, len(X), 50):
        e.partial_fit(X[i:i + 50])
        v = (e.covariance_, e.correlation_, e.location_)
        need(all(np.isfinite(q).all() for q in v), "an output is not finite", est=desc, X=tail(X[:i + 50]), got=v)


# ---------------------------------------------------------------- prototypes handed in already fitted
@case("C16", weight=0.3)
def fitted_prototypes(g):
    """vol and corr are prototypes: what they have seen before does not matter, and they are not touched."""
    P = g.P
    protos = [P.EwaCovariance, P.LedoitWolfCovariance, P.EmpiricalCovariance, P.HuberCovariance, P.DiagonalCovariance]
    vc, cc = g.pick(protos), g.pick(protos)
    vp, cp = g.params(vc), g.params(cc)
    p = g.int(1, 4)
    X = g.stream(g.pick([1, 3, 12, 40]), p, g.pick(["gauss", "offset", "mixed", "regime"]))
    vol, corr = vc(**vp), cc(**cp)
    # a prototype fitted on another stream (the volatility models see one series each)
    if g.coin(0.7):
        vol.fit(g.stream(g.int(1, 9), 1, "offset"))
    if g.coin(0.7):
        corr.fit(g.stream(g.int(1, 9), p, "offset"))
    a, b = P.ConditionalCovariance(vol=vol, corr=corr), P.ConditionalCovariance(vol=vc(**vp), corr=cc(**cp))
    before = outputs(vol), outputs(corr)
    for i, x in enumerate(X):
        a.partial_fit(x)
        b.partial_fit(x)
        d = same_outputs(outputs(b), outputs(a))
        need(d is None, f"what a prototype saw earlier leaks into the composite: {d}", vol=vc.__name__, corr=cc.__name__,
             vp=vp, cp=cp, X=X[:i + 1])
    after = outputs(vol), outputs(corr)
    for u, v in zip(before, after):
        d = same_outputs(u, v)
        need(d is None, f"fitting the composite changed its prototype: {d}", vol=vc.__name__, corr=cc.__name__, X=X)
    a.fit(X)
    d = same_outputs(outputs(b), outputs(a))
    need(d is None, f"refitting is not fitting anew: {d}", vol=vc.__name__, corr=cc.__name__, X=X)


@case("C25", weight=0.3)
def prototypes_unlearned(g):
    """Fitting a composite leaves the parameters it was built from as they were, and refitting starts from them."""
    P = g.P
    protos = [P.EwaCovariance, P.LedoitWolfCovariance, P.EmpiricalCovariance, P.HuberCovariance]
    vc, cc = g.pick(protos), g.pick(protos)
    p = g.int(1, 3)
    vol, corr = vc(**g.params(vc)), cc(**g.params(cc))
    e = P.ConditionalCovariance(vol=vol, corr=corr)
    before = repr(vol), repr(corr), vol.n_samples_, corr.n_samples_
    e.fit(g.stream(g.int(1, 20), p))
    q = e.get_params()
    need(q["vol"] is vol and q["corr"] is corr, "get_params does not return the prototypes", got=q)
    need((repr(vol), repr(corr), vol.n_samples_, corr.n_samples_) == before, "fitting the composite fitted its prototype",
         vol=repr(vol), corr=repr(corr))
    X = g.stream(g.int(1, 20), p)
    f = P.ConditionalCovariance(**q).fit(X)
    d = same_outputs(outputs(f), outputs(e.fit(X)))
    need(d is None, f"an estimator rebuilt from get_params differs: {d}", vol=repr(vol), corr=repr(corr), X=X)


# ---------------------------------------------------------------- C31: the recursions of the specialised estimators
def _run(g, e, X, steps, **info):
    """Feeds X and compares location_ and covariance_ with the reference generator after every observation."""
    for t, (x, (m, C)) in enumerate(zip(X, steps)):
        e.partial_fit(x)
        s = scale_of(X[:t + 1])
        need(e.n_samples_ == t + 1, "n_samples_ is not the number of observations", t=t + 1, X=X[:t + 1], **info)
        need(close(e.location_, m, np.sqrt(s), 1e-7), "location_ is not the documented recursion", X=X[:t + 1], got=e.location_,
             want=m, **info)
        if C is not None:
            need(close(e.covariance_, C, max(s, np.abs(C).max()), 1e-6), "covariance_ is not the documented recursion",
                 X=X[:t + 1], got=e.covariance_, want=C, **info)


def _moments(X, warm, r):
    """(mean before, mean, weight) of every observation: equal weights for ``warm`` observations, then r."""
    m = np.zeros(X.shape[1])
    for t, x in enumerate(X):
        w = 1.0 / (t + 1) if t < warm else r
        old, m = m, m + w * (x - m)
        yield (old if t else x), m, w


NICE31 = ["gauss", "offset", "regime", "ints", "sparse", "mixed", "outlier"]


@case("C31")
def locations(g):
    p = g.int(1, 5)
    P = g.P
    cls = g.pick([P.DiagonalCovariance, P.TylerCovariance, P.PartialMomentsCovariance, P.GeodesicEwaCovariance, P.DCCCovariance,
                  P.FactorCovariance])
    q = g.params(cls)
    r = q.get("vol_r") or q["r"]
    warm = min(q["k"], p) + 1 if "k" in q else burn(min(r, q["r"]))
    X = g.stream(g.pick([1, 3, 6, 12, min(warm + 12, 60)]), p, g.pick(NICE31))
    _run(g, cls(**q), X, [(m, None) for _, m, _ in _moments(X, warm, r)], cls=cls.__name__, q=q)


@case("C31")
def diagonal_recursion(g):
    p = g.int(1, 5)
    r = g.r_()
    X = g.stream(g.pick([1, 3, 8, min(burn(r) + 12, 60)]), p, g.pick(NICE31))
    v, out = np.zeros(p), []
    for old, m, w in _moments(X, burn(r), r):
        v = v + w * ((X[len(out)] - old) ** 2 - v)
        out.append((m, np.diag(v)))
    _run(g, g.P.DiagonalCovariance(r=r), X, out, r=r)


@case("C31")
def dcc_recursion(g):
    p = g.int(1, 4)
    r, rv = g.r_(), g.pick([None, g.r_()])
    a = r if rv is None else rv
    X = g.stream(g.pick([2, 3, 8, min(burn(min(r, a)) + 12, 60)]), p, g.pick(["gauss", "offset", "regime", "outlier"]))
    h, Q, out = np.ones(p), np.eye(p), []
    for old, m, w in _moments(X, burn(min(r, a)), a):
        n = len(out) + 1
        d = X[n - 1] - old
        h = h + w * (d * d - h)
        z = d / np.sqrt(np.maximum(h, 1e-12))
        Q = Q + (1.0 / n if n <= burn(min(r, a)) else r) * (np.outer(z, z) - Q)
        i = 1 / np.sqrt(np.maximum(np.diag(Q), 1e-12))
        s = np.sqrt(np.maximum(h, 1e-12))
        out.append((m, Q * np.outer(i, i) * np.outer(s, s)))
    _run(g, g.P.DCCCovariance(r=r, vol_r=rv), X, out, r=r, vol_r=rv)


@case("C31")
def factor_recursion(g):
    p = g.int(1, 6)
    q = {"k": g.int(1, 4), "r": g.r_()}
    k = min(q["k"], p)
    X = g.stream(g.pick([1, 3, 5, 12, 40]), p, g.pick(["gauss", "offset", "regime", "ints", "outlier"]))
    V, v, out = np.zeros((k, p)), np.zeros(p), []
    for old, m, w in _moments(X, k + 1, q["r"]):
        u = X[len(out)] - old
        v = v + w * (u * u - v)
        for j in range(k):
            size = np.linalg.norm(V[j])
            if 1e-14 < size < 1e-8:
                return "skip"          # rounding decides whether the direction is empty
            if size < 1e-12:
                V[j] = u
                break
            b = V[j] / size
            a = u @ b
            V[j] = (1 - w) * V[j] + w * a * u
            u = u - a * b
        F = sum((np.outer(b, b) / np.linalg.norm(b) for b in V if np.linalg.norm(b) > 1e-12), np.zeros((p, p)))
        out.append((m, F + np.diag(np.maximum(v - np.diag(F), 0))))
    _run(g, g.P.FactorCovariance(**q), X, out, q=q)


@case("C31")
def warm_up_is_empirical(g):
    p = g.int(1, 4)
    P = g.P
    cls = g.pick([P.HuberCovariance, P.AdaptiveEwaCovariance, P.GeodesicEwaCovariance])
    q = g.params(cls)
    n = g.pick([1, 2, 5, min(burn(q["r"]), 60)])
    X = g.stream(min(n, burn(q["r"])), p, g.pick(NICE31))
    out = [(X[:t + 1].mean(0), np.cov(X[:t + 1].T, bias=True).reshape(p, p)) for t in range(len(X))]
    _run(g, cls(**q), X, out, cls=cls.__name__, q=q)


@case("C31")
def geodesic_recursion(g):
    """The affine-invariant geodesic, written with eigenvalues, for states that are not ill-conditioned."""
    p = g.int(1, 3)
    r = g.pick([0.2, 0.25, 0.5, 1.0, 0.3, g.u(0.15, 1)])
    n0 = burn(r)
    X = g.stream(n0 + g.int(1, 4), p, g.pick(["gauss", "offset", "regime", "outlier"]))
    e = g.P.GeodesicEwaCovariance(r=r)
    e.fit(X[:n0])
    for t in range(n0, len(X)):
        A, m, x = e.covariance_, e.location_, X[t]
        w, U = np.linalg.eigh(A)
        if w[0] < 1e-4 * w[-1] or w[0] < 1e-6:
            return "skip"
        d = x - m
        lam, B = np.linalg.eigh(np.outer(d, d))
        B = (B * np.maximum(lam, 1e-8)) @ B.T
        R, Ri = (U * np.sqrt(w)) @ U.T, (U / np.sqrt(w)) @ U.T
        M = Ri @ B @ Ri
        k, V = np.linalg.eigh((M + M.T) / 2)
        spread = k[-1] / max(k[0], 1e-300)
        if spread > 1e11:
            return "skip"              # rounding decides the smallest eigenvalue
        want = R @ (V * np.maximum(k, 0) ** r) @ V.T @ R
        e.partial_fit(x)
        s = max(np.abs(A).max(), d @ d)
        need(close(e.covariance_, want, s, 1e-6 + 1e-15 * spread), "covariance_ is not the point at fraction r of the geodesic", r=r, X=X[:t + 1],
             got=e.covariance_, want=want)
        need(close(e.location_, m + r * (x - m), np.abs(X).max() + 1, 1e-9), "location_ is not the documented recursion", r=r,
             X=X[:t + 1], got=e.location_)
