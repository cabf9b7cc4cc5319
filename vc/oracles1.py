"""API-level cross-checks (bounded; also the replay engine) for C01..C15."""
from __future__ import annotations

import copy
import json
import pickle

import numpy as np

from .gen import (Fail, Gen, Ref, block_bounds, burn, close, cross_mask, floor_eig, mineig, need, outputs,
                  same_outputs, sym, FLAVORS)

CASES = {}


def case(pid, weight=1):
    def deco(f):
        CASES.setdefault(pid, []).append((f.__name__, f, weight))
        return f
    return deco


def feed(est, X, g=None):
    """Feed rows in random chunks."""
    i = 0
    while i < len(X):
        if g is None or g.coin(0.6):
            est.partial_fit(X[i].copy())
            i += 1
        else:
            k = g.int(1, 4)
            est.partial_fit(X[i:i + k].copy())
            i += k
    return est


def scale_of(X):
    return max(float(np.abs(X).max()) ** 2, 1e-300) if len(X) else 1.0


# ---------------------------------------------------------------- C01
@case("C01")
def psd_everywhere(g: Gen):
    p = g.int(1, 6)
    mk, desc = g.any_est(diff=None if g.coin(0.8) else False)
    flavor = FLAVORS[(g.index // 18) % len(FLAVORS)]
    X = g.stream(g.pick([1, 2, 3, 8, 25, 40]), p, flavor)
    e = mk()
    for t, x in enumerate(X):
        e.partial_fit(x)
        if t < 3 or t == len(X) - 1 or g.coin(0.3):
            c = e.covariance_
            need(c.shape == (p, p), "covariance_ has the wrong shape", est=desc, X=X[:t + 1])
            need(np.isfinite(c).all(), "covariance_ is not finite", est=desc, X=X[:t + 1], cov=c)
            need(np.array_equal(c, c.T), "covariance_ is not exactly symmetric", est=desc, X=X[:t + 1], cov=c)
            s = max(np.abs(c).max(), 1e-300)
            need(mineig(c) >= -1e-9 * s, "covariance_ has a negative eigenvalue", est=desc, X=X[:t + 1],
                 eig=mineig(c), cov=c)


# ---------------------------------------------------------------- C02
@case("C02")
def empirical_is_batch(g):
    p, n = g.int(1, 6), g.pick([1, 2, 3, 7, 30, 120])
    X = g.stream(n, p)
    e = g.P.EmpiricalCovariance()
    feed(e, X, g)
    c = X - X.mean(0)
    s = scale_of(X)
    need(e.n_samples_ == n, "n_samples_ is not the number of observations", X=X, n=e.n_samples_)
    need(close(e.location_, X.mean(0), np.sqrt(s)), "location_ is not the sample mean", X=X, got=e.location_)
    need(close(e.covariance_, c.T @ c / n, s), "covariance_ is not the population covariance", X=X, got=e.covariance_)
    perm = g.rng.permutation(n)
    e2 = feed(g.P.EmpiricalCovariance(), X[perm], g)
    need(close(e.covariance_, e2.covariance_, s) and close(e.location_, e2.location_, np.sqrt(s)),
         "the order of the observations matters", X=X, perm=perm)


# ---------------------------------------------------------------- C03
EWA_LIKE = ["EwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance",
            "SchurLedoitWolfCovariance", "SchurConditionalCovariance", "BlockCovariance"]


@case("C03")
def ewa_recursion(g):
    name = EWA_LIKE[g.index % len(EWA_LIKE)]
    cls = getattr(g.P, name)
    r = g.r_()
    q = {"r": r}
    p = g.int(1, 5)
    if name == "ShrunkCovariance":
        q["delta"] = 0.0
    if name.startswith("Schur") or name == "BlockCovariance":
        q["n_blocks"] = 1
    n = burn(r) + g.int(-2, 6)
    X = g.stream(max(n, 1), p, g.pick(["gauss", "offset", "mixed", "ints", "outlier"]))
    ref = Ref(r)
    e = cls(**q)
    for t, x in enumerate(X):
        e.partial_fit(x)
        ref.push(x)
        s = scale_of(X[:t + 1])
        need(close(e.location_, ref.m, np.sqrt(s)), f"{name}: location_ is not the burn-in average / r-weighted mean",
             q=q, X=X[:t + 1], got=e.location_, want=ref.m)
        if t >= 3 and t < burn(r) - 2 and g.coin(0.7):
            continue
        c = e.covariance_
        if name in ("EwaCovariance", "ShrunkCovariance"):
            need(close(c, ref.S, s), f"{name}: covariance is not the exponentially weighted recursion", q=q,
                 X=X[:t + 1], got=c, want=ref.S)
        elif name in ("LedoitWolfCovariance", "OASCovariance"):
            need(close(np.trace(c), np.trace(ref.S), s), f"{name}: total variance is not that of the recursion",
                 q=q, X=X[:t + 1], got=np.trace(c), want=np.trace(ref.S))
        elif name in ("SchurCovariance", "SchurLedoitWolfCovariance", "BlockCovariance"):
            need(close(c, floor_eig(ref.S, 1e-8), max(s, 1e-8), 1e-8),
                 f"{name} with one block is not the exponentially weighted covariance",
                 q=q, X=X[:t + 1], got=c, want=floor_eig(ref.S, 1e-8))
        else:
            if (np.diag(ref.S) < 1e-9 * s).any() or s < 1e-6:
                continue
            need(close(np.diag(c), np.diag(ref.S), s, 1e-6),
                 f"{name}: variances are not those of the recursion", q=q, X=X[:t + 1], got=np.diag(c),
                 want=np.diag(ref.S))


@case("C03", weight=0.15)
def ewa_burn_length(g):
    """The switch happens exactly after max(5, min(250, ceil(1/r))) observations."""
    r = g.pick([0.001, 0.003, 0.004, 0.0041, 0.01, 0.02, 0.19, 0.2, 0.21, 0.7, 1.0, 1 / 6, 1 / 9, 1 / 49])
    nb = burn(r)
    e = g.P.EwaCovariance(r=r)
    x = g.rng.standard_normal((nb + 2, 2))
    ref = Ref(r)
    for t in range(nb + 2):
        e.partial_fit(x[t])
        ref.push(x[t])
        if t >= nb - 2:
            need(close(e.covariance_, ref.S, 10.0) and close(e.location_, ref.m, 3.0),
                 "burn-in length is not max(5, min(250, ceil(1/r)))", r=r, t=t + 1, got=e.covariance_, want=ref.S)


# ---------------------------------------------------------------- C04
@case("C04")
def chunking(g):
    p = g.int(1, 5)
    mk, desc = g.any_est(diff=g.pick([None, True, False]))
    X = g.stream(g.pick([1, 2, 3, 6, 12, 30]), p)
    a, b, c = mk(), mk(), mk()
    for x in X:
        a.partial_fit(x)
    cuts = sorted(set(g.rng.integers(0, len(X) + 1, g.int(0, 4)).tolist()) | {0, len(X)})
    for i, j in zip(cuts, cuts[1:]):
        blk = X[i:j]
        if g.coin(0.3):
            blk = blk.tolist()
        elif g.coin(0.3):
            blk = np.asfortranarray(blk)
        elif g.coin(0.2):
            blk = np.repeat(blk, 2, axis=0)[::2]
        b.partial_fit(blk)
        if g.coin(0.15):
            b.partial_fit(np.empty((0, p)))
    # fit forgets
    if g.coin():
        pw = p if g.coin() else g.int(1, 5)
        c.partial_fit(g.stream(g.int(1, 9), pw))
    r = c.fit(X)
    need(r is c, "fit does not return the estimator", est=desc)
    oa = outputs(a)
    for what, o in (("batches", b), ("fit", c)):
        d = same_outputs(oa, outputs(o))
        need(d is None, f"row-by-row and {what} disagree: {d}", est=desc, X=X, cuts=cuts)
    Y = g.stream(3, p)
    for o in (a, b, c):
        o.partial_fit(Y)
    oa = outputs(a)
    for what, o in (("batches", b), ("fit", c)):
        d = same_outputs(oa, outputs(o))
        need(d is None, f"after continuing the stream, row-by-row and {what} disagree: {d}", est=desc, X=X, cuts=cuts)


# ---------------------------------------------------------------- C05
def clone_est(e):
    return type(e)(**e.get_params())


@case("C05")
def checkpoint(g):
    p = g.int(1, 5)
    mk, desc = g.any_est(diff=g.pick([None, True]))
    cond = desc.startswith("Conditional")
    e = mk()
    nb = 5
    if hasattr(e, "r"):
        nb = min(burn(e.r), 40)
    n0 = g.pick([0, 1, 2, 3, nb - 1, nb, nb + 1, nb + 4])
    m = g.pick([1, 2, 5, nb + 3])
    X = g.stream(n0 + m, p)
    if n0:
        feed(e, X[:n0], g)
    if n0 and g.coin(0.3):
        outputs(e)
    kind = "pickle" if cond or g.coin(0.35) else "json"
    if kind == "json":
        st = e.get_state()
        try:
            txt = json.dumps(st)
        except TypeError as ex:
            raise Fail(f"the state is not plain JSON data: {ex}", est=desc, n0=n0)
        back = json.loads(txt)
        need(_jsame(st, back), "a JSON round trip changes the state", est=desc, n0=n0, state=st)
        f = clone_est(e)
        ret = f.set_state(back if g.coin() else st)
        need(ret is f, "set_state does not return the estimator", est=desc)
    else:
        f = pickle.loads(pickle.dumps(e)) if g.coin(0.7) else copy.deepcopy(e)
    need(repr(f) == repr(e), "the restored estimator has other parameters", est=desc)
    d = same_outputs(outputs(e), outputs(f))
    need(d is None, f"right after the {kind} restore: {d}", est=desc, n0=n0, X=X[:n0])
    if kind == "json":
        need(_jsame(e.get_state(), f.get_state()), "the restored state differs", est=desc, n0=n0)
    step = g.int(1, 3)
    for i in range(n0, n0 + m, step):
        Y = X[i:i + step]
        e.partial_fit(Y)
        f.partial_fit(Y)
        d = same_outputs(outputs(e), outputs(f))
        need(d is None, f"continuing after the {kind} restore at n={n0}: {d}", est=desc, n0=n0, X=X, upto=i + step)
    if kind == "json":
        need(_jsame(e.get_state(), f.get_state()), "the states differ after continuing", est=desc, n0=n0)


def _jsame(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(_jsame(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_jsame(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b)) or a == b
    return a == b


# ---------------------------------------------------------------- C06
def scribble(v):
    if isinstance(v, np.ndarray):
        try:
            v[...] = 777.0
        except ValueError:
            pass
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        for i, x in enumerate(v):
            if isinstance(x, (int, float)):
                v[i] = 777
    elif isinstance(v, dict):
        for k, x in list(v.items()):
            scribble(x)
            if isinstance(x, (int, float)):
                v[k] = 777


@case("C06")
def no_aliasing(g):
    p = g.int(1, 4)
    mk, desc = g.any_est(diff=g.pick([None, True, True]))
    X = g.stream(g.pick([1, 2, 3, 8, 14]), p)
    a, b = mk(), mk()
    buf = np.empty(p)
    for i, x in enumerate(X):
        b.partial_fit(x.copy())
        form = g.int(0, 3)
        if form == 0:
            buf[:] = x
            a.partial_fit(buf)
            need(np.array_equal(buf, x), "partial_fit changed the caller's array", est=desc, x=x)
            buf[:] = 1e3
        elif form == 1:
            big = np.zeros((3, 2 * p))
            big[1, ::2] = x
            keep = big.copy()
            a.partial_fit(big[1, ::2] if g.coin() else big[1:2, ::2])
            need(np.array_equal(big, keep), "partial_fit changed the caller's array", est=desc, x=x)
            big[:] = -5.0
        elif form == 2:
            ro = x.copy()
            ro.setflags(write=False)
            a.partial_fit(ro)
        else:
            lst = [x.tolist()]
            a.partial_fit(lst)
            need(lst == [x.tolist()], "partial_fit changed the caller's list", est=desc, x=x)
            lst[0][0] = 1e3
        d = same_outputs(outputs(b), outputs(a))
        need(d is None, f"reusing the buffer changed the estimator: {d}", est=desc, X=X[:i + 1])


@case("C06")
def reads_are_pure(g):
    p = g.int(1, 4)
    mk, desc = g.any_est(diff=g.pick([None, True]))
    cond = desc.startswith("Conditional")
    X = g.stream(g.pick([1, 3, 8, 14, 30]), p, g.pick(["gauss", "offset", "ints", "constcol", "sparse", "const"]))
    a, b = mk(), mk()
    for i, x in enumerate(X):
        a.partial_fit(x)
        b.partial_fit(x)
        if a.n_samples_ < 1:
            continue
        vals = []
        Z = g.stream(2, p, "gauss")
        Zk = Z.copy()
        for rd in (lambda: a.covariance_, lambda: a.correlation_, lambda: a.location_, lambda: a.precision_,
                   lambda: a.mahalanobis(Z), lambda: a.score(Z), lambda: a.get_params(), lambda: repr(a),
                   lambda: a.get_precision()):
            if g.coin(0.6):
                try:
                    vals.append(rd())
                except np.linalg.LinAlgError:
                    pass
        need(np.array_equal(Z, Zk), "scoring changed its input", est=desc)
        if not cond and g.coin():
            vals.append(a.get_state())
        for v in vals:
            if not isinstance(v, dict) or "n_samples" in v:
                scribble(v)
        if not cond and g.coin(0.2):
            st = b.get_state()
            c = type(b)(**b.get_params()).set_state(st)
            scribble(st)
            b = c
        d = same_outputs(outputs(b), outputs(a))
        need(d is None, f"reading attributes or writing into returned values changed the estimator: {d}", est=desc,
             X=X[:i + 1])


@case("C06", weight=0.5)
def keyed_aliasing(g):
    P = g.P
    names = list("abcd")[: g.int(1, 4)]
    dyn = g.coin()
    a, b = P.keyed(P.EwaCovariance(r=0.3), dynamic=dyn), P.keyed(P.EwaCovariance(r=0.3), dynamic=dyn)
    for t in range(g.int(1, 10)):
        x = {k: g.u(-2, 2) for k in names if g.coin(0.85)} or {names[0]: 1.0}
        keep = dict(x)
        a.learn_one(x)
        need(x == keep, "learn_one changed the caller's dict", x=keep)
        b.learn_one(dict(keep))
        for k in list(x):
            x[k] = 1e4
        x["zz"] = 3.0
        m, ks = a.cov_array()
        scribble(m)
        ks.append("q")
        scribble(a.get_cov())
        scribble(a.get_corr())
        scribble(a.covariance_)
        ma, ka = a.cov_array()
        mb, kb = b.cov_array()
        need(ka == kb and close(ma, mb), "writing into results or reusing the dict changed the keyed estimator",
             dynamic=dyn, got=ma, want=mb, ka=ka, kb=kb)


# ---------------------------------------------------------------- C07
def leaves(v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, np.ndarray):
        base = v
        while base.base is not None and isinstance(base.base, np.ndarray):
            base = base.base
        if base.dtype == object:
            return sum(leaves(x, seen) for x in base.ravel())
        return max(v.size, base.size)
    if isinstance(v, (int, float, str, bytes, bool, type(None), np.generic)):
        return 1
    if id(v) in seen:
        return 0
    seen.add(id(v))
    if isinstance(v, dict):
        return sum(leaves(x, seen) for x in v.values())
    if isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ == "deque":
        return sum(leaves(x, seen) for x in v)
    if hasattr(v, "__dict__") and not isinstance(v, type) and not callable(v):
        return leaves(vars(v), seen)
    return 1


@case("C07")
def fixed_size(g):
    p = g.int(1, 6)
    diff = g.pick([None, True])
    mk, desc = g.any_est(diff=diff)
    e = mk()
    n = g.pick([60, 130, 320 if g.coin(0.3) else 90])
    X = g.stream(n, p)
    w = g.int(1, 40)
    e.partial_fit(X[:2])
    sizes = {2: leaves(e)}
    for i in range(2, n, w):
        e.partial_fit(X[i:i + w])
        sizes[min(i + w, n)] = leaves(e)
    mid = [s for t, s in sizes.items() if t >= n // 2]
    need(mid[-1] <= 6 * p * p + 40 * p + 80, "the state is larger than its dimension warrants", est=desc, p=p, n=n,
         size=mid[-1])
    ts = sorted(sizes)
    need(sizes[ts[-1]] <= sizes[ts[min(2, len(ts) - 1)]] + 4, "the state grows with the number of observations",
         est=desc, p=p, sizes=sizes)


@case("C07", weight=0.4)
def keyed_fixed_size(g):
    P = g.P
    names = [f"k{i}" for i in range(g.int(1, 5))]
    if g.coin():
        f = P.FixedUniverse(P.EwaCovariance(r=0.3))
        s = []
        f.update({k: g.u() for k in names})
        for t in range(80):
            f.update({k: g.u() for k in names if g.coin(0.8)} | ({f"n{t}": 1.0} if g.coin(0.2) else {}))
            s.append(leaves(f))
        need(s[-1] <= s[4] + 2, "a fixed universe grows with the stream", sizes=s)
    else:
        mu = g.int(1, 4)
        d = P.DynamicUniverse(P.EwaCovariance(r=0.3), max_universes=mu, max_staleness=g.int(0, 9))
        s = []
        for t in range(60):
            ks = [k for k in names if g.coin(0.6)] or names[:1]
            d.update({k: g.u() for k in ks})
            need(len(d.states) <= mu, "more estimators than max_universes", max_universes=mu, n=len(d.states))
            s.append(leaves(d))
        bound = mu * (3 * len(names) ** 2 + 6 * len(names) + 40) + 60
        need(max(s) <= bound, "a dynamic universe holds more than its bounded number of estimators", sizes=s,
             bound=bound)


# ---------------------------------------------------------------- C08
@case("C08")
def correlation(g):
    p = g.int(1, 5)
    mk, desc = g.any_est(diff=None)
    X = g.stream(g.pick([1, 2, 4, 9, 30]), p, FLAVORS[(g.index // 18) % len(FLAVORS)])
    e = feed(mk(), X, g)
    check_corr(e.covariance_, e.correlation_, est=desc, X=X)


def check_corr(c, r, **info):
    var = np.diag(c)
    need(r.shape == c.shape and np.isfinite(r).all(), "correlation_ is not a finite matrix", cov=c, corr=r, **info)
    need(close(r, r.T, 1.0, 1e-12), "correlation_ is not symmetric", cov=c, corr=r, **info)
    need((np.abs(r) <= 1 + 1e-8).all(), "a correlation is outside [-1, 1]", cov=c, corr=r, **info)
    ok = var > 1e-23
    need(np.allclose(np.diag(r)[ok], 1.0, rtol=0, atol=1e-9), "the diagonal of correlation_ is not one", cov=c, corr=r,
         **info)
    need(mineig(r) >= -1e-7, "correlation_ is not positive semi-definite", cov=c, corr=r, eig=mineig(r), **info)
    sd = np.sqrt(np.maximum(var, 0))
    ix = np.where(ok)[0]
    back = r * np.outer(sd, sd)
    for i in ix:
        for j in ix:
            need(abs(back[i, j] - c[i, j]) <= 1e-8 * sd[i] * sd[j], "correlation_ is not covariance_ rescaled",
                 cov=c, corr=r, **info)


@case("C08", weight=0.5)
def correlation_helper(g):
    p = g.int(1, 5)
    X = g.stream(g.int(1, 12), p) * 10 ** g.rng.uniform(-7, 3, p)
    c = sym(X.T @ X / len(X))
    from precise._linalg import cov_to_corrcoef
    k = c.copy()
    r = cov_to_corrcoef(c)
    need(np.array_equal(c, k), "cov_to_corrcoef changed its input", cov=k)
    check_corr(c, r)


# ---------------------------------------------------------------- C09
@case("C09")
def precision_consistency(g):
    p = g.int(1, 5)
    mk, desc = g.any_est("fast", diff=None)
    X = g.stream(g.int(p + 2, 40), p, g.pick(["gauss", "offset", "ints", "regime", "tiny", "huge"]))
    e = feed(mk(), X, g)
    c, m = e.covariance_, e.location_
    s = np.abs(c).max()
    if s < 1e-100 or mineig(c) < 1e-6 * s:
        return "skip"
    P_ = e.precision_
    # a computed inverse is accurate from one side; from the other the error grows with the square of the condition
    need(close(P_ @ c, np.eye(p), 1.0, 1e-7) or close(c @ P_, np.eye(p), 1.0, 1e-7), "precision_ is not the inverse of covariance_", est=desc, X=X, prec=P_,
         cov=c)
    need(close(P_, e.get_precision()), "get_precision differs from precision_", est=desc)
    Z = g.stream(g.int(1, 5), p, "gauss") * np.sqrt(s) + m
    if g.coin(0.2):
        Z[0] = m
    arg = Z[0] if g.coin(0.2) else Z
    Z2 = np.atleast_2d(arg)
    q = np.array([(z - m) @ np.linalg.solve(c, z - m) for z in Z2])
    got = e.mahalanobis(arg)
    need(np.shape(got) == (len(Z2),), "mahalanobis does not return one value per row", est=desc, got=got)
    need(close(got, q, max(q.max(), 1.0), 1e-6), "mahalanobis is not the quadratic form in the precision", est=desc,
         X=X, Z=Z2, got=got, want=q)
    need((got >= -1e-9).all(), "a Mahalanobis distance is negative", est=desc, X=X, Z=Z2, got=got)
    ll = np.mean([-0.5 * (p * np.log(2 * np.pi) + np.linalg.slogdet(c)[1] + qi) for qi in q])
    sc = e.score(arg)
    need(isinstance(sc, float) and close(sc, ll, max(abs(ll), np.abs(q).max(), 1.0), 1e-6),
         "score is not the mean Gaussian log-density", est=desc, X=X, Z=Z2, got=sc, want=ll)


@case("C09", weight=0.15)
def many_variables_any_unit(g):
    p = g.int(8, 40)
    P = g.P
    cls = g.pick([P.EmpiricalCovariance, P.EwaCovariance, P.LedoitWolfCovariance, P.OASCovariance, P.ShrunkCovariance, P.DiagonalCovariance,
                  P.BlockCovariance])
    q = g.params(cls)
    if "r" in q:
        q["r"] = g.pick([0.01, 0.015])
    X = g.stream(2 * p + 10, p, "gauss") * 10 ** g.u(-4, 9) * 10 ** g.rng.uniform(-0.5, 0.5, p)
    e = cls(**q).fit(X)
    c, m = e.covariance_, e.location_
    s = np.abs(c).max()
    if mineig(c) < 1e-7 * s:
        return "skip"
    desc = f"{cls.__name__}({q})"
    need(close(e.precision_ @ c, np.eye(p), 1.0, 1e-6) or close(c @ e.precision_, np.eye(p), 1.0, 1e-6), "precision_ is not the inverse of covariance_", est=desc, p=p, scale=s)
    Z = X[:3]
    d = Z - m
    w = np.einsum("ij,ij->i", d, np.linalg.solve(c, d.T).T)
    need(close(e.mahalanobis(Z), w, w.max(), 1e-6), "mahalanobis is not the quadratic form in the precision", est=desc, p=p, scale=s)
    ll = np.mean(-0.5 * (p * np.log(2 * np.pi) + np.linalg.slogdet(c)[1] + w))
    need(close(e.score(Z), ll, max(abs(ll), w.max()), 1e-6), "score is not the mean Gaussian log-density", est=desc, X=X, rows=Z,
         got=e.score(Z), want=ll)


@case("C09", weight=0.3)
def inversion_helper(g):
    from precise._linalg import try_invert
    p = g.int(1, 5)
    a = g.spd(p)
    k = a.copy()
    need(close(try_invert(a) @ a, np.eye(p), 1.0, 1e-6) or close(a @ try_invert(a), np.eye(p), 1.0, 1e-6), "try_invert is not the inverse", a=a, got=try_invert(a))
    need(np.array_equal(a, k), "try_invert changed its input")
    b = g.rng.integers(-2, 3, (p, p)).astype(float)
    try:
        w = np.linalg.inv(b)
    except np.linalg.LinAlgError:
        w = None
    got = try_invert(b)
    need(np.isfinite(got).all(), "try_invert is not finite", a=b)
    if w is not None:
        need(close(got, w, np.abs(w).max(), 1e-8), "try_invert differs from the plain inverse", a=b, got=got, want=w)
    z = np.zeros((p, p))
    need(np.isfinite(try_invert(z)).all(), "try_invert fails on the zero matrix", p=p)


# ---------------------------------------------------------------- C10
@case("C10")
def always_finite(g):
    p = g.int(1, 5)
    mk, desc = g.any_est(diff=g.pick([None, True]))
    flavor = FLAVORS[(g.index // 18) % len(FLAVORS)]
    X = g.stream(g.pick([1, 2, 3, 9, 30]), p, flavor)
    if g.coin(0.25):
        X = X * (g.rng.random((len(X), 1)) < 0.3)
    e = mk()
    for t, x in enumerate(X):
        try:
            with np.errstate(divide="raise", invalid="raise", over="raise"):
                e.partial_fit(x)
                if e.n_samples_ < 1:
                    continue
                if t < 4 or t == len(X) - 1 or g.coin(0.2):
                    vals = {"covariance_": e.covariance_, "correlation_": e.correlation_, "location_": e.location_}
                else:
                    continue
        except (FloatingPointError, ZeroDivisionError, np.linalg.LinAlgError, ValueError, IndexError) as ex:
            raise Fail(f"finite input raises {type(ex).__name__}: {ex}", est=desc, X=X[:t + 1])
        for k, v in vals.items():
            need(np.isfinite(v).all(), f"{k} is not finite", est=desc, X=X[:t + 1], got=v)


@case("C10", weight=0.4)
def long_bounded(g):
    """No unbounded state: bounded input keeps a bounded state."""
    p = g.int(1, 3)
    mk, desc = g.any_est("fast", diff=None)
    kind = g.pick(["const", "alternate", "sparse", "collinear", "smallint", "gauss"])
    X = np.clip(g.stream(150, p, kind), -1e3, 1e3)
    e = feed(mk(), X, g)
    b = max(np.abs(X).max(), 1e-6)
    c = e.covariance_
    need(np.isfinite(c).all() and np.abs(c).max() <= 1e3 * p * max(b * b, 1.0),
         "bounded input led to an unbounded state", est=desc, kind=kind, cov=c, bound=b)


# ---------------------------------------------------------------- C11
@case("C11")
def shrinkage(g):
    name = ["LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance"][g.index % 3]
    p = g.int(1, 5)
    r = g.r_()
    q = {"r": r}
    if name == "ShrunkCovariance":
        q["delta"] = g.pick([0.0, 1.0, 0.1, g.u()])
        q["target"] = g.pick(["constant_correlation", "identity"])
    X = g.stream(max(1, burn(r) + g.int(-3, 25)), p, g.pick(["gauss", "offset", "ints", "outlier", "regime", "constcol", "collinear"]))
    e = getattr(g.P, name)(**q)
    ref = Ref(r)
    pi = 0.0
    for t, x in enumerate(X):
        e.partial_fit(x)
        ref.push(x)
        if t >= burn(r):
            m0, S0 = ref.prev
            d = x - m0
            pi = (1 - r) * pi + r * ((np.outer(d, d) - S0) ** 2).sum() / p
        if t < len(X) - 1 and g.coin(0.7):
            continue
        S = ref.S
        s = scale_of(X[:t + 1])
        c = e.covariance_
        mu = np.trace(S) / p
        need(close(np.trace(c), np.trace(S), s), f"{name}: the total variance is not preserved", q=q, X=X[:t + 1],
             got=np.trace(c), want=np.trace(S))
        if name == "LedoitWolfCovariance":
            d2 = ((S - mu * np.eye(p)) ** 2).sum() / p
            if d2 <= 1e-14 * s * s or pi <= 0:
                a = 0.0
            else:
                a = min(pi * r, d2) / d2
            T = mu * np.eye(p)
        elif name == "OASCovariance":
            n = max(1 / r, 2.0)
            tr, tr2 = np.trace(S), (S * S).sum()
            num = (1 - 2 / p) * tr2 + tr * tr
            den = (n + 1 - 2 / p) * (tr2 - tr * tr / p)
            a = 1.0 if den <= 1e-14 * s * s else min(max(num / den, 0.0), 1.0)
            T = mu * np.eye(p)
        else:
            a = q["delta"]
            if q["target"] == "identity":
                T = mu * np.eye(p)
            else:
                sd = np.sqrt(np.maximum(np.diag(S), 0.0))
                fl = np.maximum(sd, 1e-6)
                R = S / np.outer(fl, fl)
                off = R[~np.eye(p, dtype=bool)]
                T = (off.mean() if off.size else 0.0) * np.outer(sd, sd)
                np.fill_diagonal(T, np.diag(S))
                need(close(np.diag(c), np.diag(S), s), "constant-correlation target: a variance changed", q=q,
                     X=X[:t + 1], got=np.diag(c), want=np.diag(S))
        want = (1 - a) * S + a * T
        need(close(c, want, s, 1e-7), f"{name}: covariance_ is not (1-a)S + aT with the documented intensity",
             q=q, X=X[:t + 1], got=c, want=want, a=a)


# ---------------------------------------------------------------- C12
@case("C12")
def schur_blocks(g):
    name = ["SchurCovariance", "SchurLedoitWolfCovariance", "BlockCovariance", "SchurConditionalCovariance"][g.index % 4]
    p = g.int(1, 8)
    r = g.r_()
    q = {"r": r, "n_blocks": g.int(1, 9)}
    if name == "SchurCovariance":
        q["gamma"] = g.pick([0.0, 1.0, g.u(), 0.5])
        q["interpolation"] = g.pick(["linear", "linear", "linear", "geodesic"])
    n = max(1, burn(r) + g.int(-3, 30))
    X = g.stream(n, p, g.pick(["gauss", "offset", "ints", "outlier", "regime", "constcol"]))
    e = feed(getattr(g.P, name)(**q), X, g)
    ref = Ref(r)
    for x in X:
        ref.push(x)
    S = ref.S
    s = max(scale_of(X), 1e-8)
    c = e.covariance_
    cross = cross_mask(p, q["n_blocks"])
    if name == "SchurConditionalCovariance":
        need(e.gamma_ is not None and 0 <= e.gamma_ <= 1, "gamma_ is outside [0, 1]", q=q, X=X, gamma=e.gamma_)
        if q["n_blocks"] == 1:
            d = np.sqrt(np.clip(np.diag(S), 1e-12, None))
            sd = np.maximum(np.sqrt(np.diag(S)), 1e-12)
            want = floor_eig(S / np.outer(sd, sd), 1e-8) * np.outer(d, d)
            need(close(c, want, s, 1e-6), "one block: not the plain correlation rescaled by the plain deviations", q=q,
                 X=X, got=c, want=want)
        return
    if name == "SchurLedoitWolfCovariance":
        gam = e.gamma_
        need(gam is not None and 0 <= gam <= 1, "gamma_ is outside [0, 1]", q=q, X=X, gamma=gam)
    elif name == "BlockCovariance":
        gam = 0.0
    else:
        gam = q["gamma"]
    if q.get("interpolation") == "geodesic":
        bd = np.where(cross, 0.0, S)
        if gam in (0.0, 1.0):
            want = floor_eig(bd if gam == 0 else S, 1e-8)
            if mineig(want) > 1e-6 * s:
                need(close(c, want, s, 1e-5), "geodesic end point is not the block-diagonal / full covariance", q=q, X=X,
                     got=c, want=want)
        return
    out = np.where(cross, gam * S, S)
    want = floor_eig(out, 1e-8)
    need(close(c, want, s, 1e-8), f"{name}: cross-block entries are not damped by one factor with blocks kept", q=q, X=X,
         gamma=gam, got=c, want=want)
    if name == "BlockCovariance":
        z = g.P.SchurCovariance(r=r, n_blocks=q["n_blocks"], gamma=0.0).fit(X).covariance_
        need(close(c, z, s, 1e-8), "Block is not Schur with gamma=0", q=q, X=X, got=c, want=z)
        need(not np.any(c[cross]), "Block has cross-block entries", q=q, X=X, got=c)


# ---------------------------------------------------------------- C13
def fitted(g, cls, q, p, n=None, flavor=None):
    n = n if n is not None else burn(q.get("r", 0.3)) + g.int(0, 20)
    X = g.stream(n, p, flavor or g.pick(["gauss", "offset", "ints", "regime"]))
    return feed(cls(**q), X, g), X


@case("C13")
def huber(g):
    r = g.pick([0.05, 0.1, 0.15, 0.2, 0.3, g.u(0.03, 0.3)])
    p = g.int(1, min(4, burn(r) - 2))
    q = {"r": r, "c": g.pick([2.5, 1.0, 0.3, g.u(0.1, 5)])}
    e, X = fitted(g, g.P.HuberCovariance, q, p)
    for _ in range(3):
        m0, S0 = e.location_, e.covariance_
        sc = np.abs(S0).max()
        if sc < 1e-100 or mineig(S0) < 1e-6 * sc:
            return "skip"
        x = m0 + g.rng.standard_normal(p) * np.sqrt(sc) * 10 ** g.u(-3, 5)
        if g.coin(0.1):
            x = m0.copy()
        d = x - m0
        mh = float(d @ np.linalg.solve(S0, d))
        e.partial_fit(x)
        m1, S1 = e.location_, e.covariance_
        st = m1 - m0
        info = dict(q=q, X=X, x=x, mean=m0, cov=S0, mean1=m1, cov1=S1)
        mv = float(st @ np.linalg.solve(S0, st))
        need(mv <= (r * q["c"]) ** 2 * p * (1 + 1e-6) + 1e-12, "one observation moved the mean by more than the bound", moved=mv, **info)
        w = 1.0 if mh <= q["c"] ** 2 * p else np.sqrt(q["c"] ** 2 * p / mh)
        tol = max(np.abs(x).max(), np.abs(m0).max(), 1e-300)
        need(close(st, r * w * d, tol, 1e-8), "the observation does not get the Huber weight", weight=w, **info)
        add = S1 - (1 - r) * S0
        need(close(add, r * w * w * np.outer(d, d), max(np.abs(S1).max(), 1e-300), 1e-7),
             "the covariance does not get r times the bounded outer product", weight=w, **info)


@case("C13", weight=0.2)
def huber_burn(g):
    r = g.pick([0.1, 0.2, 0.5])
    X = g.stream(g.int(1, burn(r)), 2, "gauss")
    e = feed(g.P.HuberCovariance(r=r), X, g)
    c = X - X.mean(0)
    need(close(e.covariance_, c.T @ c / len(X), scale_of(X)) and close(e.location_, X.mean(0), 10.0),
         "burn-in is not the plain average", r=r, X=X, got=e.covariance_)


# ---------------------------------------------------------------- C14
@case("C14")
def adaptive(g):
    r = g.pick([0.05, 0.1, 0.15, 0.2, 0.3, g.u(0.03, 0.3)])
    p = g.int(1, min(4, burn(r) - 2))
    q = {"r": r, "max_r": g.pick([0.5, 0.9, 1.0, r / 2, r, g.u(0.02, 1)])}
    nb = burn(r)
    X = g.stream(nb, p, g.pick(["gauss", "offset", "ints"]))
    e = g.P.AdaptiveEwaCovariance(**q)
    feed(e, X, g)
    sbar = 1.0
    seq = []
    for _ in range(g.int(1, 12)):
        m0, S0 = e.location_, e.covariance_
        sc = np.abs(S0).max()
        if sc < 1e-100 or mineig(S0) < 1e-6 * sc:
            return "skip"
        x = m0 + np.linalg.cholesky(S0) @ g.rng.standard_normal(p) * g.pick([0.1, 1.0, 1.0, 3.0, 10.0])
        d = x - m0
        seq.append(x)
        sbar = 0.9 * sbar + 0.1 * float(d @ np.linalg.solve(S0, d)) / p
        e.partial_fit(x)
        m1, S1 = e.location_, e.covariance_
        rho = min(max(r * sbar, r), q["max_r"])
        info = dict(q=q, X=X, seq=np.array(seq), sbar=sbar, rho=rho, m1=m1, S1=S1)
        tol = max(np.abs(x).max(), np.abs(m0).max())
        need(close(m1, (1 - rho) * m0 + rho * x, tol, 1e-7), "the mean does not move at the documented rate", **info)
        need(close(S1, (1 - rho) * S0 + rho * np.outer(d, d), max(np.abs(S1).max(), sc, tol * tol * 1e-3), 1e-7),
             "the covariance does not forget at the same rate as the mean", **info)
        dd = float(d @ d)
        if dd > 1e-6 * tol * tol:
            got = float((m1 - m0) @ d) / dd
            need(min(r, q["max_r"]) - 1e-6 <= got <= q["max_r"] + 1e-6, "the rate is outside [min(r,max_r), max_r]",
                 got=got, **info)


# ---------------------------------------------------------------- C15
@case("C15")
def tyler(g):
    r = g.pick([0.05, 0.1, 0.2, 0.3])
    p = g.int(1, 4)
    n = g.int(1, 40)
    X = g.stream(n, p, g.pick(["gauss", "offset", "ints", "outlier", "tiny"]))
    e = feed(g.P.TylerCovariance(r=r), X, g)
    c = e.covariance_
    need(close(np.diag(c), np.ones(p), 1.0, 1e-9) and (np.abs(c) <= 1 + 1e-9).all() and mineig(c) > -1e-9,
         "covariance_ is not a correlation matrix", r=r, X=X, got=c)
    st = e.get_state()
    if "C" in st:
        need(close(np.trace(np.array(st["C"])), p, p, 1e-9), "the trace of the shape is not the dimension", r=r, X=X,
             got=np.trace(np.array(st["C"])))
        if mineig(np.array(st["C"])) < 1e-6:
            return "skip"
    m = e.location_
    d = g.rng.standard_normal(p) * 10 ** g.u(-2, 2) * g.pick([1.0, np.abs(X).max() + 1e-3])
    t = 10 ** g.u(-2, 3)
    if g.coin(0.2):
        t = 10 ** g.u(-9, 9)
    if np.abs(m).max() > 1e6 * np.abs(d).max() * min(t, 1 / t, 1):
        return "skip"       # m + k d would lose the direction to rounding
    out = []
    for k in (1.0, t, 1.0 / t if t > 1 else t):
        f = clone_est(e).set_state(st)
        f.partial_fit(m + k * d)
        out.append((f.covariance_, np.array(f.get_state().get("C", f.covariance_))))
    tol = 1e-6
    for o in out[1:]:
        need(close(out[0][0], o[0], 1.0, tol) and close(out[0][1], o[1], float(p), tol),
             "rescaling the deviation changed the shape", r=r, X=X, d=d, t=t, a=out[0][1], b=o[1])
    for o in out:
        need(close(np.trace(o[1]), p, p, 1e-9), "the trace of the shape is not the dimension", r=r, X=X, d=d, t=t)
