"""API-level cross-checks (bounded; also the replay engine) for C16..C30."""
from __future__ import annotations

import importlib.util
import math
import os

import numpy as np

from .gen import (FLAVORS, REPO, Fail, Gen, Ref, burn, close, cross_mask, floor_eig, mineig, need, outputs,
                  same_outputs, sym)
from .known import known_findings
from .oracles1 import case, clone_est, feed, leaves, scale_of


# ---------------------------------------------------------------- C16
class Dist:
    def __init__(self, mean, std):
        self.mean, self.std = mean, std


def toy_skater(y, state):
    """A univariate skater: forecasts mean y/2 and standard deviation growing with |y|."""
    n = 0 if state is None else state["n"]
    return [Dist(0.5 * y, 0.1 + abs(y) / (n + 1.0)), Dist(99.0, 99.0)], {"n": n + 1}


def conditional_parts(g, scale=True):
    P = g.P
    vols = [P.EwaCovariance, P.DiagonalCovariance, P.EmpiricalCovariance, P.AdaptiveEwaCovariance]
    corrs = [P.EwaCovariance, P.LedoitWolfCovariance, P.TylerCovariance, P.EmpiricalCovariance, P.OASCovariance,
             P.FactorCovariance, P.SchurLedoitWolfCovariance]
    vc, cc = g.pick(vols), g.pick(corrs)
    return vc(**g.params(vc)), cc(**g.params(cc))


@case("C16")
def conditional(g):
    P = g.P
    p = g.int(1, 4)
    vol, corr = conditional_parts(g)
    use_sk = g.coin(0.25)
    volarg = P.from_skater(toy_skater) if use_sk else vol
    e = P.ConditionalCovariance(vol=volarg, corr=corr)
    rv, rc = repr(vol), repr(corr)
    X = g.stream(g.pick([1, 2, 4, 9, 25]), p, g.pick(["gauss", "offset", "ints", "constcol", "const", "regime", "mixed", "sparse"]))
    st = [None] * p
    ms, vs = np.zeros(p), np.ones(p)
    vm = [clone_est(vol) for _ in range(p)]
    cm = clone_est(corr)
    i = 0
    while i < len(X):
        k = g.int(1, 3)
        e.partial_fit(X[i:i + k] if k > 1 else X[i])
        for x in X[i:i + k]:
            v = np.maximum(vs, 1e-12)
            known = (v > 1e-12) & (cm.n_samples_ > 0)
            cm.partial_fit(np.where(known, x - ms, 0.0) / np.sqrt(v))
            for j in range(p):
                if use_sk:
                    ds, st[j] = toy_skater(float(x[j]), st[j])
                    ms[j], vs[j] = ds[0].mean, ds[0].std ** 2
                else:
                    vm[j].partial_fit(np.array([x[j]]))
                    ms[j], vs[j] = vm[j].location_[0], vm[j].covariance_[0, 0]
        i += k
        c = e.covariance_
        var = np.maximum(vs, 1e-12)
        d = np.sqrt(var)
        want = cm.correlation_ * np.outer(d, d)
        info = dict(vol="skater" if use_sk else rv, corr=rc, X=X[:i])
        need(close(c, want, max(np.abs(want).max(), 1e-12), 1e-8), "covariance_ is not D R D of the one-step-ahead composition", got=c, want=want, **info)
        need(close(e.location_, ms, max(np.abs(X[:i]).max(), 1e-12)), "location_ is not that of the volatility models", got=e.location_, want=ms, **info)
        need(e.n_samples_ == i if i <= len(X) else True, "n_samples_", **info) if i <= len(X) else None
        R = np.diag(cm.correlation_)
        need(close(np.diag(c), var * R, max(var.max(), 1e-12), 1e-8), "the diagonal is not the tracked variance", got=np.diag(c), want=var, **info)
    need(vol.n_samples_ == 0 and corr.n_samples_ == 0 and repr(vol) == rv and repr(corr) == rc,
         "a prototype was fitted or altered", vol=repr(vol), corr=repr(corr))
    e2 = P.ConditionalCovariance(vol=volarg, corr=corr).partial_fit(X[:1])
    need(vol.n_samples_ == 0 and corr.n_samples_ == 0 and e2.n_samples_ == 1, "a prototype was fitted")


@case("C16")
def dcc(g):
    r = g.r_()
    vr = g.pick([None, g.r_()])
    e = g.P.DCCCovariance(r=r, vol_r=vr)
    rv = r if vr is None else vr
    nb = burn(min(r, rv))
    p = g.int(1, 4)
    X = g.stream(g.int(1, min(nb, 40) + 12), p)
    m, h, Q = np.zeros(p), np.ones(p), np.eye(p)
    for t, x in enumerate(X):
        n = t + 1
        dev = x - m if n > 1 else np.zeros(p)
        if n <= nb:
            m = m + (x - m) / n
            h = h + (dev * dev - h) / n
        else:
            m = (1 - rv) * m + rv * x
            h = (1 - rv) * h + rv * dev * dev
        z = dev / np.sqrt(np.maximum(h, 1e-12))
        Q = Q + (np.outer(z, z) - Q) / n if n <= nb else (1 - r) * Q + r * np.outer(z, z)
        e.partial_fit(x)
        c = e.covariance_
        hf = np.maximum(h, 1e-12)
        dq = np.maximum(np.diag(Q), 1e-12)
        want = Q / np.sqrt(np.outer(dq, dq)) * np.sqrt(np.outer(hf, hf))
        need(close(c, want, max(np.abs(want).max(), 1e-12), 1e-8), "covariance_ is not D R D of the standardized residuals",
             r=r, vol_r=vr, X=X[:n], got=c, want=want)
        need(close(e.location_, m, max(np.abs(X[:n]).max(), 1e-300)), "location_ is not the running mean", r=r, vol_r=vr, X=X[:n])


# ---------------------------------------------------------------- C17
@case("C17")
def factor(g):
    p = g.int(1, 7)
    q = {"k": g.int(1, 4), "r": g.r_()}
    X = g.stream(g.pick([1, 2, 3, 5, 12, 40]), p)
    e = g.P.FactorCovariance(**q)
    k = min(q["k"], p)
    m, var = np.zeros(p), np.zeros(p)
    for t, x in enumerate(X):
        n = t + 1
        dev = x - m if n > 1 else np.zeros(p)
        if n <= k + 1:
            m = m + (x - m) / n
            var = var + (dev * dev - var) / n
        else:
            m = (1 - q["r"]) * m + q["r"] * x
            var = (1 - q["r"]) * var + q["r"] * dev * dev
        e.partial_fit(x)
        c = e.covariance_
        s = max(np.abs(c).max(), scale_of(X[:n]))
        info = dict(q=q, X=X[:n], cov=c)
        need((np.diag(c) >= var - 1e-9 * s).all(), "a diagonal entry is below the tracked variance", var=var, **info)
        need(mineig(c) >= -1e-9 * s, "covariance_ is not semi-definite", **info)
        st = e.get_state()
        if "V" in st and np.shape(st["V"]) == (k, p):
            V = np.array(st["V"])
            F = np.zeros((p, p))
            for v in V:
                nv = np.linalg.norm(v)
                if nv > 1e-12:
                    F += np.outer(v, v) / nv
            off = ~np.eye(p, dtype=bool)
            need(close(c[off], F[off], s), "off the diagonal something other than the factors contributes", V=V, **info)
            need(close(np.diag(c), np.maximum(var, np.diag(F)), s), "a diagonal entry is not the larger of variance and factor part", V=V, var=var, **info)
        if k == 1 and p >= 4:
            i, j, a, b = g.rng.permutation(p)[:4]
            need(abs(c[i, j] * c[a, b] - c[i, b] * c[a, j]) <= 1e-8 * s * s, "the off-diagonal part has rank above one", **info)


# ---------------------------------------------------------------- C18
@case("C18")
def partial_moments(g):
    p = g.int(1, 5)
    r = g.r_()
    X = g.stream(g.int(1, min(burn(r), 40) + 10), p)
    e = g.P.PartialMomentsCovariance(r=r)
    m, Q = np.zeros(p), np.zeros((4, p, p))
    nb = burn(r)
    tot = np.zeros((p, p))
    for t, x in enumerate(X):
        n = t + 1
        dev = x - m if n > 1 else np.zeros(p)
        if n <= nb:
            m = m + (x - m) / n
            tot = tot + (np.outer(dev, dev) - tot) / n
        else:
            m = (1 - r) * m + r * x
            tot = (1 - r) * tot + r * np.outer(dev, dev)
        e.partial_fit(x)
        s = scale_of(X[:n])
        info = dict(r=r, X=X[:n])
        st = e.get_state()
        need(close(e.location_, m, np.sqrt(s)), "location_ is not the running mean", **info)
        if "quadrants" in st and np.shape(st["quadrants"]) == (4, p, p):
            q = np.array(st["quadrants"])
            need((q[0] >= 0).all() and (q[3] >= 0).all() and (q[1] <= 0).all() and (q[2] <= 0).all(),
                 "a quadrant has the wrong sign", quadrants=q, **info)
            need(close(q[1], q[2].T, s), "the mixed quadrants are not transposes of each other", quadrants=q, **info)
            need(close(q.sum(0), tot, s), "the quadrants do not add up to the weighted outer products", quadrants=q,
                 want=tot, **info)
        if t < len(X) - 1 and g.coin(0.7):
            continue
        c = e.covariance_
        w = np.linalg.eigvalsh(tot)
        need(mineig(c) > -1e-12 * s, "covariance_ is not positive definite", cov=c, **info)
        need(close(c, floor_eig(tot, 0.0), s, 1e-7), "covariance_ is not the nearest positive definite matrix to the sum",
             got=c, want=tot, **info)


# ---------------------------------------------------------------- C19
def rand_sym(g, p):
    f = g.int(0, 6)
    a = g.rng.standard_normal((p, p)) * 10 ** g.u(-4, 4)
    if f == 0:
        return sym(a)
    if f == 1:
        return a
    if f == 2:
        return sym(a @ a.T)
    if f == 3:
        v = a[:, :1]
        return sym(v @ v.T)
    if f == 4:
        return np.zeros((p, p))
    if f == 5:
        return sym(np.round(g.rng.standard_normal((p, p)) * 1.5))
    return g.spd(p)


@case("C19")
def helpers(g):
    from precise import _linalg as L
    p = g.int(1, 5)
    a = rand_sym(g, p)
    keep = a.copy()
    s = max(np.abs(a).max(), 1e-8)
    b = L.to_symmetric(a)
    need(np.array_equal(b, b.T) and close(b, (keep + keep.T) / 2, s, 1e-14), "to_symmetric is not the symmetric part", a=keep, got=b)
    eps = g.pick([1e-8, 1e-8, 1e-3, 0.5, 1.0])
    m = L.make_pos_def(a) if eps == 1e-8 else L.make_pos_def(a, eps)
    need(np.array_equal(m, m.T) and mineig(m) >= eps - 1e-10 * max(s, eps), "make_pos_def leaves an eigenvalue below the floor", a=keep, eps=eps, got=m)
    need(close(m, floor_eig(b, eps), max(s, eps), 1e-9), "make_pos_def is not the eigenvalue floor", a=keep, eps=eps, got=m)
    n = L.nearest_pos_def(a)
    try:
        np.linalg.cholesky(n)
    except np.linalg.LinAlgError:
        raise Fail("nearest_pos_def is not positive definite", a=keep, got=n)
    need(np.array_equal(n, n.T), "nearest_pos_def is not symmetric", a=keep, got=n)
    need(close(n, floor_eig(b, 0.0), s, 1e-7), "nearest_pos_def is not the nearest semi-definite matrix", a=keep, got=n)
    if mineig(b) > 1e-9 * s:
        need(close(n, b, s, 1e-11), "nearest_pos_def changes a positive definite input", a=keep, got=n)
    need(L.is_positive_def(n) is True or L.is_positive_def(n) == True, "is_positive_def", a=n)  # noqa: E712
    need(not L.is_positive_def(b - (abs(mineig(b)) * 1.1 + s * 1e-3) * np.eye(p) * (1 if mineig(b) < 0 else 1) - max(mineig(b), 0) * np.eye(p)), "is_positive_def accepts an indefinite matrix", a=keep)
    c = sym(a @ a.T) / s
    if np.trace(c) > 0:
        phi, lm = g.pick([(1.01, 0.01), (1.5, 0.3), (1.0, 0.5)])
        kc = c.copy()
        h = L.affine_shrink(c, phi, lm)
        need(np.array_equal(c, kc), "affine_shrink changed its input", a=kc)
        need(mineig(h) > 0, "ridge shrinkage of a non-zero semi-definite matrix is not positive definite", a=kc, got=h)
        d = c + np.diag(np.diag(c)) * (phi - 1)
        need(close(h, (1 - lm) * d + lm * np.mean(np.diag(d)) * np.eye(p), np.abs(c).max(), 1e-9), "affine_shrink formula", a=kc, got=h)
    need(np.array_equal(a, keep), "a helper changed its input", a=keep)


@case("C19", weight=0.7)
def geodesic(g):
    from precise import _linalg as L
    p = g.int(1, 4)
    a, b = g.spd(p, 1e3), g.spd(p, 1e3)
    ka, kb = a.copy(), b.copy()
    t = g.pick([0.0, 1.0, g.u(), 0.5])
    z = L.geodesic_step(a, b, t)
    need(np.array_equal(a, ka) and np.array_equal(b, kb), "geodesic_step changed its input", a=ka, b=kb)
    need(close(z, z.T, 1.0, 0) and mineig(z) > 0, "geodesic_step is not symmetric positive definite", a=a, b=b, t=t, got=z)
    s = max(np.abs(a).max(), np.abs(b).max())
    if t == 0:
        need(close(z, a, s, 1e-7), "the geodesic does not start at the start", a=a, b=b, got=z)
    if t == 1:
        need(close(z, b, s, 1e-7), "the geodesic does not end at the end", a=a, b=b, got=z)
    # commuting matrices: entrywise geometric mean of eigenvalues
    w = np.exp(g.rng.standard_normal(p) * 2)
    v = np.exp(g.rng.standard_normal(p) * 2)
    z = L.geodesic_step(np.diag(w), np.diag(v), t)
    need(close(z, np.diag(w ** (1 - t) * v ** t), max(w.max(), v.max()), 1e-7), "the geodesic between diagonal matrices", w=w, v=v, t=t, got=z)


# ---------------------------------------------------------------- C20
@case("C20")
def fixed_universe(g):
    P = g.P
    names = [f"k{i}" for i in range(g.int(1, 5))]
    impute = g.pick(["ffill", "mean", "zero"])
    cls = g.pick([P.EwaCovariance, P.EmpiricalCovariance, P.LedoitWolfCovariance, P.HuberCovariance, P.DiagonalCovariance,
                  P.TylerCovariance])
    q = g.params(cls, "fast")
    proto = cls(**q)
    given = g.coin()
    kw = {"keys": list(names)} if given else {}
    as_class = g.coin(0.2)
    u = P.FixedUniverse(cls, impute=impute, **kw, **q) if as_class else (P.FixedUniverse(proto, impute=impute, **kw))
    if g.coin(0.2) and not as_class:
        u = P.keyed(proto, impute=impute, **kw)
    ref = cls(**q)
    keys = list(names) if given else None
    last = None
    log = []
    for t in range(g.int(1, 15)):
        ks = [k for k in names if g.coin(0.75)]
        if not ks and (keys is None):
            ks = names[:1]
        ks = [str(k) for k in g.rng.permutation(ks)]
        x = {k: round(g.u(-3, 3), 3) for k in ks}
        if g.coin(0.2) and keys is not None:
            x = {"new%d" % t: 9.0, **x}
        log.append(dict(x))
        if keys is None:
            keys = list(x)
        if last is None:
            last = {k: 0.0 for k in keys}
        y = []
        loc = ref.location_ if ref.n_samples_ else None
        for i, k in enumerate(keys):
            if k in x:
                y.append(x[k])
                last[k] = x[k]
            elif impute == "ffill":
                y.append(last[k])
            elif impute == "mean":
                y.append(loc[i] if loc is not None else last[k])
            else:
                y.append(0.0)
        ref.partial_fit(np.array(y))
        ret = (u.update if g.coin() else u.learn_one)(x)
        need(ret is u, "update does not return the universe")
        m, ko = u.cov_array()
        info = dict(est=f"{cls.__name__}({q})", impute=impute, given=given, log=list(log))
        need(list(ko) == keys, "the universe of names changed", got=ko, want=keys, **info)
        need(close(m, ref.covariance_), "the keyed stream is not the positional stream with imputation", got=m,
             want=ref.covariance_, **info)
        sub = [str(k) for k in g.rng.permutation(keys)][: g.int(1, len(keys))]
        ix = [keys.index(k) for k in sub]
        m2, k2 = u.cov_array(sub if g.coin() else tuple(sub))
        want = ref.covariance_[np.ix_(ix, ix)]
        need(list(k2) == sub and close(m2, want, max(np.abs(m).max(), 1e-300)), "the matrix is not permuted to the names asked for",
             keys=sub, got=m2, want=want, **info)
        need(close(u.get_cov(sub), want, max(np.abs(m).max(), 1e-300)), "get_cov is not permuted", keys=sub, **info)
        dd = u.covariance_
        need(set(dd) == set(keys) and all(abs(dd[a][b] - ref.covariance_[keys.index(a), keys.index(b)]) <= 1e-9 * max(np.abs(m).max(), 1e-300)
                                          for a in keys for b in keys), "covariance_ as a dict is wrong", got=dd, **info)
        cc = u.get_corr(sub)
        rc = ref.correlation_[np.ix_(ix, ix)].copy()
        np.fill_diagonal(rc, 1.0)
        need(close(cc, rc, 1.0, 1e-8), "get_corr is not the correlation in the order asked for", keys=sub, got=cc, want=rc, **info)
    need(proto.n_samples_ == 0 and proto.get_params() == cls(**q).get_params(), "the prototype was fitted", est=cls.__name__)


def _frames(u, m, keys, **info):
    """Every keyed form of the matrix m over all the names."""
    n = len(keys)
    corr = np.eye(n)
    d = np.sqrt(np.diag(m))
    for i in range(n):
        for j in range(n):
            if i != j and d[i] * d[j] > 1e-9:
                corr[i, j] = m[i, j] / (d[i] * d[j])
            elif i != j:
                corr[i, j] = np.nan          # a variance of (nearly) zero: no correlation to compare with
    for name, want in (("covariance_", m), ("covariance", m), ("correlation_", corr)):
        got = getattr(u, name)
        need(list(got) == keys and all(list(r) == keys for r in got.values()), f"{name} is not keyed by the names in order",
             got=got, **info)
        need(all(np.isnan(want[i, j]) or abs(got[a][b] - want[i, j]) <= 1e-8 * max(abs(want[i, j]), np.abs(m).max(), 1e-300)
                 for i, a in enumerate(keys) for j, b in enumerate(keys)), f"{name} is wrong", got=got, want=want, **info)
    import sys
    import types

    class Frame:
        def __init__(self, data=None, index=None, columns=None):
            self.data, self.index, self.columns = data, index, columns

    keep = sys.modules.get("pandas")
    sys.modules["pandas"] = types.SimpleNamespace(DataFrame=Frame)
    try:
        for ask in (None, keys[::-1]):
            f = u.to_frame() if ask is None else u.to_frame(ask)
            w = m if ask is None else m[::-1, ::-1]
            need(list(f.index) == (ask or keys) and list(f.columns) == (ask or keys) and close(f.data, w, max(np.abs(m).max(), 1e-300)),
                 "to_frame is not the matrix under its names", keys=ask, got=f.data, want=w, **info)
    finally:
        if keep is None:
            del sys.modules["pandas"]
        else:
            sys.modules["pandas"] = keep


@case("C20", weight=0.5)
def keyed_surface(g):
    P = g.P
    names = [f"k{i}" for i in range(g.int(1, 5))]
    passed = list(names)
    which = g.index % 3
    u = [lambda: P.FixedUniverse(keys=passed), lambda: P.keyed(keys=passed), lambda: P.FixedUniverse(P.EwaCovariance(), keys=passed)][which]()
    ref = P.EwaCovariance()
    passed.append("later")                   # the caller's list is his own
    log = [{k: round(g.u(-3, 3), 3) for k in g.rng.permutation(names).tolist()} for _ in range(g.int(1, 12))]
    if g.coin():
        need(u.learn_many(log) is u, "learn_many does not return the universe")
    else:
        for x in log:
            u.update(x)
    for x in log:
        ref.partial_fit(np.array([x[k] for k in names]))
    info = dict(log=log, which=which)
    m, ko = u.cov_array()
    need(list(ko) == names and close(m, ref.covariance_), "the keyed stream is not the positional stream", got=m, want=ref.covariance_, **info)
    ko.append("mine")
    m, ko = u.cov_array()
    need(list(ko) == names and m.shape == (len(names),) * 2, "the names changed when the caller changed his list", got=ko, **info)
    _frames(u, ref.covariance_, names, **info)


@case("C22", weight=0.5)
def dynamic_surface(g):
    P = g.P
    names = [f"k{i}" for i in range(g.int(1, 5))]
    u = P.DynamicUniverse() if g.coin() else P.keyed(dynamic=True)
    ref = P.EwaCovariance()
    order = g.rng.permutation(names).tolist()
    # enough observations for the matrix to be positive definite: the projection then returns it unchanged
    log = [{k: round(g.u(-3, 3), 3) for k in order} for _ in range(len(names) + g.int(3, 12))]
    if g.coin():
        need(u.learn_many(log) is u, "learn_many does not return the universe")
    else:
        for x in log:
            u.update(x)
    for x in log:
        ref.partial_fit(np.array([x[k] for k in order]))
    m = ref.covariance_
    if mineig(m) <= 1e-6 * np.abs(m).max():
        return "skip"
    got, ko = u.cov_array()
    need(list(ko) == order and close(got, m, np.abs(m).max(), 1e-9), "one key-set throughout is not the positional stream", got=got, want=m, log=log)
    ko.append("mine")
    u.x.pop("nothing", None)
    need(list(u.cov_array()[1]) == order, "the names changed when the caller changed his list", got=ko, log=log)
    _frames(u, m, order, log=log)


# ---------------------------------------------------------------- C21 / C22
class RefU:
    def __init__(self, keys, est):
        self.keys, self.est, self.stale, self.long = list(keys), est, 0, 0

    def feed(self, x):
        self.est.partial_fit(np.array([x[k] for k in self.keys], float))
        self.stale = 0
        self.long += 1


class RefDyn:
    def __init__(self, make, mu, ms):
        self.make, self.mu, self.ms, self.us = make, mu, ms, []

    def update(self, x):
        ks = set(x)
        for u in self.us:
            if set(u.keys) <= ks:
                u.feed(x)
            else:
                u.stale += 1
        self.us = [u for u in self.us if u.stale <= self.ms]
        if not any(set(u.keys) == ks for u in self.us):
            f = RefU(x, self.make())
            f.feed(x)
            if self.us and len(self.us) >= self.mu:
                v = sorted(self.us, key=lambda u: (-u.stale, u.long))[0]
                self.us.remove(v)
            self.us.append(f)

    def assemble(self, keys):
        n = len(keys)
        M = np.full((n, n), np.nan)
        tie = False
        for i in range(n):
            for j in range(i, n):
                cs = [u for u in self.us if keys[i] in u.keys and keys[j] in u.keys]
                if cs:
                    best = max((u.long, -u.stale) for u in cs)
                    top = [u for u in cs if (u.long, -u.stale) == best]
                    vals = [u.est.covariance_[u.keys.index(keys[i]), u.keys.index(keys[j])] for u in top]
                    if max(vals) - min(vals) > 1e-12 * max(abs(max(vals)), 1e-300):
                        tie = True
                    M[i, j] = M[j, i] = vals[0]
        off = M[~np.eye(n, dtype=bool)]
        off = off[~np.isnan(off)]
        fill = off.mean() if off.size else 0.0
        return np.where(np.isnan(M), fill, M), tie


def dyn_setup(g):
    P = g.P
    cls = g.pick([P.EwaCovariance, P.EmpiricalCovariance, P.LedoitWolfCovariance, P.DiagonalCovariance])
    q = g.params(cls, "fast")
    mu, ms = g.int(1, 5), g.pick([0, 1, 2, 3, 50, g.int(0, 10)])
    d = P.DynamicUniverse(cls(**q), max_universes=mu, max_staleness=ms)
    if g.coin(0.2):
        d = P.DynamicUniverse(cls, max_universes=mu, max_staleness=ms, **q)
    ref = RefDyn(lambda: cls(**q), mu, ms)
    return d, ref, f"DynamicUniverse({cls.__name__}({q}), max_universes={mu}, max_staleness={ms})"


def dyn_obs(g, names, prev):
    if prev and g.coin(0.35):
        ks = list(g.pick(prev))
        if g.coin(0.3):
            ks = list(dict.fromkeys(ks + [g.pick(names)]))
    else:
        ks = [k for k in names if g.coin(0.6)] or [names[0]]
    ks = [str(k) for k in g.rng.permutation(ks)]
    return {k: round(g.u(-3, 3), 3) for k in ks}


@case("C21")
def dynamic_bookkeeping(g):
    d, ref, desc = dyn_setup(g)
    names = [f"k{i}" for i in range(g.int(1, 5))]
    log, prev = [], []
    for t in range(g.int(1, 25)):
        x = dyn_obs(g, names, prev)
        prev.append(list(x))
        log.append(dict(x))
        ret = d.update(x) if g.coin() else d.learn_one(x)
        need(ret is d, "update does not return the universe")
        ref.update(x)
        info = dict(est=desc, log=list(log))
        us = list(d.states.values())
        need(len(us) <= max(d.max_universes, 1), "more key-sets than max_universes", n=len(us), **info)
        sets = [frozenset(u.keys) for u in us]
        need(len(set(sets)) == len(sets), "a key-set is held twice", sets=[sorted(s) for s in sets], **info)
        need(frozenset(x) in sets, "the key-set just observed is not held", sets=[sorted(s) for s in sets], **info)
        want = sorted((tuple(sorted(u.keys)), u.stale, u.long) for u in ref.us)
        got = sorted((tuple(sorted(u.keys)), u.staleness, u.longevity) for u in us)
        need(got == want, "the kept key-sets, staleness or longevity differ from the stated bookkeeping", got=got, want=want, **info)
        for u in us:
            w = next(v for v in ref.us if set(v.keys) == set(u.keys))
            need(u._est.n_samples_ == w.est.n_samples_, "a key-set absorbed an observation more or less than once",
                 keys=u.keys, got=u._est.n_samples_, want=w.est.n_samples_, **info)
            ix = [list(u.keys).index(k) for k in w.keys]
            need(close(u._est.location_[ix], w.est.location_) and close(u._est.covariance_[np.ix_(ix, ix)], w.est.covariance_),
                 "a key-set absorbed something else than its own columns", keys=u.keys, **info)


@case("C22")
def dynamic_assembly(g):
    d, ref, desc = dyn_setup(g)
    names = [f"k{i}" for i in range(g.int(1, 5))]
    log, prev = [], []
    for t in range(g.int(1, 25)):
        x = dyn_obs(g, names, prev)
        prev.append(list(x))
        log.append(dict(x))
        d.update(x)
        ref.update(x)
        if g.coin(0.6):
            continue
        want_keys = list(x) if g.coin(0.3) else None
        ask = want_keys
        if ask is None:
            ask = [str(k) for k in g.rng.permutation(names + ["never"] if g.coin(0.3) else names)][: g.int(1, len(names))]
        m, ko = d.cov_array(None if want_keys is not None else ask)
        info = dict(est=desc, log=list(log), keys=ask)
        need(list(ko) == list(ask), "the names are not in the order asked for", got=ko, **info)
        need(m.shape == (len(ask), len(ask)) and np.isfinite(m).all(), "not a finite square matrix", got=m, **info)
        need(np.array_equal(m, m.T), "the assembled matrix is not symmetric", got=m, **info)
        try:
            np.linalg.cholesky(m)
        except np.linalg.LinAlgError:
            raise Fail("the assembled matrix is not positive definite", got=m, **info)
        M, tie = ref.assemble(ask)
        if tie:
            continue
        s = max(np.abs(M).max(), 1e-300)
        need(close(m, floor_eig(M, 0.0), s, 1e-7), "the matrix is not the projection of the stated assembly", got=m, want=M, **info)
        if mineig(M) > 1e-9 * s:
            need(close(m, M, s, 1e-11), "a positive definite assembly is changed", got=m, want=M, **info)
        need(close(d.get_cov(ask), m, s), "get_cov differs from cov_array", **info)
        c = d.get_corr(ask)
        need(np.allclose(np.diag(c), 1.0) and (np.abs(c) <= 1 + 1e-8).all(), "get_corr is not a correlation", got=c, **info)


# ---------------------------------------------------------------- C23
def gll(cov, X):
    p = len(cov)
    ld = np.linalg.slogdet(cov)[1]
    return float(np.mean([-0.5 * (p * math.log(2 * math.pi) + ld + x @ np.linalg.solve(cov, x)) for x in X]))


@case("C23")
def assessors(g):
    from precise import assessment as A
    p = g.int(1, 7)
    cov = g.spd(p, 1e3)
    true = g.spd(p, 1e3)
    n = g.int(1, 12)
    X = g.rng.standard_normal((n, p)) @ np.linalg.cholesky(true).T
    kc, kx, kt = cov.copy(), X.copy(), true.copy()
    which = g.index % 7
    info = dict(cov=kc, X=kx)

    def eq(got, want, msg, **k):
        need(isinstance(got, float), "a score is not a float", got=repr(got))
        need(close(got, want, max(abs(want), 1.0), 1e-6), msg, got=got, want=want, **info, **k)

    if which == 0:
        eq(A.LogLikelihood().score(cov, X_test=X), gll(cov, X), "LogLikelihood is not the mean Gaussian log-density")
    elif which == 1:
        b = g.int(1, 9)
        want = sum(gll(cov[s:s + b, s:s + b], X[:, s:s + b]) for s in range(0, p, b))
        eq(A.BlockPseudoLikelihood(block_size=b).score(cov, X_test=X), want, "BlockPseudoLikelihood is not the sum over blocks", b=b)
        eq(A.BlockPseudoLikelihood(block_size=p).score(cov, X_test=X), gll(cov, X), "one block is not the full likelihood")
    elif which == 2:
        nb, gam = g.int(1, 8), g.pick([0.0, 1.0, g.u()])
        cr = cross_mask(p, nb)
        bd = np.where(cr, 0.0, cov)
        lin = np.where(cr, gam * cov, cov)
        eq(A.SchurLikelihood(gamma=gam, n_blocks=nb).score(cov, X_test=X), gll(lin, X), "SchurLikelihood (linear)", nb=nb, gamma=gam)
        ge = A.SchurLikelihood(gamma=gam, n_blocks=nb, interpolation="geodesic").score(cov, X_test=X)
        if gam == 0.0 or not cr.any():
            eq(ge, gll(bd, X), "SchurLikelihood (geodesic) at gamma=0", nb=nb)
        elif gam == 1.0:
            eq(ge, gll(cov, X), "SchurLikelihood (geodesic) at gamma=1", nb=nb)
        else:
            lb, Vb = np.linalg.eigh(bd)
            up, dn = (Vb * np.sqrt(lb)) @ Vb.T, (Vb / np.sqrt(lb)) @ Vb.T
            lm, Vm = np.linalg.eigh(dn @ cov @ dn)
            mid = up @ ((Vm * lm ** gam) @ Vm.T) @ up
            eq(ge, gll((mid + mid.T) / 2, X), "SchurLikelihood (geodesic) is not along the geodesic", nb=nb, gamma=gam)
        if not cr.any():
            eq(A.SchurLikelihood(gamma=gam, n_blocks=nb).score(cov, X_test=X), gll(cov, X), "nothing to damp", nb=nb)
        else:
            dd = np.diag(np.diag(cov))
            eq(A.SchurLikelihood(gamma=gam, n_blocks=nb, interpolation=g.pick(["linear", "geodesic"])).score(dd, X_test=X), gll(dd, X), "a diagonal estimate has nothing to damp")
    elif which == 3:
        X = g.rng.standard_normal((p + 2 + g.int(0, 10), p)) @ np.linalg.cholesky(true).T
        kx = X.copy()
        c = X - X.mean(0)
        S = c.T @ c / len(X)
        M = np.linalg.solve(cov, S)
        want = -(np.trace(M) - np.linalg.slogdet(M)[1] - p)
        eq(A.SteinLoss().score(cov, X_test=X), want, "SteinLoss")
        need(A.SteinLoss().score(S, X_test=X) > -1e-6, "SteinLoss is not zero at the sample covariance", X=X)
    elif which == 4:
        eq(A.FrobeniusToTruth().score(cov, true_cov=true), -np.sqrt(((cov - true) ** 2).sum() / (true ** 2).sum()), "FrobeniusToTruth", true=true)
        need(A.FrobeniusToTruth().score(true, true_cov=true) == 0, "FrobeniusToTruth is not zero at the truth", true=true)
        need(A.FrobeniusToTruth().score(cov, true_cov=true) < 0, "FrobeniusToTruth is zero away from the truth", true=true, cov=cov)
    elif which == 5:
        w = np.linalg.solve(cov, np.ones(p))
        w = w / w.sum()
        eq(A.GMVVariance().score(cov, X_test=X), -np.mean((X @ w) ** 2), "GMVVariance")
        eq(A.GMVVariance().score(cov * 10 ** g.u(-3, 3), X_test=X), -np.mean((X @ w) ** 2), "GMVVariance is not scale free")
    else:
        tot = 0.0
        for x in X:
            for i in range(p):
                for j in range(p):
                    v = max(cov[i, i] + cov[j, j] - 2 * cov[i, j], 0.0)
                    tot += (abs(x[i] - x[j]) - math.sqrt(2 / math.pi * v)) ** 2
        eq(A.VariogramScore().score(cov, X_test=X), -tot / n, "VariogramScore")
    need(np.array_equal(cov, kc) and np.array_equal(X, kx) and np.array_equal(true, kt), "an assessor changed its input", which=which)
    for a in A.all_assessors():
        need(type(A.assessor_from_name(a.name)) is type(a), "assessor_from_name", name=a.name)
        for hd in (False, True):
            for ht in (False, True):
                nd = not isinstance(a, A.FrobeniusToTruth)
                need(a.usable(have_data=hd, have_truth=ht) == (hd if nd else ht), "usable()", name=a.name)


# ---------------------------------------------------------------- C24
@case("C24")
def recommender(g):
    P = g.P
    n, p = g.pick([1, 2, 3, 10, 60, 200]), g.pick([1, 1, 2, 3, 8, 20])
    X = g.stream(n, p)
    if g.coin(0.1):
        X = X[0]
    keep = X.copy()
    f = P.covariance_features(X)
    R = np.atleast_2d(X)
    n, p = R.shape
    info = dict(X=X, features=f)
    need(all(np.isfinite(v) for v in f.values()), "a descriptor is not finite", **info)
    need(f["n"] == n and f["p"] == p and abs(f["p_over_n"] - p / n) < 1e-12, "n, p, p_over_n", **info)
    need(1 - 1e-9 <= f["effective_rank"] <= p * (1 + 1e-9), "effective rank outside [1, p]", **info)
    need(0 < f["sphericity"] <= 1 + 1e-9, "sphericity outside (0, 1]", **info)
    need(abs(f["sphericity"] - f["effective_rank"] / p) < 1e-9, "sphericity is not effective_rank / p", **info)
    need(f["condition_number"] >= 1, "condition number below one", **info)
    need(0 <= f["mean_abs_offdiag_corr"] <= 1 + 1e-9, "mean absolute correlation outside [0, 1]", **info)
    c = R - R.sum(0) / n
    S = c.T @ c / n
    v = np.maximum(np.diag(S), 1e-12)
    kurt = float(np.mean((c ** 4).sum(0) / n / v ** 2 - 3))
    need(close(f["avg_excess_kurtosis"], kurt, 1.0 + abs(kurt), 1e-6), "the excess kurtosis is not the mean of m4 / var^2 - 3", want=kurt, **info)
    corr = np.abs(S) / np.sqrt(np.outer(v, v))
    off = float(np.mean(corr[~np.eye(p, dtype=bool)])) if p > 1 else 0.0
    need(close(f["mean_abs_offdiag_corr"], off, 1.0, 1e-6), "mean absolute correlation", want=off, **info)
    e = np.maximum(np.linalg.eigvalsh(S), 1e-12)
    er = float(e.sum() ** 2 / (e * e).sum())
    need(close(f["effective_rank"], er, er, 1e-6), "effective rank is not the participation ratio", want=er, **info)
    if e.min() > 1e-7 * e.max() and e.min() > 1e-11:
        need(close(f["condition_number"], e.max() / e.min(), e.max() / e.min(), 1e-5), "condition number", want=float(e.max() / e.min()), **info)
    top = g.pick([1, 2, 3, 5, 17, 30])
    got = P.suggest(X, top=top)
    need(np.array_equal(X, keep), "suggest changed its input")
    allc = P.all_estimators()
    need(len(got) == min(top, len(allc)) and len(set(got)) == len(got) and all(c in allc for c in got),
         "suggest does not return top distinct registered classes", top=top, got=[c.__name__ for c in got], **info)
    want = ref_rank(P, f)[:top]
    need([c.__name__ for c in got] == want, "suggest is not ranked by the tree's vote and then the heuristic",
         top=top, got=[c.__name__ for c in got], want=want, **info)
    need([c.__name__ for c in P.suggest(X)] == ref_rank(P, f)[:3], "the default top is not 3", **info)


def ref_rank(P, f):
    import precise._recommender_model as M
    node = 0
    while M.FEATURE[node] != -2:
        i = M.FEATURE[node]
        z = (f[M.FEATURES[i]] - M.MEAN[i]) / M.STD[i]
        node = M.LEFT[node] if z <= M.THRESHOLD[node] else M.RIGHT[node]
    vote = dict(zip(M.CLASSES, M.VALUE[node]))
    names = [c.__name__ for c in P.all_estimators()]
    h = {k: 0.0 for k in names}
    if f["p_over_n"] > 0.25 or f["sphericity"] < 0.6 or f["condition_number"] > 50:
        for k in ("FactorCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance"):
            h[k] += 2.0
    else:
        for k in ("EmpiricalCovariance", "EwaCovariance"):
            h[k] += 2.0
    if f["avg_excess_kurtosis"] > 1:
        for k in ("HuberCovariance", "TylerCovariance"):
            h[k] += 1.5
    h["LedoitWolfCovariance"] += 0.5
    return sorted(names, key=lambda k: (-vote.get(k, 0), -h[k]))


@case("C24", weight=0.05)
def tree_structure(g):
    import precise._recommender_model as M
    P = g.P
    names = set(P.estimator_names())
    need(set(M.CLASSES) <= names and len(set(M.CLASSES)) == len(M.CLASSES), "the tree votes over unregistered estimators")
    need(len(M.FEATURES) == len(M.MEAN) == len(M.STD) and all(s > 0 for s in M.STD), "feature standardization is malformed")
    N = len(M.FEATURE)
    need(len(M.LEFT) == len(M.RIGHT) == len(M.THRESHOLD) == len(M.VALUE) == N, "tree arrays have different lengths")
    seen, todo, silent = set(), [0], []
    while todo:
        k = todo.pop()
        need(0 <= k < N and k not in seen, "a path of the tree loops or leaves the tables", node=k)
        seen.add(k)
        if M.FEATURE[k] == -2:
            need(len(M.VALUE[k]) == len(M.CLASSES) and min(M.VALUE[k]) >= 0, "a leaf's votes are malformed", node=k)
            if not max(M.VALUE[k]) > 0:
                silent.append(k)
        else:
            need(0 <= M.FEATURE[k] < len(M.FEATURES), "an inner node tests an unknown feature", node=k)
            todo += [M.LEFT[k], M.RIGHT[k]]
    known = set()
    for f in known_findings("C24"):
        known |= set(f["voteless_leaves"])
    new = sorted(set(silent) - known)
    need(not new, "a leaf does not vote", nodes=new)


# ---------------------------------------------------------------- C25
class Tok:
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"Tok{self.i}"


@case("C25")
def parameters(g):
    P = g.P
    import inspect
    import copy
    import pickle
    cs = g.classes()
    cls = cs[g.index % len(cs)]
    names = [k for k in inspect.signature(cls.__init__).parameters if k != "self"]
    vals = {}
    for i, k in enumerate(names):
        vals[k] = g.pick([Tok(i), None, -3, 0, 2.5, "x", 1e-300, (1, 2), np.float64(0.3), True, float("inf")])
        if cls.__name__ == "ConditionalCovariance":
            vals[k] = Tok(i)
    e = cls(**vals)
    got = e.get_params()
    info = dict(cls=cls.__name__, params={k: repr(v) for k, v in vals.items()}, got={k: repr(v) for k, v in got.items()})
    need(list(got) == names and all(got[k] is vals[k] for k in names), "get_params does not return the constructor arguments unmodified", **info)
    need(all(e.get_params(deep=d)[k] is vals[k] for d in (True, False) for k in names), "get_params(deep=)", **info)
    f = cls(**got)
    need(all(f.get_params()[k] is vals[k] for k in names) and f.n_samples_ == 0, "rebuilding from get_params changes a parameter", **info)
    for k, v in vals.items():
        need(f"{v!r}" in repr(e) and k in repr(e), "the representation does not show a parameter", param=k, repr=repr(e), **info)
    need(repr(e).startswith(cls.__name__ + "("), "the representation does not name the class", repr=repr(e), **info)
    sub = [k for k in names if g.coin(0.4)]
    new = {k: Tok("n" + k) for k in sub}
    ret = e.set_params(**new)
    need(ret is e, "set_params does not return the estimator", **info)
    after = e.get_params()
    need(all(after[k] is (new[k] if k in new else vals[k]) for k in names), "set_params does not change exactly the named parameters",
         changed=sub, after={k: repr(v) for k, v in after.items()}, **info)
    # defaults, and clones of a fitted estimator
    d = cls()
    defaults = {k: p.default for k, p in inspect.signature(cls.__init__).parameters.items() if k != "self"}
    if cls.__name__ != "ConditionalCovariance":
        need(d.get_params() == defaults, "defaults are not reported", **info)
    mk, desc = g.make(cls)
    a = mk()
    pa = a.get_params()
    X = g.stream(g.int(1, 12), g.int(1, 3), "gauss")
    a.fit(X)
    a.covariance_
    need(list(a.get_params()) == list(pa) and all(a.get_params()[k] is pa[k] for k in pa), "fitting changed a parameter", est=desc)
    b = type(a)(**a.get_params())
    need(b.n_samples_ == 0 and repr(b) == repr(a), "a clone is not an unfitted copy of the configuration", est=desc)
    o = outputs(a)
    b.partial_fit(X + 1.0)
    need(same_outputs(o, outputs(a)) is None, "using a clone changed the original", est=desc)
    c = pickle.loads(pickle.dumps(a))
    need(repr(c) == repr(a), "pickling changes a parameter", est=desc)
    # an estimator nested in an estimator
    reg = P.all_estimators()
    need(P.estimator_names() == [c.__name__ for c in reg] and len(set(reg)) == len(reg), "the registry names disagree")
    for c in reg:
        need(P.estimator_from_name(c.__name__) is c and getattr(P, c.__name__) is c, "name lookup disagrees with the registry", name=c.__name__)
    for bad in ("", "Nope", "ewacovariance", "EwaCovarianc", "EwaCovariance ", "Covariance"):
        try:
            P.estimator_from_name(bad)
        except KeyError:
            continue
        raise Fail("an unknown name is accepted", name=bad)
    reg.clear()
    need(len(P.all_estimators()) >= 1, "the registry can be changed through the returned list")


# ---------------------------------------------------------------- C26
@case("C26")
def differencing(g):
    cls = g.P.all_estimators()[g.index % len(g.P.all_estimators())]
    q = g.params(cls)
    p = g.int(1, 4)
    X = g.stream(g.pick([1, 2, 3, 5, 12, 40]), p)
    a = cls(**q, diff=True)
    b = cls(**q, diff=False)
    for i in range(1, len(X)):
        b.partial_fit(X[i] - X[i - 1])
    if g.coin(0.3):
        a.partial_fit(g.stream(3, p))
        a.fit(X)
    else:
        feed(a, X, g)
    info = dict(est=f"{cls.__name__}({q})", X=X)
    need(a.n_samples_ == len(X) - 1, "the first row does more than set the level", n=a.n_samples_, **info)
    d = same_outputs(outputs(b), outputs(a))
    need(d is None, f"diff=True is not estimation on first differences: {d}", **info)
    Y = g.stream(g.int(1, 3), p)
    a.partial_fit(Y)
    prev = X[-1]
    for y in Y:
        b.partial_fit(y - prev)
        prev = y
    d = same_outputs(outputs(b), outputs(a))
    need(d is None, f"after continuing, diff=True is not estimation on first differences: {d}", Y=Y, **info)


# ---------------------------------------------------------------- C27
def deep(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, v.tobytes())
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [deep(x) for x in v]
    if hasattr(v, "__dict__") and not isinstance(v, type) and not callable(v):
        return (type(v).__name__, deep(vars(v)))
    return repr(v)


@case("C27")
def malformed(g):
    p = g.int(1, 4)
    mk, desc = g.any_est(diff=g.pick([None, True]))
    e = mk()
    n = g.pick([0, 0, 1, 2, 8])
    if n:
        e.partial_fit(g.stream(n, p))
    bad = [(3.0, "scalar"), (np.zeros((2, 2, 2)), "3d"), (np.float64(1), "scalar"), (np.zeros((1, 1, 1, 1)), "4d")]
    if n:
        for w in {1, p + 1, p - 1, 2 * p, p + 3} - {p, 0}:
            bad += [(np.ones(w), f"row of {w}"), (np.ones((2, w)), f"rows of {w}"), ([1.0] * w, f"list of {w}")]
        bad += [(np.ones((0, p + 1)), "empty batch of another width"), ([[1.0] * p, [1.0] * (p + 1)], "ragged rows")]
    bad += [("abc", "text"), ([["a"]], "text"), (None, "None") if False else ([[1.0], [1.0, 2.0]], "ragged")]
    if e.n_samples_:
        e.covariance_
    before = deep(e)
    for b, what in bad:
        try:
            e.partial_fit(b)
        except Exception:
            need(deep(e) == before, f"a rejected {what} changed the estimator", est=desc, n=n, p=p)
            continue
        raise Fail(f"{what} is accepted by partial_fit", est=desc, n=n, p=p)
    for b, what in [(3.0, "scalar"), (np.ones(p), "1d"), (np.ones((2, p, 1)), "3d"), ([1.0] * p, "1d list"), ("x", "text")]:
        try:
            e.fit(b)
        except Exception:
            need(deep(e) == before, f"fit rejecting {what} changed the estimator", est=desc, n=n, p=p)
            continue
        raise Fail(f"fit accepts {what}", est=desc, n=n, p=p)
    if e.n_samples_ == 0:
        from precise.base import NotFittedError
        for k in ("location_", "covariance_", "correlation_", "precision_", "mahalanobis", "score", "get_precision"):
            try:
                v = getattr(e, k)
                if callable(v):
                    v() if k == "get_precision" else v(np.zeros((1, p)))
            except NotFittedError:
                continue
            except Exception as ex:
                raise Fail(f"{k} before any data raises {type(ex).__name__}, not NotFittedError", est=desc, n=n)
            raise Fail(f"{k} before any data does not raise", est=desc, n=n)
    elif mineig(e.covariance_) > 1e-9 * np.abs(e.covariance_).max():
        for w in {1, p + 1, 2 * p} - {p}:
            for f in (e.mahalanobis, e.score):
                try:
                    f(np.ones((2, w)))
                except Exception:
                    continue
                raise Fail(f"{f.__name__} accepts rows of another length", est=desc, p=p, width=w)
        for f in (e.mahalanobis, e.score):
            try:
                f(np.ones((2, p, 1)))
            except Exception:
                continue
            raise Fail(f"{f.__name__} accepts a 3d array", est=desc, p=p)
    need(deep(e) == before, "a rejected call changed the estimator", est=desc)
    # and afterwards it works as if nothing had happened
    f = mk()
    if n:
        g2 = None
    X = g.stream(3, p)
    e.partial_fit(X)
    need(e.n_samples_ >= 2, "the estimator does not continue after a rejected input", est=desc)


# ---------------------------------------------------------------- C28
SCALE_OK = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "LedoitWolfCovariance",
            "OASCovariance", "ShrunkCovariance", "HuberCovariance", "DCCCovariance", "PartialMomentsCovariance", "TylerCovariance"]


ILL = ("AdaptiveEwaCovariance", "HuberCovariance", "TylerCovariance", "SchurConditionalCovariance",
       "GeodesicEwaCovariance", "ConditionalCovariance")


@case("C28")
def shift_scale(g):
    p = g.int(1, 3)
    mk, desc = g.any_est("fast", diff=None)
    e0 = mk()
    n = g.int(1, 30)
    X = g.stream(n, p, "gauss")
    name = type(e0).__name__
    if getattr(e0, "r", 0.1) is not None and getattr(e0, "r", 0.1) > 0.4 and name in ("AdaptiveEwaCovariance", "HuberCovariance", "TylerCovariance", "SchurConditionalCovariance"):
        return "skip"
    if name in ("ConditionalCovariance",):
        X = g.stream(n, p, "gauss")
    b = g.rng.standard_normal(p) * 3
    a = mk()
    for t, x in enumerate(X):
        a.partial_fit(x)
        if name in ILL and t >= 4 and t + 1 >= getattr(a, "n_burn", 0):
            c = a.covariance_
            if mineig(c) < 1e-5 * np.abs(c).max() and (name != "SchurConditionalCovariance" or t == n - 1):
                return "skip"
    s = feed(mk(), X + b)
    ca = a.covariance_
    sc = max(np.abs(ca).max(), 1e-3)
    tol = {"GeodesicEwaCovariance": 1e-2}.get(name, 1e-4 if name in ILL else 1e-6)
    need(close(ca, s.covariance_, sc, tol), "a shift of the data changes covariance_", est=desc, X=X, shift=b, got=s.covariance_, want=ca)
    need(close(a.location_ + b, s.location_, 10.0, 1e-8), "a shift of the data does not shift location_", est=desc, X=X, shift=b,
         got=s.location_, want=a.location_ + b)
    if name in SCALE_OK and n >= 4:
        k = g.pick([-1.0, 2.0, -0.5, 8.0, g.u(0.2, 30), -g.u(0.2, 30)])
        z = feed(mk(), X * k)
        if name == "TylerCovariance":
            need(close(z.covariance_, ca, 1.0, 1e-4), "rescaling the data changes Tyler's correlation", est=desc, X=X, k=k, got=z.covariance_, want=ca)
        elif name != "PartialMomentsCovariance" or mineig(ca) > 1e-6 * sc:
            need(close(z.covariance_, k * k * ca, k * k * sc, tol), "rescaling the data does not scale covariance_ by the square", est=desc, X=X, k=k,
                 got=z.covariance_, want=k * k * ca)
        need(close(z.location_, k * a.location_, 10.0 * abs(k), 1e-8), "rescaling the data does not rescale location_", est=desc, X=X, k=k)


@case("C28", weight=0.4)
def any_units(g):
    """Variables in units of their own, all of it rescaled over many orders of magnitude."""
    p = g.int(1, 4)
    cs = [c for c in g.classes() if c.__name__ in SCALE_OK]
    cls = cs[g.index % len(cs)]
    mk, desc = g.make(cls, "fast", None)
    if getattr(mk(), "r", 0.1) > 0.4 and cls.__name__ in ILL:
        return "skip"
    X = g.stream(g.int(p + 4, 40), p, g.pick(["gauss", "offset"])) * 10 ** g.rng.uniform(0, g.pick([0, 2, 4]), p)
    a, k = mk(), 10 ** g.u(0, 5) * g.pick([1, -1])
    for t, x in enumerate(X):
        a.partial_fit(x)
        if (cls.__name__ in ILL or cls.__name__ == "PartialMomentsCovariance") and t >= 4:
            if mineig(a.correlation_) < 1e-3 or cls.__name__ == "PartialMomentsCovariance" and mineig(a.covariance_) < 1e-6 * np.abs(a.covariance_).max():
                return "skip"
    z = feed(mk(), X * k)
    ca, cz = a.covariance_, z.covariance_
    if cls.__name__ == "TylerCovariance":
        want, unit = ca, 1.0
    else:
        want = k * k * ca
        sd = np.sqrt(np.maximum(np.diag(want), 1e-300))
        unit = np.outer(sd, sd)
    need(close(cz / unit, want / unit, 1.0, 1e-4 if cls.__name__ in ILL else 1e-6), "rescaling the data does not rescale covariance_", est=desc, X=X, k=k,
         got=cz, want=want)
    need(close(z.location_, k * a.location_, np.abs(X).max() * abs(k), 1e-9), "rescaling the data does not rescale location_", est=desc, X=X, k=k)


# ---------------------------------------------------------------- C29
@case("C29")
def location_hull(g):
    p = g.int(1, 4)
    mk, desc = g.any_est(diff=None)
    X = g.stream(g.pick([1, 3, 8, 30]), p)
    e = mk()
    prev = None
    for t, x in enumerate(X):
        e.partial_fit(x)
        m = e.location_
        tol = 1e-9 * max(np.abs(X[:t + 1]).max(), 1e-300)
        lo, hi = (x, x) if prev is None else (np.minimum(prev, x), np.maximum(prev, x))
        need((m >= lo - tol).all() and (m <= hi + tol).all(), "location_ left the segment between its previous value and the observation",
             est=desc, X=X[:t + 1], prev=prev, got=m)
        prev = m


# ---------------------------------------------------------------- C30
_mods = {}


def research(name):
    if name not in _mods:
        spec = importlib.util.spec_from_file_location("vc_" + name, os.path.join(REPO, "research", name + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]


@case("C30")
def closed_forms(g):
    G, L = research("schur_gamma_star"), research("schur_likelihood_theory")
    n = g.pick([3, 4, 5, 10, 100, g.int(3, 10 ** 5)])
    rho2 = g.pick([0.0, 1.0, g.u(), g.u(0, 1e-3), 1 - g.u(0, 1e-3)])
    v = G.gamma_star(n, rho2)
    info = dict(n=n, rho2=rho2, got=v)
    need(-1e-12 <= v <= 1 + 1e-12, "gamma_star is outside [0, 1]", **info)
    if 0 < rho2 < 1:
        a, b, s = 1.0, math.sqrt(rho2 / (1 - rho2)), 1.0
        vb = s / (a * (n - 2))

        def risk(t):
            return (b * b * (1 - t) ** 2 + t * t * vb) * a + s
        want = b * b / (b * b + vb)
        need(abs(v - want) <= 1e-9, "gamma_star is not the minimiser of the stated risk", want=want, **info)
        for d in (1e-3, -1e-3, 0.1, -0.1):
            need(risk(v) <= risk(v + d) + 1e-12 * risk(v), "gamma_star does not minimise the stated risk", **info)
        need(G.gamma_star(n + g.int(1, 50), rho2) >= v - 1e-12, "gamma_star decreases in the sample size", **info)
        need(G.gamma_star(n, min(1.0, rho2 + g.u(0, 0.2))) >= v - 1e-12, "gamma_star decreases in the coupling", **info)
    a, b, s, gm = 10 ** g.u(-2, 2), g.u(-3, 3), 10 ** g.u(-2, 2), g.pick([1.0, g.u(0.01, 1), g.u(0.3, 1)])
    A, C, D = L.closed_form_maximizer(a, b, s, gm)
    info = dict(a=a, b=b, s=s, gamma=gm, A=A, C=C, D=D)
    sc = max(abs(D), abs(C), a, 1.0)
    need(abs(A - a) <= 1e-9 * a and abs(gm * C / A - b) <= 1e-9 * max(1, abs(b)) and abs(D - gm * C * C / A - s) <= 1e-9 * sc,
         "the closed-form maximiser does not recover the true conditional law", **info)
    det = A * D - C * C
    margin = gm ** 2 * s - (1 - gm) * b * b * a
    if abs(margin) > 1e-9 * max(gm ** 2 * s, b * b * a):
        need(bool(L.spd_threshold_holds(a, b, s, gm)) == (det > 0), "the threshold is not positive-definiteness of the maximiser", det=det, **info)
    best = L.schur_loglik_population(a, b, s, gm, A, C, D)
    for _ in range(3):
        A2, C2, D2 = A * np.exp(g.u(-.3, .3)), C + g.u(-.3, .3) * (abs(C) + .1), D * np.exp(g.u(-.3, .3))
        need(L.schur_loglik_population(a, b, s, gm, A2, C2, D2) <= best + 1e-9 * max(1, abs(best)), "the closed form is not the maximiser", **info)
    r2 = g.pick([g.u(1e-3, 0.999), g.u(0, 1e-2) + 1e-6])
    root = L._solve_spd_threshold(r2)
    need(0 < root <= 1 + 1e-12 and abs(root ** 2 * (1 - r2) - (1 - root) * r2) <= 1e-9, "the threshold root", rho2=r2, got=root)
