"""C17: rank-k part plus a non-negative diagonal."""
from ..vcapi import Prover
from .est import on_new, on_state
from .lib import copy_val


def read(h, e, p):
    np = h.W.np
    s = e._state
    V, v = s["V"], s["var"]
    norm = np.sqrt(np.sum(V ** 2, axis=1))
    w = np.where(norm > 1e-12, 1 / norm, 0)
    F = V.T @ (V * w[:, None])          # rank at most k: a product through a k-dimensional space
    k = V.shape[0]
    h.ge("at most k directions", e.k - k)
    C = e.covariance_
    i, j = h.index(p), h.index(p)
    if i == j:
        h.ge("the diagonal is at least the tracked variance", C[i, i] - v[i])
        h.ge("the residual is not negative", C[i, i] - F[i, i])
        if F[i, i] <= v[i]:
            h.eq("and equals it", C[i, i], v[i])
        else:
            h.eq("unless the factors alone exceed it", C[i, i], F[i, i])
    else:
        h.eq("off the diagonal only the factors", C[i, j], F[i, j])
    h.psd("the rank-k part is semi-definite", F)
    h.psd("covariance_ is semi-definite", C)
    h.eq("location_ is the tracked mean", e.location_, s["mean"])


def first(h, e, p):
    np = h.W.np
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    s = e._state
    h.eq("the mean is the observation", s["mean"], x[0])
    h.eq("no variance yet", s["var"], np.zeros(p))
    h.eq("k or p directions", s["V"].shape[0], min(e.k, p))


def step(h, e, p):
    s = copy_val(e._state)
    n, m, v, r = s["n_samples"], s["mean"], s["var"], e.r
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    d = x[0] - m
    h.eq("count", t["n_samples"], n + 1)
    if n < s["n_burn"]:
        h.eq("warm-up: mean", (n + 1) * t["mean"], n * m + x[0])
        h.eq("warm-up: variance", (n + 1) * t["var"], n * v + d * d)
    else:
        h.eq("mean' = (1-r) mean + r x", t["mean"], (1 - r) * m + r * x[0])
        h.eq("var' = (1-r) var + r d^2", t["var"], (1 - r) * v + r * d * d)
    h.eq("directions kept", t["V"].shape[0], s["V"].shape[0])
    h.eq("warm-up kept", t["n_burn"], s["n_burn"])


def run(tier):
    P = Prover("C17", tier)
    on_new(P, "factor", "first observation", first)
    on_state(P, "factor", "one observation", step)
    on_state(P, "factor", "read", read)
    return P.run()
