"""C11: the shrinkage estimators are convex combinations of the recursive covariance and their documented target."""
from ..vcapi import Prover
from .est import on_new, on_state
from .lib import at, copy_val, outer


def convex(h, e, p, S, T, a):
    np = h.W.np
    C = e.covariance_
    h.ge("intensity at least 0", a)
    h.ge("intensity at most 1", 1 - a)
    h.eq("covariance_ = (1-a) S + a T", C, (1 - a) * S + a * T)
    h.eq("total variance kept", np.trace(C), np.trace(S))
    return C


def scaled_identity(h, S, p):
    np = h.W.np
    return np.trace(S) / p * np.eye(p)


def lw(h, e, p):
    """a = min(pi r, d2) / d2 with d2 the dispersion of S about the target (no shrinkage when either vanishes)."""
    np = h.W.np
    s = e._state
    S = s["cov"].copy()
    T = scaled_identity(h, S, p)
    d2 = np.sum((S - T) ** 2) / p
    pi = s["pi_bar"]
    if d2 > 0:
        if pi > 0:
            convex(h, e, p, S, T, min(pi * e.r, d2) / d2)
        else:
            convex(h, e, p, S, T, 0)
    else:
        convex(h, e, p, S, T, 0)


def lw_step(h, e, p):
    """pi is the recency-weighted mean squared dispersion of the single-observation scatter about S."""
    np = h.W.np
    s = copy_val(e._state)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    d = x[0] - s["mean"]
    if s["n_samples"] < h.W.get("precise._state.ewa_burn_n")(e.r):
        h.eq("kept during the burn-in", t["pi_bar"], s["pi_bar"])
    else:
        q = np.sum((outer(h, d) - s["cov"]) ** 2) / p
        h.eq("pi' = (1-r) pi + r q", t["pi_bar"], (1 - e.r) * s["pi_bar"] + e.r * q)


def lw_first(h, e, p):
    e.partial_fit(h.rows("x", 1, p))
    h.eq("pi starts at zero", e._state["pi_bar"], 0)


def oas(h, e, p):
    np = h.W.np
    S = e._state["cov"].copy()
    T = scaled_identity(h, S, p)
    n = max(1 / e.r, 2)
    tr, tr2 = np.trace(S), np.sum(S * S)
    num = (1 - 2 / p) * tr2 + tr * tr
    den = (n + 1 - 2 / p) * (tr2 - tr * tr / p)
    if den <= 0:
        convex(h, e, p, S, T, 1)
    else:
        convex(h, e, p, S, T, min(max(num / den, 0), 1))


def shrunk_identity(h, e, p):
    S = e._state["cov"].copy()
    convex(h, e, p, S, scaled_identity(h, S, p), e.delta)


def shrunk(h, e, p):
    """Target: the variances of S and one common correlation, the mean of the sample correlations."""
    np = h.W.np
    S = e._state["cov"].copy()
    C = e.covariance_
    a = e.delta
    h.eq("every variance kept", np.diagonal(C), np.diagonal(S))
    h.eq("total variance kept", np.trace(C), np.trace(S))
    sd = np.sqrt(np.diagonal(S))
    d = np.maximum(sd, 1e-6)
    if p > 1:
        I = np.eye(p)
        rbar = np.sum((1 - I) * S / outer(h, d)) / (p * (p - 1))
        T = rbar * outer(h, sd) * (1 - I) + np.diag(np.diagonal(S))
        h.eq("covariance_ = (1-a) S + a T", C, (1 - a) * S + a * T)
    else:
        h.eq("one variable: nothing to shrink", C[0, 0], S[0, 0])


def run(tier):
    P = Prover("C11", tier)
    on_state(P, "ledoitwolf", "covariance_", lw)
    on_state(P, "ledoitwolf", "one observation", lw_step)
    on_new(P, "ledoitwolf", "first observation", lw_first)
    on_state(P, "oas", "covariance_", oas)
    on_state(P, "shrunk-identity", "covariance_", shrunk_identity)
    on_state(P, "shrunk", "covariance_", shrunk)
    return P.run()
