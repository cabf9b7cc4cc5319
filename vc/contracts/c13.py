"""C13: the Huber estimator's bounded step."""
from ..vcapi import Prover
from .est import on_state
from .lib import copy_val, outer


def after_burn(h, e, p):
    """An arbitrary state past the burn-in whose tracked covariance is positive definite."""
    s = e._state
    h.require(s["n_samples"] >= h.W.get("precise._state.ewa_burn_n")(e.r))
    s["cov"] = h.mat("S", p, pd=True)
    return copy_val(s)


def step(h, e, p):
    s = after_burn(h, e, p)
    np = h.W.np
    m, S, r, c = s["mean"], s["cov"], e.r, e.c
    P = np.linalg.inv(S)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    d = x[0] - m
    u = t["mean"] - m
    q = d @ P @ d
    step2 = u @ P @ u
    h.ge("the step is at most r c sqrt(p) in the Mahalanobis norm", r * r * c * c * p - step2)
    h.eq("the covariance gains r times the bounded step's outer product, rescaled by its rate",
         r * t["cov"], r * (1 - r) * S + outer(h, u))
    h.eq("count", t["n_samples"], s["n_samples"] + 1)
    if q <= c * c * p:
        h.eq("within the cutoff: full weight", u, r * d)
    else:
        h.eq("beyond the cutoff: exactly the bound", step2, r * r * c * c * p)
    i, j = h.index(p), h.index(p)
    h.ge("the weight is not negative", u[i] * d[i] - 0)
    h.ge("the weight is at most one", r * r * d[i] * d[i] - u[i] * u[i])
    h.eq("one weight for every coordinate", u[i] * d[j], u[j] * d[i])


def read(h, e, p):
    h.eq("location_ is the tracked mean", e.location_, e._state["mean"])
    h.eq("covariance_ is the tracked covariance", e.covariance_, e._state["cov"])


def any_state(h, e, p):
    """Also for a singular estimate: one weight in [0, 1], and the rank-one update in the step itself."""
    s = e._state
    h.require(s["n_samples"] >= h.W.get("precise._state.ewa_burn_n")(e.r))
    s = copy_val(s)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    d, u, r = x[0] - s["mean"], t["mean"] - s["mean"], e.r
    h.eq("rank-one update", r * t["cov"], r * (1 - r) * s["cov"] + outer(h, u))
    i, j = h.index(p), h.index(p)
    h.ge("the weight is not negative", u[i] * d[i] - 0)
    h.ge("the weight is at most one", r * r * d[i] * d[i] - u[i] * u[i])
    h.eq("one weight for every coordinate", u[i] * d[j], u[j] * d[i])


def run(tier):
    P = Prover("C13", tier)
    on_state(P, "huber", "one observation", step)
    on_state(P, "huber", "one observation, any estimate", any_state)
    on_state(P, "huber", "read", read)
    return P.run()
