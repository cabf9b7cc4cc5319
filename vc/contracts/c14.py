"""C14: the adaptive estimator's one forgetting rate."""
from ..vcapi import Prover
from .est import on_new, on_state
from .lib import copy_val, outer, twin


def step(h, e, p):
    s = e._state
    np = h.W.np
    h.require(s["n_samples"] >= h.W.get("precise._state.ewa_burn_n")(e.r))
    s["cov"] = h.mat("S", p, pd=True)
    s = copy_val(s)
    m, S, r, hi = s["mean"], s["cov"], e.r, e.max_r
    x = h.rows("x", 1, p)
    d = x[0] - m
    sbar = 0.9 * s["sbar"] + 0.1 * (d @ np.linalg.inv(S) @ d) / p
    e.partial_fit(x)
    t = e._state
    h.eq("count", t["n_samples"], s["n_samples"] + 1)
    h.eq("smoothed surprise", t["sbar"], sbar)
    # the documented rate: the baseline amplified by the smoothed surprise (if that exceeds one), at most max_r
    rho = np.minimum(r * np.maximum(1, sbar), hi)
    h.eq("mean' = (1-rho) mean + rho x", t["mean"], (1 - rho) * m + rho * x[0])
    h.eq("cov' = (1-rho) cov + rho dd'", t["cov"], (1 - rho) * S + rho * outer(h, d))
    h.ge("rho <= max_r", hi - rho)
    h.ge("rho >= min(r, max_r)", rho - np.minimum(r, hi))
    h.eq("baseline kept", t["r"], r)
    h.eq("maximum kept", t["max_r"], hi)
    if sbar <= 1:
        if r <= hi:
            h.eq("the baseline unless the surprise exceeds one", rho, r)


def monotone(h):
    """The rate is non-decreasing in the smoothed surprise."""
    np = h.W.np
    r, hi = h.rate(), h.rate("max_r")
    a, b = h.real("a"), h.real("b")
    h.require(a <= b)
    h.ge("increasing", np.minimum(r * np.maximum(1, b), hi) - np.minimum(r * np.maximum(1, a), hi))


def burn(h, e, p):
    s = e._state
    h.require(s["n_samples"] < h.W.get("precise._state.ewa_burn_n")(e.r))
    s = copy_val(s)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    h.eq("during the burn-in the surprise is kept", t["sbar"], s["sbar"])
    h.eq("equal weights: n' mean' = n mean + x", t["n_samples"] * t["mean"], s["n_samples"] * s["mean"] + x[0])
    h.eq("baseline kept", t["r"], s["r"])
    h.eq("maximum kept", t["max_r"], s["max_r"])


def first(h, e, p):
    e.partial_fit(h.rows("x", 1, p))
    h.eq("the surprise starts at one", e._state["sbar"], 1)
    h.eq("baseline", e._state["r"], e.r)
    h.eq("maximum", e._state["max_r"], e.max_r)


def read(h, e, p):
    h.eq("location_ is the tracked mean", e.location_, e._state["mean"])
    h.eq("covariance_ is the tracked covariance", e.covariance_, e._state["cov"])


def run(tier):
    P = Prover("C14", tier)
    on_state(P, "adaptive", "one observation", step)
    on_state(P, "adaptive", "one observation during the burn-in", burn)
    on_new(P, "adaptive", "first observation", first)
    on_state(P, "adaptive", "read", read)
    P.check("rate", monotone)
    return P.run()
