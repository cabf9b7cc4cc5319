"""C15: Tyler sees directions only; the shape has trace p."""
from ..vcapi import Prover
from .c08 import is_correlation
from .est import on_new, on_state
from .lib import twin


def rescaled(h, e, p):
    """The same state, fed m + d and m + k d for any k > 0: the same shape (and so the same covariance_)."""
    f = twin(e)
    m = e._state["mean"]
    d = h.vec("d", p)
    k = h.real("k", 0, lo_open=True)
    e.partial_fit((m + d).reshape(1, -1))
    f.partial_fit((m + k * d).reshape(1, -1))
    h.eq("the same shape for the rescaled deviation", e._state["C"], f._state["C"])
    h.eq("the trace is the dimension", h.W.np.trace(e._state["C"]), p)


def still(h, e, p):
    """A zero deviation has no direction: the shape stays."""
    C = e._state["C"].copy()
    e.partial_fit(e._state["mean"].reshape(1, -1))
    h.eq("shape kept", e._state["C"], C)


def step(h, e, p):
    """The recursion: decayed shape plus p u u' / (u' C^-1 u) for the direction u, rescaled to trace p."""
    np = h.W.np
    s = e._state
    n, r = s["n_samples"], e.r
    s["C"] = h.mat("C", p, pd=True)
    C, m = s["C"].copy(), s["mean"].copy()
    P = np.linalg.inv(C)
    d = h.vec("d", p)
    e.partial_fit((m + d).reshape(1, -1))
    lr = 1 / (n + 1) if n < h.W.get("precise._state.ewa_burn_n")(r) else r
    h.require(d @ d > 0)
    q = (d @ P @ d) / (d @ d)
    h.require(q > 1e-12)        # the guard against a numerically singular shape is inactive
    B = (1 - lr) * C + lr * p * (d.reshape(-1, 1) * d) / (d @ P @ d)
    h.eq("the shape is proportional to the decayed shape plus the direction's scatter",
         np.trace(B) * e._state["C"], p * B)


def read(h, e, p):
    h.eq("location_ is the tracked mean", e.location_, e._state["mean"])
    is_correlation(h, e._state["C"], e.covariance_, p)


def first(h, e, p):
    np = h.W.np
    e.partial_fit(h.rows("x", 1, p))
    h.eq("no direction from the first observation", e._state["C"], np.eye(p))


def run(tier):
    P = Prover("C15", tier)
    on_state(P, "tyler", "rescaled deviation", rescaled)
    on_state(P, "tyler", "zero deviation", still)
    on_state(P, "tyler", "one observation", step)
    on_state(P, "tyler", "read", read)
    on_new(P, "tyler", "first observation", first)
    return P.run()
