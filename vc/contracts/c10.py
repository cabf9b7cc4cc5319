"""C10: no division by zero, no root of a negative number: every update and read is defined for finite input."""
from ..vcapi import Prover
from .est import ALL, on_new, on_state


def update(h, e, p):
    e.partial_fit(h.rows("x", 1, p))
    h.fact("the update succeeds", True)


def read(h, e, p):
    e.covariance_
    e.location_
    h.fact("the reads succeed", True)


def corr(h, e, p):
    from .lib import modular
    modular(h, e, p)
    e.correlation_
    h.fact("the read succeeds", True)


def run(tier):
    P = Prover("C10", tier)
    for c in ALL:
        on_new(P, c, "first observation", update, defined=True)
        on_state(P, c, "one observation", update, defined=True)
        on_state(P, c, "covariance_, location_", read, defined=True)
        on_state(P, c, "correlation_", corr, defined=True)
    return P.run()
