"""C29: each coordinate of location_ moves towards the new observation and never past it."""
from ..vcapi import Prover
from .est import ALL, on_new, on_state


def first(h, e, p):
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    h.eq("location_ is the first observation", e.location_, x[0])


def step(h, e, p):
    m = e.location_
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    m2 = e.location_
    h.eq("shape", m2.shape[0], p)
    h.entry_ge("location_' lies between location_ and x", (m2 - m) * (x[0] - m2))


def run(tier):
    P = Prover("C29", tier)
    for c in ALL:
        on_new(P, c, "first observation", first)
        on_state(P, c, "one observation", step)
    r = P.run()
    r.assumptions = ["the range claim follows from betweenness by induction on the stream"]
    return r
