"""C26: differencing is exactly estimation on first differences."""
from ..vcapi import Prover
from .est import ALL, DIFF, GEN, on_diff, on_new
from .lib import same, twin


def differencing(e):
    """The same configuration with diff=True, through its constructor."""
    kw = dict(e.get_params())
    kw["diff"] = True
    return type(e)(**kw)


def first(h, e, p):
    """The first row only sets the level, whatever follows."""
    d = differencing(e)
    x = h.rows("x", 1, p)
    d.partial_fit(x)
    h.fact("nothing estimated from the first row", d._state is None)
    h.eq("no samples", d.n_samples_, 0)
    h.eq("the level is the first row", d._prev_x, x[0])
    NF = h.W.get("precise.base.NotFittedError")
    h.raises("reading is not possible yet", NF, lambda: d.covariance_)


def second(h, e, p):
    d = differencing(e)
    x, y = h.rows("x", 1, p), h.rows("y", 1, p)
    d.partial_fit(x)
    d.partial_fit(y)
    e.partial_fit(y - x)
    same(h, "state = plain estimator on the difference", d._state, e._state)
    h.eq("same dimension", d.n_features_in_, e.n_features_in_)
    h.eq("the level follows", d._prev_x, y[0])


def step(h, d, p):
    """From any state: the state of the plain estimator fed with the difference."""
    e = twin(d)
    e.diff = False
    e._prev_x = None
    lev = d._prev_x.copy()
    x = h.rows("x", 1, p)
    d.partial_fit(x)
    e.partial_fit(x - lev)
    same(h, "state = plain estimator on the difference", d._state, e._state)
    h.eq("the level follows", d._prev_x, x[0])
    h.eq("same dimension", d.n_features_in_, e.n_features_in_)
    h.fact("a plain estimator keeps no level", e._prev_x is None)


def read(h, d, p):
    e = twin(d)
    e.diff = False
    e._prev_x = None
    h.eq("location_", d.location_, e.location_)
    h.eq("n_samples_", d.n_samples_, e.n_samples_)
    C, seen = watched(d)
    if not seen:      # the read looks at nothing in which the two differ
        h.fact("covariance_ depends neither on diff nor on the level", True)
    else:
        h.eq("covariance_", C, e.covariance_)


def watched(d):
    """covariance_, and which of the attributes diff and _prev_x (or the whole __dict__) the read looks at."""
    seen = []
    cls = type(d)

    class Spy(cls):
        def __getattribute__(self, n):
            if n in ("diff", "_prev_x", "__dict__", "get_params"):
                seen.append(n)
            return super().__getattribute__(n)

    d.__class__ = Spy
    try:
        return d.covariance_, seen
    finally:
        d.__class__ = cls


def run(tier):
    P = Prover("C26", tier)
    for c in ALL:
        on_new(P, c, "first row", first)
        on_new(P, c, "second row", second)
        on_diff(P, c, "one observation", step)
        on_diff(P, c, "read", read)
    return P.run()
