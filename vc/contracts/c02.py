"""C02: n*mean and n*(cov + mean mean') accumulate x and xx'; hence the batch moments, in any order."""
from ..vcapi import Prover
from .est import on_new, on_state
from .lib import copy_val, outer, same, twin


def first(h, e, p):
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    h.eq("count is 1", e.n_samples_, 1)
    h.eq("location_ is the observation", e.location_, x[0])
    h.eq("covariance_ is zero", e.covariance_, h.W.np.zeros((p, p)))


def step(h, e, p):
    n, m, S = e.n_samples_, e.location_, e.covariance_
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    n2, m2, S2 = e.n_samples_, e.location_, e.covariance_
    h.eq("count: n' = n + 1", n2, n + 1)
    h.eq("first moment: n' mean' = n mean + x", n2 * m2, n * m + x[0])
    h.eq("second moment: n'(cov' + mean'mean'') = n(cov + mean mean') + xx'",
         n2 * (S2 + outer(h, m2)), n * (S + outer(h, m)) + outer(h, x[0]))


def swap(h, e, p):
    x, y = h.vec("x", p), h.vec("y", p)
    f = twin(e)
    e.partial_fit(x)
    e.partial_fit(y)
    f.partial_fit(y)
    f.partial_fit(x)
    same(h, "order of two observations is irrelevant", e._state, f._state)


def run(tier):
    P = Prover("C02", tier)
    on_new(P, "empirical", "first observation", first)
    on_state(P, "empirical", "one observation", step)
    on_state(P, "empirical", "reordering", swap)
    r = P.run()
    r.assumptions = ["the sample moments follow from the three step equations by induction on the stream (the sums "
                     "of x and xx' do not depend on order); chunking is C04"]
    return r
