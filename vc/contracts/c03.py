"""C03: equal-weight burn-in, then weight exactly r; the transforms share the same recursion."""
from ..vcapi import Prover
from .est import R, on_new, on_state
from .lib import copy_val, outer, same

FULL = ["ewa", "ledoitwolf", "oas", "shrunk", "schur", "schur-lw", "schur-conditional"]


def burn(h):
    """ewa_burn_n(r) = max(5, min(250, ceil(1/r))) for every r in (0, 1]."""
    r = h.rate()
    n = h.W.get("precise._state.ewa_burn_n")(r)
    k = h.int("k")
    h.true("burn-in is at least 5", n >= 5)
    h.true("burn-in is at most 250", n <= 250)
    # n is the least integer in [5, 250] with n*r >= 1, when there is one
    h.require((n < 250) & (n > 5))
    h.true("n r >= 1", n * r >= 1)
    h.true("(n-1) r < 1", (n - 1) * r < 1)


def burn_hi(h):
    r = h.rate()
    n = h.W.get("precise._state.ewa_burn_n")(r)
    h.require(250 * r < 1)
    h.true("slow decay: 250", n == 250)


def burn_lo(h):
    r = h.rate()
    n = h.W.get("precise._state.ewa_burn_n")(r)
    h.require(5 * r >= 1)
    h.true("fast decay: 5", n == 5)


def first(h, e, p):
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    s = e._state
    h.eq("count is 1", e.n_samples_, 1)
    h.eq("location_ is the observation", e.location_, x[0])
    h.eq("tracked covariance is zero", s["cov"], h.W.np.zeros((p, p)))
    h.eq("burn-in length is that of r", s["n_burn"], h.W.get("precise._state.ewa_burn_n")(e.r))
    h.eq("rate is r", s["r"], e.r)


def step(h, e, p):
    s = copy_val(e._state)
    n, m, S, r = s["n_samples"], e.location_, s["cov"], e.r
    n0 = h.W.get("precise._state.ewa_burn_n")(e.r)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    m2, S2 = e.location_, t["cov"]
    h.eq("count: n' = n + 1", t["n_samples"], n + 1)
    h.eq("rate kept", t["r"], r)
    h.eq("burn-in length kept", t["n_burn"], n0)
    d = x[0] - m
    if n < n0:
        n2 = n + 1
        h.eq("burn-in: n' mean' = n mean + x", n2 * m2, n * m + x[0])
        h.eq("burn-in: n'(cov' + mean'mean'') = n(cov + mean mean') + xx'",
             n2 * (S2 + outer(h, m2)), n * (S + outer(h, m)) + outer(h, x[0]))
    else:
        h.eq("mean' = (1-r) mean + r x", m2, (1 - r) * m + r * x[0])
        h.eq("cov' = (1-r) cov + r dd'", S2, (1 - r) * S + r * outer(h, d))


def ewa_read(h, e, p):
    h.eq("covariance_ is the tracked covariance", e.covariance_, e._state["cov"])


def diag_first(h, e, p):
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    h.eq("location_ is the observation", e.location_, x[0])
    h.eq("variance is zero", e._state["var"], h.W.np.zeros(p))
    h.eq("burn-in length is that of r", e._state["n_burn"], h.W.get("precise._state.ewa_burn_n")(e.r))


def diag_step(h, e, p):
    s = copy_val(e._state)
    n, m, v, r = s["n_samples"], e.location_, s["var"], e.r
    n0 = h.W.get("precise._state.ewa_burn_n")(e.r)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    m2, v2 = e.location_, e._state["var"]
    d = x[0] - m
    h.eq("count: n' = n + 1", e.n_samples_, n + 1)
    if n < n0:
        h.eq("burn-in: n' mean' = n mean + x", (n + 1) * m2, n * m + x[0])
        h.eq("burn-in: n' var' = n var + d^2", (n + 1) * v2, n * v + d * d)
    else:
        h.eq("mean' = (1-r) mean + r x", m2, (1 - r) * m + r * x[0])
        h.eq("var' = (1-r) var + r d^2", v2, (1 - r) * v + r * d * d)
    h.eq("covariance_ is diag(var)", e.covariance_, h.W.np.diag(v2))


def block_step(h, e, p):
    """Each block runs the recursion of C03 on its own coordinates."""
    s = copy_val(e._state)
    n, r = s["n_samples"], e.r
    n0 = h.W.get("precise._state.ewa_burn_n")(e.r)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    h.eq("count: n' = n + 1", t["n_samples"], n + 1)
    k = h.index(s["subs"].n)
    u, w = s["subs"].at(k.t), t["subs"].at(k.t)
    a, b = s["slices"].at(k.t)
    y = x[0][a:b]
    m, S, m2, S2 = u["mean"], u["cov"], w["mean"], w["cov"]
    if n < n0:
        h.eq("burn-in: n' mean' = n mean + x", (n + 1) * m2, n * m + y)
        h.eq("burn-in: second moment", (n + 1) * (S2 + outer(h, m2)), n * (S + outer(h, m)) + outer(h, y))
    else:
        h.eq("mean' = (1-r) mean + r x", m2, (1 - r) * m + r * y)
        h.eq("cov' = (1-r) cov + r dd'", S2, (1 - r) * S + r * outer(h, y - m))


def run(tier):
    P = Prover("C03", tier)
    P.check("ewa_burn_n", burn)
    P.check("ewa_burn_n: slow decay", burn_hi)
    P.check("ewa_burn_n: fast decay", burn_lo)
    for c in FULL:
        on_new(P, c, "first observation", first)
        on_state(P, c, "one observation", step)
    on_state(P, "ewa", "read", ewa_read)
    on_new(P, "diagonal", "first observation", diag_first)
    on_state(P, "diagonal", "one observation", diag_step)
    on_state(P, "block", "one observation", block_step)
    return P.run()
