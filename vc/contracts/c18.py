"""C18: four signed quadrants that add up to the covariance."""
from ..vcapi import Prover
from .est import on_new, on_state
from .lib import copy_val, opaque, outer

UU, DU, UD, DD = 0, 1, 2, 3


def signs(h, Q, p):
    h.entry_ge("up-up is not negative", Q[UU])
    h.entry_ge("down-down is not negative", Q[DD])
    h.entry_ge("down-up is not positive", -Q[DU])
    h.entry_ge("up-down is not positive", -Q[UD])
    h.eq("the mixed ones are transposes of each other", Q[UD], Q[DU].T)


def assume_signs(h, Q, p):
    """The invariant at the entries in question."""
    i, j = h.index(p), h.index(p)
    return i, j


def generic(h, e, p):
    """A state whose quadrants satisfy the sign invariant and nothing else."""
    np = h.W.np
    a, b, c = h.mat("uu", p, p), h.mat("dd", p, p), h.mat("ud", p, p)
    Q = np.empty((4, p, p))
    Q[UU], Q[DD], Q[UD], Q[DU] = np.abs(a), np.abs(b), -np.abs(c), -np.abs(c).T
    e._state["quadrants"] = Q
    return Q.copy()


def first(h, e, p):
    np = h.W.np
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    Q = e._state["quadrants"]
    signs(h, Q, p)
    h.eq("nothing before a mean exists", np.sum(Q, axis=0), np.zeros((p, p)))
    h.eq("the mean is the observation", e._state["mean"], x[0])


def step(h, e, p):
    np = h.W.np
    generic(h, e, p)
    s = copy_val(e._state)
    n, m, r, Q = s["n_samples"], s["mean"], e.r, s["quadrants"]
    n0 = h.W.get("precise._state.ewa_burn_n")(e.r)
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    T = t["quadrants"]
    d = x[0] - m
    signs(h, T, p)
    S, S2 = Q[0] + Q[1] + Q[2] + Q[3], T[0] + T[1] + T[2] + T[3]
    h.eq("count", t["n_samples"], n + 1)
    up, dn = np.maximum(d, 0), np.minimum(d, 0)
    legs = {UU: (up, up), DU: (dn, up), UD: (up, dn), DD: (dn, dn)}
    if n < n0:
        h.eq("burn-in: the sum follows the outer product", (n + 1) * S2, n * S + outer(h, d))
        h.eq("burn-in: mean", (n + 1) * t["mean"], n * m + x[0])
        for q, (u, v) in legs.items():
            h.eq(f"burn-in: quadrant {q}", (n + 1) * T[q], n * Q[q] + outer(h, u, v))
    else:
        h.eq("the sum follows the outer product", S2, (1 - r) * S + r * outer(h, d))
        h.eq("mean", t["mean"], (1 - r) * m + r * x[0])
        for q, (u, v) in legs.items():
            h.eq(f"quadrant {q}", T[q], (1 - r) * Q[q] + r * outer(h, u, v))


def read(h, e, p):
    """covariance_ is the nearest positive definite matrix of the sum, and equals it when positive definite."""
    npd = lambda a: opaque("nearest", a, pd=True, psd=True)      # C19: a positive definite matrix, a function of a
    h.W.replace("precise._linalg.nearest_pos_def", npd)
    Q = e._state["quadrants"]
    S = Q[0] + Q[1] + Q[2] + Q[3]
    C = e.covariance_
    h.eq("projection of the sum", C, npd((S + S.T) / 2))


def read_pd(h, e, p):
    """Whatever the split, a positive definite sum is returned as it is."""
    np = h.W.np
    S = h.mat("S", p, pd=True)
    a, b, c = h.mat("uu", p, p), h.mat("dd", p, p), h.mat("ud", p, p)
    Q = np.empty((4, p, p))
    Q[UU], Q[DD], Q[UD] = a, b, c
    Q[DU] = S - a - b - c
    e._state["quadrants"] = Q
    h.eq("equals the sum", e.covariance_, S)


def run(tier):
    P = Prover("C18", tier)
    on_new(P, "partialmoments", "first observation", first)
    on_state(P, "partialmoments", "one observation", step)
    on_state(P, "partialmoments", "read", read)
    on_state(P, "partialmoments", "read a positive definite sum", read_pd)
    return P.run()
