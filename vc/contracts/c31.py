"""C31: the specialised estimators apply their documented recursions, before and after the warm-up."""
from .. import terms as tm
from ..arrays import Arr, Sym, num
from ..exec import GList, as_symlist
from ..terms import Fn, ZERO, b_gt, mk_app, mk_ind, mul, sub
from ..vcapi import Prover, Unsupported
from .c03 import diag_first, diag_step
from .c16 import dcc_first, dcc_read, dcc_step
from .est import on_new, on_state
from .lib import JList, copy_val, outer, twin


def burn_n(h, r):
    return h.W.get("precise._state.ewa_burn_n")(r)


# ------------------------------------------------------------------ location
def loc_first(h, e, p):
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    h.eq("location_ is the first observation", e.location_, x[0])
    h.eq("one observation", e.n_samples_, 1)


def location(weight, warm):
    """Equal weights up to the warm-up's last observation, then weight(e) per observation."""
    def body(h, e, p):
        n, m = e._state["n_samples"], e.location_
        n0 = warm(h, e)
        x = h.rows("x", 1, p)
        e.partial_fit(x)
        h.eq("count", e.n_samples_, n + 1)
        if n < n0:
            h.eq("warm-up: n' location' = n location + x", (n + 1) * e.location_, n * m + x[0])
        else:
            w = weight(e)
            h.eq("location' = (1-w) location + w x", e.location_, (1 - w) * m + w * x[0])
    return body


def dcc_rate(e):
    return e.vol_r if e.vol_r is not None else e.r


def dcc_warm(h, e):
    rv = dcc_rate(e)
    return burn_n(h, e.r) if e.r <= rv else burn_n(h, rv)


RATE = lambda e: e.r
WARM = lambda h, e: burn_n(h, e.r)


def factor_warm(h, e):
    return e._state["V"].shape[0] + 1


# ------------------------------------------------------------------ the empirical warm-up
def warm(h, e, p):
    """Huber, Adaptive and Geodesic: the empirical moments until the warm-up ends."""
    s = copy_val(e._state)
    n, m, S = s["n_samples"], s["mean"], s["cov"]
    h.require(n < burn_n(h, e.r))
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    m2, S2 = e.location_, e._state["cov"]
    h.eq("n' location' = n location + x", (n + 1) * m2, n * m + x[0])
    h.eq("n'(cov' + mean'mean'') = n(cov + mean mean') + xx'",
         (n + 1) * (S2 + outer(h, m2)), n * (S + outer(h, m)) + outer(h, x[0]))
    h.eq("count", e.n_samples_, n + 1)


def warm_first(h, e, p):
    e.partial_fit(h.rows("x", 1, p))
    h.eq("no covariance from one observation", e._state["cov"], h.W.np.zeros((p, p)))


def tracked(h, e, p):
    h.eq("covariance_ is the tracked covariance", e.covariance_, e._state["cov"])
    h.eq("location_ is the tracked mean", e.location_, e._state["mean"])


# ------------------------------------------------------------------ geodesic
def geo_step(h, e, p):
    s = copy_val(e._state)
    h.require(s["n_samples"] >= burn_n(h, e.r))
    d_, G = s["mean"], h.W.get("precise._linalg.geodesic_step")
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    d = x[0] - d_
    h.eq("the fraction r along the geodesic from the covariance to the outer product of the deviation",
         e._state["cov"], G(s["cov"], outer(h, d), e.r))
    h.eq("rate kept", e._state["r"], e.r)


def geodesic_formula(h):
    """A^(1/2) (A^(-1/2) B A^(-1/2))^g A^(1/2) for admissible A and B (eigenvalues >= 1e-8, condition <= 1e10)."""
    from .c19 import admissible
    np = h.W.np
    p = h.dim()
    A, B, g = admissible(h, "A", p), admissible(h, "B", p), h.real("g", 0, 1)
    w, U = np.linalg.eigh(A)
    r, ri = (U * np.sqrt(w)) @ U.T, (U * (1 / np.sqrt(w))) @ U.T
    M = ri @ B @ ri
    M = (M + M.T) / 2
    h.invertible("the middle", M, r @ np.linalg.inv(B) @ r)
    m, V = np.linalg.eigh(M)
    h.eq("the point at fraction g of the affine-invariant geodesic", h.W.get("precise._linalg.geodesic_step")(A, B, g),
         r @ (V * m ** g) @ V.T @ r)


# ------------------------------------------------------------------ factor
class Directions:
    """Contract of the loop over the directions: entered once, at direction j, with any earlier directions already
    turned, direction j and the later ones as they were, and any remainder u of the deviation."""

    used = False
    broke = False

    def __init__(self, h, V0, dev, w):
        self.h, self.V0, self.dev, self.w = h, V0, dev, w
        self.done = False

    def matches(self, it, where=""):
        sl = as_symlist(it)
        return sl is not None and sl.n == self.V0._shape[0] and not isinstance(it, (JList, GList))

    def enter(self, loc):
        pass

    def carry(self, carried, loc, k):
        h, V0, self.k = self.h, self.V0, k
        own = {id(v.store) for v in loc["s"].values() if isinstance(v, Arr)} if isinstance(loc.get("s"), dict) else set()
        ms = {id(v.store): v for v in loc.values() if isinstance(v, Arr) and v.ndim == 2 and v._shape == V0._shape
              and id(v.store) not in own}
        us = [m for m, v in carried.items() if isinstance(v, Arr) and v.ndim == 1]
        if len(ms) != 1 or len(us) != 1 or len(carried) != 1:
            raise Unsupported("the loop over the directions carries something else")
        self.M, self.un = next(iter(ms.values())), us[0]
        h.eq("the directions are those of the state", self.M, V0)
        h.eq("the remainder starts as the deviation", carried[self.un], self.dev)
        f, a = Fn.get("turned", ("turned",), 2), V0.snap()
        self.before = Arr.make(V0._shape, lambda i, q: tm.add(mul(mk_ind(b_gt(sub(k, i))), mk_app(f, (i, q))),
                                                              mul(sub(tm.ONE, mk_ind(b_gt(sub(k, i)))), num(a(i, q)))))
        self.M[...] = self.before
        self.u = h.vec("rest", self.dev._shape[0])
        return {self.un: self.u.copy()}

    def begin(self, k):
        return None

    def leave(self, loc):
        h, np, w, u = self.h, self.h.W.np, self.w, self.u
        j = Sym(self.k)
        v = self.V0[j]
        size = np.sqrt(np.sum(v ** 2))
        M2, u2 = loc[self.matrix(loc)], loc[self.un]
        if size < 1e-12:
            h.eq("an empty direction takes the remainder", M2[j], u)
            h.fact("and is the last one looked at", self.broke)
        else:
            a = (u @ v) / size
            h.eq("direction' = (1-w) direction + w (u.v) u", M2[j], (1 - w) * v + w * a * u)
            h.eq("the remainder loses its part along the direction", u2, u - a * v / size)
            h.fact("the next direction follows", not self.broke)
        i = h.index(self.V0.shape[0])
        if i != j:
            h.eq("the other directions stay", M2[i], self.before[i])
        self.final = h.mat("directions", *[Sym(t) for t in self.V0._shape])
        M2[...] = self.final
        self.done = True
        return {}

    def matrix(self, loc):
        return next(n for n, v in loc.items() if isinstance(v, Arr) and v.store is self.M.store)


def factor_step(h, e, p):
    s = copy_val(e._state)
    n, r, m, v = s["n_samples"], e.r, s["mean"], s["var"]
    n0 = factor_warm(h, e)
    x = h.rows("x", 1, p)
    w = 1 / (n + 1) if n < n0 else r
    d = x[0] - m
    L = Directions(h, s["V"], d, w)
    h.R.loop_cut = L
    e.partial_fit(x)
    t = e._state
    if not L.done:
        raise Unsupported("the directions are not turned in a loop over them")
    h.eq("the directions of the next state", t["V"], L.final)
    h.eq("variance: the squared deviation from the mean before it, same weight", t["var"], (1 - w) * v + w * d * d)
    h.eq("mean", t["mean"], (1 - w) * m + w * x[0])


def factor_one(k):
    """The same step with k directions, the loop unrolled (covers loops written in another way)."""
    def body(h):
        np = h.W.np
        p = h.dim(lo=k)
        e = h.W.get("precise.FactorCovariance")(k=k, r=h.rate())
        e.partial_fit(h.rows("x0", 1, p))
        s = e._state
        n = h.int("n", 1)
        s["n_samples"], s["mean"] = n, h.vec("m", p)
        s["var"], s["V"] = h.vec("v", p), h.mat("V", k, p)
        s = copy_val(s)
        x = h.rows("x", 1, p)
        e.partial_fit(x)
        w = 1 / (n + 1) if n < k + 1 else e.r
        d = x[0] - s["mean"]
        u, seeded = d, False
        for j in range(k):
            v = s["V"][j]
            got = e._state["V"][j]
            if seeded:
                h.eq(f"direction {j}: stays", got, v)
                continue
            size = np.sqrt(np.sum(v ** 2))
            if size < 1e-12:
                h.eq(f"direction {j}: seeded with the remainder", got, u)
                seeded = True
            else:
                a = (u @ v) / size
                h.eq(f"direction {j}: turned towards the remainder", got, (1 - w) * v + w * a * u)
                u = u - a * v / size
        h.eq("variance", e._state["var"], (1 - w) * s["var"] + w * d * d)
    return body


def factor_first(h, e, p):
    """No deviation yet: the loop starts with zero directions and a zero remainder (and stops at the first of them)."""
    np = h.W.np
    f = twin(e)
    f.partial_fit(h.rows("y", 1, p))
    V0 = np.zeros(f._state["V"].shape)
    L = Directions(h, V0, np.zeros(p), 1)
    h.R.loop_cut = L
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    if not L.done:
        raise Unsupported("the directions are not turned in a loop over them")
    h.eq("no variance yet", e._state["var"], np.zeros(p))
    h.eq("the directions of the next state", e._state["V"], L.final)
    h.eq("warm-up of one more than the directions", e._state["n_burn"], V0.shape[0] + 1)


def run(tier):
    P = Prover("C31", tier)
    for c, w, n0 in (("diagonal", RATE, WARM), ("tyler", RATE, WARM), ("partialmoments", RATE, WARM), ("geodesic", RATE, WARM),
                     ("dcc", dcc_rate, dcc_warm), ("dcc-default", dcc_rate, dcc_warm), ("factor", RATE, factor_warm)):
        on_new(P, c, "location_ of the first observation", loc_first)
        on_state(P, c, "location_ after one observation", location(w, n0))
    for c in ("huber", "adaptive", "geodesic"):
        on_state(P, c, "the empirical moments during the warm-up", warm)
        on_new(P, c, "first observation", warm_first)
        on_state(P, c, "read", tracked)
    on_new(P, "diagonal", "variance of the first observation", diag_first)
    on_state(P, "diagonal", "variance after one observation", diag_step)
    for c in ("dcc", "dcc-default"):
        on_new(P, c, "volatility of the first observation", dcc_first)
        on_state(P, c, "volatility after one observation", dcc_step)
    on_state(P, "geodesic", "one observation after the warm-up", geo_step)
    P.check("geodesic_step: formula", geodesic_formula)
    on_new(P, "factor", "first observation", factor_first)
    on_state(P, "factor", "one observation, any number of directions", factor_step)
    for k in (1, 2):
        P.check(f"factor, {k} direction{'s' * (k > 1)}: one observation", factor_one(k))
    r = P.run()
    r.assumptions = ["the steps are stated from any state satisfying the proved invariants; the claim about a stream follows by induction"]
    return r
