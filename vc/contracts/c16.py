"""C16: H = D R D with one-step-ahead standardization."""
from .. import arrays as ar
from .. import symnp as sn
from ..arrays import Sym
from ..terms import T, as_t
from ..vcapi import Prover, Unsupported
from .est import _c, on_new, on_state
from .lib import copy_val, outer, same_est, twin


# ------------------------------------------------------------------ DCC
def dcc_first(h, e, p):
    np = h.W.np
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    s = e._state
    h.eq("the mean is the observation", s["mean"], x[0])
    h.eq("no deviation, hence no variance, before a mean exists", s["h"], np.zeros(p))
    h.eq("nothing learned about the correlation", s["Q"], np.zeros((p, p)))
    burn(h, e, s)


def burn(h, e, s):
    rv = e.vol_r if e.vol_r is not None else e.r
    n0 = h.W.get("precise._state.ewa_burn_n")
    if e.r <= rv:
        h.eq("burn-in of the slower rate", s["n_burn"], n0(e.r))
    else:
        h.eq("burn-in of the slower rate", s["n_burn"], n0(rv))


def dcc_step(h, e, p):
    np = h.W.np
    s = copy_val(e._state)
    n, m, v, Q, r = s["n_samples"], s["mean"], s["h"], s["Q"], e.r
    rv = e.vol_r if e.vol_r is not None else e.r
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    t = e._state
    d = x[0] - m
    h.eq("count", t["n_samples"], n + 1)
    if n < s["n_burn"]:
        a, b = 1 / (n + 1), 1 / (n + 1)
    else:
        a, b = rv, r
    h.eq("mean at the volatility rate", t["mean"], (1 - a) * m + a * x[0])
    h.eq("variance at the volatility rate, about the mean before the observation", t["h"], (1 - a) * v + a * d * d)
    z = d / np.sqrt(np.maximum(t["h"], 1e-12))
    h.eq("the correlation tracker gets the deviation over the updated volatility, at its own rate",
         t["Q"], (1 - b) * Q + b * outer(h, z))
    h.eq("rates kept", t["vol_r"], rv)
    h.eq("rates kept (correlation)", t["r"], r)


def dcc_read(h, e, p):
    np = h.W.np
    s = e._state
    C = e.covariance_
    R = e.correlation_
    v, Q = s["h"], s["Q"]
    sd = np.sqrt(np.maximum(v, 1e-12))
    q = np.sqrt(np.maximum(np.diag(Q), 1e-12))
    h.eq("covariance_ = D R D", C, Q / outer(h, q) * outer(h, sd))
    i = h.index(p)
    h.require(Q[i, i] >= 1e-12)
    h.require(v[i] >= 1e-12)
    h.eq("the diagonal is the tracked variance", C[i, i], v[i])
    j = h.index(p)
    h.require(Q[j, j] >= 1e-12)
    h.require(v[j] >= 1e-12)
    h.eq("the correlation is that of the correlation tracker", R[i, j] * np.sqrt(Q[i, i]) * np.sqrt(Q[j, j]), Q[i, j])
    h.eq("location_ is the tracked mean", e.location_, s["mean"])


# ------------------------------------------------------------------ ConditionalCovariance
# The per-series models and the correlation estimator are known by contract only: any object with mean, variance
# and push, and any estimator with partial_fit and correlation_.
class Vols:
    """A family of volatility models, one per series, each its own: mean and variance are any functions of what it
    has been pushed; a push through a loop over all series advances every member once."""

    def __init__(self, h, p):
        self.h, self.p = h, p
        self.gen = 0
        self.pushed = []       # (loop, member, value)
        self.made = []         # innermost loop at each creation
        self.cur = [self._fns(0)]

    def _fns(self, g):
        return (self.h.vec(f"vm{g}", self.p), self.h.vec(f"vv{g}", self.p))

    def __call__(self):
        loops = ar.RT.loops
        self.made.append(loops[-1] if loops else None)
        k = getattr(loops[-1], "k", None) if loops else None
        return Member(self, T.of(k) if k is not None else None)

    def settle(self):
        """Close a completed push of every series: each member exactly once, with its own value."""
        h = self.h
        ev = self.pushed
        if not ev:
            return
        L = ev[0][0]
        if L in ar.RT.loops:
            raise Unsupported("a volatility model is read while the models are being advanced")
        mine = [e for e in ev if e[0] is L and e[3] == "abs"]
        inloop, h.inloop = h.inloop, True
        h.fact("every model is advanced by one loop over the series", all(e[0] is L for e in ev) and len(mine) == 1
               and len(L.branches) == 1 and not L.branches[0][0], f"{len(ev)} pushes")
        h.eq("over all the series", Sym(L.sl.n), self.p)
        _, t, y, _ = mine[0]
        k = T.of(L.k)
        h.eq("each its own model", Sym(t), Sym(k))
        h.eq("fed with the raw value", y, self.expect[Sym(k)])
        h.inloop = inloop
        self.pushed = []
        self.gen += 1
        self.cur.append(self._fns(self.gen))

    def push(self, t, y):
        loops = ar.RT.loops
        if not loops or not hasattr(loops[-1], "phase"):
            raise Unsupported("push outside a loop over the series")
        self.pushed.append((loops[-1], t, y, loops[-1].phase))

    def mean(self):
        return self.cur[-1][0]

    def var(self):
        return self.cur[-1][1]


class Member:
    def __init__(self, fam, t):
        self._fam, self._t = fam, t

    def _vc_subst(self, mp):
        from .. import terms as tm
        return self if self._t is None else Member(self._fam, tm.subst(self._t, mp))

    def _at(self, k):
        if self._t is None:
            raise Unsupported("a shared volatility model")
        self._fam.settle()
        self._fam.reads.append(self._fam.gen)
        return self._fam.cur[-1][k][Sym(self._t)]

    @property
    def mean(self):
        return self._at(0)

    @property
    def variance(self):
        return self._at(1)

    def push(self, y):
        if self._t is None:
            raise Unsupported("a shared volatility model")
        self._fam.push(self._t, y)


def stub_corr(h, p):
    """A correlation estimator known by contract: partial_fit records, correlation_ is any symmetric matrix."""
    log = {"made": 0, "fed": []}

    class Corr:
        def __init__(self, tag="proto"):
            self.tag = tag
            self.n = 0
            log["made"] += 1
            self.fed = []
            log["last"] = self

        def get_params(self, deep=True):
            return {"tag": self.tag}

        def partial_fit(self, X, y=None):
            self.fed.append(X)
            self.n += 1
            log["fed"].append((self, X, fam_gen()))
            return self

        @property
        def correlation_(self):
            return h.mat(f"R{self.n}", p, psd=True)

    fam_gen = lambda: log["gen"]()
    return Corr, log


def cond(h, started=True):
    p = h.dim("d")
    fam = Vols(h, p)
    fam.reads = []
    Corr, log = stub_corr(h, p)
    log["gen"] = lambda: fam.gen
    proto = Corr()
    e = h.W.get("precise.ConditionalCovariance")(vol=fam, corr=proto)
    return e, p, fam, proto, log


def cond_first(h):
    np = h.W.np
    e, p, fam, proto, log = cond(h)
    x = h.rows("x", 1, p)
    fam.expect = x[0]
    e.partial_fit(x)
    fam.settle()
    h.fact("one model per series, made in a loop over the series", len(fam.made) >= 1 and all(
        L is not None for L in fam.made))
    h.fact("the correlation prototype is not fitted", not proto.fed and e._corr_model is not proto)
    h.fact("the correlation model is fed once", len(log["fed"]) == 1)
    h.fact("the models are advanced once", fam.gen == 1)
    h.fact("the prototypes are kept", e.vol is fam and e.corr is proto)
    h.eq("a residual without a forecast counts as zero", rows(log["fed"][0][1]), np.zeros(p))
    h.eq("location_ is the models' mean", e.location_, fam.mean())
    h.eq("count", e.n_samples_, 1)


def rows(X):
    X = ar.as_arr(X)
    return X[0] if X.ndim == 2 else X


def cond_step(h):
    np = h.W.np
    e, p, fam, proto, log = cond(h)
    x0 = h.rows("x0", 1, p)
    fam.expect = x0[0]
    e.partial_fit(x0)
    fam.settle()
    # an arbitrary later moment: any number of samples, any forecasts
    n = h.int("n", 1)
    e._state["n_samples"] = n
    e._state["mean"] = fam.mean().copy()
    e._state["var"] = np.maximum(fam.var(), 1e-12)
    m, v = fam.mean(), fam.var()
    log["fed"].clear()
    g = fam.gen
    model = e._corr_model
    x = h.rows("x", 1, p)
    fam.expect = x[0]
    e.partial_fit(x)
    h.fact("the correlation model is fed once, before the models advance", len(log["fed"]) == 1
           and log["fed"][0][0] is model and log["fed"][0][2] == g)
    z = rows(log["fed"][0][1])
    fam.settle()
    h.fact("the models are advanced once", fam.gen == g + 1)
    h.fact("the correlation prototype is not fitted", not proto.fed and e._corr_model is not proto)
    i = h.index(p)
    if v[i] > 1e-12:
        h.eq("standardized by the forecast made before the observation", z[i] * np.sqrt(v[i]), x[0][i] - m[i])
    else:
        h.eq("a residual without a usable forecast counts as zero", z[i], 0)
    h.eq("count", e.n_samples_, n + 1)
    C = e.covariance_
    R = model.correlation_
    h.eq("location_ is the models' mean", e.location_, fam.mean())
    w = np.maximum(fam.var(), 1e-12)
    h.eq("covariance_ = D R D", C, R * outer(h, np.sqrt(w)))
    i = h.index(p)
    h.eq("the diagonal is the tracked variance (unit correlation)", C[i, i], w[i] * R[i, i])
    h.fact("the prototypes are kept", e.vol is fam and e.corr is proto)


# ------------------------------------------------------------------ the adapters
def adapter(h, e, p):
    """An estimator used in one dimension is a volatility model: its mean, its variance, its update."""
    h.require(p <= 1)
    f = twin(e)
    v = h.W.get("precise.conditional._PreciseVar")(e)
    h.eq("mean", v.mean, e.location_[0])
    h.eq("variance", v.variance, e.covariance_[0, 0])
    y = h.real("y")
    v.push(y)
    f.partial_fit(h.W.np.array([y]))
    same_est(h, "a push is one observation", e, f)


def adapter_new(h, e, p):
    v = h.W.get("precise.conditional._PreciseVar")(e)
    h.eq("no data: zero mean", v.mean, 0)
    h.eq("no data: unit variance", v.variance, 1)


def skater(h):
    log = []

    class Dist:
        def __init__(self, k):
            self.mean, self.std = h.real(f"mu{k}"), h.real(f"sd{k}")

    def f(y, state):
        log.append((y, state))
        return [Dist(len(log)), None], ("state", len(log))

    fac = h.W.get("precise.from_skater")(f)
    v, w = fac(), fac()
    h.fact("every series has its own model", v is not w)
    h.eq("no data: zero mean", v.mean, 0)
    h.eq("no data: unit variance", v.variance, 1)
    a, b = h.real("a"), h.real("b")
    v.push(a)
    v.push(b)
    h.fact("one call per push, the state passed on", len(log) == 2 and log[0][1] is None and log[1][1] == ("state", 1))
    h.eq("the value pushed", log[1][0], b)
    h.eq("mean of the one-step forecast", v.mean, h.real("mu2"))
    h.eq("variance of the one-step forecast", v.variance, h.real("sd2") * h.real("sd2"))
    h.eq("the other series is untouched", w.mean, 0)
    h.fact("the other series is untouched (state)", len(log) == 2)


def own_models(h):
    """A prototype estimator is cloned for every series."""
    C = h.W.get("precise.ConditionalCovariance")
    vol, corr = h.W.get("precise.EwaCovariance")(h.rate()), h.W.get("precise.OASCovariance")(h.rate("rc"))
    e = C(vol=vol, corr=corr)
    e.partial_fit(h.rows("x", 1, 3))
    ms = e._vol_models
    ests = [m._est for m in ms]
    h.fact("one model per series", len(ms) == 3 and len({id(x) for x in ests}) == 3)
    h.fact("the prototypes are never fitted", vol._state is None and corr._state is None and vol.n_features_in_ is None
           and all(x is not vol for x in ests) and e._corr_model is not corr)
    for x in ests:
        h.fact("same class", type(x) is type(vol))
        h.eq("same rate", x.r, vol.r)
    h.fact("same class (correlation)", type(e._corr_model) is type(corr))
    h.eq("same rate (correlation)", e._corr_model.r, corr.r)


def composed(d):
    """End to end with real sub-models in any state (bounded in the number of series)."""
    def body(h):
        np = h.W.np
        E, D = h.W.get("precise.EwaCovariance"), h.W.get("precise.DiagonalCovariance")
        e = h.W.get("precise.ConditionalCovariance")(vol=D(h.rate()), corr=E(h.rate("rc")))
        e.partial_fit(h.rows("x0", 1, d))
        n = h.int("n", 1 if d == 1 else 250)      # two series: past the burn-in
        e._state["n_samples"] = n
        ests = [m._est for m in e._vol_models]
        for k, x in enumerate(ests):
            x._state.update(n_samples=n, mean=h.vec(f"m{k}", 1), var=h.vec(f"v{k}", 1))
            h.require(x._state["var"][0] >= 0)
        c = e._corr_model
        c._state.update(n_samples=n, mean=h.vec("cm", d), cov=h.mat("Q", d, psd=True))
        before = [twin(x) for x in ests]
        cb = twin(c)
        x = h.rows("x", 1, d)
        e.partial_fit(x)
        z = []
        for k in range(d):
            m, v = before[k].location_[0], before[k].covariance_[0, 0]
            z.append((x[0][k] - m) / np.sqrt(v) if v > 1e-12 else 0.0)
        cb.partial_fit(np.array(z))
        for k in range(d):
            before[k].partial_fit(np.array([x[0][k]]))
            same_est(h, f"series {k} sees its raw value", ests[k], before[k])
        same_est(h, "the correlation model sees the residuals", c, cb)
    return body


def run(tier):
    P = Prover("C16", tier)
    for c in ("dcc", "dcc-default"):
        on_new(P, c, "first observation", dcc_first)
        on_state(P, c, "one observation", dcc_step)
        on_state(P, c, "read", dcc_read)
    P.check("conditional: first observation", cond_first)
    P.check("conditional: one observation", cond_step)
    for c in ("ewa", "diagonal", "huber", "empirical"):
        on_state(P, c, "as a volatility model", adapter)
        on_new(P, c, "as a volatility model, no data", adapter_new)
    P.check("skater as a volatility model", skater)
    P.check("own models", own_models)
    for d in (1, 2):
        P.check(f"conditional composed of real models, {d} series (bounded)", composed(d))
    return P.run()
