"""Estimator configurations: every registered class with symbolic admissible parameters.

Each entry builds the unfitted estimator through the real constructor; ``GEN[name]`` is its generic
reachable state (see vcapi.Gen): the invariants it assumes are proved inductive over the real
``partial_fit`` in the same run, for any dimension, any parameters, any history.
"""
from ..vcapi import Gen, Unsupported


def _c(cls, **kw):
    def make(h):
        return h.W.get("precise." + cls)(**{k: (f(h) if callable(f) else f) for k, f in kw.items()}), h.dim()
    return make


R = lambda h: h.rate()

CFG = {
    "empirical": _c("EmpiricalCovariance"),
    "diagonal": _c("DiagonalCovariance", r=R),
    "ewa": _c("EwaCovariance", r=R),
    "ledoitwolf": _c("LedoitWolfCovariance", r=R),
    "oas": _c("OASCovariance", r=R),
    "shrunk": _c("ShrunkCovariance", r=R, delta=lambda h: h.real("delta", 0, 1)),
    "shrunk-identity": _c("ShrunkCovariance", r=R, delta=lambda h: h.real("delta", 0, 1), target="identity"),
    "huber": _c("HuberCovariance", r=R, c=lambda h: h.real("c", 0, lo_open=True)),
    "adaptive": _c("AdaptiveEwaCovariance", r=R, max_r=lambda h: h.rate("max_r")),
    "tyler": _c("TylerCovariance", r=R),
    "partialmoments": _c("PartialMomentsCovariance", r=R),
    "dcc": _c("DCCCovariance", r=R, vol_r=lambda h: h.rate("vol_r")),
    "dcc-default": _c("DCCCovariance", r=R),
    "factor": _c("FactorCovariance", r=R, k=lambda h: h.dim("k")),
    "geodesic": _c("GeodesicEwaCovariance", r=R),
    "schur": _c("SchurCovariance", r=R, n_blocks=lambda h: h.dim("nb"), gamma=lambda h: h.real("gam", 0, 1)),
    "schur-geodesic": _c("SchurCovariance", r=R, n_blocks=lambda h: h.dim("nb"), gamma=lambda h: h.real("gam", 0, 1),
                         interpolation="geodesic"),
    "schur-lw": _c("SchurLedoitWolfCovariance", r=R, n_blocks=lambda h: h.dim("nb")),
    "schur-conditional": _c("SchurConditionalCovariance", r=R, n_blocks=lambda h: h.dim("nb")),
    "block": _c("BlockCovariance", r=R, n_blocks=lambda h: h.dim("nb")),
}
GEN = {n: Gen(m, n) for n, m in CFG.items()}
ALL = list(CFG)


class GenDiff:
    """Reachable states of the same configuration on first differences: fed with two levels, then generic.

    Its invariants are those of the plain configuration (C26: the state is that of the plain estimator)."""

    def __init__(self, cfg):
        self.cfg, self.plain = cfg, GEN[cfg]

    def fresh(self, h):
        e, p = CFG[self.cfg](h)
        e.diff = True
        return e, p

    def level(self, h):
        e, p = self.fresh(h)
        e.partial_fit(h.rows("x00", 1, p))
        return e, p

    def state(self, h):
        e, p = self.level(h)
        e.partial_fit(h.rows("x0", 1, p))
        if self.plain.inv is None:
            raise Unsupported("invariants not inferred")
        self.plain.install(h, e, self.plain.inv)
        return e, p


DIFF = {n: GenDiff(n) for n in CFG}


def on_diff(P, cfg, name, body, kind="state", **kw):
    """The contract on a differencing estimator: unfitted, holding one level, or in any fitted state."""
    g = DIFF[cfg]
    if cfg == "schur-conditional":
        kw.setdefault("merge", True)
        kw.setdefault("seconds", 60)
    P.check(f"{cfg} (diff, {kind}): {name}", lambda h: body(h, *getattr(g, kind)(h)), gens=[g.plain] if kind == "state" else [], **kw)


def on_state(P, cfg, name, body, **kw):
    """The contract ``body(h, est, p)`` on an arbitrary reachable fitted state of configuration cfg."""
    g = GEN[cfg]
    if cfg == "schur-conditional":
        kw.setdefault("merge", True)      # effective sample size as one term: a third of the paths
        kw.setdefault("seconds", 60)
    P.check(f"{cfg}: {name}", lambda h: body(h, *g.state(h)), gens=[g], **kw)


def on_new(P, cfg, name, body, **kw):
    """The contract ``body(h, est, p)`` on the unfitted estimator."""
    P.check(f"{cfg}: {name}", lambda h: body(h, *CFG[cfg](h)), **kw)
