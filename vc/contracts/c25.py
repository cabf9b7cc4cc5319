"""C25: parameters round-trip whatever their values; the registry and the name lookup agree.

The parameter values are opaque: objects that allow nothing but being passed on, compared by identity and printed.
Code that runs on them treats every value alike, so the facts hold for all values.
"""
import inspect

from ..vcapi import Prover, Unsupported
from .est import ALL, CFG, GEN, on_new, on_state
from .lib import RowLoop, Watch, arbitrary_state


class Token:
    def __init__(self, tag):
        object.__setattr__(self, "tag", tag)

    def __repr__(self):
        return f"<{object.__getattribute__(self, 'tag')}>"

    def _no(self, *a, **k):
        raise Unsupported("a parameter value is looked into")

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __index__ = __len__ = __iter__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __getitem__ = _no
    __call__ = __str__ = __hash__ = _no

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, name):
        if name == "__array__" or name.startswith("_vc"):
            raise AttributeError(name)
        raise Unsupported("a parameter value is looked into")


def classes(h):
    return h.W.get("precise.registry.all_estimators")() + [h.W.get("precise.ConditionalCovariance")]


def names_of(c):
    return [k for k in inspect.signature(c.__init__).parameters if k != "self"]


def protocol(k):
    def body(h):
        cs = classes(h)
        if k >= len(cs):
            h.fact("no further class", k < 24 and len(cs) <= 24)
            return
        c = cs[k]
        n = names_of(c)
        v = {x: Token(f"{c.__name__}.{x}") for x in n}
        e = c(**v)
        got = e.get_params()
        h.fact("get_params: exactly the constructor arguments", list(got) == n and all(got[x] is v[x] for x in n), list(got))
        for deep in (True, False):
            g2 = e.get_params(deep=deep)
            h.fact(f"get_params(deep={deep})", list(g2) == n and all(g2[x] is v[x] for x in n))
        h.fact("a fresh dict", got is not e.get_params())
        f = c(**got)
        h.fact("rebuilt with the same parameters", all(f.get_params()[x] is v[x] for x in n))
        h.fact("rebuilt unfitted", f._state is None and f.n_features_in_ is None and f.n_samples_ == 0)
        # positional construction
        p = c(*[v[x] for x in n])
        h.fact("positional arguments", all(p.get_params()[x] is v[x] for x in n))
        r = repr(e)
        if c.__name__ != "ConditionalCovariance":
            h.fact("representation", r == f"{c.__name__}({', '.join(f'{x}={v[x]!r}' for x in n)})", r)
        else:
            h.fact("representation", r.startswith("ConditionalCovariance(") and all(f"{x}={v[x]!r}" in r for x in n), r)
        # every subset of the parameters
        for s in range(2 ** len(n)):
            w = {x: Token(f"new {x}") for i, x in enumerate(n) if s >> i & 1}
            g = c(**v)
            out = g.set_params(**w)
            now = g.get_params()
            h.fact("set_params returns the estimator", out is g)
            h.fact("set_params changes exactly the named ones", list(now) == n and all(now[x] is w.get(x, v[x]) for x in n), sorted(w))
        # defaults
        d = {x: q.default for x, q in inspect.signature(c.__init__).parameters.items() if x != "self"}
        got = c().get_params()
        if c.__name__ != "ConditionalCovariance":
            h.fact("defaults", list(got) == n and all(got[x] is d[x] or got[x] == d[x] for x in n))
        for q in ("precise.keyed._clone", "precise.conditional._clone"):
            g = h.W.get(q)(e)
            h.fact("a clone: the class, the parameters, no state", type(g) is c and g is not e and g._state is None
                   and all(g.get_params()[x] is v[x] for x in n))
    return body


class NoName(str):
    """A string that is the name of nothing."""

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = str.__hash__


def registry(h):
    reg = h.W.get("precise.registry.all_estimators")
    names = h.W.get("precise.registry.estimator_names")
    find = h.W.get("precise.registry.estimator_from_name")
    cs = reg()
    h.fact("names in registry order", names() == [c.__name__ for c in cs])
    h.fact("none twice", len(set(cs)) == len(cs) == len(set(names())))
    for c in cs:
        h.fact(f"lookup of {c.__name__}", find(c.__name__) is c)
        h.fact(f"{c.__name__} is exported", h.W.get("precise." + c.__name__) is c)
    h.raises("an unknown name is rejected", KeyError, lambda: find(NoName("?")))
    cs.clear()
    h.fact("the registry is not handed out", len(reg()) == len(names()) > 0)


def kept(h, e, p):
    """Fitting and reading leave the parameters as they are."""
    before = dict(e.get_params())
    e.partial_fit(h.rows("x", 1, p))
    e.location_
    after = e.get_params()
    h.fact("parameters untouched by fitting", list(after) == list(before) and all(after[k] is before[k] for k in before))


def kept_fit(cfg, kind):
    """fit on any number of rows: the parameters before are those met at any row, and those after."""
    def body(h):
        e, p = CFG[cfg](h)
        put = arbitrary_state(h, p, GEN[cfg], False)
        put(e, "state", "s")
        before = dict(e.get_params())

        def same(when):
            after = e.get_params()
            h.fact(f"parameters untouched {when}", list(after) == list(before) and all(after[k] is before[k] for k in before))
        X = h.rows("X", h.dim("n"), p)
        L = RowLoop(h, e, X, lambda est, pre: put(est, kind, pre), lambda: same("before the first row"), lambda L, row: same("by a row"))
        h.R.loop_cut = L
        e.fit(X)
        L.reached()
        same("after the last row")
    return body


def kept_read(h, e, p):
    before = dict(e.get_params())
    e.covariance_
    after = e.get_params()
    h.fact("parameters untouched by reading", list(after) == list(before) and all(after[k] is before[k] for k in before))


def clone_fitted(h, e, p):
    """A clone of a fitted estimator is unfitted, and shares nothing with it."""
    for q in ("precise.keyed._clone", "precise.conditional._clone"):
        st = e._state
        W = Watch(h, st)
        c = h.W.get(q)(e)
        h.fact("unfitted", c._state is None and c.n_features_in_ is None and type(c) is type(e))
        h.fact("same parameters", all(a is b for a, b in zip(c.get_params().values(), e.get_params().values())))
        h.fact("the original keeps its state", e._state is st and not W.hit)
        x = h.rows("x", 1, p)
        c.partial_fit(x)
        h.fact("using the clone leaves the original alone", e._state is st and not W.hit)


def run(tier):
    P = Prover("C25", tier)
    for k in range(24):
        P.check(f"class {k}", protocol(k))
    P.check("registry", registry)
    for c in ALL:
        on_state(P, c, "fitting keeps the parameters", kept)
        if c in GEN:
            for k in ("fresh", "state"):
                P.check(f"{c}: fit keeps the parameters, row met {k}", kept_fit(c, k), gens=[GEN[c]])
        on_state(P, c, "reading keeps the parameters", kept_read)
        on_state(P, c, "clone", clone_fitted)
    return P.run()
