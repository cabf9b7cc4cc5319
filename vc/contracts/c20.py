"""C20: the fixed universe feeds the wrapped estimator one vector per observation and permutes its matrix on the way out.

Any number of names, any values, any pattern of missing names: the names are opaque tokens (they can be compared,
looked up and nothing else), an observation is a mapping from tokens to numbers given by two arbitrary functions
(present, value), and the wrapped estimator is an object satisfying only the estimator interface (partial_fit records
what it is given; location_, n_samples_ and covariance_ are arbitrary).
"""
from .. import terms as tm
from ..arrays import Arr, Sym, SymBool, SymList, num, tt
from ..terms import Fn, T, TRUE, as_t, b_eq, b_ge, mk_app, new_ix, sub
from ..vcapi import Prover, Unsupported
from .lib import at

MODES = ["ffill", "mean", "zero"]


class Name:
    """The name at a position of the universe."""
    _vc_pure = True

    def __init__(self, i):
        self.i = as_t(i)

    def __eq__(self, o):
        return SymBool.of(b_eq(sub(self.i, o.i))) if isinstance(o, Name) else False

    def __ne__(self, o):
        return ~(self == o) if isinstance(o, Name) else True

    def __hash__(self):
        raise Unsupported("a name is hashed")

    def _vc_subst(self, mp):
        return Name(tm.subst(self.i, mp))

    def _vc_position(self, key, k):
        """Where it is in a dict keyed by the names of the universe, in order."""
        return self.i if isinstance(key, Name) and key.i == k else None


class Names(SymList):
    """A list of distinct names."""
    _vc_pure = True

    def __init__(self, n, at=None):
        super().__init__(n, at or (lambda k: Name(k)))
        self.plain = at is None

    def _vc_list(self):
        return Names(self.n, None if self.plain else self._at)

    def index(self, name):
        if not isinstance(name, Name):
            raise ValueError
        if not self.plain:
            raise Unsupported("position in a permuted list")
        return Sym(name.i)

    def __eq__(self, o):
        if not isinstance(o, Names):
            return False
        if self.plain and o.plain:
            return SymBool.of(b_eq(sub(self.n, o.n)))
        if self.n == o.n and not (self.plain and o.plain):
            x, y = (o, self) if o.plain else (self, o)
            k = new_ix(x.n)
            return SymBool.of(tm.b_eq(tm.mk_sum([k], tm.sub(tm.ONE, tm.mk_ind(b_eq(sub(y.at(T.of(k)).i, T.of(k))))))))
        return False

    __hash__ = None


class Obs:
    _vc_pure = True

    def __init__(self, h, tag, n, full=False):
        self.h, self.n, self.full = h, n, full
        self.val = Fn.get(f"value{tag}", ("obs", tag), 1)
        self.has = Fn.get(f"has{tag}", ("has", tag), 1)

    def where(self, i):
        return TRUE if self.full else b_ge(mk_app(self.has, [i]))

    def present(self, i):
        return tm.mk_ind(self.where(i))

    def __contains__(self, k):
        return bool(SymBool.of(self.where(k.i))) if isinstance(k, Name) else False

    def __getitem__(self, k):
        return Sym(mk_app(self.val, [k.i]))

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        if not self.full:
            raise Unsupported("the names of a later observation are listed")
        return Names(tt(self.n))

    __iter__ = keys

    def _vc_list(self):
        return self.keys()


LOG = []


def stub(h, log):
    """An estimator about which only the interface is known."""
    class Est:
        count = 0

        def __init__(self, a="a"):
            self.a = a
            self.fits = []

        def get_params(self, deep=True):
            return {"a": self.a}

        def partial_fit(self, X, y=None):
            self.fits.append(X.copy())
            return self

        n_samples_ = h.int("seen", 0)

        @property
        def location_(self):
            return h.mean.copy()

        @property
        def covariance_(self):
            return h.cov.copy()

    return Est


def setup(h, mode, given):
    n = h.dim("n")
    E = stub(h, [])
    proto = E()
    h.mean, h.cov = h.vec("mean", n), h.mat("Cov", n, sym=True)
    F = h.W.get("precise.keyed.FixedUniverse")
    keys = Names(tt(n))
    f = F(proto, keys=keys if given else None, impute=mode)
    return n, proto, E, f


def spec(h, x, last, mode, i):
    """What the wrapped estimator must be given at position i."""
    v = Sym(mk_app(x.val, [tt(i)]))
    p = Sym(x.present(tt(i)))
    fill = {"ffill": lambda: at(last, i), "zero": lambda: 0}
    if mode == "mean":
        s = h.seen
        m = at(h.mean, i) if s else at(last, i)
    else:
        m = fill[mode]()
    return p * v + (1 - p) * m


def first(mode, given):
    def body(h):
        n, proto, E, f = setup(h, mode, given)
        h.raises("no output before the first observation", ValueError, lambda: f.cov_array())
        x = Obs(h, "0", n, full=not given)
        h.seen = bool(proto.n_samples_ > 0)
        r = f.update(x)
        h.fact("update returns the adapter", r is f)
        h.fact("the prototype is not fitted", not proto.fits and f._est is not proto)
        h.fact("a fresh estimator with the same parameters", type(f._est) is E and f._est.a is proto.a)
        h.fact("exactly one vector", len(f._est.fits) == 1)
        h.fact("the names of the first observation, or those given", isinstance(f.keys, Names) and f.keys.plain)
        h.eq("as many names", Sym(f.keys.n), n)
        i = h.index(n)
        zero = h.W.np.zeros(n)
        y = f._est.fits[0]
        h.fact("a vector", y.ndim == 1)
        h.eq("its length", y.shape[0], n)
        h.eq("its entries", at(y, i), spec(h, x, zero, mode, i))
        p = Sym(x.present(tt(i)))
        h.eq("last seen", at(f._last, i), p * Sym(mk_app(x.val, [tt(i)])))
    return body


def later(mode, verb):
    def body(h):
        n, proto, E, f = setup(h, mode, True)
        f._est = E()                                # an arbitrary later state
        last = h.vec("last", n)
        f._last = last.copy()
        est = f._est
        x = Obs(h, "1", n)
        h.seen = bool(est.n_samples_ > 0)
        if verb == "learn_many":
            f.learn_many([x])
        else:
            getattr(f, verb)(x)
        h.fact("the same estimator", f._est is est and len(est.fits) == 1 and not proto.fits)
        h.fact("the same names", isinstance(f.keys, Names) and f.keys.plain)
        h.eq("as many names", Sym(f.keys.n), n)
        i = h.index(n)
        y = est.fits[0]
        h.fact("a vector", y.ndim == 1)
        h.eq("its length", y.shape[0], n)
        h.eq("its entries", at(y, i), spec(h, x, last, mode, i))
        p = Sym(x.present(tt(i)))
        h.eq("last seen", at(f._last, i), p * Sym(mk_app(x.val, [tt(i)])) + (1 - p) * at(last, i))
    return body


def outputs(how):
    def body(h):
        n, proto, E, f = setup(h, "ffill", True)
        f._est = E()
        f._last = h.vec("last", n)
        C = h.cov
        if how == "all":
            M, k = f.cov_array()
            h.fact("names", isinstance(k, Names) and k.plain and k is not f.keys)
            h.eq("matrix", M, C)
            h.eq("get_cov", f.get_cov(), C)
            return
        m = h.dim("m")
        g = Fn.get("pos", ("pos",), 1, integer=True)        # the position of the q-th name asked for
        g.props["entry"] = lambda q: [b_ge(mk_app(g, [q])), b_ge(sub(sub(tt(n), tm.ONE), mk_app(g, [q])))]
        asked = Names(tt(m), lambda q: Name(mk_app(g, [q])))
        M, k = f.cov_array(asked)
        h.eq("rows", M.shape[0], m)
        h.eq("columns", M.shape[1], m)
        a, b = h.index(m), h.index(m)
        pa, pb = Sym(mk_app(g, [tt(a)])), Sym(mk_app(g, [tt(b)]))
        h.eq("the entry of the two names", at(M, a, b), at(C, pa, pb))
        h.eq("names in the order asked for", Sym(k.at(tt(a)).i), pa)
        h.fact("nothing fitted", not f._est.fits and not proto.fits)
    return body


def door(h):
    n = h.dim("n")
    E = stub(h, [])
    proto = E()
    h.mean, h.cov = h.vec("mean", n), h.mat("Cov", n, sym=True)
    W = h.W
    F, D, keyed, Ewa = (W.get(f"precise.keyed.{x}") for x in ("FixedUniverse", "DynamicUniverse", "keyed", "EwaCovariance"))
    keys = Names(tt(n))
    f = keyed(proto, keys=keys, impute="mean")
    h.fact("a fixed universe", type(f) is F and f.impute == "mean" and isinstance(f.keys, Names) and f.keys is not keys)
    h.fact("carried by default", F(proto).impute == "ffill" and keyed(proto).impute == "ffill")
    d = keyed(proto, dynamic=True, max_universes=3, max_staleness=4)
    h.fact("a dynamic universe", type(d) is D and d.max_universes == 3 and d.max_staleness == 4)
    x = Obs(h, "0", n, full=True)
    for a, kw in ((F(E, a="b"), {}), (keyed(E, a="b"), {}), (keyed(E, impute="zero", a="b"), {})):
        a.update(x)
        h.fact("a class is given its parameters", type(a._est) is E and a._est.a == "b" and len(a._est.fits) == 1)
    for a in (F(), keyed()):
        a.update(x)
        e = a._est
        h.fact("an EWA estimator by default", type(e) is Ewa and e.get_params() == Ewa().get_params())
        h.eq("fed once", e.n_samples_, 1)
    for A in (F, D):
        h.raises("parameters for an estimator that has them", ValueError, lambda: A(proto, a="b"))


def run(tier):
    from . import keyedout

    P = Prover("C20", tier)
    for m in MODES:
        for given in (True, False):
            P.check(f"first observation/{m}/{'names given' if given else 'names from it'}", first(m, given))
        P.check(f"update/{m}", later(m, "update"))
    for v in ("learn_one", "learn_many"):
        P.check(f"{v}", later("ffill", v))
    P.check("the ways in", door)
    P.check("output/all names", outputs("all"))
    P.check("output/names asked for", outputs("asked"))
    keyedout.run(P, "precise.keyed.FixedUniverse")
    return P.run()
