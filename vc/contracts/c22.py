"""C22: the matrix a dynamic universe assembles, for any list of names and any number of kept key-sets in any state.

The kept key-sets are slots as in C21, each with an estimator whose n_samples_ and covariance_ are arbitrary.  The real
DynamicUniverse.cov_array runs on them; the projection is known by its contract (C19): a symmetric positive definite
matrix, its argument when that is positive definite.  What is handed to it is the assembly.
"""
from .. import exec as ex
from .. import terms as tm
from ..arrays import Arr, Sym, SymBool, SymList, as_arr, bb, num, tt
from ..terms import Fn, T, as_t, b_and, b_eq, b_ge, b_not, mk_app, mk_ind, mk_sum, new_ix, sub
from ..vcapi import Prover, Unsupported
from .c21 import KeyList, KeySet, States, stub
from .lib import at


class Name:
    """The i-th name asked for."""
    _vc_pure = True

    def __init__(self, S, i):
        self.S, self.i = S, as_t(i)

    def __eq__(self, o):
        return SymBool.of(b_eq(sub(self.i, o.i))) if isinstance(o, Name) else False

    def __ne__(self, o):
        return ~(self == o) if isinstance(o, Name) else True

    def __hash__(self):
        raise Unsupported("a name is hashed")

    def _vc_subst(self, mp):
        return Name(self.S, tm.subst(self.i, mp))

    def _vc_position(self, key, k):
        """Where it is in a dict keyed by the names asked for, in order."""
        return self.i if isinstance(key, Name) and key.i == k else None

    @staticmethod
    def _vc_setlit(xs):
        if not all(isinstance(x, Name) for x in xs):
            raise Unsupported("a set of names and something else")
        return Group(xs)


class Group:
    """A set of names asked for."""
    _vc_pure = True

    def __init__(self, xs):
        self.xs = xs

    def issubset(self, o):
        if not isinstance(o, KeySet):
            raise Unsupported("names against something else")
        return SymBool.of(b_and(*[o.S.holds(o.k, x.i) for x in self.xs]))

    __le__ = issubset

    def _vc_set(self):
        return self


class Asked(SymList):
    """A list of distinct names."""
    _vc_pure = True

    def __init__(self, S, n, off=0):
        super().__init__(n, lambda k: Name(S, tm.add(as_t(k), as_t(off))))
        self.S, self.off = S, off

    def _vc_list(self):
        return Asked(self.S, self.n, self.off)

    def _vc_len(self):
        return Sym(self.n)

    def index(self, x):
        if self.off or not isinstance(x, Name):
            raise Unsupported("position in a list of names")
        return Sym(x.i)


class Keys(KeyList):
    """The column order of slot k."""

    def index(self, x):
        if not isinstance(x, Name):
            raise Unsupported("position of something else")
        return Sym(mk_app(self.S.pos, [self.k, x.i]))

    def _vc_subst(self, mp):
        return Keys(self.S, tm.subst(self.k, mp), tm.subst(self.n, mp))

    def __contains__(self, x):
        return x in KeySet(self.S, self.k)

    def _vc_set(self):
        return Held(self.S, self.k)


class Held(KeySet):
    def __contains__(self, x):
        if not isinstance(x, Name):
            raise Unsupported("membership of something else")
        return bool(SymBool.of(self.S.holds(self.k, x.i)))

    def issuperset(self, o):
        return o.issubset(self)

    __ge__ = issuperset

    def _vc_set(self):
        return self

    def _vc_subst(self, mp):
        return Held(self.S, tm.subst(self.k, mp))


class Fitted:
    """The wrapped estimator of slot k."""
    _vc_pure = True

    def __init__(self, S, k):
        self.S, self.k = S, k

    @property
    def n_samples_(self):
        return Sym(mk_app(self.S.seen, [self.k]))

    @property
    def covariance_(self):
        S, k = self.S, self.k
        n = mk_app(S.size, [k])
        return Arr.make((n, n), lambda a, b: mk_app(S.C, [k, a, b]))

    def _vc_subst(self, mp):
        return Fitted(self.S, tm.subst(self.k, mp))


class Kept(States):
    def __init__(self, h, K, n):
        super().__init__(h, K)
        S = self
        self.has = Fn.get("has", ("slot", "has"), 2)
        self.pos = Fn.get("pos", ("slot", "pos"), 2, integer=True)
        # a slot has at least one column; that the slot read from holds the names is proved
        self.pos.props["entry"] = lambda k, i: [b_ge(mk_app(self.pos, [k, i])),
                                                b_ge(sub(sub(mk_app(S.size, [k]), mk_app(self.pos, [k, i])), tm.ONE))]
        self.seen = Fn.get("seen", ("slot", "seen"), 1, integer=True)
        self.seen.props["entry"] = lambda k: [b_ge(mk_app(self.seen, [k]))]
        self.C = Fn.get("C", ("slot", "C"), 3)
        for f, v in (("keys", lambda o: Keys(S, o._k, mk_app(S.size, [o._k]))), ("keys_set", lambda o: Held(S, o._k)),
                     ("_est", lambda o: Fitted(S, o._k))):
            setattr(self.Slot, f, property(v))

    def holds(self, k, i):
        return b_ge(mk_app(self.has, [k, i]))

    def usable(self, k, i, j):
        """Slot k is kept, holds both names and has seen data."""
        return b_and(self.guard()(k), self.holds(k, i), self.holds(k, j), b_ge(sub(mk_app(self.seen, [k]), tm.ONE)))

    def count(self, i, j):
        k = new_ix(tt(self.K))
        return mk_sum([k], mk_ind(self.usable(T.of(k), i, j)))


class Projection:
    """nearest_pos_def by its contract."""

    def __init__(self, h, n):
        self.h, self.n, self.args = h, n, []

    def __call__(self, A):
        h = self.h
        A = as_arr(A)
        self.args.append(A.copy())
        h.sym("what is projected is symmetric", A)
        return h.mat("projected", self.n, pd=True)


def setup(h):
    E = stub(h)
    proto = E()
    d = h.W.get("precise.keyed.DynamicUniverse")(proto)
    if d.__dict__.get("states") != {}:
        raise Unsupported("the kept universes are held otherwise")
    n, K = h.dim("n"), h.dim("K")
    S = Kept(h, K, n)
    d.states = S
    return d, S, n, K, proto


def assembled(part, given=True):
    def body(h):
        d, S, n, K, proto = setup(h)
        N = Projection(h, n)
        h.W.replace("precise.keyed.nearest_pos_def", N)
        asked = Asked(S, tt(n))
        M, keys = d.cov_array(asked)
        h.fact("the names in the order asked for", isinstance(keys, Asked) and not keys.off)
        h.eq("as many", Sym(keys.n), n)
        h.fact("projected once", len(N.args) == 1)
        h.eq("the projection is returned", M, h.mat("projected", n, pd=True))
        A = N.args[0]
        h.eq("rows", A.shape[0], n)
        h.eq("columns", A.shape[1], n)
        i, j = h.index(n), h.index(n)
        if part == "one":
            h.require(i == j)
            j = i
        else:
            h.require(i < j)
        ti, tj = tt(i), tt(j)
        h.eq("symmetric in the pair", at(A, i, j), at(A, j, i))
        if bool(Sym(S.count(ti, tj)) >= 1):
            v = at(A, i, j)
            v = Sym(h.R.ctx.simp(tt(v)))
            apps = {a for mono in tt(v).m for a, _ in mono if a.kind == "app" and a.args[0] is S.C}
            if len(apps) != 1:
                raise Unsupported(f"what is read for a pair: {str(tt(v))[:300]}")
            k, a, b = next(iter(apps)).args[1]
            best = [x for mono in k.m for x, _ in mono if x.kind == "app" and x.args[0] in h.R.best_facts]
            if len(best) != 1:
                raise Unsupported("how the universe is chosen")
            base, fact = h.R.best_facts[best[0].args[0]](best[0].args[1])
            h.R.assume(base)
            h.true("a kept universe that has seen both", SymBool.of(b_and(b_ge(k), b_ge(sub(sub(tt(K), k), tm.ONE)), S.usable(k, ti, tj))))
            q = h.index(K)
            h.require(SymBool.of(S.usable(tt(q), ti, tj)))
            h.R.assume(fact(tt(q)))
            lk, lq = at(S.lon, Sym(k)), at(S.lon, q)
            h.true("the longest-lived, the least stale among equals", (lk > lq) | ((lk == lq) & (at(S.stale, Sym(k)) <= at(S.stale, q))))
            P = S.pos
            h.eq("its entry for the pair", v, Sym(mk_app(S.C, [k, mk_app(P, [k, ti]), mk_app(P, [k, tj])])))
        else:
            u, w = new_ix(tt(n)), new_ix(tt(n))
            U, W = T.of(u), T.of(w)
            avail = tm.mul(tm.mk_ind(b_ge(sub(S.count(U, W), tm.ONE))), tm.mk_ind(b_not(b_eq(sub(U, W)))))
            fill = tt(at(A, i, j))
            tot = mk_sum([u, w], tm.mul(avail, num(A.at(U, W))))
            num_ = mk_sum([u, w], avail)
            if bool(Sym(num_) >= 1):
                h.eq("the average of the available off-diagonal entries", Sym(fill), Sym(tot) / Sym(num_))
            else:
                h.eq("zero when there are none", Sym(fill), 0)
    return body


def run(tier):
    from . import keyedout

    P = Prover("C22", tier)
    P.check("a name with itself", assembled("one"))
    P.check("a pair of names", assembled("two"))
    keyedout.run(P, "precise.keyed.DynamicUniverse")
    return P.run()
