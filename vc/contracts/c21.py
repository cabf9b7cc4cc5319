"""C21: the bookkeeping of the dynamic universe, for any number of kept key-sets, from any state, for any observation.

The kept key-sets are slots 0..K-1 of which some are alive; staleness, longevity and the number of vectors absorbed in
this update are arrays over the slots, the key-sets and their relations to the observed one (included, equal) arbitrary.
The real DynamicUniverse.update and _Universe.update run on slot k through an object whose fields are entry k of these
arrays.  Invariants assumed of the state and re-established: at most max_universes alive, keys below the counter.
"""
from .. import arrays as ar
from .. import exec as ex
from .. import terms as tm
from ..arrays import Arr, Sym, SymBool, SymList, num, tt
from ..terms import Fn, T, as_t, b_and, b_ge, mk_app, mk_ind, mk_sum, new_ix, sub
from ..vcapi import Prover, Unsupported
from .lib import at


class Tok:
    """A name: the j-th of slot k, or of the observation (k None)."""
    _vc_pure = True

    def __init__(self, k, j):
        self.k, self.j = k, as_t(j)

    def _no(self, *a):
        raise Unsupported("a name is looked into")

    __eq__ = __ne__ = __hash__ = __lt__ = _no

    def _vc_subst(self, mp):
        return Tok(None if self.k is None else tm.subst(self.k, mp), tm.subst(self.j, mp))


class KeyList(SymList):
    _vc_pure = True

    def __init__(self, S, k, n):
        super().__init__(n, lambda j: Tok(k, j))
        self.S, self.k = S, k

    def _vc_list(self):
        return KeyList(self.S, self.k, self.n)

    def _vc_set(self):
        return KeySet(self.S, self.k)

    def _vc_subst(self, mp):
        return self if self.k is None else KeyList(self.S, tm.subst(self.k, mp), tm.subst(self.n, mp))


class KeySet:
    """The key-set of slot k, or of the observation (k None)."""
    _vc_pure = True

    def __init__(self, S, k):
        self.S, self.k = S, k

    def _rel(self, o, f):
        if not isinstance(o, KeySet):
            raise Unsupported("a key-set against something else")
        if self.k is None and o.k is None:
            return True
        if o.k is None:
            return SymBool.of(b_ge(mk_app(f, [self.k])))
        raise Unsupported("two kept key-sets are compared")

    def issubset(self, o):
        return self._rel(o, self.S.incl)

    __le__ = issubset

    def issuperset(self, o):
        return o.issubset(self)

    __ge__ = issuperset

    def __eq__(self, o):
        return o == self if self.k is None and o.k is not None else self._rel(o, self.S.same)

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None

    def _vc_set(self):
        return self

    def _vc_subst(self, mp):
        return self if self.k is None else KeySet(self.S, tm.subst(self.k, mp))

    def _vc_same(self, o):
        return isinstance(o, KeySet) and self.k == o.k


class Obs:
    """The observed dict: arbitrary values under its own names and, for a slot included in it, under that slot's."""
    _vc_pure = True

    def __init__(self, S):
        self.S = S

    def __getitem__(self, t):
        if not isinstance(t, Tok):
            raise Unsupported("lookup in the observation")
        return Sym(mk_app(self.S.xval, [t.j]) if t.k is None else mk_app(self.S.sval, [t.k, t.j]))

    def keys(self):
        return KeyList(self.S, None, self.S.m.t)

    def _vc_dict(self):
        return Obs(self.S)

    copy = _vc_dict

    def _vc_set(self):
        return KeySet(self.S, None)

    def _vc_list(self):
        return self.keys()

    def _vc_len(self):
        return self.S.m


class Est:
    """The wrapped estimator of slot k: counts what it absorbs, which must be the observation in slot order."""
    _vc_pure = True

    def __init__(self, S, k):
        self.S, self.k = S, k

    def partial_fit(self, y):
        S, h, k = self.S, self.S.h, self.k
        h.inloop = True
        h.eq("absorbed: length", y.shape[0], Sym(mk_app(S.size, [k])))
        j = h.index(Sym(mk_app(S.size, [k])))
        h.eq("absorbed: the observation in the column order of the key-set", at(y, j), Sym(mk_app(S.sval, [k, tt(j)])))
        h.inloop = False
        S.fits[Sym(k)] = S.fits[Sym(k)] + 1
        return self


class SlotKey:
    _vc_pure = True

    def __init__(self, k):
        self.k = as_t(k)

    def _vc_subst(self, mp):
        return SlotKey(tm.subst(self.k, mp))

    def _vc_same(self, o):
        return isinstance(o, SlotKey) and self.k == o.k


def field(arr):
    def get(self):
        return getattr(self._S, arr)[Sym(self._k)]

    def put(self, v):
        getattr(self._S, arr)[Sym(self._k)] = v

    return property(get, put)


class States:
    """The dict of kept universes."""
    _vc_pure = True

    def __init__(self, h, K):
        self.h, self.K = h, K
        k = tt(K)

        def ints(name, lo):
            f = Fn.get(name, ("slot", name), 1, integer=True)
            f.props["entry"] = lambda i: [b_ge(sub(mk_app(f, [i]), as_t(lo)))]
            return Arr.make((k,), lambda i: mk_app(f, [i]))

        self.stale, self.lon, self.size_ = ints("staleness", 0), ints("longevity", 1), ints("size", 0)
        self.size = Fn.get("size", ("slot", "size"), 1, integer=True)
        self.live = Fn.get("live", ("slot", "live"), 1)
        self.incl, self.same = Fn.get("included", ("slot", "incl"), 1), Fn.get("equal", ("slot", "same"), 1)
        self.same.props["entry"] = lambda i: [tm.b_or(tm.b_not(b_ge(mk_app(self.same, [i]))), b_ge(mk_app(self.incl, [i])))]
        self.sval, self.xval = Fn.get("value", ("slot", "value"), 2), Fn.get("observed", ("observed",), 1)
        self.m = h.int("m", 0)
        self.alive = Arr.make((k,), lambda i: mk_ind(b_ge(mk_app(self.live, [i]))))
        self.fits = Arr.make((k,), lambda i: tm.ZERO)
        U = h.W.get("precise.keyed._Universe")
        S = self

        def setattr_(o, n, v):
            if n not in ("staleness", "longevity"):
                raise Unsupported(f"a universe gets a {n}")
            object.__setattr__(o, n, v)

        self.Slot = type("Slot", (U,), {
            "_vc_pure": True, "staleness": field("stale"), "longevity": field("lon"), "__setattr__": setattr_,
            "keys": property(lambda o: KeyList(S, o._k, mk_app(S.size, [o._k]))),
            "keys_set": property(lambda o: KeySet(S, o._k)), "_est": property(lambda o: Est(S, o._k)),
            "_vc_subst": lambda o, mp: S.slot(tm.subst(o._k, mp)),
            "_vc_same": lambda o, p: type(o) is type(p) and o._k == p._k})
        self.extra = []

    def slot(self, k):
        o = object.__new__(self.Slot)
        o.__dict__.update(_k=as_t(k), _S=self)
        return o

    def guard(self):
        s = self.alive.snap()
        return lambda k: tm.b_gt(num(s(k)))

    def _list(self, f):
        if self.extra:
            raise Unsupported("the kept universes are listed after one is added")
        return ex.GList(tt(self.K), f, self.guard())

    def values(self):
        return self._list(self.slot)

    def items(self):
        return self._list(lambda k: (SlotKey(k), self.slot(k)))

    def keys(self):
        return self._list(SlotKey)

    _vc_list = keys

    def __iter__(self):
        raise Unsupported("iteration over the kept universes")

    def __getitem__(self, k):
        if not isinstance(k, SlotKey):
            raise Unsupported("lookup of a universe")
        return self.slot(k.k)

    def __delitem__(self, k):
        if not isinstance(k, SlotKey):
            raise Unsupported("deletion of a universe")
        self.alive[Sym(k.k)] = 0

    def pop(self, k, *d):
        r = self[k]
        del self[k]
        return r

    def __setitem__(self, k, u):
        if ar.RT.loops:
            raise Unsupported("a universe is added in a loop")
        self.extra.append((k, u))

    def count(self):
        return Sym(tm.add(self._count(), as_t(len(self.extra))))

    def _count(self):
        k = new_ix(tt(self.K))
        return mk_sum([k], num(self.alive.at(T.of(k))))

    _vc_len = count

    def __bool__(self):
        return bool(self.count() >= 1)


def stub(h):
    class Wrapped:
        def __init__(self, a="a"):
            self.a, self.fits = a, []

        def get_params(self, deep=True):
            return {"a": self.a}

        def partial_fit(self, X, y=None):
            self.fits.append(X.copy())
            return self

    return Wrapped


def total(K, f):
    k = new_ix(tt(K))
    return Sym(mk_sum([k], tt(f(Sym(T.of(k))))))


def update(verb, none=False):
    def body(h):
        E = stub(h)
        proto = E()
        mu, ms = h.int("max_universes", 1), h.int("max_staleness", 0)
        d = h.W.get("precise.keyed.DynamicUniverse")(proto, max_universes=mu, max_staleness=ms)
        if d.__dict__.get("states") != {} or d.__dict__.get("_counter") != 0:
            raise Unsupported("the kept universes are held otherwise")
        K = 0 if none else h.dim("K")
        S = States(h, K)
        c0 = h.int("counter", 0)
        d.states, d._counter = S, c0
        st, lon, al = S.stale.copy(), S.lon.copy(), S.alive.copy()
        h.require(S.count() <= mu)
        x = Obs(S)
        if verb == "learn_many":
            r = d.learn_many([x])
        else:
            r = getattr(d, verb)(x)
        h.fact("returns the adapter", r is d)
        h.fact("the prototype is not fitted", not proto.fits)
        h.fact("the last observation is a copy of its own", isinstance(d.x, Obs) and d.x is not x)
        one = lambda b: Sym(mk_ind(b.b if isinstance(b, SymBool) else (tm.TRUE if b else tm.FALSE)))
        inc = lambda j: Sym(mk_ind(b_ge(mk_app(S.incl, [tt(j)]))))
        eq = lambda j: Sym(mk_ind(b_ge(mk_app(S.same, [tt(j)]))))
        st1 = lambda j: (1 - inc(j)) * (at(st, j) + 1)
        mid = lambda j: at(al, j) * one(st1(j) <= ms)
        post = lambda j: at(S.alive, j)
        there = total(K, lambda j: mid(j) * eq(j))
        have, after = total(K, mid), total(K, post)
        h.ge("dropping lowers the count", total(K, lambda j: at(al, j)) - have)
        h.require(total(K, lambda j: at(al, j)) >= have)
        fresh = [u for _, u in S.extra]
        full = bool(have >= mu)
        if not none:
            i, j = h.index(K), h.index(K)
            for _, M, f in h.R.choices:
                for q in (i, j):
                    h.R.assume(f(tt(q)))
            for q in (i, j):
                h.R.assume(S.same.props["entry"](tt(q))[0])
            h.eq("absorbed exactly once if included, else not at all", at(S.fits, i), at(al, i) * inc(i))
            h.eq("age", at(S.stale, i), at(al, i) * st1(i) + (1 - at(al, i)) * at(st, i))
            h.eq("longevity", at(S.lon, i), at(lon, i) + at(al, i) * inc(i))
            h.ge("age not negative", at(S.stale, i))
            if fresh and full:
                gone = lambda q: mid(q) - post(q)
                h.ge("only kept ones remain", gone(i))
                h.eq("exactly one goes", after, have - 1)
                who = [Sym(M) for _, M, _ in h.R.choices if h.R.entails(b_ge(sub(tt(gone(Sym(M))), tm.ONE)))]
                if len(who) != 1:
                    raise Unsupported("how the universe to go is chosen")
                if bool(mid(j) >= 1):
                    u, v = at(S.stale, who[0]), at(S.stale, j)
                    h.true("the longest unfed, the shortest-lived among equals",
                           (u > v) | ((u == v) & (at(S.lon, who[0]) <= at(S.lon, j))))
            else:
                h.eq("dropped exactly when unfed for too long", post(i), mid(i))
        h.ge("at most max_universes", mu - after - len(fresh))
        if bool(there >= 1):
            h.fact("the key-set is already kept", not fresh)
        else:
            h.fact("the key-set is added", len(fresh) == 1)
        h.eq("the counter never falls behind", one(d._counter >= c0 + len(fresh)), 1)
        for key, u in S.extra:
            h.true("under a key of its own", (key >= c0) & (key < d._counter))
            h.fact("a universe over the observed names", isinstance(u.keys, KeyList) and u.keys.k is None and isinstance(u.keys_set, KeySet)
                   and u.keys_set.k is None)
            h.eq("all of them", Sym(u.keys.n), S.m)
            h.eq("age 0", u.staleness, 0)
            h.eq("longevity 1", u.longevity, 1)
            h.fact("its own fresh estimator, fed once", type(u._est) is E and u._est is not proto and u._est.a is proto.a
                   and len(u._est.fits) == 1)
            y = u._est.fits[0]
            h.eq("fed: length", y.shape[0], S.m)
            q = h.index(S.m)
            h.eq("fed: the observation in order", at(y, q), Sym(mk_app(S.xval, [tt(q)])))
    return body


def fresh(h):
    E = stub(h)
    p = E()
    D = h.W.get("precise.keyed.DynamicUniverse")
    for f in (lambda: D(p), lambda: h.W.get("precise.keyed.keyed")(p, dynamic=True)):
        d = f()
        h.fact("no key-set yet", len(d.states) == 0 and d.x is None)
        h.fact("the documented limits", d.max_universes == 10 and d.max_staleness == 50)
        h.raises("no output before the first observation", ValueError, lambda: d.cov_array())


def run(tier):
    P = Prover("C21", tier)
    for v in ("update", "learn_one", "learn_many"):
        P.check(v, update(v), max_paths=200)
        P.check(f"{v} with nothing kept", update(v, True))
    P.check("a new adapter", fresh)
    return P.run()
