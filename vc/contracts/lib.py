"""Shared vocabulary of the contracts."""
from __future__ import annotations

from .. import arrays as ar
from .. import symnp as sn
from .. import terms as tm
from ..arrays import Arr, JList, Sym, SymList, num, tt
from ..solver import Ctx  # noqa: F401
from ..terms import T, Unsupported, as_t, b_and, b_eq, b_ge, b_gt, b_not, b_or, new_ix, sub  # noqa: F401
from ..exec import GList, as_symlist
from ..vcapi import leaves, rebuild


def copy_val(v):
    """An independent copy of a state tree."""
    def f(path, x, par):
        if isinstance(x, Arr):
            return x.copy()
        if isinstance(x, JList):
            return JList(x.arr.copy())
        return x
    return rebuild(v, f)


def twin(e):
    """A second estimator in the same state as e, sharing no storage with it."""
    t = object.__new__(type(e))
    for k, v in e.__dict__.items():
        t.__dict__[k] = v.copy() if isinstance(v, Arr) else copy_val(v) if isinstance(v, (dict, list)) else v
    return t


def same(h, name, a, b):
    """Equality of two state trees (or values), leaf by leaf."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not h.fact(f"{name}: same keys", isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b),
                      f"{sorted(map(str, a)) if isinstance(a, dict) else a} / {sorted(map(str, b)) if isinstance(b, dict) else b}"):
            return False
        return all([same(h, f"{name}.{k}", a[k], b[k]) for k in a])
    if isinstance(a, SymList) or isinstance(b, SymList):
        if not isinstance(a, SymList) or not isinstance(b, SymList):
            if isinstance(a, SymList) and isinstance(b, (list, tuple)) or isinstance(b, SymList) and isinstance(a, (list, tuple)):
                return h.fact(f"{name}: list against symbolic list", False, f"{a} / {b}")
            return h.fact(f"{name}: same type", False, f"{type(a)} / {type(b)}")
        h.eq(f"{name}: length", Sym(as_t(a.n) if not isinstance(a.n, Sym) else a.n.t), Sym(as_t(b.n) if not isinstance(b.n, Sym) else b.n.t))
        k = T.of(new_ix(tt(a.n)))
        return same(h, f"{name}[*]", a.at(k), b.at(k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if not h.fact(f"{name}: same length", len(a) == len(b)):
            return False
        return all([same(h, f"{name}[{i}]", x, y) for i, (x, y) in enumerate(zip(a, b))])
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return h.fact(name, a is b or (type(a) is type(b) and a == b), f"{a!r} / {b!r}")
    if isinstance(a, JList):
        a = a.arr
    if isinstance(b, JList):
        b = b.arr
    return h.eq(name, a, b)


def same_est(h, name, a, b, outputs=False):
    """Two estimators are indistinguishable: same state, same level, same dimension."""
    if a._state is None or b._state is None:
        h.fact(f"{name}: both unfitted", a._state is b._state)
    else:
        same(h, f"{name}: state", a._state, b._state)
    same(h, f"{name}: level", getattr(a, "_prev_x", None), getattr(b, "_prev_x", None))
    same(h, f"{name}: n_features_in_", a.n_features_in_, b.n_features_in_)


def burned(h, e):
    """Case split: is the estimator past its burn-in?"""
    return e._state["n_samples"] >= e._state["n_burn"]


def outer(h, a, b=None):
    return h.W.np.outer(a, a if b is None else b)


def at(a, *i):
    return Sym(num(a.at(*[tt(x) for x in i])))


def stores(v, acc=None, seen=None):
    """Every array storage reachable from v (through containers and object attributes), and mutable containers."""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, Arr):
        st = v.store
        acc[id(st)] = st
        while st.origin is not None:
            st = st.origin
            acc[id(st)] = st
        return acc
    if v is None or isinstance(v, (Sym, str, int, float, bool, type, JList)) or callable(v) and not hasattr(v, "partial_fit"):
        return acc
    if id(v) in seen:
        return acc
    seen.add(id(v))
    if isinstance(v, SymList):
        stores(v.at(T.of(new_ix(tt(v.n)))), acc, seen)
    elif isinstance(v, dict):
        acc[id(v)] = v
        for x in v.values():
            stores(x, acc, seen)
    elif isinstance(v, (list, tuple, set)):
        if not isinstance(v, tuple):
            acc[id(v)] = v
        for x in v:
            stores(x, acc, seen)
    elif hasattr(v, "__dict__"):
        stores(vars(v), acc, seen)
    return acc


def apart(h, name, a, b):
    """a and b share no array storage and no mutable container."""
    x, y = stores(a), stores(b)
    common = [k for k in x if k in y]
    return h.fact(name, not common, f"{len(common)} shared: {[type(x[k]).__name__ for k in common][:3]}")


class Watch:
    """Records writes into the given arrays."""

    def __init__(self, h, *vs):
        self.ids = stores(list(vs))
        self.hit = []
        h.R.write_hooks.append(self)

    def __call__(self, store):
        if id(store) in self.ids:
            self.hit.append(store)


def modular(h, e, p, psd=True, pd=False):
    """Replace the callee _state_to_cov by its contract (C01: some symmetric semi-definite matrix, a pure function
    of the state), so that the caller is verified against the contract and not against one body."""
    memo = {}

    def _state_to_cov(self, state):
        k = id(state)
        if k not in memo:
            memo[k] = (h.mat(f"Cov{len(memo)}", p, psd=psd, pd=pd), state)
        return memo[k][0].copy()

    e.__class__ = type(type(e).__name__, (type(e),), {"_state_to_cov": _state_to_cov})
    return e


def opaque(name, a, **props):
    """A fresh symmetric matrix standing for a: equal content, equal matrix."""
    f, par = sn.keyed_fn(name, a, 2, sym=True, **props)
    return Arr.make(a._shape, lambda i, j: tm.mk_app(f, tuple(par) + (i, j)))


class RowLoop:
    """Contract of the row loop of partial_fit on a batch of any number of rows: entered once, in an arbitrary
    state of the estimator (``mid`` installs it), at an arbitrary row."""

    used = False
    broke = False

    def __init__(self, h, e, X, mid, enter=None, end=None):
        self.h, self.e, self.X, self.mid = h, e, X, mid
        self._enter, self._end = enter, end
        self.done = False

    def matches(self, it, where=""):
        """A loop over rows of the batch, or over their positions (a loop over fewer of them is not
        this loop: the rest of the batch is then handled in a way this contract does not describe)."""
        if isinstance(it, Arr):
            ok = it.ndim == 2 and it._shape[1] == self.X._shape[1]
        else:
            sl = as_symlist(it)
            ok = sl is not None and sl.n == self.X._shape[0] and not isinstance(it, (JList, GList))
        return ok and (not isinstance(it, Arr) or it._shape[0] == self.X._shape[0])

    def reached(self):
        if not self.done:
            raise Unsupported("the rows of a batch are handled by something other than one loop over them")

    def enter(self, loc):
        if self._enter:
            self._enter()

    def begin(self, k):
        self.mid(self.e, "m")
        self.f = twin(self.e)
        return self.X[Sym(k)]

    def end(self, row):
        self.h.fact("every row is consumed", not self.broke)
        if self._end:
            self._end(self, row)
        self.mid(self.e, "o")
        self.after = twin(self.e)
        self.done = True


def arbitrary_state(h, p, G, diff):
    """A function putting an estimator into an arbitrary state of the given kind (fresh, level, state)."""
    def put(e, how, prefix):
        e._state = e._prev_x = None
        e.n_features_in_ = None
        if how == "fresh":
            return
        if diff:
            e.partial_fit(h.rows(prefix + ".x00", 1, p))
        if how == "level":
            return
        e.partial_fit(h.rows(prefix + ".x0", 1, p))
        G.install(h, e, G.inv, prefix)
    return put
