"""Symbolic scalars and arrays: the values the real code is executed on.

``Sym`` and ``SymBool`` wrap terms/conditions with Python operators; ``Arr`` is an n-dimensional array
of symbolic shape whose content is a function from index terms to terms, with numpy's storage, view,
copy and in-place-write behaviour.
"""
from __future__ import annotations

import builtins as _b
import itertools

from . import terms as tm
from .terms import (B, FALSE, Fn, ONE, T, TRUE, Unsupported, ZERO, as_t, b_and, b_eq, b_ge, b_gt,
                    b_not, b_or, ite, mk_app, mk_ind, mk_sum, mul, new_ix, sub)

RT = None  # the current runtime (exec.Runtime): decide(), entails(), defined(), fork_exc(), notes


def rt():
    if RT is None:
        raise Unsupported("no runtime")
    return RT


# ================================================================== scalars
def tt(x):
    """Python/Sym number -> T"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return mk_ind(x.b)
    if isinstance(x, Arr):
        if x.ndim == 0 or all(_const(d) == 1 for d in x.shape):
            return tt(x.at(*[ZERO] * x.ndim))
        raise Unsupported("array where a scalar is needed")
    return as_t(x)


def _const(d):
    if isinstance(d, Sym):
        d = d.t
    if isinstance(d, T):
        v = d.value()
        return None if v is None else (int(v) if v.denominator == 1 else v)
    return d


def wrap(t):
    """T -> Sym, or a plain int for small integer constants (so that concrete code stays concrete)."""
    if isinstance(t, B):
        return SymBool.of(t)
    v = t.value()
    if v is not None and v.denominator == 1 and t.is_int():
        return Sym(t)
    return Sym(t)


def dim(t):
    """A dimension as seen by the code: int when concrete."""
    t = as_t(t) if not isinstance(t, Sym) else t.t
    v = t.value()
    if v is not None:
        return int(v)
    return Sym(t)


class SymBool:
    __slots__ = ("b",)
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    @staticmethod
    def of(b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return SymBool(b)

    def __bool__(self):
        return rt().decide(self.b)

    def __and__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return SymBool.of(b_and(self.b, bb(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return SymBool.of(b_or(self.b, bb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool.of(b_not(self.b))

    def __eq__(self, o):
        x = bb(o)
        return SymBool.of(b_or(b_and(self.b, x), b_and(b_not(self.b), b_not(x))))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(self.b)

    def _n(self):
        return Sym(mk_ind(self.b))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __repr__(self):
        return f"<{self.b}>"

    def any(self):
        return self

    def all(self):
        return self


def bb(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Sym):
        return b_not(b_eq(x.t))
    if isinstance(x, int):
        return TRUE if x else FALSE
    try:
        import numpy as np

        if isinstance(x, np.bool_):
            return TRUE if x else FALSE
    except ImportError:
        pass
    raise Unsupported(f"not a condition: {type(x).__name__}")


def _b01(x):
    if isinstance(x, T) and x.value() in (0, 1):      # a plain bool
        return TRUE if x.value() else FALSE
    return bb(x)


class NaN:
    """The special float nan (only as an array fill / comparison target)."""

    def __repr__(self):
        return "nan"


NAN = NaN()

# A nan entry of an array of symbolic size is the variable $nan: an entry is c*$nan + r with c in {0, 1} the condition
# of being nan and r = 0 where c = 1.  Only selection (where, writes, isnan, nanmean) sees it; arithmetic refuses it.
NANV = tm._mk("var", ("$nan",), False)
NANT = T.of(NANV)


def has_nan(t):
    return NANV in t.vars()


def nan_split(t):
    """(c, r) of an entry that may be nan; None otherwise."""
    if not has_nan(t):
        return None
    c = r = tm.ZERO
    for mono, co in t.m.items():
        rest = tuple((a, e) for a, e in mono if a is not NANV)
        if any(NANV in a.vars for a, _ in rest) or any(e != 1 for a, e in mono if a is NANV):
            raise Unsupported("arithmetic on nan")
        q = T({rest: co}) if rest else T.const(co)
        if len(rest) == len(mono):
            r = tm.add(r, q)
        else:
            c = tm.add(c, q)
    return c, r


def nan_cond(t):
    """The condition of an entry being nan."""
    if t is NAN:
        return TRUE
    s = nan_split(t) if isinstance(t, T) else None
    if s is None:
        return FALSE
    c = s[0]
    return TRUE if c.value() == 1 else b_ge(sub(c, ONE))


def raw(v):
    """An entry as a term, nan included."""
    return NANT if v is NAN else v if isinstance(v, T) else num(v)


def _num(o):
    return isinstance(o, (Sym, SymBool, int, float, bool, T)) or type(o).__module__ == "numpy"


class Sym:
    __slots__ = ("t",)
    __array_ufunc__ = None
    ndim = 0
    shape = ()

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        if isinstance(o, (Arr, Filt)):
            return NotImplemented
        if not _num(o):
            return NotImplemented
        return Sym(f(self.t, tt(o)))

    def __add__(self, o):
        return self._bin(o, tm.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: tm.add(b, a))

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: tm.sub(b, a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, tm.mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, lambda a, b: tm.mul(b, a))

    def __truediv__(self, o):
        return self._bin(o, sdiv)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: sdiv(b, a))

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: floordiv(b, a))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: sub(a, mul(b, floordiv(a, b))))

    def __rmod__(self, o):
        return self._bin(o, lambda b, a: sub(a, mul(b, floordiv(a, b))))

    def __pow__(self, o):
        return self._bin(o, spow)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: spow(b, a))

    def __neg__(self):
        return Sym(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(tm.mk_abs(self.t))

    def _cmp(self, o, f):
        if o is NAN:
            return False
        if isinstance(o, Arr):
            return NotImplemented
        if isinstance(o, float) and (o == float("inf") or o == float("-inf")):
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[f]
        if not _num(o):
            return {"eq": False, "ne": True}.get(f, NotImplemented)
        d = sub(self.t, tt(o))
        if f == "lt":
            b = b_gt(tm.neg(d))
        elif f == "le":
            b = b_ge(tm.neg(d))
        elif f == "gt":
            b = b_gt(d)
        elif f == "ge":
            b = b_ge(d)
        elif f == "eq":
            b = b_eq(d)
        else:
            b = b_not(b_eq(d))
        return SymBool.of(b)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        v = self.t.value()
        if v is not None:
            return v != 0
        return rt().decide(b_not(b_eq(self.t)))

    def __index__(self):
        v = self.t.value()
        if v is not None and v.denominator == 1:
            return int(v)
        raise Unsupported("a symbolic integer where Python needs a concrete one")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        v = self.t.value()
        if v is not None:
            return float(v)
        raise Unsupported("a symbolic number where Python needs a concrete float")

    def __repr__(self):
        return f"<{self.t}>"

    def __format__(self, spec):
        return repr(self)

    # numpy-scalar surface
    def item(self):
        return self

    def sum(self, axis=None):
        return self

    def mean(self, axis=None):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, dtype):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def max(self):
        return self

    def min(self):
        return self

    def is_integer(self):
        if self.t.is_int():
            return True
        raise Unsupported("is_integer of a symbolic real")


def sdiv(a, b):
    if not b.m:
        rt().defined(FALSE, "division by zero")
        raise Unsupported("division by the constant zero")
    if not b.is_const():
        rt().defined(b_not(b_eq(b)), "division")
    return tm.mul(a, tm.mk_inv(b))


def spow(a, b):
    v = b.value()
    if v is None or v.denominator != 1:
        if not (v is not None and v.denominator == 1):
            rt().defined(b_ge(a), "fractional power of a negative number")
    elif v < 0:
        rt().defined(b_not(b_eq(a)), "negative power of zero")
    return tm.mk_pow(a, b)


def ssqrt(a):
    rt().defined(b_ge(a), "square root")
    return tm.mk_sqrt(a)


def slog(a):
    rt().defined(b_gt(a), "logarithm")
    if a.is_const() and a.value() == 1:
        return ZERO
    return tm.mk_fun("log", a)


def floordiv(a, b):
    if b.is_const() and b.value() == 1 and a.is_int():
        return a
    rt().defined(b_not(b_eq(b)), "floor division")
    return sfloor(tm.mul(a, tm.mk_inv(b)))


def sfloor(t):
    v = t.value()
    if v is not None:
        return as_t(v.numerator // v.denominator)
    if t.is_int():
        return t
    return tm.mk_fun("floor", t, integer=True)


def sceil(t):
    v = t.value()
    if v is not None:
        return as_t(-((-v.numerator) // v.denominator))
    if t.is_int():
        return t
    return tm.mk_fun("ceil", t, integer=True)


def strunc(t):
    """what int() and an integer array keep of a number"""
    if t is NAN:
        raise Unsupported("nan as an integer")
    t = num(t)
    v = t.value()
    if v is not None:
        return as_t(int(v))
    if t.is_int():
        return t
    return ite(b_ge(t), sfloor(t), sceil(t))


def intlike(o):
    """a value numpy stores in an integer array when it is given on its own"""
    if isinstance(o, Arr):
        return o.store.dtype == "i"
    if isinstance(o, Sym):
        return o.t.is_int()
    return isinstance(o, int) and not isinstance(o, bool)


def promote(dts):
    dts = list(dts)
    return dts[0] if all(d == dts[0] for d in dts) else "f"


# ================================================================== storage and arrays
_aid = itertools.count()


class Store:
    """Mutable array content: a function of the index terms."""

    __slots__ = ("fn", "shape", "dtype", "id", "version", "owner", "cache", "log", "origin")

    def __init__(self, fn, shape, dtype="f"):
        self.fn, self.shape, self.dtype = fn, shape, dtype
        self.id, self.version, self.owner = next(_aid), 0, None
        self.cache = {}
        self.log = None
        self.origin = None     # the storage an element of a symbolic list really lives in

    def get(self, idx):
        r = self.cache.get(idx)
        if r is None:
            r = self.fn(idx)
            self.cache[idx] = r
        return r

    def set(self, fn):
        self.fn = fn
        self.cache = {}
        self.version += 1
        RT and RT.note_write(self)


def _snap(store):
    fn, cache = store.fn, {}
    base = store.cache

    def get(idx):
        r = base.get(idx) if store.fn is fn else cache.get(idx)
        if r is None:
            r = fn(idx)
            cache[idx] = r
        return r

    return get


def dims_equal(a, b):
    a, b = tt(a), tt(b)
    if a == b:
        return True
    d = sub(a, b)
    if d.is_const():
        return False
    return rt().decide(b_eq(d))


def bshape(s1, s2):
    """numpy broadcasting of two shapes (dims are T)."""
    out = []
    n = max(len(s1), len(s2))
    s1 = (ONE,) * (n - len(s1)) + tuple(s1)
    s2 = (ONE,) * (n - len(s2)) + tuple(s2)
    for a, b in zip(s1, s2):
        if a == b:
            out.append(a)
        elif a == ONE and a.is_const():
            out.append(b)
        elif b == ONE and b.is_const():
            out.append(a)
        elif dims_equal(a, b):
            out.append(a)
        elif rt().decide(b_eq(sub(a, ONE))):
            out.append(b)
        elif rt().decide(b_eq(sub(b, ONE))):
            out.append(a)
        else:
            raise ValueError(f"operands could not be broadcast together with shapes {s1} {s2}")
    return tuple(out)


def _is_one(d):
    if d == ONE:
        return True
    if d.is_const():
        return False
    return rt().entails(b_eq(sub(d, ONE)))


class Arr:
    """store + view map.  amap[k] for store axis k: ('f', T) fixed, or ('a', axis, off, sign)."""

    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, store, shape=None, amap=None):
        self.store = store
        self._shape = tuple(store.shape if shape is None else shape)
        self.amap = amap if amap is not None else tuple(("a", k, ZERO, 1) for k in range(len(store.shape)))
        self.arange = None  # (offset, ) when the content is offset + i

    # ---- basics
    @property
    def shape(self):
        return tuple(dim(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = ONE
        for d in self._shape:
            r = mul(r, d)
        return dim(r)

    @property
    def dtype(self):
        return {"f": float, "i": int, "b": bool}[self.store.dtype]

    @property
    def base(self):
        return None

    @property
    def real(self):
        return self

    def _map(self, idx):
        out = []
        for m in self.amap:
            if m[0] == "f":
                out.append(m[1])
            else:
                i = idx[m[1]]
                out.append(tm.add(m[2], i) if m[3] == 1 else sub(m[2], i))
        return tuple(out)

    def at(self, *idx):
        """content at index terms (T or B)"""
        return self.store.get(self._map(idx))

    def snap(self):
        g, mp = _snap(self.store), self._map
        return lambda *idx: g(mp(idx))

    def key(self):
        ks = [tm._mk("ix", (("key", k, len(self._shape)), d), True) for k, d in enumerate(self._shape)]
        v = self.at(*[ZERO if _const(d) == 1 else T.of(k) for k, d in zip(ks, self._shape)])
        if v is NAN:
            v = "nan"
        return (self._shape, v)

    def __len__(self):
        n = _const(self._shape[0]) if self._shape else None
        if n is None:
            raise Unsupported("len of an array of symbolic length")
        return n

    def __iter__(self):
        n = _const(self._shape[0])
        if n is None:
            raise Unsupported("iteration over an array of symbolic length outside an instrumented loop")
        for i in range(n):
            yield self[i]

    def __bool__(self):
        if all(_const(d) == 1 for d in self._shape):
            return bool(scal(self.at(*[ZERO] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __repr__(self):
        return f"Arr{self._shape}"

    # ---- construction helpers
    @staticmethod
    def make(shape, f, dtype="f"):
        shape = tuple(tt(d) for d in shape)
        return Arr(Store(lambda idx: f(*idx), shape, dtype))

    # ---- elementwise
    def _dt2(self, o):
        return "i" if self.store.dtype == "i" and intlike(as_arr(o) if isinstance(o, (list, tuple, JList)) else o) else "f"

    def _ew(self, o, f, dtype="f", swap=False):
        if isinstance(o, Filt):
            return NotImplemented
        if isinstance(o, (list, tuple, JList)):
            o = as_arr(o)
        if isinstance(o, Arr):
            if o.ndim == 0:
                o = scal(o.at())
            else:
                shp = bshape(self._shape, o._shape)
                a, b = bcast(self, shp), bcast(o, shp)
                if swap:
                    a, b = b, a
                return Arr.make(shp, lambda *i: f(a(*i), b(*i)), dtype)
        if o is NAN:
            return Arr.make(self._shape, lambda *i: NAN, dtype)
        if not _num(o):
            return NotImplemented
        a, c = self.snap(), (o.b if isinstance(o, SymBool) else tt(o))
        if isinstance(o, Sym) and len(c.m) > 1:
            c = rt().name(c)
        if swap:
            return Arr.make(self._shape, lambda *i: f(c, a(*i)), dtype)
        return Arr.make(self._shape, lambda *i: f(a(*i), c), dtype)

    def __add__(self, o):
        return self._ew(o, _n2(tm.add), self._dt2(o))

    def __radd__(self, o):
        return self._ew(o, _n2(tm.add), self._dt2(o), swap=True)

    def __sub__(self, o):
        return self._ew(o, _n2(tm.sub), self._dt2(o))

    def __rsub__(self, o):
        return self._ew(o, _n2(tm.sub), self._dt2(o), swap=True)

    def __mul__(self, o):
        return self._ew(o, _n2(tm.mul), self._dt2(o))

    def __rmul__(self, o):
        return self._ew(o, _n2(tm.mul), self._dt2(o), swap=True)

    def __truediv__(self, o):
        check_elem(o, lambda t: b_not(b_eq(t)), "division")
        return self._ew(o, _n2(lambda a, b: tm.mul(a, tm.mk_inv(b))))

    def __rtruediv__(self, o):
        check_elem(self, lambda t: b_not(b_eq(t)), "division")
        return self._ew(o, _n2(lambda a, b: tm.mul(a, tm.mk_inv(b))), swap=True)

    def __pow__(self, o):
        if not isinstance(o, (int, float)) or (isinstance(o, float) and o != int(o)):
            check_elem(self, b_ge, "fractional power of a negative number")
        elif o < 0:
            check_elem(self, lambda t: b_not(b_eq(t)), "negative power of zero")
        return self._ew(o, _n2(tm.mk_pow))

    def __neg__(self):
        a = self.snap()
        return Arr.make(self._shape, lambda *i: tm.neg(num(a(*i))))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        a = self.snap()
        return Arr.make(self._shape, lambda *i: tm.mk_abs(num(a(*i))))

    def __lt__(self, o):
        return self._ew(o, _n2(lambda a, b: b_gt(sub(b, a))), "b")

    def __le__(self, o):
        return self._ew(o, _n2(lambda a, b: b_ge(sub(b, a))), "b")

    def __gt__(self, o):
        return self._ew(o, _n2(lambda a, b: b_gt(sub(a, b))), "b")

    def __ge__(self, o):
        return self._ew(o, _n2(lambda a, b: b_ge(sub(a, b))), "b")

    def __eq__(self, o):
        if o is None:
            return False
        return self._ew(o, _n2(lambda a, b: b_eq(sub(a, b))), "b")

    def __ne__(self, o):
        if o is None:
            return True
        return self._ew(o, _n2(lambda a, b: b_not(b_eq(sub(a, b)))), "b")

    def __and__(self, o):
        return self._ew(o, lambda a, b: b_and(_b01(a), _b01(b)), "b")

    __rand__ = __and__

    def __or__(self, o):
        return self._ew(o, lambda a, b: b_or(_b01(a), _b01(b)), "b")

    __ror__ = __or__

    def __invert__(self):
        a = self.snap()
        return Arr.make(self._shape, lambda *i: b_not(bb(a(*i))), "b")

    # in place
    def _inplace(self, r):
        if r is NotImplemented:
            return NotImplemented
        if self.store.dtype == "i" and isinstance(r, Arr) and r.store.dtype == "f":
            raise Unsupported("in-place arithmetic on an integer array")
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(as_arr(o), self)

    # ---- views and indexing
    @property
    def T(self):
        n = self.ndim
        return Arr(self.store, self._shape[::-1],
                   tuple(m if m[0] == "f" else ("a", n - 1 - m[1], m[2], m[3]) for m in self.amap))

    def transpose(self, *axes):
        if not axes:
            return self.T
        axes = axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes
        inv = {a: k for k, a in enumerate(axes)}
        return Arr(self.store, tuple(self._shape[a] for a in axes),
                   tuple(m if m[0] == "f" else ("a", inv[m[1]], m[2], m[3]) for m in self.amap))

    def _view(self, key):
        """Basic indexing -> (Arr view) or None when advanced."""
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (Arr, list, Filt, IxSel, DiagIdx)) and not (isinstance(k, Arr) and k.arange is not None) for k in key):
            return None
        if sum(isinstance(k, Arr) for k in key) > 1:       # index arrays go together, element by element
            return None
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n_real > self.ndim:
            raise IndexError("too many indices for array")
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_real)
            else:
                out.append(k)
        n_real = sum(1 for k in out if k is not None)
        out += [slice(None)] * (self.ndim - n_real)
        shape = []
        axmap = {}  # old axis -> ('f',T) | (newaxis, off, sign)
        ax = 0
        for k in out:
            if k is None:
                shape.append(ONE)
                continue
            d = self._shape[ax]
            if isinstance(k, Arr):  # an arange: contiguous selection (copy semantics handled by caller)
                axmap[ax] = (len(shape), k.arange, 1)
                shape.append(k._shape[0])
            elif isinstance(k, slice):
                if k.step is not None and _const(k.step) not in (1, -1):
                    raise Unsupported("strided slice")
                if k.step is not None and _const(k.step) == -1:
                    if k.start is not None or k.stop is not None:
                        raise Unsupported("reversed partial slice")
                    axmap[ax] = (len(shape), sub(d, ONE), -1)
                    shape.append(d)
                else:
                    lo = ZERO if k.start is None else _bound(k.start, d)
                    hi = d if k.stop is None else _bound(k.stop, d)
                    axmap[ax] = (len(shape), lo, 1)
                    if k.start is None and k.stop is None:
                        ln = d
                    else:
                        ln = sub(hi, lo)
                        if not (ln.is_const() and ln.value() >= 0) and not rt().entails(b_ge(ln)):
                            ln = tm.mk_pos(ln)
                    shape.append(ln)
            else:
                if isinstance(k, SymBool) or isinstance(k, bool):
                    return None
                axmap[ax] = ("f", _index(k, d))
            ax += 1
        amap = []
        for m in self.amap:
            if m[0] == "f":
                amap.append(m)
                continue
            x = axmap[m[1]]
            if x[0] == "f":
                amap.append(("f", tm.add(m[2], x[1]) if m[3] == 1 else sub(m[2], x[1])))
            else:
                off = tm.add(m[2], x[1]) if m[3] == 1 else sub(m[2], x[1])
                amap.append(("a", x[0], off, m[3] * x[2]))
        return Arr(self.store, tuple(shape), tuple(amap))

    def __getitem__(self, key):
        if isinstance(key, tuple) and key and isinstance(key[0], TriHalf):
            key = TriHalf.pair(key)
        v = self._view(key)
        if v is not None:
            if v.ndim == 0:
                return scal(v.at())
            ks = key if isinstance(key, tuple) else (key,)
            if any(isinstance(k, Arr) for k in ks):
                return v.copy()
            if self.arange is not None and v.ndim == 1 and len(self.store.shape) == 1 and v.amap[0][3] == 1:
                # a slice of arange keeps its shape of content
                base = self.arange
                v.arange = tm.add(base, sub(v.amap[0][2], self.amap[0][2]))
            return v
        if isinstance(key, DiagIdx):
            a = self.snap()
            return Arr.make((self._shape[0],), lambda i: a(i, i), self.store.dtype)
        if isinstance(key, IxSel):
            a = self.snap()
            r, c = key.r.snap(), key.c.snap()
            return Arr.make((key.r._shape[0], key.c._shape[0]), lambda i, j: a(num(r(i)), num(c(j))), self.store.dtype)
        if isinstance(key, list):
            key = as_arr(key)
        if isinstance(key, Arr) and key.store.dtype == "b":
            if key.ndim > self.ndim:
                raise IndexError("too many indices for array: boolean mask")
            if key.ndim != self.ndim:
                raise Unsupported("partial boolean mask")
            for x, y in zip(key._shape, self._shape):
                if not dims_equal(x, y):
                    raise IndexError("boolean index did not match indexed array")
            return Filt(self._shape, key.snap(), self.snap(), key.key())
        if isinstance(key, Arr):
            a, k = self.snap(), at_index(key, self._shape[0])
            nd = key.ndim
            return Arr.make(key._shape + self._shape[1:], lambda *i: a(k(*i[:nd]), *i[nd:]), self.store.dtype)
        if isinstance(key, tuple) and all(isinstance(k, (Arr, list)) for k in key) and len(key) == self.ndim:
            ks = [as_arr(k) for k in key]
            shp = ks[0]._shape
            for k in ks[1:]:
                shp = bshape(shp, k._shape)
            for k in ks:
                if k.store.dtype == "b":
                    raise Unsupported("masks along axes")
            fs = [bcast(Arr.make(k._shape, at_index(k, d)), shp) for k, d in zip(ks, self._shape)]
            a = self.snap()
            return Arr.make(shp, lambda *i: a(*[num(f(*i)) for f in fs]), self.store.dtype)
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and isinstance(key[1], (Arr, list)):
            if key[0] == slice(None):
                ks = as_arr(key[1])
                if ks.ndim != 1 or ks.store.dtype == "b" or self.ndim != 2:
                    raise Unsupported("selection of columns")
                a, k = self.snap(), at_index(ks, self._shape[1])
                return Arr.make((self._shape[0],) + ks._shape, lambda i, j: a(i, k(j)), self.store.dtype)
        raise Unsupported(f"indexing with {key!r}")

    def __setitem__(self, key, val):
        if isinstance(key, DiagIdx) or (isinstance(key, tuple) and len(key) == 2 and
                                        all(isinstance(k, Arr) and k.arange is not None and k.arange == ZERO for k in key)
                                        and self.ndim == 2 and key[0]._shape == key[1]._shape == self._shape[:1]):
            v = val_fn(val, (self._shape[0],))
            old, st = _snap(self.store), self.store
            if self.amap != Arr(st).amap:
                raise Unsupported("diagonal write through a view")
            if st.dtype == "i":
                v0 = v
                v = lambda *i: strunc(v0(*i))
            st.set(lambda s: vite(b_eq(sub(s[0], s[1])), lambda: v(s[0]), lambda: old(s)))
            return
        if isinstance(key, tuple) and key and isinstance(key[0], TriHalf):
            key = TriHalf.pair(key)
        v = self._view(key)
        if v is not None:
            return v._write(val)
        if isinstance(key, list):
            key = as_arr(key)
        if isinstance(key, Arr) and key.store.dtype == "b":
            if key._shape != self._shape:
                raise Unsupported("mask of another shape")
            m = key.snap()
            if isinstance(val, Filt):
                if val.mkey != key.key():
                    raise Unsupported("assignment from a selection with another mask")
                w = val.val
            elif isinstance(val, Arr):
                if val.ndim:
                    raise Unsupported("assignment of an array to a mask")
                w = lambda *i: tt(val)
            else:
                c = NAN if val is NAN else tt(val)
                w = lambda *i: c
            full = Arr(self.store, self._shape, self.amap)
            a = self.snap()
            return full._write(Arr.make(self._shape, lambda *i: vite(bb(m(*i)), lambda: w(*i), lambda: a(*i)), self.store.dtype))
        if isinstance(key, IxSel):
            # supported when both selections are contiguous
            r, c = key.r, key.c
            if r.arange is not None and c.arange is not None:
                return self[r.arange_slice(), c.arange_slice()]._write(val)
        raise Unsupported(f"assignment to {key!r}")

    def arange_slice(self):
        return slice(Sym(self.arange), Sym(tm.add(self.arange, self._shape[0])))

    def _write(self, val):
        st = self.store
        f = val_fn(val, self._shape)
        if st.dtype == "i":
            f0 = f
            f = lambda *i: strunc(f0(*i))
        old = _snap(st)
        amap, shape = self.amap, self._shape

        def fn(s):
            conds = []
            idx = [ZERO] * len(shape)
            for k, m in enumerate(amap):
                if m[0] == "f":
                    conds.append(idx_cond(b_eq(sub(s[k], m[1]))))
                else:
                    i = sub(s[k], m[2]) if m[3] == 1 else sub(m[2], s[k])
                    idx[m[1]] = i
                    if not (m[3] == 1 and not m[2].m and shape[m[1]] == st.shape[k]) and not (
                            m[3] == -1 and m[2] == sub(st.shape[k], ONE) and shape[m[1]] == st.shape[k]):
                        conds.append(member(s[k], m[2], shape[m[1]], m[3]))
            c = b_and(*conds)
            return vite(c, lambda: f(*idx), lambda: old(s))

        st.set(fn)

    # ---- methods
    def copy(self, order=None):
        r = Arr.make(self._shape, self.snap(), self.store.dtype)
        r.arange = self.arange
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True):
        return cast(self.copy(), dtype)

    def tolist(self):
        return JList(self.copy())

    def item(self, *a):
        if a:
            return self[a]
        return scal(self.at(*[ZERO] * self.ndim))

    def sum(self, axis=None, keepdims=False, dtype=None):
        return np_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return np_mean(self, axis, keepdims)

    def any(self, axis=None):
        no_axis(axis)
        return np_any(self)

    def all(self, axis=None):
        no_axis(axis)
        return np_all(self)

    def max(self, axis=None):
        no_axis(axis)
        return np_ext(self, True)

    def min(self, axis=None):
        no_axis(axis)
        return np_ext(self, False)

    def dot(self, o):
        return matmul(self, o)

    def trace(self):
        return np_trace(self)

    def diagonal(self):
        return np_diagonal(self)

    def flatten(self):
        return self.ravel()

    def ravel(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("ravel of a matrix")

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        if self.ndim == 1 and len(s) == 2:
            if _const(s[0]) == 1 and (_const(s[1]) == -1 or tt(s[1]) == self._shape[0]):
                return self[None, :]
            if _const(s[1]) == 1 and (_const(s[0]) == -1 or tt(s[0]) == self._shape[0]):
                return self[:, None]
        if len(s) == self.ndim and all(tt(a) == b for a, b in zip(s, self._shape)):
            return self
        if self.ndim == 2 and len(s) == 1 and _const(s[0]) == -1:
            if self._shape[0] == ONE:
                return self[0]
            if self._shape[1] == ONE:
                return self[:, 0]
        raise Unsupported("reshape")

    def fill(self, v):
        self[...] = v

    def clip(self, min=None, max=None):
        return np_clip(self, min, max)

    def squeeze(self):
        raise Unsupported("squeeze")


class JList:
    """The result of tolist(): JSON data holding the entries (no shared storage)."""

    def __init__(self, arr):
        self.arr = arr

    def __repr__(self):
        return f"JList{self.arr._shape}"

    def __getitem__(self, k):
        v = self.arr[k]
        return JList(v.copy()) if isinstance(v, Arr) and v.ndim else v

    def copy(self):
        return JList(self.arr.copy())

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        for v in self.arr:
            yield JList(v.copy()) if isinstance(v, Arr) and v.ndim else v


class DiagIdx:
    def __init__(self, n):
        self.n = n


class TriHalf:
    """One of the two index arrays of triu_indices / tril_indices (known as a pair only)."""

    def __init__(self, n, k, up):
        self.n, self.k, self.up = n, k, up

    def mask(self):
        n, k, up = self.n, self.k, self.up
        return Arr.make((n, n), lambda i, j: b_ge(sub(sub(j, i), k) if up else tm.add(sub(i, j), k)), "b")

    @staticmethod
    def pair(key):
        if isinstance(key, tuple) and len(key) == 2 and all(isinstance(x, TriHalf) for x in key):
            a, b = key
            if (a.n, a.k, a.up) == (b.n, b.k, b.up) and type(a) is TriHalf and type(b) is TriBack:
                return a.mask()
            if (a.n, a.k, a.up) == (b.n, b.k, b.up) and type(a) is TriBack and type(b) is TriHalf:
                return a.mask().T
            raise Unsupported("triangle indices in another order")
        return None


class TriBack(TriHalf):
    """The second of the pair."""


class IxSel:
    def __init__(self, r, c):
        self.r, self.c = r, c


class Filt:
    """a[mask]: the entries where the mask holds, in order (length unknown)."""

    __array_ufunc__ = None
    ndim = 1

    def __init__(self, shape, mask, val, mkey):
        self.dims, self.mask, self.val, self.mkey = shape, mask, val, mkey

    def _ew(self, o, f, swap=False):
        if isinstance(o, Filt):
            if o.mkey != self.mkey:
                raise Unsupported("selections with different masks")
            g = o.val
        elif isinstance(o, Arr) and o.ndim:
            return NotImplemented
        else:
            c = tt(o)
            g = lambda *i: c
        a = self.val
        h = (lambda *i: f(num(g(*i)), num(a(*i)))) if swap else (lambda *i: f(num(a(*i)), num(g(*i))))
        return Filt(self.dims, self.mask, h, self.mkey)

    def __add__(self, o):
        return self._ew(o, tm.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ew(o, tm.sub)

    def __rsub__(self, o):
        return self._ew(o, tm.sub, True)

    def __mul__(self, o):
        return self._ew(o, tm.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Filt):
            raise Unsupported("division by a selection")
        rt().defined(b_not(b_eq(tt(o))), "division")
        return self._ew(o, lambda a, b: mul(a, tm.mk_inv(b)))

    def __pow__(self, o):
        return self._ew(o, tm.mk_pow)

    def __neg__(self):
        return self._ew(-1, tm.mul)

    def __abs__(self):
        return self.map(tm.mk_abs)

    def __getitem__(self, k):
        if isinstance(k, NanMask) and k.filt is self and not k.nan:
            m, a = self.mask, self.val
            return Filt(self.dims, lambda *i: b_and(bb(m(*i)), b_not(nan_cond(a(*i)))), lambda *i: known(a(*i))[1], (self.mkey, id(self)))
        raise Unsupported("indexing of a selection")

    def map(self, f):
        a = self.val
        return Filt(self.dims, self.mask, lambda *i: f(num(a(*i))), self.mkey)

    def _sum(self, f):
        vs = [new_ix(d) for d in self.dims]
        ix = [T.of(v) for v in vs]
        return mk_sum(vs, mul(mk_ind(bb(self.mask(*ix))), f(*ix)))

    def count(self):
        return self._sum(lambda *i: ONE)

    @property
    def size(self):
        return wrap(self.count())

    @property
    def shape(self):
        return (dim(self.count()),)

    def sum(self, axis=None):
        return Sym(self._sum(lambda *i: num(self.val(*i))))

    def mean(self, axis=None):
        n = self.count()
        rt().defined(b_not(b_eq(n)), "mean of an empty selection")
        return Sym(mul(self.sum().t, tm.mk_inv(n)))

    def copy(self):
        return self


def no_axis(axis):
    if axis is not None:
        raise Unsupported("a reduction along an axis")


def known(v):
    """(0/1 indicator of not being nan, value where it is not)"""
    s = nan_split(raw(v))
    return (ONE, raw(v)) if s is None else (sub(ONE, s[0]), s[1])


class NanMask:
    """isnan of a selection (or its complement)."""

    def __init__(self, filt, nan):
        self.filt, self.nan = filt, nan

    def __invert__(self):
        return NanMask(self.filt, not self.nan)

    def count(self):
        w = lambda *i: known(self.filt.val(*i))[0]
        return self.filt._sum((lambda *i: sub(ONE, w(*i))) if self.nan else w)

    def sum(self, axis=None):
        return Sym(self.count())

    def any(self, axis=None):
        return SymBool.of(b_ge(sub(self.count(), ONE)))

    def all(self, axis=None):
        return SymBool.of(b_not(b_ge(sub((~self).count(), ONE))))


# ------------------------------------------------------------------ helpers
def num(v):
    if isinstance(v, T):
        if NANV in v.vars():
            raise Unsupported("arithmetic on nan")
        return v
    if isinstance(v, B):
        return mk_ind(v)
    if v is NAN:
        raise Unsupported("arithmetic on nan")
    return tt(v)


def scal(v):
    if isinstance(v, T):
        if NANV in v.vars():
            return NAN if rt().decide(nan_cond(v)) else Sym(nan_split(v)[1])
        return Sym(v)
    if isinstance(v, B):
        return SymBool.of(v)
    return v


def _n2(f):
    return lambda a, b: f(num(a), num(b))


def idx_cond(c):
    """Resolve an index condition when the context decides it."""
    if c is TRUE or c is FALSE:
        return c
    r = rt()
    if r.entails(c):
        return TRUE
    if r.entails(b_not(c)):
        return FALSE
    return c


def member(s, off, ln, sign):
    """off <= s < off+ln (or reversed)."""
    if sign == -1:
        off = tm.add(sub(off, ln), ONE)
    c = RT.partition_member(s, off, ln) if RT else None
    if c is not None:
        return idx_cond(c)
    return b_and(idx_cond(b_ge(sub(s, off))), idx_cond(b_ge(sub(sub(tm.add(off, ln), ONE), s))))


def _settled(v):
    """An entry that is known not to be nan, without nan."""
    if isinstance(v, T) and has_nan(v) and RT is not None and idx_cond(nan_cond(v)) is FALSE:
        return nan_split(v)[1]
    return v


def vite(c, f, g):
    if c is TRUE:
        return _settled(f())
    if c is FALSE:
        return _settled(g())
    x, y = f(), g()
    if isinstance(x, B) or isinstance(y, B):
        x, y = bb(x), bb(y)
        return b_or(b_and(c, x), b_and(b_not(c), y))
    x, y = raw(x), raw(y)
    # a choice on being nan itself
    if has_nan(y) and c == nan_cond(y):
        k, r = nan_split(y)
        return tm.add(mul(k, x), r)
    if has_nan(x) and b_not(c) == nan_cond(x):
        k, r = nan_split(x)
        return tm.add(mul(k, y), r)
    return ite(c, x, y)


def _bound(k, d):
    t = tt(k)
    v = t.value()
    if v is not None and v < 0:
        r = tm.add(d, t)
        return r if rt().entails(b_ge(r)) else tm.mk_pos(r)
    # numpy clips slice bounds to the dimension
    if t == d:
        return t
    c = sub(d, t)
    if rt().entails(b_ge(c)) and (v is not None or rt().entails(b_ge(t))):
        return t
    if v is None and not rt().entails(b_ge(t)):
        raise Unsupported("a symbolic slice bound of unknown sign")
    return tm.mk_min(t, d)


def at_index(key, d):
    """entries of an index array as positions along an axis of length d"""
    s = key.snap()
    if key.arange is not None and (key.arange == ZERO or rt().entails(b_ge(key.arange))):
        lo = True
    else:
        g = num(s(*[T.of(new_ix(x)) for x in key._shape]))
        lo = rt().entails(b_ge(g))
    if key.arange is not None:
        ok = rt().entails(b_ge(sub(d, tm.add(key.arange, key._shape[0]))))
    else:
        ok = rt().entails(b_gt(sub(d, num(s(*[T.of(new_ix(x)) for x in key._shape]))))) and (
            lo or rt().entails(b_ge(tm.add(d, num(s(*[T.of(new_ix(x)) for x in key._shape]))))))
    if not ok:
        raise Unsupported("index array that may be out of range")

    def f(*i):
        t = num(s(*i))
        if lo or t.is_const() and t.value() >= 0:
            return t
        return tm.add(d, t) if t.is_const() else ite(b_ge(t), t, tm.add(d, t))
    return f


def _index(k, d):
    t = tt(k)
    v = t.value()
    if v is not None and v < 0 or v is None and not rt().entails(b_ge(t)):
        if v is None and not rt().entails(b_gt(tm.neg(t))):
            raise Unsupported("an index of unknown sign")
        t = tm.add(d, t)
        if not rt().decide(b_ge(t)):
            raise IndexError("index out of bounds")
        return t
    if not rt().decide(b_gt(sub(d, t))):
        raise IndexError("index out of bounds")
    return t


def bcast(a, shp):
    """content function of a broadcast to shape shp (T dims)."""
    f = a.snap()
    k = len(shp) - a.ndim
    ones = [_is_one(d) and not _is_one(shp[k + j]) for j, d in enumerate(a._shape)]
    return lambda *i: f(*[ZERO if ones[j] else i[k + j] for j in range(a.ndim)])


def val_fn(val, shape):
    if isinstance(val, (list, tuple)):
        val = as_arr(val)
    if isinstance(val, Arr):
        if val.ndim == 0:
            c = val.at()
            return lambda *i: c
        shp = bshape(shape, val._shape)
        if len(shp) != len(shape):
            raise ValueError("could not broadcast input array")
        for x, y in zip(shp, shape):
            if not (x == y) and not dims_equal(x, y):
                raise ValueError("could not broadcast input array into the target shape")
        return bcast(val, shape)
    if isinstance(val, Filt):
        raise Unsupported("assignment from a selection")
    c = val if val is NAN else (val.b if isinstance(val, SymBool) else tt(val))
    return lambda *i: c


def check_elem(o, cond, what):
    """definedness of an elementwise operation."""
    R = rt()
    if not R.check_defined:
        return
    if isinstance(o, Arr):
        ix = [T.of(new_ix(d)) for d in o._shape]
        R.defined(cond(num(o.at(*ix))), what)
    elif isinstance(o, (Sym, int, float)):
        R.defined(cond(tt(o)), what)


class SymList:
    """A list of symbolic length: element k is at(k)."""

    def __init__(self, n, at):
        self.n, self._at = as_t(n), at
        self.cache = {}

    def at(self, k):
        k = as_t(k) if not isinstance(k, Sym) else k.t
        r = self.cache.get(k)
        if r is None:
            r = self._at(k)
            self.cache[k] = r
        return r

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is None and k.stop is None and k.start is not None:
                s = tt(k.start)
                if not (rt().entails(b_ge(s)) and rt().entails(b_ge(sub(self.n, s)))):
                    raise Unsupported("slice of a symbolic list beyond its ends")
                return SymList(sub(self.n, s), lambda i: self.at(tm.add(i, s)))
            raise Unsupported("slice of a symbolic list")
        t = tt(k)
        v = t.value()
        if v is not None and v < 0:
            t = tm.add(self.n, t)
        return self.at(t)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list outside an instrumented loop")

    def __len__(self):
        v = self.n.value()
        if v is None:
            raise Unsupported("len of a symbolic list")
        return int(v)


def as_arr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, JList):
        return x.arr.copy()
    if isinstance(x, Sym):
        t = x.t
        return Arr(Store(lambda idx: t, (), "i" if t.is_int() else "f"))
    if isinstance(x, SymBool):
        t = x.b
        return Arr(Store(lambda idx: t, (), "b"))
    if isinstance(x, SymList):
        e = x.at(T.of(new_ix(x.n)))
        if isinstance(e, (Arr, JList)):
            es = as_arr(e)._shape
            return Arr.make((x.n,) + es, lambda i, *r: as_arr(x.at(i)).at(*r))
        return Arr.make((x.n,), lambda i: tt(x.at(i)))
    if isinstance(x, (list, tuple)):
        if not x:
            return Arr(Store(lambda idx: ZERO, (ZERO,), "f"))
        items = [as_arr(e) if isinstance(e, (list, tuple, Arr, JList, SymList)) else e for e in x]
        if isinstance(items[0], Arr):
            shp = items[0]._shape
            for it in items[1:]:
                if not isinstance(it, Arr) or len(it._shape) != len(shp) or not all(dims_equal(p, q) for p, q in zip(it._shape, shp)):
                    raise ValueError("inhomogeneous shape")
            fs = [it.snap() for it in items]
            return Arr.make((as_t(len(x)),) + shp, lambda i, *r: pick(i, [lambda f=f: f(*r) for f in fs]),
                            promote(it.store.dtype for it in items))
        if any(isinstance(e, str) for e in items):
            raise Unsupported("array of strings")
        isb = all(isinstance(e, (bool, SymBool)) for e in items)
        ts = [bb(e) if isb else (NAN if e is NAN else tt(e)) for e in items]
        return Arr.make((as_t(len(x)),), lambda i: pick(i, [lambda t=t: t for t in ts]), "b" if isb else "i" if all(intlike(e) for e in items) else "f")
    if isinstance(x, bool):
        return Arr(Store(lambda idx: TRUE if x else FALSE, (), "b"))
    if isinstance(x, (int, float)):
        t = as_t(x)
        return Arr(Store(lambda idx: t, (), "i" if intlike(x) else "f"))
    if x is NAN:
        return Arr(Store(lambda idx: NAN, (), "f"))
    import numpy as np

    if isinstance(x, np.ndarray):
        return as_arr(x.tolist())
    if isinstance(x, np.generic):
        return as_arr(x.item())
    raise Unsupported(f"array from {type(x).__name__}")


def pick(i, fs):
    v = i.value()
    if v is not None:
        v = int(v)
        if not 0 <= v < len(fs):
            return ZERO
        return fs[v]()
    r = fs[-1]()
    for k in range(len(fs) - 2, -1, -1):
        c = idx_cond(b_eq(sub(i, as_t(k))))
        r0 = r
        r = vite(c, fs[k], lambda: r0)
    return r


def cast(a, dtype):
    if dtype in (bool,) or dtype == "bool":
        if a.store.dtype == "b":
            return a
        s = a.snap()
        return Arr.make(a._shape, lambda *i: b_not(b_eq(num(s(*i)))), "b")
    d = dtype_of(dtype)
    if a.store.dtype == d:
        return a
    s = a.snap()
    if a.store.dtype == "b":
        return Arr.make(a._shape, lambda *i: mk_ind(bb(s(*i))), d)
    return Arr.make(a._shape, (lambda *i: strunc(s(*i))) if d == "i" else s, d)


def dtype_of(dtype):
    if dtype is None:
        return "f"
    n = getattr(dtype, "__name__", str(dtype))
    if "bool" in n:
        return "b"
    if any(w in n for w in ("complex", "float32", "float16", "half", "single", "object", "str", "int8", "int16", "int32")):
        raise Unsupported(f"arrays of {n}")
    return "i" if "int" in n else "f"


# ------------------------------------------------------------------ reductions and products
def np_sum(a, axis=None, keepdims=False):
    if isinstance(a, Filt):
        return a.sum()
    if isinstance(a, (Sym, int, float)):
        return a
    a = as_arr(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,)
    f = a.snap()
    keep = [k for k in range(a.ndim) if k not in axes]
    nd, shp = a.ndim, a._shape

    def val(*i):
        vs = {k: new_ix(shp[k]) for k in axes}
        full = [None] * nd
        for k, v in vs.items():
            full[k] = T.of(v)
        for k, x in zip(keep, i):
            full[k] = x
        return mk_sum([vs[k] for k in axes], num(f(*full)))

    if keepdims:
        return Arr.make(tuple(shp[k] if k in keep else ONE for k in range(nd)),
                        lambda *i: val(*[i[k] for k in keep]))
    if not keep:
        return Sym(val())
    return Arr.make(tuple(shp[k] for k in keep), val)


def np_mean(a, axis=None, keepdims=False):
    if isinstance(a, Filt):
        return a.mean()
    if isinstance(a, (Sym, int, float)):
        return a
    a = as_arr(a)
    n = ONE
    if axis is None:
        for d in a._shape:
            n = mul(n, d)
    else:
        for x in (axis if isinstance(axis, (tuple, list)) else (axis,)):
            n = mul(n, a._shape[x % a.ndim])
    rt().defined(b_not(b_eq(n)), "mean of an empty array")
    s = np_sum(a, axis, keepdims)
    return s * Sym(tm.mk_inv(n))


def np_any(a):
    if isinstance(a, (SymBool, bool)):
        return a
    if isinstance(a, NanMask):
        return a.any()
    if isinstance(a, Filt):
        raise Unsupported("any of a selection")
    return SymBool.of(b_not(all_cond(a, lambda v: b_not(bb(scal(v))))))


def np_all(a):
    if isinstance(a, (SymBool, bool)):
        return a
    if isinstance(a, NanMask):
        return a.all()
    return SymBool.of(all_cond(as_arr(a), lambda v: bb(scal(v))))


def all_cond(a, f):
    """'all entries satisfy f' as a condition (expanded when concrete, an opaque atom otherwise)."""
    dims = [_const(d) for d in a._shape]
    if all(d is not None for d in dims) and _prod(dims) <= 64:
        return b_and(*[f(a.at(*[as_t(i) for i in ix])) for ix in itertools.product(*[range(d) for d in dims])])
    ks = [T.of(tm._mk("ix", (("key", k, len(a._shape)), d), True)) for k, d in enumerate(a._shape)]
    c = f(a.at(*ks))
    if c is TRUE or rt().entails(c):
        return TRUE
    if c is FALSE:
        n = ONE
        for d in a._shape:
            n = mul(n, d)
        return b_eq(n)
    return RT.forall_atom(a._shape, c, ks, f, a)


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def np_ext(a, mx):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("max/min of a matrix")
    n = _const(a._shape[0])
    if n is not None:
        r = num(a.at(ZERO))
        for k in range(1, n):
            r = tm.mk_max(r, num(a.at(as_t(k)))) if mx else tm.mk_min(r, num(a.at(as_t(k))))
        return Sym(r)
    return Sym(RT.extremum(a, mx))


def np_trace(a):
    if a.ndim != 2 or not dims_equal(a._shape[0], a._shape[1]):
        raise Unsupported("trace of a non-square matrix")
    v = new_ix(a._shape[0])
    return Sym(mk_sum([v], num(a.at(T.of(v), T.of(v)))))


def np_diagonal(a):
    if a.ndim != 2 or not dims_equal(a._shape[0], a._shape[1]):
        raise Unsupported("diagonal of a non-square matrix")
    s = a.snap()
    return Arr.make((a._shape[0],), lambda i: s(i, i), a.store.dtype)


def np_diag(a):
    a = as_arr(a)
    s = a.snap()
    if a.ndim == 2:
        return np_diagonal(a)
    return Arr.make((a._shape[0],) * 2, lambda i, j: ite(idx_cond(b_eq(sub(i, j))), num(s(i)), ZERO))


def np_outer(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("outer of anything but vectors")
    f, g = a.snap(), b.snap()
    return Arr.make((a._shape[0], b._shape[0]), lambda i, j: mul(num(f(i)), num(g(j))))


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    da = a._shape[-1]
    db = b._shape[0] if b.ndim <= 2 else b._shape[-2]
    if not dims_equal(da, db):
        raise ValueError("matmul: dimension mismatch")
    f, g = a.snap(), b.snap()
    if a.ndim == 1 and b.ndim == 1:
        v = new_ix(da)
        return Sym(mk_sum([v], mul(num(f(T.of(v))), num(g(T.of(v))))))
    if a.ndim == 2 and b.ndim == 1:
        def fn(i):
            v = new_ix(da)
            return mk_sum([v], mul(num(f(i, T.of(v))), num(g(T.of(v)))))
        return Arr.make((a._shape[0],), fn)
    if a.ndim == 1 and b.ndim == 2:
        def fn(j):
            v = new_ix(da)
            return mk_sum([v], mul(num(f(T.of(v))), num(g(T.of(v), j))))
        return Arr.make((b._shape[1],), fn)
    if a.ndim == 2 and b.ndim == 2:
        def fn(i, j):
            v = new_ix(da)
            return mk_sum([v], mul(num(f(i, T.of(v))), num(g(T.of(v), j))))
        return Arr.make((a._shape[0], b._shape[1]), fn)
    raise Unsupported("matmul of stacked arrays")


def np_clip(a, a_min=None, a_max=None, min=None, max=None):
    lo, hi = a_min if a_min is not None else min, a_max if a_max is not None else max

    def f(t):
        # numpy: minimum(maximum(a, lo), hi)
        if lo is not None:
            t = tm.mk_max(t, tt(lo))
        if hi is not None:
            t = tm.mk_min(t, tt(hi))
        return t

    if any(isinstance(b, (Arr, list, tuple)) for b in (lo, hi)):
        r = as_arr(a)
        if lo is not None:
            r = r._ew(lo, _n2(tm.mk_max))
        return r if hi is None else r._ew(hi, _n2(tm.mk_min))
    return np_map(a, f)


def np_map(a, f, dtype="f"):
    if isinstance(a, Filt):
        return a.map(f)
    if isinstance(a, (Sym, SymBool, int, float)):
        return scal(f(tt(a)))
    a = as_arr(a)
    if a.ndim == 0:
        return scal(f(num(a.at())))
    s = a.snap()
    return Arr.make(a._shape, lambda *i: f(num(s(*i))), dtype)
