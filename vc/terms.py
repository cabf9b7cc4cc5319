"""Term language of the verifier: polynomials over hash-consed atoms, with symbolic finite sums.

A term ``T`` is a polynomial with rational coefficients over atoms.  Atoms are variables, entries of
(uninterpreted) arrays, inverses, square roots, positive parts, 0/1 indicators of conditions, and
sums over index ranges of symbolic length.  Everything is kept in a normal form, so that equality of
terms is (sound, incomplete) equality of dictionaries.

Machine numbers are idealised: reals for floats, mathematical integers for ints.
"""
from __future__ import annotations

import itertools
from fractions import Fraction
from math import gcd


class Unsupported(Exception):
    """The engine met something outside its reach (never a verdict about the code)."""


# ------------------------------------------------------------------ function symbols
class Fn:
    """An uninterpreted array/function symbol.  ``arity`` index arguments, real valued."""

    _tab = {}

    def __init__(self, name, key, arity, dims=None, sym=False, integer=False, **props):
        self.name, self.key, self.arity, self.dims = name, key, arity, dims
        self.sym, self.integer = sym, integer
        self.props = props  # e.g. psd=, pd=, orth=, entry=callable(args)->list[B], src=...
        self.id = len(Fn._tab)

    @staticmethod
    def get(name, key, arity, **kw):
        k = (name, key)
        f = Fn._tab.get(k)
        if f is None:
            f = Fn(name, key, arity, **kw)
            Fn._tab[k] = f
        return f

    def __hash__(self):
        return self.id

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("kind", "args", "id", "vars", "height", "integer", "__weakref__")
    _tab = {}
    _n = 0

    def __hash__(self):   # not the address: runs must be repeatable
        return self.id

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "var":
            return a[0]
        if k == "ix":
            return f"i{a[0]}"
        if k == "bv":
            return f"b{a[0]}.{a[1]}"
        if k == "app":
            return f"{a[0].name}({', '.join(map(str, a[1]))})"
        if k == "sum":
            return "Sum{" + ", ".join(f"b{self.height}.{i}<{r}" for i, r in enumerate(a[0])) + "}(" + str(a[1]) + ")"
        if k == "ind":
            return f"[{a[0]}]"
        return f"{k}({', '.join(map(str, a))})"


def _mk(kind, args, integer=False):
    key = (kind, args)
    at = Atom._tab.get(key)
    if at is not None:
        return at
    at = Atom()
    at.kind, at.args, at.integer = kind, args, integer
    at.id = Atom._n
    Atom._n += 1
    vs, h = set(), 0
    if kind in ("var", "ix", "bv"):
        vs.add(at)
        if kind == "ix":
            vs |= args[1].vars()
    else:
        for x in args:
            for t in x if isinstance(x, tuple) else (x,):
                if isinstance(t, (T, B)):
                    vs |= t.vars()
                    h = max(h, t.height())
        if kind == "sum":
            h += 1
            vs = {v for v in vs if not (v.kind == "bv" and v.args[0] == h)}
    at.vars, at.height = frozenset(vs), h
    Atom._tab[key] = at
    return at


_uid = itertools.count()


def new_ix(n):
    """A fresh index variable ranging over 0 <= i < n."""
    return _mk("ix", (next(_uid), as_t(n)), True)


def var(name, integer=False):
    return T.of(_mk("var", (name,), integer))


def bv(h, slot):
    return _mk("bv", (h, slot), True)


# ------------------------------------------------------------------ terms
def _exactly(f):
    # decimal reading of a literal: 0.1 is one tenth (reals for floats)
    return Fraction(repr(f)) if f == f and abs(f) != float("inf") else None


class T:
    __slots__ = ("m", "_h", "_v", "_ht", "_int")

    def __init__(self, m):
        self.m = m
        self._h = self._v = self._ht = self._int = None

    @staticmethod
    def of(atom):
        return T({((atom, 1),): Fraction(1)})

    @staticmethod
    def const(c):
        c = Fraction(c)
        return T({(): c} if c else {})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def same(self, o):
        return self.m == o.m

    # structural equality is used by dictionaries only
    def __eq__(self, o):
        if isinstance(o, T):
            return self.m == o.m
        return NotImplemented

    def vars(self):
        if self._v is None:
            s = set()
            for mono in self.m:
                for a, _ in mono:
                    s |= a.vars
            self._v = frozenset(s)
        return self._v

    def atoms(self):
        return {a for mono in self.m for a, _ in mono}

    def height(self):
        if self._ht is None:
            self._ht = max((a.height for mono in self.m for a, _ in mono), default=0)
        return self._ht

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def value(self):
        return self.m.get((), Fraction(0)) if self.is_const() else None

    def is_int(self):
        if self._int is None:
            self._int = all(
                c.denominator == 1 and all(a.integer and e > 0 for a, e in mono)
                for mono, c in self.m.items()
            )
        return self._int

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mono, c in self.m.items():
            s = "*".join(f"{a}" if e == 1 else f"{a}^{e}" for a, e in mono)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out)


def as_t(x):
    if isinstance(x, T):
        return x
    if isinstance(x, B):
        return mk_ind(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return T.const(x)
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, float):
        f = _exactly(x)
        if f is None:
            raise Unsupported(f"non-finite literal {x}")
        return T.const(f)
    try:
        import numpy as np

        if isinstance(x, np.generic):
            return as_t(x.item())
    except ImportError:
        pass
    raise Unsupported(f"not a scalar term: {type(x).__name__}")


def add(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    m = dict(a.m)
    for k, c in b.m.items():
        v = m.get(k, 0) + c
        if v:
            m[k] = v
        else:
            m.pop(k, None)
    return T(m)


def neg(a):
    return T({k: -c for k, c in a.m.items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, c):
    c = Fraction(c)
    if c == 1:
        return a
    return T({k: v * c for k, v in a.m.items()}) if c else ZERO


def _mono_mul(m1, m2):
    """Product of monomials: (mono, extra T or None).  Applies atom-level power rules."""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d.get(a)
        if e is None:
            continue
        if e == 0:
            del d[a]
            continue
        k = a.kind
        if k == "ind" and e != 1:
            if e < 0:
                raise Unsupported("division by an indicator")
            d[a] = 1
        elif k == "sqrt" and (e > 1 or e < 0):
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            if q > 0 and len(a.args[0].m) > 1:      # x * 1/x = 1 before x is multiplied out
                c0, mono, rest = factor_out(a.args[0])
                b = _T_atom("inv", rest)
                e2 = min(q, d.get(b, 0)) if b is not None and not mono else 0
                if e2 > 0:
                    d[b] -= e2
                    if not d[b]:
                        del d[b]
                    q -= e2
                    p = T.const(Fraction(c0) ** e2)
                    extra = p if extra is None else mul(extra, p)
            if not q:
                continue
            p = power(a.args[0], q)
            extra = p if extra is None else mul(extra, p)
        elif k == "pos" and e > 1:
            d[a] = 1
            p = power(a.args[0], e - 1)
            extra = p if extra is None else mul(extra, p)
        elif k == "inv" and e < 0:
            del d[a]
            p = power(a.args[0], -e)
            extra = p if extra is None else mul(extra, p)
    return tuple(sorted(d.items(), key=_akey)), extra


def _T_atom(kind, *args):
    """The atom, if it exists already."""
    return Atom._tab.get((kind, args))


def _akey(p):
    return p[0].id


def mul(a, b):
    if not a.m or not b.m:
        return ZERO
    if a.is_const():
        return scale(b, a.m[()])
    if b.is_const():
        return scale(a, b.m[()])
    out = {}
    rest = []
    for k1, c1 in a.m.items():
        for k2, c2 in b.m.items():
            mono, extra = _mono_mul(k1, k2)
            c = c1 * c2
            t = _delta_mono(mono)
            if t is None and extra is None:
                v = out.get(mono, 0) + c
                if v:
                    out[mono] = v
                else:
                    out.pop(mono, None)
            else:
                r = T({mono: c}) if t is None else scale(t, c)
                rest.append(r if extra is None else mul(r, extra))
    res = T(out)
    for r in rest:
        res = add(res, r)
    if len(a.m) > 1 and len(b.m) > 1 and len(res.m) <= 200:
        _prods.setdefault(res, (a, b))
    return res


_prods = {}      # expanded product -> its factors, so that 1/(a*b) is 1/a * 1/b


def power(a, e):
    if e == 0:
        return ONE
    if e < 0:
        return power(mk_inv(a), -e)
    r = a
    for _ in range(e - 1):
        r = mul(r, a)
    return r


ZERO = T({})
ONE = T({(): Fraction(1)})


# ------------------------------------------------------------------ equality substitution inside a product
def _delta_mono(mono):
    """If an indicator [x == t] multiplies other atoms, rewrite the others under that equality."""
    inds = [a for a, e in mono if a.kind == "ind"]
    if not inds:
        return None
    if len(inds) > 1:
        for b in inds:
            inner = _inner_inds(b)
            if inner:
                known = [a for a in inds if a is not b and a in inner]
                if known:       # [L] * [.. [L] ..] = [L] * [.. 1 ..]
                    res = mk_ind(_set_ind_b(b.args[0], known[0], ONE))
                    return mul(T({tuple((a, e) for a, e in mono if a is not b): Fraction(1)}), res)
    inds = [a for a in inds if a.args[0].kind == "eq"]
    if not inds:
        return None
    for a in inds:
        sol = _solve_eq(a.args[0].args[0])
        if sol is None:
            continue
        v, t = sol
        hit = any(v in b.vars for b, e in mono if b is not a)
        if hit:
            res = ONE
            ok = True
            for b, e in mono:
                if b is a:
                    continue
                s = subst_atom(b, {v: t})
                res = mul(res, power(s, e))
            if ok:
                return mul(res, T({((a, 1),): Fraction(1)}))
    return None


_inner = {}


def _inner_inds(b):
    """The indicators inside the condition of the indicator b."""
    r = _inner.get(b)
    if r is None:
        r = set()
        todo = [b.args[0]]
        while todo:
            x = todo.pop()
            if isinstance(x, B):
                todo += [y for y in x.args if isinstance(y, (T, B))]
                continue
            for mono in x.m:
                for a, _ in mono:
                    if a.kind == "ind":
                        r.add(a)
                        r |= _inner_inds(a)
        r = _inner[b] = frozenset(r)
    return r


def _set_ind(t, a, v):
    out = ZERO
    for mono, c in t.m.items():
        r = T.const(c)
        for x, e in mono:
            if x is a:
                r = mul(r, v)
            elif x.kind == "ind" and a in _inner_inds(x):
                r = mul(r, mk_ind(_set_ind_b(x.args[0], a, v)))
            else:
                r = mul(r, T({((x, e),): Fraction(1)}))
        out = add(out, r)
    return out


def _set_ind_b(b, a, v):
    k = b.kind
    if k in ("ge", "gt", "eq"):
        return {"ge": b_ge, "gt": b_gt, "eq": b_eq}[k](_set_ind(b.args[0], a, v))
    if k == "not":
        return b_not(_set_ind_b(b.args[0], a, v))
    if k in ("and", "or"):
        return (b_and if k == "and" else b_or)(*[_set_ind_b(x, a, v) for x in b.args])
    return b


def _solve_eq(t):
    """From t == 0 (index equality), a substitution var -> term, eliminating the largest variable."""
    best = None
    for mono, c in t.m.items():
        if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1:
            v = mono[0][0]
            if v.kind in ("ix", "bv") or (v.kind == "var" and v.integer):
                if best is None or _vrank(v) > _vrank(best[0]):
                    rest = T({k: -x / c for k, x in t.m.items() if k != mono})
                    if v not in rest.vars():
                        best = (v, rest)
    return best


def _vrank(v):
    return ({"var": 0, "bv": 1, "ix": 2}[v.kind], v.id)


# ------------------------------------------------------------------ constructors with rules
def mk_app(fn, args):
    args = tuple(as_t(a) for a in args)
    if fn.sym and len(args) >= 2 and _tkey(args[-2]) > _tkey(args[-1]):
        args = args[:-2] + (args[-1], args[-2])
    rw = fn.props.get("rewrite")
    if rw is not None:
        r = rw(*args)
        if r is not None:
            return r
    return T.of(_mk("app", (fn, args), fn.integer))


_tk = {}


def _tkey(t):
    k = _tk.get(t)
    if k is None:
        k = len(_tk)
        _tk[t] = k
    return k


def _content(t):
    """(rational, monomial) content of t, so that t = c * mono * rest with rest primitive and its
    leading coefficient positive."""
    monos = list(t.m.items())
    num = den = 0
    for _, c in monos:
        num = gcd(num, c.numerator)
        den = c.denominator if den == 0 else den * c.denominator // gcd(den, c.denominator)
    c0 = Fraction(num, den)
    lead = min(monos, key=lambda kc: _mono_order(kc[0]))
    if lead[1] < 0:
        c0 = -c0
    common = None
    for k, _ in monos:
        d = dict(k)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                e = d.get(a, 0)
                x = common[a]
                if x > 0 and e > 0:
                    common[a] = min(x, e)
                elif x < 0 and e < 0:
                    common[a] = max(x, e)
                else:
                    del common[a]
            for a, e in d.items():
                pass
    # also pull out negative powers so that the primitive part has none
    for k, _ in monos:
        for a, e in k:
            if e < 0:
                common[a] = min(common.get(a, 0), e)
    common = {a: e for a, e in common.items() if e and a.kind not in ("ind", "pos")}
    return c0, tuple(sorted(common.items(), key=_akey))


def _mono_order(k):
    return (-sum(abs(e) for _, e in k), tuple((a.id, e) for a, e in k))


def factor_out(t):
    """t = c * mono * rest."""
    c0, mono = _content(t)
    inv = tuple((a, -e) for a, e in mono)
    rest = ZERO
    for k, c in t.m.items():
        d = dict(k)
        for a, e in inv:
            d[a] = d.get(a, 0) + e
            if d[a] == 0:
                del d[a]
        rest = add(rest, T({tuple(sorted(d.items(), key=_akey)): c / c0}))
    return c0, mono, rest


def mk_inv(t):
    """1/t.  The caller is responsible for the definedness obligation t != 0."""
    if not t.m:
        raise ZeroDivisionError("division by zero")
    if t.is_const():
        return T.const(1 / t.value())
    f = _prods.get(t)
    if f is not None:
        return mul(mk_inv(f[0]), mk_inv(f[1]))
    c0, mono, rest = factor_out(t)
    r = T.const(1 / c0)
    for a, e in mono:
        if a.kind == "sqrt":
            # 1/sqrt(x) = sqrt(x)/x
            for _ in range(abs(e)):
                r = mul(r, mul(T.of(a), mk_inv(a.args[0]))) if e > 0 else mul(r, T.of(a))
        elif a.kind == "inv":
            r = mul(r, power(a.args[0], e)) if e > 0 else mul(r, T({((a, -e),): Fraction(1)}))
        else:
            r = mul(r, T({((a, -e),): Fraction(1)}))
    if rest.is_const():
        return scale(r, 1 / rest.value())
    return mul(r, T.of(_mk("inv", (rest,))))


def div(a, b):
    return mul(a, mk_inv(b))


_nonneg_hook = [None]  # callable(T)->bool, set by the solver context


def _known_nonneg(t):
    if t.is_const():
        return t.value() >= 0
    h = _nonneg_hook[0]
    return bool(h and h(t))


def mk_sqrt(t, _known_nonneg=_known_nonneg):
    if t.is_const():
        v = t.value()
        if v < 0:
            raise Unsupported("sqrt of a negative constant")
        import math

        rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if rn * rn == v.numerator and rd * rd == v.denominator:
            return T.const(Fraction(rn, rd))
    c0, mono, rest = factor_out(t)
    # distribute over a product of factors that are known to be non-negative
    if mono or (not rest.is_const() and abs(c0) != 1):
        out = ONE
        left = {}
        ok = True
        for a, e in mono:
            ta = T.of(a)
            if e % 2 == 0 and _known_nonneg(ta):
                out = mul(out, power(ta, e // 2))
            elif _known_nonneg(ta):
                q, r = divmod(e, 2)
                out = mul(out, power(ta, q))
                left[a] = r
            else:
                ok = False
        body = mul(T.const(c0), rest)
        if ok and _known_nonneg(body):
            for a, r in left.items():
                out = mul(out, T.of(_mk("sqrt", (T.of(a),))))
            if body.is_const():
                return mul(out, mk_sqrt(body) if body.value() != 1 else ONE)
            c1, _, prim = factor_out(body)
            c2, sgn = (c1, prim) if c1 > 0 else (-c1, neg(prim))
            return mul(mul(out, mk_sqrt(T.const(c2))), T.of(_mk("sqrt", (sgn,))))
    return T.of(_mk("sqrt", (t,)))


def _cheap_nonneg(t):
    return t.is_const() and t.value() >= 0


def _renaming(a, mp):
    """The substitution only renames index variables of a: what was not simplified before is not now."""
    for v in a.vars:
        r = mp.get(v)
        if r is None:
            continue
        if len(r.m) != 1:
            return False
        (mono, c), = r.m.items()
        if c != 1 or len(mono) != 1 or mono[0][1] != 1 or mono[0][0].kind not in ("ix", "bv"):
            return False
    return True


def mk_pos(t, _known_nonneg=_known_nonneg):
    """max(t, 0), oriented and scaled canonically."""
    if t.is_const():
        v = t.value()
        return t if v > 0 else ZERO
    c0, _ = _content(t)
    prim = scale(t, 1 / c0)
    if c0 < 0:
        # max(-u, 0) = max(u, 0) - u
        return scale(sub(mk_pos(prim, _known_nonneg), prim), -c0)
    if _known_nonneg(prim):
        return t
    if _known_nonneg(neg(prim)):
        return ZERO
    # pull out non-negative monomial factors
    c1, mono, rest = factor_out(prim)
    out = tuple((a, e) for a, e in mono if _known_nonneg(T.of(a)))
    if out and (len(out) < len(mono) or not rest.is_const()):
        left = mul(T({tuple(x for x in mono if x not in out): Fraction(1)}), rest)
        f = T({out: Fraction(1)})
        if c1 < 0:
            return mul(scale(f, c0), scale(mk_pos(neg(scale(left, -c1)), _known_nonneg), 1))
        return mul(scale(f, c0 * c1), mk_pos(left, _known_nonneg))
    return scale(T.of(_mk("pos", (prim,), prim.is_int())), c0)


def mk_max(a, b):
    if not any(v.kind in ("ix", "bv") for v in a.vars()) and any(v.kind in ("ix", "bv") for v in b.vars()):
        a, b = b, a         # relative to the operand that is the same for every entry
    return add(b, mk_pos(sub(a, b)))


def mk_min(a, b):
    return sub(a, mk_pos(sub(a, b)))


def mk_abs(t):
    return sub(scale(mk_pos(t), 2), t)


def mk_fun(name, *args, integer=False):
    """A total uninterpreted unary/binary function (log, pow, floor ...)."""
    args = tuple(as_t(a) for a in args)
    return T.of(_mk(name, args, integer))


def mk_pow(a, e):
    e = as_t(e)
    v = e.value()
    if v is not None and v.denominator == 1:
        n = int(v)
        return power(a, n)
    if v is not None and v == Fraction(1, 2):
        return mk_sqrt(a)
    if v is not None and v == Fraction(-1, 2):
        return mk_inv(mk_sqrt(a))
    if a.is_const() and a.value() == 1:
        return ONE
    return mk_fun("pow", a, e)


# ------------------------------------------------------------------ booleans
class B:
    """Conditions.  kinds: true/false, ge(t): t>=0, gt(t): t>0, eq(t): t==0, and/or/not, atom."""

    __slots__ = ("kind", "args", "id", "_v")
    _tab = {}

    @staticmethod
    def mk(kind, *args):
        k = (kind, args)
        b = B._tab.get(k)
        if b is None:
            b = B()
            b.kind, b.args, b._v = kind, args, None
            b.id = len(B._tab)
            B._tab[k] = b
        return b

    def vars(self):
        if self._v is None:
            s = set()
            for a in self.args:
                if isinstance(a, (T, B)):
                    s |= a.vars()
            self._v = frozenset(s)
        return self._v

    def height(self):
        return max((a.height() for a in self.args if isinstance(a, (T, B))), default=0)

    def __repr__(self):
        k = self.kind
        if k in ("true", "false"):
            return k
        if k in ("ge", "gt", "eq"):
            return f"{self.args[0]} {dict(ge='>=', gt='>', eq='==')[k]} 0"
        if k == "not":
            return f"!({self.args[0]})"
        if k == "atom":
            return str(self.args[0]) + (f"({', '.join(map(str, self.args[1:]))})" if len(self.args) > 1 else "")
        return "(" + f" {k} ".join(map(str, self.args)) + ")"

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.id


TRUE, FALSE = B.mk("true"), B.mk("false")


def _on_ind(t, f):
    """A condition on c + d * (product of indicators), or on a polynomial of one indicator, as one on what is indicated."""
    ms = [m for m in t.m if m]
    if any(x.kind != "ind" for m in ms for x, _ in m) or len(set(ms)) != 1:
        return None
    one = f(T.const(sum(t.m.values())))
    zero = f(T.const(t.m.get((), Fraction(0))))
    if one is zero:
        return one
    c = b_and(*[x.args[0] for x, _ in ms[0]])
    return c if one is TRUE else b_not(c)


def b_ge(t):
    """t >= 0"""
    if t.is_const():
        return TRUE if t.value() >= 0 else FALSE
    r = _on_ind(t, b_ge)
    if r is not None:
        return r
    c0, _ = _content(t)
    t = scale(t, 1 / abs(c0))
    if t.is_int() and c0 < 0:
        # t >= 0  <=>  not (-t - 1 >= 0)
        return b_not(B.mk("ge", add(neg(t), T.const(-1))))
    return B.mk("ge", t)


def b_gt(t):
    if t.is_const():
        return TRUE if t.value() > 0 else FALSE
    if t.is_int():
        return b_ge(add(t, T.const(-1)))
    return b_not(b_ge(neg(t)))


def b_eq(t):
    if t.is_const():
        return TRUE if not t.m else FALSE
    r = _on_ind(t, b_eq)
    if r is not None:
        return r
    c0, _ = _content(t)
    t = scale(t, 1 / c0)
    if t.is_int() is False and all(a.integer for a in t.atoms()):
        # e.g. 2*i - 1 = 0 scaled: keep as is
        pass
    # parity: an integer combination with a non-integer constant never vanishes
    nc = T({k: c for k, c in t.m.items() if k})
    if nc.is_int() and t.m.get((), Fraction(0)).denominator != 1:
        return FALSE
    # range-based disequality for index variables
    r = _same_position(t)
    if r is not None:
        return r
    return B.mk("eq", t)


def _same_position(t):
    """start(k) + u == start(l) + v, both inside their own pieces: the same piece and the same offset."""
    fs = {a.args[0] for a in t.atoms() if a.kind == "app" and a.args[0].props.get("member")}
    if len(fs) != 1:
        return None
    mem = next(iter(fs)).props["member"]
    pos = T({k: c for k, c in t.m.items() if c > 0})
    neg_ = T({k: -c for k, c in t.m.items() if c < 0})
    x, y = mem(pos), mem(neg_)
    if x is None or y is None:
        return None
    return b_and(b_eq(sub(x[0], y[0])), b_eq(sub(x[1], y[1])))


def b_not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.args[0]
    return B.mk("not", b)


def b_and(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.kind == "and":
            out.extend(b.args)
        else:
            out.append(b)
    out = sorted(set(out), key=lambda b: b.id)
    for b in out:
        if b_not(b) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else B.mk("and", *out)


def b_or(*bs):
    return b_not(b_and(*[b_not(b) for b in bs]))


def mk_ind(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.kind == "not":
        return sub(ONE, mk_ind(b.args[0]))
    if b.kind == "and":
        r = ONE
        for x in b.args:
            r = mul(r, mk_ind(x))
        return r
    if b.kind == "or":
        r = ONE
        for x in b.args:
            r = mul(r, sub(ONE, mk_ind(x)))
        return sub(ONE, r)
    return T.of(_mk("ind", (b,), True))


def ite(b, x, y):
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if x == y:
        return x
    return add(y, mul(mk_ind(b), sub(x, y)))


def tricho(t):
    """[x > 0] written as [x >= 0] - [x = 0] where both orders of an integer x occur, when that is shorter."""
    out = t
    while True:
        inds = {a.args[0].args[0]: a for mono in out.m for a, _ in mono
                if a.kind == "ind" and a.args[0].kind == "ge" and a.args[0].args[0].is_int()}
        for g, a in inds.items():
            g1 = add(g, ONE)
            if g1 not in inds:
                continue
            v = sub(T.of(inds[g1]), mk_ind(b_eq(g1)))
            r = ZERO
            for mono, c in out.m.items():
                d = dict(mono)
                e = d.pop(a, 0)
                x = T({tuple(sorted(d.items(), key=_akey)): c})
                r = add(r, mul(x, power(v, e)) if e else x)
            if len(r.m) < len(out.m):
                out = r
                break
        else:
            return out


# ------------------------------------------------------------------ substitution
def subst(t, mp):
    if not mp or not (t.vars() & mp.keys()):
        return t
    res = {}
    rest = ZERO
    for mono, c in t.m.items():
        if not any(a.vars & mp.keys() for a, _ in mono):
            v = res.get(mono, 0) + c
            res[mono] = v
            continue
        r = T.const(c)
        for a, e in mono:
            if a.vars & mp.keys():
                s = subst_atom(a, mp)
                r = mul(r, power(s, e) if e > 0 else power(mk_inv(s), -e))
            else:
                r = mul(r, T({((a, e),): Fraction(1)}))
        rest = add(rest, r)
    return add(T({k: v for k, v in res.items() if v}), rest)


def subst_atom(a, mp):
    if not (a.vars & mp.keys()):
        return T.of(a)
    k = a.kind
    if k in ("var", "bv"):
        r = mp.get(a)
        return T.of(a) if r is None else r
    if k == "ix":
        r = mp.get(a)
        if r is not None:
            return r
        return T.of(_mk("ix", (a.args[0], subst(a.args[1], mp)), True))
    if k == "app":
        return mk_app(a.args[0], [subst(x, mp) for x in a.args[1]])
    if k == "inv":
        return mk_inv(subst(a.args[0], mp))
    if k == "sqrt":
        return mk_sqrt(subst(a.args[0], mp))
    if k == "pos":
        if _renaming(a, mp):
            return mk_pos(subst(a.args[0], mp), _cheap_nonneg)
        return mk_pos(subst(a.args[0], mp))
    if k == "pow":
        return mk_pow(subst(a.args[0], mp), subst(a.args[1], mp))
    if k == "ind":
        return mk_ind(subst_b(a.args[0], mp))
    if k == "cind":
        b = subst_b(a.args[0], mp)
        return ZERO if b is TRUE else ONE if b is FALSE else T.of(_mk("cind", (b,)))
    if k == "sum":
        vs, body, ranges = open_sum(a)
        mp2 = {v: x for v, x in mp.items()}
        ranges = [subst(r, mp2) for r in ranges]
        nvs = [new_ix(r) for r in ranges]
        m3 = dict(mp2)
        for v, w in zip(vs, nvs):
            m3[v] = T.of(w)
        # ranges may mention the opened variables
        return mk_sum(nvs, subst(body, m3))
    return T.of(_mk(k, tuple(subst(x, mp) if isinstance(x, T) else x for x in a.args), a.integer))


def subst_b(b, mp):
    if not (b.vars() & mp.keys()):
        return b
    k = b.kind
    if k == "ge":
        return b_ge(subst(b.args[0], mp))
    if k == "gt":
        return b_gt(subst(b.args[0], mp))
    if k == "eq":
        return b_eq(subst(b.args[0], mp))
    if k == "not":
        return b_not(subst_b(b.args[0], mp))
    if k == "and":
        return b_and(*[subst_b(x, mp) for x in b.args])
    if k == "or":
        return b_or(*[subst_b(x, mp) for x in b.args])
    return B.mk(k, *[subst(x, mp) if isinstance(x, T) else x for x in b.args])


# ------------------------------------------------------------------ sums
def open_sum(a):
    """Fresh index variables for the bound ones: (vars, body, ranges)."""
    ranges, body = a.args
    h = a.height
    vs = []
    mp = {}
    rs = []
    for i, r in enumerate(ranges):
        r2 = subst(r, mp)
        v = new_ix(r2)
        mp[bv(h, i)] = T.of(v)
        vs.append(v)
        rs.append(r2)
    return vs, subst(body, mp), rs


_contract_rules = []  # callables(vs, mono) -> None or T  (T = value of the sum over vs of mono)


def mk_sum(vs, body):
    """Sum of body over the index variables vs (each a fresh 'ix' atom carrying its range)."""
    if not body.m:
        return ZERO
    vs = list(vs)
    if not vs:
        return body
    for v in vs:
        n = v.args[1].value()
        if n is not None and n <= 8 and not any(v in w.args[1].vars() for w in vs):     # a short concrete range: term by term
            rest = [w for w in vs if w is not v]
            res = ZERO
            for q in range(int(n)):
                res = add(res, mk_sum(rest, subst(body, {v: as_t(q)})))
            return res
    res = ZERO
    for mono, c in body.m.items():
        res = add(res, scale(_sum_mono(vs, mono), c))
    return res


def _in_range(t, n):
    """0 <= t < n, decided syntactically or by the context."""
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "ix":
            if mono[0][0].args[1] == n:
                return True
    h = _range_hook[0]
    return bool(h and h(t, n))


_range_hook = [None]
_fact_hook = [None]


def _range_ind(t, n):
    """[0 <= t < n] as a product of indicators, without the sides the context knows."""
    r = ONE
    for b in (b_ge(t), b_ge(sub(sub(n, ONE), t))):
        if b is TRUE or _fact_hook[0] is not None and _fact_hook[0](b):
            continue
        r = mul(r, mk_ind(b))
    return r


def _sum_mono(vs, mono):
    vset = set(vs)
    # 1. open inner sums that depend on a bound variable
    for a, e in mono:
        if a.kind == "sum" and e > 0 and (a.vars & vset):
            rest = tuple((b, x) for b, x in mono if b is not a)
            body = T({rest: Fraction(1)})
            nvs = list(vs)
            for _ in range(e):
                ivs, ib, _r = open_sum(a)
                nvs += ivs
                body = mul(body, ib)
            return mk_sum(nvs, body)
    # 2. eliminate equalities on bound variables
    for a, e in mono:
        if a.kind == "ind" and a.args[0].kind == "eq":
            t = a.args[0].args[0]
            for v in vs:
                if v not in t.vars():
                    continue
                k = ((v, 1),)
                c = t.m.get(k)
                if c is None or abs(c) != 1:
                    continue
                val = T({m: -x / c for m, x in t.m.items() if m != k})
                if v in val.vars() or not val.is_int():
                    continue
                # other bound vars' ranges may depend on v: keep it simple
                if any(v in w.args[1].vars() for w in vs if w is not v):
                    continue
                if not _in_range(val, v.args[1]):
                    if _in_range(neg(add(val, ONE)), as_t(10**12)):
                        return ZERO
                    continue
                rest = ONE
                for b, x in mono:
                    if b is a:
                        continue
                    s = subst_atom(b, {v: val})
                    rest = mul(rest, power(s, x) if x > 0 else power(mk_inv(s), -x))
                return mk_sum([w for w in vs if w is not v], rest)
    for a, e in mono:
        if a.kind == "ind" and a.args[0].kind == "eq":
            t = a.args[0].args[0]
            for v in vs:
                c = t.m.get(((v, 1),))
                if c is None or abs(c) != 1:
                    continue
                val = T({m: -x / c for m, x in t.m.items() if m != ((v, 1),)})
                if val.vars() & vset or not val.is_int() or v.args[1].vars() & vset or any(v in w.args[1].vars() for w in vs):
                    continue
                # the value may lie outside the range: its indicator stays
                rest = ONE
                for b, x in mono:
                    if b is a:
                        continue
                    s = subst_atom(b, {v: val})
                    rest = mul(rest, power(s, x) if x > 0 else power(mk_inv(s), -x))
                return mul(_range_ind(val, v.args[1]), mk_sum([w for w in vs if w is not v], rest))
    # 3. contraction rules
    for rule in _contract_rules:
        r = rule(vs, mono)
        if r is not None:
            return r
    # 4. connected components
    free = []
    bound = []
    for a, e in mono:
        (bound if a.vars & vset else free).append((a, e))
    comp = {v: {v} for v in vs}

    def union(xs):
        xs = [x for x in xs if x in comp]
        if len(xs) < 2:
            return
        s = set()
        for x in xs:
            s |= comp[x]
        for x in s:
            comp[x] = s

    for a, e in bound:
        union(list(a.vars & vset))
    for v in vs:
        d = v.args[1].vars() & vset
        if d:
            union([v] + list(d))
    res = T({tuple(sorted(free, key=_akey)): Fraction(1)})
    done = set()
    for v in vs:
        if v in done:
            continue
        cs = comp[v]
        done |= cs
        cvs = [w for w in vs if w in cs]
        factors = [(a, e) for a, e in bound if a.vars & cs]
        if not factors and len(cvs) == 1:
            res = mul(res, v.args[1])
            continue
        # ragged range without factors: sum of 1 over j<len(i)
        indep = [w for w in cvs if not any(w in a.vars for a, e in factors)
                 and not any(w in u.args[1].vars() for u in cvs if u is not w)]
        if indep:
            w = indep[0]
            inner = mul(T({tuple(sorted(factors, key=_akey)): Fraction(1)}), w.args[1])
            res = mul(res, mk_sum([u for u in cvs if u is not w], inner))
            continue
        res = mul(res, _sum_atom(cvs, factors))
    return res


def _sum_atom(cvs, factors):
    h = 1 + max([a.height for a, e in factors] + [v.args[1].height() for v in cvs])
    n = len(cvs)
    if n == 1:
        orders = [tuple(cvs)]
    else:
        sig = {}
        for v in cvs:
            sg = [("r", _tkey(v.args[1]) if not (v.args[1].vars() & set(cvs)) else -1)]
            for a, e in factors:
                if v in a.vars:
                    sg.append((a.kind, a.args[0].id if a.kind == "app" else -1, e, len(a.vars & set(cvs)),
                               tuple(i for i, x in enumerate(a.args[1]) if v in x.vars())
                               if a.kind == "app" and not a.args[0].sym else ()))
            sig[v] = tuple(sorted(sg))
        # one round of refinement
        sig2 = {}
        for v in cvs:
            nb = sorted((sig[w], a.kind, e) for a, e in factors if v in a.vars for w in (a.vars & set(cvs)) if w is not v)
            sig2[v] = (sig[v], tuple(nb))
        groups = {}
        for v in cvs:
            groups.setdefault(sig2[v], []).append(v)
        keys = sorted(groups)
        prods = [list(itertools.permutations(groups[k])) for k in keys]
        total = 1
        for pset in prods:
            total *= len(pset)
        if total > 5040:
            raise Unsupported("sum with too many symmetric indices")
        orders = [tuple(itertools.chain.from_iterable(c)) for c in itertools.product(*prods)]
    best = None
    for order in orders:
        mp = {v: T.of(bv(h, i)) for i, v in enumerate(order)}
        ok = True
        body = ONE
        for a, e in factors:
            s = subst_atom(a, mp)
            body = mul(body, power(s, e) if e > 0 else power(mk_inv(s), -e))
        ranges = tuple(subst(v.args[1], mp) for v in order)
        if len(body.m) != 1:
            # should not happen; keep it sound by treating it as an opaque body
            key = (1, tuple(_tkey(r) for r in ranges), _tkey(body))
        else:
            (mn, c), = body.m.items()
            key = (0, tuple(_tkey(r) for r in ranges), tuple((a.id, e) for a, e in mn))
        if best is None or key < best[0]:
            best = (key, ranges, body)
    _, ranges, body = best
    if len(body.m) == 1:
        (mn, c), = body.m.items()
        if c != 1:
            return scale(T.of(_mk("sum", (ranges, T({mn: Fraction(1)})), all(x.integer and e > 0 for x, e in mn))), c)
    return T.of(_mk("sum", (ranges, body), body.is_int()))


# ------------------------------------------------------------------ clearing denominators
def clear_inv(t, limit=40):
    """t == 0 iff result == 0 (given the inverses are defined): multiply out 'inv' atoms."""
    for _ in range(limit):
        invs = {a for mono in t.m for a, e in mono if a.kind == "inv"}
        negs = {}
        for mono in t.m:
            for a, e in mono:
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if negs:
            f = tuple(sorted(((a, -e) for a, e in negs.items()), key=_akey))
            t = mul(t, T({f: Fraction(1)}))
            continue
        if not invs:
            return t
        # innermost last: take an inverse that no other inverse's argument mentions at top level
        a = max(invs, key=lambda x: x.id)
        deg = 0
        for mono in t.m:
            deg = max(deg, dict(mono).get(a, 0))
        p = a.args[0]
        out = ZERO
        for mono, c in t.m.items():
            d = dict(mono)
            e = d.pop(a, 0)
            out = add(out, mul(T({tuple(sorted(d.items(), key=_akey)): c}), power(p, deg - e)))
        t = out
    raise Unsupported("could not clear denominators")
