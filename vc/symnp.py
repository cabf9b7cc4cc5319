"""The numpy the real code sees while it is verified: assumed contracts on symbolic arrays.

Everything here is part of the trusted base.  Elementwise operations, views, copies and reductions are
modelled exactly (over the reals); LAPACK routines by their mathematical contract:

* inv/solve: the inverse of the argument, or LinAlgError; a positive definite argument always succeeds
* pinv: an uninterpreted matrix function, always succeeds (for finite input)
* eigh/eigvalsh: real eigenvalues, orthonormal eigenvectors, exact spectral reconstruction (symmetric input)
* svd of a symmetric matrix b: V' diag(s) V = |b|, which is b itself when b is semi-definite
* cholesky: raises LinAlgError exactly when the argument is not positive definite
* slogdet/det/eigvals: uninterpreted functions of the content; slogdet of an inverse is the negative
* array_split(arange(p), k): consecutive ranges start(j)..start(j+1) partitioning 0..p-1
"""
from __future__ import annotations

import types

import numpy as _np

from . import arrays as ar
from . import terms as tm
from .arrays import (NAN, Arr, DiagIdx, Filt, IxSel, TriBack, TriHalf, JList, Sym, SymBool, SymList, _const, as_arr, bb, bcast, bshape,
                     cast, check_elem, dim, matmul, np_all, np_any, np_clip, np_diag, np_diagonal, np_ext, np_map,
                     np_mean, np_outer, np_sum, np_trace, num, scal, tt, vite)
from .terms import (B, FALSE, Fn, ONE, T, TRUE, Unsupported, ZERO, as_t, b_and, b_eq, b_ge, b_gt, b_not, mk_app,
                    mk_ind, mk_sum, mul, new_ix, sub)

LinAlgError = _np.linalg.LinAlgError


def rt():
    return ar.rt()


# ------------------------------------------------------------------ keys of contents
_deps = {}


def deps_of_term(t, acc=None):
    """Variables and function symbols a term depends on, through keyed symbols."""
    acc = set() if acc is None else acc
    _dep_t(t, acc, set())
    return acc


def _dep_t(t, acc, seen):
    for mono in t.m:
        for a, _ in mono:
            _dep_a(a, acc, seen)


def _dep_a(a, acc, seen):
    if a in seen:
        return
    seen.add(a)
    if a.kind in ("var", "ix"):
        acc.add(a)
    if a.kind == "app":
        f = a.args[0]
        acc.add(f)
        d = f.props.get("deps")
        if d:
            acc |= d
        for x in a.args[1]:
            _dep_t(x, acc, seen)
        return
    for x in a.args:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, T):
                _dep_t(y, acc, seen)
            elif isinstance(y, B):
                _dep_b(y, acc, seen)


def _dep_b(b, acc, seen):
    for x in b.args:
        if isinstance(x, T):
            _dep_t(x, acc, seen)
        elif isinstance(x, B):
            _dep_b(x, acc, seen)
        elif isinstance(x, frozenset):
            acc |= x


def content_key(a):
    """(key, params): the content of an array with loop indices abstracted into parameters."""
    shape, v = a.key()
    if v == "nan":
        raise Unsupported("nan in a linear algebra routine")
    if isinstance(v, B):
        v = mk_ind(v)
    ks = {tm._mk("ix", (("key", k, len(shape)), d), True) for k, d in enumerate(shape)}
    fv = set()
    for t in list(shape) + [v]:
        fv |= {x for x in t.vars() if x.kind == "ix" and x not in ks}
    fv = {x for x in fv if not (isinstance(x.args[0], tuple) and x.args[0][0] == "key")}
    fv = sorted(fv, key=lambda x: x.id)
    mp = {x: T.of(tm._mk("var", (f"$par{m}",), True)) for m, x in enumerate(fv)}
    # the placeholders carry the dimension: rebuild them with the substituted ranges
    shp2 = tuple(tm.subst(d, mp) for d in shape)
    v2 = tm.subst(v, mp) if mp else v
    deps = deps_of_term(v2)
    for d in shp2:
        deps_of_term(d, deps)
    deps = frozenset(x for x in deps if not (isinstance(x, tm.Atom) and x.kind == "ix"))
    return (shp2, v2), tuple(T.of(x) for x in fv), deps


def keyed_fn(name, a, arity, **props):
    key, par, deps = content_key(a)
    # what is learned about a derived symbol (sign, definiteness) holds on one path only
    f = Fn.get(name, (key, rt().uid), arity + len(par), deps=deps, src=key, npar=len(par), **props)
    return f, par


def is_sym(a):
    i, j = T.of(new_ix(a._shape[0])), T.of(new_ix(a._shape[0]))
    x, y = num(a.at(i, j)), num(a.at(j, i))
    if x == y:
        return True
    d = tm.clear_inv(sub(x, y))
    return not d.m or rt().ctx.zero(d)[0] == "proved"


def pd_atom(a):
    key, par, deps = content_key(a)
    return B.mk("atom", ("pd", key), deps, *par)


def singular_atom(a):
    key, par, deps = content_key(a)
    return B.mk("atom", ("singular", key), deps, *par)


def quad_form(a, x=None):
    n = a._shape[0]
    i, j = new_ix(n), new_ix(n)
    if x is None:
        f = Fn.get("qx", ("qx",), 1)
        x = lambda t: mk_app(f, [t])
    return mk_sum([i, j], mul(mul(x(T.of(i)), num(a.at(T.of(i), T.of(j)))), x(T.of(j))))


def known_psd(a):
    R = rt()
    if not is_sym(a):
        return False
    return R.prove_ge(quad_form(a))


def known_pd(a):
    """Positive definiteness established by assumption or by the shape of the content."""
    R = rt()
    i, j = T.of(new_ix(a._shape[0])), T.of(new_ix(a._shape[0]))
    v = num(a.at(i, j))
    if len(v.m) == 1:
        (mono, c), = v.m.items()
        if c > 0 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "app":
            f, args = mono[0][0].args
            if f.props.get("pd") and set(args[-2:]) == {i, j}:
                return True
        # a positive multiple of the identity
        if c > 0 and v == T({mono: c}):
            ind = mk_ind(b_eq(sub(i, j)))
            if len(ind.m) == 1:
                (im, _), = ind.m.items()
                rest = tuple(x for x in mono if x not in im)
                if set(im) <= set(mono) and not (T({rest: c}).vars() & (i.vars() | j.vars())):
                    if R.ctx.entails(b_gt(T({rest: c}))):
                        return True
    if pd_atom(a) in R.ctx.facts:
        return True
    if a._shape[0] == ONE:
        return R.ctx.entails(b_gt(num(a.at(ZERO, ZERO))))
    fl = R.pd_floor(a)
    return fl


# ------------------------------------------------------------------ contraction rules
def _apps(mono, pred):
    return [a for a, e in mono if e == 1 and a.kind == "app" and pred(a.args[0])]


def _rule_spectral(vs, mono):
    """orthonormality and spectral reconstruction"""
    vset = set(vs)
    E = _apps(mono, lambda f: f.props.get("orth"))
    for x in range(len(E)):
        for y in range(x + 1, len(E)):
            a, b = E[x], E[y]
            f = a.args[0]
            if f is not b.args[0]:
                continue
            A, Bb = a.args[1], b.args[1]
            np_ = len(A) - 2
            if A[:np_] != Bb[:np_]:
                continue
            for pos in (0, 1):
                s, t = A[np_ + pos], Bb[np_ + pos]
                if s != t or len(s.m) != 1:
                    continue
                v = next(iter(s.atoms()), None)
                if v not in vset or s != T.of(v) or v.args[1] != f.props["dim"](A[:np_]):
                    continue
                rest = [z for z in mono if z[0] is not a and z[0] is not b]
                p, q = A[np_ + 1 - pos], Bb[np_ + 1 - pos]
                if not any(v in z[0].vars for z in rest) and not any(v in w.args[1].vars() for w in vs):
                    r = mul(T({tuple(rest): tm.Fraction(1)}), mk_ind(b_eq(sub(p, q))))
                    return mk_sum([w for w in vs if w is not v], r)
                if pos == 1:  # sum over the eigen-index: lambda_k U_ik U_jk
                    lam = f.props.get("lam")
                    dep = [z for z in rest if v in z[0].vars]
                    if lam is not None and len(dep) == 1 and dep[0][1] == 1 and dep[0][0].kind == "app" \
                            and dep[0][0].args[0] is lam and dep[0][0].args[1] == A[:np_] + (s,):
                        if any(v in w.args[1].vars() for w in vs):
                            continue
                        rest2 = [z for z in rest if z is not dep[0]]
                        r = mul(T({tuple(rest2): tm.Fraction(1)}), f.props["recon"](A[:np_], p, q))
                        return mk_sum([w for w in vs if w is not v], r)
    return None


def _rule_inverse(vs, mono):
    """sum_j inv(A)(i,j) A(j,k) = [i==k] when A is a plain symbol."""
    vset = set(vs)
    I = _apps(mono, lambda f: f.name == "inv")
    for a in I:
        f = a.args[0]
        src = f.props.get("srcfn")
        if src is None:
            continue
        np_ = f.props["npar"]
        for b in _apps(mono, lambda g: g is src):
            if src.arity > 2:       # a family of matrices: the same member on both sides
                mp = {tm._mk("var", (f"$par{m}",), True): x for m, x in enumerate(a.args[1][:np_])}
                (m0, _), = f.props["src"][1].m.items()
                if tuple(tm.subst(x, mp) for x in m0[0][0].args[1][:-2]) != b.args[1][:-2]:
                    continue
            for pa in (0, 1):
                for pb in (0, 1):
                    s, t = a.args[1][np_ + pa], b.args[1][-2 + pb]
                    if s != t:
                        continue
                    v = next(iter(s.atoms()), None)
                    if v not in vset or s != T.of(v):
                        continue
                    # symmetric symbols may meet on either side
                    if pa == pb and not (src.sym):
                        continue
                    rest = [z for z in mono if z[0] is not a and z[0] is not b]
                    if any(v in z[0].vars for z in rest) or any(v in w.args[1].vars() for w in vs):
                        continue
                    p, q = a.args[1][np_ + 1 - pa], b.args[1][-2 + 1 - pb]
                    if any(v in z.vars() for z in (p, q) + a.args[1][:np_]):
                        continue
                    return mk_sum([w for w in vs if w is not v],
                                  mul(T({tuple(rest): tm.Fraction(1)}), mk_ind(b_eq(sub(p, q)))))
    return None


tm._contract_rules[:] = [_rule_spectral, _rule_inverse]


# ------------------------------------------------------------------ linalg
def _square(a):
    a = as_arr(a)
    if a.ndim != 2:
        raise LinAlgError("not a matrix")
    if not ar.dims_equal(a._shape[0], a._shape[1]):
        raise LinAlgError("Last 2 dimensions of the array must be square")
    return a


def _diag_shift(a):
    """c > 0 with a - c I known to be semi-definite, read off the content; None otherwise."""
    i, j = T.of(new_ix(a._shape[0])), T.of(new_ix(a._shape[0]))
    v = num(a.at(i, j))
    ind = mk_ind(b_eq(sub(i, j)))
    if len(ind.m) != 1 or len(v.m) < 2:
        return None
    (im, _), = ind.m.items()
    c = ZERO
    for mono, x in v.m.items():
        if set(im) <= set(mono):
            rest = T({tuple(q for q in mono if q not in im): x})
            if not rest.vars() & (i.vars() | j.vars()) and (x > 0 and rt().ctx.structural_nonneg(rest)):
                c = tm.add(c, rest)
    if not c.m or not rt().ctx.entails(b_gt(c)):
        return None
    return c if known_psd(a - Sym(c) * eye(Sym(a._shape[0]))) else None


def _source_fn(a):
    i, j = T.of(new_ix(a._shape[0])), T.of(new_ix(a._shape[0]))
    v = num(a.at(i, j))
    if len(v.m) == 1:
        (mono, c), = v.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "app":
            f, args = mono[0][0].args
            if args[-2:] == (i, j) or (f.sym and args[-2:] == (j, i)):
                if not any({i, j} & {T.of(x) for x in t.vars()} for t in args[:-2]):
                    return f
    return None


def _scaling(a):
    """(1/c, a/c) when every entry of a carries the same scalar factor c, known to be non-zero; None otherwise.
    (c A)^-1 = c^-1 A^-1, likewise for the pseudo-inverse, and c A is singular exactly when A is."""
    i, j = T.of(new_ix(a._shape[0])), T.of(new_ix(a._shape[1]))
    v = num(a.at(i, j))
    common = None
    for mono in v.m:
        d = {x: e for x, e in mono if x.kind == "var" and e > 0}
        common = d if common is None else {x: min(e, d[x]) for x, e in common.items() if x in d}
        if not common:
            return None
    if not common:
        return None
    c = ONE
    for x, e in common.items():
        for _ in range(e):
            c = mul(c, T.of(x))
    if not rt().ctx.entails(b_gt(mul(c, c))):
        return None
    ic = tm.mk_inv(c)
    st = a.copy()
    return ic, Arr.make(a._shape, lambda *ix: mul(ic, num(st.at(*ix))))


class linalg(types.SimpleNamespace):
    LinAlgError = LinAlgError

    @staticmethod
    def inv(a):
        a = _square(a)
        R = rt()
        sc = _scaling(a)
        if sc is not None:
            return Sym(sc[0]) * linalg.inv(sc[1])
        pd = known_pd(a)
        if not pd and R.decide(singular_atom(a)):
            raise LinAlgError("Singular matrix")
        n = _const(a._shape[0])
        if n == 1:
            t = num(a.at(ZERO, ZERO))
            r = tm.mk_inv(t)
            return Arr.make(a._shape, lambda i, j: r)
        # inverse of an inverse, and of a diagonal matrix
        s = _source_fn(a)
        if s is not None and s.name == "inv" and s.props["npar"] == 0:
            return content_arr(s.props["src"])
        d = diag_content(a)
        if d is not None:
            return Arr.make(a._shape, lambda i, j: mul(mk_ind(b_eq(sub(i, j))), tm.mk_inv(d(i))))
        sym = is_sym(a)
        f, par = keyed_fn("inv", a, 2, sym=sym)
        if "psd" not in f.props:
            f.props["srcfn"] = s
        if sym and (pd or known_psd(a)):
            f.props["psd"] = f.props["pd"] = True
        return Arr.make(a._shape, lambda i, j: mk_app(f, par + (i, j)))

    @staticmethod
    def pinv(a, *args, **kw):
        a = as_arr(a)
        sc = _scaling(a) if not args and not kw else None
        if sc is not None:
            return Sym(sc[0]) * linalg.pinv(sc[1])
        f, par = keyed_fn("pinv", a, 2, sym=is_sym(a))
        if f.sym and known_psd(a):
            f.props["psd"] = True
        return Arr.make((a._shape[1], a._shape[0]), lambda i, j: mk_app(f, par + (i, j)))

    @staticmethod
    def solve(a, b):
        return matmul(linalg.inv(a), as_arr(b))

    @staticmethod
    def _eig(a, tag=""):
        a = _square(a)
        if not is_sym(a):
            raise Unsupported("eigh of a matrix not known to be symmetric")
        n = a._shape[0]
        c = _diag_shift(a)
        if c is not None:       # A = B + c I, B semi-definite: the eigenvalues of B shifted, the same eigenvectors
            w, U = linalg._eig(a - Sym(c) * eye(Sym(n)), tag)
            return w + Sym(c), U
        lam, par = keyed_fn("eval" + tag, a, 1)
        # Rayleigh quotients: eigenvalues of a semi-definite matrix are non-negative
        if "psdsrc" not in lam.props:
            lam.props["psdsrc"] = False
        psd = known_psd(a)
        if psd:
            lam.props["nonneg"] = True
        key, kpar, _ = content_key(a)
        rng = rt().spectra.get((key, tuple(kpar)))
        if rng is not None:                       # a precondition of the contract: every eigenvalue within the range
            lam.props["nonneg"] = True
            lam.props["entry"] = lambda *args: [b_ge(sub(mk_app(lam, args), rng[0])), b_ge(sub(rng[1], mk_app(lam, args)))]
        if (key, tuple(kpar)) in rt().pos_spectra:   # shown by the contract: semi-definite and invertible
            lam.props["entry"] = lambda *args: [b_gt(mk_app(lam, args))]

        def recon(pa, i, j):
            return content_at(key, pa, i, j)

        def dimf(pa):
            return tm.subst(key[0][0], {tm._mk("var", (f"$par{m}",), True): x for m, x in enumerate(pa)})

        U, _ = keyed_fn("evec" + tag, a, 2, orth=True, lam=lam, recon=recon, dim=dimf)
        rt().floors.append((n, lam, par))
        return (Arr.make((n,), lambda k: mk_app(lam, par + (k,))),
                Arr.make((n, n), lambda i, k: mk_app(U, par + (i, k))))

    @staticmethod
    def eigh(a, UPLO="L"):
        w, U = linalg._eig(a)
        return EighResult(w, U)

    @staticmethod
    def eigvalsh(a, UPLO="L"):
        return linalg._eig(a)[0]

    @staticmethod
    def eigvals(a):
        a = _square(a)
        f, par = keyed_fn("eigvals", a, 1)
        return Arr.make((a._shape[0],), lambda k: mk_app(f, par + (k,)))

    @staticmethod
    def svd(b, full_matrices=True, compute_uv=True, hermitian=False):
        b = _square(b)
        if not is_sym(b):
            raise Unsupported("svd of a matrix not known to be symmetric")
        n = b._shape[0]
        if known_psd(b):
            w, U = linalg._eig(b, "s")
            return U, w, U.T
        absm, par = keyed_fn("absm", b, 2, sym=True, psd=True)
        s, _ = keyed_fn("sval", b, 1, nonneg=True)
        key, _, _ = content_key(b)
        V, _ = keyed_fn("svec", b, 2, orth=True, lam=s,
                        recon=lambda pa, i, j: mk_app(absm, pa + (i, j)),
                        dim=lambda pa: tm.subst(key[0][0], {tm._mk("var", (f"$par{m}",), True): x for m, x in enumerate(pa)}))
        rt().absm.append((absm, b))
        Va = Arr.make((n, n), lambda i, k: mk_app(V, par + (i, k)))
        return None, Arr.make((n,), lambda k: mk_app(s, par + (k,))), Va.T

    @staticmethod
    def cholesky(a):
        a = _square(a)
        R = rt()
        if not (known_pd(a) or R.decide(pd_atom(a))):
            raise LinAlgError("Matrix is not positive definite")
        R.note_pd(a)
        f, par = keyed_fn("chol", a, 2)
        return Arr.make(a._shape, lambda i, j: mk_app(f, par + (i, j)))

    @staticmethod
    def slogdet(a):
        a = _square(a)
        if _const(a._shape[0]) == 1:
            t = num(a.at(ZERO, ZERO))
            if rt().ctx.entails(b_gt(t)):
                return Sym(ONE), Sym(ar.slog(t))
        s = _source_fn(a)
        if s is not None and s.name == "inv" and s.props["npar"] == 0:
            sg, ld = linalg.slogdet(content_arr(s.props["src"]))
            return sg, -ld
        d = diag_content(a)
        if d is not None:
            k = T.of(new_ix(a._shape[0]))
            if rt().ctx.entails(b_gt(d(k))):
                return Sym(ONE), np_sum(Arr.make((a._shape[0],), lambda i: ar.slog(d(i))))
        f, par = keyed_fn("logdet", a, 0)
        sg, _ = keyed_fn("detsign", a, 0)
        ld = Sym(mk_app(f, par))
        if known_pd(a):
            return Sym(ONE), ld
        return Sym(mk_app(sg, par)), ld

    @staticmethod
    def det(a):
        f, par = keyed_fn("det", _square(a), 0)
        return Sym(mk_app(f, par))

    @staticmethod
    def norm(a, ord=None, axis=None, keepdims=False):
        if ord in (1, _np.inf) and axis is None and not keepdims and isinstance(a, Arr) and a.ndim <= 2:
            m = np_abs(a)
            if a.ndim == 2:
                m = np_sum_(m, axis=0 if ord == 1 else 1)
            return np_ext(m, True) if ord != 1 or a.ndim == 2 else np_sum(m)
        if axis is not None and ord in (None, 2) and not isinstance(axis, (tuple, list)):
            q = np_sum(np_map(as_arr(a), lambda t: mul(t, t)), axis, keepdims)
            return np_map(q, tm.mk_sqrt) if isinstance(q, Arr) else Sym(tm.mk_sqrt(q.t))
        if ord not in (None, 2, "fro") or axis is not None or keepdims:
            raise Unsupported("norm with ord/axis")
        if isinstance(a, (Sym, int, float)):
            return abs(a)
        a = as_arr(a)
        if ord == 2 and a.ndim == 2:
            raise Unsupported("spectral norm")
        return Sym(tm.mk_sqrt(np_sum(np_map(a, lambda t: mul(t, t))).t))

    @staticmethod
    def matrix_power(a, n):
        if int(n) < 0:
            return matmul(linalg.inv(a), linalg.matrix_power(linalg.inv(a), -int(n) - 1)) if int(n) < -1 else linalg.inv(a)
        r = eye(a.shape[0])
        for _ in range(int(n)):
            r = matmul(r, a)
        return r

    @staticmethod
    def cond(a):
        f, par = keyed_fn("cond", as_arr(a), 0)
        return Sym(mk_app(f, par))

    @staticmethod
    def multi_dot(xs):
        r = xs[0]
        for x in xs[1:]:
            r = matmul(r, x)
        return r


class EighResult(tuple):
    def __new__(cls, w, U):
        self = tuple.__new__(cls, (w, U))
        self.eigenvalues, self.eigenvectors = w, U
        return self


def content_at(key, par, *idx):
    shp, v = key
    mp = {tm._mk("ix", (("key", k, len(shp)), d), True): i for k, (d, i) in enumerate(zip(shp, idx))}
    mp.update({tm._mk("var", (f"$par{m}",), True): x for m, x in enumerate(par)})
    return tm.subst(v, mp)


def content_arr(key):
    return Arr.make(key[0], lambda *i: content_at(key, (), *i))


def diag_content(a):
    """If a(i,j) = [i==j]*d(i), the function d."""
    i, j = new_ix(a._shape[0]), new_ix(a._shape[0])
    v = num(a.at(T.of(i), T.of(j)))
    ind = mk_ind(b_eq(sub(T.of(i), T.of(j))))
    if not v.m or len(ind.m) != 1:
        return None
    (im, _), = ind.m.items()
    for mono in v.m:
        if im[0] not in mono:
            return None
    s = a.snap()
    return lambda t: num(s(t, t))


# ------------------------------------------------------------------ creation
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(tt(x) for x in s)
    if isinstance(s, Arr):
        return (tt(s),)
    return (tt(s),)


_dt = ar.dtype_of


def zeros(shape, dtype=None, order=None):
    d = _dt(dtype)
    z = FALSE if d == "b" else ZERO
    return Arr.make(_shape(shape), lambda *i: z, d)


def ones(shape, dtype=None):
    d = _dt(dtype)
    z = TRUE if d == "b" else ONE
    return Arr.make(_shape(shape), lambda *i: z, d)


def full(shape, v, dtype=None):
    if v is NAN:
        shp = _shape(shape)
        c = all(_const(d) is not None for d in shp)
        return Arr.make(shp, lambda *i: NAN if c else ar.NANT)
    if isinstance(v, (bool, SymBool)):
        b = bb(v)
        return Arr.make(_shape(shape), lambda *i: b, "b")
    if isinstance(v, Arr) and v.ndim:
        raise Unsupported("full with an array")
    t = tt(v)
    d = _dt(dtype) if dtype is not None else "i" if ar.intlike(v) else "f"
    if d == "i":
        t = ar.strunc(t)
    return Arr.make(_shape(shape), lambda *i: t, d)


_empty_n = [0]


def empty(shape, dtype=None):
    _empty_n[0] += 1
    shp = _shape(shape)
    f = Fn.get(f"uninit{_empty_n[0]}", "uninit", len(shp), integer=(_dt(dtype) == "i"))
    return Arr.make(shp, lambda *i: mk_app(f, i), _dt(dtype))


def like(a, dtype):
    return dtype if dtype is not None else {"b": bool, "i": int, "f": float}[as_arr(a).store.dtype]


def eye(n, M=None, dtype=None, k=0):
    if M is not None and tt(M) != tt(n) or k:
        raise Unsupported("eye with an offset")
    n = tt(n)
    if _dt(dtype) == "b":
        return Arr.make((n, n), lambda i, j: b_eq(sub(i, j)), "b")
    return Arr.make((n, n), lambda i, j: mk_ind(b_eq(sub(i, j))))


def asarray(x, dtype=None, order=None, copy=None):
    a = x if isinstance(x, Arr) else as_arr(x)
    if dtype is not None:
        return cast(a, {"b": bool, "i": int, "f": float}[_dt(dtype)])
    return a


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    a = asarray(x, dtype)
    a = a.copy() if a is x or isinstance(x, JList) else a
    while a.ndim < ndmin:
        a = a[None]
    return a


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi = ZERO, tt(a[0])
    elif len(a) == 2:
        lo, hi = tt(a[0]), tt(a[1])
    else:
        raise Unsupported("arange with a step")
    r = Arr.make((sub(hi, lo),), lambda i: tm.add(lo, i), "i")
    r.arange = lo
    return r


class Partition:
    """start(j) of numpy.array_split(arange(p), k)."""

    _tab = {}

    def __init__(self, p, k):
        self.p, self.k = p, k
        self.full = False
        key = ("split", p, k, rt().uid)
        self.start = Fn.get("start", key, 1, integer=True, partition=self, member=self._split,
                            entry=lambda j: [b_ge(mk_app(self.start, [j])), b_ge(sub(p, mk_app(self.start, [j])))])
        self.bid = Fn.get("bid", key, 1, integer=True, rewrite=self._member,
                          entry=lambda s: [b_ge(mk_app(self.bid, [s])), b_ge(sub(sub(k, ONE), mk_app(self.bid, [s])))])

    @staticmethod
    def get(p, k):
        key = (p, k, rt().uid)
        r = Partition._tab.get(key)
        if r is None:
            r = Partition._tab[key] = Partition(p, k)
        return r

    def _member(self, s):
        """bid(start(j) + u) = j for 0 <= u < start(j+1) - start(j)."""
        r = self._split(s)
        return None if r is None else r[0]

    def _split(self, s):
        """(j, u) when s is start(j) + u with 0 <= u < start(j+1) - start(j)."""
        for mono, c in s.m.items():
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                a = mono[0][0]
                j = a.args[1][0] if a.kind == "app" and a.args[0] is self.start else None
                u = sub(s, T.of(a)) if j is not None else s
                if len(u.m) == 1:
                    (m2, c2), = u.m.items()
                    if c2 == 1 and len(m2) == 1 and m2[0][1] == 1 and m2[0][0].kind == "ix":
                        n = m2[0][0].args[1]
                        if j is not None and n == sub(self.at(tm.add(j, ONE)), self.at(j)):
                            return j, u
        return None

    def at(self, j):
        if j == ZERO or not j.m:
            return ZERO
        if j == self.k:
            return self.p
        return mk_app(self.start, [j])


def array_split(a, k, axis=0):
    a = as_arr(a)
    n, kt = a._shape[0], tt(k)
    kv = kt.value()
    nv = n.value()
    R = rt()
    if kv is not None and kv < 1 or (kv is None and not R.entails(b_ge(sub(kt, ONE)))):
        if R.decide(b_ge(sub(ONE, kt))) and not R.decide(b_ge(sub(kt, ONE))):
            raise ValueError("number sections must be larger than 0.")
    if kv is not None and nv is not None:
        kv, nv = int(kv), int(nv)
        q, r = divmod(nv, kv)
        out, s = [], 0
        for j in range(kv):
            ln = q + (1 if j < r else 0)
            out.append(a[s:s + ln])
            s += ln
        return out
    if kv == 1:
        return [a]
    P = Partition.get(n, kt)
    R.partitions.append(P)

    def piece(j):
        lo, hi = P.at(j), P.at(tm.add(j, ONE))
        return a[Sym(lo):Sym(hi)]

    if R.entails(b_ge(sub(n, kt))):     # no more pieces than elements: none is empty
        P.full = True
    if kv is not None:
        return [piece(as_t(j)) for j in range(int(kv))]
    return SymList(kt, piece)


def concatenate(xs, axis=0):
    xs = [as_arr(x) for x in xs]
    if axis in (1, -1) and all(x.ndim == 2 for x in xs):
        return concatenate([x.T for x in xs]).T
    if axis != 0:
        raise Unsupported("concatenate along another axis")
    r = xs[0]
    for x in xs[1:]:
        r = _cat(r, x)
    return r


def _cat(a, b):
    if a.ndim != b.ndim or not a.ndim or not all(ar.dims_equal(p, q) for p, q in zip(a._shape[1:], b._shape[1:])):
        raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    f, g = a.snap(), b.snap()
    na = a._shape[0]
    n = tm.add(na, b._shape[0])

    def fn(i, *r):
        c = ar.idx_cond(b_ge(sub(sub(na, ONE), i)))
        return vite(c, lambda: f(i, *r), lambda: g(sub(i, na), *r))

    return Arr.make((n,) + a._shape[1:], fn, ar.promote((a.store.dtype, b.store.dtype)))


def stack(xs, axis=0):
    if axis:
        raise Unsupported("stack axis")
    return as_arr(list(xs) if not isinstance(xs, SymList) else xs)


def hstack(xs):
    xs = [as_arr(x) for x in xs]
    return concatenate(xs, axis=0 if all(x.ndim == 1 for x in xs) else 1)


def vstack(xs):
    if isinstance(xs, SymList):
        return as_arr(xs)
    xs = [as_arr(x) for x in xs]
    if all(x.ndim == 1 for x in xs):
        return as_arr(xs)
    return concatenate([x if x.ndim > 1 else x[None] for x in xs])


def vectors_only(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("inner product of anything but vectors")
    return matmul(a, b)


def extremum(mx):
    def f(a, axis=None):
        if axis is not None:
            raise Unsupported("max/min along an axis")
        return np_ext(a, mx)
    return f


def np_trace2(a, offset=0):
    if offset:
        raise Unsupported("trace with an offset")
    return np_trace(as_arr(a))


def np_diagonal2(a, offset=0):
    if offset:
        raise Unsupported("diagonal with an offset")
    return np_diagonal(as_arr(a))


def transpose(a, axes=None):
    return as_arr(a).T if axes is None else as_arr(a).transpose(*axes)


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported("where with one argument")
    if isinstance(c, (bool, SymBool)):
        b = bb(c)
        if isinstance(x, Arr) or isinstance(y, Arr):
            c = full((x if isinstance(x, Arr) else y).shape, c)
        else:
            return Sym(tm.ite(b, tt(x), tt(y)))
    c = as_arr(c)
    shp = c._shape
    for o in (x, y):
        if isinstance(o, (list, tuple)):
            raise Unsupported("where with lists")
        if isinstance(o, Arr):
            shp = bshape(shp, o._shape)
    fc = bcast(c, shp)

    def part(o):
        if isinstance(o, Arr):
            return bcast(o, shp)
        if o is NAN:
            return lambda *i: NAN
        t = o.b if isinstance(o, SymBool) else tt(o)
        return lambda *i: t

    fx, fy = part(x), part(y)
    return Arr.make(shp, lambda *i: vite(ar.idx_cond(bb(fc(*i))), lambda: fx(*i), lambda: fy(*i)),
                    "i" if ar.intlike(x) and ar.intlike(y) else "f")


def _ew2(f):
    def g(a, b, out=None):
        if isinstance(a, (list, tuple)):
            a = as_arr(a)
        if isinstance(b, (list, tuple)):
            b = as_arr(b)
        if isinstance(a, Filt):
            return a._ew(b, f)
        if isinstance(b, Filt):
            return b._ew(a, f, True)
        if isinstance(a, Arr) and a.ndim:
            return a._ew(b, ar._n2(f))
        if isinstance(b, Arr) and b.ndim:
            return b._ew(a, ar._n2(f), swap=True)
        return Sym(f(tt(a), tt(b)))

    return g


maximum = _ew2(tm.mk_max)
minimum = _ew2(tm.mk_min)
fmax, fmin = maximum, minimum


def sqrt(a):
    if isinstance(a, (Arr, Filt)) and not isinstance(a, Filt):
        check_elem(a, b_ge, "square root")
        return np_map(a, tm.mk_sqrt)
    if isinstance(a, Filt):
        return a.map(tm.mk_sqrt)
    return Sym(ar.ssqrt(tt(a)))


def log(a):
    if isinstance(a, Arr) and a.ndim:
        check_elem(a, b_gt, "logarithm")
        return np_map(a, lambda t: tm.mk_fun("log", t))
    return Sym(ar.slog(tt(a)))


def exp(a):
    if isinstance(a, Arr) and a.ndim:
        return np_map(a, lambda t: tm.mk_fun("exp", t))
    t = tt(a)
    return Sym(ONE if not t.m else tm.mk_fun("exp", t))


def np_abs(a):
    return abs(a) if not isinstance(a, (list, tuple)) else abs(as_arr(a))


def square(a):
    return np_map(a, lambda t: mul(t, t))


def isnan(a):
    if isinstance(a, Arr):
        s = a.snap()
        return Arr.make(a._shape, lambda *i: ar.nan_cond(s(*i)), "b")
    if isinstance(a, Filt):
        return ar.NanMask(a, True)
    return a is NAN


def isfinite(a):
    if isinstance(a, (Arr, Filt)):
        return ~isnan(a)
    return a is not NAN and not (isinstance(a, float) and a in (float("inf"), float("-inf")))


def isinf(a):
    if isinstance(a, Arr):
        return Arr.make(a._shape, lambda *i: FALSE, "b")
    return isinstance(a, float) and a in (float("inf"), float("-inf"))


def nanmean(a, axis=None):
    if isinstance(a, Filt) and axis is None:
        n, t = ar.NanMask(a, False).count(), a._sum(lambda *i: ar.known(a.val(*i))[1])
        if rt().decide(b_ge(sub(n, ONE))):
            return Sym(mul(t, tm.mk_inv(n)))
        return NAN
    a = as_arr(a)
    n = _const(a._shape[0])
    if axis is not None or a.ndim != 1 or n is None:
        raise Unsupported("nanmean")
    xs = [a.at(as_t(k)) for k in range(n)]
    xs = [num(x) for x in xs if x is not NAN]
    if not xs:
        return NAN
    r = ZERO
    for x in xs:
        r = tm.add(r, x)
    return Sym(tm.scale(r, tm.Fraction(1, len(xs))))


def fill_diagonal(a, v, wrap=False):
    a[DiagIdx(a._shape[0])] = v


def diag_indices(n, ndim=2):
    r = arange(n)
    return (r, r)


def triu_indices(n, k=0, m=None):
    if m is not None and tt(m) != tt(n):
        raise Unsupported("triangle indices of a rectangle")
    return (TriHalf(tt(n), tt(k), True), TriBack(tt(n), tt(k), True))


def tril_indices(n, k=0, m=None):
    if m is not None and tt(m) != tt(n):
        raise Unsupported("triangle indices of a rectangle")
    return (TriHalf(tt(n), tt(k), False), TriBack(tt(n), tt(k), False))


def triu(a, k=0):
    a = as_arr(a)
    s, k = a.snap(), tt(k)
    return Arr.make(a._shape, lambda i, j: mul(mk_ind(b_ge(sub(sub(j, i), k))), num(s(i, j))))


def tril(a, k=0):
    a = as_arr(a)
    s, k = a.snap(), tt(k)
    return Arr.make(a._shape, lambda i, j: mul(mk_ind(b_ge(tm.add(sub(i, j), k))), num(s(i, j))))


def ceil(a):
    return np_map(a, ar.sceil) if isinstance(a, Arr) and a.ndim else Sym(ar.sceil(tt(a)))


def floor(a):
    return np_map(a, ar.sfloor) if isinstance(a, Arr) and a.ndim else Sym(ar.sfloor(tt(a)))


def sign(a):
    f = lambda t: sub(mk_ind(tm.b_gt(t)), mk_ind(tm.b_gt(tm.neg(t))))
    return np_map(a, f) if isinstance(a, Arr) and a.ndim else Sym(f(tt(a)))


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    if out is not None or dtype is not None:
        raise Unsupported("var into an array")
    a = as_arr(a)
    m = np_mean(a, axis, True)
    d = a - m
    if not ddof:
        return np_mean(d * d, axis, keepdims)
    n = ONE
    for k in range(a.ndim) if axis is None else axis if isinstance(axis, (tuple, list)) else (axis,):
        n = mul(n, a._shape[k % a.ndim])
    return np_sum(d * d, axis, keepdims) / Sym(sub(n, tt(ddof)))


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return sqrt(var(a, axis, dtype, out, ddof, keepdims))


def average(a, axis=None, weights=None, keepdims=False):
    if weights is None:
        return np_mean(a, axis, keepdims)
    a, w = as_arr(a), as_arr(weights)
    if w.ndim != 1 or keepdims or a.ndim != 1 and axis is None:
        raise Unsupported("average")
    k = 0 if axis is None else axis % a.ndim
    ww = w[(slice(None),) + (None,) * (a.ndim - 1 - k)]
    return np_sum(a * ww, k) / np_sum(w)


def cumsum(a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    s, n = a.snap(), a._shape[0]

    def at(i):
        v = new_ix(n)
        return mk_sum([v], mul(mk_ind(b_ge(sub(i, T.of(v)))), num(s(T.of(v)))))

    return Arr.make((n,), at)


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    if n != 1:
        raise Unsupported("repeated differences")
    pre = (slice(None),) * (axis % a.ndim)
    return a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]


def roll(a, k, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("roll of a matrix")
    return concatenate([a[-k:], a[:-k]]) if k > 0 else concatenate([a[-k:], a[:-k]]) if k < 0 else a.copy()


def squeeze(a, axis=None):
    a = as_arr(a)
    drop = [k for k in range(a.ndim) if _const(a._shape[k]) == 1] if axis is None else [axis % a.ndim]
    if any(_const(a._shape[k]) != 1 for k in drop) or any(_const(d) is None for k, d in enumerate(a._shape) if k not in drop) and axis is None:
        raise Unsupported("squeeze of symbolic dimensions")
    return a[tuple(0 if k in drop else slice(None) for k in range(a.ndim))]


def column_stack(xs):
    xs = [as_arr(x) for x in xs]
    return concatenate([x[:, None] if x.ndim == 1 else x for x in xs], axis=1)


def size(a, axis=None):
    return (as_arr(a).size) if axis is None else as_arr(a).shape[axis]


def moveaxis(a, s, d):
    a = as_arr(a)
    ax = [k for k in range(a.ndim) if k != s % a.ndim]
    ax.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*ax)


def swapaxes(a, s, d):
    a = as_arr(a)
    ax = list(range(a.ndim))
    ax[s], ax[d] = ax[d], ax[s]
    return a.transpose(*ax)


def inner(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim not in (1, 2) or b.ndim not in (1, 2):
        raise Unsupported("inner")
    return matmul(a, b.T)


def block(rows):
    if not all(isinstance(r, (list, tuple)) for r in rows) or any(as_arr(x).ndim != 2 for r in rows for x in r):
        raise Unsupported("block")
    return concatenate([concatenate(r, axis=1) for r in rows])


def broadcast_to(a, shp):
    a = as_arr(a)
    return zeros(shp) + a


def expand_dims(a, axis):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("expand_dims")
    return a[None, :] if axis == 0 else a[:, None]


def ix_(r, c):
    r, c = as_arr(r), as_arr(c)
    return IxSel(r, c)


def dot(a, b):
    if isinstance(a, (Sym, int, float)) or isinstance(b, (Sym, int, float)):
        return a * b
    return matmul(a, b)


def einsum(spec, *ops, optimize=None):
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if "->" not in spec:
        from collections import Counter

        c = Counter("".join(ins))
        rhs = "".join(sorted(x for x in c if c[x] == 1))
    if "." in spec:
        raise Unsupported("einsum with an ellipsis")
    ops = [as_arr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum: dimension mismatch")
        for ch, d in zip(s, o._shape):
            if ch in dims:
                if not ar.dims_equal(dims[ch], d):
                    raise ValueError("einsum: operands could not be broadcast together")
            else:
                dims[ch] = d
    fs = [o.snap() for o in ops]

    def val(*i):
        env = dict(zip(rhs, i))
        bound = []
        for ch in dims:
            if ch not in env:
                v = new_ix(dims[ch])
                env[ch] = T.of(v)
                bound.append(v)
        r = ONE
        for s, f in zip(ins, fs):
            r = mul(r, num(f(*[env[c] for c in s])))
        return mk_sum(bound, r)

    if not rhs:
        return Sym(val())
    return Arr.make(tuple(dims[c] for c in rhs), val)


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    X = as_arr(m)
    if X.ndim != 2 or kw or y is not None:
        raise Unsupported("cov")
    if rowvar:
        X = X.T
    n, p = X._shape
    mu = np_mean(X, axis=0)
    c = X - mu
    d = n if bias and ddof is None else sub(n, as_t(1 if ddof is None else ddof))
    r = matmul(c.T, c) / Sym(d)
    if _const(p) == 1 or (_const(p) is None and rt().decide(b_eq(sub(p, ONE)))):
        return asarray(r[0, 0])
    return r


def atleast_2d(a):
    a = as_arr(a)
    if a.ndim == 0:
        v = a.at()
        return Arr.make((ONE, ONE), lambda i, j: v)
    return a[None, :] if a.ndim == 1 else a


def atleast_1d(a):
    a = as_arr(a)
    if a.ndim == 0:
        v = a.at()
        return Arr.make((ONE,), lambda i: v)
    return a


def real(a):
    return a


def spacing(x):
    # distance to the next float: positive
    t = mk_app(Fn.get("spacing", "spacing", 1, nonneg=True), [tt(x)])
    return Sym(t)


def allclose(*a, **k):
    raise Unsupported("allclose")


def np_sum_(a, axis=None, keepdims=False, dtype=None):
    if isinstance(a, SymList):
        a = as_arr(a)
    return np_sum(a, axis, keepdims)


def shape(a):
    return as_arr(a).shape


def ndim(a):
    return as_arr(a).ndim


def copy(a):
    return as_arr(a).copy()


def count_nonzero(a):
    a = as_arr(a)
    return np_sum(cast(a, bool)) if a.store.dtype != "b" else np_sum(a)


def np_float(x=0.0):
    return x


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Arr)


class ndarray(metaclass=_NdMeta):
    pass


class _GenMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Sym)


class generic(metaclass=_GenMeta):
    pass


class floating(metaclass=_GenMeta):
    pass


class integer(metaclass=_GenMeta):
    pass


class number(metaclass=_GenMeta):
    pass


class float32(metaclass=_GenMeta):
    __name__ = "float32"

    def __new__(cls, x=0.0):
        raise Unsupported("float32")


class float64(metaclass=_GenMeta):
    __name__ = "float64"

    def __new__(cls, x=0.0):
        return x


class _Errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeNumpy(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a, **k):
            raise Unsupported(f"numpy.{name} has no contract")

        return missing


def _linalg_module():
    m = FakeNumpy("numpy.linalg")
    for k in dir(linalg):
        if not k.startswith("_"):
            setattr(m, k, getattr(linalg, k))
    return m


def make():
    m = FakeNumpy("numpy")
    m.linalg = _linalg_module()
    d = dict(zeros=zeros, ones=ones, full=full, empty=empty, eye=eye, identity=eye, asarray=asarray, array=array,
             asanyarray=asarray, ascontiguousarray=asarray, arange=arange, array_split=array_split,
             concatenate=concatenate, hstack=hstack, stack=stack, vstack=vstack, row_stack=vstack, where=where, maximum=maximum,
             minimum=minimum, fmax=fmax, fmin=fmin, sqrt=sqrt, log=log, exp=exp, abs=np_abs, absolute=np_abs, fabs=np_abs,
             square=square, isnan=isnan, isfinite=isfinite, isinf=isinf, nanmean=nanmean,
             fill_diagonal=fill_diagonal, diag_indices=diag_indices, diag_indices_from=lambda a: diag_indices(a.shape[0]),
             ix_=ix_, dot=dot, inner=inner, vdot=vectors_only, matmul=matmul, einsum=einsum, cov=cov, atleast_2d=atleast_2d, atleast_1d=atleast_1d,
             triu_indices=triu_indices, tril_indices=tril_indices, triu=triu, tril=tril, ceil=ceil, floor=floor, sign=sign,
             var=var, std=std, broadcast_to=broadcast_to, expand_dims=expand_dims, ravel=lambda a: as_arr(a).ravel(),
             reshape=lambda a, s: as_arr(a).reshape(s), reciprocal=lambda a: 1 / a,
             real=real, spacing=spacing, allclose=allclose, sum=np_sum_, mean=np_mean, average=average, cumsum=cumsum, diff=diff, roll=roll, squeeze=squeeze, column_stack=column_stack, size=size,
             moveaxis=moveaxis, swapaxes=swapaxes, block=block, log1p=lambda a: log(1 + a), expm1=lambda a: exp(a) - 1,
             hypot=lambda a, b: sqrt(a * a + b * b), trace=np_trace2,
             diag=np_diag, diagonal=np_diagonal2, outer=np_outer, clip=np_clip, any=np_any, all=np_all,
             max=extremum(True), min=extremum(False),
             amax=extremum(True), amin=extremum(False), copy=copy, shape=shape, ndim=ndim,
             transpose=transpose, count_nonzero=count_nonzero,
             zeros_like=lambda a, dtype=None: zeros(as_arr(a).shape, like(a, dtype)), ones_like=lambda a, dtype=None: ones(as_arr(a).shape, like(a, dtype)),
             empty_like=lambda a, dtype=None: empty(as_arr(a).shape, like(a, dtype)),
             full_like=lambda a, v, dtype=None: full(as_arr(a).shape, v, like(a, dtype)),
             add=_ew2(tm.add), subtract=_ew2(tm.sub), multiply=_ew2(tm.mul), negative=lambda a: -a,
             divide=lambda a, b: a / b, true_divide=lambda a, b: a / b, power=lambda a, b: a ** b,
             logical_and=lambda a, b: a & b, logical_or=lambda a, b: a | b, logical_not=lambda a: ~a,
             greater=lambda a, b: a > b, less=lambda a, b: a < b, isscalar=lambda a: not isinstance(a, (Arr, list, tuple)),
             ndarray=ndarray, generic=generic, floating=floating, integer=integer, number=number, float64=float64, float32=float32,
             int64=_np.int64, bool_=_np.bool_, newaxis=None, nan=NAN, NaN=NAN, inf=float("inf"), pi=Sym(tm.var("PI")),
             e=2.718281828459045, errstate=_Errstate, seterr=lambda **k: None, finfo=_np.finfo, dtype=_np.dtype,
             isclose=lambda a, b, **k: a == b)
    del d["allclose"], d["isclose"]
    for k, v in d.items():
        setattr(m, k, v)
    return m
