#!/usr/bin/env python3
"""Differential test of the verifier itself (development tool, run with python3-vt; not a registered check).

1. Every numpy contract the proofs rely on: the contract is applied to symbolic arrays of symbolic size, its result is
   evaluated for random sizes and entries, and compared with what the installed numpy returns for the same arguments.
2. The execution engine: one observation is fed to every estimator from an arbitrary state, on every path; the terms it
   ends with are evaluated for random interpretations that satisfy the path condition, and compared with what the real
   class computes from the same numbers.
A mismatch means a proof could rest on something that is not so.  usage: conform.py [numpy|engine] [filter...]
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VC_REPO", "/repo"))
os.environ.setdefault("OMP_NUM_THREADS", "1")
import builtins
import importlib
import warnings

import numpy as np

from vc import evalt
from vc import terms as tm
from vc.arrays import NAN, Arr, JList, Sym, SymBool, as_arr, num
from vc.contracts.est import ALL, CFG, GEN
from vc.terms import B, T
from vc.vcapi import Prover

TRIES = int(os.environ.get("TRIES", "150"))
warnings.simplefilter("ignore")


def conc(it, v):
    if isinstance(v, JList):
        v = v.arr
    if isinstance(v, Sym):
        x = it.ev(v.t, {})
        return int(round(x)) if v.t.is_int() else x
    if isinstance(v, SymBool):
        return bool(it.b(v.b))
    if isinstance(v, Arr):
        dims = [it.i(d) for d in v._shape]
        if any(d > 40 for d in dims):
            raise evalt.Skip("large")
        out, vals = np.zeros(dims), []
        for ix in np.ndindex(*dims):
            e = v.at(*[T.const(i) for i in ix])
            if e is NAN:
                vals.append(float("nan"))
            elif isinstance(e, B):
                vals.append(bool(it.b(e)))
            else:
                vals.append(it.ev(num(e), {}))
        return np.array(vals, dtype=bool if vals and isinstance(vals[0], bool) else float).reshape(dims)
    if isinstance(v, dict):
        return {k: conc(it, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(conc(it, x) for x in v)
    return v


def differ(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differ(x, y, tol) for x, y in zip(a, b))
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return True
    s = max([1e-3] + [float(np.nanmax(np.abs(q))) for q in (a, b) if q.size and np.isfinite(q).any()])
    return not np.allclose(a, b, atol=tol * s, rtol=tol, equal_nan=True)


def compare(h, name, ours, real, tol=1e-6):
    """ours: symbolic values; real(it): the same, computed with the real numpy for the interpretation it."""
    shown = []
    evalt.FLAT = False

    if any("singular" in str(c) and not str(c).startswith("!") for c in h.R.trace):
        h.obls.append((name, "proved", "0 comparisons", "an exactly singular matrix: not a floating-point event"))
        return

    def mismatch(it):
        want = real(it)
        got = conc(it, ours)
        if differ(got, want, tol):
            shown.append((got, want))
            return True
        return False

    it, met = evalt.find(list(h.R.ctx.facts), mismatch, h.R.hints, defs=h.R.ctx.defs, tries=TRIES, budget=8.0)
    if it is not None:
        h.obls.append((name, "refuted", "differs", f"ours {shown[-1][0]} real {shown[-1][1]} at {evalt.show(it)} path {h.R.trace[:6]}"))
    else:
        h.obls.append((name, "proved" if met else "unknown", f"{met} comparisons", "" if met else f"no interpretation of the path {h.R.trace[:8]}"))


# ---------------------------------------------------------------- numpy
SNIPPETS = {}
BUILTINS = {k: getattr(builtins, k) for k in ("len", "float", "int", "bool", "slice", "range", "abs", "max", "min", "zip", "list", "tuple", "sum", "__import__")}


def put(a, k, v):
    """a with a[k] = v"""
    a[k] = v
    return a


BUILTINS["put"] = put


def snip(f):
    SNIPPETS[f.__name__] = f
    return f


def case(src):
    """'name: expression of np, A (n x m), S (n x n symmetric), P (n x n positive definite), v (n), w (n), x (m), k (int), a, b (reals)'"""
    name = src.split("#")[0].strip()
    code = compile(name, "<case>", "eval")
    SNIPPETS[name] = lambda **env: eval(code, {"__builtins__": BUILTINS, **env})


for line in """
A + v[:, None]
A - x
A * x
v * w
A / (np.abs(x) + 1)
v ** 2
A @ x
v @ A
v @ w
A.T @ A
S @ P @ v
A.T
np.outer(v, x)
np.outer(A, v).shape[0]
np.dot(v, w)
np.dot(A, x)
np.trace(S)
np.diag(S)
np.diag(v)
np.diagonal(S)
np.eye(n)
np.eye(n, n)
np.identity(n)
np.zeros((n, m))
np.ones(n)
np.full((n, m), a)
np.zeros_like(A)
np.ones_like(A)
np.full_like(A, b)
np.sum(A)
np.sum(A, axis=0)
np.sum(A, axis=1)
A.sum(axis=0)
A.sum(1, keepdims=True)
np.mean(A)
np.mean(A, axis=0)
A.mean(axis=1)
np.mean(v)
np.var(v)
np.var(A, axis=0)
np.var(A, axis=0, ddof=0)
np.std(v)
np.std(A, axis=1)
np.abs(A)
np.sqrt(np.abs(A))
np.square(A)
np.log(np.abs(v) + 1)
np.exp(v * 0.1)
np.sign(A)
np.ceil(v)
np.floor(v)
np.maximum(A, 0.3)
np.maximum(v, w)
np.minimum(A, x)
np.clip(A, -0.5, 0.5)
np.clip(v, None, 0.2)
np.clip(v, 0.1, None)
np.where(A > 0, A, -1.0)
np.where(v > w, v, w)
np.where(v >= 0, 1.0, 0.0)
np.fmax(v, w)
np.fmin(v, w)
np.triu(S)
np.triu(S, 1)
np.tril(A)
np.tril(S, -1)
S[np.triu_indices(n, 1)].sum()
S[np.triu_indices(n)].sum()
S[np.tril_indices(n, -1)].sum()
S[~np.eye(n, dtype=bool)].sum()
S[~np.eye(n, dtype=bool)].size
S[np.diag_indices(n)]
np.einsum("ij,jk,ik->i", A, x[:, None] * x[None, :], A)
np.einsum("ij,ij->", A, A)
np.einsum("i,ij,j->", v, S, w)
np.einsum("ij,j->i", A, x)
np.einsum("ij->ji", A)
np.einsum("ii->i", S)
np.einsum("i,j->ij", v, x)
np.linalg.norm(v)
np.linalg.norm(A)
np.linalg.norm(A, "fro")
np.linalg.norm(A, axis=1)
np.linalg.norm(A, axis=0)
np.linalg.inv(P)
np.linalg.inv(P) @ v
np.linalg.pinv(P)
np.linalg.solve(P, v)
np.linalg.solve(P, A)
np.linalg.slogdet(P)[1]
np.linalg.slogdet(P)[0]
np.linalg.det(P)
np.linalg.eigvalsh(S)
np.linalg.eigh(S)[0]
(lambda w, U: (U * np.clip(w, 0.1, None)) @ U.T)(*np.linalg.eigh(S))
(lambda w, U: U @ np.diag(w) @ U.T)(*np.linalg.eigh(S))
(lambda u, s, Vt: Vt.T @ np.diag(s) @ Vt)(*np.linalg.svd(S))
np.linalg.cholesky(P) @ np.linalg.cholesky(P).T
np.linalg.multi_dot([S, P, v])
np.linalg.matrix_power(S, 2)
np.atleast_2d(v)
np.atleast_1d(v)
np.atleast_2d(A)
v[:, None]
v[np.newaxis, :]
v[None]
A[:, 0]
A[0]
A[-1]
A[0, -1]
v[::-1]
A[:, ::-1]
v[:1]
A[:1]
A[0:1, :]
np.concatenate([v, w])
np.concatenate([A, A], axis=0)
np.vstack([A, A])
np.hstack([v, w])
np.column_stack([v, w])
np.stack([v, w])
np.stack([A, A])
np.stack([A, A, A]).sum(axis=0)
np.block([[S, A], [A.T, np.eye(m)]])
np.array([a, b])
np.array([[a, b], [b, a]])
np.asarray(A)
np.array(A)
np.copy(A)
A.copy()
A.ravel()
A.reshape(-1)
v.reshape(-1, 1)
v.reshape(1, -1)
np.expand_dims(v, 0)
np.broadcast_to(v, (3, n)) if False else np.broadcast_to(v[None], (2, n))
np.reciprocal(np.abs(v) + 1)
np.cov(A, rowvar=False, bias=True)
np.cov(A.T, bias=True)
np.cumsum(v)
np.diff(v)
np.diff(A, axis=0)
np.arange(n)
np.arange(n) * 1.0
np.arange(2, 5) * a
(np.arange(n)[:, None] <= np.arange(n)[None, :]) * 1.0
np.any(v > 0)
np.all(v > -10)
np.isfinite(v).all()
np.isnan(v).any()
np.count_nonzero(v > 0)
np.max(v)
np.min(v)
v.max()
A.min()
np.max(A, axis=0)
np.ptp(v)
np.argmax(v)
np.prod(v)
np.float64(a)
np.power(np.abs(v) + 0.1, b)
(np.abs(v) + 0.1) ** b
np.hypot(v, w)
np.tensordot(A, x, axes=1)
np.inner(v, w)
np.vdot(v, w)
np.kron(v, x)
np.add.outer(v, x)
np.subtract(A, x)
np.multiply(v, w)
np.divide(v, np.abs(w) + 1)
np.add(A, A)
np.negative(v)
-A
abs(A)
v > w
(v > 0) & (w > 0)
(v > 0) | (w > 0)
~(v > 0)
v == w
np.logical_and(v > 0, w > 0)
np.logical_not(v > 0)
A[v > 0].sum()
v[v > 0].sum()
v[v > 0].size
len(v)
A.shape[1] + A.size + A.ndim
np.size(A)
np.nanmean(np.where(A > 0, A, np.nan)) if np.any(A > 0) else 0.0
np.ix_(range(2), range(2))[0].sum()
np.array_split(np.arange(n), 2)[0].sum()
S.trace()
A.flatten()
A.T.copy()
A.dot(x)
v.dot(w)
np.squeeze(v[None])
np.moveaxis(A, 0, 1)
np.swapaxes(A, 0, 1)
np.transpose(A)
np.fliplr(A)
np.roll(v, 1)
np.average(v, weights=np.abs(w) + 1)
np.average(A, axis=0)
np.linalg.eigvals(S).real.sum()
np.linalg.cond(P) >= 1
np.sum(np.diag(S)) / n
np.sum(v[:, None] * x[None, :] * A)
np.sum((A - x) ** 2, axis=(0, 1))
np.nan_to_num(v)
np.log1p(np.abs(v))
np.expm1(v * 0.1)
np.mean((A @ x) ** 2)
np.select([v > 0.5, v > 0], [v, w], 0.0)
v.astype(float)
v.tolist()[0]
float(v[0])
v.item(0)
A.diagonal()
np.fill_diagonal(A, a)
np.hstack([A, A])
np.inner(A, A)
np.vdot(A, A)
np.max(A, axis=1)
A.max(axis=0)
(A > 0).any(axis=1)
np.trace(S, offset=1)
np.transpose(A, (1, 0))
put(np.full(n, 0), 0, a)
put(np.full(n, 0.0), 0, a)
put(np.full((n, m), 0), slice(None), A)
put(np.zeros(n, dtype=int), 0, a)
put(np.array([1, 2, 3]), 1, a)
put(np.array([1, 2.0, 3]), 1, a)
put(np.array([n, m]), 0, a)
put(np.zeros_like(np.arange(n)), 0, a)
put(np.full_like(np.array([1, 2]), 0.7), 0, b)
put(np.array([[1, 2], [3, 4]]), (0, 1), a)
put(np.array([[1, 2], [3, 4.5]]), (0, 1), a)
put(np.where(v > 0, 1, 0), 0, a)
put(np.arange(n) + 1, 0, a)
put(np.arange(n) * 0.5, 0, a)
put(np.concatenate([np.arange(n), v]), 0, a)
put(np.asarray(np.arange(n), dtype=float), 0, a)
v.astype(int)
A.astype(np.int64)
np.asarray(v, dtype=int)
np.array(v, dtype="int")
np.array(v, dtype=np.float32)
v.astype("float32")
v.astype(bool)
(v > 0).astype(float)
(v > 0).astype(int)
v[[0, -1]]
A[[0, 0]]
A[:, [0, 0]]
v[np.array([0, 0])]
v[np.arange(n)]
S[np.ix_(np.arange(n), np.arange(n))]
S[np.arange(n), np.arange(n)]
put(S.copy(), np.diag_indices(n), 1.0)
put(S.copy(), (np.arange(n), np.arange(n)), v)
put(A.copy(), (0, slice(None)), x)
put(A.copy(), (slice(None), -1), v)
put(v.copy(), v > 0, 0.0)
put(v.copy(), slice(None, None, -1), w)
v[1:] if n > 1 else v
v[-1:]
v[:-1]
A[:, -1:]
A[-1:, :]
v[-2:]
A[::2]
v[0:n]
np.sum(v > 0)
np.sum(A > x)
np.mean(v > 0)
(v > 0).sum()
(v > 0).mean()
np.sum(A, axis=-1)
np.sum(A, axis=(1,))
A.mean(0, keepdims=True)
v.sum(keepdims=True)
np.std(v, ddof=1)
np.var(v, ddof=1)
np.var(A, axis=0, keepdims=True)
np.clip(v, a_min=0.0, a_max=None)
np.clip(v, a_max=0.0, a_min=None)
np.clip(v, w, None)
np.clip(v, 0.5, -0.5)
np.maximum(A, v[:, None])
np.maximum(0.0, v)
np.linalg.norm(v, 1)
np.linalg.norm(v, ord=2)
np.linalg.norm(S, 2)
np.linalg.norm(A, ord="nuc")
np.linalg.pinv(S, hermitian=True)
np.linalg.eigh(P, UPLO="U")[0]
np.linalg.inv(P).T
np.round(v, 2)
np.sort(v)
np.argsort(v)
np.unique(v)
np.searchsorted(v, a)
np.tile(v, 2)
np.repeat(v, 2)
np.outer(v, v) * S
v @ S @ v
v.T @ v
x @ A.T
(A * x).T @ v
S / np.outer(np.sqrt(np.diag(P)), np.sqrt(np.diag(P)))
S / np.sqrt(np.diag(P))[:, None] / np.sqrt(np.diag(P))[None, :]
(S.T + S) / 2
A // 0.5
v % 1.0
divmod(n, 2)[0] if False else n // 2
n % 2
-v ** 2
2 ** v
v ** 0.5 if False else np.abs(v) ** 0.5
np.abs(v) ** -0.5
1 / (np.abs(v) + 1)
a if a > b else b
max(a, b)
min(a, b, 0.5)
abs(a)
sum([a, b])
int(a)
np.sign(a)
np.where(a > 0, v, w)
np.where(a > 0, 1.0, 0.0) * v
np.isclose(a, a)
np.allclose(v, v)
np.array_equal(v, v)
np.array_equal(v, w)
np.may_share_memory(v, v)
A.shape == (n, m)
v.shape[0] == n
list(v.shape)[0]
np.array([v, w]).T
np.array([[a, 0.0], [0.0, b]]) @ np.array([a, b])
np.zeros((0,)).sum()
np.zeros((n, 0)).sum(axis=1)
np.ones((n, 1)) @ x[None, :]
np.linalg.eigvalsh(P).min() > 0
np.linalg.matrix_rank(P)
np.isnan(np.where(v > 0, v, np.nan))
np.isnan(np.where(v > 0, v, np.nan)).sum()
np.nansum(np.where(v > 0, v, np.nan))
np.where(v > 0, v, np.nan)
np.where(v > 0, v, np.nan) * 0.0
np.nan_to_num(np.where(v > 0, v, np.nan))
np.transpose(np.stack([A, A]), (1, 2, 0))
np.stack([A, A]).transpose(2, 0, 1)
np.moveaxis(np.stack([A, A]), 0, -1)
np.moveaxis(np.stack([A, A, A]), 2, 0)
np.swapaxes(np.stack([A, A]), 0, 2)
v[-1]
v[-n]
v[:2]
A[:2, -2:]
v[:-2]
v[k:] if k <= n else v
v[:k]
v[[-1]]
A[[0, -1]]
A[:, [-1, 0]]
S[[0, -1], [0, 0]]
v[np.arange(n) - 1]
np.roll(v, -1)
np.diff(v)
np.diff(A, axis=0)
np.diff(A)
np.var(A, axis=1, ddof=1) if m > 1 else v
np.std(A, axis=0, keepdims=True)
np.average(A, axis=0, weights=np.abs(v) + 1)
np.average(A, axis=1, weights=np.abs(x) + 1)
np.linalg.norm(A, axis=1, keepdims=True)
np.linalg.norm(v, axis=0)
np.linalg.norm(v, np.inf)
np.linalg.matrix_power(P, -1)
np.linalg.matrix_power(P, -2)
np.linalg.matrix_power(P, 0)
np.inner(A, x)
np.inner(A, S[:m, :m]) if m == n else A
np.concatenate([A, v[:, None]], axis=1)
np.hstack([A, v[:, None], A])
np.column_stack([v, A, w])
np.vstack([A, x])
np.append(v, w)
np.clip(A, x, None)
np.clip(v, -1, w)
v.clip(0.0)
v.clip(max=0.5)
A.clip(-1, 1).sum()
np.cumsum(v)[-1]
""".strip().splitlines():
    case(line)


def real_args(it, sy):
    return {k: conc(it, x) for k, x in sy.items()}


def np_check(name, f):
    def body(h):
        n, m = h.dim("n"), h.dim("m")
        sy = dict(n=n, m=m, A=h.mat("A", n, m), S=h.mat("S", n, sym=True), P=h.mat("P", n, pd=True), v=h.vec("v", n), w=h.vec("w", n),
                  x=h.vec("x", m), a=h.real("a"), b=h.real("b"), k=h.dim("k"))
        keep = {k: (x.copy() if isinstance(x, Arr) else x) for k, x in sy.items()}
        if name.startswith("np.fill_diagonal"):
            f(np=h.W.np, **sy)
            ours = sy["A"]
        else:
            ours = f(np=h.W.np, **sy)

        def real(it):
            r = real_args(it, keep)
            try:
                with np.errstate(all="ignore"):
                    out = f(np=np, **r)
            except (ValueError, IndexError, np.linalg.LinAlgError) as e:
                raise evalt.Skip(str(e))
            return r["A"] if name.startswith("np.fill_diagonal") else out
        compare(h, "same", ours, real)
    return body


# ---------------------------------------------------------------- engine
PARTS = ["location_", "covariance_", "correlation_"]


def build(it, e, params, state, prev):
    cls = type(e)
    C = getattr(importlib.import_module(cls.__module__), cls.__name__)
    r = C(**conc(it, params))
    s = conc(it, state)
    r._state = s
    r._prev_x = conc(it, prev)
    r.n_features_in_ = None if s is None else int(s["n_dim"])
    return r


def engine(cfg, part, start):
    from vc.contracts.lib import twin

    def body(h, e, p):
        keep = twin(e)
        params = dict(e.get_params())
        x = h.rows("x", 1, p)
        e.partial_fit(x)
        ours = getattr(e, part)

        def real(it):
            r = build(it, keep, params, keep._state, keep._prev_x)
            with np.errstate(all="ignore"):
                r.partial_fit(conc(it, x))
                return getattr(r, part)
        compare(h, f"{part} as the real class computes it", ours, real, 1e-5)

    if start == "new":
        return lambda h: body(h, *CFG[cfg](h))
    return lambda h: body(h, *GEN[cfg].state(h))


def main():
    what = [a for a in sys.argv[1:] if a in ("numpy", "engine")] or ["numpy", "engine"]
    flt = [a for a in sys.argv[1:] if a not in ("numpy", "engine")]
    P = Prover("conform", "thorough")
    if "numpy" in what:
        for name, f in SNIPPETS.items():
            if not flt or any(s in name for s in flt):
                P.check("numpy: " + name, np_check(name, f), seconds=40)
    if "engine" in what:
        for cfg in ALL:
            if flt and not any(s in cfg for s in flt):
                continue
            for part in PARTS:
                for start in ("new", "state"):
                    P.check(f"engine: {cfg}, {start}: {part}", engine(cfg, part, start), seconds=120, max_paths=200,
                            gens=[GEN[cfg]] if start == "state" else [], merge=cfg == "schur-conditional")
    rep = P.run()
    tot = {}
    for o in rep.obligations:
        d = vars(o)
        st = d.get("status")
        tot[st] = tot.get(st, 0) + 1
        if st != "proved":
            print({k: (str(v)[:900]) for k, v in d.items() if k not in ("seconds",)})
    comps = sum(int(vars(o).get("backend", vars(o).get("how", "0")).split()[0]) for o in rep.obligations if str(vars(o).get("backend", vars(o).get("how", ""))).endswith("comparisons"))
    print(tot, "comparisons", comps)


if __name__ == "__main__":
    main()
