"""Numeric interpretation of terms: turns a failed obligation into a concrete counterexample.

An obligation counts as refuted only if some interpretation of the symbols that satisfies every fact of
the path makes it false numerically; derived symbols (inverse, eigenvalues, array_split, ...) are computed
with the real numpy from the content they stand for.
"""
from __future__ import annotations

import math
import random

import numpy as np

from . import terms as tm
from .terms import B, T

TOL = 1e-7
FLAT = True       # try vectors and matrix rows that vanish, or nearly so


WITNESS = {}      # the position of a largest (smallest) entry: index symbol -> (entries, largest?)


class Skip(Exception):
    """This interpretation does not apply (fact violated, undefined operation)."""


class NoEval(Exception):
    """A symbol without numeric meaning."""


class Interp:
    def __init__(self, rng, hints, size=3, defs=None):
        self.rng, self.hints, self.size, self.defs = rng, hints, size, defs or {}
        self.vars = {}
        self.fns = {}
        self.mats = {}
        self.memo = {}
        self.near = ()           # thresholds of the code under proof: values worth trying
        self.flat = False        # some vectors and matrix rows vanish, or nearly so
        self.loose = False       # summarised symbols may take any value (a heuristic filter only)

    # ---- symbols
    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            name = a.args[0]
            r = self.rng
            if a in self.defs:
                v = self.ev(self.defs[a], {})
            elif name == "PI":
                v = math.pi
            elif self.near and r.random() < 0.5:
                c = r.choice(self.near)
                if a.integer:
                    v = round(c) + r.choice([-1, 0, 1])
                else:
                    v = c * r.choice([1, r.uniform(0, 1), r.uniform(1, 2), 1 + 1e-3, 1 - 1e-3])
            elif name in self.hints:
                v = self.hints[name](r)
            elif a.integer:
                v = r.randint(1, self.size)
            else:
                v = r.choice([r.uniform(-3, 3), r.uniform(0, 1), r.uniform(0, 1), r.gauss(0, 1), float(r.randint(-2, 3))])
            self.vars[a] = v
        return v

    def _factor(self, fn, lead, i):
        k = (fn, "g", lead, i)
        g = self.fns.get(k)
        if g is None:
            g = np.array([self.rng.gauss(0, 1) for _ in range(fn.props.get("rank", 4))])
            self.fns[k] = g
        return g

    def _size(self, fn, lead):
        k = (fn, "size", lead)
        if k not in self.fns:
            self.fns[k] = self.rng.choice([1, 1, 0, 1e-14])
        return self.fns[k]

    def app(self, fn, idx):
        h = fn.props.get("value")
        if h is not None:
            return h(self, idx)
        src = fn.props.get("src")
        if src is not None:
            return self._derived(fn, src, idx)
        if fn.name in ("start", "bid") and isinstance(fn.key, tuple) and fn.key[0] == "split":
            p, k = self.i(fn.key[1]), self.i(fn.key[2])
            parts = np.array_split(np.arange(p), k)
            if fn.name == "bid":
                for b, x in enumerate(parts):
                    if idx[0] in x:
                        return b
                raise Skip("bid")
            j = int(idx[0])
            return sum(len(x) for x in parts[:j])
        if fn.name.startswith("$") and not self.loose:
            raise NoEval(fn.name)
        if fn.sym and len(idx) >= 2 and idx[-2] > idx[-1]:
            idx = idx[:-2] + (idx[-1], idx[-2])
        if fn.props.get("pd") or fn.props.get("psd"):
            a, b = self._factor(fn, idx[:-2], idx[-2]), self._factor(fn, idx[:-2], idx[-1])
            v = float(a @ b)
            if fn.props.get("pd") and idx[-1] == idx[-2]:
                v += 0.05
            return v
        k = (fn, idx)
        v = self.fns.get(k)
        if v is None:
            r = self.rng
            hint = fn.props.get("hint")
            if hint is not None:
                v = hint(r)
            elif fn.integer:
                v = r.randint(0, self.size)
            elif fn.props.get("nonneg"):
                v = abs(r.gauss(0, 1)) if r.random() > 0.1 else 0.0
            elif fn.name == "spacing":
                v = 1e-16
            else:
                v = r.gauss(0, 1) if r.random() > 0.1 else float(r.randint(-1, 1))
            if self.flat and not fn.integer and idx:
                v *= self._size(fn, idx[:-1])
            self.fns[k] = v
        return v

    def content(self, fn, src, par):
        key = (src, par)
        m = self.mats.get(key)
        if m is None:
            shp, v = src
            sub = {tm._mk("var", (f"$par{k}",), True): x for k, x in enumerate(par)}
            env = dict(sub)
            dims = [self.i(d, env) for d in shp]
            if any(d > 64 or d < 0 for d in dims):
                raise Skip("too large")
            m = np.zeros(dims)
            for ix in np.ndindex(*dims):
                e = dict(env)
                for k, d in enumerate(shp):
                    e[tm._mk("ix", (("key", k, len(shp)), d), True)] = ix[k]
                m[ix] = self.ev(v, e)
            self.mats[key] = m
        return m

    def _derived(self, fn, src, idx):
        npar = fn.props["npar"]
        par, rest = tuple(idx[:npar]), tuple(int(x) for x in idx[npar:])
        k = (fn, par)
        m = self.mats.get(k)
        if m is None:
            A = self.content(fn, src, par)
            n = fn.name
            try:
                if n == "inv":
                    m = np.linalg.inv(A)
                    if not np.isfinite(m).all() or np.linalg.cond(A) > 1e6:
                        raise Skip("ill-conditioned")
                elif n == "pinv":
                    m = np.linalg.pinv(A)
                elif n.startswith("eval"):
                    m = np.linalg.eigh((A + A.T) / 2)[0]
                elif n.startswith("evec"):
                    m = np.linalg.eigh((A + A.T) / 2)[1]
                elif n == "absm":
                    w, U = np.linalg.eigh((A + A.T) / 2)
                    m = (U * abs(w)) @ U.T
                elif n == "sval":
                    m = np.linalg.svd(A)[1]
                elif n == "svec":
                    m = np.linalg.svd(A)[2].T
                elif n == "chol":
                    m = np.linalg.cholesky(A)
                elif n == "logdet":
                    m = np.array(np.linalg.slogdet(A)[1])
                elif n == "detsign":
                    m = np.array(np.linalg.slogdet(A)[0])
                elif n == "det":
                    m = np.array(np.linalg.det(A))
                elif n == "eigvals":
                    m = np.real(np.linalg.eigvals(A))
                elif n == "cond":
                    m = np.array(np.linalg.cond(A))
                else:
                    raise NoEval(n)
            except np.linalg.LinAlgError:
                raise Skip("LinAlgError")
            self.mats[k] = m
        try:
            return float(m[rest])
        except IndexError:
            raise Skip("index out of range")

    # ---- evaluation
    def i(self, t, env=None):
        v = self.ev(t, env or {})
        r = round(v)
        if abs(v - r) > 1e-9:
            raise Skip("non-integer dimension")
        return int(r)

    def ev(self, t, env):
        s = 0.0
        for mono, c in t.m.items():
            p = 1
            ok = True
            # indicators first: they may guard undefined factors
            for a, e in mono:
                if a.kind == "ind":
                    p = p * self.atom(a, env)
                    if p == 0:
                        ok = False
                        break
            if not ok:
                continue
            for a, e in mono:
                if a.kind == "ind":
                    continue
                x = self.atom(a, env)
                if e < 0 and abs(x) < 1e-13:
                    raise Skip("division by zero")
                p = p * (x ** e)
            s += float(c) * p if c.denominator != 1 else c.numerator * p
        return s

    def atom(self, a, env):
        if a in env:
            return env[a]
        k = a.kind
        if k == "var":
            return self.var(a)
        closed = not env or not (a.vars & env.keys())
        if closed:
            m = self.memo.get(a)
            if m is None:
                m = self.memo[a] = self._atom(a, env)
            return m
        return self._atom(a, env)

    def _atom(self, a, env):
        k = a.kind
        if k == "ix":
            v = self.vars.get(a)
            if v is None:
                n = self.i(a.args[1], env)
                if n <= 0:
                    raise Skip("empty range")
                if a in WITNESS:
                    f, mx = WITNESS[a]
                    vals = [self.ev(f(T.const(i)), {}) for i in range(n)]
                    v = self.vars[a] = vals.index((max if mx else min)(vals))
                    return v
                v = self.vars[a] = self.rng.randrange(n)
            return v
        if k == "app":
            return self.app(a.args[0], tuple(int(round(self.ev(x, env))) for x in a.args[1]))
        if k == "sum":
            ranges, body = a.args
            return self._sum([tm.bv(a.height, i) for i in range(len(ranges))], ranges, body, dict(env), 0)
        if k == "ind":
            return 1 if self.b(a.args[0], env) else 0
        if k == "inv":
            x = self.ev(a.args[0], env)
            if abs(x) < 1e-13:
                raise Skip("division by zero")
            return 1 / x
        if k == "sqrt":
            x = self.ev(a.args[0], env)
            if x < -1e-9:
                raise Skip("sqrt of a negative number")
            return math.sqrt(max(x, 0))
        if k == "pos":
            return max(self.ev(a.args[0], env), 0)
        if k == "log":
            x = self.ev(a.args[0], env)
            if x <= 0:
                raise Skip("log")
            return math.log(x)
        if k == "exp":
            return math.exp(min(self.ev(a.args[0], env), 300))
        if k == "pow":
            x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
            if x < 0 and x > -1e-12:
                x = 0.0
            if x < 0 or x == 0 and y < 0:
                raise Skip("pow")
            return x ** y
        if k == "floor":
            return math.floor(self.ev(a.args[0], env) + 1e-12)
        if k == "ceil":
            return math.ceil(self.ev(a.args[0], env) - 1e-12)
        raise NoEval(k)

    def _sum(self, vs, ranges, body, env, k):
        if k == len(vs):
            return self.ev(body, env)
        v = vs[k]
        n = self.i(ranges[k], env)
        if n > 64 and self.near:
            raise Skip("too large")
        s = 0.0
        for j in range(n):
            env[v] = j
            s += self._sum(vs, ranges, body, env, k + 1)
        env.pop(v, None)
        return s

    def b(self, b, env=None):
        env = env or {}
        k = b.kind
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "ge":
            return self.ev(b.args[0], env) >= -1e-11
        if k == "gt":
            return self.ev(b.args[0], env) > 0
        if k == "eq":
            return abs(self.ev(b.args[0], env)) < 1e-11
        if k == "not":
            x = b.args[0]
            if x.kind == "ge":
                return self.ev(x.args[0], env) < -1e-11
            return not self.b(x, env)
        if k == "and":
            return all(self.b(x, env) for x in b.args)
        if k == "or":
            return any(self.b(x, env) for x in b.args)
        if k == "atom":
            return self._pred(b, env)
        raise NoEval(k)

    def _pred(self, b, env):
        tag = b.args[0]
        par = tuple(int(round(self.ev(x, env))) for x in b.args[2:])
        if tag[0] == "pd":
            A = self.content(None, tag[1], par)
            w = np.linalg.eigvalsh((A + A.T) / 2)
            if abs(w.min()) < 1e-8 * max(1.0, abs(w).max()):
                raise Skip("borderline")
            return w.min() > 0
        if tag[0] == "singular":
            A = self.content(None, tag[1], par)
            s = np.linalg.svd(A)[1]
            return bool(len(s) and s.min() <= 1e-13 * max(s.max(), 1e-300))
        if tag[0] == "forall":
            shp, c = tag[1], tag[2]
            dims = [self.i(d, env) for d in shp]
            if any(d > 64 for d in dims):
                raise Skip("too large")
            for ix in np.ndindex(*dims):
                e = dict(env)
                for k, d in enumerate(shp):
                    e[tm._mk("ix", (("key", k, len(shp)), d), True)] = ix[k]
                if not self.b(c, e):
                    return False
            return True
        raise NoEval(tag[0])


def constants(x, acc=None, seen=None):
    """Unusual numbers in facts and goals."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(x, (B, tm.Atom, T)):
        if x in seen:
            return acc
        seen.add(x)
    if isinstance(x, T):
        for mono, c in x.m.items():
            v = abs(float(c))
            if v > 4 or v < 1e-3:
                acc.add(v)
            for a, _ in mono:
                constants(a, acc, seen)
    elif isinstance(x, (B, tm.Atom)):
        for y in x.args:
            constants(y, acc, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            constants(y, acc, seen)
    return acc


def find(facts, goal, hints, tries=120, seed=1, budget=4.0, defs=None, terms=()):
    """An interpretation satisfying the facts for which goal(interp) is True; None when none was found.
    goal returns True when the obligation is violated."""
    import time

    end = time.time() + budget
    met = 0
    near = sorted(constants([facts, list(terms)]))[:40]
    for k in range(tries):
        if time.time() > end:
            break
        rng = random.Random(seed * 7919 + k)
        it = Interp(rng, hints, size=(1 if k % 7 == 0 else 2 if k % 3 == 0 else 3), defs=defs)
        if near and k % 3 == 2:
            it.near = near
        it.flat = FLAT and k % 4 == 1
        try:
            _solve_eqs(it, facts)
            if not all(it.b(f) for f in facts):
                continue
            met += 1
            if goal(it):
                return it, met
        except Skip:
            continue
        except (OverflowError, ZeroDivisionError, FloatingPointError):
            continue
        except NoEval:
            return None, met
        except RecursionError:
            return None, met
    return None, met


class Pool:
    """A few interpretations of the facts of a path, to tell quickly that a sign is not entailed.

    Only ever used to answer "not known", which can lose a simplification but never an obligation."""

    def __init__(self, hints, defs):
        self.hints, self.defs = hints, defs
        self.its, self.nfacts, self.tries = [], 0, 0

    def negative(self, facts, t):
        if self.tries > 60 and not self.its:
            return False
        if self.nfacts != len(facts):
            new = facts[self.nfacts:]
            self.its = [it for it in self.its if self._ok(it, new)]
            self.nfacts = len(facts)
        while len(self.its) < 3 and self.tries < 60:
            self.tries += 1
            it = Interp(random.Random(self.tries * 31 + 7), self.hints, size=2 if self.tries % 3 else 3, defs=self.defs)
            it.loose = True
            if self._ok(it, facts, True):
                self.its.append(it)
        for it in self.its:
            try:
                if it.ev(t, {}) < -1e-6:
                    return True
            except (Skip, NoEval, OverflowError, ZeroDivisionError, RecursionError):
                continue
        return False

    def _ok(self, it, facts, eqs=False):
        try:
            if eqs:
                _solve_eqs(it, facts)
            return all(it.b(f) for f in facts)
        except (Skip, NoEval, OverflowError, ZeroDivisionError, RecursionError):
            return False


def _solve_eqs(it, facts):
    """Equality facts that are solved for a plain variable fix its value."""
    for f in facts:
        if f.kind != "eq":
            continue
        t = f.args[0]
        for mono, c in t.m.items():
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind in ("var", "app"):
                a = mono[0][0]
                if a.kind == "app":
                    if a.args[0].props.get("src") or a.args[0].props.get("psd"):
                        continue
                rest = T({k: -x / c for k, x in t.m.items() if k != mono})
                if a in rest.vars():
                    continue
                if a.kind == "var":
                    if a in it.vars or a in it.defs:
                        continue
                    v = it.ev(rest, {})
                    it.vars[a] = int(round(v)) if a.integer else v
                    break
                else:
                    idx = tuple(int(round(it.ev(x, {}))) for x in a.args[1])
                    if (a.args[0], idx) in it.fns:
                        continue
                    it.fns[(a.args[0], idx)] = it.ev(rest, {})
                    break


def show(it):
    vs = {repr(a): v for a, v in it.vars.items()}
    fs = {f"{k[0].name}{list(k[1])}": (round(v, 6) if isinstance(v, float) else v)
          for k, v in list(it.fns.items())[:40] if len(k) == 2}
    return {"variables": vs, "entries": fs}
