"""Loader and symbolic executor of the real source of /repo.

The modules of /repo are read, parsed and compiled on every run.  The only changes made to their syntax
tree are that ``for``/``while`` loops and comprehensions go through the loop rules below (a loop over a
concrete iterable runs as it is); everything else is the code as it stands, run by CPython on symbolic
values.  Imports of numpy resolve to the contracts in symnp.py.
"""
from __future__ import annotations

import ast
import builtins
import copy as _copy
import itertools
import math as _math
import os
import sys
import time
import types

from . import arrays as ar
from . import evalt
from . import solver as sv
from . import symnp as sn
from . import terms as tm
from .arrays import NAN, Arr, Filt, JList, Store, Sym, SymBool, SymList, _const, as_arr, bb, dim, num, scal, tt
from .terms import (B, FALSE, Fn, ONE, T, TRUE, Unsupported, ZERO, as_t, b_and, b_eq, b_ge, b_gt, b_not, b_or, mk_app,
                    mk_ind, mk_sum, mul, new_ix, sub)

REPO = os.environ.get("VC_REPO", "/repo")


class PathAbort(Exception):
    """The current path is infeasible."""


class Poison:
    """A value the loop rules do not determine."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def __getattr__(self, n):
        raise Unsupported("use of " + object.__getattribute__(self, "_why"))


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "bool", "len", "iter", "getitem", "lt",
            "gt", "le", "ge", "matmul", "call", "neg", "float", "index"):
    def _mkop(op):
        def f(self, *a):
            raise Unsupported("use of " + object.__getattribute__(self, "_why"))
        return f
    setattr(Poison, f"__{_op}__", _mkop(_op))


# ================================================================== runtime
_ruid = itertools.count()


class Runtime:
    def __init__(self, script=(), check_defined=False):
        self.uid = next(_ruid)
        self.ctx = sv.Ctx()
        self.hints = {}
        self.script = list(script)
        self.pos = 0
        self.pending = []
        self.loops = []           # symbolic loops being executed
        self.check_defined = check_defined
        self.def_obls = []
        self.partitions = []
        self.floors = []
        self.spectra = {}        # matrix content -> range of its eigenvalues
        self.pos_spectra = set()
        self.absm = []
        self.havoc = []
        self.epoch = 0
        self.extrema = []
        self.extreme_of = {}
        self.trace = []
        self.functions = set()
        self.pd_lemmas = {}
        self.loop_invariants = {}
        self._ge = {}
        self.write_hooks = []
        self.hoisted = []
        self.names = {}
        self.concrete_while = False
        self.det_ids = {}
        self.choices = []         # (list, index chosen, fact about another index)
        self.best, self.best_facts = {}, {}     # choices made in loops: functions of the loop indices, their facts
        self.skolems = set()      # indices that stand for one fixed, arbitrary position
        self.merge = False        # max/min of reals as one term instead of two paths
        self.ctx.pool = evalt.Pool(self.hints, self.ctx.defs)

    # ---- naming of compound scalars
    def name(self, t):
        """A ghost variable equal to t (so that products with it stay small); t itself when it is small,
        inside a summarised loop, or mentions a free index."""
        if self.loops or (len(t.m) < 2 and not any(a.kind == "inv" for a in t.atoms())):
            return t
        if not any(a.kind == "sum" for mono in t.m for a, _ in mono) and len(t.m) < 8:
            return t
        if any(v.kind == "ix" for v in t.vars()):
            return t
        v = self.names.get(t)
        if v is None:
            v = tm._mk("var", (f"$d{self.uid}.{len(self.names)}",), t.is_int())
            self.names[t] = v
            nn = self.prove_ge(t)
            self.ctx.defs[v] = t
            self.assume(b_eq(sub(T.of(v), t)))
            if nn:
                self.assume(b_ge(T.of(v)))
        return T.of(v)

    # ---- branching
    def entails(self, b, timeout=None):
        return self.ctx.entails(b, timeout)

    def decide(self, b):
        if isinstance(b, bool):
            return b
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.ctx.entails(b):
            return True
        nb = b_not(b)
        if self.ctx.entails(nb):
            return False
        hoist = False
        if self.loops:
            hoist = not any(depends(b, {l.k} | getattr(l, "marks", set())) for l in self.loops)
        if self.loops and not hoist:
            v = self.loops[-1].decide(b)
        elif self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
        else:
            v = True
            self.pending.append(self.script + [False])
            self.script.append(True)
            self.pos += 1
        if hoist:                 # the same for every iteration: a case split of the whole path
            self.hoisted.append(b if v else nb)
        self.assume(b if v else nb)
        self.trace.append(repr(b if v else nb)[:200])
        return v

    def assume(self, b):
        n = len(self.ctx.facts)
        self.ctx.assume(b)
        if len(self.ctx.facts) != n:
            self.epoch += 1
            self._ge = {k: v for k, v in self._ge.items() if v}

    def defined(self, c, what):
        if c is TRUE:
            return
        if self.check_defined:
            st, how = self.ctx.holds(c)
            self.def_obls.append((what + self.where(), st, how, repr(c)[:300]))
            if st == "proved":
                return
        if c is FALSE:
            return
        if self.check_defined:
            self.assume(c)

    def where(self):
        f = sys._getframe(1)
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(REPO):
                return f" at {os.path.relpath(fn, REPO)}:{f.f_code.co_name}"
            f = f.f_back
        return ""

    def note_write(self, store):
        for h in self.write_hooks:
            h(store)

    # ---- scoped facts
    def push(self):
        c = self.ctx
        self.epoch += 1
        return (list(c.facts), dict(c._ent), dict(c._nn), dict(self._ge))

    def pop(self, s):
        c = self.ctx
        c.facts, c._ent, c._nn, self._ge = s
        self.epoch += 1
        for b in self.hoisted:
            self.assume(b)

    # ---- services for arrays
    def partition_member(self, s, off, ln):
        for P in self.partitions:
            hi = tm.add(off, ln)
            k = _start_index(P, off)
            k2 = _start_index(P, hi)
            if k is not None and k2 is not None and tm.add(k, ONE) == k2:
                return b_eq(sub(mk_app(P.bid, [s]), k))
        return None

    def forall_atom(self, shape, c, ks, f, a):
        return B.mk("atom", ("forall", tuple(shape), c), frozenset(sn._depset_b(c) if hasattr(sn, "_depset_b") else ()))

    def extremum(self, a, mx):
        n = a._shape[0]
        key, par, _ = sn.content_key(a)
        key = (key, par, mx)
        if key in self.extreme_of:        # the same array has one maximum
            return self.extreme_of[key]
        i0 = new_ix(n)
        v = num(a.at(T.of(i0)))
        self.extreme_of[key] = v
        s = a.snap()
        evalt.WITNESS[i0] = (lambda i: num(s(i)), mx)
        for (b, m, w, val) in list(self.extrema):
            if b._shape[0] != n:
                continue
            self.assume(b_ge(sub(val, num(b.at(T.of(i0))))) if m else b_ge(sub(num(b.at(T.of(i0))), val)))
            self.assume(b_ge(sub(v, num(a.at(T.of(w))))) if mx else b_ge(sub(num(a.at(T.of(w))), v)))
        self.extrema.append((a, mx, i0, v))
        return v

    # ---- matrices
    def prove_ge(self, t):
        r = self._ge.get(t)
        if r is None:
            r = self.ctx.structural_nonneg(t)
            if not r:
                t1 = self.ctx.complement(self.ctx.simp(t))
                r = self.ctx.structural_nonneg(t1)
                if not r:
                    r = self.ctx.gram_nonneg(t1)
                if not r:
                    t2 = sv.flip_pos(t)
                    r = t2 != t and self.ctx.structural_nonneg(self.ctx.simp(t2))
            self._ge[t] = r
        return r

    def note_pd(self, a):
        """The path knows that a is positive definite."""
        i, j = T.of(new_ix(a._shape[0])), T.of(new_ix(a._shape[0]))
        v = num(a.at(i, j))
        self.pd_known = getattr(self, "pd_known", [])
        self.pd_known.append((a.snap(), a._shape[0]))

    def pd_floor(self, a):
        n = a._shape[0]
        i, j = new_ix(n), new_ix(n)
        v = num(a.at(T.of(i), T.of(j)))
        ind = mk_ind(b_eq(sub(T.of(i), T.of(j))))
        ia = next(iter(ind.m))[0][0] if len(ind.m) == 1 and len(next(iter(ind.m))) == 1 else None
        for mono, c in v.m.items():
            if c <= 0:
                continue
            base = None
            lf, rf, cf = [], [], []
            ok = True
            for a_, e in mono:
                hi, hj = i in a_.vars, j in a_.vars
                if hi and hj:
                    if base is None and e == 1 and (a_ is ia or (a_.kind == "app" and a_.args[0].props.get("pd")
                                                            and set(a_.args[1][-2:]) == {T.of(i), T.of(j)})):
                        base = a_
                    else:
                        ok = False
                elif hi:
                    lf.append((a_, e))
                elif hj:
                    rf.append((a_, e))
                else:
                    cf.append((a_, e))
            if not ok or base is None:
                continue
            L = T({tuple(lf): tm.Fraction(1)}) if lf else ONE
            Rr = T({tuple(sorted(rf, key=tm._akey)): tm.Fraction(1)}) if rf else ONE
            C = T({tuple(cf): tm.Fraction(c)})
            if base is ia and not lf and rf:
                # d(j) [i==j]
                if not self.ctx.entails(b_gt(Rr)):
                    continue
            elif base is ia and lf and not rf:
                if not self.ctx.entails(b_gt(L)):
                    continue
            else:
                if tm.subst(L, {i: T.of(j)}) != Rr:
                    continue
                if L != ONE and not self.ctx.entails(b_not(b_eq(L))):
                    continue
            if C.value() is None and not self.ctx.entails(b_gt(C)):
                continue
            rest = T({m: x for m, x in v.m.items() if m != mono})
            if not rest.m:
                return True
            f = Fn.get("qx", ("qx",), 1)
            q = mk_sum([i, j], mul(mul(mk_app(f, [T.of(i)]), rest), mk_app(f, [T.of(j)])))
            if self.prove_ge(q):
                return True
        return False


def _start_index(P, t):
    if not t.m:
        return ZERO
    if t == P.p:
        return P.k
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            if a.kind == "app" and a.args[0] is P.start:
                return a.args[1][0]
    return None


def _depset_b(b):
    acc = set()
    sn._dep_b(b, acc, set())
    return acc


sn._depset_b = _depset_b


# patch Store caching to respect the fact epoch
def _store_get(self, idx):
    R = ar.RT
    ep = R.epoch if R is not None else 0
    if self.owner != ep:
        self.cache = {}
        self.owner = ep
    r = self.cache.get(idx)
    if r is None:
        r = self.fn(idx)
        self.cache[idx] = r
    return r


def _store_set(self, fn):
    if ar.RT is not None:
        ar.RT.note_write(self)
    self.fn = fn
    self.cache = {}
    self.version += 1


Store.get = _store_get
Store.set = _store_set


def _snap2(store):
    fn = store.fn
    return fn


ar._snap = _snap2


# ================================================================== symbolic iterables
class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside an instrumented loop")

    def to_list(self):
        return SymList(sub(self.hi, self.lo), lambda k: Sym(tm.add(self.lo, k)))


def as_symlist(it):
    """A SymList view of a symbolic iterable, or None when it is concrete."""
    if isinstance(it, SymRange):
        return it.to_list()
    if isinstance(it, SymList):
        return it if it.n.value() is None else None
    if isinstance(it, Arr):
        if it.ndim and _const(it._shape[0]) is None:
            return SymList(it._shape[0], lambda k: it[Sym(k)])
    if isinstance(it, GList):
        return it.to_list()
    if isinstance(it, JList) and _const(it.arr._shape[0]) is None:
        return SymList(it.arr._shape[0], lambda k: it[Sym(k)])
    return None


def conc(it):
    if isinstance(it, SymList):
        return [it.at(as_t(k)) for k in range(int(it.n.value()))]
    return it


# ---- structural substitution and dependency on index variables
def subst_val(v, mp):
    if isinstance(v, Sym):
        return Sym(tm.subst(v.t, mp))
    if isinstance(v, SymBool):
        return SymBool.of(tm.subst_b(v.b, mp))
    if isinstance(v, Arr):
        s = v.snap()

        def fn(*i):
            # the index terms may mention the substituted variables: rename them apart
            fresh, back = [], {}
            for t in i:
                x = tm._mk("var", (f"$sv{next(_svn)}",), True)
                fresh.append(T.of(x))
                back[x] = t
            r = s(*fresh)
            if r is NAN:
                return r
            if isinstance(r, B):
                return tm.subst_b(tm.subst_b(r, mp), back)
            return tm.subst(tm.subst(r, mp), back)

        r = Arr.make(tuple(tm.subst(d, mp) for d in v._shape), fn, v.store.dtype)
        if v.arange is not None:
            r.arange = tm.subst(v.arange, mp)
        r.store.origin = v.store.origin or v.store
        return r
    if isinstance(v, JList):
        return JList(subst_val(v.arr, mp))
    if isinstance(v, dict):
        return {k: subst_val(x, mp) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    if isinstance(v, list):
        return [subst_val(x, mp) for x in v]
    if isinstance(v, SymList):
        return SymList(tm.subst(v.n, mp), lambda k: subst_val(v.at(k), mp))
    f = getattr(v, "_vc_subst", None)      # contract-side values depending on an index
    return v if f is None or isinstance(v, type) else f(mp)


_svn = itertools.count()


def depends(t, marks):
    acc = set()
    if isinstance(t, B):
        sn._dep_b(t, acc, set())
    else:
        sn._dep_t(t, acc, set())
    return bool(acc & marks)


# ================================================================== loops
_loop_ids = itertools.count()


class Loop:
    """Runs a ``for`` body: as it is over a concrete iterable, once for a generic index otherwise."""

    def __init__(self, it, names, where, loads=()):
        self.names, self.where, self.loads = names, where, loads
        self.cut = None
        sl = as_symlist(it)
        self.symbolic = sl is not None
        self.guard = getattr(it, "guard", None) if self.symbolic else None
        cut = getattr(ar.RT, "loop_cut", None) if self.symbolic else None
        if cut is not None and not cut.used and cut.matches(it):
            cut.used = True
            self.cut = cut
            self.sl = sl
            self.phase = "start"
            return
        if not self.symbolic:
            self.it = iter(conc(it))
            return
        self.R = ar.RT
        self.sl = sl
        self.phase = "start"
        self.broke = False
        self.outv = {}

    # ---- protocol used by the instrumented code
    def next(self, loc):
        if self.cut is not None:
            return self._next_cut(loc)
        if not self.symbolic:
            try:
                self.cur = next(self.it)
                return True
            except StopIteration:
                return False
        return self._next_sym(loc)

    def _next_cut(self, loc):
        """A loop with a stated invariant: entered once from an arbitrary state satisfying it."""
        if self.phase == "start":
            carried = {m: loc[m] for m in self.names if loc.get(m, _UNBOUND) is not _UNBOUND}
            if carried and not hasattr(self.cut, "carry"):
                raise Unsupported(f"local {next(iter(carried))} is carried by the row loop{self.where}")
            self.cut.enter(loc)
            self.k = new_ix(self.sl.n)
            ar.RT.skolems.add(self.k)
            self.inv = self.cut.carry(carried, loc, T.of(self.k)) if hasattr(self.cut, "carry") else {}
            self.phase = "body"
            self.row = self.cut.begin(T.of(self.k))
            return True
        if hasattr(self.cut, "leave"):
            self.outv = self.cut.leave(loc)
            return False
        self.cut.end(self.row)
        self.outv = {}
        return False

    def item(self):
        if self.cut is not None:
            return self.sl.at(T.of(self.k))
        if not self.symbolic:
            return self.cur
        return self.sl.at(T.of(self.k))

    def vals(self):
        return tuple(self.inv.get(n, _UNBOUND) for n in self.names)

    def brk(self):
        if self.cut is not None:
            self.cut.broke = True
            return True
        if self.symbolic:
            self.broke = True
        return True

    def contbrk(self, loc):
        """After a break in a symbolic loop: is there another branch to run?"""
        return self._next_sym(loc)

    # ---- symbolic machinery
    def decide(self, b):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            self.todo.append(self.script + [False])
            self.script.append(True)
        self.pos += 1
        self.conds.append(b if v else b_not(b))
        return v

    def _begin_branch(self, script):
        self.script, self.pos, self.conds = list(script), 0, []
        for st, fn in self.saved.items():
            st.fn = fn
            st.cache = {}
        self.scope = self.R.push()
        for st, f in self.abs_fn.items():
            st.fn = f
            st.cache = {}
        for (lst, n0, base) in self.lists:
            del lst[n0:]
        self.inv = dict(self.abs_val) if self.phase == "abs" else dict(self.init)
        return self.guard is None or self.R.decide(self.guard(T.of(self.k)))

    def _write_hook(self, store):
        if store.id < self.store_mark and store not in self.saved:
            self.saved[store] = store.fn

    def _next_sym(self, loc):
        R = self.R
        if self.phase == "start":
            n = self.sl.n
            if R.decide(b_eq(n)) if not R.entails(b_ge(sub(n, ONE))) else False:
                self.phase = "done"
                self.outv = {m: loc.get(m, _UNBOUND) for m in self.names}
                return False
            self.nonempty = True
            self.k = new_ix(n)
            self.init = {m: loc.get(m, _UNBOUND) for m in self.names}
            self.saved, self.abs_fn, self.abs_val = {}, {}, {}
            self.store_mark = next(ar._aid)
            self.det = self._det_key(loc)
            self.lists = [(v, len(v), list(v)) for v in _uniq(loc.values()) if type(v) is list]
            self.objs = _reach(loc.values(), {id(v) for v, _, _ in self.lists})
            self.todo, self.branches = [], []
            self.read_own, self.owned = set(), {}
            self.dry_changed, self.any_break = set(), False
            R.loops.append(self)
            R.write_hooks.append(self._write_hook)
            self.phase = "dry"
            if self._begin_branch([]):
                return True
            return self._next_sym(self._skipped(loc))
        # a branch has ended
        vals = {m: loc.get(m, _UNBOUND) for m in self.names}
        if self.phase == "dry":
            for m in self.names:
                if vals[m] is not self.init[m]:
                    self.dry_changed.add(m)
            self.any_break |= self.broke
        else:
            writes = {st: st.fn for st in self.saved}
            apps = []
            for (lst, n0, base) in self.lists:
                apps.append(list(lst[n0:]))
            self.branches.append((list(self.conds), vals, writes, apps))
        for o, d, old in self.objs:
            if len(d) != len(old) or (any(x is not y for x, y in zip(d, old)) if isinstance(d, list)
                                      else any(k not in d or d[k] is not v for k, v in old.items())):
                raise Unsupported(f"a {type(o).__name__} is changed in a loop of symbolic length" + self.where)
        self.broke = False
        R.pop(self.scope)
        if self.todo:
            if self._begin_branch(self.todo.pop()):
                return True
            return self._next_sym(self._skipped(loc))
        if self.phase == "dry":
            self._abstract()
            self.phase = "abs"
            self.todo = []
            if self._begin_branch([]):
                return True
            return self._next_sym(self._skipped(loc))
        if self._own_entries():
            self.todo, self.branches = [], []
            if self._begin_branch([]):
                return True
            return self._next_sym(self._skipped(loc))
        self._finish()
        return False

    def _own_entries(self):
        """Stores of which iteration k writes only entry (row, ...) k: what it reads there is the initial content.
        True when the body has to be run again with that knowledge."""
        if self.owned or not self.read_own:
            return False
        for st in list(self.read_own):
            f = self.carry[st]
            ix = [new_ix(d) for d in st.shape]
            xs = [T.of(i) for i in ix]
            axes = set(range(len(ix)))
            for _, _, wr, _ in self.branches:
                if st in wr:
                    t = wr[st](tuple(xs))
                    if not isinstance(t, T):
                        axes = set()
                        continue
                    co, rest = _linear(self._toward(t, f, ix), next(iter(mk_app(f, xs).m))[0][0])
                    if co is None or depends(co, self.marks):
                        axes = set()
                        continue
                    axes &= self._pinned(sub(ONE, co), ix)
            if axes:
                self.owned[st] = axes
        if not self.owned:
            return False
        for st, axes in self.owned.items():
            old, fn0 = self.abs_fn[st], self.init_fn[st]
            self.abs_fn[st] = lambda idx, old=old, fn0=fn0, axes=axes: \
                fn0(idx) if any(idx[a] == T.of(self.k) for a in axes) else old(idx)
        return True

    def _pinned(self, sel, ix):
        """Axes of the entry that sel forces to equal k (every axis when sel is 0)."""
        if not sel.m:
            return set(range(len(ix)))
        out = None
        for mono in sel.m:
            got = set()
            for a, e in mono:
                if a.kind == "ind" and a.args[0].kind == "eq":
                    t = a.args[0].args[0]
                    for q, i in enumerate(ix):
                        if t in (sub(T.of(self.k), T.of(i)), sub(T.of(i), T.of(self.k))):
                            got.add(q)
            out = got if out is None else out & got
        return out

    def _skipped(self, loc):
        """The locals after an element that is not in the list."""
        return {**loc, **self.inv}

    def _det_key(self, loc):
        """What the outcome of the loop is a function of; None when it may depend on more than plain values."""
        out = [self.where, self.sl.n]
        for m in self.loads:
            if m not in loc:
                continue
            v = loc[m]
            if isinstance(v, JList):
                v = v.arr
            if isinstance(v, Sym):
                v = v.t
            elif isinstance(v, Arr):
                try:
                    key, par, _ = sn.content_key(v)
                except Unsupported:
                    return None
                if any(next(iter(q.m))[0][0] not in self.R.skolems for q in par):
                    return None
                v = (key, par)
            elif isinstance(v, (types.ModuleType, types.FunctionType, type)):
                v = id(v)
            elif not (v is None or isinstance(v, (int, float, str, bool))):
                return None
            out.append((m, v))
        return tuple(out)

    def _abstract(self):
        """Replace what iterations carry over by fresh symbols."""
        lid = next(_loop_ids)
        self.marks = set()
        self.abs_val = dict(self.init)
        self.carry = {}
        for m in self.dry_changed:
            v = self.init[m]
            if v is _UNBOUND or m not in self.dry_changed:
                continue
            if isinstance(v, (Sym, int, float)) and not isinstance(v, bool):
                a = tm._mk("var", (f"$c{lid}.{m}",), isinstance(v, int) or (isinstance(v, Sym) and v.t.is_int()))
                self.marks.add(a)
                self.abs_val[m] = Sym(T.of(a))
                self.carry[m] = a
            elif isinstance(v, Arr):
                f = Fn.get(f"$c{lid}.{m}", ("carry", lid, m), v.ndim)
                self.marks.add(f)
                self.abs_val[m] = Arr.make(v._shape, lambda *i, f=f: mk_app(f, i), v.store.dtype) \
                    if v.store.dtype == "f" else Poison(f"loop-carried {m}")
                self.carry[m] = f
            elif isinstance(v, (list, dict)) and v is self.init[m]:
                self.abs_val[m] = Poison(f"loop-carried {m}")
            else:
                self.abs_val[m] = Poison(f"loop-carried {m}")
        self.init_fn = dict(self.saved)
        for n, st in enumerate(self.saved):
            f = Fn.get(f"$s{lid}.{n}", ("store", lid, n), len(st.shape), integer=(st.dtype == "i"))
            self.marks.add(f)
            self.abs_fn[st] = (lambda idx, f=f, st=st: self._read(st, f, idx)) if st.dtype != "b" else \
                (lambda idx, f=f: b_eq(sub(mk_app(f, idx), ONE)))
            self.carry[st] = f

    def _read(self, st, f, idx):
        if any(t == T.of(self.k) for t in idx):
            self.read_own.add(st)
        return mk_app(f, idx)

    def _end(self):
        self.R.write_hooks.remove(self._write_hook)
        self.R.loops.pop()
        self.phase = "done"

    def _finish(self):
        R = self.R
        for st, fn in self.init_fn.items():
            st.fn, st.cache = fn, {}
        for (lst, n0, base) in self.lists:
            del lst[n0:]
        self._end()
        k, n = self.k, self.sl.n
        br = self.branches
        if self.any_break:
            self._havoc_all("a loop with break")
            return
        conds = [b_and(*c) for c, _, _, _ in br]
        if any(depends(c, self.marks) for c in conds):
            self._havoc_all("a loop whose branches depend on carried values")
            return
        # lists
        for li, (lst, n0, base) in enumerate(self.lists):
            cnt = {len(a[li]) for _, _, _, a in br}
            if cnt == {0}:
                continue
            if cnt != {1} or n0 != 0:
                raise Unsupported("append pattern in a loop" + self.where)
            if len(br) != 1:
                raise Unsupported("branching around an append" + self.where)
            elem = br[0][3][li][0]
            if val_depends(elem, self.marks):
                raise Unsupported("appended value depends on earlier iterations" + self.where)
            sl = SymList(n, lambda t, e=elem: subst_val(e, {k: t}))
            self.outv.update({m: sl for m in self.names if self.init[m] is lst})
            self.repl = getattr(self, "repl", []) + [(lst, sl)]
        # stores
        for st, fn0 in self.init_fn.items():
            self._finish_store(st, fn0, conds)
        # names
        last = {k: sub(n, ONE)}
        for m in self.names:
            if m in self.outv:
                continue
            v0 = self.init[m]
            if m not in self.dry_changed:
                self.outv[m] = v0
                continue
            vs = [v[m] for _, v, _, _ in br]
            if m in self.carry and all(isinstance(v, (Sym, int, float)) for v in vs):
                a = self.carry[m]
                w = ZERO
                ok = True
                for c, v in zip(conds, vs):
                    d = sub(tt(v), T.of(a))
                    ok &= not depends(d, self.marks)
                    w = tm.add(w, mul(mk_ind(c), d))
                if ok:
                    self.outv[m] = Sym(tm.add(tt(v0), mk_sum([k], w)))
                    continue
            elif m in self.carry and all(isinstance(v, Arr) for v in vs) and all(
                    v.ndim == v0.ndim and v._shape == v0._shape for v in vs):
                r = self._acc_arr(self.carry[m], v0.snap(), [v.snap() for v in vs], conds, v0._shape)
                if r is not None:
                    self.outv[m] = Arr.make(v0._shape, r)
                    continue
            if len(vs) == 1 and not val_depends(vs[0], self.marks) and vs[0] is not _UNBOUND:
                self.outv[m] = subst_val(vs[0], last)
                continue
            if isinstance(v0, (Sym, int, float)) and not isinstance(v0, bool) and m in self.carry:
                R.havoc.append(f"{m}{self.where}")
                self.outv[m] = Sym(tm.var(f"$h{self._lid()}.{m}"))
            elif isinstance(v0, Arr) and m in self.carry:
                R.havoc.append(f"{m}{self.where}")
                lid = self._lid()
                f = Fn.get(f"$h{lid}.{m}", ("$h", lid, m), v0.ndim)
                self.outv[m] = Arr.make(v0._shape, lambda *i, f=f: mk_app(f, i))
            else:
                self.outv[m] = Poison(f"{m} after the loop{self.where}")

    def _acc_arr(self, f, init, vs, conds, shape):
        """Content after the loop, when each iteration adds to it or overwrites its own entries."""
        ix = [new_ix(d) for d in shape]
        xs = [T.of(i) for i in ix]
        ats = [ar.raw(v(*xs)) for v in vs]
        A = mk_app(f, xs)
        # accumulation
        if all(not depends(sub(t, A), self.marks) for t in ats):
            w = ZERO
            for c, t in zip(conds, ats):
                w = tm.add(w, mul(mk_ind(c), sub(t, A)))
            if depends(w, self.marks):
                raise Unsupported("loop summary")
            w = mk_sum([self.k], w)
            return lambda *i: tm.add(ar.raw(init(*i)), tm.subst(w, dict(zip(ix, i))))
        # overwriting: t = A*(1 - sel) + rest, where no entry is selected by two iterations
        aA = next(iter(A.m))[0][0]

        def parts(ts, atom):
            out = []
            for t in ts:
                co, rest = _linear(t, atom)
                if co is None or depends(rest, self.marks) or depends(co, self.marks):
                    return None
                out.append((sub(ONE, co), rest))
            return out

        ps = parts(ats, aA)
        if ps is None or not self._overwrites(ps, conds):
            us = [self._toward(t, f, ix) for t in ats]
            ps = parts(us, aA)
            if us == ats or ps is None or not self._overwrites(ps, conds):
                return None
            w = ZERO
            x0 = ar.raw(init(*xs))
            for c, (sel, rest) in zip(conds, ps):
                w = tm.add(w, mul(mk_ind(c), sub(rest, mul(sel, x0))))
            w = tm.tricho(tm.add(x0, mk_sum([self.k], w)))
            return lambda *i: tm.subst(w, dict(zip(ix, i)))

        def total(ps, x0):
            w = ZERO
            for c, (sel, rest) in zip(conds, ps):
                w = tm.add(w, mul(mk_ind(c), sub(rest, mul(sel, x0))))
            return tm.tricho(mk_sum([self.k], w))

        def res(*i):
            # at these entries, or (when the entries' own equalities hide the shape) at generic ones
            x0 = ar.raw(init(*i))
            q = parts([ar.raw(v(*i)) for v in vs], next(iter(mk_app(f, i).m))[0][0])
            if q is not None:
                return tm.add(x0, total(q, x0))
            return tm.add(x0, tm.subst(total(ps, ar.raw(init(*xs))), dict(zip(ix, i))))

        return res

    def _overwrites(self, ps, conds):
        """Every iteration only replaces the entries it selects, and no entry is selected by two iterations."""
        pins = []
        for sel, rest in ps:
            if sub(mul(rest, sel), rest).m and self.R.ctx.zero(sub(mul(rest, sel), rest))[0] != "proved":
                return False
            pins.append(self._pin(sel))
        if all(x is not None for x in pins) and len({x for x in pins if x != "none"}) <= 1:
            return True
        # pairwise: the conditions of iterations k and k' on the same entry exclude each other
        k2 = new_ix(self.sl.n)
        mp = {self.k: T.of(k2)}
        cases = []
        for c, (sel, _) in zip(conds, ps):
            if any(a.kind != "ind" for mono in sel.m for a, _ in mono):
                return False
            if sel.m:
                cases.append(b_and(c, b_not(b_eq(sel))))
        d = sub(T.of(self.k), T.of(k2))
        for x in cases:
            for y in cases:
                if self.R.ctx.check([x, tm.subst_b(y, mp), b_not(b_eq(d))]) != "unsat":
                    return False
        return True

    def _toward(self, t, f, ix):
        """[k == i] f(k) written as [k == i] f(i): the entries f is read at, moved to ix where the conditions allow."""
        out = ZERO
        xs = tuple(T.of(i) for i in ix)
        for mono, c in t.m.items():
            eqs = [a.args[0].args[0] for a, _ in mono if a.kind == "ind" and a.args[0].kind == "eq"]
            m2 = []
            for a, e in mono:
                if eqs and a.kind == "app" and a.args[0] is f and a.args[1] != xs and \
                        all(_forced_zero(sub(u, v), eqs) for u, v in zip(a.args[1], xs)):
                    a = next(iter(mk_app(f, xs).m))[0][0]
                m2.append((a, e))
            out = tm.add(out, T({tuple(sorted(m2, key=tm._akey)): c}))
        return out

    def _pin(self, sel):
        """The function of the entry that k must equal where sel, a product of indicators, is not 0; None if unknown."""
        if not sel.m:
            return "none"
        if len(sel.m) != 1:
            return None
        (mono, c), = sel.m.items()
        if c != 1 or any(a.kind != "ind" or e != 1 for a, e in mono):
            return None
        for a, e in mono:
            b = a.args[0]
            if b.kind == "eq":
                t = b.args[0]
                cc = t.m.get(((self.k, 1),))
                if cc is not None and abs(cc) == 1:
                    rest = T({m: x for m, x in t.m.items() if m != ((self.k, 1),)})
                    if self.k not in rest.vars():
                        return rest if cc == -1 else tm.neg(rest)
        return None

    def _finish_store(self, st, fn0, conds):
        f = self.carry[st]
        vs = []
        for _, _, wr, _ in self.branches:
            g = wr.get(st, None)
            vs.append((lambda *i, g=g: g(i)) if g is not None else (lambda *i: mk_app(f, i)))
        if st.dtype == "b":
            raise Unsupported("boolean array written in a loop" + self.where)
        r = self._acc_arr(f, lambda *i: fn0(i), vs, conds, st.shape)
        if r is None:
            self.R.havoc.append(f"array{self.where}")
            lid = self._lid()
            q = list(self.init_fn).index(st)
            h = Fn.get(f"$h{lid}.{q}", ("$h", lid, q), len(st.shape))
            r = lambda *i: mk_app(h, i)
        st.set(lambda idx: r(*idx))

    def _lid(self):
        """The same code on the same values has the same outcome."""
        lid = next(_loop_ids)
        return lid if self.det is None else self.R.det_ids.setdefault(self.det, lid)

    def _havoc_all(self, why):
        R = self.R
        lid = self._lid()
        for q, st in enumerate(self.init_fn):
            R.havoc.append(f"array: {why}{self.where}")
            h = Fn.get(f"$h{lid}.{q}", ("$h", lid, q), len(st.shape))
            st.set(lambda idx, h=h: mk_app(h, idx))
        for (lst, n0, base) in self.lists:
            if any(a for _, _, _, ap in self.branches for a in ap):
                raise Unsupported("append under " + why)
        for m in self.names:
            v0 = self.init[m]
            if m not in self.dry_changed:
                self.outv[m] = v0
            elif isinstance(v0, (Sym, int, float)) and not isinstance(v0, bool):
                R.havoc.append(f"{m}: {why}{self.where}")
                self.outv[m] = Sym(tm.var(f"$h{lid}.{m}"))
            elif isinstance(v0, Arr):
                R.havoc.append(f"{m}: {why}{self.where}")
                f = Fn.get(f"$h{lid}.{m}", ("$h", lid, m), v0.ndim)
                self.outv[m] = Arr.make(v0._shape, lambda *i, f=f: mk_app(f, i))
            else:
                self.outv[m] = Poison(f"{m} after {why}{self.where}")

    def outs(self):
        return tuple(self.outv.get(n, _UNBOUND) for n in self.names)


def _forced_zero(d, eqs):
    """Does d == 0 follow from the linear equalities eqs == 0?"""
    todo = list(eqs)
    while todo and d.m:
        t = todo.pop()
        piv = next((mono for mono, c in t.m.items() if abs(c) == 1 and len(mono) == 1 and mono[0][1] == 1
                    and mono[0][0].kind in ("ix", "bv", "var")), None)
        if piv is None:
            continue
        a, c = piv[0][0], t.m[piv]
        val = tm.scale(T({m: x for m, x in t.m.items() if m != piv}), -c)
        if a in val.vars():
            continue
        d = tm.subst(d, {a: val})
        todo = [tm.subst(x, {a: val}) for x in todo]
    return not d.m


def _linear(t, atom):
    """t = co*atom + rest with co, rest free of atom at top level; co None otherwise."""
    co, rest = ZERO, ZERO
    for mono, c in t.m.items():
        d = dict(mono)
        e = d.pop(atom, 0)
        x = T({tuple(sorted(d.items(), key=tm._akey)): c})
        if e == 0:
            rest = tm.add(rest, x)
        elif e == 1:
            co = tm.add(co, x)
        else:
            return None, None
    return co, rest


def val_depends(v, marks):
    if isinstance(v, Sym):
        return depends(v.t, marks)
    if isinstance(v, SymBool):
        return depends(v.b, marks)
    if isinstance(v, Arr):
        x = v.at(*[T.of(new_ix(d)) for d in v._shape])
        return x is not NAN and (depends(x, marks) or any(depends(d, marks) for d in v._shape))
    if isinstance(v, (list, tuple)):
        return any(val_depends(x, marks) for x in v)
    if isinstance(v, dict):
        return any(val_depends(x, marks) for x in v.values())
    if isinstance(v, SymList):
        return val_depends(v.at(T.of(new_ix(v.n))), marks)
    if isinstance(v, Poison):
        return True
    return False


class _Unbound:
    def __repr__(self):
        return "unbound"

    def __getattr__(self, n):
        raise Unsupported("use of an unbound loop variable")


_UNBOUND = _Unbound()


def _reach(vals, skip):
    """(object, its items, a copy of them) for every container and plain object reachable from vals."""
    out, seen, todo = [], set(skip), list(vals)
    while todo:
        v = todo.pop()
        if v is None or isinstance(v, (Sym, SymBool, Arr, JList, SymList, SymRange, GList, Loop, While, Poison, str, int, float, type,
                                       types.ModuleType, types.FunctionType)) or id(v) in seen:
            continue
        seen.add(id(v))
        if type(v) is dict:
            out.append((v, v, dict(v)))
            todo += v.values()
        elif type(v) is list:
            out.append((v, v, list(v)))
            todo += v
        elif type(v) is tuple:
            todo += v
        elif not getattr(type(v), "_vc_pure", False) and any(
                c.__module__.split(".")[0] in ("precise", "research") and "__slots__" not in vars(c) for c in type(v).__mro__):
            try:
                d = object.__getattribute__(v, "__dict__")
            except AttributeError:
                continue
            out.append((v, d, dict(d)))
            todo += d.values()
    return out


def _uniq(vals):
    seen, out = set(), []
    for v in vals:
        if id(v) not in seen:
            seen.add(id(v))
            out.append(v)
    return out


class While:
    """``while`` loops: run as they are while the condition is decided by what the path knows; once a test
    had to be split into cases, the carried values are replaced by arbitrary ones (same shapes; carried
    matrices symmetric, which is checked on entry and after one arbitrary iteration) - termination is not
    verified."""

    LIMIT = 3000

    def __init__(self, names, where, simple):
        self.names, self.where, self.simple = names, where, simple
        self.count = 0
        self.mode = "run"
        self.R = ar.RT
        self.forked = False

    def head(self, loc):
        """Called before every test; returns the values of the carried names."""
        self.count += 1
        vals = [loc.get(n, _UNBOUND) for n in self.names]
        if self.mode == "generic":
            for n, v, (kind, ref) in zip(self.names, vals, self.inv):
                if kind == "same" and v is not ref:
                    raise Unsupported(f"{n} changes kind in a while loop" + self.where)
                if kind == "arr":
                    if not isinstance(v, Arr) or v._shape != ref:
                        raise Unsupported(f"{n} changes shape in a while loop" + self.where)
                if kind == "sym" and not (isinstance(v, Arr) and v._shape == ref and sn.is_sym(v)):
                    raise Unsupported(f"{n} loses symmetry in a while loop" + self.where)
                if kind == "int" and not (isinstance(v, int) or (isinstance(v, Sym) and v.t.is_int())):
                    raise Unsupported(f"{n} stops being an integer in a while loop" + self.where)
                if kind == "num" and (isinstance(v, bool) or not isinstance(v, (Sym, int, float))):
                    raise Unsupported(f"{n} changes kind in a while loop" + self.where)
            raise PathAbort()      # the iteration re-establishes the invariant
        if self.forked:
            if not self.simple:
                raise Unsupported("a while loop with an effect the engine does not track" + self.where)
            self.mode = "generic"
            self.R.havoc.append(f"while loop summarised by its invariant{self.where}")
            self.inv, out = [], []
            for n, v in zip(self.names, vals):
                i = next(_loop_ids)
                if isinstance(v, Arr):
                    sym = v.ndim == 2 and v._shape[0] == v._shape[1] and sn.is_sym(v)
                    h = Fn.get(f"$w{i}.{n}", ("w", i), v.ndim, sym=sym)
                    self.inv.append(("sym" if sym else "arr", v._shape))
                    fresh = Arr.make(v._shape, lambda *ix, h=h: mk_app(h, ix))
                    v._write(fresh)
                    out.append(v)
                elif isinstance(v, bool) or v is _UNBOUND or v is None or isinstance(v, str):
                    self.inv.append(("same", v))
                    out.append(v)
                elif isinstance(v, (int, float, Sym)):
                    it = isinstance(v, int) or (isinstance(v, Sym) and v.t.is_int())
                    self.inv.append(("int" if it else "num", None))
                    out.append(Sym(tm.var(f"$w{i}.{n}", integer=it)))
                else:
                    self.inv.append(("same", v))
                    out.append(v)
            vals = out
        elif self.count > self.LIMIT:
            raise Unsupported("while loop did not terminate" + self.where)
        self.n0 = len(self.R.trace)
        return tuple(vals)

    def test(self, c):
        r = bool(c)
        if len(self.R.trace) > self.n0 and r and not self.R.concrete_while:
            self.forked = True
        return r


# ================================================================== comprehension support
def listcomp(f, it, flat):
    sl = as_symlist(it)
    if sl is None:
        it = conc(it)
        if flat:
            return [y for x in it for y in f(x)]
        return [f(x)[0] for x in it]
    R = ar.RT
    if flat or getattr(it, "guard", None) is not None:
        return _filtered(f, it, sl)
    k = new_ix(sl.n)
    sc = R.push()
    L = _NoBranch()
    L.k = k
    R.loops.append(L)
    try:
        e = f(sl.at(T.of(k)))[0]
    finally:
        R.loops.pop()
        R.pop(sc)
    return SymList(sl.n, lambda t: subst_val(e, {k: as_t(t) if not isinstance(t, Sym) else t.t}))


def _filtered(f, it, sl):
    """[e(x) for x in it if c(x)]: the elements of it that satisfy the condition, in order."""
    R = ar.RT
    k = new_ix(sl.n)
    todo, got, conds = [[]], None, []
    while todo:
        L = _Branches(todo.pop(), todo, k)
        sc = R.push()
        R.loops.append(L)
        try:
            g = it.guard(T.of(k)) if getattr(it, "guard", None) is not None else TRUE
            r = f(sl.at(T.of(k))) if R.decide(g) else []
        finally:
            R.loops.pop()
            R.pop(sc)
        if len(r) > 1:
            raise Unsupported("comprehension")
        if r:
            if got is not None and not _same_val(got, r[0]):
                raise Unsupported("a filtered comprehension whose elements depend on the branch")
            got = r[0]
            conds.append(b_and(*L.conds))
    if got is None:
        return []
    c = b_or(*conds)
    return GList(sl.n, lambda t: subst_val(got, {k: as_t(t) if not isinstance(t, Sym) else t.t}), lambda t: tm.subst_b(c, {k: t}))


def _same_val(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t == b.t
    e = getattr(a, "_vc_same", None)
    return a is b or (e is not None and e(b))


def dictcomp(f, it):
    r = listcomp(f, it, False)
    return GDict(r) if isinstance(r, SymList) else dict(r)


class GDict:
    """{key(k): value(k) for k in range(n)} with contract-side keys, found by their own rule."""
    _vc_pure = True

    def __init__(self, pairs):
        self.pairs = pairs

    def __getitem__(self, x):
        k = new_ix(self.pairs.n)
        key, _ = self.pairs.at(T.of(k))
        find = getattr(type(x), "_vc_position", None)
        p = find(x, key, T.of(k)) if find is not None else None
        if p is None:
            raise Unsupported("lookup in a dict of symbolic length")
        return self.pairs.at(p)[1]

    def _vc_subst(self, mp):
        return GDict(subst_val(self.pairs, mp))

    def _no(self, *a):
        raise Unsupported("use of a dict of symbolic length")

    __iter__ = __len__ = __contains__ = __setitem__ = __bool__ = _no


class _Branches:
    def __init__(self, script, todo, k):
        self.script, self.todo, self.k, self.pos, self.conds = list(script), todo, k, 0, []

    def decide(self, b):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            self.todo.append(self.script + [False])
            self.script.append(True)
        self.pos += 1
        self.conds.append(b if v else b_not(b))
        return v


class GList:
    """The elements at(k), 0 <= k < n, with guard(k), in order."""

    def __init__(self, n, at, guard):
        self.n, self._at, self.guard = as_t(n), at, guard

    def at(self, k):
        return self._at(as_t(k) if not isinstance(k, Sym) else k.t)

    def to_list(self):
        return SymList(self.n, self._at)

    def count(self):
        k = new_ix(self.n)
        return mk_sum([k], mk_ind(self.guard(T.of(k))))

    def __bool__(self):
        return ar.RT.decide(b_ge(sub(self.count(), ONE)))

    def __len__(self):
        raise Unsupported("len of a filtered list")

    def __iter__(self):
        raise Unsupported("iteration over a filtered list outside an instrumented loop")

    def __contains__(self, x):
        k = new_ix(self.n)
        e = self.at(T.of(k)) == x
        c = e.b if isinstance(e, SymBool) else (TRUE if e else FALSE)
        return ar.RT.decide(b_ge(sub(mk_sum([k], mk_ind(b_and(self.guard(T.of(k)), c))), ONE)))

    def __getitem__(self, i):
        raise Unsupported("indexing of a filtered list")

    def best(self, key, mx):
        """The first element with the extreme key; the choice is registered for instantiation (R.choices)."""
        R = ar.RT
        if not R.entails(b_ge(sub(self.count(), ONE))):
            raise Unsupported("extreme element of a list that may be empty")
        k = new_ix(self.n)
        kv = key(self.at(T.of(k))) if key is not None else self.at(T.of(k))
        kv = kv if isinstance(kv, tuple) else (kv,)
        kv = [tt(x) for x in kv]
        g = self.guard(T.of(k))

        def fact(j, at_m=None, mp={}):
            """No element of the list beats the choice."""
            cs, eq = [], TRUE
            at_m = at_m or [tm.subst(x, {k: M}) for x in kv]
            for a, x in zip(at_m, kv):
                x = tm.subst(x, {**mp, k: j})
                d = sub(a, x) if mx else sub(x, a)
                cs.append(b_and(eq, b_gt(d)))
                eq = b_and(eq, b_eq(d))
            return b_or(b_not(tm.subst_b(g, {**mp, k: j})), eq, *cs)

        ks = [L.k for L in R.loops if getattr(L, "k", None) is not None]
        ks = [q for q in ks if depends(g, {q}) or any(depends(x, {q}) for x in kv) or depends(self.n, {q})]
        if ks:
            # inside a loop: a function of the loop indices, with the facts at every argument on request (R.best)
            marks = set().union(*[getattr(L, "marks", set()) for L in R.loops])
            if depends(g, marks) or any(depends(x, marks) for x in kv) or depends(self.n, marks):
                raise Unsupported("extreme element depending on earlier iterations")
            cnt, n = self.count(), self.n
            canon = tm._mk("ix", (("best",), n), True)
            sig = (n, tm.subst_b(g, {k: T.of(canon)}), tuple(tm.subst(x, {k: T.of(canon)}) for x in kv), mx)
            f = R.best.get(sig)
            if f is None:
                f = R.best[sig] = Fn.get(f"$best{len(R.best)}", ("best", R.uid, len(R.best)), len(ks), integer=True)

                def inst(args):
                    mp = dict(zip(ks, args))
                    A = mk_app(f, args)
                    at_m = [tm.subst(x, {**mp, k: A}) for x in kv]
                    base = b_or(b_not(b_ge(sub(tm.subst(cnt, mp), ONE))),
                                b_and(b_ge(A), b_ge(sub(sub(tm.subst(n, mp), A), ONE)), tm.subst_b(g, {**mp, k: A})))
                    return base, lambda j: fact(j, at_m, mp)

                R.best_facts[f] = inst
            M = mk_app(f, [T.of(q) for q in ks])
            R.assume(b_ge(M))
            R.assume(b_ge(sub(sub(self.n, M), ONE)))
            R.assume(tm.subst_b(g, {k: M}))
            R.havoc.append("extreme element")
            return self.at(M)
        m = tm._mk("var", (f"$best{len(R.choices)}",), True)
        M = T.of(m)
        R.skolems.add(m)
        R.assume(b_ge(M))
        R.assume(b_ge(sub(sub(self.n, M), ONE)))
        R.assume(tm.subst_b(g, {k: M}))
        R.choices.append((self, M, fact))
        R.havoc.append("extreme element")       # interpretations do not respect the choice
        return self.at(M)


class GSorted:
    def __init__(self, gl, key, reverse):
        self.gl, self.key, self.reverse = gl, key, reverse

    def __getitem__(self, i):
        if i == 0:
            return self.gl.best(self.key, bool(self.reverse))
        raise Unsupported("an inner element of a sorted list of symbolic length")

    def __iter__(self):
        raise Unsupported("iteration over a sorted list of symbolic length")

    __len__ = __bool__ = __iter__


class _NoBranch:
    def decide(self, b):
        raise Unsupported("branch inside a comprehension over a symbolic iterable")


# ================================================================== instrumentation
class _Instr(ast.NodeTransformer):
    def __init__(self, fname):
        self.n = 0
        self.fname = fname
        self.stack = []

    def _names(self, body, target):
        out = []

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                    out.append(n.id)

            def visit_FunctionDef(s, n):
                if n.name not in out:
                    out.append(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass

            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        for b in body:
            V().visit(b)
        V().visit(target) if target is not None else None
        return [x for x in out if not x.startswith("_vcL")]

    def _mutated(self, body):
        """Names whose list value may grow by method calls (append)."""
        out = []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.attr in ("append",):
                    out.append(n.func.value.id)
        return out

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        name = os.path.relpath(self.fname, REPO).removesuffix(".py").replace("/", ".") + "." + ".".join(self.stack)
        self.stack.pop()
        call = ast.parse(f"_vc_fn({name!r})").body[0]
        ast.copy_location(call, node.body[0])
        at = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(at, call)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_For(self, node):
        if node.orelse:
            self.generic_visit(node)
            return node
        self.n += 1
        L = f"_vcL{self.n}"
        names = self._names(node.body, node.target)
        names += [x for x in self._mutated(node.body) if x not in names]
        loads = sorted({n.id for b in [node.iter] + node.body for n in ast.walk(b)
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
        self.generic_visit(node)
        where = f" ({os.path.basename(self.fname)}:{'.'.join(self.stack)}, loop {self.n})"

        # breaks belonging to this loop
        class Brk(ast.NodeTransformer):
            def visit_For(s, n):
                return n

            def visit_While(s, n):
                if getattr(n, "_vc", None):
                    return n
                return n

            def visit_FunctionDef(s, n):
                return n

            def visit_Break(s, n):
                return ast.parse(f"if {L}.brk():\n    if {L}.symbolic: continue\n    break").body[0]

        body = [Brk().visit(b) for b in node.body]
        tgt = node.target
        tup = "(" + "".join(f"{x}, " for x in names) + ")"
        src = f"""
{L} = _vc_loop(None, {names!r}, {where!r}, {loads!r})
while {L}.next(locals()):
    if {L}.symbolic: {tup} = {L}.vals()
    pass
if {L}.symbolic: {tup} = {L}.outs()
"""
        if not names:
            src = src.replace(f"if {L}.symbolic: () = {L}.vals()", "pass").replace(
                f"if {L}.symbolic: () = {L}.outs()", "pass")
        mod = ast.parse(src)
        st = mod.body
        st[0].value.args[0] = node.iter
        w = st[1]
        assign = ast.Assign(targets=[tgt], value=ast.parse(f"{L}.item()", mode="eval").body, lineno=node.lineno)
        w.body = w.body[:1] + [assign] + body
        w._vc = True
        for s in st:
            for x in ast.walk(s):
                if not hasattr(x, "lineno"):
                    continue
            ast.copy_location(s, node)
        return st

    def visit_While(self, node):
        if node.orelse:
            self.generic_visit(node)
            return node
        self.n += 1
        L = f"_vcL{self.n}"
        names = self._names(node.body, None)
        names += [x for x in self._mutated(node.body) if x not in names]
        simple = True
        for b in node.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    simple = False
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    simple = False
                if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, ast.Store):
                    if isinstance(n.value, ast.Name):
                        if n.value.id not in names:
                            names.append(n.value.id)
                    else:
                        simple = False
        self.generic_visit(node)
        where = f" ({os.path.basename(self.fname)}:{'.'.join(self.stack)}, while loop {self.n})"
        tup = "(" + "".join(f"{x}, " for x in names) + ")"
        src = f"""
{L} = _vc_while({names!r}, {where!r}, {simple})
while True:
    {(tup + ' = ') if names else ''}{L}.head(locals())
    if not {L}.test(None): break
"""
        st = ast.parse(src).body
        st[1].body[1].test.operand.args[0] = node.test
        st[1].body += node.body
        st[1]._vc = True
        for x in st:
            ast.copy_location(x, node)
        return st

    def _comp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        inner = ast.ListComp(elt=node.elt, generators=[ast.comprehension(
            target=g.target, iter=ast.parse("(_vc_i,)", mode="eval").body, ifs=g.ifs, is_async=0)])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg("_vc_i")], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), body=inner)
        call = ast.Call(func=ast.Name("_vc_comp", ast.Load()), args=[lam, g.iter, ast.Constant(bool(g.ifs))], keywords=[])
        return ast.copy_location(call, node)

    visit_ListComp = _comp

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.Name("_vc_setlit", ast.Load()), args=node.elts, keywords=[]), node)

    def visit_GeneratorExp(self, node):
        return self._comp(node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or node.generators[0].ifs:
            return node
        g = node.generators[0]
        inner = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=[ast.comprehension(
            target=g.target, iter=ast.parse("(_vc_i,)", mode="eval").body, ifs=[], is_async=0)])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg("_vc_i")], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), body=inner)
        call = ast.Call(func=ast.Name("_vc_dictcomp", ast.Load()), args=[lam, g.iter], keywords=[])
        return ast.copy_location(call, node)


# ================================================================== builtins seen by the code
class _NumMeta(type):
    def __instancecheck__(cls, o):
        return cls._check(o)

    def __call__(cls, *a):
        return cls._conv(*a)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class VFloat(metaclass=_NumMeta):
    _real = float
    __name__ = "float"

    @staticmethod
    def _check(o):
        return isinstance(o, float) or (isinstance(o, Sym) and not o.t.is_int())

    @staticmethod
    def _conv(x=0.0):
        if isinstance(x, Arr):
            x = Sym(tt(x))
        if isinstance(x, Sym):
            return Sym(ar.rt().name(x.t))
        if isinstance(x, SymBool):
            return Sym(mk_ind(x.b))
        if x is NAN:
            return NAN
        if isinstance(x, str) and x.strip().lower().lstrip("+-") == "nan":
            return NAN
        return float(x)


class VInt(metaclass=_NumMeta):
    _real = int
    __name__ = "int"

    @staticmethod
    def _check(o):
        return isinstance(o, int) or (isinstance(o, Sym) and o.t.is_int())

    @staticmethod
    def _conv(x=0, *a):
        if isinstance(x, Arr):
            x = Sym(tt(x))
        if isinstance(x, Sym):
            if x.t.is_int():
                return x
            R = ar.rt()
            if R.decide(b_ge(x.t)):
                return Sym(ar.sfloor(x.t))
            return Sym(ar.sceil(x.t))
        if isinstance(x, SymBool):
            return Sym(mk_ind(x.b))
        return int(x, *a)


def v_len(x):
    if isinstance(x, Arr):
        if not x.ndim:
            raise TypeError("len() of unsized object")
        return dim(x._shape[0])
    if isinstance(x, JList):
        return dim(x.arr._shape[0])
    if isinstance(x, SymList):
        return dim(x.n)
    if isinstance(x, SymRange):
        return dim(sub(x.hi, x.lo))
    if isinstance(x, (Filt, GList)):
        return dim(x.count())
    f = getattr(x, "_vc_len", None)
    if f is not None and not isinstance(x, type):
        return f()
    if isinstance(x, JList):
        return v_len(x.arr)
    return len(x)


def v_range(*a):
    if all(isinstance(x, int) or (isinstance(x, Sym) and x.t.value() is not None) for x in a):
        return range(*[int(x) for x in a])
    if len(a) == 1:
        lo, hi = ZERO, tt(a[0])
    elif len(a) == 2:
        lo, hi = tt(a[0]), tt(a[1])
    else:
        lo, hi, s = tt(a[0]), tt(a[1]), a[2]
        sv_ = tt(s)
        R = ar.rt()
        if sv_.value() == 1:
            return SymRange(lo, hi)
        # one block covers everything
        if R.entails(b_ge(sub(tm.add(lo, sv_), hi))) and R.entails(b_gt(sub(hi, lo))):
            return [Sym(lo)]
        # number of steps: ceil((hi-lo)/s)
        n = ar.sceil(tm.div(sub(hi, lo), sv_))
        R.assume(b_ge(sub(n, ONE))) if R.entails(b_gt(sub(hi, lo))) else None
        return SymList(n, lambda k: Sym(tm.add(lo, mul(k, sv_))))
    v = sub(hi, lo).value()
    if v is not None:
        return [Sym(tm.add(lo, as_t(k))) for k in range(int(v))]
    R = ar.rt()
    if not R.entails(b_ge(sub(hi, lo))):
        if R.decide(b_gt(sub(lo, hi))):
            return range(0)
    return SymRange(lo, hi)


def v_enumerate(it, start=0):
    sl = as_symlist(it)
    if sl is None:
        return enumerate(conc(it), start)
    return SymList(sl.n, lambda k: (Sym(tm.add(k, tt(start))), sl.at(k)))


def v_zip(*its, strict=False):
    sls = [as_symlist(i) for i in its]
    if all(s is None for s in sls):
        return zip(*[conc(i) for i in its])
    ns = []
    for s, i in zip(sls, its):
        if s is not None:
            ns.append(s.n)
        elif hasattr(i, "__len__"):
            ns.append(as_t(len(i)))
        else:
            raise Unsupported("zip of symbolic and concrete iterables")
    n = ns[0]
    for m in ns[1:]:
        if m != n:
            d = sub(m, n)
            if ar.rt().entails(b_ge(d)):
                continue
            if ar.rt().entails(b_ge(tm.neg(d))):
                n = m
                continue
            raise Unsupported("zip of iterables of different symbolic lengths")
    return SymList(n, lambda k: tuple(s.at(k) if s is not None else i[int(k.value())] for s, i in zip(sls, its)))


def v_sum(it, start=0):
    sl = as_symlist(it)
    if sl is None:
        r = start
        for x in conc(it):
            r = r + x
        return r
    k = new_ix(sl.n)
    return Sym(tm.add(tt(start), mk_sum([k], tt(sl.at(T.of(k))))))


def _minmax(mx):
    real = max if mx else min

    def f(*a, key=None, default=_UNBOUND):
        xs = a if len(a) > 1 else conc(a[0])
        if isinstance(xs, GList):
            if default is not _UNBOUND and not xs:
                return default
            return xs.best(key, mx)
        if isinstance(xs, (SymList, SymRange)):
            raise Unsupported("max/min of a symbolic list")
        if isinstance(xs, Arr):
            return ar.np_ext(xs, mx)
        xs = list(xs)
        ks = xs if key is None else [key(x) for x in xs]
        if not any(_symbolic(k) for k in ks):
            kw = {} if default is _UNBOUND else {"default": default}
            return real(xs, key=key, **kw) if key is not None else real(xs, **kw)
        # Python's semantics: first extremal element, comparisons decided
        best, bk = xs[0], ks[0]
        for x, k in zip(xs[1:], ks[1:]):
            if key is None and (_symbolic(best) or _symbolic(x)) and (
                    all(_integer(y) for y in (best, x)) or (ar.RT.merge or in_comp()) and all(_realnum(y) for y in (best, x))):
                # integers, or when the contract asks for it: one term instead of two paths
                best = bk = _int_ext(best, x, mx)
                continue
            if (k > bk) if mx else (k < bk):
                best, bk = x, k
        return best

    return f


def in_comp():
    return bool(ar.RT.loops) and isinstance(ar.RT.loops[-1], _NoBranch)


def _integer(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Sym) and v.t.is_int())


def _realnum(v):
    return isinstance(v, (int, float, Sym)) and not isinstance(v, bool)


def _int_ext(a, b, mx):
    R = ar.RT
    s, t = tt(a), tt(b)
    d = sub(s, t) if mx else sub(t, s)      # the first operand wins where d >= 0
    if R.entails(b_ge(d)):
        return a
    if R.entails(b_ge(tm.neg(d))):
        return b
    return Sym(tm.mk_max(s, t) if mx else tm.mk_min(s, t))


def _symbolic(v):
    if isinstance(v, (Sym, SymBool, Arr)):
        return True
    if isinstance(v, (tuple, list)):
        return any(_symbolic(x) for x in v)
    return False


def v_isinstance(o, c):
    if isinstance(c, tuple):
        return any(v_isinstance(o, x) for x in c)
    if c is float:
        c = VFloat
    elif c is int:
        c = VInt
    if isinstance(o, (Sym,)) and c in (VFloat, VInt):
        return isinstance(o, c)
    if isinstance(o, SymBool):
        return c is bool
    if isinstance(o, (SymList, JList)):
        return c is list or c is _ListLike or c is object
    return isinstance(o, c)


def v_list(x=()):
    if isinstance(x, JList):
        return x
    if isinstance(x, GList):
        return GList(x.n, x._at, x.guard)
    if hasattr(type(x), "_vc_list"):
        return x._vc_list()
    sl = as_symlist(x)
    if sl is not None:
        return SymList(sl.n, sl.at)
    return list(conc(x))


def v_tuple(x=()):
    sl = as_symlist(x)
    if sl is not None:
        return SymList(sl.n, sl.at)
    return tuple(conc(x))


def v_round(x, n=None):
    if isinstance(x, (Sym, Arr)):
        raise Unsupported("round of a symbolic number")
    return round(x) if n is None else round(x, n)


def v_abs(x):
    return abs(x)


def v_all(it):
    sl = as_symlist(it)
    if sl is not None or isinstance(it, Arr):
        if isinstance(it, Arr):
            return bool(ar.np_all(it))
        raise Unsupported("all() over a symbolic iterable")
    return all(conc(it))


def v_any(it):
    if isinstance(it, Arr):
        return bool(ar.np_any(it))
    if as_symlist(it) is not None:
        raise Unsupported("any() over a symbolic iterable")
    return any(conc(it))


def v_sorted(it, key=None, reverse=False):
    if isinstance(it, GList):
        return GSorted(it, key, reverse)
    if as_symlist(it) is not None:
        raise Unsupported("sorted of a symbolic iterable")
    xs = list(conc(it))
    ks = [key(x) for x in xs] if key else xs
    if not any(_symbolic(k) for k in ks):
        return sorted(xs, key=key, reverse=reverse)
    # stable insertion sort with decided comparisons
    out = []
    for x, k in zip(xs, ks):
        p = len(out)
        while p > 0 and ((k > out[p - 1][1]) if reverse else (k < out[p - 1][1])):
            p -= 1
        out.insert(p, (x, k))
    return [x for x, _ in out]


class FakeMath(types.ModuleType):
    pi = None

    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, (Sym, Arr)) for x in a):
                raise Unsupported(f"math.{n} of a symbolic number")
            return f(*a)

        return g


def _fake_math():
    m = FakeMath("math")

    def ceil(x):
        return Sym(ar.sceil(x.t)) if isinstance(x, Sym) else _math.ceil(x)

    def floor(x):
        return Sym(ar.sfloor(x.t)) if isinstance(x, Sym) else _math.floor(x)

    def sqrt(x):
        return sn.sqrt(x) if isinstance(x, Sym) else (Sym(tm.mk_sqrt(as_t(x))) if isinstance(x, int) else _math.sqrt(x))

    def log(x, *b):
        if isinstance(x, Sym):
            return sn.log(x)
        return _math.log(x, *b)

    def isnan(x):
        return x is NAN or (isinstance(x, float) and x != x)

    m.ceil, m.floor, m.sqrt, m.log, m.isnan = ceil, floor, sqrt, log, isnan
    m.fabs = abs
    m.isfinite = lambda x: True if isinstance(x, Sym) else _math.isfinite(x)
    m.pi = Sym(tm.var("PI"))
    return m


# ================================================================== module loader
class World:
    """A private copy of the modules of /repo, loaded from source for symbolic execution."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.np = sn.make()
        self.math = _fake_math()
        self.stubs = {}
        b = dict(vars(builtins))
        b.update({"__import__": self._import, "len": v_len, "range": v_range, "enumerate": v_enumerate, "zip": v_zip,
                  "sum": v_sum, "max": _minmax(True), "min": _minmax(False), "float": VFloat, "int": VInt,
                  "isinstance": v_isinstance, "list": _ListLike, "tuple": _TupleLike, "round": v_round, "all": v_all, "any": v_any,
                  "sorted": v_sorted, "set": _SetLike, "dict": _DictLike, "_vc_setlit": _setlit, "_vc_loop": Loop, "_vc_while": While, "_vc_fn": _enter, "_vc_comp": listcomp, "_vc_dictcomp": dictcomp})
        self.builtins = b
        self.extra = {}           # modules a contract stands in for

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = f"{base}.{name}" if name else base
        root = name.split(".")[0]
        if root in self.extra:
            return self.extra[root]
        if root == "numpy":
            return self.np if not fromlist or name == "numpy" else getattr(self.np, name.split(".")[1])
        if root == "math":
            return self.math
        if root in ("precise", "research"):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != "*" and self._path(f"{name}.{f}"):
                        setattr(m, f, self.load(f"{name}.{f}"))
                return m
            return self.load(root)
        if root in ("scipy", "pandas", "matplotlib", "sklearn"):
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q if os.path.exists(q) else p
        return p + ".py" if os.path.exists(p + ".py") else None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self._path(name)
        if path is None:
            raise ImportError(name)
        if "." in name:
            self.load(name.rpartition(".")[0])   # parents first, as the import system does
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if os.path.isdir(os.path.join(self.repo, *name.split("."))) else name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if "." in name:
            par = self.load(name.rpartition(".")[0])
            setattr(par, name.rpartition(".")[2], m)
        if path.endswith(".py"):
            exec(compile_source(path), m.__dict__)
        return m

    def get(self, dotted):
        mod, _, attr = dotted.rpartition(".")
        return getattr(self.load(mod), attr)

    def replace(self, dotted, f):
        """The callee's contract f in place of its body, wherever the loaded modules refer to it."""
        old = self.get(dotted)
        for m in self.mods.values():
            for k, v in list(m.__dict__.items()):
                if v is old:
                    setattr(m, k, f)
        return old


def _proto(real, name):
    """A builtin type whose constructor leaves contract-side values to themselves."""
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __call__(cls, *a, **k):
            if len(a) == 1 and not k and hasattr(type(a[0]), name):
                return getattr(a[0], name)()
            return real(*[conc(x) for x in a], **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getitem__(cls, x):
            return real[x]

        def __getattr__(cls, n):
            return getattr(real, n)

    return Meta(real.__name__, (), {})


def _setlit(*xs):
    for x in xs:
        f = getattr(type(x), "_vc_setlit", None)
        if f is not None:
            return f(xs)
    return set(xs)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (list, SymList, JList))

    def __call__(cls, x=()):
        return v_list(x)


class _ListLike(metaclass=_ListMeta):
    pass


class _TupMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, tuple)

    def __call__(cls, x=()):
        return v_tuple(x)


class _TupleLike(metaclass=_TupMeta):
    pass


_SetLike = _proto(set, "_vc_set")
_DictLike = _proto(dict, "_vc_dict")
_codes = {}


def compile_source(path):
    key = (path, os.stat(path).st_mtime_ns)
    c = _codes.get(key)
    if c is None:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = _Instr(path).visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, "exec", dont_inherit=True)
        _codes[key] = c
    return c


# ================================================================== exploration
class Path:
    def __init__(self, R, value=None, exc=None, unsupported=None):
        self.R, self.value, self.exc, self.unsupported = R, value, exc, unsupported


FUNCTIONS = set()


def _enter(name):
    FUNCTIONS.add(name)


def explore(fn, max_paths=64, check_defined=False, deadline=None, on_path=None):
    """Run fn(runtime) on every feasible path."""
    work = [[]]
    out = []
    while work:
        if len(out) >= max_paths:
            raise Unsupported(f"more than {max_paths} paths")
        if deadline is not None and time.time() > deadline:
            raise Unsupported("out of time")
        script = work.pop()
        R = Runtime(script, check_defined)
        # the same fresh names on every run: a prefix shared by two paths makes the same terms (and the
        # same solver questions).  Nothing with a free index outlives a run.
        tm._uid = itertools.count()
        old = ar.RT
        ar.RT = R
        tm._nonneg_hook[0] = lambda t: R.ctx.known_nonneg(t)
        tm._fact_hook[0] = R.ctx.entails
        tm._range_hook[0] = lambda t, n: R.ctx.entails(b_ge(t)) and R.ctx.entails(b_ge(sub(sub(n, ONE), t)))
        tm._range_ne = lambda t: False
        p = Path(R)
        try:
            p.value = fn(R)
            if R.loops:
                raise Unsupported("a loop of symbolic length is left early")
        except PathAbort:
            p = None
        except Unsupported as ex:
            p.unsupported = ex
        except RecursionError as ex:
            p.unsupported = Unsupported("recursion")
        except Exception as ex:
            if R.loops:
                p.unsupported = Unsupported(f"{type(ex).__name__} inside a summarised loop: {ex}")
            else:
                p.exc = ex
        finally:
            ar.RT = old
        work.extend(R.pending)
        if p is not None:
            if on_path is not None:
                on_path(p)
            out.append(p)
    return out
