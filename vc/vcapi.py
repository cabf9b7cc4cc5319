"""Contract language: symbolic inputs, generic states, obligations, and the runner.

A contract is a Python function ``body(h)`` executed on every path of the code it calls, with symbolic
inputs of symbolic size.  ``h.require`` states preconditions, ``h.eq/ge/psd/true`` the postconditions; each
becomes an obligation on each path.  ``Gen`` supplies the arbitrary reachable state of an estimator: a
state constrained only by the invariants that are themselves proved inductive on the current source.
"""
from __future__ import annotations

import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import arrays as ar
from . import evalt
from . import exec as ex
from . import solver as sv
from . import symnp as sn
from . import terms as tm
from .arrays import NAN, Arr, JList, Sym, SymBool, SymList, as_arr, bb, num, tt
from .report import Obligation, Report
from .terms import B, FALSE, Fn, ONE, T, TRUE, Unsupported, ZERO, as_t, b_and, b_eq, b_ge, b_gt, b_not, b_or, mk_app, \
    mk_ind, mk_sum, mul, new_ix, sub

EPS_CHECK = 1e-6


# raised when the code uses something the symbolic values do not model; a genuine one shows in the bounded runs
MODEL_ERRORS = (AttributeError, TypeError, NameError, NotImplementedError)


class Timeout(Unsupported):
    pass


EXPIRED = [False]


def _alarm(sig, frame):
    EXPIRED[0] = True
    raise Timeout("time limit")


def hdim(r):
    return r.randint(1, 3)


class H:
    """One path of one contract."""

    def __init__(self, R, W, prover, name):
        self.R, self.W, self.P, self.name = R, W, prover, name
        self.obls = []       # (name, status, how, detail)
        self.reached = True
        self.reach = None    # does any input take this path? (asked only when an obligation fails by execution)
        self.ghost = []

    # ---- symbols
    def int(self, name, lo=None, hi=None, sample=None):
        v = Sym(tm.var(name, integer=True))
        if lo is not None:
            self.R.assume(b_ge(sub(v.t, as_t(lo))))
        if hi is not None:
            self.R.assume(b_ge(sub(tt(hi), v.t)))
        self.R.hints[name] = sample or (lambda r: r.randint(lo if lo is not None else -3, (lo or 0) + 3))
        return v

    def dim(self, name="p", lo=1):
        return self.int(name, lo, sample=lambda r: r.randint(lo, max(3, lo)))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, sample=None):
        v = Sym(tm.var(name))
        if lo is not None:
            d = sub(v.t, tt(lo))
            self.R.assume(b_gt(d) if lo_open else b_ge(d))
        if hi is not None:
            d = sub(tt(hi), v.t)
            self.R.assume(b_gt(d) if hi_open else b_ge(d))
        if sample is None:
            a = -3.0 if lo is None else float(lo)
            b = (a + 6.0 if hi is None else float(hi))
            sample = lambda r: r.choice([r.uniform(a, b), r.uniform(a, b), b if not hi_open and hi is not None else r.uniform(a, b),
                                         a if not lo_open and lo is not None else r.uniform(a, b)])
        self.R.hints[name] = sample
        return v

    def rate(self, name="r"):
        """A decay rate in (0, 1]."""
        return self.real(name, 0, 1, lo_open=True,
                         sample=lambda r: r.choice([0.02, 0.05, 0.1, 0.3, 0.5, 1.0, r.uniform(0.003, 1)]))

    def vec(self, name, n, **props):
        f = Fn.get(name, ("h", name), 1, **props)
        return Arr.make((n,), lambda i: mk_app(f, [i]))

    def mat(self, name, n, m=None, sym=False, psd=False, pd=False, entry=None):
        """entry(i, j): facts required of every entry."""
        f = Fn.get(name, ("h", name, sym, psd, pd), 2, sym=sym or psd or pd, **({"psd": True} if psd or pd else {}),
                   **({"pd": True} if pd else {}))
        if entry is not None:
            f.props["entry"] = lambda i, j: [c if isinstance(c, B) else bb(c) for c in entry(Sym(i), Sym(j), Sym(mk_app(f, [i, j])))]
        return Arr.make((n, n if m is None else m), lambda i, j: mk_app(f, [i, j]))

    def rows(self, name, n, p):
        return self.mat(name, n, p)

    def index(self, n, name=None):
        return Sym(T.of(new_ix(tt(n))))

    def require(self, c):
        b = bb(c) if not isinstance(c, B) else c
        if b is FALSE:
            raise ex.PathAbort()
        self.R.assume(b)

    def feasible(self):
        return not self.R.ctx.infeasible()

    # ---- obligations
    inloop = False       # obligations inside the body of a summarised loop are meant

    def _record(self, name, st, how, detail=""):
        if self.R.loops and not self.inloop:
            raise Unsupported("a loop of symbolic length is left early")
        if st == "refuted" and how != "counterexample":
            st, how = self._on_real_path(how)
        self.obls.append((name, st, how, detail))
        return st == "proved"

    def _on_real_path(self, how):
        """A failure seen by execution counts when some input takes this path."""
        facts = list(self.R.ctx.facts)
        if self.reach is None or self.reach_at != len(facts):
            self.reach_at = len(facts)
            if self.R.ctx.infeasible(timeout=5000):
                self.reach = "no"
            else:
                self.reach = "yes" if evalt.find(facts, lambda it: True, self.R.hints, defs=self.R.ctx.defs)[0] is not None else "open"
        return {"no": ("proved", "no input takes this path"), "yes": ("refuted", how),
                "open": ("unknown", how + ", on a path no input is known to take")}[self.reach]

    def _refine(self, name, goal, what, terms=()):
        """Turn 'not proved' into refuted (with an interpretation) or unknown."""
        if self.R.havoc:
            return "unknown", "summarised loop: " + "; ".join(self.R.havoc[:2]), what
        facts = list(self.R.ctx.facts)
        it, met = evalt.find(facts, goal, self.R.hints, defs=self.R.ctx.defs, terms=terms)
        if it is not None:
            return "refuted", "counterexample", f"{what}; counterexample: {evalt.show(it)}; path: {self.R.trace[:6]}"
        return "unknown", f"no counterexample in {met} interpretations", what

    def zero(self, name, t):
        """obligation t == 0"""
        t = tt(t)
        st, how = self.R.ctx.zero(t)
        if st == "proved":
            return self._record(name, st, how)

        def goal(it):
            scale = max([1.0] + [abs(it.ev(T({m: c}), {})) for m, c in t.m.items()])
            return abs(it.ev(t, {})) > EPS_CHECK * scale
        st, how, d = self._refine(name, goal, f"{str(t)[:600]} == 0", [t])
        return self._record(name, st, how, d)

    def eq(self, name, a, b):
        """Equality of scalars or arrays (shape and every entry)."""
        if isinstance(a, (list, tuple)) or isinstance(a, (JList, SymList)):
            a = as_arr(a)
        if isinstance(b, (list, tuple)) or isinstance(b, (JList, SymList)):
            b = as_arr(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = as_arr(a), as_arr(b)
            if a.ndim != b.ndim:
                return self._record(name, "refuted", "shape", f"{a.ndim}-d against {b.ndim}-d")
            for x, y in zip(a._shape, b._shape):
                if x != y and self.R.ctx.zero(sub(x, y))[0] != "proved":
                    st, how, d = self._refine(name, lambda it: abs(it.ev(sub(x, y), {})) > 0.5, f"shape {x} == {y}")
                    return self._record(name, st, how, d)
            d0 = a._shape[0].value() if a.ndim else None
            if d0 is not None and 1 < d0 <= 8:      # a short concrete axis: every slice on its own
                return all([self.eq(f"{name}[{q}]", a[q], b[q]) for q in range(int(d0))])
            idx = [ZERO if d.value() == 1 else T.of(new_ix(d)) for d in a._shape]
            u, v = a.at(*idx), b.at(*idx)
            if u is NAN or v is NAN:
                return self._record(name, "proved" if u is v else "refuted", "nan", f"{u} against {v}")
            return self.zero(name, sub(num(u), num(v)))
        return self.zero(name, sub(tt(a), tt(b)))

    def ge(self, name, t):
        t = tt(t)
        st, how = self.R.ctx.ge(t)
        if st == "proved":
            return self._record(name, st, how)

        def goal(it):
            scale = max([1.0] + [abs(it.ev(T({m: c}), {})) for m, c in t.m.items()])
            return it.ev(t, {}) < -EPS_CHECK * scale
        st, how, d = self._refine(name, goal, f"{str(t)[:600]} >= 0", [t])
        return self._record(name, st, how, d)

    def entry_ge(self, name, a, lo=0):
        a = as_arr(a)
        idx = [T.of(new_ix(d)) for d in a._shape]
        return self.ge(name, sub(num(a.at(*idx)), tt(lo)))

    def sum_ge(self, name, a, hint=None):
        """A sum of non-negative entries is non-negative: an arbitrary entry is proved so (after the lemmas that
        ``hint`` proves about its indices), the sum may then be used."""
        a = as_arr(a)
        idx = [T.of(new_ix(d)) for d in a._shape]
        if hint is not None:
            hint(*[Sym(t) for t in idx])
        if not self.ge(name, num(a.at(*idx))):
            return False
        vs = [new_ix(d) for d in a._shape]
        self.R.assume(b_ge(tm.mk_sum(vs, num(a.at(*[T.of(v) for v in vs])))))
        return True

    def lemma(self, name, t):
        """t >= 0 is proved and may then be used."""
        if not self.ge(name, t):
            return False
        self.R.assume(b_ge(tt(t)))
        return True

    def true(self, name, c):
        if isinstance(c, bool):
            return self._record(name, "proved" if c else "refuted", "evaluation", "" if c else "false on this path " + str(self.R.trace[:6]))
        b = bb(c) if not isinstance(c, B) else c
        st, how = self.R.ctx.holds(b)
        if st == "proved":
            return self._record(name, st, how)
        st, how, d = self._refine(name, lambda it: not it.b(b, {}), str(b)[:600])
        return self._record(name, st, how, d)

    def fact(self, name, ok, detail=""):
        """A structural fact decided by execution (identity, type, count)."""
        return self._record(name, "proved" if ok else "refuted", "execution", detail)

    def sym(self, name, a):
        a = as_arr(a)
        return self.eq(name, a, a.T)

    def psd(self, name, a, sym=True):
        a = as_arr(a)
        if sym and not self.sym(name + " (symmetric)", a):
            return False
        if sn.known_pd(a):
            return self._record(name, "proved", "positive definite")
        q = sn.quad_form(a)
        if self.R.prove_ge(q):
            return self._record(name, "proved", "structural: sum of squares / semi-definite kernels")
        st, how = self.R.ctx.ge(q)
        if st == "proved":
            return self._record(name, st, how)
        st, how, d = self._refine(name, lambda it: _min_eig(it, a) < -EPS_CHECK, f"x'Ax >= 0 for A(i,j) = "
                                  f"{str(a.at(T.of(new_ix(a._shape[0])), T.of(new_ix(a._shape[0]))))[:500]}")
        return self._record(name, st, how, d)

    def ind(self, i, j):
        """1 when i == j, else 0."""
        return Sym(mk_ind(b_eq(sub(tt(i), tt(j)))))

    def psd_at(self, a, i, j):
        """Instantiates a proved semi-definiteness of a at the vectors e_i + e_j, e_i - e_j and e_i."""
        i, j = tt(i), tt(j)
        x, y, z = num(a.at(i, i)), num(a.at(j, j)), num(a.at(i, j))
        s = tm.add(x, y)
        for t in (tm.add(s, tm.add(z, z)), sub(s, tm.add(z, z)), x, y):
            self.R.assume(b_ge(t))

    def spectrum(self, name, n, lo, hi):
        """Any symmetric matrix with every eigenvalue in [lo, hi], lo > 0."""
        a = self.mat(name, n, pd=True)
        key, par, _ = sn.content_key(a)
        self.R.spectra[(key, tuple(par))] = (tt(lo), tt(hi))
        self.R.havoc.append("bounded spectrum")     # interpretations do not respect it: no refutation from them
        return a

    def invertible(self, name, a, b):
        """Obligations: a is semi-definite and b is its inverse; then its eigenvalues are positive (spectral theorem)."""
        ok = self.psd(name + " is semi-definite", a)
        ok &= self.eq(name + " has an inverse", a @ b, Arr.make(a._shape, lambda i, j: mk_ind(b_eq(sub(i, j)))))
        if ok:
            key, par, _ = sn.content_key(a)
            self.R.pos_spectra.add((key, tuple(par)))
            self.R.havoc.append("positive spectrum")
        return ok

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            return self._record(name, "proved", "execution")
        except Unsupported:
            raise
        except Exception as e:
            return self._record(name, "refuted", "execution", f"raised {type(e).__name__}: {e}")
        return self._record(name, "refuted", "execution", "no exception raised")


def _min_eig(it, a):
    import numpy as np

    n = it.i(a._shape[0])
    M = np.zeros((n, n))
    vs = [new_ix(d) for d in a._shape]
    v = num(a.at(*[T.of(x) for x in vs]))
    for i in range(n):
        for j in range(n):
            M[i, j] = it.ev(v, {vs[0]: i, vs[1]: j})
    return float(np.linalg.eigvalsh((M + M.T) / 2).min()) / max(1.0, float(abs(M).max()))


# ================================================================== the runner
class Prover:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.checks = []
        self.report = Report(pid)

    def check(self, name, body, max_paths=80, seconds=None, defined=False, gens=(), merge=False):
        self.checks.append(dict(name=name, body=body, max_paths=max_paths,
                                seconds=seconds or (25 if self.tier == "quick" else 120),
                                defined=defined, gens=gens, merge=merge))

    def run(self, procs=8):
        rep = self.report
        t0 = time.time()
        gens = []
        for c in self.checks:
            gens += [g for g in c["gens"] if g not in gens]
        lim = 60 if self.tier == "quick" else 300
        jobs = [({"name": f"{g.name}: invariants", "gen": g, "seconds": lim}, self.pid, self.tier) for g in gens]
        mapper = (lambda js: [_job(*j) for j in js]) if os.environ.get("VC_SERIAL") else (lambda js: _fork_map(js, procs))
        bad = {}
        for g, (c, _, _), r in zip(gens, jobs, mapper(jobs)):
            if r is None or r.get("inv") is None:
                bad[g] = (r or {}).get("why", "worker ended")
            else:
                g.inv = r["inv"]
            if r is not None:
                self._add(c, r)
        ok = [c for c in self.checks if not any(g in bad for g in c["gens"])]
        for c in self.checks:
            for g in c["gens"]:
                if g in bad:
                    rep.obligations.append(Obligation(c["name"], c["name"], "unsupported", "state invariants", 0, str(bad[g])))
        for c, r in zip(ok, mapper([(c, self.pid, self.tier) for c in ok])):
            if r is None:
                rep.obligations.append(Obligation(c["name"], c["name"], "unsupported", "worker ended", 0, ""))
                continue
            self._add(c, r)
        rep.stats["proof_wall_seconds"] = round(time.time() - t0, 2)
        return rep

    def _add(self, c, r):
        rep = self.report
        for (n, st, how, detail, secs) in r["obls"]:
            rep.obligations.append(Obligation(n, c["name"], st, how, secs, detail))
        rep.functions |= set(r["functions"])
        rep.paths += r["paths"]
        if "gen" not in c:
            rep.vacuity.append((c["name"], r["vacuous"]))
        for k, v in r["stats"].items():
            rep.stats[k] = rep.stats.get(k, 0) + v


def _job(c, pid, tier):
    return _infer(c, pid, tier) if "gen" in c else _one(c, pid, tier)


def _infer(c, pid, tier):
    """The inductive invariants of one configuration, proved on the current source."""
    sys.setrecursionlimit(20000)
    for k in sv.STATS:
        sv.STATS[k] = 0
    ex.FUNCTIONS.clear()
    g = c["gen"]
    t0 = time.time()
    out = {"obls": [], "functions": [], "paths": 0, "vacuous": False, "stats": {}, "inv": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, c["seconds"], 1.0)
    try:
        g.infer(ex.World())
        out["inv"] = g.inv
    except Exception as e:
        if not isinstance(e, Unsupported) and not EXPIRED[0]:
            raise
        out["why"] = f"{e} {_where(traceback.extract_tb(e.__traceback__))}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    dt = time.time() - t0
    if out["inv"] is not None:
        names = [f"{g.name} invariant {'.'.join(map(str, path))}: {x}" for path, cs in g.inv.items() for x in sorted(cs)]
        out["obls"] = [(n, "proved", "induction (initial observation and every step)", "", dt / len(names)) for n in names]
    out["functions"], out["stats"] = sorted(ex.FUNCTIONS), dict(sv.STATS)
    return out


def _fork_map(jobs, procs):
    """Run each job in its own forked process (fresh term tables, hard time limit)."""
    out = [None] * len(jobs)
    running = {}
    nxt = 0
    ctx = mp.get_context("fork")
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < procs:
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(jobs[nxt], b))
            p.start()
            b.close()
            running[nxt] = (p, a, time.time() + jobs[nxt][0]["seconds"] * 2 + 20)
            nxt += 1
        for k, (p, a, end) in list(running.items()):
            if a.poll(0.005):
                try:
                    out[k] = a.recv()
                except EOFError:
                    pass
                p.join()
                del running[k]
            elif not p.is_alive():
                p.join()
                del running[k]
            elif time.time() > end:
                p.kill()
                p.join()
                del running[k]
    return out


def _child(job, conn):
    try:
        conn.send(_job(*job))
    except Exception as e:
        traceback.print_exc()
        try:
            conn.send({"obls": [(job[0]["name"], "unsupported", "engine error", repr(e)[:500], 0)], "functions": [],
                       "paths": 0, "vacuous": False, "stats": {}})
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def _one(c, pid, tier):
    sys.setrecursionlimit(20000)
    for k in sv.STATS:
        sv.STATS[k] = 0
    ex.FUNCTIONS.clear()
    t0 = time.time()
    W = ex.World()
    obls = []
    npaths = 0
    vac = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, c["seconds"], 1.0)
    hs = []

    def run(R):
        h = H(R, W, None, c["name"])
        R.merge = c["merge"]
        hs.append(h)
        return c["body"](h)

    try:
        paths = ex.explore(run, c["max_paths"], c["defined"], on_path=lambda p: p.__dict__.update(h=hs[-1] if hs else None))
        for p in paths:
            npaths += 1
            h = p.h
            for (n, st, how, d) in h.obls:
                obls.append((n, st, how, d, 0))
            for (w, st, how, d) in p.R.def_obls:
                if st == "refuted":
                    st = "unknown"
                obls.append(("defined: " + w, st, how, d, 0))
            if p.unsupported is not None:
                tb = traceback.extract_tb(p.unsupported.__traceback__)
                obls.append((c["name"], "unsupported", "engine", f"{p.unsupported} {_where(tb)}", 0))
            elif p.exc is not None:
                if p.R.ctx.infeasible():
                    continue
                it, met = evalt.find(list(p.R.ctx.facts), lambda it: True, p.R.hints, defs=p.R.ctx.defs)
                tb = traceback.extract_tb(p.exc.__traceback__)
                st = "refuted" if it is not None and not p.R.havoc else "unknown"
                if EXPIRED[0] or isinstance(p.exc, MODEL_ERRORS) or not any(f.filename.startswith(ex.REPO) for f in tb):
                    st = "unsupported"
                obls.append((c["name"] + ": no exception", st, "execution",
                             f"{type(p.exc).__name__}: {p.exc} {_where(tb)} path {p.R.trace[:6]}"
                             + (f" at {evalt.show(it)}" if it is not None else ""), 0))
            else:
                vac = vac or not p.R.ctx.infeasible()
    except Exception as e:
        if not isinstance(e, Unsupported) and not EXPIRED[0]:
            raise
        obls.append((c["name"], "unsupported", "engine", f"{e} {_where(traceback.extract_tb(e.__traceback__))}", 0))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if EXPIRED[0]:       # what was concluded while the time limit was firing may be incomplete
        obls = [o if o[1] == "proved" else (o[0], "unsupported", "time limit", o[3], 0) for o in obls]
    if not obls:
        obls.append((c["name"], "unknown", "no path produced an obligation", "", 0))
    if not vac and not any(o[1] in ("refuted", "unsupported", "unknown") for o in obls):
        obls.append((c["name"] + ": reachable", "unknown", "every path infeasible", "", 0))
    dt = time.time() - t0
    obls = [o[:4] + (dt / max(1, len(obls)),) for o in obls]
    return {"obls": obls, "functions": sorted(ex.FUNCTIONS), "paths": npaths, "vacuous": vac, "stats": dict(sv.STATS),
            "seconds": dt}


def _where(tb):
    fs = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb]
    rp = [x for x, f in zip(fs, tb) if f.filename.startswith(ex.REPO)]
    return f"[{' < '.join((rp[-2:] + fs[-3:]))}]"


# ================================================================== generic reachable states
def leaves(v, path=()):
    """(path, value) of the leaves of a state tree."""
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif type(v) in (list, tuple):
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))
    elif isinstance(v, SymList):
        k = tm._mk("ix", (("leaf", path), v.n), True)
        for q, x in leaves(v.at(T.of(k)), path + ("*",)):
            yield q, x
    else:
        yield path, v


def rebuild(v, f, path=(), par=()):
    """The same tree with every leaf replaced by f(path, leaf, par)."""
    if isinstance(v, dict):
        return {k: rebuild(x, f, path + (k,), par) for k, x in v.items()}
    if type(v) in (list, tuple):
        return type(v)(rebuild(x, f, path + (k,), par) for k, x in enumerate(v))
    if isinstance(v, SymList):
        return SymList(v.n, lambda k: rebuild(v.at(k), f, path + ("*",), par + (k,)))
    return f(path, v, par)


# leaves that are expected to change: "never changes" is not even tried for them (a weaker start is sound)
VARYING = {"n_samples", "mean", "cov", "var", "C", "h", "Q", "V", "quadrants", "pi_bar", "pi_cross", "sbar"}
CANDS = ("const", "int", "ge1", "ge0", "le1", "nonneg", "sym", "psd", "trace", "count")


def gen_leaf(name, v, inv, par, R, prefix="s"):
    """A fresh value satisfying the invariants inv, shaped like v."""
    if "const" in inv:
        return v
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    nm = f"{prefix}.{name}"
    if isinstance(v, (Sym, int, float)):
        integer = "int" in inv
        if par:
            f = Fn.get(nm, ("gen", nm, integer), len(par), integer=integer)
            s = Sym(mk_app(f, par))
        else:
            s = Sym(tm.var(nm, integer=integer))
            lo = 1 if "ge1" in inv else 0
            if integer:
                R.hints[nm] = lambda r: r.choice([r.randint(lo, 12), r.randint(lo, 320), r.randint(lo, 5)])
            else:
                R.hints[nm] = (lambda r: abs(r.gauss(0, 2))) if "ge0" in inv else (lambda r: r.gauss(0, 2))
        if "ge1" in inv:
            R.assume(b_ge(sub(s.t, ONE)))
        if "ge0" in inv:
            R.assume(b_ge(s.t))
        if "le1" in inv:
            R.assume(b_ge(sub(ONE, s.t)))
        return s
    if isinstance(v, Arr):
        n = v.ndim
        props = {}
        if "nonneg" in inv:
            props["nonneg"] = True
        if "psd" in inv:
            props["psd"] = True
        sy = bool({"sym", "psd"} & set(inv)) and n == 2
        f = Fn.get(nm, ("gen", nm, n, len(par), tuple(sorted(props)), sy), n + len(par), sym=sy, **props)
        a = Arr.make(v._shape, lambda *i: mk_app(f, tuple(par) + i))
        if "trace" in inv and not par:
            tr = ar.np_trace(a).t
            R.assume(b_eq(sub(tr, ar.np_trace(v).t)))
        return a
    if isinstance(v, JList):
        return JList(gen_leaf(name, v.arr, inv, par, R, prefix))
    raise Unsupported(f"state leaf {name} of type {type(v).__name__}")


def leaf_holds(cand, v, base, R, count=None):
    """Does candidate invariant hold of leaf value v (base: the value it started from)?"""
    if cand == "count":
        return count is not None and isinstance(v, (Sym, int)) and R.ctx.zero(sub(tt(v), tt(count)))[0] == "proved"
    if isinstance(v, JList):
        v = v.arr
    if isinstance(base, JList):
        base = base.arr
    if cand == "const":
        if v is base:
            return True
        if isinstance(v, (Sym, int, float)) and not isinstance(v, bool) and isinstance(base, (Sym, int, float)):
            return R.ctx.zero(sub(tt(v), tt(base)))[0] == "proved"
        if isinstance(v, Arr) and isinstance(base, Arr) and v.ndim == base.ndim:
            if v._shape != base._shape:
                return False
            i = [T.of(new_ix(d)) for d in v._shape]
            return v.at(*i) == base.at(*i)
        return not isinstance(v, (Sym, Arr)) and v == base
    if isinstance(v, (Sym, int, float)) and not isinstance(v, bool):
        t = tt(v)
        if cand == "int":
            return t.is_int()
        if cand == "ge1":
            return R.ctx.ge(sub(t, ONE))[0] == "proved"
        if cand == "ge0":
            return R.ctx.ge(t)[0] == "proved"
        if cand == "le1":
            return R.ctx.ge(sub(ONE, t))[0] == "proved"
        return False
    if isinstance(v, Arr) and v.store.dtype == "f":
        i = [T.of(new_ix(d)) for d in v._shape]
        if cand == "nonneg":
            return v.ndim == 1 and R.ctx.ge(num(v.at(*i)))[0] == "proved"
        if v.ndim != 2 or v._shape[0] != v._shape[1]:
            return False
        if cand == "sym":
            return sn.is_sym(v)
        if cand == "psd":
            return sn.known_psd(v)
        if cand == "trace":
            return R.ctx.zero(sub(ar.np_trace(v).t, ar.np_trace(base).t))[0] == "proved"
    return False


def _cands_for(v):
    if isinstance(v, JList):
        v = v.arr
    if isinstance(v, (Sym, int, float)) and not isinstance(v, bool):
        return ["const", "int", "ge1", "ge0", "le1"]
    if isinstance(v, Arr):
        if v.ndim == 1:
            return ["const", "nonneg"]
        if v.ndim == 2:
            return ["const", "sym", "psd", "trace"]
    return ["const"]


class Gen:
    """Arbitrary reachable states of one estimator configuration.

    ``make(h)`` builds the unfitted estimator (with symbolic parameters) and returns (est, p)."""

    def __init__(self, make, name="state"):
        self.make = make
        self.name = name
        self.inv = None
        self.iters = 0

    def first(self, h):
        e, p = self.make(h)
        e.partial_fit(h.rows("x0", 1, p))
        return e, p

    def install(self, h, e, inv, prefix="s"):
        st = e._state
        self.base = st

        count = []

        def f(path, v, par):
            if "count" in inv.get(path, ()):
                if not count:
                    count.append(gen_leaf("n_samples", st["n_samples"], inv.get(("n_samples",), ()), (), h.R, prefix))
                return count[0]
            if path == ("n_samples",) and count:
                return count[0]
            return gen_leaf(".".join(map(str, path)), v, inv.get(path, ()), par, h.R, prefix)

        e._state = rebuild(st, f)
        if getattr(e, "_prev_x", None) is not None:
            e._prev_x = h.vec(prefix + ".prev_x", e._prev_x._shape[0])
        return e

    def infer(self, W, max_paths=80):
        """Greatest inductive set of candidate invariants (base and step proved on every path)."""
        inv = {}
        bases = []

        def base(R):
            h = H(R, W, None, "base")
            e, p = self.first(h)
            for path, v in leaves(e._state):
                ok = {c for c in _cands_for(v) + (["count"] if len(path) > 1 else [])
                      if (c == "const" and path[-1] not in VARYING) or c != "const" and leaf_holds(c, v, v, R, e._state.get("n_samples"))}
                inv[path] = (inv[path] & ok) if path in inv else ok
            return True

        ps = ex.explore(base, max_paths)
        self._ok(ps)
        while True:
            self.iters += 1
            bad = []

            def step(R):
                h = H(R, W, None, "step")
                e, p = self.first(h)
                b0 = dict(leaves(e._state))
                self.install(h, e, inv)
                e.partial_fit(h.rows("x", 1, p))
                for path, v in leaves(e._state):
                    if path not in inv:
                        raise Unsupported(f"state gains {path}")
                    for c in list(inv[path]):
                        if (path, c) in bad:
                            continue
                        if not leaf_holds(c, v, b0[path], R, e._state.get("n_samples")):
                            bad.append((path, c))
                return True

            self._ok(ex.explore(step, max_paths))
            if not bad:
                break
            # drop 'const' first: the other failures may only follow from it
            consts = [x for x in bad if x[1] == "const"]
            for path, c in consts or bad:
                inv[path].discard(c)
        self.inv = inv
        return inv

    def _ok(self, ps):
        for p in ps:
            if p.unsupported is not None:
                raise p.unsupported
            if p.exc is not None and not p.R.ctx.infeasible():
                raise Unsupported(f"{type(p.exc).__name__}: {p.exc} while inferring invariants "
                                  + _where(traceback.extract_tb(p.exc.__traceback__)))

    def state(self, h):
        """An estimator in an arbitrary reachable fitted state."""
        if self.inv is None:
            raise Unsupported("invariants not inferred")
        e, p = self.first(h)
        self.install(h, e, self.inv)
        return e, p
