"""Facts and provers: entailment with z3 over abstracted atoms, structural sign reasoning for
symbolic sums (squares, positive semi-definite kernels), equality by normal form."""
from __future__ import annotations

import itertools
import subprocess
import tempfile
import time

import z3

from . import terms as tm
from .terms import B, FALSE, ONE, T, TRUE, ZERO, as_t, b_eq, b_ge, b_gt, b_not, mk_app, mul, neg, sub

STATS = {"z3_queries": 0, "z3_seconds": 0.0, "normal_form": 0,
         "structural": 0}


_CHECKED = {}    # (facts, extra) -> (answer, timeout)


class Ctx:
    """Assumptions in force on one path."""

    def __init__(self):
        self.facts = []          # list of B
        self.defs = {}           # ghost variable -> the term it names
        self._ent = {}
        self._nn = {}
        self.z3_timeout = 1500
        self.pool = None
        self._fact_vars = set()

    def assume(self, b):
        if b is TRUE:
            return
        if b.kind == "and":
            for x in b.args:
                self.assume(x)
            return
        if b not in self.facts:
            self.facts.append(b)
            self._fact_vars |= b.vars()
            self._ent = {k: v for k, v in self._ent.items() if v}
            self._nn = {k: v for k, v in self._nn.items() if v}

    # ------------------------------------------------------------ entailment
    def entails(self, b, timeout=None):
        if b is TRUE:
            return True
        if b is FALSE:
            return self.infeasible()
        if b in self.facts:
            return True
        r = self._ent.get(b)
        if r is None:
            self._ent[b] = False  # recursion guard
            r = self._quick(b)
            if not r:
                r = self.check([b_not(b)], timeout) == "unsat"
            self._ent[b] = r
        return r

    def _quick(self, b):
        if b.kind == "and":
            return all(self.entails(x) for x in b.args)
        if b.kind == "ge" and len(b.args[0].m) <= 12 and self.structural_nonneg(b.args[0]):
            STATS["structural"] += 1
            return True
        if b.kind == "not" and b_not(b) in self.facts:
            return False
        return False

    def infeasible(self, extra=(), timeout=None):
        return self.check(list(extra), timeout) == "unsat"

    def check(self, extra, timeout=None):
        """satisfiability of facts and extra, with atom lemmas: 'sat' | 'unsat' | 'unknown'."""
        timeout = timeout or self.z3_timeout
        key = (tuple(self.facts), tuple(extra))
        hit = _CHECKED.get(key)
        if hit is not None and (hit[0] != "unknown" or hit[1] >= timeout):
            STATS["z3_reused"] = STATS.get("z3_reused", 0) + 1
            return hit[0]
        enc = Encoder(self)
        goal = [enc.b(x) for x in extra]
        facts = [enc.b(x) for x in self.facts]
        enc.close()
        cons = goal + facts + enc.extra
        r, _ = solve(cons, timeout)
        _CHECKED[key] = (r, timeout)
        return r

    # ------------------------------------------------------------ signs
    def structural_nonneg(self, t):
        return all(c > 0 and self.mono_nonneg(mono) for mono, c in t.m.items())

    def mono_nonneg(self, mono):
        return all(e % 2 == 0 or self.atom_nonneg(a) for a, e in mono)

    def atom_nonneg(self, a):
        r = self._nn.get(a)
        if r is None:
            self._nn[a] = False
            r = self._atom_nonneg(a)
            self._nn[a] = r
        return r

    def _atom_nonneg(self, a):
        k = a.kind
        if k in ("ind", "cind", "pos", "npos", "sqrt", "ix", "abs"):
            return True
        if k == "bv":
            return True
        if k == "app":
            fn, args = a.args
            if fn.props.get("nonneg"):
                return True
            if fn.props.get("psd") and args[-1] == args[-2]:
                return True
        if k == "inv":
            t = a.args[0]
            return self.structural_nonneg(t) or self._fact_sign(t) or self.entails(b_ge(t))
        if k == "sum":
            if self.sum_nonneg(a):
                return True
        if k == "pow":
            return self.known_nonneg(a.args[0])
        if k == "var" or k == "app" or k == "sum":
            t = T.of(a)
            if self._fact_sign(t):
                return True
            if k != "sum":
                return self.check([b_gt(neg(t))], 300) == "unsat"
        return False

    def _fact_sign(self, t):
        g, p = b_ge(t), b_gt(t)
        return g in self.facts or p in self.facts

    def known_nonneg(self, t):
        if t.is_const():
            return t.value() >= 0
        if len(t.m) > 30:
            return False
        if self.structural_nonneg(t):
            return True
        if self._fact_sign(t):
            return True
        t = self._canonical(t)
        g = b_ge(t)
        if g not in self._ent and self.pool is not None and self.pool.negative(self.facts, t):
            STATS["sampled"] = STATS.get("sampled", 0) + 1
            self._ent[g] = False
            return False
        return self.entails(g, 400)

    def _canonical(self, t):
        """The same question about standard indices: free ones no fact speaks of are interchangeable."""
        ixs = [v for v in t.vars() if v.kind == "ix" and v not in self._fact_vars and v.args[0] != "cn"
               and not any(w.kind == "ix" for w in v.args[1].vars())]
        if not ixs:
            return t
        ixs.sort(key=lambda v: v.id)
        mp = {v: T.of(tm._mk("ix", (("cn", k), v.args[1]), True)) for k, v in enumerate(ixs)}
        hook, tm._nonneg_hook[0] = tm._nonneg_hook[0], None
        try:
            return tm.subst(t, mp)
        finally:
            tm._nonneg_hook[0] = hook

    # ---- sums: squares and PSD kernels
    def sum_nonneg(self, a):
        vs, body, _ = tm.open_sum(a)
        if self.structural_nonneg(body):
            return True
        if len(body.m) != 1:
            return False
        (mono, c), = body.m.items()
        if c < 0:
            return False
        return self.quad_nonneg(vs, mono)

    def quad_nonneg(self, vs, mono):
        vset = set(vs)
        factors = list(mono)
        for size in range(0, min(len(vs), 3)):
            for I in itertools.combinations(vs, size):
                if self._split_ok(set(I), vset, factors):
                    return True
        return self._same_block(vs, mono)

    def _same_block(self, vs, mono):
        """[g(i) == g(j)] F(g(i), ..) is the sum over the values k of [g(i) == k][g(j) == k] F(k, ..)."""
        for a, e in mono:
            if a.kind != "ind" or a.args[0].kind != "eq" or len(a.args[0].args[0].m) != 2:
                continue
            (m1, c1), (m2, c2) = a.args[0].args[0].m.items()
            if c1 != -c2 or abs(c1) != 1 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
                continue
            a1, a2 = m1[0][0], m2[0][0]
            if a1.kind != "app" or a2.kind != "app" or a1.args[0] is not a2.args[0] or not a1.integer:
                continue
            k = mk_app(tm.Fn.get("$blk", ("$blk",), 0, integer=True), [])
            mp = {a1: k, a2: k}
            vs2, ren = [], {}
            for v in vs:
                r = replace_atoms(v.args[1], mp)
                w = v if r == v.args[1] else tm.new_ix(r)
                if w is not v:
                    ren[v] = T.of(w)
                vs2.append(w)
            body = mul(tm.mk_ind(b_eq(sub(k, T.of(a1)))), tm.mk_ind(b_eq(sub(k, T.of(a2)))))
            for b, x in mono:
                if b is a:
                    continue
                f = tm.subst(replace_atoms(T.of(b), mp), ren)
                body = mul(body, tm.power(f, x))
            if len(body.m) != 1:
                continue
            (mm, c), = body.m.items()
            if c < 0 or any(z is a for z, _ in mm):
                continue
            vset = set(vs2)
            for size in range(0, min(len(vs2), 3)):
                for I in itertools.combinations(vs2, size):
                    if self._split_ok(set(I), vset, list(mm)):
                        return True
        return False

    def complement(self, t):
        """x - x*[b] as x*[not b] (also under sums), so that signs show."""
        m = dict(t.m)
        changed = False
        for mono, c in list(m.items()):
            if c >= 0 or mono not in m:
                continue
            for a, e in mono:
                if e != 1:
                    continue
                rest = tuple(z for z in mono if z[0] is not a)
                if a.kind == "ind":
                    base = T({rest: tm.Fraction(1)})
                    new = T({tuple(sorted(rest + ((tm._mk("cind", a.args), 1),), key=tm._akey)): -c})
                elif a.kind == "sum":
                    vs, body, _ = tm.open_sum(a)
                    if len(body.m) != 1:
                        continue
                    (bm, bc), = body.m.items()
                    base = None
                    for b, x in bm:
                        if b.kind != "ind":
                            continue
                        r2 = tuple(z for z in bm if z[0] is not b)
                        base = mul(T({rest: tm.Fraction(1)}), tm.mk_sum(vs, T({r2: bc})))
                        if len(base.m) == 1 and next(iter(base.m)) in m:
                            ci = tuple(sorted(r2 + ((tm._mk("cind", b.args), 1),), key=tm._akey))
                            new = mul(T({rest: -c}), tm.mk_sum(vs, T({ci: bc})))
                            break
                        base = None
                    if base is None:
                        continue
                else:
                    continue
                if len(base.m) != 1:
                    continue
                (k1, c1), = base.m.items()
                have = m.get(k1, 0)
                need = -c * c1
                if have <= 0 or need <= 0 or have < need:
                    continue
                del m[mono]
                if have == need:
                    del m[k1]
                else:
                    m[k1] = have - need
                for k2, c2 in new.m.items():
                    v = m.get(k2, 0) + c2
                    if v:
                        m[k2] = v
                    else:
                        m.pop(k2, None)
                changed = True
                break
        return T(m) if changed else t

    def _split_ok(self, I, vset, factors):
        rest = vset - I
        only, other = [], []
        for a, e in factors:
            (other if a.vars & rest else only).append((a, e))
        if not all(e % 2 == 0 or self.atom_nonneg(a) for a, e in only):
            return False
        # candidate kernels
        kern = {}
        plain = []
        for a, e in other:
            k = _kernel(a, rest) if e == 1 else None
            if k is None:
                plain.append((a, e))
            else:
                kern.setdefault(k, []).append(a)
        # choose a set of kernels to cut: try none, or all kernels with one (left,right) pair
        for cut in [None] + list(kern):
            pl = list(plain)
            for k, ats in kern.items():
                if k != cut:
                    pl += [(a, 1) for a in ats]
            comps = _components(rest, pl)
            sums = []
            used = set()
            if cut is not None:
                L, R = cut
                lv, rv = L.vars() & rest, R.vars() & rest
                if not lv or not rv:
                    continue
                mk = tm.Fn.get("marker", "marker", 1)
                lc = set().union(*[c for c in comps if c & lv]) if lv else set()
                rc = set().union(*[c for c in comps if c & rv]) if rv else set()
                lc |= lv
                rc |= rv
                if lc & rc:
                    continue
                gl = _comp_sum(lc, pl, mk_app(mk, [L]))
                gr = _comp_sum(rc, pl, mk_app(mk, [R]))
                if gl != gr:
                    continue
                used = lc | rc
            remaining = [c for c in comps if not (c & used)]
            for c in remaining:
                sums.append(_comp_sum(c, pl, ONE))
            cnt = {}
            for s in sums:
                cnt[s] = cnt.get(s, 0) + 1
            good = True
            for s, n in cnt.items():
                if n % 2 and not self.structural_nonneg_shallow(s):
                    good = False
                    break
            if good and (cut is not None or len(sums) >= 1):
                return True
        return False

    def structural_nonneg_shallow(self, t):
        for mono, c in t.m.items():
            if c < 0:
                return False
            for a, e in mono:
                if e % 2 == 0:
                    continue
                if a.kind == "sum":
                    vs, body, _ = tm.open_sum(a)
                    if not self.structural_nonneg(body):
                        return False
                elif not self.atom_nonneg(a):
                    return False
        return True

    # ---- sums of squares with scalar coefficients
    def gram_nonneg(self, t, timeout=1500):
        """t as a quadratic form in its symbolic sums (and other non-scalar atoms): every atom known to be
        non-negative gets a non-negative coefficient, the squares are completed by elimination."""
        lin, quad, atoms = {}, {}, []
        for mono, c in t.m.items():
            sc, sums = [], []
            for a, e in mono:
                if a.kind == "sum" and e > 0:
                    sums.append((a, e))
                else:
                    sc.append((a, e))
            co = T({tuple(sc): c})
            # a product of non-negative sums counts as one non-negative factor
            sq = tuple((a, e - e % 2) for a, e in sums if e >= 2)
            odd = [a for a, e in sums if e % 2]
            nn = [a for a in odd if self.atom_nonneg(a)]
            gen = [a for a in odd if a not in nn]
            if len(gen) == 2 and not sq:
                key = (tuple(sorted((a, 1) for a in nn) if False else sorted(((a.id) for a in nn))))
                quad.setdefault(key, {})
                k2 = tuple(sorted(gen, key=lambda x: x.id))
                quad[key][k2] = tm.add(quad[key].get(k2, ZERO), co)
            elif not gen and len(sq) == 1 and sq[0][1] == 2 and not self.atom_nonneg(sq[0][0]):
                key = tuple(sorted(a.id for a in nn))
                quad.setdefault(key, {})
                a = sq[0][0]
                quad[key][(a, a)] = tm.add(quad[key].get((a, a), ZERO), co)
            elif not gen:
                k = tuple(sorted((a.id, e) for a, e in sums))
                lin[k] = tm.add(lin.get(k, ZERO), co)
            else:
                return False
        for k, co in lin.items():
            if not self._coef_nonneg(co, timeout):
                return False
        for g in quad.values():
            if not self._eliminate(dict(g), timeout):
                return False
        return True

    def _coef_nonneg(self, co, timeout):
        if self.structural_nonneg(co):
            return True
        if self.entails(b_ge(co), timeout):
            return True
        n = positive_numerator(self, co)
        return n is not None and n != co and (self.structural_nonneg(n) or self.entails(b_ge(n), timeout))

    def _eliminate(self, M, timeout):
        """M: {(a,b): coef of a*b}.  Positive semi-definite by symbolic elimination."""
        M = {k: v for k, v in M.items() if not self.is_zero(v)}
        while M:
            vs = []
            for a, b in M:
                for x in (a, b):
                    if x not in vs:
                        vs.append(x)
            diag = [v for v in vs if (v, v) in M]
            if any((v, v) not in M for v in vs):
                return False
            done = False
            for v in sorted(diag, key=lambda v: len(M[(v, v)].m)):
                p = M[(v, v)]
                others = [w for w in vs if w is not v and _key(v, w) in M]
                if not others:
                    if not self._coef_nonneg(p, timeout):
                        return False
                    del M[(v, v)]
                    done = True
                    break
                if not self._coef_nonneg(p, timeout):
                    return False
                # p v^2 + 2 v sum h_w w + ...  =  (p v + sum h_w w)^2 / p + rest   (times p >= 0)
                half = {w: tm.scale(M[_key(v, w)], tm.Fraction(1, 2)) for w in others}
                N = {}
                for k, co in M.items():
                    if v in k:
                        continue
                    N[k] = mul(co, p)
                for x in range(len(others)):
                    for y in range(x, len(others)):
                        a, b = others[x], others[y]
                        k = _key(a, b)
                        d = mul(half[a], half[b])
                        if x != y:
                            d = tm.scale(d, 2)
                        N[k] = sub(N.get(k, ZERO), d)
                # if p vanishes the cross terms have to vanish too: they do when they are multiples of p
                if not all(self._multiple(half[w], p) for w in others):
                    if not self.entails(b_gt(p), timeout):
                        return False
                M = {k: c for k, c in N.items() if not self.is_zero(c)}
                done = True
                break
            if not done:
                return False
        return True

    def _multiple(self, h, p):
        """h is a constant multiple of p"""
        if not h.m:
            return True
        k = next(iter(h.m))
        if k not in p.m:
            return False
        return h == tm.scale(p, h.m[k] / p.m[k])

    def is_zero(self, t):
        if not t.m:
            return True
        return not tm.clear_inv(t).m

    # ------------------------------------------------------------ provers
    def simp(self, t, depth=0):
        """Resolve indicators / positive parts whose sign is known here, and re-normalise."""
        for _ in range(6):
            mp = {}
            for a in collect(t, ("ind", "pos")):
                if a.kind == "ind":
                    b = a.args[0]
                    if has_bv(a):
                        continue
                    if self.entails(b, 500):
                        mp[a] = ONE
                    elif self.entails(b_not(b), 500):
                        mp[a] = ZERO
                else:
                    u = a.args[0]
                    if has_bv(a):
                        continue
                    if self.entails(b_ge(u), 500):
                        mp[a] = u
                    elif self.entails(b_ge(neg(u)), 500):
                        mp[a] = ZERO
            if not mp:
                return t
            t2 = replace_atoms(t, mp)
            if t2 == t:
                return t
            t = t2
        return t

    def zero(self, t):
        """('proved'|'refuted'|'unknown', how)."""
        if not t.m:
            STATS["normal_form"] += 1
            return "proved", "normal form"
        t0 = tm.clear_inv(t)
        if not t0.m:
            STATS["normal_form"] += 1
            return "proved", "normal form"
        t1 = self.simp(t0)
        t1 = tm.clear_inv(t1)
        if not t1.m:
            return "proved", "normal form after sign resolution"
        t1 = self.unfold(t1)
        if not t1.m:
            return "proved", "normal form with names unfolded"
        t1 = self.use_eqs(t1)
        if not t1.m:
            return "proved", "normal form modulo equalities"
        t2 = tm.clear_inv(both_orders(t1))
        if t2 != t1:
            if not t2.m:
                return "proved", "normal form, both orders of a pair"
            if len(t2.m) < len(t1.m):
                t1 = t2
        r = self.check([b_not(b_eq(t1))], 4000)
        if r == "unsat":
            return "proved", "z3"
        if self.infeasible():
            return "proved", "infeasible path"
        return ("refuted" if r == "sat" else "unknown"), "z3:" + r

    def unfold(self, t):
        for _ in range(30):
            vs = [v for v in t.vars() if v in self.defs]
            if not vs:
                break
            v = max(vs, key=lambda x: x.id)
            t = tm.clear_inv(tm.subst(t, {v: self.defs[v]}))
        return t

    def unnamed(self, t):
        """t with every named value replaced by what it names."""
        for _ in range(30):
            vs = [v for v in t.vars() if v in self.defs]
            if not vs:
                break
            v = max(vs, key=lambda x: x.id)
            t = tm.subst(t, {v: self.defs[v]})
        return t

    def use_eqs(self, t):
        """Rewrite with equality facts that solve for a variable."""
        for b in self.facts:
            if b.kind == "eq":
                s = b.args[0]
                for mono, c in s.m.items():
                    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind in ("var", "ix"):
                        v = mono[0][0]
                        rest = T({k: -x / c for k, x in s.m.items() if k != mono})
                        if v not in rest.vars() and v in t.vars():
                            t = tm.clear_inv(tm.subst(t, {v: rest}))
                            break
        return t

    def ge(self, t):
        if self.structural_nonneg(t):
            STATS["structural"] += 1
            return "proved", "structural"
        b = b_ge(t)
        if b in self.facts or b_gt(t) in self.facts:
            return "proved", "assumption"
        t1 = self.simp(t)
        if self.structural_nonneg(t1) or self.structural_nonneg(self.complement(t1)):
            STATS["structural"] += 1
            return "proved", "structural"
        if self.gram_nonneg(t1):
            return "proved", "completed squares"
        t2 = self.use_eqs(t1)
        if t2 is not t1 and self.structural_nonneg(t2):
            return "proved", "structural modulo equalities"
        if self.linear_ge(t1):
            return "proved", "linear combination of facts"
        for u in (t1, t):
            r = self.check([b_gt(neg(u))], 4000)
            if r == "unsat":
                return "proved", "z3"
        t2 = self.unnamed(t)
        if t2 != t:
            t3 = self.simp(t2)
            if self.structural_nonneg(t3) or self.structural_nonneg(self.complement(t3)):
                return "proved", "structural, names unfolded"
            t4 = positive_numerator(self, t2)
            for u in (t4, t3):
                if u is None:
                    continue
                if b_ge(u) in self.facts:
                    return "proved", "assumption, names unfolded"
                if self.check([b_gt(neg(u))], 4000) == "unsat":
                    return "proved", "z3, names unfolded"
        return ("refuted" if r == "sat" else "unknown"), "z3:" + r

    def linear_ge(self, t):
        """Does t >= 0 follow linearly from the facts, every product being opaque?"""
        var = {}

        def lin(u):
            out = [z3.RealVal(0)]
            for mono, c in u.m.items():
                if mono:
                    z = var.get(mono)
                    if z is None:
                        z = var[mono] = z3.Real(f"m{len(var)}")
                    out.append(z3.Q(c.numerator, c.denominator) * z)
                else:
                    out.append(z3.Q(c.numerator, c.denominator))
            return z3.Sum(out)

        rel = [b for b in self.facts if b.kind in ("ge", "gt", "eq")]
        if not any(set(b.args[0].m) & (set(t.m) - {()}) for b in rel):
            return False
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(lin(t) < 0)
        for b in rel:
            u = lin(b.args[0])
            s.add(u >= 0 if b.kind == "ge" else u > 0 if b.kind == "gt" else u == 0)
        for mono, z in list(var.items()):
            if self.mono_nonneg(mono):
                s.add(z >= 0)
        STATS["z3_queries"] += 1
        return s.check() == z3.unsat

    def holds(self, b):
        if b is TRUE:
            return "proved", "normal form"
        if b.kind == "ge":
            return self.ge(b.args[0])
        if b.kind == "eq":
            return self.zero(b.args[0])
        if b.kind == "and":
            worst = ("proved", "all")
            for x in b.args:
                r = self.holds(x)
                if r[0] != "proved":
                    return r
                worst = r
            return worst
        if self.entails(b, 4000):
            return "proved", "z3"
        r = self.check([b_not(b)], 4000)
        if r == "unsat":
            return "proved", "z3"
        return ("refuted" if r == "sat" else "unknown"), "z3:" + r


def _key(a, b):
    return (a, b) if a.id <= b.id else (b, a)


def positive_numerator(ctx, t):
    """t times a positive quantity, without 'inv' atoms or negative powers; None when a denominator's
    sign is unknown."""
    out = t
    for _ in range(12):
        invs = sorted({a for mono in out.m for a, e in mono if a.kind == "inv"}, key=lambda x: -x.id)
        negs = {}
        for mono in out.m:
            for a, e in mono:
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if negs:
            f = []
            for a, e in negs.items():
                if e % 2:
                    if ctx.entails(b_gt(T.of(a)), 500):
                        f.append((a, -e))
                    else:
                        f.append((a, -e + 1))
                else:
                    f.append((a, -e))
            out = mul(out, T({tuple(sorted(f, key=tm._akey)): tm.Fraction(1)}))
            continue
        if not invs:
            return out
        a = invs[0]
        p = a.args[0]
        deg = max(dict(mono).get(a, 0) for mono in out.m)
        if deg % 2 and not ctx.entails(b_gt(p), 500):
            deg += 1
        res = ZERO
        for mono, c in out.m.items():
            d = dict(mono)
            e = d.pop(a, 0)
            res = tm.add(res, mul(T({tuple(sorted(d.items(), key=tm._akey)): c}), tm.power(p, deg - e)))
        out = res
    return None


# ------------------------------------------------------------------ helpers on terms
def collect(t, kinds, out=None, seen=None):
    """Atoms of the given kinds occurring anywhere in t (innermost first)."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    for mono in t.m:
        for a, _ in mono:
            _collect_atom(a, kinds, out, seen)
    return out


def _collect_atom(a, kinds, out, seen):
    if a in seen:
        return
    seen.add(a)
    for x in a.args:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, T):
                collect(y, kinds, out, seen)
            elif isinstance(y, B):
                _collect_b(y, kinds, out, seen)
    if a.kind in kinds:
        out.append(a)


def _collect_b(b, kinds, out, seen):
    for x in b.args:
        if isinstance(x, T):
            collect(x, kinds, out, seen)
        elif isinstance(x, B):
            _collect_b(x, kinds, out, seen)


def has_bv(a):
    return any(v.kind == "bv" for v in a.vars)


def replace_atoms(t, mp, memo=None):
    memo = {} if memo is None else memo
    res = ZERO
    for mono, c in t.m.items():
        r = T.const(c)
        for a, e in mono:
            s = _replace_atom(a, mp, memo)
            r = mul(r, tm.power(s, e) if e > 0 else tm.power(tm.mk_inv(s), -e))
        res = tm.add(res, r)
    return res


def _replace_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    r = memo.get(a)
    if r is None:
        r = _rebuild(a, lambda x: replace_atoms(x, mp, memo), lambda b: _replace_b(b, mp, memo))
        memo[a] = r
    return r


def _replace_b(b, mp, memo):
    f = lambda x: replace_atoms(x, mp, memo)
    k = b.kind
    if k == "ge":
        return b_ge(f(b.args[0]))
    if k == "eq":
        return b_eq(f(b.args[0]))
    if k == "not":
        return b_not(_replace_b(b.args[0], mp, memo))
    if k == "and":
        return tm.b_and(*[_replace_b(x, mp, memo) for x in b.args])
    if k in ("true", "false"):
        return b
    return B.mk(k, *[f(x) if isinstance(x, T) else x for x in b.args])


def both_orders(t, memo=None):
    """[i > j] written as [i >= j] - [i = j] throughout."""
    memo = {} if memo is None else memo
    res = ZERO
    for mono, c in t.m.items():
        r = T.const(c)
        for a, e in mono:
            s = memo.get(a)
            if s is None:
                s = memo[a] = _both_orders(a, memo)
            r = mul(r, tm.power(s, e) if e > 0 else tm.power(tm.mk_inv(s), -e))
        res = tm.add(res, r)
    return res


def _both_orders(a, memo):
    f = lambda x: both_orders(x, memo)
    if a.kind == "ind":
        b = a.args[0]
        if b.kind == "ge":
            g = tm.add(b.args[0], ONE)
            if len(g.m) == 2 and all(abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("ix", "bv")
                                     for m, c in g.m.items()):
                return sub(tm.mk_ind(b_ge(g)), tm.mk_ind(b_eq(g)))
        return T.of(a)
    if a.kind == "sum":
        return _rebuild(a, f, None)
    return T.of(a)


def flip_pos(t, memo=None):
    """max(u, 0) written as u + max(-u, 0) throughout (arguments of functions excepted)."""
    memo = {} if memo is None else memo
    res = ZERO
    for mono, c in t.m.items():
        r = T.const(c)
        for a, e in mono:
            s = memo.get(a)
            if s is None:
                if a.kind == "pos":
                    u = a.args[0]
                    s = tm.add(u, T.of(tm._mk("npos", (u,), a.integer)))
                elif a.kind == "sum":
                    vs, body, _ = tm.open_sum(a)
                    b2 = flip_pos(body, memo)
                    s = T.of(a) if b2 == body else tm.mk_sum(vs, b2)
                else:
                    s = T.of(a)
                memo[a] = s
            r = mul(r, tm.power(s, e) if e > 0 else tm.power(tm.mk_inv(s), -e))
        res = tm.add(res, r)
    return res


def _rebuild(a, f, fb):
    k = a.kind
    if k in ("var", "bv", "ix"):
        return T.of(a)
    if k == "app":
        return mk_app(a.args[0], [f(x) for x in a.args[1]])
    if k == "inv":
        return tm.mk_inv(f(a.args[0]))
    if k == "sqrt":
        return tm.mk_sqrt(f(a.args[0]))
    if k == "pos":
        return tm.mk_pos(f(a.args[0]))
    if k == "pow":
        return tm.mk_pow(f(a.args[0]), f(a.args[1]))
    if k == "ind":
        return tm.mk_ind(fb(a.args[0]))
    if k == "sum":
        vs, body, _ = tm.open_sum(a)
        b2 = f(body)
        if b2 == body:
            return T.of(a)
        return tm.mk_sum(vs, b2)
    return T.of(tm._mk(k, tuple(f(x) if isinstance(x, T) else x for x in a.args), a.integer))


def _kernel(a, rest):
    """If the atom is a PSD kernel in two index expressions, the (left, right) pair."""
    if a.kind == "app":
        fn, args = a.args
        if fn.props.get("psd") and len(args) >= 2:
            L, R = args[-2], args[-1]
            if any(x.vars() & rest for x in args[:-2]):
                return None
            if L != R:
                return (L, R) if tm._tkey(L) < tm._tkey(R) else (R, L)
    if a.kind == "ind" and a.args[0].kind == "eq":
        t = a.args[0].args[0]
        # [g(i) == g(j)]
        if len(t.m) == 2:
            (m1, c1), (m2, c2) = t.m.items()
            if c1 == -c2 and abs(c1) == 1 and len(m1) == 1 and len(m2) == 1:
                a1, a2 = m1[0][0], m2[0][0]
                if a1.kind == "app" and a2.kind == "app" and a1.args[0] is a2.args[0]:
                    L, R = a1.args[1][-1], a2.args[1][-1]
                    return (L, R) if tm._tkey(L) < tm._tkey(R) else (R, L)
    return None


def _components(vs, factors):
    comp = {v: {v} for v in vs}
    for a, e in factors:
        xs = [v for v in a.vars if v in comp]
        if len(xs) > 1:
            s = set()
            for x in xs:
                s |= comp[x]
            for x in s:
                comp[x] = s
    out = []
    seen = set()
    for v in vs:
        if v not in seen:
            out.append(comp[v])
            seen |= comp[v]
    return out


def _comp_sum(cs, factors, extra):
    fs = [(a, e) for a, e in factors if a.vars & cs]
    body = extra
    for a, e in fs:
        body = mul(body, T({((a, e),): tm.Fraction(1)}))
    return tm.mk_sum(sorted(cs, key=lambda v: v.id), body)


# ------------------------------------------------------------------ z3 encoding
class Encoder:
    def __init__(self, ctx):
        self.ctx = ctx
        self.c = {}
        self.negc = {}
        self.extra = []
        self.todo = []
        self.done = set()

    def atom(self, a):
        z = self.c.get(a)
        if z is None:
            z = z3.Real(f"a{a.id}")
            self.c[a] = z
            self.todo.append(a)
        return z

    def t(self, t):
        out = []
        for mono, c in t.m.items():
            f = []
            for a, e in mono:
                z = self.atom(a)
                if e < 0:
                    q = self.negc.get(a)
                    if q is None:
                        q = z3.Real(f"q{a.id}")
                        self.negc[a] = q
                        self.extra.append(z * q == 1)
                    z, e = q, -e
                f += [z] * e
            k = z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
            if not f:
                out.append(k)
            else:
                p = f[0]
                for x in f[1:]:
                    p = p * x
                out.append(p if c == 1 else k * p)
        if not out:
            return z3.RealVal(0)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def b(self, b):
        k = b.kind
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "ge":
            return self.t(b.args[0]) >= 0
        if k == "gt":
            if b.args[0].is_int():
                return self.t(b.args[0]) >= 1
            return self.t(b.args[0]) > 0
        if k == "eq":
            return self.t(b.args[0]) == 0
        if k == "not":
            c = b.args[0]
            if c.kind == "ge" and c.args[0].is_int():
                return self.t(c.args[0]) <= -1
            if c.kind == "eq" and c.args[0].is_int():
                u = self.t(c.args[0])
                return z3.Or(u <= -1, u >= 1)
            return z3.Not(self.b(c))
        if k == "and":
            return z3.And(*[self.b(x) for x in b.args])
        if k == "atom":
            return z3.Bool(f"p{b.id}")
        raise tm.Unsupported("bool kind " + k)

    def close(self, limit=400):
        n = 0
        while self.todo and n < limit:
            a = self.todo.pop()
            if a in self.done:
                continue
            self.done.add(a)
            n += 1
            self.facts_of(a)
            if not self.todo:
                self.partition_facts()

    def partition_facts(self):
        """Neighbouring starts of one array_split: at least one element each (when there are enough)."""
        for a in list(self.done):
            if not isinstance(a, tm.Atom) or a.kind != "app" or "partition" not in a.args[0].props:
                continue
            P = a.args[0].props["partition"]
            if not P.full or ("pf", a) in self.done:
                continue
            self.done.add(("pf", a))
            j = a.args[1][0]
            z = self.c[a]
            self.extra.append(z >= self.t(j))
            self.extra.append(self.t(P.p) - z >= self.t(P.k) - self.t(j))
            for b in list(self.c):
                if b.kind == "app" and b.args[0] is a.args[0] and b is not a:
                    if b.args[1][0] == tm.add(j, ONE):
                        self.extra.append(self.c[b] - z >= 1)
                    elif tm.add(b.args[1][0], ONE) == j:
                        self.extra.append(z - self.c[b] >= 1)

    def facts_of(self, a):
        z = self.c[a]
        k = a.kind
        ex = self.extra
        ctx = self.ctx
        if k == "ix":
            ex.append(z >= 0)
            ex.append(z <= self.t(a.args[1]) - 1)
        elif k == "bv":
            ex.append(z >= 0)
        elif k == "ind":
            if has_bv(a):
                ex.append(z3.Or(z == 0, z == 1))
            else:
                b = self.b(a.args[0])
                ex.append(z3.Or(z3.And(z == 1, b), z3.And(z == 0, self.b(tm.b_not(a.args[0])))))
        elif k == "cind":
            if has_bv(a):
                ex.append(z3.Or(z == 0, z == 1))
            else:
                b = self.b(a.args[0])
                ex.append(z3.Or(z3.And(z == 0, b), z3.And(z == 1, z3.Not(b))))
        elif k == "pos":
            u = self.t(a.args[0])
            ex.append(z3.Or(z3.And(z == u, u >= 0), z3.And(z == 0, u <= 0)))
        elif k == "sqrt":
            u = self.t(a.args[0])
            ex.append(z >= 0)
            ex.append(z * z == u)
        elif k == "inv":
            ex.append(z * self.t(a.args[0]) == 1)
        elif k in ("floor", "ceil"):
            u = self.t(a.args[0])
            if k == "floor":
                ex += [z <= u, z > u - 1]
            else:
                ex += [z >= u, z < u + 1]
        elif k == "pow":
            if ctx.known_nonneg(a.args[0]):
                ex.append(z >= 0)
        elif k == "sum":
            if ctx.atom_nonneg(a):
                ex.append(z >= 0)
        elif k == "app":
            fn, args = a.args
            p = fn.props
            if p.get("nonneg"):
                ex.append(z >= 0)
            if p.get("psd") and args[-1] == args[-2]:
                ex.append(z >= 0)
            if p.get("pd") and args[-1] == args[-2]:
                ex.append(z > 0)
            if p.get("psd") and args[-1] != args[-2]:
                d1 = mk_app(fn, args[:-2] + (args[-1], args[-1]))
                d2 = mk_app(fn, args[:-2] + (args[-2], args[-2]))
                ex.append(z * z <= self.t(d1) * self.t(d2))
            f = p.get("entry")
            if f:
                for b in f(*args):
                    ex.append(self.b(b))
        elif k == "var" and a.args[0] == "PI":
            ex += [z > z3.Q(314159, 100000), z < z3.Q(31416, 10000)]


def solve(cons, timeout):
    t0 = time.time()
    STATS["z3_queries"] += 1
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*cons)
    r = s.check()
    model = None
    if r == z3.unknown:
        s2 = z3.SolverFor("QF_NRA")
        s2.set("timeout", int(timeout))
        s2.add(*cons)
        r = s2.check()
        if r == z3.sat:
            model = s2.model()
    elif r == z3.sat:
        model = s.model()
    STATS["z3_seconds"] += time.time() - t0
    return ("sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"), model
