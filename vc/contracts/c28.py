"""C28: shifting the data shifts location_ and nothing else; rescaling it rescales location_ and covariance_.

Two estimators are run side by side, one on the data and one on the transformed data: the relation "same state up to
the transformation" holds after the first observation, is kept by every further one, and gives the claim on reading.
"""
from ..arrays import SymList
from ..vcapi import MODEL_ERRORS, Prover, Timeout, Unsupported
from .est import ALL, on_new, on_state
from .lib import Sym, copy_val, same, twin


# ------------------------------------------------------------------ shift
def shifted(s, c):
    """The state s with every tracked mean moved by c."""
    def go(d, c):
        out = {k: copy_val(v) if isinstance(v, (dict, list)) else v.copy() if hasattr(v, "copy") else v for k, v in d.items()}
        if "mean" in d:
            out["mean"] = d["mean"] + c
        return out
    t = go(s, c)
    if "subs" in s:
        sl, subs = s["slices"], s["subs"]

        def sub(k):
            a, b = sl.at(k) if isinstance(sl, SymList) else sl[int(k.value())]
            return go(subs.at(k) if isinstance(subs, SymList) else subs[int(k.value())], c[a:b])
        t["subs"] = SymList(subs.n, sub) if isinstance(subs, SymList) else [go(d, c[a:b]) for d, (a, b) in zip(subs, sl)]
        t["slices"] = sl
    return t


def shift_first(h, e, p):
    f = twin(e)
    x, c = h.rows("x", 1, p), h.vec("c", p)
    e.partial_fit(x)
    f.partial_fit(x + c)
    same(h, "same state but for the mean", f._state, shifted(e._state, c))


def shift_step(h, e, p):
    f = twin(e)
    x, c = h.rows("x", 1, p), h.vec("c", p)
    f._state = shifted(e._state, c)
    e.partial_fit(x)
    f.partial_fit(x + c)
    same(h, "same state but for the mean", f._state, shifted(e._state, c))


class Untouchable:
    """Stands for a value the code must not use: any use raises."""

    def _vc_subst(self, mp):
        return self


def independent(e):
    """covariance_ is computed without using any tracked mean, hence is a function of the rest of the state."""
    s = dict(e._state)
    s["mean"] = Untouchable()
    if isinstance(s.get("subs"), SymList):
        subs = s["subs"]
        s["subs"] = SymList(subs.n, lambda k: {**subs.at(k), "mean": Untouchable()})
    f = twin(e)
    f._state = s
    try:
        f.covariance_
        return True
    except Timeout:
        raise
    except MODEL_ERRORS + (Unsupported,):
        return False


def shift_read(h, e, p):
    f = twin(e)
    c = h.vec("c", p)
    f._state = shifted(e._state, c)
    h.eq("location_ moves by the shift", f.location_, e.location_ + c)
    if independent(e):
        h.fact("covariance_ does not use the mean", True)
        return
    h.eq("covariance_ unchanged", f.covariance_, e.covariance_)


def nothing(h, e, p):
    """No data: the relation holds trivially."""


# ------------------------------------------------------------------ scale
COV2 = ("cov", "var", "h")
SCALE = ["empirical", "diagonal", "ewa", "adaptive", "ledoitwolf", "oas", "shrunk", "shrunk-identity", "huber",
         "dcc", "dcc-default", "partialmoments", "tyler"]


def scaled(h, s, a):
    """The state s of data in other units: a times the value."""
    t = dict(s)
    t["mean"] = a * s["mean"]
    for k in COV2:
        if k in s:
            t[k] = a * a * s[k]
    if "pi_bar" in s:
        t["pi_bar"] = a * a * a * a * s["pi_bar"]
    if "quadrants" in s:
        q = a * a * s["quadrants"]
        t["quadrants"] = q if a > 0 else h.W.np.array([q[i] for i in flip(h)])
    return t


def flip(h):
    """Where each quadrant goes when the sign of the data changes: both signs of the pair are reversed."""
    Q = h.W.get("precise.partialmoments._QUADRANTS")
    return [list(Q).index((-x, -y)) for x, y in Q]


def unit(h):
    """Any non-zero factor: its size, and its sign as a case split."""
    a = h.real("a", 0, lo_open=True, sample=lambda r: r.choice([1.0, 2.0, 0.5, r.uniform(0.2, 9)]))
    return a if h.real("sign") > 0 else -a


def related(h, t, u, a):
    """u is the state t in the other units; the parts with a numerical floor only away from it."""
    want = scaled(h, t, a)
    loose = [k for k in ("Q", "C") if k in t]
    same(h, "the state in the other units", {k: v for k, v in u.items() if k not in loose},
         {k: v for k, v in want.items() if k not in loose})
    return want


def scale_first(h, e, p):
    f = twin(e)
    x, a = h.rows("x", 1, p), unit(h)
    e.partial_fit(x)
    f.partial_fit(a * x)
    same(h, "the state in the other units", f._state, scaled(h, e._state, a))


def scale_step(h, e, p):
    np = h.W.np
    f = twin(e)
    x, a = h.rows("x", 1, p), unit(h)
    f._state = scaled(h, e._state, a)
    e.partial_fit(x)
    f.partial_fit(a * x)
    t, u = e._state, f._state
    related(h, t, u, a)
    if "Q" in t:
        i, j = h.index(p), h.index(p)
        for k in (i, j):
            h.require(t["h"][k] >= 1e-12)
            h.require(a * a * t["h"][k] >= 1e-12)
        h.eq("the correlation tracker is unchanged", u["Q"][i, j], t["Q"][i, j])
    if "C" in t:
        h.eq("the shape is unchanged", u["C"], t["C"])


def scale_read(h, e, p):
    np = h.W.np
    f = twin(e)
    a = unit(h)
    if getattr(e, "target", None) == "constant_correlation":
        # no variance near the floor of the correlations
        e._state["cov"] = h.mat("Away", p, psd=True, entry=lambda i, j, v: [v >= 1e-12, a * a * v >= 1e-12] if i.t == j.t else [])
    f._state = scaled(h, e._state, a)
    h.eq("location_ scales", f.location_, a * e.location_)
    if "C" in e._state:
        h.eq("the correlation is unchanged", f.covariance_, e.covariance_)
        return
    if "Q" in e._state:
        i, j = h.index(p), h.index(p)
        v = e._state["h"]
        for k in (i, j):
            h.require(v[k] >= 1e-12)
            h.require(a * a * v[k] >= 1e-12)
        h.eq("covariance_ scales by the square", f.covariance_[i, j], a * a * e.covariance_[i, j])
        return
    if "quadrants" in e._state:
        # C19: a positive definite matrix is its own projection (and a multiple of one is positive definite too)
        h.W.replace("precise._linalg.nearest_pos_def", lambda m: m)
    h.eq("covariance_ scales by the square", f.covariance_, a * a * e.covariance_)


def run(tier):
    P = Prover("C28", tier)
    for c in ALL:
        on_new(P, c, "shift, first observation", shift_first)
        on_state(P, c, "shift, one observation", shift_step)
        on_state(P, c, "shift, read", shift_read)
    for c in SCALE:
        on_new(P, c, "scale, first observation", scale_first)
        on_state(P, c, "scale, one observation", scale_step)
        on_state(P, c, "scale, read", scale_read)
    return P.run()
