"""C07: the state has a fixed layout: same keys, shapes that depend on dimension and parameters only."""
from ..arrays import Arr, JList, Sym, SymList, tt
from ..terms import T, new_ix, sub
from ..vcapi import Prover
from .est import ALL, on_new, on_state
from .lib import copy_val, twin


def layout(h, name, a, b):
    if isinstance(a, dict):
        if h.fact(f"{name}: same keys", isinstance(b, dict) and set(a) == set(b), f"{list(a)} / {list(b) if isinstance(b, dict) else b}"):
            for k in a:
                layout(h, f"{name}.{k}", a[k], b[k])
    elif isinstance(a, SymList):
        if h.fact(f"{name}: still a list", isinstance(b, SymList)):
            h.eq(f"{name}: same length", Sym(tt(a.n)), Sym(tt(b.n)))
            k = T.of(new_ix(tt(a.n)))
            layout(h, f"{name}[*]", a.at(k), b.at(k))
    elif isinstance(a, (list, tuple)):
        if h.fact(f"{name}: same length", isinstance(b, (list, tuple)) and len(a) == len(b)):
            for i, (x, y) in enumerate(zip(a, b)):
                layout(h, f"{name}[{i}]", x, y)
    elif isinstance(a, (Arr, JList)):
        a = a.arr if isinstance(a, JList) else a
        b = b.arr if isinstance(b, JList) else b
        if h.fact(f"{name}: still an array of the same rank", isinstance(b, Arr) and b.ndim == a.ndim):
            for i in range(a.ndim):
                h.eq(f"{name}: extent {i}", a.shape[i], b.shape[i])
            h.fact(f"{name}: owns no larger buffer", _base_size(h, b))
    else:
        h.fact(f"{name}: still a scalar", not isinstance(b, (Arr, JList, SymList, dict, list, tuple)), type(b).__name__)


def _base_size(h, b):
    """The array's storage is no larger than the array (a view of a big buffer would keep it alive)."""
    return len(b.store.shape) == b.ndim and all(h.R.ctx.zero(sub(tt(x), tt(y)))[0] == "proved" for x, y in zip(b.store.shape, b._shape))


def step(h, e, p):
    d0 = twin(e).__dict__
    x = h.rows("x", 1, p)
    e.partial_fit(x)
    layout(h, "estimator", {k: v for k, v in d0.items()}, dict(e.__dict__))


def read(h, e, p):
    d0 = twin(e).__dict__
    e.covariance_, e.location_, e.n_samples_
    layout(h, "after a read", {k: v for k, v in d0.items() if k != "gamma_"}, {k: v for k, v in e.__dict__.items() if k != "gamma_"})
    g = e.__dict__.get("gamma_")
    h.fact("gamma_ is a scalar", g is None or not isinstance(g, (Arr, dict, list, SymList)))


def shapes(h, e, p):
    """The layout after the first observation is a function of dimension and parameters."""
    h.fact("no state before data", e._state is None)
    e.partial_fit(h.rows("x0", 1, p))
    f = type(e)(**e.get_params())
    f.partial_fit(h.rows("y0", 1, p))
    layout(h, "two first observations", e.__dict__, f.__dict__)


def run(tier):
    P = Prover("C07", tier)
    for c in ALL:
        on_new(P, c, "first observation", shapes)
        on_state(P, c, "one observation", step)
        on_state(P, c, "read", read)
    return P.run()
