"""C05: get_state/set_state and the pickle hooks lose nothing, in any state, and the stream continues identically."""
from ..arrays import Arr, JList, Sym, SymBool, SymList
from ..vcapi import Prover, Unsupported
from .est import ALL, CFG, on_diff, on_new, on_state
from .lib import same, same_est, twin


def plain(h, name, v):
    """JSON data: dicts with string keys, lists, numbers, strings, booleans, None."""
    if isinstance(v, dict):
        h.fact(f"{name}: string keys", all(isinstance(k, str) for k in v))
        for k in v:
            plain(h, f"{name}.{k}", v[k])
    elif isinstance(v, SymList):
        plain(h, f"{name}[*]", v.at(0))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            plain(h, f"{name}[{i}]", x)
    else:
        h.fact(f"{name}: plain data", v is None or isinstance(v, (JList, Sym, int, float, str, bool)) and not isinstance(v, Arr),
               type(v).__name__)


def checkpoint(h, e, p, how):
    """A fresh estimator with the same parameters, restored from e's checkpoint."""
    if how == "state":
        st = e.get_state()
        plain(h, "get_state()", st)
        f = type(e)(**e.get_params())
        r = f.set_state(st)
        h.fact("set_state returns the estimator", r is f)
        return f
    d = e.__getstate__()
    f = type(e).__new__(type(e))
    f.__setstate__(d)
    return f


def round_trip(how):
    def body(h, e, p):
        before = twin(e)
        f = checkpoint(h, e, p, how)
        same_est(h, "taking a checkpoint changes nothing", e, before)
        same_est(h, "restored", e, f)
        same(h, "same parameters", e.get_params(), f.get_params())
        x = h.rows("x", 1, p)
        e.partial_fit(x)
        f.partial_fit(x)
        same_est(h, "one more observation", e, f)
    return body


def run(tier):
    P = Prover("C05", tier)
    for c in ALL:
        for how in ("state", "pickle"):
            on_new(P, c, f"{how}, before any observation", round_trip(how))
            on_state(P, c, f"{how}", round_trip(how))
            on_diff(P, c, f"{how}", round_trip(how), "fresh")
            on_diff(P, c, f"{how}", round_trip(how), "level")
            on_diff(P, c, f"{how}", round_trip(how), "state")
    r = P.run()
    r.assumptions = ["pickle restores exactly what __getstate__ returns through __setstate__ on an uninitialised object",
                     "JSON text round-trips finite floats exactly (repr of a double)",
                     "equality after any continuation follows from equality of the two states: an update and a read are "
                     "functions of state, parameters and observation (each executed once per path in this run)"]
    return r
