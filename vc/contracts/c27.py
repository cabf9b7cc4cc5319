"""C27: malformed input is rejected without side effects."""
from ..arrays import Arr, Sym
from ..terms import mk_app, Fn
from ..vcapi import Prover
from .est import ALL, CFG, DIFF, on_diff, on_new, on_state
from .lib import same, same_est, twin


def cube(h, name, a, b, c):
    f = Fn.get(name, ("h3", name), 3)
    return Arr.make((a, b, c), lambda i, j, k: mk_app(f, [i, j, k]))


def rejected(h, e, what, call, exc=Exception):
    """The call raises, leaves every attribute and the whole state as it was."""
    before = dict(e.__dict__)
    t = twin(e)
    ok = False
    try:
        call()
    except exc as x:
        from ..vcapi import MODEL_ERRORS, Unsupported
        if isinstance(x, Unsupported):
            raise
        ok = not isinstance(x, MODEL_ERRORS) or isinstance(x, (TypeError,))
    if not h.fact(f"{what}: rejected", ok):
        return
    h.fact(f"{what}: no attribute appears or disappears", set(e.__dict__) == set(before))
    for k in before:
        if k not in ("_state", "_prev_x", "n_features_in_") and (e.__dict__[k] is None or isinstance(e.__dict__[k], (int, float, str, Sym))):
            same(h, f"{what}: {k}", e.__dict__[k], t.__dict__[k])
    same_est(h, what, e, t)


def shapes(h, e, p):
    a, b, c = h.dim("a"), h.dim("b"), h.dim("c")
    X3 = cube(h, "X3", a, b, c)
    V = ValueError
    rejected(h, e, "partial_fit of a 3-d array", lambda: e.partial_fit(X3), V)
    rejected(h, e, "partial_fit of a number", lambda: e.partial_fit(h.real("y")), V)
    rejected(h, e, "fit of a 3-d array", lambda: e.fit(X3), V)
    rejected(h, e, "fit of a vector", lambda: e.fit(h.vec("v", b)), V)
    rejected(h, e, "fit of a number", lambda: e.fit(h.real("y")), V)


def lengths(h, e, p):
    q = h.dim("q")
    h.require(q != p)
    V = ValueError
    rejected(h, e, "partial_fit of one row of another length", lambda: e.partial_fit(h.vec("v", q)), V)
    rejected(h, e, "partial_fit of a batch of another length", lambda: e.partial_fit(h.rows("B", h.dim("n"), q)), V)


def queries(h, e, p):
    """Scoring rejects rows of another length, and shapes that are no batch of rows."""
    from .lib import modular
    q = h.dim("q")
    h.require(q != p)
    V = ValueError
    modular(h, e, p)
    B = h.rows("B", h.dim("n"), q)
    X3 = cube(h, "X3", 2, h.dim("b"), p)
    for n in ("mahalanobis", "score"):
        rejected(h, e, f"{n} of rows of another length", lambda: getattr(e, n)(B), V)
        rejected(h, e, f"{n} of a 3-d array", lambda: getattr(e, n)(X3), V)


def unread(h, e, p):
    NF = h.W.get("precise.base.NotFittedError")
    h.fact("the documented error is a ValueError", issubclass(NF, ValueError))
    x = h.rows("x", 1, p)
    for n in ("covariance_", "location_", "correlation_", "precision_"):
        rejected(h, e, f"{n} before any data", lambda: getattr(e, n), NF)
    for n in ("mahalanobis", "score"):
        rejected(h, e, f"{n} before any data", lambda: getattr(e, n)(x), NF)
    rejected(h, e, "get_precision before any data", lambda: e.get_precision(), NF)


def level_lengths(h, d, p):
    lengths(h, d, p)
    unread(h, d, p)


def conditional(h):
    C = h.W.get("precise.ConditionalCovariance")
    e = C()
    p = 2
    unread(h, e, p)
    shapes(h, e, p)
    e.partial_fit(h.rows("x0", 1, p))
    shapes(h, e, p)
    lengths(h, e, p)


def run(tier):
    P = Prover("C27", tier)
    for c in ALL:
        on_new(P, c, "shapes", shapes)
        on_new(P, c, "reads before any data", unread)
        on_state(P, c, "shapes", shapes)
        on_state(P, c, "row length", lengths)
        on_state(P, c, "scoring", queries)
        on_diff(P, c, "row length, reads", level_lengths, kind="level")
        on_diff(P, c, "row length", lengths)
    P.check("conditional (two series, bounded)", conditional)
    return P.run()
