"""C09: precision_ inverts covariance_, mahalanobis is its quadratic form, score the mean Gaussian log-density."""
from ..vcapi import Prover
from .est import ALL, on_state
from .lib import modular, opaque


def distances(h, e, p, P, one=False):
    """mahalanobis(X) has one value per row: the non-negative quadratic form of the deviation in the precision."""
    np = h.W.np
    m = e.location_
    if one:
        x = h.vec("x", p)
        q = e.mahalanobis(x)
        h.eq("one value for one row", q.shape[0], 1)
        d = x - m
        h.eq("quadratic form of the deviation", q[0], d @ P @ d)
        return q, 1
    n = h.dim("nrows")
    X = h.rows("X", n, p)
    q = e.mahalanobis(X)
    h.fact("one axis", q.ndim == 1)
    h.eq("one value per row", q.shape[0], n)
    i = h.index(n)
    d = X[i] - m
    h.eq("quadratic form of the deviation", q[i], d @ P @ d)
    h.psd("the form is non-negative", P)
    return X, n


def score(h, e, p, S, X, n):
    np = h.W.np
    q = e.mahalanobis(X)
    ll = -0.5 * (p * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + q)
    h.eq("score is the mean Gaussian log-density", e.score(X), np.mean(ll))


def dense(h, e, p):
    modular(h, e, p, pd=True)
    S = e.covariance_
    P = e.precision_
    h.eq("precision_ is the inverse of covariance_", P @ S, h.W.np.eye(p))
    h.eq("get_precision is precision_", e.get_precision(), P)
    X, n = distances(h, e, p, P)
    score(h, e, p, S, X, n)


def dense_one(h, e, p):
    modular(h, e, p, pd=True)
    distances(h, e, p, e.precision_, one=True)


def pd_blocks(h, e):
    """Replace the callee _pd_block by its contract: some symmetric positive definite matrix, a function of the block."""
    body = type(e)._pd_block

    def _pd_block(sub):
        return opaque("Block", body(sub), pd=True)
    e.__class__ = type(type(e).__name__, (type(e),), {"_pd_block": staticmethod(_pd_block)})


def block(h, e, p):
    """Both matrices vanish across blocks and the blocks are inverse to each other; hence so are the matrices.
    (Every coordinate is start(k) + u for exactly one block k and offset u.)"""
    pd_blocks(h, e)
    S, P = e.covariance_, e.precision_
    sl = e._state["slices"]
    k, l = h.index(sl.n), h.index(sl.n)
    a, b = sl.at(k.t)
    c, d = sl.at(l.t)
    h.eq("each block of precision_ inverts the block of covariance_", P[a:b, a:b] @ S[a:b, a:b], h.W.np.eye(b - a))
    if k != l:
        h.eq("covariance_ vanishes across blocks", S[a:b, c:d], h.W.np.zeros((b - a, d - c)))
        h.eq("precision_ vanishes across blocks", P[a:b, c:d], h.W.np.zeros((b - a, d - c)))
    h.eq("get_precision is precision_", e.get_precision(), P)


def block_distance(h, e, p):
    P = e.precision_
    distances(h, e, p, P)


def block_one(h, e, p):
    distances(h, e, p, e.precision_, one=True)


def block_score(h, e, p):
    """Stated with log det precision_, which is -log det covariance_ for inverse matrices."""
    np = h.W.np
    X = h.rows("X", h.dim("nrows"), p)
    ll = 0.5 * np.linalg.slogdet(e.precision_)[1] - 0.5 * e.mahalanobis(X) - 0.5 * p * np.log(2 * np.pi)
    h.eq("score is the mean Gaussian log-density", e.score(X), np.mean(ll))


def invertible(h):
    p = h.dim()
    np = h.W.np
    a = h.mat("a", p)
    ti = h.W.get("precise._linalg.try_invert")
    try:
        want = np.linalg.inv(a)
    except np.linalg.LinAlgError:
        ti(a)
        h.fact("no exception for a singular matrix", True)
        return
    h.eq("the plain inverse where it exists", ti(a), want)


def run(tier):
    P = Prover("C09", tier)
    P.check("try_invert", invertible)
    for c in ALL:
        if c == "block":
            on_state(P, c, "precision_", block)
            on_state(P, c, "mahalanobis", block_distance)
            on_state(P, c, "mahalanobis of one row", block_one)
            on_state(P, c, "score", block_score)
        else:
            on_state(P, c, "precision_, mahalanobis, score", dense)
            on_state(P, c, "mahalanobis of one row", dense_one)
    r = P.run()
    r.assumptions = ["covariance_ is an arbitrary symmetric positive definite matrix (the claim's premise); its value does not "
                     "matter to these callers",
                     "block estimator: matrices that vanish across blocks and have mutually inverse blocks are mutually inverse"]
    return r
