"""C23: every assessor returns its documented score and leaves its inputs alone."""
from .. import arrays as ar
from .. import symnp as sn
from .. import terms as tm
from ..arrays import Arr, tt
from ..terms import T
from ..vcapi import Prover
from .c12 import same_block
from .lib import Sym, Watch, opaque

A = "precise.assessment.assessors."
MOD = "precise.assessment.assessors"


def data(h, pd=True):
    p, n = h.dim(), h.dim("n")
    return h.mat("S", p, pd=pd), h.rows("X", n, p), p, n


def density(h, S, X):
    """Mean over the rows of the log-density of N(0, S)."""
    np = h.W.np
    P = np.linalg.inv(S)
    p = S.shape[0]
    q = ((X @ P) * X).sum(axis=1)
    return np.mean(0.5 * np.linalg.slogdet(P)[1] - 0.5 * q - 0.5 * p * np.log(2 * np.pi))


def lit(h, cls, *a, **k):
    return h.W.get(A + cls)(*a, **k)


def gauss(h):
    S, X, p, n = data(h)
    W = Watch(h, S, X)
    h.eq("mean Gaussian log-density", h.W.get(A + "_gaussian_loglik")(S, X), density(h, S, X))
    h.fact("inputs untouched", not W.hit)


def loglik(h):
    S, X, p, n = data(h)
    W = Watch(h, S, X)
    h.eq("mean Gaussian log-density", lit(h, "LogLikelihood").score(S, X_test=X), density(h, S, X))
    h.fact("inputs untouched", not W.hit)


# _gaussian_loglik by its contract (proved above): some function of the matrix and the sample
def G(S, X):
    f, par = sn.keyed_fn("gll", S, 0)
    g, par2 = sn.keyed_fn("gllX", X, 0)
    f2 = tm.Fn.get("gll2", ("gll2", f, g), len(par) + len(par2))
    f2.props.setdefault("deps", frozenset(f.props["deps"]) | frozenset(g.props["deps"]))
    return Sym(tm.mk_app(f2, par + par2))


def opaque_density(h):
    h.W.replace(A + "_gaussian_loglik", lambda cov, X: G(cov.copy(), X.copy()))


def blocks(h):
    S, X, p, n = data(h)
    b = h.dim("b")
    opaque_density(h)
    W = Watch(h, S, X)
    got = lit(h, "BlockPseudoLikelihood", block_size=b).score(S, X_test=X)
    h.fact("inputs untouched", not W.hit)
    k = tm.new_ix(ar.sceil(tt(p / b)))           # block k of ceil(p / b)
    i = Sym(T.of(k)) * b
    j = h.W.np.minimum(i + b, p)
    h.eq("sum of the block likelihoods", got, Sym(tm.mk_sum([k], G(S[i:j, i:j], X[:, i:j]).t)))


def blocks_one(h):
    S, X, p, n = data(h)
    b = h.dim("b")
    h.require(b >= p)
    opaque_density(h)
    h.eq("one block: the full likelihood", lit(h, "BlockPseudoLikelihood", block_size=b).score(S, X_test=X), G(S, X))


def schur(h, interpolation, gamma):
    """make_pos_def is the identity on matrices whose eigenvalues are above the floor; geodesic_step(a, b, g) is a at
    g = 0, b at g = 1 and a when a = b (C19)."""
    np = h.W.np
    S, X, p, n = data(h)
    nb = h.dim("nb")
    g = h.real("gam", 0, 1) if gamma is None else gamma
    opaque_density(h)
    h.W.replace("precise._linalg.make_pos_def", lambda a, eps=1e-8: a.copy())

    def geo(a, b, t):
        if gamma == 0:
            return a.copy()
        if gamma == 1:
            return b.copy()
        h.eq("from the block-diagonal part", a, S * same_block(h, p, nb))
        h.eq("to the estimate", b, S)
        h.eq("by the factor gamma", t, g)
        return Z.copy()
    Z = h.mat("Z", p, pd=True)
    h.W.replace("precise._linalg.geodesic_step", geo)
    W = Watch(h, S, X)
    got = lit(h, "SchurLikelihood", gamma=g, n_blocks=nb, interpolation=interpolation).score(S, X_test=X)
    h.fact("inputs untouched", not W.hit)
    B = same_block(h, p, nb)
    if gamma == 1:
        h.eq("full trust: the full likelihood", got, G(S, X))
    elif gamma == 0:
        h.eq("no trust: the block-diagonal likelihood", got, G(S * B, X))
    elif interpolation == "geodesic":
        h.eq("likelihood at the point of the geodesic", got, G(Z, X))
    else:
        h.eq("cross-block covariances times gamma", got, G(S * (B + g * (1 - B)), X))


def schur_geo_diag(h):
    """A diagonal estimate has nothing to damp."""
    np = h.W.np
    p, n = h.dim(), h.dim("n")
    v = h.vec("v", p)
    S, X = np.diag(v), h.rows("X", n, p)
    opaque_density(h)
    h.W.replace("precise._linalg.make_pos_def", lambda a, eps=1e-8: a.copy())

    def geo(a, b, t):
        h.eq("the geodesic ends coincide", a, b)
        return b.copy()
    h.W.replace("precise._linalg.geodesic_step", geo)
    for interp in ("linear", "geodesic"):
        got = lit(h, "SchurLikelihood", gamma=h.real("gam", 0, 1), n_blocks=h.dim("nb"), interpolation=interp).score(S, X_test=X)
        h.eq(f"nothing to damp ({interp})", got, G(S, X))


def schur_one(h):
    """A single block has nothing to damp."""
    S, X, p, n = data(h)
    opaque_density(h)
    h.W.replace("precise._linalg.make_pos_def", lambda a, eps=1e-8: a.copy())

    def geo(a, b, t):
        h.eq("the geodesic ends coincide", a, b)
        return b.copy()
    h.W.replace("precise._linalg.geodesic_step", geo)
    for interp in ("linear", "geodesic"):
        got = lit(h, "SchurLikelihood", gamma=h.real("gam", 0, 1), n_blocks=1, interpolation=interp).score(S, X_test=X)
        h.eq(f"nothing to damp ({interp})", got, G(S, X))


def sample_cov(h, X):
    np = h.W.np
    n = X.shape[0]
    c = X - X.sum(axis=0) / n
    return (c.T @ c) / n


def stein(h, one=False):
    np = h.W.np
    p, n = 1 if one else h.dim(lo=2), h.dim("n")
    S, X = h.mat("S", p, pd=True), h.rows("X", n, p)
    W = Watch(h, S, X)
    got = lit(h, "SteinLoss").score(S, X_test=X)
    h.fact("inputs untouched", not W.hit)
    M = np.linalg.inv(S) @ sample_cov(h, X)
    h.eq("-(trace M - log det M - p)", got, -(np.trace(M) - np.linalg.slogdet(M)[1] - p))


def stein_zero(h):
    np = h.W.np
    p, n = h.dim(), h.dim("n")
    S, X = h.mat("S", p, pd=True), h.rows("X", n, p)
    h.W.np.cov = lambda *a, **k: S.copy()
    got = lit(h, "SteinLoss").score(S, X_test=X)
    h.eq("zero at the sample covariance", got, 0)


def frobenius(h):
    np = h.W.np
    p = h.dim()
    S, Z = h.mat("S", p, pd=True), h.mat("Z", p, pd=True)
    W = Watch(h, S, Z)
    got = lit(h, "FrobeniusToTruth").score(S, true_cov=Z)
    h.fact("inputs untouched", not W.hit)
    d2, z2 = ((S - Z) * (S - Z)).sum(), (Z * Z).sum()
    h.eq("relative Frobenius distance", got * np.sqrt(z2), -np.sqrt(d2))
    h.ge("never positive", -got)
    h.eq("zero at the truth", lit(h, "FrobeniusToTruth").score(Z.copy(), true_cov=Z), 0)


def frobenius_only(h):
    """Zero only at the truth: a zero score forces a zero sum of squares."""
    np = h.W.np
    p = h.dim()
    S, Z = h.mat("S", p, pd=True), h.mat("Z", p, pd=True)
    got = lit(h, "FrobeniusToTruth").score(S, true_cov=Z)
    h.eq("score^2 |Z|^2 = |S - Z|^2", got * got * (Z * Z).sum(), ((S - Z) * (S - Z)).sum())


def gmv(h):
    np = h.W.np
    S, X, p, n = data(h)
    W = Watch(h, S, X)
    got = lit(h, "GMVVariance").score(S, X_test=X)
    h.fact("inputs untouched", not W.hit)
    P = np.linalg.inv(S)
    w = P.sum(axis=1) / P.sum()
    r = X @ w
    h.eq("minus the mean squared return of the minimum variance weights", got, -np.mean(r * r))


def gmv_scale(h):
    S, X, p, n = data(h)
    c = h.real("c", 0, lo_open=True)
    g = lit(h, "GMVVariance")
    h.eq("scale free", g.score(c * S, X_test=X), g.score(S, X_test=X))


def variogram(h):
    np = h.W.np
    p, n = h.dim(), h.dim("n")
    S, X = h.mat("S", p, pd=True), h.rows("X", n, p)
    W = Watch(h, S, X)
    got = lit(h, "VariogramScore").score(S, X_test=X)
    h.fact("inputs untouched", not W.hit)
    k, i, j = h.index(n), h.index(p), h.index(p)
    d = np.diagonal(S)
    var = np.maximum(d[:, None] + d[None, :] - 2 * S, 0)
    e = abs(X[:, :, None] - X[:, None, :]) - np.sqrt(2 / np.pi * var)[None]
    h.eq("minus the mean of the summed squared errors", got, -(e * e).sum() / n)


def usable(h):
    for cls in ("LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance",
                "VariogramScore"):
        a = lit(h, cls)
        for d in (False, True):
            for t in (False, True):
                h.fact(f"{cls} usable with data={d}, truth={t}",
                       bool(a.usable(have_data=d, have_truth=t)) == (t if cls == "FrobeniusToTruth" else d))
        b = h.W.get("precise.assessment.registry.assessor_from_name")(cls)
        h.fact(f"{cls} found by name", type(b) is type(a))
    names = [a.name for a in h.W.get("precise.assessment.registry.all_assessors")()]
    h.fact("each registered once", len(names) == len(set(names)) == 7)


def run(tier):
    P = Prover("C23", tier)
    P.check("stein (one variable)", lambda h: stein(h, True))
    for b in (gauss, loglik, blocks, blocks_one, stein, stein_zero, frobenius, frobenius_only, gmv, gmv_scale, variogram, usable,
              schur_geo_diag, schur_one):
        P.check(b.__name__, b)
    for it in ("linear", "geodesic"):
        for g in (0.0, 1.0, None):
            P.check(f"schur {it} gamma={g}", lambda h, it=it, g=g: schur(h, it, g))
    r = P.run()
    r.assumptions = ["a sum of squares vanishes only when every term does (zero Frobenius score only at the truth)",
                     "make_pos_def is the identity above its eigenvalue floor and geodesic_step reaches its ends (contracts proved "
                     "under C19)"]
    return r
