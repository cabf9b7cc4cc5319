"""C12: the Schur family damps every cross-block covariance by one factor and keeps the blocks."""
from .. import terms as tm
from ..symnp import Partition
from ..vcapi import Gen, Prover
from .est import R, _c, on_state
from .lib import b_eq, sub
from ..arrays import Arr, tt


def partition(h, p, nb):
    """numpy's partition of p variables into min(nb, p) contiguous near-equal blocks."""
    n = min(nb, p)
    for P in h.R.partitions:
        if h.R.ctx.zero(sub(P.p, tt(p)))[0] == "proved" and h.R.ctx.zero(sub(P.k, tt(n)))[0] == "proved":
            return P
    return Partition.get(tt(p), tt(n))


def same_block(h, p, nb):
    """The 0/1 matrix of pairs in one block of the partition."""
    if h.R.ctx.zero(sub(tt(min(nb, p)), tm.ONE))[0] == "proved":
        return Arr.make((tt(p), tt(p)), lambda i, j: tm.ONE)
    P = partition(h, p, nb)
    f = lambda i: tm.mk_app(P.bid, [i])
    return Arr.make((tt(p), tt(p)), lambda i, j: tm.mk_ind(b_eq(sub(f(i), f(j)))))


def damped(S, W, g):
    return S * (W + g * (1 - W))


def floor(h, M):
    return h.W.get("precise._linalg.make_pos_def")(M)


def linear(h, e, p):
    S = e._state["cov"].copy()
    C, g = e.covariance_, e.gamma
    W = same_block(h, p, e.n_blocks)
    h.eq("cross-block entries times gamma, blocks kept, eigenvalues floored", C, floor(h, damped(S, W, g)))


def estimated(h, e, p):
    S = e._state["cov"].copy()
    C = e.covariance_
    W = same_block(h, p, e.n_blocks)
    g = e.gamma_
    h.ge("gamma_ is at least 0", g)
    h.ge("gamma_ is at most 1", 1 - g)
    h.eq("cross-block entries times gamma_, blocks kept, eigenvalues floored", C, floor(h, damped(S, W, g)))


def whole(h, e, p):
    """One block, or gamma = 1: the plain exponentially weighted covariance (floored)."""
    S = e._state["cov"].copy()
    h.eq("the plain covariance", e.covariance_, floor(h, S))


def halves(h, e, p):
    """gamma = 0: the block-diagonal matrix (floored); block-diagonal: zero across, S within."""
    S = e._state["cov"].copy()
    C = e.covariance_
    W = same_block(h, p, e.n_blocks)
    h.eq("the block-diagonal matrix", C, floor(h, S * W))


def block(h, e, p):
    """The Block estimator reports, for each block of the same partition, the floored covariance of that block."""
    C = e.covariance_
    s = e._state
    k, l = h.index(s["slices"].n), h.index(s["slices"].n)
    h.eq("number of blocks", s["slices"].n, min(e.n_blocks, p))
    a, b = s["slices"].at(k.t)
    c, d = s["slices"].at(l.t)
    P = partition(h, p, e.n_blocks)
    h.eq("blocks start where the partition does", a, sn_start(P, k))
    h.eq("blocks end where the partition does", b, sn_start(P, k + 1))
    h.eq("within a block: the floored covariance of the block", C[a:b, a:b], floor(h, s["subs"].at(k.t)["cov"]))
    if k != l:
        h.eq("zero across blocks", C[a:b, c:d], h.W.np.zeros((b - a, d - c)))


def sn_start(P, k):
    from ..arrays import Sym
    return Sym(P.at(tt(k)))


def conditional(h, e, p):
    e.covariance_
    h.ge("gamma_ is at least 0", e.gamma_)
    h.ge("gamma_ is at most 1", 1 - e.gamma_)


def conditional_one(h, e, p):
    np = h.W.np
    S = e._state["cov"].copy()
    C = e.covariance_
    d = np.sqrt(np.maximum(np.diagonal(S), 1e-12))
    corr = h.W.get("precise._linalg.cov_to_corrcoef")(S)
    h.eq("the plain correlation rescaled by the plain deviations", C, floor(h, corr) * (d.reshape(-1, 1) * d))


G = lambda h: h.real("gam", 0, 1)
NB = lambda h: h.dim("nb")
SPECIAL = {
    "schur, gamma 1": (_c("SchurCovariance", r=R, n_blocks=NB, gamma=1.0), whole),
    "schur, one block": (_c("SchurCovariance", r=R, n_blocks=1, gamma=G), whole),
    "schur, gamma 0": (_c("SchurCovariance", r=R, n_blocks=NB, gamma=0.0), halves),
    "schur-lw, one block": (_c("SchurLedoitWolfCovariance", r=R, n_blocks=1), whole),
    "schur-conditional, one block": (_c("SchurConditionalCovariance", r=R, n_blocks=1), conditional_one),
}


def run(tier):
    P = Prover("C12", tier)
    on_state(P, "schur", "covariance_", linear)
    on_state(P, "schur-lw", "covariance_", estimated)
    on_state(P, "block", "covariance_", block)
    on_state(P, "schur-conditional", "gamma_", conditional)
    for n, (make, body) in SPECIAL.items():
        g = Gen(make, n)
        P.check(f"{n}: covariance_", lambda h, g=g, body=body: body(h, *g.state(h)), gens=[g])
    r = P.run()
    r.assumptions = ["flooring the eigenvalues of a block-diagonal matrix floors those of each block (spectral functions act "
                     "blockwise): links gamma = 0 to what the Block estimator reports"]
    return r
