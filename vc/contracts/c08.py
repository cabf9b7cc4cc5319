"""C08: correlation_ is the two-sided rescaling of covariance_; unit diagonal, entries in [-1, 1], semi-definite."""
from ..arrays import num, tt
from ..terms import T, new_ix
from ..vcapi import Prover
from .est import ALL, on_state
from .lib import Sym, at, b_ge, modular, sub

FLOOR = 1e-12


def is_correlation(h, S, C, p, filled=False):
    np = h.W.np
    if filled:
        # a correlation matrix whose diagonal is raised to one: semi-definite part plus non-negative diagonal
        base = h.W.get("precise._linalg.cov_to_corrcoef")(S)
        i = h.index(p)
        ok = h.psd("rescaled covariance is semi-definite", base)
        ok &= h.ge("its diagonal is at most 1", 1 - at(base, i, i))
        ok &= h.eq("correlation = rescaled covariance, diagonal raised to 1", C, base + np.diag(1 - np.diagonal(base)))
        if not ok:
            return
    elif not h.psd("correlation is semi-definite", C):
        return
    i, j = h.index(p), h.index(p)
    si, sj = np.maximum(np.sqrt(at(S, i, i)), FLOOR), np.maximum(np.sqrt(at(S, j, j)), FLOOR)
    d = at(C, i, j) * si * sj - at(S, i, j)
    if filled:
        # the diagonal is set to one: only off-diagonal entries are rescaled covariances
        h.zero("correlation_ij sd_i sd_j = covariance_ij (i != j)", tt(d * (1 - h.ind(i, j))))
        h.eq("unit diagonal", at(C, i, i), 1)
    else:
        h.eq("correlation_ij sd_i sd_j = covariance_ij", d, 0)
        h.ge("diagonal at most 1", 1 - at(C, i, i))
        if np.sqrt(at(S, i, i)) > FLOOR:
            h.eq("unit diagonal above the floor", at(C, i, i), 1)
    h.psd_at(C, i, j)
    h.ge("entries at most 1", 1 - at(C, i, j))
    h.ge("entries at least -1", 1 + at(C, i, j))


def corrcoef(h):
    p = h.dim()
    S = h.mat("S", p, psd=True)
    is_correlation(h, S, h.W.get("precise._linalg.cov_to_corrcoef")(S), p)


def read(h, e, p):
    modular(h, e, p)
    is_correlation(h, e.covariance_, e.correlation_, p)


def keyed(h):
    """get_corr of any keyed adapter, against the contract of cov_array."""
    p = h.dim()
    S = h.mat("S", p, psd=True)
    A = h.W.get("precise.keyed._KeyedAdapter")
    a = type("Adapter", (A,), {"cov_array": lambda self, keys=None: (S.copy(), None)})()
    is_correlation(h, S, a.get_corr(), p, filled=True)


def conditional(h):
    p = h.dim()
    e = h.W.get("precise.ConditionalCovariance")()
    e._state = {"n_dim": p, "n_samples": 1, "mean": h.vec("m", p), "var": h.vec("v", p)}
    modular(h, e, p)
    is_correlation(h, e.covariance_, e.correlation_, p)


def run(tier):
    P = Prover("C08", tier)
    P.check("cov_to_corrcoef", corrcoef)
    for c in ALL:
        on_state(P, c, "correlation_", read)
    P.check("keyed get_corr", keyed)
    P.check("ConditionalCovariance.correlation_", conditional)
    r = P.run()
    r.assumptions = ["covariance_ is symmetric semi-definite (C01, proved separately)"]
    return r
