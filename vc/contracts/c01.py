"""C01: covariance_ is symmetric positive semi-definite in every reachable state."""
from ..vcapi import Prover
from .c16 import cond
from .est import ALL, on_state
from .lib import at, outer


def read(h, e, p):
    S = e.covariance_
    h.eq("shape is n_dim x n_dim", S.shape[0], p)
    h.psd("covariance_ is symmetric positive semi-definite", S)


def common_correlation(h, e, p):
    """covariance_ = (1-a) S + a T with T the variances of S and one correlation r.  With m = sum sd_i x_i and
    v = sum S_ii x_i^2, x'Tx = r m^2 + (1-r) v; r is at most 1 and at least -1/(p-1); m^2 <= p v."""
    np = h.W.np
    S = e._state["cov"].copy()
    C = e.covariance_
    a = e.delta
    h.eq("shape is n_dim x n_dim", C.shape[0], p)
    h.sym("covariance_ is symmetric", C)
    x = h.vec("x", p)
    h.psd("the recursive covariance is semi-definite", S)
    form = x @ C @ x
    if not p > 1:
        h.ge("x'Cx is not negative", form)
        return
    I = np.eye(p)
    D = np.diagonal(S)
    sd = np.sqrt(D)
    d = np.maximum(sd, 1e-6)
    u = 1 / d
    off = 1 - np.eye(p)
    R = S * outer(h, u)

    def below(i, j):
        if i == j:
            return
        h.lemma("S_ii is at most d_i^2", 1 - at(R, i, i))
        h.lemma("S_jj is at most d_j^2", 1 - at(R, j, j))
        h.lemma("S at e_i/d_i - e_j/d_j", at(R, i, i) + at(R, j, j) - 2 * at(R, i, j))

    h.sum_ge("no correlation above 1", off * (1 - R), below)
    r = np.sum(off * R) / (p * (p - 1))
    h.lemma("the common correlation is at most 1", 1 - r)
    h.sum_ge("S_ii is at most d_i^2", 1 - np.diagonal(R))
    h.lemma("S at the vector 1/d", np.sum(R))
    h.lemma("the common correlation is at least -1/(p-1)", 1 + (p - 1) * r)
    q, m, v = x @ S @ x, np.sum(sd * x), np.sum(D * x * x)
    h.ge("x'Sx", q)
    h.ge("v", v)
    y = sd * x
    gaps = (y[:, None] - y[None, :]) ** 2
    h.sum_ge("p v - m^2 by Cauchy-Schwarz", gaps)
    h.eq("p v - m^2", np.sum(gaps) / 2, p * v - m * m)
    h.eq("x'Cx = (1-a) x'Sx + a (r m^2 + (1-r) v)", form, (1 - a) * q + a * (r * m * m + (1 - r) * v))
    h.ge("a at least 0", a)
    h.ge("a at most 1", 1 - a)


def algebra(h):
    """The inequality that the common_correlation contract instantiates with its proved premises."""
    a, m = h.real("a", 0, 1), h.real("m")
    q, v = h.real("q", 0), h.real("v", 0)
    p, r = h.dim("p", 2), h.real("r", None, 1)
    h.require(1 + (p - 1) * r >= 0)
    h.require(p * v - m * m >= 0)
    if r >= 0:
        h.ge("(1-a) q + a (r m^2 + (1-r) v) is not negative", (1 - a) * q + a * (r * m * m + (1 - r) * v))
    else:
        h.eq("the same in non-negative terms", r * m * m + (1 - r) * v, (1 + (p - 1) * r) * v - r * (p * v - m * m))
        h.ge("(1-a) q + a (r m^2 + (1-r) v) is not negative", (1 - a) * q + a * ((1 + (p - 1) * r) * v - r * (p * v - m * m)))


def conditional(h):
    """D R D with R the correlation of the sub-model (symmetric and semi-definite by C08), any variances."""
    e, p, fam, proto, log = cond(h)
    x = h.rows("x", 1, p)
    fam.expect = x[0]
    e.partial_fit(x)
    fam.settle()
    read(h, e, p)
    e._state["var"] = h.vec("any var", p)
    read(h, e, p)


def run(tier):
    P = Prover("C01", tier)
    for c in ALL:
        if c != "shrunk":
            on_state(P, c, "covariance_", read)
    on_state(P, "shrunk", "covariance_", common_correlation)
    P.check("conditional: covariance_", conditional)
    P.check("the algebra of a common correlation", algebra)
    return P.run()
