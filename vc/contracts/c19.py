"""C19: the matrix helpers do what they promise."""
from ..vcapi import Prover
from .lib import outer

L = "precise._linalg."


def symmetrise(h):
    p = h.dim()
    f = h.W.get(L + "to_symmetric")
    A, S = h.mat("A", p, p), h.mat("S", p, sym=True)
    B = f(A)
    h.eq("the symmetric part", B, (A + A.T) / 2)
    h.sym("symmetric", B)
    h.eq("a symmetric matrix is unchanged", f(S), S)


def floor(h):
    np = h.W.np
    p = h.dim()
    f = h.W.get(L + "make_pos_def")
    eps = h.real("eps", 0, lo_open=True)
    A = h.mat("A", p, p)
    B = f(A, eps)
    h.sym("symmetric", B)
    h.psd("all eigenvalues at least the floor", B - eps * np.eye(p))
    D = f(A)
    h.psd("default floor 1e-8", D - 1e-8 * np.eye(p))
    G = f(h.mat("G", p, p), 1e-8)
    h.psd("floor given", G - 1e-8 * np.eye(p))


def floor_id(h):
    np = h.W.np
    p = h.dim()
    f = h.W.get(L + "make_pos_def")
    eps = h.real("eps", 0, lo_open=True)
    A = h.mat("A", p, psd=True) + eps * np.eye(p)
    h.eq("unchanged when the eigenvalues are at least the floor", f(A, eps), A)
    B = h.mat("B", p, psd=True) + 1e-8 * np.eye(p)
    h.eq("unchanged when the eigenvalues are at least the default floor", f(B), B)


def nearest(h):
    p = h.dim()
    f = h.W.get(L + "nearest_pos_def")
    g = h.W.get(L + "is_positive_def")
    A = h.mat("A", p, p)
    B = f(A)
    h.sym("symmetric", B)
    h.fact("positive definite", g(B))


def nearest_id(h):
    p = h.dim()
    f = h.W.get(L + "nearest_pos_def")
    A = h.mat("A", p, pd=True)
    h.eq("a positive definite matrix is unchanged", f(A), A)


def ridge(h):
    np = h.W.np
    p = h.dim()
    f = h.W.get(L + "affine_shrink")
    A = h.mat("A", p, psd=True)
    tr = np.trace(A)
    h.require(tr > 0)          # a semi-definite matrix with zero trace is zero
    B = f(A)
    h.sym("symmetric", B)
    c = 0.01 * 1.01 * tr / p
    h.ge("the ridge is positive", c)
    h.true("the ridge is not zero", c > 0)
    h.psd("at least the ridge", B - c * np.eye(p))
    phi, l = h.real("phi", 1), h.real("lmbd", 0, 1, lo_open=True)
    B = f(A, phi, l)
    c = l * phi * tr / p
    h.true("the ridge is positive (any weights)", c > 0)
    h.psd("at least the ridge (any weights)", B - c * np.eye(p))


def inverse(h):
    p = h.dim()
    f = h.W.get(L + "try_invert")
    A = h.mat("A", p, pd=True)
    h.eq("an inverse", f(A) @ A, h.W.np.eye(p))
    h.sym("symmetric", f(A))


def geodesic(h):
    p = h.dim()
    f = h.W.get(L + "geodesic_step")
    A, B = h.mat("A", p, p), h.mat("B", p, p)
    R = f(A, B, h.real("g", 0, 1))
    h.sym("symmetric", R)
    h.psd("semi-definite for any input and fraction", R)


def admissible(h, name, p):
    """Eigenvalues at least 1e-8, condition at most 1e10."""
    t, u = h.real(f"t{name}", 1e-8), h.real(f"u{name}", 0)
    h.require(10 ** 10 * t >= u)
    return h.spectrum(name, p, t, u)


def geodesic_ends(h):
    p = h.dim()
    f = h.W.get(L + "geodesic_step")
    A = admissible(h, "A", p)
    B = admissible(h, "B", p)
    h.eq("the start at 0", f(A, B, 0), A)
    h.eq("the end at 1", f(A, B, 1), B)


def geodesic_pd(h):
    """Definite for every fraction: the step has an inverse (and is semi-definite)."""
    np = h.W.np
    p = h.dim()
    f = h.W.get(L + "geodesic_step")
    A = admissible(h, "A", p)
    B = admissible(h, "B", p)
    g = h.real("g", 0, 1)
    w, U = np.linalg.eigh(A)
    r, ri = (U * np.sqrt(w)) @ U.T, (U * (1 / np.sqrt(w))) @ U.T
    M = ri @ B @ ri
    M = (M + M.T) / 2
    h.invertible("the middle", M, r @ np.linalg.inv(B) @ r)
    m, V = np.linalg.eigh(M)
    R = f(A, B, g)
    Ri = ri @ (V * (1 / m ** g)) @ V.T @ ri
    h.psd("semi-definite", R)
    h.eq("invertible", R @ Ri, np.eye(p))


def run(tier):
    P = Prover("C19", tier)
    for b in (symmetrise, floor, floor_id, nearest, nearest_id, ridge, inverse, geodesic, geodesic_ends, geodesic_pd):
        P.check(b.__name__, b)
    return P.run()
