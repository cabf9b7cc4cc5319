"""C30: the scalar closed forms of the Schur analysis, for all admissible values."""
from ..vcapi import Prover

G, L = "research.schur_gamma_star.", "research.schur_likelihood_theory."


def n_of(h, name="n"):
    return h.real(name, 2, lo_open=True, sample=lambda r: r.choice([3, 4, 10, 100]))


def rho_of(h, name="rho2", open_=True):
    return h.real(name, 0, 1, lo_open=open_, hi_open=open_)


def trust(h):
    """gamma* lies in [0, 1] and is the reliability of the coupling."""
    n, q = n_of(h), rho_of(h, open_=False)
    g = h.W.get(G + "gamma_star")(n, q)
    h.ge("at least 0", g)
    h.ge("at most 1", 1 - g)
    h.eq("(n-2) rho2 / ((n-2) rho2 + 1 - rho2)", g * ((n - 2) * q + 1 - q), (n - 2) * q)


def minimiser(h):
    """R(g) = [b^2 (1-g)^2 + g^2 v] a + s with v = s/(a(n-2)) exceeds R(gamma*) by a(b^2 + v)(g - gamma*)^2."""
    n = n_of(h)
    a, s, b = h.real("a", 0, lo_open=True), h.real("s", 0, lo_open=True), h.real("b")
    q = b * b * a / (b * b * a + s)
    v = s / (a * (n - 2))
    star = h.W.get(G + "gamma_star")(n, q)
    R = lambda g: (b * b * (1 - g) * (1 - g) + g * g * v) * a + s
    g = h.real("g")
    h.eq("excess risk", R(g) - R(star), a * (b * b + v) * (g - star) * (g - star))
    h.ge("the minimiser", R(g) - R(star))
    h.eq("b^2 / (b^2 + Var b_hat)", star * (b * b + v), b * b)


def in_n(h):
    n, q = n_of(h), rho_of(h, open_=False)
    d = h.real("d", 0)
    f = h.W.get(G + "gamma_star")
    h.ge("non-decreasing in n", f(n + d, q) - f(n, q))


def in_rho(h):
    n, q = n_of(h), rho_of(h, open_=False)
    d = h.real("d", 0)
    h.require(q + d <= 1)
    f = h.W.get(G + "gamma_star")
    h.ge("non-decreasing in the coupling", f(n, q + d) - f(n, q))


def parts(h):
    np = h.W.np
    q, s = rho_of(h), h.real("s", 0, lo_open=True)
    a, b, t = h.W.get(G + "_ab_s_from")(q, s)
    h.eq("the stated coupling", b * b * a * (1 - q), q * t)
    h.eq("the stated noise", t, s)


def law(h):
    a, s, b = h.real("a", 0, lo_open=True), h.real("s", 0, lo_open=True), h.real("b")
    g = h.real("gam", 0, 1, lo_open=True)
    return a, b, s, g


def maximiser(h):
    a, b, s, g = law(h)
    A, C, D = h.W.get(L + "closed_form_maximizer")(a, b, s, g)
    h.eq("marginal variance", A, a)
    h.eq("effective coefficient is the true regression", g * C / A, b)
    h.eq("damped conditional variance is the true one", D - g * C * C / A, s)
    h.eq("covariance inflated by 1/gamma", g * C, b * a)
    h.eq("variance inflated", D - (b * b * a + s), b * b * a * (1 / g - 1))


def objective(h):
    """The expected log-likelihood at (A, C, D), and that no candidate beats the closed form: with u = a/A,
    v = resid/S: the difference is (u - 1 - log u + v - 1 - log v + (resid/s* - 1 - log(resid/s*) ...))/2, each term
    non-negative because log t <= t - 1."""
    np = h.W.np
    a, b, s, g = law(h)
    f = h.W.get(L + "schur_loglik_population")
    A, C, D = h.real("A"), h.real("C"), h.real("D")
    if A <= 0:
        h.true("no likelihood outside the domain", f(a, b, s, g, A, C, D) < -1e300)
        return
    S = D - g * C * C / A
    if S <= 0:
        h.true("no likelihood outside the domain", f(a, b, s, g, A, C, D) < -1e300)
        return
    e = b - g * C / A
    resid = e * e * a + s
    got = f(a, b, s, g, A, C, D)
    h.eq("value", -2 * got, np.log(A) + a / A + np.log(S) + resid / S)
    best = f(a, b, s, g, *h.W.get(L + "closed_form_maximizer")(a, b, s, g))
    h.eq("value at the closed form", -2 * best, np.log(a) + 1 + np.log(s) + 1)
    # log t <= t - 1 at t = a/A and t = resid/S, with log(x/y) = log x - log y, and log resid >= log s
    h.require(np.log(a) - np.log(A) <= a / A - 1)
    h.require(np.log(s) - np.log(S) <= s / S - 1)
    h.ge("no candidate beats it", best - got)


def threshold(h):
    a, b, s, g = law(h)
    A, C, D = h.W.get(L + "closed_form_maximizer")(a, b, s, g)
    ok = h.W.get(L + "spd_threshold_holds")(a, b, s, g)
    e = b * b * a
    q = e / (e + s)
    if ok:
        h.true("positive definite inside", A * D - C * C > 0)
        h.true("gamma^2 (1 - rho2) > (1 - gamma) rho2 inside", g * g * (1 - q) > (1 - g) * q)
    else:
        h.ge("not positive definite outside", C * C - A * D)
        h.ge("gamma^2 (1 - rho2) <= (1 - gamma) rho2 outside", (1 - g) * q - g * g * (1 - q))


def root(h):
    q = rho_of(h)
    g = h.W.get(L + "_solve_spd_threshold")(q)
    h.eq("solves the quadratic", g * g * (1 - q), (1 - g) * q)
    h.true("positive", g > 0)
    h.ge("at most 1", 1 - g)


def exits(h):
    """Below the root the maximiser is not positive definite, above it it is."""
    q, g = rho_of(h), h.real("gam", 0, 1, lo_open=True)
    r = h.W.get(L + "_solve_spd_threshold")(q)
    lhs = g * g * (1 - q) - (1 - g) * q
    h.eq("factored at the root", lhs, (g - r) * ((1 - q) * (g + r) + q))
    h.ge("second factor is not negative", (1 - q) * (g + r) + q)


def run(tier):
    P = Prover("C30", tier)
    for b in (trust, minimiser, in_n, in_rho, parts, maximiser, objective, threshold, root, exits):
        P.check(b.__name__, b)
    r = P.run()
    r.assumptions = ["log t <= t - 1 and log(x/y) = log x - log y, used once each for the maximiser"]
    return r
