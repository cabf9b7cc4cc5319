"""C24: descriptors within their ranges; suggest returns the best registered classes, by the tree's vote then the heuristic."""
from ..known import known_findings
from ..vcapi import Prover
from .lib import Sym, Watch, at, b_ge

REC = "precise.recommend."
NAMES = ["p_over_n", "effective_rank", "sphericity", "condition_number", "mean_abs_offdiag_corr", "avg_excess_kurtosis"]


def features(h):
    np = h.W.np
    n, p = h.dim("n"), h.dim()
    X = h.rows("X", n, p)
    W = Watch(h, X)
    h.S = h.mat("S", p, psd=True)              # the sample covariance, by what is proved of it
    np.cov = lambda m, rowvar=True, bias=False: h.S.copy()
    f = h.W.get(REC + "covariance_features")(X)
    h.fact("input untouched", not W.hit)
    h.fact("the descriptors", set(f) == set(NAMES) | {"n", "p"}, sorted(f))
    h.eq("n", f["n"], n)
    h.eq("p", f["p"], p)
    h.eq("p_over_n", f["p_over_n"] * n, p)
    # the two lemmas below, for the floored spectrum
    e = np.clip(np.linalg.eigvalsh(h.S), 1e-12, None)
    s1, s2 = e.sum(), (e * e).sum()
    h.require(s1 * s1 >= s2)
    h.require(p * s2 >= s1 * s1)
    h.ge("effective rank at least 1", f["effective_rank"] - 1)
    h.ge("effective rank at most p", p - f["effective_rank"])
    h.eq("effective rank is the participation ratio", f["effective_rank"] * s2, s1 * s1)
    h.eq("condition number is the extreme ratio", f["condition_number"] * e.min(), e.max())
    Xc = X - X.mean(axis=0)
    v = np.maximum(np.diagonal(h.S), 1e-12)
    h.eq("mean excess kurtosis", f["avg_excess_kurtosis"], (((Xc * Xc) * (Xc * Xc)).mean(axis=0) / (v * v) - 3).mean())
    h.eq("sphericity is effective rank / p", f["sphericity"] * p, f["effective_rank"])
    h.true("sphericity positive", f["sphericity"] > 0)
    h.ge("sphericity at most 1", 1 - f["sphericity"])
    h.ge("condition number at least 1", f["condition_number"] - 1)
    correlations(h, f, X, p)


def correlations(h, f, X, p):
    """The mean absolute correlation is the average over i != j of numbers in [0, 1], hence in [0, 1] (lemma)."""
    np = h.W.np
    if p <= 1:
        h.eq("no pairs: zero", f["mean_abs_offdiag_corr"], 0)
        return
    S = h.S
    v = np.maximum(np.diagonal(S), 1e-12)
    C = abs(S) / np.sqrt(np.outer(v, v))
    h.eq("average absolute correlation over the pairs", f["mean_abs_offdiag_corr"] * p * (p - 1), (C * (1 - np.eye(p))).sum())
    i, j = h.index(p), h.index(p)
    h.psd_at(S, i, j)
    h.ge("each at least 0", at(C, i, j))
    h.ge("each at most 1", 1 - at(C, i, j))


def sample(h):
    """The sample covariance is symmetric and positive semi-definite: n^2 c'Sc = n s2 - s1^2 >= 0 for y = Xc (lemma)."""
    n, p = h.dim("n"), h.dim(lo=2)
    X, c = h.rows("X", n, p), h.vec("c", p)
    S = h.W.np.cov(X, rowvar=False, bias=True)
    h.sym("symmetric", S)
    y = X @ c
    h.eq("quadratic form", n * n * (c @ S @ c), n * (y * y).sum() - y.sum() * y.sum())


def lemmas(h):
    """For e_1..e_n >= 0 and s1 = sum e, s2 = sum e^2: s2 <= s1^2 <= n s2, by induction on n."""
    n, s1, s2, e = h.real("n", 0), h.real("s1", 0), h.real("s2", 0), h.real("e", 0)
    h.require(s1 * s1 >= s2)
    h.require(n * s2 >= s1 * s1)
    h.ge("no terms: s1^2 >= s2", 0 * s1)
    h.ge("one more term: s1^2 >= s2", (s1 + e) * (s1 + e) - (s2 + e * e))
    m, x = h.real("m"), h.real("x", 0, 1)
    h.require((m >= 0) & (m <= n))
    h.ge("one more term of a sum in [0, n]: at least 0", m + x)
    h.ge("one more term of a sum in [0, n]: at most n + 1", n + 1 - (m + x))
    # 2 s1 e <= s2 + n e^2, since (s2 + n e^2)^2 >= 4 n s2 e^2 >= (2 s1 e)^2
    a = s2 + n * e * e
    h.eq("square completed", a * a - 4 * n * s2 * e * e, (s2 - n * e * e) * (s2 - n * e * e))
    h.ge("square bounded", 4 * n * s2 * e * e - 4 * s1 * s1 * e * e)
    b = 2 * s1 * e
    h.require(a * a >= b * b)
    h.ge("hence the sides compare", a - b)
    h.require(a >= b)
    h.ge("one more term: n s2 >= s1^2", (n + 1) * (s2 + e * e) - (s1 + e) * (s1 + e))


def any_features(h):
    f = {k: h.real(k) for k in NAMES}
    f["n"], f["p"] = h.dim("n"), h.dim()
    return f


def walk(M, f):
    """The leaf the frozen tree assigns to the descriptors."""
    node = 0
    seen = set()
    while M.FEATURE[node] != -2:
        if node in seen or not 0 <= node < len(M.FEATURE):
            return None
        seen.add(node)
        i = M.FEATURE[node]
        z = (f[M.FEATURES[i]] - M.MEAN[i]) / M.STD[i]
        node = M.LEFT[node] if z <= M.THRESHOLD[node] else M.RIGHT[node]
    return node


def tree(h):
    M = h.W.load("precise._recommender_model")
    f = any_features(h)
    w = h.W.get(REC + "_trained_weights")(f)
    node = walk(M, f)
    h.fact("every path ends in a leaf", node is not None)
    names = [c.__name__ for c in h.W.get("precise.registry.all_estimators")()]
    h.fact("which votes over registered estimators", set(w) <= set(names) and len(M.CLASSES) == len(set(M.CLASSES)), sorted(w))
    h.fact("the votes of that leaf", node is not None and dict(w) == dict(zip(M.CLASSES, M.VALUE[node])))
    h.fact("no vote is negative", all(v >= 0 for v in w.values()))
    quiet = {k for x in known_findings("C24") for k in x["voteless_leaves"]}
    h.fact("the leaf votes (or is a listed finding)", any(v > 0 for v in w.values()) or node in quiet, f"leaf {node}")


PREFERRED = ("FactorCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance")


def heuristic(h, f, names):
    s = {k: 0.0 for k in names}
    hard = False
    if f["p_over_n"] > 0.25:
        hard = True
    elif f["sphericity"] < 0.6:
        hard = True
    elif f["condition_number"] > 50.0:
        hard = True
    for k in (PREFERRED if hard else ("EmpiricalCovariance", "EwaCovariance")):
        s[k] += 2.0
    if f["avg_excess_kurtosis"] > 1.0:
        for k in ("HuberCovariance", "TylerCovariance"):
            s[k] += 1.5
    s["LedoitWolfCovariance"] += 0.5
    return s


def scores(h):
    f = any_features(h)
    names = [c.__name__ for c in h.W.get("precise.registry.all_estimators")()]
    got = h.W.get(REC + "_scores")(f)
    want = heuristic(h, f, names)
    h.fact("the documented heuristic", dict(got) == want, f"{got}")


def ranking(h):
    f = any_features(h)
    M = h.W.load("precise._recommender_model")
    reg = h.W.get("precise.registry.all_estimators")()
    names = [c.__name__ for c in reg]
    h.W.replace(REC + "covariance_features", lambda X: dict(f))
    suggest = h.W.get(REC + "suggest")
    node = walk(M, f)
    vote = dict(zip(M.CLASSES, M.VALUE[node])) if node is not None else {}
    want = heuristic(h, f, names)
    rank = lambda c: (vote.get(c.__name__, 0), want[c.__name__])
    X = h.rows("X", h.dim("n"), h.dim())
    for top in [None] + list(range(1, len(reg) + 3)):
        got = suggest(X) if top is None else suggest(X, top=top)
        k = min(3 if top is None else top, len(reg))
        h.fact(f"top={top}: that many registered classes, none twice", len(got) == k and len(set(got)) == k and all(c in reg for c in got))
        h.fact(f"top={top}: best first", all(rank(a) >= rank(b) for a, b in zip(got, got[1:])))
        h.fact(f"top={top}: none better left out", all(rank(got[-1]) >= rank(c) for c in reg if c not in got) if got else False)


def run(tier):
    P = Prover("C24", tier)
    P.check("covariance_features", features)
    P.check("sample covariance", sample)
    P.check("the heuristic", scores)
    P.check("the tree", tree)
    P.check("ranking", ranking, max_paths=2000, seconds=120)
    P.check("lemmas on sums of squares", lemmas)
    return P.run()
