"""The keyed outputs shared by the adapters, from the contract of cov_array (C20, C22): it returns a matrix and the names.

Any number of names: every output is the matrix, or its correlations with one on the diagonal, under those names.
"""
from types import SimpleNamespace

from ..arrays import Sym, tt
from .c20 import Names, stub
from .lib import at

VERBS = ["get_cov", "get_corr", "to_frame", "covariance_", "covariance", "correlation_"]


class Frame:
    _vc_pure = True

    def __init__(self, data=None, index=None, columns=None):
        self.data, self.index, self.columns = data, index, columns


def output(cls, verb):
    def body(h):
        n = h.dim("n")
        C = h.mat("Cov", n, pd=True)
        h.mean, h.cov = h.vec("mean", n), C
        E = stub(h, [])
        h.W.extra["pandas"] = SimpleNamespace(DataFrame=Frame)
        names, asked = Names(tt(n)), Names(tt(n))
        got = []

        def cov_array(self, keys=None):
            got.append(keys)
            return C.copy(), names

        A = type("Adapter", (h.W.get(cls),), {"cov_array": cov_array})(E())
        R = h.W.get("precise._linalg.cov_to_corrcoef")(C)
        i, j = h.index(n), h.index(n)
        want = at(R, i, j) if "corr" in verb else at(C, i, j)
        if "corr" in verb and bool(i == j):
            want = 1
        if verb in ("covariance_", "covariance", "correlation_"):
            d = getattr(A, verb)
            h.fact("of the names at hand", got == [None])
            h.eq("as many names", Sym(d.pairs.n), n)
            h.eq("in order", Sym(d.pairs.at(tt(i))[0].i), i)
            row = d[names.at(tt(i))]
            h.eq("as many in every row", Sym(row.pairs.n), n)
            h.eq("in order in every row", Sym(row.pairs.at(tt(j))[0].i), j)
            h.eq("the entry of the two names", row[names.at(tt(j))], want)
            return
        for how in ("asked", "not asked"):
            got.clear()
            m = getattr(A, verb)(asked) if how == "asked" else getattr(A, verb)()
            h.fact(f"of the names asked for ({how})", len(got) == 1 and got[0] is (asked if how == "asked" else None))
            if verb == "to_frame":
                h.fact("labelled with the names", isinstance(m, Frame) and m.index is names and m.columns is names)
                m = m.data
            h.eq("rows", m.shape[0], n)
            h.eq("columns", m.shape[1], n)
            h.eq(f"the entry of the two names ({how})", at(m, i, j), want)
    return body


def run(P, cls):
    for v in VERBS:
        P.check(f"output/{v}", output(cls, v))
