"""C04: the row loop is a fold of the one-row update, so every chunking gives the same state."""
from ..vcapi import Prover
from .est import CFG, DIFF, GEN
from .lib import RowLoop, arbitrary_state, same_est, twin

# Loop invariant: after k rows the estimator is in the state it would be in had they been fed one at a time.
# On entry the state must be the one before the call, an iteration from an arbitrary state must do what feeding
# that row on its own does, and nothing may happen after the loop.


def batch(kind, mkind, cfg, diff, fit):
    """partial_fit/fit of any number of rows, entered in state ``kind``, observed at a state ``mkind``."""
    G = GEN[cfg]

    def make(h):
        e, p = CFG[cfg](h)
        if diff:
            e.diff = True
        return e, p

    def body(h):
        e, p = make(h)
        put = arbitrary_state(h, p, G, diff)
        put(e, kind, "s")
        n = h.dim("nrows")
        X = h.rows("X", n, p)
        entry = twin(e)
        if fit:
            entry._state = entry._prev_x = None

        def end(L, row):
            L.f.partial_fit(row)
            same_est(h, "row k of a batch = row k on its own", e, L.f)

        L = RowLoop(h, e, X, lambda est, pre: put(est, mkind, pre),
                    lambda: same_est(h, "nothing learned before the first row", e, entry), end)
        h.R.loop_cut = L
        r = e.fit(X) if fit else e.partial_fit(X)
        L.reached()
        h.fact("returns the estimator", r is e)
        if L.done:
            same_est(h, "nothing happens after the last row", e, L.after)
    return body


def two(cfg, diff):
    """Unrolled: two rows in one call (covers loops that carry locals; bounded in the number of rows)."""
    def body(h):
        e, p = (DIFF[cfg] if diff else GEN[cfg]).state(h)
        f = twin(e)
        X = h.rows("X", 2, p)
        e.partial_fit(X)
        f.partial_fit(X[0])
        f.partial_fit(X[1])
        same_est(h, "two rows in one call", e, f)
    return body


def run(tier):
    P = Prover("C04", tier)
    for c in GEN:
        for diff in (False, True):
            kinds = ["fresh", "level", "state"] if diff else ["fresh", "state"]
            for k in kinds:
                for m in kinds:
                    if kinds.index(m) < kinds.index(k):
                        continue
                    if diff and (k, m) in (("fresh", "level"), ("level", "state")) and c not in ("ewa",):
                        continue
                    P.check(f"{c}{' diff' if diff else ''}: partial_fit entered {k}, at a row met {m}", batch(k, m, c, diff, False),
                            gens=[GEN[c]])
            for m in kinds:
                P.check(f"{c}{' diff' if diff else ''}: fit, at a row met {m}", batch("state", m, c, diff, True), gens=[GEN[c]])
    r = P.run()
    r.assumptions = ["the chunking claim follows from the loop contract by induction on the rows; the reachable states of "
                     "a differencing estimator are those of the plain one (C26)"]
    return r
