"""C06: ownership. Inputs are neither written nor kept, results share nothing with the estimator, reads are pure."""
from ..vcapi import Prover
from .est import ALL, DIFF, GEN, on_diff, on_new, on_state
from ..arrays import Arr
from ..exec import Poison
from .lib import RowLoop, Watch, apart, arbitrary_state, copy_val, modular, same, same_est, twin

READS = ["covariance_", "correlation_", "location_", "precision_", "n_samples_"]


def feed(form):
    def body(h, e, p):
        if form == "vector":
            X = h.vec("x", p)
        elif form == "strided":
            big = h.mat("x", p, 2)
            X = big[:, 0]
        else:
            X = h.rows("x", 1, p)
        w = Watch(h, X)
        e.partial_fit(X)
        h.fact("the caller's array is not written", not w.hit)
        apart(h, "no reference to the caller's array is kept", e.__dict__, X)
    return body


def batch(G, diff, fit):
    """A batch of any number of rows, at an arbitrary row of it."""
    def body(h, e, p):
        put = arbitrary_state(h, p, G, diff)
        X = h.rows("X", h.dim("nrows"), p)
        w = Watch(h, X)

        def end(L, row):
            h.fact("the caller's array is not written", not w.hit)
            apart(h, "no reference to the caller's array is kept", e.__dict__, X)

        L = RowLoop(h, e, X, lambda est, pre: put(est, "state", pre), end=end)
        h.R.loop_cut = L
        e.fit(X) if fit else e.partial_fit(X)
        L.reached()
        h.fact("the caller's array is not written", not w.hit)
        apart(h, "no reference to the caller's array is kept", e.__dict__, X)
    return body


def unchanged(h, e, f, p):
    """e behaves like its twin f taken earlier: the same attributes, or at least the same future."""
    same_est(h, "the estimator is unchanged", e, f)
    same(h, "the estimator is unchanged: parameters", e.get_params(), f.get_params())
    extra = {k for k in set(e.__dict__) | set(f.__dict__) if k not in ("_state", "_prev_x", "n_features_in_", "gamma_")
             and k not in e._param_names() and e.__dict__.get(k) is not f.__dict__.get(k)}
    if extra:          # some cache: compare the future
        x = h.rows("x", 1, p)
        for g in (e, f):
            g.partial_fit(x)
        same_est(h, "later updates are unaffected", e, f)
        h.eq("later covariance_ is unaffected", e.covariance_, f.covariance_)
        h.eq("later location_ is unaffected", e.location_, f.location_)


def read(attr):
    def body(h, e, p):
        if attr in ("correlation_", "precision_"):
            modular(h, e, p)
        f = twin(e)
        w = Watch(h, e.__dict__)
        v = getattr(e, attr)
        h.fact("the state is not written", not w.hit)
        apart(h, "the result shares nothing with the estimator", v, e.__dict__)
        unchanged(h, e, f, p)
    return body


def gamma_unread(what):
    """The reported gamma_ is an output only: neither updates nor reads use an earlier value."""
    def body(h, e, p):
        e.gamma_ = Poison("an earlier gamma_")
        e.partial_fit(h.rows("x", 1, p)) if what == "update" else (e.covariance_, e.location_)
        h.fact("gamma_ is never read", True)
    return body


def scoring(h, e, p):
    modular(h, e, p)
    f = twin(e)
    X = h.rows("x", h.dim("m"), p)
    w = Watch(h, e.__dict__, X)
    a = e.mahalanobis(X)
    e.score(X)
    h.fact("neither state nor query is written", not w.hit)
    apart(h, "the distances share nothing with the estimator", a, e.__dict__)
    apart(h, "the distances share nothing with the query", a, X)
    unchanged(h, e, f, p)


def state(h, e, p):
    f = twin(e)
    w = Watch(h, e.__dict__)
    s = e.get_state()
    h.fact("the state is not written", not w.hit)
    apart(h, "the checkpoint shares nothing with the estimator", s, e.__dict__)
    unchanged(h, e, f, p)
    c = copy_val(s)
    g = type(e)(**e.get_params())
    g.set_state(s)
    apart(h, "a restored estimator shares nothing with the checkpoint", s, g.__dict__)
    same(h, "the checkpoint is unchanged", s, c)
    d = e.__getstate__()
    apart(h, "the pickled data share nothing with the estimator", d, e.__dict__)
    unchanged(h, e, f, p)


def get_params(h, e, p):
    f = twin(e)
    d = e.get_params()
    d.clear()
    repr(e)
    unchanged(h, e, f, p)


def run(tier):
    P = Prover("C06", tier)
    for c in ALL:
        for form in ("vector", "row", "strided"):
            on_state(P, c, f"feed {form}", feed(form))
        on_new(P, c, "feed the first observation", feed("vector"))
        on_diff(P, c, "feed", feed("vector"), "fresh")
        on_diff(P, c, "feed", feed("vector"), "level")
        on_diff(P, c, "feed", feed("vector"), "state")
        on_state(P, c, "feed a batch", batch(GEN[c], False, False))
        on_state(P, c, "fit", batch(GEN[c], False, True))
        on_diff(P, c, "feed a batch", batch(GEN[c], True, False))
        for a in READS:
            on_state(P, c, a, read(a))
        on_state(P, c, "scoring", scoring)
        on_state(P, c, "checkpoint", state)
        on_state(P, c, "parameters", get_params)
        on_diff(P, c, "checkpoint", state, "state")
        on_diff(P, c, "checkpoint", state, "level")
    for c in ("schur-lw", "schur-conditional"):
        for what in ("update", "read"):
            on_state(P, c, f"gamma_ is an output, {what}", gamma_unread(what))
    r = P.run()
    r.assumptions = ["correlation_, precision_ and scoring are verified against the contract of _state_to_cov (a pure "
                     "function of the state with a fresh result), which is the covariance_ contract of each class",
                     "tolist() and the conversion of lists create fresh data"]
    return r
