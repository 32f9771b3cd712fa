import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, RngState, Sub, Violation, close, num, require, vec
from pysad.models import IForestASD
from pysad.models.integrations import OneFitModel, ReferenceWindowModel

LOG = []


class Stub:
    """Detector with pyod's interface; its decision value encodes exactly what it was fitted on."""

    def __init__(self, a=1, b=0):
        self.a, self.b = a, b
        self.fits = []
        LOG.append(self)

    def fit(self, X, y=None):
        X = np.array([np.array(r, dtype=float) for r in X]) if len(X) else np.zeros((0, 0))
        self.fits.append((X, None if y is None else np.array(y, dtype=float)))
        return self

    def decision_function(self, X):
        if len(self.fits) != 1:
            raise Violation(f"the detector in use was fitted {len(self.fits)} times")
        X = np.array([np.array(r, dtype=float) for r in X])
        self.last_query = X
        F, y = self.fits[0]
        w = np.arange(1, len(F) + 1)
        code = float(np.sum(w[:, None] * F * (1 + np.arange(F.shape[1]))))
        if y is not None:
            code += 0.25 * float(np.sum(w * y))
        return self.a * code + self.b + X.sum(axis=1)


def ref_window(X0, y0, X, Y, W, S):
    """(rows, labels) the detector in use must have been fitted on after the whole stream X"""
    n = len(X)
    if X0 is None:
        if n < W:
            return X, Y
        first = -(-W // S) * S                 # first sliding boundary at or after W
        if n < first:
            return X[:W - 1], None if Y is None else Y[:W - 1]
        k = n // S * S
        return X[max(0, k - W):k], None if Y is None else Y[max(0, k - W):k]
    k = n // S * S
    if k == 0:
        return X0, y0
    F = np.concatenate([X0, X[:k]])[-W:]
    L = None if Y is None else np.concatenate([y0, Y[:k]])[-W:]
    return F, L


def expected(F, L, kw, q):
    s = Stub(**kw)
    LOG.pop()
    s.fit(F, L)
    return float(s.decision_function([q])[0])


def s_ref():
    return gen.fd(W=gen.up(2, 12, 140), S=gen.up(1, 14, 150), n=gen.up(1, 60, 400), d=gen.up(1, 3, 20), seed=gen.SEED, lab=gen.B,
                  init=st.one_of(st.none(), gen.up(1, 15, 200)), kw=gen.S([{}, {"a": 3}, {"a": -2, "b": 7}]),
                  score=st.lists(gen.S(["none", "self", "other"]), min_size=1, max_size=8), initlist=gen.B, fs=gen.B)


def r_ref(c, rec):
    W, S, n, d = c["W"], c["S"], c["n"], c["d"]
    rs = np.random.RandomState(c["seed"])
    X = rs.randint(-50, 51, size=(n, d)).astype(float)
    Y = rs.randint(0, 2, size=n) if c["lab"] else None
    X0 = y0 = None
    if c["init"] is not None:
        X0 = rs.randint(-50, 51, size=(c["init"], d)).astype(float)
        y0 = rs.randint(0, 2, size=c["init"]) if c["lab"] else None
    del LOG[:]
    kw = dict(c["kw"])
    a0, b0 = (X0, y0) if not c["initlist"] or X0 is None else ([r for r in X0], None if y0 is None else list(y0))
    if X0 is None:
        m = ReferenceWindowModel(Stub, W, S, **kw)
    elif y0 is None:
        m = ReferenceWindowModel(Stub, W, S, a0, **kw)
    else:
        m = ReferenceWindowModel(model_cls=Stub, window_size=W, sliding_size=S, initial_window_X=a0, initial_window_y=b0, **kw)
    what = f"reference window W={W} slide={S} initial={c['init']} labels={c['lab']}"
    refits = set()

    def judge(got, q, k):
        F, L = ref_window(X0, y0, X[:k], None if Y is None else Y[:k], W, S)
        e = expected(F, L, kw, q)
        refits.add(len(F))
        require(close(num(got, what), e, 1e-6), lambda: f"{what}: after {k} instances the score is {num(got)!r}, expected {e!r}: the detector in use was fitted on {LOG[-1].fits[0][0].tolist() if LOG and LOG[-1].fits else None}, expected {np.asarray(F).tolist()} with labels {None if L is None else np.asarray(L).tolist()}")

    if X0 is not None:
        judge(m.score_partial(X[0].copy()), X[0], 0)
    for i in range(n):
        how = c["score"][i % len(c["score"])]
        y = None if Y is None else int(Y[i])
        if c["fs"] and how == "self":
            judge(m.fit_score_partial(X[i].copy(), y), X[i], i + 1)
            continue
        m.fit_partial(X[i].copy(), y) if y is not None else m.fit_partial(X[i].copy())
        if how != "none" or i == n - 1:
            q = X[i] if how != "other" else X[(i * 7) % n] + 1
            judge(m.score_partial(q.copy()), q, i + 1)
    rec.nt(n > W and n >= S)
    rec.label("initial window", X0 is not None)
    rec.label("labels", c["lab"])
    rec.label("slide does not divide window", W % S != 0)


def s_one():
    return gen.fd(n0=gen.up(1, 12, 300), n=gen.up(1, 15, 150), d=gen.up(1, 3, 30), seed=gen.SEED, lab=gen.B, kw=gen.S([{}, {"a": 3}, {"b": 7, "a": -1}]))


def r_one(c, rec):
    rs = np.random.RandomState(c["seed"])
    X0, X = rs.randint(-50, 51, size=(c["n0"], c["d"])).astype(float), rs.randint(-50, 51, size=(c["n"], c["d"])).astype(float)
    y0 = rs.randint(0, 2, size=c["n0"]) if c["lab"] else None
    del LOG[:]
    m = OneFitModel(Stub, X0, y0, **c["kw"]) if c["lab"] else OneFitModel(Stub, X0, **c["kw"])
    for i in range(c["n"]):
        e = expected(X0, y0, c["kw"], X[i])
        got = num(m.score_partial(X[i].copy()), "one-fit score")
        require(close(got, e, 1e-6), lambda: f"one-fit model: score {got!r} of instance {i}, expected {e!r}")
        got = num(m.fit_score_partial(X[i].copy(), 1 if c["lab"] else None), "one-fit score")
        require(close(got, e, 1e-6), lambda: f"one-fit model: fit_score {got!r} of instance {i}, expected {e!r}")
    require(sum(len(s.fits) for s in LOG) == 1, lambda: f"one-fit model: detectors were fitted {sum(len(s.fits) for s in LOG)} times")
    rec.nt(c["n0"] > 1)


def s_if():
    return gen.fd(W=gen.up(4, 14, 70), n=gen.up(3, 40, 160), d=gen.up(1, 3, 12), seed=gen.SEED, init=st.one_of(st.none(), gen.up(3, 16, 100)), rseed=st.integers(0, 1000), est=st.integers(1, 4))


def r_if(c, rec):
    """the isolation-forest stream model against a forest fitted directly on the expected window"""
    from pyod.models.iforest import IForest
    rs = np.random.RandomState(c["seed"])
    W, n, d = c["W"], c["n"], c["d"]
    X = rs.randn(n, d)
    X0 = rs.randn(c["init"], d) if c["init"] is not None else None
    kw = dict(n_estimators=c["est"], random_state=c["rseed"])
    m = IForestASD(window_size=W, **kw) if X0 is None else IForestASD(initial_window_X=X0, window_size=W, **kw)
    at = sorted({min(n, k) for k in (1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, n)})
    for i in range(n):
        m.fit_partial(X[i].copy())
        if i + 1 in at:
            F, _ = ref_window(X0, None, X[:i + 1], None, W, W)
            q = X[i] * 1.5
            e = float(IForest(**kw).fit(np.asarray(F)).decision_function([q])[0])
            got = num(m.score_partial(q.copy()), "isolation forest score")
            require(close(got, e, 1e-9), lambda: f"isolation forest stream W={W} initial={c['init']} after {i + 1} instances: score {got!r}, a forest fitted on the expected window gives {e!r}")
    rec.nt(n > W)
    rec.label("initial window", X0 is not None)


PROP = Prop("C16", "streams of integers through a recording detector whose decision value encodes the exact rows, labels, order and keyword arguments it was fitted with; "
            "non-trivial: the stream is longer than the window and at least one slide happens",
            [Sub("window", s_ref, r_ref, quick=12000, thorough=240000, shards=4),
             Sub("onefit", s_one, r_one, quick=1200, thorough=24000),
             Sub("iforest", s_if, r_if, quick=384, thorough=7680, shards=3)],
            ["window size >= 2, labels given for the initial window and the whole stream or for neither",
             "the isolation forest is compared with pyod's own forest under a fixed random_state"])
