import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, close, num, require
from pysad.models import LocalOutlierProbability


def s_loop():
    return gen.fd(x0=gen.data(gen.up(3, 30, 120), gen.up(1, 4, 20), ["normal", "uniform", "mixture", "walk", "outlier", "ints", "two", "big", "tiny"]), k=gen.up(1, 29, 80), extent=gen.S([1, 2, 3, None]), q=st.integers(1, 10), seed=gen.SEED,
                  fits=st.lists(gen.B, min_size=1, max_size=4), fs=gen.B, twist=gen.S([None, "turn", "share"]), default=gen.S([False, False, False, True]))


def r_loop(c, rec):
    from PyNomaly import loop
    X0 = gen.make(c["x0"])
    n, d = X0.shape
    k, ext, kw = min(c["k"], n - 1), 3, {}
    if c["default"] and n > 10:
        k = 10
    else:
        kw["num_neighbors"] = k
    if c["extent"] is not None:
        kw["extent"] = ext = c["extent"]
    m = LocalOutlierProbability(X0.copy(), **kw)
    rs = np.random.RandomState(c["seed"])
    scale = np.abs(X0 - X0.mean(axis=0)).max() or 1.0
    Q = np.concatenate([X0[rs.randint(n, size=c["q"])] + scale * rs.randn(c["q"], d) * rs.choice([0, 0.3, 3, 30], size=(c["q"], 1))])
    if c["twist"] == "turn":                       # queries that share sums, magnitudes or coordinates with others
        Q = np.concatenate([Q, Q[:, ::-1], -Q, np.repeat(Q.mean(axis=1, keepdims=True), d, axis=1)])
    elif c["twist"] == "share":
        Q[:, 0] = Q[0, 0]
        if d > 1:
            Q[:, -1] += Q[0].sum() - Q.sum(axis=1)
    ref = loop.LocalOutlierProbability(X0.copy(), extent=ext, n_neighbors=k).fit()
    seen = []
    for i, q in enumerate(Q):
        if c["fits"][i % len(c["fits"])]:
            m.fit_partial(Q[rs.randint(len(Q))].copy())
        got = num(m.fit_score_partial(q.copy()) if c["fs"] else m.score_partial(q.copy()), "LoOP score")
        e = float(np.asarray(ref.stream(q.copy())).reshape(-1)[0])
        require(close(got, e, 1e-9), lambda: f"LoOP with {k} neighbours, extent {ext} on {n} initial instances: score of {q.tolist()} is {got!r}, the library gives {e!r}")
        if e == e:
            require(0 <= got <= 1, lambda: f"LoOP score {got!r} is not a probability")
        seen.append((q, got))
    for q, s in seen:
        got = num(m.score_partial(q.copy()), "LoOP score")
        require(close(got, s, 0.0), lambda: f"LoOP: {q.tolist()} scored {s!r} first and {got!r} later")
    v = [s for _, s in seen]
    rec.nt(any(0 < s < 1 for s in v))
    rec.label("score strictly between 0 and 1", any(0 < s < 1 for s in v))


PROP = Prop("C28", "initial data sets of 3 to 120 instances, neighbour counts up to all others, near and far queries with fits in between; non-trivial: a score strictly between 0 and 1",
            [Sub("library", s_loop, r_loop, quick=1600, thorough=32000, shards=4)],
            ["the reference is the PyNomaly library used directly with the same data, neighbour count and extent"])
