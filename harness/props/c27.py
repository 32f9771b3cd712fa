import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, close, num, require
from pysad.models import Inqmad


def features(X, d, dim, gamma, seed):
    """normalised random Fourier features, drawn as scikit-learn's RBF sampler draws them"""
    rs = np.random.RandomState(seed)
    W = np.sqrt(2.0 * gamma) * rs.normal(size=(d, dim))
    b = rs.uniform(0, 2 * np.pi, size=dim)
    V = np.cos(X @ W + b) * np.sqrt(2.0 / dim)
    return V


def s_inq():
    return gen.fd(d=gen.up(1, 5, 20), dim=gen.up(1, 40, 150), gamma=gen.S([0.1, 1.0, 0.01, 0.4, 1.4, 2, 2.5, 7.3]), state=gen.S([None, 42, 0, 7]), batch=gen.S([None, 1, 300]), n=gen.up(1, 10, 40, 260), seed=gen.SEED,
                  kind=gen.S(["normal", "ints", "const", "uniform"]), asks=st.lists(st.integers(0, 2), min_size=1, max_size=4), fs=gen.B)


def r_inq(c, rec):
    X = gen.make(dict(kind=c["kind"], seed=c["seed"], n=c["n"], d=c["d"]))
    if np.abs(X).max() > 100:
        X = X / np.abs(X).max()
    kw = {}
    if c["state"] is not None:
        kw["random_state"] = c["state"]
    if c["batch"] is not None:
        kw["batch_size"] = c["batch"]
    m = Inqmad(c["d"], c["dim"], c["gamma"], **kw)
    rs = np.random.RandomState(c["seed"] ^ 3)
    F = lambda x: features(x, c["d"], c["dim"], c["gamma"], 42 if c["state"] is None else c["state"])
    what = f"INQMAD ({c['d']} features, {c['dim']} random features, gamma {c['gamma']})"

    def judge(got, q, i):
        a, b = F(q), F(X[i])
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        got = num(got, what)
        if min(na, nb) < 1e-3:
            rec.label("feature vector too small to judge")
            return
        sim = float(a @ b) / (na * nb)
        e = sim ** 2 / (i + 1) ** 2
        tol = (2e-4 * abs(sim) / min(na, nb, 1) + 1e-6) / (i + 1) ** 2
        require(close(got, e, tol), lambda: f"{what}: score of {q.tolist()} after {i + 1} instances is {got!r}, expected {e!r} (the last fitted instance is {X[i].tolist()})")
        rec.label("judged")

    scored_before_last = False
    for i in range(c["n"]):
        a = c["asks"][i % len(c["asks"])]
        if c["fs"] and a == 1:
            judge(m.fit_score_partial(X[i].copy()), X[i], i)
            scored_before_last |= i < c["n"] - 1
            continue
        m.fit_partial(X[i].copy())
        for j in range(a if i < c["n"] - 1 else 2):
            q = X[i] if j == 0 else X[rs.randint(c["n"])] + 0.3 * rs.randn(c["d"])
            judge(m.score_partial(q.copy()), q, i)
            scored_before_last |= i < c["n"] - 1
    rec.nt(scored_before_last and c["n"] > 2)
    rec.label("fits after the first score", scored_before_last)


PROP = Prop("C27", "short streams with fits and scores interleaved; non-trivial: instances fitted after the first score",
            [Sub("reference", s_inq, r_inq, quick=400, thorough=4800, shards=8)],
            ["single precision: relative tolerance 2e-4, widened for small feature vectors", "the random Fourier features are those scikit-learn's RBF sampler draws for the given random_state"])
