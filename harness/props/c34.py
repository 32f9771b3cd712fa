import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, num, require, vec


def s_fin():
    return zoo.pick(zoo.MODELS, path=gen.S(["partial", "fit_score", "fs", "batch"]), far=gen.B, scale=gen.S([1.0, 1.0, -1.0, 1e3, 1e-3]), zero=gen.B)


def r_fin(c, rec):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c) * c["scale"]
    n, d = X.shape
    y = zoo.labels(c, X)
    what = f"{comp.name} {c['cfg']} on {c['x']['kind']} data"
    g = RngState(c["rng"])
    with g.active():
        o = zoo.build(c, X)
    seen = []

    def judge(v, k):
        v = num(v, f"{what}: score of instance {k}")
        require(np.isfinite(v), lambda: f"{what}: score of instance {k} is {v}")
        require(comp.lo is None or v >= comp.lo, lambda: f"{what}: score {v!r} of instance {k} is below {comp.lo}")
        require(comp.hi is None or v <= comp.hi, lambda: f"{what}: score {v!r} of instance {k} is above {comp.hi}")
        seen.append(v)

    def arr(a, m):
        a0 = np.asarray(a)
        require(a0.dtype.kind == "f", lambda: f"{what}: batch scores have dtype {a0.dtype}")
        for k, v in enumerate(vec(a, m, f"{what}: batch scores of {m} instances")):
            judge(v, k)

    yy = (lambda i: (int(y[i]),)) if comp.supervised else (lambda i: ())
    with g.active():
        if c["path"] == "fit_score":
            arr(o.fit_score(X.copy(), y) if comp.supervised else o.fit_score(X.copy()), n)
        elif c["path"] == "batch":
            (o.fit(X.copy(), y) if comp.supervised else o.fit(X.copy()))
            if n >= comp.warm:
                arr(o.score(X.copy()), n)
        elif c["path"] == "fs":
            for i in range(n):
                judge(o.fit_score_partial(X[i].copy(), *yy(i)), i)
        else:
            for i in range(n):
                if comp.warm == 0:
                    judge(o.score_partial(X[i].copy()), i)
                o.fit_partial(X[i].copy(), *yy(i))
                judge(o.score_partial(X[i].copy()), i)
        if comp.name not in ("PerfectModel", "KNNCAD") and n >= comp.warm:
            qs = [np.zeros(d)] if c["zero"] else []
            if c["far"] and comp.name not in ("RelativeEntropy",):
                qs += [X.max(axis=0) * 10 + 1, X.min(axis=0) - 5]
            for q in qs:
                judge(o.score_partial(q.copy()), "an extra query")
    rec.nt(len(seen) > 1)
    rec.label(comp.name)
    rec.label(c["x"]["kind"])


PROP = Prop("C34", "random and degenerate finite streams through every model; non-trivial: several scores judged",
            [Sub("finite scores", s_fin, r_fin, quick=5000, thorough=100000, shards=8)],
            ["streams are finite; magnitudes up to 1e9", "kNN-CAD with probation periods of at least 48; the wrapped detectors get windows they can be fitted on"])
