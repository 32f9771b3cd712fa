import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, num, require, same_arr, vec

COMPS = [c for c in zoo.MODELS if not c.supervised]
KINDS = ["none", "bin", "float", "ones", "big", "nan", "str", "bool", "mixed", "sign", "late"]


def make_labels(kind, seed, n):
    rs = np.random.RandomState(seed)
    if kind in ("bin", "float", "ones", "zeros"):
        return gen.labels(seed, n, kind)
    if kind == "mixed":                       # labels for some instances only
        return np.array([None if u < 0.5 else int(u < 0.75) for u in rs.rand(n)], dtype=object)
    if kind == "sign":
        return rs.choice([-1, 1], size=n)
    if kind == "late":                        # a single anomaly late in the stream
        return (np.arange(n) == n - 1 - rs.randint(max(1, n // 3))).astype(int) if n else np.zeros(0, dtype=int)
    if kind == "big":
        return rs.randint(-10 ** 6, 10 ** 6, size=n)
    if kind == "nan":
        return np.full(n, np.nan)
    if kind == "str":
        return np.array(["a", "bb"])[rs.randint(0, 2, size=n)]
    if kind == "bool":
        return rs.rand(n) < 0.5
    return None


def s_lab():
    return zoo.pick(COMPS, la=gen.S(["none", "none", "bin", "float", "zeros"]), lb=gen.S(KINDS[1:]), seed=gen.SEED, path=gen.S(["fit_score", "partial", "fit_then_score", "fit_score_partial"]), aslist=gen.B, ylab=gen.B)


def r_lab(c, rec):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    what = f"{comp.name} {c['cfg']}"
    la, lb = c["la"], c["lb"]
    if comp.name == "ReferenceWindowModel" and c["ylab"]:     # labels are handed to the wrapped detector, which insists on class labels
        la, lb = [k if k in ("bin", "ones", "big") else "bin" for k in (la, lb)]
    if comp.name == "ReferenceWindowModel" and "mixed" in (la, lb):
        la, lb = [k if k != "mixed" else "bin" for k in (la, lb)]
    path = c["path"]

    def run(kind, salt):
        y = make_labels(kind, c["seed"] ^ salt, len(X))
        g = RngState(c["rng"])
        with g.active():
            if comp.name == "ReferenceWindowModel" and c["ylab"]:
                cls, kw = zoo._det(c["cfg"]["det"])
                o = zoo.ReferenceWindowModel(cls, c["cfg"]["W"], c["cfg"]["S"], zoo.init_rows(X, c["cfg"]["init"]), make_labels(kind, c["seed"] ^ salt ^ 5, c["cfg"]["init"]), **kw)
            else:
                o = zoo.build(c, X)
            yl = list(y) if y is not None and c["aslist"] else y
            if path == "fit_score":
                return vec(o.fit_score(X.copy(), yl) if y is not None else o.fit_score(X.copy()), len(X), what)
            if path == "fit_then_score":
                (o.fit(X.copy(), yl) if y is not None else o.fit(X.copy()))
                return vec(o.score(X.copy()), len(X), what)
            out = []
            for i, x in enumerate(X):
                yy = () if y is None else (yl[i],)
                if path == "partial":
                    o.fit_partial(x.copy(), *yy)
                    out.append(num(o.score_partial(x.copy()), what))
                else:
                    out.append(num(o.fit_score_partial(x.copy(), *yy), what))
            return np.array(out)

    a, b = run(la, 1), run(lb, 2)
    require(same_arr(a, b), lambda: f"{what}, {path}: scores {a.tolist()} with labels '{la}', {b.tolist()} with labels '{lb}'")
    rec.nt(len(X) > 1)
    rec.label(comp.name)


PROP = Prop("C33", "the same stream with two label sequences (or none); non-trivial: different label kinds and several scores",
            [Sub("labels", s_lab, r_lab, quick=3600, thorough=72000, shards=8)],
            ["both runs draw from private generators with the same seed", "the wrapped detectors of the reference window model are unsupervised pyod detectors"])
