import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, num, require
from pysad import models as M
from pysad.models.integrations import OneFitModel, ReferenceWindowModel

# name: (d range, build(N, q), kind of comparison)
#   max: the outlier scores at least as high as every normal instance and strictly higher than their mean
#   mean: strictly higher than the mean score of the normal instances
ALLQ = lambda N, q: (np.minimum(N.min(axis=0), q), np.maximum(N.max(axis=0), q))


def BEYOND(N):
    w = np.maximum(N.max(axis=0) - N.min(axis=0), 1e-9)
    return N.min(axis=0) - 8 * w, N.max(axis=0) + 8.7 * w


def _det(k):
    from pyod.models.hbos import HBOS
    from pyod.models.iforest import IForest
    from pyod.models.knn import KNN
    return {"iforest": (IForest, dict(n_estimators=30)), "hbos": (HBOS, dict(n_bins=8)), "knn": (KNN, dict(n_neighbors=3))}[k]


CASES = {
    "StandardAbsoluteDeviation mean": ((1, 1), lambda N, q, w: M.StandardAbsoluteDeviation("mean"), "max"),
    "StandardAbsoluteDeviation median": ((1, 1), lambda N, q, w: M.StandardAbsoluteDeviation("median"), "max"),
    "MedianAbsoluteDeviation": ((1, 1), lambda N, q, w: M.MedianAbsoluteDeviation(b=[1.4826, 1.0, 0.5][w % 3]), "max"),
    "HalfSpaceTrees": ((1, 4), lambda N, q, w: M.HalfSpaceTrees(*ALLQ(N, q), window_size=[20, 9, 30][w % 3], num_trees=[20, 40][w % 2], max_depth=[6, 4, 8][w % 3]), "mean"),
    "HalfSpaceTrees, far instance beyond the ranges": ((1, 4), lambda N, q, w: M.HalfSpaceTrees(*BEYOND(N), window_size=[20, 9, 30][w % 3], num_trees=[20, 40][w % 2], max_depth=[6, 7, 8][w % 3]), "mean"),
    "xStream": ((3, 5), lambda N, q, w: M.xStream(num_components=[20, 30, 50][w % 3], n_chains=[10, 20][w % 2], depth=[6, 10, 15, 25, 3][w % 5], window_size=[20, 25, 40][w % 3]), "mean"),
    "IForestASD": ((1, 4), lambda N, q, w: M.IForestASD(window_size=[30, 50][w % 2], n_estimators=30), "mean"),
    "KitNet": ((2, 6), lambda N, q, w: M.KitNet(max_size_ae=[3, 1, 5, 10][w % 4], grace_feature_mapping=[20, 10][w % 2], grace_anomaly_detector=[30, 40][w % 2]), "max"),
    "LODA": ((1, 9), lambda N, q, w: M.LODA(num_bins=[8, 10, 4, 20][w % 4], num_random_cuts=[10, 100, 30][w % 3]), "loda"),
    "LocalOutlierProbability": ((1, 4), lambda N, q, w: M.LocalOutlierProbability(N.copy(), [5, 10, 3][w % 3], [3, 2, 1][w // 3 % 3]), "max"),
    "RobustRandomCutForest": ((1, 4), lambda N, q, w: M.RobustRandomCutForest(num_trees=[4, 12][w % 2] if len(N) <= 90 else 4, tree_size=[32, 16, 50][w % 3] if len(N) <= 90 else [256, 400][w % 2]), "max"),
    "ReferenceWindowModel iforest": ((1, 4), lambda N, q, w: ReferenceWindowModel(_det("iforest")[0], 40, 20, N[:30].copy(), **_det("iforest")[1]), "mean"),
    "ReferenceWindowModel hbos": ((1, 4), lambda N, q, w: ReferenceWindowModel(_det("hbos")[0], 40, 20, N[:30].copy(), **_det("hbos")[1]), "mean"),
    "ReferenceWindowModel knn": ((1, 4), lambda N, q, w: ReferenceWindowModel(_det("knn")[0], 40, 20, N[:30].copy(), **_det("knn")[1]), "max"),
    "OneFitModel iforest": ((1, 4), lambda N, q, w: OneFitModel(_det("iforest")[0], N[:40].copy(), **_det("iforest")[1]), "mean"),
    "OneFitModel knn": ((1, 4), lambda N, q, w: OneFitModel(_det("knn")[0], N[:40].copy(), **_det("knn")[1]), "max"),
    "ExactStorm": ((1, 4), lambda N, q, w: M.ExactStorm(window_size=30, max_radius=float(np.linalg.norm(N.max(axis=0) - N.min(axis=0)))), "max"),
    "Inqmad": ((1, 3), lambda N, q, w: M.Inqmad(N.shape[1], 200, 0.05), "inqmad"),
}
SLOW = ("Inqmad", "OneFitModel knn", "ReferenceWindowModel knn", "KitNet", "IForestASD")
KNOWN = {"ExactStorm": "orientation-ExactStorm", "Inqmad": "orientation-Inqmad", "RSHash": "orientation-RSHash", "RelativeEntropy": "orientation-RelativeEntropy"}


def s_out():
    pool = []
    for k in CASES:
        pool += [k] * (1 if k in SLOW else 4)
    return gen.S(pool).flatmap(lambda k: gen.fd(model=st.just(k), d=st.integers(*CASES[k][0]), n=gen.up(60, 90, 400), loc=gen.S([0.0, 0.0, 5.0, -300.0]), scale=gen.S([1.0, 1.0, 0.01, 40.0]),
                                                shape=gen.S(["uniform", "normal"]), factor=gen.S([1e3, 1e4, 1e6, 1e9]), w=st.integers(0, 59), signs=st.lists(gen.B, min_size=9, max_size=9), seed=gen.SEED, rng=gen.SEED))


def normals(c):
    rs = np.random.RandomState(c["seed"])
    Z = rs.uniform(-1, 1, size=(c["n"], c["d"])) if c["shape"] == "uniform" else np.clip(rs.randn(c["n"], c["d"]), -3, 3)
    s = np.array([1.0 if b else -1.0 for b in c["signs"][:c["d"]]])
    N = c["loc"] + c["scale"] * Z
    q = c["loc"] + s * c["scale"] * c["factor"] * (1 + 0.37 * np.arange(c["d"]))       # no cancellation in sums of features
    return N, q


def r_out(c, rec):
    N, q = normals(c)
    name = c["model"]
    _, build, rule = CASES[name]
    g = RngState(c["rng"])
    what = f"{name} on {c['n']} normal instances of {c['d']} features around {c['loc']} (scale {c['scale']})"
    tag = KNOWN.get(name.split()[0])
    if name == "Inqmad":
        # every fit replaces the state by the last instance: normal instances are those near it
        N = c["loc"] * 0 + (N[:3] - c["loc"]) / c["scale"] * 0.01
        q = (q - c["loc"]) / c["scale"] / c["factor"] * 25.0
    with g.active():
        m = build(N, q, c["w"])
        m.fit(N.copy())
        near = N[-25:]
        if rule == "loda":                   # its histogram is that of the last instance: normal instances are those right around it
            near = N[-1] + 0.005 * np.random.RandomState(c["seed"] ^ 1).choice([-1.0, 1.0], size=(30, c["d"]))
        sn = np.array([num(m.score_partial(x.copy()), what) for x in near])
        so = num(m.score_partial(q.copy()), what)
    if rule in ("max", "loda"):
        require(so >= sn.max() - 1e-9 * (1 + abs(sn.max())), lambda: f"{what}: a far instance scores {so!r}, the highest normal score is {sn.max()!r}", tag)
    require(so > sn.mean() + 1e-12 * abs(so), lambda: f"{what}: a far instance scores {so!r}, not higher than the mean {sn.mean()!r} of the normal ones", tag)
    rec.nt()
    rec.label(name)


# ---- models that judge the stream itself
STREAM = ["KNNCAD", "SeasonalESD", "SeasonalHybridESD", "RSHash", "RelativeEntropy"]


def s_stream():
    return gen.fd(model=gen.S(STREAM), seed=gen.SEED, rng=gen.SEED, loc=gen.S([0.0, 5.0, -30.0]), scale=gen.S([1.0, 0.05, 20.0]), sign=gen.B, n=st.integers(110, 150))


def r_stream(c, rec):
    rs = np.random.RandomState(c["seed"])
    name, n = c["model"], c["n"]
    sg = 1.0 if c["sign"] else -1.0
    t = np.arange(n + 1)
    what = f"{name} on {n} normal values around {c['loc']} (scale {c['scale']})"
    tag = KNOWN.get(name)
    g = RngState(c["rng"])
    Z = rs.uniform(-1, 1, size=n + 1)
    if name.startswith("Seasonal"):
        Z = 2 * np.sin(2 * np.pi * t / 4) + 0.3 * Z
    v = c["loc"] + c["scale"] * Z
    v[-1] = c["loc"] + sg * c["scale"] * 1000.0
    with g.active():
        if name == "KNNCAD":
            m = M.KNNCAD(50)
        elif name == "RSHash":
            m = M.RSHash(np.array([v.min()]), np.array([v.max()]), num_components=30)
            v = v / (c["scale"] * 1000.0)                     # normal instances share the cells of the grid, the far one does not
        elif name == "RelativeEntropy":
            m = M.RelativeEntropy(c["loc"] - c["scale"] * 1000.0, c["loc"] + c["scale"] * 1000.0, num_bins=4, window_size=30)
            v = np.concatenate([v[:-1], np.full(20, v[-1])])
        elif name == "SeasonalESD":
            m = M.SeasonalESD(4, 40, 4)
        else:
            m = M.SeasonalHybridESD(4, 40, 4)
        s = np.array([num(m.fit_score_partial(np.array([x])), what) for x in v])
    if name == "KNNCAD" and (np.any(s[-12:-1] >= 0.9965) or np.any(s[-12:-1] == 0.5)):
        rec.label("alarm suppression active, not judged")
        return
    so, sn = s[-1], s[60:n]
    require(so >= np.median(sn) and so >= sn.mean() + (1e-9 if name != "RelativeEntropy" else 0), lambda: f"{what}: a far value scores {so!r}, normal values score {np.median(sn)!r} (median), {sn.mean()!r} (mean)", tag)
    rec.nt()
    rec.label(name)


def corner(model, **kw):
    return dict(dict(model=model, d=1, n=60, loc=0.0, scale=1.0, shape="uniform", factor=1000.0, signs=[True] * 9, seed=1, rng=1, w=0), **kw)


PROP = Prop("C36", "normal instances from one region and one far instance; non-trivial: every judged case",
            [Sub("far instance", s_out, r_out, quick=800, thorough=16000, shards=6, corners=[corner("ExactStorm"), corner("Inqmad")]),
             Sub("stream models", s_stream, r_stream, quick=400, thorough=8000, shards=2,
                 corners=[dict(model=m, seed=1, rng=1, loc=0.0, scale=1.0, sign=True, n=120) for m in ("RSHash", "RelativeEntropy")])],
            ["the far instance lies at least 1000 times the spread of the normal region away, in every feature", "randomised models get enough trees that a wrong order by chance is practically impossible"])
