"""Catalogue of pysad's components behind one interface: build, feed one instance, ask for one result."""
import numpy as np
from hypothesis import strategies as st

import gen
from pysad import evaluation as ev
from pysad import models as M
from pysad import statistics as S
from pysad import transform as _t  # noqa: F401
from pysad.models.integrations import OneFitModel, ReferenceWindowModel
from pysad.transform import ensemble as E
from pysad.transform import postprocessing as PP
from pysad.transform import preprocessing as PR
from pysad.transform import probability_calibration as PC
from pysad.transform import projection as PJ
from pysad.utils import Window

I, ONE = st.integers, gen.S
ANY = ["normal", "uniform", "ints", "decimals", "const", "two", "walk", "mixture", "outlier", "blend", "steps", "ramp", "sparse", "neg"]
WIDE = ANY + ["big", "tiny"]
# mostly small (quick, easily shrunk), sometimes large enough for several windows, two-digit feature indices, ...
DIMS = st.one_of(*[I(1, 4)] * 7, *[I(5, 13)] * 4, I(14, 40))
LEN = st.one_of(*[I(1, 30)] * 8, *[I(31, 90)] * 4, I(91, 300))
WIN = st.one_of(*[I(1, 10)] * 8, *[I(11, 30)] * 4, I(31, 130))


class Comp:
    """name; group: model | transformer | score | ensemble | stat | metric | window
    cfg: strategy of JSON configurations; build(cfg, X): object (X: the stream, for ranges and initial data)
    d, n: strategies of the number of features and instances; warm: fits before the first read
    """

    def __init__(self, name, group, cfg, build, d=DIMS, n=LEN, kinds=ANY, warm=1, pure=True, supervised=False, slow=False, bounded=None, rnd=False, lo=None, hi=None, orient=None):
        self.name, self.group, self.cfg, self.build = name, group, cfg, build
        self.d, self.n, self.kinds, self.warm, self.pure, self.supervised, self.slow = d, n, kinds, warm, pure, supervised, slow
        self.bounded = bounded                  # cfg -> instances after which memory must no longer grow (None: no promise)
        self.rnd, self.lo, self.hi, self.orient = rnd, lo, hi, orient

    # ---- protocol
    def feed(self, o, x, y=None):
        g = self.group
        if g == "model":
            return o.fit_partial(x) if y is None else o.fit_partial(x, y)
        if g in ("transformer", "ensemble"):
            return o.fit_partial(x)
        if g == "score":
            return o.fit_partial(float(x[0]))
        if g in ("stat", "window"):
            return o.update(float(x[0]))
        if g == "metric":
            return o.update(*self.pair(x))
        raise KeyError(g)

    @staticmethod
    def pair(x):
        return int(x[0] > 0), (float(x[1]) if len(x) > 1 else float(x[0] * 3 % 2 > 1))

    def ask(self, o, x):
        """-> 1-d float array"""
        g = self.group
        if g == "model":
            r = o.score_partial(x)
        elif g in ("transformer", "ensemble"):
            r = o.transform_partial(x)
        elif g == "score":
            r = o.transform_partial(float(x[0]))
        else:
            r = o.get()
        return flat(r)

    def feed_ask(self, o, x, y=None):
        g = self.group
        if g == "model":
            return flat(o.fit_score_partial(x) if y is None else o.fit_score_partial(x, y))
        if g in ("transformer", "ensemble"):
            return flat(o.fit_transform_partial(x))
        if g == "score":
            return flat(o.fit_transform_partial(float(x[0])))
        self.feed(o, x, y)
        return self.ask(o, x)

    def strategy(self, **kw):
        return gen.fd(comp=st.just(self.name), cfg=self.cfg, x=gen.data(self.n, self.d, self.kinds), rng=gen.SEED, **kw)


def flat(r):
    return np.array(np.asarray(r, dtype=np.float64).reshape(-1))


def rows(c):
    comp = BY[c["comp"]]
    X = gen.make(c["x"])
    if comp.group == "metric":
        rs = np.random.RandomState(c["x"]["seed"] ^ 11)
        t = rs.randint(0, 2, size=len(X))
        if comp.name in ("AUROC", "AUPR", "WindowedMetric"):
            if len(t) > 1:
                t[:2] = [0, 1]
            X = np.stack([t, X[:, 0]], axis=1)
        else:
            X = np.stack([t, rs.randint(0, 2, size=len(X))], axis=1)
        return X.astype(float)
    return X


def labels(c, X):
    return gen.labels(c["x"]["seed"] ^ 21, len(X), "bin")


# ------------------------------------------------------------------ models
def bounds(X):
    return X.min(axis=0), X.max(axis=0)


def radius(r, X):
    """a radius, or a quantile of the distances between the stream's instances (so that counts are neither 0 nor all)"""
    if not isinstance(r, str):
        return r
    P = X[:25]
    D = np.sqrt(((P[:, None, :] - P[None, :, :]) ** 2).sum(axis=2))
    return float(np.percentile(D, int(r[1:]))) + 1e-9


def _hst(c, X):
    lo, hi = bounds(X)
    return M.HalfSpaceTrees(lo, hi, window_size=c["W"], num_trees=c["T"], max_depth=c["h"], initial_window_X=X[:c["init"]].copy() if c["init"] else None)


def _rsh(c, X):
    lo, hi = bounds(X)
    return M.RSHash(lo, hi, sampling_points=c["s"], decay=c["decay"], num_components=c["m"], num_hash_fns=c["w"])


def _relent(c, X):
    lo, hi = float(X.min()), float(X.max())
    return M.RelativeEntropy(lo, hi if hi > lo else lo + 1.0, num_bins=c["N"], window_size=c["W"])


def _det(name):
    from pyod.models.hbos import HBOS
    from pyod.models.iforest import IForest
    from pyod.models.knn import KNN
    return {"iforest": (IForest, dict(n_estimators=3)), "iforest_seeded": (IForest, dict(n_estimators=3, random_state=5)), "hbos": (HBOS, dict(n_bins=5)), "knn": (KNN, dict(n_neighbors=2))}[name]


def init_rows(X, k, seed=5):
    """initial data resembling the stream (distinct rows, so that detectors can be fitted on it)"""
    rs = np.random.RandomState(seed)
    base = X[rs.randint(len(X), size=k)] if len(X) else np.zeros((k, 1))
    s = np.abs(base).max() or 1.0
    return base + 0.1 * s * rs.randn(*base.shape)


def _refwin(c, X):
    cls, kw = _det(c["det"])
    return ReferenceWindowModel(cls, c["W"], c["S"], init_rows(X, c["init"]), **kw)


def _onefit(c, X):
    cls, kw = _det(c["det"])
    return OneFitModel(cls, init_rows(X, c["init"]), **kw)


def _ifasd(c, X):
    return M.IForestASD(initial_window_X=init_rows(X, c["init"]) if c["init"] else None, window_size=c["W"], n_estimators=c["t"])


MODELS = [
    Comp("NullModel", "model", gen.fd(), lambda c, X: M.NullModel(), warm=0, lo=0.5, hi=0.5, bounded=lambda c: 0),
    Comp("RandomModel", "model", gen.fd(), lambda c, X: M.RandomModel(), warm=0, pure=False, rnd=True, lo=0.0, hi=1.0, bounded=lambda c: 0),
    Comp("PerfectModel", "model", gen.fd(), lambda c, X: M.PerfectModel(), pure=False, supervised=True),
    Comp("StandardAbsoluteDeviation", "model", gen.fd(stat=ONE(["mean", "median"]), absolute=st.just(True)), lambda c, X: M.StandardAbsoluteDeviation(c["stat"], c["absolute"]), d=st.just(1), kinds=WIDE, lo=0.0, orient="up"),
    Comp("StandardDeviationSigned", "model", gen.fd(stat=ONE(["mean", "median"])), lambda c, X: M.StandardAbsoluteDeviation(c["stat"], False), d=st.just(1), kinds=WIDE),
    Comp("MedianAbsoluteDeviation", "model", gen.fd(b=ONE([1.4826, 1.0]), absolute=ONE([True, True, False])), lambda c, X: M.MedianAbsoluteDeviation(c["absolute"], c["b"]), d=st.just(1), kinds=WIDE, orient="up"),
    Comp("HalfSpaceTrees", "model", gen.fd(W=WIN, T=gen.up(1, 4, 20), h=st.one_of(*[I(0, 5)] * 8, *[I(6, 7)] * 3, I(8, 9)), init=ONE([0, 0, 5, 30])), _hst, kinds=WIDE, warm=0, rnd=True, hi=0.0, bounded=lambda c: 2 * c["W"], orient="up"),
    Comp("RSHash", "model", gen.fd(s=ONE([1000, 10]), decay=ONE([0.015, 0.3]), m=gen.up(1, 8, 80), w=gen.up(1, 3, 8)), _rsh, rnd=True, lo=0.0, orient="down"),
    Comp("xStream", "model", gen.fd(k=gen.up(1, 5, 60), c=gen.up(1, 4, 30), h=gen.up(1, 5, 30), W=WIN), lambda c, X: M.xStream(c["k"], c["c"], c["h"], c["W"]), warm=0, rnd=True, kinds=WIDE, hi=0.0, bounded=lambda c: 3 * c["W"], orient="up"),
    Comp("ExactStorm", "model", gen.fd(W=WIN, r=ONE([0.1, 1.0, 3.0, "q10", "q30", "q50", "q70", "q90"])), lambda c, X: M.ExactStorm(c["W"], radius(c["r"], X)), kinds=WIDE, warm=0, lo=0.0, hi=1.0, bounded=lambda c: 2 * c["W"], orient="down"),
    Comp("IForestASD", "model", gen.fd(W=I(3, 8), init=ONE([0, 6]), t=ONE([2, 2, 3])), _ifasd, n=I(1, 16), kinds=WIDE, rnd=True, slow=True, bounded=lambda c: 3 * c["W"], orient="up"),
    Comp("KitNet", "model", gen.fd(m=gen.up(1, 5, 15), fm=gen.up(0, 8, 60), ad=st.one_of(*[I(1, 12)] * 4, *[I(13, 40)] * 4, I(41, 120)), lr=ONE([0.1, 0.1, 0.02, 0.5]), hr=ONE([0.75, 0.75, 0.3, 1.0])), lambda c, X: M.KitNet(c["m"], c["fm"], c["ad"], c["lr"], c["hr"]), kinds=WIDE, lo=0.0, bounded=lambda c: c["fm"] + c["ad"] + 2),
    Comp("KNNCAD", "model", gen.fd(p=I(48, 60)), lambda c, X: M.KNNCAD(c["p"]), d=st.just(1), n=I(30, 150), warm=1, pure=False, kinds=["normal", "uniform", "walk", "outlier", "const", "ints", "decimals"], slow=True, lo=0.0, hi=1.0, bounded=lambda c: 3 * c["p"]),
    Comp("LODA", "model", gen.fd(b=gen.up(2, 8, 250), m=gen.up(1, 6, 120)), lambda c, X: M.LODA(c["b"], c["m"]), d=I(1, 13), n=st.one_of(*[I(1, 24)] * 9, I(25, 60)), kinds=WIDE, rnd=True, lo=0.0, bounded=lambda c: 2, orient="up"),
    Comp("LocalOutlierProbability", "model", gen.fd(k=I(1, 5), init=st.one_of(*[I(6, 20)] * 6, *[I(21, 40)] * 4, I(41, 90)), e=ONE([1, 2, 3])), lambda c, X: M.LocalOutlierProbability(init_rows(X, c["init"]), c["k"], c["e"]), kinds=WIDE, warm=0, lo=0.0, hi=1.0, bounded=lambda c: 0, orient="up"),
    Comp("RelativeEntropy", "model", gen.fd(N=gen.up(2, 6, 30), W=WIN), _relent, d=st.just(1), kinds=WIDE, lo=-1.0, hi=0.0, bounded=lambda c: 2 * c["W"]),
    Comp("RobustRandomCutForest", "model", gen.fd(T=gen.up(1, 3, 12), size=WIN), lambda c, X: M.RobustRandomCutForest(num_trees=c["T"], tree_size=c["size"]), kinds=["normal", "uniform", "walk", "mixture", "ints", "two", "const", "decimals"], rnd=True, lo=0.0, bounded=lambda c: 2 * c["size"], orient="up"),
    Comp("SeasonalESD", "model", gen.fd(p=I(2, 4), W=I(9, 16), k=I(1, 3), alpha=ONE([0.05, 0.05, 0.001, 0.4]), robust=gen.B), lambda c, X: M.SeasonalESD(c["p"], c["W"], c["k"], alpha=c["alpha"], robust=c["robust"]), d=st.just(1), n=I(1, 40), warm=0, kinds=WIDE + ["season"], slow=True, lo=0.0, bounded=lambda c: 2 * c["W"]),
    Comp("SeasonalHybridESD", "model", gen.fd(p=I(2, 4), W=I(9, 16), k=I(1, 3), alpha=ONE([0.05, 0.05, 0.001, 0.4]), robust=gen.B), lambda c, X: M.SeasonalHybridESD(c["p"], c["W"], c["k"], alpha=c["alpha"], robust=c["robust"]), d=st.just(1), n=I(1, 40), warm=0, kinds=WIDE + ["season"], slow=True, lo=0.0, bounded=lambda c: 2 * c["W"]),
    Comp("ReferenceWindowModel", "model", gen.fd(det=ONE(["iforest", "iforest_seeded", "hbos", "knn"]), W=I(6, 10), S=I(1, 8), init=I(6, 10)), _refwin, n=I(1, 16), warm=0, kinds=["normal", "uniform", "walk", "mixture"], rnd=True, slow=True, bounded=lambda c: 2 * c["W"] + 2 * c["S"], orient="up"),
    Comp("OneFitModel", "model", gen.fd(det=ONE(["iforest", "iforest_seeded", "hbos", "knn"]), init=I(6, 20)), _onefit, n=I(1, 16), warm=0, kinds=["normal", "uniform", "walk", "mixture", "outlier"], rnd=True, slow=True, bounded=lambda c: 0, orient="up"),
    Comp("Inqmad", "model", gen.fd(dim=I(2, 12), gamma=ONE([0.1, 1.0, 2.5]), state=ONE([42, 42, 3])), lambda c, X: M.Inqmad(X.shape[1], c["dim"], c["gamma"], c["state"]), n=I(1, 6), kinds=["normal", "uniform", "ints", "decimals", "two", "walk"], slow=True, lo=0.0, hi=1.0001, bounded=lambda c: 2, orient="down"),
]
# ------------------------------------------------------------------ transformers
TRANSFORMERS = [
    Comp("IdentityScaler", "transformer", gen.fd(), lambda c, X: PR.IdentityScaler(), warm=0, bounded=lambda c: 0),
    Comp("InstanceStandardScaler", "transformer", gen.fd(), lambda c, X: PR.InstanceStandardScaler(), d=gen.up(2, 5, 60), warm=0, kinds=["normal", "uniform", "walk"], bounded=lambda c: 0),
    Comp("InstanceUnitNormScaler", "transformer", gen.fd(p=ONE([1, 2, 3, 2.5, 0.5, "inf", "default"])), lambda c, X: PR.InstanceUnitNormScaler(*({"inf": (np.inf,), "default": ()}.get(c["p"], (c["p"],)))), warm=0, kinds=["normal", "uniform", "walk"], bounded=lambda c: 0),
    Comp("GaussianRandomProjector", "transformer", gen.fd(k=gen.up(1, 6, 90)), lambda c, X: PJ.GaussianRandomProjector(c["k"]), warm=0, rnd=True, kinds=WIDE, bounded=lambda c: 1),
    Comp("SparseRandomProjector", "transformer", gen.fd(k=gen.up(1, 6, 90), dens=ONE(["auto", 0.5])), lambda c, X: PJ.SparseRandomProjector(c["k"], density=c["dens"]), warm=0, rnd=True, kinds=WIDE, bounded=lambda c: 1),
    Comp("StreamhashProjector", "transformer", gen.fd(k=gen.up(1, 5, 90), dens=ONE([1 / 3.0, 0.8])), lambda c, X: PJ.StreamhashProjector(c["k"], c["dens"]), warm=0, kinds=WIDE, bounded=lambda c: 1),
    Comp("SeasonalTrendDecomposer", "transformer", gen.fd(s=gen.up(1, 5, 30), t=st.one_of(st.none(), gen.up(1, 6, 40))), lambda c, X: PR.SeasonalTrendDecomposer(c["s"], c["t"]), warm=0, kinds=WIDE, bounded=lambda c: 3 * (c["s"] + (c["t"] or c["s"]))),
    Comp("ModifiedSTLResidualTransformer", "transformer", gen.fd(p=I(2, 4), W=I(9, 16), robust=gen.B), lambda c, X: PR.ModifiedSTLResidualTransformer(c["p"], c["W"], robust=c["robust"]), d=st.just(1), warm=0, kinds=["normal", "walk", "season", "ints"], slow=True, bounded=lambda c: 2 * c["W"]),
]
W_ = gen.fd(W=WIN)
SCORES = [
    Comp("AveragePostprocessor", "score", gen.fd(), lambda c, X: PP.AveragePostprocessor(), d=st.just(1), kinds=WIDE),
    Comp("MaxPostprocessor", "score", gen.fd(), lambda c, X: PP.MaxPostprocessor(), d=st.just(1), kinds=WIDE),
    Comp("MedianPostprocessor", "score", gen.fd(), lambda c, X: PP.MedianPostprocessor(), d=st.just(1), kinds=WIDE),
    Comp("ZScorePostprocessor", "score", gen.fd(), lambda c, X: PP.ZScorePostprocessor(), d=st.just(1), kinds=WIDE),
    Comp("RunningAveragePostprocessor", "score", W_, lambda c, X: PP.RunningAveragePostprocessor(c["W"]), d=st.just(1), kinds=WIDE, bounded=lambda c: 2 * c["W"]),
    Comp("RunningMaxPostprocessor", "score", W_, lambda c, X: PP.RunningMaxPostprocessor(c["W"]), d=st.just(1), kinds=WIDE, bounded=lambda c: 2 * c["W"]),
    Comp("RunningMedianPostprocessor", "score", W_, lambda c, X: PP.RunningMedianPostprocessor(c["W"]), d=st.just(1), kinds=WIDE, bounded=lambda c: 2 * c["W"]),
    Comp("RunningZScorePostprocessor", "score", W_, lambda c, X: PP.RunningZScorePostprocessor(c["W"]), d=st.just(1), kinds=WIDE, bounded=lambda c: 2 * c["W"]),
    Comp("ConformalWindowed", "score", W_, lambda c, X: PC.ConformalProbabilityCalibrator(windowed=True, window_size=c["W"]), d=st.just(1), kinds=WIDE, bounded=lambda c: 2 * c["W"]),
    Comp("ConformalAll", "score", gen.fd(), lambda c, X: PC.ConformalProbabilityCalibrator(windowed=False), d=st.just(1), kinds=WIDE),
    Comp("GaussianTailWindowed", "score", W_, lambda c, X: PC.GaussianTailProbabilityCalibrator(running_statistics=True, window_size=c["W"]), d=st.just(1), kinds=WIDE, bounded=lambda c: 2 * c["W"]),
    Comp("GaussianTailAll", "score", gen.fd(), lambda c, X: PC.GaussianTailProbabilityCalibrator(running_statistics=False), d=st.just(1), kinds=WIDE, bounded=lambda c: 2),
]
ENSEMBLERS = [
    Comp("AverageScoreEnsembler", "ensemble", gen.fd(w=gen.B), lambda c, X: E.AverageScoreEnsembler(estimator_weights=(1.0 + np.arange(X.shape[1])).reshape(1, -1) if c["w"] else None), d=gen.up(1, 12, 80), warm=0, kinds=WIDE, bounded=lambda c: 0),
    Comp("MaximumScoreEnsembler", "ensemble", gen.fd(), lambda c, X: E.MaximumScoreEnsembler(), d=gen.up(1, 12, 80), warm=0, kinds=WIDE, bounded=lambda c: 0),
    Comp("MedianScoreEnsembler", "ensemble", gen.fd(), lambda c, X: E.MedianScoreEnsembler(), d=gen.up(1, 12, 80), warm=0, kinds=WIDE, bounded=lambda c: 0),
    Comp("AverageOfMaximumScoreEnsembler", "ensemble", gen.fd(b=ONE([2, 3, 6])), lambda c, X: E.AverageOfMaximumScoreEnsembler(c["b"]), d=ONE([6, 12, 6, 12, 60]), warm=0, kinds=WIDE, bounded=lambda c: 0),
    Comp("MaximumOfAverageScoreEnsembler", "ensemble", gen.fd(b=ONE([2, 3, 6])), lambda c, X: E.MaximumOfAverageScoreEnsembler(c["b"]), d=ONE([6, 12, 6, 12, 60]), warm=0, kinds=WIDE, bounded=lambda c: 0),
]
METERS = {"avg": S.AverageMeter, "count": S.CountMeter, "max": S.MaxMeter, "median": S.MedianMeter, "min": S.MinMeter, "sum": S.SumMeter, "sumsq": S.SumSquaresMeter, "var": S.VarianceMeter}
_met = ONE(sorted(METERS))
STATS = [
    Comp("Meter", "stat", gen.fd(m=_met), lambda c, X: METERS[c["m"]](), d=st.just(1), kinds=WIDE),
    Comp("AbsStatistic", "stat", gen.fd(m=_met), lambda c, X: S.AbsStatistic(METERS[c["m"]]), d=st.just(1), kinds=WIDE),
    Comp("RunningStatistic", "stat", gen.fd(m=_met, W=WIN), lambda c, X: S.RunningStatistic(METERS[c["m"]], c["W"]), d=st.just(1), kinds=WIDE, bounded=lambda c: 2 * c["W"]),
    Comp("Window", "window", gen.fd(W=WIN), lambda c, X: Window(c["W"]), d=st.just(1), warm=0, kinds=WIDE, bounded=lambda c: 2 * c["W"]),
]
METRICS = [
    Comp("Precision", "metric", gen.fd(), lambda c, X: ev.PrecisionMetric(), d=st.just(1), warm=1),
    Comp("Recall", "metric", gen.fd(), lambda c, X: ev.RecallMetric(), d=st.just(1), warm=1),
    Comp("AUROC", "metric", gen.fd(), lambda c, X: ev.AUROCMetric(), d=st.just(1), n=I(2, 30), warm=2),
    Comp("AUPR", "metric", gen.fd(), lambda c, X: ev.AUPRMetric(), d=st.just(1), n=I(2, 30), warm=2),
    Comp("WindowedMetric", "metric", gen.fd(W=WIN, ign=gen.B), lambda c, X: ev.WindowedMetric(ev.AUPRMetric, c["W"], c["ign"]), d=st.just(1), n=I(2, 90), warm=2, bounded=lambda c: 3 * c["W"]),
]
ALL = MODELS + TRANSFORMERS + SCORES + ENSEMBLERS + STATS + METRICS
BY = {c.name: c for c in ALL}


def pick(comps, **kw):
    """strategy over the given components; slow ones are drawn less often"""
    comps = list(comps)
    pool = []
    for c in comps:
        pool += [c.name] * (1 if c.name == "Inqmad" else 2 if c.slow else 4)
    return st.sampled_from(pool).flatmap(lambda n: BY[n].strategy(**kw))


def build(c, X):
    return BY[c["comp"]].build(c["cfg"], X)
