import contextlib
import copy
import importlib

import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import forked, Prop, RngState, Sub, require, same_arr
from pysad import models as M
from pysad.models.integrations import OneFitModel, ReferenceWindowModel
from pysad.transform.ensemble import AverageScoreEnsembler

# what the components import lazily is imported once here, not in every forked run
for _m in ("mmh3", "PyNomaly", "rrcf", "pyod.models.iforest", "pyod.models.hbos", "pyod.models.knn", "statsmodels.tsa.seasonal"):
    with contextlib.suppress(ImportError):
        importlib.import_module(_m)

FAST = [c for c in zoo.ALL if c.name not in ("Inqmad", "OneFitModel")]


def s_inter():
    def pair(name):
        one = zoo.BY[name].strategy()
        other = st.one_of(one, one, zoo.pick(FAST))
        return gen.fd(objs=st.tuples(one, other, st.one_of(st.none(), one)).map(lambda t: [x for x in t if x is not None]),
                      order=st.one_of(*[st.lists(st.integers(0, 2), min_size=1, max_size=40)] * 2, gen.S([[0, 1, 2], [1, 0], [2, 1, 0], [0, 0, 1, 1]])), late=gen.B, same=gen.S(["no", "no", "config", "shape", "one key", "one key", "data", "one key, data", "one key, data"]))
    pool = []
    for c in zoo.ALL:
        pool += [c.name] * (1 if c.name in ("Inqmad", "OneFitModel") else 2 if c.slow else 4)
    return gen.S(pool).flatmap(pair)


def s_sib():
    """two objects of one class, on the same stream, in lock-step, with configurations that differ in at most one parameter"""
    def pair(name):
        one = zoo.BY[name].strategy()
        return gen.fd(objs=st.tuples(one, one, one).map(list), order=gen.S([[0, 1, 2], [1, 0, 2], [2, 1, 0], [0, 0, 1, 1, 2, 2]]), pick=st.integers(0, 11), late=gen.B, same=st.just("siblings"))
    pool = []
    for c in FAST:
        if c.name not in ("NullModel", "RandomModel", "PerfectModel", "IdentityScaler"):
            pool += [c.name] * KEYS.get(c.name, 1)
    return gen.S(pool).flatmap(pair)


KEYS = {"SeasonalESD": 3, "SeasonalHybridESD": 3, "xStream": 3, "KitNet": 3, "HalfSpaceTrees": 3, "RSHash": 3, "LocalOutlierProbability": 2, "LODA": 2, "ReferenceWindowModel": 2, "ModifiedSTLResidualTransformer": 2, "ExactStorm": 2,
        "StreamhashProjector": 2, "SparseRandomProjector": 2, "RobustRandomCutForest": 2}


class Driver:
    """feeds one object from its own stream, with its own random draws"""

    def __init__(self, c, k):
        self.c, self.comp, self.X = c, zoo.BY[c["comp"]], zoo.rows(c)[:130]
        self.g, self.i, self.out, self.o = RngState(c["rng"] ^ k), 0, [], None

    def build(self):
        with self.g.active():
            self.o = zoo.build(self.c, self.X)

    def step(self):
        if self.o is None:
            self.build()
            return
        if self.i >= len(self.X):
            return
        x = self.X[self.i].copy()
        y = int(self.i % 3 == 0) if self.comp.supervised else None
        self.i += 1
        with self.g.active():
            if self.i >= self.comp.warm:
                self.out.append(self.comp.feed_ask(self.o, x, y) if self.i % 2 else (self.comp.feed(self.o, x, y), self.comp.ask(self.o, x))[1])
                if self.comp.pure:               # and for instances other than the one just fitted
                    self.out.append(self.comp.ask(self.o, self.X[(5 * self.i + 2) % len(self.X)].copy()))
            else:
                self.comp.feed(self.o, x, y)

    def finish(self):
        while self.o is None or self.i < len(self.X):
            self.step()


def r_inter(c, rec):
    objs = c["objs"]
    if c["same"] in ("shape", "one key", "data", "one key, data"):
        a = objs[0]
        objs = [o if o["comp"] != a["comp"] else dict(o, x=dict(o["x"], d=a["x"]["d"], n=max(o["x"]["n"], a["x"]["n"]))) for o in objs]
        if "data" in c["same"]:                  # both see the very same stream
            objs = [dict(o, x=a["x"]) if o["comp"] == a["comp"] or (o["x"]["d"] == a["x"]["d"] and a["x"]["kind"] in zoo.BY[o["comp"]].kinds) else o for o in objs]
        if c["same"].startswith("one key"):      # configurations that differ in one parameter only
            for j, o in enumerate(objs[1:]):
                if o["comp"] == a["comp"] and a["cfg"]:
                    key = sorted(a["cfg"])[(c.get("pick", c["order"][0]) + j) % len(a["cfg"])]
                    objs[j + 1] = dict(o, cfg=dict(a["cfg"], **{key: o["cfg"][key]}))
    if c["same"] == "siblings":               # one differs from the first in one parameter only, one in the data only
        a, b, e = objs
        keys = sorted(k for k in a["cfg"] if a["cfg"][k] != b["cfg"][k])
        key = keys[c["pick"] % len(keys)] if keys else None
        objs = [a, dict(a, cfg=dict(a["cfg"], **{key: b["cfg"][key]}) if keys else a["cfg"]), dict(a, x=dict(a["x"], kind=e["x"]["kind"], seed=e["x"]["seed"]))]
    if c["same"] == "config":
        objs = [dict(o, comp=objs[0]["comp"], cfg=objs[0]["cfg"], x=dict(o["x"], d=objs[0]["x"]["d"], kind=objs[0]["x"]["kind"], n=objs[0]["x"]["n"])) for o in objs]

    def single(k):
        d = Driver(objs[k], k)
        d.finish()
        return d.out

    def together():
        mixed = [Driver(o, k) for k, o in enumerate(objs)]
        if not c["late"]:
            for d in mixed:
                d.build()
        order = c["order"]
        for _ in range(12 if len(order) > 4 else 100):
            for k in order:
                mixed[k % len(mixed)].step()
            if all(d.o is not None and d.i >= len(d.X) for d in mixed):
                break
        for d in mixed:
            d.finish()
        return [d.out for d in mixed]

    # every run in its own process, so that "alone" really is: nothing else was ever built there
    alone = [forked(lambda: single(k)) for k in range(len(objs))]
    mixed = forked(together)
    for k, (a, b) in enumerate(zip(alone, mixed)):
        for i, (r, s) in enumerate(zip(a, b)):
            require(same_arr(r, s), lambda: f"{objs[k]['comp']} {objs[k]['cfg']}: result {i} is {r.tolist()} when driven alone but {s.tolist()} next to {[(o['comp'], o['cfg']) for j, o in enumerate(objs) if j != k]}")
    rec.nt(len(objs) > 1 and all(len(a) > 1 for a in alone[:2]) and objs[0] != objs[1])
    rec.label(objs[0]["comp"])
    rec.label("objects of the same class", len({o["comp"] for o in objs}) < len(objs))


# ---- several objects from the same constructor argument objects
class Fit2:
    def __init__(self, scale=1, table=None):
        self.scale, self.table = scale, table if table is not None else []

    def fit(self, X, y=None):
        self.mean = np.mean(np.array([np.asarray(r, dtype=float) for r in X]), axis=0)
        self.bias = 0.0 if y is None else float(np.mean(np.array(y, dtype=float)))
        return self

    def decision_function(self, X):
        return self.scale * np.sqrt(((np.array([np.asarray(r, dtype=float) for r in X]) - self.mean) ** 2).sum(axis=1)) + self.bias


def s_shared():
    return gen.fd(kind=gen.S(["hst", "hst0", "rshash", "refwin", "refwin_y", "onefit", "loop", "iforest", "weights"]), aslist=gen.B, d=st.integers(1, 3), n=st.integers(4, 25), seed=gen.SEED, rng=gen.SEED,
                  order=st.lists(st.integers(0, 1), min_size=1, max_size=30), W=st.integers(2, 8), S=st.integers(1, 5))


def shared_args(c):
    rs = np.random.RandomState(c["seed"])
    X0 = rs.randn(8, c["d"])
    L = (lambda a: [r for r in a]) if c["aslist"] else (lambda a: a)
    k = c["kind"]
    if k in ("hst", "hst0"):
        a = dict(feature_mins=np.full(c["d"], -4.0), feature_maxes=np.full(c["d"], 4.0), window_size=c["W"], num_trees=2, max_depth=3)
        if k == "hst":
            a["initial_window_X"] = X0
        return M.HalfSpaceTrees, a
    if k == "rshash":
        return M.RSHash, dict(feature_mins=np.full(c["d"], -4.0), feature_maxes=np.full(c["d"], 4.0), num_components=4)
    if k == "refwin":
        return ReferenceWindowModel, dict(model_cls=Fit2, window_size=c["W"], sliding_size=c["S"], initial_window_X=L(X0), scale=2)
    if k == "refwin_y":
        return ReferenceWindowModel, dict(model_cls=Fit2, window_size=c["W"], sliding_size=c["S"], initial_window_X=L(X0), initial_window_y=L(rs.randint(0, 2, size=8)), scale=2)
    if k == "onefit":
        return OneFitModel, dict(model_cls=Fit2, initial_X=X0, scale=3)
    if k == "loop":
        return M.LocalOutlierProbability, dict(initial_X=X0, num_neighbors=2)
    if k == "iforest":
        return M.IForestASD, dict(initial_window_X=L(X0), window_size=max(3, c["W"]), n_estimators=2)
    return AverageScoreEnsembler, dict(estimator_weights=np.abs(rs.randn(1, c["d"])) + 0.1)


def r_shared(c, rec):
    cls, args = shared_args(c)
    pristine = copy.deepcopy(args)
    rs = np.random.RandomState(c["seed"] ^ 9)
    X = [rs.randn(c["n"], c["d"]), rs.randn(c["n"], c["d"]) + 1.5]
    score = cls is not AverageScoreEnsembler

    def one(o, g, x, i):
        with g.active():
            if not score:
                return zoo.flat(o.fit_transform_partial(x))
            y = i % 2 if c["kind"] == "refwin_y" else None
            return zoo.flat(o.fit_score_partial(x, y) if y is not None else o.fit_score_partial(x))

    def make(a, g):
        with g.active():
            return cls(**a)

    alone = []
    for k in range(2):
        g = RngState(c["rng"] + k)
        o = make(copy.deepcopy(pristine), g)
        alone.append([one(o, g, X[k][i].copy(), i) for i in range(c["n"])])
    G = [RngState(c["rng"] + k) for k in range(2)]
    O = [make(args, G[k]) for k in range(2)]
    pos, out = [0, 0], [[], []]

    def step(k):
        if pos[k] < c["n"]:
            out[k].append(one(O[k], G[k], X[k][pos[k]].copy(), pos[k]))
            pos[k] += 1
    for k in c["order"]:
        step(k)
    while pos != [c["n"], c["n"]]:
        step(0)
        step(1)
    for k in range(2):
        for i in range(c["n"]):
            require(same_arr(alone[k][i], out[k][i]), lambda: f"{cls.__name__} ({c['kind']}): two objects built from the same arguments; result {i} of object {k} is {out[k][i].tolist()}, alone it is {alone[k][i].tolist()}")
    rec.nt(len(set(c["order"])) == 2)
    rec.label(c["kind"])


PROP = Prop("C31", "two or three live objects driven in a generated interleaving; non-trivial: at least two results of each of two objects",
            [Sub("interleaved", s_inter, r_inter, quick=1100, thorough=32000, shards=4),
             Sub("siblings", s_sib, r_inter, quick=1000, thorough=24000, shards=4),
             Sub("shared arguments", s_shared, r_shared, quick=400, thorough=8000, shards=2)],
            ["every object draws from a private generator"])
