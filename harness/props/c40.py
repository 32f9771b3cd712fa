import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, Violation, num, require, same_arr
from pysad import models as M
from pysad.transform.preprocessing import ModifiedSTLResidualTransformer, SeasonalTrendDecomposer


def accepts(fn):
    try:
        return fn(), None
    except ValueError as e:
        return None, e


# ---- constructor arguments: accepted exactly when valid
def s_ctor():
    return gen.fd(cls=gen.S(["STL", "decomposer", "ESD", "HybridESD", "ESD", "deviation"]), period=st.one_of(*[st.integers(-2, 8)] * 4, st.integers(9, 400)), wd=st.one_of(*[st.integers(-3, 30)] * 4, *[st.integers(-1, 1)] * 2, st.integers(31, 900)), none=gen.B, k=st.one_of(st.integers(-2, 20), st.integers(-2, 20), st.integers(21, 400)),
                  alpha=gen.S([0.05, 0.05, 0.05, 0.05, 0.001, 0.999, 0.5, 0.9999999, 1 - 2.0 ** -53, 5e-324, 1e-300, 0.0, 1.0, -0.1, 1.1, "nan", "inf", "-inf"]), robust=gen.B, tight=gen.S([0, 0, 1, 2]),
                  stat=gen.S(["mean", "median", "Mean", "MEDIAN", "", "avg", "mode", "median ", None, 1]), seed=gen.SEED)


def r_ctor(c, rec):
    p, W, k, cls = c["period"], 2 * c["period"] + c["wd"], c["k"], c["cls"]
    alpha = float(c["alpha"])
    if cls == "STL":
        W = None if c["none"] else W
        ok = p >= 2 and (W is None or W >= 2 * p)
        mk = lambda: ModifiedSTLResidualTransformer(p, window_size=W, robust=c["robust"])
        args = dict(period=p, window_size=W)
    elif cls == "decomposer":
        T = None if c["none"] else c["wd"]
        ok = p >= 1 and (T is None or T >= 1)
        mk = lambda: SeasonalTrendDecomposer(p, T)
        args = dict(season_length=p, trend_window=T)
    elif cls in ("ESD", "HybridESD"):
        if c["tight"] == 1:
            k = int(max(W, 0) * 0.49)                         # the largest allowed number
        elif c["tight"] == 2:
            k = int(max(W, 0) * 0.49) + 1
        ok = p >= 2 and W >= 2 * p and 1 <= k <= int(W * 0.49) and 0 < alpha < 1
        mk = lambda: (M.SeasonalESD if cls == "ESD" else M.SeasonalHybridESD)(p, W, k, alpha=alpha, robust=c["robust"])
        args = dict(period=p, window_size=W, max_anomalies=k, alpha=alpha)
    else:
        ok = c["stat"] in ("mean", "median")
        mk = lambda: M.StandardAbsoluteDeviation(c["stat"])
        args = dict(substracted_statistic=c["stat"])
    o, err = accepts(mk)
    if ok:
        require(err is None, lambda: f"{cls}({args}): rejected with {err}, although the arguments are allowed")
        # and it works
        rs = np.random.RandomState(c["seed"])
        for v in rs.randn(4, 1):
            if cls == "STL":
                if W is not None:
                    o.fit_transform_partial(v)
            elif cls == "decomposer":
                o.fit_transform_partial(v)
            else:
                num(o.fit_score_partial(v), cls)
    else:
        require(err is not None, lambda: f"{cls}({args}): accepted, although the arguments are not allowed")
    rec.nt(not ok)
    rec.label(cls)
    rec.label("accepted", ok)


# ---- rejected calls leave no trace
def s_calls():
    comp = gen.S(["STL", "STL", "STLnone", "ESD", "HybridESD", "SADmean", "SADmedian", "MAD", "Perfect", "any", "any"])
    bad = gen.fd(at=st.integers(0, 25), op=gen.S(["fit", "ask", "both"]), shape=gen.S(["two", "none", "matrix", "many", "0d"]))
    return gen.fd(comp=comp, zoo=zoo.pick([c for c in zoo.MODELS if c.name not in ("Inqmad",)]), n=st.integers(1, 20), seed=gen.SEED, bad=st.lists(bad, min_size=1, max_size=5), period=st.integers(2, 4), d=gen.S([-1, 1, 2, 5]))


BAD = {"two": lambda: np.array([1.0, 2.0]), "none": lambda: np.zeros(0), "matrix": lambda: np.ones((2, 2)), "many": lambda: np.arange(7.0), "0d": lambda: np.array(3.0)}


def reject(fn, what):
    try:
        fn()
    except Exception:
        return
    raise Violation(f"{what}: accepted")


def r_calls(c, rec):
    k, p = c["comp"], c["period"]
    rs = np.random.RandomState(c["seed"])
    if k == "any":
        return r_mismatch(c, rec)
    n = c["n"]
    X = np.round(rs.randn(n, 1) * 3, 1)
    lab = rs.randint(0, 9, size=n)
    W = 2 * p + 2
    mk = {"STL": lambda: ModifiedSTLResidualTransformer(p, W), "STLnone": lambda: ModifiedSTLResidualTransformer(p), "ESD": lambda: M.SeasonalESD(p, W, 2), "HybridESD": lambda: M.SeasonalHybridESD(p, W, 2),
          "SADmean": lambda: M.StandardAbsoluteDeviation("mean"), "SADmedian": lambda: M.StandardAbsoluteDeviation("median"), "MAD": M.MedianAbsoluteDeviation, "Perfect": M.PerfectModel}[k]

    def run(bad):
        o = mk()
        out = []
        done = 0
        for i in range(n):
            for b in (c["bad"] if bad else []):
                if b["at"] % n != i:
                    continue
                x = BAD[b["shape"]]()
                what = f"{type(o).__name__}: {b['op']} of an array of shape {x.shape} at instance {i}"
                if k == "STLnone":
                    reject(lambda: o.fit_partial(X[i]), f"{type(o).__name__} without window: fit_partial")
                    reject(lambda: o.transform_partial(X[i]), f"{type(o).__name__} without window: transform_partial")
                    short = rs.randn(2 * p - 1)
                    reject(lambda: o.transform_window(short), f"{type(o).__name__}: {2 * p - 1} values for period {p}")
                    reject(lambda: o.transform_window(np.ones((3 * p, 2))), f"{type(o).__name__}: a two-dimensional window")
                elif k == "STL":
                    reject(lambda: {"fit": o.fit_partial, "ask": o.transform_partial, "both": o.fit_transform_partial}[b["op"]](x), what)
                elif k in ("ESD", "HybridESD"):
                    reject(lambda: {"fit": o.fit_partial, "ask": o.score_partial, "both": o.fit_score_partial}[b["op"]](x), what)
                elif k == "Perfect":
                    reject(lambda: {"fit": lambda: o.fit_partial(X[i], None), "ask": lambda: o.fit(X[i:i + 1]), "both": lambda: o.fit_score_partial(X[i], None)}[b["op"]](), "PerfectModel: an instance without label")
                else:
                    if b["shape"] == "0d":
                        continue
                    reject(lambda: {"fit": o.fit_partial, "ask": o.fit_partial, "both": o.fit_score_partial}[b["op"]](x), what)
                done += 1
            if k == "STLnone":
                w = np.round(rs_w.randn(3 * p), 2)
                out.append(zoo.flat(o.transform_window(w)))
            elif k == "STL":
                out.append(zoo.flat(o.fit_transform_partial(X[i].copy())) if i % 2 else zoo.flat(o.fit_partial(X[i].copy()).transform_partial(X[i].copy())))
            elif k == "Perfect":
                o.fit_partial(X[i], lab[i])
                if i % 3:
                    out.append(zoo.flat(o.score_partial(X[i])))
            else:
                out.append(zoo.flat(o.fit_score_partial(X[i].copy())))
                out.append(zoo.flat(o.score_partial(X[i].copy() + 1.0)))
        return out, done

    rs_w = np.random.RandomState(c["seed"])
    a, _ = run(False)
    rs_w = np.random.RandomState(c["seed"])
    b, done = run(True)
    for i, (u, v) in enumerate(zip(a, b)):
        require(same_arr(u, v), lambda: f"{k}: after rejected calls result {i} is {v.tolist()} instead of {u.tolist()}")
    rec.nt(done > 0)
    rec.label(k)


def r_mismatch(c, rec):
    """batch calls with labels of another length fail before anything is fitted"""
    z = c["zoo"]
    comp = zoo.BY[z["comp"]]
    X = zoo.rows(z)
    n = len(X)
    y = gen.labels(z["x"]["seed"], n, "bin")
    what = f"{comp.name} {z['cfg']}"

    def run(bad):
        g = RngState(z["rng"])
        with g.active():
            o = zoo.build(z, X)
        out, done = [], 0
        for i in range(n):
            for b in (c["bad"] if bad else []):
                if b["at"] % n == i:
                    m = max(0, 3 + c["d"])
                    ys = np.zeros(m, dtype=int)
                    with RngState(5).active():
                        xs = np.repeat(X[i:i + 1], 3, axis=0)
                        if b["op"] == "fit":
                            reject(lambda: o.fit(xs, ys), f"{what}: fit of 3 instances with {m} labels")
                        else:
                            reject(lambda: o.fit_score(xs, list(ys)), f"{what}: fit_score of 3 instances with {m} labels")
                    done += 1
            with g.active():
                if i + 1 >= comp.warm:
                    out.append(comp.feed_ask(o, X[i].copy(), y[i] if comp.supervised else None))
                else:
                    comp.feed(o, X[i].copy(), y[i] if comp.supervised else None)
        return out, done

    a, _ = run(False)
    b, done = run(True)
    for i, (u, v) in enumerate(zip(a, b)):
        require(same_arr(u, v), lambda: f"{what}: after rejected batches result {i} is {v.tolist()} instead of {u.tolist()}")
    rec.nt(done > 0)
    rec.label("labels of another length")


PROP = Prop("C40", "constructor arguments around and beyond every documented limit; streams with interspersed invalid calls; non-trivial: something was rejected",
            [Sub("constructors", s_ctor, r_ctor, quick=6000, thorough=120000, shards=3),
             Sub("calls", s_calls, r_calls, quick=2500, thorough=50000, shards=5)],
            ["'rejected' means a ValueError for constructor arguments and any exception for calls"])
