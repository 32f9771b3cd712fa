import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, require, same_arr
from pysad import models as M
from pysad.evaluation import AUROCMetric, PrecisionMetric
from pysad.models.integrations import OneFitModel, ReferenceWindowModel
from pysad.transform.ensemble import AverageScoreEnsembler
from pysad.utils import ArrayStreamer, Data, PandasStreamer, Window, get_minmax_array, get_minmax_scalar

COMPS = zoo.MODELS + zoo.TRANSFORMERS + zoo.SCORES + zoo.ENSEMBLERS

DISC = {"LODA", "xStream"}


def layout(A, kind):
    """a caller's array with the given memory layout, and the buffer behind it"""
    if kind == "readonly":
        A = A.copy()
        A.setflags(write=False)
        return A, A
    if kind == "fortran":
        A = np.asfortranarray(A.copy())
        return A, A
    if kind == "strided":
        buf = np.full(tuple(2 * s for s in A.shape), 77, dtype=A.dtype)
        v = buf[tuple(slice(None, None, 2) for _ in A.shape)]
        v[...] = A
        return v, buf
    if kind == "slice":
        buf = np.full((A.shape[0] + 4,) + A.shape[1:], 55, dtype=A.dtype)
        v = buf[2:2 + A.shape[0]]
        v[...] = A
        return v, buf
    A = A.copy()
    return A, A


def s_args():
    return zoo.pick(COMPS, lay=gen.S(["plain", "readonly", "readonly", "fortran", "strided", "slice"]), dt=gen.S(["float64"] * 4 + ["int64", "float32"]), path=gen.S(["partial", "partial", "batch", "both"]), reuse=gen.B, lk=gen.S(["bin", "signed", "large", "float", "bool", "nan"]), give=gen.B)


def raw(r):
    return r if isinstance(r, np.ndarray) else None


def r_args(c, rec):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    D = np.rint(X).astype(np.int64) if c["dt"] == "int64" else X.astype(c["dt"])
    n = len(X)
    y = gen.labels(c["x"]["seed"] ^ 21, n, c["lk"])
    what = f"{comp.name} {c['cfg']} ({c['dt']} data)"
    fitn, askn, bothn = ("fit_partial", "score_partial", "fit_score_partial") if comp.group == "model" else ("fit_partial", "transform_partial", "fit_transform_partial")
    lab = comp.supervised or (comp.group == "model" and c["give"] and comp.name not in ("ReferenceWindowModel", "OneFitModel"))

    def run(lay):
        g = RngState(c["rng"])
        with g.active():
            o = zoo.build(c, D.astype(float))
        A, buf = layout(D if comp.group != "score" else D[:, 0], lay)
        ya = y.copy()
        if lay == "readonly":
            ya.setflags(write=False)
        before, yb = buf.copy(), ya.copy()
        out, kept = [], []

        def note(r):
            out.append(zoo.flat(r))
            if raw(r) is not None:
                kept.append((r, r.copy()))

        def unchanged(call):
            require(same_arr(buf, before), lambda: f"{what}: {call} changed the caller's data ({lay})")
            require(same_arr(ya, yb), lambda: f"{what}: {call} changed the caller's labels")

        yy = (lambda i: (ya[i],)) if lab else (lambda i: ())
        with g.active():
            if c["path"] in ("batch", "both"):
                h = n if c["path"] == "batch" else n // 2
                b = bothn.replace("_partial", "")
                note(getattr(o, b)(A[:h], ya[:h]) if lab else getattr(o, b)(A[:h]))
                unchanged(b)
                if comp.pure and h >= comp.warm:
                    a = askn.replace("_partial", "")
                    note(getattr(o, a)(A[:h]))
                    unchanged(a)
                f = fitn.replace("_partial", "")
                getattr(o, f)(A[h:], ya[h:]) if lab else getattr(o, f)(A[h:])
                unchanged(f)
                if n >= comp.warm and n > 0 and comp.pure:
                    note(getattr(o, askn)(A[0]))
                    unchanged(askn)
            else:
                for i in range(n):
                    if i % 3 == 1:
                        note(getattr(o, bothn)(A[i], *yy(i)))
                        unchanged(bothn)
                        continue
                    getattr(o, fitn)(A[i], *yy(i))
                    unchanged(fitn)
                    if i + 1 >= comp.warm:
                        note(getattr(o, askn)(A[i]))
                        unchanged(askn)
                        if comp.pure and c["reuse"]:
                            note(getattr(o, askn)(A[(i * 5) % n]))
                            unchanged(askn)
        for r, k in kept:
            require(same_arr(r, k), lambda: f"{what}: a result handed out earlier changed from {k.tolist()} to {np.asarray(r).tolist()}")
        return out

    ref = run("plain")
    if c["lay"] != "plain":
        got = run(c["lay"])
        for i, (a, b) in enumerate(zip(ref, got)):
            if comp.name in DISC and c["lay"] in ("strided", "fortran"):
                a = b                     # a last-bit difference of a dot product may move an instance across a bin edge
            require(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True), lambda: f"{what}: result {i} is {a.tolist()} for a plain array but {b.tolist()} for a {c['lay']} one")
    rec.nt(len(ref) > 1)
    rec.label(comp.name)
    rec.label(c["lay"])


# ---- constructor arguments
class Fit2:
    def __init__(self, **kw):
        self.kw = kw

    def fit(self, X, y=None):
        self.m = np.mean(np.array([np.asarray(r, dtype=float) for r in X]), axis=0)
        return self

    def decision_function(self, X):
        return np.array([np.abs(np.asarray(r, dtype=float) - self.m).sum() for r in X])


def s_ctor():
    return gen.fd(kind=gen.S(["hst", "rshash", "refwin", "refwin_y", "onefit", "onefit_y", "loop", "iforest", "weights"]), lay=gen.S(["plain", "readonly", "list", "slice"]), d=st.integers(1, 3), n=st.integers(1, 25), seed=gen.SEED,
                  rng=gen.SEED, W=st.integers(2, 8), S=st.integers(1, 5))


def r_ctor(c, rec):
    d, k = c["d"], c["kind"]
    rs = np.random.RandomState(c["seed"])
    X0 = rs.randn(8, d)
    lists = c["lay"] == "list" and k in ("refwin", "refwin_y", "iforest", "onefit", "onefit_y")
    lay = c["lay"] if c["lay"] != "list" else "plain"
    wrap = (lambda a: [r for r in a.copy()]) if lists else (lambda a: layout(a, lay)[0])
    y0 = rs.randint(0, 2, size=8).astype(float)
    cls, a = {
        "hst": lambda: (M.HalfSpaceTrees, dict(feature_mins=wrap(np.full(d, -4.0)), feature_maxes=wrap(np.full(d, 4.0)), window_size=c["W"], num_trees=2, max_depth=3, initial_window_X=wrap(X0))),
        "rshash": lambda: (M.RSHash, dict(feature_mins=wrap(np.full(d, -4.0)), feature_maxes=wrap(np.full(d, 4.0)), num_components=4)),
        "refwin": lambda: (ReferenceWindowModel, dict(model_cls=Fit2, window_size=c["W"], sliding_size=c["S"], initial_window_X=wrap(X0), table=[1, 2])),
        "refwin_y": lambda: (ReferenceWindowModel, dict(model_cls=Fit2, window_size=c["W"], sliding_size=c["S"], initial_window_X=wrap(X0), initial_window_y=wrap(y0))),
        "onefit": lambda: (OneFitModel, dict(model_cls=Fit2, initial_X=wrap(X0))),
        "onefit_y": lambda: (OneFitModel, dict(model_cls=Fit2, initial_X=wrap(X0), initial_y=wrap(y0))),
        "loop": lambda: (M.LocalOutlierProbability, dict(initial_X=wrap(X0), num_neighbors=2)),
        "iforest": lambda: (M.IForestASD, dict(initial_window_X=wrap(X0), window_size=max(3, c["W"]), n_estimators=2)),
        "weights": lambda: (AverageScoreEnsembler, dict(estimator_weights=wrap(np.abs(rs.randn(1, d)) + 0.1))),
    }[k]()
    before = copy.deepcopy(a)
    g = RngState(c["rng"])

    def unchanged(call):
        for key, v in a.items():
            b = before[key]
            if isinstance(v, np.ndarray):
                require(same_arr(v, b), lambda: f"{cls.__name__}: {call} changed the caller's {key}")
            elif isinstance(v, list):
                require(len(v) == len(b) and all(same_arr(p, q) for p, q in zip(v, b)), lambda: f"{cls.__name__}: {call} changed the caller's list {key}")

    with g.active():
        o = cls(**a)
        unchanged("construction")
        X = rs.randn(c["n"], d)
        for i in range(c["n"]):
            if k == "weights":
                o.fit_transform_partial(X[i])
            elif k == "refwin_y":
                o.fit_score_partial(X[i], i % 2)
            else:
                o.fit_score_partial(X[i])
            unchanged(f"instance {i}")
    rec.nt(c["n"] > c["W"])
    rec.label(k)
    rec.label("lists", lists)


# ---- streamers, loading, helpers, windows
def s_util():
    return gen.fd(kind=gen.S(["array", "pandas", "data_iter", "minmax", "window", "metric"]), n=st.integers(1, 20), d=st.integers(1, 4), seed=gen.SEED, shuffle=gen.B, lay=gen.S(["plain", "readonly", "fortran", "strided"]), lab=gen.B, stop=st.integers(0, 20))


def r_util(c, rec):
    import pandas as pd
    rs = np.random.RandomState(c["seed"])
    X0 = rs.randint(-9, 10, size=(c["n"], c["d"])).astype(float)
    X, buf = layout(X0, c["lay"])
    y = rs.randint(0, 2, size=c["n"])
    if c["lay"] == "readonly":
        y.setflags(write=False)
    b, yb = buf.copy(), y.copy()
    k = c["kind"]

    def unchanged(what):
        require(same_arr(buf, b) and same_arr(y, yb), lambda: f"{what} changed the caller's arrays")

    if k == "array":
        it = ArrayStreamer(shuffle=c["shuffle"]).iter(X, y) if c["lab"] else ArrayStreamer(shuffle=c["shuffle"]).iter(X)
        for i, _ in enumerate(it):
            if i == c["stop"]:
                break
        unchanged("ArrayStreamer")
    elif k == "pandas":
        df = pd.DataFrame(X0.copy(), columns=[f"c{j}" for j in range(c["d"])], index=rs.permutation(c["n"]))
        ser = pd.Series(yb.copy(), index=rs.permutation(c["n"]))
        d0, s0 = df.copy(deep=True), ser.copy(deep=True)
        s = PandasStreamer(shuffle=c["shuffle"])
        for i, _ in enumerate(s.iter(df, ser) if c["lab"] else s.iter(df)):
            if i == c["stop"]:
                break
        require(df.equals(d0) and list(df.index) == list(d0.index) and list(df.columns) == list(d0.columns), "PandasStreamer changed the caller's data frame")
        require(ser.equals(s0) and list(ser.index) == list(s0.index), "PandasStreamer changed the caller's series")
    elif k == "data_iter":
        with tempfile.TemporaryDirectory(prefix="c32_") as tmp:
            p = os.path.join(tmp, "a.txt")
            np.savetxt(p, np.column_stack([X0, yb]), delimiter=",")
            raw_ = open(p, "rb").read()
            D = Data(tmp)
            list(D.get_iterator("a.txt", shuffle=c["shuffle"]))
            D.get_data("a.txt")
            require(open(p, "rb").read() == raw_ and os.listdir(tmp) == ["a.txt"], "Data changed the files it loads")
    elif k == "minmax":
        lo, hi = get_minmax_array(X)
        l2, h2 = get_minmax_scalar(X)
        unchanged("a range helper")
        keep = [np.array(lo), np.array(hi)]
        get_minmax_array(X[:1])
        require(same_arr(lo, keep[0]) and same_arr(hi, keep[1]), "bounds handed out earlier changed")
    elif k == "window":
        w = Window(max(1, c["n"] // 2))
        for i in range(c["n"]):
            w.update(X[i])
            w.get()
            unchanged("Window")
    else:
        m, p = AUROCMetric(), PrecisionMetric()
        for i in range(c["n"]):
            m.update(y[i], X[i, 0])
            p.update(y[i], y[-1 - i])
            p.get()
            if len(set(y[:i + 1])) == 2:
                m.get()
            unchanged("a metric")
    rec.nt(c["n"] > 1)
    rec.label(k)


PROP = Prop("C32", "every array or list handed in is compared before and after each call, in several memory layouts; non-trivial: several results (or more instances than a window)",
            [Sub("instances", s_args, r_args, quick=4500, thorough=90000, shards=6),
             Sub("constructor arguments", s_ctor, r_ctor, quick=300, thorough=6000),
             Sub("streamers and helpers", s_util, r_util, quick=300, thorough=6000)],
            ["results for differently laid out arrays may differ by round-off (relative 1e-6)"])
