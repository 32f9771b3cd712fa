import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, num, require, same_arr, vec
from pysad.core.base_model import BaseModel

OWN_FIT_SCORE = {"SeasonalESD", "SeasonalHybridESD"}      # documented: they score the window ending in the fitted instance (C15)


def s_zoo():
    seg = gen.fd(op=gen.S(["fit", "score", "fit_score", "fit_score"]), n=st.one_of(*[st.integers(0, 9)] * 6, *[st.integers(10, 90)] * 3, st.integers(91, 300)), y=gen.S(["none", "array", "list"]))
    return zoo.pick(zoo.MODELS, segs=st.lists(seg, min_size=1, max_size=5), dt=gen.S(["float64", "float64", "float32", "int64"]), lk=gen.S(["bin", "bin", "zeros", "ones", "float", "bool", "signed", "large"]), view=gen.S(gen.VIEWS))


def r_zoo(c, rec):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    X = np.rint(X).astype(np.int64) if c["dt"] == "int64" else X.astype(c["dt"])
    lk = c["lk"] if c["lk"] not in ("float", "signed", "large") or comp.name == "PerfectModel" or (c["lk"] != "float" and comp.name != "ReferenceWindowModel") else "bin"
    y_all = gen.labels(c["x"]["seed"] ^ 21, len(X), lk)
    what = f"{comp.name} {c['cfg']} ({c['dt']} data)"
    G = [RngState(c["rng"]) for _ in range(3)]
    O = []
    for g in G:
        with g.active():
            O.append(zoo.build(c, X.astype(float)))
    A, B, C = O
    pos = 0
    done = {"batch": 0, "scored": 0}

    def seg(op, lo, hi, ykind):
        lab = ykind != "none" or comp.supervised
        xs = gen.view(X[lo:hi], c["view"])
        ys = y_all[lo:hi].copy() if lab else None
        yb = list(ys) if lab and ykind == "list" else gen.view(ys, c["view"]) if lab else ys
        n = hi - lo
        with G[0].active():
            if op == "fit":
                r = A.fit(xs, yb) if lab else A.fit(xs)
                require(r is A, lambda: f"{what}: fit returned {type(r).__name__}, not the model itself")
            elif op == "score":
                a = vec(A.score(xs), n, f"{what}: score of {n} instances")
            else:
                a = vec(A.fit_score(xs, yb) if lab else A.fit_score(xs), n, f"{what}: fit_score of {n} instances")
        out = []
        for k, o in ((1, B), (2, C)):
            rr = []
            with G[k].active():
                for i in range(n):
                    x = X[lo + i].copy()
                    yi = (ys[i],) if lab else ()
                    if op == "fit":
                        r = o.fit_partial(x, *yi)
                        require(r is o, lambda: f"{what}: fit_partial returned {type(r).__name__}, not the model itself")
                    elif op == "score":
                        rr.append(num(o.score_partial(x), what))
                    elif k == 1 or comp.name in OWN_FIT_SCORE:
                        rr.append(num(o.fit_score_partial(x, *yi), what))
                    else:
                        o.fit_partial(x, *yi)
                        rr.append(num(o.score_partial(x), what))
            out.append(np.array(rr, dtype=float))
        if op != "fit":
            require(same_arr(a, out[0]), lambda: f"{what}: {op} of rows {lo}..{hi - 1} gives {a.tolist()}, the per-instance calls give {out[0].tolist()}")
            require(same_arr(out[0], out[1]), lambda: f"{what}: fit_score_partial of rows {lo}..{hi - 1} gives {out[0].tolist()}, fit_partial then score_partial gives {out[1].tolist()}")
            done["scored"] += n
        if n > 1:
            done["batch"] += 1

    owed = 0
    for s in c["segs"]:
        op, n = s["op"], s["n"]
        if op == "score":
            if pos < comp.warm:
                continue
            n = min(n, len(X))
            if comp.name == "PerfectModel":
                n = min(n, owed)
                owed -= n
            seg("score", 0, n, s["y"])
            continue
        hi = min(len(X), pos + n)
        if op == "fit":
            owed += hi - pos
        seg(op, pos, hi, s["y"])
        pos = hi
    if pos < len(X):
        seg("fit_score", pos, len(X), "array")
    if comp.name != "PerfectModel" and pos >= 0 and len(X) >= comp.warm:
        seg("score", 0, len(X), "none")
    rec.nt(done["batch"] >= 1 and done["scored"] > 1)
    rec.label(comp.name)


class Recorder(BaseModel):
    def __init__(self, kind):
        self.kind, self.log, self.k = kind, [], 0

    def fit_partial(self, X, y=None):
        self.log.append(("fit", np.array(X, copy=True), y))
        return self

    def score_partial(self, X):
        self.log.append(("score", np.array(X, copy=True), None))
        self.k += 1
        v = float(np.sum(X * (1 + np.arange(len(X))))) + 1000.0 * self.k
        if self.kind == "int":
            v = round(v)
        return {"float": float, "np": np.float64, "0d": np.array, "1": lambda a: np.array([a]), "11": lambda a: np.array([[a]]), "int": int}[self.kind](v)


class OwnRecorder(Recorder):
    def fit_score_partial(self, X, y=None):
        self.log.append(("fitscore", np.array(X, copy=True), y))
        self.k += 1
        return 7.0 * self.k + float(X[0])


def s_rec():
    op = gen.fd(op=gen.S(["fit", "score", "fit_score"]), n=gen.SIZES, y=gen.S(["none", "array", "list", "floats", "bool"]), batch=gen.B)
    return gen.fd(own=gen.B, kind=gen.S(["float", "np", "0d", "1", "11", "int"]), d=st.integers(1, 4), seed=gen.SEED, layout=gen.S(["C", "fortran", "strided", "reversed", "flipped", "spaced"]), ops=st.lists(op, min_size=1, max_size=6))


def r_rec(c, rec):
    cls = OwnRecorder if c["own"] else Recorder
    A, E = cls(c["kind"]), cls(c["kind"])
    rs = np.random.RandomState(c["seed"])
    tot = 0
    for o in c["ops"]:
        n = o["n"]
        X = rs.randint(-20, 21, size=(n, c["d"])).astype(float)
        y = None
        if o["y"] != "none":
            y = rs.randint(0, 2, size=n) if o["y"] != "floats" else rs.randn(n)
            y = y.astype(bool) if o["y"] == "bool" else y
        Xa = gen.view(X, c["layout"])
        yb = list(y) if o["y"] == "list" else y if y is None else gen.view(y, c["layout"])
        op = o["op"]
        exp = []
        for i in range(n):
            yi = None if y is None else y[i]
            if op == "fit":
                E.fit_partial(X[i], yi)
            elif op == "score":
                exp.append(num(E.score_partial(X[i])))
            else:
                exp.append(num(E.fit_score_partial(X[i], yi)) if c["own"] else num(E.fit_partial(X[i], yi).score_partial(X[i])))
        if op == "fit":
            r = A.fit(Xa, yb) if y is not None else A.fit(Xa)
            require(r is A, lambda: "fit of a user model does not return the model")
        elif op == "score":
            got = A.score(Xa)
        elif o["batch"] or y is None:
            got = A.fit_score(Xa, yb) if y is not None else A.fit_score(Xa)
        else:
            got = np.array([num(A.fit_score_partial(Xa[i], y[i])) for i in range(n)], dtype=float)
        if op != "fit":
            require(np.asarray(got).dtype == np.float64, lambda: f"{op} of a user model returns dtype {np.asarray(got).dtype}")
            got = vec(got, n, f"{op} of a user model on {n} instances")
            require(same_arr(got, np.array(exp, dtype=float)), lambda: f"{op} of a user model whose score is a {c['kind']}: {gen.diff(got, exp)}")
        tot += n
    def norm(l):
        return [(k, x.tolist(), None if y is None else float(y)) for k, x, y in l]
    require(norm(A.log) == norm(E.log), lambda: f"calls received by a user model {norm(A.log)[:12]} differ from the in-order per-instance calls {norm(E.log)[:12]}")
    rec.nt(tot > 2)
    rec.label(f"score as {c['kind']}")
    rec.label("own fit_score_partial", c["own"])


PROP = Prop("C01", "streams cut into batch fit/score/fit_score segments; non-trivial: a batch of several rows and several scores compared",
            [Sub("models", s_zoo, r_zoo, quick=3000, thorough=60000, shards=7),
             Sub("user models", s_rec, r_rec, quick=900, thorough=18000, shards=2)],
            ["both copies draw from private generators with the same seed"])
