import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, require, same_arr
from pysad.core.base_postprocessor import BasePostprocessor
from pysad.core.base_transformer import BaseTransformer

OWN_FIT_TRANSFORM = {"SeasonalTrendDecomposer", "ModifiedSTLResidualTransformer"}
COMPS = zoo.TRANSFORMERS + zoo.SCORES + zoo.ENSEMBLERS


DT = ["float64", "float64", "float32", "int64"]


def s_zoo():
    seg = gen.fd(op=gen.S(["fit", "transform", "fit_transform", "fit_transform"]), n=st.one_of(*[st.integers(0, 9)] * 6, *[st.integers(10, 90)] * 3, st.integers(91, 300)))
    return zoo.pick(COMPS, segs=st.lists(seg, min_size=1, max_size=5), dt=gen.S(DT), view=gen.S(gen.VIEWS))


def r_zoo(c, rec):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    X = np.rint(X).astype(np.int64) if c["dt"] == "int64" else X.astype(c["dt"])
    what = f"{comp.name} {c['cfg']} ({c['dt']} data)"
    G = [RngState(c["rng"]) for _ in range(3)]
    O = []
    for g in G:
        with g.active():
            O.append(zoo.build(c, X.astype(float)))
    A, B, C = O
    one = (lambda x: float(x[0]) if c["dt"] == "float64" else x[0]) if comp.group == "score" else (lambda x: x.copy())
    done = {"batch": 0, "out": 0}

    def seg(op, lo, hi):
        n = hi - lo
        xs = gen.view(X[lo:hi] if comp.group != "score" else X[lo:hi, 0], c["view"])
        with G[0].active():
            a = getattr(A, op)(xs)
        if op == "fit":
            require(a is A, lambda: f"{what}: fit returned {type(a).__name__}, not the object itself")
        out = []
        for k, o in ((1, B), (2, C)):
            rr = []
            with G[k].active():
                for i in range(n):
                    x = one(X[lo + i])
                    if op == "fit":
                        r = o.fit_partial(x)
                        require(r is o, lambda: f"{what}: fit_partial returned {type(r).__name__}, not the object itself")
                    elif op == "transform":
                        rr.append(zoo.flat(o.transform_partial(x)))
                    elif k == 1 or comp.name in OWN_FIT_TRANSFORM:
                        rr.append(zoo.flat(o.fit_transform_partial(x)))
                    else:
                        o.fit_partial(x)
                        rr.append(zoo.flat(o.transform_partial(x)))
            out.append(rr)
        if op == "fit":
            return
        a = np.asarray(a)
        require(a.dtype.kind == "f", lambda: f"{what}: {op} returns dtype {a.dtype}")
        require(a.shape[:1] == (n,) and a.ndim == (2 if comp.group == "transformer" else 1), lambda: f"{what}: {op} of {n} instances has shape {a.shape}")
        for i in range(n):
            require(same_arr(zoo.flat(a[i]), out[0][i]), lambda: f"{what}: {op} gives {a[i].tolist()} for row {lo + i}, the per-instance calls give {out[0][i].tolist()}")
            require(same_arr(out[0][i], out[1][i]), lambda: f"{what}: fit_transform_partial of row {lo + i} gives {out[0][i].tolist()}, fit_partial then transform_partial gives {out[1][i].tolist()}")
        done["out"] += n
        if n > 1:
            done["batch"] += 1

    pos = 0
    for s in c["segs"]:
        if s["op"] == "transform":
            if pos >= comp.warm:
                seg("transform", 0, min(s["n"], len(X)))
            continue
        hi = min(len(X), pos + s["n"])
        seg(s["op"], pos, hi)
        pos = hi
    if pos < len(X):
        seg("fit_transform", pos, len(X))
    seg("transform", 0, len(X))
    rec.nt(done["batch"] >= 1 and done["out"] > 1)
    rec.label(comp.name)
    rec.label(c["dt"])


class RecT(BaseTransformer):
    def __init__(self, out, own):
        super().__init__(out)
        self.log, self.own, self.k = [], own, 0

    def fit_partial(self, X):
        self.log.append(("fit", np.array(X, copy=True)))
        return self

    def transform_partial(self, X):
        self.log.append(("transform", np.array(X, copy=True)))
        self.k += 1
        n = self.output_dims if self.output_dims > 0 else len(X)
        return float(X[0]) + 100.0 * self.k + np.arange(n) * 0.5


class RecTOwn(RecT):
    def fit_transform_partial(self, X):
        self.log.append(("both", np.array(X, copy=True)))
        self.k += 1
        n = self.output_dims if self.output_dims > 0 else len(X)
        return -float(X[0]) + 7.0 * self.k + np.arange(n)


class RecP(BasePostprocessor):
    def __init__(self, kind):
        self.log, self.kind, self.k = [], kind, 0

    def fit_partial(self, score):
        self.log.append(("fit", float(score)))
        return self

    def transform_partial(self, score):
        self.log.append(("transform", float(score)))
        self.k += 1
        return {"float": float, "np": np.float64, "0d": np.array, "1": lambda a: np.array([a])}[self.kind](score * 2.0 + 10.0 * self.k)


class RecPOwn(RecP):
    def fit_transform_partial(self, score):
        self.log.append(("both", float(score)))
        self.k += 1
        return -float(score) + 7.0 * self.k


def s_rec():
    op = gen.fd(op=gen.S(["fit", "transform", "fit_transform"]), n=gen.SIZES)
    return gen.fd(what=gen.S(["t", "p"]), own=gen.B, out=gen.S([-1, 1, 3]), kind=gen.S(["float", "np", "0d", "1"]), d=st.integers(1, 4), seed=gen.SEED,
                  layout=gen.S(["C", "fortran", "strided", "reversed", "flipped", "spaced"]), ops=st.lists(op, min_size=1, max_size=6))


def r_rec(c, rec):
    T = c["what"] == "t"
    mk = (lambda: (RecTOwn if c["own"] else RecT)(c["out"], c["own"])) if T else (lambda: (RecPOwn if c["own"] else RecP)(c["kind"]))
    A, E = mk(), mk()
    rs = np.random.RandomState(c["seed"])
    tot = 0
    for o in c["ops"]:
        n, op = o["n"], o["op"]
        X = rs.randint(-20, 21, size=(n, c["d"]) if T else n).astype(float)
        Xa = gen.view(X, c["layout"])
        exp = []
        for i in range(n):
            if op == "fit":
                E.fit_partial(X[i])
            elif op == "transform":
                exp.append(zoo.flat(E.transform_partial(X[i])))
            else:
                exp.append(zoo.flat(E.fit_transform_partial(X[i]) if c["own"] else E.fit_partial(X[i]).transform_partial(X[i])))
        got = getattr(A, op)(Xa)
        name = f"{op} of a user {'transformer' if T else 'postprocessor'}"
        if op == "fit":
            require(got is A, f"{name} does not return the object")
        else:
            k = (c["out"] if c["out"] > 0 else c["d"]) if T else None
            got = np.asarray(got)
            require(got.dtype.kind == "f" and got.shape == ((n, k) if T else (n,)), lambda: f"{name} on {n} instances: shape {got.shape}, dtype {got.dtype}")
            e = np.array(exp, dtype=float).reshape(got.shape)
            require(same_arr(got, e), lambda: f"{name}: {gen.diff(got, e)}")
        tot += n

    def norm(l):
        return [(k, np.asarray(x).tolist()) for k, x in l]
    require(norm(A.log) == norm(E.log), lambda: f"calls received {norm(A.log)[:12]} differ from the in-order per-instance calls {norm(E.log)[:12]}")
    rec.nt(tot > 2)
    rec.label("transformer", T)
    rec.label("own fit_transform_partial", c["own"])


PROP = Prop("C02", "streams cut into batch fit/transform/fit_transform segments; non-trivial: a batch of several rows and several outputs compared",
            [Sub("components", s_zoo, r_zoo, quick=6000, thorough=120000, shards=7),
             Sub("user classes", s_rec, r_rec, quick=900, thorough=18000, shards=2)],
            ["both copies draw from private generators with the same seed"])
