import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, close, mat, require, same_arr, vec
from pysad.transform.preprocessing import IdentityScaler, InstanceStandardScaler, InstanceUnitNormScaler
import math

ORD = [1, 2, 3, 0.5, 1.5, 4, "inf", "default"]


def ref(c, x):
    x = [float(v) for v in x]
    if c["kind"] == "id":
        return np.array(x), 0.0
    if c["kind"] == "std":
        n = len(x)
        m = math.fsum(x) / n
        sd = math.sqrt(math.fsum((v - m) ** 2 for v in x) / n)
        if sd <= 1e-7 * max(abs(v) for v in x) or sd == 0:
            return None, 0.0
        return np.array([(v - m) / sd for v in x]), 1e-7
    p = {"inf": math.inf, "default": 2}.get(c["ord"], c["ord"])
    big = max(abs(v) for v in x)
    if big == 0:
        return None, 0.0
    if p == math.inf:
        nrm = big
    else:
        nrm = big * math.fsum((abs(v) / big) ** p for v in x) ** (1.0 / p)
    return np.array([v / nrm for v in x]), 1e-9


def build(c):
    if c["kind"] == "id":
        return IdentityScaler()
    if c["kind"] == "std":
        return InstanceStandardScaler()
    if c["ord"] == "default":
        return InstanceUnitNormScaler()
    return InstanceUnitNormScaler(pow=np.inf if c["ord"] == "inf" else c["ord"])


def s():
    return gen.fd(kind=gen.S(["id", "std", "norm", "norm"]), ord=gen.S(ORD), n=st.integers(1, 6), offset=gen.S([0] * 6 + [2, 4, 5, 6]), near=gen.S([None] * 4 + [1e-2, 1e-3, 3e-5, 1e-6, -1e-4, 0.0]), d=gen.up(1, 8, 40, 40, 300), seed=gen.SEED,
                  dkind=gen.S(["normal", "ints", "decimals", "big", "tiny", "uniform", "outlier", "mixture"]),
                  first=st.lists(gen.value, max_size=8), order=st.lists(st.tuples(st.integers(0, 5), gen.S(["t", "ft", "f"])).map(list), max_size=8))


def run(c, rec):
    n, d = c["n"], c["d"]
    X = gen.make(dict(kind=c["dkind"], seed=c["seed"], n=n, d=d))
    if c["offset"]:                       # a large common level with a small spread
        s = np.abs(X).max() or 1.0
        X = s * 10.0 ** c["offset"] + X
    for j, v in enumerate(c["first"][:d]):
        X[0, j] = v
    if c.get("near") is not None:          # instances that are almost, or already, normalised
        for i in range(0, n, 2):
            e = ref(c, X[i])[0]
            if e is not None:
                X[i] = e * (1.0 + c["near"])
    t = build(c)
    exp = [ref(c, x) for x in X]
    name = c["kind"] + (f"({c['ord']})" if c["kind"] == "norm" else "")
    dec = 0

    def judge(got, i, what):
        nonlocal dec
        if exp[i][0] is None:
            return
        got = vec(got, d, what)
        e, tol = exp[i]
        require(np.all(np.isfinite(got)) and np.max(np.abs(got - e)) <= tol * max(1.0, np.max(np.abs(e))),
                lambda: f"{name} scaler, {what}: {X[i].tolist()} -> {got.tolist()}, expected {e.tolist()}")
        dec += 1

    for i, how in c["order"]:
        i %= n
        if how == "t":
            judge(t.transform_partial(X[i].copy()), i, "transform_partial")
        elif how == "ft":
            judge(t.fit_transform_partial(X[i].copy()), i, "fit_transform_partial")
        else:
            t.fit_partial(X[i].copy())
    for nm in ("transform", "fit_transform"):
        got = mat(getattr(t, nm)(X.copy()), n, d, nm)
        for i in range(n):
            judge(got[i], i, nm)
    rec.nt(dec > 2 and d > 1)
    rec.label(name)


PROP = Prop("C12", "instances of 1..300 features of varying magnitude through transform / fit_transform / batch calls; non-trivial: at least two features and three decided outputs",
            [Sub("scalers", s, run, quick=16000, thorough=320000, shards=6)],
            ["degenerate instances (all zero for the norm, zero spread for the standard scaler) are outside the statement"])
