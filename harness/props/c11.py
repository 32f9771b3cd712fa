import itertools

import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, Violation, close, num, require, same_arr, vec
from pysad.transform.ensemble import (AverageOfMaximumScoreEnsembler, AverageScoreEnsembler, MaximumOfAverageScoreEnsembler,
                                      MaximumScoreEnsembler, MedianScoreEnsembler)
import oracle

SIMPLE = ["avg", "wavg", "max", "median"]


def build(c):
    k = c["kind"]
    if k == "avg":
        return AverageScoreEnsembler()
    if k == "wavg":
        return AverageScoreEnsembler(estimator_weights=np.array(c["weights"][:c["k"]], dtype=int if c["whole"] else float).reshape(1, -1))
    if k == "max":
        return MaximumScoreEnsembler()
    if k == "median":
        return MedianScoreEnsembler()
    raise KeyError(k)


def ref(c, row):
    row = [float(v) for v in row]
    if c["kind"] == "avg":
        return oracle.mean(row)
    if c["kind"] == "wavg":
        w = c["weights"][:c["k"]]
        return float(sum(oracle.Fraction(a) * oracle.Fraction(b) for a, b in zip(row, w)) / sum(oracle.Fraction(b) for b in w))
    if c["kind"] == "max":
        return max(row)
    return oracle.median(row)


def s_simple():
    return gen.fd(kind=gen.S(SIMPLE), k=gen.up(1, 12, 200), n=gen.up(1, 10, 300), seed=gen.SEED, mix=gen.B, whole=gen.S([False, False, True]), dt=gen.S(["float64", "float64", "float64", "float32", "int64", "int32"]),
                  dkind=gen.S(["normal", "ints", "decimals", "big", "tiny", "const", "outlier"]),
                  weights=st.lists(gen.S([0.5, 1.0, 2.0, 3.0, 0.25, 7.0, 0.0, 1e-3, 100.0]), min_size=12, max_size=12),
                  order=st.lists(st.integers(0, 9), max_size=8), explicit=st.lists(gen.value, max_size=9))


def r_simple(c, rec):
    k, n = c["k"], c["n"]
    w = (c["weights"] * (k // 12 + 1))[:k]
    if c["whole"]:
        w = [round(v) for v in w]
    if sum(w) == 0:
        w[-1] = 1.0
    c = dict(c, weights=w)
    X = gen.make(dict(kind=c["dkind"], seed=c["seed"], n=n, d=k))
    if c["mix"]:                          # every row of a kind of its own
        rs = np.random.RandomState(c["seed"] ^ 3)
        for i in range(n):
            X[i] = gen.make(dict(kind=rs.choice(["normal", "ints", "const", "blend", "big", "tiny", "two"]), seed=int(rs.randint(10 ** 6)), n=1, d=k))[0] + rs.choice([0.0, 0.0, 10.0, -50.0])
            if rs.rand() < 0.3:
                X[i] = X[i, 0]
    for j, v in enumerate(c["explicit"][:k]):
        X[0, j] = v
    dt = c["dt"]
    if "int" in dt:
        X = np.rint(np.clip(X, -1e6, 1e6)).astype(dt)
    elif dt == "float32":
        X = np.clip(X, -1e30, 1e30).astype(dt)
    e = build(c)
    tol = (1e-11 if dt != "float32" else 4e-7) * (1e-300 + np.abs(X).max(axis=1)) * k
    exp = {}
    cells = range(n) if n <= 12 else sorted({0, 1, n // 2, n - 2, n - 1} | {int(i) for i in np.random.RandomState(c["seed"] ^ 7).randint(n, size=8)})

    def judge(got, i, what):
        if i not in exp:
            exp[i] = ref(c, X[i])
        require(close(got, exp[i], tol[i]), lambda: f"{c['kind']} ensembler, {what}: {X[i].tolist()} -> {got!r}, expected {exp[i]!r}")

    for i in c["order"]:
        i = i % n
        judge(num(e.transform_partial(X[i].copy()), "transform_partial"), i, "transform_partial")
    for i in cells:
        judge(num(e.fit_transform_partial(X[i].copy()), "fit_transform_partial"), i, "fit_transform_partial")
    for name in ("transform", "fit_transform"):
        got = vec(getattr(e, name)(X.copy()), n, name)
        for i in cells:
            judge(got[i], i, name)
    e.fit(X.copy())
    judge(num(e.transform_partial(X[0].copy()), "transform_partial"), 0, "transform_partial after fit")
    rec.nt(k > 1)
    rec.label(c["kind"])


# ---- many detectors: cases in which every bucket layout gives the same result
def s_many():
    return gen.fd(mode=gen.S(["aom", "moa"]), b=st.one_of(st.integers(2, 8), st.integers(9, 40)), per=st.one_of(st.integers(1, 4), st.integers(5, 30)), kind=gen.S(["one", "one low", "const", "single"]), n=st.integers(1, 12),
                  seed=gen.SEED, v=gen.S([1.0, 0.3, -2.0, 1e6, 1e-4]), base=gen.S([0.0, 0.0, 5.0, -1.0]))


def r_many(c, rec):
    """one detector differs from all others (or buckets of one detector each): the layout cannot matter"""
    b, per = c["b"], 1 if c["kind"] == "single" else c["per"]
    k, n, hot, base = b * per, c["n"], abs(c["v"]), c["base"]
    rs = np.random.RandomState(c["seed"])
    X = np.full((n, k), base)
    pos = rs.randint(k, size=n)
    if c["kind"] == "one":
        X[np.arange(n), pos] = base + hot
        exp = base + (hot / b if c["mode"] == "aom" else hot / per)
        exp = np.full(n, exp)
    elif c["kind"] == "one low":
        X[np.arange(n), pos] = base - hot
        exp = np.full(n, base - (hot / b if c["mode"] == "aom" and per == 1 else 0.0))
    elif c["kind"] == "const":
        X += rs.randint(-3, 4, size=(n, 1)) * hot
        exp = X[:, 0].copy()
    else:
        X = np.round(rs.randn(n, k), 3) * hot
        exp = X.mean(axis=1) if c["mode"] == "aom" else X.max(axis=1)
    e = (AverageOfMaximumScoreEnsembler if c["mode"] == "aom" else MaximumOfAverageScoreEnsembler)(n_buckets=b)
    tol = 1e-9 * (abs(base) + 10 * hot)
    got = vec(e.fit_transform(X.copy()), n, "fit_transform")
    for i in range(n):
        one = num(e.transform_partial(X[i].copy()), "transform_partial")
        for g in (one, got[i]):
            require(abs(g - exp[i]) <= tol, lambda: f"{c['mode']} with {b} buckets of {per} detectors ({c['kind']}): {g!r}, expected {exp[i]!r} for any layout")
    rec.nt(per > 1)
    rec.label(c["kind"])


# ---- bucket ensemblers: the result must be reachable by some admissible bucket layout
def partitions(idx, size):
    if not idx:
        yield []
        return
    first, rest = idx[0], idx[1:]
    for comb in itertools.combinations(rest, size - 1):
        b = (first,) + comb
        left = [i for i in rest if i not in comb]
        for p in partitions(left, size):
            yield [b] + p


def reachable(mode, row, b, method, boot):
    k = len(row)
    row = [float(v) for v in row]
    out = set()
    if method == "static" and not boot:
        for p in partitions(list(range(k)), k // b):
            vals = [max(row[i] for i in q) if mode == "aom" else sum(row[i] for i in q) / len(q) for q in p]
            out.add(sum(vals) / b if mode == "aom" else max(vals))
        return out
    sizes = [k // b] if method == "static" else list(range(2, k // 2 + 1))
    one = set()
    for sz in sizes:
        for q in itertools.combinations(range(k), sz):
            one.add(max(row[i] for i in q) if mode == "aom" else sum(row[i] for i in q) / sz)
    if mode == "moa":
        return one
    for combo in itertools.combinations_with_replacement(sorted(one), b):
        out.add(sum(combo) / b)
    return out


def s_bucket():
    return gen.fd(mode=gen.S(["aom", "moa"]), layout=gen.S([[4, 2], [6, 2], [6, 3], [8, 2], [8, 4], [3, 3], [5, 5], [2, 2], [10, 5]]),
                  method=gen.S(["static", "static", "dynamic"]), boot=gen.B, n=st.integers(1, 4), seed=gen.SEED,
                  dkind=gen.S(["normal", "ints", "decimals", "outlier", "uniform", "const"]), dflt=gen.B)


def r_bucket(c, rec):
    k, b = c["layout"]
    if c["method"] == "dynamic":
        k = max(k, 6)
        b = min(b, 3)
    cls = AverageOfMaximumScoreEnsembler if c["mode"] == "aom" else MaximumOfAverageScoreEnsembler
    if b == 5 and c["dflt"] and c["method"] == "static" and not c["boot"]:
        e = cls()
    else:
        e = cls(n_buckets=b, method=c["method"], bootstrap_estimators=c["boot"])
    X = gen.make(dict(kind=c["dkind"], seed=c["seed"], n=c["n"], d=k))
    outs = [num(e.transform_partial(X[i].copy()), "transform_partial") for i in range(len(X))]
    outs2 = vec(e.fit_transform(X.copy()), len(X), "fit_transform")
    for i in range(len(X)):
        ok = np.array(sorted(reachable(c["mode"], X[i], b, c["method"], c["boot"])))
        for got in (outs[i], outs2[i]):
            err = np.min(np.abs(ok - got))
            require(err <= 1e-9 * (1 + np.abs(X[i]).max()), lambda: f"{c['mode']} with {b} buckets ({c['method']}, bootstrap={c['boot']}): {X[i].tolist()} -> {got!r} is not the result of any bucket layout")
    rec.nt(b < k and len(set(X[0].tolist())) > 1)
    rec.label(f"{c['mode']} {c['method']}{' bootstrap' if c['boot'] else ''}")


PROP = Prop("C11", "score vectors and matrices (1..200 detectors, ties, weights) for the simple ensemblers; bucket ensemblers are judged by enumerating every admissible bucket layout; "
            "non-trivial: more than one detector (buckets: fewer buckets than detectors and distinct scores)",
            [Sub("simple", s_simple, r_simple, quick=10000, thorough=200000, shards=6),
             Sub("buckets", s_bucket, r_bucket, quick=3500, thorough=70000, shards=2),
             Sub("many detectors", s_many, r_many, quick=1500, thorough=30000)],
            ["static buckets have equal size; dynamic buckets have 2..k/2 members, as the underlying combination library defines"])
