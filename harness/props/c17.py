import math

import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from core import Prop, Sub, num, require
from pysad.models import MedianAbsoluteDeviation, StandardAbsoluteDeviation

INF = math.inf


def interval_div(n_lo, n_hi, d_lo, d_hi):
    q = [a / b for a in (n_lo, n_hi) for b in (d_lo, d_hi)]
    return min(q), max(q)


def inside(x, lo, hi, absolute):
    if absolute:
        lo, hi = (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi))
    slack = 1e-11 * max(abs(lo), abs(hi)) + 1e-300
    return lo - slack <= x <= hi + slack


def ops():
    return st.lists(st.tuples(gen.S(["fit", "score", "fs", "score_old"]), gen.S([0, 1, 2, 3])).map(list), min_size=1, max_size=6)


def s_sad():
    return gen.fd(kind=gen.S(["sad", "mad"]), vals=gen.values(1, 40), sub=gen.S(["mean", "median", None]), absolute=gen.S([True, False, None]),
                  b=gen.S([None, 1.0, 2.5, 0.5]), shift=gen.S([0.0, 0.0, 0.0, 1e3, -7.0]), tail=gen.fd(kind=gen.S(["normal", "ints", "decimals", "walk", "two", "const"]), seed=gen.SEED, n=st.one_of(*[st.just(0)] * 6, *[st.integers(1, 60)] * 5, st.integers(61, 600)), d=st.just(1)), pattern=ops(), container=gen.S(["arr", "arr", "ro"]),
                  scale=gen.S([1.0, 1.0, 1e-3]))


def r_sad(c, rec):
    vals = [float(v) for v in c["vals"]] + ([float(v) for v in gen.make(c["tail"])[:, 0]] if "tail" in c else [])
    vals = [v * c["scale"] + c["shift"] for v in vals]
    kw = {}
    if c["absolute"] is not None:
        kw["absolute"] = c["absolute"]
    absolute = c["absolute"] is not False
    if c["kind"] == "sad":
        if c["sub"] is not None:
            kw["substracted_statistic"] = c["sub"]
        m = StandardAbsoluteDeviation(**kw)
        what = f"standard deviation model ({c['sub'] or 'mean'}, absolute={absolute})"
    else:
        if c["b"] is not None:
            kw["b"] = c["b"]
        m = MedianAbsoluteDeviation(**kw)
        what = f"median absolute deviation model (b={c['b']}, absolute={absolute})"
    h = oracle.Hist()
    seen, devs = [], []

    def fit(v):
        seen.append(v)
        h.add(v)
        devs.append(abs(v - oracle.median(seen)))

    def arr(v):
        a = np.array([v])
        if c["container"] == "ro":
            a.setflags(write=False)
        return a

    def judge(got, x):
        got = num(got, what)
        if c["kind"] == "sad":
            n = len(seen)
            if (c["sub"] or "mean") == "mean":
                cen, t = oracle.mean(seen), oracle.tol_mean(h, n)
            else:
                cen, t = oracle.median(seen), oracle.EPS * abs(oracle.median(seen))
            v, tv = oracle.pvar(seen), oracle.tol_var(h, n)
            d_lo, d_hi = math.sqrt(max(0.0, v - tv)), math.sqrt(v + tv)
        else:
            cen = oracle.median(seen)
            t = oracle.EPS * abs(cen)
            b = 1.4826 if c["b"] is None else c["b"]
            d = b * oracle.median(devs)
            e = b * oracle.EPS * max(map(abs, seen)) + oracle.EPS * d
            d_lo, d_hi = max(0.0, d - e), d + e
        t += 1e-15 * abs(x)
        lo, hi = interval_div(x - cen - t, x - cen + t, d_lo + 1e-10, d_hi + 1e-10)
        require(inside(got, lo, hi, absolute), lambda: f"{what}: score of {x!r} after {len(seen)} values is {got!r}, expected between {lo!r} and {hi!r} (before the absolute value); values {seen[:60]}")
        if hi - lo <= 1e-3 * max(abs(lo), abs(hi)):
            rec.label("judged tightly")

    for i, v in enumerate(vals):
        op, k = c["pattern"][i % len(c["pattern"])]
        if len(vals) > 100 and i % (len(vals) // 40) and i > 4:      # long streams are read now and then
            op = "fit"
        if op == "fs":
            fit(v)
            judge(m.fit_score_partial(arr(v)), v)
            continue
        m.fit_partial(arr(v))
        fit(v)
        for j in range(k if op != "fit" else 0):
            x = v + j if op == "score" else vals[(i * 3 + j) % len(vals)]
            judge(m.score_partial(arr(x)), x)
    judge(m.score_partial(arr(vals[0] + 1.5)), vals[0] + 1.5)
    rec.nt(len(set(vals)) > 2)
    rec.label("constant stream", len(set(vals)) == 1)
    rec.label(c["kind"])


PROP = Prop("C17", "univariate streams (ties, wide magnitudes, constants) with interleaved scores of fitted and foreign values; non-trivial: more than two distinct values",
            [Sub("formula", s_sad, r_sad, quick=12000, thorough=240000, shards=4,
                 corners=[dict(kind=k, vals=[0.1] * 7, sub=s, absolute=None, b=None, shift=0.0, pattern=[["fs", 0]], container="arr", scale=1.0) for k, s in (("sad", "mean"), ("sad", "median"), ("mad", None))])],
            ["values are float arrays of shape (1,), as the models require", "the round-off of the running sums is bounded by 4e-12 of their magnitude"])
