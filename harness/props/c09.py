import math

from hypothesis import strategies as st

import gen
import oracle
from core import Prop, Sub, close, num, require
from pysad.transform.postprocessing import (AveragePostprocessor, MaxPostprocessor, MedianPostprocessor,
                                            RunningAveragePostprocessor, RunningMaxPostprocessor,
                                            RunningMedianPostprocessor, RunningZScorePostprocessor, ZScorePostprocessor)

CLS = {("avg", 0): AveragePostprocessor, ("max", 0): MaxPostprocessor, ("median", 0): MedianPostprocessor, ("z", 0): ZScorePostprocessor,
       ("avg", 1): RunningAveragePostprocessor, ("max", 1): RunningMaxPostprocessor, ("median", 1): RunningMedianPostprocessor, ("z", 1): RunningZScorePostprocessor}


def s():
    op = st.tuples(gen.S(["f", "ft", "ft", "t"]), gen.S(["same", "other"]), st.integers(0, 1000)).map(list)
    return gen.fd(kind=gen.S(["avg", "max", "median", "z", "z"]), running=st.integers(0, 1), w=st.one_of(*[st.integers(1, 5)] * 5, *[st.integers(1, 40)] * 5, st.integers(41, 300)),
                  vals=gen.values(1, 30), ops=st.lists(op, min_size=1, max_size=30),
                  tail=gen.fd(kind=gen.S(["normal", "ints", "decimals", "walk", "big", "const"]), seed=gen.SEED, n=gen.up(0, 80, 900), d=st.just(1)))


def expect(kind, live, score, h):
    """(value, tolerance) or None when not decided"""
    if not live:
        return None
    n = len(live)
    if kind != "z":
        return oracle.STATS[kind](live), oracle.tol(kind, h, n)
    m, v = oracle.mean(live), oracle.pvar(live)
    tv, tm = oracle.tol_var(h, n), oracle.tol_mean(h, n)
    if v <= 1e3 * tv or v == 0:
        return None
    sd = math.sqrt(v)
    z = (score - m) / sd
    return z, abs(z) * (tv / v) + 4 * tm / sd + 1e-9 * abs(z)


def run(c, rec):
    kind, W = c["kind"], c["w"]
    p = CLS[(kind, c["running"])](W) if c["running"] else CLS[(kind, c["running"])]()
    vals = [float(v) for v in c["vals"]] + [float(v) for v in gen.make(c["tail"])[:, 0]]
    live, h, decided, evict = [], oracle.Hist(), 0, False
    for i, v in enumerate(vals):
        o = c["ops"][i % len(c["ops"])]
        win = live[-W:] if c["running"] else live
        what = f"{'running ' if c['running'] else ''}{kind} postprocessor W={W} step {i}"
        q = v if o[1] == "same" else vals[o[2] % len(vals)]
        dense = i % max(1, len(vals) // 60) == 0 or i == len(vals) - 1       # long streams are read (and judged) now and then
        if o[0] == "t" and dense:
            e = expect(kind, win, q, h)
            if e is not None:
                for again in range(2):
                    got = num(p.transform_partial(q), what)
                    require(close(got, e[0], e[1]), lambda: f"{what}: transform({q}) = {got!r}, expected {e[0]!r} over {win[:15]}")
                decided += 1
        live.append(v)
        h.add(v)
        h.add(v)
        win = live[-W:] if c["running"] else live
        evict |= bool(c["running"] and len(live) > W)
        e = expect(kind, win, v, h) if dense else None
        if o[0] == "ft":
            got = num(p.fit_transform_partial(v), what)
            if e is not None:
                require(close(got, e[0], e[1]), lambda: f"{what}: fit_transform({v}) = {got!r}, expected {e[0]!r} over {win[:15]}")
                decided += 1
        else:
            p.fit_partial(v)
            if i % 3 == 0 and dense or i == len(vals) - 1:
                e = expect(kind, win, q, h)
                if e is not None:
                    got = num(p.transform_partial(q), what)
                    require(close(got, e[0], e[1]), lambda: f"{what}: transform({q}) after fit = {got!r}, expected {e[0]!r} over {win[:15]}")
                    decided += 1
    rec.nt(decided >= 3)
    rec.label(f"{kind}{' running' if c['running'] else ''}")
    rec.label("evicting", evict)


PROP = Prop("C09", "score histories with fit / transform / fit_transform calls in any order; non-trivial: at least three decided outputs",
            [Sub("history", s, run, quick=18000, thorough=360000, shards=8)],
            ["z-scores are judged only where the variance is not within round-off of zero"])
