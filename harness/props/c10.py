import math

from hypothesis import strategies as st

import gen
import oracle
from core import Prop, Sub, close, num, require
from pysad.transform.probability_calibration import ConformalProbabilityCalibrator, GaussianTailProbabilityCalibrator


def s():
    op = st.tuples(gen.S(["f", "ft", "ft", "t"]), gen.S(["same", "other", "shift"]), st.integers(0, 1000)).map(list)
    return gen.fd(kind=gen.S(["conformal", "gauss"]), windowed=gen.B, w=st.one_of(*[st.integers(1, 5)] * 5, *[st.integers(1, 40)] * 5, st.integers(41, 300)),
                  vals=gen.values(1, 30), ops=st.lists(op, min_size=1, max_size=30),
                  tail=gen.fd(kind=gen.S(["normal", "ints", "decimals", "walk", "big", "const", "two"]), seed=gen.SEED, n=gen.up(0, 90, 900), d=st.just(1)))


def exactish(vals):
    return all(float(v * 8).is_integer() and abs(v) < 1e4 for v in vals)


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def expect(kind, live, q, h):
    """interval [lo, hi] or None"""
    if not live:
        return None
    n = len(live)
    if kind == "conformal":
        v = sum(1 for x in live if x > q) / n
        return v - 1e-12, v + 1e-12
    m, v = oracle.mean(live), oracle.pvar(live)
    tm, tv = oracle.tol_mean(h, n), oracle.tol_var(h, n)
    if v == 0 and exactish(live) and h.exact:
        lo = hi = phi(q - m)
    elif v > 1e3 * tv:
        z = [(q - m + a) / math.sqrt(v + b) for a in (-tm, tm) for b in (-tv, tv)]
        lo, hi = phi(min(z)), phi(max(z))
    else:
        return None
    return lo - 1e-9, hi + 1e-9


def run(c, rec):
    kind, W, win_on = c["kind"], c["w"], c["windowed"]
    cal = ConformalProbabilityCalibrator(windowed=win_on, window_size=W) if kind == "conformal" else GaussianTailProbabilityCalibrator(running_statistics=win_on, window_size=W)
    vals = [float(v) for v in c["vals"]] + [float(v) for v in gen.make(c["tail"])[:, 0]]
    h = oracle.Hist()
    h.exact = exactish(vals)
    live, decided = [], 0
    dense = True

    def win():
        return live[-W:] if win_on else live

    def judge(got, q, what):
        nonlocal decided
        require(0.0 <= got <= 1.0, lambda: f"{what}: probability {got!r} outside [0, 1]")
        e = expect(kind, win(), q, h) if dense else None
        if e is not None:
            require(e[0] <= got <= e[1], lambda: f"{what}: score {q} -> {got!r}, expected {(e[0] + e[1]) / 2!r}; retained {win()[:15]}")
            decided += 1

    for i, v in enumerate(vals):
        o = c["ops"][i % len(c["ops"])]
        what = f"{kind} calibrator windowed={win_on} W={W} step {i}"
        dense = i % max(1, len(vals) // 60) == 0 or i == len(vals) - 1       # long streams are judged now and then
        q = v if o[1] == "same" else vals[o[2] % len(vals)] + (0.25 if o[1] == "shift" else 0.0)
        if o[0] == "t" and live:
            for again in range(2):
                judge(num(cal.transform_partial(q), what), q, what)
        live.append(v)
        h.add(v)
        h.add(v)
        if o[0] == "ft":
            judge(num(cal.fit_transform_partial(v), what), v, what)
        else:
            cal.fit_partial(v)
            if i % 3 == 0 and dense or i == len(vals) - 1:
                judge(num(cal.transform_partial(q), what), q, what)
    rec.nt(decided >= 3)
    rec.label(kind + (" windowed" if win_on else ""))
    rec.label("evicting", win_on and len(vals) > W)


CORNERS = [dict(kind=k, windowed=wn, w=3, vals=[1.0, 2.0, 2.0, 5.0, 2.0, -1.0, 2.0, 2.0, 2.0], ops=[["ft", "same", 0], ["t", "other", 3], ["f", "shift", 1]],
                tail=dict(kind="ints", seed=1, n=5, d=1)) for k in ("conformal", "gauss") for wn in (True, False)]
PROP = Prop("C10", "score histories with ties, constants, several windows; fit / transform / fit_transform in any order; non-trivial: at least three decided outputs",
            [Sub("history", s, run, quick=18000, thorough=360000, shards=8, corners=CORNERS)],
            ["the Gaussian calibrator is judged where the variance is exactly zero on exactly representable scores or clearly above round-off"])
