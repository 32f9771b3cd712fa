import math

import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, close, num, require
from pysad.models import ExactStorm


def s_storm():
    return gen.fd(W=gen.up(1, 14, 80, 300), n=gen.up(0, 40, 150, 500), d=gen.up(1, 4, 30, 130), loc=gen.S([0.0, 0.0, 0.0, 1e8, -1e6, 4096.0]), seed=gen.SEED, kind=gen.S(["grid", "pyth", "normal", "dup"]), r=gen.S([0.5, 1.0, 5.0, 2.0, 0.1, 13.0]),
                  asks=st.lists(st.integers(0, 3), min_size=1, max_size=6), fs=gen.B, default=gen.S([False, False, False, "r", "W"]))


def points(c, rs, n):
    return raw_points(c, rs, n) + c["loc"]


def raw_points(c, rs, n):
    d = c["d"]
    if c["kind"] == "grid":
        return rs.randint(-3, 4, size=(n, d)) * (c["r"] if c["r"] in (0.5, 1.0, 2.0) else 1.0)
    if c["kind"] == "pyth":                     # distances 5 and 13 occur exactly
        P = np.zeros((n, d))
        steps = np.array([[3, 4], [-4, 3], [5, 12], [12, -5], [0, 5], [0, 0]])
        k = min(2, d)
        P[:, :k] = steps[rs.randint(len(steps), size=n)][:, :k] * rs.randint(0, 2, size=(n, 1))
        return P
    if c["kind"] == "normal":
        return rs.randn(n, d) * c["r"]
    return (rs.randn(3, d) * 2 * c["r"])[rs.randint(3, size=n)]


def r_storm(c, rec):
    rs = np.random.RandomState(c["seed"])
    X, Q = points(c, rs, c["n"]), points(c, rs, 4)
    W, r = c["W"], c["r"]
    kw = dict(window_size=W, max_radius=r)
    if c["default"] == "r":
        kw.pop("max_radius")
        r = 0.1
    elif c["default"] == "W":
        kw.pop("window_size")
        W = 10000
    m = ExactStorm(**kw)
    exact = c["kind"] in ("grid", "pyth")

    def judge(got, q, n):
        R = X[max(0, n - W):n][:-1]
        if len(R) == 0:
            lo = hi = 0.0
        else:
            d2 = ((R - q) ** 2).sum(axis=1)
            if exact:                           # squared distances are exact
                lo = hi = float(np.sum(d2 < r * r)) / len(R)
                rec.label("distance equal to the radius", bool(np.any(d2 == r * r)))
            else:
                dist = np.sqrt(d2)
                slack = 1e-9 * r + 1e-15 * abs(c["loc"]) * c["d"]
                lo, hi = float(np.sum(dist < r - slack)) / len(R), float(np.sum(dist < r + slack)) / len(R)
        got = num(got, "exact STORM score")
        require(lo - 1e-12 <= got <= hi + 1e-12, lambda: f"exact STORM W={W} radius {r}: score of {q.tolist()} after {n} instances is {got!r}, expected {lo!r} (window without the most recent instance: {R.tolist()})")

    judge(m.score_partial(Q[0].copy()), Q[0], 0)
    for i in range(c["n"]):
        a = c["asks"][i % len(c["asks"])]
        if c["fs"] and a == 1:
            judge(m.fit_score_partial(X[i].copy()), X[i], i + 1)
            continue
        m.fit_partial(X[i].copy())
        for j in range(a if i < c["n"] - 1 else 3):
            q = (X[i], Q[j], X[(i * 3 + j) % c["n"]])[j % 3]
            judge(m.score_partial(q.copy()), q, i + 1)
    rec.nt(c["n"] > W > 1)


PROP = Prop("C21", "streams on exact grids (distances equal to the radius) and arbitrary ones, queries at any time; non-trivial: more instances than the window",
            [Sub("count", s_storm, r_storm, quick=12000, thorough=240000, shards=4)],
            ["on non-grid data, distances within 1e-9 of the radius may count either way"])
