import math

import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, RngState, Sub, num, require
from pysad.models import LODA


def levels(bins):
    z = 1 + bins * 1e-12
    return -math.log((1 + 1e-12) / z), -math.log(1e-12 / z)


def filled(s, m, bins, what):
    """number of cuts in whose filled bin the instance falls; the score must be one of the possible levels"""
    L, H = levels(bins)
    k = (m * H - s * m * m) / (H - L)
    require(abs(k - round(k)) < 1e-6 and -0.5 < k < m + 0.5, lambda: f"{what}: score {s!r} is none of the {m + 1} values (k*L + (m-k)*H)/m^2 with L={L!r}, H={H!r} (k would be {k!r})")
    return int(round(k))


KINDS = ["normal", "ints", "const", "walk", "mixture", "tiny", "uniform"]


def s_lvl():
    return gen.fd(x=gen.data(gen.up(1, 40, 150), gen.up(1, 20, 120), KINDS), bins=gen.up(2, 12, 80), m=gen.up(1, 15, 120, 450), rng=gen.SEED, asks=st.lists(st.integers(0, 2), min_size=1, max_size=4), default=gen.S([False] * 9 + [True]))


def r_lvl(c, rec):
    X = gen.make(c["x"])[:12 if c["m"] > 120 else None]
    n, d = X.shape
    bins, m, kw = c["bins"], c["m"], dict(num_bins=c["bins"], num_random_cuts=c["m"])
    if c["default"]:
        bins, m, kw = 10, 100, {}
    rs = np.random.RandomState(c["x"]["seed"] ^ 77)
    what = f"LODA with {m} cuts and {bins} bins on {d} features"
    L, H = levels(bins)
    with RngState(c["rng"]).active():
        model = LODA(**kw)
        for i in range(n):
            model.fit_partial(X[i].copy())
            for _ in range(c["asks"][i % len(c["asks"])] if i < n - 1 else 3):
                q = X[rs.randint(n)] + rs.choice([0, 0.02, 0.2, 1.0]) * rs.randn(d)
                k = filled(num(model.score_partial(q), what), m, bins, what)
                rec.label("some cuts filled, some not", 0 < k < m)
            if bins > 2 and (i == n - 1 or i % 5 == 0):
                q = X[i] + 1e10 * rs.randn(d)
                s = num(model.score_partial(q), what)
                require(abs(s - H / m) < 1e-9 * H / m, lambda: f"{what}: after {i + 1} instances an instance far from the last one scores {s!r}, expected {H / m!r}")
    rec.nt(n > 3 and d > 1)


def s_cut():
    return gen.fd(x=gen.data(st.integers(1, 25), gen.up(1, 12, 40), ["normal", "ints", "const", "walk"]), bins=gen.up(2, 9, 24, 64), rng=gen.SEED)


T = np.concatenate([-(1.5 ** np.arange(70, -31, -1.0)), [0.0], 1.5 ** np.arange(-30, 71, 1.0)])


def scan(model, x, u, bins, what):
    """along x + t u: does the score change, and is it one low stretch?"""
    lab = [filled(num(model.score_partial(x + t * u), what), 1, bins, what) for t in T]
    ch = sum(a != b for a, b in zip(lab, lab[1:]))
    require(ch <= 2, lambda: f"{what}: the low region along a line is not one stretch")
    require(lab[0] == 0 or lab[-1] == 0 or len(set(lab)) == 1, lambda: f"{what}: both ends of a line score low")
    return ch > 0


def r_cut(c, rec):
    X = gen.make(c["x"])
    n, d = X.shape
    bins = c["bins"]
    rs = np.random.RandomState(c["x"]["seed"] ^ 78)
    what = f"LODA with one cut and {bins} bins on {d} features"
    r = math.sqrt(d)
    with RngState(c["rng"]).active():
        model = LODA(num_bins=bins, num_random_cuts=1)
        first = None
        for i in range(n):
            model.fit_partial(X[i].copy())
            if i not in (0, n // 2, n - 1):
                continue
            used = [j for j in range(d) if scan(model, X[i], np.eye(d)[j], bins, what)]
            require(math.floor(r) <= len(used) <= math.ceil(r), lambda: f"{what}: after {i + 1} instances {len(used)} features influence the score, expected about {r:.2f}")
            require(scan(model, X[i], rs.randn(d), bins, what), lambda: f"{what}: after {i + 1} instances no point of a line through the last instance scores differently")
            if first is None:
                first = used
            require(used == first, lambda: f"{what}: features {first} influenced the score after the first instance, {used} after {i + 1}")
    rec.nt(n > 2 and d > 1)


PROP = Prop("C26", "streams of up to 120 features, scores near and far from the last instance (quantised levels), line scans of one-cut models; non-trivial: several instances and features",
            [Sub("levels", s_lvl, r_lvl, quick=1600, thorough=32000, shards=4),
             Sub("one_cut", s_cut, r_cut, quick=240, thorough=4800, shards=4)],
            ["instances at distance 1e10 in a random direction count as far (at least three bins)",
             "which neighbouring bin an instance at a bin border falls into is not judged"])
