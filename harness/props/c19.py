import math

import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, RngState, Sub, close, num, require
from pysad.models import RSHash

DECAY = [0.015, 0.001, 0.1, 0.5, 1.0, 2.0, 1e-5]


def bounds(c, X, valid):
    lo, hi = X.min(axis=0) - 0.5, X.max(axis=0) + 0.5
    if c["rng_kind"] == "narrow":                # a range that is small but not empty
        hi = lo + c["eps"] * np.maximum(1.0, np.abs(lo))
    elif c["rng_kind"] == "exact":
        lo, hi = X.min(axis=0), X.max(axis=0)
        hi = np.where(hi > lo, hi, lo + 1.0)
    if c["bounds"] == "list" and valid.all():
        return [float(v) for v in lo], [float(v) for v in hi]
    hi = np.where(valid, hi, lo)
    return lo, hi


def trim(c):
    return dict(c, n=max(6, min(c["n"], 2000 // (c["m"] * c["w"]))))         # keeps the largest combinations affordable


def drive(c, X, valid, judge):
    lo, hi = bounds(c, X, valid)
    kw = dict(decay=c["decay"], num_components=c["m"], num_hash_fns=c["w"])
    if c["sp"] is not None:
        kw["sampling_points"] = c["sp"]
    with RngState(c["rng"]).active():
        m = RSHash(lo, hi, **kw)
        for i in range(len(X)):
            if c["fs"]:
                got = m.fit_score_partial(X[i].copy())
            else:
                m.fit_partial(X[i].copy())
                got = m.score_partial(X[i].copy())
            judge(i, num(got, "RS-Hash score"))


def weight(i, js, decay):
    return sum(2.0 ** (-decay * (i - j)) for j in js)


def common(**kw):
    return gen.fd(decay=gen.S(DECAY), m=gen.up(1, 12, 150), w=gen.up(1, 4, 9), sp=gen.S([None, None, 1, 50, 3000]), rng=gen.SEED, seed=gen.SEED,
                  d=gen.up(1, 8, 40), n=gen.up(1, 60, 300), const=st.lists(gen.B, min_size=8, max_size=8), bounds=gen.S(["arr", "list"]), rng_kind=gen.S(["wide", "wide", "exact", "narrow"]), eps=gen.S([1e-9, 1e-6, 1e-12, 0.01]), fs=gen.B, **kw)


def masks(c):
    """features with a range; none at all counts like all"""
    v = ~np.array((c["const"] * (c["d"] // 8 + 1))[:c["d"]])
    return v, (v if v.any() else np.ones(c["d"], dtype=bool))


def s_code():
    return common(k=st.integers(1, 6), step=gen.S([1.0, 1.5, 7.0, 100.0, 100.0, 1e7, 1e10, 1e13]), at=gen.S([0.0, 0.0, 0.0, -1e5, 1e9, 1.7e12]), burst=gen.B)


def r_code(c, rec):
    c = trim(c)
    rs = np.random.RandomState(c["seed"])
    d, n, k = c["d"], c["n"], c["k"]
    P = np.stack([rs.permutation(k) for _ in range(d)], axis=1) * c["step"] + np.round(rs.randn(d) * 10, 2) + c["at"]
    valid, used = masks(c)
    idx = rs.randint(k, size=n)
    if c["burst"]:
        idx = np.sort(idx)
    X = P[idx]
    if c["step"] == 1.0:
        X = np.floor(X)                        # exactly one apart
    # features without a range must not matter: give them values unrelated to the codebook
    for j in range(d):
        if not used[j]:
            X[:, j] = rs.randint(0, 3, size=n) * 5.0
    what = f"RS-Hash (decay {c['decay']}, {c['m']} components, {c['w']} hash functions)"

    def judge(i, got):
        js = [j for j in range(i) if idx[j] == idx[i]]
        e = math.log(1 + weight(i, js, c["decay"]))
        require(close(got, e, 1e-9 * (1 + e)), lambda: f"{what}: instance {i} of the separated stream {idx.tolist()} scores {got!r}, expected {e!r}: earlier equal instances at {js}")

    drive(c, X, valid, judge)
    rec.nt(n > k > 1)
    rec.label("feature without range", not used.all())
    rec.label("no feature has a range", not valid.any())


def s_any():
    return common(kind=gen.S(["ints", "uni", "normal", "dup"]), scale=gen.S([1.0, 0.3, 3.0]))


def r_any(c, rec):
    c = trim(c)
    rs = np.random.RandomState(c["seed"])
    d, n = c["d"], c["n"]
    X = {"ints": lambda: rs.randint(-3, 4, size=(n, d)).astype(float), "uni": lambda: rs.rand(n, d) * 4,
         "normal": lambda: rs.randn(n, d), "dup": lambda: rs.randn(4, d)[rs.randint(4, size=n)]}[c["kind"]]() * c["scale"]
    valid, used = masks(c)
    U = X[:, used]

    def judge(i, got):
        D = np.abs(U[:i] - U[i])
        eq = [j for j in range(i) if not D[j].any()]
        near = [j for j in range(i) if D[j].min() < 1.0]
        lo, hi = math.log(1 + weight(i, eq, c["decay"])), math.log(1 + weight(i, near, c["decay"]))
        require(lo - 1e-9 <= got <= hi + 1e-9, lambda: f"RS-Hash (decay {c['decay']}, {c['m']} components): instance {i} scores {got!r}, outside [{lo!r}, {hi!r}], the range given by its equal and its nearby predecessors; stream {X.tolist()}")
        rec.label("bounds coincide", hi - lo < 1e-12)
        rec.label("bounds differ", hi - lo > 1e-3)

    drive(c, X, valid, judge)
    rec.nt(n > 3)


def s_hash():
    return common(w2=st.integers(1, 5))


def r_hash(c, rec):
    c = trim(c)
    rs = np.random.RandomState(c["seed"])
    X = rs.rand(c["n"], c["d"]) * 3
    valid, _ = masks(c)
    a, b = [], []
    drive(c, X, valid, lambda i, g: a.append(g))
    drive(dict(c, w=c["w2"], fs=not c["fs"]), X, valid, lambda i, g: b.append(g))
    require(np.allclose(a, b, rtol=1e-12, atol=1e-12), lambda: f"RS-Hash: {c['w']} and {c['w2']} hash functions give different scores {a} and {b}")
    rec.nt(c["w"] != c["w2"] and c["n"] > 5)


def s_lvl():
    return gen.fd(seed=gen.SEED, m=st.integers(2, 6), d=st.integers(1, 3), delta=gen.S([0.2, 0.3, 0.4]), gap=st.integers(0, 3))


def r_lvl(c, rec):
    """two nearby instances share the cell in some components and not in others: the score is the mean over components"""
    rs = np.random.RandomState(c["seed"])
    mid = False
    for t in range(80):
        x = rs.rand(c["d"]) * 10
        y = x + c["delta"]
        far = x + 1000.0
        with RngState(rs.randint(2 ** 31 - 1)).active():
            m = RSHash(np.full(c["d"], -1.0), np.full(c["d"], 2000.0), decay=0.5, num_components=c["m"])
            m.fit_partial(x)
            for _ in range(c["gap"]):
                m.fit_partial(far)
            s = num(m.fit_score_partial(y), "RS-Hash score")
        unit = math.log(1 + 2.0 ** (-0.5 * (c["gap"] + 1))) / c["m"]
        k = s / unit
        require(abs(k - round(k)) < 1e-6 and -1e-9 <= k <= c["m"] + 1e-6, lambda: f"RS-Hash with {c['m']} components: a second instance scores {s!r}, not a multiple 0..{c['m']} of {unit!r}")
        mid |= 0 < round(k) < c["m"]
    require(mid, lambda: f"RS-Hash with {c['m']} components: in 80 models a nearby instance always shared the cell in all components or in none")
    rec.nt()


PROP = Prop("C19", "streams over codebooks separated by at least 1 in every used feature (exact), arbitrary streams (bounds), nearby pairs (component levels); non-trivial: codebook with repetitions, or more than three instances",
            [Sub("codebook", s_code, r_code, quick=4000, thorough=80000, shards=3),
             Sub("bounds", s_any, r_any, quick=2400, thorough=48000, shards=2),
             Sub("hash_functions", s_hash, r_hash, quick=640, thorough=12800),
             Sub("levels", s_lvl, r_lvl, quick=96, thorough=1920)],
            ["cells are narrower than 1 in the units of the data, so instances at least 1 apart in every used feature never share a cell",
             "feature bounds are arrays when some feature has no range (elementwise comparison)"])
