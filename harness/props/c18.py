import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, RngState, Sub, close, num, require
from pysad.models import HalfSpaceTrees


def ref_rows(n, W):
    """indices of the reference window after n fitted instances"""
    if n < W:
        return range(0, n)
    k = n // W
    return range((k - 1) * W, k * W)


def stream(rs, n, d, lo, hi, kind):
    """points in and around the ranges; 'grid' hits midpoints exactly"""
    if kind == "grid":
        return lo + (hi - lo) * rs.randint(-1, 10, size=(n, d)) / 8.0
    if kind == "point":
        return np.tile(lo + (hi - lo) * rs.randint(0, 9, size=d) / 8.0, (n, 1))
    if kind == "few":
        P = lo + (hi - lo) * rs.rand(3, d)
        return P[rs.randint(3, size=n)]
    return lo + (hi - lo) * (rs.rand(n, d) * 1.2 - 0.1)


def s_base(dmin, dmax, depth_max, T):
    return dict(d=st.integers(dmin, dmax), W=gen.up(1, 12, 120), h=st.integers(0, depth_max), T=T, n=gen.up(0, 45, 300), seed=gen.SEED, kind=gen.S(["grid", "few", "uni", "point"]),
                rng=gen.SEED, init=st.one_of(st.none(), st.none(), st.integers(0, 30)), initkind=gen.S(["arr", "list"]), bounds=gen.S(["arr", "arr", "list"]),
                offset=gen.S([0.0, -5.0, 100.0]), width=gen.S([1.0, 4.0, 0.1]), asks=st.lists(st.integers(0, 3), min_size=1, max_size=6), fs=gen.B, kwform=gen.B)


def setup(c):
    rs = np.random.RandomState(c["seed"])
    d = c["d"]
    lo = c["offset"] + np.arange(d) * 1.0
    hi = lo + c["width"] * (1 + np.arange(d) % 2)
    n0 = c["init"] or 0
    Z = stream(rs, n0 + c["n"], d, lo, hi, c["kind"])
    Q = stream(rs, 4, d, lo, hi, "grid" if c["kind"] in ("grid", "point") else "uni")
    return lo, hi, n0, Z, Q


def build(c, lo, hi, X0):
    b = (lambda a: a.copy()) if c["bounds"] == "arr" else (lambda a: [float(v) for v in a])
    kw = {}
    if c["init"] is not None:
        kw["initial_window_X"] = X0.copy() if c["initkind"] == "arr" else [r.copy() for r in X0]
    with RngState(c["rng"]).active():
        if c["kwform"]:
            return HalfSpaceTrees(feature_mins=b(lo), feature_maxes=b(hi), window_size=c["W"], num_trees=c["T"], max_depth=c["h"], **kw)
        return HalfSpaceTrees(b(lo), b(hi), c["W"], c["T"], c["h"], **kw)


def drive(c, judge):
    """feeds the stream; judge(score, query, number fitted, all rows)"""
    lo, hi, n0, Z, Q = setup(c)
    m = build(c, lo, hi, Z[:n0])
    asks = c["asks"]
    judge(num(m.score_partial(Q[0].copy()), "half-space trees score"), Q[0], n0, Z)
    for i in range(n0, len(Z)):
        if c["fs"] and asks[i % len(asks)] == 1:
            judge(num(m.fit_score_partial(Z[i].copy()), "half-space trees score"), Z[i], i + 1, Z)
            continue
        m.fit_partial(Z[i].copy())
        for j in range(asks[i % len(asks)] if i < len(Z) - 1 else 3):
            q = (Q[j], Z[i], Z[(i * 5 + j) % len(Z)])[j % 3]
            judge(num(m.score_partial(q.copy()), "half-space trees score"), q, i + 1, Z)
    return lo, hi, Z


def label(c, rec):
    rec.nt(c["n"] + (c["init"] or 0) > c["W"] and c["h"] > 0)
    rec.label("window switched", c["n"] + (c["init"] or 0) >= c["W"])
    rec.label("initial window", bool(c["init"]))


# ------------------------------------------------------------ one feature: the tree is unique
def s_one():
    return st.fixed_dictionaries(dict(s_base(1, 1, 10, gen.up(1, 5, 40)), h=st.one_of(*[st.integers(0, 10)] * 11, st.integers(11, 14))))


def path_score(q, R, lo, hi, h):
    s, mask = 0, np.ones(len(R), dtype=bool)
    for k in range(h + 1):
        s += 2 ** k * int(mask.sum())
        if k == h:
            return s
        p = (hi + lo) / 2.0
        if q > p:
            mask &= R > p
            lo = p
        else:
            mask &= R <= p
            hi = p


def r_one(c, rec):
    if c["h"] > 10:                       # building a tree costs 2^depth
        c = dict(c, T=min(c["T"], 2))
    lo, hi = setup(c)[:2]

    def judge(got, q, n, Z):
        R = Z[list(ref_rows(n, c["W"])), 0] if n else np.zeros(0)
        e = -c["T"] * path_score(q[0], R, lo[0], hi[0], c["h"])
        require(close(got, e, 1e-9 * abs(e)), lambda: f"one feature, W={c['W']}, depth {c['h']}, {c['T']} trees: score of {q.tolist()} after {n} instances is {got!r}, expected {e!r} (reference window {R.tolist()[:60]}, range {lo[0]}..{hi[0]})")

    drive(c, judge)
    label(c, rec)


def s_large():
    return st.fixed_dictionaries(dict(s_base(1, 1, 3, st.integers(1, 2)), W=st.integers(60, 600), n=st.integers(150, 1300), asks=st.lists(st.sampled_from([0] * 19 + [1, 3]), min_size=30, max_size=60)))


# ------------------------------------------------------------ one tree, several features: some tree must explain all scores
def s_multi():
    return st.fixed_dictionaries(s_base(2, 3, 4, st.just(1)))


def explain(obs, lo, hi, k, h):
    """obs: list of (query, reference rows in this cell, residual); is there a subtree giving these residuals?"""
    obs = [(q, R, r - 2 ** k * len(R)) for q, R, r in obs]
    if any(r < 0 for _, _, r in obs):
        return False
    if k == h:
        return all(r == 0 for _, _, r in obs)
    if not obs:
        return True
    for f in range(len(lo)):
        p = (hi[f] + lo[f]) / 2.0
        left = [(q, R[R[:, f] <= p], r) for q, R, r in obs if q[f] <= p]
        right = [(q, R[R[:, f] > p], r) for q, R, r in obs if q[f] > p]
        hi2, lo2 = hi.copy(), lo.copy()
        hi2[f], lo2[f] = p, p
        if explain(left, lo, hi2, k + 1, h) and explain(right, lo2, hi, k + 1, h):
            return True
    return False


def r_multi(c, rec):
    obs = []

    def judge(got, q, n, Z):
        r = -got
        require(r == round(r), lambda: f"one tree: score {got!r} is not a whole number")
        obs.append((q.copy(), Z[list(ref_rows(n, c["W"]))], int(round(r)), n))

    lo, hi, Z = drive(c, judge)
    if not explain([o[:3] for o in obs], lo, hi, 0, c["h"]):
        k = 1
        while explain([o[:3] for o in obs[:k]], lo, hi, 0, c["h"]):
            k += 1
        q, R, r, n = obs[k - 1]
        require(False, f"one tree, {c['d']} features, W={c['W']}, depth {c['h']}: no half-space tree over the ranges {lo.tolist()}..{hi.tolist()} gives the observed scores; the first {k} of them suffice, the last being {-r} for {q.tolist()} after {n} instances with the reference window {R.tolist()}")
    label(c, rec)


# ------------------------------------------------------------ forests: per-query bounds
def s_forest():
    return st.fixed_dictionaries(dict(s_base(2, 4, 5, gen.up(2, 6, 40)), d=gen.up(2, 4, 30)))


def extremes(q, R, lo, hi, k, h):
    own = 2 ** k * len(R)
    if k == h:
        return own, own
    if len(R) == 0:
        return 0, 0
    mn, mx = None, None
    for f in range(len(lo)):
        p = (hi[f] + lo[f]) / 2.0
        hi2, lo2 = hi, lo
        if q[f] > p:
            lo2 = lo.copy()
            lo2[f] = p
            R2 = R[R[:, f] > p]
        else:
            hi2 = hi.copy()
            hi2[f] = p
            R2 = R[R[:, f] <= p]
        a, b = extremes(q, R2, lo2, hi2, k + 1, h)
        mn = a if mn is None else min(mn, a)
        mx = b if mx is None else max(mx, b)
    return own + mn, own + mx


def r_forest(c, rec):
    if c["d"] > 4:
        c = dict(c, h=min(c["h"], 2 if c["d"] > 10 else 3))
    lo, hi = setup(c)[:2]

    def judge(got, q, n, Z):
        R = Z[list(ref_rows(n, c["W"]))]
        a, b = extremes(q, R, lo, hi, 0, c["h"])
        require(-c["T"] * b - 1e-6 <= got <= -c["T"] * a + 1e-6, lambda: f"{c['T']} trees, {c['d']} features, W={c['W']}, depth {c['h']}: score {got!r} of {q.tolist()} after {n} instances is outside [{-c['T'] * b}, {-c['T'] * a}], what such trees can give with the reference window {R.tolist()}")
        rec.label("score determined", a == b)

    drive(c, judge)
    label(c, rec)


# ------------------------------------------------------------ order inside windows and forgetting
def s_meta():
    return gen.fd(d=gen.up(1, 4, 60), W=gen.up(1, 10, 80), h=st.integers(1, 8), T=gen.up(1, 6, 20), blocks=gen.up(1, 4, 9), tail=st.integers(0, 9), seed=gen.SEED, rng=gen.SEED,
                  kind=gen.S(["grid", "few", "uni"]), how=gen.S(["permute", "forget", "tail"]), split=st.integers(0, 40))


def r_meta(c, rec):
    rs = np.random.RandomState(c["seed"])
    d, W = c["d"], c["W"]
    lo, hi = np.zeros(d), np.ones(d) * 2
    n = c["blocks"] * W + min(c["tail"], W - 1)
    X = stream(rs, n, d, lo, hi, c["kind"])
    Y = X.copy()
    if c["how"] == "permute":
        for b in range(0, n, W):
            Y[b:b + W] = Y[b:b + W][rs.permutation(len(Y[b:b + W]))]
    elif c["how"] == "forget":
        Y[:(c["blocks"] - 1) * W] = stream(rs, (c["blocks"] - 1) * W, d, lo, hi, "uni")
    else:
        Y[c["blocks"] * W:] = stream(rs, n - c["blocks"] * W, d, lo, hi, "uni")
    Q = stream(rs, 6, d, lo, hi, "grid")
    out = []
    for Z, cut in ((X, None), (Y, min(c["split"], n))):
        with RngState(c["rng"]).active():
            m = HalfSpaceTrees(lo.copy(), hi.copy(), W, c["T"], c["h"], initial_window_X=None if cut is None else Z[:cut].copy())
            for r in Z[cut or 0:]:
                m.fit_partial(r.copy())
            out.append([num(m.score_partial(q.copy()), "half-space trees score") for q in Q])
    require(out[0] == out[1], lambda: f"half-space trees W={W}: streams that differ only in {dict(permute='the order inside windows', forget='windows before the last completed one', tail='the incomplete window')[c['how']]} give scores {out[0]} and {out[1]}")
    rec.nt(c["blocks"] > 1 and not np.array_equal(X, Y))
    rec.label(c["how"])


PROP = Prop("C18", "streams with exact midpoint hits, duplicates and out-of-range points, queries at arbitrary times; non-trivial: more instances than the window and depth at least 1",
            [Sub("one_feature", s_one, r_one, quick=2800, thorough=56000, shards=4),
             Sub("large windows", s_large, r_one, quick=160, thorough=3200, shards=2),
             Sub("one_tree", s_multi, r_multi, quick=2400, thorough=48000, shards=3),
             Sub("forest", s_forest, r_forest, quick=1500, thorough=30000, shards=3),
             Sub("order", s_meta, r_meta, quick=1800, thorough=36000, shards=2)],
            ["which feature a node splits is not prescribed: one-tree scores must be explained by some tree, forest scores lie within what such trees can give"])
