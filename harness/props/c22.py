import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, RngState, Sub, close, num, require
from pysad.models import RobustRandomCutForest

KINDS = ["normal", "ints", "two", "const", "uniform", "walk", "mixture", "decimals"]


# ------------------------------------------------ one tree: exactly the last T instances in one random cut tree
def s_one():
    return gen.fd(x=gen.data(gen.up(1, 50, 150, 400), gen.up(1, 4, 20), KINDS), T=gen.up(1, 14, 60, 300), rng=gen.SEED, asks=st.lists(st.integers(0, 3), min_size=1, max_size=5), fs=gen.B, sh=gen.S([None, 1, 7]))


def r_one(c, rec):
    from rrcf import rrcf
    X = gen.make(c["x"])
    T = c["T"]
    ref_rng, sut_rng = RngState(c["rng"]), RngState(c["rng"])
    with sut_rng.active():
        m = RobustRandomCutForest(num_trees=1, tree_size=T, **({} if c["sh"] is None else dict(shingle_size=c["sh"])))
    tree = rrcf.RCTree()

    def ref_fit(i):
        with ref_rng.active():
            if i >= T:
                tree.forget_point(i - T)
            tree.insert_point(X[i].copy(), index=i)

    def ref_score(q):
        with ref_rng.active():
            leaf = tree.find_duplicate(q)
            if leaf is not None:
                return float(tree.codisp(leaf))
            tree.insert_point(q.copy(), index="q")
            s = float(tree.codisp("q"))
            tree.forget_point("q")
            return s

    def judge(got, q, i):
        e = ref_score(q)
        got = num(got, "random cut forest score")
        require(close(got, e, 1e-9 * (1 + e)), lambda: f"one random cut tree of size {T}, after {i + 1} instances: score of {q.tolist()} is {got!r}; a random cut tree over exactly the last {min(i + 1, T)} instances with the same random draws gives {e!r}")

    for i in range(len(X)):
        a = c["asks"][i % len(c["asks"])]
        ref_fit(i)
        if c["fs"] and a == 1:
            with sut_rng.active():
                got = m.fit_score_partial(X[i].copy())
            judge(got, X[i], i)
            continue
        with sut_rng.active():
            m.fit_partial(X[i].copy())
        for j in range(a if i < len(X) - 1 else 3):
            q = (X[i], X[i] + 0.37, X[(i * 3) % len(X)])[j % 3]
            with sut_rng.active():
                got = m.score_partial(q.copy())
            judge(got, q, i)
    rec.nt(len(X) > T > 1)
    rec.label("tree size 1", T == 1)


# ------------------------------------------------ forests: far instances count the instances held
def s_far():
    return gen.fd(x=gen.data(gen.up(1, 50, 150), gen.up(1, 4, 20), ["normal", "uniform", "ints", "two", "walk"]), T=gen.up(1, 20, 100), trees=gen.up(1, 6, 20), rng=gen.SEED,
                  old=st.integers(0, 6), step=st.integers(1, 5))


def r_far(c, rec):
    X = gen.make(c["x"])
    T, d = c["T"], X.shape[1]
    far = np.full(d, 1e11)
    # instances from the far region come first: once they are forgotten the region is foreign again
    Z = np.concatenate([np.tile(far, (c["old"], 1)), X])
    with RngState(c["rng"]).active():
        m = RobustRandomCutForest(num_trees=c["trees"], tree_size=T)
        for i in range(len(Z)):
            m.fit_partial(Z[i].copy())
            if i < c["old"] or (i % c["step"] and i < len(Z) - 1):
                continue
            N = min(i + 1, T)
            gone = i + 1 - T >= c["old"]
            for q in (far, far * 1.5, -far) if gone else ():
                g = num(m.score_partial(q.copy()), "random cut forest score")
                require(close(g, float(N), 1e-9 * N), lambda: f"random cut forest, {c['trees']} trees of size {T}: after {i + 1} instances (the first {c['old']} at 1e11) an instance far from all of the last {N} scores {g!r}, expected {N}")
            rec.label("far region forgotten", gone and c["old"] > 0)
    rec.nt(len(Z) > T)


# ------------------------------------------------ bounds on any stream, constant streams
def s_any():
    return gen.fd(x=gen.data(gen.up(1, 60, 150), gen.up(1, 4, 20), KINDS), T=gen.up(1, 20, 100), trees=gen.up(1, 4, 20), rng=gen.SEED, step=st.integers(1, 7))


def r_any(c, rec):
    X = gen.make(c["x"])
    T = c["T"]
    const = not (X - X[0]).any()
    with RngState(c["rng"]).active():
        m = RobustRandomCutForest(num_trees=c["trees"], tree_size=T)
        for i in range(len(X)):
            m.fit_partial(X[i].copy())
            if i % c["step"] and i < len(X) - 1:
                continue
            live = X[max(0, i + 1 - T):i + 1]
            N = len(live)
            for q in (X[i], X[0], X[i // 2], X[i] + 0.37):
                cnt = int(np.sum(np.all(live == q, axis=1)))
                lo, hi = (0.0 if cnt == N else 1.0 / max(cnt, 1)), float(N)
                if const:
                    lo, hi = (0.0, 0.0) if cnt else (N, N)
                g = num(m.score_partial(q.copy()), "random cut forest score")
                require(lo - 1e-9 <= g <= hi + 1e-9, lambda: f"random cut forest, {c['trees']} trees of size {T}, after {i + 1} instances: an instance occurring {cnt} times among the last {N} scores {g!r}, outside [{lo}, {hi}]")
    rec.nt(len(X) > T)
    rec.label("constant", const)


PROP = Prop("C22", "one-tree forests against a random cut tree driven with exactly the last T instances and the same draws; far and forgotten instances, constant streams and bounds for forests; non-trivial: more instances than the tree size",
            [Sub("one_tree", s_one, r_one, quick=900, thorough=18000, shards=3),
             Sub("far", s_far, r_far, quick=600, thorough=12000, shards=3),
             Sub("bounds", s_any, r_any, quick=450, thorough=9000, shards=2)],
            ["the random cut tree itself is the rrcf library's; its duplicate lookup misses some equal instances, so equal instances are not assumed to be found"])
