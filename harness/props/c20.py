import itertools
import math

import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, RngState, Sub, num, require
from murmur import streamhash_matrix
from pysad.models import xStream


def project(X, k):
    return X @ streamhash_matrix(k, X.shape[1], 1 / 3.0).T


def block(n, W):
    """(first, end, number) of the reference block after n instances"""
    if n < W:
        return 0, n, 0
    b = n // W - 1
    return b * W, (b + 1) * W, b


def width(P, b, W):
    """cell widths used while block b was counted"""
    if b == 0:
        return np.full(P.shape[1], 0.5)
    R = P[(b - 1) * W:b * W]
    w = (R.max(axis=0) - R.min(axis=0)) / 2.0
    w[np.abs(w) <= 0.0001] = 1.0
    return w


def drive(c, X, Q, judge):
    with RngState(c["rng"]).active():
        m = xStream(num_components=c["k"], n_chains=c["chains"], depth=c["depth"], window_size=c["W"])
        judge(num(m.score_partial(Q[0].copy()), "xStream score"), Q[0], 0)
        for i in range(len(X)):
            a = c["asks"][i % len(c["asks"])]
            if c["fs"] and a == 1:
                judge(num(m.fit_score_partial(X[i].copy()), "xStream score"), X[i], i + 1)
                continue
            m.fit_partial(X[i].copy())
            for j in range(a if i < len(X) - 1 else 3):
                q = (X[i], Q[j % len(Q)], X[(5 * i + j) % len(X)])[j % 3]
                judge(num(m.score_partial(q.copy()), "xStream score"), q, i + 1)


# --------------------------------------------------- closed form / bounds
def s_code():
    return gen.fd(d=gen.up(1, 14, 60), k=gen.up(1, 5, 40), chains=gen.up(1, 4, 30), depth=gen.up(1, 6, 30), W=gen.up(1, 8, 60), n=gen.up(1, 36, 150), rng=gen.SEED, seed=gen.SEED,
                  points=st.integers(1, 4), mode=gen.S(["grow", "grow", "const", "const", "mixed", "any"]), big=gen.S([1.0, 1.0, 1.0, 1e5, 1e10]), asks=st.lists(st.integers(0, 3), min_size=1, max_size=5), fs=gen.B)


def code_stream(c, rs):
    """streams whose distinct values are mostly more than a cell apart in every component"""
    d, n, W = c["d"], c["n"], c["W"]
    if c["mode"] == "any":
        return rs.randn(n, d), rs.randn(4, d)
    base = (1 + rs.rand(d)) * c.get("big", 1.0)
    rows = []
    for b in range(-(-n // W)):
        if c["mode"] == "grow":
            step = 20.0 ** (b % 6 + 1)
        elif c["mode"] == "same":
            step = 50.0
        elif c["mode"] == "const":
            step = 50.0 if b % 2 else 0.0       # every other window constant: the next one has unit cells
        else:
            step = rs.choice([0.0, 1.0, 30.0])
        off = rs.randint(c["points"])
        for _ in range(W):
            rows.append(base * step * (1 + rs.randint(c["points"])) if step else base * off)
    X = np.array(rows[:n])
    Q = np.stack([base * 0, base * 1e5, X[rs.randint(n)], -base * 3000.0])
    return X, Q


def r_code(c, rec):
    if c["W"] < 100:
        c = dict(c, n=max(8, min(c["n"], 6000 // (c["chains"] * c["depth"]))))     # keeps the largest combinations affordable
    rs = np.random.RandomState(c["seed"])
    X, Q = code_stream(c, rs)
    P = project(X, c["k"])
    W = c["W"]

    def judge(got, q, n):
        a, e, b = block(n, W)
        p = project(q.reshape(1, -1), c["k"])[0]
        D = np.abs(P[a:e] - p)
        eq = int(np.sum(np.all(X[a:e] == q, axis=1))) if e > a else 0
        w = width(P, b, W)
        near = int(np.sum(np.any(D < 1.000001 * w + 1e-11 * (np.abs(p) + np.abs(P[a:e])), axis=1))) if e > a else 0
        lo, hi = -(math.log2(1 + near) + 1), -(math.log2(1 + eq) + 1)
        require(lo - 1e-9 <= got <= hi + 1e-9, lambda: f"xStream W={W}, depth {c['depth']}, {c['chains']} chains, {c['k']} components: score {got!r} of {q.tolist()} after {n} instances, expected within [{lo!r}, {hi!r}]: the reference window (instances {a}..{e - 1}, cell widths {w.tolist()}) has {eq} equal and {near} possibly colliding instances")
        rec.label("score determined", near == eq and e > a)
        rec.label("later window, determined", near == eq and eq > 0 and b > 0)
        if near == eq and b > 0:
            rec.nt()

    drive(c, X, Q, judge)


def s_heavy():
    """windows with hundreds of equal instances"""
    return gen.fd(d=st.integers(1, 3), k=st.integers(1, 2), chains=st.integers(1, 2), depth=st.integers(1, 2), W=st.one_of(st.integers(100, 400), gen.S([600, 1100])), n=st.integers(200, 1500), rng=gen.SEED, seed=gen.SEED,
                  points=st.integers(1, 2), mode=gen.S(["grow", "const", "same", "same"]), asks=st.just([0] * 40 + [1]), fs=gen.B)


# --------------------------------------------------- one chain: some shift and feature sequence must explain all scores
def s_chain():
    return gen.fd(d=st.integers(1, 4), k=gen.S([1, 1, 2]), chains=st.just(1), depth=st.integers(1, 4), W=st.integers(1, 5), n=st.integers(1, 14), rng=gen.SEED, seed=gen.SEED,
                  kind=gen.S(["normal", "ints", "wide"]), asks=st.lists(st.integers(0, 2), min_size=1, max_size=4), fs=gen.B)


def r_chain(c, rec):
    rs = np.random.RandomState(c["seed"])
    n, d, W, k, depth = c["n"], c["d"], c["W"], c["k"], c["depth"]
    X = {"near": lambda: np.ones((n, d)) * (1.0 + rs.choice([0, 0, 0, c.get("apart", 0)], size=(n, 1)) * 0.5 / 2 ** depth), "normal": lambda: rs.randn(n, d), "ints": lambda: rs.randint(-2, 3, size=(n, d)) * 0.7, "wide": lambda: rs.randn(n, d) * 10 ** rs.uniform(-1, 1, size=(n, 1))}[c["kind"]]()
    Q = rs.randn(3, d)
    if c["kind"] == "near":
        Q = 1.0 + rs.choice([1, 2, 3, 4, 6], size=(3, 1)) * np.ones((3, d)) * 0.5 / 2 ** depth
        if not np.abs(project(X[:1], k)).max() > 0.1:
            return
    P = project(X, k)
    obs = []
    drive(c, X, Q, lambda got, q, i: obs.append((got, project(q.reshape(1, -1), k)[0], i)))
    O, R = len(obs), max(W, 1)
    ref, mask, w, pq = np.zeros((O, R, k)), np.zeros((O, R), bool), np.ones((O, k)), np.zeros((O, k))
    for o, (got, p, i) in enumerate(obs):
        a, e, b = block(i, W)
        ref[o, :e - a], mask[o, :e - a], w[o], pq[o] = P[a:e], True, width(P, b, W), p
    got = np.array([o[0] for o in obs])
    E = []
    for f in range(k):
        brk = [0.0, 1.0]
        for lev in range(depth):
            brk += list((-(2.0 ** lev) * pq[:, f] / w[:, f]) % 1.0)
            brk += list(((-(2.0 ** lev) * ref[:, :, f] / w[:, None, f]) % 1.0)[mask])
        brk = np.unique(brk)
        cand = (brk[1:] + brk[:-1]) / 2
        e = np.empty((len(cand), depth, O, R), bool)
        for lev in range(depth):
            a = np.floor((2.0 ** lev) * pq[:, f] / w[:, f] + cand[:, None])
            b = np.floor((2.0 ** lev) * ref[:, :, f] / w[:, None, f] + cand[:, None, None])
            e[:, lev] = (a[:, :, None] == b) & mask
        # equal behaviour of two shifts is one candidate
        _, keep = np.unique(np.packbits(e.reshape(len(cand), -1), axis=1), axis=0, return_index=True)
        E.append(e[keep])
    best = None

    def possible(seq):
        """does some pair of shifts explain all scores with this feature sequence?"""
        shape = [len(e) for e in E]
        low = np.full(shape + [O], np.inf)
        cnt = [0] * k
        for lev, f in enumerate(seq):
            cnt[f] += 1
            used = [g for g in range(k) if cnt[g]]
            if len(used) == 1:
                g = used[0]
                c_ = E[g][:, cnt[g] - 1].sum(axis=-1)
                c_ = c_.reshape([len(E[g]) if h == g else 1 for h in range(k)] + [O])
            else:
                c_ = np.einsum("aor,bor->abo", E[0][:, cnt[0] - 1].astype(np.int16), E[1][:, cnt[1] - 1].astype(np.int16))
            low = np.minimum(low, np.log2(1.0 + c_) + lev + 1)
        return bool(np.any(np.all(np.abs(low + got) < 1e-9, axis=-1)))

    ok = any(possible(seq) for seq in itertools.product(range(k), repeat=depth))
    require(ok, lambda: f"one xStream chain, W={W}, depth {depth}, {k} components: no cell shift and feature order explains the scores {[(o[0], o[2]) for o in obs]} (score, instances fitted before) of the stream {X.tolist()}, queries (projected) {pq.tolist()}")
    rec.nt(n >= 2 * W and depth > 1)
    rec.label("window switched", n >= W)
    rec.label("score beyond first level", bool(np.any(got < -2)))


# --------------------------------------------------- many near-equal instances: only the deepest levels tell them apart
def s_deep():
    return gen.fd(d=st.integers(1, 3), k=st.just(1), chains=st.just(1), depth=st.integers(3, 9), W=st.integers(0, 150), n=st.integers(0, 20), rng=gen.SEED, seed=gen.SEED,
                  kind=st.just("near"), apart=st.integers(1, 4), fs=gen.B)


def r_deep(c, rec):
    W = int(1.5 * 2 ** (c["depth"] - 1)) + 10 + c["W"]
    n = W + c["n"]
    asks = [0] * n
    for i in [W - 1, W // 2, *range(W, n, 5)]:
        asks[i] = 3
    r_chain(dict(c, W=W, n=n, asks=asks), rec)


# --------------------------------------------------- order inside windows and forgetting
def s_meta():
    return gen.fd(d=gen.up(1, 4, 40), W=gen.up(1, 8, 50), k=gen.up(1, 4, 30), chains=gen.up(1, 5, 30), depth=gen.up(1, 6, 30), blocks=st.integers(1, 5), tail=gen.up(0, 7, 45),
                  seed=gen.SEED, rng=gen.SEED, kind=gen.S(["normal", "ints", "uniform"]), how=gen.S(["permute", "forget", "tail"]))


def r_meta(c, rec):
    rs = np.random.RandomState(c["seed"])
    d, W, bl = c["d"], c["W"], c["blocks"]
    n = bl * W + min(c["tail"], W - 1)
    X = gen.make(dict(kind=c["kind"], seed=c["seed"], n=n, d=d))
    Y = X.copy()
    if c["how"] == "permute":
        for b in range(0, n, W):
            Y[b:b + W] = Y[b:b + W][rs.permutation(len(Y[b:b + W]))]
    elif c["how"] == "forget":                  # all before the block that sets the cell widths of the last completed one
        Y[:max(0, bl - 2) * W] = rs.randn(max(0, bl - 2) * W, d) * 3
    else:
        Y[bl * W:] = rs.randn(n - bl * W, d) * 3
    Q = np.concatenate([rs.randn(3, d), X[rs.randint(n, size=3)]])
    out = []
    for Z in (X, Y):
        with RngState(c["rng"]).active():
            m = xStream(c["k"], c["chains"], c["depth"], W)
            for r in Z:
                m.fit_partial(r.copy())
            out.append([num(m.score_partial(q.copy()), "xStream score") for q in Q])
    require(np.allclose(out[0], out[1], rtol=0, atol=1e-9), lambda: f"xStream W={W}: streams that differ only in {dict(permute='the order inside windows', forget='windows before the last two completed ones', tail='the incomplete window')[c['how']]} give scores {out[0]} and {out[1]}")
    rec.nt(bl > 1 and not np.array_equal(X, Y))
    rec.label(c["how"])


PROP = Prop("C20", "streams over codebooks (closed form or bounds), single chains on small arbitrary streams (all shifts and feature orders searched), order/forgetting relations; "
            "non-trivial: score determined in a window after the first / at least two windows",
            [Sub("codebook", s_code, r_code, quick=3000, thorough=60000, shards=5),
             Sub("heavy cells", s_heavy, r_code, quick=360, thorough=7200),
             Sub("one_chain", s_chain, r_chain, quick=2400, thorough=48000, shards=3),
             Sub("deep levels", s_deep, r_deep, quick=240, thorough=4800, shards=2),
             Sub("order", s_meta, r_meta, quick=1500, thorough=30000, shards=2)],
            ["the first window's cells are 0.5 wide; later ones half the range of the previous window (1 where that is at most 0.0001)",
             "random shifts and feature orders are not observed: single-chain scores must be explained by some of them"])
