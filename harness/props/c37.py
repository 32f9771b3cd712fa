import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, RngState, Sub, must_raise, num, require, same, same_arr, vec
from pysad.models import NullModel, PerfectModel, RandomModel

LABEL = st.one_of(st.integers(0, 1), st.integers(-5, 5), gen.decimal, st.floats(-1e6, 1e6, allow_nan=False))
OPS = ["fit", "score", "fs", "bfit", "bscore", "bfs", "nolabel"]


def s_perfect():
    return gen.fd(ops=st.lists(st.tuples(gen.S(OPS), st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(6, 60), st.integers(200, 600))), min_size=1, max_size=25), labels=st.lists(LABEL, min_size=1, max_size=12), d=st.integers(1, 4), seed=gen.SEED, aslist=gen.B)


def r_perfect(c, rec):
    m = PerfectModel()
    rs = np.random.RandomState(c["seed"])
    queue, used, count, rejected = [], 0, 0, 0

    def lab(k):
        nonlocal used
        out = [c["labels"][(used + i) % len(c["labels"])] for i in range(k)]
        used += k
        return out

    def xs(k):
        return rs.randn(k, c["d"])

    for op, k in c["ops"]:
        if op == "fit":
            y = lab(1)
            require(m.fit_partial(xs(1)[0], y[0]) is m, "fit_partial does not return the perfect model")
            queue += y
        elif op == "bfit":
            y = lab(k)
            m.fit(xs(k), list(y) if c["aslist"] else np.array(y, dtype=float))
            queue += y
        elif op == "score" and queue:
            got = num(m.score_partial(xs(1)[0]), "score of the perfect model")
            e = queue.pop(0)
            require(same(got, float(e)), lambda: f"perfect model: score {got!r}, the next label is {e!r}")
            count += 1
        elif op == "bscore":
            k = min(k, len(queue))
            got = vec(m.score(xs(k)), k, "score of the perfect model")
            e, queue = queue[:k], queue[k:]
            require(same_arr(got, np.array(e, dtype=float)), lambda: f"perfect model: scores {got.tolist()}, the next labels are {e}")
            count += k
        elif op == "fs":
            queue += lab(1)
            got = num(m.fit_score_partial(xs(1)[0], queue[-1]), "score of the perfect model")
            e = queue.pop(0)
            require(same(got, float(e)), lambda: f"perfect model: fit_score_partial gives {got!r}, the next label is {e!r}")
            count += 1
        elif op == "bfs":
            y = lab(k)
            queue += y
            got = vec(m.fit_score(xs(k), list(y) if c["aslist"] else np.array(y, dtype=float)), k, "fit_score of the perfect model")
            e, queue = queue[:k], queue[k:]
            require(same_arr(got, np.array(e, dtype=float)), lambda: f"perfect model: fit_score gives {got.tolist()}, the next labels are {e}")
            count += k
        elif op == "nolabel":
            must_raise(ValueError, lambda: m.fit_partial(xs(1)[0], None), "perfect model fitted with y=None")
            rejected += 1
    while queue:
        got = num(m.score_partial(xs(1)[0]), "score of the perfect model")
        e = queue.pop(0)
        require(same(got, float(e)), lambda: f"perfect model: score {got!r}, the next label is {e!r}")
        count += 1
    rec.nt(count > 2)
    rec.label("rejected a missing label", rejected > 0)


def s_base():
    return gen.fd(kind=gen.S(["null", "random"]), x=gen.data(gen.up(1, 40, 300, 1500), gen.up(1, 4, 40)), path=gen.S(["fs", "fit_score", "score", "nofit"]), lab=gen.S([None, "bin", "bin", "ones", "zeros", "float"]), rng=gen.SEED)


def r_base(c, rec):
    X = gen.make(c["x"])
    n = len(X)
    y = gen.labels(c["rng"], n, c["lab"] or "bin")

    def run(X, y):
        g = RngState(c["rng"])
        with g.active():
            m = NullModel() if c["kind"] == "null" else RandomModel()
            if c["path"] == "fs":
                return np.array([num(m.fit_score_partial(x.copy(), *((yy,) if c["lab"] else ()))) for x, yy in zip(X, y)])
            if c["path"] == "fit_score":
                return vec(m.fit_score(X.copy(), y) if c["lab"] else m.fit_score(X.copy()), n)
            if c["path"] == "score":
                require(m.fit(X.copy()) is m, "fit does not return the model")
            return vec(m.score(X.copy()), n)

    a = run(X, y)
    if c["kind"] == "null":
        require(bool(np.all(a == 0.5)), lambda: f"null model scores {a.tolist()}")
    else:
        require(bool(np.all((a >= 0) & (a < 1))), lambda: f"random model scores {a.tolist()}")
        require(len(set(a.tolist())) == n, lambda: f"random model repeats scores: {a.tolist()}")
    b = run(X * -3.0 + 7.0, 1 - y)
    require(same_arr(a, b), lambda: f"{c['kind']} model: scores depend on the features: {a.tolist()} and {b.tolist()}")
    rec.nt(n > 1)
    rec.label(c["kind"])


def s_uniform():
    return gen.fd(rng=gen.SEED, n=st.just(4000))


def r_uniform(c, rec):
    g = RngState(c["rng"])
    with g.active():
        a = RandomModel().score(np.zeros((c["n"], 2)))
    k = np.histogram(a, bins=10, range=(0, 1))[0]
    # each count is binomial(4000, 0.1): standard deviation 19; 8 standard deviations have probability below 1e-14
    require(k.sum() == c["n"] and np.abs(k - c["n"] / 10).max() < 8 * 19, lambda: f"random model: counts per tenth of [0, 1) are {k.tolist()} of {c['n']} draws")
    rec.nt()


PROP = Prop("C37", "call sequences against a label queue; streams for the null and random models; non-trivial: several scores",
            [Sub("perfect", s_perfect, r_perfect, quick=9000, thorough=180000, shards=3),
             Sub("null and random", s_base, r_base, quick=2400, thorough=48000),
             Sub("uniformity", s_uniform, r_uniform, quick=120, thorough=2400)],
            ["uniformity of the random model: tolerance of 8 standard deviations per tenth"])
