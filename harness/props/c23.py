import math

import numpy as np
from hypothesis import strategies as st
from scipy.cluster.hierarchy import linkage

import gen
from core import Prop, Sub, close, num, require
from pysad.models import KitNet


class AE:
    """online autoencoder with tied weights on min-max scaled inputs"""

    def __init__(self, n, ratio, lr):
        self.h = math.ceil(n * ratio)
        self.lr, self.seen = lr, 0
        self.lo, self.hi = np.full(n, np.inf), np.full(n, -np.inf)
        self.W = np.random.RandomState(1234).uniform(low=-1.0 / n, high=1.0 / n, size=(n, self.h))
        self.bh, self.bv = np.zeros(self.h), np.zeros(n)

    @staticmethod
    def sig(x):
        return 1.0 / (1.0 + np.exp(-x))

    def scale(self, x):
        return (x - self.lo) / (self.hi - self.lo + 1e-16)

    def train(self, x):
        self.seen += 1
        self.lo, self.hi = np.minimum(self.lo, x), np.maximum(self.hi, x)
        x = self.scale(x)
        y = self.sig(x @ self.W + self.bh)
        z = self.sig(self.W @ y + self.bv)
        ev = x - z
        eh = (ev @ self.W) * y * (1 - y)
        self.W = self.W + self.lr * (np.outer(x, eh) + np.outer(ev, y))
        if self.h:
            self.bh = self.bh + self.lr * eh.mean()
        self.bv = self.bv + self.lr * ev.mean()
        return math.sqrt(float((ev ** 2).mean()))

    def execute(self, x):
        if not self.seen:
            return 0.0
        x = self.scale(x)
        z = self.sig(self.W @ self.sig(x @ self.W + self.bh) + self.bv)
        return math.sqrt(float(((x - z) ** 2).mean()))


def groups(X, size):
    """correlation clusters of the columns, of at most the given size; and whether the clustering is unambiguous"""
    n = X.shape[1]
    if n == 1:
        return [[0]], True
    means = np.cumsum(X, axis=0) / np.arange(1, len(X) + 1)[:, None]
    R = X - means
    C = R.T @ R
    s = np.sqrt((R ** 2).sum(axis=0))
    S = np.outer(s, s)
    S[S == 0] = 1e-100
    D = np.maximum(1 - C / S, 0)
    v = D[np.triu_indices(n, 1)]
    u = np.sort(v)
    gap = np.diff(u)
    clear = bool(np.all((gap > 1e-9) | ((u[1:] == 1.0) & (u[:-1] == 1.0)))) if n > 2 else True
    if np.any(u == 1.0) and np.any((s > 0) & (s < 1e-12 * (1 + np.abs(X).max()))):
        clear = False                            # round-off residue of a constant column
    Z = linkage(v)
    size = min(max(size, 1), n)
    members = {i: [i] for i in range(n)}
    kids = {}
    for i, (a, b) in enumerate(Z[:, :2].astype(int)):
        members[n + i] = members[a] + members[b]
        kids[n + i] = (a, b)

    def cut(k):
        if len(members[k]) <= size:
            return [members[k]]
        return cut(kids[k][0]) + cut(kids[k][1])

    return cut(2 * n - 2), clear


class Ref:
    def __init__(self, size, fm, ad, lr, ratio):
        self.fm, self.ad, self.size, self.lr, self.ratio = (ad if fm is None else fm), ad, size, lr, ratio
        self.rows, self.map, self.clear, self.n = [], None, True, 0

    def fit(self, x):
        if self.n <= self.fm:
            self.rows.append(x)
            if self.n == self.fm:
                self.map, self.clear = groups(np.array(self.rows), self.size)
                self.ae = [AE(len(g), self.ratio, self.lr) for g in self.map]
                self.out = AE(len(self.map), self.ratio, self.lr)
        elif self.n <= self.fm + self.ad:
            self.out.train(np.array([a.train(x[g]) for a, g in zip(self.ae, self.map)]))
        self.n += 1

    def score(self, x):
        if self.map is None:
            return 0.0
        return self.out.execute(np.array([a.execute(x[g]) for a, g in zip(self.ae, self.map)]))


KINDS = ["normal", "uniform", "walk", "mixture", "outlier", "const", "two", "big", "tiny", "ints", "corr", "corr", "steps", "ramp", "neg"]


def s_kit():
    return gen.fd(x=gen.data(gen.up(1, 90, 300), gen.up(1, 9, 30), KINDS), size=gen.up(0, 10, 25), fm=st.one_of(st.none(), gen.up(0, 30, 100)), ad=gen.up(0, 40, 150),
                  lr=gen.S([0.1, 0.01, 0.5]), ratio=gen.S([0.75, 0.5, 1.0, 0.3]), asks=st.lists(st.integers(0, 2), min_size=1, max_size=5), fs=gen.B, defaults=gen.B)


def make(c):
    r = c["x"]
    if r["kind"] == "corr":
        rs = np.random.RandomState(r["seed"])
        n, d = r["n"], r["d"]
        base = rs.randn(n, 3)
        return base[:, rs.randint(3, size=d)] * rs.choice([-1, 1, 2], size=d) + 0.3 * rs.randn(n, d)
    return gen.make(r)


def r_kit(c, rec):
    X = make(c)
    kw = dict(max_size_ae=c["size"], grace_feature_mapping=c["fm"], grace_anomaly_detector=c["ad"])
    lr, ratio = 0.1, 0.75
    if not c["defaults"]:
        lr, ratio = c["lr"], c["ratio"]
        kw.update(learning_rate=lr, hidden_ratio=ratio)
    m, ref = KitNet(**kw), Ref(c["size"], c["fm"], c["ad"], lr, ratio)
    rs = np.random.RandomState(c["x"]["seed"] ^ 0x5a5a)
    what = f"KitNet (group size {c['size']}, grace periods {c['fm']}/{c['ad']}, lr {lr}, hidden ratio {ratio}, {X.shape[1]} features)"

    def judge(got, q, n):
        got = num(got, what)
        e = ref.score(q)
        require(got >= 0, lambda: f"{what}: score {got!r} after {n} instances")
        if e == 0.0 and (ref.map is None or n <= ref.fm + 1 or ref.ad == 0):
            require(got == 0, lambda: f"{what}: score {got!r} after {n} instances, expected 0 (nothing trained yet)")
        elif ref.clear and np.isfinite(e):
            require(close(got, e, 1e-6 * e + 1e-9), lambda: f"{what}: score {got!r} after {n} instances, the reference gives {e!r} (groups {ref.map})")
            rec.label("score compared with the reference")

    for i in range(len(X)):
        a = c["asks"][i % len(c["asks"])]
        ref.fit(X[i])
        if c["fs"] and a == 1:
            judge(m.fit_score_partial(X[i].copy()), X[i], i + 1)
            continue
        m.fit_partial(X[i].copy())
        for j in range(a if i < len(X) - 1 else 3):
            q = X[i] if j == 0 else X[rs.randint(len(X))] * (1 if j == 1 else 1.3)
            judge(m.score_partial(q.copy()), q, i + 1)
    rec.nt(ref.map is not None and len(X) > ref.fm + 3 and ref.ad > 2 and X.shape[1] > 1)
    rec.label("frozen phase reached", len(X) > ref.fm + ref.ad + 1)
    rec.label("several groups", ref.map is not None and len(ref.map) > 1)
    rec.label("ambiguous clustering, not compared", not ref.clear)


PROP = Prop("C23", "streams of 1 to 30 features past the grace periods, scores of fitted and foreign instances in every phase; non-trivial: several features and a trained ensemble",
            [Sub("reference", s_kit, r_kit, quick=4000, thorough=80000, shards=6)],
            ["scores after a clustering whose merge order depends on round-off (tied correlations) are only checked for range and the zero phase",
             "initial weights are numpy's RandomState(1234) uniform draws, as in the published implementation"])
