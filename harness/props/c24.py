import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, num, require
from pysad.models import KNNCAD

DIM, K = 19, 27


class Ref:
    """kNN-CAD on whole arrays; every nonconformity carries a bound on its round-off"""

    def __init__(self, p, whole=False):
        self.p, self.vals, self.train, self.cal, self.scores = p, [], [], [], []
        self.sigma, self.err, self.version = np.eye(DIM), 0.0 if whole else 1e-13, 0
        self.pred = 0
        self.own = None

    def ncm(self, item, extra):
        D = np.array(self.train) - item
        dist = np.einsum("ij,jk,ik->i", D, self.sigma, D)
        mag = np.einsum("ij,jk,ik->i", np.abs(D), np.abs(self.sigma), np.abs(D))
        o = np.argsort(dist)[:K + extra]
        return float(dist[o].sum()), float(self.err * (mag.max() * (K + 1)) + 1e-300) if self.err else 0.0

    def fit(self, v):
        self.vals.append(v)
        n, p = len(self.vals), self.p
        if n < DIM:
            return
        item = np.array(self.vals[-DIM:])
        if n < p:
            self.train.append(item)
            return
        if n % p in (0, p // 2):
            A = np.array(self.train)
            G = A.T @ A
            cond = np.linalg.cond(G)
            if not A.any():
                pass                            # singular for certain: the covariance stays as it is
            elif np.isfinite(cond) and cond < 1e9:
                self.sigma, self.err = np.linalg.inv(G), cond * 1e-14 + 1e-12
            else:
                self.err = np.inf               # whether this counts as singular depends on round-off
            self.version += 1
        if not self.scores:
            self.scores = [self.ncm(t, 1) for t in self.train]
        new = self.ncm(item, 0)
        if n >= 2 * p:
            self.train.pop(0)
            self.train.append(self.cal.pop(0))
            self.version += 1
            self.own = None
        else:
            self.own = True                      # the newest retained score is that of the item itself
        self.scores.pop(0)
        self.cal.append(item)
        self.scores.append(new)

    def interval(self):
        """lowest and highest possible share of retained scores below that of the latest lag vector"""
        n, p = len(self.vals), self.p
        if n < p:
            return 0.0, 0.0
        v, e = self.ncm(np.array(self.vals[-DIM:]), 0)
        lo = hi = 0
        for i, (s, t) in enumerate(self.scores):
            if self.own and i == len(self.scores) - 1:
                continue                         # equal to itself: not strictly smaller
            if not np.isfinite(e + t):
                hi += 1
                continue
            lo += s + t < v - e
            hi += s - t < v + e
        return lo / len(self.scores), hi / len(self.scores)


def s_knn():
    return gen.fd(p=gen.up(48, 75, 130), n=st.one_of(*[st.integers(0, 259).map(lambda k: 260 - k)] * 10, st.integers(261, 450)), scale=gen.S([1.0, 1.0, 1.0, 100.0, 0.01]), seed=gen.SEED, kind=gen.S(["normal", "normal", "uniform", "ar", "spiky", "season", "offset", "const", "ints", "late", "late"]),
                  asks=st.lists(gen.S([0, 1, 1, 1, 2]), min_size=1, max_size=6), fs=gen.B)


def make(c):
    rs = np.random.RandomState(c["seed"])
    n, k = c["n"], c["kind"]
    if k == "normal":
        return rs.randn(n)
    if k == "uniform":
        return rs.rand(n)
    if k == "ar":
        x = rs.randn(n)
        for i in range(1, n):
            x[i] += 0.6 * x[i - 1]
        return x
    if k == "spiky":
        x = rs.randn(n)
        x[rs.rand(n) < 0.04] += 15
        return x
    if k == "season":
        return np.sin(np.arange(n) / 3.0) + 0.5 * rs.randn(n)
    if k == "offset":
        return rs.randn(n) + 2.0
    if k == "late":                       # nothing but zeros until long after the probation: the covariance stays the identity and whole values compare exactly
        x = rs.choice([0.0, 0.0, 0.0, 1.0, 1.0, 2.0, -1.0, 7.0], size=n) if rs.rand() < 0.5 else np.resize(rs.randint(0, 3, size=rs.randint(1, 5)), n).astype(float)
        x[:c["p"] + rs.randint(0, c["p"] // 2)] = 0.0
        return x
    if k == "ints":
        return rs.randint(0, 4, size=n).astype(float)
    return np.full(n, 1.5)


def r_knn(c, rec):
    x = make(c) * c["scale"]
    p, n = c["p"], c["n"]
    m, ref = KNNCAD(probationary_period=p), Ref(p, whole=bool(np.all(x == np.rint(x))))
    what = f"kNN-CAD, probation {p}"
    alarms = 0

    def judge(got, i):
        nonlocal alarms
        got = num(got, what)
        if ref.pred > 0:
            ref.pred -= 1
            require(got == 0.5, lambda: f"{what}: score {got!r} after {i} values, expected 0.5 (suppressed after an alarm)")
            return
        lo, hi = ref.interval()
        require(lo - 1e-12 <= got <= hi + 1e-12, lambda: f"{what}: score {got!r} after {i} values, expected {lo!r}" + (f" to {hi!r}" if hi > lo else "") + f"; stream {c['kind']} seed {c['seed']}")
        if got >= 0.9965:
            ref.pred = p // 5
            alarms += 1
        if i >= p:
            rec.label("score determined", lo == hi)
            rec.label("score not determined", lo != hi)

    for i in range(n):
        a = c["asks"][i % len(c["asks"])]
        ref.fit(float(x[i]))
        if c["fs"] and a == 1:
            judge(m.fit_score_partial(x[i:i + 1].copy()), i + 1)
            continue
        m.fit_partial(x[i:i + 1].copy())
        for _ in range(a):
            judge(m.score_partial(x[i:i + 1].copy()), i + 1)
    rec.nt(n > p + 5 and c["kind"] != "const")
    rec.label("past twice the probation period", n > 2 * p)
    rec.label("alarm raised", alarms > 0)


PROP = Prop("C24", "univariate streams (noise, autoregressive, seasonal, spikes, integer ties, constants) up to several probation periods; non-trivial: past the probation period with a non-constant stream",
            [Sub("reference", s_knn, r_knn, quick=960, thorough=19200, shards=8)],
            ["probation period >= 48 (fewer training vectors than neighbours otherwise)",
             "nonconformities closer than their round-off bound may compare either way; steps with an ill-conditioned covariance are judged by what both outcomes allow"])
