import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import gen
from core import Prop, Sub, num, require
from pysad.models import RelativeEntropy


def s_re():
    return gen.fd(N=gen.up(2, 10, 40), W=gen.up(1, 60, 200), n=gen.up(1, 160, 600), seed=gen.SEED, lo=gen.S([0.0, -4.0, 2.0]), step=gen.S([1.0, 0.5, 0.25]),
                  kind=gen.S(["shift", "drift", "same", "edges", "point"]), asks=st.lists(st.integers(0, 2), min_size=1, max_size=4), fs=gen.B, default=gen.B)


def r_re(c, rec):
    rs = np.random.RandomState(c["seed"])
    N, W, n = c["N"], c["W"], c["n"]
    kw = dict(num_bins=N, window_size=W)
    if c["default"]:
        N, W, kw = 5, 52, {}
    # positions in units of a bin width: exact edges (integers) and interior points, never in between
    k = c["kind"]
    t = np.arange(n) / max(n - 1, 1)
    if k == "edges":
        pos = rs.randint(0, N + 1, size=n).astype(float)
    elif k == "point":
        pos = np.full(n, rs.randint(0, N) + 0.5)
        pos[n * 2 // 3:] = rs.randint(0, N) + 0.5
    else:
        a, b = rs.dirichlet(np.ones(N)), rs.dirichlet(np.ones(N))
        w = {"shift": (t > 0.5) * 1.0, "drift": t, "same": 0 * t}[k]
        pos = np.array([rs.choice(N, p=(1 - x) * a + x * b) for x in w]) + rs.choice([0.25, 0.5, 0.75, 1.0, 0.0], size=n)
    vals = c["lo"] + pos * c["step"]
    m = RelativeEntropy(c["lo"], c["lo"] + N * c["step"], **kw)
    bins = np.minimum(np.ceil(pos).astype(int), N - 1)
    crit = stats.chi2.ppf(0.99, N - 1)
    outcomes = set()

    def judge(got, i):
        got = num(got, "relative entropy score")
        what = f"relative entropy model, {N} bins, W={W}, after {i} values"
        if i < W:
            require(got == 0, lambda: f"{what}: score {got!r} before the window is full")
            return
        P, Q = np.bincount(bins[i - W:i], minlength=N) / W, np.bincount(bins[:W], minlength=N) / W
        h = 0.0
        for a, b in zip(P, Q):
            if a > 0:
                h += math.inf if b == 0 else a * math.log(a / b)
        stat = 2 * W * h
        if abs(stat - crit) < 1e-9 * crit:
            rec.label("too close to call")
            require(got in (0.0, -1.0), lambda: f"{what}: score {got!r}")
            return
        e = 0.0 if stat < crit else -1.0
        outcomes.add(e)
        require(got == e, lambda: f"{what}: score {got!r}, expected {e!r}: 2W times the relative entropy of the last window {P.tolist()} to the first {Q.tolist()} is {stat!r}, critical value {crit!r}; bins of the stream {bins.tolist()[:200]}")

    for i in range(n):
        a = c["asks"][i % len(c["asks"])]
        v = np.array([vals[i]])
        if c["fs"] and a == 1:
            judge(m.fit_score_partial(v), i + 1)
            continue
        m.fit_partial(v)
        for j in range(a if i < n - 1 else 1):
            judge(m.score_partial(np.array([vals[(i + j) % n]])), i + 1)
    rec.nt(n > W > 1)
    rec.label("both outcomes", len(outcomes) == 2)
    rec.label("disagreement seen", -1.0 in outcomes)


PROP = Prop("C25", "streams whose distribution stays, shifts or drifts, with values on bin edges; non-trivial: longer than the window",
            [Sub("reference", s_re, r_re, quick=2000, thorough=40000, shards=4)],
            ["values lie in the given range, exactly on a bin edge or clearly inside a bin", "test statistics within 1e-9 of the critical value may go either way"])
