import numpy as np
from hypothesis import strategies as st
from scipy.stats import t as student
from statsmodels.tsa.seasonal import STL

import gen
from core import Prop, Sub, close, num, require, vec
from pysad.models import SeasonalESD, SeasonalHybridESD
from pysad.transform.preprocessing import ModifiedSTLResidualTransformer


def residuals(x, period, robust, kw):
    x = np.asarray(x, dtype=float)
    return x - STL(x, period=period, robust=robust, **kw).fit().seasonal - np.median(x)


def series(c):
    rs = np.random.RandomState(c["seed"])
    n, p = c["n"], c["period"]
    t = np.arange(n)
    if c["dkind"] == "season":
        x = 3 * np.sin(2 * np.pi * t / p) + 0.02 * t + 0.4 * rs.randn(n)
    elif c["dkind"] == "pattern":
        x = rs.randn(p)[t % p] * 2 + 0.1 * rs.randn(n)
    elif c["dkind"] == "normal":
        x = rs.randn(n) * 10.0 ** rs.randint(-3, 4)
    elif c["dkind"] == "walk":
        x = np.cumsum(rs.randn(n))
    elif c["dkind"] == "coarse":          # few values, the spread changing half way
        x = np.round(rs.randint(0, 2, size=n) * np.where(t < n // 2, 1.0, rs.choice([1.0, 5.0])))
    elif c["dkind"] == "const":
        x = np.full(n, 2.0)
    else:
        x = rs.randint(-3, 4, size=n).astype(float)
    for _ in range(c["spikes"]):
        x[rs.randint(n)] += rs.choice([-1, 1]) * (5 + 10 * rs.rand())
    for _ in range(c["spikes"]):     # spikes late in the stream, where windows are full
        x[n - 1 - rs.randint(max(1, n // 4))] += rs.choice([-1, 1]) * (5 + 10 * rs.rand())
    return x


def config(extra):
    return gen.fd(period=gen.up(2, 6, 24), wextra=gen.up(0, 12, 60), robust=gen.B, deg=gen.S([{}, {}, {"seasonal": 9}, {"seasonal_deg": 0}, {"trend": 15}]),
                  n=gen.up(10, 45, 160), dkind=gen.S(["season", "pattern", "normal", "walk", "ints", "coarse", "const"]), spikes=st.integers(0, 3), seed=gen.SEED, **extra)


def s_stl():
    return config(dict(ops=st.lists(gen.S(["f", "ft", "t"]), min_size=1, max_size=12)))


def r_stl(c, rec):
    p, W = c["period"], 2 * c["period"] + c["wextra"]
    kw = dict(c["deg"])
    if "trend" in kw:                    # must be odd and longer than the period
        kw["trend"] = max(15, p + 1 + p % 2)
    x = series(c)
    m = ModifiedSTLResidualTransformer(p, W, robust=c["robust"], **kw)
    sc = np.abs(x).max() + 1e-300
    what = f"STL residual period={p} window={W} robust={c['robust']} {kw}"
    live, judged = [], 0

    def judge(got, win, op):
        nonlocal judged
        got = num(got, what)
        if len(win) < 2 * p:
            e = 0.0
        else:
            e = residuals(win, p, c["robust"], kw)[-1]
            judged += 1
        require(close(got, e, 1e-8 * sc), lambda: f"{what}, {op} with {len(live)} values fitted: got {got!r}, expected {e!r}")

    for i, v in enumerate(x):
        op = c["ops"][i % len(c["ops"])]
        if op == "t":
            judge(m.transform_partial(np.array([v])), (live + [v])[-W:], op)
            judge(m.transform_partial(np.array([x[0]])), (live + [x[0]])[-W:], op)
        live.append(v)
        if op == "ft":
            judge(m.fit_transform_partial(np.array([v])), live[-W:], op)
        else:
            m.fit_partial(np.array([v]))
    if len(x) >= 2 * p:
        m2 = ModifiedSTLResidualTransformer(p, robust=c["robust"], **kw)
        for arr in (x, x.reshape(-1, 1)):
            got = vec(m2.transform_window(arr), len(x), what)
            e = residuals(x, p, c["robust"], kw)
            require(np.all(np.abs(got - e) <= 1e-8 * sc), lambda: f"{what}: transform_window differs from value - seasonal - median")
    rec.nt(judged >= 3 and len(x) > W)
    rec.label("evicting", len(x) > W)


def esd(res, k_max, alpha, hybrid):
    """(value, decided): statistic of the newest value if selected, else 0; decided False near ties"""
    n = len(res)
    rem = list(enumerate(res))
    cand, ok = [], True
    scale0 = np.max(np.abs(res)) + 1e-300
    for i in range(1, k_max + 1):
        v = np.array([r for _, r in rem])
        if hybrid:
            ctr = np.median(v)
            sc = 1.4826 * np.median(np.abs(v - ctr))
        else:
            ctr, sc = v.mean(), v.std(ddof=1)
        if abs(sc - 1e-10) <= 1e-11 + 1e-9 * scale0:
            return 0.0, False
        if sc <= 1e-10:
            break
        dev = np.abs(v - ctr) / sc
        j = int(np.argmax(dev))
        others = np.delete(dev, j)
        if len(others) and dev[j] - others.max() <= 1e-7 * (1 + dev[j]):
            ok = False
        p = 1.0 - alpha / (2.0 * (n - i + 1))
        tv = student.ppf(p, n - i - 1)
        crit = (n - i) * tv / np.sqrt((n - i - 1 + tv ** 2) * (n - i + 1))
        if abs(dev[j] - crit) <= 1e-7 * (1 + crit):
            ok = False
        cand.append((rem[j][0], dev[j], crit))
        del rem[j]
    last = max([i + 1 for i, (_, s_, cr) in enumerate(cand) if s_ > cr], default=0)
    for idx, s_, _ in cand[:last]:
        if idx == n - 1:
            return float(s_), ok
    return 0.0, ok


def s_esd():
    return config(dict(ops=st.lists(gen.S(["f", "fs", "fs", "s", "q"]), min_size=1, max_size=12), hybrid=gen.B, kmax=gen.up(1, 6, 30), alpha=st.one_of(gen.S([0.05, 0.05, 0.01, 0.2, 0.5]), st.integers(1, 999).map(lambda k: k / 1000.0))))


def r_esd(c, rec):
    p, W = c["period"], 2 * c["period"] + c["wextra"]
    k = max(1, min(c["kmax"], int(W * 0.49)))
    kw = dict(c["deg"])
    if "trend" in kw:                    # must be odd and longer than the period
        kw["trend"] = max(15, p + 1 + p % 2)
    x = series(c)
    cls = SeasonalHybridESD if c["hybrid"] else SeasonalESD
    m = cls(p, W, k, alpha=c["alpha"], robust=c["robust"], **kw)
    what = f"{'hybrid ' if c['hybrid'] else ''}seasonal ESD period={p} window={W} max={k} alpha={c['alpha']}"
    live, judged, hits = [], 0, 0

    def judge(got, win, op):
        nonlocal judged, hits
        got = num(got, what)
        if len(win) < W:
            e, ok = 0.0, True
        else:
            e, ok = esd(residuals(win, p, c["robust"], kw), k, c["alpha"], c["hybrid"])
            judged += 1
        if ok:
            require(close(got, e, 1e-6 * (1 + abs(e))), lambda: f"{what}, {op} with {len(live)} fitted: got {got!r}, expected {e!r}")
            hits += e > 0

    far = float(np.round(x.max() + 1 + 2 * np.ptp(x)))
    for i, v in enumerate(x):
        op = c["ops"][i % len(c["ops"])]
        if op == "q":                     # the same query again and again
            judge(m.score_partial(np.array([far])), (live + [far])[-W:], op)
        if op == "s":
            judge(m.score_partial(np.array([v])), (live + [v])[-W:], op)
            judge(m.score_partial(np.array([v + 20 * (1 + abs(v))])), (live + [v + 20 * (1 + abs(v))])[-W:], op)
        live.append(v)
        if op == "fs":
            judge(m.fit_score_partial(np.array([v])), live[-W:], op)
        else:
            m.fit_partial(np.array([v]))
    rec.nt(judged >= 3)
    rec.label("newest value flagged", hits > 0)
    rec.label("hybrid", c["hybrid"])


PROP = Prop("C15", "univariate series with season, spikes, random walks, constants; any mixture of calls; non-trivial: at least three full-window outputs",
            [Sub("stl", s_stl, r_stl, quick=1440, thorough=28800, shards=4),
             Sub("esd", s_esd, r_esd, quick=1920, thorough=38400, shards=4)],
            ["the STL decomposition is taken from statsmodels on both sides; windows where the test is within 1e-7 of a tie are not judged"])
