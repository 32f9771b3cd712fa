import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, mat, must_raise, require, vec
from pysad.transform.preprocessing import SeasonalTrendDecomposer


class Ref:
    def __init__(self, season, trend):
        self.S, self.T = season, trend
        self.x = []
        self.det = {}

    def _trend(self):
        return np.mean(self.x[-self.T:], axis=0) if self.x else 0.0

    def fit(self, x):
        ph = len(self.x) % self.S
        self.x.append(np.array(x, dtype=float))
        if len(self.x) >= self.T:
            self.det.setdefault(ph, []).append(self.x[-1] - self._trend())
        return ph

    def seasonal(self, ph):
        return np.mean(self.det[ph], axis=0) if ph in self.det else 0.0

    def fit_transform(self, x):
        ph = self.fit(x)
        return np.asarray(x) - self._trend() - self.seasonal(ph)

    def transform(self, x):
        return np.asarray(x) - self._trend() - self.seasonal(len(self.x) % self.S)


def s():
    return gen.fd(season=gen.up(1, 7, 40), trend=st.one_of(st.none(), gen.up(1, 9, 60)), d=gen.up(1, 3, 20), seed=gen.SEED, n=gen.up(1, 60, 400, 1200),
                  dkind=gen.S(["normal", "ints", "decimals", "walk", "season", "const", "big"]),
                  ops=st.lists(gen.S(["f", "ft", "ft", "t", "F", "FT", "T"]), min_size=1, max_size=25), chunk=st.integers(1, 4))


def run(c, rec):
    T = c["season"] if c["trend"] is None else c["trend"]
    m = SeasonalTrendDecomposer(c["season"]) if c["trend"] is None else SeasonalTrendDecomposer(season_length=c["season"], trend_window=c["trend"])
    r = Ref(c["season"], T)
    X = gen.make(dict(kind=c["dkind"], seed=c["seed"], n=c["n"], d=c["d"]))
    scale = np.abs(X).max() + 1e-300
    what = f"decomposer season={c['season']} trend={T}"
    i, k, judged = 0, 0, 0

    def judge(got, e, op):
        nonlocal judged
        got = vec(got, c["d"], what)
        require(np.all(np.abs(got - e) <= 1e-9 * scale), lambda: f"{what}, {op} after {len(r.x)} fitted: got {got.tolist()}, expected {np.asarray(e).tolist()}")
        judged += 1

    while i < c["n"]:
        op = c["ops"][k % len(c["ops"])] if k < len(c["ops"]) else ["ft", "f", "t"][k % 3] if k % 3 != 2 else "ft"
        k += 1
        if op == "f":
            m.fit_partial(X[i].copy())
            r.fit(X[i])
            i += 1
        elif op == "ft":
            judge(m.fit_transform_partial(X[i].copy()), r.fit_transform(X[i]), op)
            i += 1
        elif op == "t":
            for _ in range(2):
                judge(m.transform_partial(X[i].copy()), r.transform(X[i]), op)
            if k > 3000:
                break
        else:
            chunk = X[i:i + c["chunk"]].copy()
            if op == "F":
                m.fit(chunk)
                for x in chunk:
                    r.fit(x)
                i += len(chunk)
            elif op == "FT":
                got = mat(m.fit_transform(chunk), len(chunk), c["d"], what)
                for g, x in zip(got, chunk):
                    judge(g, r.fit_transform(x), op)
                i += len(chunk)
            else:
                got = mat(m.transform(chunk), len(chunk), c["d"], what)
                for g, x in zip(got, chunk):
                    judge(g, r.transform(x), op)
        if k > 4000:
            break
    judge(m.transform_partial(X[0].copy()), r.transform(X[0]), "t")
    rec.nt(judged >= 3 and len(r.x) > T + c["season"])
    rec.label("trend default", c["trend"] is None)
    rec.label("season wrapped", len(r.x) > T + c["season"])


PROP = Prop("C14", "histories of fit / transform / fit_transform, single and batched, on 1..20 features; non-trivial: the season wrapped after the trend window filled and at least three outputs judged",
            [Sub("model", s, run, quick=16000, thorough=320000, shards=8)], ["means computed with numpy; tolerance 1e-9 of the data magnitude"])
