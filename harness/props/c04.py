import math

import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from core import Prop, Sub, close, num, require
from props.c03 import CLS
from pysad.core.base_statistic import UnivariateStatistic
from pysad.statistics import RunningStatistic
from pysad.utils import Window
from pysad.utils.window import UnlimitedWindow


class PowerSum(UnivariateStatistic):
    """A user-defined, parameterised statistic: offset + sum of |x|^power, exact for small integers."""

    def __init__(self, power=1, offset=0):
        self.power, self.offset, self.total = power, offset, 0

    def update(self, num):
        self.total += int(num) ** self.power
        return self

    def remove(self, num):
        self.total -= int(num) ** self.power
        return self

    def get(self):
        return self.total + self.offset


class Fifo(UnivariateStatistic):
    """A user-defined statistic that needs the removed value to be the oldest one."""

    def __init__(self):
        self.vals = []

    def update(self, num):
        self.vals.append(num)
        return self

    def remove(self, num):
        i = self.vals.index(num)
        del self.vals[i]
        return self

    def get(self):
        return math.fsum((i + 1) * v for i, v in enumerate(self.vals))


item = st.one_of(st.integers(-5, 5), gen.decimal, st.text(max_size=2), st.none(),
                 st.lists(st.integers(0, 3), max_size=2))


def s_window():
    return gen.fd(w=st.one_of(st.integers(1, 8), st.integers(1, 60), gen.SIZES.map(lambda n: n + 1)), unlimited=gen.S([False, False, False, True]),
                  items=st.lists(item, max_size=40), reads=st.lists(gen.B, max_size=40), extra=gen.SIZES, arr=gen.S([False, False, True]))


def r_window(c, rec):
    w = UnlimitedWindow() if c["unlimited"] else Window(c["w"])
    items = list(c["items"]) + [i % 7 for i in range(c["extra"])]
    if c["arr"]:                          # instances: the items are arrays (compared by identity and content)
        items = [np.array([float(i % 5), 1.0]) for i in range(len(items))]
    plain = (lambda l: [(id(a), a.tolist()) for a in l]) if c["arr"] else list
    seen = []
    require(list(w.get()) == [], "a new window is not empty")
    for i, it in enumerate(items):
        w.update(it)
        seen.append(it)
        if (c["reads"][i] if i < len(c["reads"]) else i < 300 or i % 997 == 0):
            got = w.get()
            exp = seen if c["unlimited"] else seen[-c["w"]:]
            require(plain(got) == plain(exp), lambda: f"window of size {c['w']} after {len(seen)} items: {list(got)[:12]}... expected {exp[:12]}...")
            require(len(got) == len(exp), "wrong length")
    exp = seen if c["unlimited"] else seen[-c["w"]:]
    require(plain(w.get()) == plain(exp), lambda: f"window of size {c['w']} at the end: {list(w.get())[:12]}... expected {exp[:12]}...")
    rec.nt(len(items) > c["w"])
    rec.label("unlimited", c["unlimited"])
    rec.label("overflowed", len(items) > c["w"] and not c["unlimited"])


def s_run():
    return gen.fd(w=st.one_of(*[st.integers(1, 6)] * 5, *[st.integers(1, 40)] * 5, st.integers(41, 300)), stat=gen.S(sorted(CLS) + ["power", "fifo"]),
                  vals=gen.values(1, 30), reads=st.lists(gen.B, max_size=30),
                  power=st.integers(1, 3), offset=st.integers(-3, 3),
                  tail=gen.fd(kind=gen.S(["ints", "decimals", "normal", "const", "big"]), seed=gen.SEED, n=gen.up(0, 120, 900), d=st.just(1)), sparse=gen.S([1, 1, 1, 7, 50, 10 ** 6]))


def r_run(c, rec):
    W, stat = c["w"], c["stat"]
    vals = [float(v) for v in c["vals"]] + [float(v) for v in gen.make(c["tail"])[:, 0]]
    if stat == "power":
        rs = RunningStatistic(PowerSum, W, power=c["power"], offset=c["offset"])
        vals = [float(int(max(min(v, 50), -50))) for v in vals]
    elif stat == "fifo":
        rs = RunningStatistic(Fifo, W)
    else:
        rs = RunningStatistic(CLS[stat], W)
    seen, h = [], oracle.Hist()
    for i, v in enumerate(vals):
        rs.update(v)
        seen.append(v)
        h.add(v)
        h.add(v)
        if not ((i >= len(c["reads"]) and i % max(c["sparse"], len(vals) // 100) == 0) or (i < len(c["reads"]) and c["reads"][i]) or i == len(vals) - 1):
            continue
        last = seen[-W:]
        for again in range(2):
            got = num(rs.get(), "running " + stat)
            if stat == "power":
                exp, t = sum(int(x) ** c["power"] for x in last) + c["offset"], 0.0
            elif stat == "fifo":
                exp, t = math.fsum((j + 1) * x for j, x in enumerate(last)), 0.0
                t = 1e-9 * (1 + abs(exp))
            else:
                exp, t = oracle.STATS[stat](last), oracle.tol(stat, h, len(last))
            require(close(got, exp, t), lambda: f"running {stat} with window {W} after {len(seen)} values: got {got!r}, expected {exp!r} over {last[:20]}")
    rec.nt(len(vals) > W)
    rec.label(stat)
    rec.label("evicting", len(vals) > W)


PROP = Prop("C04", "item sequences (hypothesis lists plus seeded tails), window sizes 1..300 (plain windows to 10^4); non-trivial: more items than the window holds",
            [Sub("window", s_window, r_window, quick=9000, thorough=180000, shards=2),
             Sub("running", s_run, r_run, quick=18000, thorough=360000, shards=6)],
            ["the wrapped statistic itself is decided by C03"])
