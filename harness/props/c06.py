from fractions import Fraction

from hypothesis import strategies as st

import gen
from core import Prop, Sub, close, num, require
from props import c05
from pysad.core import BaseMetric
from pysad.evaluation import WindowedMetric


class PosMetric(BaseMetric):
    """User-defined, parameterised and order-sensitive metric on small integers (exact)."""

    def __init__(self, scale=1, shift=0):
        self.scale, self.shift, self.n, self.acc = scale, shift, 0, 0

    def update(self, y_true, y_pred):
        self.n += 1
        self.acc += self.n * (3 * int(y_true) + int(y_pred))

    def get(self):
        return self.scale * self.acc + self.shift


def s():
    return gen.fd(w=st.one_of(*[st.integers(1, 5)] * 5, *[st.integers(1, 25)] * 5, st.integers(26, 150)), ignore=gen.B, pos=gen.B, explicit=gen.B,
                  metric=gen.S(["pos", "pos", "precision", "recall", "auroc", "aupr"]),
                  scale=st.integers(-3, 3), shift=st.integers(-5, 5), use_kw=gen.B,
                  pairs=st.lists(st.tuples(st.integers(0, 1), st.integers(0, 4), gen.B).map(list), min_size=1, max_size=40),
                  bulk=gen.fd(seed=gen.SEED, n=gen.up(0, 80, 600)))


def run(c, rec):
    import numpy as np
    W, name = c["w"], c["metric"]
    pairs = [list(p) for p in c["pairs"]]
    rs = np.random.RandomState(c["bulk"]["seed"])
    for _ in range(c["bulk"]["n"]):
        pairs.append([int(rs.randint(2)), int(rs.randint(5)), bool(rs.rand() < min(0.15, 10.0 / c["bulk"]["n"]))])
    if name == "auroc":
        W = max(W, 2)
        for i, p in enumerate(pairs):    # both classes in every block, also in a partial one
            p[0] = [0, 1, p[0]][min(i % W, 2)]
    if name == "aupr":
        for i, p in enumerate(pairs):
            if i % W == 0:
                p[0] = 1
    if name in ("precision", "recall"):
        for p in pairs:
            p[1] = p[1] % 2
    kw = dict(scale=c["scale"], shift=c["shift"]) if name == "pos" and c["use_kw"] else {}
    cls = PosMetric if name == "pos" else c05.CLS[name]
    if c["ignore"] and not c["explicit"]:
        m = WindowedMetric(cls, W, **kw)
    elif c["pos"]:
        m = WindowedMetric(cls, W, c["ignore"], **kw)
    else:
        m = WindowedMetric(metric_cls=cls, window_size=W, ignore_nonempty_last=c["ignore"], **kw)

    def one(block):
        if name == "pos":
            k = PosMetric(**kw)
            for y, p, _ in block:
                k.update(y, p)
            return k.get()
        return c05.ref(name, [b[0] for b in block], [b[1] for b in block])

    seen, reads = [], 0

    def check():
        full = len(seen) // W
        blocks = [seen[i * W:(i + 1) * W] for i in range(full)]
        rest = seen[full * W:]
        vals = [one(b) for b in blocks]
        if full == 0:
            vals = [one(rest)]
        elif rest and not c["ignore"]:
            vals.append(one(rest))
        if any(v is None for v in vals):
            return
        exp = float(sum((Fraction(v) for v in vals), Fraction(0)) / len(vals))
        for _ in range(2):
            got = num(m.get(), "windowed metric")
            require(close(got, exp, 1e-9 * (1 + abs(exp))), lambda: f"windowed {name} W={W} ignore_last={c['ignore']} kwargs={kw} after {len(seen)} updates: got {got!r}, expected {exp!r} (block values {vals[:8]})")

    for i, (y, p, read) in enumerate(pairs):
        if name == "auroc" and read and (i % W) == 0:
            read = False                 # a partial block of one instance has one class
        m.update(y, p)
        seen.append([y, p, read])
        if read:
            check()
            reads += 1
    if not (name == "auroc" and len(seen) % W == 1):
        check()
    rec.nt(len(seen) > W)
    rec.label("partial block", len(seen) % W != 0 and len(seen) > W)
    rec.label("exact multiple", len(seen) % W == 0)
    rec.label("kwargs", bool(kw))


PROP = Prop("C06", "update sequences with window sizes 1..150, flag and kwargs; non-trivial: at least one complete block and one more update",
            [Sub("blocks", s, run, quick=9000, thorough=180000, shards=8)],
            ["for the area under ROC every block is generated with both classes (otherwise the wrapped metric is undefined)"])
