import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, require, same_arr

COMPS = [c for c in zoo.ALL if c.pure]
LAZY = {"GaussianRandomProjector", "SparseRandomProjector"}     # they draw their matrix on first use, which must be the same use in both runs


def s_reads():
    read = gen.fd(at=st.integers(0, 160), k=st.integers(1, 3), what=gen.S(["next", "past", "future", "shift", "far", "zero"]))
    return zoo.pick(COMPS, reads=st.lists(read, min_size=1, max_size=8), every=gen.B, how=gen.S(["ask", "ask", "ask", "feed_ask"]), step=gen.S([1, 2, 3, 7, 20, 1000, 1000]), batch=gen.B)


def r_reads(c, rec):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    what = f"{comp.name} {c['cfg']}"
    n = len(X)
    reads = {}
    for r in c["reads"]:
        reads.setdefault(r["at"] % (n + 1), []).append(r)

    def query(r, i):
        k = r["what"]
        x = X[min(i, n - 1)] if k == "next" else X[(i * 7 + 1) % max(1, min(i + 1, n))] if k == "past" else X[n - 1] if k == "future" else X[min(i, n - 1)] + 0.5 if k == "shift" else X[0] * 0 + 1e4 if k == "far" else X[0] * 0
        return np.array(x, dtype=float)

    def run(extra):
        g, g2 = RngState(c["rng"]), RngState(c["rng"] ^ 0x5555)
        with g.active():
            o = zoo.build(c, X)
        out, count = [], 0

        def more(i):
            nonlocal count
            if not extra or i < max(comp.warm, comp.name in LAZY):
                return
            for r in (reads.get(i, []) if not c["every"] else c["reads"][:2]):
                for _ in range(r["k"]):
                    q = query(r, i)
                    with g2.active():
                        if c["batch"] and comp.group == "model":
                            o.score(np.stack([q, q]))
                        elif c["batch"] and comp.group == "transformer":
                            o.transform(np.stack([q, q]))
                        elif c["batch"] and comp.group == "score":
                            o.transform(np.array([q[0], q[0]]))
                        else:
                            comp.ask(o, q)
                    count += 1

        for i in range(n):
            more(i)
            with g.active():
                if c["how"] == "feed_ask" and i + 1 >= comp.warm:
                    out.append((i, comp.feed_ask(o, X[i].copy())))
                else:
                    comp.feed(o, X[i].copy())
                    if comp.name in LAZY and i == 0:
                        comp.ask(o, X[i].copy())
                    if i + 1 >= comp.warm and ((i + 1) % c["step"] == 0 or i == n - 1):
                        out.append((i, comp.ask(o, X[i].copy())))
        more(n)
        with g.active():
            if n >= comp.warm:
                for q in (X[n // 2], X[0]):
                    out.append((n, comp.ask(o, q.copy())))
        return out, count

    plain, _ = run(False)
    with_reads, count = run(True)
    for (i, a), (_, b) in zip(plain, with_reads):
        require(same_arr(a, b), lambda: f"{what}: after {i + 1} instances the result is {a.tolist()} without extra reads but {b.tolist()} with them")
    rec.nt(count > 0 and len(plain) > 1)
    rec.label(comp.name)


PROP = Prop("C29", "one history with and without extra score/transform/get calls; non-trivial: at least one extra read and two compared results",
            [Sub("extra reads", s_reads, r_reads, quick=3200, thorough=64000, shards=8)],
            ["extra reads draw from a generator of their own, so the remaining calls see the same random draws"])
