import copy
import io
import pickle

import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, require, same_arr

# the trees of the rrcf library hold a reference to a module and cannot be copied by any means; the jitted functions of
# the INQMAD model can be deep-copied but not pickled
COMPS = [c for c in zoo.ALL if c.name != "RobustRandomCutForest"]
NO_PICKLE = {"Inqmad"}


def s_often():
    return zoo.pick(COMPS + [zoo.BY["KNNCAD"]] * 6, how=gen.S(["deepcopy", "pickle"]), start=st.integers(0, 100), every=st.integers(1, 4), ahead=st.integers(1, 3))


def s_copy():
    return zoo.pick(COMPS, how=gen.S(["deepcopy", "pickle", "pickle"]), at=st.integers(0, 100), again=st.integers(0, 3), order=gen.S(["copy first", "original first", "alternating"]),
                    other=gen.B, read=gen.B)


def dup(o, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    b = io.BytesIO()
    pickle.dump(o, b)
    b.seek(0)
    return pickle.load(b)


def clone(g):
    h = RngState(0)
    h.np, h.py = g.np, g.py
    return h


def r_copy(c, rec):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    n = len(X)
    how = "deepcopy" if comp.name in NO_PICKLE else c["how"]
    what = f"{comp.name} {c['cfg']}"
    at = c["at"] % (n + 1)

    def step(o, g, i, Z=X):
        out = []
        y = int(i % 3 == 0) if comp.supervised else None
        with g.active():
            if i + 1 < comp.warm:
                comp.feed(o, Z[i].copy(), y)
            elif i % 2 or comp.supervised:
                out.append(comp.feed_ask(o, Z[i].copy(), y))
            else:
                comp.feed(o, Z[i].copy(), y)
                out.append(comp.ask(o, Z[i].copy()))
            if comp.pure and i + 1 >= comp.warm:
                out.append(comp.ask(o, Z[(5 * i + 2) % n].copy()))
        return out

    def fresh():
        g = RngState(c["rng"])
        with g.active():
            return zoo.build(c, X), g

    o, g = fresh()
    ref = [step(o, g, i) for i in range(n)]
    o, g = fresh()
    got = []
    copies = []
    for i in range(at):
        got.append(step(o, g, i))
    for _ in range(1 + c["again"] % 2):                      # a copy of the copy as well
        src = copies[-1][0] if copies else o
        copies.append((dup(src, how), clone(g)))
    alive = [(o, g)] + copies[:1]
    if c["order"] == "copy first":
        alive = alive[::-1]
    outs = {id(a): [] for a, _ in alive}
    if c["other"] and len(copies) > 1:                       # the second copy goes its own way: nobody else may notice
        k, kg = copies[1]
        Z = np.concatenate([X[:2], X[2:][::-1]]) if comp.group == "metric" else X[::-1] + (0.25 if comp.group in ("model", "transformer", "score", "ensemble", "stat", "window") and comp.name not in ("RelativeEntropy",) else 0.0)
        for i in range(at, n):
            step(k, kg, i, Z)
    elif len(copies) > 1:
        alive.append(copies[1])
        outs[id(copies[1][0])] = []
    if c["order"] == "alternating":
        for i in range(at, n):
            for a, h in alive:
                outs[id(a)].append(step(a, h, i))
    else:
        for a, h in alive:
            for i in range(at, n):
                outs[id(a)].append(step(a, h, i))
    for a, _ in alive:
        who = "the original" if a is o else f"a {how} copy"
        for j, (r, s) in enumerate(zip(ref[at:], outs[id(a)])):
            for u, v in zip(r, s):
                require(same_arr(u, v), lambda: f"{what}: copied after {at} instances; result {at + j} of {who} is {v.tolist()}, without copying it is {u.tolist()}")
    for j, (r, s) in enumerate(zip(ref, got)):
        for u, v in zip(r, s):
            require(same_arr(u, v), lambda: f"{what}: two equal runs differ at instance {j}")
    rec.nt(0 < at < n)
    rec.label(comp.name)
    rec.label(how)


def r_often(c, rec):
    """short-lived copies taken again and again from the one running original; each continues for a few instances"""
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    n = len(X)
    how = "deepcopy" if comp.name in NO_PICKLE else c["how"]
    what = f"{comp.name} {c['cfg']}"
    g = RngState(c["rng"])

    def step(o, h, i):
        y = int(i % 3 == 0) if comp.supervised else None
        with h.active():
            if i + 1 < comp.warm:
                comp.feed(o, X[i].copy(), y)
                return None
            return comp.feed_ask(o, X[i].copy(), y)

    with g.active():
        o = zoo.build(c, X)
    start = c["start"] * n // 101
    live, made = [], 0
    for i in range(n):
        if i >= start and made < 60 and (i - start) % c["every"] == 0:
            live.append((i, dup(o, how), clone(g)))
            made += 1
        ref = step(o, g, i)
        for at, k, h in live:
            got = step(k, h, i)
            require(ref is None or same_arr(ref, got), lambda: f"{what}: result {i} of a {how} copy taken after {at} instances is {got.tolist()}, of the original {ref.tolist()}")
        live = [t for t in live if i - t[0] + 1 < c["ahead"]]
    rec.nt(made > 1)
    rec.label(comp.name)


PROP = Prop("C39", "components copied (deep copy or pickle round trip) in the middle of a stream; non-trivial: instances before and after the copy",
            [Sub("copy", s_copy, r_copy, quick=2400, thorough=36000, shards=6),
             Sub("short copies", s_often, r_often, quick=1000, thorough=15000, shards=6)],
            ["original and copies draw from private generators in the same state", "the random cut forest is left out: the trees of the rrcf library cannot be copied; INQMAD is only deep-copied"])
