import numpy as np
from hypothesis import strategies as st

import gen
import oracle
from core import Prop, Sub, Violation, close, num, require
from pysad.statistics import (AbsStatistic, AverageMeter, CountMeter, MaxMeter, MedianMeter,
                              MinMeter, SumMeter, SumSquaresMeter, VarianceMeter)

CLS = {"count": CountMeter, "sum": SumMeter, "sumsq": SumSquaresMeter, "avg": AverageMeter,
       "var": VarianceMeter, "min": MinMeter, "max": MaxMeter, "median": MedianMeter}
CAST = {"float": float, "np": np.float64,
        "int": lambda v: int(v) if float(v).is_integer() and abs(v) < 1e6 else float(v)}


def build(name, absolute):
    return AbsStatistic(CLS[name]) if absolute else CLS[name]()


def check_get(m, name, absolute, live, h, rec, where):
    if not live and name not in oracle.EMPTY_OK:
        return
    got = num(m.get(), f"{name}.get()")
    exp = oracle.STATS[name](live)
    t = oracle.tol(name, h, len(live))
    if absolute:
        exp = abs(exp)
    require(close(got, exp, t), lambda: f"{'abs ' if absolute else ''}{name} {where}: got {got!r}, expected {exp!r} over {live[:20]}")
    if name == "var":
        require(got >= 0, lambda: f"negative variance {got!r} {where}")


def drive(name, absolute, ops, rec, cast=float):
    m = build(name, absolute)
    live, h = [], oracle.Hist()
    removed = gets = 0
    for i, op in enumerate(ops):
        if op[0] == "u":
            v = cast(op[1])
            m.update(v)
            live.append(float(v))
            h.add(float(v))
        elif op[0] == "r":
            if not live:
                continue
            k = op[1] % len(live)
            if op[2] == "min":
                k = live.index(min(live))
            elif op[2] == "max":
                k = live.index(max(live))
            elif op[2] == "old":
                k = 0
            v = live.pop(k)
            m.remove(cast(v))
            h.add(v)
            removed += 1
        elif op[0] in "xn":
            # exchange live values for others: "x" keeps their number and sum, "n" their number and magnitudes
            if len(live) < 2:
                continue
            a = live.pop(op[1] % len(live))
            b = live.pop(op[2] % len(live))
            for v in (a, b):
                m.remove(cast(v))
                h.add(v)
            for v in (a + op[3], b - op[3]) if op[0] == "x" else (-a, -b):
                v = float(cast(v))
                m.update(cast(v))
                live.append(v)
                h.add(v)
            removed += 2
        else:
            check_get(m, name, absolute, live, h, rec, f"after {i} operations")
            check_get(m, name, absolute, live, h, rec, f"read twice after {i} operations")
            gets += 1
    check_get(m, name, absolute, live, h, rec, "at the end")
    rec.nt(removed > 0 and len(live) > 0)
    rec.label("with removals", removed > 0)
    rec.label("emptied", removed > 0 and not live)
    rec.label(name)


def op(vals):
    return st.one_of(
        st.tuples(st.just("u"), vals), st.tuples(st.just("u"), vals),
        st.tuples(st.just("r"), st.integers(0, 50), gen.S(["any", "min", "max", "old"])),
        st.tuples(st.just("g")), st.tuples(st.just("g")),
        st.tuples(gen.S(["x", "x", "n"]), st.integers(0, 50), st.integers(0, 50), st.integers(1, 5).map(float)),
    ).map(list)


def ops_strategy():
    return st.one_of(*[st.lists(op(v), min_size=1, max_size=30)
                       for v in (gen.small_int, gen.decimal, gen.value, gen.wide)])


def s_short():
    return gen.fd(meter=gen.S(sorted(CLS)), abs=gen.B, cast=gen.S(["float", "float", "np", "int"]),
                  ops=ops_strategy())


def r_short(c, rec):
    drive(c["meter"], c["abs"], c["ops"], rec, CAST[c["cast"]])


def s_long():
    return gen.fd(meter=gen.S(sorted(CLS)), abs=gen.B, seed=gen.SEED, n=st.one_of(st.integers(20, 300), st.integers(20, 300), st.integers(20, 300), st.integers(301, 1500)),
                  premove=st.integers(0, 9), pget=st.integers(0, 5),
                  kind=gen.S(["ints", "decimals", "normal", "const", "big", "walk", "uniform"]))


def r_long(c, rec):
    rs = np.random.RandomState(c["seed"])
    X = gen.make(dict(kind=c["kind"], seed=c["seed"], n=c["n"], d=1))[:, 0]
    ops = []
    for v in X:
        ops.append(["u", float(v)])
        while rs.rand() < c["premove"] / 20.0:
            ops.append(["r", int(rs.randint(1000)), ["any", "min", "max", "old"][rs.randint(4)]])
        if rs.rand() < 0.1:
            ops.append([["x", "n"][rs.randint(2)], int(rs.randint(1000)), int(rs.randint(1000)), float(rs.randint(1, 4))])
        if rs.rand() < c["pget"] / 20.0:
            ops.append(["g"])
    drive(c["meter"], c["abs"], ops, rec)


CORNERS = []
for name in sorted(CLS):
    for a in (False, True):
        CORNERS += [
            dict(meter=name, abs=a, cast="float", ops=[["g"]]),
            dict(meter=name, abs=a, cast="float", ops=[["u", 0.1]] * 7 + [["g"]]),
            dict(meter=name, abs=a, cast="float", ops=[["u", -3.0], ["u", -1.0], ["u", -3.0], ["g"], ["r", 0, "min"], ["g"], ["r", 0, "max"], ["g"], ["r", 0, "any"], ["g"], ["u", 2.0], ["g"]]),
        ]

PROP = Prop("C03", "histories of update/remove/get drawn by hypothesis (short, shrinkable) and from seeded recipes (long); "
            "non-trivial: at least one removal and a non-empty live multiset at the end",
            [Sub("short", s_short, r_short, quick=24000, thorough=480000, corners=CORNERS, shards=4),
             Sub("long", s_long, r_long, quick=4800, thorough=96000, shards=4)],
            ["exact rational arithmetic is the oracle; round-off allowance 1e-12 relative to the magnitude of everything accumulated"])
