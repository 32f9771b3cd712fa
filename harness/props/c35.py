import collections
import gc
import sys
import types

import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Prop, RngState, Sub, require
from pysad.evaluation import AUPRMetric, PrecisionMetric, RecallMetric, WindowedMetric
from pysad.statistics import MaxMeter, MedianMeter, RunningStatistic, VarianceMeter

SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.CodeType, types.FrameType, np.dtype, np.ufunc)
ATOM = (int, float, complex, bool, type(None), np.generic)


def size(roots):
    """number of values reachable from the objects (array entries, container slots, characters)"""
    seen, stack, total = set(), list(roots), 0
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, ATOM):
            continue
        seen.add(id(o))
        if isinstance(o, (str, bytes, bytearray)):
            total += 1 + len(o) // 64
        elif isinstance(o, np.ndarray):
            total += o.size if o.base is None or not isinstance(o.base, np.ndarray) else o.base.size
            if o.dtype == object:
                stack.extend(o.ravel().tolist())
        elif isinstance(o, types.MethodType):
            stack.append(o.__self__)
        elif isinstance(o, types.FunctionType):
            stack.extend(cell.cell_contents for cell in (o.__closure__ or ()) if cell is not None)
        elif isinstance(o, SKIP):
            continue
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            total += len(o)
            stack.extend(o)
        elif isinstance(o, dict):
            total += len(o)
            stack.extend(o.keys())
            stack.extend(o.values())
        else:
            mod = type(o).__module__
            if mod.startswith(("jax", "jaxlib", "numba", "llvmlite")):
                continue
            total += 1
            stack.extend(r for r in gc.get_referents(o) if not isinstance(r, (type, types.ModuleType)))
            if mod.startswith("pysad"):
                for k in type(o).__mro__:
                    if k.__module__.startswith("pysad"):
                        stack.extend(v for v in vars(k).values() if isinstance(v, (list, dict, set, collections.deque, np.ndarray)))
    return total


def statics():
    """containers held by pysad's modules"""
    out = []
    for name, m in list(sys.modules.items()):
        if name == "pysad" or name.startswith("pysad."):
            out += [v for k, v in vars(m).items() if not k.startswith("__") and isinstance(v, (list, dict, set, collections.deque, np.ndarray))]
    return out


COMPS = [c for c in zoo.ALL if c.bounded is not None]


NOISY = {"xStream": 0.3, "RobustRandomCutForest": 0.15, "ReferenceWindowModel": 0.15, "IForestASD": 0.15}     # the number of tree nodes or occupied cells varies with the window


def judge(what, sizes, rel=0.0):
    """sizes at many times after warm-up: the later half must not exceed what the first half reached"""
    h = len(sizes) // 2
    a, b = max(s for _, s in sizes[:h]), max(s for _, s in sizes[h:])
    n = sizes[-1][0] - sizes[0][0]
    limit = a + (4 + 0.02 * n if not rel else max(rel * a, 10 + 0.2 * n))
    require(b <= limit, lambda: f"{what}: it holds {a} values up to instance {sizes[h - 1][0]} but {b} at instance {max(sizes, key=lambda t: t[1])[0]} (sizes {sizes[::max(1, len(sizes) // 10)]})")


def s_mem():
    return zoo.pick(COMPS, ask=gen.S(["always", "sometimes", "never"]), shift=gen.B)


def r_mem(c, rec):
    comp = zoo.BY[c["comp"]]
    warm = max(4, comp.bounded(c["cfg"]))
    more = {"Inqmad": 10, "IForestASD": 40, "ReferenceWindowModel": 60, "OneFitModel": 20, "KNNCAD": 240, "SeasonalESD": 60, "SeasonalHybridESD": 60, "ModifiedSTLResidualTransformer": 60, "KitNet": 150, "RobustRandomCutForest": 150}.get(comp.name, 300)
    # two stretches of L instances, sampled at the same offsets; L is a multiple of the window, so both see the same phases of it
    W = c["cfg"].get("W", c["cfg"].get("size", 1))
    L = W * -(-(more // 2) // W)
    n = warm + 2 * L
    at = {warm + j * L + p for j in (0, 1) for p in range(0, L, max(1, L // 12))}
    kind = c["x"]["kind"] if c["x"]["kind"] in ("normal", "uniform", "ints", "two", "const", "decimals") and c["x"]["kind"] in comp.kinds else "uniform"
    X = zoo.rows(dict(c, x=dict(c["x"], n=n, kind=kind)))
    if c["shift"] and comp.group in ("stat", "window", "score", "ensemble", "transformer"):
        X = X + np.arange(n)[:, None] * 0.37                # fresh values all the time
    g = RngState(c["rng"])
    with g.active():
        o = zoo.build(dict(c), X)
        sizes = []
        for i in range(n):
            comp.feed(o, X[i].copy())
            if i + 1 >= comp.warm and (c["ask"] == "always" or c["ask"] == "sometimes" and i % 4 == 0):
                comp.ask(o, X[i].copy())
            if i in at:
                sizes.append((i + 1, size([o] + statics())))
    if comp.name == "RobustRandomCutForest" and kind not in ("normal", "uniform"):
        # duplicates share a leaf, so the number of nodes depends on the window: the bound is that of distinct instances
        U = np.random.RandomState(1).rand(warm + 20, X.shape[1])
        with g.active():
            o = zoo.build(dict(c), U)
            for i in range(len(U)):
                comp.feed(o, U[i].copy())
        sizes = [(0, size([o] + statics()))] * (len(sizes) // 2) + sizes[len(sizes) // 2:]
    judge(f"{comp.name} {c['cfg']} ({kind} data, reads: {c['ask']})", sizes, NOISY.get(comp.name, 0.0))
    rec.nt(len(sizes) > 3)
    rec.label(comp.name)


def s_win():
    return gen.fd(kind=gen.S(["metric", "stat"]), inner=gen.S([0, 1, 2]), W=st.integers(1, 12), ign=gen.B, seed=gen.SEED, ask=st.integers(0, 5), abs=gen.B)


def r_win(c, rec):
    """wrapped metrics and statistics: blocks and windows of any inner class"""
    rs = np.random.RandomState(c["seed"])
    W = c["W"]
    if c["kind"] == "metric":
        o = WindowedMetric([AUPRMetric, PrecisionMetric, RecallMetric][c["inner"]], W, c["ign"])
        up = lambda: o.update(int(rs.rand() < 0.5), int(rs.rand() < 0.5))
    else:
        o = RunningStatistic([MedianMeter, VarianceMeter, MaxMeter][c["inner"]], W)
        up = lambda: o.update(float(rs.randn()))
    sizes = []
    for i in range(4 * W + 400):
        up()
        if c["ask"] and i % c["ask"] == 0 and i > 2 * W:
            o.get()
        if i >= 2 * W and i % 7 == 0:
            sizes.append((i + 1, size([o])))
    judge(f"{type(o).__name__} of window {W} around inner class {c['inner']}", sizes)
    rec.nt()
    rec.label(c["kind"])


PROP = Prop("C35", "size of everything reachable from the object over a stream of many windows; non-trivial: sizes compared at several times after warm-up",
            [Sub("components", s_mem, r_mem, quick=2400, thorough=48000, shards=7),
             Sub("wrapped metrics and statistics", s_win, r_win, quick=60, thorough=1200)],
            ["streams are stationary, so that the number of occupied histogram cells and tree nodes is too", "memory held inside jax and numba is not seen"])
