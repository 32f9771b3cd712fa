import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import core
import gen
from core import Prop, Sub, Violation, require
from pysad.utils import ArrayStreamer, PandasStreamer, _iterate

FORMS = ["array2d", "missing", "array1d", "int", "float32", "object", "list", "listrows", "fortran", "strided"]
YFORMS = ["none", "array", "list", "float", "str", "bool", "rows", "objects"]


def build_x(form, n, d, seed, dup):
    rs = np.random.RandomState(seed)
    base = np.arange(n)
    if dup and n:
        base = rs.randint(0, max(1, n // 2), size=n)
    X = base[:, None] * 10.0 + np.arange(d)[None, :] * 0.5
    if form == "array2d":
        return X
    if form == "missing":                    # entries that are not finite
        X[rs.rand(n, d) < 0.3] = np.nan
        X[rs.rand(n, d) < 0.1] = -np.inf
        return X
    if form == "array1d":
        return X[:, 0].copy() if d else base.astype(float)
    if form == "int":
        return (X * 2).astype(np.int64)
    if form == "float32":
        return X.astype(np.float32)
    if form == "object":
        return np.array([[f"r{b}c{j}" for j in range(d)] for b in base], dtype=object).reshape(n, d)
    if form == "list":
        return [float(b) for b in base]
    if form == "listrows":
        return [tuple(r) for r in X.tolist()]
    if form == "fortran":
        return np.asfortranarray(X)
    if form == "strided":
        return np.repeat(np.repeat(X, 2, axis=0), 2, axis=1)[::2, ::2]
    raise KeyError(form)


def build_y(form, n, seed):
    rs = np.random.RandomState(seed + 1)
    v = np.arange(n) * 7 + 3
    if form == "none":
        return None
    if form == "array":
        return v
    if form == "list":
        return [int(a) for a in v]
    if form == "float":
        return v / 4.0
    if form == "str":
        return [f"y{a}" for a in v]
    if form == "bool":
        return rs.rand(n) < 0.5
    if form == "rows":                       # several labels per instance
        return np.stack([v, -v, v * 0 + 1], axis=1)
    if form == "objects":                    # labels may be anything, also None, 0 and empty
        return [[None, 0, "", False, float(a)][int(k)] for a, k in zip(v, rs.randint(5, size=n))]
    raise KeyError(form)


def nn(e):
    return "not a number" if isinstance(e, float) and e != e else e


def key(v):
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.kind if v.dtype.kind != "O" else "O", tuple(nn(e.item() if isinstance(e, np.generic) else e) for e in v.reshape(-1).tolist()), v.shape)
    if isinstance(v, tuple):
        return ("t", v)
    if isinstance(v, np.generic):
        return ("s", nn(v.item()))
    return ("s", nn(v))


def copy_of(v):
    if v is None:
        return None
    return v.copy() if hasattr(v, "copy") else list(v)


def unchanged(a, b):
    if a is None:
        return b is None
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b) and list(a.index) == list(b.index)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (bool(np.all(a == b)) or a.dtype.kind == "f" and np.array_equal(a, b, equal_nan=True))
    return a == b


def unpack(item, y, what):
    if y is None:
        return item
    if not isinstance(item, tuple) or len(item) != 2:
        raise Violation(f"{what}: expected an (instance, label) pair, got {str(item)[:80]}")
    return item[0], item[1]


def expect_list(X, y):
    n = len(X)
    return [key(X[i]) if y is None else (key(X[i]), key(y[i])) for i in range(n)]


def got_key(item, y, what):
    if y is None:
        return key(item)
    a, b = unpack(item, y, what)
    return (key(a), key(b))


def compare(got, exp, shuffle, what):
    require(len(got) == len(exp), lambda: f"{what}: {len(got)} items yielded for {len(exp)} instances")
    if not shuffle:
        for i, (g, e) in enumerate(zip(got, exp)):
            require(g == e, lambda: f"{what}: item {i} is {g}, expected {e}")
    else:
        require(sorted(map(repr, got)) == sorted(map(repr, exp)), lambda: f"{what}: shuffled items are not a permutation of the input pairs: {got[:4]} vs {exp[:4]}")


def s_array():
    return gen.fd(form=gen.S(FORMS), yform=gen.S(YFORMS), n=st.one_of(st.integers(0, 6), st.integers(0, 40), gen.SIZES), d=gen.up(1, 4, 40),
                  seed=gen.SEED, dup=gen.B, shuffle=gen.B, via=gen.S(["streamer", "streamer", "iterate"]),
                  mode=gen.S(["once", "twice", "interleaved", "partial"]))


def sched(c, make_iter, exp, y, shuffle, what):
    if c["mode"] == "once":
        compare([got_key(i, y, what) for i in make_iter()], exp, shuffle, what)
    elif c["mode"] == "twice":
        for k in range(2):
            compare([got_key(i, y, what) for i in make_iter()], exp, shuffle, f"{what}, iteration {k + 1}")
    elif c["mode"] == "partial":
        it = iter(make_iter())
        for _ in range(c["n"] // 2):
            next(it, None)
        compare([got_key(i, y, what) for i in make_iter()], exp, shuffle, f"{what}, after an abandoned iteration")
    else:
        its = [iter(make_iter()), iter(make_iter())]
        outs = [[], []]
        rs = np.random.RandomState(c["seed"])
        alive = [True, True]
        while any(alive):
            k = int(rs.randint(2))
            if not alive[k]:
                k = 1 - k
            try:
                outs[k].append(got_key(next(its[k]), y, what))
            except StopIteration:
                alive[k] = False
            require(len(outs[k]) <= len(exp), f"{what}: more items than instances")
        for k in range(2):
            compare(outs[k], exp, shuffle, f"{what}, interleaved iterator {k + 1}")


def r_array(c, rec):
    X = build_x(c["form"], c["n"], c["d"], c["seed"], c["dup"])
    y = build_y(c["yform"], c["n"], c["seed"])
    X0, y0 = copy_of(X), copy_of(y)
    exp = expect_list(X, y)
    if c["via"] == "iterate":
        what = f"_iterate over {c['form']}"

        def make():
            for item in _iterate(X, y):
                a, b = unpack(item, True, what)
                if y is None:
                    require(b is None, f"{what}: label {b!r} without labels")
                    yield a
                else:
                    yield a, b
        sched(c, make, exp, y, False, what)
    else:
        s = ArrayStreamer(shuffle=c["shuffle"]) if c["shuffle"] or c["dup"] else ArrayStreamer()
        what = f"ArrayStreamer(shuffle={c['shuffle']}) over {c['form']}/{c['yform']}"
        sched(c, lambda: s.iter(X, y) if y is not None else s.iter(X), exp, y, c["shuffle"], what)
    require(unchanged(X0, X) and unchanged(y0, y), f"{what}: the inputs were modified")
    rec.nt(c["n"] > 1)
    rec.label("shuffled", c["shuffle"] and c["via"] == "streamer")
    rec.label(c["mode"])


def s_pandas():
    return gen.fd(n=st.one_of(*[st.integers(0, 6)] * 4, *[st.integers(0, 30)] * 4, *[st.integers(0, 300)] * 3, st.integers(301, 2500)), d=gen.up(1, 4, 40), seed=gen.SEED, dup=gen.B, shuffle=gen.B,
                  index=gen.S(["default", "reversed", "offset", "str", "perm", "dups"]), yindex=gen.S(["default", "reversed", "same", "perm"]),
                  y=gen.S(["none", "series", "frame", "strseries"]), dtype=gen.S(["float", "missing", "int", "mixed", "flags"]),
                  mode=gen.S(["once", "twice", "interleaved", "partial"]))


def mkindex(kind, n, rs):
    if kind == "default":
        return list(range(n))
    if kind == "reversed":
        return list(range(n))[::-1]
    if kind == "offset":
        return list(range(100, 100 + n))
    if kind == "str":
        return [f"i{n - k}" for k in range(n)]
    if kind == "dups":
        return [k // 2 for k in range(n)]
    return list(rs.permutation(n))


def r_pandas(c, rec):
    n, rs = c["n"], np.random.RandomState(c["seed"])
    A = build_x("missing" if c["dtype"] == "missing" else "array2d", n, c["d"], c["seed"], c["dup"])
    if c["dtype"] == "int":
        A = (A * 2).astype(int)
    idx = mkindex(c["index"], n, rs)
    df = pd.DataFrame(A, columns=[f"c{c['d'] - j}" for j in range(c["d"])], index=idx)
    if c["dtype"] == "mixed":
        df.insert(0, "z", [f"s{i}" for i in range(n)])
    if c["dtype"] == "flags":
        df.insert(0, "z", rs.rand(n) < 0.5)
    lab = np.arange(n) * 7 + 3
    yidx = idx if c["yindex"] == "same" else mkindex(c["yindex"], n, rs)
    if c["y"] == "none":
        y = None
    elif c["y"] == "series":
        y = pd.Series(lab, index=yidx)
    elif c["y"] == "strseries":
        y = pd.Series([f"y{v}" for v in lab], index=yidx)
    else:
        y = pd.DataFrame({"label": lab}, index=yidx)
    df0, y0 = df.copy(), None if y is None else y.copy()
    rows = [np.array(df.iloc[i].tolist(), dtype=object if c["dtype"] in ("mixed", "flags") else A.dtype) for i in range(n)]
    ylist = None if y is None else ([np.array([v]) for v in lab] if c["y"] == "frame" else list(y))
    exp = [key(r) if y is None else (key(r), key(ylist[i])) for i, r in enumerate(rows)]
    s = PandasStreamer(shuffle=c["shuffle"])
    what = f"PandasStreamer(shuffle={c['shuffle']}) index={c['index']}"
    sched(c, lambda: s.iter(df, y) if y is not None else s.iter(df), exp, y, c["shuffle"], what)
    require(unchanged(df0, df) and unchanged(y0, y), f"{what}: the inputs were modified")
    rec.nt(n > 1)
    rec.label("shuffled", c["shuffle"])
    rec.label("non-default index", c["index"] != "default")


def s_mismatch():
    return gen.fd(n=gen.up(0, 8, 300), m=gen.up(0, 8, 300), shuffle=gen.B, kind=gen.S(["array", "list", "pandas", "iterate"]))


def r_mismatch(c, rec):
    n, m = c["n"], c["m"]
    if n == m:
        m = n + 1
    X, y = np.arange(2.0 * n).reshape(n, 2), np.arange(m)
    what = f"{c['kind']} streamer, {n} instances with {m} labels, shuffle={c['shuffle']}"
    try:
        if c["kind"] == "pandas":
            out = list(PandasStreamer(shuffle=c["shuffle"]).iter(pd.DataFrame(X), pd.Series(y)))
        elif c["kind"] == "iterate":
            out = list(_iterate(X, y))
        elif c["kind"] == "list":
            out = list(ArrayStreamer(shuffle=c["shuffle"]).iter(X.tolist(), y.tolist()))
        else:
            out = list(ArrayStreamer(shuffle=c["shuffle"]).iter(X, y))
    except Exception:
        rec.nt(n > 0)
        return
    raise Violation(f"{what}: accepted, yielded {len(out)} items")


def s_random():
    return gen.fd(seed=gen.SEED, n=st.integers(25, 40), pandas=gen.B, labels=gen.B)


def r_random(c, rec):
    """shuffling really permutes: three shuffles of >= 25 distinct instances are not all the identity, nor all equal"""
    n = c["n"]
    X = np.arange(float(n)).reshape(n, 1)
    orders = []
    for _ in range(3):
        if c["pandas"]:
            it = PandasStreamer(shuffle=True).iter(pd.DataFrame(X), pd.Series(np.arange(n))) if c["labels"] else PandasStreamer(shuffle=True).iter(pd.DataFrame(X))
        else:
            it = ArrayStreamer(shuffle=True).iter(X, np.arange(n)) if c["labels"] else ArrayStreamer(shuffle=True).iter(X)
        orders.append(tuple(float(np.ravel(i[0])[0]) for i in it))
    require(any(o != tuple(range(n)) for o in orders), "shuffling never changes the order")
    require(len(set(orders)) > 1, "shuffling always gives the same order")
    rec.nt()


def s_places():
    return gen.fd(seed=gen.SEED, n=st.integers(2, 14), kind=gen.S(["array", "list", "pandas"]), labels=gen.B)


def r_places(c, rec):
    """every order possible: over many shuffles every instance comes at every place (and, for n <= 4, in every order)"""
    n, K = c["n"], 40 * c["n"]
    X = np.arange(float(n)).reshape(n, 1)
    data = {"array": X, "list": [float(v) for v in range(n)], "pandas": pd.DataFrame(X)}[c["kind"]]
    y = None if not c["labels"] else pd.Series(np.arange(n)) if c["kind"] == "pandas" else np.arange(n)
    s = PandasStreamer(shuffle=True) if c["kind"] == "pandas" else ArrayStreamer(shuffle=True)
    seen, orders = np.zeros((n, n), dtype=int), set()
    with core.RngState(c["seed"]).active():
        for _ in range(K):
            o = [int(np.ravel(i if y is None else i[0])[0]) for i in (s.iter(data, y) if y is not None else s.iter(data))]
            require(sorted(o) == list(range(n)), lambda: f"shuffled {c['kind']} of {n}: {o} is not a permutation")
            seen[np.arange(n), o] += 1
            orders.add(tuple(o))
    never = np.argwhere(seen == 0)
    require(len(never) == 0, lambda: f"{K} shuffles of {c['kind']} with {n} instances: instance {never[0][1]} never came at place {never[0][0]} ({len(never)} such pairs)")
    if n <= 3:
        require(len(orders) == math.factorial(n), lambda: f"{K} shuffles of {n} instances gave only the orders {sorted(orders)}")
    rec.nt()


PROP = Prop("C07", "arrays/lists/data frames of many layouts with unique row contents, labels, shuffling, and iteration modes (once, twice, interleaved, abandoned); "
            "non-trivial: more than one instance (mismatch: at least one instance)",
            [Sub("array", s_array, r_array, quick=6000, thorough=120000, shards=4),
             Sub("pandas", s_pandas, r_pandas, quick=3000, thorough=60000, shards=3),
             Sub("mismatch", s_mismatch, r_mismatch, quick=600, thorough=12000),
             Sub("random", s_random, r_random, quick=180, thorough=3600),
             Sub("places", s_places, r_places, quick=120, thorough=2400)],
            ["'random' relies on 25! orders: a chance failure is impossible in practice; 'places' makes 40 n shuffles, so a given pair is missed with probability below exp(-40)"])
