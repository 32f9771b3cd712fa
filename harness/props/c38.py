import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, num, require, same_arr
from pysad.utils import get_minmax_array, get_minmax_scalar

DT = ["f8", "f4", "i8", "i4", "u1", "f2", "i1", "i2"]
PLACE = ["none", "last", "first", "any"]


def s_arr():
    return gen.fd(shape=st.one_of(st.tuples(st.integers(1, 12), st.integers(1, 6)).map(list), st.tuples(gen.up(1, 40, 400, 3000), st.just(1)).map(list), st.tuples(gen.up(1, 12, 150), gen.up(1, 6, 150)).map(list)), vals=st.lists(gen.value, min_size=1, max_size=20), dt=gen.S(DT), lay=gen.S(["C", "F", "strided", "rev", "readonly"]), inf=gen.S([None, None, None, "inf", "-inf"]), seed=gen.SEED, hi=gen.S(PLACE), lo=gen.S(PLACE), edge=gen.B)


def s_scal():
    return gen.fd(shape=st.one_of(st.just([]), st.tuples(gen.up(1, 40, 400, 3000, 12000)).map(list), st.tuples(st.integers(1, 9), st.integers(1, 6)).map(list), st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)).map(list), st.lists(st.integers(1, 3), min_size=4, max_size=7)),
                  vals=st.lists(gen.value, min_size=1, max_size=20), dt=gen.S(DT), lay=gen.S(["C", "F", "strided", "rev", "readonly"]), inf=gen.S([None, None, None, "inf", "-inf"]), seed=gen.SEED, hi=gen.S(PLACE), lo=gen.S(PLACE), edge=gen.B)


def build(c):
    n = int(np.prod(c["shape"])) if c["shape"] else 1
    rs = np.random.RandomState(c["seed"])
    a = np.array(c["vals"])[rs.randint(len(c["vals"]), size=n)]
    if c["dt"][0] == "u":
        a = np.abs(a) % 200
    a = np.clip(a, -6e4, 6e4) if c["dt"] in ("f2",) else a
    if c["dt"] in ("i1", "i2"):
        a = np.sign(a) * (np.abs(a) % 120)
    a = np.trunc(a).astype(c["dt"]) if c["dt"][0] in "iu" else a.astype(c["dt"])
    top = np.iinfo(a.dtype) if c["dt"][0] in "iu" else np.finfo(a.dtype)
    wid = c["shape"][-1] if len(c["shape"]) > 1 else 1
    for side, ext in (("hi", top.max), ("lo", top.min)):       # one place holds the only largest (smallest) value
        if c[side] == "none" or (side == "lo" and n < 2 and c["hi"] != "none"):
            continue
        at = {"last": n - 1 - rs.randint(min(wid, n)), "first": rs.randint(min(wid, n)), "any": rs.randint(n)}[c[side]]
        a[at] = ext if c["edge"] else min(float(np.max(a)) + 3, float(top.max) if c["dt"] != "i8" else 1e9) if side == "hi" else max(float(np.min(a)) - 3, float(top.min) if c["dt"] != "i8" else -1e9)
    if c["inf"] and c["dt"][0] == "f":
        a[rs.randint(n)] = float(c["inf"])
    a = a.reshape(c["shape"])
    if c["lay"] == "F":
        a = np.asfortranarray(a)
    elif c["lay"] == "strided" and a.ndim:
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        b[1::2] = 99
        b[::2] = a
        a = b[::2]
    elif c["lay"] == "rev" and a.ndim:
        a = a[::-1]
    elif c["lay"] == "readonly":
        a.setflags(write=False)
    return a


def scan(vals):
    lo = hi = vals[0]
    for v in vals[1:]:
        if v < lo:
            lo = v
        if v > hi:
            hi = v
    return lo, hi


def r_arr(c, rec):
    a = build(c)
    keep = a.copy()
    lo, hi = get_minmax_array(a)
    lo, hi = np.asarray(lo), np.asarray(hi)
    d = a.shape[1]
    require(lo.shape == (d,) and hi.shape == (d,), lambda: f"bounds of a {a.shape} array have shapes {lo.shape} and {hi.shape}")
    for j in range(d):
        e = scan(a[:, j].tolist())
        require((float(lo[j]), float(hi[j])) == (float(e[0]), float(e[1])), lambda: f"bounds of column {j} of {a.tolist()}: ({lo[j]}, {hi[j]}), expected {e}")
    require(same_arr(a, keep), "get_minmax_array changed its argument")
    rec.nt(a.size > 1)
    rec.label(c["dt"])


def r_scal(c, rec):
    a = build(c)
    keep = a.copy()
    lo, hi = get_minmax_scalar(a)
    e = scan(a.ravel().tolist())
    require((num(lo, "minimum"), num(hi, "maximum")) == (float(e[0]), float(e[1])), lambda: f"bounds of {a.tolist()}: ({lo}, {hi}), expected {e}")
    require(same_arr(a, keep), "get_minmax_scalar changed its argument")
    rec.nt(a.size > 1)
    rec.label(f"{a.ndim} dimensions")


PROP = Prop("C38", "arrays of many shapes, types and layouts scanned element by element; non-trivial: more than one element",
            [Sub("per feature", s_arr, r_arr, quick=3000, thorough=60000), Sub("scalar", s_scal, r_scal, quick=3000, thorough=60000)], [])
