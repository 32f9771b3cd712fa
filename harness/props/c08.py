import os
import random
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, Violation, require
from pysad.utils import Data

VALS = [0.0, 1.0, -1.0, 0.1, 1e-9, -123456.789, 3.0, 1e12, 2.5]


def make(c):
    rs = np.random.RandomState(c["seed"])
    n, d = c["n"], c["d"]
    if c["vals"] == "ints":
        X = rs.randint(-9, 10, size=(n, d)).astype(float)
    elif c["vals"] == "special":
        X = np.array(VALS)[rs.randint(len(VALS), size=(n, d))]
    else:
        X = rs.randn(n, d) * 10.0 ** rs.randint(-4, 5)
    if c["vals"] == "missing" and c.get("dt", "float64") == "float64":   # entries that are not finite
        X[rs.rand(n, d) < 0.3] = np.nan
        X[rs.rand(n, d) < 0.1] = np.inf
    y = rs.randint(0, 2, size=n).astype(float) if c["ykind"] == "bin" else rs.randn(n) if c["ykind"] == "real" else np.arange(n) * 2.0 - 3
    if c.get("dt", "float64") != "float64" and c["fmt"] == "mat":        # matrices of other number types
        X = (np.abs(np.rint(X)) % 200).astype(c["dt"])
    return X, y


def write(c, X, y, root):
    sub = os.path.join(root, "d") if c["nested"] else root
    os.makedirs(sub, exist_ok=True)
    if c["fmt"] == "mat":
        from scipy.io import savemat
        yy = {"col": y.reshape(-1, 1), "row": y.reshape(1, -1), "flat": y}[c["yshape"]]
        savemat(os.path.join(sub, c.get("fname", "s1") + ".mat"), {"X": X, "y": yy, "extra": np.zeros(3)}, do_compression=bool(c["seed"] % 2))
        name = c.get("fname", "s1") + ".mat"
    else:
        name = c.get("fname", "s1") + (".txt" if c["fmt"] == "txt" else ".csv")
        np.savetxt(os.path.join(sub, name), np.hstack([X, y.reshape(-1, 1)]), delimiter=",", fmt="%.17g")
    return os.path.join("d", name) if c["nested"] else name


def check_pair(X, y, gX, gy, what):
    gX, gy = np.asarray(gX), np.asarray(gy)
    require(gX.shape == X.shape, lambda: f"{what}: features have shape {gX.shape}, stored {X.shape}")
    require(gy.shape == y.shape, lambda: f"{what}: labels have shape {gy.shape}, stored {y.shape}")
    require(np.array_equal(gX, X, equal_nan=gX.dtype.kind == "f"), lambda: f"{what}: features differ from what was stored")
    require(np.array_equal(gy, y), lambda: f"{what}: labels differ from what was stored")


def row(x):
    return tuple("nan" if v != v else v for v in np.ravel(np.asarray(x, dtype=float)).tolist())


def drain(it, y):
    out = []
    for item in it:
        if not isinstance(item, tuple) or len(item) != 2:
            raise Violation(f"iterator yielded {str(item)[:60]} instead of an (instance, label) pair")
        out.append((row(item[0]), float(np.ravel(item[1])[0])))
    return out


def s():
    return gen.fd(fmt=gen.S(["mat", "txt", "csv"]), yshape=gen.S(["col", "row", "flat"]), nested=gen.B,
                  n=st.one_of(*[st.just(1)] * 4, *[st.integers(1, 5)] * 4, *[st.integers(1, 30)] * 4, st.integers(31, 1500)), d=st.one_of(*[st.just(1)] * 4, *[st.integers(1, 6)] * 4, st.integers(7, 150)), dt=gen.S(["float64"] * 4 + ["int32", "uint8", "float32", "int64"]), fname=gen.S(["s1", "annthyroid", "data_2", "MY data", "a-b"]), slash=gen.B,
                  vals=gen.S(["ints", "special", "real", "missing"]), ykind=gen.S(["bin", "real", "seq"]), seed=gen.SEED,
                  itseed=st.one_of(st.integers(0, 10 ** 6), st.just(0), st.integers(0, 2 ** 32 - 2)), before=st.integers(0, 5), between=st.integers(0, 5))


def run(c, rec):
    X, y = make(c)
    root = tempfile.mkdtemp(prefix="verif_c08_")
    try:
        name = write(c, X, y, root)
        data = Data(root + "/" if c.get("slash") else root)
        what = f"{c['fmt']} file with {c['n']} x {c['d']}"
        gX, gy = data.get_data(name)
        check_pair(X, y, gX, gy, what)
        exp = [(row(X[i]), float(y[i])) for i in range(len(X))]
        got = drain(data.get_iterator(name, shuffle=False), y)
        require(got == exp, lambda: f"{what}: unshuffled iterator does not follow the file order")
        got = drain(data.get_iterator(name, shuffle=False, seed=c["itseed"]), y)
        require(got == exp, lambda: f"{what}: unshuffled seeded iterator does not follow the file order")
        got = drain(data.get_iterator(name), y)
        require(sorted(got, key=repr) == sorted(exp, key=repr), lambda: f"{what}: default iterator is not a permutation of the stored pairs")
        # the order is a function of file and seed
        orders = []
        for k in range(3):
            for _ in range(c["before"] * k):
                np.random.rand()
            it = data.get_iterator(name, shuffle=True, seed=c["itseed"])
            if k:
                for _ in range(c["between"] * k):
                    np.random.rand()
                    random.random()
            orders.append(drain(it, y))
            require(sorted(orders[-1], key=repr) == sorted(exp, key=repr), lambda: f"{what}: shuffled iterator is not a permutation of the stored pairs")
        require(orders[0] == orders[1] == orders[2], lambda: f"{what}: with seed {c['itseed']} the order differs between iterators")
        # same file and seed in another Data object, and a partially consumed iterator in between
        d2 = Data(data_base_path=root)
        a = d2.get_iterator(name, shuffle=True, seed=c["itseed"])
        b = d2.get_iterator(name, shuffle=True, seed=c["itseed"] + 1)
        first = []
        for _ in range(c["n"] // 2):
            first.append(next(a))
            next(b)
        rest = drain(a, y)
        got = drain(iter(first), y) + rest
        require(got == orders[0], lambda: f"{what}: the order changes when another iterator is consumed in between")
        gX2, gy2 = data.get_data(name)
        check_pair(X, y, gX2, gy2, what + " loaded again")
        rec.nt(True)
        rec.label("single row", c["n"] == 1)
        rec.label("single feature", c["d"] == 1)
        rec.label(c["fmt"])
    finally:
        shutil.rmtree(root, ignore_errors=True)


def s_perm():
    return gen.fd(seed=st.integers(0, 10 ** 6), n=st.integers(25, 40), fmt=gen.S(["mat", "txt"]))


def r_perm(c, rec):
    """seeded shuffling really depends on the seed: three seeds do not all give the same or the file order"""
    cc = dict(c, fmt=c["fmt"], yshape="col", nested=False, d=1, vals="ints", ykind="seq")
    X, y = make(cc)
    root = tempfile.mkdtemp(prefix="verif_c08_")
    try:
        name = write(cc, X, y, root)
        orders = {tuple(p[1] for p in drain(Data(root).get_iterator(name, shuffle=True, seed=c["seed"] + k), y)) for k in range(3)}
        require(len(orders) > 1, "three different seeds give the same order")
        rec.nt()
    finally:
        shutil.rmtree(root, ignore_errors=True)


CORNERS = [dict(fmt=f, yshape=ys, nested=False, n=1, d=d, vals="ints", ykind="seq", seed=3, itseed=5, before=1, between=2)
           for f in ("mat", "txt") for ys in ("col", "row", "flat") for d in (1, 3)]
PROP = Prop("C08", "matrices written to a scratch directory in both formats and loaded back, iterators with and without seeds; every case is a full round trip and counts as non-trivial",
            [Sub("roundtrip", s, run, quick=4000, thorough=80000, corners=CORNERS, shards=7),
             Sub("seeds", s_perm, r_perm, quick=320, thorough=6400)],
            ["text files are written with 17 significant digits, so the round trip is exact; file names have a single extension"])
