"""Generators shared by the properties. Every strategy yields JSON-serialisable values."""
import numpy as np
from hypothesis import strategies as st

I = st.integers
S = st.sampled_from
B = st.booleans()
SEED = st.integers(0, 2 ** 31 - 1)


def up(lo, hi, *tops):
    """integers: mostly lo..hi, sometimes far beyond (past any plausible internal block or table size)"""
    return st.one_of(*[st.integers(lo, hi)] * 10, *[st.integers(hi + 1, t) for t in tops])


def fd(**kw):
    return st.fixed_dictionaries(kw)


# values: exactly representable grids produce ties; wide magnitudes provoke round-off
# batch sizes: mostly small, sometimes beyond any plausible internal block size
SIZES = st.one_of(*[st.integers(0, 8)] * 8, *[st.integers(9, 200)] * 3, st.integers(201, 2500), st.sampled_from([256, 1024, 4096, 4097, 4100, 5000, 8193, 10001]))


def diff(got, exp):
    """a short description of where two sequences differ"""
    g, e = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    if g.shape != e.shape:
        return f"shape {g.shape}, expected {e.shape}"
    i = np.argwhere(~((g == e) | ((g != g) & (e != e))))
    return f"{len(i)} of {g.size} entries differ, first at {i[0].tolist() if len(i) else None}: {g[tuple(i[0])] if len(i) else None}, expected {e[tuple(i[0])] if len(i) else None}"


small_int = st.integers(-6, 6).map(float)
dyadic = st.integers(-64, 64).map(lambda i: i / 8.0)
mid = st.floats(-100, 100, allow_nan=False, allow_infinity=False, width=32)
decimal = st.integers(-50, 50).map(lambda i: i / 10.0)
wide = st.builds(lambda m, e: float(m) * 10.0 ** e, st.integers(-9, 9), st.integers(-6, 6))
huge = st.builds(lambda m, e: float(m) * 10.0 ** e, st.integers(-9, 9), st.integers(15, 40))
value = st.one_of(small_int, decimal, dyadic, mid, wide)


def values(min_size=0, max_size=40):
    """lists of floats: one family per list, so that ties are frequent"""
    return st.one_of(
        st.lists(small_int, min_size=min_size, max_size=max_size),
        st.lists(decimal, min_size=min_size, max_size=max_size),
        st.lists(value, min_size=min_size, max_size=max_size),
        st.lists(mid, min_size=min_size, max_size=max_size),
        st.lists(st.one_of(huge, huge, huge, value), min_size=min_size, max_size=max_size),
    )


VIEWS = ["own", "own", "own", "reversed", "spaced"]


def view(a, how):
    """the values of a in a view whose rows are laid out differently (each row stays contiguous)"""
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "spaced":
        return np.repeat(a, 3, axis=0)[1::3]
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        return np.repeat(np.repeat(a, 2, axis=0), 3, axis=1)[::2, ::3] if a.ndim == 2 else np.repeat(a, 2)[::2]
    if how == "flipped":
        return a[::-1, ::-1].copy()[::-1, ::-1] if a.ndim == 2 else a[::-1].copy()[::-1]
    return a.copy()


KINDS = ["normal", "uniform", "ints", "decimals", "const", "two", "walk", "mixture", "big", "tiny", "outlier", "blend"]


def data(n, d, kinds=KINDS):
    """recipe of an n x d stream; n and d are strategies or ints"""
    n = n if not isinstance(n, int) else st.just(n)
    d = d if not isinstance(d, int) else st.just(d)
    return fd(kind=S(kinds), seed=SEED, n=n, d=d)


def make(r):
    """the array of a recipe (a pure function of it)"""
    rs = np.random.RandomState(r["seed"])
    n, d, k = r["n"], r["d"], r["kind"]
    if k == "rows":
        return np.array(r["rows"], dtype=np.float64).reshape(n, d)
    if k == "normal":
        X = rs.randn(n, d)
    elif k == "uniform":
        X = rs.rand(n, d)
    elif k == "ints":
        X = rs.randint(-2, 3, size=(n, d)).astype(float)
    elif k == "decimals":
        X = rs.randint(-20, 21, size=(n, d)) / 10.0
    elif k == "const":
        X = np.tile(rs.choice([0.0, 0.1, -0.3, 1.0, 7.7, 1e5]) + np.arange(d) * rs.choice([0.0, 0.1, 1.0]), (n, 1))
    elif k == "two":
        a, b = rs.randint(-5, 6, size=(2, d)) / 4.0
        X = np.where(rs.rand(n, 1) < 0.5, a, b)
    elif k == "walk":
        X = np.cumsum(rs.randn(n, d) * 0.3, axis=0)
    elif k == "mixture":
        c = rs.randn(3, d) * 5
        X = c[rs.randint(3, size=n)] + 0.2 * rs.randn(n, d)
    elif k == "big":
        X = 1e6 * (1 + rs.randn(n, d))
    elif k == "tiny":
        X = 1e-6 * rs.randn(n, d)
    elif k == "outlier":
        X = rs.randn(n, d)
        if n:
            X[rs.randint(n)] *= 1000.0
    elif k == "blend":                    # repeats, zeros, constant rows, outliers and rounded rows in one stream
        X = rs.randn(n, d)
        for i in range(n):
            u = rs.rand()
            if u < 0.25 and i:
                X[i] = X[rs.randint(i)]
            elif u < 0.35:
                X[i] = 0.0
            elif u < 0.45:
                X[i] = rs.randint(-3, 4)
            elif u < 0.55:
                X[i] *= 100.0
            elif u < 0.7:
                X[i] = np.round(X[i])
    elif k == "steps":                    # constant stretches
        X = np.repeat(np.round(rs.randn(n // 5 + 1, d) * 3, 1), 5, axis=0)[:n]
    elif k == "ramp":
        X = np.arange(n)[:, None] * (0.25 + rs.randint(-4, 5, size=d) / 2.0) + rs.randint(-3, 4, size=d)
    elif k == "sparse":                   # mostly zeros
        X = rs.randn(n, d) * (rs.rand(n, d) < 0.2)
    elif k == "neg":
        X = -4.0 - rs.rand(n, d) * 3
    elif k == "season":
        t = np.arange(n)[:, None]
        X = np.sin(2 * np.pi * t / 7.0 + rs.rand(1, d) * 6) * 3 + 0.05 * t + 0.3 * rs.randn(n, d)
        if n:
            X[rs.randint(n)] += 8.0
    else:
        raise ValueError(k)
    return np.ascontiguousarray(X, dtype=np.float64)


def labels(seed, n, kind):
    rs = np.random.RandomState(seed)
    if kind == "bin":
        return rs.randint(0, 2, size=n)
    if kind == "float":
        return rs.randn(n)
    if kind == "bool":
        return rs.randint(0, 2, size=n).astype(bool)
    if kind == "ones":
        return np.ones(n, dtype=int)
    if kind == "zeros":
        return np.zeros(n, dtype=int)
    if kind == "signed":
        return rs.choice([-1, 1], size=n)
    if kind == "large":
        return rs.randint(-3, 9, size=n)
    if kind == "nan":
        return np.where(rs.rand(n) < 0.4, np.nan, rs.randint(0, 2, size=n))
    raise ValueError(kind)
