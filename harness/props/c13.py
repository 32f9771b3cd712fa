import math

import numpy as np
from hypothesis import strategies as st

import gen
from core import Prop, Sub, mat, require, vec
from murmur import streamhash_matrix
from pysad.transform.projection import GaussianRandomProjector, SparseRandomProjector, StreamhashProjector


def build(c):
    k = c["k"] if "k" in c else c["kd"][0]
    if c["kind"] == "hash":
        return StreamhashProjector(num_components=k) if c["density"] is None else StreamhashProjector(num_components=k, density=c["density"])
    if c["kind"] == "gauss":
        return GaussianRandomProjector(num_components=k)
    return SparseRandomProjector(num_components=k) if c["density"] is None else SparseRandomProjector(num_components=k, density=c["density"])


def s():
    I = st.integers
    small = st.tuples(I(1, 12), I(1, 12))
    kd = st.one_of(*[small] * 12, st.tuples(st.just(1), I(1, 40)), st.tuples(I(13, 140), I(1, 12)), st.tuples(I(13, 140), I(1, 12)), st.tuples(I(1, 12), I(13, 40)), st.tuples(I(1, 6), I(90, 130)),
                   st.tuples(I(141, 300), I(1, 4)), st.tuples(I(1, 2), I(131, 400)))
    return gen.fd(kind=gen.S(["hash", "hash", "gauss", "sparse"]), kd=kd.map(list),
                  density=gen.S([None, None, 1.0 / 3, 0.5, 0.1, 1.0, 0.25]), n=st.integers(1, 6), seed=gen.SEED,
                  dkind=gen.S(["normal", "ints", "big", "tiny", "decimals", "uniform"]),
                  calls=st.lists(st.tuples(gen.S(["t", "ft", "f", "T", "FT", "rng", "w"]), st.integers(0, 5)).map(list), max_size=6), rows=st.lists(gen.S(["", "", "zero", "same", "one hot", "repeat"]), max_size=6), probe_first=gen.B)


def run(c, rec):
    k, d = c["kd"]
    n = c["n"]
    p = build(c)
    X = gen.make(dict(kind=c["dkind"], seed=c["seed"], n=n, d=d))
    for i, how in enumerate(c["rows"][:n]):
        if how == "zero":
            X[i] = 0.0
        elif how == "same":
            X[i] = X[i, 0]
        elif how == "one hot":
            X[i, 1:] = 0.0
        elif how == "repeat":
            X[i] = X[i - 1]
    what = f"{c['kind']} projector {d}->{k} density={c['density']}"
    R = streamhash_matrix(k, d, 1 / 3.0 if c["density"] is None else c["density"]) if c["kind"] == "hash" else None
    seen = []           # (x, projection)

    def probe():
        M = np.empty((k, d))
        for j in range(d):
            e = np.zeros(d)
            e[j] = 1.0
            M[:, j] = vec(p.transform_partial(e), k, what)
        return M

    if c["probe_first"]:
        M = probe()
    for call, i in c["calls"]:
        x = X[i % n].copy()
        if call == "t":
            seen.append((x, vec(p.transform_partial(x), k, what)))
        elif call == "ft":
            seen.append((x, vec(p.fit_transform_partial(x), k, what)))
        elif call == "f":
            p.fit_partial(x)
        elif call == "rng":
            np.random.rand(3)
        elif call == "w":                       # the hash projector's map is defined for every width: features come and go
            if R is not None:
                w = (1, max(1, d // 2), d + 1, d + 3, 2 * d, max(1, d - 1))[i]
                x = np.resize(X[i % n], w)
                e = streamhash_matrix(k, w, 1 / 3.0 if c["density"] is None else c["density"]).dot(x)
                y = vec(p.transform_partial(x.copy()), k, what)
                tol = 1e-9 * (np.abs(x).sum() * np.abs(R).max(initial=1.0) + 1e-300)
                require(np.all(np.abs(y - e) <= tol), lambda: f"{what}: a vector of {w} features {x.tolist()[:6]} -> {y.tolist()[:6]}, the hash definition gives {e.tolist()[:6]}")
                rec.label("another width")
        else:
            Y = mat(p.transform(X.copy()) if call == "T" else p.fit_transform(X.copy()), n, k, what)
            seen += [(X[j], Y[j]) for j in range(n)]
    Y = mat(p.transform(X.copy()), n, k, what)
    seen += [(X[j], Y[j]) for j in range(n)]
    if not c["probe_first"]:
        M = probe()
    for x, y in seen:
        e = M.dot(x)
        tol = 1e-9 * (np.abs(M).dot(np.abs(x)) + 1e-300)
        require(np.all(np.abs(y - e) <= tol), lambda: f"{what}: not one fixed linear map: {x.tolist()[:6]} -> {y.tolist()[:6]}, the map gives {e.tolist()[:6]}")
    if R is not None:
        require(np.all(np.abs(M - R) <= 1e-9 * np.abs(R).max(initial=1e-300)), lambda: f"{what}: the matrix differs from the hash definition at {np.argwhere(np.abs(M - R) > 1e-9)[:3].tolist()}: {M[np.abs(M - R) > 1e-9][:3]} vs {R[np.abs(M - R) > 1e-9][:3]}")
    elif c["kind"] == "sparse":
        dens = 1.0 / math.sqrt(d) if c["density"] is None else c["density"]
        v = math.sqrt(1.0 / dens) / math.sqrt(k)
        ok = (np.abs(M) <= 1e-12 * v) | (np.abs(np.abs(M) - v) <= 1e-9 * v)
        require(np.all(ok), lambda: f"{what}: entries {M[~ok][:4]} are not in {{0, +-{v}}}")
    rec.nt(d > 1 and len(seen) > 1)
    rec.label(c["kind"])
    rec.label("one component", k == 1)


def s_family():
    return gen.fd(kind=gen.S(["gauss", "sparse"]), k=gen.S([40, 60]), d=gen.S([64, 100]), density=gen.S([None, 0.5, 0.2]))


def r_family(c, rec):
    """the drawn matrix looks like a draw of its family (bounds many standard deviations wide)"""
    p = build(c)
    k, d = c["k"], c["d"]
    M = np.column_stack([vec(p.transform_partial(np.eye(d)[j]), k, "projection") for j in range(d)])
    m, v = M.mean() * math.sqrt(k), M.var() * k
    require(abs(m) < 0.2, f"{c}: entries have mean {m:.3f}/sqrt(components)")
    require(0.6 < v < 1.5, f"{c}: entries have variance {v:.3f}/components")
    if c["kind"] == "sparse":
        dens = 1.0 / math.sqrt(d) if c["density"] is None else c["density"]
        f = np.mean(M != 0)
        require(abs(f - dens) < 0.08, f"{c}: share of nonzero entries {f:.3f}, density {dens:.3f}")
    else:
        require(np.mean(M == 0) < 0.01 and len(np.unique(M)) > 0.9 * M.size, f"{c}: entries are not continuous draws")
    rec.nt()


PROP = Prop("C13", "projectors of 1..300 components on 1..400 features; the map is recovered from unit vectors and every output of any call order is compared with it; "
            "non-trivial: at least two features and two projected instances",
            [Sub("linear", s, run, quick=5600, thorough=112000, shards=7),
             Sub("family", s_family, r_family, quick=80, thorough=1600)],
            ["the hash matrix is recomputed with an independent Murmur3 implementation", "an explicit number of components is given ('auto' needs a batch and is outside the streaming domain)"])
