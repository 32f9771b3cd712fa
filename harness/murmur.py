"""MurmurHash3 x86 32-bit, from its public specification."""


def _rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & 0xFFFFFFFF


def murmur3_32(data, seed=0):
    if isinstance(data, str):
        data = data.encode("utf-8")
    c1, c2 = 0xCC9E2D51, 0x1B873593
    h = seed & 0xFFFFFFFF
    n = len(data) // 4
    for i in range(n):
        k = int.from_bytes(data[4 * i:4 * i + 4], "little")
        k = (k * c1) & 0xFFFFFFFF
        k = (_rotl(k, 15) * c2) & 0xFFFFFFFF
        h = (_rotl(h ^ k, 13) * 5 + 0xE6546B64) & 0xFFFFFFFF
    tail = data[4 * n:]
    if tail:
        k = int.from_bytes(tail, "little")
        k = (k * c1) & 0xFFFFFFFF
        k = (_rotl(k, 15) * c2) & 0xFFFFFFFF
        h ^= k
    h ^= len(data)
    h ^= h >> 16
    h = (h * 0x85EBCA6B) & 0xFFFFFFFF
    h ^= h >> 13
    h = (h * 0xC2B2AE35) & 0xFFFFFFFF
    h ^= h >> 16
    return h


_cache = {}


def streamhash_matrix(components, features, density):
    """the components x features matrix of the hash projection, by its definition"""
    import numpy as np
    c = (1.0 / density) ** 0.5 / components ** 0.5
    R = np.zeros((components, features))
    for k in range(components):
        for i in range(features):
            key = (k, i)
            if key not in _cache:
                _cache[key] = murmur3_32(str(i), k) / (2.0 ** 32 - 1)
            h = _cache[key]
            R[k, i] = -c if h <= density / 2.0 else c if h <= density else 0.0
    return R
