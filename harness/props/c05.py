from hypothesis import strategies as st

import gen
from core import Prop, Sub, Violation, close, must_raise, num, require
from pysad.evaluation import AUPRMetric, AUROCMetric, PrecisionMetric, RecallMetric
import numpy as np

CLS = {"precision": PrecisionMetric, "recall": RecallMetric, "auroc": AUROCMetric, "aupr": AUPRMetric}


def ref(name, y, p):
    """textbook values; None where undefined"""
    P = sum(1 for a in y if a == 1)
    N = len(y) - P
    if name == "precision":
        tp = sum(1 for a, b in zip(y, p) if a == 1 and b == 1)
        pp = sum(1 for b in p if b == 1)
        return tp / pp if pp else 0.0
    if name == "recall":
        tp = sum(1 for a, b in zip(y, p) if a == 1 and b == 1)
        return tp / P if P else 0.0
    if name == "auroc":
        if not P or not N:
            return None
        pos = np.array([b for a, b in zip(y, p) if a == 1])[:, None]
        neg = np.array([b for a, b in zip(y, p) if a == 0])[None, :]
        return float(np.sum(pos > neg) + 0.5 * np.sum(pos == neg)) / (P * N)
    if not P:
        return None
    ap, tp, prev, n = 0.0, 0, 0.0, 0
    for t in sorted(set(p), reverse=True):
        tp += sum(1 for a, b in zip(y, p) if b == t and a == 1)
        n += sum(1 for b in p if b == t)
        ap += (tp / P - prev) * (tp / n)
        prev = tp / P
    return ap


LT = {"int": int, "np": np.int64, "bool": bool, "float": float, "npbool": np.bool_, "uint8": np.uint8}


def s():
    lab = st.one_of(st.integers(0, 1), st.integers(0, 1), st.just(0), st.just(1))
    score = st.one_of(st.integers(0, 3).map(float), gen.decimal, st.floats(-1e3, 1e3, width=32), st.integers(0, 1).map(float),
                      st.integers(0, 5).map(lambda k: 1.0 + k * 2.0 ** -52), st.integers(0, 5).map(lambda k: 0.3 + k * 1e-13), gen.huge)
    return gen.fd(metric=gen.S(sorted(CLS)),
                  pairs=st.lists(st.tuples(lab, score, st.integers(0, 1), gen.B).map(list), min_size=1, max_size=40),
                  bulk=gen.fd(seed=gen.SEED, n=gen.up(0, 150, 2500), levels=st.integers(2, 40)), lt=gen.S(["int", "int", "int", "np", "bool", "float", "npbool", "uint8"]))


def run(c, rec):
    name = c["metric"]
    m = CLS[name]()
    pairs = [list(p) for p in c["pairs"]]
    rs = np.random.RandomState(c["bulk"]["seed"])
    for _ in range(c["bulk"]["n"]):
        pairs.append([int(rs.rand() < 0.3), float(rs.randint(c["bulk"]["levels"])), int(rs.randint(2)), bool(rs.rand() < min(0.05, 8.0 / c["bulk"]["n"]))])
    Y, P = [], []
    binary = name in ("precision", "recall")
    reads = 0

    def check():
        exp = ref(name, Y, P)
        if exp is None:
            if name == "auroc":
                must_raise(ValueError, m.get, f"auroc with only class {set(Y)} seen")
                rec.label("single class rejected")
            return
        got = num(m.get(), name)
        require(close(got, exp, 1e-9), lambda: f"{name} after {len(Y)} updates: got {got!r}, expected {exp!r}; y={Y[:20]} p={P[:20]}")

    for y, score, b, read in pairs:
        p = b if binary else score
        m.update(LT[c["lt"]](y), LT[c["lt"]](p) if binary else p)
        Y.append(y)
        P.append(p)
        if read:
            check()
            check()
            reads += 1
    check()
    rec.nt(len(set(Y)) == 2 and reads > 0)
    rec.label(name)
    rec.label("ties", len(set(P)) < len(P))


PROP = Prop("C05", "label/prediction sequences with interleaved reads; non-trivial: both classes seen and at least one intermediate read",
            [Sub("history", s, run, quick=7500, thorough=150000, shards=8)],
            ["precision and recall without predicted/actual positives count as 0; area under precision-recall without positives is not judged"])
