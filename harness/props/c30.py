import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import HarnessError, Prop, Sub, require, rng_saved, same_arr
from pysad.transform.ensemble import AverageOfMaximumScoreEnsembler, MaximumOfAverageScoreEnsembler
from pysad.utils import ArrayStreamer, PandasStreamer, fix_seed


# ---- one seeded run of a component: everything it returns
def drive(c):
    comp = zoo.BY[c["comp"]]
    X = zoo.rows(c)
    fix_seed(c["rng"])
    o = zoo.build(c, X)
    out = []
    for i, x in enumerate(X):
        y = i % 2 if comp.supervised else None
        if i + 1 < comp.warm:
            comp.feed(o, x.copy(), y)
        elif c["how"] == "fs":
            out.append(comp.feed_ask(o, x.copy(), y))
        else:
            comp.feed(o, x.copy(), y)
            out.append(comp.ask(o, x.copy()))
            if comp.name != "PerfectModel" and i % 3 == 0:
                out.append(comp.ask(o, X[0].copy()))
    out.append(np.array([np.random.rand(), random.random()]))        # nothing else may have consumed draws, and both generators were set
    return [r.tolist() for r in out]


def churn(k, seed):
    """unrelated activity before a run"""
    if k == "draws":
        np.random.rand(seed % 50)
        random.random()
    elif k == "reseed":
        np.random.seed(seed % 1000)
        random.seed(seed)
    elif k == "fix":
        fix_seed(seed % 1000)
        np.random.randn(3)
    elif k == "gauss":
        np.random.randn(1)                # leaves a cached gaussian behind
        random.gauss(0, 1)


def s_in():
    return zoo.pick(zoo.ALL, how=gen.S(["fs", "split"]), churn=gen.S(["none", "draws", "reseed", "fix", "gauss"]), cs=gen.SEED)


def equal(a, b):
    return len(a) == len(b) and all(same_arr(np.array(x, dtype=float), np.array(y, dtype=float)) for x, y in zip(a, b))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if not same_arr(np.array(x, dtype=float), np.array(y, dtype=float)):
            return f"result {i} is {x} and then {y}" if i < len(a) - 1 else f"the draws after the run are {x} and then {y}"
    return f"{len(a)} and {len(b)} results"


def r_in(c, rec):
    with rng_saved():
        a = drive(c)
        churn(c["churn"], c["cs"])
        if c["churn"] == "draws":
            drive(dict(c, rng=c["cs"] % 1000))           # another object of the same class ran in between
        b = drive(c)
    require(equal(a, b), lambda: f"{c['comp']} {c['cfg']} with seed {c['rng']}: {diff(a, b)}")
    rec.nt(len(a) > 2)
    rec.label(c["comp"])


# ---- the same in a new process: a server started with another hash seed, which forks a fresh copy of itself for every case
CHILD = r"""
import sys
sys.path.insert(0, sys.argv[1])
import boot
boot.install()
import os, json, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
so = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
w = os.fdopen(so, "w")
from props import c30
from core import forked, Violation
w.write("ready\n"); w.flush()
for line in sys.stdin:
    c = json.loads(line)
    try:
        r = forked(lambda: c30.drive(c))
    except Exception as e:
        r = "%s: %s" % (type(e).__name__, e)
    w.write(json.dumps(r) + "\n"); w.flush()
"""
SERVERS = {}


def ask_server(hashseed, case):
    key = (os.getpid(), hashseed)
    if key not in SERVERS:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.Popen([sys.executable, "-c", CHILD, here], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)))
        if p.stdout.readline() != "ready\n":
            raise HarnessError("the second process did not start")
        SERVERS[key] = p
    p = SERVERS[key]
    p.stdin.write(json.dumps(case) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        SERVERS.pop(key)
        raise HarnessError("the second process ended")
    return json.loads(line)


def s_new():
    return zoo.pick([c for c in zoo.ALL if c.name not in ("Inqmad", "OneFitModel")], how=gen.S(["fs", "split"]), hs=gen.S([7, 12345]))


def r_new(c, rec):
    with rng_saved():
        a = drive(c)
    b = ask_server(c["hs"], c)
    require(not isinstance(b, str), lambda: f"{c['comp']} {c['cfg']} fails in a new process: {b}")
    require(equal(a, b), lambda: f"{c['comp']} {c['cfg']} with seed {c['rng']}, here and in a new process: {diff(a, b)}")
    rec.nt(len(a) > 2)
    rec.label(c["comp"])


# ---- the seeding helper and shuffled streamers
def s_seed():
    return gen.fd(seed=st.integers(0, 2 ** 32 - 1), n=gen.up(2, 30, 400, 3000), d=st.integers(1, 3), churn=gen.S(["none", "draws", "reseed", "fix", "gauss"]), cs=gen.SEED, df=gen.B, lab=gen.B)


def r_seed(c, rec):
    import pandas as pd
    n, d = c["n"], c["d"]
    X = np.arange(n * d, dtype=float).reshape(n, d)
    y = np.arange(n) if c["lab"] else None

    def run():
        fix_seed(c["seed"])
        out = [np.random.rand(), np.random.randn(), np.random.randint(10 ** 6), random.random(), random.gauss(0, 1), random.randrange(10 ** 6)]
        s = (PandasStreamer if c["df"] else ArrayStreamer)(shuffle=True)
        src = pd.DataFrame(X) if c["df"] else X
        ys = pd.Series(y) if c["df"] and c["lab"] else y
        for item in (s.iter(src, ys) if c["lab"] else s.iter(src)):
            x, yy = item if c["lab"] else (item, -1)
            out += list(np.asarray(x, dtype=float).reshape(-1)) + [float(yy)]
        out += [np.random.rand(), random.random()]
        return out

    with rng_saved():
        a = run()
        churn(c["churn"], c["cs"])
        b = run()
        fix_seed((c["seed"] + 1) % 2 ** 32)
        other = [np.random.rand(), random.random()]
        np.random.seed(c["seed"] % 2 ** 32)
        random.seed(c["seed"])
    require(a == b, lambda: f"fix_seed({c['seed']}): two runs of draws and a shuffled stream differ: {a[:8]}... and {b[:8]}...")
    fix_seed(c["seed"])
    first = [np.random.rand(), random.random()]
    require(first[0] != other[0] and first[1] != other[1], lambda: f"seeds {c['seed']} and {c['seed'] + 1} give the same draws")
    rec.nt(n > 2)
    rec.label("data frame", c["df"])


# ---- randomly bucketed ensemblers
def s_dyn():
    return gen.fd(kind=gen.S(["aom", "moa"]), method=gen.S(["static", "dynamic"]), boot=gen.B, seed=gen.SEED, n=st.integers(10, 30), k=gen.S([8, 12]))


def r_dyn(c, rec):
    cls = AverageOfMaximumScoreEnsembler if c["kind"] == "aom" else MaximumOfAverageScoreEnsembler
    X = np.random.RandomState(c["seed"]).randn(c["n"], c["k"])

    def run():
        fix_seed(c["seed"])
        return cls(n_buckets=4, method=c["method"], bootstrap_estimators=c["boot"]).fit_transform(X)
    with rng_saved():
        a, b = run(), run()
    require(same_arr(a, b), lambda: f"{cls.__name__} ({c['method']} buckets): two runs after fix_seed({c['seed']}) give {a[:4].tolist()}... and {b[:4].tolist()}...", tag="dynamic-buckets" if c["method"] == "dynamic" else None)
    rec.nt()
    rec.label(c["method"])


PROP = Prop("C30", "a seeded run repeated after other activity, and in a new process; non-trivial: several results compared",
            [Sub("repeated run", s_in, r_in, quick=2400, thorough=48000, shards=5),
             Sub("new process", s_new, r_new, quick=900, thorough=18000, shards=3),
             Sub("seeding helper", s_seed, r_seed, quick=300, thorough=6000),
             Sub("bucket ensemblers", s_dyn, r_dyn, quick=100, thorough=2000,
                 corners=[dict(kind=k, method="dynamic", boot=False, seed=3, n=30, k=12) for k in ("aom", "moa")])],
            ["floating-point results are compared exactly: both runs execute the same operations on the same machine"])
