"""Shared types: violations, recorders, value guards, random-state control."""
import contextlib
import hashlib
import io
import json
import os
import pickle
import random
import signal
import sys
import traceback
import warnings

import numpy as np

import boot


class Violation(Exception):
    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class HarnessError(Exception):
    pass


class NoTermination(BaseException):
    pass


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.nontrivial = False
        self.labels = {}
        self.known = {}

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1


class Sub:
    """One generated check of a property.

    strategy: () -> hypothesis strategy of JSON-serialisable cases
    run: (case, rec) -> None, raises Violation
    """

    def __init__(self, name, strategy, run, quick=200, thorough=4000, corners=(), shards=1, rule=""):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.corners = list(corners)
        self.shards = shards
        self.rule = rule


class Prop:
    def __init__(self, id, rule, subs, assumptions=()):
        self.id, self.rule, self.subs, self.assumptions = id, rule, subs, list(assumptions)


def require(cond, msg, tag=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, tag)


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()


def num(x, what="result"):
    """x as one python float; anything else is a violation."""
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation(f"{what} is not numeric: {type(x).__name__} ({e})")
    if a.dtype.kind not in "fiub":
        raise Violation(f"{what} is not numeric: {type(x).__name__} {str(x)[:80]}")
    if a.size != 1:
        raise Violation(f"{what} is not a single number: shape {a.shape}")
    return float(a.reshape(-1)[0])


def vec(x, n, what="result"):
    """x as a 1-d float array of length n."""
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation(f"{what} is not an array: {type(x).__name__} ({e})")
    if a.dtype.kind not in "fiub":
        raise Violation(f"{what} is not numeric: {type(x).__name__}")
    if a.shape != (n,):
        raise Violation(f"{what} has shape {a.shape}, expected ({n},)")
    return a.astype(np.float64)


def mat(x, n, d, what="result"):
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation(f"{what} is not an array: {type(x).__name__} ({e})")
    if a.dtype.kind not in "fiub":
        raise Violation(f"{what} is not numeric: {type(x).__name__}")
    if a.shape != (n, d):
        raise Violation(f"{what} has shape {a.shape}, expected ({n}, {d})")
    return a.astype(np.float64)


def close(a, b, tol):
    """both nan, both the same infinity, or |a-b| <= tol"""
    if a == b:
        return True
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return False
    return abs(a - b) <= tol


def same(a, b):
    """exact equality with nan == nan"""
    return a == b or (a != a and b != b)


def same_arr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def must_raise(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: expected {exc}, got {type(e).__name__}: {e}")
    raise Violation(f"{what}: no error raised")


# ---------------------------------------------------------------- random state
class RngState:
    """A private copy of the two global generators (python's and numpy's)."""

    def __init__(self, seed):
        self.np = np.random.RandomState(seed % (2 ** 32)).get_state()
        self.py = random.Random(seed).getstate()

    @contextlib.contextmanager
    def active(self):
        o_np, o_py = np.random.get_state(), random.getstate()
        np.random.set_state(self.np)
        random.setstate(self.py)
        try:
            yield
        finally:
            self.np, self.py = np.random.get_state(), random.getstate()
            np.random.set_state(o_np)
            random.setstate(o_py)


@contextlib.contextmanager
def rng_saved():
    o_np, o_py = np.random.get_state(), random.getstate()
    try:
        yield
    finally:
        np.random.set_state(o_np)
        random.setstate(o_py)


def seed_all(n):
    np.random.seed(n % (2 ** 32))
    random.seed(n)


# ---------------------------------------------------------------- isolation
def forked(fn):
    """fn() in a forked copy of this process: whatever it leaves behind in classes and modules is gone afterwards"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)      # timers are not inherited
            try:
                out = ("ok", fn())
            except Violation as v:
                out = ("violation", (str(v), v.tag))
            except NoTermination:
                out = ("violation", (f"no result within {CPU_LIMIT:.0f} s of CPU time", None))
            except Exception as e:
                fr = _sut_frames(sys.exc_info()[2])
                if fr:
                    out = ("violation", (f"unexpected {type(e).__name__}: {str(e)[:300]} [{' <- '.join(reversed(fr[-3:]))}]", None))
                else:
                    out = ("error", "".join(traceback.format_exception(e))[-3000:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("forked run ended without a result")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(*val)
    if kind == "error":
        raise HarnessError(val)
    return val


# ---------------------------------------------------------------- running one case
CPU_LIMIT = 150.0


def _alarm(signum, frame):
    raise NoTermination()


def _sut_frames(tb):
    out = []
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(boot.REPO + "/pysad/"):
            out.append(f"{fr.filename[len(boot.REPO) + 1:]}:{fr.lineno} in {fr.name}")
    return out


def run_case(sub, case):
    """-> (rec, None) or (rec, (message, tag)). Raises HarnessError for faults of the harness."""
    rec = Rec()
    seed_all(int(case_key(case)[:8], 16))
    buf = io.StringIO()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(buf):
            warnings.simplefilter("ignore")
            sub.run(case, rec)
        return rec, None
    except Violation as v:
        return rec, (str(v), v.tag)
    except NoTermination:
        return rec, (f"no result within {CPU_LIMIT:.0f} s of CPU time", None)
    except Exception as e:
        fr = _sut_frames(sys.exc_info()[2])
        if fr:
            return rec, (f"unexpected {type(e).__name__}: {str(e)[:300]} [{' <- '.join(reversed(fr[-3:]))}]", None)
        raise HarnessError("".join(traceback.format_exception(e))[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
