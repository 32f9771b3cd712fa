"""Reference statistics over explicit value lists, with sound round-off allowances."""
from fractions import Fraction
import math

EPS = 1e-12


class Hist:
    """Everything ever pushed through an accumulator: bounds its accumulated round-off."""

    def __init__(self):
        self.s1 = 0.0
        self.s2 = 0.0

    def add(self, v):
        self.s1 += abs(v)
        self.s2 += v * v


def fsum(vals):
    return float(sum((Fraction(v) for v in vals), Fraction(0)))


def mean(vals):
    return float(sum((Fraction(v) for v in vals), Fraction(0)) / len(vals))


def pvar(vals):
    n = len(vals)
    f = [Fraction(v) for v in vals]
    m = sum(f, Fraction(0)) / n
    return float(sum(((x - m) ** 2 for x in f), Fraction(0)) / n)


def fsumsq(vals):
    return float(sum((Fraction(v) ** 2 for v in vals), Fraction(0)))


def median(vals):
    s = sorted(vals)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def tol_sum(h):
    return EPS * h.s1


def tol_sq(h):
    return EPS * h.s2


def tol_mean(h, n):
    return EPS * h.s1 / n


def tol_var(h, n):
    return 4 * EPS * (h.s2 / n + (h.s1 / n) ** 2)


STATS = {
    "count": lambda v: float(len(v)),
    "sum": fsum,
    "sumsq": fsumsq,
    "avg": mean,
    "var": pvar,
    "min": lambda v: min(v) if v else math.inf,
    "max": lambda v: max(v) if v else -math.inf,
    "median": median,
}
EMPTY_OK = {"count", "sum", "sumsq", "min", "max"}


def tol(name, h, n):
    if name in ("count", "min", "max"):
        return 0.0
    if name == "sum":
        return tol_sum(h)
    if name == "sumsq":
        return tol_sq(h)
    if name == "avg":
        return tol_mean(h, max(n, 1))
    if name == "var":
        return tol_var(h, max(n, 1))
    if name == "median":
        return EPS * h.s1
    raise KeyError(name)
