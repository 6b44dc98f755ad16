"""Reference for weighted quantiles, in exact rational arithmetic."""

from fractions import Fraction

import numpy as np


def bounds(x, w, q):
    """The (lower, higher) candidates of the q-quantile; w all zero means uniform."""
    pos = [(a, Fraction(b)) for a, b in zip(x, w) if b > 0]
    if not pos:
        pos = [(a, Fraction(1)) for a in x]
    pos.sort(key=lambda t: t[0])
    total = sum(b for _, b in pos)
    qs = Fraction(q) * total
    acc = Fraction(0)
    for i, (a, b) in enumerate(pos):
        acc += b
        if acc == qs and i + 1 < len(pos):
            return a, pos[i + 1][0]
        if acc >= qs:
            return a, a
    raise AssertionError("unreachable")


def answers(x, w, q, slack=0):
    """All (lower, higher) pairs for quantiles within a relative slack of the target."""
    out = {bounds(x, w, q)}
    if slack:
        f = Fraction(q)
        d = Fraction(slack)
        out |= {bounds(x, w, min(max(f + s * d, Fraction(0)), Fraction(1))) for s in (-1, 1)}
    return out


def pick(lo, hi, method):
    if method == "lower":
        return lo
    if method == "higher":
        return hi
    return None


def accept(got, x, w, q, method, slack, integer):
    """Whether `got` is the documented value."""
    for lo, hi in answers(x, w, q, slack):
        if method == "lower" or lo == hi:
            ok = got == lo
        elif method == "higher":
            ok = got == hi
        else:
            mean = (Fraction(lo) + Fraction(hi)) / 2
            if integer:
                ok = abs(Fraction(int(got)) - mean) < 1
            else:
                tol = 1e-6 if getattr(got, "dtype", None) == np.float32 else 1e-14
                ok = abs(Fraction(float(got)) - mean) <= Fraction(tol) * (abs(Fraction(lo)) + abs(Fraction(hi)))
        if ok:
            return True
    return False
