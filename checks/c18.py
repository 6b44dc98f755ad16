"""C18 moving weighted median."""

import numpy as np

from vf import median
from vf.core import group

from caput.algorithms.median import moving_weighted_median

from .c17 import METHODS, data, layout, weights

RULE = (
    "random one and two dimensional arrays (distinct, repeated, sorted and constant values, zero, dyadic "
    "and arbitrary weights, supported and convertible types, memory layouts), window sizes from one to "
    "beyond the array and all tie methods; every window is compared with the median in rational "
    "arithmetic; non-trivial when a window contains several elements; distinct by data, weights and size"
)
ASSUMPTIONS = ["weights are finite and not negative, data is finite; windows without any weight are not judged"]

DT = [np.float64, np.float64, np.float32, np.intc, np.int64]
ODD = [np.int16, np.uint8, np.float16, np.uint32, np.int8, ">f8", ">i4"]


def arrays(c, shape):
    dt = c.pick(ODD) if c.chance(0.1) else c.pick(DT)
    if dt in ODD:
        # Also numbers that single precision can not tell apart, and fractions
        big = {np.uint32: 2**31 + 5, ">f8": 2**40, ">i4": 2**30, np.int16: 2**14}.get(dt, 0) if c.chance(0.5) else 0
        a = (big + c.rng.integers(0, 20, shape) * (0.25 if np.dtype(dt).kind == "f" else 1)).astype(dt)
    else:
        a = data(c, shape, dt).astype(dt)
    wdt = c.pick(ODD) if c.chance(0.1) else c.pick(DT)
    if wdt in ODD:
        w, exact = (c.rng.integers(0, 5, shape) * (0.25 if np.dtype(wdt).kind == "f" else 1)).astype(wdt), True
    else:
        w, exact = weights(c, shape, wdt)
    return a, w, exact


def judge(c, r, a, w, size, method, exact):
    c.check(isinstance(r, np.ndarray) and r.dtype == np.float64, f"result {type(r)} {r.dtype}")
    c.check(r.shape == a.shape, f"shape {r.shape}, expected {a.shape}")
    slack = 0 if exact else 1e-11
    for idx in np.ndindex(*a.shape):
        sl = tuple(slice(max(i - s // 2, 0), i + s // 2 + 1) for i, s in zip(idx, size))
        x, y = a[sl].ravel().tolist(), w[sl].ravel().tolist()
        if not any(y):
            c.count("empty windows")
            continue
        c.check(
            median.accept(r[idx], x, y, 0.5, method, slack, False),
            f"window at {idx}: {r[idx]!r}, expected {method} of {median.answers(x, y, 0.5, slack)}",
        )
        c.count("windows")


def call(c, al, wl, size, method):
    if method == "split" and c.chance(0.5):
        return moving_weighted_median(al, wl, size)
    return moving_weighted_median(al, wl, size, method) if c.chance(0.5) else moving_weighted_median(al, wl, size, method=method)


def oned(c, n, sizes):
    a, w, exact = arrays(c, (n,))
    method = c.pick(METHODS)
    s = c.pick(sizes)
    al, wl = layout(c, a), layout(c, w)
    if c.chance(0.15):
        al, wl = a.tolist(), w.tolist()
    c.note(a=a, w=w, size=s, method=method, dt=f"{a.dtype} {w.dtype}")
    keep = np.array(al), np.array(wl)
    r = call(c, al, wl, c.pick([s, (s,), [s], np.int64(s)]) if s != 1 else s, method)
    c.check(np.array_equal(keep[0], np.asarray(al)) and np.array_equal(keep[1], np.asarray(wl)), "the input was changed")
    judge(c, np.asarray(r, dtype=np.float64) if s == 1 else r, a, w, (s,), method, exact)
    if n > 1 and s > 1:
        c.nontrivial(a.tobytes(), w.tobytes(), s, method)


@group(quick=6000, thorough=80000)
def line(c):
    """One dimension."""
    oned(c, c.int(0, 14), [1, 3, 3, 5, 7, 9, 11, 21, 31])


@group(quick=200, thorough=3000)
def longline(c):
    """Long windows, in which the tree is rebalanced often."""
    oned(c, c.int(50, 160), [3, 15, 41, 99, 151])


@group(quick=3000, thorough=30000, env={"OMP_NUM_THREADS": "3"})
def plane(c):
    """Two dimensions."""
    big = c.chance(0.1)
    shape = (c.int(0, 25 if big else 7), c.int(0, 25 if big else 7))
    a, w, exact = arrays(c, shape) if min(shape) else (np.zeros(shape), np.zeros(shape), True)
    method = c.pick(METHODS)
    size = (c.pick([1, 3, 3, 5, 7, 11]), c.pick([1, 3, 3, 5, 7, 11]))
    al, wl = layout(c, a), layout(c, w)
    if c.chance(0.1) and a.size:
        al, wl = a.tolist(), w.tolist()
    c.note(a=a, w=w, size=str(size), method=method, dt=f"{a.dtype} {w.dtype}")
    keep = np.array(al), np.array(wl)
    r = call(c, al, wl, size, method)
    c.check(np.array_equal(keep[0], np.asarray(al)) and np.array_equal(keep[1], np.asarray(wl)), "the input was changed")
    judge(c, r, a, w, size, method, exact)
    if a.size > 1 and size != (1, 1):
        c.nontrivial(a.tobytes(), w.tobytes(), size, method)


@group(quick=200, thorough=1500)
def refused(c):
    """Arguments without a meaning."""
    nd = c.int(1, 2)
    shape = (c.int(1, 6),) * nd
    a, w = np.arange(float(np.prod(shape))).reshape(shape), np.ones(shape)
    s = 3 if nd == 1 else (3, 3)
    k = c.pick(["shape", "ndim", "even", "zero", "negative", "complex", "string", "method", "3d", "dims"])
    c.note(kind=k, nd=nd)
    V = (ValueError,)
    f = moving_weighted_median
    if k == "shape":
        c.raises(V, f, a, np.ones((shape[0] + 1, *shape[1:])), s, msg="different shapes")
        c.raises(V, f, np.ones((shape[0] + 1, *shape[1:])), w, s, msg="different shapes")
    elif k == "ndim":
        c.raises(V, f, a, w[None], s, msg="different dimensions")
    elif k == "even":
        c.raises(V, f, a, w, c.pick([2, 4, 10]) if nd == 1 else c.pick([(2, 3), (3, 4), (2, 2)]), msg="even size")
    elif k == "zero":
        c.raises(V, f, a, w, 0 if nd == 1 else (0, 3), msg="size zero")
    elif k == "negative":
        c.raises(V, f, a, w, c.pick([-1, -3, -5]) if nd == 1 else c.pick([(-3, 3), (3, -1), (-1, -1)]), msg="negative size")
    elif k == "complex":
        c.raises(V, f, a.astype(complex), w, s, msg="complex data")
        c.raises(V, f, a, w.astype(complex), s, msg="complex weights")
    elif k == "string":
        c.raises(V, f, a.astype(str), w, s, msg="text data")
        c.raises(V, f, a, w.astype(str), s, msg="text weights")
    elif k == "method":
        c.raises(V, f, a, w, s, c.pick(["", "mean", "Split"]), msg="unknown method")
    elif k == "dims":
        if nd == 1:
            c.raises(V, f, a, w, (3, 3), msg="two sizes for one dimension")
    else:
        c.raises(NotImplementedError, f, np.zeros((2, 2, 2)), np.ones((2, 2, 2)), (3, 3), msg="three dimensions")
    c.nontrivial(k, nd, shape)
