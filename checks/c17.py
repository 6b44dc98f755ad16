"""C17 weighted quantiles."""

import numpy as np

from vf import median
from vf.core import group

from caput.algorithms.median import quantile, weighted_median

RULE = (
    "random arrays of all supported types (distinct, repeated, sorted, constant values; equal, zero, "
    "single, dyadic and arbitrary weights; contiguous or not), quantiles on and off the boundaries, and "
    "all three tie methods; every row is compared with the quantile in rational arithmetic; non-trivial "
    "when there are at least two elements; distinct by data, weights, quantile and method"
)
ASSUMPTIONS = ["weights are finite and not negative, data is finite, and the sum of two floating point data values does not overflow"]

DT = [np.intc, np.int64, np.float32, np.float64]
METHODS = ["split", "lower", "higher"]


def data(c, shape, dt):
    k = c.pick(["wide", "small", "few", "sorted", "reversed", "same", "blocks", "extreme"])
    n = int(np.prod(shape))
    if k == "wide":
        a = c.rng.integers(-(2**28), 2**28, n) if np.dtype(dt).kind == "i" else c.rng.standard_normal(n) * 10.0 ** c.int(-20, 20)
    elif k == "extreme":
        if np.dtype(dt).kind == "i":
            i = np.iinfo(dt)
            pool = np.array([i.min, i.min + 1, i.min + 3, -1, 0, 1, i.max // 2, i.max - 3, i.max - 1, i.max], dt)
            a = pool[c.rng.integers(0, len(pool), n)]
        else:
            a = c.rng.uniform(-0.4, 0.4, n) * float(np.finfo(dt).max)
    elif k == "small":
        a = c.rng.integers(-9, 10, n)
    elif k == "few":
        a = c.rng.integers(0, 3, n)
    elif k == "same":
        a = np.full(n, c.int(-3, 3))
    else:
        a = c.rng.integers(-50, 50, n)
    a = np.asarray(a).astype(dt).reshape(shape)
    if k in ("sorted", "blocks"):
        a.sort(axis=-1)
    if k == "reversed":
        a = np.sort(a, axis=-1)[..., ::-1].copy()
    if k == "blocks":
        a = np.roll(a, c.int(0, shape[-1]), axis=-1)
    return a


def weights(c, shape, dt):
    """Weights, and whether their sums are exact."""
    dt = np.dtype(dt)
    k = c.pick(["ones", "ints", "sparse", "one", "none", "big", "float", "rows", "leading"])
    n = int(np.prod(shape))
    exact = True
    if k == "ones":
        w = np.ones(n)
    elif k == "ints":
        w = c.rng.integers(0, 6, n)
    elif k == "sparse":
        w = c.rng.integers(1, 4, n) * (c.rng.random(n) < 0.3)
    elif k == "one":
        w = np.zeros(n)
        if n:
            w[c.int(0, n - 1)] = 2
    elif k == "none":
        w = np.zeros(n)
    elif k == "big":
        w = c.rng.integers(0, 2**20, n)
    elif k == "float":
        if dt.kind == "f":
            if c.chance(0.5):
                w, exact = c.rng.random(n) * 10.0 ** c.int(-30, 30), False
            else:
                w = c.rng.integers(0, 16, n) / 8 * 2.0 ** c.int(-60, 60)
        else:
            w = c.rng.integers(0, 16, n)
    else:
        w = c.rng.integers(1, 5, n)
    w = np.asarray(w).astype(dt).reshape(shape)
    if k == "rows" and len(shape) > 1 and shape[0]:
        w[c.int(0, shape[0] - 1)] = 0
    if k == "leading":
        w[..., : c.int(0, shape[-1])] = 0
    return w, exact


def layout(c, a):
    """The same values in another memory layout."""
    k = c.pick(["c", "c", "f", "strided", "reversed", "swapped"])
    if k == "f":
        return np.asfortranarray(a)
    if k == "strided":
        b = np.zeros((*a.shape[:-1], a.shape[-1] * 2 + 1), a.dtype)
        b[..., 1::2] = a
        return b[..., 1::2]
    if k == "reversed":
        return a[..., ::-1].copy()[..., ::-1]
    if k == "swapped" and a.ndim > 1:
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, -1)), 0, -1)
    return a


def pick_q(c, w):
    """Quantiles which often fall on a boundary."""
    if c.chance(0.3):
        return 0.5, True
    if c.chance(0.25):
        return c.pick([0, 1, 0.0, 1.0, 0.25, 0.75]), True
    if c.chance(0.5):
        return c.int(0, 64) / 64, True
    return float(c.rng.random()), False


def case(c, maxlen):
    nd = c.pick([1, 1, 2, 2, 3])
    shape = tuple(c.int(0, 4) for _ in range(nd - 1)) + (c.int(1, maxlen),)
    adt, wdt = c.pick(DT), c.pick(DT)
    a = data(c, shape, adt)
    w, exact = weights(c, shape, wdt)
    q, dyadic = pick_q(c, w)
    if shape[-1] > 1 and c.chance(0.15):
        # Heavy weights which balance exactly or almost
        dt = np.dtype(wdt)
        top = 2 ** {"intc": 26, "int64": 44, "float32": 22, "float64": 44}.get(dt.name, 26)
        h = shape[-1] // 2
        for i in np.ndindex(shape[:-1]):
            x = c.rng.integers(1, top, h)
            y = np.concatenate([x, np.zeros(shape[-1] - 2 * h, x.dtype), x[c.rng.permutation(h)]])
            y[c.int(0, len(y) - 1)] += c.pick([0, 0, 1])
            w[i] = np.empty_like(w[i])
            w[i][np.argsort(a[i], kind="stable")] = y
        q, exact, dyadic = 0.5, bool(w.size == 0 or int(np.max(w.astype(object).sum(-1))) < 2**53), True
    return a, w, q, exact, dyadic


def run(c, maxlen):
    a, w, q, exact, dyadic = case(c, maxlen)
    method = c.pick(METHODS)
    al, wl = layout(c, a), layout(c, w)
    if a.ndim == 1 and c.chance(0.15):
        al, wl = a.tolist(), w.tolist()
        if a.dtype in (np.intc, np.float32):
            a = np.array(al)
        w = np.array(wl)
    c.note(a=a, w=w, q=q, method=method, dt=f"{a.dtype} {w.dtype}", strides=str(getattr(al, "strides", None)))
    keep = (np.array(al), np.array(wl))
    if q == 0.5 and c.chance(0.5):
        r = weighted_median(al, wl, method) if c.chance(0.5) else weighted_median(al, wl, method=method)
        if method == "split" and c.chance(0.5):
            r = weighted_median(al, wl)
    else:
        r = quantile(al, wl, q, method)
        if method == "split" and c.chance(0.5):
            r = quantile(al, wl, q)
    c.check(np.array_equal(keep[0], np.asarray(al)) and np.array_equal(keep[1], np.asarray(wl)), "the input was changed")
    c.check(np.shape(r) == a.shape[:-1], f"shape {np.shape(r)} for {a.shape}")
    c.check(np.asarray(r).dtype == a.dtype, f"type {np.asarray(r).dtype} for {a.dtype}")
    slack = 0 if exact and dyadic else 1e-11
    rr = np.asarray(r).reshape(-1)
    for i, (x, y) in enumerate(zip(a.reshape(-1, a.shape[-1]), w.reshape(-1, a.shape[-1]))):
        want = median.answers(x.tolist(), y.tolist(), q, slack)
        c.check(
            median.accept(rr[i], x.tolist(), y.tolist(), q, method, slack, a.dtype.kind == "i"),
            f"row {i}: {rr[i]!r}, expected {method} of {want}",
        )
        c.count("rows")
        if len(want) == 1 and len(set(next(iter(want)))) == 2:
            c.count("ties")
    if a.shape[-1] > 1 and a.size:
        c.nontrivial(a.tobytes(), w.tobytes(), q, method)


@group(quick=12000, thorough=200000)
def small(c):
    """Short rows, where every element matters."""
    run(c, 9)


@group(quick=1000, thorough=15000)
def long(c):
    """Long rows."""
    run(c, c.pick([20, 70, 300]))


@group(quick=200, thorough=1500)
def refused(c):
    """Arguments without a meaning."""
    n = c.int(1, 6)
    a, w = np.arange(n, dtype=float), np.ones(n)
    k = c.pick(["shape", "shape2", "q", "method", "dtype", "wdtype"])
    c.note(kind=k)
    if k == "shape":
        c.raises(ValueError, quantile, a, np.ones(n + 1), 0.5, msg="different lengths")
    elif k == "shape2":
        c.raises(ValueError, quantile, np.zeros((2, n)), np.ones((n, 2)) if n != 2 else np.ones((1, 2)), 0.5, msg="different shapes")
    elif k == "q":
        c.raises(ValueError, quantile, a, w, c.pick([-0.1, 1.0000001, 2, -1e-300, np.inf, -np.inf, np.nan]), msg="quantile outside of 0 to 1")
    elif k == "method":
        c.raises(ValueError, quantile, a, w, 0.5, c.pick(["", "nearest", "Lower"]), msg="unknown method")
        c.raises(ValueError, weighted_median, a, w, "midpoint", msg="unknown method")
    elif k == "dtype":
        c.raises(TypeError, quantile, a.astype(c.pick([complex, np.int16, np.float16])), w, 0.5, msg="data type")
    else:
        c.raises(TypeError, quantile, a, w.astype(c.pick([complex, np.int16, np.float16])), 0.5, msg="weight type")
    c.nontrivial(k, n)
