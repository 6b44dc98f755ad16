"""C21 native code: no invalid memory accesses, and results independent of threads."""

import concurrent.futures
import contextlib
import ctypes
import warnings

import numpy as np

from vf.core import Violation, group

from caput.algorithms import invert_no_zero
from caput.algorithms.median import moving_weighted_median, quantile, weighted_median
from caput.astro.coordinates import spherical as sp
from caput.util import truncate

from . import c17, c18, c19, c20, c25

RULE = (
    "every native routine, built with AddressSanitizer and UndefinedBehaviorSanitizer, called with the "
    "workloads of the other checks and with hostile arguments (empty, single, huge windows, mismatched "
    "and strided arrays, extreme values, wrong types); and built as released, called with one to eight "
    "OpenMP threads and from several Python threads at once; a sanitizer report, a crash or a difference "
    "between thread counts is a violation; distinct by the arguments"
)
ASSUMPTIONS = [
    "weights are not negative or NaN (documented as not checked)",
    "reads of uninitialised memory are seen only through the results",
]

GOMP = None


def threads(n):
    global GOMP
    if GOMP is None:
        GOMP = ctypes.CDLL("libgomp.so.1")
    GOMP.omp_set_num_threads(n)


@contextlib.contextmanager
def only_memory():
    """The values are judged by other checks."""
    try:
        yield
    except Violation:
        pass
    except Exception:  # noqa: BLE001
        pass


ASAN = {"native": "asan", "env": {"OMP_NUM_THREADS": "3"}}


@group(quick=700, thorough=15000, **ASAN)
def quantiles(c):
    """Weighted quantiles under the sanitizers."""
    with only_memory():
        c17.run(c, c.pick([1, 2, 3, 9, 50]))
    c.evals += 1


@group(quick=500, thorough=8000, **ASAN)
def medians(c):
    """Moving medians under the sanitizers."""
    with only_memory():
        c.pick([c18.line, c18.plane, c18.plane])(c)
    c.evals += 1


@group(quick=400, thorough=6000, **ASAN)
def truncation(c):
    """Bit truncation under the sanitizers."""
    with only_memory():
        c.pick([c19.scalar, c19.integer, c19.weights, c19.relative, c19.rows])(c)
    c.evals += 1


@group(quick=400, thorough=6000, **ASAN)
def inverses(c):
    """invert_no_zero under the sanitizers."""
    with only_memory():
        c.pick([c20.arrays, c20.others])(c)
    c.evals += 1


@group(quick=400, thorough=6000, **ASAN)
def spherical(c):
    """Spherical coordinates under the sanitizers."""
    with only_memory():
        c.pick([c25.vectors, c25.norms])(c)
    c.evals += 1


def shape(c):
    return tuple(c.pick([0, 1, 1, 2, 3, 5, 8]) for _ in range(c.pick([0, 1, 1, 2, 2, 3])))


def odd(c, sh):
    """Any array at all, with finite values that are not negative."""
    a = c.rng.integers(0, 9, sh)
    dt = c.pick([np.float64, np.float64, np.float32, np.int64, np.intc, np.complex128, np.int8, np.float16, bool, object])
    a = a.astype(dt)
    k = c.pick(["c", "f", "rev", "bcast", "list", "slice"])
    if k == "f":
        return np.asfortranarray(a)
    if k == "rev" and a.ndim:
        return a[::-1]
    if k == "bcast" and a.ndim:
        return np.broadcast_to(a[:1], a.shape) if len(a) else a
    if k == "list":
        return a.tolist()
    if k == "slice" and a.ndim:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    return a


@group(quick=2500, thorough=40000, **ASAN)
def hostile(c):
    """Arguments which do not fit each other."""
    sh = shape(c)
    a = odd(c, sh)
    b = odd(c, sh if c.chance(0.6) else shape(c))
    e = odd(c, shape(c))
    k = c.int(0, 11)
    q = c.pick([0, 1, 0.5, 0.3, -0.1, 1.1, np.nan, np.inf])
    m = c.pick(["split", "lower", "higher", "x"])
    size = c.pick([0, 1, 3, 5, 101, -1, -3, 2, (1, 1), (3, 3), (1, 3), (3, 1), (-1, 3), (3, -3), (101, 101), (3,), (3, 3, 3), (), 3.0, (0, 3)])
    pr = c.pick([0.0, 0.1, 1e-3, 1e30, -1.0, np.inf, 1e-40])
    c.note(call=k, a=repr(a), b=repr(b), q=q, m=m, size=str(size), prec=pr)
    calls = [
        lambda: quantile(a, b, q, m),
        lambda: weighted_median(a, b, m),
        lambda: moving_weighted_median(a, b, size, m),
        lambda: moving_weighted_median(a, b, size),
        lambda: truncate.bit_truncate_weights(np.array(a), np.array(b), pr),
        lambda: truncate.bit_truncate_relative(np.array(a), pr),
        lambda: truncate.bit_truncate_max_complex(np.array(a), pr, pr),
        lambda: invert_no_zero(a, out=np.array(b)) if c.chance(0.5) else invert_no_zero(a),
        lambda: sp.sph_to_cart(np.array(a)),
        lambda: sp.norm_vec2(np.array(a)),
        lambda: sp.cosine_rule(np.array(a), np.array(b), np.array(e)),
        lambda: sp.thetaphi_plane_cart(np.array(a)),
    ]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            calls[k]()
            c.count("accepted")
        except Exception as err:  # noqa: BLE001
            c.count("refused " + type(err).__name__)
    c.evals += 1
    c.nontrivial(k, repr(a), repr(b), q, m, size, pr)


def kernel(c):
    """A call whose result may not depend on the number of threads."""
    n = c.pick([1, 2, 7, 33, 500, 4000])
    k = c.pick(["median", "weights", "relative", "rows", "invert", "sph", "plane", "norm", "cosine"])
    r = c.rng
    if k == "median":
        sh = (c.int(1, 12), c.int(1, 40))
        d, w = r.integers(0, 50, sh).astype(float), r.integers(0, 4, sh).astype(float)
        size = (c.pick([1, 3, 5, 9]), c.pick([1, 3, 5]))
        m = c.pick(["split", "lower", "higher"])
        return k, (d, w, size, m), lambda: moving_weighted_median(d, w, size, m)
    if k in ("weights", "relative"):
        dt = c.pick([np.float32, np.float64])
        v, w = r.standard_normal(n).astype(dt), (r.random(n) * r.integers(0, 2, n)).astype(dt)
        if k == "weights":
            return k, (v, w), lambda: truncate.bit_truncate_weights(v.copy(), w, 1e-3)
        return k, (v,), lambda: truncate.bit_truncate_relative(v.copy(), 1e-3)
    if k == "rows":
        z = r.standard_normal((c.int(1, 60), c.int(1, 40))) * (1 + 1j) * 10.0 ** r.integers(-5, 5, (1, 1))
        z = z * 2.0 ** r.integers(-9, 9, z.shape)
        return k, (z,), lambda: truncate.bit_truncate_max_complex(z.copy(), 1e-3, 1e-4)
    if k == "invert":
        x = (r.standard_normal(n) * r.integers(0, 2, n)).astype(c.pick(c20.DT))
        return k, (x,), lambda: invert_no_zero(x)
    if k == "sph":
        s = c25.sph(c, (n,), c.chance(0.5))
        return k, (s,), lambda: sp.sph_to_cart(s)
    if k == "plane":
        s = c25.sph(c, (n,), 0)
        return k, (s,), lambda: sp.thetaphi_plane_cart(s)
    if k == "norm":
        v = r.standard_normal((n, 2))

        def norm():
            u = v.copy()
            sp.norm_vec2(u)
            return u

        return k, (v,), norm
    mu, x1, x2 = r.uniform(-1, 1, c.int(1, 40)), r.random(c.int(1, 9)), r.random(c.int(1, 9))
    return k, (mu, x1, x2), lambda: sp.cosine_rule(mu, x1, x2)


@group(quick=700, thorough=10000, native="opt", env={"OMP_NUM_THREADS": "8"}, weight=4)
def threadcount(c):
    """The same result for any number of threads."""
    k, args, f = kernel(c)
    c.note(kernel=k, args=args)
    threads(1)
    want = f().tobytes()
    for n in (2, 3, 8):
        threads(n)
        for _ in range(2):
            c.check(f().tobytes() == want, f"{k} with {n} threads differs from one thread")
    c.count(k)
    c.nontrivial(k, repr(args))


@group(quick=120, thorough=1500, native="opt", env={"OMP_NUM_THREADS": "3"}, weight=4)
def concurrent_calls(c):
    """Calls from several Python threads do not affect each other."""
    ks = [kernel(c) for _ in range(4)]
    c.note(kernels=str([k for k, _, _ in ks]))
    want = [f().tobytes() for _, _, f in ks]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for _ in range(3):
            got = list(ex.map(lambda t: t[2]().tobytes(), ks))
            for (k, _, _), g, w in zip(ks, got, want):
                c.check(g == w, f"{k} called from several threads differs")
    c.nontrivial(repr([a for _, a, _ in ks]))
