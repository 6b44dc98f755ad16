"""Case/monitor API used by the checks.

A check module (checks/cNN.py) declares *groups*; a group is a function which runs
one generated case against the real code and asserts the oracle through the `Case`
object.  All random choices come from the case's own generator, which is derived from
(VERIF_SEED, check, group, communicator size, index), so any case can be replayed alone
and every MPI rank generates the same case.
"""

import hashlib
import json
import os
import re
import zlib

import numpy as np


class Violation(AssertionError):
    """The observed behaviour refutes the property."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    """The monitor could not decide (harness or environment trouble)."""


class Group:
    def __init__(self, fn, quick, thorough, mpi, env, native, weight, doc, shards, turn):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.mpi = tuple(mpi) if mpi else None
        self.env = dict(env or {})
        self.native = native
        self.weight = weight
        self.doc = doc or (fn.__doc__ or "").strip().split("\n")[0]
        self.shards = shards
        self.turn = turn


def group(
    quick, thorough=None, mpi=None, env=None, native="fast", weight=1, doc=None, shards=None, turn=True
):
    """Declare a group of cases; `mpi` lists communicator sizes to run under mpirun.

    Every fourth case is given a communicator with the ranks in reverse order, unless `turn` is off.
    """

    def deco(fn):
        g = Group(fn, quick, thorough or quick * 10, mpi, env, native, weight, doc, shards, turn)
        fn._vf_group = g
        return fn

    return deco


def groups_of(module):
    gs = [f._vf_group for f in vars(module).values() if hasattr(f, "_vf_group")]
    return {g.name: g for g in gs}


def case_rng(seed, check, gname, size, idx):
    tag = zlib.crc32(f"{check}/{gname}".encode())
    return np.random.default_rng([int(seed) & 0xFFFFFFFF, tag, int(size), int(idx)])


def _short(o, n=400):
    s = repr(o)
    s = re.sub(r"\s+", " ", s)
    return s if len(s) <= n else s[: n - 3] + "..."


class Case:
    """One case: its generator, its scratch directory, its oracle and its counters."""

    def __init__(self, rng, idx, tmp, comm=None, tier="quick"):
        self.rng = rng
        self.idx = idx
        self.tmp = tmp
        self.comm = comm
        self.rank = comm.rank if comm is not None else 0
        self.size = comm.size if comm is not None else 1
        self.tier = tier
        self.desc = {}
        self.events = {}
        self.evals = 0
        self._key = None

    # ---- description and coverage
    def note(self, **kw):
        for k, v in kw.items():
            self.desc[k] = v if isinstance(v, (int, str, bool, type(None))) else _short(v)

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def nontrivial(self, *key):
        """Declare this case non-trivial, and what makes it distinct."""
        self._key = hashlib.sha1(repr(key).encode()).hexdigest()[:16]

    # ---- oracle
    def check(self, cond, msg="", key=None):
        self.evals += 1
        if not cond:
            raise Violation(str(msg), key)

    def fail(self, msg, key=None):
        raise Violation(str(msg), key)

    def same(self, got, want, msg="", key=None, dtype=True):
        """Exact equality of arrays/scalars: shape, dtype and every element (NaN=NaN)."""
        self.evals += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape} != expected {w.shape}", key)
        if dtype and g.dtype != w.dtype:
            raise Violation(f"{msg}: dtype {g.dtype} != expected {w.dtype}", key)
        if not array_same(g, w):
            raise Violation(
                f"{msg}: values differ; got {_short(g, 300)} expected {_short(w, 300)}", key
            )

    def close(self, got, want, tol, msg="", key=None):
        self.evals += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape} != expected {w.shape}", key)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - w) <= tol) | (g == w) | ((g != g) & (w != w)))
        if bad.any():
            i = np.argwhere(np.atleast_1d(bad))[0]
            raise Violation(
                f"{msg}: |got-expected| > tol at {tuple(i)}: got {_short(g, 200)} "
                f"expected {_short(w, 200)}",
                key,
            )

    def raises(self, exc, fn, *a, msg="", key=None, **kw):
        """The call must raise one of `exc`; returns the exception."""
        self.evals += 1
        try:
            r = fn(*a, **kw)
        except exc as e:
            return e
        raise Violation(f"{msg}: expected {exc} but the call returned {_short(r)}", key)

    # ---- small generators
    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """Integer in [lo, hi] inclusive."""
        return int(self.rng.integers(lo, hi + 1))


def array_same(g, w):
    if g.dtype.names or w.dtype.names:
        if g.dtype.names != w.dtype.names:
            return False
        return all(array_same(g[n], w[n]) for n in g.dtype.names)
    if g.dtype.kind in "fc" and w.dtype.kind in "fc":
        return bool(((g == w) | ((g != g) & (w != w))).all())
    try:
        return bool(np.array_equal(g, w))
    except Exception:  # noqa: BLE001
        return g.tolist() == w.tolist()


def rand_array(rng, shape, dtype):
    """Random content in which (almost) every element is distinguishable."""
    dtype = np.dtype(dtype)
    n = int(np.prod(shape)) if len(shape) else 1
    k = dtype.kind
    if k == "f":
        a = rng.standard_normal(n)
    elif k == "c":
        a = rng.standard_normal(n) + 1j * rng.standard_normal(n)
    elif k in "iu":
        info = np.iinfo(dtype)
        a = rng.integers(max(info.min, -(2**40)), min(info.max, 2**40), n, endpoint=True)
    elif k == "b":
        a = rng.integers(0, 2, n)
    elif k == "U":
        w = dtype.itemsize // 4
        a = [
            "".join(chr(c) for c in rng.integers(97, 123, rng.integers(0, w + 1)))
            for _ in range(n)
        ]
    elif k == "S":
        w = dtype.itemsize
        a = [
            bytes(rng.integers(97, 123, rng.integers(0, w + 1)).astype(np.uint8))
            for _ in range(n)
        ]
    elif dtype.names:
        a = np.zeros(n, dtype)
        for nm in dtype.names:
            sub = dtype[nm]
            a[nm] = rand_array(rng, (n, *sub.shape), sub.base)
        return a.reshape(shape)
    else:
        raise ValueError(dtype)
    if n == 0:
        return np.zeros(shape, dtype)
    return np.asarray(a).astype(dtype).reshape(shape)


def jdump(obj, path):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.replace(tmp, path)


def fast_sleep(cap=0.01):
    """Cap time.sleep: polling loops in the code under test only cost wall time here."""
    import time

    if not hasattr(time, "_vf_sleep"):
        time._vf_sleep = real = time.sleep
        time.sleep = lambda s: real(min(s, cap))
