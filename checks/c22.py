"""C22 multithreaded random numbers."""

import concurrent.futures
import logging
import os
import re
import sys
import threading

import numpy as np

import yaml

from vf import sub
from vf.core import group

from caput import pipeline
from caput.algorithms.random import MultithreadedRNG, default_rng
from caput.pipeline import Manager, Task, exceptions
from caput.pipeline.tasklib.random import RandomTask

RULE = (
    "random seeds, thread counts, bit generators and sequences of calls (distribution, parameters given "
    "by position or name, sizes around the size where threads are used, types, output arrays); every "
    "sample is checked for being complete, in range, free of repeats and distributed as asked, the whole "
    "sequence for being reproducible under another thread schedule; non-trivial when threads were used; "
    "distinct by the sequence of calls"
)
ASSUMPTIONS = ["statistical limits are at least 6.5 standard deviations, and chosen seeds are fixed by VERIF_SEED"]

BIG = 1000
METHODS = ["random", "integers", "uniform", "normal", "standard_normal", "poisson", "power"]
BITGEN = [None, np.random.SFC64, np.random.PCG64, np.random.Philox, np.random.MT19937]


def size(c, big=None):
    n = c.int(BIG, BIG + 30) if c.chance(0.4) else c.int(BIG, 9000)
    if not (c.chance(0.75) if big is None else big):
        n = c.pick([0, 1, 7, 500, 999])
        sz = c.pick([n, (n,), np.int64(n), (n // 3, 3), [2, n // 2]])
        return sz, int(np.prod(sz))
    k = c.int(0, 5)
    if k == 0 and n > 1:
        b = c.int(2, 9)
        a = -(-n // b)
        return (a, b), a * b
    if k == 1:
        return (n,), n
    if k == 2 and n > 6:
        return [2, -(-n // 6), 3], 6 * -(-n // 6)
    if k == 3:
        return np.int64(n), n
    return n, n


def spec(c, big=None):
    """One call: method, positional and named arguments, and what to expect."""
    m = c.pick(METHODS)
    sz, n = size(c, big)
    shape = tuple(np.atleast_1d(sz)) if n or np.ndim(sz) else (0,)
    s = {"method": m, "n": n, "shape": shape, "dtype": np.dtype(float), "out": False}
    if m in ("random", "standard_normal"):
        par, rest = [], []
        dt = c.pick([None, np.float32, np.float64, "f4", float])
        s["out"] = c.chance(0.4)
        if s["out"]:
            rest = [("size", None if c.chance(0.7) else shape), ("dtype", dt or np.float64)]
        else:
            rest = [("size", sz)]
            if dt is not None:
                rest.append(("dtype", dt))
        s["dtype"] = np.dtype(dt or float)
        s["law"] = (0.5, 12**-0.5, 0.0, 1.0) if m == "random" else (0.0, 1.0, -7.5, 7.5)
    elif m == "integers":
        lo, hi = c.pick([(0, 10), (-5, 5), (3, 4), (0, 2), (100, 120), (0, 127), (-100, 100)])
        end = c.chance(0.3)
        par = [("low", lo), ("high", hi)] if lo or c.chance(0.7) else [("low", hi)]
        dt = c.pick([None, np.int64, np.int8, np.int32, np.uint16 if lo >= 0 else np.int16])
        rest = [("size", sz)]
        if dt is not None or c.chance(0.2):
            rest.append(("dtype", dt or np.int64))
        if end:
            rest.append(("endpoint", True))
        s["dtype"] = np.dtype(dt or np.int64)
        k = hi - lo + end
        s["law"] = (lo + (k - 1) / 2, ((k * k - 1) / 12) ** 0.5, lo, lo + k - 1)
    elif m == "uniform":
        a, b = c.pick([(0.0, 1.0), (-3.0, 2.0), (10, 1000), (1e-3, 2e-3)])
        par, rest = [("low", a), ("high", b)], [("size", sz)]
        if (a, b) == (0.0, 1.0) and c.chance(0.5):
            par = []
        s["law"] = ((a + b) / 2, (b - a) * 12**-0.5, a, b)
    elif m == "normal":
        a, b = c.pick([(0.0, 1.0), (-3.0, 2.0), (100, 1), (0.0, 1e-3)])
        par, rest = [("loc", a), ("scale", b)], [("size", sz)]
        s["law"] = (a, b, a - 7.5 * b, a + 7.5 * b)
    elif m == "poisson":
        lam = c.pick([1.0, 4, 0.5, 30.0, 1000.0])
        par, rest = [("lam", lam)], [("size", sz)]
        s["dtype"] = np.dtype(np.int64)
        s["law"] = (lam, lam**0.5, 0, lam + 12 * lam**0.5 + 12)
    else:
        a = c.pick([0.5, 1.0, 2, 5.0])
        par, rest = [("a", a)], [("size", sz)]
        s["law"] = (a / (a + 1), (a / ((a + 1) ** 2 * (a + 2))) ** 0.5, 0.0, 1.0)
    allargs = par + rest
    npos = c.int(0, len(allargs))
    if npos > len(par) and len(par) < {"integers": 2, "uniform": 2}.get(m, 0):
        npos = len(par)  # parameters left out: the others can only be named
    if m == "integers" and npos > len(par) + 1 and [k for k, _ in rest][1] != "dtype":
        npos = len(par) + 1
    s["args"] = [v for _, v in allargs[:npos]]
    s["kwargs"] = dict(allargs[npos:])
    return s


def poison(shape, dt):
    """Leave a recognisable block behind for arrays that are not filled."""
    for _ in range(3):
        a = np.empty(shape, dt)
        a[...] = 91
        del a


def call(rng, s):
    f = getattr(rng, s["method"])
    if not s["out"]:
        poison(s["shape"], s["dtype"])
        return f(*s["args"], **s["kwargs"]), None
    buf = np.full((s["n"] + 2), 77, s["dtype"])
    out = buf[1:-1].reshape(s["shape"])
    args, kw = list(s["args"]), dict(s["kwargs"])
    if len(args) == 2:
        args.append(out)
    else:
        kw["out"] = out
    r = f(*args, **kw)
    return r, (out, buf)


def judge(c, s, r, o):
    m = s["method"]
    what = f"{m}({s['args']}, {s['kwargs']})"
    c.check(isinstance(r, np.ndarray) and r.dtype == s["dtype"], f"{what}: type {getattr(r, 'dtype', type(r))}, expected {s['dtype']}")
    c.check(r.shape == s["shape"], f"{what}: shape {r.shape}, expected {s['shape']}")
    if o is not None:
        c.check(r is o[0], f"{what}: the output array is not returned")
        c.check(o[1][0] == 77 and o[1][-1] == 77, f"{what}: memory outside of the output was changed")
    v = np.asarray(r, float).ravel()
    n = v.size
    mean, sd, lo, hi = s["law"]
    c.check(np.isfinite(v).all() and (v >= lo).all() and (v <= hi).all(), f"{what}: values from {v.min() if n else 0} to {v.max() if n else 0}, expected within {lo} and {hi}")
    c.count("values", n)
    if n < BIG:
        return
    c.check(abs(v.mean() - mean) <= 7 * sd / n**0.5 + 1e-12, f"{what}: mean {v.mean()} of {n}, expected {mean}")
    if sd > 0:
        kurt = {"poisson": 3 + 1 / mean if m == "poisson" else 3}.get(m, 4)
        c.check(abs(v.std() / sd - 1) <= 10 * (kurt / n) ** 0.5 / 2 + 0.01, f"{what}: deviation {v.std()} of {n}, expected {sd}")
        # Any part has to look like the whole
        k = c.int(2, 9)
        for part in np.array_split(v, k):
            c.check(abs(part.mean() - mean) <= 7 * sd / part.size**0.5, f"{what}: mean {part.mean()} in a part of {part.size}, expected {mean}")
        u = v - mean
        for lag in {1, 2, n // 2, -(-n // 3), -(-n // 4), -(-n // 8), -(-n // 5)}:
            if 50 < n - lag:
                cc = (u[lag:] * u[:-lag]).mean() / sd**2
                c.check(abs(cc) <= 7.5 / (n - lag) ** 0.5, f"{what}: correlation {cc} at a distance of {lag} of {n}")
    if s["dtype"] == np.float64:
        c.check(np.unique(v).size == n, f"{what}: only {np.unique(v).size} different values of {n}")


def new(seed, threads, bitgen):
    kw = {} if bitgen is None else {"bitgen": bitgen}
    return MultithreadedRNG(seed, threads, **kw)


@group(quick=500, thorough=8000)
def samples(c):
    """A sequence of calls, repeated under another schedule."""
    seed, threads, bg = c.int(0, 2**40), c.int(1, 9), c.pick(BITGEN)
    calls = [spec(c) for _ in range(c.int(1, 4))]
    c.note(seed=seed, threads=threads, bitgen=str(bg), calls=[(s["method"], s["args"], s["kwargs"], s["out"]) for s in calls])
    rng = new(seed, threads, bg)
    c.check(isinstance(rng, np.random.Generator), f"not a Generator: {type(rng).__mro__}")
    res, first = [], []
    for s in calls:
        r, o = call(rng, s)
        judge(c, s, r, o)
        first.append(r)
        res.append(np.array(r))
    # Results stay as they are
    c.check(all(np.array_equal(a, b) for a, b in zip(res, first)), "a later call changed an earlier result")
    # No stretch of numbers appears twice
    seen = {}
    for i, (s, v) in enumerate(zip(calls, res)):
        if s["method"] == "random" and s["dtype"] == np.float64:
            for j, x in enumerate(v.ravel().tolist()):
                c.check(x not in seen, f"the number {x} appears in call {seen.get(x)} and {i}, {j}")
                seen[x] = (i, j)
    # Same seed, same calls, another schedule
    again = new(seed, threads, bg)
    old = sys.getswitchinterval()
    stop = threading.Event()

    def spin():
        while not stop.is_set():
            sum(range(50))

    busy = [threading.Thread(target=spin) for _ in range(c.int(0, 3))]
    for t in busy:
        t.start()
    try:
        sys.setswitchinterval(10.0 ** c.int(-6, -3))
        for s, v in zip(calls, res):
            r, _ = call(again, s)
            c.check(np.array_equal(r, v), f"not reproducible: {s['method']}")
    finally:
        stop.set()
        sys.setswitchinterval(old)
        for t in busy:
            t.join()
    foreign = new(seed, threads, np.random.Philox if bg is np.random.PCG64 else np.random.PCG64)
    for s, v in zip(calls, res):
        r, _ = call(foreign, s)
        if s["n"] >= 10 and s["dtype"].kind == "f":
            c.check(not np.array_equal(r, v), f"another bit generator gives the same numbers: {s['method']}")
    other = new(seed + 1, threads, bg)
    for s, v in zip(calls, res):
        r, _ = call(other, s)
        if s["n"] >= 10 and s["dtype"].kind == "f":
            c.check(not np.array_equal(r, v), f"another seed gives the same numbers: {s['method']}")
    if any(s["n"] >= BIG for s in calls):
        c.nontrivial(seed, threads, str(bg))
        c.count("parallel", sum(s["n"] >= BIG for s in calls))


@group(quick=300, thorough=5000)
def single(c):
    """What is not parallel behaves like the plain generator of the same seed."""
    seed, threads, bg = c.int(0, 2**40), c.int(1, 6), c.pick(BITGEN)
    rng = new(seed, threads, bg)
    ref = np.random.Generator((bg or np.random.SFC64)(seed))
    done = []
    for _ in range(c.int(1, 5)):
        k = c.pick(["small", "none", "array", "other"])
        if k == "small":
            s = spec(c, False)
            r, o = call(rng, s)
            w, _ = call(ref, s)
            judge(c, s, r, o)
            name = f"{s['method']} {s['args']} {s['kwargs']}"
        else:
            if k == "none":
                m, a, kw = c.pick([("random", (), {}), ("integers", (10,), {}), ("normal", (2.0,), {"scale": 3}), ("poisson", (3,), {}), ("power", (2,), {}), ("uniform", (), {}), ("standard_normal", (None,), {}), ("integers", (3, 8, None), {})])
            elif k == "array":
                n = c.pick([3, 2000])
                p = np.arange(1, n + 1)
                m, a, kw = c.pick([("normal", (p, 1.0), {}), ("normal", (0.0,), {"scale": p}), ("normal", (), {"loc": p, "size": n}), ("uniform", (0,), {"high": p, "size": (2, n)}), ("poisson", (), {"lam": p, "size": n}), ("power", (), {"a": p, "size": n}), ("integers", (0,), {"high": p, "size": n}), ("uniform", (0, p), {"size": n}), ("poisson", (p,), {"size": (2, n)}), ("integers", (0, p), {}), ("power", (p, n), {}), ("integers", (np.array(3), 8, n), {})])
            else:
                m, a, kw = c.pick([("exponential", (2.0, 1500), {}), ("permutation", (1200,), {}), ("gamma", (2.0,), {"size": 1100}), ("standard_exponential", (1500,), {}), ("binomial", (10, 0.3, 1400), {})])
            r, w = getattr(rng, m)(*a, **kw), getattr(ref, m)(*a, **kw)
            name = f"{m} {k}"
        c.note(call=name)
        done.append(name)
        c.check(np.asarray(r).dtype == np.asarray(w).dtype and np.array_equal(r, w), f"{name}: not what the plain generator gives: {r} {w}")
        c.count("calls")
    c.nontrivial(seed, str(done))


@group(quick=60, thorough=800)
def streams(c):
    """Several generators and callers at once do not influence each other's streams."""
    seed, threads = c.int(0, 2**40), c.int(1, 5)
    n, k = c.int(BIG, 4000), c.int(2, 5)
    c.note(seed=seed, threads=threads, n=n, callers=k)
    # Own generators: as if they were alone
    alone = [[new(seed + i, threads, None).random(n) for _ in range(1)] for i in range(k)]
    rngs = [new(seed + i, threads, None) for i in range(k)]
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        got = list(ex.map(lambda g: g.random(n), rngs))
    c.check(all(np.array_equal(a[0], b) for a, b in zip(alone, got)), "concurrent use of other generators changes the result")
    # One generator shared by several callers: every number is given out once
    rng = new(seed, threads, None)
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        got = list(ex.map(lambda _: [rng.random(n) for _ in range(3)], range(k)))
    v = np.concatenate([x for g in got for x in g])
    c.check(np.unique(v).size == v.size, f"{v.size - np.unique(v).size} numbers were given out twice")
    c.count("values", v.size)
    # Without a seed, generators differ
    a, b = MultithreadedRNG(threads=threads).random(n), MultithreadedRNG(threads=threads).random(n)
    c.check(np.intersect1d(a, b).size == 0, "generators without seed give the same numbers")
    c.check(default_rng() is default_rng() and isinstance(default_rng(), np.random.Generator), "default_rng")
    # The number of threads comes from the environment
    old = os.environ.get("OMP_NUM_THREADS")
    try:
        os.environ["OMP_NUM_THREADS"] = str(threads)
        c.check(np.array_equal(MultithreadedRNG(seed).normal(size=n), new(seed, threads, None).normal(size=n)), "OMP_NUM_THREADS is not used")
        del os.environ["OMP_NUM_THREADS"]
        c.check(np.array_equal(MultithreadedRNG(seed).normal(size=n), new(seed, 4, None).normal(size=n)), "the default number of threads is not four")
    finally:
        os.environ.pop("OMP_NUM_THREADS", None)
        if old is not None:
            os.environ["OMP_NUM_THREADS"] = old
    c.nontrivial(seed, threads, n, k)


@group(quick=120, thorough=1500)
def refused(c):
    """Errors in any thread are raised, and the generator goes on."""
    seed, threads = c.int(0, 2**40), c.int(1, 6)
    rng = new(seed, threads, None)
    n = c.pick([5, 3000])
    k = c.pick(["scale", "lam", "power", "integers", "dtype", "outtype", "strided", "argument", "size", "intrange"])
    c.note(kind=k, n=n, threads=threads)
    E = (ValueError, TypeError, RuntimeError, OverflowError)
    if k == "scale":
        c.raises(E, rng.normal, 0, -1, n, msg="negative scale")
    elif k == "lam":
        c.raises(E, rng.poisson, -1, n, msg="negative rate")
    elif k == "power":
        c.raises(E, rng.power, c.pick([0, -1]), n, msg="negative power")
    elif k == "integers":
        c.raises(E, rng.integers, 5, c.pick([5, 4]), n, msg="empty range")
    elif k == "intrange":
        c.raises(E, rng.integers, 0, 1000, n, np.int8, msg="range of another type")
    elif k == "dtype":
        c.raises(E, rng.random, n, np.int64, msg="integer type")
    elif k == "outtype":
        c.raises(E, rng.random, out=np.zeros(n, np.float32), msg="output of another type")
        c.raises(E, rng.random, dtype=np.float32, out=np.zeros(n), msg="output of another type")
    elif k == "strided":
        c.raises(E, rng.random, out=np.zeros(2 * n)[::2], msg="output that is not contiguous")
        f = np.full((n, 3), 77.0, order="F")
        try:
            rng.standard_normal(out=f)
        except E:
            c.check((f == 77).all(), "an output in Fortran order was refused after changing it")
        else:
            c.check(np.unique(f).size == f.size and (f != 77).all(), "an output in Fortran order was not filled")
    elif k == "size":
        c.raises(E, rng.random, n + 1, out=np.zeros(n), msg="output of another size")
        c.raises(E, rng.standard_normal, (n, 2), np.float64, np.zeros((2, n)), msg="output of another shape")
    else:
        c.raises(E, rng.uniform, 0, 1, n, width=3, msg="unknown argument")
    v = rng.random(2000)
    c.check(np.unique(v).size == 2000 and (v >= 0).all() and (v < 1).all(), "numbers after an error")
    c.nontrivial(k, n, threads)


class RA(RandomTask):
    """Draws numbers at every step, on some ranks only if so told."""

    def setup(self):
        self.i = 0
        MADE.append((self.local_seed, self.threads))

    def next(self):
        if self.i == len(STEPS):
            raise exceptions.PipelineStopIteration
        n, ranks = STEPS[self.i]
        self.i += 1
        return self.rng.normal(size=n) if self.comm.rank in ranks else np.zeros(0)


class RB(RA):
    pass


class Other(RA):
    """Of the same name, but in another module."""


Other.__name__ = Other.__qualname__ = "RA"
Other.__module__ = RA.__module__ + ".other"


class RSink(Task):
    def next(self, a, b):
        GOT.append((a, b))


STEPS, GOT, MADE = [], [], []
pipeline.local_tasks.update(RA=RA, RB=RB, ROther=Other, RSink=RSink)


class Seeds(logging.Handler):
    """The seeds written to the log, by task."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.seen = {}

    def emit(self, record):
        for m in re.findall(r"\d+", record.getMessage()):
            self.seen.setdefault(record.name.rsplit(".", 1)[-1], []).append(int(m))


def pipe(pa, pb, second="RB"):
    """Runs two tasks with random numbers, gives what they drew and the seeds they logged."""
    doc = {"pipeline": {"logging": {"root": "INFO"}, "tasks": [{"type": "RA", "out": "a", "params": pa}, {"type": second, "out": "b", "params": pb}, {"type": "RSink", "in": ["a", "b"]}]}}
    GOT.clear()
    MADE.clear()
    h = Seeds()
    log = logging.getLogger(RA.__module__)
    old = log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        Manager.from_yaml_str(yaml.dump(doc)).run()
    finally:
        log.removeHandler(h)
        log.setLevel(old)
    return list(GOT), h.seen


def alike(x, y):
    return len(x) == len(y) and all(np.array_equal(p, q) for a, b in zip(x, y) for p, q in zip(a, b))


@group(quick=90, thorough=1200, mpi=(1, 2, 3), turn=False)
def tasks(c):
    """Tasks that draw random numbers, on several ranks."""
    comm = c.comm
    STEPS[:] = [(c.pick([1, 40, 2000]), [r for r in range(comm.size) if c.chance(0.8)]) for _ in range(c.int(1, 4))]
    par = []
    for _ in range(2):
        p = {"seed": c.pick([0, 5, c.int(0, 2**31), c.int(0, 2**62)])} if c.chance(0.6) else {}
        if c.chance(0.7):
            p["threads"] = c.int(1, 4)
        par.append(p)
    if c.chance(0.4) and "seed" in par[0]:
        par[1]["seed"] = par[0]["seed"]
    c.note(steps=STEPS, params=par)
    got, seeds = pipe(*[dict(p) for p in par])
    c.check(len(got) == len(STEPS) and all(v.shape == (n if comm.rank in r else 0,) for (n, r), ab in zip(STEPS, got) for v in ab), "numbers are missing")
    # They are those of the generator with that seed and that number of threads
    for k, (seed, threads) in enumerate(MADE):
        c.check(threads == par[k].get("threads"), f"threads {threads}")
        model = MultithreadedRNG(seed, **({"threads": par[k]["threads"]} if "threads" in par[k] else {}))
        for ab, (n, r) in zip(got, STEPS):
            if comm.rank in r:
                c.check(np.array_equal(ab[k], model.normal(size=n)), f"{n} numbers are not those of seed {seed} with {threads} threads")
    if all("seed" in p for p in par):  # Also for tasks of the same name
        other, _ = pipe(*[dict(p) for p in par], second="ROther")
        both = np.concatenate(comm.allgather(np.concatenate([v for ab in other for v in ab])))
        c.check(np.unique(both).size == both.size, "tasks of the same name draw the same numbers")
    # No number is drawn twice, by any task on any rank
    every = comm.allgather(np.concatenate([v for ab in got for v in ab]))
    every = np.concatenate(every)
    c.check(np.unique(every).size == every.size, f"{every.size - np.unique(every).size} numbers were drawn twice")
    # Setting the seed that was logged repeats the run
    again = [dict(p) for p in par]
    for name, p in zip(("RA", "RB"), again):
        logged = seeds.get(name, [])
        if "seed" in p:
            c.check(p["seed"] in logged, f"seed {p['seed']} of {name} is not in the log: {logged}")
            continue
        both = comm.allgather(logged)
        c.check(logged and all(b == logged for b in both), f"seeds of {name} in the log: {both}")
        p["seed"] = max(logged)
    got2, _ = pipe(*again)
    c.check(alike(got, got2), "the same seeds give other numbers")
    # Another seed does not
    which = c.int(0, 1)
    again[which]["seed"] += c.int(1, 1000)
    got3, _ = pipe(*again)
    new = np.concatenate([ab[which] for ab in got3])
    was = np.concatenate([ab[which] for ab in got])
    c.check(np.intersect1d(new, was).size == 0, "another seed gives the same numbers")
    c.check(alike([(ab[1 - which],) for ab in got], [(ab[1 - which],) for ab in got3]), "the seed of one task changed the numbers of another")
    # Nor does leaving it out
    got4, _ = pipe({}, {})
    c.check(np.intersect1d(np.concatenate([v for ab in got4 for v in ab]), every).size == 0, "no seed gives the same numbers")
    c.count("values", every.size)
    if every.size:
        c.nontrivial(str(STEPS), str(par))


RERUN = """
import logging, os, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
from caput import pipeline
from caput.pipeline import Manager, exceptions
from caput.pipeline.tasklib.random import RandomTask

class Draw(RandomTask):
    done = False
    def next(self):
        if self.done:
            raise exceptions.PipelineStopIteration
        self.done = True
        with open(os.path.join(sys.argv[1], f"rank{self.comm.rank}"), "wb") as f:
            f.write(self.rng.normal(size=1500).tobytes() + self.rng.random(3).tobytes())

pipeline.local_tasks["Draw"] = Draw
Manager.from_yaml_str(%r).run()
"""


@group(quick=4, thorough=40)
def reruns(c):
    """Other processes draw the same numbers from the same seed."""
    n = c.int(1, 2)
    doc = yaml.dump({"pipeline": {"tasks": [{"type": "Draw", "params": {"seed": c.int(0, 2**40), "threads": c.int(1, 4)}}]}})
    c.note(doc=doc, ranks=n)
    out = []
    for k in range(2):
        where = os.path.join(c.tmp, f"run{k}")
        os.mkdir(where)
        st, text, late = sub.run(RERUN % doc, c.tmp, np=n if n > 1 else 0, argv=[where], env={"PYTHONHASHSEED": str(17 * k + c.idx + 1)})
        c.check(st == 0, f"failed: {text[-500:]}")
        out.append([open(os.path.join(where, x), "rb").read() for x in sorted(os.listdir(where))])
    c.check(len(out[0]) == n and all(out[0]) and out[0] == out[1], "another run with the same seed draws other numbers")
    c.check(len(set(out[0])) == n, "ranks draw the same numbers")
    c.count("runs", 2)
    c.nontrivial(doc, n)
