"""C31 the polyphase filter bank, and helpers for arrays and objects."""

import collections
import datetime
import inspect
import math
import os
import sys
import types
import warnings

import numpy as np

from vf.core import array_same, group, rand_array

from caput.mpiarray import MPIArray
from caput.util import arraytools, importtools, objecttools, pfb

warnings.simplefilter("ignore")

RULE = (
    "filter banks of random size and window applied to random timestreams and compared with the sums defining "
    "them, also after other uses of the same object; sequences of uses of a cache against a model; nested "
    "objects with exactly one difference, or none, compared in both directions; sizes of nested and cyclic "
    "objects against a model; decorated functions and methods against plain calls; non-trivial when there "
    "is data; distinct by the arguments"
)
ASSUMPTIONS = ["channel profiles and decorrelation ratios of smooth windows, oversampled at least four times"]


def window_of(c):
    k = c.int(0, 4)
    if k == 0:
        return None, pfb.sinc_hamming
    if k == 1:
        return pfb.sinc_hann, pfb.sinc_hann
    if k == 2:
        return pfb.sinc_window, pfb.sinc_window
    if k == 3:
        f = lambda n, m: np.ones(n * m)  # noqa: E731
        return f, f
    f = lambda n, m: np.hanning(n * m) + 0.1 * np.arange(n * m) / (n * m)  # noqa: E731
    return f, f


@group(quick=300, thorough=6000)
def filterbank(c):
    """The polyphase filter bank."""
    ntap, lb = c.int(1, 5), 2 * c.int(2, 12)
    win, wf = window_of(c)
    os_ = c.pick([4, 8, 16])
    c.note(ntap=ntap, lblock=lb, oversample=os_, window=wf.__name__)
    p = pfb.PFB(ntap, lb, **({} if win is None else {"window": win}), oversample=os_)
    N = ntap * lb
    # The windows
    n = np.arange(N)
    x = n / lb - ntap / 2
    sinc = np.array([1.0 if v == 0 else math.sin(math.pi * v) / (math.pi * v) for v in x])
    c.close(pfb.sinc_window(ntap, lb), sinc, tol=1e-12, msg="sinc window")
    if N > 1:
        c.close(pfb.sinc_hann(ntap, lb), sinc * (0.5 - 0.5 * np.cos(2 * np.pi * n / (N - 1))), tol=1e-12, msg="Hann window")
        c.close(pfb.sinc_hamming(ntap, lb), sinc * (0.54 - 0.46 * np.cos(2 * np.pi * n / (N - 1))), tol=1e-12, msg="Hamming window")
    w = wf(ntap, lb)
    for _ in range(c.int(2, 5)):
        k = c.int(0, 3)
        if k == 0:
            nb = c.int(0, 4)
            ts = rand_array(c.rng, ((ntap - 1 + nb) * lb + c.int(0, lb - 1),), c.pick(["f8", "f4", "i2", "i8"]))
            if ts.dtype.kind == "i":
                ts = ts % 100
            old = ts.copy()
            got = p.apply(ts)
            E = np.exp(-2j * np.pi * np.outer(np.arange(lb // 2), n) / lb)
            want = np.array([E @ (w * ts[b * lb : b * lb + N]) for b in range(nb)]).reshape(nb, lb // 2)
            c.check(got.shape == want.shape and got.dtype == complex, f"{got.dtype}{got.shape}, expected {want.shape}")
            s = 1 + np.abs(ts).max(initial=0).astype(float)
            c.close(got, want, tol=(1e-11 if ts.dtype != "f4" else 1e-4) * s * N, msg="spectrum")
            c.check(array_same(ts, old), "the timestream was changed")
            c.count("spectra", nb)
        elif k == 1:
            norm = c.chance(0.5)
            f, prof = p.compute_channel_profile(**({} if norm and c.chance(0.5) else {"norm": norm}))
            c.check(f.shape == prof.shape == (N * os_,), f"shapes {f.shape}, {prof.shape}")
            c.close(f, (np.arange(N * os_) - N * os_ // 2) / (ntap * os_), tol=1e-9, msg="frequencies")
            want = np.exp(-2j * np.pi * np.outer(f, n) / lb) @ w
            if norm:
                want = want / want.real.max()
            c.close(prof, want, tol=1e-8 * (1 + np.abs(want).max()), msg="channel profile")
        elif k == 2:
            norm = c.chance(0.5)
            f = c.rng.uniform(-1.5, 1.5, c.pick([1, 5])) if c.chance(0.8) else float(c.rng.uniform(-1, 1))
            got = p.evaluate_channel_profile(f, **({} if norm and c.chance(0.5) else {"norm": norm}))
            want = np.exp(-2j * np.pi * np.outer(f, n) / lb) @ w
            grid = np.exp(-2j * np.pi * np.outer((np.arange(N * os_) - N * os_ // 2) / (ntap * os_), n) / lb) @ w
            peak = grid.real.max()
            if norm:
                want, peak = want / peak, 1
            inside = np.abs(np.atleast_1d(f)) < lb / 2 - 4 / (ntap * os_)
            tol = {4: 0.15, 8: 0.01, 16: 0.001}[os_] * max(abs(peak), np.abs(grid).max() / (grid.real.max() if norm else 1))
            g = np.atleast_1d(got)
            c.check(g.shape == inside.shape, f"shape {g.shape}")
            c.check(np.all(np.abs(g - want)[inside] <= tol), f"profile at {f}: {got}, expected {want}, to {tol}")
            far = p.evaluate_channel_profile(np.array([lb / 2 + 1.0, -lb / 2 - 1.0]), norm=norm)
            c.check(np.all(np.isnan(far)), "frequencies beyond the band")
        else:
            d = c.rng.integers(-N - 3, N + 4, c.int(1, 6)).astype(c.pick(["f8", "i8"]))
            got = p.decorrelation_ratio(d if c.chance(0.7) else float(d[0]))
            ac = [float(np.dot(w[: N - abs(int(t))], w[abs(int(t)) :])) / float(w @ w) if abs(t) < N else 0.0 for t in d]
            g = np.atleast_1d(got)
            tol = 1e-9 + 2 * abs(np.sum(w * (-1.0) ** n)) ** 2 / (N * float(w @ w))
            c.check(np.all(np.abs(g - np.array(ac)[: len(g)]) <= tol), f"decorrelation at {d}: {got}, expected {ac}, to {tol}")
            c.close(p.decorrelation_ratio(0), 1, tol=1e-12, msg="no delay")
            half = c.rng.uniform(-N, N)
            c.close(p.decorrelation_ratio(half), p.decorrelation_ratio(-half), tol=1e-6 + tol, msg="a delay of either sign")
    c.nontrivial(ntap, lb, wf.__name__, os_, c.idx)


@group(quick=300, thorough=6000)
def cache(c):
    """The cache of arrays against a model."""
    size = c.int(10, 400)
    got, model = arraytools.LRUCache(size), collections.OrderedDict()
    log = []
    for _ in range(c.int(5, 60)):
        k, op = c.int(0, 7), c.int(0, 9)
        if op <= 3:
            a = rand_array(c.rng, (c.int(0, 30),), c.pick(["u1", "i4", "f8"]))
            log.append(("set", k, a.nbytes))
            if a.nbytes > size:
                c.raises(ValueError, got.__setitem__, k, a, msg="an array that is too large")
                # Whether the old value survives is open
                if k in got:
                    c.check(k in model and got[k] is model[k], "another value after a failure")
                    model.move_to_end(k)
                else:
                    model.pop(k, None)
            else:
                got[k] = a
                model.pop(k, None)
                while sum(v.nbytes for v in model.values()) + a.nbytes > size:
                    model.popitem(last=False)
                model[k] = a
        elif op <= 6:
            log.append(("get", k))
            if k in model:
                c.check(got[k] is model[k], f"another array for {k}: {log}")
                model.move_to_end(k)
            else:
                c.raises(KeyError, got.__getitem__, k, msg="a missing key")
        elif op == 7:
            log.append(("in", k))
            c.check((k in got) == (k in model), f"{k} is {'not ' if k in model else ''}there: {log}")
        elif op == 8 and model:
            k = c.pick(sorted(model))
            log.append(("del", k))
            del got[k], model[k]
        else:
            c.raises(ValueError, got.__setitem__, k, c.pick([[1, 2], 5, "x", b"yy", np.float64(3), memoryview(b"abc")]), msg="not an array")
            if k not in got:
                model.pop(k, None)
            else:
                model.move_to_end(k)
                got[k]
        c.check(set(got) == set(model), f"keys {set(got)}, expected {set(model)}: {log}")
        c.check(got.currsize == sum(v.nbytes for v in model.values()) <= size and len(got) == len(model), f"size {got.currsize}: {log}")
    c.count("operations", len(log))
    c.nontrivial(str(log))


ATOMS = [0, 1, -3, 2.5, "a", "b", b"a", None, 1j, math.nan, math.inf, datetime.datetime(2020, 1, 2), frozenset([1])]


def gen(c, depth=0):
    """A pair of equal objects made independently."""
    k = c.int(0, 8 if depth < 3 else 3)
    if k <= 1:
        v = c.pick(ATOMS)
        return v, v
    if k <= 3:
        dt = c.pick(["f8", "f4", "i4", "c16", "S3", "U2", "?", "i4,f8", "M8[s]"])
        shape = c.pick([(), (0,), (1,), (3,), (2, 2), (0, 2)])
        if "," in dt:
            a = np.zeros(shape, dt)
            a["f0"] = c.rng.integers(0, 9, shape)
        elif dt[0] in "SU":
            a = c.rng.choice(["a", "bc", ""], shape).astype(dt) if shape else np.array("a", dt)
        elif dt[0] == "M":
            a = c.rng.integers(0, 10**9, shape).astype(dt)
        else:
            a = np.asarray(rand_array(c.rng, shape, dt))
        if a.dtype.kind == "f" and a.size and c.chance(0.2):
            a.flat[0] = np.nan
        return a, a.copy()
    items = [gen(c, depth + 1) for _ in range(c.int(0, 3))]
    if k == 4:
        return [i[0] for i in items], [i[1] for i in items]
    if k == 5:
        return tuple(i[0] for i in items), tuple(i[1] for i in items)
    keys = ["k", 7, (1, 2), None]
    d = [dict(zip(keys, [i[j] for i in items])) for j in (0, 1)]
    if k == 6:
        return d[0], dict(reversed(list(d[1].items())))
    if k == 7:
        return d[0], d[1]
    s = {c.int(0, 5) for _ in range(3)}
    return set(s), set(sorted(s, reverse=True))


def differ(c, o):
    """The object with one difference inside."""
    if isinstance(o, dict) and o and c.chance(0.8):
        k = c.pick(list(o))
        if c.chance(0.3):
            return {a: b for a, b in o.items() if a != k}
        if c.chance(0.3):
            return {("new" if a == k else a): b for a, b in o.items()}
        return {a: differ(c, b) if a == k else b for a, b in o.items()}
    if isinstance(o, list | tuple) and len(o) and c.chance(0.8):
        i = c.int(0, len(o) - 1)
        if c.chance(0.3):
            return o[:i] + o[i + 1 :]
        return type(o)(differ(c, v) if j == i else v for j, v in enumerate(o))
    if isinstance(o, np.ndarray):
        if o.size and c.chance(0.6):
            a = o.copy()
            i = c.int(0, a.size - 1)
            if a.dtype.names:
                a["f0"].flat[i] += 1
            elif a.dtype.kind in "SU":
                a.flat[i] = "z"
            elif a.dtype.kind == "b":
                a.flat[i] = not a.flat[i]
            elif a.dtype.kind == "M":
                a.flat[i] += np.timedelta64(1, "s")
            else:
                a.flat[i] = a.flat[i] + 1 if a.flat[i] == a.flat[i] and a.flat[i] + 1 != a.flat[i] else 3
            return a
        k = c.int(0, 3)
        if k == 0:
            return np.concatenate([o.ravel(), np.zeros(1, o.dtype)]) if o.shape != () else np.zeros(2, o.dtype)
        if k == 1:
            return o[np.newaxis]
        if k == 2 and o.size > 1 and o.ndim == 1:
            return o[:-1]
        return "other" if o.shape else None
    if isinstance(o, set):
        return o | {99}
    if isinstance(o, dict | list | tuple):
        return [*o, 5] if not isinstance(o, dict) else {**o, "more": 1}
    return c.pick([x for x in [5, "zz", None, np.array([1.5, 2]), np.array([]), [9], {"q": 1}, 4.5, True, np.zeros(2, "i4,f8")] if type(x) is not type(o) and not (x is True and o == 1)])


@group(quick=1500, thorough=40000)
def equality(c):
    """Equal objects are found equal, others are not."""
    a, b = gen(c)
    c.note(a=repr(a)[:500])
    before = repr(a), repr(b)
    c.check(objecttools.allequal(a, b) is True and objecttools.allequal(b, a) is True, f"equal objects differ: {a!r}")
    c.check(objecttools.allequal(a, a) is True, f"differs from itself: {a!r}")
    # Differences that are easily overlooked
    x = c.pick([1.5, -3e-300, 7e200, 0.1])
    for u, v in (
        ({"a": None, "b": a}, {"b": b, "c": None}), ({"k": a}, [("k", b)]), ({}, []), ({1: a}, {"1": b}), ([a], b), ((a, b), (a,)),
        (x, np.nextafter(x, np.inf)), (np.array([x, 1]), np.array([np.nextafter(x, -np.inf), 1])), (np.array([1, 2]), [np.zeros(2), np.zeros(3)]),
        ({"n": {"m": x}}, {"n": {"m": np.nextafter(x, 0)}}),
    ):  # fmt: skip
        if isinstance(b, list) or (u is not x and isinstance(u, list)):
            continue
        c.check(objecttools.allequal(u, v) is False and objecttools.allequal(v, u) is False, f"{u!r} equals {v!r}")
    d = differ(c, b)
    c.check(objecttools.allequal(a, d) is False, f"{a!r} equals {d!r}")
    c.check(objecttools.allequal(d, a) is False, f"{d!r} equals {a!r}")
    c.check((repr(a), repr(b)) == before, "an object was changed")
    if isinstance(a, np.ndarray) and a.ndim and a.dtype.kind in "fi":
        m = [MPIArray.wrap(x.copy(), axis=0) for x in (a, b)]
        c.check(objecttools.allequal(m[0], m[1]), "equal distributed arrays differ")
        c.check(not objecttools.allequal(m[0], b) and not objecttools.allequal(b, m[0]), "a distributed array equals a plain one")
        c.check(not objecttools.allequal(m[0], 1) and not objecttools.allequal({"x": 1}, m[0]), "a distributed array equals something else")
    c.count("pairs", 2)
    c.nontrivial(repr(a), repr(d))


class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slotted:
    __slots__ = ("x", "y")


class Both(Slotted):
    pass


def tree_size(c, depth, pool):
    """An object, adding every new object reachable from it to `pool`."""
    k = c.int(0, 11 if depth < 4 else 2)
    if pool and c.chance(0.25):
        return c.pick(list(pool.values()))
    if k == 0:
        o = os.urandom(c.int(1, 3000))
    elif k == 1:
        o = "s" * c.int(50, 2000)
    elif k == 2:
        o = np.zeros(c.int(0, 500))
    elif k in (3, 4):
        o = [tree_size(c, depth + 1, pool) for _ in range(c.int(0, 4))]
    elif k == 5:
        o = tuple(tree_size(c, depth + 1, pool) for _ in range(c.int(1, 4)))
    elif k == 6:
        keys = [("key", c.int(0, 10**9)) for _ in range(c.int(0, 3))]
        o = {k: tree_size(c, depth + 1, pool) for k in keys}
        for k in o:
            pool[id(k)], pool[id(k[0])], pool[id(k[1])] = k, k[0], k[1]
    elif k == 7:
        o = collections.deque(tree_size(c, depth + 1, pool) for _ in range(c.int(0, 3)))
    elif k == 8:
        o = Thing(first=tree_size(c, depth + 1, pool), second=tree_size(c, depth + 1, pool))
        v = vars(o)
        pool[id(v)] = v
        for n in v:
            pool[id(n)] = n
    elif k == 9:
        o = Slotted()
        o.x = tree_size(c, depth + 1, pool)
    elif k == 10:
        o = Both()
        o.x = tree_size(c, depth + 1, pool)
        o.other = tree_size(c, depth + 1, pool)
        v = vars(o)
        pool[id(v)], pool[id("other")] = v, "other"
    else:
        o = types.MappingProxyType({"some key": tree_size(c, depth + 1, pool)})
        for n in o:
            pool[id(n)] = n
    pool[id(o)] = o
    return o


def reach(o, seen):
    """All objects reachable from an object."""
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, list | tuple | collections.deque):
        for x in o:
            reach(x, seen)
    elif isinstance(o, dict | types.MappingProxyType):
        for k, v in o.items():
            reach(k, seen)
            reach(v, seen)
    elif isinstance(o, Thing):
        reach(vars(o), seen)
    elif isinstance(o, Slotted):
        if isinstance(o, Both):
            reach(vars(o), seen)
        reach(o.x, seen)


@group(quick=600, thorough=12000)
def sizes(c):
    """Sizes of nested objects."""
    o = tree_size(c, 0, {})
    if isinstance(o, list) and c.chance(0.4):
        o.append(o)
    if isinstance(o, Thing) and c.chance(0.4):
        o.me = o
        o.mod = os
    if isinstance(o, list) and c.chance(0.3):
        o.insert(0, sys)
    seen = {}
    reach(o, seen)
    want = sum(sys.getsizeof(x) for x in seen.values() if not inspect.ismodule(x))
    got = objecttools.total_size(o)
    c.check(got == want, f"{got} bytes, expected {want} for {len(seen)} objects")
    c.raises(TypeError, objecttools.total_size, sys, msg="the size of a module")
    c.count("objects", len(seen))
    if len(seen) > 1:
        c.nontrivial(want, len(seen))


def plain(x, y=2):
    """Some words."""
    return x * 10 + y


@group(quick=400, thorough=6000)
def decorated(c):
    """Functions and methods made to accept scalars, sequences and arrays."""
    log = []

    def body(x, y=2):
        """Some words."""
        log.append(x)
        return plain(x, y)

    class K:
        a = c.int(1, 5)

        @arraytools.vectorize(otypes=[float])
        def vec(self, x, y=2):
            """Some words."""
            return plain(x, y) * self.a

        @arraytools.scalarize()
        def sca(self, x, y=2):
            return plain(x, y) * self.a

        @arraytools.listize()
        def lis(self, x, y=2):
            return plain(x, y) * self.a

    x = c.pick([c.int(-9, 9), float(c.int(-9, 9)), [1, 2, 3], (4,), [], np.arange(3.0), np.zeros((2, 2)), np.float64(3), np.array(5.0)])
    yk = c.pick([{}, {}, {"y": c.int(0, 9)}])
    ref = plain(np.asarray(x, float), yk.get("y", 2))
    k1, k2 = K(), K()
    k2.a = 7
    scalar = np.ndim(x) == 0
    for make, name, doc in (
        (arraytools.vectorize(otypes=[float]), "vec", "vectorize"), (arraytools.scalarize(), "sca", "scalarize"), (arraytools.listize(), "lis", "listize"),
    ):  # fmt: skip
        f = make(body)
        c.check(f.__name__ == "body" and f.__doc__ == "Some words." and f.__module__ == __name__, f"{doc}: name or documentation are lost")
        c.check(list(inspect.signature(f).parameters) == ["x", "y"], f"{doc}: signature {inspect.signature(f)}")
        for got, fac in ((f(x, **yk), 1), (getattr(k1, name)(x, **yk), K.a), (getattr(k2, name)(x, **yk), 7)):
            want = ref * fac
            c.check(np.shape(got) == np.shape(want) and np.array_equal(got, want), f"{doc} of {x!r}: {got!r}, expected {want!r}")
            if scalar:
                c.check(not isinstance(got, np.ndarray) or (doc == "listize" and isinstance(x, np.ndarray)), f"{doc} of {x!r} is an array: {got!r}")
            else:
                c.check(isinstance(got, np.ndarray), f"{doc} of {x!r} is not an array: {got!r}")
        c.check(isinstance(getattr(K, name), type(f)) or callable(getattr(K, name)), "access by the class")
    # Two arguments
    x2, y2 = c.pick([1.0, [1, 2], (3.0, 4), np.arange(2.0)]), c.pick([5, [6, 7], np.array([1.0, 2])])
    want = plain(np.asarray(x2, float), np.asarray(y2, float))
    for make in (arraytools.vectorize(), arraytools.scalarize(), arraytools.listize()):
        got = make(body)(x2, y2)
        c.check(np.array_equal(got, want) and (np.ndim(got) == np.ndim(want)), f"{x2}, {y2}: {got!r}, expected {want!r}")
    # Unique items
    items = [c.pick([1, 2, 3, "a", "b", (1,), None, 2.0]) for _ in range(c.int(0, 12))]
    u = arraytools.unique_ordered(c.pick([list, tuple, iter])(items))
    c.check(u == list(dict.fromkeys(items)) and [type(v) for v in u] == [type(v) for v in dict.fromkeys(items)], f"unique of {items}: {u}")
    # Importing
    import collections.abc as cabc

    for p, w in (("collections.OrderedDict", collections.OrderedDict), ("collections.abc.Mapping", cabc.Mapping), ("caput.util.pfb.PFB", pfb.PFB), ("os.path.join", os.path.join)):
        c.check(importtools.import_class(p) is w, f"import_class {p}")
    c.raises((AttributeError, ImportError), importtools.import_class, "collections.NoSuchThing", msg="a missing class")
    c.raises(ImportError, importtools.import_class, "no_such_module_x.Thing", msg="a missing module")
    c.raises(KeyError, importtools.import_class, "NoSuchThing", msg="a missing name")
    c.count("calls", 12)
    c.nontrivial(repr(x), str(yk), str(items))
