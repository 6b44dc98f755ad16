"""C29 conversions of strings and types."""

import collections
import os
import warnings

import h5py
import numpy as np

from vf.core import array_same, fast_sleep, group, rand_array

from caput.memdata import MemGroup, deep_group_copy
from caput.util import typeutils

warnings.simplefilter("ignore")
fast_sleep()

RULE = (
    "random scalar, compound, nested and aligned types with strings of both kinds and byte orders, subarrays "
    "and titles, arrays of them in several memory layouts, nested collections with byte strings, and trees "
    "with such datasets written to files; types, every field of every element, and what was left alone are "
    "compared with a model; non-trivial when there is a string to convert; distinct by type and contents"
)
ASSUMPTIONS = ["strings in arrays are ASCII; byte strings do not end in NUL"]

LEAF = ["f8", "f4", "c16", "i8", "i2", "u1", "?", ">f8", ">i4", "M8[s]"]
DISK = ["f8", "f4", "c16", "i8", "i2", "u1", ">f8", ">i4"]


def leaf(c, disk):
    k = c.int(0, 3)
    if k == 0:
        return f"S{c.int(1, 6)}"
    if k == 1:
        return c.pick("<>=") + f"U{c.int(1, 6)}"
    return c.pick(DISK if disk else LEAF)


def gen_type(c, depth=0, disk=False):
    """A random type."""
    if c.chance(0.3 + 0.2 * depth):
        return np.dtype(leaf(c, disk))
    n = c.int(1, 4)
    fields = []
    for i in range(n):
        t = gen_type(c, depth + 1, disk) if depth < 2 and c.chance(0.3) else np.dtype(leaf(c, disk))
        name = c.pick(["a", "bb", "f", "x y", "n"]) + str(c.int(i, i if disk else n + 3) * 7 + i)
        if not disk and c.chance(0.1):
            name = (f"title {i}", name)
        shape = c.pick([(2,), (1,), (2, 2), 3]) if c.chance(0.2) else None
        fields.append((name, t) if shape is None else (name, t, shape))
    names = [f[0] if isinstance(f[0], str) else f[0][1] for f in fields]
    if len(set(names)) < n:
        fields = [(f"g{i}", *f[1:]) for i, f in enumerate(fields)]
    dt = np.dtype(fields)
    if c.chance(0.25):
        dt = np.dtype(fields, align=True)
    elif not disk and c.chance(0.15):
        # A view of some of the fields
        keep = [f for f in dt.names if c.chance(0.6)]
        if keep:
            dt = np.zeros(1, dt)[keep].dtype
    return dt


def kinds(dt):
    """The kinds of all elements of a type."""
    if dt.subdtype:
        return kinds(dt.subdtype[0])
    if dt.names:
        return set().union(*[kinds(dt.fields[n][0]) for n in dt.names])
    return {dt.kind}


def same_type(got, want, frm, to):
    """Whether `got` is `want` with strings converted."""
    if want.subdtype:
        return got.subdtype is not None and got.shape == want.shape and same_type(got.base, want.base, frm, to)
    if want.names:
        return got.names == want.names and all(
            same_type(got.fields[n][0], want.fields[n][0], frm, to) and got.fields[n][2:] == want.fields[n][2:] for n in want.names
        )
    if want.kind == frm:
        n = want.itemsize // (4 if frm == "U" else 1)
        return got.kind == to and got.itemsize // (4 if to == "U" else 1) == n
    return got == want and got.names is None and got.subdtype is None


def fill(c, shape, dt):
    """An array of the type with random contents."""
    if dt.names:
        a = np.zeros(shape, dt)
        for n in dt.names:
            a[n] = fill(c, a[n].shape, dt.fields[n][0].base)
        return a
    if dt.kind in "SU":
        n = dt.itemsize // (4 if dt.kind == "U" else 1)
        a = np.zeros(shape, dt)
        for i in np.ndindex(*a.shape):
            w = "".join(chr(x) for x in c.rng.choice([32, 33, 47, 65, 90, 97, 122, 126, 9], c.int(0, n)))
            a[i] = w.rstrip("\0")
        return a
    if dt.kind == "M":
        return c.rng.integers(0, 2**31, shape).astype("M8[s]")
    return rand_array(c.rng, shape, dt.newbyteorder("=")).astype(dt)


def values(a):
    """The contents as nested lists, all strings alike."""
    if a.dtype.names:
        return {n: values(a[n]) for n in a.dtype.names}
    if a.dtype.kind == "S":
        return [w.decode("ascii") for w in a.ravel().tolist()], a.shape
    if a.dtype.kind == "U":
        return a.ravel().tolist(), a.shape
    return a.tobytes(), a.dtype.str, a.shape


@group(quick=1500, thorough=40000)
def types(c):
    """What types contain and become."""
    dt = gen_type(c)
    c.note(dtype=str(dt))
    ks = kinds(dt)
    for k in "SUfciM":
        c.check(typeutils.has_kind(dt, k) == (k in ks), f"has_kind {k} of {dt}: {typeutils.has_kind(dt, k)}")
    c.check(typeutils.has_unicode(dt) == ("U" in ks), f"has_unicode of {dt}")
    c.check(typeutils.has_bytestring(dt) == ("S" in ks), f"has_bytestring of {dt}")
    u, b = typeutils.dtype_to_unicode(dt), typeutils.dtype_to_bytestring(dt)
    c.check(same_type(u, dt, "S", "U"), f"{dt} to unicode: {u}")
    c.check(same_type(b, dt, "U", "S"), f"{dt} to byte strings: {b}")
    c.check("S" not in kinds(u) and "U" not in kinds(b), "strings remain")
    ub = typeutils.dtype_to_bytestring(u)
    c.check(same_type(typeutils.dtype_to_unicode(ub), ub, "S", "U"), f"{u} there and back")
    for o in "<>=|":
        c.check(typeutils.has_matching_byteorder(o) == (o == "<"), f"byte order {o}")
        c.check(typeutils.check_byteorder(o) == (o == "<"), f"byte order {o} to be set")
    c.count("types")
    if ks & {"S", "U"}:
        c.nontrivial(str(dt))


def lay(c, a):
    """The array in another memory layout."""
    k = c.int(0, 3)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2 and a.ndim:
        b = np.zeros((2 * a.shape[0], *a.shape[1:]), a.dtype)
        b[::2] = a
        return b[::2]
    if k == 3 and a.ndim:
        return a[::-1].copy()[::-1]
    return a


@group(quick=1500, thorough=30000)
def arrays(c):
    """Arrays with strings."""
    dt = gen_type(c)
    shape = c.pick([(), (0,), (1,), (3,), (2, 3), (2, 0)])
    a = lay(c, fill(c, shape, dt))
    was, old, ks = values(a), a.copy(), kinds(dt)
    c.note(dtype=str(dt), shape=shape)
    for f, bad, good in ((typeutils.ensure_unicode, "S", "U"), (typeutils.ensure_bytestring, "U", "S")):
        got = f(a)
        if bad in ks:
            c.check(same_type(got.dtype, dt, bad, good), f"{dt} became {got.dtype}")
            c.check(not np.shares_memory(got, a) or not got.size, "shares memory")
        else:
            c.check(got is a, "a copy without need")
        c.check(values(got) == was, f"contents changed: {got}, was {a}")
        c.check(a.dtype == old.dtype and values(a) == was, "the input was changed")
        back = (typeutils.ensure_bytestring if bad == "S" else typeutils.ensure_unicode)(got)
        c.check(values(back) == was, f"there and back: {back}, was {a}")
    n = typeutils.ensure_native_byteorder(a)
    c.check(values(n) == was and n.shape == a.shape and n.dtype == a.dtype, f"native byte order: {n}")
    # It is used to receive data
    c.check(not a.size or not a.dtype.itemsize or np.shares_memory(n, a), "native byte order: a copy")

    class Dset:
        dtype, name, data = a.dtype, "/x/thing", a

    if "U" in ks:
        e = c.raises(TypeError, typeutils.check_unicode, Dset(), msg="unicode for a file")
        c.check(e is None or "thing" in str(e), f"the message does not name the dataset: {e}")
    else:
        c.check(typeutils.check_unicode(Dset()) is a, "check_unicode")
    c.count("elements", a.size)
    if ks & {"S", "U"} and a.size:
        c.nontrivial(str(dt), str(was))


class SomeList(list):
    pass


class SomeTuple(tuple):
    __slots__ = ()


def gen_obj(c, depth=0):
    """A nested object and what it must become."""
    k = c.int(0, 11 if depth < 3 else 6)
    w = c.pick(["", "a", "two words", "é ü", "日本", "x" * 30, "\0a"])
    if k <= 1:
        b = w.encode("utf8")
        return (np.bytes_(b) if c.chance(0.2) and not w.startswith("\0") else b), w
    if k == 2:
        return w, w
    if k == 3:
        v = c.pick([None, 1, 2.5, True, 1 + 2j, np.float32(3), np.int64(4)])
        return v, v
    if k == 4:
        a = fill(c, c.pick([(), (0,), (2,), (2, 2)]), np.dtype(f"S{c.int(1, 4)}"))
        return a, a.astype(str)
    if k == 5:
        a = rand_array(c.rng, (2,), "f8") if c.chance(0.5) else np.array([b"a", "b", None], object)
        return a, a
    if k == 6:
        v = bytearray(w.encode())
        return v, v
    items = [gen_obj(c, depth + 1) for _ in range(c.int(0, 3))]
    if k in (7, 8):
        t = c.pick([list, list, list, SomeList])
        return t(i[0] for i in items), t(i[1] for i in items)
    if k == 9:
        t = c.pick([tuple, tuple, tuple, SomeTuple])
        return t(i[0] for i in items), t(i[1] for i in items)
    if k == 10:
        s = [c.pick([b"a", "b", b"c", 3, None, (b"d", 1), b"\xc3\xa9"]) for _ in range(3)]
        d = {b"a": "a", b"c": "c", (b"d", 1): ("d", 1), b"\xc3\xa9": "é"}
        return set(s), {d.get(x, x) for x in s}
    keys = [c.pick([b"k", "l", b"\xc3\xbc", 5, (1, b"t"), None]) for _ in items]
    kd = {b"k": "k", b"\xc3\xbc": "ü", (1, b"t"): (1, "t")}
    got = dict(zip(keys, [i[0] for i in items]))
    want = {kd.get(k, k): v for k, v in zip(keys, [i[1] for i in items])}
    return got, want


def alike(g, w):
    if isinstance(w, np.ndarray):
        if not isinstance(g, np.ndarray):
            return False
        if w.dtype.kind == "O":
            return g.dtype == w.dtype and g.tolist() == w.tolist()
        return array_same(g, w)
    if type(g) is not type(w):
        return False
    if isinstance(w, list | tuple):
        return len(g) == len(w) and all(alike(a, b) for a, b in zip(g, w))
    if isinstance(w, dict):
        return g.keys() == w.keys() and all(alike(g[k], w[k]) for k in w)
    return g == w


@group(quick=1500, thorough=30000)
def collections_(c):
    """Nested collections with byte strings."""
    obj, want = gen_obj(c)
    before = repr(obj)
    c.note(obj=before)
    got = typeutils.bytes_to_unicode(obj)
    c.check(alike(got, want), f"became {got!r}, expected {want!r}")
    c.check(repr(obj) == before, f"the input was changed to {obj!r}")
    c.check(alike(typeutils.bytes_to_unicode(got), want), "a second conversion changed it")
    c.count("objects")
    if repr(want) != before:
        c.nontrivial(before)


@group(quick=300, thorough=6000)
def files(c):
    """Datasets with strings through files."""
    fmt = c.pick(["hdf5", "hdf5", "zarr"])
    root = MemGroup()
    data = {}
    for i in range(c.int(1, 4)):
        dt = gen_type(c, disk=True)
        if fmt == "zarr":
            while any(dt.fields[n][0].names or dt.fields[n][0].subdtype for n in dt.names or ()) or dt.isalignedstruct:
                dt = gen_type(c, disk=True)
        a = fill(c, c.pick([(1,), (3,), (2, 3)]), dt)
        name = c.pick([f"d{i}", f"g/d{i}", f"g/h/d{i}"])
        data[name] = a
        root.create_dataset(name, data=a)
    fn = os.path.join(c.tmp, "f.h5" if fmt == "hdf5" else "f.zarr")
    c.note(format=fmt, types={k: str(v.dtype) for k, v in data.items()})
    uni = any("U" in kinds(a.dtype) for a in data.values())
    if uni:
        c.raises(TypeError, root.to_file, fn, msg="unicode without conversion")
        fn = os.path.join(c.tmp, "f2.h5" if fmt == "hdf5" else "f2.zarr")
    root.to_file(fn, convert_dataset_strings=uni or c.chance(0.5))
    for k, a in data.items():
        c.check(root[k].dtype == a.dtype and values(root[k][:]) == values(a), f"writing changed {k}")
    if fmt == "hdf5":
        with h5py.File(fn) as f:
            for k, a in data.items():
                c.check(same_type(f[k].dtype, a.dtype, "U", "S"), f"{k}: {a.dtype} became {f[k].dtype} in the file")
    for conv in (False, True):
        back = MemGroup.from_file(fn, convert_dataset_strings=conv)
        for k, a in data.items():
            g = back[k][:]
            c.check(values(g) == values(a), f"{k} came back as {g}, was {a}")
            c.check(("S" if conv else "U") not in kinds(g.dtype), f"{k} came back as {g.dtype}, converting {conv}")
            if conv:
                c.check(same_type(g.dtype, typeutils_u(a.dtype), "S", "U"), f"{k} came back as {g.dtype}, was {a.dtype}")
    # Between groups in memory
    other = MemGroup()
    deep_group_copy(root, other, convert_dataset_strings=True)
    for k, a in data.items():
        c.check(values(other[k][:]) == values(a) and "S" not in kinds(other[k].dtype), f"{k} was copied to {other[k].dtype}, was {a.dtype}")
    c.count("datasets", len(data))
    if any({"S", "U"} & kinds(a.dtype) for a in data.values()):
        c.nontrivial(str(values_all(data)))


def typeutils_u(dt):
    """The type as it is after a file: native strings."""
    if dt.subdtype:
        return np.dtype((typeutils_u(dt.base), dt.shape))
    if dt.names:
        return np.dtype([(n, typeutils_u(dt.fields[n][0])) for n in dt.names])
    return np.dtype(f"=U{dt.itemsize // 4}") if dt.kind == "U" else dt


def values_all(data):
    return collections.OrderedDict((k, (str(a.dtype), values(a))) for k, a in data.items())
