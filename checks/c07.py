"""C07 trees survive a round trip through a file."""

import datetime
import os
import warnings

import h5py
import numpy as np
import zarr

from vf import mpi
from vf.core import fast_sleep, group, rand_array

from caput import mpiarray
from caput.memdata import MemDiskGroup, MemGroup, deep_group_copy, fileformats, is_group

warnings.simplefilter("ignore")
fast_sleep()

RULE = (
    "random trees (groups, datasets of many types, layouts, chunkings and compressions, "
    "attributes of every supported kind), formats, string conversions, selections, communicators "
    "and hints; files are cross-checked with h5py/zarr directly; non-trivial when at least one "
    "dataset has data; distinct by the generated tree and options"
)
ASSUMPTIONS = [
    "h5py is built without MPI-IO here, so the serialised HDF5 write path is what runs",
    "dictionary attributes have string keys; one element arrays inside attributes are not "
    "distinguished from scalars in JSON",
]

NUM = ["f8", "f4", "c16", "c8", "i8", "i4", "i2", "u1", "u8", "?", ">f8", ">i4", "S5", "S1",
       [("a", "i4"), ("b", "f8"), ("s", "S4")]]  # fmt: skip
UNI = ["U3", "U7", [("a", "i4"), ("n", "U5")]]


def _word(c, n=6):
    return "".join(chr(x) for x in c.rng.integers(97, 123, c.int(0, n)))


def gen_attr(c, fmt, depth=0):
    """An attribute value and what must come back (lists stand for any sequence)."""
    k = c.int(0, 13 if depth == 0 else 8)
    if k == 0:
        v = c.int(-(2**40), 2**40)
        return v, v
    if k == 1:
        v = float(c.rng.standard_normal())
        return v, v
    if k == 2:
        v = c.chance(0.5)
        return v, v
    if k == 3:
        v = c.pick([_word(c), "", "é ü", "two words", "a/b", '"quoted"', "!! note", "!!_memh5"])
        return v, v
    if k == 4:
        if depth == 0:
            t = c.pick([np.float64, np.float32, np.int64, np.int8, np.uint16, np.bool_])
        else:
            t = c.pick([np.float64, np.int64, np.int32, np.bool_, np.float32])
        v = t(c.int(0, 100))
        return v, v.item()
    if k == 5:
        v = [c.int(0, 9) for _ in range(c.int(2, 4))]
        return (v if c.chance(0.5) else tuple(v)), v
    if k == 6:
        v = [_word(c) + "x" for _ in range(c.int(2, 3))]
        return v, v
    if k == 7:
        v = rand_array(c.rng, (c.int(2, 4),), c.pick(["f8", "i4"]))
        return v, v.tolist()
    if k == 8:
        v = rand_array(c.rng, (2, 3), "f8")
        return v, v.tolist()
    if k == 9:
        v = np.array([_word(c, 3) + "z", "yy"])
        if c.chance(0.3):
            v = np.array([[_word(c, 3) + "z", "yy"], ["x", _word(c, 2) + "w"]])
        return v, v.tolist()
    if k == 10:
        d = datetime.datetime(2000 + c.int(0, 50), c.int(1, 12), c.int(1, 28), c.int(0, 23), 5, 6)
        return d, d.isoformat()
    if k == 11:
        w = _word(c) + "b"
        return w.encode(), w
    # dictionaries
    d, e = {}, {}
    for i in range(c.int(0, 4)):
        a, b = gen_attr(c, fmt, depth + 1)
        if c.chance(0.2):
            dt = datetime.datetime(2010, 1, 1 + i)
            a, b = dt, dt.isoformat()
        if c.chance(0.15):
            a, b = None, None
        if c.chance(0.1):
            a, b = b"raw", "raw"
        if c.chance(0.1):
            a = np.array(c.pick([2.5, 7]))
            b = a.item()
        if c.chance(0.1):
            a, b = np.zeros(0), []
        if c.chance(0.15):
            a, b = gen_attr(c, fmt, 1)
            a, b = {"n": a}, {"n": b}
        d[f"key{i}"], e[f"key{i}"] = a, b
    return d, e


def plain(v):
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def check_attrs(c, attrs, want, msg):
    got = {k: v for k, v in attrs.items() if not k.startswith("__memh5")}
    c.check(set(got) == set(want), f"{msg}: attributes {sorted(got)} != {sorted(want)}")
    for k, w in want.items():
        g = plain(got[k])
        c.check(g == w and type(g) is type(w), f"{msg}: attribute {k} is {got[k]!r}, expected {w!r}")


def gen_tree(c, fmt, dtypes, minlen):
    """{path: (array or None, options, attrs, expected attrs)} with '/' the root."""
    tree = {}
    groups = ["/"]

    def attrs():
        a, e = {}, {}
        for i in range(c.int(0, 3)):
            a[f"at{i}"], e[f"at{i}"] = gen_attr(c, fmt)
        return a, e

    tree["/"] = (None, {}, *attrs())
    for i in range(c.int(0, 3)):
        p = c.pick(groups).rstrip("/") + "/" + c.pick(["g", "grp", "sub"]) + str(i)
        groups.append(p)
        tree[p] = (None, {}, *attrs())
    for i in range(c.int(1, 4)):
        p = c.pick(groups).rstrip("/") + "/" + f"d{i}"
        ref = mpi.gen_ref(c, dtypes=dtypes, small=6, minlen=minlen)
        opts = {}
        if ref.size and c.chance(0.4):
            opts["chunks"] = tuple(c.int(1, n) for n in ref.shape)
            if c.chance(0.6):
                if c.chance(0.5):
                    opts.update(compression="gzip", compression_opts=c.int(1, 9))
                else:
                    opts.update(compression="bitshuffle", compression_opts=(c.pick([0, None]), "lz4"))
        tree[p] = (ref, opts, *attrs())
    return tree


def layout(c, ref):
    """The same values in another memory layout."""
    k = c.int(0, 3)
    if k == 0:
        return np.asfortranarray(ref)
    if k == 1 and ref.ndim:
        b = np.zeros((*ref.shape[:-1], ref.shape[-1] * 2), ref.dtype)
        b[..., ::2] = ref
        return b[..., ::2]
    if k == 2:
        return ref[::-1].copy()[::-1]
    return ref.copy()


def build(c, g, tree):
    for p, (ref, opts, at, _) in tree.items():
        if ref is None:
            e = g if p == "/" else g.require_group(p)
        else:
            e = g.create_dataset(p, data=layout(c, ref), **opts)
        for k, v in at.items():
            e.attrs[k] = v


def native(ref, how=None):
    dt = ref.dtype
    if how == "unicode":
        dt = _map(dt, "S", "U")
    elif how == "bytes":
        dt = _map(dt, "U", "S")
    return ref.astype(dt)


def _map(dt, a, b):
    if dt.names:
        return np.dtype([(n, _map(dt[n], a, b)) for n in dt.names])
    if dt.kind == a:
        w = dt.itemsize // (4 if a == "U" else 1)
        return np.dtype(f"{b}{w}")
    return dt


def walk(g):
    out = {}
    stack = [g]
    while stack:
        e = stack.pop()
        out[e.name] = e
        if is_group(e):
            stack += [e[k] for k in e]
    return out


def check_tree(c, g, tree, msg, how=None, sels=None, dtype=True, attrs=True):
    got = walk(g)
    c.check(set(got) == set(tree), f"{msg}: entries {sorted(got)} != {sorted(tree)}")
    for p, (ref, _, _, want) in tree.items():
        e = got[p]
        c.check(is_group(e) == (ref is None), f"{msg}: kind of {p}")
        if ref is not None:
            w = native(ref, how)
            if sels and p in sels:
                w = _apply(w, sels[p])
            d = e[:]
            if not dtype:
                d = native(np.asarray(d))
            c.same(d, w, f"{msg}: {p}")
        if attrs:
            check_attrs(c, e.attrs, want, f"{msg}: {p}")


def _apply(ref, sel):
    for i, s in enumerate(sel if isinstance(sel, tuple) else (sel,)):
        ref = ref[(slice(None),) * i + (s,)]
    return ref


def gen_sels(c, tree, fmt):
    sels, arg = {}, {}
    for p, (ref, *_) in tree.items():
        if ref is None or not c.chance(0.6):
            continue
        out, nl = [], 0
        for n in ref.shape:
            k = c.int(0, 4)
            if k == 0 or n == 0:
                out.append(slice(None))
            elif k == 1 and nl == 0 and fmt == "hdf5":
                nl = 1
                out.append(sorted(int(x) for x in c.rng.permutation(n)[: c.int(1, n)]))
            else:
                lo = c.int(0, n - 1)
                if k == 2 and fmt == "hdf5" and c.chance(0.3):  # nothing
                    out.append(slice(lo, lo))
                    continue
                out.append(slice(c.pick([None, lo]), c.pick([None, c.int(lo + 1, n)]), c.pick([None, 1, 2])))
        sel = tuple(out[: c.int(1, len(out))])
        if len(sel) == 1 and isinstance(sel[0], slice) and c.chance(0.5):
            sel = sel[0]
        sels[p] = sel
        arg[p if c.chance(0.5) else p[1:]] = sel
    return sels, arg


def _file(c, fmt, i=0):
    return os.path.join(c.tmp, f"f{i}." + ("h5" if fmt == "hdf5" else "zarr"))


def _ff(fmt):
    return fileformats.HDF5 if fmt == "hdf5" else fileformats.Zarr


def compressed(c, d, p, o):
    """A dataset in a zarr file is compressed as it was asked for."""
    have = d.compressor.get_config() if d.compressor is not None else {}
    if o["compression"] == "gzip":
        ok = have.get("id") == "gzip" and have["level"] == o["compression_opts"]
    else:
        ok = have.get("id") == "blosc" and have["cname"] == o["compression_opts"][1] and have["shuffle"] == 2
    c.check(ok, f"{p}: compression {have} in the file, {o} given")


@group(quick=400, thorough=6000)
def serial(c):
    """Save and load a tree in one process."""
    fmt = c.pick(["hdf5", "hdf5", "zarr"])
    ff = _ff(fmt)
    conv = c.chance(0.4)
    tree = gen_tree(c, fmt, NUM + (UNI if conv else []), 0 if fmt == "hdf5" else 1)
    cls = c.pick([MemGroup, MemDiskGroup])
    g = cls()
    build(c, g, tree)
    fn = _file(c, fmt)
    c.note(fmt=fmt, cls=cls.__name__, conv=conv, tree=str({k: (None if v[0] is None else (v[0].shape, str(v[0].dtype), v[1]), v[2]) for k, v in tree.items()}))
    if c.chance(0.3):  # overwriting replaces the old content
        old = MemGroup()
        old.create_dataset("stale/data", data=np.arange(5))
        old.attrs["stale"] = 1
        old.to_file(fn, file_format=ff)
    if cls is MemGroup:
        if fmt == "hdf5" and c.chance(0.3):
            g.to_hdf5(fn, convert_dataset_strings=conv)
        else:
            g.to_file(fn, convert_dataset_strings=conv, file_format=c.pick([None, ff]))
    else:
        g.save(fn, convert_dataset_strings=conv, file_format=ff)
    # The object itself has not changed
    for p, (ref, _, at, _) in tree.items():
        e = g[p] if p != "/" else g
        if ref is not None:
            c.same(e[:], native(ref), f"source {p} after saving")
        have = {k: v for k, v in e.attrs.items() if not k.startswith("__memh5")}
        c.check(set(have) == set(at) and all(type(have[k]) is type(at[k]) for k in at), f"source attributes of {p} changed: {have}")
    # What is in the file, seen by the format's own library
    if fmt == "hdf5":
        with h5py.File(fn, "r") as f:
            check_tree(c, f, tree, "h5py", how="bytes" if conv else None, dtype=False, attrs=False)
            for p, (ref, o, *_) in tree.items():
                if ref is not None and o.get("compression") == "gzip":
                    c.check(f[p].compression == "gzip" and f[p].compression_opts == o["compression_opts"], f"compression of {p} is {f[p].compression}")
                if ref is not None and "chunks" in o:
                    c.check(f[p].chunks == o["chunks"], f"chunks of {p}: {f[p].chunks} != {o['chunks']}")
    else:
        check_tree(c, zarr.open_group(fn, "r"), tree, "zarr", how="bytes" if conv else None, dtype=False, attrs=False)
        for p, (ref, o, *_) in tree.items():
            if ref is not None and "compression" in o:
                compressed(c, zarr.open_group(fn, "r")[p], p, o)
    # Load again
    for _ in range(2):
        rconv = conv or c.chance(0.2)
        how = "unicode" if rconv else None
        sels, arg = gen_sels(c, tree, fmt) if c.chance(0.6) else (None, None)
        c.note(rconv=rconv, sels=str(arg))
        kw = dict(convert_dataset_strings=rconv, file_format=c.pick([None, ff]))
        if arg is not None or c.chance(0.5):
            m = MemGroup.from_file(fn, selections=arg, **kw)
        elif fmt == "hdf5" and c.chance(0.3):
            kw.pop("file_format")
            m = MemGroup.from_hdf5(fn, **kw)
        else:
            m = MemDiskGroup.from_file(fn, **kw)
        check_tree(c, m, tree, "loaded", how=how, sels=sels)
        c.count("loaded")
        # ... and once more around, from the loaded object
        if c.chance(0.4):
            fn2 = _file(c, fmt, 2)
            (m.to_file if isinstance(m, MemGroup) else m.save)(fn2, convert_dataset_strings=True, file_format=ff)
            m2 = MemGroup.from_file(fn2, convert_dataset_strings=rconv)
            check_tree(c, m2, tree, "second generation", how=how, sels=sels)
    if any(v[0] is not None and v[0].size for v in tree.values()):
        c.nontrivial(c.desc)


@group(quick=120, thorough=1500)
def ondisk(c):
    """Moving between memory and disk, and saving what is already on disk."""
    fmt = c.pick(["hdf5", "zarr"])
    ff = _ff(fmt)
    tree = gen_tree(c, fmt, NUM, 0 if fmt == "hdf5" else 1)
    for k, v in tree.items():
        if fmt == "zarr" or v[1].get("compression") == "bitshuffle":
            v[1].clear()
    g = MemDiskGroup()
    build(c, g, tree)
    fn, fn2, fn3 = (_file(c, fmt, i) for i in range(3))
    c.note(fmt=fmt, tree=str({k: (None if v[0] is None else (v[0].shape, str(v[0].dtype), v[1]), v[2]) for k, v in tree.items()}))
    if c.chance(0.4):  # overwriting replaces the old content
        old = MemGroup()
        old.create_dataset("stale/data", data=np.arange(5))
        old.to_file(fn, file_format=ff)
    d = g.to_disk(fn, file_format=ff)
    c.check(d.ondisk and not g.ondisk, "to_disk() result")
    check_tree(c, d, tree, "to_disk", dtype=False, attrs=False)
    m = d.to_memory()
    c.check(not m.ondisk and type(m) is MemDiskGroup, "to_memory() result")
    check_tree(c, m, tree, "to_memory")
    c.check(m.to_memory() is m, "to_memory of data in memory")
    d.save(fn2, file_format=ff)
    check_tree(c, MemGroup.from_file(fn2), tree, "saved from disk")
    d.close()
    with MemDiskGroup.from_file(fn2, ondisk=True, file_format=ff) as e:
        check_tree(c, e, tree, "reopened", dtype=False, attrs=False)
    mg = MemGroup()
    src = h5py.File(fn2, "r") if fmt == "hdf5" else zarr.open_group(fn2, "r")
    deep_group_copy(src, mg, file_format=ff)
    check_tree(c, mg, tree, "copied from disk")
    if fmt == "hdf5":
        src.close()
    # Selections when copying into a file, from memory
    sels, arg = gen_sels(c, tree, "zarr")
    src = MemGroup()
    build(c, src, tree)
    with ff.open(fn3, "w") as f:
        deep_group_copy(src, f, selections=arg, file_format=ff)
    check_tree(c, MemGroup.from_file(fn3), tree, "selection copied into a file", sels=sels)
    if any(v[0] is not None and v[0].size for v in tree.values()):
        c.nontrivial(c.desc)


@group(quick=60, thorough=600)
def strings(c):
    """Unicode is refused without conversion; conversions can be switched off."""
    fmt = c.pick(["hdf5", "hdf5", "zarr"])
    ff = _ff(fmt)
    fn = _file(c, fmt)
    ref = rand_array(c.rng, (c.int(1, 5), c.int(1, 3)), c.pick(UNI))
    g = MemGroup()
    g.create_dataset("grp/text", data=ref.copy())
    if fmt == "hdf5":
        c.raises(TypeError, g.to_file, fn, convert_dataset_strings=False, file_format=ff, msg="unicode dataset")
    g.to_file(fn, convert_dataset_strings=True, file_format=ff)
    c.same(g["grp/text"][:], ref, "source after saving")
    raw = MemGroup.from_file(fn, convert_dataset_strings=False)["grp/text"][:]
    c.same(raw, native(ref, "bytes"), "bytes in the file")
    back = MemGroup.from_file(fn, convert_dataset_strings=True)["grp/text"][:]
    c.same(back, ref, "converted back")
    if fmt == "hdf5":
        with h5py.File(fn, "w") as f:
            f.attrs["b"] = np.bytes_(b"bytes")
            f.attrs["u"] = "uni"
        a = MemGroup.from_file(fn, convert_attribute_strings=False).attrs
        c.check(a["b"] == b"bytes" and a["u"] == "uni", f"attributes without conversion: {dict(a)}")
        a = MemGroup.from_file(fn, convert_attribute_strings=True).attrs
        c.check(a["b"] == "bytes" and a["u"] == "uni", f"attributes with conversion: {dict(a)}")

        with MemDiskGroup.from_file(fn, ondisk=True) as d:
            a = d.to_memory().attrs
            c.check(a["b"] == "bytes" and a["u"] == "uni", f"attributes moved to memory: {dict(a)}")
            fn2 = _file(c, fmt, 2)
            d.save(fn2)
        a = MemGroup.from_file(fn2).attrs
        c.check(a["b"] == "bytes" and a["u"] == "uni", f"attributes saved from disk: {dict(a)}")
        # Text in a zarr file can be saved as HDF5
        zf = os.path.join(c.tmp, "u.zarr")
        z = zarr.open_group(zf, "w")
        z.create_dataset("text", data=native(ref, "unicode"), shape=ref.shape, dtype=native(ref, "unicode").dtype, compressor=None)
        with MemDiskGroup.from_file(zf, ondisk=True, file_format=fileformats.Zarr) as d:
            fn3 = _file(c, fmt, 3)
            c.raises(TypeError, d.save, fn3, msg="unicode dataset saved from disk")
            os.remove(fn3)
            d.save(fn3, convert_dataset_strings=True)
        c.same(MemGroup.from_file(fn3)["text"][:], native(ref, "bytes"), "text saved from disk")

        # A subclass can choose its own defaults
        t = Text()
        t.create_dataset("text", data=ref.copy())
        t.save(fn)
        c.same(MemGroup.from_file(fn)["text"][:], native(ref, "bytes"), "class default for saving")
        c.same(Text.from_file(fn)["text"][:], ref, "class default for loading")
        c.check(type(MemDiskGroup.from_file(fn)) is Text, "subclass restored")
        c.check(type(MemDiskGroup.from_file(fn, detect_subclass=False)) is MemDiskGroup, "subclass detection off")
    c.note(fmt=fmt, dtype=str(ref.dtype), shape=ref.shape)
    c.nontrivial(fmt, ref.tolist())


class Text(MemDiskGroup):
    convert_dataset_strings = True


@group(quick=200, thorough=2500, mpi=(1, 2, 3, 4))
def distributed(c):
    """Trees with distributed datasets written and read by different sets of ranks."""
    comm = c.comm
    fmt = c.pick(["hdf5", "hdf5", "zarr"])
    ff = _ff(fmt)
    dts = ["f8", "f4", "c16", "i8", "i4", "u1", "?", "S5", [("a", "i4"), ("b", "f8")]]
    tree = gen_tree(c, fmt, dts, 0 if fmt == "hdf5" else 1)
    cls = c.pick([MemGroup, MemDiskGroup])
    g = cls(distributed=True, comm=comm)
    axes = {}
    for p, (ref, opts, at, _) in tree.items():
        if fmt == "zarr" and "chunks" in opts:
            # ranks write in parallel: chunks are shared between them, which needs the lock
            pass
        if ref is None:
            e = g if p == "/" else g.require_group(p)
        elif c.chance(0.6):
            axes[p] = c.int(0, ref.ndim - 1)
            e = g.create_dataset(p, data=mpi.make(mpiarray, ref, axes[p], comm, comm), distributed=True, **opts)
        else:
            e = g.create_dataset(p, data=ref.copy(), **opts)
        for k, v in at.items():
            e.attrs[k] = v
    fn = _file(c, fmt)
    hints = c.chance(0.85)
    c.note(fmt=fmt, cls=cls.__name__, hints=hints, axes=str(axes), tree=str({k: (None if v[0] is None else (v[0].shape, str(v[0].dtype), v[1]), v[2]) for k, v in tree.items()}))
    if cls is MemGroup:
        g.to_file(fn, hints=hints, file_format=ff)
    else:
        g.save(fn, hints=hints, file_format=ff)
    comm.Barrier()
    for p, ax in axes.items():
        mpi.verify(c, g[p].data, tree[p][0], ax, comm, f"source {p} after saving")
    if c.rank == 0:
        if fmt == "hdf5":
            with h5py.File(fn, "r") as f:
                check_tree(c, f, tree, "h5py", dtype=False, attrs=False)
                marks = {p: f[p].attrs.get("__memh5_distributed_dset") for p, v in tree.items() if v[0] is not None}
                for p in axes:
                    o = tree[p][1]
                    if "chunks" in o:
                        c.check(f[p].chunks == tuple(o["chunks"]), f"{p}: chunks {f[p].chunks} in the file, {o} given")
                    if "compression" in o:
                        c.check(f[p].compression == o["compression"] or (o["compression"] != "gzip" and f[p].compression is not None), f"{p}: compression {f[p].compression} in the file, {o} given")
        else:
            f = zarr.open_group(fn, "r")
            check_tree(c, f, tree, "zarr", dtype=False, attrs=False)
            for p in axes:
                if "compression" in tree[p][1]:
                    compressed(c, f[p], p, tree[p][1])
            marks = {p: f[p].attrs.get("__memh5_distributed_dset") for p, v in tree.items() if v[0] is not None}
        for p, m in marks.items():
            c.check((m is None) if not hints else bool(m) == (p in axes), f"hint of {p} in the file is {m}")
        left = sorted(os.listdir(c.tmp))
        c.check(left == [os.path.basename(fn)], f"files left behind: {left}")
    comm.Barrier()
    for _ in range(2):
        kind = c.pick(["dist", "dist", "dist", "serial", "split", "hints", "nohints"])
        rcomm = comm
        if kind == "split":
            rcomm = comm.Split(c.rank % 2, c.rank)
        sels, arg = gen_sels(c, tree, fmt) if c.chance(0.5) else (None, None)
        want = {p: a for p, a in axes.items() if hints}
        kw = {}
        if kind == "hints":
            hd = {}
            for p, v in tree.items():
                if v[0] is None or not c.chance(0.6):
                    continue
                if c.chance(0.6):
                    hd[p] = dict(distributed=True, axis=c.int(0, v[0].ndim - 1))
                    want[p] = hd[p]["axis"]
                elif c.chance(0.5):
                    hd[p] = dict(distributed=False)
                    want.pop(p, None)
            kw["hints"] = hd
            if not hd:
                want = {}  # an empty dictionary is no hints at all
        elif kind == "nohints":
            kw["hints"] = False
            want = {}
        elif kind == "serial":
            want = {}
        busy = c.chance(0.3)  # somebody else is reading the file
        c.note(read=kind, sels=str(arg), hintarg=str(kw), busy=busy)
        if cls is MemGroup or arg is not None or kw:
            m = MemGroup.from_file(fn, distributed=kind != "serial", comm=rcomm, selections=arg, file_format=ff, **kw)
        else:
            fh = h5py.File(fn, "r") if fmt == "hdf5" and busy else None
            m = MemDiskGroup.from_file(fn, distributed=kind != "serial", comm=rcomm, file_format=c.pick([None, ff]))
            if fh is not None:
                fh.close()
        got = walk(m)
        c.check(set(got) == set(tree), f"read {kind}: entries {sorted(got)}")
        for p, (ref, _, _, wat) in tree.items():
            e = got[p]
            check_attrs(c, e.attrs, wat, f"read {kind}: {p}")
            if ref is None:
                c.check(is_group(e), f"{p} is not a group")
                continue
            w = native(ref)
            if sels and p in sels:
                w = _apply(w, sels[p])
            c.check(e.distributed == (p in want), f"read {kind}: {p} distributed={e.distributed}")
            if p in want:
                mpi.verify(c, e.data, w, want[p], rcomm, f"read {kind}: {p}")
            else:
                c.same(e[:], w, f"read {kind}: {p}")
        c.count("read_" + kind)
        if kind == "split":
            rcomm.Free()
    subs = sorted(p for p, v in tree.items() if v[0] is None and p != "/")
    if subs and cls is MemGroup and c.chance(0.6):
        s = c.pick(subs)
        fn2 = os.path.join(c.tmp, "sub" + os.path.splitext(fn)[1])
        g[s].to_file(fn2, file_format=ff)
        comm.Barrier()
        part = {p[len(s) :] or "/": v for p, v in tree.items() if p == s or p.startswith(s + "/")}
        m = MemGroup.from_file(fn2, distributed=True, comm=comm, file_format=ff)
        got = walk(m)
        c.check(set(got) == set(part), f"group {s} saved alone: entries {sorted(got)}")
        for p, (ref, _, _, wat) in part.items():
            check_attrs(c, got[p].attrs, wat, f"group {s} saved alone: {p}")
            if ref is None:
                continue
            src = s + p if p != "/" else s
            if src in axes:
                mpi.verify(c, got[p].data, native(ref), axes[src], comm, f"group {s} saved alone: {p}")
            else:
                c.same(got[p][:], native(ref), f"group {s} saved alone: {p}")
        c.count("subgroup_saved")
    if any(v[0] is not None and v[0].size for v in tree.values()):
        c.nontrivial(c.desc)


@group(quick=250, thorough=3000)
def formats(c):
    """Which format a name stands for, and which compressions a format takes."""
    H, Z = fileformats.HDF5, fileformats.Zarr
    stem = c.pick(["a", "data.h5x", "x.zarrs", "with space", ".hidden", "x.zarr.old", "a.h5.bak", "zarr", "h5"])
    ext, want = c.pick([(".h5", H), (".hdf5", H), (".zarr", Z), (".zarr.zip", Z), ("", None), (".txt", None), (".zip", None), (".h5.zarr", Z), (".zarr.h5", H)])
    deep = c.chance(0.3)
    name = os.path.join(c.tmp, *(["sub.zarr"] if deep and not ext else ["sub.h5"] if deep else []), stem + ext)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    what = c.pick(["missing", "file", "directory"])
    if what == "file":
        open(name, "w").close()
    elif what == "directory" and want is not H:
        os.makedirs(name)
        want = Z
    if c.chance(0.3):
        name = __import__("pathlib").Path(name)
    c.note(name=str(name), what=what)
    c.check(fileformats.guess_file_format(name) is (want or H), f"{name} ({what}): guessed {fileformats.guess_file_format(name)}")
    for default in (None, H, Z):
        got = fileformats.guess_file_format(name, default)
        c.check(got is (want or default), f"{name} ({what}), default {default}: guessed {got}, expected {want or default}")
    # The name, the kind of data and the format asked for have to agree
    k = c.pick(["none", "memory", "hdf5", "zarr"])
    h5 = h5py.File(os.path.join(c.tmp, "f"), "w", driver="core", backing_store=False)
    data = {"none": None, "memory": MemGroup(), "hdf5": h5, "zarr": zarr.group()}[k]
    kind = {"hdf5": H, "zarr": Z}.get(k)
    for ask in (None, H, Z, "hdf5", "zarr"):
        if isinstance(ask, str) or (kind and want and kind is not want) or (ask is not None and ask is not (kind or want)):
            c.raises(ValueError, fileformats.check_file_format, str(name), ask, data, msg=f"{name}, {k}, {ask}")
        else:
            got = fileformats.check_file_format(str(name), ask, data)
            c.check(got is (kind or want), f"{name}, {k}, {ask}: {got}, expected {kind or want}")
    h5.close()
    # Compression
    import numcodecs

    lev = c.int(1, 9)
    codec = c.pick([numcodecs.GZip(level=3), numcodecs.Blosc("zstd"), numcodecs.Zlib()])
    c.check(H.compression_kwargs("gzip", lev) == {"compression": "gzip", "compression_opts": lev} and H.compression_kwargs() == {}, f"HDF5 gzip: {H.compression_kwargs('gzip', lev)}")
    c.check(Z.compression_kwargs("gzip", lev) == {"compressor": numcodecs.GZip(level=lev)}, f"Zarr gzip: {Z.compression_kwargs('gzip', lev)}")
    c.check(Z.compression_kwargs(compressor=codec) == {"compressor": codec} and Z.compression_kwargs() == {"compressor": None}, "a codec is passed on")
    filt, block = c.pick(["bitshuffle", fileformats.H5FILTER, str(fileformats.H5FILTER)]), c.pick([None, 0, 4096])
    alg = c.pick(["lz4", fileformats.H5_COMPRESS_LZ4, str(fileformats.H5_COMPRESS_LZ4)])
    got = H.compression_kwargs(filt, (block, alg))
    c.check(got == {"compression": fileformats.H5FILTER, "compression_opts": (block or 0, fileformats.H5_COMPRESS_LZ4)}, f"HDF5 {filt} {block} {alg}: {got}")
    got = Z.compression_kwargs(filt, (block, alg))["compressor"].get_config()
    c.check((got["id"], got["cname"], got["shuffle"], got["blocksize"]) == ("blosc", "lz4", 2, block or 0), f"Zarr {filt} {block} {alg}: {got}")
    c.raises(NotImplementedError, H.compression_kwargs, compressor=codec, msg="codec for HDF5")
    c.raises(ValueError, H.compression_kwargs, filt, msg="HDF5 bitshuffle without options")
    for f in (H, Z):
        c.raises(ValueError, f.compression_kwargs, filt, c.pick([(1,), (0, "lz4", 3)]), msg="a wrong number of options")
    c.raises(ValueError, Z.compression_kwargs, c.pick(["lzf", "szip", "zstd", 307]), c.pick([None, lev]), msg="a filter Zarr does not have")
    both = c.pick([dict(compression="gzip"), dict(compression_opts=lev), dict(compression="gzip", compression_opts=lev), dict(compression="bitshuffle", compression_opts=(0, "lz4"))])
    c.raises(ValueError, Z.compression_kwargs, compressor=codec, msg=f"a codec and {both}", **both)
    c.nontrivial(stem, ext, what, k)
