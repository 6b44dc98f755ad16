"""C06 in-memory trees behave like a hierarchical file (model-based histories)."""

import os
import posixpath
import warnings

import h5py
import numpy as np
import zarr

from vf import mpi
from vf.core import group, rand_array

from caput import mpiarray
from caput.memdata import MemDiskGroup, MemGroup, fileformats, is_group

warnings.simplefilter("ignore")

RULE = (
    "random histories of create/require/delete/lookup/attribute/write operations by relative and "
    "absolute path from random handles, against a model tree; non-trivial when the tree had "
    "at least two levels; distinct by the history"
)
ASSUMPTIONS = ["handles to deleted entries are not used again"]

NAMES = ["a", "b", "c", "dd", "e_1"]
DT = ["f8", "f4", "c16", "i8", "i4", "u1", "?", "S5", "U3", [("x", "i4"), ("y", "f8")]]


class G:
    def __init__(self):
        self.attrs, self.kids = {}, {}


class D:
    def __init__(self, ref):
        self.attrs, self.ref = {}, ref
        self.dist = None  # distributed axis


def walk(node, path="/"):
    yield path, node
    if isinstance(node, G):
        for k, v in node.kids.items():
            yield from walk(v, posixpath.join(path, k))


def find(root, path):
    node = root
    for p in [p for p in path.split("/") if p]:
        if not isinstance(node, G) or p not in node.kids:
            return None
        node = node.kids[p]
    return node


def norm(base, rel):
    p = posixpath.join(base, rel)
    return "/" + "/".join(x for x in p.split("/") if x)


def rand_path(c, root, base, existing):
    """A path, relative to base or absolute, in an unusual spelling now and then."""
    paths = [p for p, n in walk(root)]
    if existing and len(paths) > 1:
        full = c.pick(paths[1:])
    else:
        groups = [p for p, n in walk(root) if isinstance(n, G)]
        if c.chance(0.1):
            groups = paths  # possibly through a dataset
        full = c.pick(groups)
        for _ in range(c.pick([1, 1, 1, 2, 3])):
            full = posixpath.join(full, c.pick(NAMES))
    b = base.rstrip("/")
    if full.startswith(b + "/") and c.chance(0.7):
        out = full[len(b) + 1 :]
    else:
        out = full
    if c.chance(0.15):
        out = out.replace("/", "//", 1) if "/" in out[1:] else out
    return out, full


def attr_value(c, disk=False):
    v = [c.int(-5, 5), float(c.rng.standard_normal()), "text", "", c.rng.integers(0, 9, 3).tolist(), True]
    if not disk:
        v += [None, {"k": [1, 2], "n": {"z": 1}}, np.arange(3), b"bytes", ("t", 1)]
    return c.pick(v)


def attrs_equal(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not np.array_equal(np.asarray(x), np.asarray(y)):
                return False
        elif x != y or (isinstance(x, str) != isinstance(y, str)):
            return False
    return True


def compare(c, g, node, msg, disk=False, typ=None):
    """The subtree visible through handle g is exactly `node`."""
    keys = list(g)
    c.check(sorted(keys) == sorted(node.kids), f"{msg}: entries {sorted(keys)} != {sorted(node.kids)} in {g.name}")
    c.check(len(g) == len(node.kids), f"{msg}: len {len(g)} != {len(node.kids)} in {g.name}")
    c.check(attrs_equal(dict(g.attrs), node.attrs), f"{msg}: attributes of {g.name}: {dict(g.attrs)} != {node.attrs}")
    for k, n in node.kids.items():
        e = g[k]
        want = norm(g.name, k)
        c.check(e.name == want, f"{msg}: name {e.name} != {want}")
        if isinstance(n, G):
            c.check(is_group(e), f"{msg}: {want} is not a group")
            if typ is not None:
                c.check(type(e) is typ, f"{msg}: subgroup {want} has type {type(e)}")
            compare(c, e, n, msg, disk, typ)
        else:
            c.check(not is_group(e), f"{msg}: {want} is not a dataset")
            c.check(tuple(e.shape) == n.ref.shape, f"{msg}: shape of {want}: {e.shape}")
            if n.dist is None:
                c.same(e[:], n.ref, f"{msg}: data of {want}")
            c.check(attrs_equal(dict(e.attrs), n.attrs), f"{msg}: attributes of {want}: {dict(e.attrs)} != {n.attrs}")


def history(c, top, root, nops, disk=False, dtypes=DT):
    """Run random operations on the real tree and the model."""
    handles = [(top, "/")]
    log = []
    typ = type(top)
    exists_err = (ValueError, TypeError, KeyError) if disk else (ValueError, TypeError)
    for step in range(nops):
        h, base = c.pick(handles)
        op = c.pick(
            ["group", "group", "dset", "dset", "dset", "require_group", "require_dset", "del", "attr", "attr", "write", "get", "get", "nav"]
        )
        before = None
        if op == "group" or op == "require_group":
            rel, full = rand_path(c, root, base, c.chance(0.3))
            log.append((op, base, rel))
            node = find(root, full)
            through = _through_dataset(root, full)
            if op == "group" and node is not None:
                c.raises(exists_err, h.create_group, rel, msg=f"create_group({rel}) on an existing entry")
                c.count("refused")
            elif through and node is None:
                c.raises(exists_err, getattr(h, "create_group" if op == "group" else op), rel, msg=f"{op}({rel}) below a dataset")
                c.count("refused")
            elif op == "require_group" and isinstance(node, D):
                c.raises(TypeError, h.require_group, rel, msg=f"require_group({rel}) on a dataset")
                c.count("refused")
            else:
                r = h.create_group(rel) if op == "group" else h.require_group(rel)
                c.check(r.name == full, f"{op}({rel}) from {base}: name {r.name}")
                _mk(root, full)
                if len(handles) < 8:
                    handles.append((r, full))
        elif op in ("dset", "require_dset"):
            rel, full = rand_path(c, root, base, op == "require_dset" and c.chance(0.5))
            node = find(root, full)
            log.append((op, base, rel))
            if op == "dset" and node is not None:
                continue
            shape = tuple(c.int(0 if not disk else 1, 4) for _ in range(c.int(1, 3)))
            dt = np.dtype(c.pick(dtypes))
            if _through_dataset(root, full) and node is None:
                c.raises(exists_err, h.create_dataset, rel, shape=shape, dtype=dt, msg=f"create_dataset({rel}) below a dataset")
                c.count("refused")
            elif op == "require_dset":
                if isinstance(node, G):
                    c.raises(TypeError, h.require_dataset, rel, shape=shape, dtype=dt, msg="require_dataset on a group")
                    c.count("refused")
                elif node is not None:
                    r = h.require_dataset(rel, shape=node.ref.shape, dtype=node.ref.dtype)
                    c.same(r[:], node.ref, f"require_dataset({rel}) on an existing dataset")
                else:
                    r = h.require_dataset(rel, shape=shape, dtype=dt)
                    c.check(r.name == full, f"require_dataset name {r.name}")
                    _mkd(root, full, np.zeros(shape, dt))
            else:
                kind = c.int(0, 2)
                ref = rand_array(c.rng, shape, dt)
                if kind == 0:
                    r = h.create_dataset(rel, shape=shape, dtype=dt)
                    ref = np.zeros(shape, dt)
                elif kind == 1:
                    r = h.create_dataset(rel, data=ref.copy())
                else:
                    # A different type is converted
                    src = ref
                    if dt.kind == "f" and dt.itemsize == 4:
                        src = rand_array(c.rng, shape, "f8")
                        ref = src.astype(dt)
                    r = h.create_dataset(rel, shape=shape, dtype=dt, data=src.copy())
                c.check(r.name == full, f"create_dataset({rel}) name {r.name} != {full}")
                c.check(r.dtype == dt, f"create_dataset({rel}): dtype {r.dtype}")
                c.same(r[:], ref, f"create_dataset({rel}): data")
                _mkd(root, full, ref)
        elif op == "del":
            if c.chance(0.3):
                rel, full = rand_path(c, root, base, False)
                if find(root, full) is None:
                    c.raises(KeyError, h.__delitem__, rel, msg=f"deleting a missing entry {rel}")
                continue
            rel, full = rand_path(c, root, base, True)
            if full == "/" or (disk and rel.startswith("//")) or rel.endswith("/") or find(root, full) is None:
                continue
            if any(p == full or p.startswith(full + "/") for _, p in handles) and c.chance(0.7):
                continue
            log.append((op, base, rel))
            handles = [x for x in handles if not (x[1] == full or x[1].startswith(full + "/"))]
            # the handle used for the operation may itself be going away
            del h[rel]
            par, nm = posixpath.split(full)
            del find(root, par).kids[nm]
            c.count("deleted")
        elif op == "attr":
            rel, full = rand_path(c, root, base, True)
            node = find(root, full)
            if node is None:
                continue
            e = h[rel] if full != base else h
            k = c.pick(["k1", "k2", "k3"])
            log.append((op, full, k))
            if k in node.attrs and c.chance(0.3):
                del e.attrs[k]
                del node.attrs[k]
            else:
                v = attr_value(c, disk)
                e.attrs[k] = v
                node.attrs[k] = v
        elif op == "write":
            ds = [(p, n) for p, n in walk(root) if isinstance(n, D)]
            if not ds:
                continue
            p, n = c.pick(ds)
            if not n.ref.size:
                continue
            rel = p if c.chance(0.5) or not p.startswith(base.rstrip("/") + "/") else p[len(base.rstrip("/")) + 1 :]
            log.append((op, base, rel))
            d1 = h[rel]
            d2 = top[p]
            i = c.int(0, n.ref.shape[0] - 1)
            val = rand_array(c.rng, n.ref.shape[1:], n.ref.dtype)
            if n.ref.dtype.kind in "SU" or n.ref.dtype.names:
                d1[i : i + 1] = val[np.newaxis]
            else:
                d1[i] = val
            n.ref = n.ref.copy()
            n.ref[i] = val
            c.same(d2[:], n.ref, f"write to {p} seen through another handle")
            c.count("written")
        elif op == "get":
            rel, full = rand_path(c, root, base, c.chance(0.6))
            node = find(root, full)
            log.append((op, base, rel))
            c.check((rel in h) == (node is not None), f"{rel!r} in {base}: {rel in h}")
            if node is None:
                c.raises(KeyError, h.__getitem__, rel, msg=f"lookup of missing {rel!r}")
                c.check(h.get(rel, "dflt") == "dflt", "get() default")
                c.count("missing")
            else:
                e = h[rel]
                c.check(e.name == full, f"lookup {rel!r} from {base} gives {e.name}")
                c.check(is_group(e) == isinstance(node, G), f"kind of {full}")
                if isinstance(node, G) and c.chance(0.3) and len(handles) < 8:
                    handles.append((e, full))
        elif op == "nav" and not disk:
            rel, full = rand_path(c, root, base, True)
            node = find(root, full)
            if node is None or full == "/":
                continue
            e = h[rel]
            par = posixpath.split(full)[0]
            c.check(e.parent.name == par, f"parent of {full} is {e.parent.name}")
            c.check(e.file.name == "/", f"file of {full} is {e.file.name}")
            c.check(sorted(e.parent) == sorted(find(root, par).kids), f"entries of the parent of {full}")
            c.check(e == top[full], f"two handles of {full} differ")
            if full != "/":
                c.check(not (e == top), f"handle of {full} equals the root")
        if not disk or step % 6 == 5:
            compare(c, top, root, f"after {log[-1] if log else op}", disk)
            if handles:
                h, base = c.pick(handles)
                compare(c, h, find(root, base), f"seen from {base} after {log[-1] if log else op}", disk)
        c.count("ops")
        if not handles or (top, "/") not in [(x, p) for x, p in handles if p == "/"]:
            handles.append((top, "/"))
    compare(c, top, root, "at the end", disk)
    return log


def _through_dataset(root, full):
    parts = [p for p in full.split("/") if p]
    node = root
    for p in parts[:-1]:
        if isinstance(node, D):
            return True
        node = node.kids.get(p)
        if node is None:
            return False
    return isinstance(node, D)


def _mk(root, full):
    node = root
    for p in [p for p in full.split("/") if p]:
        node = node.kids.setdefault(p, G())
    return node


def _mkd(root, full, ref):
    par, nm = posixpath.split(full)
    _mk(root, par).kids[nm] = D(ref.copy())


@group(quick=400, thorough=6000)
def memory(c):
    """MemGroup, and a MemDiskGroup around one, against a model."""
    kind = c.pick(["MemGroup", "MemDiskGroup", "wrapped"])
    mg = None
    if kind == "MemGroup":
        top = MemGroup()
    elif kind == "MemDiskGroup":
        top = MemDiskGroup()
    else:
        mg = MemGroup()
        top = MemDiskGroup(mg)
    root = G()
    log = history(c, top, root, c.int(5, 40))
    if c.chance(0.2) and root.kids:
        for k in top:
            if c.chance(0.5):
                del top[k]
                del root.kids[k]
        compare(c, top, root, "after removing entries while going through them")
    if mg is not None:
        compare(c, mg, root, "wrapped group")
        sh = MemDiskGroup(top)  # a shallow copy sees the same tree
        compare(c, sh, root, "shallow copy")
    c.note(kind=kind, ops=len(log), last=str(log[-3:]))
    if any(isinstance(n, G) and p.count("/") and p != "/" for p, n in walk(root)):
        c.nontrivial(kind, log)


@group(quick=60, thorough=600)
def disk(c):
    """The same interface on top of HDF5 and zarr files; content checked with h5py/zarr."""
    fmt = c.pick(["hdf5", "zarr"])
    ff = fileformats.HDF5 if fmt == "hdf5" else fileformats.Zarr
    fn = os.path.join(c.tmp, "f." + ("h5" if fmt == "hdf5" else "zarr"))
    how = c.int(0, 2)
    if how == 0:
        top = MemDiskGroup(fn)
    elif how == 1:
        top = MemDiskGroup(fn, file_format=ff)
    else:
        raw = h5py.File(fn, "w") if fmt == "hdf5" else zarr.open_group(fn, "w")
        top = MemDiskGroup(raw)
    c.check(top.ondisk, "not on disk")
    if how < 2:
        raw = getattr(top, "_data", None)
    root = G()
    dts = ["f8", "f4", "i8", "i4", "u1", "?", "S5"]
    log = history(c, top, root, c.int(5, 20), disk=True, dtypes=dts)
    c.note(fmt=fmt, how=how, ops=len(log), last=str(log[-3:]))
    if c.chance(0.5):
        top.flush()
    top.close()
    if fmt == "hdf5":
        if how == 2:
            c.check(bool(raw), "a file opened by the caller was closed")
            raw.close()
        else:
            c.check(not raw, "file still open after close()")
        with h5py.File(fn, "r") as f:
            compare(c, f, root, "content of the file", disk=True)
    else:
        compare(c, zarr.open_group(fn, "r"), root, "content of the file", disk=True)
    mem = MemGroup.from_file(fn)
    compare(c, mem, root, "loaded file", disk=True) if fmt == "zarr" else None
    with MemDiskGroup.from_file(fn, ondisk=True) as again:
        compare(c, again, root, "reopened", disk=True)
    if len(root.kids) > 0:
        c.nontrivial(fmt, how, log)


class Restricted(MemDiskGroup):
    @staticmethod
    def group_name_allowed(name):
        return "no" not in name and not name.startswith("/lim/g")

    @staticmethod
    def dataset_name_allowed(name):
        return "bad" not in name and not name.startswith("/lim/d")


@group(quick=60, thorough=600)
def restricted(c):
    """Entries a subclass does not allow can not be created and are not visible."""
    mg = MemGroup()
    root = G()
    allp = {}
    for _ in range(c.int(2, 8)):
        parts = [c.pick(["ok", "x", "no", "y"]) for _ in range(c.int(0, 2))]
        name = c.pick(["d1", "bad", "d2", "badx", "z"])
        full = "/" + "/".join([*parts, name])
        if full in allp or find(root, full) is not None or _through_dataset(root, full):
            continue
        ref = rand_array(c.rng, (3,), "f8")
        mg.create_dataset(full, data=ref.copy())
        _mkd(root, full, ref)
        allp[full] = ref
    top = Restricted(mg)
    seen = {}
    stack = [top]
    while stack:
        g = stack.pop()
        c.check(len(g) == len(list(g)), "len differs from the visible entries")
        for k in g:
            e = g[k]
            if is_group(e):
                c.check("no" not in e.name, f"forbidden group {e.name} visible")
                stack.append(e)
            else:
                seen[e.name] = e
    want = {p for p in allp if "no" not in posixpath.split(p)[0] and "bad" not in p}
    c.check(set(seen) == want, f"visible datasets {sorted(seen)} != {sorted(want)}")
    for p, ref in allp.items():
        okd = "bad" not in p
        c.check((p in top) == okd, f"{p} in top is {p in top}")
        if okd:
            c.same(top[p][:], ref, p)
        else:
            c.raises(KeyError, top.__getitem__, p, msg="forbidden dataset")
    c.raises(ValueError, top.create_dataset, "badname", data=np.arange(3), msg="forbidden dataset name")
    c.raises(ValueError, top.create_group, "x/nope", msg="forbidden group name")
    c.check("badname" not in mg and "x/nope" not in mg, "refused entry was created")
    compare(c, mg, root, "the underlying group")
    lim = top.create_group("lim")
    c.raises(ValueError, lim.create_dataset, "d1", data=np.arange(3), msg="name forbidden by its full path")
    c.raises(ValueError, lim.create_group, "g1", msg="group forbidden by its full path")
    c.check(len(mg["lim"]) == 0, "refused entry was created")
    lim.create_dataset("e1", data=np.arange(3))
    lim.create_group("h1")
    top.create_dataset("d1x", data=np.arange(2))
    top.create_group("g1x")
    c.check(sorted(lim) == ["e1", "h1"], f"allowed entries: {sorted(lim)}")
    for k in lim:  # removing entries while going through them
        del lim[k]
    c.check(len(lim) == 0 and len(mg["lim"]) == 0, "entries left after removing all")
    if c.chance(0.5):
        top.create_dataset("fresh", data=np.arange(4))
        c.same(top["fresh"][:], np.arange(4), "allowed dataset")
    c.nontrivial(sorted(allp))
    c.note(paths=str(sorted(allp)))


@group(quick=120, thorough=1500, mpi=(1, 2, 3, 4))
def distributed(c):
    """Distributed and common datasets: conversion, redistribution and access from any handle."""
    comm = c.comm
    cls = c.pick([MemGroup, MemDiskGroup])
    top = cls(distributed=True, comm=comm)
    model, storage = {}, {}
    dts = ["f8", "f4", "c16", "i8", "i4", "u1", "?", [("x", "i4"), ("y", "f8")]]
    nd = c.int(1, 3)
    for i in range(nd):
        ref = mpi.gen_ref(c, dtypes=dts, small=6)
        name = c.pick(["", "g/", "g/h/"]) + f"d{i}"
        opts, st = {}, (None, None, None)
        if c.chance(0.6):
            opts["chunks"] = tuple(c.int(1, max(n, 1)) for n in ref.shape)
            st = (opts["chunks"], None, None)
            if c.chance(0.6):
                opts.update(compression=c.pick(["gzip", "lzf"]), compression_opts=c.int(1, 9))
                st = (st[0], opts["compression"], opts["compression_opts"])
        storage[name] = st
        if c.chance(0.5):
            top.create_dataset(name, data=ref.copy(), **opts)
            model[name] = [ref, None, {}]
        else:
            ax = c.int(0, ref.ndim - 1)
            how = c.int(0, 2)
            arr = mpi.make(mpiarray, ref, ax, comm, comm)
            if how == 0:
                d = top.create_dataset(name, data=arr, **opts)
            elif how == 1:
                ax = c.int(0, ref.ndim - 1)
                d = top.create_dataset(name, data=arr, distributed=True, distributed_axis=ax - ref.ndim if c.chance(0.3) else ax, **opts)
            else:
                d = top.create_dataset(name, shape=ref.shape, dtype=ref.dtype, distributed=True, distributed_axis=ax, **opts)
                d.local_data[...] = ref[mpi.local_sl(ref.ndim, ax, ref.shape[ax], comm)]
            model[name] = [ref, ax, {}]
        if c.chance(0.6):
            top[name].attrs["note"] = name
            model[name][2]["note"] = name
        if c.chance(0.3):
            top[name].attrs["empty"] = []
            model[name][2]["empty"] = []
    views = {n: top[n] for n in model}
    ops = []
    for _ in range(c.int(2, 10)):
        name = c.pick(sorted(model))
        ref, ax, at = model[name]
        op = c.pick(["toggle", "redistribute", "redistribute", "write", "attr", "chunks"])
        new = c.int(0, ref.ndim - 1)
        arg = new - ref.ndim if c.chance(0.3) else new
        ops.append((op, name, arg))
        c.note(ops=str(ops[-4:]), ref=str([ref.shape, str(ref.dtype)]), axis=ax)
        if op == "toggle":
            if ref.dtype.names:
                continue
            if ax is None:
                d = top.dataset_common_to_distributed(name, distributed_axis=arg)
                model[name][1] = new
            else:
                d = top.dataset_distributed_to_common(name)
                model[name][1] = None
            views[name] = d
            c.count("converted")
        elif op == "redistribute":
            if ax is None:
                continue
            d = views[name] if c.chance(0.5) else top[name]
            if c.chance(0.3):  # converting what is distributed already redistributes it
                d = top.dataset_common_to_distributed(name, distributed_axis=arg)
            else:
                d.redistribute(arg)
            model[name][1] = new
            views[name] = d
            c.check(d.distributed_axis == new, f"handle has axis {d.distributed_axis} after redistribute({arg})")
            if ref.size and c.chance(0.5):
                val = rand_array(c.rng, (), ref.dtype)
                d[0] = val
                model[name][0] = ref = ref.copy()
                ref[0] = val
            c.count("redistributed")
        elif op == "write":
            if not ref.size:
                continue
            i = c.int(0, ref.shape[0] - 1)
            val = rand_array(c.rng, (), ref.dtype)
            if ax is None:
                top[name][i] = val
            else:
                top[name][i] = val
            model[name][0] = ref = ref.copy()
            ref[i] = val
            c.count("written")
        elif op == "chunks":  # never larger than the dataset
            val = tuple(c.int(1, n + 3) for n in ref.shape)
            d = top._data[name] if hasattr(top, "_data") else top[name]
            base = d._storage_root[d.name] if hasattr(d, "_storage_root") else d
            base.chunks = val
            storage[name] = (tuple(map(min, val, ref.shape)), *storage[name][1:])
            c.raises(ValueError, setattr, base, "chunks", (*val, 1), msg="chunks with too many axes")
        else:
            top[name].attrs["a"] = len(ops)
            at["a"] = len(ops)
        for n, (r, a, t) in model.items():
            d = top[n]
            c.check(tuple(d.shape) == r.shape, f"{n}: shape {d.shape} != {r.shape} after {ops[-1]}")
            c.check(d.dtype == r.dtype, f"{n}: dtype {d.dtype}")
            have = (d.chunks, d.compression, d.compression_opts)
            c.check(have == storage[n], f"{n}: chunks and compression {have} != {storage[n]} after {ops[-1]}")
            c.check(d.distributed == (a is not None) and d.common == (a is None), f"{n}: distributed={d.distributed} after {ops[-1]}")
            c.check(dict(d.attrs) == t, f"{n}: attributes {dict(d.attrs)} != {t} after {ops[-1]}")
            if a is None:
                c.same(d[:], r, f"{n}: common data after {ops[-1]}")
            else:
                mpi.verify(c, d.data, r, a, comm, f"{n} after {ops[-1]}")
                c.check(d.distributed_axis == a, f"{n}: distributed axis {d.distributed_axis} != {a}")
                c.check(tuple(d.local_shape) == d.local_data.shape, f"{n}: local shape")
        c.count("ops")
    # A distributed dataset can not live in a group which is not distributed
    plain = MemGroup()
    c.raises(RuntimeError, plain.create_dataset, "x", shape=(3,), dtype="f8", distributed=True, distributed_axis=0, msg="distributed dataset in a plain group") if plain.comm is not None else None
    arr = mpi.make(mpiarray, np.arange(5.0), 0, comm, comm)
    c.raises(RuntimeError, plain.create_dataset, "x", data=arr, msg="MPIArray in a plain group")
    c.check("x" not in plain, "refused dataset was created")
    # ... and its communicator is the one of the group
    other = comm.Dup()
    far = mpi.make(mpiarray, np.arange(5.0), 0, other, comm)
    c.raises(RuntimeError, top.create_dataset, "far", data=far, msg="MPIArray of another communicator")
    c.check("far" not in top, "refused dataset was created")
    other.Free()
    c.nontrivial(cls.__name__, ops, [(n, v[0].shape) for n, v in model.items()])
