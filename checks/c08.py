"""C08 copies are independent of the original, except where sharing was asked for."""

import copy
import warnings

import numpy as np

from vf import mpi
from vf.core import array_same, group, rand_array

from caput import mpiarray
from caput.containers import Container
from caput.memdata import MemDataset, MemDiskGroup, MemGroup, deep_group_copy, is_group

warnings.simplefilter("ignore")

RULE = (
    "random trees copied in every supported way, with random shared datasets; then random "
    "mutations on either side, each observed from both sides; non-trivial when a dataset with "
    "data was copied; distinct by (tree, way of copying, mutations)"
)
ASSUMPTIONS = []

DT = ["f8", "f4", "c16", "i8", "u1", "?", "S5", "U3", [("x", "i4"), ("y", "f8")], "O", "SO", "SO1"]


def gen_data(c, dist):
    dt = c.pick(DT[:6] if dist else DT)
    shape = tuple(c.int(1, 4) for _ in range(c.int(1, 3)))
    if dt == "O":
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = [c.int(0, 9), {"k": c.int(0, 9)}]
        return a
    if dt == "SO":
        a = np.zeros(shape, dtype=[("n", "i4"), ("o", object)])
        for i in np.ndindex(*shape):
            a[i] = (c.int(0, 9), [c.int(0, 9)])
        return a
    if dt == "SO1":
        a = np.zeros(shape, dtype=[("o", object)])
        for i in np.ndindex(*shape):
            a[i] = ([c.int(0, 9)],)
        return a
    return rand_array(c.rng, shape, dt)


def strided(c, a):
    """The same values, sometimes in an array which is not contiguous."""
    k = c.pick(["c", "c", "f", "step", "reversed"])
    if k == "f":
        return a.copy(order="F")
    if k == "step":
        b = np.zeros((*a.shape[:-1], a.shape[-1] * 2), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if k == "reversed":
        return a[::-1].copy()[::-1]
    return a


def gen_attrs(c):
    return {
        f"a{i}": c.pick([1, "txt", [1, 2, [3]], {"k": {"n": [1, 2]}, "m": 2}, np.arange(4.0), None])
        for i in range(c.int(0, 3))
    }


def build(c, cls, dist):
    if dist:
        g = cls(distributed=True, comm=c.comm)
    else:
        g = cls()
    names = {}
    for i in range(c.int(1, 4)):
        p = "/" + c.pick(["", "g/", "g/h/", "q/"]) + f"d{i}"
        ref = gen_data(c, dist)
        opts = {}
        if c.chance(0.3):
            opts = dict(chunks=tuple(ref.shape), compression="gzip", compression_opts=3)
        if dist and c.chance(0.6):
            ax = c.int(0, ref.ndim - 1)
            d = g.create_dataset(p, data=mpi.make(mpiarray, ref, ax, c.comm, c.comm), distributed=True, **opts)
        else:
            d = g.create_dataset(p, data=strided(c, copy.deepcopy(ref)), **opts)
        d.attrs.update(copy.deepcopy(gen_attrs(c)))
        names[p] = ref
    g.attrs.update(copy.deepcopy(gen_attrs(c)))
    for p in {x.rsplit("/", 1)[0] for x in names}:
        if p:
            g[p].attrs.update(copy.deepcopy(gen_attrs(c)))
    return g, names


def snap(g):
    """Everything observable in a tree, as plain values."""
    out = {}
    stack = [g]
    while stack:
        e = stack.pop()
        at = copy.deepcopy(dict(e.attrs))
        if is_group(e):
            out[e.name] = ("group", at)
            stack += [e[k] for k in e]
        else:
            out[e.name] = (
                "dset", at, copy.deepcopy(np.array(e.local_data)), tuple(e.shape),
                e.distributed_axis if e.distributed else None,
                e.chunks, e.compression, e.compression_opts,
            )  # fmt: skip
    return out


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object or (a.dtype.names and any(a.dtype[n] == object for n in a.dtype.names)):
            return a.tolist() == b.tolist()
        return array_same(a, b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not eq(a[k], b[k]))


def mutate_data(c, d):
    """Change the content of a dataset in place; returns a description."""
    x = d.local_data
    seed = c.int(0, 2**31)  # every rank draws the same, whatever it holds
    if not x.size:
        return None
    i = tuple(int(n) for n in np.random.default_rng(seed).integers(0, x.shape))
    if x.dtype == object:
        x[i].append("new")
        return "object"
    if x.dtype.names and x.dtype[x.dtype.names[-1]] == object:
        x["o"][i].append("new")
        return "object field"
    if x.dtype.names:
        x[x.dtype.names[0]][i] += 1
        return "field"
    if x.dtype.kind in "SU":
        x[i] = "q" if x[i] not in ("q", b"q") else "z"
    elif x.dtype.kind == "b":
        x[i] = ~x[i]
    else:
        x[i] = x[i] + 1 if x[i] == x[i] and abs(x[i]) < 2**50 else 0
    return "element"


def mutate_attrs(c, e):
    for k in sorted(e.attrs):
        v = e.attrs[k]
        if isinstance(v, dict):
            v["k"]["n"].append(9)
            return "nested dict"
        if isinstance(v, list):
            v[2].append(9)
            return "nested list"
        if isinstance(v, np.ndarray):
            v[0] += 1
            return "array"
    if c.chance(0.5) and len(e.attrs):
        del e.attrs[sorted(e.attrs)[0]]
        return "delete"
    e.attrs["fresh"] = c.int(0, 9)
    return "new"


def observe(c, a, b, shared, steps, dist):
    """Mutate either side and watch both."""
    log = []
    for _ in range(steps):
        x, y = (a, b) if c.chance(0.5) else (b, a)
        sx, sy = snap(x), snap(y)
        dsets = sorted(k for k, v in sx.items() if v[0] == "dset")
        groups = sorted(k for k, v in sx.items() if v[0] == "group")
        op = c.pick(["data", "data", "attr", "attr", "gattr", "new", "del", "meta"] + (["redist"] if dist else []))
        if op == "data" and dsets:
            p = c.pick(dsets)
            what = mutate_data(c, x[p])
        elif op == "attr" and dsets:
            p = c.pick(dsets)
            what = mutate_attrs(c, x[p])
        elif op == "gattr":
            p = c.pick(groups)
            what = mutate_attrs(c, x[p] if p != "/" else x)
        elif op == "new":
            p = f"/new{len(log)}_{c.int(0, 9)}"
            if p in sx or p in sy:
                continue
            x.create_dataset(p, data=np.arange(3))
            what = "create"
        elif op == "del" and dsets:
            p = c.pick(dsets)
            del x[p]
            what = "delete"
        elif op == "meta" and dsets:
            p = c.pick(dsets)
            base = x[p]
            what = "overwrite"
            base.local_data[...] = base.local_data[::-1].copy() if base.local_data.dtype != object else base.local_data
        elif op == "redist" and dsets:
            p = c.pick(dsets)
            if not x[p].distributed:
                continue
            what = "redistribute"
            x[p].redistribute(c.int(0, len(x[p].shape) - 1))
        else:
            continue
        log.append((op, p, what))
        tx, ty = snap(x), snap(y)
        ch, cho = diff(sx, tx), diff(sy, ty)
        c.check(set(ch) <= {p}, f"{log[-1]} also changed {ch}")
        if p in shared and op in ("data", "attr", "meta", "redist") and p in ty:
            c.check(eq(tx[p], ty[p]), f"shared dataset {p} differs between original and copy after {log[-1]}")
            c.check(set(cho) <= {p}, f"{log[-1]} changed {cho} on the other side")
            c.count("shared_mutations")
        else:
            c.check(not cho, f"{log[-1]} on one side changed {cho} on the other")
            c.count("private_mutations")
        if op == "del" and p in shared:
            shared = shared - {p}
    return log


def run(c, dist):
    cls = c.pick([MemGroup, MemDiskGroup])
    g, names = build(c, cls, dist)
    before = snap(g)
    shared = set()
    if cls is MemGroup:
        way = c.pick(["from_group", "deep_group_copy", "shared", "shallow"] if not dist else ["deep_group_copy", "shared", "shallow"])
        if way == "from_group":
            h = MemGroup.from_group(g)
        else:
            h = MemGroup(distributed=True, comm=c.comm) if dist else MemGroup()
            kw = {}
            if way == "shared":
                shared = {p for p in names if c.chance(0.5)}
                kw["shared"] = [p if c.chance(0.5) else p[1:] for p in sorted(shared)]
            if way == "shallow":
                shared = set(names)
                kw["shallow"] = True
            deep_group_copy(g, h, **kw)
    else:
        way = c.pick(["copy", "deepcopy", "shared", "shallow"])
        if way == "copy":
            h = g.copy()
        elif way == "deepcopy":
            h = copy.deepcopy(g)
        elif way == "shared":
            shared = {p for p in names if c.chance(0.5)}
            h = g.copy(shared=[p if c.chance(0.5) else p[1:] for p in sorted(shared)])
        else:
            shared = set(names)
            h = g.copy(shallow=True)
        c.check(type(h) is type(g), f"copy has type {type(h)}")
        c.check(h.distributed == g.distributed and h.comm == g.comm, "distribution settings of the copy")
    c.note(cls=cls.__name__, way=way, shared=str(sorted(shared)), names=str({k: (v.shape, str(v.dtype)) for k, v in names.items()}))
    d = diff(before, snap(g))
    c.check(not d, f"copying changed the original: {d}")
    d = diff(before, snap(h))
    c.check(not d, f"the copy differs from the original in {d}: {[(before.get(k), snap(h).get(k)) for k in d][:1]}")
    for p in names:
        a, b = g[p].local_data, h[p].local_data
        if a.size:
            c.check(np.shares_memory(a, b) == (p in shared), f"{p}: memory shared is {np.shares_memory(a, b)}")
    log = observe(c, g, h, shared, c.int(3, 10), dist)
    c.nontrivial(c.desc, log)


@group(quick=500, thorough=8000)
def trees(c):
    """Whole trees in one process."""
    run(c, False)


@group(quick=120, thorough=1500, mpi=(1, 2, 3))
def distributed(c):
    """Whole trees with distributed datasets."""
    run(c, True)


@group(quick=200, thorough=2000)
def datasets(c):
    """Single datasets: copies, views, subgroups and arrays handed over."""
    g, names = build(c, MemGroup, False)
    p = c.pick(sorted(names))
    d = g[p]
    way = c.pick(["copy", "deepcopy", "view", "selection", "subgroup"])
    c.note(way=way, name=p, shape=d.shape, dtype=str(d.dtype))
    if way in ("copy", "deepcopy", "view"):
        order = c.pick(["C", "F", "A", "K"])
        e = d.copy(order=order) if way == "copy" else copy.deepcopy(d) if way == "deepcopy" else d.view()
        c.check(isinstance(e, MemDataset), "type")
        c.check(eq(np.array(e[:]), np.array(d[:])) and e.name == d.name, "content of the copy")
        c.check(e.chunks == d.chunks and e.compression == d.compression and e.compression_opts == d.compression_opts, "storage options")
        x0, at0 = copy.deepcopy(np.array(d[:])), copy.deepcopy(dict(d.attrs))
        c.check(eq(dict(e.attrs), at0), "attributes of the copy")
        wd = mutate_data(c, e)
        wa = mutate_attrs(c, e)
        if way == "view":
            c.check(eq(np.array(e[:]), np.array(d[:])) and eq(dict(e.attrs), dict(d.attrs)), f"view after {wd} {wa}")
        else:
            c.check(eq(np.array(d[:]), x0), f"{wd} in the copy changed the original")
            c.check(eq(dict(d.attrs), at0), f"{wa} in the attributes of the copy changed the original")
    elif way == "selection":
        h = MemGroup()
        sel = {q: (slice(0, c.int(1, v.shape[0])),) for q, v in names.items() if c.chance(0.7)}
        deep_group_copy(g, h, selections=sel)
        for q, v in names.items():
            w = v[sel[q]] if q in sel else v
            c.check(eq(np.array(h[q][:]), w), f"selection of {q}")
            b = copy.deepcopy(np.array(g[q][:]))
            mutate_data(c, h[q])
            c.check(eq(np.array(g[q][:]), b), f"changing the selected copy of {q} changed the original")
        if sel:
            q = sorted(sel)[0]
            if names[q].shape[0] >= 1:
                c.raises(ValueError, deep_group_copy, g, MemGroup(), selections=sel, shared=[q], msg="selection of a shared dataset")
    else:
        par = p.rsplit("/", 1)[0] or "/"
        src = g[par]
        if c.chance(0.3):
            h = dst = MemGroup.from_group(src)
        else:
            h = MemGroup()
            dst = h if c.chance(0.5) else h.create_group("into/here")
            deep_group_copy(src, dst)
        base = "" if par == "/" else par
        sub = {k[len(base) :] or "/": v for k, v in snap(src).items()}
        b2 = "" if dst.name == "/" else dst.name
        got = {k[len(b2) :] or "/": v for k, v in snap(dst).items()}
        c.check(not diff(sub, got), f"copy of subgroup {par} into {dst.name}: {sorted(got)} != {sorted(sub)}")
        if dst is not h:
            c.check(list(h) == ["into"], f"copy into a subgroup created {list(h)} in the root")
        q = dst.name.rstrip("/") + p[len(base) :]
        x0 = copy.deepcopy(np.array(d[:]))
        mutate_data(c, h[q])
        mutate_attrs(c, h[q])
        c.check(eq(np.array(d[:]), x0), "changing the copy of a subgroup changed the original")
    c.nontrivial(c.desc, c.idx)
