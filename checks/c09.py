"""C09 containers hold exactly what their specification says."""

import copy
import os
import warnings

import numpy as np
from mpi4py import MPI

from vf import conts, mpi
from vf.core import fast_sleep, group, rand_array

from caput import memdata
from caput.containers import Container, ContainerPrototype, DataWeightContainer, FreqContainer, TableSpec, empty_like
from caput.memdata import fileformats

warnings.simplefilter("ignore")
fast_sleep()

RULE = (
    "random container class hierarchies, axis definitions and ways of construction (axes given, "
    "copied or overridden), on 1-3 ranks; non-trivial when at least one dataset is created; "
    "distinct by the generated classes and arguments"
)
ASSUMPTIONS = ["datasets which are not copied have unspecified content"]


def _kw(c, comm, dist=None):
    if dist is None:
        dist = c.chance(0.7)
    kw = {}
    if not dist or c.chance(0.3):
        kw["distributed"] = dist
    same = comm is None or MPI.Comm.Compare(comm, MPI.COMM_WORLD) in (MPI.IDENT, MPI.CONGRUENT)
    if c.chance(0.5) or not same:
        kw["comm"] = comm
        return dist, kw, comm
    return dist, kw, MPI.COMM_WORLD


def check_layout(c, x, axes, dsets, maps, dist, present, comm, msg):
    c.check(tuple(x.axes) == tuple(sorted(axes)), f"{msg}: axes {x.axes} != {sorted(axes)}")
    c.check(set(x.index_map) == set(axes), f"{msg}: index_map has {sorted(x.index_map)}")
    for a in axes:
        c.same(x.index_map[a][:], maps[a], f"{msg}: index_map[{a}]")
    spec = x.dataset_spec
    c.check(list(spec) == sorted(dsets), f"{msg}: datasets in the specification {list(spec)} != {sorted(dsets)}")
    for n in dsets:
        c.check(spec[n] == dsets[n], f"{msg}: specification of {n}: {spec[n]} != {dsets[n]}")
    c.check(sorted(x.keys()) == sorted(present), f"{msg}: datasets {sorted(x.keys())} != {sorted(present)}")
    c.check(sorted(x.datasets) == sorted(present), f"{msg}: .datasets {sorted(x.datasets)}")
    for n in present:
        s, d = dsets[n], x[n]
        shape = tuple(len(maps[a]) for a in s["axes"])
        c.check(tuple(d.shape) == shape, f"{msg}: shape of {n} is {d.shape}, expected {shape}")
        c.check(d.dtype == s["dtype"], f"{msg}: dtype of {n} is {d.dtype}")
        c.check(list(d.attrs["axis"]) == s["axes"], f"{msg}: axes of {n} are {d.attrs['axis']}")
        isd = conts.is_dist(dist, s)
        c.check(d.distributed == isd, f"{msg}: {n} distributed={d.distributed}, expected {isd}")
        if isd:
            c.check(d.distributed_axis == conts.dist_axis(s), f"{msg}: {n} distributed over axis {d.distributed_axis}")
            c.check(d.comm == comm, f"{msg}: {n} on another communicator")
        if "chunks" in s and x.allow_chunked:
            want = tuple(min(a, b) for a, b in zip(s["chunks"], shape))
            c.check(d.chunks == want, f"{msg}: chunks of {n} are {d.chunks}, expected {want}")
        else:
            c.check(d.chunks is None, f"{msg}: {n} has chunks {d.chunks}")
        for k in ("compression", "compression_opts"):
            want = s.get(k) if x.allow_chunked else None
            c.check(getattr(d, k) == want, f"{msg}: {k} of {n} is {getattr(d, k)}, expected {want}")


@group(quick=240, thorough=3000, mpi=(1, 2, 3))
def build(c):
    """Construction from axes, and copies of another container with some axes overridden."""
    comm = c.comm
    cls, axes, dsets = conts.make_class(c, ContainerPrototype)
    dist, kw, xcomm = _kw(c, comm)
    args, maps = {}, {}
    for a in axes:
        args[a], maps[a] = conts.axis_map(c)
    c.note(axes=str(sorted(axes)), dsets=str(dsets), dist=dist)
    skip = c.chance(0.15)
    if c.chance(0.2):
        kw["allow_chunked"] = c.chance(0.5)
    x = cls(**args, **kw, **({"skip_datasets": True} if skip else {}))
    present = {n for n, s in dsets.items() if s.get("initialise")} if not skip else set()
    check_layout(c, x, axes, dsets, maps, dist, present, xcomm, "new")
    # Missing axes and unknown datasets are refused
    a = c.pick(sorted(axes))
    c.raises(RuntimeError, cls, **{k: v for k, v in args.items() if k != a}, **kw, msg=f"axis {a} not given")
    c.raises(RuntimeError, x.add_dataset, "unknown", msg="unknown dataset")
    for n in dsets:
        if n not in present and c.chance(0.6):
            x.add_dataset(n if c.chance(0.5) else "/" + n)
            present.add(n)
    check_layout(c, x, axes, dsets, maps, dist, present, xcomm, "after add_dataset")
    refs = {}
    for n in sorted(present):
        refs[n] = conts.ref_data(c, dsets[n], maps)
        conts.fill(x, n, refs[n], xcomm)
        if c.chance(0.5):
            x[n].attrs["units"] = n
    x.attrs["tag"] = "root"
    x.attrs["nested"] = {"a": [1, [2]]}
    x.index_attrs[a]["alignment"] = 1
    x.index_attrs[a]["nested"] = [1, [2]]
    for n in present:
        x[n].attrs["nested"] = {"a": [1]}
    where = {n: (conts.dist_axis(dsets[n]) if conts.is_dist(dist, dsets[n]) else None) for n in dsets}
    for n in present:
        conts.check_dset(c, x, n, refs[n], where[n], xcomm, "filled")
    src = dict(where)
    if dist and c.chance(0.4):  # the source has been redistributed
        ax = c.pick(sorted(axes))
        x.redistribute(ax)
        for n in present:
            if where[n] is not None and ax in dsets[n]["axes"]:
                src[n] = dsets[n]["axes"].index(ax)

    # A shallow clone around the same data
    z = cls(x, distributed=dist, comm=xcomm) if c.chance(0.5) else cls(data_group=x, distributed=dist, comm=xcomm)
    c.check(sorted(z.keys()) == sorted(x.keys()), f"shallow clone: {sorted(z.keys())}")
    for n in present:
        conts.check_dset(c, z, n, refs[n], src[n], xcomm, "shallow clone")
        c.check(np.shares_memory(z[n].local_data if src[n] is not None else z[n][:], x[n].local_data if src[n] is not None else x[n][:]) or not refs[n].size or not x[n].local_data.size, f"shallow clone copied {n}")
    c.raises(TypeError, cls, x, data_group=x, msg="data group given twice")

    # A second container from the first
    how = c.pick(["copy_from", "copy_from", "axes_from", "axes_attrs", "empty_like", "dsets"])
    over = {b: conts.axis_map(c) for b in axes if c.chance(0.3)}
    oargs = {b: v[0] for b, v in over.items()}
    maps2 = {b: (over[b][1] if b in over else maps[b]) for b in axes}
    kw2 = dict(distributed=dist, comm=comm)
    c.note(how=how, over=str(sorted(over)))
    if how == "copy_from":
        y = cls(copy_from=x, **oargs, **kw2)
    elif how == "axes_from":
        y = cls(axes_from=x, **oargs, **kw2)
    elif how == "axes_attrs":
        y = cls(axes_from=x, attrs_from=x, **oargs, **kw2)
    elif how == "dsets":
        y = cls(axes_from=x, dsets_from=x, **oargs, **kw2)
    else:
        y = empty_like(x, **oargs, **kw2)
    present2 = {n for n, s in dsets.items() if s.get("initialise")}
    copied = set()
    if how in ("copy_from", "dsets"):
        copied = {n for n in present if not set(dsets[n]["axes"]) & set(over)}
        present2 |= copied
    if any(src[n] != where[n] for n in copied):
        c.count("copied_redistributed")
        c.check(sorted(y.keys()) == sorted(present2), f"copied: datasets {sorted(y.keys())}")
    else:
        check_layout(c, y, axes, dsets, maps2, dist, present2, comm, how)
    for n in copied:
        conts.check_dset(c, y, n, refs[n], src[n], comm, f"copied by {how}")
        c.count("copied")
    attrs = how in ("copy_from", "axes_attrs", "empty_like")
    c.check((y.attrs.get("tag") == "root") == attrs, f"{how}: root attributes {dict(y.attrs)}")
    for n in present & present2:
        c.check(("units" in y[n].attrs) == (attrs and "units" in x[n].attrs), f"{how}: attributes of {n}: {dict(y[n].attrs)}")
        c.check(list(y[n].attrs["axis"]) == dsets[n]["axes"], f"{how}: axis attribute of {n}")
    c.check((y.index_attrs[a].get("alignment") == 1) == (a not in over), f"{how}: attributes of axis {a}: {dict(y.index_attrs[a])}")
    # The two are independent
    for obj in [y, *(y[n] for n in present2), *(y.index_attrs[b] for b in axes)]:
        at = getattr(obj, "attrs", obj)
        if "nested" in at:
            v = at["nested"]
            (v["a"] if isinstance(v, dict) else v[1]).append("changed")
            c.count("attrs_changed")
    c.check(x.attrs["nested"] == {"a": [1, [2]]}, "changing an attribute of the copy changed the source")
    c.check(x.index_attrs[a]["nested"] == [1, [2]], "changing an axis attribute of the copy changed the source")
    for n in present:
        c.check(x[n].attrs["nested"] == {"a": [1]}, f"changing an attribute of {n} in the copy changed the source")
    for n in copied:
        if y[n].local_data.size:
            c.check(not np.shares_memory(y[n].local_data, x[n].local_data), f"{n} shares memory with its source")
    for n in present:
        conts.check_dset(c, x, n, refs[n], src[n], xcomm, "source afterwards")
    if present:
        c.nontrivial(c.desc, c.idx)


@group(quick=150, thorough=1500, mpi=(1, 2))
def related(c):
    """Copies between containers of different classes, and from several sources at once."""
    comm = c.comm
    dist = c.chance(0.6)
    kw = dict(distributed=dist, comm=comm)
    par, axes, dsets = conts.make_class(c, ContainerPrototype, chunks=False)
    # A related class: derived, or of the same name in another module; it redefines some datasets
    child = c.chance(0.5)
    axes2, dsets2 = set(axes), dict(dsets) if child else {}
    spec = {}
    for n in ["vis", "weight", "gain", "extra"]:
        if c.chance(0.5):
            same = n in dsets and c.chance(0.6)
            ax = list(dsets[n]["axes"]) if same else [sorted(axes)[i] for i in c.rng.permutation(len(axes))[: c.int(1, len(axes))]]
            if same and c.chance(0.4):
                c.rng.shuffle(ax)
            spec[n] = dict(axes=ax, dtype=np.dtype("f8"), initialise=c.chance(0.6), distributed=c.chance(0.5))
    dsets2.update(spec)
    conts.COUNTER[0] += 1
    name = par.__name__ if not child and c.chance(0.7) else f"Rel{conts.COUNTER[0]}"
    module = conts.MOD.__name__ if child else conts.OTHER.__name__
    cls = type(name, (par if child else ContainerPrototype,), {"__module__": module, "_axes": tuple(sorted(axes)), "_dataset_spec": spec})
    setattr(conts.MOD if child else conts.OTHER, name, cls)
    srcs = []
    for k in range(3):
        args, maps = {}, {}
        for a in sorted(axes):
            args[a], maps[a] = conts.axis_map(c, n=(2 + len(a)) if not k else len(srcs[0][1][a]))
        x = par(**args, **kw)
        refs = {}
        for n in sorted(dsets):
            if n not in x and c.chance(0.5):
                x.add_dataset(n)
            if n in x:
                refs[n] = conts.ref_data(c, dsets[n], maps)
                conts.fill(x, n, refs[n], comm)
                x[n].attrs["from"] = k
        x.attrs["from"] = k
        x.attrs["__memh5_subclass"] = f"{par.__module__}.{par.__name__}"
        for a in axes:
            x.index_attrs[a]["from"] = k
        srcs.append((x, maps, refs))
    if c.chance(0.5):
        ia, it, ids = 0, 0, 0
        y = lambda: cls(copy_from=srcs[0][0], **kw)  # noqa: E731
    else:
        ia, it, ids = c.int(0, 2), c.int(0, 2), c.int(0, 2)
        y = lambda: cls(axes_from=srcs[ia][0], attrs_from=srcs[it][0], dsets_from=srcs[ids][0], **kw)  # noqa: E731
        if c.chance(0.3):
            y = lambda: cls(copy_from=srcs[ia][0], attrs_from=srcs[it][0], dsets_from=srcs[ids][0], **kw)  # noqa: E731
    c.note(dsets=str(dsets), spec=str(spec), child=child, dist=dist, src=str((ia, it, ids)), name=name)
    # Copying values needs the same axes and, on several ranks, the same distribution
    for n, ref in srcs[ids][2].items():
        if n in dsets2:
            a, b = dsets[n], dsets2[n]
            if a["axes"] != b["axes"] or conts.is_dist(dist, a) != conts.is_dist(dist, b) or not np.can_cast(a["dtype"], b["dtype"], "same_kind"):
                c.count("incompatible")
                return
    y = y()
    refs = srcs[ids][2]
    present = {n for n in dsets2 if dsets2[n].get("initialise") or n in refs}
    c.check(type(y) is cls and sorted(y.keys()) == sorted(present), f"datasets {sorted(y.keys())} != {sorted(present)}")
    for a in axes:
        c.same(y.index_map[a][:], srcs[ia][1][a], f"index_map[{a}]")
        c.check(dict(y.index_attrs[a]) == {"from": ia}, f"attributes of axis {a}: {dict(y.index_attrs[a])}")
    for n in present:
        c.check(list(y[n].attrs["axis"]) == list(dsets2[n]["axes"]), f"axis attribute of {n}: {y[n].attrs['axis']}")
        has = n in srcs[it][0]
        c.check(y[n].attrs.get("from") == (it if has else None), f"attributes of {n}: {dict(y[n].attrs)}")
        c.check(y[n].dtype == dsets2[n]["dtype"], f"type of {n}")
        if n in refs:
            conts.check_dset(c, y, n, refs[n].astype(y[n].dtype), conts.dist_axis(dsets[n]) if conts.is_dist(dist, dsets[n]) else None, comm, "copied")
            c.count("copied")
    c.check(y.attrs["from"] == it, "root attributes")
    c.check(y.attrs["__memh5_subclass"] == f"{cls.__module__}.{cls.__name__}", f"class hint {y.attrs['__memh5_subclass']}")
    # It is saved and loaded as what it is
    fn = os.path.join(c.tmp, "rel.h5" if dist else f"rel{c.rank}.h5")
    y.save(fn)
    comm.Barrier()
    z = memdata.MemDiskGroup.from_file(fn, distributed=dist, comm=comm)
    c.check(type(z) is cls, f"loaded as {type(z)}, saved as {cls}")
    if present:
        c.nontrivial(c.desc, c.idx)


@group(quick=120, thorough=1500, mpi=(1, 2, 3))
def saved(c):
    """Saving and loading restores class, axes, history, attributes and datasets."""
    comm = c.comm
    fmt = c.pick(["hdf5", "hdf5", "zarr"])
    ff = fileformats.HDF5 if fmt == "hdf5" else fileformats.Zarr
    cls, axes, dsets = conts.make_class(c, ContainerPrototype)
    dist, kw, xcomm = _kw(c, comm)
    if c.size > 1:
        dist = True
        kw.pop("distributed", None)
    args, maps = {}, {}
    for a in axes:
        args[a], maps[a] = conts.axis_map(c)
    x = cls(**args, **kw)
    present = {n for n, s in dsets.items() if s.get("initialise")}
    refs, where = {}, {}
    for n in sorted(present):
        refs[n] = conts.ref_data(c, dsets[n], maps)
        conts.fill(x, n, refs[n], comm)
        where[n] = conts.dist_axis(dsets[n]) if conts.is_dist(dist, dsets[n]) else None
    if dist and c.chance(0.4):
        ax = c.pick(sorted(axes))
        x.redistribute(ax)
        for n in present:
            if where[n] is not None and ax in dsets[n]["axes"]:
                where[n] = dsets[n]["axes"].index(ax)
    hist = []
    for i in range(c.int(0, 4)):
        h = c.pick([None, {}, {"a": 1}, {"a": {"b": [1, 2, {"c": None}]}, "s": "x"}])
        nm = f"step{c.int(0, 2)}_{i}"
        x.add_history(nm, copy.deepcopy(h))
        hist.append((nm, h or {}))
    c.raises(ValueError, x.add_history, "order", {}, msg="reserved history name")
    c.note(fmt=fmt, dsets=str(dsets), dist=dist, where=str(where), hist=str(hist))

    def check_hist(y, msg):
        h = y.history
        c.check(h["order"] == [k for k, _ in hist], f"{msg}: history order {h['order']}")
        for k, v in hist:
            c.check(h[k] == v, f"{msg}: history {k} is {h[k]}")

    check_hist(x, "before saving")
    fn = os.path.join(c.tmp, "x." + ("h5" if fmt == "hdf5" else "zarr"))
    x.save(fn, file_format=ff)
    comm.Barrier()
    for _ in range(2):
        loader = c.pick([memdata.MemDiskGroup, Container, ContainerPrototype, cls])
        rdist = c.chance(0.7)
        conv = {} if issubclass(loader, ContainerPrototype) else {"convert_dataset_strings": True}
        c.note(loader=loader.__name__, rdist=rdist)
        y = loader.from_file(fn, distributed=rdist, comm=comm, **conv)
        c.check(type(y) is cls, f"loaded as {type(y)}")
        c.check(set(y.index_map) == set(axes), "axes of the loaded container")
        for a in axes:
            c.same(y.index_map[a][:], maps[a], f"loaded index_map[{a}]")
        c.check(sorted(y.keys()) == sorted(present), f"loaded datasets {sorted(y.keys())}")
        for n in present:
            conts.check_dset(c, y, n, refs[n], where[n] if rdist else None, comm, "loaded")
            c.check(list(y[n].attrs["axis"]) == dsets[n]["axes"], f"loaded axis attribute {y[n].attrs['axis']}")
        check_hist(y, "loaded")
        y.add_history("later", {"z": 1})
        c.check(y.history["order"] == [*[k for k, _ in hist], "later"], "history continues after loading")
        c.count("loaded")
    check_hist(x, "after saving")
    if present:
        c.nontrivial(c.desc, c.idx)


@group(quick=150, thorough=1500)
def basic(c):
    """Flat containers: no groups, free datasets, index maps and history."""
    x = Container()
    ref = {}
    for i in range(c.int(0, 3)):
        ref[f"d{i}"] = rand_array(c.rng, (c.int(1, 4), 2), "f8")
        x.create_dataset(f"d{i}", data=ref[f"d{i}"].copy())
    maps, rev = {}, {}
    for k in range(c.int(0, 6)):
        a = c.pick(["ax1", "ax2", "ax3"])
        which, make, drop = c.pick([(maps, x.create_index_map, x.del_index_map), (rev, x.create_reverse_map, x.del_reverse_map)])
        if a in which:
            drop(a)
            del which[a]
        else:
            v = conts.axis_map(c)[1]
            make(a, v)
            which[a] = v
        for got, want, m in ((x.index_map, maps, "index_map"), (x.reverse_map, rev, "reverse_map")):
            c.check(set(got) == set(want), f"{m}: {sorted(got)} != {sorted(want)}")
            for b in want:
                c.same(got[b], want[b], f"{m}[{b}]")
    c.check(sorted(x) == sorted(ref) and len(x) == len(ref), f"visible entries {sorted(x)}")
    for b in ("index_map", "history", "reverse_map"):
        c.check(b not in x, f"group {b} is visible")
    c.raises(ValueError, x.create_group, "grp", msg="group in a flat container")
    c.raises(ValueError, x.create_dataset, "grp/d", data=np.arange(3), msg="nested dataset")
    order = []
    for i in range(c.int(1, 6)):
        n, v = f"h{i}", {"v": [i, {"w": "x"}]}
        x.add_history(n, v)
        order.append(n)
        h = x.history
        c.check(h["order"] == order, f"history order {h['order']} != {order}")
        c.check(set(h) == {*order, "order"}, f"history entries {sorted(h)}")
        c.check(h[n] == v, f"history {n}")
        c.check(not hasattr(h, "__setitem__"), "history can be assigned to")
    c.nontrivial(sorted(ref), sorted(maps), order, c.idx)
    # A second view of the same data
    y = Container(x)
    c.check(sorted(y) == sorted(ref) and y.history["order"] == order, "wrapped container")


@group(quick=100, thorough=1000)
def tables(c):
    """Table containers: columns, row axes, inheritance; data/weight and frequency helpers."""
    cols, axof = {}, {}
    cls = TableSpec
    extra = None
    for lv in range(c.int(1, 3)):
        spec = {}
        for t in ["src", "mask", "cat"]:
            if not c.chance(0.6):
                continue
            cl = [(f"c{i}", np.dtype(c.pick(["f8", "i4", "?", "S4"]))) for i in range(c.int(1, 4))]
            spec[t] = {"columns": cl}
            axof[t] = t + "_index"
            if c.chance(0.4):
                spec[t]["axis"] = axof[t] = c.pick(["row", "obj"])
            cols[t] = cl
        body = {"__module__": conts.MOD.__name__, "_table_spec": spec}
        if lv == 0 and c.chance(0.4):
            extra = "freq"
            body["_axes"] = ("freq",)
            body["_dataset_spec"] = {"gain": {"axes": ["freq"], "dtype": np.float64, "initialise": True, "distributed": False}}
        conts.COUNTER[0] += 1
        nm = f"Tab{conts.COUNTER[0]}"
        cls = type(nm, (cls,), body)
        setattr(conts.MOD, nm, cls)
        if c.chance(0.5):
            # Instances of the base classes, which may define the same tables in another way, may come first
            cls(**{a: c.int(1, 5) for a in ({*axof.values()} | ({extra} if extra else set()))})
    args = {a: c.int(1, 5) for a in set(axof.values())}
    if extra:
        args["freq"] = c.int(1, 4)
    c.note(cols=str(cols), args=str(args))
    for rep in range(2):
        if rep:
            args = {a: c.int(1, 5) for a in args}
        x = cls(**args)
        c.check(sorted(x.keys()) == sorted([*cols, *(["gain"] if extra else [])]), f"tables {sorted(x.keys())}")
        for t, cl in cols.items():
            d = x[t]
            c.check(d.shape == (args[axof[t]],), f"{t}: {d.shape} rows, expected {args[axof[t]]}")
            c.check(d.dtype == np.dtype(cl), f"{t}: columns {d.dtype}")
            c.check(list(d.attrs["axis"]) == [axof[t]], f"{t}: axis {d.attrs['axis']}")
            c.check(not d.distributed, f"{t} is distributed")
            ref = rand_array(c.rng, d.shape, d.dtype)
            d[:] = ref
            c.same(x[t][:], ref, f"{t}: content")
    y = cls(copy_from=x)
    for t in cols:
        c.same(y[t][:], x[t][:], f"copied table {t}")
    if cols:
        c.nontrivial(c.desc)

    class DW(DataWeightContainer, FreqContainer):
        _data_dset_name = "vis"
        _weight_dset_name = "w"
        _dataset_spec = {
            "vis": {"axes": ["freq"], "dtype": np.complex64, "initialise": True, "distributed": False},
            "w": {"axes": ["freq"], "dtype": np.float32, "initialise": c.chance(0.5), "distributed": False},
        }

    f = np.sort(c.rng.standard_normal(c.int(1, 5)))
    z = DW(freq=f)
    c.same(z.freq, f, "freq property")
    z["vis"][:] = 3
    c.same(z.data[:], z["vis"][:], "data property")
    if "w" in z:
        c.check(z.weight == z["w"], "weight property")
    else:
        c.raises(KeyError, lambda: z.weight, msg="weights which do not exist")
    c.raises(RuntimeError, lambda: DataWeightContainer().data, msg="data of the bare class")
