"""C10 container level redistribution, axis selections on load and filtered copies."""

import os
import warnings

import numpy as np

from vf import conts
from vf.core import fast_sleep, group

from caput.containers import Container, ContainerPrototype, copy_datasets_filter
from caput.memdata import fileformats

warnings.simplefilter("ignore")
fast_sleep()

RULE = (
    "random container classes, contents and selections (slices, index lists and arrays, boolean "
    "masks) on 1-4 ranks; the result of every dataset and axis is compared with numpy on the global "
    "array; non-trivial when a dataset is affected; distinct by the classes and arguments"
)
ASSUMPTIONS = ["HDF5 files accept one increasing index list per dataset, Zarr files slices"]


def make(c, comm, dist=None, lo=1, **kw):
    """A filled container and its model."""
    cls, axes, dsets = conts.make_class(c, ContainerPrototype, chunks=False, **kw)
    if dist is None:
        dist = c.chance(0.8)
    args, maps = {}, {}
    for a in sorted(axes):
        args[a], maps[a] = conts.axis_map(c, lo=lo)
    x = cls(**args, distributed=dist, comm=comm)
    for n in dsets:
        if n not in x and c.chance(0.5):
            x.add_dataset(n)
    refs, where = {}, {}
    for n in sorted(dsets):
        if n not in x:
            continue
        refs[n] = conts.ref_data(c, dsets[n], maps)
        conts.fill(x, n, refs[n], comm)
        where[n] = conts.dist_axis(dsets[n]) if conts.is_dist(dist, dsets[n]) else None
    return x, cls, axes, dsets, maps, refs, where, dist


@group(quick=240, thorough=3000, mpi=(1, 2, 3, 4))
def redist(c):
    """Redistributing a container moves each dataset to the first requested axis it has."""
    comm = c.comm
    x, cls, axes, dsets, maps, refs, where, dist = make(c, comm)
    for _ in range(c.int(1, 4)):
        req = []
        for _ in range(c.pick([1, 1, 2, 3])):
            req.append(c.pick([*conts.AX, "nothere", 0, 1, -1, -2, 2, 5, -4]))
        arg = req if (len(req) > 1 or c.chance(0.3)) else req[0]
        if isinstance(arg, list) and c.chance(0.3):
            arg = tuple(arg)
        c.note(req=str(arg), dsets=str(dsets), where=str(where))
        x.redistribute(arg)
        for n in refs:
            if where[n] is None:
                continue
            nd = refs[n].ndim
            for r in req:
                if isinstance(r, str):
                    if r in dsets[n]["axes"]:
                        where[n] = dsets[n]["axes"].index(r)
                        c.count("moved")
                        break
                elif -nd <= r < nd:
                    where[n] = r % nd
                    c.count("moved")
                    break
        for n in refs:
            conts.check_dset(c, x, n, refs[n], where[n], comm, f"after redistribute({arg!r})")
            c.check(list(x[n].attrs["axis"]) == dsets[n]["axes"], f"axis attribute of {n}")
    if any(w is not None for w in where.values()):
        c.nontrivial(c.desc, c.idx)


@group(quick=200, thorough=2500, mpi=(1, 2, 3))
def select(c):
    """Selections along named axes when a container is loaded."""
    comm = c.comm
    fmt = c.pick(["hdf5", "hdf5", "zarr"])
    ff = fileformats.HDF5 if fmt == "hdf5" else fileformats.Zarr
    x, cls, axes, dsets, maps, refs, where, dist = make(c, comm, dist=True if c.size > 1 else None)
    fn = os.path.join(c.tmp, "x." + ("h5" if fmt == "hdf5" else "zarr"))
    x.save(fn, file_format=ff)
    comm.Barrier()
    for _ in range(2):
        sels, kw, lists = {}, {}, 0
        for a in sorted(axes):
            if not c.chance(0.5):
                continue
            n = len(maps[a])
            k = c.int(0, 3)
            if k == 0 and lists == 0 and fmt == "hdf5":
                lists += 1
                m = c.int(1, n)
                s = sorted(int(i) for i in c.rng.permutation(n)[:m])
                sels[a] = s
                s = list(s)
            elif k == 1:
                s = sels[a] = slice(c.int(0, n - 1), None)
            else:
                b = c.int(0, n - 1)
                s = sels[a] = slice(b, c.int(b + 1, n), c.pick([None, 1, 1, 2]))
            kw[a + "_sel"] = s
        rdist = c.chance(0.7)
        c.note(fmt=fmt, dsets=str(dsets), sels=str(sels), rdist=rdist, where=str(where))
        y = cls.from_file(fn, distributed=rdist, comm=comm, **kw)
        c.check(type(y) is cls, f"loaded as {type(y)}")
        c.check(set(y.index_map) == set(axes), f"loaded axes {sorted(y.index_map)}")
        c.check(sorted(y.keys()) == sorted(refs), f"loaded datasets {sorted(y.keys())}")
        for a in axes:
            want = maps[a][sels[a]] if a in sels else maps[a]
            c.same(y.index_map[a][:], want, f"index_map[{a}] with {sels}")
        for n in refs:
            want = refs[n]
            for i, a in enumerate(dsets[n]["axes"]):
                if a in sels:
                    want = want[(slice(None),) * i + (sels[a],)]
                    c.count("selected")
            conts.check_dset(c, y, n, want, where[n] if rdist else None, comm, f"selection {sels}")
            c.check(list(y[n].attrs["axis"]) == dsets[n]["axes"], f"axis attribute of {n}")
    # Axes which the class does not have are refused
    if not c.chance(0.3):
        c.raises(RuntimeError, cls.from_file, fn, comm=comm, nothere_sel=slice(0, 1), msg="selection of an unknown axis")
    if refs:
        c.nontrivial(c.desc, c.idx)


def _sel(c, n):
    """A selection in some spelling, and the equivalent index array."""
    k = c.int(0, 5)
    if k == 0:
        return slice(None), np.arange(n)
    if k == 1:
        b = c.int(0, n - 1)
        s = slice(b, c.int(b + 1, n), c.pick([None, 1, 2]))
        return s, np.arange(n)[s]
    m = c.int(1, n)
    i = np.sort(c.rng.permutation(n)[:m])
    if c.chance(0.3):
        i = c.rng.permutation(i)
    if c.chance(0.2):
        i = c.rng.integers(0, n, c.int(1, 6))
    if k == 2:
        return [int(v) for v in i], i
    if k == 3:
        return tuple(int(v) for v in i), i
    if k == 4:
        return i, i
    mask = c.rng.random(n) < 0.6
    mask[c.int(0, n - 1)] = True
    return mask, np.flatnonzero(mask)


@group(quick=300, thorough=4000, mpi=(1, 2, 3, 4))
def filtered(c):
    """copy_datasets_filter: the selected part of every dataset which has the axis."""
    comm = c.comm
    for _ in range(8):
        x, cls, axes, dsets, maps, refs, where, dist = make(c, comm)
        if c.chance(0.4):
            ax = c.pick(sorted(axes))
            x.redistribute(ax)
            for n in refs:
                if where[n] is not None and ax in dsets[n]["axes"]:
                    where[n] = dsets[n]["axes"].index(ax)
        sels, idx = {}, {}
        for a in sorted(axes):
            if c.chance(0.5) or not sels:
                sels[a], idx[a] = _sel(c, len(maps[a]))
        excl = [k for k in sorted(axes) if c.chance(0.15)]
        full = c.chance(0.4)
        style = c.int(0, 2)
        if style == 1:  # one selection for one axis
            a = sorted(sels)[0]
            sels, idx = {a: sels[a]}, {a: idx[a]}
        # A distributed dataset needs an axis which is not selected from
        eff = {k for k in sels if not (isinstance(sels[k], slice) and sels[k] == slice(None))}
        moved, impossible = {}, False
        for n in refs:
            ax = dsets[n]["axes"]
            moved[n] = not (set(ax) & set(excl)) and (full or bool(set(ax) & set(sels)))
            if moved[n] and where[n] is not None and ax[where[n]] in eff and not (set(ax) - set(sels)):
                impossible = True
        if not impossible and any(moved.values()) or c.chance(0.1):
            break
    maps2 = {a: (maps[a][idx[a]] if a in idx else maps[a]) for a in axes}
    y = cls(**maps2, distributed=dist, comm=comm)
    before = sorted(y.keys())
    for n in before:
        y[n].local_data[...] = np.zeros((), y[n].dtype)
    c.note(dsets=str(dsets), sels=str(sels), excl=str(excl), full=full, style=style, where=str(where), dist=dist)
    for n in refs:
        x[n].attrs["units"] = "u" + n
        x[n].attrs["nested"] = {"a": [1]}
    args = dict(exclude_axes=c.pick([excl, tuple(excl), excl or None]), copy_without_selection=full)
    if style == 1:
        args.update(axis=c.pick([a, [a], (a,)]), selection=sels[a])
    elif style == 2:
        args.update(axis=list(sels), selection=dict(sels))
    else:
        args.update(selection=dict(sels))
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in sels.items()}
    if impossible:
        c.count("refused")
        c.raises(ValueError, copy_datasets_filter, x, y, **args, msg="no axis left to distribute over")
        return
    copy_datasets_filter(x, y, **args)
    if isinstance(args["selection"], dict):
        c.check(set(args["selection"]) == set(keep), "the selection argument was changed")
    for k, v in keep.items():
        c.check(np.array_equal(v, sels[k]) and type(v) is type(sels[k]), f"the selection of {k} was changed")
    want_keys = sorted(set(before) | {n for n in refs if moved[n]})
    c.check(sorted(y.keys()) == want_keys, f"datasets {sorted(y.keys())} != {want_keys}")
    for n in want_keys:
        shape = tuple(len(maps2[a]) for a in dsets[n]["axes"])
        home = conts.dist_axis(dsets[n]) if conts.is_dist(dist, dsets[n]) else None
        if n in refs and moved[n]:
            want = refs[n]
            for i, a in enumerate(dsets[n]["axes"]):
                if a in idx:
                    want = np.take(want, idx[a], axis=i)
            conts.check_dset(c, y, n, want, where[n], comm, "filtered")
            c.check(y[n].attrs.get("units") == "u" + n, f"attributes of {n}")
            c.check(y[n].attrs.get("nested") == {"a": [1]}, f"attributes of {n}: {dict(y[n].attrs)}")
            y[n].attrs["nested"]["a"].append(2)
            c.check(x[n].attrs["nested"] == {"a": [1]}, f"attributes of {n} are shared with the source")
            c.count("filtered_datasets")
        else:
            conts.check_dset(c, y, n, np.zeros(shape, dsets[n]["dtype"]), home, comm, "not copied")
    for a in axes:
        c.same(x.index_map[a][:], maps[a], f"source index_map[{a}]")
    x.redistribute(0)  # which axis the source is left on is not specified
    for n in refs:
        conts.check_dset(c, x, n, refs[n], None if where[n] is None else 0, comm, "source afterwards")
    if any(moved.values()):
        c.nontrivial(c.desc, c.idx)
    # The axis and the selection have to agree
    c.raises(ValueError, copy_datasets_filter, x, y, axis="nothere", selection={sorted(axes)[0]: slice(None)}, msg="mismatched axis")
