"""C11 concatenating time-ordered data."""

import os
import warnings

import h5py
import numpy as np

from vf import conts, mpi
from vf.core import fast_sleep, group, rand_array

from caput import memdata
from caput.containers import tod
from caput.memdata import fileformats

warnings.simplefilter("ignore")
fast_sleep()

RULE = (
    "random sequences of time-ordered containers (lengths, axis orders, several time axes, common and "
    "distributed datasets, in memory or files), start/stop in every spelling, dataset selections and "
    "filters; compared with numpy.concatenate on the pieces; non-trivial when more than one piece "
    "contributes; distinct by lengths, datasets and arguments"
)
ASSUMPTIONS = ["the requested range holds at least one sample", "pieces are distributed over another axis than time"]


class TwoTimes(tod.TOData):
    time_axes = ("time", "gtime")


setattr(conts.MOD, "TwoTimes", TwoTimes)
TwoTimes.__module__ = conts.MOD.__name__


def gen(c, comm=None, strings=True, minlen=1):
    """A list of containers and the model of what they hold together."""
    two = c.chance(0.4)
    cls = TwoTimes if two else tod.TOData
    taxes = ["time", "gtime"] if two else ["time"]
    npieces = c.pick([1, 2, 2, 3, 4])
    lens = {t: [c.int(minlen, 6) for _ in range(npieces)] for t in taxes}
    kind = c.int(0, 2)
    pieces = {}
    for t in taxes:
        n = sum(lens[t])
        base = 1.0e9 + np.cumsum(c.rng.integers(1, 9, n)).astype(float)
        if kind == 1:
            full = np.zeros(n, [("ctime", "f8"), ("fpga", "u8")])
            full["ctime"], full["fpga"] = base, np.arange(n) * 7
        elif kind == 2:
            full = np.cumsum(c.rng.integers(1, 9, n))
        else:
            full = base
        pieces[t] = np.split(full, np.cumsum(lens[t])[:-1])
    maps, _ = {}, None
    for a in ["freq", "input"]:
        maps[a] = rand_array(c.rng, (c.int(1, 4),), c.pick(["f8", "i4", "S4"] if strings else ["f8", "i4"]))
    dsets, data, fixed = {}, {}, {}
    for i in range(c.int(1, 4)):
        t = c.pick(taxes)
        others = [a for a in ["freq", "input"] if c.chance(0.6)]
        axes = others + [t]
        if c.chance(0.4):
            axes = [axes[k] for k in c.rng.permutation(len(axes))]
        dt = np.dtype(c.pick(["f8", "f4", "c8", "i4", "u1", "?"]))
        dist = comm is not None and bool(others) and c.chance(0.7)
        daxis = axes.index(c.pick(others)) if dist else None
        shape = lambda n, axes=axes, t=t: tuple(n if a == t else len(maps[a]) for a in axes)  # noqa: E731
        full = rand_array(c.rng, shape(sum(lens[t])), dt)
        ax = axes.index(t)
        dsets[f"d{i}"] = (axes, t, ax, daxis, full)
        data[f"d{i}"] = np.split(full, np.cumsum(lens[t])[:-1], axis=ax)
    for i in range(c.int(0, 2)):
        fixed[f"f{i}"] = rand_array(c.rng, (len(maps["freq"]),), c.pick(["f8", "S3"] if strings else ["f8"]))
    rev = rand_array(c.rng, (3,), "i4") if c.chance(0.5) else None
    align = c.pick([0, 0, 1, -1])
    conts_ = []
    for p in range(npieces):
        x = cls(distributed=comm is not None, comm=comm)
        for t in taxes:
            x.create_index_map(t, pieces[t][p])
            x.index_attrs[t]["alignment"] = align
            x.index_attrs[t]["nested"] = {"a": [1]}
        for a in maps:
            x.create_index_map(a, maps[a])
        if rev is not None:
            x.create_reverse_map("freq", rev)
        for n, (axes, t, ax, daxis, full) in dsets.items():
            a = data[n][p]
            if daxis is not None:
                d = x.create_dataset(n, shape=a.shape, dtype=a.dtype, distributed=True, distributed_axis=daxis)
                d.local_data[...] = a[mpi.local_sl(a.ndim, daxis, a.shape[daxis], comm)]
            else:
                d = x.create_dataset(n, data=a.copy())
            d.attrs["axis"] = np.array(axes)
            d.attrs["units"] = "Jy"
            d.attrs["nested"] = {"a": [1]}
        for n, a in fixed.items():
            d = x.create_dataset(n, data=a)
            d.attrs["axis"] = np.array(["freq"])
            d.attrs["note"] = "fixed"
            d.attrs["nested"] = {"a": [1]}
        x.attrs["instrument"] = "chime"
        x.attrs["piece"] = p
        x.attrs["nested"] = {"a": [1]}
        x.add_history("acq", {"n": p})
        conts_.append(x)
    c.note(lens=str(lens), dsets=str({k: (v[0], str(v[4].dtype), v[3]) for k, v in dsets.items()}), kind=kind, align=align)
    return conts_, cls, taxes, lens, pieces, maps, dsets, fixed, rev, align


def bounds(c, taxes, lens):
    """start/stop arguments and the equivalent slices."""
    sl, start, stop = {}, {}, {}
    for t in taxes:
        n = sum(lens[t])
        a = c.int(0, n - 1)
        b = c.int(a + 1, n)
        sl[t] = slice(a, b)
        start[t] = c.pick([a, a - n]) if a or c.chance(0.5) else None
        stop[t] = b if b < n else c.pick([None, n, n + 3])
        if b < n and c.chance(0.5):
            stop[t] = b - n
    k = c.int(0, 3)
    if k == 0 or len(taxes) > 1:
        drop = [t for t in taxes if c.chance(0.2)]
        for t in drop:
            start.pop(t)
            sl[t] = slice(0, sl[t].stop)
        return sl, dict(start=start, stop=stop)
    t = taxes[0]
    kw = {}
    if start[t] is not None or c.chance(0.5):
        kw["start"] = start[t]
    if stop[t] is not None or c.chance(0.5):
        kw["stop"] = stop[t]
    return sl, kw


def verify(c, out, sl, cls, taxes, pieces, maps, dsets, fixed, rev, align, names, comm, msg, filt=None, piece=0):
    c.check(type(out) is cls, f"{msg}: class {type(out)}")
    c.check(set(out.index_map) == {*taxes, *maps}, f"{msg}: axes {sorted(out.index_map)}")
    for t in taxes:
        c.same(out.index_map[t][:], np.concatenate(pieces[t])[sl[t]], f"{msg}: index_map[{t}]")
        c.check(out.index_attrs[t]["alignment"] == align, f"{msg}: attributes of {t}")
    for a in maps:
        c.same(out.index_map[a][:], maps[a], f"{msg}: index_map[{a}]")
    c.check(set(out.reverse_map) == ({"freq"} if rev is not None else set()), f"{msg}: reverse maps")
    if rev is not None:
        c.same(out.reverse_map["freq"][:], rev, f"{msg}: reverse map")
    c.check(sorted(out.keys()) == sorted({*names, *fixed}), f"{msg}: datasets {sorted(out.keys())}, expected {sorted({*names, *fixed})}")
    for n, a in fixed.items():
        c.same(out[n][:], a, f"{msg}: {n}")
        c.check(out[n].attrs["note"] == "fixed", f"{msg}: attributes of {n}")
    for n in names:
        axes, t, ax, daxis, full = dsets[n]
        want = full[(slice(None),) * ax + (sl[t],)]
        if filt:
            want = filt(want)
        if isinstance(out[n], h5py.Dataset):
            c.same(out[n][:], want, f"{msg}: {n}")
        else:
            conts.check_dset(c, out, n, want, daxis if comm is not None else None, comm, msg)
        got = [v.decode() if isinstance(v, bytes) else v for v in out[n].attrs["axis"]]
        c.check(got == axes and out[n].attrs["units"] == "Jy", f"{msg}: attributes of {n}: {dict(out[n].attrs)}")
    c.check(out.attrs["instrument"] == "chime" and out.attrs["piece"] == piece, f"{msg}: attributes {dict(out.attrs)}")
    if not out.ondisk:
        c.check(out.history["order"] == ["acq"] and out.history["acq"] == {"n": piece}, f"{msg}: history {dict(out.history)}")


def times(pieces, align):
    full = np.concatenate(pieces)
    t = full["ctime"] if full.dtype.names else full
    if align and len(t) > 1:
        t = t + align * (abs(np.median(np.diff(t))) / 2)
    return t


@group(quick=400, thorough=6000)
def serial(c):
    """concatenate/from_mult_files of containers in memory and of files, into memory or a file."""
    xs, cls, taxes, lens, pieces, maps, dsets, fixed, rev, align = gen(c, minlen=c.pick([0, 1, 1, 1]) if c.chance(0.5) else 1)
    if any(sum(v) == 0 for v in lens.values()):
        return
    sl, kw = bounds(c, taxes, lens)
    names = list(dsets)
    if c.chance(0.3):
        names = [n for n in names if c.chance(0.5)]
        kw["datasets"] = c.pick([list, tuple])(names)
    filt, model = None, dsets
    how = c.pick(["memory", "memory", "mult", "files", "glob", "zarr"])
    if c.chance(0.3) and how in ("memory", "mult"):
        if c.chance(0.35):
            # a filter which reorders the axes
            def f(d):
                out = memdata.MemDatasetCommon.from_numpy_array(np.ascontiguousarray(d[:].T))
                out.attrs.update(d.attrs)
                out.attrs["axis"] = np.array(list(d.attrs["axis"])[::-1])
                return out

            model = {n: (v[0][::-1], v[1], len(v[0]) - 1 - v[2], v[3], v[4].T) for n, v in dsets.items()}
        elif c.chance(0.5):
            filt = lambda a: (a * 2).astype("c16")  # noqa: E731

            def f(d):
                out = memdata.MemDatasetCommon.from_numpy_array((d[:] * 2).astype("c16"))
                out.attrs.update(d.attrs)
                return out
        else:
            filt = lambda a: a * 2  # noqa: E731

            def f(d, s):
                ax = [i for i, a in enumerate(d.attrs["axis"]) if a in taxes][0]
                return d[:][(slice(None),) * ax + (s,)] * 2

        kw["dataset_filter"] = f
        # boolean/unsigned arithmetic is numpy's own business
    orig = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
    c.note(how=how, kw=str({k: v for k, v in kw.items() if k != "dataset_filter"}), filt="dataset_filter" in kw)
    outg, tofile = None, None
    if how in ("memory", "mult") and c.chance(0.3):
        tofile = os.path.join(c.tmp, "out.h5")
        outg = h5py.File(tofile, "w")
    elif c.chance(0.2):
        outg = memdata.MemGroup()
    if how == "memory":
        out = tod.concatenate(xs, out_group=outg, **kw)
    elif how == "mult":
        out = cls.from_mult_files(xs, data_group=outg, **kw)
    else:
        ext = "zarr" if how == "zarr" else "h5"
        fns = []
        for i, x in enumerate(xs):
            fns.append(os.path.join(c.tmp, f"piece{i:03d}.{ext}"))
            x.save(fns[-1], file_format=fileformats.Zarr if how == "zarr" else fileformats.HDF5)
        arg = os.path.join(c.tmp, "piece*.h5") if how == "glob" else fns
        out = cls.from_mult_files(arg, data_group=outg, **kw, ondisk=c.chance(0.5))
    verify(c, out, sl, cls, taxes, pieces, maps, model, fixed, rev, align, names, None, how, filt)
    for k, v in orig.items():
        c.check(kw[k] == v, f"argument {k} was changed from {v} to {kw[k]}")
    if tofile:
        outg.close()
        with h5py.File(tofile, "r") as f:
            for t in taxes:
                c.same(f["index_map"][t][:], np.concatenate(pieces[t])[sl[t]], f"axis {t} in the file")
            for n in names:
                axes, t, ax, daxis, full = model[n]
                want = full[(slice(None),) * ax + (sl[t],)]
                c.same(f[n][:], filt(want) if filt else want, f"{n} in the file")
        y = tod.TOData.from_file(tofile)
        c.check(y.history["order"] == ["acq"] and y.history["acq"] == {"n": 0}, f"history in the file {dict(y.history)}")
        c.count("to_file")
    else:
        sel = np.concatenate(pieces["time"])[sl["time"]]
        if not (align and len(sel) == 1):
            c.same(out.time, times([sel], align), "time", dtype=False)
        # the result is independent of the pieces
        for at in [out.attrs, *(out.index_attrs[t] for t in taxes)]:
            at["nested"]["a"].append(2)
        for n in [*names, *fixed]:
            out[n].attrs["nested"]["a"].append(2)
            if out[n].dtype.kind in "fiuc" and out[n][:].size:
                out[n][:] = 1
        for x in xs:
            for at in [x.attrs, *(x.index_attrs[t] for t in taxes), *(x[n].attrs for n in x)]:
                c.check(at["nested"] == {"a": [1]}, "changing an attribute of the result changed a piece")
        for n, a in fixed.items():
            c.same(xs[0][n][:], a, f"{n} of the first piece after the result was changed")
    # the pieces are as they were
    for p, x in enumerate(xs):
        for n, (axes, t, ax, daxis, full) in dsets.items():
            c.same(x[n][:], np.split(full, np.cumsum(lens[t])[:-1], axis=ax)[p], f"piece {p} afterwards: {n}")
    c.count("pieces", len(xs))
    if len(xs) > 1:
        c.nontrivial(c.desc)


@group(quick=150, thorough=2000, mpi=(1, 2, 3))
def distributed(c):
    """Distributed pieces, in memory or loaded from files."""
    comm = c.comm
    xs, cls, taxes, lens, pieces, maps, dsets, fixed, rev, align = gen(c, comm)
    sl, kw = bounds(c, taxes, lens)
    how = c.pick(["memory", "files"])
    c.note(how=how, kw=str(kw))
    if how == "memory":
        out = tod.concatenate(xs, **kw)
    else:
        fns = [os.path.join(c.tmp, f"piece{i:03d}.h5") for i in range(len(xs))]
        for x, f in zip(xs, fns):
            x.save(f, file_format=fileformats.HDF5)
        comm.Barrier()
        out = cls.from_mult_files(fns, distributed=True, comm=comm, ondisk=False, **kw)
    c.check(out.distributed and out.comm == comm, "result is distributed over the same ranks")
    verify(c, out, sl, cls, taxes, pieces, maps, dsets, fixed, rev, align, list(dsets), comm, how)
    c.count("pieces", len(xs))
    if len(xs) > 1:
        c.nontrivial(c.desc)


@group(quick=200, thorough=2500)
def reader(c):
    """TODReader: metadata, selections by index and by time, reading."""
    xs, cls, taxes, lens, pieces, maps, dsets, fixed, rev, align = gen(c)
    if cls is not tod.TOData:
        R = type("R", (tod.TODReader,), {"data_class": cls})
    else:
        R = tod.TODReader
    n = sum(lens["time"])
    if n < 2:
        return
    how = c.pick(["memory", "files", "glob"])
    if how == "memory":
        arg = xs
    else:
        fns = []
        for i, x in enumerate(xs):
            fns.append(os.path.join(c.tmp, f"piece{i:03d}.h5"))
            x.save(fns[-1], file_format=fileformats.HDF5)
        arg = os.path.join(c.tmp, "piece*.h5") if how == "glob" else fns
    r = R(arg)
    t = times(pieces["time"], align)
    c.same(r.time, t, "times", dtype=False)
    c.check(sorted(r.datasets) == sorted(dsets), f"datasets {r.datasets}")
    c.check(tuple(r.time_sel) == (0, n), f"default selection {r.time_sel}")
    a, b = 0, n
    for _ in range(c.int(0, 3)):
        if c.chance(0.5):
            a = c.int(0, n - 1)
            b = c.int(a + 1, n)
            r.time_sel = (a, b)
        else:
            i = c.int(0, n - 1)
            j = c.int(i, n - 1)
            lo = c.pick([None, t[i], t[i] - 0.25, t[0] - 5])
            hi = c.pick([None, t[j] + 0.25, t[max(j, 1)], t[max(j, 1)], t[-1] + 7])
            na, nb = a, b
            if lo is not None:
                na = int(np.flatnonzero(t >= lo)[0])
            if hi is not None:
                nb = int(np.flatnonzero(t < hi)[-1]) + 1
            if na >= nb:
                continue
            a, b = na, nb
            r.select_time_range(lo, hi)
        c.check(tuple(r.time_sel) == (a, b), f"selection {r.time_sel} != {(a, b)}")
    names = list(dsets)
    if c.chance(0.5):
        names = [k for k in names if c.chance(0.6)]
        r.dataset_sel = names
        c.check(list(r.dataset_sel) == names, "dataset selection")
    c.raises(ValueError, setattr, r, "dataset_sel", ["nothere"], msg="unknown dataset")
    c.raises(ValueError, setattr, r, "time_sel", c.pick([(0,), (0, 1, 2), ()]), msg="not a pair")
    c.check(tuple(r.time_sel) == (a, b), f"selection {r.time_sel} after a refused one")
    c.note(how=how, sel=str((a, b)), names=str(names))
    for t_ in taxes:
        if t_ != "time" and b > sum(lens[t_]):
            # the same indices are applied to every time axis
            b = min(b, sum(lens[t_]))
    if any(a >= min(b, sum(lens[t_])) for t_ in taxes):
        return
    r.time_sel = (a, b)
    out = r.read()
    verify(c, out, {t_: slice(a, b) for t_ in taxes}, cls, taxes, pieces, maps, dsets, fixed, rev, align, names, None, how)
    if len(xs) > 1:
        c.nontrivial(c.desc)


class Flagged(tod.TOData):
    """With a group of flags next to the data, as acquisition formats have."""

    def group_name_allowed(self, name):
        return name in ("flags", "/flags")

    def dataset_name_allowed(self, name):
        return name.rsplit("/", 1)[0] in ("", "/", "/flags", "flags")


setattr(conts.MOD, "Flagged", Flagged)
Flagged.__module__ = conts.MOD.__name__


@group(quick=150, thorough=2000)
def grouped(c):
    """Datasets in a group, some named as others outside of it, and the deprecated form of the history."""
    npieces = c.int(1, 4)
    lens = [c.int(1, 5) for _ in range(npieces)]
    cut, n = np.cumsum(lens)[:-1], sum(lens)
    nf = c.int(1, 3)
    names = [k for k in ("a", "b", "flags/a", "flags/b", "flags/c") if c.chance(0.7)] or ["flags/a"]
    time, full = 1e9 + np.arange(n) * 10.0, {}
    for k in names:
        axes = c.pick([["time"], ["freq", "time"], ["time", "freq"]])
        full[k] = axes, rand_array(c.rng, tuple(n if a == "time" else nf for a in axes), c.pick(["f8", "i4", "?"]))
    const = rand_array(c.rng, (nf,), "f8") if c.chance(0.5) else None
    xs = []
    for p in range(npieces):
        x = Flagged()
        x.create_index_map("time", np.split(time, cut)[p])
        x.create_index_map("freq", np.arange(nf))
        x.create_group("flags").attrs["which"] = p
        for k, (axes, a) in full.items():
            d = x.create_dataset(k, data=np.split(a, cut, axis=axes.index("time"))[p].copy())
            d.attrs["axis"] = np.array(axes)
            d.attrs["name"] = k
        if const is not None:
            x.create_dataset("flags/const", data=const.copy()).attrs["axis"] = np.array(["freq"])
        old = x._data["history"].create_group("old")
        old.attrs["piece"], old.attrs["text"] = p, "t"
        x._data["history"].attrs["order"] = "['old']"
        x.attrs["order"] = "mine"
        xs.append(x)
    a = c.int(0, n - 1)
    b = c.int(a + 1, n)
    how = c.pick(["memory", "files"])
    want = names
    kw = {"start": a, "stop": b}
    if c.chance(0.4):
        want = [k for k in names if c.chance(0.5)]
        kw["datasets"] = want
    c.note(lens=lens, names=names, want=want, a=a, b=b, how=how)
    if how == "memory":
        out = tod.concatenate(xs, **kw)
    else:
        fns = [os.path.join(c.tmp, f"p{i}.h5") for i in range(npieces)]
        for f, x in zip(fns, xs):
            x.save(f)
        out = Flagged.from_mult_files(fns, **kw)
    c.same(out.index_map["time"][:], time[a:b], "time")
    got = {k for k in out if not memdata.is_group(out[k])} | ({f"flags/{k}" for k in out["flags"]} if "flags" in out else set())
    exp = {*want, *(["flags/const"] if const is not None else [])}
    c.check(got == exp, f"datasets {sorted(got)}, expected {sorted(exp)}")
    for k in want:
        axes, v = full[k]
        c.same(out[k][:], v[(slice(None),) * axes.index("time") + (slice(a, b),)], k)
        c.check(list(out[k].attrs["axis"]) == axes and out[k].attrs["name"] == k, f"attributes of {k}: {dict(out[k].attrs)}")
    if const is not None:
        c.same(out["flags/const"][:], const, "a dataset without time in a group")
    c.check(out["flags"].attrs["which"] == 0, "attributes of a group")
    h = out.history
    c.check(set(h) == {"old", "order"} and dict(h["old"]) == {"piece": 0, "text": "t"} and list(h["order"]) == ["old"], f"history {dict(h)}")
    if npieces > 1:
        c.nontrivial(c.desc)
