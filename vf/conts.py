"""Random container classes and contents for the container checks."""

import sys
import types

import numpy as np

from . import mpi
from .core import rand_array

MOD = types.ModuleType("vf_dynamic_containers")
sys.modules["vf_dynamic_containers"] = MOD
OTHER = types.ModuleType("vf_other_containers")
sys.modules["vf_other_containers"] = OTHER

AX = ["freq", "time", "pol", "beam"]
DTYPES = ["f8", "f4", "c16", "c8", "i4", "u1", "?"]
COUNTER = [0]


def make_class(c, base, levels=None, chunks=True, allow_undist=True, lens=None, dtypes=DTYPES):
    """A class hierarchy; returns the class and its resolved axes and datasets."""
    cls, axes, dsets = base, set(), {}
    for lv in range(levels or c.pick([1, 1, 2, 3])):
        own = tuple(a for a in AX if c.chance(0.6)) or ("freq",)
        if lv and c.chance(0.3):
            own = ()
        axes |= set(own)
        spec = {}
        for nm in ["vis", "weight", "gain", "flag"]:
            if not c.chance(0.6 if lv == 0 else 0.35):
                continue
            n = c.int(1, min(3, len(axes)))
            ax = [sorted(axes)[i] for i in c.rng.permutation(len(axes))[:n]]
            s = dict(axes=ax, dtype=np.dtype(c.pick(dtypes)), initialise=c.chance(0.7))
            if not s["initialise"] and c.chance(0.5):
                s.pop("initialise")
            if c.chance(0.5):
                s["distributed"] = c.chance(0.7) or not allow_undist
            if c.chance(0.6):
                s["distributed_axis"] = c.pick(ax)
            if chunks and c.chance(0.3):
                s["chunks"] = tuple(c.int(1, 5) for _ in ax)
            if chunks and ("chunks" in s and c.chance(0.5) or c.chance(0.1)):
                s["compression"], s["compression_opts"] = "gzip", c.int(1, 4)
            spec[nm] = s
        body = {"__module__": MOD.__name__}
        if own or c.chance(0.5):
            body["_axes"] = own
        if spec or lv == 0:
            body["_dataset_spec"] = spec
        dsets.update(spec)
        COUNTER[0] += 1
        name = f"Dyn{COUNTER[0]}"
        cls = type(name, (cls,), body)
        setattr(MOD, name, cls)
    return cls, axes, dsets


def axis_map(c, lo=1, hi=6, n=None):
    n = c.int(lo, hi) if n is None else n
    k = c.int(0, 4)
    if k == 0:
        return c.pick([n, n, np.int64(n), np.int32(n)]), np.arange(n)
    if k == 1:
        a = np.sort(c.rng.standard_normal(n))
    elif k == 2:
        a = np.array([f"p{i}{'xyz'[i % 3]}" for i in range(n)], dtype="U4")
    elif k == 3:
        a = np.zeros(n, [("centre", "f8"), ("width", "f4")])
        a["centre"], a["width"] = c.rng.standard_normal(n), 1.5
    else:
        a = np.arange(n) * 3 + c.int(0, 5)
    return a, a


def ref_data(c, spec, maps):
    shape = tuple(len(maps[a]) for a in spec["axes"])
    return rand_array(c.rng, shape, spec["dtype"])


def dist_axis(spec):
    return spec["axes"].index(spec.get("distributed_axis", spec["axes"][0]))


def is_dist(cont_dist, spec):
    return bool(cont_dist and spec.get("distributed", True))


def fill(cont, name, ref, comm):
    d = cont[name]
    if d.distributed:
        ax = d.distributed_axis
        d.local_data[...] = ref[mpi.local_sl(ref.ndim, ax, ref.shape[ax], comm)]
    else:
        d[:] = ref


def check_dset(c, cont, name, ref, axis, comm, msg):
    """`axis` is the distributed axis, or None for a common dataset."""
    d = cont[name]
    c.check(d.distributed == (axis is not None), f"{msg}: {name} distributed={d.distributed}, expected {axis is not None}")
    if axis is None:
        c.same(d[:], ref, f"{msg}: {name}")
    else:
        mpi.verify(c, d.data, ref, axis, comm, f"{msg}: {name}")
