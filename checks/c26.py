"""C26 the tasks that find, load, save, truncate and zip files."""

import contextlib
import fnmatch
import logging
import os
import socket
import stat
import sys
import types
import warnings
from ast import literal_eval

import numpy as np
import yaml
from mpi4py import MPI

from vf import conts, mpi
from vf.core import fast_sleep, group, rand_array

from caput import pipeline
from caput.config import CaputConfigError
from caput.containers import Container, ContainerPrototype
from caput.memdata import fileformats
from caput.pipeline import Manager, Task, exceptions
from caput.pipeline.tasklib import io

from .c19 import coarse

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
fast_sleep()

RULE = (
    "random directories of container files (HDF5, Zarr, zipped Zarr) with or without tags, found by "
    "names, patterns and nested lists, loaded by every loading task with selections, distributed or not, "
    "on one to three ranks; saved, truncated and zipped by the saving tasks, with a stand-in for 7z that "
    "fails, is slow or prints much; every product and every file is compared with a model; non-trivial "
    "when a container was delivered or a file written; distinct by configuration and contents"
)
ASSUMPTIONS = ["the zip program is a stand-in, since 7z is not installed", "data and weights have the same precision"]

IO = "caput.pipeline.tasklib.io."
MOD = types.ModuleType("vf_c26_containers")
sys.modules[MOD.__name__] = MOD


class FileCont(ContainerPrototype):
    _axes = ("x", "y")
    _dataset_spec = {
        "a": {"axes": ["x", "y"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "x", "chunks": (2, 2)},
        "b": {"axes": ["y"], "dtype": np.complex64, "initialise": True, "distributed": False},
        "t": {"axes": ["y", "x"], "dtype": np.float32, "initialise": True, "distributed": True, "distributed_axis": "x"},
    }  # fmt: skip


FileCont.__module__ = MOD.__name__
MOD.FileCont = FileCont


class World:
    pass


W = World()


class ISrc(Task):
    def __init__(self):
        self.i = 0

    def next(self):
        if self.i >= len(W.inputs):
            raise exceptions.PipelineStopIteration
        self.i += 1
        return W.inputs[self.i - 1]


class ISink(Task):
    def next(self, a):
        W.got.append(a)


class IReq(Task):
    def setup(self):
        return W.req


pipeline.local_tasks.update(ISrc=ISrc, ISink=ISink, IReq=IReq)


@contextlib.contextmanager
def inside(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def touch(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if path.endswith(".zarr"):
        os.makedirs(path)
    else:
        open(path, "w").close()


@group(quick=400, thorough=6000)
def names(c):
    """Lists of files from names, patterns and nested lists."""
    root = os.path.join(c.tmp, "d")
    have = sorted({f"{c.pick(['', 'sub/', 's2/'])}{c.pick('abf')}{c.int(0, 12)}{c.pick(['.h5', '.h5', '.txt', '.zarr'])}" for _ in range(c.int(1, 9))})
    for n in have:
        touch(os.path.join(root, n))

    def entry():
        """A name or pattern, and what it stands for."""
        k = c.pick(["name", "name", "star", "range", "question", "none"])
        if k == "name":
            n = c.pick(have)
            return os.path.join(root, n), [n]
        pat = {"star": c.pick(["*.h5", "a*", "sub/*", "*/*.h5", "f1*.h5"]), "range": c.pick(["[ab]*.h5", "f[3-7].h5", "a[0-9].h5"]), "question": c.pick(["?5.h5", "a??.h5", "sub/?1.zarr"]), "none": "nothing*"}[k]
        ok = [n for n in have if n.count("/") == pat.count("/") and all(fnmatch.fnmatchcase(x, y) for x, y in zip(n.split("/"), pat.split("/")))]
        # a pattern can only stand for files and Zarr stores
        dirs = sorted({n.split("/")[0] for n in have if "/" in n and "/" not in pat and fnmatch.fnmatchcase(n.split("/")[0], pat)})
        return os.path.join(root, pat), (sorted(ok) if not dirs else None)

    def nested(depth):
        if depth == 0 or c.chance(0.4):
            return entry()
        parts = [nested(depth - 1) for _ in range(c.int(0, 3))]
        return [p for p, _ in parts], (None if any(w is None for _, w in parts) else [x for _, w in parts for x in w])

    arg, want = nested(c.int(0, 3))
    c.note(have=have, arg=str(arg).replace(root, ""))
    if want is None:
        c.raises(CaputConfigError, io.list_or_glob, arg, msg="a pattern matching a directory")
        return
    full = [os.path.join(root, n) for n in want]
    keep = repr(arg)
    got = io.list_or_glob(arg)
    c.check(isinstance(got, list) and got == full, f"list_or_glob: {got}, expected {full}")
    if isinstance(arg, list):
        got = io.list_of_filelists(arg)
        c.check(got == full, f"list_of_filelists: {got}, expected {full}")
    c.check(repr(arg) == keep, "the argument was changed")
    # Groups
    ng = c.int(1, 3)
    groups, wants = [], []
    for g in range(ng):
        es = [entry() for _ in range(c.int(1, 3))]
        while any(w is None for _, w in es):
            es = [entry()]
        groups.append({"files": [p for p, _ in es]})
        wants.append([os.path.join(root, n) for _, w in es for n in w])
        if c.chance(0.5):
            groups[-1]["tag"] = f"mine{g}"
    tags = [g.get("tag") for g in groups]
    arg = groups if ng > 1 or c.chance(0.5) else groups[0]
    c.note(groups=str(groups).replace(root, ""))
    if all(wants):
        got = io.list_of_filegroups(arg)
        c.check([g["files"] for g in got] == wants, f"list_of_filegroups: {got}, expected {wants}")
        c.check(all(g["tag"] == t for g, t in zip(got, tags) if t) and len({g["tag"] for g in got}) == ng, f"tags {[g['tag'] for g in got]}")
    else:
        c.raises(CaputConfigError, io.list_of_filegroups, arg, msg="a group without files")
    # What is refused
    bad = c.pick([os.path.join(root, "missing.h5"), os.path.join(root, "missing.zarr"), 5, None, {"a": 1}])
    c.raises(CaputConfigError, io.list_or_glob, [arg["files"] if isinstance(arg, dict) else arg[0]["files"], bad], msg=f"{bad}")
    c.raises(CaputConfigError, io.list_of_filelists, [bad], msg=f"{bad}")
    c.raises((CaputConfigError, TypeError), io.list_of_filegroups, c.pick([{"tag": "x"}, ["x"], {"files": [bad]}]), msg="a bad group")
    c.nontrivial(str(have), keep.replace(root, ""))


def run(doc, work):
    W.got = []
    m = Manager.from_yaml_str(yaml.dump(doc))
    logging.disable(logging.CRITICAL)
    with inside(work):
        m.run()
    return W.got


def workdir(c, comm):
    work = os.path.join(c.tmp, "work")
    if comm.rank == 0:
        os.makedirs(work, exist_ok=True)
    comm.Barrier()
    return work


def contents(c, nx, ny):
    return {"a": rand_array(c.rng, (nx, ny), "f8"), "b": rand_array(c.rng, (ny,), "c8"), "t": rand_array(c.rng, (ny, nx), "f4")}


def write(c, comm, path, i):
    """A file with known contents, written by the first rank."""
    nx, ny = c.int(3, 8), c.int(3, 6)
    refs = contents(c, nx, ny)
    x, y = np.arange(nx) * 1.5 + i, np.array([f"p{j}" for j in range(ny)])
    attrs = {"lsd": 100 + i, "name": f"n{i}"}
    if c.chance(0.4):
        attrs["tag"] = f"own{i}"
    if comm.rank == 0:
        f = FileCont(x=x, y=y, distributed=True, comm=MPI.COMM_SELF)
        for k, v in refs.items():
            conts.fill(f, k, v, MPI.COMM_SELF)
        for k, v in attrs.items():
            f.attrs[k] = v
        f.save(path, file_format=fileformats.Zarr if path.endswith('.zarr') else fileformats.HDF5)
    return types.SimpleNamespace(path=path, refs=refs, maps={"x": x, "y": y}, attrs=attrs)


def selections(c, distributed, zarr):
    """Ranges along any axis, and a list of indices along one (of HDF5 files, and not the distributed axis)."""
    sel, cut = {}, {"x": slice(None), "y": slice(None)}
    listed = zarr
    for ax in ("x", "y"):
        k = c.pick(["no", "range", "range3", "index", "both"])
        if k in ("index", "both") and not listed and not (distributed and ax == "x"):
            listed = True
            sel[f"{ax}_index"] = cut[ax] = sorted(int(i) for i in c.rng.permutation(3)[: c.int(1, 3)])
        if k in ("range", "both"):
            s = [c.int(0, 2), c.int(2, 9)]
            sel[f"{ax}_range"] = s
            cut[ax] = slice(*s)
        elif k == "range3":
            s = [c.int(0, 1), c.int(1, 9), c.int(1, 3)]
            sel[f"{ax}_range"] = s
            cut[ax] = slice(*s)
    return sel, cut


AXES = {"a": ("x", "y"), "b": ("y",), "t": ("y", "x")}


def judge(c, comm, got, f, cut, distributed, axis, tag, what):
    c.check(type(got) is FileCont, f"{what}: {type(got)}")
    for ax in ("x", "y"):
        c.check(np.array_equal(got.index_map[ax], f.maps[ax][cut[ax]]), f"{what}: axis {ax} is {got.index_map[ax]}")
    for k, ref in f.refs.items():
        for i, ax in enumerate(AXES[k]):
            ref = ref[(slice(None),) * i + (cut[ax],)]
        da = AXES[k].index(axis) if distributed and k != "b" else None
        conts.check_dset(c, got, k, ref, da, comm, what)
    want = {**f.attrs, **({"tag": tag} if tag is not None else {})}
    for k, v in want.items():
        c.check(got.attrs.get(k) == v, f"{what}: attribute {k} is {got.attrs.get(k)!r}, expected {v!r}")
    c.count("containers")


@group(quick=240, thorough=3000, mpi=(1, 2, 3))
def loading(c):
    """Containers from files, by every loading task."""
    comm = c.comm
    work = workdir(c, comm)
    nf = c.int(1, 4)
    zarr = c.chance(0.3)
    mid = c.pick(["", "", ".v1.2"])
    ext = mid + (".zarr" if zarr else ".h5")
    both = c.chance(0.4)  # the same numbers under both letters
    files = [write(c, comm, os.path.join(work, f"{'ab'[i % 2] if both else c.pick('ab')}_{100 + (i // 2 if both else i)}{ext}"), i) for i in range(nf)]
    comm.Barrier()
    distributed = c.chance(0.6)
    sel, cut = selections(c, distributed, zarr) if c.chance(0.5) else ({}, {"x": slice(None), "y": slice(None)})
    kind = c.pick(["params", "params", "find", "pathtag", "attrs", "select", "selectkey"])
    red = c.pick([None, None, "x", "y"]) if distributed else None
    params = {"distributed": distributed, "selections": sel}
    if not sel and c.chance(0.5):
        del params["selections"]
    if red:
        params["redistribute"] = red
    if distributed and c.chance(0.5):
        del params["distributed"]
    axis = red or "x"
    c.note(kind=kind, nfiles=nf, params=params, zarr=zarr)
    byname = sorted(files, key=lambda f: f.path)
    pattern = os.path.join(work, "*_1*" + mid + "." + ("zarr" if zarr else "h5"))
    order = [files[i] for i in c.rng.permutation(nf)][: c.int(1, nf)]
    src = []
    if kind in ("params", "find", "select"):
        use = pattern if c.chance(0.5) else [f.path for f in order]
        order = byname if use == pattern else order
    name = {"params": "LoadFilesFromParams", "find": "LoadFiles", "pathtag": "LoadFilesFromPathAndTag", "attrs": "LoadFilesFromAttrs", "select": "LoadFilesAndSelect", "selectkey": "LoadFilesAndSelect"}[kind]
    task = {"type": IO + name, "out": "data", "params": params}
    tagged = True
    if kind == "params":
        params["files"] = use
    elif kind == "find":
        src = [{"type": IO + "FindFiles", "out": "files", "params": {"files": use}}] if c.chance(0.7) else [{"type": "IReq", "out": "files"}]
        W.req = [f.path for f in order]
        task["requires"] = "files"
    elif kind == "pathtag":
        # every path with every tag, in that order
        by = {os.path.basename(f.path)[:5]: f for f in files}
        letters = [x for x in "ba" if any(k[0] == x for k in by)]
        if c.chance(0.5):
            letters = letters[::-1]
        nums = sorted({k[2:] for k in by})
        nums = [nums[i] for i in c.rng.permutation(len(nums))]
        if c.chance(0.5):
            letters = letters[:1]
            nums = [m for m in nums if f"{letters[0]}_{m}" in by]
        else:
            nums = [m for m in nums if all(f"{x}_{m}" in by for x in letters)]
        order = [by[f"{x}_{m}"] for x in letters for m in nums]
        params["paths"], params["tags"] = [os.path.join(work, f"{x}_{{tag}}{ext}") for x in letters], nums
        if c.chance(0.3):
            params["paths"] = [os.path.join(work, f"{{tag}}_{m}{ext}") for m in nums]
            params["tags"] = letters
            order = [by[f"{x}_{m}"] for m in nums for x in letters]
    else:
        tagged = False
        ins, order2 = [], []
        pool = order if kind == "select" else files
        for i in range(c.int(1, 5)):
            k = i % len(pool) if kind == "select" else c.int(0, nf - 1)
            f = pool[k]
            x = FileCont(x=1, y=1, distributed=False)
            x.attrs["tag"], x.attrs["lsd"], x.attrs["which"] = f"in{i}", f.attrs["lsd"], os.path.basename(f.path)
            if kind == "selectkey" and c.chance(0.3):
                x.attrs["lsd"] = 999
                f = None
            ins.append(x)
            order2.append(f)
        order = order2
        W.inputs = ins
        src = [{"type": "ISrc", "out": "in"}]
        task["in"] = "in"
        if kind == "attrs":
            params["filename"] = os.path.join(work, "{which}")
        elif kind == "select":
            params["files"] = use
        else:
            params["files"], params["key_format"] = [f.path for f in files], "day{lsd}"
    doc = {"pipeline": {"tasks": [*src, task, {"type": "ISink", "in": "data"}]}}
    got = run(doc, work)
    want = [f for f in order if f is not None]
    c.check(len(got) == len(want), f"{len(got)} containers, expected {len(want)}")
    for i, (g, f) in enumerate(zip(got, want)):
        tag = f.attrs.get("tag", os.path.basename(f.path).rsplit(".", 1)[0]) if tagged else None
        judge(c, MPI.COMM_WORLD, g, f, cut, distributed, axis, tag, f"{kind}, product {i}")
    if want:
        c.nontrivial(kind, str(params).replace(c.tmp, ""), want[0].refs["a"].tobytes())


class SelCont(ContainerPrototype):
    """Records the selections it is asked for."""

    _axes = ("x", "freq", "a_b", "range", "index_x", "my_map")
    _dataset_spec = {"d": {"axes": ["x"], "dtype": np.float64, "initialise": True, "distributed": False}}

    @classmethod
    def from_file(cls, filename, **kw):
        W.asked.append({k: v for k, v in kw.items() if k.endswith("_sel")})
        return super().from_file(filename, **{k: v for k, v in kw.items() if not k.endswith("_sel")})


SelCont.__module__ = MOD.__name__
MOD.SelCont = SelCont


@group(quick=300, thorough=3000)
def selectors(c):
    """How selections given in the configuration are understood."""
    given, want = {}, {}
    allow = c.chance(0.6)
    bad = False
    for ax in SelCont._axes:
        kinds = [k for k in ["map", "index", "range"] if c.chance(0.4)]
        for k in kinds:
            if k == "map":
                v = [c.pick(["XX", "YY", 3, 1.5]) for _ in range(c.int(1, 3))]
                w = list(v)
                bad |= not allow
            elif k == "index":
                v = [c.int(-3, 9) for _ in range(c.int(1, 4))]
                w = list(v)
            else:
                v = [c.int(-3, 5) for _ in range(c.int(2, 3))]
                w = slice(*v)
            given[f"{ax}_{k}"] = v
            want[f"{ax}_sel"] = w  # range wins over index, which wins over map
    keys = [list(given)[i] for i in c.rng.permutation(len(given))]
    c.note(given=str({k: given[k] for k in keys}), allow=allow)
    fn = os.path.join(c.tmp, "sel.h5")
    SelCont(**{a: 4 for a in SelCont._axes}, distributed=False).save(fn)
    W.asked = []
    params = {"files": [fn], "selections": {k: given[k] for k in keys}, "allow_index_map": allow, "distributed": False}
    doc = {"pipeline": {"tasks": [{"type": IO + "LoadFilesFromParams", "out": "data", "params": params}, {"type": "ISink", "in": "data"}]}}
    if bad:
        c.raises(Exception, run, doc, c.tmp, msg="map selections which are not allowed")
        c.check(not W.asked and not W.got, "map selections which are not allowed were read")
        return
    got = run(doc, c.tmp)
    c.check(len(got) == 1, f"{len(got)} products")
    if given:
        c.check(W.asked == [want], f"resolved to {W.asked}, expected {want}")
        for k, v in W.asked[0].items():
            c.check(type(v) is type(want[k]), f"{k}: {type(v)}")
    if len(given) > 1:
        c.nontrivial(str(given), keys)


@group(quick=150, thorough=1500, mpi=(1, 2))
def saving(c):
    """Containers, configurations and versions to files."""
    comm = c.comm
    work = workdir(c, comm)
    n = c.int(1, 4)
    kind = c.pick(["save", "save", "config", "versions"])
    params = {"root": c.pick(["out", "x y", os.path.join(work, "abs")])}
    c.note(kind=kind, n=n, params=params)
    W.inputs, refs, want = [], [], {}
    count = 0
    for i in range(n):
        nx, ny = c.int(1, 6), c.int(1, 4)
        r = contents(c, nx, ny)
        x = FileCont(x=nx, y=ny, distributed=True, comm=comm)
        for k, v in r.items():
            conts.fill(x, k, v, comm)
        tag = c.pick([None, f"t{i}", f"t.{i}", *(["", 0] if not i else [])])
        if tag is not None:
            x.attrs["tag"] = tag
        else:
            tag, count = str(count), count + 1
        W.inputs.append(x)
        refs.append(r)
        want[f"{params['root']}_{tag}.h5"] = i
    if kind == "save":
        doc = {"pipeline": {"tasks": [{"type": "ISrc", "out": "in"}, {"type": IO + "Save", "in": "in", "out": "o", "params": params}, {"type": "ISink", "in": "o"}]}}
        got = run(doc, work)
        comm.Barrier()
        c.check(len(got) == n and all(a is b for a, b in zip(got, W.inputs)), "the containers are not passed on")
        files = sorted(os.listdir(work))
        c.check(files == sorted(os.path.basename(w) for w in want), f"files {files}, expected {want}")
        for w, i in want.items():
            y = Container.from_file(os.path.join(work, w), distributed=False)
            for k, r in refs[i].items():
                c.same(y[k][:], r, f"{w}: {k}")
            c.count("files")
    else:
        name = {"config": "SaveConfig", "versions": "SaveModuleVersions"}[kind]
        doc = {"pipeline": {"save_versions": ["numpy", "yaml"], "tasks": [{"type": "caput.pipeline.tasklib.debug." + name, "params": params}]}, "extra": {"list": [1, 2.5, "x", None], "on": True}}
        run(doc, work)
        comm.Barrier()
        fn = f"{params['root']}_{kind}.yml"
        with open(os.path.join(work, fn)) as f:
            y = yaml.safe_load(f)
        if kind == "config":
            c.check(y == doc, f"{fn} holds {y}, expected {doc}")
        else:
            c.check(y == {"numpy": np.__version__, "yaml": yaml.__version__}, f"{fn} holds {y}")
        c.count("files")
    c.nontrivial(kind, str(params["root"]), n, refs[0]["a"].tobytes())


COUNT = [0]
HOSTNAME = socket.gethostname


def truncating(c):
    """A class whose datasets ask for truncation, or not."""
    cplx, dt = c.chance(0.5), c.pick([np.float32, np.float64])
    vdt = {np.float32: np.complex64, np.float64: np.complex128}[dt] if cplx else dt
    waxes = c.pick([["x", "y"], ["x", "y"], ["x"], ["y"]])
    COUNT[0] += 1
    w = {"axes": waxes, "dtype": dt, "initialise": True, "distributed": "x" in waxes, "distributed_axis": waxes[0]}
    spec = {
        "vis": {"axes": ["x", "y"], "dtype": vdt, "initialise": True, "distributed": True, "distributed_axis": "x"},
        "weight": w,
        "other": {"axes": ["x"], "dtype": dt, "initialise": True, "distributed": True, "distributed_axis": "x"},
    }
    for k in ("vis", "other"):
        t = c.pick([None, True, False, 0.01, {"fixed_precision": 1e-3}, {"weight_dataset": "weight", "variance_increase": 1e-2}, {"weight_dataset": "weight", "fixed_precision": 0.03}])
        if k == "other" and isinstance(t, dict) and "weight_dataset" in t:
            t = True
        if t is not None:
            spec[k]["truncate"] = t
    for s in spec.values():
        if c.chance(0.5):
            s["chunks"] = tuple(c.int(1, 6) for _ in s["axes"])
            if c.chance(0.6):
                s["compression"], s["compression_opts"] = "gzip", c.int(1, 5)
    name = f"Trunc{COUNT[0]}"
    cls = type(name, (ContainerPrototype,), {"_axes": ("x", "y"), "_dataset_spec": spec, "__module__": MOD.__name__})
    setattr(MOD, name, cls)
    return cls, spec, dt, cplx


@group(quick=200, thorough=3000, mpi=(1, 2))
def truncation(c):
    """Precision discarded before saving."""
    comm = c.comm
    work = workdir(c, comm)
    cls, spec, dt, cplx = truncating(c)
    nx, ny = c.int(2, 9), c.int(1, 9)
    v = c.rng.standard_normal((nx, ny)) * 10.0 ** c.int(-3, 3)
    if cplx:
        v = v + 1j * c.rng.standard_normal((nx, ny))
    v[c.rng.random((nx, ny)) < 0.1] = 0
    wshape = tuple({"x": nx, "y": ny}[a] for a in spec["weight"]["axes"])
    w = 10.0 ** c.rng.uniform(-3, 6, wshape)
    w[c.rng.random(wshape) < 0.2] = 0
    refs = {"vis": v.astype(spec["vis"]["dtype"]), "weight": w.astype(dt), "other": c.rng.standard_normal(nx).astype(dt)}
    chunked = c.chance(0.5)
    x = cls(x=nx, y=ny, distributed=True, comm=comm, allow_chunked=chunked)
    for k, r in refs.items():
        conts.fill(x, k, r, comm)
    params = {}
    if c.chance(0.6):
        params["dataset"] = {k: c.pick([True, False, 0.02, 1e-5, {"fixed_precision": 0.004}, {}]) for k in ("vis", "other") if c.chance(0.6)}
        if "vis" in params["dataset"] and c.chance(0.5):
            params["dataset"]["vis"] = {"weight_dataset": "weight", "variance_increase": c.pick([1e-3, 0.1, 1e-6]), "fixed_precision": c.pick([1e-4, 0.1])}
    if c.chance(0.3):
        params["ensure_chunked"] = c.chance(0.5)
    c.note(spec={k: s.get("truncate") for k, s in spec.items()}, params=params, dt=dt.__name__, cplx=cplx, waxes=spec["weight"]["axes"])
    W.inputs = [x]
    got = run({"pipeline": {"tasks": [{"type": "ISrc", "out": "in"}, {"type": IO + "Truncate", "in": "in", "out": "o", "params": params}, {"type": "ISink", "in": "o"}]}}, work)
    c.check(len(got) == 1 and got[0] is x, "the container is not passed on")
    changed = False
    for k, s in spec.items():
        on = chunked or params.get("ensure_chunked", True)
        want = tuple(min(a, b) for a, b in zip(s["chunks"], refs[k].shape)) if on and "chunks" in s else None
        want = (want, s.get("compression"), s.get("compression_opts")) if on else (None,) * 3
        have = (None if x[k].chunks is None else tuple(x[k].chunks), x[k].compression, x[k].compression_opts)
        c.check(have == want, f"{k}: chunks and compression {have}, expected {want}")
    for k, ref in refs.items():
        p = params.get("dataset", {}).get(k, spec[k].get("truncate"))
        d = x[k]
        sl = mpi.local_sl(ref.ndim, d.distributed_axis, ref.shape[d.distributed_axis], comm) if d.distributed else Ellipsis
        loc = ref[sl]
        g = np.asarray(d.local_data if d.distributed else d[:])
        c.check(g.dtype == ref.dtype and g.shape == loc.shape, f"{k}: {g.dtype} {g.shape}")
        if k == "weight" or p is None or p is False:
            c.same(g, loc, f"{k}, not to be truncated")
            continue
        q = {"weight_dataset": None, "fixed_precision": 1e-4, "variance_increase": 1e-3}
        q.update(p if isinstance(p, dict) else {"fixed_precision": p} if isinstance(p, float) else {})
        parts = [(g.real, loc.real), (g.imag, loc.imag)] if g.dtype.kind == "c" else [(g, loc)]
        for a, b in parts:
            err = q["fixed_precision"] * np.abs(b.astype(float))
            if q["weight_dataset"]:
                wf = np.broadcast_to(refs["weight"][tuple(slice(None) if ax in spec["weight"]["axes"] else None for ax in ("x", "y"))], ref.shape)[sl].astype(float)
                with np.errstate(all="ignore"):
                    err = np.where(wf > 0, np.sqrt(3 * q["variance_increase"] / (wf * (2 if cplx else 1))), err)
            bad = np.abs(a.astype(float) - b.astype(float)) > err * (1 + 1e-4) + 1e-300
            c.check(not bad.any(), f"{k}: {a[bad]} for {b[bad]} with an allowed error of {err[bad]}")
            for u, s, e in zip(a.ravel(), b.ravel(), err.ravel()):
                coarse(c, u, s, float(e) * (1 - 1e-4), dt, k)
            changed |= bool((a != b).any())
        c.count("datasets")
    if comm.allreduce(changed):
        c.nontrivial(str(params), str(spec), refs["vis"].tobytes())


ZIP = """#!{py}
import os, sys, time, zipfile
mode = open({mode!r}).read()
with open({log!r}, "a") as f:
    f.write(repr(sys.argv[1:]) + "\\n")
if mode == "noise":
    sys.stdout.write("x" * 300000)
    sys.stderr.write("y" * 300000)
if mode == "slow":
    time.sleep(0.3)
if mode == "fail":
    sys.exit(2)
if mode == "killed":
    open(sys.argv[4], "w").close()
    os.kill(os.getpid(), 9)
assert sys.argv[1:4] == ["a", "-tzip", "-mx=0"] and len(sys.argv) == 6, sys.argv
dest, src = sys.argv[4:]
with zipfile.ZipFile(dest, "w", zipfile.ZIP_STORED) as z:
    for d, _, fs in os.walk(src):
        for n in fs:
            p = os.path.join(d, n)
            z.write(p, os.path.relpath(p, src))
if mode == "vanish":
    os.remove(dest)
"""


def zipper(c, comm, mode):
    """A program in place of 7z."""
    d = os.path.join(c.tmp, "bin")
    if comm.rank == 0:
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "mode"), "w") as f:
            f.write(mode)
        p = os.path.join(d, "7z")
        with open(p, "w") as f:
            f.write(ZIP.format(py=sys.executable, mode=os.path.join(d, "mode"), log=os.path.join(d, "log")))
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    comm.Barrier()
    return d


@group(quick=60, thorough=700, mpi=(1, 2, 3))
def zipping(c):
    """Zarr directories to zip files."""
    comm = c.comm
    work = workdir(c, comm)
    kind = c.pick(["zip", "save", "save"])
    mode = c.pick(["ok", "ok", "noise", "slow", "fail", "vanish", "killed"])
    if comm.size > 1 and mode in ("fail", "vanish", "killed"):
        mode = "slow"
    # On which node each rank runs
    nodes = [f"node{c.int(0, 2)}" for _ in range(comm.size)]
    if kind == "zip" and mode == "vanish":
        mode = "ok"
    remove = c.pick([None, True, False])
    stem = c.pick(["out", "my out", "a;b", "q'uote", "x.zip.y", "$HOME"])
    n = 1 if mode in ("fail", "vanish", "killed") else c.int(0 if kind == "save" else 1, 3)
    c.note(kind=kind, mode=mode, remove=remove, stem=stem, n=n)
    # Files that must survive
    decoys = ["my", "out_0", "a", "b_0.zarr", "keep.txt"]
    if comm.rank == 0:
        for d in decoys:
            open(os.path.join(work, d), "w").close()
    comm.Barrier()
    bindir = zipper(c, comm, mode)
    old = os.environ["PATH"]
    os.environ["PATH"] = bindir + os.pathsep + old
    params = {} if remove is None else {"remove": remove}
    refs, fs = [], []
    try:
        if kind == "zip":
            for i in range(n):
                f = write(c, comm, os.path.join(work, f"{stem}_{i}.zarr"), i)
                refs.append(f.refs)
                fs.append(f"{stem}_{i}.zarr")
            params["containers"] = list(fs) if c.chance(0.5) else [os.path.join(work, f) for f in fs]
            comm.Barrier()
            tasks = [{"type": IO + "ZipZarrContainers", "params": params}]
        else:
            W.inputs = []
            for i in range(n):
                nx, ny = c.int(1, 6), c.int(1, 4)
                refs.append(contents(c, nx, ny))
                x = FileCont(x=nx, y=ny, distributed=True, comm=comm)
                for k, v in refs[-1].items():
                    conts.fill(x, k, v, comm)
                x.attrs["tag"] = str(i)
                W.inputs.append(x)
                fs.append(f"{stem}_{i}.zarr")
            params["output_name"] = f"{stem}_{{tag}}.zarr.zip"
            tasks = [{"type": "ISrc", "out": "in"}, {"type": IO + "SaveZarrZip", "in": "in", "out": "h", "params": params}, {"type": IO + "WaitZarrZip", "in": "h"}]
        failed = None
        socket.gethostname = lambda: nodes[comm.rank]
        try:
            run({"pipeline": {"tasks": tasks}}, work)
        except RuntimeError as e:
            failed = e
        seen = set(os.listdir(work))
    finally:
        os.environ["PATH"] = old
        socket.gethostname = HOSTNAME
    comm.Barrier()
    have = set(os.listdir(work))
    c.check(all(d in have for d in decoys), f"other files were removed: {sorted(have)}")
    logf = os.path.join(bindir, "log")
    calls = sorted(os.path.basename(literal_eval(ln)[-2]) for ln in open(logf)) if os.path.exists(logf) else []
    c.check(calls == sorted(f + ".zip" for f in fs), f"zipped {calls} of {fs} on {nodes}")
    if mode in ("fail", "vanish", "killed") and n:
        c.check(failed is not None, f"the failure of the zip program ({mode}) was not reported")
    else:
        c.check(failed is None, f"{type(failed)}: {failed}")
    for r, f in zip(refs, fs):
        zipped, kept = f + ".zip" in have, f in have
        if mode == "fail":
            c.check(not zipped and kept, f"{f}: zipped {zipped}, directory left {kept} after a failure")
        elif mode == "killed":
            c.check(kept, f"{f} was removed although it was not zipped")
            zipped = False
        elif mode != "vanish":
            c.check(zipped, f"{f}.zip is missing: {sorted(have)}")
            c.check(f + ".zip" in seen and (f in seen) == kept, f"rank {comm.rank} went on before {f} was zipped: {sorted(seen)}")
            c.check(kept == (remove is False), f"{f} was {'kept' if kept else 'removed'}, remove={remove}")
        for p in [f + ".zip"] * zipped + [f] * kept:
            y = Container.from_file(os.path.join(work, p), distributed=False, file_format=fileformats.Zarr)
            for k, v in r.items():
                c.same(y[k][:], v, f"{p}: {k}")
            c.count("stores")
    extra = {e for e in have if e not in decoys and e not in fs and e not in [f + ".zip" for f in fs]}
    c.check(not extra, f"unexpected files {extra}")
    if fs:
        c.nontrivial(kind, mode, remove, stem, refs[0]["a"].tobytes())


@group(quick=60, thorough=500)
def refused(c):
    """What cannot be loaded or zipped."""
    comm = MPI.COMM_WORLD
    work = workdir(c, comm)
    f = write(c, comm, os.path.join(work, "a.h5"), 0)
    k = c.pick(["missing", "attr", "range", "rangetype", "index", "indextype", "map", "key", "zipname", "notzarr", "no7z", "pathtag", "files"])
    c.note(kind=k)
    isdir = False
    sink = {"type": "ISink", "in": "data"}
    E = (Exception,)
    L = IO + "LoadFilesFromParams"
    W.inputs = [FileCont(x=1, y=1)]
    W.inputs[0].attrs["tag"] = "x"
    src = {"type": "ISrc", "out": "in"}
    sel = {"range": {"x_range": c.pick([[1], [1, 2, 3, 4], 5])}, "rangetype": {"x_range": [0.5, 2]}, "index": {"x_index": c.pick([[], 3])}, "indextype": {"x_index": ["a"]}, "map": {"x_map": [0.0]}, "key": {c.pick(["x", "x_slice", "x_sel"]): [0, 1]}}
    if k in sel:
        tasks = [{"type": L, "out": "data", "params": {"files": [f.path], "selections": sel[k]}}, sink]
    elif k == "missing":
        tasks = [{"type": L, "out": "data", "params": {"files": c.pick([os.path.join(work, "b.h5"), [f.path, os.path.join(work, "b.h5")]])}}, sink]
    elif k == "attr":
        tasks = [src, {"type": IO + "LoadFilesFromAttrs", "in": "in", "out": "data", "params": {"filename": os.path.join(work, c.pick(["{tag}.h5", "{nothing}.h5"]))}}, sink]
    elif k == "pathtag":
        tasks = [{"type": IO + "LoadFilesFromPathAndTag", "out": "data", "params": {"paths": [os.path.join(work, "{tag}.h5")], "tags": ["z"]}}, sink]
    elif k == "files":
        W.req = f.path
        tasks = [{"type": "IReq", "out": "files"}, {"type": IO + "LoadFiles", "requires": "files", "out": "data"}, sink]
    elif k == "zipname":
        tasks = [src, {"type": IO + "SaveZarrZip", "in": "in", "out": "data", "params": {"output_name": c.pick(["x.zarr", "x.zip", "x.h5"])}}, sink]
    else:
        d = os.path.join(work, "d.dir")
        if k == "notzarr" and c.chance(0.5):
            os.makedirs(d)
            isdir = True
        tasks = [{"type": IO + "ZipZarrContainers", "params": {"containers": [d if isdir else f.path]}}]
    old = os.environ["PATH"]
    try:
        if k == "no7z":
            os.environ["PATH"] = work
        elif k in ("notzarr", "zipname"):
            os.environ["PATH"] = zipper(c, comm, "ok") + os.pathsep + old
        c.raises(E, run, {"pipeline": {"tasks": tasks}}, work, msg=k)
    finally:
        os.environ["PATH"] = old
    c.check(not W.got, f"products were delivered: {W.got}")
    c.check(sorted(os.listdir(work)) == ["a.h5", *(["d.dir"] if isdir else [])], f"files {os.listdir(work)}")
    y = Container.from_file(f.path, distributed=False)
    c.same(y["a"][:], f.refs["a"], "the file")
    c.nontrivial(k, f.refs["a"].tobytes())


