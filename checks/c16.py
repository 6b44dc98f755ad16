"""C16 container tasks label, check and save their outputs as configured; flow tasks forward faithfully."""

import contextlib
import copy
import io
import logging
import os
import sys
import types
import warnings

import h5py
import numpy as np
import yaml

from vf import conts, mpi
from vf.core import fast_sleep, group, rand_array

from caput import config, pipeline
from caput.containers import Container, ContainerPrototype
from caput.memdata import MemGroup, fileformats
from caput.pipeline import Manager, Task, exceptions, extensions
from caput.pipeline.extensions import _extensions as ext
from caput.pipeline.tasklib import base, debug, flow

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
fast_sleep()

RULE = (
    "random one-task pipelines of container tasks (one to three inputs and outputs, new or passed on "
    "containers with or without tags, attribute, tag and file name formats, save lists, compression "
    "settings, NaNs or infs in one element on one rank, finish outputs), and of the flow, grouping, "
    "single and iterating tasks; the products passed on and every file in the working directory are "
    "compared with a model; non-trivial when a product was passed on or a file written; distinct by the "
    "configuration"
)
ASSUMPTIONS = ["process returns a container, or a tuple of them, for every input"]

MOD = types.ModuleType("vf_c16_containers")
sys.modules[MOD.__name__] = MOD


class Cont(ContainerPrototype):
    _axes = ("x", "y")
    _dataset_spec = {
        "a": {"axes": ["x", "y"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "x", "chunks": (2, 2), "compression": "gzip", "compression_opts": 1},
        "b": {"axes": ["y"], "dtype": np.complex64, "initialise": True, "distributed": False},
        "n": {"axes": ["x"], "dtype": np.int32, "initialise": True, "distributed": True, "distributed_axis": "x"},
    }  # fmt: skip


class Empty(ContainerPrototype):
    _axes = ("x",)
    _dataset_spec = {}

    def __init__(self):
        super().__init__(x=1)


Cont.__module__ = MOD.__name__
MOD.Cont = Cont


class World:
    pass


W = World()


class VSrc(Task):
    """Emits the inputs of each key in step."""

    def __init__(self):
        self.i = 0

    def next(self):
        if self.i >= len(W.inputs):
            raise exceptions.PipelineStopIteration
        self.i += 1
        r = W.inputs[self.i - 1]
        return r if len(r) > 1 else r[0]


class VSink(Task):
    def next(self, *a):
        W.got.append(a)


def procclass(n, finish):
    name = f"VProc{n}{'F' if finish else ''}"
    if name not in pipeline.local_tasks:
        args = ", ".join(f"a{i}" for i in range(n))
        ns = {"W": W}
        exec(f"def process(self, {args}):\n    return W.process(({args},))\n", ns)  # noqa: S102
        body = {"process": ns["process"], "__module__": MOD.__name__}
        if finish:
            body["process_finish"] = lambda self: W.finish()
        pipeline.local_tasks[name] = type(name, (base.ContainerTask,), body)
    return name


pipeline.local_tasks["VSrc"] = VSrc
pipeline.local_tasks["VSink"] = VSink


@contextlib.contextmanager
def inside(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def new(c, comm, badaxis=None):
    """A container and its contents; an axis can hold one bad value."""
    nx, ny = c.int(1, 6), c.int(1, 4)
    ax = {"x": nx, "y": ny}
    if c.chance(0.4):  # not something that can be checked for NaN
        k = c.pick(["x", "y"])
        ax[k] = np.array([(i, i / 2) for i in range(ax[k])], dtype=[("id", "i4"), ("pos", "f8")]) if c.chance(0.5) else np.array([f"n{i}" for i in range(ax[k])], dtype="S4")
    if badaxis is not None:
        k = c.pick(["x", "y"])
        ax[k] = np.arange({"x": nx, "y": ny}[k]) * 1.0
        ax[k][c.int(0, len(ax[k]) - 1)] = badaxis
    refs = {"a": rand_array(c.rng, (nx, ny), "f8"), "b": rand_array(c.rng, (ny,), "c8"), "n": rand_array(c.rng, (nx,), "i4")}
    x = Cont(**ax, distributed=comm is not None, comm=comm)
    for k, v in refs.items():
        conts.fill(x, k, v, comm)
    return x, refs


def listing(path):
    out = []
    for d, dirs, files in os.walk(path):
        for n in list(dirs):
            if n.endswith(".zarr"):
                out.append(os.path.relpath(os.path.join(d, n), path))
                dirs.remove(n)
        out += [os.path.relpath(os.path.join(d, n), path) for n in files]
    return sorted(out)


NAMES = ["{output_root}{tag}.h5", "out_{tag}_{key}.h5", "sub/{task}_{count}_{key}.h5", "f{count:03d}_{key}_{src}.h5", "$VFDIR/{tag}_{key}_{count}.h5", "z_{count}_{key}.zarr"]
TAGS = ["{tag}", "t{count}", "{tag}_{key}", "fixed{count}{key}", "{src}_{count}"]
ATTRS = [None, {"plain": 5}, {"fmt": "{tag}-{count}-{key}"}, {"src": "new {src}", "task": "{task}"}, {"lst": [1, 2], "it": "{input_tags[0]}"}, {"tag": "over{count}", "x": 1.5}]


def single(c, comm):
    nin, nout = c.pick([1, 1, 2, 3]), c.pick([1, 1, 2, 3])
    niter = c.int(1, 3)
    finish = c.chance(0.3)
    keys = [f"out{i}" for i in range(nout)]
    params = {}
    if nout > 1 and c.chance(0.4):
        params["save"] = [c.chance(0.6) for _ in range(nout)]
    elif c.chance(0.8):
        params["save"] = c.chance(0.8)
    name = c.pick(NAMES)
    if nout > 1 and c.chance(0.3):
        params["output_name"] = [f"n{i}_{{count}}_{{tag}}.h5" for i in range(nout)]
    elif c.chance(0.8):
        params["output_name"] = name
    if c.chance(0.6):
        params["tag"] = c.pick(TAGS)
    at = c.pick(ATTRS)
    if at is not None:
        params["attrs"] = at
    if c.chance(0.2):
        params["output_root"] = c.pick(["pre_", "d/pre"])
    comp = c.pick(["unset", "off", "set", "some", "empty"])
    if comp == "off":
        params["compression"] = False
    elif comp == "set":
        params["compression"] = True
    elif comp == "some":
        params["compression"] = {"a": {"compression": "gzip", "compression_opts": 4, "chunks": [1, 2]}, "nothere": {"chunks": [1]}}
    elif comp == "empty":
        params["compression"] = {}
    flags = {k: c.chance(0.5) for k in ("nan_check", "nan_skip", "nan_dump") if c.chance(0.5)}
    params.update(flags)
    passed = nin == nout and c.chance(0.3)
    doc = {
        "pipeline": {
            "save_versions": c.pick([["numpy"], []]),
            "tasks": [
                {"type": "VSrc", "out": [f"in{i}" for i in range(nin)] if nin > 1 else "in0"},
                {"type": procclass(nin, finish), "in": [f"in{i}" for i in range(nin)], "out": keys if nout > 1 else keys[0], "params": params},
                {"type": "VSink", "in": keys},
            ],
        }
    }
    return types.SimpleNamespace(nin=nin, nout=nout, niter=niter, finish=finish, keys=keys, params=params, comp=comp, passed=passed, doc=doc)


def prepare(c, s, comm, bad):
    """Fill the world with inputs and outputs and compute what should be seen."""
    W.inputs, W.outputs, W.got, W.calls, W.labels = [], [], [], 0, []
    W.seen = []
    refs = []
    badpos, badaxis = None, None
    if bad:
        # One bad element somewhere, in the data or along an axis
        badpos = c.int(0, s.niter - 1 + s.finish), c.int(0, s.nout - 1)
        badval = c.pick([np.nan, np.inf, -np.inf])
        badaxis = badval if c.chance(0.2) and (not s.passed or badpos[0] == s.niter) else None
    for it in range(s.niter + (1 if s.finish else 0)):
        fin = it == s.niter
        ins, outs, rr = [], [], []
        if not fin:
            for j in range(s.nin):
                x, r = new(c, comm)
                if c.chance(0.5):
                    x.attrs["tag"] = f"in{j}tag{it}" if c.chance(0.7) else it * 10 + j
                if s.passed:
                    x.attrs["src"] = f"s{it}{j}"
                ins.append((x, r))
        for j in range(s.nout):
            x, r = ins[j] if s.passed and not fin else new(c, comm, badaxis if badpos == (it, j) else None)
            if not (s.passed and not fin):
                x.attrs["src"] = f"s{it}{j}"
                if c.chance(0.4):
                    x.attrs["tag"] = f"o{it}{j}"
            outs.append(x)
            rr.append(r)
        if fin and "it" in s.params.get("attrs", {}):
            for x in outs:
                x.attrs["input_tags"] = ["finished"]
        if not fin:
            W.inputs.append(tuple(x for x, _ in ins))
        W.outputs.append(tuple(outs))
        refs.append(rr)
    if bad:
        it, j = bad = badpos
        name = c.pick(["a", "b"])
        r = refs[it][j][name]
        at = tuple(c.int(0, n - 1) for n in r.shape)
        if badaxis is None:
            r[at] = badval
            conts.fill(W.outputs[it][j], name, r, comm)

    def process(ins):
        W.seen.append(ins)
        W.calls += 1
        o = W.outputs[W.calls - 1]
        return o if len(o) > 1 else o[0]

    W.process = process
    W.finish = lambda: W.outputs[-1] if len(W.outputs[-1]) > 1 else W.outputs[-1][0]
    return refs, bad


def model(s, bad):
    """The expected attributes, products and files."""
    p = {"output_name": "{output_root}{tag}.h5", "tag": "{tag}", "save": False, "attrs": {}, "nan_check": True, "nan_skip": True, "nan_dump": True, "output_root": "", **s.params}
    files, attrs, skip, dumps = {}, {}, set(), {}
    cls = s.doc["pipeline"]["tasks"][1]["type"]
    for it, outs in enumerate(W.outputs):
        fin = it == s.niter
        itags = None if fin else [str(x.attrs["tag"]) if "tag" in x.attrs else "" for x in W.inputs[it]]
        for j, x in enumerate(outs):
            a = dict(x.attrs)
            if itags is not None:
                a["input_tags"] = itags
            it_tags = a.get("input_tags", [])
            tag = a["tag"] if "tag" in a else it_tags[0] if it_tags and it_tags[0] else it
            special = {"count": it, "task": cls, "key": s.keys[j], "output_root": p["output_root"]}
            d = {**a, **special, "tag": tag}
            for k, v in {**p["attrs"], "tag": p["tag"]}.items():
                a[k] = v.format(**d) if isinstance(v, str) else v
            attrs[it, j] = a
            if bad == (it, j) and p["nan_check"]:
                if p["nan_dump"]:
                    dumps[f"nandump_{cls}_{a['tag']}.h5"] = (it, j)
                if p["nan_skip"]:
                    skip.add((it, j))
                    continue
            save = p["save"][j] if isinstance(p["save"], list) else p["save"]
            if save:
                nm = p["output_name"][j] if isinstance(p["output_name"], list) else p["output_name"]
                d = {**a, **special, "tag": a["tag"]}
                fn = nm.format(**d).replace("$VFDIR", "vfdir")
                files[os.path.normpath(fn)] = (it, j)
    return files, attrs, skip, dumps


def run_case(c, comm, bad):
    s = single(c, comm)
    refs, bad = prepare(c, s, comm, bad)
    files, attrs, skip, dumps = model(s, bad)
    c.note(params=str(s.params), nin=s.nin, nout=s.nout, niter=s.niter, finish=s.finish, passed=s.passed, bad=str(bad))
    os.environ["VFDIR"] = "vfdir"
    doc = yaml.dump(s.doc)
    m = Manager.from_yaml_str(doc)
    logging.disable(logging.CRITICAL)
    work = os.path.join(c.tmp, "work")
    if comm is None or comm.rank == 0:
        os.makedirs(work)
    if comm is not None:
        comm.Barrier()
    with inside(work):
        m.run()
    if comm is not None:
        comm.Barrier()
    # What process was given
    c.check(len(W.seen) == s.niter and all(len(g) == len(w) and all(x is y for x, y in zip(g, w)) for g, w in zip(W.seen, W.inputs)), "the inputs of process")
    # What was passed on; a skipped output is None unless it is the only one
    want = []
    for it, outs in enumerate(W.outputs):
        row = [None if (it, j) in skip else x for j, x in enumerate(outs)]
        if s.nout > 1 or row[0] is not None:
            want.append(row)
    c.check(
        len(W.got) == len(want) and all(len(g) == len(w) and all(x is y for x, y in zip(g, w)) for g, w in zip(W.got, want)),
        f"{len(W.got)} products were passed on, expected {len(want)} (skipped {skip})",
    )
    c.count("products", len(want))
    for (it, j), a in attrs.items():
        got = {k: v for k, v in W.outputs[it][j].attrs.items() if k != "__memh5_subclass"}
        c.check(got == {k: v for k, v in a.items() if k != "__memh5_subclass"}, f"attributes of output {it}.{j}: {got}, expected {a}")
    c.check(listing(work) == sorted({*files, *dumps}), f"files {listing(work)}, expected {sorted({*files, *dumps})}")
    for fn, (it, j) in {**files, **dumps}.items():
        path = os.path.join(work, fn)
        y = Container.from_file(path, distributed=False)
        c.check(type(y) is Cont, f"{fn} holds {type(y)}")
        for k, r in refs[it][j].items():
            c.same(y[k][:], r, f"{fn}: {k}")
        a = {k: v for k, v in y.attrs.items() if k != "__memh5_subclass"}
        for k, v in attrs[it, j].items():
            if k == "__memh5_subclass":
                continue
            g = a[k]
            c.check((list(g) == list(v)) if isinstance(v, list) else g == v, f"{fn}: attribute {k} is {g!r}, expected {v!r}")
        if fn in files:
            c.check(y.history["order"] == ["versions", "config"], f"{fn}: history {y.history['order']}")
            vers = {"numpy": np.__version__} if s.doc["pipeline"]["save_versions"] else {}
            c.check(y.history["versions"] == vers and y.history["config"] == yaml.safe_load(doc), f"{fn}: history {dict(y.history)}")
        if fn.endswith(".h5") and fn in files:
            with h5py.File(path) as f:
                d = f["a"]
                nx, ny = d.shape
                if s.comp == "off":
                    c.check(d.chunks is None and d.compression is None, f"{fn}: chunks {d.chunks}, compression {d.compression}")
                elif s.comp == "some":
                    c.check(d.chunks == (1, min(2, ny)) and d.compression == "gzip" and d.compression_opts == 4, f"{fn}: {d.chunks} {d.compression} {d.compression_opts}")
                else:
                    c.check(d.chunks == (min(2, nx), min(2, ny)) and d.compression == "gzip" and d.compression_opts == 1, f"{fn}: {d.chunks} {d.compression} {d.compression_opts}")
        c.count("files")
    if want or files:
        c.nontrivial(str(s.params), s.nin, s.nout, s.niter, s.finish, s.passed, str(bad))


@group(quick=300, thorough=5000)
def saving(c):
    run_case(c, None, c.chance(0.3))


@group(quick=90, thorough=900, mpi=(1, 2, 3))
def ranks(c):
    run_case(c, c.comm, c.chance(0.5))


@group(quick=60, thorough=500)
def refusals(c):
    """Outputs which are not containers and process methods with optional arguments."""
    k = c.pick(["notcont", "varargs", "default", "kw", "badformat"])
    c.note(kind=k)
    if k in ("notcont", "badformat"):

        class P(base.ContainerTask):
            def process(self):
                return MemGroup() if k == "notcont" else new(c, None)[0]

        t = P()
        if k == "badformat":
            t.tag = c.pick(["{nothere}", "{tag", "{count:s}"])
            c.raises((KeyError, ValueError), t.next, msg="a malformed format")
        else:
            c.raises(exceptions.PipelineRuntimeError, t.next, msg="an output which is not a container")
    else:
        ns = {"varargs": "*a", "default": "a=1", "kw": "a, **k"}[k]
        d = {}
        exec(f"def process(self, {ns}):\n    pass\n", d)  # noqa: S102
        cls = type("Bad", (base.ContainerTask,), {"process": d["process"]})
        c.raises(exceptions.PipelineRuntimeError, cls, msg=f"process({ns})")
    c.nontrivial(k)


class Thing:
    def __init__(self, v):
        self.v = v


def things(c, n):
    def one(i):
        k = c.pick(["obj", "array", "list", "cont", "int", "str", "dict", "falsy"])
        if k == "str":
            return c.pick(["same", "other"])
        if k == "dict":
            return {"k": [i], "n": {"z": np.arange(2)}}
        if k == "falsy":
            return c.pick([0, "", [], False, {}])
        if k == "obj":
            return Thing([i])
        if k == "array":
            return np.arange(3.0) + i
        if k == "list":
            return [i, [i + 1]]
        if k == "cont":
            return new(c, None)[0]
        return i + 1000

    return [one(i) for i in range(n)]


def pipe(tasks):
    """tasks: (instance, requires, in, out)."""
    m = Manager()
    for t, r, i, o in tasks:
        kw = {k: v for k, v in (("requires", r), ("in_", i), ("out", o)) if v is not None}
        m.add_task(t, **kw)
    m.run()


def ids(x):
    return [id(v) for v in x]


@group(quick=400, thorough=5000)
def flowing(c):
    """The flow tasks forward exactly what they get."""
    kind = c.pick(["pass", "gather", "accumulate", "grouped", "copy", "delete", "wait", "never", "callback", "first", "last", "print"])
    n = c.int(0, 7)
    x = things(c, n)
    c.note(kind=kind, n=n)
    src = extensions.Input(x)
    out = extensions.Output()
    if kind == "pass":
        pipe([(src, None, None, "x"), (flow.PassOn(), None, "x", "y"), (out, None, "y", None)])
        c.check(ids(out.outputs) == ids(x), "PassOn changed what it forwards")
    elif kind == "gather":
        k = c.int(1, 4)
        srcs = [things(c, n) for _ in range(k)]
        names = [f"x{i}" for i in range(k)]
        pipe([*[(extensions.Input(v), None, None, nm) for v, nm in zip(srcs, names)], (flow.GatherInputs(), None, names, "y"), (out, None, "y", None)])
        c.check([ids(o) for o in out.outputs] == [ids(r) for r in zip(*srcs)] and all(type(o) is list for o in out.outputs), "GatherInputs")
    elif kind in ("first", "last"):
        x = [new(c, None)[0] if c.chance(0.7) else Empty() for _ in range(n)]
        t = getattr(base, {"first": "_ReturnFirstInputOnFinish", "last": "_ReturnLastInputOnFinish"}[kind])()
        pipe([(extensions.Input(x), None, None, "x"), (t, None, "x", "y"), (out, None, "y", None)])
        c.check(ids(out.outputs) == ids(x[:1] if kind == "first" else x[-1:]), f"the {kind} of {n} inputs")
    elif kind == "print":
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            pipe([(src, None, None, "x"), (debug.Print(), None, "x", "y"), (out, None, "y", None)])
        c.check(ids(out.outputs) == ids(x), "Print changed what it forwards")
        c.check(f.getvalue() == "".join(f"{v}\n" for v in x), f"Print wrote {f.getvalue()!r}")
    elif kind == "accumulate":
        pipe([(src, None, None, "x"), (flow.AccumulateList(), None, "x", "y"), (out, None, "y", None)])
        c.check([ids(o) for o in out.outputs] == [ids(x)], f"AccumulateList gave {len(out.outputs)} lists")
    elif kind == "grouped":
        g = c.int(1, 4)
        t = flow.AccumulateList()
        t.group_size = g
        pipe([(src, None, None, "x"), (t, None, "x", "y"), (out, None, "y", None)])
        c.check([ids(o) for o in out.outputs] == [ids(x[i * g : (i + 1) * g]) for i in range(n // g)], f"AccumulateList in groups of {g} of {n}")
    elif kind == "copy":
        x = [v for v in x if not isinstance(v, int | str) and not (isinstance(v, list | dict) and not v)]
        src = extensions.Input(x)
        keep = copy.deepcopy(x)
        pipe([(src, None, None, "x"), (flow.MakeCopy(), None, "x", "y"), (out, None, "y", None)])
        c.check(len(out.outputs) == len(x), f"{len(out.outputs)} copies of {len(x)} products")
        for a, b, k in zip(x, out.outputs, keep):
            c.check(a is not b and type(a) is type(b), "MakeCopy returned the original")
            if isinstance(a, np.ndarray):
                b += 100
                c.check(np.array_equal(a, k) and np.array_equal(b - 100, k), "the copy of an array")
            elif isinstance(a, list):
                b[1].append(7)
                c.check(a == k and b[:1] == k[:1], "the copy of a list")
            elif isinstance(a, dict):
                b["k"].append(7)
                b["n"]["z"] += 5
                c.check(a["k"] == k["k"] and np.array_equal(a["n"]["z"], k["n"]["z"]) and b["k"] == [*k["k"], 7], "the copy of a dictionary")
            elif isinstance(a, Thing):
                b.v.append(7)
                c.check(a.v == k.v and b.v == [*k.v, 7], "the copy of an object")
            else:
                b["b"][:] = 5
                b.attrs["new"] = 1
                c.check("new" not in a.attrs and np.array_equal(a["b"][:], k["b"][:]) and np.array_equal(b["a"][:], k["a"][:]), "the copy of a container")
    elif kind == "delete":
        import weakref

        objs = [Thing([i]) for i in range(n)]
        refs = [weakref.ref(o) for o in objs]

        class Gen(Task):
            def next(self):
                if not objs:
                    raise exceptions.PipelineStopIteration
                return objs.pop()

        seen = []

        class Look(Task):
            def next(self, a):
                seen.append(sum(r() is not None for r in refs))

        pipe([(Gen(), None, None, "x"), (flow.Delete(), None, "x", "y"), (out, None, "y", None)])
        c.check(out.outputs == [], "Delete forwarded something")
        c.check(all(r() is None for r in refs), "deleted products are still alive")
    elif kind in ("wait", "never"):
        order = []

        class Req(Task):
            def setup(self):
                order.append("req")
                return None if kind == "never" else Thing(0)

        class Late(Task):
            """Produces the requirement after a number of steps."""

            i = 0

            def next(self, a):
                order.append("late")
                self.i += 1
                if self.i == max(1, n // 2):
                    return Thing(1) if kind == "wait" else None
                return None

        def cb(v):
            order.append("out")
            return v

        out = extensions.Output(callback=cb)
        pipe([(src, None, None, "x"), (Late(), None, "x", "r"), (flow.WaitUntil(), "r", "x", "y"), (out, None, "y", None)])
        if kind == "wait":
            c.check(ids(out.outputs) == ids(x), f"WaitUntil forwarded {len(out.outputs)} of {n}")
            c.check("out" not in order or order[: order.index("out")].count("late") >= max(1, n // 2), f"forwarded too early: {order}")
        else:
            c.check(out.outputs == [], "forwarded without the requirement")
    else:
        out = extensions.Output(callback=lambda v: (1, v))
        pipe([(src, None, None, "x"), (out, None, "x", None)])
        c.check(ids([b for _, b in out.outputs]) == ids(x) and all(a == 1 for a, _ in out.outputs), "the callback of Output")
    c.count("products", n)
    c.nontrivial(kind, n, str([type(v).__name__ for v in x]))


@group(quick=80, thorough=1000)
def grouped(c):
    """A group of tasks calls its members in order, and gives each its setup arguments."""
    log = []
    n = c.int(1, 4)
    members, nargs = [], []
    for i in range(n):
        k = c.int(0, 2)
        nargs.append(k)
        args = "".join(f", a{j}" for j in range(k))
        ns = {"log": log, "i": i}
        exec(f"def setup(self{args}):\n    log.append(('setup', i, ({args[2:]}{',' if k else ''})))\ndef process(self, x):\n    log.append(('process', i, x))\n    x.attrs['path'] = x.attrs.get('path', '') + str(i)\n    return x\n", ns)  # noqa: S102
        members.append(type(f"M{i}", (base.ContainerTask,), {"setup": ns["setup"], "process": ns["process"]}))
    G = base.group_tasks(*members)
    t = G()
    a = [object() for _ in range(sum(nargs))]
    t.setup(*a)
    want, rest = [], list(a)
    for i, k in enumerate(nargs):
        want.append(("setup", i, tuple(rest[:k])))
        rest = rest[k:]
    c.check(log == want, f"setup calls {log}")
    log.clear()
    x, _ = new(c, None)
    y = t.next(x)
    c.check(y is x and [e[:2] for e in log] == [("process", i) for i in range(n)], f"process calls {log}")
    c.check(y.attrs["path"] == "".join(map(str, range(n))), "order")
    c.nontrivial(str(nargs))


class H5Single(ext.SingleH5Base):
    def process(self, x):
        W.calls.append(x)
        return W.reply(x)


class H5SingleNone(ext.SingleH5Base):
    def process(self):
        W.calls.append(None)
        return W.reply(None)


class H5Iter(ext.IterH5Base):
    def process(self, x):
        W.calls.append(x)
        return W.reply(x)


def grp(c):
    g = MemGroup()
    d = rand_array(c.rng, (c.int(1, 6),), "f8")
    g.create_dataset("d", data=d)
    g.attrs["k"] = c.int(0, 100)
    return g, d


@group(quick=200, thorough=2500)
def oneandone(c):
    """Tasks with one input and output read, process and write each item once."""
    W.calls = []
    it = c.chance(0.5)
    noin = not it and c.chance(0.25)
    fromfile = not noin and c.chance(0.5)
    tofile = c.chance(0.6)
    n = c.int(1, 4) if it else 1
    kind = c.pick(["group", "group", "array", "empty"]) if not fromfile and not tofile and not noin else "group"
    work = os.path.join(c.tmp, "w")
    os.makedirs(work)
    replies = [grp(c) for _ in range(n)]
    nones = [c.chance(0.2) for _ in range(n)]
    srcs = [grp(c) if kind == "group" else (rand_array(c.rng, (3,), "f8"), None) if kind == "array" else (MemGroup(), None) for _ in range(n)]

    def reply(x):
        i = len(W.calls) - 1
        return None if nones[i] else replies[i][0]

    W.reply = reply
    names = [f"m{i}" for i in range(n)]
    t = H5Iter() if it else H5SingleNone() if noin else H5Single()
    root = c.pick(["in/", "in/pre_"])
    oroot = c.pick(["out/", "out/deep/pre_", "o_", "./"])
    if it:
        t.file_middles = names
        t.input_ext = t.output_ext = ".h5"
    else:
        t.input_filename = t.output_filename = "m0.h5"
    casts = []
    if c.chance(0.4):
        t.cast_input = lambda v: (casts.append(v), v)[1]
    c.note(it=it, noin=noin, fromfile=fromfile, tofile=tofile, n=n, kind=kind, oroot=oroot)
    with inside(work):
        os.makedirs("in")
        if fromfile:
            t.input_root = root
            for nm, (g, _) in zip(names, srcs):
                g.to_hdf5(f"{root}{nm}.h5")
        if tofile:
            t.output_root = oroot
        before = set(listing(work))
        out = extensions.Output()
        if fromfile or noin:
            pipe([(t, None, None, "y"), (out, None, "y", None)])
        else:
            if c.chance(0.15) and tofile is False:
                # both a file and a key is refused
                t.input_root = root
                m = Manager()
                c.raises(config.CaputConfigError, m.add_task, t, in_="x", out="y", msg="both a file and an input key")
                c.nontrivial("both", it)
                return
            pipe([(extensions.Input([s[0] for s in srcs]), None, None, "x"), (t, None, "x", "y"), (out, None, "y", None)])
    c.check(len(W.calls) == n, f"process ran {len(W.calls)} times, expected {n}")
    if not noin:
        for x, (g, d) in zip(W.calls, srcs):
            if fromfile:
                c.same(x["d"][:], d, "the input read from the file")
                c.check(x.attrs["k"] == g.attrs["k"], "the attributes read from the file")
            else:
                c.check(x is g, "the input")
        if "cast_input" in t.__dict__ and not fromfile:
            c.check(ids(casts) == ids([s[0] for s in srcs]), f"cast_input was called {len(casts)} times for {n} inputs")
    want = [r[0] for r, no in zip(replies, nones) if not no]
    c.check(ids(out.outputs) == ids(want), f"{len(out.outputs)} outputs, expected {len(want)}")
    made = {os.path.normpath(f"{oroot}{nm}.h5"): r for nm, r, no in zip(names, replies, nones) if not no} if tofile else {}
    c.check(set(listing(work)) - before == set(made), f"files {set(listing(work)) - before}, expected {set(made)}")
    for fn, (g, d) in made.items():
        y = MemGroup.from_file(os.path.join(work, fn))
        c.same(y["d"][:], d, fn)
        c.check(y.attrs["k"] == g.attrs["k"], f"{fn}: attributes")
    c.nontrivial(it, noin, fromfile, tofile, n, kind, oroot, str(nones))
