"""C14 pipeline configurations are built as written or refused before anything runs."""

import copy
import logging
import os
import sys
import warnings

import numpy as np
import yaml

from vf.core import group

from caput import config, pipeline
from caput.pipeline import Manager, Task, runner

warnings.simplefilter("ignore")

RULE = (
    "random pipeline configurations (task types local or imported, optional and repeated arguments, "
    "parameters inline or in sections, saved versions and config, logging levels), valid or with one "
    "random mistake in a random task; non-trivial when tasks were built or a mistake refused; "
    "distinct by the document"
)
ASSUMPTIONS = ["a configuration contains at most one mistake"]

CALLS = []
CLASSES = {}


class _Probe(Task):
    """Records whatever is called."""

    alpha = config.Property(proptype=int, default=3)
    beta = config.Property(proptype=str, default="b")
    gamma = config.Property(proptype=list, default=[1])
    delta = config.float_in_range(0.0, 1.0, default=0.5)
    mode = config.enum(["up", "down"], default="up")
    other = config.Property(proptype=float, key="renamed", default=1.5)
    versions = config.Property(default={}, proptype=dict)
    pipeline_config = config.Property(default={}, proptype=lambda x: x)

    def __init__(self):
        self.order = CALLS.append(("init", type(self).__name__))

    def finish(self):
        CALLS.append("finish")


def make(req, ins):
    """A task class whose setup and next take (required, optional, varargs) arguments."""
    name = f"P{req[0]}{req[1]}{int(req[2])}_{ins[0]}{ins[1]}{int(ins[2])}"
    if name not in CLASSES:

        def sig(spec):
            a = [f"a{i}" for i in range(spec[0])] + [f"o{i}=None" for i in range(spec[1])]
            return ", ".join(["self", *a, *(["*rest"] if spec[2] else [])])

        ns = {"CALLS": CALLS}
        exec(  # noqa: S102
            f"def setup({sig(req)}):\n    CALLS.append('setup')\ndef next({sig(ins)}):\n    CALLS.append('next')\n", ns
        )
        CLASSES[name] = type(name, (_Probe,), {"setup": ns["setup"], "next": ns["next"]})
        pipeline.local_tasks[name] = CLASSES[name]
    return name


VALUES = {
    "alpha": lambda c: c.pick([0, 7, -2]), "beta": lambda c: c.pick(["x", "long text", "a: b"]), "gamma": lambda c: c.pick([[], [1, 2], ["s"]]),
    "delta": lambda c: c.pick([0.0, 1.0, 0.25]), "mode": lambda c: c.pick(["up", "down"]), "renamed": lambda c: c.pick([0.0, 2.5]),
}  # fmt: skip
DEFAULTS = {"alpha": 3, "beta": "b", "gamma": [1], "delta": 0.5, "mode": "up", "renamed": 1.5}


def params(c):
    return {k: f(c) for k, f in VALUES.items() if c.chance(0.4)}


def generate(c):
    """A valid configuration, and what each task should get."""
    n = c.int(1, 6)
    tasks, sections, want, outs = [], {}, [], []
    for i in range(n):
        spec = []
        for _ in range(2):
            # Earlier keys only are available
            lo = c.int(0, 2) if outs else 0
            spec.append((lo, c.int(0, 2), c.chance(0.2)))
        cls = make(*spec)
        t = {"type": cls}
        for key, s in zip(("requires", "in"), spec):
            hi = s[0] + s[1] + (2 if s[2] else 0)
            k = c.int(s[0], hi) if outs else 0
            keys = [c.pick(outs) for _ in range(k)]
            if keys:
                t[key] = keys[0] if k == 1 and c.chance(0.6) else keys
        nout = c.int(0, 3)
        if nout:
            names = [f"k{i}_{j}" for j in range(nout)]
            t["out"] = names[0] if nout == 1 and c.chance(0.6) else names
            outs += names
        p, how = {}, c.pick(["none", "inline", "section", "sections", "empty"])
        if how == "inline":
            p = t["params"] = params(c)
            if c.chance(0.2):
                p["versions"] = {"mine": "1.0"}
        elif how == "empty":
            t["params"] = {}
        elif how == "section":
            p = sections[f"sec{i}"] = params(c)
            t["params"] = f"sec{i}"
        elif how == "sections":
            t["params"] = []
            for j in range(c.int(1, 3)):
                q = sections[f"sec{i}_{j}"] = params(c)
                t["params"].append(f"sec{i}_{j}")
                p = {**p, **q}
        tasks.append(t)
        want.append((cls, {**DEFAULTS, **p}))
    doc = {"pipeline": {"tasks": tasks}, **sections}
    if c.chance(0.3):
        doc["extra"] = {"unused": [1, {"a": 2}]}
    if c.chance(0.5):
        doc["pipeline"]["save_versions"] = c.pick(["numpy", ["numpy", "yaml"], ["caput"], []])
    if c.chance(0.5):
        doc["pipeline"]["save_config"] = c.chance(0.5)
    if c.chance(0.4):
        doc["pipeline"]["logging"] = c.pick(["DEBUG", "error", {"root": "WARNING", "vf.mod": "debug"}, {"vf.mod": "ERROR", "vf.other": "INFO"}])
    return doc, want


def text(c, doc):
    return yaml.dump(doc, sort_keys=c.chance(0.5), default_flow_style=c.pick([False, None]))


def load(c, s, lint=None):
    """Load a document as a string or a file."""
    how = c.pick(["str", "file", "lint"]) if lint is None else lint
    if how == "str":
        return Manager.from_yaml_str(s)
    fn = os.path.join(c.tmp, "conf.yaml")
    with open(fn, "w") as fh:
        fh.write(s)
    if how == "file":
        return Manager.from_yaml_file(fn)
    return runner.lint_config(fn if c.chance(0.5) else (fn,))


def levels(*names):
    return {m: logging.getLogger(None if m == "root" else m).level for m in names}


@group(quick=600, thorough=10000)
def valid(c):
    """A valid configuration gives exactly its tasks, parameters and log levels."""
    doc, want = generate(c)
    s = text(c, doc)
    c.note(doc=s)
    CALLS.clear()
    before = levels("root", "vf.mod", "vf.other")
    try:
        for m in ("vf.mod", "vf.other"):
            logging.getLogger(m).setLevel(logging.NOTSET)
        how = c.pick(["str", "file", "lint"])
        m = load(c, s, how)
        got = levels("root", "vf.mod", "vf.other")
    finally:
        for k, v in before.items():
            logging.getLogger(None if k == "root" else k).setLevel(v)
    c.check(all(isinstance(x, tuple) for x in CALLS), f"stages {CALLS} ran while the pipeline was set up")
    c.check(len(CALLS) == len(want), f"{len(CALLS)} tasks were created, expected {len(want)}")
    lg = doc["pipeline"].get("logging", {"root": "WARNING"})
    lg = {"root": lg} if isinstance(lg, str) else lg
    exp = {k: getattr(logging, v.upper()) for k, v in {"root": "INFO", **lg}.items()}
    if how != "lint":
        for k, v in exp.items():
            c.check(got[k] == v, f"log level of {k} is {got[k]}, expected {v}")
    else:
        c.check(got["root"] >= logging.INFO, "debug messages are shown while linting")
        c.nontrivial(s)
        return
    c.check([type(t).__name__ for t in m.tasks] == [w[0] for w in want], "task classes or order")
    import caput

    vers = doc["pipeline"].get("save_versions", [])
    vers = [vers] if isinstance(vers, str) else vers
    vers = {v: {"numpy": np, "yaml": yaml, "caput": caput}[v].__version__ for v in vers}
    conf = yaml.safe_load(s) if doc["pipeline"].get("save_config", True) else None
    c.check(m.versions == vers, f"versions {m.versions}")
    for t, (_, p) in zip(m.tasks, want):
        own = p.pop("versions", None)
        for k, v in p.items():
            g = getattr(t, "other" if k == "renamed" else k)
            c.check(type(g) is type(v) and g == v, f"parameter {k} is {g!r}, expected {v!r}")
        tv = vers if own is None else own
        c.check(t.versions == tv, f"task versions {t.versions} != {tv}")
        c.check(t.pipeline_config == conf, f"task config {t.pipeline_config}")
        c.count("tasks")
    if conf:
        # Tasks do not share their configuration
        m.tasks[0].pipeline_config["pipeline"]["tasks"].clear()
        for t in m.tasks[1:]:
            c.check(t.pipeline_config == conf, "the configuration is shared between tasks")
        # It can be written out
        c.check(yaml.safe_load(yaml.safe_dump(m.all_params)) == conf or len(m.tasks) == 0, "the configuration can not be dumped")
    c.nontrivial(s)


def mistakes(c, doc):
    """One mistake: (what, expected exception, block that is wrong or None)."""
    tasks = doc["pipeline"]["tasks"]
    i = c.int(0, len(tasks) - 1)
    t = tasks[i]
    conf = config.CaputConfigError
    kind = c.pick(
        ["inkey", "reqkey", "dup", "dupsame", "key", "notype", "badtype", "section", "param", "value", "range", "enum", "toofew", "toofewreq",
         "toomany", "toomanyreq", "outtype", "nopipeline", "notdict", "empty", "version", "versiontype", "level", "later"]
    )  # fmt: skip
    cls = t["type"]
    if kind in ("inkey", "reqkey"):
        k = "in" if kind == "inkey" else "requires"
        old = t.get(k, [])
        old = old if isinstance(old, list) else [old]
        bad = c.pick(["nothere", "K0_0", "k0", ""])
        t[k] = c.pick([bad, [*old, bad], [bad, *old]])
        return kind, conf, None
    if kind == "dup":
        have = [o for x in tasks for o in (x["out"] if isinstance(x.get("out"), list) else [x["out"]] if "out" in x else [])]
        if not have:
            return None
        o = c.pick(have)
        old = t.get("out", [])
        old = old if isinstance(old, list) else [old]
        t["out"] = [*old, o] if old or c.chance(0.5) else o
        if old == [o] and t["out"] == o:
            return None
        return kind, conf, None
    if kind == "dupsame":
        t["out"] = ["twice", "twice"]
        return kind, conf, None
    if kind == "key":
        t[c.pick(["input", "Type", "param", "outs", "in_", "require"])] = "x"
        return kind, conf, i
    if kind == "notype":
        del t["type"]
        return kind, conf, i
    if kind == "badtype":
        t["type"] = c.pick(["nothere", "no.such.module.Task", "caput.nothere", "caput.pipeline.NoTask", cls.lower() + "x"])
        return kind, conf, i
    if kind == "section":
        t["params"] = c.pick(["nothere", ["nothere"], ["pipeline2"]])
        return kind, conf, i
    inline = {**params(c)} if not isinstance(t.get("params"), dict) else t["params"]
    if kind in ("param", "value", "range", "enum"):
        t["params"] = inline
        if kind == "param":
            inline[c.pick(["alphas", "other", "Beta", "in"])] = 1
            return kind, conf, ("params", i)
        if kind == "value":
            inline["alpha"] = c.pick([[1], {"a": 1}])
            return kind, conf, ("params", i)
        if kind == "range":
            inline["delta"] = c.pick([-0.1, 1.01, 5])
            return kind, conf, ("params", i)
        inline["mode"] = c.pick(["sideways", 1, "UP"])
        return kind, conf, ("params", i)
    if kind in ("toofew", "toofewreq", "toomany", "toomanyreq"):
        k = "in" if kind in ("toofew", "toomany") else "requires"
        req = c.int(0, 2)
        few = "few" in kind
        spec = (c.int(1, 3), c.int(0, 1), False)
        n = c.int(0, spec[0] - 1) if few else c.int(sum(spec) + 1, sum(spec) + 2)
        free = (0, 0, True)
        t["type"] = make(free, spec) if k == "in" else make(spec, free)
        name = "source"
        tasks.insert(0, {"type": make((0, 0, False), (0, 0, False)), "out": name})
        t[k] = [name] * n
        if n == 0 or (n == 1 and req):
            t.pop(k)
            if n:
                t[k] = name
        return kind, conf, i + 1
    if kind == "outtype":
        if "out" in t and any(o in str([x.get("in"), x.get("requires")]) for x in tasks for o in (t["out"] if isinstance(t["out"], list) else [t["out"]])):
            return None
        t["out"] = c.pick([5, [1.5], ["okay", 2], {"a": "b"}])
        return kind, (conf, TypeError), None
    if kind == "nopipeline":
        doc["pipe"] = doc.pop("pipeline")
        return kind, conf, None
    if kind == "notdict":
        doc["pipeline"] = c.pick([[1], "text", 5, None])
        return kind, conf, None
    if kind == "empty":
        doc.clear()
        return kind, conf, None
    if kind == "version":
        doc["pipeline"]["save_versions"] = c.pick(["nosuchmodule", ["numpy", "nosuchmodule"]])
        return kind, conf, None
    if kind == "versiontype":
        doc["pipeline"]["save_versions"] = c.pick([5, [1], ["numpy", None]])
        return kind, conf, None
    if kind == "level":
        doc["pipeline"]["logging"] = c.pick(["LOUD", {"root": "quiet"}, {"root": "INFO", "vf.mod": "x"}, ["DEBUG"]])
        return kind, Exception, None
    # A product that only a removed task made
    used = [k for x in tasks for f in ("in", "requires") for k in (x[f] if isinstance(x.get(f), list) else [x[f]] if f in x else [])]
    if not used:
        return None
    k = c.pick(used)
    for x in tasks:
        o = x.get("out", [])
        o = o if isinstance(o, list) else [o]
        if k in o:
            x["out"] = [y for y in o if y != k]
            if not x["out"]:
                del x["out"]
    return kind, conf, None


def line_of(s, path):
    """The line on which the block at `path` starts."""
    node = yaml.compose(s)
    for p in path:
        if isinstance(p, int):
            node = node.value[p]
        else:
            node = next(v for k, v in node.value if k.value == p)
    return node.start_mark.line + 1


@group(quick=1200, thorough=20000)
def mistaken(c):
    """A configuration with a mistake is refused while it is loaded, and nothing is run."""
    doc, _ = generate(c)
    doc["pipeline"].pop("logging", None)
    r = mistakes(c, doc)
    if r is None:
        return
    kind, exc, block = r
    doc = copy.deepcopy(doc)
    s = text(c, doc) if doc else c.pick(["", "{}", "5", "text", "[1, 2]"])
    c.note(kind=kind, doc=s)
    CALLS.clear()
    root = levels("root")["root"]
    try:
        how = c.pick(["str", "file", "lint"])
        err = c.raises(exc if how != "lint" or doc else Exception, load, c, s, how, msg=f"a configuration with a mistake ({kind}) was accepted")
    finally:
        logging.getLogger().setLevel(root)
    c.check(not any(isinstance(x, str) for x in CALLS), f"stages {CALLS} ran")
    if block is not None and isinstance(err, config.CaputConfigError):
        # Every error in the chain with a line number names the task or its parameters
        i = block[1] if isinstance(block, tuple) else block
        ok = {line_of(s, ["pipeline", "tasks", i])}
        if isinstance(doc["pipeline"]["tasks"][i].get("params"), dict):
            ok.add(line_of(s, ["pipeline", "tasks", i, "params"]))
        found = []
        e = err
        while e is not None:
            if isinstance(e, config.CaputConfigError) and e.line is not None:
                found.append(e.line)
                c.check(f"L{e.line}" in str(e), f"the message {e!s} does not show line {e.line}")
            e = e.__cause__
        c.check(err.line is not None and set(found) <= ok, f"reported lines {found}, the mistake is at {ok}")
        c.count("lines")
    c.count("refused")
    c.nontrivial(kind, s)


@group(quick=200, thorough=2000)
def added(c):
    """Tasks added in Python follow the same rules about their arguments."""
    spec = [(c.int(0, 2), c.int(0, 2), c.chance(0.2)) for _ in range(2)]
    n = [c.int(0, 5), c.int(0, 5)]
    cls = CLASSES[make(*spec)]
    bad = any(k < s[0] or (k > s[0] + s[1] and not s[2]) for k, s in zip(n, spec))
    kw = {"requires": [f"r{i}" for i in range(n[0])], "in_": [f"i{i}" for i in range(n[1])], "out": c.pick(["o", ["o"], ["o", "p"], None])}
    kw = {k: (v[0] if isinstance(v, list) and len(v) == 1 and c.chance(0.5) else v) for k, v in kw.items() if v}
    c.note(spec=str(spec), kw=str(kw), bad=bad)
    m = Manager()
    CALLS.clear()
    twice = c.chance(0.2) and kw
    if twice:
        k = c.pick(sorted(kw))
        ts = {c.pick(["in", "in_"]) if k == "in_" else k: kw[k]}
        c.raises(ValueError, m.add_task, cls(), ts, **kw, msg=f"{k} was given twice")
        c.check(m.tasks == [], "the refused task was added")
    elif bad:
        if c.chance(0.5):
            c.raises(config.CaputConfigError, m.add_task, cls(), **kw, msg="wrong number of keys")
        else:
            c.raises(config.CaputConfigError, m.add_task, cls(), {("in" if k == "in_" else k): v for k, v in kw.items()}, msg="wrong number of keys")
        c.check(m.tasks == [], "the refused task was added")
    else:
        t = cls()
        if c.chance(0.5):
            m.add_task(t, **kw)
        else:
            m.add_task(t, {("in" if k == "in_" else k): v for k, v in kw.items()})
        c.check(len(m.tasks) == 1 and m.tasks[0] is t, "the task was not added")
    c.check(not any(isinstance(x, str) for x in CALLS), f"stages {CALLS} ran")
    c.nontrivial(str(spec), str(kw), bool(twice))


MODULE = """
from caput import config
from caput.pipeline import Task
class {name}(Task):
    alpha = config.Property(proptype=int, default=3)
    def next(self):
        pass
"""


@group(quick=30, thorough=200)
def imported(c):
    """Task types are found by their full name in modules and packages."""
    pkg = f"vfpkg{c.int(0, 10**9)}"
    os.makedirs(os.path.join(c.tmp, pkg, "sub"))
    for p, name in ((pkg, "Top"), (f"{pkg}/sub", "Low")):
        with open(os.path.join(c.tmp, p, "__init__.py"), "w") as fh:
            fh.write(MODULE.format(name=name))
    with open(os.path.join(c.tmp, pkg, "mod.py"), "w") as fh:
        fh.write(MODULE.format(name="Mod") + "    class Inner: pass\n")
    sys.path.insert(0, c.tmp)
    try:
        want = [f"{pkg}.Top", f"{pkg}.sub.Low", f"{pkg}.mod.Mod"]
        c.rng.shuffle(want)
        s = yaml.dump({"pipeline": {"tasks": [{"type": w, "params": {"alpha": i}} for i, w in enumerate(want)]}})
        root = levels("root")["root"]
        m = Manager.from_yaml_str(s)
        logging.getLogger().setLevel(root)
        got = [f"{type(t).__module__}.{type(t).__name__}" for t in m.tasks]
        c.check(got == want and [t.alpha for t in m.tasks] == [0, 1, 2], f"loaded {got}, expected {want}")
        bad = c.pick([f"{pkg}.Low", f"{pkg}.nomod.Mod", f"{pkg}.mod.Nope", "Top", pkg + ".sub.Top"])
        c.raises(config.CaputConfigError, Manager.from_yaml_str, yaml.dump({"pipeline": {"tasks": [{"type": bad}]}}), msg=f"unknown task {bad}")
        logging.getLogger().setLevel(root)
    finally:
        sys.path.remove(c.tmp)
        for k in [k for k in sys.modules if k.split(".")[0] == pkg]:
            del sys.modules[k]
    c.nontrivial(str(want), bad)
