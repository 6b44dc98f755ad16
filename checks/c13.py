"""C13 pipelines run every task's life cycle once and deliver every product once, in order."""

import logging
import warnings

import numpy as np
import yaml

from vf.core import fast_sleep, group

from caput import config, pipeline
from caput.pipeline import Manager, Task, exceptions

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
fast_sleep()

RULE = (
    "random task graphs in configuration order (several sources, fan-out, joins, repeated keys, "
    "required products, outputs from every stage, early stops, output limits, priorities, ignored "
    "keys), built in Python or from YAML; the recorded calls of every task and the identity of every "
    "argument are compared with a stream model; non-trivial when a product is delivered; "
    "distinct by the generated graph"
)
ASSUMPTIONS = [
    "a product is produced by a task which comes earlier in the configuration than its consumers",
    "required products are produced at most once, and tasks behave the same on all ranks",
]

WORLD = None  # the pipeline which is currently run


class Odd:
    """A product which can neither be compared nor used as a condition."""

    def __eq__(self, other):
        raise RuntimeError("compared")

    def __bool__(self):
        raise RuntimeError("truth value")

    __hash__ = None


class World:
    def __init__(self):
        self.specs, self.log, self.made = {}, [], {}
        self.emitted = {}  # index of a call -> something was returned
        self.fault = None

    def produce(self, tid, stage, i, args):
        """The return value of a stage."""
        s = self.specs[tid]
        if self.fault and self.fault[:3] == (tid, stage, i):
            if self.fault[3] == "raise":
                raise Boom(tid)
            if self.fault[3] == "stop":
                next(iter(()))
            if self.fault[3] == "many":
                return tuple(object() for _ in range(len(s["out"]) + 1))
            return (object(),) * (len(s["out"]) - 1)
        if s["out"] is None:
            return object() if i % 2 else None
        if isinstance(s["out"], str):
            return self.one(tid, stage, i, 0, args)
        r = [self.one(tid, stage, i, j, args) for j in range(len(s["out"]))]
        return tuple(r) if s["tuple"] else r

    def one(self, tid, stage, i, j, args):
        s = self.specs[tid]
        if s["through"] and args:
            p = args[j % len(args)]
        else:
            k = s["kinds"][(i + j) % len(s["kinds"])]
            p = {
                "obj": object, "array": lambda: np.arange(5.0), "empty": lambda: np.zeros(0), "list": lambda: [1, 2],
                "falsy": list, "zero": lambda: np.float64(0.0), "odd": Odd, "dict": dict, "str": lambda: f"p{tid}{stage}{i}{j}",
            }[k]()  # fmt: skip
            if isinstance(p, tuple):
                raise AssertionError
        self.made[tid, stage, i, j] = p
        return p


class Boom(Exception):
    pass


class Base(Task):
    ident = config.Property(proptype=int)

    def _stage(self, stage, args):
        w, n = WORLD, len(WORLD.log)
        w.emitted[n] = False
        r = self._call(stage, args)
        w.emitted[n] = r is not None
        return r

    def _call(self, stage, args):
        w = WORLD
        s = w.specs[self.ident]
        i = self.__dict__.setdefault("_n_" + stage, 0)
        self.__dict__["_n_" + stage] = i + 1
        w.log.append((self.ident, stage, args))
        if stage == "setup":
            return w.produce(self.ident, stage, 0, args) if s["setup_emit"] else None
        if stage == "finish":
            return w.produce(self.ident, stage, 0, args) if s["finish_emit"] else None
        if s["stop"] is not None and i == s["stop"]:
            raise exceptions.PipelineStopIteration
        if s["emit"][i % len(s["emit"])]:
            return w.produce(self.ident, stage, i, args)
        if w.fault and w.fault[:3] == (self.ident, stage, i) and w.fault[3] == "raise":
            raise Boom(self.ident)
        return None

    def finish(self):
        return self._stage("finish", ())


class Var(Base):
    def setup(self, *args):
        return self._stage("setup", args)

    def next(self, *args):
        return self._stage("next", args)


class NoNext(Base):
    def setup(self, *args):
        return self._stage("setup", args)


def fixed(nreq, nin):
    """A task class with explicit argument lists."""
    name = f"Fixed_{nreq}_{nin}"
    if name not in pipeline.local_tasks:
        r = "".join(f", r{i}" for i in range(nreq))
        a = "".join(f", a{i}" for i in range(nin))
        ns = {"Base": Base}
        src = (
            f"class {name}(Base):\n"
            f"    def setup(self{r}):\n        return self._stage('setup', ({r[2:]}{',' if nreq else ''}))\n"
            f"    def next(self{a}):\n        return self._stage('next', ({a[2:]}{',' if nin else ''}))\n"
        )
        exec(src, ns)
        pipeline.local_tasks[name] = ns[name]
    return name


pipeline.local_tasks.update(Var=Var, NoNext=NoNext)


def generate(c, ntask=None, limits=True):
    """A random graph, and the model's prediction of what every task is called with."""
    w = World()
    streams, expect, nkey = {}, {}, [0]
    dropped = iter(["_", "__", "___", "-", "_-_"])
    for tid in range(ntask or c.int(1, 8)):
        keys = sorted(k for k in streams)
        single = [k for k in keys if len(streams[k]) <= 1]
        req = [c.pick(single) for _ in range(c.int(0, 2))] if single and c.chance(0.4) else []
        ins = [c.pick(keys) for _ in range(c.pick([1, 1, 1, 2, 3]))] if keys and c.chance(0.8) else []
        nout = c.pick([0, 1, 1, 1, 2, 3])

        def newkey():
            if c.chance(0.1):
                k = next(dropped, None)
                if k is not None:
                    return k
            nkey[0] += 1
            return f"k{nkey[0]}"

        out = None if nout == 0 else newkey() if nout == 1 and c.chance(0.7) else [newkey() for _ in range(nout)]
        cls = c.pick(["Var", "fixed", "fixed"])
        if not ins and c.chance(0.2):
            cls = "NoNext"
        s = dict(
            req=req, ins=ins, out=out, cls=cls if cls != "fixed" else fixed(len(req), len(ins)),
            setup_emit=c.chance(0.25), finish_emit=c.chance(0.3),
            emit=[c.chance(0.8) for _ in range(c.int(1, 4))],
            stop=None, limit=None, prio=c.pick([0, 0, 0, 10, -10, 3]),
            through=c.chance(0.25), tuple=c.chance(0.6),
            kinds=[c.pick(["obj", "array", "empty", "list", "falsy", "zero", "odd", "dict", "str"]) for _ in range(3)],
        )  # fmt: skip
        if not any(s["emit"]):
            s["emit"][0] = True
        if not ins:
            s["stop"] = c.int(0, 5)
        elif limits and c.chance(0.15):
            s["stop"] = c.int(0, 4)
        if limits and out is not None and c.chance(0.2):
            s["limit"] = c.int(1, 4)
        w.specs[tid] = s
        # What happens, by the documented rules
        outs = [] if out is None else [out] if isinstance(out, str) else out
        for k in outs:
            streams[k] = []

        def emit(stage, i, args):
            for j, k in enumerate(outs):
                lab = args[j % len(args)] if s["through"] and args else (tid, stage, i, j)
                if any(ch.isalnum() for ch in k):
                    streams[k].append(lab)
                w.made.setdefault((tid, stage, i, j), None)

        ev = []
        if all(streams[k] for k in req):
            args = [streams[k][0] for k in req]
            ev.append(("setup", args))
            if s["setup_emit"]:
                emit("setup", 0, args)
            n = min((len(streams[k]) for k in ins), default=10**6)
            done, i = 0, 0
            if cls != "NoNext":
                while i < n:
                    args = [streams[k][i] for k in ins]
                    ev.append(("next", args))
                    if s["stop"] is not None and i == s["stop"]:
                        break
                    if s["emit"][i % len(s["emit"])]:
                        emit("next", i, args)
                        # a return value counts, whether or not it has a key
                        done += 1 if out is not None else i % 2
                        if s["limit"] is not None and done >= s["limit"]:
                            break
                    i += 1
        ev.append(("finish", []))
        if s["finish_emit"]:
            emit("finish", 0, [])
        expect[tid] = ev
    # resolve pass-through labels to the original product
    return w, expect, streams


def build(c, w, how, mgr_kw=None):
    if how == "yaml":
        tasks = []
        sections = {}
        for tid, s in w.specs.items():
            p = {"ident": tid, "base_priority": s["prio"]}
            if s["limit"] is not None:
                p["limit_outputs"] = s["limit"]
            t = {"type": s["cls"]}
            if c.chance(0.5):
                t["params"] = p
            else:
                sections[f"sec{tid}"] = p
                t["params"] = f"sec{tid}" if c.chance(0.5) else [f"sec{tid}"]
            for name, key in (("requires", "req"), ("in", "ins"), ("out", "out")):
                v = s[key]
                if v:
                    t[name] = v[0] if isinstance(v, list) and len(v) == 1 and key != "out" and c.chance(0.5) else v
            tasks.append(t)
        doc = {"pipeline": {"tasks": tasks, **(mgr_kw or {})}, **sections}
        return Manager.from_yaml_str(yaml.dump(doc))
    m = Manager()
    for tid, s in w.specs.items():
        t = pipeline.local_tasks[s["cls"]]()
        t.ident = tid
        t.base_priority = s["prio"]
        if s["limit"] is not None:
            t.limit_outputs = s["limit"]
        kw = {}
        for name, key in (("requires", "req"), ("in_", "ins"), ("out", "out")):
            v = s[key]
            if v:
                kw[name] = v[0] if isinstance(v, list) and len(v) == 1 and key != "out" and c.chance(0.5) else v
        if c.chance(0.3):
            if "in_" in kw and c.chance(0.5):
                kw["in"] = kw.pop("in_")
            m.add_task(t, kw)
        else:
            m.add_task(t, **kw)
    return m


def run(m, mode):
    if mode == "run":
        m.run()
        return 0
    m.interactive = mode == "interactive"
    steps = 0
    for _ in m.runner():
        steps += 1
    return steps


def judge(c, w, expect):
    got = {t: [] for t in w.specs}
    for tid, stage, args in w.log:
        got[tid].append((stage, args))
    for tid in w.specs:
        g, e = got[tid], expect[tid]
        c.check(
            [s for s, _ in g] == [s for s, _ in e],
            f"task {tid} {w.specs[tid]}: calls {[s for s, _ in g]}, expected {[s for s, _ in e]}",
        )
        for k, ((stage, a), (_, labels)) in enumerate(zip(g, e)):
            c.check(len(a) == len(labels), f"task {tid} call {k} ({stage}): {len(a)} arguments, expected {len(labels)}")
            for j, lab in enumerate(labels):
                c.check(
                    a[j] is w.made[lab],
                    f"task {tid} call {k} ({stage}) argument {j} is not product {lab}",
                )
                c.count("deliveries")
        c.count("calls", len(g))


def scheduled(c, w):
    """Every call went to a task with the highest priority of those able to run, as documented."""
    state = dict.fromkeys(w.specs, "setup")
    need = {t: set(s["req"]) for t, s in w.specs.items()}
    queue = {t: [0] * len(s["ins"]) for t, s in w.specs.items()}
    done, made = dict.fromkeys(w.specs, 0), {t: 0 for t in w.specs}

    def prio(t):
        s = w.specs[t]
        nout = 0 if s["out"] is None else 1 if isinstance(s["out"], str) else len(s["out"])
        if state[t] == "setup":
            return None if need[t] else (1 + s["prio"], s["prio"])
        if state[t] == "next":
            n = min(queue[t], default=0)
            return ((len(s["ins"]) - nout) * n + s["prio"], s["prio"]) if n else None
        return (1e10 + s["prio"], s["prio"]) if state[t] == "finish" else None

    for k, (tid, stage, _) in enumerate(w.log):
        s = w.specs[tid]
        able = {t: p for t in w.specs if (p := prio(t)) is not None}
        if able:
            best = max(able.values())
            c.check(
                able.get(tid) == best,
                f"call {k}: {stage} of task {tid} (priority {able.get(tid)}) while {[t for t in able if able[t] == best]} could run with {best}",
            )
            c.count("choices" if len(able) > 1 else "forced")
        if stage == "setup":
            state[tid] = "next"
        elif stage == "next":
            queue[tid] = [n - 1 for n in queue[tid]]
            i = done[tid]
            done[tid] += 1
            made[tid] += w.emitted[k]
            if (s["stop"] is not None and i == s["stop"]) or (w.emitted[k] and s["limit"] is not None and made[tid] >= s["limit"]):
                state[tid] = "finish"
        else:
            state[tid] = "gone"
        if w.emitted[k] and s["out"] is not None:
            for key in [s["out"]] if isinstance(s["out"], str) else s["out"]:
                if not any(ch.isalnum() for ch in key):
                    continue
                for t, sp in w.specs.items():
                    need[t].discard(key)
                    queue[t] = [n + (k2 == key) for n, k2 in zip(queue[t], sp["ins"])]


def graph(w):
    return str({t: {k: v for k, v in s.items() if k != "kinds"} for t, s in w.specs.items()})


@group(quick=1500, thorough=30000)
def flow(c):
    """Whole pipelines in one process."""
    global WORLD
    WORLD = w = None
    w, expect, streams = generate(c)
    WORLD = w
    how, mode = c.pick(["yaml", "python"]), c.pick(["run", "run", "interactive", "runner"])
    c.note(how=how, mode=mode, graph=graph(w))
    m = build(c, w, how)
    c.check(not w.log, "a stage ran before the pipeline was started")
    run(m, mode)
    judge(c, w, expect)
    scheduled(c, w)
    if any(labels for e in expect.values() for _, labels in e):
        c.nontrivial(graph(w))
    c.count("tasks", len(w.specs))


@group(quick=60, thorough=800, mpi=(2, 3))
def ranks(c):
    """All ranks execute the same calls in the same order."""
    global WORLD
    w, expect, streams = generate(c)
    WORLD = w
    how = c.pick(["yaml", "python"])
    c.note(how=how, graph=graph(w))
    m = build(c, w, how)
    run(m, c.pick(["run", "interactive"]))
    judge(c, w, expect)
    scheduled(c, w)
    order = [(t, s) for t, s, _ in w.log]
    orders = c.comm.allgather(order)
    c.check(all(o == orders[0] for o in orders), "ranks executed tasks in different orders")
    if any(labels for e in expect.values() for _, labels in e):
        c.nontrivial(graph(w))


@group(quick=400, thorough=6000)
def errors(c):
    """A failing stage or a wrong number of outputs stops the pipeline with that error."""
    global WORLD
    w, expect, streams = generate(c, ntask=c.int(2, 6), limits=False)
    WORLD = w
    cand = []
    for tid, ev in expect.items():
        n = 0
        for stage, _ in ev:
            i = n if stage == "next" else 0
            n += stage == "next"
            s = w.specs[tid]
            emits = {"setup": s["setup_emit"], "finish": s["finish_emit"]}.get(stage, stage == "next" and s["emit"][i % len(s["emit"])])
            if stage == "next" and s["stop"] is not None and i == s["stop"]:
                continue
            if emits or stage == "next":
                cand.append((tid, stage, i, "raise"))
            if emits:
                cand.append((tid, stage, i, "stop"))
            if emits and isinstance(s["out"], list) and len(s["out"]) > 1:
                cand += [(tid, stage, i, "many"), (tid, stage, i, "few")]
    if not cand:
        return
    f = w.fault = c.pick(cand)
    how = c.pick(["yaml", "python"])
    c.note(how=how, fault=str(f), graph=graph(w))
    m = build(c, w, how)
    exc = c.raises((Boom, exceptions.PipelineRuntimeError, RuntimeError, StopIteration), m.run, msg="the pipeline went on")
    if f[3] != "stop":
        c.check(isinstance(exc, Boom if f[3] == "raise" else exceptions.PipelineRuntimeError), f"the error became {exc!r}")
    last = w.log[-1]
    c.check(last[:2] == f[:2], f"task {last[:2]} ran after the failure of {f}")
    c.nontrivial(graph(w), f)


@group(quick=200, thorough=3000)
def priority(c):
    """Among tasks able to run, a decisively higher base priority goes first."""
    global WORLD
    w = WORLD = World()
    base = dict(req=[], ins=[], out=None, setup_emit=False, finish_emit=False, emit=[True], stop=None, limit=None,
                prio=0, through=False, tuple=True, kinds=["obj"])  # fmt: skip
    nprod, ncons = c.int(1, 5), c.int(2, 5)
    w.specs[0] = dict(base, cls=fixed(0, 0), out="k1", stop=nprod)
    prios = [int(p) for p in c.rng.permutation(ncons) * 20 - 20]
    for i in range(ncons):
        w.specs[i + 1] = dict(base, cls=fixed(0, 1), ins=["k1"], prio=prios[i])
    c.note(prios=str(prios), nprod=nprod)
    m = build(c, w, c.pick(["yaml", "python"]))
    m.run()
    want = [t + 1 for t in sorted(range(ncons), key=lambda i: -prios[i])]
    calls = [t for t, s, _ in w.log if s == "next" and t > 0]
    c.check(len(calls) == nprod * ncons, f"{len(calls)} calls, expected {nprod * ncons}")
    for k in range(nprod):
        c.check(calls[k * ncons : (k + 1) * ncons] == want, f"order {calls}, expected {want} for every product")
    setups = [t for t, s, _ in w.log if s == "setup" and t > 0]
    c.check(setups == want, f"setup order {setups}, expected {want}")
    c.nontrivial(tuple(prios), nprod)


@group(quick=200, thorough=3000)
def backlog(c):
    """A task which had to wait works off its inputs; a consumer which stops early ends at once."""
    global WORLD
    w = WORLD = World()
    base = dict(req=[], ins=[], out=None, setup_emit=False, finish_emit=False, emit=[True], stop=None, limit=None,
                prio=0, through=False, tuple=True, kinds=["obj"])  # fmt: skip
    n, nreq = c.int(1, 8), c.int(1, 2)
    w.specs[0] = dict(base, cls=fixed(0, 0), out="k1", stop=n)
    reqs = [f"r{i}" for i in range(nreq)]
    for i in range(nreq):
        w.specs[1 + i] = dict(base, cls=fixed(0, 0), out=reqs[i], stop=1, prio=c.pick([0, 10]))
    mid = 1 + nreq
    nout = c.int(1, 2)
    w.specs[mid] = dict(base, cls=fixed(nreq, 1), req=reqs, ins=["k1"], out=["m1", "m2"][:nout], prio=c.pick([-10, 0, 3, 10, 50]))
    ncons = c.int(1, 3)
    for i in range(ncons):
        how = c.pick(["stop", "limit", "all"])
        w.specs[mid + 1 + i] = dict(
            base, cls=fixed(0, 1), ins=[c.pick(["m1", "m2"][:nout])], out=c.pick([None, f"o{i}"]), prio=c.pick([-10, 0, 2, 10, 30]), finish_emit=c.chance(0.5),
            stop=c.int(0, n) if how == "stop" else None, limit=c.int(1, n) if how == "limit" else None)  # fmt: skip
    c.note(graph=graph(w))
    m = build(c, w, c.pick(["yaml", "python"]))
    m.run()
    scheduled(c, w)
    calls = {t: [st for u, st, _ in w.log if u == t] for t in w.specs}
    for t in w.specs:
        s = w.specs[t]
        k = n if s["ins"] else None
        if s["stop"] is not None:
            k = min(s["stop"] + 1, 10**6 if k is None else k)
        if s["limit"] is not None:
            # a return value counts, whether or not it has a key
            k = min(k, s["limit"] if s["out"] is not None else 2 * s["limit"])
        c.check(calls[t] == ["setup", *["next"] * k, "finish"], f"task {t}: {calls[t]}, expected {k} calls of next")
    c.nontrivial(graph(w))


class Twice(Task):
    """Produces the same key several times."""

    n = 2

    def next(self):
        if self.n == 0:
            raise exceptions.PipelineStopIteration
        self.n -= 1
        return object()


@group(quick=40, thorough=400)
def repeated(c):
    """A required product is produced once; a second one is refused, never dropped or swapped."""
    n = c.int(1, 4)
    early = c.chance(0.5)  # the second one comes before setup could run
    calls = []

    class Need(Task):
        def setup(self, *a):
            calls.append(("setup", a))

        def next(self, *a):
            calls.append(("next", a))

    src, other = Twice(), Twice()
    src.n, other.n = n, 1
    m = Manager()
    m.add_task(src, out="r")
    m.add_task(other, out="s")
    m.add_task(Need(), requires=["r", "s"] if early else ["r"], in_="s")
    c.note(n=n, early=early)
    if n == 1:
        m.run()
        c.check([k for k, _ in calls] == ["setup", "next"], f"calls {calls}")
    else:
        c.raises(exceptions.PipelineRuntimeError, m.run, msg=f"a required product was produced {n} times")
        c.check(len(calls) == (0 if early else 1), f"calls before the refusal: {calls}")
    c.nontrivial(n, early)


@group(quick=200, thorough=2000)
def keys(c):
    """The key pattern decides which products are passed on."""
    global WORLD
    w = WORLD = World()
    base = dict(req=[], ins=[], out=None, setup_emit=False, finish_emit=False, emit=[True], stop=None, limit=None,
                prio=0, through=False, tuple=True, kinds=["obj"])  # fmt: skip
    names = [str(n) for n in c.rng.permutation(["a", "b1", "_c", "skip_d", "__", "E"])[: c.int(1, 4)]]
    n = c.int(1, 3)
    w.specs[0] = dict(base, cls=fixed(0, 0), out=names, stop=n)
    for i, k in enumerate(names):
        w.specs[i + 1] = dict(base, cls=fixed(0, 1), ins=[k])
    pat, ok = c.pick([
        (None, lambda k: any(ch.isalnum() for ch in k)), (r"^[^_]", lambda k: k[0] != "_"),
        (r"^(?!skip)", lambda k: not k.startswith("skip")), (r"[A-Z]", lambda k: any(ch.isupper() for ch in k)), (r"", lambda k: True),
    ])  # fmt: skip
    c.note(names=str(names), pattern=str(pat))
    if pat is None:
        m = build(c, w, c.pick(["yaml", "python"]))
    else:
        m = build(c, w, "yaml", {"key_pattern": pat})
    m.run()
    for i, k in enumerate(names):
        got = [a for t, s, a in w.log if t == i + 1 and s == "next"]
        want = [w.made[0, "next", j, i] for j in range(n)] if ok(k) else []
        c.check(len(got) == len(want) and all(g[0] is x for g, x in zip(got, want)), f"key {k!r} with pattern {pat!r}: {len(got)} deliveries, expected {len(want)}")
        c.check([s for t, s, _ in w.log if t == i + 1][-1] == "finish", f"consumer of {k} did not finish")
    c.nontrivial(tuple(names), pat, n)


class Follow(Task):
    """Passes on what a function makes of its inputs."""

    def __init__(self, func):
        super().__init__()
        self.func = func

    def next(self, *a):
        return self.func(*a)


@group(quick=200, thorough=3000)
def python(c):
    """What Python code puts into a pipeline comes out at the other end, once and in order."""
    n = c.int(0, 7)
    items = [c.pick([object(), Odd(), k, f"item {k}", 0, "", [], {}, np.arange(k), False]) for k in range(n)]
    taken = []

    def lazily():
        for k, x in enumerate(items):
            taken.append(k)
            yield x

    kind = c.pick(["list", "tuple", "generator", "iter", "map"])
    src = {"list": lambda: list(items), "tuple": lambda: tuple(items), "generator": lazily, "iter": lambda: iter(items), "map": lambda: map(lambda x: x, items)}[kind]()
    c.note(n=n, kind=kind)
    m = Manager()
    ins = pipeline.extensions.Input(src)
    m.add_task(ins, out="a")
    box, seen = [], []

    def wrap(x):
        box.append([x])
        return box[-1]

    mid = c.chance(0.5)
    if mid:
        m.add_task(Follow(wrap), in_="a", out="b")
    plain = pipeline.extensions.Output()
    m.add_task(plain, in_="a")
    drop = pipeline.extensions.Output(lambda x: seen.append(x))
    m.add_task(drop, in_="a")
    count = pipeline.extensions.Output(callback=lambda x: len(seen))
    m.add_task(count, in_="a")
    last = pipeline.extensions.Output(callback=c.pick([None, lambda x: x]))
    if mid:
        m.add_task(last, in_="b")
    c.check(plain.outputs == [] and not taken, f"before the run: {plain.outputs}, {taken}")
    m.run()

    def alike(got, want):
        return isinstance(got, list) and len(got) == len(want) and all(x is y for x, y in zip(got, want))

    c.check(alike(plain.outputs, items), f"{kind}: {len(plain.outputs)} of {n} items came out, or others, or in another order")
    c.check(alike(seen, items), f"{kind}: the callback saw {len(seen)} items of {n}")
    c.check(drop.outputs == [None] * n, f"what a callback returns is to be kept, found {len(drop.outputs)} of {n}: {[type(x).__name__ for x in drop.outputs]}")
    c.check(len(count.outputs) == n and all(isinstance(x, int) for x in count.outputs), f"what a callback returns is to be kept: {[type(x).__name__ for x in count.outputs]}")
    if mid:
        c.check(alike(last.outputs, box) and alike([x[0] for x in box], items), f"{kind}: {len(last.outputs)} products of the task after it, {n} expected")
    if kind == "generator":
        c.check(taken == list(range(n)), f"items taken from the generator: {taken}")
    # another one does not know about it
    c.check(pipeline.extensions.Output().outputs == [] and pipeline.extensions.Input().inputs == [], "a new task starts with the items of another one")
    other, out = Manager(), pipeline.extensions.Output()
    other.add_task(pipeline.extensions.Input(), out="a")
    other.add_task(out, in_="a")
    other.run()
    c.check(out.outputs == [] and alike(plain.outputs, items), f"without inputs: {out.outputs}")
    if n:
        c.nontrivial(n, kind, mid)
