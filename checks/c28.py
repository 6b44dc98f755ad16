"""C28 the command line: running, checking, templating and queueing pipelines."""

import contextlib
import ctypes
import io
import itertools
import logging
import os
import pstats
import re
import shutil
import stat
import subprocess
import sys
import warnings

import yaml
from click.testing import CliRunner

from vf.core import fast_sleep, group

from caput import pipeline
from caput.pipeline import Task, exceptions, runner
from caput.pipeline.runner._cli import cli

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
fast_sleep()

RULE = (
    "random pipeline files and templates, good and bad, given to the commands run, lint, template-run and "
    "queue; stand-ins for the programs of SLURM and PBS record what is submitted, and the job scripts are "
    "executed with programs that succeed or fail, in sequences of queueing and running; what was run, "
    "submitted and left on disk is compared with a model; non-trivial when a pipeline or script ran; "
    "distinct by the files"
)
ASSUMPTIONS = [
    "jobs with a temporary directory are not queued with overwrite=always once moved to their final place",
    "srun, mpirun, module, mv and caput-pipeline are stand-ins when job scripts are executed",
]

RAN = []


class QSrc(Task):
    from caput import config

    n = config.Property(proptype=int, default=2)
    text = config.Property(proptype=str, default="")
    fail = config.Property(proptype=int, default=-1)

    def setup(self):
        RAN.append(("setup", self.n, self.text))
        self.i = 0

    def next(self):
        if self.i == self.fail:
            raise ValueError("told to fail")
        if self.i == self.n:
            raise exceptions.PipelineStopIteration
        self.i += 1
        return self.i

    def finish(self):
        RAN.append(("finish",))


class QSink(Task):
    def next(self, x):
        RAN.append(("got", x))


pipeline.local_tasks.update(QSrc=QSrc, QSink=QSink)


@contextlib.contextmanager
def inside(path, bindir=None):
    """In a directory, with the stand-ins first on the path, and nothing of ours changed afterwards."""
    old, env, hook, pth, pre = os.getcwd(), {k: os.environ.get(k) for k in ("PATH", "HOME", "VF_ROOT")}, sys.excepthook, sys.path[:], sys.prefix
    os.chdir(path)
    if bindir:
        os.environ.update(PATH=bindir + os.pathsep + env["PATH"], HOME=path, VF_ROOT=path)
    try:
        yield
    finally:
        os.chdir(old)
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        sys.excepthook, sys.path[:], sys.prefix = hook, pth, pre
        logging.disable(logging.CRITICAL)


def invoke(*args):
    return CliRunner().invoke(cli, list(args))


def expected(n, text, fail=-1):
    ran = [("setup", n, text)]
    k = n if fail < 0 or fail > n else fail
    ran += [("got", i + 1) for i in range(k)]
    return ran if 0 <= fail <= n else [*ran, ("finish",)]


def text_of(c):
    return c.pick(["", "a", "x y", "b-1", "é", "k=v"])


def doc_of(n, text, fail=-1, **more):
    return {"pipeline": {"tasks": [{"type": "QSrc", "out": "x", "params": {"n": n, "text": text, "fail": fail}}, {"type": "QSink", "in": "x"}]}, **more}


def save(path, doc):
    with open(path, "w", encoding="utf-8") as f:
        f.write(doc if isinstance(doc, str) else yaml.safe_dump(doc, allow_unicode=True))
    return path


@group(quick=100, thorough=1200)
def running(c):
    """The run command."""
    n, text = c.int(0, 3), text_of(c)
    fail = c.int(0, n) if c.chance(0.3) else -1
    fn = save(os.path.join(c.tmp, "p.yaml"), doc_of(n, text, fail))
    prof = c.pick([None, None, "cProfile", "cprofile", "pyinstrument"])
    ps = c.chance(0.2)
    abort = c.pick([None, True, False])
    args = ["run", *(["--profile"] if prof else []), *([f"--profiler={prof}"] if prof and (prof != "cProfile" or c.chance(0.5)) else []), *(["--psutil"] if ps else []), *([] if abort is None else ["--mpi-abort" if abort else "--no-mpi-abort"]), fn]
    c.note(n=n, text=text, fail=fail, args=args[1:-1])
    work = os.path.join(c.tmp, "w")
    os.mkdir(work)
    RAN.clear()
    with inside(work):
        before = sys.excepthook
        if c.chance(0.8):
            r = invoke(*args)
            bad = r.exit_code != 0
        else:
            kw = {k: v for k, v in {"profile": True if prof else None, "profiler": prof, "mpi_abort": abort, "psutil": ps or None}.items() if v is not None}
            try:
                runner.run_pipeline(fn, **kw)
                bad = False
            except Exception:  # noqa: BLE001
                bad = True
        c.check((sys.excepthook is not before) == (abort is not False), f"exception handler, with abort={abort}")
    c.check(bad == (fail >= 0), f"failed: {bad}, the pipeline {'fails' if fail >= 0 else 'does not fail'}")
    c.check(RAN == expected(n, text, fail), f"ran {RAN}, expected {expected(n, text, fail)}")
    files = sorted(os.listdir(work))
    want = sorted([{"cprofile": "profile_0.prof", "pyinstrument": "profile_0.txt"}[(prof or "cprofile").lower()]] * bool(prof) + ["perf_0.csv"] * ps)
    c.check(files == want, f"files {files}, expected {want}")
    if "profile_0.prof" in want:
        p = pstats.Stats(os.path.join(work, "profile_0.prof"), stream=io.StringIO())
        c.check(any("c28" in k[0] and k[2] == "setup" for k in p.stats), "the profile does not cover the pipeline")
    c.count("pipelines")
    c.nontrivial(str(args[1:-1]), n, text, fail)


@group(quick=60, thorough=600)
def linting(c):
    """The lint command never runs anything, and reports every bad file."""
    fns, bads = [], []
    for i in range(c.int(1, 3)):
        d = doc_of(c.int(0, 3), text_of(c))
        k = c.pick(["good", "good", "venv", "noenv", "type", "module", "param", "value", "yaml", "key"])
        t = d["pipeline"]["tasks"]
        if k == "venv":
            # a task that is only found in the virtual environment of the job
            lib = os.path.join(c.tmp, f"env{i}", "lib", f"python{sys.version_info[0]}.{sys.version_info[1]}", "site-packages")
            os.makedirs(lib)
            save(os.path.join(lib, f"vfenv{c.idx}_{i}.py"), "from caput.pipeline import Task\n\n\nclass E(Task):\n    def next(self, x):\n        pass\n")
            t[1]["type"] = f"vfenv{c.idx}_{i}.E"
            if c.chance(0.5):  # and comes before what is already installed
                other = os.path.join(c.tmp, f"env_other{i}")
                os.makedirs(other)
                save(os.path.join(other, f"vfenv{c.idx}_{i}.py"), "E = None\n")
                sys.path.append(other)
            if c.chance(0.5):  # in the order in which the environment lists its directories
                for w in ("x", "y"):
                    os.makedirs(os.path.join(c.tmp, f"env{i}", w))
                    save(os.path.join(c.tmp, f"env{i}", w, f"vfenv{c.idx}_{i}.py"), "E = None\n")
                save(os.path.join(lib, "some.pth"), "".join(os.path.join(c.tmp, f"env{i}", w) + "\n" for w in "yx"))
                if c.chance(0.5):
                    os.rename(os.path.join(lib, f"vfenv{c.idx}_{i}.py"), os.path.join(c.tmp, f"env{i}", "y", f"vfenv{c.idx}_{i}.py"))
            d["cluster"] = {"venv": c.pick([c.tmp, "$VF_TMP", "${VF_TMP}", "."]) + f"/env{i}"}
            k = "good"
        elif k == "noenv":
            d["cluster"] = {"venv": os.path.join(c.tmp, "env", "missing")}
        elif k == "type":
            t[1]["type"] = "QNone"
        elif k == "module":
            t[1]["type"] = "no.such.module.Task"
        elif k == "param":
            t[0]["params"]["other"] = 1
        elif k == "value":
            t[0]["params"]["n"] = "abc"
        elif k == "yaml":
            d = "a: [1, 2\nb: {"
        elif k == "key":
            t[1]["in"] = "nothing"
        fns.append(save(os.path.join(c.tmp, f"{i}.yaml"), d))
        bads.append(k)
    c.note(files=bads)
    RAN.clear()
    path = list(sys.path)
    os.environ["VF_TMP"] = c.tmp
    with inside(c.tmp):
        if c.chance(0.7) or any(b in ("noenv",) for b in bads):
            r = invoke("lint", *fns)
            status = r.exit_code
        else:
            try:
                runner.lint_config(fns[0] if len(fns) == 1 and c.chance(0.5) else tuple(fns))
                status = 0
            except Exception:  # noqa: BLE001
                status = 1
    sys.path[:] = [p for p in path if not p.startswith(c.tmp)]
    bad = [b for b in bads if b != "good"]
    c.check((status != 0) == bool(bad), f"exit status {status} for {bads}")
    c.check(not RAN, f"lint ran {RAN}")
    c.check([f for f in sorted(os.listdir(c.tmp)) if not f.startswith("env")] == sorted(os.path.basename(f) for f in fns), "files changed")
    c.nontrivial(str(bads), len(fns))


def template(c, cluster=None):
    """A template, its variables, and the values it is to be run with, in order."""
    names = [f"v{i}" for i in range(c.int(0, 3))]
    vals = {k: [c.pick(["a", "b2", "3", "x y", "é", "k=v", "", "q#", " lead", "trail "]) + (f"{i}" if c.chance(0.7) else "") for i in range(c.int(1, 3))] for k in names}
    num = c.chance(0.5)
    if num:
        vals["num"] = [str(c.int(0, 3)) for _ in range(c.int(1, 2))]
    order = list(vals)
    c.rng.shuffle(order)
    vals = {k: vals[k] for k in order}
    text = "-".join("{" + k + "}" for k in names if c.chance(0.8)) + c.pick(["", "{{x}}"])
    extra = c.pick(["", "# a comment with {{braces}}\n"])
    doc = extra + "pipeline:\n  tasks:\n    - {{type: QSrc, out: x, params: {{n: %s, text: '%s'}}}}\n    - type: QSink\n      in: x\n" % ("{num}" if num else "1", text)
    if cluster:
        doc += cluster
    runs = []
    for combo in itertools.product(*vals.values()):
        d = dict(zip(vals, combo))
        runs.append((int(d.get("num", 1)), text.format(**d), d))
    return doc, [f"{k}={','.join(v)}" for k, v in vals.items()], runs


@group(quick=100, thorough=1500)
def templates(c):
    """Templates are run once for every combination of values."""
    doc, var, runs = template(c)
    fn = save(os.path.join(c.tmp, "t.yaml"), doc)
    c.note(var=var, doc=doc)
    RAN.clear()
    with inside(c.tmp):
        if c.chance(0.7):
            r = invoke("template-run", *[x for v in var for x in (c.pick(["--var"]), v)], fn)
            c.check(r.exit_code == 0, f"exit status {r.exit_code}: {r.exception!r}")
        else:
            runner.template_run(fn, var, *([] if c.chance(0.5) else [False, "cprofile", False, False]))
    want = [x for n, text, _ in runs for x in expected(n, text)]
    c.check(RAN == want, f"ran {RAN}, expected {want}")
    c.check(os.listdir(c.tmp) == ["t.yaml"], f"files {os.listdir(c.tmp)}")
    c.count("pipelines", len(runs))
    # A variable without a value stops before anything is run
    if "{v0}" in doc:
        RAN.clear()
        with inside(c.tmp):
            r = invoke("template-run", *[x for v in var if not v.startswith("v0=") for x in ("--var", v)], fn)
        c.check(r.exit_code != 0 and not RAN, "a variable without a value")
    c.nontrivial(doc, str(var))


STUB = r"""#!{py}
import os, sys, json, shutil
root, me, args = {root!r}, os.path.basename(sys.argv[0]), sys.argv[1:]
with open(os.path.join(root, "mode.json")) as f:
    mode = json.load(f)
with open(os.path.join(root, "log.jsonl"), "a") as f:
    f.write(json.dumps(dict(me=me, args=args, cwd=os.getcwd(), omp=os.environ.get("OMP_NUM_THREADS"), venv=os.environ.get("VF_VENV"), low=os.environ.get("VF_LOW"), high=os.environ.get("VF_ROOT"))) + "\n")
def within(p):
    p = os.path.realpath(p)
    if not (p + os.sep).startswith(os.path.realpath(root) + os.sep):
        sys.exit(9)
    return p
if me in ("srun", "mpirun", "myrun"):
    while args and args[0] != "caput-pipeline":
        args.pop(0)
    sys.stdout.flush()
    os.execvp(args[0], args)
if me == "caput-pipeline":
    with open(os.path.join(root, "status.txt")) as f:
        st = f.read()
    seen = open(st).read().strip() if os.path.exists(st) else None
    with open(os.path.join(root, "log.jsonl"), "a") as f:
        f.write(json.dumps(dict(me="status", args=[seen])) + "\n")
    print("log of the job")
    if mode.get("kill"):
        import signal
        os.kill(int(open(os.path.join(root, "pid")).read()), signal.SIGKILL)
    with open("product", "w") as f:
        f.write("x")
elif me == "mv":
    shutil.move(within(args[0]), within(args[1]))
elif me == "mkdir":
    assert args[0] == "-p", args
    os.makedirs(within(args[1]), exist_ok=True)
sys.exit(mode.get(me, 0))
"""


class Cluster:
    """Stand-ins for the programs of a cluster."""

    def __init__(self, c):
        import json

        self.json = json
        self.c, self.root = c, os.path.realpath(os.path.join(c.tmp, "r"))
        self.bin = os.path.join(self.root, "bin")
        os.makedirs(self.bin)
        for n in ("sbatch", "qsub", "mysub", "srun", "mpirun", "myrun", "caput-pipeline", "module", "mv", "mkdir"):
            p = os.path.join(self.bin, n)
            with open(p, "w") as f:
                f.write(STUB.format(py=sys.executable, root=self.root))
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        self.mode()

    def mode(self, **kw):
        with open(os.path.join(self.root, "mode.json"), "w") as f:
            self.json.dump(kw, f)

    def log(self):
        """What was called since the last time."""
        p = os.path.join(self.root, "log.jsonl")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            out = [self.json.loads(x) for x in f]
        os.remove(p)
        return out

    def execute(self, script, status, cpus):
        """Runs a job script as the queue system does."""
        with open(os.path.join(self.root, "status.txt"), "w") as f:
            f.write(status)
        env = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.root, "LC_ALL": "C.UTF-8"}
        if cpus is not None:
            env["SLURM_CPUS_PER_TASK"] = str(cpus)
        p = subprocess.Popen(["bash", "-c", 'echo $$ > "$1"; exec bash "$2"', "x", os.path.join(self.root, "pid"), script], cwd=self.root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        err = p.communicate(timeout=60)[1]
        return p.returncode, err.decode(errors="replace")


CUSTOM = """
[{name}]
command = "mysub"
invoke = "myrun"
invoke_args = "-p {{pernode:d}} -t {{mpiproc:d}}"
required = ["name", "nodes", "directory", "pernode"]
script = \"\"\"#!/bin/bash
set -e
echo RUNNING > "{{statuspath:s}}"
trap 'echo CRASHED > "{{statuspath:s}}"' ERR
{{modules:s}}
source "{{venv:s}}"
cd "{{workdir:s}}"
{{invoke:s}} {{invoke_args:s}} caput-pipeline run {{profile:s}} {{profiler:s}} {{psutil:s}} "{{configpath:s}}" &> "{{logpath:s}}"
echo FINISHED > "{{statuspath:s}}"
if [ {{usetemp:d}} -eq 1 ]
then
    mv "{{workdir:s}}" "{{finaldir:s}}"
fi
\"\"\"
"""


class Job:
    """A configuration for the queue, and what is to become of it."""

    def __init__(self, c, cl, i, system=None):
        self.c, self.cl = c, cl
        self.sys = system or c.pick(["slurm", "slurm", "pbs", "pbs", "cedar", "gpc", "custom"])
        self.real = {"cedar": "slurm", "gpc": "pbs"}.get(self.sys, self.sys)
        name = c.pick([f"out{i}", f"my out{i}", f"deep/er/out{i}"])
        self.final = os.path.join(cl.root, name)
        self.work = os.path.join(cl.root, c.pick([f"tmp{i}", f"t m p{i}", f"a/b{i}"])) if c.chance(0.4) else self.final
        self.nodes, self.pernode, self.omp, self.ppn = c.int(1, 4), c.int(1, 8), c.int(1, 16), c.int(1, 40)
        k = {"name": f"job{i}", "nodes": self.nodes, "time": c.pick(["10:00:00", "2-03:00", "45", 30]), "directory": self.final, "ompnum": self.omp, "pernode": self.pernode}
        if self.real == "slurm":
            k.update(mem=c.pick(["16000M", "0"]), account=c.pick(["acc", "rrg-x"]))
        if self.real == "pbs":
            k.update(ppn=self.ppn, queue=c.pick(["batch", "debug"]))
        if self.work != self.final:
            k["temp_directory"] = self.work
        self.mods, self.paths = [], []
        if c.chance(0.4):
            self.mods = [f"mod{j}/1.{j}" for j in range(c.int(1, 3))]
            k["module_list"] = self.mods[0] if len(self.mods) == 1 and c.chance(0.5) else self.mods
        if c.chance(0.3):
            self.paths = [f"/opt/p{j}" for j in range(c.int(1, 2))]
            k["module_path"] = self.paths[0] if len(self.paths) == 1 and c.chance(0.5) else self.paths
        def spelled(p):
            """The same path, with variables or the home directory, which are those of the user."""
            return c.pick([cl.root, cl.root, "$VF_ROOT", "${VF_ROOT}", "~"]) + p[len(cl.root):]

        for w in ("directory", "temp_directory"):
            if w in k:
                k[w] = spelled(k[w])
        self.venv = None
        if c.chance(0.4):
            self.venv = os.path.join(cl.root, f"v env{i}")
            os.makedirs(os.path.join(self.venv, "bin"))
            with open(os.path.join(self.venv, "bin", "activate"), "w") as f:
                f.write(f"export VF_VENV=env{i}\n")
            k["venv"] = spelled(self.venv)
        self.args = {"slurm": [], "pbs": ["-np", str(self.nodes * self.pernode), "-npernode", str(self.pernode), "-bind-to", "none"], "custom": ["-p", str(self.pernode), "-t", str(self.nodes * self.pernode)]}[self.real]
        self.invoke = {"slurm": "srun", "pbs": "mpirun", "custom": "myrun"}[self.real]
        if c.chance(0.2):
            k["invoke_args"], self.args = "-n {mpiproc:d} --x", ["-n", str(self.nodes * self.pernode), "--x"]
        if c.chance(0.2):
            k["invoke"] = self.invoke = "myrun"
        k["system"] = self.sys
        self.cluster, self.i = k, i
        # what the model knows
        self.where, self.status, self.prof = None, None, None
        if os.path.dirname(self.final) != cl.root:
            pass
        if self.real == "custom":
            os.makedirs(os.path.dirname(self.final), exist_ok=True)

    def script_facts(self, text):
        c = self.c
        k = self.cluster
        if self.real == "slurm":
            got = dict(m.groups() for m in re.finditer(r"^#SBATCH --([a-z-]+)=(\S+)", text, re.M))
            want = {"account": k["account"], "nodes": str(self.nodes), "ntasks-per-node": str(self.pernode), "cpus-per-task": str(self.omp), "mem": k["mem"], "time": str(k["time"]), "job-name": k["name"]}
            c.check(got == want, f"directives {got}, expected {want}")
        elif self.real == "pbs":
            got = [m[1].split() for m in re.finditer(r"^#PBS (.*)$", text, re.M)]
            for w in (["-l", f"nodes={self.nodes}:ppn={self.ppn}"], ["-q", k["queue"]], ["-l", f"walltime={k['time']}"], ["-N", k["name"]]):
                c.check(w in got, f"directives {got}, expected {w}")


MAILS = {"slurm": ["BEGIN", "END", "FAIL", "REQUEUE", "ALL"], "pbs": ["a", "b", "e", "abe", "ba"]}


def do_queue(c, cl, j, cfg, where):
    """One call of queue; returns if the job was created, for the model."""
    policy = c.pick(["never", "never", "failed", "failed", "always"])
    if policy == "always" and j.where == "final" and j.work != j.final:
        policy = "failed"
    submit = c.chance(0.8)
    prof = c.pick([None, None, "cProfile", "pyinstrument"])
    ps = c.chance(0.2)
    mail = None
    if c.chance(0.3) and j.real in MAILS:
        mail = ("me@x.org", c.pick(MAILS[j.real]))
    command = {"slurm": "sbatch", "pbs": "qsub", "custom": "mysub"}[j.real]
    busy = submit and c.chance(0.1)
    skip = j.where is not None and (policy == "never" or (policy == "failed" and j.status == "FINISHED"))
    cl.mode(**({command: 1} if busy else {}))
    what = f"{where}: queue {policy} {'submit' if submit else 'nosubmit'}{' busy' if busy else ''}"
    src = cfg
    if j.where == "work" and c.chance(0.2):  # what was copied for the job is given again
        src = os.path.join(j.work, "job", "config.yaml")
    elif c.chance(0.5):  # or the file was changed
        save(cfg, doc_of(c.int(0, 3), text_of(c), cluster=j.cluster))
    with open(src) as f:
        given = f.read()
    cl.log()
    RAN.clear()
    # What changed the environment without Python knowing, as MPI does, does not reach the job
    ctypes.CDLL(None).setenv(b"VF_LOW", b"1", 1)
    with inside(cl.root, cl.bin):
        if c.chance(0.6):
            a = ["queue", "--submit" if submit else "--nosubmit", *(["--profile"] if prof else []), *([f"--profiler={prof}"] if prof else []), *(["--psutil"] if ps else []), f"--overwrite={policy}", *([f"--email={mail[0]}", f"--mailtype={mail[1]}"] if mail else []), src]
            r = invoke(*a)
            bad = r.exit_code != 0
            err = r.exception
        else:
            try:
                runner.queue(src, submit=submit, lint=c.chance(0.5), profile=bool(prof), **({"profiler": prof} if prof else {}), psutil=ps, overwrite=policy, **({"email": mail[0], "mailtype": mail[1]} if mail else {}))
                bad, err = False, None
            except Exception as e:  # noqa: BLE001
                bad, err = True, e
    log = cl.log()
    c.check(not RAN, f"{what}: the pipeline was run")
    c.check(bad == (busy and not skip), f"{what}: {'failed' if bad else 'did not fail'} ({err!r})")
    if skip:
        c.check(not log, f"{what}: submitted although the job exists ({j.where}, {j.status}): {log}")
        return what
    job = os.path.join(j.work, "job")
    want = [[command, [*({"slurm": [f"--mail-user={mail[0]}", f"--mail-type={mail[1]}"], "pbs": ["-M", mail[0], "-m", mail[1]]}[j.real] if mail else []), "jobscript.sh"], job]] if submit else []
    c.check([[e["me"], e["args"], e["cwd"]] for e in log] == want, f"{what}: {log}, expected {want}")
    c.check(os.path.isfile(os.path.join(job, "jobscript.sh")) and os.path.isfile(os.path.join(job, "config.yaml")), f"{what}: files of the job are missing")
    c.check(all(e["low"] is None and e["high"] == cl.root for e in log), f"{what}: the environment of the submission is not that of Python")
    with open(os.path.join(job, "config.yaml")) as g:
        c.check(given == g.read(), f"{what}: the configuration was not copied")
    with open(os.path.join(job, "jobscript.sh")) as f:
        j.script_facts(f.read())
    if j.where is None:
        j.status = None
    j.where, j.prof, j.ps = "work", prof, ps
    c.count("jobs")
    return what


def do_run(c, cl, j, cfg, where):
    """The script of a job is executed."""
    kind = c.pick(["ok", "ok", "ok", "fail", "module", "kill"])
    if kind == "module" and not (j.mods or j.paths):
        kind = "fail"
    cl.mode(**{"fail": {"caput-pipeline": 3}, "module": {"module": 1}, "kill": {"kill": 1}}.get(kind, {}))
    cl.log()
    job = os.path.join(j.work, "job")
    what = f"{where}: run {kind}"
    rc, err = cl.execute(os.path.join(job, "jobscript.sh"), os.path.join(job, "STATUS"), j.omp if j.real == "slurm" else None)
    log = cl.log()
    mods = [["--force", "purge"], *[["use", p] for p in j.paths], *[["load", m] for m in j.mods]] if j.mods or j.paths else []
    got = [e["args"] for e in log if e["me"] == "module"]
    if kind == "module":
        c.check(rc != 0 and not any(e["me"] == "caput-pipeline" for e in log), f"{what}: went on without its modules")
        j.status = "CRASHED"
    else:
        c.check(got == mods, f"{what}: modules {got}, expected {mods} ({err})")
        inv = [e for e in log if e["me"] in ("srun", "mpirun", "myrun")]
        flags = [*(["--profile", f"--profiler={j.prof}"] if j.prof else []), *(["--psutil"] if j.ps else [])]
        end = ["caput-pipeline", "run", *flags, os.path.join(job, "config.yaml")]
        c.check(len(inv) == 1 and inv[0]["me"] == j.invoke and inv[0]["args"] == [*j.args, *end], f"{what}: {inv}, expected {j.invoke} {j.args} {end} ({err})")
        c.check(inv[0]["cwd"] == j.work, f"{what}: run in {inv[0]['cwd']}")
        if j.real != "custom":
            c.check(inv[0]["omp"] == str(j.omp), f"{what}: {inv[0]['omp']} threads, expected {j.omp}")
        c.check(inv[0]["venv"] == (f"env{j.i}" if j.venv else None), f"{what}: environment {inv[0]['venv']}")
        c.check([e["args"] for e in log if e["me"] == "status"] == [["RUNNING"]], f"{what}: the status while running is not RUNNING")
        c.check((rc == 0) == (kind == "ok"), f"{what}: exit status {rc} ({err})")
        j.status = {"ok": "FINISHED", "fail": "CRASHED", "kill": "RUNNING"}[kind]
        if kind == "ok" and j.work != j.final:
            c.check(not os.path.exists(j.work), f"{what}: the temporary directory is left")
            j.where = "final"
    at = j.final if j.where == "final" else j.work
    with open(os.path.join(at, "job", "STATUS")) as f:
        c.check(f.read().strip() == j.status, f"{what}: wrong status, expected {j.status}")
    if kind == "ok":
        c.check(os.path.isfile(os.path.join(at, "product")), f"{what}: the output is not in {at}")
        with open(os.path.join(at, "job", "jobout.log")) as f:
            c.check("log of the job" in f.read(), f"{what}: the log is missing")
    c.count("scripts")
    return what


@group(quick=120, thorough=1500)
def queueing(c):
    """Jobs are queued, run, crash and are queued again."""
    cl = Cluster(c)
    runner.register_system(save(os.path.join(cl.root, "sys.toml"), CUSTOM.format(name="custom")))
    j = Job(c, cl, 0)
    cfg = save(os.path.join(cl.root, "cfg.yaml"), doc_of(1, text_of(c), cluster=j.cluster))
    c.note(cluster=j.cluster)
    hist = []
    for step in range(c.int(1, 6)):
        runnable = j.where == "work" or (j.where and j.work == j.final)
        if runnable and c.chance(0.5):
            hist.append(do_run(c, cl, j, cfg, f"step {step}, after {hist}"))
        else:
            hist.append(do_queue(c, cl, j, cfg, f"step {step}, after {hist}"))
        hist[-1] = hist[-1].split(": ", 1)[1]
    c.note(history=hist)
    c.nontrivial(str(j.cluster).replace(c.tmp, ""), str(hist))


@group(quick=60, thorough=600)
def many(c):
    """Templates are queued once for every combination of values."""
    cl = Cluster(c)
    j = Job(c, cl, 0, c.pick(["slurm", "pbs"]))
    vals = [f"d{i}" for i in range(c.int(1, 4))]
    j.cluster["directory"] = os.path.join(cl.root, "jobs", "{where}")
    j.cluster.pop("temp_directory", None)
    if "venv" in j.cluster:
        j.cluster["venv"] = j.venv
    if "{" in str(j.cluster.get("invoke_args", "")):
        del j.cluster["invoke_args"]
    doc, var, runs = template(c, yaml.safe_dump({"cluster": j.cluster}))
    var.append("where=" + ",".join(vals))
    doc_runs = [(doc.format(**d, where=w), w) for _, _, d in runs for w in vals]
    c.note(var=var, system=j.sys)
    fn = save(os.path.join(cl.root, "t.yaml"), doc)
    command = {"slurm": "sbatch", "pbs": "qsub"}[j.real]
    status, texts, hist = {}, {}, []
    for step in range(c.int(1, 3)):
        policy = c.pick(["never", "failed", "always"])
        mail = ("me@x.org", c.pick(MAILS[j.real])) if c.chance(0.3) else None
        hist.append([policy, mail])
        cl.log()
        RAN.clear()
        with inside(cl.root, cl.bin):
            if c.chance(0.7):
                a = ([] if policy == "never" and c.chance(0.5) else [f"--overwrite={policy}"]) + ([f"--email={mail[0]}", f"--mailtype={mail[1]}"] if mail else [])
                r = invoke("template-run", "--submit", *a, *[x for v in var for x in ("--var", v)], fn)
                c.check(r.exit_code == 0, f"exit status {r.exit_code}: {r.exception!r}")
            else:
                runner.template_queue(fn, var, policy, *(mail or ()))
        log = cl.log()
        c.check(not RAN, f"pipelines were run: {RAN}")
        # As many calls of queue as there are combinations; jobs that exist are left out as asked for
        want = []
        for text, w in doc_runs:
            if w in status and (policy == "never" or (policy == "failed" and status[w] == "FINISHED")):
                continue
            status.setdefault(w, None)
            texts[w] = text
            want.append([command, [*({"slurm": [f"--mail-user={mail[0]}", f"--mail-type={mail[1]}"], "pbs": ["-M", mail[0], "-m", mail[1]]}[j.real] if mail else []), "jobscript.sh"], os.path.join(cl.root, "jobs", w, "job")])
        got = [[e["me"], e["args"], e["cwd"]] for e in log]
        c.check(got == want, f"{hist}: submitted {got}, expected {want}")
        for w, text in texts.items():
            with open(os.path.join(cl.root, "jobs", w, "job", "config.yaml"), encoding="utf-8") as f:
                c.check(f.read() == text, f"the configuration of {w} differs")
        for w in status:  # the jobs run, or not
            status[w] = c.pick([None, "FINISHED", "CRASHED", "RUNNING"])
            st = os.path.join(cl.root, "jobs", w, "job", "STATUS")
            if status[w]:
                save(st, status[w] + "\n")
            elif os.path.exists(st):
                os.remove(st)
    first = texts
    c.check(sorted(os.listdir(os.path.join(cl.root, "jobs"))) == sorted(first), "directories")
    c.count("jobs", len(first))
    c.nontrivial(doc, str(var), str(hist))


@group(quick=40, thorough=400)
def systems(c):
    """Queue systems are registered from files, replacing those of the same name; incomplete ones are refused."""
    cl = Cluster(c)
    version = {}
    for step in range(c.int(1, 4)):
        names = [f"sys{i}" for i in range(3) if c.chance(0.5)] or ["sys0"]
        bad = c.pick(names) if c.chance(0.3) else None
        lack = c.pick(["command", "script"])
        text = ""
        for n in names:
            t = CUSTOM.format(name=n).replace("set -e", f"# version {step}\nset -e")
            if n == bad:
                t = "\n".join(x for x in t.split("\n") if not x.startswith("command")) if lack == "command" else t[: t.index("script =")]
            text += t
        fn = save(os.path.join(cl.root, f"s{step}.toml"), text)
        with inside(cl.root):
            if c.chance(0.5):
                failed = invoke("register-system", fn).exit_code != 0
            else:
                try:
                    runner.register_system(fn)
                    failed = False
                except ValueError:
                    failed = True
        c.check(failed == (bad is not None), f"a system lacking {lack if bad else 'nothing'}: {'refused' if failed else 'accepted'}")
        for n in names:
            if n == bad:
                break  # those that follow are not registered
            version[n] = step
        for n, v in version.items():
            d = {"name": "j", "nodes": 1, "directory": os.path.join(cl.root, f"{n}-{step}"), "pernode": 2, "system": n}
            with inside(cl.root, cl.bin):
                runner.queue(save(os.path.join(cl.root, "q.yaml"), doc_of(1, "", cluster=d)), submit=False)
            with open(os.path.join(d["directory"], "job", "jobscript.sh")) as f:
                got = re.search(r"# version (\d+)", f.read())
            c.check(got and int(got[1]) == v, f"{n}: the script is that of registration {got and got[1]}, expected {v}")
    # Forget them
    known = getattr(sys.modules.get("caput.pipeline.runner._scheduler"), "REGISTERED_SYSTEMS", {})
    for i in range(3):
        known.pop(f"sys{i}", None)
    c.nontrivial(str(version), step)


@group(quick=80, thorough=800)
def refused(c):
    """What is refused leaves no job behind, and can be queued once corrected."""
    cl = Cluster(c)
    j = Job(c, cl, 0, c.pick(["slurm", "pbs"]))
    good = dict(j.cluster)
    k = c.pick(["system", "missing", "venv", "mail", "lint", "cluster", "nosystem"])
    doc = doc_of(1, "x", cluster=dict(good))
    kw = {}
    cl_ = doc["cluster"]
    if k == "system":
        cl_["system"] = "nothere"
    elif k == "nosystem":
        del cl_["system"]
    elif k == "missing":
        need = ["name", "nodes", "time", "directory", "ompnum", "pernode", *(["mem", "account"] if j.real == "slurm" else ["ppn", "queue"])]
        cl_.pop(c.pick(need))
    elif k == "venv":
        cl_["venv"] = os.path.join(cl.root, "missing")
    elif k == "mail":
        kw = {"email": "me@x.org", "mailtype": c.pick(["BEGIN", "END"]) if j.real == "pbs" else c.pick(["a", "abe"])}
    elif k == "lint":
        doc["pipeline"]["tasks"][1]["type"] = "QNone"
    elif k == "cluster":
        del doc["cluster"]
    cfg = save(os.path.join(cl.root, "cfg.yaml"), doc)
    before = sorted(os.listdir(cl.root))
    c.note(kind=k, system=j.sys)
    with inside(cl.root, cl.bin):
        c.raises((Exception, SystemExit), runner.queue, cfg, submit=c.chance(0.7), msg=k, **kw)
        c.check(not cl.log(), f"{k}: submitted")
        c.check(sorted(os.listdir(cl.root)) == before, f"{k}: left {sorted(set(os.listdir(cl.root)) - set(before))}")
        save(cfg, doc_of(1, "x", cluster=good))
        runner.queue(cfg, submit=True)
    log = cl.log()
    c.check([e["cwd"] for e in log] == [os.path.join(j.work, "job")], f"{k}: the corrected job was not submitted: {log}")
    c.nontrivial(k, str(good).replace(c.tmp, ""))
    shutil.rmtree(cl.root)
