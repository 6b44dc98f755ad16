"""Runs a check: schedules its groups, collects what the monitors saw, gives a verdict."""

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import core, native

VERIF = native.VERIF
STALL_S = float(os.environ.get("VF_STALL", "75"))
FOUND = threading.Event()  # a violation has been confirmed: no need to wait for hanging jobs
T0 = time.monotonic()

MPI_CMD = [
    "mpirun", "--oversubscribe", "--bind-to", "none",
    "--mca", "btl", "self,vader",
    "--mca", "plm", "isolated",
    "--mca", "mpi_yield_when_idle", "1",
]  # fmt: skip


def known_keys(prop):
    """Keys of recorded (not repaired) findings of this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                w = line[6:].split(None, 2)
                if w[0] == f"property={prop}" and w[1].startswith("key="):
                    out[w[1][4:]] = w[2] if len(w) > 2 else ""
    return out


class Job:
    def __init__(self, check, group, start, stop, step, mpi, opts, root):
        self.check, self.group = check, group
        self.start, self.stop, self.step, self.mpi = start, stop, step, mpi
        self.opts = opts
        self.root = root
        self.slots = min(8, max(group.weight, mpi or 1))
        self.records = []
        self.problem = None  # (kind, text, idx)
        self.attempts = 0

    # ------------------------------------------------------------------
    def env(self):
        e = dict(os.environ)
        e.update(
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            PYTHONWARNINGS="ignore",
            OMPI_ALLOW_RUN_AS_ROOT="1",
            OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
            HDF5_USE_FILE_LOCKING="FALSE",
            VF_NATIVE=self.group.native,
        )
        e.pop("PYTHONPATH", None)
        e.update(self.group.env)
        if self.group.native == "asan":
            lib = subprocess.run(
                ["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True
            ).stdout.strip()
            e["LD_PRELOAD"] = lib
            e["ASAN_OPTIONS"] = (
                "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=86:"
                "allocator_may_return_null=1:handle_segv=1"
            )
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=86"
            e["PYTHONMALLOC"] = "malloc"
        return e

    def run(self):
        start = self.start
        budget = 6
        while start < self.stop and budget:
            budget -= 1
            nxt = self._run_once(start)
            if nxt is None:
                return
            start = nxt

    def _deadline(self):
        """Seconds for this job: a whole quick run takes at most ten minutes."""
        if self.opts.tier != "quick":
            return self.opts.deadline
        return max(15, min(self.opts.deadline, 600 - (time.monotonic() - T0)))

    def _run_once(self, start):
        self.attempts += 1
        out = tempfile.mkdtemp(prefix="j", dir=self.root)
        tdir = tempfile.mkdtemp(prefix="t", dir=self.root)
        e = self.env()
        e["TMPDIR"] = tdir
        cmd = [
            sys.executable, "-m", "vf.worker", self.check, self.group.name,
            str(start), str(self.stop), str(self.step), out,
            "--seed", str(self.opts.seed), "--tier", self.opts.tier,
            "--deadline", str(self._deadline()),
        ]  # fmt: skip
        if self.mpi:
            cmd += ["--mpi", str(self.mpi)]
            cmd = [*MPI_CMD, "--mca", "orte_tmpdir_base", tdir, "-np", str(self.mpi), *cmd]
        with open(os.path.join(out, "log"), "w") as log:
            p = subprocess.Popen(
                cmd, cwd=VERIF, env=e, stdout=log, stderr=subprocess.STDOUT,
                stdin=subprocess.DEVNULL, start_new_session=True,
            )  # fmt: skip
            stalled = self._watch(p, out)
        if self.mpi:
            self._kill_ranks(out)
        rc = p.returncode
        recs = []
        done = 0
        for r in range(self.mpi or 1):
            path = os.path.join(out, f"res.{r}")
            if not os.path.exists(path):
                continue
            with open(path) as f:
                for line in f:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    rec["_rank"] = r
                    recs.append(rec)
                    done += rec["type"] == "done"
        self.records += recs
        with open(os.path.join(out, "log"), errors="replace") as f:
            log = f.read()
        at = max([self._prog(out, r)[0] for r in range(self.mpi or 1)], default=start)
        running = any(self._prog(out, r)[1] == "r" for r in range(self.mpi or 1))
        shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(tdir, ignore_errors=True)

        viol = [x for x in recs if x["type"] == "violation"]
        if any(v.get("key") not in known_keys(self.check) for v in viol):
            FOUND.set()
        if stalled is not None and stalled[0] is None:
            return None  # given up
        if stalled is not None and stalled[0]:
            FOUND.set()
        if stalled is not None:
            kind = "stall" if stalled[0] else "inconclusive"
            if not viol:
                self.problem = (kind, stalled[1], at)
            return None
        if any(x["type"] == "import" for x in recs):
            if not os.environ.get("VF_QUIET"):
                print(next(x["msg"] for x in recs if x["type"] == "import"))
            self.problem = ("import", next(x["msg"] for x in recs if x["type"] == "import"), at)
            return None
        if rc == 0 and done == (self.mpi or 1):
            return None
        if self.mpi and viol:
            # The job was aborted by the rank which saw the violation.
            known = known_keys(self.check)
            if all(v.get("key") in known for v in viol):
                return max(v["idx"] for v in viol) + self.step
            return None
        # No record explains this ending: the process died inside a case
        if running:
            FOUND.set()
            self.problem = ("crash", f"exit status {rc} while running a case\n{log[-6000:]}", at)
        elif self.attempts < 3:
            return start  # could not start (environment): try again
        else:
            self.problem = ("inconclusive", f"exit status {rc}\n{log[-3000:]}", at)
        return None

    def _prog(self, out, r):
        try:
            with open(os.path.join(out, f"prog.{r}")) as f:
                w = f.read().split()
            return int(w[0]), w[1], w[2]
        except (OSError, IndexError, ValueError):
            return -1, "?", ""

    def _watch(self, p, out):
        last, t_last = None, time.monotonic()
        while True:
            try:
                p.wait(0.25)
                return None
            except subprocess.TimeoutExpired:
                pass
            now = [self._prog(out, r) for r in range(self.mpi or 1)]
            if now != last:
                last, t_last = now, time.monotonic()
            elif FOUND.is_set() and time.monotonic() - t_last > 20:
                self._killpg(p)
                return (None, "")
            elif time.monotonic() - t_last > STALL_S:
                # Not a verdict on the clock: look at what the ranks are doing, twice
                a = self._stacks(out)
                time.sleep(8)
                b = self._stacks(out)
                if [self._prog(out, r) for r in range(self.mpi or 1)] != last:
                    t_last = time.monotonic()
                    continue
                self._killpg(p)
                in_case = any(x[1] == "r" for x in last)
                txt = f"no progress for {STALL_S:.0f} s; rank states {last}\n" + "\n".join(
                    f"--- rank {r}\n{s}" for r, s in enumerate(b)
                )
                same = a == b if self.mpi else True
                return (in_case and same, txt)

    def _stacks(self, out):
        res = []
        for r in range(self.mpi or 1):
            path = os.path.join(out, f"stack.{r}")
            try:
                with open(os.path.join(out, f"pid.{r}")) as f:
                    pid = int(f.read())
                pos = os.path.getsize(path)
                os.kill(pid, signal.SIGUSR1)
                time.sleep(0.7)
                with open(path) as f:
                    f.seek(pos)
                    txt = f.read()
                res.append("\n".join(x for x in txt.splitlines() if "File" in x)[:2500])
            except (OSError, ValueError):
                res.append("(gone)")
        return res

    def _killpg(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def _kill_ranks(self, out):
        for r in range(self.mpi):
            try:
                with open(os.path.join(out, f"pid.{r}")) as f:
                    pid = int(f.read())
                with open(f"/proc/{pid}/cmdline") as f:
                    if out in f.read():
                        os.kill(pid, signal.SIGKILL)
            except (OSError, ValueError):
                pass


def make_jobs(check, groups, opts, root):
    jobs = []
    for g in groups.values():
        n = g.quick if opts.tier == "quick" else g.thorough
        if g.mpi:
            per = max(1, -(-n // len(g.mpi)))
            for size in g.mpi:
                jobs.append(Job(check, g, 0, per, 1, size, opts, root))
        else:
            shards = g.shards or (4 if opts.tier == "thorough" else 2)
            shards = max(1, min(shards, n))
            for s in range(shards):
                jobs.append(Job(check, g, s, n, shards, 0, opts, root))
    return jobs


def schedule(jobs, slots):
    """Run jobs on `slots` CPU slots, the wide ones first."""
    jobs = sorted(jobs, key=lambda j: -j.slots)
    cond = threading.Condition()
    free = [slots]
    threads = []

    def go(j):
        try:
            if not (FOUND.is_set() and time.monotonic() - T0 > 240):
                j.run()
        except Exception as e:  # noqa: BLE001
            j.problem = ("inconclusive", f"driver: {type(e).__name__}: {e}", -1)
        finally:
            with cond:
                free[0] += min(j.slots, slots)
                cond.notify_all()

    for j in jobs:
        with cond:
            while free[0] < min(j.slots, slots):
                cond.wait()
            free[0] -= min(j.slots, slots)
        t = threading.Thread(target=go, args=(j,))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--group", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--keep-going", action="store_true")
    opts = ap.parse_args()
    opts.tier = opts.tier or os.environ.get("VERIF_TIER") or "quick"
    if opts.seed is None:
        opts.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    opts.deadline = 420 if opts.tier == "quick" else 3600
    t0 = time.monotonic()
    prop = opts.check.upper()
    root = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    try:
        rc = run_check(prop, opts, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run_check(prop, opts, root, t0):
    sys.path.insert(0, VERIF)
    native.install()
    kinds_needed = {"fast"}
    try:
        native.ensure_all("fast")
    except RuntimeError as e:
        print(f"ERROR: cannot build the extensions: {e}")
        return 2
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception:  # noqa: BLE001
        # Importing the code under test fails: every guarantee of it is gone.
        import traceback

        tb = traceback.format_exc()
        print(tb)
        if "/repo/" not in tb:
            return 2
        return report(prop, opts, t0, None, {}, [], [("import", "import", tb, -1, None)])
    groups = core.groups_of(mod)
    if opts.group:
        groups = {k: v for k, v in groups.items() if k in opts.group.split(",")}
    if opts.replay:
        with open(opts.replay) as f:
            rp = json.load(f)
        opts.seed = rp["seed"]
        opts.tier = rp["tier"]
        g = core.groups_of(mod)[rp["group"]]
        jobs = [Job(prop, g, rp["idx"], rp["idx"] + 1, 1, rp["mpi"], opts, root)]
        groups = {g.name: g}
    else:
        jobs = make_jobs(prop, groups, opts, root)
    for k in {g.native for g in groups.values()} - kinds_needed:
        try:
            native.ensure_all(k)
        except RuntimeError as e:
            print(f"ERROR: cannot build the extensions: {e}")
            return 2
    schedule(jobs, slots=int(os.environ.get("VF_SLOTS", "8")))
    probs = [
        (j.group.name, *j.problem[:2], j.problem[2], j.mpi) for j in jobs if j.problem
    ]
    return report(prop, opts, t0, mod, groups, jobs, probs)


def report(prop, opts, t0, mod, groups, jobs, probs):
    known = known_keys(prop)
    viols, incon = [], []
    evals = 0
    keys = set()
    events, per_group, samples = {}, {}, []
    oracle = 0
    for j in jobs:
        seen = set()
        pg = per_group.setdefault(
            j.group.name, {"cases": 0, "distinct": set(), "sizes": set(), "what": j.group.doc}
        )
        pg["sizes"].add(j.mpi or 1)
        for r in j.records:
            if r["type"] == "ok":
                oracle += r["evals"]
                for k, v in r["events"].items():
                    ek = f"{j.group.name}.{k}"
                    events[ek] = events.get(ek, 0) + v
                if r["idx"] in seen:
                    continue
                seen.add(r["idx"])
                pg["cases"] += 1
                if r["key"]:
                    keys.add((j.group.name, j.mpi, r["key"]))
                    pg["distinct"].add((j.mpi, r["key"]))
                    if len([s for s in samples if s["group"] == j.group.name]) < 2:
                        samples.append(
                            {"group": j.group.name, "ranks": j.mpi or 1, "idx": r["idx"], **r["desc"]}
                        )
            elif r["type"] == "violation":
                seen.add(r["idx"])
                viols.append((j, r))
            elif r["type"] in ("inconclusive", "error"):
                incon.append((j, r))
        evals += len(seen)
    for name, kind, text, idx, mpi in probs:
        if kind in ("stall", "crash", "import"):
            viols.append(
                (None, {"group": name, "idx": idx, "mpi": mpi or 0, "msg": f"{kind}: {text}",
                        "key": None, "desc": {}, "tb": text})
            )  # fmt: skip
        else:
            incon.append((None, {"msg": text, "idx": idx}))

    shown, seen_known, n_new = set(), set(), 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for j, r in viols:
        if r.get("key") and r["key"] in known:
            if r["key"] not in seen_known:
                seen_known.add(r["key"])
                print(f"KNOWN-FINDING: property={prop} {r['key']}: {known[r['key']]}")
            continue
        n_new += 1
        gname = j.group.name if j else r["group"]
        mpi = j.mpi if j else r["mpi"]
        tag = (gname, mpi, r["idx"])
        if tag in shown or len(shown) >= 4:
            continue
        shown.add(tag)
        path = os.path.join(VERIF, "replays", f"{prop}-{gname}-np{mpi or 1}-{r['idx']}.json")
        core.jdump(
            {
                "property": prop, "group": gname, "idx": r["idx"], "mpi": mpi, "seed": opts.seed,
                "tier": opts.tier, "message": r["msg"], "case": r["desc"], "traceback": r.get("tb"),
                "rerun": f"python3 run.py {prop} --replay {path}",
            },
            path,
        )  # fmt: skip
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  group={gname} ranks={mpi or 1} case={r['idx']} {json.dumps(r['desc'])[:600]}")
        print(f"  {r['msg'][:1200]}")

    missing = [g for g, d in per_group.items() if d["cases"] == 0 or not d["distinct"]]
    wall = time.monotonic() - t0
    ev = {
        "property": prop,
        "tier": opts.tier,
        "seed": opts.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": getattr(mod, "RULE", "see DESIGN.md"),
            "samples": samples[:24],
            "oracle_assertions": oracle,
            "events_observed": events,
            "groups": {
                g: {
                    "cases": d["cases"],
                    "distinct_nontrivial": len(d["distinct"]),
                    "ranks": sorted(d["sizes"]),
                    "what": d["what"],
                }
                for g, d in per_group.items()
            },
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": n_new,
    }
    if not opts.replay and not opts.group:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        core.jdump(ev, os.path.join(VERIF, "evidence", f"{prop}.json"))
    print(
        f"{prop} tier={opts.tier} seed={opts.seed}: {evals} cases, {len(keys)} distinct non-trivial, "
        f"{oracle} oracle assertions, {n_new} violations, {wall:.1f} s"
    )
    for g, d in per_group.items():
        print(f"   {g}: {d['cases']} cases, {len(d['distinct'])} distinct, ranks {sorted(d['sizes'])}")
    if n_new:
        return 1
    if incon:
        for _, r in incon[:3]:
            print(f"INCONCLUSIVE: {r['msg'][:1500]}")
        return 2
    if missing and not opts.replay:
        print(f"INCONCLUSIVE: monitors never reached in groups {missing}")
        return 2
    return 0


if __name__ == "__main__":
    main()
