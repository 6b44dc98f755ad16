"""C30 profilers."""

import csv
import logging
import os
import pstats
import subprocess
import threading
import time
import warnings

import psutil
from mpi4py import MPI

from vf import mpi
from vf.core import fast_sleep, group

from caput.util import profiler

warnings.simplefilter("ignore")
REAL = time.sleep
fast_sleep()

RULE = (
    "sequences of profiled blocks with known work (function calls, bytes written and read, time, processor "
    "time, memory), nested, failing or switched off, in given or current directories, on one to three ranks; "
    "the records are compared with the work that was done, and the files with what was asked for; "
    "non-trivial when something was recorded; distinct by the sequence"
)
ASSUMPTIONS = ["bounds of measured times are one sided or wide: the machine may be busy"]


def work(c, t, tmp):
    """Something to be measured, and how much of it."""
    n = c.pick([0, 1, 1000, 200000])
    with open(os.path.join(tmp, f"w{c.rank}"), "wb", buffering=0) as f:
        for _ in range(c.int(1, 3)):
            f.write(b"x" * n)
    if t:
        REAL(t)
    return os.path.getsize(os.path.join(tmp, f"w{c.rank}"))


class Oops(Exception):
    pass


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelno, record.getMessage()))


def logger(c, name):
    lg = logging.getLogger(f"vf.c30.{name}")
    lg.propagate = False
    lg.setLevel(logging.DEBUG)
    h = Log()
    lg.handlers[:] = [h]
    return lg, h


def step_a(n):
    return sum(step_b(i) for i in range(n))


def step_b(i):
    return i * i


def earlier_step():
    t = time.perf_counter()
    while time.perf_counter() - t < 0.01:
        pass


@group(quick=120, thorough=2500, mpi=(1, 2, 3))
def profiling(c):
    """The profilers of Python code."""
    prof = c.pick(["cprofile", "pyinstrument"])
    arg, comm, kind = mpi.pick_comm(c)
    given = comm if c.chance(0.6) else None
    rank, size = (comm.rank, comm.size) if given is not None else (MPI.COMM_WORLD.rank, MPI.COMM_WORLD.size)
    where = os.path.join(c.tmp, "out dir" if c.chance(0.3) else "out")
    cwd = os.path.join(c.tmp, f"cwd{c.rank}")
    os.makedirs(where, exist_ok=True)
    os.makedirs(cwd, exist_ok=True)
    here = c.chance(0.4)
    on = c.chance(0.8)
    fail = c.chance(0.3)
    move = c.chance(0.3)
    n = c.int(1, 40)
    c.note(profiler=prof, comm=kind, given=given is not None, here=here, on=on, fail=fail, calls=n)
    c.comm.Barrier()
    old = os.getcwd()
    try:
        os.chdir(cwd)
        if c.chance(0.3):  # a profile of before is replaced
            with profiler.Profiler(on, profiler=prof, comm=given, **({} if here else {"path": where})):
                earlier_step()
        p = profiler.Profiler(on, profiler=prof, comm=given, **({} if here else {"path": where}))
        caught = False
        try:
            with p:
                step_a(n + c.rank)
                if move:  # the work may change the directory
                    os.chdir(c.tmp)
                if prof == "pyinstrument" and on:
                    t = time.perf_counter()
                    while time.perf_counter() - t < 0.01:
                        step_a(50)
                if fail:
                    raise Oops
        except Oops:
            caught = True
        c.check(caught == fail, "the exception was lost" if fail else "an exception")
        # Work outside of the block is not part of the profile
        step_a(n)
        if c.chance(0.2):
            c.raises(ValueError, profiler.Profiler, True, "other", msg="an unknown profiler")
    finally:
        os.chdir(old)
    c.comm.Barrier()
    names = set(os.listdir(cwd if here else where))
    other = set(os.listdir(where if here else cwd))
    c.check(not other, f"files elsewhere: {other}")
    if not on:
        c.check(not names, f"files without profiling: {names}")
    else:
        mine = [x for x in names if os.path.splitext(x)[0].split("_")[-1].isdigit() and int(os.path.splitext(x)[0].split("_")[-1]) == rank]
        c.check(len(mine) == 1, f"files {names}, one expected for rank {rank}")
        if here:
            c.check(len(names) == 1, f"files {names}")
        elif given is None:
            c.check(len(names) == size, f"{len(names)} files for {size} ranks")
        fn = os.path.join(cwd if here else where, mine[0])
        if prof == "cprofile" and (here or given is None or kind != "split"):
            if here or given is None or comm.size == c.size:
                st = pstats.Stats(fn).stats
                cnt = {k[2]: v[1] for k, v in st.items() if k[0] == __file__}
                c.check(cnt.get("step_a") == 1 and cnt.get("step_b") == n + c.rank, f"the profile has calls {cnt}, not 1 and {n + c.rank}")
                c.check("earlier_step" not in cnt, "the profile of before is left")
        elif prof == "pyinstrument":
            with open(fn) as f:
                text = f.read()
            c.check("step_a" in text or "step_b" in text or "genexpr" in text, "the profile does not show the function")
            c.check("earlier_step" not in text, "the profile of before is left")
        c.nontrivial(prof, kind, given is None, here, fail, n)
    c.count("profiles", int(on))


@group(quick=200, thorough=3000)
def io_usage(c):
    """Counting input and output."""
    lg, h = logger(c, "io") if c.chance(0.5) else (None, None)
    u = profiler.IOUsage(*([] if lg is None else [lg]))
    c.check(u.usage == {}, "usage before anything was run")
    total = []
    for _ in range(c.int(1, 3)):
        fail = c.chance(0.2)
        if h:
            h.lines.clear()
        try:
            with u:
                n = work(c, 0, c.tmp)
                m = 0
                if c.chance(0.5):
                    with open(os.path.join(c.tmp, f"w{c.rank}"), "rb", buffering=0) as f:
                        m = len(f.readall())
                if fail:
                    raise Oops
        except Oops:
            pass
        got = u.usage
        c.check(n <= got["write_chars"] <= n + 2000, f"{got['write_chars']} bytes written, {n} expected")
        c.check(m <= got["read_chars"] <= m + 20000, f"{got['read_chars']} bytes read, {m} expected")
        c.check(got["write_count"] >= 1 and all(v >= 0 for v in got.values()), f"counts {got}")
        got["write_chars"] = -1
        c.check(u.usage["write_chars"] != -1, "the record can be changed from outside")
        if h:
            text = " ".join(x for _, x in h.lines)
            for k, v in u.usage.items():
                c.check(f"({k}): {v}" in text, f"{k} is not logged: {text}")
            c.check(all(lev == logging.INFO for lev, _ in h.lines), "levels")
        total.append(n)
        work(c, 0, c.tmp)
    c.count("blocks", len(total))
    c.nontrivial(str(total))


COLS = {
    "time_s": "time_s", "average_cpu_load_percent": "cpu_percent", "memory_change_uss": "memory",
    "current_available_memory_bytes": "available_memory", "current_total_used_memory_bytes": "used_memory",
    "peak_used_memory_bytes": "peak_memory",
}  # fmt: skip


@group(quick=120, thorough=2000, mpi=(1, 2, 3))
def usage(c):
    """Records of processor, memory and disk."""
    arg, comm, kind = mpi.pick_comm(c)
    given = comm if c.chance(0.5) else None
    rank = comm.rank if given is not None else MPI.COMM_WORLD.rank
    where = os.path.join(c.tmp, "out" if given is None or kind != "split" else f"out{c.rank}")
    os.makedirs(where, exist_ok=True)
    here = c.chance(0.3)
    lg, h = logger(c, "ps") if c.chance(0.5) else (None, None)
    steps = [(c.pick(["a", "b c", "x,y", 'q"q', ""]), c.chance(0.8), c.chance(0.2), c.pick([0, 0.02, 0.05]), c.chance(0.4)) for _ in range(c.int(1, 3))]
    if c.chance(0.1):
        steps += [(f"more {i}", True, False, 0, False) for i in range(c.int(10, 25))]
    c.note(comm=kind, here=here, steps=str(steps))
    c.comm.Barrier()
    old = os.getcwd()
    threads = threading.active_count()
    rows = []
    mine = os.path.join(where, str(c.rank)) if here else where
    os.makedirs(mine, exist_ok=True)
    try:
        os.chdir(mine if here else c.tmp)
        if c.chance(0.2):
            c.raises(ValueError, profiler.PSUtilProfiler, path=os.path.join(c.tmp, "missing"), msg="a missing directory")
        for label, on, fail, t, hand in steps:
            p = profiler.PSUtilProfiler(on, label, lg, given, None if here else where)
            c.check(p.usage == {}, "usage before anything was run")
            c.check(p.cpu_count == len(os.sched_getaffinity(0)), f"{p.cpu_count} cores")
            if h:
                h.lines.clear()
            if c.chance(0.1):
                c.raises(RuntimeError, p.stop, msg="stop before start")
            child = c.chance(0.1)
            if hand and on:
                t0 = time.time()
                p.start()
                n = work(c, t, c.tmp)
                if child:  # which only computes
                    a = os.times()
                    subprocess.run(["sh", "-c", "i=0; while [ $i -lt 60000 ]; do i=$((i+1)); done"], check=True)
                    b = os.times()
                p.stop()
                if child:
                    got = p.usage["cpu_times"]
                    for f in ("children_user", "children_system"):
                        d = getattr(b, f) - getattr(a, f)
                        c.check(abs(got[f] - d) <= 0.031, f"{f}: {got[f]} s, expected {d}")
            else:
                caught = False
                t0 = time.time()
                try:
                    with p:
                        n = work(c, t, c.tmp)
                        if fail:
                            raise Oops
                except Oops:
                    caught = True
                c.check(caught == fail, "the exception was lost")
            c.check(threading.active_count() == threads, "a thread is left running")
            u = p.usage
            if not on:
                c.check(u == {}, f"a record without profiling: {u}")
                continue
            c.check(t <= u["time_s"] + 1e-4 and u["time_s"] <= time.time() - t0 + 1e-4, f"{u['time_s']} s, slept {t}")
            c.check(u["task_name"] == label, f"label {u['task_name']!r}")
            c.check(n <= u["disk_io"]["write_chars"] <= n + 20000, f"{u['disk_io']} for {n} bytes written")
            c.check(all(v >= 0 for v in u["disk_io"].values()) and all(v >= -0.011 for v in u["cpu_times"].values()), f"negative usage {u}")
            c.check(0 < u["available_memory"] and 0 < u["used_memory"] and 0 < u["peak_memory"], f"memory {u}")
            if h:
                text = " ".join(x for _, x in h.lines)
                c.check(f"{u['time_s']:.4f}" in text and (label in text), f"log: {text}")
            rows.append(u)
    finally:
        os.chdir(old)
    c.comm.Barrier()
    fn = os.path.join(mine if here else where, f"perf_{rank}.csv")
    if not any(s[1] for s in steps):
        c.check(not os.path.exists(fn), "a file without profiling")
    else:
        c.check(os.path.exists(fn), f"no file {fn}: {os.listdir(mine if here else where)}")
        with open(fn, newline="") as f:
            got = list(csv.DictReader(f))
        c.check([r["task_name"] for r in got] == [u["task_name"] for u in rows], f"rows {got}")
        for r, u in zip(got, rows):
            c.check(None not in r and None not in r.values(), f"columns of {r}")
            for k, v in COLS.items():
                c.check(float(r[k]) == float(u[v]), f"{k}: {r[k]}, expected {u[v]}")
            for k, v in u["disk_io"].items():
                c.check(float(r[f"disk_io_{k}"]) == v, f"{k}: {r}")
            for k, v in u["cpu_times"].items():
                c.check(float(r[f"cpu_times_{k}"]) == v, f"{k}: {r}")
    c.count("rows", len(rows))
    if rows:
        c.nontrivial(kind, here, str(steps))


@group(quick=8, thorough=60)
def timing(c):
    """The time is that of the block, not of the measurement."""
    capped = time.sleep
    t = c.pick([0, 0.01, 0.05])
    c.note(t=t)
    seen = []
    try:
        time.sleep = REAL
        for _ in range(6):
            p = profiler.PSUtilProfiler(True, "x", path=c.tmp)
            t0 = time.time()
            with p:
                REAL(t)
                t1 = time.time()
            seen.append((p.usage["time_s"], t1 - t0))
            if seen[-1][0] <= seen[-1][1] + 0.2:
                break
    finally:
        time.sleep = capped
    c.check(any(a <= b + 0.2 for a, b in seen), f"times measured, and of the block: {seen}")
    c.count("blocks", len(seen))
    c.nontrivial(c.idx)


class Used:
    """A machine whose memory in use is as scripted."""

    def __init__(self, values):
        self.values, self.seen, self.i = values, [], 0

    def __call__(self):
        v = self.values[min(self.i, len(self.values) - 1)]
        self.i += 1
        self.seen.append(v)
        return type("svmem", (), {"used": v, "available": 123456, "total": 2**60, "free": 1, "percent": 1.0})()


@group(quick=25, thorough=300)
def peak(c):
    """The peak is the largest use of memory seen while the block runs."""
    real = psutil.virtual_memory
    values = [int(x) for x in c.rng.integers(2**48, 2**52, c.int(1, 8))]
    if c.chance(0.5):
        values.sort(reverse=True)
    stub = Used(values)
    c.note(values=values)
    p = profiler.PSUtilProfiler(True, "x", path=c.tmp)
    psutil.virtual_memory = stub
    try:
        with p:
            t = time.time()
            while stub.i < len(values) and time.time() - t < 5:
                REAL(0.005)
            seen = list(stub.seen)
    finally:
        psutil.virtual_memory = real
    if seen:
        # More may be seen before the measurement ends
        c.check(max(seen) <= p.usage["peak_memory"] <= max([*seen, values[-1]]), f"peak {p.usage['peak_memory']}, seen {seen}")
        c.check(p.usage["available_memory"] == 123456, f"available {p.usage}")
        c.nontrivial(str(values))
    c.count("samples", len(seen))
