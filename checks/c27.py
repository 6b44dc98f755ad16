"""C27 the helpers for MPI programs."""

import builtins
import fcntl
import io
import logging
import math
import multiprocessing
import os
import re
import warnings

import h5py
import numpy as np
import psutil
import yaml
from mpi4py import MPI

from vf import mpi, sub
from vf.core import group, rand_array

from caput import pipeline
from caput.pipeline import Manager
from caput.pipeline.tasklib.base import MPILoggedTask
from caput.util import mpitools

warnings.simplefilter("ignore")

RULE = (
    "random global arrays cut into boxes or rows on one to four ranks of several communicators, gathered, "
    "transposed and written to files; collective operations, groups of active ranks, log records and "
    "failing ranks; every rank's result is compared with the global array or the list of what every rank "
    "gave; non-trivial when more than one rank or record took part; distinct by the contents"
)
ASSUMPTIONS = ["rank 0 is active, as the function ending the wait requires"]

TYPES = ["f8", "f4", "c16", "c8", "i8", "i4", "i2", "u1", "?", ">f8", ">i4"]


def comm_of(c):
    """A communicator to hand over (or None for no MPI at all), and what it stands for."""
    if c.chance(0.1):
        return None, MPI.COMM_SELF, "none"
    arg, comm, kind = mpi.pick_comm(c)
    return comm, comm, kind


def refill(c, shape, dt):
    a = rand_array(c.rng, shape, np.dtype(dt).newbyteorder("="))
    return a.astype(dt)


def boxes(c, shape, n):
    """Disjoint boxes, one for every rank; some are empty, some of the array may be left out."""
    todo = [tuple((0, k) for k in shape)]
    while len(todo) < n:
        i = c.int(0, len(todo) - 1)
        b = todo.pop(i)
        ax = c.int(0, len(shape) - 1)
        lo, hi = b[ax]
        m = c.int(lo, hi)
        todo += [b[:ax] + ((lo, m),) + b[ax + 1 :], b[:ax] + ((m, hi),) + b[ax + 1 :]]
    if c.chance(0.3):
        i = c.int(0, n - 1)
        todo[i] = tuple((lo, c.int(lo, hi)) for lo, hi in todo[i])
    return [todo[i] for i in c.rng.permutation(n)]


def layout(c, a):
    k = c.int(0, 3)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1 and a.ndim:
        big = np.zeros((*a.shape[:-1], 2 * a.shape[-1] + 1), a.dtype)
        big[..., 1::2] = a
        return big[..., 1::2]
    return np.ascontiguousarray(a)


@group(quick=300, thorough=6000, mpi=(1, 2, 3, 4))
def gathering(c):
    """Boxes of an array are put together on one rank."""
    arg, comm, kind = comm_of(c)
    shape = tuple(c.int(1, 6) for _ in range(c.pick([1, 2, 2, 3])))
    dt = c.pick(TYPES)
    gdt = dt if c.chance(0.7) else np.result_type(np.dtype(dt), c.pick(["f8", "c16"]) if dt in ("c16", "c8") else "f8")
    if np.dtype(dt).kind == "c":
        gdt = np.result_type(gdt, dt)
    ref = refill(c, shape, dt)
    most = c.size
    parts = boxes(c, shape, most)
    root = c.int(0, most - 1) % comm.size
    c.note(shape=shape, dtype=str(dt), into=str(gdt), comm=kind, root=root, boxes=parts)
    # Within a communicator of fewer ranks, only their boxes arrive
    mine = parts[comm.rank]
    local = layout(c, ref[tuple(slice(*b) for b in mine)])
    keep = local.copy()
    start = refill(c, shape, gdt)
    give = layout(c, start.copy())
    if comm.rank != root and c.chance(0.5):
        give = None
    starts = [b[0] for b in mine]
    mpitools.gather_local(give, local, c.pick([list, tuple, np.array])(starts), root=root, comm=arg)
    want = start.copy()
    if comm.rank == root:
        for b in parts[: comm.size]:
            sl = tuple(slice(*x) for x in b)
            want[sl] = ref[sl]
    if give is not None:
        c.same(give, want, "the global array" if comm.rank == root else "the array of another rank")
    c.same(local, keep, "the local array")
    c.count("boxes", comm.size)
    if c.size > 1:
        c.nontrivial(kind, root, str(parts), ref.tobytes())


@group(quick=300, thorough=6000, mpi=(1, 2, 3, 4))
def transposing(c):
    """Rows to columns."""
    arg, comm, kind = comm_of(c)
    shape = tuple(c.int(1, 7) for _ in range(c.pick([2, 2, 3, 4])))
    dt = c.pick(TYPES)
    ref = refill(c, shape, dt)
    extra = c.pick([0, 0, 1, 3])
    c.note(shape=shape, dtype=dt, comm=kind, extra=extra)
    lo, hi = mpi.bounds(shape[0], comm)
    local = np.zeros((hi - lo, *shape[1:-1], shape[-1] + extra), dt)
    local[..., : shape[-1]] = ref[lo:hi]
    local = layout(c, local)
    keep = local.copy()
    got = mpitools.transpose_blocks(local, c.pick([tuple, list])(shape), comm=arg)
    a, b = mpi.bounds(shape[-1], comm)
    c.same(got, ref[..., a:b], "the columns of this rank")
    c.check(not np.shares_memory(got, local), "the result is not a copy")
    c.same(local, keep, "the rows of this rank")
    if c.size > 1:
        c.nontrivial(kind, shape, extra, ref.tobytes())


@group(quick=150, thorough=2500, mpi=(1, 2, 3))
def rows(c):
    """Rows written to one file by all ranks."""
    arg, comm, kind = comm_of(c)
    if kind == "none" and c.size > 1:
        arg, comm, kind = c.comm, c.comm, "dup"
    name = f"f{c.rank % 2}.h5" if kind == "split" else "f.h5"
    fn = os.path.join(c.tmp, name)
    first = {"x": refill(c, (c.int(1, 9),), "f8"), "g/y": refill(c, (3, 2), "i4")}
    if not c.chance(0.7):
        first = {}
    if comm.rank == 0 and first:
        with h5py.File(fn, "w") as f:
            for k, v in first.items():
                f[k] = v
            f.attrs["note"] = "kept"
    comm.Barrier()
    want = dict(first)
    for i in range(c.int(1, 4)):
        shape = (c.int(1, 9), *(c.int(1, 5) for _ in range(c.int(0, 2))))
        dt = c.pick(TYPES)
        ref = refill(c, shape, dt)
        c.note(**{f"d{i}": [shape, dt]})
        lo, hi = mpi.bounds(shape[0], comm)
        mpitools.parallel_rows_write_hdf5(fn, f"d{i}", np.ascontiguousarray(ref[lo:hi]), shape, comm=arg)
        comm.Barrier()
        want[f"d{i}"] = ref
    with h5py.File(fn, "r") as f:
        names = []
        f.visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) else None)
        c.check(sorted(names) == sorted(want), f"datasets {names}, expected {list(want)}")
        for k, v in want.items():
            c.same(f[k][:], v, k)
            c.count("datasets")
        if first:
            c.check(f.attrs.get("note") == "kept", "the attributes of the file changed")
    comm.Barrier()
    c.nontrivial(kind, str(want))


def _hold(fn, off, n, ready, out):
    """Another process: locks the region, later writes to it and unlocks."""
    import time

    with open(fn, "r+b", buffering=0) as f:
        fcntl.lockf(f, fcntl.LOCK_EX, n, off, os.SEEK_SET)
        ready.set()
        time.sleep(0.1)
        f.seek(off)
        out.put(f.read(n))
        f.seek(off)
        f.write(b"\xee" * n)
        fcntl.lockf(f, fcntl.LOCK_UN, n, off, os.SEEK_SET)


@group(quick=100, thorough=800)
def buffers(c):
    """Buffers written at an offset, under a lock."""
    fn = os.path.join(c.tmp, "f")
    total = c.int(20, 400)
    base = rand_array(c.rng, (total,), "u1").tobytes()
    with open(fn, "wb") as f:
        f.write(base)
    data = refill(c, tuple(c.int(1, 3) for _ in range(c.int(1, 2))), c.pick(TYPES))
    off = c.int(0, total)
    size = data.nbytes + c.pick([0, 0, 5])
    held = c.chance(0.4) and off + data.nbytes <= total
    c.note(total=total, off=off, nbytes=data.nbytes, size=size, held=held)
    if held:
        ctx = multiprocessing.get_context("fork")
        ready, out = ctx.Event(), ctx.Queue()
        p = ctx.Process(target=_hold, args=(fn, off, data.nbytes, ready, out))
        p.start()
        c.check(ready.wait(30), "no lock")
    obj = c.pick([lambda: data, lambda: data.tobytes(), lambda: bytearray(data.tobytes())])()
    mpitools.lock_and_write_buffer(obj, fn, off, size)
    if held:
        c.check(out.get(timeout=30) == base[off : off + data.nbytes], "written while another process held the lock")
        p.join(30)
    with open(fn, "rb") as f:
        got = f.read()
    want = base[:off].ljust(off, b"\0") + data.tobytes() + base[off + data.nbytes :]
    c.check(got == want, f"the file has {len(got)} bytes, expected {len(want)}, or differs")
    # The region is free again
    pid = os.fork()
    if pid == 0:
        try:
            with open(fn, "r+b") as f:
                fcntl.lockf(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            os._exit(0)
        except BaseException:  # noqa: BLE001
            os._exit(1)
    c.check(os.waitpid(pid, 0)[1] == 0, "the file is still locked")
    # A buffer larger than its region is refused
    c.raises(Exception, mpitools.lock_and_write_buffer, data, fn, off, data.nbytes - 1, msg="a buffer larger than its region")
    with open(fn, "rb") as f:
        c.check(f.read() == want, "the file changed")
    c.nontrivial(base, off, data.tobytes())


@group(quick=200, thorough=3000, mpi=(1, 2, 3, 4), turn=False)
def collectives(c):
    """Broadcasts, reductions, partial groups of ranks."""
    arg, comm, kind = comm_of(c)
    root = c.int(0, 3) % comm.size
    vals = [c.pick([c.int(-5, 5), float(c.int(-4, 4)), [c.int(0, 9)], rand_array(c.rng, (3,), "i8")]) for _ in range(comm.size if kind != "split" else c.size)]
    c.note(comm=kind, root=root, vals=str(vals))
    mine = vals[comm.rank]
    got = mpitools.bcast(mine, root=root, comm=arg)
    c.check(type(got) is type(vals[root]) and np.array_equal(got, vals[root]), f"bcast: {got}, expected {vals[root]}")
    nums = [int(np.sum(v)) for v in vals][: comm.size]
    op = c.pick([None, "SUM", "MAX", "MIN", "PROD"])
    f = {None: sum, "SUM": sum, "MAX": max, "MIN": min, "PROD": math.prod}[op]
    got = mpitools.allreduce(nums[comm.rank], comm=arg, **({} if op is None else {"op": getattr(mpitools, op)}))
    c.check(got == f(nums), f"allreduce {op} of {nums}: {got}")
    mpitools.barrier(comm=arg)
    if c.chance(0.3):
        mpitools.barrier()
        c.check(mpitools.bcast(c.rank, root=c.size - 1) == c.size - 1, "bcast over all ranks")
        c.check(mpitools.allreduce(c.rank + 1) == sum(range(1, c.size + 1)), "allreduce over all ranks")
    # The names of MPI, and those of this process
    for n in ("SUM", "COMM_WORLD", "INT", "ANY_TAG"):
        c.check(getattr(mpitools, n) is getattr(MPI, n) or getattr(mpitools, n) == getattr(MPI, n), n)
    c.raises(AttributeError, getattr, mpitools, "no_such_name", msg="an unknown name")
    w = MPI.COMM_WORLD
    c.check((mpitools.rank, mpitools.size, mpitools.rank0) == (w.rank, w.size, w.rank == 0), "rank, size or rank0")
    # Cores are shared by the ranks of the communicator on this machine
    cores = os.cpu_count()
    n = mpitools.cpu_count(comm=arg) if c.chance(0.5) else mpitools.cpu_count(comm=arg, scomm=arg)
    c.check(n == max(1, cores // comm.size), f"cpu_count {n}, for {comm.size} ranks on {cores} cores")
    try:
        mem = mpitools.available_memory_shared()
    except OSError:
        mem = None  # of a control group whose files are not shown here
    known = mem is not None
    c.check(not known or mem <= psutil.virtual_memory().total, f"{mem} bytes are available")
    for scope in ("shared", "process", "global"):
        c.check(mpitools.can_allocate(c.pick([0, 1, 1000]), scope=scope, comm=arg) == True, f"{scope}: a little memory")  # noqa: E712
        c.check(mpitools.can_allocate(2**60 // comm.size, scope=scope, comm=arg) == (not known), f"{scope}: too much memory")  # noqa: E712
    # Some ranks are active, the others wait
    act = [0] + [int(i) for i in c.rng.permutation(np.arange(1, c.size))[: c.int(0, c.size - 1)]]
    if c.chance(0.5):
        sub_ = mpitools.active_comm(act)
    else:
        log = os.path.join(c.tmp, "log")
        sub_ = mpitools.active(act)
        if c.rank in act:
            with open(log, "a") as f:
                f.write("a\n")
            sub_.Barrier()
            mpitools.close(act)
        else:
            with open(log) as f:
                n = f.read().count("a")
            c.check(n == len(act), f"a waiting rank went on after {n} of {len(act)} active ones")
    if c.rank in act:
        c.check(sub_.size == len(act) and sub_.rank == act.index(c.rank), f"rank {sub_.rank} of {sub_.size}, active are {act}")
        c.check(sub_.allgather(c.rank) == act, "the ranks of the active communicator")
    else:
        c.check(sub_ == MPI.COMM_NULL, "a waiting rank has a communicator")
    c.count("ranks", comm.size)
    if c.size > 1:
        c.nontrivial(kind, root, str(vals), str(act))


class Machine:
    """Replaces what the system tells about cores, memory and control groups."""

    def __init__(self, avail, cores, files):
        self.avail, self.cores, self.files, self.asked = avail, cores, files, []

    def __enter__(self):
        self.old = builtins.open, io.open, psutil.virtual_memory, os.cpu_count
        vm = self.old[2]()

        def opener(file, *args, **kw):
            name = os.fspath(file) if isinstance(file, str | os.PathLike) else None
            if isinstance(name, str) and (name.startswith("/sys/fs/cgroup") or re.fullmatch(r"/proc/(\d+|self)/cgroup", name)):
                key = "cgroup" if name.startswith("/proc") else os.path.normpath(name)
                self.asked.append(key)
                text = self.files.get(key, FileNotFoundError(2, "missing", name))
                if isinstance(text, Exception):
                    raise text
                mode = (args[0] if args else kw.get("mode", "r")) or "r"
                return io.BytesIO(text.encode()) if "b" in mode else io.StringIO(text)
            return self.old[0](file, *args, **kw)

        builtins.open = io.open = opener
        psutil.virtual_memory = lambda: vm._replace(available=self.avail)
        os.cpu_count = lambda: self.cores
        return self

    def __exit__(self, *exc):
        builtins.open, io.open, psutil.virtual_memory, os.cpu_count = self.old


@group(quick=150, thorough=2500, mpi=(1, 2, 3))
def resources(c):
    """Cores and memory of machines of every kind."""
    arg = c.pick([c.comm, c.comm.Split(c.rank % 2, c.rank)])
    size = arg.size
    cores = c.pick([None, 1, 2, 3, 7, 64])
    avail = c.int(1, 2**20) * 4096
    kind = c.pick(["none", "none", "v2", "root", "v1", "v1", "v1", "unlimited", "denied", "lost"])
    limit, used = avail + c.int(-avail + 4096 * 40, avail), 0
    used = c.int(0, limit // 2)
    if kind == "unlimited":
        limit = 2**63 - 4096
    name = c.pick(["/job", "/slurm/uid_0/job_12"])
    v1 = f"12:cpuset:/x\n5:memory:{name}\n0::/\n"
    text = {"v2": "0::/user.slice/a\n", "root": "3:memory:/\n0::/\n", "v1": v1, "unlimited": v1, "lost": v1, "denied": PermissionError(13, "denied")}
    files = {} if kind == "none" else {"cgroup": text[kind]}
    if kind in ("v1", "unlimited"):
        d = "/sys/fs/cgroup/memory" + name
        files[d + "/memory.stat"] = f"cache 5\nrss 7\nhierarchical_memory_limit {limit}\ntotal_cache 5\n"
        files[d + "/memory.usage_in_bytes"] = f"{used}\n"
    want = min(limit - used, avail) if kind in ("v1", "unlimited") else None if kind in ("denied", "lost") else avail
    c.note(kind=kind, cores=cores, avail=avail, limit=limit, used=used, size=size)
    scope = c.pick(["shared", "process", "global"])
    part = c.rng.random(size) + 0.05
    got = {}
    with Machine(avail, cores, files) as m:
        n = mpitools.cpu_count(comm=arg)
        try:
            mem = mpitools.available_memory_shared()
        except OSError as e:
            mem = e
        asked = bool(m.asked)
        for f in (0.5, 0.97, 1.03, 1.5):
            if not asked:
                break
            if want is not None:
                c.raises(ValueError, mpitools.can_allocate, 1, scope="all", comm=arg, msg="unknown scope")
            b = 2**40 if want is None else int(f * want)
            if scope == "process":
                # Not every rank needs the same
                b = int(b * part[arg.rank] / part.sum())
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got[f] = mpitools.can_allocate(b, scope=scope, comm=arg), any(issubclass(x.category, RuntimeWarning) for x in w)
    c.check(n == (None if cores is None else max(1, cores // size)), f"cpu_count {n}, for {size} ranks on {cores} cores")
    if not asked:
        c.count("not observable")
        return
    if want is None:
        c.check(isinstance(mem, OSError), f"memory {mem} of an unreadable control group")
    else:
        c.check(mem == want, f"available memory {mem!r}, expected {want}")
    for f, (ok, warned) in got.items():
        if want is None:
            c.check(ok is True and warned, f"unknown memory: {ok}, warned {warned}")
        elif size * 4096 < 0.02 * want:
            c.check(bool(ok) == (f < 1), f"{scope}: allocating {f} of {want} bytes: {ok}")
    c.nontrivial(c.desc)


LEVELS = {"DEBUG": 10, "INFO": 20, "WARN": 30, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


class LSay(MPILoggedTask):
    def setup(self):
        for lev, msg in WORDS:
            self.log.log(lev, msg)


WORDS = []
pipeline.local_tasks["LSay"] = LSay


@group(quick=150, thorough=2500, mpi=(1, 2, 3), turn=False)
def logs(c):
    """Log records by rank and level."""
    l0, la = c.pick([10, 15, 20, 30, 40]), c.pick([10, 20, 30, 45])
    use = c.comm.Split(c.rank % 2, -c.rank) if c.size > 1 and c.chance(0.3) else None
    add = c.chance(0.7)
    rank, size = (use.rank, use.size) if use else (c.rank, c.size)
    kw = {"level_rank0": l0, "level_all": la}
    if c.chance(0.2):
        kw, l0, la = {}, logging.INFO, logging.WARNING
    f = mpitools.MPILogFilter(add_mpi_info=add, comm=use, **kw)
    c.note(rank0=l0, others=la, add=add)
    for _ in range(6):
        lev = c.pick([10, 20, 25, 30, 40, 50])
        r = logging.LogRecord("n", lev, "p", 1, "m", (), None)
        given = c.chance(0.4)
        at = c.int(0, 3)
        if given:
            r.mpi_rank, r.mpi_size = at, 9
        who = at if given else rank
        c.check(bool(f.filter(r)) == (lev >= (l0 if who == 0 else la)), f"level {lev} of rank {who}: wrong decision")
        c.check(abs(r.elapsedTime - r.relativeCreated / 1000) < 1e-9, f"elapsed time {r.elapsedTime}")
        if given:
            c.check((r.mpi_rank, r.mpi_size) == (at, 9), "the given rank was replaced")
        elif add:
            c.check((r.mpi_rank, r.mpi_size) == (rank, size), f"rank {r.mpi_rank} of {r.mpi_size}, expected {rank} of {size}")
        else:
            c.check(not hasattr(r, "mpi_rank"), "rank was added")
        c.count("records")
    # By a pipeline
    names = [c.pick(list(LEVELS)), c.pick(list(LEVELS))]
    params = {}
    if c.chance(0.8):
        params["level_rank0"] = names[0] if c.chance(0.7) else LEVELS[names[0]]
    if c.chance(0.8):
        params["level_all"] = names[1] if c.chance(0.7) else LEVELS[names[1]]
    val = [LEVELS[names[0]] if "level_rank0" in params else 20, LEVELS[names[1]] if "level_all" in params else 30]
    tl = c.pick([None, None, "ERROR", "DEBUG"])
    WORDS[:] = [(c.pick([10, 20, 30, 40, 50]), f"word{i}x") for i in range(5)]
    doc = {"pipeline": {"logging": {"root": "DEBUG"}, "tasks": [{"type": "caput.pipeline.tasklib.base.SetMPILogging", "params": params}, {"type": "LSay", "params": {} if tl is None else {"log_level": tl}}]}}
    c.note(params=params, task=tl)
    rl = logging.getLogger()
    old = rl.handlers[:], rl.level, logging.root.manager.disable
    text = io.StringIO()
    h = logging.StreamHandler(text)
    tlog = logging.getLogger(f"{LSay.__module__}.LSay")
    try:
        logging.disable(logging.NOTSET)
        rl.handlers[:] = [h]
        rl.setLevel(logging.DEBUG)
        tlog.setLevel(logging.NOTSET)
        Manager.from_yaml_str(yaml.dump(doc)).run()
    finally:
        rl.handlers[:], _ = old[0], rl.setLevel(old[1])
        logging.disable(old[2])
        logging.captureWarnings(False)
        tlog.setLevel(logging.NOTSET)
        warnings.simplefilter("ignore")
    lines = [x for x in text.getvalue().splitlines() if re.search(r"word\d+x", x)]
    want = [w for lev, w in WORDS if lev >= val[0 if c.rank == 0 else 1] and (tl is None or lev >= LEVELS[tl])]
    c.check([re.search(r"word\d+x", x).group() for x in lines] == want, f"lines {lines}, expected {want}")
    for x in lines:
        m = re.search(r"(\d+)\s*/\s*(\d+)", x)
        c.check(m and (int(m[1]), int(m[2])) == (c.rank, c.size), f"{x!r} does not show rank {c.rank} of {c.size}")
    c.count("records", len(WORDS))
    c.nontrivial(str(doc), str(WORDS))


FAIL = """
import os, time
real = time.sleep
time.sleep = lambda s: real(min(s, 0.2))
from caput.util import mpitools
mpitools.enable_mpi_exception_handler()
from mpi4py import MPI
w = MPI.COMM_WORLD
w.Barrier()
who, kind = {who}, {kind!r}
if w.rank in who:
    print("failing", w.rank, flush=True)
    if kind == "value":
        raise ValueError("the reason")
    if kind == "deep":
        def f(n):
            return f(n - 1) if n else {{}}["the reason"]
        f(5)
    if kind == "chain":
        try:
            1 / 0
        except ZeroDivisionError as e:
            raise RuntimeError("the reason") from e
if who:
    w.Barrier()
print("done", w.rank, flush=True)
"""


@group(quick=6, thorough=60, weight=3)
def failing(c):
    """A failure on any rank ends the whole job."""
    n = c.int(1, 3)
    who = [r for r in range(n) if c.chance(0.5)] if c.idx % 6 else []
    if c.idx % 6 and not who:
        who = [c.int(0, n - 1)]
    kind = c.pick(["value", "deep", "chain"])
    c.note(n=n, who=who, kind=kind)
    rc, out, late = sub.run(FAIL.format(who=who, kind=kind), c.tmp, np=n, timeout=60)
    if who:
        c.check(not late, f"the job went on after ranks {who} of {n} failed: {out[-500:]}")
        c.check(rc != 0, f"exit status {rc} after ranks {who} failed")
        c.check("the reason" in out and "Traceback" in out, f"the error was not shown: {out[-500:]}")
    else:
        c.check(not late and rc == 0, f"exit status {rc}: {out[-500:]}")
        c.check(out.count("done") == n, f"output: {out[-500:]}")
    c.count("jobs")
    c.nontrivial(n, str(who), kind)


ENVIRON = """
import os, time
real = time.sleep
time.sleep = lambda s: real(min(s, 0.1))
import logging
logging.basicConfig()
import numpy as np
from mpi4py import MPI
from caput.pipeline.tasklib.debug import CheckMPIEnvironment
w = MPI.COMM_WORLD
w.Barrier()
who, kind = {who}, {kind!r}
if w.rank == who and kind == "silent":
    real(400)
elif w.rank == who and kind == "garbled":
    n = 500000
    a = np.arange(w.size * n, dtype=np.float64).reshape(w.size, n)
    a[w.rank, {where}] += 1
    got = np.zeros_like(a)
    req = [w.Irecv(got[i], i) for i in range(w.size)] + [w.Isend(a[w.rank], i) for i in range(w.size)]
    MPI.Request.Waitall(req)
    w.Barrier()
else:
    t = CheckMPIEnvironment()
    t.timeout = {timeout}
    t.setup()
print("done", w.rank, flush=True)
"""


@group(quick=6, thorough=60, weight=3)
def environment(c):
    """The test of the MPI environment notices ranks that do not answer or answer wrongly."""
    n = c.int(1, 3) if c.idx % 3 == 0 else c.int(2, 3)
    kind = ["good", "silent", "garbled"][c.idx % 3]
    who = c.int(0, n - 1)
    c.note(n=n, who=who, kind=kind)
    script = ENVIRON.format(who=who, kind=kind, where=c.int(0, 499999), timeout=2 if kind == "silent" else 60)
    rc, out, late = sub.run(script, c.tmp, np=n, timeout=120)
    c.check(not late, f"the job did not end: {out[-500:]}")
    if kind == "good":
        c.check(rc == 0 and out.count("done") == n, f"exit status {rc}: {out[-500:]}")
    else:
        c.check(rc != 0 and "done" not in out.replace(f"done {who}", ""), f"exit status {rc}: {out[-500:]}")
    c.count("jobs")
    c.nontrivial(n, who, kind)
