"""C12 files created under a lock are published whole or not at all."""

import errno
import hashlib
import os
import shutil
import sys
import warnings

import h5py
import numpy as np
import zarr

from vf.core import Violation, fast_sleep, group, rand_array

import caput
from caput.memdata import MemGroup, fileformats, lock_file
from caput.pipeline.extensions import GroupIOMixin

warnings.simplefilter("ignore")
fast_sleep()

RULE = (
    "random file kinds, bodies, previous contents and outcomes; the directory is observed at every "
    "executed line of the library and of the body, an exception is injected at a random step, and in "
    "forked children the process is killed at every such line in turn; non-trivial when a body "
    "wrote data; distinct by kind, outcome and point of failure"
)
ASSUMPTIONS = [
    "a crash ends the process, not the machine (no lost page cache)",
    "replacing an existing directory (Zarr) cannot be atomic: its name may be missing for a moment",
]
PKG = os.path.dirname(os.path.abspath(caput.__file__))
HERE = os.path.abspath(__file__)


class Boom(Exception):
    pass


def state(path):
    """Content of a file or directory, or None when there is nothing."""
    if os.path.isdir(path):
        h = hashlib.sha1()
        for root, dirs, files in sorted(os.walk(path)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, path).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
        return "d" + h.hexdigest()
    if os.path.exists(path):
        with open(path, "rb") as fh:
            return "f" + hashlib.sha1(fh.read()).hexdigest()
    return None


def watch(fn, on_line):
    """Run fn, calling on_line at every line of the library and of this file's `body_` functions."""

    def local(frame, event, arg):
        if event == "line":
            sys.settrace(None)
            try:
                on_line()
            finally:
                sys.settrace(tracer)
        return local

    def tracer(frame, event, arg):
        co = frame.f_code
        if co.co_filename.startswith(PKG) or (co.co_filename == HERE and co.co_name.startswith("body_")):
            return local
        return None

    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def body_plain(fn, data, step):
    with open(fn, "wb") as fh:
        for i, d in enumerate(data):
            step(i)
            fh.write(d.tobytes())
            fh.flush()
    step(len(data))


def body_h5(fn, data, step):
    step(0)
    with h5py.File(fn, "w") as fh:
        for i, d in enumerate(data):
            fh.create_dataset(f"d{i}", data=d)
            fh.flush()
            step(i + 1)


def body_zarr(fn, data, step):
    step(0)
    z = zarr.open_group(fn, mode="w")
    for i, d in enumerate(data):
        z.create_dataset(f"d{i}", data=d)
        step(i + 1)


def body_mem(fn, data, step):
    step(0)
    g = MemGroup()
    for i, d in enumerate(data):
        g.create_dataset(f"g/d{i}", data=d)
    step(1)
    g.to_file(fn, file_format=fileformats.HDF5)
    step(2)


BODIES = {"plain": body_plain, "h5": body_h5, "zarr": body_zarr, "mem": body_mem}


def intact(kind, path, data):
    """Is the file at `path` complete?"""
    try:
        if kind == "plain":
            with open(path, "rb") as fh:
                return fh.read() == b"".join(d.tobytes() for d in data)
        f = zarr.open_group(path, mode="r") if kind == "zarr" else h5py.File(path, "r")
        pre = "g/" if kind == "mem" else ""
        ok = all(np.array_equal(f[f"{pre}d{i}"][:], d) for i, d in enumerate(data))
        if kind != "zarr":
            f.close()
        return ok
    except (OSError, KeyError, ValueError, zarr.errors.ContainsArrayError, zarr.errors.GroupNotFoundError):
        return False


def setting(c, kinds=("plain", "h5", "zarr", "mem")):
    kind = c.pick(kinds)
    data = [rand_array(c.rng, (c.int(1, 30),), "f8") for _ in range(c.int(1, 3))]
    base = os.path.join(c.tmp, c.pick(["work", "work/sub"]))
    os.makedirs(base)
    name = c.pick(["out.h5", "a b.dat", "x.zarr", ".hidden", "file"])
    final = os.path.join(base, name)
    old = None
    if c.chance(0.5):
        old = [rand_array(c.rng, (5,), "f8")]
        BODIES[kind](final, old, lambda i: None)
    bystander = os.path.join(base, "keep.txt")
    with open(bystander, "w") as fh:
        fh.write("mine")
    return kind, data, base, name, final, old, bystander


@group(quick=250, thorough=4000)
def publish(c):
    """Success, exceptions at any step and failing renames, watched line by line."""
    kind, data, base, name, final, old, bystander = setting(c)
    before = state(final)
    listing = set(os.listdir(base))
    preserve = c.chance(0.3)
    outcome = c.pick(["ok", "ok", "raise", "raise", "early", "rename", "nofile"])
    if outcome == "nofile" and name == "file":
        outcome = "ok"
    at = c.int(0, len(data))
    if kind == "mem":
        at = min(at, 2)
    exc = c.pick([Boom, KeyboardInterrupt, SystemExit, OSError])
    rel = c.chance(0.3)
    c.note(kind=kind, name=name, old=bool(old), preserve=preserve, outcome=outcome, at=at, exc=exc.__name__, rel=rel)
    seen = []
    tmpname = []

    def step(i):
        if outcome == "raise" and i == at:
            raise exc("injected")

    unlocked = []

    def observe():
        s = state(final)
        if not seen or seen[-1] != s:
            seen.append(s)
        # The lock is there as long as there is something unfinished
        if tmpname and os.path.exists(tmpname[0]) and not os.path.exists(lock[0]):
            unlocked.append(sorted(os.listdir(base)))
        c.count("observations")

    lock = []

    def work():
        lf = lock_file(name if rel else final, preserve=preserve)
        lock.append(os.path.abspath(lf.lockfile))
        with lf as fn:
            tmpname.append(os.path.abspath(fn))
            if outcome == "early":
                raise exc("injected")
            if outcome != "nofile":
                BODIES[kind](fn, data, step)

    real = os.rename, os.replace, shutil.move
    cwd = os.getcwd()
    err = None
    try:
        if rel:
            os.chdir(base)
        if outcome == "rename":

            def bad(*a, **k):
                raise OSError(errno.EXDEV, "injected")

            os.rename = os.replace = shutil.move = bad
        try:
            watch(work, observe)
        except Violation:
            raise
        except BaseException as e:  # noqa: BLE001
            err = e
    finally:
        os.rename, os.replace, shutil.move = real
        os.chdir(cwd)
    after = state(final)
    if not preserve and outcome != "rename":
        c.check(not unlocked, f"without a lock while the file is not finished: {unlocked[:1]}")
    observe()
    left = set(os.listdir(base))
    c.check(len(tmpname) == 1, "the body ran once")
    c.check(os.path.dirname(tmpname[0]) == base, f"temporary file {tmpname[0]} is in another directory")
    c.check(tmpname[0] != final, "the body writes to the final name")
    tmpbase = os.path.basename(tmpname[0])
    if outcome == "ok":
        c.check(err is None, f"unexpected {err!r}")
        c.check(intact(kind, final, data), "the final file is not complete")
        c.check(left == listing | {name}, f"left behind: {sorted(left - listing - {name})}")
        ok = {before, after} | ({None} if kind == "zarr" else set())
        c.check(set(seen) <= ok, "the final name held something other than the previous or the complete new content")
        c.check(seen.count(after) == 1 or before == after, "the new content was withdrawn again")
    else:
        want = exc if outcome in ("raise", "early") else OSError
        c.check(isinstance(err, want), f"the error became {err!r}, expected {want.__name__}")
        if outcome in ("raise", "early"):
            c.check("injected" in str(err), f"another error: {err!r}")
        if not (kind == "zarr" and outcome == "rename"):
            c.check(after == before and set(seen) == {before}, "the final name changed although the creation failed")
            c.check(old is None or intact(kind, final, old), "the previous content is damaged")
        wrote = outcome == "rename" or (outcome == "raise" and (at > 0 or kind == "plain"))
        if kind == "mem" and outcome == "raise":
            wrote = at == 2
        keep = {tmpbase} if ((preserve and wrote) or outcome == "rename") else set()
        left_ok = left - listing
        if outcome == "rename":
            left_ok -= {tmpbase}  # what was written may be kept for the user
            keep = set()
            if kind == "zarr":
                left_ok -= {name}
        c.check(left_ok == keep, f"left behind after a failure: {sorted(left - listing)}, expected {sorted(keep)}")
        if keep:
            c.check(outcome == "raise", "preserved")
            c.count("preserved")
    with open(bystander) as fh:
        c.check(fh.read() == "mine", "another file was changed")
    c.count("outcome_" + outcome)
    c.nontrivial(c.desc, len(data))


@group(quick=24, thorough=240, weight=2)
def crash(c):
    """The process is killed at every line in turn; then the file is created again."""
    kind, data, base, name, final, old, bystander = setting(c, ("plain", "h5"))
    before = state(final)
    listing = set(os.listdir(base))
    c.note(kind=kind, name=name, old=bool(old))

    def work():
        with lock_file(final) as fn:
            BODIES[kind](fn, data, lambda i: None)

    k, published, points = 0, False, 0
    while True:
        # Restore the starting point
        for f in set(os.listdir(base)) - listing:
            fileformats.remove_file_or_dir(os.path.join(base, f))
        if published:
            os.remove(final) if os.path.exists(final) else None
            if old is not None:
                BODIES[kind](final, old, lambda i: None)
            before = state(final)
        pid = os.fork()
        if pid == 0:
            n = [0]

            def die():
                if n[0] == k:
                    os._exit(7)
                n[0] += 1

            try:
                watch(work, die)
                os._exit(0)
            except BaseException:  # noqa: BLE001
                os._exit(3)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        c.check(code in (0, 7), f"creation failed with status {code}")
        s = state(final)
        published = intact(kind, final, data)
        c.check(s == before or published, f"killed at point {k}: the final name holds neither the previous nor the complete new content")
        if code == 0:
            c.check(published, "completed without publishing")
            c.check(set(os.listdir(base)) == listing | {name}, f"left behind: {os.listdir(base)}")
            break
        # After the crash the same file can be created again
        work()
        c.check(intact(kind, final, data), f"killed at point {k}: the next attempt did not publish")
        c.check(set(os.listdir(base)) == listing | {name}, f"left behind: {os.listdir(base)}")
        published = True
        k += 1
        points += 1
    c.count("crash_points", points)
    c.nontrivial(kind, name, bool(old), len(data), points)


@group(quick=100, thorough=1500)
def together(c):
    """Several files created at the same time, with similar names, do not affect each other."""
    names = ["out.h5", "out.zarr", "out", "out.h5.gz", "ou", "tuo.h5", "a.out.h5", "out.tmp", "OUT.h5"]
    c.rng.shuffle(names)
    names = names[: c.int(2, 5)]
    base = os.path.join(c.tmp, "t")
    os.makedirs(base)
    locks, todo, want, log = {}, [], {}, []
    for n in names:
        if c.chance(0.4):
            want[n] = "old " + n
            with open(os.path.join(base, n), "w") as fh:
                fh.write(want[n])
        locks[n] = lock_file(os.path.join(base, n))
    fail = {n: c.chance(0.25) for n in names}
    steps = {n: ["enter", "write", "write", "exit"] for n in names}
    files = {}
    while any(steps.values()):
        n = c.pick([k for k in names if steps[k]])
        s = steps[n].pop(0)
        log.append((n, s, fail[n]))
        if s == "enter":
            files[n] = locks[n].__enter__()
        elif s == "write":
            with open(files[n], "a") as fh:
                fh.write(f"new {n};")
        elif fail[n]:
            locks[n].__exit__(Boom, Boom("x"), None)
        else:
            locks[n].__exit__(None, None, None)
            want[n] = f"new {n};" * 2
        have = {}
        for k in names:
            p = os.path.join(base, k)
            if os.path.exists(p):
                with open(p) as fh:
                    have[k] = fh.read()
        c.check(have == want, f"after {log}: {have}, expected {want}")
        todo.append(len(have))
    c.check(sorted(os.listdir(base)) == sorted(want), f"left behind {os.listdir(base)}")
    c.note(log=log)
    c.nontrivial(str(log))


@group(quick=60, thorough=600, mpi=(2, 3))
def parts(c):
    """Every part of the ranks creates its own file."""
    part = [c.int(0, 1) for _ in range(c.size)]
    rev = c.chance(0.5)
    sub = c.comm.Split(part[c.rank], -c.rank if rev else c.rank)
    base = os.path.join(c.tmp, "p")
    if c.rank == 0:
        os.makedirs(base)
    c.comm.Barrier()
    fail = c.pick([None, None, 0, 1])
    c.note(part=part, fail=fail)
    final = os.path.join(base, f"out{part[c.rank]}")
    try:
        with lock_file(final, comm=sub) as fn:
            if sub.rank == 0:
                with open(fn, "w") as fh:
                    fh.write(f"part {part[c.rank]}")
            sub.Barrier()
            if fail == part[c.rank]:
                raise Boom
    except Boom:
        pass
    c.comm.Barrier()
    want = {f"out{k}" for k in set(part) if k != fail}
    c.check(set(os.listdir(base)) == want, f"files {os.listdir(base)}, expected {want}")
    for k in want:
        with open(os.path.join(base, k)) as fh:
            c.check(fh.read() == f"part {k[-1]}", f"contents of {k}")
    c.comm.Barrier()
    sub.Free()
    c.nontrivial(str(part), fail, rev)


@group(quick=60, thorough=600, mpi=(2, 3))
def ranks(c):
    """With a communicator only its first rank creates the lock and publishes."""
    comm = c.comm
    base = os.path.join(c.tmp, "r")
    if c.rank == 0:
        os.makedirs(base)
    comm.Barrier()
    final = os.path.join(base, "out.dat")
    fail = c.pick([None, None, "zero", "other"])
    preserve = c.chance(0.3)
    c.note(fail=fail, preserve=preserve)
    lf = lock_file(final, preserve=preserve, comm=comm)
    fn = lf.__enter__()
    names = comm.allgather(fn)
    c.check(len(set(names)) == 1, f"ranks use different temporary files {names}")
    comm.Barrier()
    if c.rank == 0:
        with open(fn, "w") as fh:
            fh.write("complete")
        n = len(os.listdir(base))
        c.check(n == 2, f"expected the temporary file and one lock, found {os.listdir(base)}")
    comm.Barrier()
    # The other ranks leave first, possibly with an error
    if c.rank != 0:
        e = Boom("x") if fail == "other" else None
        c.check(not lf.__exit__(type(e) if e else None, e, None), "errors must not be swallowed")
    comm.Barrier()
    c.check(not os.path.exists(final), "another rank published the file")
    c.check(os.path.exists(fn) and len(os.listdir(base)) == 2, f"another rank removed files: {os.listdir(base)}")
    comm.Barrier()
    if c.rank == 0:
        e = Boom("x") if fail == "zero" else None
        c.check(not lf.__exit__(type(e) if e else None, e, None), "errors must not be swallowed")
    comm.Barrier()
    want = {"out.dat"} if fail != "zero" else ({os.path.basename(fn)} if preserve else set())
    c.check(set(os.listdir(base)) == want, f"left behind: {os.listdir(base)}, expected {want}")
    comm.Barrier()
    c.raises(ValueError, lock_file, final, comm="notacomm", msg="not a communicator")
    c.nontrivial(fail, preserve, c.size)


@group(quick=120, thorough=1500)
def written(c):
    """Group tasks write their output through the lock; existing files are replaced whole."""
    src = c.pick(["mem", "mem", "h5", "h5sub", "h5same", "zarr", "zarrsub"])
    fmt = "zarr" if src.startswith("zarr") or (src == "mem" and c.chance(0.4)) else "h5"
    base = os.path.join(c.tmp, "w")
    target = os.path.join(base, *(["new"] if c.chance(0.4) else []), "out." + fmt)
    data = {f"d{i}": rand_array(c.rng, (c.int(1, 5), 2), c.pick(["f8", "i4", "c8"])) for i in range(c.int(1, 3))}
    g = MemGroup()
    for n, a in data.items():
        d = g.create_dataset("grp/" + n, data=a)
        d.attrs["u"] = n
    g.attrs["x"] = 1
    g["grp"].attrs["y"] = {"k": [1, 2]}
    sub = src.endswith("sub")
    ff = fileformats.Zarr if fmt == "zarr" else fileformats.HDF5
    if src == "mem":
        obj = g
    else:
        p = os.path.join(c.tmp, "src." + fmt)
        if src == "h5same":
            os.makedirs(os.path.dirname(target))
            p = target
        g.to_file(p, file_format=ff)
        obj = h5py.File(p, "r+") if fmt == "h5" else zarr.open_group(p)
        if src == "h5same":
            data["later"] = np.arange(3.0)
            obj["grp"].create_dataset("later", data=data["later"]).attrs["u"] = "later"
        if sub:
            obj = obj["grp"]
    existing = src in ("mem", "h5", "h5sub") and c.chance(0.5)
    if existing:
        os.makedirs(os.path.dirname(target), exist_ok=True)
        o = MemGroup()
        o.create_dataset("old", data=np.arange(4))
        o.to_file(target, file_format=ff)
    before = state(target)
    seen = []

    def observe():
        s = state(target)
        if not seen or seen[-1] != s:
            seen.append(s)
        c.count("observations")

    kw = {"file_format": ff} if c.chance(0.3) else {}
    rel = c.chance(0.2) and os.path.dirname(target) == base
    c.note(src=src, fmt=fmt, existing=existing, kw=bool(kw), rel=rel)
    cwd = os.getcwd()
    try:
        arg = target
        if rel:
            os.makedirs(base, exist_ok=True)
            os.chdir(base)
            arg = os.path.basename(target)
        if src == "h5same" or src.startswith("zarr"):
            GroupIOMixin.write_output(arg, obj, **kw)
        else:
            watch(lambda: GroupIOMixin.write_output(arg, obj, **kw), observe)
    finally:
        os.chdir(cwd)
    if src.startswith("h5"):
        obj.file.close()
    after = state(target)
    ok = {before, after} | ({None} if fmt == "zarr" else set())
    if src not in ("h5same", "zarr", "zarrsub"):
        c.check(set(seen) <= ok, "the output name held something other than the previous or the complete content")
        c.check(os.listdir(os.path.dirname(target)) == [os.path.basename(target)], f"left behind {os.listdir(os.path.dirname(target))}")
    y = GroupIOMixin.read_output(target) if c.chance(0.5) else GroupIOMixin.read_input(target)
    top = y if sub else y["grp"]
    c.check(sorted(top) == sorted(data), f"written entries {sorted(top)}")
    for n, a in data.items():
        c.same(top[n][:], a, f"written {n}")
        c.check(top[n].attrs["u"] == n, f"attributes of {n}")
    c.check(top.attrs["y"] == {"k": [1, 2]}, f"attributes {dict(top.attrs)}")
    if not sub:
        c.check(sorted(y) == ["grp"] and y.attrs["x"] == 1, f"top level {sorted(y)} {dict(y.attrs)}")
    c.nontrivial(src, fmt, existing, rel, len(data))


@group(quick=60, thorough=400)
def remove(c):
    """Removing a file or directory removes exactly that."""
    base = os.path.join(c.tmp, "a", "b", "c")
    os.makedirs(base)
    keep = ["keep", "target2", "targe"]
    for k in keep:
        with open(os.path.join(base, k), "w") as fh:
            fh.write(k)
    t = os.path.join(base, "target")
    kind = c.pick(["file", "dir", "deep", "missing"])
    if kind == "file":
        with open(t, "w") as fh:
            fh.write("x")
    elif kind != "missing":
        os.makedirs(os.path.join(t, "x", "y") if kind == "deep" else t)
        if kind == "deep":
            with open(os.path.join(t, "x", "f"), "w") as fh:
                fh.write("x")
    fileformats.remove_file_or_dir(t)
    c.check(not os.path.exists(t), f"{kind} still exists")
    c.check(sorted(os.listdir(base)) == sorted(keep), f"left {os.listdir(base)}")
    c.nontrivial(kind)
