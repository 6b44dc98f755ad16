"""Runs a range of cases of one group; under mpirun every rank runs this."""

import argparse
import faulthandler
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("group")
    ap.add_argument("start", type=int)
    ap.add_argument("stop", type=int)
    ap.add_argument("step", type=int)
    ap.add_argument("out")
    ap.add_argument("--mpi", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--deadline", type=float, default=600)
    a = ap.parse_args()

    comm = None
    rank = 0
    if a.mpi:
        rank = int(os.environ.get("OMPI_COMM_WORLD_RANK", "0"))

    dump = open(os.path.join(a.out, f"stack.{rank}"), "a")
    faulthandler.register(signal.SIGUSR1, file=dump, all_threads=False, chain=False)
    with open(os.path.join(a.out, f"pid.{rank}"), "w") as f:
        f.write(str(os.getpid()))
    prog = os.open(os.path.join(a.out, f"prog.{rank}"), os.O_CREAT | os.O_RDWR)
    res = open(os.path.join(a.out, f"res.{rank}"), "a", buffering=1)

    def progress(idx, state):
        os.pwrite(prog, f"{idx:10d} {state:1s} {time.monotonic():.3f}\n".ljust(40).encode(), 0)

    def emit(**kw):
        res.write(json.dumps(kw, default=str) + "\n")
        res.flush()

    progress(a.start, "i")

    from . import core, jitter, native

    native.install()
    if a.mpi:
        from mpi4py import MPI

        comm = MPI.COMM_WORLD.Dup()
        if comm.size != a.mpi:
            emit(type="error", msg=f"communicator has size {comm.size}, wanted {a.mpi}")
            sys.exit(4)
        turned = comm.Split(0, -comm.rank)

    try:
        mod = importlib.import_module(f"checks.{a.check.lower()}")
    except Exception:  # noqa: BLE001
        # The code under test cannot even be imported.
        emit(type="import", msg=traceback.format_exc()[-3000:])
        res.close()
        if comm is not None:
            os._exit(3)
        sys.exit(3)

    g = core.groups_of(mod)[a.group]
    t0 = time.monotonic()
    for idx in range(a.start, a.stop, a.step):
        if comm is None:
            late = time.monotonic() - t0 > a.deadline
        else:
            late = comm.bcast(time.monotonic() - t0 > a.deadline, root=0)
        if late:
            emit(type="deadline", idx=idx)
            break
        progress(idx, "r")
        tmp = os.path.join(a.out, f"case{idx}")
        if rank == 0:
            os.makedirs(tmp, exist_ok=True)
        if comm is not None:
            comm.Barrier()
        size = a.mpi or 0
        c = core.Case(
            core.case_rng(a.seed, a.check, a.group, size, idx), idx, tmp, turned if g.turn and size > 1 and idx % 4 == 2 else comm, a.tier
        )
        slow = size > 1 and idx % 3 == 1
        if slow:
            jitter.start(f"{a.seed}/{a.check}/{a.group}/{size}/{idx}", rank, size)
        try:
            try:
                g.fn(c)
            finally:
                if slow:
                    c.count("injected delays", jitter.stop())
        except core.Inconclusive as e:
            emit(type="inconclusive", idx=idx, msg=str(e), desc=c.desc)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, core.Violation):
                msg, key = str(e), e.key
            else:
                msg, key = f"unexpected {type(e).__name__}: {e}", getattr(e, "vf_key", None)
            emit(
                type="violation",
                idx=idx,
                rank=rank,
                msg=msg[:2000],
                key=key,
                desc=c.desc,
                tb=traceback.format_exc()[-3500:],
            )
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            if comm is not None:
                # The other ranks may be inside a collective this rank has left.
                res.close()
                getattr(time, "_vf_sleep", time.sleep)(2.0)
                comm.Abort(7)
        else:
            emit(type="ok", idx=idx, key=c._key, evals=c.evals, events=c.events, desc=c.desc)
        progress(idx, "d")
        if comm is not None:
            comm.Barrier()
        if rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)
    progress(a.stop, "e")
    emit(type="done")
    res.close()


if __name__ == "__main__":
    main()
