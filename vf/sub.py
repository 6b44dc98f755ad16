"""Runs a script in processes of its own, plain or under mpirun, on the same code."""

import os
import signal
import subprocess
import sys
import tempfile

from .driver import MPI_CMD

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = f"import sys\nsys.path.insert(0, {VERIF!r})\nfrom vf import native\nnative.install()\n"


def _end(pid, path):
    """Ends what is left of the processes started for `path`."""
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    for q in os.listdir("/proc"):
        if q.isdigit():
            try:
                with open(f"/proc/{q}/cmdline", "rb") as f:
                    if path.encode() in f.read().split(b"\0"):
                        os.kill(int(q), signal.SIGKILL)
            except OSError:
                pass


def run(script, tmp, np=0, timeout=60, argv=(), env=None, cwd=None):
    """Returns (exit status, output, timed out)."""
    path = os.path.join(tmp, "script.py")
    with open(path, "w") as f:
        f.write(HEAD + script)
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PMI_", "ORTE_"))}
    # short names for the sockets of mpirun
    short = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", TMPDIR=short, **(env or {}))
    cmd = [*(MPI_CMD + ["-np", str(np)] if np else []), sys.executable, path, *argv]
    out = os.path.join(tmp, "output")
    late = False
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=cwd or tmp, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            late = True
        finally:
            if late:
                p.terminate()
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    pass
            _end(p.pid, path)
            p.wait()
            subprocess.run(["rm", "-rf", short], check=False)
    with open(out, errors="replace") as f:
        return p.returncode, f.read(), late
