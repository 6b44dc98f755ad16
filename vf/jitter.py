"""Injected delays: ranks pause at random lines of the code under test.

Correct code does not depend on how fast the ranks run relative to each other; a missing barrier, a
message matched by luck or a file removed too early only shows when one of them falls behind.
"""

import os
import random
import sys
import time

from . import native

TOOL = 4
_state = None
_ready = False
REAL = getattr(time, "_vf_sleep", time.sleep)


def _line(code, line):
    if not code.co_filename.startswith(_prefix):
        return sys.monitoring.DISABLE
    st = _state
    if st is not None and st["left"] > 0 and os.getpid() == st["pid"] and st["rng"].random() < st["p"]:
        d = st["rng"].choice((0.0005, 0.002, 0.006, 0.012))
        st["left"] -= d
        st["n"] += 1
        REAL(d)
    return None


def start(seed, rank, size, budget=0.05):
    """Begin to delay this rank (or not: each rank decides for itself)."""
    global _state, _ready, _prefix
    rng = random.Random(f"{seed}/{rank}")
    mon = sys.monitoring
    if not _ready:
        _prefix = os.path.join(os.path.realpath(native.REPO), "caput") + os.sep
        if not os.path.exists(_prefix):
            _prefix = os.path.join(native.REPO, "caput") + os.sep
        if mon.get_tool(TOOL) is not None:
            return
        mon.use_tool_id(TOOL, "vf-jitter")
        mon.register_callback(TOOL, mon.events.LINE, _line)
        _ready = True
    if rng.random() < 0.4:
        _state = None
        return
    _state = {"rng": rng, "p": rng.choice((0.01, 0.03, 0.1)), "left": budget, "n": 0, "pid": os.getpid()}
    mon.set_events(TOOL, mon.events.LINE)


def stop():
    """End the delays; returns how many there were."""
    global _state
    if _ready:
        sys.monitoring.set_events(TOOL, 0)
    n = _state["n"] if _state else 0
    _state = None
    return n
