"""Writes known_findings.txt from /repo's fix commits (run by hand, not by a check)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # keyword in the subject -> property
    "one element array attributes": "C09", "copy_datasets_filter": "C10", "redistributed datasets could not be copied": "C09",
    "redistribute accepted negative axes": "C10", "dictionary attributes could not be copied": "C07", "bitshuffle": "C07",
    "malformed name": "C06", "distribution hints": "C07", "lives on disk": "C07", "unknown container class": "C07",
    "did not close HDF5": "C06", "selection of a chunked dataset": "C07", "copying a subgroup": "C08",
    "converting a dataset to distributed": "C06", "numpy scalars inside dictionary": "C07", "selections were ignored when copying": "C07",
    "path lookups": "C06", "stray lock dir": "C07", "reshaping an MPIArray": "C02", "transposed MPIArrays": "C02",
    "negative distributed axes": "C02", "strided global_slice": "C04", "negative and numpy integer": "C04", "empty selections": "C05",
    "accumulating over": "C03", "gather scrambled": "C02", "parallel row writes": "C27", "gather_local": "C27",
    "string dtype conversion": "C29", "invert_no_zero": "C20", "MultithreadedRNG": "C22", "FFTW": "C23", "moving weighted median": "C18",
    "weighted quantile read": "C17", "undefined negative shift": "C21", "float truncation flushed": "C19", "bit_truncate_weights zeroed": "C19",
}
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))
try:
    from findings_extra import MORE, KNOWN
except ImportError:
    MORE, KNOWN = {}, []
MAP.update(MORE)
out = [
    "# Genuine defects of radiocosmology/caput found by the checks.",
    "# fixed: property=<id> <commit> <what failed>        repaired in /repo; suppresses nothing",
    "# known: property=<id> key=<key> <what fails>        not repaired; reported as KNOWN-FINDING",
    *[f"known: property={p} key={k} {w}" for p, k, w in KNOWN],
]
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [v for k, v in MAP.items() if k in s]
    assert len(p) == 1, (s, p)
    out.append(f"fixed: property={p[0]} {h} {s[5:]}")
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
