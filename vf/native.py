"""Build caput's four Cython extensions from the *current* /repo tree.

Nothing is written in /repo: sources are copied to a scratch directory and the
results are cached in /verif/.build/<kind>-<module>-<hash>.so, keyed by the content
of every file that can influence the extension.  A meta-path finder then makes the
`caput.*` extension names resolve to those objects, whatever lies in /repo.
"""

import fcntl
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODULES = {
    "caput.algorithms.median.weighted": ("caput/algorithms/median/weighted.pyx", True),
    "caput.util.truncate": ("caput/util/truncate.pyx", False),
    "caput.astro.coordinates._spherical": (
        "caput/astro/coordinates/_spherical.pyx",
        False,
    ),
    "caput.algorithms._invert_no_zero._invert_no_zero": (
        "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx",
        False,
    ),
}

# The repository's own flags (setup.py), and the sanitizer build.
FLAGS = {
    "opt": [
        "-flto",
        "-O3",
        "-fno-math-errno",
        "-fno-trapping-math",
        "-fopenmp",
        "-march=native",
    ],
    # For checks which are not about the native code: quick to build
    "fast": ["-O1", "-fno-math-errno", "-fno-trapping-math", "-fopenmp"],
    # float-cast-overflow is deliberately absent: the truncation routines rely on the
    # x86 "integer indefinite" value and the property is about the result, not the cast.
    "asan": [
        "-O1",
        "-g",
        "-fno-omit-frame-pointer",
        "-fno-math-errno",
        "-fno-trapping-math",
        "-fopenmp",
        "-fsanitize=address,undefined",
        "-fno-sanitize-recover=undefined",
        # Truncation shifts negative mantissas left on purpose (defined by gcc)
        "-fno-sanitize=shift-base",
    ],
}


def _build_dir():
    for d in (os.path.join(VERIF, ".build"), os.path.join(tempfile.gettempdir(), "vf-build")):
        try:
            os.makedirs(d, exist_ok=True)
            tempfile.TemporaryFile(dir=d).close()
            return d
        except OSError:
            continue
    raise RuntimeError("no writable build directory")


def _source_files(relpyx):
    """Everything next to the pyx file which may be included or cimported."""
    d = os.path.join(REPO, os.path.dirname(relpyx))
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith((".pyx", ".pxd", ".pxi", ".hpp", ".h")):
            out.append(os.path.join(d, f))
    return out


def digest(name, kind):
    rel, _ = MODULES[name]
    h = hashlib.sha256()
    h.update(repr((2, kind, FLAGS[kind], sys.version, name)).encode())
    for f in _source_files(rel):
        h.update(os.path.basename(f).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _compile(name, kind, target):
    import numpy

    rel, cpp = MODULES[name]
    tmp = tempfile.mkdtemp(prefix="vf-native-")
    try:
        # Keep the package layout (relative include and cimport lookups depend on it)
        pkgdir = os.path.join(tmp, os.path.dirname(rel))
        os.makedirs(pkgdir)
        parts = os.path.dirname(rel).split("/")
        for i in range(len(parts)):
            open(os.path.join(tmp, *parts[: i + 1], "__init__.py"), "w").close()
        for f in _source_files(rel):
            shutil.copy(f, pkgdir)
        ext = "cpp" if cpp else "c"
        csrc = os.path.join(tmp, rel[:-3] + ext)
        cmd = [sys.executable, "-m", "cython", "-3", rel, "-o", csrc]
        if cpp:
            cmd.insert(4, "--cplus")
        r = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"cython failed for {name}:\n{r.stderr[-3000:]}")
        # gnu89 inline semantics: a routine the optimiser leaves out of line still links
        cc = ["g++", "-std=c++11"] if cpp else ["gcc", "-fgnu89-inline"]
        out = os.path.join(tmp, "out.so")
        cmd = [
            *cc,
            "-shared",
            "-fPIC",
            "-w",
            *FLAGS[kind],
            "-I" + sysconfig.get_paths()["include"],
            "-I" + numpy.get_include(),
            "-I" + pkgdir,
            csrc,
            "-o",
            out,
        ]
        r = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"compiler failed for {name}:\n{r.stderr[-3000:]}")
        os.makedirs(os.path.dirname(target), exist_ok=True)
        part = target + f".{os.getpid()}"
        shutil.copy(out, part)
        os.replace(part, target)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ensure(name, kind="opt"):
    """Return the path of an up to date shared object for one extension."""
    bdir = _build_dir()
    target = os.path.join(bdir, f"{kind}-{name.rsplit('.', 1)[1]}-{digest(name, kind)}.so")
    if os.path.exists(target):
        return target
    lock = target + ".lock"
    with open(lock, "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        try:
            if not os.path.exists(target):
                _compile(name, kind, target)
        finally:
            fcntl.flock(lf, fcntl.LOCK_UN)
    try:
        os.remove(lock)
    except OSError:
        pass
    return target


def ensure_all(kind="opt", names=None):
    names = list(names or MODULES)
    with ThreadPoolExecutor(len(names)) as ex:
        return dict(zip(names, ex.map(lambda n: ensure(n, kind), names)))


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, kind):
        self.kind = kind

    def find_spec(self, fullname, path, target=None):
        if fullname not in MODULES:
            return None
        so = ensure(fullname, self.kind)
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def install(kind=None):
    """Make caput importable from /repo with freshly built extensions."""
    kind = kind or os.environ.get("VF_NATIVE", "fast")
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(kind))
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


if __name__ == "__main__":
    for k in sys.argv[1:] or ["opt"]:
        for n, p in ensure_all(k).items():
            print(n, p)
