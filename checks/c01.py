"""C01 work partitioning."""

import numpy as np

from vf.core import group

from caput.util import arraytools, mpitools

RULE = (
    "random (items, parts) pairs incl. parts > items, 0 items and huge ranges; a case is "
    "non-trivial when there is more than one part; distinct by (n, m, method, list)"
)
ASSUMPTIONS = ["random partitioning is given the same generator state on every rank"]


def _n(c):
    return c.pick([0, 1, 2, 3, c.int(0, 20), c.int(0, 300), c.int(0, 5000)])


@group(quick=600, thorough=20000)
def split(c):
    """split_m: m consecutive, disjoint, balanced sub-ranges that cover [0, n)."""
    n = _n(c) if not c.chance(0.1) else c.int(0, 2**40)
    m = c.pick([1, 2, 3, c.int(1, 16), c.int(1, 200)])
    c.note(n=n, m=m)
    p = np.asarray(arraytools.split_m(n, m))
    c.check(p.shape == (3, m), f"split_m({n},{m}) has shape {p.shape}")
    num, start, stop = (list(map(int, r)) for r in p)
    pos = 0
    for i in range(m):
        c.check(start[i] == pos, f"split_m({n},{m}) range {i} starts at {start[i]}, expected {pos}")
        c.check(stop[i] - start[i] == num[i] >= 0, f"split_m({n},{m}) range {i} inconsistent")
        pos = stop[i]
    c.check(pos == n, f"split_m({n},{m}) ends at {pos}")
    c.check(max(num) - min(num) <= 1, f"split_m({n},{m}) unbalanced {min(num)}..{max(num)}")
    if m > 1:
        c.nontrivial(n, m)
    c.count("subranges", m)


@group(quick=600, thorough=20000)
def lists(c):
    """partition_list: parts are disjoint, complete, balanced, in order; same object contents."""
    n = c.pick([0, 1, 2, c.int(0, 12), c.int(0, 200)])
    m = c.pick([1, 2, 3, c.int(1, 9), c.int(1, 40)])
    method = c.pick(["con", "alt", "rand"])
    full = [("item", int(x)) for x in c.rng.integers(0, max(1, n // 2 + 1), n)]
    if c.chance(0.2):
        full = tuple(full)
    c.note(n=n, m=m, method=method)
    orig = list(full)
    state = np.random.get_state()
    seed = c.int(0, 2**31)
    parts = []
    try:
        for i in range(m):
            np.random.seed(seed)
            parts.append(list(arraytools.partition_list(full, i, m, method=method)))
    finally:
        np.random.set_state(state)
    c.check(list(full) == orig, "partition_list changed the list it was given")
    joined = [x for p in parts for x in p]
    c.check(sorted(joined) == sorted(orig), f"{method}: parts {parts} do not make up {orig}")
    sizes = [len(p) for p in parts]
    c.check(max(sizes) - min(sizes) <= 1, f"{method}: part sizes {sizes} are not balanced")
    if method == "con":
        c.check(joined == orig, f"contiguous parts {parts} are not in order")
    if method == "alt":
        for i, p in enumerate(parts):
            c.check(p == orig[i::m], f"alternating part {i} is {p}")
    if c.chance(0.1):
        c.raises(ValueError, arraytools.partition_list, full, 0, m, method="xyz", msg="unknown method")
    if m > 1:
        c.nontrivial(n, m, method, orig)


@group(quick=150, thorough=2000, mpi=(1, 2, 3, 4, 5))
def ranks(c):
    """split_all/split_local/mpirange/partition_list_mpi agree over ranks and form a partition."""
    comm = c.comm
    n = c.pick([0, 1, 2, 3, c.int(0, 12), c.int(0, 500)])
    c.note(n=n, size=c.size)
    allp = np.asarray(mpitools.split_all(n, comm=comm))
    ref = arraytools.split_m(n, c.size)
    c.same(allp, ref, "split_all", dtype=False)
    loc = np.asarray(mpitools.split_local(n, comm=comm))
    gath = comm.allgather([int(x) for x in loc])
    c.check(gath == np.asarray(ref).T.tolist(), f"split_local over ranks {gath} != {ref.T.tolist()}")

    args = c.pick([(n,), (c.int(-5, 5), n), (c.int(-5, 5), n, c.int(1, 4)), (n, -3, -2)])
    method = c.pick(["con", "alt", "rand"])
    seed = c.int(0, 2**31)
    np.random.seed(seed)
    mine = list(mpitools.mpirange(*args, method=method, comm=comm))
    parts = comm.allgather(mine)
    full = list(range(*args))
    joined = [x for p in parts for x in p]
    c.check(sorted(joined) == sorted(full), f"mpirange{args} {method}: {parts} is not a partition")
    if method == "con":
        c.check(joined == full, f"mpirange{args}: {parts} not in rank order")
    elif method == "alt":
        c.check(mine == full[c.rank :: c.size], f"mpirange{args}: {parts} not alternating")
    sz = [len(p) for p in parts]
    c.check(max(sz) - min(sz) <= 1, f"mpirange{args} {method}: sizes {sz}")

    lst = [f"i{k}" for k in range(n)]
    np.random.seed(seed)
    parts = comm.allgather(list(mpitools.partition_list_mpi(lst, method=method, comm=comm)))
    joined = [x for p in parts for x in p]
    c.check(sorted(joined) == sorted(lst), f"partition_list_mpi {method}: {parts}")
    if method == "con":
        c.check(joined == lst, f"partition_list_mpi: {parts} not in rank order")
    # On a sub-communicator the partition is over its members only
    if c.size >= 2:
        sub = comm.Split(c.rank % 2, c.rank)
        np.random.seed(seed)
        parts = sub.allgather(list(mpitools.partition_list_mpi(lst, method=method, comm=sub)))
        joined = [x for p in parts for x in p]
        c.check(sorted(joined) == sorted(lst), f"sub-communicator {method}: {parts}")
        loc = mpitools.split_local(n, comm=sub)
        want = arraytools.split_m(n, sub.size)[:, sub.rank]
        c.same(loc, want, "split_local on a sub-communicator", dtype=False)
        sub.Free()
    if c.size > 1:
        c.nontrivial(n, args, method)


@group(quick=120, thorough=1500, mpi=(1, 2, 3, 4, 5))
def pmap(c):
    """parallel_map: each item evaluated exactly once over all ranks; results in list order."""
    comm = c.comm
    n = c.pick([0, 1, 2, 3, c.int(0, 12), c.int(0, 60)])
    method = c.pick(["con", "alt", "rand"])
    root = c.pick([None, 0, c.size - 1])
    items = [int(x) for x in c.rng.integers(0, 5, n)]
    kind = c.pick(["int", "array", "none", "tuple"])
    c.note(n=n, method=method, root=root, kind=kind)
    calls = []

    def out(x):
        return {"int": x * 3 + 1, "array": np.arange(x), "none": None, "tuple": (x, "a")}[kind]

    class Item:
        def __init__(self, pos, v):
            self.pos, self.v = pos, v

    its = [Item(i, v) for i, v in enumerate(items)]

    def func(it):
        calls.append(it.pos)
        return out(it.v)

    np.random.seed(c.int(0, 2**31))
    res = mpitools.parallel_map(func, its, root=root, method=method, comm=comm)
    allcalls = sorted(x for p in comm.allgather(calls) for x in p)
    c.check(allcalls == list(range(n)), f"{method}: items evaluated {allcalls}, expected each of {n} once")
    want = {"con": [k for k, m in enumerate(np.asarray(arraytools.split_m(n, c.size))[0]) for _ in range(m)], "alt": [k % c.size for k in range(n)]}
    if method in want:
        c.check(sorted(calls) == [k for k in range(n) if want[method][k] == c.rank], f"{method}: rank {c.rank} of {c.size} evaluated {calls} of {n}")
    c.count("calls", len(calls))
    if root is None or root == c.rank or c.size == 1:
        c.check(isinstance(res, list) and len(res) == n, f"result {res!r}")
        for r, v in zip(res, items):
            w = out(v)
            ok = np.array_equal(r, w) if kind == "array" else r == w
            c.check(ok, f"result {r!r} != {w!r} (not in list order?)")
    else:
        c.check(res is None, f"rank without the results got {res!r}")
    if c.size > 1 and n > 0:
        c.nontrivial(n, method, root, kind, items)
