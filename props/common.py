"""Shared by the properties: swarm-style simulation settings, checks, shrinking helpers."""

import copy

import numpy as np

from sim.core import Sim
from sim.driver import Violation

REAL_LIB = ["impurityModel.ed.* (every module the run touches, one copy per simulated rank)", "numpy", "scipy", "bitarray"]
REAL_JOB = ["impurityModel.ed.get_spectra / get_spectra_using_CF as __main__, and all modules they import", "numpy",
            "scipy", "h5py/HDF5 on a scratch directory", "sympy (values of gaunt() remembered between runs)", "bitarray"]
STUB = ["MPI (simulated communicator, network and scheduler)", "clocks", "iteration order of sets (per-rank hash seed)",
        "starting vector and phase/degeneracy choices of the eigensolver"]
STUB_JOB = STUB + ["print (captured; EPIPE on request)", "np.linspace mesh sizes (knob: fewer points)"]
ASSUME = ["The simulated MPI matches the MPI standard for the calls used; arithmetic of numpy/scipy is trusted.",
          "A clean batch is evidence from sampling, not proof."]


def sim_spec(rng, nranks, faults=True, perturb_eig=None, kinds=("stall", "clock_jump"), horizon=80):
    """One swarm configuration: policy, message synchrony, hash seeds, benign faults."""
    spec = {
        "seed": rng.getrandbits(40),
        "policy": rng.choice(Sim.POLICIES),
        "p_sync": rng.choice([0.0, 0.1, 0.5, 1.0]),
        "hash_salts": True,
        "faults": [],
    }
    if perturb_eig is not None:
        spec["perturb_eig"] = perturb_eig
    if faults and nranks > 1:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if "stall" in kinds:
                spec["faults"].append({"kind": "stall", "rank": rng.randrange(nranks), "at": rng.randrange(horizon),
                                       "len": rng.choice([5, 40, 200, 2000])})
    if faults and "clock_jump" in kinds and rng.random() < 0.5:
        spec["faults"].append({"kind": "clock_jump", "rank": rng.randrange(nranks), "at": rng.randrange(1, horizon),
                               "by": rng.choice([-1e6, -3600.0, -1.0, 1e7])})
    return spec


def pick_ranks(rng, top=8):
    if top >= 8 and rng.random() < 0.01:
        return rng.choice([12, 16, 17, 24])
    return rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8][: 10 if top >= 8 else top + 2])


def earlier_use(rng, op, restr=None, p=0.35):
    """An unrelated earlier calculation in the same process: the same processes, other strengths, partly other limits."""
    if rng.random() >= p:
        return None
    f = rng.choice([-0.5, 2.0, 3.0])
    return {"op": [[q, [x * f for x in v]] for q, v in op], "restr": restr if rng.random() < 0.7 else None}


def without_earlier_use(case):
    if case.get("before"):
        c = copy.deepcopy(case)
        c["before"] = None
        yield c


def require_clean(o, what):
    """A job without injected failures must end by itself, without error, with matched communication."""
    if o.misuse:
        raise Violation("mpi-misuse", f"{what}: {o.describe()}")
    if o.hang and not o.errors:
        raise Violation("deadlock", f"{what}: {o.describe()}")
    if o.errors:
        r = min(o.errors)
        raise Violation(f"exception-{type(o.errors[r]).__name__}", f"{what}: {o.describe()}")
    if o.overrun:
        raise Violation("no-progress", f"{what}: {o.describe()}")
    if o.leftover:
        raise Violation("unreceived-messages", f"{what}: {o.describe()}")
    if o.bad:
        raise Violation("not-finished", f"{what}: {o.describe()}")


def dense(h):
    return np.asarray(h.toarray() if hasattr(h, "toarray") else h)


def close(a, b, tol, cls, what):
    """|a-b| <= tol * scale elementwise (tol an array: absolute, per element); NaN never passes."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(cls, f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return 0.0
    scale = max(1.0, float(np.max(np.abs(b))))
    d = np.abs(a - b)
    lim = tol if np.ndim(tol) else np.full(a.shape, tol * scale)
    if not np.all(np.isfinite(d)) or (d > lim).any():
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d - np.where(np.isfinite(lim), lim, 1e300), np.inf))), a.shape)
        raise Violation(cls, f"{what}: at {tuple(int(x) for x in i)} got {a[i]}, expected {b[i]} (tolerance {lim[i]:.3g})")
    return float(np.max(d)) / scale


def drop_items(case, path, keep_min=0):
    """Cases with parts of the list at path removed."""
    def get(c):
        for k in path:
            c = c[k]
        return c

    lst = get(case)
    if not isinstance(lst, list):
        return
    n = len(lst)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            if n - len(lst[i:i + size]) < keep_min:
                continue
            c = copy.deepcopy(case)
            del get(c)[i:i + size]
            yield c
        if size == 1:
            break
        size //= 2


def drop_hermitian_pairs(case, path):
    """Remove one process together with its adjoint, so that the operator stays Hermitian."""
    def get(c):
        for k in path:
            c = c[k]
        return c

    lst = get(case)
    done = set()
    for i, (p, _v) in enumerate(lst):
        if i in done:
            continue
        adj = [[x, "c" if k == "a" else "a"] for x, k in reversed(p)]
        idx = {j for j, (q, _w) in enumerate(lst) if q == adj} | {i}
        done |= idx
        c = copy.deepcopy(case)
        g = get(c)
        g[:] = [x for j, x in enumerate(g) if j not in idx]
        yield c
