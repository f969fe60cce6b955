"""All ranks proceed with one and the same, correct, set of low-energy eigenstates."""

import numpy as np

from sim import gen, ref
from sim.driver import Violation

from .common import (ASSUME, REAL_LIB, STUB, close, drop_hermitian_pairs, drop_items, earlier_use, pick_ranks,
                     require_clean, sim_spec, without_earlier_use)

ID = "P02"
COUNTS = {"quick": 3000, "thorough": 60000}
RULE = ("A case is a random Hermitian operator (often with degenerate levels), a basis, a number of states, a solver mode, a "
        "pruning threshold, 1-8 ranks, a schedule, and per-rank phase/degeneracy choices of the eigensolver; non-trivial: at "
        "least 2 ranks and the solver's answers really differed between ranks. Distinct by (input, event sequence).")
REAL, STUB = REAL_LIB, STUB
ASSUMPTIONS = ASSUME + ["ARPACK is represented by a dense solver plus an arbitrary legal choice of vectors."]


def generate(rng, index, tier):
    degenerate = rng.random() < 0.6
    if degenerate:
        half = rng.choice([2, 3, 3, 4])
        n = 2 * half
        one = gen.hermitian_op(rng, half, real=rng.random() < 0.5, interactions=False, density=0.7)
        op = []
        for p, v in one:
            op.append([p, v])
            op.append([[[i + half, k] for i, k in p], v])
        if rng.random() < 0.5:
            for i in range(half):
                op.append([[[i, "c"], [i + half, "c"], [i + half, "a"], [i, "a"]], [1.5, 0.0]])
    else:
        n = rng.choice([4, 5, 6, 7, 9, 10, 10])
        op = gen.hermitian_op(rng, n, real=rng.random() < 0.4, density=0.7)
    nel = rng.choice([1, 2, 2, 3, 3])
    nel = min(nel, n - 1)
    states = ref.all_states(n, nel)
    if len(states) < 5:
        states = ref.all_states(n, 1) + ref.all_states(n, 2)
    rng.shuffle(states)
    size = min(len(states), rng.choice([5, 6, 10, 20, 35, 45, 60]))
    basis = [list(s) for s in states[:size]]
    k = rng.randrange(1, min(7 if rng.random() < 0.95 else 40, len(basis) - 2) + 1)
    nranks = pick_ranks(rng)
    return {"nranks": nranks, "sim": sim_spec(rng, nranks, perturb_eig=rng.random() < 0.85), "n": n, "op": op,
            "basis": basis, "k": k, "mode": rng.choice(["Lanczos", "Lanczos", "full"]),
            "cut": rng.choice([None, 0.0, 1e-12]),
            "before": earlier_use(rng, op)}


def run(case, R):
    n, k = case["n"], case["k"]
    op = gen.op_from_json(case["op"])
    occ = [tuple(s) for s in case["basis"]]
    basis = tuple(ref.to_bytes(s, n) for s in occ)
    kw = {} if case["cut"] is None else {"slaterWeightMin": case["cut"]}
    raw = {}

    def program(lib, ctx):
        if case["before"]:
            lib.finite.eigensystem(n, gen.op_from_json(case["before"]["op"]), basis, k, groundDiagMode=case["mode"], **kw)
        es, psis = lib.finite.eigensystem(n, dict(op), basis, k, groundDiagMode=case["mode"], **kw)
        return np.array(es, dtype=float), [dict(p) for p in psis]

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, "eigensystem")
    h = ref.matrix(op, occ)
    want = np.linalg.eigvalsh(h)[:k]
    scale = max(1.0, float(np.max(np.abs(h))) if h.size else 1.0)
    idx = {b: i for i, b in enumerate(basis)}
    prune = 1e-7 if case["cut"] is None else case["cut"]
    tol = 1e-7 * scale + 3 * scale * len(occ) * np.sqrt(prune)
    first = None
    allw, allv = np.linalg.eigh(h)
    for r, (es, psis) in enumerate(o.results):
        if len(es) != k or len(psis) != k:
            raise Violation("wrong-count", f"rank {r}: {len(es)} energies, {len(psis)} states, {k} asked for")
        close(es, want, 1e-7, "wrong-energies", f"rank {r} energies")
        v = np.zeros((len(basis), k), dtype=complex)
        for j, p in enumerate(psis):
            for b, a in p.items():
                if b not in idx:
                    raise Violation("foreign-state", f"rank {r}: state outside of the basis")
                v[idx[b], j] = a
        res = np.abs(h @ v - v * es).max()
        if not res <= tol:
            raise Violation("not-an-eigenvector", f"rank {r}: |H v - e v| = {res:.3g}, tolerance {tol:.3g}")
        for j in range(k):
            # outside of its level a state has only what pruning leaves
            x = allv[:, np.abs(allw - es[j]) < 1e-6]
            lost = np.sqrt(prune * np.sum(v[:, j] == 0))
            d = np.linalg.norm(v[:, j] - x @ (x.conj().T @ v[:, j]))
            if not d <= lost + 1e-6:
                raise Violation("not-an-eigenvector", f"rank {r}: state {j} lies by {d:.3g} outside of its level, pruning explains {lost:.3g}")
            if not abs(np.linalg.norm(v[:, j]) ** 2 - 1) <= lost**2 + 1e-7:
                raise Violation("not-orthonormal", f"rank {r}: state {j} has norm {np.linalg.norm(v[:, j]):.6f}")
        g = np.abs(v.conj().T @ v - np.eye(k)).max()
        if not g <= 1e-7 + 3 * len(occ) * np.sqrt(prune):
            raise Violation("not-orthonormal", f"rank {r}: overlap deviates by {g:.3g}")
        if first is None:
            first = (es, v)
        else:
            d = max(np.abs(es - first[0]).max(), np.abs(v - first[1]).max())
            if d != 0:
                raise Violation("ranks-disagree", f"rank {r} proceeds with other eigenstates than rank 0 (difference {d:.3g})")
    gaps = np.diff(np.linalg.eigvalsh(h))
    if len(gaps) and (gaps[: k + 1] < 1e-9).any():
        R.probe("degenerate level among the states")
    if k < len(gaps) + 1 and gaps[k - 1] < 1e-9:
        R.probe("cut through a degenerate level")
    if case["nranks"] > 1 and R.stats["faults"].get("eig_choice"):
        R.key = (len(occ), k, case["sim"]["seed"])


def shrink(case):
    yield from without_earlier_use(case)
    import copy

    if case["k"] > 1:
        c = copy.deepcopy(case)
        c["k"] -= 1
        yield c
    yield from drop_items(case, ["basis"], case["k"] + 2)
    yield from drop_hermitian_pairs(case, ["op"])
