"""Distributed construction of the ground-state Hamiltonian matrix."""

import copy

from sim import gen, ref
from sim.driver import Violation

from .common import (ASSUME, REAL_LIB, STUB, close, dense, drop_items, earlier_use, pick_ranks, require_clean, sim_spec,
                     without_earlier_use)

ID = "P01"
COUNTS = {"quick": 6000, "thorough": 100000}
RULE = ("A case is a random operator (not necessarily Hermitian), a random ordered list of product states, one of the four "
        "construction modes, 1-8 ranks and a schedule; non-trivial: the matrix has an off-diagonal element and at least 2 ranks "
        "took part. Distinct by (input, event sequence).")
REAL, STUB, ASSUMPTIONS = REAL_LIB, STUB, ASSUME
MODES = ["sparse_MPI", "dense_MPI", "sparse_serial", "dense_serial"]


def generate(rng, index, tier):
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 16, 17, 26, 40])
    nranks = pick_ranks(rng)
    large = rng.random() < 0.008
    if large:
        # more states than a byte counts
        n = rng.choice([10, 11, 12])
    if rng.random() < 0.7:
        op = gen.hermitian_op(rng, n, real=rng.random() < 0.4, fine=True, **({"density": 0.1} if large else {}))
    else:
        op = gen.transition_op(rng, n, "x", fine=True)
    nel = rng.randrange(0, min(n, 5) + 1)
    want = rng.choice([1, 2, 3, 5, 8, 13, 24, 40])
    if large:
        nel, want = rng.choice([4, 5]), rng.choice([255, 256, 257, 270, 400])
    basis = []
    seen = set()
    for _ in range(4 * want):
        if basis and rng.random() < 0.6:
            # neighbours of states already there: makes the matrix non-trivial
            row = ref.apply_op(gen.op_from_json(op), {tuple(rng.choice(basis)): 1})
            s = rng.choice(sorted(row)) if row else gen.random_state(rng, n, nel)
        else:
            s = gen.random_state(rng, n, nel if rng.random() < 0.9 else rng.randrange(0, n + 1))
        if s not in seen:
            seen.add(s)
            basis.append(list(s))
        if len(basis) >= want:
            break
    rng.shuffle(basis)
    mode = rng.choice(MODES[:2] + MODES)
    return {"nranks": nranks, "sim": sim_spec(rng, nranks), "n": n, "op": op, "basis": basis, "mode": mode,
            "before": earlier_use(rng, op)}


def run(case, R):
    n = case["n"]
    op = gen.op_from_json(case["op"])
    occ = [tuple(s) for s in case["basis"]]
    basis = tuple(ref.to_bytes(s, n) for s in occ)

    def program(lib, ctx):
        if case["before"]:
            lib.finite.get_hamiltonian_matrix(n, gen.op_from_json(case["before"]["op"]), basis, mode=case["mode"])
        return dense(lib.finite.get_hamiltonian_matrix(n, dict(op), basis, mode=case["mode"]))

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, f"get_hamiltonian_matrix({case['mode']})")
    h = ref.matrix(op, occ)
    for r, got in enumerate(o.results):
        close(got, h, 1e-10, "wrong-matrix", f"mode {case['mode']}, rank {r} of {case['nranks']}")
    if case["nranks"] > len(occ):
        R.probe("more ranks than basis states")
    if len(occ) % case["nranks"]:
        R.probe("basis size not divisible by ranks")
    off = abs(h - __import__("numpy").diag(h.diagonal())).max() if len(occ) > 1 else 0
    if off > 0 and case["nranks"] > 1:
        R.key = (len(occ), case["mode"], case["nranks"], case["sim"]["seed"])


def shrink(case):
    yield from without_earlier_use(case)
    yield from drop_items(case, ["basis"], 1)
    yield from drop_items(case, ["op"], 0)
