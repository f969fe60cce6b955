"""A Hamiltonian assembled from (distributed) rows is the operator's matrix in the returned basis."""

import numpy as np

from sim import ref
from sim.driver import Violation

from . import space
from .common import ASSUME, REAL_LIB, STUB, close, dense, require_clean

ID = "P05"
COUNTS = {"quick": 4000, "thorough": 80000}
RULE = ("A case is a history of expansions over one row table with assembling the matrix of the last (or every) basis, serial or "
        "distributed, whole or only the local part; non-trivial: at least 2 ranks, distributed rows, and an off-diagonal "
        "element. Distinct by (input, event sequence).")
REAL, STUB, ASSUMPTIONS = REAL_LIB, STUB, ASSUME


def generate(rng, index, tier):
    par = rng.choice(["H_build", "H_build", "H_build", "serial"])
    how = rng.choice(["sparse", "dense"]) if par == "serial" else rng.choice(["whole", "local"])
    return space.generate(rng, calls=(1, 4), limit=50, par=par, how=how, joint=rng.random() < 0.5, each=rng.random() < 0.6)


def run(case, R):
    n, op, restr, starts = space.unpack(case)
    starts_b = [space.as_bytes(s, n) for s in starts]
    par, how = case["par"], case["how"]

    def program(lib, ctx):
        f = lib.finite
        rows = {}
        out = []
        space.earlier(lib, case, par)
        for k, s in enumerate(starts_b):
            if k < len(starts_b) - 1 and not case.get("each"):
                f.expand_basis(n, rows, dict(op), s, restr, par)
                continue
            if case["joint"] and how != "dense":
                h, index = f.expand_basis_and_hamiltonian(n, rows, dict(op), s, restr, par, how == "local")
            else:
                basis = f.expand_basis(n, rows, dict(op), s, restr, par)
                h, index = f.get_hamiltonian_matrix_from_h_dict(rows, basis, par, how == "local",
                                                                "dense" if how == "dense" else "sparse")
            out.append((dense(h), dict(index)))
        return out

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, f"Hamiltonian from rows ({par}, {how})")
    called = starts if case.get("each") else starts[-1:]
    for k, s in enumerate(called):
        check(case, n, op, restr, s, [res[k] for res in o.results], R)


def check(case, n, op, restr, start, results, R):
    par, how = case["par"], case["how"]
    want_set = set(space.as_bytes(ref.closure(op, start, restr), n))
    total = 0
    first = None
    for r, (h, index) in enumerate(results):
        if set(index) != want_set or sorted(index.values()) != list(range(len(index))):
            raise Violation("wrong-index", f"rank {r}: the basis index is not a numbering of the reachable space")
        if first is None:
            first = index
        elif index != first:
            raise Violation("ranks-disagree", f"rank {r} numbers the basis differently from rank 0")
        order = sorted(index, key=index.get)
        want = ref.matrix(op, [ref.from_bytes(b, n) for b in order])
        # matrix elements through restricted rows only
        if how == "local":
            total = total + h
        else:
            close(h, want, 1e-10, "wrong-matrix", f"{par}/{how}, rank {r}")
    if how == "local":
        close(total, want, 1e-10, "wrong-local-sum", "sum of the local parts over the ranks")
    if case["nranks"] > 1 and par == "H_build" and (np.abs(want - np.diag(np.diag(want))) > 0).any():
        R.key = (how, case["sim"]["seed"])


shrink = space.shrink
