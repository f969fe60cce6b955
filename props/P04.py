"""Ownership of distributed Hamiltonian rows and exactly-once distribution of tasks."""

from sim import ref
from sim.driver import Violation

from . import space
from .common import ASSUME, REAL_LIB, STUB, require_clean

ID = "P04"
COUNTS = {"quick": 4000, "thorough": 80000}
RULE = ("A case is a history of 1-5 distributed expansions (bare, or through the Hamiltonian or Green's-function routines) that "
        "share one row table, plus a random task list, on 1-8 ranks; non-trivial: at least 2 ranks and a later call met rows that "
        "an earlier one had stored. Distinct by (input, event sequence).")
REAL, STUB, ASSUMPTIONS = REAL_LIB, STUB, ASSUME


def generate(rng, index, tier):
    case = space.generate(rng, calls=(1, 5), limit=40)
    case["via"] = [rng.choice(["expand", "ham_local", "ham", "green"]) for _ in case["starts"]]
    case["tasks"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 31, 64])
    # tasks may be equal
    case["distinct"] = rng.choice([1000, 1000, 3])
    return case


def run(case, R):
    n, op, restr, starts = space.unpack(case)
    starts_b = [space.as_bytes(s, n) for s in starts]
    tasks = [f"t{i % case['distinct']}" for i in range(case["tasks"])]

    def program(lib, ctx):
        f = lib.finite
        rows = {}
        hist = []
        space.earlier(lib, case, "H_build")
        for s, via in zip(starts_b, case["via"]):
            if via == "expand":
                f.expand_basis(n, rows, dict(op), s, restr, "H_build")
            elif via in ("ham_local", "ham"):
                f.expand_basis_and_hamiltonian(n, rows, dict(op), s, restr, "H_build", via == "ham_local")
            else:
                psi = {b: 1 / len(s) ** 0.5 for b in s}
                lib.spectra.getGreen(n, 0.0, psi, dict(op), __import__("numpy").linspace(-1, 1, 3), 0.3, 5, 0, restr, rows,
                                     parallelization_mode="H_build")
            hist.append({k: dict(v) for k, v in rows.items()})
        return hist, tuple(f.get_job_tasks(ctx.rank, case["nranks"], list(tasks)))

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, "distributed expansion")
    n_ranks = case["nranks"]
    known = {}
    reused = False
    for k, s in enumerate(starts):
        basis = ref.closure(op, s, restr)
        owner = {}
        for r, (hist, _) in enumerate(o.results):
            for b, row in hist[k].items():
                if b in owner:
                    raise Violation("double-owner", f"after call {k}: a row is stored on ranks {owner[b]} and {r}")
                owner[b] = r
                if not space.rows_equal(row, ref.apply_op(op, {ref.from_bytes(b, n): 1}, restr, 1e-6), n):
                    raise Violation("wrong-row", f"after call {k}: rank {r} stores a row that is not H|state>")
        for b in space.as_bytes(basis, n):
            if b not in owner:
                raise Violation("lost-row", f"after call {k}: no rank stores the row of a state in the basis")
        reused |= bool(known) and bool(set(space.as_bytes(basis, n)) & set(known))
        known = owner
    got = [t for _, ts in o.results for t in ts]
    if sorted(got) != sorted(tasks):
        raise Violation("task-not-once", f"{len(tasks)} tasks over {n_ranks} ranks: {len(got)} handed out, "
                        f"{len(set(got))} different")
    if reused:
        R.probe("later call met stored rows")
    if reused and n_ranks > 1:
        R.key = case["sim"]["seed"]


def shrink(case):
    import copy

    if len(case["starts"]) > 1:
        for i in range(len(case["starts"])):
            c = copy.deepcopy(case)
            del c["starts"][i], c["via"][i]
            yield c
    for c in space.shrink(case):
        if len(c["starts"]) == len(case["starts"]):
            yield c
    if case["tasks"]:
        c = copy.deepcopy(case)
        c["tasks"] //= 2
        yield c
