"""Active-space expansion: exactly the reachable restricted space, the same ordered basis on every rank."""

import itertools

from sim import ref
from sim.driver import Violation

from . import space
from .common import ASSUME, REAL_LIB, STUB, require_clean

ID = "P03"
COUNTS = {"quick": 4000, "thorough": 80000}
RULE = ("A case is a random Hermitian operator, occupation restrictions, 1-4 lists of start states expanded one after the other "
        "against one shared row table, serial or distributed, 1-8 ranks and a schedule; non-trivial: at least 2 ranks and a "
        "basis that grew. Distinct by (input, event sequence).")
REAL, STUB, ASSUMPTIONS = REAL_LIB, STUB, ASSUME


def generate(rng, index, tier):
    # other restrictions and another table, used in between
    other = rng.choice([None, None, "free", "first", "tight"])
    return space.generate(rng, calls=(1, 4), mode=rng.choice(["H_build", "H_build", "H_build", "serial"]),
                          lose=rng.random() < 0.2, other=other)


def second_restrictions(kind, restr, starts):
    """Different restrictions over the same orbitals; the start states satisfy them."""
    if not restr or kind == "free":
        return {}
    if kind == "first":
        return dict(list(restr.items())[:1])
    return {o: (min(len(o & set(s)) for st in starts for s in st), max(len(o & set(s)) for st in starts for s in st)) for o in restr}


def run(case, R):
    n, op, restr, starts = space.unpack(case)
    starts_b = [space.as_bytes(s, n) for s in starts]
    restr2 = second_restrictions(case["other"], restr, starts)

    def program(lib, ctx):
        rows = {}
        other, out2, alone = {}, [], []
        space.earlier(lib, case, case["mode"])
        out = []
        for k, s in enumerate(starts_b):
            if case["lose"] and k == 1:
                rows.clear()  # a cache may be lost; it must not matter
            out.append(lib.finite.expand_basis(n, rows, dict(op), s, restr, case["mode"]))
            if case["other"]:
                out2.append(lib.finite.expand_basis(n, other, dict(op), s, restr2, case["mode"]))
            alone.append(lib.finite.expand_basis(n, {}, dict(op), s, restr, "serial"))
        return out, out2, alone

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, f"expand_basis({case['mode']})")
    grew = False
    for (what, part, rs), (k, s) in itertools.product([("", 0, restr)] + ([("other restrictions, ", 1, restr2)] if case["other"] else [])
                                                      + [("serial, ", 2, restr)], enumerate(starts)):
        want = set(space.as_bytes(ref.closure(op, s, rs), n))
        # serial and distributed growth give the same order
        first = tuple(o.results[0][part % 2][k])
        for r, res in enumerate(o.results):
            b = tuple(res[part][k])
            if len(set(b)) != len(b):
                raise Violation("duplicate-state", f"{what}call {k}, rank {r}: a product state occurs twice in the basis")
            if set(b) != want:
                raise Violation("wrong-space", f"{what}call {k}, rank {r}: {len(set(b) - want)} states too many, "
                                f"{len(want - set(b))} missing of {len(want)}")
            if b != first:
                raise Violation("ranks-disagree", f"{what}call {k}: rank {r} orders the basis differently from rank 0")
        grew |= len(want) > len(s)
        R.observe(first)
    if restr:
        R.probe("restrictions")
        free = set(ref.closure(op, starts[0], None))
        if len(free) > len(ref.closure(op, starts[0], restr)):
            R.probe("restriction cut the space")
    if grew and case["nranks"] > 1:
        R.key = (case["mode"], case["sim"]["seed"])


shrink = space.shrink
