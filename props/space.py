"""Random histories of active-space expansions over one shared row table (used by several properties)."""

import copy

import numpy as np

from sim import gen, ref

from .common import drop_items, earlier_use, pick_ranks, sim_spec, without_earlier_use


def space(rng, limit=60, calls=(1, 4)):
    """n, operator, restrictions and a list of start lists; closures stay small enough for a dense reference."""
    # now and then more states than a byte counts
    least = 256 if limit < 256 and rng.random() < 0.006 else 1
    if least > 1:
        limit = 600
    while True:
        n = rng.choice([3, 4, 5, 5, 6, 6, 7, 8, 9, 10, 12, 17] if least == 1 else [11, 12])
        density = 0.5 if n <= 8 else 0.2
        op = gen.hermitian_op(rng, n, real=rng.random() < 0.4, density=density, fine=True)
        nel = rng.randrange(1, min(n - 1, 4 if n <= 8 else 2) + 1) if least == 1 else rng.choice([4, 5, 6])
        ncalls = rng.randrange(calls[0], calls[1] + 1)
        pool = [gen.random_state(rng, n, nel) for _ in range(rng.choice([1, 2, 4, 6]))]
        if rng.random() < 0.3:
            pool += [gen.random_state(rng, n, max(0, nel - 1)) for _ in range(2)]
        starts = []
        for _ in range(ncalls):
            k = rng.randrange(1, len(pool) + 1)
            st = [list(s) for s in dict.fromkeys(rng.sample(pool, k))]
            if starts and rng.random() < 0.4:
                # an earlier list once more, in another order
                st = [list(s) for s in rng.choice(starts)]
                first, rest = st[:1], st[1:]
                rng.shuffle(rest)
                st = first + rest if rng.random() < 0.5 else rest + first
            starts.append(st)
        restr = gen.restrictions(rng, n, [s for st in starts for s in st])
        o, r = gen.op_from_json(op), gen.restrictions_from_json(restr)
        if least <= len(ref.closure(o, [tuple(s) for st in starts for s in st], r)) <= limit:
            return {"n": n, "op": op, "starts": starts, "restr": restr}


def generate(rng, calls=(1, 4), limit=60, **extra):
    nranks = pick_ranks(rng)
    case = space(rng, limit, calls)
    case.update({"nranks": nranks, "sim": sim_spec(rng, nranks)})
    case.update(extra)
    case["before"] = earlier_use(rng, case["op"], case["restr"])
    return case


def earlier(lib, case, mode):
    """What the same process did before, with a row table of its own."""
    b = case.get("before")
    if b:
        n, op, restr = case["n"], gen.op_from_json(b["op"]), gen.restrictions_from_json(b["restr"])
        for st in case["starts"]:
            s = as_bytes([tuple(x) for x in st], n)
            if restr is None and len(ref.closure(op, [tuple(x) for x in st], None)) > 100:
                continue
            lib.finite.expand_basis_and_hamiltonian(n, {}, dict(op), s, restr, mode)


def unpack(case):
    n = case["n"]
    return n, gen.op_from_json(case["op"]), gen.restrictions_from_json(case["restr"]), [
        [tuple(s) for s in st] for st in case["starts"]]


def real_restrictions(restr):
    return restr


def as_bytes(states, n):
    return tuple(ref.to_bytes(s, n) for s in states)


def rows_equal(row, want, n, tol=1e-10):
    got = {ref.from_bytes(b, n): v for b, v in row.items()}
    keys = set(got) | set(want)
    return all(abs(got.get(k, 0) - want.get(k, 0)) <= tol for k in keys)


def shrink(case):
    yield from without_earlier_use(case)
    if len(case["starts"]) > 1:
        yield from drop_items(case, ["starts"], 1)
    for i in range(len(case["starts"])):
        if len(case["starts"][i]) > 1:
            yield from drop_items(case, ["starts", i], 1)
    if case["restr"]:
        c = copy.deepcopy(case)
        c["restr"] = None
        yield c
        if len(case["restr"]) > 1:
            yield from drop_items(case, ["restr"], 1)
    from .common import drop_hermitian_pairs

    yield from drop_hermitian_pairs(case, ["op"])


__all__ = ["np"]
