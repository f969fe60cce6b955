"""Gathering per-rank dictionaries: the union on every rank, for any sizes, chunking and schedule."""

import copy

from sim.driver import Violation

from .common import ASSUME, REAL_LIB, STUB, pick_ranks, require_clean, sim_spec

ID = "P09"
COUNTS = {"quick": 8000, "thorough": 200000}
RULE = ("A case is 1-3 rounds of gathering dictionaries of random sizes (some empty) with a random chunk limit into totals that "
        "already hold entries, and one round of chunked broadcasting from a random root, on 1-8 ranks; non-trivial: at least 2 "
        "ranks and a round that had to be sent in chunks. Distinct by (input, event sequence).")
REAL, STUB, ASSUMPTIONS = REAL_LIB, STUB, ASSUME


def generate(rng, index, tier):
    nranks = pick_ranks(rng)
    rounds = []
    if index % 300 == 7:
        # sizes beyond 16 bits
        nranks = min(nranks, 3)
        return {"nranks": nranks, "sim": sim_spec(rng, nranks), "rounds": [{"sizes": [rng.choice([33000, 66000, 5]) for _ in range(nranks)],
                "chunk": rng.choice([30000, 70000, None])}], "prior": 0, "root": 0, "rootsize": 4, "rootchunk": 2}
    for _ in range(rng.randrange(1, 4)):
        big = rng.choice([0, 1, 3, 10, 40])
        rounds.append({"sizes": [rng.choice([0, 0, 1, rng.randrange(big + 1), big]) for _ in range(nranks)],
                       "chunk": rng.choice([1, 1, 2, 3, 5, 10, 39, 40, 1000, None])})
    return {"nranks": nranks, "sim": sim_spec(rng, nranks), "rounds": rounds, "prior": rng.choice([0, 2]),
            "root": rng.randrange(nranks), "rootsize": rng.choice([0, 1, 4, 9, 17]), "rootchunk": rng.choice([1, 2, 3, 4, 5, 100])}


def entries(tag, rank, size):
    if size > 1000:
        return {(rank, tag, i): i for i in range(size)}
    return {bytes([rank, tag, i]): FALSY[i % 11] if i % 11 < len(FALSY) and i % 2 else {bytes([i, 1]): complex(rank, i), bytes([i, 2]): -0.5 * i}
            for i in range(size)}


# values that are easily mistaken for "nothing" (an annihilated state has an empty row)
FALSY = [None, {}, 0, 0.0, None, False, b""]


def run(case, R):
    n = case["nranks"]
    root = case["root"] % n

    def sizes(rd):
        return (rd["sizes"] + [0] * n)[:n]

    def program(lib, ctx):
        total = entries(250, 99, case["prior"])
        snaps = []
        for t, rd in enumerate(case["rounds"]):
            data = entries(t, ctx.rank, sizes(rd)[ctx.rank])
            keep = copy.deepcopy(data)
            # no message that holds more elements than the limit fits
            ctx.msg_limit = rd["chunk"] or 10**6
            if rd["chunk"] is None:
                lib.mpi_comm.allgather_dict(data, total)
            else:
                lib.mpi_comm.allgather_dict(data, total, rd["chunk"])
            snaps.append((copy.deepcopy(total), data == keep))
        ctx.msg_limit = None
        mine = entries(200, 7, case["rootsize"]) if ctx.rank == root else entries(201, ctx.rank, 2)
        chunks = list(lib.mpi_comm.dict_chunks_from_one_MPI_rank(mine, case["rootchunk"], root))
        return snaps, chunks, mine

    o = R.lib(n, case["sim"], program)
    require_clean(o, "allgather_dict")
    want = entries(250, 99, case["prior"])
    for t, rd in enumerate(case["rounds"]):
        for r in range(n):
            want.update(entries(t, r, sizes(rd)[r]))
        for r, (snaps, _, _) in enumerate(o.results):
            got, kept = snaps[t]
            if dict(got) != want:
                raise Violation("wrong-union", f"round {t}, rank {r} of {n}, chunk limit {rd['chunk']}: {len(got)} entries, "
                                f"{len(want)} expected, {len(set(want) - set(got))} missing")
            if not kept:
                raise Violation("input-changed", f"round {t}, rank {r}: the rank's own data was changed")
        if rd["chunk"] and max(sizes(rd)) > rd["chunk"]:
            R.probe("sent in chunks")
            if n > 1:
                R.key = case["sim"]["seed"]
    counts = {len(res[1]) for res in o.results}
    if len(counts) != 1:
        raise Violation("chunk-count", f"ranks see different numbers of chunks: {sorted(counts)}")
    for r, (_, chunks, mine) in enumerate(o.results):
        if r != root:
            if any(c is not None for c in chunks):
                raise Violation("chunk-content", f"rank {r} is not the root but yields data")
            continue
        merged = {}
        for c in chunks:
            if len(c) > case["rootchunk"]:
                raise Violation("chunk-too-big", f"chunk of {len(c)} elements, limit {case['rootchunk']}")
            if set(c) & set(merged):
                raise Violation("chunk-content", "an element is in two chunks")
            merged.update(c)
        if merged != mine:
            raise Violation("chunk-content", f"chunks hold {len(merged)} of {len(mine)} elements")


def shrink(case):
    for i in range(len(case["rounds"])):
        if len(case["rounds"]) > 1:
            c = copy.deepcopy(case)
            del c["rounds"][i]
            yield c
    for i, rd in enumerate(case["rounds"]):
        for j, s in enumerate(rd["sizes"]):
            if s:
                for k in {0, s // 2, s - 1}:
                    c = copy.deepcopy(case)
                    c["rounds"][i]["sizes"][j] = k
                    yield c
    if case["prior"]:
        c = copy.deepcopy(case)
        c["prior"] = 0
        yield c
    if case["rootsize"]:
        c = copy.deepcopy(case)
        c["rootsize"] //= 2
        yield c
