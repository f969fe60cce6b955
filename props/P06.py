"""Lanczos Green's function, serial or distributed, against the exact resolvent."""

import copy

import numpy as np

from sim import gen, ref

from . import space
from .common import ASSUME, REAL_LIB, STUB, close, require_clean

ID = "P06"
COUNTS = {"quick": 4000, "thorough": 80000}
RULE = ("A case is a sequence of 1-3 Green's functions of random normalised states sharing one row table, in one of the five "
        "valid mode combinations, with a Krylov space smaller than, equal to or larger than the reachable space (or exhausted "
        "early by an invariant subspace), 1-8 ranks and a schedule; non-trivial: distributed on at least 2 ranks with a "
        "reachable space of dimension >= 2. Distinct by (input, event sequence).")
REAL, STUB = REAL_LIB, STUB
ASSUMPTIONS = ASSUME + ["At truncation the reference is the exact k-dimensional Krylov space, which is what a Lanczos run of size k means."]
COMBOS = [("sparse", "H_build"), ("sparse", "H_build"), ("dense", "H_build"), ("sparse", "serial"), ("dense", "serial"),
          ("dict", "serial")]


def ring(rng):
    """A state that spans an invariant subspace exactly: the Krylov space is exhausted after one or two vectors."""
    m = rng.choice([2, 2, 4])
    n = m + rng.choice([0, 1, 4])
    t = rng.choice([1.0, 0.5, 2.0, -0.25])
    op, seen = [], set()
    for i in range(m):
        j = (i + 1) % m
        for a, b in ((i, j), (j, i)):
            if (a, b) not in seen:
                seen.add((a, b))
                op.append([[[a, "c"], [b, "a"]], [t, 0.0]])
    amps = [[1.0, 0.0]] * m if rng.random() < 0.6 else [[1.0, 0.0], [-1.0, 0.0]] * (m // 2)
    return {"n": n, "op": op, "starts": [[[i] for i in range(m)]], "restr": None}, [amps]


def chain(rng):
    """One particle on a long disordered chain, starting at its end: more than a hundred Lanczos steps matter."""
    n = rng.randrange(112, 150)
    op = []
    for i in range(n):
        op.append([[[i, "c"], [i, "a"]], [round(rng.uniform(-0.01, 0.01), 4) or 0.01, 0.0]])
        if i:
            x, y = rng.choice([(1.0, 0.0), (0.6, 0.8), (-1.0, 0.0)])
            op.append([[[i - 1, "c"], [i, "a"]], [x, y]])
            op.append([[[i, "c"], [i - 1, "a"]], [x, -y]])
    return {"n": n, "op": op, "starts": [[[0]]], "restr": None, "amps": [[[1.0, 0.0]]], "k": rng.choice([90, 105, n - 3, n, 150]),
            "delta": rng.choice([0.02, 0.05]), "e": round(rng.uniform(-1, 1), 3)}


def generate(rng, index, tier):
    case = space.space(rng, limit=rng.choice([6, 20, 40]), calls=(1, 3))
    nranks = space.pick_ranks(rng)
    case.update({"nranks": nranks, "sim": space.sim_spec(rng, nranks, horizon=150)})
    case["amps"] = []
    for st in case["starts"]:
        eig = rng.random() < 0.1 and len(st) == 1
        a = [gen.coeff(rng, rng.random() < 0.4, True) for _ in st]
        case["amps"].append([[1.0, 0.0]] if eig else a)
    if rng.random() < 0.1:
        c, case["amps"] = ring(rng)
        case.update(c)
    case["mode"], case["par"] = rng.choice(COMBOS)
    case["k"] = rng.choice([1, 2, 3, 5, 8, 20, 60, 150])
    case["delta"] = rng.choice([0.2, 0.3, 1.0, -0.25])
    case["e"] = round(rng.uniform(-3, 3), 3)
    case["nw"] = rng.choice([1, 2, 7])
    if rng.random() < 0.05:
        case["starts"][0] = []
        case["amps"][0] = []
    case["before"] = space.earlier_use(rng, case["op"], p=0.2)
    if index % 101 == 17:
        case.update(chain(rng))
        case["before"] = None
        case["nranks"] = min(case["nranks"], 4)
    return case


def normalised(case, i):
    a = np.array([gen.cnum(x) for x in case["amps"][i]], dtype=complex)
    return a / np.linalg.norm(a) if len(a) else a


def run(case, R):
    n, op, restr, starts = space.unpack(case)
    amps = [normalised(case, i) for i in range(len(starts))]
    w = np.linspace(-4, 5, case["nw"])

    def program(lib, ctx):
        rows = {}
        out = []
        b = case.get("before")
        if b:
            for s, a in zip(starts, amps):
                psi = {ref.to_bytes(x, n): complex(y) for x, y in zip(s, a)}
                lib.spectra.getGreen(n, case["e"], psi, gen.op_from_json(b["op"]), np.array(w), case["delta"], case["k"], 1e-18,
                                     restr, {}, case["mode"], case["par"])
        for s, a in zip(starts, amps):
            psi = {ref.to_bytes(x, n): complex(y) for x, y in zip(s, a)}
            out.append(np.array(lib.spectra.getGreen(n, case["e"], psi, dict(op), np.array(w), case["delta"], case["k"], 1e-18,
                                                     restr, rows, case["mode"], case["par"])))
        return out

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, f"getGreen({case['mode']}, {case['par']})")
    dims = []
    for i, (s, a) in enumerate(zip(starts, amps)):
        if s:
            basis = ref.closure(op, s, restr)
            h = ref.matrix(op, basis)
            v = ref.vec(dict(zip(s, a)), basis)
            z = w + 1j * case["delta"] + case["e"]
            dims.append(len(basis))
            if case["k"] < len(basis):
                want, got_k = ref.green_krylov(h, v, z, case["k"])
                if got_k == case["k"]:
                    R.probe("truncated Krylov space")
            else:
                want = ref.green(h, v, z)
            if ref.krylov_dim(h, v) < min(case["k"], len(basis)):
                R.probe("Krylov space exhausted early")
            tol = 1e-6 + 30 * ref.lanczos_spread(h, v, z, case["k"], want)
            if tol > 3e-6:
                R.probe("Lanczos orthogonality loss widened the tolerance")
            if tol > 1e-2:
                R.probe("skipped: Lanczos orthogonality loss dominates")
                continue
        else:
            tol = 1e-9
            want = np.zeros(len(w), dtype=complex)
            R.probe("empty state")
        for r in range(case["nranks"]):
            close(o.results[r][i], want, tol, "wrong-green", f"call {i}, rank {r} of {case['nranks']}, "
                  f"{case['mode']}/{case['par']}, k={case['k']}")
            R.observe(np.round(o.results[r][i], 9).tolist())
    if case["par"] == "H_build" and case["nranks"] > 1 and dims and max(dims) > 1:
        R.key = (case["mode"], case["sim"]["seed"])


def shrink(case):
    yield from space.without_earlier_use(case)
    if len(case["starts"]) > 1:
        for i in range(len(case["starts"])):
            c = copy.deepcopy(case)
            del c["starts"][i], c["amps"][i]
            yield c
    for i, st in enumerate(case["starts"]):
        for j in range(len(st)):
            if len(st) > 1:
                c = copy.deepcopy(case)
                del c["starts"][i][j], c["amps"][i][j]
                yield c
    for c in space.shrink(case):
        if [len(s) for s in c["starts"]] == [len(s) for s in case["starts"]]:
            yield c
    if case["nw"] > 1:
        c = copy.deepcopy(case)
        c["nw"] = 1
        yield c
    for k in (1, 2, 3, 5, 8, 20):
        if k < case["k"]:
            c = copy.deepcopy(case)
            c["k"] = k
            yield c
