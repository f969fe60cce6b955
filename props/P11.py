"""Any sequence of collective routines terminates, with matched communication and no message left behind."""

import copy

import numpy as np

from sim import gen, ref
from sim.driver import Violation

from .common import ASSUME, REAL_LIB, STUB, drop_items, require_clean, sim_spec
from .P07 import norm_psi, system, to_real

ID = "P11"
COUNTS = {"quick": 2500, "thorough": 60000}
RULE = ("A case is a random sequence of 1-5 of the collective routines (Hamiltonian construction, diagonalisation, expansion, "
        "Green's function, spectra, RIXS, dictionary gathering) with uneven or empty work per rank, on 1-12 ranks, under a "
        "schedule that may make every send synchronous; non-trivial: at least 2 ranks. Distinct by (input, event sequence).")
REAL, STUB, ASSUMPTIONS = REAL_LIB, STUB, ASSUME
KINDS = ["ham", "eig", "expand", "jointham", "green", "spectra", "rixs", "gather", "chunks"]


def generate(rng, index, tier):
    case = system(rng, max_dim=10)
    nranks = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12])
    steps = []
    for _ in range(rng.randrange(1, 6)):
        steps.append([rng.choice(KINDS), rng.getrandbits(30)])
    spec = sim_spec(rng, nranks, perturb_eig=rng.random() < 0.7)
    spec["p_sync"] = rng.choice([0.0, 0.5, 1.0, 1.0])
    case.update({"nranks": nranks, "sim": spec, "steps": steps, "shared": rng.random() < 0.5})
    return case


def run(case, R):
    import random

    n = case["n"]
    hop, restr = gen.op_from_json(case["op"]), gen.restrictions_from_json(case["restr"])
    psis = [norm_psi(p, n) for p in case["psis"]]
    tops = [gen.op_from_json(t) for t in case["tops"]]
    start = list(dict.fromkeys(s for p in psis for s in p))
    w = np.linspace(-2, 3, 2)
    basis = ref.closure(hop, start)
    basis_b = tuple(ref.to_bytes(s, n) for s in basis)
    start_b = tuple(ref.to_bytes(s, n) for s in start)

    def program(lib, ctx):
        f, sp, m = lib.finite, lib.spectra, lib.mpi_comm
        rows = {}
        for kind, seed in case["steps"]:
            r = random.Random(seed)
            table = rows if case["shared"] else {}
            psi = [to_real(p, n) for p in psis]
            es = list(case["es"])
            if kind == "ham":
                f.get_hamiltonian_matrix(n, dict(hop), basis_b[: r.randrange(1, len(basis_b) + 1)],
                                         mode=r.choice(["sparse_MPI", "dense_MPI", "sparse_serial"]))
            elif kind == "eig":
                if len(basis_b) > 3:
                    mode = r.choice(["Lanczos", "full"])
                    es2, ps2 = f.eigensystem(n, dict(hop), basis_b, r.randrange(1, len(basis_b) - 2), mode)
                    sp.getSpectra(n, dict(hop), [dict(t) for t in tops[:1]], ps2, es2, np.array(w), 0.4, restr, krylovSize=15)
            elif kind == "expand":
                f.expand_basis(n, table, dict(hop), start_b[: r.randrange(0, len(start_b) + 1)], restr, "H_build")
            elif kind == "jointham":
                f.expand_basis_and_hamiltonian(n, table, dict(hop), start_b, restr, "H_build", r.random() < 0.5)
            elif kind == "green":
                sp.getGreen(n, 0.1, psi[0] if r.random() < 0.9 else {}, dict(hop), np.array(w), 0.4, r.choice([1, 3, 150]), 1e-7, restr,
                            table, r.choice(["sparse", "dense"]), "H_build")
            elif kind == "spectra":
                sp.getSpectra(n, dict(hop), [dict(t) for t in tops], psi, es, np.array(w), 0.4, restr, krylovSize=15,
                              parallelization_mode=r.choice(["H_build", "eigen_states"]))
            elif kind == "rixs":
                sp.getRIXSmap(n, dict(hop), [dict(t) for t in tops[:1]], [dict(t) for t in tops[-1:]], psi, es,
                              np.linspace(-1, 1, r.choice([1, 2, 5])), np.array(w), 0.6, 0.5, restr,
                              parallelization_mode=r.choice(["serial", "wIn", "H_build_wIn"]))
            elif kind == "gather":
                size = r.choice([0, 1, 7]) * (ctx.rank % 3)
                m.allgather_dict({(ctx.rank, i): i for i in range(size)}, {}, r.choice([1, 2, 5, 1000]))
            else:
                root = r.randrange(case["nranks"])
                size = r.choice([0, 1, 7])
                list(m.dict_chunks_from_one_MPI_rank({i: i for i in range(size)}, r.choice([1, 3]), root))
        return ctx.rank

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, "+".join(k for k, _ in case["steps"]))
    if o.results != list(range(case["nranks"])):
        raise Violation("not-finished", "a rank did not return")
    for k, _ in case["steps"]:
        R.probe(k)
    if case["nranks"] > 1:
        R.key = case["sim"]["seed"]


def shrink(case):
    yield from drop_items(case, ["steps"], 1)
    if len(case["psis"]) > 1:
        c = copy.deepcopy(case)
        c["psis"].pop()
        c["es"].pop()
        yield c
    yield from drop_items(case, ["tops"], 1)
    if case["restr"]:
        c = copy.deepcopy(case)
        c["restr"] = None
        yield c
