"""RIXS maps: Kramers-Heisenberg for every pair of in- and outgoing polarisations, in every parallelisation mode."""

import copy

import numpy as np

from sim import gen, ref

from .common import (ASSUME, REAL_LIB, STUB, close, drop_hermitian_pairs, drop_items, earlier_use, pick_ranks,
                     require_clean, sim_spec, without_earlier_use)
from .P07 import norm_psi, system, to_real

ID = "P08"
COUNTS = {"quick": 1200, "thorough": 20000}
RULE = ("A case is a random Hermitian operator, 1-3 states, 1-3 incoming and 1-3 outgoing transition operators, restrictions, one "
        "of the four modes, an optional filled row table from the caller, 1-8 ranks and a schedule; non-trivial: at least 2 "
        "ranks and a map that is not identically zero. Distinct by (input, event sequence).")
REAL, STUB = REAL_LIB, STUB
ASSUMPTIONS = ASSUME + ["The iterative solver's own convergence test is trusted; runs where it reports no convergence are skipped."]
MODES = ["serial", "H_build", "wIn", "H_build_wIn", "H_build_wIn"]


def generate(rng, index, tier):
    large = rng.random() < 0.012
    case = system(rng, max_dim=14)
    while large and case["dim"] < 60:
        # many steps of the iterative solver
        case = system(rng, max_dim=60)
    del case["dim"]
    keep = 1 if large else 3
    case["psis"], case["es"] = case["psis"][:keep], case["es"][:keep]
    tops = case.pop("tops")
    n = case["n"]
    cut = rng.randrange(1, len(tops) + 1)
    case["tin"] = tops[:cut][:3]
    tout = tops[cut:][:2]
    while len(tout) < rng.randrange(1, 4):
        tout.append(gen.transition_op(rng, n, rng.choice(["x", "x", "a", "c"]), rng.random() < 0.4))
    case["tout"] = tout
    nranks = pick_ranks(rng)
    case.update({"nranks": nranks, "sim": sim_spec(rng, nranks, horizon=400), "mode": rng.choice(MODES),
                 "d1": 0.1 if large else rng.choice([0.4, 0.8]), "d2": rng.choice([0.3, 0.8]), "nin": rng.choice([1, 2, 3, 5]),
                 "nloss": rng.choice([1, 3]), "given": rng.random() < 0.3})
    case["before"] = earlier_use(rng, case["op"], case["restr"], p=0.15)
    return case


def run(case, R):
    n = case["n"]
    op, restr = gen.op_from_json(case["op"]), gen.restrictions_from_json(case["restr"])
    psis = [norm_psi(p, n) for p in case["psis"]]
    tin = [gen.op_from_json(t) for t in case["tin"]]
    tout = [gen.op_from_json(t) for t in case["tout"]]
    win, wl = np.linspace(-3, 4, case["nin"]), np.linspace(-2, 4, case["nloss"])

    def program(lib, ctx):
        b = case["before"]
        if b:
            lib.spectra.getRIXSmap(n, gen.op_from_json(b["op"]), [dict(t) for t in tin[::-1]], [dict(t) for t in tout[::-1]],
                                   [to_real(p, n) for p in psis[:1]], [0.5], np.array(win), np.array(wl), case["d1"], case["d2"],
                                   restr, slaterWeightMin=1e-18, parallelization_mode=case["mode"])
        kw = {"h_dict_ground": {}} if case["given"] else {}
        g = lib.spectra.getRIXSmap(n, dict(op), [dict(t) for t in tin], [dict(t) for t in tout],
                                   [to_real(p, n) for p in psis], list(case["es"]), np.array(win), np.array(wl), case["d1"],
                                   case["d2"], restr, slaterWeightMin=1e-18, parallelization_mode=case["mode"], **kw)
        return np.array(g), ctx.counters.get("bicgstab_not_converged", 0)

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, f"getRIXSmap({case['mode']})")
    if any(res[1] for res in o.results):
        R.probe("skipped: iterative solver reported no convergence")
        return
    want = np.zeros((len(psis), len(tin), len(tout), len(win), len(wl)), dtype=complex)
    tol = np.zeros(want.shape)
    for i, p in enumerate(psis):
        for a, ti in enumerate(tin):
            for b, to in enumerate(tout):
                want[i, a, b], tol[i, a, b], dim = ref.rixs(op, ti, to, p, case["es"][i], win, wl, case["d1"], case["d2"], restr)
                if dim == 0:
                    R.probe("incoming transition annihilates the state")
    for r in range(case["nranks"]):
        close(o.results[r][0], want, tol, "wrong-map", f"rank {r} of {case['nranks']}, mode {case['mode']} [state, in, out, w, loss]")
    R.observe(np.round(o.results[0][0], 7).tolist())
    if case["nranks"] > len(win):
        R.probe("more ranks than photon energies")
    if case["nranks"] > 1 and np.abs(want).max() > 1e-6:
        R.key = (case["mode"], case["sim"]["seed"])


def shrink(case):
    yield from without_earlier_use(case)
    if len(case["psis"]) > 1:
        for i in range(len(case["psis"])):
            c = copy.deepcopy(case)
            del c["psis"][i], c["es"][i]
            yield c
    for k in ("tin", "tout"):
        yield from drop_items(case, [k], 1)
        for i in range(len(case[k])):
            yield from drop_items(case, [k, i], 1)
    for k in ("nin", "nloss"):
        if case[k] > 1:
            c = copy.deepcopy(case)
            c[k] -= 1
            yield c
    if case["restr"]:
        c = copy.deepcopy(case)
        c["restr"] = None
        yield c
    yield from drop_hermitian_pairs(case, ["op"])
