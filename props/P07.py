"""Spectra of several operators and states: exact linear response in every parallelisation mode, on any number of ranks."""

import copy

import numpy as np

from sim import gen, ref
from sim.driver import Violation

from .common import (ASSUME, REAL_LIB, STUB, close, drop_hermitian_pairs, drop_items, earlier_use, pick_ranks,
                     require_clean, sim_spec, without_earlier_use)

ID = "P07"
COUNTS = {"quick": 2500, "thorough": 40000}
RULE = ("A case is a random Hermitian operator, 1-4 states with energies, 1-4 transition operators (particle number conserving, "
        "removing or adding), restrictions, a mode, 1-8 ranks and a schedule; non-trivial: at least 2 ranks and a spectrum that "
        "is not identically zero. Distinct by (input, event sequence).")
REAL, STUB = REAL_LIB, STUB
ASSUMPTIONS = ASSUME + ["Spectra are computed with a weight cut-off small enough to be negligible, as the exact reference has none."]


def system(rng, max_dim=40):
    """Operator, states sharing particle number(s), transition operators, restrictions; dense-reference sized."""
    while True:
        n = rng.choice([3, 4, 5, 6, 6, 7, 8, 9])
        op = gen.hermitian_op(rng, n, real=rng.random() < 0.4, density=0.5 if n <= 7 else 0.25, fine=True)
        nel = rng.randrange(1, min(n - 1, 4) + 1)
        pool = [gen.random_state(rng, n, nel) for _ in range(rng.choice([2, 3, 5]))]
        pool = list(dict.fromkeys(pool))
        psis = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 8])):
            k = rng.randrange(1, len(pool) + 1)
            psis.append([[list(s), gen.coeff(rng, rng.random() < 0.4, True)] for s in rng.sample(pool, k)])
        tops = [gen.transition_op(rng, n, rng.choice(["x", "x", "a", "c"]), rng.random() < 0.4, True) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.15:
            # a transition that hardly happens
            f = rng.choice([1e-2, 1e-3])
            tops[-1] = [[p, [x * f for x in v]] for p, v in tops[-1]]
        reach = [s for t in tops for s in ref.apply_op(gen.op_from_json(t), {s: 1 for s in pool})]
        restr = gen.restrictions(rng, n, pool + rng.sample(reach, len(reach) // 2), p=0.6) if reach else None
        o = gen.op_from_json(op)
        dims = [len(ref.closure(o, list(dict.fromkeys(reach)), gen.restrictions_from_json(restr)))] if reach else [0]
        if max(dims) <= max_dim * 2:
            return {"n": n, "op": op, "psis": psis, "es": [round(rng.uniform(-3, 3), 3) for _ in psis], "tops": tops, "restr": restr,
                    "dim": max(dims)}


def generate(rng, index, tier):
    case = system(rng)
    del case["dim"]
    nranks = pick_ranks(rng)
    case.update({"nranks": nranks, "sim": sim_spec(rng, nranks, horizon=300), "mode": rng.choice(["H_build", "eigen_states"]),
                 "delta": rng.choice([0.25, 0.4, 1.0]), "nw": rng.choice([1, 3, 8]), "neg": rng.random() < 0.2,
                 "k": rng.choice([None, None, None, 4])})
    case["before"] = earlier_use(rng, case["op"], case["restr"], p=0.2)
    return case


def norm_psi(items, n):
    d = {}
    for s, v in items:
        d[tuple(s)] = gen.cnum(v)
    nv = np.sqrt(sum(abs(x) ** 2 for x in d.values()))
    return {k: v / nv for k, v in d.items()}


def to_real(psi, n):
    return {ref.to_bytes(s, n): v for s, v in psi.items()}


def run(case, R):
    n = case["n"]
    op, restr = gen.op_from_json(case["op"]), gen.restrictions_from_json(case["restr"])
    psis = [norm_psi(p, n) for p in case["psis"]]
    tops = [gen.op_from_json(t) for t in case["tops"]]
    w = np.linspace(-5, 6, case["nw"])
    delta = -case["delta"] if case["neg"] else case["delta"]
    kw = {} if case["k"] is None else {"krylovSize": case["k"]}

    def program(lib, ctx):
        b = case["before"]
        if b:
            # same processes, other strengths, states and limits
            lib.spectra.getSpectra(n, gen.op_from_json(b["op"]), [dict(t) for t in tops[::-1]], [to_real(p, n) for p in psis[:1]],
                                   [0.5], np.array(w), delta, restr, slaterWeightMin=1e-18,
                                   parallelization_mode=case["mode"], **kw)
        return np.array(lib.spectra.getSpectra(n, dict(op), [dict(t) for t in tops], [to_real(p, n) for p in psis],
                                               list(case["es"]), np.array(w), delta, restr, slaterWeightMin=1e-18,
                                               parallelization_mode=case["mode"], **kw))

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, f"getSpectra({case['mode']})")
    want = np.zeros((len(psis), len(tops), len(w)), dtype=complex)
    tol = np.zeros(want.shape)
    for i, p in enumerate(psis):
        for t, top in enumerate(tops):
            want[i, t], dim, spread = ref.spectrum(op, top, p, case["es"][i], w, delta, restr, case["k"])
            norm2 = sum(abs(a) ** 2 for a in ref.apply_op(top, p, restr).values())
            scale = min(max(1.0, np.abs(want[i, t]).max()), norm2 / case["delta"] + 1e-6)
            tol[i, t] = 1e-6 * scale + 30 * spread
            if tol[i, t].max() > 1e-2 * scale:
                R.probe("skipped: Lanczos orthogonality loss dominates")
                tol[i, t] = np.inf
            if dim == 0:
                R.probe("transition annihilates the state")
    for r in range(case["nranks"]):
        close(o.results[r], want, tol, "wrong-spectrum", f"rank {r} of {case['nranks']}, mode {case['mode']}")
    g = o.results[0]
    sign = 1 if case["neg"] else -1
    if (sign * g.imag < -1e-6 * max(1, np.abs(g).max())).any():
        raise Violation("negative-intensity", "spectral intensity below zero")
    R.observe(np.round(g, 7).tolist())
    if case["nranks"] > len(psis):
        R.probe("more ranks than states")
    if case["nranks"] > 1 and np.abs(want).max() > 1e-6:
        R.key = (case["mode"], case["sim"]["seed"])


def shrink(case):
    yield from without_earlier_use(case)
    if len(case["psis"]) > 1:
        for i in range(len(case["psis"])):
            c = copy.deepcopy(case)
            del c["psis"][i], c["es"][i]
            yield c
    yield from drop_items(case, ["tops"], 1)
    for i in range(len(case["tops"])):
        yield from drop_items(case, ["tops", i], 1)
    for i in range(len(case["psis"])):
        yield from drop_items(case, ["psis", i], 1)
    if case["restr"]:
        c = copy.deepcopy(case)
        c["restr"] = None
        yield c
    yield from drop_hermitian_pairs(case, ["op"])
    if case["nw"] > 1:
        c = copy.deepcopy(case)
        c["nw"] = 1
        yield c
