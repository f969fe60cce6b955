"""Caches are transparent: reuse, order of earlier queries, partial loss and caller's in-place edits never change a result."""

import copy

import numpy as np

from sim import gen, ref
from sim.driver import Violation

from .common import ASSUME, REAL_LIB, STUB, drop_items, pick_ranks, require_clean, sim_spec
from .P07 import norm_psi, system, to_real

ID = "P10"
COUNTS = {"quick": 2500, "thorough": 60000}
RULE = ("A case is, per rank, a history of 3-14 operator applications through one memo table (different states, some repeated; "
        "results rescaled in place by the caller; entries or the whole memo dropped between calls) and then Green's functions / "
        "RIXS maps through a reused, partly lost row table; non-trivial: a call was answered at least partly from the memo. "
        "Distinct by (input, event sequence).")
REAL, STUB, ASSUMPTIONS = REAL_LIB, STUB, ASSUME


def generate(rng, index, tier):
    case = system(rng, max_dim=12)
    nranks = pick_ranks(rng, top=4)
    hist = []
    for _ in range(rng.randrange(3, 15)):
        k = rng.random()
        if k < 0.75 or not hist:
            # the last entries: the other operator with its own restrictions and memo; no memo at all
            hist.append(["apply", rng.randrange(len(case["psis"])), rng.choice([1.0, 1.0, 2.5, -0.3, 1e-3, 1e-5]), rng.random() < 0.5, rng.random() < 0.3, rng.random() < 0.25,
                         # an amplitude that is exactly zero
                         rng.random() < 0.15])
        elif k < 0.9:
            hist.append(["drop", rng.choice([0.2, 0.5, 0.9]), rng.getrandbits(30)])
        else:
            hist.append(["clear"])
    case["restr2"] = gen.restrictions(rng, case["n"], [s for p in case["psis"] for s, _ in p], p=0.5)
    if rng.random() < 0.3:
        case["restr"] = None
    second = rng.choice(["none", "green", "rixs", "spectra"])
    case.update({"nranks": nranks, "sim": sim_spec(rng, nranks), "hist": hist, "second": second, "usehop": rng.random() < 0.6,
                 "cut": rng.choice([1e-18, 1e-12, 1e-7]), "lose": rng.choice([0.0, 0.3, 1.0]), "loseseed": rng.getrandbits(30),
                 "par": rng.choice(["serial", "H_build"])})
    return case


def run(case, R):
    import random

    n = case["n"]
    hop, restr = gen.op_from_json(case["op"]), gen.restrictions_from_json(case["restr"])
    op = hop if case["usehop"] else gen.op_from_json(case["tops"][0])
    op2, restr2 = hop if not case["usehop"] or len(hop) % 2 else gen.op_from_json(case["tops"][-1]), gen.restrictions_from_json(case.get("restr2"))
    psis = [norm_psi(p, n) for p in case["psis"]]
    tops = [gen.op_from_json(t) for t in case["tops"]]
    cut = case["cut"]
    w = np.linspace(-2, 3, 3)

    def program(lib, ctx):
        memo, memo2 = {}, {}
        out = []
        hits = 0
        for h in case["hist"]:
            if h[0] == "clear":
                memo.clear()
            elif h[0] == "drop":
                r = random.Random(f"{h[2]}:{ctx.rank}")
                for k in sorted(memo):
                    if r.random() < h[1]:
                        del memo[k]
            else:
                psi = {b: a * h[2] for b, a in to_real(psis[h[1]], n).items()}
                if h[6:] and h[6]:
                    psi[min(psi)] = 0.0
                before = dict(psi)
                two = len(h) > 4 and h[4]
                hits += sum(1 for b in psi if b in (memo2 if two else memo))
                m = None if len(h) > 5 and h[5] else memo2 if two else memo
                res = lib.finite.applyOp(n, dict(op2 if two else op), psi, cut, restr2 if two else restr, m)
                out.append((dict(res), psi == before))
                if h[3]:
                    for b in list(res):
                        res[b] *= 17.0
        memo_end = {k: dict(v) for k, v in memo.items()}
        sp = lib.spectra
        rows = {}
        pair = []
        for turn in range(2):
            table = rows if turn == 0 else dict(rows)
            if turn == 1:
                # second pass: reuse the table of the first, minus what was lost on this rank
                r = random.Random(f"{case['loseseed']}:{ctx.rank if case['par'] == 'H_build' else 0}")
                for k in sorted(table):
                    if r.random() < case["lose"]:
                        del table[k]
            psi = [to_real(p, n) for p in psis]
            if case["second"] == "green":
                g = [sp.getGreen(n, e, dict(p), dict(hop), np.array(w), 0.4, 30, 1e-18, restr, table,
                                 parallelization_mode=case["par"]) for p, e in zip(psi, case["es"])]
            elif case["second"] == "rixs":
                g = sp.getRIXSmap(n, dict(hop), [dict(t) for t in tops[:1]], [dict(t) for t in tops[-2:]], psi, case["es"],
                                  w[:2], np.array(w), 0.6, 0.5, restr, slaterWeightMin=1e-18, h_dict_ground=table,
                                  parallelization_mode="wIn" if case["par"] == "serial" else "H_build_wIn")
            elif case["second"] == "spectra":
                tt = tops if turn == 0 else tops[::-1]
                g = sp.getSpectra(n, dict(hop), [dict(t) for t in tt], psi, case["es"], np.array(w), 0.4, restr,
                                  slaterWeightMin=1e-18, parallelization_mode="H_build" if case["par"] == "H_build" else "eigen_states")
                g = g if turn == 0 else g[:, ::-1]
            else:
                g = []
            pair.append(np.array(g))
        return out, memo_end, hits, pair, ctx.counters.get("bicgstab_not_converged", 0)

    o = R.lib(case["nranks"], case["sim"], program)
    require_clean(o, "history of cached calls")
    calls = [h for h in case["hist"] if h[0] == "apply"]
    norm1 = max(sum(abs(v) for v in q.values()) for q in (op, op2))
    for r, (out, memo, hits, pair, bad) in enumerate(o.results):
        for i, ((got, intact), h) in enumerate(zip(out, calls)):
            if not intact:
                raise Violation("argument-changed", f"rank {r}, call {i}: the state passed in was changed")
            psi = {s: a * h[2] for s, a in psis[h[1]].items()}
            two = len(h) > 4 and h[4]
            if h[6:] and h[6]:
                psi.pop(min(psi, key=lambda s: ref.to_bytes(s, n)))
            want = ref.apply_op(op2 if two else op, psi, restr2 if two else restr)
            tol = 1e-10 * (1 + norm1) + 2 * np.sqrt(cut) * (1 + sum(abs(a) for a in psi.values()))
            g = {ref.from_bytes(b, n): v for b, v in got.items()}
            for k in set(g) | set(want):
                if not abs(g.get(k, 0) - want.get(k, 0)) <= tol:
                    raise Violation("memo-changes-result", f"rank {r}, call {i} of {len(calls)}: amplitude {g.get(k, 0)}, "
                                    f"operator gives {want.get(k, 0)} (after {[x[0] for x in case['hist']]})")
        for b, row in memo.items():
            want = ref.apply_op(op, {ref.from_bytes(b, n): 1}, restr)
            g = {ref.from_bytes(k, n): v for k, v in row.items()}
            for k in set(g) | set(want):
                if not abs(g.get(k, 0) - want.get(k, 0)) <= 1e-10 * (1 + norm1) + 2 * np.sqrt(cut):
                    raise Violation("memo-corrupt", f"rank {r}: the memo holds a wrong image of a product state")
        if case["second"] != "none" and not bad:
            d = np.abs(pair[0] - pair[1])
            lim = (1e-3 if case["second"] == "rixs" else 1e-5) * max(1.0, np.abs(pair[0]).max() if pair[0].size else 1)
            if d.size and not d.max() <= lim:
                raise Violation("cache-changes-result", f"rank {r}: {case['second']} through a reused table differs by {d.max():.3g}")
        if hits:
            R.probe("call answered from the memo")
            R.key = (case["second"], case["sim"]["seed"])


def shrink(case):
    if case["second"] != "none":
        c = copy.deepcopy(case)
        c["second"] = "none"
        yield c
    yield from drop_items(case, ["hist"], 1)
    yield from drop_items(case, ["op"], 0)
    if len(case["tops"]) > 1:
        yield from drop_items(case, ["tops"], 1)
    for i in range(len(case["psis"])):
        yield from drop_items(case, ["psis", i], 1)
    if case["restr"]:
        c = copy.deepcopy(case)
        c["restr"] = None
        yield c
