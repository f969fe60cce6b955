"""Whole program: the report printed by the first rank states the exact energies, expectation values and weights."""

import ast
import re

import numpy as np

from sim import job, phys, ref
from sim.driver import Violation

from . import e2e
from .common import ASSUME, REAL_JOB, STUB_JOB, require_clean, sim_spec

ID = "P19"
COUNTS = {"quick": 90, "thorough": 3000}
RULE = ("A case is a full run of one of the two spectra scripts on a random small impurity problem (temperature, field, baths varied) with 1-5 ranks, "
        "a schedule, stalls, clock jumps and per-rank eigensolver choices; non-trivial: at least 2 ranks. Distinct by (input, event sequence).")
REAL, STUB = REAL_JOB, STUB_JOB
ASSUMPTIONS = ASSUME + ["Inside a degenerate level only sums over the level are compared (single states are not unique).",
                        "Energy meshes are reduced (np.linspace knob)."]
THERMAL = ["<E-E0>", "<N(3d)>", "<N(egDn)>", "<N(egUp)>", "<N(t2gDn)>", "<N(t2gUp)>", "<Lz(3d)>", "<Sz(3d)>", "<L^2(3d)>", "<S^2(3d)>"]
COLUMNS = ["N(3d)", "N(egDn)", "N(egUp)", "N(t2gDn)", "N(t2gUp)", "Lz(3d)", "Sz(3d)", "L^2(3d)", "S^2(3d)"]
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def generate(rng, index, tier):
    nranks = rng.choice([1, 2, 2, 3, 4, 5])
    spec = sim_spec(rng, nranks, perturb_eig=rng.random() < 0.6, horizon=3000)
    spec["max_steps"] = 2000000
    cfg = e2e.config(rng, small=rng.random() < 0.7)
    cfg["T"] = rng.choice([300, 20, 100, 1000, 4000, 20000])
    if rng.random() < 0.15:
        keep = cfg["T"]
        npsi = rng.choice([9, 12, 16, 24])
        for _ in range(10):
            cfg = dict(e2e.config(rng, cf_share=0.05), nPsiMax=npsi, T=keep, tolPrintOccupation=0.5)
            if abs((e2e.safe_npsi(cfg) or 0) - npsi) < 3 and cfg["size"][0] != 9:
                break
        cfg["energy_cut"] = min(cfg["energy_cut"], 0.3 * 11604 / cfg["T"]) if cfg["T"] > 500 else cfg["energy_cut"]
    cfg["hField"] = rng.choice([[0, 0, 0.0001], [0, 0, 0], [0.01, 0.02, 0.03], [0, 0.3, -0.4]])
    cfg["tolPrintOccupation"] = rng.choice([0.5, 0.5, 0.2, 0.05, 0.01, 0.001, 0])
    cfg["nPrintSlaterWeights"] = rng.choice([3, 3, 0, 1, 2, 5, 50])
    return {"nranks": nranks, "sim": spec, "cfg": cfg}


def _norm2(op, psi):
    return sum(abs(x) ** 2 for x in ref.apply_mask(op, psi, cut=0).values())


def expectation(psi):
    """The columns of the table for one state."""
    d = {k: 0.0 for k in COLUMNS}
    for s, a in psi.items():
        w = abs(a) ** 2
        for sp, sz in ((0, -0.5), (1, 0.5)):
            for m in range(-2, 3):
                if s >> phys.orb(2, sp, m) & 1:
                    d["N(3d)"] += w
                    d["Lz(3d)"] += w * m
                    d["Sz(3d)"] += w * sz
    u = phys.cubic()
    for sp, name in ((0, "Dn"), (1, "Up")):
        for i in range(5):
            # norm of the annihilated state: c_i = sum_j conj(u_ji) c_j
            op = {((phys.orb(2, sp, j - 2), "a"),): np.conj(u[j, i]) for j in range(5) if u[j, i]}
            d[f"N({'eg' if i < 2 else 't2g'}{name})"] += _norm2(op, psi)
    sz, lz, spl, smi, lpl, lmi = ({} for _ in range(6))
    for m in range(-2, 3):
        up, dn = phys.orb(2, 1, m), phys.orb(2, 0, m)
        spl[((up, "c"), (dn, "a"))] = 1.0
        smi[((dn, "c"), (up, "a"))] = 1.0
        for s in (0, 1):
            o = phys.orb(2, s, m)
            lz[((o, "c"), (o, "a"))] = float(m)
            sz[((o, "c"), (o, "a"))] = s - 0.5
            if m < 2:
                v = np.sqrt(6 - m * (m + 1))
                lpl[((phys.orb(2, s, m + 1), "c"), (o, "a"))] = v
                lmi[((o, "c"), (phys.orb(2, s, m + 1), "a"))] = v
    d["L^2(3d)"] = _norm2(lz, psi) + (_norm2(lpl, psi) + _norm2(lmi, psi)) / 2
    d["S^2(3d)"] = _norm2(sz, psi) + (_norm2(spl, psi) + _norm2(smi, psi)) / 2
    return d


def density(psi):
    """<psi| c_j^+ c_i |psi> in cubic harmonics as a 10 x 10 matrix, row and column 5 * spin + i."""
    u = phys.cubic()
    ann = []
    for sp in (0, 1):
        for i in range(5):
            ann.append(ref.apply_mask({((phys.orb(2, sp, j - 2), "a"),): np.conj(u[j, i]) for j in range(5) if u[j, i]}, psi, cut=0))
    return np.array([[sum(np.conj(aj[s]) * x for s, x in ai.items() if s in aj) for aj in ann] for ai in ann])


def dropped(sp, v):
    """How far leaving out product states of weight below 1e-7 may move an expectation value: for this state, for any mixture."""
    w = np.abs(v) ** 2
    return 1e-4 + 2 * np.sqrt(np.sum(w[w < 1.01e-7])), 1e-4 + 2 * np.sqrt(1.01e-7 * len(w))


_cache = {}


def solve(cfg):
    key = e2e.cfg_key(cfg)
    if key not in _cache:
        sp = ref.Space(e2e.hamiltonian(cfg), e2e.basis(cfg), None, grow=False)
        es, vecs = np.linalg.eigh(sp.h)
        states = [{s: vecs[j, i] for j, s in enumerate(sp.states) if abs(vecs[j, i]) > 1e-9} for i in range(cfg["nPsiMax"])]
        _cache[key] = es[:cfg["nPsiMax"]], states, [expectation(p) for p in states], [density(p) for p in states], \
            [dropped(sp, vecs[:, i]) for i in range(cfg["nPsiMax"])]
    return _cache[key]


def levels(es):
    out = [[0]]
    for i in range(1, len(es)):
        if es[i] - es[i - 1] < 1e-5:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def number(text):
    return complex(text.replace(" ", "")).real if "j" in text else float(text)


def check_weights(text, cfg, es, states, sizes):
    """Number of product states, the highest weights and which product states have them."""
    nprint = cfg.get("nPrintSlaterWeights", 3)
    nso = 16 + (cfg.get("pbath") or [0])[0] + cfg["size"][1]
    tops = re.findall(r"Highest \(product state\) weights:\s*\[([^\]]*)\]\s*Corresponding product states:\n(.*?)\n\n", text, re.S)
    if len(tops) != (len(es) if nprint else 0):
        raise Violation("report-missing", f"highest weights are reported for {len(tops)} of {len(es)} states, nPrintSlaterWeights = {nprint}")
    for lev in levels(es):
        if len(lev) > 1:
            continue
        i = lev[0]
        ws = sorted((abs(a) ** 2 for a in states[i].values()), reverse=True)
        lo, hi = sum(x > 1.01e-7 for x in ws), sum(x > 0.99e-7 for x in ws)
        if not lo <= sizes[i] <= hi:
            raise Violation("wrong-report", f"state {i} consists of {sizes[i]} product states, exact {hi}")
        if not nprint:
            continue
        got = [float(x) for x in tops[i][0].split()]
        if len(got) != min(nprint, sizes[i]) or not np.allclose(got, ws[:len(got)], rtol=1e-4, atol=1e-6):
            raise Violation("wrong-report", f"state {i}: highest weights {got}, exact {ws[:nprint]}")
        named = literals(tops[i][1])
        if len(named) != len(got):
            raise Violation("wrong-report", f"state {i}: {len(got)} weights but {len(named)} product states are printed")
        nbytes = -(-nso // 8)
        for x, b in zip(got, named):
            b = b.ljust(nbytes, b"\0")
            s = sum(1 << k for k in range(nso) if b[k // 8] >> (7 - k % 8) & 1)
            if not abs(abs(states[i].get(s, 0)) ** 2 - x) <= 1e-6 + 1e-4 * x:
                raise Violation("wrong-report", f"state {i}: weight {x} is printed for a product state of weight {abs(states[i].get(s, 0)) ** 2:.6f}")


def check_density(text, cfg, es, dens, drop):
    """Printed elements of the density matrix: right values, and every one above the printing threshold is there."""
    tol = cfg.get("tolPrintOccupation", 0.5)
    parts = re.split(r"^Eigenstate (\d+)$", text.split("Density matrix (in cubic harmonics basis):", 1)[-1], flags=re.M)
    blocks = {}
    for k in range(1, len(parts) - 1, 2):
        if int(parts[k]) in blocks:
            raise Violation("wrong-report", f"density matrix of state {parts[k]} is printed twice")
        blocks[int(parts[k])] = parts[k + 1]
    if sorted(blocks) != list(range(len(es))):
        raise Violation("report-missing", f"density matrices are printed for states {sorted(blocks)} of {len(es)}")
    got = {}
    for i, b in blocks.items():
        m = np.full((10, 10), np.nan, complex)
        for x in re.finditer(r"^(?:Diagonal: \(i,s\) = \((\d), (\d)\) , occupation =|Off-diagonal: \(i,si\), \(j,sj\) = \(\((\d), (\d)\), \((\d), (\d)\)\) ,) *(\S.*)$", b, re.M):
            v = complex(x[7].replace(" ", ""))
            p, q = (5 * int(x[1]) + int(x[2]),) * 2 if x[1] else (5 * int(x[3]) + int(x[4]), 5 * int(x[5]) + int(x[6]))
            if (p == q) != bool(x[1]) or not np.isnan(m[p, q]):
                raise Violation("wrong-report", f"density matrix element printed twice or under the wrong heading: {x[0]}")
            m[p, q] = v
        got[i] = m
    for lev in levels(es):
        if len(lev) == 1:
            m, exact, eps = got[lev[0]], dens[lev[0]], drop[lev[0]][0]
            for p in range(10):
                for q in range(10):
                    if np.isnan(m[p, q]):
                        if abs(exact[p, q]) > tol + eps:
                            raise Violation("wrong-report", f"state {lev[0]}: density matrix element {p, q} = {exact[p, q]:.4f} is not printed (threshold {tol})")
                    elif abs(exact[p, q]) < tol - eps:
                        raise Violation("wrong-report", f"state {lev[0]}: density matrix element {p, q} = {exact[p, q]:.4f} is printed (threshold {tol})")
                    elif not abs(m[p, q] - exact[p, q]) <= 8e-3 + eps:
                        raise Violation("wrong-report", f"state {lev[0]}: density matrix element {p, q} is printed as {m[p, q]}, exact {exact[p, q]:.4f}")
        else:
            # elements that are not printed lie below the threshold
            m, exact = sum(np.nan_to_num(got[i]) for i in lev), sum(dens[i] for i in lev)
            slack = (8e-3 + drop[lev[0]][1]) * len(lev) + sum(np.isnan(got[i]) for i in lev) * tol
            if not np.all(np.abs(m - exact) <= slack):
                p, q = np.unravel_index(np.argmax(np.abs(m - exact) - slack), (10, 10))
                raise Violation("wrong-report", f"states {lev}: sum of density matrix element {p, q} is printed as {m[p, q]}, exact {exact[p, q]:.4f}")


def literals(text):
    """The bytes literals of a printed numpy array."""
    return [ast.literal_eval(m[0]) for m in re.finditer(r"""b'((?:[^'\\]|\\.)*)'|b"((?:[^"\\]|\\.)*)\"""", text)]


def check_report(text, cfg):
    es, states, ex, dens, drop = solve(cfg)
    cut = 10 * e2e.K_B * cfg["T"]
    if np.any(np.abs(es - es[0] - cut) < 1e-5):
        return False
    m = es - es[0] < cut
    w = np.exp(-(es[m] - es[0]) / (e2e.K_B * cfg["T"]))
    w /= w.sum()
    want = {"<" + k + ">": float(sum(x * e[k] for x, e in zip(w, ex))) for k in COLUMNS}
    want["<E-E0>"] = float(np.sum(w * (es[m] - es[0])))
    for k in THERMAL:
        found = re.findall(r"^" + re.escape(k) + r"\s*=\s*(\S+)", text, re.M)
        if len(found) != 1:
            raise Violation("report-missing", f"{k} is printed {len(found)} times")
        if not abs(number(found[0]) - want[k]) <= 1.5e-3 + 1e-5 * abs(want[k]):
            raise Violation("wrong-report", f"{k} printed as {found[0]}, at T = {cfg['T']} it is {want[k]:.5f}")
    found = re.findall(r"^E0\s*=\s*(\S+)", text, re.M)
    if len(found) != 1:
        raise Violation("report-missing", f"E0 is printed {len(found)} times")
    if not abs(number(found[0]) - es[0]) <= 1.1e-4:
        raise Violation("wrong-report", f"E0 printed as {found[0]}, exact {es[0]:.6f}")
    rows = re.findall(r"^ *(\d+) +((?:" + NUM + r"(?:[-+][\d.]+j)? *){10})$", text, re.M)
    table = {}
    for i, rest in rows:
        if int(i) in table:
            raise Violation("wrong-report", f"state {i} appears twice in the table")
        table[int(i)] = [number(x) for x in rest.split()]
    if sorted(table) != list(range(len(es))):
        raise Violation("report-missing", f"the table of states has rows {sorted(table)}, expected {len(es)} states")
    for lev in levels(es):
        for i in lev:
            if not abs(table[i][0] - (es[i] - es[0])) <= 1.1e-3:
                raise Violation("wrong-report", f"state {i}: E-E0 printed as {table[i][0]}, exact {es[i] - es[0]:.5f}")
        for k, name in enumerate(COLUMNS):
            got, exact = sum(table[i][k + 1] for i in lev), sum(ex[i][name] for i in lev)
            # two digits are printed
            if not abs(got - exact) <= 6e-3 * len(lev) + 1e-3:
                raise Violation("wrong-report", f"states {lev}: sum of {name} printed as {got:.3f}, exact {exact:.4f}")
    sizes = [int(x) for x in re.findall(r"^Consists of (\d+) product states", text, re.M)]
    if len(sizes) != len(es):
        raise Violation("report-missing", f"weights are reported for {len(sizes)} of {len(es)} states")
    check_weights(text, cfg, es, states, sizes)
    check_density(text, cfg, es, dens, drop)
    return True


def run(case, R):
    n = case["nranks"]
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        R.probe("skipped: no well-defined number of states")
        return
    d = job.scratch_dir("p19")
    try:
        e2e.write_inputs(cfg, d)
        o = e2e.launch(R, cfg, n, case["sim"], d)
        require_clean(o, f"{e2e.MODULE[cfg['kind']]} on {n} ranks")
    finally:
        job.cleanup(d)
    if not check_report(o.out[0], cfg):
        R.probe("skipped: a state lies at the cut-off of the average")
        return
    for r in range(1, n):
        for k in THERMAL + ["E0"]:
            if re.search(r"^" + re.escape(k) + r"\s*=", o.out[r], re.M):
                raise Violation("report-repeated", f"rank {r} prints {k} too")
    R.probe(cfg["kind"])
    es = solve(cfg)[0]
    if len(es) > 1 and es[-1] - es[0] > 1e-5 and es[1] - es[0] < 10 * e2e.K_B * cfg["T"]:
        R.probe("several thermally populated states")
    if n > 1:
        R.key = case["sim"]["seed"]


shrink = e2e.shrink_cfg
