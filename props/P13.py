"""What a successful run leaves on disk: the complete result set, written by one process, readable by the plot programs."""

import hashlib
import os
import random

import numpy as np

from sim import job, ref
from sim.driver import Violation

from . import e2e, plots
from .common import ASSUME, REAL_JOB, STUB_JOB, require_clean, sim_spec

ID = "P13"
COUNTS = {"quick": 100, "thorough": 10000}
RULE = ("A case is a full run of a spectra script on 1-5 ranks, under a schedule with stalls, in a directory that holds results of "
        "an earlier run, garbage under the names of the output files and files of the user, followed by both plot programs; "
        "non-trivial: old files were there or several ranks ran. Distinct by (input, event sequence).")
REAL = REAL_JOB + ["impurityModel.plotScripts.plotRIXS and plotSpectra as __main__"]
STUB = STUB_JOB + ["matplotlib (records what is drawn)"]
ASSUMPTIONS = ASSUME
USER = {"notes.txt": b"do not touch\n", "PS.dat.old": b"1 2 3\n", "RIXS.bin.bak": b"\x00" * 64, "out/keep.h5": b"not hdf5"}


def generate(rng, index, tier):
    nranks = rng.choice([1, 2, 2, 3, 4, 5])
    spec = sim_spec(rng, nranks, perturb_eig=False, horizon=3000)
    spec["max_steps"] = 2000000
    spec["io_points"] = rng.random() < 0.5
    stale = {}
    if rng.random() < 0.8:
        for f in e2e.FILES:
            k = rng.random()
            if k < 0.3:
                stale[f] = ["garbage", rng.choice([0, 1, 100, 100000]), rng.getrandbits(30)]
            elif k < 0.65:
                stale[f] = ["longer"]
            elif k < 0.8:
                stale[f] = ["other"]
    return {"nranks": nranks, "sim": spec, "cfg": e2e.pool_config(rng.randrange(3), index, 16, small=True), "stale": stale,
            "user": rng.random() < 0.7, "other": e2e.pool_config(rng.randrange(3), index, 16, small=True)}


def _tree(d):
    out = {}
    for base, _dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.blake2b(h.read(), digest_size=8).hexdigest()
    return out


def _old_files(case, d):
    if case["user"]:
        os.makedirs(os.path.join(d, "out"), exist_ok=True)
        for f, b in USER.items():
            with open(os.path.join(d, f), "wb") as h:
                h.write(b)
    if not case["stale"]:
        return
    for f, v in case["stale"].items():
        if v[0] == "garbage":
            b = random.Random(v[2]).randbytes(v[1])
        else:
            b = e2e.old_files(case["other"])[f]
            if v[0] == "longer":
                b = b + b"9.0 " * 30000
        with open(os.path.join(d, f), "wb") as h:
            h.write(b)


def check_metadata(out, cfg):
    z, h5 = out["data.npz"], out["spectra.h5"]
    n0, nb, nv, tol, dval, dcon = cfg["size"]
    pb, pv, ptol, pcon = cfg.get("pbath") or (0, 0, 0, 0)
    want = {"Fdd": cfg["Fdd"], "Fpd": cfg["Fpd"], "Gpd": cfg["Gpd"], "xi_2p": cfg["xi_2p"], "xi_3d": cfg["xi_3d"],
            "chargeTransferCorrection": cfg["c"], "hField": cfg["hField"], "nPsiMax": cfg["nPsiMax"], "T": cfg["T"],
            "delta": cfg["delta"], "deltaRIXS": cfg["deltaRIXS"], "deltaNIXS": cfg["deltaNIXS"],
            "energy_cut": cfg["energy_cut"] * e2e.K_B * cfg["T"], "n_spin_orbitals": 16 + pb + nb, "Fpp": cfg.get("Fpp", [0, 0, 0])}
    for k, v in want.items():
        if k not in z or not np.allclose(np.asarray(z[k], dtype=float), np.asarray(v, dtype=float), rtol=1e-6, atol=1e-12):
            raise Violation("wrong-metadata", f"data.npz records {k} = {z.get(k)}, the run used {v}")
    for k, v in (("nBaths", {1: pb, 2: nb}), ("nValBaths", {1: pv, 2: nv}), ("n0imps", {1: 6, 2: n0}), ("dnTols", {1: ptol, 2: tol}),
                 ("dnValBaths", {1: 0, 2: dval}), ("dnConBaths", {1: pcon, 2: dcon})):
        if k not in z or dict(z[k].item()) != v:
            raise Violation("wrong-metadata", f"data.npz records {k} = {z.get(k)}, the run used {v}")
    for k, m in (("w", (-25, 25, e2e.MESH["3000"])), ("wIn", (-10, 20, e2e.MESH["50"])), ("wLoss", (-2, 12, e2e.MESH["4000"]))):
        if not np.allclose(h5[k], np.linspace(*m), rtol=1e-12, atol=1e-12):
            raise Violation("wrong-metadata", f"spectra.h5/{k} is not the energy mesh")
    if "ls" in z and [int(x) for x in z["ls"]] != [1, 2]:
        raise Violation("wrong-metadata", f"data.npz records ls = {z['ls']}")
    for k in ("h0_filename", "h0_CF_filename"):
        if k in z and os.path.basename(str(z[k])) != "h0.in":
            raise Violation("wrong-metadata", f"data.npz records {k} = {z[k]}")
    for k in ("epsilons", "epsilonsRIXSin", "epsilonsRIXSout"):
        if not np.allclose(np.asarray(z[k], dtype=complex), np.eye(3)):
            raise Violation("wrong-metadata", f"data.npz records {k} = {z[k]}, the spectra are for x, y and z polarisation")
    got = {tuple(sorted(i)): tuple(v) for i, v in dict(z["restrictions"].item()).items() if i}
    want = {tuple(sorted(i)): tuple(v) for i, v in e2e.restrictions(cfg).items() if i}
    if got != want:
        raise Violation("wrong-metadata", f"data.npz records restrictions {got}, the options mean {want}")
    bits = e2e.basis(cfg)[:40]
    # and states with a core hole
    bits = sorted(set(bits) | {s ^ (1 << i) | (1 << j) for s in bits[:12] for i in range(6) for j in range(6, 16)
                               if s >> i & 1 and not s >> j & 1})
    hop = z["hOp"].item()
    a = ref.Space(hop, bits, None, grow=False).h
    b = ref.Space(e2e.hamiltonian(cfg), bits, None, grow=False).h
    if not np.abs(a - b).max() <= 1e-8:
        raise Violation("wrong-metadata", "the Hamiltonian in data.npz is not the one of the input files and options")
    if not all(h5[k].shape == v.shape and np.allclose(h5[k], v, rtol=1e-12, atol=1e-14)
               for k, v in zip(("r", "RiNIXS", "RjNIXS"), e2e.radial()[[0, 1, 1]])):
        raise Violation("wrong-metadata", "spectra.h5 does not hold the radial data of the input file")


def check_thermal(out, cfg):
    h5 = out["spectra.h5"]
    e = h5["E"]
    for k in e2e.DATS + ("RIXS",):
        x = h5[k]
        n = x.shape[0]
        w = np.exp(-(e[:n] - e[0]) / (e2e.K_B * cfg["T"]))
        want = np.tensordot(w / w.sum(), x, axes=(0, 0))
        got = h5[k + "thermal"]
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-9 * max(1, np.abs(want).max())):
            raise Violation("inconsistent-average", f"{k}thermal is not the thermal average of {k}")


def check_plots(R, case, out, d):
    spec = {"seed": case["sim"]["seed"], "policy": "uniform", "faults": [], "mesh": None}
    for argv in ([], ["RIXS.bin"]):
        o = R.script(1, spec, "impurityModel.plotScripts.plotRIXS", argv, d)
        require_clean(o, "plotRIXS")
        plots.rixs_program(o.sim.ranks[0].plots, out["RIXS.bin"])
    o = R.script(1, spec, "impurityModel.plotScripts.plotSpectra", ["spectra.h5"], d)
    require_clean(o, "plotSpectra")
    plots.spectra_program(o.sim.ranks[0].plots, out["spectra.h5"])


def run(case, R):
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        return R.probe("skipped: fully degenerate configuration")
    base = e2e.baseline(cfg)
    d = job.scratch_dir("p13")
    try:
        e2e.write_inputs(cfg, d)
        _old_files(case, d)
        before = _tree(d)
        o = e2e.launch(R, cfg, case["nranks"], case["sim"], d)
        require_clean(o, f"run on {case['nranks']} ranks with old files {sorted(case['stale'])}")
        out = e2e.read_outputs(d)
        what = f"{case['nranks']} ranks, old files {sorted(case['stale'])}"
        e2e.check_complete(out, what)
        e2e.compare(out, base, what, "results-not-replaced" if case["stale"] else "wrong-results")
        after = _tree(d)
        extra = sorted(set(after) - set(before) - set(e2e.FILES))
        if extra:
            raise Violation("leftover-files", f"{what}: unexpected files {extra}")
        for f in before:
            if f not in e2e.FILES and after.get(f) != before[f]:
                raise Violation("other-file-changed", f"{what}: {f} was changed or removed")
        writers = {}
        for rank, op, name in o.sim.fs.log:
            if op == "w":
                writers.setdefault(name, set()).add(rank)
        for f, ranks in sorted(writers.items()):
            if len(ranks) > 1:
                raise Violation("several-writers", f"{what}: {f} is written by ranks {sorted(ranks)}")
        check_metadata(out, cfg)
        check_thermal(out, cfg)
        check_plots(R, case, out, d)
        if any(_tree(d).get(f) != after[f] for f in e2e.FILES):
            raise Violation("results-changed", f"{what}: a plot program changed a result file")
        R.observe(sorted(set(after) - {"data.npz"}))
    finally:
        job.cleanup(d)
    for v in case["stale"].values():
        R.probe("old file: " + v[0])
    if case["nranks"] > 1 or case["stale"]:
        R.key = case["sim"]["seed"]


def shrink(case):
    import copy

    for f in sorted(case["stale"]):
        c = copy.deepcopy(case)
        del c["stale"][f]
        yield c
    if case["user"]:
        yield dict(copy.deepcopy(case), user=False)
    yield from e2e.shrink_cfg(case)
