"""Plotting what an interrupted run, a full disk or a damaged directory left behind: only true data, or a failure."""

import copy
import hashlib
import os
import random
import shutil

import numpy as np

from sim import job
from sim.driver import Violation

from . import e2e, plots
from .common import ASSUME, REAL_JOB, STUB_JOB, sim_spec
from .P14 import _frac, with_bytes
from .P16 import kill_fault, with_call

ID = "P20"
COUNTS = {"quick": 160, "thorough": 12000}
RULE = ("A case is a directory left by a run on 1-3 ranks (any mesh; perhaps over the results of another problem) that was killed (the file being written cut at any byte), met a full "
        "disk or failing HDF5 operations, or finished; there a result file may be cut at any byte or after any row, emptied or removed; then both plot programs run, also with reads that fail. "
        "Non-trivial: a result file is incomplete, missing or unreadable. Distinct by (input, event sequence).")
REAL = REAL_JOB + ["impurityModel.plotScripts.plotRIXS and plotSpectra as __main__"]
STUB = STUB_JOB + ["matplotlib (records what is drawn)"]
ASSUMPTIONS = ASSUME + ["Damage that leaves a well-formed file (flipped bits in numbers) cannot be noticed by a plot program and is left out."]


def generate(rng, index, tier):
    nranks = rng.choice([1, 1, 2, 3])
    spec = sim_spec(rng, nranks, perturb_eig=False, horizon=2000)
    spec["max_steps"] = 2000000
    cut, tear = None, None
    k = rng.random()
    if k < 0.3:
        spec["faults"].append(kill_fault(rng, nranks))
        tear = round(rng.random(), 3) if rng.random() < 0.7 else None
    elif k < 0.5:
        if rng.random() < 0.5:
            f = {"kind": "disk_full", "file": rng.choice(list(e2e.FILES)[:5]), "frac": _frac(rng)}
        else:
            f = {"kind": "h5_error", "nth": rng.randrange(2, 22), "errno": "EIO"}
        spec["faults"].append(f)
    elif k < 0.92:
        cut = [rng.choice(["RIXS.bin", "RIXS.bin", "spectra.h5"]), rng.choice(["bytes", "bytes", "row", "row", "row", "empty", "gone"]),
               round(rng.random(), 4), rng.choice([0, 0, 1, 3, 4])]
    big = rng.random() < 0.3
    if big:
        spec["mesh"] = e2e.MESH_BIG
    read = [[], []]
    if rng.random() < 0.15:
        read[0].append({"kind": "open_error", "file": "RIXS.bin", "errno": rng.choice(["EIO", "EACCES"]), "write": False})
    if rng.random() < 0.15:
        read[1].append({"kind": "h5_error", "nth": 1, "errno": rng.choice(["EIO", "EACCES"])})
    return {"nranks": nranks, "sim": spec, "cfg": e2e.pool_config(rng.randrange(3), index, 16, small=True),
            "tear": tear, "cut": cut, "old": e2e.pool_config(rng.randrange(3), index, 16, small=True) if rng.random() < 0.4 else None, "read": read, "default_name": rng.random() < 0.5, "plot_seed": rng.getrandbits(30)}


def _cut(d, cut, ncols):
    name, how, frac, extra = cut
    p = os.path.join(d, name)
    size = os.path.getsize(p)
    if how == "gone":
        os.remove(p)
    elif how == "empty":
        os.truncate(p, 0)
    elif how == "row" and name == "RIXS.bin":
        row = 4 * (ncols + 1)
        n = int(frac * (size // row)) if frac < 0.6 else 1 + int(frac * 1000) % 3
        os.truncate(p, min(size - 1, row * n + extra))
    else:
        os.truncate(p, int(size * frac))


def _sums(d):
    out = {}
    for f in e2e.FILES:
        p = os.path.join(d, f)
        if os.path.exists(p):
            with open(p, "rb") as h:
                out[f] = hashlib.blake2b(h.read(), digest_size=8).hexdigest()
    return out


def run(case, R):
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        return R.probe("skipped: fully degenerate configuration")
    mesh = case["sim"].get("mesh") or e2e.MESH
    nwin, nloss = mesh["50"], mesh["4000"]
    d = job.scratch_dir("p20")
    try:
        e2e.write_inputs(cfg, d)
        if case["old"] and e2e.settle(case["old"]):
            for f, b in e2e.old_files(e2e.settle(case["old"])).items():
                with open(os.path.join(d, f), "wb") as h:
                    h.write(b)
            R.probe("results of an earlier problem in the directory")
        spec = with_bytes(with_call(case["sim"], e2e.base_info(cfg)), e2e.base_info(cfg)["sizes"])
        o = e2e.launch(R, cfg, case["nranks"], spec, d)
        if o.killed:
            fs = o.sim.fs
            if case["tear"] is not None and fs.last_write and fs.log and fs.log[-1][2] == fs.last_write and fs.tear(fs.last_write, case["tear"]):
                o.sim.fire("torn_write")
            shutil.rmtree(d)
            os.rename(d + ".crash", d)
        elif case["cut"] and o.success:
            _cut(d, case["cut"], nwin)
            o.sim.fire("cut_file")
        _plot(case, R, d, nwin, nloss, o.describe())
    finally:
        job.cleanup(d, d + ".crash")


def _plot(case, R, d, nwin, nloss, what):
    before = _sums(d)
    out = e2e.read_outputs(d, ("RIXS.bin", "spectra.h5"))
    p = os.path.join(d, "RIXS.bin")
    rx, whole = None, False
    if os.path.exists(p):
        raw = np.fromfile(p, dtype=np.float32)
        if len(raw) and int(raw[0]) in (e2e.MESH["50"], e2e.MESH_BIG["50"]):  # a left-over file may have another mesh
            nwin = int(raw[0])
            nloss = {m["50"]: m["4000"] for m in (e2e.MESH, e2e.MESH_BIG)}[nwin]
        whole = os.path.getsize(p) == 4 * (nwin + 1) * (nloss + 1)
        n = len(raw) // (nwin + 1)
        rx = raw[: n * (nwin + 1)].reshape(n, nwin + 1) if n and int(raw[0]) == nwin else None
    h5 = out["spectra.h5"]
    full5 = isinstance(h5, dict) and e2e.H5_KEYS <= set(h5)
    rng = random.Random(case["plot_seed"])
    for prog, name, faults, complete in (("plotRIXS", "RIXS.bin", case["read"][0], whole), ("plotSpectra", "spectra.h5", case["read"][1], full5)):
        spec = {"seed": rng.getrandbits(30), "policy": "uniform", "faults": [dict(f) for f in faults], "mesh": None}
        argv = [] if prog == "plotRIXS" and case["default_name"] else [name]
        o = R.script(1, spec, "impurityModel.plotScripts." + prog, argv, d)
        here = f"{prog} in a directory left by a run with this end: {what}; files {sorted(before)}"
        failed = [k for k in o.sim.fired if k.split(":")[0] in ("open_error", "h5_error")]
        if o.hang or o.overrun:
            raise Violation("never-ends", f"{here}: {o.describe()}")
        if not o.success:
            if complete and not failed:
                raise Violation("complete-results-not-plotted", f"{here}: {o.describe()}")
            R.probe(f"{prog} failed")
            continue
        try:
            if prog == "plotRIXS":
                if rx is None or len(rx) < 2:
                    raise Violation(plots.CLS, f"{name} holds no map")
                plots.rixs_program(o.sim.ranks[0].plots, rx)
            else:
                if not isinstance(h5, dict):
                    raise Violation(plots.CLS, f"{name} cannot be read")
                plots.spectra_program(o.sim.ranks[0].plots, h5)
        except Violation as v:
            raise Violation(v.cls, f"{here}: {v.detail}") from None
        R.probe(f"{prog} shows {'complete' if complete else 'partial'} results")
    if _sums(d) != before:
        raise Violation("results-changed", f"a plot program changed a result file ({what})")
    R.observe([sorted(before), bool(whole), bool(full5)])
    if not (whole and full5) or any(case["read"]):
        R.key = case["sim"]["seed"]


def shrink(case):
    for k in ("old", "cut", "tear"):
        if case[k] is not None:
            yield dict(copy.deepcopy(case), **{k: None})
    for i in (0, 1):
        if case["read"][i]:
            c = copy.deepcopy(case)
            c["read"][i] = []
            yield c
    yield from e2e.shrink_cfg(case)
