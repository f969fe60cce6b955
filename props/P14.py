"""A failing disk never goes unnoticed: success means complete and correct output files."""

import os

from sim import job
from sim.driver import Violation

from . import e2e
from .common import ASSUME, REAL_JOB, STUB_JOB, sim_spec

ID = "P14"
COUNTS = {"quick": 260, "thorough": 10000}
RULE = ("A case is a full run of a spectra script on 1-3 ranks with one or two I/O faults: an output or input file that cannot be "
        "opened, a disk that is full after k bytes of a given file, an HDF5 operation that fails, or HDF5 writes that hit a full "
        "disk; non-trivial: the fault fired. Distinct by (input, event sequence).")
REAL, STUB = REAL_JOB, STUB_JOB
ASSUMPTIONS = ASSUME + ["A full disk is emulated by the kernel's file size limit on the targeted file."]
ERRNOS = ["EACCES", "EIO", "ENOSPC", "EROFS", "EMFILE"]


def _frac(rng):
    """Where the disk is full, as a share of the file: nothing fits, all but the last byte fits, or anywhere between."""
    return rng.choice([0, 1e-9, round(rng.random(), 4), round(rng.random(), 4), 0.5, 1])


def with_bytes(spec, sizes):
    out = dict(spec, faults=[dict(f) for f in spec["faults"]])
    for f in out["faults"]:
        if "frac" in f:
            size = sizes[f.get("file", "spectra.h5")]
            f["bytes"] = min(size - 1, int(size * f["frac"] + (f["frac"] == 1e-9)))
    return out


def generate(rng, index, tier):
    nranks = rng.choice([1, 1, 2, 2, 3])
    spec = sim_spec(rng, nranks, perturb_eig=False, horizon=2000)
    spec["max_steps"] = 2000000
    files = list(e2e.FILES)[:5] + ["data.npz"]
    for n in range(rng.choice([1, 1, 1, 2])):
        k = rng.random()
        if n == 0 and index % 4 == 0:
            # every output file with every error, in turn
            f = {"kind": "open_error", "file": files[index // 4 % 6], "errno": ERRNOS[index // 24 % len(ERRNOS)], "write": True}
        elif k < 0.2:
            f = {"kind": "open_error", "file": rng.choice(files), "errno": rng.choice(ERRNOS), "write": True}
        elif k < 0.32:
            f = {"kind": "open_error", "file": rng.choice(["h0.in", "radial.dat"]), "errno": rng.choice(["EIO", "EACCES"]), "write": False}
        elif k < 0.65:
            f = {"kind": "disk_full", "file": rng.choice(files), "frac": _frac(rng)}
        elif k < 0.85:
            f = {"kind": "h5_error", "nth": rng.randrange(1, 22), "errno": rng.choice(["EIO", "ENOSPC", "EACCES"]),
                 "runtime": rng.random() < 0.3}
        else:
            f = {"kind": "h5_full", "nth": rng.randrange(1, 21), "frac": _frac(rng)}
        if "file" in f and rng.random() < 0.25:
            f["once"] = True  # only the first attempt fails
        spec["faults"].append(f)
    return {"nranks": nranks, "sim": spec, "cfg": e2e.pool_config(rng.randrange(3), index, 16, small=True)}


def run(case, R):
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        return R.probe("skipped: fully degenerate configuration")
    base = e2e.baseline(cfg)
    d = job.scratch_dir("p14")
    try:
        e2e.write_inputs(cfg, d)
        o = e2e.launch(R, cfg, case["nranks"], with_bytes(case["sim"], e2e.base_info(cfg)["sizes"]), d)
        out = e2e.read_outputs(d)
        left = sorted(os.listdir(d))
    finally:
        job.cleanup(d)
    fired = [k for k in o.sim.fired if k.split(":")[0] in ("open_error", "disk_full", "h5_error", "h5_full")]
    if o.misuse:
        raise Violation("mpi-misuse", o.describe())
    what = f"run with {', '.join(fired) or 'no fault reached'}"
    if o.success:
        e2e.check_complete(out, what + " reports success", "failure-reported-as-success")
        e2e.compare(out, base, what + " reports success", "failure-reported-as-success")
        R.probe("fault had no effect")
    elif o.hang or o.overrun:
        raise Violation("never-ends", f"{what}: {o.describe()}")
    else:
        if not fired:
            raise Violation("clean-run-fails", f"no fault fired, yet: {o.describe()}")
        R.probe("fault was reported")
        R.observe(left)
    if fired:
        R.key = case["sim"]["seed"]


shrink = e2e.shrink_cfg
