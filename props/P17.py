"""After any number of crashes in a directory, running again there succeeds and gives the full correct result set."""

import os
import shutil

from sim import job
from sim.driver import Violation

from . import e2e
from .common import ASSUME, REAL_JOB, STUB_JOB, require_clean, sim_spec
from .P16 import kill_fault, with_call

ID = "P17"
COUNTS = {"quick": 80, "thorough": 8000}
RULE = ("A case is one to four runs in one directory (some with finer meshes, so with longer files) that are killed at a file operation "
        "or communication call (with the file being written torn at a random byte), meet a full disk, or finish, followed by an undisturbed run with another number of ranks; "
        "non-trivial: at least one run was killed or failed. Distinct by (input, event sequence).")
REAL, STUB = REAL_JOB, STUB_JOB
ASSUMPTIONS = ASSUME + ["The processes die, the operating system survives; the write in progress may be cut at any byte."]


def generate(rng, index, tier):
    attempts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        nranks = rng.choice([1, 1, 2, 3])
        spec = sim_spec(rng, nranks, perturb_eig=False, horizon=2000)
        spec["max_steps"] = 2000000
        spec["io_points"] = rng.random() < 0.3
        if rng.random() < 0.5:
            spec["mesh"] = e2e.MESH_BIG
        if rng.random() < 0.8:
            spec["faults"].append(kill_fault(rng, nranks))
            attempts.append({"nranks": nranks, "sim": spec, "tear": round(rng.random(), 3) if rng.random() < 0.6 else None})
        else:
            spec["faults"].append({"kind": "disk_full", "file": rng.choice(list(e2e.FILES)[:5] + ["data.npz"]), "bytes": rng.randrange(400)})
            attempts.append({"nranks": nranks, "sim": spec, "tear": None})
    if rng.random() < 0.25:
        # a finished run, perhaps with finer meshes, before (or instead of) the failed ones
        spec = sim_spec(rng, 1, perturb_eig=False, horizon=2000)
        spec["max_steps"] = 2000000
        spec["mesh"] = e2e.MESH_BIG
        attempts.insert(0, {"nranks": 1, "sim": spec, "tear": None})
    nranks = rng.choice([1, 2, 3, 4])
    spec = sim_spec(rng, nranks, perturb_eig=False, horizon=2000)
    spec["max_steps"] = 2000000
    return {"attempts": attempts, "nranks": nranks, "sim": spec, "cfg": e2e.pool_config(rng.randrange(3), index, 16, small=True)}


def run(case, R):
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        return R.probe("skipped: fully degenerate configuration")
    base = e2e.baseline(cfg)
    info = e2e.base_info(cfg)
    d = job.scratch_dir("p17")
    crashed = 0
    try:
        e2e.write_inputs(cfg, d)
        for a in case["attempts"]:
            o = e2e.launch(R, cfg, a["nranks"], with_call(a["sim"], info), d)
            if o.misuse or o.hang or o.overrun:
                raise Violation("clean-run-fails", o.describe())
            if o.killed:
                crashed += 1
                fs = o.sim.fs
                if a["tear"] is not None and fs.last_write and fs.log and fs.log[-1][2] == fs.last_write:
                    if fs.tear(fs.last_write, a["tear"]):
                        R.probe("torn file")
                        o.sim.fire("torn_write")
                shutil.rmtree(d)
                os.rename(d + ".crash", d)
            elif not o.success:
                crashed += 1
            else:
                R.probe("finished run before")
        left = {f: os.path.getsize(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f != "data.npz"}
        what = f"run on {case['nranks']} ranks after {crashed} failed ones (files {left})"
        o = e2e.launch(R, cfg, case["nranks"], case["sim"], d)
        if o.bad:
            raise Violation("rerun-fails", f"{what}: {o.describe()}")
        out = e2e.read_outputs(d)
        e2e.check_complete(out, what, "rerun-results-wrong")
        e2e.compare(out, base, what, "rerun-results-wrong")
        R.observe(sorted(left))
    finally:
        job.cleanup(d, d + ".crash")
    R.probe(f"{crashed} failed runs before")
    if crashed:
        R.key = case["sim"]["seed"]


def shrink(case):
    import copy

    for i in range(len(case["attempts"])):
        c = copy.deepcopy(case)
        del c["attempts"][i]
        yield c
    for i, a in enumerate(case["attempts"]):
        if a["tear"] is not None:
            c = copy.deepcopy(case)
            c["attempts"][i]["tear"] = None
            yield c
    yield from e2e.shrink_cfg(case)
