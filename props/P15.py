"""Fail-stop: an error on one rank ends the whole job; it neither hangs nor reports success without the results."""

import os

from sim import job
from sim.driver import Violation

from . import e2e
from .common import ASSUME, REAL_JOB, STUB_JOB, sim_spec

ID = "P15"
COUNTS = {"quick": 400, "thorough": 12000}
RULE = ("A case is a full run of a spectra script on 2-6 ranks in which one rank fails: an exception out of its n-th communication "
        "call or out of any statement of the program, a numerical routine that gives up, an allocation that fails, a closed output pipe, an input file it cannot open, or an input file that it sees "
        "truncated, empty or garbled; non-trivial: the fault fired. Distinct by (input, event sequence).")
REAL, STUB = REAL_JOB, STUB_JOB
ASSUMPTIONS = ASSUME + ["A rank that ends with an uncaught error waits for the others in MPI_Finalize, as real MPI does, so a job whose "
                        "other ranks wait for it is stuck for ever.", "mpiexec returns non-zero when any rank does."]
LINE_EXC = ("MemoryError", "MemoryError", "KeyboardInterrupt", "OSError", "RuntimeError", "ValueError", "KeyError", "RecursionError")
EXC = ("OSError", "MemoryError", "RuntimeError", "KeyboardInterrupt")
SOLVER_EXC = ("LinAlgError", "LinAlgError", "MemoryError", "MemoryError", "RuntimeError", "ValueError", "FloatingPointError")


def generate(rng, index, tier):
    nranks = rng.choice([2, 2, 3, 3, 4, 6])
    spec = sim_spec(rng, nranks, perturb_eig=False, horizon=2000)
    spec["max_steps"] = 2000000
    spec["io_points"] = rng.random() < 0.5
    rank = rng.randrange(nranks)
    k = rng.random()
    case = {"nranks": nranks, "sim": spec, "cfg": e2e.pool_config(rng.randrange(3), index, 16, small=True), "view": None}
    pos = rng.choice([round(rng.random(), 5), round(rng.random() ** 3, 5), round(1 - rng.random() ** 4, 5)])
    if k < 0.3:
        spec["faults"].append({"kind": "line_error", "rank": rank if rng.random() < 0.5 else 0, "pos": round(rng.random(), 5),
                               "pos2": round(rng.random() ** 2, 5), "exc": rng.choice(LINE_EXC), "try": rng.random() < 0.5,
                               "pos3": round(rng.random(), 5)})
    elif k < 0.5:
        spec["faults"].append({"kind": "rank_error", "rank": rank, "pos": pos, "exc": rng.choice(EXC)})
    elif k < 0.62:
        f = {"kind": "solver_error", "rank": rank, "pos": pos, "exc": rng.choice(SOLVER_EXC)}
        if rng.random() < 0.6:
            f["of"] = rng.choice(["bicgstab", "bicgstab", "eigsh", "eigh"])
        spec["faults"].append(f)
    elif k < 0.72:
        f = {"kind": "alloc_error", "rank": rank, "pos": pos, "exc": "MemoryError"}
        if rng.random() < 0.6:
            f["of"] = rng.choice(["zeros", "csr_matrix", "array"])
        spec["faults"].append(f)
    elif k < 0.8:
        spec["faults"].append({"kind": "epipe", "rank": rank if rng.random() < 0.3 else 0, "pos": pos})
    elif k < 0.88:
        spec["faults"].append({"kind": "open_error", "file": rng.choice(["h0.in", "radial.dat"]), "rank": rank, "write": False,
                               "errno": rng.choice(["EIO", "EACCES", "ENOENT", "ESTALE", "EMFILE"])})
    else:
        case["view"] = [rank, rng.choice(["empty", "truncated", "garbled", "missing"]), round(rng.random(), 4)]
    return case


def with_positions(spec, info, nranks):
    out = dict(spec, faults=[dict(f) for f in spec["faults"]])
    for f in out["faults"]:
        if "pos" not in f:
            continue
        if f["kind"] == "line_error":
            sites = sorted(info["points"])
            if f.get("try") and any(x.startswith("try ") for x in sites):
                sites = [x for x in sites if x.startswith("try ")]
            f["site"] = sites[int(f["pos"] * len(sites))] if sites else ""
            f["nth"] = 1 + int(f["pos2"] * info["points"].get(f["site"], 0))
            names = f["site"][4:].split("|")[0].split(",") if f["site"].startswith("try ") else [""]
            if f.get("try") and names != [""]:
                f["exc"] = names[int(f["pos3"] * len(names))]
        elif f["kind"] == "rank_error":
            f["at"] = 1 + int(f["pos"] * info["mpi"][0])
        elif f["kind"] in ("solver_error", "alloc_error"):
            # the work is divided between the ranks: each makes about its share of the calls of the run on one rank
            kind = f["kind"].split("_")[0]
            key = kind + (":" + f["of"] if f.get("of") else "")
            f["nth"] = 1 + int(f["pos"] * info["counts"].get(key, 0) / nranks)
        elif f["kind"] == "epipe":
            f["nth"] = 1 + int(f["pos"] * info["prints"][0]) if f["rank"] == 0 else 1
    return out


def run(case, R):
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        return R.probe("skipped: fully degenerate configuration")
    base = e2e.baseline(cfg)
    d = job.scratch_dir("p15")
    try:
        e2e.write_inputs(cfg, d)
        redirect = None
        if case["view"]:
            rank, how, frac = case["view"]
            with open(os.path.join(d, "h0.in"), "rb") as f:
                b = f.read()
            b = {"empty": b"", "truncated": b[:int(len(b) * frac)], "garbled": b"\xff" * len(b), "missing": None}[how]
            if b is not None:
                with open(os.path.join(d, "h0.view"), "wb") as f:
                    f.write(b)
            redirect = {rank: {"h0.in": "h0.view"}}
        o = e2e.launch(R, cfg, case["nranks"], with_positions(case["sim"], e2e.base_info(cfg), case["nranks"]), d, None, redirect)
        out = e2e.read_outputs(d) if o.success else None
    finally:
        job.cleanup(d)
    fired = [k for k in o.sim.fired if k.split(":")[0] in ("rank_error", "line_error", "solver_error", "alloc_error", "epipe", "open_error")]
    if case["view"]:
        fired.append(f"input {case['view'][1]} on one rank")
    what = f"{case['nranks']} ranks, " + (", ".join(fired) or "no fault reached")
    if o.misuse:
        raise Violation("mpi-misuse", f"{what}: {o.describe()}")
    if o.hang or o.overrun:
        raise Violation("hang", f"{what}: {o.describe()}")
    if o.success:
        e2e.check_complete(out, what + ", reported as success", "failure-reported-as-success")
        e2e.compare(out, base, what + ", reported as success", "failure-reported-as-success")
        R.probe("no effect")
    elif not fired:
        raise Violation("clean-run-fails", f"no fault fired, yet: {o.describe()}")
    else:
        R.probe("stopped: " + fired[0].split(":")[0])
    if fired:
        R.key = case["sim"]["seed"]


shrink = e2e.shrink_cfg
