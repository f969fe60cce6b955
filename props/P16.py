"""Death of the job at any instant: spectra the program has moved on from are complete on disk, nothing on disk is wrong."""

import os

import numpy as np

from sim import job
from sim.driver import Violation

from . import e2e
from .common import ASSUME, REAL_JOB, STUB_JOB, sim_spec

ID = "P16"
COUNTS = {"quick": 200, "thorough": 12000}
RULE = ("A case is a run of a spectra script on 1-4 ranks that is killed as a whole at a file operation, at a communication call, or when "
        "the first rank has finished; only what had reached the file system survives; non-trivial: the kill happened. "
        "Distinct by (input, event sequence).")
REAL, STUB = REAL_JOB, STUB_JOB
ASSUMPTIONS = ASSUME + ["The processes die, the operating system and its file cache survive (out-of-memory or queue-system kill, not power loss).",
                        "A file counts as finished when the rank that wrote it has made three more communication calls, or has ended."]


def kill_fault(rng, nranks):
    k = rng.random()
    if k < 0.5:
        return {"kind": "kill_job", "io": rng.randrange(1, 46)}
    if k < 0.85:
        return {"kind": "kill_job", "rank": rng.randrange(nranks), "pos": round(rng.random(), 5)}
    return {"kind": "kill_job", "after": 0 if rng.random() < 0.8 else rng.randrange(nranks)}


def with_call(spec, info):
    out = dict(spec, faults=[dict(f) for f in spec["faults"]])
    for f in out["faults"]:
        if f["kind"] == "kill_job" and "pos" in f:
            f["call"] = 1 + int(f["pos"] * info["mpi"][0])
    return out


def generate(rng, index, tier):
    nranks = rng.choice([1, 2, 2, 3, 4])
    spec = sim_spec(rng, nranks, perturb_eig=False, horizon=2000)
    spec["max_steps"] = 2000000
    spec["io_points"] = rng.random() < 0.5
    spec["faults"].append(kill_fault(rng, nranks))
    return {"nranks": nranks, "sim": spec, "cfg": e2e.pool_config(rng.randrange(3), index, 16, small=True)}


def _torn_rewrite(R, case, spec, cfg, event, base):
    """The program has emptied a spectrum file it had moved on from, to write it again: the same run, killed within that write."""
    name, rank, _calls, _now, io = event
    d = job.scratch_dir("p16b")
    try:
        e2e.write_inputs(cfg, d)
        o = e2e.launch(R, cfg, case["nranks"], dict(spec, faults=[{"kind": "kill_job", "io": io + 1}]), d)
        if not o.killed or o.sim.fs.last_write != name:
            return
        o.sim.fs.tear(name, 0.4)
        out = e2e.read_outputs(d + ".crash", (name,))[name]
    finally:
        job.cleanup(d, d + ".crash")
    if not isinstance(out, np.ndarray) or out.shape != base[name].shape:
        raise Violation("finished-results-lost", f"{case['nranks']} ranks, {o.describe()} while rank {rank} was writing {name} again: "
                                                 "it had been finished before and is incomplete now")


def _near(a, b, base, k):
    """The numbers of a text file or of RIXS.bin: the same, up to what two correct runs may differ by."""
    d = np.abs(a - b)
    if np.all(d <= 2e-4 + 2e-3 * np.abs(b).max()):
        return True
    t = e2e.spread(base, k)
    t = t.sum(axis=(0, 1)).T if k == "RIXS" else np.concatenate([t.sum(axis=0)[None], t]).T
    return bool(np.all(d <= 2e-4 + t))


def run(case, R):
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        return R.probe("skipped: fully degenerate configuration")
    base = e2e.baseline(cfg)
    d = job.scratch_dir("p16")
    try:
        e2e.write_inputs(cfg, d)
        spec = with_call(case["sim"], e2e.base_info(cfg))
        o = e2e.launch(R, cfg, case["nranks"], spec, d)
        if o.misuse or o.hang or o.overrun or o.errors:
            raise Violation("clean-run-fails", o.describe())
        again = [x for x in o.sim.fs.rewrites if x[0] != "spectra.h5" and x[0] in e2e.FILES[:5] and x[3] >= x[2] + 3]
        if again:
            _torn_rewrite(R, case, spec, cfg, again[0], base)
        if not o.killed:
            return R.probe("ended before the kill")
        out = e2e.read_outputs(d + ".crash")
        left = sorted(os.listdir(d + ".crash"))
    finally:
        job.cleanup(d, d + ".crash")
    fs = o.sim.fs
    what = f"{case['nranks']} ranks, {o.describe()}"
    done = o.states[0] == "done" or any(s == "done" for s in o.states) and case["nranks"] == 1
    if done:
        e2e.check_complete(out, what + " after the first rank had finished", "finished-results-lost")
        e2e.compare(out, base, what, "finished-results-lost")
        R.probe("killed after the first rank had finished")
    b5 = base["spectra.h5"]
    n = 0
    for f in [k + ".dat" for k in e2e.DATS] + ["RIXS.bin"]:
        if f not in fs.calls_at_write:
            continue
        rank, calls = fs.calls_at_write[f]
        if not (o.states[rank] == "done" or o.sim.ranks[rank].counters.get("mpi", 0) >= calls + 3):
            continue
        n += 1
        if out[f] is None or isinstance(out[f], Exception):
            raise Violation("finished-results-lost", f"{what}: {f} had been written before, now {out[f]!r}")
        if f == "RIXS.bin":
            want = base[f]
            ok = out[f].shape == want.shape and np.allclose(out[f][0], want[0]) and np.allclose(out[f][:, 0], want[:, 0])
            if not ok or not _near(out[f][1:, 1:], want[1:, 1:], base, "RIXS"):
                raise Violation("finished-results-lost", f"{what}: {f} had been written before and is incomplete or wrong")
        else:
            want = base[f]
            ok = out[f].shape == want.shape and np.allclose(out[f][:, 0], want[:, 0], atol=2e-4)
            if not ok or not _near(out[f][:, 1:], want[:, 1:], base, f[:-4]):
                raise Violation("finished-results-lost", f"{what}: {f} had been written before and is incomplete or wrong")
    h5 = out["spectra.h5"]
    if isinstance(h5, dict):
        for k, v in h5.items():
            if k in b5 and (k.endswith("thermal") or k not in e2e.H5_KEYS - {"E", "w", "wIn", "wLoss", "qsNIXS", "r", "RiNIXS", "RjNIXS"}):
                t = 2e-3 * max(1e-3, np.abs(b5[k]).max())
                if v.shape != b5[k].shape or not np.all(np.abs(v - b5[k]) <= t) and not (
                        k.endswith("thermal") and np.all(np.abs(v - b5[k]) <= e2e.spread(base, k[:-7]))):
                    raise Violation("wrong-data-after-crash", f"{what}: spectra.h5 can be opened but {k} is wrong")
        R.probe("spectra.h5 can be opened after the kill")
    if n:
        R.probe("finished files compared", n)
    R.observe(left)
    R.key = case["sim"]["seed"]


shrink = e2e.shrink_cfg
