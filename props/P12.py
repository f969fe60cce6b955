"""Whole program: written spectra are the exact thermal response, whatever the ranks, schedule, clocks and hash seeds."""

from sim import job
from sim.driver import Violation

from . import e2e
from .common import ASSUME, REAL_JOB, STUB_JOB, require_clean, sim_spec

ID = "P12"
COUNTS = {"quick": 60, "thorough": 4000}
RULE = ("A case is a full run of one of the two spectra scripts on a random small impurity problem (Hamiltonian file, radial file "
        "and options generated) with 1-6 ranks, a schedule, stalls, clock jumps and per-rank eigensolver choices; non-trivial: "
        "at least 2 ranks. Distinct by (input, event sequence).")
REAL, STUB = REAL_JOB, STUB_JOB
ASSUMPTIONS = ASSUME + ["The physical constants and conventions (Condon-Shortley phases, order of orbitals) are those of the documentation.",
                        "Energy meshes are reduced (np.linspace knob)."]


def generate(rng, index, tier):
    nranks = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    spec = sim_spec(rng, nranks, perturb_eig=rng.random() < 0.6, horizon=3000)
    spec["max_steps"] = 2000000
    if rng.random() < 0.2:
        # many states, far apart compared with usual temperatures
        npsi, T = rng.choice([7, 8, 12, 16, 24]), rng.choice([2000, 8000, 20000])
        for _ in range(10):
            cfg = dict(e2e.config(rng, small=npsi < 9, cf_share=0.05), nPsiMax=npsi, T=T)
            if npsi > 8:
                # all energies are wanted, the spectra of the lowest states only
                cfg.update(T=50, energy_cut=1)
            if abs((e2e.safe_npsi(cfg) or 0) - npsi) < 3 and cfg["size"][0] == 8 or npsi < 9:
                break
    else:
        cfg = e2e.config(rng)
    return {"nranks": nranks, "sim": spec, "cfg": cfg}


def run(case, R):
    cfg = case["cfg"]
    rf = e2e.reference(cfg)
    if not rf["unique"]:
        R.probe("skipped: the options cut through a degenerate level")
        return
    d = job.scratch_dir("p12")
    try:
        e2e.write_inputs(cfg, d)
        o = e2e.launch(R, cfg, case["nranks"], case["sim"], d, rf["npsi"])
        require_clean(o, f"{e2e.MODULE[cfg['kind']]} on {case['nranks']} ranks")
        out = e2e.read_outputs(d)
        e2e.check_complete(out, f"{case['nranks']} ranks")
        e2e.check_exact(out, cfg, f"{case['nranks']} ranks")
        for r in range(case["nranks"]):
            if o.states[r] != "done":
                raise Violation("not-finished", f"rank {r} did not finish")
    finally:
        job.cleanup(d)
    R.probe(cfg["kind"])
    if rf["ne"] > 1:
        R.probe("several thermally populated states")
    if cfg["size"][1]:
        R.probe("bath orbitals")
    if case["nranks"] > 1:
        R.key = case["sim"]["seed"]


shrink = e2e.shrink_cfg
