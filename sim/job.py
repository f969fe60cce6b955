"""Run one simulated MPI job: library calls on every rank, or a whole script."""

import gc
import io
import os
import shutil
import sys
import tempfile

from . import loader, nondet, osfaults
from .core import Sim, SimKilled, limit_native_threads, quiet_threads, repo_frames
from .mpi import Network


class Outcome:
    """What an outside observer sees of a finished (or stuck) job."""

    def __init__(self, sim):
        self.sim = sim
        self.results = [c.result for c in sim.ranks]
        self.states = [c.state for c in sim.ranks]
        self.errors = {c.rank: c.exc for c in sim.ranks if c.exc is not None}
        self.tracebacks = {c.rank: c.tb for c in sim.ranks if c.tb}
        self.hang = sim.deadlock
        self.overrun = sim.overrun
        self.misuse = list(sim.misuse)
        self.aborted = sim.aborted
        self.killed = sim.crashed
        self.leftover = sim.net.leftovers() if self.clean else []
        self.out = ["".join(c.out) for c in sim.ranks]

    @property
    def clean(self):
        return all(s == "done" for s in self.states)

    @property
    def success(self):
        """mpiexec returns 0: every rank finished without an error."""
        # MPI_Abort(0) makes mpiexec return 0
        return self.aborted[1] == 0 if self.aborted else self.clean

    @property
    def ended(self):
        """The job is over (rather than stuck for ever)."""
        return not self.hang and not self.overrun

    def describe(self):
        s = self.sim
        parts = []
        if self.misuse:
            parts.append("MPI misuse: " + "; ".join(self.misuse))
        if self.hang:
            parts.append("hang: " + ", ".join(f"rank {r} waits in {w}" for r, w in sorted(self.hang.items())))
        if self.overrun:
            parts.append("no progress: " + self.overrun)
        for r, e in sorted(self.errors.items()):
            fr = repo_frames(self.tracebacks.get(r))
            parts.append(f"rank {r}: {type(e).__name__}: {e}" + (f" (in {fr[-1]})" if fr else ""))
        if self.aborted:
            parts.append(f"aborted by rank {self.aborted[0]} (code {self.aborted[1]})")
        if self.leftover:
            parts.append(f"unreceived messages: {self.leftover}")
        if s.crashed:
            parts.append(f"killed at step {s.crash_step}")
        return "; ".join(parts) or "finished"

    @property
    def bad(self):
        """Anything that must never happen in a job without injected failures."""
        return bool(self.misuse or self.hang or self.overrun or self.errors or self.aborted or self.leftover
                    or not self.clean)


_ready = False


def setup_process():
    global _ready
    if not _ready:
        _ready = True
        limit_native_threads()
        quiet_threads()
        nondet.install()
        import h5py  # noqa: F401
        import numpy  # noqa: F401
        import scipy.sparse.linalg  # noqa: F401
        import scipy.special  # noqa: F401
        loader._patch_sympy()
        loader.preload()


class Lib:
    """Lazy access to this rank's copies of the modules."""

    def __init__(self, ctx):
        self._ctx = ctx

    def __getattr__(self, name):
        for pkg in ("impurityModel.ed.", "impurityModel.plotScripts."):
            if os.path.exists(loader.module_path(pkg + name)[0]):
                return loader.load(self._ctx, pkg + name)
        raise AttributeError(name)


def make_sim(nranks, spec):
    """spec: dict with seed, policy, faults, choices, p_sync, max_steps, hash_salts, perturb_eig, mesh, io_points."""
    sim = Sim(nranks, spec["seed"], policy=spec.get("policy", "uniform"), faults=spec.get("faults", ()),
              choices=spec.get("choices"), max_steps=spec.get("max_steps", 1000000),
              hash_salts=spec.get("hash_salts", True), p_sync=spec.get("p_sync", 0.3),
              max_ticks=spec.get("max_ticks", 100000))
    Network(sim)
    sim.perturb_eig = spec.get("perturb_eig", False)
    sim.mesh = spec.get("mesh")
    sim.count_points = spec.get("count_points", False)
    sim.io_points = spec.get("io_points", False)
    sim.keep_trace = spec.get("keep_trace", False)
    return sim


def run_lib(nranks, spec, program):
    """program(lib, ctx) on every rank; the ranks do not wait for each other at the end."""
    setup_process()
    sim = make_sim(nranks, spec)

    def body(ctx):
        loader.prepare(ctx)
        return program(Lib(ctx), ctx)

    sim.run(body)
    return Outcome(sim)


def scratch_dir(tag="job"):
    return tempfile.mkdtemp(prefix=f"verif-{tag}-", dir=osfaults.SCRATCH_BASE)


def run_script(nranks, spec, module, argv, cwd, redirect=None):
    """`mpiexec -n nranks python -m module argv...` in directory cwd.

    A rank that ends with an uncaught error sits in MPI_Finalize until all ranks have
    come there, as real MPI does; so if the others wait for it, the job hangs.
    """
    setup_process()
    sim = make_sim(nranks, spec)
    osfaults.FS(sim, cwd)

    def body(ctx):
        loader.prepare(ctx)
        if redirect:
            ctx.redirect = redirect.get(ctx.rank) if all(isinstance(k, int) for k in redirect) else redirect
        loader.load(ctx, module, run_as="__main__")

    old_cwd, old_argv, old_err, old_out = os.getcwd(), sys.argv, sys.stderr, sys.stdout
    os.chdir(cwd)
    sys.argv = [module] + [str(a) for a in argv]
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()
    try:
        sim.run(body)
    finally:
        sim.stderr_text = sys.stderr.getvalue()
        os.chdir(old_cwd)
        sys.argv, sys.stderr, sys.stdout = old_argv, old_err, old_out
        sim.fs.finish()
    gc.collect()
    return Outcome(sim)


def cleanup(*dirs):
    for d in dirs:
        if d and os.path.basename(d).startswith("verif-"):
            shutil.rmtree(d, ignore_errors=True)
