"""Deterministic scheduler for simulated MPI ranks.

Every rank is a Python thread that is parked at its own semaphore; exactly one
thread (a rank or the scheduler) runs at any time.  A rank gives up control only
at intercepted points (MPI calls, and, in whole-program runs, prints and file
operations).  Which rank continues, which in-flight message is delivered next,
whether a send is buffered or synchronous, and in which order a reduction is
folded are all decided by Sim.choose(), i.e. by one seeded PRNG whose picks are
recorded; replaying the recorded list reproduces the execution exactly.
"""

import hashlib
import os
import random
import sys
import threading
import traceback

from . import simset

_tls = threading.local()


class SimKilled(BaseException):
    """The process of this rank is gone (job killed or aborted)."""


class SimAbortRun(Exception):
    """Harness problem: the simulation itself cannot continue."""


class MPIMisuse(Exception):
    """The program used MPI in a way the MPI standard calls erroneous."""


def current():
    """Rank context of the calling thread, or None outside of rank threads."""
    return getattr(_tls, "ctx", None)


simset.set_salt_provider(lambda: (lambda c: c.salt if c is not None else None)(current()))


class _Gate:
    """Binary semaphore, initially closed; a raw lock is much faster than threading.Semaphore."""

    __slots__ = ("acquire", "release")

    def __init__(self):
        lock = threading.Lock()
        lock.acquire()
        self.acquire = lock.acquire
        self.release = lock.release


class RankCtx:
    def __init__(self, sim, rank):
        self.sim = sim
        self.rank = rank
        self.sem = _Gate()
        self.thread = None
        self.state = "new"  # new, ready, done, failed, killed
        self.pending = None  # predicate that must hold before the rank can continue
        self.what = "start"
        self.result = None
        self.exc = None
        self.tb = None
        self.kill = False
        self.ops = 0
        self.op_log = []
        self.salt = random.Random(f"salt:{sim.seed}:{rank}").getrandbits(32) if sim.hash_salts else 0
        self.clock_skew = 0.0
        self.out = []
        self.modules = {}
        self.counters = {}
        self.exit_code = None


class Sim:
    POLICIES = ("uniform", "roundrobin", "run_to_block", "slow_rank", "fast_rank", "slow_link", "lockstep", "pct")

    def __init__(self, nranks, seed, policy="uniform", faults=(), choices=None, max_steps=1000000, hash_salts=True,
                 p_sync=0.3, max_ticks=200000):
        self.n = nranks
        self.seed = seed
        self.policy = policy
        self.rng = random.Random(f"sched:{seed}")
        self.time_rng = random.Random(f"time:{seed}")
        self.replay = None if choices is None else list(choices)
        self.choices = []
        self.hash_salts = hash_salts
        self.faults = [dict(f) for f in faults]
        self.max_steps = max_steps
        self.max_ticks = max_ticks
        self.ticks = 0
        self.p_sync = p_sync
        self.now = 1.7e9
        self.t0 = self.now
        self.steps = 0
        self.fired = {}
        self.main_sem = _Gate()
        self.ranks = [RankCtx(self, r) for r in range(nranks)]
        self.trace = hashlib.blake2b(digest_size=12)
        self.trace_text = []
        self.keep_trace = False
        self.aborted = None  # (rank, code)
        self.deadlock = None
        self.overrun = None
        self.misuse = []
        self.net = None  # set by mpi.Network
        self.on_crash = None
        self.crashed = False
        self.crash_step = None
        self.io_points = False
        self.fs = None
        self.mesh = None
        self.perturb_eig = False
        self.stuck_reason = None
        self._last = None
        self._rr = 0
        self.special = random.Random(f"special:{seed}").randrange(nranks)
        self._prio = list(range(nranks))
        random.Random(f"prio:{seed}").shuffle(self._prio)
        pr = random.Random(f"pct:{seed}")
        self._pct_points = {pr.randrange(1, 300) for _ in range(3)}

    # ---- decisions -------------------------------------------------------
    def choose(self, n, weights=None):
        """One recorded decision among n alternatives."""
        if n <= 1:
            return 0
        if self.replay is not None:
            k = len(self.choices)
            pick = self.replay[k] if k < len(self.replay) else 0
            pick = min(max(int(pick), 0), n - 1)
        elif weights is None:
            pick = self.rng.randrange(n)
        else:
            pick = self.rng.choices(range(n), weights=weights)[0]
        self.choices.append(pick)
        return pick

    def flip(self, p):
        if p <= 0:
            return False
        if p >= 1:
            return True
        return self.choose(2, [1 - p, p]) == 1

    def note(self, text):
        self.trace.update(text.encode())
        self.trace.update(b"\n")
        if self.keep_trace:
            self.trace_text.append(text)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # ---- called from rank threads ------------------------------------------
    def yield_point(self, what, pending=None):
        ctx = current()
        if ctx is None or ctx.sim is not self:
            return
        if ctx.kill:
            raise SimKilled()
        ctx.what = what
        ctx.pending = pending
        self.main_sem.release()
        ctx.sem.acquire()
        ctx.pending = None
        if ctx.kill:
            raise SimKilled()

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            ctx = current()
            self.overrun = f"rank {ctx.rank if ctx else '?'} exceeded {self.max_ticks} loop iterations"
            raise SimKilled()

    # ---- scheduler -----------------------------------------------------------
    def run(self, program):
        """program(ctx) is executed by every rank.  Returns when nothing can run any more."""
        def body(ctx):
            _tls.ctx = ctx
            ctx.sem.acquire()
            try:
                if not ctx.kill:
                    ctx.result = program(ctx)
                    ctx.state = "done"
                else:
                    ctx.state = "killed"
            except SimKilled:
                ctx.state = "killed"
            except SystemExit as e:
                code = e.code
                if code is None or code == 0:
                    ctx.state = "done"
                else:
                    ctx.state = "failed"
                    ctx.exc = e
                ctx.exit_code = code
            except BaseException as e:  # noqa: BLE001
                ctx.state = "failed"
                ctx.exc = e
                ctx.tb = traceback.format_exc()
                # drop the frames: they keep file objects of the dead rank alive
                e.__traceback__ = None
            finally:
                if ctx.state == "ready":
                    ctx.state = "killed"
                _tls.ctx = None
                self.main_sem.release()

        for ctx in self.ranks:
            ctx.state = "ready"
            ctx.thread = threading.Thread(target=body, args=(ctx,), daemon=True)
            ctx.thread.start()
        try:
            self._loop()
        finally:
            self._kill_all()
        return self

    def _candidates(self):
        cands = []
        for ctx in self.ranks:
            if ctx.state == "ready" and (ctx.pending is None or ctx.pending()):
                cands.append(("run", ctx.rank))
        for key in self.net.deliverable() if self.net else ():
            cands.append(("dlv", key))
        return cands

    def _weights(self, cands):
        pol = self.policy
        w = []
        for kind, key in cands:
            x = 1.0
            if pol == "run_to_block":
                x = 1000.0 if (kind, key) == self._last else 1.0
                if kind == "dlv":
                    x = 0.05
            elif pol == "slow_rank":
                x = 0.001 if (kind == "run" and key == self.special) else 1.0
            elif pol == "fast_rank":
                x = 500.0 if (kind == "run" and key == self.special) else 1.0
            elif pol == "slow_link":
                x = 0.001 if (kind == "dlv" and self.special in key[:2]) else 1.0
            elif pol == "lockstep":
                x = 100.0 if (kind == "run" and self.ranks[key].ops == min(
                    c.ops for c in self.ranks if c.state == "ready")) else 1.0
            elif pol == "pct":
                x = 10.0 ** (2 * self._prio[key]) if kind == "run" else 1.0
            w.append(x)
        return w

    def _stalled(self, ctx):
        for f in self.faults:
            if f["kind"] == "stall" and f["rank"] == ctx.rank and f["at"] <= self.steps < f["at"] + f["len"]:
                return f
        return None

    def _loop(self):
        while True:
            for f in self.faults:
                if f["kind"] == "clock_jump" and f["at"] == self.steps and not f.get("_done"):
                    f["_done"] = True
                    if f["rank"] < self.n:
                        self.ranks[f["rank"]].clock_skew += f["by"]
                        self.fire("clock_jump")
                elif f["kind"] == "kill_job" and not f.get("_done") and (
                        f.get("at", 1 << 60) <= self.steps or ("after" in f and self.ranks[f["after"]].state == "done")):
                    f["_done"] = True
                    self.fire("kill_job")
                    self.crashed = True
                    self.crash_step = self.steps
                    if self.on_crash:
                        self.on_crash()
                    return
            if self.aborted is not None or self.overrun is not None or self.misuse:
                return
            cands = self._candidates()
            if not cands:
                alive = [c for c in self.ranks if c.state == "ready"]
                if alive:
                    self.deadlock = {c.rank: c.what for c in alive}
                return
            # slow node: a stalled rank is not scheduled while anybody else can run
            if any(f["kind"] == "stall" for f in self.faults):
                kept = [c for c in cands if not (c[0] == "run" and self._stalled(self.ranks[c[1]]))]
                if kept and len(kept) < len(cands):
                    for f in self.faults:
                        if f["kind"] == "stall" and f["at"] <= self.steps < f["at"] + f["len"] and not f.get("_done"):
                            f["_done"] = True
                            self.fire("stall")
                    cands = kept
            if self.policy == "roundrobin" and self.replay is None:
                runs = [i for i, c in enumerate(cands) if c[0] == "dlv"] or list(range(len(cands)))
                pick = runs[self._rr % len(runs)]
                self._rr += 1
                if len(cands) > 1:
                    self.choices.append(pick)
            else:
                if self.policy == "pct" and self.steps in self._pct_points:
                    self._prio[self._prio.index(max(self._prio))] = -1
                pick = self.choose(len(cands), self._weights(cands) if self.policy != "uniform" else None)
            kind, key = cands[pick]
            self._last = (kind, key)
            self.steps += 1
            self.now += self.time_rng.choice((1e-6, 1e-4, 1e-3, 0.02, 1.0))
            if self.steps > self.max_steps:
                self.overrun = f"{self.max_steps} scheduler steps"
                return
            if kind == "dlv":
                self.note(f"D{key}")
                self.net.deliver(key)
            else:
                ctx = self.ranks[key]
                self.note(f"R{key}:{ctx.what}")
                ctx.ops += 1
                self._resume(ctx)

    def _resume(self, ctx):
        ctx.sem.release()
        self.main_sem.acquire()

    def _kill_all(self):
        """Remove whatever is left; a killed rank's clean-up code cannot touch the simulated world any more."""
        for ctx in self.ranks:
            for _ in range(1000):
                if ctx.state != "ready":
                    break
                ctx.kill = True
                self._resume(ctx)
            else:
                raise SimAbortRun(f"rank {ctx.rank} does not unwind")
        for ctx in self.ranks:
            ctx.thread.join(timeout=30)

    # ---- summary -------------------------------------------------------------
    @property
    def sim_seconds(self):
        return self.now - self.t0

    def digest(self):
        return self.trace.hexdigest()


def repo_frames(tb):
    """Function names of repository frames in a formatted traceback (stable across unrelated edits)."""
    out = []
    for line in (tb or "").splitlines():
        line = line.strip()
        if line.startswith("File ") and "impurityModel" in line and " in " in line:
            out.append(line.rsplit(" in ", 1)[1])
    return out


def quiet_threads():
    threading.excepthook = lambda args: None


def limit_native_threads():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    sys.setswitchinterval(1000.0)
