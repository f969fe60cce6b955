"""Files of a simulated job: scratch directory, interaction points, disk faults, process death.

All file operations are the real ones, on real files, inside a scratch directory that
is the working directory while the job runs.  Interaction points sit at every open,
rename and removal inside that directory and at every HDF5 operation; there the scheduler decides who
runs, a fault may be injected, and the whole job may be killed.  A file system that
stops accepting data after k bytes is produced by RLIMIT_FSIZE around the operations
on the targeted file, so that short writes and errors take the path real ones take
through Python, numpy, zlib and HDF5.
"""

import errno
import os
import resource
import shutil
import sys
import tempfile

from .core import current

_installed = False
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
SCRATCH_BASE = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir())


def _audit(event, args):
    if event == "open":
        ctx = current()
        if ctx is not None and ctx.sim.fs is not None and not ctx.kill:
            ctx.sim.fs.on_open(ctx, args[0], args[1], args[2])
    elif event in ("os.rename", "os.remove", "os.truncate", "os.mkdir", "os.link", "os.symlink"):
        ctx = current()
        if ctx is not None and ctx.sim.fs is not None and not ctx.kill:
            ctx.sim.fs.on_other(ctx, event, args)


def install():
    global _installed
    if not _installed:
        _installed = True
        sys.addaudithook(_audit)


def _limit(n):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    want = hard if n is None else n
    if soft != want:
        resource.setrlimit(resource.RLIMIT_FSIZE, (want, hard))


class FS:
    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.log = []  # (rank, what, file)
        self.opens = {}
        self.last_write = None
        self.limited = None
        self.full_active = None
        self.snapshot = None
        self.io_count = 0
        self.calls_at_write = {}  # file -> communication calls its writer had made when it was opened
        self.rewrites = []  # (file, rank, calls when it was last written, calls now, number of the operation): emptied again
        sim.fs = self
        sim.io_hook = self.on_h5
        sim.io_done = self.on_h5_done
        sim.print_hook = self.on_print
        sim.h5_open = []
        sim.on_crash = self.on_crash
        install()

    def _inside(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, (str, os.PathLike)):
            return None
        p = os.path.realpath(os.path.join(self.root, os.fspath(path)))
        if p.startswith(self.root + os.sep):
            return os.path.relpath(p, self.root)
        return None

    def _step(self, ctx, what):
        _limit(None)
        self.limited = None
        self.io_count += 1
        for f in self.sim.faults:
            if f["kind"] == "kill_job" and f.get("io") == self.io_count:
                f["at"] = 0  # takes effect before this operation is carried out
        self.sim.yield_point(what)
        n = ctx.counters["io"] = ctx.counters.get("io", 0) + 1
        return n

    def _open_faults(self, ctx, name, write):
        for f in self.sim.faults:
            if f.get("once") and f.get("_done") or f.get("rank", ctx.rank) != ctx.rank or f.get("file") != name:
                continue
            if f["kind"] == "open_error" and f.get("write", True) == write:
                if not f.get("_done"):
                    f["_done"] = True
                    self.sim.fire(f"open_error:{f['errno']}")
                e = getattr(errno, f["errno"])
                raise OSError(e, os.strerror(e) + " (injected)", name)
            if f["kind"] == "disk_full" and write:
                if not f.get("_done"):
                    f["_done"] = True
                    self.sim.fire("disk_full")
                self.limited = name
                _limit(f["bytes"])

    def on_open(self, ctx, path, mode, flags):
        name = self._inside(path)
        if name is None:
            return
        write = bool((flags or 0) & _WRITE) or (isinstance(mode, str) and any(c in mode for c in "wax+"))
        self._step(ctx, f"open {'w' if write else 'r'} {name}")
        self.log.append((ctx.rank, "w" if write else "r", name))
        if write:
            self.last_write = name
            calls = ctx.counters.get("mpi", 0)
            emptied = bool((flags or 0) & os.O_TRUNC) or (isinstance(mode, str) and "w" in mode)
            if emptied and self.calls_at_write.get(name, (None,))[0] == ctx.rank:
                self.rewrites.append((name, ctx.rank, self.calls_at_write[name][1], calls, self.io_count))
            self.calls_at_write[name] = (ctx.rank, calls)
        self._open_faults(ctx, name, write)

    def on_other(self, ctx, event, args):
        names = [n for n in (self._inside(a) for a in args if isinstance(a, (str, bytes, os.PathLike))) if n]
        if not names:
            return
        self._step(ctx, f"{event} {' '.join(names)}")
        self.log.append((ctx.rank, event, names[-1]))

    def on_h5(self, ctx, what, fname):
        self._step(ctx, f"{what} {fname}")
        if what != "h5openr":
            self.log.append((ctx.rank, "w", fname) if what.startswith("h5open") else (ctx.rank, what, fname))
            self.last_write = fname
        n = ctx.counters["h5"] = ctx.counters.get("h5", 0) + 1
        for f in self.sim.faults:
            if f["kind"] == "h5_error" and not f.get("_done") and f["nth"] == n:
                f["_done"] = True
                self.sim.fire("h5_error")
                if f.get("runtime") and not what.startswith("h5open"):
                    raise RuntimeError("HDF5 I/O error (injected)")
                raise OSError(getattr(errno, f["errno"]), "HDF5 I/O error (injected)")
            if f["kind"] == "h5_full" and n >= f["nth"]:
                if not f.get("_done"):
                    f["_done"] = True
                    self.sim.fire("h5_full")
                _limit(f["bytes"])

    def on_h5_done(self, ctx):
        _limit(None)

    def on_print(self, ctx):
        if self.limited:
            _limit(None)
            self.limited = None
        if self.sim.io_points:
            self.sim.yield_point("print")
        n = ctx.counters["print"] = ctx.counters.get("print", 0) + 1
        for f in self.sim.faults:
            if f["kind"] == "epipe" and f["rank"] == ctx.rank and n >= f["nth"]:
                if not f.get("_done"):
                    f["_done"] = True
                    self.sim.fire("epipe")
                raise BrokenPipeError(errno.EPIPE, "Broken pipe (injected)")

    def on_crash(self):
        """What is on disk at the instant the job dies; with `torn`, the death fell inside the last write."""
        _limit(None)
        self.snapshot = self.root + ".crash"
        shutil.copytree(self.root, self.snapshot)

    def tear(self, name, frac):
        p = os.path.join(self.snapshot, name)
        if os.path.exists(p):
            size = os.path.getsize(p)
            os.truncate(p, int(size * frac))
            return size
        return None

    def finish(self):
        _limit(None)
        for f in self.sim.h5_open:
            try:
                if f.id.valid:
                    # left open: the library closes it when the process exits, where nobody sees an error
                    self._exit_close(f)
                    f.id.close()
            except Exception:
                pass
            _limit(None)

    def _exit_close(self, f):
        ctx = f._sim_ctx
        if self.sim.crashed:
            return
        n = ctx.counters["h5"] = ctx.counters.get("h5", 0) + 1
        for x in self.sim.faults:
            if x["kind"] == "h5_error" and not x.get("_done") and x["nth"] == n or x["kind"] == "h5_full" and n >= x["nth"]:
                if not x.get("_done"):
                    x["_done"] = True
                    self.sim.fire(x["kind"])
                _limit(x.get("bytes", 0))
