"""Per-rank copies of the repository's modules, with their environment behind the simulator.

Every simulated rank executes its own copy of every impurityModel module (as the
separate processes of a real MPI job do).  The source is read from the repository's
working tree and compiled unmodified except for: set displays and set-valued binary
operations, whose iteration order becomes a per-rank choice of the simulator, and
`while` bodies, which count iterations so that a run is always bounded, and calls between
statements that do nothing unless an error is to strike there.
What a module imports is routed here: mpi4py, time and h5py are simulated or
intercepted, numpy optionally gets a coarser np.linspace (mesh-size knob), everything
else is the real library.
"""

import ast
import builtins
import importlib
import os
import sys
import types

from . import simset
from .core import current
from .mpi import MPIModule

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = "impurityModel"
_code = {}
_np_copies = {}
_gaunt_cache = {}


def _linalg_error(text):
    import numpy

    return numpy.linalg.LinAlgError(text)


LINE_EXC = {"MemoryError": lambda: MemoryError("injected"), "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
            "OSError": lambda: OSError(5, "Input/output error (injected)"), "RuntimeError": lambda: RuntimeError("injected"),
            "ValueError": lambda: ValueError("injected"), "KeyError": lambda: KeyError("injected"),
            "ZeroDivisionError": lambda: ZeroDivisionError("injected"), "LinAlgError": lambda: _linalg_error("injected"), "RecursionError": lambda: RecursionError("injected")}
_LEAVES = {"create", "remove", "product_state_representation"}  # innermost loops


class _Transform(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("__sim_set__", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("__sim_set__", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return ast.copy_location(_call("__sim_order__", node), node)
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(_call("__sim_tick__")), node))
        return node

    # ---- points where an error may strike: statements of the program, outside of inner loops or inside try blocks ----

    def __init__(self, name):
        self.name = name
        self.nested = 0

    def visit_FunctionDef(self, node):
        outer = self.nested == 0 and not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node)
        self.nested += 1
        self.generic_visit(node)
        self.nested -= 1
        if outer and self.name not in _LEAVES:
            node.body = self._points(node.body, 0, "")
        if self.nested == 0 and node.name == "main":
            inner = ast.Try(body=node.body, handlers=[], orelse=[], finalbody=[ast.Expr(_call("__sim_main__", ast.Constant(-1)))])
            node.body = [ast.Expr(_call("__sim_main__", ast.Constant(1))), inner]
        return node

    def _points(self, stmts, depth, always):
        out = []
        for s in stmts:
            doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if (depth <= 1 or always) and not doc and not isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
                where = always + f"{self.name}:{getattr(s, 'lineno', 0)}:{getattr(s, 'col_offset', 0)}"
                out.append(ast.copy_location(ast.Expr(_call("__sim_point__", ast.Constant(where))), s))
            if isinstance(s, (ast.For, ast.While)):
                s.body = self._points(s.body, depth + 1, always)
                s.orelse = self._points(s.orelse, depth, always)
            elif isinstance(s, ast.If):
                s.body, s.orelse = self._points(s.body, depth, always), self._points(s.orelse, depth, always)
            elif isinstance(s, ast.With):
                s.body = self._points(s.body, depth, always)
            elif isinstance(s, ast.Try):
                names = sorted({x.attr if isinstance(x, ast.Attribute) else x.id for h in s.handlers if h.type is not None
                                for x in ast.walk(h.type) if isinstance(x, ast.Attribute) or isinstance(x, ast.Name) and x.id in LINE_EXC}
                               & set(LINE_EXC))
                # inside a try block: what it catches is what may be swallowed
                inner = f"try {','.join(names)}|" if s.handlers else always
                s.body, s.orelse = self._points(s.body, depth, inner), self._points(s.orelse, depth, always)
                s.finalbody = self._points(s.finalbody, depth, always)
            out.append(s)
        return out


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def module_path(name):
    rel = os.path.join(REPO, *name.split("."))
    if os.path.isdir(rel):
        return os.path.join(rel, "__init__.py"), True
    return rel + ".py", False


def code_for(path):
    got = _code.get(path)
    if got is None:
        with builtins.open(path, "rb") as f:
            src = f.read()
        tree = ast.fix_missing_locations(_Transform(os.path.basename(path)[:-3]).visit(ast.parse(src, path)))
        got = _code[path] = compile(tree, path, "exec")
    return got


def preload():
    """Compile everything once before workers are forked."""
    for base, _dirs, files in os.walk(os.path.join(REPO, PKG)):
        if os.path.basename(base) in ("test", "__pycache__"):
            continue
        for f in sorted(files):
            if f.endswith(".py"):
                code_for(os.path.join(base, f))


# ---- environment seen by repository code -------------------------------------


class _TimeProxy(types.ModuleType):
    def __init__(self, ctx):
        super().__init__("time")
        import time as real

        self.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})

        def now():
            # every look at the clock costs a little simulated time; a clock may also jump backwards (fault)
            ctx.sim.now += 1e-6
            return ctx.sim.now + ctx.clock_skew

        for k in ("time", "perf_counter", "monotonic", "process_time", "thread_time"):
            setattr(self, k, now)
            setattr(self, k + "_ns", lambda: int(now() * 1e9))

        def sleep(sec):
            ctx.sim.now += max(0.0, float(sec))
            ctx.sim.yield_point("sleep")

        self.sleep = sleep


def _numpy_for(scale):
    """The real numpy; with a mesh scale, np.linspace gives fewer points (tuning knob of the scripts)."""
    import numpy

    if scale is None:
        return numpy
    key = repr(scale)
    got = _np_copies.get(key)
    if got is None:
        got = types.ModuleType("numpy")
        got.__dict__.update(vars(numpy))

        def linspace(start, stop, num=50, *args, **kw):
            num = int(num)
            return numpy.linspace(start, stop, scale.get(str(num), num), *args, **kw)

        got.linspace = linspace
        _np_copies[key] = got
    return got


def _patch_sympy():
    """gaunt() is a pure function; remember its values across runs (speed only)."""
    import sympy.physics.wigner as wig

    if getattr(wig, "_sim_patched", False):
        return
    orig = wig.gaunt

    def gaunt(*args, **kw):
        key = (args, tuple(sorted(kw.items())))
        if key not in _gaunt_cache:
            _gaunt_cache[key] = orig(*args, **kw)
        return _gaunt_cache[key]

    wig.gaunt = gaunt
    wig._sim_patched = True


def make_builtins(ctx):
    b = dict(vars(builtins))
    sim = ctx.sim

    def sim_print(*args, sep=" ", end="\n", file=None, flush=False):
        if file is not None and file not in (sys.stdout, sys.stderr):
            return builtins.print(*args, sep=sep, end=end, file=file, flush=flush)
        if file is not sys.stderr:
            hook = getattr(sim, "print_hook", None)
            if hook is not None:
                hook(ctx)
        text = (" " if sep is None else sep).join(str(a) for a in args) + ("\n" if end is None else end)
        ctx.out.append(text)

    def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if top == PKG:
            mod = load(ctx, name)
            for f in fromlist or ():
                if f != "*" and not hasattr(mod, f):
                    path, is_pkg = module_path(f"{name}.{f}")
                    if os.path.exists(path):
                        setattr(mod, f, load(ctx, f"{name}.{f}"))
            return mod if fromlist else load(ctx, PKG)
        if top == "mpi4py":
            return ctx.modules["mpi4py"]
        if top == "time":
            return ctx.modules["time"]
        if top == "h5py":
            return ctx.modules["h5py"]
        if top == "matplotlib":
            return ctx.modules["matplotlib"]
        if top == "numpy" and getattr(sim, "mesh", None):
            mod = builtins.__import__(name, None, None, fromlist, 0)
            return mod if (fromlist and name != "numpy") else _numpy_for(sim.mesh)
        return builtins.__import__(name, None, None, fromlist, 0)

    def sim_open(file, *args, **kw):
        sub = getattr(ctx, "redirect", None)
        if sub and isinstance(file, (str, os.PathLike)):
            file = sub.get(os.fspath(file), file)
        return builtins.open(file, *args, **kw)

    b["print"] = sim_print
    b["open"] = sim_open
    b["__import__"] = sim_import
    b["set"] = simset.SimSet
    b["frozenset"] = simset.SimFrozenSet
    b["__sim_set__"] = simset.SimSet
    b["__sim_order__"] = simset.order
    b["__sim_tick__"] = sim.tick
    lines = [f for f in sim.faults if f["kind"] == "line_error" and f["rank"] == ctx.rank]

    def sim_main(d):
        ctx.in_main = getattr(ctx, "in_main", 0) + d

    def sim_point(where):
        if (lines or sim.count_points) and getattr(ctx, "in_main", 0) > 0 and current() is ctx and not ctx.kill:
            n = ctx.points[where] = ctx.points.get(where, 0) + 1
            for f in lines:
                if f["site"] == where and f["nth"] == n and not f.get("_done"):
                    f["_done"] = True
                    sim.fire("line_error:" + f["exc"])
                    raise LINE_EXC[f["exc"]]()

    b["__sim_main__"] = sim_main
    b["__sim_point__"] = sim_point
    return b


def prepare(ctx):
    """Give this rank its (empty) module table."""
    _patch_sympy()
    ctx.modules = {}
    m = types.ModuleType("mpi4py")
    m.MPI = MPIModule(ctx.sim, ctx.rank)
    ctx.modules["mpi4py"] = m
    ctx.modules["time"] = _TimeProxy(ctx)
    ctx.modules["h5py"] = make_h5py(ctx)
    ctx.modules["matplotlib"] = _Recorder(ctx, "matplotlib")
    ctx.plots = []
    ctx.points = {}
    ctx.builtins = make_builtins(ctx)
    return ctx


def load(ctx, name, run_as=None):
    """Module `name` of this rank, executed on first use.  run_as='__main__' always executes a fresh copy."""
    if run_as is None and name in ctx.modules:
        return ctx.modules[name]
    path, is_pkg = module_path(name)
    if not os.path.exists(path):
        raise ModuleNotFoundError(f"No module named {name!r}")
    if "." in name:
        parent = load(ctx, name.rsplit(".", 1)[0])
    mod = types.ModuleType(run_as or name)
    mod.__file__ = path
    mod.__package__ = name if is_pkg else name.rpartition(".")[0]
    if is_pkg:
        mod.__path__ = [os.path.dirname(path)]
    mod.__dict__["__builtins__"] = ctx.builtins
    if run_as is None:
        ctx.modules[name] = mod
    try:
        exec(code_for(path), mod.__dict__)
    except BaseException:
        if run_as is None:
            ctx.modules.pop(name, None)
        raise
    if "." in name and run_as is None:
        setattr(parent, name.rsplit(".", 1)[1], mod)
    return mod


# ---- h5py ------------------------------------------------------------------------


def make_h5py(ctx):
    """The real h5py; file operations are interaction and fault points."""
    import h5py as real

    mod = types.ModuleType("h5py")
    mod.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
    sim = ctx.sim

    def point(what, fname):
        hook = getattr(sim, "io_hook", None)
        if hook is not None and current() is ctx:
            hook(ctx, what, fname)

    class File(real.File):
        def __init__(self, name, mode="r", *args, **kw):
            self._sim_name = os.path.basename(os.fspath(name))
            self._sim_ctx = ctx
            point("h5open" + mode, self._sim_name)
            super().__init__(name, mode, *args, **kw)
            if getattr(sim, "h5_open", None) is not None:
                sim.h5_open.append(self)

        def create_dataset(self, name, *args, **kw):
            point(f"h5put:{name}", self._sim_name)
            try:
                return super().create_dataset(name, *args, **kw)
            finally:
                _done(ctx)

        def flush(self):
            point("h5flush", self._sim_name)
            try:
                super().flush()
            finally:
                _done(ctx)

        def close(self):
            if self.id.valid:
                point("h5close", self._sim_name)
            try:
                super().close()
            finally:
                _done(ctx)

    File.__name__ = "File"
    mod.File = File
    return mod


def _done(ctx):
    f = getattr(ctx.sim, "io_done", None)
    if f is not None:
        f(ctx)


class _Recorder:
    """Stands in for matplotlib: notes what is drawn (array arguments copied), draws nothing."""

    def __init__(self, ctx, name):
        self._ctx, self._name = ctx, name

    def __getattr__(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        return _Recorder(self._ctx, f"{self._name}.{attr}")

    def __call__(self, *args, **kw):
        import numpy as np

        what = self._name.rsplit(".", 1)[-1]
        if what in ("plot", "semilogy", "errorbar", "imshow", "pcolormesh", "pcolor", "matshow", "contourf"):
            self._ctx.plots.append((self._name, [np.array(a) if isinstance(a, (np.ndarray, list, tuple)) else a for a in args], dict(kw)))
        if what == "subplots":
            shape = [kw.get("nrows", args[0] if args else 1), kw.get("ncols", args[1] if len(args) > 1 else 1)]
            ax = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                ax[i] = _Recorder(self._ctx, f"axes{i}")
            if kw.get("squeeze", True):
                ax = ax.squeeze()
                if ax.ndim == 0:
                    ax = ax.item()
            return _Recorder(self._ctx, "figure"), ax
        return _Recorder(self._ctx, self._name + "()")

    def __iter__(self):
        return iter(())


def import_real(name):
    return importlib.import_module(name)
