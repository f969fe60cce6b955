"""Sources of numerical nondeterminism of the libraries, brought under the simulator.

An eigensolver may return any phase, any basis of a degenerate level, and starts from
a random vector; real ranks (different nodes, BLAS kernels, entropy) need not agree.
Dense LAPACK solvers are real; ARPACK (whose restarts use hidden process-wide state) is
replaced by a dense solver which, like ARPACK, does not find levels in blocks of the matrix that a given start
vector leaves out.  When the run asks for it, the returned vectors are turned
into another equally valid answer, drawn per rank and call.
"""

import random as _pyrandom
import sys

import numpy as np
import scipy.linalg
import scipy.sparse.linalg

from .core import current

_orig = {}


def _rng(ctx, what):
    n = ctx.counters[what] = ctx.counters.get(what, 0) + 1
    return np.random.Generator(np.random.PCG64(_pyrandom.Random(f"{what}:{ctx.sim.seed}:{ctx.rank}:{n}").getrandbits(64)))


def _rounded(ctx, w):
    """The last bits of an eigenvalue differ between processors."""
    return w * (1 + np.finfo(float).eps * _rng(ctx, "ulp").integers(-4, 5, size=np.shape(w)))


def equivalent_vectors(es, vecs, rng, tol):
    """Another orthonormal set of eigenvectors for the same eigenvalues."""
    vecs = np.array(vecs)
    es = np.asarray(es)
    real = not np.iscomplexobj(vecs)
    order = np.argsort(es, kind="stable")
    i = 0
    while i < len(order):
        j = i + 1
        while j < len(order) and es[order[j]] - es[order[j - 1]] < tol:
            j += 1
        idx = order[i:j]
        m = len(idx)
        g = rng.normal(size=(m, m)) if real else rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))
        q, r = np.linalg.qr(g)
        d = np.diagonal(r)
        q = q * (d / np.abs(d))
        vecs[:, idx] = vecs[:, idx] @ q
        i = j
    return vecs


EXC = {"LinAlgError": lambda w: np.linalg.LinAlgError(f"{w} did not converge (injected)"),
       "MemoryError": lambda w: MemoryError(f"{w} (injected)"),
       "RuntimeError": lambda w: RuntimeError(f"{w} (injected)"),
       "ValueError": lambda w: ValueError(f"{w} (injected)"),
       "FloatingPointError": lambda w: FloatingPointError(f"{w} (injected)")}


def _fail(what, kind="solver"):
    """Injected: a numerical routine gives up, or an allocation fails, on one rank.

    A fault counts the calls of one routine ("of") or of all of its kind.
    """
    ctx = current()
    if ctx is None:
        return
    n = ctx.counters[kind] = ctx.counters.get(kind, 0) + 1
    m = ctx.counters[kind + ":" + what] = ctx.counters.get(kind + ":" + what, 0) + 1
    for f in ctx.sim.faults:
        if f["kind"] == kind + "_error" and f["rank"] == ctx.rank and not f.get("_done"):
            of = f.get("of")
            if f["nth"] == n if of is None else (of == what and f["nth"] == m):
                f["_done"] = True
                exc = f.get("exc", "LinAlgError")
                ctx.sim.fire(f"{kind}_error:{what}:{exc}")
                raise EXC[exc](what)


def _visible(a, w, v, v0):
    """index of eigenvector -> level, for the levels whose blocks of the matrix a start vector touches.

    Zeros between blocks are exact; a part that cancels by symmetry only comes back with the rounding errors."""
    import scipy.sparse.csgraph

    block = scipy.sparse.csgraph.connected_components(scipy.sparse.csr_matrix(a != 0), directed=False)[1]
    inside = np.isin(block, block[np.flatnonzero(np.asarray(v0).ravel())])
    level = np.concatenate([[0], np.cumsum(np.diff(w) > 1e-9 * max(1.0, float(np.max(np.abs(w)))))])
    part = np.bincount(level, weights=np.sum(np.abs(v[inside]) ** 2, axis=0))
    return {i: int(l) for i, l in enumerate(level) if part[l] > 1e-12}


def _from_repo(depth=2):
    return "__sim_tick__" in sys._getframe(depth).f_builtins


def install():
    if _orig:
        return
    _orig["eigsh"] = scipy.sparse.linalg.eigsh
    _orig["eigh"] = np.linalg.eigh
    _orig["seigh"] = scipy.linalg.eigh

    def eigsh(A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0,
              return_eigenvectors=True, *args, **kw):
        _fail("eigsh")
        ctx = current()
        n = A.shape[0] if hasattr(A, "shape") else 0
        simple = ctx is not None and M is None and sigma is None and which in ("SA", "LA", "SM", "LM") and not args and not kw
        if not simple or not 0 < k < n - 1 or n > 600 or not (hasattr(A, "toarray") or isinstance(A, np.ndarray)):
            return _orig["eigsh"](A, k, M, sigma, which, v0, ncv, maxiter, tol, return_eigenvectors, *args, **kw)
        # ARPACK restarts from a hidden process-wide random state; a dense solver and an explicit choice take its place.
        dense = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
        w, v = _orig["eigh"](dense)
        pert = ctx.sim.perturb_eig
        if pert:
            ctx.sim.fire("eig_choice")
            v = equivalent_vectors(w, v, _rng(ctx, "rot"), 1e-9 * max(1.0, float(np.max(np.abs(w)))))
        key = {"SA": w, "LA": -w, "SM": np.abs(w), "LM": -np.abs(w)}[which]
        if v0 is not None:
            seen = _visible(dense, w, v, v0)
            if len(set(seen.values())) > (ncv or min(n, max(2 * k + 1, 20))):
                # The Krylov space of this start vector is larger than what ARPACK keeps, and never contains the other levels.
                ctx.sim.fire("eig_start")
                key = np.where([i in seen for i in range(n)], key, np.inf)
        idx = np.sort(np.argsort(key, kind="stable")[:k])
        if pert:
            rng = _rng(ctx, "ord")
            idx = rng.permutation(idx)
            if tol and k > 0:
                # ARPACK may stop at any vectors whose residuals are below tol * |eigenvalue|
                spread = float(w[-1] - w[0]) or 1.0
                x = v[:, idx]
                eps = 0.3 * tol * np.maximum(np.abs(w[idx]), 1e-10) / spread
                y = rng.normal(size=x.shape) + (1j * rng.normal(size=x.shape) if np.iscomplexobj(x) else 0)
                x, _ = np.linalg.qr(x + eps * y / np.linalg.norm(y, axis=0))
                x = x * np.exp(-1j * np.angle(np.sum(x.conj() * v[:, idx], axis=0))) if np.iscomplexobj(x) else x
                e = _rounded(ctx, np.sum(x.conj() * (dense @ x), axis=0).real)
                return (e, x) if return_eigenvectors else e
        e = _rounded(ctx, w[idx]) if pert else w[idx]
        return (e, v[:, idx]) if return_eigenvectors else e

    def _dense(name):
        def eigh(*args, **kw):
            _fail(name)
            res = _orig[name](*args, **kw)
            ctx = current()
            if ctx is not None and ctx.sim.perturb_eig and isinstance(res, tuple) and np.ndim(res[1]) == 2:
                ctx.sim.fire("eig_choice")
                w, v = res[0], equivalent_vectors(res[0], res[1], _rng(ctx, "rot"), 1e-9)
                w = _rounded(ctx, w)
                if isinstance(res[1], np.matrix):
                    v = np.asmatrix(v)
                return type(res)(w, v) if hasattr(res, "_fields") else (w, v)
            return res

        return eigh

    _orig["bicgstab"] = scipy.sparse.linalg.bicgstab

    def bicgstab(*args, **kw):
        _fail("bicgstab")
        x, info = _orig["bicgstab"](*args, **kw)
        ctx = current()
        if ctx is not None and info != 0 and _orig["bicgstab"](*args[:2], **{k: w for k, w in kw.items() if k in "Ab"})[1] != 0:
            # not even with the solver's own number of steps
            ctx.counters["bicgstab_not_converged"] = ctx.counters.get("bicgstab_not_converged", 0) + 1
        return x, info

    scipy.sparse.linalg.bicgstab = bicgstab
    scipy.sparse.linalg.eigsh = eigsh
    np.linalg.eigh = _dense("eigh")
    scipy.linalg.eigh = _dense("seigh")

    # Allocations asked for by the repository's own code.
    def _alloc(mod, name):
        real = getattr(mod, name)

        def alloc(*args, **kw):
            if _from_repo():
                _fail(name, "alloc")
            return real(*args, **kw)

        alloc.__name__ = name
        setattr(mod, name, alloc)

    for name in ("zeros", "empty", "ones", "zeros_like", "array"):
        _alloc(np, name)
    for cls in (scipy.sparse.csr_matrix, scipy.sparse.csc_matrix, scipy.sparse.coo_matrix):
        def init(self, *args, _cls=cls, _real=cls.__init__, **kw):
            if _from_repo():
                _fail(_cls.__name__, "alloc")
            _real(self, *args, **kw)

        cls.__init__ = init
