"""A damaged or non-Hermitian Hamiltonian file is never turned into spectra, and never hangs the job."""

import io
import json
import os
import pickle
import random

import numpy as np

from sim import job
from sim.driver import Violation

from . import e2e
from .common import ASSUME, REAL_JOB, STUB_JOB, sim_spec

ID = "P18"
COUNTS = {"quick": 700, "thorough": 12000}
RULE = ("A case is a full run of a spectra script on 1-4 ranks whose Hamiltonian file was damaged on disk: bits flipped, a block zeroed, "
        "cut short, two versions spliced, or one matrix element dropped, altered or given an imaginary diagonal; non-trivial: the file no "
        "longer encodes a Hermitian operator. Distinct by (input, event sequence).")
REAL, STUB = REAL_JOB, STUB_JOB
ASSUMPTIONS = ASSUME + ["Damaged pickles that would import Python objects are not run (an independent decoder looks first)."]
KINDS = ("drop", "drop", "alter", "alter", "imag_diag", "imag_diag", "sign", "nan", "nan", "cut", "zero_block", "flip", "flip", "splice", "empty")


def generate(rng, index, tier):
    nranks = rng.choice([1, 2, 2, 3, 4])
    spec = sim_spec(rng, nranks, perturb_eig=False, horizon=400)
    spec["max_steps"] = 2000000
    cfg = e2e.config(rng, small=True, cf_share=0.15)
    if cfg["kind"] == "CF":
        return {"nranks": nranks, "sim": spec, "cfg": cfg, "damage": [rng.choice(["cut", "zero_block", "empty", "splice"]), rng.getrandbits(40)]}
    return {"nranks": nranks, "sim": spec, "cfg": cfg, "damage": [rng.choice(KINDS), rng.getrandbits(40)]}


class _Safe(pickle.Unpickler):
    def find_class(self, module, name):
        if (module, name) == ("builtins", "complex"):
            return complex
        raise ImportError(f"{module}.{name}")


def damage_bytes(b, kind, rng):
    b = bytearray(b)
    if kind == "cut":
        return bytes(b[:rng.randrange(len(b))])
    if kind == "empty":
        return b""
    if kind == "zero_block":
        i = rng.randrange(len(b))
        n = min(len(b) - i, rng.choice([1, 8, 64, 512]))
        b[i:i + n] = bytes(n)
    elif kind == "flip":
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.randrange(len(b))
            b[i] ^= 1 << rng.randrange(8)
    elif kind == "splice":
        i, j = sorted((rng.randrange(len(b)), rng.randrange(len(b))))
        b = b[:i] + b[j:]
    return bytes(b)


def damage_operator(op, kind, rng):
    """A Hermitian operator with one element broken (None if the operator offers no place for it)."""
    op = dict(op)
    offdiag = sorted((k for k in op if len(k) == 2 and k[0][0] != k[1][0]), key=repr)
    diag = sorted((k for k in op if len(k) == 2 and k[0][0] == k[1][0]), key=repr)
    if kind == "imag_diag":
        k = rng.choice(diag)
        op[k] = complex(op[k]) + 1j * rng.choice([1e-5, 1e-4, 1e-3, 0.5])
        return op
    if kind == "nan":
        k = rng.choice(diag + offdiag)
        op[k] = rng.choice([float("nan"), float("inf"), complex(0, float("nan"))])
        return op
    offdiag = [k for k in offdiag if abs(op[k]) > 1e-3]
    if not offdiag:
        return None
    k = rng.choice(offdiag)
    if kind == "drop":
        del op[k]
    elif kind == "alter":
        op[k] = op[k] + rng.choice([1e-5, 1e-4, 2e-4j, 0.01, 0.5, 0.1j])
    elif kind == "sign":
        op[k] = -op[k]
    return op


def verdict(b, cfg):
    """'unreadable', 'not-hermitian', 'hermitian', 'unclear' or 'unsafe', from an independent look at the bytes."""
    if cfg["kind"] == "CF":
        try:
            x = json.loads(b)
        except Exception:  # noqa: BLE001
            return "unreadable"
        return "unclear" if isinstance(x, dict) else "unreadable"
    try:
        x = _Safe(io.BytesIO(b)).load()
    except ImportError:
        return "unsafe"
    except Exception:  # noqa: BLE001
        return "unreadable"
    if not isinstance(x, dict):
        return "unreadable"
    n0, nb = cfg["size"][:2]
    n_p = (cfg.get("pbath") or [0])[0]
    ok = {(2, s, m) for s in range(2) for m in range(-2, 3)} | {(2, i) for i in range(nb)}
    ok |= {(1, s, m) for s in range(2) for m in range(-1, 2)} | {(1, i) for i in range(n_p)}
    try:
        for p, v in x.items():
            complex(v)
            if len(p) != 2 or [q[1] for q in p] != ["c", "a"] or any(q[0] not in ok for q in p) or isinstance(v, bool):
                return "unclear"
        exact = True
        for (a, b_), v in x.items():
            w = x.get(((b_[0], "c"), (a[0], "a")))
            exact &= w is not None and complex(v) == complex(w).conjugate()
            if not abs(complex(v) - complex(w or 0).conjugate()) <= 1e-6:
                return "not-hermitian"
            if not np.isfinite(v):
                return "not-hermitian"
        if not exact:
            return "nearly hermitian"
    except Exception:  # noqa: BLE001
        return "unclear"
    return "hermitian"


def run(case, R):
    cfg = e2e.settle(case["cfg"])
    if cfg is None:
        return R.probe("skipped: fully degenerate configuration")
    kind, s = case["damage"]
    rng = random.Random(s)
    d = job.scratch_dir("p18")
    try:
        e2e.write_inputs(cfg, d)
        p = os.path.join(d, "h0.in")
        if kind in ("drop", "alter", "imag_diag", "sign", "nan"):
            op = damage_operator(e2e.h0_dict(cfg), kind, rng)
            if op is None:
                return R.probe("skipped: no such element")
            b = pickle.dumps(op)
        else:
            with open(p, "rb") as f:
                b = f.read()
            b = damage_bytes(b, kind, rng)
        want = verdict(b, cfg)
        if want == "unsafe":
            return R.probe("skipped: damaged pickle names Python objects")
        with open(p, "wb") as f:
            f.write(b)
        o = e2e.launch(R, cfg, case["nranks"], case["sim"], d)
        out = e2e.read_outputs(d) if o.success else None
    finally:
        job.cleanup(d)
    what = f"{case['nranks']} ranks, Hamiltonian file damaged ({kind}, {want})"
    if o.misuse:
        raise Violation("mpi-misuse", f"{what}: {o.describe()}")
    if o.hang or o.overrun:
        raise Violation("hang", f"{what}: {o.describe()}")
    if want in ("unreadable", "not-hermitian") and o.success:
        raise Violation("damaged-input-accepted", f"{what}, yet the job reports success")
    if o.success:
        e2e.check_complete(out, what)
    elif want == "hermitian":
        raise Violation("good-input-rejected", f"{what}: {o.describe()}")
    R.probe(f"{want}: {'success' if o.success else 'rejected'}")
    R.probe("damage: " + kind)
    if want in ("unreadable", "not-hermitian"):
        R.key = case["sim"]["seed"]


def shrink(case):
    yield from ()
