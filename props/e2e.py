"""Whole-program runs of the two spectra scripts: configurations, exact reference, reading the outputs."""

import hashlib
import json
import os
import pickle
import random
import warnings

import numpy as np

from sim import job, phys, ref
from sim.driver import Violation

K_B = 8.6173324e-5
FILES = ("PS.dat", "XPS.dat", "NIXS.dat", "XAS.dat", "RIXS.bin", "spectra.h5", "data.npz")
DATS = ("PS", "XPS", "NIXS", "XAS")
MESH = {"3000": 20, "50": 2, "4000": 14}
MESH_BIG = {"3000": 61, "50": 3, "4000": 40}  # leaves longer files behind
MODULE = {"pickle": "impurityModel.ed.get_spectra", "CF": "impurityModel.ed.get_spectra_using_CF"}
# (n0, nBaths, nValBaths, dnTol, dnVal, dnCon): small enough for a dense reference
SIZES = [(9, 0, 0, 0, 0, 0), (9, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0), (8, 0, 0, 0, 0, 0), (9, 1, 1, 1, 1, 0), (9, 2, 2, 1, 1, 0),
         (9, 2, 1, 1, 1, 1), (9, 3, 2, 1, 1, 0), (9, 2, 2, 2, 1, 0), (8, 1, 1, 1, 1, 0), (9, 1, 0, 1, 0, 1),
         (9, 2, 1, 1, 0, 1), (9, 3, 2, 1, 1, 1)]
# baths of the 2p orbitals: number, of which valence, dnTol, dnCon
PBATHS = [(1, 1, 0, 0), (1, 1, 0, 0), (2, 2, 0, 0), (1, 0, 1, 1)]
SIZES_SMALL = [(9, 0, 0, 0, 0, 0), (9, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0), (9, 1, 1, 1, 1, 0), (9, 2, 2, 1, 1, 0)]


def config(rng, small=False, cf_share=0.2):
    kind = "CF" if rng.random() < cf_share else "pickle"
    n0, nb, nv, tol, dval, dcon = rng.choice(SIZES_SMALL if small else SIZES)
    if kind == "CF":
        n0, nb, nv, tol, dval, dcon = rng.choice([(9, 10, 10, 1, 1, 0), (9, 10, 10, 0, 0, 0), (9, 20, 10, 0, 0, 0)])
    sc = rng.choice([1.0, 0.5, 0.8])
    cfg = {
        "kind": kind, "size": [n0, nb, nv, tol, dval, dcon],
        "Fdd": [round(7.5 * sc, 3), 0, round(9.9 * sc, 3), 0, round(6.6 * sc, 3)],
        "Fpd": [8.9, 0, round(6.8 * sc, 3)], "Gpd": [0, round(5 * sc, 3), 0, round(2.8 * sc, 3)],
        "xi_2p": rng.choice([11.629, 6.3]), "xi_3d": rng.choice([0.096, 0.0, 0.05]),
        "c": rng.choice([1.5, 0.8]),
        "hField": rng.choice([[0, 0, 0.0001], [0, 0, 0], [0.01, 0.02, 0.03]]),
        "nPsiMax": rng.choice([1, 2, 3, 4, 6]), "T": rng.choice([300, 300, 50, 2000, 3]), "energy_cut": rng.choice([10, 3]),
        "delta": rng.choice([0.2, 0.5]), "deltaRIXS": rng.choice([0.1, 0.3]), "deltaNIXS": rng.choice([0.1, 0.3]),
        "h0": None,
    }
    if cfg["T"] < 10:
        # weights far below the smallest number
        cfg["energy_cut"] = rng.choice([10, 3000])
    if kind == "CF":
        keys = ["e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg",
                "v_con_t2g"]
        cfg["h0"] = {k: round(rng.uniform(-2, 2), 4) for k in keys if rng.random() < 0.7}
    else:
        h0 = []
        split = [round(rng.uniform(-0.8, 0.8), 4) for _ in range(5)]
        real = rng.random() < 0.5
        hyb = [[(round(rng.uniform(-1, 1), 4), 0.0 if real else round(rng.uniform(-1, 1), 4)) for _ in range(10)] for _ in range(nb)]
        off = [(rng.randrange(5), rng.randrange(5), round(rng.uniform(-0.3, 0.3), 4)) for _ in range(2)]
        for s in range(2):
            for m in range(-2, 3):
                h0.append([[[[2, s, m], "c"], [[2, s, m], "a"]], [round(-1.0 + split[m + 2], 4), 0.0]])
            for a, b, v in off:
                if a != b and not any(p[0][0] == [2, s, a - 2] and p[1][0] == [2, s, b - 2] for p, _ in h0):
                    h0.append([[[[2, s, a - 2], "c"], [[2, s, b - 2], "a"]], [v, 0.0]])
                    h0.append([[[[2, s, b - 2], "c"], [[2, s, a - 2], "a"]], [v, 0.0]])
        for b in range(nb):
            h0.append([[[[2, b], "c"], [[2, b], "a"]], [round(rng.uniform(-4, -1) if b < nv else rng.uniform(1, 3), 4), 0.0]])
            for i in rng.sample(range(10), 3):
                s, m = divmod(i, 5)
                v = hyb[b][i]
                if rng.random() < 0.2:
                    v = (v[0], round(v[1] * 1e-3, 6))
                h0.append([[[[2, b], "c"], [[2, s, m - 2], "a"]], [v[0], v[1]]])
                h0.append([[[[2, s, m - 2], "c"], [[2, b], "a"]], [v[0], -v[1]]])
        if n0 == 9 and nb <= 1 and rng.random() < 0.35:
            cfg["pbath"] = list(rng.choice(PBATHS if nb == 0 else PBATHS[:3]))
            for b in range(cfg["pbath"][0]):
                e = rng.uniform(-70, -50) if b < cfg["pbath"][1] else rng.uniform(-10, 5)
                h0.append([[[[1, b], "c"], [[1, b], "a"]], [round(e, 4), 0.0]])
                for i in rng.sample(range(6), 2):
                    s, m = divmod(i, 3)
                    v = [round(rng.uniform(-1, 1), 4), 0.0 if real else round(rng.uniform(-1, 1), 4)]
                    h0.append([[[[1, b], "c"], [[1, s, m - 1], "a"]], v])
                    h0.append([[[[1, s, m - 1], "c"], [[1, b], "a"]], [v[0], -v[1]]])
        cfg["h0"] = h0
    if rng.random() < 0.3:
        cfg["Fpp"] = [round(rng.uniform(0, 20), 2), 0, round(rng.uniform(0, 8), 2)]
    return cfg


def pool_config(seed, index, pool, **kw):
    """Cases share a few configurations, so that reference results can be kept (a pure cache)."""
    k = index % 8 + 8 * ((index // 8) % max(1, pool // 8))
    return config(random.Random(f"cfg:{seed}:{k}"), **kw)


def h0_dict(cfg):
    out = {}
    for process, v in cfg["h0"]:
        v = complex(*v)
        out[tuple((tuple(o), k) for o, k in process)] = v if v.imag else v.real
    return out


def write_inputs(cfg, d):
    if cfg["kind"] == "CF":
        with open(os.path.join(d, "h0.in"), "w") as f:
            json.dump(cfg["h0"], f)
    else:
        with open(os.path.join(d, "h0.in"), "wb") as f:
            pickle.dump(h0_dict(cfg), f)
    np.savetxt(os.path.join(d, "radial.dat"), radial().T, header="r R(r)")


def argv(cfg, npsi=None):
    n0, nb, nv, tol, dval, dcon = cfg["size"]
    pb, pv, ptol, pcon = cfg.get("pbath") or (0, 0, 0, 0)
    a = ["h0.in", "radial.dat", "--nBaths", pb, nb, "--nValBaths", pv, nv, "--n0imps", 6, n0, "--dnTols", ptol, tol,
         "--dnValBaths", 0, dval, "--dnConBaths", pcon, dcon]
    for k in ("Fpp", "tolPrintOccupation", "nPrintSlaterWeights"):
        if k in cfg:
            a += ["--" + k] + (list(cfg[k]) if isinstance(cfg[k], list) else [cfg[k]])
    for k, name in (("Fdd", "--Fdd"), ("Fpd", "--Fpd"), ("Gpd", "--Gpd"), ("hField", "--hField")):
        a += [name] + list(cfg[k])
    a += ["--xi_2p", cfg["xi_2p"], "--xi_3d", cfg["xi_3d"], "--chargeTransferCorrection", cfg["c"], "--nPsiMax",
          cfg["nPsiMax"] if npsi is None else npsi, "--T", cfg["T"], "--energy_cut", cfg["energy_cut"], "--delta", cfg["delta"],
          "--deltaRIXS", cfg["deltaRIXS"], "--deltaNIXS", cfg["deltaNIXS"]]
    return a


def launch(R, cfg, nranks, spec, d, npsi=None, redirect=None):
    spec = dict(spec)
    spec.setdefault("mesh", MESH)
    return R.script(nranks, spec, MODULE[cfg["kind"]], argv(cfg, npsi), d, redirect)


# ---- reading ------------------------------------------------------------------------------


def read_outputs(d, files=FILES):
    """Content of the output files; a file that cannot be read gives an Exception as its value."""
    import h5py

    out = {}
    for f in files:
        p = os.path.join(d, f)
        if not os.path.exists(p):
            out[f] = None
            continue
        try:
            if f.endswith(".dat"):
                with open(p) as h:
                    head = h.readline()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    out[f] = np.loadtxt(p, ndmin=2)
                if not head.startswith("#"):
                    raise ValueError("no header line")
            elif f.endswith(".bin"):
                x = np.fromfile(p, dtype=np.float32)
                if os.path.getsize(p) != x.nbytes:
                    raise ValueError("size is not a whole number of values")
                nc = int(x[0]) + 1
                out[f] = x.reshape(len(x) // nc, nc)
            elif f.endswith(".h5"):
                with h5py.File(p, "r") as h:
                    out[f] = {k: np.array(h[k]) for k in h}
            else:
                with np.load(p, allow_pickle=True) as z:
                    out[f] = {k: z[k] for k in z.files}
        except Exception as e:  # noqa: BLE001
            out[f] = e
    return out


H5_KEYS = {"E", "w", "wIn", "wLoss", "qsNIXS", "r", "RiNIXS", "RjNIXS"} | {k + s for k in DATS + ("RIXS",) for s in ("", "thermal")}


NPZ_KEYS = {"nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths", "Fdd", "Fpp", "Fpd", "Gpd", "xi_2p", "xi_3d",
            "chargeTransferCorrection", "hField", "nPsiMax", "T", "energy_cut", "delta", "restrictions", "epsilons",
            "epsilonsRIXSin", "epsilonsRIXSout", "deltaRIXS", "deltaNIXS", "n_spin_orbitals", "hOp"}


def check_complete(out, what, cls="incomplete-output"):
    """Every output file is there, readable, with the right structure, finite values, and consistent with the others."""
    for f in FILES:
        if out[f] is None:
            raise Violation(cls, f"{what}: {f} is missing")
        if isinstance(out[f], Exception):
            raise Violation(cls, f"{what}: {f} cannot be read: {type(out[f]).__name__}: {out[f]}")
    if not NPZ_KEYS <= set(out["data.npz"]):
        raise Violation(cls, f"{what}: data.npz lacks {sorted(NPZ_KEYS - set(out['data.npz']))}")
    h5 = out["spectra.h5"]
    if not H5_KEYS <= set(h5):
        raise Violation(cls, f"{what}: spectra.h5 lacks {sorted(H5_KEYS - set(h5))}")
    for k in H5_KEYS:
        if not np.all(np.isfinite(h5[k])):
            raise Violation(cls, f"{what}: spectra.h5/{k} is not finite")
    for k in DATS:
        check_dat(out[k + ".dat"], h5[k + "thermal"], h5["wLoss"] if k == "NIXS" else h5["w"], f"{what}: {k}.dat", cls)
    rx = h5["RIXSthermal"].sum(axis=(0, 1)).T
    b = out["RIXS.bin"]
    if b.shape != (rx.shape[0] + 1, rx.shape[1] + 1):
        raise Violation(cls, f"{what}: RIXS.bin has shape {b.shape}, expected {(rx.shape[0] + 1, rx.shape[1] + 1)}")
    for got, want, part in ((b[0, 1:], h5["wIn"], "photon energies"), (b[1:, 0], h5["wLoss"], "energy losses"), (b[1:, 1:], rx, "map")):
        if not np.allclose(got, want, rtol=1e-5, atol=1e-6 * max(1.0, np.abs(want).max())):
            raise Violation(cls, f"{what}: RIXS.bin {part} disagree with spectra.h5")


def check_dat(dat, thermal, w, what, cls):
    if dat.shape != (len(w), 2 + len(thermal)):
        raise Violation(cls, f"{what} has shape {dat.shape}, expected {(len(w), 2 + len(thermal))}")
    want = np.concatenate([[w, thermal.sum(axis=0)], thermal]).T
    if not np.all(np.abs(dat - want) <= 5.1e-5 + 1e-9 * np.abs(want)):
        raise Violation(cls, f"{what} disagrees with spectra.h5")


def spread(base, k):
    """By how much two correct runs may differ in spectrum k (dropping of small weights depends on the choice of states in a level)."""
    return 2 * reference(base["cfg"])["tol"][k]


def compare(got, base, what, cls, tol=2e-3):
    """Same results as another run; thermal averages only (single states of a level are not unique)."""
    a, b = got["spectra.h5"], base["spectra.h5"]
    for k in ("E", "w", "wIn", "wLoss", "qsNIXS", "r", "RiNIXS", "RjNIXS") + tuple(x + "thermal" for x in DATS + ("RIXS",)):
        t = 1e-6 if not k.endswith("thermal") else tol
        if a[k].shape != b[k].shape:
            raise Violation(cls, f"{what}: {k} has shape {a[k].shape}, expected {b[k].shape}")
        d = np.abs(a[k] - b[k]).max() if a[k].size else 0
        s = max(np.abs(b[k]).max() if b[k].size else 0, 1e-3 if k.endswith("thermal") else 1)
        if not d <= t * s and not (k.endswith("thermal") and np.all(np.abs(a[k] - b[k]) <= spread(base, k[:-7]))):
            raise Violation(cls, f"{what}: {k} differs by {d:.3g} (largest value {s:.3g})")


    for k, v in base["data.npz"].items():
        if k not in got["data.npz"]:
            raise Violation(cls, f"{what}: data.npz lacks {k}")
        if not _equal(got["data.npz"][k], v):
            raise Violation(cls, f"{what}: data.npz records another {k} than the undisturbed run")


def _equal(a, b):
    """Equality of what data.npz may hold, with room for rounding."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.ndim == 0:
        return isinstance(b, np.ndarray) and b.ndim == 0 and _equal(a.item(), b.item())
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return False
        if all(isinstance(x, (int, float, complex, np.number)) for x in list(a.values()) + list(b.values())):
            return all(abs(a.get(k, 0) - b.get(k, 0)) <= 1e-9 for k in set(a) | set(b))
        return set(a) == set(b) and all(_equal(a[k], b[k]) for k in a)
    try:
        x, y = np.asarray(a), np.asarray(b)
    except ValueError:
        return len(a) == len(b) and all(_equal(p, q) for p, q in zip(a, b))
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "OUS" or y.dtype.kind in "OUS":
        return a == b if not isinstance(a, np.ndarray) else bool(np.all(x == y))
    return bool(np.allclose(x, y, rtol=1e-9, atol=1e-12))


# ---- exact reference ------------------------------------------------------------------------

_ref_cache = {}


def cfg_key(cfg):
    return hashlib.blake2b(json.dumps(cfg, sort_keys=True).encode(), digest_size=8).hexdigest()


def basis(cfg):
    """All ground-state configurations allowed by the occupation options, as bit masks."""
    import itertools

    n0, nb, nv, tol, dval, dcon = cfg["size"]
    pb, pv, ptol, pcon = cfg.get("pbath") or (0, 0, 0, 0)

    def shell(imp, n, first, nbath, nval, tol, dval, dcon):
        out = []
        for a in range(dval + 1):
            for b in range(dcon + 1):
                if abs(a - b) > tol:
                    continue
                for i in itertools.combinations(imp, n + a - b):
                    for v in itertools.combinations(range(first, first + nval), nval - a):
                        for c in itertools.combinations(range(first + nval, first + nbath), b):
                            out.append(ref.to_mask(i) | ref.to_mask(v) | ref.to_mask(c))
        return out

    ps = shell(range(6), 6, 16, pb, pv, ptol, 0, pcon)
    ds = shell(range(6, 16), n0, 16 + pb, nb, nv, tol, dval, dcon)
    return [p | d for p in ps for d in ds]


def restrictions(cfg):
    """Occupation limits of the spectra, as the options define them."""
    n0, nb, nv, tol, dval, dcon = cfg["size"]
    restr = {tuple(range(6, 16)): (n0 - 1, n0 + tol + 1)}
    first = 16 + (cfg.get("pbath") or [0])[0]
    restr[tuple(range(first, first + nv))] = (nv - dval, nv)
    if not (nv == 0 and nb == 0):
        restr[tuple(range(first + nv, first + nb))] = (0, dcon)
    return restr


def _plain_lanczos(h, v, z, k):
    """The same without orthogonalising against all earlier vectors: how far rounding takes any implementation."""
    nv = np.linalg.norm(v)
    q0, q1 = np.zeros(len(v), dtype=complex), v / nv
    a, b = [], []
    for j in range(k):
        w = h @ q1
        a.append(np.vdot(q1, w).real)
        w = w - a[-1] * q1 - (b[-1] * q0 if b else 0)
        nb = np.linalg.norm(w)
        if nb < 1e-9 or j == k - 1:
            break
        b.append(nb)
        q0, q1 = q1, w / nb
    g = 1 / (z - a[-1])
    for x, y in zip(a[-2::-1], b[len(a) - 2::-1]):
        g = 1 / (z - x - y**2 * g)
    return nv**2 * g


def _gs(space, v, z, k=150):
    """The Green's function with the documented number of Lanczos steps, and how far from it rounding alone may lead."""
    exact = space.green(v, z)
    if k >= len(space.states):
        return exact, 0.0
    g = ref.green_krylov(space.h, v, z, k)[0]
    return g, 3 * max(np.abs(g - exact).max(), np.abs(g - _plain_lanczos(space.h, v, z, k)).max())


def radial():
    r = np.linspace(0.01, 3, 40)
    # as read back from the text file
    return np.array([[float("%.18e" % x) for x in v] for v in (r, 30 * r**2 * np.exp(-2.2 * r))])


def hamiltonian(cfg):
    return phys.hamiltonian(cfg, cfg["h0"] if cfg["kind"] == "CF" else h0_dict(cfg))


def _operators(cfg):
    """Hamiltonian and transition operators, from the definitions."""
    return phys.operators(cfg, cfg["h0"] if cfg["kind"] == "CF" else h0_dict(cfg), *radial())


def reference(cfg):
    """Exact thermal spectra for a configuration (memoised per process)."""
    key = cfg_key(cfg)
    if key in _ref_cache:
        return _ref_cache[key]
    n0, nb, nv, tol, dval, dcon = cfg["size"]
    ops = _operators(cfg)
    hop = ops["H"]
    restr = restrictions(cfg)
    sp = ref.Space(hop, basis(cfg), None, grow=False)
    es, vecs = np.linalg.eigh(sp.h)
    # never cut through a degenerate level: it would leave the result undefined
    npsi = min(cfg["nPsiMax"], len(es) - 2)
    while npsi > 1 and es[npsi] - es[npsi - 1] < 1e-5:
        npsi -= 1
    unique = es[npsi] - es[npsi - 1] > 1e-5
    cut = cfg["energy_cut"] * K_B * cfg["T"]
    unique &= bool(np.all(np.abs(es[:npsi] - es[0] - cut) > 1e-6))
    ne = int(np.sum(es[:npsi] - es[0] < cut))
    wt = np.exp(-(es[:ne] - es[0]) / (K_B * cfg["T"]))
    wt /= wt.sum()
    w = np.linspace(-25, 25, MESH["3000"])
    win, wl = np.linspace(-10, 20, MESH["50"]), np.linspace(-2, 12, MESH["4000"])
    res = {"unique": unique, "npsi": npsi, "ne": ne, "es": es[:npsi], "n_basis": len(es), "out": {}, "tol": {}}

    def states(prune):
        out = []
        for i in range(ne):
            v = vecs[:, i]
            out.append({s: v[j] for j, s in enumerate(sp.states) if abs(v[j]) ** 2 >= prune})
        return out

    spaces, rows = {}, {}

    def space_for(psi):
        key = frozenset(psi)
        if key not in spaces:
            spaces[key] = ref.Space(hop, sorted(psi), restr, rows=rows)
        return spaces[key]

    def spectrum(tops, sign, mesh, delta, psis):
        g = np.zeros((len(tops), len(mesh)))
        slack = 0.0
        for x, psi, e in zip(wt, psis, es):
            for t, top in enumerate(tops):
                r = ref.apply_mask(top, psi, restr)
                if prune:
                    r = {k: a for k, a in r.items() if abs(a) ** 2 >= prune}
                if r:
                    s = space_for(r)
                    got, d = _gs(s, s.vec(r), sign * mesh + 1j * sign * delta + e)
                    g[t] += x * -(sign * got).imag
                    slack += x * d
        return g, slack

    def rixs(psis):
        g = np.zeros((3, 3, len(win), len(wl)))
        bound = np.zeros(g.shape)
        z = wl + 1j * cfg["deltaRIXS"]
        for x, psi, e in zip(wt, psis, es):
            for a, tin in enumerate(ops["XAS"]):
                r = ref.apply_mask(tin, psi, restr)
                if not r:
                    continue
                s = space_for(r)
                y = s.vec(r)
                for iw, ww in enumerate(win):
                    sol = np.linalg.solve((ww + 1j * cfg["delta"] + e) * np.eye(len(y)) - s.h, y)
                    for b, tout in enumerate(ops["OUT"]):
                        r3 = ref.apply_mask(tout, dict(zip(s.states, sol)), restr)
                        if prune:
                            nn = sum(abs(q) ** 2 for q in r3.values())
                            r3 = {k: q for k, q in r3.items() if abs(q) ** 2 >= prune * max(1.0, 0)}
                            r3 = {k: q for k, q in r3.items() if abs(q) ** 2 >= prune * nn}
                        if not r3:
                            continue
                        s3 = space_for(r3)
                        v3 = s3.vec(r3)
                        got, d = _gs(s3, v3, z + e)
                        g[a, b, iw] += x * -got.imag
                        bound[a, b, iw] += x * d / 3
                        dx = 1e-5 * np.linalg.norm(y) / cfg["delta"]
                        bound[a, b, iw] += x * (2 * np.linalg.norm(v3) * dx) / cfg["deltaRIXS"]
        return g, bound

    both = []
    for prune in (0.0, 1e-7):
        psis = states(prune)
        parts = {"PS": [spectrum(ops["PS"], -1, w, cfg["delta"], psis), spectrum(ops["IPS"], 1, w, cfg["delta"], psis)],
                 "XPS": [spectrum(ops["XPS"], -1, w, cfg["delta"], psis)],
                 "NIXS": [spectrum(ops["NIXS"], 1, wl, cfg["deltaNIXS"], psis)],
                 "XAS": [spectrum(ops["XAS"], 1, w, cfg["delta"], psis)]}
        o = {k: sum(x[0] for x in v) for k, v in parts.items()}
        o["RIXS"], bound = rixs(psis)
        both.append(o)
    for k in both[0]:
        scale = max(1e-3, np.abs(both[0][k]).max())
        res["out"][k] = both[1][k]
        # spread caused by dropping product states below the documented weight, times a margin
        res["tol"][k] = 3e-3 * scale + 5 * np.abs(both[0][k] - both[1][k]).max() + sum(x[1] for x in parts.get(k, ()))
    res["tol"]["RIXS"] = res["tol"]["RIXS"] + 3 * bound
    _ref_cache[key] = res
    return res


def check_exact(out, cfg, what):
    rf = reference(cfg)
    h5 = out["spectra.h5"]
    if h5["E"].shape != rf["es"].shape or not np.abs(h5["E"] - rf["es"]).max() <= 1e-6:
        raise Violation("wrong-energies", f"{what}: energies {h5['E']}, exact {rf['es']}")
    for k, want in rf["out"].items():
        got = h5[k + "thermal"]
        if got.shape != want.shape:
            raise Violation("wrong-spectrum", f"{what}: {k} has shape {got.shape}, expected {want.shape}")
        d = np.abs(got - want) - rf["tol"][k]
        if not np.all(d <= 0):
            i = np.unravel_index(int(np.argmax(d)), d.shape)
            raise Violation("wrong-spectrum", f"{what}: {k}{tuple(int(x) for x in i)} is {got[i]:.6g}, exact {want[i]:.6g}")


_npsi_cache = {}


def safe_npsi(cfg):
    """A number of states near the requested one that does not cut through a degenerate level (None: there is none)."""
    key = cfg_key(cfg)
    if key not in _npsi_cache:
        es = np.linalg.eigvalsh(ref.Space(hamiltonian(cfg), basis(cfg), None, grow=False).h)
        ok = [n for n in range(1, len(es) - 1) if es[n] - es[n - 1] > 1e-5]
        cut = cfg["energy_cut"] * K_B * cfg["T"]
        ok = [n for n in ok if np.all(np.abs(es[:n] - es[0] - cut) > 1e-6)]
        _npsi_cache[key] = min(ok, key=lambda n: (abs(n - cfg["nPsiMax"]), n)) if ok and ok[0] <= 12 else None
    return _npsi_cache[key]


_base_cache = {}


def settle(cfg):
    """The configuration with a well-defined number of states, or None."""
    n = safe_npsi(cfg)
    return None if n is None else dict(cfg, nPsiMax=n)


def old_files(cfg):
    """Bytes of the output files of an undisturbed run on one rank."""
    baseline(cfg)
    return _base_cache[(cfg_key(cfg), None)][2]["bytes"]


def baseline(cfg, npsi=None):
    """Outputs and files of an undisturbed run on one rank (memoised per process)."""
    key = (cfg_key(cfg), npsi)
    if key not in _base_cache:
        d = job.scratch_dir("base")
        try:
            write_inputs(cfg, d)
            o = job.run_script(1, {"seed": 0, "hash_salts": False, "mesh": MESH, "policy": "roundrobin",
                                   "count_points": True}, MODULE[cfg["kind"]],
                               argv(cfg, npsi), d)
            info = {"steps": o.sim.steps, "io": o.sim.fs.io_count, "sizes": {f: os.path.getsize(os.path.join(d, f)) for f in FILES
                                                                            if os.path.exists(os.path.join(d, f))},
                    "mpi": [c.counters.get("mpi", 0) for c in o.sim.ranks], "counts": {k: v for k, v in o.sim.ranks[0].counters.items() if k.split(":")[0] in ("solver", "alloc")},
                    "prints": [c.counters.get("print", 0) for c in o.sim.ranks]}
            info["points"] = dict(o.sim.ranks[0].points)
            info["bytes"] = {}
            for f in info["sizes"]:
                with open(os.path.join(d, f), "rb") as h:
                    info["bytes"][f] = h.read()
            _base_cache[key] = (o.describe() if o.bad else None, dict(read_outputs(d), cfg=cfg), info)
        finally:
            job.cleanup(d)
    bad, out, _info = _base_cache[key]
    if bad:
        raise Violation("clean-run-fails", f"a run without faults on one rank fails: {bad}")
    check_complete(out, "undisturbed run on one rank")
    return out


def base_info(cfg, npsi=None):
    """Sizes of the files and counts of operations of the undisturbed run."""
    baseline(cfg, npsi)
    return _base_cache[(cfg_key(cfg), npsi)][2]


def shrink_cfg(case):
    import copy

    cfg = case["cfg"]
    if cfg["kind"] == "pickle" and cfg["size"][1] == 0:
        if cfg["size"] != [9, 0, 0, 0, 0, 0]:
            c = copy.deepcopy(case)
            c["cfg"]["size"] = [9, 0, 0, 0, 0, 0]
            yield c
    for k in ("Fpp", "pbath"):
        if k in cfg:
            c = copy.deepcopy(case)
            del c["cfg"][k]
            if k == "pbath":
                c["cfg"]["h0"] = [t for t in cfg["h0"] if not any(len(o) == 2 and o[0] == 1 for o, _ in t[0])]
            yield c
    if cfg["nPsiMax"] > 1:
        c = copy.deepcopy(case)
        c["cfg"]["nPsiMax"] = 1
        yield c
