"""What the plot programs draw, judged by the data in the result files."""

import itertools
import re

import numpy as np

from sim.driver import Violation

MAPS = ("imshow", "pcolormesh", "pcolor", "contourf")
LINES = ("plot", "semilogy", "errorbar", "scatter", "step")
CLS = "plot-shows-other-data"


def arrays(plots, *what):
    return [p for p in plots if p[0].rsplit(".", 1)[-1] in what]


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-7, equal_nan=True)


def shown(plot, x, y, z):
    """Whether a drawn map shows the values z at the energies x, y, to within half a pixel."""
    name, args, kw = plot
    if name.rsplit(".", 1)[-1] == "imshow":
        img, ext = np.asarray(args[0], dtype=float), kw.get("extent")
        if ext is None or img.ndim != 2:
            return False
        left, right, bottom, top = (float(v) for v in ext)
        if kw.get("origin", "upper") == "upper":
            img = img[::-1]
        rows, cols = img.shape
        px = left + (np.arange(cols) + 0.5) * (right - left) / cols
        py = bottom + (np.arange(rows) + 0.5) * (top - bottom) / rows
    else:
        if len(args) < 3:
            return False
        px, py, img = (np.asarray(a, dtype=float) for a in args[:3])
        px = px[0] if px.ndim == 2 else px
        py = py[:, 0] if py.ndim == 2 else py
        if img.ndim == 2 and len(px) == img.shape[1] + 1:
            px, py = (px[1:] + px[:-1]) / 2, (py[1:] + py[:-1]) / 2
    if not same(img, z) or px.shape != x.shape or py.shape != y.shape or min(len(x), len(y)) < 2:
        return False
    return bool(np.abs(px - x).max() <= 0.51 * abs(x[1] - x[0]) and np.abs(py - y).max() <= 0.51 * abs(y[1] - y[0]))


def visible(z):
    """The programs leave out intensities below 1e-6."""
    return np.where(z < 1e-6, np.nan, z)


def lines(plots):
    """(x, y, label) of the curves with numbers for both coordinates."""
    out = []
    for _name, args, kw in arrays(plots, *LINES):
        if len(args) > 1 and all(isinstance(a, np.ndarray) and a.ndim == 1 for a in args[:2]) and len(args[0]) == len(args[1]):
            out.append((args[0], args[1], str(kw.get("label", ""))))
    return out


def rixs_program(plots, rx):
    """plotRIXS on a RIXS.bin with the (complete) rows rx: it draws this map, and no other."""
    img = arrays(plots, *MAPS)
    if not img or not all(shown(p, rx[0, 1:], rx[1:, 0], visible(rx[1:, 1:])) for p in img):
        raise Violation(CLS, "the RIXS plot program does not draw the map of RIXS.bin")


def _curves(h5):
    """Per mesh: the curves one can draw from the stored thermal spectra (up to an offset and a factor)."""
    out = {"w": [], "wLoss": [], "wIn": []}
    for key, mesh in (("PSthermal", "w"), ("XPSthermal", "w"), ("XASthermal", "w"), ("NIXSthermal", "wLoss"), ("RIXSthermal", "wLoss")):
        if key in h5:
            a = h5[key]
            for pick in itertools.product((0, 1), repeat=a.ndim - 1):  # 1: summed over
                b = a.sum(axis=tuple(i for i, p in enumerate(pick) if p)) if any(pick) else a
                out[mesh] += list(b.reshape(-1, a.shape[-1]))
    if "RIXSthermal" in h5:
        m = h5["RIXSthermal"].sum(axis=(0, 1))
        out["wIn"] = list(np.cumsum(m, axis=1).T)
    return out


def _affine(y, c):
    """y = offset + factor * c."""
    if not np.all(np.isfinite(y)):
        return False
    a = np.vstack([np.ones(len(c)), c]).T
    fit = np.linalg.lstsq(a, y, rcond=None)[0]
    return bool(np.abs(a @ fit - y).max() <= 1e-5 * max(np.ptp(y), 1e-9 * max(1.0, np.abs(y).max())) + 1e-12)


def spectra_program(plots, h5):
    """plotSpectra on a file with (some of) the data sets: it draws what is there, and nothing else."""
    ln, img = lines(plots), arrays(plots, *MAPS)
    for k in ("PS", "XPS", "XAS"):
        if k + "thermal" in h5 and "w" in h5:
            if not any(same(x, h5["w"]) and same(y, h5[k + "thermal"].sum(axis=0)) for x, y, _l in ln):
                raise Violation(CLS, f"the plot program does not draw the {k} spectrum")
    for q in h5.get("NIXSthermal", ()) if "wLoss" in h5 else ():
        if not any(same(x, h5["wLoss"]) and same(y, q) for x, y, _l in ln):
            raise Violation(CLS, "the plot program does not draw a NIXS spectrum")
    if {"RIXSthermal", "wIn", "wLoss"} <= set(h5):
        m = h5["RIXSthermal"]
        parts = [m.sum(axis=(0, 1)).T] + [m[i, j].T for i in range(m.shape[0]) for j in range(m.shape[1])]
        for part in parts:
            if not any(shown(p, h5["wIn"], h5["wLoss"], visible(part)) for p in img):
                raise Violation(CLS, "the plot program does not draw a RIXS map")
        for p in img:
            if not any(shown(p, h5["wIn"], h5["wLoss"], visible(part)) for part in parts):
                raise Violation(CLS, "the plot program draws a map that is not in the file")
        total = m.sum(axis=(0, 1))
        for x, y, label in ln:
            e = re.search(r"=\s*(-?\d+(\.\d+)?)\s*$", label)
            if e and same(x, h5["wLoss"]):
                d = np.abs(h5["wIn"] - float(e.group(1)))
                near = [i for i in range(len(d)) if d[i] <= d.min() + 0.051]
                if not any(np.ptp(y - total[i]) <= 1e-6 * max(1.0, np.abs(y).max()) for i in near):
                    raise Violation(CLS, f"the curve labelled {label} is not the energy loss spectrum at that energy")
            if "FY" in label and same(x, h5["wIn"]) and len(x) > 1:
                mask = h5["wLoss"] < 0.2 if "quasi" in label else slice(None)
                want = (h5["wLoss"][1] - h5["wLoss"][0]) * total[:, mask].sum(axis=1) / (np.pi * m.shape[0])
                if not same(y, want):
                    raise Violation(CLS, f"the curve labelled {label} is not the fluorescence yield")
    elif img:
        raise Violation(CLS, "the plot program draws a map, the file holds none")
    curves = _curves(h5)
    for x, y, label in ln:
        for mesh, cs in curves.items():
            if mesh in h5 and same(x, h5[mesh]) and len(x) > 2:
                if not any(_affine(y, c) for c in cs):
                    raise Violation(CLS, f"the plot program draws a curve ({label}) that is not in the file")
                break
