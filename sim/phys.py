"""The physical problem, built from the textbook definitions without any code of the repository.

Orbital indices: 2p (spin down m=-1..1, spin up) = 0-5, 3d (spin down m=-2..2, spin up) = 6-15, then the
baths of the 2p orbitals, then those of the 3d orbitals.
Operators are dictionaries {((index, "c"|"a"), ...): value}; the rightmost factor acts first.
"""

import math

import numpy as np

DN, UP = 0, 1
# crystal-field parameters of the command line program when the file leaves them out (documented: Ni in NiO)
CF_DEFAULT = {"e_imp": -1.31796, "e_deltaO_imp": 0.60422, "e_val_eg": -4.4, "e_val_t2g": -6.5, "e_con_eg": 3, "e_con_t2g": 2,
              "v_val_eg": 1.883, "v_val_t2g": 1.395, "v_con_eg": 0.6, "v_con_t2g": 0.4}


def orb(l, s, m):
    return {1: 0, 2: 6}[l] + s * (2 * l + 1) + m + l


def bath(b, l=2, n_p=0):
    """n_p: number of baths of the 2p orbitals."""
    return 16 + b + (n_p if l == 2 else 0)


def wigner3j(a, b, c, x, y, z):
    """Racah's formula."""
    if x + y + z or not abs(a - b) <= c <= a + b or abs(x) > a or abs(y) > b or abs(z) > c:
        return 0.0
    f = math.factorial
    t = 0.0
    for k in range(max(0, b - c - x, a - c + y), min(a + b - c, a - x, b + y) + 1):
        t += (-1) ** k / (f(k) * f(c - b + k + x) * f(c - a + k - y) * f(a + b - c - k) * f(a - k - x) * f(b - k + y))
    d = f(a + b - c) * f(a - b + c) * f(-a + b + c) / f(a + b + c + 1)
    n = f(a + x) * f(a - x) * f(b + y) * f(b - y) * f(c + z) * f(c - z)
    return (-1) ** (a - b - z) * math.sqrt(d * n) * t


def ck(k, l, m, lp, mp):
    """<l m| C^k_{m-mp} |lp mp>."""
    return (-1) ** m * math.sqrt((2 * l + 1) * (2 * lp + 1)) * wigner3j(l, k, lp, 0, 0, 0) * wigner3j(l, k, lp, -m, m - mp, mp)


class Op(dict):
    def put(self, value, *factors):
        if value:
            self[factors] = self.get(factors, 0) + value

    def hop(self, value, i, j):
        self.put(value, (i, "c"), (j, "a"))


def coulomb(op, shells, R):
    """1/2 sum_k R_k sum <..>  c+_{1 s} c+_{2 t} c_{3 t} c_{4 s}"""
    l1, l2, l3, l4 = shells
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for m3 in range(-l3, l3 + 1):
                m4 = m1 + m2 - m3
                if abs(m4) > l4:
                    continue
                u = sum(r * ck(k, l1, m1, l4, m4) * ck(k, l3, m3, l2, m2) for k, r in enumerate(R) if r)
                for s in (DN, UP):
                    for t in (DN, UP):
                        a, b, c, d = orb(l1, s, m1), orb(l2, t, m2), orb(l3, t, m3), orb(l4, s, m4)
                        if a != b and c != d:
                            op.put(u / 2, (a, "c"), (b, "c"), (c, "a"), (d, "a"))


def cubic():
    """Columns: eg (3z2-r2, x2-y2), t2g (yz, xz, xy) in spherical harmonics m=-2..2."""
    r = 1 / math.sqrt(2)
    u = np.zeros((5, 5), dtype=complex)
    u[:, 0] = [0, 0, 1, 0, 0]
    u[:, 1] = [r, 0, 0, 0, r]
    u[:, 2] = [0, -1j * r, 0, -1j * r, 0]
    u[:, 3] = [0, r, 0, -r, 0]
    u[:, 4] = [1j * r, 0, 0, 0, -1j * r]
    return u


def hamiltonian(cfg, h0):
    """h0: dict {(((l,s,m)|(l,b), kind), ...): value} or the crystal-field parameters."""
    n0, nb, nv, tol, dval, dcon = cfg["size"]
    Fdd, Fpd, Gpd = cfg["Fdd"], cfg["Fpd"], cfg["Gpd"]
    n_p = (cfg.get("pbath") or [0])[0]
    h = Op()
    coulomb(h, (2, 2, 2, 2), Fdd)
    coulomb(h, (1, 1, 1, 1), cfg.get("Fpp") or [0, 0, 0])
    for sh in ((1, 2, 2, 1), (2, 1, 1, 2)):
        coulomb(h, sh, Fpd)
    for sh in ((1, 2, 1, 2), (2, 1, 2, 1)):
        coulomb(h, sh, Gpd)
    for l, xi in ((1, cfg["xi_2p"]), (2, cfg["xi_3d"])):
        for m in range(-l, l + 1):
            for s, sz in ((DN, -0.5), (UP, 0.5)):
                h.hop(xi * m * sz, orb(l, s, m), orb(l, s, m))
            if m < l:
                v = xi / 2 * math.sqrt(l * (l + 1) - m * (m + 1))
                h.hop(v, orb(l, UP, m), orb(l, DN, m + 1))
                h.hop(v, orb(l, DN, m + 1), orb(l, UP, m))
    hx, hy, hz = cfg["hField"]
    for m in range(-2, 3):
        u, d = orb(2, UP, m), orb(2, DN, m)
        h.hop((hx - 1j * hy) / 2, u, d)
        h.hop((hx + 1j * hy) / 2, d, u)
        h.hop(hz / 2, u, u)
        h.hop(-hz / 2, d, d)
    udd = Fdd[0] - 14 / 441 * (Fdd[2] + Fdd[4])
    upd = Fpd[0] - Gpd[1] / 15 - 3 / 70 * Gpd[3]
    for l, e in ((2, udd * n0 + 6 * upd - cfg["c"]), (1, upd * (n0 + 1) - cfg["c"])):
        for s in (DN, UP):
            for m in range(-l, l + 1):
                h.hop(-e, orb(l, s, m), orb(l, s, m))
    if cfg["kind"] == "CF":
        p = dict(CF_DEFAULT, **h0)
        u = cubic()

        def rot(eg, t2g):
            x = u @ np.diag([eg, eg, t2g, t2g, t2g]) @ u.conj().T
            return np.where(np.abs(x) < 1e-14, 0, x)

        imp = rot(p["e_imp"] + 0.6 * p["e_deltaO_imp"], p["e_imp"] - 0.4 * p["e_deltaO_imp"])
        sets = [(0, "val")] + ([(10, "con")] if nb - nv == 10 else [])
        for s in (DN, UP):
            for i in range(5):
                for j in range(5):
                    h.hop(imp[i, j], orb(2, s, i - 2), orb(2, s, j - 2))
                    for off, name in sets:
                        e, v = rot(p[f"e_{name}_eg"], p[f"e_{name}_t2g"]), rot(p[f"v_{name}_eg"], p[f"v_{name}_t2g"])
                        bi, bj = bath(off + 5 * s + i, 2, n_p), bath(off + 5 * s + j, 2, n_p)
                        h.hop(e[i, j], bi, bj)
                        h.hop(v[i, j], bi, orb(2, s, j - 2))
                        h.hop(np.conj(v[i, j]), orb(2, s, j - 2), bi)
    else:
        for process, v in h0.items():
            h.put(v, *((orb(*o) if len(o) == 3 else bath(o[1], o[0], n_p), k) for o, k in process))
    return {k: complex(v) for k, v in h.items() if v}


def photoemission(l, kind):
    return [{((orb(l, s, m), kind),): 1.0} for s in (DN, UP) for m in range(-l, l + 1)]


def adjoint(op):
    return {tuple((i, "c" if k == "a" else "a") for i, k in reversed(p)): complex(v).conjugate() for p, v in op.items()}


def dipole(n):
    """2p -> 3d: spherical components of the polarisation vector times C^1."""
    sph = {-1: (n[0] + 1j * n[1]) / math.sqrt(2), 0: n[2], 1: (-n[0] + 1j * n[1]) / math.sqrt(2)}
    op = Op()
    for s in (DN, UP):
        for m in range(-2, 3):
            for mp in range(-1, 2):
                if abs(m - mp) <= 1:
                    op.hop(ck(1, 2, m, 1, mp) * sph[m - mp], orb(2, s, m), orb(1, s, mp))
    return dict(op)


def sph_bessel(k, x):
    """j_2 and j_4 from their closed forms (series near 0)."""
    x = np.asarray(x, dtype=float)
    out = np.empty_like(x)
    small = x < 0.5
    f = 1.0
    for i in range(1, 2 * k + 2, 2):
        f *= i
    z = x[small]
    t = z**k / f
    s = np.zeros_like(z)
    for n in range(12):
        s += t
        t = -t * z**2 / 2 / ((n + 1) * (2 * k + 2 * n + 3))
    out[small] = s
    z = x[~small]
    if k == 2:
        out[~small] = (3 / z**3 - 1 / z) * np.sin(z) - 3 / z**2 * np.cos(z)
    else:
        out[~small] = (105 / z**5 - 45 / z**3 + 1 / z) * np.sin(z) + (-105 / z**4 + 10 / z**2) * np.cos(z)
    return out


def ylm(l, m, theta, phi):
    """Spherical harmonic with the Condon-Shortley phase, from Rodrigues' formula."""
    a = abs(m)
    p = np.polynomial.Polynomial([-1, 0, 1]) ** l
    p = p.deriv(l + a) / (2**l * math.factorial(l))
    leg = (-1) ** a * math.sin(theta) ** a * p(math.cos(theta))
    y = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a)) * leg * np.exp(1j * a * phi)
    return y if m >= 0 else (-1) ** a * np.conj(y)


def nixs(q, r, ri, rj):
    """3d -> 3d part of exp(iqr) without the monopole, normalised as in PRL 99, 257401."""
    qn = float(np.linalg.norm(q))
    theta, phi = math.acos(q[2] / qn), math.atan2(q[1], q[0])
    op = Op()
    for k in (2, 4):
        f = ri * sph_bessel(k, qn * r) * rj * r**2
        integral = float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(r)))
        for mi in range(-2, 3):
            for mj in range(-2, 3):
                m = mi - mj
                if abs(m) <= k:
                    v = integral * 1j**k * math.sqrt(2 * k + 1) * np.conj(ylm(k, m, theta, phi)) * ck(k, 2, mi, 2, mj)
                    for s in (DN, UP):
                        op.hop(v, orb(2, s, mi), orb(2, s, mj))
    return dict(op)


def operators(cfg, h0, r, ri):
    eps = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    q = [x * np.ones(3) / math.sqrt(3) for x in (2, 7)]
    tin = [dipole(e) for e in eps]
    return {"H": hamiltonian(cfg, h0), "IPS": photoemission(2, "c"), "PS": photoemission(2, "a"), "XPS": photoemission(1, "a"),
            "NIXS": [nixs(x, r, ri, ri) for x in q], "XAS": tin, "OUT": [adjoint(t) for t in tin]}
