"""Reference model: second quantisation and linear response on dense matrices.

Written from the definitions (occupation sets as Python tuples, dense numpy
algebra), shares no code with the repository.  Product states are named by the
sorted tuple of occupied orbitals.
"""

import itertools

import numpy as np


def to_bytes(occ, n):
    """The repository's documented exchange format: orbital i is bit i from the left, zero padded to whole bytes."""
    bits = "".join("1" if i in occ else "0" for i in range(n))
    bits += "0" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def from_bytes(b, n):
    bits = "".join(format(x, "08b") for x in b)
    return tuple(i for i in range(n) if bits[i] == "1")


def apply_process(process, occ):
    """Apply c/a operators right to left; sign counts occupied orbitals to the left."""
    occ = list(occ)
    sign = 1
    for i, kind in reversed(process):
        below = sum(1 for o in occ if o < i)
        if kind == "c":
            if i in occ:
                return None
            occ.append(i)
        else:
            if i not in occ:
                return None
            occ.remove(i)
        if below % 2:
            sign = -sign
    return tuple(sorted(occ)), sign


def allowed(occ, restrictions):
    if not restrictions:
        return True
    s = set(occ)
    return all(lo <= len(s & set(orbs)) <= hi for orbs, (lo, hi) in restrictions.items())


def apply_op(op, psi, restrictions=None, cut=0.0):
    out = {}
    for occ, amp in psi.items():
        for process, h in op.items():
            r = apply_process(process, occ)
            if r is not None and allowed(r[0], restrictions):
                out[r[0]] = out.get(r[0], 0) + amp * h * r[1]
    return {k: v for k, v in out.items() if abs(v) > cut}


def closure(op, start, restrictions=None, cut=1e-6, row=None):
    """Everything reachable from start through op inside the restrictions."""
    seen = list(dict.fromkeys(start))
    known = set(seen)
    rows = {} if row is None else row
    i = 0
    while i < len(seen):
        if seen[i] not in rows:
            rows[seen[i]] = apply_op(op, {seen[i]: 1}, restrictions, cut)
        for k in rows[seen[i]]:
            if k not in known:
                known.add(k)
                seen.append(k)
        i += 1
    return seen


def matrix(op, basis, cut=1e-6):
    idx = {b: i for i, b in enumerate(basis)}
    h = np.zeros((len(basis), len(basis)), dtype=complex)
    for j, b in enumerate(basis):
        for k, v in apply_op(op, {b: 1}, None, cut).items():
            if k in idx:
                h[idx[k], j] = v
    return h


def green(h, v, z):
    """<v|(z-h)^-1|v> for every complex z, h Hermitian."""
    e, u = np.linalg.eigh((h + h.conj().T) / 2)
    w = np.abs(u.conj().T @ v) ** 2
    return np.array([np.sum(w / (x - e)) for x in np.atleast_1d(z)])


def green_krylov(h, v, z, k):
    """The same in the k-dimensional Krylov space of (h, v), orthonormalised twice per step."""
    nv = np.linalg.norm(v)
    q = [v / nv]
    a, b = [], []
    for j in range(k):
        w = h @ q[j]
        a.append(np.vdot(q[j], w).real)
        for _ in range(2):
            for x in q:
                w = w - x * np.vdot(x, w)
        nb = np.linalg.norm(w)
        if j == k - 1 or nb < 1e-9:
            break
        b.append(nb)
        q.append(w / nb)
    t = np.diag(a) + np.diag(b, 1) + np.diag(b, -1) if b else np.diag(a)
    e0 = np.zeros(len(a), dtype=complex)
    e0[0] = nv
    return green(t.astype(complex), e0, z), len(a)


def vec(psi, basis):
    idx = {b: i for i, b in enumerate(basis)}
    v = np.zeros(len(basis), dtype=complex)
    for k, a in psi.items():
        v[idx[k]] = a
    return v


def spectrum(hop, top, psi, e, w, delta, restrictions=None, krylov=None):
    """<psi|T^+ (w+i delta+e-H)^-1 T|psi> in the space reachable inside the restrictions; its dimension; the
    rounding error a plain Lanczos run makes on it."""
    psi_r = apply_op(top, psi, restrictions)
    psi_r = {k: v for k, v in psi_r.items() if abs(v) > 1e-12}
    if not psi_r:
        return np.zeros(len(w), dtype=complex), 0, 0.0
    basis = closure(hop, list(psi_r), restrictions)
    h = matrix(hop, basis)
    z = np.asarray(w) + 1j * delta + e
    v = vec(psi_r, basis)
    if krylov is not None and krylov < len(basis):
        g = green_krylov(h, v, z, krylov)[0]
    else:
        g = green(h, v, z)
    return g, len(basis), lanczos_spread(h, v, z, krylov or len(basis), g, 3)


def rixs(hop, tin, tout, psi, e, win, wloss, d1, d2, restrictions=None, rtol=1e-5):
    """Kramers-Heisenberg map [win, wloss] for one polarisation pair and one state, with an error bound.

    The bound covers an iterative solver that stops at relative residual rtol, and the rounding of Lanczos.
    """
    out = np.zeros((len(win), len(wloss)), dtype=complex)
    tol = np.full(out.shape, 1e-9)
    psi1 = {k: v for k, v in apply_op(tin, psi, restrictions).items() if abs(v) > 1e-12}
    if not psi1:
        return out, tol, 0
    basis = closure(hop, list(psi1), restrictions)
    h = matrix(hop, basis)
    y = vec(psi1, basis)
    # columns of the out-going operator on the intermediate space
    cols = [apply_op(tout, {b: 1}, restrictions) for b in basis]
    reach = list(dict.fromkeys(k for c in cols for k in c))
    if not reach:
        return out, tol, len(basis)
    b3 = closure(hop, reach, restrictions)
    h3 = matrix(hop, b3)
    idx = {b: i for i, b in enumerate(b3)}
    t = np.zeros((len(b3), len(basis)), dtype=complex)
    for j, c in enumerate(cols):
        for k, v in c.items():
            t[idx[k], j] = v
    tn = np.linalg.norm(t, 2)
    z = np.asarray(wloss) + 1j * d2 + e
    for iw, w in enumerate(win):
        x = np.linalg.solve((w + 1j * d1 + e) * np.eye(len(basis)) - h, y)
        v3 = t @ x
        out[iw] = green(h3, v3, z)
        dx = tn * rtol * np.linalg.norm(y) / abs(d1)
        tol[iw] += (2 * np.linalg.norm(v3) * dx + dx * dx) / abs(d2) * 1.5
        if np.linalg.norm(v3) > 1e-9:
            tol[iw] += 30 * lanczos_spread(h3, v3, z, 150, out[iw], 2)
    return out, tol, len(basis)


def all_states(n, nel):
    return [tuple(c) for c in itertools.combinations(range(n), nel)]


def dagger(op):
    return {tuple((i, "c" if k == "a" else "a") for i, k in reversed(p)): np.conj(v) for p, v in op.items()}


def lanczos_spread(h, v, z, k, exact, trials=4):
    """How far rounding alone moves a plain three-term Lanczos run of size k away from `exact`.

    Three-term Lanczos loses orthogonality, so its result carries an error that depends on the input,
    not on the implementation.  Several runs with inputs perturbed by rounding-size noise measure it.
    """
    k = min(k, len(v))
    nv = np.linalg.norm(v)
    worst = 0.0
    rng = np.random.default_rng(12345)
    for t in range(trials):
        p = rng.permutation(len(v))
        hh = h[np.ix_(p, p)] * (1 + 2e-16 * t)
        q, old, b = v[p] / nv * (1 + 1e-16 * t), np.zeros(len(v), dtype=complex), 0.0
        al, be = [], []
        for j in range(k):
            w = hh @ q
            al.append(np.vdot(q, w).real)
            w = w - al[-1] * q - b * old
            b = np.linalg.norm(w)
            if j == k - 1 or b == 0:
                break
            be.append(b)
            old, q = q, w / b
        g = np.zeros(len(z), dtype=complex)
        for i in range(len(al) - 1, -1, -1):
            g = 1 / (z - al[i] - (be[i] ** 2 * g if i < len(al) - 1 else 0))
        worst = max(worst, float(np.max(np.abs(nv**2 * g - exact))))
    return worst


def krylov_dim(h, v):
    """Number of eigenvalues (of a Hermitian h) that v has weight on."""
    e, u = np.linalg.eigh(h)
    w = np.abs(u.conj().T @ v) ** 2
    e = e[w > 1e-20]
    return int(1 + np.sum(np.diff(e) > 1e-9)) if len(e) else 0


# ---- the same on integer bit masks, vectorised, for the whole-program runs ------------------


def to_mask(occ):
    m = 0
    for i in occ:
        m |= 1 << i
    return m


def mask_to_bytes(m, n):
    return to_bytes([i for i in range(n) if m >> i & 1], n)


def bytes_to_mask(b, n):
    return to_mask(from_bytes(b, n))


def _elements(op, states):
    """(column index, image state, amplitude) of every process on every state."""
    states = np.asarray(states, dtype=np.uint64)
    cols, imgs, vals = [], [], []
    allcol = np.arange(len(states))
    for process, amp in op.items():
        cur = states
        ok = np.ones(len(states), dtype=bool)
        sign = np.zeros(len(states), dtype=np.uint64)
        for i, kind in reversed(process):
            bit = np.uint64(1 << i)
            occ = (cur & bit) != 0
            ok = ok & (occ if kind == "a" else ~occ)
            sign = sign + np.bitwise_count(cur & np.uint64((1 << i) - 1))
            cur = cur ^ bit
        if ok.any():
            cols.append(allcol[ok])
            imgs.append(cur[ok])
            vals.append(amp * np.where(sign[ok] % 2 == 0, 1.0, -1.0))
    if not cols:
        return np.zeros(0, int), np.zeros(0, np.uint64), np.zeros(0, complex)
    return np.concatenate(cols), np.concatenate(imgs), np.concatenate(vals)


def _merge(cols, imgs, vals, restrictions, cut):
    """Sum amplitudes of equal (column, image), apply the occupation limits, drop negligible ones."""
    if len(cols) == 0:
        return cols, imgs, vals
    order = np.lexsort((imgs, cols))
    cols, imgs, vals = cols[order], imgs[order], vals[order]
    first = np.concatenate([[True], (cols[1:] != cols[:-1]) | (imgs[1:] != imgs[:-1])])
    idx = np.cumsum(first) - 1
    s = np.zeros(idx[-1] + 1, dtype=complex)
    np.add.at(s, idx, vals)
    cols, imgs, vals = cols[first], imgs[first], s
    ok = np.abs(vals) > cut
    for orbs, (lo, hi) in (restrictions or {}).items():
        cnt = np.bitwise_count(imgs & np.uint64(to_mask(orbs)))
        ok &= (cnt >= lo) & (cnt <= hi)
    return cols[ok], imgs[ok], vals[ok]


class Space:
    """States reachable from start through op within the restrictions, and op's matrix there.

    rows: images of single states under op within these restrictions, kept between spaces.
    """

    def __init__(self, op, start, restrictions=None, grow=True, cut=1e-6, rows=None):
        rows = {} if rows is None else rows
        states = [int(s) for s in start]
        self.index = {s: i for i, s in enumerate(states)}
        r_, c_, v_ = [], [], []
        done = 0
        while done < len(states):
            todo = [s for s in states[done:] if s not in rows]
            if todo:
                c, im, v = _merge(*_elements(op, todo), restrictions, cut)
                for s in todo:
                    rows[s] = []
                for cc, ii, vv in zip(c.tolist(), im.tolist(), v.tolist()):
                    rows[todo[cc]].append((ii, vv))
            end = len(states)
            for j in range(done, end):
                for ii, vv in rows[states[j]]:
                    if ii not in self.index:
                        if not grow:
                            continue
                        self.index[ii] = len(states)
                        states.append(ii)
                    r_.append(self.index[ii])
                    c_.append(j)
                    v_.append(vv)
            done = end
        self.states = states
        self.h = np.zeros((len(states), len(states)), dtype=complex)
        self.h[r_, c_] = v_

    def green(self, v, z):
        """<v|(z-h)^-1|v>; the eigensystem is computed once."""
        if not hasattr(self, "_eig"):
            self._eig = np.linalg.eigh((self.h + self.h.conj().T) / 2)
        e, u = self._eig
        w = np.abs(u.conj().T @ v) ** 2
        return (w / (np.asarray(z)[:, None] - e)).sum(axis=1)

    def vec(self, psi):
        v = np.zeros(len(self.states), dtype=complex)
        for s, a in psi.items():
            v[self.index[s]] = a
        return v


def apply_mask(op, psi, restrictions=None, cut=1e-12):
    st = list(psi)
    if not st:
        return {}
    amps = np.array([psi[s] for s in st])
    c, im, v = _elements(op, st)
    if len(c) == 0:
        return {}
    c, im, v = _merge(np.zeros(len(c), int), im, v * amps[c], restrictions, cut)
    return {int(i): x for i, x in zip(im, v)}
