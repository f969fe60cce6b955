"""Random small electron systems, described by plain JSON data so that a replay file is self-contained."""

from . import ref


def cnum(v):
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) else v


def op_from_json(items):
    """[[ [[i,'c'],[j,'a']], [re, im] ], ...] -> operator dict of the repository's format."""
    out = {}
    for process, v in items:
        v = cnum(v)
        if isinstance(v, complex) and v.imag == 0:
            v = v.real
        out[tuple((int(i), k) for i, k in process)] = v
    return out


def coeff(rng, real, fine=False):
    if fine and rng.random() < 0.2:
        # small but above the cut-off for matrix elements (1e-6); multiples of 2e-6, so that sums stay away from it too
        s = rng.choice([2e-6, 1e-5, 1e-4, 1e-3, 1e-2])
        x, y = (s * rng.choice([-8, -4, -2, 2, 4, 6]) for _ in range(2))
        return [round(x, 7), 0.0 if real else round(y, 7)]
    x = rng.choice([-1, 1]) * round(rng.uniform(0.1, 2.0), 3)
    y = 0.0 if real else rng.choice([-1, 1]) * round(rng.uniform(0.1, 2.0), 3)
    return [x, y]


def blocks(rng, n):
    """Split orbitals into blocks that the Hamiltonian never connects (makes several invariant subspaces)."""
    k = rng.choice([1, 1, 2, 3])
    lab = [rng.randrange(k) for _ in range(n)]
    return [[i for i in range(n) if lab[i] == b] for b in range(k)]


def hermitian_op(rng, n, real=False, density=0.5, interactions=True, diag=True, fine=False):
    items = {}

    def put(p, v):
        items[p] = v

    for blk in blocks(rng, n):
        for a in range(len(blk)):
            i = blk[a]
            if diag and rng.random() < 0.7:
                put(((i, "c"), (i, "a")), [round(rng.uniform(-3, 3), 3), 0.0])
            for b in range(a):
                j = blk[b]
                if rng.random() < density:
                    v = coeff(rng, real, fine)
                    put(((i, "c"), (j, "a")), v)
                    put(((j, "c"), (i, "a")), [v[0], -v[1]])
    if interactions and n >= 2:
        for _ in range(rng.randrange(0, n + 1)):
            i, j = rng.sample(range(n), 2)
            put(((i, "c"), (j, "c"), (j, "a"), (i, "a")), [round(rng.uniform(0.2, 4), 3), 0.0])
        if n >= 4:
            for _ in range(rng.randrange(0, n)):
                i, j, k, l = rng.sample(range(n), 4)
                v = coeff(rng, real, fine)
                p = ((i, "c"), (j, "c"), (k, "a"), (l, "a"))
                q = ((l, "c"), (k, "c"), (j, "a"), (i, "a"))
                if p not in items and q not in items:
                    put(p, v)
                    put(q, [v[0], -v[1]])
    return [[[list(x) for x in p], v] for p, v in items.items()]


def restrictions(rng, n, occ=None, p=0.5):
    """[[orbitals], lo, hi] list; every state in occ satisfies them."""
    out = []
    if rng.random() > p:
        return None
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(0, n + 1)
        orbs = sorted(rng.sample(range(n), k))
        if any(o[0] == orbs for o in out):
            continue
        counts = [len(set(o) & set(orbs)) for o in (occ or [()])]
        lo = max(0, min(counts) - rng.choice([0, 0, 1, 2]))
        hi = max(counts) + rng.choice([0, 1, 1, 2])
        out.append([orbs, lo, hi])
    return out


def restrictions_from_json(r):
    if r is None:
        return None
    return {frozenset(o): (lo, hi) for o, lo, hi in r}


def random_state(rng, n, nel):
    return tuple(sorted(rng.sample(range(n), nel)))


def transition_op(rng, n, kind, real=False, fine=False):
    """Particle-conserving ('x'), removing ('a') or adding ('c') operator."""
    items = {}
    if kind == "x":
        for _ in range(rng.randrange(1, 2 * n + 1)):
            i, j = rng.randrange(n), rng.randrange(n)
            items[((i, "c"), (j, "a"))] = coeff(rng, real, fine)
    else:
        for i in rng.sample(range(n), rng.randrange(1, n + 1)):
            items[((i, kind),)] = coeff(rng, real)
    return [[[list(x) for x in p], v] for p, v in items.items()]


def psi_from_json(items, n):
    return {ref.to_bytes(tuple(o), n): cnum(v) for o, v in items}


def psi_ref(items):
    return {tuple(o): cnum(v) for o, v in items}
