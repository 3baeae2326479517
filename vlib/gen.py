"""Seeded generators of hostile inputs (independent of thewalrus.random)."""
import numpy as np


def haar(rng, n):
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    if n == 0:
        return z
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def orth(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q * np.sign(np.diag(r))


SYM_KINDS = (
    "real", "complex", "int", "ones", "zero", "diagonal", "sparse", "banded", "lowrank", "zerorow", "pure_imag",
    "negative", "binary", "block", "bigdiag", "repeated_rows", "hankel", "near_real", "near_diagonal", "mixed_scale",
    "near_equal",
)


def sym(rng, n, kind=None, scale=1.0):
    """A symmetric n x n matrix of the given kind."""
    if kind is None:
        kind = SYM_KINDS[rng.integers(len(SYM_KINDS))]
    r = rng.normal(size=(n, n)) * scale
    r = (r + r.T) / 2
    c = rng.normal(size=(n, n)) * scale
    c = (c + c.T) / 2
    if kind == "real":
        return r
    if kind == "complex":
        return r + 1j * c
    if kind == "int":
        z = rng.integers(-3, 4, size=(n, n))
        return np.tril(z) + np.tril(z, -1).T
    if kind == "ones":
        return np.ones((n, n))
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "diagonal":
        return np.diag(rng.normal(size=n))
    if kind == "sparse":
        m = rng.random((n, n)) < min(0.9, 2.5 / max(n, 1))
        m = np.triu(m) | np.triu(m, 1).T
        return (r + 1j * c) * m
    if kind == "banded":
        w = int(rng.integers(0, max(n, 1)))
        i = np.arange(n)
        return (r + 1j * c) * (np.abs(i[:, None] - i[None]) <= w)
    if kind == "lowrank":
        k = int(rng.integers(1, 4))
        g = rng.normal(size=(n, k)) + 1j * rng.normal(size=(n, k))
        return g @ g.T
    if kind == "zerorow":
        a = r + 1j * c
        if n:
            k = rng.integers(n)
            a[k, :] = 0
            a[:, k] = 0
        return a
    if kind == "pure_imag":
        return 1j * c
    if kind == "negative":
        return -np.abs(r)
    if kind == "binary":
        z = (rng.random((n, n)) < 0.6).astype(int)
        return np.triu(z) | np.triu(z, 1).T
    if kind == "block":
        a = (r + 1j * c).copy()
        k = n // 2
        a[:k, k:] = 0
        a[k:, :k] = 0
        return a
    if kind == "bigdiag":
        return r + np.diag(5.0 * rng.normal(size=n))
    if kind == "repeated_rows":
        if n == 0:
            return r
        ix = rng.integers(0, max(1, n // 2 + 1), size=n)
        return (r + 1j * c)[np.ix_(ix, ix)]
    if kind == "hankel":
        v = rng.normal(size=2 * n)
        i = np.arange(n)
        return v[i[:, None] + i[None]] if n else r
    if kind == "near_real":
        return r + 1j * c * 10.0 ** rng.uniform(-7, -3)
    if kind == "near_diagonal":
        return np.diag(np.diag(r + 1j * c)) + (r + 1j * c) * 10.0 ** rng.uniform(-5.5, -2)
    if kind == "mixed_scale":
        d = 10.0 ** rng.uniform(-1.5, 0.5, size=n)
        return (r + 1j * c) * d[:, None] * d[None]
    if kind == "near_equal":
        return scale * (1 + 10.0 ** rng.uniform(-6, -2) * r)
    raise ValueError(kind)


def layout(rng, a):
    """Same values, different memory layout (Fortran, strided view, read-only, negative strides)."""
    k = rng.integers(5)
    a = np.asarray(a)
    if k == 0:
        return np.ascontiguousarray(a)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2 and a.ndim == 2:
        big = np.zeros((2 * a.shape[0] + 1, 2 * a.shape[1] + 1), dtype=a.dtype)
        v = big[: 2 * a.shape[0] : 2, : 2 * a.shape[1] : 2]
        v[...] = a
        return v
    if k == 3:
        b = np.array(a[::-1], copy=True)
        return b[::-1]
    return np.array(a, copy=True)


# ---------------------------------------------------------------- gaussian states
def int_state(rng, n, pure=False):
    """Means and covariance (hbar=2) with integer entries, of an integer type."""
    S = np.eye(2 * n, dtype=np.int64)
    for _ in range(int(rng.integers(1, 4))):
        B = np.triu((rng.random((n, n)) < 0.5) * rng.integers(-1, 2, size=(n, n)))
        B = B + np.triu(B, 1).T
        G = np.eye(2 * n, dtype=np.int64)
        t = int(rng.integers(3))
        if t == 0:
            G[n:, :n] = B
        elif t == 1:
            G[:n, n:] = B
        else:
            i, j = (int(x) for x in rng.integers(n, size=2))
            if i == j:  # a quarter turn of mode i
                G[i, i] = G[n + i, n + i] = 0
                G[i, n + i], G[n + i, i] = -1, 1
            else:
                G[i, j], G[n + j, n + i] = 1, -1
        S = G @ S
    nu = np.ones(n, np.int64) if pure else rng.choice([1, 3, 2], size=n)
    return rng.integers(-2, 3, size=2 * n), S @ np.diag(np.tile(nu, 2)) @ S.T


def passive_symplectic(U):
    return np.block([[U.real, -U.imag], [U.imag, U.real]])


def symplectic(rng, n, rmax=0.8, kind="generic"):
    """O1 Z O2 with random passive O's."""
    r = rng.uniform(-rmax, rmax, size=n)
    if kind == "degenerate" and n:
        r[:] = r[0]
    if kind == "partial" and n:
        r[rng.random(n) < 0.5] = 0
    O1 = passive_symplectic(haar(rng, n)) if kind != "diagonal" else np.eye(2 * n)
    O2 = passive_symplectic(haar(rng, n)) if kind != "diagonal" else np.eye(2 * n)
    Z = np.diag(np.concatenate([np.exp(-r), np.exp(r)]))
    return O1 @ Z @ O2


STATE_KINDS = ("pure", "mixed", "thermal", "lossy", "classical", "vacuum", "product", "partial", "tms", "diagonal",
               "near_pure", "uneven", "correlated_noise")


_deck = []


def state(rng, n, hbar=2.0, kind=None, disp=None, rmax=0.7, nmax=0.7, dmax=0.8):
    """(mu, cov) in xxpp ordering, units of hbar."""
    if kind is None:
        kind = STATE_KINDS[rng.integers(len(STATE_KINDS))]
    I = np.eye(2 * n)
    th = np.diag(np.tile(1 + 2 * rng.uniform(0.05, nmax, size=n), 2))
    if kind == "pure":
        S = symplectic(rng, n, rmax)
        V = S @ S.T
    elif kind == "mixed":
        S = symplectic(rng, n, rmax)
        V = S @ th @ S.T
    elif kind == "thermal":
        V = th
    elif kind == "lossy":
        S = symplectic(rng, n, rmax)
        eta = rng.uniform(0.2, 0.95)
        V = eta * S @ S.T + (1 - eta) * I
    elif kind == "classical":
        G = rng.normal(size=(2 * n, 2 * n)) * 0.4
        V = I + G @ G.T
    elif kind == "vacuum":
        V = I.copy()
    elif kind == "product":
        r = rng.uniform(-rmax, rmax, size=n)
        ph = rng.uniform(0, 2 * np.pi, size=n)
        S = passive_symplectic(np.diag(np.exp(1j * ph))) @ np.diag(np.concatenate([np.exp(-r), np.exp(r)]))
        V = S @ S.T
    elif kind == "partial":
        S = symplectic(rng, n, rmax, "partial")
        V = S @ S.T
    elif kind == "diagonal":
        r = rng.uniform(-rmax, rmax, size=n)
        V = np.diag(np.concatenate([np.exp(-2 * r), np.exp(2 * r)]))
    elif kind == "near_pure":
        S = symplectic(rng, n, rmax)
        V = (1 + 2 * 10.0 ** rng.uniform(-3, -1.5)) * S @ S.T
    elif kind == "uneven":
        r = rmax * 10.0 ** rng.uniform(-3, 0, size=n)
        O1 = passive_symplectic(haar(rng, n)) if n > 1 and rng.integers(2) else np.eye(2 * n)
        V = O1 @ np.diag(np.concatenate([np.exp(-2 * r), np.exp(2 * r)])) @ O1.T
    elif kind == "correlated_noise":
        S = symplectic(rng, n, rmax)
        g = rng.normal(size=2 * n) * 0.4
        V = S @ S.T + np.outer(g, g)
    elif kind == "tms":
        V = I.copy()
        for k in range(0, n - 1, 2):
            r = rng.uniform(0.1, rmax)
            c, s = np.cosh(2 * r), np.sinh(2 * r)
            for off, sg in ((0, 1), (n, -1)):
                V[k + off, k + off] = V[k + 1 + off, k + 1 + off] = c
                V[k + off, k + 1 + off] = V[k + 1 + off, k + off] = sg * s
    else:
        raise ValueError(kind)
    V = (V + V.T) / 2 * hbar / 2
    if disp is None:
        disp = rng.random() < 0.6
    al = (rng.normal(size=n) + 1j * rng.normal(size=n)) * dmax / 1.5 if disp else np.zeros(n)
    if disp:
        if not _deck:  # every variant turns up equally often
            _deck.extend(int(x) for x in rng.permutation(9))
        u = _deck.pop()
        if u == 0:  # some modes undisplaced
            al = al * (rng.random(n) < 0.5)
        elif u == 1:  # some modes hardly displaced
            al = al * 10.0 ** -rng.uniform(0, 4, size=n)
        elif u == 2:  # along one quadrature
            al = al.real + 0j
        elif u == 3:
            al = 1j * al.imag
    mu = np.concatenate([al.real, al.imag]) * np.sqrt(2 * hbar)
    return mu, V


def hbar_of(rng):
    return float(rng.choice([2.0, 1.0, 0.5, 1.7, 2.0, 3.1]))


def partition(rng, total, parts):
    """Random composition of total into parts >= 0."""
    c = np.zeros(parts, dtype=int)
    for k in rng.integers(0, parts, size=total):
        c[k] += 1
    return c


def join(parts, order):
    """Product of Gaussian states (mu, cov) whose modes are listed in another order: position p holds mode order[p]."""
    sizes = [len(m) // 2 for m, _ in parts]
    n = sum(sizes)
    mu, cov = np.zeros(2 * n), np.zeros((2 * n, 2 * n))
    pos = np.empty(n, int)
    pos[np.asarray(order)] = np.arange(n)
    i = 0
    for (m, c), k in zip(parts, sizes):
        ix = np.concatenate([pos[i : i + k], pos[i : i + k] + n])
        mu[ix] = m
        cov[np.ix_(ix, ix)] = c
        i += k
    return mu, cov


def sizes(rng, n, big):
    """Random group sizes between 1 and big that add to n."""
    out = []
    while n:
        out.append(int(min(n, rng.integers(1, big + 1))))
        n -= out[-1]
    return out
