"""Independent reference computations (definitions, not the library's algorithms)."""
import itertools
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np


# ------------------------------------------------------------------ matchings
def lhaf_counts(A, D, reps, one=1):
    """Loop hafnian of A with row/col i repeated reps[i] times and loop weights D (None: no loops).

    Memoised recursion on the multiset of unmatched vertices.  Between two different copies of
    the same index the weight is A[i][i].  Works for python ints, Fractions, floats, complex.
    """
    n = len(reps)
    A = A.tolist() if isinstance(A, np.ndarray) else A
    if D is not None and isinstance(D, np.ndarray):
        D = D.tolist()
    memo = {}

    def rec(c):
        v = memo.get(c)
        if v is not None:
            return v
        i = 0
        while i < n and c[i] == 0:
            i += 1
        if i == n:
            return one
        lst = list(c)
        lst[i] -= 1
        tot = 0
        if D is not None:
            if D[i] != 0:
                tot = D[i] * rec(tuple(lst))
        row = A[i]
        for j in range(i, n):
            if lst[j] and row[j] != 0:
                m = lst[j]
                lst[j] -= 1
                tot = tot + row[j] * m * rec(tuple(lst))
                lst[j] += 1
        memo[c] = tot
        return tot

    import sys

    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 4 * int(sum(reps)) + 1000))
    try:
        return rec(tuple(int(r) for r in reps))
    finally:
        sys.setrecursionlimit(old)


def haf(A, loop=False, D=None):
    A = np.asarray(A)
    n = A.shape[0]
    if loop and D is None:
        D = np.diag(A).copy() if n else np.zeros(0)
    return lhaf_counts(A, D if loop else None, [1] * n)


def haf_scale(A, D, reps):
    """Sum of absolute values of the terms: the natural error scale."""
    A = np.abs(np.asarray(A, dtype=complex))
    D = None if D is None else np.abs(np.asarray(D, dtype=complex))
    return float(lhaf_counts(A, D, reps, one=1.0))


def lhaf_table(A, D, cut):
    """All loop hafnians of A reduced by multi-indices n < cut, as an array (complex).

    Filled by increasing total, H(n) = D_i H(n-e_i) + sum_j A_ij (n-e_i)_j H(n-e_i-e_j)
    with i the LAST nonzero index.
    """
    A = np.asarray(A, dtype=complex)
    D = np.asarray(D, dtype=complex)
    cut = tuple(int(c) for c in cut)
    m = len(cut)
    H = np.zeros(cut, dtype=complex)
    for idx in sorted(np.ndindex(*cut), key=sum):
        if sum(idx) == 0:
            H[idx] = 1
            continue
        i = max(k for k in range(m) if idx[k])
        p = list(idx)
        p[i] -= 1
        t = D[i] * H[tuple(p)]
        for j in range(m):
            if p[j]:
                c = p[j]
                p[j] -= 1
                t += A[i, j] * c * H[tuple(p)]
                p[j] += 1
        H[idx] = t
    return H


def lhaf_table_renorm(A, D, cut):
    """lhaf_table divided by sqrt(prod n!), computed with normalised recursion (large cutoffs)."""
    A = np.asarray(A, dtype=complex)
    D = np.asarray(D, dtype=complex)
    cut = tuple(int(c) for c in cut)
    m = len(cut)
    H = np.zeros(cut, dtype=complex)
    for idx in sorted(np.ndindex(*cut), key=sum):
        if sum(idx) == 0:
            H[idx] = 1
            continue
        i = max(k for k in range(m) if idx[k])
        s = 1 / math.sqrt(idx[i])
        p = list(idx)
        p[i] -= 1
        t = D[i] * H[tuple(p)]
        for j in range(m):
            if p[j]:
                c = math.sqrt(p[j])
                p[j] -= 1
                t += A[i, j] * c * H[tuple(p)]
                p[j] += 1
        H[idx] = t * s
    return H


def fact_norm(cut):
    """sqrt(prod n!) over the index box."""
    out = np.ones(cut)
    for ax, c in enumerate(cut):
        v = np.array([math.sqrt(math.factorial(k)) for k in range(c)])
        out = out * v.reshape([-1 if a == ax else 1 for a in range(len(cut))])
    return out


# ------------------------------------------------------------------ permanents
def perm(A):
    """Permanent by subset dynamic programming over columns (any exact or float type)."""
    A = A.tolist() if isinstance(A, np.ndarray) else A
    n = len(A)
    if n == 0:
        return 1
    cur = {0: 1}
    for i in range(n):
        nxt = {}
        row = A[i]
        for mask, v in cur.items():
            for j in range(n):
                b = 1 << j
                if not mask & b and row[j] != 0:
                    k = mask | b
                    nxt[k] = nxt.get(k, 0) + v * row[j]
        cur = nxt
        if not cur:
            return 0
    return cur.get((1 << n) - 1, 0)


def brs(A, E):
    A, E = np.asarray(A, dtype=complex), np.asarray(E, dtype=complex)
    m = A.shape[0]
    t = 0
    for k in range(m + 1):
        for Y in itertools.combinations(range(m), k):
            Ay = A[list(Y), :]
            t += (-1) ** (m - k) * perm(Ay.conj().T @ Ay + E)
    return t


# ------------------------------------------------------------------ torontonian
def subsets(n):
    for k in range(n + 1):
        yield from itertools.combinations(range(n), k)


def tor(O, gamma=None):
    O = np.asarray(O)
    n = O.shape[0] // 2
    t = 0.0
    sc = 0.0
    for Z in subsets(n):
        ix = list(Z) + [z + n for z in Z]
        if len(ix):
            M = np.eye(len(ix)) - O[np.ix_(ix, ix)]
            v = 1 / np.sqrt(np.linalg.det(M).real + 0j).real
            if gamma is not None:
                g = np.asarray(gamma)[ix]
                v = v * np.exp(0.5 * (g @ np.linalg.solve(M, g.conj()))).real
        else:
            v = 1.0
        t += (-1) ** (n - len(Z)) * v
        sc += abs(v)
    return t, sc


# ------------------------------------------------------------------ partitions / cumulants
def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for k in range(len(rest) + 1):
        for comb in itertools.combinations(rest, k):
            block = [first, *comb]
            left = [x for x in rest if x not in comb]
            for p in set_partitions(left):
                yield [block] + p


def mtl(A, zeta=None):
    """log-generating-function (joint cumulant) of hafnians: definition of the montrealer."""
    A = np.asarray(A)
    n = A.shape[0] // 2
    cache = {}

    def h(B):
        if B not in cache:
            ix = list(B) + [b + n for b in B]
            sub = A[np.ix_(ix, ix)]
            cache[B] = haf(sub) if zeta is None else haf(sub, True, np.asarray(zeta)[ix])
        return cache[B]

    t = 0
    for p in set_partitions(range(n)):
        v = (-1) ** (len(p) - 1) * math.factorial(len(p) - 1)
        for b in p:
            v = v * h(tuple(b))
        t += v
    return t


def mtl_paths(A, zeta=None):
    """Montrealer by walking the single cycle (and, with loops, the single path): the edges of a perfect matching together
    with the pairs (i, i+n) visit every mode once. Sums over subsets of visited modes: any n up to about 11.
    Returns the value and the same sum over absolute values."""
    A = np.asarray(A)
    n = A.shape[0] // 2
    out = []
    for B, z in ((A, zeta), (np.abs(A), None if zeta is None else np.abs(zeta))):
        dt = np.result_type(B.dtype, float if z is None else np.asarray(z).dtype, float)

        def walk(start):
            f = np.zeros((1 << n, 2 * n), dtype=dt)
            for S, v, w in start:
                f[S, v] += w
            for S in range(1, 1 << n):
                if not f[S].any():
                    continue
                step = f[S] @ B
                for u in range(n):
                    if not S >> u & 1:
                        f[S | 1 << u, u + n] += step[u]
                        f[S | 1 << u, u] += step[u + n]
            return f[-1]

        t = walk([(1, 0, 1)]) @ B[:, n]
        if z is not None:
            t = t + walk([(1 << u, v, z[(v + n) % (2 * n)]) for u in range(n) for v in (u, u + n)]) @ z / 2
        out.append(t)
    return out[0], float(out[1])


def joint_cumulant(moment, idx):
    """Joint cumulant of the variables listed in idx; moment(tuple) gives E[prod]."""
    t = 0
    for p in set_partitions(range(len(idx))):
        v = (-1) ** (len(p) - 1) * math.factorial(len(p) - 1)
        for b in p:
            v = v * moment(tuple(sorted(idx[k] for k in b)))
        t += v
    return t


# ------------------------------------------------------------------ gaussian formulas (own derivation)
def a_moments(mu, cov, hbar):
    """alpha = <a>, N[i,j] = <da_i^dag da_j>, M[i,j] = <da_i da_j> (fluctuations), from xxpp data."""
    n = len(mu) // 2
    mu = np.asarray(mu, dtype=float)
    V = np.asarray(cov, dtype=float)
    al = (mu[:n] + 1j * mu[n:]) / np.sqrt(2 * hbar)
    x, p, xp = V[:n, :n], V[n:, n:], V[:n, n:]
    # symmetrised <da_i^dag da_j>_sym = (x + p + i(xp - px)) / (2 hbar)
    N = (x + p + 1j * (xp - xp.T)) / (2 * hbar) - np.eye(n) / 2
    M = (x - p + 1j * (xp + xp.T)) / (2 * hbar)
    return al, N, M


def husimi(mu, cov, hbar):
    """(beta, Q) in (a, a^dag) ordering: Q = <da da^dag>-type matrix + 1/2 ordering; Q = sigma + I/2."""
    al, N, M = a_moments(mu, cov, hbar)
    n = len(al)
    # vector (a, a*) ; sigma_{ij} = < (da_i da_j^dag + da_j^dag da_i)/2 > ; antinormal = <da_i da_j^dag>
    Q = np.block([[N.T + np.eye(n), M], [M.conj(), N + np.eye(n)]])
    beta = np.concatenate([al, al.conj()])
    return beta, Q


def adj(mu, cov, hbar):
    """A (2n x 2n) and loop vector gamma such that
    <m|rho|k> = p0 * lhaf(A, gamma)_{(k.. conj ordering) m} / sqrt(prod m! k!)."""
    beta, Q = husimi(mu, cov, hbar)
    n = len(beta) // 2
    Qi = np.linalg.inv(Q)
    X = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
    A = X @ (np.eye(2 * n) - Qi)
    gamma = beta.conj() @ Qi
    p0 = np.exp(-0.5 * (beta.conj() @ Qi @ beta)).real / np.sqrt(np.linalg.det(Q).real)
    return A, gamma, p0


def dm_table(mu, cov, hbar, cut):
    """rho[m1,m2..; k1,k2..] -> array with axes (bra-ket split): R[m..., k...] = <m|rho|k>."""
    A, g, p0 = adj(mu, cov, hbar)
    n = len(mu) // 2
    cuts = tuple(cut)
    T = lhaf_table_renorm(A, g, cuts + cuts)
    # generating function: e^{|a|^2} <a|rho|a> = p0 exp(1/2 v^T A v + g.v), v = (a, a*): first
    # half of the indices counts powers of a (ket side: sum_k a^k/sqrt(k!) |k>), second half a* (bra)
    perm_ = list(range(n, 2 * n)) + list(range(n))
    return p0 * T.transpose(perm_)


def probs_table(mu, cov, hbar, cut):
    """Photon-number probabilities in the box (exact, by the same expansion but diagonal only)."""
    R = dm_table(mu, cov, hbar, cut)
    n = len(mu) // 2
    out = np.zeros(tuple(cut))
    for idx in np.ndindex(*cut):
        out[idx] = R[idx + idx].real
    return out


def reduced(mu, cov, modes):
    n = len(mu) // 2
    ix = [m for m in modes] + [m + n for m in modes]
    return np.asarray(mu)[ix], np.asarray(cov)[np.ix_(ix, ix)]


def vacuum_prob(mu, cov, hbar):
    if len(mu) == 0:
        return 1.0
    M = np.asarray(cov) + hbar / 2 * np.eye(len(mu))
    d = np.asarray(mu)
    return float(np.exp(-0.5 * d @ np.linalg.solve(M, d)) * hbar ** (len(mu) / 2) / np.sqrt(np.linalg.det(M)))


def click_prob(mu, cov, hbar, pattern):
    """Threshold pattern by inclusion-exclusion of vacuum probabilities."""
    C = [i for i, c in enumerate(pattern) if c]
    Z = [i for i, c in enumerate(pattern) if not c]
    t = 0.0
    for S in subsets(len(C)):
        modes = Z + [C[s] for s in S]
        t += (-1) ** len(S) * vacuum_prob(*reduced(mu, cov, modes), hbar)
    return t


def moments_from_genfun(mu, cov, hbar, powers):
    """E[prod n_i^{p_i}] from factorial moments E[:prod n_i^{k_i}:] = normally ordered lhaf."""
    al, N, M = a_moments(mu, cov, hbar)
    n = len(al)
    # order of operators (a_1..a_n, a1^dag..): normal ordered contraction of a_i with a_j^dag is N[j,i]
    W = np.block([[M, N.T], [N, M.conj()]])
    b = np.concatenate([al, al.conj()])
    from itertools import product

    def stirling(p):
        row = [1] + [0] * p
        S = [[0] * (p + 1) for _ in range(p + 1)]
        S[0][0] = 1
        for i in range(1, p + 1):
            for k in range(1, i + 1):
                S[i][k] = k * S[i - 1][k] + S[i - 1][k - 1]
        return S[p]

    sts = [stirling(int(p)) for p in powers]
    tot = 0
    for ks in product(*[range(len(s)) for s in sts]):
        c = 1
        for s, k in zip(sts, ks):
            c *= s[k]
        if c == 0:
            continue
        tot += c * complex(lhaf_counts(W, b, list(ks) + list(ks), one=1.0))
    return tot.real if isinstance(tot, complex) else tot


# ------------------------------------------------------------------ statistics
def chi2_tail(x, k):
    from scipy.stats import chi2

    return float(chi2.sf(x, k))


def gof(counts, probs, total):
    """Pearson chi^2 p-value with small-bin pooling. counts/probs are dicts over outcomes; everything
    not listed in probs is pooled into one rest bin."""
    keys = sorted(probs, key=lambda k: -probs[k])
    o, e = [], []
    ro, re = float(total), float(total)
    for k in keys:
        ex = probs[k] * total
        if ex < 12:
            break
        o.append(counts.get(k, 0))
        e.append(ex)
        ro -= counts.get(k, 0)
        re -= ex
    re = max(re, 0.0)
    if re >= 12:
        o.append(ro)
        e.append(re)
        x = sum((a - b) ** 2 / b for a, b in zip(o, e))
        return chi2_tail(x, max(1, len(o) - 1)), len(o)
    # pooled rest too small for chi2: test it by a Poisson tail instead
    from scipy.stats import poisson

    p_rest = float(poisson.sf(ro - 1, max(re, 1e-12))) if ro > 0 else 1.0
    x = sum((a - b) ** 2 / b for a, b in zip(o, e))
    p = chi2_tail(x, max(1, len(o) - 1)) if len(o) > 1 else 1.0
    return min(p, p_rest), len(o)


def _linear_products(rows, consts):
    """Coefficients (dense array) of prod_k (consts_k + sum_j rows_kj x_j) in r variables."""
    rows = np.asarray(rows)
    N, r = rows.shape
    P = np.zeros((N + 1,) * r, dtype=np.result_type(rows, np.asarray(consts), float))
    P[(0,) * r] = 1
    for k in range(N):
        Q = consts[k] * P
        for j in range(r):
            a, b = [slice(None)] * r, [slice(None)] * r
            a[j], b[j] = slice(1, None), slice(None, -1)
            Q[tuple(a)] += rows[k, j] * P[tuple(b)]
        P = Q
    return P


def low_rank_lhaf(G, d=None):
    """Loop hafnian (loops d) of G G^T for any number of rows: Gaussian moments of a product of linear forms."""
    G = np.asarray(G)
    N, r = G.shape
    P = _linear_products(G, np.zeros(N) if d is None else d)
    w = np.array([0.0 if m % 2 else float(math.prod(range(m - 1, 0, -2))) for m in range(N + 1)])
    for _ in range(r):
        P = np.tensordot(P, w, axes=(0, 0))
    return P[()] if isinstance(P, np.ndarray) else P


def low_rank_perm(U, V):
    """Permanent of U V^T: sum over monomials of products of coefficients and factorials."""
    U, V = np.asarray(U), np.asarray(V)
    N, r = U.shape
    z = np.zeros(N)
    P = _linear_products(U, z) * _linear_products(V, z)
    f = np.array([float(math.factorial(m)) for m in range(N + 1)])
    for _ in range(r):
        P = np.tensordot(P, f, axes=(0, 0))
    return P[()] if isinstance(P, np.ndarray) else P


def direct_sum(blocks, order=None):
    """Block-diagonal matrix with its rows and columns shuffled by order."""
    n = sum(len(b) for b in blocks)
    M = np.zeros((n, n), dtype=np.result_type(*blocks, float))
    i = 0
    for b in blocks:
        M[i : i + len(b), i : i + len(b)] = b
        i += len(b)
    return M if order is None else M[np.ix_(order, order)]
