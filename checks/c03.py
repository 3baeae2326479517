"""C03: permanents, Bristolians, Fock-input probabilities vs polynomial expansion of creation operators."""
import itertools
import math

import numpy as np

from vlib import gen, oracles as O
from vlib.core import section


def _mats(rng, n, k):
    kinds = ["real", "complex", "int", "ones", "zero", "unitary", "sparse", "zerocol", "negative", "rank1", "perm", "imag", "triangular"]
    kind = kinds[k % len(kinds)]
    A = rng.normal(size=(n, n))
    if kind == "complex":
        A = A + 1j * rng.normal(size=(n, n))
    elif kind == "int":
        A = rng.integers(-3, 4, size=(n, n))
    elif kind == "ones":
        A = np.ones((n, n))
    elif kind == "zero":
        A = np.zeros((n, n))
    elif kind == "unitary":
        A = gen.haar(rng, n)
    elif kind == "sparse":
        A = A * (rng.random((n, n)) < 0.45)
    elif kind == "zerocol" and n:
        A[:, rng.integers(n)] = 0
    elif kind == "negative":
        A = -np.abs(A)
    elif kind == "rank1":
        A = np.outer(rng.normal(size=n), rng.normal(size=n) + 1j)
    elif kind == "perm":
        A = np.eye(n)[rng.permutation(n)]
    elif kind == "imag":
        A = 1j * A
    elif kind == "triangular":
        A = np.triu(A)
    return kind, A


def _pscale(A):
    """Scale of the terms: product of row sums (Ryser/BBFG rounding) and the absolute permanent."""
    a = np.abs(A).astype(float)
    if a.size == 0:
        return 1.0
    return float(np.prod(a.sum(axis=1)) + np.prod(a.sum(axis=0)))


@section(must=("perm",), weight=2)
def permanents(ctx):
    f = ctx.api("thewalrus.perm")
    for rnd in range(ctx.n(3, 20)):
        for n in range(0, 10):
            for k in range(13):
                kind, A = _mats(ctx.rng, n, k)
                with ctx.case(f"perm n={n} kind={kind}"):
                    w = O.perm(A)
                    s = _pscale(A)
                    B = gen.layout(ctx.rng, A)
                    for m in ("bbfg", "ryser"):
                        ctx.close(f"perm[{m}]", f(B, method=m), w, rtol=1e-11 * (2 ** (n / 2)), scale=s, atol=1e-12)
                    if n > 1 and w != 0:
                        ctx.nontrivial(A)
                    ctx.sample(A=A, perm=w)
    for n in (11, 13, 15) if ctx.quick else (11, 13, 15, 17, 18):
        for A, w in ((np.ones((n, n)), math.factorial(n)), (np.triu(np.ones((n, n))), 1), (np.ones((n, n)) - np.eye(n), None), (np.ones((n, n)) * 1j, 1j**n * math.factorial(n))):
            if w is None:
                w = sum((-1) ** k * math.factorial(n) // math.factorial(k) for k in range(n + 1))
            with ctx.case(f"perm closed n={n}"):
                for m in ("bbfg", "ryser"):
                    ctx.close(f"perm closed[{m}]", f(A, method=m), w, rtol=1e-7, scale=_pscale(A) * 1e-4)
                ctx.nontrivial(A)


@section(must=("permanent_repeated",))
def repeated(ctx):
    f = ctx.api("thewalrus.permanent_repeated")
    for k in range(ctx.n(60, 500)):
        n = int(ctx.rng.integers(1, 5))
        kind, A = _mats(ctx.rng, n, k)
        r = gen.partition(ctx.rng, int(ctx.rng.integers(0, 8)), n)
        rr = [list(map(int, r)), tuple(map(int, r)), np.array(r)][k % 3]
        with ctx.case(f"permanent_repeated n={n} kind={kind} r={r.tolist()} as {type(rr).__name__}"):
            ix = [i for i in range(n) for _ in range(r[i])]
            B = A[np.ix_(ix, ix)]
            ctx.close("permanent_repeated", complex(f(A, rr)), complex(O.perm(B)), rtol=1e-8, scale=_pscale(B))
            if len(ix) > 1:
                ctx.nontrivial(A, r)


@section(must=("brs", "ubrs"), weight=2)
def bristolians(ctx):
    brs = ctx.api("thewalrus.brs")
    ubrs = ctx.api("thewalrus.ubrs")
    for k in range(ctx.n(60, 500)):
        m, n = int(ctx.rng.integers(1, 5)), int(ctx.rng.integers(1, 5))
        if k % 9 == 0:
            m = 0
        A = ctx.rng.normal(size=(m, n)) + (1j * ctx.rng.normal(size=(m, n)) if k % 2 else 0)
        G = ctx.rng.normal(size=(n, n)) + (1j * ctx.rng.normal(size=(n, n)) if k % 2 else 0)
        E = [G.conj().T @ G, np.zeros((n, n)), np.eye(n), G][k % 4].astype(A.dtype if k % 2 else float)
        if k % 6 == 5 and m:
            A[ctx.rng.integers(m)] = 0
        with ctx.case(f"brs m={m} n={n} k={k}"):
            s = _pscale(np.abs(A).conj().T @ np.abs(A) + np.abs(E)) * 2**m
            ctx.close("brs", complex(brs(A, E)), complex(O.brs(A, E)), rtol=1e-10, scale=s)
            ctx.close("ubrs", complex(ubrs(A)), complex(O.brs(A, np.zeros((n, n)))), rtol=1e-10, scale=s)
            if m > 1:
                ctx.nontrivial(A, E)
    # lossless case: number of clicks exceeding the number of photons is impossible
    for k in range(ctx.n(10, 40)):
        n = int(ctx.rng.integers(1, 4))
        A = gen.haar(ctx.rng, 5)[: n + 1, :n]
        with ctx.case(f"ubrs more clicks than photons n={n}"):
            ctx.close("ubrs impossible", complex(ubrs(np.ascontiguousarray(A))), 0.0, rtol=0, atol=1e-10)


def evolve(U, n):
    """Output amplitudes <m|U|n> by expanding prod_j (sum_i U_ij a_i^dag)^{n_j}."""
    M = U.shape[0]
    poly = {(0,) * M: 1.0 + 0j}
    for j, nj in enumerate(n):
        for _ in range(nj):
            nxt = {}
            for mono, c in poly.items():
                for i in range(M):
                    if U[i, j] != 0:
                        t = mono[:i] + (mono[i] + 1,) + mono[i + 1 :]
                        nxt[t] = nxt.get(t, 0) + c * U[i, j]
            poly = nxt
    nf = math.sqrt(math.prod(math.factorial(int(x)) for x in n))
    return {m: c * math.sqrt(math.prod(math.factorial(x) for x in m)) / nf for m, c in poly.items()}


def dilate(T):
    """Unitary whose top-left block is T (T is out x in, norm <= 1)."""
    o, i = T.shape
    u, s, vh = np.linalg.svd(T)
    S = np.zeros((o, i), dtype=complex)
    k = min(o, i)
    S[:k, :k] = np.diag(np.clip(s, 0, 1))
    D = o + i
    W = np.zeros((D, D), dtype=complex)
    # [[S, sqrt(1-SS^T)], [sqrt(1-S^TS), -S^T]]
    W[:o, :i] = S
    W[:o, i:] = np.diag(np.sqrt(np.clip(1 - np.diag(S @ S.T).real, 0, None)))
    W[o:, :i] = np.diag(np.sqrt(np.clip(1 - np.diag(S.T @ S).real, 0, None)))
    W[o:, i:] = -S.T
    L = np.block([[u, np.zeros((o, i))], [np.zeros((i, o)), np.eye(i)]])
    R = np.block([[vh, np.zeros((i, o))], [np.zeros((o, i)), np.eye(o)]])
    return L @ W @ R


def _inputs(rng, M, maxtot):
    t = int(rng.integers(0, maxtot + 1))
    return [int(x) for x in gen.partition(rng, t, M)]


@section(must=("fock_prob",), weight=2)
def fock_number(ctx):
    f = ctx.api("thewalrus._permanent", "fock_prob")
    rng = ctx.rng
    for k in range(ctx.n(45, 300)):
        M = int(rng.integers(1, 5))
        n = _inputs(rng, M, 5) if k % 10 else [0] * M
        t = [0.7, 1 - 10.0 ** rng.uniform(-6, -2)][k // 4 % 2]
        U = [gen.haar(rng, M), gen.orth(rng, M), np.eye(M)[rng.permutation(M)], t * gen.haar(rng, M)][k % 4]
        with ctx.case(f"fock_prob M={M} n={n} U{k % 4}"):
            amp = evolve(U, n)
            tot = 0.0
            N = sum(n)
            outs = [m for m in itertools.product(range(N + 1), repeat=M) if sum(m) == N]
            for m in outs:
                conv = [list, tuple, np.array][k % 3]
                p = f(conv(n), conv(m), U)
                ctx.check(np.isrealobj(p) and -1e-12 <= p <= 1 + 1e-9, f"fock_prob not a probability: {p}")
                ctx.close("fock_prob", p, abs(amp.get(m, 0)) ** 2, rtol=1e-9, atol=1e-12)
                tot += p
            ctx.close("fock_prob total", tot, t ** (2 * N) if k % 4 == 3 else 1.0, rtol=1e-9)
            ctx.nontrivial(U, n)
            ctx.sample(n=n, U=U, total=tot)


@section(must=("fock_threshold_prob",), weight=3)
def fock_threshold(ctx):
    f = ctx.api("thewalrus._permanent", "fock_threshold_prob")
    rng = ctx.rng
    for k in range(ctx.n(84, 500)):
        Mi = int(rng.integers(1, 5))
        Mo = int(rng.integers(1, Mi + 1))
        kind = k % 8
        if kind == 0:
            T = gen.haar(rng, Mi)
            Mo = Mi
        elif kind == 1:
            T = gen.haar(rng, Mi)[:Mo]
        elif kind == 2:
            T = float(rng.uniform(0.2, 0.95)) * gen.haar(rng, Mi)[:Mo]
        elif kind == 3:
            T = rng.normal(size=(Mo, Mi))
            T = T / np.linalg.norm(T, 2) * rng.uniform(0.3, 1)
        elif kind == 4:
            T = (gen.haar(rng, Mi) * np.sqrt(rng.uniform(0, 1, size=Mi)))[:Mo]  # per-mode loss
        elif kind == 5:  # almost no loss, in one mode or in all
            Mo = Mi
            eps = 10.0 ** rng.uniform(-6, -2, size=Mi) * (rng.random(Mi) < 0.6 if k // 8 % 2 else 1)
            T = gen.haar(rng, Mi) @ np.diag(np.sqrt(1 - eps)) @ gen.haar(rng, Mi)
        elif kind == 6:  # almost all lost
            T = 10.0 ** rng.uniform(-4, -1) * gen.haar(rng, Mi)[:Mo]
        else:
            T = gen.orth(rng, Mi)
            Mo = Mi
        T = np.ascontiguousarray(T)
        n = _inputs(rng, Mi, 4) if k % 8 else [0] * Mi
        with ctx.case(f"fock_threshold Mi={Mi} Mo={Mo} n={n} kind={kind}"):
            W = dilate(T)
            amp = evolve(W, n + [0] * Mo)
            want = {}
            for m, a in amp.items():
                d = tuple(int(x > 0) for x in m[:Mo])
                want[d] = want.get(d, 0) + abs(a) ** 2
            tot = 0.0
            for d in itertools.product((0, 1), repeat=Mo):
                conv = [list, tuple, np.array][k % 3]
                p = f(conv(n), conv(d), T)
                ctx.check(np.isrealobj(p) and -1e-9 <= p <= 1 + 1e-9, f"not a probability: {p}")
                ctx.close("fock_threshold_prob", p, want.get(d, 0.0), rtol=1e-8, atol=1e-9)
                tot += p
            ctx.close("threshold total", tot, 1.0, rtol=1e-8)
            ctx.nontrivial(T, n)
            ctx.sample(n=n, T=T)


@section(must=("perm", "permanent_repeated", "brs", "fock_prob"), weight=2)
def beyond(ctx):
    """Larger sizes: low-rank matrices (polynomial products), shuffled direct sums, many photons in few modes."""
    f, rep = ctx.api("thewalrus.perm"), ctx.api("thewalrus.permanent_repeated")
    brs, ubrs = ctx.api("thewalrus.brs"), ctx.api("thewalrus.ubrs")
    fp, ft = ctx.api("thewalrus._permanent", "fock_prob"), ctx.api("thewalrus._permanent", "fock_threshold_prob")
    rng = ctx.rng
    for q, n in enumerate([10, 11, 12, 13, 14, 15, 16, 17] * ctx.n(1, 3) + ([] if ctx.quick else [18, 19, 20])):
        r = 1 + q % 3
        U, V = rng.normal(size=(n, r)), rng.normal(size=(n, r))
        if q % 2:
            U = U + 1j * rng.normal(size=(n, r))
        A = U @ V.T / n
        with ctx.case(f"perm of a low-rank matrix n={n} rank={r}"):
            w, s = O.low_rank_perm(U, V) / float(n) ** n, float(np.real(O.low_rank_perm(np.abs(U), np.abs(V)))) / float(n) ** n
            for m in ("bbfg", "ryser"):
                ctx.close(f"perm low rank[{m}]", f(A, method=m), w, rtol=1e-9, scale=s + _pscale(A) * 1e-3)
            ctx.nontrivial(A)
        order, order2 = rng.permutation(n), rng.permutation(n)
        bl, left = [], n
        while left:
            b = int(min(left, rng.integers(1, 6)))
            bl.append(rng.normal(size=(b, b)) + (1j * rng.normal(size=(b, b)) if q % 2 else 0))
            left -= b
        with ctx.case(f"perm of a shuffled direct sum {[len(b) for b in bl]}"):
            A = O.direct_sum(bl)[order][:, order2]
            w = np.prod([complex(O.perm(b)) for b in bl])
            for m in ("bbfg", "ryser"):
                ctx.close(f"perm direct sum[{m}]", f(A, method=m), w, rtol=1e-9, scale=_pscale(A) * 1e-2 + abs(w))
            ctx.nontrivial(A)
    for q in range(ctx.n(12, 60)):
        k = 2 + q % 3
        U, V = rng.normal(size=(k, 2)), rng.normal(size=(k, 2)) * (1 + 0.5j * (q % 2))
        reps = gen.partition(rng, 8 + q % 5, k)
        ix = [i for i in range(k) for _ in range(reps[i])]
        with ctx.case(f"permanent_repeated of a low-rank matrix {reps.tolist()}"):
            s = float(np.real(O.low_rank_perm(np.abs(U[ix]), np.abs(V[ix]))))
            ctx.close("permanent_repeated", complex(rep(U @ V.T, [int(x) for x in reps])), complex(O.low_rank_perm(U[ix], V[ix])), rtol=1e-7, scale=s)
            ctx.nontrivial(U, V, reps)
    for q in range(ctx.n(10, 60)):
        sh = [(int(rng.integers(1, 4)), int(rng.integers(1, 4))) for _ in range(2 + q % 2)]
        As = [rng.normal(size=x) + 1j * rng.normal(size=x) for x in sh]
        Es = [g.conj().T @ g for g in (rng.normal(size=(x[1], x[1])) + 1j * rng.normal(size=(x[1], x[1])) for x in sh)]
        m, n = sum(x[0] for x in sh), sum(x[1] for x in sh)
        A = np.zeros((m, n), complex)
        i = j = 0
        for a in As:
            A[i : i + a.shape[0], j : j + a.shape[1]] = a
            i, j = i + a.shape[0], j + a.shape[1]
        o1, o2 = rng.permutation(m), rng.permutation(n)
        with ctx.case(f"Bristolian of a shuffled direct sum {sh}"):
            E = O.direct_sum(Es, o2)
            B = np.ascontiguousarray(A[o1][:, o2])
            s = _pscale(np.abs(B).T @ np.abs(B) + np.abs(E)) * 1e-3
            ctx.close("brs", complex(brs(B, E)), np.prod([complex(O.brs(a, e)) for a, e in zip(As, Es)]), rtol=1e-9, scale=s)
            ctx.close("ubrs", complex(ubrs(B)), np.prod([complex(O.brs(a, np.zeros(e.shape))) for a, e in zip(As, Es)]), rtol=1e-9, scale=s)
            ctx.nontrivial(B, E)
    for q in range(ctx.n(10, 60)):
        # pairs of modes that do not interact, listed in shuffled order; up to 14 photons
        p = 1 + q % 3
        Us = [gen.haar(rng, 2) for _ in range(p)]
        ns = [[int(x) for x in rng.integers(0, [8, 4, 3][p - 1], size=2)] for _ in range(p)]
        order = rng.permutation(2 * p)
        U = O.direct_sum(Us, order)
        n_in = np.concatenate([np.array(x) for x in ns])[order]
        amps = [evolve(u, x) for u, x in zip(Us, ns)]
        with ctx.case(f"many photons {n_in.tolist()} in {2 * p} modes"):
            for _ in range(4):
                pick = [list(a)[int(rng.integers(len(a)))] for a in amps]
                w = np.prod([abs(a[x]) ** 2 for a, x in zip(amps, pick)])
                out = np.array([y for x in pick for y in x])[order]
                ctx.close("fock_prob", fp(list(map(int, n_in)), list(map(int, out)), U), w, rtol=1e-8, atol=1e-12)
            if sum(map(sum, ns)) <= 8:
                d = [tuple(int(x) for x in rng.integers(0, 2, size=2)) for _ in range(p)]
                w = np.prod([sum(abs(v) ** 2 for m, v in a.items() if tuple(int(x > 0) for x in m) == t) for a, t in zip(amps, d)])
                dd = np.array([y for t in d for y in t])[order]
                ctx.close("fock_threshold_prob", ft(list(map(int, n_in)), list(map(int, dd)), U), w, rtol=1e-7, atol=1e-9)
            ctx.nontrivial(U, n_in)
