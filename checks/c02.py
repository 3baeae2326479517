"""C02: Hermite / batched-hafnian / interferometer tensors entry by entry, and their gradients."""
import math

import numpy as np

from vlib import gen, oracles as O
from vlib.core import section


def _cuts(rng, n, budget=500, big=False):
    """A per-mode cutoff tuple with bounded box."""
    while True:
        c = tuple(int(x) for x in rng.integers(1, 9 if not big else 16, size=n))
        if np.prod(c) <= budget:
            return c


def _table_scale(A, D, cut, renorm):
    f = O.lhaf_table_renorm if renorm else O.lhaf_table
    return f(np.abs(A), np.abs(D), cut).real


def _elem(ctx, what, got, want, sc, rtol=1e-9):
    got = np.asarray(got)
    if not ctx.check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}"):
        return
    d = np.abs(got - want)
    tol = rtol * (sc + 1e-3) + 1e-13
    ok = np.isfinite(d).all() and np.all(d <= tol)
    ctx.evals += got.size
    r = float(np.max(d / tol)) if np.isfinite(d).all() else np.inf
    if r > ctx.worst.get(what, -1):
        ctx.worst[what] = r
    if not ok:
        i = np.unravel_index(int(np.argmax(np.nan_to_num(d / tol, nan=np.inf))), d.shape)
        ctx.violate("value", f"{what}: entry {tuple(map(int, i))}: got {got[i]!r} want {want[i]!r}")


@section(must=("hermite_multidimensional", "hafnian_batched"), weight=3)
def tensors(ctx):
    hm = ctx.api("thewalrus.hermite_multidimensional")
    hb = ctx.api("thewalrus.hafnian_batched")
    rng = ctx.rng
    for k in range(ctx.n(130, 1200)):
        n = int(rng.integers(1, 6))
        kind = gen.SYM_KINDS[k % len(gen.SYM_KINDS)]
        A = gen.sym(rng, n, kind, 0.8)
        mu = [rng.normal(size=n), rng.normal(size=n) + 1j * rng.normal(size=n), np.zeros(n), rng.integers(-2, 3, size=n), None][k % 5]
        scalar = k % 3 == 0
        c = (int(rng.integers(1, {1: 30, 2: 12, 3: 7, 4: 5, 5: 4}[n])),) * n if scalar else _cuts(rng, n)
        if scalar:
            carg = [c[0], np.int64(c[0]), np.array(c[0])][int(rng.integers(3))]
        else:
            carg = [c, list(c), np.array(c)][int(rng.integers(3))]
            if n == 1:
                carg = c
        with ctx.case(f"tensor n={n} kind={kind} cut={c} mu={'None' if mu is None else mu.dtype.name}"):
            D = np.zeros(n) if mu is None else mu
            for renorm in (False, True):
                T = O.lhaf_table_renorm(A, D, c) if renorm else O.lhaf_table(A, D, c)
                sc = _table_scale(A, D, c, renorm)
                B = gen.layout(rng, A) if k % 7 == 0 else A
                got = hb(B, carg, mu=mu, renorm=renorm)
                _elem(ctx, f"hafnian_batched[renorm={renorm}]", got, T, sc)
                flat = hb(B, carg, mu=mu, renorm=renorm, make_tensor=False)
                _elem(ctx, "hafnian_batched[flat]", flat, T.reshape(-1), sc.reshape(-1))
                Cst = [1, 2.0, 0.5 - 0.3j][k % 3]
                R = -A
                got = hm(R, carg, y=mu, C=Cst, renorm=renorm, modified=True)
                _elem(ctx, f"hermite[modified,{renorm}]", got, Cst * T, abs(Cst) * sc)
                y2 = None if mu is None else mu
                D2 = R @ D
                T2 = O.lhaf_table_renorm(A, D2, c) if renorm else O.lhaf_table(A, D2, c)
                sc2 = _table_scale(A, np.abs(R) @ np.abs(D), c, renorm)
                got = hm(R, carg, y=y2, C=Cst, renorm=renorm, make_tensor=bool(k % 2))
                _elem(ctx, f"hermite[{renorm}]", got, Cst * (T2 if k % 2 else T2.reshape(-1)), abs(Cst) * (sc2 if k % 2 else sc2.reshape(-1)))
            if np.prod(c) > 3:
                ctx.nontrivial(A, D, c)
            ctx.sample(A=A, mu=D, cutoff=c)


@section(must=("hermite_multidimensional",))
def dtypes(ctx):
    """Equal values in integer, float and complex dtypes give equal tensors; dtype can hold the values."""
    hm = ctx.api("thewalrus.hermite_multidimensional")
    hb = ctx.api("thewalrus.hafnian_batched")
    rng = ctx.rng
    for k in range(ctx.n(30, 200)):
        n = int(rng.integers(1, 4))
        A = gen.sym(rng, n, "int")
        y = rng.integers(-3, 4, size=n)
        c = {1: 24, 2: 9, 3: 6}[n]
        with ctx.case(f"dtypes n={n} A={A.tolist()} y={y.tolist()}"):
            for renorm in (True, False):
                T = O.lhaf_table_renorm(A, y, (c,) * n) if renorm else O.lhaf_table(A, y, (c,) * n)
                sc = _table_scale(A, y, (c,) * n, renorm)
                for conv in (np.int64, np.int32, float, complex):
                    for conv2 in (int, float):
                        _elem(ctx, f"dtype[{renorm}]", hm(-A.astype(conv), c, y=y.astype(conv2), renorm=renorm, modified=True), T, sc)
                    _elem(ctx, f"dtype-hb[{renorm}]", hb(A.astype(conv), c, mu=y, renorm=renorm), T, sc)
                    Tm = O.lhaf_table_renorm(A, -A @ y, (c,) * n) if renorm else O.lhaf_table(A, -A @ y, (c,) * n)
                    scm = _table_scale(A, np.abs(A) @ np.abs(y), (c,) * n, renorm)
                    _elem(ctx, f"dtype-unmod[{renorm}]", hm(-A.astype(conv), c, y=y, renorm=renorm), Tm, scm)
            ctx.nontrivial(A, y)


@section(must=("hermite_multidimensional",), weight=2)
def large_cutoff(ctx):
    """Cutoffs in the hundreds and above 1000 in one or two modes, against a Python recursion."""
    hm = ctx.api("thewalrus.hermite_multidimensional")
    hb = ctx.api("thewalrus.hafnian_batched")
    rng = ctx.rng
    for c in [200, 999, 1000, 1001, 1002, 1100, 1500] + ([] if ctx.quick else [2000, 3000]):
        a, d = float(rng.uniform(-0.6, 0.6)), float(rng.uniform(-0.5, 0.5))
        with ctx.case(f"single mode cutoff {c} a={a} d={d}"):
            w = np.zeros(c)
            w[0] = 1
            for k in range(1, c):
                w[k] = (d * w[k - 1] + (a * math.sqrt(k - 1) * w[k - 2] if k > 1 else 0)) / math.sqrt(k)
            ctx.close("cut>1000", hm(np.array([[-a]]), c, y=np.array([d]), renorm=True, modified=True), w, rtol=1e-8, atol=1e-15)
            ctx.close("cut>1000 batched", hb(np.array([[a]]), c, mu=np.array([d]), renorm=True), w, rtol=1e-8, atol=1e-15)
            ctx.nontrivial(c, a, d)
    for c in [(1200, 2), (3, 1005), (2, 1003, 2)]:
        n = len(c)
        A = gen.sym(rng, n, "real", 0.3)
        d = rng.normal(size=n) * 0.3
        with ctx.case(f"multi mode cutoff {c}"):
            ctx.close("cut>1000 multi", hb(A, c, mu=d, renorm=True), O.lhaf_table_renorm(A, d, c), rtol=1e-8, atol=1e-13)
            ctx.nontrivial(A, c)


@section(must=("interferometer",), weight=2)
def interferometers(ctx):
    """[[0,-U],[-U^T,0]] (any matrix U, not only unitary): entries are permanents; zero off the photon-conserving blocks."""
    f = ctx.api("thewalrus.interferometer")
    rng = ctx.rng
    for k in range(ctx.n(24, 150)):
        n = [1, 2, 1, 2, 3][k % 5]
        c = int(rng.integers(1, {1: 12, 2: 6, 3: 4}[n]))
        U = [gen.haar(rng, n), rng.normal(size=(n, n)), gen.orth(rng, n), 0.6 * gen.haar(rng, n)][k % 4]
        Z = np.zeros((n, n))
        R = np.block([[Z, -U], [-U.T, Z]])
        A = -R
        cuts = (c,) * (2 * n)
        if k % 6 == 5:
            cuts = tuple(int(x) for x in rng.integers(1, 5, size=2 * n))
        with ctx.case(f"interferometer n={n} cut={cuts}"):
            carg = c if len(set(cuts)) == 1 and cuts[0] == c else cuts
            for renorm in (True, False):
                T = O.lhaf_table_renorm(A, np.zeros(2 * n), cuts) if renorm else O.lhaf_table(A, np.zeros(2 * n), cuts)
                sc = _table_scale(A, np.zeros(2 * n), cuts, renorm)
                _elem(ctx, f"interferometer[{renorm}]", f(R, carg, renorm=renorm), T, sc)
                _elem(ctx, f"interferometer[{renorm},flat]", f(R, carg, renorm=renorm, make_tensor=False), T.reshape(-1), sc.reshape(-1))
                _elem(ctx, f"interferometer[{renorm},C]", f(R, carg, C=1.5, renorm=renorm), 1.5 * T, 1.5 * sc)
            # permanents directly on a few entries
            T = f(R, carg)
            for _ in range(4):
                idx = tuple(int(rng.integers(0, q)) for q in cuts)
                m, q = idx[:n], idx[n:]
                if sum(m) != sum(q):
                    ctx.check(T[idx] == 0, f"photon non-conserving entry {idx} = {T[idx]}")
                else:
                    r = [i for i in range(n) for _ in range(m[i])]
                    s = [i for i in range(n) for _ in range(q[i])]
                    p = O.perm(U[np.ix_(r, s)]) / np.sqrt(float(np.prod([math.factorial(x) for x in idx])))
                    ctx.close("interferometer-perm", T[idx], p, rtol=1e-9)
            ctx.nontrivial(U, cuts)


@section(must=("grad_hermite_multidimensional",), weight=2)
def gradients(ctx):
    """Directional derivatives along random symmetric dR, dy, dC by complex-free central differences (Richardson)."""
    g = ctx.api("thewalrus._hermite_multidimensional", "grad_hermite_multidimensional")
    rng = ctx.rng

    def table(A, D, c, renorm):
        return O.lhaf_table_renorm(A, D, c) if renorm else O.lhaf_table(A, D, c)

    for k in range(ctx.n(36, 250)):
        n = int(rng.integers(1, 4))
        c = _cuts(rng, n, 60)
        cplx = k % 2
        R = gen.sym(rng, n, "complex" if cplx else "real", 0.7).astype(complex)
        y = (rng.normal(size=n) + (1j * rng.normal(size=n) if cplx else 0)).astype(complex)
        C = 0.7 + (0.2j if cplx else 0)
        dR = gen.sym(rng, n, "complex" if cplx else "real", 1.0)
        dy = rng.normal(size=n) + (1j * rng.normal(size=n) if cplx else 0)
        with ctx.case(f"grad n={n} cut={c}"):
            for renorm in (True, False):
                # the tensor is a polynomial in t along the direction, of degree <= sum(cut): use exact
                # polynomial differentiation through roots of unity
                deg = sum(c)
                m = 1 << (deg + 1).bit_length()
                w = np.exp(2j * np.pi * np.arange(m) / m) * 0.5
                V = np.array([C * table(-(R + t * dR), y + t * dy, c, renorm) for t in w])
                want = np.tensordot(np.exp(-2j * np.pi * np.arange(m) / m), V, axes=1) / m / 0.5
                G = C * table(-R, y, c, renorm)
                dC, gR, gy = g(G.astype(complex), R, y, C=C, renorm=renorm)
                ctx.close("dG_dC", dC, G / C, rtol=1e-9)
                got = np.tensordot(gR, dR, axes=([-2, -1], [0, 1])) + gy @ dy
                ctx.close(f"dG_dR+dG_dy[{renorm}]", got, want, rtol=1e-7, scale=float(np.max(np.abs(V))))
                wy = np.array([C * table(-R, y + t * dy, c, renorm) for t in w])
                wanty = np.tensordot(np.exp(-2j * np.pi * np.arange(m) / m), wy, axes=1) / m / 0.5
                ctx.close(f"dG_dy[{renorm}]", gy @ dy, wanty, rtol=1e-7, scale=float(np.max(np.abs(wy))))
            ctx.nontrivial(R, y, c)


@section(must=("hermite_multidimensional", "hafnian_batched"), weight=2)
def beyond(ctx):
    """More modes and larger cutoffs: shuffled direct sums, whose tensors are outer products."""
    hm, hb = ctx.api("thewalrus.hermite_multidimensional"), ctx.api("thewalrus.hafnian_batched")
    rng = ctx.rng
    shapes = [(60, 45), (15, 14, 13), (150, 7), (3,) * 6, (2,) * 10, (4, 1, 5, 2, 3, 2), (2,) * 8, (8, 7, 6, 5), (3, 3, 3, 3, 3, 3, 3), (40, 2, 2, 3)]
    for k, c in enumerate(shapes * ctx.n(1, 5)):
        n = len(c)
        left, bl = n, []
        while left:
            bl.append(int(min(left, 1 if max(c) > 12 else rng.integers(1, 4))))
            left -= bl[-1]
        order = rng.permutation(n)
        cplx = k % 2
        As = [(rng.normal(size=(b, b)) + cplx * 1j * rng.normal(size=(b, b))) * 0.4 for b in bl]
        As = [a + a.T for a in As]
        mu = rng.normal(size=n) * 0.4 + cplx * 0.3j * rng.normal(size=n)
        # position p of the shuffled problem holds mode order[p] of the direct sum; cutoffs follow the position
        csum = np.empty(n, int)
        csum[order] = c
        msum = np.empty(n, mu.dtype)
        msum[order] = mu
        with ctx.case(f"outer product c={c} groups={bl}"):
            T, S = np.ones(()), np.ones(())
            i = 0
            for a, b in zip(As, bl):
                cc = tuple(int(x) for x in csum[i : i + b])
                T = np.multiply.outer(T, O.lhaf_table_renorm(a, msum[i : i + b], cc))
                S = np.multiply.outer(S, _table_scale(a, msum[i : i + b], cc, True))
                i += b
            T, S = T.transpose(order), S.transpose(order)
            A = O.direct_sum(As, order)
            carg = c if len(set(c)) > 1 or k % 2 else c[0]
            _elem(ctx, "outer product", hb(A, carg, mu=mu, renorm=True), T, S)
            _elem(ctx, "outer product[flat]", hm(-A, carg, y=mu, renorm=True, modified=True, make_tensor=False), T.reshape(-1), S.reshape(-1))
            if max(c) < 20:
                F = O.fact_norm(c)
                _elem(ctx, "outer product[plain]", hb(A, carg, mu=mu), T * F, S * F)
            ctx.nontrivial(A, mu, c)
