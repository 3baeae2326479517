"""C05: montrealers vs the cumulant definition, characteristic polynomials and power traces vs their definitions."""
from fractions import Fraction

import numpy as np

from vlib import gen, oracles as O
from vlib.core import section

MAT_KINDS = ("real", "complex", "zero", "identity", "nilpotent", "upper", "hessenberg", "diagonal", "defective", "lowrank",
             "zerocol", "symmetric", "hermitian", "companion", "permutation", "intvals", "block", "scaled",
             "imaginary", "skew", "mixed_imaginary", "negative")


def _mat(rng, n, kind):
    r = rng.normal(size=(n, n))
    c = r + 1j * rng.normal(size=(n, n))
    if kind == "real":
        return r
    if kind == "complex":
        return c
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "identity":
        return np.eye(n) * rng.normal()
    if kind == "nilpotent":
        return np.triu(c, 1)
    if kind == "upper":
        return np.triu(r)
    if kind == "hessenberg":
        return np.triu(c, -1)
    if kind == "diagonal":
        return np.diag(rng.normal(size=n))
    if kind == "defective":
        return np.eye(n) * 0.7 + np.diag(np.ones(max(n - 1, 0)), 1) if n else r
    if kind == "lowrank":
        return rng.normal(size=(n, 1)) @ rng.normal(size=(1, n)) if n else r
    if kind == "zerocol":
        c = c.copy()
        if n:
            c[:, rng.integers(n)] = 0
            c[1:, 0] = 0
        return c
    if kind == "symmetric":
        return r + r.T
    if kind == "hermitian":
        return c + c.conj().T
    if kind == "companion":
        m = np.zeros((n, n))
        if n:
            m[0] = rng.normal(size=n)
            m += np.diag(np.ones(n - 1), -1)
        return m
    if kind == "permutation":
        return np.eye(n)[rng.permutation(n)]
    if kind == "intvals":
        return rng.integers(-3, 4, size=(n, n)).astype(float)
    if kind == "block":
        m = c.copy()
        h = n // 2
        m[h:, :h] = 0
        return m
    if kind == "scaled":
        s = 10.0 ** rng.uniform(-3, 3)
        return s * r
    if kind == "imaginary":
        return 1j * r
    if kind == "skew":
        return r - r.T + (1j * (c.imag + c.imag.T) if n % 2 else 0)
    if kind == "mixed_imaginary":  # entries real or imaginary, with zeros
        return r * rng.choice([0, 1, 1j, -1j, -1], size=(n, n))
    if kind == "negative":
        return -np.abs(r)
    raise ValueError(kind)


def _traces(M, n):
    """tr M^k, k < n, in rational arithmetic for real data; and the scale tr |M|^k."""
    m = len(M)
    if m == 0:
        return [0.0] * n, [0.0] * n
    P, A = np.eye(m, dtype=np.clongdouble), np.eye(m)
    w, s = [], []
    aM = np.abs(M)
    Ml = M.astype(np.clongdouble)
    for k in range(n):
        w.append(complex(np.trace(P)))
        s.append(float(np.linalg.norm(A)) * np.sqrt(m))
        P, A = P @ Ml, A @ aM
    return w, s


def _faddeev(M):
    """Characteristic polynomial coefficients over exact rationals (real or complex entries)."""
    m = len(M)
    cplx = np.iscomplexobj(M)

    def mul(a, b):
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])

    A = [[(Fraction(float(np.real(x))), Fraction(float(np.imag(x)))) for x in row] for row in M]
    zero = (Fraction(0), Fraction(0))
    N = [[zero] * m for _ in range(m)]
    c = (Fraction(1), Fraction(0))
    out = []
    for k in range(1, m + 1):
        # N = A N + c I
        N = [[_dot(A[i], [N[l][j] for l in range(m)], mul) for j in range(m)] for i in range(m)]
        for i in range(m):
            N[i][i] = (N[i][i][0] + c[0], N[i][i][1] + c[1])
        tr = zero
        for i in range(m):
            d = _dot(A[i], [N[l][i] for l in range(m)], mul)
            tr = (tr[0] + d[0], tr[1] + d[1])
        c = (-tr[0] / k, -tr[1] / k)
        out.append(complex(c[0], c[1]) if cplx else float(c[0]))
    return np.array(out)


def _dot(u, v, mul):
    a, b = Fraction(0), Fraction(0)
    for x, y in zip(u, v):
        if (x[0] or x[1]) and (y[0] or y[1]):
            p = mul(x, y)
            a += p[0]
            b += p[1]
    return (a, b)


@section(must=("charpoly",), weight=2)
def characteristic(ctx):
    f = ctx.api("thewalrus.charpoly.charpoly")
    rng = ctx.rng
    for k in range(ctx.n(160, 900)):
        n = k % 9
        kind = MAT_KINDS[int(rng.integers(len(MAT_KINDS)))]
        M = _mat(rng, n, kind).astype(complex if k % 2 else _mat(rng, 1, kind).dtype)
        with ctx.case(f"charpoly n={n} {kind}"):
            B = np.array(M, order="C", copy=True)
            got = np.array(list(f(B)))
            want = _faddeev(M)
            ctx.check(got.shape == (n,), f"{n}x{n} matrix: {got.shape[0]} coefficients")
            nrm = np.linalg.norm(M, 2) if n else 0.0
            for i in range(n):
                # coefficient i+1 is bounded by binom(n,i+1) |M|^{i+1}
                from math import comb

                ctx.close("charpoly coefficient", got[i], want[i], rtol=1e-11 * n * n, atol=1e-300, scale=comb(n, i + 1) * nrm ** (i + 1))
            if n > 1:
                ctx.nontrivial(M)
            ctx.sample(n=n, kind=kind, coefficients=want)


@section(must=("powertrace",), weight=2)
def powertraces(ctx):
    f = ctx.api("thewalrus.charpoly.powertrace")
    rng = ctx.rng
    for k in range(ctx.n(240, 1600)):
        n = k % 9
        order = int(rng.integers(1, 2 * n + 8))
        kind = MAT_KINDS[int(rng.integers(len(MAT_KINDS)))]
        M = _mat(rng, n, kind).astype(complex if k % 2 else _mat(rng, 1, kind).dtype)
        with ctx.case(f"powertrace n={n} order={order} {kind}"):
            got = np.asarray(f(np.array(M, order="C", copy=True), order))
            w, s = _traces(M, order)
            if ctx.check(got.shape == (order,), f"order {order}: {got.shape} traces of a {n}x{n} matrix"):
                for i in range(order):
                    ctx.close("powertrace", got[i], w[i], rtol=1e-9, atol=1e-300, scale=max(s[i], abs(w[i])) * 10 ** (0.15 * max(0, i - n)))
            if n > 1 and order > 2:
                ctx.nontrivial(M, order)
            ctx.sample(n=n, order=order, kind=kind, traces=w[:5])


@section(must=("charpoly", "powertrace"), weight=2)
def larger(ctx):
    """Up to 24 rows: well-conditioned matrices, traces from the eigenvalues' powers, coefficients from exact rationals."""
    f, g = ctx.api("thewalrus.charpoly.powertrace"), ctx.api("thewalrus.charpoly.charpoly")
    rng = ctx.rng
    for k in range(ctx.n(24, 120)):
        n = 9 + k % 16
        style = k % 4
        if style == 0:  # spectrum near the unit circle: the recursion above the size neither grows nor decays
            Q = gen.haar(rng, n)
            M = Q @ np.diag(np.exp(2j * np.pi * rng.random(n)) * rng.uniform(0.8, 1.0, size=n)) @ Q.conj().T
        elif style == 1:
            M = gen.orth(rng, n) * rng.uniform(0.9, 1.0)
        elif style == 2:
            M = rng.normal(size=(n, n)) / np.sqrt(n)
        else:
            M = np.roll(np.diag(np.exp(0.3j * rng.normal(size=n))), 1, axis=0)  # weighted cycle: tr M^n is the product
        M = np.ascontiguousarray(M)
        order = n + 1 + int(rng.integers(0, 8))
        with ctx.case(f"larger powertrace n={n} order={order} style={style}"):
            w, s = _traces(M, order)
            got = np.asarray(f(M.copy(), order))
            if ctx.check(got.shape == (order,), f"order {order}: {got.shape} traces of a {n}x{n} matrix"):
                ctx.close("larger powertrace", got, np.array(w) if np.iscomplexobj(M) else np.real(w), rtol=1e-6, atol=1e-9, scale=n)
            if k % 2 == 0 and n <= 18:
                want = _faddeev(M)
                c = np.array(list(g(M.copy())))
                if ctx.check(c.shape == (n,), f"{len(c)} coefficients"):
                    from math import comb

                    nrm = np.linalg.norm(M, 2)
                    for i in range(n):
                        ctx.close("larger charpoly", c[i], want[i], rtol=1e-11 * n * n, atol=1e-300, scale=comb(n, i + 1) * nrm ** (i + 1))
            ctx.nontrivial(M, order)


@section(must=("mtl", "lmtl"), weight=2)
def montrealers(ctx):
    mtl = ctx.api("thewalrus.mtl")
    lmtl = ctx.api("thewalrus.lmtl")
    rng = ctx.rng
    for k in range(ctx.n(110, 700)):
        n = 1 + k % 5 if k % 13 else 6
        kind = ["state", "generic", "real", "pure", "ones", "zero", "sparse", "block"][int(rng.integers(8))]
        if kind in ("state", "pure"):
            mu, cov = gen.state(rng, n, 2.0, "pure" if kind == "pure" else None, disp=True)
            al, N, M = O.a_moments(mu, cov, 2.0)
            A = np.block([[M, N.T], [N, M.conj()]])
            b = np.concatenate([al, al.conj()])
        else:
            kk = {"generic": "complex", "real": "real", "ones": "ones", "zero": "zero", "sparse": "sparse", "block": "block"}[kind]
            A = gen.sym(rng, 2 * n, kk)
            c = rng.normal(size=n) + 1j * rng.normal(size=n)
            b = np.concatenate([c, c.conj()])
        if kind == "real" or k % 5 == 0 and np.isrealobj(A):
            b = b.real.copy()
        if k % 7 == 0:
            b = np.zeros_like(b)
        dt = np.result_type(A.dtype, b.dtype, float)
        A, b = np.ascontiguousarray(A.astype(dt)), b.astype(dt)
        with ctx.case(f"mtl n={n} {kind}"):
            aA = np.abs(A)
            sc = abs(_mtl_scale(aA, None, n)) + 1e-30
            ctx.close("mtl", mtl(A.copy()), O.mtl(A), rtol=1e-10 * 4**n, scale=sc, atol=1e-300)
            scl = abs(_mtl_scale(aA, np.abs(b), n)) + 1e-30
            # loops l = conj(zeta) with l = (b, b*)
            ctx.close("lmtl", lmtl(A.copy(), b.conj()), O.mtl(A, b), rtol=1e-10 * 4**n, scale=scl,
                      atol=1e-14 * (4 * (1 + float(np.linalg.norm(b)) ** 2)) ** n)
            if n > 1 and kind != "zero":
                ctx.nontrivial(A, b)
            ctx.sample(n=n, kind=kind, mtl=O.mtl(A), lmtl=O.mtl(A, b))


def _mtl_scale(aA, ab, n):
    s = float(np.max(aA)) if aA.size else 0.0
    nrm = np.linalg.norm(aA)
    out = (nrm**n) * 2**n
    if ab is not None:
        out += np.linalg.norm(ab) ** 2 * nrm ** (n - 1) * 2**n
    return max(out, s)


@section(must=("mtl",))
def reference(ctx):
    """Pure-python montrealer: any scalar type, single-cycle matchings of any symmetric matrix."""
    f = ctx.api("thewalrus.reference.mtl")
    rng = ctx.rng
    for k in range(ctx.n(60, 300)):
        n = 1 + k % 4
        kind = ["int", "real", "complex", "binary", "sparse"][k % 5]
        A = gen.sym(rng, 2 * n, kind)
        with ctx.case(f"reference.mtl n={n} {kind}"):
            ctx.close("reference mtl", f(A.copy()), O.mtl(A), rtol=1e-10, scale=_mtl_scale(np.abs(A), None, n) + 1e-9)
            ctx.close("reference lmtl", f(A.copy(), loop=True), O.mtl(A, np.diag(A)), rtol=1e-10,
                      scale=_mtl_scale(np.abs(A), np.abs(np.diag(A)), n) + 1e-9)
            if n > 1:
                ctx.nontrivial(A)


@section(must=("photon_number_cumulant", "lmtl", "click_cumulant"), weight=2)
def cumulants(ctx):
    """Photon-number and click cumulants of Gaussian states: library cumulants, library montrealers, oracle moments."""
    pnc = ctx.api("thewalrus.quantum.photon_number_cumulant")
    cc = ctx.api("thewalrus.quantum.click_cumulant")
    lmtl = ctx.api("thewalrus.lmtl")
    mtl = ctx.api("thewalrus.mtl")
    rng = ctx.rng
    for k in range(ctx.n(50, 300)):
        n = 1 + k % 4
        hbar = gen.hbar_of(rng)
        mu, cov = gen.state(rng, n, hbar, gen.STATE_KINDS[k % len(gen.STATE_KINDS)], disp=bool(k % 3))
        with ctx.case(f"cumulants n={n} hbar={hbar}"):
            al, N, M = O.a_moments(mu, cov, hbar)
            # distinct modes: the ordinary joint cumulant is the normally ordered one = loop montrealer
            m = int(rng.integers(1, n + 1))
            modes = [int(x) for x in rng.permutation(n)[:m]]
            ix = np.array(modes)
            A = np.block([[M[np.ix_(ix, ix)], N.T[np.ix_(ix, ix)]], [N[np.ix_(ix, ix)], M.conj()[np.ix_(ix, ix)]]])
            b = np.concatenate([al[ix], al[ix].conj()])
            want = O.mtl(A, b)
            want = want.real if isinstance(want, complex) else want
            sc = _mtl_scale(np.abs(A), np.abs(b), m) + (abs(want))
            ctx.close("lmtl of the state", lmtl(np.ascontiguousarray(A.astype(complex)), b.conj()), want, rtol=1e-9, scale=sc)
            ctx.close("photon_number_cumulant distinct", pnc(mu, cov, modes, hbar=hbar), want, rtol=1e-8, scale=sc)
            # repetitions: from oracle moments
            order = int(rng.integers(1, 5))
            rep = [int(x) for x in rng.integers(0, n, size=order)]

            def mom(ix_):
                p = [0] * n
                for i in ix_:
                    p[i] += 1
                return float(O.moments_from_genfun(mu, cov, hbar, p))

            w = O.joint_cumulant(mom, rep)
            sc2 = abs(mom(tuple(rep))) + max(mom((i,)) for i in rep) ** order + 1
            arg = np.array(rep) if k % 2 else rep
            ctx.close("photon_number_cumulant", pnc(mu, cov, arg, hbar=hbar), w, rtol=1e-8, scale=sc2)
            if k % 3 == 0:
                ctx.close("mtl zero displacement", mtl(np.ascontiguousarray(A.astype(complex))), O.mtl(A), rtol=1e-9, scale=sc)

            def cmom(ix_):
                s = sorted(set(ix_))
                return O.click_prob(*O.reduced(mu, cov, s), hbar, [1] * len(s))

            ctx.close("click_cumulant", cc(mu, cov, modes, hbar=hbar), O.joint_cumulant(cmom, modes), rtol=1e-8, atol=1e-9, scale=1)
            ctx.nontrivial(mu, cov, rep, hbar)
            ctx.sample(modes=modes, want=want, rep=rep, w=w)


@section(must=("mtl", "lmtl", "photon_number_cumulant"), weight=2)
def beyond(ctx):
    """6-10 modes: montrealers against sums over single cycles and paths, split states in closed form, direct sums (zero)."""
    from math import factorial

    mtl, lmtl, pnc, ref = (ctx.api(x) for x in ("thewalrus.mtl", "thewalrus.lmtl", "thewalrus.quantum.photon_number_cumulant", "thewalrus.reference.mtl"))
    rng = ctx.rng
    for k in range(ctx.n(56, 400)):
        n = (6, 7, 8, 10, 9, 7, 6)[k % 7]
        kind = ["complex", "state", "real", "cycle", "split", "apart", "sparse", "ones"][k % 8]
        b = rng.normal(size=n) + 1j * rng.normal(size=n)
        if kind == "state":
            mu, cov = gen.state(rng, n, 2.0, None, disp=True)
            al, N, M = O.a_moments(mu, cov, 2.0)
            A, b = np.block([[M, N.T], [N, M.conj()]]), al
        elif kind == "cycle":  # only the edges of one cycle (and its chords to nowhere): one term
            A = np.zeros((2 * n, 2 * n), complex)
            o, side = rng.permutation(n), rng.integers(0, 2, size=n)
            for i in range(n):
                u, v = o[i] + n * side[i], o[(i + 1) % n] + n * (1 - side[(i + 1) % n])
                A[u, v] = A[v, u] = rng.uniform(0.5, 1.5) * np.exp(2j * np.pi * rng.random())
        elif kind in ("split", "apart"):
            A = np.zeros((2 * n, 2 * n), complex)
        else:
            A = gen.sym(rng, 2 * n, kind)
        with ctx.case(f"{n} modes, {kind}"):
            if kind == "split":  # a thermal state on a beamsplitter tree: cumulant (n-1)! prod |u_i|^2 N^n
                hbar = gen.hbar_of(rng)
                u = gen.haar(rng, n)[:, 0]
                nb = float(rng.uniform(0.5, 3))
                N = nb * np.outer(u.conj(), u)
                A = np.block([[np.zeros((n, n)), N.T], [N, np.zeros((n, n))]])
                want = factorial(n - 1) * np.prod(np.abs(u) ** 2) * nb**n
                V = np.eye(2 * n) * hbar / 2 + hbar * np.block([[N.real, N.imag], [-N.imag, N.real]])
                order = [int(x) for x in rng.permutation(n)]
                if n < 8:
                    ctx.close("cumulant of a split thermal state", pnc(np.zeros(2 * n), V, order, hbar=hbar), want, rtol=1e-8, scale=want)
                ctx.close("mtl of a split thermal state", mtl(np.ascontiguousarray(A)), want, rtol=1e-8, scale=want)
            elif kind == "apart":  # uncorrelated groups: no cycle can join them
                hbar = gen.hbar_of(rng)
                gs = gen.sizes(rng, n, 4)
                while len(gs) < 2:
                    gs = gen.sizes(rng, n, 4)
                mu, cov = gen.join([gen.state(rng, g, hbar, disp=True, rmax=0.6, dmax=0.7) for g in gs], rng.permutation(n))
                al, N, M = O.a_moments(mu, cov, hbar)
                A, b = np.ascontiguousarray(np.block([[M, N.T], [N, M.conj()]])), al
                sc = (1 + np.abs(A).sum(1).max() + np.linalg.norm(b) ** 2) ** n
                z = np.concatenate([b, b.conj()])
                ctx.close("lmtl of uncorrelated groups", lmtl(A.copy(), z.conj()), 0, rtol=0, atol=1e-12 * sc)
                if n < 8 and k % 16 == 5:
                    ctx.close("cumulant of uncorrelated groups", pnc(mu, cov, [int(x) for x in rng.permutation(n)], hbar=hbar), 0, rtol=0, atol=1e-12 * sc)
            else:
                z = np.concatenate([b, b.conj()])
                dt = np.result_type(A.dtype, float)
                A = np.ascontiguousarray(A.astype(dt))
                if dt == float:
                    z = z.real.copy()
                w, sc = O.mtl_paths(A)
                ctx.close("mtl", mtl(A.copy()), w, rtol=1e-10, scale=sc + 1e-30)
                w, sc = O.mtl_paths(A, z)
                ctx.close("lmtl", lmtl(A.copy(), z.conj()), w, rtol=1e-9, scale=sc + 1e-30)
                if n == 6 and k % 3 == 0:
                    B = A.copy()
                    np.fill_diagonal(B, z)
                    ctx.close("reference lmtl", ref(B, loop=True), w, rtol=1e-10, scale=sc)
            ctx.nontrivial(A, b)
