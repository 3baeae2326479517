"""C11: symplectic gates, embeddings, reorderings and channels vs Bogoliubov maps, index maps and Stinespring dilations."""
import numpy as np
import scipy.sparse as sp

from vlib import gen
from vlib import forms
from vlib.core import section

S_ = "thewalrus.symplectic."


def omega(n):
    z, i = np.zeros((n, n)), np.eye(n)
    return np.block([[z, i], [-i, z]])


def bogo(al, be):
    """xxpp matrix of a -> al a + be a^dagger."""
    al, be = np.atleast_2d(al), np.atleast_2d(be)
    return np.block([[(al + be).real, -(al - be).imag], [(al + be).imag, (al - be).real]])


def embed(M, modes, N):
    """M acting on the quadratures of the listed modes, identity on the others (explicit loops)."""
    m = len(modes)
    out = np.eye(2 * N, dtype=np.result_type(M, float))
    for a in range(m):
        for b in range(m):
            for s in (0, 1):
                for t in (0, 1):
                    out[modes[a] + s * N, modes[b] + t * N] = M[a + s * m, b + t * m]
    return out


def symp(ctx, what, M):
    n = len(M) // 2
    M = np.asarray(M, float)
    ctx.close(f"{what} symplectic", M @ omega(n) @ M.T, omega(n), rtol=1e-9, scale=max(1, np.abs(M).max() ** 2))


def dt_tol(dt):
    return 1e-12 if dt is np.float64 else 2e-6


@section(must=("squeezing", "two_mode_squeezing", "beam_splitter", "rotation", "interferometer"))
def gates(ctx):
    sq, tms, bs = ctx.api(S_ + "squeezing"), ctx.api(S_ + "two_mode_squeezing"), ctx.api(S_ + "beam_splitter")
    rot, itf, smat = ctx.api(S_ + "rotation"), ctx.api(S_ + "interferometer"), ctx.api(S_ + "sympmat")
    iss, vs = ctx.api(S_ + "is_symplectic"), ctx.api(S_ + "vacuum_state")
    rng = ctx.rng
    special = np.array([0, np.pi / 2, np.pi, -np.pi / 2, np.pi / 4, 2 * np.pi])

    def angle():
        return float(rng.choice(special)) if rng.random() < 0.3 else float(rng.uniform(-7, 7))

    for k in range(ctx.n(500, 5000)):
        dt = [np.float64, np.float64, np.float32][k % 3]
        tol = dt_tol(dt)
        kw = {} if k % 6 == 0 else {"dtype": dt}
        tol = 1e-12 if not kw else tol
        r, th, ph, ph2 = float(rng.uniform(-1.5, 1.5)), angle(), angle(), angle()
        if k % 17 == 0:
            r = 0.0
        with ctx.case(f"gates r={r:.4f} theta={th:.4f} phi={ph:.4f} dtype={dt.__name__ if kw else 'default'}"):
            e = np.exp(1j * ph)
            got = sq(r, ph, **kw)
            ctx.close("squeezing", got, bogo(np.cosh(r), -e * np.sinh(r)), rtol=tol, atol=tol)
            if kw:
                vac = vs(2, **kw)
                for nm, M in (("squeezing", got), ("two_mode_squeezing", tms(r, ph, **kw)), ("beam_splitter", bs(th, ph, **kw)), ("rotation", rot(th, **kw)),
                              ("sympmat", smat(2, **kw)), ("means of the vacuum", vac[0]), ("covariance of the vacuum", vac[1])):
                    ctx.check(M.dtype == dt, f"{nm}: data type {M.dtype}, asked for {np.dtype(dt)}")
            ctx.close("squeezing phi default", sq(r, **kw), bogo(np.cosh(r), -np.sinh(r)), rtol=tol, atol=tol)
            ctx.close("two_mode_squeezing", tms(r, ph, **kw), bogo(np.cosh(r) * np.eye(2), e * np.sinh(r) * np.array([[0, 1], [1, 0]])), rtol=tol, atol=tol)
            U = np.array([[np.cos(th), -np.conj(e) * np.sin(th)], [e * np.sin(th), np.cos(th)]])
            B = bs(th, ph, **kw)
            ctx.close("beam_splitter", B, bogo(U, np.zeros((2, 2))), rtol=tol, atol=tol)
            ctx.close("beam_splitter orthogonal", B @ B.T, np.eye(4), rtol=tol, atol=4 * tol)
            ctx.close("rotation", rot(th, **kw), bogo([[np.exp(1j * th)]], [[0]]), rtol=tol, atol=tol)
            # one-parameter groups
            r2 = float(rng.uniform(-1, 1))
            sc = np.exp(abs(r) + abs(r2))
            ctx.close("squeezing adds up", sq(r, ph, **kw) @ sq(r2, ph, **kw), sq(r + r2, ph, **kw), rtol=10 * tol, scale=sc)
            ctx.close("two-mode squeezing adds up", tms(r, ph, **kw) @ tms(r2, ph, **kw), tms(r + r2, ph, **kw), rtol=10 * tol, scale=sc)
            ctx.close("beam splitter adds up", bs(th, ph, **kw) @ bs(ph2, ph, **kw), bs(th + ph2, ph, **kw), rtol=0, atol=20 * tol)
            ctx.close("rotation adds up", rot(th, **kw) @ rot(ph2, **kw), rot(th + ph2, **kw), rtol=0, atol=20 * tol)
            # arrays of squeezing parameters
            n = int(rng.integers(1, 7))
            rs, ps = rng.uniform(-1, 1, size=n), rng.uniform(-7, 7, size=n)
            mode = k % 3
            want_ph = ps if mode == 0 else (np.zeros(n) if mode == 1 else np.full(n, ps[0]))
            args = (rs, ps) if mode == 0 else ((rs,) if mode == 1 else (rs, float(ps[0])))
            if k % 5 == 0 and mode != 2:
                args = tuple(list(map(float, a)) for a in args)
            ctx.close("squeezing array", sq(*args), bogo(np.diag(np.cosh(rs)), np.diag(-np.exp(1j * want_ph) * np.sinh(rs))), rtol=1e-12, atol=1e-12)
            V = gen.haar(rng, n)
            S = itf(gen.layout(rng, V))
            ctx.close("interferometer", S, bogo(V, np.zeros((n, n))), rtol=1e-12, atol=1e-13)
            symp(ctx, "interferometer", S)
            W = gen.haar(rng, n)
            ctx.close("interferometer homomorphism", itf(V) @ itf(W), itf(V @ W), rtol=0, atol=1e-11)
            O = gen.orth(rng, n)
            ctx.close("real interferometer", itf(O), bogo(O, np.zeros((n, n))), rtol=1e-12, atol=1e-13)
            ctx.close("sympmat", smat(n), omega(n), rtol=0, atol=0)
            # classification by is_symplectic
            G = gen.symplectic(rng, n, 0.8)
            ctx.check(bool(iss(G)), "is_symplectic rejects a symplectic matrix")
            H = G.copy()
            i, j = int(rng.integers(2 * n)), int(rng.integers(2 * n))
            H[i, j] += float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-3, 0)
            dev = np.abs(H.T @ omega(n) @ H - omega(n)).max()
            if dev > 1e-4:
                ctx.check(not bool(iss(H)), f"is_symplectic accepts a matrix that violates the condition by {dev:.2g}")
            if n > 1:
                ctx.nontrivial(rs, ps, r, th, ph)
            ctx.sample(r=r, theta=th, phi=ph, n=n)


FORMATS = ("dense", "csr_array", "csc_array", "coo_array", "lil_array", "dok_array", "dia_array", "bsr_array", "csr_matrix",
           "csc_matrix", "coo_matrix", "lil_matrix", "dok_matrix", "dia_matrix", "bsr_matrix")


@section(must=("expand", "expand_vector", "expand_passive", "vacuum_state"))
def embeddings(ctx):
    ex, ev, ep = ctx.api(S_ + "expand"), ctx.api(S_ + "expand_vector"), ctx.api(S_ + "expand_passive")
    itf, vac = ctx.api(S_ + "interferometer"), ctx.api(S_ + "vacuum_state")
    rng = ctx.rng
    for k in range(ctx.n(900, 8000)):
        N = int(rng.integers(1, 8))
        fmt = FORMATS[k % len(FORMATS)]
        with ctx.case(f"expand N={N} {fmt} #{k}"):
            m = int(rng.integers(1, N + 1))
            modes = [int(x) for x in rng.permutation(N)[:m]]
            one = k % 3 == 0
            S = gen.symplectic(rng, 1 if one else m, 0.8, ["generic", "diagonal", "partial"][k % 3])
            if k % 11 == 0:
                S = np.round(S).astype(np.int64)
            elif k % 13 == 0:
                S = S + 1j * rng.normal(size=S.shape)
            arg = gen.layout(rng, S) if fmt == "dense" else getattr(sp, fmt)(S)
            marg = [modes, tuple(modes), np.array(modes)][k % 3 - 1] if not (one and m == 1) else modes[0]
            got = ex(arg, marg, N)
            if fmt != "dense":
                ctx.check(sp.issparse(got), "expand of a sparse matrix is not sparse")
                got = got.toarray() if sp.issparse(got) else got
            want = embed(S, modes, N) if not one else None
            if one:
                want = np.eye(2 * N, dtype=np.result_type(S, float))
                for i in modes:
                    want = want @ embed(S, [i], N)
            ctx.close("expand", got, want, rtol=1e-14, atol=1e-14)
            # displacement vectors
            hb = gen.hbar_of(rng)
            mode = int(rng.integers(N))
            for al in (complex(rng.normal(), rng.normal()), float(rng.normal()), int(rng.integers(-4, 5)), np.complex128(rng.normal() + 2j), np.float64(0.7), np.int64(3)):
                v = np.zeros(2 * N)
                v[mode], v[N + mode] = np.sqrt(2 * hb) * al.real, np.sqrt(2 * hb) * al.imag
                ctx.close(f"expand_vector {type(al).__name__}", ev(al, mode, N, hb) if k % 2 else ev(al, mode, N, hbar=hb), v, rtol=1e-13, atol=1e-13)
            # passive
            T = gen.haar(rng, m) if k % 2 else rng.normal(size=(m, m)) * 0.3 + 0.2j
            E = ep(T, [modes, tuple(modes), np.array(modes)][k % 3], N)
            W = np.eye(N, dtype=complex)
            for a in range(m):
                for b in range(m):
                    W[modes[a], modes[b]] = T[a, b]
            ctx.close("expand_passive", E, W, rtol=1e-14, atol=1e-14)
            if m > 1:
                ctx.close("expand_passive vs expand", ex(itf(T), modes, N), itf(E), rtol=1e-14, atol=1e-14)
            mu, cov = vac(N, hbar=hb) if k % 2 else vac(N)
            h = hb if k % 2 else 2.0
            ctx.close("vacuum means", mu, np.zeros(2 * N), rtol=0, atol=0)
            ctx.close("vacuum covariance", cov, np.eye(2 * N) * h / 2, rtol=1e-14)
            if N > 1:
                ctx.nontrivial(S, modes, N, fmt)
            ctx.sample(N=N, modes=modes, fmt=fmt)


@section(must=("xxpp_to_xpxp", "xpxp_to_xxpp"))
def reorderings(ctx):
    a, b = ctx.api(S_ + "xxpp_to_xpxp"), ctx.api(S_ + "xpxp_to_xxpp")
    rng = ctx.rng
    for k in range(ctx.n(400, 4000)):
        n = int(rng.integers(1, 10))
        with ctx.case(f"reorder n={n} #{k}"):
            M = rng.normal(size=(2 * n, 2 * n))
            if k % 3 == 1:
                M = M + 1j * rng.normal(size=M.shape)
            v = rng.normal(size=2 * n) if k % 4 else rng.integers(-9, 9, size=2 * n)
            P = np.zeros((2 * n, 2 * n))
            for i in range(n):
                P[2 * i, i] = 1
                P[2 * i + 1, n + i] = 1
            M0 = gen.layout(rng, M)
            ctx.close("xxpp_to_xpxp matrix", a(M0), P @ M @ P.T, rtol=0, atol=1e-14)
            ctx.close("xpxp_to_xxpp matrix", b(M0), P.T @ M @ P, rtol=0, atol=1e-14)
            ctx.close("xxpp_to_xpxp vector", a(v), P @ v, rtol=0, atol=1e-14)
            ctx.close("xpxp_to_xxpp vector", b(v), P.T @ v, rtol=0, atol=1e-14)
            ctx.close("inverse (matrix)", b(a(M)), M, rtol=0, atol=0)
            ctx.close("inverse (matrix, other order)", a(b(M)), M, rtol=0, atol=0)
            ctx.close("inverse (vector)", b(a(v)), v, rtol=0, atol=0)
            ctx.close("inverse (vector, other order)", a(b(v)), v, rtol=0, atol=0)
            if n > 2:
                ctx.nontrivial(M)


def dilate(T):
    """Unitary on outputs+environment whose upper left block is T (T any contraction, M x N)."""
    M, N = T.shape
    u, s, vh = np.linalg.svd(T, full_matrices=True)
    K = M + N
    Sg = np.zeros((M, N))
    Sg[: len(s), : len(s)] = np.diag(s)
    s = np.clip(s, 0, 1)
    a = np.zeros((M, M))
    b = np.zeros((N, N))
    a[: len(s), : len(s)] = np.diag(np.sqrt(1 - s**2))
    b[: len(s), : len(s)] = np.diag(np.sqrt(1 - s**2))
    for i in range(len(s), M):
        a[i, i] = 1
    for i in range(len(s), N):
        b[i, i] = 1
    W = np.block([[Sg, a], [b, -Sg.T]])
    L = np.zeros((K, K), complex)
    L[:M, :M], L[M:, M:] = u, np.eye(N)
    R = np.zeros((K, K), complex)
    R[:N, :N], R[N:, N:] = vh, np.eye(M)
    return L @ W @ R


def take(mu, cov, modes):
    n = len(mu) // 2
    ix = list(modes) + [m + n for m in modes]
    return np.array([mu[i] for i in ix]), np.array([[cov[i, j] for j in ix] for i in ix])


def join(mu1, cov1, mu2, cov2):
    n1, n2 = len(mu1) // 2, len(mu2) // 2
    mu = np.concatenate([mu1[:n1], mu2[:n2], mu1[n1:], mu2[n2:]])
    N = n1 + n2
    cov = np.zeros((2 * N, 2 * N))
    i1 = list(range(n1)) + [N + k for k in range(n1)]
    i2 = [n1 + k for k in range(n2)] + [N + n1 + k for k in range(n2)]
    cov[np.ix_(i1, i1)] = cov1
    cov[np.ix_(i2, i2)] = cov2
    return mu, cov


def photons(mu, cov, hb):
    n = len(mu) // 2
    return np.array([(cov[i, i] + cov[i + n, i + n] + mu[i] ** 2 + mu[i + n] ** 2) / (2 * hb) - 0.5 for i in range(n)])


def physical(ctx, what, cov, hb):
    n = len(cov) // 2
    ctx.close(f"{what}: symmetric", cov, cov.T, rtol=1e-12)
    w = np.linalg.eigvalsh((cov + cov.T) / 2 + 0.5j * hb * omega(n)).min()
    ctx.check(w > -1e-9 * max(1, np.abs(cov).max()), f"{what}: not a physical covariance matrix ({w:.3g})")


@section(must=("loss", "passive_transformation", "reduced_state", "reduced_gaussian"), weight=2)
def channels(ctx):
    loss, pt = ctx.api(S_ + "loss"), ctx.api(S_ + "passive_transformation")
    rs, rg = ctx.api(S_ + "reduced_state"), ctx.api("thewalrus.quantum.reduced_gaussian")
    mpn = ctx.api(S_ + "mean_photon_number")
    rng = ctx.rng
    for k in range(ctx.n(600, 6000)):
        n = 1 + int(rng.integers(6))
        hb = gen.hbar_of(rng)
        mu, cov = gen.state(rng, n, hb, rmax=1.1, dmax=2)
        with ctx.case(f"channels n={n} hbar={hb} #{k}"):
            # loss with a thermal environment
            T = float(rng.choice([0.0, 1.0, rng.random(), rng.random()]))
            m = int(rng.integers(n))
            nb = float(rng.choice([0.0, rng.uniform(0, 2)]))
            kw = {"hbar": hb}
            if nb or k % 2:
                kw["nbar"] = nb
            mu1, cov1 = loss(mu, cov, T, m, **kw)
            muj, covj = join(mu, cov, np.zeros(2), np.eye(2) * (2 * nb + 1) * hb / 2)
            c, s = np.sqrt(T), np.sqrt(1 - T)
            B = embed(bogo(np.array([[c, -s], [s, c]]), np.zeros((2, 2))), [m, n], n + 1)
            wm, wc = take(B @ muj, B @ covj @ B.T, range(n))
            sc = np.abs(cov).max() + hb * (nb + 1)
            ctx.close("loss means", mu1, wm, rtol=1e-12, scale=np.abs(mu).max() + 1)
            ctx.close("loss covariance", cov1, wc, rtol=1e-12, scale=sc)
            physical(ctx, "loss", cov1, hb)
            p0, p1 = photons(mu, cov, hb), photons(np.asarray(mu1), np.asarray(cov1), hb)
            p0[m] = T * p0[m] + (1 - T) * nb
            ctx.close("mean photons after loss", p1, p0, rtol=1e-10, scale=sc / hb + np.abs(mu).max() ** 2 / hb)
            # composition
            T2 = float(rng.random())
            a = loss(*loss(mu, cov, T, m, hbar=hb), T2, m, hbar=hb)
            b = loss(mu, cov, T * T2, m, hbar=hb)
            ctx.close("losses compose (means)", a[0], b[0], rtol=1e-11, scale=np.abs(mu).max() + 1)
            ctx.close("losses compose", a[1], b[1], rtol=1e-11, scale=sc)
            # reduced states in any order of the modes
            q = int(rng.integers(1, n + 1))
            modes = [int(x) for x in rng.permutation(n)[:q]]
            rm, rc = take(mu, cov, modes)
            for nm, f in (("reduced_state", rs), ("reduced_gaussian", rg)):
                arg = [modes, tuple(modes), np.array(modes)][k % 3]
                if q == 1 and k % 2:
                    arg = modes[0]
                x, y = f(mu, cov, arg)
                ctx.close(f"{nm} means {modes} of {n}", x, rm, rtol=0, atol=0)
                ctx.close(f"{nm} covariance {modes} of {n}", y, rc, rtol=0, atol=0)
                x, y = f(mu, cov, range(n))
                ctx.close(f"{nm} of all modes", y, cov, rtol=0, atol=0)
            others = [x for x in modes if x != m]
            if others:
                x, y = take(np.asarray(mu1), np.asarray(cov1), others)
                z, w = take(mu, cov, others)
                ctx.close("loss leaves the reduced state of other modes", y, w, rtol=1e-13)
                ctx.close("loss leaves the means of other modes", x, z, rtol=1e-13, atol=1e-13)
            x, y = rs(mu1, cov1, modes)
            if m in modes:
                z, w = loss(rm, rc, T, modes.index(m), **kw)
                ctx.close("loss commutes with reduction (means)", x, z, rtol=1e-12, atol=1e-12)
                ctx.close("loss commutes with reduction", y, w, rtol=1e-12, scale=sc)
            # arbitrary passive channel M x N
            M = int(rng.integers(1, 6))
            A = gen.haar(rng, max(n, M))[:M, :n]
            if k % 3:
                A = A * np.sqrt(rng.uniform(0, 1, size=n)) if k % 3 == 1 else A * np.sqrt(rng.uniform(0, 1, size=(M, 1)))
            mu2, cov2 = pt(mu, cov, A, hbar=hb)
            Wd = dilate(A)
            muj, covj = join(mu, cov, np.zeros(2 * M), np.eye(2 * M) * hb / 2)
            Bd = bogo(Wd, np.zeros_like(Wd))
            wm, wc = take(Bd @ muj, Bd @ covj @ Bd.T, range(M))
            ctx.close("passive_transformation means", mu2, wm, rtol=1e-10, scale=np.abs(mu).max() + 1)
            ctx.close("passive_transformation covariance", cov2, wc, rtol=1e-10, scale=sc)
            physical(ctx, "passive_transformation", cov2, hb)
            A2 = gen.haar(rng, 5)[: int(rng.integers(1, 6)), :M] * 0.9
            c1 = pt(mu2, cov2, A2, hbar=hb)
            c2 = pt(mu, cov, A2 @ A, hbar=hb)
            ctx.close("channels compose (means)", c1[0], c2[0], rtol=1e-10, scale=np.abs(mu).max() + 1)
            ctx.close("channels compose", c1[1], c2[1], rtol=1e-10, scale=sc)
            # loss of one mode is a diagonal passive channel
            d = np.ones(n)
            d[m] = np.sqrt(T)
            l0 = loss(mu, cov, T, m, hbar=hb)
            l1 = pt(mu, cov, np.diag(d), hbar=hb)
            ctx.close("loss vs passive channel", l0[1], l1[1], rtol=1e-11, scale=sc)
            # one-mode photon statistics
            x, y = take(mu, cov, [m])
            mean, var = mpn(x, y, hbar=hb)
            wm = photons(x, y, hb)[0]
            wv = (np.sum(y * y) + 2 * sum(x[i] * y[i, j] * x[j] for i in (0, 1) for j in (0, 1))) / (2 * hb**2) - 0.25
            ctx.close("mean_photon_number", mean, wm, rtol=1e-11, scale=abs(wm) + 1)
            ctx.close("photon number variance", var, wv, rtol=1e-11, scale=abs(wv) + 1)
            if n > 1:
                ctx.nontrivial(mu, cov, A, modes)
            ctx.sample(n=n, hbar=hb, T=T, nbar=nb, modes=modes, out_modes=M)


@section(must=("expand", "loss"))
def circuits(ctx):
    """Random circuits: gates embedded one by one against one global Bogoliubov/dilation computation."""
    ex, sq, bs, tms, rot = (ctx.api(S_ + x) for x in ("expand", "squeezing", "beam_splitter", "two_mode_squeezing", "rotation"))
    ev, loss, vac = ctx.api(S_ + "expand_vector"), ctx.api(S_ + "loss"), ctx.api(S_ + "vacuum_state")
    rng = ctx.rng
    for k in range(ctx.n(150, 1500)):
        N = int(rng.integers(2, 6))
        hb = gen.hbar_of(rng)
        L = int(rng.integers(3, 12))
        with ctx.case(f"circuit N={N} length {L} hbar={hb}"):
            mu, cov = vac(N, hbar=hb)
            # oracle: moments <a>, <a a>, <a^dag a> evolved directly
            al = np.zeros(N, complex)
            Mm = np.zeros((N, N), complex)  # <da_i da_j>
            Nn = np.zeros((N, N), complex)  # <da_i^dag da_j>
            for _ in range(L):
                g = int(rng.integers(6))
                i, j = (int(x) for x in rng.permutation(N)[:2])
                r, th, ph = rng.uniform(-0.8, 0.8), rng.uniform(0, 6), rng.uniform(0, 6)
                A, Bq = np.eye(N, dtype=complex), np.zeros((N, N), complex)
                if g == 0:
                    S = ex(sq(r, ph), i, N)
                    A[i, i], Bq[i, i] = np.cosh(r), -np.exp(1j * ph) * np.sinh(r)
                elif g == 1:
                    S = ex(bs(th, ph), [i, j], N)
                    A[i, i] = A[j, j] = np.cos(th)
                    A[i, j], A[j, i] = -np.exp(-1j * ph) * np.sin(th), np.exp(1j * ph) * np.sin(th)
                elif g == 2:
                    S = ex(tms(r, ph), [i, j], N)
                    A[i, i] = A[j, j] = np.cosh(r)
                    Bq[i, j] = Bq[j, i] = np.exp(1j * ph) * np.sinh(r)
                elif g == 3:
                    S = ex(rot(th), [i], N)
                    A[i, i] = np.exp(1j * th)
                elif g == 4:
                    b = complex(rng.normal(), rng.normal())
                    mu = mu + np.real(ev(b, i, N, hb))
                    al[i] += b
                    continue
                else:
                    T = float(rng.random())
                    mu, cov = loss(mu, cov, T, i, hbar=hb)
                    al[i] *= np.sqrt(T)
                    D = np.ones(N)
                    D[i] = np.sqrt(T)
                    Mm, Nn = Mm * np.outer(D, D), Nn * np.outer(D, D)
                    continue
                mu, cov = S @ mu, S @ cov @ S.T
                al = A @ al + Bq @ al.conj()
                I = np.eye(N)
                # <da da^T>, with da' = A da + B da*
                M2 = A @ Mm @ A.T + A @ (Nn.T + I) @ Bq.T + Bq @ Nn @ A.T + Bq @ Mm.conj() @ Bq.T
                Ac, Bc = A.conj(), Bq.conj()
                # <da'^dag_i da'_j>, da'^dag = A* da^dag + B* da
                N2 = Ac @ Nn @ A.T + Ac @ Mm.conj() @ Bq.T + Bc @ Mm @ A.T + Bc @ (Nn.T + I) @ Bq.T
                Mm, Nn = M2, N2
            X = hb / 2 * (2 * (Nn.real + Mm.real) + np.eye(N))
            Pq = hb / 2 * (2 * (Nn.real - Mm.real) + np.eye(N))
            XP = hb / 2 * 2 * (Mm.imag + Nn.imag)
            want = np.block([[X, XP], [XP.T, Pq]])
            sc = np.abs(want).max() + 1
            ctx.close("circuit means", mu, np.sqrt(2 * hb) * np.concatenate([al.real, al.imag]), rtol=1e-10, scale=sc)
            ctx.close("circuit covariance", cov, want, rtol=1e-10, scale=sc)
            physical(ctx, "circuit", np.asarray(cov), hb)
            ctx.nontrivial(mu, cov)
            ctx.sample(N=N, length=L, hbar=hb)


@section(must=("loss", "passive_transformation", "reduced_state", "expand", "expand_passive", "interferometer"))
def other_forms(ctx):
    """Integer (permutations, vacua as identity matrices), strided, Fortran-ordered and read-only data, numpy scalars."""
    fs = {x: ctx.api(S_ + x) for x in ("loss", "passive_transformation", "reduced_state", "expand", "expand_passive", "expand_vector", "interferometer",
                                       "mean_photon_number", "is_symplectic", "xxpp_to_xpxp", "xpxp_to_xxpp")}
    rng = ctx.rng
    for k in range(ctx.n(150, 1500)):
        n = 1 + k % 4
        hbar = 2.0 if k % 2 else gen.hbar_of(rng)
        mu, cov = gen.int_state(rng, n) if k % 2 else gen.state(rng, n, hbar)
        mode = int(rng.integers(n))
        forms.same(ctx, "loss", fs["loss"], (mu, cov, float(rng.choice([0, 1, 0.3, 0.9])), mode), dict(hbar=hbar, nbar=float(rng.choice([0, 2, 0.7]))), f"n={n}")
        P = np.eye(n)[rng.permutation(n)]
        T = P * rng.choice([1, -1, 1, 0], size=n)[:, None] if k % 2 else gen.haar(rng, n) * 0.9
        forms.same(ctx, "passive_transformation", fs["passive_transformation"], (mu, cov, T), dict(hbar=hbar), f"n={n}")
        q = [int(x) for x in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
        forms.same(ctx, "reduced_state", fs["reduced_state"], (mu, cov, q), {}, f"n={n}")
        U = P if k % 2 else gen.haar(rng, n)
        forms.same(ctx, "interferometer", fs["interferometer"], (U,), {}, f"n={n}")
        N = n + int(rng.integers(3))
        to = [int(x) for x in rng.permutation(N)[:n]]
        S = gen.passive_symplectic(U + 0j)
        forms.same(ctx, "expand", fs["expand"], (S, to, N), {}, f"n={n} N={N}")
        forms.same(ctx, "expand_passive", fs["expand_passive"], (U, to, N), {}, f"n={n} N={N}")
        forms.same(ctx, "expand_vector", fs["expand_vector"], (float(rng.choice([0, 2, -1, 0.3])), mode, N), dict(hbar=hbar), f"N={N}")
        forms.same(ctx, "mean_photon_number", fs["mean_photon_number"], (mu[[0, n]], cov[np.ix_([0, n], [0, n])]), dict(hbar=hbar), "")
        forms.same(ctx, "is_symplectic", fs["is_symplectic"], (S,), {}, f"n={n}")
        for x in ("xxpp_to_xpxp", "xpxp_to_xxpp"):
            forms.same(ctx, x, fs[x], (cov if k % 3 else mu,), {}, f"n={n}")
