"""C16: random generators. Class membership of every drawn matrix; Haar laws by exact moments and phase uniformity
(two-stage z-tests, confirmed on fresh draws); replay from the seed; equality in law under the `scale` and `hbar` options."""
import numpy as np

from vlib import gen, oracles as O
from vlib.core import section

R = "thewalrus.random."


def omega(n):
    z, i = np.zeros((n, n)), np.eye(n)
    return np.block([[z, i], [-i, z]])


def dim(rng, k):
    return 1 + int(rng.integers(8)) if k % 15 else int(rng.integers(10, 30))


@section(must=("random_interferometer", "random_block_interferometer", "random_banded_interferometer"))
def members(ctx):
    ri, rb, rw = (ctx.api(R + f) for f in ("random_interferometer", "random_block_interferometer", "random_banded_interferometer"))
    rng = ctx.rng

    def unitary(U, n, real, what):
        ctx.check(isinstance(U, np.ndarray) and U.shape == (n, n), lambda: f"{what}: shape {np.shape(U)}")
        ctx.close(f"{what} is unitary", U @ U.conj().T, np.eye(n), rtol=0, atol=1e-11, key=what)
        if real:
            ctx.check(not np.iscomplexobj(U), f"{what} is not real")
        else:
            ctx.check(np.iscomplexobj(U), f"{what} is not complex")
            ctx.check(n == 0 or np.abs(np.imag(U)).max() > 1e-6, f"{what} has no imaginary part")

    for k in range(ctx.n(500, 6000)):
        n, real = dim(rng, k), bool(rng.integers(2))
        with ctx.case(f"random_interferometer({n}, real={real})"):
            U = ri(n, real=real) if k % 3 else (ri(n, real) if k % 2 else ri(N=n, real=real))
            unitary(U, n, real, "interferometer")
            ctx.nontrivial("u", n, real)
        top = bool(rng.integers(2))
        with ctx.case(f"random_block_interferometer({n}, top_one={top}, real={real})"):
            B = rb(n, top_one=top, real=real)
            unitary(B, n, real, "block interferometer")
            # blocks: 1 | 2 2 2 .. | 1 if needed
            sizes, left = ([1] if top else []), n - (1 if top else 0)
            sizes += [2] * (left // 2) + [1] * (left % 2)
            mask, at = np.zeros((n, n), bool), 0
            for s in sizes:
                mask[at:at + s, at:at + s] = True
                at += s
            ctx.check(np.all(B[~mask] == 0), "entry outside the blocks")
            ctx.check(np.all(np.abs(B[mask]) > 1e-9), "empty entry inside a block")
            ctx.nontrivial("b", n, real, top)
        w = int(rng.integers(0, n))
        with ctx.case(f"random_banded_interferometer({n}, {w}, top_one_init={top}, real={real})"):
            W = rw(n, w, top_one_init=top, real=real)
            unitary(W, n, real, "banded interferometer")
            i = np.arange(n)
            far = np.abs(i[:, None] - i[None])
            ctx.check(np.all(np.abs(W[far > w]) <= 1e-13), "entry outside the band")
            if w:
                ctx.check(np.any(np.abs(W[far == w]) > 1e-12), lambda: f"bandwidth is smaller than {w}")
            ctx.nontrivial("w", n, w, real, top)
            ctx.sample(n=n, w=w)
        with ctx.case(f"random_banded_interferometer({n}, {n + w})"):
            ctx.raises("bandwidth too large", ValueError, rw, n, n + w)


@section(must=("random_symplectic", "random_covariance"))
def symplectic(ctx):
    rs, rc = ctx.api(R + "random_symplectic"), ctx.api(R + "random_covariance")
    rng = ctx.rng
    seed = np.random.seed
    for k in range(ctx.n(500, 6000)):
        n, passive, bd = dim(rng, k), bool(rng.integers(2)), bool(rng.integers(2))
        sc = float(rng.choice([1.0, 0.3, 0.0, 1.5, 1e-3]))
        with ctx.case(f"random_symplectic({n}, passive={passive}, block_diag={bd}, scale={sc})"):
            S = rs(n, passive=passive, block_diag=bd, scale=sc)
            ctx.check(S.shape == (2 * n, 2 * n) and not np.iscomplexobj(S), lambda: f"shape {S.shape} {S.dtype}")
            m = max(1.0, np.abs(S).max()) ** 2
            ctx.close("S Omega S^T = Omega", S @ omega(n) @ S.T, omega(n), rtol=0, atol=1e-12 * m * n, key="symp")
            sv = np.linalg.svd(S, compute_uv=False)
            if passive or sc == 0:
                ctx.close("passive: S S^T = 1", S @ S.T, np.eye(2 * n), rtol=0, atol=1e-11, key="passive")
            else:
                ctx.check(sv[0] > 1 + 1e-9 * sc, "active transformation does not squeeze")
                ctx.check(np.all(sv[:n] > 1 + 1e-12 * sc) if sc > 0.1 else True, "some modes are not squeezed")
            off = max(np.abs(S[:n, n:]).max(), np.abs(S[n:, :n]).max())
            if bd:
                ctx.check(off == 0, lambda: f"block_diag: positions and momenta mix ({off:.2g})")
            else:
                ctx.check(off > 1e-9, "positions and momenta do not mix")
            ctx.nontrivial("s", n, passive, bd, sc)
        hbar, pure = gen.hbar_of(rng), bool(rng.integers(2))
        with ctx.case(f"random_covariance({n}, hbar={hbar}, pure={pure}, block_diag={bd})"):
            s0 = int(rng.integers(2**31))
            seed(s0)
            V = rc(n, hbar=hbar, pure=pure, block_diag=bd)
            ctx.check(V.shape == (2 * n, 2 * n) and not np.iscomplexobj(V), "shape/type")
            m = np.abs(V).max()
            ctx.close("covariance matrix is symmetric", V, V.T, rtol=1e-12, atol=0, key="sym")
            # symplectic eigenvalues from the invariants of V (well conditioned route: i Omega V)
            ev = np.sort(np.abs(np.linalg.eigvals(1j * omega(n) @ V)))[::2] / (hbar / 2)
            tol = 1e-12 * (2 * m / hbar) ** 2 * n + 1e-9
            ctx.check(np.all(ev > 1 - tol), lambda: f"symplectic eigenvalues {ev} below hbar/2")
            det = 2 * n * np.log(2 / hbar) + np.linalg.slogdet(V)[1]
            if pure:
                ctx.check(np.all(np.abs(ev - 1) < tol), lambda: f"pure: symplectic eigenvalues {ev}")
                ctx.close("pure: det(2V/hbar) = 1", det, 0.0, rtol=0, atol=1e-10 * (2 * m / hbar) ** 2 + 1e-9, key="det")
            else:
                ctx.check(det > 1e-6, lambda: f"mixed state requested, log det = {det}")
                ctx.check(np.all(ev < 3 + tol * 3), lambda: f"symplectic eigenvalues {ev} above 3 hbar/2")
            if bd:
                ctx.close("block_diag: no x-p correlations", V[:n, n:], np.zeros((n, n)), rtol=0, atol=1e-13 * m, key="xp")
            else:
                ctx.check(np.abs(V[:n, n:]).max() > 1e-9, "no x-p correlations at all")
            seed(s0)
            V2 = rc(n, hbar=2 * hbar, pure=pure, block_diag=bd)
            ctx.close("covariance matrix is proportional to hbar", V2, 2 * V, rtol=1e-12, atol=0, key="hbar")
            ctx.check(not np.allclose(rc(n, hbar=hbar, pure=pure, block_diag=bd), V), "two draws are equal")
            ctx.nontrivial("c", n, hbar, pure, bd)


def z_test(ctx, what, draw, mean, n, sd=None):
    """draw(n) -> iid scalars with exact mean (and sd): two-stage z-test."""
    def z(m):
        x = np.asarray(draw(m), float)
        s = np.std(x) if sd is None else sd
        ctx.count("draws", m)
        return (np.mean(x) - mean) / (max(s, 1e-12) / np.sqrt(len(x)))

    a = z(n)
    if abs(a) < 3.2:
        ctx.check(True, what)
        return
    ctx.count("second_stage")
    b = z(3 * n)
    ctx.check(abs(b) < 5.5, lambda: f"{what}: z = {a:.1f}, confirmed by z = {b:.1f} on fresh draws")


def shared(draw, m):
    """The first stages of several tests share one set of m draws; second stages draw afresh."""
    first = draw(m)
    return lambda c: first if c == m else draw(c)


def phases_uniform(ctx, what, draw, n, bins=8):
    def p(m):
        ph = np.mod(np.angle(draw(m)), 2 * np.pi)
        c, _ = np.histogram(ph, bins=bins, range=(0, 2 * np.pi))
        e = m / bins if len(ph) == m else len(ph) / bins
        ctx.count("draws", m)
        return O.chi2_tail(float(((c - e) ** 2 / e).sum()), bins - 1)

    a = p(n)
    if a > 1e-3:
        ctx.check(True, what)
        return
    ctx.count("second_stage")
    b = p(3 * n)
    ctx.check(b > 1e-8, lambda: f"{what}: phases are not uniform (p={a:.1e}, confirmed p={b:.1e})")


@section(must=("random_interferometer", "random_symplectic"))
def haar(ctx):
    """Exact moments of the Haar measure."""
    ri, rs = ctx.api(R + "random_interferometer"), ctx.api(R + "random_symplectic")
    rng = ctx.rng
    m = ctx.n(3000, 20000)

    def src_int(n):
        return lambda c: np.array([ri(n) for _ in range(c)])

    def src_passive(n):
        def d(c):
            O_ = np.array([rs(n, passive=True) for _ in range(c)])
            return O_[:, :n, :n] + 1j * O_[:, n:, :n]
        return d

    def left(n):  # left factor of an active transformation: V V^T = O exp(2r) O^T, its top eigenvectors
        def d(c):
            out = []
            for _ in range(c):
                S = rs(n)
                w, v = np.linalg.eigh(S @ S.T)
                out.append((v[:n, -1] + 1j * v[n:, -1]) ** 2)
            return np.array(out)[:, None, :]
        return d

    for src, nm in ((src_int, "random_interferometer"), (src_passive, "passive random_symplectic")):
        for n in (1, 2, 3, 5) if ctx.quick else (1, 2, 3, 4, 5, 8):
            draw = shared(src(n), m)
            i, j = int(rng.integers(n)), int(rng.integers(n))
            with ctx.case(f"{nm}: unitary Haar moments n={n}"):
                phases_uniform(ctx, f"phase of U[{i},{j}]", lambda c: draw(c)[:, i, j], m)
                phases_uniform(ctx, "phase of the last diagonal entry", lambda c: draw(c)[:, -1, -1], m)
                phases_uniform(ctx, "phase of the determinant", lambda c: np.linalg.det(draw(c)), m)
                phases_uniform(ctx, "eigenphases", lambda c: np.linalg.eigvals(draw(c))[:, 0], m)
                z_test(ctx, "|tr U|^2", lambda c: np.abs(np.trace(draw(c), axis1=1, axis2=2)) ** 2, 1.0, m)
                if n > 1:
                    z_test(ctx, f"|U[{i},{j}]|^2", lambda c: np.abs(draw(c)[:, i, j]) ** 2, 1 / n, m)
                    z_test(ctx, f"|U[{i},{j}]|^4", lambda c: np.abs(draw(c)[:, i, j]) ** 4, 2 / (n * (n + 1)), m)
                    z_test(ctx, "|U[0,0] U[1,1]|^2", lambda c: (lambda u: np.abs(u[:, 0, 0] * u[:, 1, 1]) ** 2)(draw(c)), 1 / (n**2 - 1), m)
                    z_test(ctx, "|tr U^2|^2", lambda c: np.abs(np.trace((lambda u: u @ u)(draw(c)), axis1=1, axis2=2)) ** 2, 2.0, m)
                    z_test(ctx, "Re U00 U11 conj(U01 U10)", lambda c: (lambda u: (u[:, 0, 0] * u[:, 1, 1] * (u[:, 0, 1] * u[:, 1, 0]).conj()).real)(draw(c)),
                           -1 / (n * (n**2 - 1)), m)
                ctx.nontrivial("haar", nm, n)
    with ctx.case("left factor of an active random_symplectic"):
        d = left(3)
        phases_uniform(ctx, "squeezing axis", lambda c: d(c)[:, 0, int(rng.integers(3))], m)
    for n in (1, 2, 3, 5):
        dr = lambda c: np.array([ri(n, real=True) for _ in range(c)])  # noqa: E731
        dp = lambda c: np.array([rs(n, passive=True, block_diag=True)[:n, :n] for _ in range(c)])  # noqa: E731
        for draw, nm in ((dr, "random_interferometer(real=True)"), (dp, "passive block-diagonal random_symplectic")):
            with ctx.case(f"{nm}: orthogonal Haar moments n={n}"):
                draw = shared(draw, m)
                i, j = int(rng.integers(n)), int(rng.integers(n))
                z_test(ctx, "det", lambda c: np.linalg.det(draw(c)), 0.0, m, sd=1.0)
                z_test(ctx, "entry", lambda c: draw(c)[:, i, j], 0.0, m)
                z_test(ctx, "(tr O)^2", lambda c: np.trace(draw(c), axis1=1, axis2=2) ** 2, 1.0, m, sd=None if n > 1 else 1.0)
                if n > 1:
                    z_test(ctx, "O^2", lambda c: draw(c)[:, i, j] ** 2, 1 / n, m)
                    z_test(ctx, "O^4", lambda c: draw(c)[:, i, j] ** 4, 3 / (n * (n + 2)), m)
                    z_test(ctx, "tr O^2", lambda c: np.trace((lambda u: u @ u)(draw(c)), axis1=1, axis2=2), 1.0, m)
                    z_test(ctx, "diagonal entry", lambda c: draw(c)[:, -1, -1], 0.0, m)
                ctx.nontrivial("ohaar", nm, n)


@section(must=("random_symplectic", "random_interferometer"))
def laws(ctx):
    """Squeezing scale, thermal occupations, blocks and bands in law; replay and difference of draws."""
    rs, rc, ri = ctx.api(R + "random_symplectic"), ctx.api(R + "random_covariance"), ctx.api(R + "random_interferometer")
    rb, rw = ctx.api(R + "random_block_interferometer"), ctx.api(R + "random_banded_interferometer")
    rnc = ctx.api(R + "randnc", optional=True)
    rng = ctx.rng
    m = ctx.n(4000, 30000)
    for sc in (1.0, 0.5, 0.1):
        with ctx.case(f"law of the squeezing parameters, scale={sc}"):
            # r = scale * |z|, z standard complex normal per quadrature: E r^2 = 2 scale^2, E r = scale sqrt(pi/2)
            def sq(c):
                return np.log(np.array([np.linalg.svd(rs(1, scale=sc), compute_uv=False)[0] for _ in range(c)])) / sc

            z_test(ctx, "E r / scale", sq, np.sqrt(np.pi / 2), m)
            z_test(ctx, "E r^2 / scale^2", lambda c: sq(c) ** 2, 2.0, m)
            z_test(ctx, "E r / scale (3 modes)", lambda c: np.log(np.array([np.linalg.svd(rs(3, scale=sc), compute_uv=False)[:3].prod() for _ in range(c)])) / sc,
                   3 * np.sqrt(np.pi / 2), m // 2)
            ctx.nontrivial("sq", sc)
    for hbar in (2.0, 1.0, 0.7):
        with ctx.case(f"law of the thermal occupations hbar={hbar}"):
            # symplectic eigenvalues uniform on hbar/2 * (1, 3)
            def nu(c):
                return np.array([np.sqrt(np.linalg.det(rc(1, hbar=hbar))) for _ in range(c)]) * 2 / hbar

            z_test(ctx, "mean symplectic eigenvalue", nu, 2.0, m)
            z_test(ctx, "variance of the symplectic eigenvalue", lambda c: (nu(c) - 2) ** 2, 1 / 3, m)
            ctx.nontrivial("th", hbar)
    for real in (False, True):
        for n in (2, 3, 4, 5):
            for top in (False, True):
                with ctx.case(f"law of the blocks n={n} top_one={top} real={real}"):
                    if real:
                        for q in range(n):
                            z_test(ctx, f"diagonal entry {q}", lambda c, q=q: np.array([rb(n, top_one=top, real=True)[q, q] for _ in range(c)]), 0.0, m // 8)
                    else:
                        q = int(rng.integers(n))
                        phases_uniform(ctx, f"diagonal entry {q}", lambda c: np.array([rb(n, top_one=top)[q, q] for _ in range(c)]), m // 4)
                    w = int(rng.integers(0, n))
                    q = int(rng.integers(n))
                    if real:
                        z_test(ctx, f"banded w={w} entry {q}", lambda c: np.array([rw(n, w, top_one_init=top, real=True)[q, q] for _ in range(c)]), 0.0, m // 8)
                    else:
                        phases_uniform(ctx, f"banded w={w} entry {q}", lambda c: np.array([rw(n, w, top_one_init=top)[q, q] for _ in range(c)]), m // 8)
                    ctx.nontrivial("blk", real, n, top, w)
    if rnc is not None:
        with ctx.case("randnc"):
            ctx.check(rnc(3, 4).shape == (3, 4) and np.iscomplexobj(rnc(5)), "shape of randnc")
            z_test(ctx, "randnc variance", lambda c: np.abs(rnc(c)) ** 2, 2.0, 4 * m)
            z_test(ctx, "randnc pseudo-variance", lambda c: (rnc(c) ** 2).real, 0.0, 4 * m)
            phases_uniform(ctx, "randnc phases", lambda c: rnc(c), 4 * m)
            ctx.nontrivial("randnc")
    calls = [(ri, (4,), {}), (ri, (3,), dict(real=True)), (rb, (5,), {}), (rb, (4,), dict(top_one=False)), (rw, (6, 3), {}), (rw, (6, 0), {}),
             (rs, (3,), {}), (rs, (3,), dict(passive=True)), (rs, (2,), dict(block_diag=True, scale=0.2)), (rc, (3,), {}), (rc, (2,), dict(pure=True, hbar=1))]
    for k in range(ctx.n(20, 200)):
        o = rng.permutation(len(calls))
        s0 = int(rng.integers(2**31))
        with ctx.case("replay of a history of generators from its seed"):
            hist = []
            for _ in range(2):
                np.random.seed(s0)
                hist.append([calls[i][0](*calls[i][1], **calls[i][2]) for i in o])
            for i, a, b in zip(o, *hist):
                ctx.check(np.array_equal(a, b), lambda: f"{calls[i][0].name}{calls[i][1]}: draw differs after the same seed")
            for i, a in zip(o, hist[0]):
                f, ar, kw = calls[i]
                ctx.check(not np.array_equal(f(*ar, **kw), a), lambda: f"{f.name}{ar}: two draws are equal")
            ctx.nontrivial("replay", k)
