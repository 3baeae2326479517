"""C14: graph encodings. Mean photon and click numbers of the encoded state are computed from singular values, from
the covariance matrix and from marginal vacuum probabilities; scale covariance and invariances are metamorphic."""
import numpy as np

from vlib import gen, oracles as O
from vlib.core import section

Q = "thewalrus.quantum."
KINDS = ("real", "complex", "int", "ones", "diagonal", "sparse", "banded", "lowrank", "zerorow", "pure_imag", "negative",
         "binary", "block", "bigdiag", "repeated_rows", "hankel", "near_real", "near_diagonal", "mixed_scale", "near_equal")


def sv_mean(s, x):
    y = (x * s) ** 2
    return float(np.sum(y / (1 - y)))


def graph(rng, n, kind, scale):
    A = gen.sym(rng, n, kind)
    if np.linalg.svd(A, compute_uv=False)[0] < 1e-3:
        A = A + np.eye(n)
    if scale != 1:
        A = A * scale
    return A


def encoded_cov(A, hbar=2.0):
    """xp covariance matrix of the pure state with adjacency matrix A, by Gaussian algebra:
    <a_i a_j> = (A (1-A*A)^-1)_ij and <a_i^dag a_j> = (A A* (1-A A*)^-1)_ij."""
    n = len(A)
    C = A @ A.conj()
    N = C @ np.linalg.inv(np.eye(n) - C)  # <a_j^dag a_i>
    M = np.linalg.inv(np.eye(n) - C) @ A  # <a_i a_j>
    # x = (a + a^dag) sqrt(hbar/2), p = -i(a - a^dag) sqrt(hbar/2)
    xx = (M + M.conj() + N + N.T + np.eye(n)).real
    pp = (-M - M.conj() + N + N.T + np.eye(n)).real
    xp = (-1j * (M - M.conj() - N + N.T)).real
    # symmetrised <{x_i,p_j}>/2 = Im-type combinations
    V = np.block([[xx, xp], [xp.T, pp]]) * hbar / 2
    return V


def scales(rng, k):
    return (1.0, 1e3, 1e-4, 1e6, 0.1, 37.0, 1e-2)[k % 7]


def means(rng, k):
    return (1.0, 0.05, 7.3, 1e-3, 60.0, 0.5, 2.5, 400.0, 1)[k % 9]


@section(must=("adj_scaling", "adj_to_qmat"))
def photon(ctx):
    sc_f, q_f = ctx.api(Q + "adj_scaling"), ctx.api(Q + "adj_to_qmat")
    amat, cov_f, pnm, valid, pure = (ctx.api(Q + f) for f in ("Amat", "Covmat", "photon_number_mean_vector", "is_valid_cov", "is_pure_cov"))
    rng = ctx.rng
    for k in range(ctx.n(400, 6000)):
        n = 1 + int(rng.integers(7)) if k % 20 else int(rng.integers(10, 25))
        kind, scale, nm = KINDS[k % len(KINDS)], scales(rng, int(rng.integers(99))), means(rng, int(rng.integers(99)))
        A = graph(rng, n, kind, scale)
        with ctx.case(f"{kind} n={n} scale={scale:g} n_mean={nm:g}"):
            x = sc_f(gen.layout(rng, A), nm)
            s = np.linalg.svd(A, compute_uv=False)
            ctx.check(np.ndim(x) == 0 and np.isrealobj(x) and 0 < x < 1 / s[0], lambda: f"scaling {x!r} not in (0, 1/{s[0]!r})")
            ctx.close("mean photon number of the scaled matrix", sv_mean(s, x), nm, rtol=1e-7, atol=0, key="n")
            c = 10.0 ** rng.uniform(-2, 2) if scale >= 1e-2 else 10.0 ** rng.uniform(0, 2)
            ctx.close("scaling of c*A is 1/c of that of A", sc_f(c * A, nm) * c, x, rtol=1e-8, atol=0, key="scale")
            P = rng.permutation(n)
            ctx.close("scaling of a relabelled graph", sc_f(A[np.ix_(P, P)] * np.exp(2j * np.pi * rng.random()), nm), x, rtol=1e-8, atol=0, key="inv")
            qm = q_f(gen.layout(rng, A), nm)
            B = x * A
            want_n = B @ B.conj() @ np.linalg.inv(np.eye(n) - B @ B.conj())
            ctx.check(qm.shape == (2 * n, 2 * n), "Q matrix has the wrong shape")
            # the library's ordering: Q[i,j] = delta + <a_i^dag a_j>, the conjugate of <a_i a_j^dag>
            amp = 1 + nm
            ctx.close("diagonal blocks of Q", qm[:n, :n], want_n.conj() + np.eye(n), rtol=1e-8 * amp, atol=1e-9, key="Qd")
            ctx.close("Q is hermitian", qm, qm.conj().T, rtol=1e-9 * amp, atol=1e-9, key="Qh")
            ctx.close("Q blocks are conjugate", qm[n:, n:], qm[:n, :n].conj(), rtol=1e-9 * amp, atol=1e-9, key="Qc")
            ctx.close("photon number from Q", np.trace(qm[:n, :n]).real - n, nm, rtol=1e-6, atol=1e-9, key="nQ")
            if nm <= 100:
                V = cov_f(qm, 2.0)
                ctx.close("covariance matrix of the encoded state", V, encoded_cov(B), rtol=1e-8 * amp**2, atol=1e-9, key="V")
                ctx.close("photon numbers of the covariance matrix", np.sum(pnm(np.zeros(2 * n), V, hbar=2.0)), nm, rtol=1e-6, atol=1e-9, key="nV")
                ctx.check(valid(V, hbar=2.0), "encoded state is not physical")
                ctx.check(pure(V, hbar=2.0), "encoded state is not pure")
                Am = amat(qm, cov_is_qmat=True)
                ctx.close("Amat of Q is A* + A", Am, np.block([[B.conj(), 0 * B], [0 * B, B]]), rtol=1e-8 * amp, atol=1e-9, key="A")
                Am2 = amat(V, hbar=2.0)
                ctx.close("Amat of the covariance matrix", Am2, np.block([[B.conj(), 0 * B], [0 * B, B]]), rtol=1e-8 * amp, atol=1e-9, key="A2")
            ctx.nontrivial("p", kind, n, scale, nm, k)
            ctx.sample(x=x, n=sv_mean(s, x))


def mean_clicks(B):
    """Mean clicks of the pure state with adjacency matrix B from single-mode vacuum probabilities."""
    V = encoded_cov(B)
    n = len(B)
    return sum(1 - O.vacuum_prob(*O.reduced(np.zeros(2 * n), V, [i]), 2.0) for i in range(n))


@section(must=("adj_scaling_torontonian",))
def clicks(ctx):
    f = ctx.api(Q + "adj_scaling_torontonian")
    rng = ctx.rng
    for k in range(ctx.n(300, 5000)):
        n = 1 + int(rng.integers(6)) if k % 20 else int(rng.integers(8, 16))
        kind, scale = KINDS[k % len(KINDS)], scales(rng, int(rng.integers(99)))
        A = graph(rng, n, kind, scale)
        s = np.linalg.svd(A, compute_uv=False)
        # modes that are touched by the graph: only these can click
        cmax = mean_clicks(A / s[0] * (1 - 1e-4))
        cm = cmax * (0.05, 0.5, 0.9, 0.3, 0.7)[int(rng.integers(5))]
        with ctx.case(f"{kind} n={n} scale={scale:g} c_mean={cm:g}"):
            x = f(gen.layout(rng, A), cm)
            ctx.check(np.ndim(x) == 0 and np.isrealobj(x) and 0 < x < 1 / s[0], lambda: f"scaling {x!r} not in (0, 1/{s[0]!r})")
            ctx.close("mean clicks of the scaled matrix", mean_clicks(x * A), cm, rtol=1e-7, atol=1e-10, key="c")
            c = 10.0 ** rng.uniform(-3, 3)
            ctx.close("scaling of c*A is 1/c of that of A", f(c * A, cm) * c, x, rtol=1e-7, atol=0, key="scale")
            # monotone in the target
            x2 = f(A, cm * 0.8)
            ctx.check(x2 < x, lambda: f"fewer clicks need a smaller scaling: {x2} vs {x}")
            ctx.nontrivial("c", kind, n, scale, round(cm, 4))
            ctx.sample(x=x, c=cm)


def psd(rng, n, kind, scale):
    if kind == "generic":
        g = rng.normal(size=(n, n))
        A = g @ g.T
    elif kind == "lowrank":
        g = rng.normal(size=(n, max(1, n // 2)))
        A = g @ g.T
    elif kind == "kernel":
        p = rng.random((n, 2)) * 3
        A = np.exp(-((p[:, None] - p[None]) ** 2).sum(-1))
    elif kind == "identity":
        A = np.eye(n)
    elif kind == "diagonal":
        A = np.diag(rng.random(n) + 0.01)
    elif kind == "ones":
        A = np.ones((n, n))
    elif kind == "int":
        g = rng.integers(-2, 3, size=(n, n))
        A = g @ g.T + np.eye(n, dtype=int)
    return A if scale == 1 else A * scale


@section(must=("rescale_adjacency_matrix", "rescale_adjacency_matrix_thermal"))
def classical(ctx):
    th, gn = ctx.api("thewalrus.csamples.rescale_adjacency_matrix_thermal"), ctx.api("thewalrus.csamples.rescale_adjacency_matrix")
    rng = ctx.rng
    kinds = ("generic", "lowrank", "kernel", "identity", "diagonal", "ones", "int")
    for k in range(ctx.n(400, 6000)):
        n = 1 + int(rng.integers(9)) if k % 20 else int(rng.integers(15, 40))
        kind, scale, nm = kinds[k % len(kinds)], (1.0, 1e3, 1e-3, 1e4, 0.1, 37.0)[int(rng.integers(6))], means(rng, int(rng.integers(99)))
        A = psd(rng, n, kind, scale)
        sq = (1.0, 2.0, 1, 2)[k % 4]
        opts = {}
        if rng.random() < 0.3:
            opts["check_positivity"] = bool(rng.integers(2))
        if rng.random() < 0.3:
            opts["check_symmetry"] = bool(rng.integers(2))
        with ctx.case(f"{kind} n={n} scale={scale:g} n_mean={nm:g} squash={sq} {opts}"):
            ls, V = gn(gen.layout(rng, A), nm, sq, **opts)
            ctx.check(ls.shape == (n,) and V.shape == (n, n), "shapes of eigenvalues and eigenvectors")
            ctx.check(np.all(ls >= 0) and np.all(sq * ls < 1), lambda: f"rescaled eigenvalues out of range {ls}")
            y = sq * ls
            ctx.close("mean photon number", np.sum(y / (1 - y)), nm, rtol=1e-6, atol=0, key="n")
            ctx.close("eigenvectors are orthogonal", V @ V.T, np.eye(n), rtol=0, atol=1e-10, key="O")
            top = np.linalg.eigvalsh(A)[-1]
            ctx.close("eigenvalues and eigenvectors rebuild the matrix", (V * ls) @ V.T * top / ls.max(), A, rtol=1e-7, atol=1e-8, key="A")
            if sq == 1:
                l2, V2 = th(gen.layout(rng, A), nm, **opts)
                ctx.close("thermal variant: eigenvalues", l2, ls, rtol=1e-12, atol=0, key="th")
                ctx.close("thermal variant: matrix", (V2 * l2) @ V2.T, (V * ls) @ V.T, rtol=1e-9, atol=0, key="thA")
            l3, _ = gn(A * 16.0, nm, sq)
            ctx.close("rescaled eigenvalues do not depend on the scale", np.sort(l3), np.sort(ls), rtol=1e-7,
                      atol=1e-9 + n * 1e-8 / top, key="scale")  # eigenvalues below the absolute 1e-8 are dropped
            ctx.nontrivial("k", kind, n, scale, nm, sq, k)
            ctx.sample(ls=ls)


@section
def old_names(ctx):
    """The deprecated names, where still offered, give what the new names give."""
    for old, new in (("gen_Qmat_from_graph", "adj_to_qmat"), ("find_scaling_adjacency_matrix", "adj_scaling"), ("find_scaling_adjacency_matrix_torontonian", "adj_scaling_torontonian")):
        f, g = ctx.api(Q + old, optional=True), ctx.api(Q + new)
        if f is None:
            ctx.count("old names no longer offered")
            continue
        for k in range(ctx.n(12, 60)):
            n = 1 + k % 3
            hbar = gen.hbar_of(ctx.rng)
            A = gen.sym(ctx.rng, n, "real" if k % 2 else "complex")
            A = A + A.T
            args, kw = (A, float(ctx.rng.uniform(0.1, 0.9))), {}
            with ctx.case(f"{old} #{k}"):
                ctx.close(old, f(*args, **kw), g(*args, **kw), rtol=1e-12, atol=1e-14)
                ctx.nontrivial(old, k)
