"""C10: decompositions are judged by reconstruction and by the structure of every factor."""
import numpy as np

from vlib import gen
from vlib.core import section

D = "thewalrus.decompositions."


def omega(n):
    z, i = np.zeros((n, n)), np.eye(n)
    return np.block([[z, i], [-i, z]])


def symp_err(S):
    n = len(S) // 2
    return np.abs(S @ omega(n) @ S.T - omega(n)).max()


S_KINDS = ("generic", "degenerate", "partial", "diagonal", "passive", "identity", "big", "perm", "tms", "form", "shear",
           "blocks", "noisy", "equal_pairs")


def symplectic(rng, n, kind):
    if kind in ("generic", "degenerate", "partial", "diagonal"):
        return gen.symplectic(rng, n, 1.0, kind)
    if kind == "passive":
        return gen.passive_symplectic(gen.haar(rng, n))
    if kind == "identity":
        return np.eye(2 * n)
    if kind == "big":
        return gen.symplectic(rng, n, 2.3)
    if kind == "perm":
        P = np.eye(n)[rng.permutation(n)] * rng.choice([1, 1j, -1], size=n)[:, None]
        return gen.passive_symplectic(P)
    if kind == "tms":
        S = np.eye(2 * n)
        for k in range(0, n - 1, 2):
            r = rng.uniform(0.1, 1)
            for off, sg in ((0, 1), (n, -1)):
                S[k + off, k + off] = S[k + 1 + off, k + 1 + off] = np.cosh(r)
                S[k + off, k + 1 + off] = S[k + 1 + off, k + off] = sg * np.sinh(r)
        return S
    if kind == "form":
        return omega(n)
    if kind == "shear":
        X = rng.normal(size=(n, n))
        if rng.random() < 0.3:
            X = np.outer(X[0], X[0])
        S = np.block([[np.eye(n), X + X.T], [np.zeros((n, n)), np.eye(n)]])
        return S.T if rng.random() < 0.5 else S
    if kind == "blocks":
        A = gen.symplectic(rng, n, 1.0)
        L = rng.normal(size=(n, n)) + 2 * np.eye(n)
        if np.linalg.cond(L) > 50:
            L = np.eye(n)
        return np.block([[L, np.zeros((n, n))], [np.zeros((n, n)), np.linalg.inv(L).T]]) if rng.random() < 0.7 else A
    if kind == "noisy":  # a matrix that is real/block-structured only up to rounding noise
        r = rng.uniform(-1, 1, size=n)
        O = gen.passive_symplectic(gen.orth(rng, n).astype(complex))
        th = gen.passive_symplectic(np.diag(np.exp(1j * rng.normal(size=n) * 10.0 ** rng.integers(-15, -9))))
        return th @ O @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ O.T @ th
    if kind == "equal_pairs":  # squeezings r and -r: degenerate Takagi values with both signs
        r = 0.7 * rng.choice([1, -1], size=n)
        O1, O2 = gen.passive_symplectic(gen.haar(rng, n)), gen.passive_symplectic(gen.haar(rng, n))
        return O1 @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ O2
    raise ValueError(kind)


def is_diag(ctx, what, M, tol):
    ctx.close(f"{what} is diagonal", M - np.diag(np.diag(M)), np.zeros_like(M), rtol=0, atol=tol)


def each_symplectic(ctx, quick, thorough, nmax=7):
    rng = ctx.rng
    for k in range(ctx.n(quick, thorough)):
        n = 1 + int(rng.integers(nmax)) if k % 12 else int(rng.integers(8, 14))
        kind = S_KINDS[k % len(S_KINDS)]
        S = symplectic(rng, n, kind)
        if symp_err(S) > 1e-10 * max(1, np.abs(S).max() ** 2):
            ctx.count("generator rejected")
            continue
        yield n, kind, gen.layout(rng, S)


@section(must=("blochmessiah",), weight=2)
def bloch_messiah(ctx):
    f = ctx.api(D + "blochmessiah")
    for n, kind, S in each_symplectic(ctx, 1500, 12000):
        with ctx.case(f"blochmessiah n={n} {kind}"):
            O, Dm, Q = f(S)
            sc = max(1.0, np.abs(S).max() ** 2)
            tol = 1e-8 * sc * n
            ctx.close("O D Q", O @ Dm @ Q, S, rtol=0, atol=tol)
            I = np.eye(2 * n)
            for nm, X in (("O", O), ("Q", Q)):
                ctx.check(np.isrealobj(X), f"{nm} is not real")
                ctx.close(f"{nm} orthogonal", X @ X.T, I, rtol=0, atol=tol)
                ctx.close(f"{nm} symplectic", X @ omega(n) @ X.T, omega(n), rtol=0, atol=tol)
            is_diag(ctx, "D", Dm, 1e-12)
            d = np.diag(Dm)
            ctx.check(np.all(d > 0), f"D not positive: {d}")
            ctx.close("second half of D inverts the first", d[:n] * d[n:], np.ones(n), rtol=0, atol=tol)
            sv = np.sort(np.linalg.svd(S, compute_uv=False))[::-1]
            ctx.close("singular values", np.sort(d)[::-1], sv, rtol=0, atol=tol)
            ctx.close("pairs of singular values", np.sort(np.maximum(d[:n], d[n:]))[::-1], sv[:n], rtol=0, atol=tol)
            if n > 1 and kind not in ("identity",):
                ctx.nontrivial(S)
            ctx.sample(n=n, kind=kind, d=d[:4])


@section(must=("pre_iwasawa", "iwasawa"), weight=2)
def iwasawas(ctx):
    f, g = ctx.api(D + "pre_iwasawa"), ctx.api(D + "iwasawa")
    for n, kind, S in each_symplectic(ctx, 1500, 12000):
        with ctx.case(f"iwasawa n={n} {kind}"):
            sc = max(1.0, np.linalg.norm(S, 2) ** 4)
            tol = 1e-9 * sc * n
            Z, I = np.zeros((n, n)), np.eye(n)
            E, Dm, F = f(S)
            E2, D2, F2 = g(S)
            for nm, (a, b, c) in (("pre", (E, Dm, F)), ("full", (E2, D2, F2))):
                ctx.close(f"{nm}: product", a @ b @ c, S, rtol=0, atol=tol)
                for q, X in zip("EDF", (a, b, c)):
                    ctx.check(np.isrealobj(X), f"{nm}: {q} is not real")
                    ctx.close(f"{nm}: {q} symplectic", X @ omega(n) @ X.T, omega(n), rtol=0, atol=tol)
                ctx.close(f"{nm}: F orthogonal", c @ c.T, np.eye(2 * n), rtol=0, atol=tol)
                ctx.close(f"{nm}: upper right block of E", a[:n, n:], Z, rtol=0, atol=tol)
            ctx.close("pre: E upper left", E[:n, :n], I, rtol=0, atol=tol)
            ctx.close("pre: E lower right", E[n:, n:], I, rtol=0, atol=tol)
            ctx.close("pre: X symmetric", E[n:, :n], E[n:, :n].T, rtol=0, atol=tol)
            ctx.close("pre: D off-diagonal blocks", np.concatenate([Dm[:n, n:], Dm[n:, :n]]), np.zeros((2 * n, n)), rtol=0, atol=tol)
            ctx.close("pre: D blocks inverse", Dm[:n, :n] @ Dm[n:, n:], I, rtol=0, atol=tol)
            ctx.check(np.linalg.eigvalsh((Dm + Dm.T) / 2).min() > 0, "pre: D is not positive definite")
            A = E2[:n, :n]
            ctx.close("full: A lower triangular", np.triu(A, 1), Z, rtol=0, atol=tol)
            ctx.close("full: unit diagonal", np.diag(A), np.ones(n), rtol=0, atol=tol)
            ctx.close("full: lower right block", E2[n:, n:] @ A.T, I, rtol=0, atol=tol)
            C = E2[n:, :n]
            ctx.close("full: A^T C symmetric", A.T @ C, C.T @ A, rtol=0, atol=tol)
            is_diag(ctx, "full: D", D2, 1e-12)
            d = np.diag(D2)
            ctx.check(np.all(d > 0), f"full: D not positive {d}")
            ctx.close("full: D halves inverse", d[:n] * d[n:], np.ones(n), rtol=0, atol=tol)
            if n > 1:
                ctx.nontrivial(S)
            ctx.sample(n=n, kind=kind, d=d[:4])


@section(must=("williamson", "symplectic_eigenvals"), weight=2)
def williamson(ctx):
    f, g = ctx.api(D + "williamson"), ctx.api(D + "symplectic_eigenvals")
    rng = ctx.rng
    for k, (n, kind, S) in enumerate(each_symplectic(ctx, 1500, 12000)):
        nu = rng.uniform(0.3, 4, size=n)
        t = k % 5
        if t == 0:
            nu[:] = 1.0
        elif t == 1:
            nu[:] = 2.5
        elif t == 2:
            nu[: n // 2] = 1.0
        elif t == 3:
            nu *= 10.0 ** rng.integers(-2, 4)
        V = S @ np.diag(np.tile(nu, 2)) @ S.T
        V = (V + V.T) / 2
        if np.linalg.eigvalsh(V).min() < 1e-7 * np.abs(V).max():
            ctx.count("ill conditioned, skipped")
            continue
        with ctx.case(f"williamson n={n} {kind} nu-kind {t}"):
            Db, T = f(gen.layout(rng, V))
            cond = np.linalg.cond(V)
            sc = np.abs(V).max()
            rt = 1e-12 * cond * n + 1e-11
            ctx.check(np.isrealobj(T) and np.isrealobj(Db), "factors are not real")
            ctx.close("S D S^T", T @ Db @ T.T, V, rtol=rt, scale=sc)
            ctx.close("S symplectic", T @ omega(n) @ T.T, omega(n), rtol=rt, scale=max(1, np.abs(T).max() ** 2))
            is_diag(ctx, "D", Db, 1e-12 * sc)
            d = np.diag(Db)
            ctx.check(np.all(d > 0), f"D not positive {d}")
            ctx.close("D halves equal", d[:n], d[n:], rtol=rt, scale=sc)
            ctx.close("symplectic spectrum", np.sort(d[:n]), np.sort(nu), rtol=rt, scale=sc)
            e = np.asarray(g(gen.layout(rng, V)))
            ctx.check(np.isrealobj(e), f"symplectic eigenvalues are not real: {e}")
            ctx.check(np.all(np.real(e) > 0), f"symplectic eigenvalues not positive: {e}")
            ctx.close("symplectic_eigenvals", np.sort(np.real(e)), np.sort(nu), rtol=rt, scale=sc)
            # invariance under congruence by another symplectic
            T2 = gen.symplectic(rng, n, 0.4)
            V2 = T2 @ V @ T2.T
            e2 = np.sort(np.real(np.asarray(g((V2 + V2.T) / 2))))
            ctx.close("invariant under symplectic congruence", e2, np.sort(nu), rtol=10 * rt, scale=sc)
            if n > 1:
                ctx.nontrivial(V)
            ctx.sample(n=n, kind=kind, nu=d[:4])


@section(must=("williamson",))
def williamson_generic(ctx):
    """Positive definite matrices that are not built from a known form."""
    f, g = ctx.api(D + "williamson"), ctx.api(D + "symplectic_eigenvals")
    rng = ctx.rng
    for k in range(ctx.n(400, 4000)):
        n = 1 + k % 8
        kind = ["wishart", "diagonal", "scalar", "tiny", "huge", "int", "direct"][k % 7]
        G = rng.normal(size=(2 * n, 2 * n))
        V = G @ G.T + 0.3 * np.eye(2 * n)
        if kind == "diagonal":
            V = np.diag(rng.uniform(0.2, 3, size=2 * n))
        elif kind == "scalar":
            V = np.eye(2 * n) * rng.uniform(0.2, 3)
        elif kind == "tiny":
            V = V * 1e-5
        elif kind == "huge":
            V = V * 1e5
        elif kind == "int":
            z = rng.integers(-1, 2, size=(2 * n, 2 * n))
            V = z @ z.T + 2 * np.eye(2 * n, dtype=int)
        elif kind == "direct":
            V = np.diag(np.repeat(rng.choice([0.5, 1.0, 2.0], size=2), n)[: 2 * n])
        with ctx.case(f"williamson generic n={n} {kind}"):
            Db, T = f(V)
            sc = np.abs(V).max()
            cond = np.linalg.cond(V)
            rt = 1e-12 * cond * n + 1e-11
            ctx.close("S D S^T", T @ Db @ T.T, V, rtol=rt, scale=sc)
            ctx.close("S symplectic", T @ omega(n) @ T.T, omega(n), rtol=rt, scale=max(1, np.abs(T).max() ** 2))
            is_diag(ctx, "D", Db, 1e-12 * sc)
            w = np.linalg.eigvals(1j * omega(n) @ V)
            nus = np.sort(np.abs(w.real))[::2]
            ctx.close("spectrum", np.sort(np.diag(Db)[:n]), nus, rtol=rt, scale=sc)
            ctx.close("spectrum (second half)", np.sort(np.diag(Db)[n:]), nus, rtol=rt, scale=sc)
            ctx.close("symplectic_eigenvals", np.sort(np.real(g(V))), nus, rtol=rt, scale=sc)
            ctx.nontrivial(V)


T_EXTRA = ("gauss_int", "gauss_int0", "cdiag", "cdiag_unit", "degenerate", "unitary", "involution", "almost_real",
           "almost_diag", "dft", "small", "large", "phase_real", "nullspace", "negative_real", "rank1", "zero_first")


def takagi_input(rng, n, kind):
    if kind == "gauss_int" or kind == "gauss_int0":
        z = np.triu(rng.choice([0, 0, 0, 1, 1j, -1, -1j], size=(n, n)), 1 if kind == "gauss_int0" else 0)
        return z + np.triu(z, 1).T
    if kind == "cdiag":
        return np.diag(rng.normal(size=n) + 1j * rng.normal(size=n))
    if kind == "cdiag_unit":
        return np.diag(rng.choice([1, 1j, -1, -1j, 0], size=n))
    if kind == "degenerate":
        U = gen.haar(rng, n)
        return U * rng.choice([0, 0.5, 1], size=n) @ U.T
    if kind == "unitary":
        U = gen.haar(rng, n)
        return U @ U.T
    if kind == "involution":
        M = np.zeros((n, n), complex)
        q = [int(x) for x in rng.permutation(n)]
        while q:
            a = q.pop()
            b = q.pop() if q and rng.random() < 0.7 else a
            M[a, b] = M[b, a] = rng.choice([1, 1j, -1, -1j, 1 + 1j])
        return M
    if kind == "almost_real":
        return gen.sym(rng, n, "real") + 10.0 ** rng.integers(-16, -8) * 1j * gen.sym(rng, n, "real")
    if kind == "almost_diag":
        return np.diag(rng.normal(size=n) + 1j * rng.normal(size=n)) + 10.0 ** rng.integers(-16, -3) * gen.sym(rng, n, "complex")
    if kind == "dft":
        k = np.arange(n)
        return np.exp(2j * np.pi * np.outer(k, k) / n) / np.sqrt(n)
    if kind == "small":
        return 1e-5 * gen.sym(rng, n, "complex")
    if kind == "large":
        return 1e6 * gen.sym(rng, n, "complex")
    if kind == "phase_real":
        return np.exp(1j * rng.uniform(0, 2 * np.pi)) * gen.sym(rng, n, "real")
    if kind == "nullspace":
        U = gen.haar(rng, n)
        d = np.zeros(n)
        d[: max(1, n // 3)] = rng.uniform(0.5, 2)
        return U * d @ U.T
    if kind == "negative_real":
        O = gen.orth(rng, n)
        return (O * rng.choice([-1.0, 1.0, -1.0], size=n)) @ O.T
    if kind == "rank1":
        v = rng.normal(size=n) + 1j * rng.normal(size=n)
        return np.outer(v, v)
    if kind == "zero_first":
        a = gen.sym(rng, n, "complex")
        a[0] = 0
        a[:, 0] = 0
        return a
    return gen.sym(rng, n, kind)


@section(must=("takagi",), weight=2)
def takagi(ctx):
    f = ctx.api(D + "takagi")
    rng = ctx.rng
    kinds = gen.SYM_KINDS + T_EXTRA + T_EXTRA
    for k in range(ctx.n(5000, 40000)):
        kind = kinds[k % len(kinds)]
        n = int(rng.integers(1, 8)) if k % 15 else int(rng.integers(8, 26))
        A = np.asarray(takagi_input(rng, n, kind))
        A = (A + A.T) / 2 if A.dtype.kind in "fc" else A
        so = bool(rng.integers(2))
        with ctx.case(f"takagi n={n} {kind} svd_order={so}"):
            arg = gen.layout(rng, A)
            if k % 7 == 0:  # documented: only the upper triangle is used
                arg = np.triu(A) + np.tril(rng.normal(size=(n, n)), -1)
            r, U = f(arg, svd_order=so) if not (so and rng.integers(2)) else f(arg)
            s = float(np.abs(A).max()) if n else 0.0
            tol = 2e-8 * n + 1e-9 * s * n  # the routine's own closeness threshold is absolute 1e-8
            r, U = np.asarray(r), np.asarray(U)
            ctx.close("U diag(r) U^T", (U * r) @ U.T, A, rtol=0, atol=tol)
            ctx.close("U unitary", U @ U.conj().T, np.eye(n), rtol=0, atol=1e-8 * n)
            ctx.check(r.dtype.kind == "f" and np.all(r >= 0), f"Takagi values not real and non-negative: {r}")
            o = np.diff(r)
            ctx.check(np.all(o <= 1e-12 * s) if so else np.all(o >= -1e-12 * s), f"order of the values wrong: {r}, svd_order={so}")
            sv = np.linalg.svd(A, compute_uv=False)
            ctx.close("singular values", np.sort(r)[::-1], sv, rtol=0, atol=tol)
            if n > 1:
                ctx.nontrivial(A, so)
            ctx.sample(kind=kind, n=n, r=r[:4])
