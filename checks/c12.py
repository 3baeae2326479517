"""C12: conversions, state classification, fidelity and entanglement against independent constructions."""
import itertools

import numpy as np

from vlib import forms, gen, oracles as O
from vlib.core import section

Q_ = "thewalrus.quantum."
E_ = "thewalrus.quantum.entanglement."


def omega(n):
    z, i = np.zeros((n, n)), np.eye(n)
    return np.block([[z, i], [-i, z]])


@section(must=("Qmat", "Covmat", "Amat", "Xmat", "complex_to_real_displacements", "real_to_complex_displacements"))
def conversions(ctx):
    qm, cm, am, xm = (ctx.api(Q_ + x) for x in ("Qmat", "Covmat", "Amat", "Xmat"))
    c2r, r2c = ctx.api(Q_ + "complex_to_real_displacements"), ctx.api(Q_ + "real_to_complex_displacements")
    rng = ctx.rng
    for k in range(ctx.n(1200, 12000)):
        n = 1 + k % 8
        hb = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, n, hb, kind, rmax=1.3, dmax=3)
        kw = {} if hb == 2.0 and k % 2 else {"hbar": hb}
        with ctx.case(f"conversions n={n} {kind} hbar={hb}"):
            al, N, M = O.a_moments(mu, cov, hb)
            want = np.block([[N, M.conj()], [M, N.conj()]]) + np.eye(2 * n)
            sc = np.abs(want).max()
            Qg = qm(gen.layout(rng, cov), **kw)
            ctx.close("Qmat", Qg, want, rtol=1e-12, scale=sc)
            ctx.close("Qmat hermitian", Qg, Qg.conj().T, rtol=1e-12, scale=sc)
            ctx.close("Covmat(Qmat)", cm(Qg, **kw), cov, rtol=1e-12, scale=np.abs(cov).max())
            ctx.close("Covmat", cm(gen.layout(rng, want), **kw), cov, rtol=1e-12, scale=np.abs(cov).max())
            ctx.close("Qmat(Covmat)", qm(cm(want, **kw), **kw), want, rtol=1e-12, scale=sc)
            X = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
            ctx.close("Xmat", xm(n), X, rtol=0, atol=0)
            wa = X @ (np.eye(2 * n) - np.linalg.inv(want)).conj()
            A = am(cov, **kw)
            ctx.close("Amat", A, wa, rtol=1e-9, atol=1e-9)
            ctx.close("Amat symmetric", A, A.T, rtol=0, atol=1e-9)
            ctx.close("Amat from Q", am(want, cov_is_qmat=True, **kw), wa, rtol=1e-9, atol=1e-9)
            back = np.linalg.inv(np.eye(2 * n) - (X @ np.asarray(A)).conj())
            ctx.close("Q from Amat", back, want, rtol=1e-9 * sc, scale=sc)
            if kind in ("pure", "product", "partial", "tms", "diagonal", "vacuum", "uneven"):
                ctx.close("Amat block structure of a pure state", A[:n, n:], np.zeros((n, n)), rtol=0, atol=1e-9)
            else:
                w = np.linalg.svd(A, compute_uv=False).max()
                ctx.check(w < 1 + 1e-9, f"Amat has singular value {w}")
            b = c2r(mu, **kw)
            wb = np.concatenate([al, al.conj()])
            ctx.close("complex displacements", b, wb, rtol=1e-13, atol=1e-13)
            ctx.close("real displacements", r2c(wb, **kw), mu, rtol=1e-13, atol=1e-12)
            ctx.close("displacements inverse", r2c(b, **kw), mu, rtol=1e-13, atol=1e-12)
            if n > 1:
                ctx.nontrivial(mu, cov, hb)
            ctx.sample(n=n, kind=kind, hbar=hb)


@section(must=("is_valid_cov", "is_pure_cov", "is_classical_cov", "is_symplectic"))
def classification(ctx):
    val, pure, cla, sym = (ctx.api(Q_ + x) for x in ("is_valid_cov", "is_pure_cov", "is_classical_cov", "is_symplectic"))
    rng = ctx.rng
    for k in range(ctx.n(1500, 15000)):
        n = 1 + k % 7
        hb = gen.hbar_of(rng)
        kw = {} if hb == 2.0 and k % 2 else {"hbar": hb}
        S = gen.symplectic(rng, n, float(rng.choice([0.0, 0.1, 0.8, 1.5])), ["generic", "degenerate", "partial", "diagonal"][k % 4])
        t = int(rng.integers(6))
        nu = np.ones(n)
        j = int(rng.integers(n))
        if t == 1:
            nu = rng.uniform(1.01, 3, size=n)
        elif t == 2:
            nu[j] = 1 + 10.0 ** rng.uniform(-2.5, 0)  # one slightly mixed mode
        elif t == 3:
            nu[j] = 1 - 10.0 ** rng.uniform(-3, -0.5)  # one unphysical mode
        elif t == 4:
            nu = rng.uniform(1.05, 2.5, size=n)
            nu[j] = rng.uniform(0.3, 0.98)  # det > 1 although unphysical
        elif t == 5:
            nu[:] = rng.uniform(1.01, 3)
        V = S @ np.diag(np.tile(nu, 2)) @ S.T
        V = (V + V.T) / 2
        physical = t not in (3, 4)
        with ctx.case(f"classification n={n} type {t} hbar={hb} nu={np.round(nu, 4)}"):
            cov = gen.layout(rng, V * hb / 2)
            mn = np.linalg.eigvalsh(V + 1j * omega(n)).min() * hb / 2
            if physical or mn < -1e-6:
                ctx.check(bool(val(cov, **kw)) is physical, f"is_valid_cov={val(cov, **kw)} for a {'physical' if physical else 'unphysical'} state (margin {mn:.3g})")
            ispure = bool(physical and np.all(nu == 1))
            purity = 1 / np.prod(nu)
            if ispure or not physical and mn < -1e-6 or purity < 1 - 1e-4:
                ctx.check(bool(pure(cov, **kw)) is ispure, f"is_pure_cov={pure(cov, **kw)}, purity {purity:.6g}, physical={physical}")
            m = np.linalg.eigvalsh(V - np.eye(2 * n)).min() * hb / 2
            if abs(m) > 1e-6 and (physical or mn < -1e-6):
                ctx.check(bool(cla(cov, **kw)) is bool(physical and m > 0), f"is_classical_cov={cla(cov, **kw)}, margin {m:.3g}")
            # defects of shape
            if k % 5 == 0:
                W = np.array(cov)
                a, b = (int(x) for x in rng.permutation(2 * n)[:2])
                W[a, b] += 0.05 * np.abs(W).max() + 0.01
                ctx.check(not val(W, **kw), f"is_valid_cov accepts a matrix with an asymmetry at {(a, b)}")
                ctx.check(not pure(W, **kw), f"is_pure_cov accepts an asymmetric matrix {(a, b)}")
                ctx.check(not cla(W, **kw), f"is_classical_cov accepts an asymmetric matrix {(a, b)}")
                ctx.check(not val(np.eye(2 * n + 1) * hb, **kw), "is_valid_cov accepts an odd dimension")
                ctx.check(not val(np.ones((2 * n, 2 * n + 2)), **kw), "is_valid_cov accepts a non-square matrix")
                ctx.check(not pure(np.eye(2 * n + 1) * hb / 2, **kw), "is_pure_cov accepts an odd dimension")
            # the wrong units
            if t == 0 and hb >= 1.7:
                ctx.check(not val(cov, hbar=hb * 1.5), "a pure state is accepted in units in which it is unphysical")
                ctx.check(not pure(cov, hbar=hb / 1.5), "a pure state is accepted as pure in units in which it is mixed")
            ctx.check(bool(sym(gen.layout(rng, S))) is True, "is_symplectic rejects a symplectic matrix")
            H = S.copy()
            a, b = int(rng.integers(2 * n)), int(rng.integers(2 * n))
            H[a, b] += float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-3, 0)
            dev = np.abs(H.T @ omega(n) @ H - omega(n)).max()
            if dev > 3e-4 * max(1, np.abs(S).max() ** 2):
                ctx.check(not bool(sym(H)), f"is_symplectic accepts a matrix off by {dev:.3g} (entry {(a, b)})")
            if n > 1:
                ctx.nontrivial(cov)
            ctx.sample(n=n, type=t, physical=physical, margin=mn)


def one_mode_fid(n1, n2):
    """Fidelity of two thermal states with mean photon numbers n1, n2."""
    return 1 / (np.sqrt((1 + n1) * (1 + n2)) - np.sqrt(n1 * n2)) ** 2


def trace_norm_fid(r, s):
    w, v = np.linalg.eigh(r)
    sq = (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T
    w = np.linalg.eigvalsh(sq @ s @ sq)
    return float(np.sum(np.sqrt(np.clip(w, 0, None))) ** 2)


@section(must=("fidelity",), weight=2)
def fidelities(ctx):
    f = ctx.api(Q_ + "fidelity")
    rng = ctx.rng
    pure_kinds = ("pure", "vacuum", "product", "partial", "tms", "diagonal", "uneven")
    for k in range(ctx.n(1500, 15000)):
        n = 1 + k % 6
        hb = gen.hbar_of(rng)
        kw = {} if hb == 2.0 and k % 2 else {"hbar": hb}
        k1, k2 = (gen.STATE_KINDS[i] for i in rng.integers(len(gen.STATE_KINDS), size=2))
        m1, c1 = gen.state(rng, n, hb, k1)
        m2, c2 = gen.state(rng, n, hb, k2)
        if k % 5 == 1:
            c2, k2 = c1.copy(), k1
        elif k % 5 == 2:
            m2 = m1.copy()
        elif k % 5 == 3:
            m1, m2 = np.zeros(2 * n), np.zeros(2 * n)
        with ctx.case(f"fidelity n={n} {k1}/{k2} hbar={hb}"):
            F = f(m1, c1, m2, c2, **kw)
            ctx.check(np.isrealobj(F) and np.ndim(F) == 0, f"fidelity is not a real number: {F!r}")
            F = float(np.real(F))
            tol = 2e-6
            ctx.check(-1e-12 <= F <= 1 + tol, f"fidelity {F} outside [0,1]")
            ctx.close("symmetric", f(m2, c2, m1, c1, **kw), F, rtol=0, atol=tol)
            ctx.close("with itself", f(m1, c1, m1.copy(), c1.copy(), **kw), 1.0, rtol=0, atol=tol)
            dist = np.abs(m1 - m2).max() / np.sqrt(hb) + np.abs(c1 - c2).max() / hb
            if dist > 0.1:
                ctx.check(F < 1 - 1e-5, f"fidelity {F} of different states (distance {dist:.3g})")
            s, d = c1 + c2, m1 - m2
            ov = np.exp(-0.5 * d @ np.linalg.solve(s, d)) * hb**n / np.sqrt(np.linalg.det(s))
            if k1 in pure_kinds or k2 in pure_kinds:
                ctx.close("equals the overlap if one state is pure", F, ov, rtol=0, atol=tol)
            else:
                ctx.check(F >= ov - tol, f"fidelity {F} below the overlap {ov}")
            # invariance under a common Gaussian unitary and under a change of units
            S = gen.symplectic(rng, n, 0.5)
            t = rng.normal(size=2 * n)
            h2 = gen.hbar_of(rng)
            q = np.sqrt(h2 / hb)
            ctx.close("common Gaussian unitary", f(S @ m1 + t, S @ c1 @ S.T, S @ m2 + t, S @ c2 @ S.T, **kw), F, rtol=0, atol=tol)
            ctx.close("units", f(q * m1, q * q * c1, q * m2, q * q * c2, hbar=h2), F, rtol=0, atol=tol)
            # multiplicative over products
            if n <= 3:
                a1, b1 = gen.state(rng, 1, hb)
                a2, b2 = gen.state(rng, 1, hb)
                Fp = f(a1, b1, a2, b2, **kw)

                def join(ma, ca, mb, cb):
                    na, nb = len(ma) // 2, len(mb) // 2
                    Mn = na + nb
                    ia = list(range(na)) + [Mn + i for i in range(na)]
                    ib = [na + i for i in range(nb)] + [Mn + na + i for i in range(nb)]
                    mm, cc = np.zeros(2 * Mn), np.zeros((2 * Mn, 2 * Mn))
                    mm[ia], mm[ib] = ma, mb
                    cc[np.ix_(ia, ia)], cc[np.ix_(ib, ib)] = ca, cb
                    return mm, cc

                ctx.close("product states", f(*join(m1, c1, a1, b1), *join(m2, c2, a2, b2), **kw), F * Fp, rtol=0, atol=tol)
            # monotone under a common loss
            eta = float(rng.uniform(0.1, 0.9))
            I = np.eye(2 * n) * hb / 2
            Fl = f(np.sqrt(eta) * m1, eta * c1 + (1 - eta) * I, np.sqrt(eta) * m2, eta * c2 + (1 - eta) * I, **kw)
            ctx.check(Fl >= F - tol, f"fidelity decreased from {F} to {Fl} under a common loss channel")
            # common symplectic applied to two products of thermal states
            n1, n2 = rng.uniform(0, 2, size=n), rng.uniform(0, 2, size=n)
            if k % 4 == 0:
                n2 = n1 * (1 + 0.01 * rng.normal(size=n))
            if k % 7 == 0:
                n1[0] = 0
            if k % 9 == 0:
                n1 = 10.0 ** rng.uniform(-6, -2, size=n)
                n2 = 10.0 ** rng.uniform(-6, -2, size=n)
            S = gen.symplectic(rng, n, 0.6)
            V1 = S @ np.diag(np.tile(2 * n1 + 1, 2)) @ S.T * hb / 2
            V2 = S @ np.diag(np.tile(2 * n2 + 1, 2)) @ S.T * hb / 2
            ctx.close("states diagonal in a common basis", f(t, V1, t, V2, **kw), np.prod(one_mode_fid(n1, n2)), rtol=0, atol=5e-6)
            if n > 1:
                ctx.nontrivial(m1, c1, m2, c2)
            ctx.sample(n=n, kinds=(k1, k2), hbar=hb, F=F)


@section(must=("fidelity",))
def fidelity_fock(ctx):
    """Mixed, displaced states: Uhlmann fidelity of truncated density matrices."""
    f = ctx.api(Q_ + "fidelity")
    rng = ctx.rng
    for k in range(ctx.n(40, 250)):
        n = 1 + (k % 4 == 3)
        cut = 26 if n == 1 else 9
        hb = gen.hbar_of(rng)
        g = dict(rmax=0.35, nmax=0.3, dmax=0.6) if n == 1 else dict(rmax=0.18, nmax=0.1, dmax=0.25)
        m1, c1 = gen.state(rng, n, hb, ["mixed", "lossy", "thermal", "classical"][k % 4] if n == 1 else "mixed", **g)
        m2, c2 = gen.state(rng, n, hb, ["lossy", "mixed", "mixed"][k % 3], **g)
        with ctx.case(f"uhlmann n={n} hbar={hb} #{k}"):
            R1 = O.dm_table(m1, c1, hb, (cut,) * n).reshape(cut**n, cut**n)
            R2 = O.dm_table(m2, c2, hb, (cut,) * n).reshape(cut**n, cut**n)
            miss = max(1 - np.trace(R1).real, 1 - np.trace(R2).real, 0)
            if miss > 1e-4:
                ctx.count("tail too heavy, skipped")
                continue
            ctx.close("Uhlmann fidelity", f(m1, c1, m2, c2, hbar=hb), trace_norm_fid(R1, R2), rtol=0, atol=1e-5 + 3 * np.sqrt(miss) * 1e-1 + 3 * miss)
            ctx.nontrivial(m1, c1, m2, c2)


def g_entropy(nu):
    nu = max(float(nu), 1.0)
    if nu - 1 < 1e-13:
        return 0.0
    a, b = (nu + 1) / 2, (nu - 1) / 2
    return a * np.log(a) - b * np.log(b)


def spectrum(V):
    n = len(V) // 2
    w = np.linalg.eigvals(1j * omega(n) @ V)
    return np.sort(np.abs(w.real))[::2]


@section(must=("vonneumann_entropy", "entanglement_entropy", "log_negativity"), weight=2)
def entanglement(ctx):
    vn, ee, ln = ctx.api(E_ + "vonneumann_entropy"), ctx.api(E_ + "entanglement_entropy"), ctx.api(E_ + "log_negativity")
    rng = ctx.rng
    for k in range(ctx.n(1200, 12000)):
        n = 2 + k % 5
        hb = gen.hbar_of(rng)
        kw = {} if hb == 2.0 and k % 2 else {"hbar": hb}
        kind = ["pure", "mixed", "lossy", "tms", "product", "thermal", "partial", "degenerate", "uneven", "near_pure"][k % 10]
        if kind == "degenerate":
            S = gen.symplectic(rng, n, 0.8, "degenerate")
            cov = S @ S.T * hb / 2
        else:
            _, cov = gen.state(rng, n, hb, kind, rmax=1.0)
        V = cov * 2 / hb
        q = int(rng.integers(1, n))
        A = sorted(int(x) for x in rng.permutation(n)[:q]) if k % 3 else [int(x) for x in rng.permutation(n)[:q]]
        B = [i for i in range(n) if i not in A]
        with ctx.case(f"entanglement n={n} {kind} hbar={hb} A={A}"):
            nus = spectrum(V)
            # vonneumann_entropy treats symplectic eigenvalues within 1e-5 of 1 as pure (documented tolerance of isclose)
            allnu = np.concatenate([nus, spectrum(O.reduced(np.zeros(2 * n), V, A)[1]), spectrum(O.reduced(np.zeros(2 * n), V, B)[1])])
            TOL = 1e-6 if not np.any((allnu > 1 + 1e-8) & (allnu < 1 + 3e-5)) else 5e-4
            s = vn(cov, **kw)
            ctx.check(np.isrealobj(s), f"entropy not real {s!r}")
            ctx.close("von Neumann entropy", s, sum(g_entropy(x) for x in nus), rtol=1e-8, atol=TOL)
            ctx.check(np.real(s) >= -1e-9, f"entropy negative {s}")
            T = gen.symplectic(rng, n, 0.4)
            c2 = T @ cov @ T.T
            ctx.close("entropy invariant under Gaussian unitaries", vn((c2 + c2.T) / 2, **kw), s, rtol=1e-8, atol=TOL)
            h2 = gen.hbar_of(rng)
            ctx.close("entropy independent of units", vn(cov * h2 / hb, hbar=h2), s, rtol=1e-8, atol=TOL)
            # logarithmic negativity
            sp = k % 4 == 0
            if sp:
                q = int(rng.integers(1, n))
                A, B = list(range(q)), list(range(q, n))
                call = lambda fn, c, h: fn(c, split=q, **h)
            else:
                arg = [A, tuple(A), np.array(A), A][k % 4] if q > 1 or k % 2 else A[0]
                if A == list(range(A[0], A[0] + q)) and k % 5 == 0:
                    arg = range(A[0], A[0] + q)
                call = lambda fn, c, h: fn(c, modes_A=arg, **h)
            P = np.ones(2 * n)
            for a in A:
                P[n + a] = -1
            nt = spectrum(V * np.outer(P, P))
            want = -sum(np.log(x) for x in nt if x < 1)
            E = call(ln, cov, kw)
            ctx.check(np.isrealobj(E), f"log negativity not real {E!r}")
            ctx.close("logarithmic negativity", E, want, rtol=1e-8, atol=1e-7)
            ctx.check(np.real(E) >= -1e-12, f"log negativity negative {E}")
            ctx.close("log negativity seen from the other side", ln(cov, modes_A=B, **kw), E, rtol=1e-8, atol=1e-7)
            ctx.close("log negativity independent of units", call(ln, cov * h2 / hb, {"hbar": h2}), E, rtol=1e-8, atol=1e-7)
            # local unitary on A and on B
            L = np.eye(2 * n)
            for part in (A, B):
                Sx = gen.symplectic(rng, len(part), 0.3)
                ix = part + [i + n for i in part]
                L[np.ix_(ix, ix)] = Sx
            cl = L @ cov @ L.T
            cl = (cl + cl.T) / 2
            ctx.close("log negativity invariant under local unitaries", call(ln, cl, kw), E, rtol=1e-7, atol=1e-6)
            if kind in ("pure", "tms", "product", "partial", "degenerate", "uneven"):
                half = spectrum(O.reduced(np.zeros(2 * n), V, A)[1])
                TOL = 1e-6 if not np.any((half > 1 + 1e-8) & (half < 1 + 3e-5)) else 5e-4
                w = sum(g_entropy(x) for x in half)
                e = call(ee, cov, kw)
                ctx.check(np.isrealobj(e) and np.real(e) >= -1e-9, f"entanglement entropy {e!r}")
                ctx.close("entanglement entropy", e, w, rtol=1e-8, atol=TOL)
                ctx.close("entanglement entropy of the other half", ee(cov, modes_A=B, **kw), e, rtol=1e-7, atol=TOL)
                ctx.close("entanglement entropy, local unitaries", call(ee, cl, kw), e, rtol=1e-7, atol=TOL)
                ctx.close("entanglement entropy, units", call(ee, cov * h2 / hb, {"hbar": h2}), e, rtol=1e-8, atol=TOL)
                # pure states: E_N = 2 log sum of Schmidt coefficients
                z = spectrum(O.reduced(np.zeros(2 * n), V, A)[1])
                z = np.maximum(z, 1)
                ctx.close("log negativity of a pure state", E, np.sum(np.log(z + np.sqrt(z * z - 1))), rtol=1e-7, atol=1e-6)
                ctx.check(np.real(E) >= np.real(e) - TOL, f"log negativity {E} below the entanglement entropy {e}")
            if kind in ("product", "thermal"):
                ctx.close("product states are not entangled", E, 0.0, rtol=0, atol=1e-7)
            ctx.nontrivial(cov, A)
            ctx.sample(n=n, kind=kind, A=A, E=E, S=s)


@section
def old_names(ctx):
    """The deprecated names, where still offered, give what the new names give."""
    for old, new in (("Means", "real_to_complex_displacements"), ("Beta", "complex_to_real_displacements")):
        f, g = ctx.api("thewalrus.quantum." + old, optional=True), ctx.api("thewalrus.quantum." + new)
        if f is None:
            ctx.count("old names no longer offered")
            continue
        for k in range(ctx.n(12, 60)):
            n = 1 + k % 3
            hbar = gen.hbar_of(ctx.rng)
            args, kw = (ctx.rng.normal(size=2 * n),), dict(hbar=hbar) if k % 2 else {}
            with ctx.case(f"{old} #{k}"):
                ctx.close(old, f(*args, **kw), g(*args, **kw), rtol=1e-12, atol=1e-14)
                ctx.nontrivial(old, k)


@section(must=("fidelity", "vonneumann_entropy", "entanglement_entropy", "log_negativity", "Qmat", "is_valid_cov"))
def other_forms(ctx):
    """Integer, strided, Fortran-ordered and read-only data, numpy scalars: the value does not depend on the form."""
    fs = {x: ctx.api(Q_ + x) for x in ("Qmat", "Covmat", "Amat", "is_valid_cov", "is_pure_cov", "is_classical_cov", "fidelity", "real_to_complex_displacements", "complex_to_real_displacements")}
    fs.update({x: ctx.api(E_ + x) for x in ("vonneumann_entropy", "entanglement_entropy", "log_negativity")})
    rng = ctx.rng
    for k in range(ctx.n(150, 1500)):
        n = 1 + k % 4
        hbar = 2.0 if k % 2 else gen.hbar_of(rng)
        mu, cov = gen.int_state(rng, n) if k % 2 else gen.state(rng, n, hbar)
        kw = dict(hbar=hbar)
        for x in ("Qmat", "Amat", "is_valid_cov", "is_pure_cov", "is_classical_cov"):
            forms.same(ctx, x, fs[x], (cov,), kw, f"n={n}")
        forms.same(ctx, "Covmat", fs["Covmat"], (np.asarray(O.husimi(mu, cov, hbar)[1]),), kw, f"n={n}")
        forms.same(ctx, "vonneumann_entropy", fs["vonneumann_entropy"], (cov,), kw, f"n={n}", rtol=1e-6, atol=1e-6)
        forms.same(ctx, "real_to_complex_displacements", fs["real_to_complex_displacements"], (mu,), kw, f"n={n}")
        mu2, cov2 = gen.int_state(rng, n) if rng.integers(2) and k % 2 else gen.state(rng, n, hbar, "mixed")
        forms.same(ctx, "fidelity", fs["fidelity"], (mu, cov, mu2, cov2), kw, f"n={n}", rtol=1e-6, atol=1e-6)
        if n > 1:
            _, pure = gen.int_state(rng, n, True) if k % 2 else gen.state(rng, n, hbar, "pure")
            A = [int(x) for x in rng.permutation(n)[: int(rng.integers(1, n))]]
            forms.same(ctx, "entanglement_entropy", fs["entanglement_entropy"], (pure,), dict(kw, modes_A=A), f"n={n} {A}", rtol=1e-6, atol=1e-6)
            forms.same(ctx, "log_negativity", fs["log_negativity"], (cov,), dict(kw, modes_A=A), f"n={n} {A}", rtol=1e-6, atol=1e-6)
            h = int(rng.integers(1, n))
            forms.same(ctx, "log_negativity", lambda V, h=h, **q: fs["log_negativity"](V, split=h, **q), (cov,), kw, f"n={n} split={h}", rtol=1e-6, atol=1e-6)
