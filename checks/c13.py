"""C13: Fock tensors of Gaussian gates vs the Bargmann kernel of the Bogoliubov map, operator exponentials,
intertwining relations and finite differences.

Kernel (own derivation): for U^dag a U = A a + B a^dag + d the generating function of <m|U|n> is
c exp(1/2 z T z + z P w + 1/2 w R w + l z + k w) with T = B A*^-1, P = (A^dag)^-1, R = -A*^-1 B*,
l = d - T d*, k = -A*^-1 d*.
"""
import numpy as np

from vlib import focksim as F, gen, oracles as O
from vlib.core import section

G = "thewalrus.fock_gradients."


def kernel(A, B, d):
    A, B, d = np.atleast_2d(A).astype(complex), np.atleast_2d(B).astype(complex), np.atleast_1d(d).astype(complex)
    Ai = np.linalg.inv(A.conj())
    T, P, R = B @ Ai, np.linalg.inv(A.conj().T), -Ai @ B.conj()
    return np.block([[T, P], [P.T, R]]), np.concatenate([d - T @ d.conj(), -Ai @ d.conj()])


def vac_amp(A, B, d):
    """|<0|U|0>| from the overlap of the vacuum with the state U|0>."""
    A, B, d = np.atleast_2d(A), np.atleast_2d(B), np.atleast_1d(d)
    S = np.block([[(A + B).real, -(A - B).imag], [(A + B).imag, (A - B).real]])
    mu = 2 * np.concatenate([np.real(d), np.imag(d)])
    return np.sqrt(O.vacuum_prob(mu, S @ S.T, 2.0))


def elements(A, B, d, cut):
    M, v = kernel(A, B, d)
    n = len(np.atleast_1d(d))
    return vac_amp(A, B, d) * O.lhaf_table_renorm(M, v, (cut,) * (2 * n))


Z1 = np.zeros((1, 1))


def b_disp(r, phi):
    return np.eye(1), Z1, np.array([r * np.exp(1j * phi)])


def b_sq(r, th):
    return np.array([[np.cosh(r)]]), np.array([[-np.exp(1j * th) * np.sinh(r)]]), np.zeros(1)


def b_bs(th, phi):
    e = np.exp(1j * phi)
    return np.array([[np.cos(th), -np.conj(e) * np.sin(th)], [e * np.sin(th), np.cos(th)]]), np.zeros((2, 2)), np.zeros(2)


def b_mz(th, phi):
    v, u = np.exp(1j * th), np.exp(1j * phi)
    return 0.5 * np.array([[u * (v - 1), 1j * (1 + v)], [1j * u * (1 + v), 1 - v]]), np.zeros((2, 2)), np.zeros(2)


def b_tms(r, th):
    return np.cosh(r) * np.eye(2), np.exp(1j * th) * np.sinh(r) * np.array([[0, 1], [1, 0]]), np.zeros(2)


GATES = {
    "displacement": (b_disp, 1), "squeezing": (b_sq, 1), "beamsplitter": (b_bs, 2), "mzgate": (b_mz, 2), "two_mode_squeezing": (b_tms, 2),
}
GRADS = {"displacement": "grad_displacement", "squeezing": "grad_squeezing", "beamsplitter": "grad_beamsplitter", "mzgate": "grad_mzgate",
         "two_mode_squeezing": "grad_two_mode_squeezing"}
ANG = np.array([0, np.pi / 2, np.pi, -np.pi / 2, np.pi / 4, 2 * np.pi])


def angle(rng):
    return float(rng.choice(ANG)) if rng.random() < 0.25 else float(rng.uniform(-7, 7))


def params(rng, gate, big=False):
    if gate in ("beamsplitter", "mzgate"):
        return angle(rng), angle(rng)
    r = float(rng.uniform(-1.3, 1.3))
    if big:
        r = float(rng.uniform(-2.5, 2.5))
    if rng.random() < 0.1:
        r = 0.0
    return r, angle(rng)


def annihilate(T, n, i):
    """a_i T restricted to the shape of T (last row left out by the caller)."""
    out = np.zeros_like(T)
    c = T.shape[0]
    for m in range(c - 1):
        src = [slice(None)] * T.ndim
        dst = [slice(None)] * T.ndim
        src[i], dst[i] = m + 1, m
        out[tuple(dst)] = np.sqrt(m + 1) * T[tuple(src)]
    return out


def right(T, n, j, dag):
    """T a_j (dag False) or T a_j^dag."""
    out = np.zeros_like(T)
    c = T.shape[0]
    ax = n + j
    for k in range(c):
        dst = [slice(None)] * T.ndim
        src = [slice(None)] * T.ndim
        dst[ax] = k
        if dag and k + 1 < c:  # a^dag |k> = sqrt(k+1)|k+1>
            src[ax] = k + 1
            out[tuple(dst)] = np.sqrt(k + 1) * T[tuple(src)]
        if not dag and k > 0:
            src[ax] = k - 1
            out[tuple(dst)] = np.sqrt(k) * T[tuple(src)]
    return out


def intertwine(ctx, what, T, A, B, d, tol):
    """a_i U = U (A a + B a^dag + d)_i on all indices below cutoff-1: exact relation inside the cutoff."""
    A, B, d = np.atleast_2d(A), np.atleast_2d(B), np.atleast_1d(d)
    n, c = len(d), T.shape[0]
    if c < 2:
        return
    s = (slice(0, c - 1),) * (2 * n)
    for i in range(n):
        lhs = annihilate(T, n, i)
        rhs = d[i] * T
        for j in range(n):
            rhs = rhs + A[i, j] * right(T, n, j, False) + B[i, j] * right(T, n, j, True)
        ctx.close(f"{what}: a_{i} U = U a'_{i}", lhs[s], rhs[s], rtol=tol, scale=np.sqrt(c) * (1 + np.abs(d).max() + np.abs(A).max()), key=f"{what}: intertwining")


def gate_section(gate):
    def run(ctx):
        f, g = ctx.api(G + gate), ctx.api(G + GRADS[gate])
        bog, n = GATES[gate]
        rng = ctx.rng
        reps = ctx.n(400 if n == 1 else 200, 3000 if n == 1 else 1500)
        for k in range(reps):
            single = k % 5 == 4
            cut = int(rng.integers(1, 15)) if n == 1 else int(rng.integers(1, 7))
            p = params(rng, gate, big=k % 7 == 3)
            dt = np.complex64 if single else np.complex128
            tol = 2e-4 if single else 1e-9
            with ctx.case(f"{gate}{tuple(round(x, 4) for x in p)} cutoff {cut} {dt.__name__}"):
                T = f(*p, cut, dt) if single else (f(*p, cut) if k % 2 else f(p[0], p[1], cutoff=cut))
                W = elements(*bog(*p), cut)
                ctx.check(T.dtype == dt, f"dtype {T.dtype}, expected {dt}")
                ctx.close(gate, T, W, rtol=tol, scale=1.0)
                if np.abs(W).max() > 1.0001:
                    raise RuntimeError("oracle broken")
                gr = g(T, *p)
                h = 2e-3
                for i, nm in enumerate(("first", "second")):
                    def at(s):
                        q = list(p)
                        q[i] += s * h
                        return elements(*bog(*q), cut)

                    D = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
                    # |U00| carries the modulus of the parameter dependence only, all gates have U00 > 0
                    ctx.close(f"gradient w.r.t. the {nm} parameter", gr[i], D, rtol=1e-3 if single else 2e-7, scale=max(1.0, np.abs(D).max()))
                if not single:
                    intertwine(ctx, gate, np.asarray(T), *bog(*p), 1e-9)
                    q = params(rng, gate)
                    if gate in ("displacement", "squeezing", "two_mode_squeezing", "beamsplitter"):
                        Ti = f(-p[0], p[1], cut)
                        Td = np.conj(np.transpose(T, (1, 0) if n == 1 else (2, 3, 0, 1)))
                        ctx.close("inverse is the adjoint", Ti, Td, rtol=0, atol=1e-9)
                    if gate == "squeezing":
                        m = np.arange(cut)
                        odd = (m[:, None] + m[None]) % 2 == 1
                        ctx.check(np.all(T[odd] == 0), "squeezing violates parity")
                    if gate in ("beamsplitter", "mzgate"):
                        ix = np.indices((cut,) * 4)
                        ctx.check(np.all(T[ix[0] + ix[1] != ix[2] + ix[3]] == 0), "photon number not conserved")
                        T2 = f(*q, cut)
                        comp = np.einsum("abcd,cdef->abef", T, T2)
                        keep = ix[0] + ix[1] < cut
                        # product of two passive unitaries: exact inside complete photon-number blocks
                        A = bog(*p)[0] @ bog(*q)[0]
                        Wc = elements(A, np.zeros((2, 2)), np.zeros(2), cut)
                        ctx.close("composition", comp[keep], Wc[keep], rtol=0, atol=1e-9)
                        U = np.einsum("abcd,efcd->abef", T, T.conj())
                        I = np.einsum("ae,bf->abef", np.eye(cut), np.eye(cut))
                        kk = keep & (ix[2] + ix[3] < cut)
                        ctx.close("unitary inside complete blocks", U[kk], I[kk], rtol=0, atol=1e-9)
                    if gate == "two_mode_squeezing":
                        ix = np.indices((cut,) * 4)
                        ctx.check(np.all(T[ix[0] - ix[1] != ix[2] - ix[3]] == 0), "photon number difference not conserved")
                ctx.check(np.all(np.sum(np.abs(np.asarray(T).reshape(cut**n, cut**n)) ** 2, axis=0) < 1 + 10 * tol), "columns longer than one")
                if cut > 1:
                    ctx.nontrivial(gate, p, cut)
                ctx.sample(gate=gate, p=p, cut=cut, T00=T[(0,) * (2 * n)])

    run.__name__ = "gate_" + gate
    return section(must=(gate, GRADS[gate]))(run)


gate_displacement = gate_section("displacement")
gate_squeezing = gate_section("squeezing")
gate_beamsplitter = gate_section("beamsplitter")
gate_mzgate = gate_section("mzgate")
gate_two_mode_squeezing = gate_section("two_mode_squeezing")


@section(must=("displacement", "squeezing"))
def exponentials(ctx):
    """Independent of any recurrence: matrix exponentials of the generators; larger cutoffs; composition laws."""
    fd, fs, fb, ft = (ctx.api(G + x) for x in ("displacement", "squeezing", "beamsplitter", "two_mode_squeezing"))
    rng = ctx.rng
    for k in range(ctx.n(40, 300)):
        cut = int(rng.integers(2, 40))
        r, phi = float(rng.uniform(0, 1.5)), angle(rng)
        with ctx.case(f"exponentials r={r:.3f} phi={phi:.3f} cutoff={cut}"):
            D = F.op_disp(r * np.exp(1j * phi), cut, pad=70)
            ctx.close("displacement vs exponential", fd(r, phi, cut), D, rtol=0, atol=1e-8)
            rs = min(r, 0.8)
            ctx.close("squeezing vs exponential", fs(rs, phi, cut), F.op_squeeze(rs, phi, cut, pad=220), rtol=0, atol=1e-8)
            c2 = int(rng.integers(2, 8))
            th = angle(rng)
            ctx.close("beamsplitter vs exponential", fb(th, phi, c2), F.op_bs(th, phi, c2), rtol=0, atol=1e-9)
            ctx.close("two-mode squeezing vs exponential", ft(rs, phi, c2), F.op_tms(rs, phi, c2, pad=110), rtol=0, atol=1e-8)
            # composition with enough padding
            N = cut + 60
            r2 = float(rng.uniform(-0.8, 0.8))
            ctx.close("displacements compose", (fd(r2, phi, N) @ fd(r, phi, N))[:cut, :cut], fd(r + r2, phi, cut), rtol=0, atol=1e-7)
            ctx.nontrivial(r, phi, cut)


def passive(U):
    return U, np.zeros_like(U), np.zeros(len(U))


def bogo_to_S(A, B):
    return np.block([[(A + B).real, -(A - B).imag], [(A + B).imag, (A - B).real]])


def S_to_bogo(S):
    n = len(S) // 2
    X, Y, Z, W = S[:n, :n], S[:n, n:], S[n:, :n], S[n:, n:]
    A = 0.5 * (X + W + 1j * (Z - Y))
    B = 0.5 * (X - W + 1j * (Z + Y))
    return A, B


@section(must=("fock_tensor",), weight=2)
def gaussian_unitaries(ctx):
    f = ctx.api("thewalrus.quantum.fock_tensor")
    rng = ctx.rng
    for k in range(ctx.n(300, 2000)):
        n = [1, 2, 1, 2, 3][k % 5]
        cut = {1: int(rng.integers(1, 13)), 2: int(rng.integers(1, 6)), 3: int(rng.integers(1, 4))}[n]
        kind = ["generic", "passive", "disp", "identity", "partial", "passive_disp", "diagonal", "almost_passive"][k % 8]
        al = (rng.normal(size=n) + 1j * rng.normal(size=n)) * 0.6
        if kind in ("passive", "passive_disp"):
            S = gen.passive_symplectic(gen.haar(rng, n))
        elif kind in ("disp", "identity"):
            S = np.eye(2 * n)
        elif kind == "almost_passive":
            S = gen.symplectic(rng, n, 1e-3)
        else:
            S = gen.symplectic(rng, n, 0.8, {"generic": "generic", "partial": "partial", "diagonal": "diagonal"}[kind])
        if kind in ("passive", "identity") or (kind == "generic" and k % 3 == 0):
            al = al * 0
        elif k % 6 == 1:
            al = al * np.array([1e-3] * n)
        if k // 8 % 4 == 1:  # displacements along one quadrature
            al = 1j * al.imag
        elif k // 8 % 4 == 2:
            al = al.real + 0j * al if k % 2 else al.real.copy()
        elif k // 8 % 4 == 3:  # one mode displaced
            al = al * np.eye(n)[k % n]
        with ctx.case(f"fock_tensor n={n} {kind} cutoff={cut} #{k}"):
            A, B = S_to_bogo(S)
            W = elements(A, B, al, cut)
            kw = {}
            if k % 4 == 1:
                kw["choi_r"] = float(rng.uniform(0.4, 1.4)) * (-1) ** (k // 4)
            arg = [al, list(al), al][k % 3]
            T = np.asarray(f(S, arg, cut, **kw))
            w0, t0 = W[(0,) * (2 * n)], T[(0,) * (2 * n)]
            if ctx.close("|<0|U|0>|", abs(t0), abs(w0), rtol=1e-6, atol=1e-12) and abs(t0) > 1e-8:
                ph = t0 / w0 / abs(t0 / w0)
                ctx.close("fock_tensor (up to a global phase)", T / ph, W, rtol=0, atol=1e-7)
                intertwine(ctx, "fock_tensor", T, A, B, al, 1e-7)
            Tsf = np.asarray(f(S, arg, cut, sf_order=True, **kw))
            ax = [x for i in range(n) for x in (i, i + n)]
            ctx.close("sf_order", Tsf, T.transpose(ax), rtol=0, atol=1e-12)
            if k % 3 == 0:
                ctx.close("choi_r does not matter", f(S, arg, cut, choi_r=[0.7, -0.9, 0.35, 1.2][k // 3 % 4], check_symplectic=False), T, rtol=0, atol=1e-7)
            if cut > 1:
                ctx.nontrivial(S, al, cut)
            ctx.sample(n=n, kind=kind, cut=cut, U00=t0)


@section(must=("fock_tensor", "state_vector"))
def act_on_states(ctx):
    """Gate tensors applied to a Gaussian state's vector give the transformed state's vector."""
    f, sv = ctx.api("thewalrus.quantum.fock_tensor"), ctx.api("thewalrus.quantum.state_vector")
    gates = {g: ctx.api(G + g) for g in GATES}
    rng = ctx.rng
    for k in range(ctx.n(40, 250)):
        n = 1 + k % 2
        N = 34 if n == 1 else 14
        hb = gen.hbar_of(rng)
        kindr = 0.25 if n == 1 else 0.12
        mu, cov = gen.state(rng, n, hb, "pure", disp=True, rmax=kindr, dmax=0.5 if n == 1 else 0.3)
        g = list(GATES)[k % 5] if k % 3 else None
        if g is not None and GATES[g][1] != n:
            g = {1: "squeezing", 2: "beamsplitter"}[n]
        with ctx.case(f"gate {g or 'generic'} on a {n}-mode state, hbar={hb}"):
            if g:
                p = params(rng, g)
                if g in ("displacement", "squeezing", "two_mode_squeezing"):
                    p = (0.3 * p[0], p[1])
                A, B, d = GATES[g][0](*p)
                S = bogo_to_S(np.asarray(A, complex), np.asarray(B, complex))
                T = np.asarray(gates[g](*p, N))
            else:
                S = gen.symplectic(rng, n, 0.15)
                d = (rng.normal(size=n) + 1j * rng.normal(size=n)) * 0.15
                T = np.asarray(f(S, d, N))
            psi = np.asarray(sv(mu, cov, cutoff=N, hbar=hb))
            out = np.tensordot(T, psi, axes=n)
            mu2 = S @ mu + np.sqrt(2 * hb) * np.concatenate([np.real(d), np.imag(d)])
            psi2 = np.asarray(sv(mu2, S @ cov @ S.T, cutoff=N, hbar=hb))
            c = N - 12 if n == 1 else N - 7
            s = (slice(0, c),) * n
            a, b = out[s], psi2[s]
            ov = np.vdot(a, b)
            ctx.close("norm of the transformed state", np.linalg.norm(a), np.linalg.norm(b), rtol=0, atol=2e-4)
            ctx.close("transformed state", a * ov / abs(ov), b, rtol=0, atol=2e-4)
            ctx.nontrivial(mu, cov, S)
            ctx.sample(n=n, gate=g, norm=np.linalg.norm(a))


@section(must=("fock_tensor",))
def beyond(ctx):
    """4-6 modes: products of small Gaussian unitaries with the modes in shuffled order have outer products as tensors;
    composition: the tensor of a passive unitary after another passive one is the product (photon number conserved)."""
    f = ctx.api("thewalrus.quantum.fock_tensor")
    rng = ctx.rng
    for k in range(ctx.n(30, 200)):
        n = 4 + k % 3
        cut = {4: 3, 5: 2, 6: 2}[n]
        if k % 4 == 3:
            U, W = gen.haar(rng, n), gen.haar(rng, n)
            with ctx.case(f"{n} modes, composed passive unitaries"):
                z = np.zeros(n)
                a, b, c = (np.asarray(f(gen.passive_symplectic(x), z, cut)).reshape((cut**n,) * 2) for x in (U, W, W @ U))
                tot = np.indices((cut,) * n).sum(0).ravel()
                low = tot < cut  # sectors that are not truncated
                ix = np.ix_(low, low)
                ctx.close("composition", b[ix] @ a[ix], c[ix], rtol=0, atol=1e-8)
                one = [cut ** (n - 1 - i) for i in range(n)] if cut > 1 else []
                ctx.close("one-photon block", a[np.ix_(one, one)], U, rtol=0, atol=1e-8)
                ctx.check(not np.any(np.abs(a[tot[:, None] != tot[None, :]]) > 1e-8), "a passive unitary changes the photon number")
                ctx.nontrivial("comp", n, k)
            continue
        gs = gen.sizes(rng, n, 2)
        order = rng.permutation(n)
        Ss = [gen.symplectic(rng, g, 0.6, ("generic", "partial", "diagonal")[int(rng.integers(3))]) for g in gs]
        als = [(rng.normal(size=g) + 1j * rng.normal(size=g)) * 0.5 * int(rng.integers(2)) for g in gs]
        S = np.zeros((2 * n, 2 * n))
        pos = np.empty(n, int)
        pos[order] = np.arange(n)
        i = 0
        for s, g in zip(Ss, gs):
            ix = np.concatenate([pos[i : i + g], n + pos[i : i + g]])
            S[np.ix_(ix, ix)] = s
            i += g
        al = np.concatenate(als)[order]
        with ctx.case(f"{n} modes in groups {gs} cutoff={cut}"):
            kw = dict(choi_r=float(rng.uniform(0.5, 1.2))) if k % 2 else {}
            T = np.asarray(f(S, al, cut, **kw))
            want = np.ones(())
            for s, a in zip(Ss, als):
                want = np.multiply.outer(want, elements(*S_to_bogo(s), a, cut))
            outs, ins, i = [], [], 0
            for g in gs:
                outs += range(i, i + g)
                ins += range(i + g, i + 2 * g)
                i += 2 * g
            want = want.transpose([outs[j] for j in order] + [ins[j] for j in order])
            t0, w0 = T[(0,) * 2 * n], want[(0,) * 2 * n]
            if ctx.close("|<0|U|0>|", abs(t0), abs(w0), rtol=1e-6, atol=1e-12) and abs(t0) > 1e-8:
                ctx.close("tensor of a product (up to a global phase)", T * (abs(t0) / t0) * (w0 / abs(w0)), want, rtol=0, atol=1e-7)
            ctx.nontrivial("prod", n, tuple(gs), k)
