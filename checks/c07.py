"""C07: Fock representations of Gaussian states vs an operator-level simulator and the independent generating-function expansion."""
import itertools
import math

import numpy as np

from vlib import focksim, gen, oracles as O
from vlib import forms
from vlib.core import section

Q = "thewalrus.quantum."


def _sf(n):
    return [x for i in range(n) for x in (i, i + n)]


def _fix_phase(a, b):
    """Remove the unobservable global phase of a relative to b."""
    z = np.vdot(b, a)
    return a * np.conj(z) / abs(z) if abs(z) > 1e-12 else a


@section(must=("state_vector", "density_matrix", "probabilities", "pure_state_amplitude", "density_matrix_element"), weight=3)
def operator_level(ctx):
    """Random circuits simulated by matrix exponentials; the circuit's (mu, cov) fed to the library."""
    sv, dm, pr = ctx.api(Q + "state_vector"), ctx.api(Q + "density_matrix"), ctx.api(Q + "probabilities")
    amp, el = ctx.api(Q + "pure_state_amplitude"), ctx.api(Q + "density_matrix_element")
    rng = ctx.rng
    for k in range(ctx.n(36, 160)):
        n = 1 + k % 3
        N = {1: 32, 2: 20, 3: 13}[n]
        cut = {1: 7, 2: 5, 3: 4}[n]
        sim = focksim.random_circuit(rng, n, N, rmax={1: 0.4, 2: 0.3, 3: 0.22}[n], dmax={1: 0.5, 2: 0.3, 3: 0.22}[n],
                                     disp=bool(k % 4), depth=2)
        hbar = gen.hbar_of(rng)
        mu, cov = sim.gaussian(hbar)
        lost = abs(1 - sim.norm())
        tol = 2e-7 + 6 * np.sqrt(lost)
        with ctx.case(f"circuit n={n} hbar={hbar} cutoff={cut} truncation={lost:.1e}"):
            if tol > 5e-4:
                ctx.count("truncation too large, skipped")
                continue
            box = tuple(slice(0, cut) for _ in range(n))
            want = sim.psi[box]
            psi = np.asarray(sv(mu, cov, cutoff=cut, hbar=hbar))
            ctx.close("state_vector", _fix_phase(psi, want) if psi.shape == want.shape else psi, want, rtol=0, atol=tol)
            # the library's own representations agree exactly with one another, phase included
            for _ in range(4):
                i = tuple(int(x) for x in rng.integers(0, cut, size=n))
                ctx.close("pure_state_amplitude", amp(mu, cov, list(i), hbar=hbar), psi[i], rtol=0, atol=1e-9)
            R = np.multiply.outer(want, want.conj()).transpose(_sf(n))
            rho = dm(mu, cov, cutoff=cut, hbar=hbar)
            ctx.close("density_matrix", rho, R, rtol=0, atol=2 * tol)
            for _ in range(4):
                i = [int(x) for x in rng.integers(0, cut, size=n)]
                j = [int(x) for x in rng.integers(0, cut, size=n)]
                # documented: <j|rho|i>
                ctx.close("density_matrix_element", el(mu, cov, i, j, hbar=hbar),
                          np.asarray(rho)[tuple(np.array([j, i]).T.ravel())], rtol=0, atol=1e-9)
            ctx.close("probabilities", pr(mu, cov, cut, hbar=hbar), np.abs(want) ** 2, rtol=0, atol=2 * tol)
            ctx.nontrivial(mu, cov, hbar, cut)
            ctx.sample(n=n, hbar=hbar, amplitude0=complex(want[(0,) * n]))


@section(must=("density_matrix", "density_matrix_element", "probabilities"), weight=3)
def mixed(ctx):
    """All elements for mixed states of every kind against the generating-function expansion; physicality."""
    dm, pr, el = ctx.api(Q + "density_matrix"), ctx.api(Q + "probabilities"), ctx.api(Q + "density_matrix_element")
    rng = ctx.rng
    for k in range(ctx.n(60, 400)):
        n = 1 + k % 3
        cut = int(rng.integers(1, {1: 9, 2: 5, 3: 3}[n] + 1))
        hbar = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, n, hbar, kind, disp=bool((k // 3) % 2))
        with ctx.case(f"mixed n={n} {kind} hbar={hbar} cutoff={cut}"):
            R = O.dm_table(mu, cov, hbar, (cut,) * n)
            rho = np.asarray(dm(mu, cov, cutoff=cut, hbar=hbar))
            if not ctx.close("density_matrix", rho, R.transpose(_sf(n)), rtol=1e-8, atol=1e-10, scale=1):
                continue
            D = rho.transpose([2 * i for i in range(n)] + [2 * i + 1 for i in range(n)]).reshape(cut**n, cut**n)
            ctx.close("hermiticity", D, D.conj().T, rtol=0, atol=1e-10)
            ctx.check(np.linalg.eigvalsh((D + D.conj().T) / 2).min() > -1e-9, "density matrix has a negative eigenvalue")
            ctx.check(np.trace(D).real < 1 + 1e-9, "trace above one")
            p = np.asarray(pr(mu, cov, cut, hbar=hbar))
            ctx.check(np.isrealobj(p) and p.min() >= 0 and p.sum() <= 1 + 1e-9, "probabilities outside [0,1] or summing above one")
            w = np.array([R[i + i].real for i in np.ndindex(*(cut,) * n)]).reshape((cut,) * n)
            ctx.close("probabilities", p, w, rtol=1e-8, atol=1e-10, scale=1)
            for _ in range(5):
                i = [int(x) for x in rng.integers(0, cut, size=n)]
                j = [int(x) for x in rng.integers(0, cut, size=n)]
                args = (i, j) if k % 2 else (tuple(i), tuple(j))
                ctx.close("density_matrix_element", el(mu, cov, *args, hbar=hbar), R[tuple(j + i)], rtol=1e-8, atol=1e-10, scale=1)
            # units: the same state in another hbar
            c = 1.37
            ctx.close("units", dm(mu * np.sqrt(c), cov * c, cutoff=cut, hbar=hbar * c), rho, rtol=1e-8, atol=1e-10, scale=1)
            ctx.nontrivial(mu, cov, hbar, cut)
            ctx.sample(n=n, kind=kind, hbar=hbar, p0=w[(0,) * n])


@section(must=("density_matrix_element", "pure_state_amplitude"), weight=2)
def single_elements(ctx):
    """Larger photon numbers one element at a time: both branches (few and many repetitions) of the element functions."""
    el, amp = ctx.api(Q + "density_matrix_element"), ctx.api(Q + "pure_state_amplitude")
    rng = ctx.rng
    for k in range(ctx.n(120, 900)):
        n = 1 + k % 3
        hbar = gen.hbar_of(rng)
        pure = bool(rng.integers(2))
        kind = ["pure", "product", "partial", "tms", "diagonal", "uneven"][k % 6] if pure else gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, n, hbar, kind, disp=bool(rng.integers(3)))
        style = int(rng.integers(4))
        hi = [2, 3, 6, 8][style]
        i = [int(x) for x in rng.integers(0, hi, size=n)]
        j = [int(x) for x in rng.integers(0, hi, size=n)]
        with ctx.case(f"element n={n} {kind} hbar={hbar} {i} {j}"):
            A, g, p0 = O.adj(mu, cov, hbar)
            # index convention of O.adj: first half of the multi-index are ket powers
            nf = math.sqrt(np.prod([math.factorial(x) for x in i + j]))
            while sum(i) + sum(j) > 16:
                (i if sum(i) > sum(j) else j)[int(rng.integers(n))] = 0
            nf = math.sqrt(np.prod([float(math.factorial(x)) for x in i + j]))
            want = p0 * O.lhaf_counts(A, g, i + j, one=1.0) / nf
            sc = p0 * O.haf_scale(A, g, i + j) / nf
            ctx.close("density_matrix_element", el(mu, cov, i, j, hbar=hbar), want, rtol=1e-8, atol=1e-11, scale=max(sc, abs(want)))
            raw = el(mu, cov, i, j, hbar=hbar, include_prefactor=False)
            ctx.close("element without prefactor", raw * p0, want, rtol=1e-8, atol=1e-11, scale=max(sc, abs(want)))
            if pure:
                a = amp(mu, cov, i, hbar=hbar)
                b = amp(mu, cov, j, hbar=hbar)
                ctx.close("amplitude product", np.conj(a) * b, want, rtol=1e-8, atol=1e-10, scale=max(sc, abs(want)))
            ctx.nontrivial(mu, cov, i, j)
            ctx.sample(n=n, i=i, j=j, value=complex(want))


@section(must=("density_matrix_element", "pure_state_amplitude", "density_matrix", "state_vector"))
def weak_displacements(ctx):
    """Elements of odd total photon number are linear in a weak displacement: judged relative to its size."""
    el, amp, dm, sv = (ctx.api(Q + f) for f in ("density_matrix_element", "pure_state_amplitude", "density_matrix", "state_vector"))
    rng = ctx.rng
    for k in range(ctx.n(48, 300)):
        n = 1 + k % 3
        hbar = gen.hbar_of(rng)
        pure = k % 2 == 0
        mu, cov = gen.state(rng, n, hbar, "pure" if pure else gen.STATE_KINDS[k // 2 % len(gen.STATE_KINDS)], disp=True)
        e = -8.5 + 7.5 * (k % 12 + rng.random()) / 12
        nrm = np.linalg.norm(mu) / np.sqrt(2 * hbar)
        if nrm == 0:
            mu = np.sqrt(2 * hbar) * rng.normal(size=2 * n)
            nrm = np.linalg.norm(mu) / np.sqrt(2 * hbar)
        mu = mu * 10.0**e / nrm
        cut = {1: 6, 2: 4, 3: 3}[n]
        with ctx.case(f"weak displacement 1e{e:.1f} n={n} pure={pure} hbar={hbar}"):
            A, g, p0 = O.adj(mu, cov, hbar)
            tol = dict(rtol=0, atol=1e-13 + 2e-6 * 10.0**e)
            rho = np.asarray(dm(mu, cov, cutoff=cut, hbar=hbar)) if e > -6.5 else None
            psi = np.asarray(sv(mu, cov, cutoff=cut, hbar=hbar)) if pure else None
            for _ in range(6):
                i = [int(x) for x in rng.integers(0, cut, size=n)]
                j = [int(x) for x in rng.integers(0, cut, size=n)]
                if (sum(i) + sum(j)) % 2 == 0:
                    m = int(rng.integers(n))
                    i[m] = i[m] + (1 if i[m] + 1 < cut else -1)
                nf = np.sqrt(np.prod([float(math.factorial(x)) for x in i + j]))
                want = p0 * O.lhaf_counts(A, g, i + j, one=1.0) / nf
                ctx.close("weak: density_matrix_element", el(mu, cov, i, j, hbar=hbar), want, **tol)
                if rho is not None:
                    ctx.close("weak: density_matrix", rho[tuple(np.array([j, i]).T.ravel())], want, **tol)
                if pure:
                    a, b = (i, j) if sum(i) % 2 == 0 else (j, i)  # (even, odd)
                    for x in (a, b):
                        ctx.close("weak: amplitude and state vector", amp(mu, cov, x, hbar=hbar), psi[tuple(x)], **tol)
                    ctx.close("weak: amplitude product", np.conj(psi[tuple(i)]) * psi[tuple(j)], want, **tol)
                if abs(want) > 1e-3 * 10.0**e:
                    ctx.nontrivial(mu, cov, i, j)
            ctx.sample(n=n, displacement=10.0**e)


@section(must=("density_matrix", "state_vector"), weight=2)
def post_selection(ctx):
    """Post-selected tensors are slices of the full ones (any subset, any dictionary order, normalised or not)."""
    dm, sv = ctx.api(Q + "density_matrix"), ctx.api(Q + "state_vector")
    rng = ctx.rng
    for k in range(ctx.n(46, 300)):
        n = 1 + k % 4
        cut = {1: 4, 2: 3, 3: 3, 4: 2}[n]
        hbar = gen.hbar_of(rng)
        pure = bool(k % 2)
        mu, cov = gen.state(rng, n, hbar, ["pure", "product", "partial", "uneven"][k % 4] if pure else None, disp=bool(rng.integers(3)))
        m = int(rng.integers(max(0, n - 2), n + 1))
        modes = [int(x) for x in rng.permutation(n)[:m]]
        ps = {q: int(rng.integers(0, cut + 2)) for q in modes}
        keep = [q for q in range(n) if q not in ps]
        norm = bool(rng.integers(2)) and len(keep) > 0
        with ctx.case(f"post n={n} post={ps} hbar={hbar} normalize={norm} pure={pure}"):
            big = tuple(ps[q] + 1 if q in ps else cut for q in range(n))
            R = O.dm_table(mu, cov, hbar, big)
            ix = tuple(ps[q] if q in ps else slice(None) for q in range(n))
            sub = R[ix + ix]
            M = len(keep)
            want = sub.transpose(_sf(M)) if M else sub
            tr = float(np.einsum("ii", sub.reshape(cut**M, cut**M)).real) if M else float(sub.real)
            if norm:
                if tr < 1e-9:
                    continue
                want = want / tr
            got = dm(mu, cov, post_select=dict(ps), normalize=norm, cutoff=cut, hbar=hbar)
            ctx.close("post-selected density matrix", got, want, rtol=1e-8, atol=1e-10 / (tr if norm else 1), scale=1)
            if pure:
                psi = np.asarray(sv(mu, cov, post_select=dict(ps), normalize=norm, cutoff=cut, hbar=hbar))
                v = np.multiply.outer(psi, psi.conj()).transpose(_sf(M)) if M else psi * np.conj(psi)
                ctx.close("post-selected state vector", v, want, rtol=1e-8, atol=1e-10 / (tr if norm else 1), scale=1)
                full = np.asarray(sv(mu, cov, cutoff=max(max(big), cut), hbar=hbar))
                if not norm:
                    cutix = tuple(ps[q] if q in ps else slice(0, cut) for q in range(n))
                    ctx.close("slice of the full state vector", psi, full[cutix], rtol=1e-8, atol=1e-10, scale=1)
            if 0 < m < n:
                ctx.nontrivial(mu, cov, sorted(ps.items()))
            ctx.sample(post=ps, trace=tr)


@section(must=("density_matrix", "state_vector"))
def completeness(ctx):
    """Probabilities approach one as the cutoff grows; normalised vectors; reduced states are partial traces."""
    sv, dm = ctx.api(Q + "state_vector"), ctx.api(Q + "density_matrix")
    rng = ctx.rng
    for k in range(ctx.n(16, 80)):
        hbar = gen.hbar_of(rng)
        n = 1 + k % 2
        mu, cov = gen.state(rng, n, hbar, ["pure", "mixed", "thermal", "tms", "product", "lossy", "uneven", "near_pure"][k % 8], rmax=0.3, nmax=0.25, dmax=0.4)
        with ctx.case(f"completeness n={n} hbar={hbar}"):
            last = -1.0
            for cut in (2, 5, 9, 14) if n == 2 else (1, 4, 10, 22, 40):
                p = np.asarray(dm(mu, cov, cutoff=cut, hbar=hbar))
                t = float(np.einsum("aabb" if n == 2 else "aa", p).real)
                ctx.check(last - 1e-9 <= t <= 1 + 1e-9, f"trace {t} not monotone below one")
                last = t
            ctx.close("completeness", last, 1.0, rtol=0, atol=2e-3 if n == 2 else 1e-4)
            if k % 8 in (0, 3, 4, 6):
                psi = np.asarray(sv(mu, cov, cutoff=20 if n == 1 else 12, hbar=hbar))
                ctx.close("norm", np.sum(np.abs(psi) ** 2), 1.0, rtol=0, atol=3e-3)
                nz = np.asarray(sv(mu, cov, cutoff=3, hbar=hbar, normalize=True))
                ctx.close("normalised", np.sum(np.abs(nz) ** 2), 1.0, rtol=1e-9)
            if n == 2:
                # tracing out mode 1 leaves the reduced Gaussian state
                cut = 14
                full = np.asarray(dm(mu, cov, cutoff=cut, hbar=hbar))
                red = dm(*O.reduced(mu, cov, [0]), cutoff=cut, hbar=hbar)
                ctx.close("partial trace", np.einsum("abcc->ab", full), red, rtol=0, atol=3e-3)
            ctx.nontrivial(mu, cov)


@section(must=("probabilities",), timeout=300)
def parallel(ctx):
    """dask-parallel probabilities equal the serial ones."""
    pr = ctx.api(Q + "probabilities")
    rng = ctx.rng
    for k in range(ctx.n(2, 6)):
        n = 1 + k % 2
        hbar = gen.hbar_of(rng)
        mu, cov = gen.state(rng, n, hbar, "mixed", disp=bool(k % 2))
        with ctx.case(f"parallel n={n} hbar={hbar}"):
            w = O.probs_table(mu, cov, hbar, (3,) * n)
            p = pr(mu, cov, 3, parallel=True, hbar=hbar)
            ctx.check(np.isrealobj(p), "complex probabilities")
            ctx.close("parallel probabilities", p, w, rtol=1e-8, atol=1e-10, scale=1)
            ctx.nontrivial(mu, cov)


@section(must=("state_vector", "density_matrix", "probabilities", "pure_state_amplitude", "density_matrix_element"), weight=2)
def beyond(ctx):
    """4-8 modes: products of small states with the modes in shuffled order, whose tensors are outer products."""
    sv, dm, pr = ctx.api(Q + "state_vector"), ctx.api(Q + "density_matrix"), ctx.api(Q + "probabilities")
    amp, el = ctx.api(Q + "pure_state_amplitude"), ctx.api(Q + "density_matrix_element")
    rng = ctx.rng
    for k in range(ctx.n(15, 200)):
        n = 4 + k % 5
        hbar = gen.hbar_of(rng)
        pure = bool(k % 2)
        gs = gen.sizes(rng, n, 2)
        parts = [gen.state(rng, g, hbar, (["pure", "product", "partial", "uneven"] if pure else ["mixed", "lossy", "classical", "tms", "uneven"])[int(rng.integers(4))],
                           disp=bool(rng.integers(3))) for g in gs]
        order = rng.permutation(n)
        mu, cov = gen.join(parts, order)
        cut = {4: 4, 5: 3, 6: 3, 7: 2, 8: 2}[n] if pure else {4: 3, 5: 2, 6: 2, 7: 2, 8: 1}[n]
        with ctx.case(f"{n} modes in groups {gs} pure={pure} cutoff={cut} hbar={hbar}"):
            tabs = [O.dm_table(m, c, hbar, (5,) * g) for (m, c), g in zip(parts, gs)]

            def value(row, col):
                """<row|rho|col> in the shuffled order."""
                r, c = np.empty(n, int), np.empty(n, int)
                r[order], c[order] = row, col
                out, i = 1.0, 0
                for t, g in zip(tabs, gs):
                    out = out * t[tuple(r[i : i + g]) + tuple(c[i : i + g])]
                    i += g
                return out

            for _ in range(6):
                i, j = ([int(x) for x in rng.integers(0, 5, size=n) * (rng.random(n) < 0.6)] for _ in range(2))
                if not pure:
                    while sum(i) + sum(j) > 14:
                        q = i if sum(i) > sum(j) else j
                        q[int(np.argmax(q))] = 0
                ctx.close("density_matrix_element", el(mu, cov, i, j, hbar=hbar), value(j, i), rtol=1e-7, atol=1e-10, scale=1)
                if pure:
                    a = amp(mu, cov, i, hbar=hbar)
                    ctx.close("|amplitude|^2", abs(a) ** 2, value(i, i).real, rtol=1e-7, atol=1e-10, scale=1)
            if cut**n <= 1000 or pure:
                p = np.asarray(pr(mu, cov, cut, hbar=hbar))
                psi = np.asarray(sv(mu, cov, cutoff=cut, hbar=hbar)) if pure else None
                if ctx.check(p.shape == (cut,) * n and (psi is None or psi.shape == p.shape), "shapes of the tables"):
                    ref = None
                    for i in itertools.islice(np.ndindex(*p.shape), 0, None, max(1, p.size // 60)):
                        ctx.close("probabilities", p[i], value(i, i).real, rtol=1e-7, atol=1e-10, scale=1)
                        if pure:
                            if ref is None and abs(psi[i]) > 1e-3:
                                ref = i
                            if ref is not None:
                                ctx.close("state_vector coherence", psi[i] * np.conj(psi[ref]), value(i, ref), rtol=1e-7, atol=1e-10, scale=1)
            # most modes post-selected
            m = int(rng.integers(n - 3, n + 1)) if not pure else int(rng.integers(1, n + 1))
            ps = {int(q): int(rng.integers(0, 3)) if rng.random() < 0.5 else 0 for q in rng.permutation(n)[:m]}
            keep = [q for q in range(n) if q not in ps]
            c2 = 2 if len(keep) > 2 else 3
            if not pure and sum(ps.values()) > 4:
                ps = {q: 0 for q in ps}

            def full(i):
                f = np.zeros(n, int)
                for q, v in ps.items():
                    f[q] = v
                f[keep] = i
                return f

            if pure:
                v = np.asarray(sv(mu, cov, post_select=dict(ps), cutoff=c2, hbar=hbar))
                if ctx.check(v.shape == (c2,) * len(keep), f"shape {v.shape} after post-selection of {len(ps)} of {n} modes"):
                    for i in itertools.islice(np.ndindex(*v.shape), 0, None, max(1, v.size // 20)):
                        ctx.close("post-selected amplitude", abs(v[i]) ** 2, value(full(i), full(i)).real, rtol=1e-7, atol=1e-10, scale=1)
            if len(keep) <= 3:
                R = np.asarray(dm(mu, cov, post_select=dict(ps), cutoff=c2, hbar=hbar))
                if ctx.check(R.shape == (c2,) * (2 * len(keep)), f"shape {R.shape} after post-selection of {len(ps)} of {n} modes"):
                    for i in itertools.islice(np.ndindex(*R.shape), 0, None, max(1, R.size // 20)):
                        ctx.close("post-selected density matrix", R[i], value(full(i[0::2]), full(i[1::2])), rtol=1e-7, atol=1e-10, scale=1)
            ctx.nontrivial(mu, cov, cut)


@section(must=("state_vector", "density_matrix", "probabilities", "pure_state_amplitude", "density_matrix_element"))
def other_forms(ctx):
    """Integer, strided, Fortran-ordered and read-only data, numpy scalars: the value does not depend on the form."""
    sv, dm, pr = ctx.api(Q + "state_vector"), ctx.api(Q + "density_matrix"), ctx.api(Q + "probabilities")
    amp, el = ctx.api(Q + "pure_state_amplitude"), ctx.api(Q + "density_matrix_element")
    rng = ctx.rng
    for k in range(ctx.n(70, 600)):
        n = 1 + k % 3
        hbar = 2.0 if k % 2 else gen.hbar_of(rng)
        pure = bool(k // 2 % 2)
        mu, cov = gen.int_state(rng, n, pure) if k % 2 else gen.state(rng, n, hbar, "pure" if pure else "mixed")
        i, j = ([int(x) for x in rng.integers(0, 4, size=n)] for _ in range(2))
        cut = int(rng.integers(2, 5))
        kw = dict(hbar=hbar)
        ps = {int(m): int(rng.integers(3)) for m in rng.permutation(n)[: int(rng.integers(n))]}
        forms.same(ctx, "density_matrix_element", el, (mu, cov, i, j), kw, f"n={n}")
        forms.same(ctx, "density_matrix", dm, (mu, cov), dict(kw, cutoff=cut, post_select=ps), f"n={n} {ps}")
        forms.same(ctx, "probabilities", pr, (mu, cov, cut), kw, f"n={n}")
        if pure:
            forms.same(ctx, "pure_state_amplitude", amp, (mu, cov, i), kw, f"n={n}")
            forms.same(ctx, "state_vector", sv, (mu, cov), dict(kw, cutoff=cut, post_select=ps), f"n={n} {ps}")
