"""C04: torontonians vs the subset definition; threshold probabilities vs inclusion-exclusion of vacuum probabilities."""
import itertools

import numpy as np

from vlib import forms, gen, oracles as O
from vlib.core import section


def _herm(rng, n, kind):
    """Hermitian O (2n x 2n) with I - O positive definite."""
    m = 2 * n
    if kind == "real":
        g = rng.normal(size=(m, m))
    else:
        g = rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))
    G = g @ g.conj().T / max(m, 1) + 0.3 * np.eye(m)
    if kind == "diag":
        G = np.diag(rng.uniform(0.3, 2.0, size=m))
    if kind == "zero":
        G = np.eye(m)
    if kind == "sparse":
        mask = rng.random((m, m)) < 0.4
        mask = mask | mask.T | np.eye(m, dtype=bool)
        G = G * mask
        G = G + (0.1 - min(0.0, np.linalg.eigvalsh(G).min())) * np.eye(m) if m else G
    return np.eye(m) - G


def _state_O(rng, n, kind, hbar=2.0):
    mu, cov = gen.state(rng, n, hbar, kind, disp=True)
    beta, Q = O.husimi(mu, cov, hbar)
    Qi = np.linalg.inv(Q)
    return np.eye(2 * n) - Qi, beta.conj() @ Qi


def _definitions(ctx, name, rec):
    f = ctx.api("thewalrus." + name)
    rng = ctx.rng
    for k in range(ctx.n(70, 900)):
        n = 1 + k % 6 if k % 25 else 7
        kind = ["state", "complex", "real", "diag", "zero", "sparse"][int(rng.integers(6))]
        if kind == "state" and n:
            A, g = _state_O(rng, n, ["pure", "mixed", "tms", "thermal", "classical", "product", "vacuum", "uneven", "near_pure", "correlated_noise"][k % 10])
            if k % 3 == 0:
                A, g = A.conj(), g.conj()
            if k % 5 == 0:
                A = A.real.copy()
                if np.linalg.eigvalsh(np.eye(2 * n) - A).min() < 1e-3:
                    A = A * 0.3
        else:
            A = _herm(rng, n, kind)
            g = 0.5 * (rng.normal(size=2 * n) + 1j * rng.normal(size=2 * n))
        if np.isrealobj(A) and k % 2:
            g = g.real.copy()
        if k % 6 == 1:
            g = np.zeros(2 * n, dtype=g.dtype)
        if k % 9 == 2 and n:
            j = rng.integers(n)
            g = g.copy()
            g[j] = g[j + n] = 0
        A = np.ascontiguousarray(A)
        B = np.asfortranarray(A) if k % 6 == 0 and np.iscomplexobj(A) else A
        with ctx.case(f"{name} n={n} kind={kind} recursive={rec} k={k}"):
            if name == "tor":
                w, sc = O.tor(A)
                got = f(B, recursive=rec)
            else:
                w, sc = O.tor(A, g)
                got = f(B, g, recursive=rec)
            ctx.close(f"{name}[{rec}]", got, w, rtol=1e-9, scale=sc)
            if n > 1:
                ctx.nontrivial(A, g)
            ctx.sample(n=n, kind=kind, value=w)


@section(must=("tor",), weight=3)
def tor_recursive(ctx):
    _definitions(ctx, "tor", True)


@section(must=("tor",), weight=3)
def tor_direct(ctx):
    _definitions(ctx, "tor", False)


@section(must=("ltor",), weight=3)
def ltor_recursive(ctx):
    _definitions(ctx, "ltor", True)


@section(must=("ltor",), weight=3)
def ltor_direct(ctx):
    _definitions(ctx, "ltor", False)


@section(must=("threshold_detection_prob",), weight=3)
def probabilities(ctx):
    f = ctx.api("thewalrus.threshold_detection_prob")
    rng = ctx.rng
    for k in range(ctx.n(70, 600)):
        n = 1 + k % 5 if k % 12 else 6
        hbar = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[k % len(gen.STATE_KINDS)]
        disp = bool((k // 3) % 2)
        mu, cov = gen.state(rng, n, hbar, kind, disp=disp)
        if disp and k % 4 == 0:  # displacement in one mode only
            z = np.zeros(2 * n)
            j = int(rng.integers(n))
            z[[j, j + n]] = mu[[j, j + n]]
            mu = z
        with ctx.case(f"threshold n={n} {kind} hbar={hbar} disp={disp}"):
            tot = 0.0
            pats = list(itertools.product((0, 1), repeat=n))
            tab = {}
            for pat in pats:
                conv = [list, tuple, np.array][k % 3]
                p = f(mu, cov, conv(pat), hbar=hbar)
                ctx.check(np.isrealobj(p) and np.isfinite(p) and p > -1e-9, f"pattern {pat}: not a probability: {p!r}")
                ctx.close("threshold_detection_prob", p, O.click_prob(mu, cov, hbar, pat), rtol=1e-8, atol=1e-10, scale=1)
                tot += p
                tab[pat] = p
            ctx.close("total probability", tot, 1.0, rtol=1e-8)
            if n > 1:
                # permutation covariance and marginal consistency
                s = [int(x) for x in rng.permutation(n)]
                m2, c2 = O.reduced(mu, cov, s)
                pat = tuple(int(x) for x in rng.integers(0, 2, size=n))
                ctx.close("permuted modes", f(m2, c2, [pat[i] for i in s], hbar=hbar), tab[pat], rtol=1e-8, atol=1e-10, scale=1)
                keep = [i for i in range(n) if i != s[0]]
                m3, c3 = O.reduced(mu, cov, keep)
                sub = tuple(pat[i] for i in keep)
                both = sum(tab[p] for p in pats if tuple(p[i] for i in keep) == sub)
                ctx.close("marginal", f(m3, c3, sub, hbar=hbar), both, rtol=1e-8, atol=1e-10, scale=1)
                # units
                h2 = hbar * 1.37
                ctx.close("units", f(mu * np.sqrt(1.37), cov * 1.37, pat, hbar=h2), tab[pat], rtol=1e-8, atol=1e-10, scale=1)
                ctx.nontrivial(mu, cov, hbar)
            ctx.sample(n=n, kind=kind, hbar=hbar, table=str({k_: float(v) for k_, v in list(tab.items())[:4]}))


@section(must=("threshold_detection_prob",))
def larger(ctx):
    """8-10 modes, few random patterns."""
    f = ctx.api("thewalrus.threshold_detection_prob")
    tor = ctx.api("thewalrus.tor")
    ltor = ctx.api("thewalrus.ltor")
    rng = ctx.rng
    for k in range(ctx.n(10, 40)):
        n = 8 + k % 3
        hbar = gen.hbar_of(rng)
        mu, cov = gen.state(rng, n, hbar, ["pure", "mixed", "lossy"][k % 3], disp=bool(k % 2), rmax=0.5, dmax=0.5)
        with ctx.case(f"large threshold n={n}"):
            for _ in range(3):
                pat = [int(x) for x in rng.integers(0, 2, size=n)]
                ctx.close("threshold large", f(mu, cov, pat, hbar=hbar), O.click_prob(mu, cov, hbar, pat), rtol=1e-7, atol=1e-11, scale=0.1)
            beta, Q = O.husimi(mu, cov, hbar)
            Qi = np.linalg.inv(Q)
            A, g = np.eye(2 * n) - Qi, beta.conj() @ Qi
            ctx.close("tor rec=nonrec", tor(A), tor(A, recursive=False), rtol=1e-7, scale=O.tor(A)[1])
            w, sc = O.tor(A, g)
            ctx.close("ltor", ltor(A, g), w, rtol=1e-9, scale=sc)
            ctx.close("ltor nonrec", ltor(A, g, recursive=False), w, rtol=1e-9, scale=sc)
            ctx.nontrivial(mu, cov)


@section(must=("tor", "ltor", "threshold_detection_prob"), weight=2)
def beyond(ctx):
    """11-13 modes: shuffled direct sums, for which torontonians and click probabilities factorise."""
    f, tor, ltor = ctx.api("thewalrus.threshold_detection_prob"), ctx.api("thewalrus.tor"), ctx.api("thewalrus.ltor")
    rng = ctx.rng
    for k in range(ctx.n(8, 40)):
        n = 11 + k % 3
        sizes, left = [], n
        while left:
            sizes.append(int(min(left, rng.integers(1, 6))))
            left -= sizes[-1]
        hbar = gen.hbar_of(rng)
        parts = [gen.state(rng, m, hbar, ["pure", "mixed", "lossy", "uneven"][int(rng.integers(4))], disp=bool(k % 2), rmax=0.5, dmax=0.5) for m in sizes]
        order = rng.permutation(n)
        mu, cov = np.zeros(2 * n), np.zeros((2 * n, 2 * n))
        i = 0
        for (m_, c_), m in zip(parts, sizes):
            ix = [int(np.where(order == i + j)[0][0]) for j in range(m)]
            ix = ix + [x + n for x in ix]
            mu[ix] = m_
            cov[np.ix_(ix, ix)] = c_
            i += m
        with ctx.case(f"{n} modes in groups {sizes} hbar={hbar}"):
            for _ in range(3):
                pats = [[int(x) for x in rng.random(m) < 0.7] for m in sizes]
                w = np.prod([O.click_prob(m_, c_, hbar, p) for (m_, c_), p in zip(parts, pats)])
                pat = np.concatenate(pats)[order]
                ctx.close("threshold_detection_prob", f(mu, cov, [int(x) for x in pat], hbar=hbar), w, rtol=1e-7, atol=1e-11, scale=0.1)
            w0 = w1 = s0 = s1 = 1.0
            for m_, c_ in parts:
                b, Q = O.husimi(m_, c_, hbar)
                Qi = np.linalg.inv(Q)
                x, y = O.tor(np.eye(len(Q)) - Qi)
                w0, s0 = w0 * x, s0 * y
                x, y = O.tor(np.eye(len(Q)) - Qi, b.conj() @ Qi)
                w1, s1 = w1 * x, s1 * y
            b, Q = O.husimi(mu, cov, hbar)
            Qi = np.linalg.inv(Q)
            A, g = np.eye(2 * n) - Qi, b.conj() @ Qi
            for rec in (True, False):
                ctx.close(f"tor[{rec}]", tor(A, recursive=rec), w0, rtol=1e-8, scale=s0)
                ctx.close(f"ltor[{rec}]", ltor(A, g, recursive=rec), w1, rtol=1e-8, scale=s1)
            ctx.nontrivial(mu, cov)


@section(must=("threshold_detection_prob", "tor", "ltor"))
def other_forms(ctx):
    """Integer, strided, Fortran-ordered and read-only data, numpy scalars: the value does not depend on the form."""
    tp, tor, ltor = ctx.api("thewalrus.threshold_detection_prob"), ctx.api("thewalrus.tor"), ctx.api("thewalrus.ltor")
    rng = ctx.rng
    for k in range(ctx.n(60, 600)):
        n = 1 + k % 4
        hbar = 2.0 if k % 2 else gen.hbar_of(rng)
        mu, cov = gen.int_state(rng, n) if k % 2 else gen.state(rng, n, hbar)
        forms.same(ctx, "threshold_detection_prob", tp, (mu, cov, [int(x) for x in rng.integers(2, size=n)]), dict(hbar=hbar), f"n={n}")
        Om, g = _state_O(rng, n, None)
        if k % 3 == 0:
            Om, g = np.zeros((2 * n, 2 * n)), np.concatenate([rng.integers(-1, 2, size=n)] * 2) * 1.0
        rec = bool(rng.integers(2))
        if k % 15:
            continue  # every form is compiled anew
        forms.same(ctx, "tor", tor, (Om,), dict(recursive=rec), f"n={n}", ints=False)
        forms.same(ctx, "ltor", ltor, (Om, g), dict(recursive=rec), f"n={n}", ints=False)
