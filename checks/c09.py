"""C09: loss, noise, marginals and photon-number distributions vs their definitions."""
import itertools
import math
from fractions import Fraction

import numpy as np

from vlib import forms, gen, oracles as O
from vlib.core import section

Q = "thewalrus.quantum."
FT = "thewalrus.quantum.fock_tensors."
PD = "thewalrus.quantum.photon_number_distributions."


def binom_row(n, eta):
    """Exact binomial law of n photons each kept with probability eta (a float, taken exactly)."""
    e = Fraction(float(eta))
    return [float(math.comb(n, m) * e**m * (1 - e) ** (n - m)) for m in range(n + 1)]


def _eta(rng, k):
    return [float(rng.uniform(0, 1)), 0.0, 1.0, 0.5, 0.999999, 1e-12, 1 - 1e-12, float(1 - 10 ** -rng.uniform(1, 15)), float(10 ** -rng.uniform(1, 15)),
            float(rng.uniform(0, 1))][k % 10]


@section(must=("loss_mat",))
def loss_matrix(ctx):
    f = ctx.api(Q + "loss_mat")
    rng = ctx.rng
    for k in range(ctx.n(70, 500)):
        eta = _eta(rng, k)
        cut = int(rng.integers(1, 9)) if k % 3 else int(rng.integers(20, 90))
        with ctx.case(f"loss_mat eta={eta!r} cutoff={cut}"):
            L = np.asarray(f(eta, cut))
            W = np.zeros((cut, cut))
            for n in range(cut):
                W[n, : n + 1] = binom_row(n, eta)
            ctx.close("loss matrix", L, W, rtol=0, atol=1e-12)
            # relative accuracy where the exact entry is representable
            ok = W > 1e-250
            if L.shape == W.shape and ok.any():
                ctx.check(np.all(np.abs(L - W)[ok] <= 1e-9 * W[ok]), "an entry of the loss matrix lost relative accuracy")
            ctx.close("rows sum to one", L.sum(axis=1), np.ones(cut), rtol=0, atol=1e-12)
            if 0 < eta < 1 and cut > 1:
                ctx.nontrivial(eta, cut)
            ctx.sample(eta=eta, cutoff=cut)


def _thin(P, etas):
    for ax, eta in enumerate(etas):
        c = P.shape[ax]
        L = np.zeros((c, c))
        for n in range(c):
            L[n, : n + 1] = binom_row(n, eta)
        P = np.moveaxis(np.einsum("nm,n...->m...", L, np.moveaxis(P, ax, 0)), 0, ax)
    return P


@section(must=("update_probabilities_with_loss",), weight=2)
def loss(ctx):
    f = ctx.api(Q + "update_probabilities_with_loss")
    rng = ctx.rng
    for k in range(ctx.n(70, 500)):
        n = 1 + k % 5 if k % 6 else int(rng.integers(6, 13))
        if n > 5:
            shape = (2,) * n
        elif k % 3 == 0:
            shape = tuple(int(x) for x in rng.integers(1, 6, size=n))
        else:
            shape = (int(rng.integers(1, 6)),) * n
        P = rng.random(shape)
        P /= P.sum()
        etas = [_eta(rng, int(rng.integers(10))) for _ in range(n)]
        with ctx.case(f"loss shape={shape} etas={etas}"):
            w = _thin(P, etas)
            arg = np.array(etas) if k % 2 else list(etas)
            src = np.asfortranarray(P) if k % 4 == 0 else P.copy()
            got = np.asarray(f(arg, src))
            ctx.close("lossy distribution", got, w, rtol=0, atol=1e-12)
            ctx.close("conservation", got.sum(), 1.0, rtol=0, atol=1e-11)
            for ax in range(min(n, 4)):
                if got.shape == P.shape:
                    other = tuple(a for a in range(n) if a != ax)
                    a, b = P.sum(axis=other), got.sum(axis=other)
                    ctx.close("mean scales by the transmission", (b * np.arange(len(b))).sum(), etas[ax] * (a * np.arange(len(a))).sum(), rtol=0, atol=1e-10)
            e2 = [float(rng.uniform(0, 1)) for _ in range(n)]
            ctx.close("losses compose", f(e2, got.copy()), f([a * b for a, b in zip(etas, e2)], P.copy()), rtol=0, atol=1e-11)
            if n > 1:
                ctx.nontrivial(P, etas)
            ctx.sample(shape=shape, etas=etas)


@section(must=("update_probabilities_with_loss", "probabilities"), weight=1)
def lossy_states(ctx):
    """Loss on the distribution is the distribution of the lossy Gaussian state."""
    f, pr = ctx.api(Q + "update_probabilities_with_loss"), ctx.api(Q + "probabilities")
    loss_ch = ctx.api("thewalrus.symplectic.loss")
    rng = ctx.rng
    for k in range(ctx.n(8, 40)):
        n = 1 + k % 2
        hbar = gen.hbar_of(rng)
        cut = 40 if n == 1 else 13
        mu, cov = gen.state(rng, n, hbar, ["pure", "tms", "product", "diagonal", "uneven"][k % 5], rmax=0.3 if n == 1 else 0.25, dmax=0.4 if n == 1 else 0.25)
        etas = [float(rng.uniform(0.1, 1)) for _ in range(n)]
        with ctx.case(f"lossy state n={n} hbar={hbar} etas={etas}"):
            P = np.asarray(pr(mu, cov, cut, hbar=hbar))
            m2, c2 = mu, cov
            for i in range(n):
                m2, c2 = loss_ch(m2, c2, etas[i], i, hbar=hbar)
            show = 5
            w = O.probs_table(m2, c2, hbar, (show,) * n)
            got = np.asarray(f(etas, P))[(slice(0, show),) * n]
            ctx.close("lossy state", got, w, rtol=0, atol=1e-8 + max(0, 1 - P.sum()))
            ctx.nontrivial(mu, cov, etas)


@section(must=("update_probabilities_with_noise",), weight=2)
def noise(ctx):
    f = ctx.api(Q + "update_probabilities_with_noise")
    rng = ctx.rng
    for k in range(ctx.n(70, 500)):
        n = 1 + k % 4
        shape = tuple(int(x) for x in rng.integers(1, 6, size=n)) if k % 3 == 0 else (int(rng.integers(1, 6)),) * n
        P = rng.random(shape)
        P /= P.sum()
        noises = []
        for i in range(n):
            q = rng.random(int(rng.integers(1, 8)))
            if k % 5 == 0:
                q = np.array([1.0])
            noises.append(q / q.sum())
        with ctx.case(f"noise shape={shape} lens={[len(q) for q in noises]}"):
            W = P
            for ax in range(n):
                A = np.moveaxis(W, ax, 0)
                B = np.zeros_like(A)
                for i in range(A.shape[0]):
                    for j in range(len(noises[ax])):
                        if i + j < A.shape[0]:
                            B[i + j] += A[i] * noises[ax][j]
                W = np.moveaxis(B, 0, ax)
            got = f([q.copy() for q in noises], np.asfortranarray(P) if k % 4 == 0 else P.copy())
            ctx.close("noisy distribution", got, W, rtol=0, atol=1e-12)
            if n > 1:
                ctx.nontrivial(P, noises)


@section(must=("n_body_marginals",), weight=2)
def marginals(ctx):
    f = ctx.api(Q + "n_body_marginals")
    rng = ctx.rng
    for k in range(ctx.n(12, 70)):
        M, order, cut = [(2, 2, 4), (3, 2, 3), (3, 3, 3), (4, 3, 2), (2, 1, 5), (1, 1, 4), (10, 2, 2), (4, 2, 3), (9, 1, 2), (4, 4, 2), (11, 2, 2), (3, 3, 2)][k % 12]
        hbar = gen.hbar_of(rng)
        mu, cov = gen.state(rng, M, hbar, ["mixed", "lossy", "pure", "classical", "uneven"][k % 5], disp=True, rmax=0.5)
        with ctx.case(f"marginals M={M} order={order} cutoff={cut} hbar={hbar}"):
            out = f(mu, cov, cut, order, hbar=hbar)
            ctx.check(len(out) == order, f"{len(out)} tensors for order {order}")
            for r in range(1, order + 1):
                T = np.asarray(out[r - 1])
                if not ctx.check(T.shape == (M,) * r + (cut,) * r, f"shape {T.shape} of the {r}-body marginals"):
                    continue
                truth = {}
                for modes in itertools.combinations(range(M), r):
                    truth[modes] = O.probs_table(*O.reduced(mu, cov, list(modes)), hbar, (cut,) * r)
                for modes in itertools.permutations(range(M), r):
                    srt = tuple(sorted(modes))
                    rank = [srt.index(m) for m in modes]
                    want = truth[srt].transpose(rank)
                    got = T[modes]
                    inv = list(np.argsort(rank))
                    if rank != inv and np.allclose(got, truth[srt].transpose(inv), rtol=1e-8, atol=1e-9):
                        # known: axes permuted by the inverse for orders that are not their own inverse
                        ctx.known = "n_body_marginals-cyclic-order"
                    ctx.close(f"{r}-body marginal", got, want, rtol=1e-8, atol=1e-9, scale=1, key=f"{r}-body")
                    ctx.known = None
            ctx.nontrivial(mu, cov, order, cut)
            ctx.sample(M=M, order=order, cutoff=cut)


@section(must=("tvd_cutoff_bounds", "find_classical_subsystem"))
def bounds(ctx):
    f, g = ctx.api(Q + "tvd_cutoff_bounds"), ctx.api(Q + "find_classical_subsystem")
    rng = ctx.rng
    for k in range(ctx.n(40, 250)):
        M = 1 + k % 4
        hbar = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, M, hbar, kind, disp=bool(k % 2))
        cut = int(rng.integers(1, 8))
        with ctx.case(f"bounds M={M} {kind} cutoff={cut} hbar={hbar}"):
            w = np.zeros(cut)
            for i in range(M):
                w += 1 - np.cumsum(O.probs_table(*O.reduced(mu, cov, [i]), hbar, (cut,)))
            got = np.asarray(f(mu, cov, cut, hbar=hbar))
            ctx.close("tvd bounds", got, w, rtol=1e-8, atol=1e-9)
            if M == 2:
                tail = 1 - O.probs_table(mu, cov, hbar, (cut, cut)).sum()
                ctx.check(got[-1] >= tail - 1e-9, f"bound {got[-1]} below the true tail {tail}")
            ctx.nontrivial(mu, cov, cut)
        # classical prefix
        with ctx.case(f"classical subsystem M={M} hbar={hbar}"):
            c = int(rng.integers(0, M + 1))
            V = np.zeros((2 * M, 2 * M))
            A = gen.state(rng, c, hbar, "classical")[1] if c else np.zeros((0, 0))
            ix = list(range(c)) + list(range(M, M + c))
            if c:
                V[np.ix_(ix, ix)] = A + 0.05 * hbar * np.eye(2 * c)
            if c < M:
                r = rng.uniform(0.2, 0.8, size=M - c) * rng.choice([-1, 1], size=M - c)
                jx = list(range(c, M)) + list(range(M + c, 2 * M))
                V[np.ix_(jx, jx)] = np.diag(np.concatenate([np.exp(2 * r), np.exp(-2 * r)])) * hbar / 2
            ctx.check(g(V, hbar=hbar) == c, f"classical prefix of {c} modes reported as {g(V, hbar=hbar)}")
        # any state: the prefix ends where the smallest eigenvalue of the leading block falls below vacuum, joint correlations included
        M = 2 + k % 4
        with ctx.case(f"classical prefix of a correlated state M={M} hbar={hbar}"):
            V = np.zeros((2 * M, 2 * M))
            left = [int(x) for x in rng.permutation(M)]
            while left:
                if len(left) > 1 and rng.random() < 0.6:  # two-mode squeezed: each half classical on its own
                    a, b, left = left[0], left[1], left[2:]
                    r = float(rng.uniform(0.2, 0.9))
                    nb = float(rng.choice([1.0, 1.3, 5.0]))
                    for o, z in ((0, 1), (M, -1)):
                        V[a + o, a + o] = V[b + o, b + o] = nb * np.cosh(2 * r)
                        V[a + o, b + o] = V[b + o, a + o] = nb * z * np.sinh(2 * r)
                else:
                    a, left = left[0], left[1:]
                    x, y = rng.uniform(1.05, 3, size=2) if rng.random() < 0.7 else (1.5, 0.7)
                    V[a, a], V[a + M, a + M] = x, y
            if k % 2:
                ph = rng.uniform(0, 2 * np.pi, size=M)
                R = np.block([[np.diag(np.cos(ph)), -np.diag(np.sin(ph))], [np.diag(np.sin(ph)), np.diag(np.cos(ph))]])
                V = R @ V @ R.T
            low = []
            for j in range(1, M + 1):
                ix = list(range(j)) + list(range(M, M + j))
                low.append(float(np.linalg.eigvalsh(V[np.ix_(ix, ix)]).min()) - 1)
            if min(abs(x) for x in low) < 1e-6:
                ctx.count("prefix on the edge, skipped")
            else:
                c = next((j for j, x in enumerate(low) if x < 0), M)
                got = g(V * hbar / 2, hbar=hbar)
                ctx.check(got == c, f"classical prefix of {c} modes reported as {got}")
                ctx.nontrivial("prefix", M, k)


def _sq_dist(rs, cut):
    """Total photon number law of independent squeezed vacua, from the even-photon law."""
    P = np.zeros(cut)
    P[0] = 1
    for r in rs:
        q = np.zeros(cut)
        t = math.tanh(abs(r))
        for m in range((cut + 1) // 2):
            lg = math.lgamma(2 * m + 1) - 2 * math.lgamma(m + 1) - 2 * m * math.log(2) + (2 * m * math.log(t) if t > 0 else (0 if m == 0 else -np.inf))
            q[2 * m] = math.exp(lg) / math.cosh(r)
        P = np.convolve(P, q)[:cut]
    return P


@section(must=("pure_state_distribution", "total_photon_number_distribution", "characteristic_function"), weight=2)
def totals(ctx):
    f = ctx.api(Q + "pure_state_distribution")
    t = ctx.api(Q + "total_photon_number_distribution")
    ch = ctx.api(Q + "characteristic_function")
    rng = ctx.rng
    for k in range(ctx.n(60, 400)):
        n = 1 + k % 6
        hbar = gen.hbar_of(rng)
        r = rng.uniform(-1.1, 1.1, size=n)
        if k % 4 == 0:
            r[: n // 2] = 0
        U = gen.passive_symplectic(gen.haar(rng, n))
        S = U @ np.diag(np.concatenate([np.exp(-r), np.exp(r)]))
        cov = S @ S.T * hbar / 2
        cov = (cov + cov.T) / 2
        cut = int(rng.integers(1, 40))
        with ctx.case(f"pure_state_distribution n={n} hbar={hbar} cutoff={cut}"):
            pad = [2, 1, 3][k % 3]
            got = np.asarray(f(cov, cutoff=cut, hbar=hbar, padding_factor=pad))
            ctx.close("pure_state_distribution", got, _sq_dist(r, cut), rtol=1e-7, atol=1e-10)
            ctx.nontrivial(cov, cut)
    for k in range(ctx.n(60, 400)):
        kk = int(rng.integers(1, 21))
        s = float(rng.uniform(0, 1.3)) * (1 - 2 * (k // 3 % 2)) if k % 5 else 0.0
        eta = [float(rng.uniform(0, 1)), 0.0, 1.0, 0.5, float(rng.uniform(0.9, 1))][k % 5 if k % 5 else int(rng.integers(5))]
        with ctx.case(f"total_photon_number_distribution k={kk} s={s} eta={eta}"):
            # exact: thin the distribution of kk squeezed vacua
            big = int(60 + 8 * kk * math.sinh(s) ** 2 + 120 * math.sinh(s) ** 2)
            big = min(big + big % 2, 900)
            D = _sq_dist([s] * kk, big)
            from scipy.stats import binom as B

            mean = 0.0
            for nn in sorted(set(int(x) for x in rng.integers(0, 25, size=6))):
                m = np.arange(nn, big)
                w = float((D[nn:] * B.pmf(nn, m, eta)).sum())
                ctx.close("total photon number", t(nn, kk, s, eta), w, rtol=1e-7, atol=1e-9 + max(0, 1 - D.sum()), scale=1)
                pf = float(rng.uniform(0.5, 1.5))
                ctx.close("with prefactor", t(nn, kk, s, eta, pref=pf), w * pf**nn, rtol=1e-7, atol=1e-9 + max(0, 1 - D.sum()) * pf**nn, scale=max(1, pf**nn))
            ctx.nontrivial(kk, s, eta)
        mu = float(rng.uniform(-1.5, 0.0))
        poly = [None, 0, 1, 2, 3][k % 5]
        s2 = max(-0.9, min(s, 0.9))
        with ctx.case(f"characteristic_function k={kk} s={s2} eta={eta} mu={mu} poly={poly}"):
            big = 700
            D = _sq_dist([s2] * kk, big)
            L = np.zeros(big)
            m = np.arange(big)
            # thin by the probability generating function: sum_n n^p z^n P_eta(n)
            z = math.exp(mu)
            p = poly or 0
            from scipy.stats import binom as B

            w = 0.0
            for N in range(big):
                if D[N] < 1e-18:
                    continue
                nn = np.arange(N + 1)
                w += D[N] * float((B.pmf(nn, N, eta) * (nn.astype(float) ** p) * z**nn).sum())
            ctx.close("characteristic_function", ch(kk, s2, eta, mu, poly_corr=poly), w, rtol=1e-6, atol=1e-9, scale=max(abs(w), 1e-3))


@section
def old_names(ctx):
    """The deprecated names, where still offered, give what the new names give."""
    for old, new in (("total_photon_num_dist_pure_state", "pure_state_distribution"),):
        f, g = ctx.api(Q + old, optional=True), ctx.api(Q + new)
        if f is None:
            ctx.count("old names no longer offered")
            continue
        for k in range(ctx.n(12, 60)):
            n = 1 + k % 3
            hbar = gen.hbar_of(ctx.rng)
            args, kw = (gen.state(ctx.rng, n, hbar, "pure")[1],), dict(cutoff=10 + k, hbar=hbar)
            with ctx.case(f"{old} #{k}"):
                ctx.close(old, f(*args, **kw), g(*args, **kw), rtol=1e-12, atol=1e-14)
                ctx.nontrivial(old, k)


@section(must=("update_probabilities_with_loss", "update_probabilities_with_noise", "tvd_cutoff_bounds", "n_body_marginals"))
def other_forms(ctx):
    """Integer (number states as 0/1 arrays), strided, Fortran-ordered and read-only data: the value does not depend on the form."""
    Q_ = "thewalrus.quantum."
    ls, ns, tv, nb, fc, pd, lm = (ctx.api(Q_ + x) for x in ("update_probabilities_with_loss", "update_probabilities_with_noise", "tvd_cutoff_bounds", "n_body_marginals",
                                                          "find_classical_subsystem", "pure_state_distribution", "loss_mat"))
    rng = ctx.rng
    for k in range(ctx.n(60, 500)):
        d = 1 + k % 3
        shape = tuple(int(x) for x in rng.integers(2, 6, size=d))
        P = np.zeros(shape)
        if k % 2:
            P[tuple(int(rng.integers(s)) for s in shape)] = 1
        else:
            P[...] = rng.dirichlet(np.ones(P.size)).reshape(shape)
        eta = [float(x) for x in rng.choice([0.0, 1.0, 0.3, 0.8], size=d)]
        # (loss acts on tensors with the same cutoff for every mode)
        c = shape[0]
        C = np.zeros((c,) * d)
        C[tuple(slice(0, min(s, c)) for s in shape)] = P[tuple(slice(0, min(s, c)) for s in shape)]
        forms.same(ctx, "update_probabilities_with_loss", ls, (eta, C), {}, f"{C.shape} {eta}")
        noise = [rng.dirichlet(np.ones(int(rng.integers(1, 5)))) if rng.integers(3) else np.eye(3)[int(rng.integers(3))] for _ in range(d)]
        # noise in its own forms; the definition by shifted sums is the reference
        want = np.zeros(shape)
        for ix in np.ndindex(shape):
            for jx in np.ndindex(*(len(v) for v in noise)):
                t = tuple(a + b for a, b in zip(ix, jx))
                if all(a < s for a, s in zip(t, shape)):
                    want[t] += P[ix] * np.prod([v[b] for v, b in zip(noise, jx)])
        with ctx.case(f"noise on {shape} in other forms"):
            alt, how = forms.other(rng, P), [forms.other(rng, v) for v in noise]
            ctx.close(f"update_probabilities_with_noise of {alt.dtype} and {[v.dtype.name for v in how]}", ns(how, alt), want, rtol=1e-10, atol=1e-12, key="noise")
            ctx.nontrivial("noise", P, *noise)
        n = 1 + k % 3
        mu, cov = gen.int_state(rng, n) if k % 2 else gen.state(rng, n, 2.0)
        forms.same(ctx, "tvd_cutoff_bounds", tv, (mu, cov, 3), dict(hbar=2.0), f"n={n}")
        forms.same(ctx, "n_body_marginals", lambda *a, **q: [np.asarray(v) for v in nb(*a, **q)], (mu, cov, 3, min(2, n)), dict(hbar=2.0), f"n={n}")
        forms.same(ctx, "find_classical_subsystem", fc, (cov,), dict(hbar=2.0), f"n={n}")
        forms.same(ctx, "loss_mat", lm, ((0.0, 1.0, 0.4)[k % 3], 5), {}, "")
        _, pure = gen.int_state(rng, n, True) if k % 2 else gen.state(rng, n, 2.0, "pure")
        forms.same(ctx, "pure_state_distribution", lambda V, **q: pd(V, **q), (pure,), dict(cutoff=6, hbar=2.0), f"n={n}")
