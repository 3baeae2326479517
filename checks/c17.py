"""C17: distinguishable squeezers against sums of independent exact Gaussian states; grouped click estimates against
exact click probabilities (z-tests over seeds), normalisation, errors and seed replay."""
import numpy as np

from vlib import gen, oracles as O
from vlib.core import section
from checks.c15 import cut_for, fits, table

DS = "thewalrus.quantum.distinguishable_squeezers."
GC = "thewalrus.grouped_click_probabilities."


def transfer(rng, m, n, kind):
    """m x n sub-unitary matrix."""
    k = max(m, n)
    U = gen.haar(rng, k) if kind != "real" else gen.orth(rng, k)
    if kind == "identity":
        U = np.eye(k)
    elif kind == "perm":
        U = np.eye(k)[rng.permutation(k)]
    W = gen.haar(rng, k) if kind == "lossy" else np.eye(k)
    eta = rng.uniform(0.3, 1, size=k) if kind in ("lossy", "real", "uneven") else np.full(k, 1.0 if kind in ("unitary", "perm") else 0.8)
    T = (W @ (U * np.sqrt(eta)[None]))[:m, :n]
    if kind == "dark" and n > 1:
        T = T.copy()
        T[:, int(rng.integers(n))] = 0
    return T


KINDS = ("unitary", "lossy", "real", "identity", "perm", "uneven", "dark")


def send(T, V):
    """Covariance matrix (hbar=2) of a Gaussian state with covariance V sent through T."""
    m, n = T.shape
    Ts = np.block([[T.real, -T.imag], [T.imag, T.real]])
    return Ts @ V @ Ts.T + np.eye(2 * m) - Ts @ Ts.T


def single(T, rs, i):
    r = np.zeros(len(rs))
    r[i] = rs[i]
    return send(T, np.diag(np.concatenate([np.exp(-2 * r), np.exp(2 * r)])))


def photon_moments(V):
    """Means and covariance of the photon numbers of a zero-mean Gaussian state, from Wick's theorem."""
    n = len(V) // 2
    xx, pp, xp = V[:n, :n] / 2, V[n:, n:] / 2, V[:n, n:] / 2
    N = (xx + pp) / 2 + 0.5j * (xp - xp.T) - np.eye(n) / 2
    M = (xx - pp) / 2 + 0.5j * (xp + xp.T)
    mean = np.diag(N).real
    cov = np.abs(N) ** 2 + np.abs(M) ** 2 + np.diag(mean)
    return mean, cov


@section(must=("number_means", "number_cov"))
def moments(ctx):
    nm, nc = ctx.api(DS + "number_means"), ctx.api(DS + "number_cov")
    rng = ctx.rng
    for k in range(ctx.n(600, 8000)):
        n = 1 + int(rng.integers(6))
        m = n if k % 3 else max(1, n + int(rng.integers(-2, 3)))
        kind = KINDS[k % len(KINDS)]
        T = transfer(rng, m, n, kind)
        rs = rng.uniform(-1.2, 1.2, size=n) * (rng.random(n) < 0.8)
        shape = k // len(KINDS) % 8
        if shape == 1:  # balanced: the parameters sum to zero
            rs = np.array([0.6 * (-1) ** i * (1 + i // 2) for i in range(n - n % 2)] + [0.0] * (n % 2))
        elif shape == 2:
            rs = np.full(n, float(rng.uniform(-1, 1)))
        elif shape == 3:
            rs = -np.abs(rs) - 0.1
        elif shape == 4:
            rs = np.eye(n)[int(rng.integers(n))] * float(rng.uniform(-1, 1))
        elif shape == 5:
            rs = rng.choice([-1, 1], size=n) * float(rng.uniform(0.1, 1))
        with ctx.case(f"{kind} {m}x{n}"):
            want = [photon_moments(single(T, rs, i)) for i in range(n)]
            ctx.close("mean photon numbers", nm(gen.layout(rng, T), rs), sum(w[0] for w in want), rtol=1e-9, atol=1e-12, key="mean")
            ctx.close("photon-number covariance", nc(gen.layout(rng, T), rs), sum(w[1] for w in want), rtol=1e-9, atol=1e-12, key="cov")
            ctx.nontrivial("m", m, n, kind, k)
            ctx.sample(rs=rs)


@section(must=("sample",), timeout=800)
def law(ctx):
    f = ctx.api(DS + "sample")
    rng = ctx.rng
    for k in range(ctx.n(14, 90)):
        n = 1 + int(rng.integers(3))
        m = n if k % 3 else max(1, min(3, n + int(rng.integers(-1, 2))))
        kind = KINDS[k % len(KINDS)]
        T = transfer(rng, m, n, kind)
        rs = rng.uniform(0.1, 0.75, size=n) * rng.choice([1, -1], size=n)
        c = {1: 26, 2: 16, 3: 9}[m]
        with ctx.case(f"sample {kind} {m}x{n} rs={rs}"):
            P = None
            for i in range(n):
                V = single(T, rs, i)
                p = O.probs_table(np.zeros(2 * m), V, 2.0, (c,) * m) if m < 3 else O.probs_table(np.zeros(2 * m), V, 2.0, (7,) * m)
                if P is None:
                    P = p
                else:
                    q = np.zeros(tuple(a + b - 1 for a, b in zip(P.shape, p.shape)))
                    for ix, v in np.ndenumerate(p):
                        if v > 1e-15:
                            q[tuple(slice(a, a + s) for a, s in zip(ix, P.shape))] += v * P
                    P = q[tuple(slice(0, c) for _ in range(m))]
            if P.sum() < 0.995:
                continue

            def draw(N):
                r = np.asarray(f(T, rs, n_samples=N))
                ctx.check(r.shape == (N, m) and np.issubdtype(r.dtype, np.integer) and r.min() >= 0, lambda: f"shape/type of the samples {r.shape}")
                return r

            tab = {ix: v for ix, v in table(P).items() if v * 3 * ctx.n(5000, 20000) > 12 or sum(ix) < 6}
            fits(ctx, "distinguishable squeezers", draw, tab, ctx.n(5000, 20000), "ds")
            ctx.nontrivial("law", m, n, kind, k)
    # cutoff of the inputs: photon totals of a lossless network are even and below the cutoff
    for k in range(ctx.n(10, 60)):
        n = 1 + int(rng.integers(4))
        T = gen.haar(rng, n)
        rs = rng.uniform(-1.5, 1.5, size=n)
        cut = int(rng.integers(1, 9))
        with ctx.case(f"input cutoff {cut} n={n}"):
            s0 = int(rng.integers(2**31))
            np.random.seed(s0)
            r = f(T, rs, n_samples=200, input_cutoff=cut)
            ctx.check(np.all(r.sum(1) % 2 == 0) and r.sum(1).max() <= n * (cut - 1), "totals are odd or beyond the input cutoff")
            np.random.seed(s0)
            ctx.check(np.array_equal(f(T, rs, n_samples=200, input_cutoff=cut), r), "samples after the same seed differ")
            ctx.nontrivial("cut", n, cut)
    for k in range(ctx.n(4, 20)):
        n = 1 + int(rng.integers(3))
        rs = rng.uniform(0.3, 0.9, size=n)
        cut = int(rng.integers(3, 7))
        with ctx.case(f"law of the truncated inputs, cutoff {cut} n={n}"):
            P = np.ones(())
            for r in rs:
                p = O.probs_table(np.zeros(2), np.diag([np.exp(-2 * r), np.exp(2 * r)]), 2.0, (cut,))
                P = np.multiply.outer(P, p / p.sum())
            fits(ctx, "truncated inputs", lambda N: f(np.eye(n), rs, n_samples=N, input_cutoff=cut), table(P), ctx.n(4000, 20000), "trunc")
            ctx.nontrivial("trunc", n, cut, k)
    # total photon parity after losses of every size, weak ones included: <(-1)^n> = prod_i 1/sqrt(det V_i)
    for k in range(ctx.n(8, 40)):
        n = 1 + int(rng.integers(3))
        m = n + int(rng.integers(0, 3))
        eta = 1 - 10 ** (-2.8 + 0.27 * (k % 7) + rng.uniform(-0.1, 0.1, size=n)) if k % 4 else rng.uniform(0, 1, size=n)
        rs = rng.uniform(0.7, 1.2, size=n) * rng.choice([1, -1], size=n)
        T = gen.haar(rng, m)[:, :n] * np.sqrt(eta)
        with ctx.case(f"parity after loss eta={eta} rs={rs}"):
            par = 1.0
            for e, r in zip(eta, rs):
                par /= np.sqrt((e * np.exp(-2 * r) + 1 - e) * (e * np.exp(2 * r) + 1 - e))
            tab = {(0,): (1 + par) / 2, (1,): (1 - par) / 2}
            fits(ctx, "parity", lambda N: np.asarray(f(T, rs, n_samples=N, input_cutoff=80)).sum(1)[:, None] % 2, tab,
                 ctx.n(4000, 20000), "parity")
            ctx.nontrivial("parity", n, m, k)


def exact_groups(V):
    m = len(V) // 2
    p = np.zeros(m + 1)
    for pat in np.ndindex(*(2,) * m):
        p[sum(pat)] += O.click_prob(np.zeros(2 * m), V, 2.0, pat)
    return p


@section(must=("grouped_click_probabilities", "grouped_click_probabilities_squeezed"), timeout=800)
def grouped(ctx):
    f, fs = ctx.api(GC + "grouped_click_probabilities"), ctx.api(GC + "grouped_click_probabilities_squeezed")
    rng = ctx.rng
    for k in range(ctx.n(24, 150)):
        n = 1 + int(rng.integers(4))
        m = n if k % 3 else max(1, n + int(rng.integers(-1, 3)))
        kind = KINDS[k % len(KINDS)]
        T = transfer(rng, m, n, kind)
        squeezed = bool(k % 2)
        if squeezed:
            rs = rng.uniform(-0.6, 0.6, size=n) * (rng.random(n) < 0.85)
            phn, chn = np.sinh(rs) ** 2, np.sinh(rs) * np.cosh(rs)
        else:
            phn = rng.uniform(0.0, 0.8, size=n)
            chn = np.sqrt(phn * (phn + 1)) * rng.uniform(-1, 1, size=n)
        V = send(T, np.diag(np.concatenate([1 + 2 * (phn + chn), 1 + 2 * (phn - chn)])))
        want = exact_groups(V)
        ng = int(rng.choice([1, 5, 7, 20]))
        ns = ctx.n(4000, 10000) + int(rng.integers(0, 5))

        def run(seed, ns=ns, ng=ng):
            return fs(rs, T, ns, ng, seed) if squeezed else f(phn, chn, T, ns, ng, seed)

        def stage(seeds):
            est = np.array([run(int(s))[0] for s in seeds])
            ctx.count("phase_space_samples", ns * len(seeds))
            sd = est.std(0, ddof=1) / np.sqrt(len(seeds))
            return np.abs(est.mean(0) - want) / np.maximum(sd, 1e-9), est

        with ctx.case(f"grouped clicks {kind} {m}x{n} squeezed={squeezed} samples={ns} groups={ng}"):
            p, e = run(11)
            ctx.check(p.shape == (m + 1,) and e.shape == (m + 1,), lambda: f"shapes {p.shape} {e.shape}")
            ctx.check(not np.iscomplexobj(p) and np.all(np.isfinite(p)), "probabilities are not finite reals")
            ctx.check(not np.iscomplexobj(e) and np.all(np.isfinite(e)) and np.all(e >= 0), lambda: f"errors {e}")
            ctx.close("normalised", p.sum(), 1.0, rtol=0, atol=1e-9, key="norm")
            p2, e2 = run(11)
            ctx.check(np.array_equal(p, p2) and np.array_equal(e, e2), "same seed, other result")
            if V.max() > 1.05:
                ctx.check(not np.array_equal(run(12)[0], p), "the result does not depend on the seed")
            # t-test with 24 seeds; a suspicious result must be confirmed by 96 fresh ones
            z, est = stage(rng.integers(2**31, size=24))
            ctx.count("fits")
            if z.max() > 4.5:
                ctx.count("second_stage")
                z2, est2 = stage(rng.integers(2**31, size=96))
                ctx.check(z2.max() < 7, lambda: f"estimate {est2.mean(0)} differs from the exact {want} (z={z2})")
            else:
                ctx.check(True, "expectation")
            if ng >= 20 and V.max() > 1.05:
                # the reported error is the spread of the groups (or of their mean), seen here across seeds
                errs = np.array([run(int(s))[1] for s in rng.integers(2**31, size=12)])
                big = want > 0.02
                ratio = np.median(errs[:, big], axis=0) / (est.std(0, ddof=1)[big] + 1e-12)
                ok = ((ratio > 0.45) & (ratio < 2.2)) | ((ratio > 0.45 * np.sqrt(ng)) & (ratio < 2.2 * np.sqrt(ng)))
                ctx.check(np.all(ok), lambda: f"reported errors are off by factors {ratio} (groups {ng})")
            ctx.nontrivial("g", m, n, kind, squeezed, ng, k)
            ctx.sample(p=p, want=want)
    for k in range(ctx.n(60, 500)):
        n = 1 + int(rng.integers(4))
        T = transfer(rng, n, n, KINDS[k % len(KINDS)])
        rs = rng.uniform(-0.8, 0.8, size=n) * (0 if k % 5 == 0 else 1)
        ng = int(rng.integers(1, 9))
        ns = ng + int(rng.integers(0, 60))
        with ctx.case(f"{ns} samples in {ng} groups, {n} modes, vacuum={k % 5 == 0}"):
            T_ = T if k % 2 else T.astype(complex)
            p, e = fs(rs, gen.layout(rng, T_) if T_.flags.c_contiguous else T_, ns, ng)
            ctx.close("normalised", p.sum(), 1.0, rtol=0, atol=1e-9, key="norm2")
            ctx.check(np.all(np.isfinite(e)) and np.all(e >= 0), lambda: f"errors {e}")
            if ng == 1:
                ctx.close("one group has no spread", e, np.zeros(n + 1), rtol=0, atol=1e-6 * max(1, np.abs(p).max()), key="e1")
            if k % 5 == 0:
                ctx.close("vacuum never clicks", p, np.eye(n + 1)[0], rtol=0, atol=1e-12, key="vac")
                ctx.close("vacuum has no error", e, np.zeros(n + 1), rtol=0, atol=1e-7, key="vace")
            # groups partition the same samples: the mean does not depend on their number
            s = ng * max(1, ns // ng)
            a, b = fs(rs, T_, s, ng, 5)[0], fs(rs, T_, s, 1, 5)[0]
            ctx.close("the estimate does not depend on the grouping", a, b, rtol=1e-9, atol=1e-9, key="grp")
            ph, ch = np.sinh(rs) ** 2, np.sinh(2 * rs) / 2
            g = f(ph, ch, T_, s, ng, 5)
            h = fs(rs, T_, s, ng, 5)
            ctx.close("squeezed variant", h[0], g[0], rtol=1e-7, atol=1e-9, key="sq")
            ctx.nontrivial("part", n, ns, ng, k)


@section(must=("number_means", "number_cov", "grouped_click_probabilities", "grouped_click_probabilities_squeezed"), timeout=800)
def beyond(ctx):
    """7-16 modes: Wick moments of each squeezer; click numbers of products (convolution of the parts) and of loss-only networks."""
    nm, nc = ctx.api(DS + "number_means"), ctx.api(DS + "number_cov")
    f, fs = ctx.api(GC + "grouped_click_probabilities"), ctx.api(GC + "grouped_click_probabilities_squeezed")
    rng = ctx.rng
    for k in range(ctx.n(60, 600)):
        n = 7 + int(rng.integers(10))
        m = n if k % 3 else max(1, n + int(rng.integers(-3, 4)))
        T = transfer(rng, m, n, KINDS[k % len(KINDS)])
        rs = rng.uniform(-1.2, 1.2, size=n) * (rng.random(n) < 0.8)
        with ctx.case(f"moments {KINDS[k % len(KINDS)]} {m}x{n}"):
            want = [photon_moments(single(T, rs, i)) for i in range(n)]
            ctx.close("mean photon numbers", nm(T.copy(), rs), sum(w[0] for w in want), rtol=1e-9, atol=1e-12, key="mean")
            ctx.close("photon-number covariance", nc(T.copy(), rs), sum(w[1] for w in want), rtol=1e-9, atol=1e-12, key="cov")
            ctx.nontrivial("m", m, n, k)
    for k in range(ctx.n(6, 40)):
        gs = [int(x) for x in rng.integers(1, 5, size=3)]
        n = sum(gs)
        order = rng.permutation(n)
        Ts = [transfer(rng, g, g, KINDS[int(rng.integers(6))]) for g in gs]
        T = np.zeros((n, n), complex)
        pos = np.empty(n, int)
        pos[order] = np.arange(n)
        rs = rng.uniform(-0.5, 0.5, size=n)
        want, i = np.ones(1), 0
        rows = rng.permutation(n)  # detectors in any order
        for t, g in zip(Ts, gs):
            r = rs[pos[i : i + g]]
            T[np.ix_(rows[i : i + g], pos[i : i + g])] = t
            want = np.convolve(want, exact_groups(send(t, np.diag(np.concatenate([np.exp(-2 * r), np.exp(2 * r)])))))
            # (which quadrature is squeezed does not change click numbers of a zero-mean state up to a common phase of T)
            i += g
        phn, chn = np.sinh(rs) ** 2, np.sinh(rs) * np.cosh(rs)
        ns, ng = ctx.n(4000, 12000), int(rng.choice([1, 5, 8]))
        with ctx.case(f"grouped clicks of {n} modes in parts {gs}"):
            run = lambda s: (fs(rs, T, ns, ng, int(s)) if k % 2 else f(phn, chn, T, ns, ng, int(s)))[0]

            def stage(count):
                est = np.array([run(s) for s in rng.integers(2**31, size=count)])
                ctx.count("phase_space_samples", ns * count)
                return np.abs(est.mean(0) - want) / np.maximum(est.std(0, ddof=1) / np.sqrt(count), 1e-9), est

            z, est = stage(24)
            ctx.close("normalised", est.sum(1), np.ones(24), rtol=0, atol=1e-8, key="norm")
            if z.max() > 5:
                z2, est2 = stage(96)
                ctx.check(z2.max() < 7, lambda: f"estimate {est2.mean(0)} differs from the exact {want} (z={z2})")
            else:
                ctx.check(True, "expectation")
            ctx.nontrivial("g", tuple(gs), k)
