"""C15: samplers. Sequences of samples are observed and judged by goodness of fit against exactly computed
distributions (two-stage test: a suspicious first stage must be confirmed by fresh samples at p < 1e-7), independence of
consecutive samples, per-sample limits on every draw, and replay from a seed."""
import math

import numpy as np

from vlib import gen, oracles as O
from vlib.core import section

S = "thewalrus.samples."
STATES = ("pure", "mixed", "thermal", "lossy", "product", "partial", "tms", "classical", "diagonal")


def cut_for(mu, cov, hbar, eps=1e-6, cmax=26):
    """Smallest photon-number cutoff that leaves less than eps probability in every mode."""
    n = len(mu) // 2
    c = 2
    for k in range(n):
        p = O.probs_table(*O.reduced(mu, cov, [k]), hbar, (cmax,))
        t = 1 - np.cumsum(p)
        ok = np.nonzero(t < eps)[0]
        if not len(ok):
            return None
        c = max(c, int(ok[0]) + 1)
    return c


def table(p):
    return {tuple(int(i) for i in ix): float(v) for ix, v in np.ndenumerate(p) if v > 1e-14}


def counts_of(rows):
    c = {}
    for r in rows:
        k = tuple(int(v) for v in r)
        c[k] = c.get(k, 0) + 1
    return c


def fits(ctx, what, draw, probs, n, key):
    """Two-stage goodness of fit of draw(n) against the dict of exact probabilities."""
    rows = draw(n)
    p, bins = O.gof(counts_of(rows), probs, len(rows))
    ctx.count("samples", len(rows))
    ctx.count("fits")
    if p < 2e-3:
        ctx.count("second_stage")
        rows2 = draw(3 * n)
        ctx.count("samples", len(rows2))
        p2, bins = O.gof(counts_of(rows2), probs, len(rows2))
        c = counts_of(rows2)
        top = sorted(probs, key=lambda k: -probs[k])[:6]
        ctx.check(p2 > 1e-7, lambda: f"{what}: samples do not follow the exact distribution (p={p:.2g}, confirmed by p={p2:.2g} on {len(rows2)} fresh samples); "
                  + ", ".join(f"{k}: seen {c.get(k, 0) / len(rows2):.4f} exact {probs[k]:.4f}" for k in top))
    else:
        ctx.check(True, what)
    return rows


def independent(ctx, what, rows):
    """Consecutive samples are independent: chi^2 of the contingency table of (click bits of x_t, x_{t+1})."""
    r = np.asarray(rows)
    t = np.array([hash(tuple(x)) % 2 for x in (r > 0).astype(int).tolist()]) if r.ndim > 1 else (r > 0).astype(int)
    a, b = t[:-1:2], t[1::2]
    o = np.array([[np.sum((a == i) & (b == j)) for j in (0, 1)] for i in (0, 1)], float)
    e = o.sum(1, keepdims=True) * o.sum(0, keepdims=True) / o.sum()
    if e.min() < 10:
        return
    x = float(((o - e) ** 2 / e).sum())
    ctx.check(O.chi2_tail(x, 1) > 1e-9, lambda: f"{what}: consecutive samples are correlated (chi2 {x:.1f})")


def pick_state(ctx, M, kind, hbar, table_max=9):
    rng = ctx.rng
    for j in range(400):
        sh = (1.0 if M < 3 else 0.6) * 0.99**j
        mu, cov = gen.state(rng, M, hbar, kind, rmax=0.75 * sh, nmax=0.5 * sh, dmax=0.8 * sh)
        if kind == "classical":
            cov = hbar / 2 * (np.eye(2 * M) + 0.4 * sh * (cov * 2 / hbar - np.eye(2 * M)))
        c = cut_for(mu, cov, hbar, eps=1e-6 if M < 3 else 1e-5)
        if c is not None and c <= (26 if M == 1 else 20 if M == 2 else table_max):
            return mu, cov, c
    raise RuntimeError("no suitable state")


def hafnian_case(ctx, k, M, n, parallel=False):
    f = ctx.api(S + "hafnian_sample_state")
    rng = ctx.rng
    kind = STATES[k % len(STATES)]
    hbar = (2.0, 1.0, 0.5, 2, 3.1, 1)[k % 6]
    mu, cov, c = pick_state(ctx, M, kind, hbar)
    cutoff = c + 1  # the sampler works with counts 0..cutoff and rejects `cutoff` itself
    mx = 10**6 if k % 3 else int(rng.integers(1, 3 * M))
    P = O.probs_table(mu, cov, hbar, (c,) * M)
    if mx < 10**6:
        keep = np.indices(P.shape).sum(0) <= mx
        if P[keep].sum() < 0.3:
            mx, keep = 10**6, np.ones(P.shape, bool)
        P = np.where(keep, P, 0) / P[keep].sum()
    mean = None if not np.any(mu) and k % 2 else mu
    with ctx.case(f"hafnian_sample_state {kind} M={M} hbar={hbar} cutoff={cutoff} max_photons={mx} parallel={parallel}"):
        def draw(N):
            r = f(cov, N, mean=mean, hbar=hbar, cutoff=cutoff, max_photons=mx, parallel=parallel)
            r = np.asarray(r)
            ctx.check(r.shape == (N, M) and np.issubdtype(r.dtype, np.integer), lambda: f"shape {r.shape} / type {r.dtype} of the samples")
            ctx.check(r.min() >= 0 and r.max() <= cutoff and r.sum(1).max() <= mx, "a sample is outside the limits")
            return r

        rows = fits(ctx, "photon numbers", draw, table(P), n, "haf")
        independent(ctx, "photon numbers", rows)
        ctx.nontrivial("h", kind, M, hbar, mx < 10**6, parallel, k)
        ctx.sample(first=rows[:4].tolist())


@section(must=("hafnian_sample_state",), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def hafnian_one(ctx):
    for k in range(ctx.n(7, 60)):
        hafnian_case(ctx, k + int(ctx.rng.integers(6)), 1, ctx.n(3000, 8000))


@section(must=("hafnian_sample_state",), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def hafnian_two(ctx):
    for k in range(ctx.n(6, 50)):
        hafnian_case(ctx, k + int(ctx.rng.integers(18)), 2, ctx.n(3000, 8000))


@section(must=("hafnian_sample_state",), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def hafnian_three(ctx):
    for k in range(ctx.n(4, 25)):
        hafnian_case(ctx, k + int(ctx.rng.integers(18)), 3, ctx.n(3000, 8000))


@section(must=("hafnian_sample_state", "torontonian_sample_state"), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def parallel(ctx):
    """Law, limits and seed replay of samples drawn by dask workers."""
    for k in range(ctx.n(1, 8)):
        hafnian_case(ctx, k + int(ctx.rng.integers(18)), 2, ctx.n(1500, 4000), parallel=True)
        torontonian_case(ctx, k + int(ctx.rng.integers(18)), 2, ctx.n(1200, 4000), parallel=True)
    import dask

    seed = ctx.api(S + "seed")
    rng = ctx.rng
    for k in range(ctx.n(4, 20)):
        M = 1 + int(rng.integers(3))
        hbar = gen.hbar_of(rng)
        mu, cov = gen.state(rng, M, hbar, ("pure", "mixed", "thermal", "lossy")[k % 4], disp=False, rmax=0.5)
        mu = np.full(2 * M, 0.7) * np.sqrt(2 * hbar)
        which = ("hafnian_sample_state", "torontonian_sample_state", "hafnian_sample_graph", "torontonian_sample_graph")[k % 4]
        f = ctx.api(S + which)
        args = (cov, 40) if "state" in which else (np.ones((M + 1, M + 1)), 1.0, 40)
        kw = {} if "graph" in which else dict(hbar=hbar, mean=mu) if "haf" in which else dict(hbar=hbar, mu=mu)
        with ctx.case(f"seed replay in parallel {which} M={M}"):
            outs = []
            s0 = int(rng.integers(2**31))
            for workers in (8, 2, 1, 8):
                with dask.config.set(num_workers=workers):
                    seed(s0)
                    outs.append(f(*args, parallel=True, **kw))
            for o in outs[1:]:
                ctx.check(np.array_equal(o, outs[0]), "parallel samples after the same seed differ")
            seed(s0 + 1)
            ctx.check(not np.array_equal(f(*args, parallel=True, **kw), outs[0]), "parallel samples do not depend on the seed")
            rows = {tuple(r) for r in np.asarray(outs[0]).tolist()}
            ctx.check(len(rows) > 1, "all parallel samples are equal")
            ctx.nontrivial("par", which, M, hbar)


def threshold_table(mu, cov, hbar):
    n = len(mu) // 2
    return {p: max(O.click_prob(mu, cov, hbar, p), 0.0) for p in np.ndindex(*(2,) * n)}


def torontonian_case(ctx, k, M, n, parallel=False):
    f = ctx.api(S + "torontonian_sample_state")
    rng = ctx.rng
    kind = STATES[k % len(STATES)]
    hbar = (2.0, 1.0, 0.5, 2, 3.1, 1)[k % 6]
    mu, cov, c = pick_state(ctx, M, kind, hbar, table_max=14)
    fan = ({}, dict(fanout=1, cutoff=c + 2), dict(fanout=3, cutoff=10), dict(fanout=10, cutoff=6), dict(fanout=20, cutoff=5),
           dict(fanout=2, cutoff=14))[int(rng.integers(6))]
    mx = 30 if k % 3 else int(rng.integers(1, M + 1))
    P = threshold_table(mu, cov, hbar)
    keep = {p: v for p, v in P.items() if sum(p) <= mx}
    t = sum(keep.values())
    if t < 0.3:
        mx, keep, t = 30, P, 1.0
    P = {p: v / t for p, v in keep.items()}
    m = None if not np.any(mu) and k % 2 else mu
    with ctx.case(f"torontonian_sample_state {kind} M={M} hbar={hbar} {fan} max_photons={mx} parallel={parallel}"):
        def draw(N):
            r = np.asarray(f(cov, N, mu=m, hbar=hbar, max_photons=mx, parallel=parallel, **fan))
            ctx.check(r.shape == (N, M) and np.issubdtype(r.dtype, np.integer), lambda: f"shape {r.shape} / type {r.dtype} of the samples")
            ctx.check(set(np.unique(r)) <= {0, 1} and r.astype(int).sum(1).max() <= mx, "a sample is outside the limits")
            return r

        rows = fits(ctx, "clicks", draw, P, n, "tor")
        independent(ctx, "clicks", rows)
        ctx.nontrivial("t", kind, M, hbar, tuple(fan.items()), mx < 30, parallel, k)
        ctx.sample(first=rows[:4].tolist())


@section(must=("torontonian_sample_state",), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def torontonian_small(ctx):
    for k in range(ctx.n(6, 60)):
        torontonian_case(ctx, k + int(ctx.rng.integers(18)), 1 + k % 2, ctx.n(2000, 6000))


@section(must=("torontonian_sample_state",), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def torontonian_large(ctx):
    for k in range(ctx.n(4, 40)):
        torontonian_case(ctx, k + int(ctx.rng.integers(18)), 3 + k % 2, ctx.n(2000, 6000))


@section(must=("torontonian_sample_state", "hafnian_sample_state"), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def marginals(ctx):
    """5-8 modes: the marginal of the samples on any two or three modes is the reduced state's distribution."""
    tor, haf = ctx.api(S + "torontonian_sample_state"), ctx.api(S + "hafnian_sample_state")
    rng = ctx.rng
    for k in range(ctx.n(3, 24)):
        M = 5 + (k + int(rng.integers(4))) % 4
        hbar = (2.0, 1.0, 0.5, 3.1)[int(rng.integers(4))]
        kind = STATES[int(rng.integers(len(STATES)))]
        mu, cov = gen.state(rng, M, hbar, kind, disp=bool(rng.integers(3)), rmax=0.4, nmax=0.15, dmax=0.35)
        if kind == "classical":
            cov = hbar / 2 * (np.eye(2 * M) + 0.15 * (cov * 2 / hbar - np.eye(2 * M)))
        N = ctx.n(700, 4000)
        with ctx.case(f"marginals of {M} modes {kind} hbar={hbar}"):
            for what in ("clicks", "photons"):
                cutoff = 12
                if what == "photons":
                    tail = max(1 - O.probs_table(*O.reduced(mu, cov, [j]), hbar, (cutoff,)).sum() for j in range(M))
                    if tail > 1e-7 or k % 2:
                        continue
                if what == "clicks":
                    draw = lambda n_: np.asarray(tor(cov, n_, mu=mu, hbar=hbar, cutoff=cutoff))
                else:
                    draw = lambda n_: np.asarray(haf(cov, n_, mean=mu, hbar=hbar, cutoff=cutoff))
                rows = draw(N)
                ctx.check(rows.shape == (N, M), lambda: f"shape {rows.shape}")
                for _ in range(8):
                    sub = sorted(int(x) for x in rng.permutation(M)[: int(rng.integers(1, 4)) if what == "clicks" else int(rng.integers(1, 3))])
                    red = O.reduced(mu, cov, sub)
                    P = threshold_table(*red, hbar) if what == "clicks" else table(O.probs_table(*red, hbar, (cutoff,) * len(sub)))
                    first = [rows]
                    fits(ctx, f"{what} of modes {sub}", lambda n_: (first.pop() if first else draw(n_))[:, sub], P, N, "marg")
                ctx.nontrivial(what, M, kind, hbar, k)


def graph(rng, n, k):
    A = gen.sym(rng, n, ("real", "binary", "ones", "negative", "bigdiag", "lowrank", "complex", "int")[k % 8])
    if k % 8 == 5:
        A = A.real + A.real.T
    if np.linalg.svd(A, compute_uv=False)[0] < 0.1:
        A = A + np.eye(n)
    return A


def encoded(A, nm):
    """Moments of the encoded state; the scaling factor is found by bisection."""
    s = np.linalg.svd(A, compute_uv=False)
    lo, hi = 0.0, 1 / s[0]
    for _ in range(200):
        x = (lo + hi) / 2
        y = (x * s) ** 2
        if np.sum(y / (1 - y)) > nm:
            hi = x
        else:
            lo = x
    from checks.c14 import encoded_cov

    return encoded_cov(x * A)


@section(must=("hafnian_sample_graph", "torontonian_sample_graph", "hafnian_sample_graph_rank_one"), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def graphs(ctx):
    hg, tg, r1 = (ctx.api(S + f) for f in ("hafnian_sample_graph", "torontonian_sample_graph", "hafnian_sample_graph_rank_one"))
    rng = ctx.rng
    for k in range(ctx.n(3, 30)):
        M = 1 + int(rng.integers(3))
        for _ in range(80):
            A, nm = graph(rng, M, int(rng.integers(8))), float(rng.uniform(0.2, 1.0))
            V = encoded(A, nm)
            c = cut_for(np.zeros(2 * M), V, 2.0, cmax=30)
            if c is not None and c <= (30 if M == 1 else 20 if M == 2 else 10):
                break
        else:
            continue
        with ctx.case(f"hafnian_sample_graph M={M} n_mean={nm:.3f}"):
            fits(ctx, "photon numbers of a graph state", lambda N: hg(A, nm, samples=N, cutoff=c + 1, max_photons=10**6),
                 table(O.probs_table(np.zeros(2 * M), V, 2.0, (c,) * M)), ctx.n(2000, 6000), "hg")
            ctx.nontrivial("hg", M, nm, k)
        with ctx.case(f"torontonian_sample_graph M={M} n_mean={nm:.3f}"):
            fits(ctx, "clicks of a graph state", lambda N: tg(A, nm, samples=N, cutoff=6),
                 threshold_table(np.zeros(2 * M), V, 2.0), ctx.n(2000, 6000), "tg")
            ctx.nontrivial("tg", M, nm, k)
    for k in range(ctx.n(5, 24)):
        M = 1 + int(rng.integers(3)) if k < 3 else 2 + k % 2
        G = rng.choice([-1, 1], size=M) * np.array([1.0, 0.45, 0.2])[rng.permutation(3)[:M]] * rng.uniform(0.5, 2, size=M)
        if k % 5 == 1:
            G = G + 1j * rng.normal(size=M)
        elif k % 5 == 2:
            G = np.abs(G)
        elif k % 5 == 3:
            G = 1j * G
        elif k % 5 == 4:
            G = G * np.array([1, 1j, -1j, -1])[rng.permutation(4)[:M]]
        nm = float(rng.uniform(0.1, 1.2))
        V = encoded(np.outer(G, G), nm)
        c = cut_for(np.zeros(2 * M), V, 2.0, eps=1e-5, cmax=40)
        with ctx.case(f"hafnian_sample_graph_rank_one M={M} n_mean={nm:.3f}"):
            # exact law: 2k photons from one squeezed mode, spread multinomially
            lam = nm / (1 + nm)
            w = np.abs(G) ** 2 / np.sum(np.abs(G) ** 2)
            P = {}
            for ix in np.ndindex(*(26 if M < 3 else 14,) * M):
                t = sum(ix)
                if t % 2 == 0:
                    q = math.comb(t, t // 2) * (lam / 4) ** (t // 2) * math.sqrt(1 - lam)
                    for i, wi in zip(ix, w):
                        q *= wi**i / math.factorial(i)
                    P[ix] = q * math.factorial(t)
            if c is not None and c <= (30 if M == 1 else 16 if M == 2 else 8):
                # the two derivations of the law agree with each other
                T = O.probs_table(np.zeros(2 * M), V, 2.0, (min(c, 6),) * M)
                if max(abs(T[ix] - P.get(ix, 0.0)) for ix in np.ndindex(*T.shape)) > 1e-8:
                    raise RuntimeError("oracle disagreement for rank-one graphs")

            def draw(N):
                r = np.asarray(r1(G, nm, samples=N))
                ctx.check(r.shape == (N, M), "shape of the samples")
                ctx.check(np.all(r >= 0) and np.all(r == np.round(r)) and np.all(r.sum(1) % 2 == 0), "samples are not even totals of counts")
                return r

            fits(ctx, "rank-one graph", draw, P, ctx.n(10000, 40000), "r1")
            ctx.nontrivial("r1", M, nm, k)


@section(must=("hafnian_sample_classical_state", "torontonian_sample_classical_state", "generate_thermal_samples", "photon_number_sampler"), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def classical(ctx):
    hc, tc = ctx.api(S + "hafnian_sample_classical_state"), ctx.api(S + "torontonian_sample_classical_state")
    th, rs = ctx.api("thewalrus.csamples.generate_thermal_samples"), ctx.api("thewalrus.csamples.rescale_adjacency_matrix_thermal")
    pns = ctx.api(S + "photon_number_sampler")
    rng = ctx.rng
    for k in range(ctx.n(14, 80)):
        M = 1 + int(rng.integers(3))
        hbar = (2.0, 1.0, 0.5, 2, 3.1, 1)[int(rng.integers(6))]
        kind = ("classical", "thermal", "vacuum")[k % 3] if k % 7 else "vacuum"
        mu, cov, c = pick_state(ctx, M, kind, hbar)
        mean = mu if k % 2 else None
        m = mu if k % 2 else np.zeros(2 * M)
        N = ctx.n(60000, 200000)
        with ctx.case(f"classical samplers {kind} M={M} hbar={hbar} mean={k % 2}"):
            def draw(N):
                kw = dict(cutoff=5) if k % 5 == 0 else {}
                r = np.asarray(hc(cov, N, mean=mean, hbar=hbar, **kw))
                ctx.check(r.shape == (N, M) and np.issubdtype(r.dtype, np.integer) and r.min() >= 0, "shape/type of the samples")
                return r

            rows = fits(ctx, "classical state photon numbers", draw, table(O.probs_table(m, cov, hbar, (c,) * M)), N, "hc")
            independent(ctx, "classical photon numbers", rows)

            def drawt(N):
                r = np.asarray(tc(cov, N, mean=mean, hbar=hbar))
                ctx.check(r.shape == (N, M) and set(np.unique(r)) <= {0, 1}, "shape/values of the click samples")
                return r

            fits(ctx, "classical state clicks", drawt, threshold_table(m, cov, hbar), N, "tc")
            ctx.nontrivial("hc", M, kind, hbar, k)
    for k in range(ctx.n(6, 40)):
        M = 1 + int(rng.integers(3))
        A = rng.normal(size=(M, M))
        A = A @ A.T if k % 2 else np.exp(-np.subtract.outer(A[0], A[0]) ** 2)
        nm = float(rng.uniform(0.1, 0.4)) * M
        with ctx.case(f"generate_thermal_samples M={M} n_mean={nm:.3f}"):
            ls, W = rs(A, nm)
            # thermal occupation l/(1-l) in the modes W
            nt = (W * (ls / (1 - ls))) @ W.T
            V = np.kron(np.eye(2), 2 * nt + np.eye(M))
            c = cut_for(np.zeros(2 * M), V, 2.0, cmax=30)
            if c is None or c > (30 if M == 1 else 18 if M == 2 else 9):
                continue

            def drawth(N):
                r = np.array(th(ls, W, num_samples=N))
                ctx.check(r.shape == (N, M) and np.issubdtype(r.dtype, np.integer) and r.min() >= 0, "shape/type of the samples")
                return r

            fits(ctx, "thermal point process", drawth, table(O.probs_table(np.zeros(2 * M), V, 2.0, (c,) * M)), ctx.n(15000, 60000), "th")
            ctx.nontrivial("th", M, k)
    for k in range(ctx.n(10, 60)):
        M, c = [(1, 2), (1, 7), (2, 3), (2, 5), (3, 2), (3, 3)][k % 6]
        p = rng.random((c,) * M) ** 3
        if k % 4 == 0:
            p[tuple(rng.integers(c, size=M))] = 0.0
        tot = (1.0, 0.7, 1.0, 0.95)[k % 4]
        p = p / p.sum() * tot
        oob = (False, -1, "too many", None, 0)[int(rng.integers(5))]
        with ctx.case(f"photon_number_sampler shape={p.shape} total={tot} out_of_bounds={oob!r}"):
            def drawp(N):
                out = pns(p, N, out_of_bounds=oob)
                ctx.check(len(out) == N, "number of samples")
                rows = []
                for r in out:
                    if oob is not False and not isinstance(r, (tuple, list, np.ndarray)):
                        ctx.check(r is oob or r == oob, lambda: f"placeholder {r!r}")
                        rows.append((-1,) * M)
                    else:
                        rows.append(tuple(int(v) for v in r))
                return rows

            P = table(p / tot) if oob is False else {**table(p), (-1,) * M: 1 - tot}
            P = {q: v for q, v in P.items() if v > 1e-13}
            fits(ctx, "photon_number_sampler", drawp, P, ctx.n(3000, 12000), "pns")
            ctx.nontrivial("pns", p.shape, tot, repr(oob), k)


@section(must=("hafnian_sample_state", "generate_hafnian_sample", "generate_torontonian_sample"), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def limits(ctx):
    """Every sample of every history respects cutoff and photon limits; limits only reject, they do not distort."""
    f, g, t = ctx.api(S + "hafnian_sample_state"), ctx.api(S + "generate_hafnian_sample"), ctx.api(S + "generate_torontonian_sample")
    ts = ctx.api(S + "torontonian_sample_state")
    rng = ctx.rng
    for k in range(ctx.n(24, 150)):
        M = 1 + int(rng.integers(4))
        hbar = gen.hbar_of(rng)
        kind = STATES[int(rng.integers(len(STATES)))]
        mu, cov = gen.state(rng, M, hbar, kind, rmax=0.8, nmax=0.6)
        cutoff, mx = int(rng.integers(1, 5)), int(rng.integers(0, 6))
        with ctx.case(f"limits {kind} M={M} hbar={hbar} cutoff={cutoff} max_photons={mx}"):
            r = np.asarray(f(cov, 30, mean=mu, hbar=hbar, cutoff=cutoff, max_photons=mx))
            ctx.check(r.shape == (30, M) and r.min() >= 0 and r.max() < max(cutoff, 1) and r.sum(1).max() <= mx,
                      lambda: f"sample beyond the cutoff {cutoff} or {mx} photons: {r[np.argmax(r.sum(1))]}")
            cl = np.asarray(ts(cov, 30, mu=mu, hbar=hbar, max_photons=mx))
            ctx.check(cl.shape == (30, M) and set(np.unique(cl)) <= {0, 1} and cl.astype(int).sum(1).max() <= mx, "more clicks than max_photons")
            nrej = 0
            for _ in range(30):
                x = g(cov, mean=mu, hbar=hbar, cutoff=cutoff, max_photons=mx)
                if isinstance(x, int) and x == -1:
                    nrej += 1
                else:
                    ctx.check(len(x) == M and max(x) < max(cutoff, 1) and sum(x) <= mx and min(x) >= 0, lambda: f"single sample {x}")
                y = t(cov, mu=mu, hbar=hbar, max_photons=mx)
                if not (isinstance(y, int) and y == -1):
                    ctx.check(len(y) == M and set(y) <= {0, 1} and int(sum(map(int, y))) <= mx, lambda: f"single click sample {y}")
            ctx.count("rejected", nrej)
            ctx.nontrivial("lim", kind, M, hbar, cutoff, mx)
    # a pure single mode: the truncated law is exactly the conditioned one
    for k in range(ctx.n(5, 30)):
        hbar = (2.0, 1.0, 0.5, 3.1)[k % 4]
        mu, cov = gen.state(rng, 1, hbar, "pure", disp=bool(k % 2), rmax=0.9)
        c = int(rng.integers(2, 6))
        P = O.probs_table(mu, cov, hbar, (c,))
        with ctx.case(f"conditioned on n < {c}: pure single mode hbar={hbar}"):
            fits(ctx, "photon numbers below the cutoff", lambda N: f(cov, N, mean=mu, hbar=hbar, cutoff=c), table(P / P.sum()), ctx.n(3000, 8000), "cond")
            ctx.nontrivial("cond", c, hbar, k)


@section(must=("seed",), timeout=800, env={"NUMBA_NUM_THREADS": "1"})
def seeds(ctx):
    """Sequences are a function of the seed; helpers obey their laws."""
    seed = ctx.api(S + "seed")
    rng = ctx.rng
    for k in range(ctx.n(12, 60)):
        M = 1 + int(rng.integers(3))
        hbar = gen.hbar_of(rng)
        mu, cov = gen.state(rng, M, hbar, "classical", disp=True)
        A = np.abs(gen.sym(rng, M, "real")) + np.eye(M)
        p = rng.random((4,) * M)
        calls = {
            "hafnian_sample_state": (cov, 12, mu, hbar), "torontonian_sample_state": (cov, 12, mu, hbar),
            "generate_hafnian_sample": (cov, mu, hbar), "generate_torontonian_sample": (cov, mu, hbar),
            "hafnian_sample_graph": (A, 0.7, 12), "torontonian_sample_graph": (A, 0.7, 12),
            "hafnian_sample_classical_state": (cov, 12, mu, hbar), "torontonian_sample_classical_state": (cov, 12, mu, hbar),
            "hafnian_sample_graph_rank_one": (A[0], 0.8, 12), "photon_number_sampler": (p / p.sum(), 12),
        }
        names = list(rng.permutation(list(calls)))
        with ctx.case(f"seed replay of a history of {len(names)} samplers, M={M}"):
            s0 = int(rng.integers(2**31))
            fs = {nm: ctx.api(S + nm) for nm in names}
            runs = []
            for _ in range(2):
                seed(s0)
                runs.append([np.array(fs[nm](*calls[nm])) for nm in names])
            for nm, a, b in zip(names, *runs):
                ctx.check(np.array_equal(a, b), f"{nm}: the sequence after the same seed differs")
            # n samples in one call are the same as continuing the stream call by call
            seed(s0)
            whole = np.asarray(fs["hafnian_sample_state"](cov, 6, mu, hbar))
            seed(s0)
            parts = np.vstack([fs["hafnian_sample_state"](cov, 2, mu, hbar) for _ in range(3)])
            ctx.check(np.array_equal(whole, parts), "6 samples differ from 3 x 2 samples of the same stream")
            seed(s0)
            st = np.random.get_state()[1].copy()
            ctx.check(np.array_equal(st, np.random.RandomState(s0).get_state()[1]), "seed does not set the global generator")
            ctx.nontrivial("seed", M, hbar, k)
    dc, al, inv, order, fan = (ctx.api(S + f, optional=True) for f in
                               ("decompose_cov", "mu_to_alpha", "invert_permutation", "photon_means_order", "get_heterodyne_fanout"))
    for k in range(ctx.n(150, 1500)):
        M = 1 + int(rng.integers(6))
        hbar = gen.hbar_of(rng)
        kind = STATES[k % len(STATES)]
        mu, cov = gen.state(rng, M, hbar, kind)
        with ctx.case(f"helpers {kind} M={M} hbar={hbar}"):
            if dc is not None:
                T, W = dc(cov, hbar=hbar)
                ctx.close("decompose_cov: T + W W^T = cov", T + W @ W.T, cov, rtol=1e-8, atol=1e-9, key="dc")
                om = np.block([[np.zeros((M, M)), np.eye(M)], [-np.eye(M), np.zeros((M, M))]])
                ctx.close("decompose_cov: T is pure", T @ om @ T @ om, -np.eye(2 * M) * hbar**2 / 4, rtol=1e-7, atol=1e-8, key="dcp")
            if al is not None:
                a = al(mu, hbar=hbar)
                ctx.close("mu_to_alpha", np.concatenate([a.real, a.imag]) * np.sqrt(2 * hbar), mu, rtol=1e-12, atol=1e-14)
            if inv is not None:
                p = rng.permutation(M + 3)
                q = inv(p)
                ctx.check(np.array_equal(p[q], np.arange(M + 3)) and np.array_equal(q[p], np.arange(M + 3)), "invert_permutation")
            if order is not None:
                o = np.asarray(order(mu, cov))
                nb = [(cov[i, i] + cov[i + M, i + M]) + mu[i] ** 2 + mu[i + M] ** 2 for i in range(M)]
                ctx.check(sorted(o.tolist()) == list(range(M)) and all(nb[o[i]] <= nb[o[i + 1]] + 1e-9 for i in range(M - 1)), "photon_means_order")
            if fan is not None:
                F = int(rng.integers(1, 12))
                a = rng.normal(size=M) + 1j * rng.normal(size=M)
                x = fan(a, F)
                ctx.close("fan-out: the sub-modes recombine to the mode", np.asarray(x).sum(1) / np.sqrt(F), a, rtol=1e-10, atol=1e-10)
            ctx.nontrivial("help", kind, M, hbar)
    if fan is not None:
        with ctx.case("fan-out noise is vacuum noise"):
            F, reps = 6, ctx.n(3000, 20000)
            x = np.array([fan(np.zeros(1), F)[0] for _ in range(reps)])
            y = np.fft.ifft(x, norm="ortho", axis=1)[:, 1:]
            v = np.concatenate([y.real.ravel(), y.imag.ravel()])
            z = (np.mean(v**2) - 0.5) / (0.5 * np.sqrt(2 / v.size))
            ctx.check(abs(z) < 7, f"variance of the vacuum quadratures: z={z:.1f}")
            ctx.nontrivial("fan")
