"""C06: batched loop hafnians (plain and over several displacement vectors) vs individually computed loop hafnians."""
import numpy as np

from vlib import gen, oracles as O
from vlib.core import section


def _case(rng, k, maxn=5, maxrep=4, maxtot=11, maxcut=9):
    n = 1 + int(rng.integers(maxn))
    kind = gen.SYM_KINDS[int(rng.integers(len(gen.SYM_KINDS)))]
    A = gen.sym(rng, n, kind)
    if k % 2:
        D = rng.normal(size=n) + 1j * rng.normal(size=n)
    else:
        D = rng.normal(size=n)
    if k % 7 == 0:
        D = np.zeros(n)
    style = k % 6
    if style == 0:
        fr = np.zeros(n - 1, dtype=int)
    elif style == 1 and n > 1:
        fr = np.zeros(n - 1, dtype=int)
        fr[int(rng.integers(n - 1))] = int(rng.integers(1, 6))
    elif style == 2:
        fr = rng.integers(0, 2, size=n - 1)
    else:
        fr = rng.integers(0, maxrep + 1, size=n - 1)
    while fr.sum() > maxtot:
        j = int(rng.integers(n - 1))
        fr[j] = max(0, fr[j] - 1)
    cut = int(rng.integers(0, maxcut + 1)) if k % 5 else int(rng.integers(0, 3))
    return kind, A, D, [int(x) for x in fr], cut


def _want(A, D, fr, cut):
    w = np.array([complex(O.lhaf_counts(A, D, fr + [m], one=1.0)) for m in range(cut + 1)])
    # inclusion-exclusion/finite-difference sums: rounding is relative to the sum of absolute values,
    # growing with the total number of repetitions
    s = np.array([O.haf_scale(A, D, fr + [m]) for m in range(cut + 1)])
    return w, s


def _rt(fr, m, glynn):
    t = sum(fr) + m
    return 1e-12 * (1.35**t if glynn else 2.6**t)


def _norm(A, D):
    return float(np.linalg.norm(np.abs(A)) + np.linalg.norm(np.abs(D)) ** 2)


def _judge(ctx, what, got, w, s, fr, glynn, A, D):
    if not ctx.check(np.shape(got) == w.shape, f"{what}: shape {np.shape(got)}, expected {w.shape}"):
        return
    for m in range(len(w)):
        t = sum(fr) + m
        # terms of the alternating sums are bounded by norm^(t/2) * combinatorial factor
        extra = 1e-15 * (max(_norm(A, D), 1e-30) ** (t / 2)) * 3.0**t
        ctx.close(f"{what}[glynn={glynn}]", got[m], w[m], rtol=_rt(fr, m, glynn), scale=s[m], atol=extra + 1e-300)


@section(must=("loop_hafnian_batch",), weight=3)
def batch(ctx):
    f = ctx.api("thewalrus.loop_hafnian_batch.loop_hafnian_batch")
    rng = ctx.rng
    for k in range(ctx.n(420, 4000)):
        kind, A, D, fr, cut = _case(rng, k)
        glynn = bool(rng.integers(2)) if sum(fr) + cut <= 12 else True
        with ctx.case(f"batch n={len(A)} {kind} fixed={fr} cutoff={cut} glynn={glynn}"):
            w, s = _want(A, D, fr, cut)
            arg = [list, np.array, tuple][k % 3](fr) if len(fr) else fr
            kw = {} if glynn and k % 2 else {"glynn": glynn}
            got = f(gen.layout(rng, A) if k % 9 == 0 else A.copy(), D.copy(), arg, cut, **kw)
            _judge(ctx, "loop_hafnian_batch", np.asarray(got), w, s, fr, glynn, A, D)
            if sum(fr) + cut >= 2 and len(A) > 1 and kind != "zero":
                ctx.nontrivial(A, D, fr, cut)
            ctx.count(f"parity fixed {sum(fr) % 2} cutoff {cut % 2}")
            ctx.sample(fixed=fr, cutoff=cut, first=w[:3])


@section(must=("loop_hafnian_batch_gamma",), weight=3)
def batch_gamma(ctx):
    f = ctx.api("thewalrus.loop_hafnian_batch_gamma.loop_hafnian_batch_gamma")
    g = ctx.api("thewalrus.loop_hafnian_batch.loop_hafnian_batch")
    rng = ctx.rng
    for k in range(ctx.n(170, 2000)):
        kind, A, D, fr, cut = _case(rng, k, maxn=4, maxtot=9, maxcut=7)
        n = len(A)
        rows = 1 + int(rng.integers(4))
        Ds = np.stack([D * 1.0] + [rng.normal(size=n) + (1j * rng.normal(size=n) if k % 2 else 0) for _ in range(rows - 1)])
        glynn = bool(rng.integers(2)) if sum(fr) + cut <= 12 else True
        with ctx.case(f"batch gamma n={n} {kind} fixed={fr} cutoff={cut} rows={rows} glynn={glynn}"):
            got = np.asarray(f(A.copy(), Ds.copy(), fr if k % 2 else np.array(fr, dtype=int), cut, glynn=glynn))
            if ctx.check(got.shape == (rows, cut + 1), f"shape {got.shape}, expected {(rows, cut + 1)}"):
                for r in range(rows):
                    w, s = _want(A, Ds[r], fr, cut)
                    _judge(ctx, "loop_hafnian_batch_gamma", got[r], w, s, fr, glynn, A, Ds[r])
                r = int(rng.integers(rows))
                one = np.asarray(g(A.copy(), Ds[r].copy(), fr, cut, glynn=glynn))
                w, s = _want(A, Ds[r], fr, cut)
                _judge(ctx, "unbatched row", one, w, s, fr, glynn, A, Ds[r])
            if sum(fr) + cut >= 2 and n > 1 and kind != "zero":
                ctx.nontrivial(A, Ds, fr, cut)
            ctx.sample(fixed=fr, cutoff=cut, rows=rows)


@section(must=("loop_hafnian_batch", "hafnian_repeated"), weight=2)
def individually(ctx):
    """The library's own repeated loop hafnian, entry by entry; larger patterns than the definition sections."""
    f = ctx.api("thewalrus.loop_hafnian_batch.loop_hafnian_batch")
    h = ctx.api("thewalrus.hafnian_repeated")
    rng = ctx.rng
    for k in range(ctx.n(40, 300)):
        n = 2 + k % 5
        mu, cov = gen.state(rng, n, 2.0, ["pure", "mixed", "lossy", "uneven"][k % 4], disp=True)
        A, gamma, p0 = O.adj(mu, cov, 2.0)
        # the pure-state block, as the samplers use it
        B, z = A[:n, :n].conj(), gamma[:n].conj()
        fr = [int(x) for x in rng.integers(0, 5, size=n - 1)]
        while sum(fr) > 12:
            fr[int(np.argmax(fr))] -= 1
        cut = int(rng.integers(0, 9))
        with ctx.case(f"individually n={n} fixed={fr} cutoff={cut}"):
            got = np.asarray(f(B, z, fr, cut))
            w, s = _want(B, z, fr, cut)
            _judge(ctx, "loop_hafnian_batch", got, w, s, fr, True, B, z)
            m = int(rng.integers(0, cut + 1))
            if sum(fr) + m:
                one = h(B, np.array(fr + [m]), mu=z, loop=True)
                ctx.close("hafnian_repeated", one, w[m], rtol=1e-7, scale=s[m], atol=1e-12 * 3.0 ** (sum(fr) + m))
            ctx.nontrivial(B, z, fr, cut)


@section(must=("loop_hafnian_batch", "loop_hafnian_batch_gamma"), weight=2)
def beyond(ctx):
    """More modes and repetitions: low-rank matrices, whose loop hafnians are Gaussian moments of products of linear forms."""
    f = ctx.api("thewalrus.loop_hafnian_batch.loop_hafnian_batch")
    g = ctx.api("thewalrus.loop_hafnian_batch_gamma.loop_hafnian_batch_gamma")
    rng = ctx.rng
    for k in range(ctx.n(36, 400)):
        n = 5 + k % 5
        r = 1 + k % 3
        G = rng.normal(size=(n, r)) * 0.4 + (0.4j * rng.normal(size=(n, r)) if k % 2 else 0)
        rows = 1 + int(rng.integers(3))
        Ds = 0.6 * rng.normal(size=(rows, n)) + (0.5j * rng.normal(size=(rows, n)) if k % 4 < 2 else 0)
        style = k // 5 % 3
        fr = rng.integers(0, [2, 3, 5][style], size=n - 1)
        while fr.sum() > (11 if ctx.quick else 14):
            fr[int(rng.integers(n - 1))] = 0
        fr = [int(x) for x in fr]
        cut = int(rng.integers(0, 7))
        with ctx.case(f"low rank {r}, n={n} fixed={fr} cutoff={cut} rows={rows}"):
            A = G @ G.T
            got = np.asarray(g(A, Ds, fr, cut))
            ctx.check(got.shape == (rows, cut + 1), f"shape {got.shape}")
            for q in range(rows):
                w, s = np.zeros(cut + 1, complex), np.zeros(cut + 1)
                for m in range(cut + 1):
                    ix = [i for i, x in enumerate(fr + [m]) for _ in range(x)]
                    w[m] = O.low_rank_lhaf(G[ix], Ds[q][ix]) if ix else 1
                    s[m] = np.real(O.low_rank_lhaf(np.abs(G[ix]), np.abs(Ds[q][ix]))) if ix else 1
                if got.shape == (rows, cut + 1):
                    _judge(ctx, "loop_hafnian_batch_gamma", got[q], w, s, fr, True, A, Ds[q])
                if q == 0:
                    _judge(ctx, "loop_hafnian_batch", np.asarray(f(A, Ds[0].copy(), fr, cut)), w, s, fr, True, A, Ds[0])
            ctx.nontrivial(G, Ds, fr, cut)
