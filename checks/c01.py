"""C01: every hafnian algorithm against the memoised matching recursion (vlib.oracles.lhaf_counts)."""
import math

import numpy as np

from vlib import gen, oracles as O
from vlib.core import section


def _scale(A, loop, D=None, reps=None):
    n = A.shape[0]
    if D is None:
        D = np.diag(A) if n else np.zeros(0)
    reps = [1] * n if reps is None else reps
    return O.haf_scale(A, D if loop else None, reps)


def _diag_noise(A, reps=None):
    """Rounding noise a finite-difference sieve legitimately has: (largest trace)^(N/2)."""
    n = A.shape[0]
    if n == 0:
        return 0.0
    N = n if reps is None else int(sum(reps))
    r = np.ones(n) if reps is None else np.asarray(reps, float)
    B = np.abs(A) * np.sqrt(r[:, None] * r[None, :])
    s = float(np.max(np.abs(np.linalg.eigvals(B))))
    k = N / 2
    return math.exp(min(600.0, k * math.log(max(s, 1e-30)) - math.lgamma(k + 1) * 0.5)) * 1e-5


def _cmp(ctx, what, got, want, scale, noise=0.0, rtol=1e-8):
    ctx.close(what, got, want, rtol=rtol, atol=1e-11 + rtol * noise, scale=max(scale, abs(want)), key=what.split(" ")[0])


@section(must=("hafnian",), weight=5)
def methods_small(ctx):
    """n = 0..9, every matrix kind, every algorithm, loop on/off, varied memory layout."""
    haf = ctx.api("thewalrus.hafnian")
    lh = ctx.api("thewalrus._hafnian", "loop_hafnian")
    rep = ctx.api("thewalrus.hafnian_repeated")
    for rnd in range(ctx.n(1, 5)):
        for n in range(0, 10):
            for kind in gen.SYM_KINDS:
                if rnd == 0 and n > 8 and kind in ("hankel", "bigdiag", "zero", "ones", "diagonal", "binary"):
                    continue
                A = gen.sym(ctx.rng, n, kind)
                with ctx.case(f"haf n={n} kind={kind} rnd={rnd}"):
                    w0 = O.haf(A)
                    w1 = O.haf(A, True)
                    s0, s1 = _scale(A, False), _scale(A, True)
                    nz = _diag_noise(A)
                    B = gen.layout(ctx.rng, A)
                    for m in ("glynn", "inclexcl", "recursive"):
                        _cmp(ctx, f"hafnian[{m}]", haf(B, method=m), w0, s0, nz)
                    for m in ("glynn", "inclexcl"):
                        _cmp(ctx, f"hafnian[{m},loop]", haf(B, loop=True, method=m), w1, s1, nz)
                    if n:
                        for g in (True, False):
                            _cmp(ctx, f"loop_hafnian[{g}]", lh(B, glynn=g), w1, s1, nz)
                            _cmp(ctx, f"repeated1[{g}]", rep(B, [1] * n, glynn=g), w0, s0, nz)
                            _cmp(ctx, f"repeated1[{g},loop]", rep(B, [1] * n, loop=True, glynn=g), w1, s1, nz)
                    if abs(w0) + abs(w1) > 0 and n > 1:
                        ctx.nontrivial(A)
                    ctx.sample(n=n, kind=kind, haf=w0, lhaf=w1)


@section(must=("hafnian_sparse", "hafnian_banded"))
def sparse_banded(ctx):
    """Sparse and banded algorithms on all kinds and explicit bandwidths; sub-matrix selection for sparse."""
    sp = ctx.api("thewalrus.hafnian_sparse")
    bd = ctx.api("thewalrus.hafnian_banded")
    for rnd in range(ctx.n(1, 5)):
        for n in range(0, 9):
            for kind in gen.SYM_KINDS:
                A = gen.sym(ctx.rng, n, kind)
                with ctx.case(f"sparse/banded n={n} kind={kind}"):
                    B = gen.layout(ctx.rng, A)
                    for loop in (False, True):
                        w, s = O.haf(A, loop), _scale(A, loop)
                        _cmp(ctx, f"sparse[{loop}]", sp(B, loop=loop), w, s)
                        _cmp(ctx, f"banded[{loop}]", bd(B, loop=loop), w, s)
                        k = int(ctx.rng.integers(0, n + 1))
                        sub = sorted(int(q) for q in ctx.rng.choice(n, size=k, replace=False)) if n else []
                        C = A[np.ix_(sub, sub)]
                        arg = [set(sub), list(sub), tuple(sub), frozenset(sub)][int(ctx.rng.integers(4))]
                        _cmp(ctx, f"sparse-sub[{loop}]", sp(B, D=arg, loop=loop), O.haf(C, loop), _scale(C, loop))
                    if n > 1:
                        ctx.nontrivial(A)
    for rnd in range(ctx.n(30, 250)):
        n = int(ctx.rng.integers(2, 15))
        w = int(ctx.rng.integers(0, min(n, 5)))
        A = gen.sym(ctx.rng, n, ["real", "complex", "int"][rnd % 3])
        i = np.arange(n)
        A = A * (np.abs(i[:, None] - i[None]) <= w)
        with ctx.case(f"banded n={n} w={w}"):
            for loop in (False, True):
                want = O.haf(A, loop)
                _cmp(ctx, f"banded-w[{loop}]", bd(A, loop=loop), want, _scale(A, loop))
                _cmp(ctx, f"sparse-w[{loop}]", sp(A, loop=loop), want, _scale(A, loop))
            ctx.nontrivial(A, w)


def _reps(rng, n, tot):
    mode = rng.integers(5)
    if mode == 0:
        r = gen.partition(rng, tot, n)
    elif mode == 1:  # few heavy modes
        r = np.zeros(n, int)
        k = rng.integers(1, min(n, 3) + 1)
        ix = rng.choice(n, size=k, replace=False)
        r[ix] = gen.partition(rng, tot, k)
    elif mode == 2:  # even
        r = 2 * gen.partition(rng, tot // 2, n)
    elif mode == 3:  # one dominant
        r = gen.partition(rng, tot // 3, n)
        r[rng.integers(n)] += tot - tot // 3
    else:
        r = rng.integers(0, 2, size=n)
    return r


@section(must=("hafnian_repeated", "loop_hafnian", "reduction"), weight=4)
def repeated(ctx):
    """Repetition vectors of several shapes; explicit displacement; list/tuple/array repetitions; vs reduction."""
    rep = ctx.api("thewalrus.hafnian_repeated")
    lh = ctx.api("thewalrus._hafnian", "loop_hafnian")
    red = ctx.api("thewalrus.reduction")
    haf = ctx.api("thewalrus.hafnian")
    for k in range(ctx.n(170, 1500)):
        n = int(ctx.rng.integers(1, 7))
        tot = int(ctx.rng.integers(0, 13))
        r = _reps(ctx.rng, n, tot)
        kind = gen.SYM_KINDS[k % len(gen.SYM_KINDS)]
        A = gen.sym(ctx.rng, n, kind)
        mu = ctx.rng.normal(size=n) + (1j * ctx.rng.normal(size=n) if k % 2 else 0)
        if k % 5 == 0:
            mu = mu * 0
        if k % 7 == 0:
            mu[ctx.rng.integers(n)] = 0
        with ctx.case(f"rep n={n} kind={kind} r={r.tolist()}"):
            B = gen.layout(ctx.rng, A)
            rr = [list(map(int, r)), tuple(map(int, r)), np.array(r)][k % 3]
            w0 = O.lhaf_counts(A, None, r)
            w1 = O.lhaf_counts(A, np.diag(A), r)
            w2 = O.lhaf_counts(A, mu, r)
            s0, s1, s2 = (O.haf_scale(A, d, r) for d in (None, np.diag(A), mu))
            nz = _diag_noise(A, r)
            for g in (True, False):
                _cmp(ctx, f"rep[{g}]", rep(B, rr, glynn=g), w0, s0, nz, 1e-7)
                _cmp(ctx, f"rep-loop[{g}]", rep(B, rr, loop=True, glynn=g), w1, s1, nz, 1e-7)
                _cmp(ctx, f"rep-mu[{g}]", rep(B, rr, mu=mu, loop=True, glynn=g), w2, s2, nz, 1e-7)
                _cmp(ctx, f"lhaf-mu[{g}]", lh(B, D=mu, reps=list(map(int, r)), glynn=g), w2, s2, nz, 1e-7)
            C = red(B, rr)
            idx = [i for i in range(n) for _ in range(r[i])]
            ctx.close("reduction", C, A[np.ix_(idx, idx)].reshape(len(idx), len(idx)), rtol=0, atol=0)
            ctx.close("reduction-vec", red(mu, rr), mu[idx], rtol=0, atol=0)
            if sum(r) <= 8 and sum(r) > 0:
                _cmp(ctx, "haf-of-reduction", haf(C), w0, s0, nz)
            if r.sum() > 2:
                ctx.nontrivial(A, mu, r)
            ctx.sample(A=A, reps=r.tolist(), lhaf=w2)


@section(must=("hafnian_repeated",), weight=2)
def large_repetitions(ctx):
    """Tens of repetitions in few modes (positive matrices: well conditioned), up to past 64-bit binomials."""
    rep = ctx.api("thewalrus.hafnian_repeated")
    lh = ctx.api("thewalrus._hafnian", "loop_hafnian")
    cases = [[20, 20], [40, 40], [50, 50], [33, 7, 12], [50, 2, 2], [25, 25, 6], [31, 30], [80, 10], [90, 4], [49, 1], [2, 48],
             [34, 34, 2, 2]]
    if not ctx.quick:
        cases += [[45, 45], [48, 47], [96, 3, 1], [40, 41, 3], [15, 15, 15], [9, 9, 9, 9]]
    for r in cases:
        n = len(r)
        for z in (0, 1):
            A = np.abs(gen.sym(ctx.rng, n, "real")) * 0.3 + 0.2
            mu = np.abs(ctx.rng.normal(size=n)) * 0.5 + 0.1
            if z:  # bipartite: only cross terms
                A = A - np.diag(np.diag(A))
            with ctx.case(f"large reps {r} z={z}"):
                w = O.lhaf_counts([[float(x) for x in row] for row in A], None, r, one=1.0)
                w1 = O.lhaf_counts([[float(x) for x in row] for row in A], [float(x) for x in mu], r, one=1.0)
                # relative accuracy a double-precision finite-difference sieve delivers: cancellation grows
                # like ~1.25^(repetitions of the heaviest edge) (measured; documented in DESIGN.md)
                t = sorted(r)
                e = max(t[-2] if n > 1 else 0, t[-1] / 2)
                tol = 3e-8 * 1.27**e
                if sum(r) % 2 == 0 and w > 0:
                    ctx.close("large-rep", np.real(rep(A, r)) / w, 1.0, rtol=tol, atol=0)
                    ctx.nontrivial(A, r)
                if w1 > 0 and (z == 0 or max(r) <= 16):
                    # (without self-couplings a sieve must cancel huge terms to express pure loop weights)
                    ctx.close("large-rep-loop", np.real(lh(A, D=mu, reps=r)) / w1, 1.0, rtol=10 * tol, atol=0)


@section(must=("hafnian",), weight=4)
def larger(ctx):
    """Larger matrices (n up to 16), all algorithms, exact integer reference."""
    haf = ctx.api("thewalrus.hafnian")
    lh = ctx.api("thewalrus._hafnian", "loop_hafnian")
    sp = ctx.api("thewalrus.hafnian_sparse")
    rep = ctx.api("thewalrus.hafnian_repeated")
    for n in [10, 11, 12, 13, 14] + ([] if ctx.quick else [10, 12, 15, 16, 17, 18]):
        for kind in ("int", "complex", "binary", "negative", "lowrank"):
            A = gen.sym(ctx.rng, n, kind, 0.7)
            with ctx.case(f"larger n={n} kind={kind}"):
                w0, w1 = O.haf(A), O.haf(A, True)
                s0, s1 = _scale(A, False), _scale(A, True)
                nz = _diag_noise(A)
                for m in ("glynn", "inclexcl", "recursive"):
                    _cmp(ctx, f"L-hafnian[{m}]", haf(A, method=m), w0, s0, nz)
                _cmp(ctx, "L-hafnian[loop]", haf(A, loop=True), w1, s1, nz)
                for g in (True, False):
                    _cmp(ctx, f"L-loop[{g}]", lh(A, glynn=g), w1, s1, nz)
                _cmp(ctx, "L-rep", rep(A, np.ones(n, int)), w0, s0, nz)
                if kind == "binary" and n <= 12:
                    _cmp(ctx, "L-sparse", sp(A), w0, s0)
                    _cmp(ctx, "L-sparse[loop]", sp(A, loop=True), w1, s1)
                ctx.nontrivial(A)
    # known closed forms far from random: all-ones, complete bipartite, ladder (Fibonacci)
    for n in (8, 12, 16):
        with ctx.case(f"closed forms n={n}"):
            d = math.prod(range(n - 1, 0, -2))
            ctx.close("ones", haf(np.ones((n, n))), d, rtol=1e-9)
            h = n // 2
            B = np.block([[np.zeros((h, h)), np.ones((h, h))], [np.ones((h, h)), np.zeros((h, h))]])
            ctx.close("bipartite", haf(B), math.factorial(h), rtol=1e-9)
            L = np.zeros((n, n))
            for i in range(n - 1):
                if i % 2 == 0:
                    L[i, i + 1] = 1
                if i + 2 < n:
                    L[i, i + 2] = 1
            f = [1, 1]
            while len(f) <= h:
                f.append(f[-1] + f[-2])
            ctx.close("ladder", haf(L + L.T), f[h], rtol=1e-9)
            ctx.close("ladder-sparse", sp(L + L.T), f[h], rtol=1e-9)


@section(must=("low_rank_hafnian",))
def low_rank(ctx):
    f = ctx.api("thewalrus.low_rank_hafnian")
    for k in range(ctx.n(26, 120)):
        n = int(ctx.rng.integers(1, 9))
        r = int(ctx.rng.integers(1, min(n, 4) + 1))
        G = ctx.rng.normal(size=(n, r))
        if k % 3 == 1:
            G = G + 1j * ctx.rng.normal(size=(n, r))
        if k % 3 == 2:
            G = ctx.rng.integers(-2, 3, size=(n, r)).astype(float)
        if k % 5 == 4 and n > 2:
            G[ctx.rng.integers(n)] = 0
        A = G @ G.T
        with ctx.case(f"lowrank n={n} r={r}"):
            ctx.close("low_rank", complex(f(gen.layout(ctx.rng, G))), complex(O.haf(A)), rtol=1e-8, scale=_scale(A, False))
            if n % 2 == 0:
                ctx.nontrivial(G)


@section(must=("hafnian",))
def reference_impl(ctx):
    """Reference module: value, and the enumerated matchings are valid, distinct and complete."""
    import importlib

    ref = importlib.import_module("thewalrus.reference")
    rh = ctx.api("thewalrus.reference", "hafnian")
    pmp = ctx.api("thewalrus.reference", "pmp", optional=True)
    spm = ctx.api("thewalrus.reference", "spm", optional=True)
    for rnd in range(ctx.n(2, 8)):
        for n in range(0, 8 if ctx.quick else 10):
            for kind in ("complex", "int", "sparse", "zerorow", "diagonal"):
                A = gen.sym(ctx.rng, n, kind)
                with ctx.case(f"reference n={n} kind={kind}"):
                    w0 = O.haf(A)
                    _cmp(ctx, "reference", rh(A, loop=False), w0, _scale(A, False))
                    if n:
                        _cmp(ctx, "reference[loop]", rh(A, loop=True), O.haf(A, True), _scale(A, True))
                    ctx.nontrivial(A)
    tel = [1, 1]
    for k in range(2, 12):
        tel.append(tel[-1] + (k - 1) * tel[-2])
    for base in ("range", "list", "string"):
        for n in range(3, 9):
            items = tuple(range(n)) if base == "range" else tuple(3 * i + 1 for i in range(n))
            for name, f, count in (("pmp", pmp, math.prod(range(n - 1, 0, -2)) if n % 2 == 0 else None), ("spm", spm, tel[n])):
                if f is None or count is None:
                    continue
                with ctx.case(f"{name} n={n} {base}"):
                    seen = set()
                    for m in f(items):
                        blocks = frozenset(tuple(sorted(set(b))) for b in m)
                        flat = sorted(x for b in blocks for x in b)
                        ctx.check(flat == sorted(items), f"{name}: {m} does not cover {items}")
                        ctx.check(all(1 <= len(b) <= 2 for b in blocks) and (name == "spm" or all(len(b) == 2 for b in blocks)), f"{name}: bad blocks {m}")
                        seen.add(blocks)
                    ctx.check(len(seen) == count, f"{name}({n}): {len(seen)} distinct matchings, expected {count}")
                    ctx.nontrivial(name, n, base)


@section(must=("hafnian",))
def approx(ctx):
    """Estimator for non-negative matrices: mean within 8 standard errors of the exact value."""
    haf = ctx.api("thewalrus.hafnian")
    for k in range(ctx.n(4, 12)):
        n = 6 if k % 2 else 8
        A = np.abs(gen.sym(ctx.rng, n, ["real", "binary", "ones", "sparse"][k % 4])).real.astype(float)
        if k % 2:
            A[np.arange(n), np.arange(n)] = 0.3
        with ctx.case(f"approx n={n} k={k}"):
            w = float(O.haf(A))
            b = np.array([haf(A, approx=True, num_samples=ctx.n(1500, 6000)) for _ in range(40)])
            sem = b.std(ddof=1) / np.sqrt(len(b))
            ctx.check(np.all(np.isfinite(b)) and abs(b.mean() - w) <= 9 * sem + 1e-9,
                      f"approx mean {b.mean()} exact {w} sem {sem}")
            ctx.nontrivial(A)


@section(must=("matched_reps",))
def pairing(ctx):
    """The pairing of repeated vertices is a perfect matching of them: every vertex is used as often as it is repeated."""
    f = ctx.api("thewalrus.matched_reps")
    rng = ctx.rng
    seen = set()
    small = [r for n in range(1, 5) for r in np.ndindex(*(5 if n < 4 else 4,) * n)]
    for k in range(len(small) + ctx.n(400, 4000)):
        if k < len(small):
            r = list(small[k])
        else:
            n = int(rng.integers(1, 12))
            r = [int(x) for x in rng.integers(0, [2, 3, 6, 40][k % 4], size=n)]
            if k % 3 == 0:
                r[int(rng.integers(n))] = int(rng.integers(0, 60))
        arg = [list, tuple, np.array][k % 3](r)
        with ctx.case(f"matched_reps({r})"):
            x, e, odd = f(arg)
            x, e = np.asarray(x), np.asarray(e)
            ok = len(x) == 2 * len(e) and (len(x) == 0 or (np.all(x == np.round(x)) and x.min() >= 0 and x.max() < len(r)))
            if not ctx.check(ok, f"ill-formed pairing {x} {e} of {r}"):
                continue
            used = [0] * len(r)
            for i, c in enumerate(e):
                used[int(x[i])] += int(c)
                used[int(x[i + len(e)])] += int(c)
            if odd is not None:
                used[int(odd)] += 1
            ctx.check((odd is not None) == bool(sum(r) % 2), f"odd vertex {odd} of {r}")
            ctx.check(used == r, f"pairing {x} {e} odd {odd} uses the vertices {used} times instead of {r}")
            ctx.check(np.all(e > 0), f"pairs that do not occur: {e}")
            if sum(r) > 2:
                seen.add((len(e), odd is not None))
                ctx.nontrivial(r)
    ctx.count("shapes of pairings seen", len(seen))


@section(must=("hafnian", "hafnian_repeated"), weight=4)
def beyond(ctx):
    """Sizes no table of matchings reaches: low-rank matrices (Gaussian moments), shuffled direct sums, scaled rows."""
    haf, rep = ctx.api("thewalrus.hafnian"), ctx.api("thewalrus.hafnian_repeated")
    lh, band = ctx.api("thewalrus._hafnian", "loop_hafnian"), ctx.api("thewalrus.hafnian_banded")
    low = ctx.api("thewalrus.low_rank_hafnian")
    rng = ctx.rng
    sizes = [15, 17, 18, 20, 21, 22, 24, 16, 19, 23] + ([] if ctx.quick else [26, 28, 25, 27, 30])
    for rnd in range(ctx.n(1, 4)):
        for q, n in enumerate(sizes):
            r = 1 + (q + rnd) % 3
            G = rng.normal(size=(n, r)) / np.sqrt(n)
            d = rng.normal(size=n) * 0.5
            if (q + rnd) % 2:
                G = G + 1j * rng.normal(size=(n, r)) / np.sqrt(n)
                d = d + 0.5j * rng.normal(size=n)
            A = G @ G.T
            with ctx.case(f"low rank n={n} rank={r}"):
                w0, w1 = O.low_rank_lhaf(G), O.low_rank_lhaf(G, d)
                s0, s1 = O.low_rank_lhaf(np.abs(G)), O.low_rank_lhaf(np.abs(G), np.abs(d))
                nz = _diag_noise(A)
                for m in ("glynn", "inclexcl", "recursive"):
                    _cmp(ctx, f"B-hafnian[{m}]", haf(A, method=m), w0, s0, nz)
                B = A - np.diag(np.diag(A)) + np.diag(d)
                for g in (True, False):
                    _cmp(ctx, f"B-loop[{g}]", lh(B, glynn=g), w1, s1, nz)
                if n % 2 == 0 and n <= 20 and r < 3:
                    _cmp(ctx, "B-lowrank", complex(low(G)), w0, s0, nz)
                ctx.nontrivial(G, d)
            # the same total spread over repetitions
            k = int(rng.integers(3, 7))
            reps = gen.partition(rng, n, k)
            H, e = G[:k], d[:k]
            ix = [i for i in range(k) for _ in range(reps[i])]
            with ctx.case(f"low rank, repetitions {reps.tolist()} rank={r}"):
                w0, w1 = O.low_rank_lhaf(H[ix]), O.low_rank_lhaf(H[ix], e[ix])
                s0, s1 = O.low_rank_lhaf(np.abs(H[ix])), O.low_rank_lhaf(np.abs(H[ix]), np.abs(e[ix]))
                nz = _diag_noise(H @ H.T, reps)
                for g in (True, False):
                    _cmp(ctx, f"B-rep[{g}]", rep(H @ H.T, reps, glynn=g), w0, s0, nz, 1e-7)
                    _cmp(ctx, f"B-rep-loop[{g}]", rep(H @ H.T, reps, mu=e, loop=True, glynn=g), w1, s1, nz, 1e-7)
                ctx.nontrivial(H, reps)
            # direct sums in shuffled order with scaled rows
            bl, left = [], n
            while left:
                b = int(min(left, rng.integers(1, 7) if rng.random() < 0.4 else 2 * rng.integers(1, 4)))
                bl.append(gen.sym(rng, b, ["real", "complex", "int"][int(rng.integers(3))], 0.8))
                left -= b
            D = rng.uniform(0.5, 1.5, size=n) * np.exp(1j * rng.uniform(0, 6.28, size=n) * (q % 2))
            order = rng.permutation(n)
            with ctx.case(f"direct sum of {[len(b) for b in bl]}"):
                M = O.direct_sum(bl)
                A = (D[:, None] * M * D[None])[np.ix_(order, order)]
                w0, w1 = np.prod([complex(O.haf(b)) for b in bl]) * np.prod(D), 1.0
                i = 0
                s0 = s1 = 1.0
                for b in bl:
                    Db = D[i : i + len(b)]
                    C = Db[:, None] * b * Db[None]
                    w1 = w1 * complex(O.haf(C, True))
                    s0, s1 = s0 * _scale(C, False), s1 * _scale(C, True)
                    i += len(b)
                nz = _diag_noise(A)
                if n % 2 == 0:
                    m = ("glynn", "inclexcl", "recursive")[q % 3]
                    _cmp(ctx, f"B-sum[{m}]", haf(A, method=m), w0, s0, nz)
                _cmp(ctx, "B-sum[loop]", haf(A, loop=True), w1, s1, nz)
                C = D[:, None] * M * D[None]
                _cmp(ctx, "B-banded[loop]", band(C, loop=True), w1, s1)
                _cmp(ctx, "B-banded", band(C), w0, s0)
                ctx.nontrivial(A)
