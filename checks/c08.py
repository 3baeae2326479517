"""C08: photon-number and click statistics vs sums over the joint distribution and an independent moment expansion."""
import itertools
import math

import numpy as np

from vlib import forms, gen, oracles as O
from vlib.core import section

Q = "thewalrus.quantum."


def _pn(mu, cov, hbar, p):
    return float(O.moments_from_genfun(mu, cov, hbar, p))


@section(must=("photon_number_mean", "photon_number_mean_vector", "photon_number_covar", "photon_number_covmat"), weight=1)
def means_covariances(ctx):
    f1, f2 = ctx.api(Q + "photon_number_mean"), ctx.api(Q + "photon_number_mean_vector")
    f3, f4 = ctx.api(Q + "photon_number_covar"), ctx.api(Q + "photon_number_covmat")
    rng = ctx.rng
    for k in range(ctx.n(150, 1200)):
        n = 1 + k % 6
        hbar = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, n, hbar, kind, disp=bool(rng.integers(3)), rmax=1.2, dmax=1.5)
        with ctx.case(f"means n={n} {kind} hbar={hbar}"):
            def e(i):
                return [int(a == i) for a in range(n)]

            m = np.array([_pn(mu, cov, hbar, e(i)) for i in range(n)])
            C = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    p = [a + b for a, b in zip(e(i), e(j))]
                    C[i, j] = _pn(mu, cov, hbar, p) - m[i] * m[j]
            sc = 1 + float(np.max(m)) ** 2
            ctx.close("mean vector", f2(mu, cov, hbar=hbar), m, rtol=1e-10, scale=sc)
            i, j = int(rng.integers(n)), int(rng.integers(n))
            ctx.close("mean", f1(mu, cov, i, hbar=hbar), m[i], rtol=1e-10, scale=sc)
            ctx.close("covar", f3(mu, cov, i, j, hbar=hbar), C[i, j], rtol=1e-9, scale=sc)
            ctx.close("covar swapped", f3(mu, cov, j, i, hbar=hbar), C[i, j], rtol=1e-9, scale=sc)
            got = np.asarray(f4(mu, cov, hbar=hbar))
            if ctx.close("covmat", got, C, rtol=1e-9, scale=sc):
                ctx.check(np.linalg.eigvalsh((got + got.T) / 2).min() > -1e-8 * sc, "covariance matrix of photon numbers not positive semidefinite")
            # permutation of modes
            s = [int(x) for x in rng.permutation(n)]
            m2, c2 = O.reduced(mu, cov, s)
            ctx.close("covmat permuted", f4(m2, c2, hbar=hbar), C[np.ix_(s, s)], rtol=1e-9, scale=sc)
            if n > 1:
                ctx.nontrivial(mu, cov, hbar)
            ctx.sample(n=n, kind=kind, hbar=hbar, means=m[:3])


@section(must=("photon_number_moment", "photon_number_cumulant", "photon_number_expectation", "photon_number_squared_expectation"), weight=3)
def moments(ctx):
    mom, cum = ctx.api(Q + "photon_number_moment"), ctx.api(Q + "photon_number_cumulant")
    ex, sq = ctx.api(Q + "photon_number_expectation"), ctx.api(Q + "photon_number_squared_expectation")
    rng = ctx.rng
    for k in range(ctx.n(90, 700)):
        n = 1 + k % 5
        hbar = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, n, hbar, kind, disp=bool(rng.integers(3)))
        with ctx.case(f"moments n={n} {kind} hbar={hbar}"):
            m = int(rng.integers(1, min(n, 3) + 1))
            modes = [int(x) for x in rng.permutation(n)[:m]]
            pw = [int(x) for x in rng.integers(0, 4, size=m)]
            while sum(pw) > 5:
                pw[int(np.argmax(pw))] -= 1
            if k % 6 == 5:  # one mode, high powers
                pw = [4 + k // 6 % 3] + [0] * (m - 1)
            p = [0] * n
            for a, b in zip(modes, pw):
                p[a] = b
            w = _pn(mu, cov, hbar, p)
            sc = abs(w) + 1
            ctx.close(f"photon_number_moment", mom(mu, cov, dict(zip(modes, pw)), hbar=hbar), w, rtol=1e-8, scale=sc)
            e1, e2 = [0] * n, [0] * n
            for a in modes:
                e1[a], e2[a] = 1, 2
            w1 = _pn(mu, cov, hbar, e1)
            ctx.close("photon_number_expectation", ex(mu, cov, modes, hbar=hbar), w1, rtol=1e-8, scale=abs(w1) + 1)
            if m < 3:
                w2 = _pn(mu, cov, hbar, e2)
                ctx.close("photon_number_squared_expectation", sq(mu, cov, modes, hbar=hbar), w2, rtol=1e-8, scale=abs(w2) + 1)
            rep = [int(x) for x in rng.integers(0, n, size=int(rng.integers(1, 5)))]

            def mm(ix):
                q = [0] * n
                for i in ix:
                    q[i] += 1
                return _pn(mu, cov, hbar, q)

            wc = O.joint_cumulant(mm, rep)
            ctx.close("photon_number_cumulant", cum(mu, cov, rep, hbar=hbar), wc, rtol=1e-8, scale=mm(rep) + 1)
            ctx.nontrivial(mu, cov, modes, pw, rep)
            ctx.sample(modes=modes, powers=pw, value=w)


@section(must=("photon_number_moment", "photon_number_covmat"), weight=2)
def distribution(ctx):
    """Moments against direct sums over the truncated joint distribution (weak states, tail bounded)."""
    mom, cm, mv = ctx.api(Q + "photon_number_moment"), ctx.api(Q + "photon_number_covmat"), ctx.api(Q + "photon_number_mean_vector")
    rng = ctx.rng
    for k in range(ctx.n(14, 80)):
        n = 1 + k % 2
        cut = 60 if n == 1 else 14
        hbar = gen.hbar_of(rng)
        mu, cov = gen.state(rng, n, hbar, ["pure", "mixed", "lossy", "tms", "classical", "uneven", "near_pure"][k % 7], rmax=0.5 if n == 1 else 0.25,
                            nmax=0.3 if n == 1 else 0.12, dmax=0.8 if n == 1 else 0.3)
        with ctx.case(f"distribution n={n} hbar={hbar}"):
            P = O.probs_table(mu, cov, hbar, (cut,) * n)
            miss = max(0.0, 1 - P.sum())
            if miss > 1e-4:
                ctx.count("tail too heavy, skipped")
                continue
            tol = 1e-7 + miss * (4 * cut) ** 3
            N = np.stack(np.meshgrid(*[np.arange(cut)] * n, indexing="ij"))
            m = [(P * N[i]).sum() for i in range(n)]
            ctx.close("mean vs distribution", mv(mu, cov, hbar=hbar), m, rtol=0, atol=tol)
            C = np.array([[(P * N[i] * N[j]).sum() - m[i] * m[j] for j in range(n)] for i in range(n)])
            ctx.close("covariance vs distribution", cm(mu, cov, hbar=hbar), C, rtol=0, atol=2 * tol)
            pw = [int(x) for x in rng.integers(0, 3, size=n)]
            w = (P * np.prod([N[i] ** pw[i] for i in range(n)], axis=0)).sum()
            ctx.close("moment vs distribution", mom(mu, cov, {i: pw[i] for i in range(n)}, hbar=hbar), w, rtol=0, atol=tol * 4 * cut)
            ctx.nontrivial(mu, cov, pw)


@section(must=("normal_ordered_expectation", "s_ordered_expectation"), weight=2)
def ordered(ctx):
    """s-ordered moments: definition through Wick pairings with the s-dependent contraction."""
    no, so = ctx.api(Q + "normal_ordered_expectation"), ctx.api(Q + "s_ordered_expectation")
    rng = ctx.rng
    for k in range(ctx.n(150, 1200)):
        n = 1 + k % 4
        hbar = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, n, hbar, kind, disp=bool(rng.integers(3)))
        rpt = [int(x) for x in rng.integers(0, 4, size=2 * n)]
        if k % 3 == 0:
            rpt = rpt[:n] * 2
        if k % 4 == 0 and n > 1:
            j = int(rng.integers(n))
            rpt[j] = rpt[j + n] = 0
        while sum(rpt) > 8:
            rpt[int(np.argmax(rpt))] -= 1
        s = [1, 0, -1, 0.5, -0.3][k % 5]
        with ctx.case(f"ordered n={n} rpt={rpt} s={s} {kind} hbar={hbar}"):
            al, N, M = O.a_moments(mu, cov, hbar)
            # variables (a^dag_0.., a_0..): contraction <a^dag_i a_j> = N_ij normally ordered + (1-s)/2 delta
            Ns = N + (1 - s) / 2 * np.eye(n)
            W = np.block([[M.conj(), Ns], [Ns.T, M]])
            b = np.concatenate([al.conj(), al])
            want = complex(O.lhaf_counts(W, b, rpt, one=1.0))
            sc = O.haf_scale(W, b, rpt) + 1
            arg = [list, tuple, np.array][k % 3](rpt)
            ctx.close(f"s_ordered", so(mu, cov, arg, hbar=hbar, s=s), want, rtol=1e-9, scale=sc)
            if s == 1:
                ctx.close("normal_ordered", no(mu, cov, arg, hbar=hbar), want, rtol=1e-9, scale=sc)
            ctx.nontrivial(mu, cov, rpt, s)
            ctx.sample(rpt=rpt, s=s, value=want)


@section(must=("mean_clicks", "variance_clicks", "click_cumulant"), weight=2)
def clicks(ctx):
    mc, vc, cc = ctx.api(Q + "mean_clicks"), ctx.api(Q + "variance_clicks"), ctx.api(Q + "click_cumulant")
    rng = ctx.rng
    for k in range(ctx.n(70, 500)):
        n = 1 + k % 6
        hbar = gen.hbar_of(rng)
        kind = gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))]
        mu, cov = gen.state(rng, n, hbar, kind, disp=bool(k % 2))
        z = np.zeros(2 * n)
        with ctx.case(f"clicks n={n} {kind} hbar={hbar}"):
            p = {pat: O.click_prob(z, cov, hbar, pat) for pat in itertools.product((0, 1), repeat=n)}
            m = sum(sum(t) * q for t, q in p.items())
            v = sum(sum(t) ** 2 * q for t, q in p.items()) - m * m
            ctx.close("mean_clicks", mc(cov, hbar=hbar), m, rtol=1e-8, scale=n)
            ctx.close("variance_clicks", vc(cov, hbar=hbar), v, rtol=1e-8, scale=n * n)
            r = int(rng.integers(1, min(n, 4) + 1))
            modes = [int(x) for x in rng.permutation(n)[:r]]
            if k % 4 == 0:
                modes = modes + modes[:1]

            def cm(ix):
                s = sorted(set(ix))
                return O.click_prob(*O.reduced(mu, cov, s), hbar, [1] * len(s))

            if len(modes) <= 4:
                ctx.close("click_cumulant", cc(mu, cov, modes, hbar=hbar), O.joint_cumulant(cm, modes), rtol=1e-8, atol=1e-9, scale=1)
            if n > 1:
                ctx.nontrivial(mu, cov, modes)
            ctx.sample(n=n, mean=m, variance=v)


@section(must=("photon_number_mean_vector", "mean_clicks", "photon_number_moment"))
def units(ctx):
    """Rescaling hbar together with the state changes nothing; embedding in vacuum modes changes nothing."""
    mv, cm, mc, mom, so = (ctx.api(Q + x) for x in ("photon_number_mean_vector", "photon_number_covmat", "mean_clicks", "photon_number_moment", "s_ordered_expectation"))
    rng = ctx.rng
    for k in range(ctx.n(40, 300)):
        n = 1 + k % 4
        h = gen.hbar_of(rng)
        c = float(rng.uniform(0.3, 3))
        mu, cov = gen.state(rng, n, h)
        with ctx.case(f"units n={n} hbar={h} factor={c:.3f}"):
            a = (mu, cov)
            b = (mu * math.sqrt(c), cov * c)
            ctx.close("means", mv(*b, hbar=h * c), mv(*a, hbar=h), rtol=1e-9, scale=1)
            ctx.close("covmat", cm(*b, hbar=h * c), cm(*a, hbar=h), rtol=1e-9, scale=10)
            ctx.close("clicks", mc(b[1], hbar=h * c), mc(a[1], hbar=h), rtol=1e-9, scale=1)
            ind = {int(rng.integers(n)): 2}
            ctx.close("moment", mom(*b, ind, hbar=h * c), mom(*a, ind, hbar=h), rtol=1e-8, scale=10)
            ctx.nontrivial(mu, cov, c)


@section
def old_names(ctx):
    """The deprecated names, where still offered, give what the new names give."""
    for old, new in (("mean_number_of_clicks", "mean_clicks"), ("variance_number_of_clicks", "variance_clicks")):
        f, g = ctx.api(Q + old, optional=True), ctx.api(Q + new)
        if f is None:
            ctx.count("old names no longer offered")
            continue
        for k in range(ctx.n(12, 60)):
            n = 1 + k % 3
            hbar = gen.hbar_of(ctx.rng)
            args, kw = (gen.state(ctx.rng, n, hbar, "mixed")[1],), dict(hbar=hbar)
            with ctx.case(f"{old} #{k}"):
                ctx.close(old, f(*args, **kw), g(*args, **kw), rtol=1e-12, atol=1e-14)
                ctx.nontrivial(old, k)


@section(must=("photon_number_mean_vector", "photon_number_covmat", "photon_number_moment", "s_ordered_expectation", "mean_clicks"), weight=2)
def beyond(ctx):
    """7-13 modes: products of small states in shuffled order - expectations factorise, cumulants across parts vanish, click numbers add."""
    mv, cm, mo, cu = (ctx.api(Q + x) for x in ("photon_number_mean_vector", "photon_number_covmat", "photon_number_moment", "photon_number_cumulant"))
    so, mc, vc, cc = (ctx.api(Q + x) for x in ("s_ordered_expectation", "mean_clicks", "variance_clicks", "click_cumulant"))
    rng = ctx.rng
    for k in range(ctx.n(12, 200)):
        n = 7 + k % 7
        hbar = gen.hbar_of(rng)
        gs = gen.sizes(rng, n, 3)
        parts = [gen.state(rng, g, hbar, gen.STATE_KINDS[int(rng.integers(len(gen.STATE_KINDS)))], disp=bool(rng.integers(3)), rmax=0.6, dmax=0.7) for g in gs]
        order = rng.permutation(n)
        mu, cov = gen.join(parts, order)
        pos = np.empty(n, int)
        pos[order] = np.arange(n)  # mode j of the product is listed at pos[j]
        starts = np.concatenate([[0], np.cumsum(gs)])

        def factor(fun):
            """prod over parts of fun(mu, cov, sum-ordered indices of the part)."""
            return [fun(m, c, list(range(a, a + g))) for (m, c), g, a in zip(parts, gs, starts)]

        with ctx.case(f"{n} modes in groups {gs} hbar={hbar}"):
            means = np.concatenate([[_pn(m, c, hbar, [int(a == i) for a in range(g)]) for i in range(g)] for (m, c), g in zip(parts, gs)])
            C = np.zeros((n, n))
            for (m, c), g, a in zip(parts, gs, starts):
                for i in range(g):
                    for j in range(g):
                        p = [0] * g
                        p[i] += 1
                        p[j] += 1
                        C[a + i, a + j] = _pn(m, c, hbar, p) - means[a + i] * means[a + j]
            sc = 1 + float(means.max()) ** 2
            ctx.close("mean vector", mv(mu, cov, hbar=hbar), means[order], rtol=1e-9, scale=sc)
            ctx.close("covmat", cm(mu, cov, hbar=hbar), C[np.ix_(order, order)], rtol=1e-9, scale=sc)
            # a moment over a few modes of several parts
            pick = [int(x) for x in rng.permutation(n)[: int(rng.integers(2, 5))]]
            pw = {j: int(rng.integers(1, 3)) for j in pick}
            while sum(pw.values()) > 5:
                pw[max(pw, key=pw.get)] -= 1
            w = np.prod(factor(lambda m, c, ix: _pn(m, c, hbar, [pw.get(j, 0) for j in ix]) if any(pw.get(j, 0) for j in ix) else 1.0))
            ctx.close("moment", mo(mu, cov, {int(pos[j]): e for j, e in pw.items()}, hbar=hbar), w, rtol=1e-8, scale=abs(w) + 1)
            # ordered expectation
            rpt = np.zeros(2 * n, int)
            for j in rng.permutation(2 * n)[: int(rng.integers(2, 5))]:
                rpt[j] = int(rng.integers(1, 3))
            s = [1, 0, -1, 0.4][k % 4]
            w, sc2 = 1.0 + 0j, 1.0
            for (m, c), g, a in zip(parts, gs, starts):
                al, N, M = O.a_moments(m, c, hbar)
                W = np.block([[M.conj(), N + (1 - s) / 2 * np.eye(g)], [(N + (1 - s) / 2 * np.eye(g)).T, M]])
                b = np.concatenate([al.conj(), al])
                r = [int(rpt[a + i]) for i in range(g)] + [int(rpt[n + a + i]) for i in range(g)]
                w, sc2 = w * complex(O.lhaf_counts(W, b, r, one=1.0)), sc2 * max(O.haf_scale(W, b, r), 1e-12)
            listed = [int(rpt[order[p]]) for p in range(n)] + [int(rpt[n + order[p]]) for p in range(n)]
            ctx.close("s_ordered", so(mu, cov, listed, hbar=hbar, s=s), w, rtol=1e-9, scale=sc2 + 1)
            # cumulants: across parts zero
            a, b = int(rng.integers(n)), int(rng.integers(n))
            t = [a, b] + ([int(rng.integers(n))] if k % 2 else [])
            grp = {int(np.searchsorted(starts, j, side="right")) for j in t}
            if len(grp) > 1:
                ctx.close("cumulant across parts", cu(mu, cov, [int(pos[j]) for j in t], hbar=hbar), 0.0, rtol=0, atol=1e-8 * (1 + means.max()) ** 3)
                if len(set(t)) == len(t):
                    ctx.close("click cumulant across parts", cc(mu, cov, [int(pos[j]) for j in t], hbar=hbar), 0.0, rtol=0, atol=1e-9)
            # clicks (of the undisplaced state)
            ms = vs = 0.0
            for (m, c), g in zip(parts, gs):
                p = {pat: O.click_prob(np.zeros(2 * g), c, hbar, pat) for pat in itertools.product((0, 1), repeat=g)}
                x = sum(sum(q) * v for q, v in p.items())
                ms, vs = ms + x, vs + sum(sum(q) ** 2 * v for q, v in p.items()) - x * x
            ctx.close("mean_clicks", mc(cov, hbar=hbar), ms, rtol=1e-8, scale=n)
            ctx.close("variance_clicks", vc(cov, hbar=hbar), vs, rtol=1e-8, scale=n)
            ctx.nontrivial(mu, cov)


@section(must=("photon_number_moment", "s_ordered_expectation", "photon_number_covmat", "mean_clicks"))
def other_forms(ctx):
    """Integer, strided, Fortran-ordered and read-only data, numpy scalars: the value does not depend on the form."""
    fs = {x: ctx.api(Q + x) for x in ("photon_number_mean", "photon_number_mean_vector", "photon_number_covar", "photon_number_covmat", "photon_number_moment",
                                      "photon_number_cumulant", "photon_number_expectation", "photon_number_squared_expectation", "s_ordered_expectation",
                                      "normal_ordered_expectation", "mean_clicks", "variance_clicks", "click_cumulant")}
    rng = ctx.rng
    for k in range(ctx.n(60, 600)):
        n = 1 + k % 4
        hbar = 2.0 if k % 2 else gen.hbar_of(rng)
        mu, cov = gen.int_state(rng, n) if k % 2 else gen.state(rng, n, hbar)
        i, j = (int(x) for x in rng.integers(n, size=2))
        some = [int(x) for x in rng.permutation(n)[: int(rng.integers(1, min(n, 2) + 1))]]
        rpt = [int(x) for x in rng.multinomial(int(rng.integers(1, 5)), np.ones(2 * n) / (2 * n))]
        kw = dict(hbar=hbar)
        for x, rest, extra in (("photon_number_mean", (i,), {}), ("photon_number_mean_vector", (), {}), ("photon_number_covar", (i, j), {}), ("photon_number_covmat", (), {}),
                               ("photon_number_moment", ({m: int(rng.integers(1, 3)) for m in some},), {}), ("photon_number_cumulant", ([i, j, i][: 1 + k % 3],), {}),
                               ("photon_number_expectation", (some,), {}), ("photon_number_squared_expectation", (some[:1],), {}),
                               ("s_ordered_expectation", (rpt,), dict(s=(1, 0, -1, 0.5)[k % 4])), ("normal_ordered_expectation", (rpt,), {}), ("click_cumulant", (some,), {})):
            forms.same(ctx, x, fs[x], (mu, cov) + rest, dict(kw, **extra), f"n={n} {rest} {extra}")
        forms.same(ctx, "mean_clicks", fs["mean_clicks"], (cov,), kw, f"n={n}")
        forms.same(ctx, "variance_clicks", fs["variance_clicks"], (cov,), kw, f"n={n}")
