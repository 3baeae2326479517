"""C20: ill-formed inputs are rejected with an error instead of a number.

Every section takes valid arguments (the control call must succeed), damages exactly one thing - at a
random position, of a random magnitude, under random options - and watches what the call does: it has to
raise the documented class of exception.  A returned value, an exception of another class or a call that
does not come back is a violation.  Predicates have to answer False instead.
"""
import signal

import numpy as np

from vlib import gen
from vlib.core import section

VE = (ValueError,)
ANY = (Exception,)


class Hang(BaseException):
    pass


def rejects(ctx, what, exc, fn, *args, **kw):
    """The call raises one of `exc` within 30 s."""

    def alarm(*_):
        raise Hang()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(30)
    try:
        ok = ctx.raises(what, exc, fn, *args, **kw)
    except Hang:
        ok = False
        ctx.violate("no-exception", f"{what}: the call was still running after 30 s instead of raising {exc}")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.count("defect:" + what.split(" @")[0])
    ctx.nontrivial(what, *[a for a in args if not callable(a)], sorted(kw))
    return ok


def control(ctx, what, fn, *args, **kw):
    """The undamaged call returns (an exception is reported by ctx.case)."""
    fn(*args, **kw)
    ctx.evals += 1
    ctx.count("control:" + what)


def nan_like(rng, A):
    """NaN at one place (sometimes in the imaginary part, sometimes mirrored)."""
    B = np.array(A, dtype=complex if np.iscomplexobj(A) else float)
    i = tuple(int(rng.integers(k)) for k in B.shape)
    v = np.nan
    if np.iscomplexobj(B):
        v = [complex(np.nan, 0), complex(0, np.nan), complex(np.nan, np.nan)][rng.integers(3)]
    B[i] = v
    if B.ndim == 2 and B.shape[0] == B.shape[1] and rng.random() < 0.5:
        B[i[1], i[0]] = v
    return B


def asym(rng, A, rel=None):
    """One off-diagonal entry moved away from its mirror image."""
    B = np.array(A, dtype=complex if np.iscomplexobj(A) else float)
    n = len(B)
    i, j = rng.choice(n, size=2, replace=False)
    s = max(1.0, np.max(np.abs(B)))
    d = s * 10.0 ** rng.uniform(-2.5, 3) * rng.choice([-1, 1])
    if np.iscomplexobj(B) and rng.random() < 0.5:
        d = d * 1j
    B[i, j] += d
    return B


def nonsquare(rng, n, c=False):
    m = int(rng.choice([k for k in (n - 2, n - 1, n + 1, n + 2, 2 * n) if k > 0 and k != n]))
    A = rng.normal(size=(n, m)) + (1j * rng.normal(size=(n, m)) if c else 0)
    return A if rng.random() < 0.5 else np.ascontiguousarray(A.T)


def as_list(A):
    return A.tolist()


def wronglen(rng, v):
    """A vector of a different length."""
    n = len(v)
    m = int(rng.choice([k for k in (0, n - 2, n - 1, n + 1, n + 2, 2 * n) if k >= 0 and k != n]))
    return np.resize(np.asarray(v), m)


@section(must=("hafnian", "hafnian_repeated", "hafnian_banded", "hafnian_batched", "hermite_multidimensional"))
def hafnians(ctx):
    """Hafnian family: type, shape, NaN, symmetry, repetitions, loops, method, approx."""
    rng = ctx.rng
    haf = ctx.api("thewalrus.hafnian")
    rep = ctx.api("thewalrus.hafnian_repeated")
    ban = ctx.api("thewalrus.hafnian_banded")
    bat = ctx.api("thewalrus.hafnian_batched")
    her = ctx.api("thewalrus.hermite_multidimensional")
    itf = ctx.api("thewalrus.interferometer")
    rec = ctx.api("thewalrus._hafnian.recursive_hafnian", optional=True)
    low = [0, 1, 2, 3, 4, 5, 6]
    for _ in range(ctx.n(60, 600)):
        n = int(rng.choice(low[1:]))
        c = bool(rng.random() < 0.4)
        A = gen.sym(rng, n, "complex" if c else "real")
        loop = bool(rng.random() < 0.5)
        method = str(rng.choice(["glynn", "inclexcl", "recursive"]))
        rpt = rng.integers(0, 3, size=n)
        mu = rng.normal(size=n)
        cut = 3 if n < 4 else 2
        calls = {
            "hafnian": lambda M: haf(M, loop=loop, method=method),
            "hafnian_repeated": lambda M: rep(M, rpt.tolist(), mu=mu if len(M) == n else None, loop=loop),
            "hafnian_banded": lambda M: ban(M, loop=loop),
            "hafnian_batched": lambda M: bat(M, cut, mu=mu, renorm=bool(n % 2)),
            "hermite_multidimensional": lambda M: her(M, cut, y=mu, renorm=bool(n % 2), modified=loop),
            "interferometer": lambda M: itf(M, cut, renorm=loop),
        }
        for name, f in calls.items():
            with ctx.case(dict(fn=name, n=n, loop=loop, method=method, complex=c)):
                if name == "interferometer" and n % 2:
                    continue
                control(ctx, name, f, A)
                rejects(ctx, f"{name} of a list", (TypeError,), f, as_list(A))
                rejects(ctx, f"{name} of a non-square matrix", VE, f, nonsquare(rng, n, c))
                rejects(ctx, f"{name} of NaN", VE, f, nan_like(rng, A))
                if n > 1:
                    rejects(ctx, f"{name} of a non-symmetric matrix", VE, f, asym(rng, A))
        with ctx.case(dict(n=n, rpt=rpt)):
            k = int(rng.integers(n))
            for scaleA in (A, 0 * A):
                base = rpt.copy() if rng.random() < 0.7 else 0 * rpt
                for what, r in (
                    ("a negative repetition", np.where(np.arange(n) == k, -int(rng.integers(1, 5)), base).tolist()),
                    ("a fractional repetition", np.where(np.arange(n) == k, base + rng.uniform(0.05, 0.95), base).tolist()),
                    ("too few or too many repetitions", wronglen(rng, base).astype(int).tolist()),
                ):
                    rejects(ctx, f"hafnian_repeated with {what}", VE, rep, scaleA, r, mu=mu, loop=loop)
                rejects(ctx, "hafnian_repeated with a wrong length of mu", VE, rep, scaleA, base.tolist(), mu=wronglen(rng, mu), loop=True)
            rejects(ctx, "hafnian with an unknown method", VE, haf, A, loop=loop,
                    method=rng.choice(["typo", "Glynn", "", "ryser", "inclexc"]).item())
            rejects(ctx, "hermite_multidimensional with a wrong length of y", VE, her, A, cut, y=wronglen(rng, mu), modified=loop)
            rejects(ctx, "hafnian_batched with a wrong length of mu", VE, bat, A, cut, mu=wronglen(rng, mu))
            m = int(rng.choice([q for q in (1, n - 1, n + 1, n + 2) if q > 0 and q != n]))
            if m > 1:
                rejects(ctx, "hermite_multidimensional with a wrong number of cutoffs", ANY, her, A, (cut,) * m, y=mu)
                rejects(ctx, "hafnian_batched with a wrong number of cutoffs", ANY, bat, A, (cut,) * m, mu=mu)
        P = np.abs(gen.sym(rng, n, "real")) + 0.1
        with ctx.case(dict(approx=n)):
            control(ctx, "approx", haf, P, approx=True, num_samples=3)
            i, j = rng.integers(n, size=2)
            N = P.copy()
            N[i, j] = N[j, i] = -(10.0 ** rng.uniform(-3, 2))
            rejects(ctx, "approximate hafnian of a negative entry", VE, haf, N, approx=True, loop=loop)
            Z = P + 0j
            Z[i, j] = Z[j, i] = P[i, j] + 1j * 10.0 ** rng.uniform(-3, 2) * rng.choice([-1, 1])
            rejects(ctx, "approximate hafnian of a complex entry", VE, haf, Z, approx=True, loop=loop)
        if rec is not None:
            with ctx.case(dict(recursive=n)):
                rejects(ctx, "recursive_hafnian of a non-square matrix", VE, rec, rng.normal(size=(2, 4)))
                rejects(ctx, "recursive_hafnian of odd size", VE, rec, gen.sym(rng, 2 * (n // 2) + 1, "real"))
        # rejected at a tightened tolerance, accepted at a loosened one
        if n > 1:
            with ctx.case(dict(tolerance=n)):
                d = np.zeros((n, n))
                d[0, n - 1] = 1e-4
                B = np.ones((n, n)) + d
                rejects(ctx, "hafnian of a matrix beyond rtol/atol", VE, haf, B, loop=loop, rtol=1e-6, atol=1e-6)
                control(ctx, "hafnian within rtol", haf, B, loop=loop, rtol=1e-2, atol=0)
                control(ctx, "hafnian within atol", haf, B, loop=loop, rtol=0, atol=1e-2)
                control(ctx, "hafnian_repeated within rtol", rep, B, [1] * n, loop=loop, rtol=1e-2)
                rejects(ctx, "hafnian_repeated beyond rtol", VE, rep, B, [1] * n, loop=loop, rtol=1e-6, atol=1e-6)


@section(must=("perm", "tor", "ltor", "mtl", "lmtl", "fock_prob", "fock_threshold_prob"))
def permanents(ctx):
    """Permanents, torontonians, montrealers and Fock probabilities."""
    rng = ctx.rng
    perm = ctx.api("thewalrus.perm")
    prep = ctx.api("thewalrus.permanent_repeated")
    tor, ltor = ctx.api("thewalrus.tor"), ctx.api("thewalrus.ltor")
    mtl, lmtl = ctx.api("thewalrus._montrealer.mtl"), ctx.api("thewalrus._montrealer.lmtl")
    fp, ftp = ctx.api("thewalrus._permanent.fock_prob"), ctx.api("thewalrus._permanent.fock_threshold_prob")
    thr = ctx.api("thewalrus.threshold_detection_prob")
    for _ in range(ctx.n(50, 600)):
        n = int(rng.integers(1, 6))
        c = bool(rng.random() < 0.5)
        A = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if c else 0)
        meth = str(rng.choice(["bbfg", "ryser"]))
        with ctx.case(dict(fn="perm", n=n)):
            control(ctx, "perm", perm, A, method=meth)
            rejects(ctx, "perm of a list", (TypeError,), perm, as_list(A), method=meth)
            rejects(ctx, "perm of a non-square matrix", VE, perm, nonsquare(rng, n, c), method=meth)
            rejects(ctx, "perm of NaN", VE, perm, nan_like(rng, A), method=meth)
            rejects(ctx, "perm with an unknown method", VE, perm, A, method=rng.choice(["typo", "BBFG", "glynn", ""]).item())
            r = rng.integers(0, 3, size=n)
            k = int(rng.integers(n))
            control(ctx, "permanent_repeated", prep, A, r.tolist())
            rejects(ctx, "permanent_repeated with a negative repetition", VE, prep, A, np.where(np.arange(n) == k, -1, r).tolist())
            rejects(ctx, "permanent_repeated with a fractional repetition", VE, prep, A, np.where(np.arange(n) == k, r + 0.5, r).tolist())
            rejects(ctx, "permanent_repeated with a wrong number of repetitions", VE, prep, A, wronglen(rng, r).astype(int).tolist())
            rejects(ctx, "permanent_repeated of a non-square matrix", VE, prep, nonsquare(rng, n, c), r.tolist())
            rejects(ctx, "permanent_repeated of NaN", VE, prep, nan_like(rng, A), r.tolist())
        m = int(rng.integers(1, 4))
        mu, V = gen.state(rng, m, kind=str(rng.choice(["mixed", "pure", "lossy", "thermal"])))
        S = 0.3 * gen.sym(rng, 2 * m, "real") / (2 * m)
        g = rng.normal(size=2 * m) * 0.3
        rec = bool(rng.random() < 0.5)
        # a matrix the torontonian accepts: O = I - inverse of the complex covariance
        O = np.eye(2 * m) * rng.uniform(0.1, 0.6)
        for name, f, gf in (("tor", lambda M: tor(M, recursive=rec), None), ("mtl", mtl, None),
                            ("ltor", lambda M, z=g: ltor(M, z, recursive=rec), lambda z: ltor(O, z, recursive=rec)),
                            ("lmtl", lambda M, z=g: lmtl(M, z), lambda z: lmtl(O, z))):
            with ctx.case(dict(fn=name, modes=m, recursive=rec)):
                X = O if "tor" in name else S
                control(ctx, name, f, X)
                rejects(ctx, f"{name} of a list", (TypeError,), f, as_list(X))
                rejects(ctx, f"{name} of a non-square matrix", VE, f, nonsquare(rng, 2 * m))
                rejects(ctx, f"{name} of NaN", VE, f, nan_like(rng, X))
                odd = np.eye(2 * m + int(rng.choice([-1, 1]))) * 0.2
                if gf is None:
                    rejects(ctx, f"{name} of odd size", VE, f, odd)
                else:
                    h = ltor if name == "ltor" else lmtl
                    kw = dict(recursive=rec) if name == "ltor" else {}
                    rejects(ctx, f"{name} of odd size", VE, h, odd, np.resize(g, len(odd)), **kw)
                    rejects(ctx, f"{name} with loops as list", (TypeError,), gf, g.tolist())
                    rejects(ctx, f"{name} with a wrong number of loops", VE, gf, wronglen(rng, g))
                    rejects(ctx, f"{name} with NaN loops", VE, gf, nan_like(rng, g))
        M = int(rng.integers(2, 5))
        U = gen.haar(rng, M)
        N = int(rng.integers(1, 4))
        ni, mo = gen.partition(rng, N, M), gen.partition(rng, N, M)
        with ctx.case(dict(fn="fock_prob", M=M)):
            control(ctx, "fock_prob", fp, ni.tolist(), mo.tolist(), U)
            k = int(rng.integers(M))
            more = mo + (np.arange(M) == k) * int(rng.integers(1, 3))
            rejects(ctx, "fock_prob of unequal photon numbers", VE, fp, ni.tolist(), more.tolist(), U)
            rejects(ctx, "fock_prob of unequal photon numbers", VE, fp, more.tolist(), mo.tolist(), U)
            short = np.zeros(M - 1, int)
            short[0] = N
            long = np.append(ni, 0)
            rejects(ctx, "fock_prob of a short input pattern", VE, fp, short.tolist(), mo.tolist(), U)
            rejects(ctx, "fock_prob of a short output pattern", VE, fp, ni.tolist(), short.tolist(), U)
            rejects(ctx, "fock_prob of a long pattern", VE, fp, long.tolist(), mo.tolist(), U)
            d = np.zeros(M, int)
            d[rng.integers(M)] = 1
            T = U * rng.uniform(0.3, 1)
            control(ctx, "fock_threshold_prob", ftp, ni.tolist(), d.tolist(), T)
            rejects(ctx, "fock_threshold_prob of a wrong number of inputs", VE, ftp, wronglen(rng, ni).astype(int).tolist(), d.tolist(), T)
            rejects(ctx, "fock_threshold_prob of a wrong number of outputs", VE, ftp, ni.tolist(), wronglen(rng, d).astype(int).tolist(), T)
            w = int(rng.integers(1, M))
            tall = T[:, :w]
            rejects(ctx, "fock_threshold_prob with more outputs than inputs", VE, ftp, [1] + [0] * (w - 1), d.tolist(), tall)
        with ctx.case(dict(fn="threshold_detection_prob", m=m)):
            ok = [1] * m
            control(ctx, "threshold_detection_prob", thr, mu, V, ok)
            rejects(ctx, "threshold_detection_prob of too many detectors", ANY, thr, mu, V, [1] * (m + 1))


def bad_mode(rng, n):
    return int(rng.choice([-1, -2, -n, n, n + 1, 2 * n, 2 * n + 3]))


@section(must=("expand_passive", "reduced_state", "xxpp_to_xpxp", "williamson", "blochmessiah", "takagi"))
def phasespace(ctx):
    """symplectic.py and decompositions.py: shapes, modes, symplecticity, positive definiteness."""
    rng = ctx.rng
    A = lambda nm: ctx.api("thewalrus.symplectic." + nm)
    D = lambda nm: ctx.api("thewalrus.decompositions." + nm)
    exp, expv, expp, red = A("expand"), A("expand_vector"), A("expand_passive"), A("reduced_state")
    x2p, p2x, issymp = A("xxpp_to_xpxp"), A("xpxp_to_xxpp"), A("is_symplectic")
    wil, bm, tak, pre, iwa, symev = D("williamson"), D("blochmessiah"), D("takagi"), D("pre_iwasawa"), D("iwasawa"), D("symplectic_eigenvals")
    rg = ctx.api("thewalrus.quantum.reduced_gaussian")
    for _ in range(ctx.n(150, 1500)):
        n = int(rng.integers(1, 5))
        mu, V = gen.state(rng, n)
        S = gen.symplectic(rng, n)
        k = int(rng.integers(1, n + 1))
        modes = rng.choice(n, size=k, replace=False)
        bad = modes.copy()
        pos = int(rng.integers(k))
        bad[pos] = bad_mode(rng, n)
        with ctx.case(dict(fn="modes", n=n, modes=modes, bad=bad)):
            for name, f in (("reduced_state", red), ("reduced_gaussian", rg)):
                control(ctx, name, f, mu, V, modes.tolist())
                form = [bad.tolist(), bad, tuple(bad.tolist())][rng.integers(3)]
                rejects(ctx, f"{name} of a mode out of range", VE, f, mu, V, form)
                rejects(ctx, f"{name} of one mode out of range", VE, f, mu, V, int(bad[pos]))
            Sk = gen.symplectic(rng, k)
            control(ctx, "expand", exp, Sk, modes.tolist(), n)
            rejects(ctx, "expand to a mode out of range", ANY, exp, Sk, bad.tolist(), n)
            rejects(ctx, "expand_vector to a mode out of range", ANY, expv, 0.3 + 0.1j, int(bad[pos]), n)
            T = gen.haar(rng, k)
            control(ctx, "expand_passive", expp, T, modes, n)
            rejects(ctx, "expand_passive of a non-square matrix", VE, expp, nonsquare(rng, k, True), modes, n)
            rejects(ctx, "expand_passive with a wrong number of modes", VE, expp, T, wronglen(rng, modes).astype(int), n)
            # one matrix dimension only agrees with the number of modes
            rejects(ctx, "expand_passive of a non-square matrix", VE, expp, rng.normal(size=(k, k + 1)), modes, n)
            rejects(ctx, "expand_passive of a non-square matrix", VE, expp, rng.normal(size=(k + 1, k)), np.resize(modes, k + 1), n)
        with ctx.case(dict(fn="reorder", n=n)):
            for name, f in (("xxpp_to_xpxp", x2p), ("xpxp_to_xxpp", p2x)):
                control(ctx, name, f, V)
                control(ctx, name, f, mu)
                rejects(ctx, f"{name} of an odd vector", VE, f, rng.normal(size=2 * n - 1))
                rejects(ctx, f"{name} of an odd matrix", VE, f, rng.normal(size=(2 * n - 1, 2 * n - 1)))
                rejects(ctx, f"{name} of a non-square matrix", VE, f, rng.normal(size=(2 * n, 2 * n + int(rng.choice([-1, 1, 2])))))
        # decompositions
        with ctx.case(dict(fn="decompositions", n=n)):
            P = V + 0.1 * np.eye(2 * n)
            control(ctx, "williamson", wil, P)
            rejects(ctx, "williamson of a non-square matrix", VE, wil, nonsquare(rng, 2 * n))
            rejects(ctx, "williamson of a non-symmetric matrix", VE, wil, asym(rng, P))
            odd = rng.normal(size=(2 * n + 1, 2 * n + 1))
            rejects(ctx, "williamson of odd size", VE, wil, odd @ odd.T + np.eye(2 * n + 1))
            rejects(ctx, "williamson of NaN", ANY, wil, nan_like(rng, P))
            Q = gen.orth(rng, 2 * n)
            e = rng.uniform(0.5, 2, size=2 * n)
            e[rng.integers(2 * n)] = -(10.0 ** rng.uniform(-2, 2))
            neg = (Q * e) @ Q.T
            rejects(ctx, "williamson of an indefinite matrix", VE, wil, (neg + neg.T) / 2)
            dg = np.diag(rng.uniform(0.5, 2, size=2 * n))
            j = int(rng.integers(2 * n))
            dg[j, j] = 0.0
            rejects(ctx, "williamson of a singular matrix", VE, wil, dg)
            bads = S.copy()
            i, j = rng.integers(2 * n, size=2)
            bads[i, j] += rng.choice([-1, 1]) * 10.0 ** rng.uniform(-1.5, 1) * max(1, np.abs(S).max())
            # a single changed entry always breaks S Omega S^T = Omega unless the partner entries vanish: check it really is broken
            Om = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
            broken = np.max(np.abs(bads.T @ Om @ bads - Om)) > 1e-2
            if broken:
                ctx.check(issymp(bads) in (False, np.False_), "is_symplectic accepted a damaged matrix")
                for name, f in (("blochmessiah", bm), ("pre_iwasawa", pre), ("iwasawa", iwa)):
                    control(ctx, name, f, S)
                    rejects(ctx, f"{name} of a non-symplectic matrix", VE if name != "iwasawa" else ANY, f, bads)
            sc = S * rng.choice([0.5, 0.97, 1.05, 3.0])
            for name, f in (("blochmessiah", bm), ("pre_iwasawa", pre), ("iwasawa", iwa)):
                rejects(ctx, f"{name} of a scaled symplectic matrix", VE if name != "iwasawa" else ANY, f, sc)
                rejects(ctx, f"{name} of an odd matrix", ANY, f, np.eye(2 * n + 1))
                rejects(ctx, f"{name} of a non-square matrix", ANY, f, nonsquare(rng, 2 * n))
                rejects(ctx, f"{name} of NaN", ANY, f, nan_like(rng, S))
            for B in (nonsquare(rng, 2 * n), np.eye(2 * n + 1), sc, nan_like(rng, S)):
                ctx.check(issymp(B) in (False, np.False_), f"is_symplectic accepted a matrix of shape {B.shape} that is not symplectic")
            ctx.check(issymp(S) in (True, np.True_), "is_symplectic rejected a symplectic matrix")
            control(ctx, "takagi", tak, gen.sym(rng, n, "complex"))
            rejects(ctx, "takagi of a non-square matrix", VE, tak, nonsquare(rng, n, True), svd_order=bool(rng.random() < 0.5))


@section(must=("is_valid_cov", "is_pure_cov", "is_classical_cov", "fidelity", "log_negativity", "entanglement_entropy", "vonneumann_entropy"))
def states(ctx):
    """Predicates on covariance matrices and the functions that rely on them."""
    rng = ctx.rng
    Q = lambda nm: ctx.api("thewalrus.quantum." + nm)
    valid, pure, classical, fid = Q("is_valid_cov"), Q("is_pure_cov"), Q("is_classical_cov"), Q("fidelity")
    E = lambda nm: ctx.api("thewalrus.quantum.entanglement." + nm)
    vne, ee, ln = E("vonneumann_entropy"), E("entanglement_entropy"), E("log_negativity")
    for _ in range(ctx.n(150, 1500)):
        n = int(rng.integers(2, 5))
        hb = gen.hbar_of(rng)
        mu, V = gen.state(rng, n, hbar=hb, kind="mixed")
        mup, Vp = gen.state(rng, n, hbar=hb, kind="pure")
        muc, Vc = gen.state(rng, n, hbar=hb, kind="classical")
        # unphysical: symplectic eigenvalue of one mode below 1
        S = gen.symplectic(rng, n)
        nu = 1 + rng.uniform(0, 1, size=n)
        nu[rng.integers(n)] = rng.choice([0.2, 0.5, 0.8, 0.97])
        Vu = S @ np.diag(np.tile(nu, 2)) @ S.T * hb / 2
        Vu = (Vu + Vu.T) / 2
        # not classical: one quadrature below vacuum
        e = 1 + rng.uniform(0, 2, size=2 * n)
        e[rng.integers(2 * n)] = rng.choice([0.1, 0.5, 0.9])
        Oc = gen.passive_symplectic(gen.haar(rng, n))
        Vn = Oc @ np.diag(e) @ Oc.T * hb / 2
        Vn = (Vn + Vn.T) / 2
        damaged = [("asymmetric", asym(rng, V)), ("NaN", nan_like(rng, V)), ("non-square", nonsquare(rng, 2 * n)),
                   ("odd", np.eye(2 * n - 1) * hb), ("unphysical", Vu), ("negative", -V)]
        with ctx.case(dict(fn="predicates", n=n, hbar=hb)):
            for f in (valid, pure, classical):
                for what, B in damaged:
                    try:
                        r = f(B, hbar=hb)
                    except Exception as ex:  # noqa: BLE001
                        ctx.evals += 1
                        ctx.violate("exception", f"{f.name} of a matrix that is {what}: raised {type(ex).__name__}: {ex} instead of answering False")
                        continue
                    ctx.check(r in (False, np.False_), f"{f.name} accepted a matrix that is {what}")
                    ctx.nontrivial(f.name, what, B)
                    ctx.count("predicate:" + f.name)
            ctx.check(valid(V, hbar=hb) in (True, np.True_), "is_valid_cov rejected a physical state")
            ctx.check(pure(Vp, hbar=hb) in (True, np.True_), "is_pure_cov rejected a pure state")
            ctx.check(pure(V, hbar=hb) in (False, np.False_), "is_pure_cov accepted a mixed state")
            ctx.check(classical(Vc, hbar=hb) in (True, np.True_), "is_classical_cov rejected a classical state")
            ctx.check(classical(Vn, hbar=hb) in (False, np.False_), "is_classical_cov accepted a squeezed state")
        with ctx.case(dict(fn="entropies", n=n, hbar=hb)):
            k = int(rng.integers(1, n))
            ma = sorted(int(q) for q in rng.choice(n, size=k, replace=False))
            control(ctx, "vonneumann_entropy", vne, V, hbar=hb)
            control(ctx, "entanglement_entropy", ee, Vp, modes_A=ma, hbar=hb)
            control(ctx, "log_negativity", ln, V, split=k, hbar=hb)
            for what, B in damaged:
                rejects(ctx, f"vonneumann_entropy of a matrix that is {what}", VE, vne, B, hbar=hb)
                rejects(ctx, f"entanglement_entropy of a matrix that is {what}", VE, ee, B, modes_A=ma, hbar=hb)
                rejects(ctx, f"log_negativity of a matrix that is {what}", VE, ln, B, split=k, hbar=hb)
            rejects(ctx, "entanglement_entropy of a mixed state", VE, ee, V, modes_A=ma, hbar=hb)
            for name, f, M in (("entanglement_entropy", ee, Vp), ("log_negativity", ln, V)):
                pos = int(rng.integers(k))
                b = list(ma)
                b[pos] = bad_mode(rng, n)
                form = [b, tuple(b), np.array(b)][rng.integers(3)]
                rejects(ctx, f"{name} with modes_A out of range", VE, f, M, modes_A=form, hbar=hb)
                b[pos] = float(ma[pos])
                rejects(ctx, f"{name} with fractional modes_A", VE, f, M, modes_A=b, hbar=hb)
                rejects(ctx, f"{name} with modes_A of the wrong type", (TypeError,), f, M, modes_A=[{0}, "0", 0.0, {0: 1}][rng.integers(4)], hbar=hb)
                rejects(ctx, f"{name} with split out of range", VE, f, M, split=int(rng.choice([-1, -n, n, n + 1])), hbar=hb)
                rejects(ctx, f"{name} with fractional split", VE, f, M, split=[1.0, 0.5, "1"][rng.integers(3)], hbar=hb)
                rejects(ctx, f"{name} without bipartition", (TypeError,), f, M, hbar=hb)
        with ctx.case(dict(fn="fidelity", n=n)):
            control(ctx, "fidelity", fid, mu, V, mup, Vp, hbar=hb)
            m2, V2 = gen.state(rng, n + int(rng.choice([-1, 1])), hbar=hb)
            args = [mu, V, mup, Vp]
            i = int(rng.integers(4))
            args[i] = m2 if i % 2 == 0 else V2
            rejects(ctx, "fidelity of incompatible shapes", VE, fid, *args, hbar=hb)
            args = [mu, V, mup, Vp]
            i = int(rng.choice([1, 3]))
            args[i] = args[i][: 2 * n - 1] if rng.random() < 0.5 else args[i][:, : 2 * n - 1]
            rejects(ctx, "fidelity of incompatible shapes", VE, fid, *args, hbar=hb)
            # shapes that numpy would broadcast
            args = [mu, V, mup, Vp]
            i = int(rng.integers(4))
            args[i] = args[i][:1] if i % 2 == 0 else [args[i][:1], args[i][:, :1], args[i][:1, :1]][int(rng.integers(3))]
            rejects(ctx, "fidelity of incompatible shapes", VE, fid, *args, hbar=hb)


@section(must=("pure_state_amplitude", "state_vector", "fock_tensor", "update_probabilities_with_loss", "update_probabilities_with_noise",
               "find_classical_subsystem", "n_body_marginals"))
def fock(ctx):
    """Fock-basis functions: purity, symplecticity, lengths, transmissions."""
    rng = ctx.rng
    Q = lambda nm: ctx.api("thewalrus.quantum." + nm)
    psa, sv, ft = Q("pure_state_amplitude"), Q("state_vector"), Q("fock_tensor")
    loss, noise, lossmat = Q("update_probabilities_with_loss"), Q("update_probabilities_with_noise"), Q("loss_mat")
    pnd = Q("pure_state_distribution")
    nb = Q("n_body_marginals")
    fcs = Q("find_classical_subsystem")
    tvd = ctx.api("thewalrus.quantum.tvd_cutoff_bounds", optional=True)
    tvd_cov = tvd
    for _ in range(ctx.n(60, 600)):
        n = int(rng.integers(1, 4))
        hb = gen.hbar_of(rng)
        mup, Vp = gen.state(rng, n, hbar=hb, kind="pure")
        S = gen.symplectic(rng, n)
        # mixed in one mode only
        nu = np.ones(n)
        nu[rng.integers(n)] += 10.0 ** rng.uniform(-1.5, 0.5)
        Vm = S @ np.diag(np.tile(nu, 2)) @ S.T * hb / 2
        Vm = (Vm + Vm.T) / 2
        pat = rng.integers(0, 3, size=n).tolist()
        with ctx.case(dict(fn="purity", n=n, hbar=hb)):
            control(ctx, "pure_state_amplitude", psa, mup, Vp, pat, hbar=hb)
            rejects(ctx, "pure_state_amplitude of a mixed state", VE, psa, mup, Vm, pat, hbar=hb, include_prefactor=bool(rng.random() < 0.5))
            control(ctx, "state_vector", sv, mup, Vp, cutoff=3, hbar=hb)
            ps = None if n == 1 or rng.random() < 0.5 else {int(rng.integers(n)): int(rng.integers(2))}
            rejects(ctx, "state_vector of a mixed state", VE, sv, mup, Vm, post_select=ps, normalize=bool(rng.random() < 0.5), cutoff=3, hbar=hb)
            Z = np.zeros(2 * n)
            rejects(ctx, "pure_state_distribution of a mixed state", VE, pnd, Vm, cutoff=6, hbar=hb)
            wrong = hb * float(rng.choice([0.5, 2, 1.3]))
            rejects(ctx, "state_vector at the wrong hbar", VE, sv, mup, Vp, cutoff=3, hbar=wrong)
            rejects(ctx, "pure_state_amplitude at the wrong hbar", VE, psa, mup, Vp, pat, hbar=wrong)
        with ctx.case(dict(fn="fock_tensor", n=n)):
            al = rng.normal(size=n) * 0.2 + 0j
            control(ctx, "fock_tensor", ft, S, al, 3)
            bad = S * rng.choice([0.5, 0.97, 1.04, 2])
            rejects(ctx, "fock_tensor of a non-symplectic matrix", VE, ft, bad, al, 3, sf_order=bool(rng.random() < 0.5))
            i, j = rng.integers(2 * n, size=2)
            b2 = S.copy()
            b2[i, j] += 0.3
            Om = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
            if np.max(np.abs(b2.T @ Om @ b2 - Om)) > 1e-2:
                rejects(ctx, "fock_tensor of a non-symplectic matrix", VE, ft, b2, al, 3)
            rejects(ctx, "fock_tensor with a wrong number of displacements", VE, ft, S, wronglen(rng, al), 3)
        with ctx.case(dict(fn="loss", n=n)):
            P = rng.random(size=(3,) * n)
            P /= P.sum() * 1.1
            eta = rng.uniform(0.1, 0.9, size=n)
            control(ctx, "update_probabilities_with_loss", loss, eta, P)
            k = int(rng.integers(n))
            for v in (-(10.0 ** rng.uniform(-9, 1)), 1 + 10.0 ** rng.uniform(-9, 1), np.nan):
                e = eta.copy()
                e[k] = v
                rejects(ctx, "update_probabilities_with_loss at an impossible transmission", VE, loss, e, P)
                rejects(ctx, "loss_mat at an impossible transmission", VE, lossmat, v, int(rng.integers(1, 6)))
            rejects(ctx, "update_probabilities_with_loss with a wrong number of transmissions", VE, loss, wronglen(rng, eta), P)
            nz = [np.array([0.9, 0.1])] * n
            control(ctx, "update_probabilities_with_noise", noise, nz, P)
            m = int(rng.choice([q for q in (n - 1, n + 1, n + 2) if q >= 0]))
            rejects(ctx, "update_probabilities_with_noise with a wrong number of noises", VE, noise, [np.array([0.9, 0.1])] * m, P)
        with ctx.case(dict(fn="n_body", n=n)):
            control(ctx, "n_body_marginals", nb, mup, Vp, 3, 1, hbar=hb)
            rejects(ctx, "n_body_marginals of too high an order", VE, nb, mup, Vp, 3, n + int(rng.integers(1, 3)), hbar=hb)
            rejects(ctx, "n_body_marginals of incompatible dimensions", VE, nb, wronglen(rng, mup), Vp, 3, 1, hbar=hb)
            rejects(ctx, "n_body_marginals of incompatible dimensions", VE, nb, mup, Vp[:, : 2 * n - 1], 3, 1, hbar=hb)
            rejects(ctx, "n_body_marginals of odd dimensions", VE, nb, mup[: 2 * n - 1], Vp[: 2 * n - 1, : 2 * n - 1], 3, 1, hbar=hb)
        with ctx.case(dict(fn="valid", n=n)):
            nu = 1 + rng.uniform(0, 1, size=n)
            nu[rng.integers(n)] = 0.6
            Vu = S @ np.diag(np.tile(nu, 2)) @ S.T * hb / 2
            if tvd is not None:
                control(ctx, "tvd_cutoff_bounds", tvd, mup, Vm, 4, hbar=hb)
                rejects(ctx, "tvd_cutoff_bounds of an unphysical matrix", VE, tvd, mup, (Vu + Vu.T) / 2, 4, hbar=hb)
                rejects(ctx, "tvd_cutoff_bounds of an asymmetric matrix", VE, tvd, mup, asym(rng, Vm), 4, hbar=hb)
            fcs(Vp, hbar=hb)


@section(must=("adj_scaling", "adj_scaling_torontonian", "rescale_adjacency_matrix_thermal", "random_banded_interferometer", "loop_hafnian_batch"))
def scaling(ctx):
    """Scalings, thermal kernels, random matrices and batch kernels."""
    rng = ctx.rng
    sc = ctx.api("thewalrus.quantum.adjacency_matrices.adj_scaling")
    sct = ctx.api("thewalrus.quantum.adjacency_matrices.adj_scaling_torontonian")
    a2q = ctx.api("thewalrus.quantum.adjacency_matrices.adj_to_qmat")
    rt = ctx.api("thewalrus.csamples.rescale_adjacency_matrix_thermal")
    ra = ctx.api("thewalrus.csamples.rescale_adjacency_matrix")
    bd = ctx.api("thewalrus.random.random_banded_interferometer")
    lb = ctx.api("thewalrus.loop_hafnian_batch.loop_hafnian_batch")
    lg = ctx.api("thewalrus.loop_hafnian_batch_gamma.loop_hafnian_batch_gamma")
    ref = ctx.api("thewalrus.reference.hafnian")
    for _ in range(ctx.n(60, 600)):
        n = int(rng.integers(2, 6))
        A = gen.sym(rng, n, "real")
        with ctx.case(dict(fn="scaling", n=n)):
            control(ctx, "adj_scaling", sc, A, 1.0)
            rejects(ctx, "adj_scaling of a vanishing matrix", VE, sc, A * 0, 1.0)
            rejects(ctx, "adj_scaling of a vanishing matrix", VE, sc, A / np.max(np.abs(A)) * 10.0 ** rng.uniform(-30, -16), 1.0)
            rejects(ctx, "adj_scaling to a negative mean", VE, sc, A, -(10.0 ** rng.uniform(-3, 1)))
            control(ctx, "adj_scaling_torontonian", sct, A, 0.3)
            for c in (-(10.0 ** rng.uniform(-6, 1)), n + 10.0 ** rng.uniform(-6, 1)):
                rejects(ctx, "adj_scaling_torontonian to an impossible mean", VE, sct, A, c)
            rejects(ctx, "adj_to_qmat of a non-square matrix", VE, a2q, nonsquare(rng, n), 1.0)
        with ctx.case(dict(fn="thermal", n=n)):
            K = A @ A.T
            AE = (AssertionError, ValueError)
            control(ctx, "rescale_adjacency_matrix_thermal", rt, K, 1.0)
            Q = gen.orth(rng, n)
            e = rng.uniform(0.2, 2, size=n)
            e[rng.integers(n)] = -(10.0 ** rng.uniform(-2, 0.5))
            B = (Q * e) @ Q.T
            rejects(ctx, "rescale_adjacency_matrix_thermal of an indefinite matrix", AE, rt, (B + B.T) / 2, 1.0)
            rejects(ctx, "rescale_adjacency_matrix_thermal of an asymmetric matrix", AE, rt, asym(rng, K), 1.0)
            rejects(ctx, "rescale_adjacency_matrix_thermal of NaN", ANY, rt, nan_like(rng, K), 1.0)
            control(ctx, "rescale_adjacency_matrix", ra, K, 1.0, 1.0, check_positivity=True, check_symmetry=True)
            rejects(ctx, "rescale_adjacency_matrix of an indefinite matrix", AE, ra, (B + B.T) / 2, 1.0, 1.0, check_positivity=True, check_symmetry=True)
            rejects(ctx, "rescale_adjacency_matrix of an asymmetric matrix", AE, ra, asym(rng, K), 1.0, 1.0, check_positivity=False, check_symmetry=True)
        with ctx.case(dict(fn="banded", n=n)):
            control(ctx, "random_banded_interferometer", bd, n, n - 1)
            rejects(ctx, "random_banded_interferometer of too large a bandwidth", VE, bd, n, n + int(rng.integers(0, 4)))
        with ctx.case(dict(fn="batch", n=n)):
            D = rng.normal(size=n)
            G = rng.normal(size=(2, n))
            r = rng.integers(0, 2, size=n - 1).tolist()
            AE = (AssertionError, ValueError)
            control(ctx, "loop_hafnian_batch", lb, A, D, r, 3)
            rejects(ctx, "loop_hafnian_batch of a non-square matrix", AE, lb, A[:, : n - 1], D, r, 3)
            rejects(ctx, "loop_hafnian_batch with a wrong number of loops", AE, lb, A, wronglen(rng, D), r, 3)
            rejects(ctx, "loop_hafnian_batch with a wrong number of repetitions", AE, lb, A, D, wronglen(rng, np.array(r, int)).astype(int).tolist(), 3)
            control(ctx, "loop_hafnian_batch_gamma", lg, A, G, r, 3)
            rejects(ctx, "loop_hafnian_batch_gamma of a non-square matrix", AE, lg, A[:, : n - 1], G, r, 3)
            rejects(ctx, "loop_hafnian_batch_gamma with a wrong number of loops", AE, lg, A, G[:, : n - 1], r, 3)
            rejects(ctx, "loop_hafnian_batch_gamma with a wrong number of repetitions", AE, lg, A, G, wronglen(rng, np.array(r, int)).astype(int).tolist(), 3)
            rejects(ctx, "reference hafnian of a non-square matrix", VE, ref, nonsquare(rng, n), loop=bool(rng.random() < 0.5))


@section(must=("hafnian_sample_state", "torontonian_sample_state", "hafnian_sample_classical_state"), weight=2)
def samplers(ctx):
    """Samplers: covariance matrices, means, limits; sequential and parallel."""
    rng = ctx.rng
    A = lambda nm: ctx.api("thewalrus.samples." + nm)
    hs, ts = A("hafnian_sample_state"), A("torontonian_sample_state")
    hc, tc = A("hafnian_sample_classical_state"), A("torontonian_sample_classical_state")
    grouped = ctx.api("thewalrus.grouped_click_probabilities.grouped_click_probabilities_squeezed")
    for it in range(ctx.n(20, 200)):
        n = int(rng.integers(1, 4))
        hb = gen.hbar_of(rng)
        mu, V = gen.state(rng, n, hbar=hb, kind="mixed", rmax=0.4, nmax=0.3, dmax=0.3)
        kc = gen.state(rng, n, hbar=hb, kind="classical")
        ns = int(rng.integers(1, 4))
        S = gen.symplectic(rng, n, 0.4)
        nu = 1 + rng.uniform(0, 0.5, size=n)
        nu[rng.integers(n)] = rng.choice([0.3, 0.6, 0.9])
        Vu = S @ np.diag(np.tile(nu, 2)) @ S.T * hb / 2
        Vu = (Vu + Vu.T) / 2
        for name, f, mk in (("hafnian_sample_state", hs, "mean"), ("torontonian_sample_state", ts, "mu")):
            kw = dict(hbar=hb)
            if rng.random() < 0.5:
                kw["parallel"] = True
            with ctx.case(dict(fn=name, n=n, **kw)):
                control(ctx, name, f, V, ns, **{mk: mu}, **kw)
                rejects(ctx, f"{name} of a list", (TypeError,), f, as_list(V), ns, hbar=hb)
                rejects(ctx, f"{name} of a non-square matrix", VE, f, nonsquare(rng, 2 * n), ns, **kw)
                rejects(ctx, f"{name} of NaN", VE, f, nan_like(rng, V), ns, **kw)
                rejects(ctx, f"{name} of odd size", VE, f, np.eye(2 * n + 1) * hb, ns, **kw)
                rejects(ctx, f"{name} of an asymmetric matrix", ANY, f, asym(rng, V), ns, **kw)
                rejects(ctx, f"{name} of an unphysical matrix", ANY, f, Vu, ns, **kw)
                rejects(ctx, f"{name} with a short vector of means", ANY, f, V, ns, **{mk: mu[: 2 * n - 1]}, **kw)
                kw.pop("parallel", None)
                rejects(ctx, f"{name} with negative max_photons", VE, f, V, ns, max_photons=-int(rng.integers(1, 4)), **kw)
                rejects(ctx, f"{name} with cutoff 0", VE, f, V, ns, cutoff=0, **kw)
        e = 1 + rng.uniform(0, 2, size=2 * n)
        e[rng.integers(2 * n)] = rng.choice([0.1, 0.5, 0.9])
        Oc = gen.passive_symplectic(gen.haar(rng, n))
        Vn = Oc @ np.diag(e) @ Oc.T * hb / 2
        Vn = (Vn + Vn.T) / 2
        for name, f in (("hafnian_sample_classical_state", hc), ("torontonian_sample_classical_state", tc)):
            with ctx.case(dict(fn=name, n=n)):
                m, C = kc
                control(ctx, name, f, C, ns, mean=m, hbar=hb)
                for what, B in (("non-classical", Vn), ("asymmetric", asym(rng, C)), ("NaN", nan_like(rng, C)), ("of odd size", np.eye(2 * n + 1) * hb),
                                ("non-square", nonsquare(rng, 2 * n)), ("unphysical", Vu)):
                    rejects(ctx, f"{name} of a matrix that is {what}", VE, f, B, ns, hbar=hb)
                rejects(ctx, f"{name} with a wrong length of the mean", VE, f, C, ns, mean=wronglen(rng, m), hbar=hb)
        with ctx.case(dict(fn="grouped", n=n)):
            T = gen.haar(rng, n) * 0.9
            g = int(rng.integers(2, 6))
            k = int(rng.integers(1, g))
            r = rng.uniform(0.1, 0.5, size=n)
            control(ctx, "grouped_click_probabilities_squeezed", grouped, r, T, 4 * g, g)
            rejects(ctx, "grouped_click_probabilities_squeezed of more groups than samples", VE, grouped, r, T, k, g)
