"""Validates the oracles against each other (operator simulator vs Gaussian formulas, definitions
vs brute force); run by setup_cmd.  Does not touch the library under test."""
import itertools
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import focksim, gen, oracles as O  # noqa: E402


def main():
    rng = np.random.default_rng(5)
    # matching recursion vs explicit enumeration
    for n in range(0, 7):
        A = gen.sym(rng, n, "complex")
        tot = totl = 0
        for p in O.set_partitions(range(n)):
            if all(len(b) == 2 for b in p):
                tot += np.prod([A[b[0], b[1]] for b in p])
            if all(len(b) in (1, 2) for b in p):
                totl += np.prod([A[b[0], b[-1]] for b in p])
        assert abs(tot - O.haf(A)) < 1e-10 and abs(totl - O.haf(A, True)) < 1e-10
        P = rng.normal(size=(n, n))
        br = sum(np.prod([P[i, s[i]] for i in range(n)]) for s in itertools.permutations(range(n)))
        assert abs(br - O.perm(P)) < 1e-10
    A = gen.sym(rng, 3, "complex")
    D = rng.normal(size=3)
    T = O.lhaf_table(A, D, (4, 3, 3))
    for ix in np.ndindex(4, 3, 3):
        assert abs(T[ix] - O.lhaf_counts(A, D, ix)) < 1e-9
        rep = [i for i in range(3) for _ in range(ix[i])]
        B = A[np.ix_(rep, rep)]
        assert abs(T[ix] - O.lhaf_counts(B, D[rep], [1] * len(rep))) < 1e-9
    assert np.allclose(T / O.fact_norm((4, 3, 3)), O.lhaf_table_renorm(A, D, (4, 3, 3)))
    # circuit: amplitudes vs gaussian density matrix formula
    for hbar in (2.0, 0.7):
        for n, N in ((1, 30), (2, 22)):
            s = focksim.random_circuit(rng, n, N)
            assert abs(s.norm() - 1) < 1e-6, s.norm()
            mu, V = s.gaussian(hbar)
            c = (5,) * n
            R = O.dm_table(mu, V, hbar, c)
            psi = s.psi[tuple(slice(0, 5) for _ in range(n))]
            want = np.multiply.outer(psi, psi.conj())
            assert np.abs(R - want).max() < 1e-6, np.abs(R - want).max()
            # moments
            ks = np.arange(N)
            p = np.abs(s.psi) ** 2
            for powers in itertools.product(range(3), repeat=n):
                w = p
                for ax, q in enumerate(powers):
                    w = w * (ks**q).reshape([-1 if a == ax else 1 for a in range(n)])
                assert abs(w.sum() - O.moments_from_genfun(mu, V, hbar, powers)) < 1e-4
            for pat in itertools.product((0, 1), repeat=n):
                sel = p[tuple(slice(1, None) if b else slice(0, 1) for b in pat)].sum()
                assert abs(sel - O.click_prob(mu, V, hbar, pat)) < 1e-6
    # two-mode squeezing operator agrees with exponential relations
    t = focksim.op_tms(0.4, 0.3, 6)
    assert abs(t[0, 0, 0, 0] - 1 / np.cosh(0.4)) < 1e-9
    assert abs(t[1, 1, 0, 0] - np.exp(0.3j) * np.tanh(0.4) / np.cosh(0.4)) < 1e-9
    # mixed states: trace, positivity
    mu, V = gen.state(rng, 2, 1.3, "mixed", True)
    R = O.dm_table(mu, V, 1.3, (9, 9))
    M = R.reshape(81, 81)
    assert np.allclose(M, M.conj().T) and np.linalg.eigvalsh(M).min() > -1e-10
    print("oracle self-test ok")


if __name__ == "__main__":
    main()
