"""Operator-level simulator: circuits of Gaussian gates on truncated Fock space, and the same
circuit tracked as a Bogoliubov transformation a -> M a + N a^dag + d.  No formula is shared
with the library under test."""
import numpy as np
from scipy.linalg import expm


def lower(N):
    return np.diag(np.sqrt(np.arange(1, N)), 1).astype(complex)


def op_squeeze(r, phi, N, pad=40):
    """exp(1/2 (zeta^* a^2 - zeta a^dag^2)), zeta = r e^{i phi}, N x N corner."""
    a = lower(N + pad)
    z = r * np.exp(1j * phi)
    K = 0.5 * (np.conj(z) * a @ a - z * a.conj().T @ a.conj().T)
    return expm(K)[:N, :N]


def op_disp(al, N, pad=40):
    a = lower(N + pad)
    return expm(al * a.conj().T - np.conj(al) * a)[:N, :N]


def op_rot(phi, N):
    return np.diag(np.exp(1j * phi * np.arange(N)))


def op_bs(theta, phi, N):
    """exp(theta (e^{i phi} a b^dag - e^{-i phi} a^dag b)) as [m1,m2,n1,n2], exact block by block."""
    out = np.zeros((N, N, N, N), dtype=complex)
    for tot in range(2 * N - 1):
        # full block of total photon number tot: |k, tot-k>
        d = tot + 1
        K = np.zeros((d, d), dtype=complex)
        for k in range(1, d):  # a b^dag |k, tot-k> = sqrt(k (tot-k+1)) |k-1, tot-k+1>
            v = np.sqrt(k * (tot - k + 1))
            K[k - 1, k] += theta * np.exp(1j * phi) * v
            K[k, k - 1] -= theta * np.exp(-1j * phi) * v
        U = expm(K)
        for m in range(max(0, tot - N + 1), min(N, d)):
            for k in range(max(0, tot - N + 1), min(N, d)):
                out[m, tot - m, k, tot - k] = U[m, k]
    return out


def op_tms(r, phi, N, pad=30):
    """exp(r (e^{i phi} a^dag b^dag - e^{-i phi} a b)) as [m1,m2,n1,n2]; conserves n1-n2."""
    out = np.zeros((N, N, N, N), dtype=complex)
    for diff in range(-(N - 1), N):
        L = N + pad
        K = np.zeros((L, L), dtype=complex)
        for k in range(L - 1):  # |k + max(diff,0), k + max(-diff,0)>
            n1, n2 = k + max(diff, 0), k + max(-diff, 0)
            v = np.sqrt((n1 + 1) * (n2 + 1))
            K[k + 1, k] += r * np.exp(1j * phi) * v
            K[k, k + 1] -= r * np.exp(-1j * phi) * v
        U = expm(K)
        for i in range(L):
            m1, m2 = i + max(diff, 0), i + max(-diff, 0)
            if m1 >= N or m2 >= N:
                break
            for j in range(L):
                n1, n2 = j + max(diff, 0), j + max(-diff, 0)
                if n1 >= N or n2 >= N:
                    break
                out[m1, m2, n1, n2] = U[i, j]
    return out


class Sim:
    """n modes, cutoff N. psi[n1..nn]; Bogoliubov (M, Nn, d) of the whole circuit."""

    def __init__(self, n, N):
        self.n, self.N = n, N
        self.psi = np.zeros((N,) * n, dtype=complex)
        self.psi[(0,) * n] = 1
        self.M = np.eye(n, dtype=complex)
        self.K = np.zeros((n, n), dtype=complex)
        self.d = np.zeros(n, dtype=complex)

    def _bog(self, M2, K2, d2):
        M1, K1, d1 = self.M, self.K, self.d
        self.M = M2 @ M1 + K2 @ K1.conj()
        self.K = M2 @ K1 + K2 @ M1.conj()
        self.d = M2 @ d1 + K2 @ d1.conj() + d2

    def _one(self, O, k):
        self.psi = np.moveaxis(np.tensordot(O, self.psi, axes=(1, k)), 0, k)

    def _two(self, O, j, k):
        self.psi = np.moveaxis(np.tensordot(O, self.psi, axes=((2, 3), (j, k))), (0, 1), (j, k))

    def squeeze(self, r, phi, k):
        self._one(op_squeeze(r, phi, self.N), k)
        M, K = np.eye(self.n, dtype=complex), np.zeros((self.n, self.n), dtype=complex)
        M[k, k], K[k, k] = np.cosh(r), -np.exp(1j * phi) * np.sinh(r)
        self._bog(M, K, np.zeros(self.n))

    def disp(self, al, k):
        self._one(op_disp(al, self.N), k)
        d = np.zeros(self.n, dtype=complex)
        d[k] = al
        self._bog(np.eye(self.n), np.zeros((self.n, self.n)), d)

    def rot(self, phi, k):
        self._one(op_rot(phi, self.N), k)
        M = np.eye(self.n, dtype=complex)
        M[k, k] = np.exp(1j * phi)
        self._bog(M, np.zeros((self.n, self.n)), np.zeros(self.n))

    def bs(self, theta, phi, j, k):
        self._two(op_bs(theta, phi, self.N), j, k)
        # U^dag a U = a cos - e^{-i phi} b sin ; U^dag b U = b cos + e^{i phi} a sin
        M = np.eye(self.n, dtype=complex)
        M[j, j] = M[k, k] = np.cos(theta)
        M[j, k] = -np.exp(-1j * phi) * np.sin(theta)
        M[k, j] = np.exp(1j * phi) * np.sin(theta)
        self._bog(M, np.zeros((self.n, self.n)), np.zeros(self.n))

    def symplectic(self):
        A, B = self.M + self.K, self.M - self.K
        return np.block([[A.real, -B.imag], [A.imag, B.real]])

    def gaussian(self, hbar):
        S = self.symplectic()
        return np.concatenate([self.d.real, self.d.imag]) * np.sqrt(2 * hbar), S @ S.T * hbar / 2

    def norm(self):
        return float(np.sum(np.abs(self.psi) ** 2))


def random_circuit(rng, n, N, rmax=0.35, dmax=0.35, disp=True, depth=2):
    s = Sim(n, N)
    for _ in range(depth):
        for k in range(n):
            s.squeeze(rng.uniform(0, rmax), rng.uniform(0, 2 * np.pi), k)
            s.rot(rng.uniform(0, 2 * np.pi), k)
        for k in range(n - 1):
            s.bs(rng.uniform(0, np.pi), rng.uniform(0, 2 * np.pi), k, k + 1)
        if disp:
            for k in range(n):
                s.disp(rng.uniform(0, dmax) * np.exp(1j * rng.uniform(0, 2 * np.pi)), k)
        rmax, dmax = rmax / 2, dmax / 2
    return s
