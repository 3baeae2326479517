From 466990bccc3539d024827bd19f7dabf0ef061a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 01/63] fix: do not truncate Hermite tensors of integer inputs
 to integers

---
 thewalrus/_hermite_multidimensional.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2454140..821068d 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -97,6 +97,8 @@ def hermite_multidimensional(
     yt = np.real_if_close(y)
 
     dtype = np.result_type(Rt, yt, C)
+    if not np.issubdtype(dtype, np.inexact):
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
@@ -154,6 +156,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     Rt = np.real_if_close(R)
 
     dtype = np.result_type(Rt, C)
+    if not np.issubdtype(dtype, np.inexact):
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From 42de7e541088bae1bd95a76ce64c79a158294baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 02/63] fix: interferometer(make_tensor=False) returns a flat
 array as documented

---
 thewalrus/_hermite_multidimensional.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 821068d..2571694 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -143,7 +143,7 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     """
 
     input_validation(R, atol=atol, rtol=rtol)
-    n, num_indices = R.shape
+    _, num_indices = R.shape
 
     # we want to catch np.ndarray(int) of ndim=0 which cannot be cast to tuple
     if isinstance(cutoff, np.ndarray) and (cutoff.ndim == 0 or len(cutoff) == 1):
@@ -166,9 +166,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     else:
         values = np.array(_interferometer(Rt, array))
 
-    if make_tensor:
-        shape = cutoff * np.ones([n], dtype=int)
-        values = np.reshape(values, shape)
+    if not make_tensor:
+        values = values.flatten()
 
     return values
 
-- 
2.43.0


From b218323ee00ac3c27a25226dd75e181177b2ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 03/63] fix: Hermite recurrences read past the square-root
 table for cutoffs above 1000

---
 thewalrus/_hermite_multidimensional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2571694..bec5fb4 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -247,9 +247,6 @@ def remove(
             yield p, dec(pattern, p)
 
 
-SQRT = np.sqrt(np.arange(1000))  # saving the time to recompute square roots
-
-
 @jit(nopython=True)
 def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     r"""Numba-compiled function to fill an array with the Hermite polynomials. It expects an array
@@ -263,6 +260,7 @@ def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     Returns:
         array[complex]: the multidimensional Hermite polynomials
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -321,6 +319,7 @@ def _interferometer_renorm(R, G):  # pragma: no cover
     dim, _ = R.shape
     num_modes = dim / 2
 
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -436,6 +435,7 @@ def _grad_hermite_multidimensional_renorm(R, y, G, dG_dR, dG_dy):  # pragma: no
     Returns:
         dG_dR[complex], dG_dy[complex]: the gradients of the renormalized multidimensional Hermite polynomials with respect to R and y
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
-- 
2.43.0


From d1a312eedd6f8ec54b8392754c66d0a99c7395e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 04/63] fix: pass rtol and atol on to the inner symmetry check
 of the Hermite tensors

---
 thewalrus/_hermite_multidimensional.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index bec5fb4..a21ef87 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -74,7 +74,15 @@ def hermite_multidimensional(
         if m == n:
             ym = R @ y
             return hermite_multidimensional(
-                R, cutoff, y=ym, C=C, renorm=renorm, make_tensor=make_tensor, modified=True
+                R,
+                cutoff,
+                y=ym,
+                C=C,
+                renorm=renorm,
+                make_tensor=make_tensor,
+                modified=True,
+                rtol=rtol,
+                atol=atol,
             )
 
     if y is None:
@@ -215,7 +223,14 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
     # The minus signs are intentional and are due to the fact that
     # Dodonov et al. in PRA 50, 813 (1994) use (p,q) ordering instead of (q,p) ordering
     return hermite_multidimensional(
-        -A, cutoff, y=mu, renorm=renorm, make_tensor=make_tensor, modified=True
+        -A,
+        cutoff,
+        y=mu,
+        renorm=renorm,
+        make_tensor=make_tensor,
+        modified=True,
+        rtol=rtol,
+        atol=atol,
     )
 
 
-- 
2.43.0


From 252e2b5940df6ce0b5b8fb0e2923a0487adc5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 05/63] fix: sparse and banded hafnians of the empty matrix are
 1

---
 thewalrus/_hafnian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ec97e1b..e9c3eb1 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -837,6 +837,9 @@ def hafnian_sparse(A, D=None, loop=False):
     else:
         D = frozenset(D)
 
+    if not D:
+        return 1.0
+
     if not loop:
         A = A - np.diag(np.diag(A))
 
@@ -949,6 +952,8 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
     """
     input_validation(A, atol=atol, rtol=rtol)
     (n, _) = A.shape
+    if n == 0:
+        return 1.0
     w = bandwidth(A)
     if not loop:
         A = A - np.diag(np.diag(A))
-- 
2.43.0


From 725b0983e2a8ec8c184130b29e13a667bf3c9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 06/63] fix: permanent_repeated accepts arrays and tuples of
 repetitions

---
 thewalrus/_permanent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..103dbf4 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -192,7 +192,7 @@ def permanent_repeated(A, rpt):
     O = np.zeros([n, n])
     B = np.vstack([np.hstack([O, A]), np.hstack([A.T, O])])
 
-    return hafnian_repeated(B, rpt * 2, loop=False)
+    return hafnian_repeated(B, list(rpt) * 2, loop=False)
 
 
 @jit(nopython=True, parallel=True)
-- 
2.43.0


From 246177bee192249e901cfd12701f02ad22c568d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 07/63] fix: Fock-input detection probabilities of the vacuum
 input

---
 thewalrus/_permanent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 103dbf4..41f5330 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -241,7 +241,7 @@ def ubrs(A):  # pragma: no cover
     steps = 2**m
     ones = np.ones(m, dtype=np.int8)
     total = 0
-    for j in prange(1, steps):
+    for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
         Az = A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
@@ -266,8 +266,8 @@ def fock_prob(n, m, U):
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
-    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
+    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])), dtype=int)
 
     Umn = U[np.ix_(out_modes, in_modes)]
 
@@ -305,7 +305,7 @@ def fock_threshold_prob(n, d, T):
 
     fac_prod = np.prod(factorial(n), dtype=np.float64)
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
     C = np.where(d > 0)[0]
 
     A = T[np.ix_(C, in_modes)]
-- 
2.43.0


From 62dc5efe036540f0061c5fadb3204080e91244da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 08/63] fix: threshold_detection_prob of an undisplaced state
 returns a real probability

---
 thewalrus/_torontonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_torontonian.py b/thewalrus/_torontonian.py
index 1679a51..5261b1b 100644
--- a/thewalrus/_torontonian.py
+++ b/thewalrus/_torontonian.py
@@ -103,7 +103,7 @@ def threshold_detection_prob(
         O = np.eye(2 * n) - np.linalg.inv(Q)
         rpt2 = np.concatenate((det_pattern, det_pattern))
         Os = reduction(O, rpt2)
-        return tor(Os) / np.sqrt(np.linalg.det(Q))
+        return (tor(Os) / np.sqrt(np.linalg.det(Q))).real
 
     x = mu[:n]
     p = mu[n:]
-- 
2.43.0


From f51264f43e12d871fd0f1ba30b6dde673ce66a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 09/63] fix: characteristic polynomial of 0x0 and 1x1 matrices
 wrote out of bounds

---
 thewalrus/charpoly.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..68332ee 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -212,9 +212,11 @@ def _charpoly(H, k):  # pragma: no cover
     """
     n = len(H)
     c = np.zeros_like(H)
-    c[mlo(1, 1)] = -alpha(H, 1)
-    c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
-    c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
+    if n >= 1:
+        c[mlo(1, 1)] = -alpha(H, 1)
+    if n >= 2:
+        c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
+        c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
 
     for i in range(3, k + 1):
         c[mlo(i, 1)] = c[mlo(i - 1, 1)] - alpha(H, i)
-- 
2.43.0


From d4abc62d19dcdf9c3e1f152fb026779c122d360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 10/63] fix: charpoly and powertrace no longer overwrite their
 input matrix

---
 thewalrus/charpoly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 68332ee..a988b5a 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -295,8 +295,9 @@ def charpoly(H):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     n = len(H)
-    reduce_matrix_to_hessenberg(H)
-    coeff = _charpoly(H, n)
+    hessenberg = H.copy()
+    reduce_matrix_to_hessenberg(hessenberg)
+    coeff = _charpoly(hessenberg, n)
     return coeff
 
 
-- 
2.43.0


From 2df2258144b0086eb993a83e6d1335441e1f54f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 11/63] fix: powertrace returns exactly the requested number of
 traces for small sizes and orders

---
 thewalrus/charpoly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index a988b5a..63bf8ad 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -319,10 +319,10 @@ def powertrace(H, n):  # pragma: no cover
     for _ in range(min_val - 2):
         A = A @ H
         pow_traces.append(np.trace(A))
-    if n <= m:
-        return np.array(pow_traces, dtype=H.dtype)
+    if n <= len(pow_traces):
+        return np.array(pow_traces, dtype=H.dtype)[:n]
     char_pol = charpoly(H)
-    for _ in range(min_val, n):
+    for _ in range(len(pow_traces), n):
         ssum = 0
         for k in range(m):
             ssum -= char_pol[k] * pow_traces[-k - 1]
-- 
2.43.0


From af5ec33af0b46a11152c4b8ea502307806a9cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 12/63] fix: batched loop hafnians with an odd fixed pattern
 and cutoff zero

---
 thewalrus/loop_hafnian_batch.py       | 10 +++++++---
 thewalrus/loop_hafnian_batch_gamma.py |  8 +++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/thewalrus/loop_hafnian_batch.py b/thewalrus/loop_hafnian_batch.py
index e46fbd2..647e9cc 100644
--- a/thewalrus/loop_hafnian_batch.py
+++ b/thewalrus/loop_hafnian_batch.py
@@ -299,6 +299,10 @@ def loop_hafnian_batch(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
-    even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    cutoff = max(N_cutoff, 1)  # the kernel pairs the odd mode with at least one batched photon
+    batch_max = (cutoff - 1) // 2
+    even_cutoff = 1 - (cutoff % 2)
+    H_batch = _calc_loop_hafnian_batch_odd(
+        Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn
+    )
+    return H_batch[: N_cutoff + 1]
diff --git a/thewalrus/loop_hafnian_batch_gamma.py b/thewalrus/loop_hafnian_batch_gamma.py
index 35f630a..f217db9 100644
--- a/thewalrus/loop_hafnian_batch_gamma.py
+++ b/thewalrus/loop_hafnian_batch_gamma.py
@@ -262,8 +262,10 @@ def loop_hafnian_batch_gamma(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[:, edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
-    even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_gamma_odd(
+    cutoff = max(N_cutoff, 1)  # the kernel pairs the odd mode with at least one batched photon
+    batch_max = (cutoff - 1) // 2
+    even_cutoff = 1 - (cutoff % 2)
+    H_batch = _calc_loop_hafnian_batch_gamma_odd(
         Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn
     )
+    return H_batch[:, : N_cutoff + 1]
-- 
2.43.0


From 54f12ddad185b97b81887fd7967710f0450edf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 13/63] fix: loss matrix lost probability when (1-eta)**n
 underflows

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d4ebcf8..a1a7c8b 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -455,7 +455,7 @@ def loss_mat(eta, cutoff):  # pragma: no cover
     lm[:, 0] = mu ** (np.arange(cutoff))
     for i in range(cutoff):
         for j in range(1, i + 1):
-            lm[i, j] = lm[i, j - 1] * (eta / mu) * (i - j + 1) / (j)
+            lm[i, j] = mu * lm[i - 1, j] + eta * lm[i - 1, j - 1]
     return lm
 
 
-- 
2.43.0


From efbfd543b4858665d91cba5820b6a59a66c7406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 14/63] fix: update_probabilities_with_loss for nine or more
 modes and mode-dependent cutoffs

---
 thewalrus/quantum/fock_tensors.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index a1a7c8b..cb008e2 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -477,15 +477,11 @@ def update_probabilities_with_loss(etas, probs):
             "The list of transmission etas and the tensor of probabilities probs have incompatible dimensions."
         )
 
-    alphabet = "abcdefghijklmnopqrstuvwxyz"
-    cutoff = probs_shape[0]
     for i, eta in enumerate(etas):
-        einstrings = "ij,{}i...->{}j...".format(alphabet[:i], alphabet[:i])
-
-        qein = np.zeros_like(probs)
-        qein = np.einsum(einstrings, loss_mat(eta, cutoff), probs)
-        probs = np.copy(qein)
-    return qein
+        # photons in mode i are redistributed by the rows of the loss matrix
+        lossy = np.tensordot(probs, loss_mat(eta, probs_shape[i]), axes=(i, 0))
+        probs = np.moveaxis(lossy, -1, i)
+    return np.array(probs)
 
 
 @jit(nopython=True)
-- 
2.43.0


From 289dcc3dfc67f6c3df14e39ff1fc4781b725b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 15/63] fix: update_probabilities_with_noise wrote out of
 bounds for mode-dependent cutoffs

---
 thewalrus/quantum/fock_tensors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index cb008e2..1fa975a 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -516,7 +516,6 @@ def update_probabilities_with_noise(probs_noise, probs):
     """
     probs_shape = probs.shape
     num_modes = len(probs_shape)
-    cutoff = probs_shape[0]
     if num_modes != len(probs_noise):
         raise ValueError(
             "The list of probability distributions probs_noise and the tensor of probabilities probs have incompatible dimensions."
@@ -528,7 +527,7 @@ def update_probabilities_with_noise(probs_noise, probs):
         perm[k] = 0
         one_d = probs_noise[k]
         probs_masked = np.transpose(probs, axes=perm)
-        probs_masked = _update_1d(probs_masked, one_d, cutoff)
+        probs_masked = _update_1d(probs_masked, one_d, probs_shape[k])
         probs = np.transpose(probs_masked, axes=perm)
     return probs
 
-- 
2.43.0


From aac78563f6057ee7abcd3c1ab7fbb31845a2160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 16/63] fix: n_body_marginals relied on sets of mode numbers
 being ordered (9 or more modes)

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 1fa975a..50038c2 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -656,7 +656,7 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
     marginal = [np.zeros(([M] * i) + ([cutoff] * i)) for i in range(1, n + 1)]
 
     for ind in product(range(M), repeat=n):
-        modes = list(set(ind))
+        modes = sorted(set(ind))
         acc = len(modes) - 1
         if list(ind) == sorted(ind):
             sub_mean, sub_cov = reduced_state(mean, cov, modes)  # this happens in phase space
-- 
2.43.0


From ec34c08ad799de7822a18daa7e1f042b339fcc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 17/63] fix: pure_state_distribution ignored hbar when checking
 purity

---
 thewalrus/quantum/photon_number_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index a6f3527..e3ad3da 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -37,7 +37,7 @@ def pure_state_distribution(cov, cutoff=50, hbar=2, padding_factor=2):
     Returns:
         (array): Total photon number distribution
     """
-    if is_pure_cov(cov):
+    if is_pure_cov(cov, hbar=hbar):
         A = Amat(cov, hbar=hbar)
         (n, _) = A.shape
         N = n // 2
-- 
2.43.0


From ce916632caf6ba1092d269d77023b6cbd4041d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 18/63] fix: reduced_gaussian ignored the order of a full list
 of modes and let mode N through

---
 thewalrus/quantum/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index e979cd2..523fcfa 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -38,10 +38,10 @@ def reduced_gaussian(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
-    if len(modes) == N:
+    if list(modes) == list(range(N)):
         # reduced state is full state
         return mu, cov
 
-- 
2.43.0


From fa40c1144b5cd070de0ae277cdb1bf534c25305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 19/63] fix: reduced_state rejects mode number N like any other
 mode that does not exist

---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 93d1414..8ee91bb 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -182,7 +182,7 @@ def reduced_state(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
-- 
2.43.0


From cdd6c711bb86ed37d8993ff7b15dff58636db0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 20/63] fix: document which element density_matrix_element
 returns

---
 thewalrus/quantum/fock_tensors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 50038c2..c417036 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -189,14 +189,15 @@ def state_vector(
 
 
 def density_matrix_element(mu, cov, i, j, include_prefactor=True, tol=1e-10, hbar=2):
-    r"""Returns the :math:`\langle i | \rho | j \rangle` element of the density matrix
-    of a Gaussian state defined by covariance matrix cov.
+    r"""Returns the :math:`\langle j | \rho | i \rangle` element of the density matrix
+    of a Gaussian state defined by covariance matrix cov, i.e., the element that
+    :func:`density_matrix` stores at row ``j`` and column ``i``.
 
     Args:
         mu (array): length-:math:`2N` quadrature displacement vector
         cov (array): length-:math:`2N` covariance matrix
-        i (list): list of density matrix rows
-        j (list): list of density matrix columns
+        i (list): photon numbers of the ket, i.e., the column of the density matrix
+        j (list): photon numbers of the bra, i.e., the row of the density matrix
         include_prefactor (bool): if ``True``, the prefactor is automatically calculated
             used to scale the result.
         tol (float): tolerance for determining if displacement is negligible
-- 
2.43.0


From 3eff9c9a78ba773681a9d7824cc23fa4af5c345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 21/63] fix: photon_number_moment returned zero when a mode had
 power zero

---
 thewalrus/quantum/means_and_variances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 8fc82f1..94de99e 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -347,6 +347,8 @@ def photon_number_moment(mu, cov, indices, hbar=2):
 
     """
     N = len(cov) // 2
+    # modes raised to the power zero do not contribute
+    indices = {key: power for key, power in indices.items() if power != 0}
     list_indices = [indices[key] for key in indices]
     modes = list(indices)
     # Find the expansion coefficients of all the different powers
-- 
2.43.0


From 3562781db188be2ab2507142c79235c884183695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 22/63] fix: takagi of complex diagonal matrices whose entries
 are not in descending order

---
 thewalrus/decompositions.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a0e6573..bf6a9c8 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -209,13 +209,11 @@ def takagi(A, svd_order=True, rtol=1e-16):
         d = np.diag(A)
         l = np.abs(d)
         idx = np.argsort(l)
-        d = d[idx]
-        l = l[idx]
-        U = np.diag(np.exp(1j * 0.5 * np.angle(d)))
-        U = U[::-1, :]
         if svd_order:
-            return l[::-1], U[:, ::-1]
-        return l, U
+            idx = idx[::-1]
+        U = np.zeros((n, n), dtype=np.complex128)
+        U[idx, np.arange(n)] = np.exp(1j * 0.5 * np.angle(d[idx]))
+        return l[idx], U
 
     u, d, v = np.linalg.svd(A)
     U = u @ sqrtm((v @ np.conjugate(u)).T)
-- 
2.43.0


From 7c3332dcc403128139f1df2d2ec1e42ab8eed1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 23/63] fix: takagi of complex matrices with degenerate
 singular values (non-unitary factor)

---
 thewalrus/decompositions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index bf6a9c8..d93d639 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -215,8 +215,16 @@ def takagi(A, svd_order=True, rtol=1e-16):
         U[idx, np.arange(n)] = np.exp(1j * 0.5 * np.angle(d[idx]))
         return l[idx], U
 
-    u, d, v = np.linalg.svd(A)
-    U = u @ sqrtm((v @ np.conjugate(u)).T)
+    # The columns u = x + i y of U satisfy A @ conj(u) = d u, i.e. the vectors (x, y) are the
+    # eigenvectors with non-negative eigenvalue of a real symmetric matrix. Unlike a square root
+    # of the unitary relating the singular vectors this is stable for degenerate singular values.
+    d, xy = np.linalg.eigh(np.block([[A.real, A.imag], [A.imag, -A.real]]))
+    d = np.maximum(d[:-(n + 1):-1], 0)
+    U = (xy[:n] + 1j * xy[n:])[:, :-(n + 1):-1]
+    # Orthonormalize the columns that belong to (almost) vanishing singular values
+    U, R = qr(U)
+    dR = np.diag(R)
+    U = U * np.where(np.abs(dR) > 0.5, np.exp(1j * np.angle(dR)), 1)
     if svd_order is False:
         return d[::-1], U[:, ::-1]
     return d, U
-- 
2.43.0


From 86a7b6af1b14aff13cb891c099e409bf4febf1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 24/63] fix: symplectic_eigenvals returned complex numbers for
 large covariance matrices

---
 thewalrus/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index d93d639..5756460 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -113,7 +113,8 @@ def symplectic_eigenvals(cov):
     """
     M = len(cov) // 2
     Omega = sympmat(M)
-    return np.real_if_close(-1j * np.linalg.eigvals(Omega @ cov))[::2]
+    # For positive definite matrices these eigenvalues come in pairs +i nu, -i nu
+    return np.sort(np.abs(np.linalg.eigvals(Omega @ cov).imag))[::2]
 
 
 def blochmessiah(S):
-- 
2.43.0


From 6c5fa3d95879f4a5456fa66d79bf10306a281290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 25/63] fix: document that the factor of iwasawa is lower
 triangular

---
 thewalrus/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 5756460..1c0c102 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -280,7 +280,7 @@ def iwasawa(S):
 
     Returns:
         tuple[array, array, array]: (E,D,F) symplectic matrices such that E @ D @ F = S,
-        EE = np.block([[AA, np.zeros(N,N)],[CC, np.linalg.inv(A.T)]]) with A.T @ C == C.T @ A, and AA upper trinagular with ones in the diagonal
+        EE = np.block([[AA, np.zeros(N,N)],[CC, np.linalg.inv(A.T)]]) with A.T @ C == C.T @ A, and AA lower triangular with ones in the diagonal
         DD is diagonal and symplectic,
         FF is symplectic orthogonal.
     """
-- 
2.43.0


From eda1852ccb1d457bc2a3fbb71d40039445a23d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 26/63] fix: pre_iwasawa and iwasawa returned complex matrices
 when sqrtm does

---
 thewalrus/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 1c0c102..5bdef09 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -258,7 +258,7 @@ def pre_iwasawa(S):
     B = S[:N, N:]
     C = S[N:, :N]
     D = S[N:, N:]
-    A0 = sqrtm(A @ A.T + B @ B.T)
+    A0 = np.real(sqrtm(A @ A.T + B @ B.T))
     A0inv = np.linalg.inv(A0)
     X = A0inv @ A
     Y = A0inv @ B
-- 
2.43.0


From a63fd558d40b5190d4616887bb623907fd35c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 27/63] fix: expand_vector truncated integer displacements

---
 thewalrus/symplectic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 8ee91bb..89ecf54 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -126,9 +126,10 @@ def expand_vector(alpha, mode, N, hbar=2.0):
     Returns:
         array: phase-space displacement vector of size 2*N
     """
-    alpharealdtype = np.dtype(type(alpha))
+    # integer displacements give floating point vectors
+    dtype = np.result_type(type(alpha), np.float32)
 
-    r = np.zeros(2 * N, dtype=alpharealdtype)
+    r = np.zeros(2 * N, dtype=dtype)
     r[mode] = np.sqrt(2 * hbar) * alpha.real
     r[N + mode] = np.sqrt(2 * hbar) * alpha.imag
     return r
-- 
2.43.0


From 3b4bc2fa8b9f5b6e3fbd5a9b2b1c6f089a0506e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 28/63] fix: squeezing ignored modes without a phase of their
 own

---
 thewalrus/symplectic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 89ecf54..c503b78 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -234,7 +234,8 @@ def squeezing(r, phi=None, dtype=np.float64):
     if phi is None:
         phi = np.zeros_like(r)
 
-    phi = np.atleast_1d(phi)
+    # a single squeezing parameter or phase applies to every mode
+    r, phi = np.broadcast_arrays(r, np.atleast_1d(phi))
 
     M = len(r)
     S = np.identity(2 * M, dtype=dtype)
-- 
2.43.0


From d71a455681e6308e0a9b19c89b0d18ed80712f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 29/63] fix: document the phase convention of the squeezing
 symplectic

---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index c503b78..90f6570 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -215,7 +215,7 @@ def squeezing(r, phi=None, dtype=np.float64):
 
     .. math::
 
-         \exp(\tfrac{1}{2}r e^{i \phi} (a^2 - a^{\dagger 2}) ).
+         \exp(\tfrac{1}{2}r (e^{-i \phi} a^2 - e^{i \phi} a^{\dagger 2}) ).
 
 
     By passing an array of squeezing parameters and phases, it applies a tensor product of squeezing operations.
-- 
2.43.0


From 436505a2bea9b836b9f1e815912aa6564823f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 30/63] fix: expand accepts COO, DIA and BSR sparse matrices
 like the corresponding arrays

---
 thewalrus/symplectic.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 90f6570..628a4cc 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -61,9 +61,6 @@ import numpy as np
 from scipy.sparse import (
     identity as sparse_identity,
     issparse,
-    coo_array,
-    dia_array,
-    bsr_array,
     csr_array,
 )
 
@@ -73,8 +70,8 @@ def expand(S, modes, N):
     If the input is a single mode symplectic, then extends it to act
     on multiple modes.
 
-    Supports scipy sparse matrices. Instances of ``coo_array``, ``dia_array``,
-    ``bsr_array`` will be transformed into `csr_array``.
+    Supports scipy sparse matrices. Those in COO, DIA or BSR format
+    will be transformed into ``csr_array``.
 
     Args:
         S (ndarray or spmatrix): a :math:`2M\times 2M` Symplectic matrix
@@ -91,7 +88,7 @@ def expand(S, modes, N):
         else sparse_identity(2 * N, dtype=S.dtype, format="csr")
     )
 
-    if issparse(S) and isinstance(S, (coo_array, dia_array, bsr_array)):
+    if issparse(S) and S.format in ("coo", "dia", "bsr"):
         # cast to sparse matrix that supports slicing and indexing
         warnings.warn(
             "Unsupported sparse matrix type, returning a Compressed Sparse Row (CSR) matrix."
-- 
2.43.0


From 37c1ed74cf35dcc1daa6228ef175b37620c200b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 31/63] fix: fidelity did not check the shape of the second
 vector of means

---
 thewalrus/quantum/gaussian_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 5f7b75a..02d1909 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -127,7 +127,7 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     n0, n1 = cov1.shape
     m0, m1 = cov2.shape
     (l0,) = mu1.shape
-    (l1,) = mu1.shape
+    (l1,) = mu2.shape
     if not n0 == n1 == m0 == m1 == l0 == l1:
         raise ValueError("The inputs have incompatible shapes")
 
-- 
2.43.0


From 027a0c5de7fc6f3e25d75a97c97a3b838de701e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 32/63] fix: fidelity of nearly pure states was wrong by up to
 1e-4 and complex for some states

---
 thewalrus/quantum/gaussian_checks.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 02d1909..ebc8648 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -18,7 +18,6 @@ calculations for Gaussian states.
 # pylint: disable=too-many-arguments
 
 import numpy as np
-from scipy.linalg import sqrtm
 
 from ..symplectic import sympmat
 
@@ -99,7 +98,7 @@ def is_classical_cov(cov, hbar=2, atol=1e-08):
     return False
 
 
-def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
+def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=0, atol=1e-13):
     r"""Calculates the fidelity between two Gaussian quantum states.
     For two pure states :math:`|\psi_1 \rangle,  \  |\psi_2 \rangle`
     the fidelity is given by :math:`|\langle \psi_1|\psi_2 \rangle|^2`
@@ -117,8 +116,8 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
         mu2 (array): vector of means of the second state
         cov2 (array): covariance matrix of the second state
         hbar (float): value of hbar in the uncertainty relation
-        rtol (float): the relative tolerance parameter used in `np.allclose`
-        atol (float): the absolute tolerance parameter used in `np.allclose`
+        rtol (float): the relative tolerance parameter used in `np.isclose`
+        atol (float): the absolute tolerance parameter used in `np.isclose`
 
     Returns:
         (float): value of the fidelity between the two states
@@ -141,17 +140,16 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     sigma = sigma1 + sigma2
     sigma_inv = np.linalg.inv(sigma)
     vaux = omega.T @ sigma_inv @ (0.25 * omega + sigma2 @ omega @ sigma1)
-    sqrtm_arg = np.identity(n0) + 0.25 * np.linalg.inv(vaux @ omega @ vaux @ omega)
-
-    # The sqrtm function has issues with matrices that are close to zero, hence we branch
-    if np.allclose(sqrtm_arg, 0, rtol=rtol, atol=atol):
-        mat_sqrtm = np.zeros_like(sqrtm_arg)
-    else:
-        mat_sqrtm = sqrtm(sqrtm_arg)
 
-    det_arg = 2 * (mat_sqrtm + np.identity(n0)) @ vaux
-    f = np.sqrt(np.linalg.det(sigma_inv) * np.linalg.det(det_arg)) * np.exp(
-        -0.5 * deltar @ sigma_inv @ deltar
+    # The determinant of 2 * (sqrtm(I + (vaux @ omega)^(-2) / 4) + I) @ vaux is calculated from the
+    # eigenvalues of vaux @ omega, which come in pairs +i w, -i w with w >= 1/2
+    w = np.sort(np.abs(np.linalg.eigvals(vaux @ omega).imag))[::2]
+    # The square root amplifies rounding errors when one of the states is pure, hence we branch
+    w[np.isclose(4 * w**2, 1, rtol=rtol, atol=atol)] = 0.5
+    f = (
+        np.sqrt(np.linalg.det(sigma_inv))
+        * np.prod(2 * w + np.sqrt(np.maximum(4 * w**2 - 1, 0)))
+        * np.exp(-0.5 * deltar @ sigma_inv @ deltar)
     )
     # Note that we only take the square root and that we have a prefactor of 0.5
     # as opposed to 0.25 in Brask. This is because this function returns the square
-- 
2.43.0


From 0e91d32966b7eaa6bb26b0bca7825576c79189ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 33/63] fix: entanglement measures accept arrays of modes and
 reject negative splits

---
 thewalrus/quantum/entanglement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index ba5e0b3..e6a3f44 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -40,14 +40,16 @@ def get_partition(modes_A, split, M):
         if isinstance(modes_A, int):
             modes_A = [modes_A]
         for mode in modes_A:
-            if not isinstance(mode, int) or mode < 0 or mode > M - 1:
+            if not isinstance(mode, (int, np.integer)) or mode < 0 or mode > M - 1:
                 raise ValueError(
                     f"Every element of 'modes_A' must be an integer between 0 and {M - 1}"
                 )
 
     if modes_A is None and split is not None:
-        if not isinstance(split, int) or split > M - 1:
-            raise ValueError("'split' must be an integer smaller than the number of modes.")
+        if not isinstance(split, int) or split < 0 or split > M - 1:
+            raise ValueError(
+                "'split' must be a non-negative integer smaller than the number of modes."
+            )
         modes_A = range(split)
 
     if modes_A is None and split is None:
-- 
2.43.0


From 73e43a01b576c47931e33a06e780197588178e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 34/63] fix: grad_squeezing read out of bounds for cutoff 1

---
 thewalrus/fock_gradients.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thewalrus/fock_gradients.py b/thewalrus/fock_gradients.py
index b4a3857..132c1ef 100644
--- a/thewalrus/fock_gradients.py
+++ b/thewalrus/fock_gradients.py
@@ -168,16 +168,16 @@ def grad_squeezing(T, r, phi):  # pragma: no cover
 
     for m in range(cutoff):
         for n in range(cutoff):
+            # the matrix elements with negative indices vanish
+            T_m2 = sqrt[m] * sqrt[m - 1] * T[m - 2, n] if m > 1 else 0.0 * T[m, n]
+            T_n2 = sqrt[n] * sqrt[n - 1] * T[m, n - 2] if n > 1 else 0.0 * T[m, n]
             grad_r[m, n] = (
                 -0.5 * tanhr * T[m, n]
                 - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
-                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
-            )
-            grad_phi[m, n] = (
-                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                - 0.5 * eiphi * sechr**2 * T_m2
+                + 0.5 * eiphiconj * sechr**2 * T_n2
             )
+            grad_phi[m, n] = -0.5j * eiphi * tanhr * T_m2 - 0.5j * eiphiconj * tanhr * T_n2
 
     return grad_r, grad_phi
 
-- 
2.43.0


From c5aac51fcc6316910e3564a734420261152d2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 35/63] fix: adj_scaling lost accuracy for matrices with large
 entries

---
 thewalrus/quantum/adjacency_matrices.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/adjacency_matrices.py b/thewalrus/quantum/adjacency_matrices.py
index e709051..87342ae 100644
--- a/thewalrus/quantum/adjacency_matrices.py
+++ b/thewalrus/quantum/adjacency_matrices.py
@@ -103,12 +103,16 @@ def adj_scaling(A, n_mean):
     ls = np.linalg.svd(A, compute_uv=False)
     max_sv = ls[0]
     a_lim = 0.0
-    b_lim = 1.0 / (eps + max_sv)
+    b_lim = 1.0 / (eps + 1.0)
     x_init = 0.5 * b_lim
 
     if 1000 * eps >= max_sv:
         raise ValueError("The singular values of the matrix A are too small.")
 
+    # search for the scaling of the matrix with largest singular value one, so that the
+    # tolerance of the root search does not depend on the magnitude of the entries of A
+    ls = ls / max_sv
+
     def mean_photon_number(x, vals):
         r"""Returns the mean number of photons in the Gaussian state that
         encodes the adjacency matrix x*A where vals are the singular values of A
@@ -149,7 +153,7 @@ def adj_scaling(A, n_mean):
     if not res.converged:
         raise ValueError("The search for a scaling value failed")
 
-    return res.root
+    return res.root / max_sv
 
 
 def adj_to_qmat(A, n_mean):
-- 
2.43.0


From c2a095cc3bd636d6a03cf04b4c62e02ec7b49e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 36/63] fix: rescale_adjacency_matrix did not reach n_mean for
 matrices with large entries

---
 thewalrus/csamples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thewalrus/csamples.py b/thewalrus/csamples.py
index abbf6c7..7803afd 100644
--- a/thewalrus/csamples.py
+++ b/thewalrus/csamples.py
@@ -111,7 +111,7 @@ def rescale_adjacency_matrix(
 
     max_sv = ls[-1]
     a_lim = 0.0
-    b_lim = 1 / (atol + scale * max_sv)
+    b_lim = 1 / (scale * (1 + atol))
     x_init = 0.5 * b_lim
 
     def mean_photon_number(x, vals):
@@ -148,6 +148,10 @@ def rescale_adjacency_matrix(
         dn = np.sum((scale * vals) / (1 - vals1) ** 2)
         return dn
 
+    # search for the scaling of the matrix with largest eigenvalue one, so that the
+    # tolerance of the root search does not depend on the magnitude of the entries of A
+    ls = ls / max_sv
+
     f = lambda x: mean_photon_number(x, ls) - n_mean
     df = lambda x: grad_mean_photon_number(x, ls)
     res = root_scalar(f, fprime=df, x0=x_init, bracket=(a_lim, b_lim))
-- 
2.43.0


From a98b3239238ad8a725418337cadb746cbeab5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 37/63] fix: hafnian and torontonian samplers ignored hbar in
 the heterodyne step

---
 thewalrus/samples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..c894fbb 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -234,8 +234,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -434,8 +434,8 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From 69de386f753ce4a2aa4767fbec5ab5570b22f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 38/63] fix: torontonian sampling used vacuum heterodyne noise
 of twice the right variance

---
 thewalrus/samples.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index c894fbb..1d08d0c 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -193,7 +193,10 @@ def get_heterodyne_fanout(alpha, fanout):
     for j in range(M):
         alpha_j = np.zeros(fanout, dtype=np.complex128)
         alpha_j[0] = alpha[j]  # put the coherent state in 0th mode
-        alpha_j[1:] = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        # heterodyne outcomes of the vacuum have variance 1/2 in each quadrature
+        alpha_j[1:] = np.sqrt(0.5) * (
+            np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        )
 
         alpha_fanout[j, :] = np.fft.fft(alpha_j, norm="ortho")
 
-- 
2.43.0


From d9003a7a152881166e4ef60f4a0c66745a103d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 39/63] fix: hafnian sampler applied the cutoff to the last
 mode only

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 1d08d0c..5fa4f1b 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -257,7 +257,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
         det_outcome_i = np.random.choice(det_outcomes, p=probs)
         det_pattern[mode] = det_outcome_i
 
-    if det_pattern[order_inv][-1] == cutoff:
+    if np.any(det_pattern == cutoff):
         return -1
     if det_pattern[order_inv].sum() > max_photons:
         return -1
-- 
2.43.0


From b2e78f8016146cdbb3cab70894891844764c169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 40/63] fix: torontonian samplers lost up to a tenth of the
 clicks at their default cutoff

---
 thewalrus/samples.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 5fa4f1b..19f2be3 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -407,7 +407,7 @@ def hafnian_sample_graph(A, n_mean, samples=1, cutoff=5, max_photons=30, paralle
 # ===============================================================================================
 
 
-def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=1):
+def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=5):
     r"""Returns a single sample from the Hafnian of a Gaussian state.
     Code contributed by `Jake F.F. Bulmer <https://github.com/jakeffbulmer/gbs>`_ based on
     `arXiv:2108.01622 <https://arxiv.org/abs/2010.15595>`_.
@@ -422,6 +422,9 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
         hbar (float): (default 2) the value of :math:`\hbar` in the commutation
             relation :math:`[\x,\p]=i\hbar`.
         max_photons (int): specifies the maximum number of clicks that can be counted.
+        fanout (int): number of sub-modes in which each mode is split.
+        cutoff (int): maximum number of photons considered in each sub-mode. Contributions of more
+            photons are neglected.
 
     Returns:
         np.array[int]: a threshold sample from the Gaussian state.
@@ -545,7 +548,7 @@ def _torontonian_sample(args):
 
 
 def torontonian_sample_state(
-    cov, samples, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=1, parallel=False
+    cov, samples, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=5, parallel=False
 ):
     r"""Returns samples from the Torontonian of a Gaussian state
 
@@ -560,6 +563,9 @@ def torontonian_sample_state(
         hbar (float): (default 2) the value of :math:`\hbar` in the commutation
             relation :math:`[\x,\p]=i\hbar`.
         max_photons (int): specifies the maximum number of clicks that can be counted.
+        fanout (int): number of sub-modes in which each mode is split.
+        cutoff (int): maximum number of photons considered in each sub-mode. Contributions of more
+            photons are neglected.
         parallel (bool): if ``True``, uses ``dask`` for parallelization of samples
 
     Returns:
@@ -592,7 +598,7 @@ def torontonian_sample_state(
 
 
 def torontonian_sample_graph(
-    A, n_mean, samples=1, max_photons=30, fanout=10, cutoff=1, parallel=False
+    A, n_mean, samples=1, max_photons=30, fanout=10, cutoff=5, parallel=False
 ):
     r"""Returns samples from the Torontonian of a Gaussian state specified by the adjacency matrix :math:`A`
     and with total mean photon number :math:`n_{mean}`
@@ -602,6 +608,9 @@ def torontonian_sample_graph(
         n_mean (float): mean photon number of the Gaussian state
         samples (int): the number of samples to return.
         max_photons (int): specifies the maximum number of photons that can be counted.
+        fanout (int): number of sub-modes in which each mode is split.
+        cutoff (int): maximum number of photons considered in each sub-mode. Contributions of more
+            photons are neglected.
         parallel (bool): if ``True``, uses ``dask`` for parallelization of samples
 
     Returns:
-- 
2.43.0


From 9a887b71d87e0172acff281242b18269cf1f3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 41/63] fix: photon_number_sampler raised when rounding made
 the probabilities add to more than one

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 19f2be3..62845dc 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -725,7 +725,7 @@ def photon_number_sampler(probabilities, num_samples, out_of_bounds=False):
         return np.unravel_index(index, [cutoff] * num_modes)
 
     vals = np.arange(1 + cutoff**num_modes, dtype=int)
-    probabilities = np.append(probabilities.flatten(), 1.0 - sum_p)
+    probabilities = np.append(probabilities.flatten(), max(0.0, 1.0 - sum_p))
     return [sorter(np.random.choice(vals, p=probabilities)) for _ in range(num_samples)]
 
 
-- 
2.43.0


From 170ae9199a47c2d7b70bdc347533d1bdc9f24455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 42/63] fix: samples drawn in parallel depended on the thread
 scheduling as well as on the seed

---
 thewalrus/samples.py | 53 ++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 62845dc..21f3c9d 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -175,7 +175,7 @@ def photon_means_order(mu, cov):
     return np.asarray(order)
 
 
-def get_heterodyne_fanout(alpha, fanout):
+def get_heterodyne_fanout(alpha, fanout, rng=np.random):
     r"""Get the heterodyne fanout using the mean displacement of each modes.
     Code contributed by `Jake F.F. Bulmer <https://github.com/jakeffbulmer/gbs>`_ based on
     `arXiv:2108.01622 <https://arxiv.org/abs/2010.15595>`_.
@@ -183,6 +183,7 @@ def get_heterodyne_fanout(alpha, fanout):
     Args:
         alpha (array): mean displacement of each modes.
         fanout (int): number of channels in which a state is splitted.
+        rng: random number generator, by default the global one of NumPy.
 
     Returns:
         alpha_fanout (array): mean displacement of each modes with fanout.
@@ -195,7 +196,7 @@ def get_heterodyne_fanout(alpha, fanout):
         alpha_j[0] = alpha[j]  # put the coherent state in 0th mode
         # heterodyne outcomes of the vacuum have variance 1/2 in each quadrature
         alpha_j[1:] = np.sqrt(0.5) * (
-            np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+            rng.normal(size=fanout - 1) + 1j * rng.normal(size=fanout - 1)
         )
 
         alpha_fanout[j, :] = np.fft.fft(alpha_j, norm="ortho")
@@ -204,7 +205,7 @@ def get_heterodyne_fanout(alpha, fanout):
 
 
 # pylint: disable=too-many-branches
-def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
+def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8, rng=np.random):
     r"""Returns a single sample from the Hafnian of a Gaussian state.
     Code contributed by `Jake F.F. Bulmer <https://github.com/jakeffbulmer/gbs>`_ based on
     `arXiv:2108.01622 <https://arxiv.org/abs/2010.15595>`_.
@@ -219,6 +220,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
             relation :math:`[\x,\p]=i\hbar`.
         cutoff (int): the Fock basis truncation.
         max_photons (int): specifies the maximum number of photons that can be counted.
+        rng: random number generator, by default the global one of NumPy.
 
     Returns:
         np.array[int]: a photon number sample from the Gaussian states.
@@ -241,9 +243,9 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
-    pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
+    pure_mu = mu + sqrtW @ rng.normal(size=2 * M)
     pure_alpha = mu_to_alpha(pure_mu, hbar=hbar)
-    heterodyne_mu = pure_mu + chol_T_I @ np.random.normal(size=2 * M)
+    heterodyne_mu = pure_mu + chol_T_I @ rng.normal(size=2 * M)
     heterodyne_alpha = mu_to_alpha(heterodyne_mu, hbar=hbar)
     gamma = pure_alpha.conj() + B @ (heterodyne_alpha - pure_alpha)
     for mode in range(M):
@@ -254,7 +256,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
         norm_probs = probs.sum()
         probs /= norm_probs
 
-        det_outcome_i = np.random.choice(det_outcomes, p=probs)
+        det_outcome_i = rng.choice(det_outcomes, p=probs)
         det_pattern[mode] = det_outcome_i
 
     if np.any(det_pattern == cutoff):
@@ -264,7 +266,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     return list(det_pattern[order_inv])
 
 
-def _hafnian_sample(args):
+def _hafnian_sample(args, rng=np.random):
     r"""Returns samples from the Hafnian of a Gaussian state.
 
     Note: this is a wrapper function, instead of using this function
@@ -316,7 +318,7 @@ def _hafnian_sample(args):
 
     while j < samples:
         result = generate_hafnian_sample(
-            cov, mean=mean, hbar=hbar, cutoff=cutoff, max_photons=max_photons
+            cov, mean=mean, hbar=hbar, cutoff=cutoff, max_photons=max_photons, rng=rng
         )
 
         if result != -1:
@@ -360,9 +362,11 @@ def hafnian_sample_state(
                 "hafnian_sample_state with parallel=True does not run on macos"
             )
         params = [[cov, 1, mean, hbar, cutoff, max_photons]] * samples
+        # every sample has its own generator, so that the samples do not depend on the scheduling
+        seeds = np.random.randint(2**32, size=samples, dtype=np.uint32)
         compute_list = []
-        for p in params:
-            compute_list.append(dask.delayed(_hafnian_sample)(p))
+        for p, seed_val in zip(params, seeds):
+            compute_list.append(dask.delayed(_hafnian_sample)(p, np.random.RandomState(seed_val)))
 
         results = dask.compute(*compute_list, scheduler="threads")
 
@@ -407,7 +411,9 @@ def hafnian_sample_graph(A, n_mean, samples=1, cutoff=5, max_photons=30, paralle
 # ===============================================================================================
 
 
-def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=5):
+def generate_torontonian_sample(
+    cov, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=5, rng=np.random
+):
     r"""Returns a single sample from the Hafnian of a Gaussian state.
     Code contributed by `Jake F.F. Bulmer <https://github.com/jakeffbulmer/gbs>`_ based on
     `arXiv:2108.01622 <https://arxiv.org/abs/2010.15595>`_.
@@ -425,6 +431,7 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
         fanout (int): number of sub-modes in which each mode is split.
         cutoff (int): maximum number of photons considered in each sub-mode. Contributions of more
             photons are neglected.
+        rng: random number generator, by default the global one of NumPy.
 
     Returns:
         np.array[int]: a threshold sample from the Gaussian state.
@@ -449,12 +456,12 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     click_pattern = np.zeros(M, dtype=np.int8)
     fanout_clicks = np.zeros(M, dtype=int)
 
-    pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
+    pure_mu = mu + sqrtW @ rng.normal(size=2 * M)
     pure_alpha = mu_to_alpha(pure_mu, hbar=hbar)
-    het_mu = pure_mu + chol_T_I @ np.random.normal(size=2 * M)
+    het_mu = pure_mu + chol_T_I @ rng.normal(size=2 * M)
     het_alpha = mu_to_alpha(het_mu, hbar=hbar)
 
-    het_alpha_fanout = get_heterodyne_fanout(het_alpha, fanout)
+    het_alpha_fanout = get_heterodyne_fanout(het_alpha, fanout, rng)
     het_alpha_sum = het_alpha_fanout.sum(axis=1)
 
     gamma = pure_alpha.conj() / np.sqrt(fanout) + B @ (het_alpha_sum - np.sqrt(fanout) * pure_alpha)
@@ -475,7 +482,7 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
         for k in range(fanout):
             gamma = gamma_fanout[k, :]
             probs_k = probs[k, :] / probs[k, :].sum()
-            det_outcome = np.random.choice(det_outcomes, p=probs_k)
+            det_outcome = rng.choice(det_outcomes, p=probs_k)
             det_pattern[mode] += det_outcome
             if det_outcome > 0:
                 click_pattern[mode] = 1
@@ -487,7 +494,7 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     return list(click_pattern[order_inv])
 
 
-def _torontonian_sample(args):
+def _torontonian_sample(args, rng=np.random):
     r"""Returns samples from the Torontonian of a Gaussian state.
 
     Note: this is a wrapper function, instead of using this function
@@ -538,7 +545,13 @@ def _torontonian_sample(args):
 
     while j < samples:
         result = generate_torontonian_sample(
-            cov, mu, hbar=hbar, max_photons=max_photons, fanout=fanout, cutoff=cutoff
+            cov,
+            mu,
+            hbar=hbar,
+            max_photons=max_photons,
+            fanout=fanout,
+            cutoff=cutoff,
+            rng=rng,
         )
         if result != -1:
             samples_array.append(result)
@@ -585,9 +598,11 @@ def torontonian_sample_state(
                 "torontonian_sample_state with parallel=True does not run on macos"
             )
         params = [[cov, 1, mu, hbar, max_photons, fanout, cutoff]] * samples
+        # every sample has its own generator, so that the samples do not depend on the scheduling
+        seeds = np.random.randint(2**32, size=samples, dtype=np.uint32)
         compute_list = []
-        for p in params:
-            compute_list.append(dask.delayed(_torontonian_sample)(p))
+        for p, seed_val in zip(params, seeds):
+            compute_list.append(dask.delayed(_torontonian_sample)(p, np.random.RandomState(seed_val)))
 
         results = dask.compute(*compute_list, scheduler="threads")
 
-- 
2.43.0


From 5eb6276837b2f2031c6244a30e3a3c76fae5372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 43/63] fix: random_symplectic documented a bounded range and
 another law of its squeezing parameters

---
 thewalrus/random.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thewalrus/random.py b/thewalrus/random.py
index 2078471..609c608 100644
--- a/thewalrus/random.py
+++ b/thewalrus/random.py
@@ -78,8 +78,8 @@ def random_covariance(N, hbar=2, pure=False, block_diag=False):
 def random_symplectic(N, passive=False, block_diag=False, scale=1.0):
     r"""Random symplectic matrix representing a Gaussian transformation.
 
-    The squeezing parameters :math:`r` for active transformations are randomly
-    sampled from the standard normal distribution, while passive transformations
+    The squeezing parameters :math:`r` for active transformations are the moduli of
+    complex numbers sampled from the normal distribution, while passive transformations
     are randomly sampled from the Haar measure. Note that for the Symplectic
     group there is no notion of Haar measure since this is group is not compact.
 
@@ -92,7 +92,8 @@ def random_symplectic(N, passive=False, block_diag=False, scale=1.0):
             instead of unitary. This implies that the positions :math:`q` do not mix with
             the momenta :math:`p` and thus the symplectic operator is block diagonal
         scale (float): Sets the scale of the random values used as squeezing parameters.
-            They will range from 0 to :math:`\sqrt{2}\texttt{scale}`
+            They are the moduli of complex random numbers, the real and imaginary parts of which
+            are normally distributed with standard deviation ``scale``.
 
     Returns:
         array: random :math:`2N\times 2N` symplectic matrix
-- 
2.43.0


From a69befb679d800e3f5c1219588d05fba6eb7f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 44/63] fix: grouped click probabilities rejected real transfer
 matrices

---
 thewalrus/grouped_click_probabilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..dc15d4e 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -24,6 +24,7 @@ def grouped_click_probabilities(
     np.random.seed(seed)
     samp_per_group = num_samples // num_groups
     num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
+    t_mat = t_matrix.astype(np.complex128)
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
     delta = 2 * np.pi / (num_modes + 1)
@@ -40,8 +41,8 @@ def grouped_click_probabilities(
     for j in range(num_samples):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
-        alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-        beta = t_matrix.conj() @ (drp * wrp - 1j * drm * wrm)
+        alpha = t_mat @ (drp * wrp + 1j * drm * wrm)
+        beta = t_mat.conj() @ (drp * wrp - 1j * drm * wrm)
         gth = np.empty(num_modes + 1, dtype=np.complex128)
         for k in range(num_modes + 1):
             gth[k] = np.prod(
-- 
2.43.0


From 085b279bbb03d3d470ff43a87c7074aa1a95f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 45/63] fix: grouped click probabilities did not add to one
 when the groups did not divide the samples

---
 thewalrus/grouped_click_probabilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index dc15d4e..31c622b 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -23,6 +23,8 @@ def grouped_click_probabilities(
     """
     np.random.seed(seed)
     samp_per_group = num_samples // num_groups
+    if samp_per_group < 1:
+        raise ValueError("There must be at least one sample in each group.")
     num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
     t_mat = t_matrix.astype(np.complex128)
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
@@ -38,7 +40,8 @@ def grouped_click_probabilities(
     bcc = np.zeros(num_modes + 1, dtype=np.float64)
     qcc = np.zeros(num_modes + 1, dtype=np.float64)
     fix = np.zeros(num_modes + 1, dtype=np.float64)
-    for j in range(num_samples):
+    # samples left over by the division into groups are not used
+    for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
         alpha = t_mat @ (drp * wrp + 1j * drm * wrm)
-- 
2.43.0


From 1ef81eb74e3e39111301d585a639606b896e2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 46/63] fix: errors of grouped click probabilities were NaN
 when rounding made a variance negative

---
 thewalrus/grouped_click_probabilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index 31c622b..cca798f 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -56,7 +56,9 @@ def grouped_click_probabilities(
             bcc = bcc + (acc - fix) / samp_per_group
             qcc = qcc + ((acc - fix) / samp_per_group) ** 2
             fix = acc
-    return bcc / num_groups, (qcc / num_groups - (bcc / num_groups) ** 2) ** 0.5
+    # rounding can make the variance of nearly equal groups negative
+    var = np.maximum(qcc / num_groups - (bcc / num_groups) ** 2, 0.0)
+    return bcc / num_groups, var**0.5
 
 
 @jit(nopython=True)
-- 
2.43.0


From eccafe03c5ce50e3c782896e60a3d942716f6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 47/63] fix: distinguishable squeezers did not support more
 output than input modes

---
 thewalrus/quantum/distinguishable_squeezers.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/thewalrus/quantum/distinguishable_squeezers.py b/thewalrus/quantum/distinguishable_squeezers.py
index 1857b01..6cbccf3 100644
--- a/thewalrus/quantum/distinguishable_squeezers.py
+++ b/thewalrus/quantum/distinguishable_squeezers.py
@@ -34,11 +34,11 @@ def sample(T, rs, n_samples=100, input_cutoff=50):
     Returns:
         outputs (array): resultant samples
     """
-    M = T.shape[0]
+    M, N = T.shape
     abs2T = (T * T.conj()).real
 
     detection_probs = abs2T.sum(0)
-    probs = np.array([abs2T[:, i] / detection_probs[i] for i in range(M)])
+    probs = np.array([abs2T[:, i] / detection_probs[i] for i in range(N)])
 
     p_n = np.array([_squeezed_state_distribution(r, cutoff=input_cutoff) for r in rs])
     p_n = np.array([p / p.sum() for p in p_n])
@@ -46,7 +46,7 @@ def sample(T, rs, n_samples=100, input_cutoff=50):
     outputs = np.empty((n_samples, M), dtype=np.int64)
     for samp in range(n_samples):
         output = np.zeros(M, dtype=np.int64)
-        for i in range(M):
+        for i in range(N):
             n = np.random.choice(np.arange(input_cutoff), p=p_n[i])
             n_detected = np.random.binomial(n, min(1, detection_probs[i]))
             if n_detected > 0:
@@ -69,10 +69,7 @@ def number_means(T, rs):
     Returns:
         (array): resultant mean photon numbers
     """
-    n = len(rs)
-    return np.array(
-        [np.sum([(np.sinh(rs[k]) * np.abs(T[i, k])) ** 2 for k in range(n)]) for i in range(n)]
-    )
+    return np.abs(T) ** 2 @ np.sinh(rs) ** 2
 
 
 def number_cov(T, rs):
-- 
2.43.0


From 33715eea31e2312b1adbe1d0c0e0ebd51241c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 48/63] fix: grouped click probabilities failed for more input
 than output modes

---
 thewalrus/grouped_click_probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index cca798f..80d98ac 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -25,7 +25,7 @@ def grouped_click_probabilities(
     samp_per_group = num_samples // num_groups
     if samp_per_group < 1:
         raise ValueError("There must be at least one sample in each group.")
-    num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
+    num_modes, num_input = t_matrix.shape
     t_mat = t_matrix.astype(np.complex128)
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
-- 
2.43.0


From dea088327ce95157b1ed24438f1d07b50df2f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 49/63] fix: unknown methods of hafnian and perm were not
 rejected

---
 thewalrus/_hafnian.py   | 7 +++----
 thewalrus/_permanent.py | 3 +++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index e9c3eb1..ee8f28d 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -751,11 +751,10 @@ def hafnian(
 
     matshape = A.shape
 
-    if method == "glynn":
-        glynn = True
+    if method not in ("glynn", "inclexcl", "recursive"):
+        raise ValueError("The method must be 'glynn', 'inclexcl' or 'recursive'.")
 
-    if method == "inclexcl":
-        glynn = False
+    glynn = method != "inclexcl"
 
     if matshape == (0, 0):
         return 1
diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 41f5330..dfbda03 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -59,6 +59,9 @@ def perm(A, method="bbfg"):
     if np.isnan(A).any():
         raise ValueError("Input matrix must not contain NaNs.")
 
+    if method not in ("bbfg", "ryser"):
+        raise ValueError("The method must be 'bbfg' or 'ryser'.")
+
     if matshape[0] == 0:
         return A.dtype.type(1.0)
 
-- 
2.43.0


From 9fdd4fcf98e8730ad1c3ea74c2ba39c50d95856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 50/63] fix: hafnian with approx=True accepted small matrices
 with negative or complex entries

---
 thewalrus/_hafnian.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ee8f28d..8bb5f47 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -756,6 +756,13 @@ def hafnian(
 
     glynn = method != "inclexcl"
 
+    if approx:
+        if np.any(np.iscomplex(A)):
+            raise ValueError("Input matrix must be real")
+
+        if np.any(A < 0):
+            raise ValueError("Input matrix must not have negative entries")
+
     if matshape == (0, 0):
         return 1
 
@@ -798,12 +805,6 @@ def hafnian(
         return A[0, 1] * A[2, 3] + A[0, 2] * A[1, 3] + A[0, 3] * A[1, 2]
 
     if approx:
-        if np.any(np.iscomplex(A)):
-            raise ValueError("Input matrix must be real")
-
-        if np.any(A < 0):
-            raise ValueError("Input matrix must not have negative entries")
-
         return hafnian_approx(A, num_samples=num_samples)
 
     if loop:
-- 
2.43.0


From 5987254324c7c6481246cedaec45978c2a730564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 51/63] fix: hermite_multidimensional read out of bounds when
 given more cutoffs than modes

---
 thewalrus/_hermite_multidimensional.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index a21ef87..582a6ea 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -101,6 +101,9 @@ def hermite_multidimensional(
     else:
         cutoffs = tuple([cutoff]) * num_indices
 
+    if len(cutoffs) != num_indices:
+        raise ValueError("The matrix R and the cutoffs have incompatible dimensions")
+
     Rt = np.real_if_close(R)
     yt = np.real_if_close(y)
 
@@ -161,6 +164,9 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     else:
         cutoffs = tuple([cutoff]) * num_indices
 
+    if len(cutoffs) != num_indices:
+        raise ValueError("The matrix R and the cutoffs have incompatible dimensions")
+
     Rt = np.real_if_close(R)
 
     dtype = np.result_type(Rt, C)
-- 
2.43.0


From 6d28c97fdf338c488ce08ab1a6d1ce5f4cb79ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 52/63] fix: torontonians and montrealers of NaNs were not
 rejected

---
 thewalrus/_torontonian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thewalrus/_torontonian.py b/thewalrus/_torontonian.py
index 5261b1b..9d12ad2 100644
--- a/thewalrus/_torontonian.py
+++ b/thewalrus/_torontonian.py
@@ -37,11 +37,16 @@ def tor_input_checks(A, loops=None):
     if matshape[0] % 2 != 0:
         raise ValueError("matrix dimension must be even")
 
+    if np.isnan(A).any():
+        raise ValueError("Input matrix must not contain NaNs.")
+
     if loops is not None:
         if not isinstance(loops, np.ndarray):
             raise TypeError("Input matrix must be a NumPy array.")
         if matshape[0] != len(loops):
             raise ValueError("gamma must be a vector matching the dimension of A")
+        if np.isnan(loops).any():
+            raise ValueError("gamma must not contain NaNs.")
 
 
 def tor(A, recursive=True):
-- 
2.43.0


From 5d441ad5aff74194f348a7876d28cd8dd13649c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 53/63] fix: fock_prob did not reject patterns of the wrong
 length

---
 thewalrus/_permanent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index dfbda03..9104cca 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -266,6 +266,10 @@ def fock_prob(n, m, U):
     Returns:
         float: probability of Fock state, n, scattering to m, through an interferometer, U
     """
+    if len(n) != U.shape[1]:
+        raise ValueError("length of n must match number of input modes of U")
+    if len(m) != U.shape[0]:
+        raise ValueError("length of m must match number of output modes of U")
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-- 
2.43.0


From 5990e63f7067d31fd6d3bb8bd6932bd512d28b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 54/63] fix: negative modes exchanged the quadratures of the
 state or gate

---
 thewalrus/quantum/conversions.py | 3 +++
 thewalrus/symplectic.py          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index 523fcfa..a4a9742 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -41,6 +41,9 @@ def reduced_gaussian(mu, cov, modes):
     if np.any(np.array(modes) >= N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
+    if np.any(np.array(modes) < 0):
+        raise ValueError("Provided mode is negative.")
+
     if list(modes) == list(range(N)):
         # reduced state is full state
         return mu, cov
diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 628a4cc..259a76a 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -97,6 +97,9 @@ def expand(S, modes, N):
 
     w = np.array([modes]) if isinstance(modes, int) else np.array(modes)
 
+    if np.any(w < 0):
+        raise ValueError("The specified modes cannot be negative.")
+
     # extend single mode symplectic to act on selected modes
     if M == 1:
         for m in w:
@@ -123,6 +126,9 @@ def expand_vector(alpha, mode, N, hbar=2.0):
     Returns:
         array: phase-space displacement vector of size 2*N
     """
+    if mode < 0:
+        raise ValueError("The specified mode cannot be negative.")
+
     # integer displacements give floating point vectors
     dtype = np.result_type(type(alpha), np.float32)
 
@@ -183,6 +189,9 @@ def reduced_state(mu, cov, modes):
     if np.any(np.array(modes) >= N):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
+    if np.any(np.array(modes) < 0):
+        raise ValueError("The specified modes cannot be negative.")
+
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
     rows = ind.reshape(-1, 1)
     cols = ind.reshape(1, -1)
-- 
2.43.0


From 5e315da63b95827121ba7ee52b8f172f69d13720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 55/63] fix: hafnian_repeated did not check the length of mu
 for trivial repetitions and zero matrices

---
 thewalrus/_hafnian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 8bb5f47..2e63deb 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -916,6 +916,9 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
     if not np.all(np.mod(rpt, 1) == 0) or np.any(nud < 0):
         raise ValueError("the rpt argument must contain non-negative integers.")
 
+    if mu is not None and len(mu) != len(A):
+        raise ValueError("Length of means vector must be the same length as the matrix A.")
+
     if np.all(nud == 0):
         return 1.0
 
@@ -930,9 +933,6 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
             return np.prod(mu**rpt)
         return 0
 
-    if len(mu) != len(A):
-        raise ValueError("Length of means vector must be the same length as the matrix A.")
-
     if loop:
         return loop_hafnian(A, D=mu, reps=rpt, glynn=glynn)
 
-- 
2.43.0


From 30a3c0a5564573a272e46730550c99035870df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 56/63] fix: loss_mat accepted NaN as the transmission

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index c417036..b1e4ca4 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -444,7 +444,7 @@ def loss_mat(eta, cutoff):  # pragma: no cover
     """
     # If full transmission return the identity
 
-    if eta < 0.0 or eta > 1.0:
+    if not 0.0 <= eta <= 1.0:
         raise ValueError("The transmission parameter eta should be a number between 0 and 1.")
 
     if eta == 1.0:
-- 
2.43.0


From e112973f82991d1c5ec1c817a36d0c14037d0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 57/63] fix: samplers accepted covariance matrices of odd
 dimension

---
 thewalrus/samples.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 21f3c9d..523bcac 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -313,6 +313,9 @@ def _hafnian_sample(args, rng=np.random):
     if np.isnan(cov).any():
         raise ValueError("Covariance matrix must not contain NaNs.")
 
+    if matshape[0] % 2 != 0:
+        raise ValueError("Covariance matrix must have an even number of rows.")
+
     samples_array = []
     j = 0
 
@@ -540,6 +543,9 @@ def _torontonian_sample(args, rng=np.random):
     if np.isnan(cov).any():
         raise ValueError("Covariance matrix must not contain NaNs.")
 
+    if matshape[0] % 2 != 0:
+        raise ValueError("Covariance matrix must have an even number of rows.")
+
     samples_array = []
     j = 0
 
-- 
2.43.0


From a8c14ec42568097b97a27db46b9f26226b05995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 58/63] fix: samplers never ended for cutoff=0 or negative
 max_photons

---
 thewalrus/samples.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 523bcac..840e695 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -316,6 +316,9 @@ def _hafnian_sample(args, rng=np.random):
     if matshape[0] % 2 != 0:
         raise ValueError("Covariance matrix must have an even number of rows.")
 
+    if cutoff < 1 or max_photons < 0:
+        raise ValueError("The cutoff must be positive and max_photons must not be negative.")
+
     samples_array = []
     j = 0
 
@@ -546,6 +549,9 @@ def _torontonian_sample(args, rng=np.random):
     if matshape[0] % 2 != 0:
         raise ValueError("Covariance matrix must have an even number of rows.")
 
+    if cutoff < 1 or max_photons < 0:
+        raise ValueError("The cutoff must be positive and max_photons must not be negative.")
+
     samples_array = []
     j = 0
 
-- 
2.43.0


From 6d892ce425a4006136bb71a8deff706156eff200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 59/63] fix: the size of the caches of memoized generators was
 not limited

---
 thewalrus/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index 9bd2e04..e4e795e 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -108,7 +108,7 @@ def memoized(f, maxsize=MAXSIZE):
     Returns:
         function or generator: the memoized function or generator
     """
-    cache = LimitedSizeDict(maxsize=maxsize)
+    cache = LimitedSizeDict(size_limit=maxsize)
 
     @functools.wraps(f)
     def ret(*args):
-- 
2.43.0


From fb9ced6fc0a6c0eb1ebb49fdcb458c2b7441c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 60/63] fix: memoized generators failed when used from several
 threads

---
 thewalrus/reference.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index e4e795e..258aad7 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -59,6 +59,7 @@ Code details
 ------------
 """
 import functools
+import threading
 
 # pylint: disable=too-many-arguments
 from collections import OrderedDict
@@ -108,10 +109,14 @@ def memoized(f, maxsize=MAXSIZE):
     Returns:
         function or generator: the memoized function or generator
     """
-    cache = LimitedSizeDict(size_limit=maxsize)
+    # generators cannot be advanced by several threads, each thread has its own cache
+    local = threading.local()
 
     @functools.wraps(f)
     def ret(*args):
+        if not hasattr(local, "cache"):
+            local.cache = LimitedSizeDict(size_limit=maxsize)
+        cache = local.cache
         if args not in cache:
             cache[args] = f(*args)
         if isinstance(cache[args], (GeneratorType, Tee)):
-- 
2.43.0


From 6a05546d102f72aa6c63fb8efaa8253c66029f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 61/63] fix: two_mode_squeezing and rotation return the
 requested data type

---
 thewalrus/symplectic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 259a76a..70cc4d4 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -278,7 +278,8 @@ def two_mode_squeezing(r, phi, dtype=np.float64):
             [cp * sh, ch, sp * sh, 0],
             [0, sp * sh, ch, -cp * sh],
             [sp * sh, 0, -cp * sh, ch],
-        ]
+        ],
+        dtype=dtype,
     )
 
     return S
@@ -409,7 +410,7 @@ def rotation(theta, dtype=np.float64):
     Returns:
         array: rotation matrix by angle theta
     """
-    V = np.identity(1) * (np.cos(theta, dtype=dtype) + 1j * np.sin(theta, dtype=dtype))
+    V = np.identity(1, dtype=dtype) * (np.cos(theta, dtype=dtype) + 1j * np.sin(theta, dtype=dtype))
     return interferometer(V)
 
 
-- 
2.43.0


From 977d019ed5a3f44e52bb4a51d830d74adc04a4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:22 +0000
Subject: [PATCH 62/63] fix: update_probabilities_with_noise rounded integer
 probabilities to zero

---
 thewalrus/quantum/fock_tensors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index b1e4ca4..d8f66bd 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -515,6 +515,7 @@ def update_probabilities_with_noise(probs_noise, probs):
     Returns:
         array: List of noise-updated probabilities with the same shape as probs.
     """
+    probs = probs.astype(np.result_type(probs, 1.0))
     probs_shape = probs.shape
     num_modes = len(probs_shape)
     if num_modes != len(probs_noise):
-- 
2.43.0


From b1a73345ae80b55fe9f25866089c0422256d7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:22 +0000
Subject: [PATCH 63/63] fix: loss failed for integer means and covariances

---
 thewalrus/symplectic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 70cc4d4..fbccd92 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -346,8 +346,8 @@ def loss(mu, cov, T, mode, nbar=0, hbar=2):
     """
     N = len(cov) // 2
 
-    cov_res = cov.copy()
-    mu_res = mu.copy()
+    cov_res = cov.astype(np.result_type(cov, 1.0))
+    mu_res = mu.astype(np.result_type(mu, 1.0))
 
     for m in (mode, mode + N):
         mu_res[m] *= np.sqrt(T)
-- 
2.43.0

