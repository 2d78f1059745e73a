From 2e70ea733773413ad003b4b53837f56c469097da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 01/45] fix: hafnian_sparse of an empty set of indices is 1

---
 thewalrus/_hafnian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ec97e1b..b2b816e 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -837,6 +837,9 @@ def hafnian_sparse(A, D=None, loop=False):
     else:
         D = frozenset(D)
 
+    if not D:
+        return 1.0
+
     if not loop:
         A = A - np.diag(np.diag(A))
 
-- 
2.43.0


From e1e1dcc8c3f58844a33367b6f88ea91a66a98fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 02/45] fix: hafnian_banded of an empty matrix is 1 instead of
 an IndexError

---
 thewalrus/_hafnian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index b2b816e..238ef89 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -952,6 +952,8 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
     """
     input_validation(A, atol=atol, rtol=rtol)
     (n, _) = A.shape
+    if n == 0:
+        return 1
     w = bandwidth(A)
     if not loop:
         A = A - np.diag(np.diag(A))
-- 
2.43.0


From d427d83b7a68ce2dfab39ec7750f24e2d1707781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 03/45] fix: low_rank_hafnian of an empty matrix is 1 for every
 rank

---
 thewalrus/_low_rank_haf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index defb4d0..86963f2 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -66,6 +66,8 @@ def low_rank_hafnian(G):
     n, r = G.shape
     if n % 2 != 0:
         return 0
+    if n == 0:
+        return 1.0
     if r == 1:
         return factorial2(n - 1, extend="complex") * np.prod(G)
     poly = 1
-- 
2.43.0


From 54be9f47345694955d14924e5ff0cedd966f13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 04/45] fix: interferometer(make_tensor=False) returns the
 documented flattened array

---
 thewalrus/_hermite_multidimensional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2454140..c5a82de 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -165,6 +165,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     if make_tensor:
         shape = cutoff * np.ones([n], dtype=int)
         values = np.reshape(values, shape)
+    else:
+        values = values.flatten()
 
     return values
 
-- 
2.43.0


From c6cd1f0ef7f2e724c135839c3e05acedb9a4ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 05/45] fix: renormalized Hermite tensors of integer inputs are
 not truncated to integers

---
 thewalrus/_hermite_multidimensional.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index c5a82de..51023b1 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -97,6 +97,9 @@ def hermite_multidimensional(
     yt = np.real_if_close(y)
 
     dtype = np.result_type(Rt, yt, C)
+    if renorm and not np.issubdtype(dtype, np.inexact):
+        # the renormalized polynomials are not integers
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
@@ -154,6 +157,9 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     Rt = np.real_if_close(R)
 
     dtype = np.result_type(Rt, C)
+    if renorm and not np.issubdtype(dtype, np.inexact):
+        # the renormalized matrix elements are not integers
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From 55af5a00f96d3ade4df401c82185aab437450c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 06/45] fix: loop_hafnian_batch with cutoff 0 and an odd number
 of fixed photons

---
 thewalrus/loop_hafnian_batch.py       | 9 ++++++---
 thewalrus/loop_hafnian_batch_gamma.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/thewalrus/loop_hafnian_batch.py b/thewalrus/loop_hafnian_batch.py
index e46fbd2..47d32e9 100644
--- a/thewalrus/loop_hafnian_batch.py
+++ b/thewalrus/loop_hafnian_batch.py
@@ -299,6 +299,9 @@ def loop_hafnian_batch(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
-    even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    # the smallest batch computed here is {0, 1}: N_cutoff = 0 keeps the first entry of it
+    N_batch = max(N_cutoff, 1)
+    batch_max = (N_batch - 1) // 2
+    even_cutoff = 1 - (N_batch % 2)
+    H_batch = _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    return H_batch[: N_cutoff + 1]
diff --git a/thewalrus/loop_hafnian_batch_gamma.py b/thewalrus/loop_hafnian_batch_gamma.py
index 35f630a..aa96ac1 100644
--- a/thewalrus/loop_hafnian_batch_gamma.py
+++ b/thewalrus/loop_hafnian_batch_gamma.py
@@ -262,8 +262,11 @@ def loop_hafnian_batch_gamma(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[:, edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
-    even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_gamma_odd(
+    # the smallest batch computed here is {0, 1}: N_cutoff = 0 keeps the first entry of it
+    N_batch = max(N_cutoff, 1)
+    batch_max = (N_batch - 1) // 2
+    even_cutoff = 1 - (N_batch % 2)
+    H_batch = _calc_loop_hafnian_batch_gamma_odd(
         Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn
     )
+    return H_batch[:, : N_cutoff + 1]
-- 
2.43.0


From 497d00202c23d4b2f813adbe0abad849bf68ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 07/45] fix: permanent_repeated accepts an array of repetitions

---
 thewalrus/_permanent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..103dbf4 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -192,7 +192,7 @@ def permanent_repeated(A, rpt):
     O = np.zeros([n, n])
     B = np.vstack([np.hstack([O, A]), np.hstack([A.T, O])])
 
-    return hafnian_repeated(B, rpt * 2, loop=False)
+    return hafnian_repeated(B, list(rpt) * 2, loop=False)
 
 
 @jit(nopython=True, parallel=True)
-- 
2.43.0


From c813661038aec5b19228eb0d3d939d8d109e4a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 08/45] fix: fock_prob of the vacuum is 1 instead of an
 IndexError

---
 thewalrus/_permanent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 103dbf4..c22815a 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -266,8 +266,8 @@ def fock_prob(n, m, U):
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
-    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
+    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])), dtype=int)
 
     Umn = U[np.ix_(out_modes, in_modes)]
 
-- 
2.43.0


From a384b09be4599403291233cb597155f5f15ecaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 09/45] fix: fock_threshold_prob and ubrs of the vacuum (no
 photons) input

---
 thewalrus/_permanent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index c22815a..41f5330 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -241,7 +241,7 @@ def ubrs(A):  # pragma: no cover
     steps = 2**m
     ones = np.ones(m, dtype=np.int8)
     total = 0
-    for j in prange(1, steps):
+    for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
         Az = A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
@@ -305,7 +305,7 @@ def fock_threshold_prob(n, d, T):
 
     fac_prod = np.prod(factorial(n), dtype=np.float64)
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
     C = np.where(d > 0)[0]
 
     A = T[np.ix_(C, in_modes)]
-- 
2.43.0


From 1c8a1620060896f6ef9e0e746f59299a3d0b67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 10/45] fix: charpoly and powertrace no longer overwrite their
 argument

---
 thewalrus/charpoly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..f914ecd 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -293,8 +293,9 @@ def charpoly(H):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     n = len(H)
-    reduce_matrix_to_hessenberg(H)
-    coeff = _charpoly(H, n)
+    hess = H.copy()
+    reduce_matrix_to_hessenberg(hess)
+    coeff = _charpoly(hess, n)
     return coeff
 
 
-- 
2.43.0


From ef9c3c585f1921881298009b29ee2d01832a72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 11/45] fix: charpoly/powertrace of matrices of order 0 and 1
 and powertraces up to order 1

---
 thewalrus/charpoly.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index f914ecd..8717f70 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -212,9 +212,11 @@ def _charpoly(H, k):  # pragma: no cover
     """
     n = len(H)
     c = np.zeros_like(H)
-    c[mlo(1, 1)] = -alpha(H, 1)
-    c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
-    c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
+    if n > 0:
+        c[mlo(1, 1)] = -alpha(H, 1)
+    if n > 1:
+        c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
+        c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
 
     for i in range(3, k + 1):
         c[mlo(i, 1)] = c[mlo(i - 1, 1)] - alpha(H, i)
@@ -318,11 +320,11 @@ def powertrace(H, n):  # pragma: no cover
         A = A @ H
         pow_traces.append(np.trace(A))
     if n <= m:
-        return np.array(pow_traces, dtype=H.dtype)
+        return np.array(pow_traces, dtype=H.dtype)[:n]
     char_pol = charpoly(H)
     for _ in range(min_val, n):
         ssum = 0
         for k in range(m):
             ssum -= char_pol[k] * pow_traces[-k - 1]
         pow_traces.append(ssum)
-    return np.array(pow_traces, dtype=H.dtype)
+    return np.array(pow_traces, dtype=H.dtype)[:n]
-- 
2.43.0


From 6410af4630e684776e3815b3c136591944f2ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 12/45] fix: reduced_gaussian of all the modes in another order
 is permuted accordingly

---
 thewalrus/quantum/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index e979cd2..5e0f59e 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -41,7 +41,7 @@ def reduced_gaussian(mu, cov, modes):
     if np.any(np.array(modes) > N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
-    if len(modes) == N:
+    if np.array_equal(modes, np.arange(N)):
         # reduced state is full state
         return mu, cov
 
-- 
2.43.0


From a551fb1cc114e32db076a1081bd9f3261b3c03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 13/45] fix: reduced_gaussian/reduced_state reject the mode
 number N with the documented ValueError

---
 thewalrus/quantum/conversions.py | 2 +-
 thewalrus/symplectic.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index 5e0f59e..d5856e5 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -38,7 +38,7 @@ def reduced_gaussian(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
     if np.array_equal(modes, np.arange(N)):
diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 93d1414..8ee91bb 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -182,7 +182,7 @@ def reduced_state(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
-- 
2.43.0


From f51967adc0ad9d3ef8af84450cfe10e3b53bd045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 14/45] fix: expand_vector does not truncate the displacement
 vector of an integer alpha

---
 thewalrus/symplectic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 8ee91bb..fcdc461 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -126,7 +126,8 @@ def expand_vector(alpha, mode, N, hbar=2.0):
     Returns:
         array: phase-space displacement vector of size 2*N
     """
-    alpharealdtype = np.dtype(type(alpha))
+    # integer displacements give real vectors: sqrt(2 * hbar) is not an integer in general
+    alpharealdtype = np.result_type(type(alpha), np.float16)
 
     r = np.zeros(2 * N, dtype=alpharealdtype)
     r[mode] = np.sqrt(2 * hbar) * alpha.real
-- 
2.43.0


From b21c64ce927d18947e99e003ba32c7ea5c0eceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 15/45] fix: pure_state_distribution checks purity at the given
 hbar

---
 thewalrus/quantum/photon_number_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index a6f3527..e3ad3da 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -37,7 +37,7 @@ def pure_state_distribution(cov, cutoff=50, hbar=2, padding_factor=2):
     Returns:
         (array): Total photon number distribution
     """
-    if is_pure_cov(cov):
+    if is_pure_cov(cov, hbar=hbar):
         A = Amat(cov, hbar=hbar)
         (n, _) = A.shape
         N = n // 2
-- 
2.43.0


From 4498ccf5336dab6b734c131ee69f970cd2ea75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 16/45] fix: photon_number_moment with a zero power is not zero

---
 thewalrus/quantum/means_and_variances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 8fc82f1..f92a465 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -347,6 +347,8 @@ def photon_number_moment(mu, cov, indices, hbar=2):
 
     """
     N = len(cov) // 2
+    # a number operator raised to the power zero is the identity
+    indices = {key: power for key, power in indices.items() if power != 0}
     list_indices = [indices[key] for key in indices]
     modes = list(indices)
     # Find the expansion coefficients of all the different powers
-- 
2.43.0


From 34d8e16a2495189056556f16e64e21284cc5c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 17/45] fix: loss_mat does not underflow to zero rows for
 transmissions close to one

---
 thewalrus/quantum/fock_tensors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d4ebcf8..a43ad63 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -452,10 +452,11 @@ def loss_mat(eta, cutoff):  # pragma: no cover
     # Otherwise construct the matrix elements recursively
     lm = np.zeros((cutoff, cutoff))
     mu = 1.0 - eta
-    lm[:, 0] = mu ** (np.arange(cutoff))
-    for i in range(cutoff):
+    lm[:1, :1] = 1.0
+    for i in range(1, cutoff):
+        lm[i, 0] = mu * lm[i - 1, 0]
         for j in range(1, i + 1):
-            lm[i, j] = lm[i, j - 1] * (eta / mu) * (i - j + 1) / (j)
+            lm[i, j] = mu * lm[i - 1, j] + eta * lm[i - 1, j - 1]
     return lm
 
 
-- 
2.43.0


From d631f72e5f3fe3cb8aed2689a562c5f3c4b7154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 18/45] fix: update_probabilities_with_loss for ten or more
 modes and unequal cutoffs

---
 thewalrus/quantum/fock_tensors.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index a43ad63..2e8bf8c 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -479,12 +479,11 @@ def update_probabilities_with_loss(etas, probs):
         )
 
     alphabet = "abcdefghijklmnopqrstuvwxyz"
-    cutoff = probs_shape[0]
     for i, eta in enumerate(etas):
-        einstrings = "ij,{}i...->{}j...".format(alphabet[:i], alphabet[:i])
+        einstrings = "YZ,{}Y...->{}Z...".format(alphabet[:i], alphabet[:i])
 
         qein = np.zeros_like(probs)
-        qein = np.einsum(einstrings, loss_mat(eta, cutoff), probs)
+        qein = np.einsum(einstrings, loss_mat(eta, probs_shape[i]), probs)
         probs = np.copy(qein)
     return qein
 
-- 
2.43.0


From 97ee84c746fd7fbedc2b2167e67144a39b7247c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 19/45] fix: update_probabilities_with_noise uses the cutoff of
 each mode's own axis

---
 thewalrus/quantum/fock_tensors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 2e8bf8c..51707af 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -520,7 +520,6 @@ def update_probabilities_with_noise(probs_noise, probs):
     """
     probs_shape = probs.shape
     num_modes = len(probs_shape)
-    cutoff = probs_shape[0]
     if num_modes != len(probs_noise):
         raise ValueError(
             "The list of probability distributions probs_noise and the tensor of probabilities probs have incompatible dimensions."
@@ -532,7 +531,7 @@ def update_probabilities_with_noise(probs_noise, probs):
         perm[k] = 0
         one_d = probs_noise[k]
         probs_masked = np.transpose(probs, axes=perm)
-        probs_masked = _update_1d(probs_masked, one_d, cutoff)
+        probs_masked = _update_1d(probs_masked, one_d, probs_shape[k])
         probs = np.transpose(probs_masked, axes=perm)
     return probs
 
-- 
2.43.0


From a087c609f4607ecb85aefbb705f1055311bff555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 20/45] fix: n_body_marginals orders the modes numerically, not
 by hash, for nine or more modes

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 51707af..5ca93eb 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -660,7 +660,7 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
     marginal = [np.zeros(([M] * i) + ([cutoff] * i)) for i in range(1, n + 1)]
 
     for ind in product(range(M), repeat=n):
-        modes = list(set(ind))
+        modes = sorted(set(ind))
         acc = len(modes) - 1
         if list(ind) == sorted(ind):
             sub_mean, sub_cov = reduced_state(mean, cov, modes)  # this happens in phase space
-- 
2.43.0


From fa642a01337f6dc54c777605d1520582db7c4ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 21/45] fix: update_probabilities_with_noise of an integer
 probability tensor

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 5ca93eb..fc247f4 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -500,7 +500,7 @@ def _update_1d(probs, one_d, cutoff):  # pragma: no cover
     Returns:
         (array): the convolution of the two arrays, with the same shape as ``probs``.
     """
-    new_d = np.zeros_like(probs)
+    new_d = np.zeros(probs.shape)
     for i in range(cutoff):
         for j in range(min(i + 1, len(one_d))):
             new_d[i] += probs[i - j] * one_d[j]
-- 
2.43.0


From c86e1c91169bf05ac9a1ad180d48c1257c8ce81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 22/45] fix: takagi of a complex diagonal matrix reconstructs
 it for every order of its entries

---
 thewalrus/decompositions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a0e6573..878f2c5 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -209,10 +209,8 @@ def takagi(A, svd_order=True, rtol=1e-16):
         d = np.diag(A)
         l = np.abs(d)
         idx = np.argsort(l)
-        d = d[idx]
         l = l[idx]
-        U = np.diag(np.exp(1j * 0.5 * np.angle(d)))
-        U = U[::-1, :]
+        U = np.diag(np.exp(1j * 0.5 * np.angle(d)))[:, idx]
         if svd_order:
             return l[::-1], U[:, ::-1]
         return l, U
-- 
2.43.0


From 31d5decb5f52e857d7c6ffa96887731976e06552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 23/45] fix: takagi of matrices whose phase matrix has
 degenerate eigenvalues -1

---
 thewalrus/decompositions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 878f2c5..f67bb93 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -216,7 +216,14 @@ def takagi(A, svd_order=True, rtol=1e-16):
         return l, U
 
     u, d, v = np.linalg.svd(A)
-    U = u @ sqrtm((v @ np.conjugate(u)).T)
+    Z = (v @ np.conjugate(u)).T
+    # The square root of the unitary Z is only well conditioned away from its branch cut,
+    # which is therefore rotated into the largest gap of the spectrum of Z
+    theta = np.sort(np.angle(np.linalg.eigvals(Z)))
+    gaps = np.diff(np.append(theta, theta[0] + 2 * np.pi))
+    k = np.argmax(gaps)
+    phase = np.exp(1j * (theta[k] + 0.5 * gaps[k] - np.pi))
+    U = u @ sqrtm(Z / phase) * np.sqrt(phase)
     if svd_order is False:
         return d[::-1], U[:, ::-1]
     return d, U
-- 
2.43.0


From 6d005de6156458bb87209e2f2bce7e92282079aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 24/45] fix: grad_squeezing with cutoff 1 no longer reads
 outside the gate tensor

---
 thewalrus/fock_gradients.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/thewalrus/fock_gradients.py b/thewalrus/fock_gradients.py
index b4a3857..037f90d 100644
--- a/thewalrus/fock_gradients.py
+++ b/thewalrus/fock_gradients.py
@@ -169,15 +169,16 @@ def grad_squeezing(T, r, phi):  # pragma: no cover
     for m in range(cutoff):
         for n in range(cutoff):
             grad_r[m, n] = (
-                -0.5 * tanhr * T[m, n]
-                - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
-                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
-            )
-            grad_phi[m, n] = (
-                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                -0.5 * tanhr * T[m, n] - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
             )
+            if m > 1:
+                Tm = sqrt[m] * sqrt[m - 1] * T[m - 2, n]
+                grad_r[m, n] -= 0.5 * eiphi * sechr**2 * Tm
+                grad_phi[m, n] -= 0.5j * eiphi * tanhr * Tm
+            if n > 1:
+                Tn = sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                grad_r[m, n] += 0.5 * eiphiconj * sechr**2 * Tn
+                grad_phi[m, n] -= 0.5j * eiphiconj * tanhr * Tn
 
     return grad_r, grad_phi
 
-- 
2.43.0


From 690ebb2e36c06a07014a5b3dc4da516f0bc5e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 25/45] fix: samplers use the given hbar in the heterodyne
 covariance and the adjacency matrix

---
 thewalrus/samples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..c894fbb 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -234,8 +234,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -434,8 +434,8 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From e39080b4f00c9a0137f6d823c71a1edf7395c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 26/45] fix: heterodyne fan-out ancillas of the torontonian
 sampler have the variance of vacuum

---
 thewalrus/samples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index c894fbb..c2d0702 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -193,7 +193,9 @@ def get_heterodyne_fanout(alpha, fanout):
     for j in range(M):
         alpha_j = np.zeros(fanout, dtype=np.complex128)
         alpha_j[0] = alpha[j]  # put the coherent state in 0th mode
-        alpha_j[1:] = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        # heterodyne outcomes of vacuum: variance 1/2 in the real and in the imaginary part
+        noise = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        alpha_j[1:] = noise / np.sqrt(2)
 
         alpha_fanout[j, :] = np.fft.fft(alpha_j, norm="ortho")
 
-- 
2.43.0


From 369a7d381cb5619a9a20daa1d6a82538a27c8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 27/45] fix: hafnian samples with any mode at the cutoff are
 rejected, not only the last mode

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index c2d0702..6fdfee7 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -256,7 +256,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
         det_outcome_i = np.random.choice(det_outcomes, p=probs)
         det_pattern[mode] = det_outcome_i
 
-    if det_pattern[order_inv][-1] == cutoff:
+    if (det_pattern == cutoff).any():
         return -1
     if det_pattern[order_inv].sum() > max_photons:
         return -1
-- 
2.43.0


From 1338c8293eb1bd26b18cb3079c0e4f3cf8987bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 28/45] fix: photon_number_sampler with out_of_bounds accepts
 tensors whose sum rounds above one

---
 thewalrus/samples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 6fdfee7..8272f5e 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -715,7 +715,8 @@ def photon_number_sampler(probabilities, num_samples, out_of_bounds=False):
         return np.unravel_index(index, [cutoff] * num_modes)
 
     vals = np.arange(1 + cutoff**num_modes, dtype=int)
-    probabilities = np.append(probabilities.flatten(), 1.0 - sum_p)
+    # rounding can leave the sum of a normalized tensor slightly above one
+    probabilities = np.append(probabilities.flatten(), max(0.0, 1.0 - sum_p))
     return [sorter(np.random.choice(vals, p=probabilities)) for _ in range(num_samples)]
 
 
-- 
2.43.0


From 21d670e37ccd29e321fdf1cca8c76a1383acad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 29/45] fix: adj_scaling_torontonian raises when the graph
 cannot give the requested number of clicks

---
 thewalrus/quantum/adjacency_matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/quantum/adjacency_matrices.py b/thewalrus/quantum/adjacency_matrices.py
index e709051..aa42a87 100644
--- a/thewalrus/quantum/adjacency_matrices.py
+++ b/thewalrus/quantum/adjacency_matrices.py
@@ -62,7 +62,8 @@ def adj_scaling_torontonian(A, c_mean):
 
     res = root_scalar(cost, x0=0.5, bracket=(0.0, 1.0))  # Do the optimization
 
-    if not res.converged:
+    # cost jumps at x=1 when the graph cannot give c_mean clicks, e.g. if it has isolated vertices
+    if not res.converged or abs(cost(res.root)) > 1e-4:
         raise ValueError("The search for a scaling value failed")
     return res.root / vals[0]
 
-- 
2.43.0


From d076c067f62acc9acefd69aaaf0e9155f2963c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 30/45] fix: fidelity checks the shape of the second vector of
 means

---
 thewalrus/quantum/gaussian_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 5f7b75a..02d1909 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -127,7 +127,7 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     n0, n1 = cov1.shape
     m0, m1 = cov2.shape
     (l0,) = mu1.shape
-    (l1,) = mu1.shape
+    (l1,) = mu2.shape
     if not n0 == n1 == m0 == m1 == l0 == l1:
         raise ValueError("The inputs have incompatible shapes")
 
-- 
2.43.0


From 8447c59c11502b5836408bc37b0078f7a107f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 31/45] fix: entanglement measures accept modes_A given as a
 NumPy array of integers

---
 thewalrus/quantum/entanglement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index ba5e0b3..a07027d 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -40,7 +40,7 @@ def get_partition(modes_A, split, M):
         if isinstance(modes_A, int):
             modes_A = [modes_A]
         for mode in modes_A:
-            if not isinstance(mode, int) or mode < 0 or mode > M - 1:
+            if not isinstance(mode, (int, np.integer)) or mode < 0 or mode > M - 1:
                 raise ValueError(
                     f"Every element of 'modes_A' must be an integer between 0 and {M - 1}"
                 )
-- 
2.43.0


From 507c2abd811ef4edc02422d25c486aa25c890e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 32/45] fix: entanglement measures reject a negative split

---
 thewalrus/quantum/entanglement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index a07027d..00c99f6 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -46,7 +46,7 @@ def get_partition(modes_A, split, M):
                 )
 
     if modes_A is None and split is not None:
-        if not isinstance(split, int) or split > M - 1:
+        if not isinstance(split, int) or split < 0 or split > M - 1:
             raise ValueError("'split' must be an integer smaller than the number of modes.")
         modes_A = range(split)
 
-- 
2.43.0


From 16d317d889b522d1553d97a099c05dc39b906b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 33/45] fix: total photon number distribution is finite for all
 arguments

---
 .../quantum/photon_number_distributions.py    | 36 +++++++++----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index e3ad3da..6e2b31f 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -17,7 +17,7 @@ Functions for calculating the photon number distributions of various states.
 
 import numpy as np
 from scipy.stats import nbinom
-from scipy.special import binom, hyp2f1
+from scipy.special import gammaln, logsumexp, xlogy
 
 from .conversions import Amat
 from .gaussian_checks import is_pure_cov
@@ -111,25 +111,23 @@ def total_photon_number_distribution(n, k, s, eta, pref=1.0):
     Returns:
         (float): probability of observing a total of ``n`` photons or the probability times ``pref ** n``.
     """
-    if n % 2 == 0:
-        peven = (
-            binom(-1 + k / 2.0 + n / 2.0, n / 2.0)
-            * hyp2f1(0.5 + n / 2.0, k / 2.0 + n / 2.0, 0.5, (1 - eta) ** 2 * np.tanh(s) ** 2)
-            * (1 / np.cosh(s)) ** k
-            * (pref * eta * np.tanh(s)) ** n
-        )
-        return peven
-
-    podd = (
-        (1 + n)
-        * (1 - eta)
-        * binom((-1 + k + n) / 2.0, (1 + n) / 2.0)
-        * hyp2f1((2 + n) / 2.0, (1 + k + n) / 2.0, 1.5, (1 - eta) ** 2 * np.tanh(s) ** 2)
-        * (1 / np.cosh(s)) ** k
-        * np.tanh(s)
-        * (pref * eta * np.tanh(s)) ** n
+    # The generating function of the distribution is a power of a polynomial of degree two in
+    # its argument; its coefficients are sums of non-negative terms, added up here in log space
+    # since neither the terms nor the probabilities have to be representable.
+    tanh2 = np.tanh(s) ** 2
+    vac = (1 + np.sinh(s) ** 2 * eta * (2 - eta)) / np.cosh(s) ** 2
+    j = np.arange(n // 2 + 1)
+    log_terms = (
+        gammaln(0.5 * k + n - j)
+        - gammaln(0.5 * k)
+        - gammaln(n - 2 * j + 1)
+        - gammaln(j + 1)
+        + xlogy(n - 2 * j, 2 * tanh2 * eta * (1 - eta) / vac)
+        + xlogy(j, tanh2 * eta**2 / vac)
     )
-    return podd
+    log_prob = logsumexp(log_terms) - 0.5 * k * np.log1p(np.sinh(s) ** 2 * eta * (2 - eta))
+    sign = 1 if pref >= 0 else (-1) ** n
+    return sign * np.exp(log_prob + xlogy(n, abs(pref)))
 
 
 def characteristic_function(
-- 
2.43.0


From df88260ab7b1cf713e4c3739f245c0054ac14d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 34/45] fix: distinguishable squeezers in rectangular
 transmission matrices

---
 thewalrus/quantum/distinguishable_squeezers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thewalrus/quantum/distinguishable_squeezers.py b/thewalrus/quantum/distinguishable_squeezers.py
index 1857b01..c0f07d9 100644
--- a/thewalrus/quantum/distinguishable_squeezers.py
+++ b/thewalrus/quantum/distinguishable_squeezers.py
@@ -34,11 +34,11 @@ def sample(T, rs, n_samples=100, input_cutoff=50):
     Returns:
         outputs (array): resultant samples
     """
-    M = T.shape[0]
+    M, N = T.shape
     abs2T = (T * T.conj()).real
 
     detection_probs = abs2T.sum(0)
-    probs = np.array([abs2T[:, i] / detection_probs[i] for i in range(M)])
+    probs = np.array([abs2T[:, i] / detection_probs[i] for i in range(N)])
 
     p_n = np.array([_squeezed_state_distribution(r, cutoff=input_cutoff) for r in rs])
     p_n = np.array([p / p.sum() for p in p_n])
@@ -46,7 +46,7 @@ def sample(T, rs, n_samples=100, input_cutoff=50):
     outputs = np.empty((n_samples, M), dtype=np.int64)
     for samp in range(n_samples):
         output = np.zeros(M, dtype=np.int64)
-        for i in range(M):
+        for i in range(N):
             n = np.random.choice(np.arange(input_cutoff), p=p_n[i])
             n_detected = np.random.binomial(n, min(1, detection_probs[i]))
             if n_detected > 0:
@@ -69,9 +69,9 @@ def number_means(T, rs):
     Returns:
         (array): resultant mean photon numbers
     """
-    n = len(rs)
+    m, n = T.shape
     return np.array(
-        [np.sum([(np.sinh(rs[k]) * np.abs(T[i, k])) ** 2 for k in range(n)]) for i in range(n)]
+        [np.sum([(np.sinh(rs[k]) * np.abs(T[i, k])) ** 2 for k in range(n)]) for i in range(m)]
     )
 
 
-- 
2.43.0


From d9c772bae4d0babf8bd6520fa57b09f0b2264435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 35/45] fix: grouped click probabilities average over
 num_groups groups only

---
 thewalrus/grouped_click_probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..01af77a 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -37,7 +37,7 @@ def grouped_click_probabilities(
     bcc = np.zeros(num_modes + 1, dtype=np.float64)
     qcc = np.zeros(num_modes + 1, dtype=np.float64)
     fix = np.zeros(num_modes + 1, dtype=np.float64)
-    for j in range(num_samples):
+    for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
         alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-- 
2.43.0


From cf67e51818d4ffb5cffd6cbeaacdd476b5fc33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 36/45] fix: grouped click errors are not NaN when rounding
 makes the variance negative

---
 thewalrus/grouped_click_probabilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index 01af77a..fbbb925 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -52,7 +52,8 @@ def grouped_click_probabilities(
             bcc = bcc + (acc - fix) / samp_per_group
             qcc = qcc + ((acc - fix) / samp_per_group) ** 2
             fix = acc
-    return bcc / num_groups, (qcc / num_groups - (bcc / num_groups) ** 2) ** 0.5
+    variance = np.maximum(qcc / num_groups - (bcc / num_groups) ** 2, 0.0)
+    return bcc / num_groups, variance**0.5
 
 
 @jit(nopython=True)
-- 
2.43.0


From a032054b3af1fbda9480a73b8b76d0cce79d2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 37/45] fix: grouped click probabilities accept real and wide
 transfer matrices

---
 thewalrus/grouped_click_probabilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index fbbb925..5ab15f5 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -23,7 +23,8 @@ def grouped_click_probabilities(
     """
     np.random.seed(seed)
     samp_per_group = num_samples // num_groups
-    num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
+    num_modes, num_input = t_matrix.shape
+    tmat = t_matrix.astype(np.complex128)
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
     delta = 2 * np.pi / (num_modes + 1)
@@ -40,8 +41,8 @@ def grouped_click_probabilities(
     for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
-        alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-        beta = t_matrix.conj() @ (drp * wrp - 1j * drm * wrm)
+        alpha = tmat @ (drp * wrp + 1j * drm * wrm)
+        beta = tmat.conj() @ (drp * wrp - 1j * drm * wrm)
         gth = np.empty(num_modes + 1, dtype=np.complex128)
         for k in range(num_modes + 1):
             gth[k] = np.prod(
-- 
2.43.0


From 5247b8e1194a0dceb8b16f3b491a4eb928c01b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 38/45] fix: memoized honours the maximum size of its cache

---
 thewalrus/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index 9bd2e04..e4e795e 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -108,7 +108,7 @@ def memoized(f, maxsize=MAXSIZE):
     Returns:
         function or generator: the memoized function or generator
     """
-    cache = LimitedSizeDict(maxsize=maxsize)
+    cache = LimitedSizeDict(size_limit=maxsize)
 
     @functools.wraps(f)
     def ret(*args):
-- 
2.43.0


From ef079d4bf8a4e047764127189611956f5448818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 39/45] fix: memoized generators can be consumed in several
 threads and survive exceptions

---
 thewalrus/reference.py | 56 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index e4e795e..c2a9877 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -62,11 +62,11 @@ import functools
 
 # pylint: disable=too-many-arguments
 from collections import OrderedDict
-from itertools import tee, product, permutations, chain
+from itertools import islice, product, permutations, chain
+from threading import RLock
 from types import GeneratorType
 
 MAXSIZE = 1000
-Tee = tee([], 1)[0].__class__
 
 
 class LimitedSizeDict(OrderedDict):  # pragma: no cover
@@ -89,6 +89,38 @@ class LimitedSizeDict(OrderedDict):  # pragma: no cover
                 self.popitem(last=False)
 
 
+class Replay:
+    r"""Replays the items of a generator, which is advanced on demand only, to any
+    number of iterators. These can be used in several threads.
+
+    Args:
+        gen (generator): the generator to replay
+        restart (function): returns the same generator again, called when an
+            exception ended the generator early
+    """
+
+    def __init__(self, gen, restart):
+        self.gen = gen
+        self.restart = restart
+        self.items = []
+        self.lock = RLock()
+
+    def __iter__(self):
+        i = 0
+        while True:
+            with self.lock:
+                if i == len(self.items):
+                    try:
+                        self.items.append(next(self.gen))
+                    except StopIteration:
+                        return
+                    except BaseException:
+                        self.gen = islice(self.restart(), len(self.items), None)
+                        raise
+            yield self.items[i]
+            i += 1
+
+
 def memoized(f, maxsize=MAXSIZE):
     r"""Decorator used to memoize a generator.
 
@@ -110,16 +142,20 @@ def memoized(f, maxsize=MAXSIZE):
     """
     cache = LimitedSizeDict(size_limit=maxsize)
 
+    lock = RLock()
+
     @functools.wraps(f)
     def ret(*args):
-        if args not in cache:
-            cache[args] = f(*args)
-        if isinstance(cache[args], (GeneratorType, Tee)):
-            # the original can't be used any more,
-            # so we need to change the cache as well
-            cache[args], r = tee(cache[args])
-            return r
-        return cache[args]
+        with lock:
+            if args not in cache:
+                res = f(*args)
+                # the original generator can only be used once, so the cache holds
+                # an object that can be iterated over any number of times
+                if isinstance(res, GeneratorType):
+                    res = Replay(res, functools.partial(f, *args))
+                cache[args] = res
+            res = cache[args]
+        return iter(res) if isinstance(res, Replay) else res
 
     return ret
 
-- 
2.43.0


From b109b1f54bde26c669e9ca2a6e9230e108c4b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 40/45] fix: memoized functions accept keyword arguments

---
 thewalrus/reference.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index c2a9877..fc7b731 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -145,16 +145,17 @@ def memoized(f, maxsize=MAXSIZE):
     lock = RLock()
 
     @functools.wraps(f)
-    def ret(*args):
+    def ret(*args, **kwargs):
+        key = (args, tuple(sorted(kwargs.items())))
         with lock:
-            if args not in cache:
-                res = f(*args)
+            if key not in cache:
+                res = f(*args, **kwargs)
                 # the original generator can only be used once, so the cache holds
                 # an object that can be iterated over any number of times
                 if isinstance(res, GeneratorType):
-                    res = Replay(res, functools.partial(f, *args))
-                cache[args] = res
-            res = cache[args]
+                    res = Replay(res, functools.partial(f, *args, **kwargs))
+                cache[key] = res
+            res = cache[key]
         return iter(res) if isinstance(res, Replay) else res
 
     return ret
-- 
2.43.0


From 5a94be3d94b2f4b6a4ca537cf857eaf2e5782c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:35 +0000
Subject: [PATCH 41/45] fix: partitions of the low rank hafnian are not shared
 between callers

---
 thewalrus/_low_rank_haf.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index 86963f2..5da95e4 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -16,13 +16,23 @@ Algorithms for hafnians of low-rank matrices.
 """
 
 from functools import lru_cache
-from itertools import product
 import numpy as np
 from sympy import symbols, expand
 from scipy.special import factorial2
 
 
 @lru_cache(maxsize=1000000)
+def _partitions(r, n):
+    """Memoized implementation of :func:`partitions`, which returns tuples as the
+    same object is returned to every caller."""
+    if r == 1:
+        return ((n,),)
+
+    return tuple(
+        (first_val,) + p for first_val in range(n + 1) for p in _partitions(r - 1, n - first_val)
+    )
+
+
 def partitions(r, n):
     r"""Returns a list of lists with the r-partitions of the integer :math:`n`, i.e. the r-tuples of non-negative
     integers such that their sum is precisely :math:`n`.
@@ -36,15 +46,7 @@ def partitions(r, n):
     Returns:
         list: r-partitions of n.
     """
-    if r == 1:
-        return [[n]]
-
-    new_combos = []
-    for first_val in range(n + 1):
-        rest = partitions(r - 1, n - first_val)
-        new = [p[0] + p[1] for p in product([[first_val]], rest)]
-        new_combos += new
-    return new_combos
+    return [list(p) for p in _partitions(r, n)]
 
 
 def low_rank_hafnian(G):
-- 
2.43.0


From f88e0e35e89fba3f4e7fb7e77b9c2b0aced3b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 42/45] fix: hermite_multidimensional and hafnian_batched
 forward rtol and atol

The matrix was validated again in the inner call with the default
tolerances, so that matrices symmetric within the tolerances given by the
caller were rejected.
---
 thewalrus/_hermite_multidimensional.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 51023b1..cd0a212 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -74,7 +74,15 @@ def hermite_multidimensional(
         if m == n:
             ym = R @ y
             return hermite_multidimensional(
-                R, cutoff, y=ym, C=C, renorm=renorm, make_tensor=make_tensor, modified=True
+                R,
+                cutoff,
+                y=ym,
+                C=C,
+                renorm=renorm,
+                make_tensor=make_tensor,
+                modified=True,
+                rtol=rtol,
+                atol=atol,
             )
 
     if y is None:
@@ -220,7 +228,14 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
     # The minus signs are intentional and are due to the fact that
     # Dodonov et al. in PRA 50, 813 (1994) use (p,q) ordering instead of (q,p) ordering
     return hermite_multidimensional(
-        -A, cutoff, y=mu, renorm=renorm, make_tensor=make_tensor, modified=True
+        -A,
+        cutoff,
+        y=mu,
+        renorm=renorm,
+        make_tensor=make_tensor,
+        modified=True,
+        rtol=rtol,
+        atol=atol,
     )
 
 
-- 
2.43.0


From 516d6d85976138dba852c8714233ec6cd6e141ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 43/45] fix: hafnian_repeated checks the length of mu before
 its shortcuts

A vector of means of the wrong length was accepted, and even broadcast,
when all repetitions are zero, the total is odd or the matrix is zero.
---
 thewalrus/_hafnian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 238ef89..2a6cc4e 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -916,6 +916,9 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
     if not np.all(np.mod(rpt, 1) == 0) or np.any(nud < 0):
         raise ValueError("the rpt argument must contain non-negative integers.")
 
+    if mu is not None and len(mu) != len(A):
+        raise ValueError("Length of means vector must be the same length as the matrix A.")
+
     if np.all(nud == 0):
         return 1.0
 
@@ -930,9 +933,6 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
             return np.prod(mu**rpt)
         return 0
 
-    if len(mu) != len(A):
-        raise ValueError("Length of means vector must be the same length as the matrix A.")
-
     if loop:
         return loop_hafnian(A, D=mu, reps=rpt, glynn=glynn)
 
-- 
2.43.0


From 787692f6c56bcff50b50db10a00236865b65722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 44/45] fix: reduced_state and reduced_gaussian reject negative
 modes

A negative mode m indexed the quadratures m and m + N, that is the p
quadrature of one mode followed by its x quadrature.
---
 thewalrus/quantum/conversions.py | 3 +++
 thewalrus/symplectic.py          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index d5856e5..024d336 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -41,6 +41,9 @@ def reduced_gaussian(mu, cov, modes):
     if np.any(np.array(modes) >= N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
+    if np.any(np.array(modes) < 0):
+        raise ValueError("The specified modes cannot be negative.")
+
     if np.array_equal(modes, np.arange(N)):
         # reduced state is full state
         return mu, cov
diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index fcdc461..0784e64 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -186,6 +186,9 @@ def reduced_state(mu, cov, modes):
     if np.any(np.array(modes) >= N):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
+    if np.any(np.array(modes) < 0):
+        raise ValueError("The specified modes cannot be negative.")
+
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
     rows = ind.reshape(-1, 1)
     cols = ind.reshape(1, -1)
-- 
2.43.0


From a6fb96bf07d10adc85b08c95e9a9bac5392d9bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 45/45] fix: loop_hafnian checks the lengths of its arguments
 before its shortcuts

Loops or repetitions of the wrong length were accepted when at most one
vertex remains.
---
 thewalrus/_hafnian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 2a6cc4e..b7a7527 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -602,6 +602,10 @@ def loop_hafnian(A, D=None, reps=None, glynn=True):
     if D is None:
         D = A.diagonal()
 
+    assert n == len(reps)
+
+    assert D.shape[0] == n
+
     N = sum(reps)
 
     if N == 0:
@@ -610,10 +614,6 @@ def loop_hafnian(A, D=None, reps=None, glynn=True):
     if N == 1:
         return D[np.where(np.array(reps) == 1)[0][0]]
 
-    assert n == len(reps)
-
-    assert D.shape[0] == n
-
     x, edge_reps, oddmode = matched_reps(reps)
 
     # Make new A matrix and D vector using the ordering from above
-- 
2.43.0

