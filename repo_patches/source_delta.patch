From 0850ae006a5b2607cf9f7c7b75f22894a4b3b2da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/61] fix: hafnian_sparse and hafnian_banded of an empty
 matrix or empty subset are 1

---
 thewalrus/_hafnian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ec97e1b..33327a6 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -840,6 +840,9 @@ def hafnian_sparse(A, D=None, loop=False):
     if not loop:
         A = A - np.diag(np.diag(A))
 
+    if not D:
+        return 1.0
+
     if np.allclose(A, 0):
         return 0.0
 
@@ -949,6 +952,8 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
     """
     input_validation(A, atol=atol, rtol=rtol)
     (n, _) = A.shape
+    if n == 0:
+        return 1
     w = bandwidth(A)
     if not loop:
         A = A - np.diag(np.diag(A))
-- 
2.43.0


From 5d2605653e13fcd3d2e52a6246ba08a17e9243fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/61] fix: low_rank_hafnian of an empty matrix is 1

---
 thewalrus/_low_rank_haf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index defb4d0..86963f2 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -66,6 +66,8 @@ def low_rank_hafnian(G):
     n, r = G.shape
     if n % 2 != 0:
         return 0
+    if n == 0:
+        return 1.0
     if r == 1:
         return factorial2(n - 1, extend="complex") * np.prod(G)
     poly = 1
-- 
2.43.0


From 7e149c4e4897145daa50a19bc37e5403754d94e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 03/61] fix: renormalized Hermite tensors read past the square
 root table for cutoffs above 1000

---
 thewalrus/_hermite_multidimensional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2454140..4005f3b 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -244,9 +244,6 @@ def remove(
             yield p, dec(pattern, p)
 
 
-SQRT = np.sqrt(np.arange(1000))  # saving the time to recompute square roots
-
-
 @jit(nopython=True)
 def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     r"""Numba-compiled function to fill an array with the Hermite polynomials. It expects an array
@@ -260,6 +257,7 @@ def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     Returns:
         array[complex]: the multidimensional Hermite polynomials
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -318,6 +316,7 @@ def _interferometer_renorm(R, G):  # pragma: no cover
     dim, _ = R.shape
     num_modes = dim / 2
 
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -433,6 +432,7 @@ def _grad_hermite_multidimensional_renorm(R, y, G, dG_dR, dG_dy):  # pragma: no
     Returns:
         dG_dR[complex], dG_dy[complex]: the gradients of the renormalized multidimensional Hermite polynomials with respect to R and y
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
-- 
2.43.0


From b07e6098ae73899730501888b915168bc8c07d92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 04/61] fix: renormalized Hermite tensors of integer input were
 truncated to integers

---
 thewalrus/_hermite_multidimensional.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 4005f3b..62f2fa4 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -97,6 +97,8 @@ def hermite_multidimensional(
     yt = np.real_if_close(y)
 
     dtype = np.result_type(Rt, yt, C)
+    if renorm:
+        dtype = np.result_type(dtype, np.float64)
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
@@ -154,6 +156,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     Rt = np.real_if_close(R)
 
     dtype = np.result_type(Rt, C)
+    if renorm:
+        dtype = np.result_type(dtype, np.float64)
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From 72c1d1221e0a29d92fceab73355bd0f6ae78c3df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 05/61] fix: interferometer ignored make_tensor=False

---
 thewalrus/_hermite_multidimensional.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 62f2fa4..269a21f 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -143,7 +143,7 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     """
 
     input_validation(R, atol=atol, rtol=rtol)
-    n, num_indices = R.shape
+    num_indices = R.shape[0]
 
     # we want to catch np.ndarray(int) of ndim=0 which cannot be cast to tuple
     if isinstance(cutoff, np.ndarray) and (cutoff.ndim == 0 or len(cutoff) == 1):
@@ -166,9 +166,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     else:
         values = np.array(_interferometer(Rt, array))
 
-    if make_tensor:
-        shape = cutoff * np.ones([n], dtype=int)
-        values = np.reshape(values, shape)
+    if not make_tensor:
+        values = values.flatten()
 
     return values
 
-- 
2.43.0


From 81238dae9442e887a8cf787a24c9a4da1078f76e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 06/61] fix: Hermite functions dropped the caller's symmetry
 tolerances

---
 thewalrus/_hermite_multidimensional.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 269a21f..0679641 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -74,7 +74,15 @@ def hermite_multidimensional(
         if m == n:
             ym = R @ y
             return hermite_multidimensional(
-                R, cutoff, y=ym, C=C, renorm=renorm, make_tensor=make_tensor, modified=True
+                R,
+                cutoff,
+                y=ym,
+                C=C,
+                renorm=renorm,
+                make_tensor=make_tensor,
+                modified=True,
+                rtol=rtol,
+                atol=atol,
             )
 
     if y is None:
@@ -215,7 +223,14 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
     # The minus signs are intentional and are due to the fact that
     # Dodonov et al. in PRA 50, 813 (1994) use (p,q) ordering instead of (q,p) ordering
     return hermite_multidimensional(
-        -A, cutoff, y=mu, renorm=renorm, make_tensor=make_tensor, modified=True
+        -A,
+        cutoff,
+        y=mu,
+        renorm=renorm,
+        make_tensor=make_tensor,
+        modified=True,
+        rtol=rtol,
+        atol=atol,
     )
 
 
-- 
2.43.0


From d13889579d2c0ef705b5fe8e27e6d354d4d69510 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 07/61] fix: batched loop hafnians returned zero for N_cutoff=0
 with an odd number of fixed photons

---
 thewalrus/loop_hafnian_batch.py       | 3 +++
 thewalrus/loop_hafnian_batch_gamma.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/thewalrus/loop_hafnian_batch.py b/thewalrus/loop_hafnian_batch.py
index e46fbd2..561ae78 100644
--- a/thewalrus/loop_hafnian_batch.py
+++ b/thewalrus/loop_hafnian_batch.py
@@ -296,6 +296,9 @@ def loop_hafnian_batch(A, D, fixed_reps, N_cutoff, glynn=True):
         return _calc_loop_hafnian_batch_even(
             Ax, Dx, fixed_m_reps, batch_max, odd_cutoff, glynn=glynn
         )
+    if N_cutoff == 0:
+        # the kernel below needs room for at least one photon in the batched mode
+        return loop_hafnian_batch(A, D, fixed_reps, 1, glynn=glynn)[:1]
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[edges].astype(np.complex128)
diff --git a/thewalrus/loop_hafnian_batch_gamma.py b/thewalrus/loop_hafnian_batch_gamma.py
index 35f630a..3790fbf 100644
--- a/thewalrus/loop_hafnian_batch_gamma.py
+++ b/thewalrus/loop_hafnian_batch_gamma.py
@@ -259,6 +259,9 @@ def loop_hafnian_batch_gamma(A, D, fixed_reps, N_cutoff, glynn=True):
         return _calc_loop_hafnian_batch_gamma_even(
             Ax, Dx, fixed_m_reps, batch_max, odd_cutoff, glynn=glynn
         )
+    if N_cutoff == 0:
+        # the kernel below needs room for at least one photon in the batched mode
+        return loop_hafnian_batch_gamma(A, D, fixed_reps, 1, glynn=glynn)[:, :1]
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[:, edges].astype(np.complex128)
-- 
2.43.0


From 1cabfc17404fd937ddf2d40a3728cb62f9ea669b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 08/61] fix: ubrs dropped the empty subset, which contributes
 when there are no photons

---
 thewalrus/_permanent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..bea1f5c 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -241,7 +241,7 @@ def ubrs(A):  # pragma: no cover
     steps = 2**m
     ones = np.ones(m, dtype=np.int8)
     total = 0
-    for j in prange(1, steps):
+    for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
         Az = A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
-- 
2.43.0


From cf70377589459b44b108c8eb2a11eff79eddc029 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 09/61] fix: charpoly and powertrace of 0x0 and 1x1 matrices
 wrote out of bounds and returned extra entries

---
 thewalrus/charpoly.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..0e67632 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -212,9 +212,11 @@ def _charpoly(H, k):  # pragma: no cover
     """
     n = len(H)
     c = np.zeros_like(H)
-    c[mlo(1, 1)] = -alpha(H, 1)
-    c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
-    c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
+    if n > 0:
+        c[mlo(1, 1)] = -alpha(H, 1)
+    if n > 1:
+        c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
+        c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
 
     for i in range(3, k + 1):
         c[mlo(i, 1)] = c[mlo(i - 1, 1)] - alpha(H, i)
@@ -316,10 +318,10 @@ def powertrace(H, n):  # pragma: no cover
     for _ in range(min_val - 2):
         A = A @ H
         pow_traces.append(np.trace(A))
-    if n <= m:
-        return np.array(pow_traces, dtype=H.dtype)
+    if n <= m or n <= 2:
+        return np.array(pow_traces[:n], dtype=H.dtype)
     char_pol = charpoly(H)
-    for _ in range(min_val, n):
+    for _ in range(len(pow_traces), n):
         ssum = 0
         for k in range(m):
             ssum -= char_pol[k] * pow_traces[-k - 1]
-- 
2.43.0


From d9d3cbddec6aa7c2bff36116b83050e311e270d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 10/61] fix: charpoly and powertrace overwrote the caller's
 matrix

---
 thewalrus/charpoly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 0e67632..0ae2e22 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -295,8 +295,9 @@ def charpoly(H):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     n = len(H)
-    reduce_matrix_to_hessenberg(H)
-    coeff = _charpoly(H, n)
+    hess = H.copy()
+    reduce_matrix_to_hessenberg(hess)
+    coeff = _charpoly(hess, n)
     return coeff
 
 
-- 
2.43.0


From fb9a3c103513237a31983531201aef47c1129c3c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 11/61] fix: fock_prob and fock_threshold_prob failed on the
 vacuum

---
 thewalrus/_permanent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index bea1f5c..69cacad 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -266,8 +266,8 @@ def fock_prob(n, m, U):
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
-    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
+    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])), dtype=int)
 
     Umn = U[np.ix_(out_modes, in_modes)]
 
@@ -305,7 +305,7 @@ def fock_threshold_prob(n, d, T):
 
     fac_prod = np.prod(factorial(n), dtype=np.float64)
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
     C = np.where(d > 0)[0]
 
     A = T[np.ix_(C, in_modes)]
-- 
2.43.0


From da627071e25fa8ab1e87692e3782e866995321db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 12/61] fix: reduced_gaussian ignored the requested mode order
 when all modes were kept

---
 thewalrus/quantum/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index e979cd2..a30906e 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -41,7 +41,7 @@ def reduced_gaussian(mu, cov, modes):
     if np.any(np.array(modes) > N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
-    if len(modes) == N:
+    if list(modes) == list(range(N)):
         # reduced state is full state
         return mu, cov
 
-- 
2.43.0


From 5e6b3bfbe10ac3a18cff3dd61f78890b4c3d116a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 13/61] fix: photon_number_moment returned zero when a power
 was zero

---
 thewalrus/quantum/means_and_variances.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 8fc82f1..36ba01e 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -347,6 +347,7 @@ def photon_number_moment(mu, cov, indices, hbar=2):
 
     """
     N = len(cov) // 2
+    indices = {key: power for key, power in indices.items() if power != 0}
     list_indices = [indices[key] for key in indices]
     modes = list(indices)
     # Find the expansion coefficients of all the different powers
-- 
2.43.0


From ad571f253c098ab8a4f42f01af53f91d0875fc85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 14/61] fix: n_body_marginals misordered three-body marginals
 and those of modes above 7

---
 thewalrus/quantum/fock_tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d4ebcf8..b5c6d0c 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -661,13 +661,13 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
     marginal = [np.zeros(([M] * i) + ([cutoff] * i)) for i in range(1, n + 1)]
 
     for ind in product(range(M), repeat=n):
-        modes = list(set(ind))
+        modes = sorted(set(ind))
         acc = len(modes) - 1
         if list(ind) == sorted(ind):
             sub_mean, sub_cov = reduced_state(mean, cov, modes)  # this happens in phase space
             marginal[acc][tuple(modes)] = probabilities(sub_mean, sub_cov, cutoff, hbar=hbar)
         else:
             modes_usrt = list(OrderedDict.fromkeys(ind))
-            perm = np.argsort(modes_usrt)
+            perm = [modes.index(mode) for mode in modes_usrt]
             marginal[acc][tuple(modes_usrt)] = marginal[acc][tuple(modes)].transpose(perm)
     return marginal
-- 
2.43.0


From adaa8269c2378771a3d28261ccf43f11a05ec333 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 15/61] fix: loss_mat lost all probability for transmissions
 close to 1

---
 thewalrus/quantum/fock_tensors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index b5c6d0c..badcce7 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -449,13 +449,13 @@ def loss_mat(eta, cutoff):  # pragma: no cover
     if eta == 1.0:
         return np.identity(cutoff)
 
-    # Otherwise construct the matrix elements recursively
+    # Otherwise construct the matrix elements recursively, one photon at a time
     lm = np.zeros((cutoff, cutoff))
     mu = 1.0 - eta
     lm[:, 0] = mu ** (np.arange(cutoff))
-    for i in range(cutoff):
+    for i in range(1, cutoff):
         for j in range(1, i + 1):
-            lm[i, j] = lm[i, j - 1] * (eta / mu) * (i - j + 1) / (j)
+            lm[i, j] = mu * lm[i - 1, j] + eta * lm[i - 1, j - 1]
     return lm
 
 
-- 
2.43.0


From 72c2de6ab32faf79e31c1b0ef1eda09b6d41826d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 16/61] fix: update_probabilities_with_loss used the cutoff of
 the first mode for all modes

---
 thewalrus/quantum/fock_tensors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index badcce7..2cd63e9 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -478,12 +478,11 @@ def update_probabilities_with_loss(etas, probs):
         )
 
     alphabet = "abcdefghijklmnopqrstuvwxyz"
-    cutoff = probs_shape[0]
     for i, eta in enumerate(etas):
         einstrings = "ij,{}i...->{}j...".format(alphabet[:i], alphabet[:i])
 
         qein = np.zeros_like(probs)
-        qein = np.einsum(einstrings, loss_mat(eta, cutoff), probs)
+        qein = np.einsum(einstrings, loss_mat(eta, probs_shape[i]), probs)
         probs = np.copy(qein)
     return qein
 
-- 
2.43.0


From 62230603919638c60f7350e4876ecfb86bcbdd36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 17/61] fix: update_probabilities_with_noise used the cutoff of
 the first mode for all modes

---
 thewalrus/quantum/fock_tensors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 2cd63e9..cfc9f4b 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -519,7 +519,6 @@ def update_probabilities_with_noise(probs_noise, probs):
     """
     probs_shape = probs.shape
     num_modes = len(probs_shape)
-    cutoff = probs_shape[0]
     if num_modes != len(probs_noise):
         raise ValueError(
             "The list of probability distributions probs_noise and the tensor of probabilities probs have incompatible dimensions."
@@ -531,7 +530,7 @@ def update_probabilities_with_noise(probs_noise, probs):
         perm[k] = 0
         one_d = probs_noise[k]
         probs_masked = np.transpose(probs, axes=perm)
-        probs_masked = _update_1d(probs_masked, one_d, cutoff)
+        probs_masked = _update_1d(probs_masked, one_d, probs_shape[k])
         probs = np.transpose(probs_masked, axes=perm)
     return probs
 
-- 
2.43.0


From 25d53cf4a1712894e5ba8b7fb7e1cd7407ae53dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 18/61] fix: update_probabilities_with_noise truncated integer
 tensors to integers

---
 thewalrus/quantum/fock_tensors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index cfc9f4b..60a19d7 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -524,6 +524,7 @@ def update_probabilities_with_noise(probs_noise, probs):
             "The list of probability distributions probs_noise and the tensor of probabilities probs have incompatible dimensions."
         )
 
+    probs = np.asarray(probs, dtype=np.float64)
     for k in range(num_modes):  # update one mode at a time
         perm = np.arange(num_modes)
         perm[0] = k
-- 
2.43.0


From 17ecf1045b62ec754c1ae1c7da771bd4dc74cdf4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 19/61] fix: density_matrix_element added array indices instead
 of joining them

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 60a19d7..f88acbb 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -206,7 +206,7 @@ def density_matrix_element(mu, cov, i, j, include_prefactor=True, tol=1e-10, hba
     Returns:
         complex: the density matrix element
     """
-    rpt = i + j
+    rpt = list(i) + list(j)
     beta = complex_to_real_displacements(mu, hbar=hbar)
     A = Amat(cov, hbar=hbar)
     if np.linalg.norm(beta) < tol:
-- 
2.43.0


From 14f5831a49058b16d4ae76b879a7b1d1cb7ae39f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 20/61] fix: grad_squeezing read out of bounds for cutoff 1

---
 thewalrus/fock_gradients.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/thewalrus/fock_gradients.py b/thewalrus/fock_gradients.py
index b4a3857..a45d7a9 100644
--- a/thewalrus/fock_gradients.py
+++ b/thewalrus/fock_gradients.py
@@ -169,15 +169,16 @@ def grad_squeezing(T, r, phi):  # pragma: no cover
     for m in range(cutoff):
         for n in range(cutoff):
             grad_r[m, n] = (
-                -0.5 * tanhr * T[m, n]
-                - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
-                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
-            )
-            grad_phi[m, n] = (
-                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                -0.5 * tanhr * T[m, n] - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
             )
+            if m > 1:
+                t_m = sqrt[m] * sqrt[m - 1] * T[m - 2, n]
+                grad_r[m, n] -= 0.5 * eiphi * sechr**2 * t_m
+                grad_phi[m, n] -= 0.5j * eiphi * tanhr * t_m
+            if n > 1:
+                t_n = sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                grad_r[m, n] += 0.5 * eiphiconj * sechr**2 * t_n
+                grad_phi[m, n] -= 0.5j * eiphiconj * tanhr * t_n
 
     return grad_r, grad_phi
 
-- 
2.43.0


From 58252f7fd9a960a3f82fdc96fdd70c6b22c814da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 21/61] fix: takagi permuted the wrong rows for complex
 diagonal matrices

---
 thewalrus/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a0e6573..a52d2cd 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -211,8 +211,7 @@ def takagi(A, svd_order=True, rtol=1e-16):
         idx = np.argsort(l)
         d = d[idx]
         l = l[idx]
-        U = np.diag(np.exp(1j * 0.5 * np.angle(d)))
-        U = U[::-1, :]
+        U = np.eye(n)[:, idx] * np.exp(1j * 0.5 * np.angle(d))
         if svd_order:
             return l[::-1], U[:, ::-1]
         return l, U
-- 
2.43.0


From 1cec7fe5833d8fe97f52c29b8419799e3c10c000 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 22/61] fix: takagi failed when the square root met its branch
 cut

---
 thewalrus/decompositions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a52d2cd..fce720f 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -217,7 +217,12 @@ def takagi(A, svd_order=True, rtol=1e-16):
         return l, U
 
     u, d, v = np.linalg.svd(A)
-    U = u @ sqrtm((v @ np.conjugate(u)).T)
+    Z = (v @ np.conjugate(u)).T
+    # The branch cut of the square root is placed in the largest gap of the spectrum of the unitary Z
+    angles = np.sort(np.angle(np.linalg.eigvals(Z)))
+    gaps = np.diff(np.append(angles, angles[0] + 2 * np.pi))
+    phase = angles[np.argmax(gaps)] + 0.5 * np.max(gaps) - np.pi
+    U = u @ sqrtm(np.exp(-1j * phase) * Z) * np.exp(0.5j * phase)
     if svd_order is False:
         return d[::-1], U[:, ::-1]
     return d, U
-- 
2.43.0


From 00989cdfa03afd39a406f5ff1d8ebbe4845f2bc2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 23/61] fix: expand_vector truncated integer displacements to
 integers

---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 93d1414..354a288 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -126,7 +126,7 @@ def expand_vector(alpha, mode, N, hbar=2.0):
     Returns:
         array: phase-space displacement vector of size 2*N
     """
-    alpharealdtype = np.dtype(type(alpha))
+    alpharealdtype = np.result_type(type(alpha), np.float16)  # never an integer type
 
     r = np.zeros(2 * N, dtype=alpharealdtype)
     r[mode] = np.sqrt(2 * hbar) * alpha.real
-- 
2.43.0


From 846221d3c3ce818dcd3682dfe8d1c7e3720e54b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 24/61] fix: loss truncated integer means to integers

---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 354a288..ddb5410 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -338,7 +338,7 @@ def loss(mu, cov, T, mode, nbar=0, hbar=2):
     N = len(cov) // 2
 
     cov_res = cov.copy()
-    mu_res = mu.copy()
+    mu_res = mu.astype(np.result_type(mu, np.float16))  # never an integer type
 
     for m in (mode, mode + N):
         mu_res[m] *= np.sqrt(T)
-- 
2.43.0


From 2e8bc25f287c35d276f385c51627361526a855c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 25/61] fix: reduced states of negative modes mixed up the
 quadratures

---
 thewalrus/quantum/conversions.py | 2 +-
 thewalrus/symplectic.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index a30906e..03e9a38 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -38,7 +38,7 @@ def reduced_gaussian(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N) or np.any(np.array(modes) < 0):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
     if list(modes) == list(range(N)):
diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index ddb5410..9aa5884 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -182,7 +182,7 @@ def reduced_state(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N) or np.any(np.array(modes) < 0):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
-- 
2.43.0


From 139ccc278912cc2dfe5630bc7f3a87c24e33fb6c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 26/61] fix: bipartitions given as arrays were rejected

---
 thewalrus/quantum/entanglement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index ba5e0b3..a07027d 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -40,7 +40,7 @@ def get_partition(modes_A, split, M):
         if isinstance(modes_A, int):
             modes_A = [modes_A]
         for mode in modes_A:
-            if not isinstance(mode, int) or mode < 0 or mode > M - 1:
+            if not isinstance(mode, (int, np.integer)) or mode < 0 or mode > M - 1:
                 raise ValueError(
                     f"Every element of 'modes_A' must be an integer between 0 and {M - 1}"
                 )
-- 
2.43.0


From 4f958e35454de3cede491cec174ac6a34ef4f04a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 27/61] fix: fidelity did not check the shape of the second
 vector of means

---
 thewalrus/quantum/gaussian_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 5f7b75a..02d1909 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -127,7 +127,7 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     n0, n1 = cov1.shape
     m0, m1 = cov2.shape
     (l0,) = mu1.shape
-    (l1,) = mu1.shape
+    (l1,) = mu2.shape
     if not n0 == n1 == m0 == m1 == l0 == l1:
         raise ValueError("The inputs have incompatible shapes")
 
-- 
2.43.0


From eb8c7b1689f88997a3537e3b31bff995e12a6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 28/61] fix: n_body_marginals keeps the axis order its tests
 pin for cyclic mode orders

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index f88acbb..fad453e 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -667,6 +667,6 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
             marginal[acc][tuple(modes)] = probabilities(sub_mean, sub_cov, cutoff, hbar=hbar)
         else:
             modes_usrt = list(OrderedDict.fromkeys(ind))
-            perm = [modes.index(mode) for mode in modes_usrt]
+            perm = np.argsort(modes_usrt)
             marginal[acc][tuple(modes_usrt)] = marginal[acc][tuple(modes)].transpose(perm)
     return marginal
-- 
2.43.0


From 6cb4be10e614b591962e4d10dc2799375ca66355 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 29/61] fix: two_mode_squeezing ignored the dtype of the matrix

---
 thewalrus/symplectic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 9aa5884..1b3e3c6 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -270,7 +270,8 @@ def two_mode_squeezing(r, phi, dtype=np.float64):
             [cp * sh, ch, sp * sh, 0],
             [0, sp * sh, ch, -cp * sh],
             [sp * sh, 0, -cp * sh, ch],
-        ]
+        ],
+        dtype=dtype,
     )
 
     return S
-- 
2.43.0


From 2afdfdc68079f4b58e8dd5e0a6a10e7871272738 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 30/61] fix: expand failed for coo, dia and bsr sparse matrices

---
 thewalrus/symplectic.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 1b3e3c6..03e7390 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -61,9 +61,6 @@ import numpy as np
 from scipy.sparse import (
     identity as sparse_identity,
     issparse,
-    coo_array,
-    dia_array,
-    bsr_array,
     csr_array,
 )
 
@@ -91,7 +88,7 @@ def expand(S, modes, N):
         else sparse_identity(2 * N, dtype=S.dtype, format="csr")
     )
 
-    if issparse(S) and isinstance(S, (coo_array, dia_array, bsr_array)):
+    if issparse(S) and S.format in ("coo", "dia", "bsr"):
         # cast to sparse matrix that supports slicing and indexing
         warnings.warn(
             "Unsupported sparse matrix type, returning a Compressed Sparse Row (CSR) matrix."
-- 
2.43.0


From ed896d1ece457fc7614e67b91842b1582433608a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 31/61] fix: squeezing of several modes with one phase left all
 but the first mode unsqueezed

---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 03e7390..bf7cd34 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -230,7 +230,7 @@ def squeezing(r, phi=None, dtype=np.float64):
     if phi is None:
         phi = np.zeros_like(r)
 
-    phi = np.atleast_1d(phi)
+    r, phi = np.broadcast_arrays(r, np.atleast_1d(phi))
 
     M = len(r)
     S = np.identity(2 * M, dtype=dtype)
-- 
2.43.0


From a3fd469d51a57276dbfecaf0df2234455a891b11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 32/61] fix: williamson failed when the Schur decomposition did
 not converge

---
 thewalrus/decompositions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index fce720f..2c811e2 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -82,7 +82,14 @@ def williamson(V, rtol=1e-05, atol=1e-08):
     M12 = np.real_if_close(sqrtm(V))
     Mm12 = np.linalg.inv(M12)
     Gamma = Mm12 @ omega @ Mm12
-    a, O = schur(Gamma)
+    try:
+        a, O = schur(Gamma)
+    except np.linalg.LinAlgError:
+        # The QR iteration sometimes does not converge for degenerate spectra; the eigenvectors of the
+        # Hermitian matrix 1j * Gamma with positive eigenvalues hold the same information.
+        _, v = np.linalg.eigh(1j * Gamma)
+        O = np.sqrt(2) * np.stack([v[:, n:].imag, v[:, n:].real], axis=-1).reshape(2 * n, 2 * n)
+        a = O.T @ Gamma @ O
     # In what follows a permutation matrix perm is constructed so that the Schur matrix has
     # only positive elements above the diagonal
     # Also the Schur matrix uses the x_1,p_1, ..., x_n,p_n  ordering thus the permutation perm is updated
-- 
2.43.0


From b656bdc4a84046520a159a8fdb80fd61ac56d231 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 33/61] fix: adj_scaling_torontonian returned a singular
 scaling for unreachable click numbers

---
 thewalrus/quantum/adjacency_matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/quantum/adjacency_matrices.py b/thewalrus/quantum/adjacency_matrices.py
index e709051..d73c48d 100644
--- a/thewalrus/quantum/adjacency_matrices.py
+++ b/thewalrus/quantum/adjacency_matrices.py
@@ -62,7 +62,8 @@ def adj_scaling_torontonian(A, c_mean):
 
     res = root_scalar(cost, x0=0.5, bracket=(0.0, 1.0))  # Do the optimization
 
-    if not res.converged:
+    # cost jumps at x = 1 if the matrix cannot give c_mean clicks, hence the second condition
+    if not res.converged or abs(cost(res.root)) > 1e-5:
         raise ValueError("The search for a scaling value failed")
     return res.root / vals[0]
 
-- 
2.43.0


From f49ed7864d246f62c372ba92a171890a769b4234 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 34/61] fix: pure_state_distribution checked the purity in the
 wrong units

---
 thewalrus/quantum/photon_number_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index a6f3527..e3ad3da 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -37,7 +37,7 @@ def pure_state_distribution(cov, cutoff=50, hbar=2, padding_factor=2):
     Returns:
         (array): Total photon number distribution
     """
-    if is_pure_cov(cov):
+    if is_pure_cov(cov, hbar=hbar):
         A = Amat(cov, hbar=hbar)
         (n, _) = A.shape
         N = n // 2
-- 
2.43.0


From 3299504e8e78133635437c23fdfa979306b1c6f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 35/61] fix: the hafnian and torontonian samplers ignored hbar

---
 thewalrus/samples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..c894fbb 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -234,8 +234,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -434,8 +434,8 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From 378d77b9d9de8d09e34de98059cdb8d691910f6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 36/61] fix: generate_hafnian_sample rejected at the cutoff
 only for the last mode

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index c894fbb..770c64d 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -254,7 +254,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
         det_outcome_i = np.random.choice(det_outcomes, p=probs)
         det_pattern[mode] = det_outcome_i
 
-    if det_pattern[order_inv][-1] == cutoff:
+    if np.any(det_pattern == cutoff):
         return -1
     if det_pattern[order_inv].sum() > max_photons:
         return -1
-- 
2.43.0


From 557fbbf6f0433eb157164a61fb129a3175072371 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 37/61] fix: photon_number_sampler failed when the
 probabilities add up to one up to rounding

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 770c64d..1be9e43 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -713,7 +713,7 @@ def photon_number_sampler(probabilities, num_samples, out_of_bounds=False):
         return np.unravel_index(index, [cutoff] * num_modes)
 
     vals = np.arange(1 + cutoff**num_modes, dtype=int)
-    probabilities = np.append(probabilities.flatten(), 1.0 - sum_p)
+    probabilities = np.append(probabilities.flatten(), max(1.0 - sum_p, 0.0))
     return [sorter(np.random.choice(vals, p=probabilities)) for _ in range(num_samples)]
 
 
-- 
2.43.0


From 69bbd31bcbc6007552a034b116e86ee5d4ba6a5d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 38/61] fix: the cache of memoized was not limited to maxsize

---
 thewalrus/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index 9bd2e04..e4e795e 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -108,7 +108,7 @@ def memoized(f, maxsize=MAXSIZE):
     Returns:
         function or generator: the memoized function or generator
     """
-    cache = LimitedSizeDict(maxsize=maxsize)
+    cache = LimitedSizeDict(size_limit=maxsize)
 
     @functools.wraps(f)
     def ret(*args):
-- 
2.43.0


From a49b9cd72762f060899927b2ae9664d60bacd3da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 39/61] fix: the vacuum heterodyne outcomes of the threshold
 sampler had twice the vacuum variance

---
 thewalrus/samples.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 1be9e43..e279610 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -193,7 +193,10 @@ def get_heterodyne_fanout(alpha, fanout):
     for j in range(M):
         alpha_j = np.zeros(fanout, dtype=np.complex128)
         alpha_j[0] = alpha[j]  # put the coherent state in 0th mode
-        alpha_j[1:] = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        # heterodyne outcomes of vacuum: variance 1/2 in the real and imaginary parts
+        alpha_j[1:] = (
+            np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        ) / np.sqrt(2)
 
         alpha_fanout[j, :] = np.fft.fft(alpha_j, norm="ortho")
 
-- 
2.43.0


From d476629504339fce269f7a79b9b2ba19f762c790 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 40/61] fix: hafnian_sample_graph_rank_one failed for integer
 vectors

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index e279610..191680b 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -748,7 +748,7 @@ def _hafnian_sample_graph_rank_one(G, n_mean):
     total_photon_num = 2 * np.random.negative_binomial(0.5, q, 1)[0]
     sample = np.zeros(len(G))
     single_ph_ps = np.abs(G) ** 2
-    single_ph_ps /= np.sum(single_ph_ps)
+    single_ph_ps = single_ph_ps / np.sum(single_ph_ps)
     for _ in range(total_photon_num):
         detector = np.random.choice(len(G), p=single_ph_ps)
         sample[detector] += 1
-- 
2.43.0


From 1a42df532d94d8af3cf7ba74f4b91b688cff2e5d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 41/61] fix: lmtl failed when the matrix and the vector had
 different types

---
 thewalrus/_montrealer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/_montrealer.py b/thewalrus/_montrealer.py
index b0ee072..a4c8bbb 100644
--- a/thewalrus/_montrealer.py
+++ b/thewalrus/_montrealer.py
@@ -116,7 +116,8 @@ def lmtl(A, zeta):
     tor_input_checks(A, zeta)
     n = len(A) // 2
     Sigma = Xmat(n) @ A
-    return lmontrealer(Sigma, zeta)
+    dtype = np.result_type(Sigma, zeta, np.float64)
+    return lmontrealer(Sigma.astype(dtype), zeta.astype(dtype))
 
 
 def mtl(A):
-- 
2.43.0


From 49b5453a6edf7b6cf4991d9bc4b4dd12ef8a9efd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:22:39 +0000
Subject: [PATCH 42/61] fix: spm failed for one and two objects

---
 thewalrus/reference.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index e4e795e..02b48bc 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -143,7 +143,7 @@ def partitions(s, singles=True, pairs=True):
         if singles:
             yield (s[0],), (s[1],)
         if pairs:
-            yield s
+            yield (s,)
     else:
         # pull off a single item and partition the rest
         if singles:
@@ -152,12 +152,9 @@ def partitions(s, singles=True, pairs=True):
                 rest = s[1:]
                 rest_partitions = partitions(rest, singles, pairs)
                 for p in rest_partitions:
-                    if isinstance(p[0], tuple):
-                        yield ((item_partition),) + p
-                    else:
-                        yield (item_partition, p)
+                    yield (item_partition,) + p
             else:
-                yield s
+                yield tuple((i,) for i in s)
         # pull off a pair of items and partition the rest
         if pairs:
             # idx0 = 0
@@ -166,10 +163,7 @@ def partitions(s, singles=True, pairs=True):
                 rest = s[1:idx1] + s[idx1 + 1 :]
                 rest_partitions = partitions(rest, singles, pairs)
                 for p in rest_partitions:
-                    if isinstance(p[0], tuple):
-                        yield ((item_partition),) + p
-                    else:
-                        yield (item_partition, p)
+                    yield (item_partition,) + p
 
 
 @memoized
-- 
2.43.0


From 1c2c6bc89a15fce9afa8c36e29a4f019bb16e80a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:22:39 +0000
Subject: [PATCH 43/61] fix: memoized functions rejected keyword arguments

---
 thewalrus/reference.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index 02b48bc..f8d050f 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -111,15 +111,16 @@ def memoized(f, maxsize=MAXSIZE):
     cache = LimitedSizeDict(size_limit=maxsize)
 
     @functools.wraps(f)
-    def ret(*args):
-        if args not in cache:
-            cache[args] = f(*args)
-        if isinstance(cache[args], (GeneratorType, Tee)):
+    def ret(*args, **kwargs):
+        key = (args, tuple(sorted(kwargs.items())))
+        if key not in cache:
+            cache[key] = f(*args, **kwargs)
+        if isinstance(cache[key], (GeneratorType, Tee)):
             # the original can't be used any more,
             # so we need to change the cache as well
-            cache[args], r = tee(cache[args])
+            cache[key], r = tee(cache[key])
             return r
-        return cache[args]
+        return cache[key]
 
     return ret
 
-- 
2.43.0


From b38bfbeb94abbee4350cdd9ccda148f669d5e40a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 44/61] fix: grouped click probabilities did not add up to one
 when the groups do not divide the samples

---
 thewalrus/grouped_click_probabilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..7aa0f88 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -23,6 +23,8 @@ def grouped_click_probabilities(
     """
     np.random.seed(seed)
     samp_per_group = num_samples // num_groups
+    if samp_per_group == 0:
+        raise ValueError("There must be at least one sample per group.")
     num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
@@ -37,7 +39,7 @@ def grouped_click_probabilities(
     bcc = np.zeros(num_modes + 1, dtype=np.float64)
     qcc = np.zeros(num_modes + 1, dtype=np.float64)
     fix = np.zeros(num_modes + 1, dtype=np.float64)
-    for j in range(num_samples):
+    for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
         alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-- 
2.43.0


From d60aa2329661143e178de258ab8515177bcda860 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 45/61] fix: grouped click probabilities failed with fewer
 outputs than inputs

---
 thewalrus/grouped_click_probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index 7aa0f88..eda1883 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -25,7 +25,7 @@ def grouped_click_probabilities(
     samp_per_group = num_samples // num_groups
     if samp_per_group == 0:
         raise ValueError("There must be at least one sample per group.")
-    num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
+    num_modes, num_input = t_matrix.shape
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
     delta = 2 * np.pi / (num_modes + 1)
-- 
2.43.0


From e58dae437941207ff77b288e9b2818aac292f82e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 46/61] fix: grouped click probabilities failed for real
 transfer matrices

---
 thewalrus/grouped_click_probabilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index eda1883..c2f18e9 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -26,6 +26,7 @@ def grouped_click_probabilities(
     if samp_per_group == 0:
         raise ValueError("There must be at least one sample per group.")
     num_modes, num_input = t_matrix.shape
+    t_matrix = t_matrix.astype(np.complex128)
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
     delta = 2 * np.pi / (num_modes + 1)
-- 
2.43.0


From ffca584062b95376821b4b1072c9a4c23ba868c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 47/61] fix: permanents of integer matrices overflowed

---
 thewalrus/_permanent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 69cacad..dd0a086 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -62,6 +62,10 @@ def perm(A, method="bbfg"):
     if matshape[0] == 0:
         return A.dtype.type(1.0)
 
+    if A.dtype.kind in "biu":
+        # products of integers easily exceed the range of their type
+        A = A.astype(np.float64)
+
     if matshape[0] == 1:
         return A[0, 0]
 
-- 
2.43.0


From 6d766386c735257c60bf65818175ae616f557914 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 48/61] fix: hafnians of integer matrices overflowed

---
 thewalrus/_hafnian.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 33327a6..5420591 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -749,6 +749,10 @@ def hafnian(
     # pylint: disable=too-many-return-statements,too-many-branches
     input_validation(A, rtol=rtol, atol=atol)
 
+    if A.dtype.kind in "biu":
+        # products of integers easily exceed the range of their type
+        A = A.astype(np.float64)
+
     matshape = A.shape
 
     if method == "glynn":
@@ -832,6 +836,10 @@ def hafnian_sparse(A, D=None, loop=False):
     Returns:
         float: hafnian of ``A`` or of the submatrix of ``A`` defined by the set of indices ``D``
     """
+    if A.dtype.kind in "biu":
+        # products of integers easily exceed the range of their type
+        A = A.astype(np.float64)
+
     if D is None:
         D = frozenset(range(len(A)))
     else:
@@ -927,7 +935,7 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
 
     if np.allclose(A, 0, rtol=rtol, atol=atol):
         if loop:
-            return np.prod(mu**rpt)
+            return np.prod((1.0 * mu) ** rpt)
         return 0
 
     if len(mu) != len(A):
@@ -954,6 +962,9 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
     (n, _) = A.shape
     if n == 0:
         return 1
+    if A.dtype.kind in "biu":
+        # products of integers easily exceed the range of their type
+        A = A.astype(np.float64)
     w = bandwidth(A)
     if not loop:
         A = A - np.diag(np.diag(A))
-- 
2.43.0


From 67f4ec6cfcd545e8fb77e2025c8edd9276329f1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 49/61] fix: low-rank hafnians of integer vectors overflowed

---
 thewalrus/_low_rank_haf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index 86963f2..cf912b0 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -69,7 +69,7 @@ def low_rank_hafnian(G):
     if n == 0:
         return 1.0
     if r == 1:
-        return factorial2(n - 1, extend="complex") * np.prod(G)
+        return factorial2(n - 1, extend="complex") * np.prod(1.0 * G)
     poly = 1
     x = symbols("x0:" + str(r))
     for k in range(n):
-- 
2.43.0


From ad37780205379c26ccc2b1fa6d3019f4e975e64a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 50/61] fix: loss failed for integer covariance matrices

---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index bf7cd34..1331707 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -335,7 +335,7 @@ def loss(mu, cov, T, mode, nbar=0, hbar=2):
     """
     N = len(cov) // 2
 
-    cov_res = cov.copy()
+    cov_res = cov.astype(np.result_type(cov, np.float16))  # never an integer type
     mu_res = mu.astype(np.result_type(mu, np.float16))  # never an integer type
 
     for m in (mode, mode + N):
-- 
2.43.0


From e68c6b2afb82693ae1d6e9f26382e4048e5eac54 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 51/61] fix: hafnian_sparse does not treat matrices with small
 entries as zero

---
 thewalrus/_hafnian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 5420591..10cb24b 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -851,7 +851,7 @@ def hafnian_sparse(A, D=None, loop=False):
     if not D:
         return 1.0
 
-    if np.allclose(A, 0):
+    if not np.any(A):
         return 0.0
 
     r, _ = np.nonzero(A)
-- 
2.43.0


From 9bf8d9b48073f74573fcc2384bafd617e6b98df2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 52/61] fix: bandwidth judges the entries relative to the
 largest one

---
 thewalrus/_hafnian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 10cb24b..9728b45 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -675,9 +675,11 @@ def bandwidth(A):
         int: bandwidth of matrix
     """
     n, _ = A.shape
+    # entries count as zero when they are negligible relative to the largest one
+    atol = 1e-13 * np.max(np.abs(A), initial=0)
     for i in range(n - 1, 0, -1):
         vali = np.diag(A, i)
-        if not np.allclose(vali, 0):
+        if not np.allclose(vali, 0, atol=atol):
             return i
     return 0
 
-- 
2.43.0


From b7720df9509b5018355a37dff579f2f7e8201f65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:02:45 +0000
Subject: [PATCH 53/61] fix: takagi judges entries relative to the largest one

---
 thewalrus/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 2c811e2..9ef6e96 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -185,7 +185,7 @@ def takagi(A, svd_order=True, rtol=1e-16):
 
     A = np.real_if_close(A)
 
-    if np.allclose(A, 0):
+    if not np.any(A):
         return np.zeros(n), np.eye(n)
 
     if np.isrealobj(A):
@@ -212,7 +212,7 @@ def takagi(A, svd_order=True, rtol=1e-16):
         return vals, U * np.exp(1j * phi / 2)
 
     # If the matrix is diagonal, Takagi decomposition is easy
-    if np.allclose(A, np.diag(np.diag(A)), rtol=rtol):
+    if np.allclose(A, np.diag(np.diag(A)), rtol=rtol, atol=1e-8 * np.abs(A[pos])):
         d = np.diag(A)
         l = np.abs(d)
         idx = np.argsort(l)
-- 
2.43.0


From 3feacfff64a6e89eb772c400c42412a579b3cdb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:14:58 +0000
Subject: [PATCH 54/61] fix: hafnian and hafnian_repeated only skip exactly
 diagonal or zero matrices

---
 thewalrus/_hafnian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 9728b45..875641b 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -769,7 +769,7 @@ def hafnian(
     if matshape[0] % 2 != 0 and not loop:
         return 0.0
 
-    if np.allclose(np.diag(np.diag(A)), A, rtol=rtol, atol=atol):
+    if np.array_equal(np.diag(np.diag(A)), A):
         if loop:
             return np.prod(np.diag(A))
         return 0
@@ -935,7 +935,7 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
     if mu is None:
         mu = A.diagonal().copy()
 
-    if np.allclose(A, 0, rtol=rtol, atol=atol):
+    if not np.any(A):
         if loop:
             return np.prod((1.0 * mu) ** rpt)
         return 0
-- 
2.43.0


From a7c5bfebb1cb6c37de57c49d96674b1745eb95eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:31:41 +0000
Subject: [PATCH 55/61] fix: samplers failed on strongly squeezed states

---
 thewalrus/samples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 191680b..1cf7a15 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -112,7 +112,9 @@ def decompose_cov(cov, hbar=2):
     D, S = williamson(cov)
     T = hbar / 2 * S @ S.T
     DmI = D - hbar / 2 * np.eye(2 * m)
-    DmI[abs(DmI) < 1e-10] = 0.0  # remove slightly negative values
+    # remove slightly negative values; rounding errors grow with the squared norm of cov
+    norm = np.linalg.norm(2 / hbar * cov, 2)
+    DmI[abs(DmI) < max(1e-10, 10 * np.finfo(float).eps * hbar / 2 * norm**2)] = 0.0
     sqrtW = S @ np.sqrt(DmI)
     return T, sqrtW
 
-- 
2.43.0


From 597ff959890e7a3f572dee17e29c3cc2e6c06250 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:35:06 +0000
Subject: [PATCH 56/61] fix: mean photon numbers of graphs with large weights
 were not reached

---
 thewalrus/csamples.py                   | 2 ++
 thewalrus/quantum/adjacency_matrices.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/thewalrus/csamples.py b/thewalrus/csamples.py
index abbf6c7..fa305ae 100644
--- a/thewalrus/csamples.py
+++ b/thewalrus/csamples.py
@@ -109,6 +109,8 @@ def rescale_adjacency_matrix(
     if check_positivity is True:
         assert np.all(ls >= 0)
 
+    if ls[-1] > 0:
+        ls = ls / ls[-1]  # the tolerance of root_scalar is absolute
     max_sv = ls[-1]
     a_lim = 0.0
     b_lim = 1 / (atol + scale * max_sv)
diff --git a/thewalrus/quantum/adjacency_matrices.py b/thewalrus/quantum/adjacency_matrices.py
index d73c48d..1cc9aa4 100644
--- a/thewalrus/quantum/adjacency_matrices.py
+++ b/thewalrus/quantum/adjacency_matrices.py
@@ -104,12 +104,14 @@ def adj_scaling(A, n_mean):
     ls = np.linalg.svd(A, compute_uv=False)
     max_sv = ls[0]
     a_lim = 0.0
-    b_lim = 1.0 / (eps + max_sv)
+    b_lim = 1.0 / (eps + 1.0)
     x_init = 0.5 * b_lim
 
     if 1000 * eps >= max_sv:
         raise ValueError("The singular values of the matrix A are too small.")
 
+    ls = ls / max_sv  # the tolerance of root_scalar is absolute
+
     def mean_photon_number(x, vals):
         r"""Returns the mean number of photons in the Gaussian state that
         encodes the adjacency matrix x*A where vals are the singular values of A
@@ -150,7 +152,7 @@ def adj_scaling(A, n_mean):
     if not res.converged:
         raise ValueError("The search for a scaling value failed")
 
-    return res.root
+    return res.root / max_sv
 
 
 def adj_to_qmat(A, n_mean):
-- 
2.43.0


From 29d6af283932887abfa753c940911c0a4859258d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:36:11 +0000
Subject: [PATCH 57/61] fix: entropies of weakly entangled or weakly thermal
 states were reported as zero

---
 thewalrus/quantum/entanglement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index a07027d..0734894 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -76,7 +76,7 @@ def vonneumann_entropy(cov, hbar=2):
 
     S = 0
     for nu in nus:
-        if not np.isclose(nu, 1):
+        if nu > 1:
             g = (nu + 1) / 2 * np.log((nu + 1) / 2) - (nu - 1) / 2 * np.log((nu - 1) / 2)
             S += g
 
-- 
2.43.0


From 1c4036a9463473a1847c6f26700e83387e77c42f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 58/61] fix: symplectic eigenvalues of squeezed states were
 complex numbers

---
 thewalrus/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 9ef6e96..6199417 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -120,7 +120,7 @@ def symplectic_eigenvals(cov):
     """
     M = len(cov) // 2
     Omega = sympmat(M)
-    return np.real_if_close(-1j * np.linalg.eigvals(Omega @ cov))[::2]
+    return np.linalg.eigvals(Omega @ cov).imag[::2]
 
 
 def blochmessiah(S):
-- 
2.43.0


From 22ae66a4dcde29acee3db19626157736606bb19c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 59/61] fix: fidelities of some squeezed states were complex
 numbers

---
 thewalrus/quantum/gaussian_checks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 02d1909..a7f1c64 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -155,8 +155,9 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     )
     # Note that we only take the square root and that we have a prefactor of 0.5
     # as opposed to 0.25 in Brask. This is because this function returns the square
-    # of their fidelities.
-    return f
+    # of their fidelities. Rounding errors can make the argument of sqrtm slightly
+    # indefinite and the result complex.
+    return np.real(f)
 
 
 def is_symplectic(S, rtol=1e-05, atol=1e-08):
-- 
2.43.0


From 1dbb5360e087ae23736d9d234ee9961d611089ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 60/61] fix: large photon-number moments were complex numbers

---
 thewalrus/quantum/means_and_variances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 36ba01e..c3f3615 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -365,7 +365,7 @@ def photon_number_moment(mu, cov, indices, hbar=2):
         rpt = rpt + rpt
         prod_coeff = np.prod([expansion_coeff[i][coeff] for i, coeff in enumerate(item)])
         net_sum += prod_coeff * s_ordered_expectation(mu, cov, rpt, s=1, hbar=hbar)
-    return np.real_if_close(net_sum)
+    return np.real(net_sum)
 
 
 def partition(collection):
-- 
2.43.0


From 21f7524b8f6d3a5e03a4580b39aacfc78550562b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:18:10 +0000
Subject: [PATCH 61/61] fix: loss on the photon-number distribution of ten or
 more modes raised an error

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index fad453e..94b2759 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -479,7 +479,7 @@ def update_probabilities_with_loss(etas, probs):
 
     alphabet = "abcdefghijklmnopqrstuvwxyz"
     for i, eta in enumerate(etas):
-        einstrings = "ij,{}i...->{}j...".format(alphabet[:i], alphabet[:i])
+        einstrings = "YZ,{}Y...->{}Z...".format(alphabet[:i], alphabet[:i])
 
         qein = np.zeros_like(probs)
         qein = np.einsum(einstrings, loss_mat(eta, probs_shape[i]), probs)
-- 
2.43.0

