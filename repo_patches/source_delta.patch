From aa6f8ccde1d14bcfe9b150c2ee55f64eb31c3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 01/65] fix: intrep is the inverse of binrep (least significant
 bit first)

---
 edpyt/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lookup.py b/edpyt/lookup.py
index 3cb5d3b..66df961 100644
--- a/edpyt/lookup.py
+++ b/edpyt/lookup.py
@@ -41,9 +41,9 @@ def binrep(i, n, format="array"):
 def intrep(arr_repr):
     """Inverse of binrep."""
     if isinstance(arr_repr, str):
-        return np.uint32(int(arr_repr, base=2))
+        return np.uint32(int(arr_repr[::-1], base=2))
     i = unsiged_dt(0)
-    for shift, j in enumerate(arr_repr[::-1]):
+    for shift, j in enumerate(arr_repr):
         if j:
             i += unsiged_dt(1) << shift
     return i
-- 
2.43.0


From 30774a21791e1c7019ad44619f5b33d7ee2fba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 02/65] fix: matvec accepts a caller-supplied output vector

---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..2ecea1b 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -35,7 +35,7 @@ def _matvec_operator(*operators):
 
     """
     def matvec(vec, res=None):
-        out = res or np.empty_like(vec)
+        out = np.empty_like(vec) if res is None else res
         for op in operators:
             op.matvec(vec, out=out)
         return out
-- 
2.43.0


From bdc6cb3afb0b8bc9a97c900d381cd6bf5608b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 03/65] fix: todense of a purely local Hamiltonian

---
 edpyt/matvec_product.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 2ecea1b..a74e340 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,7 +86,11 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
-    out = ops.pop().todense()
+    if ops:
+        out = ops.pop().todense()
+    else:
+        # Only diagonal operators (no hopping).
+        out = np.zeros((diag_op[0].size,)*2)
     n = out.shape[0]
     for op in ops:
         out += op.todense()
-- 
2.43.0


From f6cf15ee24d563e7a8a16b4485e870e20d3034ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 04/65] fix: build_mb_ham leaves the caller's one-body matrix
 and its flags alone

---
 edpyt/build_mb_ham.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index daba0ec..acabda1 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -38,8 +38,8 @@ def build_mb_ham(H, V, sct, comm=None):
 
     """
     n = H.shape[-1]
-    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H
-    H.flags.writeable = False
+    # Read-only view: the caller's array (and its flags) are left alone.
+    H = np.broadcast_to(H, (2,n,n))
 
     if isinstance(V, np.ndarray):
         U = V
@@ -71,8 +71,6 @@ def build_mb_ham(H, V, sct, comm=None):
     if (Jx is not None) or (Jp is not None):
         operators.append(build_ham_non_local(Jx, Jp, sct, operators[0]))
 
-    H.flags.writeable = True
-
     return operators
 
 
-- 
2.43.0


From 929360761726aa0a07c281a0f89c93445ebe0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 05/65] fix: interaction given without a density-density part

---
 edpyt/build_mb_ham.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index acabda1..a9e946e 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -49,6 +49,8 @@ def build_mb_ham(H, V, sct, comm=None):
         U = V.get('U',None)
         Jx = V.get('Jx', None)
         Jp = V.get('Jp', None)
+        if U is None: # no density-density interaction.
+            U = np.zeros((n,n))
     # dup = states_up.size
     # dwn = states_dw.size
     # if comm is not None:
-- 
2.43.0


From 49d2578069b79e04d28537861fd4f8ba21b517e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 06/65] fix: pair hopping without spin exchange

---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From 90817919766bcdd9654276f4b3a0e4477567130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 07/65] fix: spin-up level energies in charge-only sectors

---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..e22f4a7 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += eupdiag[i]*nup[i] + edwdiag[i]*ndw[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From 5805deb02d88c9e13ef6aa667f0968970987372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 08/65] fix: sign of the spin-flip part of the exchange
 interaction

---
 edpyt/ham_non_local.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 4fb87f3..ea4d5b7 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -113,6 +113,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                 #    s=s'  :: \sum_ij \sum_s - 0.5 * Jx_ij [c^+_is c_is] [c^+_js c_js]
                 #    s!=s' :: \sum_ij - 0.5 * Jx_ij [S+_i S-_j + S+_j + S-_i]
                 #          :: \sum_ij - Jx_ij [S+_i S-_j]
+                #          :: \sum_ij + Jx_ij [c^+_iu c_ju] [c^+_jd c_id]
                 tmp = 0.
                 for i in range(n):
                     if (not nup[i]) & ndw[i]:
@@ -124,7 +125,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                                 sgn_dw, fdw = cdgc(sdw, j, i)
                                 jdw = binsearch(states_dw, fdw)
                                 Jndx = jdw * dup + jup
-                                sp_mat.data[count] = - sgn_up * sgn_dw * Jx.data[p]
+                                sp_mat.data[count] = sgn_up * sgn_dw * Jx.data[p]
                                 sp_mat.indices[count] = Jndx                
                                 count += 1
                     for p in range(Jx.indptr[i], Jx.indptr[i+1]):
-- 
2.43.0


From 1170e095cb671bb1fa2853dcb837b125136dc128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 09/65] fix: exchange couplings of a single site are empty

---
 edpyt/ham_non_local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index ea4d5b7..facf07f 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -89,7 +89,9 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
             warn(warn_offdiag.format(interaction='pair-hopping'))
         Jp = nnz_offdiag_csrmat(Jp, nnz_p)
     
-    nnz = (nnz_x + nnz_p) * int(binom(n-2, Nup-1)) * int(binom(n-2, Ndw-1))
+    nnz = nnz_x + nnz_p
+    if nnz: # at least two sites
+        nnz *= int(binom(n-2, Nup-1)) * int(binom(n-2, Ndw-1))
         
     sp_mat = empty_csrmat(nnz, (dwn*dup, dwn*dup))
     
-- 
2.43.0


From b669c6dd1dd28506f3396892ad869327eda97071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:09 +0000
Subject: [PATCH 10/65] fix: sparse products of vectors with more than 2^31
 elements

---
 edpyt/cs_gaxpy.c  | 2 +-
 edpyt/psparse.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edpyt/cs_gaxpy.c b/edpyt/cs_gaxpy.c
index 0e3b8ae..dec3c65 100644
--- a/edpyt/cs_gaxpy.c
+++ b/edpyt/cs_gaxpy.c
@@ -27,7 +27,7 @@ csi csr_saxpy (const cs *A, const double *x, double *y, csi i, csi n)
     {
       for (s = 0 ; s < n; s++)
         {
-          y[i*n+s] += Ax [p] * x [Ai [p]*n+s] ;
+          y[(ptrdiff_t) i*n+s] += Ax [p] * x [(ptrdiff_t) Ai [p]*n+s] ;
         }
     }
   return (1) ;
diff --git a/edpyt/psparse.pyx b/edpyt/psparse.pyx
index 840ae0b..f39ebd5 100644
--- a/edpyt/psparse.pyx
+++ b/edpyt/psparse.pyx
@@ -43,7 +43,7 @@ def UPmultiply(X not None, np.ndarray[ndim=1, mode='c', dtype=np.float64_t] W no
     if X.format == 'csc':
         raise NotImplementedError('csc format not supported.')
 
-    cdef int i, nup, ndw
+    cdef Py_ssize_t i, nup, ndw
     cdef cs csX
     cdef np.ndarray[csi, ndim=1, mode = 'c'] indptr  = X.indptr
     cdef np.ndarray[csi, ndim=1, mode = 'c'] indices = X.indices
@@ -73,7 +73,7 @@ def DWmultiply(X not None, np.ndarray[ndim=1, mode='c', dtype=np.float64_t] W no
     if X.format == 'csc':
         raise NotImplementedError('csc format not supported.')
 
-    cdef int i, nup, ndw
+    cdef Py_ssize_t i, nup, ndw
     cdef cs csX
     cdef np.ndarray[csi, ndim=1, mode = 'c'] indptr  = X.indptr
     cdef np.ndarray[csi, ndim=1, mode = 'c'] indices = X.indices
-- 
2.43.0


From b2ac8e5a987779dd45b5a69cd2789634189151ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:38 +0000
Subject: [PATCH 11/65] fix: non-interacting spectrum tiles the level energies
 per spin, not per level

---
 edpyt/espace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/espace.py b/edpyt/espace.py
index 075ebfe..74245ec 100644
--- a/edpyt/espace.py
+++ b/edpyt/espace.py
@@ -186,7 +186,7 @@ def build_non_interacting_espace(ek):
 
     n = ek.size
     Uk = np.zeros_like(ek)
-    ek = np.tile(ek, (2,n))
+    ek = np.tile(ek, (2,1))
     
     for qns, sct in _sz_iter_sectors(n):
         states = sct.states
-- 
2.43.0


From fef908a56143f76cfceafbb227ad6933be03332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 12/65] fix: eigenpairs of a decoupled tridiagonal matrix in
 ascending order

---
 edpyt/tridiag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 1d0573d..f5d52c0 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -19,7 +19,9 @@ def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
     if eigvals_only:
         return w, None
     v, info = stein(a,b,w,iblock,isplit)
-    return w, v[:, :m]
+    # 'B' orders by block (as stein requires): sort over the whole matrix.
+    idx = np.argsort(w, kind='stable')
+    return w[idx], v[:, :m][:, idx]
 
 
 def _solve_full(a, b, eigvals_only=False):
-- 
2.43.0


From 1ea7eb3a327aa1cf367e10bd07cb695929374999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:23 +0000
Subject: [PATCH 13/65] fix: index range of a one-dimensional tridiagonal
 matrix

---
 edpyt/tridiag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index f5d52c0..4b05347 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -11,6 +11,8 @@ egs_tridiag = lambda a, b: _solve_partial(a,b,eigvals_only=True)[0][0] #stebz(a,
 gs_tridiag = lambda a, b: _solve_partial(a,b)
 
 def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
+    if a.size == 1: # LAPACK wrappers want at least one off-diagonal element.
+        return a.copy(), None if eigvals_only else np.ones((1,1), a.dtype)
     il = select_range[0] + 1
     iu = select_range[1] + 1
     order = 'E' if eigvals_only else 'B'
-- 
2.43.0


From 0743227b78bee471e053ae4ce848e03517b040e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 14/65] fix: full tridiagonal spectrum when LAPACK's stemr
 reports failure

---
 edpyt/tridiag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 4b05347..32c8b48 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -32,6 +32,8 @@ def _solve_full(a, b, eigvals_only=False):
     compute_v = not eigvals_only
     lwork, liwork, info = stemr_lwork(a,b_,0,0.,1.,1,1,compute_v=compute_v)
     m, w, v, info = stemr(a,b_,0,0.,1.,1,1,compute_v=compute_v,lwork=lwork,liwork=liwork)
+    if info != 0: # MRRR failed (it may for large matrix norms): bisection & inverse iteration.
+        return _solve_partial(a, b, (0,a.size-1), eigvals_only)
     return w, v
 
 
-- 
2.43.0


From d281e58ca2effa2024c62abb3a47a8e4ee1f743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 15/65] fix: sl_solve with eigenvalues only

---
 edpyt/lanczos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 4a1d21b..f97f9da 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -167,11 +167,11 @@ def sl_solve(matvec, a, b, v0=None, select=0, select_range=(0,0), eigvals_only=F
 
     """
     assert select in [0,2], f"Invalid select type {select}."
-    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     if eigvals_only:
-        return w
+        return eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     else:
         assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
+    w, U = eigh_tridiagonal(a, b[1:], select, select_range)
     lanc_step = sl_step(matvec, comm)
     v = v0
     l = np.zeros_like(v)
-- 
2.43.0


From 8a82d1bc7533311a7839d4ef72faef09af4a62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 16/65] fix: exact Green's function of spin-down electrons

---
 edpyt/gf_exact.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..1ac6a8d 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -13,6 +13,10 @@ from edpyt.operators import (
     c, cdg, check_empty, check_full
 )
 
+from edpyt.sector import (
+    OutOfHilbertError, get_cdg_sector
+)
+
 
 # def Gf(q, l):
 #     """Green's function kernel wrapper.
@@ -110,11 +114,11 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
-        # Cannot have more spin than spin states
-        if nupJ > n: continue
+        # N+1 (one more spin of the requested kind)
+        try:
+            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
+        except OutOfHilbertError: # More spin than spin states
+            continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From 3e617be3445f788065ec66b7e4671fc4bddf71d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:26 +0000
Subject: [PATCH 17/65] fix: build_gf_lanczos leaves the supplied eigenspace
 alone

---
 edpyt/gf_lanczos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..7694e22 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -181,6 +181,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # NOTE : leave the (possibly screened) sector in espace alone.
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, cdg, sctI, sctJ)
@@ -216,6 +218,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # NOTE : leave the (possibly screened) sector in espace alone.
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, c, sctI, sctJ)
-- 
2.43.0


From 24602b7f4a88fb846eee7c43d4ac4f166502ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 18/65] fix: off-diagonal Green's function where (c_i + c_j)
 annihilates a state

---
 edpyt/gf2_lanczos.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5ca46ed 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -89,7 +89,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +113,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From fcc03b8497939695c6e173d040164d3a692a402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 19/65] fix: elements below the diagonal of the Lanczos matrix
 Green's function

---
 edpyt/gf2_lanczos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index 5ca46ed..05c8ad0 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -27,7 +27,8 @@ class _Gf2():
         return G
     
     def __getitem__(self, ij):
-        i,j = ij
+        # Only the upper triangle is stored.
+        i,j = sorted(ij)
         if i==j:
             return self.gf[i,j]
         return lambda e, eta: 0.5*(self.gf[i,j](e,eta)
-- 
2.43.0


From 160ed5ce554a4f3de70ef96e61bf77582a3fc4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:00 +0000
Subject: [PATCH 20/65] fix: occupations of C-ordered vectors do not reshape
 the caller's array

---
 edpyt/observs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..06469b9 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -87,7 +87,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From 529cc757a0a120bf777127c94ab307e0f515a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:00 +0000
Subject: [PATCH 21/65] fix: pair poles and residues when integrating up to
 several chemical potentials

---
 edpyt/integrate_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..89531bc 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -83,7 +83,7 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
         a_p = mu + 1j*zp/beta
     else:
         mu = np.broadcast_to(mu, (nzp,)+mu.shape)
-        zp = np.resize(zp, mu.shape)
+        zp = zp.reshape((nzp,)+(1,)*(mu.ndim-1))
         a_p = mu + 1j*zp/beta
 
     R = 1e10
-- 
2.43.0


From d9357ae082d6842e5b0739a0284f2a14e2409c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 22/65] fix: adjust_mu accepts a scalar occupancy goal

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..1da9040 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -19,7 +19,7 @@ def adjust_mu(gf, occupancy_goal, bracket=(-20.0, 20)):
     the change in mu required to satisfy the occupancy goal.
     """
     # distance = lambda mu: np.sum(gf.integrate(mu)-occupancy_goal)
-    distance = lambda mu: gf.integrate(mu).sum() - occupancy_goal.sum()
+    distance = lambda mu: np.sum(gf.integrate(mu)) - np.sum(occupancy_goal)
     return root_scalar(distance, bracket=bracket, method="brentq").root  # + gf.mu
 
 
-- 
2.43.0


From cbaa1393c6c81442220ee69b261ffdded778dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 23/65] fix: impurity functions at a single frequency, as
 integrate asks for them

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 1da9040..8c0e8d6 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -56,7 +56,7 @@ class Delta:
         fit_hybrid(self.x, self.nmats, delta, self.beta)
 
     def __call__(self, z):
-        return _delta(self.x, z)
+        return _delta(self.x, np.atleast_1d(z))
 
 
 class Gfimp:
-- 
2.43.0


From 757b09bebc8456546cbf60a4ac1cfd5b397a11ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 24/65] fix: default chemical potential of the spin-dependent
 impurity's integrate

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 8c0e8d6..92ff059 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -252,7 +252,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From 81854b712f665cceefb82b73eba039c04bcce2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 25/65] fix: cotunneling integrals at equal and nearly equal
 chemical potentials

---
 edpyt/integrals.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 1a3c869..a7b4e02 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -16,12 +16,9 @@ def Psi(n, a, b, beta):
     return polygamma(n, 0.5 + (1.j*beta)/(2.*np.pi)*(a-b))
 
 
-def Taylor(n, x, a, b, beta):
-    k = Psi(n, a, b, beta)
-    return k / x \
-           - 0.5 * k \
-           + 1/12 * x * k \
-           - 1/720 * x**3 * k
+# Below this difference (in units of the temperature) the integrals are
+# evaluated with the derivative of the polygamma functions at the midpoint.
+XMIN = 1e-4
 
 # fmax = 1e15
 # fmin = 1/fmax
@@ -30,18 +27,15 @@ def Taylor(n, x, a, b, beta):
 #     """Bose distribution."""
 #     return 1./(np.exp(beta*eps)-1)
 
-nB = lambda x: 1./(np.exp(x)-1)
+nB = lambda x: 1./np.expm1(x)
 
 
 def I1(C, eps, mu, beta):
     x = (mu[1]-mu[0]) * beta
-    if abs(x) < 1e-16:
-        return 0. #np.sign(x)
-    if abs(x) < 1e-15:
-        return C**2 * beta/(2*np.pi) * np.imag(
-            Taylor(1,x,mu[1],eps,beta)
-          - Taylor(1,x,mu[0],eps,beta)
-        )        
+    if abs(x) < XMIN: # nB(x) -> 1/x
+        return C**2 * beta/(2*np.pi) * (1 - x/2) * np.real(
+            Psi(2,0.5*(mu[0]+mu[1]),eps,beta)
+        ) / (2*np.pi)
     return C**2 * beta/(2*np.pi) * nB(x) * np.imag(
             Psi(1,mu[1],eps,beta)
           - Psi(1,mu[0],eps,beta)
@@ -62,15 +56,11 @@ def I1(C, eps, mu, beta):
 
 def I2(A, B, epsA, epsB, mu, beta):
     x = (mu[1]-mu[0])*beta
-    if abs(x) < 1e-16:
-        return 0. # -1.
-    if abs(x) < 1e-15:
-        return A * B / (epsA-epsB) * np.real(
-              Taylor(0,epsA,mu[1],beta) 
-            - Taylor(0,epsA,mu[0],beta) 
-            - Taylor(0,epsB,mu[1],beta)
-            + Taylor(0,epsB,mu[0],beta)
-        )
+    if abs(x) < XMIN: # nB(x) -> 1/x
+        return A * B * (1 - x/2) / (epsA-epsB) * np.imag(
+              Psi(1,epsA,0.5*(mu[0]+mu[1]),beta)
+            - Psi(1,epsB,0.5*(mu[0]+mu[1]),beta)
+        ) / (2*np.pi)
     return A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
         - Psi(0,epsA,mu[0],beta) 
-- 
2.43.0


From f1f59dae36f9bcddfe0a6c7a5d3a034f3bc5b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 26/65] fix: cotunneling cross term of degenerate levels

---
 edpyt/integrals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index a7b4e02..6140cb9 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -55,6 +55,8 @@ def I1(C, eps, mu, beta):
     # return w * f
 
 def I2(A, B, epsA, epsB, mu, beta):
+    if abs(epsA-epsB) * beta < XMIN: # degenerate levels
+        return A * B * I1(1., 0.5*(epsA+epsB), mu, beta)
     x = (mu[1]-mu[0])*beta
     if abs(x) < XMIN: # nB(x) -> 1/x
         return A * B * (1 - x/2) / (epsA-epsB) * np.imag(
-- 
2.43.0


From f53c557e4448f6fd6fb56a948f4f132940652bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 27/65] fix: weight of the interference term in the two-level
 cotunneling integral

---
 edpyt/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 6140cb9..da02ac9 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -94,7 +94,7 @@ Gamma1 = I1
 def Gamma2(A, B, epsA, epsB, mu, beta):
     return I1(A,epsA,mu,beta) \
          + I1(B,epsB,mu,beta) \
-         + I2(A,B,epsA,epsB,mu,beta)
+         + 2 * I2(A,B,epsA,epsB,mu,beta)
 
 
 def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
-- 
2.43.0


From 66398d2abc16647dc94add07037bbadda96192e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 28/65] fix: stationary state of rates that differ by many
 orders of magnitude

---
 edpyt/rates.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/edpyt/rates.py b/edpyt/rates.py
index ad787a0..d6f25a5 100644
--- a/edpyt/rates.py
+++ b/edpyt/rates.py
@@ -9,10 +9,25 @@ def stationary_solution(W):
             dt
             
     """
-    w, v = np.linalg.eig(W)
-
-    j_stationary = np.argmin(abs(w - 1.0))
-    p_stationary = v[:,j_stationary].real
+    # Eliminate states one by one, the least stable first (Grassmann, Taksar &
+    # Heyman). Rates may differ by hundreds of orders of magnitude, for which
+    # the null eigenvector of W is not well defined numerically.
+    R = W - np.diag(np.diag(W))
+    left = np.arange(W.shape[0])
+    eliminated = []
+    while left.size > 1:
+        out = R[np.ix_(left,left)].sum(0)
+        k = np.argmax(abs(out))
+        if out[k] == 0.: # disconnected states
+            break
+        k, out, left = left[k], out[k], np.delete(left, k)
+        R[np.ix_(left,left)] += np.outer(R[left,k]/out, R[k,left])
+        R[left,left] = 0.
+        eliminated.append((k, out, left))
+    p_stationary = np.zeros(W.shape[0])
+    p_stationary[left] = 1.
+    for k, out, left in reversed(eliminated):
+        p_stationary[k] = R[k,left].dot(p_stationary[left])/out
     p_stationary /= p_stationary.sum()
     return p_stationary
 
-- 
2.43.0


From 037938486eb4ecfef4009eeb3ec388a8fab7b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 29/65] fix: sequential tunnelling to the empty and the full
 charge sector

---
 edpyt/sqtnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From da17c890854f88f0888cce105eac45ff0dda39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 30/65] fix: cotunnelling through the empty and the full charge
 sector

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..673fb3a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -128,11 +128,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
-- 
2.43.0


From 887a7fa79f833ed3cc2fa0833fef4a80b7b6dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 31/65] fix: energy of the electron virtual states in inelastic
 cotunneling

---
 edpyt/cotunneling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..1bf9163 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -71,10 +71,10 @@ def project_add(ispin_i, ispin_j, n, nupI, ndwI, espace):
     for i in range(n):
         v_FJ[...,i] = sgnJ * proj_ispin_i(i, n, c, sctJ, sctF)
     dE = sctF.eigvals[:,None]-sctI.eigvals[None,:]
-    E = sctJ.eigvals[None,:]-sctI.eigvals[:,None]
+    E = sctJ.eigvals[None,:]-sctF.eigvals[:,None]
     gf2elist = []
     for f,i in np.ndindex(v_FJ.shape[0],v_JI.shape[1]):
-        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[i],dE[f,i],(nupJ,ndwJ)))
+        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[f],dE[f,i],(nupJ,ndwJ)))
     return gf2elist
 
 
-- 
2.43.0


From 7dba9c84d1592d71e7e524e671bdc2a62f25833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 32/65] fix: energy at which approximate cotunneling rates are
 evaluated

---
 edpyt/cotnl.py       | 2 +-
 edpyt/cotunneling.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 673fb3a..f89bf9a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -244,7 +244,7 @@ class Sigma:
     def approximate(self, A, extract, inject, beta, mu):
         x = self.dE-mu[extract]+mu[inject]
         # return G(beta, x) * self(0.5*x, A, extract, inject)
-        return G(beta, x) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+        return G(beta, x) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
     
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 1bf9163..afa0ae2 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -237,7 +237,7 @@ class _Sigma:
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-               ) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+               ) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
               
 
 class _Sigmae(_Sigma):
-- 
2.43.0


From 4515ac9b4e640b3dfdaa22643ce5f4c4bd1fc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 33/65] fix: approximate cotunneling rates of elastic
 transitions

---
 edpyt/cotnl.py       | 4 ++--
 edpyt/cotunneling.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index f89bf9a..247ad0a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -210,10 +210,10 @@ nF.__doc__ = "Fermi function."
 def G(beta, z):
     """Helper function for approximate solution."""
     if (beta*abs(z))<1e-18:
-        return 1.
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
-    return z/(np.exp(beta*z)-1)
+    return z/np.expm1(beta*z)
 
 # from numba import vectorize, guvectorize
 
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index afa0ae2..b1905a5 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -230,10 +230,10 @@ class _Sigma:
     def G(beta, z):
         """Helper function for approximate solution."""
         if (beta*abs(z))<1e-18:
-            return 1.
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
-        return z/(np.exp(beta*z)-1)
+        return z/np.expm1(beta*z)
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-- 
2.43.0


From 85e61ef393d696b1459689eaf1980857f99ec85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 34/65] fix: cotunneling integrals sum over all virtual states

---
 edpyt/cotunneling.py | 26 ++++++++++++++------------
 edpyt/integrals.py   |  9 ++++++++-
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index b1905a5..2de8c66 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -4,7 +4,7 @@ from itertools import zip_longest
 from collections import defaultdict
 from operator import attrgetter
 
-from edpyt.integrals import Gamma1, Gamma2
+from edpyt.integrals import Gamma
 
 from edpyt.sector import (
     OutOfHilbertError, get_c_sector, get_cdg_sector)
@@ -247,9 +247,9 @@ class _Sigmae(_Sigma):
     #  |  e     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[inject].dot(self.gf2.vF[0])*A[extract].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[inject].dot(self.gf2.vF.T)*A[extract].dot(self.gf2.vI.T), # A
+            self.gf2.E, # epsA
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
@@ -264,9 +264,9 @@ class _Sigmah(_Sigma):
     #  |  h     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[extract].dot(self.gf2.vF[0])*A[inject].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[extract].dot(self.gf2.vF.T)*A[inject].dot(self.gf2.vI.T), # A
+            self.gf2.E, # epsA
             [mu[extract]-self.dE,mu[inject]], beta)
     
     def __call__(self, z, A, extract, inject):
@@ -295,11 +295,13 @@ class Sigma(_Sigma):
         super().__init__(self.gf2e)
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma2(
-            A[inject].dot(self.gf2e.vF[0])*A[extract].dot(self.gf2e.vI[0]), #A
-            A[extract].dot(self.gf2h.vF[0])*A[inject].dot(self.gf2h.vI[0]), #B
-            self.gf2e.E[0], # epsA
-            self.gf2h.E[0], # epsB
+        return Gamma(
+            np.append(
+                A[inject].dot(self.gf2e.vF.T)*A[extract].dot(self.gf2e.vI.T), #A
+                A[extract].dot(self.gf2h.vF.T)*A[inject].dot(self.gf2h.vI.T)), #B
+            np.append(
+                self.gf2e.E, # epsA
+                self.gf2h.E), # epsB
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index da02ac9..c0a073c 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -103,4 +103,11 @@ def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
          - Gamma2(A,-D,epsA,epsD,mu,beta) \
          - Gamma2(B,-C,epsB,epsC,mu,beta) \
          + Gamma2(B,D,epsB,epsD,mu,beta) \
-         + Gamma2(C,D,epsC,epsD,mu,beta)
\ No newline at end of file
+         + Gamma2(C,D,epsC,epsD,mu,beta)
+
+
+def Gamma(A, eps, mu, beta):
+    """Any number of levels."""
+    return sum(I1(a,e,mu,beta) for a,e in zip(A,eps)) \
+         + 2 * sum(I2(A[k],A[l],eps[k],eps[l],mu,beta)
+                   for k in range(len(A)) for l in range(k))
-- 
2.43.0


From dc473c08ed9233d3d0182857fd5528ba568ac16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 35/65] fix: cotunneling amplitude at several energies

---
 edpyt/cotunneling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 2de8c66..6c2f0ad 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -212,7 +212,7 @@ class Gf2:
     def __call__(self, z, aF, aI):
         z = np.atleast_1d(z)
         res = np.einsum('j,j,kj->k',aF.dot(self.vF.T),aI.dot(self.vI.T),
-                        np.reciprocal(z-self.E[None,:]))
+                        np.reciprocal(z[:,None]-self.E[None,:]))
         return res
 
 
-- 
2.43.0


From 3ab65092f188c28d58672e6faaa5ce5b473641fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 36/65] fix: sign of the virtual-state energies in the exact
 cotunneling integral

---
 edpyt/cotnl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 247ad0a..38d77df 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -249,7 +249,7 @@ class Sigma:
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
         Y = [Y for gf in self.gf2 for Y in gf.y(A, extract, inject)]
-        E = [-E for gf in self.gf2 for E in gf.E]
+        E = [E for gf in self.gf2 for E in gf.E]
         if len(Y) == 1:
             return Gamma1(*Y,*E,mu,beta)
         elif len(Y) == 2:
-- 
2.43.0


From 298a7e3644681579dcc850e8f1b209c7cf5be373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 37/65] fix: misplaced parenthesis in the product of lead
 occupations

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 38d77df..c5772ef 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -265,8 +265,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From 5aa069b7ee0953a1ad3467f950526c57ec44b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 38/65] fix: screening of virtual states for any coupling to
 the leads

---
 edpyt/cotnl.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index c5772ef..1dc4f42 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -332,16 +332,14 @@ def screen_transition_elements(sigmadict, egs, espace, cutoff):
                 and(abs(espace[idF[:1]].eigvals[idF[1]]-egs)<cutoff)
                 and(abs(espace[idI[:1]].eigvals[idI[1]]-egs)<cutoff)}
     # return sigmadict
-    n = sigmadict[next(iter(sigmadict))][0].gf2[0].vF.shape[1]
-    A = np.ones((2,n))
     screened = {}
     for (idF,idI), sigmalist in sigmadict.items():
         sigmas = []
         for sigma in sigmalist:
             gfs = []
             for gf in sigma.gf2:
-                y = gf.y(A, 1, 0)
-                nnz_idx = np.abs(y) > 1e-10
+                y = np.abs(gf.vF).max(1) * np.abs(gf.vI).max(1)
+                nnz_idx = y > 1e-10
                 if any(nnz_idx):
                     gfs.append(gf)
                     gf.vF = gf.vF[nnz_idx,:]
-- 
2.43.0


From 1f11b4b242d3997cd479683eca02ce3378edc63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 39/65] fix: cotunneling from sectors without a spin-flip
 partner

---
 edpyt/cotunneling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 6c2f0ad..0ba59ed 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -151,6 +151,8 @@ def project_sector(n, nupI, ndwI, espace, sigmadict, ispin=None):
             gf2hlist = project_sub(ispin_j, ispin_i, n, nupI, ndwI, espace)
         except OutOfHilbertError:
             gf2hlist = (None,)
+        if gf2elist == gf2hlist == (None,):
+            continue # transition not possible
         sigmalist.extend([Sigma(gf2e,gf2h)
                           for gf2e,gf2h in zip_longest(gf2elist,gf2hlist)])
     for sigma in sigmalist:
-- 
2.43.0


From 715690bbd1c64ca5c73b565c2f924a3f6836118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 40/65] fix: active sectors for cotunneling stay within the
 Hilbert space

---
 edpyt/cotunneling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 0ba59ed..4172bcd 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -398,7 +398,8 @@ def find_active_sectors(ngs):
 def get_active_neig(n, ngs, val=2):
     from edpyt.lookup import get_sector_index
     neig = np.zeros((n+1)*(n+1),int)
-    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)]
+    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)
+           if (0 <= nup <= n) and (0 <= ndw <= n)]
     for i in idx:
         neig[i] = val
     return neig
\ No newline at end of file
-- 
2.43.0


From b44ae3b1a75cb7f9dbae5958a31ac920641463ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 41/65] fix: cotunnelling rate matrix of a single state

---
 edpyt/cotnl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 1dc4f42..142576a 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -309,6 +309,8 @@ def build_rate_and_transition_matrices(sigmadict, beta, mu, A, extract, inject,
         # if idF[1] != idI[1]:
             W[idI,idI] -= gamma.sum()
             W[idF,idI] += gamma.sum()
+        else:
+            W[idI,idI] += 0. # same states in W and T
         T[idF,idI] += gamma[extract,inject] - gamma[inject,extract]
     if build_matrices:
         return map(lambda D: dict_to_matrix(D), [W,T])
-- 
2.43.0


From d55788afce78b99e60169c0ce8c8b0fbdcabd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 42/65] fix: init_bath sets the middle level of a bath of three
 levels

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From f40a4baea4347c77ad1b24cc36e514beafa43054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 43/65] fix: innermost bath levels stay between their
 neighbours for narrow bands

---
 edpyt/fit_cg.py      | 4 ++--
 edpyt_backend/bath.c | 4 ++--
 edpyt_backend/bath.h | 1 +
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/edpyt/fit_cg.py b/edpyt/fit_cg.py
index 957edd7..bec5a99 100644
--- a/edpyt/fit_cg.py
+++ b/edpyt/fit_cg.py
@@ -99,8 +99,8 @@ def get_initial_bath(*, p=None, nbath=None, bandwidth=2.):
     nbath_is_even = not nbath_is_odd
     if nbath_is_even and nbath>=4:
         de = bandwidth/max(nhalf-1,1)
-        ek[nhalf-1] = -0.1    
-        ek[nhalf] = 0.1    
+        ek[nhalf-1] = -min(0.1, 0.5*de)
+        ek[nhalf] = min(0.1, 0.5*de)
         for i in range(1,nhalf-1):
             ek[i] = -bandwidth + i*de
             ek[nbath-i-1] = bandwidth - i*de
diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index bea3813..9978093 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -32,8 +32,8 @@ void init_bath(double x[]) {
     // even :: [-2,-1,-0.1,0.1,+1,+2]
     if ((!(nbath&1))&&(nbath>=4)) {
         de = BANDWIDTH/(double)MAX(nhalf-1,1);
-        ek[nhalf-1] = -0.1;    
-        ek[nhalf] = 0.1;    
+        ek[nhalf-1] = -MIN(0.1, 0.5*de);
+        ek[nhalf] = MIN(0.1, 0.5*de);
         for (j=1; j<nhalf-1; j++) {
             ek[j] = -BANDWIDTH + j*de;
             ek[nbath-j-1] = BANDWIDTH - j*de;
diff --git a/edpyt_backend/bath.h b/edpyt_backend/bath.h
index c2d6077..7be86f6 100644
--- a/edpyt_backend/bath.h
+++ b/edpyt_backend/bath.h
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #define PI (double)3.14159265358979323846
 #define MAX(A, B) (A > B ? A : B)
+#define MIN(A, B) ((A) < (B) ? (A) : (B))
 
 void init_bath(double x[]);
 void eval_delta(double x[]);
-- 
2.43.0


From 2b408329c713e7ab6b4dcda95ae3598e50129f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 44/65] fix: fit_wrap starts the fit from the initial bath, not
 from uninitialised memory

---
 edpyt_backend/fit_wrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..39bec85 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -3,6 +3,8 @@ import numpy as np
 from numpy.ctypeslib import ndpointer
 from pathlib import Path
 
+from edpyt.fit_cg import get_initial_bath
+
 path = Path(__file__).parent.absolute()
 # print(path)
 lib = ct.CDLL(path/'libfit.so')
@@ -15,7 +17,7 @@ fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
 
 def fit_hybrid(nbath, nmats, delta, beta):
     
-    x = np.empty(2*nbath, np.float64)
+    x = get_initial_bath(nbath=nbath)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From 81d2540b3b2a39d51fdb1924c8e2dda54c1292ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 45/65] fix: fit_cffi passes contiguous double precision arrays
 to the library

---
 edpyt/fit_cffi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edpyt/fit_cffi.py b/edpyt/fit_cffi.py
index ee8d3a2..4b529af 100644
--- a/edpyt/fit_cffi.py
+++ b/edpyt/fit_cffi.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from edpyt_backend._fit import lib, ffi
 
 _cfit = lib.fit
@@ -6,9 +8,13 @@ def fit_hybrid(x, nmats, delta, beta):
     nbath = x.size//2
     it = ffi.new('int*')
     fret = ffi.new('double* ')
-    x_ptr = ffi.cast('double*', x.ctypes.data)
+    # The library needs contiguous double precision arrays.
+    p = np.ascontiguousarray(x, np.float64)
+    delta = np.ascontiguousarray(delta, np.complex128)
+    x_ptr = ffi.cast('double*', p.ctypes.data)
     delta_ptr = ffi.cast('double _Complex*', delta.ctypes.data)
     lib.fit(x_ptr, it, fret, nbath, nmats, delta_ptr, beta)
+    x[:] = p
     return it[0], fret[0]
 
 
-- 
2.43.0


From d6e05ffc79ae01bed9c01c6c61995c2e11a4ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 46/65] fix: cmatrix checks its allocations before using them

---
 edpyt_backend/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt_backend/util.c b/edpyt_backend/util.c
index 75185b5..ee4bfac 100644
--- a/edpyt_backend/util.c
+++ b/edpyt_backend/util.c
@@ -41,10 +41,10 @@ double complex **cmatrix(long m, long n)
 	double complex **v;
 
 	v = (double complex**)malloc((size_t) (m*sizeof(double complex*)));
+	if (!v) nrerror("allocation failure in cmatrix()");
     for (int i=0; i<m; i++) {
-        v[i] = (double complex*)malloc((size_t) (n*sizeof(double complex)));
+        v[i] = cvector(n);
 	}
-	if (!v) nrerror("allocation failure in vector()");
 	return v;
 }
 
-- 
2.43.0


From 1f87fccd92a8c4ee305308fe6b2705ef93ed554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 47/65] fix: line search keeps the minimum bracketed when a
 trial point is rejected

---
 edpyt_backend/dbrent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/dbrent.c b/edpyt_backend/dbrent.c
index 7d1d8ab..175247c 100644
--- a/edpyt_backend/dbrent.c
+++ b/edpyt_backend/dbrent.c
@@ -80,7 +80,7 @@ double dbrent(double ax, double bx, double cx, double(*f)(double),
 			MOV3(x, fx, dx, u, fu, du)
 		}
 		else {
-			if (u < x) a = x; else b = u;
+			if (u < x) a = u; else b = u;
 			if (fu <= fw || w == x) {
 				MOV3(v, fv, dv, w, fw, dw)
 				MOV3(w, fw, dw, u, fu, du)
-- 
2.43.0


From d49f5995947437703790f7a2998a057ab3953d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 48/65] fix: a fit that does not converge returns its best
 parameters instead of ending the process

---
 edpyt_backend/frprmn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt_backend/frprmn.c b/edpyt_backend/frprmn.c
index ca16f5b..e9c85fd 100644
--- a/edpyt_backend/frprmn.c
+++ b/edpyt_backend/frprmn.c
@@ -57,5 +57,6 @@ void frprmn(double p[], int n, double ftol, int *iter, double *fret,
             xi[j]=h[j]=g[j]+gam*h[j];
         }
     }
-    nrerror("Too many iterations in frprmn");
+    // Not converged: p and fret are the best found, *iter is ITMAX.
+    FREEALL
 }
\ No newline at end of file
-- 
2.43.0


From 7a26a1b3384b428cd48d4958a1cf7f5935a7d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 49/65] fix: nanostructure Green's function for any choice of
 non-equivalent sites

---
 edpyt/nano_dmft.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..937936a 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -77,15 +77,13 @@ class Gfloc:
         """Interacting Green's function."""
         z = np.atleast_1d(z)
         sigma = self.get_sigma(z)
-        it = np.nditer([sigma, z, None], flags=['external_loop'], order='F')
-        with it:
-            for sigma_, z_, out in it:
-                x = self.free(z_[0], inverse=True)
-                x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
-                out[self.idx_neq,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            return it.operands[2][self.idx_neq,...]
-                # out[self.idx_world,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            # return it.operands[2][self.idx_world,...]
+        # First index: non equivalent sites (of this process), last: frequencies.
+        out = np.empty((len(self.idx_neq),)+sigma.shape[1:], complex)
+        for i in np.ndindex(sigma.shape[1:]):
+            x = self.free(z[i[-1]], inverse=True)
+            x.flat[::(self.n+1)] -= sigma[(slice(None),)+i][self.idx_inv]
+            out[(slice(None),)+i] = np.linalg.inv(x).diagonal()[self.idx_neq]
+        return out
 
     def update(self, mu):
         """Update chemical potential."""
-- 
2.43.0


From f59f593d242f978941530a6ce51a9b8796a08f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 50/65] fix: non-causal entries of the hybridisation are really
 clamped

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 92ff059..e1e2d81 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -445,7 +445,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From 674c6f5ba12b9c8821525b8663724a3a6af42b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 51/65] fix: single-site lattices have the local level the DMFT
 loop asks for

---
 edpyt/dmft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index e1e2d81..f10e329 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -267,6 +267,8 @@ class Gfloc:
     """Parent local green's function.
     """
 
+    ed = 0.0  # local level, included in the hybridization (hilbert transform).
+
     def update(self, mu):
         """Update chemical potential."""
         self.mu = mu
-- 
2.43.0


From bd46f9f1de31dcfb54ef187b5031858412a9116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 52/65] fix: Hilbert transform of the Bethe lattice for arrays
 of frequencies

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index f10e329..9cb6f8b 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -293,7 +293,7 @@ class Gfloc:
 # Analytical Bethe lattice
 _ht = lambda z: 2 * (z - 1j * np.sign(z.imag) * np.sqrt(1 - z ** 2))
 eps = 1e-20
-ht = lambda z: _ht(z.real + 1.0j * (z.imag if z.imag > 0.0 else eps))
+ht = lambda z: _ht(z.real + 1.0j * np.where(z.imag > 0.0, z.imag, eps))
 
 
 class Gfhybrid(Gfloc):
-- 
2.43.0


From 40009f5aa9b432e7624c1c5e6ab8572efdf2a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 53/65] fix: keep the spin axis of the occupation of a single
 site

---
 edpyt/nano_dmft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 937936a..9fdcf69 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -30,11 +30,11 @@ def _get_occps_method(comm):
             self.comm.Allgather([occps_loc, occps_loc.size], [occps, occps_loc.size])
             shape = list(occps_loc.shape)
             shape[0] *= self.comm.size
-            return np.squeeze(occps.reshape(shape)[self.idx_inv,...])
+            return occps.reshape(shape)[self.idx_inv,...]
     else:
         def wrap(self, mu):
             occps = integrate_gf(self, mu)
-            return np.squeeze(occps[self.idx_inv,...])
+            return occps[self.idx_inv,...]
     return wrap
 
 
-- 
2.43.0


From d06f4910b92c581bbc96405343e170f728808415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 54/65] fix: DMFT without an occupancy goal

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 9cb6f8b..b297c1b 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -435,7 +435,7 @@ class DMFT:
             occp = self.gfloc.integrate(self.gfloc.mu)
         else:
             dmft_step(delta, self.gfimp, self.gfloc)
-            occp = self.occupancy_goal
+            occp = np.nan if self.occupancy_goal is None else self.occupancy_goal
         delta_new = self.gfloc.Delta(self.z)
         return np.sum(occp), delta_new
 
-- 
2.43.0


From 0e176ec09d0bab8a3062c4da49ca7477ac333e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 55/65] fix: sampled poles stay inside the support of the
 distribution

---
 edpyt/dedlib.py     | 3 ++-
 edpyt/dedlib_dev.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..6c66aaa 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -54,6 +54,7 @@ class RandomSampler:
         cdf = p(self.eners)
         cdf /= cdf.sum()
         cumsum(cdf)
+        cdf /= cdf[-1] # exactly one, whatever the rounding.
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
@@ -64,7 +65,7 @@ class RandomSampler:
         '''
         n = self.poles.size
         for i in range(n):
-            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random())]
+            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random(), side='right')]
         self.poles.sort()
 
 
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1a0a6bd..43e3750 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -54,6 +54,7 @@ class RandomSampler:
         cdf = p(self.eners)
         cdf /= cdf.sum()
         cumsum(cdf)
+        cdf /= cdf[-1] # exactly one, whatever the rounding.
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
@@ -64,7 +65,7 @@ class RandomSampler:
         '''
         n = self.poles.size
         for i in range(n):
-            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random())]
+            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random(), side='right')]
         self.poles.sort()
 
 
-- 
2.43.0


From 00325761bbf9f269e83a3c29a43a1f8e0d5dce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 56/65] fix: average each impurity over the samples it
 contributed to

---
 edpyt/dedlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 6c66aaa..410912e 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -355,6 +355,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
         gfimp.append(Gfimp(nbath+1))
     neig1 = None #np.ones((n+1)*(n+1),int) * 3
     neig0 = None #np.ones((n+1)*(n+1),int) * 3
+    Q = np.zeros(nimp)               # # of samples that fulfill the condition for each impurity.
     for _ in range(N):
         found = False
         while not found:
@@ -387,11 +388,13 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
                     sigma[i] += np.reciprocal(gf0[i](z))-np.reciprocal(gf(z.real,z.imag))
                     imp_occp0[i] += occp0[i]
                     imp_occp1[i] += occp1[i]
+                    Q[i] += 1
                     # imp_entropy += get_entropy(gfimp,espace,egs,beta)
                     found = True
-    sigma /= N
-    imp_occp0 /= N
-    imp_occp1 /= N
+    Q = np.where(Q > 0, Q, 1)        # 0./1.=0. : impurity is not accounted for.
+    sigma /= Q[:,None]
+    imp_occp0 /= Q
+    imp_occp1 /= Q
     # imp_entropy /= (N*kB)
     imp_entropy = 0. #(N*kB)
     if return_sigma:
-- 
2.43.0


From d3cfe5d76d802d701064111fd13282e643fde69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 57/65] fix: default interaction and chemical potential of the
 multi-orbital DED solvers

---
 edpyt/dedlib.py     | 5 ++++-
 edpyt/dedlib_dev.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 410912e..16d772c 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -327,7 +327,10 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros((nimp,z.size),complex)
         return_sigma = True
-    if sigma0 is None: sigma0 = U/2. # chemical potential
+    if not isinstance(U, (np.ndarray, dict)):
+        U = np.diag(np.full(nimp, float(U))) # same local interaction for all impurities.
+    if sigma0 is None:               # chemical potential
+        sigma0 = np.diagonal(U['U'] if isinstance(U, dict) else U)/2.
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
     # imp_entropy = 0.                 # impurity entropy
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 43e3750..92d0e13 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -371,8 +371,10 @@ def ded_solve_multi(dos, z, sigma=None, sigma0=None, n=8,
         return_sigma = True
     else:
         sigma[:] = 0.
-    if sigma0 is None: 
-        sigma0 = U/2. # chemical potential
+    if not isinstance(U, (np.ndarray, dict)):
+        U = np.diag(np.full(nimp, float(U))) # same local interaction for all impurities.
+    if sigma0 is None:               # chemical potential
+        sigma0 = np.diagonal(U['U'] if isinstance(U, dict) else U)/2.
     imp_occp0 = np.zeros(nimp)                   # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)                   # interacting impurity occupation
     # imp_entropy = np.zeros(nimp)                 # impurity entropy
-- 
2.43.0


From 7cf945062925d21cc9c1370116e92e39208e233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 58/65] fix: thermal impurity occupation in dedlib_dev

---
 edpyt/dedlib_dev.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 92d0e13..79033c0 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -132,7 +132,7 @@ class Gfimp:
         return np.reciprocal(z-self.e0-self.delta(z).sum(1))
 
 # @njit(cache=True,fastmath=True)
-def get_evecs_occupation(evecs, exps, states, pos):
+def get_evecs_occupation(evecs, exps, states_up, states_dw, pos):
     """Count particles in sector eigen-state vectors (size=dup x dwn).
 
     """
@@ -143,9 +143,7 @@ def get_evecs_occupation(evecs, exps, states, pos):
     N = 0.
     dup = states_up.size
     dwn = states_dw.size
-    if evecs.flags.f_contiguous:
-        evecs = evecs.T
-    occps = (evecs**2).reshape(-1, dwn, dup)
+    occps = (evecs.T**2).reshape(-1, dwn, dup)
 
     for iup in range(dup):
         sup = states_up[iup]
-- 
2.43.0


From c8e81e1b303627a71dbdcbae41f3f1726b4c1149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 59/65] fix: ded_solve (dedlib_dev) does not hold the states
 needed by build_gf_exact

---
 edpyt/dedlib_dev.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 79033c0..dcc768f 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -291,7 +291,8 @@ def ded_solve(dos, z, sigma=None, sigma0=None, n=4,
             # occp1 = get_occupation(evec,sct.states.up,sct.states.dw,0)
             occp1 = get_occupation(espace,egs,beta,0)
             qv = np.exp(-beta*abs(espace[N1].eigvals.min()-espace[N0].eigvals.min()))
-            gf = build_gf_exact(H,V,espace,beta,egs)
+            # espace holds the lowest states only.
+            gf = build_gf_lanczos(H,V,espace,beta,egs)
             sigma += (np.reciprocal(gf0(z))-np.reciprocal(gf(z.real,z.imag)))*qv
             imp_occp0 += occp0*qv
             imp_occp1 += occp1*qv
-- 
2.43.0


From b7b8c396c37499de1967334f01039804e545064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 60/65] fix: RandomSampler accumulates into its own copy of the
 distribution

---
 edpyt/dedlib.py     | 2 +-
 edpyt/dedlib_dev.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 16d772c..cb3d34f 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -51,7 +51,7 @@ class RandomSampler:
         '''
         self.eners = np.linspace(lims[0],lims[1],int(np.diff(lims)*nsamples+1),
                                  endpoint=True)
-        cdf = p(self.eners)
+        cdf = np.array(p(self.eners), float) # leave the user's table alone.
         cdf /= cdf.sum()
         cumsum(cdf)
         cdf /= cdf[-1] # exactly one, whatever the rounding.
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index dcc768f..2250bb0 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -51,7 +51,7 @@ class RandomSampler:
         '''
         self.eners = np.linspace(lims[0],lims[1],int(np.diff(lims)*nsamples+1),
                                  endpoint=True)
-        cdf = p(self.eners)
+        cdf = np.array(p(self.eners), float) # leave the user's table alone.
         cdf /= cdf.sum()
         cumsum(cdf)
         cdf /= cdf[-1] # exactly one, whatever the rounding.
-- 
2.43.0


From 5c8d25756ce3db84184c087aabd3da111e599899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 61/65] fix: print spin-resolved eigenspaces (eprint looked at
 the wrong object)

---
 edpyt/eshow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eshow.py b/edpyt/eshow.py
index 02a21e9..85f9598 100644
--- a/edpyt/eshow.py
+++ b/edpyt/eshow.py
@@ -24,7 +24,7 @@ def eprint(espace, n):
     def fockstates(sct):
         
         states = []
-        if hasattr(states,'up'):
+        if hasattr(sct.states,'up'):
             for sdw in sct.states.dw:
                 for sup in sct.states.up:
                     states.append( fock(sup,sdw,n) )
-- 
2.43.0


From 160c972b8b0fa8481e73fa341ac7ba1ad304efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 62/65] fix: fit_wrap takes the initial bath from its own
 library (no import of scipy.optimize)

---
 edpyt_backend/fit_wrap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 39bec85..06f427d 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -3,8 +3,6 @@ import numpy as np
 from numpy.ctypeslib import ndpointer
 from pathlib import Path
 
-from edpyt.fit_cg import get_initial_bath
-
 path = Path(__file__).parent.absolute()
 # print(path)
 lib = ct.CDLL(path/'libfit.so')
@@ -13,11 +11,16 @@ fit.restype = None
 fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
                 ct.POINTER(ct.c_double),ct.c_int,ct.c_int,
                 ndpointer(np.complex128),ct.c_double]
+init_bath = lib.init_bath
+init_bath.restype = None
+init_bath.argtypes = [ndpointer(ct.c_double)]
 
 
 def fit_hybrid(nbath, nmats, delta, beta):
     
-    x = get_initial_bath(nbath=nbath)
+    x = np.empty(2*nbath)
+    ct.c_int.in_dll(lib, 'nbath').value = nbath
+    init_bath(x)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From f2fdd78f5395140d6bda437ad80ea548db3e9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 63/65] fix: exact sector dimensions for large registers (the
 rounded binomial product was truncated)

---
 edpyt/espace.py | 6 +++---
 edpyt/sector.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edpyt/espace.py b/edpyt/espace.py
index 74245ec..affa86b 100644
--- a/edpyt/espace.py
+++ b/edpyt/espace.py
@@ -8,7 +8,7 @@ from itertools import product
 from edpyt.sector import (
     generate_states,
     get_sector_dim,
-    binom
+    comb
 )
 
 from edpyt.build_mb_ham import (
@@ -95,8 +95,8 @@ def get_espace_dim(n, neig_max=None, symmetry='sz'):
     
     elif symmetry.upper() == 'N':
         neig_sector = np.zeros(2*n+1, int)
-        for ndu in np.ndindex(2*n+1):
-            neig_sector[ndu] = binom(2*n,ndu)
+        for ndu in range(2*n+1):
+            neig_sector[ndu] = comb(2*n,ndu,exact=True)
     
     else:
         raise NotImplementedError(f"Symmetry - {symmetry} - non implemented.")
diff --git a/edpyt/sector.py b/edpyt/sector.py
index e7ffbec..47fd6f2 100644
--- a/edpyt/sector.py
+++ b/edpyt/sector.py
@@ -3,7 +3,7 @@ import numpy as np
 from numba import njit
 
 # Binomial coefficient
-from scipy.special import binom
+from scipy.special import binom, comb
 
 # Unsigned dtype
 from edpyt.shared import (
@@ -34,14 +34,14 @@ def get_sector_dim(n, nup, ndw):
 
     """
     # return binom(n, p)
-    return int(binom(n, nup)*binom(n, ndw))
+    return comb(n, nup, exact=True)*comb(n, ndw, exact=True)
 
 # @njit('uint32[:](int64,int64)')
 def generate_states(n, p):
     """Generate states in sector.
 
     """
-    num_states = int(binom(n, p))
+    num_states = comb(n, p, exact=True)
     states = np.zeros(num_states,dtype=unsiged_dt)
     initial = unsiged_dt((1<<p)-1)
     states[0] = initial
-- 
2.43.0


From 4263d433f19cd3fec2df928ae21cc41e1353d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 64/65] fix: sequential elements extracted from cotunneling
 elements count each spin once

---
 edpyt/sqtnl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index 494fe13..2e38673 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -18,6 +18,8 @@ def extract_sequential_from_cotunneling(sigmadict):
             continue
         for sigma in sigmalist:
             spins = sigma.spins
+            if spins[0] != spins[1]: # each spin once
+                continue
             for gf in sigma.gf2:
                 if isinstance(gf, Gf2e):
                     for j in range(gf.vI.shape[0]):
-- 
2.43.0


From c0d1d067ae226eef6cd930f70e7c93a767954360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 65/65] fix: draw_spin_density takes the eigenvector as a
 column (a 1d vector was turned into a row and could not be contracted)

---
 edpyt/cotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotools.py b/edpyt/cotools.py
index 48c9159..f7625bd 100644
--- a/edpyt/cotools.py
+++ b/edpyt/cotools.py
@@ -54,7 +54,7 @@ def draw_spin_density(atoms, evec, states, n, subset=None, axes=None, plane='xy'
         """
     axes = draw_skeleton(atoms, axes, plane)
     nup, ndw = map(lambda nxx: nxx[:,0], 
-                   get_evecs_occupation(np.atleast_2d(evec),states.up,states.dw,n))
+                   get_evecs_occupation(np.reshape(evec,(-1,1)),states.up,states.dw,n))
     ax = 'xyz'.index(plane[0]), 'xyz'.index(plane[1])
     for i in range(n):
         circle = plt.Circle(positions[i,ax], nup[i], color='black', zorder=10)
-- 
2.43.0

