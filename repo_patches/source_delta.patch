From 3d8b00bb71aa46edfa0fdfb8be1c8187f9cf7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 01/10] fix: allgather_dict uses a numpy alias that no longer
 exists

---
 impurityModel/ed/mpi_comm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index a7f88fd..e2754ea 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -70,7 +70,7 @@ def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
     # Measure time for constructing H in matrix form
     t0 = time.time()
     # Number of elements for each rank.
-    n_ps_new = np.zeros(ranks, dtype=np.int)
+    n_ps_new = np.zeros(ranks, dtype=int)
     for r in range(ranks):
         n_ps_new[r] = comm.bcast(len(data), root=r)
     # Determine here if we can use a simple Allgather or need
-- 
2.43.0


From 4b54ef5f7d6f71d79f94c3411c9a555c014dc20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 02/10] fix: RIXS map mixed up the out-going transition
 operators

The memory of already calculated product states was one and the same
dictionary for all out-going operators, so every operator but the first
one returned the first one's result.
---
 impurityModel/ed/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 87f163f..fa8a2e1 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -907,7 +907,8 @@ def getRIXSmap(
     # Hamiltonian dict of the form  |PS> : {H|PS>}
     # For product states with a core hole.
     h_dict_excited = {}
-    tOut_big = [{}] * len(tOpsOut)
+    # One (independent) dictionary for each out-going transition operator.
+    tOut_big = [{} for _ in tOpsOut]
     if parallelization_mode in ("serial", "H_build"):
         # Loop over in-coming transition operators
         for tIn, tOpIn in enumerate(tOpsIn):
-- 
2.43.0


From 5f1ef183205cce74dc0a570d02ab41964c185941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 03/10] fix: MPI ranks could proceed with different eigenstates

Each rank diagonalized on its own. Phases and the basis of degenerate
levels are arbitrary, and the distributed Lanczos and Hamiltonian
construction mixed the different choices.
---
 impurityModel/ed/finite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 1747d70..359186e 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -109,6 +109,11 @@ def eigensystem(
         vecs = np.array([vecs[:, i] for i in indices]).T
     else:
         print("Wrong diagonalization mode")
+    # The phase of an eigenvector, the choice of eigenvectors to a degenerate
+    # eigenvalue and rounding errors can differ between MPI ranks.
+    # Make sure all ranks proceed with the same eigenstates.
+    es = comm.bcast(es, root=0)
+    vecs = comm.bcast(vecs, root=0)
     if rank == 0:
         print("Proceed with {:d} eigenstates.\n".format(len(es)))
     psis = [
-- 
2.43.0


From 57f1232155f6e755a67b55b4c1f1149979d367fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 04/10] fix: exhausted Krylov space made the Lanczos run fail,
 or hang with MPI

If the start vector spans an invariant subspace, beta becomes zero. The
continued fraction is then complete, but a ValueError was raised; in the
distributed mode only by rank 0, with the other ranks waiting for it.
---
 impurityModel/ed/finite.py  | 23 +++++++++++------------
 impurityModel/ed/spectra.py | 11 +++++------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 359186e..8d57105 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1960,14 +1960,14 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
         for j in range(1, krylovSize):
             if rank == 0:
                 beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
-                if beta[j - 1] != 0:
-                    v[1, :] = w / beta[j - 1]
-                else:
-                    # Pick normalized state v[j],
-                    # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                    raise ValueError(("Warning: beta==0, " + "implementation absent!"))
+                # If beta is zero, the Krylov space is exhausted.
+                v[1, :] = w / beta[j - 1] if beta[j - 1] != 0 else 0
             # Broadcast vector v[1,:] from rank 0 to all ranks.
             comm.Bcast(v[1, :], root=0)
+            # A zero vector tells all ranks that the Krylov space is exhausted.
+            # Remaining alpha and beta stay zero: they do not contribute.
+            if not v[1, :].any():
+                break
             wp_local = h.dot(v[1, :])
             # Reduce vector wp_local to the vector wp at rank 0.
             wp = np.zeros_like(wp_local)
@@ -1985,12 +1985,11 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
         # and more importantly the vectors alpha and beta
         for j in range(1, krylovSize):
             beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
-            if beta[j - 1] != 0:
-                v[1, :] = w / beta[j - 1]
-            else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                raise ValueError("Warning: beta==0, implementation absent!")
+            if beta[j - 1] == 0:
+                # The Krylov space is exhausted.
+                # Remaining alpha and beta stay zero: they do not contribute.
+                break
+            v[1, :] = w / beta[j - 1]
             wp = h.dot(v[1, :])
             alpha[j] = np.dot(np.conj(wp), v[1, :]).real
             w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index fa8a2e1..c287744 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -633,12 +633,11 @@ def getGreen(
         for j in range(1, krylovSize):
             beta[j - 1] = sqrt(norm2(w[j - 1]))
             # print('beta[',j-1,'] = ',beta[j-1])
-            if beta[j - 1] != 0:
-                v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
-            else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                print("Warning: beta==0, implementation missing!")
+            if beta[j - 1] == 0:
+                # The Krylov space is exhausted.
+                # Remaining alpha and beta stay zero: they do not contribute.
+                break
+            v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
             # print('len(v[',j,'] =',len(v[j]))
             wp[j] = applyOp(n_spin_orbitals, hOp, v[j], slaterWeightMin, restrictions, h_dict)
             alpha[j] = inner(wp[j], v[j]).real
-- 
2.43.0


From ab963c03d4c109572e36b900fdd21dd6e8d03f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 05/10] fix: a truncated RIXS.bin could be written without any
 error

ndarray.tofile ignores the result of the final flush, e.g. on a full disk.
---
 impurityModel/ed/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index c287744..db4e78e 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -290,7 +290,9 @@ def simulate_spectra(
         tmp[0, 1:] = wIn
         tmp[1:, 0] = wLoss
         tmp[1:, 1:] = aSum.T
-        tmp.tofile("RIXS.bin")
+        # ndarray.tofile does not report errors which occur when the file is closed.
+        with open("RIXS.bin", "wb") as handle:
+            handle.write(tmp.tobytes())
     if rank == 0:
         print("time(RIXS) = {:.2f} seconds \n".format(time.time() - t0))
         t0 = time.time()
-- 
2.43.0


From 332b3c8c456492a99c236152b80601291dcc2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 06/10] fix: crystal-field Hamiltonian was rejected as
 non-Hermitian

The rotation to spherical harmonics leaves rounding errors, which the
exact Hermiticity check does not accept, e.g. for h0_NiO_CF.json.
---
 impurityModel/ed/get_spectra_using_CF.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index df7fda7..bf5e372 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -482,6 +482,8 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     # Convert to spherical harmonics basis
     u = finite.get_spherical_2_cubic_matrix(spinpol=False, l=l)
     h_imp_3d = np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))
+    # Rounding errors in the rotation should not make the matrix non-Hermitian.
+    h_imp_3d = (h_imp_3d + np.conj(h_imp_3d.T)) / 2
     # Convert from matrix to operator form.
     # Also add spin.
     h_imp_3d_operator = {}
@@ -520,6 +522,8 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     vCon3d = np.dot(u_bath, np.dot(vCon3d, np.conj(u.T)))
     eBathVal3d = np.dot(u_bath, np.dot(eBathVal3d, np.conj(u_bath.T)))
     eBathCon3d = np.dot(u_bath, np.dot(eBathCon3d, np.conj(u_bath.T)))
+    eBathVal3d = (eBathVal3d + np.conj(eBathVal3d.T)) / 2
+    eBathCon3d = (eBathCon3d + np.conj(eBathCon3d.T)) / 2
     # Convert from matrix to operator form.
     # Also introduce spin.
     h_hopp_operator = {}
-- 
2.43.0


From c5b3dbb725efed7c16ea46aa7a1b8475bd5a2d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 07/10] fix: an error on one MPI rank left the other ranks
 waiting forever

An uncaught exception made the failing rank wait in MPI_Finalize, and all
others in their next communication, so the job never ended.
---
 impurityModel/ed/get_spectra.py          |  2 ++
 impurityModel/ed/get_spectra_using_CF.py |  2 ++
 impurityModel/ed/mpi_comm.py             | 21 +++++++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index ba538fc..1b335c3 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -16,8 +16,10 @@ from mpi4py import MPI
 from impurityModel.ed import finite, spectra
 from impurityModel.ed.average import k_B
 from impurityModel.ed.finite import assert_hermitian, c2i
+from impurityModel.ed.mpi_comm import abort_on_error
 
 
+@abort_on_error()
 def main(
     h0_filename,
     radial_filename,
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index bf5e372..f638d54 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -16,8 +16,10 @@ from mpi4py import MPI
 from impurityModel.ed import finite, spectra
 from impurityModel.ed.average import k_B
 from impurityModel.ed.finite import assert_hermitian, c2i
+from impurityModel.ed.mpi_comm import abort_on_error
 
 
+@abort_on_error()
 def main(
     h0_CF_filename,
     radial_filename,
diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index e2754ea..bcecec3 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -3,7 +3,10 @@ This module contains help functions for MPI communication.
 """
 
 import math
+import sys
 import time
+import traceback
+from contextlib import contextmanager
 from itertools import islice
 
 import numpy as np
@@ -15,6 +18,24 @@ rank = comm.rank
 ranks = comm.size
 
 
+@contextmanager
+def abort_on_error():
+    """
+    Abort the whole MPI job if an error occurs on this rank.
+
+    Otherwise the other MPI ranks would wait forever for this rank.
+
+    """
+    try:
+        yield
+    except BaseException:
+        if ranks > 1:
+            traceback.print_exc()
+            sys.stderr.flush()
+            comm.Abort(1)
+        raise
+
+
 def dict_chunks_from_one_MPI_rank(data, chunk_maxsize=1 * 10**6, root=0):
     """
     Divide up date in chunks for one MPI rank.
-- 
2.43.0


From 0b5bef0e6ba156040e5d82cd247d136ae75a8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 08/10] fix: a Hamiltonian which contains NaN was accepted as
 Hermitian

---
 impurityModel/ed/finite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 8d57105..5ea293c 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -293,6 +293,8 @@ def daggerOp(op):
 
 
 def assert_hermitian(op: dict[tuple, int | float | complex]):
+    # The comparison below does not notice NaN, since the same object is considered equal to itself.
+    assert all(np.isfinite(value) for value in op.values())
     assert daggerOp(op) == op
 
 
-- 
2.43.0


From 742c427648160e09b4990eb30e6ca4beaf875cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 09/10] fix: thermal expectation values were printed for 300 K
 at any temperature

---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index 1b335c3..a0f96ca 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -208,7 +208,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index f638d54..3e95af8 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -208,7 +208,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
-- 
2.43.0


From 9a1a8df75c4fdb868f36033148d8cdbe4d446016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 10/10] fix: only rank 0 obtained the Green's functions in the
 distributed mode

---
 impurityModel/ed/finite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 5ea293c..06fc474 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1978,6 +1978,9 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
                 alpha[j] = np.dot(np.conj(wp), v[1, :]).real
                 w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
                 v[0, :] = v[1, :]
+        # Only rank 0 knows the elements so far, but all ranks return them.
+        alpha = comm.bcast(alpha, root=0)
+        beta = comm.bcast(beta, root=0)
     else:
         # Initialization...
         wp = h.dot(v[0, :])
-- 
2.43.0

