From f29ac6416184dc46dba49c1c587bf69de90cc2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 01/14] fix: invert negative integers mod p

---
 src/permaviss/gauss_mod_p/arithmetic_mod_p.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
index 9492425..c7ca94c 100644
--- a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
+++ b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
@@ -71,6 +71,8 @@ def inv_mod_p(a, p):
         print("cannot invert 0!")
         raise ValueError
 
+    # work with the representative of a in [1, p)
+    a = a % p
     x0, x1 = 0, 1
     y0, y1 = 1, 0
     b = p
-- 
2.43.0


From f038e380e50ac46b7ef0cb92b7d01e55e0da2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 02/14] fix: cover point clouds that are flat in some direction

---
 src/permaviss/covers/cubical_cover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 159c4ae..e8a8ca8 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -124,7 +124,11 @@ def generate_cover(max_div, overlap, point_cloud):
     div = []  # list containing no of divisions per dimension
     pos = []  # list containing current position
     for d in range(dim):
-        div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        # flat directions still need one hypercube
+        if max_corner[d] > min_corner[d]:
+            div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        else:
+            div.append(1)
         number_hypercubes *= div[d]  # compute total number of hypercubes
         pos.append(0)  # initialize position list to zero
 
-- 
2.43.0


From 78bb671d7f1807893ee89d8ddd76c400dd9e45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 03/14] fix: cover integer point clouds without truncating the
 hypercubes

---
 src/permaviss/covers/cubical_cover.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index e8a8ca8..6706243 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -117,6 +117,8 @@ def generate_cover(max_div, overlap, point_cloud):
     dim = np.size(point_cloud, 1)
     # Find the 'corners' of the dataset
     min_corner, max_corner = corners_hypercube(point_cloud)
+    # the corners of hypercubes are not integers, even if the points are
+    min_corner = np.array(min_corner, dtype=float)
     # Find the largest coordinate difference between min_corner and max_corner
     max_length = np.amax(np.absolute(max_corner - min_corner))
     side = max_length / max_div  # side of division hypercubes
-- 
2.43.0


From 14dabf896656180583b248a76c761330367e3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 04/14] fix: do not overwrite the death of image bars that
 already died

---
 src/permaviss/persistence_algebra/image_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 5e27f46..a6bb42d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -178,7 +178,6 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         pivots_Ker[:col_idx], p)
                     if pivots_Ker[col_idx] != -1:
                         new_pivots.append(pivots_Ker[col_idx])
-                        Im_barcode[pivots_Ker[col_idx], 1] = rad
                         cycle_coord = Ker_coordinates[:, col_idx]
                         new_coord_Im = multiply_mod_p(
                             F[:, active_A],
-- 
2.43.0


From 3aacd69dd00832313aff145a45a6bac1f385036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 05/14] fix: drop stale preimage coordinates of image bars

---
 src/permaviss/persistence_algebra/image_kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index a6bb42d..6b7e022 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -189,6 +189,7 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                                 :, pivots_Ker[col_idx]] = new_coord_Im
                             Im_barcode[pivots_Ker[col_idx], 1] = rad
                             pivots_Im[pivots_Ker[col_idx]] = int(-1)
+                            T[:, pivots_Ker[col_idx]] = 0
                             T[:, pivots_Ker[col_idx]][
                                 active_A] = cycle_coord[active_A]
                         # end if else
-- 
2.43.0


From 83282476906c5190e0710f8536297b151d68e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 06/14] fix: representatives of relative image bars

---
 src/permaviss/persistence_algebra/image_kernel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 6b7e022..2f23fb6 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -203,6 +203,10 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                 if (col_idx >= start_index) and (pivots_Im[col_idx] != -1):
                     Im_barcode[col_idx, 1] = rad
                     pivots_Im[col_idx] = int(-1)
+                    # generators that are still alive need not vanish here
+                    if start_index > 0 and np.any(
+                            Im_coordinates[active_B, col_idx] % p):
+                        T[active_A, col_idx] = 0
                 # end if
             # end for
             # update broken barcodes
@@ -248,6 +252,10 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
             # end if
         # end for
     # end if
+    # relative generators are given by the columns from start_index on
+    if start_index > 0:
+        T[:start_index] = 0
+        Im_coordinates = multiply_mod_p(F, T, p)
     Im_coordinates = Im_coordinates[return_order_B][:, start_index:]
     Im_basis = barcode_basis(Im_barcode[start_index:], B_origin,
                              Im_coordinates, store_well_defined=True)
-- 
2.43.0


From e36fc2e5f1879d9837754c896ed24e0c7eecdf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 07/14] fix: quotient by the boundaries when the differential
 has trivial target

---
 .../persistence_algebra/module_persistence_homology.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/persistence_algebra/module_persistence_homology.py b/src/permaviss/persistence_algebra/module_persistence_homology.py
index 8326975..ac29e61 100644
--- a/src/permaviss/persistence_algebra/module_persistence_homology.py
+++ b/src/permaviss/persistence_algebra/module_persistence_homology.py
@@ -101,8 +101,12 @@ def module_persistence_homology(D, Base, p):
             Im[d-1] = barcode_basis([], Base[d-1])
             Hom[d] = barcode_basis([], Base[d])
         elif Base[d-1].dim == 0:
-            Im[d-1] = Base[d-1]
-            Hom[d] = Base[d]
+            Im[d-1] = barcode_basis([], Base[d-1])
+            # the whole of Base[d] lies in the kernel
+            Ker = barcode_basis(Base[d].barcode, Base[d],
+                                np.identity(Base[d].dim))
+            Ker.sort()
+            Hom[d] = quotient(Ker, Im[d], p)
         else:
             # compute barcode bases for image and kernel
             Im[d - 1], Ker, PreIm[d] = image_kernel(
-- 
2.43.0


From 733cd550785004f81c29a99add6547f48f657102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 08/14] fix: lift Cech differentials on covers with boundaries
 but no classes

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 1209417..ba48b32 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -534,8 +534,8 @@ class spectral_sequence(object):
         # if nerve_spx_index==0, then prev=0
         prev = self.cycle_dimensions[n_dim][deg][nerve_spx_index-1]
         next = self.cycle_dimensions[n_dim][deg][nerve_spx_index]
-        # if trivial cover skip
-        if prev == next:
+        # if trivial cover skip (there are neither classes nor boundaries)
+        if prev == next and self.Im[0][n_dim][nerve_spx_index][deg].dim == 0:
             return
         # CECH DIFFERENTIAL
         generators, local_chains = self.cech_diff_local(
-- 
2.43.0


From 2d33c2f38e1fbaccebab8dc59ab79dcd32782850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 09/14] fix: lift to page when every class is a boundary

---
 .../spectral_sequence/spectral_sequence_class.py         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index ba48b32..94df51e 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -385,6 +385,10 @@ class spectral_sequence(object):
                 else:
                     Im_Hom = Hom.coordinates
                     barcode_col = Hom.barcode
+            elif Im.dim > 0:
+                # all classes are boundaries
+                Im_Hom = Im.coordinates
+                barcode_col = Im.barcode
             else:
                 Betas = np.array([])
                 Gammas = np.array([])
@@ -395,7 +399,10 @@ class spectral_sequence(object):
             barcode_col = np.append(barcode_col, Beta_barcode, axis=0)
             A = np.append(Im_Hom, Betas, axis=1)
             # barcodes of rows
-            barcode_row = self.Hom[k][n_dim][deg].prev_basis.barcode
+            if Hom.dim > 0:
+                barcode_row = Hom.prev_basis.barcode
+            else:
+                barcode_row = Im.prev_basis.barcode
             # gaussian reduction on matrix between persistence modules
             # order here barcode_row
             rows_basis = barcode_basis(barcode_row)
-- 
2.43.0


From 8ff1f638c8bb8642c0ec58abcf57025ed7e53d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 10/14] fix: keep degrees aligned when a diagonal is trivial

---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 2455bc3..f8939b3 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -274,6 +274,10 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             PH, _ = image_kernel(
                 diagonal_basis, direct_sum_basis, diag_diff, MV_ss.p)
             MV_ss.persistent_homology.append(PH)
+        else:
+            # keep degrees aligned when the diagonal is trivial
+            MV_ss.order_diagonal_basis.append([])
+            MV_ss.persistent_homology.append(barcode_basis([]))
         # end if
     # end for
     print("Total PerMaViss time:{}".format(time.time()-start))
-- 
2.43.0


From 1fdcdd73c50105d19bbadf659f31fbfb00fd1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 11/14] fix: sample the sphere of the given radius

---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9c8265f..46169a8 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -167,7 +167,7 @@ def random_sphere(no_points, radius, dim):
         v = np.array(point)
         norm = np.linalg.norm(v)
         for d in range(dim):
-            point[d] = point[d] / norm
+            point[d] = radius * point[d] / norm
 
         point_cloud.append(point)
 
-- 
2.43.0


From dbd18030f6843de496601042a8c622487cc0ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:24 +0000
Subject: [PATCH 12/14] fix: image_kernel reduces columns whose last entry
 moved when the range is broken

Updating a broken basis can leave a column with its last nonzero active
entry in another row than its recorded pivot. The column kept the stale
pivot, so later reductions by it were wrong or recursed for ever.
---
 src/permaviss/persistence_algebra/image_kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 2f23fb6..87e3966 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -215,7 +215,10 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
         # end if else
         new_pivots = []
         for col_idx, piv in enumerate(np.copy(pivots_Im)):
-            if (piv >= 0 and Im_coordinates[piv, col_idx] % p == 0) or (
+            # the last nonzero entry may have moved if B is broken
+            nonzero = active_B[np.nonzero(
+                Im_coordinates[active_B, col_idx] % p)[0]]
+            if (piv >= 0 and (len(nonzero) == 0 or nonzero[-1] != piv)) or (
                     piv in dying_B) or (piv in new_pivots) or (col_idx in birth_A):
                 pivots_Im[col_idx] = pivot_check_reduce(
                     Im_coordinates, active_B, col_idx, pivots_Im[:col_idx],
-- 
2.43.0


From 106f9f149bae1c1d7c153985d3649d6ed916732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:27 +0000
Subject: [PATCH 13/14] fix: reduce extension chains by Cech differentials of
 preimages

When a chain over an intersection of regions is reduced by images of page
differentials, the local representatives of the image classes were added.
These differ from the differential of the preimages by vertical boundaries,
so that the chains on the following regions were not cycles any more and
create_MV_ss raised RuntimeError.
---
 .../spectral_sequence_class.py                | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 94df51e..c0b2147 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1131,34 +1131,39 @@ class spectral_sequence(object):
                     raise(RuntimeError)
                 # MODIFY TOTAL COMPLEX REPS using GAMMAS
                 if np.any(Gammas):
-                    # compute coefficients of Gammas in 1st page
-                    image_classes = np.matmul(
-                        self.Im[target_page-1][Sn_dim][Sdeg].coordinates,
-                        -Gammas.T)
-                    # look for bars that might be already zero
+                    # classes whose differentials are the images in -Gammas
+                    Tn_dim = Sn_dim + target_page - 1
+                    Tdeg = Sdeg - target_page + 2
+                    preimage_sums = np.matmul(
+                        self.PreIm[target_page-1][Tn_dim][Tdeg], -Gammas.T).T
                     if target_page == 2:
-                        # obtain coefficients for gammas
-                        image_chains = local_chains(
-                            self.nerve_spx_number[Sn_dim])
+                        # local representatives of first page classes
+                        preimage_chains = local_chains(
+                            self.nerve_spx_number[Tn_dim])
                         prev = 0
                         for nerv_idx, next in enumerate(self.cycle_dimensions[
-                                Sn_dim][Sdeg]):
+                                Tn_dim][Tdeg][:-1]):
                             if prev < next:
-                                image_chains.add_entry(
+                                preimage_chains.add_entry(
                                     nerv_idx, range(np.size(Gammas, 0)),
                                     np.matmul(
-                                        image_classes[prev:next].T,
-                                        self.Hom[0][Sn_dim][nerv_idx][
-                                            Sdeg].coordinates.T)
+                                        preimage_sums[:, prev:next],
+                                        self.Hom[0][Tn_dim][nerv_idx][
+                                            Tdeg].coordinates.T)
                                 )
                             prev = next
                         # end for
                     else:
-                        image_chains = local_chains.sums(
-                            self.Hom_reps[target_page-2][Sn_dim][Sdeg][0],
-                            image_classes.T
+                        # the last entry is the one next to (Sn_dim, Sdeg)
+                        preimage_chains = local_chains.sums(
+                            self.Hom_reps[target_page-2][Tn_dim][Tdeg][-1],
+                            preimage_sums
                         )
                     # end else
+                    # the total differential of the preimages is their Cech
+                    # differential
+                    image_chains = self.cech_diff(
+                        Sn_dim, Sdeg, preimage_chains)
                     chains += image_chains
                 # end if
             # end for
-- 
2.43.0


From 32eab3a69a19c664dbcf1d98722bec3983865d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:59 +0000
Subject: [PATCH 14/14] fix: add local chains whose references are not in
 increasing order

local_chains.__add__ placed rows by a mask over the sorted references (or
kept them as they were when the other side was empty), so rows went to the
wrong reference when an operand listed its references in another order.
---
 src/permaviss/spectral_sequence/local_chains_class.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/spectral_sequence/local_chains_class.py b/src/permaviss/spectral_sequence/local_chains_class.py
index 44faadc..6ba6875 100644
--- a/src/permaviss/spectral_sequence/local_chains_class.py
+++ b/src/permaviss/spectral_sequence/local_chains_class.py
@@ -125,12 +125,12 @@ class local_chains(object):
             new_ref.append(C_ref.astype(int))
             if min(len(A_ref), len(B_ref)) > 0:
                 C_coord = np.zeros((len(C_ref), np.size(A_coord, 1)))
-                C_coord[np.isin(C_ref, A_ref)] += A_coord
-                C_coord[np.isin(C_ref, B_ref)] += B_coord
+                C_coord[np.searchsorted(C_ref, A_ref)] += A_coord
+                C_coord[np.searchsorted(C_ref, B_ref)] += B_coord
             elif len(A_ref) > 0:
-                C_coord = A_coord
+                C_coord = A_coord[np.argsort(A_ref)]
             elif len(B_coord) > 0:
-                C_coord = B_coord
+                C_coord = B_coord[np.argsort(B_ref)]
             else:
                 C_coord = []
             new_chains.append(C_coord)
-- 
2.43.0

