From 5c8147691fc02de1dd7a4a7586d359d3c33ac050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 01/57] fix: avoid signed overflow in the insulation layer of
 an exterior root quadrant

---
 src/p4est_algorithms.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index 5a33c9c..faf393a 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -1005,6 +1005,15 @@ p4est_tree_compute_overlap (p4est_t * p4est, sc_array_t * in,
         if (which == P4EST_INSUL / 2) {
           continue;
         }
+        /* stepping further outside does not overlap and might overflow */
+        if ((l == 2 && inq->x >= P4EST_ROOT_LEN) ||
+            (k == 2 && inq->y >= P4EST_ROOT_LEN) ||
+#ifdef P4_TO_P8
+            (m == 2 && inq->z >= P4EST_ROOT_LEN) ||
+#endif
+            0) {
+          continue;
+        }
         s = &ins[which];
         *s = *inq;
         s->x += (l - 1) * qh;
-- 
2.43.0


From 081ccc28c07b7c1f5cb796616735a637586d9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 02/57] fix: treat trees connected only by an edge or corner as
 connected

The shortcut for trees without face neighbors ignored links through
tree_to_edge and tree_to_corner, so that corner (edge) balance and the
ghost layer missed neighbors in trees that meet only in a corner or edge,
such as those of the bowtie connectivity.
---
 src/p4est.c               | 11 +++++++++++
 src/p4est_communication.c | 17 +++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/p4est.c b/src/p4est.c
index bd0a058..a8b7914 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -1448,6 +1448,17 @@ p4est_balance_ext (p4est_t * p4est, p4est_connect_type_t btype,
     for (face = 0; face < P4EST_FACES; ++face) {
       any_face = any_face || tree_contact[face];
     }
+    /* trees may also be connected by just an edge or corner */
+#ifdef P4_TO_P8
+    for (edge = 0; conn->num_edges > 0 && edge < P8EST_EDGES; ++edge) {
+      any_face = any_face || conn->tree_to_edge[P8EST_EDGES * nt + edge] >= 0;
+    }
+#endif
+    for (corner = 0; conn->num_corners > 0 && corner < P4EST_CHILDREN;
+         ++corner) {
+      any_face = any_face ||
+        conn->tree_to_corner[P4EST_CHILDREN * nt + corner] >= 0;
+    }
     if (any_face) {
       tree_flags[nt] |= any_face_flag;
     }
diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index b4aa05d..ebc4f30 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -862,7 +862,9 @@ p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
   const p4est_qcoord_t qh = P4EST_QUADRANT_LEN (q->level);
   const int           rank = p4est->mpirank;
   int                 n0_proc, n1_proc;
+  int                 i;
   p4est_quadrant_t    n0, n1;
+  p4est_connectivity_t *conn = p4est->connectivity;
 
   if (full_tree[0] && full_tree[1]) {
     /* need only to consider boundary quadrants */
@@ -875,6 +877,21 @@ p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
           (tree_contact[5] && q->z == P4EST_ROOT_LEN - qh) ||
 #endif
           0)) {
+      /* the tree may still connect to others by just an edge or corner */
+#ifdef P4_TO_P8
+      for (i = 0; conn->num_edges > 0 && i < P8EST_EDGES; ++i) {
+        if (conn->tree_to_edge[P8EST_EDGES * which_tree + i] >= 0 &&
+            p8est_quadrant_touches_edge (q, i, 1)) {
+          return 0;
+        }
+      }
+#endif
+      for (i = 0; conn->num_corners > 0 && i < P4EST_CHILDREN; ++i) {
+        if (conn->tree_to_corner[P4EST_CHILDREN * which_tree + i] >= 0 &&
+            p4est_quadrant_touches_corner (q, i, 1)) {
+          return 0;
+        }
+      }
       return 1;
     }
   }
-- 
2.43.0


From 3144e68bd3f79ae9f4a3bd75f526dd750eac39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 03/57] fix: avoid an undefined shift in the 3D face balance
 construction

---
 src/p4est_balance.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index 80d9776..b6a014a 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -511,11 +511,6 @@ p4est_bal_face_con_internal (p4est_quadrant_t const *q,
       }
     }
 #else
-#if 0
-    b2mask = -1 << (P4EST_MAXLEVEL - (blevel - 2));
-#else
-    b2mask = P4EST_QUADRANT_MASK (blevel - 2);
-#endif
     if (!balance) {
       achild = p8est_quadrant_child_id (&a);
     }
@@ -558,6 +553,8 @@ p4est_bal_face_con_internal (p4est_quadrant_t const *q,
             dual = p8est_face_corners[face][(1 + j) + (1 + i) / 2];
 
             if (achild == dual) {
+              /* temp is inside the original p, thus blevel is at least 2 */
+              b2mask = P4EST_QUADRANT_MASK (blevel - 2);
               temp.x &= b2mask;
               temp.y &= b2mask;
               temp.z &= b2mask;
-- 
2.43.0


From 044c2d9d520bb2d101103fce493a4fb1889d79d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 04/57] fix: detect inconsistent owners across rotated faces in
 the balance check

The check of the smaller neighbors for a unique owner, which is there to
prevent deadlocks on unbalanced forests, transformed the upper right
descendant into the neighbor tree, where it is in general not the last one.
With rotated faces p4est_is_balanced could thus hang.
---
 src/p4est_ghost.c | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/p4est_ghost.c b/src/p4est_ghost.c
index 4869eb1..1b0d917 100644
--- a/src/p4est_ghost.c
+++ b/src/p4est_ghost.c
@@ -118,9 +118,16 @@ static p4est_ghost_t *p4est_ghost_new_check (p4est_t * p4est,
                                              p4est_connect_type_t btype,
                                              p4est_ghost_tolerance_t tol);
 
-int
-p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
-                           int face, const p4est_quadrant_t * q)
+/** Find the owner of the first or last descendant of a quadrant.
+ *
+ * The descendant is chosen after the transformation into the neighbor tree:
+ * transforming the first and last descendants individually would in general
+ * not yield the first and last ones with respect to that tree.
+ */
+static int
+p4est_quadrant_find_desc_owner (p4est_t * p4est, p4est_topidx_t treeid,
+                                int face, const p4est_quadrant_t * q,
+                                int last)
 {
   const int           rank = p4est->mpirank;
   p4est_connectivity_t *conn = p4est->connectivity;
@@ -131,12 +138,16 @@ p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
   p4est_topidx_t      ntreeid;
   p4est_quadrant_t    nq;
 
+  P4EST_QUADRANT_INIT (&nq);
+
   if (p4est_quadrant_is_inside_root (q)) {
+    if (last) {
+      p4est_quadrant_last_descendant (q, &nq, P4EST_QMAXLEVEL);
+      q = &nq;
+    }
     return p4est_comm_find_owner (p4est, treeid, q, rank);
   }
 
-  P4EST_QUADRANT_INIT (&nq);
-
   /* We are outside of the unit tree */
   if (face != -1) {
     P4EST_ASSERT (face >= 0 && face < P4EST_FACES);
@@ -191,10 +202,20 @@ p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
   P4EST_EXECUTE_ASSERT_TOPIDX
     (p4est_find_face_transform (conn, treeid, face, ftransform), ntreeid);
   p4est_quadrant_transform_face (q, &nq, ftransform);
+  if (last) {
+    p4est_quadrant_last_descendant (&nq, &nq, P4EST_QMAXLEVEL);
+  }
 
   return p4est_comm_find_owner (p4est, ntreeid, &nq, rank);
 }
 
+int
+p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
+                           int face, const p4est_quadrant_t * q)
+{
+  return p4est_quadrant_find_desc_owner (p4est, treeid, face, q, 0);
+}
+
 #ifdef P4EST_ENABLE_MPI
 
 /** Gets the procids of the owners of \a q.
@@ -1587,8 +1608,8 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
               /* Note that we will always check this
                * because it prevents deadlocks
                */
-              n0ur_proc = p4est_quadrant_find_owner (p4est, nt, face,
-                                                     &nur[i]);
+              n0ur_proc = p4est_quadrant_find_desc_owner (p4est, nt, face,
+                                                          &n[i], 1);
               if (n0_proc != n0ur_proc) {
                 P4EST_NOTICE ("Small face owner inconsistency\n");
                 failed = 1;
@@ -1697,8 +1718,10 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
               p4est_quadrant_find_owner (p4est, nt, -1, &n[0]);
             if (!maxed) {
               n1_proc = p4est_quadrant_find_owner (p4est, nt, -1, &n[1]);
-              n0ur_proc = p4est_quadrant_find_owner (p4est, nt, -1, &nur[0]);
-              n1ur_proc = p4est_quadrant_find_owner (p4est, nt, -1, &nur[1]);
+              n0ur_proc =
+                p4est_quadrant_find_desc_owner (p4est, nt, -1, &n[0], 1);
+              n1ur_proc =
+                p4est_quadrant_find_desc_owner (p4est, nt, -1, &n[1], 1);
 
               /* Note that we will always check this
                * because it prevents deadlocks
@@ -1871,7 +1894,8 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
              */
             n0_proc = p4est_quadrant_find_owner (p4est, nt, -1, &n[0]);
             if (!maxed) {
-              n0ur_proc = p4est_quadrant_find_owner (p4est, nt, -1, &nur[0]);
+              n0ur_proc =
+                p4est_quadrant_find_desc_owner (p4est, nt, -1, &n[0], 1);
 
               /* Note that we will always check this
                * because it prevents deadlocks
-- 
2.43.0


From 575134062b80b2f3bf65d8cf7e6fff3481455e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 05/57] fix: complete the seeds for 3D edge balance across an
 edge

The seeds that a quadrant induces in an edge neighbor did not imply the
refinement of a larger quadrant two families along the edge, so that parallel
p8est_balance with P8EST_CONNECT_EDGE could return an unbalanced forest that
depends on the partition.  Add the missing seed in p8est_balance_seeds.
---
 src/p4est_algorithms.c |  2 +-
 src/p4est_balance.c    | 59 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index faf393a..1059ba8 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -1126,7 +1126,7 @@ p4est_tree_compute_overlap (p4est_t * p4est, sc_array_t * in,
             if (p4est_quadrant_is_ancestor (inq, &tempq)) {
               continue;
             }
-            split = p8est_balance_seeds_edge (tq, inq, e, balance, seeds);
+            split = p8est_balance_seeds (tq, inq, balance, seeds);
           }
 #endif
           else {
diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index b6a014a..921b781 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -236,6 +236,7 @@ static void         p4est_bal_face_con_internal (p4est_quadrant_t const *q,
 static void         p8est_bal_edge_con_internal (p4est_quadrant_t const *q,
                                                  p4est_quadrant_t * p,
                                                  int edge, int balance,
+                                                 int larger,
                                                  int *consistent,
                                                  p4est_quadrant_t * add);
 #endif
@@ -576,7 +577,8 @@ p4est_bal_face_con_internal (p4est_quadrant_t const *q,
             edge = p8est_face_edges[face][2 + (1 - i) / 2];
           }
 
-          p8est_bal_edge_con_internal (q, &temp, edge, balance, &recon, NULL);
+          p8est_bal_edge_con_internal (q, &temp, edge, balance, 0, &recon,
+                                       NULL);
 
           if (!recon) {
             add[4 + 3 * j + i] = temp;
@@ -603,10 +605,12 @@ p4est_bal_face_con_internal (p4est_quadrant_t const *q,
 }
 
 #ifdef P4_TO_P8
+/* \a larger enables the seeds at larger neighbors along the edge, which are
+ * required in addition to the closest ones to imply edge balance */
 static void
 p8est_bal_edge_con_internal (p4est_quadrant_t const *q,
                              p4est_quadrant_t * p, int edge,
-                             int balance, int *consistent,
+                             int balance, int larger, int *consistent,
                              p4est_quadrant_t * add)
 {
   int                 plevel = p->level;
@@ -754,6 +758,30 @@ p8est_bal_edge_con_internal (p4est_quadrant_t const *q,
 
       p4est_bal_corner_con_internal (q, &temp, child, balance, &recon);
 
+      if (recon && larger && balance == 1 &&
+          p8est_quadrant_is_sibling (&a, &temp)) {
+        /* temp is not refined: check the larger neighbor adjacent to it */
+        p8est_quadrant_parent (&a, &temp);
+        switch (edge / 4) {
+        case 0:
+          temp.x += 2 * i * b1len;
+          break;
+        case 1:
+          temp.y += 2 * i * b1len;
+          break;
+        case 2:
+          temp.z += 2 * i * b1len;
+          break;
+        default:
+          SC_ABORT_NOT_REACHED ();
+        }
+        if (temp.level > plevel &&
+            (temp.x & pmask) == porig.x && (temp.y & pmask) == porig.y &&
+            (temp.z & pmask) == porig.z) {
+          p4est_bal_corner_con_internal (q, &temp, child, balance, &recon);
+        }
+      }
+
       if (!recon) {
         add[1 + i] = temp;
       }
@@ -864,11 +892,11 @@ p4est_balance_seeds_corner (p4est_quadrant_t * q,
 }
 
 #ifdef P4_TO_P8
-int
-p8est_balance_seeds_edge (p4est_quadrant_t * q,
-                          p4est_quadrant_t * p,
-                          int edge, p4est_connect_type_t balance,
-                          sc_array_t * seeds)
+static int
+p8est_bal_seeds_edge_internal (p4est_quadrant_t * q,
+                               p4est_quadrant_t * p,
+                               int edge, p4est_connect_type_t balance,
+                               int larger, sc_array_t * seeds)
 {
   p4est_quadrant_t    temp = *p;
   p4est_quadrant_t   *s;
@@ -894,14 +922,16 @@ p8est_balance_seeds_edge (p4est_quadrant_t * q,
   }
 
   if (seeds == NULL) {
-    p8est_bal_edge_con_internal (q, &temp, edge, ibalance, &consistent, NULL);
+    p8est_bal_edge_con_internal (q, &temp, edge, ibalance, 0, &consistent,
+                                 NULL);
 
     return !consistent;
   }
   else {
     memset (add, -1, nextra * sizeof (p4est_quadrant_t));
 
-    p8est_bal_edge_con_internal (q, &temp, edge, ibalance, &consistent, add);
+    p8est_bal_edge_con_internal (q, &temp, edge, ibalance, larger,
+                                 &consistent, add);
 
     sc_array_resize (seeds, 0);
     if (!consistent) {
@@ -918,6 +948,15 @@ p8est_balance_seeds_edge (p4est_quadrant_t * q,
     return !consistent;
   }
 }
+
+int
+p8est_balance_seeds_edge (p4est_quadrant_t * q,
+                          p4est_quadrant_t * p,
+                          int edge, p4est_connect_type_t balance,
+                          sc_array_t * seeds)
+{
+  return p8est_bal_seeds_edge_internal (q, p, edge, balance, 0, seeds);
+}
 #endif
 
 int
@@ -1024,7 +1063,7 @@ p4est_balance_seeds (p4est_quadrant_t * q, p4est_quadrant_t * p,
       }
     }
     e |= c;
-    return p8est_balance_seeds_edge (q, p, e, balance, seeds);
+    return p8est_bal_seeds_edge_internal (q, p, e, balance, 1, seeds);
 #endif
   default:
     SC_ABORT_NOT_REACHED ();
-- 
2.43.0


From 75204d2c25178c708a4f75ceb5b58f156e20680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 06/57] fix: number all edges around a tree corner in the
 iterator

---
 src/p4est_iterate.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/p4est_iterate.c b/src/p4est_iterate.c
index 412cc66..ad7b08a 100644
--- a/src/p4est_iterate.c
+++ b/src/p4est_iterate.c
@@ -799,27 +799,24 @@ p4est_iter_init_corner (p4est_iter_corner_args_t * args,
           o = nf / P4EST_FACES;
 
           nf %= P4EST_FACES;
-          if (nnt == nt && nf == f) {
-            faces_count++;
-            continue;
-          }
-
+          if (nnt != nt || nf != f) {
 #ifndef P4_TO_P8
-          nnc = p4est_face_corners[nf][(o == 0) ? c2 : (1 - c2)];
+            nnc = p4est_face_corners[nf][(o == 0) ? c2 : (1 - c2)];
 #else
-          ref = p8est_face_permutation_refs[f][nf];
-          set = p8est_face_permutation_sets[ref][o];
-          nc2 = p8est_face_permutations[set][c2];
-          nnc = p8est_face_corners[nf][nc2];
+            ref = p8est_face_permutation_refs[f][nf];
+            set = p8est_face_permutation_sets[ref][o];
+            nc2 = p8est_face_permutations[set][c2];
+            nnc = p8est_face_corners[nf][nc2];
 #endif
 
-          for (k = 0; k < count; k++) {
-            if (k == i) {
-              continue;
-            }
-            cside2 = p4est_iter_cside_array_index_int (&(info->sides), k);
-            if (cside2->treeid == nnt && (int) cside2->corner == nnc) {
-              cside2->faces[nf / 2] = faces_count;
+            for (k = 0; k < count; k++) {
+              if (k == i) {
+                continue;
+              }
+              cside2 = p4est_iter_cside_array_index_int (&(info->sides), k);
+              if (cside2->treeid == nnt && (int) cside2->corner == nnc) {
+                cside2->faces[nf / 2] = faces_count;
+              }
             }
           }
           faces_count++;
-- 
2.43.0


From cdf698ea778f6f0fc974f5add9ec035d3cfe84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 07/57] fix: find the boundaries of a range of one quadrant of
 maximum level

---
 src/p4est_search.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index 8e07b99..f7ef454 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -369,6 +369,10 @@ p4est_range_boundaries (p4est_quadrant_t * lq, p4est_quadrant_t * uq,
   if (mask == 0) {
     return 0;
   }
+  if (level > P4EST_QMAXLEVEL) {
+    /* the range consists of just one quadrant of maximum level */
+    return mask;
+  }
   if (level == alevel + 1) {
     lcid = p4est_quadrant_ancestor_id (lq, level);
     ucid = p4est_quadrant_ancestor_id (uq, level);
-- 
2.43.0


From 86eee9ed987ee7350819158be7baf984d3b44bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 08/57] fix: keep the order of non-empty ranks when reducing
 the communicator

---
 src/p4est_communication.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index ebc4f30..28a4128 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -195,16 +195,22 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
 
   /* create sub-communicator */
   if (group_add != sc_MPI_GROUP_NULL) {
-    sc_MPI_Group        group_union;
+    sc_MPI_Group        group_empty, group_union;
+
+    /* the non-empty ranks in the optional group must keep their order */
+    mpiret = sc_MPI_Group_difference (group_add, subgroup, &group_empty);
+    SC_CHECK_MPI (mpiret);
 
     /* create union with optional group */
     if (add_to_beginning) {
-      mpiret = sc_MPI_Group_union (group_add, subgroup, &group_union);
+      mpiret = sc_MPI_Group_union (group_empty, subgroup, &group_union);
     }
     else {
-      mpiret = sc_MPI_Group_union (subgroup, group_add, &group_union);
+      mpiret = sc_MPI_Group_union (subgroup, group_empty, &group_union);
     }
     SC_CHECK_MPI (mpiret);
+    mpiret = sc_MPI_Group_free (&group_empty);
+    SC_CHECK_MPI (mpiret);
 
     /* create sub-communicator */
     mpiret = sc_MPI_Comm_create (mpicomm, group_union, &submpicomm);
-- 
2.43.0


From a482255ac0d82f7e406440b6e5322e231808255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 09/57] fix: provide element data of the requested size when
 loading without data

---
 src/p4est.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/p4est.c b/src/p4est.c
index a8b7914..408dba8 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3998,6 +3998,11 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   P4EST_FREE (pertree);
   P4EST_FREE (gfq);
 
+  /* provide uninitialized element data if requested without loading it */
+  if (data_size > 0 && !load_data) {
+    p4est_reset_data (p4est, data_size, NULL, user_pointer);
+  }
+
   /* assert that we loaded a valid forest and return */
   SC_CHECK_ABORT (p4est_is_valid (p4est), "invalid forest");
 
@@ -4271,6 +4276,11 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
   P4EST_FREE (pertree);
   P4EST_FREE (gfq);
 
+  /* provide uninitialized element data if requested without loading it */
+  if (data_size > 0 && !load_data) {
+    p4est_reset_data (p4est, data_size, NULL, user_pointer);
+  }
+
   /* assert that we loaded a valid forest and return */
   SC_CHECK_ABORT (p4est_is_valid (p4est), "invalid forest");
 
-- 
2.43.0


From 3db72fc660da3f4393ea10047b31e54e0845450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 10/57] fix: reset the inspect member of a copied forest

---
 src/p4est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p4est.c b/src/p4est.c
index 408dba8..fda61c1 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -563,6 +563,7 @@ p4est_copy_ext (p4est_t * input, int copy_data, int duplicate_mpicomm)
   p4est->trees = NULL;
   p4est->user_data_pool = NULL;
   p4est->quadrant_pool = NULL;
+  p4est->inspect = NULL;
 
   /* set parallel environment */
   p4est_comm_parallel_env_assign (p4est, input->mpicomm);
-- 
2.43.0


From 4212804a887095d499ebed156febcdf84aab0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 11/57] fix: compare the connectivities in the forest equality
 check

---
 src/p4est_algorithms.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index 1059ba8..23487cd 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -429,6 +429,10 @@ p4est_is_equal (p4est_t * p4est1, p4est_t * p4est2, int compare_data)
     return 0;
   if (p4est1->mpirank != p4est2->mpirank)
     return 0;
+  if (p4est1->connectivity != p4est2->connectivity &&
+      !p4est_connectivity_is_equal (p4est1->connectivity,
+                                    p4est2->connectivity))
+    return 0;
   if (compare_data) {
     if (p4est1->data_size != p4est2->data_size)
       return 0;
-- 
2.43.0


From a83168bf9b442279b8c6d21c3eda228f54f245e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 12/57] fix: traverse only the trees chosen by the reorder
 callback

---
 src/p4est_search.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index f7ef454..e1de25b 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -1065,10 +1065,15 @@ p4est_search_reorder (p4est_t * p4est, int skip_levels,
   rec->skip = skip_levels;
 
   /* go through tree recursions in proper order */
-  for (tt = p4est->first_local_tree; tt <= p4est->last_local_tree; ++tt) {
-    rec->which_tree = root_indices != NULL ? *(p4est_topidx_t *)
-      sc_array_index (root_indices, tt - p4est->first_local_tree) +
-      p4est->first_local_tree : tt;
+  if (root_indices != NULL) {
+    /* the callback may have chosen a subset of the local trees */
+    P4EST_ASSERT (root_indices->elem_count <= (size_t) num_local_trees);
+    num_local_trees = (p4est_topidx_t) root_indices->elem_count;
+  }
+  for (rit = 0; rit < num_local_trees; ++rit) {
+    tt = root_indices == NULL ? rit : *(p4est_topidx_t *)
+      sc_array_index (root_indices, rit);
+    rec->which_tree = tt + p4est->first_local_tree;
     P4EST_ASSERT (p4est->first_local_tree <= rec->which_tree &&
                   rec->which_tree <= p4est->last_local_tree);
 
-- 
2.43.0


From 20801ea4ec304f66c0e256f4032b357d482d937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 13/57] fix: next quadrant predicate rejects holes before a
 smaller quadrant

---
 src/p4est_bits.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index aa53a5c..11f1fa4 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1013,6 +1013,15 @@ p4est_quadrant_is_next (const p4est_quadrant_t * q,
     minlevel = (int) r->level;
   }
   else {
+    /* check if r is the first child down from the common level */
+    mask = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (r->level);
+    if ((r->x & mask) || (r->y & mask) ||
+#ifdef P4_TO_P8
+        (r->z & mask) ||
+#endif
+        0) {
+      return 0;
+    }
     minlevel = (int) q->level;
   }
   p4est_quadrant_linear_id_ext128 (q, minlevel, &i1);
@@ -1043,6 +1052,12 @@ p4est_quadrant_is_next_D (const p4est_quadrant_t * q,
     }
     p4est_quadrant_parent (&a, &a);
   }
+  while (b.level > a.level) {
+    if (p4est_quadrant_child_id (&b) != 0) {
+      return 0;
+    }
+    p4est_quadrant_parent (&b, &b);
+  }
   p4est_quadrant_linear_id_ext128 (&a, (int) a.level, &i1);
   p4est_quadrant_linear_id_ext128 (&b, (int) a.level, &i2);
 
-- 
2.43.0


From 448d4ddbba31a4fc7540aea5b6312bbf89e271b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 14/57] fix: quadrant inside tree considers the end of the
 quadrant

---
 src/p4est_bits.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 11f1fa4..6f98858 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1111,12 +1111,8 @@ p4est_quadrant_is_inside_tree (p4est_tree_t * tree,
     return 0;
 
   /* check if the end of q is not after the last tree quadrant */
-  /* tree->last_desc is an upper right corner quadrant by construction.
-   * It is ok to compare with q. */
-#if 0
   p4est_quadrant_last_descendant (q, &desc, P4EST_QMAXLEVEL);
-#endif
-  if (p4est_quadrant_compare (&tree->last_desc, q) < 0)
+  if (p4est_quadrant_compare (&tree->last_desc, &desc) < 0)
     return 0;
 
   return 1;
-- 
2.43.0


From cc6821ebb138f7e211f9545b2299405fe62d2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 15/57] fix: descriptive sibling predicate accepts the root as
 second argument

---
 src/p4est_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 6f98858..3dcb53a 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -842,7 +842,7 @@ p4est_quadrant_is_sibling_D (const p4est_quadrant_t * q1,
   p4est_quadrant_t    p1, p2;
 
   /* make sure the quadrant_parent functions below don't abort */
-  if (q1->level == 0) {
+  if (q1->level == 0 || q2->level == 0) {
     return 0;
   }
 
-- 
2.43.0


From 58ebeef2ac3e040449cc91b1a21efe5f7a55a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 16/57] fix: avoid integer overflow transforming nodes across
 faces

---
 src/p4est_bits.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 3dcb53a..cf02706 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -2047,7 +2047,7 @@ void
 p4est_quadrant_transform_face (const p4est_quadrant_t * q,
                                p4est_quadrant_t * r, const int ftransform[])
 {
-  p4est_qcoord_t      mh, tRmh, Rmh;
+  p4est_qcoord_t      mh, Rmh;
   p4est_qcoord_t     *target_xyz[P4EST_DIM];
   const p4est_qcoord_t *my_xyz[P4EST_DIM];
   const int          *my_axis = &ftransform[0];
@@ -2081,14 +2081,12 @@ p4est_quadrant_transform_face (const p4est_quadrant_t * q,
   if (q->level == P4EST_MAXLEVEL) {
     P4EST_ASSERT (p4est_quadrant_is_node (q, 0));
     mh = 0;
-    /* if (P4EST_MAXLEVEL == 30) tRmh will overflow to INT32_MIN < 0 */
   }
   else {
     P4EST_ASSERT (p4est_quadrant_is_extended (q));
     mh = -P4EST_QUADRANT_LEN (q->level);
   }
   Rmh = P4EST_ROOT_LEN + mh;
-  tRmh = P4EST_ROOT_LEN + Rmh;
 
   my_xyz[0] = &q->x;
   my_xyz[1] = &q->y;
@@ -2126,7 +2124,9 @@ p4est_quadrant_transform_face (const p4est_quadrant_t * q,
     *target_xyz[target_axis[2]] = *my_xyz[my_axis[2]] - P4EST_ROOT_LEN;
     break;
   case 3:
-    *target_xyz[target_axis[2]] = tRmh - *my_xyz[my_axis[2]];
+    /* if (P4EST_MAXLEVEL == 30) twice the root length would overflow */
+    *target_xyz[target_axis[2]] =
+      P4EST_ROOT_LEN + (Rmh - *my_xyz[my_axis[2]]);
     break;
   default:
     SC_ABORT_NOT_REACHED ();
@@ -2145,7 +2145,7 @@ p4est_quadrant_transform_face (const p4est_quadrant_t * q,
     sprime = 1 - (d_iface_and1 ^ d_tface_and1);
 
     qcoord = P4EST_ROOT_LEN * (2 * d_tface_and1 - 1)
-      + sprime * Rmh + (1 - 2 * sprime) * *my_xyz[my_axis[2]];
+      + (sprime * Rmh + (1 - 2 * sprime) * *my_xyz[my_axis[2]]);
 
     P4EST_ASSERT (qcoord == *target_xyz[target_axis[2]]);
   }
-- 
2.43.0


From 46aec2a0f91fd864f2844570856d609c749151ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 17/57] fix: overwrite previous face connections in
 connectivity_complete

---
 src/p4est_connectivity.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index b7646b6..e7d1e50 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -3806,6 +3806,11 @@ p4est_connectivity_complete (p4est_connectivity_t * conn)
         fi->faces[0] = (int8_t) face;
         fi->trees[1] = -1;
         fi->faces[1] = -1;
+
+        /* unless a second face is found this is a boundary face */
+        tt = P4EST_FACES * treeid + face;
+        conn->tree_to_tree[tt] = treeid;
+        conn->tree_to_face[tt] = (int8_t) face;
       }
       else {
         /* found existing entry from the first face */
-- 
2.43.0


From be3fbf59791f355e666c2be9d0e344ddc6a88cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 18/57] fix: permute a connectivity without vertices

---
 src/p4est_connectivity.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index e7d1e50..6ba96a8 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4218,9 +4218,11 @@ p4est_connectivity_permute (p4est_connectivity_t * conn, sc_array_t * inperm,
   /* now we reorder the various tables via in-place permutation */
 
   /* tree_to_vertex */
-  sc_array_init_data (&array_view, conn->tree_to_vertex,
-                      P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
-  sc_array_permute (&array_view, permarray, 1);
+  if (conn->tree_to_vertex != NULL) {
+    sc_array_init_data (&array_view, conn->tree_to_vertex,
+                        P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
+    sc_array_permute (&array_view, permarray, 1);
+  }
 
   /* tree_to_tree */
   sc_array_init_data (&array_view, conn->tree_to_tree,
-- 
2.43.0


From afe9d31f257dfde9651f9341679819264c38e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 19/57] fix: respect stored edge flips when joining edge groups

---
 src/p4est_connectivity.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 6ba96a8..61161f6 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4806,6 +4806,7 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
                                int edge_left, int edge_right, int orientation)
 {
   int                 i, c_left, c_right;
+  int                 toggle = orientation;
   p4est_topidx_t      e, e0, e1, swap;
   p4est_topidx_t      startt, endt, n1, it, end0;
   p4est_topidx_t     *swapspace;
@@ -4860,6 +4861,16 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
     e1 = swap;
   }
 
+  /* the two edges may be stored flipped relative to their groups */
+  for (it = 0; it < conn->ett_offset[conn->num_edges]; it++) {
+    if ((conn->edge_to_tree[it] == tree_left &&
+         conn->edge_to_edge[it] % P8EST_EDGES == edge_left) ||
+        (conn->edge_to_tree[it] == tree_right &&
+         conn->edge_to_edge[it] % P8EST_EDGES == edge_right)) {
+      toggle ^= conn->edge_to_edge[it] / P8EST_EDGES;
+    }
+  }
+
   /* remove all reference to e1 */
   startt = conn->ett_offset[e1];
   endt = conn->ett_offset[e1 + 1];
@@ -4873,9 +4884,9 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
 
     nte %= P8EST_EDGES;         /* okay, now nte is nt's numbering for e1 */
     conn->tree_to_edge[P8EST_EDGES * nt + nte] = e0;    /* e1->e0 */
-    /* if edge_left and edge_right have opposite orientations, then the
+    /* if the two edge groups have opposite orientations, then the
      * orientation information in edge_to_edge has to be toggled */
-    conn->edge_to_edge[it] = P8EST_EDGES * (o ^ orientation) + nte;
+    conn->edge_to_edge[it] = P8EST_EDGES * (o ^ toggle) + nte;
   }
 
   /* we now have to move the entries in edge_to_tree and edge_to_edge around */
-- 
2.43.0


From 77bcf49fc6fb46574f0fd0ef6eb04e09e8d5a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 20/57] fix: orient two face connections of the 2D drop by
 their vertices

---
 src/p4est_connectivity.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 61161f6..6ea11d1 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -1920,10 +1920,10 @@ p4est_connectivity_new_drop (void)
   };
   const int8_t        tree_to_face[5 * 4] = {
     0, 0, 2, 2,
-    1, 2, 2, 3,
-    0, 1, 1, 1,
-    3, 3, 2, 3,
-    0, 1, 3, 0,
+    1, 6, 2, 3,
+    0, 1, 5, 1,
+    7, 3, 2, 3,
+    0, 1, 3, 4,
   };
 
   const p4est_topidx_t tree_to_corner[5 * 4] = {
-- 
2.43.0


From b9433b2acb449f3edb53d855753bab4532c19bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 21/57] fix: verify edges and corners before transforming them
 in connectivity_is_valid

---
 src/p4est_connectivity.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 6ea11d1..2d3a740 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -1019,7 +1019,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
     }
     if (num_edges > 0) {
       for (edge = 0; edge < P8EST_EDGES; ++edge) {
-        p8est_find_edge_transform (conn, tree, edge, &ei);
         aedge = tte[tree * P8EST_EDGES + edge];
         if (aedge < -1 || aedge >= num_edges) {
           P4EST_NOTICEF ("Tree to edge out of range %lld %d\n",
@@ -1070,6 +1069,7 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
                          (long long) tree, edge);
           goto failure;
         }
+        p8est_find_edge_transform (conn, tree, edge, &ei);
       }
     }
 #endif
@@ -1082,7 +1082,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
     }
     if (num_corners > 0) {
       for (corner = 0; corner < P4EST_CHILDREN; ++corner) {
-        p4est_find_corner_transform (conn, tree, corner, &ci);
         acorner = ttc[tree * P4EST_CHILDREN + corner];
         if (acorner < -1 || acorner >= num_corners) {
           P4EST_NOTICEF ("Tree to corner out of range %lld %d\n",
@@ -1130,6 +1129,7 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
                          (long long) tree, corner);
           goto failure;
         }
+        p4est_find_corner_transform (conn, tree, corner, &ci);
       }
     }
   }
-- 
2.43.0


From bf1c262029e309c8c8d77a2fff6023c404bf61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 22/57] fix: read mesh files whose last line is not terminated

---
 src/p4est_connectivity.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 2d3a740..fee25e9 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5198,9 +5198,13 @@ p4est_connectivity_getline_upper (FILE * stream)
 
   for (;;) {
     c = fgetc (stream);
-    if (c == EOF && linep == line) {
-      P4EST_FREE (linep);
-      return NULL;
+    if (c == EOF) {
+      if (linep == line) {
+        P4EST_FREE (linep);
+        return NULL;
+      }
+      /* the last line of the file may not end with a newline */
+      break;
     }
     c = toupper (c);
 
-- 
2.43.0


From 73d05358c96d1c95d1ddb15c4a33a73ba63159cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 23/57] fix: refuse mesh files with vertex numbers out of range

---
 src/p4est_connectivity.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index fee25e9..7004392 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5296,7 +5296,7 @@ p4est_connectivity_read_inp_stream (FILE * stream,
           return 1;
         }
 
-        if (node > *num_vertices) {
+        if (node < 1 || node > *num_vertices) {
           P4EST_LERRORF
             ("Encountered vertex %lld that will not fit in vertices"
              " array of length %lld.  Are the vertices contiguously"
@@ -5344,8 +5344,15 @@ p4est_connectivity_read_inp_stream (FILE * stream,
           return 1;
         }
 
-        for (n = 0; n < P4EST_CHILDREN; ++n)
+        for (n = 0; n < P4EST_CHILDREN; ++n) {
+          if (v[n] < 1 || v[n] > *num_vertices) {
+            P4EST_LERRORF ("Encountered element with invalid vertex %lld\n",
+                           v[n]);
+            P4EST_FREE (line);
+            return 1;
+          }
           tree_to_vertex[P4EST_CHILDREN * num_elements + n] = v[n] - 1;
+        }
       }
 
       ++num_elements;
-- 
2.43.0


From c639479df9571083987c765318479f10c1338552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 24/57] fix: refuse tetgen elements with the exclusive upper
 node number

---
 src/p8est_tets_hexes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p8est_tets_hexes.c b/src/p8est_tets_hexes.c
index b5c1081..660a5c5 100644
--- a/src/p8est_tets_hexes.c
+++ b/src/p8est_tets_hexes.c
@@ -197,7 +197,7 @@ p8est_tets_read_ele (const char *elefilename, p4est_topidx_t num_nodes,
       goto dead;
     }
     for (k = 0; k < 4; ++k) {
-      if (nl[k] < 0 || nl[k] > lmax_nodes) {
+      if (nl[k] < 0 || nl[k] >= lmax_nodes) {
         P4EST_LERRORF ("Tet %ld has invalid node number %d\n", (long) iz, k);
         goto dead;
       }
-- 
2.43.0


From ccec652fa3509224fced093d534aa61433322942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 25/57] fix: release transform arrays of inequivalent
 connectivities

---
 src/p4est_connectivity.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 7004392..4cc7d5e 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5078,12 +5078,16 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p8est_find_edge_transform (conn1, t, e, &e1);
         p8est_find_edge_transform (conn2, t, e, &e2);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
+          sc_array_reset (&e1.edge_transforms);
+          sc_array_reset (&e2.edge_transforms);
           return 0;
         }
         /* sort so memory comparison is correct */
         sc_array_sort (&e1.edge_transforms, p8est_edge_compare);
         sc_array_sort (&e2.edge_transforms, p8est_edge_compare);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
+          sc_array_reset (&e1.edge_transforms);
+          sc_array_reset (&e2.edge_transforms);
           return 0;
         }
         for (zz = 0; zz < e1.edge_transforms.elem_count; zz++) {
@@ -5098,6 +5102,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
               t1->naxis[2] != t2->naxis[2] ||
               t1->nedge != t2->nedge ||
               t1->nflip != t2->nflip || t1->ntree != t2->ntree) {
+            sc_array_reset (&e1.edge_transforms);
+            sc_array_reset (&e2.edge_transforms);
             return 0;
           }
         }
@@ -5121,6 +5127,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p4est_find_corner_transform (conn2, t, c, &c2);
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
+          sc_array_reset (&c1.corner_transforms);
+          sc_array_reset (&c2.corner_transforms);
           return 0;
         }
         /* sort so memory comparison is correct */
@@ -5129,6 +5137,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
 
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
+          sc_array_reset (&c1.corner_transforms);
+          sc_array_reset (&c2.corner_transforms);
           return 0;
         }
         for (zz = 0; zz < c1.corner_transforms.elem_count; zz++) {
@@ -5138,6 +5148,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
             (&c2.corner_transforms, zz);
 
           if (t1->ncorner != t2->ncorner || t1->ntree != t2->ntree) {
+            sc_array_reset (&c1.corner_transforms);
+            sc_array_reset (&c2.corner_transforms);
             return 0;
           }
         }
-- 
2.43.0


From 111c4f614c7d1d921da7dd9fad77b3d1f66241b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 26/57] fix: count tree attributes in the memory used by a
 connectivity

---
 src/p4est_connectivity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 4cc7d5e..d8e5de7 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -132,6 +132,7 @@ p4est_connectivity_memory_used (p4est_connectivity_t * conn)
     (conn->num_vertices > 0 ?
      (conn->num_vertices * 3 * sizeof (double) +
       conn->num_trees * P4EST_CHILDREN * sizeof (p4est_topidx_t)) : 0) +
+    conn->num_trees * conn->tree_attr_bytes +
     conn->num_trees * P4EST_FACES * (sizeof (p4est_topidx_t) +
                                      sizeof (int8_t)) +
 #ifdef P4_TO_P8
-- 
2.43.0


From 9230cdf5bffee936d8f275026163f3120e221567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 27/57] fix: mesh_new_params accepts NULL parameters in debug
 builds

The balance assertion dereferenced the parameters before the documented
default for NULL was applied.
---
 src/p4est_mesh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 70961a6..7abaa78 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -1265,9 +1265,6 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
   p4est_locidx_t      jl;
   p4est_mesh_t       *mesh;
 
-  /* check whether input condition for p4est is met */
-  P4EST_ASSERT (p4est_is_balanced (p4est, params->btype));
-
   mesh = P4EST_ALLOC_ZERO (p4est_mesh_t, 1);
 
   /* store mesh creation parameters in mesh */
@@ -1279,6 +1276,9 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
     p4est_mesh_params_init (&mesh->params);
   }
 
+  /* check whether input condition for p4est is met */
+  P4EST_ASSERT (p4est_is_balanced (p4est, mesh->params.btype));
+
   /* number of local quadrants and number of local ghost cells */
   lq = mesh->local_num_quadrants = p4est->local_num_quadrants;
   ng = mesh->ghost_num_quadrants = (p4est_locidx_t) ghost->ghosts.elem_count;
-- 
2.43.0


From 6885763f641c27eb575456bef22270c5ad40d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 28/57] fix: initialize the tree guess in the debug check of
 mesh_quadrant_cumulative

With a tree lookup table and a NULL tree argument the debug check passed
an uninitialized guess to the binary search.
---
 src/p4est_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 7abaa78..4b5bd61 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -2164,7 +2164,7 @@ p4est_mesh_quadrant_cumulative (p4est_t * p4est, p4est_mesh_t * mesh,
   p4est_locidx_t      quadrant_id;
   p4est_quadrant_t   *quadrant;
 #ifdef P4EST_ENABLE_DEBUG
-  p4est_topidx_t      dwhich_tree;
+  p4est_topidx_t      dwhich_tree = -1;
   p4est_locidx_t      dquadrant_id;
   p4est_quadrant_t   *dquadrant;
 #endif
-- 
2.43.0


From de53bcc7dc15c77db8fe8b6fc0fbe7e2789727a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 29/57] fix: mesh corner assertion admits that no adjacent
 quadrant is excluded

The array holds one entry for each corner side other than our own.  When
trees meet in a corner only, all of these are true corner neighbors.
---
 src/p4est_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 4b5bd61..07c4137 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -426,7 +426,7 @@ mesh_corner_process_inter_tree_corners (p4est_iter_corner_info_t * info,
   }
 
   /* we have excluded between 0 and all quadrants. */
-  P4EST_ASSERT (0 <= goodones && goodones < n_adjacent_quads);
+  P4EST_ASSERT (0 <= goodones && goodones <= n_adjacent_quads);
 
   if (goodones > 0) {
     /* Allocate and fill corner information in the mesh structure */
-- 
2.43.0


From 768cb9e5727537c3835d735b227c6574e4fe8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 30/57] fix: nodes assertion admits periodic identification of
 corner nodes

Two corners of one coarse quadrant may be the same independent node in a
periodic connectivity, so a hanging node may depend on one node twice.
---
 src/p4est_nodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_nodes.c b/src/p4est_nodes.c
index d0a4201..fa96ce0 100644
--- a/src/p4est_nodes.c
+++ b/src/p4est_nodes.c
@@ -1033,7 +1033,7 @@ p4est_nodes_new (p4est_t * p4est, p4est_ghost_t * ghost)
       memcpy (quad_indeps, quad_nodes, P4EST_CHILDREN * sizeof (*quad_nodes));
       for (k = 0; k < P4EST_CHILDREN; ++k) {
         if (quad_status[k] == 1) {
-          P4EST_ASSERT (qcid != k && quad_indeps[qcid] != quad_indeps[k]);
+          P4EST_ASSERT (qcid != k);
           P4EST_ASSERT (p4est_child_corner_faces[qcid][k] >= 0);
           p4est_quadrant_corner_node (q, k, &n);
           p4est_node_canonicalize (p4est, jt, &n, &c);
@@ -1087,7 +1087,7 @@ p4est_nodes_new (p4est_t * p4est, p4est_ghost_t * ghost)
         }
 #ifdef P4_TO_P8
         else if (quad_status[k] == 2) {
-          P4EST_ASSERT (qcid != k && quad_indeps[qcid] != quad_indeps[k]);
+          P4EST_ASSERT (qcid != k);
           P4EST_ASSERT (p8est_child_corner_edges[qcid][k] >= 0);
           p4est_quadrant_corner_node (q, k, &n);
           p4est_node_canonicalize (p4est, jt, &n, &c);
-- 
2.43.0


From edda6b3158cc33b38592cf04f9f431543d06147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 31/57] fix: new_points covers the domain when the first
 process has no points

The first process always begins at the origin of the first tree.  Without
points on it, the part of the domain before the first point was lost.
---
 src/p4est_points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_points.c b/src/p4est_points.c
index 1afc170..3e1dec8 100644
--- a/src/p4est_points.c
+++ b/src/p4est_points.c
@@ -211,7 +211,7 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
   P4EST_QUADRANT_INIT (&f);
   p4est->global_first_position =
     P4EST_ALLOC_ZERO (p4est_quadrant_t, num_procs + 1);
-  if (num_points == 0) {
+  if (num_points == 0 && rank > 0) {
     P4EST_VERBOSE ("Empty processor");
     first_tree = p4est->first_local_tree = -1;
     first_quad = NULL;
-- 
2.43.0


From 9001799857e0d3e16d1e0fbc87c508ca2b919299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 32/57] fix: wrap_partition reports zero when no quadrant has
 stayed

The overlap of an empty local range with a surrounding one is empty, but
its offset was still written to the output variables.
---
 src/p4est_wrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_wrap.c b/src/p4est_wrap.c
index 506e1ba..a861bf4 100644
--- a/src/p4est_wrap.c
+++ b/src/p4est_wrap.c
@@ -876,7 +876,7 @@ p4est_wrap_partition_unchanged (p4est_gloidx_t pre_me,
   uf = ul = uof = 0;
 
   /* check whether any quadrants stay at all, and which ones */
-  if (pre_me < post_next && post_me < pre_next) {
+  if (SC_MAX (pre_me, post_me) < SC_MIN (pre_next, post_next)) {
     unext = SC_MIN (pre_next, post_next);
     if (pre_me <= post_me) {
       uof = (p4est_locidx_t) (post_me - pre_me);
-- 
2.43.0


From 6108952a5b73e93a93224b5789c38e8fef1de74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 33/57] fix: new_points counts points of previous processes in
 the first quadrant

When a quadrant of maximum level holds points of several processes, only
the last one owns it.  The points left on previous processes were not
counted, and quadrants kept more points than the maximum.
---
 src/p4est_points.c | 55 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/p4est_points.c b/src/p4est_points.c
index 3e1dec8..b3a8666 100644
--- a/src/p4est_points.c
+++ b/src/p4est_points.c
@@ -51,6 +51,10 @@ typedef struct
   p4est_quadrant_t   *points;
   p4est_locidx_t      num_points, max_points, current;
   int                 maxlevel;
+
+  /* points of previous processes inside our first quadrant of maxlevel */
+  p4est_locidx_t      num_previous;
+  p4est_quadrant_t    first_quad;
 }
 p4est_points_state_t;
 
@@ -79,15 +83,63 @@ p4est_points_init (p4est_t * p4est, p4est_topidx_t which_tree,
   qdata[1] = s->current;
 }
 
+/** Count the points of previous processes inside our first quadrant.
+ * When a quadrant of maximum level holds points of several processes,
+ * only the last of these owns it and all others store its points last.
+ */
+static void
+p4est_points_previous (p4est_t * p4est, p4est_points_state_t * s)
+{
+  const int           rank = p4est->mpirank;
+  int                 mpiret;
+  int                 p;
+  p4est_locidx_t      i, num_next, *all_next;
+  p4est_quadrant_t   *g, n;
+
+  /* count the points that belong to the first quadrant after ours */
+  num_next = 0;
+  n = p4est->global_first_position[rank + 1];
+  n.level = (int8_t) s->maxlevel;
+  for (i = s->num_points - 1; i >= 0; --i, ++num_next) {
+    if (s->points[i].p.which_tree != n.p.which_tree ||
+        !p4est_quadrant_contains_node (&n, s->points + i)) {
+      break;
+    }
+  }
+  all_next = P4EST_ALLOC (p4est_locidx_t, p4est->mpisize);
+  mpiret = sc_MPI_Allgather (&num_next, 1, P4EST_MPI_LOCIDX,
+                             all_next, 1, P4EST_MPI_LOCIDX, p4est->mpicomm);
+  SC_CHECK_MPI (mpiret);
+
+  /* sum up the counts of all processes that refer to our first quadrant */
+  s->num_previous = 0;
+  s->first_quad = p4est->global_first_position[rank];
+  for (p = rank - 1; p >= 0; --p) {
+    g = p4est->global_first_position + (p + 1);
+    if (!p4est_quadrant_is_equal_piggy (g, &s->first_quad)) {
+      break;
+    }
+    s->num_previous += all_next[p];
+  }
+  s->first_quad.level = (int8_t) s->maxlevel;
+  P4EST_FREE (all_next);
+}
+
 static int
 p4est_points_refine (p4est_t * p4est, p4est_topidx_t which_tree,
                      p4est_quadrant_t * quadrant)
 {
   p4est_points_state_t *s = (p4est_points_state_t *) p4est->user_pointer;
   p4est_locidx_t     *qdata = (p4est_locidx_t *) quadrant->p.user_data;
+  p4est_locidx_t      num_points;
 
   P4EST_ASSERT (s->max_points >= 0);
-  if (qdata[1] > qdata[0] + s->max_points) {
+  num_points = qdata[1] - qdata[0];
+  if (s->num_previous > 0 && which_tree == s->first_quad.p.which_tree &&
+      p4est_quadrant_is_ancestor (quadrant, &s->first_quad)) {
+    num_points += s->num_previous;
+  }
+  if (num_points > s->max_points) {
     s->current = qdata[0];
     return 1;
   }
@@ -374,6 +426,7 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
 
   /* refine to have one point per quadrant */
   if (max_points >= 0) {
+    p4est_points_previous (p4est, &ppstate);
     p4est_refine_ext (p4est, 1, maxlevel, p4est_points_refine,
                       p4est_points_init, NULL);
 #ifdef P4EST_ENABLE_DEBUG
-- 
2.43.0


From dae50a50846abe437026bf26323cd90ceb15846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 34/57] fix: p6est_new_ext and p6est_new_from_p4est accept
 ineffective minimum levels

---
 src/p6est.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 36af898..2f996ee 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -399,8 +399,7 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
   p6est_init_data_t   init_data;
   int                 mpiret, num_procs, rank;
   int                 log_zroot = SC_LOG2_32 (num_zroot - 1) + 1;
-  int                 quadpercol =
-    (1 << (min_zlevel - log_zroot)) * num_zroot;
+  int                 quadpercol;
   int                 i;
 
   P4EST_GLOBAL_PRODUCTIONF
@@ -408,6 +407,10 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
      (long long) min_quadrants, SC_MAX (min_zlevel, 0));
   p4est_log_indent_push ();
 
+  /* a minimum level above the root layers has no effect */
+  min_zlevel = SC_MAX (min_zlevel, log_zroot);
+  quadpercol = (1 << (min_zlevel - log_zroot)) * num_zroot;
+
   layers = sc_array_new (sizeof (p2est_quadrant_t));
 
   if (data_size > 0) {
@@ -490,13 +493,17 @@ p6est_new_from_p4est (p4est_t * p4est, double *top_vertices, double height[3],
   sc_mempool_t       *user_data_pool;
   p6est_init_data_t   init_data;
   int                 num_procs;
-  int                 quadpercol = (1 << min_zlevel);
+  int                 quadpercol;
   int                 i;
 
   P4EST_GLOBAL_PRODUCTIONF
     ("Into p6est_new_from_p4est with z-level %d\n", SC_MAX (min_zlevel, 0));
   p4est_log_indent_push ();
 
+  /* a negative minimum level has no effect */
+  min_zlevel = SC_MAX (min_zlevel, 0);
+  quadpercol = 1 << min_zlevel;
+
   layers = sc_array_new (sizeof (p2est_quadrant_t));
 
   if (data_size > 0) {
-- 
2.43.0


From a87a70939a31a938f4a21b07a67b49b94021c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 35/57] fix: p6est_load_ext honors every combination of data
 size and load_data

---
 src/p6est.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 2f996ee..c7361f0 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -940,11 +940,16 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   size_t              save_data_size, comb_size;
   uint64_t            u64a;
   p4est_gloidx_t     *gfl;
-  int                 rank;
+  int                 rank, mpiret;
+  p4est_qcoord_t      local_top;
 
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_load %s\n", filename);
   p4est_log_indent_push ();
 
+  if (data_size == 0) {
+    load_data = 0;
+  }
+
   /* open file on all processors */
   src = sc_io_source_new (SC_IO_TYPE_FILENAME, SC_IO_ENCODE_NONE, filename);
   SC_CHECK_ABORT (src != NULL, "file source");
@@ -1054,8 +1059,8 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
       P2EST_QUADRANT_INIT (layer);
       layer->z = loadlayer[0];
       layer->level = (int8_t) loadlayer[1];
+      p6est_layer_init_data (p6est, -1, NULL, layer, NULL);
       if (load_data) {
-        layer->p.user_data = sc_mempool_alloc (p6est->user_data_pool);
         memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
       }
     }
-- 
2.43.0


From ea4acef4d0250627f12ca317844f37115a3cae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 36/57] fix: p6est_load_ext sets the height of the domain

---
 src/p6est.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index c7361f0..520b17a 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -941,7 +941,7 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   uint64_t            u64a;
   p4est_gloidx_t     *gfl;
   int                 rank, mpiret;
-  p4est_qcoord_t      local_top;
+  p4est_qcoord_t      local_top = 0;
 
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_load %s\n", filename);
   p4est_log_indent_push ();
@@ -1063,10 +1063,16 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
       if (load_data) {
         memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
       }
+      local_top = layer->z + P4EST_QUADRANT_LEN (layer->level);
     }
     sc_array_destroy (loaddata);
   }
 
+  /* every column extends from bottom to top */
+  mpiret = sc_MPI_Allreduce (&local_top, &p6est->root_len, 1,
+                             P4EST_MPI_QCOORD, sc_MPI_MAX, mpicomm);
+  SC_CHECK_MPI (mpiret);
+
   retval = sc_io_source_destroy (src);
   SC_CHECK_ABORT (!retval, "destroy source");
 
-- 
2.43.0


From e4f81b9e7f14c6ddc780e9a5a532faeaccbe852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 37/57] fix: p6est partition functions allocate and reduce the
 last offset

---
 src/p6est.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 520b17a..0b4a60e 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2201,8 +2201,8 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2241,7 +2241,7 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2268,8 +2268,8 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->columns->global_num_quadrants;
 
@@ -2311,7 +2311,7 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2340,8 +2340,8 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     p6est->columns->global_first_quadrant[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2381,7 +2381,7 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
-- 
2.43.0


From 346a0f20bed2613a7171453c8a496dd43fb6dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 38/57] fix: p4est_partition_to_p6est_partition returns the
 layer counts

---
 src/p6est.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 0b4a60e..36931fe 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2375,7 +2375,6 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     }
     if (offset == p6est->columns->global_num_quadrants) {
       new_offsets[p] = p6est->global_first_layer[mpisize];
-      break;
     }
     offset += num_columns_in_proc[p];
   }
@@ -2386,7 +2385,7 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
   SC_CHECK_MPI (mpiret);
 
   for (p = 0; p < mpisize; p++) {
-    num_columns_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
+    num_layers_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
   }
 
   P4EST_FREE (new_offsets);
-- 
2.43.0


From 674b7b2f512a5c36b6ab75d79e39b5d7484b96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 39/57] fix: column coarsening reports all four outgoing layers
 to the replace callback

---
 src/p6est.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 36931fe..a73b740 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1661,8 +1661,8 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
       }
     }
     if (replace_fn != NULL) {
-      replace_fn (p6est, which_tree, P4EST_CHILDREN, 1, outgoing, q, 1, 1,
-                  incoming, &p);
+      replace_fn (p6est, which_tree, P4EST_CHILDREN, P4EST_CHILDREN,
+                  outgoing, q, 1, 1, incoming, &p);
     }
     for (j = 0; j < num_outgoing; j++) {
       p6est_layer_free_data (p6est, q[j]);
-- 
2.43.0


From 1f871230af3be07e8c676e4325fbe2f59f0cab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 40/57] fix: column coarsening initializes the new layer once
 its extent is known

---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index a73b740..301de64 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1627,13 +1627,13 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
     }
     p = p2est_quadrant_array_push (work_array);
     *p = *q[0];
-    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 1; j < num_outgoing; j++) {
       P4EST_ASSERT (q[j]->z == p->z);
       if (q[j]->level < p->level) {
         *p = *q[j];
       }
     }
+    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 0; j < num_outgoing; j++) {
       if (q[j]->level > p->level) {
         P4EST_ASSERT (p2est_quadrant_is_ancestor (p, q[j]));
-- 
2.43.0


From e5ae386e318a329b9b320376f1a42b23c560f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 41/57] fix: assertions in p6est coarsening tolerate a data
 size of zero

---
 src/p6est.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 301de64..9c18bd0 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1464,7 +1464,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
   int                 i, stackheight;
 #ifdef P4EST_ENABLE_DEBUG
-  size_t              mcount = p6est->user_data_pool->elem_count;
+  size_t              mcount =
+    p6est->user_data_pool == NULL ? 0 : p6est->user_data_pool->elem_count;
   p4est_qcoord_t      startpos, endpos;
 #endif
 
@@ -1571,7 +1572,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   sc_array_resize (descendants, new_count);
 
 #ifdef P4EST_ENABLE_DEBUG
-  P4EST_ASSERT (mcount - p6est->user_data_pool->elem_count ==
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                mcount - p6est->user_data_pool->elem_count ==
                 (old_count - new_count));
 
   q = p2est_quadrant_array_index (descendants, new_count - 1);
@@ -1773,7 +1775,8 @@ p6est_coarsen_layers_ext (p6est_t * p6est, int coarsen_recursive,
   }
   p6est_compress_columns (p6est);
   p6est_update_offsets (p6est);
-  P4EST_ASSERT (p6est->user_data_pool->elem_count == layers->elem_count);
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                p6est->user_data_pool->elem_count == layers->elem_count);
 
   p4est_log_indent_pop ();
   P4EST_GLOBAL_PRODUCTIONF
-- 
2.43.0


From f2d81eaa4b3cbe9b0941a7ae3f5bbdc3b2759c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 42/57] fix: p6est_copy without data does not keep the memory
 pool of the input

---
 src/p6est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p6est.c b/src/p6est.c
index 9c18bd0..344d1a4 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -616,6 +616,7 @@ p6est_copy_ext (p6est_t * input, int copy_data, int duplicate_comm)
   }
   else {
     p6est->data_size = 0;
+    p6est->user_data_pool = NULL;
   }
   p6est->layer_pool = p2est_quadrant_mempool_new ();
 
-- 
2.43.0


From 0b6411ecc7daaff2b96110d9ada3ad0aec7483bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 43/57] fix: p6est_balance_ext calls back with the user pointer
 of the forest

---
 src/p6est.c | 65 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 344d1a4..a804fa1 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2453,12 +2453,53 @@ p6est_partition (p6est_t * p6est, p6est_weight_t weight_fn)
   return p6est_partition_ext (p6est, 0, weight_fn);
 }
 
+typedef struct p6est_balance_data
+{
+  int                 diff;
+  p6est_init_t        init_fn;
+  p6est_replace_t     replace_fn;
+  void               *user_pointer;
+}
+p6est_balance_data_t;
+
+static void
+p6est_balance_init (p6est_t * p6est, p4est_topidx_t which_tree,
+                    p4est_quadrant_t * column, p2est_quadrant_t * layer)
+{
+  p6est_balance_data_t *bd = (p6est_balance_data_t *) p6est->user_pointer;
+
+  /* sneak the user pointer in and out */
+  p6est->user_pointer = bd->user_pointer;
+  bd->init_fn (p6est, which_tree, column, layer);
+  p6est->user_pointer = (void *) bd;
+}
+
+static void
+p6est_balance_replace (p6est_t * p6est, p4est_topidx_t which_tree,
+                       int num_outcolumns, int num_outlayers,
+                       p4est_quadrant_t * outcolumns[],
+                       p2est_quadrant_t * outlayers[],
+                       int num_incolumns, int num_inlayers,
+                       p4est_quadrant_t * incolumns[],
+                       p2est_quadrant_t * inlayers[])
+{
+  p6est_balance_data_t *bd = (p6est_balance_data_t *) p6est->user_pointer;
+
+  /* sneak the user pointer in and out */
+  p6est->user_pointer = bd->user_pointer;
+  bd->replace_fn (p6est, which_tree, num_outcolumns, num_outlayers,
+                  outcolumns, outlayers, num_incolumns, num_inlayers,
+                  incolumns, inlayers);
+  p6est->user_pointer = (void *) bd;
+}
+
 static int
 p6est_column_refine_thin_layer (p6est_t * p6est,
                                 p4est_topidx_t which_tree,
                                 p4est_quadrant_t * column)
 {
-  int                 max_diff = *((int *) p6est->user_pointer);
+  int                 max_diff =
+    ((p6est_balance_data_t *) p6est->user_pointer)->diff;
   int8_t              horz_level = column->level;
   size_t              first, last, zz;
   sc_array_t         *layers = p6est->layers;
@@ -2483,7 +2524,8 @@ p6est_layer_refine_thick_layer (p6est_t * p6est,
                                 p4est_quadrant_t * column,
                                 p2est_quadrant_t * layer)
 {
-  int                 min_diff = *((int *) p6est->user_pointer);
+  int                 min_diff =
+    ((p6est_balance_data_t *) p6est->user_pointer)->diff;
   int8_t              horz_level = column->level;
   int8_t              vert_level = layer->level;
 
@@ -2501,6 +2543,7 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 {
   p4est_connect_type_t hbtype;
   p6est_refine_col_data_t refine_col;
+  p6est_balance_data_t balance_data;
   void               *orig_user_pointer = p6est->user_pointer;
   p6est_profile_t    *profile;
   int                 any_change;
@@ -2512,6 +2555,10 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
                             (long long) p6est->columns->global_num_quadrants);
   p4est_log_indent_push ();
 
+  balance_data.init_fn = init_fn;
+  balance_data.replace_fn = replace_fn;
+  balance_data.user_pointer = orig_user_pointer;
+
   /* first refine columns whose layers are too thin */
   if (max_diff >= min_diff) {
     int                 print_max_diff = SC_MIN (max_diff, P4EST_QMAXLEVEL);
@@ -2520,9 +2567,12 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing maximum layer width:height ratio 2^%d:1\n", print_max_diff);
-    p6est->user_pointer = (void *) &max_diff;
+    balance_data.diff = max_diff;
+    p6est->user_pointer = (void *) &balance_data;
     p6est_refine_columns_ext (p6est, 1, -1, p6est_column_refine_thin_layer,
-                              init_fn, replace_fn);
+                              init_fn == NULL ? NULL : p6est_balance_init,
+                              replace_fn == NULL ?
+                              NULL : p6est_balance_replace);
     p6est->user_pointer = orig_user_pointer;
   }
 
@@ -2553,9 +2603,12 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing minimum layer width:height ratio 2^%d:1\n", print_min_diff);
-    p6est->user_pointer = (void *) &min_diff;
+    balance_data.diff = min_diff;
+    p6est->user_pointer = (void *) &balance_data;
     p6est_refine_layers_ext (p6est, 1, -1, p6est_layer_refine_thick_layer,
-                             init_fn, replace_fn);
+                             init_fn == NULL ? NULL : p6est_balance_init,
+                             replace_fn == NULL ?
+                             NULL : p6est_balance_replace);
     p6est->user_pointer = orig_user_pointer;
   }
 
-- 
2.43.0


From 36434e25be722361cbf6ffcb5b5b35d0ec3f0da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 44/57] fix: p6est full balance sees layers that touch in an
 edge or corner only

---
 src/p6est_profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index d84adfc..4274cde 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -277,7 +277,7 @@ p6est_profile_balance_full_one_pass (sc_array_t * read, sc_array_t * write,
         else {
           nextl = -1;
         }
-        if (n >= SC_MAX (nextl, prevl) - 1) {
+        if (n >= SC_MAX (nextl, prevl)) {
           zy++;
           n--;
         }
-- 
2.43.0


From 7a2ed900bc982cd938f85cd40c3225c461c66873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 45/57] fix: p6est_balance does not lose profile changes made
 within a loop

---
 src/p6est_profile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index 4274cde..be8b643 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -769,9 +769,11 @@ p6est_profile_balance_local (p6est_profile_t * profile)
       for (j = 0; j < 3; j++) {
         for (i = 0; i < 3; i++, enidx++) {
           nidx = en[enidx];
-          if (!profile->lnode_changed[evenodd][nidx]) {
+          if (!profile->lnode_changed[evenodd][nidx] &&
+              !profile->lnode_changed[evenodd ^ 1][nidx]) {
             /* if the profile hasn't changed since I wrote to it, there's no
-             * need to balance against it */
+             * need to balance against it.  A change made earlier in this
+             * loop counts: below we record the node as taken into account */
             continue;
           }
           if (i != 1 && j != 1) {
@@ -796,7 +798,6 @@ p6est_profile_balance_local (p6est_profile_t * profile)
           sc_array_init_view (&testprof, lc, lr[nidx][0], lr[nidx][1]);
           p6est_profile_union (thisprof, &testprof, work);
           if (work->elem_count > thisprof->elem_count) {
-            P4EST_ASSERT (profile->lnode_changed[evenodd][nidx]);
             any_prof_change = 1;
             sc_array_copy (selfprof, work);
             thisprof = selfprof;
-- 
2.43.0


From 3a1394cc4bf00e7ade66519c77947b5d08786d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 46/57] fix: p6est_refine_layers_ext limits the level to
 P4EST_QMAXLEVEL

---
 src/p6est.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index a804fa1..425619d 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1304,6 +1304,11 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
   int                 level;
   int                 stop_recurse;
 
+  if (allowed_level < 0) {
+    allowed_level = P4EST_QMAXLEVEL;
+  }
+  P4EST_ASSERT (allowed_level <= P4EST_QMAXLEVEL);
+
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_refine_layers with %lld total layers"
                             " in %lld total columns, allowed level %d\n",
                             (long long)
@@ -1328,7 +1333,7 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
         parent = q;
         for (;;) {
           if (!stop_recurse && refine_fn (p6est, jt, col, parent) &&
-              (allowed_level < 0 || (int) parent->level < allowed_level)) {
+              (int) parent->level < allowed_level) {
             level++;
             any_change = 1;
             c[0] = *parent;
-- 
2.43.0


From 27a28f8751e9e9503b7223afb2c0bb07a39c39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 47/57] fix: layer coarsening has room for all levels on its
 stack

---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 425619d..cae548c 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1464,7 +1464,7 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
                           p6est_coarsen_layer_t coarsen_fn,
                           p6est_init_t init_fn, p6est_replace_t replace_fn)
 {
-  p2est_quadrant_t    prevq[P4EST_QMAXLEVEL];
+  p2est_quadrant_t    prevq[P4EST_MAXLEVEL];
   size_t              old_count = descendants->elem_count;
   size_t              zz, new_count = 0;
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
-- 
2.43.0


From 9e47f194f75eac069afad2091251063b034c5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:01 +0000
Subject: [PATCH 48/57] fix: p6est_ghost_new sets the tree offsets of an empty
 mirror list

---
 src/p6est_ghost.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p6est_ghost.c b/src/p6est_ghost.c
index 323b3d1..cfaf2d4 100644
--- a/src/p6est_ghost.c
+++ b/src/p6est_ghost.c
@@ -504,7 +504,8 @@ p6est_ghost_new (p6est_t * p6est, p4est_connect_type_t btype)
   ghost->tree_offsets = P4EST_ALLOC (p4est_locidx_t, num_trees + 1);
   ghost->proc_offsets = P4EST_ALLOC (int, mpisize + 1);
   ghost->mirror_proc_front_offsets = P4EST_ALLOC (int, mpisize + 1);
-  ghost->mirror_tree_offsets = P4EST_ALLOC (p4est_locidx_t, num_trees + 1);
+  ghost->mirror_tree_offsets =
+    P4EST_ALLOC_ZERO (p4est_locidx_t, num_trees + 1);
   ghost->mirror_proc_fronts = NULL;     /* these three are set in p6est_ghost_send_front_layers */
   ghost->mirror_proc_offsets = NULL;
   ghost->mirror_proc_mirrors = NULL;
-- 
2.43.0


From 818e9c7736cc309ce44a9a062dfa1eb030f51103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 49/57] fix: plex data with overlap on a process that has no
 ghosts

The position beyond the local quadrants was looked up also when there are no
ghosts to receive, which is an index out of range.
---
 src/p4est_plex.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/p4est_plex.c b/src/p4est_plex.c
index d5d2108..e629ca5 100644
--- a/src/p4est_plex.c
+++ b/src/p4est_plex.c
@@ -941,7 +941,8 @@ p4est_get_plex_data_int (p4est_t * p4est, p4est_ghost_t * ghost,
         mirror_data[il] = (int8_t *) sc_array_index (is_parent_quad, qid);
       }
       send_data =
-        Klocal ? (int8_t *) sc_array_index (is_parent_quad, Klocal) : NULL;
+        Klocal < K ? (int8_t *) sc_array_index (is_parent_quad,
+                                                Klocal) : NULL;
       p4est_ghost_exchange_custom (p4est, ghost, (size_t) V * sizeof (int8_t),
                                    (void **) mirror_data, send_data);
       P4EST_FREE (mirror_data);
@@ -1696,9 +1697,8 @@ p4est_get_plex_data_int (p4est_t * p4est, p4est_ghost_t * ghost,
           mirror_data[il] =
             (p4est_locidx_t *) sc_array_index (quad_plex, qid);
         }
-        send_data = Klocal ? (p4est_locidx_t *) sc_array_index (quad_plex,
-                                                                Klocal) :
-          NULL;
+        send_data = Klocal < K ?
+          (p4est_locidx_t *) sc_array_index (quad_plex, Klocal) : NULL;
         p4est_ghost_exchange_custom (p4est, ghost,
                                      (size_t) sizeof (p4est_locidx_t),
                                      (void **) mirror_data, send_data);
@@ -1805,9 +1805,8 @@ p4est_get_plex_data_int (p4est_t * p4est, p4est_ghost_t * ghost,
           mirror_data[il] =
             (p4est_locidx_t *) sc_array_index (quad_to_plex, qid * V);
         }
-        send_data = Klocal ? (p4est_locidx_t *) sc_array_index (quad_to_plex,
-                                                                Klocal * V) :
-          NULL;
+        send_data = Klocal < K ?
+          (p4est_locidx_t *) sc_array_index (quad_to_plex, Klocal * V) : NULL;
         p4est_ghost_exchange_custom (p4est, ghost,
                                      (size_t) V * (P4EST_DIM +
                                                    1) *
-- 
2.43.0


From 70e21e1bbbcea920e50b3bb01fd4203611bdfde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 50/57] fix: the pillow geometries evaluated to NaN for some
 points on the equator

---
 src/p4est_geometry.c | 3 ++-
 src/p8est_geometry.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/p4est_geometry.c b/src/p4est_geometry.c
index 00a9b80..2dc468f 100644
--- a/src/p4est_geometry.c
+++ b/src/p4est_geometry.c
@@ -718,7 +718,8 @@ p4est_geometry_pillow_X (p4est_geometry_t *geom,
 
   xyz[0] = sign_d (xyz[0]) * xp;
   xyz[1] = sign_d (xyz[1]) * yp;
-  xyz[2] = sgnz * sqrt (Rsphere * Rsphere - (xp * xp + yp * yp));
+  /* on the equator the difference may be slightly negative by roundoff */
+  xyz[2] = sgnz * sqrt (fmax (Rsphere * Rsphere - (xp * xp + yp * yp), 0.));
 }                               /* p4est_geometry_pillow_X */
 
 p4est_geometry_t   *
diff --git a/src/p8est_geometry.c b/src/p8est_geometry.c
index 56ef995..805467f 100644
--- a/src/p8est_geometry.c
+++ b/src/p8est_geometry.c
@@ -143,7 +143,8 @@ p8est_geometry_pillow_X (p8est_geometry_t *geom,
 
   xp *= sign_d (xc);
   yp *= sign_d (yc);
-  zp = sqrt (1 - (xp * xp + yp * yp));
+  /* on the equator the difference may be slightly negative by roundoff */
+  zp = sqrt (fmax (1 - (xp * xp + yp * yp), 0.));
 
   /* tree 0 => lower hemisphere */
   /* tree 1 => upper hemisphere */
-- 
2.43.0


From 9e07eb7cfe56bc957c2ff7122d3f42e216dfb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 51/57] fix: the blended pillow disk and sphere left their
 domain for a radius other than one

---
 src/p4est_geometry.c | 4 ++--
 src/p8est_geometry.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/p4est_geometry.c b/src/p4est_geometry.c
index 2dc468f..c28da4b 100644
--- a/src/p4est_geometry.c
+++ b/src/p4est_geometry.c
@@ -786,8 +786,8 @@ p4est_geometry_pillow_disk_X (p4est_geometry_t *geom,
 
     w = d * d;
 
-    xyz[0] = w * xp + (1 - w) * xyz[0] / sqrt (2.0);
-    xyz[1] = w * yp + (1 - w) * xyz[1] / sqrt (2.0);
+    xyz[0] = w * xp + (1 - w) * Rdisk * xyz[0] / sqrt (2.0);
+    xyz[1] = w * yp + (1 - w) * Rdisk * xyz[1] / sqrt (2.0);
     xyz[2] = 0.0;
 
     return;
diff --git a/src/p8est_geometry.c b/src/p8est_geometry.c
index 805467f..427d74d 100644
--- a/src/p8est_geometry.c
+++ b/src/p8est_geometry.c
@@ -228,9 +228,9 @@ p8est_geometry_pillow_sphere_X (p8est_geometry_t *geom,
 
     w = d * d;
 
-    xp = w * xp + (1 - w) * xyz[0] / sqrt (3.0);
-    yp = w * yp + (1 - w) * xyz[1] / sqrt (3.0);
-    zp = w * zp + (1 - w) * xyz[2] / sqrt (3.0);
+    xp = w * xp + (1 - w) * Rsphere * xyz[0] / sqrt (3.0);
+    yp = w * yp + (1 - w) * Rsphere * xyz[1] / sqrt (3.0);
+    zp = w * zp + (1 - w) * Rsphere * xyz[2] / sqrt (3.0);
 
   }
 
-- 
2.43.0


From 7f3c83815a198c75e5743fc3bfd99026c6f1d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 52/57] fix: the trees of the pillow shell geometry did not
 meet as the connectivity glues them

---
 src/p8est_geometry.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/p8est_geometry.c b/src/p8est_geometry.c
index 427d74d..d89f2f9 100644
--- a/src/p8est_geometry.c
+++ b/src/p8est_geometry.c
@@ -146,9 +146,12 @@ p8est_geometry_pillow_X (p8est_geometry_t *geom,
   /* on the equator the difference may be slightly negative by roundoff */
   zp = sqrt (fmax (1 - (xp * xp + yp * yp), 0.));
 
-  /* tree 0 => lower hemisphere */
+  /* tree 0 => lower hemisphere, where the third axis points inwards */
   /* tree 1 => upper hemisphere */
-  zp = which_tree == 1 ? -zp : zp;
+  if (which_tree == 0) {
+    zp = -zp;
+    zc = 1. - zc;
+  }
 
   R1 = pillow->R1;
   R2 = pillow->R2;
-- 
2.43.0


From 7a0a7c023b4d54ecec985ce7228514afb7203ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 53/57] fix: setting the Morton index of an exterior quadrant
 shifted into the sign bit

---
 src/p4est_bits.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index cf02706..acb6a6c 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -2447,10 +2447,13 @@ p4est_quadrant_set_morton (p4est_quadrant_t * quadrant,
 #endif
   }
 
-  quadrant->x <<= (P4EST_MAXLEVEL - level);
-  quadrant->y <<= (P4EST_MAXLEVEL - level);
+  quadrant->x = (p4est_qcoord_t)
+    ((uint32_t) quadrant->x << (P4EST_MAXLEVEL - level));
+  quadrant->y = (p4est_qcoord_t)
+    ((uint32_t) quadrant->y << (P4EST_MAXLEVEL - level));
 #ifdef P4_TO_P8
-  quadrant->z <<= (P4EST_MAXLEVEL - level);
+  quadrant->z = (p4est_qcoord_t)
+    ((uint32_t) quadrant->z << (P4EST_MAXLEVEL - level));
 
 #if P4EST_MAXLEVEL < 30         /* This is never true on purpose. */
   SC_ABORT_NOT_REACHED ();
@@ -2505,10 +2508,13 @@ p4est_quadrant_set_morton_ext128 (p4est_quadrant_t * quadrant,
 #endif
   }
 
-  quadrant->x <<= (P4EST_MAXLEVEL - level);
-  quadrant->y <<= (P4EST_MAXLEVEL - level);
+  quadrant->x = (p4est_qcoord_t)
+    ((uint32_t) quadrant->x << (P4EST_MAXLEVEL - level));
+  quadrant->y = (p4est_qcoord_t)
+    ((uint32_t) quadrant->y << (P4EST_MAXLEVEL - level));
 #ifdef P4_TO_P8
-  quadrant->z <<= (P4EST_MAXLEVEL - level);
+  quadrant->z = (p4est_qcoord_t)
+    ((uint32_t) quadrant->z << (P4EST_MAXLEVEL - level));
 
 #if P4EST_MAXLEVEL < 30         /* This is never true. */
   /* this is needed whenever the number of bits is more than MAXLEVEL + 2 */
-- 
2.43.0


From 1875c78f0345f27d87a6c62ef53c11b80804b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:53 +0000
Subject: [PATCH 54/57] fix: columns keep using a communicator that the forest
 of layers gave up

---
 src/p6est.c               | 6 +++---
 src/p6est_communication.c | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index cae548c..2974330 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -602,14 +602,14 @@ p6est_copy_ext (p6est_t * input, int copy_data, int duplicate_comm)
 
   /* set parallel environment */
   p6est_comm_parallel_env_assign (p6est, input->mpicomm);
-  if (duplicate_comm) {
-    p6est_comm_parallel_env_duplicate (p6est);
-  }
   p6est->layers =
     sc_array_new_size (input->layers->elem_size, input->layers->elem_count);
   sc_array_copy (p6est->layers, input->layers);
   p6est->columns = p4est_copy (input->columns, 0);
   p4est_comm_parallel_env_assign (p6est->columns, p6est->mpicomm);
+  if (duplicate_comm) {
+    p6est_comm_parallel_env_duplicate (p6est);
+  }
   p6est->columns->user_pointer = p6est;
   if (copy_data && p6est->data_size > 0) {
     p6est->user_data_pool = sc_mempool_new (p6est->data_size);
diff --git a/src/p6est_communication.c b/src/p6est_communication.c
index 3a46027..bba774f 100644
--- a/src/p6est_communication.c
+++ b/src/p6est_communication.c
@@ -46,6 +46,9 @@ p6est_comm_parallel_env_duplicate (p6est_t * p6est)
   mpiret = sc_MPI_Comm_dup (mpicomm, &(p6est->mpicomm));
   SC_CHECK_MPI (mpiret);
   p6est->mpicomm_owned = 1;
+
+  /* the columns use the communicator of the layers */
+  p4est_comm_parallel_env_replace (p6est->columns, p6est->mpicomm);
 }
 
 void
@@ -81,6 +84,9 @@ p6est_comm_parallel_env_replace (p6est_t * p6est, sc_MPI_Comm mpicomm)
   }
 #endif
 
+  /* the columns use the communicator of the layers */
+  p4est_comm_parallel_env_replace (p6est->columns, mpicomm);
+
   /* release the current parallel environment */
   p6est_comm_parallel_env_release (p6est);
 
-- 
2.43.0


From 3b763130a0ba86000331127b2535ed4314f847e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:22 +0000
Subject: [PATCH 55/57] fix: reducing the communicator of columns relied on an
 unset map of ranks

---
 src/p4est_communication.c |  5 +++++
 src/p6est_communication.c | 12 ++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index 28a4128..04190b0 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -161,6 +161,11 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
   int                *ranks, *subranks;
   int                 p;
 
+  /* the map of ranks is only created if the communicator changes */
+  if (ranks_subcomm) {
+    *ranks_subcomm = NULL;
+  }
+
   /* exit if MPI communicator cannot be reduced */
   if (mpisize == 1) {
     return 1;
diff --git a/src/p6est_communication.c b/src/p6est_communication.c
index bba774f..c44f945 100644
--- a/src/p6est_communication.c
+++ b/src/p6est_communication.c
@@ -152,16 +152,20 @@ p6est_comm_parallel_env_reduce_ext (p6est_t ** p6est_supercomm,
     return 0;
   }
 
+  /* exit if MPI communicator has not been changed */
+  if (ranks == NULL) {
+    if (ranks_subcomm) {
+      *ranks_subcomm = NULL;
+    }
+    return 1;
+  }
+
   /* get sub-communicator */
   submpicomm = p6est->columns->mpicomm;
 
   /* update size of new MPI communicator */
   mpiret = sc_MPI_Comm_size (submpicomm, &submpisize);
   SC_CHECK_MPI (mpiret);
-  if (submpisize == p6est->mpisize) {
-    P4EST_ASSERT (ranks == NULL);
-    return 1;
-  }
 
   /* set new parallel environment */
   p6est_comm_parallel_env_release (p6est);
-- 
2.43.0


From 0909e1f96bcae923bd95ef1c22db79cde6a724b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 56/57] fix: partition for coarsening read before the array of
 offsets

---
 src/p4est.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/p4est.c b/src/p4est.c
index fda61c1..1e05593 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3146,7 +3146,9 @@ p4est_partition_for_coarsening (p4est_t * p4est,
          */
         ++begin;
       }
-      --begin;                  /* since we have partition_now[i + 1] */
+      if (begin > 0) {
+        --begin;                /* since we have partition_now[i + 1] */
+      }
 
       if (my_end != partition_now[end]) {
         /* We want to ensure <= for my_end inequality constraint.
-- 
2.43.0


From 0ec35c487816e3fb0986ec91cc81ba39ac18737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 57/57] fix: wrap_adapt missed a change when the checksums of
 different forests agree

---
 src/p4est_wrap.c | 69 ++++++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/p4est_wrap.c b/src/p4est_wrap.c
index a861bf4..b785737 100644
--- a/src/p4est_wrap.c
+++ b/src/p4est_wrap.c
@@ -25,10 +25,12 @@
 #ifndef P4_TO_P8
 #include <p4est_algorithms.h>
 #include <p4est_bits.h>
+#include <p4est_communication.h>
 #include <p4est_wrap.h>
 #else
 #include <p8est_algorithms.h>
 #include <p8est_bits.h>
+#include <p8est_communication.h>
 #include <p8est_wrap.h>
 #endif
 
@@ -663,16 +665,36 @@ p4est_wrap_mark_coarsen (p4est_wrap_t * pp,
   pp->flags[pos] |= P4EST_WRAP_COARSEN;
 }
 
+/** Return a new array with the levels of all local quadrants in order. */
+static sc_array_t  *
+p4est_wrap_levels (p4est_t * p4est)
+{
+  size_t              qz, zz;
+  p4est_topidx_t      tt;
+  p4est_tree_t       *tree;
+  sc_array_t         *levels;
+
+  levels = sc_array_new_count (sizeof (int8_t), p4est->local_num_quadrants);
+  for (tt = p4est->first_local_tree, qz = 0; tt <= p4est->last_local_tree;
+       ++tt) {
+    tree = p4est_tree_array_index (p4est->trees, tt);
+    for (zz = 0; zz < tree->quadrants.elem_count; ++zz, ++qz) {
+      *(int8_t *) sc_array_index (levels, qz) =
+        p4est_quadrant_array_index (&tree->quadrants, zz)->level;
+    }
+  }
+
+  return levels;
+}
+
 int
 p4est_wrap_adapt (p4est_wrap_t * pp)
 {
   int                 changed;
-  int                 have_zlib;
 #ifdef P4EST_ENABLE_DEBUG
   p4est_locidx_t      jl, local_num;
 #endif
   p4est_gloidx_t      global_num, global_num_entry;
-  unsigned            checksum_entry, checksum_exit;
   p4est_t            *p4est = pp->p4est;
   sc_array_t         *quad_levels;
   int8_t             *level;
@@ -696,39 +718,18 @@ p4est_wrap_adapt (p4est_wrap_t * pp)
   P4EST_ASSERT (pp->num_refine_flags >= 0 &&
                 pp->num_refine_flags <= p4est->local_num_quadrants);
 
-  quad_levels = sc_array_new (sizeof (int8_t));
-  if (pp->params.store_adapted) {
-    P4EST_ASSERT (p4est_is_balanced
-                  (pp->p4est, pp->params.mesh_params.btype));
-
-    /* store quadrant levels to compare with future adapted version */
-    sc_array_resize (quad_levels, p4est->local_num_quadrants);
+  P4EST_ASSERT (!pp->params.store_adapted ||
+                p4est_is_balanced (pp->p4est, pp->params.mesh_params.btype));
 
-    /* iterate over p4est and store leaf levels */
-    for (tt = p4est->first_local_tree, qz = 0; tt <= p4est->last_local_tree;
-         ++tt) {
-      tree = p4est_tree_array_index (p4est->trees, tt);
-      tquadrants = &tree->quadrants;
-      for (zz = 0; zz < tquadrants->elem_count; ++zz, ++qz) {
-        level = (int8_t *) sc_array_index (quad_levels, qz);
-        quadrant = p4est_quadrant_array_index (tquadrants, zz);
-        *level = quadrant->level;
-      }
-    }
-  }
+  /* store quadrant levels to compare with future adapted version */
+  quad_levels = p4est_wrap_levels (p4est);
 
   /* This allocation is optimistic when not all refine requests are honored */
   pp->temp_flags = P4EST_ALLOC_ZERO (uint8_t, p4est->local_num_quadrants +
                                      (P4EST_CHILDREN - 1) *
                                      pp->num_refine_flags);
 
-
-  checksum_entry = 0;
-  if ((have_zlib = p4est_have_zlib())) {
-    /* store p4est checksum on entry to compare with results after balancing */
-    global_num_entry = p4est->global_num_quadrants;
-    checksum_entry = p4est_checksum (p4est);
-  }
+  global_num_entry = p4est->global_num_quadrants;
 
   /* Execute refinement */
   pp->inside_counter = pp->num_replaced = 0;
@@ -767,10 +768,14 @@ p4est_wrap_adapt (p4est_wrap_t * pp)
                        pp->params.replace_fn);
 
     /* check if coarsening and balancing canceled out */
-    if (have_zlib && (global_num_entry == p4est->global_num_quadrants)) {
-      /* only compute another checksum for unchanged global quadrant counts */
-      checksum_exit = p4est_checksum (p4est);
-      changed = (checksum_entry != checksum_exit);
+    if (global_num_entry == p4est->global_num_quadrants) {
+      sc_array_t         *new_levels;
+
+      /* the local range is the same, thus the levels identify the leaves */
+      new_levels = p4est_wrap_levels (p4est);
+      changed = p4est_comm_sync_flag
+        (p4est, !sc_array_is_equal (quad_levels, new_levels), sc_MPI_BOR);
+      sc_array_destroy (new_levels);
     }
 
     if (changed) {
-- 
2.43.0

