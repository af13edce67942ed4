From 830c106fccfdf5fd9a8957d778bcf021eef6fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 01/89] fix: accumulate component costs atomically in the
 parallel LBC connected-components pass

---
 src/lbc_csc_dag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..2f3de93 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -81,6 +81,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  for (int i = 0; i < numNodes; ++i) {
   int node = nodes[i];
   int cc = node2partition[node];
+#pragma omp atomic
   outCost[cc] += nodeCost[node];
   max_cc = std::max(max_cc, cc + 1);
  }
-- 
2.43.0


From 1c349c90894d4c3b7ed4852b69a96b4fa95a06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 02/89] fix: keep clique detection inside the thread's own
 column range

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..a689d14 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2052,7 +2052,7 @@ namespace HDAGG
                     int width = 1;
                     int first = col;
                     int last = col + 1;
-                    while (last < n && width < limit) {
+                    while (last < end_col && width < limit) {
                         int diff = last - first;
                         // compare number of off diagonals
                         int off_last  = Lp[last + 1] - Lp[last];
-- 
2.43.0


From 32995981fd6cf33490ab2a386a72968326bb341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:15 +0000
Subject: [PATCH 03/89] fix: the serial stand-in for the thread number must be
 a valid thread number

---
 src/hdagg/hdagg.cpp | 2 +-
 src/lbc_csc_dag.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index a689d14..5b204cc 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2038,7 +2038,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 2f3de93..98a290b 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -200,7 +200,7 @@ int make_partitions_parallel(int n, int *lC, int *lR, int *finaLevelPtr,
 #ifdef ENABLE_OPENMP
   int tidx = omp_get_thread_num();
 #else
-  int tidx = 1;
+  int tidx = 0;
 #endif
  }
 
-- 
2.43.0


From 433cce0969cd37bb10390c854fa58964047333f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 04/89] fix: level-set inspectors reject valid chains and leak
 their work arrays when they report a cycle

---
 src/hdagg/hdagg.cpp        | 6 +++++-
 utils/sparse_inspector.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 5b204cc..414508a 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -40,8 +40,12 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_level > n)
+            {
+                delete[] inDegree;
+                delete[] visited;
                 return -1; // The input graph has a cycle
+            }
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
                     {
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..ca97d19 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,8 +34,11 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_level > n) {
+    delete[]inDegree;
+    delete[]visited;
     return -1; // The input graph has a cycle
+   }
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
     begin++;
-- 
2.43.0


From 1263306f05664969cbf2e267b43dc69d4de50ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 05/89] fix: build_levelSet_BCSC releases its node2Level work
 array and stays inside inDegree

---
 utils/sparse_inspector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index ca97d19..66a0dd2 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -163,7 +163,7 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
    while (inDegree[end] == 1 && begin <= end)
     end--;
@@ -180,6 +180,7 @@ namespace sym_lib {
   }
   delete[]inDegree;
   delete[]visited;
+  delete[]node2Level;
   return cur_level;//return number of levels
  }
 
-- 
2.43.0


From 71eeb2bbabf03803c945f9cd563dc51270a9a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 06/89] fix: bcsc_csc_bcsc_levelset releases its supers work
 array

---
 utils/sparse_inspector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 66a0dd2..37d3df4 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -727,6 +727,7 @@ namespace sym_lib {
   delete[]visited;
   delete[]degrees;
   delete[]inqueue;
+  delete[]supers;
 
   levelptr = new int[cur_level + 1];
   std::memcpy(levelptr, levelptr_, sizeof(int) * (cur_level + 1));
-- 
2.43.0


From ca34b8fd25234ef1b7718f1b6df82dd49c9f2cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 07/89] fix: getCoarseLevelSet_DAG_BCSC02 releases isUniq for
 every level partition

---
 src/lbc_blocked.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..2a325c6 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -164,6 +164,7 @@ namespace sym_lib {
      }
     }
    }
+   delete[] isUniq;
    //Reset all marked node in the DAG
    for (int j = levelPtr[lbLevel > 0 ? lbLevel : 0];
         j < levelPtr[lbLevel + 1]; ++j) {
-- 
2.43.0


From 1bf893d4d077b95bf57849e4f9f6c58fb176a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 08/89] fix: get_coarse_levelSet_tree releases its work arrays
 on the single-node path

---
 src/lbc_tree.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..cb7eb7e 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -97,6 +97,14 @@ namespace sym_lib {
    finalPartPtr[0] = 0;
    finalPartPtr[1] = 1;
    finalNodePtr[0] = 0;
+   delete[] nodeHeight;
+   delete[] slackNumber;
+   delete[] node2Level;
+   delete[] childPtrSubtree;
+   delete[] childNoSubtree;
+   delete[] nChildTmp;
+   delete[] levelPtr;
+   delete[] levelSet;
    return finaLevelNo;
   }
 #if 0
-- 
2.43.0


From b015acf6946202edd3ffb14cade6bd4d94eccd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 09/89] fix: compute_etree releases its workspace for the
 unsupported lower-triangular case

---
 utils/etree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/etree.cpp b/utils/etree.cpp
index a032b92..e1e5b70 100644
--- a/utils/etree.cpp
+++ b/utils/etree.cpp
@@ -108,6 +108,7 @@ namespace sym_lib{
    }
   }
   else{// symmetric case with lower triangular part not supported
+   delete []Iwork;
    return false ;
   }
   delete []Iwork;
-- 
2.43.0


From d638f9a6054ab516b129a5a118677d7fe523b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 10/89] fix: build_symbolic_simplicial_lfactor releases its
 permuted matrices and the permutation in the matching way

---
 utils/lfactor_creation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 588200a..a1fd624 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -395,7 +395,7 @@ namespace sym_lib{
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
-  delete perm_metis;
+  delete []perm_metis;
   delete A_full;
 #else
   for(int i=0; i<n; i++) perm[i] = i; // no permutation
@@ -422,8 +422,8 @@ namespace sym_lib{
   /// Build the L-factor pattern
   lfsi->L = build_L_pattern_from_col_counts(n, At_ord, col_count, parent,
     lfsi->accessed_nnz_per_col);
-  //delete A_ord;
-  //delete At_ord;
+  delete A_ord;
+  delete At_ord;
   delete []ws;
   delete []first;
   delete []level;
-- 
2.43.0


From 2467465b014b3a496089bfec43546be1d67366f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 11/89] fix: group releases the work arrays its constructor
 allocates

---
 include/aggregation/group.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aggregation/group.h b/include/aggregation/group.h
index b886480..bae0870 100755
--- a/include/aggregation/group.h
+++ b/include/aggregation/group.h
@@ -58,6 +58,14 @@ namespace sym_lib
 
         }
 
+        ~group() {
+         free(status);
+         free(next);
+         free(pre);
+         free(visited);
+         free(child);
+        }
+
 
         /**
          * @brief Grouping consecutive columns with dependence of sptrsv_csc
-- 
2.43.0


From 1b2596f80ae7d8f9699f41de83447928a32250f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 12/89] fix: inspection_sptrsvcsr_v2 releases rCnt

---
 src/group.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..619cefa 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -234,6 +234,7 @@ namespace sym_lib
       }
      }
 
+     free(rCnt);
      memset(visited, 0, sizeof(bool)*ncol);
 
      int pos=0; int index=0;
-- 
2.43.0


From 3f34236d951cbdce888da01a911ccfc68855da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 13/89] fix: metis_partition_symmetric releases ind

---
 utils/metis_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3982474..d5a06d2 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -228,6 +228,7 @@ namespace sym_lib {
   assert(retMet == METIS_OK);
   for (int i = 0; i < n; ++i)
    part[i] = partIDX[i];
+  delete[]ind;
   delete[]Afullp;
   delete[]Afulli;
   delete[]weigt;
-- 
2.43.0


From 3831150c6093ea8911a2fcdf6a9e88cb7409f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 14/89] fix: metis_partition_coarsened releases part_cors with
 delete[]

---
 utils/metis_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index d5a06d2..79dc276 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -340,7 +340,7 @@ namespace sym_lib {
   }
   //t.measure_elapsed_time();
   //t.print_t_array();
-  delete part_cors;
+  delete[]part_cors;
   delete tmp;
   return 0;
  }
-- 
2.43.0


From 45282f34100438bd2df733a623d659a6fdd5bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 15/89] fix: transpose_symmetric releases its result and
 workspace when the permutation is invalid

---
 utils/sparse_utilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..25388e7 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -306,7 +306,9 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
+        delete []Iwork;
+        delete F;
         return NULLPNTR;
        }
        Pinv[i] = k;
-- 
2.43.0


From 61587c3c3b6f1da509488d2db580d36f3402e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 16/89] fix: generate_matrices_from_mtx releases the reordered
 matrix and does not leak a permutation buffer

---
 utils/FusionDemo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/FusionDemo.cpp b/utils/FusionDemo.cpp
index 3314680..0b6cd4f 100644
--- a/utils/FusionDemo.cpp
+++ b/utils/FusionDemo.cpp
@@ -111,7 +111,7 @@ namespace sym_lib{
   CSC *L1_csc = NULLPNTR;
 #ifdef METIS
   //We only reorder L since dependency matters more in l-solve.
-  auto *perm = new int[L1_csc_in->n]();
+  int *perm;
   CSC *L1_csc_full = make_full(L1_csc_in);
   metis_perm_general(L1_csc_full, perm);
   L1_csc = make_half(L1_csc_full->n, L1_csc_full->p, L1_csc_full->i,
@@ -132,6 +132,9 @@ namespace sym_lib{
    B = diagonal(L1_csc->n,1.0);
    B_csr = csc_to_csr(B);
   }
+#ifdef METIS
+  delete L1_csc;
+#endif
  }
 
  void print_common_header(){
-- 
2.43.0


From bbbfc1897cfbef1eb09f6b56ce37a1736ab1cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 17/89] fix: read_mtx releases its file and index buffer on
 every path

---
 utils/sparse_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1a2dcf9..04a5920 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -36,6 +36,7 @@ namespace sym_lib {
    if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
+    delete[]J;
     delete (A);
     return nullptr;
    }
@@ -57,6 +58,7 @@ namespace sym_lib {
   }
   A->p[n] = nnz;
   delete[]J;
+  fclose(mf);
 
   A->m = m;
   A->n = n;
-- 
2.43.0


From 3e55bb2236510b64b9765e5c74d2aae6db1345f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 18/89] fix: Matrix Market helpers close the file and release
 buffers on error paths

---
 utils/external/mmio.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ace5551..23f9ffb 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -29,6 +29,7 @@ namespace sym_lib {
   if (mm_read_banner(f, &matcode) != 0) {
    printf("mm_read_unsymetric: Could not process Matrix Market banner ");
    printf(" in file [%s]\n", fname);
+   fclose(f);
    return -1;
   }
 
@@ -38,6 +39,7 @@ namespace sym_lib {
    fprintf(stderr, "Sorry, this application does not support ");
    fprintf(stderr, "Market Market type: [%s]\n",
            mm_typecode_to_str(matcode));
+   fclose(f);
    return -1;
   }
 
@@ -45,6 +47,7 @@ namespace sym_lib {
 
   if (mm_read_mtx_crd_size(f, &M, &N, &nz) != 0) {
    fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+   fclose(f);
    return -1;
   }
 
@@ -303,15 +306,21 @@ namespace sym_lib {
    return MM_COULD_NOT_READ_FILE;
 
 
-  if ((ret_code = mm_read_banner(f, matcode)) != 0)
+  if ((ret_code = mm_read_banner(f, matcode)) != 0) {
+   if (f != stdin) fclose(f);
    return ret_code;
+  }
 
   if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
-        mm_is_matrix(*matcode)))
+        mm_is_matrix(*matcode))) {
+   if (f != stdin) fclose(f);
    return MM_UNSUPPORTED_TYPE;
+  }
 
-  if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
+  if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0) {
+   if (f != stdin) fclose(f);
    return ret_code;
+  }
 
 
   *I = (int *) malloc(*nz * sizeof(int));
@@ -322,16 +331,25 @@ namespace sym_lib {
    *val = (double *) malloc(*nz * 2 * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
+   if (ret_code != 0) {
+    if (f != stdin) fclose(f);
+    return ret_code;
+   }
   } else if (mm_is_real(*matcode)) {
    *val = (double *) malloc(*nz * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
+   if (ret_code != 0) {
+    if (f != stdin) fclose(f);
+    return ret_code;
+   }
   } else if (mm_is_pattern(*matcode)) {
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
+   if (ret_code != 0) {
+    if (f != stdin) fclose(f);
+    return ret_code;
+   }
   }
 
   if (f != stdin) fclose(f);
-- 
2.43.0


From d27e84afadef0c2b2650b161a87170608e34b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:42 +0000
Subject: [PATCH 19/89] fix: Matrix Market helpers free the type name string

---
 utils/external/mmio.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 23f9ffb..33286f4 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -37,8 +37,9 @@ namespace sym_lib {
   if (!(mm_is_real(matcode) && mm_is_matrix(matcode) &&
         mm_is_sparse(matcode))) {
    fprintf(stderr, "Sorry, this application does not support ");
-   fprintf(stderr, "Market Market type: [%s]\n",
-           mm_typecode_to_str(matcode));
+   char *str = mm_typecode_to_str(matcode);
+   fprintf(stderr, "Market Market type: [%s]\n", str);
+   free(str);
    fclose(f);
    return -1;
   }
@@ -380,7 +381,9 @@ namespace sym_lib {
 
   /* print banner followed by typecode */
   fprintf(f, "%s ", MatrixMarketBanner);
-  fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+  char *str = mm_typecode_to_str(matcode);
+  fprintf(f, "%s\n", str);
+  free(str);
 
   /* print matrix sizes and nonzeros */
   fprintf(f, "%d %d %d\n", M, N, nz);
-- 
2.43.0


From 42f2cb1caef9e15418f13267faa9a80f1f59b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 20/89] fix: get_coarse_levelSet_DAG_CSC_tree does not release
 the same matrix twice

---
 src/lbc_csc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..d26c8de 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -324,7 +324,7 @@ namespace sym_lib {
    ret = compute_etree(A_sym, etree);
    t2.start_timer();
   elap = t2.measure_elapsed_time();
-   delete A_sym;
+   if (A_sym != A) delete A_sym;
   } else{
    ret = compute_etree(A, etree);
   }
-- 
2.43.0


From 86a93847c13834c39b7b80fcbbcb7bdea0bd7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 21/89] fix: build_levelSet_CSC (const overload) accepts
 full-length chains and releases its work arrays on a cycle

---
 utils/sparse_inspector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 37d3df4..0324b5f 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -986,8 +986,11 @@ namespace sym_lib {
      }
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_level > n) {
+       delete[] inDegree;
+       delete[] visited;
        return -1; // The input graph has a cycle
+     }
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
      {
-- 
2.43.0


From 8965125dbdd34cc66c06e21119462b5ba64f239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 22/89] fix: transpose_symmetric releases its result and
 workspace when the entries do not fit

---
 utils/sparse_utilities.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 25388e7..cd35058 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -383,6 +383,8 @@ namespace sym_lib {
       Wi[i] = Fp[i];
      }
      if (p > F->nnz) {
+      delete []Iwork;
+      delete F;
       return NULLPNTR;
      }
 
-- 
2.43.0


From fc9b8c91cfab5676ef9b4827eee38c8202fd7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:12 +0000
Subject: [PATCH 23/89] fix: copy the pointer array in copy_from_to

---
 utils/sparse_utilities.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index cd35058..1c3bff3 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -522,7 +522,8 @@ namespace sym_lib {
 
     void copy_from_to(CSR *src, CSR *dst){
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
+      dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
@@ -532,7 +533,8 @@ namespace sym_lib {
 
     void copy_from_to(CSC *src, CSC *dst){
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
+      dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
-- 
2.43.0


From 208a40935ad95a0675e40794f44f467dbf3bb9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 24/89] fix: copy the values and the symmetry type in
 convert_to_one_based

---
 utils/sparse_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 04a5920..4c81c36 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -121,13 +121,14 @@ namespace sym_lib {
   else
    for (int j = 0; j < A->nnz; ++j) {
     A_one->i[j] = A->i[j]+1;
-    A_one->x[j] = A_one->x[j];
+    A_one->x[j] = A->x[j];
    }
 
   for (int k = 0; k < A->n + 1; ++k) {
    A_one->p[k+1] = A->p[k];
   }
   A_one->m--; A_one->n--;
+  A_one->stype = A->stype;
   return A_one;
  }
 
-- 
2.43.0


From 1fe109ccee8052ddb1f470ded696dbae1fd88d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 25/89] fix: convert rectangular matrices correctly in
 csr_to_csc(CSR*)

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 1c3bff3..f89b66b 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -109,7 +109,7 @@ namespace sym_lib {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
      B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
+     int st = csr_to_csc(A->m, A->n, A->i, A->p, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
     }
-- 
2.43.0


From 12419569d507cddbd1ebb059eeab99e050a08d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 26/89] fix: make_half describes an extracted upper triangle as
 upper

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index f89b66b..4f3151a 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -222,7 +222,7 @@ namespace sym_lib {
       }
       Bp[i+1] = nnz_cnt;
      }
-     B->stype = -1;
+     B->stype = lower ? -1 : 1;
      return B;
     }
 
-- 
2.43.0


From 2c3b5cb8a33596077073033b2d9c045c1a7617d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 27/89] fix: add reports the number of entries of the sum

---
 utils/sparse_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 4f3151a..87c4176 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1114,6 +1114,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
       if (!values) for (p = Cp [j] ; p < nz ; p++) Cx [p] = x [Ci [p]] ;
      }
      Cp [n] = nz ;
+     C->nnz = nz;
      delete []x;
      delete []w;
      return C;
-- 
2.43.0


From 5a3aa937a0ac0f1db8a3bd723f60611427e50cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 28/89] fix: csc_to_csr keeps the symmetry type

---
 utils/sparse_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 87c4176..73f66c2 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -63,6 +63,7 @@ namespace sym_lib {
       rowCnt[A->i[i]]++;
 
      CSR *B = new CSR(A->m,A->n,A->nnz,A->is_pattern);
+     B->stype = A->stype;
      int *rowptr = B->p; //new int[nrow + 1]();
      size_t ncol = B->n;
      size_t nrow = B->m;
-- 
2.43.0


From f50c7c6e9edca6db83157c4505ede8df2853df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 29/89] fix: transpose_general flips the symmetry type with the
 triangle

---
 utils/sparse_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 73f66c2..d4b19c6 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -170,6 +170,7 @@ namespace sym_lib {
       return AT;
      }
      AT = new CSC(col,row,A->nnz,A->is_pattern);
+     AT->stype = -A->stype;
      int *col_cnt = new int[row]();//cols will be rows
      for (int i = 0; i < A->p[col]; ++i) {
       col_cnt[A->i[i]]++;
-- 
2.43.0


From 62cc24bb3108bfa83d3dc9bbbf3c367c10371d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 30/89] fix: tree_to_csc counts the edges of a forest

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index d4b19c6..41d0fd0 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -156,7 +156,7 @@ namespace sym_lib {
     CSC* tree_to_csc(int n, int *tree){
      int *Ai = new int[n](), *Ap = new int[n+1](), *cnt = new int[n]();
      populate_children(n, tree, Ap, Ai, cnt);
-     CSC *T = new CSC(n,n,n-1,Ap,Ai,0);
+     CSC *T = new CSC(n,n,Ap[n],Ap,Ai,0);
      delete []cnt;
      return T;
     }
-- 
2.43.0


From 68832da26f93b13ab716643bcd0bbe25d0827a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 31/89] fix: tridiag stores values in both triangles: general,
 not pattern

---
 utils/sparse_utilities.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 41d0fd0..7bc91ae 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -117,9 +117,6 @@ namespace sym_lib {
 
     CSC *tridiag(int n, double a0, double a1, double a2) {
      CSC *A = new CSC(n, n, 3 * n - 2);
-     A->is_pattern = true;
-     A->stype = -1;
-
      int ind = 0;
      A->p[0] = 0;
      for(int i = 0; i < n; i++) {
-- 
2.43.0


From f409795c7ba789d606cf56b8264aa8ca1c8e1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 32/89] fix: compressed_BCSC_to_CSC stores only the entries it
 counted

---
 utils/BCSCMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..8dd29a2 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -276,9 +276,6 @@ namespace sym_lib {
     inplace[temp[k]] = false;
    count = 0;
 
-   Ai[i] = j + nodes;
-   Ap[p]++;
-   i++;
    p++;
   }
 
-- 
2.43.0


From ee13223eb51ae9ff49adea7992da41514cdf5f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 33/89] fix: merge_graphs examines every row of the second
 matrix

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 0324b5f..ceffa7a 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -780,7 +780,7 @@ namespace sym_lib {
   // Count # nnz in B
   for (int i = 0; i < nodes; i++) {
    for (int r = 0; r < nB->nrows[i]; r++) {
-    int row = supers[nB->i[nB->p[i]]];
+    int row = supers[nB->i[nB->p[i] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
@@ -844,7 +844,7 @@ namespace sym_lib {
    Mi[i] = j + nodes;
    i++;
    for (int r = 0; r < nB->nrows[j]; r++) {
-    int row = supers[nB->i[nB->p[j]]];
+    int row = supers[nB->i[nB->p[j] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
-- 
2.43.0


From 495c1a162da53db2331e9cb5b70647268b76e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:31 +0000
Subject: [PATCH 34/89] fix: costComputation counts every entry of a grouped
 ILU0 node

---
 src/hdagg/hdagg.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 414508a..f7a5a1e 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2359,9 +2359,6 @@ namespace HDAGG
                     for(int node_ptr = group_ptr[group]; node_ptr < group_ptr[group + 1]; node_ptr++){
                         int node = group_set[node_ptr];
                         for (int j = CSR_Lp[node]; j < CSR_Lp[node + 1]; j++) {
-                            if(node > j){
-                                break;
-                            }
                             auto dep = CSR_Li[j];
                             cost[group] += (CSR_Lp[dep + 1] - CSR_Lp[dep]);
                         }
-- 
2.43.0


From 8e67271fb3aeb078c0ee52d9b91ddfbe3452d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 35/89] fix: build the level set serially when SpMP is not
 compiled in

---
 src/hdagg/hdagg.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index f7a5a1e..1381b98 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -629,8 +629,8 @@ namespace HDAGG
         std::vector<int> node_to_level(n, 0);
         int nlevels;
 
-        if(parallelLevelset){
 #ifdef SpMP
+        if(parallelLevelset){
             //Create the CSC version of the codeto use make_full and csc_to_csr codes
             CSC* Lower_A_CSC = new CSC(n, n, nnz);
             std::copy(DAG_ptr, DAG_ptr + n + 1, Lower_A_CSC->p);
@@ -652,8 +652,9 @@ namespace HDAGG
             delete tmp;
             delete A;
             delete CSR_A;
+        } else
 #endif
-        } else {
+        {
             //Create the Levelset and compute node_to_level
             level_ptr.resize(n + 1);
             level_set.resize(n);
@@ -843,8 +844,8 @@ namespace HDAGG
         std::vector<int> node_to_level(n, 0);
         int nlevels;
 
-        if(parallelLevelset){
 #ifdef SPMP
+        if(parallelLevelset){
             std::cerr << "Parallel levelset is still under construction" << std::endl;
             //Create the CSC version of the codeto use make_full and csc_to_csr codes
             sym_lib::CSC* Lower_A_CSC = new sym_lib::CSC(n, n, nnz);
@@ -867,8 +868,9 @@ namespace HDAGG
             delete tmp;
             delete A;
             delete CSR_A;
+        } else
 #endif
-        } else {
+        {
             //Create the Levelset and compute node_to_level
             level_ptr.resize(n + 1);
             level_set.resize(n);
-- 
2.43.0


From f0c55ae683ffb899fc3bf6c3eae8541638a3fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 36/89] fix: give stype a value in the CSC constructor that
 wraps caller arrays

---
 include/aggregation/def.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 96d2188..8c91332 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -150,6 +150,7 @@ namespace sym_lib {
    p = Ap;
    i = Ai;
    x = Ax;
+   stype = 0;
   }
 
   CSC(size_t M, size_t N, size_t NNZ, int *Ap, int *Ai, int st) {
-- 
2.43.0


From d4231ce90db79213eb80e0b0795ac19505e9f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 37/89] fix: a new BCSC owns no arrays yet

---
 include/aggregation/def.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 8c91332..1cd8553 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -267,7 +267,8 @@ namespace sym_lib {
   int *supernodes;
   int *nrows;
 
-  BCSC(CSC *A) : m(A->m), n(A->n) {
+  BCSC(CSC *A) : m(A->m), n(A->n), nnz(0), p(NULLPNTR), i(NULLPNTR),
+                 x(NULLPNTR), nodes(0), supernodes(NULLPNTR), nrows(NULLPNTR) {
    assert(A != nullptr);
   }
 
-- 
2.43.0


From 88a0a2bbd657f506c7cd23ed8b71c2dbc74dffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 38/89] fix: an empty Dense has a null array

---
 include/aggregation/def.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 1cd8553..59459fe 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -287,7 +287,7 @@ namespace sym_lib {
   size_t lda;
   double *a;
 
-  Dense(size_t M, size_t N, size_t LDA) : row(M), col(N), lda(LDA) {
+  Dense(size_t M, size_t N, size_t LDA) : row(M), col(N), lda(LDA), a(NULLPNTR) {
    assert(lda == 1 || lda == N);
    if (row > 0 && col > 0)
     a = new double[row * col]();
-- 
2.43.0


From 5ea814236f831d7f7406be958cdf60d0b2805ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 39/89] fix: costComputation sizes an empty cost vector too

---
 src/hdagg/hdagg.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 1381b98..6f08b18 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2266,10 +2266,8 @@ namespace HDAGG
     void costComputation(int nodes, const int* CSC_Lp, const int* CSC_Li, const int* CSR_Lp, const int* CSR_Li,
                          Kernel kernel, const int* group_ptr, const int* group_set, bool grouped,
                          std::vector<double>& cost){
-        if(!cost.empty()){
-            cost.clear();
-            cost.resize(nodes, 0);
-        }
+        cost.clear();
+        cost.resize(nodes, 0);
         if(kernel == SpTrSv_LL || kernel == SpTrSv_RL){
             const int* Lp;
             if(kernel == SpTrSv_LL){
-- 
2.43.0


From b893d70af2e4c73adff486f22e9133d2c5078f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 40/89] fix: the LBC schedulers set the number of partitions
 they report

---
 src/lbc_blocked.cpp | 1 +
 src/lbc_csc.cpp     | 1 +
 src/lbc_csc_dag.cpp | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 2a325c6..76856be 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -261,6 +261,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
   if (true) {//Verification of the set.
    bool *checkExist = new bool[n];
    for (int i = 0; i < n; ++i) checkExist[i] = false;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index d26c8de..309b72e 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -261,6 +261,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
 #ifdef CHECK
   if (true) {//Verification of the set.
       bool *checkExist = new bool[n];
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 98a290b..4b71436 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -373,6 +373,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
                           levelPtr, levelSet, numThreads, binPacking);
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
   for (int i = 0; i < n; ++i)
@@ -651,6 +652,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  }
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  //  std::cout<<tt_ts<<",";
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
-- 
2.43.0


From 6b62a2fb0e490f086312ef07a53e5bcb4904ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 41/89] fix: extract_diagonals marks rows without a diagonal
 entry

---
 utils/sparse_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 7bc91ae..667c213 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -758,6 +758,7 @@ namespace sym_lib {
  int *extract_diagonals(const int n, const int *Ap, const int *Ai){
   auto *ret_ptr = new int[n];
   for (int i = 0; i < n; ++i) {
+   ret_ptr[i] = -1;
    for (int j = Ap[i]; j < Ap[i+1]; ++j) {
     if(Ai[j] == i){
      ret_ptr[i] = j;
-- 
2.43.0


From 25ae395f4af0437073e80a3f0a60d192b03c92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 42/89] fix: mm_read_mtx_crd refuses the entry types it does
 not read

---
 utils/external/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 33286f4..6a8f0e4 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -344,7 +344,7 @@ namespace sym_lib {
     if (f != stdin) fclose(f);
     return ret_code;
    }
-  } else if (mm_is_pattern(*matcode)) {
+  } else {
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
    if (ret_code != 0) {
-- 
2.43.0


From 38f724fc5fc7a0b7169151e9ec0d6b14189f1658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 43/89] fix: build_level_set_tree_efficient counts one node in
 bounds

---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index ceffa7a..db7a391 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -464,7 +464,7 @@ namespace sym_lib {
                                     const int *nChild1,
                                     int *levelPtr, int *levelSet, int *node2level) {
   int maxLen = 0, level = 0, num_levels=0;
-  auto *level_cnt = new int[n]();
+  auto *level_cnt = new int[n + 1]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
     levelSet[levelPtr[1]] = i;
-- 
2.43.0


From 07ed814f2c3317197f7f6b322f96697e4db7c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 44/89] fix: the LBC schedulers size the partition boundaries
 for n partitions

---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 76856be..8e0230a 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 309b72e..0184222 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 4b71436..534dec9 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -335,7 +335,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -421,7 +421,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index cb7eb7e..5f6fbd4 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From c675af6badbbe61507e80f91a18b9ec8b5bb899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 45/89] fix: read_mtx reports unreadable and malformed files
 instead of ending the process

---
 utils/sparse_io.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 4c81c36..f3bf2cb 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -15,7 +15,10 @@ namespace sym_lib {
 
  CSC *read_mtx(std::string fname) {
   FILE *mf = fopen(fname.c_str(), "r");
-  if (!mf) exit(1);
+  if (!mf) {
+   std::cerr << "Error opening matrix file\n";
+   return nullptr;
+  }
 
   MM_typecode mcode;
   if (mm_read_banner(mf, &mcode) != 0) {
@@ -25,7 +28,11 @@ namespace sym_lib {
   }
 
   int m, n, nnz;
-  if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) exit(1);
+  if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) {
+   std::cerr << "Error processing matrix size\n";
+   fclose(mf);
+   return nullptr;
+  }
   CSC *A = new CSC(m, n, nnz);
   int *J = new int[nnz]();
 
@@ -33,7 +40,8 @@ namespace sym_lib {
 
   // Copy matrix data into COO format
   for (int i = 0; i < nnz; i++) {
-   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
+   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) != 3 ||
+       A->i[i] < 1 || A->i[i] > m || J[i] < 1 || J[i] > n) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
     delete[]J;
-- 
2.43.0


From fb78f465fb4eff32d60714f57a29365fa62b03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 46/89] fix: read_mtx builds the column pointers for empty and
 unordered columns

---
 utils/sparse_io.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index f3bf2cb..1336903 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -51,20 +51,18 @@ namespace sym_lib {
    (A->i)[i]--;
    J[i]--;
   }
-  int i = 0, j;
-  int index = 0, cur;
-  for (; i < nnz; i++) {
-   A->p[index] = i;
-   cur = J[i];
-   for (j = i + 1; j < nnz; j++) {
-    if (J[j] != cur)
-     break;
-    else
-     i++;
-   }
-   index += 1;
+  // Order the entries by column and set the column pointers
+  for (int i = 0; i < nnz; i++)
+   A->p[J[i] + 1]++;
+  for (int c = 0; c < n; c++)
+   A->p[c + 1] += A->p[c];
+  std::vector<int> rows(A->i, A->i + nnz), next(A->p, A->p + n);
+  std::vector<double> vals(A->x, A->x + nnz);
+  for (int i = 0; i < nnz; i++) {
+   int pos = next[J[i]]++;
+   A->i[pos] = rows[i];
+   A->x[pos] = vals[i];
   }
-  A->p[n] = nnz;
   delete[]J;
   fclose(mf);
 
-- 
2.43.0


From 9166ca725d30b9acae575be77a9d2e5d53890d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 47/89] fix: the Matrix Market size readers stop at malformed
 sizes

---
 utils/external/mmio.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 6a8f0e4..faf9cae 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -174,6 +174,10 @@ namespace sym_lib {
    return 0;
  }
 
+ static bool size_is_valid(int M, int N, int nz) {
+  return M >= 0 && N >= 0 && nz >= 0;
+ }
+
  int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz) {
   char line[MM_MAX_LINE_LENGTH];
   int num_items_read;
@@ -189,15 +193,14 @@ namespace sym_lib {
 
   /* line[] is either blank or has M,N, nz */
   if (sscanf(line, "%d %d %d", M, N, nz) == 3)
-   return 0;
+   return size_is_valid(*M, *N, *nz) ? 0 : MM_PREMATURE_EOF;
 
-  else
-   do {
-    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
-   } while (num_items_read != 3);
+  else {
+   num_items_read = fscanf(f, "%d %d %d", M, N, nz);
+   if (num_items_read != 3) return MM_PREMATURE_EOF;
+  }
 
-  return 0;
+  return size_is_valid(*M, *N, *nz) ? 0 : MM_PREMATURE_EOF;
  }
 
 
@@ -215,15 +218,14 @@ namespace sym_lib {
 
   /* line[] is either blank or has M,N, nz */
   if (sscanf(line, "%d %d", M, N) == 2)
-   return 0;
+   return size_is_valid(*M, *N, 0) ? 0 : MM_PREMATURE_EOF;
 
-  else /* we have a blank line */
-   do {
-    num_items_read = fscanf(f, "%d %d", M, N);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
-   } while (num_items_read != 2);
+  else { /* we have a blank line */
+   num_items_read = fscanf(f, "%d %d", M, N);
+   if (num_items_read != 2) return MM_PREMATURE_EOF;
+  }
 
-  return 0;
+  return size_is_valid(*M, *N, 0) ? 0 : MM_PREMATURE_EOF;
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-- 
2.43.0


From 695adccb5d8317723f0d871721ec69bbac8c0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 48/89] fix: the Matrix Market size writers report failure only
 when writing fails

---
 utils/external/mmio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index faf9cae..f6801fa 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -168,7 +168,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_crd_size(FILE *f, int M, int N, int nz) {
-  if (fprintf(f, "%d %d %d\n", M, N, nz) != 3)
+  if (fprintf(f, "%d %d %d\n", M, N, nz) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -229,7 +229,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-  if (fprintf(f, "%d %d\n", M, N) != 2)
+  if (fprintf(f, "%d %d\n", M, N) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
-- 
2.43.0


From 12634aca62f90bdf4bf8382b4a26ffeda0fd3d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 49/89] fix: mm_read_unsymmetric_sparse reports entries it
 cannot read

---
 utils/external/mmio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index f6801fa..7bbf9e8 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -71,7 +71,10 @@ namespace sym_lib {
   /*  (ANSI C X3.159-1989, Sec. 4.9.6.2, p. 136 lines 13-15)            */
 
   for (i = 0; i < nz; i++) {
-   fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+   if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3) {
+    fclose(f);
+    return -1;
+   }
    I[i]--;  /* adjust from 1-based to 0-based */
    J[i]--;
   }
-- 
2.43.0


From c0eb2494e2eb337547d22d0883f6a4814db90a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 50/89] fix: mm_write_banner reports failure only when writing
 fails

---
 utils/external/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 7bbf9e8..c93c7dc 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -368,7 +368,7 @@ namespace sym_lib {
 
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
-  if (ret_code != 2)
+  if (ret_code < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
-- 
2.43.0


From a80cbad7876782b0b8eb06431c6912c129b73cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 51/89] fix: matrix and vector writers report a file they
 cannot write

---
 utils/sparse_io.cpp        | 18 ++++++++++++++----
 utils/sparse_utilities.cpp |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1336903..7bd6f0b 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -74,6 +74,8 @@ namespace sym_lib {
 
  void CSC_to_mtx(std::string fname, CSC *A) {
   FILE *fp = fopen(fname.c_str(), "w");
+  if (!fp)
+   throw write_file_error(fname);
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
@@ -81,8 +83,11 @@ namespace sym_lib {
   mm_set_coordinate(&matcode);
   mm_set_real(&matcode);
 
-  mm_write_banner(fp, matcode);
-  mm_write_mtx_crd_size(fp, A->m, A->n, A->nnz);
+  if (mm_write_banner(fp, matcode) != 0 ||
+      mm_write_mtx_crd_size(fp, A->m, A->n, A->nnz) != 0) {
+   fclose(fp);
+   throw write_file_error(fname);
+  }
 
   for (int i = 0; i < A->n; i++)
    for (int j = A->p[i]; j < A->p[i + 1]; j++)
@@ -92,6 +97,8 @@ namespace sym_lib {
 
  void BCSC_to_mtx(std::string fname, BCSC *A) {
   FILE *f = fopen(fname.c_str(), "w");
+  if (!f)
+   throw write_file_error(fname);
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
@@ -99,8 +106,11 @@ namespace sym_lib {
   mm_set_coordinate(&matcode);
   mm_set_real(&matcode);
 
-  mm_write_banner(f, matcode);
-  mm_write_mtx_crd_size(f, A->m, A->n, A->nnz);
+  if (mm_write_banner(f, matcode) != 0 ||
+      mm_write_mtx_crd_size(f, A->m, A->n, A->nnz) != 0) {
+   fclose(f);
+   throw write_file_error(fname);
+  }
 
   for (int i = 0; i < A->nodes; i++) {
    int index = A->p[i];
diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 667c213..b5f253c 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -7,12 +7,15 @@
 #include <cassert>
 #include <cmath>
 #include "aggregation/sparse_utilities.h"
+#include "aggregation/exceptions.h"
 
 namespace sym_lib {
     using namespace std;
 
     void save_vector(char *fname, const double *vec, int length) {
      FILE *f = fopen(fname, "w");
+     if (!f)
+      throw write_file_error(fname);
      for(int i = 0; i < length; i++)
       fprintf(f, "%f\n", vec[i]);
      fclose(f);
-- 
2.43.0


From 3278e4d6259ee5e968ccebf5358886744e9a6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 52/89] fix: METIS failures reach the caller

---
 utils/metis_interface.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 79dc276..8a9086c 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -26,17 +26,24 @@ namespace sym_lib {
 
   CSC *A1 = nullptr, *A2 = nullptr;
   int *perm = nullptr;
-  metis_perm_func(A, perm);
+  if (metis_perm_func(A, perm) != METIS_OK) {
+   delete[]perm;
+   return nullptr;
+  }
   if(A->is_pattern) {
    A1 = transpose_symmetric(A, perm);
    A2 = make_full(A1);
   } else {
    A2 = copy_sparse(A);
   }
-  metis_part_func(A2, partition, npar);
+  int status = metis_part_func(A2, partition, npar);
 
   delete[]perm;
   delete (A1);
+  if (status != 0) {
+   delete (A2);
+   return nullptr;
+  }
 
   return A2;
  }
@@ -103,7 +110,6 @@ namespace sym_lib {
 #endif
   int retMet = METIS_NodeND(&ncolIDXT, Afullp, Afulli, nullptr, options1,
                             permIDX, IpermIDX);
-  assert(retMet == METIS_OK);
   for (int i = 0; i < ncol; ++i)
    perm[i] = permIDX[i];
   delete[]Afullp;
@@ -156,7 +162,6 @@ namespace sym_lib {
 
   int retMet = METIS_NodeND(&ncolIDXT, Ap, Ai, nullptr, options1,
                             permIDX, IpermIDX);
-  assert(retMet == METIS_OK);
   for (int i = 0; i < ncol; ++i)
    perm[i] = permIDX[i];
   delete At;
@@ -225,7 +230,6 @@ namespace sym_lib {
   idx_t retMet = METIS_PartGraphKway(&ncolIDXT, &nconIDX, Afullp, Afulli, nullptr,
                                      nullptr, nullptr, &nparsIDX, nullptr,
                                      nullptr, options1, &objvalIDX, partIDX);
-  assert(retMet == METIS_OK);
   for (int i = 0; i < n; ++i)
    part[i] = partIDX[i];
   delete[]ind;
@@ -234,7 +238,7 @@ namespace sym_lib {
   delete[]weigt;
   delete[]partIDX;
 
-  return 0;
+  return retMet == METIS_OK ? 0 : -1;
  }
 
 
@@ -296,7 +300,6 @@ namespace sym_lib {
   idx_t retMet = METIS_PartGraphKway(&ncolIDXT, &nconIDX, Ap, Ai, weigt,
                                      nullptr, nullptr, &nparsIDX, nullptr,
                                      nullptr, options1, &objvalIDX, partIDX);
-  assert(retMet == METIS_OK);
   int min_p_no = n; // it happens to start from a value other than zero, maybe a bug.
   for (int i = 0; i < n; ++i) {
    part[i] = partIDX[i];
@@ -315,19 +318,25 @@ namespace sym_lib {
   delete[]partIDX;
   //delete []unit_wgt;
 
-  return 0;
+  return retMet == METIS_OK ? 0 : -1;
  }
 
  int metis_partition_coarsened(CSC *A, int *&part, int k, int coarsen){
 //  timing_measurement t; t.reset();
 //  t.start_timer();
   CSC *tmp = coarsen_k_times(A->n, A->nnz, A->p, A->i, A->stype, coarsen);
-  int *part_cors;
+  int *part_cors = nullptr;
+  int status;
  // t.start_timer();
   if(A->stype < 0){
-   metis_partition_symmetric(tmp, part_cors, k);
+   status = metis_partition_symmetric(tmp, part_cors, k);
   } else{
-   metis_partition_general(tmp, part_cors, k);
+   status = metis_partition_general(tmp, part_cors, k);
+  }
+  if (status != 0) {
+   delete[]part_cors;
+   delete tmp;
+   return status;
   }
   //t.start_timer();
   part = new int[A->n]();
-- 
2.43.0


From 3a4f7ce79142dfffc22ea74bbb6fd7e95ac6326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 53/89] fix: metis_partition_coarsened expands every coarse
 node to its own nodes

---
 utils/metis_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 8a9086c..64fab79 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -342,8 +342,8 @@ namespace sym_lib {
   part = new int[A->n]();
   for (int i = 0; i < tmp->n; ++i) {
    int i2p = part_cors[i];
-   int bnd = i+coarsen; // std::max<int>(i + coarsen, A->n);
-   for (int j = i; j < bnd; ++j) {
+   int bnd = std::min<int>((i + 1) * coarsen, A->n);
+   for (int j = i * coarsen; j < bnd; ++j) {
     part[j] = i2p;
    }
   }
-- 
2.43.0


From ab5b76a7c43a1a4d9f8d453ea02a8839719c7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 54/89] fix: build_symbolic_simplicial_lfactor reports a failed
 analysis step

---
 utils/lfactor_creation.cpp | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index a1fd624..829d224 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -389,9 +389,17 @@ namespace sym_lib{
   int fl, aatfl, lnz;
   /// compute fill-in reducing permutation
 #ifdef METIS
-  int *perm_metis;
+  int *perm_metis = NULLPNTR;
   CSC *A_full = make_full(A);
-  metis_perm_general(A_full, perm_metis);
+  if (metis_perm_general(A_full, perm_metis) != 1) { // METIS_OK
+   delete []perm_metis;
+   delete A_full;
+   delete []ws;
+   delete []first;
+   delete []level;
+   delete lfsi;
+   return NULLPNTR;
+  }
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
@@ -403,14 +411,21 @@ namespace sym_lib{
   A_ord = transpose_symmetric(At_ord, NULLPNTR); // orig matrix actually!
 #endif
   /// Building etree
-  compute_etree(At_ord, parent);
-  int ret = tree_post_order(parent, n, NULLPNTR, post);
-  assert(ret == n);
-  /// computing column count
-  row_col_counts_symmetric(A_ord, parent, post, NULLPNTR, col_count,
-    first, level,lfsi->flops);
-  ret = tree_post_order(parent, n, col_count, post);
-  assert(ret == n);
+  bool ok = compute_etree(At_ord, parent) &&
+    tree_post_order(parent, n, NULLPNTR, post) == n &&
+    /// computing column count
+    row_col_counts_symmetric(A_ord, parent, post, NULLPNTR, col_count,
+      first, level,lfsi->flops) &&
+    tree_post_order(parent, n, col_count, post) == n;
+  if (!ok) {
+   delete A_ord;
+   delete At_ord;
+   delete []ws;
+   delete []first;
+   delete []level;
+   delete lfsi;
+   return NULLPNTR;
+  }
   /// Combining post with perm
   reorder_array(n, perm, post, ws);
   reorder_array(n, col_count, post, ws);
-- 
2.43.0


From 124d04653006acddb3aac88b9db6d7ec8d609cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 55/89] fix: get_coarse_levelSet_DAG_CSC_tree reports a failed
 elimination tree

---
 src/lbc_csc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0184222..90dcb77 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -337,6 +337,11 @@ namespace sym_lib {
   print_csc(1,"Tree\n",n,tmp->p, tmp->i, NULLPNTR);
   delete tmp;
 #endif
+  if (!ret) {
+   delete []etree;
+   delete A;
+   return -1;
+  }
   //timing_measurement t1;
   //t1.start_timer();
   ret = get_coarse_levelSet_tree(n,etree,finaLevelNo,finaLevelPtr,partNo,
-- 
2.43.0


From f2476cfa33aa512c15c23ed7f4e7acd34bd912f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 56/89] fix: cyclic graphs are reported by the routines that
 need their level sets

---
 src/hdagg/hdagg.cpp        | 9 +++++++++
 src/lbc_csc_dag.cpp        | 7 +++++++
 utils/sparse_inspector.cpp | 7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 6f08b18..c332fbc 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -9,6 +9,7 @@
 #include <list>
 #include <cmath>
 #include <set>
+#include <stdexcept>
 
 
 namespace HDAGG
@@ -661,6 +662,8 @@ namespace HDAGG
 
             nlevels = build_levelSet_CSC(n, DAG_ptr, DAG_set,
                                          level_ptr.data(), level_set.data(), node_to_level.data());
+            if (nlevels < 0)
+                throw std::invalid_argument("The input graph has a cycle");
         }
 
         std::vector<int> WM;
@@ -877,6 +880,8 @@ namespace HDAGG
 
             nlevels = build_levelSet_CSC(n, DAG_ptr, DAG_set,
                                          level_ptr.data(), level_set.data(), node_to_level.data());
+            if (nlevels < 0)
+                throw std::invalid_argument("The input graph has a cycle");
         }
 
         std::vector<int> WM;
@@ -2555,6 +2560,8 @@ namespace HDAGG
    node_to_level.resize(n);
    int n_levels = HDAGG::build_levelSet_CSC(n, Lp, Li, level_ptr.data(), level_set.data(),
                                             node_to_level.data() );
+   if (n_levels < 0)
+    throw std::invalid_argument("The input graph has a cycle");
    for (int i = 0; i < n_levels;) {
     WM.push_back(i);
     i+=coarsen_factor;
@@ -2574,6 +2581,8 @@ namespace HDAGG
    node_to_level.resize(n);
    coarse_level_no = HDAGG::build_levelSet_CSC(n, Lp, Li, coarse_part_ptr.data(),
                                                coarse_node_ptr.data(), node_to_level.data());
+   if (coarse_level_no < 0)
+    throw std::invalid_argument("The input graph has a cycle");
    coarse_level_ptr.resize( coarse_level_no + 1);
    for (int i = 0; i < coarse_level_no+1; ++i) {
     coarse_level_ptr[i] = i;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 534dec9..29a7620 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -341,6 +341,13 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
 
  int averageCC = 0;
  int levelNo = build_levelSet_CSC(n, lC, lR, levelPtr, levelSet);
+ if (levelNo < 0) { // The input graph has a cycle
+  delete[] node2Level;
+  delete[] isChanged;
+  delete[] levelPtr;
+  delete[] levelSet;
+  return levelNo;
+ }
  for (int i = 0; i < levelNo; ++i) {
   for (int j = levelPtr[i]; j < levelPtr[i + 1]; ++j) {
    int node = levelSet[j];
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index db7a391..f3578dd 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -5,6 +5,7 @@
 #include <cstring>
 #include <queue>
 #include <cassert>
+#include <stdexcept>
 #include "aggregation/sparse_utilities.h"
 #include "aggregation/def.h"
 #include "aggregation/BCSCMatrix.h"
@@ -899,6 +900,12 @@ namespace sym_lib {
   //level_num = level_set_multi_graphs(A->n,AT->p,AT->i,level_ptr,level_set,1);
   //print_csc("AT\n",AT->n,AT->p,AT->i,AT->x);
   level_num = build_levelSet_CSC(A->n, AT->p, AT->i, level_ptr, level_set);
+  if (level_num < 0) {
+   delete AT;
+   delete[]level_ptr;
+   delete[]level_set;
+   throw std::invalid_argument("The input graph has a cycle");
+  }
   for (int i = 0; i < level_num; ++i) {
    for (int j = level_ptr[i]; j < level_ptr[i + 1]; ++j) {
     int cn = level_set[j];
-- 
2.43.0


From 2b2fa958f0d92c8e93c304fa5a2e00754d1b4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:28 +0000
Subject: [PATCH 57/89] fix: get_coarse_Level_set_DAG_CSC03 reports a cyclic
 graph

---
 src/lbc_csc_dag.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 29a7620..679e03b 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -441,6 +441,20 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int averageCC = 0;
  // making levelset
  int levelNo = build_levelSet_CSC(n, lC, lR, levelPtr, levelSet);
+ if (levelNo < 0) { // The input graph has a cycle
+  delete[] node2partition;
+  delete[] outCost;
+  delete[] newOutCost;
+  delete[] node2Level;
+  delete[] levelPtr;
+  delete[] isChanged;
+  delete[] visited;
+  delete[] isMarked;
+  delete[] levelSet;
+  delete[] xi;
+  delete[] inDegree;
+  return levelNo;
+ }
  // COMPUTING NODE2lEVEL
  for (int i = 0; i < levelNo; ++i) {
   for (int j = levelPtr[i]; j < levelPtr[i + 1]; ++j) {
-- 
2.43.0


From 653315aea1c96e22f41fbc78077083559aba978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 58/89] fix: generate_matrices_from_mtx reports a failed
 reordering

---
 utils/FusionDemo.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/FusionDemo.cpp b/utils/FusionDemo.cpp
index 0b6cd4f..ac14251 100644
--- a/utils/FusionDemo.cpp
+++ b/utils/FusionDemo.cpp
@@ -9,6 +9,8 @@
 #include "aggregation/FusionDemo.h"
 #include "aggregation/sparse_utilities.h"
 #ifdef METIS
+#include <metis.h>
+#include <stdexcept>
 #include "aggregation/metis_interface.h"
 #endif
 
@@ -113,7 +115,11 @@ namespace sym_lib{
   //We only reorder L since dependency matters more in l-solve.
   int *perm;
   CSC *L1_csc_full = make_full(L1_csc_in);
-  metis_perm_general(L1_csc_full, perm);
+  if (metis_perm_general(L1_csc_full, perm) != METIS_OK) {
+   delete[]perm;
+   delete L1_csc_full;
+   throw std::runtime_error("The METIS reordering failed");
+  }
   L1_csc = make_half(L1_csc_full->n, L1_csc_full->p, L1_csc_full->i,
                      L1_csc_full->x);
   CSC *Lt = transpose_symmetric(L1_csc, perm);
-- 
2.43.0


From 60cc9caeaf11cfe53105ad8c57515a0f26e744d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 59/89] fix: writers report a file that could not be written
 completely

---
 utils/external/mmio.cpp    | 6 ++++--
 utils/sparse_io.cpp        | 8 ++++++--
 utils/sparse_utilities.cpp | 4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index c93c7dc..53c5de3 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -409,9 +409,11 @@ namespace sym_lib {
    return MM_UNSUPPORTED_TYPE;
   }
 
-  if (f != stdout) fclose(f);
+  bool failed = ferror(f) != 0;
+  if (f != stdout && fclose(f) != 0)
+   failed = true;
 
-  return 0;
+  return failed ? MM_COULD_NOT_WRITE_FILE : 0;
  }
 
 
diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 7bd6f0b..84c7f0c 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -92,7 +92,9 @@ namespace sym_lib {
   for (int i = 0; i < A->n; i++)
    for (int j = A->p[i]; j < A->p[i + 1]; j++)
     fprintf(fp, "%d %d %10.3g\n", A->i[j] + 1, i + 1, A->x[j]);
-  fclose(fp);
+  bool failed = ferror(fp) != 0;
+  if (fclose(fp) != 0 || failed)
+   throw write_file_error(fname);
  }
 
  void BCSC_to_mtx(std::string fname, BCSC *A) {
@@ -125,7 +127,9 @@ namespace sym_lib {
     }
    }
   }
-  fclose(f);
+  bool failed = ferror(f) != 0;
+  if (fclose(f) != 0 || failed)
+   throw write_file_error(fname);
  }
 
   CSC * convert_to_one_based(const CSC *A){
diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index b5f253c..3c39430 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -18,7 +18,9 @@ namespace sym_lib {
       throw write_file_error(fname);
      for(int i = 0; i < length; i++)
       fprintf(f, "%f\n", vec[i]);
-     fclose(f);
+     bool failed = ferror(f) != 0;
+     if (fclose(f) != 0 || failed)
+      throw write_file_error(fname);
     }
 
     // TODO eventually use CSC / CSR class
-- 
2.43.0


From cfb3ab1600d1f599b93c2d199c0e939be373ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 60/89] fix: mm_write_banner and mm_write_mtx_crd reject a type
 without a name

---
 utils/external/mmio.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 53c5de3..4247236 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -366,6 +366,8 @@ namespace sym_lib {
   char *str = mm_typecode_to_str(matcode);
   int ret_code;
 
+  if (str == NULL)
+   return MM_UNSUPPORTED_TYPE;
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
   if (ret_code < 0)
@@ -378,15 +380,19 @@ namespace sym_lib {
                       double val[], MM_typecode matcode) {
   FILE *f;
   int i;
+  char *str = mm_typecode_to_str(matcode);
 
+  if (str == NULL)
+   return MM_UNSUPPORTED_TYPE;
   if (strcmp(fname, "stdout") == 0)
    f = stdout;
-  else if ((f = fopen(fname, "w")) == NULL)
+  else if ((f = fopen(fname, "w")) == NULL) {
+   free(str);
    return MM_COULD_NOT_WRITE_FILE;
+  }
 
   /* print banner followed by typecode */
   fprintf(f, "%s ", MatrixMarketBanner);
-  char *str = mm_typecode_to_str(matcode);
   fprintf(f, "%s\n", str);
   free(str);
 
-- 
2.43.0


From 6b9549b9d674977c951121ee95202e1cad94f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 61/89] fix: mm_typecode_to_str does not name a type that is
 not a matrix

---
 utils/external/mmio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 4247236..6175bee 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -438,13 +438,12 @@ namespace sym_lib {
   char buffer[MM_MAX_LINE_LENGTH];
   char *types[4];
   char *mm_strdup(const char *);
-  int error = 0;
 
   /* check for MTX type */
   if (mm_is_matrix(matcode))
    types[0] = MM_MTX_STR;
   else
-   error = 1;
+   return NULL;
 
   /* check for CRD or ARR matrix */
   if (mm_is_sparse(matcode))
-- 
2.43.0


From 833e5f51e34e66b2531b643532d6a718df682df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 62/89] fix: read_header rejects sizes that no matrix has

---
 utils/sparse_io.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 84c7f0c..9151c62 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Kazem on 10/10/19.
 //
+#include <climits>
 #include <iostream>
 #include <sstream>
 #include <vector>
@@ -350,12 +351,18 @@ namespace sym_lib {
    if (!(issDim >> n_row >> n_col >> n_nnz)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
+   if (n_row < 0 || n_col < 0 || n_nnz > INT_MAX)
+    throw mtx_header_error("Unknown", "The matrix dimension is out of range");
   } else{
    if (!(issDim >> n_row >> n_col)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
-   n_nnz = n_row*n_col;
+   if (n_row < 0 || n_col < 0 || (size_t) n_row * n_col > INT_MAX)
+    throw mtx_header_error("Unknown", "The matrix dimension is out of range");
+   n_nnz = (size_t) n_row * n_col;
   }
+  if (shape == LOWER && n_row != n_col)
+   throw mtx_header_error("Unknown", "A symmetric matrix must be square");
  }
 
 
-- 
2.43.0


From 5475a0813a1032f10f891ce9aed2078eefa6c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 63/89] fix: read_triplets_real validates the entries it reads

---
 include/aggregation/sparse_io.h | 5 ++++-
 utils/sparse_io.cpp             | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/aggregation/sparse_io.h b/include/aggregation/sparse_io.h
index 52a189b..21b640f 100644
--- a/include/aggregation/sparse_io.h
+++ b/include/aggregation/sparse_io.h
@@ -223,10 +223,13 @@ namespace sym_lib{
 /// \param nnz
 /// \param triplet_vec
 /// \param zero_indexing
+/// \param n_row number of rows, entries must lie within
+/// \param n_col number of columns, entries must lie within
  void read_triplets_real(std::ifstream &inFile, int nnz,
                          std::vector<triplet>& triplet_vec,
                          bool read_val,
-                         bool zero_indexing);
+                         bool zero_indexing,
+                         int n_row, int n_col);
 
 
 
diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 9151c62..6d8c2fd 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -388,7 +388,8 @@ namespace sym_lib {
  void read_triplets_real(std::ifstream &inFile, int nnz,
                          std::vector<triplet>& triplet_vec,
                          bool read_val=true,
-                         bool zero_indexing=false){
+                         bool zero_indexing=false,
+                         int n_row=INT_MAX, int n_col=INT_MAX){
   for (int i = 0; i < nnz; ++i) {
    triplet tmp;
    inFile >> tmp.row;
@@ -400,6 +401,9 @@ namespace sym_lib {
    if(!zero_indexing){
     tmp.col--; tmp.row--;
    }
+   if(!inFile || tmp.row < 0 || tmp.row >= n_row ||
+      tmp.col < 0 || tmp.col >= n_col)
+    throw mtx_error("Unknown", "A matrix entry is missing or out of range");
    triplet_vec.push_back(tmp);
   }
  }
@@ -445,8 +449,8 @@ namespace sym_lib {
   bool read_val = true;
   if(arith == PATTERN)
     read_val = false;
+  read_triplets_real(in_file, nnz, triplet_vec, read_val, false, m, n);
   A = new CSC(m,n,nnz,false, shape2int(shape));
-  read_triplets_real(in_file, nnz, triplet_vec, read_val);
   compress_triplets_to_csc(triplet_vec, A, insert_diag);
   A->nnz = A->p[n]; // if insert diag is true, it will be different.
   //print_csc(A->n, A->p, A->i, A->x);
-- 
2.43.0


From 311363f4998d9c755f6da80bf724e2f4efc57fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 64/89] fix: compress_triplets_to_csc makes room for the
 diagonals it inserts

---
 utils/sparse_io.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 6d8c2fd..d053959 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -412,6 +412,24 @@ namespace sym_lib {
  void compress_triplets_to_csc(std::vector<triplet>& triplet_vec, CSC *A,
                                bool add_diags= true){
   assert(A->nnz == triplet_vec.size());
+  if (add_diags) { // insert zero diag for empty cols
+   std::vector<bool> has_entry(A->n, false);
+   for (auto &t : triplet_vec)
+    has_entry[t.col] = true;
+   for (int j = 0; j < A->n && j < A->m; ++j) {
+    if (has_entry[j])
+     continue;
+    triplet tmp; tmp.col = tmp.row = j; tmp.val=0;
+    triplet_vec.push_back(tmp);
+   }
+   if (triplet_vec.size() > A->nnz) {
+    delete []A->i;
+    delete []A->x;
+    A->nnz = triplet_vec.size();
+    A->i = new int[A->nnz]();
+    A->x = new double[A->nnz]();
+   }
+  }
   std::sort(triplet_vec.begin(), triplet_vec.end(),
             [](const triplet& a, const triplet& b){return (a.col<b.col) || (a.col==b.col && a.row<b.row);});
   auto *count = new int[A->n]();
@@ -420,13 +438,7 @@ namespace sym_lib {
   }
   A->p[0] = 0;
   for (auto j = 0; j < A->n; ++j) {
-   if(count[j] == 0 && add_diags){ // insert zero diag for empty cols
-    triplet tmp; tmp.col = tmp.row = j; tmp.val=0;
-    triplet_vec.insert(triplet_vec.begin()+A->p[j], tmp);
-    A->p[j+1] = A->p[j] + 1;
-   }else{
-    A->p[j+1] = A->p[j] + count[j];
-   }
+   A->p[j+1] = A->p[j] + count[j];
   }
   delete []count;
   for (auto k = 0; k < A->nnz; ++k) {
-- 
2.43.0


From 114f1f70126dfd10ce633f6c65c14fca761bd779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 65/89] fix: array and constant readers report missing numbers

---
 utils/sparse_io.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index d053959..1574baa 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -482,6 +482,11 @@ namespace sym_lib {
   for (int i = 0; i < m * n; i++) {//writing from file row by row
    in_file >> A->a[i];
   }
+  if (!in_file) {
+   delete A;
+   A = nullptr;
+   throw mtx_error("Unknown", "The matrix has fewer entries than its header says");
+  }
   std::ofstream file;
   //print_dense(A->row, A->col, A->lda, A->a);
  }
@@ -517,7 +522,8 @@ namespace sym_lib {
 /// \param in_file
 /// \param val
  void read_real_constant(std::ifstream &in_file, double &val){
-  in_file >> val;
+  if (!(in_file >> val))
+   throw mtx_error("Unknown", "Failed to read a number");
  }
 
 
-- 
2.43.0


From 4a3d6716313734b6e187a2f6fa5b5aeb785bb399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 66/89] fix: mm_read_banner bounds the tokens it copies

---
 utils/external/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 6175bee..24a0cc9 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -108,7 +108,7 @@ namespace sym_lib {
   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
    return MM_PREMATURE_EOF;
 
-  if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
              storage_scheme) != 5)
    return MM_PREMATURE_EOF;
 
-- 
2.43.0


From ab74ec520f22fa225347f71836f101b32fd4968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 67/89] fix: read_mtx rejects the matrix types it does not read

---
 utils/sparse_io.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1574baa..4629934 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -28,12 +28,24 @@ namespace sym_lib {
    return nullptr;
   }
 
+  if (!mm_is_sparse(mcode) || !(mm_is_real(mcode) || mm_is_integer(mcode)) ||
+      !(mm_is_general(mcode) || mm_is_symmetric(mcode))) {
+   std::cerr << "Unsupported matrix type\n";
+   fclose(mf);
+   return nullptr;
+  }
+
   int m, n, nnz;
   if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) {
    std::cerr << "Error processing matrix size\n";
    fclose(mf);
    return nullptr;
   }
+  if (mm_is_symmetric(mcode) && m != n) {
+   std::cerr << "A symmetric matrix must be square\n";
+   fclose(mf);
+   return nullptr;
+  }
   CSC *A = new CSC(m, n, nnz);
   int *J = new int[nnz]();
 
-- 
2.43.0


From fe3cf73620216fc4cb4aa1afbbace7f273655e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 68/89] fix: mm_read_unsymmetric_sparse rejects entries outside
 the matrix

---
 utils/external/mmio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 24a0cc9..9e2413d 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -71,7 +71,8 @@ namespace sym_lib {
   /*  (ANSI C X3.159-1989, Sec. 4.9.6.2, p. 136 lines 13-15)            */
 
   for (i = 0; i < nz; i++) {
-   if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3) {
+   if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3 ||
+       I[i] < 1 || I[i] > M || J[i] < 1 || J[i] > N) {
     fclose(f);
     return -1;
    }
-- 
2.43.0


From 8f2f633d407fce019ee8f4fd5a8211f706ef8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 69/89] fix: mm_read_mtx_crd_data rejects entries outside the
 matrix

---
 utils/external/mmio.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 9e2413d..b8338c9 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -247,25 +247,29 @@ namespace sym_lib {
 /* use when I[], J[], and val[]J, and val[] are already allocated */
 /******************************************************************/
 
+ static bool entry_is_valid(int i, int j, int M, int N) {
+  return i >= 1 && i <= M && j >= 1 && j <= N;
+ }
+
  int mm_read_mtx_crd_data(FILE *f, int M, int N, int nz, int I[], int J[],
                           double val[], MM_typecode matcode) {
   int i;
   if (mm_is_complex(matcode)) {
    for (i = 0; i < nz; i++)
     if (fscanf(f, "%d %d %lg %lg", &I[i], &J[i], &val[2 * i], &val[2 * i + 1])
-        != 4)
+        != 4 || !entry_is_valid(I[i], J[i], M, N))
      return MM_PREMATURE_EOF;
   } else if (mm_is_real(matcode)) {
    for (i = 0; i < nz; i++) {
     if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i])
-        != 3)
+        != 3 || !entry_is_valid(I[i], J[i], M, N))
      return MM_PREMATURE_EOF;
 
    }
   } else if (mm_is_pattern(matcode)) {
    for (i = 0; i < nz; i++)
     if (fscanf(f, "%d %d", &I[i], &J[i])
-        != 2)
+        != 2 || !entry_is_valid(I[i], J[i], M, N))
      return MM_PREMATURE_EOF;
   } else
    return MM_UNSUPPORTED_TYPE;
-- 
2.43.0


From 7f20ca43a2d32fda99ca7ba896cc0f857baee2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 70/89] fix: the blocked level set inspector reports a cyclic
 graph

---
 src/lbc_blocked.cpp        | 14 ++++++++++++++
 utils/sparse_inspector.cpp |  7 ++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8e0230a..a498ee9 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -58,6 +58,20 @@ namespace sym_lib {
   int levelNo = build_levelSet_BCSC(0, 0, lC, Li_ptr, lR,
                                    n, blk2col, col2blk,
                                    levelPtr, levelSet);
+  if (levelNo < 0) { // The input graph has a cycle
+   delete[]node2partition;
+   delete[]outCost;
+   delete[]newOutCost;
+   delete[]node2Level;
+   delete[]levelPtr;
+   delete[]isChanged;
+   delete[]visited;
+   delete[]isMarked;
+   delete[]levelSet;
+   delete[]xi;
+   delete[]inDegree;
+   return levelNo;
+  }
   //COMPUTING NODE2lEVEL
   for (int i = 0; i < levelNo; ++i) {
    for (int j = levelPtr[i]; j < levelPtr[i + 1]; ++j) {
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index f3578dd..73d234e 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -162,7 +162,12 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with 1 indegree are processed.
    assert((size_t) cur_levelCol >= 0);
-   assert((size_t) cur_level <= blockNo);
+   if ((size_t) cur_level > blockNo) {
+    delete[]inDegree;
+    delete[]visited;
+    delete[]node2Level;
+    return -1; // The input graph has a cycle
+   }
    levelPtr[cur_level] = cur_levelCol;
    while (begin <= end && inDegree[begin] == 1)
     begin++;
-- 
2.43.0


From 283743853ce2b06b7394379d4f8a80c255bac765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 71/89] fix: merge_inner_part puts at least one partition into
 each cluster

---
 src/lbc_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..c833215 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -127,13 +127,13 @@ namespace sym_lib{
   int partNo = newLeveledParList.size();
   for (int i = 0; i < partNo;) {
    int curCost = 0;
-   while (curCost < (1 * costThreshold) && i < partNo) {
+   do {
     curCost += inCost[i];
     mergedLeveledParList[lClusterCnt].insert(
       mergedLeveledParList[lClusterCnt].end(),
       newLeveledParList[i].begin(), newLeveledParList[i].end());
     i++;
-   }
+   } while (curCost < (1 * costThreshold) && i < partNo);
    lClusterCnt++;
    outCost[lClusterCnt] = curCost;
   }
-- 
2.43.0


From 7299e553a8b093aa4f82785694498f539c2a152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 72/89] fix: the height partitioners do not loop on a level
 step below one

---
 src/lbc_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index c833215..a7ba228 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -238,6 +238,8 @@ namespace sym_lib{
     size = 1;
    innerPartsSize.push_back(size);
   }
+  if(divRate < 1)
+   divRate = 1; // a smaller step never reaches the last level
   tmp += divRate;
   while (tmp < last_level) {//originalHeight - 1) {
    //Ensures a certain number of level in each partition
@@ -292,6 +294,8 @@ namespace sym_lib{
   partition2Level[0] = 0;
   if (sw) {
       bool f_spart=false;
+   if(minLevelDist < 1)
+    minLevelDist = 1; // a smaller step never reaches the last level
    for (int i = minLevelDist; i < levelNo; i += minLevelDist) {
     //for leaves
     if (accuSlackGroups[i] >= divRate * innerPartsTmp) {
-- 
2.43.0


From 9c7229adec8671756c96ac6ee825f58a6d0c2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 73/89] fix: make_full and copy_sparse carry a pattern matrix
 over as a pattern

---
 utils/sparse_utilities.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 3c39430..8c3cb46 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -236,7 +236,7 @@ namespace sym_lib {
       return nullptr;
      }
 
-     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2 );
+     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2, A->is_pattern);
      auto ind = new int[A->n]();
 
      for(size_t i = 0; i < A->n; i++) {
@@ -258,12 +258,14 @@ namespace sym_lib {
        int row = A->i[p];
        int index = Afull->p[i] + ind[i];
        Afull->i[index] = row;
-       Afull->x[index] = A->x[p];
+       if(!Afull->is_pattern)
+        Afull->x[index] = A->x[p];
        ind[i]++;
        if(row != i) {
         index = Afull->p[row] + ind[row];
         Afull->i[index] = i;
-        Afull->x[index] = A->x[p];
+        if(!Afull->is_pattern)
+         Afull->x[index] = A->x[p];
         ind[row]++;
        }
       }
@@ -512,13 +514,14 @@ namespace sym_lib {
 
 
     CSC *copy_sparse(CSC *A){
-     CSC *clone = new CSC(A->m,A->n,A->nnz);
+     CSC *clone = new CSC(A->m,A->n,A->nnz,A->is_pattern);
      for (int i = 0; i < A->n+1; ++i) {
       clone->p[i] = A->p[i];
      }
      for (int j = 0; j < A->nnz; ++j) {
       clone->i[j] = A->i[j];
-      clone->x[j] = A->x[j];
+      if(!clone->is_pattern)
+       clone->x[j] = A->x[j];
      }
      clone->stype = A->stype;
      return clone;
-- 
2.43.0


From c52a24f433c0e073adcb54319e726d8f1383cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 74/89] fix: transpose_symmetric and permute_general of a
 pattern matrix are patterns

---
 utils/sparse_utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 8c3cb46..3245a74 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -296,7 +296,7 @@ namespace sym_lib {
      n = A->m;
      permute = (Perm != NULLPNTR);
      upper = (A->stype > 0);
-     F = new CSC(A->n,A->m,A->nnz);
+     F = new CSC(A->n,A->m,A->nnz,A->is_pattern);
      Fp = F->p;        /* size A->nrow+1, row pointers of F */
      Fi = F->i;
      Fx = F->x;
@@ -1174,7 +1174,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
   int nz = 0, n, *Ap, *Ai, *Cp, *Ci ;
   double *Cx, *Ax ;
   int m = A->m; n = A->n ; Ap = A->p ; Ai = A->i ; Ax = A->x ;
-  CSC *C = new CSC(m, n, A->nnz);
+  CSC *C = new CSC(m, n, A->nnz, A->is_pattern);
   Cp = C->p ; Ci = C->i ; Cx = C->x ;
   for (int k = 0 ; k < n ; k++)
   {
-- 
2.43.0


From 67cf47708b8066539d29ec24463dc303f07884be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 75/89] fix: csr_to_csc of a pattern matrix is a pattern

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 3245a74..6e758fa 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -114,7 +114,7 @@ namespace sym_lib {
     CSC* csr_to_csc(CSR *A) {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
-     B->is_pattern = false;
+     B->is_pattern = A->is_pattern;
      int st = csr_to_csc(A->m, A->n, A->i, A->p, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
-- 
2.43.0


From 5c0d70f1a4c958ab9c448604b3ea5084226e7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 76/89] fix: add says its result is a pattern whenever it has
 no values

---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 6e758fa..6940cf9 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1112,7 +1112,6 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
      x = !values ? new double[m]() : NULLPNTR;
      CSC *C = new CSC(m,n,anz+bnz,values);
      C->stype = A->stype;
-     C->is_pattern = A->is_pattern;
      Cp = C->p ; Ci = C->i ; Cx = C->x ;
      for (j = 0 ; j < n ; j++){
       Cp [j] = nz ;                   /* column j of C starts here */
-- 
2.43.0


From e9341f31db9481da007fe538af72d2ea8919181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 77/89] fix: a coarsened or merged graph is a pattern

---
 utils/BCSCMatrix.cpp       | 2 +-
 utils/sparse_inspector.cpp | 2 +-
 utils/sparse_utilities.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index 8dd29a2..fcaa4ea 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -252,7 +252,7 @@ namespace sym_lib {
    count = 0;
   }
 
-  CSC *Acsc = new CSC(nodes, nodes, nnz);
+  CSC *Acsc = new CSC(nodes, nodes, nnz, true);
   auto Ap = Acsc->p;
   auto Ai = Acsc->i;
 
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 73d234e..1ab180b 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -815,7 +815,7 @@ namespace sym_lib {
    count = 0;
   }
 
-  CSC *M = new CSC(3 * nodes, 3 * nodes, nnz);
+  CSC *M = new CSC(3 * nodes, 3 * nodes, nnz, true);
   auto Mp = M->p;
   auto Mi = M->i;
 
diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 6940cf9..13e9293 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1192,7 +1192,7 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
 
  CSC *coarsen_k_times(int n, int nnz, int *Ap, int *Ai, int stype, int k){
   int new_n = (n%k == 0) ? n/k : (n/k) + 1;
-  CSC *c_mat = new CSC(new_n, new_n, nnz, false);
+  CSC *c_mat = new CSC(new_n, new_n, nnz, true);
   c_mat->stype = stype;
   int *Bp = c_mat->p; int *Bi = c_mat->i; int cur_col=1, cur_nnz=0;
   Bp[0] = 0;
-- 
2.43.0


From aaa02b44fe552bba4d730b95f9805d208f166c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 78/89] fix: copy_from_to copies values only when both matrices
 have them

---
 utils/sparse_utilities.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 13e9293..65de3cb 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -533,7 +533,8 @@ namespace sym_lib {
       dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(dst->x && src->x)
+        dst->x[j] = src->x[j];
       }
      }
     }
@@ -544,7 +545,8 @@ namespace sym_lib {
       dst->p[i + 1] = src->p[i + 1];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(dst->x && src->x)
+        dst->x[j] = src->x[j];
       }
      }
     }
-- 
2.43.0


From 9cee19583908e98ea7c4d4c5308144e329f79303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 79/89] fix: CSC_to_mtx writes a pattern matrix as one

---
 utils/sparse_io.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 4629934..51caf91 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -94,7 +94,10 @@ namespace sym_lib {
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
   mm_set_coordinate(&matcode);
-  mm_set_real(&matcode);
+  if (A->is_pattern)
+   mm_set_pattern(&matcode);
+  else
+   mm_set_real(&matcode);
 
   if (mm_write_banner(fp, matcode) != 0 ||
       mm_write_mtx_crd_size(fp, A->m, A->n, A->nnz) != 0) {
@@ -104,7 +107,10 @@ namespace sym_lib {
 
   for (int i = 0; i < A->n; i++)
    for (int j = A->p[i]; j < A->p[i + 1]; j++)
-    fprintf(fp, "%d %d %10.3g\n", A->i[j] + 1, i + 1, A->x[j]);
+    if (A->is_pattern)
+     fprintf(fp, "%d %d\n", A->i[j] + 1, i + 1);
+    else
+     fprintf(fp, "%d %d %10.3g\n", A->i[j] + 1, i + 1, A->x[j]);
   bool failed = ferror(fp) != 0;
   if (fclose(fp) != 0 || failed)
    throw write_file_error(fname);
-- 
2.43.0


From bd0ec49805f9644f0236c2f8ffcb233f9e6240c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 80/89] fix: csc_to_csr on arrays converts a pattern

---
 utils/sparse_utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 65de3cb..ce564e9 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -43,7 +43,7 @@ namespace sym_lib {
      rowptr[nrow] = nnz;
 
      colind = new int[nnz]();
-     values = new double[nnz]();
+     values = Ax ? new double[nnz]() : NULLPNTR;
 
      memset(rowCnt, 0, sizeof(int) * nrow);
      for (int i = 0; i < ncol; i++) {
@@ -51,7 +51,8 @@ namespace sym_lib {
        int row = Ai[j];
        int index = rowptr[row] + rowCnt[row];
        colind[index] = i;
-       values[index] = Ax[j];
+       if(Ax)
+        values[index] = Ax[j];
        rowCnt[row]++;
       }
      }
-- 
2.43.0


From 36275d3a951cb721198d1f2d173f032df25b31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:07 +0000
Subject: [PATCH 81/89] fix: group inspectors clear their marks at every call

---
 src/group.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/group.cpp b/src/group.cpp
index 619cefa..0e2b608 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -53,6 +53,8 @@ namespace sym_lib
     }
 
     void group::inspection_spicocsc_v2(int *groupPtr, int *groupSet, int &ngroup, int *groupInv) {
+     memset(visited, 0, sizeof(bool)*ncol);
+     memset(status, 0, sizeof(int)*ncol);
      for (int i = 0; i < ncol; ++i) {
       int len = mP[i + 1] - mP[i];
       child[i] = len > 1 ? mI[mP[i] + 1] : -1;
@@ -197,6 +199,7 @@ namespace sym_lib
 
 
     void group::inspection_sptrsvcsr_v2(int *groupPtr, int *groupSet, int &ngroup, int *groupInv) {
+     memset(visited, 0, sizeof(bool)*ncol);
      for (int i = 0; i < ncol; ++i) {
       child[i]=-1;
      }
-- 
2.43.0


From 47996788a9f75c92da8a7ed985b00958ab52a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:08 +0000
Subject: [PATCH 82/89] fix: partition costs start at zero in every level
 partition

---
 src/lbc_blocked.cpp | 4 ++++
 src/lbc_csc.cpp     | 4 ++++
 src/lbc_csc_dag.cpp | 4 ++++
 src/lbc_tree.cpp    | 1 +
 4 files changed, 13 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a498ee9..388871a 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -122,6 +122,10 @@ namespace sym_lib {
    }
    //Iterating over non-visited leaf nodes to compute CCs
    //CC:connected component
+   for (int i = 0; i < n; ++i) {
+    outCost[i] = 0.0;
+    newOutCost[i] = 0.0;
+   }
    int stackStart = 0, cc = 0;
    std::vector<int> needAliased;
    bool *isUniq = new bool[n]();
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 90dcb77..51a6306 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -113,6 +113,10 @@ namespace sym_lib {
    }
    //Iterating over non-visited leaf nodes_ to compute CCs
    //CC:connected component
+   for (int i = 0; i < n; ++i) {
+    outCost[i] = 0.0;
+    newOutCost[i] = 0.0;
+   }
    int stackStart = 0, cc = 0, max_cc=0;
    std::vector<int> needAliased;
    bool *isUniq = new bool[n]();
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 679e03b..999f99c 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -509,6 +509,10 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   }
   // Iterating over non-visited leaf nodes to compute CCs
   // CC:connected component
+  for (int i = 0; i < n; ++i) {
+   outCost[i] = 0.0;
+   newOutCost[i] = 0.0;
+  }
   int stackStart = 0, cc = 0;
   std::vector<int> needAliased;
   bool *isUniq = new bool[n]();
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index 5f6fbd4..60d85fd 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -271,6 +271,7 @@ namespace sym_lib {
    for (int k = 0; k < n; ++k) {
     outNode2Par[k] = 0;
     outCost[k] = 0;
+    newOutCost[k] = 0;
    }
    treeParts = 0;
 //#pragma omp parallel for reduction(+:treeParts)
-- 
2.43.0


From 12a2cda43fad93fa217dc048e8425075f6645ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 83/89] fix: the parallel LBC starts partition costs at zero in
 every level partition

---
 src/lbc_csc_dag.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 999f99c..7e87161 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -99,6 +99,8 @@ void process_l_partition(
  std::vector<std::vector<std::vector<int>>> &mergedLeveledParListByL,
  bool binPacking, int numThreadsForCC, int &totalCC) {
  memset(inDegree, 0, n * sizeof(int));
+ memset(outCost, 0, n * sizeof(double));
+ memset(newOutCost, 0, n * sizeof(double));
 
  int lbLevel = partition2Level[l] - 1;
  int ubLevel = partition2Level[l + 1];
@@ -241,9 +243,6 @@ int make_partitions_parallel(int n, int *lC, int *lR, int *finaLevelPtr,
   std::vector<std::vector<int>> newLeveledParList;
   int *nodesAtCurLevel = new int[n];
 
-  memset(outCost, 0.0, n * sizeof(double));
-  memset(newOutCost, 0.0, n * sizeof(double));
-
 #pragma omp for schedule(dynamic, 1)
   for (int i = 0; i < largePartitions.size(); ++i) {
    process_l_partition(
@@ -274,9 +273,6 @@ int make_partitions_parallel(int n, int *lC, int *lR, int *finaLevelPtr,
   std::vector<std::vector<int>> newLeveledParList;
   int *nodesAtCurLevel = new int[n];
 
-  memset(outCost, 0.0, n * sizeof(double));
-  memset(newOutCost, 0.0, n * sizeof(double));
-
 #pragma omp for schedule(dynamic, 1)
   for (int i = 0; i < smallPartitions.size(); ++i) {
    process_l_partition(smallPartitions[i], n, lC, lR, partition2Level, inDegree,
-- 
2.43.0


From 82f62119ae30dfa8bd1d1aafaba91e12f68b1b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:14 +0000
Subject: [PATCH 84/89] fix: the post orders look at the stack only while it
 holds a node

---
 src/hdagg/hdagg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index c332fbc..cabdf26 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -119,7 +119,8 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty())
+                        head = stack.back();
                 }
             }
         }
@@ -262,7 +263,8 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty())
+                        head = stack.back();
                 }
             }
         }
-- 
2.43.0


From aef668a375a24aefc2604dfd1e334c66b71554f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:22 +0000
Subject: [PATCH 85/89] fix: chain and BFS grouping of a graph without nodes
 yield the empty grouping

---
 src/hdagg/hdagg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index cabdf26..38621d1 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1737,7 +1737,7 @@ namespace HDAGG
                 }
             }
         }
-        if(group_ptr.back() != set_cnt){
+        if(group_ptr.empty() || group_ptr.back() != set_cnt){
             group_ptr.push_back(set_cnt);
         }
 
@@ -1887,7 +1887,7 @@ namespace HDAGG
                 }
             }
         }
-        if(group_ptr.back() != set_cnt){
+        if(group_ptr.empty() || group_ptr.back() != set_cnt){
             group_ptr.push_back(set_cnt);
         }
 
-- 
2.43.0


From 027694fe74903970ffa6fd38c656959dd3836c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:09 +0000
Subject: [PATCH 86/89] fix: the METIS interface does not count diagonal
 entries it leaves out of the graph

---
 utils/metis_interface.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 64fab79..7d8c3ab 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -62,9 +62,10 @@ namespace sym_lib {
   for (size_t i = 0; i < A->n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
@@ -185,9 +186,10 @@ namespace sym_lib {
   for (size_t i = 0; i < n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
-- 
2.43.0


From e0cc4537e36a46ea48fdb6afbb22b772c122cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:22 +0000
Subject: [PATCH 87/89] fix: the graph merged through dependence graphs counts
 only the entries it stores

---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index ce564e9..56d6b67 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -891,7 +891,6 @@ namespace sym_lib {
   for(int i = 0; i < ngraphs-1; i++){
    nnz += DGps[i][n];
   }
-  nnz += (ngraphs-1) * n;
   CSC *merged_graph = new CSC(n*ngraphs,n*ngraphs,nnz, true);
 
 /** allocate new graph space **/
-- 
2.43.0


From 42aabeadaaf0066a3935cbd9ef84cdae3b83a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:28 +0000
Subject: [PATCH 88/89] fix: reading a matrix header stops at the end of a file
 that holds nothing but comments

---
 utils/sparse_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 51caf91..5e65ab5 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -361,7 +361,8 @@ namespace sym_lib {
   }
   while (!line.compare(0,1,"%"))
   {
-   std::getline(inFile, line);
+   if (!std::getline(inFile, line))
+    throw mtx_header_error("Unknown", "The matrix dimension is missing");
    trim(line);
   }
   std::istringstream issDim(line);
-- 
2.43.0


From 904a8681b04338f566fc3f4819f96e9845fdcbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:11 +0000
Subject: [PATCH 89/89] fix: the run of single columns in group inspection
 stops at the last column

---
 src/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group.cpp b/src/group.cpp
index 0e2b608..da76da5 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -90,7 +90,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
-- 
2.43.0

