From f5d5b9c7e363cf1ac18a1e8617982cfa3a1ab091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 01/71] fix: size the Shapley buffers from the leaves of every
 tree, not only the last one

max_var was reset for each tree, so a leaf of an earlier tree with more
variables overflowed the 2**max_var buffers of the compiled kernels.
---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 7707083..9ce2e34 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -96,6 +96,7 @@ class BaseAgnosTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -122,7 +123,6 @@ class BaseAgnosTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 # self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 9980aea..50e5314 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -557,6 +557,7 @@ class BaseTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -583,7 +584,6 @@ class BaseTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
-- 
2.43.0


From a4c888371dada1563be7c32218a5161a9cffabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 02/71] fix: do not treat leaves, or the node -1 below them, as
 splits in the projected forest

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 66 +++++++++++++++++++-------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index da190b7..2f30903 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4268,7 +4268,9 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -4356,6 +4358,8 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0:
+                    continue # a leaf has no split
                 s = 0
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4451,7 +4455,9 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4537,7 +4543,9 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -5160,7 +5168,9 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5266,7 +5276,9 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5432,7 +5444,9 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5538,7 +5552,9 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5674,7 +5690,9 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5829,7 +5847,9 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -5923,7 +5943,9 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -6509,7 +6531,9 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
@@ -6805,7 +6829,9 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -6912,7 +6938,9 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -7066,7 +7094,9 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -7317,7 +7347,9 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
 
@@ -7452,7 +7484,9 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
+                if it_node < 0 or children_left[b, it_node] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
 
-- 
2.43.0


From 0fc72d639d85c650ed11232bf0a61dc638fc179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 03/71] fix: a leaf holds the points in (low, up], in every
 estimator, as in the trees

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 94 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_cache.pyx |  8 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 72 +++++++--------
 3 files changed, 87 insertions(+), 87 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 2f30903..02e4086 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -61,7 +61,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -74,7 +74,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -128,7 +128,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -141,7 +141,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -271,7 +271,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -290,7 +290,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -382,7 +382,7 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -400,10 +400,10 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -517,10 +517,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -532,7 +532,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True, num_threads=num_threads):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -582,10 +582,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -597,7 +597,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True, num_threads=num_threads):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -719,10 +719,10 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -731,7 +731,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -788,7 +788,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -797,7 +797,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1085,10 +1085,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1100,7 +1100,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1150,10 +1150,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1165,7 +1165,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2061,7 +2061,7 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
             for i in prange(N, nogil=True, num_threads=num_threads):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2079,10 +2079,10 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2298,7 +2298,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2338,10 +2338,10 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2737,10 +2737,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(data.shape[1]):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == data.shape[1]:
@@ -2752,7 +2752,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True, num_threads=num_threads):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -2798,10 +2798,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(data.shape[1]):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == data.shape[1]:
@@ -2813,7 +2813,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True, num_threads=num_threads):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2972,7 +2972,7 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -2989,10 +2989,10 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3170,7 +3170,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3187,10 +3187,10 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3894,7 +3894,7 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3911,10 +3911,10 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index f9f46ce..30791b1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -568,14 +568,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -597,14 +597,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 58643f6..0bba6b3 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -55,7 +55,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -68,7 +68,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -122,7 +122,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -135,7 +135,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -265,7 +265,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -284,7 +284,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -376,7 +376,7 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -394,10 +394,10 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -511,10 +511,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -526,7 +526,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -576,10 +576,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -591,7 +591,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -713,10 +713,10 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -725,7 +725,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -782,7 +782,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -791,7 +791,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1079,10 +1079,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1094,7 +1094,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(N):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1144,10 +1144,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1159,7 +1159,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(N):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -1399,7 +1399,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -1416,10 +1416,10 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -2991,14 +2991,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3020,14 +3020,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3271,7 +3271,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -3311,10 +3311,10 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
-- 
2.43.0


From d26033a2653a211c0a4bbe8a1ed72aeb1d5cbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 04/71] fix: compute_exp_normalized_nopa calls the function
 that exists

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e67a762..ab3319e 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -639,7 +639,7 @@ class ACVTree(BaseTree):
                                                 num_threads)
 
     def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
-        return cyext_acv.compute_exp_normalized_nopa(np.array(X, dtype=np.float), S, data, self.values,
+        return cyext_acv_nopa.compute_exp_normalized(np.array(X, dtype=np.float), S, data, self.values,
                                                      self.partition_leaves_trees,
                                                      self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                                      num_threads)
-- 
2.43.0


From d3a371acd931b8362274b854a3521efb7e3e7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 05/71] fix: compute_exp_normalized: a leaf the data cannot
 reach given x_S weighs nothing

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 02e4086..c896227 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -146,7 +146,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0bba6b3..6ecf8c8 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -140,7 +140,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From 16b797aa0a22d79bd7d9e8ebb2794894e9124f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 06/71] fix: normalized Shapley values: a leaf the data cannot
 reach must not reset the normalizer

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_cache.pyx | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index c896227..a47d17b 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1704,7 +1704,7 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb, leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
                         else:
@@ -1729,8 +1729,8 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_s = n_s + (cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_s = (cs[va, leaf_numb, leaf_numb, counter] * lm)/(lm_s[va, leaf_numb, leaf_numb, counter] * n_s) if n_s*lm_s[va, leaf_numb, leaf_numb, counter] !=0 else 0
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb,  leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index 30791b1..bc950de 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -582,7 +582,7 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -611,8 +611,8 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 6ecf8c8..7c7bca1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3005,7 +3005,7 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -3034,8 +3034,8 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
-- 
2.43.0


From b3a48e728ef43c3065395418f98c95b235267696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 07/71] fix: pure-Python Shapley values: a leaf the data cannot
 reach weighs nothing, as in the extensions

---
 acv_explainers/py_acv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 402b7c8..0e4cba1 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -79,12 +79,12 @@ def shap_values_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves_nb,
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                                        for s in chain_l(S)], axis=0))
 
-                p_si = (csi * lm) / lm_si
+                p_si = (csi * lm) / max(lm_si, 1)
 
                 if len(S) == 0:
                     p_s = lm / data.shape[0]
                 else:
-                    p_s = (cs * lm) / lm_s
+                    p_s = (cs * lm) / max(lm_s, 1)
                 for j in convert_list(i):
                     phi[:, j, :] += (comb(d - 1, len(S), exact=True) ** (-1) + coef) * (p_si - p_s)[:, None] * v[
                                                                                                                    leaf_id][
@@ -174,12 +174,12 @@ def shap_values_leaves_v2(x, partition_leaves, data, node_idx, leaf_idx, leaves_
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                                        for s in S], axis=0))
 
-                p_si = (csi * lm) / lm_si
+                p_si = (csi * lm) / max(lm_si, 1)
 
                 if len(S) == 0:
                     p_s = lm / data.shape[0]
                 else:
-                    p_s = (cs * lm) / lm_s
+                    p_s = (cs * lm) / max(lm_s, 1)
                 for j in convert_list(i):
                     phi[:, j, :] += (comb(d - 1, S_size, exact=True) ** (-1) + coef) * (p_si - p_s)[:, None] * v[
                                                                                                                    leaf_id][
@@ -244,7 +244,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in N_star], axis=0))
 
-                p_si = comp_si * lm / lm_si
+                p_si = comp_si * lm / max(lm_si, 1)
                 p_s = lm / data.shape[0]
                 for a in convert_list(i):
                     phi[:, a] += ((p_si - p_s)[:, None] * v[leaf_id][None, :])
@@ -277,8 +277,8 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + N_star], axis=0))
 
-                p_si = comp_si * lm / lm_si
-                p_s = comp_s * lm / lm_s
+                p_si = comp_si * lm / max(lm_si, 1)
+                p_s = comp_s * lm / max(lm_s, 1)
                 if len(S) != 0:
                     for a in convert_list(i):
                         phi[:, a] += (
-- 
2.43.0


From 53b148e93a1a62959b195e5816031fd147bd2572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 08/71] fix: Active Shapley values: a leaf the data cannot
 reach given the null variables weighs nothing

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 12 ++++++------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index a47d17b..cb94746 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1920,7 +1920,7 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star[va, leaf_numb]
+                        p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi_n[leaf_numb, i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1996,8 +1996,8 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -3465,7 +3465,7 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -3541,8 +3541,8 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 7c7bca1..28137c1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1854,7 +1854,7 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star
+                        p_si = (csi * lm)/lm_star if lm_star !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi[i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1930,8 +1930,8 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s
-                        p_si = (csi * lm)/lm_si
+                        p_s = (cs * lm)/lm_s if lm_s !=0 else 0
+                        p_si = (csi * lm)/lm_si if lm_si !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -2159,7 +2159,7 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2235,8 +2235,8 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
-- 
2.43.0


From ca8d65f6631f9a2649634f8be19cb7c851a86ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 09/71] fix: Python estimators: a leaf holds the points in
 (low, up], as in the trees

---
 acv_explainers/py_acv.py    |  6 +++---
 acv_explainers/utils.py     |  8 ++++----
 acv_explainers/utils_exp.py | 10 +++++-----
 acv_explainers/utils_sdp.py | 40 ++++++++++++++++++-------------------
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 0e4cba1..84377a0 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,7 +238,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
@@ -263,9 +263,9 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 8961492..0304f85 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -597,19 +597,19 @@ def explore_partition(i, x, children_left, children_right, features, thresholds,
         partition_leaves = np.squeeze(np.array(partition_leaves))
 
         section_x = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0)
 
         section_x_bar = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S_bar], axis=0)
 
         section_up = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * up_tx
 
         section_down = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * down_tx
 
         prob_all = section_x * section_x_bar
diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index 062d7f8..c763b6f 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,14 +18,14 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             p_ss = np.sum(p_s)
@@ -52,13 +52,13 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             value = model.values[b, leaf_id]
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 822912d..cec2b4d 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -28,16 +28,16 @@ def compute_sdp_reg(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
-                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                                    S], axis=0)
 
                     for i, x in enumerate(X):
@@ -77,19 +77,19 @@ def compute_sdp_reg(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
-                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                        for s in S], axis=0)
 
                         for i, x in enumerate(X):
@@ -146,13 +146,13 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
                     for i, x in enumerate(X):
@@ -193,15 +193,15 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
                         for i, x in enumerate(X):
@@ -264,12 +264,12 @@ def compute_sdp_clf_cat(X, tX, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
@@ -328,13 +328,13 @@ def compute_sdp_clf(X, tX, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             for i, x in enumerate(X):
-- 
2.43.0


From 3653aef57a1ae17710c2d5d368b235cc1687b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 10/71] fix: py_shap_values_acv: no null variable is a valid
 split

---
 acv_explainers/py_acv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 84377a0..f82e705 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,10 +238,10 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_si = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
-                lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_si = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in N_star], axis=0))
 
                 p_si = comp_si * lm / max(lm_si, 1)
@@ -263,18 +263,18 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_si = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_s = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
                 for l in range(1, d - len(Sm)):
                     coef += comb(d - len(Sm) - 1, l) * comb(d - 1, l + len(S)) ** (-1)
 
-                lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_si = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + convert_list(i) + N_star], axis=0))
-                lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_s = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + N_star], axis=0))
 
                 p_si = comp_si * lm / max(lm_si, 1)
-- 
2.43.0


From 582df466053a1a4cecf768d3667205924dce9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 11/71] fix: use the caches only for the grouping they were
 built for, and build the normalized one on its own

---
 acv_explainers/acv_tree.py  |  4 ++--
 acv_explainers/base_tree.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index ab3319e..2f92b91 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -28,7 +28,7 @@ class ACVTree(BaseTree):
             shapley_values (numpy.ndarray): The Shapley Values of each sample (# samples X # features X # model's output)
         """
         X = check_array(X, dtype=[np.double])
-        if not self.cache:
+        if not self.cache or C != self.C:
             return cyext_acv.shap_values_leaves_pa(X, self.data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.max_var,
@@ -662,7 +662,7 @@ class ACVTree(BaseTree):
                                                                        self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized(self, X, C=[[]], num_threads=10):
-        if not self.cache_normalized:
+        if not self.cache_normalized or C != self.C:
             return cyext_acv.shap_values_leaves_normalized(np.array(X, dtype=np.float), self.data, self.values,
                                                            self.partition_leaves_trees,
                                                            self.leaf_idx_trees, self.leaves_nb, self.max_var,
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 50e5314..2f83871 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -641,11 +641,11 @@ class BaseTree:
                 else:
                     self.lm, self.lm_s, self.lm_si = self.leaves_cache_nopa(C=self.C)
 
-                if self.cache_normalized:
-                    if self.multi_threads:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
-                    else:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
+            if self.cache_normalized:
+                if self.multi_threads:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
+                else:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
 
             # make sure the base offset is a 1D array
             if not hasattr(self.base_offset, "__len__") or len(self.base_offset) == 0:
-- 
2.43.0


From 7e32959b6ba9105caeccde225f1bde2f45a89a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 12/71] fix: py_compute_exp(_cat): the empty subset conditions
 on nothing

---
 acv_explainers/utils_exp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index c763b6f..ff24316 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,14 +18,14 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([np.ones(N)] + [(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
+            p_s = np.prod([np.ones(len(data))] + [(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             p_ss = np.sum(p_s)
@@ -52,7 +52,7 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([np.ones(N)] + [(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
@@ -64,7 +64,7 @@ def compute_exp_cat(X, model, S, data):
                 if leaf_bool[i] == 0:
                     continue
 
-                p_s = np.prod([data[:, s] == x[s] for s in S], axis=0)
+                p_s = np.prod([np.ones(len(data))] + [data[:, s] == x[s] for s in S], axis=0)
                 p_ss = np.sum(p_s)
 
                 mean_forest[i] += (np.sum(lm * p_s) * value) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From 4b3d35ce9af671f4559405d7adb5601dbf76de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 13/71] fix: sequential SDP and swing entry points use the
 binary leaf values of boosted classifiers

---
 acv_explainers/acv_tree.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 2f92b91..16b0631 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -407,7 +407,7 @@ class ACVTree(BaseTree):
         data = check_array(data, dtype=[np.double])
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self.values,
+        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, getattr(self, 'values_binary', self.values),
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
 
@@ -420,7 +420,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, getattr(self, 'values_binary', self.values),
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -429,10 +429,11 @@ class ACVTree(BaseTree):
                 Same as compute_sdp_clf_cat, but does not use parallelism
         """
         X = check_array(X, dtype=[np.double])
+        data = check_array(data, dtype=[np.double])
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, getattr(self, 'values_binary', self.values),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -563,7 +564,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, getattr(self, 'values_binary', self.values),
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, C, thresholds,
                                              num_threads)
@@ -571,7 +572,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_nopa(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, getattr(self, 'values_binary', self.values),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
                                                        thresholds, num_threads)
@@ -585,7 +586,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_slow(self, X, data, C=[[]], thresholds=0.9, num_threads=5):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, getattr(self, 'values_binary', self.values),
                                       self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                       C, thresholds, num_threads)
 
-- 
2.43.0


From 14a7c647d0d06a1a5a5012017798e6a4886a29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 14/71] fix: SDP of regression forests: keep the terms of each
 pair of trees apart, normalize with the row's own probabilities

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 172 +++++++++-----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 172 +++++++++-----------
 2 files changed, 162 insertions(+), 182 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index cb94746..226bac6 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -479,7 +479,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef double value_l
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
@@ -495,9 +495,9 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
@@ -554,13 +554,13 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[b, b, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[b, b, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[b, b, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -619,52 +619,47 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                            p_n[b, l, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[b, l, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[b, l, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
     for i in range(N):
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, b, leaf_numb, i]
+                n_u += p_u_n[b, b, leaf_numb, i]
+                n_d += p_d_n[b, b, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
-                    for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a += mean_forest_b[b, b, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_u += mean_forest_b[b, b, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_d += mean_forest_b[b, b, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
                     nb_leaf = leaves_nb[b]
-                    nb_leaf_l = leaves_nb[l]
-
                     for leaf_numb in range(nb_leaf):
-                        n = 0
-                        n_u = 0
-                        n_d = 0
-                        for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                        n = p_n[b, l, leaf_numb, i]
+                        n_u = p_u_n[b, l, leaf_numb, i]
+                        n_d = p_d_n[b, l, leaf_numb, i]
 
-                        for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                        ss_a += (p_n[b, b, leaf_numb, i]/norm[b])*(mean_forest_b[b, l, leaf_numb,  i, 0]/n) if n*norm[b] !=0  else 0
+                        ss_u += (p_u_n[b, b, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                        ss_d += (p_d_n[b, b, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -987,7 +982,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     mean_forest = np.zeros((N, 3))
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -1002,9 +997,9 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1060,14 +1055,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 R_buf[i] = R[i]
 
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
+                for l in range(n_trees):
+                    for leaf_numb in range(max_leaves):
                         for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                            p_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_u_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_d_n[b, l, leaf_numb, R_buf[i]] = 0
                             for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
+                                mean_forest_b[b, l, leaf_numb, R_buf[i], j] = 0
             for b in range(n_trees):
                 for l in range(n_trees):
                     if b == l:
@@ -1122,13 +1117,13 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[b, b, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[b, b, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[b, b, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1187,52 +1182,47 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                    p_n[b, l, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[b, l, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[b, l, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
             for i in range(N):
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, b, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, b, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, b, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
                             for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
-                            for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a += mean_forest_b[b, b, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_u += mean_forest_b[b, b, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_d += mean_forest_b[b, b, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
                             nb_leaf = leaves_nb[b]
-                            nb_leaf_l = leaves_nb[l]
-
                             for leaf_numb in range(nb_leaf):
-                                n = 0
-                                n_u = 0
-                                n_d = 0
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                n = p_n[b, l, leaf_numb, R_buf[i]]
+                                n_u = p_u_n[b, l, leaf_numb, R_buf[i]]
+                                n_d = p_d_n[b, l, leaf_numb, R_buf[i]]
+
+                                ss_a += (p_n[b, b, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, l, leaf_numb,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                ss_u += (p_u_n[b, b, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                ss_d += (p_d_n[b, b, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 28137c1..8b6d4ff 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -473,7 +473,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef double value_l
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
@@ -489,9 +489,9 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
@@ -548,13 +548,13 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[b, b, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[b, b, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[b, b, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -613,52 +613,47 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                            p_n[b, l, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[b, l, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[b, l, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
     for i in range(N):
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, b, leaf_numb, i]
+                n_u += p_u_n[b, b, leaf_numb, i]
+                n_d += p_d_n[b, b, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
-                    for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a += mean_forest_b[b, b, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_u += mean_forest_b[b, b, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_d += mean_forest_b[b, b, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
                     nb_leaf = leaves_nb[b]
-                    nb_leaf_l = leaves_nb[l]
-
                     for leaf_numb in range(nb_leaf):
-                        n = 0
-                        n_u = 0
-                        n_d = 0
-                        for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                        n = p_n[b, l, leaf_numb, i]
+                        n_u = p_u_n[b, l, leaf_numb, i]
+                        n_d = p_d_n[b, l, leaf_numb, i]
 
-                        for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                        ss_a += (p_n[b, b, leaf_numb, i]/norm[b])*(mean_forest_b[b, l, leaf_numb,  i, 0]/n) if n*norm[b] !=0  else 0
+                        ss_u += (p_u_n[b, b, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                        ss_d += (p_d_n[b, b, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -981,7 +976,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     mean_forest = np.zeros((N, 3))
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -996,9 +991,9 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1054,14 +1049,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 R_buf[i] = R[i]
 
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
+                for l in range(n_trees):
+                    for leaf_numb in range(max_leaves):
                         for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                            p_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_u_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_d_n[b, l, leaf_numb, R_buf[i]] = 0
                             for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
+                                mean_forest_b[b, l, leaf_numb, R_buf[i], j] = 0
             for b in range(n_trees):
                 for l in range(n_trees):
                     if b == l:
@@ -1116,13 +1111,13 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[b, b, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[b, b, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[b, b, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1181,52 +1176,47 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                    p_n[b, l, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[b, l, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[b, l, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
             for i in range(N):
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, b, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, b, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, b, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
                             for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
-                            for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a += mean_forest_b[b, b, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_u += mean_forest_b[b, b, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_d += mean_forest_b[b, b, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
                             nb_leaf = leaves_nb[b]
-                            nb_leaf_l = leaves_nb[l]
-
                             for leaf_numb in range(nb_leaf):
-                                n = 0
-                                n_u = 0
-                                n_d = 0
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                n = p_n[b, l, leaf_numb, R_buf[i]]
+                                n_u = p_u_n[b, l, leaf_numb, R_buf[i]]
+                                n_d = p_d_n[b, l, leaf_numb, R_buf[i]]
+
+                                ss_a += (p_n[b, b, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, l, leaf_numb,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                ss_u += (p_u_n[b, b, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                ss_d += (p_d_n[b, b, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
-- 
2.43.0


From 1f342f1c57ce3d527ae420d1036aa62ee7f6666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 15/71] fix: importance_sdp_reg with grouped variables: a leaf
 is a box over the features, not over the groups

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 226bac6..f031900 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1079,14 +1079,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(data.shape[0], nogil=True):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1144,14 +1144,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(data.shape[0], nogil=True):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 8b6d4ff..417e8c9 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1073,14 +1073,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(data.shape[0]):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1138,14 +1138,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(data.shape[0]):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
-- 
2.43.0


From ce3b661963e51635d27de83e5b82fad61017510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 16/71] fix: sufficient explanations: no variables of an
 earlier candidate beyond the size of the reported one

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 20 ++++++++++++++++++++
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index f031900..80953a8 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -931,6 +931,8 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1231,6 +1233,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3033,6 +3037,8 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3955,6 +3961,8 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -4200,6 +4208,8 @@ cpdef global_sdp_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data, doub
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6125,6 +6135,8 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6273,6 +6285,8 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6762,6 +6776,8 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7279,6 +7295,8 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7715,6 +7733,8 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 417e8c9..5c446b7 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -925,6 +925,8 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1225,6 +1227,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1460,6 +1464,8 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
-- 
2.43.0


From bfb94afec3ee92812f9a5d62fd708b8223e84604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 17/71] fix: get_null_coalition reads the first size entries of
 a row, as documented

---
 acv_explainers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 0304f85..dd0ddf3 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -811,7 +811,7 @@ def get_null_coalition(s_star, len_s_star):
     index = list(range(s_star.shape[1]))
 
     for i in range(s_star.shape[0]):
-        s_star_index = [s_star[i, j] for j in range(s_star.shape[1])]
+        s_star_index = [s_star[i, j] for j in range(len_s_star[i])]
         null_coalition = list(set(index) - set(s_star_index))
         n_star[i, len_s_star[i]:] = np.array(null_coalition)
     return s_star, n_star
-- 
2.43.0


From a66b41b7d16e6c65f4de0398cbf66a95225d2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 18/71] fix: swing_sv_clf: without the player, a leaf need not
 contain the row on it; normalize only what was computed

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 16 ++++++++--------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 80953a8..14405e5 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2305,8 +2305,6 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -2414,9 +2412,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -2447,10 +2445,12 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m:
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 5c446b7..2fc5abe 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3280,8 +3280,6 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -3389,9 +3387,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -3422,10 +3420,12 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m:
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
-- 
2.43.0


From e07b24f9169a3ca9c0f5a9475ea200d159678a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 19/71] fix: sufficient explanations with many variables: stop
 at the last size that was enumerated

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 14405e5..f93fd06 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -912,7 +912,7 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1045,7 +1045,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -3140,7 +3140,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 2fc5abe..7e48ca7 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -906,7 +906,7 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1039,7 +1039,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1366,7 +1366,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
-- 
2.43.0


From a14853ff1813a93e39b52e05519572ccd1b6b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 20/71] fix: py_swing_*: call the SDP functions with the
 arguments they take

---
 acv_explainers/acv_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 16b0631..8dd0c01 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -496,16 +496,16 @@ class ACVTree(BaseTree):
         return local_sdp(X, threshold, proba, index, data, final_coal, decay, C, verbose, self.compute_sdp_reg)
 
     def py_swing_values_clf(self, X, S, data, threshold, tX=0):
-        return np.array(self.compute_sdp_clf(X=X, tX=tX, S=S, data=data) >= threshold, dtype=float)
+        return np.array(self.compute_sdp_clf(X=X, S=np.array(S, dtype=np.long), data=data) >= threshold, dtype=float)
 
     def py_swing_values_reg(self, X, tX, S, data, threshold):
-        return np.array(self.compute_sdp_reg(X=X, tX=tX, S=S, data=data) >= threshold, dtype=float)
+        return np.array(self.compute_sdp_reg(X=X, tX=tX, S=np.array(S, dtype=np.long), data=data) >= threshold, dtype=float)
 
     def py_swing_sv_clf(self, X, data, threshold, C, tX=0):
-        return swing_tree_shap(X, tX, threshold, data, C, self.swing_values_clf)
+        return swing_tree_shap(X, tX, threshold, data, C, self.py_swing_values_clf)
 
     def py_swing_sv_reg(self, X, data, threshold, C, tX=0):
-        return swing_tree_shap(X, tX, threshold, data, C, self.swing_values_reg)
+        return swing_tree_shap(X, tX, threshold, data, C, self.py_swing_values_reg)
 
     def py_global_sdp_importance_clf(self, data, data_bground, columns_names, pi_level, decay, threshold,
                                      proba, C, verbose):
-- 
2.43.0


From f661098a96443ff599dee802502189f48221e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:09 +0000
Subject: [PATCH 21/71] fix: marginal sufficient explanations with many
 variables: stop at the last size that was enumerated

---
 acv_explainers/utils_sdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index cec2b4d..f039c4a 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -441,7 +441,7 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
     s_star = -1 * np.ones((N, X.shape[1]), dtype=np.int)
     S = np.zeros((X.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power_cpp))):
         for s_1 in range(0, len(power_cpp[s_0])):
             for i in range(len(power_cpp[s_0][s_1])):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -559,7 +559,7 @@ def importance_msdp_reg_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
     s_star = -1 * np.ones((N, X.shape[1]), dtype=np.int)
     S = np.zeros((X.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, len(power_cpp))):
         for s_1 in range(0, len(power_cpp[s_0])):
             for i in range(len(power_cpp[s_0][s_1])):
                 S[i] = power_cpp[s_0][s_1][i]
-- 
2.43.0


From eb10a8e03df6e0375c3c49e7ee6050db2f5cd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:09 +0000
Subject: [PATCH 22/71] fix: marginal sufficient explanations: no variables of
 an earlier candidate beyond the size of the reported one

---
 acv_explainers/utils_sdp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index f039c4a..2a25e07 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -480,6 +480,9 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
         if (len(R) == 0 or S_size >= X.shape[1] / 2) and stop:
             break
 
+    for i in range(X.shape[0]):
+        s_star[i, len_s_star[i]:] = -1
+
     return np.asarray(sdp_global) / X.shape[0], np.array(s_star, dtype=np.long), np.array(len_s_star,
                                                                                           dtype=np.long), np.array(sdp)
 
@@ -599,6 +602,9 @@ def importance_msdp_reg_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
         if (len(R) == 0 or S_size >= X.shape[1] / 2) and stop:
             break
 
+    for i in range(X.shape[0]):
+        s_star[i, len_s_star[i]:] = -1
+
     return np.asarray(sdp_global) / X.shape[0], np.array(s_star, dtype=np.long), np.array(len_s_star,
                                                                                           dtype=np.long), np.array(sdp)
 
-- 
2.43.0


From 28073443c2e66f1161fa5c9d24b31d76590e81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 23/71] fix: ACVTreeAgnostic and the v0 projected forests: a
 leaf, or the node -1 below it, is not a split

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index f93fd06..e6088cf 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4050,7 +4050,9 @@ cdef double single_compute_sdp_rf_v0(double[:] & x, double & y_x,  double[:, :]
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4720,7 +4722,9 @@ cdef double single_compute_sdp_rule_v0(double[:] & x, double & y_x,  double[:, :
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
@@ -4850,7 +4854,9 @@ cdef double single_compute_sdp_rule_biased(double[:] & x, double & y_x, vector[i
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
 
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
@@ -5001,7 +5007,9 @@ cdef double single_compute_sdp_rule_v0_weights(double[:] & x, double & y_x,  dou
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
 
-                if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0:
+                    pass # a leaf has no split
+                elif std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
                         nodes_child.push_back(children_left[b, nodes_level[it_node]])
 
-- 
2.43.0


From ba58ea10d82c9c7dbe2d4cee81fff36472692873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 24/71] fix: ACXplainer on data with one feature: keep the
 feature axis of the leaf boxes

---
 acv_explainers/base_agnostree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 9ce2e34..0bf95bc 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -130,7 +130,7 @@ class BaseAgnosTree:
                     _ = get_partition(leaf_id, partition_leaf, node_id, self.trees[i].children_left,
                                       self.trees[i].children_right, self.trees[i].features, self.trees[i].thresholds)
 
-                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf)))
+                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf), axis=1))
                     self.node_idx.append(list(set(node_id[1:])))
                     self.max_var.append(len(self.node_idx[-1]))
                     # self.data_leaves.append(np.array([(self.data[:, s] <= self.partition_leaves[-1][s, 1]) * \
-- 
2.43.0


From c473600266bedc816dea3612fd7e64cc302c1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 25/71] fix: compute_cdf_rf of ACXplainer passes one threshold
 per sample, the targets by default

---
 acv_explainers/acv_agnosticX.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index ccadcad..0a4fdc7 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1282,7 +1282,7 @@ class ACXplainer:
 
             min_node_size (int): The minimal node size of the Projected Forest
 
-            t (float): not used here
+            t (float): the threshold (or one per sample) at which the P-CDF is evaluated; default: y
 
         Returns:
             exp (numpy.ndarray): A 1-D matrix (# samples), exp[i] contains the Conditional Expectation of observation i
@@ -1297,10 +1297,8 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        # one threshold per sample, its own target by default
+        t = np.array(np.broadcast_to(y if t is None else t, y.shape), dtype=np.double)
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
-- 
2.43.0


From da39e78c29a2f5d751bba33e7d40d6b096f27189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:03 +0000
Subject: [PATCH 26/71] fix: the projected forests of ACVTree accept the level
 t they document, and the default one

---
 acv_explainers/acv_tree.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 8dd0c01..b0db249 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -11,6 +11,20 @@ from sklearn.utils.validation import check_is_fitted, check_X_y, column_or_1d, c
     check_consistent_length
 from sklearn.exceptions import NotFittedError
 
+
+def _intervals(t, y):
+    """One interval of outputs per sample: t around its target when t is a level, t itself when it holds intervals"""
+    t = np.asarray(t, dtype=np.double)
+    if t.ndim == 0:
+        return np.column_stack([np.asarray(y) - t, np.asarray(y) + t])
+    return t
+
+
+def _thresholds(t, y):
+    """One threshold per sample"""
+    return np.array(np.broadcast_to(t, np.shape(y)), dtype=np.double)
+
+
 class ACVTree(BaseTree):
 
     def shap_values(self, X, C=[[]], num_threads=10):
@@ -865,7 +879,7 @@ class ACVTree(BaseTree):
         sdp = cyext_acv.compute_sdp_rf(X, y, data, y_data, S, self.features, self.thresholds,
                                        self.children_left,
                                        self.children_right, self.max_depth, min_node_size,
-                                       classifier, t)
+                                       classifier, _intervals(t, y))
         return sdp
 
     def compute_cdf_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
@@ -904,7 +918,7 @@ class ACVTree(BaseTree):
 
 
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.features, self.thresholds, self.children_left,
-                                       self.children_right, self.max_depth, min_node_size, classifier, t)
+                                       self.children_right, self.max_depth, min_node_size, classifier, _thresholds(t, y))
         return sdp
 
     def importance_sdp_rf(self, X, y, data, y_data, min_node_size=5, classifier=1, t=20,
@@ -976,7 +990,7 @@ class ACVTree(BaseTree):
         return cyext_acv.global_sdp_rf(X, y, data, y_data, self.features, self.thresholds,
                                        self.children_left,
                                        self.children_right, self.max_depth, min_node_size,
-                                       classifier, t, C,
+                                       classifier, _intervals(t, y), C,
                                        pi_level, minimal, stop, search_space[:10])
 
     def sufficient_expl_rf(self, X, y, data, y_data, min_node_size=5, classifier=1, t=20,
@@ -1040,7 +1054,7 @@ class ACVTree(BaseTree):
         return cyext_acv.sufficient_expl_rf(X, y, data, y_data, self.features, self.thresholds,
                                             self.children_left,
                                             self.children_right, self.max_depth, min_node_size,
-                                            classifier, t, C,
+                                            classifier, _intervals(t, y), C,
                                             pi_level, minimal, stop, search_space[:10])
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
@@ -1077,7 +1091,7 @@ class ACVTree(BaseTree):
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         exp = cyext_acv.compute_exp_rf(X, y, data, y_data, S, self.features, self.thresholds, self.children_left,
-                                       self.children_right, self.max_depth, min_node_size, classifier, t)
+                                       self.children_right, self.max_depth, min_node_size, classifier, _intervals(t, y))
         return exp
 
     def compute_quantile_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20, quantile=95):
@@ -1132,12 +1146,12 @@ class ACVTreeAgnostic(BaseTree):
 
     def compute_cdf_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         sdp = cyext_acv.compute_cdf_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
-                                       self.children_right, self.max_depth, min_node_size, classifier, t)
+                                       self.children_right, self.max_depth, min_node_size, classifier, _thresholds(t, y))
         return sdp
 
     def compute_sdp_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         sdp = cyext_acv.compute_sdp_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
-                                       self.children_right, self.max_depth, min_node_size, classifier, t)
+                                       self.children_right, self.max_depth, min_node_size, classifier, _intervals(t, y))
         return sdp
 
     def compute_sdp_rf_v0(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
@@ -1148,7 +1162,7 @@ class ACVTreeAgnostic(BaseTree):
     def compute_sdp_rule(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         sdp, rules = cyext_acv.compute_sdp_rule(x, y, data, y_data, S, self.features, self.thresholds,
                                                 self.children_left,
-                                                self.children_right, self.max_depth, min_node_size, classifier, t)
+                                                self.children_right, self.max_depth, min_node_size, classifier, _intervals(t, y))
         return sdp, rules
 
     def compute_sdp_rule_v0(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
@@ -1168,7 +1182,7 @@ class ACVTreeAgnostic(BaseTree):
         sdp, rules, sdp_all, rules_data, w = cyext_acv.compute_sdp_maxrule(x, y, data, y_data, S, self.features,
                                                                            self.thresholds, self.children_left,
                                                                            self.children_right, self.max_depth,
-                                                                           min_node_size, classifier, t, pi)
+                                                                           min_node_size, classifier, _intervals(t, y), pi)
         extend_partition(rules, rules_data, sdp_all, pi=pi, S=S)
         return sdp, rules, sdp_all, rules_data, w
 
@@ -1220,7 +1234,7 @@ class ACVTreeAgnostic(BaseTree):
             search_space = [i for i in range(x.shape[1])]
 
         sdp = cyext_acv.global_sdp_rf(x, y, data, y_data, self.features, self.thresholds, self.children_left,
-                                      self.children_right, self.max_depth, min_node_size, classifier, t, C,
+                                      self.children_right, self.max_depth, min_node_size, classifier, _intervals(t, y), C,
                                       pi_level, minimal, stop, search_space[:10])
         return sdp
 
@@ -1244,7 +1258,7 @@ class ACVTreeAgnostic(BaseTree):
 
     def compute_exp_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         exp = cyext_acv.compute_exp_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
-                                       self.children_right, self.max_depth, min_node_size, classifier, t)
+                                       self.children_right, self.max_depth, min_node_size, classifier, _intervals(t, y))
         return exp
 
     def compute_quantile_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20, quantile=95):
@@ -1275,7 +1289,7 @@ class ACVTreeAgnostic(BaseTree):
             search_space = [i for i in range(x.shape[1])]
 
         sdp = cyext_acv.sufficient_expl_rf(x, y, data, y_data, self.features, self.thresholds, self.children_left,
-                                           self.children_right, self.max_depth, min_node_size, classifier, t, C,
+                                           self.children_right, self.max_depth, min_node_size, classifier, _intervals(t, y), C,
                                            pi_level, minimal, stop, search_space[:10])
         return sdp
 
-- 
2.43.0


From 15e02d543f78bd0ba5f4c83eb262deac79aea75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 27/71] fix: ACVTree.importance_sdp_rf: the variables on the
 paths are those of the explainer itself

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index b0db249..8c33dcb 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -979,7 +979,7 @@ class ACVTree(BaseTree):
                 feature_importance = -np.array(self.model.feature_importances_)
                 search_space = list(np.argsort(feature_importance))
             except AttributeError:
-                flat_list = [item for t in self.ACXplainer.node_idx_trees for sublist in t for item in sublist]
+                flat_list = [item for t in self.node_idx_trees for sublist in t for item in sublist]
                 node_idx = pd.Series(flat_list)
                 search_space = []
                 for v in (node_idx.value_counts().keys()):
-- 
2.43.0


From b16b41dfca36b1f94bfe6abfcb7f9a7f76514767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 28/71] fix: sufficient_expl_rf of ACVTree and ACVTreeAgnostic:
 the placeholder [-1] is not an explanation

---
 acv_explainers/acv_tree.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 8c33dcb..a78bd65 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -1050,12 +1050,15 @@ class ACVTree(BaseTree):
                     search_space += [v]
         else:
             search_space = [i for i in range(X.shape[1])]
-        # TODO: Remove the [-1] in the Sufficent Coal
-        return cyext_acv.sufficient_expl_rf(X, y, data, y_data, self.features, self.thresholds,
-                                            self.children_left,
-                                            self.children_right, self.max_depth, min_node_size,
-                                            classifier, _intervals(t, y), C,
-                                            pi_level, minimal, stop, search_space[:10])
+        sufficient_coal, sdp_coal, sdp_global = cyext_acv.sufficient_expl_rf(X, y, data, y_data, self.features,
+                                                                             self.thresholds,
+                                                                             self.children_left,
+                                                                             self.children_right, self.max_depth,
+                                                                             min_node_size,
+                                                                             classifier, _intervals(t, y), C,
+                                                                             pi_level, minimal, stop, search_space[:10])
+        # the first entry of each sample is a placeholder
+        return [coal[1:] for coal in sufficient_coal], [sdp[1:] for sdp in sdp_coal], sdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         """
@@ -1288,10 +1291,14 @@ class ACVTreeAgnostic(BaseTree):
         else:
             search_space = [i for i in range(x.shape[1])]
 
-        sdp = cyext_acv.sufficient_expl_rf(x, y, data, y_data, self.features, self.thresholds, self.children_left,
-                                           self.children_right, self.max_depth, min_node_size, classifier, _intervals(t, y), C,
-                                           pi_level, minimal, stop, search_space[:10])
-        return sdp
+        sufficient_coal, sdp_coal, sdp_global = cyext_acv.sufficient_expl_rf(x, y, data, y_data, self.features,
+                                                                             self.thresholds, self.children_left,
+                                                                             self.children_right, self.max_depth,
+                                                                             min_node_size, classifier,
+                                                                             _intervals(t, y), C, pi_level, minimal,
+                                                                             stop, search_space[:10])
+        # the first entry of each sample is a placeholder
+        return [coal[1:] for coal in sufficient_coal], [sdp[1:] for sdp in sdp_coal], sdp_global
 
     def compute_local_sdp(d, sufficient_coal):
         flat = [item for sublist in sufficient_coal for item in sublist]
-- 
2.43.0


From 54cdd60ce1ee973648b07d74764f0e41ac13fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 29/71] fix: sufficient_cxpl_rf: drop the placeholder value of
 each sample, not the values of the first one

---
 acv_explainers/acv_agnosticX.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 0a4fdc7..335a83d 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1215,7 +1215,8 @@ class ACXplainer:
                                             pi_level, minimal, stop, search_space[:10])
 
         c_expl = [sufficient_coal[1:] for sufficient_coal in c_expl]
-        return c_expl, cdp_expl[1:], cdp_global
+        cdp_expl = [cdp_ind[1:] for cdp_ind in cdp_expl]
+        return c_expl, cdp_expl, cdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
-- 
2.43.0


From b46d5bb5411e65061d5107309a06f7e101ee8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 30/71] fix: rules_by_annealing: keep the shape of the rules

The first rule was kept as a list of one rule and squeezed later, which loses the
axis of the variables when there is a single one (IndexError), and in utils_cr
left a rule with an additional axis whenever it could not be enlarged.
---
 acv_explainers/utils.py    | 5 +++--
 acv_explainers/utils_cr.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index dd0ddf3..b307879 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -2125,7 +2125,8 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
 
     best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
     best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    best = best[0]
+    curr, curr_eval = best, best_eval
 
     move = 0
     for i in range(max_iter):
@@ -2170,7 +2171,7 @@ def rules_by_annealing(value_function, rules, rules_data, sdp_all, x_train, pi_l
                                                     bad_sample,
                                                     p_best, n_try,
                                                     batch, max_iter, temp, max_iter_convergence)
-        sr.append(np.squeeze(best))
+        sr.append(best)
         sr_eval.append(best_eval)
     return np.array(sr), sr_eval
 
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index e90cbca..5376df9 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -728,7 +728,8 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
 
     best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
     best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    best = best[0]
+    curr, curr_eval = best, best_eval
 
     move = 0
     for i in range(max_iter):
-- 
2.43.0


From e10fbaaec5adf805c225339bc5499b5e70aa2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 31/71] fix: extend_rec: join two rectangles only when all
 points of the result are in one of them

The negation applied to the first comparison alone, so that a rectangle was
joined with a narrower one, and rectangles that touch at a corner were joined
into their bounding box: the extended rule admitted points outside both.
---
 acv_explainers/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index b307879..c41517c 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -938,10 +938,11 @@ def find_nbor(rec_a, rec_b, S):
 
 
 def extend_rec(rec_a, rec_b, S, axs, dim):
-    a = 0
+    # the union is a rectangle only if they touch along one axis, and rec_b covers rec_a along the others
+    a = 0 if len(axs) == 1 else 1
     for k in S:
         if k not in axs:
-            if not rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]:
+            if not (rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]):
                 a += 1
     if a == 0:
         for i, k in enumerate(axs):
-- 
2.43.0


From 316281c6f1cfefedaca3556cf86785d5bac603f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 32/71] fix: global rules: choose among the rules with the
 required coverage

The rule with the best quality was searched in all rules that contain the row,
including those below the required coverage (chosen on ties); no rule above it
raised a ValueError instead of answering None, and one rule without observation
(its quality is NaN) hid all the others.
---
 acv_explainers/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index c41517c..447eb7f 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -987,10 +987,11 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_rule.append(rule)
                 y_S.append(S[i])
 
+        # the quality of a rule without observation is undefined
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.max(y_weights[np.array(y_coverage) >= min_cov]) >= min_acc:
-            max_weights = np.max(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == max_weights)
+        y_weights[np.isnan(y_weights) | (np.array(y_coverage) < min_cov)] = -np.inf
+        if len(y_out) != 0 and np.max(y_weights) >= min_acc and np.max(y_weights) > -np.inf:
+            best_acc = np.argmax(y_weights)
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
@@ -1021,10 +1022,11 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_rule.append(rule)
                 y_S.append(S[i])
 
+        # the quality of a rule without observation is undefined
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.min(y_weights[np.array(y_coverage) >= min_cov]) <= min_mse:
-            min_weights = np.min(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == min_weights)
+        y_weights[np.isnan(y_weights) | (np.array(y_coverage) < min_cov)] = np.inf
+        if len(y_out) != 0 and np.min(y_weights) <= min_mse and np.min(y_weights) < np.inf:
+            best_acc = np.argmin(y_weights)
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
-- 
2.43.0


From 7a36b5b6bfe6e05760a7d75b13408bf4dbe08f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 33/71] fix: compute_rules_metrics: a rule without condition
 covers all the observations

np.prod of an empty list is a scalar, so that its coverage was one observation.
---
 acv_explainers/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 447eb7f..9f2a0cb 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1050,8 +1050,8 @@ def compute_rules_metrics(rules, data, y_data, S_star, classifier=True):
     for idx in range(rules.shape[0]):
         S = S_star[idx]
         rule = rules[idx]
-        where = np.prod([(data[:, s] <= rule[s, 1]) * (data[:, s] >= rule[s, 0])
-                         for s in S], axis=0).astype(bool)
+        where = np.prod([np.ones(data.shape[0])] + [(data[:, s] <= rule[s, 1]) * (data[:, s] >= rule[s, 0])
+                                                    for s in S], axis=0).astype(bool)
         if classifier:
             rules_output.append(1 * (np.mean(y_data[where]) > 0.5))
             rules_output_proba.append((np.mean(y_data[where])))
-- 
2.43.0


From e21fb5a2980cc29be66bc9a7a0b28a4fd42f5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 34/71] fix: ACXplainer.fit: the explanations use the forest
 fitted last

The trees extracted from the first forest were kept when the explainer was
fitted again, and all later explanations described the old model.
---
 acv_explainers/acv_agnosticX.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 335a83d..14d3fa9 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -160,6 +160,7 @@ class ACXplainer:
         self.d = X.shape[1]
         self.model.fit(X=X, y=y, sample_weight=sample_weight, split_select_weights=split_select_weights,
                        always_split_features=always_split_features, categorical_features=categorical_features)
+        self.check_is_explain = False
 
     def fit_global_rules(self, X, y, rules, rules_s_star):
         # TODO: think about removing s_star ? add complexity ?
-- 
2.43.0


From 267192c4fc6556bfdd8b683617086116c8e85dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 35/71] fix: remove_in_wsdp: remove the rule contained in
 another one, not the container nor both of two identical ones

---
 acv_explainers/utils_cr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index 5376df9..af6a903 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -790,7 +790,7 @@ def rules_by_annealing(value_function, rules, rules_data, x_train, p_best=0.85,
 
 def remove_in_wsdp(ra, sa, wa):
     """
-    remove A if A subset of B in the list of compatible leaves
+    remove A if A subset of B in the list of compatible leaves (the first one is kept if A = B)
     """
     ra_b = ra.copy()
     sa_b = sa.copy()
@@ -799,11 +799,12 @@ def remove_in_wsdp(ra, sa, wa):
     for i in range(ra.shape[0]):
         for j in range(ra.shape[0]):
             if i != j and np.prod([(ra[i, s, 1] <= ra[j, s, 1]) * (ra[i, s, 0] >= ra[j, s, 0])
-                                   for s in range(ra.shape[1])], axis=0).astype(bool):
+                                   for s in range(ra.shape[1])], axis=0).astype(bool) \
+                    and (j < i or not np.array_equal(ra[i], ra[j])):
                 # ra[i] = ra[j]
                 # sa[i] = sa[j]
                 # wa[i] = wa[j]
-                remove_list.append(j)
+                remove_list.append(i)
     ra_b = np.delete(ra_b, remove_list, axis=0)
     sa_b = np.delete(sa_b, remove_list, axis=0)
     wa_b = np.delete(wa_b, remove_list, axis=0)
-- 
2.43.0


From 0fad2a9d4b6cd97fa23371c491b714b849714f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 36/71] fix: run_local_counterfactual_rules: use the given
 level and search parameters in regression

---
 acv_explainers/counterfactual_rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 3853788..5b0e099 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,12 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=acc_level)
+                                                                                     pi_level=pi_level,
+                                                                                     p_best=p_best, n_try=n_try,
+                                                                                     batch=batch, max_iter=max_iter,
+                                                                                     temp=temp,
+                                                                                     max_iter_convergence=max_iter_convergence
+                                                                                     )
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From 93d80a7a5e5607414b6c44996f6b748e1c16afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 37/71] fix: run_regional_divergent_set: the weights are those
 of the divergent set found

---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 5b0e099..57663a5 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -182,7 +182,7 @@ class CR:
                                                                                          self.x_train, self.y_train,
                                                                                          cond=self.rules,
                                                                                          t=self.down_up,
-                                                                                         S=self.S_bar_set_regional)
+                                                                                         S=self.S_star_regional)
 
     def run_regional_counterfactual_rules(self, acc_level=0.8, pi_level=0.8,  p_best=0.85, n_try=100,
                                   batch=100, max_iter=100, temp=1, max_iter_convergence=100):
-- 
2.43.0


From 0017192080f34324893c1fe624da181d223ebbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 38/71] fix: cdp_intv of classifiers: the probability of the
 target, as in regression and the other counterfactual probabilities

---
 acv_explainers/acv_agnosticX.py        | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv.pyx | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 14d3fa9..53004a6 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -583,7 +583,7 @@ class ACXplainer:
     def compute_cdp_cond_weights(self, X, y, down, up, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95,
                                  verbose=False, algo2=False, rdm_size=20):
         """
-         Compute P(Y \neq y | X_{\bar{S}} in rule_{\bar{S}}, X_S=x_S)
+         Compute P(Y = y | X_{\bar{S}} in rule_{\bar{S}}, X_S=x_S)
         Args:
             X (numpy.ndarray): A matrix of samples (# samples X # features) on which to compute the SDP
 
@@ -1595,7 +1595,7 @@ class ACXplainer:
     def compute_cdp_intv_weights(self, X, y, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95,
                                  verbose=False, algo2=False, rdm_size=20):
         """
-        Compute P(Y \neq y | X_{\bar{S}} in rule_{\bar{S}}), X_S is missing
+        Compute P(Y = y | X_{\bar{S}} in rule_{\bar{S}}), X_S is missing
 
         Args:
             X (numpy.ndarray): A matrix of samples (# samples X # features) on which to compute the SDP
@@ -1650,7 +1650,7 @@ class ACXplainer:
     def compute_cdp_intv_same(self, X, y, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95,
                               verbose=False, algo2=False, rdm_size=20):
         """
-         Compute P(Y \neq y | X_{\bar{S}} in rule_{\bar{S}}), X_S is missing using same S
+         Compute P(Y = y | X_{\bar{S}} in rule_{\bar{S}}), X_S is missing using same S
 
         Args:
             X (numpy.ndarray): A matrix of samples (# samples X # features) on which to compute the SDP
@@ -1704,7 +1704,7 @@ class ACXplainer:
     def importance_cdp_intv(self, X, y, data, y_data, cond, min_node_size=5, t=None,
                             C=[[]], pi_level=0.9, minimal=1, stop=True):
         """
-         Find Minimal Divergent Set for Rule P(Y \neq y | X_{\bar{S}} in rule_{\bar{S}}), X_S is missing
+         Find Minimal Divergent Set for Rule P(Y = y | X_{\bar{S}} in rule_{\bar{S}}), X_S is missing
 
         Args:
             X (numpy.ndarray): A matrix of samples (# samples X # features) on which to compute the SDP
diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index e6088cf..557c2cf 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -7562,7 +7562,7 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
         if classifier == 1:
             it = in_data.begin()
             while(it != in_data.end()):
-                sdp  += (1./(n_trees*in_data.size())) * (y_x != y_data[deref(it)])
+                sdp  += (1./(n_trees*in_data.size())) * (y_x == y_data[deref(it)])
                 w[deref(it)] += (1./(n_trees*in_data.size()))
                 inc(it)
         else:
-- 
2.43.0


From 99988ee3084aeeff444a029b5793b45da50bc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 39/71] fix: run_sampling_regional_counterfactuals_alltests:
 sample in the rule and check the target of the region chosen

---
 acv_explainers/counterfactual_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 57663a5..85c27c2 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -278,7 +278,7 @@ class CR:
             if len(self.counterfactuals_samples_regional[best_id]) != 0:
                 a, sco = simulated_annealing(outlier_score, xi, self.S_star_regional[best_id], self.x_train,
                                              self.counterfactuals_samples_regional[best_id][
-                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])][0],
+                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])],
                                              batch, max_iter, temp)
                 self.dist_regional.append(np.squeeze(a))
                 self.score_regional.append(sco)
@@ -287,7 +287,7 @@ class CR:
                         self.dist_regional[-1].reshape(1, -1)) != self.acv_explainer.predict(xi.reshape(1, -1)))
                 else:
                     self.errs_regional.append(
-                        down[i] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[i])
+                        down[best_id] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[best_id])
 
                 if self.model != None:
                     self.errs_regional_original.append(self.model.predict(
-- 
2.43.0


From e4b04c64f6556676460f47d36213f407bdbc8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 40/71] fix: CR: regional sampling without local sampling first

---
 acv_explainers/counterfactual_rules.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 85c27c2..886bb14 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -16,7 +16,7 @@ class CR:
         self.ddp_local, self.w_local = None, None
         self.counterfactuals_samples_local, self.counterfactuals_samples_sdp_local, \
         self.counterfactuals_samples_w_local = None, None, None
-        self.isolation = None, None
+        self.isolation = None
         self.dist_local = None
         self.score_local = None
         self.errs_local = None
@@ -213,6 +213,9 @@ class CR:
         down = self.down_up[:, 0]
         up = self.down_up[:, 1]
         print('### Sampling using the regional counterfactual rules')
+        if self.isolation is None:
+            self.isolation = IsolationForest()
+            self.isolation.fit(self.x_train)
         outlier_score = lambda x: self.isolation.decision_function(x)
         self.dist_regional = []
         self.score_regional = []
@@ -252,6 +255,9 @@ class CR:
         up = self.down_up[:, 1]
 
         print('### Sampling using the regional counterfactual rules')
+        if self.isolation is None:
+            self.isolation = IsolationForest()
+            self.isolation.fit(self.x_train)
         outlier_score = lambda x: self.isolation.decision_function(x)
 
         self.dist_regional = []
-- 
2.43.0


From fc7cf42459a788537ac7fc77d4189813ee998544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 41/71] fix: XGBoost loader: strip only the prefix of the
 buffer, not bytes of the base score that look like it

---
 acv_explainers/base_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 2f83871..5f97513 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1207,7 +1207,9 @@ class XGBTreeModelLoader(object):
 
     def __init__(self, xgb_model):
         # new in XGBoost 1.1, 'binf' is appended to the buffer
-        self.buf = xgb_model.save_raw().lstrip(b'binf')
+        self.buf = bytes(xgb_model.save_raw())
+        if self.buf.startswith(b'binf'):
+            self.buf = self.buf[4:]
         self.pos = 0
 
         # load the model parameters
-- 
2.43.0


From 223818a477132fdec3bd5c7e6459dd40307c8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 42/71] fix: XGBoost loader: the base score of the objectives
 with a log link is transformed

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 5f97513..45b0cf7 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1230,6 +1230,8 @@ class XGBTreeModelLoader(object):
         if LooseVersion(xgboost.__version__).version[0] >= 1:
             if self.name_obj in ["binary:logistic", "reg:logistic"]:
                 self.base_score = scipy.special.logit(self.base_score)  # pylint: disable=no-member
+            elif self.name_obj in ["count:poisson", "reg:gamma", "reg:tweedie", "survival:cox", "survival:aft"]:
+                self.base_score = np.log(self.base_score)
 
         assert self.name_gbm == "gbtree", "Only the 'gbtree' model type is supported, not '%s'!" % self.name_gbm
 
-- 
2.43.0


From 0b6cb05463cc39adb294dd6d946835e14945b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 43/71] fix: the leaves of a tree are those reachable from its
 root (XGBoost keeps the nodes it pruned)

---
 acv_explainers/base_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 45b0cf7..b3a7b46 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -577,8 +577,13 @@ class BaseTree:
                 if np.min(self.trees[i].node_sample_weight) <= 0:
                     self.fully_defined_weighting = False
 
+                reachable, level = set(), [0]
+                while level:
+                    reachable.update(level)
+                    level = [child for idx in level if self.trees[i].children_left[idx] >= 0
+                             for child in (self.trees[i].children_left[idx], self.trees[i].children_right[idx])]
                 self.leaf_idx = [idx for idx in range(len(self.trees[i].features))
-                                 if self.trees[i].children_left[idx] < 0]
+                                 if idx in reachable and self.trees[i].children_left[idx] < 0]
 
                 self.leaves_nb.append(len(self.leaf_idx))
 
-- 
2.43.0


From 4c760767afb53fd8e161fe7391dc8f1e6e789252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 44/71] fix: XGBoost models: the trees explained are those the
 model predicts with (early stopping, several classes)

---
 acv_explainers/base_tree.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index b3a7b46..0993e4c 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -345,6 +345,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+            self.use_tree_limit()
             if self.model_output == "predict_proba":
                 if self.num_stacked_models == 1:
                     self.model_output = "probability_doubled"  # with predict_proba we need to double the outputs to match
@@ -363,6 +364,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+            self.use_tree_limit()
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBRanker"):
             import xgboost
@@ -376,6 +378,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+            self.use_tree_limit()
             # self.scaling = 1
         elif safe_isinstance(model, "lightgbm.basic.Booster"):
             assert_import("lightgbm")
@@ -658,6 +661,15 @@ class BaseTree:
             self.base_offset = self.base_offset.flatten()
             assert len(self.base_offset) == self.num_outputs
 
+    def use_tree_limit(self):
+        """ Keep the trees the model predicts with: best_ntree_limit counts one tree per round, whatever the number
+        of classes, and the trees after it are not used.
+        """
+        if self.tree_limit is not None:
+            self.tree_limit *= self.num_stacked_models
+            if self.tree_limit > 0:
+                self.trees = self.trees[:self.tree_limit]
+
     @abstractmethod
     def compute_cond_exp(self, X, S, data):
         pass
-- 
2.43.0


From d5c4a983f0adae5342d38668af9ec15bd17f374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 45/71] fix: GradientBoostingClassifier with the exponential
 loss starts from half of the log odds

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 0993e4c..f381735 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -281,6 +281,8 @@ class BaseTree:
             elif safe_isinstance(model.init_, "sklearn.dummy.DummyClassifier"):
                 self.base_offset = scipy.special.logit(model.init_.class_prior_[
                                                            1])  # with two classes the trees only model the second class. # pylint: disable=no-member
+                if model.loss == "exponential":
+                    self.base_offset = self.base_offset / 2
                 self.tree_output = "log_odds"
             else:
                 assert False, "Unsupported init model type: " + str(type(model.init_))
-- 
2.43.0


From 4be5aec86904bebc4869afa20c0554fb19f91b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 46/71] fix: HistGradientBoostingClassifier: a binary model has
 one output

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index f381735..f3a9cad 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -236,7 +236,7 @@ class BaseTree:
         elif safe_isinstance(model, ["sklearn.ensemble.HistGradientBoostingClassifier"]):
             import sklearn
             self.base_offset = model._baseline_prediction
-            if hasattr(self.base_offset, "__len__") and self.model_output != "raw":
+            if np.size(self.base_offset) > 1 and self.model_output != "raw":
                 raise Exception(
                     "Multi-output HistGradientBoostingClassifier models are not yet supported unless model_output=\"raw\". See GitHub issue #1028")
             self.input_dtype = sklearn.ensemble._hist_gradient_boosting.common.X_DTYPE
-- 
2.43.0


From c50e879a153a0a9cd8583c67ba2090f0d403dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 47/71] fix: XGBoost JSON dumps: features are named f0, f1, ...

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index f3a9cad..328cd8e 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1046,7 +1046,7 @@ class SingleTree:
                     tree.children_left[i] = node["yes"]
                     tree.children_right[i] = node["no"]
                     tree.children_default[i] = node["missing"]
-                    tree.features[i] = node["split"]
+                    tree.features[i] = int(str(node["split"]).lstrip("f"))
                     tree.thresholds[i] = node["split_condition"]
 
                     for n in node["children"]:
-- 
2.43.0


From e29213986218aba8a68a17478cc668e2d363d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 48/71] fix: XGBoost dumps: a value equal to a threshold goes
 to the right

---
 acv_explainers/base_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 328cd8e..80038c4 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1047,7 +1047,8 @@ class SingleTree:
                     tree.children_right[i] = node["no"]
                     tree.children_default[i] = node["missing"]
                     tree.features[i] = int(str(node["split"]).lstrip("f"))
-                    tree.thresholds[i] = node["split_condition"]
+                    # Xgboost uses < for thresholds (see XGBTreeModelLoader)
+                    tree.thresholds[i] = np.nextafter(np.float32(node["split_condition"]), -np.float32(np.inf))
 
                     for n in node["children"]:
                         extract_data(n, tree)
@@ -1090,7 +1091,8 @@ class SingleTree:
                     feat_thres = value.split(" ")[0]
                     if ("<" in feat_thres):
                         feature = int(feat_thres.split("<")[0][2:])
-                        threshold = float(feat_thres.split("<")[1][:-1])
+                        # Xgboost uses < for thresholds (see XGBTreeModelLoader)
+                        threshold = np.nextafter(np.float32(feat_thres.split("<")[1][:-1]), -np.float32(np.inf))
                     if ("=" in feat_thres):
                         feature = int(feat_thres.split("=")[0][2:])
                         threshold = float(feat_thres.split("=")[1][:-1])
-- 
2.43.0


From 2997e711520a1f4402284e50ffadcc376829f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 49/71] fix: XGBoost models: with several classes and several
 trees per class and round, the trees were given to the wrong classes

---
 acv_explainers/base_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 80038c4..37d36c0 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1317,6 +1317,9 @@ class XGBTreeModelLoader(object):
                 self.base_weight[-1][j] = self.read('f')
                 self.leaf_child_cnt[-1][j] = self.read('i')
 
+        # the class each tree adds to: num_parallel_tree of them in a row for each class
+        self.tree_info = np.array([self.read('i') for i in range(self.num_trees)], dtype=np.int32)
+
     def get_trees(self, data=None, data_missing=None):
         shape = (self.num_trees, self.num_nodes.max())
         self.children_default = np.zeros(shape, dtype=np.int)
@@ -1324,7 +1327,9 @@ class XGBTreeModelLoader(object):
         self.thresholds = np.zeros(shape, dtype=np.float32)
         self.values = np.zeros((shape[0], shape[1], 1), dtype=np.float32)
         trees = []
-        for i in range(self.num_trees):
+        # the trees of the classes in turn
+        by_class = [np.flatnonzero(self.tree_info == k) for k in range(max(self.num_class, 1))]
+        for i in np.array(by_class).T.flatten():
             for j in range(self.num_nodes[i]):
                 if np.right_shift(self.node_sindex[i][j], np.uint32(31)) != 0:
                     self.children_default[i, j] = self.node_cleft[i][j]
-- 
2.43.0


From 704ef3897ae8d0ff5b0d704bbfac0e94fec11924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 50/71] fix: isolation forests: trees grown on a single
 variable could not be loaded

---
 acv_explainers/base_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 37d36c0..03f9b1b 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1201,7 +1201,8 @@ class IsoTree(SingleTree):
                 self.values = (self.values.T / self.values.sum(1)).T
             self.values = self.values * scaling
             # re-number the features if each tree gets a different set of features
-            self.features = np.where(self.features >= 0, tree_features[self.features], self.features)
+            self.features = np.where(self.features >= 0, tree_features[np.maximum(self.features, 0)],
+                                     self.features)
 
 
 def get_xgboost_json(model):
-- 
2.43.0


From f457653b060529b3dcc4a0e885abc47eedbe88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 51/71] fix: LightGBM models: a tree that does not split could
 not be loaded

---
 acv_explainers/base_tree.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 03f9b1b..1821193 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1005,17 +1005,19 @@ class SingleTree:
                         queue.append(vertex['left_child'])
                         queue.append(vertex['right_child'])
                 else:
-                    self.children_left[vertex['leaf_index'] + num_parents] = -1
-                    self.children_right[vertex['leaf_index'] + num_parents] = -1
-                    self.children_default[vertex['leaf_index'] + num_parents] = -1
-                    self.features[vertex['leaf_index'] + num_parents] = -1
-                    self.children_left[vertex['leaf_index'] + num_parents] = -1
-                    self.children_right[vertex['leaf_index'] + num_parents] = -1
-                    self.children_default[vertex['leaf_index'] + num_parents] = -1
-                    self.features[vertex['leaf_index'] + num_parents] = -1
-                    self.thresholds[vertex['leaf_index'] + num_parents] = -1
-                    self.values[vertex['leaf_index'] + num_parents] = [vertex['leaf_value']]
-                    self.node_sample_weight[vertex['leaf_index'] + num_parents] = vertex['leaf_count']
+                    # the only node of a tree that does not split has neither index nor count
+                    leaf_id = vertex.get('leaf_index', 0) + num_parents
+                    self.children_left[leaf_id] = -1
+                    self.children_right[leaf_id] = -1
+                    self.children_default[leaf_id] = -1
+                    self.features[leaf_id] = -1
+                    self.children_left[leaf_id] = -1
+                    self.children_right[leaf_id] = -1
+                    self.children_default[leaf_id] = -1
+                    self.features[leaf_id] = -1
+                    self.thresholds[leaf_id] = -1
+                    self.values[leaf_id] = [vertex['leaf_value']]
+                    self.node_sample_weight[leaf_id] = vertex.get('leaf_count', 0)
             self.values = np.asarray(self.values)
             self.values = np.multiply(self.values, scaling)
 
-- 
2.43.0


From 176028e6feeb7ce112ef330fb31125793f774a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 52/71] fix: LightGBM Booster: the outputs of a multi-class
 model were added up

---
 acv_explainers/base_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 1821193..fdf7d7f 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -386,6 +386,7 @@ class BaseTree:
             assert_import("lightgbm")
             self.model_type = "lightgbm"
             self.original_model = model
+            self.num_stacked_models = model.num_model_per_iteration()
             tree_info = self.original_model.dump_model()["tree_info"]
             try:
                 self.trees = [SingleTree(e, data=data, data_missing=data_missing) for e in tree_info]
-- 
2.43.0


From 709e005301ab58d0f48644dc3f8666d778be930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 53/71] fix: LightGBM models: a missing value of a variable
 without missing values in training counts as zero

---
 acv_explainers/base_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index fdf7d7f..6650892 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -994,7 +994,10 @@ class SingleTree:
                         else:
                             self.children_right[vertex['split_index']] = vertex['right_child'][
                                                                              'leaf_index'] + num_parents
-                        if vertex['default_left']:
+                        default_left = vertex['default_left']
+                        if vertex.get('missing_type') == 'None':  # missing values count as zeros
+                            default_left = 0 <= vertex['threshold']
+                        if default_left:
                             self.children_default[vertex['split_index']] = self.children_left[vertex['split_index']]
                         else:
                             self.children_default[vertex['split_index']] = self.children_right[vertex['split_index']]
-- 
2.43.0


From d8f9ac9a2fa64030efc0e7a2e8f4a1491b330c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 54/71] fix: groups of one variable in the Python
 implementations and the experiments

---
 acv_explainers/utils.py | 2 +-
 experiments/utils.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 9f2a0cb..9d18109 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -312,7 +312,7 @@ def chain_l(l):
         for it in l:
             if type(it) != list:
                 chain.append(it)
-            elif type(it) == list and len(it) > 1:
+            elif type(it) == list and len(it) > 0:
                 chain = chain + it
             else:
                 raise ValueError('problem...')
diff --git a/experiments/utils.py b/experiments/utils.py
index bd0d647..2f6a309 100644
--- a/experiments/utils.py
+++ b/experiments/utils.py
@@ -387,7 +387,7 @@ def chain_l(l):
         for it in l:
             if type(it) != list:
                 chain.append(it)
-            elif type(it) == list and len(it) > 1:
+            elif type(it) == list and len(it) > 0:
                 chain = chain + it
             else:
                 raise ValueError('problem...')
-- 
2.43.0


From 00fd733d881e4792ae62dd72160fcca9d7e25421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 55/71] fix: predict of a single isolation tree

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 6650892..eb25d9b 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1208,7 +1208,7 @@ class IsoTree(SingleTree):
             self.values = self.values * scaling
             # re-number the features if each tree gets a different set of features
             self.features = np.where(self.features >= 0, tree_features[np.maximum(self.features, 0)],
-                                     self.features)
+                                     self.features).astype(np.int32)
 
 
 def get_xgboost_json(model):
-- 
2.43.0


From 1665d9c720b7b1bae89bbd3028313a8321c5e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 56/71] fix: rules are the same if their bounds are equal, not
 close

---
 acv_explainers/utils.py    | 12 ++++++------
 acv_explainers/utils_cr.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 9d18109..cf357cb 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1072,7 +1072,7 @@ def rules_frequency(rules):
     for i in range(rules.shape[0]):
         rule = rules[i]
         for j in range(rules.shape[0]):
-            if np.allclose(rules[j], rule):
+            if np.array_equal(rules[j], rule):
                 freq[i] += 1
     freq = freq / rules.shape[0]
     return freq
@@ -1084,7 +1084,7 @@ def unique_rules(rules, rules_output):
     for i in range(rules_unique.shape[0]):
         rule = rules_unique[i]
         for j in range(rules.shape[0]):
-            if np.allclose(rule, rules[j]):
+            if np.array_equal(rule, rules[j]):
                 rules_unique_output.append(rules_output[j])
                 break
     return rules_unique, np.array(rules_unique_output)
@@ -1096,7 +1096,7 @@ def unique_rules_s_star(rules, rules_output):
     for i in range(rules_unique.shape[0]):
         rule = rules_unique[i]
         for j in range(rules.shape[0]):
-            if np.allclose(rule, rules[j]):
+            if np.array_equal(rule, rules[j]):
                 rules_unique_output.append(rules_output[j])
                 break
     return rules_unique, rules_unique_output
@@ -1197,7 +1197,7 @@ def find_mergable(rec_a, list_rec, S):
 
 def remove_rule(rule, rule_sets):
     for i, r in enumerate(rule_sets):
-        if np.allclose(r, rule):
+        if np.array_equal(r, rule):
             rule_sets.pop(i)
             break
 
@@ -1374,7 +1374,7 @@ def return_leaf_cnt(ac_explainer, S_star, x_train_cnt, y_train_cnt, x_train, y_t
 
     r_buf = rules_unique.copy()
     for i in range(rules_unique.shape[0]):
-        list_ric = [r.copy() for r in r_buf if not np.allclose(r, rules_unique[i])]
+        list_ric = [r.copy() for r in r_buf if not np.array_equal(r, rules_unique[i])]
         find_union(rules_unique[i], list_ric, S=S_star)
 
     return rules_unique
@@ -1903,7 +1903,7 @@ def return_leaf_cnt_reg(ac_explainer, S_star, x_train_cnt, y_train_cnt, down, up
 
     r_buf = rules_unique.copy()
     for i in range(rules_unique.shape[0]):
-        list_ric = [r.copy() for r in r_buf if not np.allclose(r, rules_unique[i])]
+        list_ric = [r.copy() for r in r_buf if not np.array_equal(r, rules_unique[i])]
         find_union(rules_unique[i], list_ric, S=S_star)
 
     return rules_unique
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index af6a903..5caedc8 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -44,7 +44,7 @@ def return_leaf_cnt(ac_explainer, S_star, x_train_cnt, y_train_cnt, x_train, y_t
     r_buf = rules_unique.copy()
     # TODO: check if 5 is sufficient
     for i in range(rules_unique.shape[0]):
-        list_ric = [r.copy() for r in r_buf if not np.allclose(r, rules_unique[i])]
+        list_ric = [r.copy() for r in r_buf if not np.array_equal(r, rules_unique[i])]
         # find_union(rules_unique[i], list_ric, S=S_star)
         sr, _ = rules_by_annealing(volume_rectangles, np.expand_dims(rules_unique[i], axis=0),
                                                 np.expand_dims(list_ric, axis=0), x_train,
@@ -403,7 +403,7 @@ def return_leaf_cnt_reg(ac_explainer, S_star, x_train_cnt, y_train_cnt, down, up
     # TODO: check if 5 is sufficient
     r_buf = rules_unique.copy()
     for i in range(rules_unique.shape[0]):
-        list_ric = [r.copy() for r in r_buf if not np.allclose(r, rules_unique[i])]
+        list_ric = [r.copy() for r in r_buf if not np.array_equal(r, rules_unique[i])]
         # find_union(rules_unique[i], list_ric, S=S_star)
         sr, _ = rules_by_annealing(volume_rectangles,
                                    np.expand_dims(rules_unique[i], axis=0),
-- 
2.43.0


From 2484f881701aa8005bdc9c39ff575c8128e1be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 57/71] fix: bounds of counterfactual rules were rounded to two
 decimals

---
 acv_explainers/utils.py    | 3 ---
 acv_explainers/utils_cr.py | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index cf357cb..58d32b8 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1401,8 +1401,6 @@ def get_compatible_leaf(acvtree, x, y_target, S_star, S_bar_set, w, x_train, y_t
     compatible_leaves = return_leaf_cnt(acvtree, S_star, x_train_cnt, y_train_cnt, x_train, y_train, pi)
     compatible_leaves = np.unique(compatible_leaves, axis=0)
     compatible_leaves = remove_in(compatible_leaves)
-    #     compatible_leaves = np.rint(compatible_leaves)
-    compatible_leaves = np.round(compatible_leaves, 2)
 
     partition_leaf = compatible_leaves.copy()
     d = partition_leaf.shape[1]
@@ -1929,7 +1927,6 @@ def get_compatible_leaf_reg(acvtree, x, y_target, down, up, S_star, S_bar_set, w
     compatible_leaves = return_leaf_cnt_reg(acvtree, S_star, x_train_cnt, y_train_cnt, down, up, x_train, y_train, pi)
     compatible_leaves = np.unique(compatible_leaves, axis=0)
     compatible_leaves = remove_in(compatible_leaves)
-    compatible_leaves = np.round(compatible_leaves, 2)
 
     partition_leaf = compatible_leaves.copy()
     d = partition_leaf.shape[1]
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index 5caedc8..db1dfb3 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -82,8 +82,6 @@ def get_compatible_leaf(acvtree, x, y_target, S_star, S_bar_set, w, x_train, y_t
 
     compatible_leaves = np.unique(compatible_leaves, axis=0)
     compatible_leaves = remove_in(compatible_leaves)
-    #     compatible_leaves = np.rint(compatible_leaves)
-    compatible_leaves = np.round(compatible_leaves, 2)
 
     partition_leaf = compatible_leaves.copy()
     d = partition_leaf.shape[1]
@@ -431,7 +429,6 @@ def get_compatible_leaf_reg(acvtree, x, y_target, down, up, S_star, S_bar_set, w
                                             )
     compatible_leaves = np.unique(compatible_leaves, axis=0)
     compatible_leaves = remove_in(compatible_leaves)
-    compatible_leaves = np.round(compatible_leaves, 2)
 
     partition_leaf = compatible_leaves.copy()
     d = partition_leaf.shape[1]
-- 
2.43.0


From 8d291f2bccb434aafbce19eb8057efe21da563f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 58/71] fix: the telco data set could not be loaded

---
 acv_data/data_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_data/data_loader.py b/acv_data/data_loader.py
index b3073b2..ccdc36a 100644
--- a/acv_data/data_loader.py
+++ b/acv_data/data_loader.py
@@ -26,8 +26,8 @@ def data_loading(dataset):
     """
     current_path = op.dirname(op.abspath(__file__))
     if dataset == 'telco':
-        data_house_prices_path = op.join(current_path, "telco_churn.csv")
-        data = pd.read_csv(data_telco)
+        data_telco_path = op.join(current_path, "telco_churn.csv")
+        data = pd.read_csv(data_telco_path)
 
     else:
         raise ValueError("Dataset not found. Check the docstring for available values")
-- 
2.43.0


From df340d347b09ffe53fb6e6dafc65ecfe0fac2548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 59/71] fix: sampleMarMVN called marMVN without an argument

---
 acv_explainers/utils.py | 2 +-
 experiments/utils.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 58d32b8..0e5dd3e 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -285,7 +285,7 @@ def condMVN(mean, cov, set_bar, set, x):
         return mean_cond, cov_cond
 
 
-def marMVN(mean, cov, set_bar, set, x):
+def marMVN(mean, cov, set_bar, set, x=None):
     if set == []:
         return mean, cov
     else:
diff --git a/experiments/utils.py b/experiments/utils.py
index 2f6a309..529d406 100644
--- a/experiments/utils.py
+++ b/experiments/utils.py
@@ -360,7 +360,7 @@ def condMVN(mean, cov, set_bar, set, x):
         return mean_cond, cov_cond
 
 
-def marMVN(mean, cov, set_bar, set, x):
+def marMVN(mean, cov, set_bar, set, x=None):
     if set == []:
         return mean, cov
     else:
-- 
2.43.0


From 46e08dac04490ac088f26d587c2abdbc44b7955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 60/71] fix: experiments: a leaf does not hold the points on
 its lower bound

---
 experiments/exp_linear.py         |  6 +++---
 experiments/exp_linear_gmm.py     | 18 +++++++++---------
 experiments/exp_linear_gmm_ohe.py |  4 ++--
 experiments/exp_syn.py            |  6 +++---
 experiments/shap_linear.py        |  6 +++---
 experiments/utils.py              | 10 +++++-----
 6 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/experiments/exp_linear.py b/experiments/exp_linear.py
index f2e14e7..f34bc39 100644
--- a/experiments/exp_linear.py
+++ b/experiments/exp_linear.py
@@ -179,11 +179,11 @@ class ExperimentsLinear:
 
                 if not intv:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in S],
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in S],
                         axis=0)
                 else:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                          S_bar], axis=0)
 
                 prob_global[i] = np.sum(section_x)
@@ -419,7 +419,7 @@ class ExperimentsLinear:
                 up = partition_leaves.iloc[1]
 
                 section_x = np.sum(
-                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] >= low[s_bar]) for s_bar in S_bar],
+                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] > low[s_bar]) for s_bar in S_bar],
                             axis=0))
                 # for i in range(data.shape[0]):
                 #    section_x += np.prod([(data[i][s_bar] <= up[s_bar])*(data[i][s_bar] >= low[s_bar]) for s_bar in S_bar])
diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index a50d5a0..31bd2bc 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -950,11 +950,11 @@ class ExperimentsLinearGMM:
 
                 if not intv:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in S],
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in S],
                         axis=0)
                 else:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                          S_bar], axis=0)
 
                 prob_global[i] = np.sum(section_x)
@@ -1107,7 +1107,7 @@ class ExperimentsLinearGMM:
                 up = partition_leaves.iloc[1]
 
                 section_x = np.sum(
-                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] >= low[s_bar]) for s_bar in S_bar],
+                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] > low[s_bar]) for s_bar in S_bar],
                             axis=0))
                 # for i in range(data.shape[0]):
                 #    section_x += np.prod([(data[i][s_bar] <= up[s_bar])*(data[i][s_bar] >= low[s_bar]) for s_bar in S_bar])
@@ -1339,11 +1339,11 @@ class ExperimentsLinearGMM:
                 # pool.close()
                 if not intv:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in S],
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in S],
                         axis=0)
                 else:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                          S_bar], axis=0)
 
                 prob_global[i] = np.sum(section_x)
@@ -1540,19 +1540,19 @@ class ExperimentsLinearGMM:
                 partition_leaves = np.squeeze(np.array(partition_leaves))
 
                 section_x = np.prod(
-                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                      S], axis=0)
 
                 section_x_bar = np.prod(
-                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                      S_bar], axis=0)
 
                 section_up = np.prod(
-                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                      S], axis=0) * up_tx
 
                 section_down = np.prod(
-                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                    [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                      S], axis=0) * down_tx
 
                 prob_all = np.sum(section_x * section_x_bar) / np.sum(section_x)
diff --git a/experiments/exp_linear_gmm_ohe.py b/experiments/exp_linear_gmm_ohe.py
index b782a32..6539024 100644
--- a/experiments/exp_linear_gmm_ohe.py
+++ b/experiments/exp_linear_gmm_ohe.py
@@ -703,7 +703,7 @@ class ExperimentsLinearGMMOhe:
                     up = partition_leaves.iloc[1]
 
                     #section_x = 0
-                    section_x = np.prod([(data[:, s] <= up[s])*(data[:, s] >= low[s]) for s in S], axis=0)
+                    section_x = np.prod([(data[:, s] <= up[s])*(data[:, s] > low[s]) for s in S], axis=0)
                     #for i in range(data.shape[0]):
                     #    section_x += np.prod([(data[i][s_bar] <= up[s_bar])*(data[i][s_bar] >= low[s_bar]) for s_bar in S_bar])
                     nbs_leaf.append(np.sum(section_x))
@@ -776,7 +776,7 @@ class ExperimentsLinearGMMOhe:
                 low = partition_leaves.iloc[0]
                 up = partition_leaves.iloc[1]
 
-                section_x = np.sum(np.prod([(data[:, s_bar] <= up[s_bar])*(data[:, s_bar] >= low[s_bar]) for s_bar in S_bar], axis=0))
+                section_x = np.sum(np.prod([(data[:, s_bar] <= up[s_bar])*(data[:, s_bar] > low[s_bar]) for s_bar in S_bar], axis=0))
                 # for i in range(data.shape[0]):
                 #    section_x += np.prod([(data[i][s_bar] <= up[s_bar])*(data[i][s_bar] >= low[s_bar]) for s_bar in S_bar])
 
diff --git a/experiments/exp_syn.py b/experiments/exp_syn.py
index 0e6c018..38fd475 100644
--- a/experiments/exp_syn.py
+++ b/experiments/exp_syn.py
@@ -189,11 +189,11 @@ class ExperimentsLinear:
 
                 if not intv:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in S],
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in S],
                         axis=0)
                 else:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                          S_bar], axis=0)
 
                 prob_global[i] = np.sum(section_x)
@@ -429,7 +429,7 @@ class ExperimentsLinear:
                 up = partition_leaves.iloc[1]
 
                 section_x = np.sum(
-                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] >= low[s_bar]) for s_bar in S_bar],
+                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] > low[s_bar]) for s_bar in S_bar],
                             axis=0))
                 # for i in range(data.shape[0]):
                 #    section_x += np.prod([(data[i][s_bar] <= up[s_bar])*(data[i][s_bar] >= low[s_bar]) for s_bar in S_bar])
diff --git a/experiments/shap_linear.py b/experiments/shap_linear.py
index b2ef1f3..031b999 100644
--- a/experiments/shap_linear.py
+++ b/experiments/shap_linear.py
@@ -179,11 +179,11 @@ class ExperimentsLinear:
 
                 if not intv:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in S],
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in S],
                         axis=0)
                 else:
                     section_x = np.prod(
-                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+                        [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
                          S_bar], axis=0)
 
                 prob_global[i] = np.sum(section_x)
@@ -427,7 +427,7 @@ class ExperimentsLinear:
                 up = partition_leaves.iloc[1]
 
                 section_x = np.sum(
-                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] >= low[s_bar]) for s_bar in S_bar],
+                    np.prod([(data[:, s_bar] <= up[s_bar]) * (data[:, s_bar] > low[s_bar]) for s_bar in S_bar],
                             axis=0))
                 # for i in range(data.shape[0]):
                 #    section_x += np.prod([(data[i][s_bar] <= up[s_bar])*(data[i][s_bar] >= low[s_bar]) for s_bar in S_bar])
diff --git a/experiments/utils.py b/experiments/utils.py
index 529d406..9148d7b 100644
--- a/experiments/utils.py
+++ b/experiments/utils.py
@@ -316,7 +316,7 @@ def leaves_proba(tree, leaf_id, data, S):
     low = partition_leaves.iloc[0]
     up = partition_leaves.iloc[1]
 
-    section_x = np.prod([(data[:, s] <= up[s]) * (data[:, s] >= low[s]) for s in S], axis=0)
+    section_x = np.prod([(data[:, s] <= up[s]) * (data[:, s] > low[s]) for s in S], axis=0)
     return np.sum(section_x)
 
 
@@ -795,19 +795,19 @@ def explore_partition(i, x, children_left, children_right, features, thresholds,
         partition_leaves = np.squeeze(np.array(partition_leaves))
 
         section_x = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0)
 
         section_x_bar = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S_bar], axis=0)
 
         section_up = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * up_tx
 
         section_down = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * down_tx
 
         prob_all = section_x * section_x_bar
-- 
2.43.0


From a28fa82d10d840d701c28f027c0ad98d044377f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 61/71] fix: experiments: columns beyond the tenth were ordered
 as strings

---
 experiments/exp_linear.py         |  2 +-
 experiments/exp_linear_gmm.py     | 20 ++++++++++----------
 experiments/exp_linear_gmm_ohe.py | 12 ++++++------
 experiments/exp_syn.py            |  2 +-
 experiments/shap_linear.py        |  4 ++--
 experiments/utils.py              |  2 +-
 6 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/experiments/exp_linear.py b/experiments/exp_linear.py
index f34bc39..c06be20 100644
--- a/experiments/exp_linear.py
+++ b/experiments/exp_linear.py
@@ -297,7 +297,7 @@ class ExperimentsLinear:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
                 y_pred = tree.predict(np.array(rg_data.values, dtype=np.float32))
 
             else:
diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index 31bd2bc..b281c03 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -308,7 +308,7 @@ class ExperimentsLinearGMM:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             return rg_data
 
         if len(S_cu) != self.d:
@@ -337,7 +337,7 @@ class ExperimentsLinearGMM:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
 
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
@@ -447,7 +447,7 @@ class ExperimentsLinearGMM:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             return rg_data
 
         if len(S_cu) != self.d:
@@ -479,7 +479,7 @@ class ExperimentsLinearGMM:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
 
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
@@ -591,7 +591,7 @@ class ExperimentsLinearGMM:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             return rg_data
 
         if len(S_cu) != self.d:
@@ -623,7 +623,7 @@ class ExperimentsLinearGMM:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
 
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
@@ -732,7 +732,7 @@ class ExperimentsLinearGMM:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             return rg_data
 
         if len(S_cu) != self.d:
@@ -764,7 +764,7 @@ class ExperimentsLinearGMM:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
 
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
@@ -859,7 +859,7 @@ class ExperimentsLinearGMM:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             y_pred = self.linear_gmm_batch(np.array(rg_data.values, dtype=np.float32))
 
         else:
@@ -1043,7 +1043,7 @@ class ExperimentsLinearGMM:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
                 y_pred = tree.predict(np.array(rg_data.values, dtype=np.float32))
 
             else:
diff --git a/experiments/exp_linear_gmm_ohe.py b/experiments/exp_linear_gmm_ohe.py
index 6539024..99f47ab 100644
--- a/experiments/exp_linear_gmm_ohe.py
+++ b/experiments/exp_linear_gmm_ohe.py
@@ -310,7 +310,7 @@ class ExperimentsLinearGMMOhe:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             return rg_data
 
         if len(S_cu) != self.d:
@@ -339,7 +339,7 @@ class ExperimentsLinearGMMOhe:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
 
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
@@ -449,7 +449,7 @@ class ExperimentsLinearGMMOhe:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             return rg_data
 
         if len(S_cu) != self.d:
@@ -481,7 +481,7 @@ class ExperimentsLinearGMMOhe:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
 
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
@@ -579,7 +579,7 @@ class ExperimentsLinearGMMOhe:
             for val_id in S:
                 rg_data[str(val_id)] = get_given_data(val_id)
 
-            rg_data = rg_data[sorted(rg_data.columns)]
+            rg_data = rg_data[sorted(rg_data.columns, key=int)]
             y_pred = self.linear_gmm_batch(np.array(rg_data.values, dtype=np.float32))
 
         else:
@@ -737,7 +737,7 @@ class ExperimentsLinearGMMOhe:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
                 y_pred = tree.predict(np.array(rg_data.values, dtype=np.float32))
 
             else:
diff --git a/experiments/exp_syn.py b/experiments/exp_syn.py
index 38fd475..a16afbd 100644
--- a/experiments/exp_syn.py
+++ b/experiments/exp_syn.py
@@ -307,7 +307,7 @@ class ExperimentsLinear:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
                 y_pred = tree.predict(np.array(rg_data.values, dtype=np.float32))
 
             else:
diff --git a/experiments/shap_linear.py b/experiments/shap_linear.py
index 031b999..39d2e07 100644
--- a/experiments/shap_linear.py
+++ b/experiments/shap_linear.py
@@ -285,7 +285,7 @@ class ExperimentsLinear:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
                 y_pred = tree.predict(np.array(rg_data.values, dtype=np.float32))
 
             else:
@@ -306,7 +306,7 @@ class ExperimentsLinear:
                 for val_id in S:
                     rg_data[str(val_id)] = get_given_data(val_id)
 
-                rg_data = rg_data[sorted(rg_data.columns)]
+                rg_data = rg_data[sorted(rg_data.columns, key=int)]
                 y_pred = tree.predict(np.array(rg_data.values, dtype=np.float32))
 
             else:
diff --git a/experiments/utils.py b/experiments/utils.py
index 9148d7b..3126278 100644
--- a/experiments/utils.py
+++ b/experiments/utils.py
@@ -268,7 +268,7 @@ def gen_data_by_cat(x_in, cat_va, prob, N, S, S_bar):
     for val_id in S:
         rg_data[str(val_id)] = get_given_data(val_id)
 
-    rg_data = rg_data[sorted(rg_data.columns)]
+    rg_data = rg_data[sorted(rg_data.columns, key=int)]
     return rg_data
 
 
-- 
2.43.0


From 80cd1a770bd0a88c8015b5b199c742b1142fba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 62/71] fix: mixture experiments: expectations depended on the
 order of the variables listed

---
 experiments/exp_linear_gmm.py     | 26 +++++++++++++-------------
 experiments/exp_linear_gmm_ohe.py | 14 +++++++-------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index b281c03..e5aa721 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -221,7 +221,7 @@ class ExperimentsLinearGMM:
         x_in = x.copy()
         if len(S) != len(x_in):  # if not condition on all variable
 
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
             cond_exp = 0
@@ -282,7 +282,7 @@ class ExperimentsLinearGMM:
         """
 
         x_in = x.copy()
-        cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+        cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
         S_cu = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
         def get_given_data(idx):
@@ -312,7 +312,7 @@ class ExperimentsLinearGMM:
             return rg_data
 
         if len(S_cu) != self.d:
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
             S_bar = [i for i in self.index if i not in S]
 
@@ -370,7 +370,7 @@ class ExperimentsLinearGMM:
             if len(S) == len(x_in):
                 y_pred = self.linear_gmm_batch(np.expand_dims(np.array(x, dtype=np.float32), axis=0))
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = [cu for cu in self.index if cu in S]  # get numerical index
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x = np.sum(prob)
@@ -424,7 +424,7 @@ class ExperimentsLinearGMM:
         """
 
         x_in = x.copy()
-        cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+        cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
         S_cu = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
         def get_given_data(idx):
@@ -451,7 +451,7 @@ class ExperimentsLinearGMM:
             return rg_data
 
         if len(S_cu) != self.d:
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
             S_bar = [i for i in self.index if i not in S]
 
@@ -513,7 +513,7 @@ class ExperimentsLinearGMM:
             if len(S) == len(x_in):
                 y_pred = model.predict(np.expand_dims(np.array(x, dtype=np.float32), axis=0))
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = [cu for cu in self.index if cu in S]  # get numerical index
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x_y = np.sum(prob)
@@ -568,7 +568,7 @@ class ExperimentsLinearGMM:
             float: E[d(model(x), fx) | X_S = x_S]
         """
         x_in = x.copy()
-        cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+        cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
         S_cu = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
         def get_given_data(idx):
@@ -595,7 +595,7 @@ class ExperimentsLinearGMM:
             return rg_data
 
         if len(S_cu) != self.d:
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
             S_bar = [i for i in self.index if i not in S]
 
@@ -657,7 +657,7 @@ class ExperimentsLinearGMM:
             if len(S) == len(x_in):
                 y_pred = (model.predict(np.expand_dims(np.array(x, dtype=np.float32), axis=0)) - fx) ** 2
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = [cu for cu in self.index if cu in S]  # get numerical index
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x_y = np.sum(prob)
@@ -709,7 +709,7 @@ class ExperimentsLinearGMM:
         """
 
         x_in = x.copy()
-        cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+        cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
         S_cu = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
         def get_given_data(idx):
@@ -736,7 +736,7 @@ class ExperimentsLinearGMM:
             return rg_data
 
         if len(S_cu) != self.d:
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
             S_bar = [i for i in self.index if i not in S]
 
@@ -798,7 +798,7 @@ class ExperimentsLinearGMM:
                 rg_data = pd.DataFrame(rg_data,
                                        columns=[str(s) for s in self.index] + [str(ca) for ca in self.cat_index])
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = [cu for cu in self.index if cu in S]  # get numerical index
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x_y = np.sum(prob)
diff --git a/experiments/exp_linear_gmm_ohe.py b/experiments/exp_linear_gmm_ohe.py
index 99f47ab..b0e3550 100644
--- a/experiments/exp_linear_gmm_ohe.py
+++ b/experiments/exp_linear_gmm_ohe.py
@@ -229,7 +229,7 @@ class ExperimentsLinearGMMOhe:
         x_in = x.copy()
         if len(S) != len(x_in):  # if not condition on all variable
 
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
             cond_exp = 0
@@ -287,7 +287,7 @@ class ExperimentsLinearGMMOhe:
         """
 
         x_in = x.copy()
-        cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+        cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
         S_cu = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
         def get_given_data(idx):
@@ -314,7 +314,7 @@ class ExperimentsLinearGMMOhe:
             return rg_data
 
         if len(S_cu) != self.d:
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
             S_bar = [i for i in self.index if i not in S]
 
@@ -372,7 +372,7 @@ class ExperimentsLinearGMMOhe:
             if len(S) == len(x_in):
                 y_pred = self.linear_gmm_batch(np.expand_dims(np.array(x, dtype=np.float32), axis=0))
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = [cu for cu in self.index if cu in S]  # get numerical index
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x = np.sum(prob)
@@ -426,7 +426,7 @@ class ExperimentsLinearGMMOhe:
         """
 
         x_in = x.copy()
-        cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+        cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
         S_cu = [cu for cu in S if cu not in self.cat_index]  # get numerical index
 
         def get_given_data(idx):
@@ -453,7 +453,7 @@ class ExperimentsLinearGMMOhe:
             return rg_data
 
         if len(S_cu) != self.d:
-            cat_va = [ca for ca in S if ca in self.cat_index]  # get categorical index
+            cat_va = [ca for ca in self.cat_index if ca in S]  # get categorical index
             S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
             S_bar = [i for i in self.index if i not in S]
 
@@ -515,7 +515,7 @@ class ExperimentsLinearGMMOhe:
             if len(S) == len(x_in):
                 y_pred = model.predict(np.expand_dims(np.array(x, dtype=np.float32), axis=0))
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = [cu for cu in self.index if cu in S]  # get numerical index
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x_y = np.sum(prob)
-- 
2.43.0


From 9f771e94d4034f8ee9805a12915f3fb3af2ebda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 63/71] fix: mixture experiments: interventional expectations
 ignored the categorical columns

---
 experiments/exp_linear_gmm.py     | 4 ++--
 experiments/exp_linear_gmm_ohe.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index e5aa721..dd93d43 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -1055,7 +1055,7 @@ class ExperimentsLinearGMM:
             return self.cond_exp_tree_intv(tree, x, S, v, explore, get_partition, get_final_partition, data)
 
         elif algo == 'plugin_interventional':
-            S_bar = [i for i in self.index if i not in S]
+            S_bar = [i for i in range(len(x)) if i not in S]
             if S == []:
                 compatible_leaves = np.zeros(tree.node_count)
                 explore(0, compatible_leaves)
@@ -1086,7 +1086,7 @@ class ExperimentsLinearGMM:
     def cond_exp_tree_intv(self, model, x, S, v, explore, get_partition, get_final_partition, data):
         """ Compute marginal expectation of a tree_regressor """
 
-        S_bar = np.array([i for i in self.index if i not in S and type(i) != str])
+        S_bar = np.array([i for i in range(len(x)) if i not in S])
         x_in = x.copy()
 
         if len(S) != len(x_in):
diff --git a/experiments/exp_linear_gmm_ohe.py b/experiments/exp_linear_gmm_ohe.py
index b0e3550..6657cbf 100644
--- a/experiments/exp_linear_gmm_ohe.py
+++ b/experiments/exp_linear_gmm_ohe.py
@@ -756,7 +756,7 @@ class ExperimentsLinearGMMOhe:
 
     def cond_exp_tree_intv(self, model, x, S, v, explore, get_partition, get_final_partition, data):
         """ Compute marginal expectation of a tree_regressor """
-        S_bar = np.array([i for i in self.index if i not in S and type(i) != str])
+        S_bar = np.array([i for i in range(len(x)) if i not in S])
         x_in = x.copy()
 
         if len(S) != len(x_in):
-- 
2.43.0


From 8a3f2d9de05fd3d22bf6d241e3e2d3df6d8c6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 64/71] fix: OHE experiment: dummies of two entries given all
 continuous variables

---
 experiments/exp_linear_gmm_ohe.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/exp_linear_gmm_ohe.py b/experiments/exp_linear_gmm_ohe.py
index 6657cbf..e270e5d 100644
--- a/experiments/exp_linear_gmm_ohe.py
+++ b/experiments/exp_linear_gmm_ohe.py
@@ -379,11 +379,11 @@ class ExperimentsLinearGMMOhe:
                     prob = [p / p_x for p in prob]
 
                     mixture_idx = np.random.choice(list(self.pi.keys()), size=N, replace=True, p=prob)
-                    data_a = np.tile(np.concatenate([x_in[S], np.array([1, 0])], axis=0),
+                    data_a = np.tile(np.concatenate([x_in[S], self.dummy['a']], axis=0),
                                      (np.sum(mixture_idx == 'a'), 1))
-                    data_b = np.tile(np.concatenate([x_in[S], np.array([0, 1])], axis=0),
+                    data_b = np.tile(np.concatenate([x_in[S], self.dummy['b']], axis=0),
                                      (np.sum(mixture_idx == 'b'), 1))
-                    data_c = np.tile(np.concatenate([x_in[S], np.array([0, 0])], axis=0),
+                    data_c = np.tile(np.concatenate([x_in[S], self.dummy['c']], axis=0),
                                      (np.sum(mixture_idx == 'c'), 1))
                     rg_data = np.concatenate([data_a, data_b, data_c], axis=0)
 
@@ -522,11 +522,11 @@ class ExperimentsLinearGMMOhe:
                     prob = [p / p_x_y for p in prob]
 
                     mixture_idx = np.random.choice(list(self.pi.keys()), size=N, replace=True, p=prob)
-                    data_a = np.tile(np.concatenate([x_in[S], np.array([1, 0])], axis=0),
+                    data_a = np.tile(np.concatenate([x_in[S], self.dummy['a']], axis=0),
                                      (np.sum(mixture_idx == 'a'), 1))
-                    data_b = np.tile(np.concatenate([x_in[S], np.array([0, 1])], axis=0),
+                    data_b = np.tile(np.concatenate([x_in[S], self.dummy['b']], axis=0),
                                      (np.sum(mixture_idx == 'b'), 1))
-                    data_c = np.tile(np.concatenate([x_in[S], np.array([0, 0])], axis=0),
+                    data_c = np.tile(np.concatenate([x_in[S], self.dummy['c']], axis=0),
                                      (np.sum(mixture_idx == 'c'), 1))
                     rg_data = np.concatenate([data_a, data_b, data_c], axis=0)
 
-- 
2.43.0


From 0becc1eb8ca15873fd227221b70e6f67e86eab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 65/71] fix: discretized Monte Carlo: samples of one variable
 or none were reshaped wrongly

---
 experiments/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/experiments/utils.py b/experiments/utils.py
index 3126278..2f3e3ae 100644
--- a/experiments/utils.py
+++ b/experiments/utils.py
@@ -1468,9 +1468,7 @@ def marMVNDiscrete(mean, cov, set):
 def sampleMarMVNDiscrete(n, mean, cov, set):
     mean_cond, cov_cond = marMVNDiscrete(mean, cov, set)
     sample = st.multivariate_normal(mean_cond, cov_cond).rvs(n)
-    if len(set) != 0:
-        sample = np.reshape(sample, (sample.shape[0], len(set)))
-    return sample
+    return np.reshape(sample, (n, len(mean_cond)))
 
 def mc_exp_tree_discretized(X, tree, S, q_arr, q_values, C, mean, cov, N):
     d = len(C)
-- 
2.43.0


From bba06fe7038a3a9e880465c0cb9a3a31656cd778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 66/71] fix: OHE experiment: Monte Carlo given two of the three
 dummies looked them up as a whole code

---
 experiments/exp_linear_gmm_ohe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/exp_linear_gmm_ohe.py b/experiments/exp_linear_gmm_ohe.py
index e270e5d..73487d6 100644
--- a/experiments/exp_linear_gmm_ohe.py
+++ b/experiments/exp_linear_gmm_ohe.py
@@ -344,7 +344,7 @@ class ExperimentsLinearGMMOhe:
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
                     p = [1]
-                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[cat_va]))]], p, N)
+                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[self.cat_index]))]], p, N)
 
                 else:  # ==> number of categorical variable is 1
 
@@ -486,7 +486,7 @@ class ExperimentsLinearGMMOhe:
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
                     p = [1]
-                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[cat_va]))]], p, N)
+                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[self.cat_index]))]], p, N)
 
                 else:  # ==> number of categorical variable is 1
 
-- 
2.43.0


From c145e90b4e4dd0f0ae49d049fbbf24e681757bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 67/71] fix: cached normalized leaves are arrays: memory views
 could not be copied or saved

---
 acv_explainers/cyext_acv/cyext_acv_cache.pyx | 2 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index bc950de..3ca70e0 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -792,5 +792,5 @@ cpdef leaves_cache_normalized(
                                     lm_si[b, va, leaf_numb, leaf_n, counter] = lm_si[b, va, leaf_numb, leaf_n, counter] + 1
 
 
-    return lm_n, lm_s, lm_si
+    return np.asarray(lm_n), np.asarray(lm_s), np.asarray(lm_si)
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 7e48ca7..e75957b 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3211,7 +3211,7 @@ cpdef leaves_cache_normalized_nopa(
                                     lm_si[b, va, leaf_numb, leaf_n, counter] = lm_si[b, va, leaf_numb, leaf_n, counter] + 1
 
 
-    return lm_n, lm_s, lm_si
+    return np.asarray(lm_n), np.asarray(lm_s), np.asarray(lm_si)
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From d9b9c8a419c45c1dff1443dfa796ea696e7c44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 68/71] fix: mixture experiments: no rows were drawn given all
 continuous variables and a known category

---
 experiments/exp_linear_gmm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index dd93d43..9707b23 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -833,6 +833,10 @@ class ExperimentsLinearGMM:
                         rg_data = np.concatenate([data_1, data_2], axis=0)
                         rg_data = pd.DataFrame(rg_data, columns=[str(s) for s in self.index] + [str(ca) for ca in
                                                                                                 self.cat_index])
+                    else:
+                        rg_data = np.expand_dims(np.array(x, dtype=np.float32), axis=0)
+                        rg_data = pd.DataFrame(rg_data, columns=[str(s) for s in self.index] + [str(ca) for ca in
+                                                                                                self.cat_index])
         return rg_data
 
     def mar_exp_linear_mc(self, x, S, N):
-- 
2.43.0


From f3d0ccd7139fd4697eab0ddca712b31f6df09656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 69/71] fix: web application: rows that are not explained were
 offered

---
 acv_app/sdp_app.py | 2 +-
 acv_app/sv_app.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_app/sdp_app.py b/acv_app/sdp_app.py
index 0e29f50..a386374 100644
--- a/acv_app/sdp_app.py
+++ b/acv_app/sdp_app.py
@@ -40,7 +40,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
 
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(nb))
+        list(range(min(nb, x_test.shape[0])))
     )
 
     @st.cache(allow_output_mutation=True)
diff --git a/acv_app/sv_app.py b/acv_app/sv_app.py
index 9d80176..0f084f8 100644
--- a/acv_app/sv_app.py
+++ b/acv_app/sv_app.py
@@ -12,7 +12,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
         return acvtree.ACXplainer.shap_values(x_test.values.astype(np.double)[:100], x_train.values.astype(np.double))
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(x_test.shape[0]))
+        list(range(min(100, x_test.shape[0])))
     )
 
     col1, col2 = st.columns(2)
-- 
2.43.0


From 3797a57cf67398813a002ed3afae70663f06c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 70/71] fix: web application: a single row to explain was
 refused

---
 acv_app/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index 94ce07b..1b2a1d3 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -80,9 +80,9 @@ def main(LOAD_PATH):
     @st.cache
     def load_data():
         x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'))
-        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze()
+        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze(axis=1)
         x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'))
-        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze()
+        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze(axis=1)
         return x_train, x_test, y_train, y_test
 
     # data_load_state = st.sidebar.text('Loading data...')
-- 
2.43.0


From 4c187bd306a01ac729582f4dc67f4a4c5f53c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 71/71] fix: web application: data read back lost precision

---
 acv_app/app.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index 1b2a1d3..2e14fa5 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -79,10 +79,10 @@ def main(LOAD_PATH):
 
     @st.cache
     def load_data():
-        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'))
-        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze(axis=1)
-        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'))
-        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze(axis=1)
+        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'), float_precision='round_trip')
+        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv'), float_precision='round_trip').values.squeeze(axis=1)
+        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'), float_precision='round_trip')
+        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv'), float_precision='round_trip').values.squeeze(axis=1)
         return x_train, x_test, y_train, y_test
 
     # data_load_state = st.sidebar.text('Loading data...')
-- 
2.43.0

