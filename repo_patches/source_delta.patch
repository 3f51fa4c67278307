From 5df041d70f139393d8a06ef036b0cfb58c6d813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 01/27] fix: orient B2 entries by the stored edge direction so
 that B1 @ B2 = 0

---
 pytspl/simplicial_complex/simplicial_complex.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 89233e9..3fe19fd 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -100,20 +100,28 @@ class SimplicialComplex:
             a, b, c = triangle
             try:
                 index_a = edges.index((a, b))
+                sign_a = 1
             except ValueError:
                 index_a = edges.index((b, a))
+                sign_a = -1
             try:
                 index_b = edges.index((b, c))
+                sign_b = 1
             except ValueError:
                 index_b = edges.index((c, b))
+                sign_b = -1
             try:
                 index_c = edges.index((a, c))
+                sign_c = 1
             except ValueError:
                 index_c = edges.index((c, a))
+                sign_c = -1
 
+            # the triangle is oriented along the stored direction of its
+            # first edge, the signs of the others follow from B1 @ B2 = 0
             B2[index_a, j] = 1
-            B2[index_c, j] = -1
-            B2[index_b, j] = 1
+            B2[index_c, j] = -sign_a * sign_c
+            B2[index_b, j] = sign_a * sign_b
 
         return B2
 
-- 
2.43.0


From 5563cb44cb3f3b32ed29bf0bdab1c2f28ed34151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 02/27] fix: apply the shifting operators the requested number
 of times

---
 pytspl/simplicial_complex/simplicial_complex.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 3fe19fd..3adbeaa 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -363,12 +363,9 @@ class SimplicialComplex:
         """
         L1L = self.lower_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, l) @ f
+        # L(1, l)**steps @ f
+        for _ in range(steps):
             flow = L1L @ flow
-        else:
-            # L(1, l)**2 @ f
-            flow = L1L @ (L1L @ flow)
 
         return flow
 
@@ -388,12 +385,9 @@ class SimplicialComplex:
         """
         L1U = self.upper_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, u) @ f
+        # L(1, u)**steps @ f
+        for _ in range(steps):
             flow = L1U @ flow
-        else:
-            # L(1, u)**2 @ f
-            flow = L1U @ (L1U @ flow)
 
         return flow
 
-- 
2.43.0


From 511981cce3e10638d31544dcd2bd59378a5b4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/27] fix: return the rank 2 Hodge Laplacian instead of
 rejecting the rank

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 3adbeaa..1c84823 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -344,6 +344,8 @@ class SimplicialComplex:
             return self.lower_laplacian_matrix(
                 rank=rank
             ) + self.upper_laplacian_matrix(rank=rank)
+        elif rank == 2:
+            return self.lower_laplacian_matrix(rank=rank)
         else:
             raise ValueError("Rank must be between 0 and 2.")
 
-- 
2.43.0


From e1f5d3df20ab084c1dc853e83fab1aaa1f7bcc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 04/27] fix: pass a dense Laplacian to get_total_variance

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 1c84823..7d373de 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -484,7 +484,7 @@ class SimplicialComplex:
         Returns:
             np.ndarray: The total variance of the SC.
         """
-        laplacian_matrix = self.laplacian_matrix()
+        laplacian_matrix = self.laplacian_matrix().toarray()
         return get_total_variance(laplacian_matrix)
 
     def get_divergence(self, flow: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 7637052b6923c3046f610ea58753af38c0c7c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/27] fix: do not share mutable containers between simplicial
 complexes

---
 pytspl/simplicial_complex/scbuilder.py          |  7 +++++--
 pytspl/simplicial_complex/simplicial_complex.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index e6066a3..d19e855 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -20,10 +20,13 @@ class SCBuilder:
         self,
         nodes: list,
         edges: list,
-        node_features: dict = {},
-        edge_features: dict = {},
+        node_features: dict = None,
+        edge_features: dict = None,
     ):
         """Initialize the SCBuilder object."""
+        node_features = {} if node_features is None else node_features
+        edge_features = {} if edge_features is None else edge_features
+
         # 0-simplices - nodes
         self.nodes = nodes
         # 1-simplices - edges
diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 7d373de..587926d 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -1,5 +1,6 @@
 """Data structure for a simplicial complex."""
 
+from copy import deepcopy
 from itertools import combinations
 from typing import Hashable, Iterable
 
@@ -45,12 +46,12 @@ class SimplicialComplex:
             edge_features (dict, optional): Dict of edge features.
             Defaults to {}.
         """
-        self.nodes = nodes
-        self.edges = edges
-        self.triangles = triangles
+        self.nodes = list(nodes)
+        self.edges = list(edges)
+        self.triangles = list(triangles)
 
-        self.node_features = node_features
-        self.edge_features = edge_features
+        self.node_features = deepcopy(node_features)
+        self.edge_features = deepcopy(edge_features)
 
         self.B1 = self.edges_to_B1(edges, len(nodes))
         self.B2 = self.triangles_to_B2(triangles, edges)
-- 
2.43.0


From 5c86d4958c0b2b7c72f23c0f9046dbc7d205ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/27] fix: find distances of edges stored in either
 direction, accept zero distance

---
 pytspl/simplicial_complex/scbuilder.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index d19e855..19a0dbe 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -51,6 +51,13 @@ class SCBuilder:
         triangle_nodes = [sorted(tri) for tri in triangle_nodes]
         return triangle_nodes
 
+    def _edge_distance(self, u: int, v: int, dist_col_name: str) -> float:
+        """Return the distance of the edge between u and v, in whichever
+        direction the edge is stored."""
+        if (u, v) in self.edge_features:
+            return self.edge_features[(u, v)][dist_col_name]
+        return self.edge_features[(v, u)][dist_col_name]
+
     def triangles_dist_based(self, dist_col_name: str, epsilon: float) -> list:
         """
         Get a list of triangles in the graph that satisfy the condition:
@@ -68,15 +75,15 @@ class SCBuilder:
 
         conditional_tri = []
         for a, b, c in triangle_nodes:
+            dist_ab = self._edge_distance(a, b, dist_col_name)
+            dist_ac = self._edge_distance(a, c, dist_col_name)
+            dist_bc = self._edge_distance(b, c, dist_col_name)
+
             if (
-                self.edge_features[(a, b)][dist_col_name]
-                and self.edge_features[(b, c)][dist_col_name]
-                and self.edge_features[(a, c)][dist_col_name]
+                dist_ab is not None
+                and dist_ac is not None
+                and dist_bc is not None
             ):
-                dist_ab = self.edge_features[(a, b)][dist_col_name]
-                dist_ac = self.edge_features[(b, c)][dist_col_name]
-                dist_bc = self.edge_features[(a, c)][dist_col_name]
-
                 if (
                     dist_ab < epsilon
                     and dist_ac < epsilon
-- 
2.43.0


From 0b53960a8245d470f8b92f35856c45bda043dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 07/27] fix: reject unknown triangle conditions

---
 pytspl/simplicial_complex/scbuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index 19a0dbe..9f4de0a 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -124,11 +124,15 @@ class SCBuilder:
             if condition == "all":
                 # add all 2-simplices
                 triangles = self.triangles()
-            else:
+            elif condition == "distance":
                 # add 2-simplices based on condition
                 triangles = self.triangles_dist_based(
                     dist_col_name=dist_col_name, epsilon=dist_threshold
                 )
+            else:
+                raise ValueError(
+                    f"Invalid condition {condition}. Use 'all' or 'distance'."
+                )
 
         # create the simplicial complex
         sc = SimplicialComplex(
-- 
2.43.0


From 4cb000018c5d1184cdd739bb194aeca3082d90e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 08/27] fix: a curl eigenvalue equal to the tolerance counts as
 zero

---
 pytspl/decomposition/eigendecomposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/decomposition/eigendecomposition.py b/pytspl/decomposition/eigendecomposition.py
index fdf7b79..3bfaf1b 100644
--- a/pytspl/decomposition/eigendecomposition.py
+++ b/pytspl/decomposition/eigendecomposition.py
@@ -95,8 +95,8 @@ def get_curl_eigenpair(
     """
     eigenvectors, eigenvalues = get_eigendecomposition(upper_lap_mat)
     # get columns with non-zero eigenvalues
-    u_c = eigenvectors[:, np.where(eigenvalues >= tolerance)[0]]
-    eigenvalues = eigenvalues[np.where(eigenvalues >= tolerance)[0]]
+    u_c = eigenvectors[:, np.where(eigenvalues > tolerance)[0]]
+    eigenvalues = eigenvalues[np.where(eigenvalues > tolerance)[0]]
     return u_c, eigenvalues
 
 
-- 
2.43.0


From 59514f3365580fba04cb368f5d6e4c45df42e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/27] fix: read_csv accepts missing feature columns

---
 pytspl/io/network_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index da6b74c..3399cbe 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -163,7 +163,7 @@ def read_csv(
     edge_features = {}
     node_features = {}
 
-    if len(feature_cols) > 0:
+    if feature_cols is not None and len(feature_cols) > 0:
         for i, (from_node, to_node) in enumerate(edges):
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
-- 
2.43.0


From 81b22471b080b74fef378ceb19a16bfed9cc218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 10/27] fix: read the features of an edge from the row that
 describes it

---
 pytspl/io/network_reader.py | 43 +++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index 3399cbe..ef65b35 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -64,6 +64,31 @@ def _extract_nodes_edges(
     return nodes, edges
 
 
+def _find_edge_rows(
+    df: pd.DataFrame, src_col: str, dest_col: str, start_index_zero: bool
+) -> dict:
+    """
+    Find the first row of the network dataframe describing each edge.
+
+    Args:
+        df (pd.DataFrame): The dataframe containing the edges.
+        src_col (str): The name of the column containing the source nodes.
+        dest_col (str): The name of the column containing the destination
+        start_index_zero (bool): True, if the node ids start from 0. False,
+        if the node ids start from 1.
+
+    Returns:
+        dict: The row position of each (source, destination) pair.
+    """
+    offset = 0 if start_index_zero else 1
+
+    edge_rows = {}
+    for i, (src, dest) in enumerate(zip(df[src_col], df[dest_col])):
+        edge_rows.setdefault((int(src) - offset, int(dest) - offset), i)
+
+    return edge_rows
+
+
 def read_tntp(
     filename: str,
     src_col: str,
@@ -113,7 +138,14 @@ def read_tntp(
     edge_features = {}
     node_features = {}
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
+        edge_rows = _find_edge_rows(
+            df=df,
+            src_col=src_col,
+            dest_col=dest_col,
+            start_index_zero=start_index_zero,
+        )
+        for from_node, to_node in edges:
+            i = edge_rows[(from_node, to_node)]
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
             ].to_dict()
@@ -164,7 +196,14 @@ def read_csv(
     node_features = {}
 
     if feature_cols is not None and len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
+        edge_rows = _find_edge_rows(
+            df=df,
+            src_col=src_col,
+            dest_col=dest_col,
+            start_index_zero=start_index_zero,
+        )
+        for from_node, to_node in edges:
+            i = edge_rows[(from_node, to_node)]
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
             ].to_dict()
-- 
2.43.0


From 016a3a16ee719c1e78422315a26d9d146f9725f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 11/27] fix: resolve the triangles of B2 in the column order of
 B1

---
 pytspl/io/network_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index ef65b35..7d0eb9a 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -274,11 +274,13 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
 
         edges.append((from_node, to_node))
 
+    # the rows of B2 follow the columns of B1
+    triangles = read_B2(B2_filename, np.asarray(edges))
+
     nodes = list(range(max(nodes) + 1))
     edges.sort()
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
-    triangles = read_B2(B2_filename, np.asarray(edges))
 
     return scbuilder, triangles
 
-- 
2.43.0


From 1a12d71e2159aca223fd6013f59c05ac5dc1dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/27] fix: seed the edge distances and the layout of the
 random complex

---
 pytspl/io/sc_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/sc_generator.py b/pytspl/io/sc_generator.py
index bf3ca79..e14d648 100644
--- a/pytspl/io/sc_generator.py
+++ b/pytspl/io/sc_generator.py
@@ -26,7 +26,8 @@ def generate_random_simplicial_complex(
     # get random weights
     import random
 
-    weights = [random.random() for i in range(G.number_of_edges())]
+    rng = random.Random(seed)
+    weights = [rng.random() for i in range(G.number_of_edges())]
     # set the weights
     for i, (u, v) in enumerate(G.edges()):
         G[u][v]["distance"] = weights[i]
@@ -45,6 +46,6 @@ def generate_random_simplicial_complex(
     ).to_simplicial_complex(
         condition="distance", dist_threshold=dist_threshold
     )
-    coordinates = nx.spring_layout(G)
+    coordinates = nx.spring_layout(G, seed=seed)
 
     return sc, coordinates
-- 
2.43.0


From fb2547a4d0bb568bf636fd71197ea5a02c48ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 13/27] fix: keep the frequency_responses slot when the history
 is reset

---
 pytspl/filters/base_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 9ec2bd9..e60d2c6 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -30,6 +30,7 @@ class BaseFilter:
         self.history = {
             "filter": None,
             "f_estimated": None,
+            "frequency_responses": None,
             "extracted_component_error": None,
             "filter_error": None,
         }
-- 
2.43.0


From 3d81e81fc4583aee42ef9786ea06313850cc29d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 14/27] fix: keep separate histories for the parts of the
 grid-based general filter

---
 pytspl/filters/grid_based_filter_design.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index 0d522ed..a286528 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -165,6 +165,8 @@ class GridBasedFilterDesign(BaseFilter):
             L (int): The filter size.
             mu (float): The damping factor.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
@@ -220,6 +222,8 @@ class GridBasedFilterDesign(BaseFilter):
             steep (int, Optional): The steepness of the logistic function.
             Default is 100.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
-- 
2.43.0


From f4789b36a76f78e72a702018fab814ac3d4a52c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 15/27] fix: do not assume a zero eigenvalue when extracting a
 component

---
 pytspl/filters/ls_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index de8cccf..5ddb594 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -179,7 +179,7 @@ class LSFilterDesign(BaseFilter):
         f_true = self.get_true_signal(component=component, f=f)
 
         # filter coefficients
-        alpha = [0] + [1] * (len(eigenvals) - 1)
+        alpha = np.where(eigenvals > 0, 1, 0)
 
         # apply the filter
         H, f_estimated, frequency_responses, errors = self._apply_filter(
-- 
2.43.0


From cd0ac397e5bddfe84b5fa476fe87b57cfb3f49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 16/27] fix: regularize the curl with the upper Laplacian in
 the l2 trend filter

---
 pytspl/filters/simplicial_trend_filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 15e2e6c..1b024b4 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -207,7 +207,10 @@ class SimplicialTrendFilter(BaseFilter):
         # compute the noise variance
         power_noise, snr = self.get_power_noise(flow=flow, snr_db=snr_db)
 
-        L1l = self.sc.lower_laplacian_matrix(rank=1)
+        if component == "divergence":
+            P = self.sc.lower_laplacian_matrix(rank=1)
+        else:
+            P = self.sc.upper_laplacian_matrix(rank=1)
         num_edges = len(self.sc.edges)
         # identity matrix
         I = np.eye(num_edges)
@@ -232,7 +235,7 @@ class SimplicialTrendFilter(BaseFilter):
                 errors_noisy[i, j] = self.calculate_error_NRMSE(f_noisy, flow)
 
                 # compute the filter
-                H = np.linalg.inv(I + mu * L1l)
+                H = np.linalg.inv(I + mu * P)
                 frequency_responses[:, i, j] = H @ f_noisy
 
                 # compute the error
-- 
2.43.0


From 484c8f5e80d12f90cbcc219dff3d273b3b332ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 17/27] fix: reject unknown components of the trend filter
 shift operator

---
 pytspl/filters/simplicial_trend_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 1b024b4..ea0d202 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -133,6 +133,11 @@ class SimplicialTrendFilter(BaseFilter):
                 "The STF order must be greater than or equal to 0."
             )
 
+        if component not in self.components.keys():
+            raise ValueError(
+                "Invalid component. Choose between 'divergence' and 'curl'."
+            )
+
         # divergence
         if component == "divergence":
             B1 = self.sc.incidence_matrix(rank=1)
-- 
2.43.0


From 6f96c7c6fda37d58382e7594a78a66f8718c747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 18/27] fix: report an untrained model with the documented
 ValueError

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index edabcd7..ce55847 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -32,6 +32,9 @@ class HodgeGPTrainer:
 
         self.output_device = torch.device(output_device)
 
+        # set once the model is trained
+        self.model = None
+
     def get_laplacians(self) -> list:
         """
         Return the Laplacian matrices as a list of tensors.
-- 
2.43.0


From 4f26c444d2adda665b789939f808d7e90581a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 19/27] fix: train the model in training mode

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index ce55847..614a69a 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -247,6 +247,10 @@ class HodgeGPTrainer:
             optimizer (_type_, optional): The optimizer. Defaults to
             torch.optim.Adam.
         """
+        # a previous prediction leaves the model in evaluation mode
+        model.train()
+        likelihood.train()
+
         # Use the adam optimizer
         optimizer = optimizer(model.parameters(), lr=learning_rate)
         # Includes GaussianLikelihood parameters
-- 
2.43.0


From d29728b3545ba678e66332b8e5d132e066d4e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 20/27] fix: reject kernels that are not implemented for the
 dataset

---
 pytspl/hogde_gp/kernel_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/kernel_serializer.py b/pytspl/hogde_gp/kernel_serializer.py
index 3f695da..0755a02 100644
--- a/pytspl/hogde_gp/kernel_serializer.py
+++ b/pytspl/hogde_gp/kernel_serializer.py
@@ -53,6 +53,10 @@ class KernelSerializer:
 
         if data_name == "forex":
             kernels = Kernels.get_forex_kernels()
+            if kernel_type not in kernels:
+                raise ValueError(
+                    f"Invalid kernel type. Choose from {list(kernels)}"
+                )
             kernel = kernels[kernel_type]
             return kernel
         else:
-- 
2.43.0


From e9efd7ecbfba13224cc86626f2c6b61dbf97087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 21/27] fix: evaluate the kernels on a single input

---
 pytspl/hogde_gp/forex/diffusion.py        | 6 +++---
 pytspl/hogde_gp/forex/diffusion_non_hc.py | 6 +++---
 pytspl/hogde_gp/forex/laplacian.py        | 6 +++---
 pytspl/hogde_gp/forex/matern.py           | 6 +++---
 pytspl/hogde_gp/forex/matern_non_hc.py    | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pytspl/hogde_gp/forex/diffusion.py b/pytspl/hogde_gp/forex/diffusion.py
index 529d649..abf2895 100644
--- a/pytspl/hogde_gp/forex/diffusion.py
+++ b/pytspl/hogde_gp/forex/diffusion.py
@@ -134,12 +134,12 @@ class DiffusionKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
-        x1, x2 = x1.long(), x2.long()
-        x1 = x1.squeeze(-1)
-        x2 = x2.squeeze(-1)
         # compute the kernel matrix
         if x2 is None:
             x2 = x1
+        x1, x2 = x1.long(), x2.long()
+        x1 = x1.squeeze(-1)
+        x2 = x2.squeeze(-1)
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/diffusion_non_hc.py b/pytspl/hogde_gp/forex/diffusion_non_hc.py
index 6c6e8df..4efb414 100644
--- a/pytspl/hogde_gp/forex/diffusion_non_hc.py
+++ b/pytspl/hogde_gp/forex/diffusion_non_hc.py
@@ -141,12 +141,12 @@ class DiffusionNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
-        x1, x2 = x1.long(), x2.long()
-        x1 = x1.squeeze(-1)
-        x2 = x2.squeeze(-1)
         # compute the kernel matrix
         if x2 is None:
             x2 = x1
+        x1, x2 = x1.long(), x2.long()
+        x1 = x1.squeeze(-1)
+        x2 = x2.squeeze(-1)
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/laplacian.py b/pytspl/hogde_gp/forex/laplacian.py
index 6733910..7e6f2cd 100644
--- a/pytspl/hogde_gp/forex/laplacian.py
+++ b/pytspl/hogde_gp/forex/laplacian.py
@@ -96,12 +96,12 @@ class LaplacianKernelForex(Kernel):
         return self._eval_covar_matrix()
 
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
-        x1, x2 = x1.long(), x2.long()
-        x1 = x1.squeeze(-1)
-        x2 = x2.squeeze(-1)
         # compute the kernel matrix
         if x2 is None:
             x2 = x1
+        x1, x2 = x1.long(), x2.long()
+        x1 = x1.squeeze(-1)
+        x2 = x2.squeeze(-1)
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern.py b/pytspl/hogde_gp/forex/matern.py
index 7c1bea4..100a224 100644
--- a/pytspl/hogde_gp/forex/matern.py
+++ b/pytspl/hogde_gp/forex/matern.py
@@ -214,12 +214,12 @@ class MaternKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
-        x1, x2 = x1.long(), x2.long()
-        x1 = x1.squeeze(-1)
-        x2 = x2.squeeze(-1)
         # compute the kernel matrix
         if x2 is None:
             x2 = x1
+        x1, x2 = x1.long(), x2.long()
+        x1 = x1.squeeze(-1)
+        x2 = x2.squeeze(-1)
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern_non_hc.py b/pytspl/hogde_gp/forex/matern_non_hc.py
index ceba00d..2735bc0 100644
--- a/pytspl/hogde_gp/forex/matern_non_hc.py
+++ b/pytspl/hogde_gp/forex/matern_non_hc.py
@@ -221,12 +221,12 @@ class MaternNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
-        x1, x2 = x1.long(), x2.long()
-        x1 = x1.squeeze(-1)
-        x2 = x2.squeeze(-1)
         # compute the kernel matrix
         if x2 is None:
             x2 = x1
+        x1, x2 = x1.long(), x2.long()
+        x1 = x1.squeeze(-1)
+        x2 = x2.squeeze(-1)
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
-- 
2.43.0


From 45fc8843d05c112f31117cb89a58ef72b95f7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 22/27] fix: draw the node labels on the given axes

---
 pytspl/plot/plot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 6aa13fb..79990d4 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -183,6 +183,7 @@ class SCPlot:
                 font_weight=font_weight,
                 font_color=font_color,
                 alpha=alpha,
+                ax=ax,
             )
 
         node_collection.set_zorder(2)
@@ -193,6 +194,7 @@ class SCPlot:
         font_color: str = "k",
         font_weight: str = "normal",
         alpha=None,
+        ax=None,
     ) -> None:
         """
         Draw the labels of the nodes.
@@ -206,10 +208,15 @@ class SCPlot:
             Defaults to 'normal'.
             alpha (float, optional): The transparency of the node labels.
             Defaults to None.
+            ax (matplotlib.axes.Axes, optional): The axes object.
+            Defaults to None.
         """
+        if ax is None:
+            ax = plt.gca()
+
         for node_id in self.sc.nodes:
             (x, y) = self.pos[node_id]
-            plt.text(
+            ax.text(
                 x,
                 y,
                 node_id,
-- 
2.43.0


From 9dca90957ce37e5f6b057461ba35dacc61a0fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 23/27] fix: colour the nodes with the colormap shown in the
 colorbar

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 79990d4..52606de 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -166,6 +166,7 @@ class SCPlot:
             s=node_size,
             c=node_color,
             edgecolors=node_edge_colors,
+            cmap=cmap,
             vmin=vmin,
             vmax=vmax,
             alpha=alpha,
-- 
2.43.0


From 40d4aefd76101bdc35d550d8f2d4cc70c571a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 24/27] fix: lay out nodes that have no edge

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 52606de..46f8372 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -47,6 +47,7 @@ class SCPlot:
         if self.pos is None:
             # use spring layout if no coordinates are provided
             G = nx.Graph()
+            G.add_nodes_from(self.sc.nodes)
             G.add_edges_from(self.sc.edges)
             layout = nx.spring_layout(G)
             self.pos = layout
-- 
2.43.0


From 5f7dc6b412cc2974ab84afbf0264351c3f27e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 25/27] fix: draw the eigenvectors on a new figure, not over
 figure 1

---
 pytspl/plot/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 46f8372..2c765ba 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -736,11 +736,11 @@ class SCPlot:
         # adjust the figure size to fit all the plots
         if num_rows > 1:
             new_figsize = (figsize[0], figsize[1] * num_rows)
-            fig = plt.figure(1, figsize=new_figsize)
+            fig = plt.figure(figsize=new_figsize)
         else:
             if num_cols != 1:
                 figsize = ((figsize[0] / viz_per_row) * num_cols, figsize[1])
-            fig = plt.figure(1, figsize=figsize)
+            fig = plt.figure(figsize=figsize)
 
         for i, eig_vec in enumerate(eigenvector_indices):
 
-- 
2.43.0


From 1462245633893954b3e5d6842aead5dac4e9e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 26/27] fix: net flow skipped edges whose one-based pair equals
 an earlier zero-based pair

---
 pytspl/io/data_loaders/transportation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/io/data_loaders/transportation_loader.py b/pytspl/io/data_loaders/transportation_loader.py
index 35cec5d..1e80733 100644
--- a/pytspl/io/data_loaders/transportation_loader.py
+++ b/pytspl/io/data_loaders/transportation_loader.py
@@ -65,6 +65,7 @@ def load_flow_transportation(dataset: str, edges: list) -> pd.DataFrame:
             target += 1
 
             if (source, target) not in visited_nodes:
+                visited_nodes.add((source, target))
                 # get the flow volume in the positive direction
                 flow_pos = df_flow[
                     (df_flow["From "] == source) & (df_flow["To "] == target)
@@ -87,7 +88,6 @@ def load_flow_transportation(dataset: str, edges: list) -> pd.DataFrame:
                 target -= 1
 
                 flow_dict[(source, target)] = net_flow
-                visited_nodes.add((source, target))
 
     return flow_dict
 
-- 
2.43.0


From 3f07b3ae46cb9575aecab9156c322054a90eac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 27/27] fix: draw_network accepted edge_labels as an option and
 failed half way, after drawing nodes and edges

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 2c765ba..4d8c54d 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -556,6 +556,7 @@ class SCPlot:
 
         valid_kwargs = (node_kwargs | edge_kwargs | label_kwargs) - {
             "edge_flow",
+            "edge_labels",
             "directed",
             "with_labels",
             "ax",
-- 
2.43.0

