From 78944c367df65c4394868d01b0ac4c418930ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 01/25] fix: make the boundary of a triangle consistent with
 the stored edge directions

---
 pytspl/simplicial_complex/simplicial_complex.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 89233e9..6bb14d1 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -98,22 +98,28 @@ class SimplicialComplex:
         B2 = np.zeros((len(edges), len(triangles)))
         for j, triangle in enumerate(triangles):
             a, b, c = triangle
+            # the sign of a face follows the orientation of the stored edge
+            sign_a, sign_b, sign_c = 1, 1, 1
             try:
                 index_a = edges.index((a, b))
             except ValueError:
                 index_a = edges.index((b, a))
+                sign_a = -1
             try:
                 index_b = edges.index((b, c))
             except ValueError:
                 index_b = edges.index((c, b))
+                sign_b = -1
             try:
                 index_c = edges.index((a, c))
             except ValueError:
                 index_c = edges.index((c, a))
+                sign_c = -1
 
+            # the triangle is oriented along its first edge
             B2[index_a, j] = 1
-            B2[index_c, j] = -1
-            B2[index_b, j] = 1
+            B2[index_c, j] = -1 * sign_a * sign_c
+            B2[index_b, j] = sign_a * sign_b
 
         return B2
 
-- 
2.43.0


From 3fa378f2c73e4b3e1927b826a1e9167630467df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/25] fix: apply the shift operators as many times as
 requested

---
 pytspl/simplicial_complex/simplicial_complex.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 6bb14d1..4e8c145 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -361,12 +361,9 @@ class SimplicialComplex:
         """
         L1L = self.lower_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, l) @ f
+        # L(1, l)**steps @ f
+        for _ in range(steps):
             flow = L1L @ flow
-        else:
-            # L(1, l)**2 @ f
-            flow = L1L @ (L1L @ flow)
 
         return flow
 
@@ -386,12 +383,9 @@ class SimplicialComplex:
         """
         L1U = self.upper_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, u) @ f
+        # L(1, u)**steps @ f
+        for _ in range(steps):
             flow = L1U @ flow
-        else:
-            # L(1, u)**2 @ f
-            flow = L1U @ (L1U @ flow)
 
         return flow
 
-- 
2.43.0


From 05c7373a4e75621fcfa9e93bb6506be06173f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 03/25] fix: return the Hodge Laplacian of rank 2 as documented

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 4e8c145..502954e 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -342,6 +342,8 @@ class SimplicialComplex:
             return self.lower_laplacian_matrix(
                 rank=rank
             ) + self.upper_laplacian_matrix(rank=rank)
+        elif rank == 2:
+            return self.lower_laplacian_matrix(rank=rank)
         else:
             raise ValueError("Rank must be between 0 and 2.")
 
-- 
2.43.0


From 87dd620f652fac8a7121f243718124f0f4def54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 04/25] fix: compute the total variance from a dense Laplacian

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 502954e..9478c9e 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -482,7 +482,7 @@ class SimplicialComplex:
         Returns:
             np.ndarray: The total variance of the SC.
         """
-        laplacian_matrix = self.laplacian_matrix()
+        laplacian_matrix = self.laplacian_matrix().toarray()
         return get_total_variance(laplacian_matrix)
 
     def get_divergence(self, flow: np.ndarray) -> np.ndarray:
-- 
2.43.0


From bb5391e9e8e0e30a191fd9c47e397a0949806e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 05/25] fix: select triangles by distance for reversed edges
 and zero distances

---
 pytspl/simplicial_complex/scbuilder.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index e6066a3..c46500a 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -63,17 +63,22 @@ class SCBuilder:
         """
         triangle_nodes = self.triangles()
 
+        def get_distance(u, v) -> float:
+            # the edge can be stored in either direction
+            key = (u, v) if (u, v) in self.edge_features else (v, u)
+            return self.edge_features[key][dist_col_name]
+
         conditional_tri = []
         for a, b, c in triangle_nodes:
+            dist_ab = get_distance(a, b)
+            dist_ac = get_distance(a, c)
+            dist_bc = get_distance(b, c)
+
             if (
-                self.edge_features[(a, b)][dist_col_name]
-                and self.edge_features[(b, c)][dist_col_name]
-                and self.edge_features[(a, c)][dist_col_name]
+                dist_ab is not None
+                and dist_ac is not None
+                and dist_bc is not None
             ):
-                dist_ab = self.edge_features[(a, b)][dist_col_name]
-                dist_ac = self.edge_features[(b, c)][dist_col_name]
-                dist_bc = self.edge_features[(a, c)][dist_col_name]
-
                 if (
                     dist_ab < epsilon
                     and dist_ac < epsilon
-- 
2.43.0


From 7ab7768d57aab70cfe71e48aa396819d53d70da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 06/25] fix: read the triangles of B2 in the column order of B1

---
 pytspl/io/network_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index da6b74c..efb8ae3 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -236,10 +236,11 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
         edges.append((from_node, to_node))
 
     nodes = list(range(max(nodes) + 1))
+    # the rows of B2 follow the column order of B1
+    triangles = read_B2(B2_filename, np.asarray(edges))
     edges.sort()
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
-    triangles = read_B2(B2_filename, np.asarray(edges))
 
     return scbuilder, triangles
 
-- 
2.43.0


From e44f00323a7f9280ed5f0660b9ab8cbffdb1c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 07/25] fix: read a csv network without feature columns

---
 pytspl/io/network_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index efb8ae3..d395259 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -163,7 +163,7 @@ def read_csv(
     edge_features = {}
     node_features = {}
 
-    if len(feature_cols) > 0:
+    if feature_cols is not None and len(feature_cols) > 0:
         for i, (from_node, to_node) in enumerate(edges):
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
-- 
2.43.0


From dc1e7773f651eb0c8770111d30445742dfbf833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 08/25] fix: give each edge the features of the row that
 defines it

---
 pytspl/io/network_reader.py | 59 ++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index d395259..8c4f0dc 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -64,6 +64,41 @@ def _extract_nodes_edges(
     return nodes, edges
 
 
+def _extract_edge_features(
+    df: pd.DataFrame,
+    edges: list,
+    src_col: str,
+    dest_col: str,
+    feature_cols: list,
+    start_index_zero: bool,
+) -> dict:
+    """
+    Extract the features of each edge from the row that defines the edge.
+
+    Args:
+        df (pd.DataFrame): The dataframe containing the edges.
+        edges (list): The extracted edges.
+        src_col (str): The name of the column containing the source nodes.
+        dest_col (str): The name of the column containing the destination
+        feature_cols (list): The names of the feature columns.
+        start_index_zero (bool): True, if the node ids start from 0. False,
+        if the node ids start from 1.
+
+    Returns:
+        dict: The features of the edges (edge : features).
+    """
+    offset = 0 if start_index_zero else 1
+
+    # first row of each directed pair of nodes
+    rows = {}
+    for i, (src, dest) in enumerate(zip(df[src_col], df[dest_col])):
+        rows.setdefault((int(src) - offset, int(dest) - offset), i)
+
+    return {
+        edge: df.iloc[rows[edge]][feature_cols].to_dict() for edge in edges
+    }
+
+
 def read_tntp(
     filename: str,
     src_col: str,
@@ -113,10 +148,14 @@ def read_tntp(
     edge_features = {}
     node_features = {}
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+        edge_features = _extract_edge_features(
+            df=df,
+            edges=edges,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
@@ -164,10 +203,14 @@ def read_csv(
     node_features = {}
 
     if feature_cols is not None and len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+        edge_features = _extract_edge_features(
+            df=df,
+            edges=edges,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
-- 
2.43.0


From 7aeafcc3b2bb37d2320e7a7740b3b9162cca4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 09/25] fix: only suppress the zero eigenvalue in the LS filter
 of type two

---
 pytspl/filters/ls_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index de8cccf..62bbec8 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -179,7 +179,7 @@ class LSFilterDesign(BaseFilter):
         f_true = self.get_true_signal(component=component, f=f)
 
         # filter coefficients
-        alpha = [0] + [1] * (len(eigenvals) - 1)
+        alpha = np.where(eigenvals == 0, 0, 1)
 
         # apply the filter
         H, f_estimated, frequency_responses, errors = self._apply_filter(
-- 
2.43.0


From 8a461e1c81663613946ebe412226bf223356db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 10/25] fix: keep separate histories for the two parts of the
 grid-based general filter

---
 pytspl/filters/base_filter.py              | 1 +
 pytspl/filters/grid_based_filter_design.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 9ec2bd9..e60d2c6 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -30,6 +30,7 @@ class BaseFilter:
         self.history = {
             "filter": None,
             "f_estimated": None,
+            "frequency_responses": None,
             "extracted_component_error": None,
             "filter_error": None,
         }
diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index 0d522ed..a286528 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -165,6 +165,8 @@ class GridBasedFilterDesign(BaseFilter):
             L (int): The filter size.
             mu (float): The damping factor.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
@@ -220,6 +222,8 @@ class GridBasedFilterDesign(BaseFilter):
             steep (int, Optional): The steepness of the logistic function.
             Default is 100.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
-- 
2.43.0


From 7acc64b87f8cb690a8a2116b679aee205bf4c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 11/25] fix: design the grid and Chebyshev filters on the
 actual largest eigenvalue

---
 pytspl/filters/base_filter.py              | 13 +++++++++++++
 pytspl/filters/chebyshev_filter_design.py  |  7 ++-----
 pytspl/filters/grid_based_filter_design.py |  3 +--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index e60d2c6..6b5f17b 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -95,6 +95,19 @@ class BaseFilter:
         v = v.astype(float)
         return v
 
+    @staticmethod
+    def get_largest_eigenvalue(P: np.ndarray) -> float:
+        """
+        Calculate the largest eigenvalue of a symmetric matrix.
+
+        Args:
+            P (np.ndarray): The input matrix.
+
+        Returns:
+            float: The largest eigenvalue.
+        """
+        return np.linalg.eigvalsh(P)[-1]
+
     def get_true_signal(self, f: np.ndarray, component: str) -> np.ndarray:
         """
         Get the true signal for the component.
diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index cb0a129..1f13c3e 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -94,7 +94,7 @@ class ChebyshevFilterDesign(BaseFilter):
     def get_alpha(self, p_choice: str) -> tuple:
         """
         Calculate the alpha value for the given choice of P matrix using
-        the power iteration method.
+        its largest eigenvalue.
 
         Args:
             p_choice (str): The choice of P matrix.
@@ -103,10 +103,7 @@ class ChebyshevFilterDesign(BaseFilter):
             tuple: The alpha and lambda_max value calculated.
         """
         P = self.get_p_matrix(p_choice).toarray()
-        v = self.power_iteration(P=P)
-
-        # mean of the largest eigenvalue
-        lambda_max = np.mean((P @ v) / v)
+        lambda_max = self.get_largest_eigenvalue(P=P)
         # perform a transformation to shit the domain to [0, lambda_g_max]
         alpha = lambda_max / 2
         return alpha, lambda_max
diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index a286528..6ffca95 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -35,9 +35,8 @@ class GridBasedFilterDesign(BaseFilter):
             np.ndarray: Sampled grid points.
         """
         # Get the largest eigenvalue
-        v = self.power_iteration(P=P)
         lambda_min = 0
-        lambda_max = np.mean(P @ v / v)
+        lambda_max = self.get_largest_eigenvalue(P=P)
         return np.linspace(lambda_min, lambda_max, num_of_samples)
 
     @staticmethod
-- 
2.43.0


From 1ef764159c89e857387ae6aa406bd4df5168bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 12/25] fix: regularize the curl with the upper Laplacian in
 the l2 trend filter

---
 pytspl/filters/simplicial_trend_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 15e2e6c..db437d6 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -207,7 +207,11 @@ class SimplicialTrendFilter(BaseFilter):
         # compute the noise variance
         power_noise, snr = self.get_power_noise(flow=flow, snr_db=snr_db)
 
-        L1l = self.sc.lower_laplacian_matrix(rank=1)
+        # Laplacian matrix of the regularized component
+        if component == "divergence":
+            laplacian = self.sc.lower_laplacian_matrix(rank=1)
+        else:
+            laplacian = self.sc.upper_laplacian_matrix(rank=1)
         num_edges = len(self.sc.edges)
         # identity matrix
         I = np.eye(num_edges)
@@ -232,7 +236,7 @@ class SimplicialTrendFilter(BaseFilter):
                 errors_noisy[i, j] = self.calculate_error_NRMSE(f_noisy, flow)
 
                 # compute the filter
-                H = np.linalg.inv(I + mu * L1l)
+                H = np.linalg.inv(I + mu * laplacian)
                 frequency_responses[:, i, j] = H @ f_noisy
 
                 # compute the error
-- 
2.43.0


From 36cc29160efa02dc48d25b4513d8dadb914e5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 13/25] fix: make the random simplicial complex reproducible
 for a given seed

---
 pytspl/io/sc_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/sc_generator.py b/pytspl/io/sc_generator.py
index bf3ca79..e14d648 100644
--- a/pytspl/io/sc_generator.py
+++ b/pytspl/io/sc_generator.py
@@ -26,7 +26,8 @@ def generate_random_simplicial_complex(
     # get random weights
     import random
 
-    weights = [random.random() for i in range(G.number_of_edges())]
+    rng = random.Random(seed)
+    weights = [rng.random() for i in range(G.number_of_edges())]
     # set the weights
     for i, (u, v) in enumerate(G.edges()):
         G[u][v]["distance"] = weights[i]
@@ -45,6 +46,6 @@ def generate_random_simplicial_complex(
     ).to_simplicial_complex(
         condition="distance", dist_threshold=dist_threshold
     )
-    coordinates = nx.spring_layout(G)
+    coordinates = nx.spring_layout(G, seed=seed)
 
     return sc, coordinates
-- 
2.43.0


From 1d39b0347bdc582606d1ca43675c926f5c801cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 14/25] fix: report an untrained model with the intended
 ValueError

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index edabcd7..473443a 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -31,6 +31,8 @@ class HodgeGPTrainer:
         self.y = y
 
         self.output_device = torch.device(output_device)
+        # set once the model is trained
+        self.model = None
 
     def get_laplacians(self) -> list:
         """
-- 
2.43.0


From e9be46ccfc26a9fc7c08ab914b18a9f532ec5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 15/25] fix: reject a kernel type that is not implemented with
 a ValueError

---
 pytspl/hogde_gp/kernel_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/kernel_serializer.py b/pytspl/hogde_gp/kernel_serializer.py
index 3f695da..0755a02 100644
--- a/pytspl/hogde_gp/kernel_serializer.py
+++ b/pytspl/hogde_gp/kernel_serializer.py
@@ -53,6 +53,10 @@ class KernelSerializer:
 
         if data_name == "forex":
             kernels = Kernels.get_forex_kernels()
+            if kernel_type not in kernels:
+                raise ValueError(
+                    f"Invalid kernel type. Choose from {list(kernels)}"
+                )
             kernel = kernels[kernel_type]
             return kernel
         else:
-- 
2.43.0


From ed98ee901faa8bbf0aeaecdeb0a2aeb38d22e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 16/25] fix: place isolated nodes when no coordinates are given

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 6aa13fb..9479410 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -47,6 +47,7 @@ class SCPlot:
         if self.pos is None:
             # use spring layout if no coordinates are provided
             G = nx.Graph()
+            G.add_nodes_from(self.sc.nodes)
             G.add_edges_from(self.sc.edges)
             layout = nx.spring_layout(G)
             self.pos = layout
-- 
2.43.0


From 9dd0b089cbe9e6e51138eb526f647d575bfa6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 17/25] fix: draw the node labels on the given axes

---
 pytspl/plot/plot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 9479410..d836abd 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -184,6 +184,7 @@ class SCPlot:
                 font_weight=font_weight,
                 font_color=font_color,
                 alpha=alpha,
+                ax=ax,
             )
 
         node_collection.set_zorder(2)
@@ -194,6 +195,7 @@ class SCPlot:
         font_color: str = "k",
         font_weight: str = "normal",
         alpha=None,
+        ax=None,
     ) -> None:
         """
         Draw the labels of the nodes.
@@ -207,10 +209,15 @@ class SCPlot:
             Defaults to 'normal'.
             alpha (float, optional): The transparency of the node labels.
             Defaults to None.
+            ax (matplotlib.axes.Axes, optional): The axes object.
+            Defaults to None.
         """
+        if ax is None:
+            ax = plt.gca()
+
         for node_id in self.sc.nodes:
             (x, y) = self.pos[node_id]
-            plt.text(
+            ax.text(
                 x,
                 y,
                 node_id,
-- 
2.43.0


From bbec498ef9d8200748dc003e02e09e9a9ddfc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 18/25] fix: merge eigenvalues within the tolerance in LS type
 two extraction

---
 pytspl/filters/ls_filter_design.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index 62bbec8..2043514 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -173,7 +173,11 @@ class LSFilterDesign(BaseFilter):
         # get the unique eigenvalues
         U, eigenvals = get_eigendecomposition(lap_mat=lap_matrix.toarray())
         eigenvals = np.where(np.abs(eigenvals) < tolerance, 0, eigenvals)
-        eigenvals = np.unique(eigenvals)
+        distinct = []
+        for eigenval in np.sort(eigenvals):
+            if not distinct or eigenval - distinct[-1] > tolerance:
+                distinct.append(eigenval)
+        eigenvals = np.array(distinct)
 
         # get the true signal
         f_true = self.get_true_signal(component=component, f=f)
-- 
2.43.0


From 257f878a79601485c0d0344a0d47711434b0207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 19/25] fix: apply the Chebyshev filter to a complex with a
 single edge

---
 pytspl/filters/chebyshev_filter_design.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index 1f13c3e..bf48167 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -228,19 +228,17 @@ class ChebyshevFilterDesign(BaseFilter):
         error_tilde = np.zeros(L)
 
         for k in range(L):
-            g_cheb_approx = np.diag(
-                U_l.T @ np.squeeze(H_cheb_approx[k, :, :]) @ U_l
-            )
+            g_cheb_approx = np.diag(U_l.T @ H_cheb_approx[k, :, :] @ U_l)
             # compute the error with respect to the true component extraction
             errors_response[k] = self.calculate_error_NRMSE(
                 g_cheb_approx, h_ideal
             )
             errors_filter[k] = np.linalg.norm(
-                np.squeeze(H_cheb_approx[k, :, :]) - H_ideal, ord=2
+                H_cheb_approx[k, :, :] - H_ideal, ord=2
             )
 
             # compute the component error with respect to the true signal
-            f_cheb[k] = np.squeeze(H_cheb_approx[k, :, :]) @ f
+            f_cheb[k] = H_cheb_approx[k, :, :] @ f
             extracted_comp_error[k] = self.calculate_error_NRMSE(
                 f_cheb[k], f_true
             )
-- 
2.43.0


From c14700dfc46c5e2f283ab4d51a7a88d941a148c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 20/25] fix: color the nodes with the given color map

---
 pytspl/plot/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index d836abd..495afbf 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -158,6 +158,9 @@ class SCPlot:
             color_map.set_clim(vmin=vmin, vmax=vmax)
             fig = ax.get_figure()
             fig.colorbar(mappable=color_map, ax=ax)
+        else:
+            # a color map only applies to numeric colors
+            cmap = None
 
         nodes = self.sc.nodes
 
@@ -167,6 +170,7 @@ class SCPlot:
             s=node_size,
             c=node_color,
             edgecolors=node_edge_colors,
+            cmap=cmap,
             vmin=vmin,
             vmax=vmax,
             alpha=alpha,
-- 
2.43.0


From 8c9587291ad2b1a11dd63e334e49efa993d4bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 21/25] fix: draw the eigenvectors on a figure of their own

---
 pytspl/plot/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 495afbf..009b7b6 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -739,11 +739,11 @@ class SCPlot:
         # adjust the figure size to fit all the plots
         if num_rows > 1:
             new_figsize = (figsize[0], figsize[1] * num_rows)
-            fig = plt.figure(1, figsize=new_figsize)
+            fig = plt.figure(figsize=new_figsize)
         else:
             if num_cols != 1:
                 figsize = ((figsize[0] / viz_per_row) * num_cols, figsize[1])
-            fig = plt.figure(1, figsize=figsize)
+            fig = plt.figure(figsize=figsize)
 
         for i, eig_vec in enumerate(eigenvector_indices):
 
-- 
2.43.0


From fb0cf6f5572924a9f63745f592d3ee320c78c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 22/25] fix: draw no panel for a component without eigenvectors

---
 pytspl/plot/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 009b7b6..d12ece2 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -727,7 +727,7 @@ class SCPlot:
         # Assuming you have a total number of eigenvector_indices as num_plots
         num_plots = len(eigenvector_indices)
         # Calculate the number of columns needed
-        num_cols = min(num_plots, viz_per_row)
+        num_cols = max(1, min(num_plots, viz_per_row))
         # Calculate the number of rows needed
         num_rows = num_plots // num_cols
 
-- 
2.43.0


From 2ba27add1aa59dce17fae835f141cd7a1145237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:56 +0000
Subject: [PATCH 23/25] fix: interpolation with a ratio that leaves no edge
 observed

A ratio below one over the number of edges gives an empty sampling matrix,
which made building the constraint fail. Without observed edges there is
no constraint.
---
 pytspl/filters/simplicial_trend_filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index db437d6..ec53086 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -456,9 +456,12 @@ class SimplicialTrendFilter(BaseFilter):
                     1 * cp.norm(f_opt - f_in)
                     + regularization * cp.norm(shifted_edge_flow, p=1)
                 )
-                constraints = [
-                    sampling_matrix @ f_opt == sampling_matrix @ f_in
-                ]
+                constraints = []
+                # no edge may be labeled for small ratios
+                if M > 0:
+                    constraints = [
+                        sampling_matrix @ f_opt == sampling_matrix @ f_in
+                    ]
                 prob = cp.Problem(objective, constraints)
                 prob.solve()
 
-- 
2.43.0


From 098ca9d3fafe46dc152ccdff64754a09cc2143bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:11 +0000
Subject: [PATCH 24/25] fix: evaluate a kernel on one set of points

---
 pytspl/hogde_gp/forex/diffusion.py        | 6 +++---
 pytspl/hogde_gp/forex/diffusion_non_hc.py | 6 +++---
 pytspl/hogde_gp/forex/laplacian.py        | 6 +++---
 pytspl/hogde_gp/forex/matern.py           | 6 +++---
 pytspl/hogde_gp/forex/matern_non_hc.py    | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pytspl/hogde_gp/forex/diffusion.py b/pytspl/hogde_gp/forex/diffusion.py
index 529d649..94c211a 100644
--- a/pytspl/hogde_gp/forex/diffusion.py
+++ b/pytspl/hogde_gp/forex/diffusion.py
@@ -134,13 +134,13 @@ class DiffusionKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
+
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
-
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
         K1 = self.grad_eigvects[x1, :] * k1 @ self.grad_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/diffusion_non_hc.py b/pytspl/hogde_gp/forex/diffusion_non_hc.py
index 6c6e8df..d142a66 100644
--- a/pytspl/hogde_gp/forex/diffusion_non_hc.py
+++ b/pytspl/hogde_gp/forex/diffusion_non_hc.py
@@ -141,13 +141,13 @@ class DiffusionNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
+
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
-
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
         K1 = self.grad_eigvects[x1, :] * k1 @ self.grad_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/laplacian.py b/pytspl/hogde_gp/forex/laplacian.py
index 6733910..d3f8714 100644
--- a/pytspl/hogde_gp/forex/laplacian.py
+++ b/pytspl/hogde_gp/forex/laplacian.py
@@ -96,13 +96,13 @@ class LaplacianKernelForex(Kernel):
         return self._eval_covar_matrix()
 
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
+
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
-
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
         K1 = self.grad_eigvects[x1, :] * k1 @ self.grad_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern.py b/pytspl/hogde_gp/forex/matern.py
index 7c1bea4..43f2b6a 100644
--- a/pytspl/hogde_gp/forex/matern.py
+++ b/pytspl/hogde_gp/forex/matern.py
@@ -214,13 +214,13 @@ class MaternKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
+
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
-
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
         K1 = self.grad_eigvects[x1, :] * k1 @ self.grad_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern_non_hc.py b/pytspl/hogde_gp/forex/matern_non_hc.py
index ceba00d..c9b2bbf 100644
--- a/pytspl/hogde_gp/forex/matern_non_hc.py
+++ b/pytspl/hogde_gp/forex/matern_non_hc.py
@@ -221,13 +221,13 @@ class MaternNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
+
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
-
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
         K1 = self.grad_eigvects[x1, :] * k1 @ self.grad_eigvects[x2, :].T
-- 
2.43.0


From 5cc3e9e17162f5fdad95d78952a79bd93868ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:58 +0000
Subject: [PATCH 25/25] fix: leave eigenvalues at the tolerance out of the curl
 eigenpairs

---
 pytspl/decomposition/eigendecomposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/decomposition/eigendecomposition.py b/pytspl/decomposition/eigendecomposition.py
index fdf7b79..3bfaf1b 100644
--- a/pytspl/decomposition/eigendecomposition.py
+++ b/pytspl/decomposition/eigendecomposition.py
@@ -95,8 +95,8 @@ def get_curl_eigenpair(
     """
     eigenvectors, eigenvalues = get_eigendecomposition(upper_lap_mat)
     # get columns with non-zero eigenvalues
-    u_c = eigenvectors[:, np.where(eigenvalues >= tolerance)[0]]
-    eigenvalues = eigenvalues[np.where(eigenvalues >= tolerance)[0]]
+    u_c = eigenvectors[:, np.where(eigenvalues > tolerance)[0]]
+    eigenvalues = eigenvalues[np.where(eigenvalues > tolerance)[0]]
     return u_c, eigenvalues
 
 
-- 
2.43.0

