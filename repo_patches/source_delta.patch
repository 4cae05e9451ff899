From 988d1cee9fc4936c69a4051b1f3af230263fb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 01/66] fix: DiGraph.reverse_direction leaves stale cached
 matrices and edge list

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 645f652..683f635 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -298,6 +298,7 @@ class DiGraph(BaseGraph):
         r"""Reverse the direction of edges in directed graph.
         """
         self._raw_e_dict = {(dst, src): w for (src, dst), w in self._raw_e_dict.items()}
+        self._clear_cache()
 
     def drop_edges(self, drop_rate: float, ord: str = "uniform"):
         r"""Randomly drop edges from the directed graph. This function will return a new directed graph with non-dropped edges.
-- 
2.43.0


From 70652b339a0c477058f20f47781dc8281a7f0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 02/66] fix: matrices and degrees of a hypergraph without any
 hyperedge group raise

---
 dhg/structure/base.py                   | 4 ++++
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 80b853d..63c7453 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -921,6 +921,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_v2e") is None:
             _tmp = [self.H_v2e_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device)]
             self.cache["H_v2e"] = torch.cat(_tmp, dim=1)
         return self.cache["H_v2e"]
 
@@ -941,6 +943,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_e2v") is None:
             _tmp = [self.H_e2v_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device)]
             self.cache["H_e2v"] = torch.cat(_tmp, dim=1)
         return self.cache["H_e2v"]
 
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2390ede..c28c945 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -826,6 +826,8 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("W_e") is None:
             _tmp = [self.W_e_of_group(name)._values().clone() for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.zeros(0, device=self.device)]
             _tmp = torch.cat(_tmp, dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["W_e"] = torch.sparse_coo_tensor(
@@ -860,6 +862,8 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_v") is None:
             _tmp = [self.D_v_of_group(name)._values().clone() for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.zeros(self.num_v, device=self.device)]
             _tmp = torch.vstack(_tmp).sum(dim=0).view(-1)
             self.cache["D_v"] = torch.sparse_coo_tensor(
                 torch.arange(0, self.num_v, device=self.device).view(1, -1).repeat(2, 1),
@@ -955,6 +959,8 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_e") is None:
             _tmp = [self.D_e_of_group(name)._values().clone() for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.zeros(0, device=self.device)]
             _tmp = torch.cat(_tmp, dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["D_e"] = torch.sparse_coo_tensor(
@@ -1026,6 +1032,8 @@ class Hypergraph(BaseHypergraph):
         for name in self.group_names:
             _tmp.append(self.N_e_of_group(v_idx, name) + e_bias)
             e_bias += self.num_e_of_group(name)
+        if len(_tmp) == 0:
+            _tmp = [torch.zeros(0, dtype=torch.long, device=self.device)]
         return torch.cat(_tmp, dim=0)
 
     def N_e_of_group(self, v_idx: int, group_name: str) -> torch.Tensor:
-- 
2.43.0


From 516451e8da866749fb29327e3a0c90aa30171488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 03/66] fix: Hypergraph.clear leaves v_weight as None

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index c28c945..ce11b87 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -508,7 +508,7 @@ class Hypergraph(BaseHypergraph):
     def v_weight(self) -> List[float]:
         r"""Return the list of vertex weights.
         """
-        return self._v_weight
+        return super().v_weight
 
     @property
     def e(self) -> Tuple[List[List[int]], List[float]]:
-- 
2.43.0


From 9e5ff7350c475b85e81420307ec07fb2756e95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 04/66] fix: saving and loading a hypergraph loses its vertex
 weights

---
 dhg/structure/hypergraphs/hypergraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index ce11b87..c13e3a4 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -56,7 +56,7 @@ class Hypergraph(BaseHypergraph):
     def state_dict(self) -> Dict[str, Any]:
         r"""Get the state dict of the hypergraph.
         """
-        return {"num_v": self.num_v, "raw_groups": self._raw_groups}
+        return {"num_v": self.num_v, "raw_groups": self._raw_groups, "v_weight": self.v_weight}
 
     def save(self, file_path: Union[str, Path]):
         r"""Save the DHG's hypergraph structure a file.
@@ -171,7 +171,7 @@ class Hypergraph(BaseHypergraph):
         Args:
             ``state_dict`` (``dict``): The state dict to load the hypergraph.
         """
-        _hg = Hypergraph(state_dict["num_v"])
+        _hg = Hypergraph(state_dict["num_v"], v_weight=deepcopy(state_dict.get("v_weight")))
         _hg._raw_groups = deepcopy(state_dict["raw_groups"])
         return _hg
 
-- 
2.43.0


From 0e246a57096fc4fdcf90b41edbf0a7ee1b64ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 05/66] fix: Hypergraph.clone loses the vertex weights

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index c13e3a4..3757cc2 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -148,7 +148,7 @@ class Hypergraph(BaseHypergraph):
     def clone(self) -> "Hypergraph":
         r"""Return a copy of the hypergraph.
         """
-        hg = Hypergraph(self.num_v, device=self.device)
+        hg = Hypergraph(self.num_v, v_weight=deepcopy(self.v_weight), device=self.device)
         hg._raw_groups = deepcopy(self._raw_groups)
         hg.cache = deepcopy(self.cache)
         hg.group_cache = deepcopy(self.group_cache)
-- 
2.43.0


From e6defd92bc941a94b3c8458906ede8f0b99b01c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 06/66] fix: dropping hyperedges loses the vertex weights

---
 dhg/structure/hypergraphs/hypergraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 3757cc2..147300e 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -462,6 +462,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self.v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
@@ -489,6 +490,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self.v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
-- 
2.43.0


From 368015c7de0c3f8e2edc0bb173b1467d25979950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 07/66] fix: hypergraph edits rewrite the caller's hyperedge
 list and keep its vertex weight list

---
 dhg/structure/base.py                   | 4 +---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 63c7453..530cdcd 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -499,9 +499,7 @@ class BaseHypergraph:
             pass
         else:
             raise TypeError("e_list must be List[int] or List[List[int]].")
-        for _idx in range(len(e_list)):
-            e_list[_idx] = tuple(sorted(e_list[_idx]))
-        return e_list
+        return [tuple(sorted(e)) for e in e_list]
 
     @staticmethod
     def _format_e_list_and_w_on_them(
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 147300e..29e5742 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -42,7 +42,7 @@ class Hypergraph(BaseHypergraph):
             self._v_weight = [1.0] * self.num_v
         else:
             assert len(v_weight) == self.num_v, "The length of vertex weight is not equal to the number of vertices."
-            self._v_weight = v_weight
+            self._v_weight = list(v_weight)
         # init hyperedges
         if e_list is not None:
             self.add_hyperedges(e_list, e_weight, merge_op=merge_op)
-- 
2.43.0


From dd6fb5fbb471cc2503bdda4f0fe0fd1dace4299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 08/66] fix: missing comma fuses two names in
 Hypergraph.vars_for_DL

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 29e5742..1cc6cb9 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -674,7 +674,7 @@ class Hypergraph(BaseHypergraph):
             "D_e_neg_1",
             "v2e_src",
             "v2e_dst",
-            "v2e_weight" "e2v_src",
+            "v2e_weight", "e2v_src",
             "e2v_dst",
             "e2v_weight",
         ]
-- 
2.43.0


From 799567610158c8842a492646ea1f6b3d47126f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 09/66] fix: mean aggregation with caller weights multiplies by
 the total weight instead of dividing

---
 dhg/structure/graphs/bipartite_graph.py | 4 ++--
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7c81f53..0a742ed 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -681,7 +681,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -734,7 +734,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 683f635..d710c41 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -585,7 +585,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -627,7 +627,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 82fb6e4..335db08 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -692,7 +692,7 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 1cc6cb9..1458ae6 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1293,7 +1293,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1357,7 +1357,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1492,7 +1492,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1556,7 +1556,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From 1377d7db5fb5c88e7190b41288546bab9b1c4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 10/66] fix: Graph.v2v softmax_then_sum without edge weights
 raises

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 335db08..ae818cf 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -677,7 +677,7 @@ class Graph(BaseGraph):
             elif aggr == "sum":
                 X = torch.sparse.mm(P, X)
             elif aggr == "softmax_then_sum":
-                P = torch.sparse.mm(P, dim=1)
+                P = torch.sparse.softmax(P, dim=1)
                 X = torch.sparse.mm(P, X)
             else:
                 pass
-- 
2.43.0


From 95d5f56ff42f0c1ffcfd58a839fba4044e6aa417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 11/66] fix: integer edge weights make degree inverses and
 propagation raise

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 2 +-
 dhg/structure/graphs/graph.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 0a742ed..26da4e1 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -488,7 +488,7 @@ class BiGraph(BaseGraph):
                 e_list, e_weight = self.e
                 self.cache["B"] = torch.sparse_coo_tensor(
                     indices=torch.tensor(e_list).t(),
-                    values=torch.tensor(e_weight),
+                    values=torch.tensor(e_weight, dtype=torch.float),
                     size=(self.num_u, self.num_v),
                     device=self.device,
                 ).coalesce()
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index d710c41..29a2c68 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -423,7 +423,7 @@ class DiGraph(BaseGraph):
                 e_list, e_weight = self.e
                 self.cache["A"] = torch.sparse_coo_tensor(
                     indices=torch.tensor(e_list).t(),
-                    values=torch.tensor(e_weight),
+                    values=torch.tensor(e_weight, dtype=torch.float),
                     size=(self.num_v, self.num_v),
                     device=self.device,
                 ).coalesce()
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index ae818cf..1de1b4d 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -476,7 +476,7 @@ class Graph(BaseGraph):
                 e_list, e_weight = self.e_both_side
                 self.cache["A"] = torch.sparse_coo_tensor(
                     indices=torch.tensor(e_list).t(),
-                    values=torch.tensor(e_weight),
+                    values=torch.tensor(e_weight, dtype=torch.float),
                     size=(self.num_v, self.num_v),
                     device=self.device,
                 ).coalesce()
-- 
2.43.0


From 056e5f7d09bacd05fac49a060d2ddce56cd222ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 12/66] fix: graphs silently drop edges when the weight list
 has another length

---
 dhg/structure/base.py                   | 1 +
 dhg/structure/graphs/bipartite_graph.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 530cdcd..a59b466 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -137,6 +137,7 @@ class BaseGraph:
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 26da4e1..6a81f42 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -202,6 +202,7 @@ class BiGraph(BaseGraph):
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
-- 
2.43.0


From a5de773fd699380bf6f2d53f670305380e2f8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 13/66] fix: graphs accept negative vertex indices

---
 dhg/structure/base.py                   | 1 +
 dhg/structure/graphs/bipartite_graph.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index a59b466..bad093d 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -134,6 +134,7 @@ class BaseGraph:
             if e_weight is not None:
                 e_weight = [e_weight]
         assert np.array(e_list).max() < self._num_v, "Vertex index out of range"
+        assert np.array(e_list).min() >= 0, "Vertex index out of range"
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 6a81f42..e262866 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -199,6 +199,7 @@ class BiGraph(BaseGraph):
         e_array = np.array(e_list)
         assert e_array[:, 0].max() < self.num_u, "The u_idx in e_list is out of range."
         assert e_array[:, 1].max() < self.num_v, "The v_idx in e_list is out of range."
+        assert e_array.min() >= 0, "The u_idx or v_idx in e_list is out of range."
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
-- 
2.43.0


From 5d5dc52d93f087b9e3dd0901c2e0068a56ba0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 14/66] fix: Hypergraph.add_hyperedges applies half an edit
 before refusing the merge operation

---
 dhg/structure/hypergraphs/hypergraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 1458ae6..f4477c7 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -342,6 +342,7 @@ class Hypergraph(BaseHypergraph):
         else:
             raise TypeError(f"The type of e_weight should be float or list, but got {type(e_weight)}")
         assert len(e_list) == len(e_weight), "The number of hyperedges and the number of weights are not equal."
+        assert merge_op in ["mean", "sum", "max"], "Hyperedge merge operation must be one of ['mean', 'sum', 'max']"
 
         for _idx in range(len(e_list)):
             self._add_hyperedge(
-- 
2.43.0


From 1ffe7e75178e5a9628bcd14252d6fe7e0e723ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 15/66] fix: drop_hyperedges_of_group silently accepts an
 unknown group

---
 dhg/structure/hypergraphs/hypergraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index f4477c7..e98bb64 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -479,6 +479,9 @@ class Hypergraph(BaseHypergraph):
             ``drop_rate`` (``float``): The drop rate of hyperedges.
             ``ord`` (``str``): The order of dropping edges. Currently, only ``'uniform'`` is supported. Defaults to ``uniform``.
         """
+        assert (
+            group_name in self.group_names
+        ), f"The specified {group_name} is not in existing hyperedge groups."
         if ord == "uniform":
             _raw_groups = {}
             for name in self.group_names:
-- 
2.43.0


From 6b4f623e3bb3041738bbc7fd329315c96841a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 16/66] fix: a hyperedge that names a vertex twice is not
 treated as a set of vertices

---
 dhg/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index bad093d..463071e 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -494,14 +494,14 @@ class BaseHypergraph:
             ``e_list`` (``List[int]`` or ``List[List[int]]``): The hyperedge list.
         """
         if len(e_list) > 0 and type(e_list[0]) in (int, float):
-            return [tuple(sorted(e_list))]
+            return [tuple(sorted(set(e_list)))]
         elif type(e_list) == tuple:
             e_list = list(e_list)
         elif type(e_list) == list:
             pass
         else:
             raise TypeError("e_list must be List[int] or List[List[int]].")
-        return [tuple(sorted(e)) for e in e_list]
+        return [tuple(sorted(set(e))) for e in e_list]
 
     @staticmethod
     def _format_e_list_and_w_on_them(
-- 
2.43.0


From 0763b00846f318af3aeebb43b8913d51d9416299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 17/66] fix: Graph.from_hypergraph_clique ignores miu

---
 dhg/structure/graphs/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 1de1b4d..69536f8 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -243,7 +243,6 @@ class Graph(BaseGraph):
             ``device`` (``torch.device``): The device to store the graph. Defaults to ``torch.device("cpu")``.
         """
         num_v = hypergraph.num_v
-        miu = 1.0
         adj = miu * hypergraph.H.mm(hypergraph.H_T).coalesce().cpu().clone()
         src_idx, dst_idx = adj._indices()
         edge_mask = src_idx < dst_idx
-- 
2.43.0


From a92a7950a84957ef3061a38a731305b42ef6c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 18/66] fix: HyperGCN expansion with mediators leaves out the
 edge between the two extreme vertices

---
 dhg/structure/graphs/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 69536f8..2958af0 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -285,6 +285,8 @@ class Graph(BaseGraph):
                 new_e_weight.append(1.0 / num_v_in_e)
             else:
                 w = 1.0 / (2 * num_v_in_e - 3)
+                new_e_list.append([e[v_a_idx], e[v_b_idx]])
+                new_e_weight.append(w)
                 for mid_v_idx in range(num_v_in_e):
                     if mid_v_idx != v_a_idx and mid_v_idx != v_b_idx:
                         new_e_list.append([e[v_a_idx], e[mid_v_idx]])
-- 
2.43.0


From af2cb003ce32d5f027560a80a0abbe7c26536438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 19/66] fix: HyperGCN expansion of a hypergraph without
 hyperedges raises

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 2958af0..6c25352 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -295,7 +295,7 @@ class Graph(BaseGraph):
                         new_e_weight.append(w)
         # remove selfloop
         if remove_selfloop:
-            new_e_list = torch.tensor(new_e_list, dtype=torch.long)
+            new_e_list = torch.tensor(new_e_list, dtype=torch.long).view(-1, 2)
             new_e_weight = torch.tensor(new_e_weight, dtype=torch.float)
             e_mask = (new_e_list[:, 0] != new_e_list[:, 1]).bool()
             new_e_list = new_e_list[e_mask].numpy().tolist()
-- 
2.43.0


From 7670d902103e471f6d0cb15436f7473754e6d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 20/66] fix: kNN hyperedges may miss their center vertex

---
 dhg/structure/hypergraphs/hypergraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index e98bb64..0221ccc 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -187,7 +187,10 @@ class Hypergraph(BaseHypergraph):
         assert (
             k <= features.shape[0]
         ), "The number of nearest neighbors should be less than or equal to the number of vertices."
-        dist_matrix = torch.cdist(features, features)
+        # the matrix-multiplication form of cdist is too inexact to rank close vertices
+        dist_matrix = torch.cdist(features, features, compute_mode="donot_use_mm_for_euclid_dist")
+        # each hyperedge contains its center, even if other vertices have the same feature
+        dist_matrix.fill_diagonal_(-1)
         _, nbr_indices = torch.topk(dist_matrix, k, largest=False)
         return nbr_indices.tolist()
 
-- 
2.43.0


From 8dfdde1560c9c7b264e31cbde19566994286c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 21/66] fix: DiGraph.from_feature_kNN links wrong vertices when
 features repeat and fails for k=1 with the center

---
 dhg/structure/graphs/directed_graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 29a2c68..00424b7 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -230,10 +230,13 @@ class DiGraph(BaseGraph):
             find_tk = k
         else:
             find_tk = k + 1
-        nbr_dist, nbr_idx = tree.query(features, k=find_tk, p=p)
+        nbr_dist, nbr_idx = tree.query(features, k=np.arange(1, find_tk + 1), p=p)
         center_idx = np.arange(num_v).reshape(-1, 1).repeat(find_tk - 1, 1)
-        nbr_dist = nbr_dist[:, 1:]
-        nbr_idx = nbr_idx[:, 1:]
+        # the center is not always found first (or at all) when several vertices have the same feature
+        nbr_mask = nbr_idx != np.arange(num_v).reshape(-1, 1)
+        nbr_mask[nbr_mask.all(axis=1), -1] = False
+        nbr_dist = nbr_dist[nbr_mask].reshape(num_v, find_tk - 1)
+        nbr_idx = nbr_idx[nbr_mask].reshape(num_v, find_tk - 1)
         if center_as_src:
             e_list = np.concatenate([center_idx.reshape(-1, 1), nbr_idx.reshape(-1, 1)], axis=1).tolist()
         else:
-- 
2.43.0


From 00a255ba64b92e80ec3954070f22ce3fb3925fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 22/66] fix: attention layers raise on a structure with a
 single connection

---
 dhg/nn/convs/graphs/gat_conv.py         | 2 +-
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/nn/convs/graphs/gat_conv.py b/dhg/nn/convs/graphs/gat_conv.py
index 91996f6..ee584f3 100644
--- a/dhg/nn/convs/graphs/gat_conv.py
+++ b/dhg/nn/convs/graphs/gat_conv.py
@@ -48,7 +48,7 @@ class GATConv(nn.Module):
         x_for_src = self.atten_src(X)
         x_for_dst = self.atten_dst(X)
         e_atten_score = x_for_src[g.e_src] + x_for_dst[g.e_dst]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).view(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index cc67be8..e38d33a 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -136,7 +136,7 @@ class UniGATConv(nn.Module):
         # ===============================================
         alpha_e = self.atten_e(Y)
         e_atten_score = alpha_e[hg.e2v_src]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).view(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
-- 
2.43.0


From ec974f00d28031919545a01403aa4ea718325acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 23/66] fix: UniGINConv scales the neighbourhood instead of the
 vertex itself by 1 + eps

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index e38d33a..5e644be 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -272,7 +272,7 @@ class UniGINConv(nn.Module):
         """
         X = self.theta(X)
         Y = hg.v2e(X, aggr="mean")
-        X = (1 + self.eps) * hg.e2v(Y, aggr="sum") + X
+        X = (1 + self.eps) * X + hg.e2v(Y, aggr="sum")
         if not self.is_last:
             X = self.act(X)
             if self.bn is not None:
-- 
2.43.0


From e49a3da2b5fecd05509ba891689ad6a6b3a7df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 24/66] fix: graph_Gnm and digraph_Gnm refuse the complete
 graph

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 1861253..f3f236a 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -84,7 +84,7 @@ def digraph_Gnm(num_v: int, num_e: int):
     """
 
     assert num_v > 1, "num_v must be greater than 1"
-    assert num_e < num_v * (
+    assert num_e <= num_v * (
         num_v - 1
     ), "the specified num_e is larger than the possible number of edges"
 
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5977b52..b4766f6 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -74,7 +74,7 @@ def graph_Gnm(num_v: int, num_e: int):
     """
     assert num_v > 1, "num_v must be greater than 1"
     assert (
-        num_e < num_v * (num_v - 1) // 2
+        num_e <= num_v * (num_v - 1) // 2
     ), "the specified num_e is larger than the possible number of edges"
 
     v_list = list(range(num_v))
-- 
2.43.0


From 2ebff6cfe68f1a6ac8972186fe21bdfd8c20c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 25/66] fix: graph_Gnp_fast and digraph_Gnp_fast fail for
 probability 0 and 1

---
 dhg/random/graphs/directed_graph.py | 3 +++
 dhg/random/graphs/graph.py          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index f3f236a..b87f24f 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -43,6 +43,9 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob == 0 or prob == 1:
+        # the skips below are undefined at both ends
+        return digraph_Gnp(num_v, prob)
     lp = math.log(1.0 - prob)
     e_list = []
     # w -> v
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index b4766f6..5352f0f 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -44,6 +44,9 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob == 0 or prob == 1:
+        # the skips below are undefined at both ends
+        return graph_Gnp(num_v, prob)
     e_list = []
     lp = math.log(1.0 - prob)
     v, w = 1, -1
-- 
2.43.0


From 8f3de1a60344ef509a6586a0d7d1ff9d5a87fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 26/66] fix: binomial coefficient is inexact for large numbers
 and wrong for m > n

---
 dhg/utils/math.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/dhg/utils/math.py b/dhg/utils/math.py
index 955c7a0..8947bea 100644
--- a/dhg/utils/math.py
+++ b/dhg/utils/math.py
@@ -1,14 +1,7 @@
-from math import log, exp
+from math import comb
 
 
 def C(n, m):
     r""" Compute the C(n, m) function.
-        log(C(n, m)) = log(n!/(n-m)!) - log m!
-                     = log(n-m+1) + log(n-m+2) + ...
-                        - (log 1 + log 2 + ...)
     """
-    log_value = 0
-    m = min(m, n - m)
-    for i in range(1, m + 1):
-        log_value = log_value + log(n - m + i) - log(i)
-    return int(round(exp(log_value), 0))
+    return comb(n, m) if m >= 0 else 0
-- 
2.43.0


From 3f7b783d4bf1a87ec41a90cd51be1423c52ea6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 27/66] fix: hypergraph Gnm generators loop forever on
 impossible requests

---
 dhg/random/hypergraphs/hypergraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dhg/random/hypergraphs/hypergraph.py b/dhg/random/hypergraphs/hypergraph.py
index a0948b7..d59e001 100644
--- a/dhg/random/hypergraphs/hypergraph.py
+++ b/dhg/random/hypergraphs/hypergraph.py
@@ -51,6 +51,7 @@ def uniform_hypergraph_Gnm(k: int, num_v: int, num_e: int):
     assert k > 1, "k must be greater than 1"  # TODO ?
     assert num_v > 1, "num_v must be greater than 1"
     assert num_e > 0, "num_e must be greater than 0"
+    assert num_e <= C(num_v, k), "the specified num_e is larger than the possible number of hyperedges"
 
     edges = set()
     while len(edges) < num_e:
@@ -107,6 +108,8 @@ def hypergraph_Gnm(num_v: int, num_e: int, method:str="low_order_first", prob_k_
         prob_k_list = [prob_k / sum_of_prob_k_list for prob_k in prob_k_list]
     else:
         raise ValueError(f"Unknown method: {method}")
+    max_num_e = sum(C(num_v, k) for k, prob_k in zip(deg_e_list, prob_k_list) if prob_k > 0)
+    assert num_e <= max_num_e, "the specified num_e is larger than the possible number of hyperedges"
 
     edges = set()
     while len(edges) < num_e:
-- 
2.43.0


From 970bbf4fc63422517b5c6b3c2ce20800d4844d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 28/66] fix: Gnp_fast generators fail for probabilities that
 vanish next to one

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index b87f24f..cb13c1f 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -43,7 +43,7 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
-    if prob == 0 or prob == 1:
+    if 1.0 - prob in (0.0, 1.0):
         # the skips below are undefined at both ends
         return digraph_Gnp(num_v, prob)
     lp = math.log(1.0 - prob)
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5352f0f..e9e4715 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -44,7 +44,7 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
-    if prob == 0 or prob == 1:
+    if 1.0 - prob in (0.0, 1.0):
         # the skips below are undefined at both ends
         return graph_Gnp(num_v, prob)
     e_list = []
-- 
2.43.0


From 9dac85ec8489f697cbe5b62a7bbc3617c445c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 29/66] fix: vertex splits leave out classes when the labels
 are not contiguous

---
 dhg/utils/dataset_split.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 9309661..760b9bb 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -57,7 +57,7 @@ def split_by_num(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
+    classes = np.unique(v_label)
 
     train_idx, test_idx = [], []
     val_num = val_num if val_num is not None else 0
@@ -66,7 +66,7 @@ def split_by_num(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in classes:
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         random.shuffle(lbl_v_idx)
         train_idx.extend(lbl_v_idx[:train_num])
@@ -118,7 +118,7 @@ def split_by_ratio(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
+    classes = np.unique(v_label)
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
@@ -132,7 +132,7 @@ def split_by_ratio(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in classes:
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         _num = lbl_v_idx.shape[0]
         random.shuffle(lbl_v_idx)
-- 
2.43.0


From 22a5438b8086a2be238bc8382dbe5cc239398472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 30/66] fix: negative sampling loops forever for a user that
 has all items

---
 dhg/utils/dataset_wrapers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dhg/utils/dataset_wrapers.py b/dhg/utils/dataset_wrapers.py
index 095e591..abfe795 100644
--- a/dhg/utils/dataset_wrapers.py
+++ b/dhg/utils/dataset_wrapers.py
@@ -56,6 +56,9 @@ class UserItemDataset(Dataset):
         Args:
             ``user`` (``int``): The index of the specified user.
         """
+        assert (
+            len(set(self.adj_dict[user])) < self.num_items
+        ), "the user has interacted with all items"
         neg_item = random.randrange(self.num_items)
         while neg_item in self.adj_dict[user]:
             neg_item = random.randrange(self.num_items)
-- 
2.43.0


From 9de7a14e3ef154f6d2ec5807034e3566149cbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 31/66] fix: remapping an adjacency list with an isolated
 vertex or an empty line raises

---
 dhg/utils/structure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index 207d4e5..159806f 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -157,7 +157,7 @@ def remap_adj_list(
     if bipartite_graph:
         u_set, v_set = set(), set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             u_set.add(line[0])
             for v in line[1:]:
@@ -168,7 +168,7 @@ def remap_adj_list(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_list = [
-            [u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list
+            [u_map[u] for u in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list
         ]
         if ret_map:
             return adj_list, u_map, v_map
@@ -177,7 +177,7 @@ def remap_adj_list(
     else:
         v_set = set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             for v in line:
                 v_set.add(v)
@@ -210,7 +210,7 @@ def remap_adj_lists(
         u_set, v_set = set(), set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 u_set.add(line[0])
                 for v in line[1:]:
@@ -221,7 +221,7 @@ def remap_adj_lists(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_lists = [
-            [[u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list]
+            [[u_map[u] for u in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list]
             for adj_list in adj_lists
         ]
         if ret_map:
@@ -232,7 +232,7 @@ def remap_adj_lists(
         v_set = set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 for v in line:
                     v_set.add(v)
-- 
2.43.0


From 2b79eb7c8fceb2e9c91ad48427ac963c0f52fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 32/66] fix: recommender metrics raise NameError when a ratio
 is given

---
 dhg/metrics/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 6264a82..7ba826c 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -1,6 +1,7 @@
 from typing import Optional, Union, Tuple, List, Dict
 
 import torch
+import numpy as np
 
 
 from .base import BaseEvaluator
-- 
2.43.0


From 4a5f16e9d274e6056a0d305b53570afd7fd3951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 33/66] fix: precision and recall refuse a batch in which no
 sample has a relevant target

---
 dhg/metrics/recommender.py | 4 ++--
 dhg/metrics/retrieval.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 7ba826c..3761a93 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -76,7 +76,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() <= 1, "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -110,7 +110,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() <= 1, "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 5efc906..9a0bf78 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -67,7 +67,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() <= 1, "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -101,7 +101,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() <= 1, "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
-- 
2.43.0


From 3fc9639d51b095e5a826b3956e23c575c8d425d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 34/66] fix: reciprocal rank is NaN when no relevant target is
 among the top k

---
 dhg/metrics/retrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 9a0bf78..1c78a27 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -292,6 +292,8 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
 
     pred_seq = y_true[torch.argsort(y_pred, dim=-1, descending=True)][:k]
     pred_index = torch.nonzero(pred_seq).view(-1)
+    if len(pred_index) == 0:
+        return 0.0
     res = (1 / (pred_index + 1)).mean().cpu()
     return res.mean().item()
 
-- 
2.43.0


From da237f0a2f9586bb54f3275b802ea353ab6938b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 35/66] fix: average precision and PR curve of a sample without
 relevant targets are NaN or raise

---
 dhg/metrics/retrieval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 1c78a27..888f8fd 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -151,6 +151,8 @@ def ap(
 
     pred_seq = y_true[torch.argsort(y_pred, descending=True)]
     pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    if len(pred_index) == 0:
+        return 0.0
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
@@ -374,6 +376,8 @@ def _pr_curve(
 
     pred_seq = y_true[torch.argsort(y_pred, descending=True)]
     pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    if len(pred_index) == 0:
+        return [0.0] * n_points, np.linspace(0, 1, n_points).tolist()
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
-- 
2.43.0


From a840c8e7446bacd682942763fb5a583c9588913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 36/66] fix: test results of an epoch change with the next
 epoch and are empty without any batch

---
 dhg/metrics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 5dbdfa6..a467385 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -93,7 +93,7 @@ class BaseEvaluator:
         # init batch data containers
         self.validate_res = []
         self.test_res_dict = defaultdict(list)
-        self.last_validate_res, self.last_test_res = None, {}
+        self.last_validate_res, self.last_test_res = None, None
 
     @abc.abstractmethod
     def __repr__(self) -> str:
@@ -153,6 +153,7 @@ class BaseEvaluator:
         if self.test_res_dict == {} and self.last_test_res is not None:
             return self.last_test_res
         assert self.test_res_dict != {}, "No batch data added for testing."
+        self.last_test_res = {}
         for name, res_list in self.test_res_dict.items():
             if not isinstance(res_list[0], list):
                 self.last_test_res[name] = np.vstack(res_list).mean(0).squeeze().tolist()
-- 
2.43.0


From a187c397427f3e4dfd0230b5c727c64896b350d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 37/66] fix: BPR loss is infinite when the negative score is
 far above the positive

---
 dhg/nn/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/loss.py b/dhg/nn/loss.py
index 98ffd47..b231e81 100644
--- a/dhg/nn/loss.py
+++ b/dhg/nn/loss.py
@@ -26,7 +26,7 @@ class BPRLoss(nn.Module):
             ``neg_scores`` (``torch.Tensor``): The negative scores.
         """
         if self.activation == "sigmoid_then_log":
-            loss = -(self.alpha * pos_scores - self.beta * neg_scores).sigmoid().log()
+            loss = -F.logsigmoid(self.alpha * pos_scores - self.beta * neg_scores)
         elif self.activation == "softplus":
             loss = F.softplus(self.beta * neg_scores - self.alpha * pos_scores)
         else:
-- 
2.43.0


From 0908f613fd4be8adaabca799a2e4171cb9cfc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 38/66] fix: embedding regularization of odd power rewards
 negative entries

---
 dhg/nn/regularization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/regularization.py b/dhg/nn/regularization.py
index ca88bdb..9e3fd4b 100644
--- a/dhg/nn/regularization.py
+++ b/dhg/nn/regularization.py
@@ -25,5 +25,5 @@ class EmbeddingRegularization(nn.Module):
         """
         loss = 0
         for emb in embs:
-            loss += 1 / self.p * emb.pow(self.p).sum(dim=1).mean()
+            loss += 1 / self.p * emb.abs().pow(self.p).sum(dim=1).mean()
         return self.weight_decay * loss
-- 
2.43.0


From d97b1dd4b53f9c8a0fef9f03ca9e116be75a2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 39/66] fix: min_max_scaler raises ZeroDivisionError for a
 constant feature matrix

---
 dhg/datapipe/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/datapipe/normalize.py b/dhg/datapipe/normalize.py
index f8a2b4e..c3596e6 100644
--- a/dhg/datapipe/normalize.py
+++ b/dhg/datapipe/normalize.py
@@ -63,7 +63,7 @@ def min_max_scaler(X: torch.Tensor, ft_min: float, ft_max: float) -> torch.Tenso
     assert ft_min < ft_max, "The minimum value of the feature should be less than the maximum value."
     X_min, X_max = X.min().item(), X.max().item()
     X_range = X_max - X_min
-    scale_ = (ft_max - ft_min) / X_range
+    scale_ = (ft_max - ft_min) / X_range if X_range != 0 else 0.0
     min_ = ft_min - X_min * scale_
     X = X * scale_ + min_
     return X
-- 
2.43.0


From 52786ebff8bc319a33e7ede18076badbd238838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 40/66] fix: datasets with a custom data_root cannot be
 downloaded

---
 dhg/utils/download.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index b7c0f6c..8fca18e 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -68,7 +68,10 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
 
-    legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
+    try:
+        legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
+    except ValueError: # The file is stored outside of the cache (a custom `data_root`).
+        return False
     if legacy_path is None or not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
     shutil.move(legacy_path, file_path)
-- 
2.43.0


From b8caa478108618f3e75a5b467da281cf4a1bb5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 41/66] fix: experiments that minimize a score keep no model
 and fail

---
 dhg/experiments/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 211286f..160c54d 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -110,6 +110,10 @@ class BaseTask:
                 if val_res > best_score:
                     best_score = val_res
                     best_model = deepcopy(model)
+            else:
+                if val_res < best_score:
+                    best_score = val_res
+                    best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
         self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
-- 
2.43.0


From 499c8b7c3526f47ec43306058be52bd4cc48877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 42/66] fix: GraphVertexClassificationTask refuses its
 documented structure_builder

---
 dhg/experiments/graphs/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/experiments/graphs/graph.py b/dhg/experiments/graphs/graph.py
index bcfbba5..fd69014 100644
--- a/dhg/experiments/graphs/graph.py
+++ b/dhg/experiments/graphs/graph.py
@@ -31,6 +31,7 @@ class GraphVertexClassificationTask(VertexClassificationTask):
         train_builder: Callable,
         evaluator: BaseEvaluator,
         device: torch.device,
+        structure_builder: Optional[Callable] = None,
         study_name: Optional[str] = None,
         overwrite: bool = True,
     ):
@@ -41,6 +42,7 @@ class GraphVertexClassificationTask(VertexClassificationTask):
             train_builder,
             evaluator,
             device,
+            structure_builder=structure_builder,
             study_name=study_name,
             overwrite=overwrite,
         )
-- 
2.43.0


From 1ab85b36a0ad07f9962220d24352015d8843495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 43/66] fix: recommender experiments without a structure fail
 after training

---
 dhg/experiments/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 160c54d..de8751f 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -116,7 +116,8 @@ class BaseTask:
                     best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
-        self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
+        if self.data.get("structure", None) is not None:
+            self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
         return best_score
 
     def _remove_cached_data(self):
@@ -144,9 +145,11 @@ class BaseTask:
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
         self.best_model.load_state_dict(torch.load(f"{self.cache_root}/{self.study.best_trial.number}_model.pth"))
-        self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+        self.best_structure = None
+        if self.data.get("structure", None) is not None:
+            self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+            self.best_structure = self.best_structure.to(self.device)
         self.best_model = self.best_model.to(self.device)
-        self.best_structure = self.best_structure.to(self.device)
 
         self.logger.info("Best trial:")
         self.best_trial = self.study.best_trial
-- 
2.43.0


From 2f07a998d222049b76551843e72a58aa5de19c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 44/66] fix: bipartite layout attracts other vertices than the
 edges connect

---
 dhg/visualization/structure/layout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index c1c4600..b51a0c1 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -57,6 +57,8 @@ def bipartite_force_layout(
         },
         centers=centers,
     )
+    # vertices in set V come after those in set U
+    e_list = [(u, v + num_u) for u, v in e_list]
     pos = sim.simulate(pos, edge_list_to_incidence_matrix(num_v + num_u, e_list))
     # pos = (pos - np.mean(pos, axis=0)) / np.std(pos, axis=0)
     pos = (pos - pos.min(0)) / (pos.max(0) - pos.min(0)) * 0.8 + 0.1
-- 
2.43.0


From 5f4cb5f29de1e2ea7a75bdb6293848279667eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 45/66] fix: layout of a single vertex is NaN

---
 dhg/visualization/structure/layout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index b51a0c1..fd7ca34 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -28,6 +28,8 @@ def force_layout(
         centers=centers,
     )
     v_coor = sim.simulate(v_coor, edge_list_to_incidence_matrix(num_v, e_list))
+    if num_v == 1:
+        return np.full((1, 2), 0.5)
     v_coor = (v_coor - v_coor.min(0)) / (v_coor.max(0) - v_coor.min(0)) * 0.8 + 0.1
     return v_coor
 
-- 
2.43.0


From f16386f33cefd4e69c17e1b78ccb8a8610af19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 46/66] fix: self-loops are drawn at NaN coordinates

---
 dhg/visualization/structure/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index ac0af3b..77068e0 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -37,6 +37,14 @@ def draw_line_edge(
     arrow_head_width = [0.015 * w for w in e_line_width] if show_arrow else [0] * len(e_list)
 
     for eidx, e in enumerate(e_list):
+        if e[0] == e[1]:
+            # a self-loop is a circle on the top of the vertex
+            x, y = v_coor[e[0]]
+            radius = v_size[e[0]]
+            ax.add_patch(
+                Circle((x, y + 1.5 * radius), radius, fill=False, edgecolor=e_color[eidx], linewidth=e_line_width[eidx])
+            )
+            continue
         start_pos = v_coor[e[0]]
         end_pos = v_coor[e[1]]
 
-- 
2.43.0


From ed6becf828c81ee3f0def6bcd45740011d380529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 47/66] fix: outline of vertices whose circles contain one
 another fails with a math domain error

---
 dhg/visualization/structure/utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 77068e0..d9f3462 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -193,6 +193,20 @@ def hull_layout(n_v, e_list, pos, v_size, radius_increment=0.3):
             hull = ConvexHull(pos_in_edge)
             vertices_index = hull.vertices
 
+        # a circle inside another one has no part in the outline
+        outer = []
+        for i in sorted(vertices_index, key=lambda i: -vertices_radius[edge[i]]):
+            if all(vlen(pos_in_edge[i] - pos_in_edge[j]) > vertices_radius[edge[j]] - vertices_radius[edge[i]] for j in outer):
+                outer.append(i)
+        vertices_index = np.array([i for i in vertices_index if i in outer], dtype=np.int64)
+        if len(outer) == 1:
+            arc_path_for_e.append([pos[edge[outer[0]]], 0, 360, vertices_radius[edge[outer[0]]]])
+            vertices_radius[edge] += vertices_increased_radius[edge]
+            polygons_vertices_index.append(vertices_index.copy())
+            line_paths[e_idx] = line_path_for_e
+            arc_paths[e_idx] = arc_path_for_e
+            continue
+
         n_vertices = vertices_index.shape[0]
 
         vertices_index = np.append(vertices_index, vertices_index[0])  # close the loop
-- 
2.43.0


From f2d81be04405f1a254e5808be46d20ba6d5e85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 48/66] fix: the vertex line width has no effect on the drawing

---
 dhg/visualization/structure/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index d9f3462..cd15fb2 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -141,9 +141,8 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size, width in zip(v_coor.tolist(), v_label, v_size, v_line_width):
+    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
         circle = Circle(coor, size)
-        circle.lineWidth = width
         # circle.label = label
         if label != '':
             x, y = coor[0], coor[1]
@@ -152,7 +151,7 @@ def draw_vertex(
             y += offset[1]
             ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
-    p = PatchCollection(patches, facecolors=v_color, edgecolors="black")
+    p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
 
 
-- 
2.43.0


From a24544b9525489880bcfe1d79cf5e2f6fcc25305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 49/66] fix: the font size has no effect on the drawing

---
 dhg/visualization/structure/draw.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 339fbae..d76eb51 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -63,7 +63,9 @@ def draw_graph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_style(g.num_v, g.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -130,7 +132,9 @@ def draw_digraph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, _ = default_style(g.num_v, g.num_e, v_color, e_color, None)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -313,7 +317,9 @@ def draw_hypergraph(
     num_v, e_list = hg.num_v, deepcopy(hg.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_hypergraph_style(hg.num_v, hg.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_hypergraph_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
-- 
2.43.0


From a30a310547dcc3afa3cad4ae1850c1e61af7107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 50/66] fix: labels of a bipartite drawing get the sum of both
 font sizes

---
 dhg/visualization/structure/draw.py  |  2 +-
 dhg/visualization/structure/utils.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index d76eb51..9d3f4e6 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -260,7 +260,7 @@ def draw_bigraph(
         ax,
         np.vstack([u_coor, v_coor]),
         list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
-        u_font_size + v_font_size,
+        [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
         u_color + v_color,
diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index cd15fb2..ce76ae4 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -1,5 +1,5 @@
 from itertools import chain
-from typing import Optional, List, Tuple
+from typing import Optional, Union, List, Tuple
 
 import matplotlib
 import numpy as np
@@ -131,7 +131,7 @@ def draw_vertex(
     ax: matplotlib.axes.Axes,
     v_coor: List[Tuple[float, float]],
     v_label: Optional[List[str]],
-    font_size: int,
+    font_size: Union[float, list],
     font_family: str,
     v_size: list,
     v_color: list,
@@ -141,7 +141,9 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
+    if not isinstance(font_size, list):
+        font_size = [font_size] * n
+    for coor, label, size, f_size in zip(v_coor.tolist(), v_label, v_size, font_size):
         circle = Circle(coor, size)
         # circle.label = label
         if label != '':
@@ -149,7 +151,7 @@ def draw_vertex(
             offset = 0, -1.3 * size
             x += offset[0]
             y += offset[1]
-            ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
+            ax.text(x, y, label, fontsize=f_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
     p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
-- 
2.43.0


From 08f7dbb01f5a6e6f87ac6fd863478153317bcd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 51/66] fix: labels of one side of a bipartite drawing are lost
 without those of the other

---
 dhg/visualization/structure/draw.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 9d3f4e6..676482c 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -248,6 +248,11 @@ def draw_bigraph(
     )
 
     # preprocess
+    v_labels = None
+    if u_label is not None or v_label is not None:
+        u_label = [""] * num_u if u_label is None else list(u_label)
+        v_label = [""] * num_v if v_label is None else list(v_label)
+        v_labels = u_label + v_label
     e_list = [(u, v + num_u) for u, v in e_list]
     if e_style == "line":
         draw_line_edge(
@@ -259,7 +264,7 @@ def draw_bigraph(
     draw_vertex(
         ax,
         np.vstack([u_coor, v_coor]),
-        list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
+        v_labels,
         [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
-- 
2.43.0


From 4c98e04098f5fc3a4a0ca4dbc01d0dd368e8506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 52/66] fix: projection of an all-zero embedding into the
 Poincare ball raises

---
 dhg/visualization/feature/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index fa69183..0b1a920 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -156,7 +156,7 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
     assert reduce_method in ["pca", "tsne"], "reduce_method must be pca or tsne."
     # Curvature
     c = 2.0
-    embeddings = embeddings / LA.norm(embeddings, axis=1, keepdims=True)
+    embeddings = embeddings / np.clip(LA.norm(embeddings, axis=1, keepdims=True), a_min=min_norm, a_max=None)
     o = np.zeros_like(embeddings)
     embeddings = np.concatenate([o[:, 0:1], embeddings], axis=1)
     # H encoder Pre-stage
-- 
2.43.0


From 9a5750818a8839a24cd3797e75445e7be997aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 53/66] fix: projection into the Poincare ball is NaN when the
 embeddings agree in a component

---
 dhg/visualization/feature/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index 0b1a920..fdfdbfa 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -170,9 +170,7 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
         emb_low = pca.fit_transform(x_tangent)
     else:
         raise ValueError("reduce_method must be pca or tsne.")
-    x_min, x_max = np.min(emb_low, 0), np.max(emb_low, 0)
     # Normalisation
-    emb_low = (emb_low - x_min) / (x_max - x_min)
     min_max_scaler = preprocessing.MinMaxScaler(feature_range=(-2, 2))
     emb_low = min_max_scaler.fit_transform(emb_low)
     # Important step
-- 
2.43.0


From 11532f7f667673172b044480d80210dc823db703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 54/66] fix: drawn embeddings are NaN when they agree in a
 component

---
 dhg/visualization/feature/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index fdfdbfa..d720529 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -83,7 +83,8 @@ def plot_3d_embedding(embeddings: np.ndarray, label: Optional[np.ndarray] = None
 
 # normalization
 def normalize(coor):
-    return (coor - coor.min(0)) / (coor.max(0) - coor.min(0)) * 0.8 + 0.1
+    span = coor.max(0) - coor.min(0)
+    return (coor - coor.min(0)) / np.where(span == 0, 1, span) * 0.8 + 0.1
 
 
 # for poincare_ball
-- 
2.43.0


From 06e5795bcee00a13a4273a41cfa7fc5fa7fdd39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:49 +0000
Subject: [PATCH 55/66] fix: Graph.add_edges cuts an edge of three vertices to
 two instead of refusing it

---
 dhg/structure/graphs/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 6c25352..7698f6f 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -321,9 +321,10 @@ class Graph(BaseGraph):
         if len(e_list) == 0:
             return
         e_list, e_weight = self._format_edges(e_list, e_weight)
-        for e, w, in zip(e_list, e_weight):
-            e = sorted(list(e))
-            self._add_edge(e[0], e[1], w, merge_op)
+        for (src, dst), w in zip(e_list, e_weight):
+            if src > dst:
+                src, dst = dst, src
+            self._add_edge(src, dst, w, merge_op)
         self._clear_cache()
 
     def remove_edges(self, e_list: Union[List[int], List[List[int]]]):
-- 
2.43.0


From 3f3b5e57601a368bd2a2d3020a117516cc1eb0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:49 +0000
Subject: [PATCH 56/66] fix: removing an empty list of edges raises IndexError

---
 dhg/structure/base.py                   | 2 +-
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 463071e..39cd054 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -126,7 +126,7 @@ class BaseGraph:
             ``e_list`` (``List[List[int]]``): Edge list should be a list of edge with pair elements.
             ``e_weight`` (``List[float]``, optional): Edge weights for each edge. Defaults to ``None``.
         """
-        if e_list is None:
+        if e_list is None or len(e_list) == 0:
             return [], []
         # only one edge
         if isinstance(e_list[0], int) and len(e_list) == 2:
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index e262866..238b57b 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -189,7 +189,7 @@ class BiGraph(BaseGraph):
             ``e_list`` (``List[List[int]]``): Edge list should be a list of edge with pair elements.
             ``e_weight`` (``List[float]``, optional): Edge weights for each edge. Defaults to ``None``.
         """
-        if e_list is None:
+        if e_list is None or len(e_list) == 0:
             return [], []
         # only one edge
         if isinstance(e_list[0], int) and len(e_list) == 2:
-- 
2.43.0


From 5ef2b445eb36421d958d2fda1570af7c7fb23d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:49 +0000
Subject: [PATCH 57/66] fix: hypergraphs accept negative vertex indices

---
 dhg/structure/hypergraphs/hypergraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 0221ccc..2a9bcbf 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -346,6 +346,7 @@ class Hypergraph(BaseHypergraph):
             raise TypeError(f"The type of e_weight should be float or list, but got {type(e_weight)}")
         assert len(e_list) == len(e_weight), "The number of hyperedges and the number of weights are not equal."
         assert merge_op in ["mean", "sum", "max"], "Hyperedge merge operation must be one of ['mean', 'sum', 'max']"
+        assert all(v >= 0 for e in e_list for v in e), "Vertex index out of range"
 
         for _idx in range(len(e_list)):
             self._add_hyperedge(
-- 
2.43.0


From 1b0cf25d95aad9d388ec4a9545e371a9c581d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 58/66] fix: dropping messages loses the gradient by the edge
 weights

---
 dhg/utils/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/utils/sparse.py b/dhg/utils/sparse.py
index c69dfbc..1b98cee 100644
--- a/dhg/utils/sparse.py
+++ b/dhg/utils/sparse.py
@@ -19,7 +19,7 @@ def sparse_dropout(sp_mat: torch.Tensor, p: float, fill_value: float = 0.0) -> t
     fill_values = torch.logical_not(keep_mask) * fill_value
     new_sp_mat = torch.sparse_coo_tensor(
         sp_mat._indices(),
-        sp_mat._values() * keep_mask + fill_values,
+        sp_mat.values() * keep_mask + fill_values,
         size=sp_mat.size(),
         device=sp_mat.device,
         dtype=sp_mat.dtype,
-- 
2.43.0


From 53df52c623023ffc2ccf32278c437b4b34e23da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 59/66] fix: Facebook states the feature dimension of another
 dataset

---
 dhg/data/facebook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/data/facebook.py b/dhg/data/facebook.py
index 2572b78..e4282d9 100644
--- a/dhg/data/facebook.py
+++ b/dhg/data/facebook.py
@@ -35,7 +35,7 @@ class Facebook(BaseData):
             "num_classes": 4,
             "num_vertices": 22470,
             "num_edges": 85501,
-            "dim_features": 8189,
+            "dim_features": 4714,
             "features": {
                 "upon": [{"filename": "features.pkl", "md5": "046eec1b67fb5bf504eaad75e98af141"}],
                 "loader": load_from_pickle,
-- 
2.43.0


From b4e54917df72e82a8b3518d93b316d5e5a2303eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 60/66] fix: experiments raise after training when a test
 result is not a single number

---
 dhg/experiments/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index de8751f..d3d96de 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -2,6 +2,7 @@ import abc
 import time
 import shutil
 import logging
+from numbers import Real
 from pathlib import Path
 from copy import deepcopy
 from typing import Callable, Optional, Callable, Union
@@ -160,7 +161,8 @@ class BaseTask:
         test_res = self.test()
         self.logger.info(f"Final test results:")
         for key, value in test_res.items():
-            self.logger.info(f"\t{key} |-> {value:.3f}")
+            value = f"{value:.3f}" if isinstance(value, Real) else value
+            self.logger.info(f"\t{key} |-> {value}")
 
     @abc.abstractmethod
     def train(
-- 
2.43.0


From fdab74c6cb9d90df54324ef517296e5305d38934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 61/66] fix: vertex weights of a hypergraph cannot be set

---
 dhg/structure/hypergraphs/hypergraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2a9bcbf..d21d7bf 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -520,6 +520,12 @@ class Hypergraph(BaseHypergraph):
         """
         return super().v_weight
 
+    @v_weight.setter
+    def v_weight(self, v_weight: List[float]):
+        r"""Set the vertex weights of the hypergraph.
+        """
+        BaseHypergraph.v_weight.fset(self, list(v_weight))
+
     @property
     def e(self) -> Tuple[List[List[int]], List[float]]:
         r"""Return all hyperedges and weights in the hypergraph.
-- 
2.43.0


From 41d0b22eda755d272f679c635dc76da5b3cbbc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 62/66] fix: mean aggregation gives NaN gradients when all
 custom weights of a vertex are zero or dropped

---
 dhg/structure/graphs/bipartite_graph.py |  8 ++++++--
 dhg/structure/graphs/directed_graph.py  |  8 ++++++--
 dhg/structure/graphs/graph.py           |  4 +++-
 dhg/structure/hypergraphs/hypergraph.py | 16 ++++++++++++----
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 238b57b..684ea95 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -683,7 +683,9 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                D_v_neg_1 = D_v_neg_1.masked_fill(D_v_neg_1 == 0, float("inf")) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -736,7 +738,9 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                D_u_neg_1 = D_u_neg_1.masked_fill(D_u_neg_1 == 0, float("inf")) ** (-1)
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 00424b7..f2dfcce 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -588,7 +588,9 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                    D_v_in_neg_1 = D_v_in_neg_1.masked_fill(D_v_in_neg_1 == 0, float("inf")) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -630,7 +632,9 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                    D_v_in_neg_1 = D_v_in_neg_1.masked_fill(D_v_in_neg_1 == 0, float("inf")) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 7698f6f..abc972d 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -694,7 +694,9 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                D_v_neg_1 = D_v_neg_1.masked_fill(D_v_neg_1 == 0, float("inf")) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index d21d7bf..85432c6 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1307,7 +1307,9 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                D_e_neg_1 = D_e_neg_1.masked_fill(D_e_neg_1 == 0, float("inf")) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1371,7 +1373,9 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                D_e_neg_1 = D_e_neg_1.masked_fill(D_e_neg_1 == 0, float("inf")) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1506,7 +1510,9 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                D_v_neg_1 = D_v_neg_1.masked_fill(D_v_neg_1 == 0, float("inf")) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1570,7 +1576,9 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                # the inverse of inf is zero as well, and so is its gradient (that of 0 is NaN)
+                D_v_neg_1 = D_v_neg_1.masked_fill(D_v_neg_1 == 0, float("inf")) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From 6e1e6c6b4fa8f9d2c26d83f67893af61b6d0fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 63/66] fix: a hypergraph with the same hyperedge in two groups
 cannot be drawn

---
 dhg/visualization/structure/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/simulator.py b/dhg/visualization/structure/simulator.py
index 8a061d2..dabd248 100644
--- a/dhg/visualization/structure/simulator.py
+++ b/dhg/visualization/structure/simulator.py
@@ -138,10 +138,12 @@ class Simulator:
         r, c = np.diag_indices_from(dist)
         dist[r, c] = np.inf
 
-        f_scale = k / (dist ** 2)  # (m, m)
         f_dir = e_center[:, np.newaxis, :] - e_center[np.newaxis, :, :]  # (m, 1, 2) - (1, m, 2) -> (m, m, 2)
         f_dir_len = np.linalg.norm(f_dir, axis=2)  # (m, m)
         f_dir_len[r, c] = np.inf
+        # the same hyperedge in two groups: no direction to push it in
+        dist[(dist == 0) | (f_dir_len == 0)] = np.inf
+        f_scale = k / (dist ** 2)  # (m, m)
         # f_dir = f_dir / f_dir_len[:, :, np.newaxis]  # (m, m, 2)
         f_dir = safe_div(f_dir, f_dir_len[:, :, np.newaxis])  # (m, m, 2)
         f = f_scale[:, :, np.newaxis] * f_dir  # (m, m, 2)
-- 
2.43.0


From e3650d9afaa5595c983a0c28b2ddca5a56a279de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 64/66] fix: UniGCNConv gives NaN for hyperedges whose vertices
 all have degree zero

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index 5e644be..a7ea62f 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -65,6 +65,8 @@ class UniGCNConv(nn.Module):
         _Dv = hg.D_v.clone()._values()[hg.v2e_src]
         _De = _De.scatter_reduce(0, index=hg.v2e_dst, src=_Dv, reduce="sum") / _De.scatter_reduce(
             0, index=hg.v2e_dst, src=(_Dv != 0).type_as(_De), reduce="sum")
+        # hyperedges all of whose vertices have degree zero
+        _De[_De.isnan()] = 0
         _De = _De.pow(-0.5)
         _De[_De.isinf()] = 1
         Y = _De.view(-1, 1) * Y
-- 
2.43.0


From 5e3a374c50dae6498d95dfb066a62cd3f85c0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 65/66] fix: split_by_ratio refuses ratios that sum to one but
 for rounding (0.34, 0.56, 0.1)

---
 dhg/utils/dataset_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 760b9bb..58a83d6 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -122,7 +122,7 @@ def split_by_ratio(
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
-        assert train_ratio + val_ratio + test_ratio <= 1
+        assert train_ratio + val_ratio + test_ratio <= 1 + 1e-9
     else:
         assert train_ratio + val_ratio < 1
 
-- 
2.43.0


From 7b8b14882843d83b696f3ddf9cd33bc3c74bd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 66/66] fix: splits refuse the labels of a single vertex

---
 dhg/utils/dataset_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 58a83d6..e1c01d1 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -53,7 +53,7 @@ def split_by_num(
     if isinstance(v_label, torch.Tensor):
         v_label = v_label.detach().cpu().numpy()
     assert isinstance(v_label, np.ndarray)
-    v_label = v_label.squeeze().astype(int)
+    v_label = np.atleast_1d(v_label.squeeze()).astype(int)
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
@@ -114,7 +114,7 @@ def split_by_ratio(
     if isinstance(v_label, torch.Tensor):
         v_label = v_label.detach().cpu().numpy()
     assert isinstance(v_label, np.ndarray)
-    v_label = v_label.squeeze().astype(int)
+    v_label = np.atleast_1d(v_label.squeeze()).astype(int)
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-- 
2.43.0

