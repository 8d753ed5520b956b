From bb7805d5b73cc1e457270535b245a28220bebaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 01/31] fix: Meek rule 3 needs the two parents of the target to
 be non-adjacent

---
 cdmir/graph/pdag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index ea0bac7..57f342c 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -101,6 +101,8 @@ class PDAG(Graph):
                         continue
                     if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                         continue
+                    if self.is_connected(node_v, node_x):
+                        continue
                     self.remove_edge(node_u, node_w)
                     self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                     if verbose:
-- 
2.43.0


From 28fefa5a42c82dd1f56b838885ad788da8e916b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 02/31] fix: Meek rule 4 must start from a directed chain u ->
 v -> w

---
 cdmir/graph/pdag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index 57f342c..d950cc4 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -118,7 +118,7 @@ class PDAG(Graph):
             for node_v in self.nodes:
                 if node_v in [node_u, node_w]:
                     continue
-                if not (self.is_fully_undirected(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
+                if not (self.is_fully_directed(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
                     continue
                 for node_x in self.nodes:
                     if node_x in [node_u, node_v, node_w]:
-- 
2.43.0


From df2749bfd483332d09ad958ee4c81efeeb12f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 03/31] fix: pdag2dag looped forever on a PDAG without a
 consistent extension

---
 cdmir/graph/pdag2dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/pdag2dag.py b/cdmir/graph/pdag2dag.py
index a674a44..2e849fa 100644
--- a/cdmir/graph/pdag2dag.py
+++ b/cdmir/graph/pdag2dag.py
@@ -20,6 +20,7 @@ def pdag2dag(pdag: PDAG):
     pdag_p = deepcopy(pdag)
     inde = np.zeros(pdag_p.number_of_nodes(), dtype=np.dtype(int)) # index whether the ith node has been removed. 1:removed; 0: not
     while 0 in inde:
+        n_removed = inde.sum()
         for i in range(pdag_p.number_of_nodes()):
             if inde[i] == 0:
                 sign = 0
@@ -39,6 +40,8 @@ def pdag2dag(pdag: PDAG):
                         if not pdag_copy.is_connected(nodes[index], nodes[i]):
                             pdag_copy.add_edge(Edge(nodes[index], nodes[i], Mark.Tail, Mark.Arrow), overwrite=False)
                     inde[i] = 1
+        if inde.sum() == n_removed:
+            raise ValueError('The PDAG does not admit a consistent extension.')
 
     d = DiGraph(pdag_copy.node_list)
     for edge in pdag_copy.edges:
-- 
2.43.0


From cc8893c2924fd40163d2e9ef752ba751c4c8e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 04/31] fix: named data frames and positional test arguments in
 the data adapter

A DataFrame given together with var_names reached the tests unconverted, and
positional arguments after var_names (PC().fit(X, names, FisherZ)) were passed
to self.
---
 cdmir/utils/adapters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 8e5a785..fa7d4db 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -9,11 +9,12 @@ def data_form_converter_for_class_method(func):
         if var_names is None:
             if type(data) == DataFrame:
                 var_names = list(data.columns)
-                data = data.to_numpy()
             else:
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
-        return func(self=self, data=data, var_names=var_names, *args, **kwargs)
+        if type(data) == DataFrame:
+            data = data.to_numpy()
+        return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 1af8e8b422c909c4af5ee5806968980f8920b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 05/31] fix: reachability consumed a one-shot conditioning set
 and failed without one

---
 cdmir/graph/digraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/graph/digraph.py b/cdmir/graph/digraph.py
index 0aff389..0c1a891 100644
--- a/cdmir/graph/digraph.py
+++ b/cdmir/graph/digraph.py
@@ -35,6 +35,8 @@ class DiGraph(Graph):
 
         '''
 
+        z = set() if z is None else set(z)
+
         # Phase I: Insert all ancestors of z into a
         node_l_queue = deque(z)
         a = set()
-- 
2.43.0


From 5bd9a7e7032675f69d11d8681e219b5082927ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 06/31] fix: independence tests accept any iterable of ids and
 an omitted conditioning set

---
 cdmir/utils/independence/basic_independence.py | 1 +
 cdmir/utils/independence/dsep.py               | 2 +-
 cdmir/utils/independence/functional/fisherz.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/utils/independence/basic_independence.py b/cdmir/utils/independence/basic_independence.py
index c47af65..949372b 100644
--- a/cdmir/utils/independence/basic_independence.py
+++ b/cdmir/utils/independence/basic_independence.py
@@ -36,6 +36,7 @@ class ConditionalIndependentTest(object):
         return self.itest(x_id, y_id, z_ids)
 
     def itest(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
+        z_ids = None if z_ids is None else list(z_ids)
         key = _get_cache_key(x_id, y_id, z_ids)
         if self.cache.get(key):
             value = self.cache[key]
diff --git a/cdmir/utils/independence/dsep.py b/cdmir/utils/independence/dsep.py
index e1fdc1c..6c273fc 100644
--- a/cdmir/utils/independence/dsep.py
+++ b/cdmir/utils/independence/dsep.py
@@ -11,7 +11,7 @@ class Dsep(ConditionalIndependentTest):
         self.true_graph = true_graph
 
     def cal_stats(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-        zs_name = [self.var_names[z_id] for z_id in z_ids]
+        zs_name = [self.var_names[z_id] for z_id in z_ids or []]
         if self.true_graph.is_d_separate(self.var_names[x_id], self.var_names[y_id], zs_name):
             return 1.0, 1.0 #相关
         else:
diff --git a/cdmir/utils/independence/functional/fisherz.py b/cdmir/utils/independence/functional/fisherz.py
index 500a6e9..e357a04 100644
--- a/cdmir/utils/independence/functional/fisherz.py
+++ b/cdmir/utils/independence/functional/fisherz.py
@@ -22,7 +22,7 @@ def fisherz(x, y, Z=None):
 
 
 def fisherz_from_corr(corr: ndarray, num_records: int, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-    z_ids = [] if z_ids is None else z_ids
+    z_ids = [] if z_ids is None else list(z_ids)
     var = [x_id, y_id] + z_ids
     sub_corr = corr[ix_(var, var)]
     inv_mat = inv(sub_corr)
-- 
2.43.0


From 21e602437599aaa348e4ff87a3b722ac537ee4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 07/31] fix: the score cache mixed up parent sets given as
 one-shot iterators

The key was the text of the iterator object, so a later iterator at the same
address got the score of another parent set.
---
 cdmir/utils/local_score/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/utils/local_score/_base.py b/cdmir/utils/local_score/_base.py
index 0c6257d..02cbf0d 100644
--- a/cdmir/utils/local_score/_base.py
+++ b/cdmir/utils/local_score/_base.py
@@ -16,6 +16,7 @@ class BaseLocalScoreFunction(object):
         self.cache_dict = dict()
 
     def _score(self, i: int, parent_i: Iterable[int], score_function):
+        parent_i = list(parent_i)
         dict_key = hash(str((i, parent_i)))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
-- 
2.43.0


From a30af4a207551a43538360c3d349812890eacb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 08/31] fix: BDeu score of a node without parents raised

---
 cdmir/utils/local_score/bdeu_score.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/bdeu_score.py b/cdmir/utils/local_score/bdeu_score.py
index e08625b..ef45ed1 100644
--- a/cdmir/utils/local_score/bdeu_score.py
+++ b/cdmir/utils/local_score/bdeu_score.py
@@ -42,7 +42,8 @@ class BDeuScore(BaseLocalScoreFunction):
         names = ['x{}'.format(var) for var in range(shape(self.data)[1])]
         Data_pd = DataFrame(self.data, columns=names)
         parant_names = ['x{}'.format(var) for var in parent_i]
-        Data_pd_group_Nij = Data_pd.groupby(parant_names)
+        # without parents there is one parent configuration: every record
+        Data_pd_group_Nij = Data_pd.groupby(parant_names if parant_names else lambda _: 0)
         Nij_map = {key: len(Data_pd_group_Nij.indices.get(key)) for key in Data_pd_group_Nij.indices.keys()}
         Nij_map_keys_list = list(Nij_map.keys())
 
-- 
2.43.0


From ced1a0bacf6ceec3d1da36efcca4da5148822012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 09/31] fix: get_performance failed on graphs, whose marks are
 not 0/1 labels

---
 cdmir/utils/metrics/graph_evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/metrics/graph_evaluation.py b/cdmir/utils/metrics/graph_evaluation.py
index c7556a5..3aeb042 100644
--- a/cdmir/utils/metrics/graph_evaluation.py
+++ b/cdmir/utils/metrics/graph_evaluation.py
@@ -4,7 +4,7 @@ import numpy as np
 import pandas as pd
 from sklearn.metrics import f1_score, precision_score, recall_score
 
-from cdmir.graph import Graph, PDAG
+from cdmir.graph import Graph, Mark, PDAG
 
 
 
@@ -77,9 +77,9 @@ def shd(true_pdag: PDAG, est_pdag: PDAG):
 
 def get_performance(fitted, real, threshold=0, drop_diag=True):
     if isinstance(fitted,Graph):
-        fitted=fitted.to_numpy()
+        fitted=(fitted.to_numpy(transpose=True) == Mark.Arrow.value).astype(int)
     if isinstance(real, Graph):
-        real = real.to_numpy()
+        real = (real.to_numpy(transpose=True) == Mark.Arrow.value).astype(int)
     fitted = np.abs(fitted)
     if drop_diag:
         fitted = fitted - np.diag(np.diag(fitted))
-- 
2.43.0


From 148c86ca6f10467500f3b0b0244a3f0fda3a3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 10/31] fix: leaky_relu truncated the result for integer inputs

---
 cdmir/datasets/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index f6dfa08..a624e9f 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -29,9 +29,8 @@ def np2nx(np_data, create_using=None):
 
 def leaky_relu(inputs, neg_slope=0.2):
     assert neg_slope > 0
-    leaky_relu_1d = lambda x: x if x > 0 else x * neg_slope
-    leaky1d = np.vectorize(leaky_relu_1d)
-    return leaky1d(inputs)
+    inputs = np.asarray(inputs)
+    return np.where(inputs > 0, inputs, inputs * neg_slope)
 
 
 def _random_permutation(mat):
-- 
2.43.0


From 97ef1bf077437504594c66c5cfccbf8a01d65f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 11/31] fix: graph and transition generators failed without a
 seed

---
 cdmir/datasets/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index a624e9f..bf1e8d7 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -63,7 +63,8 @@ def check_data(inputs):
 def erdos_renyi(n_nodes: int, n_edges: int, weight_range: Union[Sequence[float], None] = None,
                 seed: Optional[int] = None):
     assert n_nodes > 0, "The numbers of nodes must be larger than 0"
-    set_random_seed(seed)
+    if seed is not None:
+        set_random_seed(seed)
     # erdos renyi
     egdes_prob = (n_edges * 2) / (n_nodes ** 2)
     nx_graph = nx.erdos_renyi_graph(n=n_nodes, p=egdes_prob, seed=seed)
@@ -98,7 +99,8 @@ def generate_lag_transitions(n_nodes: int, max_lag: int, seed: Optional[int] = N
                              niter4cond_thresh: int = 1e4):
     assert n_nodes > 0
     assert max_lag > 0
-    set_random_seed(seed)
+    if seed is not None:
+        set_random_seed(seed)
     cond_list = []
     for _ in range(int(niter4cond_thresh)):
         A = np.random.uniform(1, 2, (n_nodes, n_nodes))
-- 
2.43.0


From 04390ed1cb5d7949d1a55d5e1f168ac5b24d39fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 12/31] fix: post-nonlinear simulation gave every sample the
 same value

---
 cdmir/datasets/simlulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eb5df8..4eac9f3 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -232,7 +232,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             noise = _gen_noise([n_samples, hidden], noise_type, noise_scale)
         func1 = _pnl_func_sequential(func1_type, pare_size, hidden, neg_slope, hidden)
         func2 = _pnl_func_sequential(func2_type, hidden, pare_size, neg_slope, hidden)
-        value = np.sum(func2(func1(parents) + noise))
+        value = np.sum(func2(func1(parents) + noise), axis=1)
         return value
 
     @staticmethod
-- 
2.43.0


From a8dcd0cf5f6e51e62d777c13b408facc3d698472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 13/31] fix: the 'cos' function type was simulated as a random
 linear map

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eac9f3..e9e04ba 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -21,6 +21,8 @@ def _pnl_func(func_type, d_inputs, d_outputs, neg_slope=0.2):
         return np.tanh
     elif func_type == 'leaky_relu':
         return lambda x: utils.leaky_relu(x, neg_slope)
+    elif func_type == 'cos':
+        return lambda x: np.cos(x)
     elif func_type == 'sin':
         return lambda x: np.sin(x)
     else:
-- 
2.43.0


From 346c1ba789183bcb097e328ef4c9ccedc54bffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 14/31] fix: simulate_nonlinear_anm ignored func_type

---
 cdmir/datasets/simlulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index e9e04ba..481c824 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -213,7 +213,8 @@ class IIDSimulator:  # generate the I.I.D. dataset
         for j in topo_order:
             parents = list(nx_graph.predecessors(j))
             X[:, j] = IIDSimulator._simulate_single_value_nonlinear_anm(n_samples, X[:, parents], noise_type,
-                                                                        scale_vec[j], hidden=hidden)
+                                                                        scale_vec[j], func_type=func_type,
+                                                                        hidden=hidden)
         return X
 
     @staticmethod
-- 
2.43.0


From 974afe1bbf99944bd1844b4df0b6eb16d4d889b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 15/31] fix: time-lagged post-nonlinear simulation failed
 without a length

---
 cdmir/datasets/simlulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 481c824..6c06683 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -516,6 +516,7 @@ class TimeLagSimulator:  # generate the time series dataset
                 assert func_type in func_list
             else:
                 assert set(func_type) <= set(func_list)
+        length = 5000 if length is None else length
         if seed is not None:
             utils.set_random_seed(seed)
         n_nodes = adj_mats.shape[1]
-- 
2.43.0


From c8ea477943c8ac45984ce2f1daee970bf1adc0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 16/31] fix: function sequences that do not start with a linear
 layer lost the layer size

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 6c06683..766a92c 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -41,6 +41,8 @@ def _pnl_func_sequential(func_type, d_inputs, d_outputs, neg_slope=0.2, hidden=N
         last_linear = (func_type[0] == 'linear' and 'linear' not in func_type[1:])
         hidden = hidden if 'linear' in func_type[1:] else d_outputs
         layer_d_outputs = d_outputs if last_linear else hidden
+        if func_type[0] != 'linear':
+            layer_d_outputs = d_inputs  # an elementwise function keeps the size
         func = _pnl_func(func_type[0], d_inputs, layer_d_outputs, neg_slope)
         follow_func = _pnl_func_sequential(func_type[1:], layer_d_outputs, d_outputs, neg_slope, hidden)
 
-- 
2.43.0


From 6edefc6974e5023ad3101b660af41c75be7df8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 17/31] fix: kernel matrices are cached by the data, not by
 their abbreviated text

---
 cdmir/utils/kernel/_base.py    | 9 +++++++--
 cdmir/utils/kernel/gaussian.py | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9721f68..38e511c 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from numpy import eye, ndarray, shape
+from numpy import asarray, eye, ndarray, shape
 from numpy.linalg import pinv
 
 
@@ -13,7 +13,7 @@ class BaseKernel(object):
         return self.__kernel(xs, ys, self.__kernel_func)
 
     def __kernel(self, xs: ndarray, ys: ndarray, kernel_func, *args, **kwargs):
-        dict_key = hash(str((xs, ys)))
+        dict_key = (self._data_key(xs), self._data_key(ys))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
@@ -22,6 +22,11 @@ class BaseKernel(object):
 
         return res
 
+    @staticmethod
+    def _data_key(data: ndarray | None):
+        # the text of an array is rounded, and abbreviated when the array is large: use its values
+        return None if data is None else (shape(data), tuple(asarray(data).ravel().tolist()))
+
     def __kernel_func(self, data_x: ndarray, data_y: ndarray):
         raise NotImplementedError()
 
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 7640fca..5055ff4 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -30,7 +30,7 @@ class GaussianKernel(BaseKernel):
         if self.width_strategy != self.WidthStrategyEnum.manual:
             self.__update_kernel_width_by_width_strategy(self.width_strategy, xs)
 
-        dict_key = hash(str((xs, ys, self.width)))  # add width to cache
+        dict_key = (self._data_key(xs), self._data_key(ys), self.width)  # add width to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-- 
2.43.0


From 30354ac1ba36377850f9fdbd790724284738d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 18/31] fix: a polynomial kernel whose degree or constant
 changes does not return stale matrices

---
 cdmir/utils/kernel/polynomial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 2848be9..e06a1c8 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -16,14 +16,14 @@ class PolynomialKernel(BaseKernel):
         return pow(self.const + x.dot(y.T), self.degree)#const是加减上的调整，degree是控制多项式的次数
 
     def __kernel(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        dict_key = hash(str((xs, ys, self.degree, self.const)))  # add 'degree' and 'const' to cache
+        dict_key = (self._data_key(xs), self._data_key(ys), self.degree, self.const)  # add 'degree' and 'const' to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-            res = self.__kernel(xs, ys) #Plan B:改成 res = self.__kernel_func(xs,ys)
+            res = self.__kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
         return res
 
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        return self._BaseKernel__kernel(xs, ys, self.__kernel_func) #Plan A：把self.__kernel改成return self._BaseKernel__kernel(xs, ys, self.__kernel_func)
+        return self.__kernel(xs, ys)
-- 
2.43.0


From 48b8c25e09e13839e97c15144862a47dcfa91cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 19/31] fix: edges between nodes that are not strings can be
 plotted

---
 cdmir/visual/plot_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index edcb791..1c84953 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -28,6 +28,7 @@ def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius
     edge_circle_mark_radius = node_radius * edge_circle_mark_ratio
     for edge in graph.edges:
         node_u, node_v, mark_u, mark_v = edge
+        node_u, node_v = str(node_u), str(node_v)
         plt_edge(ax,
                  (pos[node_u][0] + center[0], pos[node_u][1] + center[1]),
                  (pos[node_v][0] + center[0], pos[node_v][1] + center[1]),
-- 
2.43.0


From fd7fae14e1fa281d8d10ebcd510c070344e04269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 20/31] fix: the spectral null distribution of the kernel test
 works for more than 1000 records

---
 cdmir/utils/independence/kernel_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/kernel_based.py b/cdmir/utils/independence/kernel_based.py
index eadd548..162e7f1 100644
--- a/cdmir/utils/independence/kernel_based.py
+++ b/cdmir/utils/independence/kernel_based.py
@@ -109,7 +109,7 @@ class KCI(BaseConditionalIndependenceTest):
         def null_sample_spectral_from_centralized_kernel_matrix(self, Kxc, Kyc):
             T = Kxc.shape[0]
             if T > 1000:
-                num_eig = np.int(np.floor(T / 2))
+                num_eig = int(np.floor(T / 2))
             else:
                 num_eig = T
             lambdax = eigvalsh(Kxc)
-- 
2.43.0


From be612210048eb2da09b4fa8cb89e421ebdd165d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:46 +0000
Subject: [PATCH 21/31] fix: ICA-LiNGAM permutes rows and columns together, so
 any order of the variables is learned

---
 .../funtional_based/lingam_based/ica_lingam.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 4783084..bfdd3fe 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -25,8 +25,10 @@ def find_W_wave(W):
 
 def find_B_wave(B_hat):
     P_list = find_all_P(B_hat.shape[0])
-    score = [sum(np.diag((P.dot(B_hat) * P.dot(B_hat)).dot(np.tri(B_hat.shape[0])))) for P in P_list]
-    return P_list[np.argmin(score)].dot(B_hat)
+    # the same order for rows and columns: both belong to the variables
+    score = [sum(np.diag((P.dot(B_hat).dot(P.T) ** 2).dot(np.tri(B_hat.shape[0])))) for P in P_list]
+    P = P_list[np.argmin(score)]
+    return P.dot(B_hat).dot(P.T), P
 
 
 def g(x):
@@ -178,13 +180,16 @@ class ICA_LINGAM(object):
         B_hat = np.eye(W_wave_slash.shape[0]) - W_wave_slash
 
         # find B_wave
-        B_wave = find_B_wave(B_hat)
+        B_wave, P = find_B_wave(B_hat)
 
         # prune upper triangle
         for x in range(B_wave.shape[0]):
             for y in range(x, B_wave.shape[1]):
                 B_wave[x, y] = 0
 
+        # back to the order of the variables
+        B_wave = P.T.dot(B_wave).dot(P)
+
         # wald test
         B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
 
-- 
2.43.0


From 4252f804e9595e1997b07ff43cf9eb23a02deb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:53 +0000
Subject: [PATCH 22/31] fix: ICA-LiNGAM uses the significance level it is given

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index bfdd3fe..9ce7261 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -191,7 +191,7 @@ class ICA_LINGAM(object):
         B_wave = P.T.dot(B_wave).dot(P)
 
         # wald test
-        B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
+        B_Prune = wald_prune(data.T, W_wave, B_wave, self.wald_alpha)
 
         # Linear Regression
         reg_list = {i: B_wave[i, :] != 0 for i in range(B_Prune.shape[0])}
-- 
2.43.0


From fc69c59bb43eecaec2ae43c40bf9a700aa1bd044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 23/31] fix: SHP works without a time interval, its default

---
 cdmir/discovery/point_process/SHP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 210d699..5cc7844 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -195,7 +195,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * (1 if self.time_interval is None else self.time_interval)
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
@@ -260,7 +260,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * (1 if self.time_interval is None else self.time_interval)
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
-- 
2.43.0


From b07c57e67f865f3a5431aa79cd9bcecc765c1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 24/31] fix: latent nodes that are not strings are drawn as
 latent

---
 cdmir/visual/plot_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index 1c84953..85af7dc 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -6,8 +6,8 @@ from cdmir.graph import Mark
 
 
 def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius=0.04, edge_circle_mark_ratio=1 / 6):
-    if is_latent is None:
-        is_latent = set()
+    # nodes are drawn by their text, as in the layout
+    is_latent = set() if is_latent is None else {str(node) for node in is_latent}
 
     fig = plt.figure(figsize=figsize, dpi=dpi)
     ax = fig.add_axes([0, 0, 1, 1], frameon=False, aspect=1.)
-- 
2.43.0


From 2df8fb9cf696ac3c2cf860d9e2fe864445b90c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 25/31] fix: SHP accepts real time stamps with numbered event
 types

---
 cdmir/discovery/point_process/SHP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 5cc7844..6450f9c 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -78,7 +78,7 @@ class SHP(object):
         for seq_id, time_stamp, _, times, type_ind, _ in self.event_table.values:
             if (seq_id, time_stamp) not in X_dict:
                 X_dict[(seq_id, time_stamp)] = [0] * self.n
-            X_dict[(seq_id, time_stamp)][type_ind] = times
+            X_dict[(seq_id, time_stamp)][int(type_ind)] = times
         self.X_df = pd.DataFrame(X_dict).T
 
         self.X = self.X_df.values
-- 
2.43.0


From 7f99d8dfcb092d863d65ba43837ef49a7c8d13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:56 +0000
Subject: [PATCH 26/31] fix: the additive noise model scores the residuals, not
 all differences of predictions and values

---
 cdmir/discovery/funtional_based/anm/ANM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/anm/ANM.py b/cdmir/discovery/funtional_based/anm/ANM.py
index 69b4363..303956f 100644
--- a/cdmir/discovery/funtional_based/anm/ANM.py
+++ b/cdmir/discovery/funtional_based/anm/ANM.py
@@ -100,7 +100,7 @@ class ANM(object):
 
     def anm_score(self, x, y):
         gp = GaussianProcessRegressor().fit(x, y)
-        y_predict = gp.predict(x)
+        y_predict = gp.predict(x).reshape(y.shape)
         nonindepscore = normalized_hsic(y_predict - y, x)
 
         return nonindepscore
-- 
2.43.0


From 72342ad79b1987cf849b8b13d19961b77a467188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:59 +0000
Subject: [PATCH 27/31] fix: import the utilities of the package in the
 nonlinear learners

---
 .../entropy_based/entropy_based_discovery/nonlinear.py | 10 +++++-----
 .../entropy_based_discovery/nonlinear_ent.py           |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
index 098ab48..433a644 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
@@ -3,7 +3,7 @@ import math
 import numpy as np
 import torch
 import torch.nn as nn
-import utils as utils
+from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.lbfgsb_scipy import LBFGSBScipy
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.locally_connected import LocallyConnected
 
@@ -215,7 +215,7 @@ def main():
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
     # ut.set_random_seed(123)
 
     """
@@ -286,7 +286,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
 
     print("n={}, d={}, s0={}, l1={}, l2={}, graph_type={}, sem_type={}, noise={}, low={}, high={}".
           format(n, d, s0, lambda1, lambda2, graph_type, sem_type, noise_dist, low, high))
@@ -305,7 +305,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 
 def run_real():
-    import utils
+    from . import utils
 
     B_true = utils.readcsv('data/true.csv')
     X = utils.readcsv('data/sachs_unstand.csv')
@@ -326,7 +326,7 @@ def run_real():
 
 
 def run_real_853(lambda1=1e-1, lambda2=1e-1):
-    import utils
+    from . import utils
     print(lambda1, lambda2)
     path = "sachs/continuous/data1.npy"
     X = np.load(path)
diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
index 91dcf18..e0302b4 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
@@ -279,7 +279,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 def run_real_853(lamda1, lamda2):
     print('run 853')
-    import utils
+    from . import utils
     lambda1 = lamda1
     lambda2 = lamda2
     print(lambda1, lambda2)
-- 
2.43.0


From 7ec83b1a093e438110eefde3d71ee1e922d5ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:58 +0000
Subject: [PATCH 28/31] fix: the variance term of the combined entropy loss is
 that of the residuals, not of the standardised ones

---
 .../score_based/entropy_based/entropy_based_discovery/utils.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
index 5ea62e0..e61e3cb 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
@@ -490,13 +490,13 @@ def entropy_loss_G1(output, input):
 
 def entropy_loss_G1_high_order(output, input):
     residual = input - output
+    variance = torch.var(residual)
     residual = (residual - torch.mean(residual)) / torch.std(residual)
     x_2 = torch.pow(residual, 2)
     x_3 = torch.pow(residual, 3)
     x_4 = torch.pow(residual, 4)
     k_3 = torch.mean(x_3) / torch.pow(torch.mean(x_2), 3. / 2.)
     k_4 = torch.mean(x_4) / torch.pow(torch.mean(x_2), 4. / 2.)
-    variance = torch.var(residual)
     loss = 1 / 2 * torch.log(variance) - 1 / 12 * torch.pow(k_3, 2) - 1 / 48 * torch.pow(k_4, 2) \
            - torch.pow(torch.mean(torch.log(torch.cosh(residual))), 2)
     return loss
-- 
2.43.0


From 742314976b479ec4b6d566b585e164ef7248b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:10 +0000
Subject: [PATCH 29/31] fix: marginal likelihood scores raised, as the
 covariance specification is no regular array

---
 cdmir/utils/local_score/marginal_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 6726105..d875c04 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -58,7 +58,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                 widthPA[m] = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)], axis=1)[0, 0])
             widthPA = widthPA * 2.5  # kernel width
 
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = ['covSum', ['covSEard', 'covNoise']]
             logtheta0 = np.vstack([np.log(widthPA), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -67,7 +67,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = ['covSum', ['covSEard', 'covNoise']]
             PA = np.zeros((T, 1))
             logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
@@ -149,7 +149,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                 widthPA_all = np.hstack(
                     [widthPA_all, widthPA * np.ones((1, np.size(self.d_label[parent_i[m]])))])
             widthPA_all = widthPA_all * 2.5  # kernel width
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = ['covSum', ['covSEard', 'covNoise']]
             logtheta0 = np.vstack([np.log(widthPA_all.T), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA_all,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -158,7 +158,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = ['covSum', ['covSEard', 'covNoise']]
             PA = np.zeros((T, 1))
             logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
-- 
2.43.0


From 821a94ef8b8c4a8ac9294ef19151dc7aa63d029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:10 +0000
Subject: [PATCH 30/31] fix: the general marginal likelihood score is that of
 the variable, not of its parents

---
 cdmir/utils/local_score/marginal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index d875c04..6a7e18e 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -21,7 +21,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
     def _score_function(self, i: int, parent_i: Iterable[int]):
         parent_i = list(parent_i)
         T = self.data.shape[0]
-        X = self.data[:, parent_i]
+        X = self.data[:, i]
 
         # set the kernel for X
         GX = np.sum(np.multiply(X, X), axis=1)
-- 
2.43.0


From c5bfda92cf40e6aa75eb1cb91172310f7f185650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:10 +0000
Subject: [PATCH 31/31] fix: marginal likelihood scores of a variable without
 parents raised

---
 cdmir/utils/local_score/marginal_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 6a7e18e..8b7e851 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -68,8 +68,8 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                                         nargout=2)
         else:
             covfunc = ['covSum', ['covSEard', 'covNoise']]
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            PA = np.asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.asarray([[100, 0, np.log(np.sqrt(0.1))]]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
@@ -159,8 +159,8 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                                         nargout=2)
         else:
             covfunc = ['covSum', ['covSEard', 'covNoise']]
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            PA = np.asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.asarray([[100, 0, np.log(np.sqrt(0.1))]]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
-- 
2.43.0

