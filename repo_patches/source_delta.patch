From 83d43da0a10340a117b47e3d0bcf94d9b4cce0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 01/37] fix: a left/right variable given by name is not matched
 as a substring

set_variables() tested membership with `v not in left_vars`, so left_vars="V10"
(as the UAI readers pass it) also captured the parent V1.
---
 bcause/factors/factor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bcause/factors/factor.py b/bcause/factors/factor.py
index e7cc9aa..606207e 100644
--- a/bcause/factors/factor.py
+++ b/bcause/factors/factor.py
@@ -143,6 +143,10 @@ class ConditionalFactor(Factor):
         return {v:s for v,s in self.domain.items() if v in self.left_vars}
 
     def set_variables(self, variables, left_vars, right_vars):
+        # a single variable can be given by its name
+        if isinstance(left_vars, str): left_vars = [left_vars]
+        if isinstance(right_vars, str): right_vars = [right_vars]
+
         if left_vars is None and right_vars is None:
             # all the variables are in the left side
             left_vars, right_vars = variables, []
-- 
2.43.0


From a2ab024675219a9f57fa47d09c52c9ed977de126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 02/37] fix: read numbers in scientific notation from UAI files

The writer emits small probabilities as 1e-05, which the readers split in two numbers.
---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index cc76063..3e9427a 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -48,7 +48,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+)", line):
+                for v in re.findall(r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index baec44d..9328cc6 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -36,7 +36,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+E?[-+]?\d*)", line):
+                for v in re.findall(r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
-- 
2.43.0


From 0accc7be58cc132734d5b94cc78c159cf189e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 03/37] fix: keep variables without arcs when reading UAI files

---
 bcause/readwrite/bnread.py  | 1 +
 bcause/readwrite/scmread.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index 3e9427a..066b51c 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -73,6 +73,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)    # variables without any arc
 
     # factors in the model
     factors = dict()
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index 9328cc6..72385d8 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -61,6 +61,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)    # variables without any arc
 
     # factors in the model
     factors = dict()
-- 
2.43.0


From 5fed959da5527022798dace94364f87bc9576b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 04/37] fix: keep variables without arcs when converting from
 pgmpy

---
 bcause/conversion/pgmpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index cd54587..72d7101 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -51,6 +51,7 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
 def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     vtype = vtype or DataStore.DEFAULT_STORE
     dag = DiGraph(orig.in_edges)
+    dag.add_nodes_from(orig.nodes)    # variables without any arc
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
-- 
2.43.0


From 0e43e791848aa12a4d98c4afff0ecfe60c8f0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 05/37] fix: conversion to pgmpy follows the order of evidence
 and variable

toTabularCPT() assumed the child is the last variable of the domain, the parents
are listed in domain order and the first and last cardinalities coincide.
---
 bcause/conversion/pgmpy.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index 72d7101..a0eb711 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -25,13 +25,9 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
 def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
     card = f.store.cardinality_dict
-    values = f.values_array()
-    if np.ndim(values)<2:
-        values = np.expand_dims(values, axis=0)
-
-    if np.ndim(values) > 2:
-        shape = values.shape
-        values = values.reshape(np.prod(shape[:-1]), shape[0])
+    parents = list(f.right_vars)
+    # one row per configuration of the parents, one column per state of v
+    values = f.values_array(parents + [v]).reshape(-1, card[v])
 
     args = dict(
         variable = v,
@@ -40,7 +36,6 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
         state_names = f.domain
     )
 
-    parents = f.right_vars
     if len(parents)>0:
         args["evidence"] = parents
         args["evidence_card"] = [card[p] for p in parents]
-- 
2.43.0


From 1cb8eba9f658b636ceda221ab33c6ca5804b3d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 06/37] fix: str2dag keeps the nodes without arcs

---
 bcause/util/graphutils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bcause/util/graphutils.py b/bcause/util/graphutils.py
index ea2bc2e..8700621 100644
--- a/bcause/util/graphutils.py
+++ b/bcause/util/graphutils.py
@@ -20,15 +20,19 @@ def dag2str(dag: nx.DiGraph) -> str:
 
 
 def str2dag(str_dag: str) -> nx.DiGraph:
-    arcs = []
-    s = str_dag[1:-1].split("][")[1]
+    nodes, arcs = [], []
     for s in str_dag[1:-1].split("]["):
         if "|" in s:
             x, right_vars = s.split("|")
             for y in right_vars.split(":"):
                 arcs.append((y, x))
+            nodes.append(x)
+        else:
+            nodes.append(s)
 
-    return nx.DiGraph(arcs)
+    dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(nodes)   # nodes without any arc
+    return dag
 
 
 def _barren_info(dag: nx.DiGraph, S=None):
-- 
2.43.0


From 61f1248eebd91cd8a11821ca17170e649b9ab9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 07/37] fix: scalars (also of numpy) as left or right operand
 of a factor

2*f, 1-f, 1/f and f*numpy.float64(2) raised AttributeError.
---
 bcause/factors/mulitnomial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ad64d51..108e85a 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -77,7 +77,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
     def _prepare_operand(self, f):
         # if it's a scalar, transform it in a constant factor
-        if type(f) in [int,float]: f = self.builder(domain=dict(), values=[f])
+        if np.isscalar(f): f = self.builder(domain=dict(), values=[f])
         return f
 
     def multiply(self, other : Union[MultinomialFactor, int, float]):
@@ -169,25 +169,25 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return self.multiply(other)
 
     def __rmul__(self, other):
-        return other.multiply(self)
+        return self._prepare_operand(other).multiply(self)
 
     def __add__(self, other):
         return self.addition(other)
 
     def __radd__(self, other):
-        return other.addition(self)
+        return self._prepare_operand(other).addition(self)
 
     def __sub__(self, other):
         return self.subtract(other)
 
     def __rsub__(self, other):
-        return other.subtract(self)
+        return self._prepare_operand(other).subtract(self)
 
     def __truediv__(self, other):
         return self.divide(other)
 
     def __rtruediv__(self, other):
-        return other.divide(self)
+        return self._prepare_operand(other).divide(self)
 
 
     def __xor__(self, vars_remove):
-- 
2.43.0


From 99f7fbcb91d00e96bb696c93df46a90495896372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 08/37] fix: restriction to several states keeps values and
 states aligned

With the states in an order other than that of the domain the values were assigned to the
wrong states, and observing several states of two variables failed.
---
 bcause/factors/values/numpyops.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 2613968..4e539af 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -112,12 +112,17 @@ class NumpyStoreOperations(OperationSet):
                     idx = np.where(np.array(store.domain[v]) == obs_v)[0][0]
                     items.append(idx)
                 else:
-                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in obs_v]
-                    items.append(idx)
+                    if any([x not in store.domain[v] for x in obs_v]):
+                        raise IndexError(f"States {obs_v} not in the domain of {v}")
+                    items.append(slice(None))
                     new_dom[v] = [x for x in store.domain[v] if x in obs_v]
             else:
                 items.append(slice(None))
                 new_dom[v] = store.domain[v]
         new_data = store._data[tuple(items)].copy()
+        # select the states of the variables restricted to several of them, in the order of the new domain
+        for v in [v for v in new_dom if v in observation]:
+            idx = [store.domain[v].index(x) for x in new_dom[v]]
+            new_data = np.take(new_data, idx, axis=list(new_dom).index(v))
         return store.builder(domain=new_dom, data=new_data)
 
-- 
2.43.0


From 3b0b36bfdbc4de5eada4c2fbaea822a60ede736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 09/37] fix: StructuralCausalModel.rename_vars accepts a
 partial mapping

As in the rest of models, variables that are not in the mapping keep their name.
---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0011e02..0081639 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -201,7 +201,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
         new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
-        new_endogenous = [names_mapping[x] for x in self.endogenous]
+        new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
         return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=new_endogenous, cast_multinomial=self._cast_multinomial)
 
 
-- 
2.43.0


From 7b901875ffa504619fb036f6936cbf776649042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 10/37] fix: to_multinomial keeps which variables are
 endogenous

An endogenous root (e.g. an intervened variable) became exogenous.
---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0081639..d65447a 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -183,7 +183,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         super().set_factor(var, f)
 
     def to_multinomial(self) -> StructuralCausalModel:
-        return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)
+        return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)
 
     @property
     def has_deterministic(self):
-- 
2.43.0


From 5e0593fdf11453ae66531358ed8fafb98855218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 11/37] fix: a StructuralCausalModel can be built from the
 string of its DAG

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index d65447a..b1c0f8d 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -148,7 +148,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def __init__(self, dag:Union[nx.DiGraph,str], factors:Union[dict,list] = None, endogenous:Iterable = None,
                  cast_multinomial:bool = True, check_factors:bool = True):
         self._initialize(dag)
-        self._endogenous = endogenous or [x for x in dag if len(list(dag.predecessors(x)))>0]
+        self._endogenous = endogenous or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
         self._cast_multinomial = cast_multinomial
         self._check_factors = check_factors
 
-- 
2.43.0


From 6cc0c38cdc0ca268f2c413070bf7600464bfa008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 12/37] fix: fusion of models keeps the variables without arcs

A counterfactual query intervening on a variable without endogenous children failed.
---
 bcause/models/transform/combination.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 5b0ee4d..5ec6fdc 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -17,6 +17,7 @@ def fusion_roots(models, on, **builder_kargs):
     for v in models[0].variables: new_dag.add_node(v)
     new_factors = models[0].get_factors(*on)
     for m in models:
+        new_dag.add_nodes_from(m.variables)
         for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
         new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
 
-- 
2.43.0


From cb69b7d6585d228ae69228e6c8db17e1fae0cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 13/37] fix: submodel passes its arguments to the builder by
 name

---
 bcause/models/pgmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 53d2f2c..747469a 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -180,7 +180,7 @@ class DiscreteDAGModel(PGModel):
     def submodel(self, nodes:list) -> DiscreteDAGModel:
         new_dag = self.graph.subgraph(nodes)
         new_factors = {x: f for x, f in self.factors.items() if x in nodes}
-        return self.builder(new_dag, new_factors)
+        return self.builder(dag=new_dag, factors=new_factors)
 
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
-- 
2.43.0


From c0c6596eb8cc184b5909db12c5c744d9af62ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 14/37] fix: evidence is optional when compiling a
 probabilistic inference

---
 bcause/inference/probabilistic/datainference.py | 1 +
 bcause/inference/probabilistic/probabilistic.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index b0be195..69c1640 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -19,6 +19,7 @@ class LaplaceInference(ProbabilisticInference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 245eb76..31eaf41 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -18,6 +18,7 @@ class ProbabilisticInference(Inference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
-- 
2.43.0


From d7180a0ad5becd48dd7eec2823acc878978c16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 15/37] fix: the graph of the Q-decomposition is acyclic

A parent of the c-component that follows x in the topological order was added as parent of x,
which closes a cycle when the same happens the other way round in another c-component.
---
 bcause/models/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/info.py b/bcause/models/info.py
index a7a4f44..38a2b10 100644
--- a/bcause/models/info.py
+++ b/bcause/models/info.py
@@ -37,7 +37,7 @@ def get_qgraph(model:DiscreteCausalDAGModel):
         for i in range(len(c_comp)):
             x = c_comp[i]
             for p in list(pa_c) + c_comp[0:i]:
-                if p not in nx.descendants(model.endo_graph, x):
+                if order.index(p) < order.index(x):
                     g.add_edge(p, x)
 
     return g
-- 
2.43.0


From a5eb6161bb51f720f6b62ed4e4c24f5d2195f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 16/37] fix: a submodel does not list variables it lacks as
 endogenous

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index b1c0f8d..cd5aef8 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -157,7 +157,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
     def builder(self, **kwargs):
         if "cast_multinomial" not in kwargs: kwargs["cast_multinomial"] = self._cast_multinomial
-        if "endogenous" not in kwargs: kwargs["endogenous"] = self.endogenous
+        if "endogenous" not in kwargs: kwargs["endogenous"] = [x for x in self.endogenous if x in kwargs["dag"]]
         return StructuralCausalModel(**kwargs)
 
     @staticmethod
-- 
2.43.0


From 5ac371e81dff98b864e513a363c16143b586a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 17/37] fix: learning does not add columns to the data set of
 the user

---
 bcause/learning/parameter/expectation_maximization.py | 3 ++-
 bcause/learning/parameter/gradient.py                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e4d2924..7ab842f 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -77,7 +77,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         return new_probs
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables (not in the data set of the user)
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index c7873fe..3cdea00 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -149,7 +149,8 @@ class GradientLikelihood(IterativeParameterLearning):
         return P_v_pav_key
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables (not in the data set of the user)
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
-- 
2.43.0


From 7645969d98a8dc1b68c8d7b9e38710d119e3a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 18/37] fix: PN, PS and PNS can be the first query of a
 multi-model inference

The true and false states are looked up in a model which was only set by the first query.
---
 bcause/inference/causal/multi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 5f10039..ddb1f10 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -23,6 +23,11 @@ class CausalMultiInference(CausalInference):
         self._causal_inf_fn = causal_inf_fn
 
 
+    @property
+    def model(self) -> StructuralCausalModel:
+        if not self._compiled: self.compile()
+        return self._model
+
     @property
     def models(self) -> list[StructuralCausalModel]:
         return self._models
-- 
2.43.0


From 69103bf5ff6aa4407d01ba8be487524d1c0e9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 19/37] fix: add_models does not extend the list given by the
 user to set_models

---
 bcause/inference/causal/multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index ddb1f10..3eab13a 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -38,7 +38,7 @@ class CausalMultiInference(CausalInference):
 
     def add_models(self, models: list[StructuralCausalModel]):
         models = models or []
-        self._models += models
+        self._models = self._models + models
         self._compiled = False
 
     def compile(self, *args, **kwargs) -> Inference:
-- 
2.43.0


From f6189eb5311a427a5f051fd91ccf3519265178ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 20/37] fix: canonical equations with any number of endogenous
 parents

Only exactly one endogenous parent was possible.
---
 bcause/factors/deterministic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 92f8cda..a71e6f5 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -131,6 +131,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
 def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=None, vtype=None) -> MultinomialFactor:
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_endo_vars = right_endo_vars or []
 
     left_var = [x for x in domain.keys() if x not in right_endo_vars and x != exo_var]
     if len(left_var) != 1:
@@ -141,7 +142,7 @@ def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=
     domEndoPa = dutils.assingment_space(dutils.subdomain(domain, *right_endo_vars))
     m = len(domEndoPa)
 
-    new_values = list(product(*[domain[left_var]] * m))
+    new_values = np.ravel(list(product(*[domain[left_var]] * m)))
     new_dom = {**dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var), **dutils.subdomain(domain, *right_endo_vars)}
 
     return DeterministicFactor(domain=new_dom, values=new_values, left_vars=[left_var], vtype=vtype)
-- 
2.43.0


From 4ae0a5a72bd7b331cb77d0b03980fd6d316be9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 21/37] fix: set_value on a TreeDictStore does not modify other
 stores

The result of a restriction shares its subtrees with the restricted store.
---
 bcause/factors/values/treedictstore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 53cc7da..75b786b 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -52,8 +52,8 @@ class TreeDictStore(DiscreteStore):
             else:
                 other_obs = {v: s for v, s in observation.items() if v != data["var"]}
                 ch = data["children"][observation[data["var"]]]
-                data["children"][observation[data["var"]]] = modify_dict(ch, other_obs, value)
-                out = data
+                # subtrees may be shared with other stores
+                out = treeNode(data["var"], {**data["children"], observation[data["var"]]: modify_dict(ch, other_obs, value)})
             return out
 
         relevant_obs = {v: s for v, s in observation.items() if v in self.domain}
-- 
2.43.0


From e058488931273c1b3a8e21b1df44f4e40b016902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 22/37] fix: a Numpy1DStore does not share its values with the
 array it is built from

---
 bcause/factors/values/numpystore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index bf66303..3d1dbd9 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -63,7 +63,7 @@ class Numpy1DStore(DiscreteStore):
         self.builder = builder
         #self.set_operationSet(ListStoreOperations)
         self.set_operationSet(GenericOperations)
-        super(self.__class__, self).__init__(domain=domain, data=np.ravel(data))
+        super(self.__class__, self).__init__(domain=domain, data=np.array(data).ravel())
 
     @staticmethod
     def _check_consistency(data, domain):
-- 
2.43.0


From 2bee500b9309faa39a087a4ce63e0958c612c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 23/37] fix: to_counts counts the missing values

They were counted as NaN and looked up as "nan".
---
 bcause/util/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index b68b491..3903e62 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -6,13 +6,13 @@ def to_counts(domains, data=None, normalize=False):
     domains = domains.copy()
     if data is not None:
         data = data[list(domains.keys())]
-        dcounts = data.value_counts(dropna=False).to_dict()
         # Add None where missing values
         for x in [v for v in data.columns if data.isna().any()[v]]:
             if not all([type(v)==str for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
             domains[x] = domains[x] + ["nan"]
         data = data.fillna("nan")
+        dcounts = data.value_counts().to_dict()
     else:
         dcounts = dict()
 
-- 
2.43.0


From 45c7a59bea110b5d30e07e1ccb264e37bcbe8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 24/37] fix: domain and size of a variable given by name are
 not matched as a substring

get_domains("U1") also returned the domain of a variable called U.
---
 bcause/models/pgmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 747469a..ce87cea 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -13,6 +13,7 @@ from networkx import relabel_nodes
 
 import bcause.factors.factor as bf
 import bcause.util.graphutils as gutils
+from bcause.util.arrayutils import as_lists
 
 from bcause.models.sampling import forward_sampling
 
@@ -138,9 +139,11 @@ class DiscreteDAGModel(PGModel):
 
 
     def get_domains(self, variables):
+        variables = as_lists(variables)
         return {v:d for v,d in self._domains.items() if v in variables}
 
     def get_varsizes(self, variables):
+        variables = as_lists(variables)
         return {v:len(d) for v,d in self._domains.items() if v in variables}
 
 
-- 
2.43.0


From 9b5088d03fad8fa34119933edfee3daa419f89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 25/37] fix: structural equations are written to UAI by the
 index of their states

Without the cast to multinomial, the labels of the states were written instead.
---
 bcause/readwrite/bnwrite.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f08b478..2c2d08c 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -61,8 +61,10 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
         vorder = var_order[v]
 
         if label=="CAUSAL" and v in model.endogenous:
-            if not isinstance(f, DeterministicFactor):
-                f = f.to_deterministic()
+            # states are written by their index
+            if isinstance(f, DeterministicFactor):
+                f = f.to_multinomial()
+            f = f.to_deterministic()
             vorder = [x for x in vorder if x != v]
 
         # if not reverse_values:
-- 
2.43.0


From 0c3345e6fbd9487754cf6f4a513832dd5e062f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 26/37] fix: a TreeDictStore built from a single value is
 constant

---
 bcause/factors/values/treedictstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 75b786b..f78da64 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -23,7 +23,7 @@ class TreeDictStore(DiscreteStore):
         if data is None:
             data = np.zeros(np.prod([len(d) for d in domain.values()]))
         if not isinstance(data, dict):
-            if len(domain)>0 and type(data) not in [dict, OrderedDict]:
+            if len(domain)>0 and np.ndim(data)>0:     # a single value is a tree with only a leaf
                 data = build_default_tree(domain, data)
         def builder(**kwargs):
             return TreeDictStore(**kwargs)
-- 
2.43.0


From 10b071acebf2dc78c9a4ad6730eca4b12a60be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:33 +0000
Subject: [PATCH 27/37] fix: set_value on a TreeDictStore with a leaf above
 some variables

---
 bcause/factors/values/treedictstore.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index f78da64..cdb9c27 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -41,12 +41,17 @@ class TreeDictStore(DiscreteStore):
 
     def set_value(self, value, observation):
         def modify_dict(data, observation, value):
-            if not isinstance(data, dict) or len(observation) == 0:
+            if len(observation) == 0:
                 out = value
+            elif not isinstance(data, dict):
+                # split the leaf: its value is kept for the other states
+                var = next(iter(observation))
+                leaf = treeNode(var, {state: data for state in self.domain[var]})
+                out = modify_dict(leaf, observation, value)
             elif data["var"] not in observation:
                 new_ch = dict()
                 for state, ch in data["children"].items():
-                    new_ch[state] = value if not isinstance(ch, dict) else modify_dict(ch, observation, value)
+                    new_ch[state] = modify_dict(ch, observation, value)
                 out = treeNode(data["var"], new_ch)
 
             else:
-- 
2.43.0


From cbb6b7d7d1221edbf2d9a93e1de0b5a860a6bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:29 +0000
Subject: [PATCH 28/37] fix: EM counts all the records when no observation is
 relevant

---
 bcause/learning/parameter/expectation_maximization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 7ab842f..e745847 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -49,7 +49,9 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _get_obs_counts(self, target):
         obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
-        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))) for obs in obs_blanket]
+        # without relevant observations, all the records are counted
+        all_records = pd.Series(True, index=self._data.index)
+        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()], all_records))) for obs in obs_blanket]
 
 
 
-- 
2.43.0


From 46a74cde27e2e23b7200eec928c2520ddd4f2d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:59 +0000
Subject: [PATCH 29/37] fix: a function read from a data frame with the left
 variable in any column

---
 bcause/factors/deterministic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index a71e6f5..0489d7c 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -45,10 +45,11 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         columns = list(df.columns)
         left_var = left_var or columns[-1]
 
+        df = df.copy()
         for v in columns:
             df[v] = pd.Categorical(df[v], domains[v])
 
-        df = df.sort_values(by=columns)
+        df = df.sort_values(by=[v for v in columns if v != left_var])
 
         domf = dutils.subdomain(domains, *columns)
         values = list(df[left_var].values)
-- 
2.43.0


From 438e49537ae9cf37e09ff384f322117011d28c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:59 +0000
Subject: [PATCH 30/37] fix: conditional samples with the observed variables in
 any order

---
 bcause/factors/mulitnomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 108e85a..056d516 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -147,7 +147,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("sample size cannot be lower than 1.")
         df_obs = pd.DataFrame(observations).drop_duplicates()
         factors = {tuple(val_obs):self.R(**dict(list(zip(list(df_obs.keys()), list(val_obs))))) for val_obs in df_obs.values}
-        return [factors[tuple(obs.values())]._sample(varnames=varnames) for obs in observations]
+        return [factors[tuple(obs[v] for v in df_obs.keys())]._sample(varnames=varnames) for obs in observations]
 
 
     def _sample(self, varnames:bool=True) -> tuple:
-- 
2.43.0


From 306bd8aad56266a7128e134771ba285be0cc0bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:17 +0000
Subject: [PATCH 31/37] fix: right variables outside the domain are rejected

---
 bcause/factors/factor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/factors/factor.py b/bcause/factors/factor.py
index 606207e..17ca2de 100644
--- a/bcause/factors/factor.py
+++ b/bcause/factors/factor.py
@@ -155,6 +155,8 @@ class ConditionalFactor(Factor):
         elif left_vars is not None and right_vars is not None:
             if not (set(right_vars).union(left_vars) == set(variables) and set(right_vars).isdisjoint(left_vars)):
                 raise ValueError("Cannot determine left/right side variables")
+        elif not set(right_vars).issubset(variables):
+            raise ValueError("Cannot determine left/right side variables")
 
         self._variables, self._right_vars = variables, right_vars
 
-- 
2.43.0


From f2221f0a7f3d37ed56d40014ba6d1b531d262fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 32/37] fix: a table has to agree with the tables of its
 children on the domain of its variable

---
 bcause/models/pgmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index ce87cea..ee0d51c 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -65,6 +65,10 @@ class PGModel(ABC):
             for v in f.variables:
                 if v in self._domains and self._domains[v] != None:
                         if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")
+            for v in self.get_children(var):
+                f_ch = self._factors[v]
+                if f_ch is not None and var in f_ch.domain and set(f_ch.domain[var]) != set(f.domain[var]):
+                    raise ValueError(f"Inconsistent domain for {var} in the factor of {v}")
 
         # Update domains
         if var not in self._domains or self._domains[var] == None:
-- 
2.43.0


From 46b06278b5d04a5de7aa024db95a2277abc9ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:02 +0000
Subject: [PATCH 33/37] fix: true/false states are identified only when there
 is exactly one of each

---
 bcause/util/domainutils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index d8e7039..df8504c 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -99,12 +99,13 @@ def identify_true_false(varname, dom):
     if len(dom)>2: raise ValueError("Cannot identify true/false states: non binary domains")
     if len(set(dtypes))>1: raise ValueError("Cannot identify true/false states: different data types")
 
-    tf = []
+    t, f = [], []
     if dtypes[0] in [int, float]:
-        tf = [d for d in dom if d==True] + [d for d in dom if d==False]
+        t, f = [d for d in dom if d==True], [d for d in dom if d==False]
     elif dtypes[0] == str:
-        tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]
+        t = [d for d in dom if d.lower() == varname.lower()+"1"]
+        f = [d for d in dom if d.lower() in [varname.lower()+"0", varname.lower()+"2"]]
 
-    if len(tf)!=2: raise ValueError("Cannot identify true/false states: wrong values or data types")
+    if len(t)!=1 or len(f)!=1: raise ValueError("Cannot identify true/false states: wrong values or data types")
 
-    return tf[0],tf[1]
+    return t[0],f[0]
-- 
2.43.0


From 88f7089d99024695f5c97706c8cee740ff667395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 34/37] fix: EM learns every variable in every step, also those
 without changes in the last one

---
 .../parameter/expectation_maximization.py       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e745847..96a75b3 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -59,7 +59,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         #print("===")
         self._inf = self._inference_method(self._model)
         pcounts = self._get_pseudocounts_dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in self.trainable_vars:
 
             for obs, c in self._get_obs_counts(v):
                 relevant = [v] + self._prior_model.get_parents(v)
@@ -73,7 +73,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _maximization(self, pcounts, **kwargs):
         new_probs = dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in self.trainable_vars:
             joint_counts = pcounts[v]
             new_probs[v] = joint_counts / (joint_counts.marginalize(v))
         return new_probs
@@ -94,13 +94,14 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def _stop_learning(self) -> bool:
         from scipy.special import rel_entr
 
+        # a variable without changes in this step can still change after a change of the others
+        self._converged_vars = set()
         for v in self._trainable_vars:
-            if v not in self._converged_vars:
-                P = self.model_evolution[-2].factors[v]
-                Q = self.model_evolution[-1].factors[v]
-                kl_div = sum(rel_entr(P.values, Q.values))
-                if kl_div == 0:
-                    self._converged_vars = self._converged_vars | {v}
+            P = self.model_evolution[-2].factors[v]
+            Q = self.model_evolution[-1].factors[v]
+            kl_div = sum(rel_entr(P.values, Q.values))
+            if kl_div == 0:
+                self._converged_vars = self._converged_vars | {v}
         return set(self._trainable_vars) == self._converged_vars
 
 
-- 
2.43.0


From 0a0e63448c2d8a7e05ed643f3d8c80093d658a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 35/37] fix: a new EM run starts a new record from the prior
 model

---
 bcause/learning/parameter/expectation_maximization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 96a75b3..a4bda4b 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -23,6 +23,7 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _calculate_updated_factors(self):
-- 
2.43.0


From 24a0ead1a2206f1507c69019d364fef09c65350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 36/37] fix: restricting a factor with a tree store rejects
 states outside the domain

---
 bcause/factors/values/treedictops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bcause/factors/values/treedictops.py b/bcause/factors/values/treedictops.py
index f446bab..d9caca0 100644
--- a/bcause/factors/values/treedictops.py
+++ b/bcause/factors/values/treedictops.py
@@ -109,6 +109,9 @@ class TreeDictStoreOperations(OperationSet):
     def restrict(store : 'TreeDictStore', observation:dict) -> 'TreeDictStore':
         if any([type(v)==list for v in observation.values()]):
             raise NotImplementedError("Restriction to an extended configuration not implemented")
+        for v, s in observation.items():
+            if v in store.domain and s not in store.domain[v]:
+                raise KeyError(f"{s} is not a state of {v}")
         new_data = TreeDictStoreOperations._restrict_dict(store.data, observation)
         new_dom = OrderedDict([(k, d) for k, d in store.domain.items() if k not in observation])
         return store.builder(data = new_data, domain = new_dom)
\ No newline at end of file
-- 
2.43.0


From d922f0725186228e6fdcad11d0c273644c2b8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 37/37] fix: sampling the endogenous variables as a list of
 records

---
 bcause/models/cmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index cd5aef8..ab814bf 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -247,7 +247,10 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
 
     def sampleEndogenous(self, n_samples: int, as_pandas = True) -> Union[list[Dict], pd.DataFrame]:
-        return self.sample(n_samples, as_pandas)[self.endogenous]
+        data = self.sample(n_samples)[self.endogenous]
+        if not as_pandas:
+            data = data.to_dict("records")
+        return data
 
     def log_likelihood(self, data, variables=None):
         bn = self.get_qbnet()
-- 
2.43.0

