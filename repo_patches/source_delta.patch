From 23aa30f1d5dad915c5687f4360f2b2bc8bc0d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 01/38] fix: report final_generation_ when the run ends at
 max_generation

---
 eckity/algorithms/algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index fdb24fb..65acec5 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -290,6 +290,9 @@ class Algorithm(Operator, ABC):
                 self.publish("after_generation")
                 break
             self.publish("after_generation")
+        else:
+            # no early termination, the run ended in its last generation
+            self.final_generation_ = self.generation_num
 
     def update_gen(self, gen: int) -> None:
         """
-- 
2.43.0


From c60906230228fe66a17ddb263827eb9671c16649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 02/38] fix: keep elite individuals as they are when breeding

---
 eckity/breeders/simple_breeder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/eckity/breeders/simple_breeder.py b/eckity/breeders/simple_breeder.py
index 6836646..13cc02f 100644
--- a/eckity/breeders/simple_breeder.py
+++ b/eckity/breeders/simple_breeder.py
@@ -65,12 +65,14 @@ class SimpleBreeder(Breeder):
             ][0].select(subpopulation.individuals, nextgen_population)
 
             # then runs all operators on next_gen
-            nextgen_population = self._apply_operators(
+            # (elites are copied to the next generation as they are)
+            elites = self.selected_individuals[:num_elites]
+            offspring = self._apply_operators(
                 subpopulation.get_operators_sequence(),
-                self.selected_individuals,
+                self.selected_individuals[num_elites:],
             )
 
-            subpopulation.individuals = nextgen_population
+            subpopulation.individuals = elites + offspring
 
     def _apply_operators(self, operator_seq, individuals_to_apply_on):
         """
@@ -91,7 +93,9 @@ class SimpleBreeder(Breeder):
         """
         for operator in operator_seq:
             operator_arity = operator.get_operator_arity()
-            for i in range(0, len(individuals_to_apply_on), operator_arity):
+            # elites may leave a last group that is smaller than the arity
+            n_groups = len(individuals_to_apply_on) // operator_arity
+            for i in range(0, n_groups * operator_arity, operator_arity):
                 op_res = operator.apply_operator(
                     individuals_to_apply_on[i: i + operator_arity]
                 )
-- 
2.43.0


From 33008044f9ad0a29f1038e536cc07bb70714f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 03/38] fix: assign fitness scores when evaluating with
 executor_method="submit"

---
 eckity/evaluators/simple_population_evaluator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/evaluators/simple_population_evaluator.py b/eckity/evaluators/simple_population_evaluator.py
index e0f1b54..d61c6ef 100644
--- a/eckity/evaluators/simple_population_evaluator.py
+++ b/eckity/evaluators/simple_population_evaluator.py
@@ -48,9 +48,7 @@ class SimplePopulationEvaluator(PopulationEvaluator):
 
         if self.executor_method == "submit":
             eval_futures = [
-                self.executor.submit(
-                    sp_eval.evaluate, ind, sub_population.individuals
-                )
+                self.executor.submit(sp_eval.evaluate_individual, ind)
                 for ind in sub_population.individuals
             ]
             eval_results = [future.result() for future in eval_futures]
-- 
2.43.0


From e377547920b21dac7638fa7471d44434dff227f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 04/38] fix: swap the alternate parts between all k crossover
 points

---
 eckity/genetic_operators/crossovers/vector_k_point_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
index d58fb19..ec4fd59 100644
--- a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
+++ b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
@@ -85,4 +85,4 @@ class VectorKPointsCrossover(GeneticOperator):
             replaced_part = vector1[start_idx:end_idx]
             vector1[start_idx:end_idx] = vector2[start_idx:end_idx]
             vector2[start_idx:end_idx] = replaced_part
-            start_idx = xo_points[i + 1] if end_idx < len(xo_points) else -1
+            start_idx = xo_points[i + 1] if end_idx < len(vector1) else -1
-- 
2.43.0


From e916f8c2a19925cba198914b7ae6a565abc249b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 05/38] fix: bounds check of vectors of length 2 with per-cell
 bounds

---
 eckity/genetic_encodings/ga/vector_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/ga/vector_individual.py b/eckity/genetic_encodings/ga/vector_individual.py
index 8e6939e..42f015b 100644
--- a/eckity/genetic_encodings/ga/vector_individual.py
+++ b/eckity/genetic_encodings/ga/vector_individual.py
@@ -89,7 +89,7 @@ class Vector(Individual):
             True if all vector cells are in bounds, False otherwise
         """
         for i in range(self.size()):
-            if len(self.bounds) == 2:
+            if type(self.bounds) == tuple:
                 if (self.vector[i] < self.bounds[0]) or (
                     self.vector[i] > self.bounds[1]
                 ):
-- 
2.43.0


From 3b21bcdd30bc635ca9a5aa540553913d377d8d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 06/38] fix: default mutated value getter of
 VectorNPointMutation

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 253c623..71a701b 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -69,7 +69,7 @@ class VectorNPointMutation(FailableOperator):
 
     @staticmethod
     def default_mut_val_getter(vec: Vector, idx: int) -> Union[int, float]:
-        return vec.get_random_number_in_bounds(vec, idx)
+        return vec.get_random_number_in_bounds(idx)
 
     @staticmethod
     def default_success_checker(old_vec: Vector, new_vec: Vector) -> bool:
-- 
2.43.0


From a3ecdfeaa867381c57911b9a7bff8f344a8d72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 07/38] fix: vector mutation returns its individuals after
 failing all attempts

---
 .../genetic_operators/mutations/vector_n_point_mutation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 71a701b..10785c8 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -132,5 +132,10 @@ class VectorNPointMutation(FailableOperator):
         ----------
         payload : object
             relevant data for on_fail (usually the individuals that the mutation was attempted to be applied on)
+
+        Returns
+        ----------
+        object
+            the payload, without any changes
         """
-        pass
+        return payload
-- 
2.43.0


From 1b5346baba4d47f7b56e63f3e3b0b4f1b7badfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 08/38] fix: random terminals always have the requested type

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 58fa8d4..7607a1c 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -203,7 +203,7 @@ class Tree(Individual):
         ]
 
         if self.erc_range is not None and (
-            node_type is None or issubclass(node_type, Number)
+            node_type is None or node_type == self.erc_type
         ):
             relevant_terminals.append(
                 random.uniform(*self.erc_range)
@@ -217,11 +217,8 @@ class Tree(Individual):
 
         terminal = random.choice(relevant_terminals)
 
-        # erc terminal will be typeless in untyped case,
-        # and int/float in typed case
-        default_type = None if node_type is None else type(terminal)
-        node_type = self.terminal_set.get(terminal, default_type)
-
+        # terminals (including erc) are typeless in untyped case,
+        # and have the requested type in typed case
         return TerminalNode(terminal, node_type=node_type)
 
     def execute(self, *args, **kwargs) -> object:
-- 
2.43.0


From ad4658aa83949b61ef65eb9c661d1299bd8be343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 09/38] fix: execute and show trees with numeric constants in
 the terminal set

---
 .../gp/tree/tree_individual.py                 | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 7607a1c..8ca5e49 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -266,7 +266,12 @@ class Tree(Individual):
                 f"received variable arguments not in terminal set: {bad_vars}"
             )
 
-        missing_vars = [item for item in self.terminal_set if item not in kw]
+        # numeric terminals are constants, not variables
+        missing_vars = [
+            item
+            for item in self.terminal_set
+            if item not in kw and not isinstance(item, Number)
+        ]
         if len(missing_vars) > 0:
             raise ValueError(
                 f"Missing variable terminals as execute kwargs: {missing_vars}"
@@ -495,11 +500,12 @@ class Tree(Individual):
         def func_0(x: float, y: float) -> float:
             return typed_add(1.0, 2.0)
         """
-        args = (
-            list(self.terminal_set.keys())
-            if None in self.terminal_set.values()
-            else [f"{k}: {v.__name__}" for k, v in self.terminal_set.items()]
-        )
+        # numeric terminals are constants, not arguments of the program
+        args = [
+            k if v is None else f"{k}: {v.__name__}"
+            for k, v in self.terminal_set.items()
+            if not isinstance(k, Number)
+        ]
         ret_type_str = (
             ""
             if None in self.terminal_set.values()
-- 
2.43.0


From 317bfba257ba5ce8c567e359c106591937eae499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 10/38] fix: constant programs keep their value on integer
 inputs

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 8ca5e49..d475bc2 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -281,7 +281,7 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full_like(X[:, 0], res)
+            res = np.full(X.shape[0], res, dtype=np.result_type(X, res))
         return res
 
     def _execute(self, pos, **kwargs):
-- 
2.43.0


From 999652f2d65a2610c9b2a99289470751cfb6f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 11/38] fix: execute trees with a terminal named pos

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index d475bc2..bf9f5d5 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -284,7 +284,7 @@ class Tree(Individual):
             res = np.full(X.shape[0], res, dtype=np.result_type(X, res))
         return res
 
-    def _execute(self, pos, **kwargs):
+    def _execute(self, pos, /, **kwargs):
         """
         Recursively execute the tree by traversing it in a depth-first order
         (pos is a size-1 list so as to pass "by reference"
-- 
2.43.0


From b829635245772acb6e652252abb2f289c34c6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 12/38] fix: tree operators reach every node, also when equal
 nodes precede it

---
 .../genetic_encodings/gp/tree/tree_individual.py  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index bf9f5d5..0faa750 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -337,10 +337,10 @@ class Tree(Individual):
         relevant_nodes = self.filter_tree(
             lambda node: node.node_type is None  # untyped case
             or (
-                node_type is None and node != self.root
+                node_type is None and node is not self.root
             )  # typed case with first invocation
             or (
-                node.node_type == node_type and node != self.root
+                node.node_type == node_type and node is not self.root
             )  # typed case with subsequent invocations
         )
         if not relevant_nodes:
@@ -349,8 +349,15 @@ class Tree(Individual):
 
         return self._get_subtree_by_root(subtree_root)
 
+    def _index_of(self, node: TreeNode) -> int:
+        """Index of the given node itself, or else of a node equal to it"""
+        for i, tree_node in enumerate(self.tree):
+            if tree_node is node:
+                return i
+        return self.tree.index(node)
+
     def _get_subtree_by_root(self, subtree_root: TreeNode) -> List[TreeNode]:
-        start_i = self.tree.index(subtree_root)
+        start_i = self._index_of(subtree_root)
 
         if start_i == 0:
             return self.tree
@@ -372,7 +379,7 @@ class Tree(Individual):
         -------
         None
         """
-        start_i = self.tree.index(old_subtree[0])
+        start_i = self._index_of(old_subtree[0])
         end_i = start_i + len(old_subtree)
         left_part = self.tree[:start_i]
         right_part = self.tree[end_i:]
-- 
2.43.0


From 3211d8c4a37cab97a443244665d182bfd544155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 13/38] fix: ERC mutation keeps the type of typed constants

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 1 +
 eckity/genetic_operators/mutations/erc_mutation.py  | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 0faa750..d5ca701 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -327,6 +327,7 @@ class Tree(Individual):
         erc_nodes = self.filter_tree(
             lambda node: isinstance(node, TerminalNode)
             and isinstance(node.value, Number)
+            and not isinstance(node.value, bool)
         )
         return random.choice(erc_nodes) if erc_nodes else None
 
diff --git a/eckity/genetic_operators/mutations/erc_mutation.py b/eckity/genetic_operators/mutations/erc_mutation.py
index 083bdd1..10dacee 100644
--- a/eckity/genetic_operators/mutations/erc_mutation.py
+++ b/eckity/genetic_operators/mutations/erc_mutation.py
@@ -41,7 +41,11 @@ class ERCMutation(FailableOperator):
 
         mu, sigma = self.mu, self.sigma
         for terminal in leaves:
-            terminal.value = terminal.value + random.gauss(mu, sigma)
+            new_value = terminal.value + random.gauss(mu, sigma)
+            # constants of integer nodes must remain integers
+            terminal.value = (
+                round(new_value) if terminal.node_type is int else new_value
+            )
 
         self.applied_individuals = individuals
         return True, individuals
-- 
2.43.0


From 93bfe39caab96dd2ab55cef620e1ac43c800ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 14/38] fix: trees do not share their default fitness instance

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index d5ca701..53dbf9b 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -34,7 +34,7 @@ class Tree(Individual):
 
     def __init__(
         self,
-        fitness: Fitness = GPFitness(),
+        fitness: Fitness = None,
         function_set: List[Callable] = None,
         terminal_set: Union[Dict[Any, type], List[Any]] = None,
         tree: List[TreeNode] = None,
@@ -69,6 +69,8 @@ class Tree(Individual):
         ValueError
             If typed function is used with untyped terminals.
         """
+        if fitness is None:
+            fitness = GPFitness()
         super().__init__(fitness, update_parents=update_parents)
 
         self.erc_range = erc_range
-- 
2.43.0


From 53e96a559604c2373b361e82715cdef187236462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 15/38] fix: typed numeric and/or functions return their
 declared type

---
 eckity/base/typed_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eckity/base/typed_functions.py b/eckity/base/typed_functions.py
index 3ce0c5d..5bfad2a 100644
--- a/eckity/base/typed_functions.py
+++ b/eckity/base/typed_functions.py
@@ -102,12 +102,12 @@ def ifgt_floats(x: float, y: float, z: float, w: float) -> float:
 
 def and2floats(x: float, y: float) -> float:
     """x and y"""
-    return np.logical_and(x, y)
+    return np.logical_and(x, y).astype(float)
 
 
 def or2floats(x: float, y: float) -> float:
     """x or y"""
-    return np.logical_or(x, y)
+    return np.logical_or(x, y).astype(float)
 
 
 def not2floats(x: float) -> float:
@@ -126,12 +126,12 @@ def argmax2floats(x0: float, x1: float) -> t_argmax:
 
 def and2ints(x: int, y: int) -> int:
     """x and y"""
-    return np.logical_and(x, y)
+    return np.logical_and(x, y).astype(int)
 
 
 def or2ints(x: int, y: int) -> int:
     """x or y"""
-    return np.logical_or(x, y)
+    return np.logical_or(x, y).astype(int)
 
 
 def not2ints(x: int) -> int:
-- 
2.43.0


From 91d347e2439abacde190cbfacaa3e5cebe44e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 16/38] fix: argmax2floats of a constant and an array

---
 eckity/base/typed_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/base/typed_functions.py b/eckity/base/typed_functions.py
index 5bfad2a..1325a2c 100644
--- a/eckity/base/typed_functions.py
+++ b/eckity/base/typed_functions.py
@@ -121,7 +121,7 @@ def if_then_else(test: bool, dit: Any, dif: Any) -> float:
 
 
 def argmax2floats(x0: float, x1: float) -> t_argmax:
-    return np.argmax([x0, x1], axis=0)
+    return np.argmax(np.broadcast_arrays(x0, x1), axis=0)
 
 
 def and2ints(x: int, y: int) -> int:
-- 
2.43.0


From 6641ae789672a361f4d52c880f43b586165edeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 17/38] fix: HalfCreator passes its bloat_weight to its default
 creators

---
 eckity/creators/gp_creators/half.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index f24ed9a..27e664d 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -63,6 +63,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
@@ -72,6 +73,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
-- 
2.43.0


From 6981f137f5eaa624413309daf6a63cc6f72cca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 18/38] fix: clones do not inherit selected_by and
 applied_operators

---
 eckity/individual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eckity/individual.py b/eckity/individual.py
index 78c541d..33e0eb8 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -62,6 +62,9 @@ class Individual:
     def clone(self):
         result = deepcopy(self)
         result.cloned_from = self.id
+        # these fields only refer to the last generation
+        result.selected_by = []
+        result.applied_operators = []
         if result.update_parents:
             result.parents = []
         result.update_id()
-- 
2.43.0


From 5ab779e846059f38afbb2a3970d9f91afe6d2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 19/38] fix: accept creation probabilities that sum to 1 up to
 rounding

---
 eckity/subpopulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/subpopulation.py b/eckity/subpopulation.py
index a7d2d1e..7cdd722 100644
--- a/eckity/subpopulation.py
+++ b/eckity/subpopulation.py
@@ -1,4 +1,5 @@
 import logging
+import math
 import random
 
 import numpy as np
@@ -101,7 +102,7 @@ class Subpopulation:
                 f"Number of creators ({len(creators)}) \
                 must match number of creation probabilities {(len(pcr))}!"
             )
-        if sum(pcr) != 1:
+        if not math.isclose(sum(pcr), 1):
             raise ValueError(
                 f"Sum of creation probabilities ({pcr}) must be 1!"
             )
-- 
2.43.0


From 3c47ae56eff36ef8baa1a30ac0e9c3f481593cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 20/38] fix: default bounds of IntVector were reversed

---
 eckity/genetic_encodings/ga/int_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/ga/int_vector.py b/eckity/genetic_encodings/ga/int_vector.py
index aa99d3f..2324e76 100644
--- a/eckity/genetic_encodings/ga/int_vector.py
+++ b/eckity/genetic_encodings/ga/int_vector.py
@@ -6,8 +6,8 @@ from random import randint
 
 from eckity.genetic_encodings.ga.vector_individual import Vector
 
-MIN_BOUND = 2**31 - 1
-MAX_BOUND = -(2**31)
+MIN_BOUND = -(2**31)
+MAX_BOUND = 2**31 - 1
 
 
 class IntVector(Vector):
-- 
2.43.0


From dbb75854e2c1421eb25f557e8b59858df3e6870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 21/38] fix: registering to an event without a callback

---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index fc507a5..c616401 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -2,6 +2,10 @@ BEFORE_OPERATOR_EVENT_NAME = 'before_operator'
 AFTER_OPERATOR_EVENT_NAME = 'after_operator'
 
 
+def do_nothing(sender, data_dict):
+    """Default callback of subscribers"""
+
+
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = event_names if event_names is not None else []
@@ -20,7 +24,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = {lambda _: None}
+            callback = do_nothing
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From 9ea5c939bcb78006439dec46ce4ac690b9e98fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 22/38] fix: allow registering and unregistering during the
 publication of an event

---
 eckity/before_after_publisher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index c616401..089ad68 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -35,7 +35,8 @@ class BeforeAfterPublisher:
 
     def publish(self, event_name):
         struct = self.event_name_to_data(event_name)
-        for subscriber, callback in self._get_subscribers(event_name).items():
+        # callbacks are allowed to register and unregister subscribers
+        for callback in list(self._get_subscribers(event_name).values()):
             callback(self, struct)
 
     def event_name_to_data(self, event_name):
-- 
2.43.0


From 53f80615184d12f9dc4a48fa66b7a9438a5dd77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 23/38] fix: operators and creators accept a list of event
 names

---
 eckity/before_after_publisher.py | 6 ++++--
 eckity/creators/creator.py       | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 089ad68..b2e16d5 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -8,9 +8,11 @@ def do_nothing(sender, data_dict):
 
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
-        ext_events_names = event_names if event_names is not None else []
-        if events is None:
+        ext_events_names = list(event_names) if event_names is not None else []
+        if not isinstance(events, dict):
             # Initialize events dictionary with event names as keys and subscribers as values
+            # (events may be a list of additional event names)
+            ext_events_names.extend(events if events is not None else [])
             ext_events_names.extend([BEFORE_OPERATOR_EVENT_NAME, AFTER_OPERATOR_EVENT_NAME])
             self.events = {event: {} for event in ext_events_names}
         else:
diff --git a/eckity/creators/creator.py b/eckity/creators/creator.py
index 5946031..babc57c 100644
--- a/eckity/creators/creator.py
+++ b/eckity/creators/creator.py
@@ -8,7 +8,7 @@ from eckity.fitness.simple_fitness import SimpleFitness
 
 class Creator(Operator):
     def __init__(self, events=None, fitness_type=SimpleFitness):
-        super().__init__(events)
+        super().__init__(events=events)
         self.created_individuals = None
         self.fitness_type = fitness_type
 
-- 
2.43.0


From 6921b4ae9646ded56ae2502387a5a4a0ea4ab308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 24/38] fix: serialization of algorithms after the evolution
 has started

---
 eckity/evaluators/population_evaluator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eckity/evaluators/population_evaluator.py b/eckity/evaluators/population_evaluator.py
index 98faec5..ca764b6 100644
--- a/eckity/evaluators/population_evaluator.py
+++ b/eckity/evaluators/population_evaluator.py
@@ -29,3 +29,9 @@ class PopulationEvaluator(Operator):
 
 	def set_executor(self, executor: Executor):
 		self.executor = executor
+
+	def __getstate__(self):
+		# the executor cannot be pickled, it is set again upon initialization
+		state = self.__dict__.copy()
+		state["executor"] = None
+		return state
-- 
2.43.0


From fb89957a5bbe9245634dea36eec20c384165f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 25/38] fix: reproducible order of the individuals in NSGA2
 front sorting

---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 3e34ef2..49ecb9d 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -58,7 +58,9 @@ class NSGA2FrontSorting():
 		for dominating_ind in pareto_front:
 			for dominated_ind in self.domination_dict[dominating_ind].dominates:
 				self.domination_dict[dominated_ind].domination_counter -= 1
-		return list(set(source_inds) - set(pareto_front))
+		# keep the order of the individuals for reproducibility
+		pareto_front = set(pareto_front)
+		return [ind for ind in source_inds if ind not in pareto_front]
 
 	def _update_new_pareto_front_rank(self, new_pareto_front: List[Individual], front_rank: int):
 		for ind in new_pareto_front:
-- 
2.43.0


From b44efb53b1c4657b285544dcaf64394b5c7efa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 26/38] fix: NSGA2 fitness with a lower front rank is better

---
 eckity/multi_objective_evolution/nsga2_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_fitness.py b/eckity/multi_objective_evolution/nsga2_fitness.py
index 3bc7714..a5c29d5 100644
--- a/eckity/multi_objective_evolution/nsga2_fitness.py
+++ b/eckity/multi_objective_evolution/nsga2_fitness.py
@@ -82,7 +82,7 @@ class NSGA2Fitness(Fitness):
             self.check_comparable_fitnesses(other_fitness, ind, other_ind)
             if self.front_rank == other_ind.fitness.front_rank:
                 return self.crowding > other_ind.fitness.crowding
-            return self.front_rank > other_ind.fitness.front_rank
+            return self.front_rank < other_ind.fitness.front_rank
 
     def equal_to(self, ind, other_fitness, other_ind):
         return (
-- 
2.43.0


From bb0dc044fce217ab398b35a324e480df7b718315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 27/38] fix: default breeder and termination checker of
 NSGA2Evolution

---
 .../multi_objective_evolution/nsga2_evolution.py  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index fd26bea..da38bad 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -4,13 +4,12 @@ from time import time
 from overrides import overrides
 
 from eckity.algorithms.algorithm import Algorithm
-from eckity.breeders.simple_breeder import SimpleBreeder
 from eckity.evaluators import SimplePopulationEvaluator
+from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
 from eckity.multi_objective_evolution.nsga2_front_sorting import (
     NSGA2FrontSorting,
 )
 from eckity.random import RNG
-from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
 
 logger = logging.getLogger(__name__)
 
@@ -20,13 +19,13 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=SimpleBreeder(),
-        population_evaluator=SimplePopulationEvaluator(),
+        breeder=None,
+        population_evaluator=None,
         NSGA2FrontSorting=NSGA2FrontSorting(),
         max_generation=500,
         events=None,
         event_names=None,
-        termination_checker=ThresholdFromTargetTerminationChecker(threshold=0),
+        termination_checker=None,
         executor="thread",
         max_workers=None,
         random_generator=RNG(),
@@ -52,6 +51,12 @@ class NSGA2Evolution(Algorithm):
         if statistics is None:
             statistics = []
 
+        if breeder is None:
+            breeder = NSGA2Breeder()
+
+        if population_evaluator is None:
+            population_evaluator = SimplePopulationEvaluator()
+
         super().__init__(
             population,
             statistics=statistics,
-- 
2.43.0


From 37c93ac0228ccd953115a61ac91ad1d1bc40db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 28/38] fix: NSGA2Evolution shuts down its executor when it
 finishes

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index da38bad..a1ea494 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -159,6 +159,7 @@ class NSGA2Evolution(Algorithm):
         """
         Finish the evolutionary run by showing the best individual and printing the best fitness
         """
+        super().finish()
         self.best_of_run_.show()
         logger.info(self.best_of_run_.get_pure_fitness())
 
-- 
2.43.0


From c9c31dc02d9a72e3dbc1c883c4fc90998960e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 29/38] fix: MOEBestWorstStatistics with more than two corners

---
 eckity/multi_objective_evolution/moe_best_worst_statistics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/moe_best_worst_statistics.py b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
index 398c382..e63d88f 100644
--- a/eckity/multi_objective_evolution/moe_best_worst_statistics.py
+++ b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
@@ -75,5 +75,4 @@ class MOEBestWorstStatistics(Statistics):
             and indiv.fitness.crowding == float("inf")
         ]
         result = [list(x) for x in set(tuple(x) for x in result)]  # unique
-        assert len(result) in [1, 2]
         return result
-- 
2.43.0


From f8bd2bb8053bd1a06f662fd6576cc39c228103b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:43 +0000
Subject: [PATCH 30/38] fix: SimpleEvolution instances do not share a default
 breeder

---
 eckity/algorithms/simple_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index fd50949..409ce14 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -85,7 +85,7 @@ class SimpleEvolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder: SimpleBreeder = SimpleBreeder(),
+        breeder: SimpleBreeder = None,
         population_evaluator: SimplePopulationEvaluator = None,
         max_generation=500,
         events=None,
-- 
2.43.0


From 5b04590f011294d4a5c9e8b170a282055989848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:40 +0000
Subject: [PATCH 31/38] fix: a failed attempt of a vector mutation reverts all
 of its individuals

---
 .../genetic_operators/mutations/vector_n_point_mutation.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 10785c8..339e3ca 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -100,9 +100,11 @@ class VectorNPointMutation(FailableOperator):
             second return value is the operator result
         """
         succeeded = True
+        old_individuals = []
         for individual in individuals:
             # clone the individual to revert in case of failure
             old_individual = individual.clone()
+            old_individuals.append(old_individual)
 
             # randomly select n points of the vector (without repetitions)
             m_points = self.cell_selector(individual)
@@ -118,7 +120,8 @@ class VectorNPointMutation(FailableOperator):
 
             if not self.success_checker(old_individual, individual):
                 succeeded = False
-                individual.set_vector(old_individual.vector)
+                for ind, old_ind in zip(individuals, old_individuals):
+                    ind.set_vector(old_ind.vector)
                 break
 
         self.applied_individuals = individuals
-- 
2.43.0


From a5326b14e7515cc2c627ddff8cc60a27fcb90e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 32/38] fix: bit string vectors accept bounds given per cell

---
 eckity/genetic_encodings/ga/bit_string_vector.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/ga/bit_string_vector.py b/eckity/genetic_encodings/ga/bit_string_vector.py
index d18bbc2..f325abc 100644
--- a/eckity/genetic_encodings/ga/bit_string_vector.py
+++ b/eckity/genetic_encodings/ga/bit_string_vector.py
@@ -53,13 +53,19 @@ class BitStringVector(Vector):
         int
             random value according to bounds field
         """
-        return randint(self.bounds[0], self.bounds[1])
+        low, high = self._get_cell_bounds(index)
+        return randint(low, high)
 
     def bit_flip(self, index):
         """
         Flip the bit in the given index.
         """
-        return self.bounds[1] \
-            if self.cell_value(index) == self.bounds[0] else self.bounds[0]
+        low, high = self._get_cell_bounds(index)
+        return high if self.cell_value(index) == low else low
+
+    def _get_cell_bounds(self, index):
+        if type(self.bounds) == tuple:
+            return self.bounds
+        return self.bounds[index]
 
 # end class bit string vector
-- 
2.43.0


From 1677c38038265eea1d06f580bec38e969540c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:29 +0000
Subject: [PATCH 33/38] fix: the library's argmax type can be pickled

---
 eckity/base/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/base/types.py b/eckity/base/types.py
index 7bcd016..2f936b2 100644
--- a/eckity/base/types.py
+++ b/eckity/base/types.py
@@ -1 +1 @@
-t_argmax = type("argmax", (int,), {})
+t_argmax = type("t_argmax", (int,), {})
-- 
2.43.0


From 81213eaa533f8d5a63638e1a82b7f08d6e906479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 34/38] fix: a fitted estimator stays fitted when it is
 serialized

---
 eckity/sklearn_compatible/sklearn_wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eckity/sklearn_compatible/sklearn_wrapper.py b/eckity/sklearn_compatible/sklearn_wrapper.py
index 832dece..1e1ed81 100644
--- a/eckity/sklearn_compatible/sklearn_wrapper.py
+++ b/eckity/sklearn_compatible/sklearn_wrapper.py
@@ -73,7 +73,10 @@ class SklearnWrapper:
     #     return self.is_fitted_
 
     def get_params(self, deep=True):
-        return self.__getstate__()
+        params = self.__dict__.copy()
+        # the result of fitting is not a parameter
+        params.pop('is_fitted_', None)
+        return params
 
     def set_params(self, **parameters):
         self.algorithm.__setstate__(parameters)
@@ -84,10 +87,7 @@ class SklearnWrapper:
         pass
 
     def __getstate__(self):
-        state = self.__dict__.copy()
-        if 'is_fitted_' in state:
-            del state['is_fitted_']
-        return state
+        return self.__dict__.copy()
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From d2b10e97c45e40ac16b8e79c56830b757f42d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:49 +0000
Subject: [PATCH 35/38] fix: uniform fallback of a Gaussian mutation that acts
 is always performed

---
 eckity/genetic_operators/mutations/vector_random_mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 1f3cfff..e950500 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -131,7 +131,7 @@ class FloatVectorGaussOnePointMutation(VectorNPointMutation):
         Handle gauss mutation failure by performing uniform mutation.
         """
         mut = FloatVectorUniformOnePointMutation(
-            self.probability, self.arity, self.events
+            1.0, self.arity, self.events
         )
         return mut.apply_operator(payload)
 
@@ -189,7 +189,7 @@ class FloatVectorGaussNPointMutation(VectorNPointMutation):
         Handle gauss mutation failure by performing uniform mutation.
         """
         mut = FloatVectorUniformNPointMutation(
-            self.n, self.probability, self.arity, self.events
+            self.n, 1.0, self.arity, self.events
         )
         return mut.apply_operator(payload)
 
-- 
2.43.0


From a2b2cefa59bab7ff847a768f3ccb6dde6f1a404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 36/38] fix: default bounds of GAVectorCreator fit its default
 bit string vectors

---
 eckity/creators/ga_creators/simple_vector_creator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/creators/ga_creators/simple_vector_creator.py b/eckity/creators/ga_creators/simple_vector_creator.py
index 4d949e6..836f215 100644
--- a/eckity/creators/ga_creators/simple_vector_creator.py
+++ b/eckity/creators/ga_creators/simple_vector_creator.py
@@ -8,7 +8,7 @@ class GAVectorCreator(Creator):
         self,
         length=1,
         gene_creator=None,
-        bounds=(0.0, 1.0),
+        bounds=(0, 1),
         vector_type=BitStringVector,
         fitness_type=SimpleFitness,
         events=None,
-- 
2.43.0


From 10fcc8aceffd17107902d4585b09e9a71d62dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 37/38] fix: programs that are a negative constant accept
 unsigned inputs

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 53dbf9b..9628f5f 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -283,7 +283,7 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full(X.shape[0], res, dtype=np.result_type(X, res))
+            res = np.full(X.shape[0], res)
         return res
 
     def _execute(self, pos, /, **kwargs):
-- 
2.43.0


From 13a7ab059ad1320a518455c413357e57329f3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 38/38] fix: building a typed tree node by node checks the type
 of the argument it fills

add_tree compared a node that completes an inner call with the type of the
outer call's argument, so valid nested typed programs were refused, and it
accepted a root of any type
---
 .../gp/tree/tree_individual.py                | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 9628f5f..a309c63 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -111,36 +111,37 @@ class Tree(Individual):
 
     def add_tree(self, node: TreeNode) -> None:
         """Add a node to the tree following the defined type constrains"""
-        if (
-            self.size() == 0 and node.node_type == self.root_type
-        ) or self._should_add([0], node):
+        if self.size() == 0:
+            # (an untyped function may be the root of any tree)
+            valid = node.node_type in (self.root_type, None)
+        else:
+            valid = self._should_add([0], node)
+
+        if valid:
             self.tree.append(node)
         else:
             raise ValueError(f"Could not add node {node} to tree {self.tree}")
 
-    def _should_add(self, pos: int, new_node: TreeNode) -> bool:
+    def _should_add(
+        self, pos: List[int], new_node: TreeNode
+    ) -> Optional[bool]:
         """
         Recursively find the parent function of the new node and check it
         matches by type to the expected parameter. (pos is a size-1 list
         so as to pass "by reference" on successive recursive calls).
         """
-        if (
-            pos[0] == self.size()
-        ):  # reached the place the new node should be placed
-            return True
-
         node = self.tree[pos[0]]
-        res = None
         if isinstance(node, FunctionNode):
             func_types = get_func_types(node.function)
             for i in range(node.n_args):
                 pos[0] += 1
-                res = self._should_add(pos, node)
-                if res:
+                if pos[0] == self.size():
+                    # reached the place the new node should be placed
                     return func_types[i] == new_node.node_type
-                elif res is not None:
+                res = self._should_add(pos, new_node)
+                if res is not None:
                     return res
-        return res
+        return None
 
     def empty_tree(self) -> None:
         self.tree = []
-- 
2.43.0

