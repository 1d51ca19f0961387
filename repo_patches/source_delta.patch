From 203090b68c58a0fea56781356c98b952d67300f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 01/20] fix: make change kernels use their linked sub-kernels

The copies of the sub-kernels were linked as parameters while the unlinked originals were used to compute the covariance, so the parameters being optimised, scored and described had no effect.
---
 GPy_ABCD/Kernels/changeOperators.py          | 3 +--
 GPy_ABCD/Kernels/changeWindowShiftedSides.py | 3 +--
 GPy_ABCD/Kernels/changeWindowThreePart.py    | 4 +---
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeOperators.py b/GPy_ABCD/Kernels/changeOperators.py
index 0029514..addc0b4 100644
--- a/GPy_ABCD/Kernels/changeOperators.py
+++ b/GPy_ABCD/Kernels/changeOperators.py
@@ -15,8 +15,7 @@ class ChangeKernelBase(CombinationKernel):
     def __init__(self, first, second, sigmoidal, location: float = 0., slope: float = 0.5, name = 'change_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeKernelBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies, so that optimised parameters are the ones used by K
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index fc81511..5eed005 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -16,8 +16,7 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
                  name = 'change_window_shifted_sides_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeWindowShiftedSidesBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies, so that optimised parameters are the ones used by K
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowThreePart.py b/GPy_ABCD/Kernels/changeWindowThreePart.py
index 41ef1b0..bdd1df3 100644
--- a/GPy_ABCD/Kernels/changeWindowThreePart.py
+++ b/GPy_ABCD/Kernels/changeWindowThreePart.py
@@ -17,9 +17,7 @@ class ChangeWindowIndependentBase(CombinationKernel):
         third = deepcopy(first) if third is None else third
         _newkerns = [kern.copy() for kern in (first, second, third)]
         super(ChangeWindowIndependentBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
-        self.third = third
+        self.first, self.second, self.third = _newkerns # I.e. the linked copies, so that optimised parameters are the ones used by K
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
-- 
2.43.0


From 0e263ee073c5c2654bf19912473bdadca20a9b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 02/20] fix: rewrite the left leaf of a change expression in
 place of its right branch

Expanding a bare left leaf (e.g. LIN in CP(LIN, PER)) replaced the right branch with the rewritten left one.
---
 GPy_ABCD/KernelExpressions/change.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/change.py b/GPy_ABCD/KernelExpressions/change.py
index 0c8afcc..74182cf 100644
--- a/GPy_ABCD/KernelExpressions/change.py
+++ b/GPy_ABCD/KernelExpressions/change.py
@@ -38,10 +38,15 @@ class ChangeKE(KernelExpression):
     def traverse(self):
         res = [self]
         # NOTE: this version adds new elements for raw string leaves (making them SumKE singletons); replace by comments to remove that behaviour
-        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [SumKE([self.left]).set_root(self.root).set_parent(self)]#[]
-        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [SumKE([self.right]).set_root(self.root).set_parent(self)]#[]
+        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [self._leaf_node('left')]#[]
+        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [self._leaf_node('right')]#[]
         return res
 
+    def _leaf_node(self, branch): # A SumKE singleton standing for a raw string leaf, remembering which branch it is so that reassign_child can replace it
+        leaf = SumKE([getattr(self, branch)]).set_root(self.root).set_parent(self)
+        leaf.leaf_branch = branch
+        return leaf
+
     def reduce(self, func, acc):
         # NOTE: this function DOES deal with raw string leaves; see further comments upstream; swap commented middle line for opposite behaviour
         return reduce(lambda acc2, branch: branch.reduce(func, acc2),
@@ -69,7 +74,7 @@ class ChangeKE(KernelExpression):
         return all([ct.parent is self and ct._check_all_parents() for ct in [self.left, self.right] if isinstance(ct, KernelExpression)])
 
     def reassign_child(self, old_child, new_child):
-        if self.left is old_child: self.left = new_child # NOT A deepcopy!
+        if self.left is old_child or (self.right is not old_child and getattr(old_child, 'leaf_branch', None) == 'left'): self.left = new_child # NOT A deepcopy!
         else: self.right = new_child # NOT A deepcopy! # I.e. elif self.right is old_child
         return new_child # NOTE THIS RETURN VALUE (used by new_tree_with_self_replaced)
 
-- 
2.43.0


From 884534633994253a02dafb536f1034a1a685079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 03/20] fix: keep a model's views in step with its last
 successful fit

The canonical form (and hence the interpretation) of an earlier fit was returned after refitting, and a failed fit left a half-optimised model in place.
---
 GPy_ABCD/Models/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/Models/model.py b/GPy_ABCD/Models/model.py
index 37762bd..6f194b8 100644
--- a/GPy_ABCD/Models/model.py
+++ b/GPy_ABCD/Models/model.py
@@ -25,10 +25,12 @@ class GPModel():
         if restarts is None:
             if self.restarts is None: raise ValueError('No restarts value specified')
         else: self.restarts = restarts
-        self.model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
+        model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
         with warnings.catch_warnings(): # Ignore known numerical warnings
             warnings.simplefilter('ignore')
-            self.model.optimize_restarts(num_restarts = self.restarts, verbose = verbose, robust = robust, optimizer = optimiser, **kwargs)
+            model.optimize_restarts(num_restarts = self.restarts, verbose = verbose, robust = robust, optimizer = optimiser, **kwargs)
+        self._sum_of_prods_kex = None # I.e. discard the canonical form of any previous fit
+        self.model = model # Only replace a previous fit if the new one succeeded
         return self
 
     @property
-- 
2.43.0


From 4d0b4200eeb62c3bb8f74db684d41d22944e2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 04/20] fix: make the order of candidate kernels independent of
 string hashing

Iterating over frozensets of strings made the order in which kernels are fitted, and hence the results of seeded searches, change with PYTHONHASHSEED.
---
 GPy_ABCD/KernelExpansion/grammar.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/grammar.py b/GPy_ABCD/KernelExpansion/grammar.py
index 92d8104..0bdb632 100644
--- a/GPy_ABCD/KernelExpansion/grammar.py
+++ b/GPy_ABCD/KernelExpansion/grammar.py
@@ -31,18 +31,18 @@ base_kerns_for_prod = base_kerns if __INCLUDE_SE_KERNEL else base_kerns - {'SE'}
 # Basic
 def plus_base(S):
     '''S -> S + B'''
-    return [deep_apply(add, S, B) for B in base_kerns_for_prod]
+    return [deep_apply(add, S, B) for B in sorted(base_kerns_for_prod)]
 def times_base(S):
     '''S -> S * B'''
-    return [deep_apply(multiply, S, B) for B in base_kerns_for_prod - {'C'}]
+    return [deep_apply(multiply, S, B) for B in sorted(base_kerns_for_prod - {'C'})]
 def replace_base(S):
     '''B -> B'''
-    return [deep_apply(swap_base, S, B) for B in base_kerns_for_prod]
+    return [deep_apply(swap_base, S, B) for B in sorted(base_kerns_for_prod)]
 
 # Change
 def change_new_base(S):
     '''S -> CP(S, B) and S -> CW(S, B)'''
-    return [deep_apply(both_changes, S, B) for B in base_kerns_for_prod - {'C'}]
+    return [deep_apply(both_changes, S, B) for B in sorted(base_kerns_for_prod - {'C'})]
 def change_same(S):
     '''S -> CP(S, S) and S -> CW(S, S)'''
     return [deep_apply(both_changes, S)]
@@ -59,10 +59,10 @@ def change_point_linear(S):
 # Heuristic
 def times_shifted_base(S):
     '''S -> S * (B + C)'''
-    return [deep_apply(multiply, S, SumKE([B, 'C'])) for B in base_kerns_for_prod - {'C'}]
+    return [deep_apply(multiply, S, SumKE([B, 'C'])) for B in sorted(base_kerns_for_prod - {'C'})]
 def replace_with_singleton(S):
     '''S -> B'''
-    return [deep_apply(replace_node, S, SumKE([B])) for B in base_kerns_for_prod]
+    return [deep_apply(replace_node, S, SumKE([B])) for B in sorted(base_kerns_for_prod)]
 def remove_some_term(S):
     '''S + S2 -> S and S * S2 -> S'''
     return [deep_apply(remove_a_term, S)]
@@ -117,10 +117,10 @@ def make_simple_kexs(pseudo_kexs): return [pseudo_to_real_kex(pkex)._initialise(
 # Default groups
 
 start_kernels = {
-    'Default': make_simple_kexs(list(base_kerns - {'SE'}) + # Base Kernels without SE
+    'Default': make_simple_kexs(sorted(base_kerns - {'SE'}) + # Base Kernels without SE
                                           [ProductKE(['LIN', 'LIN']), ProductKE(['LIN', 'LIN', 'LIN']), SumKE(['PER', 'C'])] + # More generic LIN and PER
                                           both_changes('LIN')), # To catch a possible changepoint or changewindow with simple enough shapes
-    'Extended': make_simple_kexs(list(base_kerns - {'SE'}) + # Base Kernels without SE
+    'Extended': make_simple_kexs(sorted(base_kerns - {'SE'}) + # Base Kernels without SE
                                           [ProductKE(['LIN', 'LIN']), ProductKE(['LIN', 'LIN', 'LIN']), SumKE(['PER', 'C'])] + # More generic LIN and PER
                                           [SumKE(['C'], [ck]) for ck in both_changes('LIN')]), # To catch a possible changepoint or changewindow with simple enough shapes
     'Original_ABCD': make_simple_kexs(['WN'])
-- 
2.43.0


From b379c7048bb935669941e263561a8b01e4408a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 05/20] fix: do not modify the search state given to
 model_search_rounds

Only some of the given lists were updated in place, so an error in a later round left the caller with an inconsistent state which then re-expanded models and dropped others when resumed.
---
 GPy_ABCD/Models/modelSearch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 000046b..97fdf98 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -117,6 +117,9 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     '''
     def score(m): return m.compute_utility(utility_function)
 
+    # Work on copies so that an interruption partway leaves the given search state as it was (and therefore resumable)
+    tested_models, tested_k_exprs, expanded = list(tested_models), list(tested_k_exprs), list(expanded)
+
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
         tested_models.append(sorted(model_list_fitter(X, Y, new_k_exprs, restarts, optimiser, max_retries), key = score))  # tested_models[d]
-- 
2.43.0


From 029fc1a9d6e98cb47fa88d4d32583ec7d4c38379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 06/20] fix: accept the same beam values when continuing a
 search

model_search_rounds failed on an integer beam and silently ran fewer rounds than requested on a short list, unlike explore_model_space.
---
 GPy_ABCD/Models/modelSearch.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 97fdf98..cf5dd82 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -45,6 +45,14 @@ def fit_mods_parallel_processes(X, Y, k_exprs, restarts = 5, optimiser = GPy_opt
     with Pool() as pool: return pool.starmap_async(fit_one_model, [(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1).get()
 
 
+def beam_list(beam, rounds):
+    '''Handle a beam argument: ensure it is a list of integers of length rounds'''
+    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
+        return beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
+    elif isinstance(beam, int): return [beam] * rounds
+    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+
+
 def explore_model_space(X, Y,
                         start_kernels: List[Union[str, KernelExpression]] = start_kernels['Default'], p_rules: List[Callable] = production_rules['Default'],
                         utility_function: Callable = BIC, rounds: int = 2, beam: Union[int, List[int]] = [3, 2, 1], restarts: int = 5,
@@ -90,11 +98,7 @@ def explore_model_space(X, Y,
     expanded = []
     tested_k_exprs = deepcopy(start_kexs)
 
-    # Handle beam argument: ensure it is a list of integers of length rounds
-    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
-        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
-    elif isinstance(beam, int): beam = [beam] * rounds
-    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+    beam = beam_list(beam, rounds)
 
     if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {beam[0]} moving forward]: {print_k_list(not_expanded[:beam[0]])}')
 
@@ -117,6 +121,8 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     '''
     def score(m): return m.compute_utility(utility_function)
 
+    beam = beam_list(beam, rounds)
+
     # Work on copies so that an interruption partway leaves the given search state as it was (and therefore resumable)
     tested_models, tested_k_exprs, expanded = list(tested_models), list(tested_k_exprs), list(expanded)
 
-- 
2.43.0


From c71f353ad1f6474df7369035485d9abbef5410ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 07/20] fix: do not crash when logging a round without models
 to list

Verbose searches raised IndexError if a round produced no new kernels, if every model had been expanded, or if 0 rounds were requested.
---
 GPy_ABCD/Models/modelSearch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index cf5dd82..0af327d 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -20,7 +20,7 @@ from GPy_ABCD.Util.genericUtil import flatten, diff, unique
 
 
 def print_k_list(k_or_model_list):
-    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
+    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if k_or_model_list and isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
 
 
 def fit_one_model(X, Y, kex, restarts, optimiser = GPy_optimisers[0], max_retries = 1):
@@ -99,14 +99,15 @@ def explore_model_space(X, Y,
     tested_k_exprs = deepcopy(start_kexs)
 
     beam = beam_list(beam, rounds)
+    first_beam = beam[0] if beam else 0 # I.e. 0 if no rounds were requested
 
-    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {beam[0]} moving forward]: {print_k_list(not_expanded[:beam[0]])}')
+    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {first_beam} moving forward]: {print_k_list(not_expanded[:max(first_beam, 1)])}')
 
     sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = model_search_rounds(X, Y,
                         sorted_models, tested_models, tested_k_exprs, expanded, not_expanded,
                         model_list_fitter, p_rules, utility_function, rounds, beam, restarts, optimiser, max_retries, verbose)
 
-    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:beam[0]])}\n')
+    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:max(first_beam, 1)])}\n')
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
 
-- 
2.43.0


From af3ebb44c0e61c2a806f7dad9705c74bedb88f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 08/20] fix: log the models of the current round when
 continuing a search

The log indexed the full list of rounds by the number of rounds in the current call, hence showing an earlier round's models.
---
 GPy_ABCD/Models/modelSearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 0af327d..53ede8e 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -136,7 +136,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
         not_expanded = diff(sorted_models, expanded) # More efficient than sorting another whole list
         tested_k_exprs += new_k_exprs
 
-        if verbose: print(f'Round-{r} models [{len(tested_models[r])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[r][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
+        if verbose: print(f'Round-{r} models [{len(tested_models[-1])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[-1][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
 
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
-- 
2.43.0


From 1f78a5e30aeba9669930f683c8a0de157f5443b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 09/20] fix: raise an error rather than hang when a
 model-fitting process dies

A Pool's pending result is never delivered if the worker holding it is killed (e.g. when out of memory), so the search waited forever.
---
 GPy_ABCD/Models/modelSearch.py | 8 +++++---
 README.rst                     | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 53ede8e..cfe4173 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -1,7 +1,9 @@
 import numpy as np
 from copy import deepcopy
 from operator import attrgetter
-from multiprocessing import Pool, cpu_count
+from concurrent.futures import ProcessPoolExecutor
+from itertools import repeat
+from multiprocessing import cpu_count
 from warnings import warn
 from typing import Callable, List, Dict, Tuple, Union
 
@@ -37,12 +39,12 @@ def fit_mods_not_parallel(X, Y, k_exprs, restarts = 5, optimiser = GPy_optimiser
     '''Fit models from a list of kernels to the same data NOT in parallel'''
     return [fit_one_model(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs]
 def fit_mods_parallel_processes(X, Y, k_exprs, restarts = 5, optimiser = GPy_optimisers[0], max_retries = 1):
-    '''Concurrently fit models (from a list of kernels) on the same data in as many processes as there are available processor cores using `multiprocessing`'s `Pool`
+    '''Concurrently fit models (from a list of kernels) on the same data in as many processes as there are available processor cores using `concurrent.futures`' `ProcessPoolExecutor` (which raises an error if a process dies, e.g. when out of memory, rather than waiting for it forever)
     (this function does NOT use GPy's own `parallel` argument, which parallelises within single fits rather than across multiple ones)
 
     NOTE: Any code calling this function (however many nested levels in) should be within an "if __name__ == '__main__':" preamble for full OS-agnostic use.
     '''
-    with Pool() as pool: return pool.starmap_async(fit_one_model, [(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1).get()
+    with ProcessPoolExecutor() as pool: return list(pool.map(fit_one_model, repeat(X), repeat(Y), k_exprs, repeat(restarts), repeat(optimiser), repeat(max_retries), chunksize = int(len(k_exprs) / cpu_count()) + 1))
 
 
 def beam_list(beam, rounds):
diff --git a/README.rst b/README.rst
index 2bf54fe..e9ac735 100644
--- a/README.rst
+++ b/README.rst
@@ -105,7 +105,7 @@ main model search function plus a few convenient tools (refer to the section bel
 
 - The main function :code:`explore_model_space`
 - The :code:`model_search_rounds` function to continue a search from where another left-off
-- Functions to be used as  :code:`model_list_fitter` argument: :code:`fit_mods_not_parallel` and :code:`fit_mods_parallel_processes` (using :code:`multiprocessing`'s :code:`Pool`)
+- Functions to be used as  :code:`model_list_fitter` argument: :code:`fit_mods_not_parallel` and :code:`fit_mods_parallel_processes` (using :code:`concurrent.futures`' :code:`ProcessPoolExecutor`)
 - The single-fit function :code:`fit_one_model`, on which the list-fitting functions above are built (so that a user may implement their preferred parallelisation)
 - Non-searching single-fit functions: :code:`fit_kex` (which takes :code:`KernelExpression` inputs and simplifies them if required) and :code:`fit_GPy_kern` (which takes GPy kernel inputs and returns GPy GPRegression objects, not full GPy-ABCD GPModel ones)
 - A few standard model-scoring functions: :code:`BIC`, :code:`AIC`, :code:`AICc`
-- 
2.43.0


From 2ec8f909bdabb2b71df4342ba27a7789f976f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 10/20] fix: describe components outside several change windows

Intersecting an interval with the outside of a window read a slope under a name which does not exist, so .interpret() raised KeyError for models with nested windows.
---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 0fc42de..08b3192 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -156,16 +156,16 @@ def intersect_segment_semiline(segment, semiline, res = None):
 def intersect_segment_hole(segment, hole, res = []):
     if segment['start'] < hole['end']:
         if segment['end'] < hole['end']: res.append(segment)
-        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['slope']})
+        else: res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['end_slope']})
     if segment['end'] > hole['start']:
         if segment['start'] > hole['start']: res.append(segment)
-        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['slope'], 'end_slope': segment['end_slope']})
+        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['start_slope'], 'end_slope': segment['end_slope']})
     return res
 
 def intersect_semiline_hole(semiline, hole, res = []):
     if 'start' not in semiline:
         if hole['end'] < semiline['end']:
-            res.append({'end': hole['end'], 'end_slope': hole['slope']})
+            res.append({'end': hole['end'], 'end_slope': hole['end_slope']})
             if hole['start'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'], 'start_slope': hole['start_slope'], 'end_slope': semiline['end_slope']})
         else: res.append(semiline)
     else: # elif 'end' not in semiline:
-- 
2.43.0


From 1b68cf0466ecd0e854a331e6546d2302e3e7ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 11/20] fix: describe components whose change windows do not
 overlap

.interpret() raised TypeError or KeyError for nested windows with an empty intersection, or with more intervals left than a single window's.
---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 08b3192..a0e4b7a 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -1,5 +1,6 @@
 from copy import deepcopy
 from functools import reduce
+from itertools import product
 from operator import add
 
 from GPy_ABCD.Kernels.baseKernels import __USE_LIN_KERNEL_HORIZONTAL_OFFSET, __FIX_SIGMOIDAL_KERNELS_SLOPE
@@ -130,7 +131,7 @@ def SI_overlap(SI_params):
     start = S_overlap(SI_params)
     end = Sr_overlap(SI_params)
     interval = {'start': start['start'], 'end': end['end'], 'start_slope': start['start_slope'], 'end_slope': end['end_slope']}
-    return interval if interval['end'] > interval['start'] else None
+    return interval if interval['end'] > interval['start'] else []
 
 def SIr_overlap_step(acc, p): # Acc is a list of dictionaries representing intervals
     new_acc = []
@@ -179,7 +180,9 @@ def intersect_semiline_hole(semiline, hole, res = []):
 
 # Full reduction of sigmoidals to intervals functions
 
-def simplify_sigmoidal_intervals(sigmoidals): return reduce(simplify_sigmoidal_intervals_step, sigmoidals.items())[1]
+def simplify_sigmoidal_intervals(sigmoidals):
+    if any(intervals == [] for intervals in sigmoidals.values()): return [] # I.e. an empty intersection already
+    return reduce(simplify_sigmoidal_intervals_step, sigmoidals.items())[1]
 
 def simplify_sigmoidal_intervals_step(acc, new):
     if acc is None: return acc
@@ -199,8 +202,12 @@ def simplify_sigmoidal_interval_pair(b_ips1, b_ips2): # Arguments are tuples of
             new_interval = intersect_segment_semiline(pair['SI'], pair['S' if 'S' in pair else 'Sr'])
             if new_interval is not None: res.append(new_interval)
         elif pair['S']['start'] < pair['Sr']['end']: res.append({**pair['S'], **pair['Sr']})
-    else: # Only happens when called by itself for SIr case
-        if 'SI' in pair: res = SI_overlap(pair['SI'])
+    else: # Only happens when called by itself for SIr case or from an already-reduced pair
+        if 'SIr' in pair: # Two lists of intervals (any of which might be a segment)
+            for interval1, interval2 in product(*pair['SIr']):
+                new_interval = simplify_sigmoidal_interval_pair(identify_interval_type(interval1), identify_interval_type(interval2))
+                if new_interval != []: res.append(new_interval)
+        elif 'SI' in pair: res = SI_overlap(pair['SI'])
         elif 'S' in pair: res = S_overlap(pair['S'])
         else: res = (Sr_overlap(pair['Sr']))
     return res[0] if isinstance(res, list) and len(res) == 1 else res
-- 
2.43.0


From 43f5bb6500a33ee4e4b5787d588d5a0e09022dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 12/20] fix: describe sums and products which only have
 composite terms

Such nodes hold no parameters of their own even after fitting (only their terms do), so .interpret() raised AssertionError for them, e.g. for (PER + C) * (LIN + WN).
---
 GPy_ABCD/KernelExpressions/commutatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 46bedf9..6ca877c 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -36,7 +36,7 @@ class SumKE(SumOrProductKE):
         return self
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or self.composite_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         cts = [ct.sum_of_prods_form() for ct in self.composite_terms]
         self.composite_terms.clear()
         for ct in cts: # Only SumKEs or ProductKEs now
@@ -134,7 +134,7 @@ class ProductKE(SumOrProductKE):
         return ProductKE([]).new_bases_with_parameters([(key, p) for kex in [k0] + ks for key, ps in list(kex.parameters.items()) for p in ps])
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or self.composite_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         sops = SumKE([])
         if not self.composite_terms:
             sops.composite_terms.append(ProductKE(self.base_terms)._new_parameters(self.parameters)) # Avoid triggering simplify()
-- 
2.43.0


From bcc49771db6fc5250bcf54de909dc077b2582155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 13/20] fix: merge the lengthscales of multiplied SE kernels
 correctly

The product of SE kernels with lengthscales a and b is one with a * b / sqrt(a^2 + b^2), so the canonical form had a different covariance than the fit.
---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 6ca877c..a0af395 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -97,7 +97,7 @@ class ProductKE(SumOrProductKE):
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
         if 'SE' in self.parameters and len(self.parameters['SE']) > 1:
-            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc + l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
+            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc * l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
         return self
 
     def match_up_fit_parameters(self, param_dict, prefix = ''):
-- 
2.43.0


From d2febc9908a0008421db76eb3ea7236deaf988f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 14/20] fix: keep linear factors of white noise in the
 canonical form

simplify_base_terms keeps LIN next to WN (it is not stationary), but its parameters were dropped, so WN * LIN was described as plain noise.
---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index a0af395..1f5cf6e 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -92,7 +92,7 @@ class ProductKE(SumOrProductKE):
     def simplify_base_terms_params(self):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
-                if bt not in ['WN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+                if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From 846096b6fe5f7d1679c5b026c3d2317f78874c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 15/20] fix: keep the constant when absorbing a constant-only
 nested product

C * (C), built as ProductKE(['C'], [ProductKE(['C'])]), simplified to an empty product because the nested term was still counted as another factor.
---
 GPy_ABCD/KernelExpressions/commutative_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 1f4c1a8..ce193f4 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -57,11 +57,11 @@ class SumOrProductKE(KernelExpression): # Abstract
     def absorb_homogeneous_composites(self):
         homogeneous_composites = [ct for ct in self.composite_terms if isinstance(ct, type(self))] # Annoyingly less problematic than lambda-using-self filter
         for hc in homogeneous_composites:
+            self.composite_terms.remove(hc) # Before simplifying, which counts the terms
             self.base_terms.update(hc.base_terms)
-            self.simplify_base_terms()
             for hcct in hc.composite_terms: hcct.parent = self
             self.composite_terms += hc.composite_terms
-            self.composite_terms.remove(hc)
+            self.simplify_base_terms()
         return self
 
     def traverse(self):
-- 
2.43.0


From 6bc0b06095fe1ee76a4e08c135da7b07133c0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 16/20] fix: fully simplify nested sums and products

A singleton of the opposite type extracted from a term (e.g. from PER + (WN + LIN) after removing a factor) was left nested, so the same kernel was fitted again in a different structure.
---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index ce193f4..775a3c6 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -35,7 +35,7 @@ class SumOrProductKE(KernelExpression): # Abstract
 
     def simplify(self):
         self.composite_terms = [ct.simplify() for ct in self.composite_terms]
-        return self.absorb_homogeneous_composites().absorb_singletons().simplify_base_terms()
+        return self.absorb_singletons().absorb_homogeneous_composites().simplify_base_terms() # In this order because the former can produce targets for the latter
 
     @abstractmethod
     def simplify_base_terms(self):
-- 
2.43.0


From 6537b206e6bb9405cd660dc5d2f7373281656dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 17/20] fix: do not add a term when replacing a base kernel by
 itself

---
 GPy_ABCD/KernelExpansion/kernelExpressionOperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
index 0414a18..71360c1 100644
--- a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
+++ b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
@@ -84,7 +84,7 @@ def multiply(k1, k2, with_nested_case = True): # Simple multiplication, NOT DIST
 def swap_base(S, B):
     res = []
     if isinstance(S, SumKE) or isinstance(S, ProductKE):
-        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys()]
+        res = [type(S)(+S.base_terms - Counter([bt]) + Counter([B]), S.composite_terms) for bt in (+S.base_terms).keys() if bt != B]
     elif isinstance(S, ChangeKE):
         res += [ChangeKE(S.CP_or_CW, B, S.right)] if isinstance(S.left, str) and S.left != B else []
         res += [ChangeKE(S.CP_or_CW, S.left, B)] if isinstance(S.right, str) and S.right != B else []
-- 
2.43.0


From cab07f859550f4f049467e134df92938a5c82d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 18/20] fix: accept one-dimensional data when continuing a
 search

---
 GPy_ABCD/Models/modelSearch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index cfe4173..d3b5630 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -122,6 +122,9 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
 
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
+    if len(np.shape(X)) == 1: X = np.array(X)[:, None]
+    if len(np.shape(Y)) == 1: Y = np.array(Y)[:, None]
+
     def score(m): return m.compute_utility(utility_function)
 
     beam = beam_list(beam, rounds)
-- 
2.43.0


From 73dea86719a03b0efecb05c0b8d4afe6606bc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 19/20] fix: do not modify the start kernels given to a search

---
 GPy_ABCD/KernelExpansion/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/grammar.py b/GPy_ABCD/KernelExpansion/grammar.py
index 0bdb632..80f3e2f 100644
--- a/GPy_ABCD/KernelExpansion/grammar.py
+++ b/GPy_ABCD/KernelExpansion/grammar.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from GPy_ABCD.config import __INCLUDE_SE_KERNEL, __USE_LIN_KERNEL_HORIZONTAL_OFFSET
 from GPy_ABCD.KernelExpressions.all import KernelExpression
 from GPy_ABCD.KernelExpansion.kernelExpressionOperations import *
@@ -111,7 +113,7 @@ def pseudo_to_real_kex(pkex):
     if isinstance(pkex, KernelExpression): return pkex
     elif pkex in base_kerns: return SumKE([pkex])
     else: raise ValueError(f'Given pseudo-kernel-expression value could not be parsed: {pkex}')
-def make_simple_kexs(pseudo_kexs): return [pseudo_to_real_kex(pkex)._initialise() for pkex in pseudo_kexs]
+def make_simple_kexs(pseudo_kexs): return [deepcopy(pseudo_to_real_kex(pkex))._initialise() for pkex in pseudo_kexs] # Copies, since initialising modifies the expressions (and these may be shared, e.g. start_kernels)
 
 
 # Default groups
-- 
2.43.0


From e6904b0c85ad73f66255207adeebdad9de29adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 20/20] fix: fit_kex initialised (simplified and re-rooted) the
 kernel expression it was given in place

---
 GPy_ABCD/Util/modelUtil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/modelUtil.py b/GPy_ABCD/Util/modelUtil.py
index d7b81d7..be000fe 100644
--- a/GPy_ABCD/Util/modelUtil.py
+++ b/GPy_ABCD/Util/modelUtil.py
@@ -1,4 +1,5 @@
 import numpy as np
+from copy import deepcopy
 from matplotlib import pyplot as plt
 
 from GPy.models import GPRegression
@@ -40,7 +41,7 @@ def fit_kex(X, Y, kex, restarts, score = BIC, **kwargs):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
     if len(np.shape(Y)) == 1: Y = np.array(Y)[:, None]
 
-    m = GPModel(X, Y, kex._initialise())
+    m = GPModel(X, Y, deepcopy(kex)._initialise()) # A copy, since initialising modifies the expression
     m.fit(restarts, verbose = True, **kwargs)
     m.compute_utility(score)
 
-- 
2.43.0

