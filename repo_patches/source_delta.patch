From 9fb46d28009be6d983ea8cc92d9e90f04fc2f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 01/27] fix: recompute forgotten strategies through classes
 that have no label yet

RecomputingDict asked the class database for the emptiness of a class that
might not be in it; the KeyError was then taken for a missing rule.
---
 comb_spec_searcher/rule_db/forget.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index bbbe9aa..e2633a0 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -101,11 +101,13 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                     rule = x
                 try:
                     start_label = self.classdb.get_label(rule.comb_class)
-                    nonempty_children = tuple(
-                        c for c in rule.children if not self.classdb.is_empty(c)
-                    )
+                    child_labels = ((c, self.classdb.get_label(c)) for c in rule.children)
                     end_labels = tuple(
-                        sorted(map(self.classdb.get_label, nonempty_children))
+                        sorted(
+                            child_label
+                            for child, child_label in child_labels
+                            if not self.classdb.is_empty(child, child_label)
+                        )
                     )
                     if (start_label, end_labels) == key:
                         if self.only_equiv and not rule.is_two_way():
-- 
2.43.0


From 80aba62413c07a0b3bb43bd00bf47df2438945a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 02/27] fix: drop the empty children of a one way equivalence
 in a specification

A one way rule with a single non-empty child was put in the specification with
its empty children, which grouping the equivalences in paths can not handle.
---
 comb_spec_searcher/specification_extrator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification_extrator.py b/comb_spec_searcher/specification_extrator.py
index b8dec2a..7cb8d7a 100644
--- a/comb_spec_searcher/specification_extrator.py
+++ b/comb_spec_searcher/specification_extrator.py
@@ -86,7 +86,14 @@ class SpecificationRuleExtractor:
             if len(children) != 1:
                 raise self._missing_rule_error(parent, children) from e
         else:
-            return strategy(self.classdb.get_class(parent))
+            rule = strategy(self.classdb.get_class(parent))
+            if (
+                isinstance(rule, Rule)
+                and len(rule.children) > 1
+                and rule.is_equivalence()
+            ):
+                return rule.to_equivalence_rule()
+            return rule
         # From now on we are looking for a two way strategy
         assert len(children) == 1
         try:
-- 
2.43.0


From f186a40a39f2011d57b74fa422adadd704e8adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 03/27] fix: reverse an equivalence that merges parameters

The reverse of an equivalence rule (with empty children) mapping two parameters
to the same one is not itself an equivalence rule.
---
 comb_spec_searcher/strategies/rule.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 7195b81..2ac96b6 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -781,9 +781,13 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     ) -> bool:
         return True
 
-    def to_reverse_rule(self, idx: int) -> "EquivalenceRule":
+    def to_reverse_rule(self, idx: int) -> Rule:
         assert idx == 0
-        return self.original_rule.to_reverse_rule(self.child_idx).to_equivalence_rule()
+        reverse_rule = self.original_rule.to_reverse_rule(self.child_idx)
+        # Not an equivalence when several parameters are mapped to the same one.
+        if reverse_rule.is_equivalence():
+            return reverse_rule.to_equivalence_rule()
+        return reverse_rule
 
     def to_equivalence_rule(self) -> "EquivalenceRule":
         raise NotImplementedError("You don't want to do that! I promise")
-- 
2.43.0


From 08894f90eb91768e026a361c7f318b075d99e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 04/27] fix: one rule per label in the trees of
 proof_tree_generator_bfs

---
 comb_spec_searcher/tree_searcher.py | 39 +++++++++++++++++++----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..1ff00de 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -5,7 +5,7 @@ Finds and returns a combinatorial specification, that we call a proof tree.
 import time
 from collections import defaultdict, deque
 from copy import deepcopy
-from itertools import chain, product
+from itertools import chain
 from random import choice, shuffle
 from typing import Dict, FrozenSet, Iterator, List, Optional, Sequence, Set, Tuple
 
@@ -196,25 +196,38 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
     N.B. The rules_dict is assumed to be pruned.
     """
 
-    def _bfs_helper(root_label: int, seen: FrozenSet[int]):
-        if root_label in seen:
-            yield Node(root_label)
+    def _bfs_helper(
+        labels: Tuple[int, ...], chosen: Dict[int, Tuple[int, ...]]
+    ) -> Iterator[Dict[int, Tuple[int, ...]]]:
+        """Choose one rule for each of the labels, and the labels they lead to."""
+        if not labels:
+            yield chosen
+            return
+        label, labels = labels[0], labels[1:]
+        if label in chosen:
+            yield from _bfs_helper(labels, chosen)
             return
-        next_seen = seen.union((root_label,))
-        for rule in rules_dict[root_label]:
-            for children in product(
-                *[_bfs_helper(child_label, next_seen) for child_label in rule]
-            ):
-                root_node = Node(root_label)
-                root_node.children = list(children)
-                yield root_node
+        for rule in sorted_rules_dict[label]:
+            yield from _bfs_helper(labels + rule, {**chosen, label: rule})
+
+    def _to_tree(chosen: Dict[int, Tuple[int, ...]]) -> Node:
+        seen: Set[int] = set()
+        root_node = Node(root)
+        queue = deque([root_node])
+        while queue:
+            node = queue.popleft()
+            if node.label not in seen:
+                seen.add(node.label)
+                node.children = [Node(child) for child in chosen[node.label]]
+                queue.extend(node.children)
+        return root_node
 
     sorted_rules_dict = {
         start: tuple(sorted(ends)) for start, ends in rules_dict.items()
     }
 
     if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+        yield from map(_to_tree, _bfs_helper((root,), {}))
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From 3d4049012c3631bebd9cc8d1514287443f638f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 05/27] fix: look up the equivalence class of the root after
 computing the pruned dict

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..e8713b1 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -220,7 +220,9 @@ class RuleDBBase(RuleDBAbstract):
 
     def has_specification(self) -> bool:
         """Return True if a specification has been found, false otherwise."""
-        return self.equivdb[self.root_label] in self.pruned_dict
+        # The pruned dict first: computing it can merge equivalence classes.
+        pruned_dict = self.pruned_dict
+        return self.equivdb[self.root_label] in pruned_dict
 
     def rule_from_equivalence_rule(
         self, eqv_start: int, eqv_ends: Iterable[int]
-- 
2.43.0


From 5fd1ad496238e375b3b5cd21612a18a289eeec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 06/27] fix: prune iteratively from the equivalence class of
 the root

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index e8713b1..838d730 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From c115c08d58b1c35accbdbb5f3676a575b6268270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 07/27] fix: iterative_proof_tree_bfs could recurse to other
 labels than the root forever

---
 comb_spec_searcher/tree_searcher.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index 1ff00de..244c870 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -143,16 +143,8 @@ def all_proof_trees_dfs(
 def iterative_proof_tree_bfs(rules_dict: RulesDict, root: int) -> Node:
     """Takes in a iterative pruned rules_dict and returns iterative proof
     tree."""
-    root_node = Node(root)
-    queue = deque([root_node])
-    while queue:
-        v = queue.popleft()
-        rule = sorted(rules_dict[v.label])[0]
-        if not rule == ():
-            children = [Node(i) for i in rule]
-            queue.extend([child for child in children if not child.label == root])
-            v.children = children
-    return root_node
+    # Any rule will not do: the tree can only recurse to the root.
+    return iterative_proof_tree_finder(rules_dict, root)
 
 
 def random_proof_tree(rules_dict: RulesDict, root: int) -> Node:
-- 
2.43.0


From e53e3aa0a2a4953dd5c3da431cbae7c2812d2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 08/27] fix: membership tests of the class database are total

---
 comb_spec_searcher/class_db.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..7ba7871 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
@@ -159,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            return False
         return info is not None
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 6dc03ca0e6f3696346ea99a12a7c7d24406f8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 09/27] fix: membership queries of the rule databases crashed
 on an unhashable key

---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index 838d730..f580cd9 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -159,7 +159,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 4eedd0194be92afcada3ce242945e9205109f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 10/27] fix: the complement of a union that merges or drops
 parameters

---
 .../strategies/constructor/disjoint.py        | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index b2c4686..fcd0597 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -323,7 +323,7 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         parent: CombinatorialClassType,
         children: Tuple[CombinatorialClassType, ...],
         idx: int,
-    ):
+    ) -> Callable[[Parameters], Optional[Parameters]]:
         extra_param = self.extra_parameters[idx]
         child = children[self.idx]
         child_param_to_pos = {
@@ -337,10 +337,34 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
             )
             for parent_var in parent.extra_parameters
         )
-        return DisjointUnion.build_param_map(
-            parent_pos_to_child_pos, len(child.extra_parameters)
+        return partial(
+            Complement.param_map,
+            parent_pos_to_child_pos,
+            len(child.extra_parameters),
         )
 
+    @staticmethod
+    def param_map(
+        parent_pos_to_child_pos: Tuple[Tuple[int, ...], ...],
+        num_child_params: int,
+        param: Parameters,
+    ) -> Optional[Parameters]:
+        """
+        Map the parameters of the parent to the parameters of the flipped child.
+        Return None if no object of the child has the parameters, that is, if a
+        parameter dropped by the child is non zero, or if two parameters mapped
+        to the same parameter of the child differ.
+        """
+        new_params: List[Optional[int]] = [None for _ in range(num_child_params)]
+        for child_pos, value in zip(parent_pos_to_child_pos, param):
+            if not child_pos and value != 0:
+                return None
+            for p in child_pos:
+                if new_params[p] is not None and new_params[p] != value:
+                    return None
+                new_params[p] = value
+        return tuple(0 if p is None else p for p in new_params)
+
     def get_equation(
         self, lhs_func: sympy.Function, rhs_funcs: Tuple[sympy.Function, ...]
     ) -> sympy.Eq:
@@ -362,13 +386,16 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     ) -> Terms:
         parent_terms_mapped: Terms = Counter()
         for param, value in subterms[0](n).items():
-            if value:
-                parent_terms_mapped[self._parent_param_map(param)] += value
+            mapped_param = self._parent_param_map(param)
+            if value and mapped_param is not None:
+                parent_terms_mapped[mapped_param] += value
         children_terms = subterms[1:]
         for child_terms, param_map in zip(children_terms, self._children_param_maps):
             # we subtract from total
             for param, value in child_terms(n).items():
                 mapped_param = self._parent_param_map(param_map(param))
+                if mapped_param is None:
+                    continue
                 parent_terms_mapped[mapped_param] -= value
                 assert parent_terms_mapped[mapped_param] >= 0
                 if parent_terms_mapped[mapped_param] == 0:
-- 
2.43.0


From ab8fc51e13c3a409c0ee6796b0745a93e043ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:00 +0000
Subject: [PATCH 11/27] fix: the equation of a product that maps several
 parameters to one

---
 .../strategies/constructor/cartesian.py               | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index b259bf0..7a4f811 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -145,10 +145,13 @@ class CartesianProduct(Constructor[CombinatorialClassType, CombinatorialObjectTy
     ) -> sympy.Eq:
         res = 1
         for extra_parameters, rhs_func in zip(self.extra_parameters, rhs_funcs):
-            res *= rhs_func.subs(
-                {child: parent for parent, child in extra_parameters.items()},
-                simultaneous=True,
-            )
+            subs: Dict[str, sympy.Expr] = {}
+            for parent, child in extra_parameters.items():
+                if child in subs:
+                    subs[child] *= sympy.var(parent)
+                else:
+                    subs[child] = sympy.var(parent)
+            res *= rhs_func.subs(subs, simultaneous=True)
         return sympy.Eq(lhs_func, res)
 
     def reliance_profile(self, n: int, **parameters: int) -> RelianceProfile:
-- 
2.43.0


From 823a97f5e5c3df404c7e7df27157dc5d12a10ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:41 +0000
Subject: [PATCH 12/27] fix: several solutions can have the checked initial
 conditions

---
 comb_spec_searcher/specification.py | 36 +++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index ae50999..028c09d 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -411,19 +411,41 @@ class CombinatorialSpecification(
             quartics=False,
             quintics=False,
         )
+        candidates: List[Expr] = []
         for solution in solutions:
             genf = solution[root_func]
-            logger.info("Checking initial conditions for: %s", genf)
-            try:
-                expansion = taylor_expand(genf, check)
-            except TaylorExpansionError:
-                continue
-            if expansion == initial_conditions:
-                return sympy.simplify(genf)
+            if not any(genf.equals(candidate) for candidate in candidates):
+                candidates.append(genf)
+        while True:
+            candidates = [
+                genf
+                for genf in candidates
+                if self._has_initial_conditions(genf, initial_conditions)
+            ]
+            if len(candidates) <= 1:
+                break
+            # Different solutions differ in some later coefficient.
+            check = 2 * check + 1
+            logger.info("Several solutions agree, checking up to %s", check)
+            initial_conditions = self.get_initial_conditions(check)
+        if candidates:
+            return sympy.simplify(candidates[0])
         raise IncorrectGeneratingFunctionError(
             "Failed to compute the generating function for the specification."
         )
 
+    @staticmethod
+    def _has_initial_conditions(genf: Expr, initial_conditions: List[Expr]) -> bool:
+        """
+        Return True if the first coefficients of genf are the initial conditions.
+        """
+        logger.info("Checking initial conditions for: %s", genf)
+        try:
+            expansion = taylor_expand(genf, len(initial_conditions) - 1)
+        except TaylorExpansionError:
+            return False
+        return bool(expansion == initial_conditions)
+
     def get_maple_equations(self, check: int = 6) -> str:
         """
         Convert the systems of equations to version that can be copy pasted to maple.
-- 
2.43.0


From 93ace55bd1124a1b1a28a384dca380c5235f13ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 13/27] fix: map objects between an atom and a class equivalent
 to an atom

---
 comb_spec_searcher/isomorphism.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..eedf0fa 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -344,8 +344,9 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         rule1: AbstractRule[ClassType1, ObjType1],
         rule2: AbstractRule[ClassType2, ObjType2],
     ) -> ObjType2:
-        # If atom, we return the minimum object of the corresponding rule.
-        if not rule1.children:
+        # If atom, we return the minimum object of the corresponding rule. The other
+        # class might only be equivalent to an atom.
+        if not rule1.children or not rule2.children:
             return ParseTreeMap._min_object(rule2)
 
         assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
-- 
2.43.0


From 9d564e4ccd106d5ffd0482102d8a169ae31a0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 14/27] fix: forget the matches that rely on a failed match in
 the isomorphism test

---
 comb_spec_searcher/isomorphism.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index eedf0fa..efa36f6 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -114,6 +114,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if is_base_case:
             return bool(is_base_case + 1)
 
+        # Anything matched from here on may rely on the current nodes being matched
+        matched_before = len(self._order_map)
+
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
@@ -176,8 +179,13 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         # If stack has been exhausted we have failed to match the ids. We remove them
         # from the ancestors set, memorize the failure and remove any data gathered.
         self._ancestors.difference_update(product(eq_path1, eq_path2))
+        # That includes the descendants that were matched, as they might only be so
+        # assuming that the current nodes are.
         self._failed.add((curr1, curr2))
         self._index_data.pop((curr1, curr2), None)
+        for key in list(self._order_map)[matched_before:]:
+            del self._order_map[key]
+            self._index_data.pop(key, None)
         return False
 
     def _get_eq_descendant(
-- 
2.43.0


From 854b1b9760ff570407c16abce02f9143d029dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 15/27] fix: no bijection through a reverse rule that can not
 map objects

---
 comb_spec_searcher/isomorphism.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index efa36f6..f596c89 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -13,7 +13,7 @@ from typing import (
 )
 
 from .combinatorial_class import CombinatorialClass
-from .strategies.rule import AbstractRule, Rule
+from .strategies.rule import AbstractRule, ReverseRule, Rule
 
 if TYPE_CHECKING:
     from .combinatorial_class import CombinatorialObject
@@ -430,6 +430,8 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         iso = Isomorphism[ClassType1, ObjType1, ClassType2, ObjType2](spec, other)
         if not iso.are_isomorphic():
             return None
+        if not (cls._has_maps(spec) and cls._has_maps(other)):
+            return None
         return cls(spec, other, iso.get_order(), iso.get_order_data())
 
     def __init__(
@@ -450,6 +452,14 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             (c2, c1): Bijection._perm_inv(lis) for ((c1, c2), lis) in get_order.items()
         }
 
+    @staticmethod
+    def _has_maps(spec: "CombinatorialSpecification") -> bool:
+        """Return False if some rule of the specification can't map objects, that is
+        if there is a reverse rule that is not an equivalence."""
+        return not any(
+            isinstance(rule, ReverseRule) and not rule.is_equivalence() for rule in spec
+        )
+
     @property
     def domain(self) -> "CombinatorialSpecification[ClassType1, ObjType1]":
         """The root class of the first specification."""
-- 
2.43.0


From a1735744d3c866e07d95fd1f76f530478fa089a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 16/27] fix: extract the specifications of the parallel finder
 from the start class

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..d24c782 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -533,7 +533,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From 5b21c64d25ab0993159916a8bf4f4c2fd5543af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 17/27] fix: match all the pairs of classes in the second
 search of the parallel finder

---
 comb_spec_searcher/bijection.py | 63 +++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index d24c782..edd2e92 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -387,16 +387,26 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs that are matched by the rules in the spec maps.
+        matched: Set[Tuple[int, int]] = set()
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
             id1: int,
             id2: int,
-            id_sets: Tuple[Set[int], Set[int]],
+            id_sets: Tuple[Set[int], Set[int], Set[Tuple[int, int]]],
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1,
+                id2,
+                matching_info,
+                matching_info1,
+                matching_info2,
+                sp1,
+                sp2,
+                matched,
             )
             if bc:
                 return bool(bc + 1)
@@ -413,9 +423,14 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             ):
                 # Add rule for spec to (id -> children) for both specs
                 sp1[id1], sp2[id2] = children1, children2
+                matched.add((id1, id2))
 
                 # Construct cleaning sets that are passed down the recursion
-                to_clean: Tuple[Set[int], Set[int]] = (set(), set())
+                to_clean: Tuple[Set[int], Set[int], Set[Tuple[int, int]]] = (
+                    set(),
+                    set(),
+                    {(id1, id2)},
+                )
 
                 # If all the children are valid, compared one at a time in the order
                 # they were matched in the first search.
@@ -432,17 +447,19 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                     # Update the cleaning set so any failing ancestor can remove.
                     id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                     id_sets[1].update(to_clean[1], () if rec2 else (id2,))
+                    id_sets[2].update(to_clean[2])
                     return True
                 # If failed, remove all descendants that populated the spec maps.
                 ParallelSpecFinder._clean_descendants(
-                    *to_clean, id1, id2, sp1, sp2, rec1, rec2
+                    to_clean[0], to_clean[1], id1, id2, sp1, sp2, rec1, rec2
                 )
+                matched.difference_update(to_clean[2])
             return False
 
         if _rec(
             self._pi1.root_eq_label,
             self._pi2.root_eq_label,
-            (set(), set()),
+            (set(), set(), set()),
         ):
             return sp1, sp2
         return None
@@ -471,6 +488,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        matched: Set[Tuple[int, int]],
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -480,8 +498,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If both are assigned and matched to each other, we are done
+        if (id1, id2) in matched:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -592,10 +610,13 @@ class EqPathParallelSpecFinder(
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
+        # The pairs that are matched by the rules in the spec maps.
+        matched: Set[Tuple[int, int]] = set()
+
         def _rec(
             id1: int,
             id2: int,
-            id_sets: Tuple[Set[int], Set[int]],
+            id_sets: Tuple[Set[int], Set[int], Set[Tuple[int, int]]],
         ) -> bool:
             bc = self._search_matching_info_recursion_base_cases_eq(
                 id1,
@@ -607,6 +628,7 @@ class EqPathParallelSpecFinder(
                 sp2,
                 self._path[-1],
                 eq_path_tracker,
+                matched,
             )
             if bc:
                 return bool(bc + 1)
@@ -617,7 +639,12 @@ class EqPathParallelSpecFinder(
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
-                to_clean: Tuple[Set[int], Set[int]] = (set(), set())
+                matched.add((id1, id2))
+                to_clean: Tuple[Set[int], Set[int], Set[Tuple[int, int]]] = (
+                    set(),
+                    set(),
+                    {(id1, id2)},
+                )
 
                 # Check if the path required for the eq labels actually matches
                 if self._eq_path_matches(
@@ -647,16 +674,18 @@ class EqPathParallelSpecFinder(
                     if valid:
                         id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                         id_sets[1].update(to_clean[1], () if rec2 else (id2,))
+                        id_sets[2].update(to_clean[2])
                         return True
                 EqPathParallelSpecFinder._clean_descendants(
-                    *to_clean, id1, id2, sp1, sp2, rec1, rec2
+                    to_clean[0], to_clean[1], id1, id2, sp1, sp2, rec1, rec2
                 )
+                matched.difference_update(to_clean[2])
             return False
 
         if _rec(
             self._pi1.root_eq_label,
             self._pi2.root_eq_label,
-            (set(), set()),
+            (set(), set(), set()),
         ):
             return sp1, sp2
         return None
@@ -672,6 +701,7 @@ class EqPathParallelSpecFinder(
         sp2: SpecMap,
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
+        matched: Set[Tuple[int, int]],
     ) -> int:
         pid1, pid2, idx1, idx2 = relations
         if EqPathParallelSpecFinder._inconsistent_with_matching_info(
@@ -685,9 +715,9 @@ class EqPathParallelSpecFinder(
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
             return EqPathParallelSpecFinder._VALID
-        # If both ids are set we still need to check if they are valid in terms
+        # If both ids are matched we still need to check if they are valid in terms
         # of eq paths since we may have arrived from different parents.
-        if id1 in sp1 and id2 in sp2:
+        if (id1, id2) in matched:
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
@@ -695,7 +725,7 @@ class EqPathParallelSpecFinder(
                 # can still be incompatible due to this current path's atom labels.
                 should_check = (id1, id2) not in self._path_ancestors
                 if should_check and not self._validate_atoms_for_existing_entries(
-                    id1, id2, sp1, sp2, matching_info, set()
+                    id1, id2, sp1, sp2, matching_info, matched, set()
                 ):
                     return EqPathParallelSpecFinder._INVALID
                 return EqPathParallelSpecFinder._VALID
@@ -709,6 +739,7 @@ class EqPathParallelSpecFinder(
         sp1: SpecMap,
         sp2: SpecMap,
         matching_info: MatchingInfo,
+        matched: Set[Tuple[int, int]],
         mem: Set[Tuple[int, int]],
     ) -> bool:
         """Check if atoms are valid for a given path, when initial ids have already
@@ -720,6 +751,8 @@ class EqPathParallelSpecFinder(
             return True
         if children1 == () == children2:
             return self._atom_path_match(id1, id2, sp1, sp2)
+        if (id1, id2) not in matched:
+            return True
         mem.add((id1, id2))
         for j2, ((j1, child1), child2) in enumerate(
             zip(
@@ -732,7 +765,7 @@ class EqPathParallelSpecFinder(
         ):
             self._path.append((id1, id2, j1, j2))
             check_descendant = self._validate_atoms_for_existing_entries(
-                child1, child2, sp1, sp2, matching_info, mem
+                child1, child2, sp1, sp2, matching_info, matched, mem
             )
             self._path.pop()
             if not check_descendant:
-- 
2.43.0


From fe66d01f864733b597f9cd6d57ec0180dacfde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 18/27] fix: follow consecutive equivalence paths in the
 isomorphism test

---
 comb_spec_searcher/isomorphism.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index f596c89..5055ac4 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -147,8 +147,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             self._path_tracker_push(
                 non_empty_ind1[i1],
                 non_empty_ind2[i2],
-                len(eq_path1) > 1,
-                len(eq_path2) > 1,
+                len(eq_path1) - 1,
+                len(eq_path2) - 1,
             )
 
             # Call _are_isomorphic recursively for current pair
@@ -194,10 +194,13 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         """Get path to nodes that are not on the LHS of equivalence rules."""
         rule1, rule2 = self._rules1[node1], self._rules2[node2]
         nodes1, nodes2 = [node1], [node2]
-        if rule1.is_equivalence():
+        # The end of an equivalence path can be the start of another one
+        while rule1.is_equivalence():
             nodes1.append(rule1.children[0])
-        if rule2.is_equivalence():
+            rule1 = self._rules1[nodes1[-1]]
+        while rule2.is_equivalence():
             nodes2.append(rule2.children[0])
+            rule2 = self._rules2[nodes2[-1]]
         return nodes1, nodes2
 
     def _base_cases(
@@ -242,12 +245,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
 
         return Isomorphism._UNKNOWN
 
-    def _path_tracker_push(
-        self, c1: int, c2: int, eq_path1: bool, eq_path2: bool
-    ) -> None:
-        """Store the path being taken."""
-        t1 = (0, c1) if eq_path1 else (c1,)
-        t2 = (0, c2) if eq_path2 else (c2,)
+    def _path_tracker_push(self, c1: int, c2: int, n_eq1: int, n_eq2: int) -> None:
+        """Store the path being taken, where n_eq1 and n_eq2 are the number of
+        equivalence paths before the children are taken."""
+        t1 = (0,) * n_eq1 + (c1,)
+        t2 = (0,) * n_eq2 + (c2,)
         self._path_tracker.append((t1, t2))
 
     def _path_tracker_pop(self) -> None:
-- 
2.43.0


From 21b50343b48b4b7105e47dc25dd6e126fffca125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 19/27] fix: cache the equivalence paths of the parallel finder
 by where they start

---
 comb_spec_searcher/bijection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index edd2e92..488901c 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -60,8 +60,8 @@ RuleClassification = DefaultDict[
 EqPathTracker = DefaultDict[
     Tuple[int, int],
     DefaultDict[
-        Tuple[int, int],
-        Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
+        Tuple[int, int, int, int],
+        Dict[Tuple[Optional[Tuple[int, ...]], ...], bool],
     ],
 ]
 
@@ -794,8 +794,8 @@ class EqPathParallelSpecFinder(
         if the actual rules required (disregarding actual equivalence rules) to traverse
         this path match.
         """
-        children = (sp1[id1], sp2[id2])
-        children_cache = cache[(id1, id2)][(pid1, pid2)]
+        children = (sp1[id1], sp2[id2], sp1.get(pid1), sp2.get(pid2))
+        children_cache = cache[(id1, id2)][(pid1, pid2, idx1, idx2)]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
                 self._pi1.root_eq_label,
-- 
2.43.0


From 2e80d3fc763e00209b334cc0ed31dc296289472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 20/27] fix: equality of forest rule databases

---
 comb_spec_searcher/rule_db/forest.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..e33a360 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -202,6 +202,12 @@ class TableMethod:
         self._current_gap: Tuple[int, int] = (1, 1)
         self._rule_holding_extra_terms: Set[int] = set()
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        # Everything else is determined by the rules and their order
+        return self._rules == other._rules
+
     @property
     def function(self) -> Dict[int, Optional[int]]:
         """
@@ -633,6 +639,16 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, RuleDBForest):
+            return NotImplemented
+        return (
+            self.__class__ == other.__class__
+            and self.reverse == other.reverse
+            and self.table_method == other.table_method
+            and self._rule_cache == other._rule_cache
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 284904872516555eb61b5700930c34b361f1be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 21/27] fix: compare the memory saving dictionaries without
 recomputing strategies

---
 comb_spec_searcher/rule_db/forget.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index e2633a0..b5e18bb 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -141,6 +141,12 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
     def __contains__(self, key: object) -> bool:
         return self._flatten(cast(RuleKey, key)) in self.rules
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, RecomputingDict):
+            # No need to recompute any strategy, the searcher compares the packs
+            return self.only_equiv == other.only_equiv and self.rules == other.rules
+        return super().__eq__(other)
+
 
 class RuleDBForgetStrategy(RuleDBBase):
     def __init__(self) -> None:
-- 
2.43.0


From 3d477cccde6c330b45544759bfad511eef58864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 22/27] fix: do not pickle the pruned dictionary of a rule
 database

---
 comb_spec_searcher/rule_db/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index f580cd9..2c2fb04 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -99,6 +99,10 @@ class RuleDBBase(RuleDBAbstract):
             and self.eqv_rule_to_strategy == other.eqv_rule_to_strategy
         )
 
+    def __getstate__(self) -> Dict[str, Any]:
+        # The pruned dict is derived, and its order might not survive pickling.
+        return {**self.__dict__, "_pruned_dict": None}
+
     def add(self, start: int, ends: Tuple[int, ...], rule: AbstractRule) -> None:
         self._pruned_dict = None
         ends = self._clean_labels(ends, rule)
-- 
2.43.0


From 6ca4ea3702e652d29555bef5efa4c86a19112aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 23/27] fix: remember the order of the rules in the memory
 saving dictionaries

---
 comb_spec_searcher/rule_db/forget.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index b5e18bb..6efc1d5 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -7,11 +7,11 @@ The database do not store the strategy to save memory.
 import itertools
 from typing import (
     TYPE_CHECKING,
+    Dict,
     Iterable,
     Iterator,
     MutableMapping,
     Optional,
-    Set,
     Tuple,
     Union,
     cast,
@@ -50,7 +50,8 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
     ) -> None:
         self._classdb: Optional[ClassDB] = None
         self._pack: Optional[StrategyPack] = None
-        self.rules: Set[Tuple[int, ...]] = set()
+        # a dictionary rather than a set, to remember the order after unpickling
+        self.rules: Dict[Tuple[int, ...], None] = {}
         self.only_equiv: bool = only_equiv
 
     def link_searcher(self, classdb: ClassDB, strat_pack: StrategyPack) -> None:
@@ -126,10 +127,10 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
 
     def __setitem__(self, key: RuleKey, value: AbstractStrategy) -> None:
         assert not self.only_equiv or len(key[1]) == 1
-        self.rules.add(self._flatten(key))
+        self.rules[self._flatten(key)] = None
 
     def __delitem__(self, key: RuleKey) -> None:
-        self.rules.remove(self._flatten(key))
+        del self.rules[self._flatten(key)]
 
     def __iter__(self) -> Iterator[RuleKey]:
         for rule in self.rules:
-- 
2.43.0


From a4238ac56b47a2db2a4404ecdb090b000b63b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 24/27] fix: equality of strategies created from a subscripted
 class

---
 comb_spec_searcher/strategies/strategy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..850591d 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -114,6 +114,14 @@ def strategy_from_dict(d) -> CSSstrategy:
     return StratClass.from_dict(d)
 
 
+def _settings(strategy: object) -> dict:
+    """
+    Return the attributes of the strategy, without the one that the typing module adds
+    when the instance is created from a subscripted class.
+    """
+    return {k: v for k, v in strategy.__dict__.items() if k != "__orig_class__"}
+
+
 class AbstractStrategy(
     abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -247,7 +255,7 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __repr__(self):
         return (
@@ -947,7 +955,7 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From b132a1fdcae4a4bd0162672fae74b94da2b386ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 25/27] fix: the parallel finder on an empty start class

---
 comb_spec_searcher/bijection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 488901c..e4899b7 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -132,7 +132,9 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
 
         for eq_par, eq_chi in lis:
             parent, rule = self._get_class_and_rule(eq_par, eq_chi, rule_dict)
-            assert not parent.is_empty()
+            if parent.is_empty():
+                # Only the start class can be empty, and it is never matched
+                continue
             if parent.is_atom():
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
-- 
2.43.0


From 3a15e3903a6a919052f59c11e6a569b07195f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 26/27] fix: isomorphism test of a verification rule against
 another rule

---
 comb_spec_searcher/isomorphism.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 5055ac4..7d48e6b 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -235,7 +235,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             return Isomorphism._INVALID
 
         # If different type of rules are applied, the trees are not isomorphic
-        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
+        if not isinstance(rule1, Rule) or not isinstance(rule2, Rule):
+            return Isomorphism._INVALID
         if not self._constructor_match(rule1, rule2, curr1, curr2):
             return Isomorphism._INVALID
 
-- 
2.43.0


From 8145059ba1f46c3596e4867f6c3b4f914df8ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 27/27] fix: an empty root is not isomorphic to a nonempty one

---
 comb_spec_searcher/isomorphism.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 7d48e6b..cc03a12 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -72,8 +72,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         # Tracking paths in terms of child indices
         self._path_tracker: List[Tuple[Tuple[int, ...], Tuple[int, ...]]] = []
 
-        # Store results
-        self._isomorphic = self._are_isomorphic(spec1.root, spec2.root)
+        # Store results. Any empty children are ignored, but an empty root is not
+        # isomorphic to a nonempty one.
+        self._isomorphic = (
+            spec1.root.is_empty() == spec2.root.is_empty()
+        ) and self._are_isomorphic(spec1.root, spec2.root)
 
     def get_order_data(
         self,
-- 
2.43.0

