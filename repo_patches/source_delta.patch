From 3cedf415f400b0d7ec88b2b7584e1191d5e01806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 01/30] fix: recompute strategies on classes that the search
 never labelled

RuleDBForgetStrategy replays the whole pack on the classes of a rule. A strategy
the search did not apply to such a class can produce a class without label, for
which ClassDB.is_empty raises KeyError and the stored rule is reported missing.
Also drop empty children under the same condition as RuleDBBase._clean_labels.
---
 comb_spec_searcher/rule_db/forget.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index bbbe9aa..20707c4 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -100,9 +100,16 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                 else:
                     rule = x
                 try:
+                    if rule.comb_class not in self.classdb or any(
+                        c not in self.classdb for c in rule.children
+                    ):
+                        # Not a rule that was added to the database.
+                        continue
                     start_label = self.classdb.get_label(rule.comb_class)
                     nonempty_children = tuple(
-                        c for c in rule.children if not self.classdb.is_empty(c)
+                        c
+                        for c in rule.children
+                        if not (rule.possibly_empty and self.classdb.is_empty(c))
                     )
                     end_labels = tuple(
                         sorted(map(self.classdb.get_label, nonempty_children))
-- 
2.43.0


From fbefd9ab3d391dd76e1b6f56a8f1260964186448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 02/30] fix: ignore non-applying rules of factories when
 extracting from a forest

The searcher skips rules yielded by a factory whose children raise
StrategyDoesNotApply, but ForestRuleExtractor._find_rule crashed on them.
---
 comb_spec_searcher/rule_db/forest.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..8dd30cd 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -607,6 +607,11 @@ class ForestRuleExtractor:
                     except StrategyDoesNotApply:
                         continue
                 else:
+                    try:
+                        # a rule given by a factory might turn out not to apply
+                        x.children
+                    except StrategyDoesNotApply:
+                        continue
                     yield x
 
 
-- 
2.43.0


From 5d742fbd30579e1477ff657d9f09c2b20b5f2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 03/30] fix: prune iterative rules from the representative of
 the start class

The rules are up to equivalence, hence the label of the start class need not
occur in them when it is not the representative of its equivalence class.
---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..dd1b8ba 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From 58adc46d206a465735442ca187b70c3ad8ac4ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 04/30] fix: RuleDBBase.contains looks up the key as it is
 stored

The keys are pairs of a label and a sorted tuple, a list is not hashable.
---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index dd1b8ba..fd84c4f 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -159,7 +159,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 7ddb24ecb59f537909f0dc485f0004faed1d19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 05/30] fix: lookups of unknown keys in the class database

- a label that was not given out is unknown (IndexError for too large ones, and
  negative ones were looked up from the end of the list)
- the membership test is False for anything that is not a class or label
- the emptiness of a class that has no label yet can be queried
---
 comb_spec_searcher/class_db.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..4dd8811 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
@@ -159,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            return False
         return info is not None
 
     def __eq__(self, other: object) -> bool:
@@ -262,7 +261,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         Return True if combinatorial class is empty set, False if not.
         """
         if label is None:
-            label = self.label_dict[self._compress(comb_class)]
+            label = self.get_label(comb_class)
 
         empty = self.empty_list[label]
         if empty is None:
-- 
2.43.0


From 9c77a269d3f6202b27ad62d3e67cd025d1bd8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 06/30] fix: use the equivalence form of one way rules with
 empty children

As for two way rules (and in the forest extractor), otherwise grouping the
equivalences of a specification into paths follows the empty children.
---
 comb_spec_searcher/specification_extrator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification_extrator.py b/comb_spec_searcher/specification_extrator.py
index b8dec2a..aad2578 100644
--- a/comb_spec_searcher/specification_extrator.py
+++ b/comb_spec_searcher/specification_extrator.py
@@ -86,7 +86,12 @@ class SpecificationRuleExtractor:
             if len(children) != 1:
                 raise self._missing_rule_error(parent, children) from e
         else:
-            return strategy(self.classdb.get_class(parent))
+            rule = strategy(self.classdb.get_class(parent))
+            if len(children) < len(rule.children) and rule.is_equivalence():
+                # a one way rule whose other children are all empty
+                assert isinstance(rule, Rule)
+                return rule.to_equivalence_rule()
+            return rule
         # From now on we are looking for a two way strategy
         assert len(children) == 1
         try:
-- 
2.43.0


From 72f6cc10df124a1398ddba60af29fe564ae33860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 07/30] fix: do not recompute a strategy to a rule from a class
 to itself

For an empty class such a rule has the same key as any rule whose children are
all empty, and the specification built from it never terminates.
---
 comb_spec_searcher/rule_db/forget.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index 20707c4..a686bae 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -105,6 +105,9 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                     ):
                         # Not a rule that was added to the database.
                         continue
+                    if rule.children == (rule.comb_class,):
+                        # The searcher does not add a class as its own child.
+                        continue
                     start_label = self.classdb.get_label(rule.comb_class)
                     nonempty_children = tuple(
                         c
-- 
2.43.0


From 0c85b51fc8fd782a3f3c906de2639288f96e5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 08/30] fix: recompute the rule of an empty class as an empty
 rule

---
 comb_spec_searcher/rule_db/forget.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index a686bae..66dd560 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -20,7 +20,11 @@ from typing import (
 from comb_spec_searcher.class_db import ClassDB
 from comb_spec_searcher.exception import StrategyDoesNotApply
 from comb_spec_searcher.strategies.rule import AbstractRule
-from comb_spec_searcher.strategies.strategy import AbstractStrategy, StrategyFactory
+from comb_spec_searcher.strategies.strategy import (
+    AbstractStrategy,
+    EmptyStrategy,
+    StrategyFactory,
+)
 from comb_spec_searcher.strategies.strategy_pack import StrategyPack
 from comb_spec_searcher.typing import RuleKey
 
@@ -82,6 +86,12 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
     def __getitem__(self, key: RuleKey) -> AbstractStrategy:
         if self._flatten(key) not in self.rules:
             raise KeyError(key)
+        if not key[1] and self.classdb.is_empty(
+            self.classdb.get_class(key[0]), key[0]
+        ):
+            # All the children of any rule for an empty class are empty, so many
+            # rules would match the key. Some of them may be circular.
+            return EmptyStrategy()
         possible_labels = (key[0],) + key[1]
         for label, strat in itertools.product(possible_labels, self.pack):
             comb_class = self.classdb.get_class(label)
-- 
2.43.0


From 3acca2033eca75d62048a0bbe486beab9f4397cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 09/30] fix: proof_tree_generator_bfs only yields trees with
 one rule per class

---
 comb_spec_searcher/tree_searcher.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..ef3fa6f 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -213,8 +213,17 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
         start: tuple(sorted(ends)) for start, ends in rules_dict.items()
     }
 
+    def _one_rule_per_label(tree: Node) -> bool:
+        # The branches are built independently of each other.
+        rules: Dict[int, Tuple[int, ...]] = {}
+        return all(
+            rules.setdefault(node.label, children) == children
+            for node in tree.nodes()
+            if (children := tuple(child.label for child in node.children))
+        )
+
     if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+        yield from filter(_one_rule_per_label, _bfs_helper(root, frozenset()))
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From 0db093244f204853f373cd87017233c7d6cb4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 10/30] fix: compute the pruned dict before the representative
 of the root

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index fd84c4f..f0517ce 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -222,7 +222,9 @@ class RuleDBBase(RuleDBAbstract):
 
     def has_specification(self) -> bool:
         """Return True if a specification has been found, false otherwise."""
-        return self.equivdb[self.root_label] in self.pruned_dict
+        # Computing the pruned dict can change the representative of the root label
+        pruned_dict = self.pruned_dict
+        return self.equivdb[self.root_label] in pruned_dict
 
     def rule_from_equivalence_rule(
         self, eqv_start: int, eqv_ends: Iterable[int]
-- 
2.43.0


From f5b27145f6497e28d8b56ba9660af1a3ac83001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 11/30] fix: count products with a single factor through their
 equivalence forms

---
 .../strategies/constructor/cartesian.py       |  9 +++++++
 comb_spec_searcher/strategies/rule.py         | 24 ++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index b259bf0..09b1aa7 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -406,6 +406,12 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         self._parent_shift = sum(self._min_sizes) - self._min_sizes[self.idx]
         self._num_parent_params = len(parent.extra_parameters)
 
+    def can_be_equivalent(self) -> bool:
+        return all(
+            len(params.values()) == len(set(params.values()))
+            for params in self.extra_parameters
+        )
+
     @staticmethod
     def param_map(
         child_pos_to_parent_pos: Tuple[Tuple[int, ...], ...],
@@ -509,6 +515,9 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         Dict representing the polynomial that multiply the polynomial of the
         flipped child for length n.
         """
+        if self.number_of_children == 1:
+            # the empty product
+            return Counter({(0,) * self._num_parent_params: 1})
         min_sizes = self._min_sizes[: self.idx] + self._min_sizes[self.idx + 1 :]
         max_sizes = self._max_sizes[: self.idx] + self._max_sizes[self.idx + 1 :]
         possible_sizes = utils.compositions(
diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 7195b81..72fd86d 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -43,7 +43,13 @@ from comb_spec_searcher.typing import (
 from ..combinatorial_class import CombinatorialClassType, CombinatorialObjectType
 from ..exception import SanityCheckFailure, SpecificationNotFound, StrategyDoesNotApply
 from ..utils import TermsCache, equal_counters
-from .constructor import Complement, Constructor, DisjointUnion
+from .constructor import (
+    CartesianProduct,
+    Complement,
+    Constructor,
+    DisjointUnion,
+    Quotient,
+)
 
 if TYPE_CHECKING:
     from .strategy import AbstractStrategy, Strategy, VerificationStrategy
@@ -748,20 +754,23 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     def constructor(self) -> Union[DisjointUnion, Complement]:
         if self._constructor is None:
             original_constructor = self.original_rule.constructor
-            if isinstance(original_constructor, DisjointUnion):
+            # a product is an equivalence rule when it has a single factor
+            if isinstance(original_constructor, (DisjointUnion, CartesianProduct)):
                 self._constructor = DisjointUnion(
                     self.comb_class,
                     self.children,
                     (original_constructor.extra_parameters[self.child_idx],),
                 )
-            elif isinstance(original_constructor, Complement):
+            elif isinstance(original_constructor, (Complement, Quotient)):
                 assert isinstance(self.original_rule, ReverseRule)
                 original_original_rule = self.original_rule.original_rule
                 original_original_child_idx = (
                     original_original_rule.to_equivalence_rule().child_idx
                 )
                 original_original_constructor = original_original_rule.constructor
-                assert isinstance(original_original_constructor, DisjointUnion)
+                assert isinstance(
+                    original_original_constructor, (DisjointUnion, CartesianProduct)
+                )
                 self._constructor = Complement(
                     self.children[0],
                     (self.comb_class,),
@@ -856,9 +865,12 @@ class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType])
             }
             for rule in self.rules:
                 original_constructor = rule.constructor
-                assert isinstance(original_constructor, (DisjointUnion, Complement))
+                assert isinstance(
+                    original_constructor,
+                    (DisjointUnion, CartesianProduct, Complement, Quotient),
+                )
                 rules_parameters = original_constructor.extra_parameters[0]
-                if isinstance(original_constructor, Complement):
+                if isinstance(original_constructor, (Complement, Quotient)):
                     if len(set(rules_parameters.values())) != len(
                         rules_parameters.values()
                     ):
-- 
2.43.0


From f8ceeff1fc827349679e695b662f6727e4f04ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 12/30] fix: reverse of an equivalence rule merging parameters

---
 comb_spec_searcher/strategies/rule.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 72fd86d..41fdbba 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -790,9 +790,13 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     ) -> bool:
         return True
 
-    def to_reverse_rule(self, idx: int) -> "EquivalenceRule":
+    def to_reverse_rule(self, idx: int) -> "Rule":
         assert idx == 0
-        return self.original_rule.to_reverse_rule(self.child_idx).to_equivalence_rule()
+        reverse_rule = self.original_rule.to_reverse_rule(self.child_idx)
+        if not reverse_rule.is_equivalence():
+            # The parameters of the child do not determine those of the parent
+            return reverse_rule
+        return reverse_rule.to_equivalence_rule()
 
     def to_equivalence_rule(self) -> "EquivalenceRule":
         raise NotImplementedError("You don't want to do that! I promise")
-- 
2.43.0


From e0568a5e2ce588928b82664828c4a187d4637ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 13/30] fix: complement of children with merged parameters

---
 .../strategies/constructor/disjoint.py        | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index b2c4686..d51b098 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -360,20 +360,19 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_terms(
         self, parent_terms: Callable[[int], Terms], subterms: SubTerms, n: int
     ) -> Terms:
-        parent_terms_mapped: Terms = Counter()
-        for param, value in subterms[0](n).items():
-            if value:
-                parent_terms_mapped[self._parent_param_map(param)] += value
+        # we subtract from total, using the parameters of the original parent
+        remaining_terms: Terms = Counter(subterms[0](n))
         children_terms = subterms[1:]
         for child_terms, param_map in zip(children_terms, self._children_param_maps):
-            # we subtract from total
             for param, value in child_terms(n).items():
-                mapped_param = self._parent_param_map(param_map(param))
-                parent_terms_mapped[mapped_param] -= value
-                assert parent_terms_mapped[mapped_param] >= 0
-                if parent_terms_mapped[mapped_param] == 0:
-                    parent_terms_mapped.pop(mapped_param)
-
+                mapped_param = param_map(param)
+                remaining_terms[mapped_param] -= value
+                assert remaining_terms[mapped_param] >= 0
+        # only the objects of the flipped child remain
+        parent_terms_mapped: Terms = Counter()
+        for param, value in remaining_terms.items():
+            if value:
+                parent_terms_mapped[self._parent_param_map(param)] += value
         return parent_terms_mapped
 
     def get_sub_objects(
-- 
2.43.0


From dc57e1f9bc6942a15a52bfb9e7240c9fad76af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 14/30] fix: equation of a product with merged parameters

---
 comb_spec_searcher/strategies/constructor/cartesian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index 09b1aa7..ab9aaa7 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -145,10 +145,10 @@ class CartesianProduct(Constructor[CombinatorialClassType, CombinatorialObjectTy
     ) -> sympy.Eq:
         res = 1
         for extra_parameters, rhs_func in zip(self.extra_parameters, rhs_funcs):
-            res *= rhs_func.subs(
-                {child: parent for parent, child in extra_parameters.items()},
-                simultaneous=True,
-            )
+            subs: Dict[str, sympy.Expr] = {}
+            for parent, child in extra_parameters.items():
+                subs[child] = subs.get(child, 1) * sympy.var(parent)
+            res *= rhs_func.subs(subs, simultaneous=True)
         return sympy.Eq(lhs_func, res)
 
     def reliance_profile(self, n: int, **parameters: int) -> RelianceProfile:
-- 
2.43.0


From dac8923033dddca30610cd4102cf0ced78d22ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 15/30] fix: generating function of a wrong branch with the
 same first terms

---
 comb_spec_searcher/specification.py | 33 ++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index ae50999..0007e6e 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -411,6 +411,7 @@ class CombinatorialSpecification(
             quartics=False,
             quintics=False,
         )
+        candidates = []
         for solution in solutions:
             genf = solution[root_func]
             logger.info("Checking initial conditions for: %s", genf)
@@ -419,11 +420,41 @@ class CombinatorialSpecification(
             except TaylorExpansionError:
                 continue
             if expansion == initial_conditions:
-                return sympy.simplify(genf)
+                candidates.append(solution)
+        if len(candidates) > 1:
+            # The first terms of the root can be the same for several solutions, the
+            # correct one gives the right series for all the comb classes.
+            candidates = [
+                solution
+                for solution in candidates
+                if self._matches_counts(solution, check)
+            ]
+        for solution in candidates:
+            return sympy.simplify(solution[root_func])
         raise IncorrectGeneratingFunctionError(
             "Failed to compute the generating function for the specification."
         )
 
+    def _matches_counts(self, solution: Dict[Function, Expr], check: int) -> bool:
+        """
+        Return True if the solution for each comb class is a power series that starts
+        with the counts of the comb class, up to its smallest objects at least.
+        """
+        for comb_class, rule in tuple(self.rules_dict.items()):
+            func = self.get_function(comb_class)
+            if func not in solution or isinstance(rule.strategy, EmptyStrategy):
+                continue
+            terms = max(check, comb_class.minimum_size_of_object())
+            try:
+                counts = [rule.count_objects_of_size(n) for n in range(terms + 1)]
+                if taylor_expand(solution[func], terms) != counts:
+                    return False
+            except NotImplementedError:
+                continue
+            except TaylorExpansionError:
+                return False
+        return True
+
     def get_maple_equations(self, check: int = 6) -> str:
         """
         Convert the systems of equations to version that can be copy pasted to maple.
-- 
2.43.0


From 0445eaf089cd8b12e492eb1a79a899a64a87c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 16/30] fix: isomorphism test of a verified class against a
 rule with empty children only

---
 comb_spec_searcher/isomorphism.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..c1ca86e 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -217,14 +217,13 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             return Isomorphism._INVALID
 
         # Atoms
-        if not rule1.children and not rule2.children:
+        if not isinstance(rule1, Rule) or not isinstance(rule2, Rule):
             if curr1.is_atom() and curr2.is_atom():
                 if self._atom_match(curr1, curr2, rule1, rule2):
                     return Isomorphism._VALID
             return Isomorphism._INVALID
 
         # If different type of rules are applied, the trees are not isomorphic
-        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
         if not self._constructor_match(rule1, rule2, curr1, curr2):
             return Isomorphism._INVALID
 
-- 
2.43.0


From 154837659f58378ea29eb006283fe1f15b6304ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 17/30] fix: no bijection through reverse rules that cannot map
 objects

---
 comb_spec_searcher/isomorphism.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index c1ca86e..f76278a 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -1,4 +1,4 @@
-from itertools import product
+from itertools import chain, product
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -13,7 +13,7 @@ from typing import (
 )
 
 from .combinatorial_class import CombinatorialClass
-from .strategies.rule import AbstractRule, Rule
+from .strategies.rule import AbstractRule, ReverseRule, Rule
 
 if TYPE_CHECKING:
     from .combinatorial_class import CombinatorialObject
@@ -417,6 +417,13 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         other: "CombinatorialSpecification[ClassType2, ObjType2]",
     ) -> Optional["Bijection[ClassType1, ObjType1, ClassType2, ObjType2]"]:
         """Create a bijection object between two specifications if possible."""
+        for rule in chain(spec.rules_dict.values(), other.rules_dict.values()):
+            if (
+                isinstance(rule, ReverseRule)
+                and len(rule.original_rule.non_empty_children()) != 1
+            ):
+                # These only count their objects, they can't map them.
+                return None
         iso = Isomorphism[ClassType1, ObjType1, ClassType2, ObjType2](spec, other)
         if not iso.are_isomorphic():
             return None
-- 
2.43.0


From b1f2b96435d16f540768f7cd24ddb19d0f50d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 18/30] fix: isomorphism matches that assume an ancestor match
 which fails

---
 comb_spec_searcher/isomorphism.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index f76278a..d490b65 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -114,6 +114,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if is_base_case:
             return bool(is_base_case + 1)
 
+        # The matches already made, later ones might depend on this one
+        matched = len(self._order_map)
+
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
@@ -174,9 +177,12 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             Isomorphism._extend_stack(i1, n, in_use, stack)
 
         # If stack has been exhausted we have failed to match the ids. We remove them
-        # from the ancestors set, memorize the failure and remove any data gathered.
+        # from the ancestors set, memorize the failure and remove any data gathered,
+        # with the matches made on the way as these might assume that the ids match.
         self._ancestors.difference_update(product(eq_path1, eq_path2))
         self._failed.add((curr1, curr2))
+        while len(self._order_map) > matched:
+            self._index_data.pop(self._order_map.popitem()[0], None)
         self._index_data.pop((curr1, curr2), None)
         return False
 
-- 
2.43.0


From b3a2e203d7f9d62762f5c2ce5287fe64fc6b0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 19/30] fix: bijection between an atom and a class equivalent
 to an atom

---
 comb_spec_searcher/isomorphism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index d490b65..1623e65 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -350,7 +350,7 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         rule2: AbstractRule[ClassType2, ObjType2],
     ) -> ObjType2:
         # If atom, we return the minimum object of the corresponding rule.
-        if not rule1.children:
+        if not rule1.children or not rule2.children:
             return ParseTreeMap._min_object(rule2)
 
         assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
-- 
2.43.0


From beb0f05163415f0fd2106eb13866a665c96849c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 20/30] fix: parallel finder with empty start classes or
 decomposed atoms

---
 comb_spec_searcher/bijection.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..105f708 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -132,15 +132,17 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
 
         for eq_par, eq_chi in lis:
             parent, rule = self._get_class_and_rule(eq_par, eq_chi, rule_dict)
-            assert not parent.is_empty()
-            if parent.is_atom():
+            if parent.is_empty():
+                # There is nothing to match
+                continue
+            if not isinstance(rule, Rule):
+                if not parent.is_atom():
+                    raise ValueError("Only atoms can be verified.")
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
                 ).size()
                 self.atom_map[eq_par] = (sz, rule.get_terms(sz))
             else:
-                if not isinstance(rule, Rule):
-                    raise ValueError("Only atoms can be verified.")
                 assert len(eq_chi) > 0
             eq_label_rules[eq_par][len(eq_chi)].append((eq_chi, rule))
         return eq_label_rules
-- 
2.43.0


From ff03d98f2aa875d81518822d53d64fe24229c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 21/30] fix: parallel finder with a start class that is not its
 representative

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 105f708..175942d 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -535,7 +535,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From 01646296c2824649f1a11e8a1bd5b2f261805161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 22/30] fix: parallel finder does not match an equivalence with
 another unary rule

---
 comb_spec_searcher/bijection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 175942d..97dcdda 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -327,6 +327,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             return not isinstance(rule2, Rule)
         if not isinstance(rule2, Rule):
             return False
+        if rule1.is_equivalence() != rule2.is_equivalence():
+            return False
         return rule1.constructor.equiv(rule2.constructor)[0]
 
     def _potential_children(
-- 
2.43.0


From 3f421a3cca9be1ac747a1cac28bec576edcd3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 23/30] fix: parallel finder checks all pairs of labels that
 are matched

---
 comb_spec_searcher/bijection.py | 44 ++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 97dcdda..0d134f2 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -45,6 +45,7 @@ MatchingInfo = DefaultDict[
 ]
 MatchingInfoSingle = DefaultDict[int, DefaultDict[int, Set[Tuple[int, ...]]]]
 SpecMap = Dict[int, Tuple[int, ...]]
+MatchedPairs = Dict[Tuple[int, int], None]
 RuleClassification = DefaultDict[
     int,
     DefaultDict[
@@ -391,6 +392,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs of ids matched, in order, some might assume that ancestors match
+        matched: MatchedPairs = {}
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
@@ -400,7 +404,14 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1,
+                id2,
+                matching_info,
+                matching_info1,
+                matching_info2,
+                sp1,
+                sp2,
+                matched,
             )
             if bc:
                 return bool(bc + 1)
@@ -417,6 +428,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             ):
                 # Add rule for spec to (id -> children) for both specs
                 sp1[id1], sp2[id2] = children1, children2
+                n_matched = len(matched)
+                matched[(id1, id2)] = None
 
                 # Construct cleaning sets that are passed down the recursion
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
@@ -437,7 +450,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                     id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                     id_sets[1].update(to_clean[1], () if rec2 else (id2,))
                     return True
-                # If failed, remove all descendants that populated the spec maps.
+                # If failed, remove all descendants that populated the spec maps and
+                # all matches made since these might assume that the ids match.
+                ParallelSpecFinder._clean_matched(matched, n_matched)
                 ParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
@@ -475,6 +490,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        matched: MatchedPairs,
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -484,8 +500,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If already matched, we are done
+        if (id1, id2) in matched:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -508,6 +524,11 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             or (id2 in sp2 and sp2[id2] not in matching_info2[id2][id1])
         )
 
+    @staticmethod
+    def _clean_matched(matched: MatchedPairs, n_matched: int) -> None:
+        while len(matched) > n_matched:
+            matched.popitem()
+
     @staticmethod
     def _clean_descendants(
         to_clean1: Set[int],
@@ -596,6 +617,9 @@ class EqPathParallelSpecFinder(
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
+        # The pairs of ids matched, in order, some might assume that ancestors match
+        matched: MatchedPairs = {}
+
         def _rec(
             id1: int,
             id2: int,
@@ -611,6 +635,7 @@ class EqPathParallelSpecFinder(
                 sp2,
                 self._path[-1],
                 eq_path_tracker,
+                matched,
             )
             if bc:
                 return bool(bc + 1)
@@ -621,6 +646,8 @@ class EqPathParallelSpecFinder(
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
+                n_matched = len(matched)
+                matched[(id1, id2)] = None
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
 
                 # Check if the path required for the eq labels actually matches
@@ -652,6 +679,7 @@ class EqPathParallelSpecFinder(
                         id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                         id_sets[1].update(to_clean[1], () if rec2 else (id2,))
                         return True
+                EqPathParallelSpecFinder._clean_matched(matched, n_matched)
                 EqPathParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
@@ -676,6 +704,7 @@ class EqPathParallelSpecFinder(
         sp2: SpecMap,
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
+        matched: MatchedPairs,
     ) -> int:
         pid1, pid2, idx1, idx2 = relations
         if EqPathParallelSpecFinder._inconsistent_with_matching_info(
@@ -689,9 +718,9 @@ class EqPathParallelSpecFinder(
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
             return EqPathParallelSpecFinder._VALID
-        # If both ids are set we still need to check if they are valid in terms
+        # If already matched we still need to check if they are valid in terms
         # of eq paths since we may have arrived from different parents.
-        if id1 in sp1 and id2 in sp2:
+        if (id1, id2) in matched:
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
@@ -724,6 +753,9 @@ class EqPathParallelSpecFinder(
             return True
         if children1 == () == children2:
             return self._atom_path_match(id1, id2, sp1, sp2)
+        if (children1, children2) not in matching_info.get((id1, id2), {}):
+            # The ids are only matched with others for now
+            return True
         mem.add((id1, id2))
         for j2, ((j1, child1), child2) in enumerate(
             zip(
-- 
2.43.0


From 3540ba689df05a0e0c4b772dd5cded9c1a031fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 24/30] fix: equivalence paths to atoms and between other
 children in the parallel finder

---
 comb_spec_searcher/bijection.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 0d134f2..7828bb3 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -62,7 +62,7 @@ EqPathTracker = DefaultDict[
     Tuple[int, int],
     DefaultDict[
         Tuple[int, int],
-        Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
+        Dict[Tuple[Tuple[Optional[Tuple[int, ...]], ...], ...], bool],
     ],
 ]
 
@@ -716,7 +716,15 @@ class EqPathParallelSpecFinder(
         if ((), ()) in matching_info[(id1, id2)]:
             if not self._atom_path_match(id1, id2, sp1, sp2):
                 return EqPathParallelSpecFinder._INVALID
+            rec1, rec2 = id1 in sp1, id2 in sp2
             sp1[id1], sp2[id2] = (), ()
+            if not self._eq_path_matches(
+                id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
+            ):
+                EqPathParallelSpecFinder._clean_descendants(
+                    set(), set(), id1, id2, sp1, sp2, rec1, rec2
+                )
+                return EqPathParallelSpecFinder._INVALID
             return EqPathParallelSpecFinder._VALID
         # If already matched we still need to check if they are valid in terms
         # of eq paths since we may have arrived from different parents.
@@ -797,7 +805,12 @@ class EqPathParallelSpecFinder(
         if the actual rules required (disregarding actual equivalence rules) to traverse
         this path match.
         """
-        children = (sp1[id1], sp2[id2])
+        # The rules and the children that the path goes between
+        children = (
+            (sp1[id1], sp2[id2]),
+            (sp1.get(pid1), sp2.get(pid2)),
+            ((idx1, idx2),),
+        )
         children_cache = cache[(id1, id2)][(pid1, pid2)]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
-- 
2.43.0


From 47acacbdb7900b59b03a62edc0096ce9893c07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 25/30] fix: isomorphism test follows chains of equivalences

---
 comb_spec_searcher/isomorphism.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 1623e65..2764b92 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -147,8 +147,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             self._path_tracker_push(
                 non_empty_ind1[i1],
                 non_empty_ind2[i2],
-                len(eq_path1) > 1,
-                len(eq_path2) > 1,
+                len(eq_path1) - 1,
+                len(eq_path2) - 1,
             )
 
             # Call _are_isomorphic recursively for current pair
@@ -190,12 +190,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self, node1: ClassType1, node2: ClassType2
     ) -> Tuple[List[ClassType1], List[ClassType2]]:
         """Get path to nodes that are not on the LHS of equivalence rules."""
-        rule1, rule2 = self._rules1[node1], self._rules2[node2]
         nodes1, nodes2 = [node1], [node2]
-        if rule1.is_equivalence():
-            nodes1.append(rule1.children[0])
-        if rule2.is_equivalence():
-            nodes2.append(rule2.children[0])
+        while self._rules1[nodes1[-1]].is_equivalence():
+            nodes1.append(self._rules1[nodes1[-1]].children[0])
+        while self._rules2[nodes2[-1]].is_equivalence():
+            nodes2.append(self._rules2[nodes2[-1]].children[0])
         return nodes1, nodes2
 
     def _base_cases(
@@ -240,11 +239,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         return Isomorphism._UNKNOWN
 
     def _path_tracker_push(
-        self, c1: int, c2: int, eq_path1: bool, eq_path2: bool
+        self, c1: int, c2: int, eq_steps1: int, eq_steps2: int
     ) -> None:
         """Store the path being taken."""
-        t1 = (0, c1) if eq_path1 else (c1,)
-        t2 = (0, c2) if eq_path2 else (c2,)
+        t1 = (0,) * eq_steps1 + (c1,)
+        t2 = (0,) * eq_steps2 + (c2,)
         self._path_tracker.append((t1, t2))
 
     def _path_tracker_pop(self) -> None:
-- 
2.43.0


From 71f9d4791bc5c19d6a03f08f9971b8b848bf0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 26/30] fix: equality of forest rule databases

---
 comb_spec_searcher/rule_db/forest.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 8dd30cd..56acdcf 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -202,6 +202,12 @@ class TableMethod:
         self._current_gap: Tuple[int, int] = (1, 1)
         self._rule_holding_extra_terms: Set[int] = set()
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        return bool(self._rules == other._rules and self.function == other.function)
+
     @property
     def function(self) -> Dict[int, Optional[int]]:
         """
@@ -638,6 +644,17 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, RuleDBForest):
+            return NotImplemented
+        return bool(
+            self.reverse == other.reverse
+            and self.table_method == other.table_method
+            and self._already_empty == other._already_empty
+            and self._rule_cache == other._rule_cache
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From acebbba4e1d7d08885d5daad84f6a64e40f50ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 27/30] fix: no symmetry rules for empty classes

---
 comb_spec_searcher/comb_spec_searcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comb_spec_searcher/comb_spec_searcher.py b/comb_spec_searcher/comb_spec_searcher.py
index 64024e6..f9de747 100644
--- a/comb_spec_searcher/comb_spec_searcher.py
+++ b/comb_spec_searcher/comb_spec_searcher.py
@@ -299,6 +299,10 @@ class CombinatorialSpecificationSearcher(Generic[CombinatorialClassType]):
         """Add symmetries of combinatorial class to the database."""
         sym_labels = set([label])
         empty = self.classdb.is_empty(comb_class, label)
+        if empty:
+            # Symmetry rules are not possibly empty
+            self.symmetry_expanded.add(label)
+            return
         for strategy_generator in self.symmetries:
             for start_label, end_labels, rule in self._expand_class_with_strategy(
                 comb_class, strategy_generator, label=label
-- 
2.43.0


From 24111947ea32987d1d2b9df835ac3982b1161c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 28/30] fix: strategy equality does not depend on type
 parameters of the instance

---
 comb_spec_searcher/strategies/strategy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..5dceea8 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -114,6 +114,14 @@ def strategy_from_dict(d) -> CSSstrategy:
     return StratClass.from_dict(d)
 
 
+def settings(strategy: CSSstrategy) -> Dict[str, Any]:
+    """
+    Return the attributes of the strategy, except for the type parameters that the
+    typing module stores on an instance created as Strategy[A, B]().
+    """
+    return {k: v for k, v in strategy.__dict__.items() if k != "__orig_class__"}
+
+
 class AbstractStrategy(
     abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -247,7 +255,7 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and settings(self) == settings(other)
 
     def __repr__(self):
         return (
@@ -947,7 +955,7 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and settings(self) == settings(other)
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From 676eb338b678c1b9c29ad869fe5e354abdcecb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 29/30] fix: symmetries of the class to expand in a
 specification

---
 comb_spec_searcher/specification.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index 0007e6e..72d06ef 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -235,10 +235,15 @@ class CombinatorialSpecification(
             end_labels = tuple(map(css.classdb.get_label, rule.children))
             ruledb.add(start_label, end_labels, rule)
         ruledb.reverse = reverse
+        # The search starts from the class to expand and not from the root
         css.classqueue = DefaultQueue(css.strategy_pack)
+        css.symmetry_expanded = set()
         label_to_expand = css.classdb.get_label(comb_class)
         css.classqueue.add(label_to_expand)
         css.try_verify(comb_class, label_to_expand)
+        if css.symmetries:
+            # pylint: disable-next=protected-access
+            css._symmetry_expand(comb_class, label_to_expand)
         # logger.info(CSS.run_information())
         try:
             # pylint: disable=protected-access
-- 
2.43.0


From 2ce6808dbb0d59c054a26c4bafc1d90ba41e7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 30/30] fix: recursion limit of counting and sampling depends
 on the rules

The limit was n times the number of rules, which is not enough for the few
frames each rule takes: a long specification could not be counted for small n,
and sampling of a small specification failed from a few hundred letters on.
get_terms and get_objects did not raise the limit at all.
---
 comb_spec_searcher/specification.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index 72d06ef..fa8a253 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -484,21 +484,22 @@ class CombinatorialSpecification(
         Return the number of objects with the given parameters.
         Note, 'n' is reserved for the size of the object.
         """
-        limit = n * self.number_of_rules()
-        with RecursionLimit(limit):
+        with self._recursion_limit(n):
             return self.root_rule.count_objects_of_size(n, **parameters)
 
     def get_terms(self, n: int) -> Terms:
         """
         Return the terms for given n.
         """
-        return self.root_rule.get_terms(n)
+        with self._recursion_limit(n):
+            return self.root_rule.get_terms(n)
 
     def get_objects(self, n: int) -> Objects:
         """
         Return the objects for given n.
         """
-        return self.root_rule.get_objects(n)
+        with self._recursion_limit(n):
+            return self.root_rule.get_objects(n)
 
     def generate_objects_of_size(
         self, n: int, **parameters
@@ -507,6 +508,7 @@ class CombinatorialSpecification(
         Return the objects with the given parameters.
         Note, 'n' is reserved for the size of the object.
         """
+        self.get_objects(n)
         yield from self.root_rule.generate_objects_of_size(n, **parameters)
 
     def random_sample_object_of_size(
@@ -516,14 +518,20 @@ class CombinatorialSpecification(
         Return a uniformly random object of the given size. This is done using
         the "recursive" method.
         """
-        limit = n * self.number_of_rules()
-        with RecursionLimit(limit):
+        with self._recursion_limit(n):
             if self.count_objects_of_size(n, **parameters) > 0:
                 return self.root_rule.random_sample_object_of_size(n, **parameters)
             raise InvalidOperationError(
                 "The root does not contain objects of this size"
             )
 
+    def _recursion_limit(self, n: int) -> RecursionLimit:
+        """
+        The recursion limit needed for the size n. Each rule needs a few frames, also
+        when n is 0.
+        """
+        return RecursionLimit(5 * (n + 1) * self.number_of_rules() + 1000)
+
     def number_of_rules(self) -> int:
         return len(self.rules_dict)
 
-- 
2.43.0

