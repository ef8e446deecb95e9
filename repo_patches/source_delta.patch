From 50ed01f742463370b461d562e240d9debf9b83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 01/35] fix: accept actions without a precondition or an effect

---
 pddl/_validation.py   | 6 ++++--
 pddl/parser/domain.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..cb0aaf2 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -305,8 +305,10 @@ class TypeChecker:
     def _(self, action: Action) -> None:
         """Check types annotations of a PDDL term."""
         self.check_type(action.parameters)
-        self.check_type(action.precondition)
-        self.check_type(action.effect)
+        if action.precondition is not None:
+            self.check_type(action.precondition)
+        if action.effect is not None:
+            self.check_type(action.effect)
 
 
 class Functions:
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..e7c74a3 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -159,8 +159,11 @@ class DomainTransformer(Transformer[Any, Domain]):
 
         # process action body
         _children = args[5].children
+        # the keywords of the sections that are not specified are None
         action_body = {
-            _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
+            _children[i][1:]: _children[i + 1]
+            for i in range(0, len(_children), 2)
+            if _children[i] is not None
         }
         return Action(action_name, variables, **action_body)
 
-- 
2.43.0


From f556e6d7c764540fd102a8eb2586cf3493a8a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 02/35] fix: parse an empty precondition or effect as the empty
 conjunction

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index e7c74a3..3c958b2 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -232,7 +232,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -337,7 +337,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From 0d75e0c62003dbf4f8f6ce434a235f117445dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 03/35] fix: accept the built-in type 'object' as a type of
 terms

---
 pddl/_validation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index cb0aaf2..66a779b 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -60,7 +60,11 @@ def _find_inconsistencies_in_typed_terms(
         return None
     for term in terms:
         for type_tag in sorted(term.type_tags):
-            if type_tag is not None and type_tag not in all_types:
+            if (
+                type_tag is not None
+                and type_tag != Symbols.OBJECT.value  # 'object' is always available
+                and type_tag not in all_types
+            ):
                 return term, type_tag
     return None
 
@@ -214,7 +218,10 @@ class TypeChecker:
         self, type_tags: Collection[name_type], what: str
     ) -> None:
         """Check that the types are available in the domain."""
-        if not self._types.all_types.issuperset(type_tags):
+        # the 'object' type is always available
+        if not self._types.all_types.issuperset(
+            set(type_tags) - {Symbols.OBJECT.value}
+        ):
             raise PDDLValidationError(
                 f"types {sorted(type_tags)} of {what} are not in available types {self._types.all_types}"
             )
-- 
2.43.0


From 15b3f9013d3d3b63db8c350c75103961c9c13dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 04/35] fix: print typed lists of variables with all their
 types

---
 pddl/formatter.py     | 22 +++-------------------
 pddl/helpers/base.py  | 29 ++++++++++++++++++++---------
 pddl/logic/base.py    | 13 +++++--------
 pddl/logic/effects.py |  6 +++++-
 4 files changed, 33 insertions(+), 37 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..d63849f 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,6 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
+from pddl.helpers.base import _typed_parameters
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -90,17 +91,7 @@ def print_predicates_with_types(predicates: Collection):
         if p.arity == 0:
             result += f"({p.name})"
         else:
-            result += f"({p.name}"
-            for t in p.terms:
-                if len(t.type_tags) > 1:
-                    result += f" ?{t.name} - (either {' '.join(sorted(t.type_tags))})"
-                else:
-                    result += (
-                        f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                        if t.type_tags
-                        else f" ?{t.name}"
-                    )
-            result += ") "
+            result += f"({p.name} {_typed_parameters(p.terms)}) "
         result += " "
     return result.strip()
 
@@ -111,14 +102,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
     if function.arity == 0:
         result += f"({function.name})"
     else:
-        result += f"({function.name}"
-        for t in function.terms:
-            result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                if t.type_tags
-                else f" ?{t.name}"
-            )
-        result += ")"
+        result += f"({function.name} {_typed_parameters(function.terms)})"
     return result
 
 
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..266cdfa 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -125,16 +125,27 @@ def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
 
 
 def _typed_parameters(parameters) -> str:
-    """Return a list of parameters along with types if available."""
-    result = ""
-    for i, p in enumerate(parameters):
-        if i > 0:
-            result += " "
-        if p.type_tags:
-            result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
+    """
+    Return a list of parameters along with types if available.
+
+    In a typed list, an untyped item takes the type of the first typed item that follows; hence,
+    an untyped parameter that is followed by a typed parameter is printed with type 'object'.
+    """
+    parameters = list(parameters)
+    result: List[str] = []
+    typed_item_follows = False
+    for p in reversed(parameters):
+        type_tags = sorted(map(str, p.type_tags))
+        if len(type_tags) > 1:
+            result.append(f"{p} - (either {' '.join(type_tags)})")
+        elif len(type_tags) == 1:
+            result.append(f"{p} - {type_tags[0]}")
+        elif typed_item_follows:
+            result.append(f"{p} - object")
         else:
-            result += str(p)
-    return result.strip()
+            result.append(str(p))
+        typed_item_follows = typed_item_follows or len(type_tags) > 0
+    return " ".join(reversed(result))
 
 
 class RegexConstrainedString(str):
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..2adb6c4 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -216,13 +216,10 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
+        # typed variables first; the order must not depend on the iteration order of the set
+        var_block = _typed_parameters(
+            sorted(self.variables, key=lambda v: (not v.type_tags, v))
+        )
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 8fe9929..fca4a8e 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -98,7 +98,11 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
+        # typed variables first; the order must not depend on the iteration order of the set
+        var_block = _typed_parameters(
+            sorted(self.variables, key=lambda v: (not v.type_tags, v))
+        )
+        return f"({Symbols.FORALL.value} ({var_block}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From 17a08ddeb81ab4efb2b09e68c5ebdb99d2fc0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 05/35] fix: print numbers in positional notation

---
 pddl/logic/functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..69a6f83 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,7 +146,12 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return str(self._value)
+        # PDDL numbers have no exponent: always use the positional notation
+        result = str(self._value)
+        if isinstance(self._value, float) and "e" in result:
+            result = format(Decimal(result), "f")
+            result = result if "." in result else f"{result}.0"
+        return result
 
 
 class BinaryFunction(FunctionExpression):
-- 
2.43.0


From 70ec30ef2913470a9c9f84732877c59648fb82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 06/35] fix: keep the repeated operands of arithmetic operators
 and the nesting of - / and =

---
 pddl/logic/base.py      | 2 +-
 pddl/logic/functions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 2adb6c4..e379ffd 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -302,7 +302,7 @@ def _simplify_monotone_op_operands(cls, *operands, idempotency: bool = False):
     while len(stack) > 0:
         element = stack.pop()
         if not isinstance(element, cls):
-            if element not in seen:
+            if not idempotency or element not in seen:
                 seen.add(element)
                 new_operands.append(element)
             continue
diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 69a6f83..dddd4e6 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -255,7 +255,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -355,7 +355,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -397,7 +397,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From 3c98aa444d6a4df9e7e34ecc714b12c7d504df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 07/35] fix: accept the binary minus in numeric expressions

---
 pddl/parser/grammar.lark | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 8c12e03..fba473c 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -67,17 +67,14 @@ constant: NAME
             | GREATER_EQUAL_OP
             | LESSER_EQUAL_OP
 
-?binary_op: multi_op
-          | MINUS
-          | DIVIDE
-
 ?multi_op: TIMES
          | PLUS
 
 num_literal: NUMBER
 
 f_exp:      num_literal
-      |     LPAR binary_op f_exp f_exp RPAR
+      |     LPAR MINUS f_exp f_exp RPAR
+      |     LPAR DIVIDE f_exp f_exp RPAR
       |     LPAR multi_op f_exp f_exp+ RPAR
       |     LPAR MINUS f_exp RPAR
       |     f_head
@@ -130,7 +127,8 @@ metric_spec: LPAR METRIC optimization metric_f_exp RPAR
 ?optimization: MAXIMIZE
              | MINIMIZE
 
-metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
+metric_f_exp: LPAR MINUS metric_f_exp metric_f_exp RPAR
+            | LPAR DIVIDE metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp RPAR
             | basic_function_term
-- 
2.43.0


From 8bd0508762d0978758e39a47d5864bf055e4aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 08/35] fix: accept a bare function name on the left of a
 numeric equality

---
 pddl/parser/grammar.lark | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index fba473c..cf5b63a 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -36,6 +36,7 @@ gd:                atomic_formula_term
   |                LPAR EXISTS LPAR typed_list_variable RPAR gd RPAR
   |                LPAR FORALL LPAR typed_list_variable RPAR gd RPAR
   |                LPAR binary_comp f_exp f_exp RPAR
+  |                LPAR EQUAL_OP f_exp f_exp RPAR
 
 // effects
 emptyor_effect:    LPAR RPAR
@@ -59,11 +60,11 @@ atomic_formula_term:   LPAR predicate term* RPAR
 ?term:  constant
      |  variable
 ?predicate: NAME
-constant: NAME
+// in (= NAME NAME), the names are read as terms rather than as functions with no arguments
+constant.2: NAME
 
 ?binary_comp: GREATER_OP
             | LESSER_OP
-            | EQUAL_OP
             | GREATER_EQUAL_OP
             | LESSER_EQUAL_OP
 
-- 
2.43.0


From 97f95b6e67d57e80b990b1c042f3b90ef76a8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 09/35] fix: support the instantiation of conditional and
 universal effects

---
 pddl/logic/effects.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index fca4a8e..d01991d 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -13,12 +13,13 @@
 """This modules implements PDDL effects."""
 
 import functools
-from typing import AbstractSet, Collection, Optional, Union
+from typing import AbstractSet, Collection, Mapping, Optional, Union
 
 from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
 
@@ -47,6 +48,12 @@ class When:
         """Get the effect."""
         return self._effect
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "When":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return When(
+            self.condition.instantiate(mapping), self.effect.instantiate(mapping)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.WHEN.value} {self._condition} {self.effect})"
@@ -96,6 +103,10 @@ class Forall:
         """Get the variables."""
         return self._variables
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return Forall(self.effect.instantiate(mapping), self.variables)
+
     def __str__(self) -> str:
         """Get the string representation."""
         # typed variables first; the order must not depend on the iteration order of the set
-- 
2.43.0


From e784974af2f41abe748cb5af5f2456ec51546c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 10/35] fix: do not replace the variables bound by a quantifier
 on instantiation

---
 pddl/logic/base.py    | 11 ++++++++++-
 pddl/logic/effects.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index e379ffd..a03071c 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -186,6 +186,14 @@ class Not(UnaryOp):
     SYMBOL = "not"
 
 
+def _remove_bound_variables(
+    mapping: Mapping[Variable, Term], bound_variables: Collection[Variable]
+) -> Mapping[Variable, Term]:
+    """Remove from the mapping the variables that are bound by a quantifier."""
+    bound_names = {variable.name for variable in bound_variables}
+    return {var: term for var, term in mapping.items() if var.name not in bound_names}
+
+
 @cache_hash
 @functools.total_ordering
 class QuantifiedCondition(Formula):
@@ -212,7 +220,8 @@ class QuantifiedCondition(Formula):
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Formula":
         """Instantiate the formula with a mapping from variables to terms."""
-        return type(self)(self.condition.instantiate(mapping), self.variables)
+        free_mapping = _remove_bound_variables(mapping, self.variables)
+        return type(self)(self.condition.instantiate(free_mapping), self.variables)
 
     def __str__(self) -> str:
         """Get the string representation."""
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index d01991d..5568ee3 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -18,7 +18,14 @@ from typing import AbstractSet, Collection, Mapping, Optional, Union
 from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
-from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.base import (
+    And,
+    Atomic,
+    Formula,
+    Not,
+    OneOf,
+    _remove_bound_variables,
+)
 from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
@@ -105,7 +112,8 @@ class Forall:
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
         """Instantiate the effect with a mapping from variables to terms."""
-        return Forall(self.effect.instantiate(mapping), self.variables)
+        free_mapping = _remove_bound_variables(mapping, self.variables)
+        return Forall(self.effect.instantiate(free_mapping), self.variables)
 
     def __str__(self) -> str:
         """Get the string representation."""
-- 
2.43.0


From 8ab0ca078c29dcdf84cb263444b9de27ef3b3ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 11/35] fix: compare the types of terms with the same name only
 if they denote the same term

---
 pddl/logic/predicates.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index bdc562e..ff11718 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -13,7 +13,7 @@
 """This class implements PDDL predicates."""
 
 import functools
-from typing import Dict, Mapping, Sequence, Set
+from typing import Dict, Mapping, Sequence, Set, Tuple
 
 from pddl.custom_types import name, namelike, parse_name
 from pddl.helpers.base import assert_, check
@@ -27,17 +27,23 @@ def _check_terms_consistency(terms: Sequence[Term]):
     """
     Check that the term sequence have consistent type tags.
 
-    In particular, terms with the same name must have the same type tags.
+    In particular, variables (resp. constants) with the same name must have the same type tags.
+    A constant with no type tag, e.g. an argument of a plan action, is consistent with any constant
+    with the same name.
     """
-    seen: Dict[name, Set[name]] = {}
+    seen: Dict[Tuple[bool, name], Set[name]] = {}
     for term in terms:
-        if term.name not in seen:
-            seen[term.name] = set(term.type_tags)
+        is_variable = isinstance(term, Variable)
+        if not is_variable and len(term.type_tags) == 0:
+            continue
+        key = (is_variable, term.name)
+        if key not in seen:
+            seen[key] = set(term.type_tags)
         else:
             check(
-                seen[term.name] == set(term.type_tags),
+                seen[key] == set(term.type_tags),
                 f"Term {term} has inconsistent type tags: "
-                f"previous type tags {_print_tag_set(seen[term.name])}, new type tags {_print_tag_set(term.type_tags)}",
+                f"previous type tags {_print_tag_set(seen[key])}, new type tags {_print_tag_set(term.type_tags)}",
                 exception_cls=ValueError,
             )
 
-- 
2.43.0


From 04f036c76ef6aac897130925e6bff35d8e6c89eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 12/35] fix: accept disjunctions, quantifiers and equality in
 the goal of a problem

---
 pddl/parser/domain.py  |  8 ++++++--
 pddl/parser/problem.py | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 3c958b2..a69b606 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -82,6 +82,11 @@ class DomainTransformer(Transformer[Any, Domain]):
             raise RuntimeError("Types hierarchy is not available yet.")
         return self._types
 
+    def set_requirements(self, requirements: Set[Requirements]) -> None:
+        """Set the requirements to use for the rest of the parsing."""
+        self._requirements = requirements
+        self._extended_requirements = _extend_domain_requirements(self._requirements)
+
     def start(self, args):
         """Entry point."""
         return args[0]
@@ -110,8 +115,7 @@ class DomainTransformer(Transformer[Any, Domain]):
 
     def requirements(self, args):
         """Process the 'requirements' rule."""
-        self._requirements = {Requirements(r[1:]) for r in args[2:-1]}
-        self._extended_requirements = _extend_domain_requirements(self._requirements)
+        self.set_requirements({Requirements(r[1:]) for r in args[2:-1]})
 
         return dict(requirements=self._requirements)
 
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..d3bbdb1 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -46,6 +46,8 @@ class ProblemTransformer(Transformer[Any, Problem]):
         super().__init__()
 
         self._domain_transformer = DomainTransformer()
+        # the requirements of the domain are not known: unless the problem specifies them, allow any requirement
+        self._domain_transformer.set_requirements(set(Requirements))
         self._objects_by_name: Dict[str, Constant] = {}
 
     def start(self, args):
@@ -71,7 +73,9 @@ class ProblemTransformer(Transformer[Any, Problem]):
 
     def requirements(self, args):
         """Process the 'requirements' rule."""
-        return "requirements", {Requirements(r[1:]) for r in args[2:-1]}
+        requirements = {Requirements(r[1:]) for r in args[2:-1]}
+        self._domain_transformer.set_requirements(requirements)
+        return "requirements", requirements
 
     def objects(self, args):
         """Process the 'problem_domain' rule."""
@@ -92,6 +96,14 @@ class ProblemTransformer(Transformer[Any, Problem]):
         """
         return self._domain_transformer.typed_list_name(args)
 
+    def typed_list_variable(self, args):
+        """Process the 'typed_list_variable' rule."""
+        return self._domain_transformer.typed_list_variable(args)
+
+    def type_def(self, args):
+        """Process the 'type_def' rule."""
+        return self._domain_transformer.type_def(args)
+
     def domain__type_def(self, names):
         """Process a domain type def."""
         assert_(len(names) == 1)
-- 
2.43.0


From 5b7ffdc9ed29d72a35c5810d842980dcfe10b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 13/35] fix: do not carry the state of a parser over to the
 next parsed text

---
 pddl/parser/base.py    | 4 ++++
 pddl/parser/domain.py  | 3 +++
 pddl/parser/problem.py | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..47c25d0 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -43,6 +43,10 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
+        # the result must not depend on the texts that were parsed before
+        reset = getattr(self._transformer, "reset", None)
+        if reset is not None:
+            reset()
         return self._call_parser(text, self._parser)
 
     @classmethod
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index a69b606..92766c1 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -66,7 +66,10 @@ class DomainTransformer(Transformer[Any, Domain]):
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the domain transformer."""
         super().__init__(*args, **kwargs)
+        self.reset()
 
+    def reset(self) -> None:
+        """Reset the state of the transformer: to be called before parsing a new domain."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d3bbdb1..27520f9 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -46,6 +46,11 @@ class ProblemTransformer(Transformer[Any, Problem]):
         super().__init__()
 
         self._domain_transformer = DomainTransformer()
+        self.reset()
+
+    def reset(self) -> None:
+        """Reset the state of the transformer: to be called before parsing a new problem."""
+        self._domain_transformer.reset()
         # the requirements of the domain are not known: unless the problem specifies them, allow any requirement
         self._domain_transformer.set_requirements(set(Requirements))
         self._objects_by_name: Dict[str, Constant] = {}
-- 
2.43.0


From cdb23e15bf6fd81e9753d9525b9688483acd24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 14/35] fix: do not modify the traceback limit of the
 interpreter

---
 pddl/parser/base.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index 47c25d0..3ce6fd3 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -12,7 +12,6 @@
 
 """Base classes for PDDL parsers."""
 
-import sys
 from abc import ABC
 from typing import Any, Type, TypeVar, cast
 
@@ -54,20 +53,13 @@ class BaseParser(Transformer[Any, T], ABC):
         """
         Parse a text with a Lark parser and transformer.
 
-        To produce a better traceback in case of an error, the function will temporarily overwrite the
-        sys.tracebacklimit value of the current interpreter.
+        To produce a better traceback in case of an error, the frames of the parsing library are dropped.
 
         :param text: the text to parse
         :param parser: the Lark parser object
-        :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
-        old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
-            sys.tracebacklimit = 0  # noqa
-            result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
-        finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
-        return result
+            return cast(T, parser.parse(text))
+        except Exception as e:
+            raise e.with_traceback(None)
-- 
2.43.0


From 1e68e7cbde5a2c06c2fb8e6003a6e3dd050db2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 15/35] fix: parse the numbers of a metric as numbers

---
 pddl/parser/grammar.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index cf5b63a..d4f3986 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -133,7 +133,7 @@ metric_f_exp: LPAR MINUS metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp RPAR
             | basic_function_term
-            | NUMBER
+            | num_literal
 
 DOMAIN_P: ":domain"
 PROBLEM: "problem"
-- 
2.43.0


From f8f8cc3d5dc7f2a7bfaaf0bbe7bd96ece3b6fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:36 +0000
Subject: [PATCH 16/35] fix: do not let the parameters of an action be visible
 in derived predicates

---
 pddl/parser/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 92766c1..be779c4 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -172,6 +172,8 @@ class DomainTransformer(Transformer[Any, Domain]):
             for i in range(0, len(_children), 2)
             if _children[i] is not None
         }
+        # the parameters are not visible outside the action
+        self._current_parameters_by_name = {}
         return Action(action_name, variables, **action_body)
 
     def derived_predicates(self, args):
-- 
2.43.0


From 170f76c3c445acddfcda994bd09698a5ec0fbcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 17/35] fix: give the occurrences of quantified variables the
 types of their quantifier

---
 pddl/parser/_update_type_tags.py | 275 +++++++++++++++++--------------
 pddl/parser/domain.py            |  11 +-
 2 files changed, 157 insertions(+), 129 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index ea422f5..043b466 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,127 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_forall_effect(
+    formula: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(var_to_types)
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(formula.effect, new_var_to_types)
+    return Forall(new_effect, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when_effect(
+    formula: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(formula.condition, var_to_types)
+    new_effect = _update_type_tags(formula.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index be779c4..3e05f54 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -299,7 +299,7 @@ class DomainTransformer(Transformer[Any, Domain]):
         ):
             raise PDDLMissingRequirementError(req)
         variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-        condition = args[5]
+        condition = self._update_bound_variables(args[5], variables)
         return cond_class(cond=condition, variables=variables)
 
     def gd_comparison(self, args):
@@ -364,7 +364,8 @@ class DomainTransformer(Transformer[Any, Domain]):
             return args[0]
         if args[1] == Symbols.FORALL.value:
             variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-            return Forall(effect=args[-2], variables=variables)
+            effect = self._update_bound_variables(args[-2], variables)
+            return Forall(effect=effect, variables=variables)
         if args[1] == Symbols.WHEN.value:
             return When(args[2], args[3])
         if args[1] == Symbols.ONEOF.value:
@@ -410,6 +411,12 @@ class DomainTransformer(Transformer[Any, Domain]):
             return Variable(str(t), {})
         return t if isinstance(t, Constant) else self._current_parameters_by_name[t]
 
+    def _update_bound_variables(self, body, variables: Sequence[Variable]):
+        """Set the types of the occurrences of the variables bound by a quantifier."""
+        return update_type_tags(
+            body, {var.name: frozenset(var.type_tags) for var in variables}
+        )
+
     def atomic_formula_term(self, args):
         """Process the 'atomic_formula_term' rule."""
         if args[1] == Symbols.EQUAL.value:
-- 
2.43.0


From dae838faa389d719d53903e60da2aa108bbfd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 18/35] fix: walk the whole type hierarchy when checking the
 types of a derived predicate

---
 pddl/parser/domain.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 3e05f54..c11e006 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -552,16 +552,20 @@ class DomainTransformer(Transformer[Any, Domain]):
         self, type_tags_left: AbstractSet[name], type_tags_right: AbstractSet[name]
     ):
         """Check that each type tag in the left set is a subtype of (one of) the type tags of the right."""
-        if len(type_tags_right) == 0:
+        if len(type_tags_right) == 0 or Symbols.OBJECT.value in type_tags_right:
             # 'object' type includes everything
             return
 
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
             parent_type: Optional[name] = left_type
+            visited: Set[name] = set()
             while parent_type is not None and parent_type not in type_tags_right:
-                parent_type = self.types_hierarchy.get(current_type, None)
+                # the type hierarchy has not been validated yet: it might have cycles
+                visited.add(parent_type)
+                parent_type = self.types_hierarchy.get(parent_type, None)
+                if parent_type in visited:
+                    parent_type = None
 
             if parent_type is None:
                 raise PDDLParsingError(
-- 
2.43.0


From aeb34eb9d7f774f1b7c2353d004e67c74370ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 19/35] fix: accept type hierarchies in domains with the adl
 requirement

---
 pddl/_validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 66a779b..52eba60 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -162,7 +162,10 @@ class Types:
 
         # check typing requirement
         supertypes = {t for t in type_dict.values() if t is not None}
-        if len(supertypes) > 0 and Requirements.TYPING not in requirements:
+        if (
+            len(supertypes) > 0
+            and Requirements.TYPING not in _extend_domain_requirements(requirements)
+        ):
             raise PDDLValidationError(
                 "typing requirement is not specified, but types are used: '"
                 + "', '".join(map(str, sorted(supertypes)))
-- 
2.43.0


From a5403fb8d2080f9b970c33dfe2412c0af2747c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 20/35] fix: check the types used in functions and in derived
 predicates

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..a8f16ae 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -94,6 +94,8 @@ class Domain:
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
+        type_checker.check_type(self._derived_predicates)
+        type_checker.check_type(self.functions.keys())
 
     def _check_types_in_derived_predicates(self) -> None:
         """Check types in derived predicates."""
-- 
2.43.0


From 23f506772fd744edbc76dd836bd369867310786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 21/35] fix: make the order of requirements strict

---
 pddl/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/requirements.py b/pddl/requirements.py
index f6fc2f8..a4df5b0 100644
--- a/pddl/requirements.py
+++ b/pddl/requirements.py
@@ -79,7 +79,7 @@ class Requirements(Enum):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Requirements):
-            return self.value <= other.value
+            return self.value < other.value
         else:
             return super().__lt__(other)
 
-- 
2.43.0


From 9b99f0043f22c5d4b2657d846068b9eb0c98f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 22/35] fix: compare derived predicates by predicate and
 condition

---
 pddl/logic/predicates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index ff11718..ebde6c0 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -231,8 +231,9 @@ class DerivedPredicate(Atomic):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, DerivedPredicate):
-            return (self.predicate, self._predicate) < (
+            # there is no order among formulas, hence compare their string representations
+            return (self.predicate, str(self.condition)) < (
                 other.predicate,
-                other.condition,
+                str(other.condition),
             )
         return super().__lt__(other)
-- 
2.43.0


From 3655b36f6d3e708c469de00eee3b175669a27960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 23/35] fix: make the order of constants consistent with their
 equality

---
 pddl/logic/terms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pddl/logic/terms.py b/pddl/logic/terms.py
index f5397d7..d90f410 100644
--- a/pddl/logic/terms.py
+++ b/pddl/logic/terms.py
@@ -105,6 +105,12 @@ class Constant(Term):
         """Compare with another object."""
         return isinstance(other, Constant) and self.name == other.name
 
+    def __lt__(self, other):
+        """Compare with another term; as for the equality, the type tags of constants are ignored."""
+        if isinstance(other, Constant):
+            return self.name < other.name
+        return super().__lt__(other)
+
     def __hash__(self):
         """Get the hash."""
         return hash((Constant, self._name))
-- 
2.43.0


From adf68b0e8fcac7a9ab5469f3e3c29f904200fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 24/35] fix: leave the problem unchanged when the new domain is
 not consistent with it

---
 pddl/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pddl/core.py b/pddl/core.py
index a8f16ae..a7971b3 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -321,9 +321,14 @@ class Problem:
     @domain.setter
     def domain(self, domain: Domain) -> None:
         """Set the domain."""
-        self._domain_name = domain.name
-        self._domain = domain
-        self._check_consistency()
+        previous = self._domain, self._domain_name
+        self._domain, self._domain_name = domain, domain.name
+        try:
+            self._check_consistency()
+        except Exception:
+            # leave the problem as it was
+            self._domain, self._domain_name = previous
+            raise
 
     @property
     def domain_name(self) -> name_type:
-- 
2.43.0


From 44d040c739bc4088c2d09b293e93267f8ab3bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 25/35] fix: do not share the collections given by the caller
 with domains and plans

---
 pddl/_validation.py | 2 +-
 pddl/core.py        | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 52eba60..ea82431 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -331,7 +331,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
diff --git a/pddl/core.py b/pddl/core.py
index a7971b3..8ea8b06 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -408,7 +408,9 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = actions
+        self._actions: List[Tuple[namelike, List["Constant"]]] = [
+            (action_name, list(parameters)) for action_name, parameters in actions
+        ]
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From 4e2477c4840680fef7da66a8c784a64a0717b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 26/35] fix: print flat types as a plain list

---
 pddl/formatter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index d63849f..c572985 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -121,6 +121,10 @@ def print_typed_lists(
             str(k) if k is not None else None: v for k, v in names_by_obj.items()
         }
 
+        if set(super_to_subs.keys()) == {None}:
+            # no type has a parent: print a plain list of names, as it does not need the typing requirement
+            return result + " " + " ".join(sorted(map(to_string, super_to_subs[None]))) + postfix  # type: ignore
+
         # first print those types that have no parents
         subtypes = set()
         for subs in super_to_subs.values():
-- 
2.43.0


From bd5e91812e5b9691c8da56e4903d80e91f3b367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 27/35] fix: accept the object-fluents requirement

---
 pddl/parser/grammar.lark | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index d4f3986..7369d18 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -167,6 +167,7 @@ NAME: /[a-zA-Z][a-zA-Z0-9-_]*/
             | DERIVED_PREDICATES
             | CONDITIONAL_EFFECTS
             | NUMERIC_FLUENTS
+            | OBJECT_FLUENTS
             | FLUENTS
             | ACTION_COSTS
 
@@ -228,6 +229,7 @@ EXISTENTIAL_PRECONDITIONS: ":existential-preconditions"
 UNIVERSAL_PRECONDITIONS: ":universal-preconditions"
 QUANTIFIED_PRECONDITIONS: ":quantified-preconditions"
 NUMERIC_FLUENTS: ":numeric-fluents"
+OBJECT_FLUENTS: ":object-fluents"
 FLUENTS: ":fluents"
 ACTION_COSTS: ":action-costs"
 
-- 
2.43.0


From fb2487819fab9342a7800fff984c559563432d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:57 +0000
Subject: [PATCH 28/35] fix: keep the cached hash of an object that is copied
 or pickled

---
 pddl/helpers/cache_hash.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/helpers/cache_hash.py b/pddl/helpers/cache_hash.py
index d62c9d3..742f24d 100644
--- a/pddl/helpers/cache_hash.py
+++ b/pddl/helpers/cache_hash.py
@@ -56,7 +56,9 @@ def _getstate(fn):
         d = fn(self)
         if d is None:
             return None
-        # assuming d is a dictionary
+        # assuming d is a dictionary; it may be the dictionary of the object itself, which must keep
+        # its hash, as another thread may be about to read it
+        d = dict(d)
         d.pop("__hash", None)
         return d
 
-- 
2.43.0


From 5e77b9d2442a3e304b2988a99b419ac8a064e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 29/35] fix: keep the line ends of the file that updates the
 type tags

---
 pddl/parser/_update_type_tags.py | 296 +++++++++++++++----------------
 1 file changed, 148 insertions(+), 148 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index 043b466..5889fd4 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,148 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.effects import Forall, When
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_forall_effect(
-    formula: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_var_to_types = dict(var_to_types)
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_effect = _update_type_tags(formula.effect, new_var_to_types)
-    return Forall(new_effect, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_when_effect(
-    formula: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_condition = _update_type_tags(formula.condition, var_to_types)
-    new_effect = _update_type_tags(formula.effect, var_to_types)
-    return When(new_condition, new_effect)
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_forall_effect(
+    formula: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(var_to_types)
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(formula.effect, new_var_to_types)
+    return Forall(new_effect, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when_effect(
+    formula: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(formula.condition, var_to_types)
+    new_effect = _update_type_tags(formula.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
-- 
2.43.0


From 86667ec47f30cfa1372af816333d1bca7f8518db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 30/35] fix: find the declaration of a derived predicate by
 name and number of arguments

---
 pddl/parser/domain.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index c11e006..579338e 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -72,6 +72,7 @@ class DomainTransformer(Transformer[Any, Domain]):
         """Reset the state of the transformer: to be called before parsing a new domain."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
+        self._predicates_by_signature: Dict[Tuple[str, int], Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
         self._current_parameters_by_name: Dict[str, Variable] = {}
         self._requirements: Set[Requirements] = set()
@@ -151,6 +152,8 @@ class DomainTransformer(Transformer[Any, Domain]):
         """Process the 'predicates' rule."""
         predicates = args[2:-1]
         self._predicates_by_name = {p.name: p for p in predicates}
+        # a name may be declared several times, with different numbers of arguments
+        self._predicates_by_signature = {(p.name, p.arity): p for p in predicates}
         return dict(predicates=predicates)
 
     def functions(self, args):
@@ -186,7 +189,10 @@ class DomainTransformer(Transformer[Any, Domain]):
         # to do so, we read the type tags of the predicate arguments from the predicate definition in (:predicates ...)
         if dp_predicate.name not in self._predicates_by_name:
             raise ParseError(f"Predicate '{dp_predicate.name}' not defined.")
-        predicate_def = self._predicates_by_name[dp_predicate.name]
+        predicate_def = self._predicates_by_signature.get(
+            (dp_predicate.name, dp_predicate.arity),
+            self._predicates_by_name[dp_predicate.name],
+        )
         if len(predicate_def.terms) != len(dp_predicate.terms):
             raise ParseError(
                 f"Derived predicate '{dp_predicate.name}' has {len(dp_predicate.terms)} arguments, "
-- 
2.43.0


From bde3f4bb11b4f9a782259167da5dd52b8a213018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:23 +0000
Subject: [PATCH 31/35] fix: check the types of the terms of the metric

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index 8ea8b06..7c1f9cd 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -306,6 +306,8 @@ class Problem:
         type_checker.check_type(self.objects)
         type_checker.check_type(self.init)
         type_checker.check_type(self.goal)
+        if self.metric is not None:
+            type_checker.check_type(self.metric.expression)
 
     @property
     def name(self) -> name_type:
-- 
2.43.0


From dd201c445869ad79faeb35269cbecd22db519aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 32/35] fix: a function declared twice failed with an internal
 TypeError instead of a parsing error

---
 pddl/parser/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 579338e..f42a86f 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -530,7 +530,8 @@ class DomainTransformer(Transformer[Any, Domain]):
 
     def _raise_typed_list_parsing_error(self, args, exception) -> PDDLParsingError:
         string_list = [
-            str(arg) if isinstance(arg, str) else list(map(str, arg)) for arg in args
+            str(arg) if isinstance(arg, (str, NumericFunction)) else list(map(str, arg))
+            for arg in args
         ]
         return PDDLParsingError(
             f"error while parsing tokens {string_list}: {str(exception)}"
-- 
2.43.0


From 3ba8e3bbd3245ddf72acd1b31d905e99100b14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 33/35] fix: types in derived predicates without a types
 section failed with an internal RuntimeError

---
 pddl/parser/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index f42a86f..3ba33f8 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -563,6 +563,9 @@ class DomainTransformer(Transformer[Any, Domain]):
             # 'object' type includes everything
             return
 
+        # the types section is optional: without it, no type has a supertype
+        hierarchy = self.types_hierarchy if self._types is not None else {}
+
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
             parent_type: Optional[name] = left_type
@@ -570,7 +573,7 @@ class DomainTransformer(Transformer[Any, Domain]):
             while parent_type is not None and parent_type not in type_tags_right:
                 # the type hierarchy has not been validated yet: it might have cycles
                 visited.add(parent_type)
-                parent_type = self.types_hierarchy.get(parent_type, None)
+                parent_type = hierarchy.get(parent_type, None)
                 if parent_type in visited:
                     parent_type = None
 
-- 
2.43.0


From f48a53c4c5e1d3f3fba4e59e011cfe5b45f5ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 34/35] fix: an interrupted attachment left the problem with a
 domain that was not checked

---
 pddl/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 7c1f9cd..3ac49b9 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -327,7 +327,7 @@ class Problem:
         self._domain, self._domain_name = domain, domain.name
         try:
             self._check_consistency()
-        except Exception:
+        except BaseException:
             # leave the problem as it was
             self._domain, self._domain_name = previous
             raise
-- 
2.43.0


From 3de3832204adae51eb778d655fa8b08befd7ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:12 +0000
Subject: [PATCH 35/35] fix: the order of derived predicates disagreed with
 their equality (1 and 1.0)

---
 pddl/logic/predicates.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index ebde6c0..5eee6ea 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -13,7 +13,9 @@
 """This class implements PDDL predicates."""
 
 import functools
-from typing import Dict, Mapping, Sequence, Set, Tuple
+import re
+from decimal import Decimal
+from typing import Dict, List, Mapping, Sequence, Set, Tuple
 
 from pddl.custom_types import name, namelike, parse_name
 from pddl.helpers.base import assert_, check
@@ -176,6 +178,18 @@ class EqualTo(Atomic):
         return f"{type(self).__name__}({repr(self.left)}, {repr(self.right)})"
 
 
+def _tokens(formula: Formula) -> List[Tuple[bool, Decimal, str]]:
+    """Get the tokens of the string of a formula; numbers go by their value, as 1 and 1.0 are equal."""
+    return [
+        (
+            (False, Decimal(token), "")
+            if re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", token)
+            else (True, Decimal(), token)
+        )
+        for token in re.findall(r"[()]|[^\s()]+", str(formula))
+    ]
+
+
 @cache_hash
 @functools.total_ordering
 class DerivedPredicate(Atomic):
@@ -232,8 +246,8 @@ class DerivedPredicate(Atomic):
         """Compare with another object."""
         if isinstance(other, DerivedPredicate):
             # there is no order among formulas, hence compare their string representations
-            return (self.predicate, str(self.condition)) < (
+            return (self.predicate, _tokens(self.condition)) < (
                 other.predicate,
-                str(other.condition),
+                _tokens(other.condition),
             )
         return super().__lt__(other)
-- 
2.43.0

