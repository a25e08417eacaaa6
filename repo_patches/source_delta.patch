From 79a3832c75531dcb844ee10caa895527bf915150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 01/33] fix: walk the whole type hierarchy when checking
 derived predicate subtypes

The ancestor walk never advanced, so a derived predicate whose variable type
is a grandchild of (or unrelated to) the declared one made the parser loop
forever instead of accepting or rejecting the domain.
---
 pddl/parser/domain.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..525d13a 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -533,16 +533,20 @@ class DomainTransformer(Transformer[Any, Domain]):
         self, type_tags_left: AbstractSet[name], type_tags_right: AbstractSet[name]
     ):
         """Check that each type tag in the left set is a subtype of (one of) the type tags of the right."""
-        if len(type_tags_right) == 0:
+        if len(type_tags_right) == 0 or Symbols.OBJECT.value in type_tags_right:
             # 'object' type includes everything
             return
 
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
             parent_type: Optional[name] = left_type
+            visited: Set[name] = set()
             while parent_type is not None and parent_type not in type_tags_right:
-                parent_type = self.types_hierarchy.get(current_type, None)
+                # the hierarchy has not been validated yet: it might contain a cycle
+                visited.add(parent_type)
+                parent_type = self.types_hierarchy.get(parent_type, None)
+                if parent_type in visited:
+                    parent_type = None
 
             if parent_type is None:
                 raise PDDLParsingError(
-- 
2.43.0


From bd735fb213f05816d489f698df4b2092dd44137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 02/33] fix: accept the predefined type 'object' wherever a
 type is expected

'object' is the root of every PDDL type hierarchy and the grammar accepts it,
but terms tagged with it were rejected as having an undeclared type.
---
 pddl/_validation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..25bf95d 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -60,7 +60,10 @@ def _find_inconsistencies_in_typed_terms(
         return None
     for term in terms:
         for type_tag in sorted(term.type_tags):
-            if type_tag is not None and type_tag not in all_types:
+            if type_tag is None or type_tag == Symbols.OBJECT.value:
+                # the 'object' type is always available
+                continue
+            if type_tag not in all_types:
                 return term, type_tag
     return None
 
@@ -214,7 +217,9 @@ class TypeChecker:
         self, type_tags: Collection[name_type], what: str
     ) -> None:
         """Check that the types are available in the domain."""
-        if not self._types.all_types.issuperset(type_tags):
+        # the 'object' type is always available
+        declared_tags = set(type_tags) - {Symbols.OBJECT.value}
+        if not self._types.all_types.issuperset(declared_tags):
             raise PDDLValidationError(
                 f"types {sorted(type_tags)} of {what} are not in available types {self._types.all_types}"
             )
-- 
2.43.0


From 83e935c214350eefa6f2927c5053db3212ce61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 03/33] fix: accept a type hierarchy when :typing is implied by
 :adl

The parser and the term checker extend the requirements before looking for
:typing; the check of the types dictionary did not.
---
 pddl/_validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 25bf95d..516c45f 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -161,7 +161,10 @@ class Types:
 
         # check typing requirement
         supertypes = {t for t in type_dict.values() if t is not None}
-        if len(supertypes) > 0 and Requirements.TYPING not in requirements:
+        if (
+            len(supertypes) > 0
+            and Requirements.TYPING not in _extend_domain_requirements(requirements)
+        ):
             raise PDDLValidationError(
                 "typing requirement is not specified, but types are used: '"
                 + "', '".join(map(str, sorted(supertypes)))
-- 
2.43.0


From 353ae44d13029016723e7b68524ea3bf87852275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 04/33] fix: do not leak parser state between the calls of a
 parser object

---
 pddl/parser/base.py    | 11 ++++++++++-
 pddl/parser/domain.py  | 10 ++++++----
 pddl/parser/plan.py    |  8 ++------
 pddl/parser/problem.py | 13 +++++++++----
 4 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..bdda111 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -23,11 +23,18 @@ from pddl.parser import GRAMMAR_FILE, PARSERS_DIRECTORY
 T = TypeVar("T")
 
 
+class BaseTransformer(Transformer[Any, T]):
+    """Base class for the transformers of the PDDL parsers."""
+
+    def reset(self) -> None:
+        """Forget everything recorded while processing a text."""
+
+
 class BaseParser(Transformer[Any, T], ABC):
     """Base class for PDDL parsers."""
 
     start_symbol: str
-    transformer_cls: Type[Transformer[Any, T]]
+    transformer_cls: Type[BaseTransformer[T]]
 
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the parser with the given grammar file."""
@@ -43,6 +50,8 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
+        # do not let the state left by a previous (possibly failed) call leak into this one
+        self._transformer.reset()
         return self._call_parser(text, self._parser)
 
     @classmethod
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 525d13a..a852eff 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -14,7 +14,6 @@
 
 from typing import (
     AbstractSet,
-    Any,
     Dict,
     FrozenSet,
     List,
@@ -25,7 +24,7 @@ from typing import (
     Tuple,
 )
 
-from lark import ParseError, Transformer
+from lark import ParseError
 
 from pddl.action import Action
 from pddl.core import Domain
@@ -54,19 +53,22 @@ from pddl.logic.functions import (
 from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
 from pddl.logic.terms import Constant, Variable
 from pddl.parser._update_type_tags import update_type_tags
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 from pddl.parser.symbols import BINARY_COMP_SYMBOLS, Symbols
 from pddl.parser.typed_list_parser import TypedListParser
 from pddl.requirements import Requirements, _extend_domain_requirements
 
 
-class DomainTransformer(Transformer[Any, Domain]):
+class DomainTransformer(BaseTransformer[Domain]):
     """Domain Transformer."""
 
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the domain transformer."""
         super().__init__(*args, **kwargs)
+        self.reset()
 
+    def reset(self) -> None:
+        """Forget everything recorded while processing a text."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
diff --git a/pddl/parser/plan.py b/pddl/parser/plan.py
index 2da1d83..368e49b 100644
--- a/pddl/parser/plan.py
+++ b/pddl/parser/plan.py
@@ -12,16 +12,12 @@
 
 """Implementation of the PDDL plan parser."""
 
-from typing import Any
-
-from lark import Transformer
-
 from pddl.core import Plan
 from pddl.logic.terms import Constant
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 
 
-class PlanTransformer(Transformer[Any, Plan]):
+class PlanTransformer(BaseTransformer[Plan]):
     """Plan Transformer."""
 
     def __init__(self) -> None:
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..98a6285 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -12,9 +12,9 @@
 
 """Implementation of the PDDL problem parser."""
 
-from typing import Any, Dict
+from typing import Dict
 
-from lark import ParseError, Transformer
+from lark import ParseError
 
 from pddl.core import Problem
 from pddl.exceptions import PDDLParsingError
@@ -32,13 +32,13 @@ from pddl.logic.functions import (
 )
 from pddl.logic.predicates import EqualTo, Predicate
 from pddl.logic.terms import Constant
-from pddl.parser.base import BaseParser
+from pddl.parser.base import BaseParser, BaseTransformer
 from pddl.parser.domain import DomainTransformer
 from pddl.parser.symbols import Symbols
 from pddl.requirements import Requirements
 
 
-class ProblemTransformer(Transformer[Any, Problem]):
+class ProblemTransformer(BaseTransformer[Problem]):
     """Problem Transformer."""
 
     def __init__(self) -> None:
@@ -48,6 +48,11 @@ class ProblemTransformer(Transformer[Any, Problem]):
         self._domain_transformer = DomainTransformer()
         self._objects_by_name: Dict[str, Constant] = {}
 
+    def reset(self) -> None:
+        """Forget everything recorded while processing a text."""
+        self._domain_transformer.reset()
+        self._objects_by_name = {}
+
     def start(self, args):
         """Process the rule 'start'."""
         return args[0]
-- 
2.43.0


From 6c3a6e94aa788a4cae0b77c272c9455752ce04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:10 +0000
Subject: [PATCH 05/33] fix: leave sys.tracebacklimit alone when parsing

---
 pddl/parser/base.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index bdda111..07aaa93 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -12,7 +12,6 @@
 
 """Base classes for PDDL parsers."""
 
-import sys
 from abc import ABC
 from typing import Any, Type, TypeVar, cast
 
@@ -59,20 +58,16 @@ class BaseParser(Transformer[Any, T], ABC):
         """
         Parse a text with a Lark parser and transformer.
 
-        To produce a better traceback in case of an error, the function will temporarily overwrite the
-        sys.tracebacklimit value of the current interpreter.
+        To produce a better traceback in case of an error, the frames below this one are dropped from it. The
+        settings of the interpreter (e.g. sys.tracebacklimit) are not touched, as they are shared with the caller
+        and with the other threads.
 
         :param text: the text to parse
         :param parser: the Lark parser object
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
-        old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
-            sys.tracebacklimit = 0  # noqa
-            result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
-        finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
-        return result
+            return cast(T, parser.parse(text))
+        except Exception as e:
+            raise e.with_traceback(None)
-- 
2.43.0


From 918f96bba9c9eccc34880459fa12dc930cd29b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 06/33] fix: print '(either ...)' wherever a term has several
 types

---
 pddl/formatter.py    |  3 ++-
 pddl/helpers/base.py |  9 ++++++++-
 pddl/logic/base.py   | 10 ++--------
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..b60ac1c 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,6 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
+from pddl.helpers.base import _print_type_tags
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -114,7 +115,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
         result += f"({function.name}"
         for t in function.terms:
             result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
+                f" ?{t.name} - {_print_type_tags(t.type_tags)}"
                 if t.type_tags
                 else f" ?{t.name}"
             )
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..b5bf998 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -124,6 +124,13 @@ def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
     return next((i for i, x in enumerate(seq) if condition(x)), -1)
 
 
+def _print_type_tags(type_tags: Collection[str]) -> str:
+    """Print the type tags of a term, as they appear after the type separator."""
+    if len(type_tags) == 1:
+        return str(next(iter(type_tags)))
+    return f"(either {' '.join(sorted(map(str, type_tags)))})"
+
+
 def _typed_parameters(parameters) -> str:
     """Return a list of parameters along with types if available."""
     result = ""
@@ -131,7 +138,7 @@ def _typed_parameters(parameters) -> str:
         if i > 0:
             result += " "
         if p.type_tags:
-            result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
+            result += f"?{p.name} - {_print_type_tags(p.type_tags)}"
         else:
             result += str(p)
     return result.strip()
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..241dce9 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -216,13 +216,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
+        var_block = _typed_parameters(self.variables)
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
-- 
2.43.0


From 6204633a1022604aa15f352775e080b743b99851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 07/33] fix: print typed lists of variables so that they can be
 read back, in a fixed order

---
 pddl/formatter.py     | 30 +++++++++---------------------
 pddl/helpers/base.py  | 16 +++++++++++++++-
 pddl/logic/base.py    |  4 ++--
 pddl/logic/effects.py |  4 ++--
 4 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index b60ac1c..fe10267 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,9 +15,9 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
-from pddl.helpers.base import _print_type_tags
+from pddl.helpers.base import _typed_parameters
 from pddl.logic.functions import NumericFunction
-from pddl.logic.terms import Constant
+from pddl.logic.terms import Constant, Term, Variable
 
 T = TypeVar("T", name, NumericFunction)
 
@@ -84,6 +84,11 @@ def print_constants(
     return print_typed_lists(prefix, term_by_type_tags, postfix, to_string)
 
 
+def _print_terms(terms: Collection[Term]) -> str:
+    """Print the terms of the declaration of a predicate or a function with their types."""
+    return _typed_parameters([Variable(t.name, t.type_tags) for t in terms])
+
+
 def print_predicates_with_types(predicates: Collection):
     """Generate a string with predicates with type tags for the :predicates section."""
     result = ""
@@ -91,17 +96,7 @@ def print_predicates_with_types(predicates: Collection):
         if p.arity == 0:
             result += f"({p.name})"
         else:
-            result += f"({p.name}"
-            for t in p.terms:
-                if len(t.type_tags) > 1:
-                    result += f" ?{t.name} - (either {' '.join(sorted(t.type_tags))})"
-                else:
-                    result += (
-                        f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                        if t.type_tags
-                        else f" ?{t.name}"
-                    )
-            result += ") "
+            result += f"({p.name} {_print_terms(p.terms)}) "
         result += " "
     return result.strip()
 
@@ -112,14 +107,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
     if function.arity == 0:
         result += f"({function.name})"
     else:
-        result += f"({function.name}"
-        for t in function.terms:
-            result += (
-                f" ?{t.name} - {_print_type_tags(t.type_tags)}"
-                if t.type_tags
-                else f" ?{t.name}"
-            )
-        result += ")"
+        result += f"({function.name} {_print_terms(function.terms)})"
     return result
 
 
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index b5bf998..c0e7c26 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -132,18 +132,32 @@ def _print_type_tags(type_tags: Collection[str]) -> str:
 
 
 def _typed_parameters(parameters) -> str:
-    """Return a list of parameters along with types if available."""
+    """
+    Return a list of parameters along with types if available.
+
+    The order of the parameters is preserved. In a typed list, a type applies to all the names that precede it:
+    hence, a parameter without types that precedes a typed one is printed with the predefined type 'object'.
+    """
+    last_typed = find(list(reversed(parameters)), lambda p: bool(p.type_tags))
+    nb_before_typed = len(parameters) - last_typed if last_typed >= 0 else 0
     result = ""
     for i, p in enumerate(parameters):
         if i > 0:
             result += " "
         if p.type_tags:
             result += f"?{p.name} - {_print_type_tags(p.type_tags)}"
+        elif i < nb_before_typed:
+            result += f"{p} - object"
         else:
             result += str(p)
     return result.strip()
 
 
+def _typed_variables(variables: Collection) -> str:
+    """Return a set of variables along with types, in a canonical order: the ones without types come last."""
+    return _typed_parameters(sorted(variables, key=lambda v: (not v.type_tags, v)))
+
+
 class RegexConstrainedString(str):
     """
     A string that is constrained by a regex.
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 241dce9..c629d9d 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -216,7 +216,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        var_block = _typed_parameters(self.variables)
+        var_block = _typed_variables(self.variables)
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 8fe9929..fae672d 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -15,7 +15,7 @@
 import functools
 from typing import AbstractSet, Collection, Optional, Union
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
@@ -98,7 +98,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_typed_variables(self.variables)}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From bbe64e1dbabcc6625df6f3546670285140e0bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 08/33] fix: print numeric values without scientific notation

---
 pddl/logic/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..9bd7a4c 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,6 +146,9 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
+        if isinstance(self._value, float) and "e" in str(self._value):
+            # PDDL numbers have no scientific notation
+            return format(Decimal(str(self._value)), "f")
         return str(self._value)
 
 
-- 
2.43.0


From d33c7964db78e75b8b17b3e112e906755541d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 09/33] fix: reject numbers with more than one decimal point in
 the grammar

---
 pddl/parser/grammar.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 8c12e03..a8c1fce 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -213,7 +213,7 @@ DECREASE: "decrease"
 MAXIMIZE: "maximize"
 MINIMIZE: "minimize"
 TOTAL_COST: "total-cost"
-NUMBER: /[0-9]+(\.[0-9]+)*/
+NUMBER: /[0-9]+(\.[0-9]+)?/
 
 // available requirements
 STRIPS: ":strips"
-- 
2.43.0


From e2febeb873212d037836c99dfc578bc2ebfd8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 10/33] fix: read the numbers of a metric as numbers

---
 pddl/parser/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index 98a6285..ecc2959 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -193,7 +193,7 @@ class ProblemTransformer(BaseTransformer[Problem]):
         """Process the 'metric_f_exp' rule."""
         if len(args) == 1:
             if not isinstance(args[0], NumericFunction):
-                return NumericValue(args[0])
+                return NumericValue(self.num_literal(args))
             return args[0]
         op = None
         if args[1] == Symbols.MINUS.value:
-- 
2.43.0


From 86fe7d3d655e3fae1eb066f95e5a6831b583f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 11/33] fix: accept disjunctive, quantified and equality goals
 in problems

---
 pddl/parser/problem.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index ecc2959..99261b3 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -48,9 +48,13 @@ class ProblemTransformer(BaseTransformer[Problem]):
         self._domain_transformer = DomainTransformer()
         self._objects_by_name: Dict[str, Constant] = {}
 
+        self.reset()
+
     def reset(self) -> None:
         """Forget everything recorded while processing a text."""
         self._domain_transformer.reset()
+        # the goal may use the features required by the domain, which is not known at this stage
+        self._domain_transformer._extended_requirements = set(Requirements)
         self._objects_by_name = {}
 
     def start(self, args):
@@ -97,10 +101,13 @@ class ProblemTransformer(BaseTransformer[Problem]):
         """
         return self._domain_transformer.typed_list_name(args)
 
-    def domain__type_def(self, names):
-        """Process a domain type def."""
-        assert_(len(names) == 1)
-        return str(names[0])
+    def typed_list_variable(self, args):
+        """Process the 'typed_list_variable' rule."""
+        return self._domain_transformer.typed_list_variable(args)
+
+    def type_def(self, args):
+        """Process the 'type_def' rule."""
+        return self._domain_transformer.type_def(args)
 
     def init(self, args):
         """Process the 'init' rule."""
-- 
2.43.0


From 32df551d4f8659db16e5b0eca10851502258add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 12/33] fix: accept actions without precondition or effect

---
 pddl/_validation.py   | 6 ++++--
 pddl/parser/domain.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 516c45f..984bff5 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -313,8 +313,10 @@ class TypeChecker:
     def _(self, action: Action) -> None:
         """Check types annotations of a PDDL term."""
         self.check_type(action.parameters)
-        self.check_type(action.precondition)
-        self.check_type(action.effect)
+        if action.precondition is not None:
+            self.check_type(action.precondition)
+        if action.effect is not None:
+            self.check_type(action.effect)
 
 
 class Functions:
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index a852eff..616a198 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -161,8 +161,11 @@ class DomainTransformer(BaseTransformer[Domain]):
 
         # process action body
         _children = args[5].children
+        # (the children of an omitted optional part are None)
         action_body = {
-            _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
+            _children[i][1:]: _children[i + 1]
+            for i in range(0, len(_children), 2)
+            if _children[i] is not None
         }
         return Action(action_name, variables, **action_body)
 
-- 
2.43.0


From 3540f93c077e62fab6cb6f45ce2ee490e6feccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:00 +0000
Subject: [PATCH 13/33] fix: read '()' as the empty conjunction

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 616a198..88a2b51 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -234,7 +234,7 @@ class DomainTransformer(BaseTransformer[Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -339,7 +339,7 @@ class DomainTransformer(BaseTransformer[Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From 581593456dfa575ae631b7c5910f24742ea3e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 14/33] fix: accept the binary minus in expressions

---
 pddl/parser/grammar.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index a8c1fce..07e2f46 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -68,7 +68,6 @@ constant: NAME
             | LESSER_EQUAL_OP
 
 ?binary_op: multi_op
-          | MINUS
           | DIVIDE
 
 ?multi_op: TIMES
@@ -80,6 +79,7 @@ f_exp:      num_literal
       |     LPAR binary_op f_exp f_exp RPAR
       |     LPAR multi_op f_exp f_exp+ RPAR
       |     LPAR MINUS f_exp RPAR
+      |     LPAR MINUS f_exp f_exp RPAR
       |     f_head
 
 f_head:     NAME
@@ -133,6 +133,7 @@ metric_spec: LPAR METRIC optimization metric_f_exp RPAR
 metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp RPAR
+            | LPAR MINUS metric_f_exp metric_f_exp RPAR
             | basic_function_term
             | NUMBER
 
-- 
2.43.0


From d281b881909cd71f342b68408a56c8d03b35993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:02 +0000
Subject: [PATCH 15/33] fix: keep the operands of numeric expressions as they
 are

---
 pddl/logic/functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 9bd7a4c..f53a31c 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -21,7 +21,7 @@ from typing import Sequence, cast
 from pddl.custom_types import namelike, parse_function
 from pddl.helpers.base import assert_
 from pddl.helpers.cache_hash import cache_hash
-from pddl.logic.base import Atomic, BinaryOpMetaclass, Formula
+from pddl.logic.base import Atomic, Formula
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
 
@@ -253,7 +253,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -353,7 +353,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -367,7 +367,7 @@ class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Plus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Plus(BinaryFunction):
     """Plus operator."""
 
     SYMBOL = Symbols.PLUS
@@ -381,7 +381,7 @@ class Plus(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Times(BinaryFunction):
     """Times operator."""
 
     SYMBOL = Symbols.TIMES
@@ -395,7 +395,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From 5eefbf7198ac014985220d612e034a5e95385248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 16/33] fix: do not let the parameters of an action leak into
 derived predicates

---
 pddl/parser/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 88a2b51..d2e2011 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -167,6 +167,8 @@ class DomainTransformer(BaseTransformer[Domain]):
             for i in range(0, len(_children), 2)
             if _children[i] is not None
         }
+        # the parameters are visible only in the body of their action
+        self._current_parameters_by_name = {}
         return Action(action_name, variables, **action_body)
 
     def derived_predicates(self, args):
-- 
2.43.0


From 798321365fa1f0193764411e5ec879de7b48c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:31 +0000
Subject: [PATCH 17/33] fix: give the occurrences of quantified variables the
 types of their quantifier

---
 pddl/parser/_update_type_tags.py | 275 +++++++++++++++++--------------
 pddl/parser/domain.py            |  10 +-
 2 files changed, 156 insertions(+), 129 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index ea422f5..40cf2ed 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,127 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when(
+    effect: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(effect.condition, var_to_types)
+    new_effect = _update_type_tags(effect.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_forall(
+    effect: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in effect.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(effect.effect, new_var_to_types)
+    return Forall(new_effect, list(effect.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index d2e2011..7b16120 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -294,7 +294,7 @@ class DomainTransformer(BaseTransformer[Domain]):
         ):
             raise PDDLMissingRequirementError(req)
         variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-        condition = args[5]
+        condition = update_type_tags(args[5], self._tags_by_name(variables))
         return cond_class(cond=condition, variables=variables)
 
     def gd_comparison(self, args):
@@ -359,7 +359,8 @@ class DomainTransformer(BaseTransformer[Domain]):
             return args[0]
         if args[1] == Symbols.FORALL.value:
             variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-            return Forall(effect=args[-2], variables=variables)
+            effect = update_type_tags(args[-2], self._tags_by_name(variables))
+            return Forall(effect=effect, variables=variables)
         if args[1] == Symbols.WHEN.value:
             return When(args[2], args[3])
         if args[1] == Symbols.ONEOF.value:
@@ -398,6 +399,11 @@ class DomainTransformer(BaseTransformer[Domain]):
         else:
             raise PDDLParsingError(f"Unrecognized assign operator: {args[1]}")
 
+    @staticmethod
+    def _tags_by_name(variables: Sequence[Variable]) -> Dict[str, FrozenSet[str]]:
+        """Get the type tags that the occurrences of the quantified variables have in their scope."""
+        return {variable.name: frozenset(variable.type_tags) for variable in variables}
+
     def _constant_or_variable(self, t):
         """Get the constant or variable with the given name."""
         # Case where the term is a free variable (bug) or comes from a parent quantifier
-- 
2.43.0


From b609fc133f607f76bb6ad4251049c091742f61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:25 +0000
Subject: [PATCH 18/33] fix: do not instantiate the variables bound by a
 quantifier

---
 pddl/logic/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index c629d9d..e9ce342 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -212,7 +212,10 @@ class QuantifiedCondition(Formula):
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Formula":
         """Instantiate the formula with a mapping from variables to terms."""
-        return type(self)(self.condition.instantiate(mapping), self.variables)
+        return type(self)(
+            self.condition.instantiate(_without_bound(mapping, self.variables)),
+            self.variables,
+        )
 
     def __str__(self) -> str:
         """Get the string representation."""
@@ -254,6 +257,14 @@ class ExistsCondition(QuantifiedCondition):
     SYMBOL = Symbols.EXISTS.value
 
 
+def _without_bound(
+    mapping: Mapping[Variable, Term], bound: Collection[Variable]
+) -> Mapping[Variable, Term]:
+    """Drop from a mapping the variables bound by a quantifier: in its scope, they are other variables."""
+    bound_names = {variable.name for variable in bound}
+    return {var: term for var, term in mapping.items() if var.name not in bound_names}
+
+
 def ensure_formula(f: Optional[Formula], is_none_true: bool) -> Formula:
     """
     Ensure the argument is a formula.
-- 
2.43.0


From d5745d0c52d6538844aa756229e9f50d8c9a7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:56 +0000
Subject: [PATCH 19/33] fix: instantiate conditional and universal effects

---
 pddl/logic/effects.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index fae672d..b2eb56d 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -13,12 +13,13 @@
 """This modules implements PDDL effects."""
 
 import functools
-from typing import AbstractSet, Collection, Optional, Union
+from typing import AbstractSet, Collection, Mapping, Optional, Union
 
 from pddl.helpers.base import _typed_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
-from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.base import And, Atomic, Formula, Not, OneOf, _without_bound
+from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
 
@@ -47,6 +48,12 @@ class When:
         """Get the effect."""
         return self._effect
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "When":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return When(
+            self.condition.instantiate(mapping), self.effect.instantiate(mapping)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.WHEN.value} {self._condition} {self.effect})"
@@ -96,6 +103,13 @@ class Forall:
         """Get the variables."""
         return self._variables
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return Forall(
+            self.effect.instantiate(_without_bound(mapping, self.variables)),
+            self.variables,
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.FORALL.value} ({_typed_variables(self.variables)}) {self.effect})"
-- 
2.43.0


From d45f307bd0321f74eda01d6b82cbda7c264f33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 20/33] fix: do not confuse constants and variables when
 checking the types of terms

---
 pddl/logic/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index bdc562e..0ac2fd8 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -27,10 +27,14 @@ def _check_terms_consistency(terms: Sequence[Term]):
     """
     Check that the term sequence have consistent type tags.
 
-    In particular, terms with the same name must have the same type tags.
+    In particular, variables with the same name must have the same type tags.
     """
     seen: Dict[name, Set[name]] = {}
     for term in terms:
+        if not isinstance(term, Variable):
+            # a constant is identified by its name, whatever its type; and it is unrelated to
+            # the variable with that name, if any
+            continue
         if term.name not in seen:
             seen[term.name] = set(term.type_tags)
         else:
-- 
2.43.0


From 869f0061b89e886a02266c7cabb504f631931edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 21/33] fix: check the types of functions and of derived
 predicate conditions

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..87fb7ef 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -91,9 +91,11 @@ class Domain:
         type_checker = TypeChecker(self._types, self.requirements)
         type_checker.check_type(self._constants)
         type_checker.check_type(self._predicates)
+        type_checker.check_type(self.functions)
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
+        type_checker.check_type(self._derived_predicates)
 
     def _check_types_in_derived_predicates(self) -> None:
         """Check types in derived predicates."""
-- 
2.43.0


From e7f473b7c83ccfcef999fa965da675e93fe202f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 22/33] fix: print a flat list of types without supertypes,
 which require :typing

---
 pddl/formatter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index fe10267..1f6a5b7 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -137,14 +137,17 @@ def print_typed_lists(
         no_parents.discard(None)
         no_parents.discard("object")
 
+        # the rest of the parent types
+        remaining = sorted(str(k) for k in super_to_subs if k not in ("object", None))
+
+        # a flat list of types has no supertypes (they would require :typing)
         result += (
             "\n    "
             + " ".join(sorted(to_string(n) for n in no_parents))
-            + " - object\n"
+            + (" - object\n" if remaining else "\n")
         )
 
-        # sort the rest of the parent types based on (1) if their subtypes are already defined and (2) their name
-        remaining = sorted(str(k) for k in super_to_subs if k not in ("object", None))
+        # print the rest of the parent types based on (1) if their subtypes are already defined and (2) their name
         ind = 0
         while remaining:
             # if the index is out of range, we have a cycle in the types
-- 
2.43.0


From cded2a20a254b591a0e8cf4c79025fcc1e6b1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 23/33] fix: make the order of requirements, terms and formulas
 strict and consistent with the equality

---
 pddl/logic/base.py       | 5 ++++-
 pddl/logic/effects.py    | 5 ++++-
 pddl/logic/predicates.py | 2 +-
 pddl/logic/terms.py      | 7 +++++++
 pddl/requirements.py     | 2 +-
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index e9ce342..917b2d7 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -241,7 +241,10 @@ class QuantifiedCondition(Formula):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, QuantifiedCondition):
-            return (self.variables, self.condition) < (other.variables, other.condition)
+            return (sorted(self.variables), self.condition) < (
+                sorted(other.variables),
+                other.condition,
+            )
         return super().__lt__(other)
 
 
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index b2eb56d..360cec5 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -133,7 +133,10 @@ class Forall:
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Forall):
-            return (self.variables, self.effect) < (other.variables, other.effect)
+            return (sorted(self.variables), self.effect) < (
+                sorted(other.variables),
+                other.effect,
+            )
         return super().__lt__(other)
 
 
diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index 0ac2fd8..0ced430 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -229,7 +229,7 @@ class DerivedPredicate(Atomic):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, DerivedPredicate):
-            return (self.predicate, self._predicate) < (
+            return (self.predicate, self.condition) < (
                 other.predicate,
                 other.condition,
             )
diff --git a/pddl/logic/terms.py b/pddl/logic/terms.py
index f5397d7..40de793 100644
--- a/pddl/logic/terms.py
+++ b/pddl/logic/terms.py
@@ -105,6 +105,13 @@ class Constant(Term):
         """Compare with another object."""
         return isinstance(other, Constant) and self.name == other.name
 
+    def __lt__(self, other):
+        """Compare with another term."""
+        if isinstance(other, Constant):
+            # the type tag is ignored, as in the equality
+            return self.name < other.name
+        return super().__lt__(other)
+
     def __hash__(self):
         """Get the hash."""
         return hash((Constant, self._name))
diff --git a/pddl/requirements.py b/pddl/requirements.py
index f6fc2f8..a4df5b0 100644
--- a/pddl/requirements.py
+++ b/pddl/requirements.py
@@ -79,7 +79,7 @@ class Requirements(Enum):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Requirements):
-            return self.value <= other.value
+            return self.value < other.value
         else:
             return super().__lt__(other)
 
-- 
2.43.0


From d0fb06bdc2fb3a4f52cb7f5a2843a28481822c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 24/33] fix: leave the problem unchanged when the domain to set
 does not fit

---
 pddl/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 87fb7ef..1163198 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -321,9 +321,15 @@ class Problem:
     @domain.setter
     def domain(self, domain: Domain) -> None:
         """Set the domain."""
+        previous = self._domain_name, self._domain
         self._domain_name = domain.name
         self._domain = domain
-        self._check_consistency()
+        try:
+            self._check_consistency()
+        except Exception:
+            # do not keep a domain that does not fit the problem
+            self._domain_name, self._domain = previous
+            raise
 
     @property
     def domain_name(self) -> name_type:
-- 
2.43.0


From c4c58be4b3cb9ce260e17a7cfc7bff0ba1ebc490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 25/33] fix: report a function declared twice as a parsing
 error

---
 pddl/parser/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 7b16120..33d84f4 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -518,7 +518,7 @@ class DomainTransformer(BaseTransformer[Domain]):
 
     def _raise_typed_list_parsing_error(self, args, exception) -> PDDLParsingError:
         string_list = [
-            str(arg) if isinstance(arg, str) else list(map(str, arg)) for arg in args
+            list(map(str, arg)) if isinstance(arg, list) else str(arg) for arg in args
         ]
         return PDDLParsingError(
             f"error while parsing tokens {string_list}: {str(exception)}"
-- 
2.43.0


From 74d064d0d810c80cfd0f6262ef53073d2b62e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 26/33] fix: do not touch the instance when its state is taken
 for pickling or copying

---
 pddl/helpers/cache_hash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/helpers/cache_hash.py b/pddl/helpers/cache_hash.py
index d62c9d3..d809be9 100644
--- a/pddl/helpers/cache_hash.py
+++ b/pddl/helpers/cache_hash.py
@@ -56,7 +56,8 @@ def _getstate(fn):
         d = fn(self)
         if d is None:
             return None
-        # assuming d is a dictionary
+        # assuming d is a dictionary; it may be the one of the instance itself, which must not be touched
+        d = dict(d)
         d.pop("__hash", None)
         return d
 
-- 
2.43.0


From 3edce8cf4c3e0812e2d8e64945652ed6e12d7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 27/33] fix: report mismatching types of a derived predicate
 also without a types section

---
 pddl/parser/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 33d84f4..e0bb39b 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -550,6 +550,9 @@ class DomainTransformer(BaseTransformer[Domain]):
             # 'object' type includes everything
             return
 
+        # without a types section, there is no hierarchy
+        types_hierarchy = self.types_hierarchy if self._types is not None else {}
+
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
             parent_type: Optional[name] = left_type
@@ -557,7 +560,7 @@ class DomainTransformer(BaseTransformer[Domain]):
             while parent_type is not None and parent_type not in type_tags_right:
                 # the hierarchy has not been validated yet: it might contain a cycle
                 visited.add(parent_type)
-                parent_type = self.types_hierarchy.get(parent_type, None)
+                parent_type = types_hierarchy.get(parent_type, None)
                 if parent_type in visited:
                     parent_type = None
 
-- 
2.43.0


From 7b312488ecd696dc55bf1c1ff6b85498889e2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 28/33] fix: do not share the functions and the steps given by
 the caller

A domain kept the very dictionary of functions it was given, and a plan the very list of steps: changing
them later changed the domain, behind the back of its checks, or the plan. Everything else is copied.
---
 pddl/_validation.py | 2 +-
 pddl/core.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 984bff5..4350c04 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -329,7 +329,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
diff --git a/pddl/core.py b/pddl/core.py
index 1163198..b022db1 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -409,7 +409,7 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = actions
+        self._actions: List[Tuple[namelike, List["Constant"]]] = list(actions)
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From 43a16822fb454066b538b3b0b30ca0328728c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:59 +0000
Subject: [PATCH 29/33] fix: order quantified conditions of different kinds

With the same variables and condition, an existential and a universal condition were both greater than each
other, so that sorting them depended on the order they came in.
---
 pddl/logic/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 917b2d7..e59431a 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -241,7 +241,8 @@ class QuantifiedCondition(Formula):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, QuantifiedCondition):
-            return (sorted(self.variables), self.condition) < (
+            return (self.SYMBOL, sorted(self.variables), self.condition) < (
+                other.SYMBOL,
                 sorted(other.variables),
                 other.condition,
             )
-- 
2.43.0


From 857bbe39f87fa86c459b1d566e1b30e5b51ca1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:33 +0000
Subject: [PATCH 30/33] fix: a plan keeps its own lists of the arguments of its
 steps

---
 pddl/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index b022db1..38d289e 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -409,7 +409,9 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: List[Tuple[namelike, List["Constant"]]] = list(actions)
+        self._actions: List[Tuple[namelike, List["Constant"]]] = [
+            (action_name, list(parameters)) for action_name, parameters in actions
+        ]
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0


From e12d90ac1bce0010bee018686ce98b71ef02ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:15 +0000
Subject: [PATCH 31/33] fix: the names of the steps of a plan are checked like
 all other names

---
 pddl/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/core.py b/pddl/core.py
index 38d289e..9a9283e 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -410,7 +410,8 @@ class Plan:
         :param actions: the actions of the plan.
         """
         self._actions: List[Tuple[namelike, List["Constant"]]] = [
-            (action_name, list(parameters)) for action_name, parameters in actions
+            (parse_name(action_name), list(parameters))
+            for action_name, parameters in actions
         ]
 
     @property
-- 
2.43.0


From 0a82ab58b1960a1d938ecfdbac52cbf6177fd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:50 +0000
Subject: [PATCH 32/33] fix: the result types of the functions are checked like
 all other type names

---
 pddl/_validation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 4350c04..dda4fc2 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -19,7 +19,7 @@ from typing import AbstractSet, Collection, Dict, Optional, Set, Tuple, cast
 from pddl.action import Action
 from pddl.custom_types import _check_not_a_keyword  # noqa: F401
 from pddl.custom_types import name as name_type
-from pddl.custom_types import namelike, to_names, to_types  # noqa: F401
+from pddl.custom_types import namelike, parse_type, to_names, to_types  # noqa: F401
 from pddl.exceptions import PDDLValidationError
 from pddl.helpers.base import check, ensure, ensure_set, find_cycle
 from pddl.logic import Predicate
@@ -329,7 +329,10 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = dict(ensure(functions, dict()))
+        self._functions = {
+            function: parse_type(type_) if type_ is not None else None
+            for function, type_ in dict(ensure(functions, dict())).items()
+        }
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
-- 
2.43.0


From 14562f243ecf69c04a8ac4c024b609c337ca1156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:59 +0000
Subject: [PATCH 33/33] fix: report only the types of the cycle, not those that
 lead to it

---
 pddl/helpers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index c0e7c26..288fc27 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -203,7 +203,7 @@ def find_cycle(graph: Dict[str, Optional[AbstractSet[str]]]) -> Optional[Sequenc
             while stack:
                 current, path = stack.pop()
                 if current in path:
-                    return path
+                    return path[path.index(current) :]
 
                 visited.add(current)
                 neighbors = graph.get(current)
-- 
2.43.0

