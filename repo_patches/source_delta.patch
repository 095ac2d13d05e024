From 38c14a60ce3ac9f4ad7f76abd2e7175410904d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 01/19] fix: implication semantics must not disjoin the
 antecedents themselves

For every operand but the last both its negation and its value were yielded,
so every implication evaluated to True (e.g. 'a -> b' under {a}).
---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From 83bc0c697ed4a46eafeb7b3f28da92442666601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 02/19] fix: do not rewrite an implication whose consequent is
 false into true

'a -> false' was simplified to 'a -> true': ex falso quodlibet only
applies to antecedents, not to the last operand.
---
 pylogics_modalities/syntax/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..996d6c3 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -536,7 +536,7 @@ class _MetaImpliesOp(_MetaOp):
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
         new_operands = []
-        for operand in operands:
+        for operand in operands[:-1]:
             if operand == false:
                 # ex falso sequitur quodlibet
                 new_operands.append(~false)
-- 
2.43.0


From d7187d5fc8fd52bff2acde37849a01c550cc299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 03/19] fix: formulae can be pickled and copied

__getstate__ is wrapped once per class of the hierarchy, and each layer
popped '__hash' from the state unconditionally: pickling or copying any
formula raised KeyError. Not.__new__ requires its argument, so it also
needs __getnewargs__.
---
 pylogics_modalities/helpers/cache_hash.py | 4 ++--
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..a643547 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -61,8 +61,8 @@ def _getstate(fn):
 
     @wraps(fn)
     def __getstate__(self):
-        d = fn(self)
-        d.pop("__hash")
+        d = dict(fn(self))
+        d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 996d6c3..7cca296 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -498,6 +498,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of '__new__' when copying or unpickling."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From 245ea59af736c58422cd5345751e1de408f6d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 04/19] fix: print the LDL test operator in the postfix form
 that the grammar accepts

---
 docs/parsing.md                        | 5 ++---
 pylogics_modalities/utils/to_string.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/docs/parsing.md b/docs/parsing.md
index 48664c4..adfa10a 100644
--- a/docs/parsing.md
+++ b/docs/parsing.md
@@ -172,14 +172,13 @@ ldl_formula: ldl_formula <-> ldl_formula   // equivalence
 
 regex      : regex + regex                 // union 
            | regex ; regex                 // sequence 
-           | ?regex                        // test 
+           | ldl_formula?                  // test 
            | regex*                        // star 
            | pl_formula                    // prop. formula (see above) 
 ```
 
 Note: the question mark in the test regular expression 
-is on the left, not on the right. This is done
-to avoid parse conflicts in the parser generation.
+is on the right, not on the left.
 
 Some examples:
 ```python
diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..cd94353 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -237,7 +237,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From ef330857b1789677e17ef07dabf13c2808f37bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 05/19] fix: print the PLTL operators Triggers and WeakBefore

---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index cd94353..f4ac7a0 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -186,6 +186,18 @@ def to_string_pltl_before(formula: Before) -> str:
     return f"Y({to_string(formula.argument)})"
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Since)
 def to_string_pltl_since(formula: Since) -> str:
     """Transform a 'since' formula into string."""
-- 
2.43.0


From 969a6fa4f6343b1fb076f5aa32a2f931e1fe1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 06/19] fix: accept a negated parenthesised propositional
 formula inside an LDL regular expression

---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..cfcc35f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..b7e6d73 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From 5b6eb4c9d035afc09000a7ea1a6077ef6d270410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 07/19] fix: words that merely start with a reserved word are
 symbols

---
 docs/grammars.md                      | 16 ++++++++--------
 pylogics_modalities/parsers/ltl.lark  |  8 ++++----
 pylogics_modalities/parsers/pl.lark   |  4 ++--
 pylogics_modalities/parsers/pltl.lark |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index cfcc35f..7773f74 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -35,8 +35,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
@@ -118,11 +118,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
@@ -190,8 +190,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index c118bd1..68bb6dd 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -49,11 +49,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index b7e6d73..8c6d771 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -24,8 +24,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index c804c66..8da840f 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -43,8 +43,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
-- 
2.43.0


From 037c99e2be474265397dad284b99d000dd75e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 08/19] fix: operator keywords may be followed by any
 whitespace

---
 docs/grammars.md                      | 28 +++++++++++++--------------
 pylogics_modalities/parsers/ltl.lark  | 16 +++++++--------
 pylogics_modalities/parsers/pltl.lark | 12 ++++++------
 3 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index 7773f74..efb394b 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -108,14 +108,14 @@ ltlf_ff: FF
 ltlf_last: LAST
 
 // Operators must not be part of a word
-UNTIL.2: /U(?=[ "\(])/
-RELEASE.2: /R(?=[ "\(])/
-ALWAYS.2: /G(?=[ "\(])/
-EVENTUALLY.2: /F(?=[ "\(])/
-NEXT.2: /X\[!\](?=[ "\(])/
-WEAK_NEXT.2: /X(?=[ "\(])/
-WEAK_UNTIL.2: /W(?=[ "\(])/
-STRONG_RELEASE.2: /M(?=[ "\(])/
+UNTIL.2: /U(?=[\s"\(])/
+RELEASE.2: /R(?=[\s"\(])/
+ALWAYS.2: /G(?=[\s"\(])/
+EVENTUALLY.2: /F(?=[\s"\(])/
+NEXT.2: /X\[!\](?=[\s"\(])/
+WEAK_NEXT.2: /X(?=[\s"\(])/
+WEAK_UNTIL.2: /W(?=[\s"\(])/
+STRONG_RELEASE.2: /M(?=[\s"\(])/
 
 
 END.2: /end(?!-*[a-zA-Z0-9_])/
@@ -184,12 +184,12 @@ pltlf_ff: FF
 pltlf_start: START
 
 // Operators must not be part of a word
-SINCE.2: /S(?=[ "\(])/
-TRIGGERS.2: /T(?=[ "\(])/
-HISTORICALLY.2: /H(?=[ "\(])/
-ONCE.2: /O(?=[ "\(])/
-BEFORE.2: /Y(?=[ "\(])/
-WEAKBEFORE.2: /Z(?=[ "\(])/
+SINCE.2: /S(?=[\s"\(])/
+TRIGGERS.2: /T(?=[\s"\(])/
+HISTORICALLY.2: /H(?=[\s"\(])/
+ONCE.2: /O(?=[\s"\(])/
+BEFORE.2: /Y(?=[\s"\(])/
+WEAKBEFORE.2: /Z(?=[\s"\(])/
 FIRST.2: /first(?!-*[a-zA-Z0-9_])/
 START.2: /start(?!-*[a-zA-Z0-9_])/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index 68bb6dd..6b3de5f 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -39,14 +39,14 @@ ltlf_ff: FF
 ltlf_last: LAST
 
 // Operators must not be part of a word
-UNTIL.2: /U(?=[ "\(])/
-RELEASE.2: /R(?=[ "\(])/
-ALWAYS.2: /G(?=[ "\(])/
-EVENTUALLY.2: /F(?=[ "\(])/
-NEXT.2: /X\[!\](?=[ "\(])/
-WEAK_NEXT.2: /X(?=[ "\(])/
-WEAK_UNTIL.2: /W(?=[ "\(])/
-STRONG_RELEASE.2: /M(?=[ "\(])/
+UNTIL.2: /U(?=[\s"\(])/
+RELEASE.2: /R(?=[\s"\(])/
+ALWAYS.2: /G(?=[\s"\(])/
+EVENTUALLY.2: /F(?=[\s"\(])/
+NEXT.2: /X\[!\](?=[\s"\(])/
+WEAK_NEXT.2: /X(?=[\s"\(])/
+WEAK_UNTIL.2: /W(?=[\s"\(])/
+STRONG_RELEASE.2: /M(?=[\s"\(])/
 
 
 END.2: /end(?!-*[a-zA-Z0-9_])/
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index 8da840f..fb25331 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -37,12 +37,12 @@ pltlf_ff: FF
 pltlf_start: START
 
 // Operators must not be part of a word
-SINCE.2: /S(?=[ "\(])/
-TRIGGERS.2: /T(?=[ "\(])/
-HISTORICALLY.2: /H(?=[ "\(])/
-ONCE.2: /O(?=[ "\(])/
-BEFORE.2: /Y(?=[ "\(])/
-WEAKBEFORE.2: /Z(?=[ "\(])/
+SINCE.2: /S(?=[\s"\(])/
+TRIGGERS.2: /T(?=[\s"\(])/
+HISTORICALLY.2: /H(?=[\s"\(])/
+ONCE.2: /O(?=[\s"\(])/
+BEFORE.2: /Y(?=[\s"\(])/
+WEAKBEFORE.2: /Z(?=[\s"\(])/
 FIRST.2: /first(?!-*[a-zA-Z0-9_])/
 START.2: /start(?!-*[a-zA-Z0-9_])/
 
-- 
2.43.0


From 5d951aa55f567845c5eb827cc285b40a693560f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 09/19] fix: check that the operands of a boolean connective
 belong to the same logic

---
 pylogics_modalities/syntax/base.py | 53 +++++++++++++++++-------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 7cca296..75dae74 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -138,6 +138,33 @@ class _MetaOp(_HashConsing):
                 f"found operand belonging to logic {logic}, which is forbidden"
             )
 
+    @staticmethod
+    def _check_operands_same_logic(*operands: "Formula"):
+        """
+        Check that the operands belong to the same logic.
+
+        TrueFormula and FalseFormula are not considered.
+
+        :param operands: the sequence of operands.
+        :return: None
+        :raises: PylogicsError: if the check fails.
+        """
+        filtered_operands = list(
+            filter(
+                lambda x: isinstance(x, Formula)
+                and not isinstance(x, (TrueFormula, FalseFormula)),
+                operands,
+            )
+        )
+        if len(filtered_operands) == 0:
+            return
+        logic = filtered_operands[0].logic
+        enforce(
+            all(sub_formula.logic == logic for sub_formula in filtered_operands),
+            "operands do not belong to the same logic",
+            PylogicsError,
+        )
+
 
 class _BinaryOp(Formula):
     """
@@ -374,7 +401,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic()
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -418,28 +445,6 @@ class _MonotoneBinaryOp(_MetaOp):
 
         return new_operands
 
-    @classmethod
-    def _check_operands_same_logic(mcs, *operands: Formula):
-        """
-        Check that the operands belong to the same logic.
-
-        TrueFormula and FalseFormula are not considered.
-
-        :param operands: the sequence of operands.
-        :return: None
-        :raises: PylogicsError: if the check fails.
-        """
-        filtered_operands = list(
-            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
-        )
-        if len(filtered_operands) == 0:
-            return
-        logic = filtered_operands[0]
-        enforce(
-            all(sub_formula.logic == logic for sub_formula in filtered_operands),
-            message="operands do not belong to the same logic",
-        )
-
 
 class _CommutativeBinaryOp(_BinaryOp):
     """Commutative binary operator."""
@@ -521,6 +526,7 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_operands(*args)
         if len(operands) == 0:
             raise ValueError("cannot accept zero arguments")
@@ -569,6 +575,7 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
         if len(operands) == 1:
-- 
2.43.0


From 147c70e69a36e1d1464c7a05de9c2bb6bd8ae788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 10/19] fix: enforce the formalisms that an operator declares
 for its operands

---
 pylogics_modalities/syntax/base.py | 41 +++++++++++++++++++-----------
 pylogics_modalities/syntax/ldl.py  |  3 ++-
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 75dae74..089e26c 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -118,25 +118,36 @@ class _MetaOp(_HashConsing):
 
     def __call__(cls, *operands, **kwargs):
         """Init the subclass object."""
-        cls._check_not_forbidden_formalism(*operands)
+        cls._check_not_forbidden_formalism(*operands, *kwargs.values())
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
     def _check_not_forbidden_formalism(cls, *operands):
-        """Check operands belong to same formalism."""
+        """
+        Check the formalism of each operand is accepted by the operator.
+
+        TrueFormula and FalseFormula are never considered forbidden.
+        """
         enforce(len(operands) >= 1, "expected at least one operand.")
-        logic = operands[0].logic
         allowed = getattr(cls, "ALLOWED_LOGICS", None)
         forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
-        if allowed is not None:
-            forbidden = []
-
-        is_logic_allowed = allowed is not None and logic in allowed
-        is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_allowed and not is_logic_forbidden:
-            raise ValueError(
-                f"error during instantiation of class {cls.__name__}: "
-                f"found operand belonging to logic {logic}, which is forbidden"
-            )
+
+        for operand in operands:
+            if not isinstance(operand, Formula):
+                continue
+            logic = operand.logic
+            if allowed is not None:
+                is_logic_accepted = logic in allowed
+            else:
+                is_logic_accepted = (
+                    forbidden is None
+                    or logic not in forbidden
+                    or isinstance(operand, (TrueFormula, FalseFormula))
+                )
+            if not is_logic_accepted:
+                raise ValueError(
+                    f"error during instantiation of class {cls.__name__}: "
+                    f"found operand belonging to logic {logic}, which is forbidden"
+                )
 
     @staticmethod
     def _check_operands_same_logic(*operands: "Formula"):
@@ -166,7 +177,7 @@ class _MetaOp(_HashConsing):
         )
 
 
-class _BinaryOp(Formula):
+class _BinaryOp(Formula, metaclass=_MetaOp):
     """
     Binary operator.
 
@@ -236,7 +247,7 @@ class _BinaryOp(Formula):
         )
 
 
-class _UnaryOp(Formula, ABC):
+class _UnaryOp(Formula, ABC, metaclass=_MetaOp):
     """
     Unary operator.
 
diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index fef870b..8138ea7 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -92,13 +92,14 @@ class Test(_UnaryOp, _RegularExpression):
     """Test of an LDL formula."""
 
     SYMBOL = "test"
-    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
+    ALLOWED_LOGICS: Set[Logic] = {Logic.LDL}
 
 
 class Star(_UnaryOp, _RegularExpression):
     """Kleene star of regular expressions."""
 
     SYMBOL = "star"
+    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
 
 
 class Prop(_UnaryOp, _RegularExpression):
-- 
2.43.0


From 1ac294613e4e3bd200df80bcaafa61cd10a71b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 11/19] fix: LTL 'last' must hold exactly at the last instant
 of a trace

---
 pylogics_modalities/syntax/ltl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/ltl.py b/pylogics_modalities/syntax/ltl.py
index 4c4172e..ae1b2e8 100644
--- a/pylogics_modalities/syntax/ltl.py
+++ b/pylogics_modalities/syntax/ltl.py
@@ -157,4 +157,4 @@ class StrongRelease(_LTLBinaryOp):
     SYMBOL = "strong_release"
 
 
-Last = partial(Always, FalseFormula(logic=Logic.LTL))
+Last = partial(WeakNext, FalseFormula(logic=Logic.LTL))
-- 
2.43.0


From bcc5c5cb2c86dff868bd383f8acabdaabc699f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 12/19] fix: safe_get returns the default for an out-of-range
 negative index

---
 pylogics_modalities/helpers/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/helpers/misc.py b/pylogics_modalities/helpers/misc.py
index f261cc3..6e4b81e 100644
--- a/pylogics_modalities/helpers/misc.py
+++ b/pylogics_modalities/helpers/misc.py
@@ -84,7 +84,7 @@ def safe_index(seq: Sequence, *args, **kwargs):
 
 def safe_get(seq: Sequence, index: int, default=None):
     """Get element at index, safe."""
-    return seq[index] if index < len(seq) else default
+    return seq[index] if -len(seq) <= index < len(seq) else default
 
 
 def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
-- 
2.43.0


From 8e665126bf9b5d4ec04b2b9b4108dfcd4b09b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 13/19] fix: FOL terms and predicates are compared structurally

---
 pylogics_modalities/syntax/fol.py | 36 +++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 9ba1ef0..fb11976 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -65,6 +65,14 @@ class Term(ABC):
         """Get an unambiguous string representation."""
         return f"{type(self).__name__}({str(self)})"
 
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name))
+
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return type(self) is type(other) and self.name == other.name
+
 
 class Variable(Term):
     def __init__(self, name: str):
@@ -76,6 +84,14 @@ class Constant(Term):
         self.name = name
         self.value = value
 
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return super().__hash__()
+
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return super().__eq__(other) and self.value == other.value
+
 
 class Function(Term):
 
@@ -83,6 +99,14 @@ class Function(Term):
         self.name = name
         self.operands = operands
 
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name, tuple(self.operands)))
+
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return super().__eq__(other) and tuple(self.operands) == tuple(other.operands)
+
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self.operands), f"expected {len(self.operands)} operands, got {len(operands)}.")
         enforce(all([isinstance(t, Term) for t in operands]), f"all operands must be terms")
@@ -145,6 +169,18 @@ class Predicate(_FOL):
         enforce(all([isinstance(t, Term) for t in operands]), f"all operands must be terms")
         return Predicate(self._name, operands)
 
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name, tuple(self.operands)))
+
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and tuple(self.operands) == tuple(other.operands)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"{self._name}({', '.join([str(o) for o in self._operands])})" if self.operands else f"{self._name}"
-- 
2.43.0


From 755b5812197a84b99c033b472a7f581ebcdb950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 14/19] fix: natural deduction rules compare formulae, not
 their string representations

---
 pylogics_modalities/deduction/fol/nd.py | 40 ++++++++++++-------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..6d9f657 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -139,15 +139,15 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and formula == args[0].operands[0]
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and formula == args[0].operands[1]
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
-        return str(formula) == str(args[0] & args[1])
+        return formula == args[0] & args[1]
 
     def _check_justification_assumption(self, formula, *args):
         """Check if the deduction is valid according to assumption rule"""
@@ -159,54 +159,54 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_copy(self, formula, *args):
         """Check if the deduction is valid according to copy rule"""
-        return str(formula) == str(args[0])
+        return formula == args[0]
 
     def _check_justification_dneg_e(self, formula, *args):
         """Check if the deduction is valid according to double negation-elimination rule"""
-        return str(~~formula) == str(args[0])
+        return ~~formula == args[0]
 
     def _check_justification_dneg_i(self, formula, *args):
         """Check if the deduction is valid according to double negation-introduction rule"""
-        return str(formula) == str(~~args[0])
+        return formula == ~~args[0]
 
     def _check_justification_impl_e(self, formula, *args):
         """Check if the deduction is valid according to implies-elimination rule"""
-        return str(args[0] >> formula) == str(args[1])
+        return args[0] >> formula == args[1]
 
     def _check_justification_impl_i(self, formula, *args):
         """Check if the deduction is valid according to implies-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return str(formula) == str(phi >> psi)
+        return formula == phi >> psi
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
-        return str(formula.argument >> args[1].argument) == str(args[0])
+        return ~formula >> ~args[1] == args[0]
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-        return str(~args[0]) == str(args[1]) and formula == FalseFormula()
+        return ~args[0] == args[1] and formula == FalseFormula()
 
     def _check_justification_neg_i(self, formula, *args):
         """Check if the deduction is valid according to negation-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return (psi == FalseFormula()) and (str(formula) == str(~phi))
+        return (psi == FalseFormula()) and (formula == ~phi)
 
     def _check_justification_or_e(self, formula, *args):
         """Check if the deduction is valid according to or-elimination rule"""
         phi_or_psi = args[0]
         phi, chi_1 = args[1][0][1], args[1][-1][1]
         psi, chi_2 = args[2][0][1], args[2][-1][1]
-        return (str(phi_or_psi) == str(phi | psi)) and (str(formula) == str(chi_1)) and (str(formula) == str(chi_2))
+        return (phi_or_psi == phi | psi) and (formula == chi_1) and (formula == chi_2)
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and formula.operands[0] == args[0]
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and formula.operands[1] == args[0]
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
@@ -237,7 +237,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
-        if formula is x:
+        if formula == x:
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
@@ -259,7 +259,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(a, Term):
             return False
         x, phi = formula.variable, formula.formula
-        return str(self._replace(phi, x, a)) == str(phi_x_a)
+        return self._replace(phi, x, a) == phi_x_a
 
     def _check_justification_forall_e(self, formula, *args):
         """Check if the deduction is valid according to forall-elimination rule"""
@@ -271,7 +271,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         a = a[0]
         phi_x_a = self._replace(phi, x, a)
-        return str(phi_x_a) == str(formula)
+        return phi_x_a == formula
 
     def _check_justification_exists_i(self, formula, *args):
         """Check if the deduction is valid according to exists-introduction rule"""
@@ -283,7 +283,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
-        return str(phi_x_a) == str(args[0])
+        return phi_x_a == args[0]
 
     def _check_justification_exists_e(self, formula, *args):
         """Check if the deduction is valid according to exists-elimination rule"""
@@ -291,12 +291,12 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
-        if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
+        if not phi_x_a == self._replace(phi.formula, phi.variable, a):
             return False
         chi = args[1][-1][1]
         if self._find_term(a, chi):
             return False
-        return str(formula) == str(chi)
+        return formula == chi
 
     @staticmethod
     def Proof(proof: list):
-- 
2.43.0


From 885cb9cc3a707e9533b5602e874c17473335e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 15/19] fix: natural deduction rejects references to missing
 rows and to rows of the wrong kind

---
 pylogics_modalities/deduction/fol/nd.py | 53 ++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 6d9f657..ee0935d 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -80,6 +80,29 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     rule = NaturalDeductionRule
 
+    # the rows that each rule refers to: either formulae or boxes
+    REFERENCES = {
+        rule.and_e1: ("formula",),
+        rule.and_e2: ("formula",),
+        rule.and_i: ("formula", "formula"),
+        rule.bot_e: ("formula",),
+        rule.copy: ("formula",),
+        rule.dneg_e: ("formula",),
+        rule.dneg_i: ("formula",),
+        rule.exists_e: ("formula", "box"),
+        rule.exists_i: ("formula",),
+        rule.forall_e: ("formula",),
+        rule.forall_i: ("box",),
+        rule.impl_e: ("formula", "formula"),
+        rule.impl_i: ("box",),
+        rule.MT: ("formula", "formula"),
+        rule.neg_e: ("formula", "formula"),
+        rule.neg_i: ("box",),
+        rule.or_e: ("formula", "box", "box"),
+        rule.or_i1: ("formula",),
+        rule.or_i2: ("formula",),
+    }
+
     def __init__(self):
         self.check_justification = {
             self.rule.and_e1: self._check_justification_and_e1,
@@ -120,9 +143,13 @@ class NaturalDeduction(AbstractDeductionSystem):
         for row, content, justiﬁcation in proof:
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
-                args = [sound[i] for i in justiﬁcation[1:] if i in sound]
                 if rule not in self.check_justification:
                     return False
+                if any(i not in sound for i in justiﬁcation[1:]):
+                    return False  # Reference to a row which is not available here
+                args = [sound[i] for i in justiﬁcation[1:]]
+                if not self._check_references(rule, args):
+                    return False
                 if self.check_justification[rule](content, *args) == False:
                     return False
             elif isinstance(content, list):
@@ -137,6 +164,20 @@ class NaturalDeduction(AbstractDeductionSystem):
             sound[row] = content
         return True
 
+    def _check_references(self, rule, args: list):
+        """Check if the rule is applied to the expected kinds of rows."""
+        expected = self.REFERENCES.get(rule, ())
+        if len(args) < len(expected):
+            return False
+        return all(self._is_box(arg) if kind == "box" else isinstance(arg, Formula)
+                   for kind, arg in zip(expected, args))
+
+    def _is_box(self, box):
+        """Check if a row is a box: an assumption, or a term, followed by its consequences."""
+        if not isinstance(box, list) or len(box) == 0:
+            return False
+        return isinstance(box[0][1], (Formula, Term)) and isinstance(box[-1][1], (Formula, Term))
+
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
         return isinstance(args[0], And) and formula == args[0].operands[0]
@@ -177,6 +218,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         """Check if the deduction is valid according to implies-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
+        if not (isinstance(phi, Formula) and isinstance(psi, Formula)):
+            return False
         return formula == phi >> psi
 
     def _check_justification_MT(self, formula, *args):
@@ -191,6 +234,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         """Check if the deduction is valid according to negation-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
+        if not (isinstance(phi, Formula) and isinstance(psi, Formula)):
+            return False
         return (psi == FalseFormula()) and (formula == ~phi)
 
     def _check_justification_or_e(self, formula, *args):
@@ -198,6 +243,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         phi_or_psi = args[0]
         phi, chi_1 = args[1][0][1], args[1][-1][1]
         psi, chi_2 = args[2][0][1], args[2][-1][1]
+        if not (isinstance(phi, Formula) and isinstance(psi, Formula)):
+            return False
         return (phi_or_psi == phi | psi) and (formula == chi_1) and (formula == chi_2)
 
     def _check_justification_or_i1(self, formula, *args):
@@ -290,7 +337,11 @@ class NaturalDeduction(AbstractDeductionSystem):
         phi = args[0]
         if not isinstance(phi, Exists):
             return False
+        if len(args[1]) < 2:
+            return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
+        if not isinstance(a, Term):
+            return False
         if not phi_x_a == self._replace(phi.formula, phi.variable, a):
             return False
         chi = args[1][-1][1]
-- 
2.43.0


From 1934ce8bc3bbc451cc7826b4f151ddee6644b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 16/19] fix: natural deduction accepts assumptions only where
 they open a box, and premises only outside boxes

---
 pylogics_modalities/deduction/fol/nd.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index ee0935d..1ecff15 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -132,7 +132,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         """Build a proof in the natural deduction expected format."""
         return NaturalDeductionProof(proof)
 
-    def check_proof(self, proof: NaturalDeductionProof, sound=None) -> bool:
+    def check_proof(self, proof: NaturalDeductionProof, sound=None, in_box=False) -> bool:
         """Check a given proof according to natural deduction rules."""
         # raise PylogicsError(
         #     f"proof '{proof}' cannot be processed by {self.check.__name__}"  # type: ignore
@@ -140,11 +140,15 @@ class NaturalDeduction(AbstractDeductionSystem):
 
         sound = sound if sound else {}
 
-        for row, content, justiﬁcation in proof:
+        for position, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
                 if rule not in self.check_justification:
                     return False
+                if rule == self.rule.premise and in_box:
+                    return False  # Premises do not belong to boxes
+                if rule == self.rule.assumption and not (in_box and self._opens_box(proof, position)):
+                    return False  # Assumptions only open boxes
                 if any(i not in sound for i in justiﬁcation[1:]):
                     return False  # Reference to a row which is not available here
                 args = [sound[i] for i in justiﬁcation[1:]]
@@ -155,7 +159,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             elif isinstance(content, list):
                 if isinstance(content[0][1], Term) and self._find_term(content[0][1], *sound.values()):
                     return False  # Term occurs outside its assumption
-                if self.check_proof(content, {i: sound[i] for i in sound}) == False:
+                if self.check_proof(content, {i: sound[i] for i in sound}, in_box=True) == False:
                     return False
             elif isinstance(content, Term):
                 continue
@@ -164,6 +168,10 @@ class NaturalDeduction(AbstractDeductionSystem):
             sound[row] = content
         return True
 
+    def _opens_box(self, proof, position: int):
+        """Check if a row is the first one of its box, possibly after the term of the box."""
+        return position == 0 or (position == 1 and isinstance(proof[0][1], Term))
+
     def _check_references(self, rule, args: list):
         """Check if the rule is applied to the expected kinds of rows."""
         expected = self.REFERENCES.get(rule, ())
-- 
2.43.0


From a0ab627e38765a15ee48a1c4eb0c404163cd906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 17/19] fix: natural deduction enforces the side conditions of
 the quantifier rules

---
 pylogics_modalities/deduction/fol/nd.py | 56 +++++++++++++++++++------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 1ecff15..48fe02b 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,7 +25,7 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
@@ -289,6 +289,8 @@ class NaturalDeduction(AbstractDeductionSystem):
             else:
                 for a, b in zip(x.operands, y.operands):
                     diffset = diffset | self._find_diff(a, b)
+        elif x != y:
+            diffset = diffset | {(x, y)}
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
@@ -296,25 +298,55 @@ class NaturalDeduction(AbstractDeductionSystem):
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
 
+    def _occurs_free(self, t: Term, formula: Formula):
+        """Check if a term occurs in a formula, out of the scope of the quantifiers that bind it."""
+        if formula == t:
+            return True
+        if isinstance(formula, (ForAll, Exists)):
+            return formula.variable != t and self._occurs_free(t, formula.formula)
+        if isinstance(formula, Not):
+            return self._occurs_free(t, formula.argument)
+        return any(self._occurs_free(t, o) for o in getattr(formula, 'operands', ()))
+
+    def _is_free_for(self, a: Term, x: Variable, formula: Formula):
+        """Check if no variable of a term is captured when the term replaces a variable in a formula."""
+        if isinstance(formula, (ForAll, Exists)):
+            if not self._occurs_free(x, formula):
+                return True
+            return not self._find_term(formula.variable, a) and self._is_free_for(a, x, formula.formula)
+        if isinstance(formula, Not):
+            return self._is_free_for(a, x, formula.argument)
+        return all(self._is_free_for(a, x, o) for o in getattr(formula, 'operands', ()))
+
+    def _is_instance(self, instance: Formula, formula: Formula, x: Variable, a: Term):
+        """Check if a formula is the result of replacing a variable with a term in another formula."""
+        return self._is_free_for(a, x, formula) and self._replace(formula, x, a) == instance
+
+    def _is_arbitrary(self, a: Term, quantified: Formula):
+        """Check if a term can stand for an arbitrary individual with respect to a quantified formula."""
+        return isinstance(a, (Variable, Constant)) and not self._occurs_free(a, quantified)
+
     def _check_justification_forall_i(self, formula, *args):
         """Check if the deduction is valid according to forall-introduction rule"""
         if not isinstance(formula, ForAll):
             return False
         a, phi_x_a = args[0][0][1], args[0][-1][1]
-        if not isinstance(a, Term):
+        if len(args[0]) < 2 or not self._is_arbitrary(a, formula):
             return False
+        if isinstance(args[0][1][1], Formula) and args[0][1][2][0] == self.rule.assumption:
+            return False  # The box must not depend on an assumption about the term
         x, phi = formula.variable, formula.formula
-        return self._replace(phi, x, a) == phi_x_a
+        return self._is_instance(phi_x_a, phi, x, a)
 
     def _check_justification_forall_e(self, formula, *args):
         """Check if the deduction is valid according to forall-elimination rule"""
@@ -322,11 +354,10 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         x, phi = args[0].variable, args[0].formula
         a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        if len(a) > 1:
             return False
-        a = a[0]
-        phi_x_a = self._replace(phi, x, a)
-        return phi_x_a == formula
+        a = a[0] if a else x
+        return self._is_instance(formula, phi, x, a)
 
     def _check_justification_exists_i(self, formula, *args):
         """Check if the deduction is valid according to exists-introduction rule"""
@@ -337,8 +368,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if len(a) > 1:
             return False
         a = a[0] if a else x
-        phi_x_a = self._replace(phi, x, a)
-        return phi_x_a == args[0]
+        return self._is_instance(args[0], phi, x, a)
 
     def _check_justification_exists_e(self, formula, *args):
         """Check if the deduction is valid according to exists-elimination rule"""
@@ -348,9 +378,9 @@ class NaturalDeduction(AbstractDeductionSystem):
         if len(args[1]) < 2:
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
-        if not isinstance(a, Term):
+        if not self._is_arbitrary(a, phi):
             return False
-        if not phi_x_a == self._replace(phi.formula, phi.variable, a):
+        if not self._is_instance(phi_x_a, phi.formula, phi.variable, a):
             return False
         chi = args[1][-1][1]
         if self._find_term(a, chi):
-- 
2.43.0


From 964919cb58749112ba44a0e24587fedb6933e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 18/19] fix: and, or, implies and equivalence check their
 operands before simplifying

---
 pylogics_modalities/syntax/base.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 089e26c..8d18e0b 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -149,6 +149,25 @@ class _MetaOp(_HashConsing):
                     f"found operand belonging to logic {logic}, which is forbidden"
                 )
 
+    def _check_operands(cls, *operands):
+        """
+        Check the operands before any simplification.
+
+        :param operands: the sequence of operands.
+        :return: None
+        :raises: ValueError: if some operand is not a formula, or is forbidden.
+        :raises: PylogicsError: if the operands belong to different logics.
+        """
+        if len(operands) == 0:
+            raise ValueError("cannot accept zero arguments")
+        enforce(
+            all(isinstance(operand, Formula) for operand in operands),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
+        cls._check_not_forbidden_formalism(*operands)
+        cls._check_operands_same_logic(*operands)
+
     @staticmethod
     def _check_operands_same_logic(*operands: "Formula"):
         """
@@ -412,7 +431,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic(*args)
+        cls._check_operands(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -537,7 +556,7 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
-        cls._check_operands_same_logic(*args)
+        cls._check_operands(*args)
         operands = cls._simplify_operands(*args)
         if len(operands) == 0:
             raise ValueError("cannot accept zero arguments")
@@ -586,7 +605,7 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
-        cls._check_operands_same_logic(*args)
+        cls._check_operands(*args)
         operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
         if len(operands) == 1:
-- 
2.43.0


From 057c98c6af50f27dadbf1f8196fd02f99eefd8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 19/19] fix: quantifiers refuse terms as their formula

---
 pylogics_modalities/syntax/fol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index fb11976..df7a2e3 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -126,7 +126,10 @@ class _Quantifier(_BinaryOp):
         :param formula:
         """
         enforce(isinstance(variable, Variable), f"{type(self).__name__}: expected {Variable}, got {type(variable)}")
-        enforce(formula.logic == Logic.FOL, "tail formula not valid")
+        enforce(
+            isinstance(formula, Formula) and formula.logic == Logic.FOL,
+            "tail formula not valid",
+        )
         self._variable = variable
         self._formula = formula
         self._operands = [variable, formula]
-- 
2.43.0

