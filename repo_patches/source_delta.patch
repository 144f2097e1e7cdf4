From 0351035b5680809fab415aa8a12b0854ad9dbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 01/71] fix: a sign applies to the following power only, not to
 the whole product

2^-1*3 was read as 2^(-(1*3)) and 8/-2*4 as 8/(-(2*4)).
---
 pynare/parsing/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..65a9011 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -66,7 +66,7 @@ class BaseParser(object):
         atom : ID
              | NUMBER
              | LPARE expr RPARE
-             | (NIMUS | PLUS) term
+             | (MINUS | PLUS) exponent
         """
         token = self.current_token
 
@@ -86,11 +86,11 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
-            #    the proper unary operation functionality
+            # sending 'expr' to exponent() instead of term() is what ensures
+            #    the sign binds tighter than products, but looser than powers
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -515,7 +515,7 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
-- 
2.43.0


From b528888d333d404f774b1fc1927c02d9038f177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 02/71] fix: do not drop all but the last of adjacent function
 calls

'exp(0) exp(1)' was silently read as 'exp(1)'.
---
 pynare/parsing/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 65a9011..04db622 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -104,7 +104,7 @@ class BaseParser(object):
         methods, because the atom() method doesn't recognize tokens of type
         FUNCTION. Instead we do the try ... except below
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -522,7 +522,7 @@ class DynareParser(BaseParser):
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
-- 
2.43.0


From afb9ebebe5e0bf3898105148ea3df209ab24ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 03/71] fix: reject text left over after a complete expression

'1+2)', '2(3)', '1 2', '1<2<3' and '1e3' were given the value of their
first part.
---
 pynare/core/expressions.py | 8 +++++++-
 pynare/parsing/parser.py   | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..fc2fba1 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -113,7 +113,13 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        node = self.model_expression()
+        if self.current_token.type == base.SEMI:
+            # the terminating semicolon of a .mod file is optional here
+            self.eat(base.SEMI)
+        if self.current_token.type != base.EOF:
+            self.error()
+        return node
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 04db622..6311282 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -203,7 +203,11 @@ class BaseParser(object):
         return node
 
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+        if self.current_token.type != base.EOF:
+            # the expression ended before the text did
+            self.error()
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
-- 
2.43.0


From 84cdf2e5fdbceddcda880d2faf93ba9b79b5a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 04/71] fix: empty text and unterminated strings are syntax
 errors

They raised IndexError and TypeError from inside the lexer.
---
 pynare/parsing/lexer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..4cb376f 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -33,7 +33,7 @@ class BaseLexer(object):
 
         self.line_pos = self.pos = 0
         self.current_line = 1 # I don't know any text editors that 0-index rows
-        self.current_char = self.text[self.pos]
+        self.current_char = self.text[self.pos] if self.text else None
 
 
     # basic lexer functionality
@@ -173,7 +173,9 @@ class BaseLexer(object):
         """
         result = ''
         self.advance()
-        while self.current_char is not quote:
+        while self.current_char != quote:
+            if self.current_char is None:
+                raise SyntaxError(f'unterminated string: {quote}{result}')
             result += self.current_char
             self.advance()
         self.advance()
-- 
2.43.0


From b67df646645ad40135aa31291bd9e04424cc03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 05/71] fix: end comments where they end

A % or // comment on the last line without a newline, and an unterminated
block comment, never returned; a block comment ended at its first '*' or
before any '/'; a one-line comment right after a block comment was not
skipped.
---
 pynare/parsing/lexer.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 4cb376f..0c987d7 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -235,11 +235,16 @@ class BaseLexer(object):
                 else:
                     self.error(self.current_char)
 
-            while self.is_singleline_comment():
-                self.skip_singleline_comment()
+            # comments of either kind can follow one another
+            while self.is_singleline_comment() or self.is_multiline_comment():
+                if self.is_singleline_comment():
+                    self.skip_singleline_comment()
+                else:
+                    self.skip_multiline_comment()
 
-            while self.is_multiline_comment():
-                self.skip_multiline_comment()
+            # nothing but comments and whitespace was left
+            if self.current_char is None:
+                break
 
             if self.valid_begchar(self.current_char):
                 return self._id()
@@ -424,7 +429,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
@@ -436,7 +441,9 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while not (self.current_char == '*' and self.peek() == '/'):
+            if self.current_char is None:
+                raise SyntaxError('unterminated comment: expected */')
             self.advance()
 
         # skipping the closing '*/'
-- 
2.43.0


From 71c051e064778d9e88072bcc22f4a8bd3c117f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 06/71] fix: an unexpected token before the model block is a
 syntax error

Parsing never returned, e.g. for a file without a model block.
---
 pynare/parsing/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 6311282..c857216 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -274,6 +274,10 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                # neither a declaration, an assignment nor the model block
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From 1d3e8af8ac67fc05a7dd2fa4ac6d8ffeccdb8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 07/71] fix: a model file without a shocks block can be read

---
 pynare/parsing/factory.py   | 3 ++-
 pynare/parsing/semantics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..1ff72fc 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,8 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..7b03a41 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -275,7 +275,8 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From 7440e32069f1f737a07aa909744ff6630616951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 08/71] fix: histval values are not the endval values

---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 1ff72fc..a792b43 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -366,7 +366,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
-- 
2.43.0


From 78f8e4e48c1bb09f3fc3d1c86cd0672e78787e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 09/71] fix: using a name that has no value yet is an error
 when reading a model

---
 pynare/parsing/base.py      | 9 +++++++--
 pynare/parsing/semantics.py | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 62e3271..6f33c96 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -215,12 +215,17 @@ class _BaseEvaluator(ABCVisitor):
     def visit_Var(self, node):
         try:
             try:
-                return self.scope.lookup(node.value)
+                value = self.scope.lookup(node.value)
             except AttributeError:
-                return self.scope[node.value]
+                value = self.scope[node.value]
 
         except KeyError:
+            value = None
+
+        # scopes with a `lookup` method return None for names without a value
+        if value is None:
             raise SyntaxError(f"symbol '{node.value}' was not assigned value before use")
+        return value
 
     def visit_Function(self, node):
         f = node.value
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 7b03a41..711102e 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -199,9 +199,9 @@ class DynareSemanticAnalyzer(ABCVisitor):
 
         if var_symbol is None:
             # assigning non-model parameters, validating the expression
+            self.visit(node.right)
             var_symbol = VarSymbol(var_name, 'non_model')
             self.current_scope.insert(var_symbol)
-            self.visit(node.right)
 
         else:
             # we don't want to assign values to non-parameter values
-- 
2.43.0


From 0e8ab3f348d5290ccd0c861c8c62807cd8511dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 10/71] fix: fill in the values of non-model variables used in
 parameter definitions

---
 pynare/parsing/factory.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a792b43..a21e7cd 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -240,9 +240,11 @@ class DynareModelFactory(base.ABCVisitor):
                 var_name=var_name,
                 value=value
             )
+            # only parameters are known after the file is read, so the values of
+            #    the non-model variables have to be filled in
             self.outline.set_model_parameter(
                 var_name=var_name,
-                value=node.right
+                value=self._fill_non_model(node.right)
             )
 
         else:
@@ -252,6 +254,16 @@ class DynareModelFactory(base.ABCVisitor):
             )
 
 
+    def _fill_non_model(self, expr):
+        non_model = self.file_scope._symbols
+
+        if isinstance(expr, ast.Var):
+            if expr.value in non_model:
+                return ast.Num(base.Token(base.NUMBER, non_model[expr.value]))
+            return expr
+        return base.ASTSubstitution(expr, non_model)
+
+
     #
     # Model Block
     #
-- 
2.43.0


From ea0844c6f837536f874a8d2e90a5556f7cda5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 11/71] fix: names that do not belong to the model cannot be
 used in its equations

---
 pynare/parsing/semantics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 711102e..cdbe2e2 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -362,7 +362,13 @@ class DynareSemanticAnalyzer(ABCVisitor):
         # checks that the variable has been defined
         var_name = node.value
         var_symbol = self.current_scope.lookup(var_name)
-        if var_symbol is None:
+        # variables that are not a part of the model are only visible outside of it
+        outside_model = (
+            self.current_scope.scope_name == 'model'
+            and var_symbol is not None
+            and var_symbol.stype == 'non_model'
+        )
+        if var_symbol is None or outside_model:
             token = node.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
-- 
2.43.0


From 78ce790373c54346def01e12532022f49a1281d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 12/71] fix: only endogenous variables can be out-of-period

---
 pynare/parsing/semantics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index cdbe2e2..bab3ece 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -381,17 +381,19 @@ class DynareSemanticAnalyzer(ABCVisitor):
         var_symbol = self.current_scope.lookup(var_name)
 
         if var_symbol is None:
-            token = node.token
+            token = node.var.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'name {var_name} was not declared'
             )
 
-        if var_symbol.stype.name == dyn.PARAMETERS:
-            token = node.token
+        # `stype` of variables that are not a part of the model is just a string
+        stype = getattr(var_symbol.stype, 'name', var_symbol.stype)
+        if stype != dyn.VAR:
+            token = node.var.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
-                f'parameters cannot be out-of-period'
+                f'only endogenous variables can be out-of-period'
             )
 
 
-- 
2.43.0


From 6a94f994e4d4c8012eb2643be71e2c6d0b6e980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 13/71] fix: the number of periods of a lead or lag is an
 integer

---
 pynare/parsing/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index c857216..973fcce 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -366,6 +366,9 @@ class DynareParser(BaseParser):
         else:
             self.error()
         periods = self.current_token
+        if periods.type == base.NUMBER and periods.value != int(periods.value):
+            # there is nothing between two periods
+            self.error()
         self.eat(base.NUMBER)
         self.eat(base.RPARE)
 
-- 
2.43.0


From 4e0cded34c7a7c6d678f82d426bbf14ae96a6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 14/71] fix: leads and lags of more than one period are not
 wrapped around

---
 pynare/core/variables.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..4fd4f92 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -540,6 +540,12 @@ class VariableIndexManager(object):
         #    of endogenous variables at all periods
         llx = np.full((3, len(endog)), fill_value=np.nan)
         for idx, ll in enumerate(self.lead_lags.values()):
+            if any(abs(period) > 1 for period in ll):
+                raise EndogIndexError(
+                    f"variable '{str(endog[idx])}' was seen with a lead or lag of more "
+                    "than one period"
+                )
+
             lead_lag = np.array(list(ll)) + 1
             try:
                 llx[lead_lag, idx] = 1
-- 
2.43.0


From 7edd2383ada0a2c7e25f5e7729ee83e772e72452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 15/71] fix: x(+0) is x, and x(-1) is not a variable named xm1

---
 pynare/core/expressions.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index fc2fba1..fecc636 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -352,7 +352,7 @@ def dynamic_func(
     # `llx` has `len(endo)` columns by construction, so we make use of that
     #    to get the `endos` names in the correct order
     endo_suffix = np.array(
-        [[f'{v}{s}' for v in endo] for s in ('m1', '', 'p1')], dtype=object
+        [[offset_name(v, p) for v in endo] for p in (-1, 0, 1)], dtype=object
     )
     dyn_vars = list(endo_suffix[~np.isnan(llx)])
     dyn_vars.extend(exo) # `exo` in declaration order by construction
@@ -392,8 +392,7 @@ class DynamicFunc(base._BaseEvaluator):
     def visit_PeriodVar(self, node):
         var_name = node.value
         offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-        return self.dyn_vals[name_offset]
+        return self.dyn_vals[offset_name(var_name, offset)]
 
 
 
@@ -463,8 +462,18 @@ class _DynamicSubsitution(base._ASTSubstitution):
         elif isinstance(attribute, ast.PeriodVar):
             var_name = attribute.value
             offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-            self.not_provided.add(name_offset)
+            self.not_provided.add(offset_name(var_name, offset))
+
+
+
+def offset_name(name: str, offset: int) -> str:
+    """
+    the argument name of a variable at an offset from the current period. names that
+    can be declared never begin with an underscore, so these are always distinct
+    """
+    if offset == 0:
+        return name
+    return f'_{name}_p1' if offset > 0 else f'_{name}_m1'
 
 
 
-- 
2.43.0


From 3c3d803f7310f263240e5db8304b44901e093200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 16/71] fix: every variable has exactly one place in
 decision-rule order

---
 pynare/core/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 4fd4f92..fbb998c 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -582,7 +582,7 @@ class VariableIndexManager(object):
 
         static_idx = np.where(np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
-        not_forward = np.isnan(llx[1:]).any(axis=0)
+        not_forward = np.isnan(llx[2])
         back_idx = np.where(~np.isnan(llx[0]) & not_forward)[0]
 
         mixed_idx = np.where(~np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
@@ -597,7 +597,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From cda7b06c2df426bffcdd81a00a01d9d2f16c6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 17/71] fix: variables that do not appear in the current period
 have zero coefficients there

---
 pynare/core/solve/first_order.py | 17 ++++------
 pynare/core/solve/statespace.py  | 55 +++++++++++---------------------
 pynare/utils/numpy.py            | 17 ++++++++++
 3 files changed, 42 insertions(+), 47 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..d8b2daf 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -89,10 +89,7 @@ def solve_first_order(
     gys = solve_static_endo(A, indexes, gym, gyp)
     gy = np.vstack((gys, gyd))
 
-    if indexes.n_exog > 0:
-        fu = A[:, indexes.exogenous_jacobian]
-    else:
-        fu = J[:, indexes.exogenous_jacobian]
+    fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
     # remove any 1-dimensional axes
@@ -174,11 +171,8 @@ def solve_static_endo(
     Am_cup = A[:ns, indexes.dr.backward_timed[-1]]
     A0s_cup = A[:ns, indexes.dr.static_timed[0]]
 
-    # the indices are the Jacobian column indices corresponding to the
-    #    dynamic variables, but we ensure they're in DR-order
-    dr_llx = indexes.dr.llx
-    _dj = dr_llx[1, ~(np.isnan(dr_llx[0, :]) & np.isnan(dr_llx[2, :]))]
-    A0d_cup = A[:ns, _dj[~np.isnan(_dj)].astype(int)]
+    # the Jacobian columns of the dynamic variables at time t, in DR-order
+    A0d_cup = unp.take_columns(A[:ns], indexes.dr.llx[1, indexes.dr.dynamic])
 
     # merging forward- and backward-looking dynamic response
     gyd = unp.array_shingle(gym, gyp, indexes.n_mixed)
@@ -216,8 +210,9 @@ def solve_exo(
         the state response to exogenous variables
     """
     cont_static = A[:, indexes.dr.static_timed[0]]
-    cont_backward = A[:, indexes.dr.backward_timed[0]]
-    cont_forward = A[:, indexes.dr.pure_forward_timed[0]]
+    llx_t = indexes.dr.llx[1]
+    cont_backward = unp.take_columns(A, llx_t[indexes.dr.backward])
+    cont_forward = unp.take_columns(A, llx_t[indexes.dr.pure_forward])
 
     Ap = A[:, indexes.dr.forward_timed[1]]
     implied_backward = np.dot(Ap, gyp) + cont_backward
diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..c6a54a0 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -149,7 +149,7 @@ def _compute_structural_state_space(model: Model):
 
         # for model to be properly identified, rank(R) must equal number of static vars
         if _r != indexes.n_static:
-            raise ModelIdentificationError(_r, indexes.n_static)
+            raise ModelIdentificationError('static', _r, indexes.n_static)
 
         # rotated jacobian
         A = np.dot(np.transpose(Q), J)
@@ -157,44 +157,27 @@ def _compute_structural_state_space(model: Model):
     else:
         A = J.copy()
 
-    # partition as according to section 4.1 of Villemot (2011)
-    nd = indexes.n_dynamic
-    Ap_tilde = A[-nd:, indexes.dr.forward_timed[1]]
-    Am_tilde = A[-nd:, indexes.dr.backward_timed[-1]]
-    A0p_tilde = A[-nd:, indexes.dr.forward_timed[0]]
+    # partition as according to section 4.1 of Villemot (2011). variables that do not
+    #   appear at time t have a column of zeros
+    nd, ns, nm = indexes.n_dynamic, indexes.n_static, indexes.n_mixed
+    nb, nf = indexes.n_backward, indexes.n_forward
 
-    # model might not have any backward variables
-    A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
-    if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
+    Ap_tilde = A[ns:, indexes.dr.forward_timed[1]]
+    Am_tilde = A[ns:, indexes.dr.backward_timed[-1]]
 
-    # set up the structural state space representation
-    nm = indexes.n_mixed
-    if nm > 0:
-        # mixed variables are present
-        nb, nf = indexes.n_backward, indexes.n_forward
+    llx_t = indexes.dr.llx[1]
+    A0p_tilde = unp.take_columns(A[ns:], llx_t[indexes.dr.forward])
+    A0m_tilde = unp.take_columns(A[ns:], llx_t[indexes.dr.pure_backward])
 
-        # in section 4.1, two definitions of A0m_tilde and Ap_tilde are given - we
-        #   use the first, which means A0m_tilde needs to be augmented with zeros if
-        #   n_endog - (n_forward + n_static) > 0
-        n_diff = indexes.n_endog - (nf + indexes.n_static)
+    # set up the structural state space representation. in section 4.1, two definitions
+    #   of A0m_tilde and Ap_tilde are given - we use the first, which means A0m_tilde
+    #   needs to be augmented with zeros in the columns of the mixed variables, which
+    #   are the last backward variables and the first forward ones
+    A0m_tilde = np.hstack((A0m_tilde, np.zeros((nd, nm), dtype=float)))
+    Im = np.eye(nm, nb, k=nb-nm)
+    Ip = np.eye(nm, nf)
 
-        if n_diff:
-            zeros = np.zeros((nd, nm), dtype=float)
-            A0m_tilde = np.hstack((A0m_tilde, zeros))
-
-            Im = np.eye(nm, nb, k=n_diff)
-
-        else:
-            Im = np.eye(nm, nb)
-
-        Ip = np.eye(nm, nf)
-
-        D = np.block([[A0m_tilde, Ap_tilde], [Im, np.zeros((nm, nf))]])
-        E = np.block([[-Am_tilde, -A0p_tilde], [np.zeros((nm, nb)), Ip]])
-
-    else:
-        D = np.hstack((A0m_tilde, Ap_tilde))
-        E = - np.hstack((Am_tilde, A0p_tilde))
+    D = np.block([[A0m_tilde, Ap_tilde], [Im, np.zeros((nm, nf))]])
+    E = np.block([[-Am_tilde, -A0p_tilde], [np.zeros((nm, nb)), Ip]])
 
     return D, E, A
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..58d21fc 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -18,6 +18,23 @@ def find_first(
 
 
 
+def take_columns(
+    arr: np.ndarray,
+    columns: np.ndarray
+):
+    """
+    select columns of a two-dimensional array. wherever the column index is nan, the
+    column is filled with zeros
+    """
+    columns = np.asarray(columns, dtype=float)
+    present = ~np.isnan(columns)
+
+    taken = np.zeros((arr.shape[0], len(columns)), dtype=float)
+    taken[:, present] = arr[:, columns[present].astype(int)]
+    return taken
+
+
+
 def hermitian(arr: np.ndarray):
     """
     simple function for computing the hermitian (complex conjugate) of an array
-- 
2.43.0


From b76975e3ce0df81c5cef226b666ace0425ae04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 18/71] fix: negative, complex and absent explosive eigenvalues

---
 pynare/utils/numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 58d21fc..bf0192a 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -284,7 +284,8 @@ def partitioned_qz(
         eigs = alph/bet
 
     # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    is_expl = (np.absolute(eigs) > 1) | np.isinf(eigs)
+    expl = find_first(is_expl) if is_expl.any() else len(eigs)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 7acfebc67daea8ac2d94b5abeeb66c88382f18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 19/71] fix: a model has to be identified to be solved

---
 pynare/core/solve/first_order.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index d8b2daf..af08dc7 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -76,6 +76,7 @@ def solve_first_order(
     """
     indexes = M.indexes
     state = M.statespace
+    state.verify()
 
     # retrieve state space matrices
     A, D, E = state.jacobian, state.lhs, state.rhs
-- 
2.43.0


From 1ff59fe0c9e799267df45c21150c353c462b25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 20/71] fix: a model that failed verification fails it again

---
 pynare/core/solve/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index c6a54a0..230263d 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -46,7 +46,7 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        if not self.is_verified:
             self._run_verification()
         return None
 
-- 
2.43.0


From 3e8bee99faa2d1e4838d48f553ea3920ed36897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 21/71] fix: models with static variables only

---
 pynare/utils/numpy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index bf0192a..69eda66 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -277,7 +277,13 @@ def partitioned_qz(
         lower right submatrix of triangular matrix S
     """
 
-    S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
+    if A.size:
+        S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
+    else:
+        # nothing to decompose, and the LAPACK routines do not accept empty arrays
+        S = T = Q = Zt = np.zeros((0, 0), dtype=float)
+        alph = bet = np.zeros(0, dtype=float)
+
 
     with np.errstate(divide='ignore', invalid='ignore'):
         # locally silence RuntimeWarnings about dividing by zero or infinity
-- 
2.43.0


From de5c14bb4338a761a8a1f5605c6aa92bc8ddf72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 22/71] fix: unit roots are counted and sorted alike

---
 pynare/core/solve/statespace.py |  6 ++----
 pynare/utils/numpy.py           | 23 +++++++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 230263d..e421397 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -55,8 +55,7 @@ class StateSpace(object):
         """
         checking the Blanchard-Kahn (1980) conditions
         """
-        abs_eigs = np.absolute(self.eigen)
-        n_explosive = np.sum((abs_eigs > 1) | np.isinf(abs_eigs))
+        n_explosive = np.count_nonzero(unp.is_explosive(self.eigen))
         n_forward = self.model.indexes.n_forward
 
         if n_explosive != n_forward:
@@ -110,8 +109,7 @@ class StateSpace(object):
         if model_name:
             return f"Statespace({repr(model_name)})"
 
-        abs_eigs = np.absolute(self.eigen)
-        n_explosive = np.sum((abs_eigs > 1) | np.isinf(abs_eigs))
+        n_explosive = np.count_nonzero(unp.is_explosive(self.eigen))
         return f"StateSpace(expl. eigs = {n_explosive})"
 
 
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 69eda66..e9e0628 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -218,6 +218,25 @@ def eigvals_sorted(
 
 
 
+def is_explosive(
+    eigs: np.ndarray
+):
+    """
+    indicator for the eigenvalues outside of the unit circle, including infinite ones.
+    the tolerance keeps unit roots, which are only computed up to rounding errors, on
+    the same side
+    """
+    return (np.absolute(eigs) > 1 + 1e-6) | np.isinf(eigs)
+
+
+
+def _not_explosive(alph, bet):
+    # the `sort` argument of `scipy.linalg.ordqz`
+    with np.errstate(divide='ignore', invalid='ignore'):
+        return ~is_explosive(alph/bet)
+
+
+
 def partitioned_qz(
     A: np.ndarray,
     B: np.ndarray
@@ -278,7 +297,7 @@ def partitioned_qz(
     """
 
     if A.size:
-        S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
+        S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort=_not_explosive)
     else:
         # nothing to decompose, and the LAPACK routines do not accept empty arrays
         S = T = Q = Zt = np.zeros((0, 0), dtype=float)
@@ -290,7 +309,7 @@ def partitioned_qz(
         eigs = alph/bet
 
     # explosive eigenvalues
-    is_expl = (np.absolute(eigs) > 1) | np.isinf(eigs)
+    is_expl = is_explosive(eigs)
     expl = find_first(is_expl) if is_expl.any() else len(eigs)
 
     # unitary matrix first
-- 
2.43.0


From 0c55d32b35fb6b3b8cbd5b78db16f182040713c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 23/71] fix: solve models with one variable, or with no or a
 single state or shock

---
 pynare/core/solve/first_order.py  |  7 +--
 pynare/core/solve/second_order.py | 84 ++++++++++++-------------------
 pynare/utils/numpy.py             | 21 ++++++--
 3 files changed, 52 insertions(+), 60 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index af08dc7..5a4f5c9 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -93,11 +93,8 @@ def solve_first_order(
     fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
-    # remove any 1-dimensional axes
-    gy = gy.squeeze()
-    gu = gu.squeeze()
-
-    return gy, gu
+    # a single state or a single shock yields a vector
+    return unp.drop_single_column(gy), unp.drop_single_column(gu)
 
 
 
diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..1f1a49e 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -29,7 +29,11 @@ class SecondOrderSolution(LinearSolution):
         solver = SecondOrderSolver(self.model, self.lower_solution)
 
         ghxx, ghxu, ghuu, del2 = solver.solve()
-        self.ghxx, self.ghxu, self.ghuu, self.del2 = ghxx / 2, ghxu, ghuu / 2, del2
+        # a single pair of states or shocks yields a vector
+        self.ghxx = unp.drop_single_column(ghxx / 2)
+        self.ghxu = unp.drop_single_column(ghxu)
+        self.ghuu = unp.drop_single_column(ghuu / 2)
+        self.del2 = del2
 
         return self
 
@@ -69,11 +73,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # decision-rule indices of state vars
-        self.tloc_arr = np.arange(ns, ns+nt, dtype=int)
-        try:
-            self.tloc = self.tloc_arr.item()
-        except ValueError:
-            self.tloc = self.tloc_arr
+        self.tloc = np.arange(ns, ns+nt, dtype=int)
 
         # re-arrange lead-lag incidence to DR order
         dr_llx = indexes.dr.llx
@@ -103,7 +103,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # A, B, C, D, E arrays rely on first-order solution arrays
-        gy = self.lower_solution.gy
+        gy, _ = _policy_arrays(self.lower_solution)
 
         # reorder, get time t and t+1 indices
         jacobian = self.model.jacobian.array
@@ -115,14 +115,14 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
@@ -141,14 +141,14 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt = indexes.n_state
 
-        gy = lower_sol.gy
+        gy, _ = _policy_arrays(lower_sol)
 
         state_eye = np.identity(nt, dtype=float)
         cont_gy = gy[~np.isnan(self.dr_cont)]
-        fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
         exo_block = np.zeros((indexes.n_exog, nt), dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_eye, cont_gy, fore_gy, exo_block))
+        E = np.concatenate((state_eye, cont_gy, fore_gy, exo_block))
         return E
 
 
@@ -161,21 +161,16 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt, ne = indexes.n_state, indexes.n_exog
 
-        gy = lower_sol.gy
-        gu = lower_sol.gu
+        gy, gu = _policy_arrays(lower_sol)
 
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
 
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
 
         exo_eye = np.identity(ne, dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_zero, cont_gu, fore_gy, exo_eye))
+        E = np.concatenate((state_zero, cont_gu, fore_gy, exo_eye))
         return E
 
 
@@ -279,24 +274,12 @@ def solve_ghxu(
     -------
     ghxu : np.ndarray
     """
-    # if theres only one state variable, zx will be a vector, and if there is
-    #    only a single shock, zu will be too. for these to conform with one another
-    #    in the kronecker product, ensure 2d
-    zx, zu = unp.ensure_2darray((zx, zu))
-    E = -unp.matrix_kronecker_product(hess, zx, zu).squeeze()
+    E = -unp.matrix_kronecker_product(hess, zx, zu)
 
-    # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
-    #    dimensions depend on row/column orientation. just cast to 2dims for now
-    gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
+    gy, gu = _policy_arrays(lower_sol)
+    cross_prod = unp.matrix_kronecker_product(ghxx, gy[tloc], gu[tloc])
+    rhs = E - np.matmul(C, cross_prod)
 
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
-
-    cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
-
-    rhs = E - unp.matmul_scalar(C, cross_prod)
     return linalg.solve(A, rhs)
 
 
@@ -341,20 +324,10 @@ def solve_ghuu(
     E = -unp.matrix_kronecker_product(hess, zu)
 
     ghxx_tp1 = np.matmul(C, ghxx)
-    state_du = lower_sol.gu[tloc]
-
-    # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
 
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
+    _, gu = _policy_arrays(lower_sol)
+    rhs = E - unp.matrix_kronecker_product(ghxx_tp1, gu[tloc])
 
-    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
-
-    rhs = E - ghxx_tp1_evaluated
     return linalg.solve(A, rhs)
 
 
@@ -404,7 +377,7 @@ def solve_del2(
     del2 : np.ndarray
     """
 
-    gy, gu = lower_sol.gy, lower_sol.gu
+    gy, gu = _policy_arrays(lower_sol)
 
     fore_nan = np.isnan(fore)
     fore_idx = _nonnan_int(fore)
@@ -413,7 +386,7 @@ def solve_del2(
     B1 = unp.matrix_kronecker_product(hess[:, fore_sq], gu[~fore_nan])
 
     rhs = np.matmul(jac[:, fore_idx], ghuu[~fore_nan]) + B1
-    rhs = -unp.matmul_scalar(rhs, np.transpose(sigma).flatten())
+    rhs = -np.matmul(rhs, np.transpose(sigma).flatten())
 
 
     n_fore = np.count_nonzero(~fore_nan)
@@ -424,7 +397,7 @@ def solve_del2(
     pfore_zero = np.zeros((n_fore, npf), dtype=float)
     gy_fore = gy[~fore_nan]
 
-    d_fore = unp.concatenate_maybe_1d((static_zero, gy_fore, pfore_zero), axis=1)
+    d_fore = np.concatenate((static_zero, gy_fore, pfore_zero), axis=1)
     deriv_fore = endo_eye[~fore_nan] + d_fore
 
     lhs = np.zeros((n_endog, n_endog), dtype=float)
@@ -434,6 +407,15 @@ def solve_del2(
     return linalg.solve(lhs, rhs) / 2
 
 
+def _policy_arrays(lower_sol):
+    """
+    the first-order policy matrices, with two dimensions for any number of states and
+    shocks
+    """
+    return unp.ensure_2darray((lower_sol.gy, lower_sol.gu))
+
+
+
 def _nonnan_int(arr):
     """
     utility function for translating index arrays with nans (which forces them
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index e9e0628..273fe3b 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -35,6 +35,18 @@ def take_columns(
 
 
 
+def drop_single_column(
+    arr: np.ndarray
+):
+    """
+    arrays with one column are returned as vectors, all other ones are not changed.
+    unlike `squeeze`, this does not confuse an array of one row with one of one column,
+    and is undone by `ensure_2darray`
+    """
+    return arr[:, 0] if arr.shape[1] == 1 else arr
+
+
+
 def hermitian(arr: np.ndarray):
     """
     simple function for computing the hermitian (complex conjugate) of an array
@@ -429,10 +441,7 @@ def matrix_kronecker_product(A, B, C=None):
     else:
         K = np.kron(B, C)
 
-    if (A.shape[1] == 1) and (K.shape[0] == 1):
-        return np.outer(A, K)
-    else:
-        return np.matmul(A, K)
+    return np.matmul(A, K)
 
 
 
@@ -488,6 +497,10 @@ def generalized_sylvester(
             f"({m}, {n}) != ({er}, {ec})"
         )
 
+    # there is nothing to solve for
+    if E.size == 0:
+        return np.zeros(original_mn, dtype=float)
+
     # handling the special case where there is only one row or one column
     if m == 1:
         # B and D are scalars
-- 
2.43.0


From 3f14c6e009bd8301c64b32c6ed3fa4d3d863512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 24/71] fix: do not halve the second-order terms twice when
 simulating

---
 pynare/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..79afed6 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -227,7 +227,7 @@ class LinearSimulator(ModelSimulator):
         sol = self.model.solution
         first_sol = sol.lower_solution
         ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
+            (sol.ghxx, sol.ghxu, sol.ghuu, sol.del2))
         gy, gu = first_sol.gy, first_sol.gu
 
         # index management. use array of indices because of kronecker products
-- 
2.43.0


From 069101ad62f3b0119d5087614ea1f0454dfeb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 25/71] fix: simulate models with a single variable, state or
 shock

---
 pynare/simul.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 79afed6..f8e3630 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -165,11 +165,7 @@ class LinearSimulator(ModelSimulator):
         # locating the t-1 state variables in dr order
         self.dr_order = self.model.indexes.dr_order
 
-        lag_state_maybe_scalar = self.model.indexes.dr.state
-        try:
-            self.lag_state = lag_state_maybe_scalar.item()
-        except ValueError:
-            self.lag_state = lag_state_maybe_scalar
+        self.lag_state = self.model.indexes.dr.state
 
     def _simulate_first_order(
         self,
@@ -187,9 +183,9 @@ class LinearSimulator(ModelSimulator):
         paths[0, :] = init - ys
 
         # policy matrices and innovations to endogenous variables
-        gy, gu = self.model.solution.gy, self.model.solution.gu
-        gu_arr = unp.ensure_2darray(gu)
-        innovs = np.matmul(shocks, np.transpose(gu_arr))
+        sol = self.model.solution
+        gy, gu = unp.ensure_2darray((sol.gy, sol.gu))
+        innovs = np.matmul(shocks, np.transpose(gu))
 
         # index management
         dr_order = self.dr_order
@@ -228,21 +224,20 @@ class LinearSimulator(ModelSimulator):
         first_sol = sol.lower_solution
         ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
             (sol.ghxx, sol.ghxu, sol.ghuu, sol.del2))
-        gy, gu = first_sol.gy, first_sol.gu
+        gy, gu = unp.ensure_2darray((first_sol.gy, first_sol.gu))
 
         # index management. use array of indices because of kronecker products
         dr_order = self.dr_order
-        lag = [self.lag_state] if isinstance(self.lag_state, int) else self.lag_state
-        dr_state = dr_order[lag]
+        dr_state = dr_order[self.lag_state]
+        const = del2[:, 0] + ys[dr_order]
 
-        const = del2.squeeze() + ys[dr_order]
         for t in range(1, T):
             yhat = paths[t-1, dr_state] - ys[dr_state]
             ut = shocks[t-1, :]
 
             # first-order terms
-            dy = unp.matmul_scalar(gy, yhat)
-            du = unp.matmul_scalar(gu, ut)
+            dy = np.matmul(gy, yhat)
+            du = np.matmul(gu, ut)
 
             # second-order terms
             dydy = unp.matrix_kronecker_product(ghxx, yhat)
-- 
2.43.0


From 34c3e8896d70124ac5e02d520568e90c489bebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 26/71] fix: do not halve the second-order terms twice in the
 mean

---
 pynare/stats/moments.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..6438a82 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -44,19 +44,21 @@ def mean(md: Model):
 
         # second-order transition arrays. only select those determining state evolution
         dr_sidx = md.indexes.dr.state
-        del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
+        sol = md.solution
+        gy, ghxx, ghuu = unp.ensure_2darray((sol.lower_solution.gy, sol.ghxx, sol.ghuu))
+        del2 = sol.del2
 
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
-        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
-        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
-        expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
+        #               + del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
+        # yields E[x] = g_{xt+1,x}*E[x] + del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
+        # since the second-order arrays already are halves of second derivatives
+        second_order = del2 + np.matmul(ghxx, var_state.flatten()) \
+            + np.matmul(ghuu, md.sigma.flatten())
+
+        expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order[dr_sidx])
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+        adj_mean_inv = np.matmul(gy, expt_x) + second_order
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
-- 
2.43.0


From 04f6bd2fbf814aff1c199885ff155ba36ddec053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 27/71] fix: the number of lags and the names can be passed to
 statistics by position

---
 pynare/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/stats/stats.py b/pynare/stats/stats.py
index f9c6044..34612aa 100644
--- a/pynare/stats/stats.py
+++ b/pynare/stats/stats.py
@@ -43,7 +43,7 @@ class ModelStatistics(object):
         try:
             func = self.features[attr]
 
-            feature_func = partial(func, md=self.model)
+            feature_func = partial(func, self.model)
             feature_func.__doc__ = func.__doc__
             return feature_func
 
-- 
2.43.0


From 6054b8dcac6d0a91ae9ce03ce64468973b22f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 28/71] fix: select stochastic variables of models with one
 shock too

---
 pynare/stats/var.py | 65 +++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 46 deletions(-)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..56c6d53 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -37,22 +37,13 @@ def var_decomp(
         in endog `i` that is attributable to exog `j`, in declaration order
     """
 
+    endog_idx = _named_indices(md.endog, endog, 'an endogenous')
+    stoch_idx = _named_indices(md.stoch, stoch, 'a stochastic')
+
     if len(md.stoch) == 1:
         # quick check for models with only one stochastic variable
         decomp_shares = np.ones((len(md.endog), 1), dtype=float)
-
-        if endog:
-            endog_names = md.endog.names
-            endog_idx = []
-
-            for eg in ensure_list(endog):
-                try:
-                    endog_idx.append(np.where(endog_names == eg)[0].item())
-                except ValueError:
-                    raise ValueError(f"'{eg}' is not an endogenous variable") from None
-            return decomp_shares[endog_idx]
-
-        return decomp_shares
+        return decomp_shares[np.ix_(endog_idx, stoch_idx)]
 
     # this is 'None' if the model hasn't been solved yet
     if not md.solution_order:
@@ -108,39 +99,21 @@ def var_decomp(
         decomp_shares = np.divide(decomp, total_variance[:, np.newaxis])
 
     # selecting portions of variance decomposition array
-    if endog or stoch:
-        endog_names, stoch_names = md.endog.names, md.stoch.names
-
-        if endog:
-            endog_idx = []
-            for eg in ensure_list(endog):
-                try:
-                    endog_idx.append(np.where(endog_names == eg)[0].item())
-                except ValueError:
-                    raise ValueError(f"'{eg}' is not an endogenous variable") from None
-
-        else:
-            endog_idx = []
+    return decomp_shares[np.ix_(endog_idx, stoch_idx)]
 
-        if stoch:
-            stoch_idx = []
-            for sc in ensure_list(stoch):
-                try:
-                    stoch_idx.append(np.where(stoch_names == sc)[0].item())
-                except ValueError:
-                    raise ValueError(f"'{sc}' is not a stochastic variable") from None
 
-        else:
-            stoch_idx = []
 
-        if endog_idx and stoch_idx:
-            return decomp_shares[np.ix_(endog_idx, stoch_idx)]
-
-        elif endog_idx:
-            return decomp_shares[endog_idx]
-
-        elif stoch_idx:
-            return decomp_shares[:, stoch_idx]
-
-    else:
-        return decomp_shares
+def _named_indices(variables, names, kind):
+    """
+    the positions of the requested variables, or of all of them if none are requested
+    """
+    if not names:
+        return np.arange(len(variables))
+
+    idx = []
+    for name in ensure_list(names):
+        try:
+            idx.append(np.where(variables.names == name)[0].item())
+        except ValueError:
+            raise ValueError(f"'{name}' is not {kind} variable") from None
+    return idx
-- 
2.43.0


From c9073f4e1b8317519d8cd37049f22bba55d4b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:44 +0000
Subject: [PATCH 29/71] fix: look up several variables by name

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index fbb998c..eae04ea 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -113,7 +113,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From b3c6aa614cff5519d045f0d5e4c3b249c837daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 30/71] fix: concatenated variables are a VarArray, so that
 variables can be added to models

---
 pynare/core/variables.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index eae04ea..9d1172a 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -48,26 +48,23 @@ class VarArray(np.ndarray):
         self.vtype = first
         self.names = np.array(names, dtype=str)
 
-    def __array_ufunc__(self, func, types, args, kwargs):
+    def __array_function__(self, func, types, args, kwargs):
         """
-        this method is called by top-level numpy methods. it might have to be extended
-        at some point, but for the moment, the collection of variables in VarArray just
-        needs to be maleable
+        concatenating variables returns another VarArray
         """
-        if func == np.concatenate:
-
+        if func is np.concatenate:
             var_seq, variables = args[0], []
             for var in var_seq:
                 if isinstance(var, VarArray) or is_iterable_not_str(var):
                     variables.extend(var)
                 else:
                     variables.append(var)
-
             return VarArray(variables)
 
-        if not all(issubclass(t, VarArray) for t in types):
-            return NotImplemented
+        return super().__array_function__(func, types, args, kwargs)
 
+    def __array_ufunc__(self, func, types, args, kwargs):
+        # there are no operations with variables
         return NotImplemented
 
     def __contains__(self, obj):
-- 
2.43.0


From 57fa3176b6085ca1720c05a8c81d38cd5b6be3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 31/71] fix: every declared variance, covariance and
 correlation enters the covariance matrix

---
 pynare/core/generic.py    | 20 ++++++--------------
 pynare/core/variables.py  | 32 +++++++++++++++++++++++---------
 pynare/parsing/factory.py | 32 ++++++++++++++++++++++++++------
 3 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..9344b27 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -398,27 +398,19 @@ class DynamicModel(StructuredModel):
         """
 
         # pre-allocate
-        stoch_names = self.stoch.names
         n_stoch = len(self.stoch)
         sig = np.zeros((n_stoch, n_stoch), dtype=float)
 
         # first initialize variance, in case a correlated variable is given
-        #    and needs to be rescaled to covariance
+        #    and needs to be rescaled to covariance. the default variance is one
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.variance, (int, float)):
-                sig[i, i] = shk.variance
+            sig[i, i] = 1.0 if shk.variance is None else shk.variance
 
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.corr, (int, float)):
-                j = np.where(stoch_names == shk.other)[0]
-                cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
-
-                sig[i, j], sig[j, i] = cov, cov
-
-            # with an `if` here, any correlated variables that are declared as
-            #    covarying ones later in the shock block are overwritten
-            if isinstance(shk.cov, (int, float)):
-                j, cov = np.where(stoch_names == shk.other)[0], shk.cov
+            for other, corr, cov in shk.comovements:
+                j = self.stoch.get_loc(other)
+                if cov is None:
+                    cov = np.sqrt(sig[i, i]*sig[j, j]) * corr
                 sig[i, j], sig[j, i] = cov, cov
 
         return sig
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9d1172a..90080ee 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -209,17 +209,31 @@ class StochVar(ExogVar):
         self.corr = corr
         self.cov = cov
 
+    @property
+    def comovements(self):
+        """
+        a list of (other, corr, cov) for each of the shocks that this one is declared to
+        move with, where one of `corr` and `cov` is None. if there are several of them,
+        all three attributes are sequences
+        """
+        if not self.other:
+            return []
+        if isinstance(self.other, str):
+            moves = [(self.other, self.corr, self.cov)]
+        else:
+            moves = list(zip(self.other, self.corr, self.cov))
+
+        # covariance takes precedence if both moments are declared
+        moves = [(o, r if c is None else None, c) for o, r, c in moves]
+        return [m for m in moves if m[1] is not None or m[2] is not None]
+
     def __repr__(self):
         name = self.name
-        if self.other:
-            var, other = self.variance, self.other
-            if self.corr:
-                c, cn = 'corr', self.corr
-            else:
-                c, cn = 'cov', self.cov
-            return f"StochVar({name}, variance={var}, {c}({name}, {other})={cn})"
-        else:
-            return f"StochVar({name}, variance={self.variance})"
+        moves = ''
+        for other, corr, cov in self.comovements:
+            c, cn = ('corr', corr) if cov is None else ('cov', cov)
+            moves += f", {c}({name}, {other})={cn}"
+        return f"StochVar({name}, variance={self.variance}{moves})"
 
 
 
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a21e7cd..f947368 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -421,14 +421,10 @@ class DynareModelFactory(base.ABCVisitor):
                 shock['variance'] = moment ** 2
 
             elif shock_type == 'correlated':
-                oname = sdef.other.value
-                shock['other'] = oname
-                shock['corr'] = moment
+                self._add_comovement(shock, sdef.other.value, 'corr', moment)
 
             elif shock_type == 'covarying':
-                oname = sdef.other.value
-                shock['other'] = oname
-                shock['cov'] = moment
+                self._add_comovement(shock, sdef.other.value, 'cov', moment)
 
             else:
                 raise NotImplementedError(f"unrecognized shock type: {shock_type}")
@@ -438,6 +434,30 @@ class DynareModelFactory(base.ABCVisitor):
         self.outline._shocks = shocks
 
 
+    def _add_comovement(self, shock, other, kind, moment):
+        """
+        record the correlation or covariance of a shock with another one. only shocks
+        that move with several other ones need sequences of names and moments
+        """
+        others = shock.get('other')
+
+        if others is None or others == other:
+            shock['other'] = other
+            shock[kind] = moment
+            return
+
+        if isinstance(others, str):
+            shock['other'] = [others]
+            shock['corr'] = [shock.get('corr')]
+            shock['cov'] = [shock.get('cov')]
+
+        if other not in shock['other']:
+            shock['other'].append(other)
+            shock['corr'].append(None)
+            shock['cov'].append(None)
+        shock[kind][shock['other'].index(other)] = moment
+
+
     #
     # Utility
     #
-- 
2.43.0


From 5ec44fd35af1818cec4012a2aae9d9b67baf837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 32/71] fix: count regimes, not replaced equations

---
 pynare/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/regimes.py b/pynare/regimes.py
index de4466c..38bac62 100644
--- a/pynare/regimes.py
+++ b/pynare/regimes.py
@@ -65,7 +65,7 @@ class RegimeSwitchingModel(object):
         return self.models[key]
 
     def __len__(self):
-        return len(self.exprs) + 1
+        return len(self.models)
 
     def __repr__(self):
         return f"RegimeSwitchingModel(n={len(self)})"
-- 
2.43.0


From f3869d89536da853a97453f77ddad27c390f7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 33/71] fix: calibrations own their definitions, and keep them
 if a change is rejected

---
 pynare/core/variables.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 90080ee..989cacc 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -800,14 +800,11 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
-        self.defs = defs
+        # the collection that was passed belongs to the caller
+        self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
 
-        calib = {}
-        for k, v in self.defs.items():
-            if isinstance(v, float):
-                calib[k] = v
-            elif isinstance(v, ast.Num):
-                calib[k] = v.value
+        # number of times that parameters were set or deleted
+        self.n_changes = 0
 
         self.calib = solve_calibration(self.defs)
 
@@ -818,12 +815,18 @@ class ModelCalibration(MutableMapping):
             raise KeyError(f"'{key}' is not a parameter") from None
 
     def __setitem__(self, key, value):
-        self.defs[key] = value
-        self.calib = solve_calibration(self.defs) # inefficient
+        self._redefine({**self.defs, key: value})
 
     def __delitem__(self, key):
-        del self.defs[key]
-        del self.calib[key]
+        if key not in self.defs:
+            raise KeyError(f"'{key}' is not a parameter")
+        self._redefine({k: v for k, v in self.defs.items() if k != key})
+
+    def _redefine(self, defs):
+        # definitions that cannot be solved are rejected before anything is changed
+        self.calib = solve_calibration(defs) # inefficient
+        self.defs = defs
+        self.n_changes += 1
 
     def __iter__(self):
         return iter(self.calib)
-- 
2.43.0


From 7aac3553aaa14e13c90b471894fdc9bf98877c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 34/71] fix: equation lists copy what they are given and reject
 operations as a whole

---
 pynare/core/expressions.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index fecc636..18897bd 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -32,13 +32,18 @@ class ModelExprs(MutableSequence):
     def __init__(self, exprs: Iterable[AST, str] = []):
         super().__init__()
         if isinstance(exprs, ModelExprs):
-            self.exprs = exprs.exprs
-            self.exprs_str = exprs.exprs_str
+            # the collection that was passed belongs to the caller
+            self.exprs = list(exprs.exprs)
+            self.exprs_str = list(exprs.exprs_str)
 
         else:
+            exprs = list(exprs)
             self.exprs = [self.parse(ep) for ep in exprs]
             self.exprs_str = [ep if isinstance(ep, str) else '' for ep in exprs]
 
+        # number of times that expressions were inserted, replaced, or deleted
+        self.n_changes = 0
+
     @classmethod
     def parse(cls, obj):
         if isinstance(obj, str):
@@ -61,11 +66,19 @@ class ModelExprs(MutableSequence):
     def __delitem__(self, key):
         del self.exprs[key]
         del self.exprs_str[key]
+        self.n_changes += 1
 
     def __setitem__(self, key, obj):
-        parsed = self.parse(obj)
+        if isinstance(key, slice):
+            objs = list(obj)
+            parsed = [self.parse(o) for o in objs]
+            strs = [o if isinstance(o, str) else '' for o in objs]
+        else:
+            parsed, strs = self.parse(obj), obj if isinstance(obj, str) else ''
+
         self.exprs[key] = parsed
-        self.exprs_str[key] = obj if isinstance(obj, str) else ''
+        self.exprs_str[key] = strs
+        self.n_changes += 1
 
     def insert(self, key, obj):
         parsed = self.parse(obj)
@@ -73,10 +86,15 @@ class ModelExprs(MutableSequence):
 
         obj_str = obj if isinstance(obj, str) else ''
         self.exprs_str.insert(key, obj_str)
+        self.n_changes += 1
 
     def append(self, obj):
         self.insert(len(self), obj)
 
+    def extend(self, objs):
+        # either all expressions can be parsed or none is added
+        self[len(self):] = objs
+
     def __repr__(self):
         n_exprs = len(self.exprs)
         return f"ModelExprs({n_exprs} exprs)"
@@ -84,11 +102,12 @@ class ModelExprs(MutableSequence):
     def __str__(self):
         lhs, rhs = [], []
         for expr in self.exprs_str:
-            l, r = expr.split('=')
+            # expressions given as ASTs have no text, and '= 0' can be omitted
+            l, _, r = expr.partition('=')
             lhs.append(l.strip())
-            rhs.append(r.strip())
+            rhs.append(r.strip() or '0')
 
-        width = max(map(len, lhs))
+        width = max(map(len, lhs), default=0)
         pad = 4*' '
 
         heading = 'Model Expressions'
-- 
2.43.0


From d1a002fdeb380e2232aff0dcdc434ff187c67c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 35/71] fix: queries of an altered model answer for its current
 definition, including its stored solution

---
 pynare/core/generic.py            | 51 ++++++++++++++++++++++++++++---
 pynare/core/model.py              | 32 ++++++++++++++-----
 pynare/core/solve/second_order.py |  3 +-
 pynare/simul.py                   |  6 +---
 4 files changed, 74 insertions(+), 18 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 9344b27..60c47e7 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -74,6 +74,37 @@ class ModelSkeleton(object):
         else:
             return f"{class_}({len(self.endog)} endog)"
 
+    @property
+    def is_altered(self):
+        """
+        indicator for whether or not the definition of the model was altered since its
+        derived features were last updated. parameters, model expressions, and variables
+        can also be altered directly, without the `add_...` methods of the model
+        """
+        return self._is_altered or self._definition() != self._updated_definition
+
+    @is_altered.setter
+    def is_altered(self, altered):
+        self._is_altered = altered
+        if not altered:
+            self._updated_definition = self._definition()
+
+    def _definition(self):
+        """
+        a record of everything that the derived features of the model depend on, cheap
+        enough to be compared each time that one of those features is accessed
+        """
+        changes = [
+            getattr(getattr(self, attr, None), 'n_changes', 0)
+            for attr in ('params', 'local_params', 'exprs')
+        ]
+        endog = [(eg.name, eg.initial) for eg in self.endog]
+        stoch = [
+            (sc.name, sc.variance, sc.comovements) for sc in getattr(self, 'stoch', ())
+        ]
+
+        return changes, endog, stoch
+
     def add_endog(self, endog, **kwargs):
         """
         add one or more EndogVar objects to the `endog` attribute
@@ -150,6 +181,7 @@ class StructuredModel(ModelSkeleton):
         # list of ASTs or string expressions. set 'lead_lag' of endog vars
         self.exprs = ModelExprs(exprs)
         self.endog = set_lead_lags(self.endog, self.exprs)
+        self.is_altered = False
 
         # i don't particularly like passing a partially initialized model...
         self._steady_repr = SteadyRepr(self)
@@ -202,8 +234,17 @@ class StructuredModel(ModelSkeleton):
         return np.array([eg.initial for eg in self.endog], dtype=float)
 
     def update(self, *args, **kwargs):
+        # the features derived below access one another
         self.is_altered = False
 
+        try:
+            self._derive_features()
+        except Exception:
+            # nothing was derived from the current definition of the model
+            self.is_altered = True
+            raise
+
+    def _derive_features(self):
         self.endog = set_lead_lags(self.endog, self.exprs)
         self._steady_repr = SteadyRepr(self)
 
@@ -258,6 +299,8 @@ class DynamicModel(StructuredModel):
         else:
             self.determ = VarArray()
 
+        self.is_altered = False
+
         # prepare dynamic structural features of the model that are accessed via
         #   attributes of the same name, without the leading underscore
         self._indexes = VariableIndexManager(self.endog, self.stoch)
@@ -354,8 +397,10 @@ class DynamicModel(StructuredModel):
     @property
     def sigma(self):
         """returns the covariance matrix of the stochastic shocks"""
-        if self.is_altered or not hasattr(self, '_sigma'):
+        if self.is_altered:
             self.update()
+        elif not hasattr(self, '_sigma'):
+            self._sigma = self._define_sigma()
         return self._sigma
 
     @property
@@ -416,9 +461,7 @@ class DynamicModel(StructuredModel):
         return sig
 
 
-    def update(self, *args, **kwargs):
-        self.is_altered = False
-
+    def _derive_features(self):
         self.endog = set_lead_lags(self.endog, self.exprs)
         self._sigma = self._define_sigma()
 
diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..f848975 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -6,6 +6,7 @@ from functools import cached_property
 from pynare.core.variables import ModelCalibration
 from pynare.core.generic import DynamicModel
 from pynare.core.steady import SteadyState
+from pynare.core.solve.base import LinearSolution
 from pynare.core.solve import (
     FirstOrderSolution,
     SecondOrderSolution,
@@ -202,6 +203,7 @@ class Model(DynamicModel):
                 raise ValueError(f"unrecognized `order` value: {order}")
 
         self._solution = solution.solve(*args, **kwargs)
+        self._is_outdated = False
         return self._solution
 
 
@@ -286,6 +288,13 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    def update(self, *args, **kwargs):
+        super().update(*args, **kwargs)
+
+        # an existing solution was derived from a previous definition of the model
+        self._is_outdated = True
+
+
     @property
     def model_scope(self):
         return {**self.params, **self.local_params}
@@ -304,13 +313,21 @@ class Model(DynamicModel):
         """
         access the solution of the model. if the class method `solve` has not
         explicitly been called, then the default parameter values are used to
-        derive the solution
+        derive the solution. if the model was altered since it was solved, it is
+        solved again at the same order
         """
         try:
-            return self._solution
+            sol = self._solution
         except AttributeError:
-            _ = self.solve(order=default_order)
-            return self._solution
+            return self.solve(order=default_order)
+
+        if isinstance(sol, LinearSolution):
+            if self.is_altered:
+                self.update()
+            if self._is_outdated:
+                return self.solve(order=sol.order)
+
+        return sol
 
 
     @property
@@ -331,10 +348,9 @@ class Model(DynamicModel):
         solved at order 1, return. if the model is already solved at order 2, return
         the reference to `lower_solution`. if not solve, solve at default order
         """
-        try:
-            sol = self._solution
-        except AttributeError:
-            sol = self.solve(order=default_order)
+        sol = self.solution
+        if not isinstance(sol, LinearSolution):
+            return FirstOrderSolution(self).solve()
 
         if sol.order == 1:
             return sol
diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 1f1a49e..12fef2e 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -10,6 +10,7 @@ import numpy as np
 
 import pynare.utils.numpy as unp
 from pynare.core.solve.base import LinearSolution
+from pynare.core.solve.first_order import FirstOrderSolution
 from pynare.io.summary import SecondOrderSummary
 
 
@@ -22,7 +23,7 @@ class SecondOrderSolution(LinearSolution):
     def __init__(self, model: Model):
         super().__init__(model)
 
-        self.lower_solution = self.model.solve(order=1)
+        self.lower_solution = FirstOrderSolution(model).solve()
 
     def solve(self, *args, **kwargs):
 
diff --git a/pynare/simul.py b/pynare/simul.py
index f8e3630..c326821 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -153,7 +153,6 @@ class ModelSimulator(object):
 
     def __init__(self, model):
         self.model = model
-        self.model.update()
 
 
 
@@ -309,10 +308,7 @@ def simulate(
         solution = model.solve(order=order)
     else:
         # if no `order`, use existing solution if there is one. otherwise, default
-        try:
-            solution = model._solution
-        except AttributeError:
-            solution = model.solve()
+        solution = model.solution
 
     if isinstance(solution, LinearSolution):
         simulator = LinearSimulator(model)
-- 
2.43.0


From 62b7f2b4f846d805c371e6282c8b6cff6846f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 36/71] fix: copies of models keep model-local values and do
 not share shock moments

---
 pynare/core/generic.py | 11 +++++++++--
 pynare/core/model.py   |  5 +++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 60c47e7..fad8a3d 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -523,11 +523,18 @@ class DynamicModel(StructuredModel):
             stoch=stoch,
             determ=determ,
             params=copy.deepcopy(self.params),
-            shocks=shocks,
+            shocks=copy.deepcopy(shocks),
             exprs=copy.deepcopy(self.exprs),
             initial=init,
             terminal=term,
             historical=hist,
             language=self.language,
-            name=self.name
+            name=self.name,
+            **self._copied_attrs()
         )
+
+    def _copied_attrs(self):
+        """
+        additional keyword arguments that a subclass needs to recreate itself
+        """
+        return {}
diff --git a/pynare/core/model.py b/pynare/core/model.py
index f848975..1205c29 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -1,6 +1,7 @@
 
 from __future__ import annotations
 
+import copy
 from functools import cached_property
 
 from pynare.core.variables import ModelCalibration
@@ -295,6 +296,10 @@ class Model(DynamicModel):
         self._is_outdated = True
 
 
+    def _copied_attrs(self):
+        return {'local_params': copy.deepcopy(self.local_params)}
+
+
     @property
     def model_scope(self):
         return {**self.params, **self.local_params}
-- 
2.43.0


From ab9f661ae9170cba5451c773a6e6faa6000f70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 37/71] fix: occasionally binding paths use the policy matrices
 in declaration order, for any number of states and shocks

---
 pynare/core/solve/binding.py | 47 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..25a95bf 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -9,6 +9,8 @@ from scipy import linalg
 import numpy as np
 import warnings
 
+import pynare.utils.numpy as unp
+
 from pynare.parsing import parse_string, evaluate
 from pynare.regimes import RegimeSwitchingModel
 
@@ -159,7 +161,7 @@ class OccBinSolution(BindingSolution):
         self.constraint = Constraint(
             constraint,
             endog=model.endog,
-            params=model.params,
+            params=model.model_scope,
             exog=model.stoch
         )
 
@@ -270,7 +272,7 @@ def solve_occbin_one_constraint(
     """
 
     if len(constraint) != 1:
-        raise ValueError(f"n constraints = {len(constraints)}")
+        raise ValueError(f"n constraints = {len(constraint)}")
 
     # throws an error if endog, stoch, or params are misaligned between models
     _ensure_variables_match(ref, alt)
@@ -286,11 +288,7 @@ def solve_occbin_one_constraint(
     )
 
     # get the first-order decision rules in declaration order
-    idx = ref.indexes
-
-    gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy_dc[:, idx.state] = ref.first_order_solution.arrays.gy[idx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
+    gy_dc, gu_dc = _declaration_order_policy(ref)
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -443,11 +441,7 @@ def solve_occbin_two_constraints(
     )
 
     # get the first-order decision rules in declaration order
-    ridx = ref.indexes
-
-    gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy_dc[:, ridx.state] = ref.first_order_solution.arrays.gy[ridx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
+    gy_dc, gu_dc = _declaration_order_policy(ref)
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -622,14 +616,9 @@ def _simulate_hypothesized_paths(
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
 
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
-
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
@@ -735,14 +724,9 @@ def _simulate_hypothesized_paths_two_constraints(
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
 
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
-
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
@@ -827,6 +811,21 @@ def _process_occbin_parameters(
     return exog_idx, shocks, init, periods
 
 
+def _declaration_order_policy(model: Model):
+    """
+    the first-order policy matrices with rows, and columns of lagged endogenous variables,
+    in declaration order. the policy matrices of the solution are in decision-rule order
+    """
+    idx, sol = model.indexes, model.first_order_solution
+    gy, gu = unp.ensure_2darray((sol.gy, sol.gu))
+
+    gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
+    gy_dc[:, idx.dr_order[idx.dr.state]] = gy[idx.dc_order]
+    gu_dc = gu[idx.dc_order]
+
+    return gy_dc, gu_dc
+
+
 def _occbin_partitioned_jacobian(model: Model):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-- 
2.43.0


From a92b5d41b8ec0013b0fc54c607bb0cba87f95983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 38/71] fix: initial values can be passed when solving with
 occasionally binding constraints

---
 pynare/core/model.py         | 2 +-
 pynare/core/solve/binding.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 1205c29..2b7d621 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -180,7 +180,7 @@ class Model(DynamicModel):
 
             # occasionally-bound solutions are always conditional on shock paths
             exog, shocks = kwargs.pop('exog', None), kwargs.pop('shocks', 100)
-            init = kwargs.get('init', None)
+            init = kwargs.pop('init', None)
 
             solution = OccBinSolution(
                 self,
diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 25a95bf..a0811ab 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -774,6 +774,8 @@ def _process_occbin_parameters(
     # the first values of the endogenous variables over the time period
     if init is None:
         init = np.zeros(len(ref.endog), dtype=float)
+    else:
+        init = np.asarray(init, dtype=float)
 
     # by default, we shock the first stochastic variable
     if exog is None:
-- 
2.43.0


From d9a494df2dcceca4d229586cac6d98df3e3b1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 39/71] fix: solution summaries do not rely on a function that
 numpy removed

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..c6afb4b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -401,7 +401,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +532,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
-- 
2.43.0


From 334d3b1fe7ee892e4700bca32b3e685c3ccb3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 40/71] fix: label the state-shock coefficients of second-order
 summaries correctly

---
 pynare/io/summary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c6afb4b..d937d39 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -537,8 +537,7 @@ class SecondOrderSummary(SolutionSummary):
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
         gyx_idx = n_st*np.repeat(st_idx, n_st) + np.tile(st_idx, n_st)
-        gyu_idx = n_st*np.repeat(np.arange(n_exog), n_st) \
-            + np.tile(np.arange(n_st), n_exog)
+        gyu_idx = n_exog*np.repeat(st_idx, n_exog) + np.tile(np.arange(n_exog), n_st)
 
         gy = gy[:, st_idx]
         gyx = gyx[:, gyx_idx]
-- 
2.43.0


From 473100ad00be8a18c05474546dfed469da456e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 41/71] fix: second-order summaries display negative
 coefficients

---
 pynare/io/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index d937d39..b41a4a8 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -480,7 +480,7 @@ class SecondOrderSummary(SolutionSummary):
             thresh = 10**(-(self.sig + self.thresh))
         else:
             thresh = 10**(-self.sig)
-        tloc = ~np.all(arr_dc < thresh, axis=1)
+        tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
 
         # always display steady state and del2 array
         tloc[0] = True
-- 
2.43.0


From a8a4e47c1a5b3f3521590f8768770ec2a30b0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 42/71] fix: label autocorrelations with their lag

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index b41a4a8..b08e7a8 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -308,7 +308,7 @@ class ModelStatisticsSummary(Summary):
         arr = np.transpose(np.array([np.diagonal(arr) for arr in acr_3d]))
 
         # column labels to display
-        headings = [f"p = {i}" for i in range(self.autocorr)]
+        headings = [f"p = {i+1}" for i in range(self.autocorr)]
         arr_str = _summarize_array(
             arr=arr,
             labels=headings,
@@ -322,7 +322,7 @@ class ModelStatisticsSummary(Summary):
         labels = [en.ljust(lpad) for en in endog]
 
         # add heading and pad all rows
-        acr_str = ['autocovariance of endogenous variables:']
+        acr_str = ['autocorrelation of endogenous variables:']
         acr_str = acr_str + [''.join((l, a)) for l, a in zip(labels, arr_str)]
         delim = f"\n{self.pad}"
         return delim.join(acr_str)
-- 
2.43.0


From bfbcade8e37f5b3817c200d23ebf2ee77ecdd9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 43/71] fix: summaries of models whose parameters, shocks or
 coefficients are all zero

---
 pynare/core/variables.py |  9 ++++-----
 pynare/io/summary.py     | 38 ++++++++++++++++++++------------------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 989cacc..b6d2475 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -838,14 +838,13 @@ class ModelCalibration(MutableMapping):
         return f"ModelCalibration({len(self)} params)"
 
     def __str__(self):
-        width = max(map(len, self.calib)) + 1
+        width = max(map(len, self.calib), default=0) + 1
         sig, pad = 6, 4*' '
 
         # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(self.calib.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        values = np.absolute(list(self.calib.values()))
+        good = values[(values > 0) & np.isfinite(values)]
+        l = max(int(np.floor(np.log10(np.max(good)))), 0) + 3 if good.size else 3
 
         heading = 'ModelCalibration'
         string = [heading]
diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index b08e7a8..f7a6100 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -128,11 +128,7 @@ class ModelSummary(Summary):
         r, c, m = np.real(eigs), np.imag(eigs), np.absolute(eigs)
 
         # record number of points to left and right of decimal
-        arr = np.absolute(np.concatenate((r, c, m)))
-        good = (arr > 0) & np.isfinite(arr) & ~np.isnan(arr)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.max(np.log10(arr[good]))) + 3)
+        l = _left_digits(np.concatenate((r, c, m)))
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -155,12 +151,10 @@ class ModelSummary(Summary):
         print the covariance matrix of shocks
         """
         stoch = self.obj.stoch.names
-        lpad = max(map(len, stoch)) + 1
+        lpad = max(map(len, stoch), default=0) + 1
 
         # record number of points to left and right of decimal
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.nanmax(np.log10(np.absolute(self.obj.sigma)))) + 3)
+        l = _left_digits(self.obj.sigma)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -185,18 +179,16 @@ class ModelSummary(Summary):
             param_strs = ['model calibration:']
 
         else:
-            display = {p: self.obj.params[p] for p in self.params}
+            names = [self.params] if isinstance(self.params, str) else self.params
+            display = {p: self.obj.params[p] for p in names}
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-        width = max(map(len, display)) + 1
+        width = max(map(len, display), default=0) + 1
         sig, pad = self.sig, self.pad
 
         # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(display.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        l = _left_digits(list(display.values()))
 
         for k, v in display.items():
             row = '= '.join([pad+k.ljust(width), f"{v:{l+sig}.{sig}f}"])
@@ -626,6 +618,18 @@ class SecondOrderSummary(SolutionSummary):
 
 
 
+def _left_digits(values: np.ndarray):
+    """
+    number of points to left of the decimal of the largest number. '+3' factors in
+    minus signs
+    """
+    arr = np.absolute(values)
+    good = arr[(arr > 0) & np.isfinite(arr)]
+    if not good.size:
+        return 3
+    return max(int(np.floor(np.log10(np.max(good)))), 0) + 3
+
+
 def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
@@ -651,9 +655,7 @@ def _summarize_array(
     arr, labels = arr[:, pidx], labels[pidx]
 
     # number of points to right and left of decimal. `+3` factors in minus signs
-    with np.errstate(divide='ignore', invalid='ignore'):
-        # locally silence RuntimeWarnings about dividing by zero or infinity
-        l = int(np.fix(np.nanmax(np.log10(np.absolute(arr)))) + 3)
+    l = _left_digits(arr)
 
     # horizontal spacing determined by width of label variable name or float repr
     w = max([l+sig] + [len(lab) for lab in labels]) + 1
-- 
2.43.0


From a0eee5275a862eda0ff101fb64760220f41f90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 44/71] fix: plots of a single series, in a row, and with fewer
 subplots than series

---
 pynare/plotting/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 5666cc9..bd001d3 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -54,11 +54,11 @@ class PynarePlot(object):
 
         nplots = min(nsubs, self._nseries)
         for k in range(nplots):
-            ts = self.data[:, k]
-            label = self.labels[k]
+            sub = self.data[:, k::nsubs]
+            labels = self.labels[k::nsubs]
 
             ax = self.axes[k]
-            self._plot(ax, ts, label, **kwargs)
+            self._plot(ax, sub, labels, **kwargs)
 
 
     def arrange_plot(
@@ -93,6 +93,9 @@ class PynarePlot(object):
                     elif layout == 'column':
                         nrows, ncols = self._nseries, 1
 
+                    elif layout == 'row':
+                        nrows, ncols = 1, self._nseries
+
                     else:
                         raise ValueError(f"unrecognized value of layout: {layout}")
 
@@ -114,6 +117,9 @@ class PynarePlot(object):
         self.figure, self.axes = _generate_subplots(kwargs)
 
         if subplots:
+            # a single subplot is not wrapped in an array
+            self.axes = np.atleast_1d(self.axes)
+
             if len(self.axes.shape) == 1:
                 self._plot_column(**kwargs)
             else:
-- 
2.43.0


From 83786161863ad429e1b9b67b16149431661891b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 45/71] fix: find the bundled examples from any directory, and
 accept Path objects

---
 pynare/core/model.py        |  2 ++
 pynare/examples/__init__.py | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 2b7d621..8c3dcd6 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -85,6 +85,8 @@ class Model(DynamicModel):
         -------
         Model
         """
+        filepath = str(filepath)
+
         try:
             model_definition = read_file(filepath)
         except FileNotFoundError:
diff --git a/pynare/examples/__init__.py b/pynare/examples/__init__.py
index 2d3f698..2e43760 100644
--- a/pynare/examples/__init__.py
+++ b/pynare/examples/__init__.py
@@ -1,13 +1,14 @@
+import os
 
 class ExampleRegistry(object):
 
     _example_models = {
-        'simple_rbc': 'pynare/examples/pynare/simple_rbc.mod',
-        'simple_linear': 'pynare/examples/pynare/simple_linear.mod',
-        'optim_ck': 'pynare/examples/pynare/optim_ck.mod',
-        'basic_nk': 'pynare/examples/pynare/basic_nk.mod',
-        'four_eq_nk': 'pynare/examples/pynare/four_eq_nk.txt',
-        'herbst_schorfheide': 'pynare/examples/pynare/herbst_schorfheide.txt'
+        'simple_rbc': 'pynare/simple_rbc.mod',
+        'simple_linear': 'pynare/simple_linear.mod',
+        'optim_ck': 'pynare/optim_ck.mod',
+        'basic_nk': 'pynare/basic_nk.mod',
+        'four_eq_nk': 'pynare/four_eq_nk.txt',
+        'herbst_schorfheide': 'pynare/herbst_schorfheide.txt'
     }
 
     def __init__(self):
@@ -16,11 +17,16 @@ class ExampleRegistry(object):
     @classmethod
     def get_example(cls, ex_name):
         try:
-            return cls._example_models[ex_name]
+            return cls._path(cls._example_models[ex_name])
         except KeyError:
             # remove any '.x' from ex_name string and try again
             try:
                 cleaned_name = ex_name.split('.')[0]
-                return cls._example_models[cleaned_name]
+                return cls._path(cls._example_models[cleaned_name])
             except KeyError:
                 raise ValueError(f"unrecognized example name: {ex_name}")
+
+    @staticmethod
+    def _path(relative):
+        # the examples are located next to this module
+        return os.path.join(os.path.dirname(os.path.abspath(__file__)), relative)
-- 
2.43.0


From f41a84e9d534d105a38ea80369412fdb04c12f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 46/71] fix: keep the statements of every boundary and shocks
 block of a file

---
 pynare/parsing/ast.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/ast.py b/pynare/parsing/ast.py
index f3023bb..abd040a 100644
--- a/pynare/parsing/ast.py
+++ b/pynare/parsing/ast.py
@@ -337,7 +337,11 @@ class ModelActions(AST):
         self.boundaries.set_boundary(values, boundary)
 
     def set_shocks(self, shocks):
-        self.shocks = shocks
+        # statements of repeated blocks are read as if they were in one block
+        if self.shocks is None:
+            self.shocks = shocks
+        else:
+            self.shocks.extend(shocks._list)
 
 
 class ModelBoundaryValues(AST):
@@ -348,7 +352,12 @@ class ModelBoundaryValues(AST):
         self.histval = None
 
     def set_boundary(self, values, boundary):
-        setattr(self, boundary, values)
+        # statements of repeated blocks are read as if they were in one block
+        existing = getattr(self, boundary)
+        if existing is None:
+            setattr(self, boundary, values)
+        else:
+            existing.extend(values._list)
 
 
 class ShocksBlock(ArgCompoundASTList):
-- 
2.43.0


From 9dfacf4a05a45a251adca354ab2cfed3f36ad5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 47/71] fix: rank condition was met by arrays that are singular
 up to rounding errors

---
 pynare/core/solve/statespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index e421397..5203d20 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -62,8 +62,9 @@ class StateSpace(object):
             self.is_verified = False
             raise ModelIdentificationError('order', n_explosive, n_forward)
 
+        # an orthonormal array is partitioned, so the scale of its entries is known
         Z22 = self.zarrays.Z_22
-        if np.linalg.matrix_rank(Z22) != Z22.shape[0]:
+        if np.linalg.matrix_rank(Z22, tol=1e-9) != Z22.shape[0]:
             self.is_verified = False
             raise ModelIdentificationError('rank')
 
-- 
2.43.0


From 2ddd55b1cfb747968eaac6dfc0ee2dd56ae21eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 48/71] fix: the var function of the stats package was hidden
 by the var module

---
 pynare/stats/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/stats/__init__.py b/pynare/stats/__init__.py
index 775096f..1f55994 100644
--- a/pynare/stats/__init__.py
+++ b/pynare/stats/__init__.py
@@ -1,5 +1,7 @@
 """statistical properties of models"""
 
+# the `var` function is imported after the module that has the same name
+from pynare.stats.var import var_decomp
 from pynare.stats.moments import (
     mean,
     var,
@@ -9,7 +11,6 @@ from pynare.stats.moments import (
     autocorr,
     autocov
 )
-from pynare.stats.var import var_decomp
 from pynare.stats.filters import (
     filter_model,
     KalmanFilter
-- 
2.43.0


From 21c90c01f22772c23cc24753a33e3988157fc7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 49/71] fix: bundled examples are located from the package, not
 from their registry

---
 pynare/examples/__init__.py | 22 ++++++++--------------
 pynare/io/files.py          |  6 ++++++
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pynare/examples/__init__.py b/pynare/examples/__init__.py
index 2e43760..2d3f698 100644
--- a/pynare/examples/__init__.py
+++ b/pynare/examples/__init__.py
@@ -1,14 +1,13 @@
-import os
 
 class ExampleRegistry(object):
 
     _example_models = {
-        'simple_rbc': 'pynare/simple_rbc.mod',
-        'simple_linear': 'pynare/simple_linear.mod',
-        'optim_ck': 'pynare/optim_ck.mod',
-        'basic_nk': 'pynare/basic_nk.mod',
-        'four_eq_nk': 'pynare/four_eq_nk.txt',
-        'herbst_schorfheide': 'pynare/herbst_schorfheide.txt'
+        'simple_rbc': 'pynare/examples/pynare/simple_rbc.mod',
+        'simple_linear': 'pynare/examples/pynare/simple_linear.mod',
+        'optim_ck': 'pynare/examples/pynare/optim_ck.mod',
+        'basic_nk': 'pynare/examples/pynare/basic_nk.mod',
+        'four_eq_nk': 'pynare/examples/pynare/four_eq_nk.txt',
+        'herbst_schorfheide': 'pynare/examples/pynare/herbst_schorfheide.txt'
     }
 
     def __init__(self):
@@ -17,16 +16,11 @@ class ExampleRegistry(object):
     @classmethod
     def get_example(cls, ex_name):
         try:
-            return cls._path(cls._example_models[ex_name])
+            return cls._example_models[ex_name]
         except KeyError:
             # remove any '.x' from ex_name string and try again
             try:
                 cleaned_name = ex_name.split('.')[0]
-                return cls._path(cls._example_models[cleaned_name])
+                return cls._example_models[cleaned_name]
             except KeyError:
                 raise ValueError(f"unrecognized example name: {ex_name}")
-
-    @staticmethod
-    def _path(relative):
-        # the examples are located next to this module
-        return os.path.join(os.path.dirname(os.path.abspath(__file__)), relative)
diff --git a/pynare/io/files.py b/pynare/io/files.py
index e49ff68..d62a798 100644
--- a/pynare/io/files.py
+++ b/pynare/io/files.py
@@ -4,6 +4,8 @@ module for common I/O operations of pynare objects
 
 from __future__ import annotations
 
+from pathlib import Path
+
 from pynare.examples import ExampleRegistry
 
 
@@ -44,4 +46,8 @@ def read_example(
     the contents of the example file, as a string
     """
     example_path = ExampleRegistry.get_example(ex_name)
+
+    # registered paths start at the directory that contains the package
+    root = Path(__file__).resolve().parents[2]
+    example_path = root / example_path
     return read_file(example_path)
-- 
2.43.0


From be8bdb9b1e21edee96e979a2cf1d3216ecbf55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:50 +0000
Subject: [PATCH 50/71] fix: Hessians of powers with a variable exponent of
 zero

---
 pynare/parsing/base.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 6f33c96..9bc09d6 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 # use autograd's thinly wrapped numpy & scipy to handle ArrayBoxes when 
 #    evaluating derivatives
 import autograd.numpy as np
+from autograd.extend import Box, primitive, defvjp
 from autograd.scipy.special import erf
 
 import pynare.parsing.ast as ast
@@ -151,6 +152,21 @@ class ABCVisitor(object):
         raise Exception(f'No visit_{type(node).__name__} method')
 
 
+@primitive
+def _power(base, exponent):
+    """
+    power whose exponent is differentiated too. the derivative with respect to the base
+    that autograd defines for `**` is not differentiable where the exponent is zero
+    """
+    return base ** exponent
+
+defvjp(
+    _power,
+    lambda ans, x, y: lambda g: g * y * _power(x, y - 1),
+    lambda ans, x, y: lambda g: g * ans * np.log(np.where(x, x, 1.))
+)
+
+
 class BaseEvaluator(object):
 
     def __new__(
@@ -189,7 +205,10 @@ class _BaseEvaluator(ABCVisitor):
         elif node.op.type == DIV:
             return self.visit(node.left) / self.visit(node.right)
         elif node.op.type == POWER:
-            return self.visit(node.left) ** self.visit(node.right)
+            base, exponent = self.visit(node.left), self.visit(node.right)
+            if isinstance(exponent, Box):
+                return _power(base, exponent)
+            return base ** exponent
 
     def visit_CompOp(self, node):
         if node.op.type == LT:
-- 
2.43.0


From c24c451c2c0a226b86e89250b3c7b82c7e5747eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 51/71] fix: the steady state search starts at zero for
 variables without initial values

---
 pynare/core/steady.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pynare/core/steady.py b/pynare/core/steady.py
index 31763a9..f08fb90 100644
--- a/pynare/core/steady.py
+++ b/pynare/core/steady.py
@@ -107,6 +107,14 @@ def _define_simple_least_squares(M: Model):
     return _least_squares
 
 
+def _starting_values(M: Model):
+    """
+    the initial values of a model. variables whose only boundary values are terminal or
+    historical ones have no initial value, so the search starts at zero for them
+    """
+    return np.nan_to_num(M.initial)
+
+
 def minimize_dogleg(
     M: Model,
     **kwargs
@@ -155,7 +163,7 @@ def minimize_conjugate_gradient(
     were declared
     """
     obj_func = _define_simple_least_squares(M)
-    x0 = M.initial
+    x0 = _starting_values(M)
 
     return optim.minimize(
         fun=obj_func,
@@ -186,7 +194,7 @@ def minimize_nelder_mead(
     were declared
     """
     obj_func = _define_simple_least_squares(M)
-    x0 = M.initial
+    x0 = _starting_values(M)
 
     return optim.minimize(
         fun=obj_func,
-- 
2.43.0


From f7474d06bfbc53feebc45dee0a7f28be07d0ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:54 +0000
Subject: [PATCH 52/71] fix: alternative regimes are linearised around the
 reference steady state

---
 pynare/core/solve/binding.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index a0811ab..c5a20be 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -291,8 +291,8 @@ def solve_occbin_one_constraint(
     gy_dc, gu_dc = _declaration_order_policy(ref)
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt)
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ref.ss.values)
+    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt, ref.ss.values)
 
     # correction for alt regime due to linearizing around the reference one
     Dstar = alt.dynamic_repr(_translate_ss(ref.ss.values, alt))
@@ -444,10 +444,10 @@ def solve_occbin_two_constraints(
     gy_dc, gu_dc = _declaration_order_policy(ref)
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0)
-    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1)
-    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl)
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ref.ss.values)
+    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0, ref.ss.values)
+    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1, ref.ss.values)
+    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl, ref.ss.values)
 
     # correction for alt regimes due to linearizing around the reference one
     D_alt0 = alt0.dynamic_repr(_translate_ss(ref.ss.values, alt0))
@@ -828,12 +828,16 @@ def _declaration_order_policy(model: Model):
     return gy_dc, gu_dc
 
 
-def _occbin_partitioned_jacobian(model: Model):
+def _occbin_partitioned_jacobian(model: Model, ref_ss: np.ndarray):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-    period the endogenous variable corresponding to that column appears in
+    period the endogenous variable corresponding to that column appears in. every regime
+    is linearized around the steady state of the reference one
     """
-    J, idx = model.jacobian.array, model.indexes
+    idx = model.indexes
+
+    point = np.append(_translate_ss(ref_ss, model), np.zeros(len(model.stoch)))
+    J = np.array([func(point) for func in model.jacobian.linearized_funcs])
 
     # partition the jacobian based on whether the column is a derivative with respect
     #   to time t-1, t, or t+1 variables
-- 
2.43.0


From 002564ffaf005fe345e6635070ca41e4b19446e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:42 +0000
Subject: [PATCH 53/71] fix: absolute values and signs of whole numbers are
 real numbers

---
 pynare/parsing/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 9bc09d6..9fd36cc 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -262,10 +262,10 @@ class _BaseEvaluator(ABCVisitor):
             return np.sqrt(self.visit(node.expr))
 
         if f == ABS:
-            return np.abs(self.visit(node.expr))
+            return np.abs(1.0*self.visit(node.expr))
 
         if f == SIGN:
-            return np.sign(self.visit(node.expr))
+            return np.sign(1.0*self.visit(node.expr))
 
         if f == SIN:
             return np.sin(self.visit(node.expr))
-- 
2.43.0


From 9dcdaace800880f397d31020b61c161003a312f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:42 +0000
Subject: [PATCH 54/71] fix: layouts of simulation and impulse plots can be
 positional

---
 pynare/impulse.py | 2 --
 pynare/simul.py   | 2 --
 2 files changed, 4 deletions(-)

diff --git a/pynare/impulse.py b/pynare/impulse.py
index 66cc8bb..a46e500 100644
--- a/pynare/impulse.py
+++ b/pynare/impulse.py
@@ -37,8 +37,6 @@ class ImpulseResponse(object):
         **kwargs
     ):
         artist = PathPlot(self.impulse, self.model.endog)
-        kwargs.setdefault('layout', 'rect')
-
         return artist.plot(*args, **kwargs)
 
 
diff --git a/pynare/simul.py b/pynare/simul.py
index c326821..f781d6d 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -34,8 +34,6 @@ class ModelSimulation(object):
         **kwargs
     ):
         artist = PathPlot(self.paths, self.model.endog)
-        kwargs.setdefault('layout', 'rect')
-
         return artist.plot(*args, **kwargs)
 
 
-- 
2.43.0


From b0ff8fccbc81fbffeac39728efefabba315a7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:37 +0000
Subject: [PATCH 55/71] fix: rectangular plot layouts have no more rows than
 columns

---
 pynare/plotting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index bd001d3..d6f80c6 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -77,7 +77,7 @@ class PynarePlot(object):
 
                 if isinstance(layout, str):
                     if layout == 'rect':
-                        ncols, nrows = _factor_near_square_root(self._nseries)
+                        nrows, ncols = sorted(_factor_near_square_root(self._nseries))
 
                     elif layout == 'square':
                         n_vars = self._nseries
-- 
2.43.0


From 07b7b8e5e75caa960835b52a5eb93359f137106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 56/71] fix: plots on one subplot accept squeeze=False

---
 pynare/plotting/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index d6f80c6..9b6de20 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -126,7 +126,9 @@ class PynarePlot(object):
                 self._plot_grid(**kwargs)
 
         else:
-            self._plot(self.axes, self.data, self.labels, **kwargs)
+            # a single subplot that was not squeezed is wrapped in an array
+            ax = np.atleast_1d(self.axes).item()
+            self._plot(ax, self.data, self.labels, **kwargs)
 
         return self.axes
 
-- 
2.43.0


From 9b44e5b7101e98270f4fc221ef251c0b36dc8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:11 +0000
Subject: [PATCH 57/71] fix: accept the documented keywords of add_stoch and
 add_determ

---
 pynare/core/variables.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index b6d2475..83411b4 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -323,7 +323,8 @@ def _create_endog_vars(
 
 def _create_stoch_vars(
     names: Union[str, Iterable[str]],
-    shocks: dict = {}
+    shocks: dict = {},
+    **moments
 ):
     """
     create a single or list of StochVar objects
@@ -339,6 +340,8 @@ def _create_stoch_vars(
             `variance` : the variance of the shock `name`
             `corr`     : the correlation of `name` and `other`
             `cov`      : the covariance of `name` and `other`
+    moments : keyword arguments
+        moments, as above, of the variables which are not in `shocks`
 
     Returns
     -------
@@ -348,7 +351,7 @@ def _create_stoch_vars(
         type_ = type(shocks).__name__
         raise TypeError(f"{type_}. shock definitions must be a dict")
 
-    default_dict = {'variance': 1.0}
+    default_dict = moments or {'variance': 1.0}
     def _create_stoch(name):
         if isinstance(name, StochVar):
             return name
@@ -370,7 +373,8 @@ def _create_stoch_vars(
 
 def _create_determ_vars(
     names: Union[str, Iterable[str]],
-    shocks: dict = {}
+    shocks: dict = {},
+    **realized
 ):
     """
     create a single or list of DetermVar objects
@@ -384,6 +388,8 @@ def _create_determ_vars(
         with possible entries being:
             `periods` : the periods where the disturbances in `values` are realized
             `values`  : the values of disturbances to the exogenous variables
+    realized : keyword arguments
+        the same entries for the variables which are not in `shocks`
 
     Returns
     -------
@@ -393,7 +399,7 @@ def _create_determ_vars(
         type_ = type(shocks).__name__
         raise TypeError(f"{type_}. shock definitions must be a dict")
 
-    default_dict = {'periods': 0, 'values': 1}
+    default_dict = realized or {'periods': 0, 'values': 1}
     def _create_determ(name):
         if isinstance(name, DetermVar):
             return name
-- 
2.43.0


From efc23e02b72ace7529819c73f5eff868667f5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:38 +0000
Subject: [PATCH 58/71] fix: simulate models whose shocks have a singular
 covariance matrix

---
 pynare/simul.py       |  3 +--
 pynare/utils/numpy.py | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index f781d6d..031cd37 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -5,7 +5,6 @@ from __future__ import annotations
 
 import numpy as np
 import pandas as pd
-from scipy import linalg
 
 import pynare.utils.numpy as unp
 from pynare.core.solve.base import LinearSolution
@@ -328,7 +327,7 @@ def _generate_simul_shocks(
     matrix of the model's shocks and the number of periods
     """
 
-    corr_struct = linalg.cholesky(model.sigma)
+    corr_struct = np.transpose(unp.cholesky_psd(model.sigma))
 
     if shocks is None:
         n_exog = len(model.stoch)
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 273fe3b..ed0800d 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -602,6 +602,42 @@ def generalized_sylvester(
 
 
 
+def cholesky_psd(arr: np.ndarray):
+    """
+    the lower Cholesky factor of a symmetric positive semi-definite matrix. unlike the
+    scipy and numpy methods, this allows for singular matrices, e.g. the covariances of
+    variables that have no variance or that are perfectly correlated. the columns of the
+    factor that belong to such variables are zero
+
+    Parameters
+    ----------
+    arr : np.ndarray
+        square symmetric matrix
+
+    Returns
+    -------
+    chol : np.ndarray
+        lower triangular matrix `L` that satisfies `arr = L * L^t`
+    """
+    n = arr.shape[0]
+    scale = np.sqrt(np.abs(np.diag(arr)))
+    chol = np.zeros((n, n), dtype=float)
+
+    for j in range(n):
+        resid = arr[j:, j] - np.matmul(chol[j:, :j], chol[j, :j])
+        tol = 1e-14 * n * arr[j, j]
+
+        if resid[0] > tol:
+            chol[j:, j] = resid / np.sqrt(resid[0])
+        elif not (
+            resid[0] >= -tol and (np.abs(resid[1:]) <= 1e-6*scale[j]*scale[j+1:]).all()
+        ):
+            raise np.linalg.LinAlgError("array is not positive semi-definite")
+
+    return chol
+
+
+
 def inv_sym_pd(arr: np.ndarray):
     """
     quickly invert a symmetric positive definite matrix. curiously, scipy and numpy
-- 
2.43.0


From d3137fce65052e59a7d8cd6a9ba5031e6b0aa427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:37 +0000
Subject: [PATCH 59/71] fix: remember the location of every reserved word

---
 pynare/parsing/lexer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 0c987d7..6c9f88f 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -145,11 +145,11 @@ class BaseLexer(object):
             result += self.current_char
             self.advance()
         try:
-            token = self.reserved_kw[result]
+            reserved = self.reserved_kw[result]
         except KeyError:
-            token = base.reserved_funcs.get(result, Token(base.ID, result))
-        token.assign_loc(self.current_line, self.line_pos)
-        return token
+            reserved = base.reserved_funcs.get(result, Token(base.ID, result))
+        # reserved words can appear many times, each time at a different location
+        return Token(reserved.type, reserved.value, self.current_line, self.line_pos)
 
     def _number(self):
         """
-- 
2.43.0


From f18ac303f129de2fe62bc251f89e436ce74f1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:37 +0000
Subject: [PATCH 60/71] fix: report the line of malformed numbers

---
 pynare/parsing/lexer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c9f88f..639ae61 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -163,7 +163,10 @@ class BaseLexer(object):
         ):
             result += self.current_char
             self.advance()
-        num = float(result)
+        try:
+            num = float(result)
+        except ValueError:
+            self.error(result)
         return Token(base.NUMBER, num, self.current_line, self.line_pos)
 
     def _string(self, quote):
-- 
2.43.0


From 950fde9201694c2a4f17879ee191171142d34a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:37 +0000
Subject: [PATCH 61/71] fix: report where files end in the middle of a shock

---
 pynare/parsing/lexer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 639ae61..dc8607c 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -99,10 +99,8 @@ class BaseLexer(object):
 
     def see_future_token(self, k):
         future_pos = (self.token_pos - 1) + k
-        if future_pos > len(self.token_stream) - 1:
-            raise SyntaxError('Trying to look too far into the future.')
-        else:
-            return self.token_stream[future_pos]
+        # there is nothing but the end of the file after the last token
+        return self.token_stream[min(future_pos, len(self.token_stream) - 1)]
 
     def see_next_token(self):
         """
-- 
2.43.0


From ebe03213a685e6a590c6a775b596da57cec74b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:37 +0000
Subject: [PATCH 62/71] fix: name undeclared variables in boundary and shocks
 blocks

---
 pynare/parsing/semantics.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index bab3ece..706e1e8 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -297,7 +297,10 @@ class DynareSemanticAnalyzer(ABCVisitor):
             var_name = assignment.left.value
             var_symbol = self.current_scope.lookup(var_name)
 
-            if var_symbol.stype.name != dyn.VAR:
+            if var_symbol is None:
+                self._undeclared(assignment.left)
+
+            if getattr(var_symbol.stype, 'name', None) != dyn.VAR:
                 token = assignment.left.token
                 raise TypeError(
                     f'row {token.line_number}, column {token.line_pos}. '
@@ -309,12 +312,25 @@ class DynareSemanticAnalyzer(ABCVisitor):
             self.visit(assignment.right)
 
 
-    def _check_shock_declaration(self, shock_sym, shock_def):
-        if shock_sym.stype.name not in (dyn.VAREXO, dyn.VAREXO_DET):
-            token = shock_def.shock.token
+    def _undeclared(self, var_node):
+        token = var_node.token
+        raise NameError(
+            f'row {token.line_number}, column {token.line_pos}. '
+            f'name {var_node.value} was not declared'
+        )
+
+
+    def _check_shock_declaration(self, shock):
+        shock_sym = self.current_scope.lookup(shock.value)
+        if shock_sym is None:
+            self._undeclared(shock)
+
+        stype = getattr(shock_sym.stype, 'name', None)
+        if stype not in (dyn.VAREXO, dyn.VAREXO_DET):
+            token = shock.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
-                f'variable {repr(shock_sym)} was not declared as exogenous. '
+                f'variable {repr(shock.value)} was not declared as exogenous. '
                 'Cannot assign as a shock'
             )
 
@@ -325,18 +341,14 @@ class DynareSemanticAnalyzer(ABCVisitor):
         for sdef in node._list:
 
             # check that shock was declared as exogenous
-            shock_name = sdef.shock.value
-            shock_symbol = self.current_scope.lookup(shock_name)
-            self._check_shock_declaration(shock_symbol, sdef)
+            self._check_shock_declaration(sdef.shock)
 
             # check that moment expression is valid
             self.visit(sdef.expr)
 
             # check correlated shock, if it exists
             if sdef.shock_type in ('correlated', 'covarying'):
-                other_name = sdef.other.value
-                other_symbol = self.current_scope.lookup(other_name)
-                self._check_shock_declaration(other_symbol, sdef)
+                self._check_shock_declaration(sdef.other)
 
 
     #
-- 
2.43.0


From bbbab2a6565ef82eca47ca6f63cd3740e021b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:37 +0000
Subject: [PATCH 63/71] fix: let non-model variables be assigned again

---
 pynare/parsing/semantics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 706e1e8..98831df 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -204,8 +204,10 @@ class DynareSemanticAnalyzer(ABCVisitor):
             self.current_scope.insert(var_symbol)
 
         else:
-            # we don't want to assign values to non-parameter values
-            if var_symbol.stype.name != 'parameters':
+            # we don't want to assign values to non-parameter values. variables that
+            #    are not a part of the model can be assigned more than once
+            stype = getattr(var_symbol.stype, 'name', var_symbol.stype)
+            if stype not in ('parameters', 'non_model'):
                 token = node.left.token
                 raise TypeError(
                     f'row {token.line_number}, column {token.line_pos}. '
-- 
2.43.0


From 597afa95bd7cc965c82e4654802cef70d1eaedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:56 +0000
Subject: [PATCH 64/71] fix: accept shocks to one variable as a vector or as a
 column

---
 pynare/core/solve/binding.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index c5a20be..8cf3f33 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -610,11 +610,7 @@ def _simulate_hypothesized_paths(
 
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
-    if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
-    else:
-        for i, ex in enumerate(exog_idx):
-            innovs[ex] = shock[i]
+    innovs[np.array(exog_idx, dtype=int, ndmin=1)] = shock
 
     # shocks to exogenous variables
     if last_bound > -1:
@@ -718,11 +714,7 @@ def _simulate_hypothesized_paths_two_constraints(
 
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
-    if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
-    else:
-        for i, ex in enumerate(exog_idx):
-            innovs[ex] = shock[i]
+    innovs[np.array(exog_idx, dtype=int, ndmin=1)] = shock
 
     # shocks to exogenous variables
     if last_bound > -1:
@@ -792,8 +784,8 @@ def _process_occbin_parameters(
             ) from None
 
     except IndexError:
-        if not isinstance(exog_idx, int):
-            n = len(exog_idx)
+        n = 1 if isinstance(exog_idx, int) else len(exog_idx)
+        if n != 1:
             raise ValueError(
                 f"'exog' implies {n} exog vars, but the size of 'shocks' implies 1"
             ) from None
-- 
2.43.0


From 5772285d8d31edba2562889baa0570a7d0bac630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:56 +0000
Subject: [PATCH 65/71] fix: tell models without regimes from regime-switching
 ones

---
 pynare/core/solve/binding.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 8cf3f33..f7872f0 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -158,17 +158,23 @@ class OccBinSolution(BindingSolution):
         else:
             self.model = model
 
+        # assume first model is reference regime
+        if isinstance(self.model, RegimeSwitchingModel):
+            ref = self.model[0]
+        else:
+            ref = self.model
+
         self.constraint = Constraint(
             constraint,
-            endog=model.endog,
-            params=model.model_scope,
-            exog=model.stoch
+            endog=ref.endog,
+            params=ref.model_scope,
+            exog=ref.stoch
         )
 
         # occbin solutions are conditional on the shocks to the model & the starting
         #   location of the endog vars, so we receive them upon initialization
         _, shocks, init, _ = _process_occbin_parameters(
-            ref=self.model[0], # assume first model is reference regime
+            ref=ref,
             exog=exog,
             shocks=shocks,
             init=init,
-- 
2.43.0


From 50dfb7d0ad7f5c6b34a0657611f47166715f58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:56 +0000
Subject: [PATCH 66/71] fix: accept Constraint objects in constrained solutions

---
 pynare/core/solve/binding.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index f7872f0..e349231 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -164,12 +164,15 @@ class OccBinSolution(BindingSolution):
         else:
             ref = self.model
 
-        self.constraint = Constraint(
-            constraint,
-            endog=ref.endog,
-            params=ref.model_scope,
-            exog=ref.stoch
-        )
+        if isinstance(constraint, Constraint):
+            self.constraint = constraint
+        else:
+            self.constraint = Constraint(
+                constraint,
+                endog=ref.endog,
+                params=ref.model_scope,
+                exog=ref.stoch
+            )
 
         # occbin solutions are conditional on the shocks to the model & the starting
         #   location of the endog vars, so we receive them upon initialization
-- 
2.43.0


From 8ca44650fc90e78143ab3ae54d9b90304fcffe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 67/71] fix: keep the model's linear solution when solving
 under constraints

---
 pynare/core/solve/binding.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index e349231..477e85d 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -15,6 +15,7 @@ from pynare.parsing import parse_string, evaluate
 from pynare.regimes import RegimeSwitchingModel
 
 from pynare.core.solve.base import ModelSolution
+from pynare.core.solve.first_order import FirstOrderSolution
 from pynare.utils.dtypes import is_iterable_not_str
 
 from pynare.errors import ModelVarError
@@ -808,9 +809,6 @@ def _process_occbin_parameters(
             )
             warnings.warn(msg)
 
-    else:
-        _ = ref.solve(order=1)
-
     return exog_idx, shocks, init, periods
 
 
@@ -819,7 +817,13 @@ def _declaration_order_policy(model: Model):
     the first-order policy matrices with rows, and columns of lagged endogenous variables,
     in declaration order. the policy matrices of the solution are in decision-rule order
     """
-    idx, sol = model.indexes, model.first_order_solution
+    # the linear solution of the model, if it has any, is not replaced
+    if model.solution_order:
+        sol = model.first_order_solution
+    else:
+        sol = FirstOrderSolution(model).solve()
+
+    idx = model.indexes
     gy, gu = unp.ensure_2darray((sol.gy, sol.gu))
 
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-- 
2.43.0


From b4159af50def235b72344b598a39a18e180585b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:51 +0000
Subject: [PATCH 68/71] fix: variance decompositions of models whose shocks are
 small

---
 pynare/stats/var.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 56c6d53..a3a9718 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -66,10 +66,8 @@ def var_decomp(
     gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order, :]
     g_xtp1x, g_utp1 = md.statespace.kalman_transition
 
-    # perturb and decompose variance matrix
-    decomp_tol = 1e-12
-    perturb_sigma = md.sigma + decomp_tol*np.eye(*md.sigma.shape, dtype=float)
-    sig_chol = linalg.cholesky(perturb_sigma, lower=True)
+    # decompose variance matrix, which is allowed to be singular
+    sig_chol = unp.cholesky_psd(md.sigma)
 
     state_chol = np.matmul(g_utp1, sig_chol)
     gu_chol = np.matmul(gu_dc, sig_chol)
-- 
2.43.0


From c720e018883e882eeb8eb997f2d003ee8a546e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:04 +0000
Subject: [PATCH 69/71] fix: variables whose names python reserves

---
 pynare/core/expressions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 18897bd..695f253 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -8,6 +8,7 @@ from collections.abc import MutableSequence
 from functools import cached_property
 
 import inspect
+import keyword
 import functools
 import numpy as np
 
@@ -560,6 +561,13 @@ def ensure_parameter(
     # translates an iterable of strings into a tuple of inspect.Parameter
     #    of type `kind`
     param_kind = getattr(inspect.Parameter, kind)
+
+    # variables can have names that python reserves, like 'lambda', and those parameters
+    #    are named by their position instead
+    names = [
+        n if n.isidentifier() and not keyword.iskeyword(n) else f"_{i}"
+        for i, n in enumerate(names)
+    ]
     return tuple([inspect.Parameter(n, kind=param_kind) for n in names])
 
 
-- 
2.43.0


From e7b4b7f3a55beb12615d3fffd5d8acc257696ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:45 +0000
Subject: [PATCH 70/71] fix: determinate models whose equations have different
 scales

---
 pynare/core/solve/statespace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 5203d20..6b0c141 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -139,7 +139,11 @@ def _compute_structural_state_space(model: Model):
     """
     indexes = model.indexes
 
+    # equations can be written in any units, which do not change the solution. in these
+    #   units their coefficients are of comparable size
     J = model.jacobian.array
+    largest = np.max(np.abs(J), axis=1)
+    J = J / np.exp2(np.round(np.log2(np.where(largest > 0, largest, 1))))[:, np.newaxis]
 
     ns = indexes.static_timed[0]
     if ns.size:
-- 
2.43.0


From 6adb362f0b397b52ef4593e701ccee323592c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:20 +0000
Subject: [PATCH 71/71] fix: variances that are rounded to below zero

---
 pynare/stats/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index 6438a82..039fce9 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -84,7 +84,8 @@ def var(md: Model):
     var : np.ndarray
         a vector of length len(md.endog)
     """
-    return np.diag(cov(md))
+    # a variable that never moves can have a variance that is rounded to below zero
+    return np.maximum(np.diag(cov(md)), 0.0)
 
 
 
-- 
2.43.0

