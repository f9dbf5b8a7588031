From 93709e33622e36390a6942b52bfecaa76d0e7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 01/88] fix: format long AND/OR chains without exponential work

Rendering a broken-up condition first rendered it on one line and threw the
result away, at every level of the chain.
---
 sqlvalidator/grammar/sql.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..3c7bc06 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1457,10 +1457,11 @@ class BooleanCondition(Expression):
         self.args = args
 
     def transform(self, with_newline=False):
-        join_str = " {} ".format(self.type.upper())
-        transformed_condition = join_str.join(map(transform, self.args))
-        if len(transformed_condition) < DEFAULT_LINE_LENGTH and with_newline is False:
-            return transformed_condition
+        if with_newline is False:
+            join_str = " {} ".format(self.type.upper())
+            transformed_condition = join_str.join(map(transform, self.args))
+            if len(transformed_condition) < DEFAULT_LINE_LENGTH:
+                return transformed_condition
 
         join_str = "\n{} ".format(self.type.upper())
         transformed_args = []
-- 
2.43.0


From e4d1c81d2bae26249940c53aee994fc18bf64078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 02/88] fix: keep RESPECT NULLS in ARRAY_AGG

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..fba41c1 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -630,7 +630,7 @@ class ExpressionParser:
 
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens,
-                        stop_words=[")", "ignore", "respects", "order", "limit"],
+                        stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
                     column, _ = ExpressionParser.parse(
-- 
2.43.0


From 8e3b4b6986778a1f880022bb1e6f5396548d31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 03/88] fix: keep what follows a comparison or bitwise operator

Only one comparison, BETWEEN or bitwise operator was read per expression, so
a || b || c, a & 4 = 4, or x NOT BETWEEN 1 AND 2 lost their remainder, and
NOT LIKE kept the input's case.
---
 sqlvalidator/grammar/lexer.py | 45 +++++++++++++++--------------------
 sqlvalidator/grammar/sql.py   |  2 +-
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index fba41c1..a155dae 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -826,7 +826,11 @@ class ExpressionParser:
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
-        if lower(next_token) in Condition.PREDICATES:
+        while (
+            lower(next_token) in Condition.PREDICATES
+            or lower(next_token) == "between"
+            or next_token in BitwiseOperation.OPERATORS
+        ):
             first_token = None
             symbol = next_token
             if lower(next_token) == "is":
@@ -837,8 +841,8 @@ class ExpressionParser:
                     first_token = next_next_token
             elif lower(next_token) == "not":
                 next_next_token = next(tokens)
-                if lower(next_next_token) == "in":
-                    symbol = "not in"
+                if lower(next_next_token) in ("in", "like", "between"):
+                    symbol = "not {}".format(lower(next_next_token))
                 else:
                     first_token = next_next_token
 
@@ -848,29 +852,18 @@ class ExpressionParser:
                 until_one_of=until_one_of,
                 first_token=first_token,
             )
-            expression = Condition(expression, symbol, right_hand)
-        elif lower(next_token) == "between":
-            symbol = next_token
-            right_hand_left, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            if lower(next_token) != "and":
-                raise ParsingError("expected AND")
-            right_hand_right, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            right_hand = BooleanCondition(
-                "and",
-                right_hand_left,
-                right_hand_right,
-            )
-            expression = Condition(expression, symbol, right_hand)
-        elif next_token in BitwiseOperation.OPERATORS:
-            operator = next_token
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            expression = BitwiseOperation(expression, operator, right_hand)
+            if lower(symbol) in ("between", "not between"):
+                if lower(next_token) != "and":
+                    raise ParsingError("expected AND")
+                right_hand_right, next_token = ExpressionParser.parse(
+                    tokens, is_right_hand=True, until_one_of=until_one_of
+                )
+                right_hand = BooleanCondition("and", right_hand, right_hand_right)
+
+            if symbol in BitwiseOperation.OPERATORS:
+                expression = BitwiseOperation(expression, symbol, right_hand)
+            else:
+                expression = Condition(expression, symbol, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
             left_hand = expression
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3c7bc06..54d8a1a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1437,7 +1437,7 @@ class Condition(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
-        if self.predicate.lower() == "between":
+        if self.predicate.lower() in ("between", "not between"):
             errors += self.right_hand.validate(known_fields, is_between_predicate=True)
         else:
             errors += self.right_hand.validate(known_fields)
-- 
2.43.0


From b1808f07a5a43713c1aae8d3c87d57eb2768e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 04/88] fix: keep operators and fields that follow an index on
 a call or array

---
 sqlvalidator/grammar/lexer.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index a155dae..2e800ab 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -799,11 +799,19 @@ class ExpressionParser:
             )
             next_token = next(tokens, None)
 
-        while next_token == ".":
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, until_one_of=until_one_of, is_chained_columns=True
-            )
-            expression = ChainedColumns(expression, right_hand)
+        while next_token in (".", "["):
+            if next_token == ".":
+                right_hand, next_token = ExpressionParser.parse(
+                    tokens, until_one_of=until_one_of, is_chained_columns=True
+                )
+                expression = ChainedColumns(expression, right_hand)
+            else:
+                argument_tokens, next_token = get_tokens_until_one_of(
+                    tokens, stop_words=["]"]
+                )
+                arguments = ExpressionListParser.parse(iter(argument_tokens))
+                expression = Index(expression, arguments)
+                next_token = next(tokens, None)
 
         if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
             left_hand = expression
@@ -815,14 +823,6 @@ class ExpressionParser:
             )
             expression = ArithmaticOperator(symbol, left_hand, right_hand)
 
-        while next_token == "[":
-            argument_tokens, next_token = get_tokens_until_one_of(
-                tokens, stop_words=["]"]
-            )
-            arguments = ExpressionListParser.parse(iter(argument_tokens))
-            expression = Index(expression, arguments)
-            next_token = next(tokens, None)
-
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
-- 
2.43.0


From 9a0502301e1f9961b09a1a9ac1f3ac15c9a0ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 05/88] fix: read string literals with escaped, doubled or
 mixed quotes whole

---
 sqlvalidator/grammar/tokeniser.py | 50 ++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..52fd6f5 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -136,17 +136,37 @@ def merge_stream(s, goals):
             yield next_element
 
 
-def _split_on_string_token(token: str, value: str):
-    split_result = split_with_sep(value, token)
-    in_str = False
-    for elem in split_result:
-        if elem == token:
-            in_str = not in_str
-            yield elem
-        elif in_str is True:
-            yield elem
+def _closing_quote_index(value: str, quote: str, start: int) -> int:
+    index = start
+    while index < len(value):
+        if value[index] == "\\":
+            index += 2
+        elif value[index] != quote:
+            index += 1
+        elif value[index + 1 : index + 2] == quote:
+            # A doubled quote stands for the quote itself
+            index += 2
         else:
-            yield from split_tokens(elem)
+            return index
+    return len(value)
+
+
+def _split_on_strings(value: str):
+    while value:
+        starts = [value.index(token) for token in STRING_SPLIT_TOKENS if token in value]
+        start = min(starts, default=len(value))
+        if start > 0:
+            yield from split_tokens(value[:start])
+        if start == len(value):
+            return
+        quote = value[start]
+        end = _closing_quote_index(value, quote, start + 1)
+        yield quote
+        if end > start + 1:
+            yield value[start + 1 : end]
+        if end < len(value):
+            yield quote
+        value = value[end + 1 :]
 
 
 def _split_on_whitespace_token(token: str, value: str):
@@ -164,13 +184,9 @@ def _split_on_kept_token(token: str, value: str):
 
 
 def split_tokens(value: str):
-    for string_token in sorted(
-        STRING_SPLIT_TOKENS,
-        key=lambda token: value.index(token) if token in value else (len(value) + 1),
-    ):
-        if string_token in value:
-            yield from _split_on_string_token(string_token, value)
-            return
+    if any(string_token in value for string_token in STRING_SPLIT_TOKENS):
+        yield from _split_on_strings(value)
+        return
 
     for whitespace_token in WHITESPACE_SPLIT_TOKENS:
         if whitespace_token in value:
-- 
2.43.0


From 460755e83fc3f681f426d541c61ac53b4c1068b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 06/88] fix: do not read keywords, brackets and commas inside
 string literals as SQL

---
 sqlvalidator/grammar/lexer.py     | 12 +++++++-----
 sqlvalidator/grammar/tokeniser.py | 24 +++++++++++++++++++++---
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 2e800ab..b21cc6a 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
@@ -511,10 +512,13 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
+        open_quote = None
         while next_token is not None:
             expression_tokens.append(next_token)
-            if next_token == "(":
+            open_quote = get_open_quote(next_token, open_quote)
+            if open_quote is not None:
+                pass
+            elif next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
                 count_parenthesis -= 1
@@ -522,15 +526,13 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
+                and open_quote is None
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 52fd6f5..7c941b8 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,13 +25,26 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def get_open_quote(token: Optional[str], open_quote: Optional[str]) -> Optional[str]:
+    """Quote of the string that is open after the token, if any."""
+    if open_quote is not None:
+        return None if token == open_quote else open_quote
+    return token if token in STRING_SPLIT_TOKENS else None
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
-    while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
+    open_quote = None
+    while next_token is not None and not (
+        next_token == ")" and count_parenthesis == 0 and open_quote is None
+    ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        open_quote = get_open_quote(next_token, open_quote)
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
@@ -48,8 +61,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
     count_case_expr = 0 if first_token != "case" else 1
+    open_quote = get_open_quote(first_token, None)
     while next_token is not None and not (
         lower(next_token) in stop_words
+        and open_quote is None
         and count_parenthesis <= 0
         and count_square_brackets <= 0
         and count_case_expr <= 0
@@ -59,7 +74,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        open_quote = get_open_quote(next_token, open_quote)
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
-- 
2.43.0


From db3814c5d08dd834a602781cddf84820338bb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 07/88] fix: split !=, ||, & and ^ from operands written
 against them

---
 sqlvalidator/grammar/tokeniser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 7c941b8..7a49a51 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -16,6 +16,10 @@ KEPT_SPLIT_TOKENS = (
     "=",
     "<",
     ">",
+    "!",
+    "|",
+    "&",
+    "^",
     ".",
 )
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
-- 
2.43.0


From 9eea3e27e6425c34e59dc8de4880963e49cad83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 08/88] fix: keep the text of numbers and yes/no constants

---
 sqlvalidator/grammar/lexer.py | 4 ++--
 sqlvalidator/grammar/sql.py   | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index b21cc6a..077a018 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -735,14 +735,14 @@ class ExpressionParser:
                 )  # left item will not always be a column
                 next_token = next(tokens, None)
             elif next_token is not None and main_token == "-" and next_token.isdigit():
-                expression = Integer(-int(next_token))
+                expression = Integer(main_token + next_token)
                 next_token = next(tokens, None)
             elif (
                 next_token is not None
                 and main_token == "-"
                 and next_token.replace(".", "").isdigit()
             ):
-                expression = Float(-float(next_token))
+                expression = Float(main_token + next_token)
                 next_token = next(tokens, None)
             elif (
                 lower(main_token) in String.PREFIXES
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 54d8a1a..a07ae14 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -904,9 +904,10 @@ class String(Expression):
 class Integer(Expression):
     def __init__(self, value):
         super().__init__(int(value))
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
@@ -916,9 +917,10 @@ class Integer(Expression):
 class Float(Expression):
     def __init__(self, value):
         super().__init__(float(value))
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
@@ -953,6 +955,7 @@ class Boolean(Expression):
     def __init__(self, value):
         value = lower(value)
         assert value in self.BOOLEAN_VALUES
+        self.text = value.upper()
         if value in self.TRUE_VALUES:
             value = True
         else:
@@ -960,7 +963,7 @@ class Boolean(Expression):
         super().__init__(value)
 
     def __str__(self):
-        return str(self.value).upper()
+        return self.text
 
     @property
     def return_type(self):
-- 
2.43.0


From c60e03947fce8bf4e40b523629cee192624707df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 09/88] fix: format AND/OR inside THEN, GROUP BY and ORDER BY
 instead of failing

---
 sqlvalidator/grammar/sql.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a07ae14..dbc9569 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -58,7 +58,7 @@ class SelectStatement:
             statement_str += " DISTINCT"
             if self.select_distinct_on:
                 statement_str += " ON ({})".format(
-                    ", ".join(map(str, self.select_distinct_on))
+                    ", ".join(map(transform, self.select_distinct_on))
                 )
 
         if len(self.expressions) == 1:
@@ -291,7 +291,7 @@ class GroupByClause(Expression):
 
     def __str__(self):
         if len(self.args) > 1:
-            group_by_str = "\n{}".format(",\n".join(map(str, self.args))).replace(
+            group_by_str = "\n{}".format(",\n".join(map(transform, self.args))).replace(
                 "\n", "\n "
             )
         else:
@@ -374,10 +374,10 @@ class OrderByClause(Expression):
     def transform(self, allow_linebreak=True):
         if len(self.args) > 1:
             if allow_linebreak:
-                order_by_str = "\n" + ",\n".join(map(str, self.args))
+                order_by_str = "\n" + ",\n".join(map(transform, self.args))
                 order_by_str = order_by_str.replace("\n", "\n ")
             else:
-                order_by_str = " " + ", ".join(map(str, self.args))
+                order_by_str = " " + ", ".join(map(transform, self.args))
         else:
             order_by_str = " " + transform(self.args[0])
         return order_by_str
@@ -408,7 +408,7 @@ class OrderByItem(Expression):
         self.has_desc = has_desc
 
     def __str__(self):
-        order_by_item_str = str(self.value)
+        order_by_item_str = transform(self.value)
         if self.has_asc:
             order_by_item_str += " ASC"
         elif self.has_desc:
@@ -452,7 +452,7 @@ class LimitClause(Expression):
         if self.limit_all:
             limit_str = "ALL"
         else:
-            limit_str = str(self.value)
+            limit_str = transform(self.value)
         return limit_str
 
     def __repr__(self):
@@ -1102,7 +1102,7 @@ class ArithmaticOperator(Expression):
 
     def __str__(self):
         join_str = " {} ".format(self.operator)
-        return join_str.join(map(str, self.args))
+        return join_str.join(map(transform, self.args))
 
     def __repr__(self):
         return "<{} {}: {}>".format(
@@ -1593,7 +1593,7 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {then}"
+            when_then_str += f"THEN {transform(then)}"
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
-- 
2.43.0


From aab9fce666902349b926978b5171a0397fde63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 10/88] fix: keep the operand of a unary sign and of the modulo
 operator

---
 sqlvalidator/grammar/lexer.py | 37 +++++++++++++++++++++++------------
 sqlvalidator/grammar/sql.py   | 28 ++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 077a018..7c6ee5f 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -37,6 +37,7 @@ from sqlvalidator.grammar.sql import (
     Parenthesis,
     ReplaceClause,
     SelectStatement,
+    SignedExpression,
     String,
     Table,
     Type,
@@ -605,7 +606,25 @@ class ExpressionParser:
 
         # Expressions that need the next_token to be read
         if expression is None:
-            if next_token is not None and next_token == "(":
+            if next_token is not None and main_token == "-" and next_token.isdigit():
+                expression = Integer(main_token + next_token)
+                next_token = next(tokens, None)
+            elif (
+                next_token is not None
+                and main_token == "-"
+                and next_token.replace(".", "").isdigit()
+            ):
+                expression = Float(main_token + next_token)
+                next_token = next(tokens, None)
+            elif next_token is not None and main_token in SignedExpression.SIGNS:
+                operand, next_token = ExpressionParser.parse(
+                    tokens,
+                    is_right_hand=True,
+                    until_one_of=until_one_of,
+                    first_token=next_token,
+                )
+                expression = SignedExpression(main_token, operand)
+            elif next_token is not None and next_token == "(":
                 if lower(main_token) == "cast":
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens, stop_words=["as"]
@@ -734,16 +753,6 @@ class ExpressionParser:
                     Column(main_token), arguments
                 )  # left item will not always be a column
                 next_token = next(tokens, None)
-            elif next_token is not None and main_token == "-" and next_token.isdigit():
-                expression = Integer(main_token + next_token)
-                next_token = next(tokens, None)
-            elif (
-                next_token is not None
-                and main_token == "-"
-                and next_token.replace(".", "").isdigit()
-            ):
-                expression = Float(main_token + next_token)
-                next_token = next(tokens, None)
             elif (
                 lower(main_token) in String.PREFIXES
                 and next_token is not None
@@ -815,7 +824,11 @@ class ExpressionParser:
                 expression = Index(expression, arguments)
                 next_token = next(tokens, None)
 
-        if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
+        if (
+            next_token
+            and next_token in ArithmaticOperator.OPERATORS
+            and not is_chained_columns
+        ):
             left_hand = expression
             symbol = next_token
             right_hand, next_token = ExpressionParser.parse(
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index dbc9569..280997a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1096,6 +1096,8 @@ class Index(Expression):
 
 
 class ArithmaticOperator(Expression):
+    OPERATORS = ("+", "-", "*", "/", "%", "%%")
+
     def __init__(self, operator, *args):
         self.operator = operator
         self.args = args
@@ -1124,6 +1126,32 @@ class ArithmaticOperator(Expression):
         return int
 
 
+class SignedExpression(Expression):
+    SIGNS = ("-", "+")
+
+    def __init__(self, sign, expression):
+        super().__init__(expression)
+        self.sign = sign
+
+    def __str__(self):
+        value = transform(self.value)
+        if value[:1] in self.SIGNS:
+            # Two signs without a blank would start a comment
+            value = " " + value
+        return self.sign + value
+
+    def __repr__(self):
+        return "<SignedExpression: {}{!r}>".format(self.sign, self.value)
+
+    def __eq__(self, other):
+        return super().__eq__(other) and self.sign == other.sign
+
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(known_fields)
+        return errors
+
+
 class Addition(ArithmaticOperator):
     def __init__(self, *args):
         super().__init__("+", *args)
-- 
2.43.0


From 0818c115cb175450b0d8afebf71073a68e4e29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 11/88] fix: keep numbers with an exponent and named
 placeholders whole

---
 sqlvalidator/grammar/lexer.py     |  3 ++-
 sqlvalidator/grammar/tokeniser.py | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 7c6ee5f..bb1620f 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -53,6 +53,7 @@ from sqlvalidator.grammar.tokeniser import (
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
+    is_exponent_number,
     lower,
 )
 
@@ -564,7 +565,7 @@ class ExpressionParser:
             expression = StringParser.parse(tokens, main_token)
         elif main_token.isdigit():
             expression = Integer(main_token)
-        elif main_token.replace(".", "").isdigit():
+        elif main_token.replace(".", "").isdigit() or is_exponent_number(main_token):
             expression = Float(main_token)
         elif lower(main_token) in Boolean.BOOLEAN_VALUES:
             expression = Boolean(main_token)
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 7a49a51..ade744b 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -1,3 +1,4 @@
+import re
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
@@ -22,9 +23,16 @@ KEPT_SPLIT_TOKENS = (
     "^",
     ".",
 )
+EXPONENT_NUMBER = r"(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+"
+# Numbers with an exponent and named placeholders can hold split tokens
+ATOMIC_TOKEN = re.compile(rf"(?<![\w.]){EXPONENT_NUMBER}(?!\w)|%\(\w+\)[a-z]")
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
 
 
+def is_exponent_number(token: str) -> bool:
+    return re.fullmatch(EXPONENT_NUMBER, token) is not None
+
+
 def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
@@ -215,6 +223,18 @@ def split_tokens(value: str):
             yield from _split_on_whitespace_token(whitespace_token, value)
             return
 
+    atomic_tokens = list(ATOMIC_TOKEN.finditer(value))
+    if atomic_tokens:
+        start = 0
+        for atomic_token in atomic_tokens:
+            if atomic_token.start() > start:
+                yield from split_tokens(value[start : atomic_token.start()])
+            yield atomic_token.group()
+            start = atomic_token.end()
+        if start < len(value):
+            yield from split_tokens(value[start:])
+        return
+
     for kept_token in KEPT_SPLIT_TOKENS:
         if kept_token in value and value != kept_token:
             yield from _split_on_kept_token(kept_token, value)
-- 
2.43.0


From 41d736a2c6cd59f4a84949a95193074faf38f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 12/88] fix: leave everything but the SQL strings of a file as
 it is

---
 sqlvalidator/file_handler.py | 39 ++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..d5dab3c 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import tokenize
@@ -191,7 +192,7 @@ def analyse_file(
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
-    with open(filename, "r") as file:
+    with open(filename, "r", newline="") as file:
         (
             count_changed_sql,
             new_content,
@@ -205,7 +206,7 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w") as f:
+            with open(filename, "w", newline="") as f:
                 f.write(new_content)
             starting_text = "reformatted"
         elif check:
@@ -325,7 +326,10 @@ def compute_file_content(
         else:
             tokens += following_tokens
 
-    token_generator = tokenize.generate_tokens(file.readline)
+    content = file.read()
+    token_generator = tokenize.generate_tokens(
+        io.StringIO(content, newline=None).readline
+    )
     for token_type, token_value, starting, ending, line in token_generator:
         if token_type == tokenize.STRING:
             handle_string_token(
@@ -334,10 +338,37 @@ def compute_file_content(
         else:
             tokens.append((token_type, token_value, starting, ending, line))
 
-    formatted_file_content = tokenize.untokenize(tokens)
+    formatted_file_content = replace_strings(content, tokens)
     return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
 
 
+def replace_strings(content: str, tokens: list) -> str:
+    """
+    Put the strings among the tokens at their position in the content,
+    and keep everything else of the content as it is.
+    """
+    lines = io.StringIO(content, newline="").readlines()
+    line_starts = [0]
+    for line in lines:
+        line_starts.append(line_starts[-1] + len(line))
+    first_line = lines[0] if lines else ""
+    newline = first_line[len(first_line.rstrip("\r\n")) :] or "\n"
+
+    new_content = ""
+    position = 0
+    for token_type, token_value, starting, ending, _ in tokens:
+        if token_type != tokenize.STRING:
+            continue
+        start = line_starts[starting[0] - 1] + starting[1]
+        end = line_starts[ending[0] - 1] + ending[1]
+        current_value = content[start:end].replace("\r\n", "\n").replace("\r", "\n")
+        if current_value != token_value:
+            new_content += content[position:start]
+            new_content += token_value.replace("\n", newline)
+            position = end
+    return new_content + content[position:]
+
+
 def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     """
     Read a SQL string as input, potentially with quotes or not,
-- 
2.43.0


From ddd1a93705c2345528682a7a480fa812469f1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 13/88] fix: do not rewrite parts of concatenated strings and
 f-strings on their own

---
 sqlvalidator/file_handler.py | 37 +++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index d5dab3c..08d0c21 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -253,7 +253,7 @@ def compute_file_content(
         nonlocal count_has_errors
         nonlocal errors_locations
 
-        if not is_select_string(token_value):
+        if starting in partial_strings or not is_select_string(token_value):
             tokens.append((token_type, token_value, starting, ending, line))
             return
 
@@ -327,9 +327,11 @@ def compute_file_content(
             tokens += following_tokens
 
     content = file.read()
-    token_generator = tokenize.generate_tokens(
-        io.StringIO(content, newline=None).readline
+    file_tokens = list(
+        tokenize.generate_tokens(io.StringIO(content, newline=None).readline)
     )
+    partial_strings = find_partial_strings(file_tokens)
+    token_generator = iter(file_tokens)
     for token_type, token_value, starting, ending, line in token_generator:
         if token_type == tokenize.STRING:
             handle_string_token(
@@ -342,6 +344,35 @@ def compute_file_content(
     return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
 
 
+def find_partial_strings(tokens: list) -> Set[Tuple[int, int]]:
+    """
+    Positions of the strings that do not stand for themselves: those implicitly
+    concatenated with a neighbouring string, and those within an f-string.
+    """
+    fstring_start = getattr(tokenize, "FSTRING_START", None)
+    fstring_end = getattr(tokenize, "FSTRING_END", None)
+    partial_strings = set()
+    fstring_depth = 0
+    previous_string = None
+    for token_type, _, starting, _, _ in tokens:
+        if token_type in (tokenize.NL, tokenize.COMMENT):
+            continue
+        if token_type in (tokenize.STRING, fstring_start):
+            if fstring_depth > 0:
+                partial_strings.add(starting)
+            elif previous_string is not None:
+                partial_strings |= {previous_string, starting}
+            previous_string = starting
+        elif token_type != fstring_end:
+            previous_string = None
+        if token_type == fstring_start:
+            fstring_depth += 1
+        elif token_type == fstring_end:
+            fstring_depth -= 1
+            previous_string = starting
+    return partial_strings
+
+
 def replace_strings(content: str, tokens: list) -> str:
     """
     Put the strings among the tokens at their position in the content,
-- 
2.43.0


From 8d7cc1bec2813a37edddc43190473d2a5b61be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 14/88] fix: keep a query that ends with a quote apart from the
 closing quotes

---
 sqlvalidator/file_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 08d0c21..bf9f09f 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -445,7 +445,9 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     else:
         new_quotes = quotes
 
-    if len(new_quotes) == 3 and "\n" in formatted_sql:
+    if len(new_quotes) == 3 and (
+        "\n" in formatted_sql or formatted_sql.endswith(new_quotes[0])
+    ):
         quoted_sql = "{prefix}{quotes}\n{sql}\n{quotes}".format(
             prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
         )
-- 
2.43.0


From 161c02830fc11c04b3baa54b3be72d86140484df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 15/88] fix: report the outcome of --verbose-validate

---
 sqlvalidator/file_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index bf9f09f..b548e08 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -91,13 +91,13 @@ def handle_inputs(
             inputs_info.num_changed_sql,
             check_input_format,
         )
-    if validate_input:
+    if validate_input or verbose_validate_input:
         print_validation_summary(
             inputs_info.num_invalid_files, inputs_info.num_invalid_sql
         )
 
     if (check_input_format and inputs_info.num_changed_sql > 0) or (
-        validate_input and inputs_info.num_invalid_sql > 0
+        (validate_input or verbose_validate_input) and inputs_info.num_invalid_sql > 0
     ):
         sys.exit(1)
 
-- 
2.43.0


From b130668dffef277331e75d1ecf134c51abedc919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:54 +0000
Subject: [PATCH 16/88] fix: look for opt-out markers in comments only

---
 sqlvalidator/file_handler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index b548e08..8f7f396 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -292,15 +292,14 @@ def compute_file_content(
                 (next_token, next_token_value, next_starting, next_ending, next_line)
             )
 
-        needs_format = should_format and NO_SQLFORMAT_COMMENT not in next_token_value
-        needs_validate = (
-            should_validate and NO_SQLVALIDATION_COMMENT not in next_token_value
-        )
+        comment = next_token_value if next_token == tokenize.COMMENT else ""
+        needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
+        needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
         if next_token != tokenize.COMMENT or needs_format or needs_validate:
             formatted_sql, sql_query = handle_sql_string(token_value)
             if (
                 formatted_sql != token_value
-                and NO_SQLFORMAT_COMMENT not in next_token_value
+                and NO_SQLFORMAT_COMMENT not in comment
             ):
                 tokens.append((token_type, formatted_sql, starting, ending, line))
                 count_changed_sql += 1
-- 
2.43.0


From f9c52d5b57f43de276d8b55d3eaa6bf931d76c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:27 +0000
Subject: [PATCH 17/88] fix: handle files with many consecutive SQL strings

---
 sqlvalidator/file_handler.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 8f7f396..9b90260 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -297,10 +297,7 @@ def compute_file_content(
         needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
         if next_token != tokenize.COMMENT or needs_format or needs_validate:
             formatted_sql, sql_query = handle_sql_string(token_value)
-            if (
-                formatted_sql != token_value
-                and NO_SQLFORMAT_COMMENT not in comment
-            ):
+            if formatted_sql != token_value and NO_SQLFORMAT_COMMENT not in comment:
                 tokens.append((token_type, formatted_sql, starting, ending, line))
                 count_changed_sql += 1
             else:
@@ -314,16 +311,8 @@ def compute_file_content(
 
         if next_token == tokenize.STRING:
             tokens += following_tokens[:-1]
-            handle_string_token(
-                token_generator,
-                next_token,
-                next_token_value,
-                next_starting,
-                next_ending,
-                next_line,
-            )
-        else:
-            tokens += following_tokens
+            return following_tokens[-1]
+        tokens += following_tokens
 
     content = file.read()
     file_tokens = list(
@@ -331,13 +320,12 @@ def compute_file_content(
     )
     partial_strings = find_partial_strings(file_tokens)
     token_generator = iter(file_tokens)
-    for token_type, token_value, starting, ending, line in token_generator:
-        if token_type == tokenize.STRING:
-            handle_string_token(
-                token_generator, token_type, token_value, starting, ending, line
-            )
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
+    for token in token_generator:
+        # Handling a string can give the next string, that is still to be handled
+        while token is not None and token[0] == tokenize.STRING:
+            token = handle_string_token(token_generator, *token)
+        if token is not None:
+            tokens.append(token)
 
     formatted_file_content = replace_strings(content, tokens)
     return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
-- 
2.43.0


From 9d376d96b5cdc4949cbaa32c9492f589103440ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 18/88] fix: validate CAST, WITH, LIMIT ALL, window positions
 and ambiguous groups without failing

---
 sqlvalidator/grammar/sql.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 280997a..c1d21e9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -338,7 +338,7 @@ class GroupByClause(Expression):
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
                 ]
                 if len(fields_without_alias) > 1:
-                    errors.append('column "{}" is ambiguous'.format(self.value))
+                    errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
@@ -434,7 +434,9 @@ class OrderByItem(Expression):
             value = value.value
 
         if isinstance(value, Integer):
-            if value.value <= 0 or value.value > len(select_expressions):
+            if select_expressions is not None and (
+                value.value <= 0 or value.value > len(select_expressions)
+            ):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
@@ -463,6 +465,8 @@ class LimitClause(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.limit_all:
+            return errors
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
@@ -519,6 +523,17 @@ class WithStatement(Expression):
             transform(self.select_statement),
         )
 
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        errors = []
+        for with_query in self.with_queries:
+            errors += with_query.statement.validate(known_fields)
+        errors += self.select_statement.validate(known_fields)
+        return errors
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.select_statement.known_fields
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -582,6 +597,9 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
+    def validate(self, known_fields):
+        return self.args[0].validate(known_fields)
+
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-- 
2.43.0


From a96bec3478129641db71a5f483b05a2826027e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 19/88] fix: resolve GROUP BY items against AS aliases and in
 brackets

---
 sqlvalidator/grammar/sql.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c1d21e9..72b9c8a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -316,10 +316,13 @@ class GroupByClause(Expression):
 
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
-        for arg in self.args:
-            while isinstance(arg, Parenthesis):
-                arg = arg.args[0]
-            if isinstance(arg, Integer) and (
+        args = list(self.args)
+        aliases = [e.name for e in select_expressions if isinstance(e, Alias)]
+        while args:
+            arg = args.pop(0)
+            if isinstance(arg, Parenthesis):
+                args = list(arg.args) + args
+            elif isinstance(arg, Integer) and (
                 arg.value <= 0 or arg.value > len(select_expressions)
             ):
                 errors.append(
@@ -329,8 +332,7 @@ class GroupByClause(Expression):
                 isinstance(arg, (Column, String))
                 and (
                     not any(f.name == arg.value for f in known_fields)
-                    and arg.value
-                    not in [e.alias for e in select_expressions if isinstance(e, Alias)]
+                    and arg.value not in aliases
                 )
                 and not any(f.name == "*" for f in known_fields)
             ):
@@ -341,6 +343,8 @@ class GroupByClause(Expression):
                     errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
+            elif not isinstance(arg, (Column, String)):
+                errors += arg.validate(known_fields)
 
         return errors
 
@@ -1068,6 +1072,10 @@ class Alias(Expression):
             transform(self.alias),
         )
 
+    @property
+    def name(self) -> str:
+        return getattr(self.alias, "value", self.alias)
+
     def __repr__(self):
         return "<Alias: {!r} as={} {!r}>".format(
             self.expression, self.with_as, self.alias
-- 
2.43.0


From 1a37eac7431635942186c63a66a39f2f284c2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 20/88] fix: resolve ORDER BY items against select aliases

---
 sqlvalidator/grammar/sql.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 72b9c8a..f551583 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -434,7 +434,7 @@ class OrderByItem(Expression):
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
         value = self.value
-        while isinstance(value, Parenthesis):
+        while isinstance(value, Parenthesis) and value.args:
             value = value.value
 
         if isinstance(value, Integer):
@@ -445,7 +445,12 @@ class OrderByItem(Expression):
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
         else:
-            errors += self.value.validate(known_fields)
+            aliases = {
+                _FieldInfo(e.name, e.return_type)
+                for e in select_expressions or []
+                if isinstance(e, Alias)
+            }
+            errors += self.value.validate(known_fields | aliases)
         return errors
 
 
@@ -472,7 +477,7 @@ class LimitClause(Expression):
         if self.limit_all:
             return errors
         value = self.value
-        while isinstance(value, Parenthesis):
+        while isinstance(value, Parenthesis) and value.args:
             value = value.value
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
@@ -486,7 +491,7 @@ class OffsetClause(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         value = self.value
-        while isinstance(value, Parenthesis):
+        while isinstance(value, Parenthesis) and value.args:
             value = value.value
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
-- 
2.43.0


From 921ad74dc6968ba08755723a99b9d54c6028113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 21/88] fix: know the columns that qualified, starred, unnested
 and combined sources provide

---
 sqlvalidator/grammar/sql.py | 96 +++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 40 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f551583..40d7bb9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -151,27 +151,39 @@ class SelectStatement:
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
         for e in self.expressions:
-            if isinstance(e, Column):
-                fields.add(_FieldInfo(e.value, e.return_type))
-            elif isinstance(e, Alias):
-                if isinstance(e.alias, Column):
-                    fields.add(_FieldInfo(e.alias.value, e.return_type))
+            excluded_names = []
+            if isinstance(e, SelectAllClause):
+                if isinstance(e, ExceptClause):
+                    excluded_names = [getattr(arg, "value", None) for arg in e.args]
+                e = e.value
+
+            if isinstance(e, Alias):
+                fields.add(_FieldInfo(e.name, e.return_type))
+            elif isinstance(e, String):
+                fields.add(_FieldInfo(e.value, object))
+            elif isinstance(e, (Column, ChainedColumns)):
+                prefix, name = transform(e).rpartition(".")[::2]
+                if name == "*":
+                    fields |= {
+                        f
+                        for f in self._get_source_fields(prefix)
+                        if f.name not in excluded_names
+                    }
                 else:
-                    fields.add(_FieldInfo(e.alias, e.return_type))
-
-        if self.from_statement:
-            if isinstance(self.from_statement, Parenthesis) and isinstance(
-                self.from_statement.args[0], SelectStatement
-            ):
-                subquery_known_fields = self.from_statement.args[0].known_fields
-                if any(f.name == "*" for f in fields) and not any(
-                    f.name == "*" for f in subquery_known_fields
-                ):
-                    fields = {f for f in fields if f.name != "*"}
-                    fields |= subquery_known_fields
+                    fields.add(_FieldInfo(name, e.return_type))
 
         return fields
 
+    def _get_source_fields(self, alias: str) -> Set[_FieldInfo]:
+        """Fields that the FROM clause provides, all or those of one alias."""
+        source_fields = getattr(self.from_statement, "known_fields", set())
+        if alias:
+            prefix = alias + "."
+            source_fields = {f for f in source_fields if f.name.startswith(prefix)}
+            if not source_fields:
+                return {_FieldInfo("*", object)}
+        return {_FieldInfo(f.name.split(".", 1)[-1], f.type) for f in source_fields}
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -334,7 +346,7 @@ class GroupByClause(Expression):
                     not any(f.name == arg.value for f in known_fields)
                     and arg.value not in aliases
                 )
-                and not any(f.name == "*" for f in known_fields)
+                and not any(f.name.split(".", 1)[-1] == "*" for f in known_fields)
             ):
                 fields_without_alias = [
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
@@ -815,7 +827,7 @@ class Column(Expression):
         if (
             not any(f.name == self.value for f in known_fields)
             and self.value != "*"
-            and not any(f.name == "*" for f in known_fields)
+            and not any(f.name.split(".", 1)[-1] == "*" for f in known_fields)
         ):
             fields_without_alias = [
                 f for f in known_fields if f.name.split(".", 1)[-1] == self.value
@@ -925,7 +937,7 @@ class String(Expression):
 
     @property
     def return_type(self):
-        return str
+        return object if self.quotes == "`" else str
 
 
 class Integer(Expression):
@@ -1224,6 +1236,10 @@ class Table(Expression):
 
 
 class Unnest(Expression):
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return {_FieldInfo("*", type=object)}
+
     def __init__(self, unnest_expression, with_offset, with_offset_as, offset_alias):
         # unnest_expression: can be functiion call or alias of function call
         super().__init__(unnest_expression)
@@ -1371,30 +1387,20 @@ class Join(Expression):
         errors = super().validate(known_fields)
         if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
+        errors += self.left_from.validate(known_fields)
+        errors += self.right_from.validate(known_fields)
         return errors
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        known_fields = set()
-        if isinstance(self.left_from, Alias):
-            left_alias = self.left_from.alias
-            for field in self.left_from.expression.known_fields:
-                known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
-        else:
-            known_fields |= self.left_from.known_fields
-
-        if isinstance(self.right_from, Alias):
-            right_alias = self.right_from.alias
-            for field in self.right_from.expression.known_fields:
-                known_fields.add(
-                    _FieldInfo(
-                        right_alias + "." + field.name,
-                        field.type,
-                    )
-                )
-        else:
-            known_fields |= self.right_from.known_fields
-
+        known_fields = self.left_from.known_fields | self.right_from.known_fields
+        if self.using and isinstance(self.using.value, Parenthesis):
+            # The joined columns are not ambiguous
+            known_fields |= {
+                _FieldInfo(c.value, object)
+                for c in self.using.value.args
+                if isinstance(c, Column)
+            }
         return known_fields
 
 
@@ -1436,6 +1442,16 @@ class CombinedQueries(Expression):
             self.right_query,
         )
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        errors += self.left_query.validate(known_fields)
+        errors += self.right_query.validate(known_fields)
+        return errors
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.left_query.known_fields
+
 
 class OnClause(Expression):
     def __str__(self):
-- 
2.43.0


From 72f6e8a749f85e46e268ca5a6a57659ef2c5a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 22/88] fix: resolve qualified, quoted and bracketed columns of
 aliased subqueries

---
 sqlvalidator/grammar/sql.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 40d7bb9..6fbde2a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -12,6 +12,12 @@ def transform(obj: Any) -> str:
     return str(obj)
 
 
+def without_quotes(name: str) -> str:
+    for quote in String.QUOTES:
+        name = name.replace(quote, "")
+    return name
+
+
 @dataclass
 class _FieldInfo:
     name: str
@@ -162,7 +168,7 @@ class SelectStatement:
             elif isinstance(e, String):
                 fields.add(_FieldInfo(e.value, object))
             elif isinstance(e, (Column, ChainedColumns)):
-                prefix, name = transform(e).rpartition(".")[::2]
+                prefix, name = without_quotes(transform(e)).rpartition(".")[::2]
                 if name == "*":
                     fields |= {
                         f
@@ -264,9 +270,13 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == transform(self)]
+        name = transform(self)
+        matching_fields = [f for f in known_fields if f.name == name] or [
+            f for f in known_fields if f.name.split(".", 1)[-1] == name
+        ]
         if matching_fields:
-            return matching_fields[0].type
+            types = {f.type for f in matching_fields}
+            return types.pop() if len(types) == 1 else object
         return self.return_type
 
 
@@ -862,13 +872,17 @@ class ChainedColumns(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        full_value = str(self)
+        full_value = without_quotes(str(self))
         alias = ".".join(map(transform, self.columns[:-1]))
+        alias_prefix = without_quotes(alias) + "."
         last_value = self.columns[-1]
+        is_known_alias = any(f.name.startswith(alias_prefix) for f in known_fields)
         if (
             not any(f.name == full_value for f in known_fields)
-            and not any(f.name == f"{alias}.*" for f in known_fields)
-        ) and not any(f.name == "*" for f in known_fields):
+            and not any(f.name == alias_prefix + "*" for f in known_fields)
+            and not (is_known_alias and full_value == alias_prefix + "*")
+            and (is_known_alias or not any(f.name == "*" for f in known_fields))
+        ):
             errors.append(f"The column {last_value} was not found in alias {alias}")
         return errors
 
@@ -1056,6 +1070,12 @@ class Parenthesis(Expression):
         for a in self.args:
             return a.return_type
 
+    def resolve_return_type(self, known_fields):
+        for a in self.args:
+            if isinstance(a, Expression):
+                return a.resolve_return_type(known_fields)
+        return object
+
 
 class Array(Expression):
     def __init__(self, *args):
@@ -1117,7 +1137,7 @@ class Alias(Expression):
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {
-            _FieldInfo("{}.{}".format(transform(self.alias), f.name), f.type)
+            _FieldInfo("{}.{}".format(self.name, f.name), f.type)
             for f in self.expression.known_fields
         }
 
-- 
2.43.0


From 292ca6e8f6f59d33c83eb32e92d7aa07afaa1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 23/88] fix: look for missing columns in operands, CASE,
 DISTINCT ON and ARRAY_AGG ORDER BY

---
 sqlvalidator/grammar/sql.py | 56 +++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6fbde2a..4674f55 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -135,7 +135,7 @@ class SelectStatement:
         if hasattr(self.from_statement, "known_fields"):
             known_fields = known_fields | self.from_statement.known_fields
 
-        for e in self.expressions:
+        for e in list(self.select_distinct_on or []) + self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
             errors += self.from_statement.validate(known_fields=set())
@@ -263,6 +263,14 @@ class Expression:
         return type(self) == type(other) and self.value == other.value
 
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = []
+        for operand in self.operands:
+            errors += operand.validate(known_fields)
+        return errors
+
+    @property
+    def operands(self) -> list:
+        """Expressions this one is made of, validated the same way."""
         return []
 
     @property
@@ -688,6 +696,12 @@ class ArrayAggFunctionCall(FunctionCall):
 
         return array_agg_str + ")"
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        if self.order_bys:
+            errors += self.order_bys.validate(known_fields, None)
+        return errors
+
 
 class FilteredFunctionCall(Expression):
     def __init__(self, function_call: FunctionCall, filter_condition):
@@ -926,6 +940,10 @@ class DatePartExtraction(Expression):
         super().__init__(date_expression)
         self.part = part
 
+    @property
+    def operands(self) -> list:
+        return [self.value]
+
     def __str__(self):
         return "{} FROM {}".format(self.part.upper(), transform(self.value))
 
@@ -1084,6 +1102,10 @@ class Array(Expression):
     def __str__(self):
         return "[{}]".format(", ".join(map(transform, self.args)))
 
+    @property
+    def operands(self) -> list:
+        return list(self.args)
+
     def __repr__(self):
         return "<Array: {}>".format(", ".join(map(repr, self.args)))
 
@@ -1152,6 +1174,10 @@ class Index(Expression):
             transform(self.value), ", ".join(map(transform, self.indices))
         )
 
+    @property
+    def operands(self) -> list:
+        return [self.value] + self.indices
+
     def __repr__(self):
         return "<Index: {!r} indices={!r}>".format(
             self.value, ", ".join(map(repr, self.indices))
@@ -1169,6 +1195,10 @@ class ArithmaticOperator(Expression):
         join_str = " {} ".format(self.operator)
         return join_str.join(map(transform, self.args))
 
+    @property
+    def operands(self) -> list:
+        return list(self.args)
+
     def __repr__(self):
         return "<{} {}: {}>".format(
             self.__class__.__name__, self.operator, ", ".join(map(repr, self.args))
@@ -1209,10 +1239,13 @@ class SignedExpression(Expression):
     def __eq__(self, other):
         return super().__eq__(other) and self.sign == other.sign
 
-    def validate(self, known_fields):
-        errors = super().validate(known_fields)
-        errors += self.value.validate(known_fields)
-        return errors
+    @property
+    def operands(self) -> list:
+        return [self.value]
+
+    @property
+    def return_type(self):
+        return float if self.value.return_type == float else int
 
 
 class Addition(ArithmaticOperator):
@@ -1233,6 +1266,10 @@ class BitwiseOperation(Expression):
             transform(self.value), self.predicate, transform(self.right_hand)
         )
 
+    @property
+    def operands(self) -> list:
+        return [self.value, self.right_hand]
+
     def __repr__(self):
         return "<BitwiseOperation: {!r} {} {!r}>".format(
             self.value, self.predicate, self.right_hand
@@ -1617,6 +1654,10 @@ class Negation(Expression):
     def __init__(self, expression):
         super().__init__(expression)
 
+    @property
+    def operands(self) -> list:
+        return [self.value]
+
     def __str__(self):
         negation = "NOT"
         if not isinstance(self.value, Parenthesis):
@@ -1669,6 +1710,11 @@ class Case(Expression):
         self.when_then = when_then
         self.else_expression = else_expression
 
+    @property
+    def operands(self) -> list:
+        operands = [e for when_then in self.when_then for e in when_then]
+        return [e for e in [self.value, *operands, self.else_expression] if e]
+
     def __str__(self):
         case_str = "CASE"
         if self.value:
-- 
2.43.0


From 8f771e53996523c3bcf586b6d4c93e72e2482195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:33 +0000
Subject: [PATCH 24/88] fix: recognise date and normalisation keywords in any
 case

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4674f55..fe2445a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -842,7 +842,7 @@ class Column(Expression):
     )
 
     def __str__(self):
-        if self.value in self.KEYWORDS:
+        if lower(self.value) in self.KEYWORDS:
             return self.value.upper()
         return str(self.value)
 
-- 
2.43.0


From 75d7eb2d0d73a637f57cfd2db6d3d378672b81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 25/88] fix: keep NULLS FIRST and NULLS LAST in ORDER BY

---
 sqlvalidator/grammar/lexer.py | 10 ++++++++--
 sqlvalidator/grammar/sql.py   |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index bb1620f..1f9af56 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -467,7 +467,9 @@ class OrderByParser:
 class OrderByItemParser:
     @staticmethod
     def parse(tokens):
-        expression_tokens, next_token = get_tokens_until_one_of(tokens, ["asc", "desc"])
+        expression_tokens, next_token = get_tokens_until_one_of(
+            tokens, ["asc", "desc", "nulls"], first_token=next(tokens, None)
+        )
         expression, _ = ExpressionParser.parse(iter(expression_tokens))
         if lower(next_token) == "asc":
             has_asc = True
@@ -479,7 +481,11 @@ class OrderByItemParser:
             has_asc = False
             has_desc = False
 
-        return OrderByItem(expression, has_asc=has_asc, has_desc=has_desc)
+        if has_asc or has_desc:
+            next_token = next(tokens, None)
+        nulls = next(tokens, None) if lower(next_token) == "nulls" else None
+
+        return OrderByItem(expression, has_asc=has_asc, has_desc=has_desc, nulls=nulls)
 
 
 class LimitClauseParser:
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index fe2445a..d96d92c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -436,10 +436,11 @@ class OrderByClause(Expression):
 
 
 class OrderByItem(Expression):
-    def __init__(self, expression, has_asc=False, has_desc=False):
+    def __init__(self, expression, has_asc=False, has_desc=False, nulls=None):
         super().__init__(expression)
         self.has_asc = has_asc
         self.has_desc = has_desc
+        self.nulls = nulls
 
     def __str__(self):
         order_by_item_str = transform(self.value)
@@ -447,6 +448,8 @@ class OrderByItem(Expression):
             order_by_item_str += " ASC"
         elif self.has_desc:
             order_by_item_str += " DESC"
+        if self.nulls:
+            order_by_item_str += " NULLS {}".format(self.nulls.upper())
         return order_by_item_str
 
     def __repr__(self):
@@ -459,6 +462,7 @@ class OrderByItem(Expression):
             super().__eq__(other)
             and self.has_asc == other.has_asc
             and self.has_desc == other.has_desc
+            and lower(self.nulls) == lower(other.nulls)
         )
 
     def validate(self, known_fields, select_expressions):
-- 
2.43.0


From efbba65b4c94bd73f063599acee48fe13970dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 26/88] fix: keep subqueries with several items in brackets and
 calls whole

---
 sqlvalidator/grammar/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 1f9af56..b361b75 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -515,6 +515,10 @@ class ExpressionListParser:
     @staticmethod
     def parse(tokens, can_be_type=False):
         next_token = next(tokens, None)
+        if lower(next_token) == "select":
+            # The commas of a subquery do not separate expressions
+            subquery, _ = ExpressionParser.parse(tokens, first_token=next_token)
+            return [subquery]
 
         expressions = []
         expression_tokens = []
-- 
2.43.0


From 4a0fff88161ff2ba75baa14776b4f83fa29bd522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 27/88] fix: recognise the date part of a TIMESTAMP_TRUNC that
 is not nested

---
 sqlvalidator/grammar/lexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index b361b75..6c6f4e4 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -723,7 +723,8 @@ class ExpressionParser:
                 else:
                     argument_tokens = get_tokens_until_closing_parenthesis(tokens)
                     arguments_can_be_type = can_be_type or any(
-                        lower(t) == "timestamp_trunc" for t in argument_tokens
+                        lower(t) == "timestamp_trunc"
+                        for t in [main_token] + argument_tokens
                     )
                     arguments = ExpressionListParser.parse(
                         iter(argument_tokens), can_be_type=arguments_can_be_type
-- 
2.43.0


From 514ddd67ada54bff6680ab3542cd31077335a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 28/88] fix: keep comparisons and conditions inside CAST

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6c6f4e4..6322de0 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -642,7 +642,7 @@ class ExpressionParser:
                     )
                     column, _ = ExpressionParser.parse(
                         iter(column_tokens),
-                        is_right_hand=True,
+                        can_alias=False,
                         until_one_of=until_one_of,
                     )
                     assert lower(next_token) == "as", next_token
-- 
2.43.0


From 3586e667d020606b8f5281c8d14c47984fe2660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:55 +0000
Subject: [PATCH 29/88] fix: keep what follows a prefixed string

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6322de0..bd7f170 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -773,6 +773,7 @@ class ExpressionParser:
                 expression = StringParser.parse(
                     tokens, start_quote=next_token, prefix=main_token
                 )
+                next_token = next(tokens, None)
             else:
                 expression = Column(main_token)
 
-- 
2.43.0


From 8d2cf7fea146d80d78a78281a7c4979ea0da942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 30/88] fix: keep every item of a bracketed list that is broken
 over lines

---
 sqlvalidator/grammar/sql.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d96d92c..75f91e2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -288,10 +288,14 @@ class Expression:
         return self.return_type
 
 
+def is_single_parenthesis(obj) -> bool:
+    return isinstance(obj, Parenthesis) and len(obj.args) == 1
+
+
 class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if is_single_parenthesis(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -382,7 +386,7 @@ class GroupByClause(Expression):
 class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if is_single_parenthesis(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -1517,7 +1521,7 @@ class CombinedQueries(Expression):
 class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if is_single_parenthesis(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -1527,7 +1531,7 @@ class OnClause(Expression):
 class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
-        if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
+        if is_single_parenthesis(self.value) and "\n" in transformed_value:
             return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
@@ -1607,7 +1611,7 @@ class BooleanCondition(Expression):
         for a in self.args:
             if isinstance(a, BooleanCondition):
                 transformed_a = a.transform(with_newline=True)
-            elif isinstance(a, Parenthesis):
+            elif is_single_parenthesis(a):
                 transformed_a = transform(a.args[0])
                 if "\n" in transformed_a:
                     transformed_a = "(\n " + transformed_a.replace("\n", "\n ") + "\n)"
@@ -1729,7 +1733,7 @@ class Case(Expression):
         for when, then in self.when_then:
             when_then_str = "WHEN"
             transformed_when = transform(when)
-            if isinstance(when, Parenthesis) and "\n" in transformed_when:
+            if is_single_parenthesis(when) and "\n" in transformed_when:
                 when_then_str += (
                     " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
                 )
-- 
2.43.0


From 34c3ca48ea572bfa9adc53bf094549497356cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 31/88] fix: read CASE expressions that start with an upper
 case CASE

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ade744b..92da4e6 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -72,7 +72,7 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     next_token = next(tokens, None)
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
-    count_case_expr = 0 if first_token != "case" else 1
+    count_case_expr = 0 if lower(first_token) != "case" else 1
     open_quote = get_open_quote(first_token, None)
     while next_token is not None and not (
         lower(next_token) in stop_words
-- 
2.43.0


From f9dbc833818f7a91ec836f2f01de1bf1f97a9a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 32/88] fix: do not report a query valid after its validation
 failed

---
 sqlvalidator/sql_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..6702677 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -26,11 +26,11 @@ class SQLQuery:
         return len(self.errors) == 0
 
     def _validate(self):
-        self.validated = True
         try:
             self.errors = self.sql_query.validate()
         except ParsingError as ex:
             self.errors.append(str(ex))
+        self.validated = True
 
 
 def parse(sql: str) -> SQLQuery:
-- 
2.43.0


From 0ed5cd0e79504054406f73668eaa99030fd8c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 33/88] fix: do not report placeholders as missing columns

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 75f91e2..264a02f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import Any, List, Optional, Set
 
@@ -848,6 +849,8 @@ class Column(Expression):
         "saturday",
         "sunday",
     )
+    # Values that are filled in later, such as %s, %(name)s, ?, :name, @name, $1, {name}
+    PLACEHOLDER = re.compile(r"%s|%\(\w+\)[a-z]|\?|[:@$]\w+|\{\w*\}")
 
     def __str__(self):
         if lower(self.value) in self.KEYWORDS:
@@ -859,6 +862,7 @@ class Column(Expression):
         if (
             not any(f.name == self.value for f in known_fields)
             and self.value != "*"
+            and not self.PLACEHOLDER.fullmatch(self.value)
             and not any(f.name.split(".", 1)[-1] == "*" for f in known_fields)
         ):
             fields_without_alias = [
-- 
2.43.0


From 9db8d19c2602fabe93f85476a107f7dff9d2d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 34/88] fix: keep a single parse error when several threads
 validate a query

---
 sqlvalidator/sql_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index 6702677..fc07a50 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -29,7 +29,7 @@ class SQLQuery:
         try:
             self.errors = self.sql_query.validate()
         except ParsingError as ex:
-            self.errors.append(str(ex))
+            self.errors = [str(ex)]
         self.validated = True
 
 
-- 
2.43.0


From 2f40f054a8d6631a106973e0ba0f9368ed6dfd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 35/88] fix: accept positions beyond a star of the select list

---
 sqlvalidator/grammar/sql.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 264a02f..377d541 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -289,6 +289,20 @@ class Expression:
         return self.return_type
 
 
+def is_star(obj) -> bool:
+    while isinstance(obj, ChainedColumns):
+        obj = obj.columns[-1]
+    if isinstance(obj, SelectAllClause):
+        return True
+    return isinstance(obj, Column) and obj.value == "*"
+
+
+def is_select_position(position: int, select_expressions) -> bool:
+    # The number of columns behind a star is not known
+    has_star = any(map(is_star, select_expressions))
+    return position > 0 and (has_star or position <= len(select_expressions))
+
+
 def is_single_parenthesis(obj) -> bool:
     return isinstance(obj, Parenthesis) and len(obj.args) == 1
 
@@ -357,8 +371,8 @@ class GroupByClause(Expression):
             arg = args.pop(0)
             if isinstance(arg, Parenthesis):
                 args = list(arg.args) + args
-            elif isinstance(arg, Integer) and (
-                arg.value <= 0 or arg.value > len(select_expressions)
+            elif isinstance(arg, Integer) and not is_select_position(
+                arg.value, select_expressions
             ):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
@@ -477,8 +491,8 @@ class OrderByItem(Expression):
             value = value.value
 
         if isinstance(value, Integer):
-            if select_expressions is not None and (
-                value.value <= 0 or value.value > len(select_expressions)
+            if select_expressions is not None and not is_select_position(
+                value.value, select_expressions
             ):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
-- 
2.43.0


From d66004e577734de69f65ceb315015dc32e67f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 36/88] fix: know the columns of a subquery that selects a
 scalar subquery

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 377d541..0928688 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1112,7 +1112,8 @@ class Parenthesis(Expression):
     @property
     def return_type(self):
         for a in self.args:
-            return a.return_type
+            return getattr(a, "return_type", object)
+        return object
 
     def resolve_return_type(self, known_fields):
         for a in self.args:
-- 
2.43.0


From 16f797d9333c2d7314b61729077ffa79055879d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 37/88] fix: know the columns of a star with both EXCEPT and
 REPLACE

---
 sqlvalidator/grammar/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 0928688..ce08116 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -159,9 +159,9 @@ class SelectStatement:
         fields = set()
         for e in self.expressions:
             excluded_names = []
-            if isinstance(e, SelectAllClause):
+            while isinstance(e, SelectAllClause):
                 if isinstance(e, ExceptClause):
-                    excluded_names = [getattr(arg, "value", None) for arg in e.args]
+                    excluded_names += [getattr(arg, "value", None) for arg in e.args]
                 e = e.value
 
             if isinstance(e, Alias):
-- 
2.43.0


From 265297018393c2df8330f7e48956aeb9f4d8f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 38/88] fix: accept the star of a subquery whose columns have
 no name

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ce08116..e997261 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -178,6 +178,9 @@ class SelectStatement:
                     }
                 else:
                     fields.add(_FieldInfo(name, e.return_type))
+            elif not isinstance(e, SelectAllClause):
+                # A column without a name
+                fields.add(_FieldInfo("", object))
 
         return fields
 
-- 
2.43.0


From 93ba00a44f3db3aaa7854edb15650f39b4b36fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 39/88] fix: find the column behind an index after its alias

---
 sqlvalidator/grammar/sql.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e997261..60e2037 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -913,12 +913,25 @@ class ChainedColumns(Expression):
     def return_type(self):
         return self.columns[-1].return_type
 
+    @property
+    def operands(self) -> list:
+        operands = []
+        for column in self.columns:
+            while isinstance(column, Index):
+                operands += column.indices
+                column = column.value
+            if isinstance(column, ChainedColumns):
+                operands += column.operands
+        return operands
+
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        full_value = without_quotes(str(self))
         alias = ".".join(map(transform, self.columns[:-1]))
         alias_prefix = without_quotes(alias) + "."
         last_value = self.columns[-1]
+        while isinstance(last_value, Index):
+            last_value = last_value.value
+        full_value = alias_prefix + without_quotes(transform(last_value))
         is_known_alias = any(f.name.startswith(alias_prefix) for f in known_fields)
         if (
             not any(f.name == full_value for f in known_fields)
-- 
2.43.0


From 32722f88f68481beeead968137a7ec6028325ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 40/88] fix: let a subquery's own columns hide those of the
 query around it

---
 sqlvalidator/grammar/sql.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 60e2037..e030fae 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -134,7 +134,16 @@ class SelectStatement:
         errors = []
         known_fields = known_fields or set()
         if hasattr(self.from_statement, "known_fields"):
-            known_fields = known_fields | self.from_statement.known_fields
+            source_fields = self.from_statement.known_fields
+            if known_fields:
+                # The query's own columns hide those of the queries around it
+                names = [f.name.split(".", 1)[-1] for f in source_fields]
+                source_fields = source_fields | {
+                    _FieldInfo(name, f.type)
+                    for name, f in zip(names, source_fields)
+                    if name != "*" and names.count(name) == 1
+                }
+            known_fields = known_fields | source_fields
 
         for e in list(self.select_distinct_on or []) + self.expressions:
             errors += e.validate(known_fields)
-- 
2.43.0


From b87ef070c06e75e47ec3f342ab09a6ffc32c8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 41/88] fix: report a query as LIMIT or OFFSET instead of
 raising an error

---
 sqlvalidator/grammar/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e030fae..f908d04 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -544,7 +544,7 @@ class LimitClause(Expression):
         value = self.value
         while isinstance(value, Parenthesis) and value.args:
             value = value.value
-        if value.return_type != int or not isinstance(value, Integer):
+        if not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
         else:
             if isinstance(value, Integer) and value.value < 0:
@@ -558,7 +558,7 @@ class OffsetClause(Expression):
         value = self.value
         while isinstance(value, Parenthesis) and value.args:
             value = value.value
-        if value.return_type != int or not isinstance(value, Integer):
+        if not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
         else:
             if isinstance(value, Integer) and value.value < 0:
-- 
2.43.0


From a7f34318a3ea3a535ebfc1626b808588ed843e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:26 +0000
Subject: [PATCH 42/88] fix: validate calls and indices in dotted names, know
 fields of columns

---
 sqlvalidator/grammar/sql.py | 68 ++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f908d04..d3aed3f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -923,33 +923,61 @@ class ChainedColumns(Expression):
         return self.columns[-1].return_type
 
     @property
-    def operands(self) -> list:
-        operands = []
+    def parts(self) -> list:
+        parts = []
         for column in self.columns:
-            while isinstance(column, Index):
-                operands += column.indices
-                column = column.value
-            if isinstance(column, ChainedColumns):
-                operands += column.operands
-        return operands
+            parts += column.parts if isinstance(column, ChainedColumns) else [column]
+        return parts
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        alias = ".".join(map(transform, self.columns[:-1]))
-        alias_prefix = without_quotes(alias) + "."
-        last_value = self.columns[-1]
-        while isinstance(last_value, Index):
-            last_value = last_value.value
-        full_value = alias_prefix + without_quotes(transform(last_value))
+        names = []
+        is_name = True
+        for part in self.parts:
+            column = part
+            while isinstance(column, Index):
+                for index in column.indices:
+                    errors += index.validate(known_fields)
+                column = column.value
+            if not isinstance(column, (Column, String)):
+                # A call, in a namespace or whose result has fields
+                errors += column.validate(known_fields)
+                names = []
+                is_name = False
+            elif is_name:
+                names.append(column)
+            # What follows an index is no column but a field
+            is_name = is_name and column is part
+
+        if len(names) == 1:
+            errors += names[0].validate(known_fields)
+        elif names:
+            errors += self._validate_names(names, known_fields)
+        return errors
+
+    @staticmethod
+    def _validate_names(names, known_fields):
+        alias = transform(names[0])
+        last_value = ".".join(map(transform, names[1:]))
+        names = [without_quotes(transform(name)) for name in names]
+        alias_prefix = names[0] + "."
         is_known_alias = any(f.name.startswith(alias_prefix) for f in known_fields)
+        columns = {f.name for f in known_fields}
+        has_star = alias_prefix + "*" in columns
+        if not is_known_alias:
+            has_star = has_star or "*" in columns
+            columns |= {f.name.split(".", 1)[-1] for f in known_fields}
+        # A column, or a field of one
+        is_known_column = any(
+            ".".join(names[:length]) in columns for length in range(1, len(names) + 1)
+        )
         if (
-            not any(f.name == full_value for f in known_fields)
-            and not any(f.name == alias_prefix + "*" for f in known_fields)
-            and not (is_known_alias and full_value == alias_prefix + "*")
-            and (is_known_alias or not any(f.name == "*" for f in known_fields))
+            not is_known_column
+            and not has_star
+            and not (is_known_alias and names[1:] == ["*"])
         ):
-            errors.append(f"The column {last_value} was not found in alias {alias}")
-        return errors
+            return [f"The column {last_value} was not found in alias {alias}"]
+        return []
 
 
 class Type(Expression):
-- 
2.43.0


From a06ce59d6accaf9684ac61ba73a10030a820d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 43/88] fix: count a column joined by USING once in a star

---
 sqlvalidator/grammar/sql.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d3aed3f..b2d3516 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -201,7 +201,14 @@ class SelectStatement:
             source_fields = {f for f in source_fields if f.name.startswith(prefix)}
             if not source_fields:
                 return {_FieldInfo("*", object)}
-        return {_FieldInfo(f.name.split(".", 1)[-1], f.type) for f in source_fields}
+        # A name that is known without alias, as one joined by USING, is one column
+        names = {f.name for f in source_fields}
+        fields = {(f.name, f.name.split(".", 1)[-1], f.type) for f in source_fields}
+        return {
+            _FieldInfo(column, type_)
+            for name, column, type_ in fields
+            if name == column or column not in names
+        }
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 8fb992530a1c3558df76d8be2a83bb839fb37125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 44/88] fix: report the parse error of a WITH query in FROM

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index bd7f170..f343dd7 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -191,6 +191,8 @@ class FromStatementParser:
             try:
                 argument = SQLStatementParser.parse(iter(argument_tokens))
             except ParsingError:
+                if lower(argument_tokens[0]) in ("select", "with"):
+                    raise
                 argument = FromStatementParser.parse(iter(argument_tokens))
             expression = Parenthesis(argument)
             next_token = next(tokens, None)
-- 
2.43.0


From 47793c990ceff4894f866c1fd46882162084208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 45/88] fix: say what is wrong with a text that is no query

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index f343dd7..39789a7 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -70,7 +70,7 @@ class SQLStatementParser:
             return SelectStatementParser.parse(tokens)
         if lower(next_token) == "with":
             return WithStatementParser.parse(tokens)
-        raise ParsingError
+        raise ParsingError("expected SELECT or WITH")
 
 
 class SelectStatementParser:
-- 
2.43.0


From d17db1b77f0290dbcae3f4e88daa4bfce1a65182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 46/88] fix: report ORDER without BY in ARRAY_AGG as a parse
 error

---
 sqlvalidator/grammar/lexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 39789a7..3d6d3cf 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -685,7 +685,8 @@ class ExpressionParser:
 
                     if lower(next_token) == "order":
                         next_token = next(tokens)
-                        assert lower(next_token) == "by"
+                        if lower(next_token) != "by":
+                            raise ParsingError("Missing BY after ORDER")
                         expression_tokens, next_token = get_tokens_until_one_of(
                             tokens, ["limit", ")"]
                         )
-- 
2.43.0


From a9235cfe2d13b799e5aa09cf4fe8c7fb03061fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 47/88] fix: validate long AND/OR conditions without formatting
 them at each level

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b2d3516..cf05661 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1734,6 +1734,9 @@ class BooleanCondition(Expression):
     def return_type(self):
         return bool
 
+    def resolve_return_type(self, known_fields):
+        return self.return_type
+
 
 class Negation(Expression):
     PREDICATE = "not"
-- 
2.43.0


From 923043bdd687c046c475d1b592f54d4d37e84729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 48/88] fix: format each nested condition once

---
 sqlvalidator/grammar/sql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index cf05661..14103b7 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1677,8 +1677,15 @@ class BooleanCondition(Expression):
         assert type.lower() in ("and", "or")
         self.type = type
         self.args = args
+        self._transformed = {}
 
     def transform(self, with_newline=False):
+        # Conditions are transformed to see whether they fit on a line, then again
+        if with_newline not in self._transformed:
+            self._transformed[with_newline] = self._transform(with_newline)
+        return self._transformed[with_newline]
+
+    def _transform(self, with_newline):
         if with_newline is False:
             join_str = " {} ".format(self.type.upper())
             transformed_condition = join_str.join(map(transform, self.args))
-- 
2.43.0


From 944de128ccdc5d8a41459cbeb8130ae8a69fe5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 49/88] fix: format the content of a bracketed condition once

---
 sqlvalidator/grammar/sql.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 14103b7..58932b1 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -326,11 +326,18 @@ def is_single_parenthesis(obj) -> bool:
     return isinstance(obj, Parenthesis) and len(obj.args) == 1
 
 
+def indent_parenthesis(parenthesis, transformed_parenthesis: str) -> str:
+    """Puts the content of a parenthesis on lines of its own."""
+    if isinstance(parenthesis.args[0], SelectStatement):
+        return transformed_parenthesis
+    return "(\n " + transformed_parenthesis[1:-1].replace("\n", "\n ") + "\n)"
+
+
 class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
         if is_single_parenthesis(self.value) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + indent_parenthesis(self.value, transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -421,7 +428,7 @@ class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if is_single_parenthesis(self.value) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + indent_parenthesis(self.value, transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1601,7 +1608,7 @@ class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if is_single_parenthesis(self.value) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + indent_parenthesis(self.value, transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1611,7 +1618,7 @@ class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if is_single_parenthesis(self.value) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + indent_parenthesis(self.value, transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1823,9 +1830,8 @@ class Case(Expression):
             when_then_str = "WHEN"
             transformed_when = transform(when)
             if is_single_parenthesis(when) and "\n" in transformed_when:
-                when_then_str += (
-                    " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
-                )
+                transformed_when = indent_parenthesis(when, transformed_when)
+                when_then_str += " " + transformed_when.replace("\n", "\n ") + "\n "
             elif "\n" in transformed_when:
                 when_then_str += "\n  " + transformed_when.replace("\n", "\n  ") + "\n "
             else:
-- 
2.43.0


From 38d35f2bf31132a1ee23584f01f3ee143f5da994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:39 +0000
Subject: [PATCH 50/88] fix: collect the columns of a bracketed FROM item once

---
 sqlvalidator/grammar/sql.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 58932b1..4b1be36 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1172,9 +1172,7 @@ class Parenthesis(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        if hasattr(self.args[0], "known_fields"):
-            return self.args[0].known_fields
-        return set()
+        return getattr(self.args[0], "known_fields", set())
 
     @property
     def return_type(self):
-- 
2.43.0


From 9f7c8b0fd959f59f9107e96621071f910accff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:41 +0000
Subject: [PATCH 51/88] fix: format a WITH query inside another one

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4b1be36..8d88bab 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -605,11 +605,14 @@ class WithStatement(Expression):
         self.with_queries = with_queries
         self.select_statement = select_statement
 
-    def transform(self):
-        return "WITH {}\n{}".format(
+    def transform(self, is_subquery=False):
+        statement_str = "WITH {}\n{}".format(
             ",\n".join(map(transform, self.with_queries)),
             transform(self.select_statement),
         )
+        if is_subquery:
+            statement_str = " " + statement_str.replace("\n", "\n ")
+        return statement_str
 
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
-- 
2.43.0


From 757dca0c1afc10b32a0ab31cc7174a50b0eebf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:16 +0000
Subject: [PATCH 52/88] fix: keep the lines of a string literal when indenting
 it

---
 sqlvalidator/grammar/sql.py   | 9 +++++++++
 sqlvalidator/sql_formatter.py | 3 ++-
 sqlvalidator/sql_validator.py | 3 ++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8d88bab..323fee9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -13,6 +13,10 @@ def transform(obj: Any) -> str:
     return str(obj)
 
 
+def format_statement(statement: Any) -> str:
+    return transform(statement).replace(String.NEWLINE, "\n")
+
+
 def without_quotes(name: str) -> str:
     for quote in String.QUOTES:
         name = name.replace(quote, "")
@@ -1047,12 +1051,17 @@ class DatePartExtraction(Expression):
 class String(Expression):
     QUOTES = ("'", '"', "`")
     PREFIXES = ("r",)
+    # Stands for a newline of the value, that should not be indented
+    NEWLINE = "\ufdd0"
 
     def __init__(self, value, quotes, prefix=None):
         super().__init__(value)
         self.quotes = quotes
         self.prefix = prefix
 
+    def transform(self):
+        return str(self).replace("\n", self.NEWLINE)
+
     def __str__(self):
         return "{prefix}{quotes}{value}{quotes}".format(
             quotes=self.quotes, value=self.value, prefix=self.prefix or ""
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index e4702de..a3a8465 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,6 +1,7 @@
 from sqlvalidator.grammar.lexer import SQLStatementParser
+from sqlvalidator.grammar.sql import format_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
 
 
 def format_sql(sql_string: str) -> str:
-    return SQLStatementParser.parse(to_tokens(sql_string)).transform()
+    return format_statement(SQLStatementParser.parse(to_tokens(sql_string)))
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fc07a50..430730d 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -1,6 +1,7 @@
 from typing import List
 
 from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
+from sqlvalidator.grammar.sql import format_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
 
 
@@ -18,7 +19,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return self.sql_query.transform()
+        return format_statement(self.sql_query)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From aa87dc27e1437f9153e43e85a9c4e5dcc07b91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 53/88] fix: read the escape sequences of Python strings

---
 sqlvalidator/file_handler.py | 58 ++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 9b90260..f4643fa 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,7 +1,9 @@
+import ast
 import io
 import os
 import sys
 import tokenize
+import warnings
 from typing import IO, List, Optional, Set, Tuple
 
 from . import sql_validator
@@ -416,11 +418,13 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
 
     assert quotes is not None, "Could not find quotes"
 
-    if quotes_prefix is not None:
-        sql_string = sql_string[len(quotes_prefix) :]
-    sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
+    prefix = quotes_prefix or ""
+    content = sql_string[len(prefix) + len(quotes) : -len(quotes)]
+    has_escapes = "\\" in content and not set(prefix.lower()) & {"r", "f"}
 
-    sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
+    sql_query = sql_validator.SQLQuery(
+        evaluate_string(sql_string) if has_escapes else content
+    )
     formatted_sql = sql_query.format()
 
     if len(quotes) == 1 and "\n" in formatted_sql:
@@ -432,19 +436,47 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     else:
         new_quotes = quotes
 
-    if len(new_quotes) == 3 and (
+    needs_own_lines = len(new_quotes) == 3 and (
         "\n" in formatted_sql or formatted_sql.endswith(new_quotes[0])
-    ):
-        quoted_sql = "{prefix}{quotes}\n{sql}\n{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
-        )
-    else:
-        quoted_sql = "{prefix}{quotes}{sql}{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
-        )
+    )
+    if has_escapes:
+        formatted_sql = escape_string(formatted_sql, new_quotes, content)
+    if needs_own_lines:
+        formatted_sql = "\n" + formatted_sql + "\n"
+    quoted_sql = prefix + new_quotes + formatted_sql + new_quotes
+
+    if has_escapes and evaluate_string(quoted_sql) == sql_query.sql:
+        return sql_string, sql_query
     return quoted_sql, sql_query
 
 
+def evaluate_string(string: str) -> str:
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore")
+        value = ast.literal_eval(string)
+    return value.decode("latin-1") if isinstance(value, bytes) else value
+
+
+def escape_string(value: str, quotes: str, original_content: str) -> str:
+    """
+    Write a value so that it can be put between the quotes,
+    with an escape sequence for the special characters that had one before.
+    """
+    escaped_value = ""
+    for char in value:
+        if char == "\\":
+            escaped_value += "\\\\"
+        elif (
+            char == "\n"
+            or char in original_content
+            or (char.isascii() and char.isprintable())
+        ):
+            escaped_value += char
+        else:
+            escaped_value += char.encode("unicode_escape").decode()
+    return escaped_value.replace(quotes, ("\\" + quotes[0]) * len(quotes))
+
+
 def is_select_string(token_value: str) -> bool:
     cleaned_value = token_value.lower().lstrip(" \n'\"`ufbr")
     lines = cleaned_value.splitlines()
-- 
2.43.0


From ce87aa8af11d24ca2bfd411cabcc05cd01f638e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:19 +0000
Subject: [PATCH 54/88] fix: read the queries combined by UNION, INTERSECT or
 EXCEPT as such

---
 sqlvalidator/grammar/lexer.py | 149 +++++++++++++++++++++++++++-------
 sqlvalidator/grammar/sql.py   |  93 +++++++++++++++++----
 2 files changed, 199 insertions(+), 43 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3d6d3cf..f75eaf9 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -47,6 +47,7 @@ from sqlvalidator.grammar.sql import (
     WindowFrameClause,
     WithQuery,
     WithStatement,
+    is_star,
 )
 from sqlvalidator.grammar.tokeniser import (
     get_open_quote,
@@ -62,6 +63,16 @@ class ParsingError(Exception):
     pass
 
 
+def is_query(tokens) -> bool:
+    first_token = lower(tokens[0]) if tokens else None
+    if first_token == "(":
+        _, set_operator = get_tokens_until_one_of(
+            iter(tokens), CombinedQueries.OPERATIONS, keep=[("*", "except")]
+        )
+        return set_operator is not None
+    return first_token in ("select", "with")
+
+
 class SQLStatementParser:
     @staticmethod
     def parse(tokens):
@@ -70,6 +81,13 @@ class SQLStatementParser:
             return SelectStatementParser.parse(tokens)
         if lower(next_token) == "with":
             return WithStatementParser.parse(tokens)
+        if next_token == "(":
+            query_tokens, next_token = get_tokens_until_one_of(
+                tokens, CombinedQueries.OPERATIONS, first_token=next_token
+            )
+            if next_token is not None:
+                left_query = FromStatementParser.parse(iter(query_tokens))
+                return CombinedQueriesParser.parse(tokens, left_query, next_token)
         raise ParsingError("expected SELECT or WITH")
 
 
@@ -78,6 +96,13 @@ class SelectStatementParser:
 
     @classmethod
     def parse(cls, tokens):
+        statement, next_token = cls.parse_single(tokens)
+        if lower(next_token) in CombinedQueries.OPERATIONS:
+            return CombinedQueriesParser.parse(tokens, statement, next_token)
+        return statement
+
+    @classmethod
+    def parse_single(cls, tokens):
         first_expression_token = None
         next_token = next(tokens)
 
@@ -100,14 +125,18 @@ class SelectStatementParser:
             first_expression_token = next_token
 
         expression_tokens, next_token = get_tokens_until_one_of(
-            tokens, cls.keywords, first_token=first_expression_token
+            tokens,
+            cls.keywords + CombinedQueries.OPERATIONS,
+            first_token=first_expression_token,
+            keep=[("*", "except")],
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
 
         if lower(next_token) == "from":
             expression_tokens, next_token = get_tokens_until_one_of(
                 tokens,
-                ["where", "group", "having", "order", "limit", "offset", ";"],
+                ("where", "group", "having", "order", "limit", "offset", ";")
+                + CombinedQueries.OPERATIONS,
                 keep=[("with", "offset")],
             )
             from_statement = FromStatementParser.parse(iter(expression_tokens))
@@ -128,7 +157,9 @@ class SelectStatementParser:
             if not lower(next_token) == "by":
                 raise ParsingError("Missing BY after GROUP")
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["having", "order", "limit", "offset", ";"]
+                tokens,
+                ("having", "order", "limit", "offset", ";")
+                + CombinedQueries.OPERATIONS,
             )
             group_by_clause = GroupByParser.parse(iter(expression_tokens))
             group_by_clause.group_each_by = group_each_by
@@ -140,12 +171,40 @@ class SelectStatementParser:
         else:
             having_clause = None
 
+        (
+            order_by_clause,
+            limit_clause,
+            offset_clause,
+            next_token,
+        ) = ResultClausesParser.parse(tokens, next_token)
+
+        semi_colon = bool(next_token and next_token == ";")
+        statement = SelectStatement(
+            select_all=select_all,
+            select_distinct=select_distinct,
+            select_distinct_on=select_distinct_on,
+            expressions=expressions,
+            from_statement=from_statement,
+            where_clause=where_clause,
+            group_by_clause=group_by_clause,
+            having_clause=having_clause,
+            order_by_clause=order_by_clause,
+            limit_clause=limit_clause,
+            offset_clause=offset_clause,
+            semi_colon=semi_colon,
+        )
+        return statement, next_token
+
+
+class ResultClausesParser:
+    @staticmethod
+    def parse(tokens, next_token):
         if lower(next_token) == "order":
             next_token = next(tokens, None)
             if not lower(next_token) == "by":
                 raise ParsingError("Missing BY after ORDER")
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["limit", "offset", ";"]
+                tokens, ("limit", "offset", ";") + CombinedQueries.OPERATIONS
             )
             order_by_clause = OrderByParser.parse(iter(expression_tokens))
         else:
@@ -153,33 +212,59 @@ class SelectStatementParser:
 
         if lower(next_token) == "limit":
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["offset", ";"]
+                tokens, ("offset", ";") + CombinedQueries.OPERATIONS
             )
             limit_clause = LimitClauseParser.parse(iter(expression_tokens))
         else:
             limit_clause = None
 
         if lower(next_token) == "offset":
-            expression_tokens, next_token = get_tokens_until_one_of(tokens, [";"])
+            expression_tokens, next_token = get_tokens_until_one_of(
+                tokens, (";",) + CombinedQueries.OPERATIONS
+            )
             offset_clause = OffsetClauseParser.parse(iter(expression_tokens))
         else:
             offset_clause = None
 
-        semi_colon = bool(next_token and next_token == ";")
-        return SelectStatement(
-            select_all=select_all,
-            select_distinct=select_distinct,
-            select_distinct_on=select_distinct_on,
-            expressions=expressions,
-            from_statement=from_statement,
-            where_clause=where_clause,
-            group_by_clause=group_by_clause,
-            having_clause=having_clause,
-            order_by_clause=order_by_clause,
-            limit_clause=limit_clause,
-            offset_clause=offset_clause,
-            semi_colon=semi_colon,
-        )
+        return order_by_clause, limit_clause, offset_clause, next_token
+
+
+class CombinedQueriesParser:
+    @staticmethod
+    def parse(tokens, left_query, next_token):
+        query = left_query
+        while lower(next_token) in CombinedQueries.OPERATIONS:
+            operator_tokens, next_token = get_tokens_until_not_in(
+                tokens, ("all", "distinct"), first_token=next_token
+            )
+            set_operator = SetOperatorTypeParser.parse(iter(operator_tokens))
+            if lower(next_token) in (None, "order", "limit", "offset", ";"):
+                raise ParsingError("Missing query after {}".format(set_operator))
+
+            if lower(next_token) == "select":
+                right_query, next_token = SelectStatementParser.parse_single(tokens)
+            else:
+                query_tokens, next_token = get_tokens_until_one_of(
+                    tokens,
+                    ("order", "limit", "offset", ";") + CombinedQueries.OPERATIONS,
+                    first_token=next_token,
+                    keep=[("with", "offset")],
+                )
+                right_query = FromStatementParser.parse(iter(query_tokens))
+            query = CombinedQueries(set_operator, query, right_query)
+
+        if isinstance(query.right_query, SelectStatement):
+            # The last clauses are those of all the combined queries
+            query.take_result_clauses(query.right_query)
+        else:
+            (
+                query.order_by_clause,
+                query.limit_clause,
+                query.offset_clause,
+                next_token,
+            ) = ResultClausesParser.parse(tokens, next_token)
+            query.semi_colon = next_token == ";"
+        return query
 
 
 class FromStatementParser:
@@ -244,7 +329,9 @@ class FromStatementParser:
         while lower(next_token) in CombinedQueries.SET_OPERATORS:
             left_expr = expression
             expression_tokens, next_token = get_tokens_until_not_in(
-                tokens, CombinedQueries.SET_OPERATORS, first_token=next_token
+                tokens,
+                CombinedQueries.SET_OPERATORS + ("distinct",),
+                first_token=next_token,
             )
             set_operator = SetOperatorTypeParser.parse(iter(expression_tokens))
             expression_tokens, next_token = get_tokens_until_one_of(
@@ -420,7 +507,8 @@ class WhereClauseParser:
         expression, next_token = ExpressionParser.parse(
             tokens,
             can_alias=False,
-            until_one_of=("group", "having", "order", "limit", "offset", ";"),
+            until_one_of=("group", "having", "order", "limit", "offset", ";")
+            + CombinedQueries.OPERATIONS,
         )
         return WhereClause(expression), next_token
 
@@ -445,7 +533,9 @@ class HavingClauseParser:
     @staticmethod
     def parse(tokens):
         expression, next_token = ExpressionParser.parse(
-            tokens, can_alias=False, until_one_of=["order", "limit", "offset", ";"]
+            tokens,
+            can_alias=False,
+            until_one_of=("order", "limit", "offset", ";") + CombinedQueries.OPERATIONS,
         )
         return HavingClause(expression), next_token
 
@@ -516,12 +606,13 @@ class OffsetClauseParser:
 class ExpressionListParser:
     @staticmethod
     def parse(tokens, can_be_type=False):
-        next_token = next(tokens, None)
-        if lower(next_token) == "select":
+        tokens = list(tokens)
+        if is_query(tokens):
             # The commas of a subquery do not separate expressions
-            subquery, _ = ExpressionParser.parse(tokens, first_token=next_token)
-            return [subquery]
+            return [SQLStatementParser.parse(iter(tokens))]
 
+        tokens = iter(tokens)
+        next_token = next(tokens, None)
         expressions = []
         expression_tokens = []
         count_parenthesis = 0
@@ -911,7 +1002,7 @@ class ExpressionParser:
                 right_alias.expression = expression
                 expression = right_alias
 
-        if lower(next_token) == "except":
+        if lower(next_token) == "except" and is_star(expression):
             opening_parenthesis = next(tokens, None)
             if opening_parenthesis != "(":
                 raise ParsingError("expected '('")
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 323fee9..5ecca09 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -13,6 +13,19 @@ def transform(obj: Any) -> str:
     return str(obj)
 
 
+def transform_result_clauses(query) -> str:
+    clauses_str = ""
+    if query.order_by_clause:
+        clauses_str += "\nORDER BY{}".format(transform(query.order_by_clause))
+
+    if query.limit_clause:
+        clauses_str += "\nLIMIT {}".format(transform(query.limit_clause))
+
+    if query.offset_clause:
+        clauses_str += "\nOFFSET {}".format(transform(query.offset_clause))
+    return clauses_str
+
+
 def format_statement(statement: Any) -> str:
     return transform(statement).replace(String.NEWLINE, "\n")
 
@@ -119,14 +132,7 @@ class SelectStatement:
         if self.having_clause:
             statement_str += "\nHAVING{}".format(transform(self.having_clause))
 
-        if self.order_by_clause:
-            statement_str += "\nORDER BY{}".format(transform(self.order_by_clause))
-
-        if self.limit_clause:
-            statement_str += "\nLIMIT {}".format(transform(self.limit_clause))
-
-        if self.offset_clause:
-            statement_str += "\nOFFSET {}".format(transform(self.offset_clause))
+        statement_str += transform_result_clauses(self)
 
         if is_subquery:
             statement_str = " " + statement_str.replace("\n", "\n ")
@@ -326,13 +332,17 @@ def is_select_position(position: int, select_expressions) -> bool:
     return position > 0 and (has_star or position <= len(select_expressions))
 
 
+def is_query(obj) -> bool:
+    return isinstance(obj, (SelectStatement, WithStatement, CombinedQueries))
+
+
 def is_single_parenthesis(obj) -> bool:
     return isinstance(obj, Parenthesis) and len(obj.args) == 1
 
 
 def indent_parenthesis(parenthesis, transformed_parenthesis: str) -> str:
     """Puts the content of a parenthesis on lines of its own."""
-    if isinstance(parenthesis.args[0], SelectStatement):
+    if is_query(parenthesis.args[0]):
         return transformed_parenthesis
     return "(\n " + transformed_parenthesis[1:-1].replace("\n", "\n ") + "\n)"
 
@@ -625,6 +635,10 @@ class WithStatement(Expression):
         errors += self.select_statement.validate(known_fields)
         return errors
 
+    @property
+    def first_query(self):
+        return self.select_statement
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return self.select_statement.known_fields
@@ -1154,7 +1168,7 @@ class Parenthesis(Expression):
         return "({})".format(
             ", ".join(
                 "\n" + a.transform(is_subquery=True) + "\n"
-                if isinstance(a, SelectStatement)
+                if is_query(a)
                 else transform(a)
                 for a in self.args
             )
@@ -1182,6 +1196,10 @@ class Parenthesis(Expression):
             errors += a.validate(known_fields)
         return errors
 
+    @property
+    def first_query(self):
+        return self.value
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return getattr(self.args[0], "known_fields", set())
@@ -1566,14 +1584,26 @@ class Join(Expression):
 
 
 class CombinedQueries(Expression):
-    SET_OPERATORS = ("union", "intersect", "except", "all")
+    OPERATIONS = ("union", "intersect", "except")
+    SET_OPERATORS = OPERATIONS + ("all",)
 
     def __init__(self, set_operator, left_query, right_query):
         self.set_operator = set_operator
         self.left_query = left_query
         self.right_query = right_query
+        # Clauses that apply to the combined queries
+        self.order_by_clause = None
+        self.limit_clause = None
+        self.offset_clause = None
+        self.semi_colon = False
+
+    def take_result_clauses(self, query):
+        self.order_by_clause, query.order_by_clause = query.order_by_clause, None
+        self.limit_clause, query.limit_clause = query.limit_clause, None
+        self.offset_clause, query.offset_clause = query.offset_clause, None
+        self.semi_colon, query.semi_colon = query.semi_colon, False
 
-    def __str__(self):
+    def transform(self, is_subquery=False):
         left_query = transform(self.left_query)
         right_query = transform(self.right_query)
         if isinstance(self.right_query, Table):
@@ -1581,7 +1611,15 @@ class CombinedQueries(Expression):
         else:
             right_query = "\n" + right_query
 
-        return "{}\n{}{}".format(left_query, self.set_operator.upper(), right_query)
+        statement_str = "{}\n{}{}".format(
+            left_query, self.set_operator.upper(), right_query
+        )
+        statement_str += transform_result_clauses(self)
+        if is_subquery:
+            statement_str = " " + statement_str.replace("\n", "\n ")
+        elif self.semi_colon:
+            statement_str += ";"
+        return statement_str
 
     def __eq__(self, other):
         return (
@@ -1589,6 +1627,10 @@ class CombinedQueries(Expression):
             and self.set_operator == other.set_operator
             and self.left_query == other.left_query
             and self.right_query == other.right_query
+            and self.order_by_clause == other.order_by_clause
+            and self.limit_clause == other.limit_clause
+            and self.offset_clause == other.offset_clause
+            and self.semi_colon == other.semi_colon
         )
 
     def __repr__(self):
@@ -1603,16 +1645,39 @@ class CombinedQueries(Expression):
             self.right_query,
         )
 
-    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        known_fields = known_fields or set()
         errors = super().validate(known_fields)
         errors += self.left_query.validate(known_fields)
         errors += self.right_query.validate(known_fields)
+        if self.order_by_clause:
+            # The first query gives the names of the columns
+            query = self.left_query
+            while isinstance(query, (CombinedQueries, Parenthesis, WithStatement)):
+                query = query.first_query
+            errors += self.order_by_clause.validate(
+                known_fields
+                | getattr(query, "known_fields", set())
+                | getattr(getattr(query, "from_statement", None), "known_fields", set()),
+                getattr(query, "expressions", None),
+            )
+        if self.limit_clause:
+            errors += self.limit_clause.validate(known_fields)
+        if self.offset_clause:
+            errors += self.offset_clause.validate(known_fields)
         return errors
 
+    @property
+    def first_query(self):
+        return self.left_query
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return self.left_query.known_fields
 
+    def resolve_return_type(self, known_fields):
+        return object
+
 
 class OnClause(Expression):
     def __str__(self):
-- 
2.43.0


From af45e08eb406ba4d2028c36105cefe3083f862b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 55/88] fix: keep the lines of a string literal given as OFFSET

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5ecca09..9976d1b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -284,7 +284,7 @@ class Expression:
         self.value = value
 
     def __str__(self):
-        return str(self.value)
+        return transform(self.value)
 
     def __repr__(self):
         return "<{}: {!r}>".format(self.__class__.__name__, self.value)
-- 
2.43.0


From 1fc93f2c11b4fb73654cda025adeb7bc116b9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 56/88] fix: refuse clauses that do not belong to combined
 queries

---
 sqlvalidator/grammar/lexer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index f75eaf9..ccf2819 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -246,11 +246,17 @@ class CombinedQueriesParser:
             else:
                 query_tokens, next_token = get_tokens_until_one_of(
                     tokens,
-                    ("order", "limit", "offset", ";") + CombinedQueries.OPERATIONS,
+                    SelectStatementParser.keywords + CombinedQueries.OPERATIONS,
                     first_token=next_token,
                     keep=[("with", "offset")],
                 )
                 right_query = FromStatementParser.parse(iter(query_tokens))
+                if lower(next_token) in ("from", "where", "group", "having"):
+                    raise ParsingError(
+                        "Unexpected {} after {}".format(
+                            next_token.upper(), set_operator
+                        )
+                    )
             query = CombinedQueries(set_operator, query, right_query)
 
         if isinstance(query.right_query, SelectStatement):
-- 
2.43.0


From c09261ebc7cd735b6dcefd19cfa22349c26bcada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:18 +0000
Subject: [PATCH 57/88] fix: read combined queries in brackets after WITH

---
 sqlvalidator/grammar/lexer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index ccf2819..a6f76e9 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -1,3 +1,4 @@
+from itertools import chain
 from typing import Any, Optional, Tuple
 
 from sqlvalidator.grammar.sql import (
@@ -484,7 +485,7 @@ class WithStatementParser:
         with_queries = []
 
         with_query_name = None
-        while lower(with_query_name) != "select":
+        while lower(with_query_name) not in ("select", "("):
             with_query_name = next(tokens)
             next_token = next(tokens)
             assert lower(next_token) == "as", next_token
@@ -497,7 +498,7 @@ class WithStatementParser:
             with_queries.append(WithQuery(with_query_name, with_statement))
             with_query_name = next(tokens)
 
-        select_statement = SelectStatementParser.parse(tokens)
+        select_statement = SQLStatementParser.parse(chain([with_query_name], tokens))
         return WithStatement(with_queries, select_statement)
 
 
-- 
2.43.0


From 876ef2d34d718f1d5f4eec2bc9d70efd15e049e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 58/88] fix: report the errors of combined queries in brackets
 after FROM

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index a6f76e9..81ee325 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -283,7 +283,7 @@ class FromStatementParser:
             try:
                 argument = SQLStatementParser.parse(iter(argument_tokens))
             except ParsingError:
-                if lower(argument_tokens[0]) in ("select", "with"):
+                if is_query(argument_tokens):
                     raise
                 argument = FromStatementParser.parse(iter(argument_tokens))
             expression = Parenthesis(argument)
-- 
2.43.0


From f13410d88527f199ca923c877f108d6f23a4e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:12 +0000
Subject: [PATCH 59/88] fix: do not take a string literal for a star

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9976d1b..43fbd9e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -185,7 +185,7 @@ class SelectStatement:
 
             if isinstance(e, Alias):
                 fields.add(_FieldInfo(e.name, e.return_type))
-            elif isinstance(e, String):
+            elif isinstance(e, String) and e.value.split(".", 1)[-1] != "*":
                 fields.add(_FieldInfo(e.value, object))
             elif isinstance(e, (Column, ChainedColumns)):
                 prefix, name = without_quotes(transform(e)).rpartition(".")[::2]
-- 
2.43.0


From 6b26f348e3ef3a42527ffaeebc487281f0ea2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 60/88] fix: do not look up literals among the columns

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 43fbd9e..f6b38ec 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -308,6 +308,8 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
+        if not isinstance(self, (Column, ChainedColumns)):
+            return self.return_type
         name = transform(self)
         matching_fields = [f for f in known_fields if f.name == name] or [
             f for f in known_fields if f.name.split(".", 1)[-1] == name
-- 
2.43.0


From c63b377761384028e935fb42b399af53988dafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:43 +0000
Subject: [PATCH 61/88] fix: end the search for opt-out comments with the
 statement

---
 sqlvalidator/file_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index f4643fa..adeb3b4 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -261,6 +261,7 @@ def compute_file_content(
 
         following_tokens = []
         # Find if the next comment without a string in-between if there is one
+        # within the statement
         next_token, next_token_value, next_starting, next_ending, next_line = next(
             token_generator, (None, None, None, None, None)
         )
@@ -282,6 +283,7 @@ def compute_file_content(
             next_token
             and next_token != tokenize.COMMENT
             and next_token != tokenize.STRING
+            and next_token != tokenize.NEWLINE
         ):
             next_token, next_token_value, next_starting, next_ending, next_line = next(
                 token_generator, (None, None, None, None, None)
-- 
2.43.0


From a787ce900e3fe6864f4e0f3a2e106fc70ad9877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 62/88] fix: read carriage returns and form feeds as whitespace

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 92da4e6..d5daaac 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -2,7 +2,7 @@ import re
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
-WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t")
+WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t", "\r", "\f", "\v")
 KEPT_SPLIT_TOKENS = (
     ",",
     ";",
-- 
2.43.0


From fa698ec31b1ee9f2cdcdb401b8a28f272dbd3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 63/88] fix: recognise SELECT strings by their content

---
 sqlvalidator/file_handler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index adeb3b4..53e08c5 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -480,11 +480,16 @@ def escape_string(value: str, quotes: str, original_content: str) -> str:
 
 
 def is_select_string(token_value: str) -> bool:
-    cleaned_value = token_value.lower().lstrip(" \n'\"`ufbr")
-    lines = cleaned_value.splitlines()
-    if not lines:
-        return False
-    return lines[0].split(" ", maxsplit=1)[0] == "select"
+    content = token_value.lstrip("ufbrUFBR")
+    quotes = content[:3] if content[:3] in POSSIBLE_QUOTES else content[:1]
+    content = content[len(quotes) : -len(quotes)]
+    if "\\" in content:
+        try:
+            content = evaluate_string(token_value)
+        except (SyntaxError, ValueError):
+            pass
+    words = content.split(maxsplit=1)
+    return len(words) > 1 and words[0].lower() == "select"
 
 
 def print_format_summary(num_changed_files: int, changed_sql: int, check: bool):
-- 
2.43.0


From 630afa86bf39357787a4004b8c9fd2835bdfcf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:00 +0000
Subject: [PATCH 64/88] fix: read and write files in the encoding they declare

---
 sqlvalidator/file_handler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 53e08c5..16e2f08 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -194,7 +194,10 @@ def analyse_file(
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
-    with open(filename, "r", newline="") as file:
+    with open(filename, "rb") as binary_file:
+        encoding, _ = tokenize.detect_encoding(binary_file.readline)
+
+    with open(filename, "r", encoding=encoding, newline="") as file:
         (
             count_changed_sql,
             new_content,
@@ -208,8 +211,9 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w", newline="") as f:
-                f.write(new_content)
+            encoded_content = new_content.encode(encoding)
+            with open(filename, "wb") as f:
+                f.write(encoded_content)
             starting_text = "reformatted"
         elif check:
             starting_text = "would reformat"
-- 
2.43.0


From aa61c3253baa14eb44dd3ffe0e414d0ef47264eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:02 +0000
Subject: [PATCH 65/88] fix: handle a file reached through a link once

---
 sqlvalidator/file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 16e2f08..115d966 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -189,7 +189,7 @@ def analyse_file(
     verbose_validate: bool,
     seen_files: Set[str],
 ) -> InputSQLAnalyseInfo:
-    abs_filename = os.path.abspath(filename)
+    abs_filename = os.path.realpath(filename)
     if abs_filename in seen_files:
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
-- 
2.43.0


From 123208ba3358948880466cec3ba289f9948762e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 66/88] fix: give the comment after a f-string to no string
 before it

---
 sqlvalidator/file_handler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 115d966..b57b1c6 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -11,6 +11,10 @@ from . import sql_validator
 NO_SQLFORMAT_COMMENT = "nosqlformat"
 NO_SQLVALIDATION_COMMENT = "nosqlvalidation"
 
+# Before Python 3.12, a f-string is a single string token
+FSTRING_START = getattr(tokenize, "FSTRING_START", None)
+FSTRING_END = getattr(tokenize, "FSTRING_END", None)
+
 POSSIBLE_QUOTES = ('"""', "'''", '"', "'")
 STRING_PREFIXES = (
     "r",
@@ -288,6 +292,7 @@ def compute_file_content(
             and next_token != tokenize.COMMENT
             and next_token != tokenize.STRING
             and next_token != tokenize.NEWLINE
+            and next_token != FSTRING_START
         ):
             next_token, next_token_value, next_starting, next_ending, next_line = next(
                 token_generator, (None, None, None, None, None)
@@ -344,25 +349,23 @@ def find_partial_strings(tokens: list) -> Set[Tuple[int, int]]:
     Positions of the strings that do not stand for themselves: those implicitly
     concatenated with a neighbouring string, and those within an f-string.
     """
-    fstring_start = getattr(tokenize, "FSTRING_START", None)
-    fstring_end = getattr(tokenize, "FSTRING_END", None)
     partial_strings = set()
     fstring_depth = 0
     previous_string = None
     for token_type, _, starting, _, _ in tokens:
         if token_type in (tokenize.NL, tokenize.COMMENT):
             continue
-        if token_type in (tokenize.STRING, fstring_start):
+        if token_type in (tokenize.STRING, FSTRING_START):
             if fstring_depth > 0:
                 partial_strings.add(starting)
             elif previous_string is not None:
                 partial_strings |= {previous_string, starting}
             previous_string = starting
-        elif token_type != fstring_end:
+        elif token_type != FSTRING_END:
             previous_string = None
-        if token_type == fstring_start:
+        if token_type == FSTRING_START:
             fstring_depth += 1
-        elif token_type == fstring_end:
+        elif token_type == FSTRING_END:
             fstring_depth -= 1
             previous_string = starting
     return partial_strings
-- 
2.43.0


From d22ba5e9ae7ce3c700ad0f3d90d11c57159ba990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:45 +0000
Subject: [PATCH 67/88] fix: keep the lines of a quoted alias in a join

---
 sqlvalidator/grammar/sql.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f6b38ec..76d7ffd 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1490,7 +1490,9 @@ class Join(Expression):
 
         if alias:
             right_element = "{}{} {}".format(
-                right_element, " AS" if alias.with_as else "", alias.alias
+                right_element,
+                " AS" if alias.with_as else "",
+                transform(alias.alias),
             )
 
         left_from = self.left_from
@@ -1521,7 +1523,9 @@ class Join(Expression):
             )
         if alias:
             left_element = "{}{} {}".format(
-                left_element, " AS" if alias.with_as else "", alias.alias
+                left_element,
+                " AS" if alias.with_as else "",
+                transform(alias.alias),
             )
 
         join_type_str = (
-- 
2.43.0


From 5ea7953322ec8edf36013923a7809952e9b144ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:08 +0000
Subject: [PATCH 68/88] fix: compare a constant's name with the name it is
 written as

---
 sqlvalidator/grammar/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 76d7ffd..df62d05 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -915,9 +915,10 @@ class Column(Expression):
     # Values that are filled in later, such as %s, %(name)s, ?, :name, @name, $1, {name}
     PLACEHOLDER = re.compile(r"%s|%\(\w+\)[a-z]|\?|[:@$]\w+|\{\w*\}")
 
+    def __init__(self, value):
+        super().__init__(value.upper() if lower(value) in self.KEYWORDS else value)
+
     def __str__(self):
-        if lower(self.value) in self.KEYWORDS:
-            return self.value.upper()
         return str(self.value)
 
     def validate(self, known_fields):
@@ -1257,7 +1258,9 @@ class Alias(Expression):
 
     @property
     def name(self) -> str:
-        return getattr(self.alias, "value", self.alias)
+        if isinstance(self.alias, str):
+            return Column(self.alias).value
+        return self.alias.value
 
     def __repr__(self):
         return "<Alias: {!r} as={} {!r}>".format(
-- 
2.43.0


From b3fc7973bc7308dc9ff276d12edfa7a44946332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 69/88] fix: a string literal gives its column no name

---
 sqlvalidator/grammar/sql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index df62d05..ddac95a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -185,7 +185,11 @@ class SelectStatement:
 
             if isinstance(e, Alias):
                 fields.add(_FieldInfo(e.name, e.return_type))
-            elif isinstance(e, String) and e.value.split(".", 1)[-1] != "*":
+            elif (
+                isinstance(e, String)
+                and e.quotes != "'"
+                and e.value.split(".", 1)[-1] != "*"
+            ):
                 fields.add(_FieldInfo(e.value, object))
             elif isinstance(e, (Column, ChainedColumns)):
                 prefix, name = without_quotes(transform(e)).rpartition(".")[::2]
-- 
2.43.0


From a560f54f89c0c81c83ef7e1f176509cc1a5749a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 70/88] fix: accept NULL as a condition

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ddac95a..da9e0a8 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1135,7 +1135,8 @@ class Null(Expression):
 
     @property
     def return_type(self):
-        return type(None)
+        # NULL is a value of every type
+        return object
 
 
 class Boolean(Expression):
-- 
2.43.0


From ad168ed8256237c7eb22579a1488621569de1eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:28 +0000
Subject: [PATCH 71/88] fix: report a query that cannot be parsed as invalid

---
 sqlvalidator/file_handler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index b57b1c6..00b2cb8 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -274,7 +274,7 @@ def compute_file_content(
             token_generator, (None, None, None, None, None)
         )
         if next_token is None:
-            formatted_sql, sql_query = handle_sql_string(token_value)
+            formatted_sql, sql_query = handle_sql_string(token_value, should_format)
             tokens.append((token_type, formatted_sql, starting, ending, line))
             tokens += following_tokens
             if formatted_sql != token_value:
@@ -309,7 +309,7 @@ def compute_file_content(
         needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
         needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
         if next_token != tokenize.COMMENT or needs_format or needs_validate:
-            formatted_sql, sql_query = handle_sql_string(token_value)
+            formatted_sql, sql_query = handle_sql_string(token_value, needs_format)
             if formatted_sql != token_value and NO_SQLFORMAT_COMMENT not in comment:
                 tokens.append((token_type, formatted_sql, starting, ending, line))
                 count_changed_sql += 1
@@ -398,7 +398,9 @@ def replace_strings(content: str, tokens: list) -> str:
     return new_content + content[position:]
 
 
-def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
+def handle_sql_string(
+    sql_string: str, should_format: bool
+) -> Tuple[str, sql_validator.SQLQuery]:
     """
     Read a SQL string as input, potentially with quotes or not,
     and analyse it in order to get the formatter content and know if it is valid.
@@ -434,6 +436,10 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     sql_query = sql_validator.SQLQuery(
         evaluate_string(sql_string) if has_escapes else content
     )
+    if not should_format:
+        # A query that cannot be parsed, hence not formatted, can be reported invalid
+        return sql_string, sql_query
+
     formatted_sql = sql_query.format()
 
     if len(quotes) == 1 and "\n" in formatted_sql:
-- 
2.43.0


From cb150672681103298abc69aa3a3274195092cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:13 +0000
Subject: [PATCH 72/88] fix: check-format fails where format cannot write the
 result

---
 sqlvalidator/file_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 00b2cb8..779edf9 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -214,8 +214,9 @@ def analyse_file(
     file_changed = count_changed_sql > 0
     if file_changed:
         starting_text = None
+        # What the encoding of the file cannot hold cannot be formatted
+        encoded_content = new_content.encode(encoding)
         if format_input:
-            encoded_content = new_content.encode(encoding)
             with open(filename, "wb") as f:
                 f.write(encoded_content)
             starting_text = "reformatted"
-- 
2.43.0


From abd6faa117b41b91592d45ef306c2ee068d7cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:44 +0000
Subject: [PATCH 73/88] fix: an output that cannot hold a name does not stop
 the analysis

---
 sqlvalidator/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlvalidator/main.py b/sqlvalidator/main.py
index fafc3d3..51f2d8f 100644
--- a/sqlvalidator/main.py
+++ b/sqlvalidator/main.py
@@ -1,4 +1,5 @@
 import argparse
+import sys
 
 from sqlvalidator import file_handler
 
@@ -6,6 +7,10 @@ __version__ = "0.0.20"
 
 
 def _main() -> None:
+    # A name or an error that the output cannot hold must not stop the analysis
+    if getattr(sys.stdout, "errors", None) == "strict":
+        sys.stdout.reconfigure(errors="backslashreplace")  # type: ignore
+
     parser = argparse.ArgumentParser(
         description="SQL formatting and basic schemaless validation"
     )
-- 
2.43.0


From b4fd95c3e9e576d4dba1c789b0b0ddeb6fe6cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:44 +0000
Subject: [PATCH 74/88] fix: keep the bytes of a bytes literal that are no
 ASCII

---
 sqlvalidator/file_handler.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 779edf9..d52471c 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -456,7 +456,9 @@ def handle_sql_string(
         "\n" in formatted_sql or formatted_sql.endswith(new_quotes[0])
     )
     if has_escapes:
-        formatted_sql = escape_string(formatted_sql, new_quotes, content)
+        formatted_sql = escape_string(
+            formatted_sql, new_quotes, content, "b" in prefix.lower()
+        )
     if needs_own_lines:
         formatted_sql = "\n" + formatted_sql + "\n"
     quoted_sql = prefix + new_quotes + formatted_sql + new_quotes
@@ -470,10 +472,15 @@ def evaluate_string(string: str) -> str:
     with warnings.catch_warnings():
         warnings.simplefilter("ignore")
         value = ast.literal_eval(string)
-    return value.decode("latin-1") if isinstance(value, bytes) else value
+    # Bytes that are no ASCII have no letter case and are no whitespace
+    return (
+        value.decode("ascii", "surrogateescape") if isinstance(value, bytes) else value
+    )
 
 
-def escape_string(value: str, quotes: str, original_content: str) -> str:
+def escape_string(
+    value: str, quotes: str, original_content: str, is_bytes: bool
+) -> str:
     """
     Write a value so that it can be put between the quotes,
     with an escape sequence for the special characters that had one before.
@@ -482,6 +489,8 @@ def escape_string(value: str, quotes: str, original_content: str) -> str:
     for char in value:
         if char == "\\":
             escaped_value += "\\\\"
+        elif is_bytes and not char.isascii():
+            escaped_value += "\\x%02x" % char.encode("ascii", "surrogateescape")[0]
         elif (
             char == "\n"
             or char in original_content
-- 
2.43.0


From 8f7ef7bdb3c55ef2ada33270072cb3e618e53caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 75/88] fix: know select aliases within the expressions of
 GROUP BY

---
 sqlvalidator/grammar/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index da9e0a8..2cf56c6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -439,7 +439,9 @@ class GroupByClause(Expression):
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
             elif not isinstance(arg, (Column, String)):
-                errors += arg.validate(known_fields)
+                errors += arg.validate(
+                    known_fields | {_FieldInfo(name, object) for name in aliases}
+                )
 
         return errors
 
-- 
2.43.0


From 8e5e882656f9b90872f8acc1a33027ed36b9e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:23 +0000
Subject: [PATCH 76/88] fix: validate the queries within ON, UNNEST and table
 functions

---
 sqlvalidator/grammar/sql.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2cf56c6..cce0f31 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -45,6 +45,10 @@ class _FieldInfo:
         return hash(self.name)
 
 
+# The columns within FROM clauses are not checked
+ANY_FIELD = frozenset({_FieldInfo("*", object)})
+
+
 class SelectStatement:
     def __init__(
         self,
@@ -1421,6 +1425,12 @@ class Table(Expression):
             table_str = f"[{table_str}]"
         return table_str
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        if isinstance(self.value, FunctionCall):
+            errors += self.value.validate(ANY_FIELD)
+        return errors
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {_FieldInfo("*", type=object)}
@@ -1438,6 +1448,11 @@ class Unnest(Expression):
         self.with_offset_as = with_offset_as
         self.offset_alias = offset_alias
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        errors += self.value.validate(ANY_FIELD)
+        return errors
+
     def __str__(self):
         unnest_str = transform(self.value)
         if self.with_offset:
@@ -1584,6 +1599,8 @@ class Join(Expression):
             errors.append("Missing ON or USING for join")
         errors += self.left_from.validate(known_fields)
         errors += self.right_from.validate(known_fields)
+        if self.on:
+            errors += self.on.value.validate(ANY_FIELD)
         return errors
 
     @property
-- 
2.43.0


From be776e54b6d7fbb02e877c65423bffacda386b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:00 +0000
Subject: [PATCH 77/88] fix: refuse several values in brackets after LIMIT and
 OFFSET

---
 sqlvalidator/grammar/sql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index cce0f31..2e2d68e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -582,8 +582,8 @@ class LimitClause(Expression):
         if self.limit_all:
             return errors
         value = self.value
-        while isinstance(value, Parenthesis) and value.args:
-            value = value.value
+        while is_single_parenthesis(value):
+            value = value.args[0]
         if not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
         else:
@@ -596,8 +596,8 @@ class OffsetClause(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         value = self.value
-        while isinstance(value, Parenthesis) and value.args:
-            value = value.value
+        while is_single_parenthesis(value):
+            value = value.args[0]
         if not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
         else:
-- 
2.43.0


From 1c465dd69d6e8d961a388958accc4c177d91aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:03 +0000
Subject: [PATCH 78/88] fix: keep the type of a column that a subquery takes
 from another

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2e2d68e..90af73f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -204,7 +204,8 @@ class SelectStatement:
                         if f.name not in excluded_names
                     }
                 else:
-                    fields.add(_FieldInfo(name, e.return_type))
+                    source_fields = getattr(self.from_statement, "known_fields", set())
+                    fields.add(_FieldInfo(name, e.resolve_return_type(source_fields)))
             elif not isinstance(e, SelectAllClause):
                 # A column without a name
                 fields.add(_FieldInfo("", object))
-- 
2.43.0


From 7de2906a48f1f06ae834d383c0e7667f3980b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 79/88] fix: validate the arguments of table functions with an
 alias

---
 sqlvalidator/grammar/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 90af73f..49c7bc9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1428,8 +1428,8 @@ class Table(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        if isinstance(self.value, FunctionCall):
-            errors += self.value.validate(ANY_FIELD)
+        # A name, or a call with or without alias
+        errors += self.value.validate(ANY_FIELD)
         return errors
 
     @property
-- 
2.43.0


From 548029c8030356ac0123df2eeb947acae1240512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:07 +0000
Subject: [PATCH 80/88] fix: validate the columns named by EXCEPT and REPLACE

---
 sqlvalidator/grammar/sql.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 49c7bc9..a3c98e5 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1902,18 +1902,42 @@ class SelectAllClause(Expression):
             except_str += transform(self.args[0])
         return except_str + ")"
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
+    def _get_star_fields(self, known_fields: Set[_FieldInfo]) -> Set[_FieldInfo]:
+        star = self.value
+        while isinstance(star, SelectAllClause):
+            star = star.value
+        prefix = without_quotes(transform(star))[: -len("*")]
+        return {f for f in known_fields if f.name.startswith(prefix)} or known_fields
+
 
 class ExceptClause(SelectAllClause):
     KEYWORD = "EXCEPT"
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        star_fields = self._get_star_fields(known_fields)
+        names = {f.name.split(".", 1)[-1] for f in star_fields}
+        if "*" not in names:
+            errors += [
+                f"The column {arg.value} was not found"
+                for arg in self.args
+                if isinstance(arg, (Column, String)) and arg.value not in names
+            ]
+        return errors
+
 
 class ReplaceClause(SelectAllClause):
     KEYWORD = "REPLACE"
 
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
         errors = super().validate(known_fields)
+        star_fields = self._get_star_fields(known_fields)
         for arg in self.args:
-            errors += arg.alias.validate(known_fields)
+            errors += arg.alias.validate(star_fields)
+            errors += arg.validate(known_fields)
         return errors
 
 
-- 
2.43.0


From f720d60b19522664fcaa78dfb554ac7aca263d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:09 +0000
Subject: [PATCH 81/88] fix: know the types of the columns that REPLACE
 replaces

---
 sqlvalidator/grammar/sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a3c98e5..279b8f5 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -182,9 +182,12 @@ class SelectStatement:
         fields = set()
         for e in self.expressions:
             excluded_names = []
+            replaced_types = {}
             while isinstance(e, SelectAllClause):
                 if isinstance(e, ExceptClause):
                     excluded_names += [getattr(arg, "value", None) for arg in e.args]
+                elif isinstance(e, ReplaceClause):
+                    replaced_types.update((a.name, a.return_type) for a in e.args)
                 e = e.value
 
             if isinstance(e, Alias):
@@ -199,7 +202,7 @@ class SelectStatement:
                 prefix, name = without_quotes(transform(e)).rpartition(".")[::2]
                 if name == "*":
                     fields |= {
-                        f
+                        _FieldInfo(f.name, replaced_types.get(f.name, f.type))
                         for f in self._get_source_fields(prefix)
                         if f.name not in excluded_names
                     }
-- 
2.43.0


From 975a208a34c3ea960a661d3b569aebcc61c90fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:11 +0000
Subject: [PATCH 82/88] fix: refuse to format SQL whose content would change

Formatting silently dropped what the parser does not support: INTERVAL '1 day',
ILIKE, STRING_AGG(... ORDER BY ...), TABLESAMPLE, several statements... It took
comments for operators, and the prefix of b'..' literals for a column. With
--format, such queries were damaged in place. They are refused now, which leaves
the file as it is and reports it.
---
 sqlvalidator/sql_formatter.py | 42 ++++++++++++++++++++++++++++++++++-
 sqlvalidator/sql_validator.py |  4 ++--
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index a3a8465..f194e31 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,7 +1,47 @@
+import re
+from typing import List
+
 from sqlvalidator.grammar.lexer import SQLStatementParser
 from sqlvalidator.grammar.sql import format_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
 
+QUOTED_TEXT = re.compile(
+    r"(?i:(?<![\w$.])(?:br|rb|[benrx]))?([\'\"`])(?:\\.|\1\1|(?!\1)[^\\])*(?:\1|$)",
+    re.DOTALL,
+)
+UNSUPPORTED_TEXT = re.compile(r"--|/\*|(?<!\w)\$([^\W\d]\w*)?\$")
+TRAILING_COMMA = re.compile(r",\s*(?=from\b)")
+
 
 def format_sql(sql_string: str) -> str:
-    return format_statement(SQLStatementParser.parse(to_tokens(sql_string)))
+    return format_parsed_sql(
+        sql_string, SQLStatementParser.parse(to_tokens(sql_string))
+    )
+
+
+def format_parsed_sql(sql_string: str, statement) -> str:
+    if UNSUPPORTED_TEXT.search(QUOTED_TEXT.sub(" ", sql_string)):
+        raise ValueError("Comments and dollar-quoted strings are not supported")
+    formatted_sql = format_statement(statement)
+    if get_content(formatted_sql) != get_content(sql_string):
+        raise ValueError("Unsupported SQL: formatting it would change its content")
+    return formatted_sql
+
+
+def get_content(sql_string: str) -> List[str]:
+    """
+    The quoted and other texts of the SQL, regardless of its layout, of the case of
+    its words and of the comma that may follow the last selected value.
+    """
+    content = []
+    start = 0
+    for quoted_text in QUOTED_TEXT.finditer(sql_string):
+        content.append(get_unquoted_content(sql_string[start : quoted_text.start()]))
+        content.append(quoted_text.group())
+        start = quoted_text.end()
+    content.append(get_unquoted_content(sql_string[start:]))
+    return content
+
+
+def get_unquoted_content(text: str) -> str:
+    return "".join(TRAILING_COMMA.sub("", text.lower()).split())
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index 430730d..efb4641 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -1,8 +1,8 @@
 from typing import List
 
 from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
-from sqlvalidator.grammar.sql import format_statement
 from sqlvalidator.grammar.tokeniser import to_tokens
+from sqlvalidator.sql_formatter import format_parsed_sql
 
 
 class SQLQuery:
@@ -19,7 +19,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return format_statement(self.sql_query)
+        return format_parsed_sql(self.sql, self.sql_query)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From bbaa7d228b613c2cbfa81cd8a8efc3c64f73d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:17 +0000
Subject: [PATCH 83/88] fix: keep the LIMIT of ARRAY_AGG as it is written

LIMIT 0 was dropped, and leading zeros were taken away.
---
 sqlvalidator/grammar/lexer.py | 2 +-
 sqlvalidator/grammar/sql.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 81ee325..40dea05 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -795,7 +795,7 @@ class ExpressionParser:
                     limit = None
                     if lower(next_token) == "limit":
                         next_token = next(tokens)
-                        limit = int(next_token)
+                        limit = Integer(next_token)
                         next_token = next(tokens)
 
                     assert lower(next_token) == ")", next_token
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 279b8f5..30c1018 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -777,8 +777,8 @@ class ArrayAggFunctionCall(FunctionCall):
                 self.order_bys.transform(allow_linebreak=False)
             )
 
-        if self.limit:
-            array_agg_str += " LIMIT {}".format(self.limit)
+        if self.limit is not None:
+            array_agg_str += " LIMIT {}".format(transform(self.limit))
 
         return array_agg_str + ")"
 
-- 
2.43.0


From 73fe505574b987d143a388e9ec1c47406eaa403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:00 +0000
Subject: [PATCH 84/88] fix: refuse to format SQL whose operators would be
 taken apart

---
 sqlvalidator/sql_formatter.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index f194e31..f056c60 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -10,6 +10,9 @@ QUOTED_TEXT = re.compile(
     re.DOTALL,
 )
 UNSUPPORTED_TEXT = re.compile(r"--|/\*|(?<!\w)\$([^\W\d]\w*)?\$")
+OPERATOR_SYMBOLS = re.compile(
+    r"(?:[-+*/<>=!|&^#]|@(?!\w)|:(?==)|~(?=\*)|\?(?=[|&](?!\|)))+"
+)
 TRAILING_COMMA = re.compile(r",\s*(?=from\b)")
 
 
@@ -30,18 +33,21 @@ def format_parsed_sql(sql_string: str, statement) -> str:
 
 def get_content(sql_string: str) -> List[str]:
     """
-    The quoted and other texts of the SQL, regardless of its layout, of the case of
-    its words and of the comma that may follow the last selected value.
+    The quoted and other texts of the SQL with its operators, regardless of its layout,
+    of the case of its words and of the comma that may follow the last selected value.
     """
     content = []
     start = 0
     for quoted_text in QUOTED_TEXT.finditer(sql_string):
-        content.append(get_unquoted_content(sql_string[start : quoted_text.start()]))
+        content += get_unquoted_content(sql_string[start : quoted_text.start()])
         content.append(quoted_text.group())
         start = quoted_text.end()
-    content.append(get_unquoted_content(sql_string[start:]))
+    content += get_unquoted_content(sql_string[start:])
     return content
 
 
-def get_unquoted_content(text: str) -> str:
-    return "".join(TRAILING_COMMA.sub("", text.lower()).split())
+def get_unquoted_content(text: str) -> List[str]:
+    text_without_comma = TRAILING_COMMA.sub("", text.lower())
+    # Signs may follow an operator directly without being a part of it
+    operators = [symbols.rstrip("+-") for symbols in OPERATOR_SYMBOLS.findall(text)]
+    return ["".join(text_without_comma.split()), *filter(None, operators)]
-- 
2.43.0


From 137a3add17f3f68e6a701c61459002fd67467e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:12 +0000
Subject: [PATCH 85/88] fix: name the type of float arithmetic in conditions

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 30c1018..6f6ee03 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1356,7 +1356,7 @@ class ArithmaticOperator(Expression):
 
     @property
     def return_type(self):
-        if any(isinstance(a, float) for a in self.args):
+        if any(a.return_type == float for a in self.args):
             return float
         return int
 
-- 
2.43.0


From 8512bb20d5b851ede52deebef58016b91324266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 86/88] fix: report columns that are ambiguous within a
 correlated subquery

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6f6ee03..cbf3b13 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -152,6 +152,9 @@ class SelectStatement:
             if known_fields:
                 # The query's own columns hide those of the queries around it
                 names = [f.name.split(".", 1)[-1] for f in source_fields]
+                known_fields = {
+                    f for f in known_fields if f.name == "*" or f.name not in names
+                }
                 source_fields = source_fields | {
                     _FieldInfo(name, f.type)
                     for name, f in zip(names, source_fields)
-- 
2.43.0


From f57f8712a663f1448c146392fc7298076193ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:11 +0000
Subject: [PATCH 87/88] fix: know DISTINCT in the arguments of every function

---
 sqlvalidator/grammar/lexer.py | 11 ++++++++++-
 sqlvalidator/grammar/sql.py   | 15 +++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 40dea05..509fa80 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -823,6 +823,13 @@ class ExpressionParser:
                     expression = CountFunctionCall(*arguments, distinct=distinct)
                 else:
                     argument_tokens = get_tokens_until_closing_parenthesis(tokens)
+                    distinct = (
+                        len(argument_tokens) > 1
+                        and lower(argument_tokens[0]) == "distinct"
+                        and argument_tokens[1] not in (",", ".")
+                    )
+                    if distinct:
+                        argument_tokens = argument_tokens[1:]
                     arguments_can_be_type = can_be_type or any(
                         lower(t) == "timestamp_trunc"
                         for t in [main_token] + argument_tokens
@@ -830,7 +837,9 @@ class ExpressionParser:
                     arguments = ExpressionListParser.parse(
                         iter(argument_tokens), can_be_type=arguments_can_be_type
                     )
-                    expression = FunctionCall(main_token, *arguments)
+                    expression = FunctionCall(
+                        main_token, *arguments, distinct=distinct
+                    )
 
                 next_token = next(tokens, None)
                 if next_token and lower(next_token) == "filter":
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index cbf3b13..5494b71 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -672,12 +672,15 @@ class WithStatement(Expression):
 
 
 class FunctionCall(Expression):
-    def __init__(self, function_name, *args):
+    def __init__(self, function_name, *args, distinct=False):
         self.function_name = function_name
         self.args = args
+        self.distinct = distinct
 
     def __str__(self):
         transformed_args = [transform(arg) for arg in self.args]
+        if self.distinct:
+            transformed_args[0] = "DISTINCT " + transformed_args[0]
         with_newlines = (
             any("\n" in arg for arg in transformed_args)
             or len(", ".join(transformed_args)) > DEFAULT_LINE_LENGTH
@@ -711,6 +714,7 @@ class FunctionCall(Expression):
             and self.function_name == other.function_name
             and len(self.args) == len(other.args)
             and all(a == o for a, o in zip(self.args, other.args))
+            and self.distinct == other.distinct
         )
 
 
@@ -731,8 +735,7 @@ class CastFunctionCall(FunctionCall):
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-        super().__init__("count", *args)
-        self.distinct = distinct
+        super().__init__("count", *args, distinct=distinct)
 
     def __str__(self):
         return "{}({}{})".format(
@@ -741,9 +744,6 @@ class CountFunctionCall(FunctionCall):
             ", ".join(map(transform, self.args)),
         )
 
-    def __eq__(self, other):
-        return super().__eq__(other) and self.distinct == other.distinct
-
 
 class ArrayAggFunctionCall(FunctionCall):
     def __init__(
@@ -755,8 +755,7 @@ class ArrayAggFunctionCall(FunctionCall):
         order_bys=None,
         limit=None,
     ):
-        super().__init__("array_agg", column)
-        self.distinct = distinct
+        super().__init__("array_agg", column, distinct=distinct)
         assert not (ignore_nulls and respect_nulls)
         self.ignore_nulls = ignore_nulls
         self.respect_nulls = respect_nulls
-- 
2.43.0


From fbebd27499ba3d057c4710e583ef91151bd85df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:25 +0000
Subject: [PATCH 88/88] fix: refuse to format SQL whose operator !~ would be
 taken apart

---
 sqlvalidator/sql_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index f056c60..af1762d 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -11,7 +11,7 @@ QUOTED_TEXT = re.compile(
 )
 UNSUPPORTED_TEXT = re.compile(r"--|/\*|(?<!\w)\$([^\W\d]\w*)?\$")
 OPERATOR_SYMBOLS = re.compile(
-    r"(?:[-+*/<>=!|&^#]|@(?!\w)|:(?==)|~(?=\*)|\?(?=[|&](?!\|)))+"
+    r"(?:[-+*/<>=!|&^#]|@(?!\w)|:(?==)|~(?=\*)|(?<=!)~|\?(?=[|&](?!\|)))+"
 )
 TRAILING_COMMA = re.compile(r",\s*(?=from\b)")
 
-- 
2.43.0

