From a706c97c576591abc9d78c1a6da0180f6bfd1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 01/65] fix: end string literals at their own closing quote

A backslash-escaped or doubled quote, an escaped backslash before the closing
quote, or quotes of several kinds in one query made the tokeniser recurse
without end, cut the literal or split its neighbours as if they were literals.
---
 sqlvalidator/grammar/tokeniser.py | 40 +++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..8850107 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -136,17 +136,37 @@ def merge_stream(s, goals):
             yield next_element
 
 
-def _split_on_string_token(token: str, value: str):
-    split_result = split_with_sep(value, token)
-    in_str = False
-    for elem in split_result:
-        if elem == token:
-            in_str = not in_str
-            yield elem
-        elif in_str is True:
-            yield elem
+def _find_closing_quote(quote: str, value: str) -> int:
+    index = 0
+    while index < len(value):
+        if value[index] == "\\":
+            index += 2  # escaped character
+        elif value[index] != quote:
+            index += 1
+        elif value[index + 1 : index + 2] == quote:
+            index += 2  # doubled quote
         else:
-            yield from split_tokens(elem)
+            return index
+    return len(value)
+
+
+def _split_on_string_token(token: str, value: str):
+    while token:
+        before, _, value = value.partition(token)
+        if before:
+            yield from split_tokens(before)
+        yield token
+        end = _find_closing_quote(token, value)
+        if end > 0:
+            yield value[:end]
+        if end < len(value):
+            yield token
+        value = value[end + 1 :]
+        token = min(
+            (t for t in STRING_SPLIT_TOKENS if t in value), key=value.index, default=""
+        )
+    if value:
+        yield from split_tokens(value)
 
 
 def _split_on_whitespace_token(token: str, value: str):
-- 
2.43.0


From ea3b909bca5ae4560e54b20fbb54651cfef17483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 02/65] fix: split != and || off their operands, and at
 carriage returns

---
 sqlvalidator/grammar/tokeniser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 8850107..5084a63 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -1,8 +1,10 @@
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
-WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t")
+WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t", "\r", "\f", "\v")
 KEPT_SPLIT_TOKENS = (
+    "!=",
+    "||",
     ",",
     ";",
     "(",
-- 
2.43.0


From 6ea706d78a31791c0f19e9f1db3e510e3777f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 03/65] fix: print numbers and booleans as they are written

1.10 became 1.1, 0.00001 became 1e-05, 007 became 7 and NO became FALSE.
---
 sqlvalidator/grammar/lexer.py | 4 ++--
 sqlvalidator/grammar/sql.py   | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..4ac2e89 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -733,14 +733,14 @@ class ExpressionParser:
                 )  # left item will not always be a column
                 next_token = next(tokens, None)
             elif next_token is not None and main_token == "-" and next_token.isdigit():
-                expression = Integer(-int(next_token))
+                expression = Integer("-" + next_token)
                 next_token = next(tokens, None)
             elif (
                 next_token is not None
                 and main_token == "-"
                 and next_token.replace(".", "").isdigit()
             ):
-                expression = Float(-float(next_token))
+                expression = Float("-" + next_token)
                 next_token = next(tokens, None)
             elif (
                 lower(main_token) in String.PREFIXES
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..f412c71 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -904,9 +904,10 @@ class String(Expression):
 class Integer(Expression):
     def __init__(self, value):
         super().__init__(int(value))
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
@@ -916,9 +917,10 @@ class Integer(Expression):
 class Float(Expression):
     def __init__(self, value):
         super().__init__(float(value))
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
@@ -951,6 +953,7 @@ class Boolean(Expression):
     BOOLEAN_VALUES = TRUE_VALUES + FALSE_VALUES
 
     def __init__(self, value):
+        self.text = value
         value = lower(value)
         assert value in self.BOOLEAN_VALUES
         if value in self.TRUE_VALUES:
@@ -960,7 +963,7 @@ class Boolean(Expression):
         super().__init__(value)
 
     def __str__(self):
-        return str(self.value).upper()
+        return self.text.upper()
 
     @property
     def return_type(self):
-- 
2.43.0


From ed99374eeaf1a5c70b1272bd9f9f9e4130570a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:38 +0000
Subject: [PATCH 04/65] fix: keep numbers with an exponent in one piece

---
 sqlvalidator/grammar/lexer.py     |  5 +++--
 sqlvalidator/grammar/tokeniser.py | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 4ac2e89..31baa4f 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -51,6 +51,7 @@ from sqlvalidator.grammar.tokeniser import (
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
+    is_decimal_number,
     lower,
 )
 
@@ -561,7 +562,7 @@ class ExpressionParser:
             expression = StringParser.parse(tokens, main_token)
         elif main_token.isdigit():
             expression = Integer(main_token)
-        elif main_token.replace(".", "").isdigit():
+        elif is_decimal_number(main_token):
             expression = Float(main_token)
         elif lower(main_token) in Boolean.BOOLEAN_VALUES:
             expression = Boolean(main_token)
@@ -738,7 +739,7 @@ class ExpressionParser:
             elif (
                 next_token is not None
                 and main_token == "-"
-                and next_token.replace(".", "").isdigit()
+                and is_decimal_number(next_token)
             ):
                 expression = Float("-" + next_token)
                 next_token = next(tokens, None)
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 5084a63..f68675c 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -1,3 +1,4 @@
+import re
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
@@ -21,12 +22,17 @@ KEPT_SPLIT_TOKENS = (
     ".",
 )
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
+EXPONENT_NUMBER = re.compile(r"(?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])")
 
 
 def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def is_decimal_number(s: str) -> bool:
+    return s.replace(".", "").isdigit() or bool(EXPONENT_NUMBER.fullmatch(s))
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
@@ -185,6 +191,14 @@ def _split_on_kept_token(token: str, value: str):
             yield from split_tokens(elem)
 
 
+def _split_on_exponent_number(number, value: str):
+    if number.start() > 0:
+        yield from split_tokens(value[: number.start()])
+    yield number.group()
+    if number.end() < len(value):
+        yield from split_tokens(value[number.end() :])
+
+
 def split_tokens(value: str):
     for string_token in sorted(
         STRING_SPLIT_TOKENS,
@@ -199,6 +213,11 @@ def split_tokens(value: str):
             yield from _split_on_whitespace_token(whitespace_token, value)
             return
 
+    exponent_number = EXPONENT_NUMBER.search(value)
+    if exponent_number:
+        yield from _split_on_exponent_number(exponent_number, value)
+        return
+
     for kept_token in KEPT_SPLIT_TOKENS:
         if kept_token in value and value != kept_token:
             yield from _split_on_kept_token(kept_token, value)
-- 
2.43.0


From 42c99ee71dde42514433ca09243f1c84d5454be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/65] fix: never take the content of a string literal for
 syntax

'(', ',', 'from', 'end' and the like inside quotes ended lists and clauses.
---
 sqlvalidator/grammar/lexer.py     |  6 ++----
 sqlvalidator/grammar/tokeniser.py | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 31baa4f..e0b7b00 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    get_string_tokens,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
@@ -512,9 +513,9 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
         while next_token is not None:
             expression_tokens.append(next_token)
+            expression_tokens += get_string_tokens(tokens, next_token)
             if next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
@@ -523,15 +524,12 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index f68675c..46580fc 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -33,12 +33,24 @@ def is_decimal_number(s: str) -> bool:
     return s.replace(".", "").isdigit() or bool(EXPONENT_NUMBER.fullmatch(s))
 
 
+def get_string_tokens(tokens, token):
+    """The rest of the string literal opened by token, nothing if it is no quote."""
+    string_tokens = []
+    if token in STRING_SPLIT_TOKENS:
+        for next_token in tokens:
+            string_tokens.append(next_token)
+            if next_token == token:
+                break
+    return string_tokens
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
     while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
         argument_tokens.append(next_token)
+        argument_tokens += get_string_tokens(tokens, next_token)
         if next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
@@ -50,6 +62,7 @@ def get_tokens_until_closing_parenthesis(tokens, first_token=None):
 
 def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     argument_tokens = [first_token] if first_token is not None else []
+    argument_tokens += get_string_tokens(tokens, first_token)
     keep = keep or []
 
     next_token = next(tokens, None)
@@ -67,6 +80,7 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
+        argument_tokens += get_string_tokens(tokens, next_token)
         if next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
-- 
2.43.0


From c3b69cb17f3eb1470a70d8bb63259dcb559acecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 06/65] fix: recognise CASE in any letter case as first token
 of an expression

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 46580fc..e787168 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -68,7 +68,7 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     next_token = next(tokens, None)
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
-    count_case_expr = 0 if first_token != "case" else 1
+    count_case_expr = 0 if lower(first_token) != "case" else 1
     while next_token is not None and not (
         lower(next_token) in stop_words
         and count_parenthesis <= 0
-- 
2.43.0


From b7e3b41bbf03dda042ddf62994b7bde7e3f0baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 07/65] fix: print each operand of a boolean chain once

A chain of 30 conditions took minutes, as every operator printed the rest of
the chain twice, and brackets were printed twice on each level of nesting. A
list in brackets also lost all items but the first in a broken chain.
---
 sqlvalidator/grammar/sql.py | 63 ++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f412c71..ce007c6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -262,7 +262,7 @@ class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + self.value.break_lines(transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -349,7 +349,7 @@ class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + self.value.break_lines(transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -984,6 +984,12 @@ class Parenthesis(Expression):
             )
         )
 
+    def break_lines(self, text):
+        """Put the brackets of the transformed parenthesis on lines of their own."""
+        if len(self.args) > 1 or isinstance(self.args[0], SelectStatement):
+            return text
+        return "(\n " + text[1:-1].replace("\n", "\n ") + "\n)"
+
     def __repr__(self):
         return "<Parenthesis: {}>".format(", ".join(map(repr, self.args)))
 
@@ -1382,7 +1388,7 @@ class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + self.value.break_lines(transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1392,7 +1398,7 @@ class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            return " " + self.value.break_lines(transformed_value)
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1459,28 +1465,30 @@ class BooleanCondition(Expression):
         self.type = type
         self.args = args
 
-    def transform(self, with_newline=False):
-        join_str = " {} ".format(self.type.upper())
-        transformed_condition = join_str.join(map(transform, self.args))
-        if len(transformed_condition) < DEFAULT_LINE_LENGTH and with_newline is False:
-            return transformed_condition
-
-        join_str = "\n{} ".format(self.type.upper())
-        transformed_args = []
-        for a in self.args:
-            if isinstance(a, BooleanCondition):
-                transformed_a = a.transform(with_newline=True)
-            elif isinstance(a, Parenthesis):
-                transformed_a = transform(a.args[0])
-                if "\n" in transformed_a:
-                    transformed_a = "(\n " + transformed_a.replace("\n", "\n ") + "\n)"
-                else:
-                    transformed_a = f"({transformed_a})"
-            else:
-                transformed_a = transform(a)
-            transformed_args.append(transformed_a)
+    def flatten(self):
+        """The operands of the whole chain, each with the operator before it."""
+        operands = []
+        for arg in self.args:
+            nested = arg.flatten() if isinstance(arg, BooleanCondition) else [("", arg)]
+            operands.append((self.type.upper(), nested[0][1]))
+            operands += nested[1:]
+        return operands
 
-        return join_str.join(transformed_args)
+    def transform(self):
+        operands = [
+            (operator, operand, transform(operand))
+            for operator, operand in self.flatten()
+        ]
+        flat = operands[0][2] + "".join(f" {op} {text}" for op, _, text in operands[1:])
+        if len(flat) < DEFAULT_LINE_LENGTH:
+            return flat
+
+        lines = []
+        for operator, operand, text in operands:
+            if isinstance(operand, Parenthesis) and "\n" in text:
+                text = operand.break_lines(text)
+            lines.append(f"{operator} {text}" if lines else text)
+        return "\n".join(lines)
 
     def __repr__(self):
         return "<BooleanCondition {}: {}>".format(
@@ -1584,9 +1592,8 @@ class Case(Expression):
             when_then_str = "WHEN"
             transformed_when = transform(when)
             if isinstance(when, Parenthesis) and "\n" in transformed_when:
-                when_then_str += (
-                    " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
-                )
+                transformed_when = when.break_lines(transformed_when)
+                when_then_str += " " + transformed_when.replace("\n", "\n ") + "\n "
             elif "\n" in transformed_when:
                 when_then_str += "\n  " + transformed_when.replace("\n", "\n  ") + "\n "
             else:
-- 
2.43.0


From d89f11c42cdb462abd2cc9c1702df4e85155bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 08/65] fix: keep subqueries with several columns in brackets
 in one piece

---
 sqlvalidator/grammar/lexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e0b7b00..6b0eee8 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -508,6 +508,9 @@ class ExpressionListParser:
     @staticmethod
     def parse(tokens, can_be_type=False):
         next_token = next(tokens, None)
+        if lower(next_token) == "select":
+            # The commas are those of the subquery
+            return [SelectStatementParser.parse(tokens)]
 
         expressions = []
         expression_tokens = []
-- 
2.43.0


From 3682de11d99c808d09e25aaa6b3810777553e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 09/65] fix: format WITH inside of a common table expression

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ce007c6..de6f5d6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -513,11 +513,14 @@ class WithStatement(Expression):
         self.with_queries = with_queries
         self.select_statement = select_statement
 
-    def transform(self):
-        return "WITH {}\n{}".format(
+    def transform(self, is_subquery=False):
+        statement_str = "WITH {}\n{}".format(
             ",\n".join(map(transform, self.with_queries)),
             transform(self.select_statement),
         )
+        if is_subquery:
+            statement_str = " " + statement_str.replace("\n", "\n ")
+        return statement_str
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 234e178b41645cc1e5eba189d7fba79fe9379697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 10/65] fix: print boolean conditions wherever they stand

AND and OR raised an error in lists, arithmetic, CASE results and LIMIT.
---
 sqlvalidator/grammar/sql.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index de6f5d6..1bb1444 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -58,7 +58,7 @@ class SelectStatement:
             statement_str += " DISTINCT"
             if self.select_distinct_on:
                 statement_str += " ON ({})".format(
-                    ", ".join(map(str, self.select_distinct_on))
+                    ", ".join(map(transform, self.select_distinct_on))
                 )
 
         if len(self.expressions) == 1:
@@ -236,7 +236,7 @@ class Expression:
         self.value = value
 
     def __str__(self):
-        return str(self.value)
+        return transform(self.value)
 
     def __repr__(self):
         return "<{}: {!r}>".format(self.__class__.__name__, self.value)
@@ -291,7 +291,7 @@ class GroupByClause(Expression):
 
     def __str__(self):
         if len(self.args) > 1:
-            group_by_str = "\n{}".format(",\n".join(map(str, self.args))).replace(
+            group_by_str = "\n{}".format(",\n".join(map(transform, self.args))).replace(
                 "\n", "\n "
             )
         else:
@@ -374,10 +374,10 @@ class OrderByClause(Expression):
     def transform(self, allow_linebreak=True):
         if len(self.args) > 1:
             if allow_linebreak:
-                order_by_str = "\n" + ",\n".join(map(str, self.args))
+                order_by_str = "\n" + ",\n".join(map(transform, self.args))
                 order_by_str = order_by_str.replace("\n", "\n ")
             else:
-                order_by_str = " " + ", ".join(map(str, self.args))
+                order_by_str = " " + ", ".join(map(transform, self.args))
         else:
             order_by_str = " " + transform(self.args[0])
         return order_by_str
@@ -408,7 +408,7 @@ class OrderByItem(Expression):
         self.has_desc = has_desc
 
     def __str__(self):
-        order_by_item_str = str(self.value)
+        order_by_item_str = transform(self.value)
         if self.has_asc:
             order_by_item_str += " ASC"
         elif self.has_desc:
@@ -452,7 +452,7 @@ class LimitClause(Expression):
         if self.limit_all:
             limit_str = "ALL"
         else:
-            limit_str = str(self.value)
+            limit_str = transform(self.value)
         return limit_str
 
     def __repr__(self):
@@ -1111,7 +1111,7 @@ class ArithmaticOperator(Expression):
 
     def __str__(self):
         join_str = " {} ".format(self.operator)
-        return join_str.join(map(str, self.args))
+        return join_str.join(map(transform, self.args))
 
     def __repr__(self):
         return "<{} {}: {}>".format(
@@ -1602,7 +1602,7 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {then}"
+            when_then_str += f"THEN {transform(then)}"
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
-- 
2.43.0


From b6e275f7f17750171f560e0105a4209d24052d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 11/65] fix: indent nested CASE expressions and subqueries in
 CASE results

---
 sqlvalidator/grammar/sql.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1bb1444..c48cefb 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1587,7 +1587,7 @@ class Case(Expression):
     def __str__(self):
         case_str = "CASE"
         if self.value:
-            case_str += " {}".format(transform(self.value))
+            case_str += " {}".format(transform(self.value).replace("\n", "\n "))
 
         case_str += "\n "
         when_then_block_str = []
@@ -1602,12 +1602,14 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {transform(then)}"
+            transformed_then = transform(then).replace("\n", "\n ")
+            when_then_str += f"THEN {transformed_then}"
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
 
         if self.else_expression:
-            case_str += "\n ELSE {}".format(transform(self.else_expression))
+            transformed_else = transform(self.else_expression).replace("\n", "\n ")
+            case_str += f"\n ELSE {transformed_else}"
         case_str += "\nEND"
         return case_str
-- 
2.43.0


From d554acddda9acbd79089e85f2185e104daf68ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 12/65] fix: parse bitwise operators, || and % as operators of
 an expression

Everything behind the second operator of a || b || c, and behind a & b and
a % b in a condition, was dropped from the query.
---
 sqlvalidator/grammar/lexer.py | 16 ++++++++--------
 sqlvalidator/grammar/sql.py   |  2 ++
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6b0eee8..7efb4c2 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -807,7 +807,10 @@ class ExpressionParser:
             )
             expression = ChainedColumns(expression, right_hand)
 
-        if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
+        if (
+            next_token in ArithmaticOperator.OPERATORS + BitwiseOperation.OPERATORS
+            and not is_chained_columns
+        ):
             left_hand = expression
             symbol = next_token
             right_hand, next_token = ExpressionParser.parse(
@@ -815,7 +818,10 @@ class ExpressionParser:
                 is_right_hand=True,
                 until_one_of=until_one_of,
             )
-            expression = ArithmaticOperator(symbol, left_hand, right_hand)
+            if symbol in BitwiseOperation.OPERATORS:
+                expression = BitwiseOperation(left_hand, symbol, right_hand)
+            else:
+                expression = ArithmaticOperator(symbol, left_hand, right_hand)
 
         while next_token == "[":
             argument_tokens, next_token = get_tokens_until_one_of(
@@ -867,12 +873,6 @@ class ExpressionParser:
                 right_hand_right,
             )
             expression = Condition(expression, symbol, right_hand)
-        elif next_token in BitwiseOperation.OPERATORS:
-            operator = next_token
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            expression = BitwiseOperation(expression, operator, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
             left_hand = expression
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c48cefb..fea92fa 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1105,6 +1105,8 @@ class Index(Expression):
 
 
 class ArithmaticOperator(Expression):
+    OPERATORS = ("+", "-", "*", "/", "%")
+
     def __init__(self, operator, *args):
         self.operator = operator
         self.args = args
-- 
2.43.0


From c3752118f420cb439736647b2ec8e2da37066487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 13/65] fix: parse NOT LIKE, NOT BETWEEN and NOT CONTAINS

What followed such a condition was dropped from the query.
---
 sqlvalidator/grammar/lexer.py | 11 ++++-------
 sqlvalidator/grammar/sql.py   |  6 ++++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 7efb4c2..6f69dba 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -834,6 +834,9 @@ class ExpressionParser:
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
+        if lower(next_token) == "not":
+            next_token = "not {}".format(lower(next(tokens)))
+
         if lower(next_token) in Condition.PREDICATES:
             first_token = None
             symbol = next_token
@@ -843,12 +846,6 @@ class ExpressionParser:
                     symbol = "is not"
                 else:
                     first_token = next_next_token
-            elif lower(next_token) == "not":
-                next_next_token = next(tokens)
-                if lower(next_next_token) == "in":
-                    symbol = "not in"
-                else:
-                    first_token = next_next_token
 
             right_hand, next_token = ExpressionParser.parse(
                 tokens,
@@ -857,7 +854,7 @@ class ExpressionParser:
                 first_token=first_token,
             )
             expression = Condition(expression, symbol, right_hand)
-        elif lower(next_token) == "between":
+        elif lower(next_token) in ("between", "not between"):
             symbol = next_token
             right_hand_left, next_token = ExpressionParser.parse(
                 tokens, is_right_hand=True, until_one_of=until_one_of
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index fea92fa..5bc58c1 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1421,8 +1421,10 @@ class Condition(Expression):
         "like",
         "<>",
         "in",
-        "not",
         "contains",
+        "not in",
+        "not like",
+        "not contains",
     )
 
     def __init__(self, expression, predicate, right_hand):
@@ -1451,7 +1453,7 @@ class Condition(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
-        if self.predicate.lower() == "between":
+        if self.predicate.lower() in ("between", "not between"):
             errors += self.right_hand.validate(known_fields, is_between_predicate=True)
         else:
             errors += self.right_hand.validate(known_fields)
-- 
2.43.0


From 70557d3e5c6660a2ca6a1f0003af5ea173b98214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 14/65] fix: parse unary minus and plus

-a was taken for a column named - with the alias a, and the rest of the
expression was dropped.
---
 sqlvalidator/grammar/lexer.py | 22 ++++++++++++++++++++--
 sqlvalidator/grammar/sql.py   | 23 +++++++++++++++++++++++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6f69dba..c6a32fe 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -40,6 +40,7 @@ from sqlvalidator.grammar.sql import (
     String,
     Table,
     Type,
+    UnaryOperator,
     Unnest,
     UsingClause,
     WhereClause,
@@ -605,7 +606,11 @@ class ExpressionParser:
 
         # Expressions that need the next_token to be read
         if expression is None:
-            if next_token is not None and next_token == "(":
+            if (
+                next_token is not None
+                and next_token == "("
+                and main_token not in UnaryOperator.OPERATORS
+            ):
                 if lower(main_token) == "cast":
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens, stop_words=["as"]
@@ -725,7 +730,11 @@ class ExpressionParser:
                 expression = DatePartExtraction(main_token, rest_expression)
             elif lower(main_token) in Type.VALUES and can_be_type:
                 expression = Type(main_token)
-            elif next_token is not None and next_token == "[":
+            elif (
+                next_token is not None
+                and next_token == "["
+                and main_token not in UnaryOperator.OPERATORS
+            ):
                 argument_tokens, next_token = get_tokens_until_one_of(
                     tokens, stop_words=["]"]
                 )
@@ -744,6 +753,15 @@ class ExpressionParser:
             ):
                 expression = Float("-" + next_token)
                 next_token = next(tokens, None)
+            elif next_token is not None and main_token in UnaryOperator.OPERATORS:
+                operand, next_token = ExpressionParser.parse(
+                    tokens,
+                    is_right_hand=True,
+                    until_one_of=until_one_of,
+                    first_token=next_token,
+                    is_chained_columns=is_chained_columns,
+                )
+                expression = UnaryOperator(main_token, operand)
             elif (
                 lower(main_token) in String.PREFIXES
                 and next_token is not None
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5bc58c1..e27ca61 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1140,6 +1140,29 @@ class Addition(ArithmaticOperator):
         super().__init__("+", *args)
 
 
+class UnaryOperator(Expression):
+    OPERATORS = ("-", "+")
+
+    def __init__(self, operator, expression):
+        super().__init__(expression)
+        self.operator = operator
+
+    def __str__(self):
+        operand = transform(self.value)
+        separator = " " if operand.startswith(self.OPERATORS) else ""
+        return self.operator + separator + operand
+
+    def __eq__(self, other):
+        return super().__eq__(other) and self.operator == other.operator
+
+    def validate(self, known_fields):
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
+    @property
+    def return_type(self):
+        return int
+
+
 class BitwiseOperation(Expression):
     OPERATORS = ("&", "|", "^", "||", "<<", ">>", "#")
 
-- 
2.43.0


From 25ea3d2f053e395846bfe21cd1da5d8ecae513b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 15/65] fix: keep placeholders with brackets or dots in one
 piece

%(name)s became %(name) s, and {a[0]} and {f(x)} were taken for SQL.
---
 sqlvalidator/grammar/tokeniser.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index e787168..519af5d 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -23,6 +23,8 @@ KEPT_SPLIT_TOKENS = (
 )
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
 EXPONENT_NUMBER = re.compile(r"(?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])")
+# %(name)s and {value}, {value.attribute}, {value[0]}, also as a part of a word
+PLACEHOLDER = re.compile(r"%\(\w+\)\w|\w*(?:\{[^{}]*\}\w*)+")
 
 
 def lower(s: Optional[str]) -> Optional[str]:
@@ -205,12 +207,12 @@ def _split_on_kept_token(token: str, value: str):
             yield from split_tokens(elem)
 
 
-def _split_on_exponent_number(number, value: str):
-    if number.start() > 0:
-        yield from split_tokens(value[: number.start()])
-    yield number.group()
-    if number.end() < len(value):
-        yield from split_tokens(value[number.end() :])
+def _split_on_match(match, value: str):
+    if match.start() > 0:
+        yield from split_tokens(value[: match.start()])
+    yield match.group()
+    if match.end() < len(value):
+        yield from split_tokens(value[match.end() :])
 
 
 def split_tokens(value: str):
@@ -227,9 +229,9 @@ def split_tokens(value: str):
             yield from _split_on_whitespace_token(whitespace_token, value)
             return
 
-    exponent_number = EXPONENT_NUMBER.search(value)
-    if exponent_number:
-        yield from _split_on_exponent_number(exponent_number, value)
+    match = PLACEHOLDER.search(value) or EXPONENT_NUMBER.search(value)
+    if match:
+        yield from _split_on_match(match, value)
         return
 
     for kept_token in KEPT_SPLIT_TOKENS:
-- 
2.43.0


From 1539d846745ab888b42cb3dab96ae7581c4bb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 16/65] fix: split long runs of placeholders and numbers
 without recursion

---
 sqlvalidator/grammar/tokeniser.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 519af5d..5b320ea 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -207,12 +207,15 @@ def _split_on_kept_token(token: str, value: str):
             yield from split_tokens(elem)
 
 
-def _split_on_match(match, value: str):
-    if match.start() > 0:
-        yield from split_tokens(value[: match.start()])
-    yield match.group()
-    if match.end() < len(value):
-        yield from split_tokens(value[match.end() :])
+def _split_on_matches(pattern, value: str):
+    end = 0
+    for match in pattern.finditer(value):
+        if match.start() > end:
+            yield from split_tokens(value[end : match.start()])
+        yield match.group()
+        end = match.end()
+    if end < len(value):
+        yield from split_tokens(value[end:])
 
 
 def split_tokens(value: str):
@@ -229,10 +232,10 @@ def split_tokens(value: str):
             yield from _split_on_whitespace_token(whitespace_token, value)
             return
 
-    match = PLACEHOLDER.search(value) or EXPONENT_NUMBER.search(value)
-    if match:
-        yield from _split_on_match(match, value)
-        return
+    for pattern in (PLACEHOLDER, EXPONENT_NUMBER):
+        if pattern.search(value):
+            yield from _split_on_matches(pattern, value)
+            return
 
     for kept_token in KEPT_SPLIT_TOKENS:
         if kept_token in value and value != kept_token:
-- 
2.43.0


From bf1bd30705d5137807e8eaa08bd34c8d125a4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 17/65] fix: recognise RESPECT NULLS in ARRAY_AGG

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index c6a32fe..ff1a0de 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -637,7 +637,7 @@ class ExpressionParser:
 
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens,
-                        stop_words=[")", "ignore", "respects", "order", "limit"],
+                        stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
                     column, _ = ExpressionParser.parse(
-- 
2.43.0


From cf5a08ab93d90ff82f81860a7f14d7028c9aa456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 18/65] fix: keep NULLS FIRST and NULLS LAST

---
 sqlvalidator/grammar/lexer.py | 22 +++++++++++++++-------
 sqlvalidator/grammar/sql.py   |  6 +++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index ff1a0de..18310de 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -467,19 +467,27 @@ class OrderByParser:
 class OrderByItemParser:
     @staticmethod
     def parse(tokens):
-        expression_tokens, next_token = get_tokens_until_one_of(tokens, ["asc", "desc"])
+        expression_tokens, next_token = get_tokens_until_one_of(
+            tokens, ["asc", "desc", "nulls"]
+        )
         expression, _ = ExpressionParser.parse(iter(expression_tokens))
+        has_asc = has_desc = False
         if lower(next_token) == "asc":
             has_asc = True
-            has_desc = False
+            next_token = next(tokens, None)
         elif lower(next_token) == "desc":
-            has_asc = False
             has_desc = True
-        else:
-            has_asc = False
-            has_desc = False
+            next_token = next(tokens, None)
+
+        nulls = None
+        if lower(next_token) == "nulls":
+            nulls = lower(next(tokens, None))
+            if nulls not in ("first", "last"):
+                raise ParsingError("Missing FIRST or LAST after NULLS")
 
-        return OrderByItem(expression, has_asc=has_asc, has_desc=has_desc)
+        return OrderByItem(
+            expression, has_asc=has_asc, has_desc=has_desc, nulls=nulls
+        )
 
 
 class LimitClauseParser:
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e27ca61..8ba5584 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -402,8 +402,9 @@ class OrderByClause(Expression):
 
 
 class OrderByItem(Expression):
-    def __init__(self, expression, has_asc=False, has_desc=False):
+    def __init__(self, expression, has_asc=False, has_desc=False, nulls=None):
         super().__init__(expression)
+        self.nulls = nulls
         self.has_asc = has_asc
         self.has_desc = has_desc
 
@@ -413,6 +414,8 @@ class OrderByItem(Expression):
             order_by_item_str += " ASC"
         elif self.has_desc:
             order_by_item_str += " DESC"
+        if self.nulls:
+            order_by_item_str += " NULLS {}".format(self.nulls.upper())
         return order_by_item_str
 
     def __repr__(self):
@@ -425,6 +428,7 @@ class OrderByItem(Expression):
             super().__eq__(other)
             and self.has_asc == other.has_asc
             and self.has_desc == other.has_desc
+            and self.nulls == other.nulls
         )
 
     def validate(self, known_fields, select_expressions):
-- 
2.43.0


From 85c768ab0929ee781c949bbbcd6a69351beba15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 19/65] fix: parse DISTINCT in every function call

Only COUNT and ARRAY_AGG knew it; elsewhere it was taken for a column, and
what followed an operator in the argument was dropped.
---
 sqlvalidator/grammar/lexer.py |  7 ++++++-
 sqlvalidator/grammar/sql.py   | 15 ++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 18310de..e3587cf 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -705,13 +705,18 @@ class ExpressionParser:
                     expression = CountFunctionCall(*arguments, distinct=distinct)
                 else:
                     argument_tokens = get_tokens_until_closing_parenthesis(tokens)
+                    distinct = lower(next(iter(argument_tokens), None)) == "distinct"
+                    if distinct:
+                        argument_tokens = argument_tokens[1:]
                     arguments_can_be_type = can_be_type or any(
                         lower(t) == "timestamp_trunc" for t in argument_tokens
                     )
                     arguments = ExpressionListParser.parse(
                         iter(argument_tokens), can_be_type=arguments_can_be_type
                     )
-                    expression = FunctionCall(main_token, *arguments)
+                    expression = FunctionCall(
+                        main_token, *arguments, distinct=distinct
+                    )
 
                 next_token = next(tokens, None)
                 if next_token and lower(next_token) == "filter":
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8ba5584..5c4b291 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -536,9 +536,10 @@ class WithStatement(Expression):
 
 
 class FunctionCall(Expression):
-    def __init__(self, function_name, *args):
+    def __init__(self, function_name, *args, distinct=False):
         self.function_name = function_name
         self.args = args
+        self.distinct = distinct
 
     def __str__(self):
         transformed_args = [transform(arg) for arg in self.args]
@@ -548,14 +549,15 @@ class FunctionCall(Expression):
         )
 
         function_str = self.function_name.upper() + "("
+        distinct_str = "DISTINCT " if self.distinct else ""
         if with_newlines:
-            function_str += "\n "
+            function_str += "\n " + distinct_str
             function_str += (
                 ",\n ".join(arg.replace("\n", "\n ") for arg in transformed_args)
                 + "\n)"
             )
         else:
-            function_str += ", ".join(transformed_args) + ")"
+            function_str += distinct_str + ", ".join(transformed_args) + ")"
         return function_str
 
     def validate(self, known_fields):
@@ -573,6 +575,7 @@ class FunctionCall(Expression):
         return (
             type(self) == type(other)
             and self.function_name == other.function_name
+            and self.distinct == other.distinct
             and len(self.args) == len(other.args)
             and all(a == o for a, o in zip(self.args, other.args))
         )
@@ -592,8 +595,7 @@ class CastFunctionCall(FunctionCall):
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-        super().__init__("count", *args)
-        self.distinct = distinct
+        super().__init__("count", *args, distinct=distinct)
 
     def __str__(self):
         return "{}({}{})".format(
@@ -616,8 +618,7 @@ class ArrayAggFunctionCall(FunctionCall):
         order_bys=None,
         limit=None,
     ):
-        super().__init__("array_agg", column)
-        self.distinct = distinct
+        super().__init__("array_agg", column, distinct=distinct)
         assert not (ignore_nulls and respect_nulls)
         self.ignore_nulls = ignore_nulls
         self.respect_nulls = respect_nulls
-- 
2.43.0


From 9199830f5c125b5b9c7586f9aa37edfdeee31f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 20/65] fix: raise an error instead of dropping what the parser
 does not know

The formatter removed unsupported syntax from queries (ILIKE, UNION after
WHERE, FOR UPDATE, a second statement, ...) and wrecked comments. It now
compares the tokens of its result with those of the query. Line breaks in
literals stay as they are instead of being indented.
---
 sqlvalidator/grammar/sql.py       |  7 ++++++-
 sqlvalidator/grammar/tokeniser.py | 31 +++++++++++++++++++++++++++++++
 sqlvalidator/sql_formatter.py     | 22 +++++++++++++++++++---
 sqlvalidator/sql_validator.py     |  3 ++-
 4 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5c4b291..b643873 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -5,6 +5,9 @@ from sqlvalidator.grammar.tokeniser import lower
 
 DEFAULT_LINE_LENGTH = 88
 
+# Stands for a line break in a literal, which must not be indented
+LITERAL_NEWLINE = "\uffff"
+
 
 def transform(obj: Any) -> str:
     if hasattr(obj, "transform"):
@@ -896,7 +899,9 @@ class String(Expression):
 
     def __str__(self):
         return "{prefix}{quotes}{value}{quotes}".format(
-            quotes=self.quotes, value=self.value, prefix=self.prefix or ""
+            quotes=self.quotes,
+            value=self.value.replace("\n", LITERAL_NEWLINE),
+            prefix=self.prefix or "",
         )
 
     def __repr__(self):
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 5b320ea..181c147 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,6 +25,20 @@ MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
 EXPONENT_NUMBER = re.compile(r"(?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.])")
 # %(name)s and {value}, {value.attribute}, {value[0]}, also as a part of a word
 PLACEHOLDER = re.compile(r"%\(\w+\)\w|\w*(?:\{[^{}]*\}\w*)+")
+STRING_LITERAL = re.compile(r"""(['"`])(?:\\.|\1\1|(?!\1)[^\\])*\1""", re.DOTALL)
+COMMENT = re.compile(r"--|/\*")
+LIST_END_TOKENS = (
+    ")",
+    "]",
+    ";",
+    "from",
+    "where",
+    "group",
+    "having",
+    "order",
+    "limit",
+    "offset",
+)
 
 
 def lower(s: Optional[str]) -> Optional[str]:
@@ -248,3 +262,20 @@ def split_tokens(value: str):
 def to_tokens(value: str):
     tokens = split_tokens(value)
     yield from merge_stream(tokens, MERGE_TOKENS)
+
+
+def has_comment(value: str) -> bool:
+    return bool(COMMENT.search(STRING_LITERAL.sub("''", value)))
+
+
+def get_significant_tokens(value: str):
+    """The tokens that formatting must keep: all but a comma at the end of a list."""
+    significant_tokens = []
+    tokens = to_tokens(value)
+    for token in tokens:
+        string_tokens = get_string_tokens(tokens, token)
+        token = lower(token)
+        if token in LIST_END_TOKENS and significant_tokens[-1:] == [","]:
+            significant_tokens.pop()
+        significant_tokens += [token] + string_tokens
+    return significant_tokens
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index e4702de..19bcc16 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,6 +1,22 @@
-from sqlvalidator.grammar.lexer import SQLStatementParser
-from sqlvalidator.grammar.tokeniser import to_tokens
+from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
+from sqlvalidator.grammar.sql import LITERAL_NEWLINE
+from sqlvalidator.grammar.tokeniser import (
+    get_significant_tokens,
+    has_comment,
+    to_tokens,
+)
 
 
 def format_sql(sql_string: str) -> str:
-    return SQLStatementParser.parse(to_tokens(sql_string)).transform()
+    return format_statement(
+        sql_string, SQLStatementParser.parse(to_tokens(sql_string))
+    )
+
+
+def format_statement(sql_string: str, statement) -> str:
+    if has_comment(sql_string):
+        raise ParsingError("SQL comments are not supported")
+    formatted_sql = statement.transform().replace(LITERAL_NEWLINE, "\n")
+    if get_significant_tokens(formatted_sql) != get_significant_tokens(sql_string):
+        raise ParsingError("unsupported SQL syntax")
+    return formatted_sql
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..950a114 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -2,6 +2,7 @@ from typing import List
 
 from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
 from sqlvalidator.grammar.tokeniser import to_tokens
+from sqlvalidator.sql_formatter import format_statement
 
 
 class SQLQuery:
@@ -18,7 +19,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return self.sql_query.transform()
+        return format_statement(self.sql, self.sql_query)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From 7e391d3a331d52966195a786a4669cba58701d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 21/65] fix: tell string prefixes from names followed by a
 quoted alias

b'x' became b 'x', and r "alias" became r"alias".
---
 sqlvalidator/grammar/lexer.py     | 14 ++++----------
 sqlvalidator/grammar/sql.py       |  1 -
 sqlvalidator/grammar/tokeniser.py | 10 +++++++---
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e3587cf..583d547 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -568,8 +568,10 @@ class ExpressionParser:
         main_token = first_token or next(tokens)
         next_token = None
 
-        if main_token in String.QUOTES:
-            expression = StringParser.parse(tokens, main_token)
+        if main_token.endswith(String.QUOTES):
+            expression = StringParser.parse(
+                tokens, start_quote=main_token[-1], prefix=main_token[:-1] or None
+            )
         elif main_token.isdigit():
             expression = Integer(main_token)
         elif is_decimal_number(main_token):
@@ -775,14 +777,6 @@ class ExpressionParser:
                     is_chained_columns=is_chained_columns,
                 )
                 expression = UnaryOperator(main_token, operand)
-            elif (
-                lower(main_token) in String.PREFIXES
-                and next_token is not None
-                and lower(next_token) in String.QUOTES
-            ):
-                expression = StringParser.parse(
-                    tokens, start_quote=next_token, prefix=main_token
-                )
             else:
                 expression = Column(main_token)
 
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b643873..006b195 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -890,7 +890,6 @@ class DatePartExtraction(Expression):
 
 class String(Expression):
     QUOTES = ("'", '"', "`")
-    PREFIXES = ("r",)
 
     def __init__(self, value, quotes, prefix=None):
         super().__init__(value)
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 181c147..93b10ba 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -26,6 +26,7 @@ EXPONENT_NUMBER = re.compile(r"(?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.]
 # %(name)s and {value}, {value.attribute}, {value[0]}, also as a part of a word
 PLACEHOLDER = re.compile(r"%\(\w+\)\w|\w*(?:\{[^{}]*\}\w*)+")
 STRING_LITERAL = re.compile(r"""(['"`])(?:\\.|\1\1|(?!\1)[^\\])*\1""", re.DOTALL)
+STRING_PREFIX = re.compile(r"(?<![\w.])(?:rb|br|[benrx])$", re.IGNORECASE)
 COMMENT = re.compile(r"--|/\*")
 LIST_END_TOKENS = (
     ")",
@@ -52,10 +53,10 @@ def is_decimal_number(s: str) -> bool:
 def get_string_tokens(tokens, token):
     """The rest of the string literal opened by token, nothing if it is no quote."""
     string_tokens = []
-    if token in STRING_SPLIT_TOKENS:
+    if token and token.endswith(STRING_SPLIT_TOKENS):
         for next_token in tokens:
             string_tokens.append(next_token)
-            if next_token == token:
+            if next_token == token[-1]:
                 break
     return string_tokens
 
@@ -191,9 +192,12 @@ def _find_closing_quote(quote: str, value: str) -> int:
 def _split_on_string_token(token: str, value: str):
     while token:
         before, _, value = value.partition(token)
+        prefix = STRING_PREFIX.search(before) if token != "`" else None
+        if prefix:
+            before = before[: prefix.start()]
         if before:
             yield from split_tokens(before)
-        yield token
+        yield prefix.group() + token if prefix else token
         end = _find_closing_quote(token, value)
         if end > 0:
             yield value[:end]
-- 
2.43.0


From 17c9d25cbd430f1531510d17bc2e0dc64ba5a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 22/65] fix: do not raise when validating LIMIT ALL, CAST, WITH
 and other supported syntax

Also quoted aliases, OVER (ORDER BY 1), subqueries as conditions, GROUP BY ()
and ambiguous columns in GROUP BY.
---
 sqlvalidator/grammar/sql.py | 59 +++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 006b195..f3f1230 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -157,10 +157,7 @@ class SelectStatement:
             if isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
             elif isinstance(e, Alias):
-                if isinstance(e.alias, Column):
-                    fields.add(_FieldInfo(e.alias.value, e.return_type))
-                else:
-                    fields.add(_FieldInfo(e.alias, e.return_type))
+                fields.add(_FieldInfo(e.alias_name, e.return_type))
 
         if self.from_statement:
             if isinstance(self.from_statement, Parenthesis) and isinstance(
@@ -175,6 +172,10 @@ class SelectStatement:
 
         return fields
 
+    @property
+    def return_type(self):
+        return object
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -320,7 +321,7 @@ class GroupByClause(Expression):
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
         for arg in self.args:
-            while isinstance(arg, Parenthesis):
+            while isinstance(arg, Parenthesis) and arg.args:
                 arg = arg.args[0]
             if isinstance(arg, Integer) and (
                 arg.value <= 0 or arg.value > len(select_expressions)
@@ -341,7 +342,7 @@ class GroupByClause(Expression):
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
                 ]
                 if len(fields_without_alias) > 1:
-                    errors.append('column "{}" is ambiguous'.format(self.value))
+                    errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
@@ -441,6 +442,8 @@ class OrderByItem(Expression):
             value = value.value
 
         if isinstance(value, Integer):
+            if select_expressions is None:
+                return errors  # a constant, not a position
             if value.value <= 0 or value.value > len(select_expressions):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
@@ -470,6 +473,8 @@ class LimitClause(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.limit_all:
+            return errors
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
@@ -529,6 +534,16 @@ class WithStatement(Expression):
             statement_str = " " + statement_str.replace("\n", "\n ")
         return statement_str
 
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        errors = []
+        for with_query in self.with_queries:
+            errors += with_query.statement.validate(known_fields)
+        return errors + self.select_statement.validate(known_fields)
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.select_statement.known_fields
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -595,6 +610,9 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
+    def validate(self, known_fields):
+        return self.args[0].validate(known_fields)
+
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
@@ -1034,6 +1052,7 @@ class Parenthesis(Expression):
     def return_type(self):
         for a in self.args:
             return a.return_type
+        return object
 
 
 class Array(Expression):
@@ -1085,6 +1104,10 @@ class Alias(Expression):
         errors += self.expression.validate(known_fields)
         return errors
 
+    @property
+    def alias_name(self) -> str:
+        return self.alias.value if isinstance(self.alias, Expression) else self.alias
+
     @property
     def return_type(self):
         return self.expression.return_type
@@ -1092,7 +1115,7 @@ class Alias(Expression):
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {
-            _FieldInfo("{}.{}".format(transform(self.alias), f.name), f.type)
+            _FieldInfo("{}.{}".format(self.alias_name, f.name), f.type)
             for f in self.expression.known_fields
         }
 
@@ -1359,27 +1382,7 @@ class Join(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        known_fields = set()
-        if isinstance(self.left_from, Alias):
-            left_alias = self.left_from.alias
-            for field in self.left_from.expression.known_fields:
-                known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
-        else:
-            known_fields |= self.left_from.known_fields
-
-        if isinstance(self.right_from, Alias):
-            right_alias = self.right_from.alias
-            for field in self.right_from.expression.known_fields:
-                known_fields.add(
-                    _FieldInfo(
-                        right_alias + "." + field.name,
-                        field.type,
-                    )
-                )
-        else:
-            known_fields |= self.right_from.known_fields
-
-        return known_fields
+        return self.left_from.known_fields | self.right_from.known_fields
 
 
 class CombinedQueries(Expression):
-- 
2.43.0


From 335f670a3289825e4a6a5124e9be5691bb452f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 23/65] fix: do not report columns of sources with unknown or
 renamed columns as missing

Aliased quoted tables, UNNEST, set operators, alias.*, * EXCEPT, columns
selected as alias.column, quoted aliases, select aliases in ORDER BY and
GROUP BY, USING columns, struct fields, positions behind a * and NULL
conditions made valid queries invalid.
---
 sqlvalidator/grammar/sql.py | 164 ++++++++++++++++++++++++++----------
 1 file changed, 121 insertions(+), 43 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f3f1230..88dc95f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -24,6 +24,37 @@ class _FieldInfo:
         return hash(self.name)
 
 
+def accepts_any_column(known_fields: Set[_FieldInfo]) -> bool:
+    """Some source has columns that are not known without a schema."""
+    return any(f.name == "*" or f.name.endswith(".*") for f in known_fields)
+
+
+def alias_fields(expressions) -> Set[_FieldInfo]:
+    return {
+        _FieldInfo(e.alias_name, e.return_type)
+        for e in expressions or []
+        if isinstance(e, Alias)
+    }
+
+
+def output_fields(expressions) -> Set[_FieldInfo]:
+    fields = alias_fields(expressions)
+    for e in expressions or []:
+        if isinstance(e, Column) and not is_star(e):
+            fields.add(_FieldInfo(e.value, e.return_type))
+        elif isinstance(e, ChainedColumns) and not is_star(e):
+            fields.add(_FieldInfo(e.names[-1], e.return_type))
+    return fields
+
+
+def is_star(expression) -> bool:
+    return (
+        isinstance(expression, SelectAllClause)
+        or (isinstance(expression, Column) and expression.value == "*")
+        or (isinstance(expression, ChainedColumns) and expression.names[-1] == "*")
+    )
+
+
 class SelectStatement:
     def __init__(
         self,
@@ -129,8 +160,9 @@ class SelectStatement:
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
         known_fields = known_fields or set()
-        if hasattr(self.from_statement, "known_fields"):
-            known_fields = known_fields | self.from_statement.known_fields
+        known_fields = known_fields | getattr(
+            self.from_statement, "known_fields", set()
+        )
 
         for e in self.expressions:
             errors += e.validate(known_fields)
@@ -141,7 +173,9 @@ class SelectStatement:
         if self.group_by_clause:
             errors += self.group_by_clause.validate(known_fields, self.expressions)
         if self.having_clause:
-            errors += self.having_clause.validate(known_fields)
+            errors += self.having_clause.validate(
+                known_fields | alias_fields(self.expressions)
+            )
         if self.order_by_clause:
             errors += self.order_by_clause.validate(known_fields, self.expressions)
         if self.limit_clause:
@@ -152,26 +186,29 @@ class SelectStatement:
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        fields = set()
+        fields = output_fields(self.expressions)
         for e in self.expressions:
-            if isinstance(e, Column):
-                fields.add(_FieldInfo(e.value, e.return_type))
-            elif isinstance(e, Alias):
-                fields.add(_FieldInfo(e.alias_name, e.return_type))
-
-        if self.from_statement:
-            if isinstance(self.from_statement, Parenthesis) and isinstance(
-                self.from_statement.args[0], SelectStatement
-            ):
-                subquery_known_fields = self.from_statement.args[0].known_fields
-                if any(f.name == "*" for f in fields) and not any(
-                    f.name == "*" for f in subquery_known_fields
-                ):
-                    fields = {f for f in fields if f.name != "*"}
-                    fields |= subquery_known_fields
-
+            if is_star(e):
+                fields |= self.star_fields(e)
         return fields
 
+    def star_fields(self, star) -> Set[_FieldInfo]:
+        """The fields a *, alias.* or * EXCEPT (...) stands for."""
+        excluded = set()
+        while isinstance(star, SelectAllClause):
+            if isinstance(star, ExceptClause):
+                excluded |= {transform(arg) for arg in star.args}
+            star = star.value
+        known_fields = getattr(self.from_statement, "known_fields", set())
+        if isinstance(star, ChainedColumns):
+            prefix = ".".join(star.names[:-1]) + "."
+            alias_known_fields = {f for f in known_fields if f.name.startswith(prefix)}
+            if not alias_known_fields:
+                return {_FieldInfo("*", object)}
+            known_fields = alias_known_fields
+        fields = {_FieldInfo(f.name.split(".", 1)[-1], f.type) for f in known_fields}
+        return {f for f in fields if f.name not in excluded}
+
     @property
     def return_type(self):
         return object
@@ -275,7 +312,7 @@ class WhereClause(Expression):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
         value_type = self.value.resolve_return_type(known_fields)
-        if value_type not in (bool, object):
+        if value_type not in (bool, object, type(None)):
             errors.append(
                 "The argument of WHERE must be type boolean, not type {}".format(
                     value_type.__name__
@@ -323,20 +360,21 @@ class GroupByClause(Expression):
         for arg in self.args:
             while isinstance(arg, Parenthesis) and arg.args:
                 arg = arg.args[0]
-            if isinstance(arg, Integer) and (
-                arg.value <= 0 or arg.value > len(select_expressions)
+            if (
+                isinstance(arg, Integer)
+                and (arg.value <= 0 or arg.value > len(select_expressions))
+                and not any(map(is_star, select_expressions))
             ):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
                 )
             elif (
                 isinstance(arg, (Column, String))
-                and (
-                    not any(f.name == arg.value for f in known_fields)
-                    and arg.value
-                    not in [e.alias for e in select_expressions if isinstance(e, Alias)]
+                and not any(f.name == arg.value for f in known_fields)
+                and not any(
+                    f.name == arg.value for f in alias_fields(select_expressions)
                 )
-                and not any(f.name == "*" for f in known_fields)
+                and not accepts_any_column(known_fields)
             ):
                 fields_without_alias = [
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
@@ -362,7 +400,7 @@ class HavingClause(Expression):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
         value_type = self.value.resolve_return_type(known_fields)
-        if value_type not in (bool, object):
+        if value_type not in (bool, object, type(None)):
             errors.append(
                 "The argument of HAVING must be type boolean, not type {}".format(
                     value_type.__name__
@@ -400,6 +438,7 @@ class OrderByClause(Expression):
 
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
+        known_fields = known_fields | output_fields(select_expressions)
         for arg in self.args:
             errors += arg.validate(known_fields, select_expressions)
         return errors
@@ -444,7 +483,9 @@ class OrderByItem(Expression):
         if isinstance(value, Integer):
             if select_expressions is None:
                 return errors  # a constant, not a position
-            if value.value <= 0 or value.value > len(select_expressions):
+            if (
+                value.value <= 0 or value.value > len(select_expressions)
+            ) and not any(map(is_star, select_expressions)):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
@@ -817,7 +858,7 @@ class Column(Expression):
         if (
             not any(f.name == self.value for f in known_fields)
             and self.value != "*"
-            and not any(f.name == "*" for f in known_fields)
+            and not accepts_any_column(known_fields)
         ):
             fields_without_alias = [
                 f for f in known_fields if f.name.split(".", 1)[-1] == self.value
@@ -852,16 +893,40 @@ class ChainedColumns(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        full_value = str(self)
-        alias = ".".join(map(transform, self.columns[:-1]))
-        last_value = self.columns[-1]
+        for column in self.columns:
+            if not isinstance(column, (Column, String, ChainedColumns)):
+                # alias.function(x), function(x).field, alias.array[0]
+                return errors + column.validate(known_fields)
+
+        names = self.names
+        known_names = {f.name for f in known_fields}
+        known_aliases = {name.split(".", 1)[0] for name in known_names if "." in name}
         if (
-            not any(f.name == full_value for f in known_fields)
-            and not any(f.name == f"{alias}.*" for f in known_fields)
-        ) and not any(f.name == "*" for f in known_fields):
-            errors.append(f"The column {last_value} was not found in alias {alias}")
+            not any(".".join(names[:i]) in known_names for i in range(1, len(names)))
+            and ".".join(names) not in known_names
+            and names[0] not in {name.split(".", 1)[-1] for name in known_names}
+            and not (names[0] in known_aliases and names[1] == "*")
+            and f"{names[0]}.*" not in known_names
+            and "*" not in known_names
+            and not (names[0] not in known_aliases and accepts_any_column(known_fields))
+        ):
+            alias = ".".join(map(transform, self.columns[:-1]))
+            errors.append(
+                f"The column {self.columns[-1]} was not found in alias {alias}"
+            )
         return errors
 
+    @property
+    def names(self) -> List[str]:
+        names = []
+        for column in self.columns:
+            if isinstance(column, ChainedColumns):
+                names += column.names
+            else:
+                value = getattr(column, "value", column)
+                names.append(value if isinstance(value, str) else transform(column))
+        return names
+
 
 class Type(Expression):
     VALUES = ("int", "float", "day", "month", "timestamp", "int64", "string", "date")
@@ -1044,9 +1109,7 @@ class Parenthesis(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        if hasattr(self.args[0], "known_fields"):
-            return self.args[0].known_fields
-        return set()
+        return getattr(self.args[0], "known_fields", set())
 
     @property
     def return_type(self):
@@ -1248,6 +1311,10 @@ class Unnest(Expression):
                 unnest_str += f" {self.offset_alias}"
         return unnest_str
 
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return {_FieldInfo("*", type=object)}
+
     def __eq__(self, other):
         return (
             (isinstance(other, type(self)) or isinstance(self, type(other)))
@@ -1382,7 +1449,14 @@ class Join(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        return self.left_from.known_fields | self.right_from.known_fields
+        known_fields = self.left_from.known_fields | self.right_from.known_fields
+        if self.using and isinstance(self.using.value, Parenthesis):
+            # The merged columns are not ambiguous
+            known_fields |= {
+                _FieldInfo(transform(column), type=object)
+                for column in self.using.value.args
+            }
+        return known_fields
 
 
 class CombinedQueries(Expression):
@@ -1403,6 +1477,10 @@ class CombinedQueries(Expression):
 
         return "{}\n{}{}".format(left_query, self.set_operator.upper(), right_query)
 
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.left_query.known_fields
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -1551,7 +1629,7 @@ class BooleanCondition(Expression):
             errors += a.validate(known_fields)
             if not is_between_predicate:
                 a_type = a.resolve_return_type(known_fields)
-                if a_type not in (bool, object):
+                if a_type not in (bool, object, type(None)):
                     errors.append(
                         "The argument of {} must be type boolean, not type {}".format(
                             self.type.upper(), a_type.__name__
-- 
2.43.0


From c09db9e5ea72a41717565c194d6b17014a3c9526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 24/65] fix: report missing columns inside of every kind of
 expression

Arithmetic, CASE, NOT, CAST, arrays, indices, bitwise operators, EXTRACT,
* EXCEPT, GROUP BY expressions and lists, joined subqueries, ON, and the
queries of set operators were not validated at all.
---
 sqlvalidator/grammar/sql.py | 90 +++++++++++++++++++++++++++++++++----
 1 file changed, 82 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 88dc95f..ca4a604 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -159,15 +159,15 @@ class SelectStatement:
 
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
-        known_fields = known_fields or set()
-        known_fields = known_fields | getattr(
+        outer_fields = known_fields or set()
+        known_fields = outer_fields | getattr(
             self.from_statement, "known_fields", set()
         )
 
         for e in self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
-            errors += self.from_statement.validate(known_fields=set())
+            errors += self.from_statement.validate(outer_fields)
         if self.where_clause:
             errors += self.where_clause.validate(known_fields)
         if self.group_by_clause:
@@ -357,9 +357,12 @@ class GroupByClause(Expression):
 
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
-        for arg in self.args:
-            while isinstance(arg, Parenthesis) and arg.args:
-                arg = arg.args[0]
+        args = list(self.args)
+        while args:
+            arg = args.pop(0)
+            if isinstance(arg, Parenthesis):
+                args = list(arg.args) + args
+                continue
             if (
                 isinstance(arg, Integer)
                 and (arg.value <= 0 or arg.value > len(select_expressions))
@@ -383,6 +386,8 @@ class GroupByClause(Expression):
                     errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
+            elif not isinstance(arg, (Integer, Column, String)):
+                errors += arg.validate(known_fields | alias_fields(select_expressions))
 
         return errors
 
@@ -970,6 +975,12 @@ class DatePartExtraction(Expression):
     def __str__(self):
         return "{} FROM {}".format(self.part.upper(), transform(self.value))
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for expression in [self.value]:
+            errors += expression.validate(known_fields)
+        return errors
+
 
 class String(Expression):
     QUOTES = ("'", '"', "`")
@@ -1117,6 +1128,12 @@ class Parenthesis(Expression):
             return a.return_type
         return object
 
+    def resolve_return_type(self, known_fields):
+        for a in self.args:
+            if isinstance(a, Expression):
+                return a.resolve_return_type(known_fields)
+        return self.return_type
+
 
 class Array(Expression):
     def __init__(self, *args):
@@ -1135,6 +1152,12 @@ class Array(Expression):
             and all(a == o for a, o in zip(self.args, other.args))
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for expression in self.args:
+            errors += expression.validate(known_fields)
+        return errors
+
 
 class Alias(Expression):
     def __init__(self, expression, alias, with_as):
@@ -1198,6 +1221,12 @@ class Index(Expression):
             self.value, ", ".join(map(repr, self.indices))
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for expression in [self.value, *self.indices]:
+            errors += expression.validate(known_fields)
+        return errors
+
 
 class ArithmaticOperator(Expression):
     OPERATORS = ("+", "-", "*", "/", "%")
@@ -1223,9 +1252,15 @@ class ArithmaticOperator(Expression):
             and all(a == o for a, o in zip(self.args, other.args))
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for expression in self.args:
+            errors += expression.validate(known_fields)
+        return errors
+
     @property
     def return_type(self):
-        if any(isinstance(a, float) for a in self.args):
+        if any(a.return_type is float for a in self.args):
             return float
         return int
 
@@ -1276,6 +1311,12 @@ class BitwiseOperation(Expression):
             self.value, self.predicate, self.right_hand
         )
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for expression in (self.value, self.right_hand):
+            errors += expression.validate(known_fields)
+        return errors
+
 
 class Table(Expression):
     def __init__(self, value, in_square_brackets=False):
@@ -1445,6 +1486,10 @@ class Join(Expression):
         errors = super().validate(known_fields)
         if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
+        errors += self.left_from.validate(known_fields)
+        errors += self.right_from.validate(known_fields)
+        if self.on:
+            errors += self.on.value.validate(known_fields | self.known_fields)
         return errors
 
     @property
@@ -1477,6 +1522,12 @@ class CombinedQueries(Expression):
 
         return "{}\n{}{}".format(left_query, self.set_operator.upper(), right_query)
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        errors += self.left_query.validate(known_fields)
+        errors += self.right_query.validate(known_fields)
+        return errors
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return self.left_query.known_fields
@@ -1655,6 +1706,12 @@ class Negation(Expression):
             negation += " "
         return negation + transform(self.value)
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for expression in [self.value]:
+            errors += expression.validate(known_fields)
+        return errors
+
     @property
     def return_type(self):
         return bool
@@ -1680,10 +1737,19 @@ class SelectAllClause(Expression):
             except_str += transform(self.args[0])
         return except_str + ")"
 
+    def validate(self, known_fields):
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
 
 class ExceptClause(SelectAllClause):
     KEYWORD = "EXCEPT"
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        for expression in self.args:
+            errors += expression.validate(known_fields)
+        return errors
+
 
 class ReplaceClause(SelectAllClause):
     KEYWORD = "REPLACE"
@@ -1691,7 +1757,7 @@ class ReplaceClause(SelectAllClause):
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
         errors = super().validate(known_fields)
         for arg in self.args:
-            errors += arg.alias.validate(known_fields)
+            errors += arg.alias.validate(known_fields) + arg.validate(known_fields)
         return errors
 
 
@@ -1730,3 +1796,11 @@ class Case(Expression):
             case_str += f"\n ELSE {transformed_else}"
         case_str += "\nEND"
         return case_str
+
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        expressions = [self.value, *sum(self.when_then, ()), self.else_expression]
+        for expression in expressions:
+            if expression is not None:
+                errors += expression.validate(known_fields)
+        return errors
-- 
2.43.0


From 2012f3b60ea121db6a609a959b5f1170e39d6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 25/65] fix: do not report placeholders, CURRENT_DATE and date
 parts as missing columns

---
 sqlvalidator/grammar/sql.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ca4a604..184bdcb 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -627,9 +627,17 @@ class FunctionCall(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         for a in self.args:
-            errors += a.validate(known_fields)
+            if not self.is_keyword_argument(a):
+                errors += a.validate(known_fields)
         return errors
 
+    @staticmethod
+    def is_keyword_argument(arg):
+        """MONTH in DATE_TRUNC(x, MONTH), not a column."""
+        return isinstance(arg, Column) and (
+            lower(arg.value) in DatePartExtraction.PARTS + Column.KEYWORDS
+        )
+
     def __repr__(self):
         return "<FunctionCall {} - {}>".format(
             self.function_name, ", ".join(map(repr, self.args))
@@ -853,16 +861,35 @@ class Column(Expression):
         "sunday",
     )
 
+    SQL_CONSTANTS = (
+        "current_date",
+        "current_time",
+        "current_timestamp",
+        "localtime",
+        "localtimestamp",
+        "current_user",
+        "session_user",
+    )
+
     def __str__(self):
         if self.value in self.KEYWORDS:
             return self.value.upper()
         return str(self.value)
 
+    @property
+    def is_placeholder_or_constant(self):
+        return (
+            self.value.startswith(("%", ":", "@", "$", "?"))
+            or "{" in self.value
+            or lower(self.value) in self.SQL_CONSTANTS
+        )
+
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         if (
             not any(f.name == self.value for f in known_fields)
             and self.value != "*"
+            and not self.is_placeholder_or_constant
             and not accepts_any_column(known_fields)
         ):
             fields_without_alias = [
-- 
2.43.0


From b52d2aded2bb127e79469f230a2ae07b8bd4cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 26/65] fix: upper-case NFC, MONDAY and the like in any letter
 case, report errors in subqueries of FROM

Each level of subqueries was parsed twice when the innermost one had an error,
and the error was lost.
---
 sqlvalidator/grammar/lexer.py | 4 ++--
 sqlvalidator/grammar/sql.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 583d547..415c326 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -188,9 +188,9 @@ class FromStatementParser:
         next_token = next(tokens)
         if next_token == "(":
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
-            try:
+            if lower(next(iter(argument_tokens), None)) in ("select", "with"):
                 argument = SQLStatementParser.parse(iter(argument_tokens))
-            except ParsingError:
+            else:
                 argument = FromStatementParser.parse(iter(argument_tokens))
             expression = Parenthesis(argument)
             next_token = next(tokens, None)
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 184bdcb..8c30780 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -872,7 +872,7 @@ class Column(Expression):
     )
 
     def __str__(self):
-        if self.value in self.KEYWORDS:
+        if lower(self.value) in self.KEYWORDS:
             return self.value.upper()
         return str(self.value)
 
-- 
2.43.0


From 110d58b401e93f07d1e865554e73e98ba75f842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 27/65] fix: change nothing in a file but its SQL strings

Rebuilding the file from its tokens changed line ends, continuation lines and
form feeds, thousands of strings exceeded the recursion limit, a string that
is only a part of a concatenated query was formatted on its own, and a
following string with nosqlformat in it counted as a comment. Formatting is
no longer attempted where only validation is asked for.
---
 sqlvalidator/file_handler.py | 161 +++++++++++++++--------------------
 1 file changed, 69 insertions(+), 92 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..af3f262 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,4 +1,6 @@
+import io
 import os
+import re
 import sys
 import tokenize
 from typing import IO, List, Optional, Set, Tuple
@@ -39,6 +41,11 @@ STRING_PREFIXES = (
     "Rb",
     "RB",
 )
+STRING_TOKENS = (
+    tokenize.STRING,
+    getattr(tokenize, "FSTRING_START", tokenize.STRING),
+    getattr(tokenize, "FSTRING_END", tokenize.STRING),
+)
 
 
 class InputSQLAnalyseInfo:
@@ -191,7 +198,7 @@ def analyse_file(
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
-    with open(filename, "r") as file:
+    with open(filename, "r", newline="") as file:
         (
             count_changed_sql,
             new_content,
@@ -205,7 +212,7 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w") as f:
+            with open(filename, "w", newline="") as f:
                 f.write(new_content)
             starting_text = "reformatted"
         elif check:
@@ -242,107 +249,75 @@ def compute_file_content(
     count_changed_sql = 0
     count_has_errors = 0
     errors_locations = []
-    tokens = []
 
-    def handle_string_token(
-        token_generator, token_type, token_value, starting, ending, line
-    ):
-        nonlocal tokens
-        nonlocal count_changed_sql
-        nonlocal count_has_errors
-        nonlocal errors_locations
-
-        if not is_select_string(token_value):
-            tokens.append((token_type, token_value, starting, ending, line))
-            return
-
-        following_tokens = []
-        # Find if the next comment without a string in-between if there is one
-        next_token, next_token_value, next_starting, next_ending, next_line = next(
-            token_generator, (None, None, None, None, None)
-        )
-        if next_token is None:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            tokens.append((token_type, formatted_sql, starting, ending, line))
-            tokens += following_tokens
-            if formatted_sql != token_value:
-                count_changed_sql += 1
-            if not sql_query.is_valid():
-                count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
-            return
-
-        following_tokens.append(
-            (next_token, next_token_value, next_starting, next_ending, next_line)
-        )
-        while (
-            next_token
-            and next_token != tokenize.COMMENT
-            and next_token != tokenize.STRING
+    content = file.read()
+    line_offsets = [0] + [m.end() for m in re.finditer(r"\r\n?|\n", content)]
+    newline = "\r\n" if "\r\n" in content else "\n"
+    readline = io.StringIO(re.sub(r"\r\n?", "\n", content)).readline
+    tokens = list(tokenize.generate_tokens(readline))
+
+    new_content = ""
+    copied_until = 0
+    for index, token in enumerate(tokens):
+        if (
+            token.type != tokenize.STRING
+            or not is_select_string(token.string)
+            or is_concatenated_string(tokens, index)
         ):
-            next_token, next_token_value, next_starting, next_ending, next_line = next(
-                token_generator, (None, None, None, None, None)
+            continue
+
+        comment = find_comment(tokens, index)
+        needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
+        needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
+        if not needs_format and not needs_validate:
+            continue
+
+        formatted_sql, sql_query = handle_sql_string(token.string, needs_format)
+        if formatted_sql != token.string:
+            start, end = (
+                line_offsets[line - 1] + column for line, column in token[2:4]
             )
-            if next_token is None:
-                tokens.append((token_type, token_value, starting, ending, line))
-                tokens += following_tokens
-                return
-            following_tokens.append(
-                (next_token, next_token_value, next_starting, next_ending, next_line)
-            )
-
-        needs_format = should_format and NO_SQLFORMAT_COMMENT not in next_token_value
-        needs_validate = (
-            should_validate and NO_SQLVALIDATION_COMMENT not in next_token_value
-        )
-        if next_token != tokenize.COMMENT or needs_format or needs_validate:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            if (
-                formatted_sql != token_value
-                and NO_SQLFORMAT_COMMENT not in next_token_value
-            ):
-                tokens.append((token_type, formatted_sql, starting, ending, line))
-                count_changed_sql += 1
-            else:
-                tokens.append((token_type, token_value, starting, ending, line))
-            if needs_validate and not sql_query.is_valid():
-                count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
-
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
-
-        if next_token == tokenize.STRING:
-            tokens += following_tokens[:-1]
-            handle_string_token(
-                token_generator,
-                next_token,
-                next_token_value,
-                next_starting,
-                next_ending,
-                next_line,
-            )
-        else:
-            tokens += following_tokens
+            new_content += content[copied_until:start]
+            new_content += formatted_sql.replace("\n", newline)
+            copied_until = end
+            count_changed_sql += 1
+        if needs_validate and not sql_query.is_valid():
+            count_has_errors += 1
+            errors_locations.append((token.start[0], sql_query.errors))
+
+    new_content += content[copied_until:]
+    return count_changed_sql, new_content, count_has_errors, errors_locations
+
+
+def find_comment(tokens, index: int) -> str:
+    """The next comment, if there is no other string before it."""
+    for token in tokens[index + 1 :]:
+        if token.type == tokenize.COMMENT:
+            return token.string
+        if token.type in STRING_TOKENS:
+            break
+    return ""
 
-    token_generator = tokenize.generate_tokens(file.readline)
-    for token_type, token_value, starting, ending, line in token_generator:
-        if token_type == tokenize.STRING:
-            handle_string_token(
-                token_generator, token_type, token_value, starting, ending, line
-            )
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
 
-    formatted_file_content = tokenize.untokenize(tokens)
-    return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
+def is_concatenated_string(tokens, index: int) -> bool:
+    """Only a part of a query, the rest being in the strings next to it."""
+    for neighbours in (reversed(tokens[:index]), tokens[index + 1 :]):
+        for token in neighbours:
+            if token.type in STRING_TOKENS:
+                return True
+            if token.type not in (tokenize.NL, tokenize.COMMENT):
+                break
+    return False
 
 
-def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
+def handle_sql_string(
+    sql_string: str, needs_format: bool
+) -> Tuple[str, sql_validator.SQLQuery]:
     """
     Read a SQL string as input, potentially with quotes or not,
     and analyse it in order to get the formatter content and know if it is valid.
     """
+    token_value = sql_string
     quotes = None
     quotes_prefix = None
 
@@ -372,6 +347,8 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
 
     sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
+    if not needs_format:
+        return token_value, sql_query
     formatted_sql = sql_query.format()
 
     if len(quotes) == 1 and "\n" in formatted_sql:
-- 
2.43.0


From fe789405a1e8de343cb56921e20ea1206e76333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 28/65] fix: do not take words made of prefix letters and a
 lone "select" for SQL

---
 sqlvalidator/file_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index af3f262..9d634cc 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -372,9 +372,10 @@ def handle_sql_string(
 
 
 def is_select_string(token_value: str) -> bool:
-    cleaned_value = token_value.lower().lstrip(" \n'\"`ufbr")
+    unprefixed_value = token_value.lower().lstrip("ufbr")
+    cleaned_value = unprefixed_value.lstrip(" \n'\"`")
     lines = cleaned_value.splitlines()
-    if not lines:
+    if not lines or unprefixed_value.strip(" \n'\"`") == "select":
         return False
     return lines[0].split(" ", maxsplit=1)[0] == "select"
 
-- 
2.43.0


From b0b532425da5809941ddcc64540d2af5e6c3bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 29/65] fix: format the value of string literals with escape
 sequences

---
 sqlvalidator/file_handler.py | 62 ++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 9d634cc..986bad8 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -1,8 +1,10 @@
+import ast
 import io
 import os
 import re
 import sys
 import tokenize
+import warnings
 from typing import IO, List, Optional, Set, Tuple
 
 from . import sql_validator
@@ -346,7 +348,15 @@ def handle_sql_string(
         sql_string = sql_string[len(quotes_prefix) :]
     sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
 
-    sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
+    has_escapes = "\\" in sql_string_without_quotes and not (
+        quotes_prefix and set("rf") & set(quotes_prefix.lower())
+    )
+    if has_escapes:
+        sql = get_string_value(token_value)
+    else:
+        sql = sql_string_without_quotes
+
+    sql_query = sql_validator.SQLQuery(sql)
     if not needs_format:
         return token_value, sql_query
     formatted_sql = sql_query.format()
@@ -360,22 +370,54 @@ def handle_sql_string(
     else:
         new_quotes = quotes
 
-    if len(new_quotes) == 3 and "\n" in formatted_sql:
-        quoted_sql = "{prefix}{quotes}\n{sql}\n{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
-        )
-    else:
-        quoted_sql = "{prefix}{quotes}{sql}{quotes}".format(
-            prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
+    if len(new_quotes) == 3 and (
+        "\n" in formatted_sql or formatted_sql.endswith(new_quotes[0])
+    ):
+        formatted_sql = "\n{}\n".format(formatted_sql)
+
+    if has_escapes:
+        if formatted_sql == sql and new_quotes == quotes:
+            return token_value, sql_query
+        formatted_sql = escape_string_value(
+            formatted_sql, new_quotes, "b" in (quotes_prefix or "").lower()
         )
+
+    quoted_sql = "{prefix}{quotes}{sql}{quotes}".format(
+        prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
+    )
     return quoted_sql, sql_query
 
 
+def get_string_value(token_value: str) -> str:
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore")  # invalid escape sequences
+        value = ast.literal_eval(token_value)
+    return value.decode("latin-1") if isinstance(value, bytes) else value
+
+
+def escape_string_value(value: str, quotes: str, is_bytes: bool) -> str:
+    quote = quotes[0]
+    escaped = value.replace("\\", "\\\\")
+    if len(quotes) == 1:
+        escaped = escaped.replace(quote, "\\" + quote)
+    else:
+        escaped = re.sub(quote + "(?=" + quote + ")", "\\\\" + quote, escaped)
+    if is_bytes:
+        escaped = escaped.encode("latin-1").decode("ascii", "backslashreplace")
+    return "".join(
+        char
+        if char.isprintable() or char == "\n"
+        else char.encode("unicode_escape").decode()
+        for char in escaped
+    )
+
+
 def is_select_string(token_value: str) -> bool:
     unprefixed_value = token_value.lower().lstrip("ufbr")
-    cleaned_value = unprefixed_value.lstrip(" \n'\"`")
+    quotes = next(q for q in POSSIBLE_QUOTES if unprefixed_value.startswith(q))
+    cleaned_value = unprefixed_value[len(quotes) : -len(quotes)].strip(" \n")
     lines = cleaned_value.splitlines()
-    if not lines or unprefixed_value.strip(" \n'\"`") == "select":
+    if not lines or cleaned_value == "select":
         return False
     return lines[0].split(" ", maxsplit=1)[0] == "select"
 
-- 
2.43.0


From 84db839d3c3032276f8c470276939744da6f5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 30/65] fix: do not take double-quoted and backquoted names for
 strings in boolean conditions

---
 sqlvalidator/grammar/sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8c30780..86eb54e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1031,7 +1031,8 @@ class String(Expression):
 
     @property
     def return_type(self):
-        return str
+        # Other quotes can stand around the name of a column of any type
+        return str if self.quotes == "'" else object
 
 
 class Integer(Expression):
-- 
2.43.0


From 2fcd1607c6c2b4120077649ca8846d631f17e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 31/65] fix: do not report a query valid after its validation
 raised

---
 sqlvalidator/sql_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index 950a114..9b352da 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -27,11 +27,11 @@ class SQLQuery:
         return len(self.errors) == 0
 
     def _validate(self):
-        self.validated = True
         try:
             self.errors = self.sql_query.validate()
         except ParsingError as ex:
             self.errors.append(str(ex))
+        self.validated = True
 
 
 def parse(sql: str) -> SQLQuery:
-- 
2.43.0


From bc812ca12f0a9fc35463d9a088a64dae23e8dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:56 +0000
Subject: [PATCH 32/65] fix: a quoted column of a subquery can be used outside
 of it

---
 sqlvalidator/grammar/sql.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 86eb54e..1bdb1f8 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -42,6 +42,8 @@ def output_fields(expressions) -> Set[_FieldInfo]:
     for e in expressions or []:
         if isinstance(e, Column) and not is_star(e):
             fields.add(_FieldInfo(e.value, e.return_type))
+        elif isinstance(e, String) and e.is_quoted_name:
+            fields.add(_FieldInfo(e.value, e.return_type))
         elif isinstance(e, ChainedColumns) and not is_star(e):
             fields.add(_FieldInfo(e.names[-1], e.return_type))
     return fields
@@ -1029,10 +1031,14 @@ class String(Expression):
             self.__class__.__name__, self.value, self.quotes, self.prefix
         )
 
+    @property
+    def is_quoted_name(self) -> bool:
+        """Other quotes can stand around the name of a column of any type."""
+        return self.quotes != "'"
+
     @property
     def return_type(self):
-        # Other quotes can stand around the name of a column of any type
-        return str if self.quotes == "'" else object
+        return object if self.is_quoted_name else str
 
 
 class Integer(Expression):
-- 
2.43.0


From 0281292522a333ed9046967ba5e26dd257ad1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:59 +0000
Subject: [PATCH 33/65] fix: check the columns of DISTINCT ON

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1bdb1f8..b84d1b3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -166,6 +166,8 @@ class SelectStatement:
             self.from_statement, "known_fields", set()
         )
 
+        for e in self.select_distinct_on or []:
+            errors += e.validate(known_fields | alias_fields(self.expressions))
         for e in self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
-- 
2.43.0


From f732e358577b80375900806db6181ffe369e385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:01 +0000
Subject: [PATCH 34/65] fix: a list is no valid LIMIT or OFFSET

---
 sqlvalidator/grammar/sql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b84d1b3..b9c2aba 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -526,8 +526,8 @@ class LimitClause(Expression):
         if self.limit_all:
             return errors
         value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        while isinstance(value, Parenthesis) and len(value.args) == 1:
+            value = value.args[0]
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
         else:
@@ -540,8 +540,8 @@ class OffsetClause(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        while isinstance(value, Parenthesis) and len(value.args) == 1:
+            value = value.args[0]
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
         else:
-- 
2.43.0


From d50018d6bce502010918402525d4dfc3c3f77b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 35/65] fix: a list in ORDER BY is no position

---
 sqlvalidator/grammar/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b9c2aba..225e8aa 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -486,8 +486,8 @@ class OrderByItem(Expression):
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
         value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        while isinstance(value, Parenthesis) and len(value.args) == 1:
+            value = value.args[0]
 
         if isinstance(value, Integer):
             if select_expressions is None:
-- 
2.43.0


From 67330b49a1f2c1a04c4995ed20373f66fd757d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 36/65] fix: columns of a subquery hide columns of the same
 name around it

---
 sqlvalidator/grammar/sql.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 225e8aa..3e4ce3e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Any, List, Optional, Set
+from typing import Any, Dict, List, Optional, Set
 
 from sqlvalidator.grammar.tokeniser import lower
 
@@ -49,6 +49,22 @@ def output_fields(expressions) -> Set[_FieldInfo]:
     return fields
 
 
+def in_scope(
+    outer_fields: Set[_FieldInfo], own_fields: Set[_FieldInfo]
+) -> Set[_FieldInfo]:
+    """All fields a (sub)query can use: its own ones hide outer ones of that name."""
+    own_types: Dict[str, list] = {}
+    for field in own_fields:
+        own_types.setdefault(field.name.split(".", 1)[-1], []).append(field.type)
+    outer_names = {f.name.split(".", 1)[-1] for f in outer_fields}
+    hidden = (outer_names & set(own_types)) - {"*"}
+    fields = own_fields | {f for f in outer_fields if f.name not in hidden}
+    for name in hidden:
+        if len(own_types[name]) == 1:
+            fields.add(_FieldInfo(name, own_types[name][0]))
+    return fields
+
+
 def is_star(expression) -> bool:
     return (
         isinstance(expression, SelectAllClause)
@@ -162,8 +178,8 @@ class SelectStatement:
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
         outer_fields = known_fields or set()
-        known_fields = outer_fields | getattr(
-            self.from_statement, "known_fields", set()
+        known_fields = in_scope(
+            outer_fields, getattr(self.from_statement, "known_fields", set())
         )
 
         for e in self.select_distinct_on or []:
@@ -1525,7 +1541,7 @@ class Join(Expression):
         errors += self.left_from.validate(known_fields)
         errors += self.right_from.validate(known_fields)
         if self.on:
-            errors += self.on.value.validate(known_fields | self.known_fields)
+            errors += self.on.value.validate(in_scope(known_fields, self.known_fields))
         return errors
 
     @property
-- 
2.43.0


From e66474dcfdffcee90b091ba2af93fbaa4037ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:09 +0000
Subject: [PATCH 37/65] fix: the verdict does not depend on the order of a set

---
 sqlvalidator/grammar/sql.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 3e4ce3e..c0893c1 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -49,6 +49,14 @@ def output_fields(expressions) -> Set[_FieldInfo]:
     return fields
 
 
+def with_names(
+    known_fields: Set[_FieldInfo], other_fields: Set[_FieldInfo]
+) -> Set[_FieldInfo]:
+    """The known fields, and the other ones for names that are not known yet."""
+    known_names = {f.name for f in known_fields}
+    return known_fields | {f for f in other_fields if f.name not in known_names}
+
+
 def in_scope(
     outer_fields: Set[_FieldInfo], own_fields: Set[_FieldInfo]
 ) -> Set[_FieldInfo]:
@@ -183,7 +191,9 @@ class SelectStatement:
         )
 
         for e in self.select_distinct_on or []:
-            errors += e.validate(known_fields | alias_fields(self.expressions))
+            errors += e.validate(
+                with_names(known_fields, alias_fields(self.expressions))
+            )
         for e in self.expressions:
             errors += e.validate(known_fields)
         if self.from_statement:
@@ -194,7 +204,7 @@ class SelectStatement:
             errors += self.group_by_clause.validate(known_fields, self.expressions)
         if self.having_clause:
             errors += self.having_clause.validate(
-                known_fields | alias_fields(self.expressions)
+                with_names(known_fields, alias_fields(self.expressions))
             )
         if self.order_by_clause:
             errors += self.order_by_clause.validate(known_fields, self.expressions)
@@ -313,9 +323,9 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == transform(self)]
-        if matching_fields:
-            return matching_fields[0].type
+        types = {f.type for f in known_fields if f.name == transform(self)}
+        if types:
+            return types.pop() if len(types) == 1 else object
         return self.return_type
 
 
@@ -407,7 +417,9 @@ class GroupByClause(Expression):
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
             elif not isinstance(arg, (Integer, Column, String)):
-                errors += arg.validate(known_fields | alias_fields(select_expressions))
+                errors += arg.validate(
+                    with_names(known_fields, alias_fields(select_expressions))
+                )
 
         return errors
 
@@ -463,7 +475,7 @@ class OrderByClause(Expression):
 
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
-        known_fields = known_fields | output_fields(select_expressions)
+        known_fields = with_names(known_fields, output_fields(select_expressions))
         for arg in self.args:
             errors += arg.validate(known_fields, select_expressions)
         return errors
-- 
2.43.0


From f275e2523b7d9598514a351c542698249b9a5413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:11 +0000
Subject: [PATCH 38/65] fix: outer columns can be hidden by columns of a table

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c0893c1..f30a7c3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -64,6 +64,9 @@ def in_scope(
     own_types: Dict[str, list] = {}
     for field in own_fields:
         own_types.setdefault(field.name.split(".", 1)[-1], []).append(field.type)
+    if accepts_any_column(own_fields):
+        # Outer columns can be hidden by ones that are not known
+        outer_fields = {_FieldInfo(f.name, object) for f in outer_fields}
     outer_names = {f.name.split(".", 1)[-1] for f in outer_fields}
     hidden = (outer_names & set(own_types)) - {"*"}
     fields = own_fields | {f for f in outer_fields if f.name not in hidden}
-- 
2.43.0


From 98a6a8bd9c60a7dc3b2e685c3a4192ed80ffe124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 39/65] fix: the type of a column of an aliased subquery is
 known without alias

---
 sqlvalidator/grammar/sql.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f30a7c3..76831d1 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -936,6 +936,16 @@ class Column(Expression):
                 errors.append("The column {} was not found".format(self.value))
         return errors
 
+    def resolve_return_type(self, known_fields):
+        if any(f.name == self.value for f in known_fields):
+            return super().resolve_return_type(known_fields)
+        fields_without_alias = [
+            f for f in known_fields if f.name.split(".", 1)[-1] == self.value
+        ]
+        if len(fields_without_alias) == 1:
+            return fields_without_alias[0].type
+        return self.return_type
+
 
 class ChainedColumns(Expression):
     def __init__(self, *args):
-- 
2.43.0


From 7043b3e3981eb4741397b62f943e589b4ecd370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:31 +0000
Subject: [PATCH 40/65] fix: columns of the sources hide aliases of the select
 list

---
 sqlvalidator/grammar/sql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 76831d1..e2fbfb2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -52,9 +52,9 @@ def output_fields(expressions) -> Set[_FieldInfo]:
 def with_names(
     known_fields: Set[_FieldInfo], other_fields: Set[_FieldInfo]
 ) -> Set[_FieldInfo]:
-    """The known fields, and the other ones for names that are not known yet."""
-    known_names = {f.name for f in known_fields}
-    return known_fields | {f for f in other_fields if f.name not in known_names}
+    """The known fields, and the other ones for names that do not mean one of them."""
+    names = [f.name.split(".", 1)[-1] for f in known_fields]
+    return known_fields | {f for f in other_fields if names.count(f.name) != 1}
 
 
 def in_scope(
-- 
2.43.0


From cc625aa4c4a9f91b481fadce8528752982d53ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:50 +0000
Subject: [PATCH 41/65] fix: placeholders are valid in LIMIT and OFFSET

---
 sqlvalidator/grammar/sql.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e2fbfb2..1e31d02 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -559,6 +559,8 @@ class LimitClause(Expression):
         value = self.value
         while isinstance(value, Parenthesis) and len(value.args) == 1:
             value = value.args[0]
+        if isinstance(value, Column) and value.is_placeholder:
+            return errors
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
         else:
@@ -573,6 +575,8 @@ class OffsetClause(Expression):
         value = self.value
         while isinstance(value, Parenthesis) and len(value.args) == 1:
             value = value.args[0]
+        if isinstance(value, Column) and value.is_placeholder:
+            return errors
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
         else:
@@ -911,13 +915,13 @@ class Column(Expression):
             return self.value.upper()
         return str(self.value)
 
+    @property
+    def is_placeholder(self):
+        return self.value.startswith(("%", ":", "@", "$", "?")) or "{" in self.value
+
     @property
     def is_placeholder_or_constant(self):
-        return (
-            self.value.startswith(("%", ":", "@", "$", "?"))
-            or "{" in self.value
-            or lower(self.value) in self.SQL_CONSTANTS
-        )
+        return self.is_placeholder or lower(self.value) in self.SQL_CONSTANTS
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-- 
2.43.0


From b26d9346998a81f280ba0741da46f91bb180e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 42/65] fix: check the columns in the ORDER BY of ARRAY_AGG

---
 sqlvalidator/grammar/sql.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1e31d02..f86cd3d 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -761,6 +761,12 @@ class ArrayAggFunctionCall(FunctionCall):
 
         return array_agg_str + ")"
 
+    def validate(self, known_fields):
+        errors = super().validate(known_fields)
+        if self.order_bys:
+            errors += self.order_bys.validate(known_fields, None)
+        return errors
+
 
 class FilteredFunctionCall(Expression):
     def __init__(self, function_call: FunctionCall, filter_condition):
-- 
2.43.0


From 97e3db8da254d64ef7a6bcad8b0672fe09882310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:04 +0000
Subject: [PATCH 43/65] fix: alias.* of a subquery without column names is
 valid

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f86cd3d..2c28956 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -46,6 +46,8 @@ def output_fields(expressions) -> Set[_FieldInfo]:
             fields.add(_FieldInfo(e.value, e.return_type))
         elif isinstance(e, ChainedColumns) and not is_star(e):
             fields.add(_FieldInfo(e.names[-1], e.return_type))
+        elif not isinstance(e, Alias) and not is_star(e):
+            fields.add(_FieldInfo("", e.return_type))  # a column without a name
     return fields
 
 
-- 
2.43.0


From f3ac751e0f1b82a7b5b6f5431e3003f2b33fffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:13 +0000
Subject: [PATCH 44/65] fix: CROSS JOIN is left-associative

---
 sqlvalidator/grammar/lexer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 415c326..6094e62 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -278,8 +278,15 @@ class FromStatementParser:
             )
             join_type = JoinTypeParser.parse(iter(expression_tokens))
 
-            if join_type in ("CROSS JOIN", ","):
+            if join_type == ",":
                 expression_tokens, next_token = [next_token] + list(tokens), None
+            elif join_type == "CROSS JOIN":
+                expression_tokens, next_token = get_tokens_until_one_of(
+                    tokens, Join.VALUES, first_token=next_token
+                )
+                right_expr = FromStatementParser.parse(iter(expression_tokens))
+                expression = Join(join_type, left_expr, right_expr, on=None, using=None)
+                continue
             else:
                 expression_tokens, next_token = get_tokens_until_one_of(
                     tokens, ("on", "using"), first_token=next_token
-- 
2.43.0


From 9ab7f3ab85b67e923fc729d652042853af3bbf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 45/65] fix: validate the arguments of UNNEST in FROM

---
 sqlvalidator/grammar/sql.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2c28956..c58a016 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1441,6 +1441,9 @@ class Unnest(Expression):
                 unnest_str += f" {self.offset_alias}"
         return unnest_str
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        return super().validate(known_fields) + self.value.validate(known_fields)
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         return {_FieldInfo("*", type=object)}
@@ -1571,12 +1574,37 @@ class Join(Expression):
             self.using,
         )
 
-    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+    @staticmethod
+    def validate_source(source, known_fields, lateral_fields) -> list:
+        """UNNEST can use the columns of the sources before it."""
+        if isinstance(source, Unnest):
+            return source.validate(lateral_fields)
+        if isinstance(source, Join):
+            return source.validate(known_fields, lateral_fields)
+        if isinstance(source, Alias):
+            return Join.validate_source(
+                source.expression, known_fields, lateral_fields
+            )
+        if isinstance(source, Parenthesis):
+            return Join.validate_source(source.args[0], known_fields, lateral_fields)
+        return source.validate(known_fields)
+
+    def validate(
+        self,
+        known_fields: Set[_FieldInfo],
+        lateral_fields: Optional[Set[_FieldInfo]] = None,
+    ) -> list:
         errors = super().validate(known_fields)
+        if lateral_fields is None:
+            lateral_fields = known_fields
         if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
-        errors += self.left_from.validate(known_fields)
-        errors += self.right_from.validate(known_fields)
+        errors += self.validate_source(self.left_from, known_fields, lateral_fields)
+        errors += self.validate_source(
+            self.right_from,
+            known_fields,
+            in_scope(lateral_fields, self.left_from.known_fields),
+        )
         if self.on:
             errors += self.on.value.validate(in_scope(known_fields, self.known_fields))
         return errors
-- 
2.43.0


From 7fb1b3849fd422bb143cb080260e6b1ad13d53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 46/65] fix: columns of a table can hide aliases of the select
 list

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c58a016..15f5a51 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -56,6 +56,8 @@ def with_names(
 ) -> Set[_FieldInfo]:
     """The known fields, and the other ones for names that do not mean one of them."""
     names = [f.name.split(".", 1)[-1] for f in known_fields]
+    if accepts_any_column(known_fields):
+        other_fields = {_FieldInfo(f.name, object) for f in other_fields}
     return known_fields | {f for f in other_fields if names.count(f.name) != 1}
 
 
-- 
2.43.0


From d739a1791dd1ae2080d15082b0272b461d97cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 47/65] fix: one column of several types is not ambiguous

---
 sqlvalidator/grammar/sql.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 15f5a51..f04277f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -55,7 +55,7 @@ def with_names(
     known_fields: Set[_FieldInfo], other_fields: Set[_FieldInfo]
 ) -> Set[_FieldInfo]:
     """The known fields, and the other ones for names that do not mean one of them."""
-    names = [f.name.split(".", 1)[-1] for f in known_fields]
+    names = [name.split(".", 1)[-1] for name in {f.name for f in known_fields}]
     if accepts_any_column(known_fields):
         other_fields = {_FieldInfo(f.name, object) for f in other_fields}
     return known_fields | {f for f in other_fields if names.count(f.name) != 1}
@@ -65,18 +65,18 @@ def in_scope(
     outer_fields: Set[_FieldInfo], own_fields: Set[_FieldInfo]
 ) -> Set[_FieldInfo]:
     """All fields a (sub)query can use: its own ones hide outer ones of that name."""
-    own_types: Dict[str, list] = {}
+    own: Dict[str, Set[_FieldInfo]] = {}
     for field in own_fields:
-        own_types.setdefault(field.name.split(".", 1)[-1], []).append(field.type)
+        own.setdefault(field.name.split(".", 1)[-1], set()).add(field)
     if accepts_any_column(own_fields):
         # Outer columns can be hidden by ones that are not known
         outer_fields = {_FieldInfo(f.name, object) for f in outer_fields}
     outer_names = {f.name.split(".", 1)[-1] for f in outer_fields}
-    hidden = (outer_names & set(own_types)) - {"*"}
+    hidden = (outer_names & set(own)) - {"*"}
     fields = own_fields | {f for f in outer_fields if f.name not in hidden}
     for name in hidden:
-        if len(own_types[name]) == 1:
-            fields.add(_FieldInfo(name, own_types[name][0]))
+        if len({f.name for f in own[name]}) == 1:
+            fields |= {_FieldInfo(name, f.type) for f in own[name]}
     return fields
 
 
@@ -416,9 +416,11 @@ class GroupByClause(Expression):
                 )
                 and not accepts_any_column(known_fields)
             ):
-                fields_without_alias = [
-                    f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
-                ]
+                fields_without_alias = {
+                    f.name
+                    for f in known_fields
+                    if f.name.split(".", 1)[-1] == arg.value
+                }
                 if len(fields_without_alias) > 1:
                     errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
@@ -941,9 +943,11 @@ class Column(Expression):
             and not self.is_placeholder_or_constant
             and not accepts_any_column(known_fields)
         ):
-            fields_without_alias = [
-                f for f in known_fields if f.name.split(".", 1)[-1] == self.value
-            ]
+            fields_without_alias = {
+                f.name
+                for f in known_fields
+                if f.name.split(".", 1)[-1] == self.value
+            }
             if len(fields_without_alias) > 1:
                 errors.append('column "{}" is ambiguous'.format(self.value))
             elif len(fields_without_alias) == 0:
-- 
2.43.0


From 868c34fa677bd883038365aa39b4ad92b22df7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:03 +0000
Subject: [PATCH 48/65] fix: aliases of a subquery hide the same aliases around
 it

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f04277f..562d20b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -71,6 +71,10 @@ def in_scope(
     if accepts_any_column(own_fields):
         # Outer columns can be hidden by ones that are not known
         outer_fields = {_FieldInfo(f.name, object) for f in outer_fields}
+    own_aliases = {f.name.split(".", 1)[0] + "." for f in own_fields if "." in f.name}
+    outer_fields = {
+        f for f in outer_fields if not f.name.startswith(tuple(own_aliases))
+    }
     outer_names = {f.name.split(".", 1)[-1] for f in outer_fields}
     hidden = (outer_names & set(own)) - {"*"}
     fields = own_fields | {f for f in outer_fields if f.name not in hidden}
-- 
2.43.0


From 7376f6a5fe47d26f959bd36bfbee8569c35c8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 49/65] fix: a hidden alias does not hide its columns

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 562d20b..96f2ed0 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -71,9 +71,12 @@ def in_scope(
     if accepts_any_column(own_fields):
         # Outer columns can be hidden by ones that are not known
         outer_fields = {_FieldInfo(f.name, object) for f in outer_fields}
-    own_aliases = {f.name.split(".", 1)[0] + "." for f in own_fields if "." in f.name}
+    own_aliases = {f.name.split(".", 1)[0] for f in own_fields if "." in f.name}
     outer_fields = {
-        f for f in outer_fields if not f.name.startswith(tuple(own_aliases))
+        _FieldInfo(f.name.split(".", 1)[1], f.type)
+        if "." in f.name and f.name.split(".", 1)[0] in own_aliases
+        else f
+        for f in outer_fields
     }
     outer_names = {f.name.split(".", 1)[-1] for f in outer_fields}
     hidden = (outer_names & set(own)) - {"*"}
-- 
2.43.0


From 1297df4ef7458b4ed1341b72a3c1e089d6bacff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:13 +0000
Subject: [PATCH 50/65] fix: --verbose-validate summarises and exits like
 --validate

---
 sqlvalidator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/main.py b/sqlvalidator/main.py
index fafc3d3..1c891e3 100644
--- a/sqlvalidator/main.py
+++ b/sqlvalidator/main.py
@@ -53,7 +53,7 @@ def _main() -> None:
         src_inputs,
         format_input=args.format,
         check_input_format=args.check_format,
-        validate_input=args.validate,
+        validate_input=args.validate or args.verbose_validate,
         verbose_validate_input=args.verbose_validate,
     )
 
-- 
2.43.0


From 67d074b71adb5197c05b06a2a00930b76784cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:33 +0000
Subject: [PATCH 51/65] fix: read and write files in the encoding they declare

---
 sqlvalidator/file_handler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 986bad8..ef58ca9 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -200,7 +200,9 @@ def analyse_file(
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
 
-    with open(filename, "r", newline="") as file:
+    with open(filename, "rb") as binary_file:
+        encoding, _ = tokenize.detect_encoding(binary_file.readline)
+    with open(filename, "r", encoding=encoding, newline="") as file:
         (
             count_changed_sql,
             new_content,
@@ -214,8 +216,10 @@ def analyse_file(
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w", newline="") as f:
-                f.write(new_content)
+            # only characters that were escaped in the file can be missing in the encoding
+            encoded_content = new_content.encode(encoding, "backslashreplace")
+            with open(filename, "wb") as f:
+                f.write(encoded_content)
             starting_text = "reformatted"
         elif check:
             starting_text = "would reformat"
-- 
2.43.0


From cf476d3a4fe7ee277bd08016f2cfb3fa6d00f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 52/65] fix: keep LIMIT 0 of ARRAY_AGG

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 96f2ed0..ff5a6d2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -769,7 +769,7 @@ class ArrayAggFunctionCall(FunctionCall):
                 self.order_bys.transform(allow_linebreak=False)
             )
 
-        if self.limit:
+        if self.limit is not None:
             array_agg_str += " LIMIT {}".format(self.limit)
 
         return array_agg_str + ")"
-- 
2.43.0


From 52235b56f8ebdcec8be5de3b0b661d0670d8217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:25 +0000
Subject: [PATCH 53/65] fix: compare column keywords regardless of letter case

---
 sqlvalidator/grammar/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ff5a6d2..b72b04c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -929,9 +929,10 @@ class Column(Expression):
         "session_user",
     )
 
+    def __init__(self, value):
+        super().__init__(value.upper() if lower(value) in self.KEYWORDS else value)
+
     def __str__(self):
-        if lower(self.value) in self.KEYWORDS:
-            return self.value.upper()
         return str(self.value)
 
     @property
-- 
2.43.0


From c201abc945622c577880c673ef7682cc6fe83f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 54/65] fix: analyse a file once even if symbolic links reach
 it too

---
 sqlvalidator/file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index ef58ca9..3c81c24 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -195,7 +195,7 @@ def analyse_file(
     verbose_validate: bool,
     seen_files: Set[str],
 ) -> InputSQLAnalyseInfo:
-    abs_filename = os.path.abspath(filename)
+    abs_filename = os.path.realpath(filename)
     if abs_filename in seen_files:
         return InputSQLAnalyseInfo()
     seen_files.add(abs_filename)
-- 
2.43.0


From e2ffe2d1f2907e4bd97e1a551a21599cd27af3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 55/65] fix: keep U+FFFF in literals

---
 sqlvalidator/grammar/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b72b04c..86cc327 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -5,8 +5,8 @@ from sqlvalidator.grammar.tokeniser import lower
 
 DEFAULT_LINE_LENGTH = 88
 
-# Stands for a line break in a literal, which must not be indented
-LITERAL_NEWLINE = "\uffff"
+# Stands for a line break in a literal, which must not be indented; no text has it
+LITERAL_NEWLINE = "\ud800"
 
 
 def transform(obj: Any) -> str:
-- 
2.43.0


From 8da6401d43796a14f324dbe61bc27500e011bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:52 +0000
Subject: [PATCH 56/65] fix: do not join a name and a quoted name on the next
 line

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 93b10ba..6d3c998 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -26,7 +26,7 @@ EXPONENT_NUMBER = re.compile(r"(?<![\w.])(?:\d+\.?\d*|\.\d+)[eE][+-]?\d+(?![\w.]
 # %(name)s and {value}, {value.attribute}, {value[0]}, also as a part of a word
 PLACEHOLDER = re.compile(r"%\(\w+\)\w|\w*(?:\{[^{}]*\}\w*)+")
 STRING_LITERAL = re.compile(r"""(['"`])(?:\\.|\1\1|(?!\1)[^\\])*\1""", re.DOTALL)
-STRING_PREFIX = re.compile(r"(?<![\w.])(?:rb|br|[benrx])$", re.IGNORECASE)
+STRING_PREFIX = re.compile(r"(?<![\w.])(?:rb|br|[benrx])\Z", re.IGNORECASE)
 COMMENT = re.compile(r"--|/\*")
 LIST_END_TOKENS = (
     ")",
-- 
2.43.0


From c2deac9eb693dd73f24afc8e281afb8e0d50b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 57/65] fix: report a merged column that a further source
 provides as ambiguous

---
 sqlvalidator/grammar/sql.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 86cc327..348cc17 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -87,6 +87,17 @@ def in_scope(
     return fields
 
 
+def without_merged(
+    fields: Set[_FieldInfo], other_fields: Set[_FieldInfo]
+) -> Set[_FieldInfo]:
+    """The fields without the ones USING merged, if the other ones have that name."""
+    names = [name.split(".", 1)[-1] for name in {f.name for f in fields}]
+    other_names = {f.name.split(".", 1)[-1] for f in other_fields}
+    return {
+        f for f in fields if names.count(f.name) < 3 or f.name not in other_names
+    }
+
+
 def is_star(expression) -> bool:
     return (
         isinstance(expression, SelectAllClause)
@@ -1625,7 +1636,12 @@ class Join(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        known_fields = self.left_from.known_fields | self.right_from.known_fields
+        left_fields = self.left_from.known_fields
+        right_fields = self.right_from.known_fields
+        # A column merged by one of the two is ambiguous if the other has it too
+        known_fields = without_merged(left_fields, right_fields) | without_merged(
+            right_fields, left_fields
+        )
         if self.using and isinstance(self.using.value, Parenthesis):
             # The merged columns are not ambiguous
             known_fields |= {
-- 
2.43.0


From 0cd73215d97b11de58d12d8658178a3223418390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 58/65] fix: combine whole queries with UNION, INTERSECT and
 EXCEPT

---
 sqlvalidator/grammar/lexer.py     | 13 +++++++++++++
 sqlvalidator/grammar/sql.py       | 21 +++++++++++++++++++++
 sqlvalidator/grammar/tokeniser.py | 25 +++++++++++++++++++++++++
 3 files changed, 59 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6094e62..1431680 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -55,6 +55,7 @@ from sqlvalidator.grammar.tokeniser import (
     get_tokens_until_one_of,
     is_decimal_number,
     lower,
+    split_on_set_operators,
 )
 
 
@@ -78,6 +79,18 @@ class SelectStatementParser:
 
     @classmethod
     def parse(cls, tokens):
+        (_, query_tokens), *combined_queries = split_on_set_operators(tokens)
+        statement = cls.parse_query(iter(query_tokens))
+        for set_operator, query_tokens in combined_queries:
+            set_operator = SetOperatorTypeParser.parse(set_operator)
+            if statement.has_final_clause:
+                raise ParsingError("ORDER BY, LIMIT or OFFSET before " + set_operator)
+            query = cls.parse_query(iter(query_tokens))
+            statement.combine_with(set_operator, query)
+        return statement
+
+    @classmethod
+    def parse_query(cls, tokens):
         first_expression_token = None
         next_token = next(tokens)
 
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 348cc17..8fc96b4 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -134,6 +134,19 @@ class SelectStatement:
         self.limit_clause = limit_clause
         self.offset_clause = offset_clause
         self.semi_colon = semi_colon
+        self.combined_queries = []
+
+    @property
+    def has_final_clause(self):
+        return bool(self.order_by_clause or self.limit_clause or self.offset_clause)
+
+    def combine_with(self, set_operator, query):
+        """The clauses at the end of the last query belong to the combination."""
+        self.combined_queries.append((set_operator, query))
+        self.order_by_clause, query.order_by_clause = query.order_by_clause, None
+        self.limit_clause, query.limit_clause = query.limit_clause, None
+        self.offset_clause, query.offset_clause = query.offset_clause, None
+        self.semi_colon, query.semi_colon = query.semi_colon, False
 
     def transform(self, is_subquery=False):
         statement_str = "SELECT"
@@ -193,6 +206,9 @@ class SelectStatement:
         if self.having_clause:
             statement_str += "\nHAVING{}".format(transform(self.having_clause))
 
+        for set_operator, query in self.combined_queries:
+            statement_str += "\n{}\n{}".format(set_operator, transform(query))
+
         if self.order_by_clause:
             statement_str += "\nORDER BY{}".format(transform(self.order_by_clause))
 
@@ -231,6 +247,8 @@ class SelectStatement:
             errors += self.having_clause.validate(
                 with_names(known_fields, alias_fields(self.expressions))
             )
+        for _, query in self.combined_queries:
+            errors += query.validate(outer_fields)
         if self.order_by_clause:
             errors += self.order_by_clause.validate(known_fields, self.expressions)
         if self.limit_clause:
@@ -291,6 +309,7 @@ class SelectStatement:
             and self.where_clause == other.where_clause
             and self.group_by_clause == other.group_by_clause
             and self.having_clause == other.having_clause
+            and self.combined_queries == other.combined_queries
             and self.order_by_clause == other.order_by_clause
             and self.limit_clause == other.limit_clause
             and self.offset_clause == other.offset_clause
@@ -305,6 +324,7 @@ class SelectStatement:
   Where: {!r}
   Group By: {!r}
   Having: {!r}
+  Combined Queries: {!r}
   Order By: {!r}
   Limit: {!r}
   Offset: {!r}
@@ -320,6 +340,7 @@ class SelectStatement:
             self.where_clause,
             self.group_by_clause,
             self.having_clause,
+            self.combined_queries,
             self.order_by_clause,
             self.limit_clause,
             self.offset_clause,
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 6d3c998..7658d3b 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -125,6 +125,31 @@ def get_tokens_until_not_in(tokens, kept_words, first_token=None):
     return argument_tokens, next_token
 
 
+def split_on_set_operators(tokens):
+    """The tokens of each SELECT, with the set operator in front of it."""
+    queries = [([], [])]
+    set_operator = []
+    count_parenthesis = 0
+    for token in tokens:
+        string_tokens = get_string_tokens(tokens, token)
+        if token in ("(", "["):
+            count_parenthesis += 1
+        elif token in (")", "]"):
+            count_parenthesis -= 1
+        if count_parenthesis == 0 and lower(token) in (
+            ("all", "distinct") if set_operator else ("union", "intersect", "except")
+        ):
+            set_operator.append(token)
+        elif set_operator and lower(token) == "select":
+            queries.append((set_operator, []))
+            set_operator = []
+        else:
+            queries[-1][1].extend(set_operator + [token] + string_tokens)
+            set_operator = []
+    queries[-1][1].extend(set_operator)
+    return queries
+
+
 def split_with_sep(s: str, sep: str):
     splitted = split_with_escaping(s, sep)
     for word in splitted[:-1]:
-- 
2.43.0


From 49ad66f63ba0c7084843e128ebcb5325687e2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:19 +0000
Subject: [PATCH 59/65] fix: WITH queries in expressions

---
 sqlvalidator/grammar/lexer.py | 2 ++
 sqlvalidator/grammar/sql.py   | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 1431680..c710851 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -540,6 +540,8 @@ class ExpressionListParser:
         if lower(next_token) == "select":
             # The commas are those of the subquery
             return [SelectStatementParser.parse(tokens)]
+        if lower(next_token) == "with":
+            return [WithStatementParser.parse(tokens)]
 
         expressions = []
         expression_tokens = []
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8fc96b4..152ea8f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1219,7 +1219,7 @@ class Parenthesis(Expression):
         return "({})".format(
             ", ".join(
                 "\n" + a.transform(is_subquery=True) + "\n"
-                if isinstance(a, SelectStatement)
+                if isinstance(a, (SelectStatement, WithStatement))
                 else transform(a)
                 for a in self.args
             )
@@ -1227,7 +1227,9 @@ class Parenthesis(Expression):
 
     def break_lines(self, text):
         """Put the brackets of the transformed parenthesis on lines of their own."""
-        if len(self.args) > 1 or isinstance(self.args[0], SelectStatement):
+        if len(self.args) > 1 or isinstance(
+            self.args[0], (SelectStatement, WithStatement)
+        ):
             return text
         return "(\n " + text[1:-1].replace("\n", "\n ") + "\n)"
 
-- 
2.43.0


From 8c077fc1caa423659de2b4a415b4936a64aa982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:04 +0000
Subject: [PATCH 60/65] fix: report a column of USING that a side of the join
 does not provide

---
 sqlvalidator/grammar/sql.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 152ea8f..27be0e4 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1655,8 +1655,23 @@ class Join(Expression):
         )
         if self.on:
             errors += self.on.value.validate(in_scope(known_fields, self.known_fields))
+        if self.using and isinstance(self.using.value, Parenthesis):
+            for column in self.using.value.args:
+                errors += self.validate_using(column)
         return errors
 
+    def validate_using(self, column) -> list:
+        """Both sides of the join need the column."""
+        if not isinstance(column, Column) or column.is_placeholder:
+            return []
+        for source in (self.left_from, self.right_from):
+            names = {f.name.split(".", 1)[-1] for f in source.known_fields}
+            if column.value not in names and not accepts_any_column(
+                source.known_fields
+            ):
+                return ["The column {} was not found".format(column.value)]
+        return []
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         left_fields = self.left_from.known_fields
-- 
2.43.0


From df5e294a3516aaf4c91c1042438c8f69ff7827cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:01 +0000
Subject: [PATCH 61/65] fix: print names the output has no characters for

---
 sqlvalidator/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlvalidator/main.py b/sqlvalidator/main.py
index 1c891e3..febc892 100644
--- a/sqlvalidator/main.py
+++ b/sqlvalidator/main.py
@@ -1,4 +1,5 @@
 import argparse
+import sys
 
 from sqlvalidator import file_handler
 
@@ -41,6 +42,10 @@ def _main() -> None:
     )
 
     args = parser.parse_args()
+
+    if hasattr(sys.stdout, "reconfigure"):
+        # Names of files and columns can have characters that can not be printed
+        sys.stdout.reconfigure(errors="backslashreplace")
     src_inputs = args.SRC
 
     if not (args.format or args.check_format or args.validate or args.verbose_validate):
-- 
2.43.0


From b6462f9329da267a5161089d366be305ba42ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:38 +0000
Subject: [PATCH 62/65] fix: keep the letter case of placeholders for
 functions, types and frame bounds

---
 sqlvalidator/grammar/sql.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 27be0e4..495dce8 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -15,6 +15,15 @@ def transform(obj: Any) -> str:
     return str(obj)
 
 
+def is_placeholder(word: str) -> bool:
+    return word.startswith(("%", ":", "@", "$", "?")) or "{" in word
+
+
+def upper(word: str) -> str:
+    """The name of a function or type in upper case, a placeholder for it as it is."""
+    return word if is_placeholder(word) else word.upper()
+
+
 @dataclass
 class _FieldInfo:
     name: str
@@ -696,7 +705,7 @@ class FunctionCall(Expression):
             or len(", ".join(transformed_args)) > DEFAULT_LINE_LENGTH
         )
 
-        function_str = self.function_name.upper() + "("
+        function_str = upper(self.function_name) + "("
         distinct_str = "DISTINCT " if self.distinct else ""
         if with_newlines:
             function_str += "\n " + distinct_str
@@ -914,7 +923,8 @@ class WindowFrameClause(Expression):
         self.frame = frame
 
     def __str__(self):
-        return "{} {}".format(self.rows_range.upper(), self.frame.upper())
+        frame = " ".join(map(upper, self.frame.split(" ")))
+        return "{} {}".format(self.rows_range.upper(), frame)
 
     def __repr__(self):
         return """<{}:
@@ -969,7 +979,7 @@ class Column(Expression):
 
     @property
     def is_placeholder(self):
-        return self.value.startswith(("%", ":", "@", "$", "?")) or "{" in self.value
+        return is_placeholder(self.value)
 
     @property
     def is_placeholder_or_constant(self):
@@ -1067,7 +1077,7 @@ class Type(Expression):
     VALUES = ("int", "float", "day", "month", "timestamp", "int64", "string", "date")
 
     def __str__(self):
-        return self.value.upper()
+        return upper(self.value)
 
 
 class DatePartExtraction(Expression):
-- 
2.43.0


From d1ef439b85295dadc853e71ae7161d80c2866cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:40 +0000
Subject: [PATCH 63/65] fix: keep the letter case of names in window frames

---
 sqlvalidator/grammar/sql.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 495dce8..ede01fe 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -918,12 +918,30 @@ class AnalyticsClause(Expression):
 
 
 class WindowFrameClause(Expression):
+    KEYWORDS = (
+        "between",
+        "unbounded",
+        "preceding",
+        "following",
+        "current",
+        "row",
+        "and",
+        "exclude",
+        "no",
+        "others",
+        "group",
+        "ties",
+    )
+
     def __init__(self, rows_range, frame):
         self.rows_range = rows_range
         self.frame = frame
 
     def __str__(self):
-        frame = " ".join(map(upper, self.frame.split(" ")))
+        frame = " ".join(
+            word.upper() if lower(word) in self.KEYWORDS else word
+            for word in self.frame.split(" ")
+        )
         return "{} {}".format(self.rows_range.upper(), frame)
 
     def __repr__(self):
-- 
2.43.0


From d72e2be57449d9aaf9b3d6148fbdab931a7f3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:32 +0000
Subject: [PATCH 64/65] fix: accept placeholders and constants like
 CURRENT_DATE in GROUP BY

---
 sqlvalidator/grammar/sql.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ede01fe..73513ec 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -458,6 +458,7 @@ class GroupByClause(Expression):
                 )
             elif (
                 isinstance(arg, (Column, String))
+                and not (isinstance(arg, Column) and arg.is_placeholder_or_constant)
                 and not any(f.name == arg.value for f in known_fields)
                 and not any(
                     f.name == arg.value for f in alias_fields(select_expressions)
-- 
2.43.0


From f76bd960c3ed79428df97005e0a0b5c453351a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:12 +0000
Subject: [PATCH 65/65] fix: report parentheses that are never closed as
 invalid

---
 sqlvalidator/grammar/lexer.py     | 5 +----
 sqlvalidator/grammar/tokeniser.py | 6 ++++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index c710851..191de55 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -49,6 +49,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    ParsingError,
     get_string_tokens,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
@@ -59,10 +60,6 @@ from sqlvalidator.grammar.tokeniser import (
 )
 
 
-class ParsingError(Exception):
-    pass
-
-
 class SQLStatementParser:
     @staticmethod
     def parse(tokens):
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 7658d3b..a80e1fe 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -42,6 +42,10 @@ LIST_END_TOKENS = (
 )
 
 
+class ParsingError(Exception):
+    pass
+
+
 def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
@@ -73,6 +77,8 @@ def get_tokens_until_closing_parenthesis(tokens, first_token=None):
         elif next_token == ")":
             count_parenthesis -= 1
         next_token = next(tokens, None)
+    if next_token is None:
+        raise ParsingError("expected ')'")
 
     return argument_tokens
 
-- 
2.43.0

