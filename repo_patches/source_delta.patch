From 3cc440ebaa813df982eb7891e5b57a4d5cccda10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 01/64] fix: raise on syntax errors and trailing text instead
 of recovering silently

---
 treeno/grammar/parse.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index fab0f67..53692bc 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -2,8 +2,10 @@ from io import StringIO
 
 import nltk
 from antlr4 import CommonTokenStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
+from antlr4.Token import Token
 from antlr4.tree.Trees import Trees
 
 try:
@@ -17,6 +19,17 @@ except ImportError:
     raise
 
 
+class SqlSyntaxError(ValueError):
+    """Raised when the text is not a complete sentence of the grammar."""
+
+
+class RaisingErrorListener(ErrorListener):
+    """Antlr prints syntax errors and recovers by default, which yields a tree for something other than the input."""
+
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise SqlSyntaxError(f"line {line}:{column} {msg}")
+
+
 class AST:
     """Basic building block for SQL parse tree. This is not meant to be used directly, but is rather an intermediate
     layer to operate on to create a pypika interface."""
@@ -27,14 +40,28 @@ class AST:
     def parser(self) -> SqlBaseParser:
         lexer = SqlBaseLexer(InputStream(data=self._sql))
         stream = CommonTokenStream(lexer)
-        return SqlBaseParser(stream)
+        parser = SqlBaseParser(stream)
+        parser.removeErrorListeners()
+        parser.addErrorListener(RaisingErrorListener())
+        return parser
 
     @property
     def text(self):
         return self._sql
 
     def query(self):
-        return self.parser().query()
+        parser = self.parser()
+        node = parser.query()
+        token = parser.getCurrentToken()
+        # A single statement may be terminated with a semicolon.
+        if token.text == ";":
+            parser.consume()
+            token = parser.getCurrentToken()
+        if token.type != Token.EOF:
+            raise SqlSyntaxError(
+                f"line {token.line}:{token.column} unexpected {token.text!r} after the end of the query"
+            )
+        return node
 
     def expression(self):
         return self.parser().standaloneExpression()
-- 
2.43.0


From cbeb82066b7eda47f7c5dc2d677cd63924605c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 02/64] fix: reject unmodelled constructs instead of silently
 dropping them

---
 treeno/builder/convert.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..b0346b5 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -4,6 +4,7 @@ Converts from our grammar into a buildable query tree.
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
+from antlr4 import ParserRuleContext
 from overrides import overrides
 
 from treeno.datatypes.builder import (
@@ -164,6 +165,19 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
+    @overrides
+    def visitChildren(self, node: ParserRuleContext) -> Any:
+        """Rules without a dedicated visit function can only be passed through if they merely wrap another rule.
+        Anything else is a construct which isn't modelled, and must not be silently dropped.
+        """
+        if node.getChildCount() == 1 and isinstance(
+            node.getChild(0), ParserRuleContext
+        ):
+            return self.visit(node.getChild(0))
+        raise NotImplementedError(
+            f"{type(node).__name__[:-len('Context')]} is currently not supported: {node.getText()}"
+        )
+
     @overrides
     def visitSingleStatement(
         self, ctx: SqlBaseParser.SingleStatementContext
-- 
2.43.0


From ab322bab34132d0ced038d4d9fc1d4f378c5401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 03/64] fix: parse parenthesized queries

---
 treeno/builder/convert.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index b0346b5..b2831cf 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -239,6 +239,12 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
+        if ctx.getChildCount() > 1 and (
+            query.orderby or query.offset or query.limit is not None
+        ):
+            raise NotImplementedError(
+                "ORDER BY, OFFSET or LIMIT on a parenthesized query which has its own is not supported"
+            )
         if ctx.ORDER() and ctx.BY():
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
@@ -333,6 +339,10 @@ class ConvertVisitor(SqlBaseVisitor):
             )
         return self.visit(query_spec)
 
+    @overrides
+    def visitSubquery(self, ctx: SqlBaseParser.SubqueryContext) -> Query:
+        return self.visit(ctx.queryNoWith())
+
     @overrides
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
-- 
2.43.0


From b71d79c69c3a78eb24fd67dbafab7a64a3c22798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 04/64] fix: accept lower case keywords in set quantifiers,
 LIMIT ALL, sample types and interval fields

---
 treeno/builder/convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index b2831cf..e5daa61 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -299,7 +299,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitLimitRowCount(
         self, ctx: SqlBaseParser.LimitRowCountContext
     ) -> Optional[int]:
-        count = ctx.getText()
+        count = ctx.getText().upper()
         if count.isnumeric():
             return int(count)
         else:
@@ -347,7 +347,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
     ) -> SetQuantifier:
-        return SetQuantifier[ctx.getText()]
+        return SetQuantifier[ctx.getText().upper()]
 
     @overrides
     def visitAnd_(self, ctx: SqlBaseParser.And_Context) -> And:
@@ -566,7 +566,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitIntervalField(
         self, ctx: SqlBaseParser.IntervalFieldContext
     ) -> str:
-        return ctx.getText()
+        return ctx.getText().upper()
 
     @overrides
     def visitIntervalType(
@@ -1108,7 +1108,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSampleType(
         self, ctx: SqlBaseParser.SampleTypeContext
     ) -> SampleType:
-        return SampleType[ctx.getText()]
+        return SampleType[ctx.getText().upper()]
 
     @overrides
     def visitPatternRecognition(
-- 
2.43.0


From 5d9b5c42cbb328b49718514a28ed9ca23b5b4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 05/64] fix: parse the != spelling of not equal

---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index e5daa61..7532e9a 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -129,7 +129,7 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] < args[1]
     elif operator == "<=":
         return args[0] <= args[1]
-    elif operator == "<>":
+    elif operator in ("<>", "!="):
         return args[0] != args[1]
     elif operator == "+":
         if len(args) == 1:
-- 
2.43.0


From 0bfc8c5c622bd2814b54cfce9d81051c6d6b67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 06/64] fix: parse DOUBLE PRECISION type constructors

---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 7532e9a..3176cf0 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -794,7 +794,7 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> TypeConstructor:
         value = self.visit(ctx.string())
         if ctx.DOUBLE() and ctx.PRECISION():
-            return TypeConstructor(value, data_type=double())
+            return TypeConstructor(value=value, type_name="DOUBLE")
         # It appears the type constructor is fairly primitive in that it doesn't allow parametrized types, like
         # SELECT DECIMAL(30) '3'
         # which means we can assume it's a generic(but inferred) nonparametrized data type.
-- 
2.43.0


From f87354c7376eeb7e0c340a358aff7d4f83a6049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 07/64] fix: keep quotes and unicode escapes in string literals
 and quoted identifiers

---
 treeno/builder/convert.py | 50 +++++++++++++++++++++++++++++----------
 treeno/util.py            |  6 +++--
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 3176cf0..86b24eb 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1,7 +1,9 @@
 """
 Converts from our grammar into a buildable query tree.
 """
+import re
 from decimal import Decimal
+from string import hexdigits
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 from antlr4 import ParserRuleContext
@@ -114,6 +116,36 @@ def type_from_sql(sql: str) -> DataType:
     return ConvertVisitor().visitStandaloneType(AST(sql).type())
 
 
+def unquote(text: str) -> str:
+    """Strips the surrounding quotes of a token. Quotes inside of it are escaped by doubling them."""
+    quote = text[0]
+    return text[1:-1].replace(quote * 2, quote)
+
+
+def decode_unicode_literal(text: str, escape: str) -> str:
+    """Decodes <escape>XXXX and <escape>+XXXXXX code points. A doubled escape denotes the escape itself."""
+    if len(escape) != 1 or escape in "+'\" \t\n\r" or escape in hexdigits:
+        raise ValueError(f"Invalid unicode escape character {escape!r}")
+
+    def _decode(match: "re.Match") -> str:
+        if match.group(0) == escape * 2:
+            return escape
+        digits = match.group(1) or match.group(2)
+        if digits is None:
+            raise ValueError(f"Invalid unicode escape sequence in {text!r}")
+        code_point = int(digits, 16)
+        if 0xD800 <= code_point <= 0xDFFF:
+            raise ValueError(f"Invalid code point in {text!r}")
+        return chr(code_point)
+
+    esc = re.escape(escape)
+    return re.sub(
+        f"{esc}(?:{esc}|([0-9a-fA-F]{{4}})|\\+([0-9a-fA-F]{{6}})|)",
+        _decode,
+        text,
+    )
+
+
 def apply_operator(operator: str, *args: Value) -> Value:
     if operator == "AND":
         return args[0] & args[1]
@@ -756,7 +788,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitBasicStringLiteral(
         self, ctx: SqlBaseParser.BasicStringLiteralContext
     ) -> str:
-        return ctx.getText().strip("'")
+        return unquote(ctx.getText())
 
     @overrides
     def visitUnicodeStringLiteral(
@@ -764,19 +796,11 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> str:
         if ctx.UESCAPE():
             assert ctx.STRING(), "Escape string must be supplied for unicode"
-            escape_seq = ctx.STRING().getText().strip("'")
+            escape_seq = unquote(ctx.STRING().getText())
         else:
             escape_seq = "\\"
-        s = (
-            ctx.UNICODE_STRING()
-            .getText()
-            .strip("U&")
-            .strip("'")
-            .replace(escape_seq, "\\u")
-            .encode("raw_unicode_escape")
-            .decode("unicode_escape")
-        )
-        return s
+        text = ctx.UNICODE_STRING().getText()
+        return decode_unicode_literal(unquote(text[len("U&") :]), escape_seq)
 
     @overrides
     def visitBooleanLiteral(
@@ -980,7 +1004,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return ctx.getText().strip('"')
+        return unquote(ctx.getText())
 
     @overrides
     def visitUnquotedIdentifier(
diff --git a/treeno/util.py b/treeno/util.py
index 3c67115..fef026a 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -22,7 +22,8 @@ T = TypeVar("T")
 
 
 def quote_identifier(identifier: str) -> str:
-    return f'"{identifier}"'
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def parenthesize(val: Any) -> str:
@@ -42,7 +43,8 @@ def chain_identifiers(*identifiers: Optional[str], join_string=".") -> str:
 
 
 def quote_literal(literal: str) -> str:
-    return f"'{literal}'"
+    escaped = literal.replace("'", "''")
+    return f"'{escaped}'"
 
 
 def nth(
-- 
2.43.0


From a8d0ea300a16b8be10926515f636170e8bc62c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 08/64] fix: infer the precision of decimals from their digits,
 and keep all digits of negative ones

---
 treeno/builder/convert.py     | 21 +++++----------------
 treeno/datatypes/inference.py | 15 +++++----------
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 86b24eb..e3f1ec3 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -13,7 +13,6 @@ from treeno.datatypes.builder import (
     array,
     boolean,
     double,
-    integer,
     interval,
     row,
     unknown,
@@ -751,22 +750,12 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitDecimalLiteral(
         self, ctx: SqlBaseParser.DecimalLiteralContext
     ) -> Literal:
+        # NOTE: Negating a decimal rounds it to the precision of the context, so the sign is part of the text.
         text = ctx.DECIMAL_VALUE().getText()
-        negative = ctx.MINUS() is not None
-
-        dtype: DataType
-        value: Union[int, Decimal]
-        if "." in text:
-            value = Decimal(text)
-            dtype = infer_decimal(value)
-        else:
-            value = int(text)
-            dtype = integer()
-
-        if negative:
-            value = -value
-
-        return Literal(value, data_type=dtype)
+        if ctx.MINUS() is not None:
+            text = ctx.MINUS().getText() + text
+        value = Decimal(text)
+        return Literal(value, data_type=infer_decimal(value))
 
     @overrides
     def visitStringLiteral(
diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..23b1240 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -51,16 +51,11 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
-    if "." not in str_val:
-        return decimal(precision=len(str_val), scale=0)
-    else:
-        assert str_val.count(".") == 1, f"Malformed decimal str_val {str_val}"
-        decimal_point_pos = str_val.index(".")
-        return decimal(
-            precision=len(str_val) - 1,
-            scale=len(str_val) - decimal_point_pos - 1,
-        )
+    _, digits, exponent = decimal_value.as_tuple()
+    scale = max(-exponent, 0)
+    # Neither the sign nor leading zeros count towards the precision.
+    num_digits = len(digits) + max(exponent, 0) if any(digits) else 1
+    return decimal(precision=max(num_digits, scale, 1), scale=scale)
 
 
 def infer_timelike_precision(value: str) -> int:
-- 
2.43.0


From c02cf7e5898bf3a08fbffd098b7303494c3d9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 09/64] fix: print decimals and doubles so that they are read
 back as such

---
 treeno/builder/convert.py     |  3 ++-
 treeno/datatypes/inference.py |  3 +++
 treeno/expression.py          | 12 ++++++++++--
 treeno/relation.py            |  9 +++++++--
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index e3f1ec3..730de92 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -46,6 +46,7 @@ from treeno.expression import (
     TypeConstructor,
     Value,
     When,
+    wrap_literal,
 )
 from treeno.functions.aggregate import (
     AggregateFunction,
@@ -771,7 +772,7 @@ class ConvertVisitor(SqlBaseVisitor):
         number_string = ctx.DOUBLE_VALUE().getText()
         if ctx.MINUS() is not None:
             number_string = ctx.MINUS().getText() + number_string
-        return Literal(float(number_string), data_type=double())
+        return wrap_literal(float(number_string))
 
     @overrides
     def visitBasicStringLiteral(
diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 23b1240..b15a766 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -3,6 +3,7 @@
 Should not be used in datatypes.types to prevent circular imports
 """
 from decimal import Decimal
+from math import isfinite
 from typing import Any
 
 from treeno.datatypes.builder import (
@@ -24,6 +25,8 @@ def infer_type(value: Any) -> DataType:
         return boolean()
     if isinstance(value, int):
         return infer_integral(value)
+    if isinstance(value, (float, Decimal)) and not isfinite(value):
+        raise NotImplementedError(f"{value} can't be written as a literal")
     if isinstance(value, float):
         return double()
     if isinstance(value, Decimal):
diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..b81cdd6 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -213,9 +213,17 @@ class Literal(Value):
             ), "Please use wrap_literal to construct a Literal value so the data types are detected"
 
     def sql(self, opts: PrintOptions) -> str:
-        # NOTE: Literal decimals can be directly convertible
-        # through string representation, i.e. 3.14 is DECIMAL(3,2), so we don't need to do anything.
         s = str(self.value)
+        if isinstance(self.value, Decimal):
+            # A decimal is only told apart from an integer by its point, and from a double by not having an exponent.
+            s = format(self.value, "f")
+            if "." not in s:
+                s += "."
+        if isinstance(self.value, float):
+            # A double is told apart from a decimal by its exponent.
+            s = repr(self.value).upper()
+            if "E" not in s:
+                s += "E0"
         if self.value is None:
             s = "NULL"
         if isinstance(self.value, bool):
diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..57080ca 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -43,6 +43,7 @@ schemas. More information can be found in :class:`Relation`.
 
 import copy
 from abc import ABC, abstractmethod
+from decimal import Decimal
 from enum import Enum
 from typing import Dict, List, Optional, Set, Type
 
@@ -59,7 +60,7 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Value, value_attr
+from treeno.expression import Literal, Value, value_attr, wrap_literal
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -1081,7 +1082,11 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
+        percentage = self.percentage
+        if isinstance(percentage, Literal) and type(percentage.value) is float:
+            # The percentage is a number of any type, so there's no need for an exponent.
+            percentage = wrap_literal(Decimal(repr(percentage.value)))
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage.sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-- 
2.43.0


From 2cb0e7a1a4e5a6ac3ef5d5224eb1b7ec77a37c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 10/64] fix: never change line breaks inside of quotes when
 padding

---
 treeno/printer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 9eb88d5..b735911 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -4,6 +4,7 @@ StatementPrinter complies with sqlstyle.guide.
 Note that none of these printers are explicitly responsible for calling sql(). They should work only with the
 primitive str representation.
 """
+import re
 from typing import Dict, List
 
 import attr
@@ -14,10 +15,15 @@ from treeno.base import PrintMode, PrintOptions
 def pad(input: str, spaces: int) -> str:
     """Pads the input lines with spaces except for the first line.
     We don't need opts here because the default mode will always be a single line so we'll never invoke this.
+
+    Line breaks inside of string literals and quoted identifiers are part of their value, so those are left as is.
     """
-    lines = input.splitlines()
     pad = " " * spaces
-    return f"\n{pad}".join(lines)
+    return re.sub(
+        r"""('[^']*'|"[^"]*")|\n""",
+        lambda match: match.group(1) or f"\n{pad}",
+        input,
+    )
 
 
 def join_stmts(
-- 
2.43.0


From 22b070078fc98333ca68d206d26a219dc5f6c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 11/64] fix: quote every name, and parenthesize column aliases
 of named queries

---
 treeno/expression.py | 13 ++++++++-----
 treeno/relation.py   | 21 +++++++++++++++++----
 treeno/window.py     |  3 ++-
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index b81cdd6..4b3c0c4 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.util import (
     is_dictlike,
     is_listlike,
     parenthesize,
+    quote_identifier,
     quote_literal,
 )
 
@@ -293,7 +294,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.sql(opts)} "{self.alias}"'
+        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -320,7 +321,7 @@ class Star(Value):
         star_string = ""
         if self.table:
             if isinstance(self.table, str):
-                table_sql = self.table
+                table_sql = quote_identifier(self.table)
             else:
                 table_sql = self.table.sql(opts)
             star_string = f"{table_sql}."
@@ -343,8 +344,10 @@ class AliasedStar(Value):
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        alias_str = join_stmts(self.aliases, opts)
-        return f"{self.star.sql(opts)} ({alias_str})"
+        alias_str = join_stmts(
+            [quote_identifier(alias) for alias in self.aliases], opts
+        )
+        return f"{self.star.sql(opts)} AS ({alias_str})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.star)
@@ -361,7 +364,7 @@ class Lambda(Expression):
         name: str = attr.ib()
 
         def sql(self, opts: PrintOptions) -> str:
-            return self.name
+            return quote_identifier(self.name)
 
         def identifier(self) -> Optional[str]:
             return self.name
diff --git a/treeno/relation.py b/treeno/relation.py
index 57080ca..79878ae 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -518,7 +518,7 @@ class SelectQuery(Query):
         if self.window:
             window_string = join_stmts(
                 [
-                    f"{window_name} AS {parenthesize(window.sql(opts))}"
+                    f"{quote_identifier(window_name)} AS {parenthesize(window.sql(opts))}"
                     for window_name, window in self.window.items()
                 ],
                 opts,
@@ -748,13 +748,20 @@ class AliasedRelation(Relation):
         # .. todo:: Keep the "AS"?
         alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
         if self.column_aliases:
-            alias_str += f" ({join_stmts(self.column_aliases, opts)})"
+            alias_str += f" {self._column_aliases_sql(opts)}"
         return alias_str
 
+    def _column_aliases_sql(self, opts: PrintOptions) -> str:
+        return parenthesize(
+            join_stmts(
+                [quote_identifier(alias) for alias in self.column_aliases], opts
+            )
+        )
+
     def _named_query_sql(self, opts: PrintOptions) -> str:
         alias_str = quote_identifier(self.alias)
         if self.column_aliases:
-            alias_str += f" {join_stmts(self.column_aliases, opts)}"
+            alias_str += f" {self._column_aliases_sql(opts)}"
         alias_str += f" AS {relation_string(self.relation, opts)}"
         return alias_str
 
@@ -838,7 +845,13 @@ class JoinUsingCriteria(JoinCriteria):
     column_names: List[str] = attr.ib()
 
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
-        return {"USING": parenthesize(join_stmts(self.column_names, opts))}
+        return {
+            "USING": parenthesize(
+                join_stmts(
+                    [quote_identifier(name) for name in self.column_names], opts
+                )
+            )
+        }
 
     def visit(self, visitor: GenericVisitor) -> None:
         # Using only references the fields, so this should do nothing
diff --git a/treeno/window.py b/treeno/window.py
index bac3257..bd14f1a 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -14,6 +14,7 @@ from treeno.base import (
 from treeno.expression import Value, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
+from treeno.util import quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -102,7 +103,7 @@ class Window(Sql):
         builder = StatementPrinter()
         if self.parent_window:
             # Empty string for no value on the right side of the river
-            builder.add_entry(self.parent_window, "")
+            builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
                 [partition.sql(opts) for partition in self.partitions], opts
-- 
2.43.0


From 348b61a706bf24e877fc41c431e3364cc6abc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 12/64] fix: parenthesize operands wherever the grammar
 requires it

---
 treeno/expression.py | 56 +++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 4b3c0c4..1e56214 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -262,13 +262,9 @@ class Field(Value):
         return self.name
 
     def sql(self, opts: PrintOptions) -> str:
-        table_sql = None
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-        return chain_identifiers(table_sql, self.name)
+        if self.table is not None and not isinstance(self.table, str):
+            return f"{primary_str(self.table, opts)}.{quote_identifier(self.name)}"
+        return chain_identifiers(self.table or None, self.name)
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -323,7 +319,7 @@ class Star(Value):
             if isinstance(self.table, str):
                 table_sql = quote_identifier(self.table)
             else:
-                table_sql = self.table.sql(opts)
+                table_sql = primary_str(self.table, opts)
             star_string = f"{table_sql}."
         star_string += "*"
         return star_string
@@ -466,14 +462,21 @@ def pemdas_str(
     val_precedence = OPERATOR_PRECEDENCE[val_type]
     # The expression's precedence is the same, so we must obey left-to-right ordering.
     if current_precedence == val_precedence:
-        if is_left:
+        if is_left and current_precedence != OPERATOR_PRECEDENCE[Equal]:
             return val.sql(opts)
         else:
-            return parenthesize(val)
+            return parenthesize(val.sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
-        return parenthesize(val)
+        return parenthesize(val.sql(opts))
+    return val.sql(opts)
+
+
+def primary_str(val: Value, opts: PrintOptions) -> str:
+    """Parenthesizes everything which can't be directly followed by a subscript or dereference."""
+    if type(val) in OPERATOR_PRECEDENCE or isinstance(val, Literal):
+        return parenthesize(val.sql(opts))
     return val.sql(opts)
 
 
@@ -527,7 +530,11 @@ class Negative(UnaryExpression):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        return builtin_unary_str(self, "-{value}", opts)
+        value_sql = builtin_unary_str(self, "{value}", opts)
+        # Two consecutive minus signs start a comment.
+        if value_sql.startswith("-"):
+            value_sql = parenthesize(value_sql)
+        return "-" + value_sql
 
 
 @value_attr
@@ -640,7 +647,7 @@ class NotEqual(BinaryExpression):
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
         if negate:
-            return str(Equal(self.left, self.right))
+            return Equal(self.left, self.right).sql(opts)
         return builtin_binary_str(self, "{left} <> {right}", opts)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -851,8 +858,7 @@ class Like(Expression):
             like_str += " NOT"
         like_str += f" LIKE {pemdas_str(type(self), self.pattern, opts)}"
         if self.escape:
-            # TODO: Should we pemdas this? I don't see it in the specs
-            like_str += f" ESCAPE {self.escape.sql(opts)}"
+            like_str += f" ESCAPE {pemdas_str(type(self), self.escape, opts)}"
         return like_str
 
     def sql(self, opts: PrintOptions) -> str:
@@ -980,7 +986,9 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.sql(opts)}]"
+        # The index can't be a bare boolean expression.
+        index = pemdas_str(Equal, self.index, opts)
+        return f"{primary_str(self.value, opts)}[{index}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1067,12 +1075,14 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Add: 6,
     Minus: 6,
     # TODO: Currently we run into an import loop trying to add Concatenate here, so we add it at the end in functions.common
-    Equal: 4,
-    NotEqual: 4,
-    GreaterThan: 4,
-    GreaterThanOrEqual: 4,
-    LessThan: 4,
-    LessThanOrEqual: 4,
+    # Comparisons and predicates can't be operands of each other without parentheses.
+    Equal: 3,
+    NotEqual: 3,
+    GreaterThan: 3,
+    GreaterThanOrEqual: 3,
+    LessThan: 3,
+    LessThanOrEqual: 3,
+    DistinctFrom: 3,
     IsNull: 3,
     Like: 3,
     Between: 3,
@@ -1081,6 +1091,8 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Not: 2,
     And: 1,
     Or: 0,
+    # The body of a lambda extends as far as possible.
+    Lambda: -1,
 }
 
 # Use this instead of wrap_literal(None), which we explicitly disallow
-- 
2.43.0


From 1322cf224a21b6cce98409a4278050bf5aa243ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 13/64] fix: quote the value of intervals

---
 treeno/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 1e56214..8b251c3 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -942,7 +942,10 @@ class Interval(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-        return f"INTERVAL {self.value} {self.from_interval}" + to_interval_str
+        return (
+            f"INTERVAL {quote_literal(self.value)} {self.from_interval}"
+            + to_interval_str
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         pass
-- 
2.43.0


From 2929dd7c411a252c976725f658d4b59c63d72ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 14/64] fix: print rows of a single value, and rows in GROUP
 BY, as rows

---
 treeno/expression.py | 4 +++-
 treeno/groupby.py    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 8b251c3..9adbf3a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -915,7 +915,9 @@ class RowConstructor(Expression):
         values_string = join_stmts(
             [value.sql(opts) for value in self.values], opts
         )
-        return f"({values_string})"
+        # A single value in parentheses is just that value, not a row.
+        keyword = "ROW" if len(self.values) == 1 else ""
+        return f"{keyword}({values_string})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for value in self.values:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6e46521..54cf486 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -4,7 +4,7 @@ from typing import List
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, SetQuantifier, Sql
-from treeno.expression import Value
+from treeno.expression import RowConstructor, Value
 from treeno.printer import join_stmts
 
 
@@ -44,6 +44,9 @@ class GroupingSet(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         if len(self.values) == 1:
+            # A row without its keyword would be read as a grouping set of multiple values.
+            if isinstance(self.values[0], RowConstructor):
+                return f"({self.values[0].sql(opts)})"
             return self.values[0].sql(opts)
         return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
 
-- 
2.43.0


From 8da12600b126f4ef17660134a6e1cce36b10d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 15/64] fix: parenthesize the empty argument list of lambdas

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 9adbf3a..049e6be 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -408,7 +408,7 @@ class Lambda(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
-        if len(self.inputs) > 1:
+        if len(self.inputs) != 1:
             input_string = parenthesize(input_string)
         return f"{input_string} -> {self.expr.sql(opts)}"
 
-- 
2.43.0


From ba407f20565fbbd0395551b0633053be9e9c0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 16/64] fix: register all functions before parsing

---
 treeno/builder/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 730de92..5eee064 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -9,6 +9,10 @@ from typing import Any, Dict, List, Optional, Tuple, Union
 from antlr4 import ParserRuleContext
 from overrides import overrides
 
+# NOTE: Functions are registered by importing their modules.
+import treeno.functions.conditional  # noqa: F401
+import treeno.functions.datetime  # noqa: F401
+import treeno.functions.math  # noqa: F401
 from treeno.datatypes.builder import (
     array,
     boolean,
-- 
2.43.0


From 7b892fbdea974a5e682e4f7311b1d77e0075fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 17/64] fix: parse FETCH FIRST instead of dropping it

---
 treeno/builder/convert.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 5eee064..7d9803c 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -285,6 +285,11 @@ class ConvertVisitor(SqlBaseVisitor):
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
             query.offset = self.visit(ctx.offset)
+        if ctx.TIES():
+            raise NotImplementedError("FETCH ... WITH TIES is not supported")
+        if ctx.FETCH():
+            # A single row is fetched by default.
+            query.limit = self.visit(ctx.fetchFirst) if ctx.fetchFirst else 1
         limit_clause = ctx.limitRowCount()
         if limit_clause:
             # TODO: Assign this to the query object
-- 
2.43.0


From 77afbdfd7cfb5ce161d944b3981896d0d334c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 18/64] fix: reject surplus type parameters

---
 treeno/builder/convert.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 7d9803c..8cd890c 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -560,10 +560,13 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> DataType:
         param_values = [self.visit(param) for param in ctx.typeParameter()]
         type_name = self.visit(ctx.identifier()).upper()
+        fields = FIELDS.get(type_name, [])
+        assert len(param_values) <= len(
+            fields
+        ), f"Too many parameters for type {type_name}"
         # We assume the parameters will be passed into here.
         parameters = {
-            param.name: val
-            for val, param in zip(param_values, FIELDS[type_name])
+            param.name: val for val, param in zip(param_values, fields)
         }
         return DataType(type_name, parameters=parameters)
 
-- 
2.43.0


From 863567493d69b6e2e4d5df220bf7a22f05bfb561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 19/64] fix: reject surplus qualifiers of tables and stars
 instead of dropping them

---
 treeno/builder/convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 8cd890c..3d21706 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -190,6 +190,9 @@ def apply_operator(operator: str, *args: Value) -> Value:
 
 
 def table_from_qualifiers(qualifiers: List[str]) -> Table:
+    assert (
+        len(qualifiers) <= 3
+    ), f"Too many qualifiers in table name {'.'.join(qualifiers)}"
     qualifiers = list(reversed(qualifiers))
     name: str = qualifiers[0]
     schema: Optional[str] = nth(qualifiers, 1)
@@ -1055,6 +1058,9 @@ class ConvertVisitor(SqlBaseVisitor):
         table: Optional[Union[str, Value]] = None
         if primary_expr:
             expr = self.visit(primary_expr)
+            assert (
+                not isinstance(expr, Field) or expr.table is None
+            ), "Treeno currently only supports stars in the form * or x.*"
             table = expr.name if isinstance(expr, Field) else expr
 
         # TODO: This is a bit hacky right now, but the table reference is derived from a ColumnReference which is a field
-- 
2.43.0


From f0745c48b25f09a69cdd6b41967f9cca3e10b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 20/64] fix: reject stars outside of COUNT and duplicate
 windows

---
 treeno/builder/convert.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 3d21706..0253ef9 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -54,6 +54,7 @@ from treeno.expression import (
 )
 from treeno.functions.aggregate import (
     AggregateFunction,
+    Count,
     CountIndication,
     ListAgg,
     OverflowFiller,
@@ -875,6 +876,7 @@ class ConvertVisitor(SqlBaseVisitor):
 
         expressions: List[Value]
         if ctx.ASTERISK():
+            assert fn is Count, f"{fn_name} can't be called with *"
             star: Star
             if ctx.label:
                 # If this is an identifier, treat it as an aliased relation
@@ -1354,7 +1356,11 @@ class ConvertVisitor(SqlBaseVisitor):
         if groupby:
             query_builder.groupby = self.visit(groupby)
         if ctx.WINDOW():
-            query_builder.window = dict(
+            windows = [
                 self.visit(window_def) for window_def in ctx.windowDefinition()
-            )
+            ]
+            query_builder.window = dict(windows)
+            assert len(query_builder.window) == len(
+                windows
+            ), "Window names must be unique"
         return query_builder
-- 
2.43.0


From 501ecef49257825fc8d8f5ae50c539e988fe50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 21/64] fix: keep DISTINCT of aggregate function arguments

---
 treeno/builder/convert.py     | 17 +++++++++++++++++
 treeno/functions/aggregate.py |  9 ++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 0253ef9..1a5e926 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -831,6 +831,18 @@ class ConvertVisitor(SqlBaseVisitor):
         type_name = self.visit(ctx.identifier())
         return TypeConstructor(value=value, type_name=type_name)
 
+    def _is_distinct(
+        self,
+        ctx: Union[
+            SqlBaseParser.FunctionCallContext, SqlBaseParser.ListaggContext
+        ],
+    ) -> bool:
+        # ALL is the default quantifier of arguments.
+        return (
+            ctx.setQuantifier() is not None
+            and self.visit(ctx.setQuantifier()) == SetQuantifier.DISTINCT
+        )
+
     @overrides
     def visitFunctionCall(
         self, ctx: SqlBaseParser.FunctionCallContext
@@ -854,6 +866,9 @@ class ConvertVisitor(SqlBaseVisitor):
 
         kwargs = {}
 
+        if self._is_distinct(ctx):
+            kwargs["distinct"] = True
+
         if ctx.over():
             assert issubclass(
                 fn, AggregateFunction
@@ -927,6 +942,8 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitListagg(self, ctx: SqlBaseParser.ListaggContext) -> ListAgg:
         kwargs = {}
+        if self._is_distinct(ctx):
+            kwargs["distinct"] = True
         separator = ctx.string()
         if separator:
             kwargs["separator"] = self.visit(separator)
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 75720e6..eba374e 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -41,6 +41,8 @@ class AggregateFunction(Function, ABC):
     null_treatment: NullTreatment = attr.ib(
         factory=NullTreatment.default, kw_only=True
     )
+    # Whether to only aggregate over distinct arguments
+    distinct: bool = attr.ib(default=False, kw_only=True)
 
     def get_constraint_string(self, opts: PrintOptions) -> str:
         constraint_builder = StatementPrinter()
@@ -64,6 +66,8 @@ class AggregateFunction(Function, ABC):
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
         arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        if self.distinct:
+            arg_string = f"DISTINCT {arg_string}"
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
         # indentation level would be good for visibility.
@@ -173,8 +177,9 @@ class Count(UnaryAggregateFunction):
         if isinstance(self.value, Star):
             assert (
                 not self.orderby
+                and not self.distinct
                 and self.null_treatment == NullTreatment.default()
-            ), "COUNT(*) cannot be used with orderby and null treatment."
+            ), "COUNT(*) cannot be used with distinct, orderby and null treatment."
         self.data_type = bigint()
 
 
@@ -245,6 +250,8 @@ class ListAgg(AggregateFunction):
 
     def sql(self, opts: PrintOptions) -> str:
         value_string = self.value.sql(opts)
+        if self.distinct:
+            value_string = f"DISTINCT {value_string}"
         if self.separator != self.DEFAULT_SEPARATOR:
             value_string = join_stmts(
                 [value_string, quote_literal(self.separator)], opts
-- 
2.43.0


From 60118f8d4ef9769c181315e19e96ecf96f5fec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 22/64] fix: print the arguments of APPROX_PERCENTILE and
 QDIGEST_AGG in their positions

---
 treeno/functions/aggregate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index eba374e..90f1ccf 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -514,9 +514,10 @@ class ApproxPercentile(AggregateFunction):
             self.data_type = unknown()
 
     def sql(self, opts: PrintOptions) -> str:
-        values = [self.value, self.percentage]
+        values = [self.value]
         if self.weight:
             values.append(self.weight)
+        values.append(self.percentage)
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -585,6 +586,9 @@ class QDigestAgg(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
+        assert (
+            self.accuracy is None or self.weight is not None
+        ), "If accuracy is specified, a weight must be specified as well"
         self.data_type = qdigest(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From c405b1d8d27b573a16390cd81479506592bb4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 23/64] fix: use Trino's empty default separator of LISTAGG,
 accept FROM_UNIXTIME with one argument

---
 treeno/functions/aggregate.py | 4 ++--
 treeno/functions/datetime.py  | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 90f1ccf..251ccc2 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -227,10 +227,10 @@ class OverflowFiller(Sql):
 
 @value_attr
 class ListAgg(AggregateFunction):
-    DEFAULT_SEPARATOR: ClassVar[str] = " "
+    DEFAULT_SEPARATOR: ClassVar[str] = ""
     FN_NAME: ClassVar[str] = "LISTAGG"
     value: Value = attr.ib(converter=wrap_literal)
-    separator: str = attr.ib(default=" ")
+    separator: str = attr.ib(default=DEFAULT_SEPARATOR)
     # If overflow filler is None, then raise an error. Otherwise truncate
     # with the appropriate filler string.
     overflow_filler: Optional[OverflowFiller] = attr.ib(default=None)
diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 554d5aa..32a2657 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -187,6 +187,8 @@ class FromUnixtime(Function):
         assert (
             not kwargs
         ), "No keyword arguments allowed for FromUnixTime.from_args"
+        if len(args) == 1:
+            return FromUnixtime(args[0])
         if len(args) == 2:
             return FromUnixtime(args[0], zone=args[1])
         if len(args) == 3:
-- 
2.43.0


From e56ad7a0bf9d844811f39b542b6ebbb6ef4afde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 24/64] fix: reject CONCAT and COALESCE of less than two
 values, print NORMALIZE

---
 treeno/functions/common.py      | 3 +++
 treeno/functions/conditional.py | 3 +++
 treeno/functions/string.py      | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 47934c1..8a707c9 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -77,6 +77,9 @@ class Concatenate(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert (
+            len(self.values) > 1
+        ), "There must be at least two values for CONCAT"
         dtypes = [value.data_type for value in self.values]
         type_names = {dtype.type_name for dtype in dtypes}
         # If there's even a single unknown we should give up here.
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 204d0ae..0d61058 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -46,6 +46,9 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert (
+            len(self.values) > 1
+        ), "There must be at least two values for COALESCE"
         dtypes = [
             val.data_type for val in self.values if val.data_type != unknown()
         ]
diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index aadcf0a..736a016 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -268,7 +268,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.to_sql(opts)]
+        components = [self.string.sql(opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
-- 
2.43.0


From 8f0c11c669c87643459c4544aa1b48573ac7937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 25/64] fix: only fold a single sign into the value of
 intervals

---
 treeno/builder/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 1a5e926..3010518 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -591,7 +591,7 @@ class ConvertVisitor(SqlBaseVisitor):
         string_value = self.visit(ctx.string())
         # Unary plus is essentially a no-op.
         if string_value.startswith("+"):
-            string_value = string_value.lstrip("+")
+            string_value = string_value[1:]
 
         # There's a pesky sign that can appear outside of the string. We do some inference on the string
         # and push the negation inside the string. I've verified that -"3-100" YEAR TO MONTH is equivalent to "-3-100".
@@ -599,7 +599,7 @@ class ConvertVisitor(SqlBaseVisitor):
             # I've tested this and the unary operator +/- can only be applied once to the values inside the string.
             # This means the string can either be +value, -value, or value.
             if string_value.startswith("-"):
-                string_value = string_value.lstrip("-")
+                string_value = string_value[1:]
             else:
                 string_value = "-" + string_value
         parameters = {
-- 
2.43.0


From 34b208eba2913e995c1c5f1a700d86060da608c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 26/64] fix: parenthesize scalar subqueries

---
 treeno/expression.py          | 38 +++++++++++++++++++----------------
 treeno/functions/aggregate.py |  6 +++---
 treeno/functions/base.py      |  2 +-
 treeno/functions/string.py    |  2 +-
 treeno/groupby.py             | 10 ++++-----
 treeno/orderby.py             |  2 +-
 treeno/relation.py            | 18 ++++++++++-------
 treeno/window.py              |  4 ++--
 8 files changed, 45 insertions(+), 37 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 049e6be..6f2a34e 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -151,6 +151,10 @@ class Value(Sql, ABC):
     def __or__(self, other):
         return Or(self, other)
 
+    def nested_sql(self, opts: PrintOptions) -> str:
+        """Converts the value into a SQL string which can be embedded in another expression or clause."""
+        return self.sql(opts)
+
     def identifier(self) -> Optional[str]:
         """Identifier for the value.
 
@@ -290,7 +294,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
+        return f"{self.value.nested_sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -410,7 +414,7 @@ class Lambda(Expression):
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
         if len(self.inputs) != 1:
             input_string = parenthesize(input_string)
-        return f"{input_string} -> {self.expr.sql(opts)}"
+        return f"{input_string} -> {self.expr.nested_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.inputs:
@@ -457,27 +461,27 @@ def pemdas_str(
         current_type not in OPERATOR_PRECEDENCE
         or val_type not in OPERATOR_PRECEDENCE
     ):
-        return val.sql(opts)
+        return val.nested_sql(opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
     val_precedence = OPERATOR_PRECEDENCE[val_type]
     # The expression's precedence is the same, so we must obey left-to-right ordering.
     if current_precedence == val_precedence:
         if is_left and current_precedence != OPERATOR_PRECEDENCE[Equal]:
-            return val.sql(opts)
+            return val.nested_sql(opts)
         else:
-            return parenthesize(val.sql(opts))
+            return parenthesize(val.nested_sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
-        return parenthesize(val.sql(opts))
-    return val.sql(opts)
+        return parenthesize(val.nested_sql(opts))
+    return val.nested_sql(opts)
 
 
 def primary_str(val: Value, opts: PrintOptions) -> str:
     """Parenthesizes everything which can't be directly followed by a subscript or dereference."""
     if type(val) in OPERATOR_PRECEDENCE or isinstance(val, Literal):
-        return parenthesize(val.sql(opts))
-    return val.sql(opts)
+        return parenthesize(val.nested_sql(opts))
+    return val.nested_sql(opts)
 
 
 @value_attr
@@ -785,7 +789,7 @@ class Array(Expression):
         return cls(vals)
 
     def sql(self, opts: PrintOptions) -> str:
-        values_str = join_stmts([val.sql(opts) for val in self.values], opts)
+        values_str = join_stmts([val.nested_sql(opts) for val in self.values], opts)
         return f"ARRAY[{values_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -825,7 +829,7 @@ class InList(Expression):
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        expr_list = join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+        expr_list = join_stmts([expr.nested_sql(opts) for expr in self.exprs], opts)
         in_list_string = pemdas_str(type(self), self.value, opts)
         if negate:
             in_list_string += " NOT"
@@ -913,7 +917,7 @@ class RowConstructor(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         values_string = join_stmts(
-            [value.sql(opts) for value in self.values], opts
+            [value.nested_sql(opts) for value in self.values], opts
         )
         # A single value in parentheses is just that value, not a row.
         keyword = "ROW" if len(self.values) == 1 else ""
@@ -963,7 +967,7 @@ class Cast(Expression):
         assert self.data_type != unknown(), "data_type must be defined for Cast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"CAST({self.expr.nested_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -979,7 +983,7 @@ class TryCast(Expression):
         ), "data_type must be defined for TryCast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"TRY_CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"TRY_CAST({self.expr.nested_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -1010,7 +1014,7 @@ class When(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"WHEN {self.condition.sql(opts)} THEN {self.value.sql(opts)}"
+        return f"WHEN {self.condition.nested_sql(opts)} THEN {self.value.nested_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.condition)
@@ -1025,7 +1029,7 @@ class Else(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"ELSE {self.value.sql(opts)}"
+        return f"ELSE {self.value.nested_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1054,7 +1058,7 @@ class Case(Expression):
             spacing + spacing.join([cond.sql(opts) for cond in conds]), 4
         )
         end_string = spacing + "END"
-        value_string = self.value.sql(opts) if self.value is not None else ""
+        value_string = self.value.nested_sql(opts) if self.value is not None else ""
         return f"CASE {value_string}{branches_string}{end_string}"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 251ccc2..6e3dfd1 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -48,7 +48,7 @@ class AggregateFunction(Function, ABC):
         constraint_builder = StatementPrinter()
         if self.filter_:
             constraint_builder.add_entry(
-                "FILTER", f"(WHERE {self.filter_.sql(opts)})"
+                "FILTER", f"(WHERE {self.filter_.nested_sql(opts)})"
             )
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
@@ -65,7 +65,7 @@ class AggregateFunction(Function, ABC):
         )
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.nested_sql(opts) for value in values], opts)
         if self.distinct:
             arg_string = f"DISTINCT {arg_string}"
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
@@ -249,7 +249,7 @@ class ListAgg(AggregateFunction):
         self.data_type = varchar()
 
     def sql(self, opts: PrintOptions) -> str:
-        value_string = self.value.sql(opts)
+        value_string = self.value.nested_sql(opts)
         if self.distinct:
             value_string = f"DISTINCT {value_string}"
         if self.separator != self.DEFAULT_SEPARATOR:
diff --git a/treeno/functions/base.py b/treeno/functions/base.py
index 76b8e12..b965d2f 100644
--- a/treeno/functions/base.py
+++ b/treeno/functions/base.py
@@ -56,7 +56,7 @@ class Function(Expression, ABC):
         return cls(*values, **kwargs)
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.nested_sql(opts) for value in values], opts)
         return f"{FUNCTIONS_TO_NAMES[type(self)]}({arg_string})"
 
 
diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index 736a016..a9b6b53 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -268,7 +268,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.sql(opts)]
+        components = [self.string.nested_sql(opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 54cf486..0042bf4 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -46,9 +46,9 @@ class GroupingSet(Group):
         if len(self.values) == 1:
             # A row without its keyword would be read as a grouping set of multiple values.
             if isinstance(self.values[0], RowConstructor):
-                return f"({self.values[0].sql(opts)})"
-            return self.values[0].sql(opts)
-        return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
+                return f"({self.values[0].nested_sql(opts)})"
+            return self.values[0].nested_sql(opts)
+        return f"({join_stmts([val.nested_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
@@ -93,7 +93,7 @@ class Cube(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         return (
-            f"CUBE ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            f"CUBE ({join_stmts([val.nested_sql(opts) for val in self.values], opts)})"
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -116,7 +116,7 @@ class Rollup(Group):
         ), "GroupingSets must have at least one value to group by"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"ROLLUP ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+        return f"ROLLUP ({join_stmts([val.nested_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
diff --git a/treeno/orderby.py b/treeno/orderby.py
index 58d9b88..c053166 100644
--- a/treeno/orderby.py
+++ b/treeno/orderby.py
@@ -37,7 +37,7 @@ class OrderTerm(Sql):
     null_order: NullOrder = attr.ib(factory=NullOrder.default)
 
     def sql(self, opts: PrintOptions):
-        order_string = self.value.sql(opts)
+        order_string = self.value.nested_sql(opts)
         if self.order_type != OrderType.default():
             order_string += f" {self.order_type.name}"
         if self.null_order != NullOrder.default():
diff --git a/treeno/relation.py b/treeno/relation.py
index 79878ae..eafc3fe 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -195,6 +195,10 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
 
+    def nested_sql(self, opts: PrintOptions) -> str:
+        # Add padding of 1 character to realign the statement
+        return pad(parenthesize(self.sql(opts)), 1)
+
     def _with_query_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of the WITH clause to the queries.
 
@@ -496,7 +500,7 @@ class SelectQuery(Query):
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
-        select_value = join_stmts([val.sql(opts) for val in self.select], opts)
+        select_value = join_stmts([val.nested_sql(opts) for val in self.select], opts)
         # All is the default, so we don't need to mention it
         if self.select_quantifier != SetQuantifier.default():
             select_value = self.select_quantifier.name + " " + select_value
@@ -510,11 +514,11 @@ class SelectQuery(Query):
                 relation_str = pad(parenthesize(relation_str), 1)
             builder.add_entry("FROM", relation_str)
         if self.where:
-            builder.add_entry("WHERE", self.where.sql(opts))
+            builder.add_entry("WHERE", self.where.nested_sql(opts))
         if self.groupby:
             builder.add_entry("GROUP", "BY " + self.groupby.sql(opts))
         if self.having:
-            builder.add_entry("HAVING", self.having.sql(opts))
+            builder.add_entry("HAVING", self.having.nested_sql(opts))
         if self.window:
             window_string = join_stmts(
                 [
@@ -700,7 +704,7 @@ class ValuesQuery(Query):
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
         builder.add_entry(
-            "VALUES", join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+            "VALUES", join_stmts([expr.nested_sql(opts) for expr in self.exprs], opts)
         )
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
@@ -882,7 +886,7 @@ class JoinOnCriteria(JoinCriteria):
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         # For complex boolean expressions i.e. conjunctions and disjunctions we have a new line, so we have to
         # indent it here for readability
-        return {"ON": pad(self.constraint.sql(opts), opts.spaces)}
+        return {"ON": pad(self.constraint.nested_sql(opts), opts.spaces)}
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.constraint)
@@ -1005,7 +1009,7 @@ class Unnest(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
-            f"UNNEST({join_stmts([arr.sql(opts) for arr in self.arrays], opts)})"
+            f"UNNEST({join_stmts([arr.nested_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
             str_builder += " WITH ORDINALITY"
@@ -1099,7 +1103,7 @@ class TableSample(Relation):
         if isinstance(percentage, Literal) and type(percentage.value) is float:
             # The percentage is a number of any type, so there's no need for an exponent.
             percentage = wrap_literal(Decimal(repr(percentage.value)))
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage.sql(opts)})"
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage.nested_sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
diff --git a/treeno/window.py b/treeno/window.py
index bd14f1a..1e92b9f 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -53,7 +53,7 @@ class BoundedFrameBound(FrameBound):
     offset: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.offset.sql(opts)} {self.bound_type.value}"
+        return f"{self.offset.nested_sql(opts)} {self.bound_type.value}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.offset)
@@ -106,7 +106,7 @@ class Window(Sql):
             builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
-                [partition.sql(opts) for partition in self.partitions], opts
+                [partition.nested_sql(opts) for partition in self.partitions], opts
             )
             builder.add_entry("PARTITION", "BY " + partition_value)
         if self.orderby:
-- 
2.43.0


From 14f6b561bcb637ff5dcf92279236e21fc291e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 27/64] fix: print LIMIT 0

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index eafc3fe..f28f614 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -252,7 +252,7 @@ class Query(Relation, Value, ABC):
             )
         if self.offset:
             str_builder["OFFSET"] = str(self.offset)
-        if self.limit:
+        if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
-- 
2.43.0


From 78e8a90c86923da20fa209d85d3d1fce9662460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 28/64] fix: print OFFSET 0

---
 treeno/builder/convert.py | 4 +++-
 treeno/relation.py        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 3010518..f7a2cbc 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -280,7 +280,9 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
         if ctx.getChildCount() > 1 and (
-            query.orderby or query.offset or query.limit is not None
+            query.orderby
+            or query.offset is not None
+            or query.limit is not None
         ):
             raise NotImplementedError(
                 "ORDER BY, OFFSET or LIMIT on a parenthesized query which has its own is not supported"
diff --git a/treeno/relation.py b/treeno/relation.py
index f28f614..9d7827d 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -250,7 +250,7 @@ class Query(Relation, Value, ABC):
             str_builder["ORDER"] = "BY " + join_stmts(
                 [order.sql(opts) for order in self.orderby], opts
             )
-        if self.offset:
+        if self.offset is not None:
             str_builder["OFFSET"] = str(self.offset)
         if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
-- 
2.43.0


From 9b6ad4ba56e2c11a33d02f776c9cb73734fbc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 29/64] fix: print WITH, ORDER BY, OFFSET and LIMIT of set
 operations

---
 treeno/relation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 9d7827d..684b443 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -323,7 +323,16 @@ class SetQuery(Query, ABC):
         query_string += f" {self.set_quantifier.name}"
         query_string += spacing
         query_string += relation_string(self.right_query, opts, newline=False)
-        return query_string
+        clauses = [
+            StatementPrinter(self._with_query_string_builder(opts)),
+            StatementPrinter(self._constraint_string_builder(opts)),
+        ]
+        with_string, constraint_string = [
+            clause.to_string(opts) for clause in clauses
+        ]
+        return spacing.join(
+            filter(None, [with_string, query_string, constraint_string])
+        )
 
     def resolve(self, existing_schema: Schema) -> Schema:
         left_schema = self.left_query.resolve(
-- 
2.43.0


From 17c2eb5e803e1ffe8bbf2a1b4a24ab0ae4ee00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 30/64] fix: print WITH ORDINALITY as two words

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 684b443..7945f9e 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1021,7 +1021,7 @@ class Unnest(Relation):
             f"UNNEST({join_stmts([arr.nested_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
-            str_builder += " WITH ORDINALITY"
+            str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-- 
2.43.0


From d2cb1392f720bc474f137812e2e93471e2bd4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 31/64] fix: parenthesize nested joins, samples and aliases

---
 treeno/relation.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 7945f9e..0412d76 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -759,7 +759,12 @@ class AliasedRelation(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         # .. todo:: Keep the "AS"?
-        alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
+        relation_str = relation_string(
+            self.relation,
+            opts,
+            special_parenthesize_relations=[Join, TableSample, AliasedRelation],
+        )
+        alias_str = f"{relation_str} {quote_identifier(self.alias)}"
         if self.column_aliases:
             alias_str += f" {self._column_aliases_sql(opts)}"
         return alias_str
@@ -957,7 +962,14 @@ class Join(Relation):
         if self.config.natural:
             join_type += "NATURAL "
         join_type += f"{self.config.join_type.value} JOIN"
-        builder.add_entry(join_type, relation_string(self.right_relation, opts))
+        builder.add_entry(
+            join_type,
+            relation_string(
+                self.right_relation,
+                opts,
+                special_parenthesize_relations=[Join],
+            ),
+        )
         if self.config.criteria is not None:
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
@@ -1106,7 +1118,7 @@ class TableSample(Relation):
             self.relation,
             opts,
             newline=False,
-            special_parenthesize_relations=[Join],
+            special_parenthesize_relations=[Join, TableSample],
         )
         percentage = self.percentage
         if isinstance(percentage, Literal) and type(percentage.value) is float:
-- 
2.43.0


From a26e520267571cfd9bcbd249e56132273396c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 32/64] fix: reject joins which can't be written

---
 treeno/relation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index 0412d76..7b9765d 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -925,6 +925,11 @@ class JoinConfig(Sql):
     def __attrs_post_init__(self):
         if self.join_type == JoinType.CROSS:
             assert not self.criteria, "Cross joins cannot specify join criteria"
+            assert not self.natural, "Cross joins cannot be natural"
+        else:
+            assert (
+                self.natural or self.criteria
+            ), "Joins must either be natural or specify join criteria"
 
         if self.criteria:
             assert (
-- 
2.43.0


From 39c17c359946bc8b2e48202c55646b88c58c90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 33/64] fix: keep the frame of referenced windows

---
 treeno/functions/aggregate.py |  6 ++----
 treeno/window.py              | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 6e3dfd1..b586cf1 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -23,7 +23,7 @@ from treeno.expression import Star, Value, value_attr, wrap_literal
 from treeno.functions.base import FUNCTIONS_TO_NAMES, Function
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
-from treeno.util import parenthesize, quote_literal
+from treeno.util import quote_literal
 from treeno.window import NullTreatment, Window
 
 
@@ -53,9 +53,7 @@ class AggregateFunction(Function, ABC):
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
         if self.window:
-            constraint_builder.add_entry(
-                "OVER", parenthesize(self.window.sql(opts))
-            )
+            constraint_builder.add_entry("OVER", self.window.over_sql(opts))
         return constraint_builder.to_string(opts)
 
     def get_orderby_string(self, opts: PrintOptions) -> str:
diff --git a/treeno/window.py b/treeno/window.py
index 1e92b9f..fded6c0 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -14,7 +14,7 @@ from treeno.base import (
 from treeno.expression import Value, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
-from treeno.util import quote_identifier
+from treeno.util import parenthesize, quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -99,6 +99,24 @@ class Window(Sql):
     start_bound: FrameBound = attr.ib(factory=default_start_bound)
     end_bound: FrameBound = attr.ib(factory=default_end_bound)
 
+    def _has_default_frame(self) -> bool:
+        return (
+            self.frame_type == FrameType.default()
+            and self.start_bound.equals(default_start_bound())
+            and self.end_bound.equals(default_end_bound())
+        )
+
+    def over_sql(self, opts: PrintOptions) -> str:
+        """Converts the window to what follows the OVER keyword. Only the bare name of a window has its frame."""
+        if (
+            self.parent_window
+            and not self.orderby
+            and not self.partitions
+            and self._has_default_frame()
+        ):
+            return quote_identifier(self.parent_window)
+        return parenthesize(self.sql(opts))
+
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         if self.parent_window:
@@ -114,6 +132,9 @@ class Window(Sql):
                 [order_term.sql(opts) for order_term in self.orderby], opts
             )
             builder.add_entry("ORDER", "BY " + order_value)
+        # An unspecified frame is the one of the parent window, if there's any.
+        if self.parent_window and self._has_default_frame():
+            return builder.to_string(opts)
         builder.add_entry(
             self.frame_type.value,
             " ".join(
-- 
2.43.0


From b2fa3103304ccbcbc9d97685ca7c805d80771a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 34/64] fix: return the common supertype of parametrized types

---
 treeno/datatypes/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d6f2004..20626fd 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -77,7 +77,7 @@ def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
         if dtype1 == dtype2:
             return dtype1
         if dtype1.type_name in COMMON_CONVERSION_MAP:
-            common_same_type(dtype1, dtype2)
+            return common_same_type(dtype1, dtype2)
         return unknown()
     elif dtype1.type_name in NUMERIC_TYPES:
         return common_numeric(dtype1, dtype2)
-- 
2.43.0


From 0402dff5f58bd9105a1031cc2aaa21c3209db30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 35/64] fix: keep precision and time zone in common time and
 timestamp types

---
 treeno/datatypes/conversions.py | 39 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index 20626fd..9bc93f1 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,6 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
+from typing import Any, Dict
+
 from treeno.datatypes.builder import (
     array,
     char,
@@ -57,6 +59,8 @@ MAX_CHAR_LENGTH = 65536
 HLL_TYPES = {HLL, P4HLL}
 
 DATETIME_TYPES = {DATE, TIME, TIMESTAMP}
+# The precision of TIME and TIMESTAMP when none is specified
+DEFAULT_TIMELIKE_PRECISION = 3
 
 
 def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -108,7 +112,7 @@ def common_datetime(dtype1: DataType, dtype2: DataType) -> DataType:
     if {dtype1.type_name, dtype2.type_name} == {DATE, TIME}:
         return unknown()
     # Currently there's either TIMESTAMP, TIME or TIMESTAMP, DATE, both of which get promoted to timestamp
-    return dtype1 if dtype1.type_name == TIMESTAMP else dtype2
+    return timestamp(**_common_timelike_parameters(dtype1, dtype2))
 
 
 def common_hll(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -281,26 +285,39 @@ def common_array(dtype1: DataType, dtype2: DataType) -> DataType:
     return array(dtype=common_supertype(t1, t2))
 
 
+def _common_timelike_parameters(
+    dtype1: DataType, dtype2: DataType
+) -> Dict[str, Any]:
+    """The more precise precision, and a time zone if there's any."""
+    parameters: Dict[str, Any] = {
+        "timezone": dtype1.parameters.get("timezone", False)
+        or dtype2.parameters.get("timezone", False)
+    }
+    precisions = [
+        dtype.parameters.get("precision")
+        for dtype in (dtype1, dtype2)
+        if dtype.type_name != DATE
+    ]
+    if any(precision is not None for precision in precisions):
+        parameters["precision"] = max(
+            DEFAULT_TIMELIKE_PRECISION if precision is None else precision
+            for precision in precisions
+        )
+    return parameters
+
+
 def common_timestamp(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIMESTAMP
     ), "common_timestamp must be called with TIMESTAMPtype only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return timestamp(timezoned=timezoned, precision=precision)
+    return timestamp(**_common_timelike_parameters(dtype1, dtype2))
 
 
 def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIME
     ), "common_time must be called with TIME type only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return time(timezoned=timezoned, precision=precision)
+    return time(**_common_timelike_parameters(dtype1, dtype2))
 
 
 def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
-- 
2.43.0


From cbc104436e47e7d33686cb4ab2aee0bd12047013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 36/64] fix: make common supertypes symmetric, wide enough and
 total

---
 treeno/datatypes/conversions.py | 26 +++++++++++++++++++-------
 treeno/functions/common.py      |  3 ++-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index 9bc93f1..83e7ac0 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -42,12 +42,14 @@ from treeno.datatypes.types import (
     TIME,
     TIMESTAMP,
     TINYINT,
+    UNKNOWN,
     VARCHAR,
     DataType,
 )
 
 INTEGRAL_TYPES = {INTEGER, BIGINT, SMALLINT, TINYINT}
 INTEGRAL_DECIMAL_PRECISION = {TINYINT: 3, SMALLINT: 5, INTEGER: 10, BIGINT: 19}
+MAX_DECIMAL_PRECISION = 38
 FLOAT_TYPES = {REAL, DOUBLE}
 # Decimal can be either a float or an integral, and we treat it fairly differently so it's a special case
 NUMERIC_TYPES = INTEGRAL_TYPES | FLOAT_TYPES | {DECIMAL}
@@ -67,7 +69,7 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
     if dtype1 == dtype2:
         return dtype1
     name1, name2 = dtype1.type_name, dtype2.type_name
-    if name1 == name2:
+    if name1 == name2 and name1 in COMMON_CONVERSION_MAP:
         return common_same_type(dtype1, dtype2)
     elif {name1, name2}.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
@@ -83,13 +85,17 @@ def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
         if dtype1.type_name in COMMON_CONVERSION_MAP:
             return common_same_type(dtype1, dtype2)
         return unknown()
-    elif dtype1.type_name in NUMERIC_TYPES:
+    type_names = {dtype1.type_name, dtype2.type_name}
+    # Nothing can be said about a type which isn't known.
+    if UNKNOWN in type_names:
+        return unknown()
+    elif type_names.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
-    elif dtype1.type_name in STRING_TYPES:
+    elif type_names.issubset(STRING_TYPES):
         return common_string(dtype1, dtype2)
-    elif dtype1.type_name in HLL_TYPES:
+    elif type_names.issubset(HLL_TYPES):
         return common_hll(dtype1, dtype2)
-    elif dtype1.type_name in DATETIME_TYPES:
+    elif type_names.issubset(DATETIME_TYPES):
         return common_datetime(dtype1, dtype2)
     raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
@@ -187,7 +193,7 @@ def common_numeric(dtype1: DataType, dtype2: DataType) -> DataType:
 def promote_varchar_to_char(varchar_dtype: DataType) -> DataType:
     chars = varchar_dtype.parameters.get("max_chars", None)
     if chars is None:
-        return char()
+        return char(max_chars=MAX_CHAR_LENGTH)
     # VARCHAR can be way bigger than char, so we have to be careful to cap it
     return char(max_chars=min(MAX_CHAR_LENGTH, chars))
 
@@ -227,7 +233,11 @@ def common_decimal(dtype1: DataType, dtype2: DataType) -> DataType:
     s1, s2 = dtype1.parameters["scale"], dtype2.parameters["scale"]
     p1, p2 = dtype1.parameters["precision"], dtype2.parameters["precision"]
     scale = max([s1, s2])
-    return decimal(precision=max([p1 - s1, p2 - s2]) + scale, scale=scale)
+    precision = max([p1 - s1, p2 - s2]) + scale
+    # There's no decimal which is wide enough for both.
+    if precision > MAX_DECIMAL_PRECISION:
+        return unknown()
+    return decimal(precision=precision, scale=scale)
 
 
 def common_varchar(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -260,6 +270,8 @@ def common_row(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == ROW
     ), "common_row must be called with ROW type only"
+    if len(dtype1.parameters["dtypes"]) != len(dtype2.parameters["dtypes"]):
+        return unknown()
     dtypes = []
     for t1, t2 in zip(dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]):
         dtypes.append(common_supertype(t1, t2))
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 8a707c9..c0e77df 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -10,6 +10,7 @@ from treeno.base import GenericVisitor, PrintOptions
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import array, char, unknown, varbinary, varchar
 from treeno.datatypes.conversions import (
+    MAX_CHAR_LENGTH,
     STRING_TYPES,
     common_supertype,
     promote_varchar_to_char,
@@ -68,7 +69,7 @@ def _get_string_concat_type(
             if dtype.type_name != type_consts.CHAR:
                 dtype = promote_varchar_to_char(dtype)
             max_chars += dtype.parameters["max_chars"]
-        return char(max_chars=max_chars)
+        return char(max_chars=min(max_chars, MAX_CHAR_LENGTH))
 
 
 @value_attr
-- 
2.43.0


From d3261590d3f1a207aa9e104e2d9be33844381fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 37/64] fix: validate ranges of type parameters

---
 treeno/datatypes/types.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..388c834 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -94,7 +94,10 @@ class DataType(Sql):
                 field.name in self.parameters
             ), f"{field.name} not specified. Required for {self.type_name}"
             field_value = self.parameters[field.name]
-            assert isinstance(field_value, field.type), (
+            # NOTE: In python, booleans are integers too.
+            assert isinstance(field_value, field.type) and (
+                field.type is bool or not isinstance(field_value, bool)
+            ), (
                 f"Field {field.name} for type {self.type_name} must "
                 f"be of type {field.type.__name__}. "
                 f"Got {type(field_value).__name__} instead with value {field_value})"
@@ -200,15 +203,31 @@ def validate_map(row: DataType) -> None:
 
 def validate_row(row: DataType) -> None:
     data_types = row.parameters["dtypes"]
+    assert len(data_types), "ROW must have at least one field"
     assert all(
         isinstance(t, DataType) for t in data_types
     ), "dtypes argument must be a list of DataTypes"
 
 
 def validate_decimal(decimal: DataType) -> None:
-    # TODO: Should we validate the scale as well?
     precision = decimal.parameters["precision"]
-    assert 0 <= precision <= 38, f"Precision {precision} is not supported"
+    assert 1 <= precision <= 38, f"Precision {precision} is not supported"
+    scale = decimal.parameters["scale"]
+    assert (
+        0 <= scale <= precision
+    ), f"Scale {scale} must be between 0 and the precision {precision}"
+
+
+def validate_varchar(varchar: DataType) -> None:
+    max_chars = varchar.parameters.get("max_chars", None)
+    assert (
+        max_chars is None or 0 <= max_chars < 2 ** 31 - 1
+    ), f"Length {max_chars} is not supported"
+
+
+def validate_char(char: DataType) -> None:
+    max_chars = char.parameters["max_chars"]
+    assert 0 <= max_chars <= 65536, f"Length {max_chars} is not supported"
 
 
 def validate_nonparametric(nonparametric: DataType) -> None:
@@ -301,4 +320,6 @@ VALIDATORS: Dict[str, Callable[[DataType], None]] = {
     ROW: validate_row,
     INTERVAL: validate_interval,
     DECIMAL: validate_decimal,
+    VARCHAR: validate_varchar,
+    CHAR: validate_char,
 }
-- 
2.43.0


From 0bd8ce17b9b1aaf5f1c8f62270f9a4345bb9d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 38/64] fix: don't modify the parameters passed into a data
 type

---
 treeno/datatypes/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index 388c834..467c0be 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -73,7 +73,8 @@ class DataType(Sql):
     """
 
     type_name: str = attr.ib()
-    parameters: Dict[str, Any] = attr.ib(factory=dict)
+    # NOTE: Defaults are filled in below, which must not change the dictionary passed in.
+    parameters: Dict[str, Any] = attr.ib(factory=dict, converter=dict)
 
     def __attrs_post_init__(self):
         self.type_name = self.type_name.upper()
-- 
2.43.0


From 8b520e1d1990f53431aa028a0c5a944a2c91d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 39/64] fix: infer precision and time zone of timestamp and
 time literals

---
 treeno/datatypes/inference.py | 13 +++++++++----
 treeno/expression.py          | 10 ++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index b15a766..43b88bf 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -2,6 +2,7 @@
 
 Should not be used in datatypes.types to prevent circular imports
 """
+import re
 from decimal import Decimal
 from math import isfinite
 from typing import Any
@@ -64,7 +65,11 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
 def infer_timelike_precision(value: str) -> int:
     # TODO: Use a datetime util for this at some point. Currently datetime in python only supports microseconds :(
     # Number of digits past the dot is its precision
-    if "." not in value:
-        return 0
-    # In case we have timezone
-    return len(value.rsplit(".")[-1].split(" ")[0])
+    match = re.search(r"\d\.(\d+)", value)
+    return len(match.group(1)) if match else 0
+
+
+def infer_timelike_timezone(value: str) -> bool:
+    # Whatever comes after the date and the time is a time zone.
+    date_and_time = r"\s*([+-]?\d+-\d+-\d+)?\s*(\d+:\d+(:\d+(\.\d+)?)?)?"
+    return bool(re.sub(f"^{date_and_time}", "", value).strip())
diff --git a/treeno/expression.py b/treeno/expression.py
index 6f2a34e..a7c43da 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -55,6 +55,7 @@ from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
     infer_timelike_precision,
+    infer_timelike_timezone,
     infer_type,
 )
 from treeno.datatypes.types import DataType
@@ -881,14 +882,15 @@ class TypeConstructor(Expression):
     type_name: str = attr.ib(converter=str.upper)
 
     def __attrs_post_init__(self) -> None:
-        # This can't be timezoned, so we ignore that
         if self.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
-        if self.type_name == type_consts.TIME:
+        elif self.type_name == type_consts.TIME:
             self.data_type = time(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
         elif self.type_name == type_consts.DECIMAL:
             self.data_type = infer_decimal(Decimal(self.value))
-- 
2.43.0


From b876751d8605a44d8c24feeba99b18b65fa45586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 40/64] fix: use documented result types of date and time
 functions

---
 treeno/functions/datetime.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 32a2657..8f7eda7 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -12,8 +12,10 @@ from treeno.datatypes.builder import (
     interval,
     time,
     timestamp,
+    unknown,
     varchar,
 )
+from treeno.datatypes.types import DataType
 from treeno.expression import Value, value_attr, wrap_literal
 from treeno.functions.base import FUNCTIONS_TO_NAMES, Function, UnaryFunction
 from treeno.util import parenthesize
@@ -58,7 +60,7 @@ class CurrentTime(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIME"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = time(precision=self.precision)
+        self.data_type = time(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -66,7 +68,7 @@ class CurrentTimestamp(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIMESTAMP"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = timestamp(precision=self.precision)
+        self.data_type = timestamp(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -125,6 +127,13 @@ class FromISO8601Date(UnaryFunction):
         self.data_type = date()
 
 
+def _timezoned_type(dtype: DataType) -> DataType:
+    # If it's something else like unknown, then we just keep the data type unknown
+    if dtype.type_name != type_consts.TIMESTAMP:
+        return unknown()
+    return timestamp(**{**dtype.parameters, "timezone": True})
+
+
 @value_attr
 class AtTimezone(Function):
     FN_NAME: ClassVar[str] = "AT_TIMEZONE"
@@ -132,12 +141,7 @@ class AtTimezone(Function):
     zone: Value = attr.ib(converter=wrap_literal)
 
     def __attrs_post_init__(self) -> None:
-        # If it's something else like unknown, then we just keep the data type unknown
-        dtype = self.value.data_type
-        if dtype.type_name == type_consts.TIMESTAMP:
-            self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
-            )
+        self.data_type = _timezoned_type(self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         return self.to_string([self.value, self.zone], opts)
@@ -154,11 +158,7 @@ class WithTimezone(Function):
     zone: Value = attr.ib(converter=wrap_literal)
 
     def __attrs_post_init__(self) -> None:
-        dtype = self.value.data_type
-        if dtype.type_name == type_consts.TIMESTAMP:
-            self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
-            )
+        self.data_type = _timezoned_type(self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         return self.to_string([self.value, self.zone], opts)
@@ -196,11 +196,7 @@ class FromUnixtime(Function):
         raise ValueError(f"Unrecognized arguments {args} and {kwargs}")
 
     def __attrs_post_init__(self) -> None:
-        dtype = self.value.data_type
-        if dtype.type_name == type_consts.TIMESTAMP:
-            self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
-            )
+        self.data_type = timestamp(precision=3, timezone=True)
 
         if self.zone:
             assert (
-- 
2.43.0


From 343d2bcf858f4370a8f9b9abb6765a4f3489ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 41/64] fix: use documented result types of aggregate functions

---
 treeno/functions/aggregate.py | 49 ++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index b586cf1..cafa07b 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -19,6 +19,7 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
+from treeno.datatypes.types import DataType
 from treeno.expression import Star, Value, value_attr, wrap_literal
 from treeno.functions.base import FUNCTIONS_TO_NAMES, Function
 from treeno.orderby import OrderTerm
@@ -110,6 +111,12 @@ class BinaryStatsFunction(AggregateFunction, ABC):
         visitor.visit(self.y)
 
 
+@value_attr
+class UnaryStatsFunction(UnaryAggregateFunction, ABC):
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
+
 @value_attr
 class Sum(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "SUM"
@@ -139,7 +146,10 @@ class Avg(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "AVG"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = double()
+        if self.value.data_type.type_name == type_consts.INTERVAL:
+            self.data_type = self.value.data_type
+        else:
+            self.data_type = double()
 
 
 @value_attr
@@ -272,6 +282,13 @@ class ListAgg(AggregateFunction):
             visitor.visit(self.overflow_filler)
 
 
+def _extremum_type(value: Value, num_values: Optional[Value]) -> DataType:
+    # Multiple values are returned as an array
+    if num_values is not None:
+        return array(dtype=value.data_type)
+    return value.data_type
+
+
 @value_attr
 class Max(AggregateFunction):
     FN_NAME: ClassVar[str] = "MAX"
@@ -281,7 +298,7 @@ class Max(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        self.data_type = _extremum_type(self.value, self.num_values)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -305,7 +322,7 @@ class MaxBy(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        self.data_type = _extremum_type(self.value, self.num_values)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.max_by]
@@ -329,7 +346,7 @@ class Min(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        self.data_type = _extremum_type(self.value, self.num_values)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -353,7 +370,7 @@ class MinBy(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        self.data_type = _extremum_type(self.value, self.num_values)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.min_by]
@@ -538,9 +555,11 @@ class Merge(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "MERGE"
 
     def __attrs_post_init__(self) -> None:
-        if (
-            self.value.data_type.type_name == type_consts.TDIGEST
-            or self.value.data_type.type_name == type_consts.QDIGEST
+        # NOTE: The type stays unknown if the type of the merged values is.
+        if self.value.data_type.type_name in (
+            type_consts.TDIGEST,
+            type_consts.QDIGEST,
+            type_consts.UNKNOWN,
         ):
             self.data_type = self.value.data_type
         else:
@@ -659,37 +678,37 @@ class RegrSlope(BinaryStatsFunction):
 
 
 @value_attr
-class Skewness(UnaryAggregateFunction):
+class Skewness(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "SKEWNESS"
 
 
 @value_attr
-class StdDev(UnaryAggregateFunction):
+class StdDev(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV"
 
 
 @value_attr
-class StdDevPop(UnaryAggregateFunction):
+class StdDevPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_POP"
 
 
 @value_attr
-class StdDevSamp(UnaryAggregateFunction):
+class StdDevSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_SAMP"
 
 
 @value_attr
-class Variance(UnaryAggregateFunction):
+class Variance(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VARIANCE"
 
 
 @value_attr
-class VarPop(UnaryAggregateFunction):
+class VarPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_POP"
 
 
 @value_attr
-class VarSamp(UnaryAggregateFunction):
+class VarSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_SAMP"
 
 
-- 
2.43.0


From e24842e0f569d9b6449fa6dfc425f26ddc1665a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 42/64] fix: infer the types of CASE, ARRAY, IF, COALESCE and
 subscripts from all of their values

---
 treeno/expression.py            | 55 ++++++++++++++++++++++++++++++---
 treeno/functions/conditional.py | 22 ++++++-------
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index a7c43da..cace0ce 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -50,7 +50,7 @@ from treeno.datatypes.builder import (
     timestamp,
     unknown,
 )
-from treeno.datatypes.conversions import get_arithmetic_type
+from treeno.datatypes.conversions import common_supertype, get_arithmetic_type
 from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
@@ -441,6 +441,28 @@ def wrap_literal_list(vals: List[Any]) -> List[Value]:
     return [wrap_literal(val) for val in vals]
 
 
+def common_value_type(values: List[Value]) -> DataType:
+    """Returns the type which all of the values can be coerced to. NULL belongs to every type, so it has no say in it.
+    If the type of any other value is unknown, then so is the common type.
+    """
+    dtypes = [
+        value.data_type
+        for value in values
+        if not (isinstance(value, Literal) and value.value is None)
+    ]
+    if not dtypes or unknown() in dtypes:
+        return unknown()
+    return functools.reduce(common_supertype, dtypes)
+
+
+def common_value_type_or_unknown(values: List[Value]) -> DataType:
+    """Same as :func:`common_value_type`, but types which can't be coerced to each other aren't an error."""
+    try:
+        return common_value_type(values)
+    except TypeError:
+        return unknown()
+
+
 def pemdas_str(
     current_type: Type[Value],
     val: Value,
@@ -781,9 +803,7 @@ class Array(Expression):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.values), "values must be a non-empty list for Array"
-        # TODO: This is currently incorrect. We have to widen the data type depending on the largest precision we have
-        # i.e. TYPEOF(ARRAY[CHAR '3'] || '345') yields array(char(3))
-        self.data_type = array(dtype=self.values[0].data_type)
+        self.data_type = array(dtype=common_value_type_or_unknown(self.values))
 
     @classmethod
     def from_values(cls, *vals: Any) -> "Array":
@@ -996,6 +1016,26 @@ class Subscript(Expression):
     value: Value = attr.ib()
     index: Value = attr.ib(converter=wrap_literal)
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = self._compute_data_type()
+
+    def _compute_data_type(self) -> DataType:
+        container = self.value.data_type
+        if container.type_name == type_consts.ARRAY:
+            return container.parameters["dtype"]
+        if container.type_name == type_consts.MAP:
+            return container.parameters["to_dtype"]
+        # The fields of a row are accessed by their position, starting from 1.
+        if (
+            container.type_name == type_consts.ROW
+            and isinstance(self.index, Literal)
+            and type(self.index.value) is int
+        ):
+            dtypes = container.parameters["dtypes"]
+            if 1 <= self.index.value <= len(dtypes):
+                return dtypes[self.index.value - 1]
+        return unknown()
+
     def sql(self, opts: PrintOptions) -> str:
         # The index can't be a bare boolean expression.
         index = pemdas_str(Equal, self.index, opts)
@@ -1049,7 +1089,12 @@ class Case(Expression):
         assert len(
             self.branches
         ), "There must be at least one WHEN condition in a CASE"
-        self.data_type = self.branches[0].data_type
+        results: List[Union[When, Else]] = list(self.branches)
+        if self.else_:
+            results.append(self.else_)
+        self.data_type = common_value_type_or_unknown(
+            [result.value for result in results]
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 0d61058..27afa3f 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -1,12 +1,15 @@
-import functools
 from typing import Any, ClassVar, List, Optional, Type
 
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions
-from treeno.datatypes.builder import unknown
-from treeno.datatypes.conversions import common_supertype
-from treeno.expression import Value, value_attr, wrap_literal, wrap_literal_list
+from treeno.expression import (
+    Value,
+    common_value_type,
+    value_attr,
+    wrap_literal,
+    wrap_literal_list,
+)
 from treeno.functions.base import Function, GenericFunction
 
 
@@ -21,8 +24,8 @@ class If(Function):
 
     def __attrs_post_init__(self) -> None:
         if self.false_value is not None:
-            self.data_type = common_supertype(
-                self.true_value.data_type, self.false_value.data_type
+            self.data_type = common_value_type(
+                [self.true_value, self.false_value]
             )
         else:
             self.data_type = self.true_value.data_type
@@ -49,12 +52,7 @@ class Coalesce(Function):
         assert (
             len(self.values) > 1
         ), "There must be at least two values for COALESCE"
-        dtypes = [
-            val.data_type for val in self.values if val.data_type != unknown()
-        ]
-        self.data_type = functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), dtypes
-        )
+        self.data_type = common_value_type(self.values)
 
     @classmethod
     def from_args(
-- 
2.43.0


From 646a697740ead4ecfa3328368658f22a3bda1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 43/64] fix: parenthesize boolean expressions given to
 NORMALIZE

---
 treeno/functions/string.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index a9b6b53..6f0bd98 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -11,7 +11,13 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Value, value_attr, wrap_literal
+from treeno.expression import (
+    Equal,
+    Value,
+    pemdas_str,
+    value_attr,
+    wrap_literal,
+)
 from treeno.functions.base import Function
 from treeno.printer import join_stmts
 
@@ -268,7 +274,8 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.nested_sql(opts)]
+        # The string can't be a bare boolean expression.
+        components = [pemdas_str(Equal, self.string, opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
-- 
2.43.0


From 4280e1aaef163c1a94a1cb6123cfbefd310bbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 44/64] fix: print sample percentages which are too long for a
 decimal as doubles

---
 treeno/relation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 7b9765d..9579df2 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1126,7 +1126,11 @@ class TableSample(Relation):
             special_parenthesize_relations=[Join, TableSample],
         )
         percentage = self.percentage
-        if isinstance(percentage, Literal) and type(percentage.value) is float:
+        if (
+            isinstance(percentage, Literal)
+            and type(percentage.value) is float
+            and "e" not in repr(percentage.value)
+        ):
             # The percentage is a number of any type, so there's no need for an exponent.
             percentage = wrap_literal(Decimal(repr(percentage.value)))
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage.nested_sql(opts)})"
-- 
2.43.0


From 2dd64ba561b527bf390d073d33e48d7033ba715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 45/64] fix: compare the kinds of nested nodes and literals,
 not just their contents

---
 treeno/base.py            | 44 +++++++++++++++++++++++++++++++++++----
 treeno/datatypes/types.py |  3 +++
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/treeno/base.py b/treeno/base.py
index 0a2bb02..b8413e0 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -12,12 +12,13 @@ In order to do this, this module introduces some preliminary classes for printin
 """
 
 from abc import ABC, ABCMeta, abstractmethod
+from decimal import Decimal
 from enum import Enum, EnumMeta, auto
 from typing import TYPE_CHECKING, Any, ClassVar, Set, TypeVar
 
 import attr
 
-from treeno.util import is_abstract
+from treeno.util import children, is_abstract, is_dictlike, is_listlike
 
 if TYPE_CHECKING:
     from treeno.visitor import TreenoVisitor
@@ -141,9 +142,13 @@ class Sql(ABC):
         """
         if not isinstance(other, Sql) or type(self) is not type(other):
             return False
-        self_dict = attr.asdict(self)
-        other_dict = attr.asdict(other)
-        return self_dict == other_dict
+        other_children = children(other)
+        # Members which are hidden aren't part of the node's content.
+        return all(
+            _identical(child, other_children[name])
+            for name, child in children(self).items()
+            if not name.startswith("_")
+        )
 
     def assert_equals(self, other: Any) -> None:
         """Assert whether two :class:`Sql` nodes are the same.
@@ -153,6 +158,37 @@ class Sql(ABC):
         assert self.equals(other)
 
 
+_PLAIN = (bool, int, float, Decimal, str)
+
+
+def _identical(val: Any, other: Any) -> bool:
+    """Compares two nodes, containers of nodes or plain python values by content."""
+    if isinstance(val, Sql):
+        return val.equals(other)
+    if isinstance(other, Sql):
+        return False
+    if is_listlike(val) or is_listlike(other):
+        return (
+            is_listlike(val)
+            and is_listlike(other)
+            and len(val) == len(other)
+            and all(_identical(v, o) for v, o in zip(val, other))
+        )
+    # NOTE: In python True, 1, 1.0 and Decimal(1) are all equal, but in SQL they're different literals.
+    if isinstance(val, _PLAIN) and isinstance(other, _PLAIN):
+        if type(val) is not type(other):
+            return False
+    if is_dictlike(val) and is_dictlike(other):
+        return _identical(list(val.items()), list(other.items()))
+    if isinstance(val, float) and isinstance(other, float):
+        # The sign of a zero matters.
+        return repr(val) == repr(other)
+    if isinstance(val, Decimal) and isinstance(other, Decimal):
+        # The number of decimals matters.
+        return format(val, "f") == format(other, "f")
+    return bool(val == other)
+
+
 class SetQuantifier(DefaultableEnum):
     """Whether to select all rows or only distinct values"""
 
diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index 467c0be..279cdbb 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -113,6 +113,9 @@ class DataType(Sql):
         if validator is not None:
             validator(self)
 
+    def equals(self, other: Any) -> bool:
+        return isinstance(other, DataType) and self == other
+
     def sql(self, opts: PrintOptions) -> str:
         if self.type_name in (TIMESTAMP, TIME):
             return emit_timelike(self)
-- 
2.43.0


From bbc3e30f0bdad86e23d8b0d3ace152e1c633381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 46/64] fix: print the negation of a number differently from a
 negative number

---
 treeno/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index cace0ce..710e554 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -558,8 +558,8 @@ class Negative(UnaryExpression):
 
     def sql(self, opts: PrintOptions) -> str:
         value_sql = builtin_unary_str(self, "{value}", opts)
-        # Two consecutive minus signs start a comment.
-        if value_sql.startswith("-"):
+        # Two consecutive minus signs start a comment, and a sign followed by a number is a single literal.
+        if value_sql[0] in "-0123456789":
             value_sql = parenthesize(value_sql)
         return "-" + value_sql
 
-- 
2.43.0


From c0dcad60045a93364c58c0f7a730f70937c093c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 47/64] fix: visit the ordering, filter and window of
 aggregates, and the value of QDIGEST_AGG

---
 treeno/functions/aggregate.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index cafa07b..c52aaee 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -83,6 +83,15 @@ class AggregateFunction(Function, ABC):
             return call_str + constraint_string
         return call_str
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        # Every aggregate can have these on top of its own arguments.
+        for order_term in self.orderby or []:
+            visitor.visit(order_term)
+        if self.filter_:
+            visitor.visit(self.filter_)
+        if self.window:
+            visitor.visit(self.window)
+
 
 @value_attr
 class UnaryAggregateFunction(AggregateFunction, ABC):
@@ -93,6 +102,7 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -107,8 +117,9 @@ class BinaryStatsFunction(AggregateFunction, ABC):
         return self.to_string([self.y, self.x], opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.x)
         visitor.visit(self.y)
+        visitor.visit(self.x)
+        super().visit(visitor)
 
 
 @value_attr
@@ -280,6 +291,7 @@ class ListAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.overflow_filler:
             visitor.visit(self.overflow_filler)
+        super().visit(visitor)
 
 
 def _extremum_type(value: Value, num_values: Optional[Value]) -> DataType:
@@ -310,6 +322,7 @@ class Max(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -335,6 +348,7 @@ class MaxBy(AggregateFunction):
         visitor.visit(self.max_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -358,6 +372,7 @@ class Min(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -383,6 +398,7 @@ class MinBy(AggregateFunction):
         visitor.visit(self.min_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -428,6 +444,7 @@ class MapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -456,6 +473,7 @@ class MultiMapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -479,6 +497,7 @@ class ApproxDistinct(AggregateFunction):
         visitor.visit(self.key)
         if self.epsilon:
             visitor.visit(self.epsilon)
+        super().visit(visitor)
 
 
 @value_attr
@@ -500,6 +519,7 @@ class ApproxMostFrequent(AggregateFunction):
         visitor.visit(self.buckets)
         visitor.visit(self.value)
         visitor.visit(self.capacity)
+        super().visit(visitor)
 
 
 @value_attr(init=False)
@@ -540,6 +560,7 @@ class ApproxPercentile(AggregateFunction):
         visitor.visit(self.percentage)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -589,6 +610,7 @@ class NumericHistogram(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -617,11 +639,12 @@ class QDigestAgg(AggregateFunction):
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.buckets)
+        visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
         if self.accuracy:
             visitor.visit(self.accuracy)
+        super().visit(visitor)
 
 
 @value_attr
@@ -645,6 +668,7 @@ class TDigestAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
-- 
2.43.0


From 810cb5733d8b9709f45f9fe8041a71efa0da14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 48/64] fix: give lambda variables a visitor handler

---
 treeno/visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/visitor.py b/treeno/visitor.py
index b526505..81a60af 100644
--- a/treeno/visitor.py
+++ b/treeno/visitor.py
@@ -187,6 +187,9 @@ class TreenoVisitor(Generic[T]):
     def visit_NotEqual(self, node: "NotEqual") -> T:
         ...
 
+    def visit_Variable(self, node: "Lambda.Variable") -> T:
+        ...
+
     def visit_UnboundedFrameBound(self, node: "UnboundedFrameBound") -> T:
         ...
 
-- 
2.43.0


From d248c87265de8a6e987028eb9b7a9afd251b3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 49/64] fix: visit every part of queries and joins

---
 treeno/relation.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 9579df2..a07cd7f 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -256,6 +256,13 @@ class Query(Relation, Value, ABC):
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        # Every query can have these on top of its own clauses.
+        for query in self.with_ or []:
+            visitor.visit(query)
+        for order_term in self.orderby or []:
+            visitor.visit(order_term)
+
 
 @value_attr
 class SetQuery(Query, ABC):
@@ -353,6 +360,7 @@ class SetQuery(Query, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
         visitor.visit(self.right_query)
+        super().visit(visitor)
 
 
 @value_attr
@@ -541,7 +549,8 @@ class SelectQuery(Query):
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.select)
+        for val in self.select:
+            visitor.visit(val)
         if self.from_:
             visitor.visit(self.from_)
         if self.where:
@@ -553,6 +562,7 @@ class SelectQuery(Query):
         if self.window:
             for window in self.window.values():
                 visitor.visit(window)
+        super().visit(visitor)
 
 
 @attr.s
@@ -661,6 +671,7 @@ class TableQuery(Query):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
+        super().visit(visitor)
 
 
 @value_attr
@@ -727,6 +738,7 @@ class ValuesQuery(Query):
     def visit(self, visitor: GenericVisitor) -> None:
         for expr in self.exprs:
             visitor.visit(expr)
+        super().visit(visitor)
 
 
 @attr.s
@@ -942,7 +954,8 @@ class JoinConfig(Sql):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.criteria)
+        if self.criteria:
+            visitor.visit(self.criteria)
 
 
 @attr.s
-- 
2.43.0


From 6f34bda623db66bed56e02ebd5d7768fd50c25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 50/64] fix: queries without WITH have an empty list of named
 queries

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index a07cd7f..0830576 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -193,7 +193,7 @@ class Query(Relation, Value, ABC):
     offset: Optional[int] = attr.ib(default=None, kw_only=True)
     limit: Optional[int] = attr.ib(default=None, kw_only=True)
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
-    with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
+    with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
     def nested_sql(self, opts: PrintOptions) -> str:
         # Add padding of 1 character to realign the statement
-- 
2.43.0


From 6f77d0c2786a17bc6e221cf8dde59d04497c5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 51/64] fix: fix: reject null treatment on aggregates without a
 window

---
 treeno/functions/aggregate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index c52aaee..35d7737 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -45,6 +45,14 @@ class AggregateFunction(Function, ABC):
     # Whether to only aggregate over distinct arguments
     distinct: bool = attr.ib(default=False, kw_only=True)
 
+    @null_treatment.validator
+    def _validate_null_treatment(
+        self, attribute: attr.Attribute, value: NullTreatment
+    ) -> None:
+        assert (
+            value == NullTreatment.RESPECT or self.window is not None
+        ), "IGNORE NULLS requires a window"
+
     def get_constraint_string(self, opts: PrintOptions) -> str:
         constraint_builder = StatementPrinter()
         if self.filter_:
-- 
2.43.0


From 5a30441359b1bda3e674d5517ef44665ee64763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 52/64] fix: accept the semicolon at the end of queries

---
 treeno/grammar/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index 53692bc..17dab4c 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -55,7 +55,7 @@ class AST:
         token = parser.getCurrentToken()
         # A single statement may be terminated with a semicolon.
         if token.text == ";":
-            parser.consume()
+            parser.getInputStream().consume()
             token = parser.getCurrentToken()
         if token.type != Token.EOF:
             raise SqlSyntaxError(
-- 
2.43.0


From a2b5bc3cba5d53cbcf3c20a30d03402ff1a38132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 53/64] fix: infer the types of VALUES, TABLE and set
 operations column by column

---
 treeno/relation.py | 83 ++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 0830576..4b84a75 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -60,7 +60,16 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Literal, Value, value_attr, wrap_literal
+from treeno.expression import (
+    AliasedStar,
+    Literal,
+    RowConstructor,
+    Star,
+    Value,
+    common_value_type,
+    value_attr,
+    wrap_literal,
+)
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -292,33 +301,10 @@ class SetQuery(Query, ABC):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        left_type, right_type = (
-            self.left_query.data_type,
-            self.right_query.data_type,
+        # The type of a query with more than 1 column is a ROW, whose types are coerced one by one.
+        return common_supertype(
+            self.left_query.data_type, self.right_query.data_type
         )
-        if left_type == unknown() or right_type == unknown():
-            return unknown()
-
-        # The subqueries not being row-like is possible for a table/subquery that only has 1 column
-        left_row_like = left_type.type_name == type_consts.ROW
-        right_row_like = right_type.type_name == type_consts.ROW
-        assert (
-            left_row_like == right_row_like
-        ), f"Either both types are ROWs or neither are. Found {left_type} and {right_type}"
-
-        if not left_row_like:
-            return common_supertype(left_type, right_type)
-
-        # .. todo:: Redundant after previous assertion
-        assert (
-            left_row_like and right_row_like
-        ), "Input data types for query set operations must be ROW"
-        dtypes = []
-        for t1, t2 in zip(
-            left_type.parameters["dtypes"], right_type.parameters["dtypes"]
-        ):
-            dtypes.append(common_supertype(t1, t2))
-        return row(dtypes=dtypes)
 
     def _to_string(self, set_type: str, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
@@ -384,6 +370,7 @@ class IntersectQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"INTERSECT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("INTERSECT", opts)
@@ -410,6 +397,7 @@ class ExceptQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"EXCEPT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("EXCEPT", opts)
@@ -485,10 +473,10 @@ class SelectQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        # Special case: If the select clause only has one output element, it's not a row.
-        if len(self.select) == 1:
-            return self.select[0].data_type
-        return row(dtypes=[val.data_type for val in self.select])
+        # There's no telling how many columns a star stands for.
+        if any(isinstance(val, (Star, AliasedStar)) for val in self.select):
+            return unknown()
+        return query_data_type([val.data_type for val in self.select])
 
     def resolve(self, existing_schema: Schema) -> Schema:
         from treeno.datatypes.resolve import resolve_fields
@@ -650,9 +638,9 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        if self.table._column_schema == Schema.empty_schema():
-            return row(dtypes=[f.data_type for f in self.table._column_schema])
-        return unknown()
+        return query_data_type(
+            [field.data_type for field in self.table._column_schema.fields]
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -714,11 +702,18 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
-        for val in self.exprs:
-            if self.data_type == unknown():
-                self.data_type = val.data_type
-            else:
-                self.data_type = common_supertype(self.data_type, val.data_type)
+        self.data_type = query_data_type(self._column_types())
+
+    def _column_types(self) -> List[DataType]:
+        """Each column has the type which all of its values can be coerced to."""
+        if all(isinstance(val, RowConstructor) for val in self.exprs):
+            rows = [val.values for val in self.exprs]
+            if len({len(values) for values in rows}) == 1:
+                return [common_value_type(list(column)) for column in zip(*rows)]
+        dtype = common_value_type(self.exprs)
+        if dtype.type_name == type_consts.ROW:
+            return dtype.parameters["dtypes"]
+        return [dtype]
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -1157,6 +1152,16 @@ class TableSample(Relation):
         visitor.visit(self.percentage)
 
 
+def query_data_type(dtypes: List[DataType]) -> DataType:
+    """The type of a query whose columns have the given types, which is unknown if the columns are."""
+    if not dtypes:
+        return unknown()
+    # Special case: If the query only has one output element, it's not a row.
+    if len(dtypes) == 1:
+        return dtypes[0]
+    return row(dtypes=dtypes)
+
+
 def relation_string(
     relation: Relation,
     opts: PrintOptions,
-- 
2.43.0


From 15df44a9013e257d3600fd4edc9f8099977d536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 54/64] fix: don't guess the type of an average of unknown
 values

---
 treeno/functions/aggregate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 35d7737..49db1cf 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -165,7 +165,11 @@ class Avg(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "AVG"
 
     def __attrs_post_init__(self) -> None:
-        if self.value.data_type.type_name == type_consts.INTERVAL:
+        # NOTE: The type stays unknown if the type of the averaged values is.
+        if self.value.data_type.type_name in (
+            type_consts.INTERVAL,
+            type_consts.UNKNOWN,
+        ):
             self.data_type = self.value.data_type
         else:
             self.data_type = double()
-- 
2.43.0


From 415a4d35d95dc46a6a5cbfe8feff7c9cdb4847c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 55/64] fix: lambdas with a subquery in their body can be built

---
 treeno/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 710e554..35484bc 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -384,6 +384,8 @@ class Lambda(Expression):
     def from_generic_expr(
         cls, inputs: List[Variable], expr: GenericValue
     ) -> "Lambda":
+        from treeno.relation import Query
+
         input_set = set(input.name for input in inputs)
 
         def _from_expr(node: Any) -> Any:
@@ -396,7 +398,8 @@ class Lambda(Expression):
                     node,
                     iter((k, _from_expr(child)) for k, child in node.items()),
                 )
-            if not isinstance(node, Sql):
+            # A subquery has columns of its own
+            if not isinstance(node, Sql) or isinstance(node, Query):
                 return node
             if (
                 isinstance(node, Field)
-- 
2.43.0


From 75d638b421d5dfabc9918649c76a46436343337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 56/64] fix: resolve columns by the scoping rules of SQL

---
 treeno/datatypes/resolve.py | 171 ++++++++++----
 treeno/relation.py          | 441 ++++++++++++++++++++++++++----------
 2 files changed, 442 insertions(+), 170 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 5419d9a..7cf9bcf 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -1,71 +1,139 @@
 import copy
-from typing import Any, Dict
+from typing import Any, Dict, List, Optional, Union
 
 import attr
 
 from treeno.base import Sql
-from treeno.datatypes.builder import row
+from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.types import DataType
-from treeno.expression import Field, Star
-from treeno.relation import Query, Schema
+from treeno.expression import AliasedStar, Field, Star
+from treeno.relation import (
+    Query,
+    Relation,
+    Schema,
+    SchemaField,
+    rename_columns,
+)
 from treeno.util import children, is_dictlike, is_listlike
 
 
-def _make_field(field: Field, schema: Schema) -> Field:
-    # If field's table is a whole subquery, it would belong solely
-    # to that subquery and not the relation we're dealing with.
-    if isinstance(field.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
-
-    matching_fields = []
-    for f in schema.fields:
-        if (
-            f.name == field.name
-            and field.table is None
-            or field.table in schema.relation_ids
-        ):
-            matching_fields.append(f)
+def _same_name(name: Optional[str], other: Optional[str]) -> bool:
+    if name is None or other is None:
+        return False
+    return name.lower() == other.lower()
+
+
+def _has_relation(schema: Schema, name: str) -> bool:
+    return any(_same_name(name, relation) for relation in schema.relation_ids)
 
+
+def _find_field(field: Field, schema: Schema) -> Optional[SchemaField]:
+    """Looks for the column a field refers to, starting from the innermost query."""
+    scope: Optional[Schema] = schema
+    while scope is not None:
+        matching_fields = [
+            f
+            for f in scope.fields
+            if _same_name(f.name, field.name)
+            and (
+                field.table is None
+                or _same_name(f.source.identifier(), field.table)
+            )
+        ]
+        if len(matching_fields) == 1:
+            return matching_fields[0]
+        # In the case of there being two identical names, we can't tell which one it is
+        if matching_fields:
+            return None
+        if field.table is not None:
+            # The relation is there, but its column isn't known
+            if _has_relation(scope, field.table):
+                return None
+            # It's not a relation, but a column with a row in it
+            if any(_same_name(f.name, field.table) for f in scope.fields):
+                return None
+        if scope.incomplete:
+            return None
+        scope = scope.outer
+    return None
+
+
+def _make_field(field: Field, schema: Schema) -> Field:
+    found = _find_field(field, schema)
     # If the schema didn't include the field, it should have an unknown type
-    if not len(matching_fields):
+    if found is None:
         return copy.deepcopy(field)
+    return Field(
+        name=field.name,
+        table=field.table,
+        data_type=copy.deepcopy(found.data_type),
+    )
+
+
+def _columns_of_star(star: Star, schema: Schema) -> Optional[List[SchemaField]]:
+    """The columns which a star stands for, or None if they're not known."""
+    if star.table is None:
+        return schema.fields or None
+    if not isinstance(star.table, str):
+        return None
+    scope: Optional[Schema] = schema
+    while scope is not None:
+        if _has_relation(scope, star.table):
+            fields = [
+                f
+                for f in scope.fields
+                if _same_name(f.source.identifier(), star.table)
+            ]
+            return fields or None
+        scope = scope.outer
+    return None
 
-    # In the case of there being two identical names, we need there to be only 1 unique field for it.
-    if field.table is None:
-        assert (
-            len(matching_fields) == 1
-        ), f"Expected 1 global field matching name {field.name}, got {len(matching_fields)}"
-        dtype = matching_fields[0].data_type
-    else:
-        # Find the right table by filtering 1 more time
-        filtered_fields = [
-            f for f in matching_fields if f.source.identifier() == field.table
-        ]
-        assert (
-            len(filtered_fields) == 1
-        ), f"Two ambiguous fields with same name and table found {schema}"
-        dtype = filtered_fields[0].data_type
-    return Field(name=field.name, table=field.table, data_type=dtype)
+
+def star_fields(
+    star: Union[Star, AliasedStar], schema: Schema, source: Relation
+) -> List[SchemaField]:
+    """The output columns of a relation which come from a star in it."""
+    aliases = None
+    if isinstance(star, AliasedStar):
+        star, aliases = star.star, star.aliases
+    fields = _columns_of_star(star, schema)
+    if fields is None:
+        fields = [SchemaField(None, source, unknown(), covers_many=True)]
+    fields = [attr.evolve(f, source=source) for f in fields]
+    return rename_columns(fields, aliases) if aliases else fields
 
 
 def _make_star(star: Star, schema: Schema) -> Star:
-    if isinstance(star.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
-    matching_fields = schema.fields
-    if star.table is not None:
-        matching_fields = [
-            f for f in matching_fields if f.source.identifier() == star.table
-        ]
-    dtype = row(dtypes=[f.data_type for f in matching_fields])
+    fields = _columns_of_star(star, schema)
+    if fields is None or any(f.covers_many for f in fields):
+        return copy.deepcopy(star)
+    dtype = row(dtypes=[copy.deepcopy(f.data_type) for f in fields])
     return Star(table=star.table, data_type=dtype)
 
 
-def resolve_fields(node: Any, schema: Schema) -> Any:
+def resolve_fields(
+    node: Any, schema: Schema, namespace: Optional[Schema] = None
+) -> Any:
+    """Imputes the types of the fields in an expression.
+
+    Args:
+        node: The expression, or a container of them. It's not modified.
+        schema: The columns which the expression can refer to.
+        namespace: The relations which the subqueries in the expression can select from. By default these are the ones
+            in the schema.
+    Returns:
+        A copy of the expression
+    """
+    if namespace is None:
+        namespace = schema
     if is_listlike(node):
-        return type(node)(resolve_fields(child, schema) for child in node)
+        return type(node)(
+            resolve_fields(child, schema, namespace) for child in node
+        )
     if is_dictlike(node):
         return type(node)(
-            (key, resolve_fields(child, schema)) for key, child in node.items()
+            (key, resolve_fields(child, schema, namespace))
+            for key, child in node.items()
         )
     # Everything that includes Sql members must be Sql itself, even if it doesn't have a non-throwing sql() function
     # (see JoinConfig for example)
@@ -74,11 +142,16 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     # We don't want to modify data types
     if isinstance(node, DataType):
         return copy.deepcopy(node)
-    if isinstance(node, Field):
+    # A subquery has its own namespace, on top of the columns it's correlated with
+    if isinstance(node, Query):
+        query = copy.deepcopy(node)
+        query.resolve(attr.evolve(namespace, outer=schema, lateral=None))
+        return query
+    if isinstance(node, Field) and not isinstance(node.table, Sql):
         return _make_field(node, schema)
-    if isinstance(node, Star):
+    if isinstance(node, Star) and not isinstance(node.table, Sql):
         return _make_star(node, schema)
     changes: Dict[str, Any] = {}
     for k, v in children(node).items():
-        changes[k] = resolve_fields(v, schema)
+        changes[k] = resolve_fields(v, schema, namespace)
     return attr.evolve(node, **changes)
diff --git a/treeno/relation.py b/treeno/relation.py
index 4b84a75..327ec7f 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -45,7 +45,7 @@ import copy
 from abc import ABC, abstractmethod
 from decimal import Decimal
 from enum import Enum
-from typing import Dict, List, Optional, Set, Type
+from typing import Dict, List, Optional, Set, Tuple, Type
 
 import attr
 
@@ -57,7 +57,7 @@ from treeno.base import (
     Sql,
 )
 from treeno.datatypes import types as type_consts
-from treeno.datatypes.builder import row, unknown
+from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
 from treeno.expression import (
@@ -134,11 +134,16 @@ class SchemaField:
         source: The source of which the field came from. Important to disambiguate :class:`SchemaField` with same
             names across different sources
         data_type: The data type of the field
+        covers_many: Whether the field stands for any number of columns we know nothing about, i.e. the columns of a
+            table without a schema in a SELECT * query.
     """
 
     name: Optional[str] = attr.ib()
     source: Relation = attr.ib()
     data_type: DataType = attr.ib()
+    covers_many: bool = attr.ib(
+        default=False, kw_only=True, eq=False, repr=False
+    )
 
 
 @attr.s
@@ -155,15 +160,47 @@ class Schema:
         Relation_ids: A set of relations used to denote the existence of a relation included in the schema.
             This set can contain relations that contains no fields - e.g. for a table with an undefined schema,
             the fields would be empty but the relation would still be in the set
+        incomplete: Whether there can be more columns than the ones in fields.
+        outer: The columns of the enclosing query, which a correlated subquery can reference.
+        lateral: The columns which UNNEST and LATERAL can reference at this point of the FROM clause.
+        ctes: The schemas of the named queries in scope. They take precedence over tables of the same name.
     """
 
     fields: List[SchemaField] = attr.ib()
     relation_ids: Set[str] = attr.ib()
+    incomplete: bool = attr.ib(
+        default=False, kw_only=True, eq=False, repr=False
+    )
+    outer: Optional["Schema"] = attr.ib(
+        default=None, kw_only=True, eq=False, repr=False
+    )
+    lateral: Optional["Schema"] = attr.ib(
+        default=None, kw_only=True, eq=False, repr=False
+    )
+    ctes: Dict[str, "Schema"] = attr.ib(
+        factory=dict, kw_only=True, eq=False, repr=False
+    )
 
     @classmethod
     def empty_schema(cls) -> "Schema":
         return cls(fields=[], relation_ids=set())
 
+    @classmethod
+    def of_columns(
+        cls, fields: List[SchemaField], relation_ids: Optional[Set[str]] = None
+    ) -> "Schema":
+        return cls(
+            fields=fields,
+            relation_ids=relation_ids or set(),
+            incomplete=any(f.covers_many for f in fields),
+        )
+
+    def columns(self, source: Relation) -> List[SchemaField]:
+        """The fields as they're seen from a relation which outputs them, with a placeholder if they're all unknown."""
+        if self.incomplete and not self.fields:
+            return [SchemaField(None, source, unknown(), covers_many=True)]
+        return [attr.evolve(f, source=source) for f in self.fields]
+
     def merge(self, another_schema: "Schema") -> "Schema":
         """Merge two schemas together to create a new schema
 
@@ -182,13 +219,18 @@ class Schema:
         """
         # .. todo:: Should this be deep copies? I don't see a point in trying to deepcopy relations since they're expensive.
         fields = copy.copy(self.fields)
-        relation_ids = copy.copy(self.relation_ids)
-        # .. todo:: This is also pretty slow, O(N^2)
+        # NOTE: Different columns can look the same, so only the very same fields are left out.
+        present = {id(f) for f in fields}
         for f in another_schema.fields:
-            if f not in fields:
+            if id(f) not in present:
                 fields.append(f)
-        relation_ids |= another_schema.relation_ids
-        return Schema(fields, relation_ids)
+        return attr.evolve(
+            self,
+            fields=fields,
+            relation_ids=self.relation_ids | another_schema.relation_ids,
+            incomplete=self.incomplete or another_schema.incomplete,
+            ctes={**self.ctes, **another_schema.ctes},
+        )
 
 
 @value_attr
@@ -224,8 +266,8 @@ class Query(Relation, Value, ABC):
             )
         }
 
-    def _resolve_with(self) -> Schema:
-        """Resolves the queries in WITH statement with context that carries over.
+    def _resolve_with(self, existing_schema: Schema) -> Schema:
+        """Resolves the queries in WITH statement with context that carries over, and adds them to the namespace.
 
         It's important to note that CTE's can actually refer to previously defined CTE's using FROM:
 
@@ -239,11 +281,15 @@ class Query(Relation, Value, ABC):
 
         In the above example, ``b`` is able to refer to ``a`` because it's defined before in the WITH sequence.
         """
-        merging_schema = Schema.empty_schema()
+        # A subquery doesn't see the relations it's joined with.
+        namespace = attr.evolve(existing_schema, lateral=None)
         for w in self.with_:
-            new_schema = w.resolve(merging_schema)
-            merging_schema = merging_schema.merge(new_schema)
-        return merging_schema
+            named_schema = w.resolve(namespace)
+            namespace = attr.evolve(
+                namespace,
+                ctes={**namespace.ctes, w.alias.lower(): named_schema},
+            )
+        return namespace
 
     def _constraint_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of a couple output-filtering constraints to the query.
@@ -328,20 +374,26 @@ class SetQuery(Query, ABC):
         )
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        left_schema = self.left_query.resolve(
-            maybe_prune_schema(self.left_query, existing_schema)
-        )
-        self.right_query.resolve(
-            maybe_prune_schema(self.right_query, existing_schema)
-        )
+        namespace = self._resolve_with(existing_schema)
+        left_schema = self.left_query.resolve(namespace)
+        right_schema = self.right_query.resolve(namespace)
         # The column names and such are always taken from the left schema.
-        schema_fields = []
-        for schema_field in left_schema.fields:
-            # Basically take the schema that belonged to left schema and re-assign it to this set query
-            schema_fields.append(
-                SchemaField(schema_field.name, self, schema_field.data_type)
+        # Basically take the schema that belonged to left schema and re-assign it to this set query
+        schema_fields = left_schema.columns(self)
+        aligned = not (left_schema.incomplete or right_schema.incomplete)
+        aligned = aligned and len(schema_fields) == len(right_schema.fields)
+        for idx, schema_field in enumerate(schema_fields):
+            # Every column has the type which the columns of both queries can be coerced to.
+            schema_field.data_type = (
+                common_column_type(
+                    schema_field.data_type, right_schema.fields[idx].data_type
+                )
+                if aligned
+                else unknown()
             )
-        return Schema(schema_fields, relation_ids=left_schema.relation_ids)
+        schema = Schema.of_columns(schema_fields)
+        self.data_type = schema_data_type(schema)
+        return schema
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
@@ -479,28 +531,35 @@ class SelectQuery(Query):
         return query_data_type([val.data_type for val in self.select])
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        from treeno.datatypes.resolve import resolve_fields
+        from treeno.datatypes.resolve import resolve_fields, star_fields
 
-        # Pass in existing relations from CTE into from_ as long as from_ is not in its own namespace i.e. a subquery.
+        namespace = self._resolve_with(existing_schema)
+        scope = Schema.empty_schema()
         if self.from_ is not None:
-            existing_schema = existing_schema.merge(self._resolve_with())
-            schema = self.from_.resolve(
-                maybe_prune_schema(self.from_, existing_schema)
-            )
-            self.select = [resolve_fields(val, schema) for val in self.select]
-            self.data_type = self._compute_data_type()
+            # The first relation has nothing to its left.
+            nothing = attr.evolve(scope, outer=namespace.outer)
+            scope = self.from_.resolve(attr.evolve(namespace, lateral=nothing))
+        scope = attr.evolve(scope, outer=namespace.outer)
+        self.select = [
+            resolve_fields(val, scope, namespace) for val in self.select
+        ]
 
+        # All schema fields have the source to the current object
         schema_fields = []
         for value in self.select:
-            # All schema fields have the source to the current object
-            schema_fields.append(
-                SchemaField(
-                    name=value.identifier(),
-                    source=self,
-                    data_type=value.data_type,
+            if isinstance(value, (Star, AliasedStar)):
+                schema_fields.extend(star_fields(value, scope, self))
+            else:
+                schema_fields.append(
+                    SchemaField(
+                        name=value.identifier(),
+                        source=self,
+                        data_type=value.data_type,
+                    )
                 )
-            )
-        return Schema(schema_fields, relation_ids=set())
+        schema = Schema.of_columns(schema_fields)
+        self.data_type = schema_data_type(schema)
+        return schema
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -583,34 +642,73 @@ class Table(Relation):
     catalog: Optional[str] = attr.ib(default=None)
 
     # The table object will remember its own column_schema here.
-    _column_schema: Schema = attr.ib(factory=Schema.empty_schema)
+    _column_schema: Schema = attr.ib(
+        factory=Schema.empty_schema, eq=False, repr=False
+    )
 
     def __attrs_post_init__(self) -> None:
         if self.catalog:
             assert (
                 self.schema
             ), "If a catalog is specified, a schema must be specified as well"
-        if self.name not in self._column_schema.relation_ids:
-            self._column_schema.relation_ids.add(self.name)
+        self._column_schema = self._own_schema(self._column_schema.fields)
 
     def sql(self, opts: PrintOptions) -> str:
         return chain_identifiers(self.catalog, self.schema, self.name)
 
+    def _own_schema(self, fields: List[SchemaField]) -> Schema:
+        return Schema(
+            fields=[attr.evolve(f, source=self) for f in fields],
+            relation_ids={self.name},
+            # There's no table without columns, so we don't know them.
+            incomplete=not fields or any(f.covers_many for f in fields),
+        )
+
     def resolve(self, existing_schema: Schema) -> Schema:
-        # If this schema isn't defined
-        if self.name not in existing_schema.relation_ids:
-            return self._column_schema
-        # Otherwise, the schema IS defined e.g. by a previous CTE
+        # The schema could be defined by a previous CTE
+        if self.schema is None and self.name.lower() in existing_schema.ctes:
+            named_schema = existing_schema.ctes[self.name.lower()]
+            return self._own_schema(named_schema.fields)
         schema_fields = [
+            f for f in existing_schema.fields if self._is_same_table(f.source)
+        ]
+        exact_fields = [
             f
-            for f in existing_schema.fields
-            if f.source.identifier() == self.identifier()
+            for f in schema_fields
+            if not isinstance(f.source, Table)
+            or self._qualifiers() == f.source._qualifiers()
         ]
-        self._column_schema = Schema(
-            schema_fields, relation_ids={self.identifier()}
-        )
+        schema_fields = exact_fields or schema_fields
+        # If there are tables of the same name in several schemas, we can't tell which one it is
+        qualifiers = {
+            f.source._qualifiers()
+            for f in schema_fields
+            if isinstance(f.source, Table)
+        }
+        if len(qualifiers) > 1:
+            return self._own_schema([])
+        if schema_fields:
+            self._column_schema = self._own_schema(schema_fields)
         return self._column_schema
 
+    def _qualifiers(self) -> Tuple[Optional[str], Optional[str]]:
+        return (
+            self.catalog and self.catalog.lower(),
+            self.schema and self.schema.lower(),
+        )
+
+    def _is_same_table(self, source: Relation) -> bool:
+        identifier = source.identifier()
+        if identifier is None or identifier.lower() != self.name.lower():
+            return False
+        if not isinstance(source, Table):
+            return self.schema is None
+        # A part which isn't given is the one of the current session, which can be anything.
+        return all(
+            mine is None or theirs is None or mine == theirs
+            for mine, theirs in zip(self._qualifiers(), source._qualifiers())
+        )
+
     def identifier(self) -> Optional[str]:
         return self.name
 
@@ -638,9 +736,7 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        return query_data_type(
-            [field.data_type for field in self.table._column_schema.fields]
-        )
+        return schema_data_type(self.table._column_schema)
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -652,10 +748,9 @@ class TableQuery(Query):
     def resolve(self, existing_schema: Schema) -> Schema:
         # We not only need to take the existing schema, but we also need to shadow some fields with the
         # local WITH clause
-        with_schema = self._resolve_with()
-        table_schema = self.table.resolve(with_schema)
-        self.data_type = self._compute_data_type()
-        return table_schema
+        table_schema = self.table.resolve(self._resolve_with(existing_schema))
+        self.data_type = schema_data_type(table_schema)
+        return Schema.of_columns(table_schema.columns(self))
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
@@ -725,9 +820,19 @@ class ValuesQuery(Query):
         return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # ..todo:: Does ValuesQuery dereference anything by itself?
+        from treeno.datatypes.resolve import resolve_fields
+
+        namespace = self._resolve_with(existing_schema)
+        # There's no base, but the values of a subquery can refer to the enclosing query.
+        scope = attr.evolve(Schema.empty_schema(), outer=namespace.outer)
+        self.exprs = [
+            resolve_fields(val, scope, namespace) for val in self.exprs
+        ]
+        dtypes = self._column_types()
+        self.data_type = query_data_type(dtypes)
         return Schema(
-            [SchemaField(None, self, val.data_type) for val in self.exprs]
+            [SchemaField(None, self, dtype) for dtype in dtypes],
+            relation_ids=set(),
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -751,8 +856,8 @@ class AliasedRelation(Relation):
     >>> aliased_schema.relation_ids
     {'query'}
 
-    .. todo:: Currently we don't check to see whether the field length is equal to our column_aliases parameter. Should
-        we check this or let it fail later?
+    .. todo:: Currently we don't check to see whether the field length is equal to our column_aliases parameter. If it
+        isn't, the types of the columns are unknown.
 
     Attributes:
         relation: A relation to alias over.
@@ -791,20 +896,13 @@ class AliasedRelation(Relation):
         return alias_str
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        relation_schema = self.relation.resolve(
-            maybe_prune_schema(self.relation, existing_schema)
+        relation_schema = self.relation.resolve(existing_schema)
+        schema_fields = relation_schema.columns(self)
+        if self.column_aliases:
+            schema_fields = rename_columns(schema_fields, self.column_aliases)
+        return Schema.of_columns(
+            schema_fields, relation_ids={self.identifier()}
         )
-        new_schema_fields = []
-        for idx, schema_field in enumerate(relation_schema.fields):
-            field_name = (
-                self.column_aliases[idx]
-                if self.column_aliases
-                else schema_field.name
-            )
-            new_schema_fields.append(
-                SchemaField(field_name, self, schema_field.data_type)
-            )
-        return Schema(new_schema_fields, relation_ids={self.identifier()})
 
     def identifier(self) -> Optional[str]:
         return self.alias
@@ -988,18 +1086,63 @@ class Join(Relation):
         return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        pruned_left_arg = maybe_prune_schema(
-            self.left_relation, existing_schema
+        left_schema = self.left_relation.resolve(existing_schema)
+        if _is_lateral(self.right_relation):
+            # Pass in the namespace of the first relation to the second. This is important for sql statemnts like
+            # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first
+            existing_schema = attr.evolve(
+                existing_schema,
+                lateral=attr.evolve(left_schema, outer=existing_schema.outer),
+            )
+        right_schema = self.right_relation.resolve(existing_schema)
+        return Schema.of_columns(
+            self._join_columns(left_schema, right_schema),
+            relation_ids=left_schema.relation_ids | right_schema.relation_ids,
         )
-        left_schema = self.left_relation.resolve(pruned_left_arg)
-        existing_schema = existing_schema.merge(left_schema)
-        # Pass in the namespace of the first relation to the second. This is important for sql statemnts like
-        # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first
-        pruned_right_arg = maybe_prune_schema(
-            self.right_relation, existing_schema
+
+    def _join_columns(
+        self, left_schema: Schema, right_schema: Schema
+    ) -> List[SchemaField]:
+        left_fields, right_fields = (
+            # Without any known columns there's only a placeholder.
+            schema.fields or schema.columns(relation)
+            for schema, relation in [
+                (left_schema, self.left_relation),
+                (right_schema, self.right_relation),
+            ]
         )
-        right_schema = self.right_relation.resolve(pruned_right_arg)
-        return left_schema.merge(right_schema)
+        if self.config.natural:
+            if left_schema.incomplete or right_schema.incomplete:
+                # Any column could be in both relations.
+                return [SchemaField(None, self, unknown(), covers_many=True)]
+            names = [
+                f.name
+                for f in left_fields
+                if f.name is not None and _find_columns(right_fields, f.name)
+            ]
+        elif isinstance(self.config.criteria, JoinUsingCriteria):
+            names = self.config.criteria.column_names
+        else:
+            names = []
+        # The columns which both relations have in common come first, once, and belong to neither of the relations.
+        merged_fields = []
+        for name in names:
+            matches = [
+                _find_columns(fields, name)
+                for fields in (left_fields, right_fields)
+            ]
+            dtype = unknown()
+            if all(len(match) == 1 for match in matches):
+                (left_field,), (right_field,) = matches
+                dtype = common_column_type(
+                    left_field.data_type, right_field.data_type
+                )
+            merged_fields.append(SchemaField(name, self, dtype))
+        return merged_fields + [
+            f
+            for f in left_fields + right_fields
+            if not any(_find_columns([f], name) for name in names)
+        ]
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_relation)
@@ -1033,13 +1176,21 @@ class Unnest(Relation):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        dtypes = []
+        return row(dtypes=[field.data_type for field in self._fields()])
+
+    def _fields(self) -> List[SchemaField]:
+        fields = []
         for val in self.arrays:
-            if val.data_type.type_name != type_consts.ARRAY:
-                dtypes.append(unknown())
+            dtypes = unnested_types(val.data_type)
+            if dtypes is None:
+                fields.append(
+                    SchemaField(None, self, unknown(), covers_many=True)
+                )
             else:
-                dtypes.append(val.data_type.parameters["dtype"])
-        return row(dtypes=dtypes)
+                fields.extend(SchemaField(None, self, t) for t in dtypes)
+        if self.with_ordinality:
+            fields.append(SchemaField(None, self, bigint()))
+        return fields
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
@@ -1052,18 +1203,13 @@ class Unnest(Relation):
     def resolve(self, existing_schema: Schema) -> Schema:
         from treeno.datatypes.resolve import resolve_fields
 
-        # There's no base
+        # There's no base, other than the relations joined so far
+        scope = existing_schema.lateral or existing_schema
         self.arrays = [
-            resolve_fields(arr, existing_schema) for arr in self.arrays
+            resolve_fields(arr, scope, existing_schema) for arr in self.arrays
         ]
         self.data_type = self._compute_data_type()
-        return Schema(
-            fields=[
-                SchemaField(name=None, source=self, data_type=dtype)
-                for dtype in self.data_type.parameters["dtypes"]
-            ],
-            relation_ids=set(),
-        )
+        return Schema.of_columns(self._fields())
 
     def visit(self, visitor: GenericVisitor) -> None:
         for arr in self.arrays:
@@ -1084,8 +1230,9 @@ class Lateral(Relation):
         return f"LATERAL({self.subquery.sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We explicitly don't maybe_prune_schema here, since lateral needs to explicitly pass it down
-        return self.subquery.resolve(existing_schema)
+        # The relations joined so far are an enclosing scope for the subquery
+        scope = existing_schema.lateral or existing_schema
+        return self.subquery.resolve(attr.evolve(existing_schema, outer=scope))
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.subquery)
@@ -1144,7 +1291,7 @@ class TableSample(Relation):
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage.nested_sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
+        # NOTE: Table sample should not affect the namespace scope
         return self.relation.resolve(existing_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1162,6 +1309,75 @@ def query_data_type(dtypes: List[DataType]) -> DataType:
     return row(dtypes=dtypes)
 
 
+def schema_data_type(schema: Schema) -> DataType:
+    """The type of a query with the given output schema."""
+    if schema.incomplete:
+        return unknown()
+    return query_data_type([f.data_type for f in schema.fields])
+
+
+def common_column_type(dtype1: DataType, dtype2: DataType) -> DataType:
+    """The type of a column which combines two columns, which is unknown if either of them is."""
+    if unknown() in (dtype1, dtype2):
+        return unknown()
+    try:
+        return common_supertype(dtype1, dtype2)
+    except TypeError:
+        return unknown()
+
+
+def unnested_types(dtype: DataType) -> Optional[List[DataType]]:
+    """The types of the columns a value of the given type is unnested to, or None if we don't know how many there are."""
+    if dtype.type_name == type_consts.MAP:
+        return [dtype.parameters["from_dtype"], dtype.parameters["to_dtype"]]
+    if dtype.type_name != type_consts.ARRAY:
+        return None
+    element_type = dtype.parameters["dtype"]
+    if element_type == unknown():
+        return None
+    # Every field of a row gets its own column
+    if element_type.type_name == type_consts.ROW:
+        return element_type.parameters["dtypes"]
+    return [element_type]
+
+
+def rename_columns(
+    fields: List[SchemaField], names: List[str]
+) -> List[SchemaField]:
+    """Gives new names to all of the columns. If some of the columns aren't known, the names tell how many there are."""
+    source = fields[0].source if fields else None
+    placeholders = [i for i, f in enumerate(fields) if f.covers_many]
+    if placeholders:
+        prefix = fields[: placeholders[0]]
+        suffix = fields[placeholders[-1] + 1 :]
+    else:
+        prefix, suffix = fields, []
+    num_unknown = len(names) - len(prefix) - len(suffix)
+    if num_unknown < 0 or (num_unknown and not placeholders):
+        # There's a different number of columns, so they can't be told apart.
+        prefix, suffix, num_unknown = [], [], len(names)
+    dtypes = [f.data_type for f in prefix]
+    dtypes += [unknown()] * num_unknown
+    dtypes += [f.data_type for f in suffix]
+    return [
+        SchemaField(name, source, dtype) for name, dtype in zip(names, dtypes)
+    ]
+
+
+def _find_columns(fields: List[SchemaField], name: str) -> List[SchemaField]:
+    return [
+        f
+        for f in fields
+        if f.name is not None and f.name.lower() == name.lower()
+    ]
+
+
+def _is_lateral(relation: Relation) -> bool:
+    if isinstance(relation, AliasedRelation):
+        return _is_lateral(relation.relation)
+    return isinstance(relation, (Unnest, Lateral))
+
+
 def relation_string(
     relation: Relation,
     opts: PrintOptions,
@@ -1178,20 +1394,3 @@ def relation_string(
         return parenthesize(relation_str)
     else:
         return relation_str
-
-
-def maybe_prune_schema(relation: Relation, existing_schema: Schema) -> Schema:
-    """Prune the schema depending on whether the relation will enter a new namespace
-
-    Some relations don't want extra schema information to be passed through because it's in its own parenthesized
-    expression which is not aware of the outer namespace.
-
-    Args:
-        relation: The relation to enter into with the given schema
-        existing_schema: The schema to pass into the relation
-    Returns:
-        Either an empty :class:`Schema` or the original :class:`Schema`.
-    """
-    if isinstance(relation, Query):
-        return Schema.empty_schema()
-    return existing_schema
-- 
2.43.0


From cd61bb9001e0fb75b5d20153518680b0f4e3ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 57/64] fix: schema command names columns without a name <none>

---
 treeno/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..e84e8e8 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -123,7 +123,7 @@ def schema(sql: str) -> None:
     for idx, field in enumerate(schema.fields):
         field_string = (
             typer.style("<none>", fg=typer.colors.RED, bold=True)
-            if field is None
+            if field.name is None
             else field.name
         )
         dtype_string = (
-- 
2.43.0


From 065524048d7434ca05cc636c395f0f4bf2aa0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 58/64] fix: antlr-tree command accepts parentheses and quotes

---
 treeno/grammar/parse.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index 17dab4c..4d5496e 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -1,4 +1,5 @@
 from io import StringIO
+from typing import Union
 
 import nltk
 from antlr4 import CommonTokenStream
@@ -6,6 +7,7 @@ from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
 from antlr4.Token import Token
+from antlr4.tree.Tree import Tree
 from antlr4.tree.Trees import Trees
 
 try:
@@ -71,9 +73,14 @@ class AST:
 
 
 def tree(ast: AST, node: ParserRuleContext) -> str:
-    parenthetical_tree = nltk.Tree.fromstring(
-        Trees.toStringTree(node, None, ast.parser())
-    )
+    parser = ast.parser()
+
+    def to_tree(child: Tree) -> Union[nltk.Tree, str]:
+        text = Trees.getNodeText(child, None, parser)
+        if not isinstance(child, ParserRuleContext):
+            return text
+        return nltk.Tree(text, [to_tree(c) for c in child.getChildren()])
+
     sio = StringIO()
-    parenthetical_tree.pretty_print(stream=sio)
+    to_tree(node).pretty_print(stream=sio)
     return sio.getvalue()
-- 
2.43.0


From ec0439873fc356ac3d7e6227c6e3313d493bb1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 59/64] fix: tree command draws types and dictionaries

---
 treeno/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index e84e8e8..4c4316d 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -83,7 +83,7 @@ def treeify(node: Any) -> Any:
     if is_dictlike(node):
         return Tree(
             f"<{type(node).__name__}>",
-            [Tree(k, treeify(v)) for k, v in node.items()],
+            [Tree(k, [treeify(v)]) for k, v in node.items()],
         )
     if not isinstance(node, Sql):
         return str(node)
@@ -102,6 +102,10 @@ def treeify(node: Any) -> Any:
 def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     sql_obj = get_sql_object(construct_type, sql)
     tree = treeify(sql_obj)
+    # Data types don't have any branches
+    if not isinstance(tree, Tree):
+        typer.echo(tree)
+        return
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
-- 
2.43.0


From 746b2ee6a6bc8e86612b572fb523de03ed8dc825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 60/64] fix: reject identifiers without any characters

---
 treeno/builder/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f7a2cbc..0cac507 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1030,7 +1030,10 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return unquote(ctx.getText())
+        identifier = unquote(ctx.getText())
+        if not identifier:
+            raise ValueError("Zero-length delimited identifier not allowed")
+        return identifier
 
     @overrides
     def visitUnquotedIdentifier(
-- 
2.43.0


From a55daf0557ac5e5a84bdd9696e00007ea51f0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 61/64] fix: reject calls of keywords as functions

---
 treeno/builder/convert.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 0cac507..ce03b60 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -61,6 +61,10 @@ from treeno.functions.aggregate import (
 )
 from treeno.functions.base import NAMES_TO_FUNCTIONS, Function
 from treeno.functions.common import Concatenate
+from treeno.functions.datetime import (
+    CurrentDate,
+    ParametrizedDateTimeFunction,
+)
 from treeno.functions.session import (
     CurrentCatalog,
     CurrentPath,
@@ -108,6 +112,15 @@ from treeno.window import (
     Window,
 )
 
+KEYWORD_FUNCTIONS = (
+    CurrentCatalog,
+    CurrentDate,
+    CurrentPath,
+    CurrentSchema,
+    CurrentUser,
+    ParametrizedDateTimeFunction,
+)
+
 
 def query_from_sql(sql: str) -> Query:
     return ConvertVisitor().visitQuery(AST(sql).query())
@@ -865,6 +878,10 @@ class ConvertVisitor(SqlBaseVisitor):
             fn_name in NAMES_TO_FUNCTIONS
         ), f"Function name {fn_name} not registered in treeno.functions"
         fn = NAMES_TO_FUNCTIONS[fn_name]
+        # There are keywords for these, but there are no functions of that name.
+        assert not issubclass(
+            fn, KEYWORD_FUNCTIONS
+        ), f"{fn_name} can't be called like a function"
 
         kwargs = {}
 
-- 
2.43.0


From 9867c376fd46ca7d726ed060fb5aa46a1ef5aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 62/64] fix: refuse VALUES without rows and UNNEST without
 values

---
 treeno/relation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index 327ec7f..530c61e 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -797,6 +797,7 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.exprs), "VALUES must have at least one row"
         self.data_type = query_data_type(self._column_types())
 
     def _column_types(self) -> List[DataType]:
@@ -1173,6 +1174,7 @@ class Unnest(Relation):
     with_ordinality: bool = attr.ib(default=False, kw_only=True)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.arrays), "Must unnest at least one value"
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-- 
2.43.0


From 02eafc07518a1f486a614c98a9d95ebf547bd317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 63/64] fix: print a negated inequality as one, so that its
 text is stable

---
 treeno/expression.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 35484bc..071c808 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -636,8 +636,9 @@ class Not(UnaryExpression):
                 InList,
                 InQuery,
                 Between,
+                # NOTE: An equality is negated by the operator of an inequality, which has no negation of its own.
+                # Otherwise NOT NOT x = 1 would be another text each time it's printed.
                 Equal,
-                NotEqual,
             ),
         ):
             return self.value.to_string(opts, negate=True)
@@ -675,13 +676,8 @@ class NotEqual(BinaryExpression):
     def __attrs_post_init__(self) -> None:
         self.data_type = boolean()
 
-    def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        if negate:
-            return Equal(self.left, self.right).sql(opts)
-        return builtin_binary_str(self, "{left} <> {right}", opts)
-
     def sql(self, opts: PrintOptions) -> str:
-        return self.to_string(opts, negate=False)
+        return builtin_binary_str(self, "{left} <> {right}", opts)
 
 
 @value_attr
-- 
2.43.0


From 1654f24c74adeaf03b4715de7054259b2f1ef85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:09 +0000
Subject: [PATCH 64/64] fix: escape sequences in names and literals were
 removed from the command line's output

---
 treeno/cli.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 4c4316d..5c8188a 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -1,3 +1,4 @@
+import sys
 from enum import Enum
 from io import StringIO
 from typing import Any
@@ -42,10 +43,22 @@ def get_sql_object(construct_type: SqlConstruct, sql: str) -> Sql:
     return sql_object
 
 
+def _echo(text: str) -> None:
+    # By default, escape sequences are removed from the output unless it's a terminal. The ones in names and literals
+    # are part of the SQL though.
+    typer.echo(text, color=True)
+
+
+def _highlight(text: str) -> str:
+    if not sys.stdout.isatty():
+        return text
+    return typer.style(text, fg=typer.colors.RED, bold=True)
+
+
 @app.command()
 def format(construct_type: SqlConstruct, sql: str) -> None:
     sql_obj = get_sql_object(construct_type, sql)
-    typer.echo(sql_obj.sql(PrintOptions(PrintMode.PRETTY)))
+    _echo(sql_obj.sql(PrintOptions(PrintMode.PRETTY)))
 
 
 @app.command()
@@ -59,7 +72,7 @@ def antlr_tree(construct_type: SqlConstruct, sql: str) -> None:
         node = ast.type()
     else:
         raise TypeError(f"Unexpected sql construct type {construct_type.value}")
-    typer.echo(print_tree(ast, node))
+    _echo(print_tree(ast, node))
 
 
 def _should_skip(key: str, node: Any) -> bool:
@@ -104,12 +117,12 @@ def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     tree = treeify(sql_obj)
     # Data types don't have any branches
     if not isinstance(tree, Tree):
-        typer.echo(tree)
+        _echo(tree)
         return
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
-        typer.echo(sio.getvalue())
+        _echo(sio.getvalue())
     else:
         tree.draw()
 
@@ -119,21 +132,19 @@ def schema(sql: str) -> None:
     sql_obj = get_sql_object(SqlConstruct.QUERY, sql)
     schema = sql_obj.resolve(Schema.empty_schema())
     if not schema.fields:
-        typer.echo(
-            typer.style("Unknown schema", fg=typer.colors.RED, bold=True)
-        )
+        _echo(_highlight("Unknown schema"))
         return
     lines = []
     for idx, field in enumerate(schema.fields):
         field_string = (
-            typer.style("<none>", fg=typer.colors.RED, bold=True)
+            _highlight("<none>")
             if field.name is None
             else field.name
         )
         dtype_string = (
-            typer.style("<unknown>", fg=typer.colors.RED, bold=True)
+            _highlight("<unknown>")
             if field.data_type == unknown()
             else field.data_type
         )
         lines.append(f"{field_string} - {dtype_string}")
-    typer.echo("\n".join(lines))
+    _echo("\n".join(lines))
-- 
2.43.0

