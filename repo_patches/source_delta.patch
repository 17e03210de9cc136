From 2822436c2626b52f972dae9013c8724c0e79d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 001/231] fix: keep the evaluation order of nested arithmetic
 when printing

---
 postbound/qal/_qal.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..98a7a73 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -648,12 +648,17 @@ class MathExpression(SqlExpression):
     ) -> VisitorResult:
         return visitor.visit_math_expr(self, *args, **kwargs)
 
-    def _requires_brackets(self, child: SqlExpression) -> bool:
+    def _requires_brackets(
+        self, child: SqlExpression, *, right_operand: bool = False
+    ) -> bool:
         """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
+        if isinstance(child, AbstractPredicate):
+            return True
         if not isinstance(child, MathExpression):
             return False
         if child.operator == self.operator:
-            return False
+            # all operators are left-associative
+            return right_operand
         if (
             self.operator == MathOperator.Concatenate
             or child.operator == MathOperator.Concatenate
@@ -662,11 +667,18 @@ class MathExpression(SqlExpression):
 
         lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
         eager_ops = {MathOperator.Subtract, MathOperator.Divide}
+        line_ops = {MathOperator.Add, MathOperator.Subtract}
 
-        strict_brackets = self.operator in eager_ops and child.operator in lazy_ops
+        # addition and subtraction bind weaker than all other operators, operators on the same level are evaluated
+        # from left to right
+        weaker_child = child.operator in line_ops and self.operator not in line_ops
+        same_level = (child.operator in line_ops) == (self.operator in line_ops)
+        strict_brackets = weaker_child or (same_level and right_operand)
 
         # these brackets are not really required, but we still use them for better readability
-        pretty_brackets = self.operator in lazy_ops and child.operator in eager_ops
+        pretty_brackets = (self.operator in lazy_ops and child.operator in eager_ops) or (
+            self.operator in eager_ops and child.operator in lazy_ops
+        )
 
         return strict_brackets or pretty_brackets
 
@@ -683,7 +695,13 @@ class MathExpression(SqlExpression):
     def __str__(self) -> str:
         operator_str = self.operator.value
         if not self.second_arg:
-            return f"{operator_str}{self.first_arg}"
+            first_str = str(self.first_arg)
+            if isinstance(
+                self.first_arg, (MathExpression, AbstractPredicate)
+            ) or first_str.startswith(("-", "+")):
+                # don't glue two signs together, -- would start a comment
+                first_str = f"({first_str})"
+            return f"{operator_str}{first_str}"
         if isinstance(self.second_arg, tuple):
             all_args = [self.first_arg] + list(self.second_arg)
             return operator_str.join(f"({arg})" for arg in all_args)
@@ -696,7 +714,7 @@ class MathExpression(SqlExpression):
         assert isinstance(self.second_arg, SqlExpression)
         second_str = (
             f"({self.second_arg})"
-            if self._requires_brackets(self.second_arg)
+            if self._requires_brackets(self.second_arg, right_operand=True)
             else str(self.second_arg)
         )
         return f"{first_str} {operator_str} {second_str}"
-- 
2.43.0


From e711ee4e7603d98e69625e15347a71f5568a8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 002/231] fix: keep the grouping of nested predicates when
 printing

---
 postbound/qal/_qal.py | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 98a7a73..6b20fcd 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2521,6 +2521,23 @@ class BasePredicate(AbstractPredicate, abc.ABC):
     __hash__ = AbstractPredicate.__hash__
 
 
+def _stringify_operand(operand: SqlExpression, *, predicate: BasePredicate) -> str:
+    """Generates the text of an operand of some predicate, adding brackets if the operand would bind too weakly."""
+    while isinstance(operand, UnaryPredicate) and operand.operation is None:
+        operand = operand.column
+    if isinstance(operand, AbstractPredicate):
+        return f"({operand})"
+    generic_operators = {
+        LogicalOperator.Contains,
+        LogicalOperator.ContainedBy,
+        LogicalOperator.Overlaps,
+    }
+    if predicate.operation in generic_operators and isinstance(operand, MathExpression):
+        # these operators have the same precedence as the concatenation
+        return f"({operand})"
+    return str(operand)
+
+
 class BinaryPredicate(BasePredicate):
     """A binary predicate combines exactly two base expressions with a comparison operation.
 
@@ -2644,7 +2661,9 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        lhs = _stringify_operand(self.first_argument, predicate=self)
+        rhs = _stringify_operand(self.second_argument, predicate=self)
+        return f"{lhs} {self.operation.value} {rhs}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -2806,8 +2825,11 @@ class BetweenPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        interval_start, interval_end = self.interval
-        return f"{self.column} BETWEEN {interval_start} AND {interval_end}"
+        col_str = _stringify_operand(self.column, predicate=self)
+        interval_start, interval_end = (
+            _stringify_operand(bound, predicate=self) for bound in self.interval
+        )
+        return f"{col_str} BETWEEN {interval_start} AND {interval_end}"
 
 
 class InPredicate(BasePredicate):
@@ -2983,7 +3005,7 @@ class InPredicate(BasePredicate):
 
     def __str__(self) -> str:
         vals = self._stringify_values()
-        return f"{self.column} IN {vals}"
+        return f"{_stringify_operand(self.column, predicate=self)} IN {vals}"
 
 
 class UnaryPredicate(BasePredicate):
@@ -3367,9 +3389,16 @@ class CompoundPredicate(AbstractPredicate):
                 raise ValueError(f"Unknown operation: '{self.operation}'")
 
     def _stringify_not(self) -> str:
-        if not isinstance(self.children, InPredicate):
-            return f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        child = self.children
+        if isinstance(child, InPredicate):
+            col_str = _stringify_operand(child.column, predicate=child)
+            return f"{col_str} NOT IN {child._stringify_values()}"
+        if (
+            isinstance(child, CompoundPredicate)
+            and child.operation == CompoundOperator.And
+        ):
+            return f"NOT ({child})"
+        return f"NOT {child}"
 
     __hash__ = AbstractPredicate.__hash__
 
-- 
2.43.0


From 31c68c3ff9c7ad683f330a4c278c883302c9b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 003/231] fix: keep nesting and trailing clauses of set
 operations when printing and comparing

---
 postbound/qal/_qal.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 6b20fcd..fa97aff 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7705,6 +7705,22 @@ class Limit(BaseClause):
         return ""
 
 
+def _stringify_setop_input(query: SelectStatement) -> str:
+    """Generates the text of one of the input queries of a set operation.
+
+    All inputs that are more than a plain *SELECT* query need brackets, because set operations are otherwise evaluated based on
+    their precedence and trailing clauses would be applied to the result of the entire set operation.
+    """
+    query_str = query.stringify(trailing_delimiter=False)
+    is_complex = (
+        isinstance(query, SetQuery)
+        or query.cte_clause
+        or query.orderby_clause
+        or query.limit_clause
+    )
+    return f"({query_str})" if is_complex else query_str
+
+
 class UnionClause(BaseClause):
     """The *UNION* or *UNION ALL* clause of a query.
 
@@ -7827,8 +7843,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_setop_input(self._lhs)
+        rhs_str = _stringify_setop_input(self._rhs)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7902,12 +7918,13 @@ class ExceptClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_setop_input(self._lhs)
+        rhs_str = _stringify_setop_input(self._rhs)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -7997,12 +8014,13 @@ class IntersectClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_setop_input(self._lhs)
+        rhs_str = _stringify_setop_input(self._rhs)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
@@ -10010,9 +10028,7 @@ class SetQuery:
         """
         delim = ";" if trailing_delimiter else ""
         return (
-            "".join(
-                _stringify_clause(clause).rstrip("; ") for clause in self.clauses()
-            ).rstrip()
+            "".join(_stringify_clause(clause) for clause in self.clauses()).rstrip()
             + delim
         )
 
-- 
2.43.0


From e45402b5cf8f7d4b64a7c0c4b772ace5b8f3fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 004/231] fix: keep nested join trees and NATURAL joins when
 printing

---
 postbound/qal/_qal.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index fa97aff..088c8e3 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6794,7 +6794,11 @@ class JoinTableSource(TableSource):
         self._left = left
         self._right = right
         self._join_condition = join_condition
-        self._join_type = join_type if join_condition else JoinType.CrossJoin
+        self._join_type = (
+            join_type
+            if join_condition is not None or join_type in AutoJoins
+            else JoinType.CrossJoin
+        )
         self._hash_val = hash(
             (self._left, self._right, self._join_condition, self._join_type)
         )
@@ -6962,9 +6966,15 @@ class JoinTableSource(TableSource):
         return str(self)
 
     def __str__(self) -> str:
+        # joins are evaluated from left to right, right-deep structures need brackets
+        right_str = (
+            f"({self.joined_table})"
+            if isinstance(self.joined_table, JoinTableSource)
+            else str(self.joined_table)
+        )
         if self.join_type in AutoJoins:
-            return f"{self.source} {self.join_type} {self.joined_table}"
-        return f"{self.source} {self.join_type} {self.joined_table} ON {self.join_condition}"
+            return f"{self.source} {self.join_type} {right_str}"
+        return f"{self.source} {self.join_type} {right_str} ON {self.join_condition}"
 
 
 TableType = TypeVar("TableType", bound=TableSource)
-- 
2.43.0


From aa1adccb5db83677600c21c5fff56ba35809acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 005/231] fix: compare the fetch direction of LIMIT clauses (it
 is part of the hash)

---
 postbound/qal/_qal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 088c8e3..becda48 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -7696,6 +7696,7 @@ class Limit(BaseClause):
             isinstance(other, type(self))
             and self.limit == other.limit
             and self.offset == other.offset
+            and self.fetch_direction == other.fetch_direction
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From 0cc1e156f2887649b6adb08034ac6f20543303d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 006/231] fix: support LIMIT 0, OFFSET 0 and LIMIT ALL

---
 postbound/parser.py         | 44 ++++++++++++++++++++++++++-----------
 postbound/qal/_formatter.py | 12 +++++-----
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..1f9d7aa 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1838,6 +1838,30 @@ def _pglast_parse_orderby(
     return OrderBy(orderings)
 
 
+def _pglast_parse_row_count(pglast_data: Optional[dict]) -> Optional[int]:
+    """Handler method to parse the row count of *LIMIT* and *OFFSET* clauses.
+
+    Parameters
+    ----------
+    pglast_data : Optional[dict]
+        JSON encoding of the row count
+
+    Returns
+    -------
+    Optional[int]
+        The number of rows or *None* if the number of rows is not restricted (e.g. *LIMIT ALL*).
+    """
+    if pglast_data is None:
+        return None
+    constant: Optional[dict] = pglast_data.get("A_Const")
+    if constant is not None and constant.get("isnull", False):
+        return None
+    if constant is None or "ival" not in constant:
+        raise ParserError("LIMIT and OFFSET require integer constants")
+    # pglast omits all values that are 0
+    return constant["ival"].get("ival", 0)
+
+
 def _pglast_parse_limit(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> Optional[Limit]:
@@ -1866,16 +1890,11 @@ def _pglast_parse_limit(
     if raw_limit is None and raw_offset is None:
         return None
 
-    if raw_limit is not None:
-        # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
-        raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
-    else:
-        nrows = None
-    if raw_offset is not None:
-        offset: int = raw_offset["A_Const"]["ival"].get("ival", 0)
-    else:
-        offset = None
+    nrows = _pglast_parse_row_count(raw_limit)
+    offset = _pglast_parse_row_count(raw_offset)
+    if nrows is None and offset is None:
+        # LIMIT ALL
+        return None
 
     normalized_query = query_txt.lower()
     contains_standard_limit = (
@@ -2092,9 +2111,8 @@ def _pglast_parse_query(
         limit_clause = _pglast_parse_limit(
             stmt, namespace=namespace, query_txt=query_txt
         )
-        if limit_clause is None:
-            raise ParserError(f"Malformed LIMIT/OFFSET clause for query {query_txt}")
-        clauses.append(limit_clause)
+        if limit_clause is not None:
+            clauses.append(limit_clause)
 
     return build_query(clauses)
 
diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..0aabae1 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -588,24 +588,24 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [
                     f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
                     f"OFFSET {limit_clause.offset} ROWS",
                 ]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset} ROWS"]
             else:
                 return []
 
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
+            if limit_clause.limit is not None and limit_clause.offset is not None:
                 return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
-- 
2.43.0


From e643aac293b1b7aa1f14bf06209268b5cb57b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 007/231] fix: parse quantified comparisons with subqueries (=
 ANY, < ALL, ...)

---
 postbound/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 1f9d7aa..0c083bc 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1131,11 +1131,11 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.any(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.all(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
-- 
2.43.0


From 92f3d7a16540871ec05f2e5571d793b2f3eef5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 008/231] fix: resolve qualified columns of tables that are
 scanned multiple times

---
 postbound/parser.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 0c083bc..a7eff0c 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -380,10 +380,8 @@ class QueryNamespace:
         """
         self._invalidate_column_cache()
         self._current_ctx.append(table)
-        if table.alias:
-            self._table_sources[table.alias] = table
-        if table.full_name:
-            self._table_sources[table.full_name] = table
+        # an alias hides the actual name of the table, e.g. if the same table is also scanned without an alias
+        self._table_sources[table.identifier()] = table
 
     def provides_column(self, name: str) -> bool:
         """Checks, whether the current namespace has a specific column in its output relation."""
@@ -453,6 +451,12 @@ class QueryNamespace:
 
         return self._parent.resolve_table(key) if self._parent else None
 
+    def resolve_cte(self, key: str) -> Optional[TableReference]:
+        """Searches for a CTE with a specific name in this namespace, or in an outer one."""
+        if key in self._cte_sources:
+            return TableReference.create_virtual(key)
+        return self._parent.resolve_cte(key) if self._parent else None
+
     def open_nested(
         self,
         *,
@@ -1458,7 +1462,9 @@ def _pglast_parse_from_entry(
             # If we specified a virtual table in a CTE, we will reference it later in some FROM clause. In this case,
             # we should not create a new table reference, but rather use the existing one.
             # But, if we alias the virtual table, we still need a new reference
-            similar_table = namespace.resolve_table(table.full_name)
+            similar_table = (
+                namespace.resolve_cte(table.full_name) if not table.schema else None
+            )
             if similar_table and similar_table.virtual and not table.alias:
                 # a simple reference to the CTE
                 namespace.register_table(similar_table)
-- 
2.43.0


From e0f669d24f527a1dd8e2521cdb16a0301e91ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 009/231] fix: reject SQL features that the parser silently
 dropped

---
 postbound/parser.py | 75 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/postbound/parser.py b/postbound/parser.py
index a7eff0c..9af007f 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -522,6 +522,26 @@ class QueryNamespace:
         self._column_cache.clear()
 
 
+def _pglast_reject_unsupported(pglast_data: dict, *options: str) -> None:
+    """Ensures that an entry of the pglast data does not use features which cannot be represented by the query model.
+
+    Parameters
+    ----------
+    pglast_data : dict
+        JSON encoding of the current entry
+    *options : str
+        The keys that indicate unsupported features
+
+    Raises
+    ------
+    ParserError
+        If the entry uses any of the unsupported features. Ignoring them would change the meaning of the query.
+    """
+    for option in options:
+        if pglast_data.get(option):
+            raise ParserError(f"Unsupported SQL feature '{option}': {pglast_data}")
+
+
 def _pglast_is_actual_colref(pglast_data: dict) -> bool:
     """Checks, whether a apparent column reference is actually a column reference and not a star expression in disguise.
 
@@ -704,6 +724,10 @@ _PglastOperatorMap: dict[str, SqlOperator] = {
 """Map from the internal representation of Postgres operators to our standardized QAL operators."""
 
 
+_PglastDefaultFrames = {0, 1058, 1059, 1075}
+"""Encodings of the window frames that match the default frame (*RANGE UNBOUNDED PRECEDING*)."""
+
+
 def _pglast_parse_operator(pglast_data: list[dict]) -> SqlOperator:
     """Handler method to parse operators into our query representation.
 
@@ -1010,6 +1034,9 @@ def _pglast_parse_expression(
             "over" not in pglast_data["FuncCall"]
         ):  # normal functions, aggregates and UDFs
             expression: dict = pglast_data["FuncCall"]
+            _pglast_reject_unsupported(
+                expression, "agg_order", "agg_within_group", "func_variadic"
+            )
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1039,6 +1066,13 @@ def _pglast_parse_expression(
 
         case "FuncCall" if "over" in pglast_data["FuncCall"]:  # window functions
             expression: dict = pglast_data["FuncCall"]
+            _pglast_reject_unsupported(
+                expression,
+                "agg_distinct",
+                "agg_order",
+                "agg_within_group",
+                "func_variadic",
+            )
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1047,9 +1081,16 @@ def _pglast_parse_expression(
                 _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
                 for arg in expression.get("args", [])
             ]
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
             fn = FunctionExpression(funcname, args)
 
             window_spec: dict = expression["over"]
+            _pglast_reject_unsupported(
+                window_spec, "name", "refname", "startOffset", "endOffset"
+            )
+            if window_spec.get("frameOptions", 0) not in _PglastDefaultFrames:
+                raise ParserError("Unsupported window frame: " + str(window_spec))
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1220,6 +1261,13 @@ def _pglast_parse_values_cte(
         The parsed *VALUES* expression and their column names.
     """
     values: ValuesList = []
+    _pglast_reject_unsupported(
+        pglast_data["ctequery"]["SelectStmt"],
+        "withClause",
+        "sortClause",
+        "limitCount",
+        "limitOffset",
+    )
     for row in pglast_data["ctequery"]["SelectStmt"]["valuesLists"]:
         raw_items = row["List"]["items"]
         parsed_items = [
@@ -1261,6 +1309,7 @@ def _pglast_parse_ctes(
     parsed_ctes: list[WithQuery] = []
     for pglast_data in json_data["ctes"]:
         current_cte: dict = pglast_data["CommonTableExpr"]
+        _pglast_reject_unsupported(current_cte, "search_clause", "cycle_clause")
         target_name = current_cte["ctename"]
         target_table = TableReference.create_virtual(target_name)
 
@@ -1286,6 +1335,7 @@ def _pglast_parse_ctes(
                 materialized=force_materialization,
             )
         else:
+            _pglast_reject_unsupported(current_cte, "aliascolnames")
             cte_query = _pglast_parse_query(
                 current_cte["ctequery"]["SelectStmt"],
                 namespace=child_nsp,
@@ -1457,6 +1507,12 @@ def _pglast_parse_from_entry(
 
     match entry_type:
         case "RangeVar":
+            _pglast_reject_unsupported(pglast_data["RangeVar"], "catalogname")
+            _pglast_reject_unsupported(
+                pglast_data["RangeVar"].get("alias", {}), "colnames"
+            )
+            if not pglast_data["RangeVar"].get("inh", False):
+                raise ParserError("Unsupported SQL feature: FROM ONLY")
             table = _pglast_parse_rangevar(pglast_data["RangeVar"])
 
             # If we specified a virtual table in a CTE, we will reference it later in some FROM clause. In this case,
@@ -1479,6 +1535,7 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            _pglast_reject_unsupported(join_expr, "isNatural", "usingClause", "alias")
             match join_expr["jointype"]:
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
@@ -1523,6 +1580,7 @@ def _pglast_parse_from_entry(
 
         case "RangeSubselect":
             raw_subquery: dict = pglast_data["RangeSubselect"]
+            _pglast_reject_unsupported(raw_subquery.get("alias", {}), "colnames")
             is_lateral = raw_subquery.get("lateral", False)
 
             if "alias" in raw_subquery:
@@ -1544,6 +1602,10 @@ def _pglast_parse_from_entry(
 
         case "RangeFunction":
             raw_function: dict = pglast_data["RangeFunction"]
+            _pglast_reject_unsupported(
+                raw_function, "ordinality", "coldeflist", "is_rowsfrom"
+            )
+            _pglast_reject_unsupported(raw_function.get("alias", {}), "colnames")
 
             if "alias" in raw_function:
                 alias: str = raw_function["alias"]["aliasname"]
@@ -1586,6 +1648,13 @@ def _pglast_parse_values(
     raw_alias: dict = pglast_data.get("alias", {})
     alias = raw_alias.get("aliasname", "")
     child_nsp = parent_namespace.open_nested(alias=alias, source="values")
+    _pglast_reject_unsupported(
+        pglast_data["subquery"]["SelectStmt"],
+        "withClause",
+        "sortClause",
+        "limitCount",
+        "limitOffset",
+    )
     raw_values: list[dict] = pglast_data["subquery"]["SelectStmt"]["valuesLists"]
 
     values: ValuesList = []
@@ -1971,6 +2040,8 @@ def _pglast_parse_setop(
                 if pglast_data.get("all", False)
                 else SetOperator.Union
             )
+        case "SETOP_INTERSECT" | "SETOP_EXCEPT" if pglast_data.get("all", False):
+            raise ParserError("Unsupported SQL feature: INTERSECT ALL / EXCEPT ALL")
         case "SETOP_INTERSECT":
             operator = SetOperator.Intersect
         case "SETOP_EXCEPT":
@@ -2066,6 +2137,10 @@ def _pglast_parse_query(
     SelectStatement
         The parsed query
     """
+    _pglast_reject_unsupported(stmt, "windowClause", "lockingClause", "intoClause")
+    if stmt["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("Unsupported SQL feature: FETCH FIRST ... WITH TIES")
+
     if stmt["op"] != "SETOP_NONE":
         return _pglast_parse_setop(
             stmt, parent_namespace=namespace, query_txt=query_txt
-- 
2.43.0


From f4e21cb61a853c94ac67bbc5d34e5aa49b7cd862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 010/231] fix: formatting of CTEs, nested joins, multi-line
 literals and casts

---
 postbound/qal/_formatter.py | 134 +++++++++++++++++++++---------------
 1 file changed, 79 insertions(+), 55 deletions(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 0aabae1..7edb55b 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -63,6 +63,44 @@ SqlDialect = Literal["vanilla", "postgres"]
 """The different flavors of SQL syntax that are supported by the formatter."""
 
 
+def _split_lines(content: str) -> list[str]:
+    """Breaks a query text into lines.
+
+    In contrast to a plain split, linebreaks that are part of string literals or quoted identifiers do not start a new line.
+    Therefore, the resulting lines can be indented without changing the query.
+
+    Parameters
+    ----------
+    content : str
+        The (partial) query text
+
+    Returns
+    -------
+    list[str]
+        The individual lines
+    """
+    lines: list[str] = []
+    line_start = 0
+    in_comment = False
+    active_quote: Optional[str] = None
+    for i, char in enumerate(content):
+        if active_quote:
+            # doubled quotes just close and directly re-open the literal
+            if char == active_quote:
+                active_quote = None
+        elif char == "\n":
+            lines.append(content[line_start:i])
+            line_start = i + 1
+        elif in_comment:
+            in_comment = not content.startswith("*/", i)
+        elif content.startswith("/*", i):
+            in_comment = True
+        elif char in "'\"":
+            active_quote = char
+    lines.append(content[line_start:])
+    return lines
+
+
 def _increase_indentation(content: str, indentation: int = DefaultIndent) -> str:
     """Prefixes all lines in a string by a given amount of whitespace.
 
@@ -82,7 +120,7 @@ def _increase_indentation(content: str, indentation: int = DefaultIndent) -> str
         The indented string
     """
     indent_prefix = "\n" + " " * indentation
-    return " " * indentation + indent_prefix.join(content.split("\n"))
+    return " " * indentation + indent_prefix.join(_split_lines(content))
 
 
 class FormattingSubqueryExpression(SubqueryExpression):
@@ -133,7 +171,7 @@ class FormattingSubqueryExpression(SubqueryExpression):
         if "\n" not in formatted:
             return prefix + formatted
 
-        lines = formatted.split("\n")
+        lines = _split_lines(formatted)
         indented_lines = [f"\n{prefix}{lines[0]}"] + [
             prefix + line for line in lines[1:]
         ]
@@ -176,68 +214,39 @@ def _quick_format_cte(
     list[str]
         The pretty-printed parts of the CTE, indented as necessary.
     """
-    recursive_info = "RECURSIVE " if cte_clause.recursive else ""
+    formatted_parts: list[str] = []
+    for cte_query in cte_clause.queries:
+        if formatted_parts:
+            prefix = "), "
+        else:
+            prefix = "WITH RECURSIVE " if cte_clause.recursive else "WITH "
 
-    if len(cte_clause.queries) == 1:
-        cte_query = cte_clause.queries[0]
+        match cte_query.materialized:
+            case None:
+                mat_info = ""
+            case True:
+                mat_info = "MATERIALIZED "
+            case False:
+                mat_info = "NOT MATERIALIZED "
+
+        cte_structure = ""
         if isinstance(cte_query, ValuesWithQuery):
             cte_structure = ", ".join(quote(target.name) for target in cte_query.cols)
             cte_structure = f"({cte_structure})" if cte_structure else ""
-            cte_header = f"WITH {quote(cte_query.target_name)}{cte_structure} AS ("
             cte_rows: list[str] = []
             for row in cte_query.rows:
                 row_values = ", ".join(str(value) for value in row)
                 cte_rows.append(f"({row_values})")
-            cte_rows[0] = f"VALUES {cte_rows[0]}" if cte_rows else ""
-            cte_content = ",\n".join(cte_rows)
+            cte_content = "VALUES " + ",\n".join(cte_rows)
         else:
-            match cte_query.materialized:
-                case None:
-                    mat_info = ""
-                case True:
-                    mat_info = "MATERIALIZED "
-                case False:
-                    mat_info = "NOT MATERIALIZED "
-
-            cte_header = (
-                f"WITH {recursive_info}{quote(cte_query.target_name)} AS {mat_info}("
-            )
             cte_content = format_quick(
                 cte_query.query, flavor=flavor, trailing_semicolon=False
             )
-        cte_content = _increase_indentation(cte_content)
-        cte_footer = ")"
-        return [cte_header, cte_content, cte_footer]
-
-    first_cte, *remaining_ctes = cte_clause.queries
-    first_content = _increase_indentation(
-        format_quick(first_cte.query, flavor=flavor, trailing_semicolon=False)
-    )
-    mat_info = (
-        ""
-        if first_cte.materialized is None
-        else ("MATERIALIZED " if first_cte.materialized else "NOT MATERIALIZED ")
-    )
-    formatted_parts: list[str] = [
-        f"WITH {recursive_info} {quote(first_cte.target_name)} AS {mat_info}(",
-        first_content,
-    ]
-    for next_cte in remaining_ctes:
-        match next_cte.materialized:
-            case None:
-                mat_info = ""
-            case True:
-                mat_info = "MATERIALIZED "
-            case False:
-                mat_info = "NOT MATERIALIZED "
 
-        current_header = f"), {quote(next_cte.target_name)} AS {mat_info}("
-        cte_content = _increase_indentation(
-            format_quick(next_cte.query, flavor=flavor, trailing_semicolon=False)
+        formatted_parts.append(
+            f"{prefix}{quote(cte_query.target_name)}{cte_structure} AS {mat_info}("
         )
-
-        formatted_parts.append(current_header)
-        formatted_parts.append(cte_content)
+        formatted_parts.append(_increase_indentation(cte_content))
 
     formatted_parts.append(")")
     return formatted_parts
@@ -358,9 +367,11 @@ def _quick_format_tablesource(
 
         case SubqueryTableSource():
             elems: list[str] = ["LATERAL ("] if table_source.lateral else ["("]
-            subquery_elems = format_quick(
-                table_source.query, flavor=flavor, trailing_semicolon=False
-            ).split("\n")
+            subquery_elems = _split_lines(
+                format_quick(
+                    table_source.query, flavor=flavor, trailing_semicolon=False
+                )
+            )
             subquery_elems = [
                 ((" " * DefaultIndent) + str(child)) for child in subquery_elems
             ]
@@ -418,7 +429,12 @@ def _quick_format_tablesource(
             elems: list[str] = []
             elems += _quick_format_tablesource(table_source.left, flavor=flavor)
             elems.append(f"{table_source.join_type}")
-            elems += _quick_format_tablesource(table_source.right, flavor=flavor)
+            right_elems = _quick_format_tablesource(table_source.right, flavor=flavor)
+            if isinstance(table_source.right, JoinTableSource):
+                # joins are left-associative, nested joins on the right need to be grouped explicitly
+                right_elems[0] = f"({right_elems[0]}"
+                right_elems[-1] += ")"
+            elems += right_elems
             if table_source.join_condition:
                 elems[-1] += f" ON {table_source.join_condition}"
             elems = [((" " * DefaultIndent) + str(child)) for child in elems]
@@ -709,7 +725,7 @@ def _expression_prettifier(
                 indentation=indentation,
             )
             return (
-                target(replaced_cast, typ, type_params=params)
+                target(replaced_cast, typ, type_params=params, array_type=array)
                 if flavor == "vanilla"
                 else _PostgresCastExpression(
                     replaced_cast, typ, type_params=params, array_type=array
@@ -997,6 +1013,13 @@ def _quick_format_set_query(
     return "\n".join(query_parts)
 
 
+def _is_negative_number(expression: SqlExpression) -> bool:
+    """Checks, whether an expression is a numeric constant with a leading minus sign."""
+    return isinstance(expression, StaticValueExpression) and str(expression).startswith(
+        "-"
+    )
+
+
 class _PostgresCastExpression(CastExpression):
     """A specialized cast expression to handle the custom syntax for ``CAST`` statements used by Postgres."""
 
@@ -1025,6 +1048,7 @@ class _PostgresCastExpression(CastExpression):
             if isinstance(
                 self.casted_expression, (ColumnExpression, StaticValueExpression)
             )
+            and not _is_negative_number(self.casted_expression)
             else f"({self.casted_expression})"
         )
         return f"{casted_str}::{type_str}"
-- 
2.43.0


From e665dec08533d842592d3fd0a55c99f25ad2a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 011/231] fix: keep the table of star expressions that do not
 reference a known table

---
 postbound/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 9af007f..eeccf18 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -660,7 +660,11 @@ def _pglast_parse_star(
 
     if len(fields) == 2:
         tab = fields[0]["String"]["sval"]
-        return StarExpression(from_table=namespace.resolve_table(tab))
+        resolved_table = namespace.resolve_table(tab)
+        if resolved_table is None:
+            # e.g. aliases of functions in the FROM clause
+            resolved_table = TableReference.create_virtual(tab)
+        return StarExpression(from_table=resolved_table)
 
     raise ParserError("Unknown star reference format: " + str(pglast_data))
 
-- 
2.43.0


From c3f7830762fa3d4661d9dd0ba91c4b08dc677138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 012/231] fix: bind columns according to SQL's scoping rules

---
 postbound/parser.py | 242 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 185 insertions(+), 57 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index eeccf18..afd9743 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -29,9 +29,10 @@ References
 
 from __future__ import annotations
 
+import contextlib
 import json
 import warnings
-from collections.abc import Iterable
+from collections.abc import Generator, Iterable
 from pathlib import Path
 from typing import Literal, Optional, overload
 
@@ -296,6 +297,15 @@ class QueryNamespace:
         current context, but have to be bound to the aliased table for subqueries, etc.
         """
 
+        self._complete_output: bool = True
+        """Whether the `_output_shape` contains all columns of the result set."""
+
+        self._has_opaque_sources: bool = False
+        """Whether the *FROM* clause contains sources whose columns are not known, e.g. functions."""
+
+        self._sees_siblings: bool = True
+        """Whether the query can access the tables of the directly enclosing query. Only subqueries in *FROM* can not."""
+
         self._column_cache: dict[str, TableReference] = {}
         """A cache to resolve common columns in the current context more quickly."""
 
@@ -310,6 +320,7 @@ class QueryNamespace:
         ensure that star expressions can be resolved correctly.
         """
         self._output_shape = []
+        self._complete_output = True
         if self._setop_children:
             # We use Postgre's rules here: the output relation of a set operation contains exactly those columns that are
             # contained in the LHS relation
@@ -341,21 +352,27 @@ class QueryNamespace:
                     self._output_shape.append(col.name)
 
                 case StarExpression(from_table):
-                    ctx = {from_table} if from_table else self._current_ctx
+                    ctx = [from_table] if from_table else self._current_ctx
+                    if not from_table and self._has_opaque_sources:
+                        self._complete_output = False
                     for table in ctx:
                         if not table.virtual:
-                            self._output_shape.extend(
-                                self._schema_cache.columns_of(table)
-                            )
+                            table_columns = self._schema_cache.columns_of(table)
+                            self._output_shape.extend(table_columns)
+                            if not table_columns:
+                                self._complete_output = False
+                            continue
+
+                        if table not in self._current_ctx:
+                            # e.g. functions in the FROM clause: we don't know which columns they produce
+                            self._complete_output = False
                             continue
 
-                        if table.alias:
-                            defining_nsp = self._lookup_namespace(table.alias)
-                        if not defining_nsp and table.full_name:
-                            # if we try to look up an aliased CTE, we need to use the full name instead
-                            defining_nsp = self._lookup_namespace(table.full_name)
+                        defining_nsp = self._defining_namespace(table)
                         if not defining_nsp:
                             raise ParserError(f"No namespace found for table '{table}'")
+                        if not defining_nsp.has_complete_output():
+                            self._complete_output = False
                         self._output_shape.extend(defining_nsp._output_shape)
 
                 case _ if self._top_level:
@@ -365,6 +382,7 @@ class QueryNamespace:
                     # Do nothing, this is an expression that cannot be referenced later on!
                     # Or at least, it is highly system-dependent how the expression would be named.
                     # For example, Postgres uses the function names for function calls without alias
+                    self._complete_output = False
                     warnings.warn(
                         f"Found complex expression without an alias: '{projection.expression}'. "
                         "Such expressions may currently not be referenced later on.",
@@ -383,50 +401,78 @@ class QueryNamespace:
         # an alias hides the actual name of the table, e.g. if the same table is also scanned without an alias
         self._table_sources[table.identifier()] = table
 
+    def register_opaque_source(self) -> None:
+        """Notes that the *FROM* clause contains a source whose columns are not known, e.g. a function."""
+        self._has_opaque_sources = True
+
     def provides_column(self, name: str) -> bool:
         """Checks, whether the current namespace has a specific column in its output relation."""
+        if self._setop_children:
+            return self._setop_children[0].provides_column(name)
         return name in self._output_shape
 
+    @contextlib.contextmanager
+    def restrict_scope(self, first_table: int) -> Generator[None, None, None]:
+        """Temporarily hides all but the most recently registered tables, e.g. to parse the condition of an explicit join.
+
+        Parameters
+        ----------
+        first_table : int
+            The number of tables that should be hidden.
+        """
+        complete_ctx = self._current_ctx
+        self._current_ctx = complete_ctx[first_table:]
+        self._invalidate_column_cache()
+        try:
+            yield
+        finally:
+            self._current_ctx = complete_ctx
+            self._invalidate_column_cache()
+
+    def n_tables(self) -> int:
+        """Provides the number of tables that are currently part of the *FROM* clause."""
+        return len(self._current_ctx)
+
+    def register_cte(self, name: str, namespace: QueryNamespace) -> None:
+        """Makes a CTE available to all following parts of the query."""
+        self._invalidate_column_cache()
+        self._cte_sources[name] = namespace
+
     def lookup_column(self, key: str) -> Optional[TableReference]:
         """Searches for the table that provies a specific column.
 
         This table can be either virtual, i.e. a subquery or CTE (possibly from an outer namespace), or an actual physical
-        table from the current database.
+        table from the current database. If none of the tables in the current scope provides the column, it has to belong to an
+        enclosing query.
 
         If no table is found , *None* is returned.
         """
-        if key in self._produced_columns:
-            # This is a column that we just "created" in our select clause. It cannot (yet) belong to any table.
+        local_table = self.lookup_local_column(key)
+        if local_table:
+            return local_table
+
+        # We can only be sure that a column belongs to an outer scope if we know all columns of the current scope
+        if not self._has_known_columns():
             return None
+        parent = self._enclosing_scope()
+        return parent.lookup_column(key) if parent else None
 
+    def lookup_local_column(self, key: str) -> Optional[TableReference]:
+        """Searches for the table of the current *FROM* clause that provides a specific column."""
         cached_table = self._column_cache.get(key)
         if cached_table:
             return cached_table
 
         matching_table: Optional[TableReference] = None
         for table in self._current_ctx:
-            # later tables overwrite unqualified columns of earlier tables
-            physical_table = (
-                self._schema_cache.lookup_column(key, [table])
-                if not table.virtual
-                else None
-            )
-            if physical_table:
-                matching_table = table
-                break
-
-            subquery_nsp = self._subquery_children.get(table.identifier())
-            if subquery_nsp and subquery_nsp.provides_column(key):
-                matching_table = table
-                break
-
-            cte_nsp = self._cte_sources.get(table.identifier())
-            if cte_nsp and cte_nsp.provides_column(key):
-                matching_table = table
-                break
+            if not table.virtual:
+                if self._schema_cache.lookup_column(key, [table]):
+                    matching_table = table
+                    break
+                continue
 
-            parent_nsp = self._lookup_namespace(table.identifier())
-            if parent_nsp and parent_nsp.provides_column(key):
+            defining_nsp = self._defining_namespace(table)
+            if defining_nsp and defining_nsp.provides_column(key):
                 matching_table = table
                 break
 
@@ -436,6 +482,57 @@ class QueryNamespace:
         self._column_cache[key] = matching_table
         return matching_table
 
+    def produces_column(self, name: str) -> bool:
+        """Checks, whether a specific column is created by the current query itself, e.g. due to an alias.
+
+        Such columns do not belong to any table that is used in the query. Only the *ORDER BY* and *GROUP BY* clauses are able
+        to reference them.
+        """
+        if self._setop_children:
+            return self._setop_children[0].provides_column(name)
+        return name in self._produced_columns
+
+    def _enclosing_scope(self) -> Optional[QueryNamespace]:
+        """Provides the first parent namespace whose tables can be accessed by the current query."""
+        if self._sees_siblings or not self._parent:
+            return self._parent
+        return self._parent._enclosing_scope()
+
+    def _has_known_columns(self) -> bool:
+        """Checks, whether the columns of all tables in the current *FROM* clause are known."""
+        if self._has_opaque_sources:
+            return False
+        for table in self._current_ctx:
+            if not table.virtual:
+                if not self._schema_cache.columns_of(table):
+                    return False
+                continue
+            defining_nsp = self._defining_namespace(table)
+            if not defining_nsp or not defining_nsp.has_complete_output():
+                return False
+        return True
+
+    def has_complete_output(self) -> bool:
+        """Checks, whether the current namespace knows the names of all columns in its output relation."""
+        if self._setop_children:
+            return self._setop_children[0].has_complete_output()
+        return self._complete_output
+
+    def _defining_namespace(self, table: TableReference) -> Optional[QueryNamespace]:
+        """Provides the namespace that computes the contents of a virtual table of the current *FROM* clause."""
+        if table.full_name:
+            # aliased CTE
+            return self._lookup_cte_namespace(table.full_name)
+        subquery_nsp = self._subquery_children.get(table.alias)
+        return subquery_nsp or self._lookup_cte_namespace(table.alias)
+
+    def _lookup_cte_namespace(self, name: str) -> Optional[QueryNamespace]:
+        """Searches for the namespace of a CTE that is defined by the current query or one of its parents."""
+        cte_nsp = self._cte_sources.get(name)
+        if cte_nsp:
+            return cte_nsp
+        return self._parent._lookup_cte_namespace(name) if self._parent else None
+
     def resolve_table(self, key: str) -> Optional[TableReference]:
         """Searches for the table that is referenced by a specific key.
 
@@ -462,6 +559,7 @@ class QueryNamespace:
         *,
         alias: str = "",
         source: Literal["cte", "subquery", "setop", "values", "temporary"],
+        lateral: bool = False,
     ) -> QueryNamespace:
         """Creates a new local namespace for a nested query.
 
@@ -483,6 +581,8 @@ class QueryNamespace:
             - "temporary": The namespace is a temporary table that is part of a subquery which is not used in the FROM clause,
               e.g. as a filter condition.
 
+        lateral : bool, optional
+            Whether a subquery in the FROM clause can access the other tables in the same clause.
         """
         if source != "temporary":
             self._invalidate_column_cache()
@@ -493,6 +593,7 @@ class QueryNamespace:
             case "cte":
                 self._cte_sources[alias] = child
             case "subquery" | "values":
+                child._sees_siblings = lateral
                 table = TableReference.create_virtual(alias)
                 self._subquery_children[alias] = child
                 self._current_ctx.append(table)
@@ -505,18 +606,6 @@ class QueryNamespace:
 
         return child
 
-    def _lookup_namespace(self, table_key: str) -> Optional[QueryNamespace]:
-        """Searches for the (parent) namespace that provides a specific table."""
-        cte_nsp = self._cte_sources.get(table_key)
-        if cte_nsp:
-            return cte_nsp
-
-        subquery_nsp = self._subquery_children.get(table_key)
-        if subquery_nsp:
-            return subquery_nsp
-
-        return self._parent._lookup_namespace(table_key) if self._parent else None
-
     def _invalidate_column_cache(self) -> None:
         """Clears all currently cached columns in case there is fear of a change in the column bindings."""
         self._column_cache.clear()
@@ -1108,7 +1197,10 @@ def _pglast_parse_expression(
 
             if "orderClause" in window_spec:
                 order = _pglast_parse_orderby(
-                    window_spec["orderClause"], namespace=namespace, query_txt=query_txt
+                    window_spec["orderClause"],
+                    namespace=namespace,
+                    query_txt=query_txt,
+                    output_columns=False,
                 )
             else:
                 order = None
@@ -1310,6 +1402,7 @@ def _pglast_parse_ctes(
     CommonTableExpression
         The parsed CTEs.
     """
+    recursive = json_data.get("recursive", False)
     parsed_ctes: list[WithQuery] = []
     for pglast_data in json_data["ctes"]:
         current_cte: dict = pglast_data["CommonTableExpr"]
@@ -1326,7 +1419,10 @@ def _pglast_parse_ctes(
                 force_materialization = False
 
         query_data = current_cte["ctequery"]["SelectStmt"]
-        child_nsp = parent_namespace.open_nested(alias=target_name, source="cte")
+        # Only recursive CTEs can reference themselves, other CTEs can also filter a table with the same name
+        child_nsp = parent_namespace.open_nested(
+            alias=target_name, source="cte" if recursive else "temporary"
+        )
         if "targetList" not in query_data and query_data["op"] == "SETOP_NONE":
             # CTE is a VALUES query
             values, columns = _pglast_parse_values_cte(
@@ -1349,9 +1445,9 @@ def _pglast_parse_ctes(
                 cte_query, target_table, materialized=force_materialization
             )
 
+        parent_namespace.register_cte(target_name, child_nsp)
         parsed_ctes.append(parsed_cte)
 
-    recursive = json_data.get("recursive", False)
     return CommonTableExpression(parsed_ctes, recursive=recursive)
 
 
@@ -1556,6 +1652,7 @@ def _pglast_parse_from_entry(
                 case _:
                     raise ParserError("Unknown join type: " + join_expr["jointype"])
 
+            n_outer_tables = namespace.n_tables()
             left = _pglast_parse_from_entry(
                 join_expr["larg"], namespace=namespace, query_txt=query_txt
             )
@@ -1565,9 +1662,11 @@ def _pglast_parse_from_entry(
             if join_type == JoinType.CrossJoin:
                 return JoinTableSource(left, right, join_type=JoinType.CrossJoin)
 
-            join_condition = _pglast_parse_predicate(
-                join_expr["quals"], namespace=namespace, query_txt=query_txt
-            )
+            # the join condition can only access tables that are part of the join
+            with namespace.restrict_scope(n_outer_tables):
+                join_condition = _pglast_parse_predicate(
+                    join_expr["quals"], namespace=namespace, query_txt=query_txt
+                )
 
             # we do not need to store new tables in available_tables here, since this is already handled by the recursion.
             return JoinTableSource(
@@ -1592,7 +1691,9 @@ def _pglast_parse_from_entry(
             else:
                 alias = ""
 
-            child_nsp = namespace.open_nested(alias=alias, source="subquery")
+            child_nsp = namespace.open_nested(
+                alias=alias, source="subquery", lateral=is_lateral
+            )
             subquery = _pglast_parse_query(
                 raw_subquery["subquery"]["SelectStmt"],
                 namespace=child_nsp,
@@ -1620,6 +1721,7 @@ def _pglast_parse_from_entry(
             parsed_function = _pglast_parse_expression(
                 function_expr, namespace=namespace, query_txt=query_txt
             )
+            namespace.register_opaque_source()
             return FunctionTableSource(parsed_function, alias=alias)
 
         case _:
@@ -1800,6 +1902,16 @@ def _pglast_parse_where(
     return Where(predicate)
 
 
+def _pglast_is_output_column(
+    pglast_data: dict, *, namespace: QueryNamespace
+) -> bool:
+    """Checks, whether an expression is just the name of a column that is created by the current query itself."""
+    fields: list[dict] = pglast_data.get("ColumnRef", {}).get("fields", [])
+    if len(fields) != 1 or "String" not in fields[0]:
+        return False
+    return namespace.produces_column(fields[0]["String"]["sval"])
+
+
 def _pglast_parse_groupby(
     groupby_clause: list[dict], *, namespace: QueryNamespace, query_txt: str
 ) -> GroupBy:
@@ -1828,6 +1940,12 @@ def _pglast_parse_groupby(
         group_expression = _pglast_parse_expression(
             item, namespace=namespace, query_txt=query_txt
         )
+        if _pglast_is_output_column(item, namespace=namespace):
+            # In contrast to ORDER BY, GROUP BY prefers the columns of the input tables over the columns in the SELECT clause
+            colname = item["ColumnRef"]["fields"][0]["String"]["sval"]
+            group_expression = ColumnExpression(
+                ColumnReference(colname, namespace.lookup_local_column(colname))
+            )
         groupings.append(group_expression)
 
     return GroupBy(groupings)
@@ -1860,7 +1978,11 @@ def _pglast_parse_having(
 
 
 def _pglast_parse_orderby(
-    order_clause: list[dict], *, namespace: QueryNamespace, query_txt: str
+    order_clause: list[dict],
+    *,
+    namespace: QueryNamespace,
+    query_txt: str,
+    output_columns: bool = True,
 ) -> OrderBy:
     """Handler method to parse the *ORDER BY* clause of a query.
 
@@ -1883,9 +2005,15 @@ def _pglast_parse_orderby(
 
     for item in order_clause:
         expression = item["SortBy"]
-        sort_key = _pglast_parse_expression(
-            expression["node"], namespace=namespace, query_txt=query_txt
-        )
+        if output_columns and _pglast_is_output_column(
+            expression["node"], namespace=namespace
+        ):
+            colname = expression["node"]["ColumnRef"]["fields"][0]["String"]["sval"]
+            sort_key = ColumnExpression(ColumnReference(colname))
+        else:
+            sort_key = _pglast_parse_expression(
+                expression["node"], namespace=namespace, query_txt=query_txt
+            )
 
         match expression["sortby_dir"]:
             case "SORTBY_ASC":
-- 
2.43.0


From 8d1c7c709f36fd7b6996e0e10e54e5e83a020e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 013/231] fix: keep exact constants, types, function names, SET
 values and hint comments when parsing

---
 postbound/parser.py   | 175 ++++++++++++++++++++++++++++--------------
 postbound/qal/_qal.py |   2 +-
 2 files changed, 119 insertions(+), 58 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index afd9743..aa8b346 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -31,12 +31,16 @@ from __future__ import annotations
 
 import contextlib
 import json
+import math
+import re
 import warnings
 from collections.abc import Generator, Iterable
+from decimal import Decimal
 from pathlib import Path
 from typing import Literal, Optional, overload
 
 import pglast
+import pglast.keywords
 
 from . import util
 from ._core import ColumnReference, TableReference
@@ -758,6 +762,17 @@ def _pglast_parse_star(
     raise ParserError("Unknown star reference format: " + str(pglast_data))
 
 
+def _pglast_parse_number(raw_value: str) -> int | float | Decimal:
+    """Converts the text representation of a large or fractional number to a value that does not lose any information."""
+    if raw_value.isdecimal():
+        return int(raw_value)
+    exact_value = Decimal(raw_value)
+    float_value = float(raw_value)
+    if math.isfinite(float_value) and Decimal(str(float_value)) == exact_value:
+        return float_value
+    return exact_value
+
+
 def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
     """Handler method to parse constant values in the query.
 
@@ -781,7 +796,7 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             return StaticValueExpression(val)
         case "fval":
             val = pglast_data["fval"]["fval"]
-            return StaticValueExpression(float(val))
+            return StaticValueExpression(_pglast_parse_number(val))
         case "sval":
             return StaticValueExpression(pglast_data["sval"]["sval"])
         case "boolval":
@@ -873,15 +888,62 @@ def _pglast_parse_type(pglast_data: dict) -> str:
     """
     if "names" not in pglast_data:
         raise ParserError("Unknown type format: " + str(pglast_data))
-    names = pglast_data["names"]
+    names: list[str] = [name["String"]["sval"] for name in pglast_data["names"]]
     if len(names) > 2:
         raise ParserError("Unknown type format: " + str(pglast_data))
-    raw_type = names[-1]["String"]["sval"]
+    *type_schema, raw_type = names
+    _pglast_reject_unsupported(pglast_data, "pct_type", "setof")
+    if not _pglast_is_plain_name(raw_type):
+        raise ParserError("Unsupported type name: " + str(pglast_data))
+
+    if type_schema and type_schema != ["pg_catalog"]:
+        raise ParserError("Unsupported type schema: " + str(pglast_data))
+    if raw_type == "char" and not type_schema:
+        # this is a special one-byte type, which is different from the SQL-standard CHAR
+        raise ParserError("Unsupported type name: " + str(pglast_data))
+    if raw_type == "interval" and "typmods" in pglast_data:
+        raise ParserError("Unsupported interval type: " + str(pglast_data))
+    if raw_type == "bpchar" and "typmods" not in pglast_data:
+        # plain CHAR is an abbreviation for CHAR(1) and therefore always contains a type modifier
+        return raw_type
+    if raw_type == "bit" and "typmods" not in pglast_data:
+        raise ParserError("Unsupported bit type: " + str(pglast_data))
 
     # for user-defined types we use get with the same type as argument
     return _PglastTypeMap.get(raw_type, raw_type)
 
 
+_PglastPlainIdentifier = re.compile(r"[a-z_][a-z0-9_]*")
+
+
+def _pglast_is_plain_name(identifier: str) -> bool:
+    """Checks, whether a type or function name can be written without quotes."""
+    return (
+        _PglastPlainIdentifier.fullmatch(identifier) is not None
+        and identifier not in pglast.keywords.RESERVED_KEYWORDS
+    )
+
+
+def _pglast_parse_function_name(funcname: list[dict]) -> str:
+    """Handler method to parse the (potentially schema-qualified) name of a function.
+
+    Parameters
+    ----------
+    funcname : list[dict]
+        JSON encoding of the function name.
+
+    Returns
+    -------
+    str
+        The complete name
+    """
+    components: list[str] = [elem["String"]["sval"] for elem in funcname]
+    if any(not _pglast_is_plain_name(comp) for comp in components):
+        # function names are case-insensitive in our representation
+        raise ParserError(f"Unsupported function name: {components}")
+    return ".".join(components)
+
+
 def _pglast_parse_case(
     pglast_data: dict, *, namespace: QueryNamespace, query_txt: str
 ) -> CaseExpression:
@@ -1130,9 +1192,7 @@ def _pglast_parse_expression(
             _pglast_reject_unsupported(
                 expression, "agg_order", "agg_within_group", "func_variadic"
             )
-            funcname = ".".join(
-                elem["String"]["sval"] for elem in expression["funcname"]
-            )
+            funcname = _pglast_parse_function_name(expression["funcname"])
             distinct = expression.get("agg_distinct", False)
             if expression.get("agg_filter", False):
                 filter_expr = _pglast_parse_predicate(
@@ -1166,9 +1226,7 @@ def _pglast_parse_expression(
                 "agg_within_group",
                 "func_variadic",
             )
-            funcname = ".".join(
-                elem["String"]["sval"] for elem in expression["funcname"]
-            )
+            funcname = _pglast_parse_function_name(expression["funcname"])
 
             args = [
                 _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
@@ -1913,7 +1971,11 @@ def _pglast_is_output_column(
 
 
 def _pglast_parse_groupby(
-    groupby_clause: list[dict], *, namespace: QueryNamespace, query_txt: str
+    groupby_clause: list[dict],
+    *,
+    namespace: QueryNamespace,
+    query_txt: str,
+    distinct: bool = False,
 ) -> GroupBy:
     """Handler method to parse the *GROUP BY* clause of a query.
 
@@ -1948,7 +2010,7 @@ def _pglast_parse_groupby(
             )
         groupings.append(group_expression)
 
-    return GroupBy(groupings)
+    return GroupBy(groupings, distinct=distinct)
 
 
 def _pglast_parse_having(
@@ -2233,7 +2295,7 @@ def _pglast_parse_explain(pglast_data: dict) -> tuple[Optional[Explain], dict]:
         definition: dict = option["DefElem"]
         match definition["defname"]:
             case "analyze":
-                use_analyze = True
+                use_analyze = _pglast_parse_explain_flag(definition)
             case "format":
                 output_format = definition["arg"]["String"]["sval"]
             case _:
@@ -2304,7 +2366,10 @@ def _pglast_parse_query(
 
     if "groupClause" in stmt:
         group_clause = _pglast_parse_groupby(
-            stmt["groupClause"], namespace=namespace, query_txt=query_txt
+            stmt["groupClause"],
+            namespace=namespace,
+            query_txt=query_txt,
+            distinct=stmt.get("groupDistinct", False),
         )
         clauses.append(group_clause)
 
@@ -2330,6 +2395,28 @@ def _pglast_parse_query(
     return build_query(clauses)
 
 
+def _pglast_parse_set_value(pglast_data: dict) -> str:
+    """Handler method to parse a single value that is assigned by a *SET* command."""
+    if "A_Const" not in pglast_data:
+        raise ParserError("Unknown variable value: " + str(pglast_data))
+    return str(_pglast_parse_const(pglast_data["A_Const"]))
+
+
+def _pglast_parse_explain_flag(definition: dict) -> bool:
+    """Handler method to parse a boolean *EXPLAIN* option."""
+    if "arg" not in definition:
+        return True
+    match definition["arg"]:
+        case {"Integer": value}:
+            return bool(value.get("ival", 0))
+        case {"String": value} if value["sval"].lower() in {"true", "on"}:
+            return True
+        case {"String": value} if value["sval"].lower() in {"false", "off"}:
+            return False
+        case _:
+            raise ParserError("Unknown explain option: " + str(definition))
+
+
 def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list[dict]]:
     """Handler method to parse all *SET* commands that precede the actual query.
 
@@ -2356,17 +2443,18 @@ def _pglast_parse_set_commands(pglast_data: list[dict]) -> tuple[list[str], list
         if var_set_stmt["kind"] != "VAR_SET_VALUE":
             raise ParserError(f"Unknown variable set option: {var_set_stmt}")
         var_name = var_set_stmt["name"]
-        var_value = var_set_stmt["args"][0]["A_Const"]["sval"]["sval"]
+        var_value = ", ".join(
+            _pglast_parse_set_value(arg) for arg in var_set_stmt["args"]
+        )
 
-        parsed_stmt = f"SET {var_name} TO '{var_value}';"
+        scope = "LOCAL " if var_set_stmt.get("is_local", False) else ""
+        parsed_stmt = f"SET {scope}{var_name} TO {var_value};"
         prep_stmts.append(parsed_stmt)
 
     return prep_stmts, pglast_data[i:]
 
 
-def _parse_hint_block(
-    raw_query: str, *, set_cmds: list[str], _current_hint_text: list[str] | None = None
-) -> Optional[Hint]:
+def _parse_hint_block(raw_query: str, *, set_cmds: list[str]) -> Optional[Hint]:
     """Handler method to extract the hint block (i.e. preceding comments) from a query
 
     Parameters
@@ -2376,53 +2464,26 @@ def _parse_hint_block(
         comments and does not represent them in the AST in any way.
     set_cmds: list[str]
         *SET* commands that have already been parsed. These will be added to the hint block.
-    _current_hint_text : list[str], optional
-        Internal parameter to keep track of the current hint text. This is used because the parsing logic uses a recursive
-        implementation.
 
     Returns
     -------
     Optional[Hint]
         The hint block if any hints were found, or *None* otherwise.
     """
-    _current_hint_text = _current_hint_text or []
-
-    raw_query = raw_query.lstrip()
-    block_hint = "/*" in raw_query
-    line_hint = raw_query.startswith("--")
-    if not block_hint and not line_hint:
-        prep_stms = "\n".join(set_cmds)
-        hints = "\n".join(_current_hint_text)
-        return Hint(prep_stms, hints) if prep_stms or hints else None
-
-    if line_hint:
-        line_end = raw_query.find("\n")
-        if line_end == -1:
-            # should never be raised b/c parsing should have failed already at this point
-            raise ParserError(f"Unterminated line comment: {raw_query}")
-
-        line_comment = raw_query[:line_end].strip()
-        _current_hint_text.append(line_comment)
-        return _parse_hint_block(
-            raw_query[line_end:],
-            set_cmds=set_cmds,
-            _current_hint_text=_current_hint_text,
+    hint_text: list[str] = []
+    preceding_comment = True
+    for token in pglast.parser.scan(raw_query):
+        # relying on the tokens ensures that we do not confuse literals with comments
+        is_hint = token.name == "C_COMMENT" or (
+            token.name == "SQL_COMMENT" and preceding_comment
         )
+        if is_hint:
+            hint_text.append(raw_query[token.start : token.end + 1].strip())
+        preceding_comment = is_hint
 
-    # must be block hint
-    block_start = raw_query.find("/*")
-    block_end = raw_query.find("*/")
-    if block_end == -1:
-        # should never be raised b/c parsing should have failed already at this point
-        raise ParserError(f"Unterminated block comment: {raw_query}")
-
-    block_comment = raw_query[block_start : block_end + 2].strip()
-    _current_hint_text.append(block_comment)
-    return _parse_hint_block(
-        raw_query[block_end + 2 :],
-        set_cmds=set_cmds,
-        _current_hint_text=_current_hint_text,
-    )
+    prep_stms = "\n".join(set_cmds)
+    hints = "\n".join(hint_text)
+    return Hint(prep_stms, hints) if prep_stms or hints else None
 
 
 def _apply_extra_clauses(
diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index becda48..27da8a3 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1036,7 +1036,7 @@ class FunctionExpression(SqlExpression):
     def __str__(self) -> str:
         args_str = ", ".join(str(arg) for arg in self._arguments)
         distinct_str = "DISTINCT " if self._distinct else ""
-        if len(self._arguments) > 1 and self._distinct:
+        if len(self._arguments) > 1 and self._distinct and self._function == "COUNT":
             # Postgres, DuckDB (and others?) require brackets around the arguments if DISTINCT is used with multiple arguments,
             # e.g. COUNT(DISTINCT (a, b))
             # Notice that this is NOT documented in the aggregate syntax under
-- 
2.43.0


From db9bdaff4c642f7616ee92ce01b1c67ccb44b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 014/231] fix: report every child expression and column of SQL
 expressions

---
 postbound/qal/_qal.py | 60 +++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 27da8a3..564bade 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -601,7 +601,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -609,7 +609,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, tuple):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
@@ -774,7 +774,7 @@ class ColumnExpression(SqlExpression):
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_column_expr(self)
+        return visitor.visit_column_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
@@ -1015,7 +1015,10 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        children: list[SqlExpression] = list(self.arguments)
+        if self._filter_expr:
+            children.append(self._filter_expr)
+        return children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1417,27 +1420,17 @@ class WindowExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
-        ordering_children = self.ordering.iterexpressions() if self.ordering else []
-        filter_children = (
-            self.filter_condition.iterexpressions() if self.filter_condition else []
-        )
-        return util.flatten(
-            [
-                function_children,
-                partitioning_children,
-                ordering_children,
-                filter_children,
-            ]
-        )
+        children: list[SqlExpression] = [self.window_function, *self.partitioning]
+        if self.ordering:
+            children.extend(self.ordering.iterexpressions())
+        if self.filter_condition:
+            children.append(self.filter_condition)
+        return children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_window_expr(self)
+        return visitor.visit_window_expr(self, *args, **kwargs)
 
     __hash__ = SqlExpression.__hash__
 
@@ -1556,19 +1549,14 @@ class CaseExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
-        )
-        expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
-        )
-        return case_children + expression_children + else_children
+        children: list[SqlExpression] = []
+        if self.simple_expression:
+            children.append(self.simple_expression)
+        for condition, result in self.cases:
+            children.extend((condition, result))
+        if self.else_expression:
+            children.append(self.else_expression)
+        return children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -5325,7 +5313,7 @@ class Explain(BaseClause):
     def accept_visitor(
         self, visitor: ClauseVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_explain_clause(self)
+        return visitor.visit_explain_clause(self, *args, **kwargs)
 
     __hash__ = BaseClause.__hash__
 
@@ -7583,7 +7571,7 @@ class OrderBy(BaseClause):
     def accept_visitor(
         self, visitor: ClauseVisitor[VisitorResult], *args, **kwargs
     ) -> VisitorResult:
-        return visitor.visit_orderby_clause(self)
+        return visitor.visit_orderby_clause(self, *args, **kwargs)
 
     def __len__(self) -> int:
         return len(self._expressions)
-- 
2.43.0


From 6ccc5720f3cff45eb53e174e8a93dd91796eade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 015/231] fix: keep every join predicate between two tables and
 make predicate views consistent

---
 postbound/qal/_qal.py | 244 ++++++++++++++++++++++--------------------
 1 file changed, 130 insertions(+), 114 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 564bade..5a6cc8a 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -283,7 +283,12 @@ class StaticValueExpression(SqlExpression, Generic[T]):
     __hash__ = SqlExpression.__hash__
 
     def __eq__(self, other) -> bool:
-        return isinstance(other, type(self)) and self.value == other.value
+        # Python treats True == 1 == 1.0, but these are different constants in SQL
+        return (
+            isinstance(other, type(self))
+            and self.value == other.value
+            and str(self) == str(other)
+        )
 
     def __str__(self) -> str:
         if self.value is None:
@@ -1420,11 +1425,12 @@ class WindowExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        children: list[SqlExpression] = [self.window_function, *self.partitioning]
-        if self.ordering:
-            children.extend(self.ordering.iterexpressions())
+        children: list[SqlExpression] = [self.window_function]
         if self.filter_condition:
             children.append(self.filter_condition)
+        children.extend(self.partitioning)
+        if self.ordering:
+            children.extend(self.ordering.iterexpressions())
         return children
 
     def accept_visitor(
@@ -2695,7 +2701,7 @@ class BetweenPredicate(BasePredicate):
         if not column or not interval or len(interval) != 2:
             raise ValueError("Column and interval must be set")
         self._column = column
-        self._interval = interval
+        self._interval = tuple(interval)
         self._interval_start, self._interval_end = self._interval
 
         hash_val = hash(
@@ -2887,7 +2893,7 @@ class InPredicate(BasePredicate):
             raise ValueError("No empty value allowed")
         self._column = column
         self._values = tuple(values)
-        hash_val = hash((LogicalOperator.In, self._column, self._values))
+        hash_val = hash((LogicalOperator.In, self._column, frozenset(self._values)))
         super().__init__(LogicalOperator.In, hash_val=hash_val)
 
     __slots__ = ("_column", "_values")
@@ -3085,6 +3091,7 @@ class UnaryPredicate(BasePredicate):
         return [self.column]
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
+        self._assert_join_predicate()
         columns = _collect_column_expression_columns(self.column)
         return _generate_join_pairs(columns, columns)
 
@@ -3352,7 +3359,10 @@ class CompoundPredicate(AbstractPredicate):
         return util.flatten(child.iterexpressions() for child in self._children)
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return util.set_union(child.join_partners() for child in self._children)
+        self._assert_join_predicate()
+        return util.set_union(
+            child.join_partners() for child in self._children if child.is_join()
+        )
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return util.set_union(set(child.base_predicates()) for child in self._children)
@@ -3696,6 +3706,22 @@ UnwrappedFilter = tuple[ColumnReference, LogicalOperator, object]
 """Type that captures the main components of a filter predicate."""
 
 
+_MirroredOperators = {
+    LogicalOperator.Equal: LogicalOperator.Equal,
+    LogicalOperator.NotEqual: LogicalOperator.NotEqual,
+    LogicalOperator.Less: LogicalOperator.Greater,
+    LogicalOperator.LessEqual: LogicalOperator.GreaterEqual,
+    LogicalOperator.Greater: LogicalOperator.Less,
+    LogicalOperator.GreaterEqual: LogicalOperator.LessEqual,
+    LogicalOperator.DistinctFrom: LogicalOperator.DistinctFrom,
+    LogicalOperator.NotDistinctFrom: LogicalOperator.NotDistinctFrom,
+    LogicalOperator.Contains: LogicalOperator.ContainedBy,
+    LogicalOperator.ContainedBy: LogicalOperator.Contains,
+    LogicalOperator.Overlaps: LogicalOperator.Overlaps,
+}
+"""The operators that result from swapping the operands of a binary predicate."""
+
+
 def _attempt_filter_unwrap(
     predicate: AbstractPredicate,
 ) -> tuple[ColumnReference, LogicalOperator, Any]:
@@ -3728,22 +3754,26 @@ def _attempt_filter_unwrap(
     match predicate:
         case BinaryPredicate(op, lhs, rhs):
             left, right = _unwrap_expression(lhs), _unwrap_expression(rhs)
-            left, right = (
-                (left, right) if isinstance(left, ColumnReference) else (right, left)
-            )
-            assert isinstance(left, ColumnReference)
-            return left, op, right
+            if isinstance(left, ColumnReference):
+                return left, op, right
+            if not isinstance(right, ColumnReference):
+                raise ValueError("Filter does not restrict a column: " + str(predicate))
+            if op not in _MirroredOperators:
+                raise ValueError("Cannot swap the operands of " + str(predicate))
+            return right, _MirroredOperators[op], left
 
         case BetweenPredicate(lhs, lower, upper):
             lhs = _unwrap_expression(lhs)
             lower, upper = _unwrap_expression(lower), _unwrap_expression(upper)
-            assert isinstance(lhs, ColumnReference)
+            if not isinstance(lhs, ColumnReference):
+                raise ValueError("Filter does not restrict a column: " + str(predicate))
             return lhs, LogicalOperator.Between, (lower, upper)
 
         case InPredicate(lhs, values):
             lhs = _unwrap_expression(lhs)
             values = [_unwrap_expression(val) for val in values]
-            assert isinstance(lhs, ColumnReference)
+            if not isinstance(lhs, ColumnReference):
+                raise ValueError("Filter does not restrict a column: " + str(predicate))
             return lhs, LogicalOperator.In, tuple(values)
 
         case _:
@@ -3882,7 +3912,7 @@ class SimpleFilter(AbstractPredicate):
         self._value = value
         self._predicate = predicate
 
-        hash_val = hash((column, operation, value))
+        hash_val = hash(predicate)
         super().__init__(hash_val)
 
     __slots__ = ("_column", "_operation", "_value", "_predicate")
@@ -4059,10 +4089,11 @@ class SimpleJoin(AbstractPredicate):
             return False
         if not predicate.operation == LogicalOperator.Equal:
             return False
-        lhs, rhs = (
-            _unwrap_expression(predicate.first_argument),
-            _unwrap_expression(predicate.second_argument),
-        )
+        try:
+            lhs = _unwrap_expression(predicate.first_argument)
+            rhs = _unwrap_expression(predicate.second_argument)
+        except ValueError:
+            return False
         return isinstance(lhs, ColumnReference) and isinstance(rhs, ColumnReference)
 
     @staticmethod
@@ -4115,7 +4146,7 @@ class SimpleJoin(AbstractPredicate):
         self._rhs = rhs
         self._predicate = predicate
 
-        hash_val = hash((lhs, rhs))
+        hash_val = hash(predicate)
         super().__init__(hash_val)
 
     __slots__ = ("_lhs", "_rhs", "_predicate")
@@ -4183,7 +4214,7 @@ class SimpleJoin(AbstractPredicate):
         return self._predicate.iterexpressions()
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return {(self.lhs, self.rhs)}
+        return self._predicate.join_partners()
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return [self]
@@ -4364,6 +4395,8 @@ class QueryPredicates:
     def __init__(self, root: Optional[AbstractPredicate]):
         self._root = root
         self._hash_val = hash(self._root)
+        self._filters: Optional[frozenset[AbstractPredicate]] = None
+        self._joins: Optional[frozenset[AbstractPredicate]] = None
         self._join_predicate_map = self._init_join_predicate_map()
 
     @property
@@ -4396,7 +4429,6 @@ class QueryPredicates:
         """
         return self._root is None
 
-    @functools.cache
     def filters(self) -> Collection[AbstractPredicate]:
         """Provides all filter predicates that are contained in the predicate hierarchy.
 
@@ -4416,10 +4448,11 @@ class QueryPredicates:
             The filter predicates.
         """
         if self.is_empty():
-            return []
-        return _collect_filter_predicates(self._root)
+            return set()
+        if self._filters is None:
+            self._filters = frozenset(_collect_filter_predicates(self._root))
+        return set(self._filters)
 
-    @functools.cache
     def joins(self) -> Collection[AbstractPredicate]:
         """Provides all join predicates that are contained in the predicate hierarchy.
 
@@ -4439,10 +4472,11 @@ class QueryPredicates:
             The join predicates
         """
         if self.is_empty():
-            return []
-        return _collect_join_predicates(self._root)
+            return set()
+        if self._joins is None:
+            self._joins = frozenset(_collect_join_predicates(self._root))
+        return set(self._joins)
 
-    @functools.cache
     def join_graph(self, *, merge_aliases: bool = False) -> nx.Graph:
         """Provides the join graph for the predicates.
 
@@ -4479,17 +4513,22 @@ class QueryPredicates:
                 filter_predicates = self.filters_for(table)
                 join_graph.add_node(table, predicate=filter_predicates)
 
-            for join in self.joins():
-                for first_col, second_col in join.join_partners():
-                    join_graph.add_edge(
-                        first_col.table, second_col.table, predicate=join
-                    )
+            for tables, joins in self._join_predicate_map.items():
+                first_table, second_table = tables
+                join_graph.add_edge(
+                    first_table,
+                    second_table,
+                    predicate=CompoundPredicate.create_and(joins),
+                )
 
             return join_graph
 
+        def unaliased(table: TableReference) -> TableReference:
+            return table if table.virtual else table.drop_alias()
+
         table2alias = collections.defaultdict(set)
         for tab in self._root.tables():
-            table2alias[tab.drop_alias()].add(tab)
+            table2alias[unaliased(tab)].add(tab)
 
         table2preds = {
             tab: {alias: self.filters_for(alias) for alias in aliased}
@@ -4498,20 +4537,13 @@ class QueryPredicates:
         for table, preds in table2preds.items():
             join_graph.add_node(table, predicate=preds, aliases=table2alias[table])
 
-        col2join: dict[frozenset[ColumnReference], AbstractPredicate] = {}
-        for join in self.joins():
-            for first_col, second_col in join.join_partners():
-                partners = frozenset([first_col, second_col])
-                col2join[partners] = join
-
-        tab2join = collections.defaultdict(dict)
-        for partners, join in col2join.items():
-            tabs = frozenset([col.drop_table_alias() for col in partners])
-            tab2join[tabs][partners] = join
-
-        for tabs, joins in tab2join.items():
-            first_tab, second_tab = tabs
-            join_graph.add_edge(first_tab, second_tab, predicate=joins)
+        for tables, joins in self._join_predicate_map.items():
+            # joins between different aliases of the same table are represented as self-loops
+            first_table, second_table = (unaliased(tab) for tab in tables)
+            if not join_graph.has_edge(first_table, second_table):
+                join_graph.add_edge(first_table, second_table, predicate={})
+            edge_predicates = join_graph.edges[first_table, second_table]["predicate"]
+            edge_predicates[tables] = CompoundPredicate.create_and(joins)
 
         return join_graph
 
@@ -4547,7 +4579,6 @@ class QueryPredicates:
             else None
         )
 
-    @functools.cache
     def joins_for(self, table: TableReference) -> Collection[AbstractPredicate]:
         """Provides all join predicates that reference a specific table.
 
@@ -4812,32 +4843,32 @@ class QueryPredicates:
 
     def _init_join_predicate_map(
         self,
-    ) -> dict[frozenset[TableReference], AbstractPredicate]:
+    ) -> dict[frozenset[TableReference], Sequence[AbstractPredicate]]:
         """Generates the necessary mapping for `_map_based_joins_between`.
 
         This is a static data structure and hence can be pre-computed.
 
         Returns
         -------
-        dict[frozenset[TableReference], AbstractPredicate]
-            A mapping from a set of tables to the join predicate that is specified between those tables. If a set of tables
-            does not appear in the dictionary, there is no join predicate between the specific tables.
+        dict[frozenset[TableReference], Sequence[AbstractPredicate]]
+            A mapping from each pair of tables to all join predicates that are specified between those tables (which might
+            also join additional tables). If a pair of tables does not appear in the dictionary, there is no join predicate
+            between the specific tables.
         """
         if self.is_empty():
             return {}
 
-        predicate_map: dict[frozenset[TableReference], AbstractPredicate] = {}
-        for table in self._root.tables():
-            join_partners = self.joins_for(table)
-            for join_predicate in join_partners:
-                partner_tables = {
-                    partner.table for partner in join_predicate.join_partners_of(table)
-                }
-                map_key = frozenset(partner_tables | {table})
-                if map_key in predicate_map:
-                    continue
-                predicate_map[map_key] = join_predicate
-        return predicate_map
+        predicate_map: dict[frozenset[TableReference], list[AbstractPredicate]] = (
+            collections.defaultdict(list)
+        )
+        for join_predicate in self.joins():
+            joined_tables = {
+                frozenset((first_col.table, second_col.table))
+                for first_col, second_col in join_predicate.join_partners()
+            }
+            for map_key in joined_tables:
+                predicate_map[map_key].append(join_predicate)
+        return dict(predicate_map)
 
     def _legacy_joins_between(
         self,
@@ -4863,27 +4894,18 @@ class QueryPredicates:
             A conjunction of all the individual join predicates between the two sets of candidate tables. If there is no join
             predicate between any of the tables, *None* is returned.
         """
-        if isinstance(first_table, TableReference) and isinstance(
-            second_table, TableReference
-        ):
-            if first_table == second_table:
-                return None
-            first_joins: Collection[AbstractPredicate] = self.joins_for(first_table)
-            matching_joins = {
-                join for join in first_joins if join.joins_table(second_table)
-            }
-            return (
-                CompoundPredicate.create_and(matching_joins) if matching_joins else None
-            )
-
-        matching_joins = set()
+        matching_joins: dict[AbstractPredicate, None] = {}
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
         for first in frozenset(first_table):
             for second in frozenset(second_table):
-                join_predicate = self.joins_between(first, second)
-                if not join_predicate:
+                if first == second:
                     continue
-                matching_joins.add(join_predicate)
+                for join in self.joins():
+                    if any(
+                        {first, second} == {col_a.table, col_b.table}
+                        for col_a, col_b in join.join_partners()
+                    ):
+                        matching_joins[join] = None
         return CompoundPredicate.create_and(matching_joins) if matching_joins else None
 
     def _graph_based_joins_between(
@@ -4910,29 +4932,22 @@ class QueryPredicates:
         join_graph = self.join_graph()
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
 
-        if len(first_table) > 1:
-            first_first_table, *remaining_first_tables = first_table
-            for remaining_first_table in remaining_first_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_first_table, remaining_first_table
-                )
-            first_hook = first_first_table
-        else:
-            first_hook = util.simplify(first_table)
-
-        if len(second_table) > 1:
-            first_second_table, *remaining_second_tables = second_table
-            for remaining_second_table in remaining_second_tables:
-                join_graph = nx.contracted_nodes(
-                    join_graph, first_second_table, remaining_second_table
+        matching_joins: dict[AbstractPredicate, None] = {}
+        for first in first_table:
+            for second in second_table:
+                if not join_graph.has_edge(first, second):
+                    continue
+                edge_predicate: AbstractPredicate = join_graph.edges[first, second][
+                    "predicate"
+                ]
+                components = (
+                    edge_predicate.children
+                    if isinstance(edge_predicate, CompoundPredicate)
+                    and edge_predicate.operation == CompoundOperator.And
+                    else [edge_predicate]
                 )
-            second_hook = first_second_table
-        else:
-            second_hook = util.simplify(second_table)
-
-        if (first_hook, second_hook) not in join_graph.edges:
-            return None
-        return join_graph.edges[first_hook, second_hook]["predicate"]
+                matching_joins.update(dict.fromkeys(components))
+        return CompoundPredicate.create_and(matching_joins) if matching_joins else None
 
     def _map_based_joins_between(
         self,
@@ -4958,15 +4973,15 @@ class QueryPredicates:
             predicate between any of the tables, *None* is returned.
 
         """
-        join_predicates = set()
+        join_predicates: dict[AbstractPredicate, None] = {}
         first_table, second_table = util.enlist(first_table), util.enlist(second_table)
         for first in first_table:
             for second in second_table:
                 map_key = frozenset((first, second))
                 if map_key not in self._join_predicate_map:
                     continue
-                current_predicate = self._join_predicate_map[map_key]
-                join_predicates.add(current_predicate)
+                current_predicates = self._join_predicate_map[map_key]
+                join_predicates.update(dict.fromkeys(current_predicates))
         if not join_predicates:
             return None
         return CompoundPredicate.create_and(join_predicates)
@@ -5270,7 +5285,7 @@ class Explain(BaseClause):
         self._analyze = analyze
         self._target_format = target_format if target_format != "" else None
 
-        hash_val = hash((analyze, target_format))
+        hash_val = hash((analyze, self._target_format))
         super().__init__(hash_val)
 
     __slots__ = ("_analyze", "_target_format")
@@ -5379,7 +5394,7 @@ class WithQuery:
             target_name if isinstance(target_name, str) else target_name.identifier()
         )
         self._materialized = materialized
-        self._hash_val = hash((query, target_name))
+        self._hash_val = hash((query, self._target_name, self._materialized))
 
     __slots__ = (
         "_query",
@@ -5487,6 +5502,7 @@ class WithQuery:
             isinstance(other, type(self))
             and self._target_name == other._target_name
             and self._query == other._query
+            and self._materialized == other._materialized
         )
 
     def __repr__(self) -> str:
@@ -5527,7 +5543,7 @@ class ValuesWithQuery(WithQuery):
         columns: Optional[Iterable[str | ColumnReference]] = None,
         materialized: Optional[bool] = None,
     ) -> None:
-        self._values = values
+        self._values = values = tuple(values)
         self._materialized = materialized
 
         if isinstance(target_name, TableReference):
@@ -5582,9 +5598,7 @@ class ValuesWithQuery(WithQuery):
         return set()
 
     def columns(self) -> set[ColumnReference]:
-        if not self._columns:
-            return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return set(self._columns)
 
     def output_columns(self) -> Sequence[ColumnExpression]:
         """Provides the columns that form the result relation of this CTE.
@@ -5604,7 +5618,7 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+        return list(self._columns)
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -5612,6 +5626,7 @@ class ValuesWithQuery(WithQuery):
             and self._values == other._values
             and self._columns == other._columns
             and self._table == other._table
+            and self._materialized == other._materialized
         )
 
     __hash__ = WithQuery.__hash__
@@ -6452,6 +6467,7 @@ class SubqueryTableSource(TableSource):
             isinstance(other, type(self))
             and self._subquery_expression == other._subquery_expression
             and self._target_name == other._target_name
+            and self._lateral == other._lateral
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 8ae76b2e0d8fa237d750eb80772e7b56444b5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 016/231] fix: report the tables, columns, subqueries and
 scopes of complete queries

---
 postbound/qal/_qal.py | 247 ++++++++++++++++++++++++++++++------------
 1 file changed, 177 insertions(+), 70 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 5a6cc8a..0a39707 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -6093,16 +6093,16 @@ class Select(BaseClause):
         return [target for target in self.targets if target.is_star()]
 
     def columns(self) -> set[ColumnReference]:
-        return util.set_union(target.columns() for target in self.targets)
+        return util.set_union(expr.columns() for expr in self.iterexpressions())
 
     def itercolumns(self) -> Iterable[ColumnReference]:
-        return util.flatten(target.itercolumns() for target in self.targets)
+        return util.flatten(expr.itercolumns() for expr in self.iterexpressions())
 
     def tables(self) -> set[TableReference]:
-        return util.set_union(target.tables() for target in self.targets)
+        return util.set_union(expr.tables() for expr in self.iterexpressions())
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
-        return [target.expression for target in self.targets]
+        return [*self._distinct_cols, *(target.expression for target in self.targets)]
 
     def output_names(self) -> dict[str, ColumnReference]:
         """Output names map the alias of each column to the actual column.
@@ -6445,7 +6445,9 @@ class SubqueryTableSource(TableSource):
         ]
 
     def tables(self) -> set[TableReference]:
-        return self._subquery_expression.tables() | {self.target_table}
+        target_table = self.target_table
+        virtual_tables = {target_table} if target_table else set()
+        return self._subquery_expression.tables() | virtual_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._subquery_expression.columns()
@@ -6457,6 +6459,9 @@ class SubqueryTableSource(TableSource):
         return self._subquery_expression.itercolumns()
 
     def predicates(self) -> QueryPredicates | None:
+        if self._subquery_expression.query.is_set_query():
+            # the input queries of a set operation do not form a conjunction
+            return None
         return self._subquery_expression.query.predicates()
 
     def __hash__(self) -> int:
@@ -6572,7 +6577,7 @@ class ValuesTableSource(TableSource):
         return self._columns
 
     def tables(self) -> set[TableReference]:
-        return {self._table}
+        return {self._table} if self._table else set()
 
     def columns(self) -> set[ColumnReference]:
         return set(self._columns)
@@ -6687,7 +6692,8 @@ class FunctionTableSource(TableSource):
         return self._alias.identifier() if self._alias else ""
 
     def tables(self) -> set[TableReference]:
-        return self._function.tables() | {self._alias} if self._alias else set()
+        virtual_tables = {self._alias} if self._alias else set()
+        return self._function.tables() | virtual_tables
 
     def columns(self) -> set[ColumnReference]:
         return self._function.columns()
@@ -6908,6 +6914,8 @@ class JoinTableSource(TableSource):
                 return self._left.target_table
             case ValuesTableSource():
                 return self._left.table
+            case FunctionTableSource():
+                return self._left.target_table
             case _:
                 raise TypeError("Unknown table source type: " + str(type(self._left)))
 
@@ -8185,10 +8193,7 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
         source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        nested_subqueries = _collect_subqueries_in_table_source(table_source.right)
         condition_subqueries = (
             util.set_union(
                 collect_subqueries_in_expression(cond_expr)
@@ -8199,7 +8204,10 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
         )
         return source_subqueries | nested_subqueries | condition_subqueries
     else:
-        return set()
+        return util.set_union(
+            collect_subqueries_in_expression(expression)
+            for expression in table_source.iterexpressions()
+        )
 
 
 def _collect_subqueries(clause: BaseClause) -> set[SqlQuery]:
@@ -8239,8 +8247,8 @@ def _collect_subqueries(clause: BaseClause) -> set[SqlQuery]:
         return set()
     elif isinstance(clause, Select):
         return util.set_union(
-            collect_subqueries_in_expression(target.expression)
-            for target in clause.targets
+            collect_subqueries_in_expression(expression)
+            for expression in clause.iterexpressions()
         )
     elif isinstance(clause, ImplicitFromClause):
         return set()
@@ -8303,17 +8311,23 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     if isinstance(table_source, DirectTableSource):
         return {table_source.table}
     elif isinstance(table_source, SubqueryTableSource):
-        return _collect_bound_tables(table_source.query.from_clause)
+        target_table = table_source.target_table
+        virtual_tables = {target_table} if target_table else set()
+        return virtual_tables | table_source.query.bound_tables()
     elif isinstance(table_source, JoinTableSource):
-        direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
-        return direct_tables | nested_tables
+        left_tables = _collect_bound_tables_from_source(table_source.left)
+        right_tables = _collect_bound_tables_from_source(table_source.right)
+        return left_tables | right_tables
+    elif isinstance(table_source, ValuesTableSource):
+        return table_source.tables()
+    elif isinstance(table_source, FunctionTableSource):
+        target_table = table_source.target_table
+        return {target_table} if target_table else set()
+    else:
+        raise TypeError("Unknown table source type: " + str(type(table_source)))
 
 
-def _collect_bound_tables(from_clause: From) -> set[TableReference]:
+def _collect_bound_tables(from_clause: Optional[From]) -> set[TableReference]:
     """Handler method to provide all tables that are "produced" in the given clause.
 
     "Produced" tables are tables that are either directly referenced in the *FROM* clause (e.g. ``FROM R``), referenced as
@@ -8334,12 +8348,87 @@ def _collect_bound_tables(from_clause: From) -> set[TableReference]:
     --------
     SqlQuery.bound_tables
     """
-    if isinstance(from_clause, ImplicitFromClause):
-        return from_clause.tables()
-    else:
-        return util.set_union(
-            _collect_bound_tables_from_source(src) for src in from_clause.items
-        )
+    if from_clause is None:
+        return set()
+    return util.set_union(
+        _collect_bound_tables_from_source(src) for src in from_clause.items
+    )
+
+
+def _skipped_clauses(skip: Optional[Type | Iterable[Type]]) -> tuple[Type, ...]:
+    """Normalizes the clause types that should be skipped, such that they can be used in *isinstance* checks."""
+    if skip is None:
+        return ()
+    return (skip,) if isinstance(skip, type) else tuple(skip)
+
+
+def _own_tables(table_source: TableSource) -> set[TableReference]:
+    """Provides the tables that a table source adds to the namespace of the *FROM* clause.
+
+    In contrast to `_collect_bound_tables_from_source`, this does not include tables that can only be accessed from within a
+    subquery.
+    """
+    match table_source:
+        case DirectTableSource():
+            return {table_source.table}
+        case JoinTableSource():
+            return _own_tables(table_source.left) | _own_tables(table_source.right)
+        case ValuesTableSource():
+            target_table = table_source.table
+        case _:
+            target_table = table_source.target_table
+    return {target_table} if target_table else set()
+
+
+def _unbound_tables_in_expression(expression: SqlExpression) -> set[TableReference]:
+    """Determines all tables that an expression requires from its surrounding query."""
+    match expression:
+        case SubqueryExpression():
+            return expression.query.unbound_tables()
+        case ColumnExpression() | StarExpression():
+            return expression.tables()
+        case _:
+            return util.set_union(
+                _unbound_tables_in_expression(child)
+                for child in expression.iterchildren()
+            )
+
+
+def _collect_unbound_tables(query: SelectStatement) -> set[TableReference]:
+    """Handler method to provide all tables that have to be supplied by the context of a query.
+
+    The tables are determined according to the scopes of the query: a table that is selected in a subquery is only available
+    within that subquery.
+
+    See Also
+    --------
+    SqlQuery.unbound_tables
+    """
+    own_tables: set[TableReference] = set()
+    required_tables: set[TableReference] = set()
+
+    for clause in query.clauses():
+        match clause:
+            case CommonTableExpression():
+                for with_query in clause.queries:
+                    required_tables |= with_query.query.unbound_tables() - own_tables
+                    own_tables.add(with_query.target_table)
+            case UnionClause() | ExceptClause() | IntersectClause():
+                required_tables |= clause.left_query.unbound_tables() - own_tables
+                required_tables |= clause.right_query.unbound_tables() - own_tables
+            case From():
+                own_tables |= util.set_union(_own_tables(src) for src in clause.items)
+
+    for clause in query.clauses():
+        if isinstance(
+            clause,
+            (CommonTableExpression, UnionClause, ExceptClause, IntersectClause),
+        ):
+            continue
+        for expression in clause.iterexpressions():
+            required_tables |= _unbound_tables_in_expression(expression) - own_tables
+
+    return required_tables
 
 
 FromClauseType = TypeVar("FromClauseType", bound=From)
@@ -8414,7 +8503,8 @@ def _create_ast(item: Any, *, indentation: int = 0) -> str:
 
         # Clauses
         case Where() | Having():
-            predicate_str = _create_ast(item.predicate, indentation=indentation + 2)
+            predicate = item.predicate if isinstance(item, Where) else item.condition
+            predicate_str = _create_ast(predicate, indentation=indentation + 2)
             return f"{prefix}+-{item_str}\n{predicate_str}"
         case DirectTableSource():
             return f"{prefix}+-{item_str} [{item.table}]"
@@ -8577,6 +8667,7 @@ class SqlQuery:
         self._explain = explain
 
         self._query_predicates: QueryPredicates | None = None
+        self._tables: frozenset[TableReference] | None = None
 
         self._hash_val = hash(
             (
@@ -8605,6 +8696,7 @@ class SqlQuery:
         "_hints",
         "_explain",
         "_query_predicates",
+        "_tables",
         "_hash_val",
     )
 
@@ -8776,7 +8868,6 @@ class SqlQuery:
         """
         return self.explain is not None
 
-    @functools.cache
     def tables(self) -> set[TableReference]:
         """Provides all tables that are referenced at any point in the query.
 
@@ -8789,6 +8880,8 @@ class SqlQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
+        if self._tables is not None:
+            return set(self._tables)
         relevant_clauses: list[BaseClause] = [
             self._select_clause,
             self._from_clause,
@@ -8798,14 +8891,13 @@ class SqlQuery:
             self._orderby_clause,
             self._limit_clause,
         ]
-
         tabs = set()
         tabs |= self.cte_clause.referenced_tables() if self.cte_clause else set()
         for clause in relevant_clauses:
             if clause is None:
                 continue
             tabs |= clause.tables()
-
+        self._tables = frozenset(tabs)
         return tabs
 
     def output_columns(self) -> Sequence[ColumnReference]:
@@ -8898,6 +8990,9 @@ class SqlQuery:
 
         if self.cte_clause:
             for with_query in self.cte_clause.queries:
+                if with_query.query.is_set_query():
+                    # the input queries of a set operation do not form a conjunction
+                    continue
                 current_predicate = current_predicate.and_(
                     with_query.query.predicates()
                 )
@@ -8905,7 +9000,7 @@ class SqlQuery:
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
@@ -9025,6 +9120,7 @@ class SqlQuery:
             self.orderby_clause,
             self.limit_clause,
         ]
+        skip = _skipped_clauses(skip)
         return [
             clause
             for clause in all_clauses
@@ -9065,28 +9161,7 @@ class SqlQuery:
         set[TableReference]
             The unbound tables that have to be supplied as part of an outer query
         """
-        if self.from_clause:
-            virtual_subquery_targets = {
-                subquery_source.target_table
-                for subquery_source in self.from_clause.items
-                if isinstance(subquery_source, SubqueryTableSource)
-            }
-        else:
-            virtual_subquery_targets = set()
-
-        if self.cte_clause:
-            virtual_cte_targets = {
-                with_query.target_table for with_query in self.cte_clause.queries
-            }
-        else:
-            virtual_cte_targets = set()
-
-        return (
-            self.tables()
-            - self.bound_tables()
-            - virtual_subquery_targets
-            - virtual_cte_targets
-        )
+        return _collect_unbound_tables(self)
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
@@ -9109,7 +9184,7 @@ class SqlQuery:
         bool
             Whether all columns belong to tables that are bound by this query
         """
-        return not (self.tables() <= self.bound_tables())
+        return bool(self.unbound_tables())
 
     def is_scalar(self) -> bool:
         """Checks, whether the query is guaranteed to provide a single scalar value as a result.
@@ -9131,6 +9206,8 @@ class SqlQuery:
             isinstance(target, FunctionExpression)
             and target.is_aggregate()
             and not self._groupby_clause
+            and not self._having_clause
+            and not self._limit_clause
         )
 
     def is_set_query(self) -> bool:
@@ -9162,10 +9239,38 @@ class SqlQuery:
         """
         if not self._from_clause:
             return False
-        if self.predicates().empty_predicate():
-            return True
-        join_graph = self.predicates().join_graph()
-        return len(nx.connected_components(join_graph)) > 1
+        join_graph = nx.Graph()
+        join_graph.add_nodes_from(
+            util.set_union(_own_tables(src) for src in self._from_clause.items)
+        )
+        own_predicates = [self._where_clause.predicate] if self._where_clause else []
+        pending_sources = list(self._from_clause.items)
+        while pending_sources:
+            source = pending_sources.pop()
+            if not isinstance(source, JoinTableSource):
+                continue
+            pending_sources.extend((source.left, source.right))
+            if source.join_condition:
+                own_predicates.append(source.join_condition)
+            elif source.join_type != JoinType.CrossJoin:
+                # natural joins have an implicit join condition
+                join_graph.add_edges_from(
+                    itertools.islice(
+                        itertools.product(
+                            _own_tables(source.left), _own_tables(source.right)
+                        ),
+                        1,
+                    )
+                )
+
+        for predicate in own_predicates:
+            for join in QueryPredicates(predicate).joins():
+                join_graph.add_edges_from(
+                    (first_col.table, second_col.table)
+                    for first_col, second_col in join.join_partners()
+                    if first_col.table in join_graph and second_col.table in join_graph
+                )
+        return nx.number_connected_components(join_graph) > 1
 
     def iterexpressions(self) -> Iterable[SqlExpression]:
         """Provides access to all expressions that are directly contained in this query.
@@ -9771,7 +9876,11 @@ class SetQuery:
         set[TableReference]
             All tables that are referenced in the query.
         """
-        return self._lhs.tables() | self._rhs.tables()
+        cte_tables = self._cte.referenced_tables() if self._cte else set()
+        order_tables = self._orderby.tables() if self._orderby else set()
+        return (
+            self._lhs.tables() | self._rhs.tables() | cte_tables | order_tables
+        )
 
     def columns(self) -> set[ColumnReference]:
         """Provides all columns that are referenced at any point in the query.
@@ -9785,7 +9894,7 @@ class SetQuery:
         set[ColumnReference]
             All columns that are referenced in the query.
         """
-        return self._lhs.columns() | self._rhs.columns()
+        return util.set_union(clause.columns() for clause in self.clauses())
 
     def output_columns(self) -> Sequence[ColumnReference]:
         """Provides the columns that form the result relation of this query.
@@ -9850,8 +9959,7 @@ class SetQuery:
         Collection[SqlQuery]
             All subqueries that appear in any of the "inner" clauses of the query
         """
-        # as an implementation detail we know for a fact that SqlQuery always returns a set
-        return self._lhs.subqueries() | self._rhs.subqueries()
+        return util.set_union(_collect_subqueries(clause) for clause in self.clauses())
 
     def clauses(
         self, *, skip: Optional[Type | Iterable[Type]] = NoneType
@@ -9894,6 +10002,7 @@ class SetQuery:
         if self._limit:
             clauses.append(self._limit)
 
+        skip = _skipped_clauses(skip)
         return [c for c in clauses if not isinstance(c, skip)]
 
     def bound_tables(self) -> set[TableReference]:
@@ -9911,7 +10020,8 @@ class SetQuery:
         set[TableReference]
             All tables that are bound (i.e. listed in any *FROM* clause or a CTE) of the query.
         """
-        return self._lhs.bound_tables() | self._rhs.bound_tables()
+        cte_tables = self._cte.tables() if self._cte else set()
+        return self._lhs.bound_tables() | self._rhs.bound_tables() | cte_tables
 
     def unbound_tables(self) -> set[TableReference]:
         """Provides all tables that are referenced in this query but not bound.
@@ -9925,7 +10035,7 @@ class SetQuery:
         set[TableReference]
             The unbound tables that have to be supplied as part of an outer query
         """
-        return self._lhs.unbound_tables() | self._rhs.unbound_tables()
+        return _collect_unbound_tables(self)
 
     def is_ordered(self) -> bool:
         """Checks, whether this query produces its result tuples in order.
@@ -9948,10 +10058,7 @@ class SetQuery:
         bool
             Whether all columns belong to tables that are bound by this query
         """
-        # we cannot apply the same check as in SqlQuery, since a unbound table in one inner query might be unbound in the other
-        # TODO: the above situation would likely lead to an invalid SQL query anyway, so it would be nice to assert that this
-        # is not the case during intialization of the SetQuery
-        return self._lhs.is_dependent() or self._rhs.is_dependent()
+        return bool(self.unbound_tables())
 
     def is_scalar(self) -> bool:
         """Checks, whether the query is guaranteed to provide a single scalar value as a result.
-- 
2.43.0


From 1e4a7316995d9a118238ff8584eb1f372fa2e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 017/231] fix: build the AST of queries with functions in the
 FROM clause

---
 postbound/qal/_qal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 0a39707..ae522fb 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8517,7 +8517,7 @@ def _create_ast(item: Any, *, indentation: int = 0) -> str:
             if item.target_name:
                 item_str = f"{item_str} [{item.target_name}]"
             return f"{prefix}+-{item_str}\n{subquery_str}"
-        case ValuesTableSource():
+        case ValuesTableSource() | FunctionTableSource():
             return f"{prefix}+-{item_str}"
         case From():
             tables = [_create_ast(t, indentation=indentation + 2) for t in item.items]
-- 
2.43.0


From 4fe1cab9e4d802e37f140a7753309bd5b846bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 018/231] fix: report join partners within the bounds of
 BETWEEN and the values of IN predicates

---
 postbound/qal/_qal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index ae522fb..dab8d59 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2795,6 +2795,8 @@ class BetweenPredicate(BasePredicate):
         end_columns = _collect_column_expression_columns(self.interval_end)
 
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
+        partners |= _generate_join_pairs(start_columns, start_columns)
+        partners |= _generate_join_pairs(end_columns, end_columns)
         partners |= _generate_join_pairs(predicate_columns, start_columns)
         partners |= _generate_join_pairs(predicate_columns, end_columns)
         return set(partners)
@@ -2964,6 +2966,7 @@ class InPredicate(BasePredicate):
         partners = _generate_join_pairs(predicate_columns, predicate_columns)
         for value in self.values:
             value_columns = _collect_column_expression_columns(value)
+            partners |= _generate_join_pairs(value_columns, value_columns)
             partners |= _generate_join_pairs(predicate_columns, value_columns)
         return partners
 
-- 
2.43.0


From 164358c1f65ac0bed1981a55d0c790e12b88f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 019/231] fix: keep hints, EXPLAIN and cross joins when
 transforming explicit joins to implicit ones

---
 postbound/transform.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..964fd40 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -194,7 +194,7 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
     join_working_set: list[TableSource] = list(source_query.from_clause.items)
 
     while join_working_set:
-        current_table_source = join_working_set.pop()
+        current_table_source = join_working_set.pop(0)
 
         match current_table_source:
             case DirectTableSource():
@@ -204,11 +204,16 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
                     "Transforming subqueries to implicit table references is not supported yet"
                 )
             case JoinTableSource() if (
-                current_table_source.join_type == JoinType.InnerJoin
+                current_table_source.join_type
+                in {JoinType.InnerJoin, JoinType.CrossJoin}
             ):
-                join_working_set.append(current_table_source.left)
-                join_working_set.append(current_table_source.right)
-                additional_predicates.append(current_table_source.join_condition)
+                # tables are visited from left to right to retain the order of the columns in SELECT * queries
+                join_working_set[:0] = [
+                    current_table_source.left,
+                    current_table_source.right,
+                ]
+                if current_table_source.join_condition:
+                    additional_predicates.append(current_table_source.join_condition)
             case _:
                 raise ValueError(
                     "Unsupported table source type: " + str(type(current_table_source))
@@ -216,15 +221,16 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
 
     final_from_clause = ImplicitFromClause.create_for(complete_from_tables)
 
+    all_predicates = list(additional_predicates)
     if source_query.where_clause:
-        final_predicate = CompoundPredicate.create_and(
-            [source_query.where_clause.predicate] + additional_predicates
+        all_predicates.insert(0, source_query.where_clause.predicate)
+    if all_predicates:
+        final_predicate = flatten_and_predicate(
+            CompoundPredicate.create_and(all_predicates)
         )
+        final_where_clause = Where(final_predicate)
     else:
-        final_predicate = CompoundPredicate.create_and(additional_predicates)
-
-    final_predicate = flatten_and_predicate(final_predicate)
-    final_where_clause = Where(final_predicate)
+        final_where_clause = None
 
     return ImplicitSqlQuery(
         select_clause=source_query.select_clause,
@@ -235,6 +241,8 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
         orderby_clause=source_query.orderby_clause,
         limit_clause=source_query.limit_clause,
         cte_clause=source_query.cte_clause,
+        hints=source_query.hints,
+        explain_clause=source_query.explain,
     )
 
 
-- 
2.43.0


From 61e66e3bbc47f4dfaa41cbf47d07efb49f104933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 020/231] fix: extract query fragments with negations, CTEs,
 DISTINCT ON and set operations

---
 postbound/transform.py | 79 ++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 30 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 964fd40..81322fc 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -284,6 +284,12 @@ def _get_predicate_fragment(
         return predicate if predicate.tables().issubset(referenced_tables) else None
 
     compound_predicate: CompoundPredicate = predicate
+    if compound_predicate.operation == CompoundOperator.Not:
+        child_fragment = _get_predicate_fragment(
+            compound_predicate.children, referenced_tables
+        )
+        return CompoundPredicate.create_not(child_fragment) if child_fragment else None
+
     child_fragments = [
         _get_predicate_fragment(child, referenced_tables)
         for child in compound_predicate.children
@@ -291,15 +297,17 @@ def _get_predicate_fragment(
     child_fragments = [fragment for fragment in child_fragments if fragment]
     if not child_fragments:
         return None
-    elif (
-        len(child_fragments) == 1
-        and compound_predicate.operation != CompoundOperator.Not
-    ):
+    elif len(child_fragments) == 1:
         return child_fragments[0]
     else:
         return CompoundPredicate(compound_predicate.operation, child_fragments)
 
 
+def _virtual_table_names(tables: Iterable[TableReference]) -> set[str]:
+    """Provides the names of all CTEs that could be scanned by the given tables."""
+    return {tab.full_name or tab.alias for tab in tables if tab.virtual}
+
+
 @overload
 def extract_query_fragment(
     source_query: ImplicitSqlQuery,
@@ -369,15 +377,15 @@ def extract_query_fragment(
     if not referenced_tables.issubset(source_query.tables()):
         return None
 
-    cte_fragment = (
-        [
-            with_query
-            for with_query in source_query.cte_clause.queries
-            if with_query.target_table in referenced_tables
-        ]
-        if source_query.cte_clause
-        else []
-    )
+    cte_fragment: list[WithQuery] = []
+    if source_query.cte_clause:
+        scanned_ctes = _virtual_table_names(referenced_tables)
+        for with_query in reversed(source_query.cte_clause.queries):
+            if with_query.target_name not in scanned_ctes:
+                continue
+            cte_fragment.insert(0, with_query)
+            # CTEs can in turn depend on preceding CTEs
+            scanned_ctes |= _virtual_table_names(with_query.query.tables())
     cte_clause = (
         CommonTableExpression(cte_fragment, recursive=source_query.cte_clause.recursive)
         if cte_fragment
@@ -395,10 +403,16 @@ def extract_query_fragment(
         orderby_clause = None
 
     if isinstance(source_query, SetQuery):
-        left_query = extract_query_fragment(source_query.left_query, referenced_tables)
-        right_query = extract_query_fragment(
-            source_query.right_query, referenced_tables
+        left_query, right_query = (
+            extract_query_fragment(
+                input_query,
+                referenced_tables & input_query.tables(),
+                projection=projection,
+            )
+            for input_query in (source_query.left_query, source_query.right_query)
         )
+        if left_query is None or right_query is None:
+            return None
         return SetQuery(
             left_query,
             right_query,
@@ -414,17 +428,21 @@ def extract_query_fragment(
         case "keep":
             select_fragment = []
             for target in source_query.select_clause:
-                if target.tables() == referenced_tables or not target.columns():
+                if target.tables().issubset(referenced_tables):
                     select_fragment.append(target)
 
+            distinct = source_query.select_clause.distinct_specifier()
+            if source_query.select_clause.distinct_on:
+                distinct = [
+                    expr
+                    for expr in source_query.select_clause.distinct_on
+                    if expr.tables().issubset(referenced_tables)
+                ]
+
             if select_fragment:
-                select_clause = Select(
-                    select_fragment, distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select(select_fragment, distinct=distinct)
             else:
-                select_clause = Select.star(
-                    distinct=source_query.select_clause.is_distinct()
-                )
+                select_clause = Select.star(distinct=distinct)
 
         case "star" | "*":
             select_clause = Select.star()
@@ -436,13 +454,14 @@ def extract_query_fragment(
             raise ValueError("Invalid projection type: " + str(projection))
 
     if source_query.from_clause:
-        from_clause = ImplicitFromClause(
-            [
-                DirectTableSource(tab)
-                for tab in source_query.tables()
-                if tab in referenced_tables
-            ]
-        )
+        from_fragment = [
+            source
+            for source in source_query.from_clause.items
+            if source.table in referenced_tables
+        ]
+        if not from_fragment:
+            return None
+        from_clause = ImplicitFromClause(from_fragment)
     else:
         from_clause = None
 
-- 
2.43.0


From 4e1afa3b733513d891f416fabcb89c1d25e3af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 021/231] fix: move exactly the predicates of the subquery
 tables into the subquery

---
 postbound/transform.py | 75 +++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 81322fc..7d03a80 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -595,13 +595,38 @@ def move_into_subquery(
     if len(tables) < 2:
         raise ValueError("At least two tables required")
 
-    predicates = query.predicates()
-    all_referenced_columns = util.set_union(
-        clause.columns() for clause in query.clauses() if not isinstance(clause, From)
+    # Only predicates that are applied to all result rows can be moved into the subquery.
+    where_predicate = query.where_clause.predicate if query.where_clause else None
+    flattened_predicate = (
+        flatten_and_predicate(where_predicate) if where_predicate else None
+    )
+    match flattened_predicate:
+        case None:
+            conjuncts = []
+        case CompoundPredicate() if (
+            flattened_predicate.operation == CompoundOperator.And
+        ):
+            conjuncts = list(flattened_predicate.children)
+        case _:
+            conjuncts = [flattened_predicate]
+
+    subquery_predicates: list[AbstractPredicate] = []
+    remaining_predicates: list[AbstractPredicate] = []
+    for predicate in conjuncts:
+        referenced_tables = predicate.tables()
+        if referenced_tables and referenced_tables <= tables:
+            subquery_predicates.append(predicate)
+        else:
+            remaining_predicates.append(predicate)
+
+    columns_from_remaining_query = util.set_union(
+        clause.columns()
+        for clause in query.clauses()
+        if not isinstance(clause, (From, Where))
+    ) | util.set_union(predicate.columns() for predicate in remaining_predicates)
+    columns_from_subquery_tables = sorted(
+        column for column in columns_from_remaining_query if column.table in tables
     )
-    columns_from_subquery_tables = {
-        column for column in all_referenced_columns if column.table in tables
-    }
     if len({column.name for column in columns_from_subquery_tables}) < len(
         columns_from_subquery_tables
     ):
@@ -616,18 +641,12 @@ def move_into_subquery(
         for column in columns_from_subquery_tables
     }
 
-    subquery_predicates: list[AbstractPredicate] = []
-    for table in tables:
-        filter_predicate = predicates.filters_for(table)
-        if not filter_predicate:
-            continue
-        subquery_predicates.append(filter_predicate)
-    join_predicates = predicates.joins_between(tables, tables)
-    if join_predicates:
-        subquery_predicates.append(join_predicates)
-
-    subquery_select = Select.create_for(columns_from_subquery_tables)
-    subquery_from = ImplicitFromClause.create_for(tables)
+    subquery_select = (
+        Select.create_for(columns_from_subquery_tables)
+        if columns_from_subquery_tables
+        else Select.star()
+    )
+    subquery_from = ImplicitFromClause.create_for(sorted(tables))
     subquery_where = (
         Where(CompoundPredicate.create_and(subquery_predicates))
         if subquery_predicates
@@ -640,19 +659,23 @@ def move_into_subquery(
     updated_from_sources = [
         table_source
         for table_source in query.from_clause.items
-        if not table_source.tables() < tables
+        if not table_source.tables() <= tables
     ]
-    update_from_clause = ImplicitFromClause.create_for(
-        updated_from_sources + [subquery_table_source]
+    update_from_clause = From(updated_from_sources + [subquery_table_source])
+    updated_where_clause = (
+        Where(CompoundPredicate.create_and(remaining_predicates))
+        if remaining_predicates
+        else None
     )
-    updated_predicate = query.where_clause.predicate if query.where_clause else None
-    for predicate in subquery_predicates:
-        updated_predicate = remove_predicate(updated_predicate, predicate)
-    updated_where_clause = Where(updated_predicate) if updated_predicate else None
 
     updated_query = drop_clause(query, [From, Where])
     updated_query = add_clause(
-        updated_query, [update_from_clause, updated_where_clause]
+        updated_query,
+        [
+            clause
+            for clause in (update_from_clause, updated_where_clause)
+            if clause is not None
+        ],
     )
 
     updated_other_clauses: list[BaseClause] = []
-- 
2.43.0


From 087e5cfe0be16b6239bbc94fbe29b76702537731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 022/231] fix: add, drop and replace clauses independent of
 their exact type

---
 postbound/transform.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 7d03a80..7985b6b 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -787,7 +787,7 @@ def drop_hints(
     """
     new_hints = (
         Hint("", query.hints.query_hints)
-        if preparatory_statements_only and query.hints
+        if preparatory_statements_only and query.hints and query.hints.query_hints
         else None
     )
     query_clauses = [
@@ -880,6 +880,18 @@ def remove_predicate(
         return CompoundPredicate(predicate.operation, updated_children)
 
 
+def _clause_family(clause_type: typing.Type) -> typing.Type | tuple:
+    """Determines all clause types that take the place of a specific clause in a query.
+
+    For example, each query has at most one *FROM* clause. This can be an implicit, explicit or a mixed one.
+    """
+    if issubclass(clause_type, From):
+        return From
+    if issubclass(clause_type, (UnionClause, IntersectClause, ExceptClause)):
+        return (UnionClause, IntersectClause, ExceptClause)
+    return clause_type
+
+
 def add_clause(
     query: SelectQueryType, clauses_to_add: BaseClause | Iterable[BaseClause]
 ) -> SelectQueryType:
@@ -901,12 +913,14 @@ def add_clause(
         A new clauses consisting of the old query's clauses and the `clauses_to_add`. Duplicate clauses are overwritten by
         the `clauses_to_add`.
     """
-    clauses_to_add = util.enlist(clauses_to_add)
-    new_clause_types = {type(clause) for clause in clauses_to_add}
+    clauses_to_add = list(util.enlist(clauses_to_add))
+    new_clause_types = tuple(
+        _clause_family(type(clause)) for clause in clauses_to_add
+    )
     remaining_clauses = [
-        clause for clause in query.clauses() if type(clause) not in new_clause_types
+        clause for clause in query.clauses() if not isinstance(clause, new_clause_types)
     ]
-    return build_query(remaining_clauses + list(clauses_to_add))
+    return build_query(remaining_clauses + clauses_to_add)
 
 
 ClauseDescription = typing.Union[
@@ -952,13 +966,12 @@ def drop_clause[T: SelectStatement](query: T, clauses_to_drop: ClauseDescription
         drop_clause(query, Limit)
         drop_clause(query, query.limit_clause)
     """
-    clauses_to_drop = set(util.enlist(clauses_to_drop))
-    clauses_to_drop = {
+    clause_types = tuple(
         drop if isinstance(drop, typing.Type) else type(drop)
-        for drop in clauses_to_drop
-    }
+        for drop in util.enlist(clauses_to_drop)
+    )
     remaining_clauses = [
-        clause for clause in query.clauses() if type(clause) not in clauses_to_drop
+        clause for clause in query.clauses() if not isinstance(clause, clause_types)
     ]
     return build_query(remaining_clauses)
 
-- 
2.43.0


From 792f0a8e9c7c704b3a59b7c26c421fc73d28e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 023/231] fix: keep all parts of a query when its columns are
 renamed or its expressions are replaced

---
 postbound/transform.py | 155 ++++++++++++++++++++++++-----------------
 1 file changed, 90 insertions(+), 65 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 7985b6b..2ebb0de 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1150,7 +1150,7 @@ def _replace_expression_in_table_source(
             ]
             return ValuesTableSource(
                 replaced_values,
-                alias=table_source.table.identifier(),
+                alias=table_source.table or "",
                 columns=table_source.cols,
             )
         case FunctionTableSource():
@@ -1222,9 +1222,18 @@ def _replace_expressions_in_clause(
             BaseProjection(replacement(proj.expression), proj.target_name)
             for proj in clause.targets
         ]
-        return Select(replaced_targets, distinct=clause.distinct_specifier())
+        replaced_distinct = (
+            [replacement(expr) for expr in clause.distinct_on]
+            if clause.distinct_on
+            else clause.distinct_specifier()
+        )
+        return Select(replaced_targets, distinct=replaced_distinct)
     elif isinstance(clause, ImplicitFromClause):
-        return clause
+        replaced_contents = [
+            _replace_expression_in_table_source(target, replacement)
+            for target in clause.items
+        ]
+        return ImplicitFromClause(replaced_contents)
     elif isinstance(clause, ExplicitFromClause):
         replaced_joins = [
             _replace_expression_in_table_source(join, replacement)
@@ -1420,7 +1429,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1431,7 +1439,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
@@ -1445,6 +1453,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
@@ -1550,9 +1559,15 @@ def rename_columns_in_expression(
         renamed_first_arg = rename_columns_in_expression(
             expression.first_arg, available_renamings
         )
-        renamed_second_arg = rename_columns_in_expression(
-            expression.second_arg, available_renamings
-        )
+        if isinstance(expression.second_arg, Sequence):
+            renamed_second_arg = [
+                rename_columns_in_expression(arg, available_renamings)
+                for arg in expression.second_arg
+            ]
+        else:
+            renamed_second_arg = rename_columns_in_expression(
+                expression.second_arg, available_renamings
+            )
         return MathExpression(
             expression.operator, renamed_first_arg, renamed_second_arg
         )
@@ -1579,17 +1594,23 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = rename_columns_in_predicate(
+            expression.filter_where, available_renamings
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
@@ -1624,7 +1645,7 @@ def rename_columns_in_expression(
     elif isinstance(expression, CaseExpression):
         renamed_cases = [
             (
-                rename_columns_in_predicate(condition, available_renamings),
+                rename_columns_in_expression(condition, available_renamings),
                 rename_columns_in_expression(result, available_renamings),
             )
             for condition, result in expression.cases
@@ -1756,6 +1777,25 @@ def rename_columns_in_predicate(
         raise ValueError("Unknown predicate type: " + str(predicate))
 
 
+def _rename_values_columns(
+    columns: Sequence[ColumnReference],
+    available_renamings: dict[ColumnReference, ColumnReference],
+) -> list[ColumnReference]:
+    """Updates the column specification of a *VALUES* list.
+
+    Raises
+    ------
+    ValueError
+        If a column should be renamed to a column of a different table.
+    """
+    renamed_columns = [available_renamings.get(col, col) for col in columns]
+    if any(new.table != old.table for old, new in zip(columns, renamed_columns)):
+        raise ValueError(
+            "Cannot rename columns in a VALUES table source to a different table"
+        )
+    return renamed_columns
+
+
 def _rename_columns_in_table_source(
     table_source: TableSource,
     available_renamings: dict[ColumnReference, ColumnReference],
@@ -1814,32 +1854,18 @@ def _rename_columns_in_table_source(
             )
 
         case ValuesTableSource():
-            if not any(
-                col.belongs_to(table_source.table) for col in available_renamings
-            ):
-                return table_source
-
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(table_source.table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
-                    )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = table_source.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                table_source = ValuesTableSource(
-                    table_source.rows,
-                    alias=table_source.table.identifier(),
-                    columns=new_col_spec,
+            renamed_rows = [
+                tuple(
+                    rename_columns_in_expression(val, available_renamings)
+                    for val in row
                 )
-            return table_source
+                for row in table_source.rows
+            ]
+            return ValuesTableSource(
+                renamed_rows,
+                alias=table_source.table or "",
+                columns=_rename_values_columns(table_source.cols, available_renamings),
+            )
 
         case FunctionTableSource():
             renamed_function = rename_columns_in_expression(
@@ -1895,32 +1921,19 @@ def rename_columns_in_clause(
                 )
                 continue
 
-            if not any(col.belongs_to(cte.target_table) for col in available_renamings):
-                continue
-
-            renamed_cte = cte
-            for current_col, target_col in available_renamings.items():
-                if not current_col.belongs_to(cte.target_table):
-                    continue
-                if current_col.table != target_col.table:
-                    raise ValueError(
-                        "Cannot rename columns in a VALUES table source to a different table"
-                    )
-
-                # if we found a column that should be renamed, we need to replace the whole column specification
-                # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
-                new_col_spec = [
-                    (col if col.name != current_col.name else target_col.name)
-                    for col in current_col_spec
-                ]
-                renamed_cte = ValuesWithQuery(
-                    cte.rows,
-                    target_name=cte.target_table,
-                    columns=new_col_spec,
-                    materialized=cte.materialized,
+            renamed_rows = [
+                tuple(
+                    rename_columns_in_expression(val, available_renamings)
+                    for val in row
                 )
-
+                for row in cte.rows
+            ]
+            renamed_cte = ValuesWithQuery(
+                renamed_rows,
+                target_name=cte.target_table,
+                columns=_rename_values_columns(cte.cols, available_renamings),
+                materialized=cte.materialized,
+            )
             renamed_ctes.append(renamed_cte)
 
         return CommonTableExpression(renamed_ctes, recursive=clause.recursive)
@@ -1932,9 +1945,21 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        renamed_distinct = (
+            [
+                rename_columns_in_expression(expr, available_renamings)
+                for expr in clause.distinct_on
+            ]
+            if clause.distinct_on
+            else clause.distinct_specifier()
+        )
+        return Select(renamed_targets, distinct=renamed_distinct)
     elif isinstance(clause, ImplicitFromClause):
-        return clause
+        renamed_sources = [
+            _rename_columns_in_table_source(table_source, available_renamings)
+            for table_source in clause.items
+        ]
+        return ImplicitFromClause(renamed_sources)
     elif isinstance(clause, ExplicitFromClause):
         renamed_joins = [
             _rename_columns_in_table_source(join, available_renamings)
-- 
2.43.0


From 2e06992daedfbe52c576e7ca42cda7cbb0dc6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 024/231] fix: rename and merge tables in all parts of a query

---
 postbound/transform.py | 221 ++++++++++++++++++++++-------------------
 1 file changed, 120 insertions(+), 101 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 2ebb0de..2270b0a 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2021,24 +2021,20 @@ class _TableReferenceRenamer(
 
     Parameters
     ----------
-    renamings : Optional[dict[TableReference, TableReference]], optional
-        Map from old table name to new name. If this is given, `source_table` and `target_table` are ignored.
-    source_table : Optional[TableReference], optional
-        Create a visitor for a single renaming operation. This parameter specifies the old table name that should be replaced.
-        This parameter is ignored if `renamings` is given.
-    target_table : Optional[TableReference], optional
-        Create a visitor for a single renaming operation. This parameter specifies the new table name that should be used
-        instead of `source_table`. This parameter is ignored if `renamings` is given.
+    renamings : dict[TableReference, TableReference]
+        Map from old table to new table. All renamings are applied simultaneously.
+    prefix_column_names : bool, optional
+        Whether the columns of the renamed tables should receive the identifier of their old table as a prefix.
     """
 
     def __init__(
         self,
         renamings: dict[TableReference, TableReference],
+        *,
+        prefix_column_names: bool = False,
     ) -> None:
         self._renamings = renamings
-        self._renaming_targets = set(
-            tab.identifier() for tab in self._renamings.values()
-        )
+        self._prefix_column_names = prefix_column_names
 
     def visit_hint_clause(self, clause: Hint, *args, **kwargs) -> Hint:
         return clause
@@ -2052,9 +2048,19 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
-            nested_renamings = cte.query.accept_visitor(self)
-            nested_query = build_query(nested_renamings.values())
             target_table = self._rename_table(cte.target_table)
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        self._rename_rows(cte.rows),
+                        target_name=target_table,
+                        columns=[self._rename_column(col) for col in cte.cols],
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
+
+            nested_query = self._rename_query(cte.query)
 
             ctes.append(
                 WithQuery(nested_query, target_table, materialized=cte.materialized)
@@ -2069,49 +2075,49 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        renamed_distinct = (
+            [expr.accept_visitor(self) for expr in clause.distinct_on]
+            if clause.distinct_on
+            else clause.distinct_specifier()
+        )
+        return Select(projections, distinct=renamed_distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
-        used_identifieres = set(tab.identifier() for tab in clause.tables())
-        intersect = used_identifieres & self._renaming_targets
-        match clause:
-            case ImplicitFromClause(tables):
-                renamed_tables = [self._rename_table_source(src) for src in tables]
-                if not intersect:
-                    return ImplicitFromClause(renamed_tables)
-
-                separate_tables = used_identifieres - intersect
-                final_tables: list[DirectTableSource] = []
-                for tab in renamed_tables:
-                    if tab.identifier() in separate_tables:
-                        final_tables.append(tab)
-                        continue
-                    if tab.identifier() not in intersect:
-                        continue
-                    final_tables.append(tab)
-                    intersect.remove(tab.identifier())
-                return ImplicitFromClause(final_tables)
-
-            case ExplicitFromClause(join):
-                if intersect:
-                    raise ValueError(
-                        "Cannot rename explicit JOINs: "
-                        f"Renaming targets {intersect} is already present in the query. "
-                        "This is currently not supported."
-                    )
-                renamed_join = self._rename_table_source(join)
-                return ExplicitFromClause(renamed_join)
-
-            case From(items):
-                if intersect:
-                    raise ValueError(
-                        "Cannot rename explicit JOINs: "
-                        f"Renaming targets {intersect} is already present in the query. "
-                        "This is currently not supported."
-                    )
-                renamed_items = [self._rename_table_source(item) for item in items]
-                return From(renamed_items)
+        renamed_items = [self._rename_table_source(item) for item in clause.items]
+
+        # If multiple tables are merged into a single one, this table must only be scanned once
+        targets = set(self._renamings.values())
+        already_merged: set[TableReference] = set()
+        final_items: list[TableSource] = []
+        for item in renamed_items:
+            if isinstance(item, DirectTableSource) and item.table in targets:
+                if item.table in already_merged:
+                    continue
+                already_merged.add(item.table)
+            final_items.append(item)
+
+        joined_tables = util.flatten(
+            self._joined_tables(item)
+            for item in final_items
+            if isinstance(item, JoinTableSource)
+        )
+        for table in joined_tables:
+            if table not in targets:
+                continue
+            if table in already_merged:
+                raise ValueError(
+                    "Cannot rename explicit JOINs: "
+                    f"Renaming target {table} is already present in the query. This is currently not supported."
+                )
+            already_merged.add(table)
 
+        match clause:
+            case ImplicitFromClause():
+                return ImplicitFromClause(final_items)
+            case ExplicitFromClause():
+                return ExplicitFromClause(final_items)
+            case From():
+                return From(final_items)
             case _:
                 raise ValueError("Unknown from clause type: " + str(clause))
 
@@ -2140,28 +2146,28 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = self._rename_query(clause.left_query)
+        renamed_rhs = self._rename_query(clause.right_query)
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
@@ -2278,9 +2284,7 @@ class _TableReferenceRenamer(
     def visit_subquery_expr(
         self, expr: SubqueryExpression, *args, **kwargs
     ) -> SubqueryExpression:
-        subquery_comps = expr.query.accept_visitor(self)
-        renamed_subquery = build_query(subquery_comps.values())
-        return SubqueryExpression(renamed_subquery)
+        return SubqueryExpression(self._rename_query(expr.query))
 
     def visit_star_expr(self, expr: StarExpression, *args, **kwargs) -> StarExpression:
         renamed_table = self._rename_table(expr.from_table) if expr.from_table else None
@@ -2329,7 +2333,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
@@ -2341,7 +2345,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
@@ -2351,8 +2355,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
@@ -2360,6 +2364,26 @@ class _TableReferenceRenamer(
     ) -> AbstractPredicate:
         return expr.accept_visitor(self)
 
+    def _rename_query(self, query: SelectStatement) -> SelectStatement:
+        """Helper method to traverse and rename the contents of a nested query."""
+        return build_query(query.accept_visitor(self).values())
+
+    def _rename_rows(
+        self, rows: Sequence[Sequence[SqlExpression]]
+    ) -> list[tuple[SqlExpression, ...]]:
+        """Helper method to rename the contents of a *VALUES* list."""
+        return [tuple(val.accept_visitor(self) for val in row) for row in rows]
+
+    def _joined_tables(self, source: TableSource) -> list[TableReference]:
+        """Helper method to determine all plain tables that are scanned by an explicit *JOIN*."""
+        match source:
+            case DirectTableSource(tab):
+                return [tab]
+            case JoinTableSource(lhs, rhs):
+                return self._joined_tables(lhs) + self._joined_tables(rhs)
+            case _:
+                return []
+
     def _rename_table_source[T: TableSource](self, source: T) -> T:
         """Helper method to traverse and rename (the contents of) an arbitrary *FROM* item."""
         match source:
@@ -2368,8 +2392,7 @@ class _TableReferenceRenamer(
                 return DirectTableSource(renamed_table)
 
             case SubqueryTableSource(subquery, target_name, lateral):
-                nested_renamings = subquery.accept_visitor(self)
-                nested_query = build_query(nested_renamings.values())
+                nested_query = self._rename_query(subquery)
                 target_table = self._rename_table(target_name)
                 return SubqueryTableSource(nested_query, target_table, lateral=lateral)
 
@@ -2386,13 +2409,16 @@ class _TableReferenceRenamer(
                     join_type=join_type,
                 )
 
-            case ValuesTableSource(rows, alias, columns):
-                renamed_alias = self._rename_table(alias)
-                return ValuesTableSource(rows, alias=renamed_alias, columns=columns)
+            case ValuesTableSource():
+                return ValuesTableSource(
+                    self._rename_rows(source.rows),
+                    alias=self._rename_table(source.alias),
+                    columns=[self._rename_column(col) for col in source.cols],
+                )
 
-            case FunctionTableSource(function, alias):
-                renamed_function = function.accept_visitor(self)
-                renamed_alias = self._rename_table(alias) if alias else ""
+            case FunctionTableSource():
+                renamed_function = source.function.accept_visitor(self)
+                renamed_alias = self._rename_table(source.target_name)
                 return FunctionTableSource(renamed_function, alias=renamed_alias)
 
             case _:
@@ -2409,14 +2435,13 @@ class _TableReferenceRenamer(
         if isinstance(table, TableReference):
             return self._renamings.get(table, table)
 
-        return next(
-            (
-                target_tab.identifier()
-                for orig_tab, target_tab in self._renamings.items()
-                if orig_tab.identifier() == table
-            ),
-            table,
-        )
+        if not table:
+            return table
+
+        # Plain names are only used for virtual tables, e.g. the aliases of subqueries.
+        virtual_table = TableReference.create_virtual(table)
+        target_table = self._renamings.get(virtual_table)
+        return target_table.identifier() if target_table else table
 
     def _rename_column(self, column: ColumnReference) -> ColumnReference:
         """Helper method to rename a specific column reference."""
@@ -2424,7 +2449,14 @@ class _TableReferenceRenamer(
             return column
 
         target_table = self._renamings.get(column.table)
-        return column.bind_to(target_table) if target_table else column
+        if not target_table:
+            return column
+        new_name = (
+            f"{column.table.identifier()}_{column.name}"
+            if self._prefix_column_names
+            else column.name
+        )
+        return ColumnReference(new_name, target_table)
 
 
 @overload
@@ -2483,23 +2515,10 @@ def rename_table[T: SelectStatement](
     else:
         renamings = from_table
 
-    tabs_to_rename = set(tab for tab in renamings.keys())
-
-    # Despite the convenient _TableReferenceRenamer, we still need to do a little bit of manual gathering/traversal to support
-    # column prefixes.
-    necessary_renamings: dict[ColumnReference, ColumnReference] = {}
-    for column in filter(lambda c: c.table in tabs_to_rename, source_query.columns()):
-        new_column_name = (
-            f"{column.table.identifier()}_{column.name}"
-            if prefix_column_names
-            else column.name
-        )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
-
-    renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
-
-    tab_renamer = _TableReferenceRenamer(renamings)
-    renamed_clauses = renamed_cols.accept_visitor(tab_renamer)
+    tab_renamer = _TableReferenceRenamer(
+        renamings, prefix_column_names=prefix_column_names
+    )
+    renamed_clauses = source_query.accept_visitor(tab_renamer)
 
     return build_query(renamed_clauses.values())
 
-- 
2.43.0


From 6f9612bcd1513c8ba8c4a16b91e6d1db0ca1d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 025/231] fix: keep the order of predicates and nested
 disjunctions when flattening conjunctions

---
 postbound/transform.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 2270b0a..595f483 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -149,24 +149,22 @@ def flatten_and_predicate(predicate: AbstractPredicate) -> AbstractPredicate:
     if not_operation or or_operation:
         return predicate
 
-    flattened_children = set()
+    # we use a dictionary to remove duplicates without changing the order of the predicates
+    flattened_children: dict[AbstractPredicate, None] = {}
     for child in predicate.children:
+        flattened_child = flatten_and_predicate(child)
         if (
-            isinstance(child, CompoundPredicate)
-            and child.operation == CompoundOperator.And
+            isinstance(flattened_child, CompoundPredicate)
+            and flattened_child.operation == CompoundOperator.And
         ):
-            flattened_child = flatten_and_predicate(child)
-            if isinstance(flattened_child, CompoundPredicate):
-                flattened_children |= set(flattened_child.children)
-            else:
-                flattened_children.add(flattened_child)
+            flattened_children.update(dict.fromkeys(flattened_child.children))
         else:
-            flattened_children.add(child)
+            flattened_children[flattened_child] = None
 
     if len(flattened_children) == 1:
-        return util.simplify(flattened_children)
+        return util.simplify(flattened_children.keys())
 
-    return CompoundPredicate.create_and(flattened_children)
+    return CompoundPredicate.create_and(flattened_children.keys())
 
 
 def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
-- 
2.43.0


From 706dfe3a338ee0a3c5a69edd6158ad6bd842b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 026/231] fix: keep all predicates of a query when adding the
 implied joins

---
 postbound/transform.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 595f483..adef044 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -61,6 +61,7 @@ from .qal import (
     JoinTableSource,
     JoinType,
     Limit,
+    LogicalOperator,
     MathExpression,
     MixedSqlQuery,
     OrderBy,
@@ -706,13 +707,40 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     """
     if not query.where_clause:
         return query
-    predicates = query.predicates()
+    where_predicate = flatten_and_predicate(query.where_clause.predicate)
+    if (
+        isinstance(where_predicate, CompoundPredicate)
+        and where_predicate.operation == CompoundOperator.And
+    ):
+        conjuncts = list(where_predicate.children)
+    else:
+        conjuncts = [where_predicate]
 
-    ec_classes = determine_join_equivalence_classes(predicates.joins())
+    # Only predicates that have to be satisfied by all result tuples can be used to infer additional joins
+    ec_classes = determine_join_equivalence_classes(conjuncts)
     ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
-    updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
+    known_equalities = {
+        frozenset(pred.columns())
+        for pred in conjuncts
+        if isinstance(pred, BinaryPredicate)
+        and pred.operation == LogicalOperator.Equal
+        and isinstance(pred.first_argument, ColumnExpression)
+        and isinstance(pred.second_argument, ColumnExpression)
+    }
+    additional_predicates = sorted(
+        (
+            pred
+            for pred in ec_predicates
+            if frozenset(pred.columns()) not in known_equalities
+        ),
+        key=str,
+    )
+    if not additional_predicates:
+        return query
+    updated_where_clause = Where(
+        CompoundPredicate.create_and(conjuncts + additional_predicates)
+    )
 
     return replace_clause(query, updated_where_clause)
 
-- 
2.43.0


From d6448dfad855b825d5f59bc354bdd782104debed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 027/231] fix: derive equivalence classes only from equalities
 of plain columns

---
 postbound/qal/_qal.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index dab8d59..f89cfd0 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3632,11 +3632,15 @@ def determine_join_equivalence_classes(
 
     equivalence_graph = nx.Graph()
     for predicate in join_predicates:
-        columns = predicate.columns()
-        if not len(columns) == 2:
-            continue
-        col_a, col_b = columns
-        equivalence_graph.add_edge(col_a, col_b)
+        match predicate:
+            case BinaryPredicate(
+                first_argument=ColumnExpression(col_a),
+                second_argument=ColumnExpression(col_b),
+            ):
+                equivalence_graph.add_edge(col_a, col_b)
+            case _:
+                # The predicate compares more complicated expressions. It does not imply that the columns are equal.
+                continue
 
     equivalence_classes: set[frozenset[ColumnReference]] = set()
     for equivalence_class in nx.connected_components(equivalence_graph):
-- 
2.43.0


From f5d64cc9ef2bda1d2aa4659fd2a68e080e0e7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 028/231] fix: floor division of cardinalities rounds to
 nearest

---
 postbound/_core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 5418d82..aef4a9c 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -232,11 +232,16 @@ class Cardinality(Number):
             own_value = self.value
         return divmod(float(other), own_value)
 
-    def __floordiv__(self, other: object) -> int:
-        return math.floor(self / other)
+    def __floordiv__(self, other: object) -> Cardinality:
+        # self / other would already be rounded to the nearest integer
+        return Cardinality._floor_of(self.get() / float(other))
 
-    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> int:
-        return math.floor(other / self)
+    def __rfloordiv__(self, other: SupportsFloat | SupportsIndex) -> Cardinality:
+        return Cardinality._floor_of(float(other) / self.get())
+
+    @staticmethod
+    def _floor_of(quotient: float) -> Cardinality:
+        return Cardinality(math.floor(quotient) if math.isfinite(quotient) else quotient)
 
     def __mod__(self, other: object) -> Cardinality:
         if not self._valid:
-- 
2.43.0


From 2b0be973cd0ec6ca85b9f36f6ad7739a4e08022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 029/231] fix: comparisons with infinite cardinalities

---
 postbound/_core.py | 58 ++++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index aef4a9c..f6a9dae 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -277,71 +277,47 @@ class Cardinality(Number):
             return Cardinality(float(other))
         return Cardinality(float(other) % self.value)
 
-    def __lt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
+    def _comparable(self) -> int | float:
+        """The value to use in comparisons: valid cardinalities are exact, invalid ones behave like *NaN* or *inf*."""
+        return self._value if self._valid else float(self)
 
+    def __lt__(self, other: object) -> bool:
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value < otherval
+            case Cardinality():
+                return self._comparable() < other._comparable()
 
             case int() | float():
-                return self.value < other
+                return self._comparable() < other
 
         return NotImplemented
 
     def __le__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value <= otherval
+            case Cardinality():
+                return self._comparable() <= other._comparable()
 
             case int() | float():
-                return self.value <= other
+                return self._comparable() <= other
 
         return NotImplemented
 
     def __gt__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value > otherval
+            case Cardinality():
+                return self._comparable() > other._comparable()
 
             case int() | float():
-                return self.value > other
+                return self._comparable() > other
 
         return NotImplemented
 
     def __ge__(self, other: object) -> bool:
-        if not self._valid:
-            return False
-
         match other:
-            case Cardinality(_, otherval):
-                if other._nan:
-                    return False
-                if other._inf:
-                    return True
-                return self.value >= otherval
+            case Cardinality():
+                return self._comparable() >= other._comparable()
 
             case int() | float():
-                return self.value >= other
+                return self._comparable() >= other
 
         return NotImplemented
 
@@ -373,7 +349,7 @@ class Cardinality(Number):
                     return True
                 if self._inf and other._inf:
                     return True
-                return self.value == other.value
+                return self._comparable() == other._comparable()
 
             case int():
                 return self._valid and self.value == other
-- 
2.43.0


From f879d6929252ab1061884fc8b45ba30e44a4f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 030/231] fix: hash of cardinalities is consistent with
 equality to plain numbers

---
 postbound/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index f6a9dae..440508e 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -364,8 +364,8 @@ class Cardinality(Number):
         return NotImplemented
 
     def __hash__(self) -> int:
-        # There is no need to hash _valid, since it is directly derived from _nan and _inf
-        return hash((self._nan, self._inf, self._value))
+        # Cardinalities compare equal to plain numbers, so they also need to share their hash values
+        return hash(Cardinality) if self._nan else hash(self._comparable())
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From afb1c4f7abf3fcab662b6b5319a533d742b699aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 031/231] fix: missing reserved SQL keywords

---
 postbound/_core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postbound/_core.py b/postbound/_core.py
index 440508e..60e686f 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -463,6 +463,8 @@ References
 SqlKeywords = frozenset(
     {
         "ALL",
+        "ANALYSE",
+        "ANALYZE",
         "AND",
         "ANY",
         "ARRAY",
@@ -470,13 +472,16 @@ SqlKeywords = frozenset(
         "ASC",
         "ASYMMETRIC",
         "AT",
+        "AUTHORIZATION",
         "BINARY",
         "BOTH",
         "CASE",
         "CAST",
         "CHECK",
         "COLLATE",
+        "COLLATION",
         "COLUMN",
+        "CONCURRENTLY",
         "CONSTRAINT",
         "CREATE",
         "CROSS",
@@ -499,6 +504,7 @@ SqlKeywords = frozenset(
         "FETCH",
         "FOR",
         "FOREIGN",
+        "FREEZE",
         "FROM",
         "FULL",
         "GRANT",
@@ -511,6 +517,7 @@ SqlKeywords = frozenset(
         "INTERSECT",
         "INTO",
         "IS",
+        "ISNULL",
         "JOIN",
         "LATERAL",
         "LEADING",
@@ -521,6 +528,7 @@ SqlKeywords = frozenset(
         "LOCALTIMESTAMP",
         "NATURAL",
         "NOT",
+        "NOTNULL",
         "NULL",
         "OFFSET",
         "ON",
@@ -539,7 +547,9 @@ SqlKeywords = frozenset(
         "SIMILAR",
         "SOME",
         "SYMMETRIC",
+        "SYSTEM_USER",
         "TABLE",
+        "TABLESAMPLE",
         "THEN",
         "TO",
         "TRAILING",
-- 
2.43.0


From 374e03509aceea9edfe7dd2e24edeec9887ed1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 032/231] fix: escape quotes within quoted identifiers

---
 postbound/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 60e686f..1574a1b 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -591,7 +591,10 @@ def quote(identifier: str) -> str:
         _IdentifierPattern.fullmatch(identifier)
         and identifier.upper() not in SqlKeywords
     )
-    return identifier if valid_identifier else f'"{identifier}"'
+    if valid_identifier:
+        return identifier
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def normalize(identifier: str) -> str:
-- 
2.43.0


From e9d17c3f75e1c6a58745abbc607fe920b8576153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 033/231] fix: with_alias() and update() of tables drop the
 schema

---
 postbound/_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_core.py b/postbound/_core.py
index 1574a1b..a2186c3 100755
--- a/postbound/_core.py
+++ b/postbound/_core.py
@@ -852,7 +852,9 @@ class TableReference:
         """
         if not self.full_name:
             raise StateError("Cannot add an alias to a table without full name")
-        return TableReference(self.full_name, alias, virtual=self.virtual)
+        return TableReference(
+            self.full_name, alias, virtual=self.virtual, schema=self._schema
+        )
 
     def make_virtual(self) -> TableReference:
         """Creates a new virtual table reference for the same table.
@@ -872,7 +874,7 @@ class TableReference:
         full_name: Optional[str] = None,
         alias: Optional[str] = None,
         virtual: Optional[bool] = None,
-        schema: Optional[str] = "",
+        schema: Optional[str] = None,
     ) -> TableReference:
         full_name = self._full_name if full_name is None else full_name
         alias = self._alias if alias is None else alias
-- 
2.43.0


From f3b643868808070f1c05cab81c2f1014bdf31d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 034/231] fix: schema lost when loading tables from JSON

---
 postbound/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index aa8b346..528ae64 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2688,7 +2688,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema", ""),
     )
 
 
-- 
2.43.0


From e26d4f93edb8c51c4753b4070dbbb2409facf0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 035/231] fix: globally disabling an operator removes its
 fine-grained assignments

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..fd7eec3 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
-- 
2.43.0


From 374f9c3fbba141f51caf6136581b5be00614c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 036/231] fix: look up scan operators with singleton iterables

---
 postbound/_hints.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index fd7eec3..16bf298 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -459,7 +459,7 @@ class PhysicalOperatorAssignment:
 
         intermediate_set = frozenset(intermediate)
         return (
-            self.scan_operators.get(intermediate)
+            self.scan_operators.get(util.simplify(intermediate_set), default)
             if len(intermediate_set) == 1
             else self.join_operators.get(intermediate_set, default)
         )
@@ -555,21 +555,19 @@ class PhysicalOperatorAssignment:
 
         items = frozenset(item)
         return (
-            item in self.scan_operators
+            util.simplify(items) in self.scan_operators
             if len(items) == 1
             else items in self.join_operators
         )
 
     def __getitem__(
         self,
-        item: TableReference | Iterable[TableReference] | ScanOperator | JoinOperator,
+        item: TableReference | Iterable[TableReference] | PhysicalOperator,
     ) -> ScanOperatorAssignment | JoinOperatorAssignment | bool | None:
-        if isinstance(item, ScanOperator) or isinstance(item, JoinOperator):
+        if isinstance(item, (ScanOperator, JoinOperator, IntermediateOperator)):
             return self.global_settings.get(item, None)
-        elif isinstance(item, TableReference):
-            return self.scan_operators.get(item, None)
-        elif isinstance(item, Iterable):
-            return self.join_operators.get(frozenset(item), None)
+        elif isinstance(item, (TableReference, Iterable)):
+            return self.get(item)
         else:
             return None
 
-- 
2.43.0


From e036175214de611dcc0a1ca282f7bb34a4108b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 037/231] fix: compare, hash and print intermediate operators
 of an operator assignment

---
 postbound/_hints.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 16bf298..8080215 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -577,6 +577,7 @@ class PhysicalOperatorAssignment:
                 util.hash_dict(self.global_settings),
                 util.hash_dict(self.scan_operators),
                 util.hash_dict(self.join_operators),
+                util.hash_dict(self.intermediate_operators),
             )
         )
 
@@ -586,6 +587,7 @@ class PhysicalOperatorAssignment:
             and self.global_settings == other.global_settings
             and self.scan_operators == other.scan_operators
             and self.join_operators == other.join_operators
+            and self.intermediate_operators == other.intermediate_operators
         )
 
     def __repr__(self) -> str:
@@ -610,11 +612,11 @@ class PhysicalOperatorAssignment:
         )
 
         intermediates_keys = (
-            (intermediate, " ⨝ ".join(tab.identifier() for tab in intermediate))
-            for intermediate in self.intermediate_operators.keys()
+            (operator, " ⨝ ".join(tab.identifier() for tab in intermediate))
+            for intermediate, operator in self.intermediate_operators.items()
         )
         intermediates_str = ", ".join(
-            f"{key}: {intermediate.value}" for intermediate, key in intermediates_keys
+            f"{key}: {operator.value}" for operator, key in intermediates_keys
         )
 
         return f"global=[{global_str}] scans=[{scans_str}] joins=[{joins_str}] intermediates=[{intermediates_str}]"
-- 
2.43.0


From 6df906d72a299b0c7cb8811fd2738d3dcc85ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 038/231] fix: operator assignments without workers are equal
 to each other

---
 postbound/_hints.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 8080215..588a38d 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -879,6 +879,11 @@ class PlanParameterization:
         )
 
 
+def _unify_workers(workers: float | int) -> float | int | None:
+    """Maps unspecified parallel workers (*NaN*) to a value that is equal to itself."""
+    return None if math.isnan(workers) else workers
+
+
 class ScanOperatorAssignment:
     """Models the selection of a scan operator for a specific base table.
 
@@ -902,7 +907,9 @@ class ScanOperatorAssignment:
         self._operator = operator
         self._table = table
         self._parallel_workers = parallel_workers
-        self._hash_val = hash((self._operator, self._table, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._table, _unify_workers(self._parallel_workers))
+        )
 
     __match_args__ = ("operator", "table", "parallel_workers")
 
@@ -967,7 +974,8 @@ class ScanOperatorAssignment:
             isinstance(other, type(self))
             and self.operator == other.operator
             and self.table == other.table
-            and self.parallel_workers == other.parallel_workers
+            and _unify_workers(self.parallel_workers)
+            == _unify_workers(other.parallel_workers)
         )
 
     def __repr__(self) -> str:
@@ -1016,7 +1024,9 @@ class JoinOperatorAssignment:
         self._join = frozenset(join)
         self._parallel_workers = parallel_workers
 
-        self._hash_val = hash((self._operator, self._join, self._parallel_workers))
+        self._hash_val = hash(
+            (self._operator, self._join, _unify_workers(self._parallel_workers))
+        )
 
     __match_args__ = ("operator", "join", "parallel_workers")
 
@@ -1105,7 +1115,8 @@ class JoinOperatorAssignment:
             isinstance(other, type(self))
             and self._operator == other._operator
             and self._join == other._join
-            and self._parallel_workers == other._parallel_workers
+            and _unify_workers(self._parallel_workers)
+            == _unify_workers(other._parallel_workers)
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 5bcd186ff0455b472e627b699567e7b622f9b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 039/231] fix: check all joins of a join tree for linearity

---
 postbound/_hints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 588a38d..7f48132 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1436,7 +1436,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
             raise StateError("An empty join tree does not have a shape.")
         if self.is_scan():
             return True
-        return self._outer.is_scan() or self._inner.is_scan()
+        if self._outer.is_join() and self._inner.is_join():
+            return False
+        return self._outer.is_linear() and self._inner.is_linear()
 
     def is_bushy(self) -> bool:
         """Checks, whether the join tree encodes a bushy join sequence.
-- 
2.43.0


From b7b602478f3644ac10ceee205aa552fb430c2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 040/231] fix: logical join trees stay logical when they are
 extended or updated

---
 postbound/_hints.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 7f48132..5ae81f9 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1520,12 +1520,9 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         """
         if self.is_empty():
             raise StateError("Cannot update annotation of an empty join tree.")
-        return JoinTree(
-            base_table=self._table,
-            outer_child=self._outer,
-            inner_child=self._inner,
-            annotation=new_annotation,
-        )
+        if self.is_scan():
+            return type(self).scan(self._table, annotation=new_annotation)
+        return type(self).join(self._outer, self._inner, annotation=new_annotation)
 
     def join_with(
         self,
@@ -1568,12 +1565,12 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
         if isinstance(partner, JoinTree) and partner_annotation is not None:
             partner = partner.update_annotation(partner_annotation)
         elif isinstance(partner, TableReference):
-            partner = JoinTree.scan(partner, annotation=partner_annotation)
+            partner = type(self).scan(partner, annotation=partner_annotation)
 
         outer, inner = (
             (self, partner) if partner_direction == "inner" else (partner, self)
         )
-        return JoinTree.join(outer, inner, annotation=annotation)
+        return type(self).join(outer, inner, annotation=annotation)
 
     def inspect(self) -> str:
         """Provides a pretty-printed an human-readable representation of the join tree."""
@@ -1609,7 +1606,7 @@ class JoinTree(Container[TableReference], Generic[JoinTreeAnnotation]):
     ) -> JoinTree[JoinTreeAnnotation]:
         """Handler method to create a new join tree when the current tree is empty."""
         if isinstance(partner, TableReference):
-            return JoinTree.scan(partner, annotation=annotation)
+            return type(self).scan(partner, annotation=annotation)
 
         if annotation is not None:
             partner = partner.update_annotation(annotation)
-- 
2.43.0


From 5f3bf268e25b4acc01b05fa310cf5e0c3729464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 041/231] fix: hash of a dictionary does not depend on its
 insertion order

---
 postbound/util/dicts.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 5a684a9..973564f 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -138,20 +138,20 @@ def explode(dictionary: dict[K, list[V]]) -> list[tuple[K, V]]:
 
 def hash_dict(dictionary: dict[K, V]) -> int:
     """Calculates a hash value based on the current dict contents (keys and values)."""
-    keys = list(dictionary.keys())
-    values = []
-    for val in dictionary.values():
+    # equal dictionaries can differ in their insertion order, so it must not influence the hash value
+    items = []
+    for key, val in dictionary.items():
         if isinstance(val, collections.abc.Hashable):
-            values.append(hash(val))
-        elif isinstance(val, list) or isinstance(val, set):
-            values.append(hash(tuple(val)))
+            items.append((key, hash(val)))
+        elif isinstance(val, list):
+            items.append((key, hash(tuple(val))))
+        elif isinstance(val, set):
+            items.append((key, hash(frozenset(val))))
         elif isinstance(val, dict):
-            values.append(hash_dict(val))
+            items.append((key, hash_dict(val)))
         else:
             warnings.warn(f"Unhashable type, skipping: {type(val)}", stacklevel=2)
-    keys_hash = hash(tuple(keys))
-    values_hash = hash(tuple(values))
-    return hash((keys_hash, values_hash))
+    return hash((frozenset(dictionary.keys()), frozenset(items)))
 
 
 def generate_multi(entries: Iterable[tuple[K, V]]) -> dict[K, list[V]]:
-- 
2.43.0


From 2e97bf05e54b89411d4f1d2965e47f0ba664e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 042/231] fix: merging plan parameters keeps the execution mode

---
 postbound/_hints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 5ae81f9..ea73913 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -826,6 +826,9 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            other_parameters.execution_mode or self.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
-- 
2.43.0


From b2b7d9de62f87f3a3733987fd5a5df6408f82eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 043/231] fix: serialise plan parameters to JSON

---
 postbound/_hints.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index ea73913..79401b3 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -868,8 +868,16 @@ class PlanParameterization:
 
     def __json__(self) -> jsondict:
         return {
-            "cardinality_hints": self.cardinalities,
-            "parallel_worker_hints": self.parallel_workers,
+            "cardinality_hints": [
+                {"intermediate": tables, "cardinality": card}
+                for tables, card in self.cardinalities.items()
+            ],
+            "parallel_worker_hints": [
+                {"intermediate": tables, "workers": workers}
+                for tables, workers in self.parallel_workers.items()
+            ],
+            "system_settings": self.system_settings,
+            "execution_mode": self.execution_mode,
         }
 
     def __repr__(self) -> str:
-- 
2.43.0


From 2d69a2bc7f71770f5fe62cfeb33ba5d232e175d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 044/231] fix: read operators and plan parameters from their
 JSON encoding

---
 postbound/opt/_helpers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..ac5490b 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -7,6 +7,7 @@ from typing import Literal, Optional, Union
 
 from .. import parser
 from .._core import (
+    Cardinality,
     IntermediateOperator,
     JoinOperator,
     PhysicalOperator,
@@ -56,7 +57,7 @@ def read_operator_json(
         elif json_data in {op.value for op in IntermediateOperator}:
             return IntermediateOperator(json_data)
         else:
-            json_data = json.loads(json_data)
+            return read_operator_json(json.loads(json_data))
 
     parallel_workers = json_data.get("parallel_workers", math.nan)
 
@@ -156,14 +157,14 @@ def read_plan_params_json(json_data: dict | str) -> PlanParameterization:
     """
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
     params = PlanParameterization()
-    params.cardinalities = {
-        frozenset(parser.load_table_json(tab)): card
-        for tab, card in json_data.get("cardinality_hints", {}).items()
-    }
-    params.parallel_workers = {
-        frozenset(parser.load_table_json(tab)): workers
-        for tab, workers in json_data.get("parallel_worker_hints", {}).items()
-    }
+    for hint in json_data.get("cardinality_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["intermediate"]]
+        params.add_cardinality(tables, Cardinality(hint["cardinality"]))
+    for hint in json_data.get("parallel_worker_hints", []):
+        tables = [parser.load_table_json(tab) for tab in hint["intermediate"]]
+        params.set_workers(tables, hint["workers"])
+    params.system_settings = dict(json_data.get("system_settings", {}))
+    params.execution_mode = json_data.get("execution_mode")
     return params
 
 
-- 
2.43.0


From 8a44522e69a28dba3852f851082688e24c84d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 045/231] fix: join trees extracted from plans are logical join
 trees

---
 postbound/_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 79401b3..a75af2b 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1798,11 +1798,11 @@ def jointree_from_plan(
         else plan.actual_cardinality
     )
     if plan.is_scan():
-        return JoinTree.scan(plan.base_table, annotation=card)
+        return LogicalJoinTree.scan(plan.base_table, annotation=card)
     elif plan.is_join():
         outer = jointree_from_plan(plan.outer_child, card_source=card_source)
         inner = jointree_from_plan(plan.inner_child, card_source=card_source)
-        return JoinTree.join(outer, inner, annotation=card)
+        return LogicalJoinTree.join(outer, inner, annotation=card)
     else:
         # auxiliary node handler
         return jointree_from_plan(plan.input_node, card_source=card_source)
-- 
2.43.0


From e21177b9bddf3b1174cb0840eb3a5ea38740d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 046/231] fix: extract operators and parameters for the right
 intermediates of a plan

---
 postbound/_hints.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a75af2b..eb18db4 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1808,6 +1808,17 @@ def jointree_from_plan(
         return jointree_from_plan(plan.input_node, card_source=card_source)
 
 
+def _intermediate_tables(query_plan: QueryPlan | LogicalJoinTree) -> set[TableReference]:
+    """Provides the tables that make up the intermediate computed by a plan node.
+
+    In contrast to *QueryPlan.tables()*, tables that are merely referenced (e.g. the outer table in the lookup key of a
+    parameterized index scan) are not part of the intermediate.
+    """
+    if isinstance(query_plan, LogicalJoinTree):
+        return query_plan.tables()
+    return {node.base_table for node in query_plan.iternodes() if node.base_table}
+
+
 def parameters_from_plan(
     query_plan: QueryPlan | LogicalJoinTree,
     *,
@@ -1840,10 +1851,11 @@ def parameters_from_plan(
             )
         parallel_workers = query_plan.params.parallel_workers
 
-    if not math.isnan(card):
-        params.add_cardinality(query_plan.tables(), card)
+    tables = _intermediate_tables(query_plan)
+    if card is not None and not math.isnan(card):
+        params.add_cardinality(tables, card)
     if parallel_workers:
-        params.set_workers(query_plan.tables(), parallel_workers)
+        params.set_workers(tables, parallel_workers)
 
     for child in query_plan.children:
         child_params = parameters_from_plan(
@@ -1865,10 +1877,11 @@ def operators_from_plan(
     better handled by the parameterization.
     """
     assignment = PhysicalOperatorAssignment()
-    if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
 
-    workers = query_plan.parallel_workers if include_workers else math.nan
+    workers = math.nan
+    if include_workers and query_plan.parallel_workers:
+        workers = query_plan.parallel_workers
+
     match query_plan.operator:
         case ScanOperator():
             operator = ScanOperatorAssignment(
@@ -1880,14 +1893,14 @@ def operators_from_plan(
         case JoinOperator():
             operator = JoinOperatorAssignment(
                 query_plan.operator,
-                query_plan.tables(),
+                _intermediate_tables(query_plan),
                 parallel_workers=workers,
             )
             assignment.add(operator)
-        case _:
-            assignment.add(query_plan.operator, query_plan.tables())
+        case IntermediateOperator():
+            assignment.add(query_plan.operator, _intermediate_tables(query_plan))
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(child, include_workers=include_workers)
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From d57355d7c414b90ec0d5e412a3c497d7e78882c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 047/231] fix: update_plan() crashes and drops metadata

---
 postbound/opt/_helpers.py | 48 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ac5490b..d692907 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -213,37 +213,33 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    updated_operator = (
-        operators.get(query_plan.tables(), query_plan.operator)
-        if operators
-        else query_plan.operator
-    )
-    updated_card_est = (
-        params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
-        if params
-        else query_plan.estimated_cardinality
-    )
-    updated_workers = (
-        params.parallel_workers.get(
-            query_plan.tables(), query_plan.params.parallel_workers
-        )
-        if params
-        else query_plan.params.parallel_workers
-    )
-
-    updated_params = PlanParams(
-        **(query_plan.params.items() | {"parallel_workers": updated_workers})
-    )
-    updated_estimates = PlanEstimates(
-        **(query_plan.estimates.items() | {"estimated_cardinality": updated_card_est})
-    )
+    tables = frozenset(query_plan.tables())
+
+    node_type, updated_operator = query_plan.node_type, query_plan.operator
+    if operators and not query_plan.is_auxiliary():
+        intermediate = query_plan.base_table if query_plan.is_scan() else tables
+        assignment = operators.get(intermediate)
+        if assignment and assignment.operator != query_plan.operator:
+            updated_operator = assignment.operator
+            node_type = updated_operator.name
+
+    updated_card_est = query_plan.estimated_cardinality
+    updated_workers = query_plan.parallel_workers
+    if params:
+        updated_card_est = params.cardinalities.get(tables, updated_card_est)
+        updated_workers = params.parallel_workers.get(tables, updated_workers)
+
+    updated_params = query_plan.params.clone()
+    updated_params["parallel_workers"] = updated_workers
+    updated_estimates = query_plan.estimates.clone()
+    updated_estimates["cardinality"] = updated_card_est
     updated_children = [
-        update_plan(child, operators=operators, params=params)
+        update_plan(child, operators=operators, params=params, simplify=False)
         for child in query_plan.children
     ]
 
     return QueryPlan(
-        query_plan.node_type,
+        node_type,
         operator=updated_operator,
         children=updated_children,
         plan_params=updated_params,
-- 
2.43.0


From 9844dfa0b2c168daa0cbc80b023313b1b11f0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 048/231] fix: to_query_plan() loses scans, predicates,
 operators and parameters below the root

---
 postbound/opt/_helpers.py | 54 +++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index d692907..502af3a 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -318,7 +318,7 @@ def _make_simple_plan(
     tables = frozenset(join_tree.tables())
     if plan_params and plan_params.cardinalities.get(tables, None):
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None:
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
@@ -344,11 +344,17 @@ def _make_simple_plan(
         operator = scan_op
         children = []
 
+    base_table = None if join_tree.is_join() else join_tree.base_table
     if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
+        return QueryPlan(
+            operator,
+            children=children,
+            base_table=base_table,
+            estimated_cardinality=cardinality,
+        )
 
     predicates = query.predicates()
-    filter_condition = (
+    filter_predicate = (
         predicates.joins_between(
             join_tree.outer_child.tables(), join_tree.inner_child.tables()
         )
@@ -358,8 +364,9 @@ def _make_simple_plan(
     return QueryPlan(
         operator,
         children=children,
+        base_table=base_table,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=filter_predicate,
     )
 
 
@@ -383,7 +390,7 @@ def _make_custom_plan(
     tables = frozenset(join_tree.tables())
     if plan_params and plan_params.cardinalities.get(tables, None):
         cardinality = plan_params.cardinalities[tables]
-    elif isinstance(join_tree, LogicalJoinTree):
+    elif isinstance(join_tree, LogicalJoinTree) and join_tree.annotation is not None:
         cardinality = join_tree.annotation
     else:
         cardinality = math.nan
@@ -392,35 +399,47 @@ def _make_custom_plan(
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
-    if not operator and len(tables) == 1:
-        operator = fallback_scan_op
-    elif not operator and len(tables) > 1:
-        operator = fallback_join_op
+    assignment = physical_ops.get(tables)
+    if assignment:
+        operator = assignment.operator
+    else:
+        operator = fallback_join_op if join_tree.is_join() else fallback_scan_op
     if not operator:
         raise ValueError("No operator assignment found for join: " + str(tables))
 
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
+        outer_plan = _make_custom_plan(
+            join_tree.outer_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
+        inner_plan = _make_custom_plan(
+            join_tree.inner_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
         children = (outer_plan, inner_plan)
     else:
         children = []
 
+    base_table = None if join_tree.is_join() else join_tree.base_table
     if query is None:
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
             parallel_workers=par_workers,
         )
     else:
         predicates = query.predicates()
-        filter_condition = (
+        filter_predicate = (
             predicates.joins_between(
                 join_tree.outer_child.tables(), join_tree.inner_child.tables()
             )
@@ -430,12 +449,13 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
+            filter_predicate=filter_predicate,
             parallel_workers=par_workers,
         )
 
-    intermediate_op = physical_ops.intermediate_operators.get(frozenset(plan.tables()))
+    intermediate_op = physical_ops.intermediate_operators.get(tables)
     if not intermediate_op:
         return plan
     if intermediate_op in {IntermediateOperator.Sort, IntermediateOperator.Memoize}:
-- 
2.43.0


From 629bf6dac2031de6ef480823bbd0c4183247762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 049/231] fix: read sort keys, lookup keys and subplans of JSON
 plans

---
 postbound/opt/_helpers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 502af3a..838094b 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -578,19 +578,26 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
             for col in sort_key_json.get("equivalence_class", [])
         ]
         ascending = sort_key_json["ascending"]
-        sort_keys.append(SortKey.of(sort_column, ascending))
+        sort_keys.append(
+            SortKey.for_equivalence_class(sort_column, ascending=ascending)
+        )
+
+    lookup_json: str | None = params_json.get("lookup_key")
+    lookup_key = parser.load_expression_json(lookup_json) if lookup_json else None
 
     index = params_json.get("index", "")
     additional_params = {
         key: value
         for key, value in params_json.items()
-        if key not in {"base_table", "filter_predicate", "sort_keys", "index"}
+        if key
+        not in {"base_table", "filter_predicate", "sort_keys", "lookup_key", "index"}
     }
 
     plan_params = PlanParams(
         base_table=base_table,
         filter_predicate=filter_predicate,
         sort_keys=sort_keys,
+        lookup_key=lookup_key,
         index=index,
         **additional_params,
     )
@@ -627,7 +634,7 @@ def read_query_plan_json(json_data: dict | str) -> QueryPlan:
 
     subplan_json: dict = json_data.get("subplan", {})
     if subplan_json:
-        subplan_root = parser.parse_query(subplan_json["root"])
+        subplan_root = read_query_plan_json(subplan_json["root"])
         subplan_target = subplan_json.get("target_name", "")
         subplan = Subplan(root=subplan_root, target_name=subplan_target)
     else:
-- 
2.43.0


From 9ecf29988156ddcc2332330c747f08fa200b08f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 050/231] fix: read logical and empty join trees from JSON

---
 postbound/opt/_helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index 838094b..cf6071d 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -679,15 +679,21 @@ def read_jointree_json(json_data: dict | str) -> JoinTree:
     json_data = json.loads(json_data) if isinstance(json_data, str) else json_data
 
     annotation = json_data.get("annotation", None)
+    tree_type: type[JoinTree] = JoinTree
+    if json_data.get("type") == "join_tree_logical":
+        tree_type = LogicalJoinTree
+        annotation = None if annotation is None else Cardinality(annotation)
 
     table_json = json_data.get("table", None)
     if table_json:
         base_table = parser.load_table_json(table_json)
-        return JoinTree.scan(base_table, annotation=annotation)
+        return tree_type.scan(base_table, annotation=annotation)
+    if not json_data.get("outer") or not json_data.get("inner"):
+        return tree_type.empty()
 
     outer_child = read_jointree_json(json_data["outer"])
     inner_child = read_jointree_json(json_data["inner"])
-    return JoinTree.join(outer_child, inner_child, annotation=annotation)
+    return tree_type.join(outer_child, inner_child, annotation=annotation)
 
 
 def explode_query_plan(
-- 
2.43.0


From 5fb35a5a305f3ebd97269def108418a2cfc8af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 051/231] fix: explode_query_plan() passes an unknown
 cardinality source

---
 postbound/opt/_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index cf6071d..e603c81 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -714,7 +714,10 @@ def explode_query_plan(
         The different components of the query plan
     """
     return (
-        jointree_from_plan(query_plan, card_source=card_source),
+        jointree_from_plan(
+            query_plan,
+            card_source="estimates" if card_source == "estimated" else "actual",
+        ),
         operators_from_plan(query_plan),
         parameters_from_plan(query_plan, target_cardinality=card_source),
     )
-- 
2.43.0


From 68e8e570b276ae7322061124be9891f358f7d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 052/231] fix: plan enumerators pass operators as keyword to
 to_query_plan()

---
 postbound/opt/enumeration.py | 2 +-
 postbound/opt/randomized.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..6ff7222 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -430,4 +430,4 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(join_order, physical_ops=operator_assignment)
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..4b15d14 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -568,7 +568,7 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(join_order, physical_ops=physical_operators)
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
-- 
2.43.0


From 57f5b25b64f0cc197abf0755bc9989135e5a2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 053/231] fix: SortKey pattern matching and column
 compatibility

---
 postbound/_qep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..b1f03be 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -109,7 +109,7 @@ class SortKey:
             raise ValueError("Sort key must contain at least one column")
         self._ascending = ascending
 
-    __match_args___ = ("equivalence_class", "ascending")
+    __match_args__ = ("equivalence_class", "ascending")
 
     @property
     def column(self) -> SqlExpression:
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
-- 
2.43.0


From af15e9acbc2dfbaf585adc7e8ee9bbde4a9cdc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 054/231] fix: query plans cannot be pickled

---
 postbound/_qep.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index b1f03be..0d1604d 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -182,6 +182,11 @@ class SortKey:
         return f"{member}{suffix}"
 
 
+def _restore_metadata[M](metadata_type: type[M], params: dict[str, Any]) -> M:
+    """Re-creates plan metadata from its raw entries. This is required to pickle plans."""
+    return metadata_type(**params)
+
+
 class PlanParams:
     """Plan parameters contain additional "structural" metadata about the operators in a query plan.
 
@@ -382,6 +387,9 @@ class PlanParams:
         params = copy.deepcopy(self._params, memo)
         return PlanParams(**params)
 
+    def __reduce__(self) -> tuple[Callable[..., Any], tuple]:
+        return _restore_metadata, (type(self), self._params)
+
     def __contains__(self, key: object) -> bool:
         params = object.__getattribute__(self, "_params")
         return key in params
@@ -525,6 +533,9 @@ class PlanEstimates:
         params = copy.deepcopy(self._params, memo)
         return PlanEstimates(**params)
 
+    def __reduce__(self) -> tuple[Callable[..., Any], tuple]:
+        return _restore_metadata, (type(self), self._params)
+
     def __contains__(self, key: object) -> bool:
         params = object.__getattribute__(self, "_params")
         return key in params
@@ -695,6 +706,9 @@ class PlanMeasures:
         params = copy.deepcopy(self._params, memo)
         return PlanMeasures(**params)
 
+    def __reduce__(self) -> tuple[Callable[..., Any], tuple]:
+        return _restore_metadata, (type(self), self._params)
+
     def __contains__(self, key: object) -> bool:
         params = object.__getattribute__(self, "_params")
         return key in params
-- 
2.43.0


From fc56f292593ea813390828e5ea15dfe58915aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 055/231] fix: check all joins of a plan for its shape

---
 postbound/_qep.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 0d1604d..f403abb 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1295,22 +1295,18 @@ class QueryPlan:
 
         As a special case, scan nodes are considered to be linear as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None or inner_join is None
+        return not self.is_bushy()
 
     def is_bushy(self) -> bool:
         """Checks, whether the plan performs joins in a bushy order.
 
         This is the case if at least one join node joins two intermediates that are themselves the result of a join.
         """
-        if self.is_scan():
-            return False
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return outer_join is not None and inner_join is not None
+        return any(
+            node.outer_child._contains_join() and node.inner_child._contains_join()
+            for node in self.iternodes()
+            if node.is_join()
+        )
 
     def is_left_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a left-deep order.
@@ -1318,10 +1314,11 @@ class QueryPlan:
         Left deep order means that the plan is linear and all joins are performed with the base table as the inner relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        inner_join = self.inner_child.find_first_node(QueryPlan.is_join)
-        return inner_join is None
+        return not any(
+            node.inner_child._contains_join()
+            for node in self.iternodes()
+            if node.is_join()
+        )
 
     def is_right_deep(self) -> bool:
         """Checks, whether the plan performs all joins in a right-deep order.
@@ -1329,10 +1326,11 @@ class QueryPlan:
         Right deep order means that the plan is linear and all joins are performed with the base table as the outer relation.
         As a special case, scan nodes are considered to be right-deep as well.
         """
-        if self.is_scan():
-            return True
-        outer_join = self.outer_child.find_first_node(QueryPlan.is_join)
-        return outer_join is None
+        return not any(
+            node.outer_child._contains_join()
+            for node in self.iternodes()
+            if node.is_join()
+        )
 
     def is_zigzag(self) -> bool:
         """Checks, whether the plan performs all joins in a zigzag order.
@@ -1345,6 +1343,10 @@ class QueryPlan:
             return True
         return self.is_linear() and not self.is_left_deep() and not self.is_right_deep()
 
+    def _contains_join(self) -> bool:
+        """Checks, whether the current node or any of its descendants is a join. Subplans are not considered."""
+        return any(node.is_join() for node in self.iternodes())
+
     def is_scan_branch(self) -> bool:
         """Checks, whether the current node directly leads to a scan node.
 
-- 
2.43.0


From 56a1382ee47d8503eb5bde01d42c8718abd9a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 056/231] fix: find_first_node() on nodes with arbitrary
 children

---
 postbound/_qep.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index f403abb..3689bdf 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1499,38 +1499,20 @@ class QueryPlan:
         """
         if predicate(self, *args, **kwargs):
             return self
-        if not self.children:
-            return None
 
-        if len(self.children) == 1:
-            return self.input_node.find_first_node(
-                predicate, *args, direction=direction, **kwargs
-            )
-
-        first_candidate, second_candidate = (
-            (self.outer_child, self.inner_child)
-            if direction == "outer"
-            else (self.inner_child, self.outer_child)
-        )
-        first_match = first_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if first_match:
-            return first_match
-
-        second_match = second_candidate.find_first_node(
-            predicate, *args, direction=direction, **kwargs
-        )
-        if second_match:
-            return second_match
+        candidates = list(self.children)
+        if direction == "inner":
+            candidates.reverse()
+        if self._subplan:
+            candidates.append(self._subplan.root)
 
-        return (
-            self._subplan.root.find_first_node(
+        for candidate in candidates:
+            match = candidate.find_first_node(
                 predicate, *args, direction=direction, **kwargs
             )
-            if self._subplan
-            else None
-        )
+            if match is not None:
+                return match
+        return None
 
     def find_all_nodes(
         self, predicate: Callable[[QueryPlan], bool], *args, **kwargs
-- 
2.43.0


From 8ebc01884777de68bc1623f6e1e680217374e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 057/231] fix: q-error of plans with unknown or integer
 cardinalities

---
 postbound/_qep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 3689bdf..c1659e6 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1589,9 +1589,11 @@ class QueryPlan:
         if not self.is_analyze():
             return math.nan
 
-        larger = max(self.estimated_cardinality, self.actual_cardinality) + 1
-        smaller = min(self.estimated_cardinality, self.actual_cardinality) + 1
-        return larger / smaller
+        estimated = float(self.estimated_cardinality)
+        actual = float(self.actual_cardinality)
+        if math.isnan(estimated) or math.isnan(actual):
+            return math.nan
+        return (max(estimated, actual) + 1) / (min(estimated, actual) + 1)
 
     def parallelize(self, workers: int) -> QueryPlan:
         """Creates a parallel version of the query plan with the specified number of workers.
-- 
2.43.0


From f003001825170f3b1edda6e4f1d9eb08337b870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 058/231] fix: with_actual_card() ignores its ignore_nan option

---
 postbound/_qep.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index c1659e6..aee9510 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1675,12 +1675,8 @@ class QueryPlan:
             A new query plan with the actual cardinality as the estimated cardinality and the actual execution time as the
             estimated cost. The current plan is not changed.
         """
-        if self.actual_cardinality:
-            updated_cardinality = (
-                self.estimated_cardinality
-                if ignore_nan and self.actual_cardinality.isnan()
-                else self.actual_cardinality
-            )
+        if not (ignore_nan and self.actual_cardinality.isnan()):
+            updated_cardinality = self.actual_cardinality
             updated_cost = (
                 cost_estimator(self, updated_cardinality)
                 if cost_estimator
-- 
2.43.0


From e1ed3ad16863fe070c2b0771a7cc271f0d612644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 059/231] fix: scale_cardinality() drops cache counters and
 rescales subplans

---
 postbound/_qep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index aee9510..d256492 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1757,6 +1757,8 @@ class QueryPlan:
             updated_measures = PlanMeasures(
                 cardinality=updated_actual,
                 execution_time=self.execution_time,
+                cache_hits=self._measures.cache_hits,
+                cache_misses=self._measures.cache_misses,
                 **(self._measures.additional_measures),
             )
 
@@ -1768,13 +1770,13 @@ class QueryPlan:
         else:
             updated_children = self.children
 
-        if self.subplan:
+        if self.subplan and recursive:
             updated_subplan_root = self.subplan.root.scale_cardinality(
-                factor, kind=kind, recursive=recursive
+                factor, kind=kind, recursive=True
             )
             updated_subplan = Subplan(updated_subplan_root, self.subplan.target_name)
         else:
-            updated_subplan = None
+            updated_subplan = self.subplan
 
         return QueryPlan(
             self.node_type,
-- 
2.43.0


From c4d3753dd267921fb9938e00f932ed77e58f4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 060/231] fix: membership and item assignment on query plans

---
 postbound/_qep.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index d256492..78d3d6c 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -1925,13 +1925,13 @@ class QueryPlan:
     ) -> bool:
         if isinstance(key, TableReference):
             return key in self.tables()
-        elif isinstance(key, Iterable):
+        elif not isinstance(key, str) and isinstance(key, Iterable):
             return set(key).issubset(self.tables())
 
         return (
             key in self._plan_params
             or key in self._estimates
-            or (self._measures and key in self._measures)
+            or (bool(self._measures) and key in self._measures)
         )
 
     def __getitem__(self, key: str) -> Any:
@@ -1943,6 +1943,14 @@ class QueryPlan:
             return self._measures[key]
         raise KeyError(f"'{key}' not found")
 
+    def __setitem__(self, key: str, value: Any) -> None:
+        if key in self._estimates and key not in self._plan_params:
+            self._estimates[key] = value
+        elif key in self and key not in self._plan_params:
+            self._measures[key] = value
+        else:
+            self._plan_params[key] = value
+
     def __iter__(self) -> Iterator[QueryPlan]:
         yield self
         for child in self.children:
-- 
2.43.0


From be7c56d235bd0490fed1a84be1f3a8df2414150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 061/231] fix: join graphs crash if an equivalence class
 contains two columns of a table

---
 postbound/opt/_joingraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index e7425fe..cb8fbcb 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -433,6 +433,8 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             if len(join_predicate.columns()) != 2:
                 continue
             first_col, second_col = join_predicate.columns()
+            if first_col.table == second_col.table:
+                continue
             predicate_map[frozenset([first_col.table, second_col.table])].append(
                 join_predicate
             )
-- 
2.43.0


From fd3afbf6ac79452e7c764934febcf104027a5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 062/231] fix: components of join graphs lose their equivalence
 class joins

---
 postbound/opt/_joingraph.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index cb8fbcb..3d41472 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -414,6 +414,9 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
 
         self.query = query
         self._db_schema = db_schema
+        self._include_predicate_equivalence_classes = (
+            include_predicate_equivalence_classes
+        )
         self._index_structures: dict[ColumnReference, IndexInfo] = {}
 
         graph = nx.Graph()
@@ -533,7 +536,13 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         components = []
         for component in nx.connected_components(self._graph):
             component_query = transform.extract_query_fragment(self.query, component)
-            components.append(JoinGraph(component_query, self._db_schema))
+            components.append(
+                JoinGraph(
+                    component_query,
+                    self._db_schema,
+                    include_predicate_equivalence_classes=self._include_predicate_equivalence_classes,
+                )
+            )
         return components
 
     def joined_tables(self) -> frozenset[TableReference]:
@@ -1035,7 +1044,11 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         JoinGraph
             The copy. It can be safely modified without affecting the original join graph.
         """
-        cloned = JoinGraph(self.query, self._db_schema)
+        cloned = JoinGraph(
+            self.query,
+            self._db_schema,
+            include_predicate_equivalence_classes=self._include_predicate_equivalence_classes,
+        )
         cloned._graph = self.nx_graph()
         cloned._index_structures = copy.deepcopy(self._index_structures)
         return cloned
-- 
2.43.0


From 58b97c853c1845fb5e2511d00f6b6b2174676abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 063/231] fix: n:m check of join graphs ignores key joins on
 multiple columns

---
 postbound/opt/_joingraph.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 3d41472..072dc51 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -496,14 +496,11 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             Whether there are still n:m joins with at least one free table.
         """
         is_first_join = self.initial()
-        for first_tab, second_tab, predicate in self._graph.edges.data("predicate"):
+        for first_tab, second_tab in self._graph.edges:
             if not self.is_available_join(first_tab, second_tab) and not is_first_join:
                 continue
-            for first_col, second_col in predicate.join_partners():
-                if not self._index_structures[first_col].can_pk_fk_join(
-                    self._index_structures[second_col]
-                ):
-                    return True
+            if self.is_n_m_join(first_tab, second_tab):
+                return True
         return False
 
     def count_consumed_tables(self) -> int:
-- 
2.43.0


From 0636207ff602717bdac1d085d950e8705fb166f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 064/231] fix: index invalidation of join graphs depends on the
 order of the join partners

---
 postbound/opt/_joingraph.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index 072dc51..3a087a6 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -995,21 +995,28 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
         if len(self.joined_tables()) == 1:
             return
 
-        join_edge = (
-            join_edge
-            if join_edge
-            else self.query.predicates().joins_between(table, self.joined_tables())
-        )
+        if not join_edge:
+            join_edges = self.join_predicates_between(
+                table, self.joined_tables() - {table}
+            )
+            join_edge = (
+                CompoundPredicate.create_and(join_edges) if join_edges else None
+            )
         if not join_edge:
             # We still need this check even though we already know that there are at least two tables joined, since
             # these two tables might have nothing to do with each other (e.g. different components in the join graph)
             return
 
+        # determine all join types upfront since processing the first partners already invalidates some of the indexes
         partner_tables = {col.table for col in join_edge.join_partners_of(table)}
-        for partner_table in partner_tables:
-            pk_fk_join = self.is_pk_fk_join(table, partner_table)
-            fk_pk_join = self.is_pk_fk_join(partner_table, table)
-
+        join_types = {
+            partner: (
+                self.is_pk_fk_join(table, partner),
+                self.is_pk_fk_join(partner, table),
+            )
+            for partner in partner_tables
+        }
+        for partner_table, (pk_fk_join, fk_pk_join) in join_types.items():
             if pk_fk_join and fk_pk_join:  # PK/PK join
                 continue
 
@@ -1028,10 +1035,10 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             if pk_fk_join:
                 continue
 
-            for table, is_free in self._graph.nodes.data("free"):
-                if is_free or table == partner_table:
+            for joined_table in self.joined_tables():
+                if joined_table == partner_table:
                     continue
-                self._invalidate_indexes_on(table)
+                self._invalidate_indexes_on(joined_table)
 
     def clone(self) -> JoinGraph:
         """Provides a deep copy of the current join graph.
-- 
2.43.0


From 82c38ecf70c42131095aa856d106f5484522e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 065/231] fix: breadth-first search visits nodes repeatedly and
 ignores the node order

---
 postbound/util/nx.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/postbound/util/nx.py b/postbound/util/nx.py
index 4c428f6..cefc42b 100644
--- a/postbound/util/nx.py
+++ b/postbound/util/nx.py
@@ -167,23 +167,29 @@ def nx_bfs_tree(
     .. NetworkX documentation on usage and definition of edge data:
        https://networkx.org/documentation/stable/reference/introduction.html#nodes-and-edges
     """
-    shell_nodes = Queue([(node, edge) for node, edge in graph.adj[start_node].items()])
     visited_nodes = {start_node}
+
+    def unvisited_neighbors(parent: NodeType) -> list[tuple[NodeType, dict]]:
+        neighbor_nodes = [
+            (node, edge)
+            for node, edge in graph.adj[parent].items()
+            if node not in visited_nodes
+        ]
+        if node_order:
+            neighbor_nodes.sort(
+                key=lambda neighbor: node_order(neighbor[0], neighbor[1])
+            )
+        return neighbor_nodes
+
+    shell_nodes = Queue(unvisited_neighbors(start_node))
     while shell_nodes:
         current_node, current_edge = shell_nodes.pop()
-        visited_nodes.add(current_node)
+        if current_node in visited_nodes:
+            # reached via a different parent in the meantime
+            continue
         if condition(current_node, current_edge):
-            neighbor_nodes = [
-                (node, edge)
-                for node, edge in graph.adj[current_node].items()
-                if node not in visited_nodes
-            ]
-            if node_order:
-                sorted(
-                    neighbor_nodes,
-                    key=lambda neighbor: node_order(neighbor[0], neighbor[1]),
-                )
-            shell_nodes.extend(neighbor_nodes)
+            visited_nodes.add(current_node)
+            shell_nodes.extend(unvisited_neighbors(current_node))
             yield current_node, current_edge
 
 
-- 
2.43.0


From 110836ae96db5f6dfa773287d536b5798fa309f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 066/231] fix: index paths of star queries

---
 postbound/opt/dynprog.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..f0965be 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -67,12 +67,14 @@ def _calc_plan_estimates(
 def _collect_used_columns(
     query: SqlQuery, table: TableReference, *, schema: DatabaseSchema
 ) -> set[ColumnReference]:
-    columns = query.columns_of(table)
-    for star_expression in query.select_clause.star_expressions():
-        if table not in star_expression.tables():
+    columns = set(query.columns_of(table))
+    for star_projection in query.select_clause.star_expressions():
+        star_tables = star_projection.tables()
+        if star_tables and table not in star_tables:
+            # a star without any tables selects all columns of all tables
             continue
 
-        columns |= schema.columns(table)
+        columns |= set(schema.columns(table))
     return columns
 
 
-- 
2.43.0


From cff1e8e71cc9e511ebc233ed6823d8b89146adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 067/231] fix: bitmap scans without any index

---
 postbound/opt/dynprog.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index f0965be..bb4e748 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -255,8 +255,9 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
             len(required_columns) <= 1
         )  # check for <= 1 to include cross products with select star
         candidate_indexes = {
-            column: self._target_db.schema().indexes_on(column)
+            column: indexes
             for column in required_columns
+            if (indexes := self._target_db.schema().indexes_on(column))
         }
 
         if not candidate_indexes:
@@ -264,8 +265,6 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
 
         candidate_plans: list[QueryPlan] = []
         for column, available_indexes in candidate_indexes.items():
-            if not available_indexes:
-                continue
             sorting = [SortKey.of(column)]
 
             for index in available_indexes:
-- 
2.43.0


From dbd48c90a4d1c100af772cbb8e3fc32a8c99adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 068/231] fix: join conditions missing from plans of the
 dynamic programming enumerator

---
 postbound/opt/dynprog.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index bb4e748..d1eb236 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -399,7 +399,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.NestedLoopJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
@@ -408,7 +408,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.HashJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
@@ -419,7 +419,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
                     QueryPlan(
                         JoinOperator.SortMergeJoin,
                         children=[outer_plan, inner_plan],
-                        join_condition=join_condition,
+                        filter_predicate=join_condition,
                     )
                 )
 
-- 
2.43.0


From fa62f36efc9f4d1ca808e9ee427f046cd57a5074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 069/231] fix: exhaustive enumeration of operators for scans
 only or joins only

---
 postbound/opt/enumeration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 6ff7222..d06276e 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -294,9 +294,11 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
         tables = list(query.tables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
-- 
2.43.0


From 3402e9a099cc4496f4e99681c0cae428284b0ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 070/231] fix: exhaustive enumeration of linear join orders,
 tables without predicates

---
 postbound/opt/enumeration.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index d06276e..bb116aa 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -154,10 +154,11 @@ class ExhaustiveJoinOrderEnumerator:
         For now, the underlying algorithm is limited to queries without cross-products.
         """
         if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
+            yield from self._linear_join_orders(query)
             return
 
         join_graph = query.predicates().join_graph()
+        join_graph.add_nodes_from(query.tables())
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
@@ -196,13 +197,25 @@ class ExhaustiveJoinOrderEnumerator:
             A generator that produces all possible join orders for the input query.
         """
         join_graph = query.predicates().join_graph()
+        join_graph.add_nodes_from(query.tables())
+        if len(join_graph.nodes) > 1 and not nx.is_connected(join_graph):
+            raise ValueError(
+                "Cross products are not yet supported for join order enumeration!"
+            )
         direction = "inner" if self._tree_structure == "left-deep" else "outer"
 
+        join_order_hashes = set()
         for join_path in nx_utils.nx_frontier_walks(join_graph):
             join_tree = JoinTree()
             for table in join_path.nodes():
                 join_tree = join_tree.join_with(table, partner_direction=direction)
 
+            # different walks can visit the tables in the same order
+            current_hash = hash(join_tree)
+            if current_hash in join_order_hashes:
+                continue
+
+            join_order_hashes.add(current_hash)
             yield join_tree
 
 
-- 
2.43.0


From a21795a2218db852736f3fcf9a7c0e8fb952652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 071/231] fix: random join orders of queries with tables
 without predicates

---
 postbound/opt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 4b15d14..2690cec 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -188,6 +188,7 @@ class RandomJoinOrderGenerator:
         For now, the underlying algorithm is limited to queries without cross-products.
         """
         join_graph = query.predicates().join_graph()
+        join_graph.add_nodes_from(query.tables())
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
-- 
2.43.0


From b0acb13b8a6014a37eb503b237279f17d37cbe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 072/231] fix: Postgres-style pruning discards better sorted
 paths

---
 postbound/opt/dynprog.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index d1eb236..b8f68a0 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -763,11 +763,16 @@ class PostgresDynProg(PlanEnumerator):
             # Postgres uses a fuzzy cost comparison (compare_path_costs_fuzzily() from pathnode.c) and evicts old paths even
             # if there cost is slightly better than the new path, if the new path is better sorted.
             old_cost = old_path.estimated_cost
+            same_sorting = self._same_sorting(
+                path.sort_keys, other=old_path.sort_keys
+            )
             new_dominates = (
-                new_cost < old_cost
-                if self._same_sorting(path.sort_keys, other=old_path.sort_keys)
-                else new_cost <= 1.01 * old_cost
+                new_cost < old_cost if same_sorting else new_cost <= 1.01 * old_cost
             )
+            if not new_dominates and not same_sorting:
+                # The new path is more expensive, but also better sorted: neither path dominates the other one
+                result_paths.append(old_path)
+                continue
 
             if new_dominates:
                 # The new path is better (or at least equally) sorted and cheaper, we can evict the old path
-- 
2.43.0


From f41f04186b7d239b16f5c6463949efef9e7334e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 073/231] fix: parallel merge joins use the wrong outer path

---
 postbound/opt/dynprog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index b8f68a0..dba0625 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1033,7 +1033,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
-- 
2.43.0


From 965ab6e2d0cb3e2eacb8e08b7b9c4602cf91b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 074/231] fix: index-only scans of star queries in the
 Postgres-style enumerator

---
 postbound/opt/dynprog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index dba0625..c0ec048 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1323,8 +1323,11 @@ class PostgresDynProg(PlanEnumerator):
         base_table = util.simplify(rel.intermediate)
         filter_condition = self.predicates.filters_for(base_table)
         required_columns = self.query.columns_of(base_table)
+        used_columns = _collect_used_columns(
+            self.query, base_table, schema=self.target_db.schema()
+        )
         idx_only_scan = (
-            ScanOperator.IndexOnlyScan in self._scan_ops and len(required_columns) <= 1
+            ScanOperator.IndexOnlyScan in self._scan_ops and len(used_columns) <= 1
         )
         candidate_indexes = {
             column: self.target_db.schema().indexes_on(column)
-- 
2.43.0


From c0bed5cd5b5c7a3288b0d00484aea00038567db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 075/231] fix: index and bitmap paths lack their cardinality

---
 postbound/opt/dynprog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index c0ec048..4ea37cf 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1349,6 +1349,7 @@ class PostgresDynProg(PlanEnumerator):
                         index=index,
                         sort_keys=sorting,
                         filter_predicate=filter_condition,
+                        estimated_cardinality=rel.cardinality,
                         estimated_workers=workers,
                     )
                     index_paths.append(idx_path)
@@ -1359,6 +1360,7 @@ class PostgresDynProg(PlanEnumerator):
                         index=index,
                         sort_keys=sorting,
                         filter_predicate=filter_condition,
+                        estimated_cardinality=rel.cardinality,
                         estimated_workers=workers,
                     )
                     index_paths.append(idx_path)
@@ -1411,6 +1413,7 @@ class PostgresDynProg(PlanEnumerator):
             base_table=base_table,
             indexes=candidate_indexes,
             filter_predicate=filter_condition,
+            estimated_cardinality=rel.cardinality,
             estimated_workers=workers,
         )
 
-- 
2.43.0


From c87ed14f5330291aacde973d0e75e31f49556c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 076/231] fix: bitmap paths without any index in the
 Postgres-style enumerator

---
 postbound/opt/dynprog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 4ea37cf..f23cecf 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1394,8 +1394,9 @@ class PostgresDynProg(PlanEnumerator):
         base_table = util.simplify(rel.intermediate)
         required_columns = self.query.columns_of(base_table)
         candidate_indexes = {
-            column: self.target_db.schema().indexes_on(column)
+            column: indexes
             for column in required_columns
+            if (indexes := self.target_db.schema().indexes_on(column))
         }
         if not candidate_indexes:
             # We only check if there are no candidate indexes at all and explicitly accept the case where there is a single
-- 
2.43.0


From d7ed48dcaa41d1fe48af75a24db6b9022b74b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 077/231] fix: worker estimation of empty relations

---
 postbound/opt/dynprog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index f23cecf..6e5e53c 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1677,6 +1677,9 @@ class PostgresDynProg(PlanEnumerator):
         if not self._max_workers:
             return 0
         n_pages = self.target_db.statistics().n_pages(relation)
+        if n_pages < 1:
+            # empty relations do not have any pages
+            return 0
         workers = math.log(n_pages, 3)
         if self._max_workers is None:
             return round(workers)
-- 
2.43.0


From 096485cd5a8543907f7cffbadcdcb0fc1953f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 078/231] fix: Postgres-style enumerator never considers merge
 joins

---
 postbound/opt/dynprog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 6e5e53c..8f10a11 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1746,7 +1746,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
-- 
2.43.0


From ac11c4b428a581ebe8e39caffcc6131c99dc06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 079/231] fix: inner-joins-only pre-check rejected all explicit
 inner joins

---
 postbound/validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..3b93791 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -32,7 +32,9 @@ from .qal import (
     ImplicitFromClause,
     ImplicitSqlQuery,
     JoinTableSource,
+    JoinType,
     LogicalOperator,
+    SetQuery,
     SqlQuery,
     SubqueryTableSource,
     TableSource,
@@ -600,7 +602,8 @@ class InnerJoinPreCheck(OptimizationPreCheck):
             case JoinTableSource(left, right, _, join_type):
                 checks = (
                     [PreCheckResult.with_failure(InnerJoinFailure)]
-                    if join_type != "INNER"
+                    if join_type
+                    not in (JoinType.InnerJoin, JoinType.NaturalInnerJoin)
                     else []
                 )
                 checks.extend(
-- 
2.43.0


From d79ef2e7ddb95afe9cdce607e12ec6ed0e555e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 080/231] fix: failed pre-checks raise UnsupportedQueryError
 for set queries too

---
 postbound/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 3b93791..bbf0f37 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -151,7 +151,7 @@ class PreCheckResult:
             return
         if context is None:
             raise util.StateError(f"Pre check failed {self._generate_failure_str()}")
-        elif isinstance(context, SqlQuery):
+        elif isinstance(context, (SqlQuery, SetQuery)):
             raise UnsupportedQueryError(context, self.failure_reason)
         elif isinstance(context, Database):
             raise UnsupportedSystemError(context, self.failure_reason)
-- 
2.43.0


From a71099ce9cdbce0daa623b08a6735a1d00b6ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 081/231] fix: compound pre-checks also check the database
 system

---
 postbound/validation.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index bbf0f37..c70069e 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -341,13 +341,24 @@ class CompoundCheck(OptimizationPreCheck):
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
         check_results = [check.check_supported_query(query) for check in self.checks]
-        aggregated_passed = all(check_result.passed for check_result in check_results)
-        aggregated_failures = (
-            util.flatten(check_result.failure_reason for check_result in check_results)
-            if not aggregated_passed
-            else []
-        )
-        return PreCheckResult(aggregated_passed, aggregated_failures)
+        return self._aggregate_results(check_results)
+
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        check_results = [
+            check.check_supported_database_system(database_instance)
+            for check in self.checks
+        ]
+        return self._aggregate_results(check_results)
+
+    def _aggregate_results(self, results: list[PreCheckResult]) -> PreCheckResult:
+        """Combines the results of the child checks. The combination only passes if all of its children do."""
+        failures: list[str] = []
+        for result in results:
+            if not result.passed:
+                failures.extend(util.enlist(result.failure_reason))
+        return PreCheckResult(all(result.passed for result in results), failures)
 
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
-- 
2.43.0


From 6db4d19a273698620b3a78af5ab2ee0d82c06c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 082/231] fix: cross product pre-check sees tables without
 predicates

---
 postbound/validation.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index c70069e..b07ddd8 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -16,7 +16,7 @@ from typing import Optional
 import networkx as nx
 
 from . import util
-from ._core import PhysicalOperator
+from ._core import PhysicalOperator, TableReference
 from ._hints import HintType
 from .db import Database
 from .qal import (
@@ -444,6 +444,17 @@ class ImplicitQueryPreCheck(OptimizationPreCheck):
         return {"name": "implicit_query"}
 
 
+def _source_tables(source: TableSource) -> set[TableReference]:
+    """Determines all tables that are directly joined by a table source, ignoring the contents of subqueries."""
+    match source:
+        case DirectTableSource(table):
+            return {table}
+        case JoinTableSource(left, right):
+            return _source_tables(left) | _source_tables(right)
+        case _:
+            return set()
+
+
 class CrossProductPreCheck(OptimizationPreCheck):
     """Check to assert that a query does not contain any cross products."""
 
@@ -451,7 +462,15 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        join_graph = query.predicates().join_graph()
+        if query.from_clause is not None:
+            # tables that do not appear in any predicate are not part of the join graph
+            join_graph.add_nodes_from(
+                table
+                for item in query.from_clause.items
+                for table in _source_tables(item)
+            )
+        no_cross_products = len(join_graph) == 0 or nx.is_connected(join_graph)
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
-- 
2.43.0


From 61872962442fd21485502fafc9492b2b2d002522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 083/231] fix: hint pre-checks report readable failures and
 compare by their hints

---
 postbound/validation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index b07ddd8..089f609 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -715,7 +715,7 @@ class SupportedHintCheck(OptimizationPreCheck):
         self, database_instance: Database
     ) -> PreCheckResult:
         failures = [
-            hint
+            str(hint)
             for hint in self._features
             if not database_instance.hinting().supports_hint(hint)
         ]
@@ -725,6 +725,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and set(self._features) == set(
+            other._features
+        )
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
-- 
2.43.0


From dff77141f9a48e9cfa71c1fd217087e7a965ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 084/231] fix: custom pre-checks can be instantiated and are
 not merged by name alone

---
 postbound/validation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index 089f609..b1e9852 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -773,3 +773,17 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
-- 
2.43.0


From 882ac156887a2668183adff639dd01002726bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 085/231] fix: changing the algorithm of an integrated pipeline
 requires a new build

---
 postbound/_pipelines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..35149cc 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -390,6 +390,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
-- 
2.43.0


From d5c9e3513ecfddf959bd0d0cce18136808660554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 086/231] fix: integrated pipeline raises
 UnsupportedSystemError / UnsupportedQueryError for failed pre-checks

---
 postbound/_pipelines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 35149cc..3522c80 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -428,7 +428,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -441,7 +441,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
-- 
2.43.0


From 2d159f07255b98597c16999ce9d69c547c504353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 087/231] fix: rebuilding a multi-stage pipeline must not keep
 the checks of replaced stages

---
 postbound/_pipelines.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 3522c80..eae7622 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -722,6 +722,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._merged_pre_check: OptimizationPreCheck | None = None
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -957,9 +958,9 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        self._merged_pre_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._merged_pre_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
@@ -982,8 +983,8 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        assert self._merged_pre_check is not None
+        supported_query_check = self._merged_pre_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
@@ -1032,10 +1033,11 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         return s
 
     def describe(self) -> jsondict:
+        pre_check = self._merged_pre_check if self._build else self._pre_check
         return {
             "name": "multi_stage_pipeline",
             "database_system": self._target_db.describe(),
-            "query_pre_check": self._pre_check.describe() if self._pre_check else None,
+            "query_pre_check": pre_check.describe() if pre_check else None,
             "join_ordering": self._join_order_enumerator.describe()
             if self._join_order_enumerator
             else None,
-- 
2.43.0


From 45248812e0a1676d3f8fecaa7fe5f03088f68ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 088/231] fix: initialize cardinality estimators when emulating
 a complete algorithm

---
 postbound/_stages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index 8dce952..a79e681 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1027,11 +1027,16 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
             if self._operator_selection is not None
             else None
         )
+        if isinstance(self._plan_parameterization, CardinalityEstimator):
+            # same lifecycle as in the multi-stage pipeline
+            self._plan_parameterization.initialize(self.database, query)
         plan_params = (
             self._plan_parameterization.generate_plan_parameters(query, None, None)
             if self._plan_parameterization is not None
             else None
         )
+        if isinstance(self._plan_parameterization, CardinalityEstimator):
+            self._plan_parameterization.cleanup()
         hinted_query = self.database.hinting().generate_hints(
             query,
             join_order=join_order,
-- 
2.43.0


From 4b1c5cb479c78b22d0c32c541e91745cb669b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 089/231] fix: LIMIT 0 / OFFSET 0 are kept in Postgres queries

---
 postbound/postgres.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..5b7b8b3 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2180,11 +2180,11 @@ class PostgresLimitClause(Limit):
         if self.fetch_direction != "first":
             return super().__str__()
 
-        if self.limit and self.offset:
+        if self.limit is not None and self.offset is not None:
             return f"LIMIT {self.limit} OFFSET {self.offset}"
-        elif self.limit:
+        elif self.limit is not None:
             return f"LIMIT {self.limit}"
-        elif self.offset:
+        elif self.offset is not None:
             return f"OFFSET {self.offset}"
         else:
             return ""
-- 
2.43.0


From 7b88dab28764747842d66ea51ce3c17e63b6734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 090/231] fix: GEQO starts at geqo_threshold tables

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5b7b8b3..0fb82d6 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2220,7 +2220,7 @@ def _generate_pghintplan_hints(
     used_parallel: bool = False
 
     geqo_thresh: str = pg_instance.config["geqo_threshold"]
-    if len(query.tables()) > int(geqo_thresh):
+    if len(query.tables()) >= int(geqo_thresh):
         warnings.warn(
             "Temporarily disabling GEQO. pg_hint_plan only works with the DP optimizer.",
             category=HintWarning,
-- 
2.43.0


From 9000c959070f975620e90e323b428e26ed91f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 091/231] fix: operators with ignored parallel workers are
 still hinted by pg_lab

---
 postbound/postgres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 0fb82d6..a7f27e8 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2392,6 +2392,7 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({table})"
             else:
                 hint = f"{op}({table})"
             hints.append(hint)
@@ -2409,6 +2410,7 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({intermediate})"
             else:
                 hint = f"{op}({intermediate})"
             hints.append(hint)
-- 
2.43.0


From 40abbd1a5ad8dc9c7ff54ddc60bf0fb488ce65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 092/231] fix: Postgres operators can be configured

---
 postbound/postgres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index a7f27e8..eb14f6b 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2941,7 +2941,7 @@ class PostgresOptimizer(OptimizerInterface):
                 f"Cannot configure operator {operator} as it is not supported by Postgres"
             )
         status = "on" if enabled else "off"
-        self._pg_instance.cursor.execute(f"SET {setting_name} TO {status}")  # type: ignore
+        self._pg_instance.cursor().execute(f"SET {setting_name} TO {status}")
 
     def uses_geqo(self, query: SqlQuery) -> bool:
         pass
-- 
2.43.0


From 72f5f8660df32286bc579cbfc7e0dc9a96cdfc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 093/231] fix: pg_lab worker hints apply to the parallel part
 of the plan

---
 postbound/postgres.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index eb14f6b..21040bf 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2472,12 +2472,16 @@ def _extract_plan_join_order(plan: QueryPlan) -> str:
     return f"({outer} {inner})"
 
 
-def _iter_plan_bfs(plan: QueryPlan) -> Generator[QueryPlan, None, None]:
-    queue = collections.deque([plan])
+def _iter_plan_bfs(
+    plan: QueryPlan,
+) -> Generator[tuple[QueryPlan, Optional[QueryPlan]], None, None]:
+    queue: collections.deque[tuple[QueryPlan, Optional[QueryPlan]]] = collections.deque(
+        [(plan, None)]
+    )
     while queue:
-        node = queue.popleft()
-        queue.extend(node.children)
-        yield node
+        node, parent = queue.popleft()
+        queue.extend((child, node) for child in node.children)
+        yield node, parent
 
 
 def _generate_pglab_plan(
@@ -2489,14 +2493,14 @@ def _generate_pglab_plan(
 
     used_parallel = False
     in_upperrel = True
-    par_workers: Optional[int] = None
-    for node in _iter_plan_bfs(plan):
+    # workers of nodes that cannot be hinted (e.g. Gather), they apply to the nodes directly below
+    pending_workers: dict[int, Optional[int]] = {}
+    for node, parent in _iter_plan_bfs(plan):
         if node.is_scan() or node.is_join():
             in_upperrel = False
 
-        par_workers = (
-            node.parallel_workers if node.parallel_workers > 0 else par_workers
-        )
+        inherited = pending_workers.get(id(parent)) if parent is not None else None
+        par_workers = node.parallel_workers if node.parallel_workers > 0 else inherited
         if in_upperrel and par_workers and not used_parallel:
             hints.append(f"Result(workers={par_workers})")
             used_parallel = True
@@ -2508,16 +2512,18 @@ def _generate_pglab_plan(
                 stacklevel=3,
             )
 
-        if node.operator is None:
-            continue
-        operator = PGLabOptimizerHints.get(node.operator)
+        operator = (
+            PGLabOptimizerHints.get(node.operator)
+            if node.operator is not None
+            else None
+        )
         if not operator:
+            pending_workers[id(node)] = par_workers
             continue
         intermediate = " ".join(tab.identifier() for tab in node.tables())
 
         if par_workers and not used_parallel:
             metadata = f" (workers={par_workers})"
-            par_workers = None
             used_parallel = True
         elif par_workers and used_parallel:
             metadata = ""
-- 
2.43.0


From ee517665c679d61fc59550236de3b440cb164502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 094/231] fix: DuckDB execute_query() runs the preparatory
 statements as a whole

---
 postbound/duckdb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..d1dff72 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -103,8 +103,7 @@ class DuckDBInterface(Database):
             and query.hints
             and query.hints.preparatory_statements
         ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
+            self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
         if isinstance(query, SqlQuery):
             query = self._hinting.format_query(query)
-- 
2.43.0


From 41b3b846e3fddd4fbf9ac3bcf4fb5b800b2ed681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 095/231] fix: DuckDB scan nodes with multiple filters can be
 bound

---
 postbound/duckdb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index d1dff72..5ee6453 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -480,7 +480,10 @@ def _bind_node_to_table(
         candidate: "".join(pred.split()) for candidate, pred in query_filters.items()
     }
 
-    plan_filter: str = scan_node.get("extra_info", {}).get("Filters", "")
+    plan_filter: str | list[str] = scan_node.get("extra_info", {}).get("Filters", "")
+    if not isinstance(plan_filter, str):
+        # multiple filter predicates are provided as a list
+        plan_filter = " AND ".join(plan_filter)
     plan_filter = "".join(plan_filter.split())
 
     node_trigram = set(stats.trigrams(plan_filter))
-- 
2.43.0


From 0272670829408e8fc9f854349febd14567053470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 096/231] fix: DuckDB analyze_plan() accepts the EXPLAIN
 ANALYZE output

---
 postbound/duckdb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 5ee6453..0ffbd8a 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -630,8 +630,7 @@ class DuckDBOptimizer(OptimizerInterface):
         assert len(result_set) == 2
 
         raw_explain = result_set[1]
-        parsed = json.loads(raw_explain)
-        return parse_duckdb_plan(parsed[0], query=query)
+        return parse_duckdb_plan(raw_explain, query=query)
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
         # Similar to the Postgres implementation of parse_plan(), we try to be gracefull
-- 
2.43.0


From bfbccc260761f70f2ea2980ff551dc636036c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 097/231] fix: do not generate global scan operator settings
 that are not supported by quacklab

---
 postbound/duckdb.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 0ffbd8a..ade4fa1 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -860,10 +860,6 @@ class DuckDBHintService(HintService):
 
         for param, val in ops.global_settings.items():
             match param:
-                case ScanOperator.SequentialScan:
-                    param_txt = "enable_seqscan"
-                case ScanOperator.IndexScan:
-                    param_txt = "enable_indexscan"
                 case JoinOperator.NestedLoopJoin:
                     param_txt = "enable_nestloop"
                 case JoinOperator.HashJoin:
-- 
2.43.0


From 432ef0b6f70d8ebc2d8ee7b1643e7be20e87189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 098/231] fix: DuckDB system settings are valid SET statements

---
 postbound/duckdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index ade4fa1..2191fcb 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -895,7 +895,7 @@ class DuckDBHintService(HintService):
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
-- 
2.43.0


From 142a0c4c5887cc6ce6ad11d81586f432adf42bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 099/231] fix: DatabaseSchema.is_view() respects the schema of
 the table

---
 postbound/db/_db.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7199ce8..9abb8f7 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -888,18 +888,26 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if isinstance(table, TableReference) and table.virtual:
             raise VirtualTableError(table)
+        schema = table.schema if isinstance(table, TableReference) else ""
         table = table if isinstance(table, str) else table.full_name
         db_name = self._db.database_name()
 
+        schema_placeholder = self._prep_placeholder if schema else "current_schema()"
         query_template = textwrap.dedent(f"""
             SELECT table_type
             FROM information_schema.tables
             WHERE table_catalog = {self._prep_placeholder}
                 AND table_name = {self._prep_placeholder}
                 AND table_catalog = current_database()
+                AND table_schema = {schema_placeholder}
             """)
+
+        params = [db_name, table]
+        if schema:
+            params.append(schema)
+
         cur = self._db.cursor()
-        cur.execute(query_template, (db_name, table))
+        cur.execute(query_template, params)
         result_set = cur.fetchall()
 
         assert result_set is not None
-- 
2.43.0


From 28e17e5bc6c23a866f096c2f842ce20bd179e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 100/231] fix: DatabaseSchema.lookup_column() finds columns by
 name

---
 postbound/db/_db.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 9abb8f7..0d880fe 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -950,9 +950,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         **Hint for implementors:** the default implementation of this method (transitively) relies on the
         *information_schema.columns* view.
         """
+        candidate_tables = list(candidate_tables)
+        colname = column.name if isinstance(column, ColumnReference) else column
         for candidate in candidate_tables:
-            candidate_cols = self.columns(candidate)
-            if column in candidate_cols:
+            candidate_cols = {col.name for col in self.columns(candidate)}
+            if colname in candidate_cols:
                 return candidate
 
         if expect_match:
-- 
2.43.0


From d10303e871ff55133d4a3b93ebf2eee4899ee904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 101/231] fix: schema methods raise VirtualTableError and
 columns of compound keys are no primary keys

---
 postbound/db/_db.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 0d880fe..7df6657 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -990,6 +990,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1004,21 +1006,22 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.table_name = ccu.table_name
                     AND tc.constraint_catalog = ccu.constraint_catalog
             WHERE tc.table_name = {self._prep_placeholder}
-                AND ccu.column_name = {self._prep_placeholder}
                 AND tc.constraint_type = 'PRIMARY KEY'
                 AND tc.table_catalog = current_database()
                 AND tc.table_schema = {schema_placeholder};
             """)
 
-        params = [table.full_name, column.name]
+        params = [table.full_name]
         if table.schema:
             params.append(table.schema)
 
         cur = self._db.cursor()
         cur.execute(query_template, params)
-        result_set = cur.fetchone()
+        result_set = cur.fetchall()
+        assert result_set is not None
 
-        return result_set is not None
+        # for compound primary keys, there are multiple columns in the result set
+        return [row[0] for row in result_set] == [column.name]
 
     def primary_key_column(
         self, table: TableReference | str
@@ -1111,6 +1114,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1193,6 +1198,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1290,6 +1297,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1374,6 +1383,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1424,6 +1435,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
-- 
2.43.0


From 2a00d0bd0927a078090a396b47e361982aa86160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 102/231] fix: default foreign_keys_on() reads table and column
 from the correct result columns

---
 postbound/db/_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7df6657..457adb0 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1234,7 +1234,9 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0], schema=table.schema))
+            BoundColumnReference(
+                row[2], TableReference(row[1], schema=row[0] if table.schema else "")
+            )
             for row in result_set
         }
 
-- 
2.43.0


From e27683222b8b407f6c1214166d1239dc196e5036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 103/231] fix: DatabaseSchema raises KeyErrors for missing
 tables and columns and supports views

---
 postbound/db/_db.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 457adb0..2f0198c 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1560,6 +1560,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
     def __getitem__(self, key):
         match key:
             case ColumnReference():
+                if key.table is None:
+                    raise UnboundColumnError(key)
+                if key.name not in {col.name for col in self.columns(key.table)}:
+                    raise KeyError(f"Column '{key}' not found in database schema")
+
                 return ColumnInfo(
                     column=key,
                     table=key.table,
@@ -1569,8 +1574,15 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     primary_key=self.is_primary_key(key),
                 )
             case TableReference():
+                columns = self.columns(key)
+                if not columns:
+                    raise KeyError(f"Table '{key}' not found in database schema")
+
                 schema_graph = self.as_graph()
-                col_infos = [self[col] for col in self.columns(key)]
+                if key not in schema_graph:
+                    # views are not part of the schema graph, but also don't have any foreign keys
+                    schema_graph.add_node(key)
+                col_infos = [self[col] for col in columns]
                 outgoing_fks = set_union(
                     edge[2] for edge in schema_graph.out_edges(key, data="foreign_keys")
                 )
@@ -1592,10 +1604,10 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     pass
 
                 try:
-                    col, tab = key.split(".", 1)
+                    tab, col = key.split(".", 1)
                     ref = ColumnReference(col, TableReference(tab))
                     return self[ref]
-                except KeyError:
+                except (KeyError, ValueError):
                     raise KeyError(f"Key '{key}' not found in database schema")
             case _:
                 raise KeyError(
-- 
2.43.0


From 25f639b6844fd9764650ec1401a3f930a4406fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 104/231] fix: DuckDB schema methods raise VirtualTableError
 and tables() does not expose its cache

---
 postbound/duckdb.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 2191fcb..7f192eb 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -27,6 +27,7 @@ from ._core import (
     ScanOperator,
     TableReference,
     UnboundColumnError,
+    VirtualTableError,
 )
 from ._hints import (
     HintType,
@@ -240,7 +241,7 @@ class DuckDBSchema(DatabaseSchema):
 
     def tables(self, *, include_system_tables: bool = False) -> set[TableReference]:
         if self._tables:
-            return self._tables
+            return set(self._tables)
 
         cur = self._db.cursor()
         cur.execute(
@@ -256,11 +257,13 @@ class DuckDBSchema(DatabaseSchema):
 
         tables = {TableReference(row[0]) for row in result_set}
         self._tables = tables
-        return self._tables
+        return set(self._tables)
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -286,6 +289,8 @@ class DuckDBSchema(DatabaseSchema):
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -337,6 +342,8 @@ class DuckDBSchema(DatabaseSchema):
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
         query_template = f"""
-- 
2.43.0


From 2a9704a84c676fa14fdfddfc061257077331af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 105/231] fix: DuckDB index lookup handles quoted column names

---
 postbound/duckdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 7f192eb..b229bd9 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -271,7 +271,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND trim(ddbi.expressions, '[]''"') = ?
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             """)
@@ -304,7 +304,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND trim(ddbi.expressions, '[]''"') = ?
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             UNION
-- 
2.43.0


From 5666d216ba0508114afeb3a3b3805048676f4afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 106/231] fix: the query cache can store decimals

---
 postbound/db/_db.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 2f0198c..d3802a6 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -27,6 +27,7 @@ import warnings
 from collections.abc import Iterable, Iterator, Mapping, Sequence
 from dataclasses import dataclass
 from datetime import date, datetime, time, timedelta
+from decimal import Decimal
 from typing import Any, Literal, Optional, Protocol, Type, overload, runtime_checkable
 
 import networkx as nx
@@ -296,6 +297,8 @@ class _DBCacheJsonEncoder(json.JSONEncoder):
             return {"$time": o.isoformat()}
         elif isinstance(o, timedelta):
             return {"$timedelta": o.total_seconds()}
+        elif isinstance(o, Decimal):
+            return {"$decimal": str(o)}
         return super().default(o)
 
 
@@ -316,6 +319,8 @@ class _DBCacheJsonDecoder(json.JSONDecoder):
             return time.fromisoformat(obj["$time"])
         elif "$timedelta" in obj:
             return timedelta(seconds=obj["$timedelta"])
+        elif "$decimal" in obj:
+            return Decimal(obj["$decimal"])
         return obj
 
 
-- 
2.43.0


From 3655b4a698349ab73f76c2cb93539ab82905df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 107/231] fix: rows of the stored query cache are restored as
 tuples

---
 postbound/db/_db.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index d3802a6..b0e392a 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -649,7 +649,14 @@ class Database(abc.ABC):
         if os.path.isfile(query_cache_name):
             with open(query_cache_name, "r") as cache_file:
                 try:
-                    self._query_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    raw_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                    # JSON does not know about tuples, so we need to restore the rows manually
+                    self._query_cache = {
+                        query: [tuple(row) for row in rows]
+                        if rows is not None
+                        else None
+                        for query, rows in raw_cache.items()
+                    }
                 except json.JSONDecodeError as e:
                     warnings.warn(
                         f"Could not read query cache: {e}",
-- 
2.43.0


From f51c980d77077ff678f2465551ebb88cfb6d9efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 108/231] fix: DuckDB connects before the query cache is loaded

---
 postbound/duckdb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index b229bd9..a1fa540 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -65,13 +65,14 @@ class DuckDBInterface(Database):
         system_name: str = "DuckDB",
         cache_enabled: bool = False,
     ) -> None:
-        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
-
+        # the connection needs to be established before calling the super-constructor, because it is required to determine
+        # the correct query cache
         self._dbfile = db
-
         self._cur = quacklab.connect(db)
         self._last_query_runtime = math.nan
 
+        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
+
         self._stats = DuckDBStatistics(self)
         self._schema = DuckDBSchema(self)
         self._optimizer = DuckDBOptimizer(self)
-- 
2.43.0


From ad9ad69870f0a7acd3997a97f92cec148e2db334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 109/231] fix: DuckDB execute_query() respects the cache
 setting of the database

---
 postbound/duckdb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index a1fa540..3415850 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -112,6 +112,7 @@ class DuckDBInterface(Database):
         elif isinstance(query, UserString):
             query = str(query)
 
+        cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
         if cache_enabled:
             cached_res = self._query_cache.get(query)
             if cached_res is not None:
-- 
2.43.0


From b7a73347dd5746cc65409d59c5c3a9f6f892d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 110/231] fix: DuckDB execute_with_timeout() returns None for
 cancelled queries

---
 postbound/duckdb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 3415850..97e89cb 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -150,7 +150,10 @@ class DuckDBInterface(Database):
             return result_set
         except concurrent.futures.TimeoutError:
             self._cur.interrupt()
-            promise.result()
+            try:
+                promise.result()
+            except quacklab.InterruptException:
+                pass
 
             # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
             # the runtime itself. This way we overwrite any measurement that the worker might have produced.
-- 
2.43.0


From 3b61f7a2f09ac81da0cd6f754f1dfe1aa5558167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 111/231] fix: MCV lists accept NULL values that tie with other
 values

---
 postbound/db/_db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index b0e392a..8031960 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1667,7 +1667,10 @@ class MostCommonValues[T]:
 
     def __init__(self, mcvs: Iterable[tuple[T, int]]) -> None:
         self.mcvs: Sequence[tuple[T, int]] = list(mcvs)
-        self.mcvs.sort(key=lambda pair: (pair[1], pair[0]), reverse=True)
+        # NULL values are not comparable to other values, they are treated as the smallest value
+        self.mcvs.sort(
+            key=lambda pair: (pair[1], pair[0] is not None, pair[0]), reverse=True
+        )
         self._mcv_map = dict(self.mcvs)
         if self.mcvs:
             self._min_freq = self.mcvs[-1][1]
-- 
2.43.0


From 0e9f3996a3ee3702f529a2a15ed96c8a6953e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 112/231] fix: emulated histograms cover all non-NULL rows with
 at most n_bins buckets

---
 postbound/db/_db.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 8031960..ecfd199 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -21,6 +21,7 @@ import atexit
 import bisect
 import collections
 import json
+import math
 import os
 import textwrap
 import warnings
@@ -1791,7 +1792,8 @@ def _infer_histogram_bounds[T](
     if not frequencies:
         raise ValueError("Cannot infer histogram bounds from empty frequency list")
 
-    bucket_size = n_rows // n_bins
+    # round up to make sure that we never produce more than n_bins buckets
+    bucket_size = math.ceil(n_rows / n_bins)
 
     bounds: list[T] = []
     buckets: list[int] = []
@@ -1804,6 +1806,11 @@ def _infer_histogram_bounds[T](
         buckets.append(cumulative_freq)
         cumulative_freq = 0
 
+    if cumulative_freq > 0:
+        # the largest values did not fill an entire bucket
+        bounds.append(frequencies[-1][0])
+        buckets.append(cumulative_freq)
+
     return frequencies[0][0], bounds, buckets
 
 
@@ -2894,22 +2901,21 @@ class DatabaseStatistics(abc.ABC):
         interpolation: HistogramApproximation,
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
-        n_rows = self._calculate_total_rows(column.table)
-        if n_rows == 0:
-            return None
-
         query_template = """
             SELECT {col}, COUNT(*) AS n
             FROM {tab}
+            WHERE {col} IS NOT NULL
             GROUP BY {col}
             ORDER BY {col}
-            """.format(col=column.name, tab=column.table.full_name)
+            """.format(col=quote(column.name), tab=column.table.qualified_name())
         result_set = self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
             raw=True,
         )
-        assert result_set
+        if not result_set:
+            return None
+        n_rows = sum(freq for _, freq in result_set)
 
         lo, bounds, buckets = _infer_histogram_bounds(
             result_set, n_bins=n_bins, n_rows=n_rows
-- 
2.43.0


From fd8a91c5fed39224f3eaac1492f1bc87c245d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 113/231] fix: histogram frequency estimates use the actual
 bucket frequencies

---
 postbound/db/_db.py | 54 ++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index ecfd199..97b5c4c 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1926,29 +1926,20 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        upper_idx = bisect.bisect_right(self._bounds, value)
-        if upper_idx == 0:
+        if value < self._lower:
             return 0
-        elif upper_idx == len(self._bounds):
+        elif value >= self.upper:
             return self._n_rows
 
-        if self._bucket_interpolation == "bound":
-            return upper_idx * self._freq_per_bucket
-
-        assert self._bucket_interpolation == "approx-uni"
-
-        if not isinstance(value, (int, float, date, datetime)):
-            raise ValueError(
-                "Cannot estimate frequency within bucket. "
-                f"Strategy '{self._bucket_interpolation}' is unknown or unsupported "
-                f"for histograms of type {type(value).__name__}."
-            )
+        # buckets include their upper bound, but not their lower bound
+        bucket_idx = bisect.bisect_left(self._bounds, value)
+        freq_before = sum(self._frequencies[:bucket_idx])
+        bucket_freq = self._frequencies[bucket_idx]
+        upper_bound = self._bounds[bucket_idx]
+        if value == upper_bound or self._bucket_interpolation == "bound":
+            return freq_before + bucket_freq
 
-        lower_idx = upper_idx - 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
-        in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (lower_idx + in_bucket_frac) * self._freq_per_bucket
+        return freq_before + self._bucket_fraction(value, bucket_idx) * bucket_freq
 
     def frequency_above(self, value: T) -> int:
         """Estimate the frequency of values that are greater than a given value.
@@ -1959,15 +1950,24 @@ class Histogram[T: SupportsRichComparison[T]]:
         If the value does not align exactly with the bucket bounds, the behavior depends on the selected
         `bucket_interpolation` strategy. See the class documentation for details.
         """
-        lower_idx = bisect.bisect_left(self._bounds, value)
-        if lower_idx == 0:
+        if value < self._lower:
             return self._n_rows
-        elif lower_idx == len(self._bounds):
+        elif value >= self.upper:
             return 0
 
+        bucket_idx = bisect.bisect_left(self._bounds, value)
+        freq_after = sum(self._frequencies[bucket_idx + 1 :])
+        if value == self._bounds[bucket_idx]:
+            return freq_after
+
+        bucket_freq = self._frequencies[bucket_idx]
         if self._bucket_interpolation == "bound":
-            return lower_idx * self._freq_per_bucket
+            return freq_after + bucket_freq
+
+        return freq_after + (1 - self._bucket_fraction(value, bucket_idx)) * bucket_freq
 
+    def _bucket_fraction(self, value: T, bucket_idx: int) -> float:
+        """Computes the share of a bucket that is less than or equal to a value, assuming a uniform distribution."""
         assert self._bucket_interpolation == "approx-uni"
 
         if not isinstance(value, (int, float, date, datetime)):
@@ -1977,11 +1977,9 @@ class Histogram[T: SupportsRichComparison[T]]:
                 f"for histograms of type {type(value).__name__}."
             )
 
-        upper_idx = lower_idx + 1
-        upper_bound = self._bounds[upper_idx]
-        lower_bound = self._bounds[lower_idx]
-        in_bucket_frac = (value - lower_bound) / (upper_bound - lower_bound)
-        return (upper_idx + in_bucket_frac) * self._freq_per_bucket
+        upper_bound = self._bounds[bucket_idx]
+        lower_bound = self._bounds[bucket_idx - 1] if bucket_idx > 0 else self._lower
+        return (value - lower_bound) / (upper_bound - lower_bound)
 
     def __len__(self) -> int:
         return len(self._bounds)
-- 
2.43.0


From f7275cbd38d8e874c8e7d6d43fb86e757aa71416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 114/231] fix: emulated statistics quote identifiers and
 respect the schema

---
 postbound/db/_db.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 97b5c4c..49ac4b9 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -45,6 +45,7 @@ from .._core import (
     TableReference,
     UnboundColumnError,
     VirtualTableError,
+    quote,
 )
 from .._hints import (
     HintType,
@@ -2771,7 +2772,7 @@ class DatabaseStatistics(abc.ABC):
         int
             The total number of rows in the table.
         """
-        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.full_name)
+        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.qualified_name())
         return self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
@@ -2799,7 +2800,7 @@ class DatabaseStatistics(abc.ABC):
             The number of distinct values in the column
         """
         query_template = "SELECT COUNT(DISTINCT {col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2828,7 +2829,7 @@ class DatabaseStatistics(abc.ABC):
             A tuple of *(min, max)*
         """
         query_template = "SELECT MIN({col}), MAX({col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2873,7 +2874,7 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}""".format(
-                col=column.name, tab=column.table.full_name
+                col=quote(column.name), tab=column.table.qualified_name()
             )
         else:
             query_template = textwrap.dedent(
@@ -2882,7 +2883,9 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}
-                LIMIT {k}""".format(col=column.name, tab=column.table.full_name, k=k)
+                LIMIT {k}""".format(
+                    col=quote(column.name), tab=column.table.qualified_name(), k=k
+                )
             )
 
         return self._db.execute_query(
-- 
2.43.0


From 502fbcb262a0bb32d541ce5f430d796cbc44573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 115/231] fix: DuckDB plans are parsed from all forms of the
 EXPLAIN result

---
 postbound/duckdb.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 97e89cb..df9ab53 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -520,7 +520,7 @@ def _bind_node_to_table(
 
 
 def parse_duckdb_plan(
-    raw_plan: dict | str, *, query: Optional[SqlQuery] = None
+    raw_plan: dict | str | list | tuple, *, query: Optional[SqlQuery] = None
 ) -> QueryPlan:
     """Parses a DuckDB query plan from its JSON representation.
 
@@ -533,8 +533,14 @@ def parse_duckdb_plan(
     some heuristics (e.g. trying to match filter predicates) to resolve this ambiguity, but there is no guarantee that this
     always works correctly.
     """
-    if isinstance(raw_plan, str):
-        raw_plan = json.loads(raw_plan)
+    # the plan can be wrapped into (parts of) the result set of an EXPLAIN query: rows contain the plan type and the JSON text
+    while not isinstance(raw_plan, dict):
+        if isinstance(raw_plan, str):
+            raw_plan = json.loads(raw_plan)
+        elif isinstance(raw_plan, tuple):
+            raw_plan = raw_plan[1]
+        else:
+            raw_plan = raw_plan[0]
 
     node_type = raw_plan.get("name") or raw_plan.get("operator_name")
     if not node_type:
-- 
2.43.0


From 9cda59b37e9f60adc87b39deeefcd55bae877e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 116/231] fix: DuckDB nested-loop and merge joins are
 recognized in EXPLAIN plans

---
 postbound/duckdb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index df9ab53..cdd7f17 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -559,6 +559,10 @@ def parse_duckdb_plan(
     match node_type:
         case "HASH_JOIN":
             node_type = JoinOperator.HashJoin
+        case "NESTED_LOOP_JOIN" | "BLOCKWISE_NL_JOIN":
+            node_type = JoinOperator.NestedLoopJoin
+        case "PIECEWISE_MERGE_JOIN":
+            node_type = JoinOperator.SortMergeJoin
         case (
             "SEQ_SCAN" | "SEQ_SCAN "  # DuckDB has a weird typo in the SEQ_SCAN label
         ) if extras.get("Type", "") == "Sequential Scan":
-- 
2.43.0


From 19be2f7b3c21aedc0790615b6afc8b5f6c4428f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 117/231] fix: execute_workload describes the database after
 the query preparation

---
 postbound/bench.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e9eba7..6402798 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -532,7 +532,6 @@ def _execute_query(
     *,
     on: Database,
     timeout: Optional[float] = None,
-    query_prep: Optional[QueryPreparation] = None,
 ) -> _InternalExecResult:
     """Prepares and executes a query on an actual database system while gracefully handling timeouts and errors.
 
@@ -542,9 +541,6 @@ def _execute_query(
     if timeout and not isinstance(on, TimeoutSupport):
         raise ValueError(f"Database system {on} does not provide timeout support")
 
-    if query_prep:
-        query = query_prep.prepare_query(query, on=on)
-
     try:
         if timeout:
             exec_start = time.perf_counter_ns()
@@ -930,11 +926,13 @@ def _exec_ctl_loop(
     """
     cfg.log.next_query_rep()
 
+    if cfg.query_prep:
+        query = cfg.query_prep.prepare_query(query, on=cfg.target_db)
+
+    # the preparation can change the state of the database, so we have to describe it afterwards
     db_config = cfg.target_db.describe()
     sample.start_execution()
-    match _execute_query(
-        query, on=cfg.target_db, timeout=cfg.timeout, query_prep=cfg.query_prep
-    ):
+    match _execute_query(query, on=cfg.target_db, timeout=cfg.timeout):
         case _SuccessfullExecution(result_set, exec_time):
             sample.add_exec_sample(result_set, exec_time=exec_time, db_config=db_config)
         case _TimeoutExecution(exec_time):
-- 
2.43.0


From 16a416a9826584553071f86921ad7fca5ab558b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 118/231] fix: failed and cancelled queries have no result set
 in the benchmark results

---
 postbound/bench.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6402798..63c278c 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -623,6 +623,11 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+def _simplify_if_present(result_set: ResultSet | None) -> Any:
+    """Simplifies the result set of a query, unless the query did not produce any result set in the first place."""
+    return None if result_set is None else simplify_result_set(result_set)
+
+
 class _ResultSample:
     """A result sample corresponds to all executions of a single query within one workload repetition.
 
@@ -725,7 +730,7 @@ class _ResultSample:
         if self._optimization_failure or not self.result_sets:
             return None
 
-        result_set = simplify_result_set(self.result_sets[-1])
+        result_set = _simplify_if_present(self.result_sets[-1])
         return ExecutionResult(
             query=self.query,
             status=self.status[-1],
@@ -740,7 +745,7 @@ class _ResultSample:
             return pd.DataFrame()
 
         if only_last:
-            result_set = simplify_result_set(self.result_sets[-1])
+            result_set = _simplify_if_present(self.result_sets[-1])
             rows = {
                 "exec_index": [self._initial_idx + n_samples - 1],
                 "label": [self.label],
@@ -767,7 +772,9 @@ class _ResultSample:
                 "query_repetition": [i + 1 for i in range(n_samples)],
                 "query": [self.query] * n_samples,
                 "status": self.status,
-                "query_result": [simplify_result_set(rs) for rs in self.result_sets],
+                "query_result": [
+                    _simplify_if_present(rs) for rs in self.result_sets
+                ],
                 "exec_time": self.exec_times,
                 "failure_reason": self.failure_reasons,
                 "db_config": self.db_configs,
-- 
2.43.0


From 7513bd31955cf65872be00299e7827ce8b69d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 119/231] fix: ignored execution errors no longer break the
 benchmark results

---
 postbound/bench.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 63c278c..9825448 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -694,6 +694,9 @@ class _ResultSample:
     def start_execution(self) -> None:
         self.timestamps.append(datetime.now())
 
+    def abort_execution(self) -> None:
+        self.timestamps.pop()
+
     def add_exec_sample(
         self, result_set: ResultSet, *, exec_time: float, db_config: util.jsondict
     ) -> None:
@@ -949,7 +952,8 @@ def _exec_ctl_loop(
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
         case _FailedExecution(_) if cfg.error_action == "ignore":
-            pass
+            sample.abort_execution()
+            return
         case _FailedExecution(_):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
-- 
2.43.0


From 965baf5fb0b034823dbc5d284d62cb3845583542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 120/231] fix: failed queries are written to the progressive
 benchmark output

---
 postbound/bench.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 9825448..f9bac14 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -809,7 +809,8 @@ class _ResultSample:
         if file is None:
             return
 
-        df = self.to_df(only_last=True)
+        # failed optimizations directly produce the samples for all repetitions
+        df = self.to_df(only_last=self._optimization_failure is None)
         df = prepare_export(df)
 
         match file.suffix:
@@ -959,7 +960,7 @@ def _exec_ctl_loop(
         case _ as other:
             raise RuntimeError(f"Unhandled execution result: {other}")
 
-    if cfg.output and sample.last_successful():
+    if cfg.output:
         sample.write_progressive(cfg.output, cfg.output_args)
 
     if cfg.exec_callback and sample.last_successful():
-- 
2.43.0


From eba8d7a42ac201419a354e1b5f993c0d50825d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 121/231] fix: progressive Parquet output supports different
 kinds of query results

---
 postbound/bench.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postbound/bench.py b/postbound/bench.py
index f9bac14..25818f6 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -841,6 +841,14 @@ class _ResultSample:
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
 
+        # in contrast to the other formats, all values in a Parquet column must have the same type
+        results = df["query_result"]
+        if results.dropna().map(type).nunique() > 1:
+            df["query_result"] = [
+                res if isinstance(res, str) or pd.isna(res) else util.to_json(res)
+                for res in results
+            ]
+
         df.to_parquet(file, index=False, **writer_args)
 
     def _write_hdf(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
-- 
2.43.0


From fc6d6961b439548c014063b65a5998a948106dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 122/231] fix: progressive JSON output does not change the
 types of existing results

---
 postbound/bench.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 25818f6..9314f47 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -869,7 +869,8 @@ class _ResultSample:
 
     def _write_json(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
         if file.is_file():
-            existing_results = pd.read_json(file)
+            # don't let Pandas guess different data types, e.g. integers for query labels such as "001"
+            existing_results = pd.read_json(file, dtype=False, convert_dates=False)
             df = pd.concat([existing_results, df], ignore_index=True)
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 752f77af5d67d3c89f93282def8060aafd4a37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 123/231] fix: benchmarks without any results return an empty
 data frame

---
 postbound/bench.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/bench.py b/postbound/bench.py
index 9314f47..1393044 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -929,6 +929,8 @@ class _ExecutionResults:
     def to_df(self) -> pd.DataFrame:
         """Provides all results as a single data frame. This is the final output of the benchmarking process."""
         samples = [sample.to_df() for sample in self._samples]
+        if not samples:
+            return pd.DataFrame()
         return pd.concat(samples, ignore_index=True)
 
 
-- 
2.43.0


From 22acf8e83186aed9067a9c1a7a724cb1ecd7b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 124/231] fix: online learning skips timed out queries

---
 postbound/bench.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 1393044..020554f 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1030,7 +1030,9 @@ def _workload_ctl_loop(
             continue
 
         for exec_result in sample.to_execution_results():
-            assert exec_result.query_result is not None
+            if exec_result.query_result is None:
+                # there is nothing to learn from timeouts
+                continue
             exec_time = 1000 * exec_result.execution_time
             pipeline.learn_from_feedback(
                 query, exec_result.query_result, exec_time=exec_time
-- 
2.43.0


From 02eefb1a2e03f2388d03510d6ae879f49b9dabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 125/231] fix: prepare_export considers all rows of the results

---
 postbound/bench.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 020554f..b4441da 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1287,9 +1287,13 @@ def prepare_export(results_df: pd.DataFrame) -> pd.DataFrame:
 
     prepared_df = results_df.copy()
 
-    example_result = prepared_df.iloc[0]
-    for col in example_result.index:
-        if not isinstance(example_result[col], (list, tuple, dict, Jsonizable)):
+    for col in prepared_df.columns:
+        # different rows can contain different kinds of values, e.g. scalar and tabular query results
+        needs_json = any(
+            isinstance(value, (list, tuple, dict, Jsonizable))
+            for value in prepared_df[col]
+        )
+        if not needs_json:
             continue
 
         prepared_df[col] = prepared_df[col].apply(util.to_json)
-- 
2.43.0


From 0929231ce284cceaf0e733b844da0f7701719196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 126/231] fix: sort_results supports its default columns and
 breaks ties

---
 postbound/bench.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index b4441da..2d76a54 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1326,6 +1326,11 @@ def sort_results(
     pd.DataFrame
         A reordered data frame. The original data frame is not modified
     """
-    return results_df.sort_values(
-        by=by_column, key=lambda series: np.argsort(natsort.index_natsorted(series))
-    )
+
+    def natural_rank(series: pd.Series) -> pd.Series:
+        # equal values must receive the same rank, otherwise subsequent columns would never be considered
+        ranks = {val: i for i, val in enumerate(natsort.natsorted(series.unique()))}
+        return series.map(ranks)
+
+    columns = [by_column] if isinstance(by_column, str) else list(by_column)
+    return results_df.sort_values(by=columns, key=natural_rank)
-- 
2.43.0


From 8b9d45d4c74bd5464c3106f4193ba46f2d757f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 127/231] fix: line breaks in query files are not duplicated

---
 postbound/workloads.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..5cfb8bb 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -194,8 +194,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
 
         for query_file_path in matching_files:
             with open(query_file_path, "r", encoding=file_encoding) as query_file:
-                raw_contents = query_file.readlines()
-            query_contents = "\n".join([line for line in raw_contents])
+                query_contents = query_file.read()
 
             try:
                 parsed_query = parser.parse_query(
@@ -714,8 +713,7 @@ def read_workload(
 
     for query_file_path in matching_files:
         with open(query_file_path, "r", encoding=file_encoding) as query_file:
-            raw_contents = query_file.readlines()
-        query_contents = "\n".join([line for line in raw_contents])
+            query_contents = query_file.read()
 
         try:
             parsed_query = parser.parse_query(
-- 
2.43.0


From fe594929f1e1c5b49f78ef58478b9daa38c72fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 128/231] fix: workload labels contain all prefixes and
 unparseable query files are skipped

---
 postbound/workloads.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 5cfb8bb..db6a7a8 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -214,6 +214,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         )
                     case "ignore":
                         pass
+                continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -704,6 +705,8 @@ def read_workload(
     """
     root = Path(path)
     queries: dict[str, SqlQuery] = {}
+    if query_label_prefix and not query_label_prefix.endswith("/"):
+        query_label_prefix += "/"
 
     if verbose:
         matching_files = list(root.glob(query_file_pattern))
@@ -731,9 +734,10 @@ def read_workload(
                     )
                 case "ignore":
                     pass
+            continue
 
         query_label = query_file_path.stem
-        queries[query_label] = parsed_query
+        queries[query_label_prefix + query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
     if not recurse_subdirectories:
@@ -742,12 +746,7 @@ def read_workload(
     for subdir in root.iterdir():
         if not subdir.is_dir():
             continue
-        subdir_prefix = (
-            (query_label_prefix + "/")
-            if query_label_prefix and not query_label_prefix.endswith("/")
-            else query_label_prefix
-        )
-        subdir_prefix += subdir.stem + "/"
+        subdir_prefix = query_label_prefix + subdir.name + "/"
         subdir_workload = read_workload(
             subdir,
             query_file_pattern=query_file_pattern,
-- 
2.43.0


From b75f3b209a303a9b4a6b2ccbed6f3bcc8a3717dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 129/231] fix: the encoding is used for query files in
 subdirectories

---
 postbound/workloads.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index db6a7a8..5607f3e 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -752,6 +752,7 @@ def read_workload(
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
-- 
2.43.0


From 7b4427ecca72eacfb0511b9462e56cd104a6175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 130/231] fix: the last 0 queries of a workload are no queries

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 5607f3e..e1f05dd 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -378,7 +378,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
-- 
2.43.0


From af327f2fc10be20bc2e3199601ec889352edab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 131/231] fix: empty lines in batch workloads are skipped

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index e1f05dd..a85f3e3 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -792,7 +792,7 @@ def read_batch_workload(
     name = name if name else filepath.stem
     with open(filename, "r", encoding=file_encoding) as query_file:
         raw_queries = query_file.readlines()
-        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw]
+        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw.strip()]
         return generate_workload(parsed_queries, name=name, workload_root=filepath)
 
 
-- 
2.43.0


From 0e0a5aa84d53668c7220271ff48c01a623596118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 132/231] fix: workloads keep equal queries with different
 labels

---
 postbound/workloads.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index a85f3e3..86c6453 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -863,14 +863,11 @@ def read_csv_workload(
 
     queries = workload_df[query_column].tolist()
     if label_column:
+        # the same query can be contained multiple times, so it cannot be used to look up the label
         labels = workload_df[label_column].tolist()
-        label_provider = dict(zip(queries, labels))
-    else:
-        label_provider = None
+        return Workload(dict(zip(labels, queries)), name, filepath)
 
-    return generate_workload(
-        queries, name=name, labels=label_provider, workload_root=filepath
-    )
+    return generate_workload(queries, name=name, workload_root=filepath)
 
 
 def generate_workload(
@@ -912,9 +909,8 @@ def generate_workload(
     )
     name = name if name else (workload_root.stem if workload_root else "")
     if not labels:
-        labels: dict[SqlQuery, int] = {
-            query: idx + 1 for idx, query in enumerate(queries)
-        }
+        # the same query can be contained multiple times, so it cannot be used to look up the label
+        return Workload(dict(enumerate(queries, start=1)), name, workload_root)
     workload_contents = util.dicts.invert(labels)
     return Workload(workload_contents, name, workload_root)
 
-- 
2.43.0


From 367643567a23cc0113c0b2dc8687fc1677e56fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 133/231] fix: relalg leaf() descends to the leaf of the tree

---
 postbound/relalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index eda6b5a..1a45bff 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -162,7 +162,7 @@ class RelNode(abc.ABC):
         children = self.children()
         if not children:
             return self
-        return children[0] if len(children) == 1 else None
+        return children[0].leaf() if len(children) == 1 else None
 
     @abc.abstractmethod
     def children(self) -> Sequence[RelNode]:
-- 
2.43.0


From ad76e1289d4b0b72e45daf055c0fc9db6686f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 134/231] fix: relalg set operations pass themselves to
 visitors

---
 postbound/relalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 1a45bff..2715dd6 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -725,7 +725,7 @@ class Union(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_union(visitor)
+        return visitor.visit_union(self)
 
     def mutate(
         self,
@@ -836,7 +836,7 @@ class Intersection(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_intersection(visitor)
+        return visitor.visit_intersection(self)
 
     def mutate(
         self,
@@ -948,7 +948,7 @@ class Difference(RelNode):
         return [self._left_input, self._right_input]
 
     def accept_visitor(self, visitor: RelNodeVisitor[VisitorResult]) -> VisitorResult:
-        return visitor.visit_difference(visitor)
+        return visitor.visit_difference(self)
 
     def mutate(
         self,
-- 
2.43.0


From 66272e99b288002edf1964763e5018c468e6d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 135/231] fix: relalg relations with different columns or
 subqueries are not equal

---
 postbound/relalg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 2715dd6..0c1bb45 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -1122,12 +1122,17 @@ class Relation(RelNode):
             self._subquery_input = children[0]
 
     def _recalc_hash_val(self) -> int:
-        return hash((self._table, self._subquery_input))
+        return hash((self._table, self._provided_cols, self._subquery_input))
 
     __hash__ = RelNode.__hash__
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, type(self)) and self._table == other._table
+        return (
+            isinstance(other, type(self))
+            and self._table == other._table
+            and self._provided_cols == other._provided_cols
+            and self._subquery_input == other._subquery_input
+        )
 
     def __repr__(self) -> str:
         return self._table.identifier()
-- 
2.43.0


From bb47869508585992fcf56a44b31ae19a677135ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 136/231] fix: mutating relalg nodes handles all parameters,
 updates hashes bottom-up and finds the initiator in every tree

---
 postbound/relalg.py | 223 ++++++++++++++++++--------------------------
 1 file changed, 92 insertions(+), 131 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 0c1bb45..5b9f40d 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -391,9 +391,10 @@ class RelNode(abc.ABC):
 
     def _rehash(self) -> None:
         """Re-calculates the hash value of the current node and all its children."""
-        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
+        # our own hash value depends on the hash values of the children, so they have to be updated first
         for child in self.children():
             child._rehash()
+        self._hash_val = hash((self._node_type, self._recalc_hash_val()))
 
     def _assert_correct_update_child_count(self, children: Sequence[RelNode]) -> None:
         """Ensures that the correct number of child nodes is supplied for updating the current node.
@@ -1001,6 +1002,16 @@ class Difference(RelNode):
         return "\\"
 
 
+def _normalize_columns(
+    columns: Iterable[ColumnReference | ColumnExpression],
+) -> frozenset[ColumnExpression]:
+    """Provides the columns of a relation in the format that is used by `Relation` nodes."""
+    return frozenset(
+        col if isinstance(col, ColumnExpression) else ColumnExpression(col)
+        for col in columns
+    )
+
+
 class Relation(RelNode):
     """A relation provides the tuples ("rows") contained in a table.
 
@@ -1030,10 +1041,7 @@ class Relation(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._table = table
-        self._provided_cols = frozenset(
-            col if isinstance(col, ColumnExpression) else ColumnExpression(col)
-            for col in provided_columns
-        )
+        self._provided_cols = _normalize_columns(provided_columns)
 
         self._subquery_input = subquery_input if subquery_input is not None else None
         if self._subquery_input is not None:
@@ -1110,9 +1118,12 @@ class Relation(RelNode):
         RelNode.mutate : for safety considerations and calling conventions
         """
         params = {
-            param: val
-            for param, val in locals().items()
-            if param != "self" and not param.startswith("__")
+            "table": table,
+            "provided_cols": _normalize_columns(provided_columns)
+            if provided_columns is not None
+            else None,
+            "subquery_input": subquery_input,
+            "as_root": as_root,
         }
         return super().mutate(**params)
 
@@ -1354,6 +1365,7 @@ class Projection(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        targets = tuple(targets) if targets is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1495,6 +1507,8 @@ class Grouping(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        group_columns = tuple(group_columns) if group_columns is not None else None
+        aggregates = util.frozendict(aggregates) if aggregates is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1628,6 +1642,7 @@ class Rename(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        mapping = util.frozendict(mapping) if mapping is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1656,6 +1671,16 @@ SortDirection = typing.Literal["asc", "desc"]
 """Describes whether tuples should be sorted in ascending or descending order."""
 
 
+def _normalize_sorting(
+    sorting: Sequence[tuple[SqlExpression, SortDirection] | SqlExpression],
+) -> tuple[tuple[SqlExpression, SortDirection], ...]:
+    """Provides the sort columns in the format that is used by `Sort` nodes."""
+    return tuple(
+        sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
+        for sort_item in sorting
+    )
+
+
 class Sort(RelNode):
     """Sort modifies the order in which tuples are provided.
 
@@ -1688,12 +1713,7 @@ class Sort(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._input_node = input_node
-        self._sorting = tuple(
-            [
-                sort_item if isinstance(sort_item, tuple) else (sort_item, "asc")
-                for sort_item in sorting
-            ]
-        )
+        self._sorting = _normalize_sorting(sorting)
         super().__init__(parent_node)
 
     @property
@@ -1756,6 +1776,7 @@ class Sort(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        sorting = _normalize_sorting(sorting) if sorting is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -1783,6 +1804,22 @@ class Sort(RelNode):
         return f"τ ({sorting_str})"
 
 
+def _normalize_mapping(
+    mapping: dict[
+        frozenset[SqlExpression | ColumnReference], frozenset[SqlExpression]
+    ],
+) -> util.frozendict[frozenset[SqlExpression], frozenset[SqlExpression]]:
+    """Provides the expression mapping in the format that is used by `Map` nodes."""
+    return util.frozendict(
+        {
+            ColumnExpression(expression)
+            if isinstance(expression, ColumnReference)
+            else expression: target
+            for expression, target in mapping.items()
+        }
+    )
+
+
 class Map(RelNode):
     """Mapping computes new expressions from the currently existing ones.
 
@@ -1811,14 +1848,7 @@ class Map(RelNode):
         parent_node: Optional[RelNode] = None,
     ) -> None:
         self._input_node = input_node
-        self._mapping = util.frozendict(
-            {
-                ColumnExpression(expression)
-                if isinstance(expression, ColumnReference)
-                else expression: target
-                for expression, target in mapping.items()
-            }
-        )
+        self._mapping = _normalize_mapping(mapping)
         super().__init__(parent_node)
 
     @property
@@ -1888,6 +1918,7 @@ class Map(RelNode):
         --------
         RelNode.mutate : for safety considerations and calling conventions
         """
+        mapping = _normalize_mapping(mapping) if mapping is not None else None
         params = {
             param: val
             for param, val in locals().items()
@@ -2526,28 +2557,6 @@ class RelNodeVisitor(abc.ABC, typing.Generic[VisitorResult]):
         raise NotImplementedError
 
 
-def _collect_leaf_nodes(root: RelNode) -> set[Relation]:
-    """Provides all leaf nodes of a relational algebra tree.
-
-    For relation nodes with subquery input, only the leaf nodes of the subquery are returned.
-
-    Parameters
-    ----------
-    root : RelNode
-        The root node of the tree
-
-    Returns
-    -------
-    set[Relation]
-        The leaf nodes
-    """
-    if isinstance(root, Relation) and not root.subquery_input:
-        nodes = {root}
-    else:
-        nodes = util.set_union(_collect_leaf_nodes(child) for child in root.children())
-    return nodes
-
-
 @dataclasses.dataclass
 class _RelTreeUpdateSet:
     """Holds the root node of the updated tree and the node that asked for the tree update in the first place."""
@@ -2571,7 +2580,7 @@ class _RelNodeUpdateManager:
         self._root = root
         self._initiator = initiator
         self._updated_nodes: dict[RelNode, RelNode] = {}
-        self._node_working_set: list[RelNode] = list(_collect_leaf_nodes(root))
+        self._updated_initiator: Optional[RelNode] = None
 
     def make_relalg_copy(self, **kwargs) -> _RelTreeUpdateSet:
         """Creates a copy of the relational algebra tree and applies modifications to it.
@@ -2587,40 +2596,11 @@ class _RelNodeUpdateManager:
             The updated relalg tree.
         """
         as_root: bool = kwargs.get("as_root", False)
-        updated_root: RelNode = None
-        updated_initiator: RelNode = None
-
-        while self._node_working_set:
-            current_node = self._node_working_set.pop(0)
-            self._update_node_working_set(current_node)
-
-            already_updated = current_node in self._updated_nodes
-            pending_child_update = any(
-                child not in self._updated_nodes for child in current_node.children()
-            )
-            if already_updated or pending_child_update:
-                continue
-
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
-
-            if current_node == self._initiator:
-                self._perform_node_update(updated_node, **kwargs)
-                updated_initiator = updated_node
-                if as_root:
-                    updated_root = updated_node
-                    break
-
-            self._updated_nodes[current_node] = updated_node
-
-            if not as_root and current_node == self._root:
-                updated_root = updated_node
-
+        updated_root = self._copy_node(
+            self._initiator if as_root else self._root, updates=kwargs
+        )
+        updated_initiator = self._updated_initiator
         assert updated_initiator is not None
-        assert updated_root is not None
 
         updated_root._rebuild_linkage()
         updated_root._rehash()
@@ -2629,6 +2609,39 @@ class _RelNodeUpdateManager:
 
         return _RelTreeUpdateSet(updated_root, updated_initiator)
 
+    def _copy_node(self, node: RelNode, *, updates: Optional[dict] = None) -> RelNode:
+        """Provides the copied version of a specific node (including all of its children).
+
+        Parameters
+        ----------
+        node : RelNode
+            The node to copy. Must be the *original* version of the node. Each node is copied just once.
+        updates : Optional[dict], optional
+            The modifications that should be applied to the initiator. If there are no modifications, the initiator is treated
+            just like any other node.
+
+        Returns
+        -------
+        RelNode
+            The copied node
+        """
+        if node in self._updated_nodes:
+            return self._updated_nodes[node]
+
+        updated_children = [
+            self._copy_node(child, updates=updates) for child in node.children()
+        ]
+        updated_node = node.clone()
+        updated_node._update_child_nodes(updated_children)
+        updated_node._clear_parent_links()
+
+        if updates is not None and node == self._initiator:
+            self._perform_node_update(updated_node, **updates)
+            self._updated_initiator = updated_node
+
+        self._updated_nodes[node] = updated_node
+        return updated_node
+
     def _perform_node_update(self, node: RelNode, **kwargs) -> None:
         """Updates the initiator of a tree mutation with node-specific arguments.
 
@@ -2666,59 +2679,7 @@ class _RelNodeUpdateManager:
         RelNode
             The updated child node
         """
-        internal_node_working_set: list[RelNode] = list(_collect_leaf_nodes(child_node))
-        updated_child: RelNode = None
-
-        while internal_node_working_set:
-            current_node = internal_node_working_set.pop(0)
-            already_updated = current_node in self._updated_nodes
-            if already_updated and current_node == child_node:
-                updated_child = self._updated_nodes[current_node]
-                break
-            if already_updated:
-                self._update_node_working_set(
-                    current_node, working_set=internal_node_working_set
-                )
-                continue
-            if any(
-                child not in self._updated_nodes for child in current_node.children()
-            ):
-                continue
-
-            updated_node = current_node.clone()
-            updated_node._update_child_nodes(
-                [self._updated_nodes[child] for child in current_node.children()]
-            )
-            updated_node._clear_parent_links()
-
-            self._updated_nodes[current_node] = updated_node
-            if current_node == child_node:
-                updated_child = updated_node
-                break
-
-            self._update_node_working_set(
-                current_node, working_set=internal_node_working_set
-            )
-
-        assert updated_child is not None
-        return updated_child
-
-    def _update_node_working_set(
-        self, node: RelNode, *, working_set: Optional[list[RelNode]] = None
-    ) -> None:
-        """Utility method to quickly include all relevant parent nodes into a node working set.
-
-        Parameters
-        ----------
-        node : RelNode
-            The node whose upwards links should be added to the working set
-        working_set : Optional[list[RelNode]], optional
-            The working set to update. If *None*, the internal working set of the update manager is used.
-        """
-        working_set = self._node_working_set if working_set is None else working_set
-        if node.parent_node:
-            working_set.append(node.parent_node)
-        working_set.extend(node.sideways_pass)
+        return self._copy_node(child_node)
 
 
 def _is_aggregation(expression: SqlExpression) -> bool:
-- 
2.43.0


From 462bed18f9dce10c830dbbec1ef519d9a8eaeb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 137/231] fix: relalg phase detection supports CASE conditions
 and functions without arguments

---
 postbound/relalg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 5b9f40d..a0fcb7c 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3136,6 +3136,7 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
             | CaseExpression()
             | QuantifierExpression()
             | ArrayExpression()
+            | AbstractPredicate()
         ):
             own_phase = (
                 EvaluationPhase.Join
@@ -3143,8 +3144,11 @@ def _determine_expression_phase(expression: SqlExpression) -> EvaluationPhase:
                 else EvaluationPhase.BaseTable
             )
             child_phase = max(
-                _determine_expression_phase(child_expr)
-                for child_expr in expression.iterchildren()
+                (
+                    _determine_expression_phase(child_expr)
+                    for child_expr in expression.iterchildren()
+                ),
+                default=own_phase,
             )
             return max(own_phase, child_phase)
         case SubqueryExpression():
-- 
2.43.0


From edd35f636ac013c09abf70b675f08e8bfa63bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 138/231] fix: predicates that mix tables on one side are
 evaluated after the join in relalg

---
 postbound/relalg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index a0fcb7c..087c34d 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3199,11 +3199,14 @@ def _determine_predicate_phase(predicate: AbstractPredicate) -> EvaluationPhase:
     if expression_phase > EvaluationPhase.Join:
         return expression_phase
 
-    return (
-        EvaluationPhase.Join
-        if isinstance(predicate, BinaryPredicate)
-        else EvaluationPhase.PostJoin
+    # We can only join two inputs if each side of the predicate can be computed on one of them. Predicates like
+    # R.a + S.b < 42 have to be evaluated after the join
+    joins_inputs = (
+        isinstance(predicate, BinaryPredicate)
+        and len(predicate.first_argument.tables()) == 1
+        and len(predicate.second_argument.tables()) == 1
     )
+    return EvaluationPhase.Join if joins_inputs else EvaluationPhase.PostJoin
 
 
 def _filter_eval_phase(
-- 
2.43.0


From da5bbea4c4451dbcbf21e15ae5e9db3dd09ae29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 139/231] fix: relalg supports CTEs that are unused, aliased or
 used in set queries and derived tables next to other tables

---
 postbound/relalg.py | 57 ++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 087c34d..900102a 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3268,6 +3268,8 @@ class _ImplicitRelalgParser:
     provided_base_tables : Optional[dict[TableReference, RelNode]], optional
         When parsing subqueries, these are the tables that are provided by the outer query and their corresponding relational
         algebra fragments.
+    provided_ctes : Optional[dict[str, SubqueryScan]], optional
+        When parsing subqueries, these are the CTEs of the outer queries, identified by their name.
 
     Notes
     -----
@@ -3310,9 +3312,13 @@ class _ImplicitRelalgParser:
         query: ImplicitSqlQuery,
         *,
         provided_base_tables: Optional[dict[TableReference, RelNode]] = None,
+        provided_ctes: Optional[dict[str, SubqueryScan]] = None,
     ) -> None:
         self._query = query
         self._base_table_fragments: dict[TableReference, RelNode] = {}
+        self._cte_fragments: dict[str, SubqueryScan] = (
+            dict(provided_ctes) if provided_ctes else {}
+        )
         self._required_columns: dict[TableReference, set[ColumnReference]] = (
             collections.defaultdict(set)
         )
@@ -3341,8 +3347,9 @@ class _ImplicitRelalgParser:
 
         if self._query.cte_clause:
             for cte in self._query.cte_clause.queries:
-                cte_root = self._add_subquery(cte.query)
-                self._add_table(cte.target_table, input_node=cte_root)
+                self._cte_fragments[cte.target_table.identifier()] = (
+                    self._add_subquery(cte.query)
+                )
 
         # we add the WHERE clause before all explicit JOIN statements to make sure filters are already present and we can
         # stitch together the correct fragments in OUTER JOINs
@@ -3408,17 +3415,23 @@ class _ImplicitRelalgParser:
         ValueError
             _description_
         """
-        parser = _ImplicitRelalgParser(None)
-
         if query.cte_clause:
             for cte in query.cte_clause.queries:
-                parser._update_query(cte.query)
-                parser.generate_relnode()  # we don't care about the result, we just want to add the CTE to the base tables
+                self._cte_fragments[cte.target_table.identifier()] = (
+                    self._add_subquery(cte.query)
+                )
 
-        parser._update_query(query.left_query)
-        left_relalg = parser.generate_relnode()
-        parser._update_query(query.right_query)
-        right_relalg = parser.generate_relnode()
+        # both input queries operate on their own base tables, but they can access our CTEs as well as all outer tables
+        left_relalg = _ImplicitRelalgParser(
+            query.left_query,
+            provided_base_tables=self._provided_base_tables,
+            provided_ctes=self._cte_fragments,
+        ).generate_relnode()
+        right_relalg = _ImplicitRelalgParser(
+            query.right_query,
+            provided_base_tables=self._provided_base_tables,
+            provided_ctes=self._cte_fragments,
+        ).generate_relnode()
 
         match query.set_operation:
             case SetOperator.Union:
@@ -3479,9 +3492,13 @@ class _ImplicitRelalgParser:
         match table_source:
             case DirectTableSource():
                 if table_source.table.virtual:
-                    # Virtual tables in direct table sources are only created through references to CTEs. However, these CTEs
-                    # have already been included in the base table fragments.
-                    return self._base_table_fragments[table_source.table]
+                    # Virtual tables in direct table sources are only created through references to CTEs. The same CTE can be
+                    # referenced multiple times with different aliases.
+                    table = table_source.table
+                    cte_name = table.full_name if table.full_name else table.alias
+                    return self._add_table(
+                        table, input_node=self._cte_fragments[cte_name]
+                    )
                 return self._add_table(table_source.table)
             case SubqueryTableSource():
                 subquery_root = self._add_subquery(table_source.query)
@@ -3685,7 +3702,7 @@ class _ImplicitRelalgParser:
             case EvaluationPhase.Join:
                 for join_predicate in self._split_join_predicate(predicate):
                     join_node = self._convert_join_predicate(join_predicate)
-                    for outer_table in join_node.tables():
+                    for outer_table in join_node.tables(ignore_subqueries=True):
                         self._base_table_fragments[outer_table] = join_node
                 return join_node
             case EvaluationPhase.PostJoin | EvaluationPhase.PostAggregation:
@@ -4097,15 +4114,13 @@ class _ImplicitRelalgParser:
     def _add_subquery(self, subquery: SqlQuery) -> SubqueryScan:
         """Generates the appropriate algebra fragment to include a subquery in the current algebra tree."""
         subquery_parser = _ImplicitRelalgParser(
-            subquery, provided_base_tables=self._base_table_fragments
+            subquery,
+            provided_base_tables=self._base_table_fragments,
+            provided_ctes=self._cte_fragments,
         )
         subquery_root = subquery_parser.generate_relnode()
-        self._required_columns = util.dicts.merge(
-            subquery_parser._required_columns, self._required_columns
-        )
-        # We do not include the subquery base tables in our _base_table_fragments since the subquery base tables are already
-        # processed completely and this would contradict the interpretation of the _base_table_fragments in
-        # _generate_initial_join_order()
+        for table, columns in subquery_parser._required_columns.items():
+            self._required_columns[table] |= columns
         return SubqueryScan(subquery_root, subquery)
 
     def _split_filter_predicate(
-- 
2.43.0


From 56a6fa8145eabca2d949a5d0d9158f158206892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 140/231] fix: relalg sorts in ascending order by default

---
 postbound/relalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 900102a..8136bf3 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3650,7 +3650,8 @@ class _ImplicitRelalgParser:
             final_fragment = self._add_expression(
                 order.column, input_node=final_fragment
             )
-            sorting.append((order.column, "asc" if order.ascending else "desc"))
+            # the sort direction is optional in SQL and defaults to ascending
+            sorting.append((order.column, "desc" if order.ascending is False else "asc"))
 
         final_fragment = Sort(final_fragment, sorting)
         return final_fragment
-- 
2.43.0


From e4c57de7a304dbef3904051dc63fbe9e45ddedc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 141/231] fix: relalg keeps the entire HAVING clause

---
 postbound/relalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index 8136bf3..e7ade24 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -3686,7 +3686,9 @@ class _ImplicitRelalgParser:
         --------
         _filter_eval_phase
         """
-        predicate = _filter_eval_phase(predicate, eval_phase)
+        if eval_phase != EvaluationPhase.PostAggregation:
+            # The HAVING clause is always evaluated as a whole
+            predicate = _filter_eval_phase(predicate, eval_phase)
         if predicate is None:
             return input_node
 
-- 
2.43.0


From af1c9bc0f197d241ac562124102ff24ea6b580f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 142/231] fix: relalg eliminates duplicates for SELECT DISTINCT
 and does not recompute parts of grouped expressions

---
 postbound/relalg.py | 51 +++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/postbound/relalg.py b/postbound/relalg.py
index e7ade24..c5dbd4f 100644
--- a/postbound/relalg.py
+++ b/postbound/relalg.py
@@ -39,7 +39,7 @@ import enum
 import functools
 import operator
 import typing
-from collections.abc import Generator, Iterable, Sequence
+from collections.abc import Collection, Generator, Iterable, Sequence
 from typing import Optional
 
 from . import transform, util
@@ -3091,7 +3091,10 @@ class _BaseTableLookup(
 
 
 def _collect_all_expressions(
-    expression: SqlExpression, *, traverse_aggregations: bool = False
+    expression: SqlExpression,
+    *,
+    traverse_aggregations: bool = False,
+    provided: Collection[SqlExpression] = frozenset(),
 ) -> frozenset[SqlExpression]:
     """Provides all expressions in a specific expression tree, including the root expression.
 
@@ -3101,12 +3104,16 @@ def _collect_all_expressions(
         The root expression
     traverse_aggregations : bool, optional
         Whether expressions nested in aggregation functions should be included. Disabled by default.
+    provided : Collection[SqlExpression], optional
+        Expressions that are already available. There is no need to compute them or any of their nested expressions.
 
     Returns
     -------
     frozenset[SqlExpression]
         The expression as well as all child expressions, including deeply nested children.
     """
+    if expression in provided:
+        return frozenset()
     if (
         not traverse_aggregations
         and isinstance(expression, FunctionExpression)
@@ -3114,7 +3121,8 @@ def _collect_all_expressions(
     ):
         return frozenset({expression})
     child_expressions = util.set_union(
-        _collect_all_expressions(child_expr) for child_expr in expression.iterchildren()
+        _collect_all_expressions(child_expr, provided=provided)
+        for child_expr in expression.iterchildren()
     )
     all_expressions = frozenset({expression} | child_expressions)
     return frozenset(
@@ -3622,23 +3630,32 @@ class _ImplicitRelalgParser:
         RelNode
             The algebra tree, potentially expanded by some final nodes.
         """
-        # TODO: Sorting, Duplicate elimination, limit
+        # TODO: limit
         if self._query.select_clause.is_star():
-            return input_node
-        required_expressions = util.set_union(
-            _collect_all_expressions(target.expression)
+            return (
+                DuplicateElimination(input_node)
+                if self._query.select_clause.is_distinct()
+                else input_node
+            )
+        provided_expressions = input_node.provided_expressions()
+        missing_expressions = util.set_union(
+            _collect_all_expressions(target.expression, provided=provided_expressions)
             for target in self._query.select_clause.targets
         )
-        missing_expressions = required_expressions - input_node.provided_expressions()
         final_node = (
             Map(input_node, _generate_expression_mapping_dict(missing_expressions))
             if missing_expressions
             else input_node
         )
-        return Projection(
+        projection = Projection(
             final_node,
             [target.expression for target in self._query.select_clause.targets],
         )
+        return (
+            DuplicateElimination(projection)
+            if self._query.select_clause.is_distinct()
+            else projection
+        )
 
     def _add_ordering(
         self, ordering: Sequence[OrderByExpression], *, input_node: RelNode
@@ -3943,10 +3960,10 @@ class _ImplicitRelalgParser:
         if len(table_fragments) == 1:
             input_node = util.simplify(table_fragments)
             provided_expressions = self._collect_provided_expressions(input_node)
-            required_expressions = util.set_union(
-                _collect_all_expressions(e) for e in predicate.iterexpressions()
+            missing_expressions = util.set_union(
+                _collect_all_expressions(e, provided=provided_expressions)
+                for e in predicate.iterexpressions()
             )
-            missing_expressions = required_expressions - provided_expressions
             if missing_expressions:
                 final_fragment = Map(
                     input_node, _generate_expression_mapping_dict(missing_expressions)
@@ -4200,11 +4217,10 @@ class _ImplicitRelalgParser:
             An algebra fragment
         """
         provided_expressions = self._collect_provided_expressions(input_node)
-        required_expressions = util.set_union(
-            _collect_all_expressions(expression)
+        missing_expressions = util.set_union(
+            _collect_all_expressions(expression, provided=provided_expressions)
             for expression in predicate.iterexpressions()
         )
-        missing_expressions = required_expressions - provided_expressions
         if missing_expressions:
             return Map(
                 input_node, _generate_expression_mapping_dict(missing_expressions)
@@ -4231,11 +4247,10 @@ class _ImplicitRelalgParser:
             An algebra fragment
         """
         provided_expressions = self._collect_provided_expressions(input_node)
-        required_expressions = util.set_union(
-            _collect_all_expressions(child_expr)
+        missing_expressions = util.set_union(
+            _collect_all_expressions(child_expr, provided=provided_expressions)
             for child_expr in expression.iterchildren()
         )
-        missing_expressions = required_expressions - provided_expressions
         if missing_expressions:
             return Map(
                 input_node, _generate_expression_mapping_dict(missing_expressions)
-- 
2.43.0


From 1f9439acf903c11d2eaf124650d169730ad2b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 143/231] fix: precise cardinalities count the join result of
 an intermediate and only cache it if enabled

---
 postbound/opt/_cardinalities.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..3d51222 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -13,10 +13,20 @@ from .._stages import (
     CardinalityEstimator,
 )
 from ..db import Database, DatabasePool
-from ..qal import SqlQuery
+from ..qal import Explain, GroupBy, Having, Limit, OrderBy, SqlQuery
 from ..workloads import Workload
 
 
+def _intermediate_query(
+    query: SqlQuery, tables: TableReference | Iterable[TableReference]
+) -> Optional[SqlQuery]:
+    """Extracts the part of a query that computes an intermediate, without any post-processing of its result tuples."""
+    fragment = transform.extract_query_fragment(query, tables)
+    if fragment is None:
+        return None
+    return transform.drop_clause(fragment, [GroupBy, Having, OrderBy, Limit, Explain])
+
+
 class PreciseCardinalities(CardinalityEstimator):
     """Cardinality "estimator" that calculates exact cardinalities.
 
@@ -64,12 +74,14 @@ class PreciseCardinalities(CardinalityEstimator):
         self, query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
-        subquery = transform.extract_query_fragment(query, intermediate)
-        subquery = transform.as_count_star_query(subquery)
-        if subquery in self._cardinality_cache:
+        subquery = transform.as_count_star_query(
+            _intermediate_query(query, intermediate)
+        )
+        if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
         cardinality = Cardinality(self.database.execute_query(subquery))
-        self._cardinality_cache[subquery] = cardinality
+        if self.cache_enabled:
+            self._cardinality_cache[subquery] = cardinality
         return cardinality
 
     def reset_cache(self) -> None:
-- 
2.43.0


From d7b6a3177235456add0b3e6910566d7816c8e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 144/231] fix: stored fallback cardinalities can be found and
 loaded again

---
 postbound/opt/_cardinalities.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 3d51222..91a69c9 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -88,7 +88,7 @@ class PreciseCardinalities(CardinalityEstimator):
         self._cardinality_cache.clear()
 
 
-def _parse_tables(tabs: str) -> set[TableReference]:
+def _parse_tables(tabs: str) -> frozenset[TableReference]:
     """Utility to load tables from their JSON representation.
 
     Parameters
@@ -98,10 +98,10 @@ def _parse_tables(tabs: str) -> set[TableReference]:
 
     Returns
     -------
-    set[TableReference]
+    frozenset[TableReference]
         The corresponding tables
     """
-    return {parser.load_table_json(t) for t in json.loads(tabs)}
+    return frozenset(parser.load_table_json(t) for t in json.loads(tabs))
 
 
 class PreComputedCardinalities(CardinalityEstimator):
@@ -296,8 +296,8 @@ class PreComputedCardinalities(CardinalityEstimator):
             The computed cardinality
         """
         result_row = {}
-        result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._label_col] = [str(self._workload.label_of(query))]
+        result_row[self._tables_col] = [tables]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -306,13 +306,15 @@ class PreComputedCardinalities(CardinalityEstimator):
                 str(transform.extract_query_fragment(query, tables))
             ]
 
-        result_row[self._card_col] = [cardinality]
+        result_row[self._card_col] = [cardinality.get()]
         result_df = pd.DataFrame(result_row)
 
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+        export_df = self._true_card_df.copy()
+        export_df[self._tables_col] = export_df[self._tables_col].map(util.to_json)
+        export_df.to_csv(self._lookup_df_path, index=False)
 
 
 class CardinalityDistortion(CardinalityEstimator):
-- 
2.43.0


From f4195ca372f778c9cc5fbaaf4e814402e1cb61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 145/231] fix: pre-computed cardinalities find labels that look
 like numbers or NA

---
 postbound/opt/_cardinalities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 91a69c9..fe5c73b 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -187,8 +187,9 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._live_fallback_style = live_fallback_style
         self._save_life_fallback = save_live_fallback_results
 
+        # labels have to be loaded as they are, e.g. "01" should not become 1
         self._true_card_df = pd.read_csv(
-            lookup_table_path, converters={tables_col: _parse_tables}
+            lookup_table_path, converters={tables_col: _parse_tables, label_col: str}
         )
 
     def calculate_estimate(
@@ -197,7 +198,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         tables = frozenset(util.enlist(tables))
         label = self._workload.label_of(query)
         relevant_samples = self._true_card_df[
-            self._true_card_df[self._label_col] == label
+            self._true_card_df[self._label_col] == str(label)
         ]
         cardinality_sample = relevant_samples[
             relevant_samples[self._tables_col] == tables
-- 
2.43.0


From ad5e4c3c23b1564eaa95168c9f5cfd6b4ebcb203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 146/231] fix: missing pre-computed cardinalities raise an
 error unless disabled

---
 postbound/opt/_cardinalities.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index fe5c73b..cb49742 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -219,7 +219,7 @@ class PreComputedCardinalities(CardinalityEstimator):
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-        return fallback_value
+        return Cardinality.unknown() if fallback_value is None else fallback_value
 
     def describe(self) -> dict:
         return {
@@ -230,7 +230,7 @@ class PreComputedCardinalities(CardinalityEstimator):
 
     def _attempt_fallback_estimate(
         self, n_samples: int, query: SqlQuery, tables: frozenset[TableReference]
-    ) -> Cardinality:
+    ) -> Optional[Cardinality]:
         """Tries to infer the fallback value for a specific estimate, if this is necessary.
 
         The inference strategy applies the following rules:
@@ -251,27 +251,29 @@ class PreComputedCardinalities(CardinalityEstimator):
 
         Returns
         -------
-        Cardinality
-            The fallback value if it could be inferred, otherwise *NaN*.
+        Optional[Cardinality]
+            The fallback value if it could be inferred, otherwise *None*.
         """
         if n_samples == 1:
             # If we found exactly one sample, we did not need to fall back at all
-            return Cardinality.unknown()
+            return None
 
         if self._default_card is not None:
             return self._default_card
         if self._live_db is None:
-            return Cardinality.unknown()
+            return None
 
-        query_fragment = transform.extract_query_fragment(query, tables)
+        query_fragment = _intermediate_query(query, tables)
         if not query_fragment:
-            return Cardinality.unknown()
+            return None
 
         if self._live_fallback_style == "actual":
             true_card_query = transform.as_count_star_query(query_fragment)
             cardinality = Cardinality(self._live_db.execute_query(true_card_query))
         elif self._live_fallback_style == "estimated":
-            cardinality = self._live_db.optimizer().cardinality_estimate(query_fragment)
+            cardinality = self._live_db.optimizer().cardinality_estimate(
+                transform.as_star_query(query_fragment)
+            )
         else:
             raise ValueError(f"Unknown fallback style: '{self._live_fallback_style}'")
 
-- 
2.43.0


From 8d32028e0678b4485861c85be6eac7e4733d8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 147/231] fix: native cardinality estimates of queries with
 grouping, ordering, limits or EXPLAIN

---
 postbound/opt/native.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index f404546..fa82ba2 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -46,7 +46,15 @@ from .._stages import (
 )
 from ..db import Database, DatabaseServerError, DatabaseUserError
 from ..postgres import PostgresInterface
-from ..qal import ColumnExpression, OrderBy, SqlQuery
+from ..qal import (
+    ColumnExpression,
+    Explain,
+    GroupBy,
+    Having,
+    Limit,
+    OrderBy,
+    SqlQuery,
+)
 from ..util import jsondict
 
 
@@ -422,6 +430,9 @@ class NativeCardinalityEstimator(CardinalityEstimator):
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
         subquery = transform.extract_query_fragment(query, intermediate)
+        subquery = transform.drop_clause(
+            subquery, [GroupBy, Having, OrderBy, Limit, Explain]
+        )
         subquery = transform.as_star_query(subquery)
         return self._target_db.optimizer().cardinality_estimate(subquery)
 
-- 
2.43.0


From 287dd7a67b880a53318d06996d0ba490c62bcf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 148/231] fix: native plan parameterization returns its
 parameters

---
 postbound/opt/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index fa82ba2..9a4bfa3 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -526,7 +526,7 @@ class NativePlanParameterization(ParameterGeneration):
                 query, join_order=join_order, physical_operators=operator_assignment
             )
         query_plan = self.db_instance.optimizer().query_plan(query)
-        parameters_from_plan(query_plan)
+        return parameters_from_plan(query_plan)
 
     def describe(self) -> jsondict:
         return {"name": "native", "database_system": self.db_instance.describe()}
-- 
2.43.0


From 8aa7fff216977dfb1bfe3a5d9e825c57073cdf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 149/231] fix: base tables without predicates are part of the
 intermediates

---
 postbound/_stages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index a79e681..efede99 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -712,8 +712,10 @@ class CardinalityEstimator(ParameterGeneration, abc.ABC):
                 not candidate_join
             ):  # skip empty set (which is an artefact of the powerset method)
                 continue
-            if not self.allow_cross_products and not query.predicates().joins_tables(
-                candidate_join
+            if (
+                len(candidate_join) > 1
+                and not self.allow_cross_products
+                and not query.predicates().joins_tables(candidate_join)
             ):
                 continue
             yield frozenset(candidate_join)
-- 
2.43.0


From e0e3f666ab824f3985cf0972c0480eab61160dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 150/231] fix: presets are found case-insensitively and infer
 the database

---
 postbound/opt/presets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/presets.py b/postbound/opt/presets.py
index 46146c3..2ebe789 100644
--- a/postbound/opt/presets.py
+++ b/postbound/opt/presets.py
@@ -105,7 +105,9 @@ class NativeOptimizationSettings(OptimizationSettings):
     """
 
     def __init__(self, database: Optional[Database] = None) -> None:
-        self.database = database
+        self.database = (
+            database if database else DatabasePool.get_instance().current_database()
+        )
 
     def build_join_order_optimizer(self) -> Optional[JoinOrderOptimization]:
         return native.NativeJoinOrderOptimizer(self.database)
@@ -149,7 +151,7 @@ def fetch(
     """
     if key.upper() == "UES":
         return UESOptimizationSettings(database)
-    elif key == "native":
+    elif key.upper() == "NATIVE":
         return NativeOptimizationSettings(database)
     else:
         raise ValueError(f"Unknown presets for key '{key}'")
-- 
2.43.0


From f9ff3df51d6b27d2bbe24469839ad9f011d51ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 151/231] fix: UES bounds are no longer rounded before they are
 complete

---
 postbound/opt/ues.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 226c343..2dda123 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -741,7 +741,7 @@ class UESBoundEstimator(JoinEstimator):
             self.stats_container.base_table_estimates[pk_column.table]
         )
         fk_frequency = self.stats_container.attribute_frequencies[fk_column]
-        return math.ceil(fk_frequency * pk_cardinality)
+        return Cardinality(math.ceil(fk_frequency * pk_cardinality.get()))
 
     def _estimate_n_m_join(
         self, first_column: ColumnReference, second_column: ColumnReference
@@ -772,8 +772,9 @@ class UESBoundEstimator(JoinEstimator):
         ):
             return 0
 
-        first_distinct_vals = first_bound / first_freq
-        second_distinct_vals = second_bound / second_freq
+        # cardinalities are always rounded, but the (fractional) number of distinct values must not be
+        first_distinct_vals = first_bound.get() / first_freq
+        second_distinct_vals = second_bound.get() / second_freq
 
         n_m_bound = (
             min(first_distinct_vals, second_distinct_vals) * first_freq * second_freq
-- 
2.43.0


From afa2efa985ff4efc6d28afa44d2a386392a65778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 152/231] fix: UES accepts join columns that only contain NULL

---
 postbound/opt/ues.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 2dda123..eec167e 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -362,7 +362,8 @@ class MaxFrequencyStats(StatsContainer[MaxFrequency]):
         n_tuples = 1 if n_tuples is None else n_tuples
         n_distinct = self.database_stats.num_distinct(column)
         n_distinct = 1 if n_distinct is None else n_distinct
-        return n_tuples / n_distinct
+        # all values can be NULL
+        return n_tuples / max(n_distinct, 1)
 
 
 class BaseTableEstimator(abc.ABC):
-- 
2.43.0


From 1d749df9209619f73ddb00849bab75e5d850db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 153/231] fix: UES subquery policy failed for primary key joins
 between joined tables

---
 postbound/opt/ues.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index eec167e..61b33fd 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -945,9 +945,10 @@ class UESSubqueryPolicy(BranchingPolicy):
             else:
                 continue
 
+            base_estimate = stats_container.base_table_estimates[joined_table]
             generate_subquery = (
-                stats_container.upper_bounds[joined_table]
-                < stats_container.base_table_estimates[joined_table]
+                stats_container.upper_bounds.get(joined_table, base_estimate)
+                < base_estimate
             )
             if generate_subquery:
                 return True
-- 
2.43.0


From 759d8eb217dd3af4a0800c42ff6d99826a467f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 154/231] fix: UES optimizes queries with cross products and
 single-table components

---
 postbound/opt/ues.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 61b33fd..a1e1b04 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1053,20 +1053,29 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
         join_graph = JoinGraph(query, self.database.schema())
 
-        if len(query.tables()) == 2:
+        cross_products = join_graph.contains_cross_products()
+        if len(query.tables()) == 2 and not cross_products:
             final_join_tree = self._binary_join_optimization(query, join_graph)
-        elif join_graph.contains_cross_products():
+        elif cross_products:
             # cross-product query is reduced to multiple independent optimization passes
             optimized_components: list[LogicalJoinTree] = []
             for component in join_graph.join_components():
-                # FIXME: join components might consist of single tables!
-                optimized_component = self._clone().optimize_join_order(component.query)
+                if len(component) == 1:
+                    (table,) = component
+                    optimized_component = LogicalJoinTree.scan(
+                        table,
+                        annotation=self.stats_container.base_table_estimates[table],
+                    )
+                else:
+                    optimized_component = self._clone().optimize_join_order(
+                        component.query
+                    )
                 if not optimized_component:
                     raise JoinOrderOptimizationError(component.query)
                 optimized_components.append(optimized_component)
 
             # insert cross-products such that the smaller partitions are joined first
-            sorted(optimized_components, key=operator.attrgetter("annotation"))
+            optimized_components.sort(key=operator.attrgetter("annotation"))
             final_join_tree, *remaining_joins = optimized_components
             for remaining_join in remaining_joins:
                 output_cardinality = (
@@ -1492,7 +1501,9 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             join_estimation=copy.copy(self.join_estimation),
             subquery_policy=copy.copy(self.subquery_policy),
             stats_container=copy.copy(self.stats_container),
+            pull_eager_pk_tables=self._pull_eager_pk_tables,
             database=self.database,
+            verbose=self._logging_enabled,
         )
 
     def _log_information(self, info: str) -> None:
-- 
2.43.0


From fdf541185d5a44bbf3241fcd1926d316f65a1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 155/231] fix: UES joins tables that are only reachable via
 primary keys after all n:m joins

---
 postbound/opt/ues.py | 67 +++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index a1e1b04..e769233 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -1141,7 +1141,12 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         self._log_information("Using default UES optimizer")
         join_tree = LogicalJoinTree.empty()
 
-        while join_graph.contains_free_n_m_joins():
+        while join_graph.contains_free_tables():
+            if not join_graph.contains_free_n_m_joins():
+                # the remaining tables can only be reached via primary key/foreign key joins
+                join_tree = self._apply_best_join(query, join_graph, join_tree)
+                continue
+
             # Update the current upper bounds
             lowest_bound = np.inf
             lowest_bound_table = None
@@ -1267,8 +1272,6 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 join_tree, candidate_table, selected_candidate.join_condition
             )
 
-        if join_graph.contains_free_tables():
-            raise AssertionError("Join graph still has free tables remaining!")
         return join_tree
 
     def _binary_join_optimization(
@@ -1359,23 +1362,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
         # join partner selection
         while join_graph.contains_free_tables():
-            lowest_bound = np.inf
-            lowest_bound_join = None
-            for candidate_join in join_graph.available_join_paths():
-                current_bound = self.join_estimation.estimate_for(
-                    candidate_join.join_condition, join_graph
-                )
-                if current_bound < lowest_bound:
-                    lowest_bound = current_bound
-                    lowest_bound_join = candidate_join
-
-            join_tree = self._apply_pk_fk_join(
-                query,
-                lowest_bound_join,
-                join_bound=lowest_bound,
-                join_graph=join_graph,
-                current_join_tree=join_tree,
-            )
+            join_tree = self._apply_best_join(query, join_graph, join_tree)
 
         return join_tree
 
@@ -1406,6 +1393,46 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         """
         return self.stats_container.base_table_estimates[table]
 
+    def _apply_best_join(
+        self,
+        query: SqlQuery,
+        join_graph: JoinGraph,
+        current_join_tree: LogicalJoinTree,
+    ) -> LogicalJoinTree:
+        """Selects the available join with the lowest bound and applies it.
+
+        Parameters
+        ----------
+        query : SqlQuery
+            The query to optimize
+        join_graph : JoinGraph
+            The join graph of the input query. This structure is mutated during the algorithm.
+        current_join_tree : LogicalJoinTree
+            The join order so far.
+
+        Returns
+        -------
+        LogicalJoinTree
+            An updated join tree that includes the target table of the selected join
+        """
+        lowest_bound = np.inf
+        lowest_bound_join = None
+        for candidate_join in join_graph.available_join_paths():
+            current_bound = self.join_estimation.estimate_for(
+                candidate_join.join_condition, join_graph
+            )
+            if current_bound < lowest_bound:
+                lowest_bound = current_bound
+                lowest_bound_join = candidate_join
+
+        return self._apply_pk_fk_join(
+            query,
+            lowest_bound_join,
+            join_bound=lowest_bound,
+            join_graph=join_graph,
+            current_join_tree=current_join_tree,
+        )
+
     def _apply_pk_fk_join(
         self,
         query: SqlQuery,
-- 
2.43.0


From adb4917294aaca9fd9a07d20938916b7dd13d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 156/231] fix: UES annotates its scans with base table
 estimates and builds logical join trees only

---
 postbound/opt/ues.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index e769233..3220c49 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -155,7 +155,7 @@ class StatsContainer(abc.ABC, Generic[StatsType]):
         return {
             join_tree: bound
             for join_tree, bound in self.upper_bounds.items()
-            if isinstance(join_tree, JoinTree)
+            if isinstance(join_tree, LogicalJoinTree)
         }
 
     def trigger_frequency_update(
@@ -1178,7 +1178,10 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
             if join_tree.is_empty():
                 join_tree = LogicalJoinTree.scan(
-                    lowest_bound_table, annotation=lowest_bound
+                    lowest_bound_table,
+                    annotation=self.stats_container.base_table_estimates[
+                        lowest_bound_table
+                    ],
                 )
                 join_graph.mark_joined(lowest_bound_table)
                 self.stats_container.upper_bounds[join_tree] = lowest_bound
@@ -1243,7 +1246,7 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 subquery_join=create_subquery,
             )
             if create_subquery:
-                subquery_tree = JoinTree.scan(
+                subquery_tree = LogicalJoinTree.scan(
                     candidate_table, annotation=candidate_base_cardinality
                 )
                 join_graph.mark_joined(candidate_table)
-- 
2.43.0


From 0ab0851468755259ef56059795fbfd9ef19fb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 157/231] fix: query generator creates cross products instead
 of failing for tables without foreign keys between them

---
 postbound/experiments/querygen.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 98c0593..d509b97 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -28,7 +28,7 @@ from ..util import nx as nx_utils
 
 def _generate_join_predicates(
     tables: list[TableReference], *, schema: nx.DiGraph
-) -> AbstractPredicate:
+) -> Optional[AbstractPredicate]:
     """Generates equi-join predicates for specific tables.
 
     Between each pair of tables, a join predicate is generated if there is a foreign key relationship between the two tables.
@@ -42,14 +42,10 @@ def _generate_join_predicates(
 
     Returns
     -------
-    AbstractPredicate
+    Optional[AbstractPredicate]
         A compound predicate that represents all foreign key joins between the tables. Notice that if there are partitions in
-        the schema, the predicate will not span all partitions, leading to cross products between some tables.
-
-    Raises
-    ------
-    ValueError
-        If no foreign key edges are found between the tables.
+        the schema, the predicate will not span all partitions, leading to cross products between some tables. If there are no
+        foreign keys between any of the tables, *None* is returned.
     """
     predicates: list[AbstractPredicate] = []
 
@@ -70,9 +66,7 @@ def _generate_join_predicates(
             predicates.append(join_predicate)
 
     if not predicates:
-        raise ValueError(
-            f"Found no suitable edges in the schema graph for tables {tables}."
-        )
+        return None
     return CompoundPredicate.create_and(predicates)
 
 
-- 
2.43.0


From 487ea5a5258e06e5eaea73b86989bdd31088cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 158/231] fix: query generator quotes identifiers, ignores NULL
 as filter value and keeps single candidate values

---
 postbound/experiments/querygen.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index d509b97..6f7c3bc 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -9,7 +9,7 @@ from typing import Optional
 import networkx as nx
 
 from .. import postgres, util
-from .._core import ColumnReference, TableReference
+from .._core import ColumnReference, TableReference, quote
 from ..db import Database, DatabasePool, ForeignKeyRef
 from ..qal import (
     AbstractPredicate,
@@ -113,13 +113,14 @@ def _generate_filter(
     else:
         distinct_template = """SELECT DISTINCT {col} FROM {tab}"""
 
-    candidate_values = target_db.execute_query(
-        distinct_template.format(col=column.name, tab=column.table.full_name),
+    result_set = target_db.execute_query(
+        distinct_template.format(col=quote(column.name), tab=column.table),
         cache_enabled=False,
+        raw=True,
     )
+    candidate_values = [value for (value,) in result_set if value is not None]
     if not candidate_values:
         return None
-    candidate_values = util.enlist(candidate_values)
 
     selected_value = random.choice(candidate_values)
     selected_operator = random.choice(candidate_operators)
@@ -293,13 +294,17 @@ def generate_query(
             n_filters = random.randint(min_filters, current_max_filters)
 
         if n_filters > 0 and available_columns:
-            cols_to_filter = random.sample(available_columns, n_filters)
-            individual_filters = [
-                _generate_filter(col, target_db=target_db) for col in cols_to_filter
-            ]
-            individual_filters = [
-                pred for pred in individual_filters if pred is not None
-            ]
+            # columns without any values cannot be filtered, we use other columns instead
+            individual_filters: list[AbstractPredicate] = []
+            for col in random.sample(available_columns, len(available_columns)):
+                if len(individual_filters) == n_filters:
+                    break
+                pred = _generate_filter(col, target_db=target_db)
+                if pred is not None:
+                    individual_filters.append(pred)
+            if len(individual_filters) < min_filters:
+                # too few columns with values, let's just try again
+                continue
             filter_predicates = (
                 CompoundPredicate.create_and(individual_filters)
                 if individual_filters
-- 
2.43.0


From b95159dda84d5bc5cac9cd85121208669bf12603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 159/231] fix: query generator recognizes numeric types of all
 database systems

---
 postbound/experiments/querygen.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 6f7c3bc..be95d8e 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -130,12 +130,23 @@ def _generate_filter(
 
 def _is_numeric(data_type: str) -> bool:
     """Checks, whether a data type is numeric."""
+    # some systems report upper-case type names and include type modifiers, e.g. DECIMAL(10,2)
+    data_type = data_type.lower().split("(", maxsplit=1)[0].strip()
     return data_type in {
+        "tinyint",
         "integer",
         "smallint",
         "bigint",
+        "hugeint",
+        "utinyint",
+        "usmallint",
+        "uinteger",
+        "ubigint",
+        "uhugeint",
         "date",
         "double precision",
+        "double",
+        "float",
         "real",
         "numeric",
         "decimal",
-- 
2.43.0


From 5434925f26251cb6fca9f07a302bcf7139e2496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 160/231] fix: query generator respects table and filter limits
 of 0

---
 postbound/experiments/querygen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index be95d8e..23ba745 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -240,10 +240,10 @@ def generate_query(
         ]
         schema_graph.remove_nodes_from(nodes_to_remove)
 
-    min_tables = min_tables or 1
-    if not min_tables:
+    min_tables = 1 if min_tables is None else min_tables
+    if min_tables < 1:
         raise ValueError("min_tables must be at least 1")
-    max_tables = max_tables or len(schema_graph.nodes)
+    max_tables = len(schema_graph.nodes) if max_tables is None else max_tables
     max_tables = min(max_tables, len(schema_graph.nodes))
     if max_tables < min_tables:
         raise ValueError(
@@ -254,7 +254,7 @@ def generate_query(
         cols for __, cols in schema_graph.nodes(data="columns")
     )
     min_filters = min_filters or 0
-    max_filters = max_filters or len(filter_columns)
+    max_filters = len(filter_columns) if max_filters is None else max_filters
 
     select_clause = Select.count_star() if count_star else Select.star()
 
-- 
2.43.0


From c12b1158e7745e863639974e0c3b1d524778b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 161/231] fix: query generator does not loop forever if exactly
 the minimum number of filters is possible

---
 postbound/experiments/querygen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 23ba745..57f35ca 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -298,7 +298,7 @@ def generate_query(
         )
 
         current_max_filters = min(max_filters, len(available_columns))
-        if current_max_filters <= min_filters:
+        if current_max_filters < min_filters:
             # too few columns available, let's just try again
             continue
         else:
-- 
2.43.0


From 0e6e24b249048ba8c0bf06642188ab4f2d6dd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 162/231] fix: query generator keeps single filter predicates

---
 postbound/experiments/querygen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 57f35ca..26f1d61 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -333,7 +333,7 @@ def generate_query(
                 case CompoundPredicate(op, children) if op == CompoundOperator.And:
                     where_parts.extend(children)
                 case _:
-                    where_parts.append(join_predicates)
+                    where_parts.append(predicates)
 
         where_clause = (
             Where(CompoundPredicate.create_and(where_parts)) if where_parts else None
-- 
2.43.0


From cf833790883408b2f0358aeda94405b6fc705c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 163/231] fix: CEB placeholders are quoted and escaped
 according to their data type and operator

---
 postbound/experiments/ceb.py | 40 +++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 61191d2..aebfa69 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -78,6 +78,33 @@ def _remove_weight_col(
     return tuple([elem for i, elem in enumerate(val) if i != col_idx])
 
 
+def _is_unquoted_type(dtype: str) -> bool:
+    """Checks, whether values of a specific data type are written without quotes, i.e. numbers and booleans."""
+    # some systems report upper-case type names and include type modifiers, e.g. DECIMAL(10,2)
+    dtype = dtype.lower().split("(", maxsplit=1)[0].strip()
+    return dtype in {
+        "bool",
+        "boolean",
+        "tinyint",
+        "smallint",
+        "int",
+        "integer",
+        "bigint",
+        "hugeint",
+        "utinyint",
+        "usmallint",
+        "uinteger",
+        "ubigint",
+        "uhugeint",
+        "real",
+        "float",
+        "double",
+        "double precision",
+        "numeric",
+        "decimal",
+    }
+
+
 class PredicateGenerator:
     """The predicate generator handles the selection of substittion values for a subset of all placeholders in a template.
 
@@ -655,12 +682,15 @@ class QueryTemplate:
             value_text = ", ".join(escaped_values)
             return f"({value_text})"
 
-        if dtype in {"text", "varchar", "char", "character varying"}:
-            if pred_type == "LIKE" or pred_type == "ILIKE":
-                value = f"'%{value}%'"
-            return f"'{value}'"
+        if value is None:
+            return "NULL"
+        if pred_type == "LIKE" or pred_type == "ILIKE":
+            value = f"%{value}%"
+        elif _is_unquoted_type(dtype):
+            return str(value)
 
-        return str(value)
+        escaped_value = str(value).replace("'", "''")
+        return f"'{escaped_value}'"
 
     def __hash__(self) -> int:
         return hash(self.label)
-- 
2.43.0


From 3700b28e0c7ff262365398d05542402530618d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 164/231] fix: CEB predicates accept single operands

---
 postbound/experiments/ceb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index aebfa69..33ab9fe 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -24,7 +24,7 @@ from typing import Any, Literal, NewType, Optional
 
 import numpy as np
 
-from .. import parser, postgres
+from .. import parser, postgres, util
 from .._core import ColumnReference, TableReference
 from ..db import Database
 from ..qal import SqlQuery, format_quick
@@ -180,6 +180,8 @@ class PredicateGenerator:
     ) -> None:
         self.name = name
 
+        # single operands do not need to be wrapped in a list
+        pred_type = util.enlist(pred_type)
         if "IN" in pred_type and len(provided_keys) > 1:
             raise ValueError(
                 "IN predicates must only compute a single placeholder value"
-- 
2.43.0


From 5c9d7a8cbf92ef8a79620f6f939033e70d75a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 165/231] fix: CEB values stay consistent if dependencies are
 re-drawn

---
 postbound/experiments/ceb.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 33ab9fe..aa2fe6a 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -225,6 +225,7 @@ class PredicateGenerator:
         self._db_connection = db_connection
 
         self._selected_values: list = []
+        self._dependent_values: dict[PredicateName, dict[PlaceholderName, Any]] = {}
 
     @property
     def placeholders(self) -> Iterable[PlaceholderName]:
@@ -271,6 +272,13 @@ class PredicateGenerator:
             )
         self._selected_values = selected_value
 
+    def is_consistent(self) -> bool:
+        """Checks, whether the dependencies still have the values that were used to select the current values."""
+        return all(
+            self._parent_generator.selected_values(dep) == values
+            for dep, values in self._dependent_values.items()
+        )
+
     def fetch_value(self, key: PlaceholderName) -> PlaceHolderValue:
         """Provides the selected value for a specific placeholder key.
 
@@ -362,10 +370,11 @@ class PredicateGenerator:
         """
         sql_query = self._sql_query
 
-        for dep in self.dependencies:
+        for dep in self.dependencies or []:
             dependent_values = self._parent_generator.selected_values(
                 dep, refresh=redraw_dependent_values
             )
+            self._dependent_values[dep] = dependent_values
             sql_query = self._parent_generator.substitute_placeholders(
                 sql_query, dependent_values
             )
@@ -639,8 +648,17 @@ class QueryTemplate:
             )
             dep_graph.add_task(generator, depends_on=dependencies)
 
-        for generator in dep_graph:
-            generator.choose_predicate_values()
+        # If a predicate has to re-draw the values of its dependencies, other predicates that also depend on these values become
+        # outdated. In this case we need to start over.
+        for _ in range(self.max_tries):
+            for generator in dep_graph:
+                generator.choose_predicate_values()
+            if all(generator.is_consistent() for generator in dep_graph):
+                break
+        else:
+            raise SamplingError(
+                f"Did not find consistent predicate values for template '{self.label}'"
+            )
 
         final_query = self.base_query
         for generator in self._predicate_generators.values():
-- 
2.43.0


From ea5f5553fa1d3e69e52ea582321130a2a9b917c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 166/231] fix: CEB templates support pre-calculated weights

---
 postbound/experiments/ceb.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index aa2fe6a..d9d64cd 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -402,8 +402,8 @@ class PredicateGenerator:
             # `count_col_idx` attribute.
             # In the latter case, each occurence of the same candidate value counts as a weight increase, hence we can just
             # select one of the values at uniform probability without eliminating duplicates.
-            weights: list[int] | None = (
-                [val[self._count_col_idx] for val in candidate_values]
+            weights: list[float] | None = (
+                [float(val[self._count_col_idx]) for val in candidate_values]
                 if self._count_col_idx is not None
                 else None
             )
@@ -425,9 +425,8 @@ class PredicateGenerator:
         self, candidate_values: list[tuple[PlaceHolderValue]]
     ) -> tuple[PlaceHolderValue]:
         """Selects placeholder values for *IN* predicates according to the specified sampling strategy."""
-        if len(candidate_values[0]) != 1 or (
-            self._count_col_idx and len(candidate_values[0]) != 2
-        ):
+        expected_columns = 1 if self._count_col_idx is None else 2
+        if len(candidate_values[0]) != expected_columns:
             raise ValueError(
                 "IN predicates must only compute a single placeholder value"
             )
@@ -452,9 +451,15 @@ class PredicateGenerator:
         if self._count_col_idx is not None:
             # If weights are already supplied, we just need to extract them
             val_idx = 0 if self._count_col_idx == 1 else 1
-            population, weights = zip(
-                *[(val[val_idx], val[self._count_col_idx]) for val in candidate_values]
-            )
+            # values without any weight can never be sampled
+            weighted_values = [
+                (val[val_idx], float(val[self._count_col_idx]))
+                for val in candidate_values
+                if val[self._count_col_idx] > 0
+            ]
+            if not weighted_values:
+                raise SamplingError(f"No values found for predicate '{self.name}'")
+            population, weights = zip(*weighted_values)
         else:
             # Otherwise we calculate our own weights based on the number of occurences of each value
             counter = collections.Counter([val[0] for val in candidate_values])
@@ -758,6 +763,7 @@ def _parse_template_toml(
             ],
             in_pred_min_samples=raw_predicate.get("min_samples", 1),
             in_pred_max_samples=raw_predicate.get("max_samples"),
+            count_column_idx=raw_predicate.get("weights_column"),
             dependencies=[
                 PredicateName(d) for d in raw_predicate.get("dependencies", [])
             ],
-- 
2.43.0


From 56fb1f6509fe86fb80bfff72f11e185d0c48d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 167/231] fix: CEB IN predicates sample plain values within
 their limits

---
 postbound/experiments/ceb.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index d9d64cd..c4a271a 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -436,16 +436,18 @@ class PredicateGenerator:
         if self._sampling_method == "uniform":
             # Uniform sampling is easy: we just need to determine which unique values are available and then choose a
             # correctly-sized subset from them
-            candidate_values = list(set(candidate_values))
+            population = list({val[0] for val in candidate_values})
 
             max_values = (
-                len(candidate_values)
+                len(population)
                 if self._in_pred_max_samples is None
-                else min(self._in_pred_max_samples, len(candidate_values))
+                else min(self._in_pred_max_samples, len(population))
             )
+            if max_values < min_values:
+                raise SamplingError(f"Too few values for predicate '{self.name}'")
             n_values = random.randint(min_values, max_values)
 
-            selected_val = random.sample(candidate_values, k=n_values)
+            selected_val = random.sample(population, k=n_values)
             return [tuple(selected_val)]
 
         if self._count_col_idx is not None:
@@ -470,6 +472,8 @@ class PredicateGenerator:
             if self._in_pred_max_samples is None
             else min(self._in_pred_max_samples, len(population))
         )
+        if max_values < min_values:
+            raise SamplingError(f"Too few values for predicate '{self.name}'")
         n_values = random.randint(min_values, max_values)
 
         # We use numpy's random module here because it supports sampling from a population with custom weights as well as
@@ -478,11 +482,12 @@ class PredicateGenerator:
         weights = np.array(weights)
         weights = weights / weights.sum()
 
+        # We sample the positions to make sure that numpy does not change the types of our values.
         rng = np.random.default_rng()
-        selected_val: list[PlaceHolderValue] = rng.choice(
-            population, size=n_values, p=weights, replace=False
+        selected_idx = rng.choice(
+            len(population), size=n_values, p=weights, replace=False
         )
-        return [tuple(selected_val)]
+        return [tuple(population[idx] for idx in selected_idx)]
 
     def _value_passes_constraints(
         self, key: PlaceholderName, value: list[PlaceHolderValue]
@@ -491,12 +496,13 @@ class PredicateGenerator:
         if self.predicate_for(key) != "IN":
             return True
 
+        n_values = len(value[self._key_lookup[key]])
         max_allowed_values = (
             self._in_pred_max_samples
             if self._in_pred_max_samples is not None
-            else len(value)
+            else n_values
         )
-        return self._in_pred_min_samples <= len(value) <= max_allowed_values
+        return self._in_pred_min_samples <= n_values <= max_allowed_values
 
     def _assert_values_available(self) -> None:
         """Raises an error if no values have been selected yet."""
-- 
2.43.0


From 8f32b7de7abd97c276cbb41cd4ad7cea99737f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 168/231] fix: CEB unqualified columns are looked up in all
 tables of the template

---
 postbound/experiments/ceb.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index c4a271a..ce5a3f9 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -686,13 +686,11 @@ class QueryTemplate:
     def _lookup_column(self, colname: ColumnName) -> ColumnReference:
         """Generates an actual column reference for a specific column name."""
         if "." not in colname:
-            tables_without_alias = [
-                TableReference(tab)
-                for tab, alias in self._table_aliases
-                if tab == alias
+            candidate_tables = [
+                TableReference(tab) for tab in self._table_aliases.values()
             ]
             target_table = self._db_conn.schema().lookup_column(
-                colname, tables_without_alias
+                colname, candidate_tables, expect_match=True
             )
             return ColumnReference(colname, target_table)
 
-- 
2.43.0


From 4b056c52ecaf438d4fe9f0e5012423413f360fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 169/231] fix: CEB workloads never contain too few queries per
 template

---
 postbound/experiments/ceb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index ce5a3f9..efcaa51 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -834,14 +834,14 @@ def generate_raw_workload(
     workload_queries: dict[str, str] = {}
     for template in templates:
         generated_count, num_tries = 0, 0
-        while generated_count < queries_per_template and num_tries <= max_tries:
+        while generated_count < queries_per_template:
+            if num_tries >= max_tries:
+                raise SamplingError(
+                    f"Could not generate enough unique queries for template {template.label}"
+                )
             num_tries += 1
             query = template.generate_raw_query()
             if query in generated_queries:
-                if num_tries == max_tries:
-                    raise SamplingError(
-                        "Could not generate enough unique queries for template {template.label}"
-                    )
                 continue
             else:
                 generated_queries.add(query)
-- 
2.43.0


From 2d6c3309ba5391835fad804702495ece3ebb8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 170/231] fix: dependency graph provides tasks only after all
 of their dependencies

---
 postbound/util/misc.py | 59 +++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/postbound/util/misc.py b/postbound/util/misc.py
index 188138d..e7c7550 100644
--- a/postbound/util/misc.py
+++ b/postbound/util/misc.py
@@ -157,9 +157,8 @@ class DependencyGraph(Generic[T]):
     """A simple dependency graph abstraction. Entries are added via `add_task` and iteration yields the source nodes first."""
 
     def __init__(self) -> None:
-        self._source_nodes: set[int] = set()
-        self._dependencies: dict[int, list[int]] = collections.defaultdict(list)
-        self._nodes: dict[int, T] = {}
+        # maps each task to the tasks that depend on it
+        self._dependencies: dict[T, list[T]] = {}
 
     def add_task(self, node: T, *, depends_on: Optional[Iterable[T]] = None) -> None:
         """Queues a new task/entry/whatever.
@@ -172,46 +171,30 @@ class DependencyGraph(Generic[T]):
             Optional other tasks that have to be completed before this one. If those task have not been added yet, this will
             be done automatically.
         """
-        node_id = hash(node)
-        self._nodes[node_id] = node
-
-        if not depends_on:
-            self._source_nodes.add(node_id)
-            return
-
-        if node_id in self._source_nodes:
-            self._source_nodes.remove(node_id)
-
-        for dep in depends_on:
-            dep_id = hash(dep)
-            self._dependencies[dep_id].append(node_id)
-
-            if dep_id not in self._nodes:
-                self._source_nodes.add(dep_id)
-                self._nodes[dep_id] = dep
+        self._dependencies.setdefault(node, [])
+        for dep in depends_on or []:
+            self._dependencies.setdefault(dep, []).append(node)
 
     def __iter__(self) -> Generator[T, Any, None]:
-        provided_nodes: set[int] = set()
-        for node_id in self._source_nodes:
-            yield self._nodes[node_id]
-
-            provided_nodes.add(node_id)
-            dependency_stack = list(self._dependencies[node_id])
-
-            while dependency_stack:
-                dep_id = dependency_stack.pop()
-                if dep_id in provided_nodes:
-                    continue
-
-                yield self._nodes[dep_id]
-
-                provided_nodes.add(dep_id)
-                dependency_stack.extend(self._dependencies[dep_id])
-        provided_nodes = set()
+        open_dependencies = collections.Counter(
+            node for dependents in self._dependencies.values() for node in dependents
+        )
+        available_nodes = collections.deque(
+            node for node in self._dependencies if not open_dependencies[node]
+        )
+        while available_nodes:
+            current_node = available_nodes.popleft()
+            yield current_node
+
+            # a task becomes available once all of its dependencies have been provided
+            for node in self._dependencies[current_node]:
+                open_dependencies[node] -= 1
+                if not open_dependencies[node]:
+                    available_nodes.append(node)
 
     def __repr__(self) -> str:
         return str(self)
 
     def __str__(self) -> str:
-        nodes_str = ", ".join(str(node) for node in self._nodes.values())
+        nodes_str = ", ".join(str(node) for node in self._dependencies)
         return f"DependencyGraph({nodes_str})"
-- 
2.43.0


From e30324f1c7688dbe2f5ad7cec835051b835d1127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 171/231] fix: training specifications accept every iterable of
 features

---
 postbound/train/_train.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6b57d53..7e81a3f 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -86,8 +86,9 @@ class TrainingSpec:
     def __init__(
         self, features: TrainingFeature | Iterable[TrainingFeature], *args
     ) -> None:
-        features = util.enlist(features)
-        self._features: list[TrainingFeature] = list(features)
+        self._features: list[TrainingFeature] = (
+            [features] if isinstance(features, str) else list(features)
+        )
         self._features.extend(args)
         self._feature_set = frozenset(self._features)
 
@@ -111,7 +112,7 @@ class TrainingSpec:
         This is method implements the exact same logic as `requires`. It is only provided for semantic clarity to support the
         two views on the training spec (as a provider spec and as a requirements spec).
         """
-        feature: set[TrainingFeature] = set(util.enlist(feature))
+        feature = {feature} if isinstance(feature, str) else set(feature)
         return feature.issubset(self._feature_set)
 
     def requires(self, feature: TrainingFeature | Iterable[TrainingFeature]) -> bool:
-- 
2.43.0


From 3f7d9a6b12a7a59502c42c3ac2b3a1e1c5ef3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 172/231] fix: different training datasets are not equal to
 each other

---
 postbound/train/_train.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 7e81a3f..e182e4c 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping, Sequence
-from dataclasses import dataclass
 from pathlib import Path
 from typing import Literal, Optional, Self
 
@@ -214,7 +213,6 @@ class SpecViolations:
         return f"SpecViolations(missing_features={missing})"
 
 
-@dataclass
 class TrainingData:
     """Represents a dataset of training samples, along with metadata about the features it provides.
 
-- 
2.43.0


From 38b35ff597da3e89d016213385d2027ccb653392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 173/231] fix: TrainingData.from_df does not modify the given
 data frame

---
 postbound/train/_train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index e182e4c..163d7fe 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -287,6 +287,7 @@ class TrainingData:
         feature_map: dict[TrainingFeature, str] = {feat: feat for feat in df.columns}
         query_col = feature_map.get("query")
         if query_col:
+            df = df.copy()  # don't modify the data frame of the caller
             df[query_col] = df[query_col].map(parse_query)
 
         return TrainingData(df, source=source, feature_map=feature_map)
-- 
2.43.0


From bd9832927122f34c647f875d83f93e9bdc9db326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 174/231] fix: merged training data conforms to the requested
 specification

---
 postbound/train/_train.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 163d7fe..7f7c239 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -302,11 +302,10 @@ class TrainingData:
         will contain the features required by the spec and nothing more.
         If any of the input datasets does not satisfy the spec, an error is raised.
         """
-        datasets = list(datasets)
-        merged, *rest = datasets
+        merged, *rest = [ds.conform_to(according_to) for ds in datasets]
         for ds in rest:
             merged = merged.merge_with(ds)
-        return merged.conform_to(according_to)
+        return merged
 
     def __init__(
         self,
@@ -498,7 +497,4 @@ class TrainingDataRepository:
         matching = self.retrieve_all(spec)
         if not matching:
             return None
-        elif len(matching) == 1:
-            return matching[0]
-        else:
-            return TrainingData.merge(matching, according_to=spec)
+        return TrainingData.merge(matching, according_to=spec)
-- 
2.43.0


From bb694361d95a5972a3e85253f6068bbf9bde9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 175/231] fix: TrainingData.conform_to provides the features in
 the requested order

---
 postbound/train/_train.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 7f7c239..ded1776 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -394,9 +394,7 @@ class TrainingData:
         if not self._spec.satisfies(spec):
             raise ValueError("Requested spec is not compatible with the training data")
         reduced_spec: dict[TrainingFeature, str] = {
-            feature: col
-            for feature, col in self._feature_map.items()
-            if spec.requires(feature)
+            feature: self._feature_map[feature] for feature in spec.features
         }
         return TrainingData(
             self._samples, source=self._source, feature_map=reduced_spec
-- 
2.43.0


From cfde9fc435ed5948080715ada92e51c260e1d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 176/231] fix: TrainingData.as_df names columns after their
 features

---
 postbound/train/_train.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index ded1776..a3cbf46 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -406,16 +406,17 @@ class TrainingData:
         Columns of the data frame are automatically aligned with the features of the given spec. If no spec is given, the
         columns of the data frame are the original columns, but renamed according to the feature map.
         """
-        renamings = {target: col for target, col in self._feature_map.items()}
-
         if requested_spec is None:
+            renamings = {col: target for target, col in self._feature_map.items()}
             return self._samples.rename(columns=renamings)
 
         if not self._spec.satisfies(requested_spec):
             raise ValueError("Requested spec is not compatible with the training data")
 
         columns = [self._feature_map[feature] for feature in requested_spec.features]
-        return self._samples[columns].rename(columns=renamings, errors="ignore")
+        return self._samples[columns].set_axis(
+            list(requested_spec.features), axis="columns"
+        )
 
     def merge_with(
         self,
-- 
2.43.0


From 940e926d8a70f0fa666cd3889ed2e3c37e7b9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 177/231] fix: merging training data aligns features instead of
 column names

---
 postbound/train/_train.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index a3cbf46..69ce479 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -434,9 +434,11 @@ class TrainingData:
                 f"the other dataset is missing the following features: {violations.missing_features}"
             )
 
-        other_samples = other.as_df(self._spec)
-        merged_samples = pd.concat([self._samples, other_samples])
-        return TrainingData(merged_samples, source=None, feature_map=self._feature_map)
+        merged_samples = pd.concat(
+            [self.as_df(self._spec), other.as_df(self._spec)], ignore_index=True
+        )
+        feature_map = {feature: feature for feature in self._spec.features}
+        return TrainingData(merged_samples, source=None, feature_map=feature_map)
 
     def __len__(self) -> int:
         return len(self._samples)
-- 
2.43.0


From bfc71568e2632bb3080e59448c703d3a2d912222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 178/231] fix: iterating over training data yields its samples

---
 postbound/train/_train.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 69ce479..9f3f246 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -444,12 +444,11 @@ class TrainingData:
         return len(self._samples)
 
     def __iter__(self):
-        return iter(self._samples)
+        return (self[idx] for idx in range(len(self)))
 
     def __getitem__(self, idx) -> list:
         sample = self._samples.iloc[idx]
-        remapped = sample[self._feature_map.values()]
-        return list(remapped)
+        return [sample[column] for column in self._feature_map.values()]
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From 7b04e982b1dfffe22a6b0e9822bc7cb0294397d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 179/231] fix: write_df does not modify its input and keeps
 optional strings

---
 postbound/util/_df.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/util/_df.py b/postbound/util/_df.py
index 4e303cf..21d4a4d 100644
--- a/postbound/util/_df.py
+++ b/postbound/util/_df.py
@@ -49,10 +49,11 @@ def write_df(
     path = Path(path)
     path.parent.mkdir(parents=True, exist_ok=True)
 
+    df = df.copy()  # don't modify the data frame of the caller
     for col in df.columns:
         if df[col].dtype != "object":
             continue
-        if all(t is str for t in df[col].map(type)):
+        if all(t is str for t in df[col].dropna().map(type)):
             continue
         df[col] = df[col].map(to_json)
 
-- 
2.43.0


From fd7af9578efb82b8fa5a7388583a59463b5c2572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 180/231] fix: Queue.pop removes falsy items

---
 postbound/util/collections.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/postbound/util/collections.py b/postbound/util/collections.py
index 8725046..0f2b876 100644
--- a/postbound/util/collections.py
+++ b/postbound/util/collections.py
@@ -441,10 +441,7 @@ class Queue(Iterable[T], Sized, Container[T]):
         Optional[T]
             The first element if it exists, or ``None`` if the queue is empty.
         """
-        item = self.head()
-        if item:
-            self.data.pop(0)
-        return item
+        return self.data.pop(0) if self.data else None
 
     def __len__(self) -> int:
         return len(self.data)
-- 
2.43.0


From c4b6e20266e282cc50b4f4f53767cd5090a1cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 181/231] fix: SizedQueue.extend drops the oldest items

---
 postbound/util/collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/util/collections.py b/postbound/util/collections.py
index 0f2b876..69a1c90 100644
--- a/postbound/util/collections.py
+++ b/postbound/util/collections.py
@@ -506,7 +506,8 @@ class SizedQueue(Collection[T]):
         values : Iterable[T]
             The values to add
         """
-        self.data = (self.data + list(values))[: self.capacity]
+        for value in values:
+            self.append(value)
 
     def head(self) -> Optional[T]:
         """Provides the current first item of the queue without removing it.
-- 
2.43.0


From 42bafa12d6d38efb3e9e60caf0456610b6e584b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 182/231] fix: invert_multi keeps keys with equal values

---
 postbound/util/dicts.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 973564f..693e7fd 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -178,15 +178,14 @@ def invert_multi(mapping: dict[K, list[V]]) -> dict[V, list[K]]:
     Supppose a multi-dict has the following contents: `{'a': [1, 2], 'b': [2, 3]}`.
     Calling `invert` transforms this mapping to `{1: ['a'], 2: ['a', 'b'], 3: ['b']}`.
     """
-    level1 = {tuple(vs): k for k, vs in mapping.items()}
-    level2: dict[V, list[K]] = {}
-    for vs, k in level1.items():
+    inverted: dict[V, list[K]] = {}
+    for k, vs in mapping.items():
         for v in vs:
-            if v not in level2:
-                level2[v] = [k]
+            if v not in inverted:
+                inverted[v] = [k]
             else:
-                level2[v].append(k)
-    return level2
+                inverted[v].append(k)
+    return inverted
 
 
 def aggregate(dictionaries: Iterable[dict[K, V]]) -> dict[K, Sequence[V]]:
-- 
2.43.0


From 5a8bed5bd82079c3995d05c640f767591aa1fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 183/231] fix: frozendict cannot be updated with |=

---
 postbound/util/dicts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postbound/util/dicts.py b/postbound/util/dicts.py
index 693e7fd..df8c9ab 100644
--- a/postbound/util/dicts.py
+++ b/postbound/util/dicts.py
@@ -333,5 +333,8 @@ class frozendict(collections.UserDict[K, V]):
             raise TypeError("Cannot remove frozendict entries after creation")
         return super().__delitem__(key)
 
+    def __ior__(self, other):
+        raise TypeError("Cannot update frozendict entries after creation")
+
     def __hash__(self) -> int:
         return hash_dict(self)
-- 
2.43.0


From 2dcf25c5a51dda9b6420f7147f799c9568982eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 184/231] fix: AtomicInt and BoundedInt support all comparisons

---
 postbound/util/num.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/postbound/util/num.py b/postbound/util/num.py
index 49ac513..7731b00 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -84,6 +84,16 @@ class AtomicInt(numbers.Integral):
         with self._lock:
             return AtomicInt(self._value // other)
 
+    def __ge__(self, other: Any) -> bool:
+        other = self._unwrap_atomic(other)
+        with self._lock:
+            return self._value >= other
+
+    def __gt__(self, other: Any) -> bool:
+        other = self._unwrap_atomic(other)
+        with self._lock:
+            return self._value > other
+
     def __int__(self) -> int:
         with self._lock:
             return int(self._value)
@@ -314,6 +324,14 @@ class BoundedInt(numbers.Integral):
         other_value = self._unwrap_atomic(other)
         return self._value // other_value
 
+    def __ge__(self, other: Any) -> bool:
+        other_value = self._unwrap_atomic(other)
+        return self._value >= other_value
+
+    def __gt__(self, other: Any) -> bool:
+        other_value = self._unwrap_atomic(other)
+        return self._value > other_value
+
     def __int__(self) -> int:
         return self._value
 
-- 
2.43.0


From 36ead1ba52e2fe5cbd7b6e6e2b387214361e5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 185/231] fix: unary plus of AtomicInt does not block

---
 postbound/util/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/util/num.py b/postbound/util/num.py
index 7731b00..220b661 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -139,7 +139,7 @@ class AtomicInt(numbers.Integral):
 
     def __pos__(self) -> Any:
         with self._lock:
-            return +self.value
+            return +self._value
 
     def __pow__(self, exponent: Any, modulus: Any | None = ...) -> AtomicInt:
         with self._lock:
-- 
2.43.0


From 100497eabcb9bd5e596d748a965561d611d9499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 186/231] fix: AtomicInt computes reflected bitwise and

---
 postbound/util/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/util/num.py b/postbound/util/num.py
index 220b661..4588623 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -158,7 +158,7 @@ class AtomicInt(numbers.Integral):
     def __rand__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
         with self._lock:
-            return other + self._value
+            return other & self._value
 
     def __rfloordiv__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
-- 
2.43.0


From e02a5cba45c72a72f6d4bd3cc7d23ae6b5203c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 187/231] fix: difference of BoundedInts is not distorted by
 the bounds

---
 postbound/util/num.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/postbound/util/num.py b/postbound/util/num.py
index 4588623..bce749a 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -435,6 +435,18 @@ class BoundedInt(numbers.Integral):
         other_value = self._unwrap_atomic(other)
         return other_value ^ self._value
 
+    def __rsub__(self, other: Any) -> Any:
+        other_value = self._unwrap_atomic(other)
+        return other_value - self._value
+
+    def __sub__(self, other: int | BoundedInt) -> BoundedInt:
+        other_value = self._unwrap_atomic(other)
+        return BoundedInt(
+            self._value - other_value,
+            allowed_min=self._allowed_min,
+            allowed_max=self._allowed_max,
+        )
+
     def __truediv__(self, other: Any) -> Any:
         other_value = self._unwrap_atomic(other)
         return self._value / other_value
-- 
2.43.0


From 61c69157baaf519e72dab43cba9b367767d3b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 188/231] fix: exact Catalan numbers

---
 postbound/util/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/util/stats.py b/postbound/util/stats.py
index 96671ec..07dc73b 100644
--- a/postbound/util/stats.py
+++ b/postbound/util/stats.py
@@ -12,7 +12,7 @@ import numpy as np
 
 def catalan_number(n: int) -> int:
     """Computes the n-th catalan number. See https://en.wikipedia.org/wiki/Catalan_number."""
-    return round(math.comb(2 * n, n) / (n + 1))
+    return math.comb(2 * n, n) // (n + 1)
 
 
 def jaccard(a: set | frozenset, b: set | frozenset) -> float:
-- 
2.43.0


From dd3692978e9b34b4de3c89f85e8997a4b6286b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:48 +0000
Subject: [PATCH 189/231] fix: compare_query_plans compared the outer child
 with the inner child of the other plan

---
 postbound/opt/_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index ace8cbd..3e46dc9 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -667,7 +667,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
                 compare_query_plans(left.inner_child, right.inner_child).changes
             )
             changes.extend(
-                compare_query_plans(left.outer_child, right.inner_child).changes
+                compare_query_plans(left.outer_child, right.outer_child).changes
             )
 
     return PlanChangeset(changes)
-- 
2.43.0


From e7780b99e95251ddb50b935b69a28f8dc1f350f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 190/231] fix: compare_query_plans ignored cost differences if
 just the left cost was unknown

---
 postbound/opt/_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 3e46dc9..46dfad8 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -625,7 +625,7 @@ def compare_query_plans(left: QueryPlan, right: QueryPlan) -> PlanChangeset:
             )
         )
     if left_cost != right_cost and not (
-        math.isnan(left_cost) and math.isnan(left_cost)
+        math.isnan(left_cost) and math.isnan(right_cost)
     ):
         changes.append(
             PlanChangeEntry(
-- 
2.43.0


From 03a19b26b81cc0dc1f1de18a96bad1f903569b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:54 +0000
Subject: [PATCH 191/231] fix: inspecting a swapped join direction failed, its
 states are the join nodes

---
 postbound/opt/_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 46dfad8..f653ca2 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -510,8 +510,8 @@ class PlanChangeEntry:
                 right_str = [tab.identifier() for tab in self.right_state]
                 return f"Different subtrees: left={left_str} right={right_str}"
             case "join-direction":
-                left_str = [tab.identifier() for tab in self.left_state]
-                right_str = [tab.identifier() for tab in self.right_state]
+                left_str = [tab.identifier() for tab in self.left_state.tables()]
+                right_str = [tab.identifier() for tab in self.right_state.tables()]
                 return f"Swapped join direction: left={left_str} right={right_str}"
             case "physical-op":
                 return f"Different physical operators on node {self.context}: left={self.left_state} right={self.right_state}"
-- 
2.43.0


From 056017dbd1a0107bb186c2ed2e4c377b8d66e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 192/231] fix: join_depth failed for all join trees with joins

---
 postbound/opt/_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index f653ca2..f9cbb32 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -403,7 +403,7 @@ def _traverse_join_tree_depth(
     if current_node.is_scan():
         return _DepthState(1, current_depth.depths | {current_node.base_table: 1})
 
-    if current_node.is_join():
+    if not current_node.is_join():
         raise TypeError("Unknown current node type: " + str(current_node))
 
     inner_child, outer_child = current_node.inner_child, current_node.outer_child
@@ -423,7 +423,7 @@ def _traverse_join_tree_depth(
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
         updated_depth = inner_depth.current_level + 1
         return _DepthState(
-            updated_depth, inner_depth.depths | {outer_child.table: updated_depth}
+            updated_depth, inner_depth.depths | {outer_child.base_table: updated_depth}
         )
     else:
         inner_depth = _traverse_join_tree_depth(inner_child, current_depth)
-- 
2.43.0


From 764221373d58e346dc7ab5a5243ce0139d45bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 193/231] fix: jointree_similarity_bottomup failed for all join
 trees with joins

---
 postbound/opt/_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index f9cbb32..913ae0b 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -337,8 +337,8 @@ def jointree_similarity_bottomup(a: JoinTree, b: JoinTree) -> float:
     -----
     TODO: add discussion of the algorithm
     """
-    a_subtrees = {join.tables() for join in a.iterjoins()}
-    b_subtrees = {join.tables() for join in b.iterjoins()}
+    a_subtrees = {frozenset(join.tables()) for join in a.iterjoins()}
+    b_subtrees = {frozenset(join.tables()) for join in b.iterjoins()}
     return util.jaccard(a_subtrees, b_subtrees)
 
 
-- 
2.43.0


From 5fa4a4312698251dc4f9d10a8363c54075fc227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 194/231] fix: jointree_similarity_bottomup failed for two base
 tables

---
 postbound/opt/_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 913ae0b..17e466d 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -339,6 +339,8 @@ def jointree_similarity_bottomup(a: JoinTree, b: JoinTree) -> float:
     """
     a_subtrees = {frozenset(join.tables()) for join in a.iterjoins()}
     b_subtrees = {frozenset(join.tables()) for join in b.iterjoins()}
+    if not a_subtrees and not b_subtrees:
+        return 1.0 if a.tables() == b.tables() else 0.0
     return util.jaccard(a_subtrees, b_subtrees)
 
 
-- 
2.43.0


From 472d00c59364c9da80f81378358eea74755c29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 195/231] fix: text_diff dropped lines if the snippets have
 different lengths

---
 postbound/opt/_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 17e466d..221469c 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import collections
+import itertools
 import math
 from collections.abc import Collection
 from dataclasses import dataclass
@@ -117,12 +118,13 @@ def text_diff(left: str, right: str, *, sep: str = " | ") -> str:
     left_lines = left.splitlines()
     right_lines = right.splitlines()
 
-    max_left_len = max(len(line) for line in left_lines)
-    left_lines_padded = [line.ljust(max_left_len) for line in left_lines]
+    max_left_len = max((len(line) for line in left_lines), default=0)
 
     merged_lines = [
-        f"{left_line}{sep}{right_line}"
-        for left_line, right_line in zip(left_lines_padded, right_lines)
+        f"{left_line.ljust(max_left_len)}{sep}{right_line}"
+        for left_line, right_line in itertools.zip_longest(
+            left_lines, right_lines, fillvalue=""
+        )
     ]
     return "\n".join(merged_lines)
 
-- 
2.43.0


From ad012ba6442e59f2320a7159865c69d4a022e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 196/231] fix: actual_plan_cost used the database pool instead
 of its database

---
 postbound/opt/_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 221469c..573615c 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -89,7 +89,11 @@ def actual_plan_cost(
     """
     if not analyze_plan.is_analyze():
         raise ValueError("The provided plan is not an ANALYZE plan")
-    database = database if database is not None else DatabasePool().get_instance()
+    database = (
+        DatabasePool.get_instance().current_database()
+        if database is None
+        else database
+    )
     hinted_query = database.hinting().generate_hints(
         query, analyze_plan.with_actual_card()
     )
-- 
2.43.0


From 0bfc258f6c363fa0dc04b26ed25e3c01c4531da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:41 +0000
Subject: [PATCH 197/231] fix: star_query_cardinality failed for fact tables
 with one matching row

---
 postbound/opt/_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 573615c..742d26d 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -198,7 +198,7 @@ def star_query_cardinality(
     if query.predicates().filters_for(fact_table):
         filter_clause = Where(query.predicates().filters_for(fact_table))
         id_vals_query = transform.add_clause(id_vals_query, filter_clause)
-    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query)
+    id_vals: list[tuple[Any, int]] = database.execute_query(id_vals_query, raw=True)
 
     base_query_fragments: dict[AbstractPredicate, SqlQuery] = {}
     for join_pred in query.predicates().joins_for(fact_table):
-- 
2.43.0


From cb98f12b3972e66e1d0a7d005e1fc07b1da70d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:44 +0000
Subject: [PATCH 198/231] fix: possible_plans_bound was smaller than the number
 of possible plans

---
 postbound/opt/_analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/_analysis.py b/postbound/opt/_analysis.py
index 742d26d..9b7cedf 100644
--- a/postbound/opt/_analysis.py
+++ b/postbound/opt/_analysis.py
@@ -61,9 +61,10 @@ def possible_plans_bound(
     """
     n_tables = len(query.tables())
 
-    join_orders = util.stats.catalan_number(n_tables)
-    joins = (n_tables - 1) * len(join_operators)
-    scans = n_tables * len(scan_operators)
+    # there are Catalan(n-1) binary trees with n leaves and the tables can be assigned to the leaves in any order
+    join_orders = util.stats.catalan_number(n_tables - 1) * math.factorial(n_tables)
+    joins = len(join_operators) ** (n_tables - 1)
+    scans = len(scan_operators) ** n_tables
 
     return join_orders * joins * scans
 
-- 
2.43.0


From 192b32f72448bbe925bfe78f89102a1cc98b1a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 199/231] fix: InnerJoinPreCheck failed for queries with table
 functions

---
 postbound/validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index b1e9852..429567b 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -29,6 +29,7 @@ from .qal import (
     DirectTableSource,
     ExplicitFromClause,
     From,
+    FunctionTableSource,
     ImplicitFromClause,
     ImplicitSqlQuery,
     JoinTableSource,
@@ -625,7 +626,7 @@ class InnerJoinPreCheck(OptimizationPreCheck):
     def _check_table_source(self, source: TableSource) -> PreCheckResult:
         """Handler method to check a single table source."""
         match source:
-            case DirectTableSource() | ValuesTableSource():
+            case DirectTableSource() | ValuesTableSource() | FunctionTableSource():
                 return PreCheckResult.with_all_passed()
             case SubqueryTableSource(subquery):
                 return self.check_supported_query(subquery)
-- 
2.43.0


From 50d6cb8d734ad89f8483fda9bc5936d8debe36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:25 +0000
Subject: [PATCH 200/231] fix: CrossProductPreCheck missed cross products with
 derived tables and in nested queries

---
 postbound/validation.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/postbound/validation.py b/postbound/validation.py
index 429567b..b01e7f2 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -13,8 +13,6 @@ from collections.abc import Callable, Iterable
 from dataclasses import dataclass
 from typing import Optional
 
-import networkx as nx
-
 from . import util
 from ._core import PhysicalOperator, TableReference
 from ._hints import HintType
@@ -445,15 +443,17 @@ class ImplicitQueryPreCheck(OptimizationPreCheck):
         return {"name": "implicit_query"}
 
 
-def _source_tables(source: TableSource) -> set[TableReference]:
-    """Determines all tables that are directly joined by a table source, ignoring the contents of subqueries."""
-    match source:
-        case DirectTableSource(table):
-            return {table}
-        case JoinTableSource(left, right):
-            return _source_tables(left) | _source_tables(right)
-        case _:
-            return set()
+def _query_blocks(query: SqlQuery) -> Iterable[SqlQuery]:
+    """Provides the query itself, along with all queries that are nested in it on any level (subqueries, CTEs, ...)."""
+    pending = [query]
+    while pending:
+        block = pending.pop()
+        yield block
+        pending.extend(block.subqueries())
+        if block.cte_clause:
+            pending.extend(cte.query for cte in block.cte_clause.queries)
+        if block.is_set_query():
+            pending.extend((block.left_query, block.right_query))
 
 
 class CrossProductPreCheck(OptimizationPreCheck):
@@ -463,15 +463,9 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        join_graph = query.predicates().join_graph()
-        if query.from_clause is not None:
-            # tables that do not appear in any predicate are not part of the join graph
-            join_graph.add_nodes_from(
-                table
-                for item in query.from_clause.items
-                for table in _source_tables(item)
-            )
-        no_cross_products = len(join_graph) == 0 or nx.is_connected(join_graph)
+        no_cross_products = not any(
+            block.contains_cross_product() for block in _query_blocks(query)
+        )
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
-- 
2.43.0


From 36550083610618672637a4183b2171c4f64a60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 201/231] fix: EquiJoinPreCheck and InnerJoinPreCheck failed
 for set queries

---
 postbound/validation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/postbound/validation.py b/postbound/validation.py
index b01e7f2..8151228 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -502,6 +502,12 @@ class EquiJoinPreCheck(OptimizationPreCheck):
         self._allow_nesting = allow_nesting
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if query.is_set_query():
+            return PreCheckResult.merge(
+                self.check_supported_query(input_query)
+                for input_query in (query.left_query, query.right_query)
+            )
+
         join_predicates = query.predicates().joins()
         all_passed = all(
             self._perform_predicate_check(join_pred) for join_pred in join_predicates
@@ -600,6 +606,12 @@ class InnerJoinPreCheck(OptimizationPreCheck):
         super().__init__("inner-joins-only")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
+        if query.is_set_query():
+            return PreCheckResult.merge(
+                self.check_supported_query(input_query)
+                for input_query in (query.left_query, query.right_query)
+            )
+
         if not query.from_clause:
             return PreCheckResult.with_all_passed()
 
-- 
2.43.0


From 9037e1b7238ae94b73b633404cfd25586aa9e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:27 +0000
Subject: [PATCH 202/231] fix: TONIC follows the deepest join path and treats
 only joins of two intermediates as bushy

---
 postbound/opt/tonic.py | 60 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 8fb2e86..983af9e 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -88,6 +88,46 @@ def _right_query_plan_child(node: QueryPlan) -> QueryPlan:
     return node.inner_child
 
 
+def _joins_intermediates(node: QueryPlan | JoinTree) -> bool:
+    """Checks, whether both inputs of this specific join contain joins themselves.
+
+    In contrast to `is_bushy`, this does not consider joins that appear further down in the tree.
+
+    Parameters
+    ----------
+    node : QueryPlan | JoinTree
+        The join node
+
+    Returns
+    -------
+    bool
+        Whether two intermediates are joined
+    """
+    return _join_depth(node.outer_child) > 0 and _join_depth(node.inner_child) > 0
+
+
+def _join_depth(node: QueryPlan | JoinTree) -> int:
+    """Calculates the length of the longest join path. Auxiliary nodes (hashes, sorts, ...) are not counted.
+
+    Parameters
+    ----------
+    node : QueryPlan | JoinTree
+        The node where the path ends
+
+    Returns
+    -------
+    int
+        The number of joins on the path
+    """
+    if node.is_scan():
+        return 0
+    children = (
+        [node.outer_child, node.inner_child] if node.is_join() else node.children
+    )
+    child_depth = max((_join_depth(child) for child in children), default=0)
+    return child_depth + 1 if node.is_join() else child_depth
+
+
 def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     """Provides all joins along the deepest join path in the query plan.
 
@@ -112,7 +152,7 @@ def _iterate_query_plan(current_node: QueryPlan) -> Sequence[QueryPlan]:
     )
     left_child, right_child = (
         (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
+        if _join_depth(right_child) < _join_depth(left_child)
         else (left_child, right_child)
     )
     return list(_iterate_query_plan(right_child)) + [current_node]
@@ -137,7 +177,7 @@ def _iterate_join_tree(current_node: JoinTree) -> Sequence[JoinTree]:
     left_child, right_child = current_node.outer_child, current_node.inner_child
     left_child, right_child = (
         (right_child, left_child)
-        if right_child.plan_depth() < left_child.plan_depth()
+        if _join_depth(right_child) < _join_depth(left_child)
         else (left_child, right_child)
     )
     return list(_iterate_join_tree(right_child)) + [current_node]
@@ -461,11 +501,11 @@ class QEPsNode:
                 JoinOperatorAssignment(recommendation, self.tables())
             )
 
-        if next_join.is_bushy():
+        if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
+                if _join_depth(next_join.outer_child)
+                <= _join_depth(next_join.inner_child)
                 else next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
@@ -558,10 +598,10 @@ class QEPsNode:
             _left_query_plan_child(next_node),
             _right_query_plan_child(next_node),
         )
-        if next_node.is_bushy():
+        if _joins_intermediates(next_node):
             first_child, second_child = (
                 (second_child, first_child)
-                if second_child.plan_depth() < first_child.plan_depth()
+                if _join_depth(second_child) < _join_depth(first_child)
                 else (first_child, second_child)
             )
             qeps_subquery_id = QepsIdentifier(first_child.tables())
@@ -643,11 +683,11 @@ class QEPsNode:
             unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
 
         next_join, *remaining_joins = join_order
-        if next_join.is_bushy():
+        if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
-                if next_join.outer_child.plan_depth()
-                >= next_join.inner_child.plan_depth()
+                if _join_depth(next_join.outer_child)
+                <= _join_depth(next_join.inner_child)
                 else next_join.inner_child
             )
             qeps_subquery_id = QepsIdentifier(subquery_child.tables())
-- 
2.43.0


From b6bf6fcd490fc2c87aa9ead072165f99d5b6438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 203/231] fix: TONIC recommends operators for the query's own
 tables and also for the final join

---
 postbound/opt/tonic.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 983af9e..0df5d3b 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -468,6 +468,7 @@ class QEPsNode:
         current_assignment: PhysicalOperatorAssignment,
         *,
         _skip_first_table: bool = False,
+        _current_join: Optional[JoinTree] = None,
     ) -> None:
         """Inserts the operator with the minimum cost into an operator assignment.
 
@@ -490,17 +491,20 @@ class QEPsNode:
         _skip_first_table : bool, optional
             Internal parameter that should only be set by the QEP-S implementation. This parameter is required to correctly
             start the path traversal at the bottom join.
+        _current_join : Optional[JoinTree], optional
+            Internal parameter that should only be set by the QEP-S implementation. The join of the query that is represented
+            by the current node.
         """
-        if not join_order:
-            return
-
-        next_join, *remaining_joins = join_order
         recommendation = self.current_recommendation()
-        if recommendation:
+        if recommendation and _current_join is not None:
             current_assignment.set_join_operator(
-                JoinOperatorAssignment(recommendation, self.tables())
+                JoinOperatorAssignment(recommendation, _current_join.tables())
             )
 
+        if not join_order:
+            return
+
+        next_join, *remaining_joins = join_order
         if _joins_intermediates(next_join):
             subquery_child = (
                 next_join.outer_child
@@ -514,7 +518,7 @@ class QEPsNode:
                 query, _iterate_join_tree(subquery_child), current_assignment
             )
             qeps_subquery_node.recommend_operators(
-                query, remaining_joins, current_assignment
+                query, remaining_joins, current_assignment, _current_join=next_join
             )
             return
 
@@ -548,7 +552,9 @@ class QEPsNode:
 
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
-        qeps_child_node.recommend_operators(query, remaining_joins, current_assignment)
+        qeps_child_node.recommend_operators(
+            query, remaining_joins, current_assignment, _current_join=next_join
+        )
 
     def integrate_costs(
         self,
-- 
2.43.0


From 874baa10bfe3a48b1faaa1a3998f267a0da0b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:34 +0000
Subject: [PATCH 204/231] fix: TONIC recommends operators for joins whose outer
 relation is the base table

---
 postbound/opt/tonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 0df5d3b..82dfe24 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -547,7 +547,7 @@ class QEPsNode:
             next_table = (
                 next_join.inner_child.base_table
                 if next_join.inner_child.is_scan()
-                else next_join.inner_child.outer_child.base_table
+                else next_join.outer_child.base_table
             )
 
         qeps_child_id = self._make_identifier(query, next_table)
-- 
2.43.0


From 6f2c6d9f45e0be2f7a0322aa66a10d5d82f1be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 205/231] fix: TONIC models can be loaded from their JSON
 encoding

---
 postbound/opt/tonic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 82dfe24..db88b4e 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1088,7 +1088,7 @@ def _load_qeps_id_from_json(json_data: dict) -> QepsIdentifier:
     tables = [
         parser.load_table_json(json_table) for json_table in json_data.get("tables", [])
     ]
-    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"), {})
+    filter_pred = parser.load_predicate_json(json_data.get("filter_predicate"))
     return QepsIdentifier(tables, filter_pred)
 
 
@@ -1134,20 +1134,20 @@ def _load_qeps_from_json(
     }
     subquery = (
         _load_qeps_from_json(json_data["subquery"], None, None, filter_aware, gamma)
-        if "subquery" in json_data
+        if json_data.get("subquery") is not None
         else None
     )
     children: dict[QepsIdentifier, QEPsNode] = {}
     for child_json in json_data.get("children", []):
         child_id = _load_qeps_id_from_json(child_json["identifier"])
         child_node = _load_qeps_from_json(
-            json_data["node"], child_id, node, filter_aware, gamma
+            child_json["node"], child_id, node, filter_aware, gamma
         )
         children[child_id] = child_node
 
-    node.operator_costs = cost_info
+    node.operator_costs.update(cost_info)
     node._subquery_root = subquery
-    node.child_nodes = children
+    node.child_nodes.update(children)
     return node
 
 
-- 
2.43.0


From 71fba75325f40bcd4361cc04116aca860e84df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:56 +0000
Subject: [PATCH 206/231] fix: TONIC detects unknown operator costs of all
 joins

---
 postbound/opt/tonic.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index db88b4e..74f7ff5 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -230,7 +230,7 @@ def _tables_in_qeps_path(
     frozenset[TableReference]
         All tables in the path
     """
-    return util.set_union(identifier.tables() for identifier in qeps_path)
+    return util.set_union(identifier.tables for identifier in qeps_path)
 
 
 class QepsIdentifier:
@@ -654,6 +654,7 @@ class QEPsNode:
         allowed_operators: frozenset[JoinOperator],
         unknown_ops: dict[frozenset[TableReference], frozenset[JoinOperator]],
         _skip_first_table: bool = False,
+        _current_join: Optional[JoinTree] = None,
     ) -> None:
         """Collects all joins in the QEP-S that do not have cost information for all possible operators.
 
@@ -674,11 +675,11 @@ class QEPsNode:
         _skip_first_table : bool, optional
             Internal parameter that should only be set by the QEP-S implementation. This parameter is required to correctly
             start the path traversal at the bottom join.
+        _current_join : Optional[JoinTree], optional
+            Internal parameter that should only be set by the QEP-S implementation. The join of the query that is represented
+            by the current node.
         """
-        if not join_order:
-            return
-
-        if not self.is_root_node() and not self._parent.is_root_node():
+        if _current_join is not None:
             own_unknown_ops = frozenset(
                 [
                     operator
@@ -686,7 +687,11 @@ class QEPsNode:
                     if operator not in self.operator_costs
                 ]
             )
-            unknown_ops[_tables_in_qeps_path(self.path())] = own_unknown_ops
+            if own_unknown_ops:
+                unknown_ops[frozenset(_current_join.tables())] = own_unknown_ops
+
+        if not join_order:
+            return
 
         next_join, *remaining_joins = join_order
         if _joins_intermediates(next_join):
@@ -705,7 +710,11 @@ class QEPsNode:
                 unknown_ops,
             )
             qeps_subquery_node.detect_unknown_costs(
-                query, remaining_joins, allowed_operators, unknown_ops
+                query,
+                remaining_joins,
+                allowed_operators,
+                unknown_ops,
+                _current_join=next_join,
             )
             return
 
@@ -744,7 +753,11 @@ class QEPsNode:
         qeps_child_id = self._make_identifier(query, next_table)
         qeps_child_node = self.child_nodes[qeps_child_id]
         qeps_child_node.detect_unknown_costs(
-            query, remaining_joins, allowed_operators, unknown_ops
+            query,
+            remaining_joins,
+            allowed_operators,
+            unknown_ops,
+            _current_join=next_join,
         )
 
     def current_recommendation(self) -> Optional[JoinOperator]:
-- 
2.43.0


From 80e86a830ec6c34e3e3473eb7e8ecadd1fe58e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:05 +0000
Subject: [PATCH 207/231] fix: TONIC explores all operator combinations by
 default

---
 postbound/opt/tonic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 74f7ff5..af4001f 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1507,7 +1507,8 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
             _sample_cost_estimates(
                 query, join_order, unknown_costs, max_combinations, self._db
             )
-            if total_unknown_combinations > max_combinations
+            if max_combinations is not None
+            and total_unknown_combinations > max_combinations
             else _generate_all_cost_estimates(
                 query, join_order, unknown_costs, self._db
             )
-- 
2.43.0


From cde1a57cafaa238771092c085cb3694b0672f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 208/231] fix: TONIC identifiers do not depend on the order of
 the filters

---
 postbound/opt/tonic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index af4001f..958568a 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -212,7 +212,18 @@ def _normalize_filter_predicate(
         for col in filter_predicate.columns()
         if col.table in renamed_tables
     }
-    return transform.rename_columns_in_predicate(filter_predicate, renamed_columns)
+    normalized = transform.rename_columns_in_predicate(
+        filter_predicate, renamed_columns
+    )
+    if (
+        isinstance(normalized, qal.CompoundPredicate)
+        and normalized.operation == qal.CompoundOperator.And
+    ):
+        # the order of the filters depends on the query they have been extracted from
+        normalized = qal.CompoundPredicate.create_and(
+            sorted(normalized.children, key=str)
+        )
+    return normalized
 
 
 def _tables_in_qeps_path(
-- 
2.43.0


From 66155bd785172c2533790dc25c115cd0dadd3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:12 +0000
Subject: [PATCH 209/231] fix: TONIC can explore the costs of a join order

---
 postbound/opt/tonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/opt/tonic.py b/postbound/opt/tonic.py
index 958568a..788ec5a 100644
--- a/postbound/opt/tonic.py
+++ b/postbound/opt/tonic.py
@@ -1507,7 +1507,7 @@ class TonicOperatorSelection(PhysicalOperatorSelection):
         allowed_operators = frozenset(allowed_operators & supported_operators)
 
         unknown_costs = {
-            intermediate.tables(): allowed_operators
+            frozenset(intermediate.tables()): allowed_operators
             for intermediate in join_order.iterjoins()
         }
         total_unknown_combinations = math.prod(
-- 
2.43.0


From 1a4a516ad499f38fb6f110c4ebd95d2d615ac2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 210/231] fix: benchmark callbacks receive the query that has
 been executed

---
 postbound/bench.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 2d76a54..ad87f16 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -723,6 +723,9 @@ class _ResultSample:
     def failed_optimization(self) -> Optional[Exception]:
         return self._optimization_failure
 
+    def executed_query(self) -> SqlQuery:
+        return self.query if self.optimized_query is None else self.optimized_query
+
     def num_executions(self) -> int:
         return len(self.result_sets)
 
@@ -735,7 +738,7 @@ class _ResultSample:
 
         result_set = _simplify_if_present(self.result_sets[-1])
         return ExecutionResult(
-            query=self.query,
+            query=self.executed_query(),
             status=self.status[-1],
             query_result=result_set,
             optimization_time=self.optimization_time,
@@ -796,7 +799,7 @@ class _ResultSample:
                 continue
 
             sample = ExecutionResult(
-                query=self.query,
+                query=self.executed_query(),
                 status=status,
                 query_result=self.result_sets[i],
                 optimization_time=self.optimization_time,
-- 
2.43.0


From 68fa28a84c18eca6207a7afd160a7747492274b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:40 +0000
Subject: [PATCH 211/231] fix: the native cost model only issues warnings in
 verbose mode

---
 postbound/opt/native.py | 45 +++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 9a4bfa3..e730ff3 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -209,9 +209,8 @@ class NativeCostModel(CostModel):
         # restrict this cost function to Postgres backends.
 
         if not isinstance(self.target_db, PostgresInterface):
-            warnings.warn(
-                "Can only estimate the cost of materialize operators for Postgres.",
-                category=CostEstimationWarning,
+            self._warn(
+                "Can only estimate the cost of materialize operators for Postgres."
             )
             return math.inf
 
@@ -220,9 +219,8 @@ class NativeCostModel(CostModel):
         free_tables = query.tables() - plan.tables()
         candidate_joins = query.predicates().joins_between(free_tables, plan.tables())
         if not candidate_joins:
-            warnings.warn(
-                "Could not find a suitable consumer of the materialized table. Returning infinite costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                "Could not find a suitable consumer of the materialized table. Returning infinite costs."
             )
             return math.inf
         candidate_tables = free_tables & candidate_joins.tables()
@@ -248,9 +246,8 @@ class NativeCostModel(CostModel):
         try:
             topped_explain = self.target_db.optimizer().query_plan(topped_query)
         except (DatabaseServerError, DatabaseUserError):
-            warnings.warn(
-                f"Could not estimate the cost of materialize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                f"Could not estimate the cost of materialize plan {plan}. Returning infinite costs."
             )
             return math.inf
 
@@ -260,9 +257,8 @@ class NativeCostModel(CostModel):
             and node.tables == plan.tables()
         )
         if not intermediate_node:
-            warnings.warn(
-                f"Could not estimate cost of materialize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                f"Could not estimate cost of materialize plan {plan}. Returning infinite costs."
             )
             return math.inf
         return intermediate_node.estimated_cost
@@ -301,9 +297,8 @@ class NativeCostModel(CostModel):
         # restrict this cost function to Postgres backends.
 
         if not isinstance(self.target_db, PostgresInterface):
-            warnings.warn(
-                "Can only estimate the cost of memoize operators for Postgres. Returning infinte costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                "Can only estimate the cost of memoize operators for Postgres. Returning infinte costs."
             )
             return math.inf
 
@@ -313,9 +308,8 @@ class NativeCostModel(CostModel):
                 "Cannot estimate the cost of memoize operators without a lookup key."
             )
         if not isinstance(cache_key, ColumnExpression):
-            warnings.warn(
-                "Can only estimate the cost of memoize for single column cache keys. Returning infinite costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                "Can only estimate the cost of memoize for single column cache keys. Returning infinite costs."
             )
             return math.inf
 
@@ -326,9 +320,8 @@ class NativeCostModel(CostModel):
             free_tables, cache_key.column.table
         )
         if not candidate_joins:
-            warnings.warn(
-                "Could not find a suitable consumer of the materialized table. Returning infinite costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                "Could not find a suitable consumer of the materialized table. Returning infinite costs."
             )
             return math.inf
         candidate_tables = free_tables & candidate_joins.tables()
@@ -354,9 +347,8 @@ class NativeCostModel(CostModel):
         try:
             topped_explain = self.target_db.optimizer().query_plan(topped_query)
         except (DatabaseServerError, DatabaseUserError):
-            warnings.warn(
-                f"Could not estimate the cost of memoize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                f"Could not estimate the cost of memoize plan {plan}. Returning infinite costs."
             )
             return math.inf
 
@@ -366,9 +358,8 @@ class NativeCostModel(CostModel):
             and node.tables == plan.tables()
         )
         if not intermediate_node:
-            warnings.warn(
-                f"Could not estimate cost of memoize plan {plan}. Returning infinite costs.",
-                category=CostEstimationWarning,
+            self._warn(
+                f"Could not estimate cost of memoize plan {plan}. Returning infinite costs."
             )
             return math.inf
         return intermediate_node.estimated_cost
-- 
2.43.0


From 816c31220f81874476dc7dad88995c2cd90b9d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 212/231] fix: the native cost model builds valid ORDER BY
 clauses to estimate sort operators

---
 postbound/opt/native.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index e730ff3..9351411 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -53,6 +53,7 @@ from ..qal import (
     Having,
     Limit,
     OrderBy,
+    OrderByExpression,
     SqlQuery,
 )
 from ..util import jsondict
@@ -387,7 +388,7 @@ class NativeCostModel(CostModel):
             [self.target_db.schema().columns(tab) for tab in plan.tables()]
         )
 
-        orderby_cols: list[ColumnReference] = []
+        orderby_cols: list[OrderByExpression] = []
         for sort_key in plan.sort_keys:
             col = next(
                 (
@@ -397,8 +398,10 @@ class NativeCostModel(CostModel):
                     and col.column in target_columns
                 )
             )
-            orderby_cols.append(col)
-        orderby_clause = OrderBy.create_for(orderby_cols)
+            orderby_cols.append(
+                OrderByExpression(col, ascending=None if sort_key.ascending else False)
+            )
+        orderby_clause = OrderBy(orderby_cols)
         query_fragment = transform.add_clause(query_fragment, orderby_clause)
 
         return self.estimate_cost(query_fragment, plan.input_node)
-- 
2.43.0


From 4d001f73d3d9801c085b94551a7d466d7726c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:16 +0000
Subject: [PATCH 213/231] fix: the native cost model finds the materialize and
 memoize nodes of the system's plan

---
 postbound/opt/native.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 9351411..2df238e 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -254,8 +254,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Materialize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Materialize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             self._warn(
@@ -355,8 +355,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Memoize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Memoize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             self._warn(
-- 
2.43.0


From ea0985309e3ef6564b85028e32eea04cb8f1eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:11 +0000
Subject: [PATCH 214/231] fix: memoize operators are estimated with a join on
 their lookup key

---
 postbound/opt/native.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 2df238e..1106d63 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -317,15 +317,19 @@ class NativeCostModel(CostModel):
         # Our join partner has to be a table that is not already part of the plan. Based on these tables, we need to determine
         # all tables that have a suitable join condition with our cache key.
         free_tables = query.tables() - plan.tables()
-        candidate_joins = query.predicates().joins_between(
-            free_tables, cache_key.column.table
-        )
+        candidate_joins = [
+            join
+            for join in query.predicates().joins()
+            if cache_key.column in join.columns() and free_tables & join.tables()
+        ]
         if not candidate_joins:
             self._warn(
                 "Could not find a suitable consumer of the materialized table. Returning infinite costs."
             )
             return math.inf
-        candidate_tables = free_tables & candidate_joins.tables()
+        candidate_tables = free_tables & util.set_union(
+            join.tables() for join in candidate_joins
+        )
 
         # Memoization of the child node should always cost the same as long as the same cache key to construct the lookup table
         # is used. Since we enforce this based on the lookup_key it does not matter which table we choose here.
-- 
2.43.0


From 4d9fe069e21db8f58695e63e4530073218d62991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 215/231] fix: run_cmd accepts any iterable as command

---
 postbound/util/proc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/util/proc.py b/postbound/util/proc.py
index d88e560..be19751 100644
--- a/postbound/util/proc.py
+++ b/postbound/util/proc.py
@@ -97,7 +97,8 @@ def run_cmd(
     current_dir = os.getcwd()
 
     if isinstance(cmd, Iterable) and not isinstance(cmd, str):
-        cmd, args = str(cmd[0]), cmd[1:] + list(args)
+        cmd, *cmd_args = cmd
+        cmd, args = str(cmd), cmd_args + list(args)
     invocation = [cmd] + [str(arg) for arg in args]
 
     os.chdir(work_dir)
-- 
2.43.0


From bd7d66363de91ce0d27466d8de02bc4d26bcb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:38 +0000
Subject: [PATCH 216/231] fix: run_cmd restores the working directory if the
 program cannot be executed

---
 postbound/util/proc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/util/proc.py b/postbound/util/proc.py
index be19751..7ce884b 100644
--- a/postbound/util/proc.py
+++ b/postbound/util/proc.py
@@ -102,7 +102,9 @@ def run_cmd(
     invocation = [cmd] + [str(arg) for arg in args]
 
     os.chdir(work_dir)
-    res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
-    os.chdir(current_dir)
+    try:
+        res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
+    finally:
+        os.chdir(current_dir)
 
     return ProcResult(res.stdout, res.stderr, res.returncode)
-- 
2.43.0


From 4f94ace4707f395d0e94b8c974f1b3a8dc77bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:55 +0000
Subject: [PATCH 217/231] fix: statistics of columns that are named like the
 helper column of the emulation queries

---
 postbound/db/_db.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 49ac4b9..4ffd016 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -2870,19 +2870,19 @@ class DatabaseStatistics(abc.ABC):
         """
         if k is None or k <= 0:
             query_template = """
-                SELECT {col}, COUNT(*) AS n
+                SELECT {col}, COUNT(*)
                 FROM {tab}
                 GROUP BY {col}
-                ORDER BY n DESC, {col}""".format(
+                ORDER BY COUNT(*) DESC, {col}""".format(
                 col=quote(column.name), tab=column.table.qualified_name()
             )
         else:
             query_template = textwrap.dedent(
                 """
-                SELECT {col}, COUNT(*) AS n
+                SELECT {col}, COUNT(*)
                 FROM {tab}
                 GROUP BY {col}
-                ORDER BY n DESC, {col}
+                ORDER BY COUNT(*) DESC, {col}
                 LIMIT {k}""".format(
                     col=quote(column.name), tab=column.table.qualified_name(), k=k
                 )
@@ -2903,7 +2903,7 @@ class DatabaseStatistics(abc.ABC):
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
         query_template = """
-            SELECT {col}, COUNT(*) AS n
+            SELECT {col}, COUNT(*)
             FROM {tab}
             WHERE {col} IS NOT NULL
             GROUP BY {col}
-- 
2.43.0


From 4a1efea1ddf18d10cb239381f239eedb6499a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 218/231] fix: NULL and embedded quotes in literals of
 formatted MySQL queries

---
 postbound/mysql.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..85e68e0 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -476,11 +476,12 @@ class _MysqlStaticValueExpression(StaticValueExpression):
         super().__init__(original_expression.value)
 
     def __str__(self) -> str:
-        return (
-            f"{self.value}"
-            if isinstance(self.value, numbers.Number)
-            else f'"{self.value}"'
-        )
+        if self.value is None:
+            return "NULL"
+        if isinstance(self.value, numbers.Number):
+            return f"{self.value}"
+        escaped = str(self.value).replace('"', '""')
+        return f'"{escaped}"'
 
 
 class _MysqlCastExpression(CastExpression):
-- 
2.43.0


From 352f2b16200db5f50af92e46debbb45c222bd5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 219/231] fix: format MySQL queries with CAST expressions

---
 postbound/mysql.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 85e68e0..b3111d6 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -485,17 +485,24 @@ class _MysqlStaticValueExpression(StaticValueExpression):
 
 
 class _MysqlCastExpression(CastExpression):
-    def __init__(self, original_expression: CastExpression) -> None:
-        if original_expression.array_type:
+    def __init__(
+        self,
+        expression: SqlExpression,
+        target_type: str,
+        *,
+        type_params: Optional[Sequence[SqlExpression]] = None,
+        array_type: bool = False,
+    ) -> None:
+        if array_type:
             warnings.warn(
                 "MySQL does not support array types in CAST expressions. Ignoring array type."
             )
-        super().__init__(
-            original_expression.casted_expression, original_expression.target_type
-        )
+        super().__init__(expression, target_type, type_params=type_params)
 
     def __str__(self) -> str:
-        return f"CAST({self.casted_expression} AS {self.target_type})"
+        type_args = ", ".join(str(arg) for arg in self.type_params)
+        type_str = f"{self.target_type}({type_args})" if type_args else self.target_type
+        return f"CAST({self.casted_expression} AS {type_str})"
 
 
 def _replace_static_vals(e: SqlExpression) -> SqlExpression:
@@ -503,7 +510,16 @@ def _replace_static_vals(e: SqlExpression) -> SqlExpression:
 
 
 def _replace_casts(e: SqlExpression) -> SqlExpression:
-    return _MysqlCastExpression(e) if isinstance(e, CastExpression) else e
+    return (
+        _MysqlCastExpression(
+            e.casted_expression,
+            e.target_type,
+            type_params=e.type_params,
+            array_type=e.array_type,
+        )
+        if isinstance(e, CastExpression)
+        else e
+    )
 
 
 def _generate_join_order_hint(join_order: Optional[JoinTree]) -> str:
-- 
2.43.0


From e938a83cc01933d1c6b42f5d8be9d159a90b6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 220/231] fix: use MySQL's EXPLAIN syntax when formatting
 queries

---
 postbound/mysql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index b3111d6..de74e2b 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -644,7 +644,9 @@ class MysqlHintService(HintService):
         updated_query = query
 
         if updated_query.is_explain():
-            transform.replace_clause(query, _MysqlExplainClause(query.explain))
+            updated_query = transform.replace_clause(
+                updated_query, _MysqlExplainClause(query.explain)
+            )
 
         if "ANSI_QUOTES" not in self._mysql_instance.server_mode():
             updated_query = transform.replace_expressions(
-- 
2.43.0


From 7627817b83349ca687c387ff03e7664b6c573a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 221/231] fix: reject bushy query plans in the MySQL hint
 service

---
 postbound/mysql.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index de74e2b..5d93cba 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -614,17 +614,17 @@ class MysqlHintService(HintService):
         physical_operators: Optional[PhysicalOperatorAssignment] = None,
         plan_parameters: Optional[PlanParameterization] = None,
     ) -> SqlQuery:
+        if plan is not None:
+            join_order = jointree_from_plan(plan)
+            physical_operators = operators_from_plan(plan)
+            plan_parameters = parameters_from_plan(plan)
+
         if join_order and not join_order.is_linear():
             raise UnsupportedDatabaseFeatureError(
                 self._mysql_instance,
                 "Can only enforce join order for linear join trees for now",
             )
 
-        if plan is not None:
-            join_order = jointree_from_plan(plan)
-            physical_operators = operators_from_plan(plan)
-            plan_parameters = parameters_from_plan(plan)
-
         join_order_hint = _generate_join_order_hint(join_order)
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
-- 
2.43.0


From ea23063e79a8450218cdc3b1f1d788c5985c2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 222/231] fix: keep MySQL settings if there are no optimizer
 hints

---
 postbound/mysql.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 5d93cba..053faee 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -629,14 +629,11 @@ class MysqlHintService(HintService):
         operator_hint = _generate_operator_hints(physical_operators)
         prep_statements = _generate_prep_statements(physical_operators, plan_parameters)
 
-        if not join_order_hint and not operator_hint:
+        hints = [hint for hint in (join_order_hint, operator_hint) if hint]
+        if not hints and not prep_statements:
             return query
 
-        final_hint_block = (
-            "/*+\n"
-            + "\n".join(hint for hint in (join_order_hint, operator_hint) if hint)
-            + "\n*/"
-        )
+        final_hint_block = "/*+\n" + "\n".join(hints) + "\n*/" if hints else ""
         hint_clause = Hint(prep_statements, final_hint_block)
         return transform.add_clause(query, hint_clause)
 
-- 
2.43.0


From 0d94c4928c1802fc191f3df86f7c3df9439fc9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 223/231] fix: empty tables and joins in MySQL plans have
 cardinality zero

---
 postbound/mysql.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 053faee..07a27a9 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -918,15 +918,17 @@ def _parse_cardinality_info(explain_data: dict) -> tuple[float, float]:
         cardinality can be determined, a ``NaN`` is used instead.
     """
     table_cardinality = explain_data.get("rows_examined_per_scan", "")
-    table_cardinality = float(table_cardinality) if table_cardinality else math.nan
+    table_cardinality = (
+        float(table_cardinality) if table_cardinality != "" else math.nan
+    )
 
-    filtered = explain_data.get("filtered")
-    filtered = float(filtered) if filtered else math.nan
+    filtered = explain_data.get("filtered", "")
+    filtered = float(filtered) if filtered != "" else math.nan
     selectivity = filtered / 100
     scan_cardinality = selectivity * table_cardinality
 
     join_cardinality = explain_data.get("rows_produced_per_join", "")
-    join_cardinality = float(join_cardinality) if join_cardinality else math.nan
+    join_cardinality = float(join_cardinality) if join_cardinality != "" else math.nan
     return scan_cardinality, join_cardinality
 
 
-- 
2.43.0


From 4269715996629d1afa3dbad487760f0889b65112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 224/231] fix: parse raw EXPLAIN documents in the MySQL
 optimizer interface

---
 postbound/mysql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 07a27a9..34004a2 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -678,7 +678,8 @@ class MysqlOptimizer(OptimizerInterface):
         raise NotImplementedError("MySQL interface does not support ANALYZE plans yet")
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
-        mysql_plan = MysqlExplainPlan(plan)
+        plan = json.loads(plan) if isinstance(plan, str) else plan
+        mysql_plan = parse_mysql_explain_plan(query, plan)
         return mysql_plan.as_qep()
 
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
-- 
2.43.0


From 7635a94d980b825e341e248ba941925c09b558a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:02 +0000
Subject: [PATCH 225/231] fix: find unaliased tables of self-joins in MySQL
 plans

---
 postbound/mysql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 34004a2..0141cf0 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -799,8 +799,8 @@ def _lookup_table(
     """
     table_map = {tab.full_name: tab for tab in candidate_tables}
 
-    # alias takes precedence over full_name in case of conflicts
-    table_map |= {tab.alias: tab for tab in candidate_tables}
+    # identifiers (i.e. aliases) take precedence over full_name in case of conflicts
+    table_map |= {tab.identifier(): tab for tab in candidate_tables}
     return table_map[alias]
 
 
-- 
2.43.0


From 56c91748368d7ff1ab1d273208783e5b2e4fe5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:02 +0000
Subject: [PATCH 226/231] fix: typed connection settings and AutoCommit in
 MySQL config files

---
 postbound/mysql.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 0141cf0..7f38bfb 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -716,7 +716,16 @@ def _parse_mysql_connection(config_file: str) -> MysqlConnectionArguments:
     ]:
         if key not in mysql_config:
             continue
-        optional_settings[util.camel_case2snake_case(key)] = mysql_config[key]
+        match key:
+            case "Port":
+                optional_settings["port"] = mysql_config.getint(key)
+            case "UseUnicode":
+                optional_settings["use_unicode"] = mysql_config.getboolean(key)
+            case "AutoCommit":
+                optional_settings["autocommit"] = mysql_config.getboolean(key)
+            case _:
+                setting = util.camel_case2snake_case(key)
+                optional_settings[setting] = mysql_config[key]
     return MysqlConnectionArguments(user, database, **optional_settings)
 
 
-- 
2.43.0


From 31c0d700519f21a60441ab11c1f51776b1aab1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:02 +0000
Subject: [PATCH 227/231] fix: implement all abstract methods of the MySQL
 statistics interface

---
 postbound/mysql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 7f38bfb..2ace08f 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -69,6 +69,8 @@ from .db import (
     DatabaseSchema,
     DatabaseStatistics,
     HintService,
+    Histogram,
+    HistogramApproximation,
     OptimizerInterface,
     UnsupportedDatabaseFeatureError,
 )
@@ -452,6 +454,15 @@ class MysqlStatisticsInterface(DatabaseStatistics):
             )
         return self._calculate_most_common_values(column, k=k, cache_enabled=True)
 
+    def _retrieve_histogram_from_stats(
+        self, column: BoundColumnReference, *, interpolation: HistogramApproximation
+    ) -> Optional[Histogram]:
+        if not self.enable_emulation_fallback:
+            raise UnsupportedDatabaseFeatureError(self._db, "histogram statistics")
+        return self._calculate_histogram(
+            column, n_bins=100, interpolation=interpolation, cache_enabled=True
+        )
+
 
 MysqlJoinHints = {JoinOperator.HashJoin, JoinOperator.NestedLoopJoin}
 MysqlScanHints = {ScanOperator.IndexScan, ScanOperator.SequentialScan}
-- 
2.43.0


From 79fc5674907f0f436c6f5bbf43d66d9c33b8ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:35 +0000
Subject: [PATCH 228/231] fix: do not inline preparatory statements into the
 SELECT clause

---
 postbound/qal/_formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 7edb55b..4c3fc7e 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -1122,7 +1122,10 @@ def format_quick(
 
     for clause in query.clauses():
         if inline_hint_block and isinstance(clause, Hint):
-            inlined_hint_block = clause
+            if clause.preparatory_statements:
+                pretty_query_parts.append(clause.preparatory_statements)
+            if clause.query_hints:
+                inlined_hint_block = Hint("", clause.query_hints)
             continue
 
         match clause:
-- 
2.43.0


From 15a6de5db322746bc6ca2fde09a1b0c631273610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:57 +0000
Subject: [PATCH 229/231] fix: execute MySQL queries in MySQL's syntax with
 their hints after SELECT

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 2ace08f..7771891 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -269,7 +269,7 @@ class MysqlInterface(Database):
         if query.hints and query.hints.preparatory_statements:
             self._cur.execute(query.hints.preparatory_statements)
             query = transform.drop_hints(query, preparatory_statements_only=True)
-        return str(query)
+        return self.hinting().format_query(query)
 
     def _obtain_query_plan(self, query: str) -> dict:
         if not query.startswith("EXPLAIN FORMAT = JSON"):
-- 
2.43.0


From efbc164c139d73393ec39788ba763ba8d3f66032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:26 +0000
Subject: [PATCH 230/231] fix: pass parameters of MySQL catalog queries as
 tuples

---
 postbound/mysql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 7771891..06dbaa2 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -401,7 +401,7 @@ class MysqlSchemaInterface(DatabaseSchema):
             FROM information_schema.columns
             WHERE table_name = %s AND column_key <> ''
         """)
-        self._db.cursor().execute(index_query, table.full_name)
+        self._db.cursor().execute(index_query, (table.full_name,))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
         index_map = dict(result_set)
@@ -416,7 +416,7 @@ class MysqlStatisticsInterface(DatabaseStatistics):
         count_query = (
             "SELECT table_rows FROM information_schema.tables WHERE table_name = %s"
         )
-        self._db.cursor().execute(count_query, table.full_name)
+        self._db.cursor().execute(count_query, (table.full_name,))
         result_set = self._db.cursor().fetchone()
         assert result_set is not None
         count = result_set[0]
-- 
2.43.0


From 46735b4ee77e2047da6cd4a0ce3551e64ca8fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:26 +0000
Subject: [PATCH 231/231] fix: unwrap the distinct value statistics of MySQL

---
 postbound/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/mysql.py b/postbound/mysql.py
index 06dbaa2..4756157 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -436,7 +436,7 @@ class MysqlStatisticsInterface(DatabaseStatistics):
         elif distinct_vals is None:
             return self._calculate_distinct_values(column, cache_enabled=True)
         else:
-            return distinct_vals
+            return distinct_vals[0]
 
     def _retrieve_min_max_values_from_stats(
         self, column: BoundColumnReference
-- 
2.43.0

