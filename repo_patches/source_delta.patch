From cbb376c1530be9f17759765f8d1a997ab3a6a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 001/107] fix: JSON_OBJECTAGG lost the merged object when
 reducing batches

---
 syncanysql/calculaters/aggregate_calculater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 577c453..a008e08 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -431,7 +431,8 @@ class AggregateJsonObjectaggCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return state_value.update(data_value)
+        state_value.update(data_value)
+        return state_value
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From 553b118695b55551d0d14b9f6200391aba2ee897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 002/107] fix: AVG counted NULL values after the first non-NULL
 one

---
 syncanysql/calculaters/aggregate_calculater.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index a008e08..568fdf5 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -187,6 +187,8 @@ class AggregateMinCalculater(AggregateCalculater):
 
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
+        if data_value is None:
+            return state_value
         try:
             state_value["count_value"] += 1
             if isinstance(data_value, NumberDecimalTypes):
@@ -195,11 +197,7 @@ class AggregateAvgCalculater(StateAggregateCalculater):
                 state_value["sum_value"] += ensure_number(data_value)
             return state_value
         except:
-            if data_value is None:
-                return state_value
             if state_value is None:
-                if data_value is None:
-                    return None
                 if isinstance(data_value, NumberDecimalTypes):
                     return {"count_value": 1, "sum_value": data_value}
                 return {"count_value": 1, "sum_value": ensure_number(data_value)}
-- 
2.43.0


From de90a1ea641575ed77688a6bc81e9885648098ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 003/107] fix: comparison with the column on the right side was
 evaluated mirrored in WHERE

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60d68e4..fe4567a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -860,6 +860,9 @@ class Compiler(object):
                 if left_column["table_name"] and primary_table["table_name"] != left_column["table_name"]:
                     return None, None
             if left_column is None and self.is_column(right_expression, config, arguments):
+                if isinstance(expression, (sqlglot_expressions.GT, sqlglot_expressions.GTE, sqlglot_expressions.LT,
+                                           sqlglot_expressions.LTE)):
+                    return None, None
                 right_column = self.parse_column(right_expression, config, arguments)
                 if right_column["table_name"] and primary_table["table_name"] != right_column["table_name"]:
                     return None, None
-- 
2.43.0


From 9821ad7e2504e0b87e11c65034a1208d26bfa01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 004/107] fix: IN list with column items was pushed to the
 loader as a constant condition

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fe4567a..2d9f618 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -875,6 +875,8 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
+                if any([has_column_expression(value_expression_item) for value_expression_item in right_expression]):
+                    return None, None
                 value_items = [self.compile_where_condition_column(value_expression_item, config, arguments, primary_table, join_tables)
                                for value_expression_item in right_expression]
                 return left_column, ["#make", value_items]
-- 
2.43.0


From 386c3e457e5511ab940520380798b0b4cf2ef941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 005/107] fix: several WHERE conditions on one column could
 replace or widen each other

---
 syncanysql/compiler.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2d9f618..5e4951a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -869,6 +869,8 @@ class Compiler(object):
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
             if left_column is None:
                 return None, None
+            if self.is_conflict_query(expression, left_column, config["querys"]):
+                return None, None
 
             if isinstance(right_expression, list):
                 if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
@@ -964,6 +966,21 @@ class Compiler(object):
         else:
             return expression
 
+    def is_conflict_query(self, expression, condition_column, querys):
+        # a loader keeps one bound per column and merges equality conditions of the same column into a single in condition
+        if isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.In)):
+            conflict_exps = ("==", "in")
+        else:
+            conflict_exps = {sqlglot_expressions.GT: (">",), sqlglot_expressions.GTE: (">=",), sqlglot_expressions.LT: ("<",),
+                             sqlglot_expressions.LTE: ("<=",)}.get(expression.__class__, ())
+        for typing_name, exps in querys.items():
+            if typing_name.split("|")[0] != condition_column["typing_name"].split("|")[0]:
+                continue
+            for exp in (exps if isinstance(exps, list) else [exps]):
+                if any(conflict_exp in exp for conflict_exp in conflict_exps):
+                    return True
+        return False
+
     def compile_where_condition_column(self, expression, config, arguments, primary_table, join_tables):
         if self.is_column(expression, config, arguments):
             expression_column = self.parse_column(expression, config, arguments)
-- 
2.43.0


From 9f944452ec364f9070e2663cdffe67814f168c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 006/107] fix: environment variables replaced WHERE values of
 columns with the same name

---
 syncanysql/taskers/query.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 2cb7b09..a868442 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -373,7 +373,11 @@ class QueryTasker(object):
 
     def compile_tasker(self, arguments, tasker):
         tasker.load()
-        compile_arguments = dict(**self.ENV_ARGUMENTS)
+        querys = tasker.config["querys"] if isinstance(tasker.config.get("querys"), dict) else {}
+        query_names = {key.split("|")[0] for key, exps in querys.items()
+                       if isinstance(exps[0] if isinstance(exps, list) and exps else exps, dict)}
+        compile_arguments = {key: value for key, value in self.ENV_ARGUMENTS.items()
+                             if key not in query_names and key.rpartition("__")[0] not in query_names}
         compile_arguments.update(arguments)
         if self.is_local_memory_database(tasker.config):
             if isinstance(tasker.config["input"], str) and "&.--." in tasker.config["input"] and not arguments.get("@loop", False):
-- 
2.43.0


From 5d1c9b7ca334d1c5b5169e824ee8a6b2273ad092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 007/107] fix: LIKE ignored the end of the pattern and the _
 wildcard

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 709833a..c6108a6 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,9 +111,10 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = ".*" if r == '%%' else "".join([rg.replace("%", ".*") for rg in re.escape(r).split("%%")])
+    r = "".join([".*" if rc == "%" else "." if rc == "_" else re.escape(rc[-1:])
+                 for rc in re.findall(r"\\.|.", r, re.DOTALL)])
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.fullmatch(r, s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
 
-- 
2.43.0


From e4fa353fecede62afc5ffe0859a37488ff0ec4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 008/107] fix: single item IN list was evaluated as a scalar in
 expressions

---
 syncanysql/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5e4951a..9ff2ea5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1803,11 +1803,12 @@ class Compiler(object):
 
             func_name = expression.key.lower()
             if expression.args.get("expressions"):
+                item_calculates = [self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
+                                   for item_expression in expression.args["expressions"]]
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#make", [self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
-                               for item_expression in expression.args["expressions"]]]
+                    ["#make", item_calculates] if len(item_calculates) > 1 else ["@convert_array", item_calculates[0]]
                 ]
             if expression.args.get("query"):
                 query_value_calculate = self.compile_calculate(expression.args["query"], config, arguments, primary_table, column_join_tables, join_index)
-- 
2.43.0


From 99a206a731b0a59900929ee547faccdfa12458d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 009/107] fix: AND and OR had the same precedence

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9ff2ea5..bcfedf4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -43,6 +43,12 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
     class Parser(sqlglot_parser.Parser):
+        def _parse_conjunction(self):
+            return self._parse_tokens(self._parse_and_conjunction, {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or})
+
+        def _parse_and_conjunction(self):
+            return self._parse_tokens(self._parse_equality, {sqlglot_parser.TokenType.AND: sqlglot_expressions.And})
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From fd7aadae823bd5833a06021c45c9c53acdb166d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 010/107] fix: BETWEEN on columns of joined tables crashed or
 read the wrong scope

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index bcfedf4..405ce0e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1749,9 +1749,9 @@ class Compiler(object):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
             return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
+                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
+                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
             }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
-- 
2.43.0


From b4c0d66d50f2bd0079c3b42275ca7363f588cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 011/107] fix: ON conditions on other tables or repeated on one
 column were sent to the joined table's loader

---
 syncanysql/compiler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 405ce0e..ceb565e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2183,9 +2183,16 @@ class Compiler(object):
                 join_table["calculate_expressions"].append(join_on_expression)
                 return True, condition_column, None
 
+            # only conditions on a column of the join table can be sent to its loader, and only one of each kind per column
+            if condition_column and (condition_column["table_name"] != join_table["name"]
+                                     or self.is_conflict_query(expression, condition_column, join_table["querys"])):
+                condition_column = None
             calculate_fields = []
-            if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
-                self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
+            value_expressions = [value_expression_item for value_expression_item
+                                 in (value_expression if isinstance(value_expression, list) else [value_expression])
+                                 if not self.is_subquery(value_expression_item, config, arguments)]
+            for value_expression_item in value_expressions:
+                self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
             if not condition_column or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
-- 
2.43.0


From 7dad71e2c3e136482b8d64e8264d386705e75baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 012/107] fix: RIGHT JOIN applied ON conditions of the right
 table as WHERE

---
 syncanysql/compiler.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ceb565e..a1c5c08 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3026,6 +3026,9 @@ class Compiler(object):
                                                           expression.args["from"].expressions[0])
         if not primary_table["table_name"]:
             return expression
+        if [i for i, join_expression in enumerate(expression.args["joins"])
+                if join_expression.side and join_expression.side.lower() == "right"] == [0]:
+            return self.optimize_rewrite_first_right_join(expression)
         primary_table.update({"related_tables": set([]), "on_expressions": [], "const_expressions": [],
                               "calculate_expressions": [], "join_type": "primary",
                               "table_expression": expression.args["from"].args["expressions"][0]})
@@ -3111,6 +3114,24 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args.get("offset")))
         return maybe_parse(" ".join(sql), dialect=CompilerDialect)
 
+    def optimize_rewrite_first_right_join(self, expression):
+        # a RIGHT JOIN b ON c ... is b LEFT JOIN a ON c ...
+        right_join_expression = expression.args["joins"][0]
+        sql = ["SELECT"]
+        if expression.args.get("distinct"):
+            sql.append(self.generate_sql(expression.args["distinct"]))
+        sql.append(", ".join([self.generate_sql(select_expression) for select_expression in expression.args["expressions"]]))
+        sql.append("FROM " + self.generate_sql(right_join_expression.args["this"]))
+        sql.append("LEFT JOIN " + self.generate_sql(expression.args["from"].expressions[0]))
+        if right_join_expression.args.get("on"):
+            sql.append("ON " + self.generate_sql(right_join_expression.args["on"]))
+        for join_expression in expression.args["joins"][1:]:
+            sql.append(self.generate_sql(join_expression))
+        for name in ("where", "group", "having", "order", "limit", "offset"):
+            if expression.args.get(name):
+                sql.append(self.generate_sql(expression.args[name]))
+        return maybe_parse(" ".join(sql), dialect=CompilerDialect)
+
     def optimize_rewrite_inner_join(self, expression, config, arguments):
         primary_table = self.optimize_rewrite_parse_table(expression, config, arguments,
                                                           expression.args["from"].expressions[0])
-- 
2.43.0


From b15e89c04e554fc67739a13b3e160a920158b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 013/107] fix: INNER JOIN filtered LEFT JOIN tables and ignored
 inner joins on other joined tables

---
 syncanysql/compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a1c5c08..4f74ae8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3151,11 +3151,12 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
-            if primary_table["table_name"] in join_table["related_tables"]:
+            if join_table["join_kind"] == "inner":
+                calculate_fields = []
                 for on_expression in join_table["on_expressions"]:
-                    self.parse_calculate(on_expression, config, arguments, primary_table, inner_calculate_fields)
-        inner_calculate_fields = [calculate_field for calculate_field in inner_calculate_fields
-                                  if calculate_field["table_name"] and calculate_field["table_name"] != primary_table["table_name"]]
+                    self.parse_calculate(on_expression, config, arguments, primary_table, calculate_fields)
+                inner_calculate_fields.extend([calculate_field for calculate_field in calculate_fields
+                                               if calculate_field["table_name"] == join_table["table_name"]])
         if not inner_calculate_fields:
             return expression
 
-- 
2.43.0


From 424ee6d545d6993811b93fc754dc5c018e0d9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 014/107] fix: evaluate a correlated IN/= subquery for each row
 instead of once

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4f74ae8..6f5c062 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -891,10 +891,12 @@ class Compiler(object):
             if self.is_subquery(right_expression, config, arguments):
                 value_column = self.compile_query_condition(right_expression, config, arguments, primary_table, join_tables,
                                                             left_column["typing_filters"] if left_column else None)
-                if isinstance(value_column, list) and value_column and isinstance(value_column[0], str) and value_column[0][:2] == "&.":
+                if isinstance(value_column, list) and len(value_column) == 2 and isinstance(value_column[0], str) and value_column[0][:2] == "&.":
                     if isinstance(expression, sqlglot_expressions.In):
                         return left_column, ["@convert_array", value_column]
                     return left_column, ["@convert_array", value_column, ":$.:0"]
+                # a correlated subquery has a different value for each row
+                setattr(right_expression, "syncany_valuer", value_column)
                 return None, None
             if not has_column_expression(right_expression):
                 right_calculater = self.compile_where_condition_column(right_expression, config, arguments, primary_table, join_tables)
-- 
2.43.0


From 3de05977e07eafbfef1e1bf4e3dcdb4e65950042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 015/107] fix: keep every match of a join whatever columns are
 selected

---
 syncanysql/compiler.py | 86 ++++++++++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 19 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6f5c062..26610c3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -522,6 +522,9 @@ class Compiler(object):
             self.compile_select_calculate_column(calculate_expression, config, arguments, primary_table, column_alias,
                                                  join_tables)
 
+        if join_tables and isinstance(config["schema"], dict):
+            self.compile_select_unjoined_column(expression, config, arguments, primary_table, join_tables)
+
         where_expression = expression.args.get("where")
         if where_expression and isinstance(where_expression, sqlglot_expressions.Where):
             where_calculate_expression = self.compile_where_condition(where_expression.args["this"], config, arguments, primary_table, join_tables)
@@ -665,11 +668,13 @@ class Compiler(object):
                                                  (column_info["table_name"], self.to_sql(expression)))
             column_join_tables = []
             self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                            [join_tables[column_info["table_name"]]], join_tables,
-                                            column_join_tables)
-            config["schema"][column_alias] = self.compile_join_column(expression, config, arguments, primary_table, 
-                                                                      self.compile_column(expression, config, arguments, 
-                                                                                          column_info), column_join_tables)
+                                            self.find_column_join_tables({column_info["table_name"]}, primary_table, join_tables),
+                                            join_tables, column_join_tables)
+            config["schema"][column_alias] = self.compile_join_column(expression, config, arguments, primary_table,
+                                                                      self.compile_join_column_field(expression, config, arguments,
+                                                                                                     primary_table, -1, column_info,
+                                                                                                     column_join_tables),
+                                                                      column_join_tables)
         else:
             config["schema"][column_alias] = self.compile_column(expression, config, arguments, column_info)
         if not column_info["table_name"] or column_info["table_name"] == primary_table["table_name"]:
@@ -703,7 +708,7 @@ class Compiler(object):
         if calculate_table_names:
             column_join_tables = []
             self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                            [join_tables[calculate_table_name] for calculate_table_name in calculate_table_names],
+                                            self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
                                             join_tables, column_join_tables)
             calculate_column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
             config["schema"][column_alias] = self.compile_join_column(expression, config, arguments, primary_table,
@@ -720,6 +725,35 @@ class Compiler(object):
             else:
                 primary_table["outputer_primary_keys"] = [column_alias]
 
+    def find_column_join_tables(self, table_names, primary_table, join_tables):
+        # the columns of a row have to walk through the same joins, a join they do not share loses its matches
+        previous_table_names = []
+        for join_table_name, join_table in join_tables.items():
+            ref_table_names = {join_column["table_name"] for join_column in join_table["join_columns"]
+                               if join_column["table_name"] and join_column["table_name"] != primary_table["table_name"]}
+            if previous_table_names and previous_table_names[-1] not in ref_table_names:
+                return [join_tables[table_name] for table_name in join_tables if table_name in table_names]
+            previous_table_names.append(join_table_name)
+        return list(join_tables.values())
+
+    def compile_select_unjoined_column(self, expression, config, arguments, primary_table, join_tables):
+        # without any joined column in the select columns the matches of the joins would be lost
+        if config.get("aggregate") and (config["aggregate"]["schema"] or config["aggregate"]["window_schema"]):
+            return
+        for column_expression in primary_table["select_columns"].values():
+            calculate_fields = []
+            self.parse_calculate(column_expression, config, arguments, primary_table, calculate_fields)
+            if [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"] in join_tables]:
+                return
+        for column_alias, column_expression in primary_table["select_columns"].items():
+            if isinstance(column_expression, sqlglot_expressions.Star) or (isinstance(column_expression, sqlglot_expressions.Column)
+                                                                           and isinstance(column_expression.args.get("this"),
+                                                                                          sqlglot_expressions.Star)):
+                continue
+            config["schema"][column_alias] = self.compile_unjoined_column(column_expression, config, arguments,
+                                                                          primary_table, join_tables)
+            return
+
     def compile_join_column_tables(self, expression, config, arguments, primary_table, current_join_tables, join_tables,
                                    column_join_tables):
         if not current_join_tables:
@@ -807,6 +841,20 @@ class Compiler(object):
             return ["#call", jit_define_name, "$.*"]
         return column
 
+    def compile_unjoined_column(self, expression, config, arguments, primary_table, join_tables, column=None):
+        # does not use a joined column, but still has a value for each match of the joins
+        column_join_tables = []
+        self.compile_join_column_tables(expression, config, arguments, primary_table,
+                                        self.find_column_join_tables([], primary_table, join_tables),
+                                        join_tables, column_join_tables)
+        if column is None:
+            column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
+        if not column_join_tables:
+            return column
+        if isinstance(column, list) and column and column[0] == "#const":
+            column = ["#if", ["#const", 1], column, column]
+        return self.compile_join_column(expression, config, arguments, primary_table, column, column_join_tables)
+
     def compile_join_column_field(self, expression, config, arguments, primary_table, ci, join_column, column_join_tables):
         if not join_column["table_name"] or join_column["table_name"] == primary_table["table_name"]:
             return self.compile_column(expression, config, arguments, join_column, len(column_join_tables) - ci)
@@ -1036,8 +1084,8 @@ class Compiler(object):
                                                  (calculate_field["table_name"], self.to_sql(expression)))
             calculate_table_names.add(calculate_field["table_name"])
         self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                        [join_tables[calculate_table_name] for calculate_table_name in
-                                         calculate_table_names], join_tables, column_join_tables)
+                                        self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
+                                        join_tables, column_join_tables)
         calculate_column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
         return self.compile_join_column(expression, config, arguments, primary_table, calculate_column, column_join_tables)
 
@@ -1134,8 +1182,8 @@ class Compiler(object):
                                                  (calculate_field["table_name"], self.to_sql(expression)))
             calculate_table_names.add(calculate_field["table_name"])
         self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                        [join_tables[calculate_table_name] for calculate_table_name in
-                                         calculate_table_names], join_tables, column_join_tables)
+                                        self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
+                                        join_tables, column_join_tables)
         calculate_column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
         return self.compile_join_column(expression, config, arguments, primary_table, calculate_column, column_join_tables)
 
@@ -1302,8 +1350,8 @@ class Compiler(object):
                                                      (calculate_field["table_name"], self.to_sql(group_expression)))
                 calculate_table_names.add(calculate_field["table_name"])
             self.compile_join_column_tables(group_expression, config, arguments, primary_table,
-                                            [join_tables[calculate_table_name] for calculate_table_name in
-                                             calculate_table_names], join_tables, column_join_tables)
+                                            self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
+                                            join_tables, column_join_tables)
             calculate_column = self.compile_calculate(group_expression, config, arguments, primary_table,
                                                       column_join_tables)
             group_column.append(self.compile_join_column(group_expression, config, arguments, primary_table,
@@ -1313,7 +1361,7 @@ class Compiler(object):
     def compile_aggregate_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
                                                                             sqlglot_expressions.Star):
-            return [["#const", 0]]
+            return [self.compile_unjoined_column(expression, config, arguments, primary_table, join_tables, ["#const", 0])]
         if not value_expressions:
             return [["#const", None]]
 
@@ -1324,7 +1372,7 @@ class Compiler(object):
             calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
                                 and calculate_field["table_name"] != primary_table["table_name"]]
             if not calculate_fields:
-                value_column.append(self.compile_calculate(value_expression, config, arguments, primary_table, []))
+                value_column.append(self.compile_unjoined_column(value_expression, config, arguments, primary_table, join_tables))
                 continue
 
             column_join_tables = []
@@ -1335,8 +1383,8 @@ class Compiler(object):
                                                      (calculate_field["table_name"], self.to_sql(value_expression)))
                 calculate_table_names.add(calculate_field["table_name"])
             self.compile_join_column_tables(value_expression, config, arguments, primary_table,
-                                            [join_tables[calculate_table_name] for calculate_table_name in
-                                             calculate_table_names], join_tables, column_join_tables)
+                                            self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
+                                            join_tables, column_join_tables)
             calculate_column = self.compile_calculate(value_expression, config, arguments, primary_table,
                                                       column_join_tables)
             value_column.append(self.compile_join_column(value_expression, config, arguments, primary_table,
@@ -1493,7 +1541,7 @@ class Compiler(object):
                                                      (calculate_field["table_name"], self.to_sql(expression)))
                 calculate_table_names.add(calculate_field["table_name"])
             self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                            [join_tables[calculate_table_name] for calculate_table_name in calculate_table_names],
+                                            self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
                                             join_tables, column_join_tables)
             calculate_column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
             key_column.append(self.compile_join_column(expression, config, arguments, primary_table,
@@ -1534,8 +1582,8 @@ class Compiler(object):
                                                      (calculate_field["table_name"], self.to_sql(value_expression)))
                 calculate_table_names.add(calculate_field["table_name"])
             self.compile_join_column_tables(value_expression, config, arguments, primary_table,
-                                            [join_tables[calculate_table_name] for calculate_table_name in
-                                             calculate_table_names], join_tables, column_join_tables)
+                                            self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
+                                            join_tables, column_join_tables)
             calculate_column = self.compile_calculate(value_expression, config, arguments, primary_table,
                                                       column_join_tables)
             value_column.append(self.compile_join_column(value_expression, config, arguments, primary_table,
-- 
2.43.0


From 8aebe56e2c378d758baf84ad0d7e1b7c03d25d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 016/107] fix: LIMIT was applied to the source rows of DISTINCT
 and GROUP BY

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 26610c3..5af6491 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -547,7 +547,7 @@ class Compiler(object):
         if limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0:
+                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
                 if limit_value != 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value > 0 else limit_value])
-- 
2.43.0


From 58b5d73f269c9a4a64c4fd521e249d990286de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 017/107] fix: DISTINCT was ignored together with GROUP BY or
 aggregates

---
 syncanysql/calculaters/__init__.py       |  1 +
 syncanysql/calculaters/row_calculater.py | 21 +++++++++++++++++++++
 syncanysql/compiler.py                   | 21 +++++++--------------
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 53b7ed9..3a6b6ba 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -19,6 +19,7 @@ SQL_CALCULATERS = {
     "current_env_variable": CurrentEnvVariableCalculater,
     "row_index": RowIndexCalculater,
     "row_last": RowLastCalculater,
+    "distinct_rows": DistinctRowsCalculater,
     "mysql": MysqlCalculater,
     "aggregate_key": AggregateKeyCalculater,
     "aggregate_count": AggregateCountCalculater,
diff --git a/syncanysql/calculaters/row_calculater.py b/syncanysql/calculaters/row_calculater.py
index 56fe4c6..51978f5 100644
--- a/syncanysql/calculaters/row_calculater.py
+++ b/syncanysql/calculaters/row_calculater.py
@@ -33,3 +33,24 @@ class RowLastCalculater(Calculater):
     def calculate(self, *args):
         row_last, self.row_last = self.row_last, (args[0] if len(args) == 1 else args)
         return row_last
+
+
+class DistinctRowsCalculater(Calculater):
+    def calculate(self, *args):
+        distinct_rows, seen_keys = [], set([])
+        for row in (args[0] or []):
+            key = self.make_key(row)
+            if key in seen_keys:
+                continue
+            seen_keys.add(key)
+            distinct_rows.append(row)
+        return distinct_rows
+
+    def make_key(self, value):
+        if isinstance(value, dict):
+            return tuple((k, self.make_key(v)) for k, v in sorted(value.items(), key=lambda x: str(x[0])))
+        if isinstance(value, (list, tuple)):
+            return tuple(self.make_key(v) for v in value)
+        if isinstance(value, set):
+            return tuple(sorted(str(v) for v in value))
+        return value
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5af6491..661f6c2 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -538,6 +538,10 @@ class Compiler(object):
             if having_condition:
                 config["intercept"] = having_condition
 
+        distinct_expression = expression.args.get("distinct")
+        if distinct_expression and (group_expression or (config.get("aggregate") and (config["aggregate"]["schema"]
+                                                                                      or config["aggregate"]["window_schema"]))):
+            config["pipelines"].append([">>@distinct_rows", "$.*|array"])
         order_expression = expression.args.get("order")
         if order_expression:
             self.compile_order(order_expression.args["expressions"], config, arguments, primary_table)
@@ -560,20 +564,9 @@ class Compiler(object):
 
         if group_expression and ("aggregate" not in config or not config["aggregate"] or not config["aggregate"]["schema"]):
             self.compile_group_column(group_expression, config, arguments, primary_table, join_tables)
-        distinct_expression = expression.args.get("distinct")
-        if distinct_expression and ("aggregate" not in config or not config["aggregate"] or not config["aggregate"]["schema"]):
-            if not group_expression:
-                self.compile_distinct_column(expression, config, arguments, primary_table, join_tables)
-            else:
-                if not isinstance(config["schema"], dict):
-                    raise SyncanySqlCompileException(
-                        'error distinct, select columns is unknown, related sql "%s"' % self.to_sql(expression))
-                if "aggregate" not in config:
-                    config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
-                for name, column in config["schema"].items():
-                    if name in config["aggregate"]["schema"]:
-                        continue
-                    config["aggregate"]["distinct_keys"].append(copy.deepcopy(column))
+        if distinct_expression and not group_expression and not (config.get("aggregate") and (config["aggregate"]["schema"]
+                                                                                             or config["aggregate"]["window_schema"])):
+            self.compile_distinct_column(expression, config, arguments, primary_table, join_tables)
         if not from_expression and not primary_table["outputer_primary_keys"] and isinstance(config["schema"], dict):
             for column_alias in config["schema"]:
                 if not column_alias.isidentifier():
-- 
2.43.0


From 7d89bfd3c568c868ee267b43de8117d52af2a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 018/107] fix: WITH queries left their rows in permanent tables
 and were ignored by INSERT ... WITH

---
 syncanysql/compiler.py      | 52 +++++++++++++++++++++++++------------
 syncanysql/taskers/query.py |  3 ++-
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 661f6c2..b6c0a92 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -115,6 +115,7 @@ class Compiler(object):
         self.env_variables = env_variables
         self.name = name
         self.mapping = {}
+        self.with_tables = {}
 
     def compile(self, sql, arguments):
         escape_sql = sql
@@ -228,25 +229,37 @@ class Compiler(object):
             "pipelines": []
         })
 
-        if expression.args.get("with"):
-            self.compile_with(expression.args.get("with"), config, arguments)
-        if isinstance(expression, sqlglot_expressions.Union):
-            self.compile_union(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Insert):
-            self.compile_insert_into(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Select):
-            self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
-        else:
-            raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        with_tables, self.with_tables = self.with_tables, dict(self.with_tables)
+        try:
+            if expression.args.get("with"):
+                self.compile_with(expression.args.get("with"), config, arguments)
+            if isinstance(expression, sqlglot_expressions.Union):
+                self.compile_union(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Insert):
+                if isinstance(expression.args.get("expression"), sqlglot_expressions.Expression) \
+                        and expression.args["expression"].args.get("with"):
+                    self.compile_with(expression.args["expression"].args.get("with"), config, arguments)
+                self.compile_insert_into(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Select):
+                self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
+            else:
+                raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        finally:
+            self.with_tables = with_tables
         return config
 
     def compile_with(self, expression, config, arguments):
         for sub_expression in expression.args["expressions"]:
             table_name = sub_expression.args["alias"].name
+            if table_name in self.mapping:
+                table_name = self.mapping[table_name]
+            with_name = "__withquery_" + str(uuid.uuid1().int) + "_" + table_name
+            if expression.args.get("recursive"):
+                self.with_tables[table_name] = with_name
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
-            subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
-            subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
+            subquery_config["output"] = "&.--." + with_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
+            subquery_config["name"] = subquery_config["name"] + "#" + with_name[2:] + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             output_db_table_name = subquery_config["output"].split("::")[0]
             for dependency_config in (subquery_config.get("dependencys") or []):
@@ -254,6 +267,7 @@ class Compiler(object):
                     dependency_config["input"] = dependency_config["output"].split(" ")[0]
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@batch"] = 1
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
+            self.with_tables[table_name] = with_name
             config["dependencys"].append(subquery_config)
 
     def compile_subquery(self, expression, arguments):
@@ -277,14 +291,14 @@ class Compiler(object):
     def compile_insert_into(self, expression, config, arguments):
         columns = []
         if isinstance(expression.args["this"], sqlglot_expressions.Table):
-            table_info = self.parse_table(expression.args["this"], config, arguments)
+            table_info = self.parse_table(expression.args["this"], config, arguments, False)
         elif isinstance(expression.args["this"], sqlglot_expressions.Schema):
             schema_expression = expression.args["this"]
             if not isinstance(schema_expression.args["this"], sqlglot_expressions.Table):
                 raise SyncanySqlCompileException('unknown insert into table, related sql "%s"' % self.to_sql(expression))
             if not schema_expression.args.get("expressions"):
                 raise SyncanySqlCompileException('unknown insert into columns, related sql "%s"' % self.to_sql(expression))
-            table_info = self.parse_table(schema_expression.args["this"], config, arguments)
+            table_info = self.parse_table(schema_expression.args["this"], config, arguments, False)
             for column_expression in schema_expression.args["expressions"]:
                 column_name = column_expression.name
                 if column_name in self.mapping:
@@ -2602,7 +2616,7 @@ class Compiler(object):
         return maybe_parse(" ".join(sql), dialect=CompilerDialect), join_parent_columns, interceptor_expressions
 
 
-    def parse_table(self, expression, config, arguments):
+    def parse_table(self, expression, config, arguments, use_with_table=True):
         db_name = expression.args["db"].name if expression.args.get("db") else None
         if isinstance(expression.args["this"], sqlglot_expressions.Dot):
             def parse(expression):
@@ -2642,7 +2656,10 @@ class Compiler(object):
             if use_output_type not in typing_options:
                 typing_options.append(use_output_type)
 
-        if table_name in ("_", "."):
+        with_table_name = None
+        if not db_name and use_with_table and table_name in self.with_tables:
+            db_name, table_name, with_table_name = "--", self.with_tables[table_name], table_name
+        elif table_name in ("_", "."):
             db_name, table_name = "-", "&1"
         elif table_name in (".txt", ".csv", ".json"):
             format_type = table_name[1:]
@@ -2707,7 +2724,8 @@ class Compiler(object):
         return {
             "db": db_name,
             "name": table_name,
-            "table_name": table_alias if table_alias else ((db_name + "." + table_name if db_name else table_name)),
+            "table_name": table_alias if table_alias else ((db_name + "." + (with_table_name or table_name)
+                                                              if db_name else table_name)),
             "table_alias": table_alias,
             "origin_name": origin_name,
             "typing_options": typing_options,
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index a868442..9d28e5f 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -394,7 +394,8 @@ class QueryTasker(object):
                 self.temporary_memory_manager.use_collection(tasker.loader.name)
 
         if hasattr(tasker.outputer, "name"):
-            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_"):
+            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_") \
+                    or tasker.outputer.name.startswith("--.__withquery_"):
                 self.temporary_memory_manager.add_collection(tasker.outputer.name)
 
         loader_or_outputers = [tasker.loader, tasker.outputer] + list(tasker.join_loaders.values())
-- 
2.43.0


From 9a3328525503b61527cb31b6bd9fc36211f41bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 019/107] fix: window ORDER BY with several keys ignored the
 directions and the later keys

---
 syncanysql/calculaters/__init__.py          |  1 +
 syncanysql/calculaters/window_calculater.py | 23 +++++++++++++++++++++
 syncanysql/compiler.py                      |  6 ++++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 3a6b6ba..b2e351a 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -37,6 +37,7 @@ SQL_CALCULATERS = {
     "group_bit_xor": AggregateGroupBitXorCalculater,
     "json_arrayagg": AggregateJsonArrayaggCalculater,
     "json_objectagg": AggregateJsonObjectaggCalculater,
+    "window_order_key": WindowOrderKeyCalculater,
     "row_number": WindowAggregateRowNumberCalculater,
     "rank": WindowAggregateRankCalculater,
     "dense_rank": WindowAggregateDenseRankCalculater,
diff --git a/syncanysql/calculaters/window_calculater.py b/syncanysql/calculaters/window_calculater.py
index e3ed1f6..afdc411 100644
--- a/syncanysql/calculaters/window_calculater.py
+++ b/syncanysql/calculaters/window_calculater.py
@@ -4,9 +4,32 @@
 
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter
+from syncany.utils import CmpValue
 from ..errors import SyncanySqlExecutorException
 
 
+class WindowOrderKey(tuple):
+    """Values of several ORDER BY keys, compared key by key in the direction of each key"""
+    orders = ()
+
+    def __lt__(self, other):
+        for i in range(len(self)):
+            if self[i] == other[i]:
+                continue
+            return CmpValue(self[i], self.orders[i]) < CmpValue(other[i], self.orders[i])
+        return False
+
+    def __gt__(self, other):
+        return other.__lt__(self)
+
+
+class WindowOrderKeyCalculater(Calculater):
+    def calculate(self, values, orders):
+        order_key = WindowOrderKey(values)
+        order_key.orders = orders
+        return order_key
+
+
 class WindowAggregateCalculater(Calculater):
     def __init__(self, *args, **kwargs):
         super(WindowAggregateCalculater, self).__init__(*args, **kwargs)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b6c0a92..2af5652 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1476,7 +1476,8 @@ class Compiler(object):
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
             partition_calculate = "$.partition_key" if partition_column is not None else None
             if order_column is not None:
-                order_calculate = {"valuer": "$.order_key", "orders": order_column["orders"]}
+                order_calculate = {"valuer": "$.order_key", "orders": order_column["orders"] if len(order_column["orders"]) == 1
+                                   else [["order_key", False]]}
             elif is_window_aggregate_calculate:
                 order_calculate = {"valuer": ["#const", 0], "orders": []}
             else:
@@ -1496,7 +1497,8 @@ class Compiler(object):
                     if len(partition_column) == 1 else ["#make", partition_column, [":@aggregate_key", "$.*"]]
             if order_column is not None:
                 window_aggregate_column[1]["order_key"] = order_column["valuer"][0] \
-                    if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [":@aggregate_key", "$.*"]]
+                    if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [
+                        ":@window_order_key", "$.*", ["#const", [True if desc else False for _, desc in order_column["orders"]]]]]
             if value_column is not None:
                 window_aggregate_column[1]["value"] = value_column[0] if len(value_column) == 1 else ["#make", value_column]
 
-- 
2.43.0


From aed46f08a41241b5e5e4814a744b4383b89f5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 020/107] fix: window functions were computed per batch when
 @batch is set

---
 syncanysql/taskers/query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 9d28e5f..84bbf00 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -120,6 +120,8 @@ class QueryTasker(object):
             dependency_tasker.start(name, executor, session_config, manager, dependency_arguments)
             dependency_taskers.append(dependency_tasker)
 
+        if aggregate and aggregate["window_schema"] and not arguments.get("@streaming"):
+            arguments["@batch"] = 0
         limit, batch = int(arguments.get("@limit", 0)), int(arguments.get("@batch", 0))
         require_reduce = False
         if aggregate and (aggregate.get("schema") or aggregate["window_schema"]):
-- 
2.43.0


From 1d89dabf83851fdf1e74f0072ed72359dccfbe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 021/107] fix: windows with different PARTITION BY keys or
 order directions shared their partitions

---
 syncanysql/compiler.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2af5652..d25ebc3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -4,6 +4,7 @@
 
 import os
 import copy
+import hashlib
 import uuid
 
 import sqlglot.expressions
@@ -1474,10 +1475,14 @@ class Compiler(object):
             value_column = self.compile_window_value(window_expression.args["this"], config, arguments, primary_table,
                                                      join_tables, value_expressions) if value_expressions else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
-            partition_calculate = "$.partition_key" if partition_column is not None else None
+            # windows with the same key names share their partitions, different PARTITION BY expressions must not
+            partition_key = "partition_key_" + hashlib.md5(",".join(
+                [self.generate_sql(key_expression) for key_expression in (partition_expression or [])]).encode("utf-8")).hexdigest()
+            partition_calculate = ("$." + partition_key) if partition_column is not None else None
             if order_column is not None:
-                order_calculate = {"valuer": "$.order_key", "orders": order_column["orders"] if len(order_column["orders"]) == 1
-                                   else [["order_key", False]]}
+                order_calculate = {"valuer": "$.order_key", "orders": order_column["orders"]}
+                if len(order_column["orders"]) > 1:
+                    order_calculate["orders"] = [["order_key_" + hashlib.md5(repr(order_column["orders"]).encode("utf-8")).hexdigest(), False]]
             elif is_window_aggregate_calculate:
                 order_calculate = {"valuer": ["#const", 0], "orders": []}
             else:
@@ -1493,7 +1498,7 @@ class Compiler(object):
                 aggregate_calculate.append([":" + final_calculate, "$.*"])
             window_aggregate_column = ["#make", {}, aggregate_calculate]
             if partition_column is not None:
-                window_aggregate_column[1]["partition_key"] = partition_column[0] \
+                window_aggregate_column[1][partition_key] = partition_column[0] \
                     if len(partition_column) == 1 else ["#make", partition_column, [":@aggregate_key", "$.*"]]
             if order_column is not None:
                 window_aggregate_column[1]["order_key"] = order_column["valuer"][0] \
-- 
2.43.0


From 4bef8cae5537d5333aa9528213bbe4233cf1ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 022/107] fix: columns beside aggregates or window functions in
 an expression were NULL unless selected too

---
 syncanysql/compiler.py      | 29 +++++++++++++++++++++++++++++
 syncanysql/taskers/query.py |  4 +++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d25ebc3..4dde20e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -524,6 +524,8 @@ class Compiler(object):
             window_aggregate_expressions = []
             self.parse_window_aggregate(calculate_expression, config, arguments, window_aggregate_expressions)
             if window_aggregate_expressions:
+                self.compile_hidden_columns(calculate_expression, config, arguments, primary_table,
+                                            window_aggregate_expressions, join_tables)
                 self.compile_window_column(calculate_expression, config, arguments, primary_table, column_alias,
                                            window_aggregate_expressions, join_tables, windows)
                 continue
@@ -531,6 +533,8 @@ class Compiler(object):
             aggregate_expressions = []
             self.parse_aggregate(calculate_expression, config, arguments, aggregate_expressions)
             if aggregate_expressions:
+                self.compile_hidden_columns(calculate_expression, config, arguments, primary_table,
+                                            aggregate_expressions, join_tables)
                 self.compile_aggregate_column(calculate_expression, config, arguments, primary_table, column_alias,
                                               group_expression, aggregate_expressions, join_tables)
                 continue
@@ -733,6 +737,31 @@ class Compiler(object):
             else:
                 primary_table["outputer_primary_keys"] = [column_alias]
 
+    def compile_hidden_columns(self, expression, config, arguments, primary_table, aggregate_expressions, join_tables):
+        # the expression is calculated from the result rows, the columns it uses outside the aggregates have to be in them
+        if "aggregate" not in config:
+            config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
+
+        def compile_hidden_column(child_expression):
+            if any(child_expression is aggregate_expression for aggregate_expression in aggregate_expressions) \
+                    or self.is_subquery(child_expression, config, arguments) or self.is_const(child_expression, config, arguments):
+                return
+            if self.is_column(child_expression, config, arguments):
+                column_info = self.parse_column(child_expression, config, arguments)
+                if not column_info["table_name"] and column_info["column_name"] in config["schema"]:
+                    return
+                column_alias = "__hidden_column_%d__" % id(child_expression)
+                self.compile_select_calculate_column(child_expression, config, arguments, primary_table, column_alias, join_tables, False)
+                primary_table["select_columns"].pop(column_alias, None)
+                config["aggregate"]["hidden_columns"].append(column_alias)
+                setattr(child_expression, "syncany_valuer", "$." + column_alias)
+                return
+            for child_expressions in child_expression.args.values():
+                for item_expression in (child_expressions if isinstance(child_expressions, list) else [child_expressions]):
+                    if isinstance(item_expression, sqlglot_expressions.Expression):
+                        compile_hidden_column(item_expression)
+        compile_hidden_column(expression)
+
     def find_column_join_tables(self, table_names, primary_table, join_tables):
         # the columns of a row have to walk through the same joins, a join they do not share loses its matches
         previous_table_names = []
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 84bbf00..bbb006c 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -16,7 +16,7 @@ from syncany.main import TaskerYieldNext, warp_database_logging
 
 
 DEAULT_AGGREGATE = {"key": None, "schema": {}, "window_schema": {}, "having_columns": set([]),
-                    "distinct_keys": [], "distinct_aggregates": set([])}
+                    "distinct_keys": [], "distinct_aggregates": set([]), "hidden_columns": []}
 
 
 class ReduceHooker(Hooker):
@@ -353,6 +353,8 @@ class QueryTasker(object):
                     for window_aggregate_key in column["aggregate"]:
                         config["schema"].pop(window_aggregate_key, None)
                     config["schema"][key] = column["final_value"]
+            for key in aggregate["hidden_columns"]:
+                config["schema"].pop(key, None)
             config["name"] = config["name"] + "#select@final"
         else:
             config["output"] = config["input"] + " use DI"
-- 
2.43.0


From 996257751f3598d098fb921b58c12e2f8e81c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 023/107] fix: a correlated equality was ignored after another
 condition of the same column

---
 syncanysql/compiler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4dde20e..211ca61 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2582,8 +2582,9 @@ class Compiler(object):
                     parent_column = self.generate_sql(right_condition_column["expression"])
                     column_key = (current_column, parent_column)
                     if column_key in join_parent_columns:
-                        column_alias = join_parent_columns[column_key][1]
-                    else:
+                        return ""
+                    # a column can only be joined to one parent column
+                    if current_column not in [join_current_column for join_current_column, _ in join_parent_columns]:
                         column_alias = "_subquery_join_parent_" + str(id(condition_expression))
                         join_parent_columns[column_key] = {
                             "current_expression": left_condition_column["expression"],
@@ -2592,7 +2593,8 @@ class Compiler(object):
                             "parent_column": right_condition_column,
                             "column_alias": column_alias,
                         }
-                    return current_column + " IN @" + column_alias
+                        join_parent_sqls.append(current_column + " IN @" + column_alias)
+                        return ""
 
             current_join_parent_columns = []
             parse_parent_calculate_condition(condition_expression, current_join_parent_columns)
@@ -2602,7 +2604,8 @@ class Compiler(object):
             interceptor_expressions.append(condition_expression)
             return ""
 
-        join_parent_columns, join_select_columns, interceptor_expressions = {}, {}, []
+        # the join conditions have to be queried by the loader, another condition of the same column may not come before them
+        join_parent_sqls, join_parent_columns, join_select_columns, interceptor_expressions = [], {}, {}, []
         where_sql = parse_where_condition(where_expression.args["this"], join_parent_columns, join_select_columns,
                                           interceptor_expressions)
         if not join_parent_columns and not join_select_columns and not interceptor_expressions:
@@ -2628,8 +2631,9 @@ class Compiler(object):
         if sub_expression.args.get("joins"):
             for join_expression in sub_expression.args["joins"]:
                 sql.append(self.generate_sql(join_expression))
-        if where_sql:
-            sql.append("WHERE " + where_sql)
+        where_sqls = join_parent_sqls + ([where_sql] if where_sql else [])
+        if where_sqls:
+            sql.append("WHERE " + " AND ".join(where_sqls))
         if sub_expression.args.get("group") or has_aggregate_column:
             group_sql = []
             for _, join_parent_column in join_parent_columns.items():
-- 
2.43.0


From ef5fafaf9c2496d5e4a43b0bf684069462712f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 024/107] fix: INSERT checks values and stores them by the
 column list

---
 syncanysql/compiler.py      | 62 ++++++++++++++++++++++++++++++++++---
 syncanysql/taskers/query.py |  8 +++++
 2 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 211ca61..1e9454f 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -331,6 +331,8 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if columns:
+                select_expression = self.rewrite_insert_columns(expression, select_expression, config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
@@ -339,16 +341,27 @@ class Compiler(object):
             values_expression = expression.args["expression"]
             if not values_expression.args.get("expressions"):
                 raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
-            datas = []
+            if not columns:
+                raise SyncanySqlCompileException('unknown insert into columns, related sql "%s"' % self.to_sql(expression))
+            datas, column_types = [], [set([]) for _ in columns]
             for data_expression in values_expression.args["expressions"]:
+                if len(data_expression.args["expressions"]) != len(columns):
+                    raise SyncanySqlCompileException('error insert into values, column count does not match value count, related sql "%s"'
+                                                     % self.to_sql(expression))
                 data = {}
-                for i in range(len(data_expression.args["expressions"])):
+                for i in range(len(columns)):
                     value_expression = data_expression.args["expressions"][i]
+                    if not self.is_const(value_expression, config, arguments):
+                        raise SyncanySqlCompileException('error insert into values, only supports const value, related sql "%s"'
+                                                         % self.to_sql(expression))
                     value = self.parse_const(value_expression, config, arguments)["value"]
-                    if columns[i][1] is None:
-                        columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
+                    column_types[i].add(type(value))
                     data[columns[i][0]] = value
                 datas.append(data)
+            for i in range(len(columns)):
+                if columns[i][1] is None and len(column_types[i]) == 1:
+                    column_type = list(column_types[i])[0]
+                    columns[i][1] = str(column_type.__name__) if issubclass(column_type, (int, float, bool)) else None
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
             config["input"] = "&.--.--::" + columns[0][0]
@@ -357,6 +370,47 @@ class Compiler(object):
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
+    def rewrite_insert_columns(self, expression, select_expression, config, arguments):
+        # the selected columns are stored by position in the columns of the insert list
+        column_expressions = expression.args["this"].args["expressions"]
+        first_select_expression = select_expression
+        while isinstance(first_select_expression, sqlglot_expressions.Union):
+            first_select_expression = first_select_expression.args["this"]
+        select_columns = first_select_expression.args.get("expressions") or []
+        if [column for column in select_columns if isinstance(column, sqlglot_expressions.Star) or column.is_star]:
+            return select_expression
+        if len(select_columns) != len(column_expressions):
+            raise SyncanySqlCompileException('error insert into, column count does not match select column count, related sql "%s"'
+                                             % self.to_sql(expression))
+        column_names = [self.mapping.get(column.name, column.name) for column in column_expressions]
+        select_names = []
+        for column in select_columns:
+            if not isinstance(column, sqlglot_expressions.Alias) and not self.is_column(column, config, arguments):
+                select_names.append(None)
+                continue
+            select_names.append(self.mapping.get(column.alias_or_name, column.alias_or_name))
+        if [name.split("[")[0] for name in column_names] == select_names:
+            return select_expression
+        if config["output"].split(" use ")[-1].upper() in ("DI", "UDI") and select_expression.args.get("where"):
+            raise SyncanySqlCompileException('error insert into, the columns of a where deleting rows must be named as in the insert, related sql "%s"'
+                                             % self.to_sql(expression))
+        for i, column in enumerate(tuple(select_columns)):
+            if select_names[i] is None or select_names[i] in select_names[:i]:
+                column_name = "__insert_column_" + str(i)
+                select_columns[i] = sqlglot_expressions.alias_(column.args["this"] if isinstance(column, sqlglot_expressions.Alias)
+                                                               else column, column_name)
+                select_names[i] = column_name
+            else:
+                select_names[i] = column.alias_or_name
+        first_select_expression.set("expressions", select_columns)
+        select_expression.set("with", None)
+        return sqlglot_expressions.Select(**{
+            "expressions": [sqlglot_expressions.alias_(sqlglot_expressions.column(select_names[i], "insert_values"), column_expressions[i].name)
+                            for i in range(len(select_columns))],
+            "from": sqlglot_expressions.From(expressions=[sqlglot_expressions.Subquery(
+                this=select_expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("insert_values")))])
+        })
+
     def compile_union(self, expression, config, arguments):
         select_expressions = []
         def parse(union_expression):
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index bbb006c..4b0dcbf 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -52,6 +52,12 @@ class ReduceHooker(Hooker):
         self.tasker.run_reduce(self.executor, self.session_config, self.manager, self.arguments, False)
 
 
+class CopyRowsHooker(Hooker):
+    # rows selected by * are the rows of the source itself and must not be shared with the output
+    def loaded(self, tasker, datas):
+        return [dict(data) if isinstance(data, dict) else data for data in datas]
+
+
 class QueryTaskerTemporaryMemoryManager(object):
     def __init__(self):
         self.collections = defaultdict(int)
@@ -145,6 +151,8 @@ class QueryTasker(object):
         tasker = CoreTasker(self.config, manager)
         if "#" not in tasker.config["name"]:
             tasker.config["name"] = tasker.config["name"] + "#select"
+        if tasker.config["schema"] == "$.*":
+            tasker.add_hooker(CopyRowsHooker())
         if self.reduce_config and "_aggregate_key_" in self.reduce_config["schema"]:
             tasker.add_hooker(ReduceHooker(executor, session_config, manager, arguments,
                                            self, copy.deepcopy(self.config), batch, aggregate))
-- 
2.43.0


From 1521214d27fbfee3a4b1a2931747ad674a7f78c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 025/107] fix: quotes in comments hid the following statements

---
 syncanysql/parser.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f2c38af..f42d0e5 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -43,11 +43,11 @@ class SqlParser(object):
                 self.next()
                 continue
             backslash = self.index - 1
-            while backslash >= 0:
+            while c != '`' and backslash > start_index:
                 if self.sql[backslash] != '\\':
                     break
                 backslash -= 1
-            if (self.index - backslash + 1) % 2 != 0:
+            if c != '`' and (self.index - backslash + 1) % 2 != 0:
                 self.next()
                 continue
             self.next()
@@ -55,12 +55,28 @@ class SqlParser(object):
         self.next()
         raise EOFError(self.sql[start_index:])
 
+    def skip_comment(self):
+        if self.sql[self.index] == "#" or self.sql[self.index: self.index + 2] == "--":
+            while self.index < self.len and self.sql[self.index] != "\n":
+                self.next()
+            return True
+        if self.sql[self.index: self.index + 2] == "/*":
+            start_index, end_index = self.index, self.sql.find("*/", self.index + 2)
+            while self.index < (end_index + 2 if end_index >= 0 else self.len):
+                self.next()
+            if end_index < 0:
+                raise EOFError(self.sql[start_index:])
+            return True
+        return False
+
     def read_util(self, cs, escape_chars=('"', "'")):
         start_index = self.index
         while self.index < self.len:
             if self.sql[self.index] in escape_chars:
                 self.skip_escape(self.sql[self.index])
                 continue
+            if escape_chars and self.skip_comment():
+                continue
             if self.sql[self.index: self.index + len(cs)] != cs:
                 self.next()
                 continue
@@ -71,7 +87,7 @@ class SqlParser(object):
         while self.index < self.len:
             self.read_util(c)
             self.next()
-            start_index, end_index, segment = self.read_util(c)
+            start_index, end_index, segment = self.read_util(c, ())
             self.next()
             return start_index, end_index, segment
         raise EOFError()
@@ -87,24 +103,7 @@ class SqlParser(object):
             if self.sql[self.index] in ('`', '"', "'"):
                 self.skip_escape(self.sql[self.index])
                 continue
-            if self.sql[self.index] == "#":
-                try:
-                    self.read_util('\n')
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            segment = self.sql[self.index: self.index + 2]
-            if segment == "--":
-                try:
-                    self.read_util('\n')
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            if segment == "/*":
-                self.read_util("*/")
-                self.next()
+            if self.skip_comment():
                 continue
             if self.sql[self.index] == ';':
                 if start_index is None:
-- 
2.43.0


From 704ac2d25d15c0734e41ca0009f934893cd1fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 026/107] fix: string literals with escaped quotes or latin-1
 letters were misread

---
 syncanysql/compiler.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1e9454f..091af40 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -39,10 +39,29 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         QUOTES = ["'", '"']
         COMMENTS = ["--", "#", ("/*", "*/")]
         IDENTIFIERS = ["`"]
-        ESCAPES = ["'", "\\"]
+        STRING_ESCAPES = ["'", "\\"]
         BIT_STRINGS = [("b'", "'"), ("B'", "'"), ("0b", "")]
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
+        def _extract_string(self, delimiter):
+            # backslash escapes are kept for parse_const, only an escaped or doubled delimiter is resolved here
+            text = []
+            while True:
+                if self._char == "\\" or (self._char == delimiter and self._peek == delimiter):
+                    if self._current + 1 >= self.size:
+                        raise RuntimeError("Missing %s from %s:%s" % (delimiter, self._line, self._start))
+                    text.append(self._peek if self._peek == delimiter else self._char + self._peek)
+                    self._advance(2)
+                    continue
+                if self._chars(len(delimiter)) == delimiter:
+                    if len(delimiter) > 1:
+                        self._advance(len(delimiter) - 1)
+                    return "".join(text)
+                if self._end:
+                    raise RuntimeError("Missing %s from %s:%s" % (delimiter, self._line, self._start))
+                text.append(self._char)
+                self._advance()
+
     class Parser(sqlglot_parser.Parser):
         def _parse_conjunction(self):
             return self._parse_tokens(self._parse_and_conjunction, {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or})
@@ -104,7 +123,6 @@ class CompilerDialect(sqlglot_dialects.Dialect):
 
 
 class Compiler(object):
-    ESCAPE_CHARS = ['\\\\a', '\\\\b', '\\\\f', '\\\\n', '\\\\r', '\\\\t', '\\\\v', '\\\\0']
     TYPE_FILTERS = {"int": "int", "float": "float", "str": "str", "string": "str", "bytes": "bytes", 'bool': 'bool', 'array': 'array', 'set': 'set',
                    'map': 'map', "objectid": "objectid", "uuid": "uuid", "datetime": "datetime", "date": "date", "time": "time",
                    "char": "str", "varchar": "str", "nchar": "str", "text": "str", "mediumtext": "str", "tinytext": "str",
@@ -119,12 +137,8 @@ class Compiler(object):
         self.with_tables = {}
 
     def compile(self, sql, arguments):
-        escape_sql = sql
-        if sql[:4].lower() not in ("set ", "use ") and "\\\\" in sql:
-            for escape_char in self.ESCAPE_CHARS:
-                escape_sql = escape_sql.replace(escape_char, "\\\\\\" + escape_char)
         try:
-            expression = maybe_parse(self.parse_mapping(escape_sql), dialect=CompilerDialect)
+            expression = maybe_parse(self.parse_mapping(sql), dialect=CompilerDialect)
             return self.compile_expression(expression, arguments)
         except ParseError as e:
             if not e.errors:
@@ -2904,7 +2918,7 @@ class Compiler(object):
                 try:
                     escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
                     for c in value:
-                        if ord(c) <= 256:
+                        if ord(c) < 128:
                             escape_chars.append(c)
                             continue
                         if escape_chars:
-- 
2.43.0


From dd2813320683f683f207ccde3bebe32c9edca8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 027/107] fix: negated hex, bit literals and variables kept
 their sign

---
 syncanysql/compiler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 091af40..06b6888 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2911,8 +2911,6 @@ class Compiler(object):
             value = expression.args["this"]
             if expression.is_number:
                 value = int(value) if expression.is_int else float(value)
-                if is_neg:
-                    value = -value
                 typing_filter = "int" if expression.is_int else "float"
             elif isinstance(value, str):
                 try:
@@ -2933,7 +2931,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Boolean):
             value = expression.args["this"]
             typing_filter = "bool"
-        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.HexString)):
+        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.BitString)):
             value, typing_filter = int(expression.args["this"]), "int"
         elif isinstance(expression, sqlglot_expressions.Parameter):
             name = expression.args["this"].args["this"]
@@ -2948,6 +2946,10 @@ class Compiler(object):
             value_getter = ["@current_env_variable::get_value", ["#const", "@" + name]]
         else:
             value = None
+        if is_neg and isinstance(value, NumberTypes):
+            value = -value
+        if is_neg and value_getter:
+            value_getter = ["@neg", value_getter]
         return {
             "value": value,
             "value_getter": value_getter,
-- 
2.43.0


From 3f2b6bf1bbe744a9657de46a0df54c6557dda45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 028/107] fix: INNER JOIN on quoted column names produced
 broken SQL

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 06b6888..593bf91 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3341,7 +3341,7 @@ class Compiler(object):
             if join_expression.args.get("on"):
                 sql.append("ON " + self.generate_sql(join_expression.args["on"]))
 
-        inner_condition_sql = " AND ".join(["%s.%s IS NOT NULL" % (calculate_field["table_name"], calculate_field["column_name"])
+        inner_condition_sql = " AND ".join(["%s IS NOT NULL" % self.generate_sql(calculate_field["expression"])
                                             for calculate_field in inner_calculate_fields])
         if expression.args.get("where"):
             if isinstance(expression.args["where"].args["this"], sqlglot_expressions.Or):
-- 
2.43.0


From 642841674509d30b7ffcd882a3bd22c770185415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 029/107] fix: escaped quotes of the other kind broke rewritten
 joins

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 593bf91..efbde02 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -44,13 +44,13 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
         def _extract_string(self, delimiter):
-            # backslash escapes are kept for parse_const, only an escaped or doubled delimiter is resolved here
+            # backslash escapes are kept for parse_const, only escaped quotes and doubled delimiters are resolved here
             text = []
             while True:
                 if self._char == "\\" or (self._char == delimiter and self._peek == delimiter):
                     if self._current + 1 >= self.size:
                         raise RuntimeError("Missing %s from %s:%s" % (delimiter, self._line, self._start))
-                    text.append(self._peek if self._peek == delimiter else self._char + self._peek)
+                    text.append(self._peek if self._peek in self._QUOTES else self._char + self._peek)
                     self._advance(2)
                     continue
                 if self._chars(len(delimiter)) == delimiter:
-- 
2.43.0


From a25e0726ff1e2d47042a1e1f7c9b5aa330a2ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 030/107] fix: statements after a failed one ran with the next
 execute

---
 syncanysql/__init__.py | 10 ++++++++--
 syncanysql/executor.py |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index cac1494..1b4393b 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -5,6 +5,7 @@
 from .version import version, version_info
 
 import threading
+from collections import deque
 from syncany.loaders import Loader, register_loader
 from syncany.outputers import Outputer, register_outputer
 from syncany.valuers import Valuer, register_valuer
@@ -55,8 +56,13 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
-            executor.run("execute[%d]" % self._execute_index, sqls)
-            executor.execute()
+            # statements of an interrupted or surrounding execute are not part of this one
+            runners, executor.runners = executor.runners, deque()
+            try:
+                executor.run("execute[%d]" % self._execute_index, sqls)
+                executor.execute()
+            finally:
+                executor.runners = runners
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 84f3af6..aa4342b 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -169,12 +169,13 @@ class Executor(object):
 
     def execute(self):
         self._thread_local.current_executor = self
+        current_tasker = self.tasker
         while self.runners:
             self.tasker = self.runners.popleft()
             try:
                 self.tasker.run(self, self.session_config, self.manager)
             finally:
-                self.tasker = None
+                self.tasker = current_tasker
 
     def terminate(self):
         if not self.tasker:
-- 
2.43.0


From 0768ffe80bd34c147bc9ea33f619e880e38d7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 031/107] fix: SELECT INTO and correlated subqueries of reduced
 aggregates read and left a temporary collection

---
 syncanysql/calculaters/query_tasker_calculater.py | 15 ++++++++-------
 syncanysql/taskers/into.py                        | 10 ++++++----
 syncanysql/taskers/query.py                       |  7 +++++++
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/syncanysql/calculaters/query_tasker_calculater.py b/syncanysql/calculaters/query_tasker_calculater.py
index 1c4706a..e0a69ed 100644
--- a/syncanysql/calculaters/query_tasker_calculater.py
+++ b/syncanysql/calculaters/query_tasker_calculater.py
@@ -44,13 +44,14 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
                         if not key or not isinstance(key, str):
                             continue
                         executor.env_variables["@" + key] = value
-                database, collection_name = self.tasker.tasker.outputer.db, self.tasker.tasker.outputer.name
-                executor.execute()
-                query = database.query(collection_name, ["id"])
-                datas = query.commit()
-                delete = database.delete(collection_name, ["id"])
-                delete.commit()
-                return datas
+                database, collection_name = self.tasker.tasker.outputer.db, self.tasker.output_name
+                try:
+                    executor.execute()
+                    query = database.query(collection_name, ["id"])
+                    return query.commit()
+                finally:
+                    delete = database.delete(collection_name, ["id"])
+                    delete.commit()
         finally:
             self.executor, self.tasker = None, None
             _thread_local.current_tasker = current_tasker
diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7ee101d..644508c 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -19,19 +19,18 @@ class IntoTasker(object):
         return [self]
 
     def run(self, executor, session_config, manager):
+        database, name = None, None
         try:
             core_tasker = self.tasker.tasker
             if not core_tasker:
                 return 1
             database = core_tasker.outputer.db
-            name = core_tasker.outputer.name
-            schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
+            name = self.tasker.output_name
             self.tasker.run(executor, session_config, manager)
+            schema_keys = self.tasker.output_keys
 
             query = database.query(name, ["id"])
             datas = query.commit()
-            delete = database.delete(name, ["id"])
-            delete.commit()
 
             if not schema_keys:
                 value = datas[0] if len(datas) == 1 else datas
@@ -66,6 +65,9 @@ class IntoTasker(object):
                         executor.env_variables[self.config["variables"][i]] = [v[schema_keys[i]] for v in value]
         finally:
             self.tasker = None
+            if database is not None:
+                delete = database.delete(name, ["id"])
+                delete.commit()
 
     def terminate(self):
         if not self.tasker:
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 4b0dcbf..6412ce6 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -96,6 +96,8 @@ class QueryTasker(object):
         self.sql_expression = sql_expression
         self.reduce_config = None
         self.tasker = None
+        self.output_name = ""
+        self.output_keys = None
         self.dependency_taskers = []
         self.arguments = None
         self.tasker_generator = None
@@ -106,6 +108,8 @@ class QueryTasker(object):
         self.tasker_index = 0
 
     def start(self, name, executor, session_config, manager, arguments):
+        # batches and aggregates write to a temporary collection first, the rows always end up in this one
+        self.output_name = self.config["output"].split("&.")[-1].split("::")[0]
         dependency_taskers, aggregate = [], self.config.pop("aggregate", None)
         if aggregate and aggregate.get("distinct_keys"):
             self.config, distinct_config = self.compile_distinct_config(aggregate), self.config
@@ -158,6 +162,7 @@ class QueryTasker(object):
                                            self, copy.deepcopy(self.config), batch, aggregate))
         arguments = self.compile_tasker(arguments, tasker)
         self.tasker, self.dependency_taskers, self.arguments = tasker, dependency_taskers, arguments
+        self.output_keys = tuple(tasker.schema.keys()) if isinstance(tasker.schema, dict) else None
         return [self]
 
     def run(self, executor, session_config, manager):
@@ -371,6 +376,8 @@ class QueryTasker(object):
             config["pipelines"] = []
 
         tasker = CoreTasker(config, manager)
+        if final_reduce:
+            self.output_keys = tuple(config["schema"].keys())
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
         self.compile_tasker(arguments, tasker)
-- 
2.43.0


From 8d2ffc559f09f76bca140ef2564db01a58227418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 032/107] fix: correlated subqueries with an expression of
 aggregates mixed the outer rows

---
 syncanysql/compiler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index efbde02..5350cec 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2687,9 +2687,12 @@ class Compiler(object):
         for select_expression in sub_expression.args["expressions"]:
             select_sql.append(self.generate_sql(select_expression))
             if not has_aggregate_column:
-                has_aggregate_column = self.is_aggregate(select_expression.args["this"] if isinstance(select_expression,
-                                                                                         sqlglot_expressions.Alias) else select_expression,
-                                                         config, arguments)
+                aggregate_expressions, window_aggregate_expressions = [], []
+                column_expression = select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias) else select_expression
+                self.parse_window_aggregate(column_expression, config, arguments, window_aggregate_expressions)
+                if not window_aggregate_expressions:
+                    self.parse_aggregate(column_expression, config, arguments, aggregate_expressions)
+                has_aggregate_column = bool(aggregate_expressions)
         for _, join_parent_column in join_parent_columns.items():
             select_sql.append(self.generate_sql(join_parent_column["current_expression"]) + " AS " + join_parent_column["column_alias"])
         for _, join_select_column in join_select_columns.items():
-- 
2.43.0


From a6b62dc6bcbb714a40e75d8db547351c215824b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 033/107] fix: UNION matched columns by sorted names, kept
 duplicates and misapplied ORDER BY and LIMIT

---
 syncanysql/compiler.py | 181 ++++++++++++++++++++++++++++++++---------
 1 file changed, 143 insertions(+), 38 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5350cec..96b20cf 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -133,10 +133,13 @@ class Compiler(object):
         self.config = config
         self.env_variables = env_variables
         self.name = name
+        self.sql = ""
         self.mapping = {}
         self.with_tables = {}
+        self.recursive_tables = []
 
     def compile(self, sql, arguments):
+        self.sql = sql
         try:
             expression = maybe_parse(self.parse_mapping(sql), dialect=CompilerDialect)
             return self.compile_expression(expression, arguments)
@@ -248,6 +251,8 @@ class Compiler(object):
         try:
             if expression.args.get("with"):
                 self.compile_with(expression.args.get("with"), config, arguments)
+            if isinstance(expression, sqlglot_expressions.Union):
+                expression = self.rewrite_union(expression, config, arguments)
             if isinstance(expression, sqlglot_expressions.Union):
                 self.compile_union(expression, config, arguments)
             elif isinstance(expression, sqlglot_expressions.Insert):
@@ -271,8 +276,13 @@ class Compiler(object):
             with_name = "__withquery_" + str(uuid.uuid1().int) + "_" + table_name
             if expression.args.get("recursive"):
                 self.with_tables[table_name] = with_name
+                self.recursive_tables.append(table_name)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
-            subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            try:
+                subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            finally:
+                if expression.args.get("recursive"):
+                    self.recursive_tables.pop()
             subquery_config["output"] = "&.--." + with_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + with_name[2:] + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -347,6 +357,8 @@ class Compiler(object):
             select_expression = expression.args["expression"]
             if columns:
                 select_expression = self.rewrite_insert_columns(expression, select_expression, config, arguments)
+            if isinstance(select_expression, sqlglot_expressions.Union):
+                select_expression = self.rewrite_union(select_expression, config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
@@ -387,59 +399,161 @@ class Compiler(object):
     def rewrite_insert_columns(self, expression, select_expression, config, arguments):
         # the selected columns are stored by position in the columns of the insert list
         column_expressions = expression.args["this"].args["expressions"]
-        first_select_expression = select_expression
-        while isinstance(first_select_expression, sqlglot_expressions.Union):
-            first_select_expression = first_select_expression.args["this"]
-        select_columns = first_select_expression.args.get("expressions") or []
-        if [column for column in select_columns if isinstance(column, sqlglot_expressions.Star) or column.is_star]:
+        select_names = self.parse_select_names(select_expression, config, arguments)
+        if select_names is None:
             return select_expression
-        if len(select_columns) != len(column_expressions):
+        if len(select_names) != len(column_expressions):
             raise SyncanySqlCompileException('error insert into, column count does not match select column count, related sql "%s"'
                                              % self.to_sql(expression))
         column_names = [self.mapping.get(column.name, column.name) for column in column_expressions]
-        select_names = []
-        for column in select_columns:
-            if not isinstance(column, sqlglot_expressions.Alias) and not self.is_column(column, config, arguments):
-                select_names.append(None)
-                continue
-            select_names.append(self.mapping.get(column.alias_or_name, column.alias_or_name))
         if [name.split("[")[0] for name in column_names] == select_names:
             return select_expression
         if config["output"].split(" use ")[-1].upper() in ("DI", "UDI") and select_expression.args.get("where"):
             raise SyncanySqlCompileException('error insert into, the columns of a where deleting rows must be named as in the insert, related sql "%s"'
                                              % self.to_sql(expression))
+        return self.rewrite_select_names(select_expression, select_names, [column.name for column in column_expressions], config, arguments)
+
+    def parse_first_select(self, expression):
+        while isinstance(expression, (sqlglot_expressions.Union, sqlglot_expressions.Subquery)):
+            expression = expression.args["this"]
+        return expression
+
+    def parse_select_names(self, expression, config, arguments):
+        select_names = []
+        for column in self.parse_first_select(expression).args.get("expressions") or []:
+            if isinstance(column, sqlglot_expressions.Star) or column.is_star:
+                return None
+            if not isinstance(column, sqlglot_expressions.Alias) and not self.is_column(column, config, arguments):
+                select_names.append(None)
+                continue
+            select_names.append(self.mapping.get(column.alias_or_name, column.alias_or_name))
+        return select_names
+
+    def rewrite_select_names(self, expression, select_names, column_names, config, arguments):
+        first_select_expression, select_names = self.parse_first_select(expression), list(select_names)
+        select_columns = first_select_expression.args["expressions"]
         for i, column in enumerate(tuple(select_columns)):
             if select_names[i] is None or select_names[i] in select_names[:i]:
-                column_name = "__insert_column_" + str(i)
+                column_name = "__select_column_" + str(i)
                 select_columns[i] = sqlglot_expressions.alias_(column.args["this"] if isinstance(column, sqlglot_expressions.Alias)
                                                                else column, column_name)
                 select_names[i] = column_name
             else:
                 select_names[i] = column.alias_or_name
         first_select_expression.set("expressions", select_columns)
-        select_expression.set("with", None)
+        expression.set("with", None)
         return sqlglot_expressions.Select(**{
-            "expressions": [sqlglot_expressions.alias_(sqlglot_expressions.column(select_names[i], "insert_values"), column_expressions[i].name)
+            "expressions": [sqlglot_expressions.alias_(sqlglot_expressions.column(select_names[i], "select_values"), column_names[i])
                             for i in range(len(select_columns))],
             "from": sqlglot_expressions.From(expressions=[sqlglot_expressions.Subquery(
-                this=select_expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("insert_values")))])
+                this=expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("select_values")))])
         })
 
+    def rewrite_union(self, expression, config, arguments):
+        # columns are matched by position, an UNION without ALL removes the duplicates of everything before it
+        # and a trailing ORDER BY or LIMIT is that of the whole union
+        select_expressions, distincts, modifiers = [], [], {}
+
+        def parse(union_expression, distinct):
+            if isinstance(union_expression, sqlglot_expressions.Union):
+                if isinstance(union_expression, (sqlglot_expressions.Except, sqlglot_expressions.Intersect)):
+                    raise SyncanySqlCompileException('unknown %s, related sql "%s"' % (union_expression.key, self.to_sql(expression)))
+                parse(union_expression.args["this"], distinct)
+                parse(union_expression.args["expression"], bool(union_expression.args.get("distinct")))
+                modifiers.update({key: union_expression.args[key] for key in ("order", "limit", "offset") if union_expression.args.get(key)})
+                return
+            while isinstance(union_expression, sqlglot_expressions.Subquery) and not union_expression.args.get("alias"):
+                union_expression = union_expression.args["this"]
+            if not isinstance(union_expression, (sqlglot_expressions.Select, sqlglot_expressions.Union)):
+                raise SyncanySqlCompileException('unknown union, related sql "%s"' % self.to_sql(expression))
+            if isinstance(union_expression, sqlglot_expressions.Union):
+                union_expression = self.rewrite_union(union_expression, config, arguments)
+            select_expressions.append(union_expression)
+            distincts.append(distinct)
+        parse(expression, False)
+
+        # the selects of a recursive table have to read and write that table themselves
+        recursive = [select_expression for select_expression in select_expressions
+                     if self.is_recursive_select(select_expression)]
+        last_expression = expression
+        while isinstance(last_expression, sqlglot_expressions.Union):
+            last_expression = last_expression.args["expression"]
+        if isinstance(last_expression, sqlglot_expressions.Select) and not recursive:
+            for key in ("order", "limit", "offset"):
+                if last_expression.args.get(key):
+                    modifiers[key] = last_expression.args[key]
+                    last_expression.set(key, None)
+
+        names, column_names = self.parse_select_names(select_expressions[0], config, arguments), None
+        if names is not None:
+            column_names = [column.alias_or_name if names[i] is not None else self.generate_sql(column)
+                            for i, column in enumerate(self.parse_first_select(select_expressions[0]).args["expressions"])]
+            for i in range(1, len(select_expressions)):
+                select_names = self.parse_select_names(select_expressions[i], config, arguments)
+                if select_names is None:
+                    continue
+                if len(select_names) != len(names):
+                    raise SyncanySqlCompileException('error union, the selects have a different number of columns, related sql "%s"'
+                                                     % self.to_sql(expression))
+                if select_names == names and None not in names:
+                    continue
+                if recursive:
+                    select_expressions[i].set("expressions", [
+                        sqlglot_expressions.alias_(column.args["this"] if isinstance(column, sqlglot_expressions.Alias) else column, column_names[j])
+                        for j, column in enumerate(select_expressions[i].args["expressions"])])
+                else:
+                    select_expressions[i] = self.rewrite_select_names(select_expressions[i], select_names, column_names, config, arguments)
+
+        def union_all(expressions):
+            union_expression = expressions[0]
+            for select_expression in expressions[1:]:
+                union_expression = sqlglot_expressions.Union(this=union_expression, distinct=False,
+                                                             expression=sqlglot_expressions.Subquery(this=select_expression))
+            return union_expression
+
+        def select(union_expression, **kwargs):
+            return sqlglot_expressions.Select(**dict({
+                "expressions": [sqlglot_expressions.Star()] if column_names is None else
+                               [sqlglot_expressions.alias_(sqlglot_expressions.column(column_name, "union_values"), column_name)
+                                for column_name in column_names],
+                "from": sqlglot_expressions.From(expressions=[sqlglot_expressions.Subquery(
+                    this=union_expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("union_values")))])
+            }, **kwargs))
+
+        if recursive:
+            return union_all(select_expressions)
+        if True in distincts and column_names is not None:
+            index = len(distincts) - distincts[::-1].index(True)
+            distinct_expression = select(union_all(select_expressions[:index]), distinct=sqlglot_expressions.Distinct())
+            if index >= len(select_expressions):
+                return self.set_modifiers(distinct_expression, modifiers)
+            select_expressions[:index] = [distinct_expression]
+        union_expression = union_all(select_expressions)
+        if modifiers:
+            return self.set_modifiers(select(union_expression), modifiers)
+        return union_expression
+
+    def is_recursive_select(self, expression):
+        from_expression = expression.args.get("from")
+        if not from_expression or not isinstance(from_expression.expressions[0], sqlglot_expressions.Table):
+            return False
+        table_name = from_expression.expressions[0].name
+        return self.mapping.get(table_name, table_name) in self.recursive_tables
+
+    def set_modifiers(self, expression, modifiers):
+        for key, value in modifiers.items():
+            expression.set(key, value)
+        return expression
+
     def compile_union(self, expression, config, arguments):
-        select_expressions = []
-        def parse(union_expression):
-            if isinstance(union_expression.args["this"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["this"])
-            else:
-                parse(union_expression.args["this"])
-            if isinstance(union_expression.args["expression"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["expression"])
-            else:
-                parse(union_expression.args["expression"])
-        parse(expression)
+        select_expressions, union_expression = [], expression
+        while isinstance(union_expression, sqlglot_expressions.Union):
+            select_expressions.insert(0, union_expression.args["expression"].args["this"])
+            union_expression = union_expression.args["this"]
+        select_expressions.insert(0, union_expression)
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
-        union_column_names, output_primary_key, output_type = None, None, "I"
+        output_primary_key, output_type = None, "I"
         for select_expression in select_expressions:
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
@@ -453,15 +567,6 @@ class Compiler(object):
                     config["schema"] = {}
                 for name in subquery_config["schema"]:
                     config["schema"][name] = "$." + name
-            if isinstance(subquery_config["schema"], dict):
-                if union_column_names is None:
-                    union_column_names = sorted(list(subquery_config["schema"].keys()))
-                else:
-                    subquery_column_names = sorted(list(subquery_config["schema"].keys()))
-                    for i in range(min(len(union_column_names), len(subquery_column_names))):
-                        if union_column_names[i] == subquery_column_names[i]:
-                            continue
-                        subquery_config["schema"][union_column_names[i]] = subquery_config["schema"][subquery_column_names[i]]
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
-- 
2.43.0


From 415f1abee46bf19ad006e671e4b64c8682b4c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 034/107] fix: string constants of SET kept their escapes and
 lost their outer spaces

---
 syncanysql/compiler.py    | 28 ++++++++++++++++++++++++----
 syncanysql/taskers/set.py |  5 ++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 96b20cf..c4c8151 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3,6 +3,7 @@
 # create by: snower
 
 import os
+import re
 import copy
 import hashlib
 import uuid
@@ -29,6 +30,8 @@ from .taskers.execute import ExecuteTasker
 from .taskers.use import UseCommandTasker
 from .taskers.show import ShowCommandTasker
 
+RAW_SET_VALUE_RE = re.compile(r"""^\s*(?:explain\s+)?set\s+[^=]*=\s*('''|\"\"\")(.*)$""", re.DOTALL | re.I)
+
 
 class AssignParameter(sqlglot_expressions.Parameter):
     arg_types = {"this": True, "expression": False, "wrapped": False}
@@ -177,8 +180,7 @@ class Compiler(object):
                     value = expression.args["expression"].split("=")
                 else:
                     value = self.parse_const(expression.args["expression"], {}, arguments)["value"].split("=")
-                config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
-                return SetCommandTasker(config)
+                return SetCommandTasker(self.compile_set(value[0].strip(), "=".join(value[1:]).strip()))
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
                 filename = self.parse_const(expression.args["expression"], {}, arguments)["value"]
                 if filename and filename[0] == '`':
@@ -197,10 +199,28 @@ class Compiler(object):
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
                 value = self.generate_sql(set_item_expression).split("=")
-                config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
-                return SetCommandTasker(config)
+                return SetCommandTasker(self.compile_set(value[0].strip(), "=".join(value[1:]).strip(),
+                                                         set_item_expression.args["this"].args["expression"]))
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
+    def compile_set(self, key, value, value_expression=None):
+        config = {"key": key, "value": value}
+        if value[:1] not in ("'", '"'):
+            return config
+        raw_value = RAW_SET_VALUE_RE.match(self.sql)
+        if raw_value and raw_value.group(2).rstrip(" \t\r\n;").endswith(raw_value.group(1)):
+            return config
+        if value_expression is None:
+            try:
+                value_expression = maybe_parse(value, dialect=CompilerDialect)
+            except ParseError:
+                return config
+        if isinstance(value_expression, sqlglot_expressions.Literal):
+            config["const"] = self.parse_const(value_expression, config, {})["value"]
+        else:
+            config["calculate"] = True
+        return config
+
     def compile_delete(self, expression, arguments):
         config = self.config.create_tasker_config()
         config.update({
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..b580843 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -19,7 +19,10 @@ class SetCommandTasker(object):
             self.set_config(session_config, key[8:].strip(), is_global)
         else:
             try:
-                self.set_env_variable(executor, key, self.parse_value(self.config["value"].strip()), is_global)
+                if self.config.get("calculate"):
+                    raise ValueError("unknown value: %s" % self.config["value"])
+                value = self.config["const"] if "const" in self.config else self.parse_value(self.config["value"].strip())
+                self.set_env_variable(executor, key, value, is_global)
             except ValueError as e:
                 if key[:1] == "@":
                     try:
-- 
2.43.0


From 50833a9b0d74c2f153a76b4e528a3447ff042eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 035/107] fix: INSERT VALUES used the value a variable had when
 the script was compiled

---
 syncanysql/compiler.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c4c8151..040f64a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -389,7 +389,7 @@ class Compiler(object):
                 raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
             if not columns:
                 raise SyncanySqlCompileException('unknown insert into columns, related sql "%s"' % self.to_sql(expression))
-            datas, column_types = [], [set([]) for _ in columns]
+            datas, column_types, variable_columns = [], [set([]) for _ in columns], {}
             for data_expression in values_expression.args["expressions"]:
                 if len(data_expression.args["expressions"]) != len(columns):
                     raise SyncanySqlCompileException('error insert into values, column count does not match value count, related sql "%s"'
@@ -400,7 +400,13 @@ class Compiler(object):
                     if not self.is_const(value_expression, config, arguments):
                         raise SyncanySqlCompileException('error insert into values, only supports const value, related sql "%s"'
                                                          % self.to_sql(expression))
-                    value = self.parse_const(value_expression, config, arguments)["value"]
+                    const_info = self.parse_const(value_expression, config, arguments)
+                    value = const_info["value"]
+                    if const_info["value_getter"]:
+                        # the variable has its value when the statement runs
+                        value, variable_getters = None, variable_columns.setdefault(i, [])
+                        data["__variable_%d" % i] = len(variable_getters)
+                        variable_getters.append(const_info["value_getter"])
                     column_types[i].add(type(value))
                     data[columns[i][0]] = value
                 datas.append(data)
@@ -410,6 +416,13 @@ class Compiler(object):
                     columns[i][1] = str(column_type.__name__) if issubclass(column_type, (int, float, bool)) else None
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
+            for i, variable_getters in variable_columns.items():
+                column_name, column_type = columns[i]
+                for j, variable_getter in enumerate(variable_getters):
+                    if column_type:
+                        variable_getter = ["#if", ["#const", 1], variable_getter, None, ":$.*|" + column_type]
+                    config["schema"][column_name] = ["#if", ["@mysql::eq", "$.__variable_%d" % i, ["#const", j]],
+                                                     variable_getter, config["schema"][column_name]]
             config["input"] = "&.--.--::" + columns[0][0]
             config["loader"] = "const_loader"
             config["loader_arguments"] = {"datas": datas}
-- 
2.43.0


From b5ece53ce144af3b4c7e1eee06329d65e7718a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 036/107] fix: ${} did not find variables with capital letters
 and searched the text of values again

---
 syncanysql/executor.py | 47 +++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index aa4342b..26ad519 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -102,11 +102,31 @@ class Executor(object):
                                           else self.global_env_variables)
 
     def compile_variable(self, sql):
-        variables = ENV_VARIABLE_RE.findall(sql)
-        for variable, default_value in variables:
+        def format_variable_value(value):
+            if value is True:
+                return "true"
+            if value is False:
+                return "false"
+            if value is None:
+                return "null"
+            if isinstance(value, datetime.date):
+                if isinstance(value, datetime.datetime):
+                    return value.strftime(self.session_config.get().get("datetime_format", "%Y-%m-%d %H:%M:%S"))
+                return value.strftime(self.session_config.get().get("date_format", "%Y-%m-%d"))
+            if isinstance(value, datetime.time):
+                return value.strftime(self.session_config.get().get("time_format", "%H:%M:%S"))
+            if isinstance(value, SequenceTypes):
+                return "(" + ",".join([format_variable_value(v) for v in value]) + ")"
+            return str(value)
+
+        def replace_variable(match):
+            variable, default_value = match.group(1), match.group(2) or ""
             variable_name = variable[2:-1].split(":")[0]
             try:
-                variable_value = self.env_variables.get_value(variable_name.lower())
+                try:
+                    variable_value = self.env_variables.get_value(variable_name)
+                except KeyError:
+                    variable_value = self.env_variables.get_value(variable_name.lower())
             except KeyError:
                 try:
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
@@ -119,25 +139,10 @@ class Executor(object):
                     variable_value = StringFilter().filter(variable_value)
                 except Exception as e:
                     variable_value = default_value[1:]
+            return format_variable_value(variable_value)
 
-            def format_variable_value(value):
-                if value is True:
-                    return "true"
-                if value is False:
-                    return "false"
-                if value is None:
-                    return "null"
-                if isinstance(value, datetime.date):
-                    if isinstance(value, datetime.datetime):
-                        return value.strftime(self.session_config.get().get("datetime_format", "%Y-%m-%d %H:%M:%S"))
-                    return value.strftime(self.session_config.get().get("date_format", "%Y-%m-%d"))
-                if isinstance(value, datetime.time):
-                    return value.strftime(self.session_config.get().get("time_format", "%H:%M:%S"))
-                if isinstance(value, SequenceTypes):
-                    return "(" + ",".join([format_variable_value(v) for v in value]) + ")"
-                return str(value)
-            sql = sql.replace(variable, format_variable_value(variable_value))
-        return sql
+        # the text of a value is not searched for variables again
+        return ENV_VARIABLE_RE.sub(replace_variable, sql)
 
     def run(self, name, sqls):
         self._thread_local.current_executor = self
-- 
2.43.0


From 594734e0502fa3048316c476ca536c99ffd5dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 037/107] fix: SELECT INTO in a child session hid or kept the
 value of the parent session

---
 syncanysql/taskers/into.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 644508c..5f98e1a 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -10,9 +10,10 @@ class IntoTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
-            if variable in executor.env_variables:
-                continue
-            executor.env_variables[variable] = None
+            try:
+                executor.env_variables.get_value(variable)
+            except KeyError:
+                executor.env_variables[variable] = None
         self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
@@ -48,16 +49,11 @@ class IntoTasker(object):
                     value = [{key: data.get(key) for key in schema_keys} for data in datas]
 
             if len(self.config["variables"]) == 1:
-                if value is None:
-                    if self.config["variables"][0] in executor.env_variables:
-                        executor.env_variables[self.config["variables"][0]] = None
-                else:
-                    executor.env_variables[self.config["variables"][0]] = value
+                executor.env_variables[self.config["variables"][0]] = value
             else:
                 for i in range(len(self.config["variables"])):
                     if i >= len(schema_keys):
-                        if self.config["variables"][i] in executor.env_variables:
-                            executor.env_variables[self.config["variables"][i]] = None
+                        executor.env_variables[self.config["variables"][i]] = None
                         continue
                     if isinstance(value, dict):
                         executor.env_variables[self.config["variables"][i]] = value[schema_keys[i]]
-- 
2.43.0


From 1c1a1ee0925a3038b60e1735136d03a9432e718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 038/107] fix: a column calculated from window functions moved
 to the end of the result

---
 syncanysql/taskers/query.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 6412ce6..d9f7309 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -363,9 +363,13 @@ class QueryTasker(object):
                     config["schema"][key] = "$." + key
             for key, column in aggregate["window_schema"].items():
                 if isinstance(column["aggregate"], dict):
-                    for window_aggregate_key in column["aggregate"]:
-                        config["schema"].pop(window_aggregate_key, None)
-                    config["schema"][key] = column["final_value"]
+                    # the column stands where its aggregates stood
+                    schema, config["schema"] = config["schema"], {}
+                    for schema_key, schema_value in schema.items():
+                        if schema_key in column["aggregate"]:
+                            config["schema"][key] = column["final_value"]
+                        else:
+                            config["schema"][schema_key] = schema_value
             for key in aggregate["hidden_columns"]:
                 config["schema"].pop(key, None)
             config["name"] = config["name"] + "#select@final"
-- 
2.43.0


From 309370b93926b4a014ec2e5c7294f13ab005d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 039/107] fix: a script executed by a function of a query left
 the query in the wrong session

---
 syncanysql/executor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 26ad519..691bcfc 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -88,7 +88,7 @@ class Executor(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executor
+        return getattr(cls._thread_local, "current_executor", None)
 
     def __init__(self, manager, session_config, parent_executor=None):
         self.manager = manager
@@ -210,11 +210,15 @@ class Executor(object):
             database.close()
 
     def __enter__(self):
+        # an executor may be entered while another one, or itself, is executing
+        self._thread_local.entered_executors = (getattr(self._thread_local, "entered_executors", ())
+                                                + (Executor.current(),))
         self._thread_local.current_executor = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executor = self.parent_executor
+        *entered_executors, self._thread_local.current_executor = self._thread_local.entered_executors
+        self._thread_local.entered_executors = tuple(entered_executors)
 
     def distribute_tasker_index(self):
         if self.parent_executor is not None:
-- 
2.43.0


From 36bff319b5e859a1dbe829380d6c01f4beb743b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 040/107] fix: sessions kept outdated settings, copied imported
 functions and lost settings when threads merged them

---
 syncanysql/config.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8fd3fa3..7508d21 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -295,23 +295,35 @@ class SessionConfig(GlobalConfig):
         self.global_config = global_config
         self.parent_config = parent_config
         self.merged_config = None
+        self.merged_parent_config = None
         self.tasker_extend_config = None
 
     def get(self):
-        if self.merged_config is None:
-            session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
-            try:
-                self.merge_config(copy.deepcopy(self.parent_config.get()))
-                self.merge_config(copy.deepcopy(session_config))
-            finally:
-                self.merged_config, self.config = self.config, session_config
-        return self.merged_config
+        parent_merged_config = self.parent_config.get()
+        merged_config, merged_parent_config = self.merged_config, self.merged_parent_config
+        if merged_config is None or merged_parent_config is not parent_merged_config:
+            merged = GlobalConfig()
+            merged.merge_config(self.copy_config(parent_merged_config))
+            merged.merge_config(self.copy_config(self.config))
+            merged_config = merged.config
+            self.tasker_extend_config = None
+            self.merged_config, self.merged_parent_config = merged_config, parent_merged_config
+        return merged_config
+
+    def copy_config(self, config):
+        # imported functions and modules are used as they are
+        return {key: dict(value) if key == "imports" and isinstance(value, dict) else copy.deepcopy(value)
+                for key, value in config.items()}
 
     def set(self, key, value):
         super(SessionConfig, self).set(key, value)
         self.merged_config = None
         self.tasker_extend_config = None
 
+    def merge(self):
+        # sessions merge a changed global config again
+        self.global_config.config = dict(self.global_config.config)
+
     def session(self):
         return SessionConfig(self.global_config, self)
 
@@ -319,8 +331,8 @@ class SessionConfig(GlobalConfig):
         return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
 
     def get_tasker_extend_config(self):
+        merged_config = self.get()
         if self.tasker_extend_config is None:
-            merged_config = self.get()
             self.tasker_extend_config = {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS
                                          if key in merged_config}
         return self.tasker_extend_config
-- 
2.43.0


From 2f585e8d50ecea2ca283d1771993a10ac77513c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 041/107] fix: threads that use an engine first set it up twice
 or found it half set up

---
 syncanysql/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 1b4393b..8739402 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -91,12 +91,14 @@ class ExecuterContext(object):
 
 class ScriptEngine(object):
     default_instance = None
+    _instance_lock = threading.Lock()
 
     @classmethod
     def instance(cls, config=None):
-        if cls.default_instance is None:
-            cls.default_instance = ScriptEngine(config)
-        return cls.default_instance
+        with cls._instance_lock:
+            if cls.default_instance is None:
+                cls.default_instance = ScriptEngine(config)
+            return cls.default_instance
 
     @classmethod
     def current_context(cls):
@@ -105,13 +107,17 @@ class ScriptEngine(object):
     def __init__(self, custom_config=None):
         self.custom_config = custom_config
         self.config = GlobalConfig()
+        self.setup_lock = threading.RLock()
         self.manager = None
         self.databases = {}
         self.executor = None
 
     def setup(self):
-        if self.manager is not None:
-            return
+        with self.setup_lock:
+            if self.manager is None:
+                self.load()
+
+    def load(self):
         init_execute_files = self.config.load(self.custom_config)
         self.config.config_logging()
         self.config.load_extensions()
@@ -154,7 +160,7 @@ class ScriptEngine(object):
         return ExecuterContext(self, self.executor).execute(sql)
 
     def get_database(self, db=None):
-        if self.manager is None:
+        if self.executor is None:
             self.setup()
         db = db if db else "--"
         if db in self.databases:
-- 
2.43.0


From 91f8779810522c4612e59218dec12cb84819bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 042/107] fix: push_memory_datas, terminal and current_context
 failed, with blocks lost the outer context

---
 syncanysql/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 8739402..72e701e 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -32,7 +32,7 @@ class ExecuterContext(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executer_context
+        return getattr(cls._thread_local, "current_executer_context", None)
 
     def __init__(self, engine, executor):
         self.engine = engine
@@ -74,7 +74,7 @@ class ExecuterContext(object):
         return self.engine.pop_memory_datas(name)
 
     def push_memory_datas(self, name, datas):
-        return self.engine.push_datas(name, datas)
+        return self.engine.push_memory_datas(name, datas)
 
     def terminal(self):
         if not self.executor:
@@ -82,11 +82,14 @@ class ExecuterContext(object):
         self.executor.terminate()
 
     def __enter__(self):
+        self._thread_local.entered_contexts = (getattr(self._thread_local, "entered_contexts", ())
+                                               + (ExecuterContext.current(),))
         self._thread_local.current_executer_context = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executer_context = None
+        *entered_contexts, self._thread_local.current_executer_context = self._thread_local.entered_contexts
+        self._thread_local.entered_contexts = tuple(entered_contexts)
 
 
 class ScriptEngine(object):
@@ -205,7 +208,7 @@ class ScriptEngine(object):
                 return
             self.executor.terminate()
             return
-        executer_context.terminate()
+        executer_context.terminal()
 
     def close(self):
         if self.manager:
@@ -261,7 +264,7 @@ def pop_memory_datas(name):
 
 
 def push_memory_datas(name, datas):
-    return ScriptEngine.instance().push_datas(name, datas)
+    return ScriptEngine.instance().push_memory_datas(name, datas)
 
 
 def terminal():
-- 
2.43.0


From 1f2b49cbc03067cf641580f8460f730f1a17fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:29 +0000
Subject: [PATCH 043/107] fix: HAVING with aggregates of the select, BETWEEN,
 LIKE and IN lists failed or kept the wrong rows

---
 .../calculaters/mysql_funcs/regexp_funcs.py   |  2 +
 syncanysql/compiler.py                        | 41 +++++++++++++++----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index c6108a6..022b2e0 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,6 +111,8 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
+    if not isinstance(s, str):
+        s = str(s)
     r = "".join([".*" if rc == "%" else "." if rc == "_" else re.escape(rc[-1:])
                  for rc in re.findall(r"\\.|.", r, re.DOTALL)])
     try:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 040f64a..26dad6e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -759,7 +759,8 @@ class Compiler(object):
 
         having_expression = expression.args.get("having")
         if having_expression:
-            having_condition = self.compile_having_condition(having_expression.args["this"], config, arguments, primary_table)
+            having_expression = self.rewrite_having_aggregate(having_expression.args["this"], config, arguments, primary_table)
+            having_condition = self.compile_having_condition(having_expression, config, arguments, primary_table)
             if having_condition:
                 config["intercept"] = having_condition
 
@@ -2138,6 +2139,25 @@ class Compiler(object):
         else:
             raise SyncanySqlCompileException('unknown calculate expression, related sql "%s"' % self.to_sql(expression))
 
+    def rewrite_having_aggregate(self, expression, config, arguments, primary_table):
+        if self.is_subquery(expression, config, arguments):
+            return expression
+        if self.is_aggregate(expression, config, arguments) or self.is_window_aggregate(expression, config, arguments):
+            expression_sql = self.generate_sql(expression)
+            for column_alias, column_expression in primary_table["select_columns"].items():
+                if self.generate_sql(column_expression) == expression_sql:
+                    return sqlglot_expressions.column(sqlglot_expressions.to_identifier(column_alias, quoted=True))
+            raise SyncanySqlCompileException('unknown having condition column, column must be in the query result, related sql "%s"'
+                                             % self.to_sql(expression))
+        for arg_name, arg_expression in list(expression.args.items()):
+            if isinstance(arg_expression, list):
+                expression.set(arg_name, [self.rewrite_having_aggregate(item_expression, config, arguments, primary_table)
+                                          if isinstance(item_expression, sqlglot_expressions.Expression) else item_expression
+                                          for item_expression in arg_expression])
+            elif isinstance(arg_expression, sqlglot_expressions.Expression):
+                expression.set(arg_name, self.rewrite_having_aggregate(arg_expression, config, arguments, primary_table))
+        return expression
+
     def compile_having_condition(self, expression, config, arguments, primary_table):
         if isinstance(expression, sqlglot_expressions.And):
             return [
@@ -2162,6 +2182,8 @@ class Compiler(object):
                 left_expression, right_expression = expression.args["this"], expression.args["expressions"]
             elif expression.args.get("query"):
                 left_expression, right_expression = expression.args["this"], expression.args["query"]
+            elif isinstance(expression, sqlglot_expressions.Between):
+                left_expression, right_expression = expression, None
             else:
                 left_expression, right_expression = expression.args["this"], expression.args.get("expression")
             if self.is_column(left_expression, config, arguments):
@@ -2191,6 +2213,13 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_calculater, ["#const", value_items]
+                calculate_fields = []
+                for value_expression_item in right_expression:
+                    self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
+                if isinstance(config["schema"], dict) and [calculate_field for calculate_field in calculate_fields
+                                                           if calculate_field["column_name"] not in config["schema"]]:
+                    raise SyncanySqlCompileException('unknown having condition column, column must be in the query result, related sql "%s"'
+                                                     % self.to_sql(expression))
                 value_items = [self.compile_calculate(value_expression_item, config, arguments, primary_table, [])
                                for value_expression_item in right_expression]
                 return left_calculater, ["#make", value_items]
@@ -2240,13 +2269,9 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.In):
             left_calculater, right_calculater = parse(expression)
             return ["@mysql::in", left_calculater, ["@convert_array", right_calculater]]
-        elif isinstance(expression, sqlglot_expressions.Like):
-            left_calculater, right_calculater = parse(expression)
-            if not isinstance(right_calculater, list) or len(right_calculater) != 2 or right_calculater[0] != "#const":
-                raise SyncanySqlCompileException('error having condition, like condition value must be const, related sql "%s"'
-                                                 % self.to_sql(expression))
-            return ["#if", ["@re::match", ".*" if right_calculater[1] == "%%" else right_calculater[1].replace("%", ".*")
-                .replace(".*.*", "%"), left_calculater], ["#const", 1], ["#const", 0]]
+        elif isinstance(expression, sqlglot_expressions.Between):
+            left_calculater, _ = parse(expression)
+            return left_calculater
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From e31ee8fd6439baf438124ceeb47650758fa46d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 044/107] fix: piped scripts without arguments, read-only
 scripts, quoted EXECUTE names, arguments with = and lines of several
 statements were not run

---
 syncanysql/compiler.py | 2 +-
 syncanysql/executor.py | 4 ++--
 syncanysql/main.py     | 2 +-
 syncanysql/parser.py   | 2 +-
 syncanysql/prompt.py   | 5 +++--
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 26dad6e..8c6b66a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -183,7 +183,7 @@ class Compiler(object):
                 return SetCommandTasker(self.compile_set(value[0].strip(), "=".join(value[1:]).strip()))
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
                 filename = self.parse_const(expression.args["expression"], {}, arguments)["value"]
-                if filename and filename[0] == '`':
+                if len(filename) >= 2 and filename[0] in ('`', '"', "'") and filename[-1] == filename[0]:
                     filename = filename[1:-1]
                 if filename in self.mapping:
                     filename = self.mapping[filename]
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 691bcfc..d011075 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -55,9 +55,9 @@ class EnvVariables(dict):
         for arg in sys.argv:
             if arg[:2] != "--":
                 continue
-            arg_info = arg[2:].split("=")
+            arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
-            if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
+            if isinstance(arg_value, str) and len(arg_value) >= 2 and arg_value[0] in ('"', "'") and arg_value[-1] == arg_value[0]:
                 arg_value = arg_value[1:-1]
             env_variables[arg_info[0]] = arg_value
         return env_variables
diff --git a/syncanysql/main.py b/syncanysql/main.py
index 94db858..af0249e 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -57,7 +57,7 @@ def main():
                     sql_parser = SqlParser(content[1:-1] if content[0] in ('"', "'") and content[-1] in ('"', "'") else content)
                     sqls = sql_parser.split()
                     executor.run("pipe", sqls)
-                    get_logger().info("execute pipe sql start %d task", sys.argv[1], executor.get_tasker_index())
+                    get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
                     except Exception as e:
diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f42d0e5..3f339aa 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -127,7 +127,7 @@ class FileParser(object):
         self.filename = filename
 
     def load(self):
-        with open(self.filename, "r+", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
+        with open(self.filename, "r", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
             content = fp.read()
         if isinstance(self.filename, str) and self.filename[-5:].lower() == ".prql":
             try:
diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 7210708..e67c340 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -226,8 +226,9 @@ class CliPrompt(object):
                 if text[0] == "%":
                     self.run_magic_cmd(text[1:])
                     continue
-                self.executor.run("cli", [SqlSegment(text, lineno)])
                 try:
+                    sqls = SqlParser(text).split()
+                    self.executor.run("cli", [SqlSegment(str(sql), lineno) for sql in sqls])
                     self.executor.execute()
                 except Exception as e:
                     print(e.__class__.__name__ + ": " + str(e))
@@ -243,7 +244,7 @@ class CliPrompt(object):
 
     def check_complete(self, content):
         content = content.strip()
-        if not content or content[:4] == "exit" or content[0] in ("!", "%"):
+        if not content or content.lower()[:4] == "exit" or content[0] in ("!", "%"):
             return False
         sql_parser = SqlParser(content)
         try:
-- 
2.43.0


From 267d620f06ce88491cedc621fce5b548350aa788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 045/107] fix: configuration files of the working directory did
 not reliably override those of the home directory

---
 syncanysql/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 7508d21..b8866c7 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -131,8 +131,9 @@ class GlobalConfig(object):
         home_config_path, cwd_config_path = self.get_home(), os.path.abspath(os.getcwd())
         if home_config_path not in sys.path:
             sys.path.append(home_config_path)
-        for filename in {os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
-                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")}:
+        # later files override earlier ones
+        for filename in (os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
+                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")):
             if not os.path.exists(filename):
                 continue
             if "extends" not in self.config or not isinstance(self.config["extends"], list):
-- 
2.43.0


From 391e052b9723aa4e93f7bb311a4556b66751baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 046/107] fix: an engine changed the configuration it was
 given, and engines given the same configuration shared it

---
 syncanysql/config.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index b8866c7..4e3cb39 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -142,7 +142,8 @@ class GlobalConfig(object):
                 self.config["extends"].append(filename)
         self.load_config()
         if custom_config and isinstance(custom_config, dict):
-            self.merge_config(custom_config)
+            # the settings given belong to the caller
+            self.merge_config(self.copy_config(custom_config))
         pypackage_paths = self.config.get("pypackage_paths")
         if pypackage_paths:
             if isinstance(pypackage_paths, str):
@@ -223,6 +224,11 @@ class GlobalConfig(object):
             except Exception as e:
                 get_logger().warning("import extension %s error %s:%s", extension, e.__class__.__name__, str(e))
 
+    def copy_config(self, config):
+        # imported functions and modules are used as they are
+        return {key: dict(value) if key == "imports" and isinstance(value, dict) else copy.deepcopy(value)
+                for key, value in config.items()}
+
     def merge_config(self, config):
         for k, v in config.items():
             if k in ("arguments", "imports", "defines", "variables", "sources", "logger", "options"):
@@ -311,11 +317,6 @@ class SessionConfig(GlobalConfig):
             self.merged_config, self.merged_parent_config = merged_config, parent_merged_config
         return merged_config
 
-    def copy_config(self, config):
-        # imported functions and modules are used as they are
-        return {key: dict(value) if key == "imports" and isinstance(value, dict) else copy.deepcopy(value)
-                for key, value in config.items()}
-
     def set(self, key, value):
         super(SessionConfig, self).set(key, value)
         self.merged_config = None
-- 
2.43.0


From 6e4c11d254891ddfee7b0c5625ceb8c9a345f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 047/107] fix: files of directories with similar names, and
 json and csv files of one directory, were mixed up; sheets of excel files

---
 syncanysql/compiler.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8c6b66a..c285dd5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2964,11 +2964,19 @@ class Compiler(object):
             else:
                 db_driver, db_params, path_info = None, {}, os.path.split(table_name)
 
+            # the name of a sheet may follow the name of an excel file
+            file_ext = os.path.splitext(path_info[-1].split("#")[0])[-1]
+            if file_ext not in (".xls", ".xlsx"):
+                file_ext = os.path.splitext(path_info[-1])[-1]
             db_driver = {".txt": "textline", ".json": "json", ".csv": "csv", ".xls": "execl",
-                         ".xlsx": "execl"}.get(os.path.splitext(path_info[-1])[-1], db_driver)
+                         ".xlsx": "execl"}.get(file_ext, db_driver)
             if db_driver:
                 path, table_name = (os.path.abspath(path_info[0]) if path_info[0] else os.getcwd()), path_info[1]
-                path_db_name = "dir__" + "".join([c if c.isalpha() or c.isdigit() else '_' for c in path])
+                db_format = ([f for f in ("csv", "json", "richtable", "print") if f in typing_options] or [None])[0] \
+                    if db_driver == "textline" else None
+                # files of another directory, driver or format are another database
+                path_db_name = "__".join(["dir", db_driver] + ([db_format] if db_format else []) + [
+                    "".join([c if c.isalpha() or c.isdigit() else '_%x_' % ord(c) for c in path])])
                 if db_params:
                     path_db_name = path_db_name + "_" + str(uuid.uuid1().int)
                 database = None
@@ -2976,10 +2984,6 @@ class Compiler(object):
                     config["databases"] = []
                 for d in config["databases"]:
                     if d["name"] == path_db_name:
-                        d.update({"name": path_db_name, "driver": db_driver, "path": path})
-                        database = d
-                        break
-                    if d.get("driver") == db_driver and d.get("path") == path and not db_params:
                         database = d
                         break
                 if not database:
@@ -2987,10 +2991,8 @@ class Compiler(object):
                     config["databases"].append(database)
                 if db_params:
                     database.update(db_params)
-                if db_driver == "textline":
-                    formats = [f for f in ("csv", "json", "richtable", "print") if f in typing_options]
-                    if formats:
-                        database["format"] = formats[0]
+                if db_format:
+                    database["format"] = db_format
                 db_name = database["name"]
             else:
                 db_name = "--"
-- 
2.43.0


From bb10b731e49e8db2690100d24a76194ee00a3e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 048/107] fix: the arguments of a function in the default of a
 variable were cut at commas of strings, negative numbers were text, and a
 text like a call took exponential time

---
 syncanysql/executor.py |  6 +++---
 syncanysql/utils.py    | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index d011075..4d39ef9 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -14,12 +14,12 @@ from syncany.database import find_database
 from syncany.taskers.config import ConfigReader, register_reader
 from syncany.taskers.core import CoreTasker
 from .errors import SyncanySqlCompileException
-from .utils import SequenceTypes, parse_value
+from .utils import SequenceTypes, parse_value, split_arguments
 from .compiler import Compiler
 
 ENV_VARIABLE_RE = re.compile(r"(\$\{[@\w]+?(:.*?)?\})", re.DOTALL | re.M)
 RAW_SQL_RE = re.compile(r"(\/\*\s*raw\(([\w\.]+?)\)\s*(\*\/\s*\()?\s*(.*?)\s*(\)\s*\/\*)?\s*endraw\s*\*\/)", re.DOTALL | re.M)
-FUNC_RE = re.compile(r"^(\w+?)\(((.+),?)*\)$", re.DOTALL)
+FUNC_RE = re.compile(r"^(\w+)\((.*)\)$", re.DOTALL)
 
 
 @register_reader("context")
@@ -132,7 +132,7 @@ class Executor(object):
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
                     calculater_args = []
                     if groups[1]:
-                        for arg in groups[1].split(","):
+                        for arg in split_arguments(groups[1]):
                             calculater_args.append(parse_value(arg))
                     calculater = find_calculater(groups[0].split("__")[0]).instance(groups[0].replace("__", "::"))
                     variable_value = calculater.calculate(*tuple(calculater_args))
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 48b4f9e..01686d3 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -27,11 +27,25 @@ def parse_value(value):
     if value.lower() == "null":
         return None
     value_info = value.split(".")
-    if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+    if len(value_info) == 2 and (value_info[0].isdigit() or (value[0] == "-" and value_info[0][1:].isdigit())) \
             and value_info[1].isdigit():
         return float(value)
     return value
 
+def split_arguments(value):
+    arguments, start_index, quote = [], 0, None
+    for i in range(len(value)):
+        if quote:
+            if value[i] == quote:
+                quote = None
+        elif value[i] in ("'", '"') and not value[start_index: i].strip():
+            quote = value[i]
+        elif value[i] == ",":
+            arguments.append(value[start_index: i])
+            start_index = i + 1
+    arguments.append(value[start_index:])
+    return arguments
+
 def parse_number(x, is_float=False):
     index, dot_index = -1, -1
     for i in range(len(x)):
-- 
2.43.0


From 3bf611cec30c6df55df56e43b9caf9eb199b92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 049/107] fix: raw SQL holding strings was refused

---
 syncanysql/executor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 4d39ef9..8aee7b4 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -154,9 +154,7 @@ class Executor(object):
                 raw_name_info = raw_name.split(".")
                 if len(raw_name_info) != 2:
                     raise SyncanySqlCompileException("raw sql name error: %s", raw)
-                raw_sql = "set @config.databases." + raw_name_info[0] + ".virtual_views." \
-                          + raw_name_info[1] + "='''\n" + raw_sql.strip() + "\n'''"
-                self.compile(name + "(" + str(lineno) + ")#set_virtual_view", raw_sql)
+                self.session_config.set(["databases", raw_name_info[0], "virtual_views", raw_name_info[1]], raw_sql.strip())
                 sql = sql.replace(raw, raw_name)
             self.compile(name + "(" + str(lineno) + ")", sql)
 
-- 
2.43.0


From 7f538e777f8e29c14adb892428d97c0d52827395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 050/107] fix: raw SQL hid the configured views of its database

---
 syncanysql/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 4e3cb39..10d638e 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -249,7 +249,13 @@ class GlobalConfig(object):
                     vs = {c["name"]: c for c in self.config[k]}
                     for d in v:
                         if d["name"] in vs:
+                            virtual_views = vs[d["name"]].get("virtual_views")
                             vs[d["name"]].update(d)
+                            if virtual_views and d.get("virtual_views"):
+                                # the first matching view is used
+                                names = set(view.get("name") for view in d["virtual_views"])
+                                vs[d["name"]]["virtual_views"] = d["virtual_views"] + [
+                                    view for view in virtual_views if view.get("name") not in names]
                         else:
                             self.config[k].append(d)
             elif k == "pipelines":
-- 
2.43.0


From d8464410da3696ca3e31a68b554dce6d5eb92397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:20 +0000
Subject: [PATCH 051/107] fix: a condition on a converted column compared the
 values as they are stored

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c285dd5..e3eff61 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1167,6 +1167,9 @@ class Compiler(object):
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
             if left_column is None:
                 return None, None
+            if left_column["convert_typing_filter"] in ("int", "float", "decimal", "str", "bool"):
+                # the source would compare the value as it is stored
+                return None, None
             if self.is_conflict_query(expression, left_column, config["querys"]):
                 return None, None
 
-- 
2.43.0


From a554e8051fc21a27d7a7342400fb432f08b16574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:21 +0000
Subject: [PATCH 052/107] fix: ordering by a converted column of the select
 list sorted the values as they are stored

---
 syncanysql/compiler.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e3eff61..81a29c7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2289,22 +2289,26 @@ class Compiler(object):
     def compile_order(self, expression, config, arguments, primary_table):
         primary_sort_keys, sort_keys = [], []
         for order_expression in expression:
-            if not self.is_column(order_expression.args["this"], config, arguments):
+            is_column = self.is_column(order_expression.args["this"], config, arguments)
+            column = self.parse_column(order_expression.args["this"], config, arguments) if is_column else None
+            if column is None or column["typing_filters"]:
                 if isinstance(config["schema"], dict):
                     if self.generate_sql(order_expression.args["this"]) in config["schema"]:
                         sort_keys.append((self.generate_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
                         continue
                     has_column = False
                     for column_alias, column_expression in primary_table["select_columns"].items():
-                        if self.generate_sql(order_expression.args["this"]).lower() == self.generate_sql(column_expression).lower():
+                        if self.generate_sql(order_expression.args["this"]).lower() == self.generate_sql(column_expression).lower() \
+                                or (column is not None and self.is_column(column_expression, config, arguments)
+                                    and self.is_same_column(column, self.parse_column(column_expression, config, arguments))):
                             sort_keys.append((column_alias, True if order_expression.args["desc"] else False))
                             has_column = True
                             break
                     if has_column:
                         continue
-                raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
-                                                 % self.to_sql(expression))
-            column = self.parse_column(order_expression.args["this"], config, arguments)
+                if column is None:
+                    raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
+                                                     % self.to_sql(expression))
             if not isinstance(config["schema"], dict) or (column["table_name"] and primary_table["table_name"] == column["table_name"]):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and not primary_table["table_alias"]:
@@ -2332,6 +2336,10 @@ class Compiler(object):
         if primary_sort_keys:
             config["orders"].extend(primary_sort_keys)
 
+    def is_same_column(self, column, other_column):
+        return (column["table_name"], column["column_name"], column["typing_filters"]) \
+            == (other_column["table_name"], other_column["column_name"], other_column["typing_filters"])
+
     def compile_foreign_column(self, expression, config, arguments, column):
         if column.get("typing_filters"):
             return column["column_name"] + "|" + column["typing_filters"][0]
-- 
2.43.0


From 20f804712d12bdbe20ff3a94c0df1fb8da285089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 053/107] fix: a conversion of an annotated column was applied
 before the annotation, and the middle of three annotations was lost

---
 syncanysql/compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 81a29c7..ce9ad3d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2355,7 +2355,7 @@ class Compiler(object):
                 child_filter_column = ":$.*|" + typing_filters[0]
                 if len(typing_filters) == 1:
                     return child_filter_column
-                return [typing_filter_column, compile_column_filter(typing_filters[1:])]
+                return [child_filter_column, compile_column_filter(typing_filters[1:])]
             return [typing_filter_column, compile_column_filter(column["typing_filters"][1:])]
         return ("$" * scope_depth) + "." + column["column_name"]
     
@@ -3040,7 +3040,7 @@ class Compiler(object):
                 convert_typing_filter = self.TYPE_FILTERS[calculater_name[8:]]
                 expression = expression.args["expressions"][0]
 
-        typing_filters = [convert_typing_filter] if convert_typing_filter else []
+        typing_filters = []
         db_name = expression.args["db"].name if expression.args.get("db") else None
         table_name = expression.args["table"].name if expression.args.get("table") else None
         column_name = expression.args["this"].name
@@ -3061,10 +3061,11 @@ class Compiler(object):
                     except:
                         pass
             column_name = origin_name[:start_index]
-            typing_name = (column_name + "|" + typing_filters[0]) if typing_filters else column_name
         except ValueError:
             column_name = origin_name
-            typing_name = column_name
+        if convert_typing_filter:
+            typing_filters.append(convert_typing_filter)
+        typing_name = (column_name + "|" + typing_filters[0]) if typing_filters else column_name
         try:
             start_index, end_index = origin_name.index("<"), origin_name.rindex(">")
             typing_options = origin_name[start_index+1: end_index].split(",")
-- 
2.43.0


From 03235b57ed310dcbf1fb571ce0ce9bc6c66e3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 054/107] fix: grouping and windows over a converted column
 used the values as they are stored when the column was selected

---
 syncanysql/compiler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ce9ad3d..04cbfbc 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1575,7 +1575,8 @@ class Compiler(object):
                 group_expression_column = self.parse_column(group_expression, config, arguments)
                 if isinstance(config["schema"], dict) and not group_expression_column["table_name"] \
                         and group_expression_column["column_name"] in config["schema"]:
-                    group_column.append(config["schema"][group_expression_column["column_name"]])
+                    group_column.append(self.compile_typing_column(config["schema"][group_expression_column["column_name"]],
+                                                                   group_expression_column))
                     continue
                 if not group_expression_column["table_name"] or group_expression_column["table_name"] == primary_table["table_name"]:
                     group_column.append(self.compile_column(group_expression, config, arguments, group_expression_column))
@@ -1772,7 +1773,8 @@ class Compiler(object):
                 key_expression_column = self.parse_column(expression, config, arguments)
                 if isinstance(config["schema"], dict) and not key_expression_column["table_name"] \
                         and key_expression_column["column_name"] in config["schema"]:
-                    key_column.append(config["schema"][key_expression_column["column_name"]])
+                    key_column.append(self.compile_typing_column(config["schema"][key_expression_column["column_name"]],
+                                                                 key_expression_column))
                     continue
                 if not key_expression_column["table_name"] or key_expression_column["table_name"] == primary_table["table_name"]:
                     key_column.append(self.compile_column(expression, config, arguments, key_expression_column))
@@ -2359,6 +2361,11 @@ class Compiler(object):
             return [typing_filter_column, compile_column_filter(column["typing_filters"][1:])]
         return ("$" * scope_depth) + "." + column["column_name"]
     
+    def compile_typing_column(self, value_column, column):
+        for typing_filter in column["typing_filters"]:
+            value_column = ["#if", ["#const", 1], value_column, None, ":$.*|" + typing_filter]
+        return value_column
+
     def compile_const(self, expression, config, arguments, literal):
         if "value_getter" in literal and literal["value_getter"]:
             return literal["value_getter"]
-- 
2.43.0


From d5d8f6ae8158df4ba7e86860d62fb183607c76c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 055/107] fix: CASE without ELSE gave 0, took the last of equal
 values, and did not match negative numbers, fractions and texts like #end

---
 syncanysql/compiler.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 04cbfbc..4db2e34 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1998,15 +1998,17 @@ class Compiler(object):
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
             return ["#if", ["@is_null", condition_column], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
-            if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
+            if expression.args.get("this") and all([self.is_case_const(case_expression.args["this"], config, arguments)
                                                     for case_expression in expression.args.get("ifs", [])]):
                 cases = {}
                 cases["#case"] = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 if expression.args.get("ifs"):
                     for case_expression in expression.args["ifs"]:
                         case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
-                        cases[(":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value] = \
-                            self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
+                        if case_value in cases:
+                            continue
+                        cases[case_value] = self.compile_calculate(case_expression.args["true"], config, arguments, primary_table,
+                                                                   column_join_tables, join_index)
                 cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
                     if expression.args.get("default") else None
                 return cases
@@ -2014,7 +2016,7 @@ class Compiler(object):
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
             defaul_column = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                if expression.args.get("default") else ["#const", 0]
+                if expression.args.get("default") else ["#const", None]
             if not expression.args.get("ifs"):
                 return defaul_column
             def build_if(if_expression, case_expressions):
@@ -3269,6 +3271,12 @@ class Compiler(object):
             return parse_dot(dot_expression.args["this"])
         return parse_dot(expression)
 
+    def is_case_const(self, expression, config, arguments):
+        if not self.is_const(expression, config, arguments):
+            return False
+        value = self.parse_const(expression, config, arguments)["value"]
+        return value is not None and not (isinstance(value, str) and value[:1] in ("#", ":"))
+
     def is_const(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Neg):
             return not isinstance(expression.args["this"], sqlglot_expressions.Neg) and self.is_const(expression.args["this"], config, arguments)
-- 
2.43.0


From 2b3f2b04af268e385d82384c6bb34f4ff359a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:47 +0000
Subject: [PATCH 056/107] fix: AND and OR gave a value of an operand

---
 syncanysql/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4db2e34..7f9dedd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2103,7 +2103,8 @@ class Compiler(object):
                 return [
                     "#if",
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index),
+                    ["#if", self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index),
+                     ["#const", 1], ["#const", 0]],
                     ["#const", 0]
                 ]
             if isinstance(expression, sqlglot_expressions.Or):
@@ -2111,7 +2112,8 @@ class Compiler(object):
                     "#if",
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
                     ["#const", 1],
-                    self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
+                    ["#if", self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index),
+                     ["#const", 1], ["#const", 0]]
                 ]
 
             func_name = expression.key.lower()
-- 
2.43.0


From 956fea6c724a19b494182bc7d13d7d12750874e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 057/107] fix: IS TRUE and IS FALSE compared numbers with 1 and
 0

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 1d52358..35a7139 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -206,6 +206,8 @@ def mysql_not(a):
 
 @typing_filter(int)
 def mysql_is(a, b):
+    if isinstance(b, bool):
+        return 1 if a is not None and bool(a) == b else 0
     if a.__class__ == b.__class__:
         return 1 if a is b else 0
     if a is None or b is None:
@@ -214,6 +216,8 @@ def mysql_is(a, b):
 
 @typing_filter(int)
 def mysql_is_not(a, b):
+    if isinstance(b, bool):
+        return 0 if a is not None and bool(a) == b else 1
     if a.__class__ == b.__class__:
         return 0 if a is b else 1
     if a is None or b is None:
-- 
2.43.0


From 826e68ef28c01303c2a2cf717d8b7e2a28ab3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:37 +0000
Subject: [PATCH 058/107] fix: a comparison of a column with = was refused as
 the argument of a function

---
 syncanysql/compiler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7f9dedd..bc74439 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -72,6 +72,17 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         def _parse_and_conjunction(self):
             return self._parse_tokens(self._parse_equality, {sqlglot_parser.TokenType.AND: sqlglot_expressions.And})
 
+        def _parse_lambda(self):
+            index = self._index
+            expression = super()._parse_lambda()
+            if isinstance(expression, sqlglot_expressions.EQ) and isinstance(expression.args["this"], sqlglot_expressions.Var):
+                # sqlglot reads name = value in the arguments of a function as a keyword argument
+                end_index = self._index
+                self._retreat(index)
+                expression.set("this", self._parse_column())
+                self._advance(end_index - self._index)
+            return expression
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From 22733684de0fbd651a3b7747a50539cdb2f1ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:46 +0000
Subject: [PATCH 059/107] fix: IFNULL, COALESCE and CASE of a BETWEEN gave the
 operands of the BETWEEN

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index bc74439..61af341 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2003,11 +2003,11 @@ class Compiler(object):
                         coalesce_value_column = parse_coalesce(coalesce_expressions[1:])
                     else:
                         coalesce_value_column = self.compile_calculate(coalesce_expressions[1], config, arguments, primary_table, column_join_tables, join_index)
-                    return ["#if", ["@is_null", coalesce_column], coalesce_value_column, coalesce_column]
+                    return ["#if", ["@is_null", copy.deepcopy(coalesce_column)], coalesce_value_column, coalesce_column]
                 value_column = parse_coalesce(expression.args.get("expressions"))
             else:
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
-            return ["#if", ["@is_null", condition_column], value_column, condition_column]
+            return ["#if", ["@is_null", copy.deepcopy(condition_column)], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
             if expression.args.get("this") and all([self.is_case_const(case_expression.args["this"], config, arguments)
                                                     for case_expression in expression.args.get("ifs", [])]):
@@ -2034,7 +2034,7 @@ class Compiler(object):
                 if_value_column = self.compile_calculate(if_expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
                     "#if",
-                    if_value_column if value_column is None else ["@mysql::eq", value_column, if_value_column],
+                    if_value_column if value_column is None else ["@mysql::eq", copy.deepcopy(value_column), if_value_column],
                     self.compile_calculate(if_expression.args["true"], config, arguments, primary_table, column_join_tables,
                                            join_index) if if_expression.args.get("true") else ["#const", 1],
                     build_if(case_expressions[0], case_expressions[1:]) if case_expressions else defaul_column,
-- 
2.43.0


From 76ac02c5f2f8f2c9fd8030a17f5dc8baf826c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:46 +0000
Subject: [PATCH 060/107] fix: HAVING refused a column, a constant and
 functions of several arguments as the condition

---
 syncanysql/compiler.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 61af341..a127b37 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2198,12 +2198,13 @@ class Compiler(object):
             left_column = None
             if "aggregate" not in config:
                 config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
-            if expression.args.get("expressions"):
+            if not isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
+                                           sqlglot_expressions.LT, sqlglot_expressions.LTE, sqlglot_expressions.In)):
+                left_expression, right_expression = expression, None
+            elif expression.args.get("expressions"):
                 left_expression, right_expression = expression.args["this"], expression.args["expressions"]
             elif expression.args.get("query"):
                 left_expression, right_expression = expression.args["this"], expression.args["query"]
-            elif isinstance(expression, sqlglot_expressions.Between):
-                left_expression, right_expression = expression, None
             else:
                 left_expression, right_expression = expression.args["this"], expression.args.get("expression")
             if self.is_column(left_expression, config, arguments):
@@ -2289,19 +2290,11 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.In):
             left_calculater, right_calculater = parse(expression)
             return ["@mysql::in", left_calculater, ["@convert_array", right_calculater]]
-        elif isinstance(expression, sqlglot_expressions.Between):
-            left_calculater, _ = parse(expression)
-            return left_calculater
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-            left_calculater, right_calculater = parse(expression)
-            func_name = expression.key.lower()
-            if expression.args.get("expression") and isinstance(expression.args["expression"], sqlglot_expressions.Interval):
-                func_name = "date" + func_name
-            if right_calculater is None:
-                return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater]
-            return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater, right_calculater]
+            left_calculater, _ = parse(expression)
+            return left_calculater
 
     def compile_order(self, expression, config, arguments, primary_table):
         primary_sort_keys, sort_keys = [], []
-- 
2.43.0


From 6434126b0b23be14a43d5c96af1335b88f3f5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:12 +0000
Subject: [PATCH 061/107] fix: adding months around December or to the 29th of
 February, and microseconds, gave NULL or another time

---
 .../calculaters/mysql_funcs/datetime_funcs.py | 48 +++++++++----------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9ccb068..3455177 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 import time
+import calendar
 import datetime
 import pytz
 from syncany.utils import get_timezone, parse_datetime
@@ -13,40 +14,36 @@ from ...utils import NumberTypes, NumberStringTypes
 TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MONTH": 30 * 24 * 60 * 60,
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
                    "MICROSECOND": 1}
+MONTH_UNITS = {"YEAR": 12, "QUARTER": 3, "MONTH": 1}
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
+def ensure_datetime(dt):
+    if isinstance(dt, NumberStringTypes):
+        return parse_datetime(str(dt), None, get_timezone())
+    if isinstance(dt, datetime.date) and not isinstance(dt, datetime.datetime):
+        return datetime.datetime(dt.year, dt.month, dt.day, tzinfo=get_timezone())
+    return dt
+
 def calculate_datetime(dt, interval, is_sub=False):
     def calculate(unit, value):
-        if unit == "YEAR":
-            return dt.replace(year=dt.year - value) if is_sub else dt.replace(year=dt.year + value)
-        if unit in ("QUARTER", "MONTH"):
-            months = value * 3 if unit == "QUARTER" else value
-            if is_sub:
-                new_year = dt.year - int(months / 12) - (1 if dt.month - months % 12 < 1 else 0)
-                new_month = (dt.month - months % 12) + (12 if dt.month - months % 12 < 1 else 0)
-            else:
-                new_year = dt.year + int(months / 12) + (1 if dt.month + months % 12 > 12 else 0)
-                new_month = (dt.month + months % 12) % 12
-            try:
-                return dt.replace(year=new_year, month=new_month)
-            except ValueError:
-                day = dt.day - 1
-                while day >= 1:
-                    try:
-                        return dt.replace(year=new_year, month=new_month, day=day)
-                    except ValueError:
-                        day -= 1
+        if is_sub:
+            value = -value
+        if unit in MONTH_UNITS:
+            year, month = divmod(dt.year * 12 + dt.month - 1 + value * MONTH_UNITS[unit], 12)
+            if not datetime.MINYEAR <= year <= datetime.MAXYEAR:
                 return None
+            return dt.replace(year=year, month=month + 1, day=min(dt.day, calendar.monthrange(year, month + 1)[1]))
+        if unit == "MICROSECOND":
+            return ensure_datetime(dt) + datetime.timedelta(microseconds=value)
         if unit in TIMEDELTA_UNITS:
             td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
-            return (dt - td) if is_sub else (dt + td)
+            return (ensure_datetime(dt) if unit in ("HOUR", "MINUTE", "SECOND") else dt) + td
         return None
     
     if isinstance(interval, dict):
-        dt = calculate(interval["unit"].upper(), int(interval["value"]))
-        if dt:
-            return dt
-        interval = str(interval["value"])
+        if interval["value"] is None:
+            return None
+        return calculate(interval["unit"].upper(), int(interval["value"]))
     m = TIME_INTERVAL_RE.match(interval)
     if not m:
         return None
@@ -56,7 +53,8 @@ def calculate_datetime(dt, interval, is_sub=False):
     for i in range(7):
         if not values[i]:
             continue
-        dt = calculate(units[i], int(values[i].replace("-", "").replace(".", "").replace(":", "")))
+        value = values[i].replace("-", "").replace(".", "").replace(":", "")
+        dt = calculate(units[i], int((value + "00000")[:6] if units[i] == "MICROSECOND" else value))
         if not dt:
             return None
     return dt
-- 
2.43.0


From 1ce29e4db7c41fb71a11ffce0b5f98ab57f1c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:37 +0000
Subject: [PATCH 062/107] fix: TIMESTAMPDIFF gave NULL, and DATEDIFF counted
 from the first date to the second, in whole days of 24 hours

---
 .../calculaters/mysql_funcs/datetime_funcs.py | 23 +++++++++++--------
 syncanysql/compiler.py                        | 15 ++++++++++++
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 3455177..1bf162c 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -292,21 +292,24 @@ def mysql_subtime(dt, i):
 def mysql_datediff(dt1, dt2):
     if dt1 is None or dt2 is None:
         return None
-    if isinstance(dt1, NumberStringTypes):
-        dt1 = parse_datetime(str(dt1), None, get_timezone())
-    if isinstance(dt2, NumberStringTypes):
-        dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / 86400)
+    dt1, dt2 = ensure_datetime(dt1), ensure_datetime(dt2)
+    return dt1.toordinal() - dt2.toordinal()
 
 @typing_filter(int)
 def mysql_timestampdiff(unit, dt1, dt2):
     if dt1 is None or dt2 is None:
         return None
-    if isinstance(dt1, NumberStringTypes):
-        dt1 = parse_datetime(str(dt1), None, get_timezone())
-    if isinstance(dt2, NumberStringTypes):
-        dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / TIMEDELTA_UNITS[unit])
+    unit, dt1, dt2 = unit.upper(), ensure_datetime(dt1), ensure_datetime(dt2)
+    if unit in MONTH_UNITS:
+        if dt2 < dt1:
+            return -mysql_timestampdiff(unit, dt2, dt1)
+        months = dt2.year * 12 + dt2.month - dt1.year * 12 - dt1.month
+        if (dt2.day, dt2.time()) < (dt1.day, dt1.time()):
+            months -= 1
+        return months // MONTH_UNITS[unit]
+    microseconds = (dt2 - dt1) // datetime.timedelta(microseconds=1)
+    unit_microseconds = 1 if unit == "MICROSECOND" else TIMEDELTA_UNITS[unit] * 1000000
+    return microseconds // unit_microseconds if microseconds >= 0 else -(-microseconds // unit_microseconds)
 
 @typing_filter(str)
 def mysql_date_format(dt, f):
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a127b37..6296afd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -37,6 +37,11 @@ class AssignParameter(sqlglot_expressions.Parameter):
     arg_types = {"this": True, "expression": False, "wrapped": False}
 
 
+class TimestampDiff(sqlglot_expressions.Func):
+    _sql_names = ["TIMESTAMPDIFF"]
+    arg_types = {"unit": True, "this": True, "expression": True}
+
+
 class CompilerDialect(sqlglot_dialects.Dialect):
     class Tokenizer(tokens.Tokenizer):
         QUOTES = ["'", '"']
@@ -66,6 +71,13 @@ class CompilerDialect(sqlglot_dialects.Dialect):
                 self._advance()
 
     class Parser(sqlglot_parser.Parser):
+        FUNCTIONS = {
+            **sqlglot_parser.Parser.FUNCTIONS,
+            # sqlglot takes the last argument as the unit
+            "TIMESTAMPDIFF": lambda args: TimestampDiff(unit=sqlglot_expressions.Var(this=args[0].name) if args else None,
+                                                        this=sqlglot_parser.seq_get(args, 1), expression=sqlglot_parser.seq_get(args, 2))
+        }
+
         def _parse_conjunction(self):
             return self._parse_tokens(self._parse_and_conjunction, {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or})
 
@@ -2050,6 +2062,9 @@ class Compiler(object):
             for arg_name in arg_names:
                 if not expression.args.get(arg_name):
                     continue
+                if isinstance(expression, TimestampDiff) and arg_name == "unit":
+                    column.append(["#const", expression.args[arg_name].name])
+                    continue
                 if isinstance(expression.args[arg_name], list):
                     for item_expression in expression.args[arg_name]:
                         column.append(self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index))
-- 
2.43.0


From 149321133f9f0af9985b259cf517d8845a58ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:02 +0000
Subject: [PATCH 063/107] fix: INTERVAL of a column, an expression or a
 negative number gave NULL, also in front of +

---
 syncanysql/compiler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6296afd..3b6821d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2101,7 +2101,12 @@ class Compiler(object):
                              for tuple_expression in expression.args["expressions"]]
             return ["#make", value_columns]
         elif isinstance(expression, sqlglot_expressions.Interval):
-            return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
+            if isinstance(expression.args["this"], sqlglot_expressions.Literal):
+                return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
+            return ["#make", {
+                "value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                "unit": ["#const", expression.args["unit"].args["this"]]
+            }]
         elif self.is_const(expression, config, arguments):
             return self.compile_const(expression, config, arguments, self.parse_const(expression, config, arguments))
         elif isinstance(expression, sqlglot_expressions.Not):
@@ -2163,6 +2168,8 @@ class Compiler(object):
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 ]
+            if isinstance(expression, sqlglot_expressions.Add) and isinstance(expression.args["this"], sqlglot_expressions.Interval):
+                expression = sqlglot_expressions.Add(this=expression.args["expression"], expression=expression.args["this"])
             if isinstance(expression.args["expression"], sqlglot_expressions.Interval):
                 func_name = "date" + func_name
             value_calculate = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
@@ -2694,8 +2701,9 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Parameter):
             if isinstance(expression, AssignParameter):
                 self.parse_calculate(expression.args["expression"], config, arguments, primary_table, calculate_fields)
-        elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star,
-                                                                                        sqlglot_expressions.Interval, sqlglot_expressions.DataType)):
+        elif isinstance(expression, sqlglot_expressions.Interval):
+            self.parse_calculate(expression.args["this"], config, arguments, primary_table, calculate_fields)
+        elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star, sqlglot_expressions.DataType)):
             pass
         elif self.is_const(expression, config, arguments):
             pass
-- 
2.43.0


From ca1f027339b42d8bf453390059aa04fa353c5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:34 +0000
Subject: [PATCH 064/107] fix: comparing a date with a text, or a date with a
 datetime, gave 0 or NULL

---
 .../calculaters/mysql_funcs/logical_funcs.py       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 35a7139..9d6f831 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -2,8 +2,10 @@
 # 2023/5/29
 # create by: snower
 
+import datetime
 from syncany.calculaters import typing_filter
 from ...utils import NumberDecimalTypes, ensure_number, ensure_str
+from .datetime_funcs import ensure_datetime
 
 @typing_filter(int)
 def mysql_eq(a, b):
@@ -13,6 +15,8 @@ def mysql_eq(a, b):
         return 1 if a == b else 0
     if a is None or b is None:
         return None
+    if isinstance(a, datetime.date) or isinstance(b, datetime.date):
+        return 1 if ensure_datetime(a) == ensure_datetime(b) else 0
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a == b else 0
@@ -41,6 +45,8 @@ def mysql_neq(a, b):
         return 1 if a != b else 0
     if a is None or b is None:
         return None
+    if isinstance(a, datetime.date) or isinstance(b, datetime.date):
+        return 1 if ensure_datetime(a) != ensure_datetime(b) else 0
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a != b else 0
@@ -72,6 +78,8 @@ def mysql_gt(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, datetime.date) or isinstance(b, datetime.date):
+        return 1 if ensure_datetime(a) > ensure_datetime(b) else 0
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a > b else 0
@@ -103,6 +111,8 @@ def mysql_gte(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, datetime.date) or isinstance(b, datetime.date):
+        return 1 if ensure_datetime(a) >= ensure_datetime(b) else 0
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a >= b else 0
@@ -134,6 +144,8 @@ def mysql_lt(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, datetime.date) or isinstance(b, datetime.date):
+        return 1 if ensure_datetime(a) < ensure_datetime(b) else 0
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a < b else 0
@@ -165,6 +177,8 @@ def mysql_lte(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, datetime.date) or isinstance(b, datetime.date):
+        return 1 if ensure_datetime(a) <= ensure_datetime(b) else 0
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a <= b else 0
-- 
2.43.0


From 6d0d1df83cddc8258b27a5899809e8dcadc3ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:34 +0000
Subject: [PATCH 065/107] fix: DAYOFWEEK counted from Monday, and MONTHNAME
 gave the short name

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 1bf162c..a9ee8ee 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -154,7 +154,7 @@ def mysql_monthname(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.strftime("%b")
+    return dt.strftime("%B")
 
 @typing_filter(str)
 def mysql_dayname(dt):
@@ -170,7 +170,7 @@ def mysql_dayofweek(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.weekday() + 1
+    return dt.isoweekday() % 7 + 1
 
 @typing_filter(int)
 def mysql_week(dt, mod=None):
-- 
2.43.0


From cd6fcebbe38807ccd3316b22e845b5fd94092ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:34 +0000
Subject: [PATCH 066/107] fix: WEEK and YEARWEEK knew only weeks that begin in
 their year, and no mode but 0 and 1

---
 .../calculaters/mysql_funcs/datetime_funcs.py | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index a9ee8ee..e5ce2be 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -172,13 +172,36 @@ def mysql_dayofweek(dt):
         dt = parse_datetime(str(dt), None, get_timezone())
     return dt.isoweekday() % 7 + 1
 
+def calculate_week(dt, mode, is_week_year=False):
+    # mode 1 weeks begin on monday, 2 the days before the first week belong to the last week of the year before,
+    # 4 the first week begins with the first day of the week, otherwise it has 4 or more days
+    mode = (int(mode) if mode is not None else 0) & 7
+    begin_monday, is_full_week = mode & 1, bool(mode & 4) == bool(mode & 1)
+    is_week_year = is_week_year or bool(mode & 2)
+
+    def first_day(year):
+        day = datetime.date(year, 1, 1)
+        weekday = day.weekday() if begin_monday else day.isoweekday() % 7
+        if is_full_week:
+            return day.toordinal() + (7 - weekday) % 7
+        return day.toordinal() - weekday + (7 if weekday >= 4 else 0)
+
+    year, day = dt.year, dt.toordinal()
+    if day < first_day(year):
+        if not is_week_year:
+            return year, 0
+        year -= 1
+    elif is_week_year and day >= first_day(year + 1):
+        year += 1
+    return year, (day - first_day(year)) // 7 + 1
+
 @typing_filter(int)
 def mysql_week(dt, mod=None):
     if dt is None:
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%W" if str(mod) == "1" else "%U"))
+    return calculate_week(dt, mod)[1]
 
 @typing_filter(int)
 def mysql_yearweek(dt, mod=None):
@@ -186,7 +209,8 @@ def mysql_yearweek(dt, mod=None):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%Y%W" if str(mod) == "1" else "%Y%U"))
+    year, week = calculate_week(dt, mod, True)
+    return year * 100 + week
 
 @typing_filter(int)
 def mysql_dayofyear(dt):
-- 
2.43.0


From 80aa867652952301c2b33e145d20456d0e42b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:34 +0000
Subject: [PATCH 067/107] fix: UNIX_TIMESTAMP gave NULL for texts and dates,
 and another time outside of UTC

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index e5ce2be..950c36a 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -132,7 +132,7 @@ def mysql_time(dt):
 def mysql_unix_timestamp(dt=None):
     if dt is None:
         return int(time.time())
-    return int(time.mktime(dt.utctimetuple()))
+    return int(ensure_datetime(dt).timestamp() // 1)
 
 @typing_filter(datetime.datetime)
 def mysql_from_unixtime(t):
-- 
2.43.0


From 1c6a761a53ebc84b2e004ceae8cb5e687a45ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:34 +0000
Subject: [PATCH 068/107] fix: TIME_TO_SEC gave NULL for times and a count from
 the year 2000 for datetimes, and SEC_TO_TIME dropped the days and the sign

---
 .../calculaters/mysql_funcs/datetime_funcs.py     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 950c36a..0d986c6 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -15,6 +15,7 @@ TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MO
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
                    "MICROSECOND": 1}
 MONTH_UNITS = {"YEAR": 12, "QUARTER": 3, "MONTH": 1}
+TIME_RE = re.compile(r'^\s*(-)?(\d+):(\d{1,2})(?::(\d{1,2})(?:\.\d*)?)?\s*$')
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
 def ensure_datetime(dt):
@@ -240,17 +241,21 @@ def mysql_year(dt):
 def mysql_time_to_sec(dt):
     if dt is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
     if isinstance(dt, str):
-        dt = parse_datetime("2000-01-01 " + dt, None, get_timezone())
-    return int((dt - st).total_seconds())
+        m = TIME_RE.match(dt)
+        if m:
+            seconds = int(m.group(2)) * 3600 + int(m.group(3)) * 60 + int(m.group(4) or 0)
+            return -seconds if m.group(1) else seconds
+    if not isinstance(dt, datetime.time):
+        dt = ensure_datetime(dt)
+    return dt.hour * 3600 + dt.minute * 60 + dt.second
 
 @typing_filter(str)
 def mysql_sec_to_time(t):
     if t is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
-    return (st + datetime.timedelta(seconds=t)).strftime("%H:%M:%S")
+    seconds = abs(int(t))
+    return "%s%02d:%02d:%02d" % ("-" if int(t) < 0 else "", seconds // 3600, seconds // 60 % 60, seconds % 60)
 
 @typing_filter(datetime.datetime)
 def mysql_dateadd(dt, i):
-- 
2.43.0


From b6e63a80870cb0b8f1acbf93646c9ee7d40fed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 069/107] fix: with a time zone in the configuration, datetimes
 read from texts had the offset of local mean time

---
 syncanysql/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 10d638e..22294d2 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -9,7 +9,7 @@ import sys
 import uuid
 import logging.config
 import json
-import pytz
+import pendulum
 from syncany.taskers.core import CoreTasker
 from syncany.taskers.config import load_config
 from syncany.logger import get_logger
@@ -156,7 +156,7 @@ class GlobalConfig(object):
 
         if "timezone" in self.config:
             timezone = self.config.get("timezone")
-            set_timezone(pytz.timezone(timezone))
+            set_timezone(pendulum.timezone(timezone))
         if "databases" not in self.config:
             self.config["databases"] = []
         databases = {database["name"]: database for database in self.config["databases"]}
-- 
2.43.0


From f94cac10e71b93f9bdd0538a0dc55eb535fee6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:53 +0000
Subject: [PATCH 070/107] fix: LEFT and RIGHT of no or a negative number of
 characters gave some of the text

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 11a6446..4388b3c 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -117,15 +117,15 @@ def mysql_ucase(s):
 
 @typing_filter(str)
 def mysql_left(s, x):
-    if s is None:
+    if s is None or x is None:
         return None
-    return ensure_str(s)[:x]
+    return ensure_str(s)[:x] if x > 0 else ""
 
 @typing_filter(str)
 def mysql_right(s, x):
-    if s is None:
+    if s is None or x is None:
         return None
-    return ensure_str(s)[-x:]
+    return ensure_str(s)[-x:] if x > 0 else ""
 
 @typing_filter(str)
 def mysql_trim(s):
-- 
2.43.0


From 6adb148611f2de09e5f17532b460e6037969abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:56 +0000
Subject: [PATCH 071/107] fix: ELT gave NULL for its last text, and a text for
 numbers below 1

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 4388b3c..f4a10bf 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -135,7 +135,7 @@ def mysql_trim(s):
 
 @typing_filter(str)
 def mysql_elt(n, *args):
-    return args[n - 1] if n < len(args) else None
+    return args[n - 1] if 1 <= n <= len(args) else None
 
 @typing_filter(int)
 def mysql_field(s, *args):
-- 
2.43.0


From faed0e9587dfb834058c816ce04641340e4cc592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:59 +0000
Subject: [PATCH 072/107] fix: SUBSTRING counted a position from the end one
 character too far, and gave texts for positions that are none

---
 .../calculaters/mysql_funcs/string_funcs.py      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index f4a10bf..0014a7d 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -8,6 +8,12 @@ import binascii
 from syncany.calculaters import typing_filter
 from ...utils import NumberTypes, ensure_str
 
+def substring_text(s, n, l):
+    start_index = n - 1 if n > 0 else len(s) + n
+    if n == 0 or start_index < 0 or (isinstance(l, int) and l <= 0):
+        return ""
+    return s[start_index: start_index + l] if isinstance(l, int) else s[start_index:]
+
 @typing_filter(str)
 def mysql_bin(x):
     if isinstance(x, NumberTypes):
@@ -165,19 +171,13 @@ def mysql_replace(s, s1, s2):
 def mysql_substring(s, n, l=None):
     if s is None:
         return None
-    s = ensure_str(s)
-    if isinstance(l, int):
-        return s[n - 1: n + l - 1]
-    return s[n - 1:]
+    return substring_text(ensure_str(s), n, l)
 
 @typing_filter(str)
 def mysql_substr(s, n, l=None):
     if s is None:
         return None
-    s = ensure_str(s)
-    if isinstance(l, int):
-        return s[n - 1: n + l - 1]
-    return s[n - 1:]
+    return substring_text(ensure_str(s), n, l)
 
 @typing_filter(str)
 def mysql_substring_index(s, d, c):
-- 
2.43.0


From f582244cc344aee3ca91b02b9563f999990ebffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:02 +0000
Subject: [PATCH 073/107] fix: SUBSTRING_INDEX from the right dropped as many
 parts as it should give

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 0014a7d..96293fd 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -181,11 +181,13 @@ def mysql_substr(s, n, l=None):
 
 @typing_filter(str)
 def mysql_substring_index(s, d, c):
-    if s is None:
+    if s is None or c is None:
         return None
     s, d = ensure_str(s), ensure_str(d)
+    if not d:
+        return ""
     if c < 0:
-        return d.join(s.split(d)[-c:])
+        return d.join(s.split(d)[c:])
     return d.join(s.split(d)[:c])
 
 @typing_filter(str)
-- 
2.43.0


From 36edcdb01679e67052641967acb2c7c715c85bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:06 +0000
Subject: [PATCH 074/107] fix: CONCAT_WS was an unknown function, and gave NULL
 for any NULL

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 96293fd..986d63d 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -96,7 +96,9 @@ def mysql_concat(*args):
 
 @typing_filter(str)
 def mysql_concat_ws(sep, *args):
-    return sep.join(ensure_str(arg) for arg in args)
+    return ensure_str(sep).join(ensure_str(arg) for arg in args if arg is not None)
+
+mysql_concatws = mysql_concat_ws
 
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
-- 
2.43.0


From 404e6e8e4fbfd2474d2963191f35c2216679ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 075/107] fix: ASCII gave the sum of all characters, ORD gave
 NULL for a text, and CHAR gave NULL for any NULL or text

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 986d63d..9d1fd0c 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -6,7 +6,7 @@ import socket
 import base64
 import binascii
 from syncany.calculaters import typing_filter
-from ...utils import NumberTypes, ensure_str
+from ...utils import NumberTypes, ensure_int, ensure_str
 
 def substring_text(s, n, l):
     start_index = n - 1 if n > 0 else len(s) + n
@@ -54,17 +54,17 @@ def mysql_oct(x):
 def mysql_ord(x):
     if x is None:
         return None
-    return ord(ensure_str(x))
+    return int.from_bytes(ensure_str(x)[:1].encode("utf-8"), "big")
 
-@typing_filter(str)
+@typing_filter(int)
 def mysql_ascii(s):
     if s is None:
         return None
-    return sum([ord(c) for c in ensure_str(s)])
+    return (ensure_str(s).encode("utf-8") or b"\0")[0]
 
 @typing_filter(str)
 def mysql_char(*args):
-    return "".join([chr(arg) for arg in args])
+    return "".join([chr(ensure_int(arg)) for arg in args if arg is not None])
 
 @typing_filter(int)
 def mysql_bit_length(s):
-- 
2.43.0


From 06bce7cd80fc886a71b4d89e8fcdf3d8b00acb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:12 +0000
Subject: [PATCH 076/107] fix: HEX and BIN gave the prefix of Python, and BIN
 and OCT gave NULL for texts

---
 .../calculaters/mysql_funcs/string_funcs.py   | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 9d1fd0c..12cff81 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -16,27 +16,19 @@ def substring_text(s, n, l):
 
 @typing_filter(str)
 def mysql_bin(x):
-    if isinstance(x, NumberTypes):
-        return bin(int(x))
     if x is None:
         return None
-    if x is True:
-        return bin(1)
-    if not x:
-        return bin(0)
-    return bin(x)
+    return format(ensure_int(x), "b")
 
 @typing_filter(str)
 def mysql_hex(x):
-    if isinstance(x, NumberTypes):
-        return hex(int(x))
     if x is None:
         return None
-    if x is True:
-        return hex(1)
-    if not x:
-        return hex(0)
-    return binascii.b2a_hex(x.encode("utf-8")).decode("utf-8")
+    if isinstance(x, NumberTypes):
+        return format(int(x), "X")
+    if not isinstance(x, bytes):
+        x = ensure_str(x).encode("utf-8")
+    return binascii.b2a_hex(x).decode("utf-8").upper()
 
 @typing_filter(str)
 def mysql_unhex(x):
@@ -48,7 +40,7 @@ def mysql_unhex(x):
 def mysql_oct(x):
     if x is None:
         return None
-    return oct(x)[2:]
+    return format(ensure_int(x), "o")
 
 @typing_filter(int)
 def mysql_ord(x):
-- 
2.43.0


From 28959b7f8bd64818101e9dc06af46a249c984d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:15 +0000
Subject: [PATCH 077/107] fix: LENGTH, BIT_LENGTH and TO_BASE64 gave NULL for
 numbers and dates, and CRC32 for everything

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 12cff81..0148e63 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -62,13 +62,13 @@ def mysql_char(*args):
 def mysql_bit_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8")) * 8
+    return len(ensure_str(s).encode("utf-8")) * 8
 
 @typing_filter(int)
 def mysql_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8"))
+    return len(ensure_str(s).encode("utf-8"))
 
 @typing_filter(int)
 def mysql_char_length(s):
@@ -232,7 +232,7 @@ def mysql_crc32(s):
     if s is None:
         return None
     import zlib
-    return zlib.crc32(s)
+    return zlib.crc32(ensure_str(s).encode("utf-8"))
 
 @typing_filter(str)
 def mysql_from_base64(s):
@@ -244,7 +244,7 @@ def mysql_from_base64(s):
 def mysql_to_base64(s):
     if s is None:
         return None
-    return base64.b64encode(s.encode("utf-8")).decode("utf-8")
+    return base64.b64encode(ensure_str(s).encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_inet4_aton(s):
-- 
2.43.0


From 5da356250d230302c2074c1f1b24bc7b2692d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 078/107] fix: REPLACE put the new text between all characters
 for an empty text, and gave NULL for numbers

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 0148e63..27a386d 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -159,7 +159,8 @@ def mysql_find_in_set(s, ss):
 def mysql_replace(s, s1, s2):
     if s is None:
         return None
-    return ensure_str(s).replace(s1, s2)
+    s, s1, s2 = ensure_str(s), ensure_str(s1), ensure_str(s2)
+    return s.replace(s1, s2) if s1 else s
 
 @typing_filter(str)
 def mysql_substring(s, n, l=None):
-- 
2.43.0


From b41d4560f09a8aa2bad7e11d87b565a1f34922bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:20 +0000
Subject: [PATCH 079/107] fix: FIELD and FIND_IN_SET found no numbers in texts,
 and FIND_IN_SET found a text in an empty list

---
 .../calculaters/mysql_funcs/string_funcs.py      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 27a386d..8847c74 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -6,6 +6,7 @@ import socket
 import base64
 import binascii
 from syncany.calculaters import typing_filter
+from .logical_funcs import mysql_eq
 from ...utils import NumberTypes, ensure_int, ensure_str
 
 def substring_text(s, n, l):
@@ -139,19 +140,18 @@ def mysql_elt(n, *args):
 
 @typing_filter(int)
 def mysql_field(s, *args):
-    if s is None:
-        return None
-    try:
-        return args.index(s) + 1
-    except ValueError:
-        return 0
+    for i, arg in enumerate(args):
+        if mysql_eq(s, arg):
+            return i + 1
+    return 0
 
 @typing_filter(int)
 def mysql_find_in_set(s, ss):
-    if s is None:
+    if s is None or ss is None:
         return None
+    s, ss = ensure_str(s), ensure_str(ss)
     try:
-        return ensure_str(ss).split(",").index(s) + 1
+        return ss.split(",").index(s) + 1 if ss else 0
     except ValueError:
         return 0
 
-- 
2.43.0


From 6beebc7e26a72dfe67b2ff0526b0412af081f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:01 +0000
Subject: [PATCH 080/107] fix: the remainder of a division had the sign of the
 divisor

---
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 7a40605..87fe588 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -35,7 +35,8 @@ def mysql_div(x, y):
 def mysql_mod(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) % ensure_number(y)
+    x, y = ensure_number(x), ensure_number(y)
+    return -(-x % abs(y)) if x < 0 else x % abs(y)
 
 @typing_filter(int)
 def mysql_bitwiseand(x, y):
-- 
2.43.0


From 4854b69d215d4241d4576bddfba463e9b5e33477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:04 +0000
Subject: [PATCH 081/107] fix: ROUND and LOG of one argument gave NULL

---
 syncanysql/calculaters/mysql_calculater.py         | 2 +-
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/mysql_calculater.py b/syncanysql/calculaters/mysql_calculater.py
index dd43b1b..78ff29a 100644
--- a/syncanysql/calculaters/mysql_calculater.py
+++ b/syncanysql/calculaters/mysql_calculater.py
@@ -26,7 +26,7 @@ class MysqlCalculater(Calculater):
         if func is not None and isinstance(func, types.FunctionType):
             try:
                 argcount, varnames_count = func.__code__.co_argcount, len(func.__code__.co_varnames)
-                if argcount == varnames_count:
+                if argcount == varnames_count and not func.__defaults__:
                     if argcount == 0:
                         self.calculate = self.calculate0
                     elif argcount == 1:
diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 87fe588..db60cdc 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -200,13 +200,14 @@ def mysql_rand():
     return random.random()
 
 @typing_filter(float)
-def mysql_round(x, y=2):
+def mysql_round(x, y=0):
     if x is None or y is None:
         return None
     try:
-        return round(x, y)
+        return round(x, y) if y else round(x)
     except:
-        return round(ensure_number(x), ensure_int(y))
+        x, y = ensure_number(x), ensure_int(y)
+        return round(x, y) if y else round(x)
 
 @typing_filter(float)
 def mysql_sign(x):
-- 
2.43.0


From 5c097bb3474696c36d5a0017e1d374c771caecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:07 +0000
Subject: [PATCH 082/107] fix: the sign and the exponent were lost when a text
 was read as a number

---
 syncanysql/utils.py | 43 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 01686d3..aef6c52 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -4,8 +4,9 @@
 
 from decimal import Decimal
 import datetime
-import string
+import re
 
+NUMBER_PATTERN = re.compile(r"\s*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)")
 NumberTypes = (int, float)
 NumberDecimalTypes = (int, float, Decimal)
 NumberStringTypes = (int, float, str)
@@ -47,18 +48,14 @@ def split_arguments(value):
     return arguments
 
 def parse_number(x, is_float=False):
-    index, dot_index = -1, -1
-    for i in range(len(x)):
-        if x[i] in string.digits:
-            index = i
-            continue
-        if index >= 0 and is_float and dot_index < 0 and x[i] == ".":
-            dot_index = i
-            continue
-        break
-    if index < 0:
-        return float(x) if is_float else int(x)
-    return float(x[:index + 1]) if dot_index > 0 else int(x[:index + 1])
+    match = NUMBER_PATTERN.match(x)
+    if not match:
+        raise ValueError("invalid number: %r" % x)
+    number = match.group(1)
+    try:
+        return int(number)
+    except ValueError:
+        return float(number) if is_float else int(float(number))
 
 def ensure_int(x):
     if isinstance(x, int):
@@ -76,10 +73,7 @@ def ensure_int(x):
     if isinstance(x, datetime.time):
         return int(x.strftime("%H%M%S"))
     if isinstance(x, str):
-        try:
-            return int(x)
-        except:
-            return parse_number(x, False)
+        return parse_number(x, False)
     return int(x)
 
 def ensure_float(x):
@@ -98,10 +92,7 @@ def ensure_float(x):
     if isinstance(x, datetime.time):
         return float(x.strftime("%H%M%S")) + x.microsecond / 1000
     if isinstance(x, str):
-        try:
-            return float(x)
-        except:
-            return parse_number(x, True)
+        return parse_number(x, True)
     return float(x)
 
 def ensure_number(x):
@@ -114,15 +105,7 @@ def ensure_number(x):
     if x is True:
         return 1
     if isinstance(x, str):
-        if "." in x:
-            try:
-                return float(x)
-            except:
-                return ensure_float(x)
-        try:
-            return int(x)
-        except:
-            return ensure_int(x)
+        return parse_number(x, True)
     if isinstance(x, datetime.date):
         if isinstance(x, datetime.datetime):
             return int(x.strftime("%Y%m%d%H%M%S"))
-- 
2.43.0


From 65e9976a43be6e0404a648228685a4d288945def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:10 +0000
Subject: [PATCH 083/107] fix: REGEXP matched only at the start of a text, and
 never a number

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 022b2e0..85bf0ef 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 from syncany.calculaters import typing_filter
+from ...utils import ensure_str
 
 def parse_flags(match_type):
     if not match_type:
@@ -29,7 +30,7 @@ def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(ensure_str(r), ensure_str(s), parse_flags(match_type)) else 0
     except:
         return 0
 
@@ -38,7 +39,7 @@ def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(ensure_str(r), ensure_str(s), parse_flags(match_type)) else 0
     except:
         return 0
 
-- 
2.43.0


From 7679fb5d76587c9e7ee12f579292bb78464b090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 084/107] fix: REGEXP_REPLACE lost the text in front of the
 position, and all REGEXP functions took any position for the start of the
 text

---
 .../calculaters/mysql_funcs/regexp_funcs.py   | 63 +++++++------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 85bf0ef..d2d9d5b 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -25,6 +25,13 @@ def parse_flags(match_type):
             flags = flags | re.UNICODE
     return flags
 
+def find_occurrence(s, r, pos, occurrence, match_type):
+    for m in re.compile(ensure_str(r), parse_flags(match_type)).finditer(ensure_str(s), pos - 1):
+        if occurrence <= 1:
+            return m
+        occurrence -= 1
+    return None
+
 @typing_filter(int)
 def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
@@ -48,19 +55,10 @@ def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=No
     if r is None or s is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return 0
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return pos + (end_index if return_option else start_index)
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return 0
+        m = find_occurrence(s, r, pos, occurrence, match_type)
+        if not m:
+            return 0
+        return (m.end() if return_option else m.start()) + 1
     except:
         return 0
 
@@ -69,21 +67,17 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
     if r is None or s is None or rs is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
+        s = ensure_str(s)
         if occurrence <= 0:
-            return re.sub(r, rs, cs, count=0, flags=flags)
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return s
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return s[:pos + start_index - 1] + rs + s[pos + end_index - 1:]
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return s
+            texts, index = [], 0
+            for m in re.compile(ensure_str(r), parse_flags(match_type)).finditer(s, pos - 1):
+                texts.extend((s[index: m.start()], m.expand(ensure_str(rs))))
+                index = m.end()
+            return "".join(texts) + s[index:]
+        m = find_occurrence(s, r, pos, occurrence, match_type)
+        if not m:
+            return s
+        return s[:m.start()] + ensure_str(rs) + s[m.end():]
     except:
         return None
 
@@ -92,19 +86,8 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
     if r is None or s is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return None
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return cs[start_index:end_index]
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return None
+        m = find_occurrence(s, r, pos, occurrence, match_type)
+        return m.group() if m else None
     except:
         return None
 
-- 
2.43.0


From 275d90fca98c6d76be755fc0f978bd85a1892c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:43 +0000
Subject: [PATCH 085/107] fix: IS_IPV4 gave 1 for incomplete addresses

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 8847c74..63ecd7d 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -270,7 +270,7 @@ def mysql_is_ipv4(s):
     if s is None:
         return None
     try:
-        socket.inet_aton(s)
+        socket.inet_pton(socket.AF_INET, s)
         return 1
     except:
         return 0
-- 
2.43.0


From 61c4a6753661111d8a2b781db9516c7bbf82656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:07 +0000
Subject: [PATCH 086/107] fix: INSERT() was refused as a function, and inserted
 at positions outside of the text

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 6 +++++-
 syncanysql/compiler.py                             | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 63ecd7d..2ac04b2 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -95,8 +95,12 @@ mysql_concatws = mysql_concat_ws
 
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
+    if l is None:
+        return None
     s1, s2 = ensure_str(s1), ensure_str(s2)
-    return s1[: x - 1] + s2 + s1[x + l - 1:]
+    if x < 1 or x > len(s1):
+        return s1
+    return s1[: x - 1] + s2 + (s1[x + l - 1:] if l >= 0 else "")
 
 @typing_filter(str)
 def mysql_lower(s):
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3b6821d..6d47e57 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -71,6 +71,8 @@ class CompilerDialect(sqlglot_dialects.Dialect):
                 self._advance()
 
     class Parser(sqlglot_parser.Parser):
+        FUNC_TOKENS = {*sqlglot_parser.Parser.FUNC_TOKENS, tokens.TokenType.INSERT}
+
         FUNCTIONS = {
             **sqlglot_parser.Parser.FUNCTIONS,
             # sqlglot takes the last argument as the unit
-- 
2.43.0


From 738d29ae5219e417315ed7dbc1a98539dee3a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:40 +0000
Subject: [PATCH 087/107] fix: LOG gave NULL for a base that is a text

---
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index db60cdc..e1b79e1 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -166,7 +166,7 @@ def mysql_log(x, base=10):
     try:
         return math.log(x, base)
     except:
-        return math.log(ensure_number(x), base)
+        return math.log(ensure_number(x), ensure_number(base))
 
 @typing_filter(int)
 def mysql_ceil(x):
-- 
2.43.0


From 128d7dac96ae0c696e30dad151e33acb002d9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:29 +0000
Subject: [PATCH 088/107] fix: JSON_SET and JSON_REMOVE changed the stored
 document that they were given

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 4bc6b4d..47fab7a 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -2,6 +2,7 @@
 # 2023/3/14
 # create by: snower
 
+import copy
 import json
 from syncany.calculaters import typing_filter
 
@@ -248,6 +249,8 @@ def mysql_json_set(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         if not isinstance(json_doc, ArrayObjectTypes):
             json_doc = set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
@@ -261,6 +264,8 @@ def mysql_json_remove(json_doc, *paths):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for path in paths:
         remove_json_path_value(json_doc, path)
     return json_doc
-- 
2.43.0


From e13527ec7b3561d52b4511474dc837b60e456f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:31 +0000
Subject: [PATCH 089/107] fix: JSON_REMOVE in an element of an array removed
 the element, and others after it

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 47fab7a..1ff1814 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -154,9 +154,11 @@ def remove_json_path_value(json_data, json_path):
                             return json_data
                         del json_data[json_path_key]
                         return json_data
-                    if json_path_key < len(json_data):
-                        del json_data[json_path_key]
-                continue
+                    if json_path_key >= len(json_data):
+                        return json_data
+                    json_data = json_data[json_path_key]
+                    continue
+                return json_data
             if not isinstance(json_data, dict):
                 return json_data
             if json_path_key not in json_data:
-- 
2.43.0


From e0c72011209c4b2fe7b7d8de3b1803cfddbb4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:34 +0000
Subject: [PATCH 090/107] fix: JSON_CONTAINS_PATH did not find a null, and [*]
 left out the nulls

---
 .../calculaters/mysql_funcs/json_funcs.py     | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 1ff1814..9dc8fbb 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -8,6 +8,7 @@ from syncany.calculaters import typing_filter
 
 ArrayStringTypes = (list, str)
 ArrayObjectTypes = (list, dict)
+MISSING = object()
 
 
 def parse_json_path(json_path):
@@ -54,7 +55,7 @@ def parse_json_path(json_path):
         return json_path_keys
 
 
-def get_json_path_value(json_data, json_path):
+def get_json_path_value(json_data, json_path, default_value=None):
     if json_data is None:
         raise ValueError('value is None')
     if json_path and json_path[:2] == "$.":
@@ -68,10 +69,10 @@ def get_json_path_value(json_data, json_path):
             if isinstance(json_path_key, int):
                 if isinstance(json_data, ArrayStringTypes):
                     if json_path_key >= len(json_data):
-                        return None
+                        return MISSING
                     json_data = json_data[json_path_key]
                     continue
-                return None
+                return MISSING
             if json_path_key == "*":
                 if i + 1 >= len(json_path_keys):
                     return json_data
@@ -80,17 +81,18 @@ def get_json_path_value(json_data, json_path):
                 result = []
                 for d in json_data:
                     v = get_value(d, json_path_keys[i + 1:])
-                    if v is None:
+                    if v is MISSING:
                         continue
                     result.append(v)
                 return result
             if not isinstance(json_data, dict):
-                return None
+                return MISSING
             if json_path_key not in json_data:
-                return None
+                return MISSING
             json_data = json_data[json_path_key]
         return json_data
-    return get_value(json_data, parse_json_path(json_path))
+    value = get_value(json_data, parse_json_path(json_path))
+    return default_value if value is MISSING else value
 
 
 def set_json_path_value(json_data, json_path, value):
@@ -225,11 +227,11 @@ def mysql_json_contains_path(json_doc, one_or_all, *paths):
     if not one_or_all:
         one_or_all = "one"
     for path in paths:
-        json_value = get_json_path_value(json_doc, path)
+        json_value = get_json_path_value(json_doc, path, MISSING)
         if one_or_all.lower() == "one":
-            if json_value is not None:
+            if json_value is not MISSING:
                 return 1
-        elif json_value is None:
+        elif json_value is MISSING:
             return 0
     return 0 if one_or_all.lower() == "one" else 1
 
-- 
2.43.0


From b4b900e73a6ae3572a5a112edd981dff6ccd4e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 091/107] fix: a quoted key of a JSON path was never found

---
 .../calculaters/mysql_funcs/json_funcs.py     | 47 ++++---------------
 1 file changed, 8 insertions(+), 39 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 9dc8fbb..fd39c79 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -4,55 +4,24 @@
 
 import copy
 import json
+import re
 from syncany.calculaters import typing_filter
 
 ArrayStringTypes = (list, str)
 ArrayObjectTypes = (list, dict)
 MISSING = object()
+JSON_PATH_PATTERN = re.compile(r'(?:\."|\["|^")([^"]*)(?:"\]|")|\[\s*([^]"]*?)\s*\]|\.?([^.\[]+)')
 
 
 def parse_json_path(json_path):
-    if not json_path:
-        return []
-    try:
-        dot_index = json_path.index(".")
-    except ValueError:
-        dot_index = -1
-
     json_path_keys = []
-    try:
-        start_index = json_path.index("[")
-        if 0 < dot_index < start_index:
-            json_path_keys.append(json_path[:dot_index])
-            next_json_path = json_path[dot_index + 1:].strip(".")
-            if next_json_path:
-                json_path_keys.extend(parse_json_path(next_json_path))
-            return json_path_keys
-
-        end_index = json_path.index("]")
-        if start_index > 0:
-            json_path_keys.append(json_path[:start_index])
-        if end_index - start_index > 0:
-            json_path_key = json_path[start_index + 1: end_index]
-            if json_path_key.isdigit():
-                json_path_key = int(json_path_key)
-            elif json_path_key and json_path_key[0] == '"' and json_path_key[-1] == '"':
-                json_path_key = json_path_key[1:-1]
-            json_path_keys.append(json_path_key)
-
-        next_json_path = json_path[end_index + 1:].strip(".")
-        if next_json_path:
-            json_path_keys.extend(parse_json_path(next_json_path))
-        return json_path_keys
-    except ValueError:
-        if dot_index > 0:
-            json_path_keys.append(json_path[:dot_index])
-            next_json_path = json_path[dot_index + 1:].strip(".")
-            if next_json_path:
-                json_path_keys.extend(parse_json_path(next_json_path))
+    for match in JSON_PATH_PATTERN.finditer(json_path or ""):
+        quoted_key, index, key = match.groups()
+        if index is not None:
+            json_path_keys.append(int(index) if index.isdigit() else index)
         else:
-            json_path_keys.append(json_path)
-        return json_path_keys
+            json_path_keys.append(key if quoted_key is None else quoted_key)
+    return json_path_keys
 
 
 def get_json_path_value(json_data, json_path, default_value=None):
-- 
2.43.0


From b62af318828cba65ae63b8e89d4e720d892f358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:14 +0000
Subject: [PATCH 092/107] fix: imported generator functions gave the generator
 in place of the rows that it yields

---
 syncanysql/calculaters/__init__.py | 20 +++++++++++++-------
 syncanysql/compiler.py             |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index b2e351a..d0794c8 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -6,7 +6,7 @@ import os
 import types
 from syncany.calculaters import CALCULATERS, Calculater, TypeFormatCalculater, TypingCalculater, MathematicalCalculater
 from syncany.calculaters import register_calculater, find_calculater, CalculaterUnknownException
-from syncany.calculaters.import_calculater import ImportCalculater
+from syncany.calculaters.import_calculater import create_import_calculater
 from .env_variable_calculater import CurrentEnvVariableCalculater
 from .query_tasker_calculater import ExecuteQueryTaskerCalculater
 from .row_calculater import *
@@ -63,17 +63,23 @@ def is_mysql_func(name):
     return name in MysqlCalculater.funcs
 
 
-def find_generate_calculater(name):
-    calculater = find_calculater(name)
-    if issubclass(calculater, ImportCalculater):
+def find_generate_calculater(name, imports=None):
+    import_name, _, attr_names = name.partition("$")
+    module_or_func = (imports or {}).get(import_name)
+    if module_or_func:
         try:
-            import_calculater = ImportCalculater(name)
-            if isinstance(import_calculater.module_or_func, (types.FunctionType, types.LambdaType)):
-                if import_calculater.module_or_func.__code__.co_flags & 0x20 != 0:
+            if isinstance(module_or_func, str):
+                module_or_func = __import__(module_or_func, globals(), locals(), [module_or_func.rpartition(".")[-1]])
+            calculater = create_import_calculater(import_name, module_or_func)
+            if attr_names:
+                module_or_func = calculater(import_name + "::" + attr_names.replace("$", ".")).module_or_func
+            if isinstance(module_or_func, (types.FunctionType, types.LambdaType)):
+                if module_or_func.__code__.co_flags & 0x20 != 0:
                     return calculater
         except:
             pass
         raise CalculaterUnknownException("%s is unknown generate calculater" % name)
+    calculater = find_calculater(name)
     if not issubclass(calculater, GenerateCalculater):
         raise CalculaterUnknownException("%s is unknown generate calculater" % name)
     return calculater
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6d47e57..615a183 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1972,7 +1972,7 @@ class Compiler(object):
                     column.append(self.compile_calculate(arg_expression, config, arguments, primary_table, column_join_tables, join_index))
 
             try:
-                find_generate_calculater(calculater_name)
+                find_generate_calculater(calculater_name, self.config.get().get("imports"))
                 return ["#yield", column]
             except CalculaterUnknownException:
                 pass
-- 
2.43.0


From 4cbe96dee17222ee81c8809bfe0378286f05dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:31 +0000
Subject: [PATCH 093/107] fix: LIMIT counted the rows before a function yields
 its rows, and DISTINCT gave the generators

---
 syncanysql/compiler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 615a183..f32710c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -789,8 +789,9 @@ class Compiler(object):
             if having_condition:
                 config["intercept"] = having_condition
 
+        has_yield = self.is_yield_column(config["schema"])
         distinct_expression = expression.args.get("distinct")
-        if distinct_expression and (group_expression or (config.get("aggregate") and (config["aggregate"]["schema"]
+        if distinct_expression and (group_expression or has_yield or (config.get("aggregate") and (config["aggregate"]["schema"]
                                                                                       or config["aggregate"]["window_schema"]))):
             config["pipelines"].append([">>@distinct_rows", "$.*|array"])
         order_expression = expression.args.get("order")
@@ -802,7 +803,7 @@ class Compiler(object):
         if limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
+                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct") or has_yield:
                 if limit_value != 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value > 0 else limit_value])
@@ -815,7 +816,7 @@ class Compiler(object):
 
         if group_expression and ("aggregate" not in config or not config["aggregate"] or not config["aggregate"]["schema"]):
             self.compile_group_column(group_expression, config, arguments, primary_table, join_tables)
-        if distinct_expression and not group_expression and not (config.get("aggregate") and (config["aggregate"]["schema"]
+        if distinct_expression and not group_expression and not has_yield and not (config.get("aggregate") and (config["aggregate"]["schema"]
                                                                                              or config["aggregate"]["window_schema"])):
             self.compile_distinct_column(expression, config, arguments, primary_table, join_tables)
         if not from_expression and not primary_table["outputer_primary_keys"] and isinstance(config["schema"], dict):
@@ -3317,6 +3318,13 @@ class Compiler(object):
                                        sqlglot_expressions.Null, sqlglot_expressions.HexString, sqlglot_expressions.BitString,
                                        sqlglot_expressions.ByteString))
 
+    def is_yield_column(self, column):
+        if isinstance(column, dict):
+            return any(self.is_yield_column(value) for value in column.values())
+        if not isinstance(column, list) or not column or column[0] == "#const":
+            return False
+        return column[0] == "#yield" or any(self.is_yield_column(value) for value in column)
+
     def is_calculate(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Condition):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
-- 
2.43.0


From 17902eb3b39e978df4706f4f5f10af83ebcc045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:11 +0000
Subject: [PATCH 094/107] fix: a table joined through itself shared one loader
 with the join around it and lost its rows

---
 syncanysql/taskers/query.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index d9f7309..cbb6e44 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -10,6 +10,7 @@ import uuid
 from collections import defaultdict
 from syncany.logger import get_logger
 from syncany.taskers.core import CoreTasker
+from syncany.taskers.core.valuer_creater import ValuerCreater
 from syncany.hook import Hooker
 from syncany.taskers.tasker import _thread_local
 from syncany.main import TaskerYieldNext, warp_database_logging
@@ -52,6 +53,27 @@ class ReduceHooker(Hooker):
         self.tasker.run_reduce(self.executor, self.session_config, self.manager, self.arguments, False)
 
 
+class QueryValuerCreater(ValuerCreater):
+    # a join inside the value of another join is filled while the loader of the outer one hands out its rows,
+    # so they can not share a loader even if both of them read the same table by the same keys
+    def set_join_depth(self, valuer, join_depth):
+        if isinstance(valuer, dict):
+            is_join = valuer.get("name") == "db_join_valuer" and isinstance(valuer.get("loader"), dict)
+            if is_join:
+                valuer["loader"]["join_depth"] = join_depth
+            for key, value in valuer.items():
+                self.set_join_depth(value, join_depth + 1 if is_join and key in ("intercept_valuer", "return_valuer")
+                                    else join_depth)
+        elif isinstance(valuer, (list, tuple)):
+            for value in valuer:
+                self.set_join_depth(value, join_depth)
+
+    def create_db_join_valuer(self, config, **kwargs):
+        if "join_depth" not in config["loader"]:
+            self.set_join_depth(config, 0)
+        return super(QueryValuerCreater, self).create_db_join_valuer(config, **kwargs)
+
+
 class CopyRowsHooker(Hooker):
     # rows selected by * are the rows of the source itself and must not be shared with the output
     def loaded(self, tasker, datas):
@@ -153,6 +175,7 @@ class QueryTasker(object):
         if self.tasker_index <= 0:
             self.tasker_index = executor.distribute_tasker_index()
         tasker = CoreTasker(self.config, manager)
+        tasker.valuer_creater = QueryValuerCreater(tasker)
         if "#" not in tasker.config["name"]:
             tasker.config["name"] = tasker.config["name"] + "#select"
         if tasker.config["schema"] == "$.*":
-- 
2.43.0


From 58817de9dc1cf345c1c4cc6a53e8607da63aa962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:10 +0000
Subject: [PATCH 095/107] fix: tables joined independently were paired up
 instead of multiplied, or lost with their rows

---
 syncanysql/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f32710c..eaf88e7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1001,7 +1001,8 @@ class Compiler(object):
         for join_table_name, join_table in join_tables.items():
             ref_table_names = {join_column["table_name"] for join_column in join_table["join_columns"]
                                if join_column["table_name"] and join_column["table_name"] != primary_table["table_name"]}
-            if previous_table_names and previous_table_names[-1] not in ref_table_names:
+            if previous_table_names and previous_table_names[-1] not in ref_table_names \
+                    and [join_table for join_table in join_tables.values() if not join_table["calculate_expressions"]]:
                 return [join_tables[table_name] for table_name in join_tables if table_name in table_names]
             previous_table_names.append(join_table_name)
         return list(join_tables.values())
-- 
2.43.0


From 1d1ade21cb2efa33f7440e7b83ea8754ab1be2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:44 +0000
Subject: [PATCH 096/107] fix: correlated subqueries of a joined query read the
 columns of the outer row in the wrong table

---
 syncanysql/compiler.py | 52 ++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index eaf88e7..8327122 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1218,7 +1218,10 @@ class Compiler(object):
                         return left_column, ["@convert_array", value_column]
                     return left_column, ["@convert_array", value_column, ":$.:0"]
                 # a correlated subquery has a different value for each row
-                setattr(right_expression, "syncany_valuer", value_column)
+                if join_tables:
+                    setattr(right_expression, "syncany_typing_filters", left_column["typing_filters"] if left_column else None)
+                else:
+                    setattr(right_expression, "syncany_valuer", value_column)
                 return None, None
             if not has_column_expression(right_expression):
                 right_calculater = self.compile_where_condition_column(right_expression, config, arguments, primary_table, join_tables)
@@ -1320,13 +1323,15 @@ class Compiler(object):
             if not expression_column["table_name"] or expression_column["table_name"] == primary_table["table_name"]:
                 return self.compile_column(expression, config, arguments, expression_column)
 
-        def parse_calculate_expression(condition_expression):
+        def parse_calculate_expression(condition_expression, column_join_tables):
             if hasattr(condition_expression, "syncany_valuer"):
                 return
             if not isinstance(condition_expression, sqlglot_expressions.Expression):
                 return
             if self.is_subquery(condition_expression, config, arguments):
-                condition_query_condition = self.compile_query_condition(condition_expression, config, arguments, primary_table, join_tables, None)
+                condition_query_condition = self.compile_query_condition(condition_expression, config, arguments, primary_table, join_tables,
+                                                                         getattr(condition_expression, "syncany_typing_filters", None),
+                                                                         column_join_tables)
                 setattr(condition_expression, "syncany_valuer", condition_query_condition)
                 return
             if self.is_column(condition_expression, config, arguments) or self.is_const(condition_expression, config, arguments):
@@ -1336,22 +1341,23 @@ class Compiler(object):
                     for child_expression_item in child_expression:
                         if not isinstance(child_expression_item, sqlglot_expressions.Expression) or self.is_const(child_expression_item, config, arguments):
                             continue
-                        parse_calculate_expression(child_expression_item)
+                        parse_calculate_expression(child_expression_item, column_join_tables)
                 else:
                     if not isinstance(child_expression, sqlglot_expressions.Expression) or self.is_const(child_expression, config, arguments):
                         continue
-                    parse_calculate_expression(child_expression)
-        parse_calculate_expression(expression)
+                    parse_calculate_expression(child_expression, column_join_tables)
 
         calculate_fields = []
         self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
         calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
                             and calculate_field["table_name"] != primary_table["table_name"]]
-        if not calculate_fields:
+        subquery_table_names = self.parse_subquery_join_tables(expression, config, arguments, join_tables)
+        if not calculate_fields and not subquery_table_names:
+            parse_calculate_expression(expression, [])
             return self.compile_calculate(expression, config, arguments, primary_table, [])
 
         column_join_tables = []
-        calculate_table_names = set([])
+        calculate_table_names = set(subquery_table_names)
         for calculate_field in calculate_fields:
             if calculate_field["table_name"] not in join_tables:
                 raise SyncanySqlCompileException('error join column, join table %s unknown, related sql "%s"' %
@@ -1360,10 +1366,23 @@ class Compiler(object):
         self.compile_join_column_tables(expression, config, arguments, primary_table,
                                         self.find_column_join_tables(calculate_table_names, primary_table, join_tables),
                                         join_tables, column_join_tables)
+        parse_calculate_expression(expression, column_join_tables)
         calculate_column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
         return self.compile_join_column(expression, config, arguments, primary_table, calculate_column, column_join_tables)
 
-    def compile_query_condition(self, expression, config, arguments, primary_table, join_tables, typing_filters):
+    def parse_subquery_join_tables(self, expression, config, arguments, join_tables):
+        # the joined tables that the subqueries of the expression refer to
+        join_table_names = set([])
+        for select_expression in expression.find_all(sqlglot_expressions.Select):
+            table_names = {table_expression.alias_or_name for table_expression
+                           in select_expression.find_all(sqlglot_expressions.Table, sqlglot_expressions.Subquery)}
+            for column_expression in select_expression.find_all(sqlglot_expressions.Column):
+                if column_expression.table and column_expression.table in join_tables and column_expression.table not in table_names:
+                    join_table_names.add(column_expression.table)
+        return join_table_names
+
+    def compile_query_condition(self, expression, config, arguments, primary_table, join_tables, typing_filters,
+                                column_join_tables=None, join_index=-1):
         def parse_subquery_select_column_name(subquery_config, exclude_keys=None):
             if isinstance(subquery_config["schema"], dict):
                 subquery_schema = subquery_config["schema"]
@@ -1387,8 +1406,13 @@ class Compiler(object):
                                    and func_expression.key.lower() in ("exists", "yield_array"))
         subquery_interceptor_column = None
         for interceptor_expression in subquery_interceptor_expressions[::-1]:
-            interceptor_column = self.compile_query_condition_column(interceptor_expression, config, arguments, primary_table,
-                                                                     join_tables, None, -2)
+            if column_join_tables:
+                # the subquery is read from within these joins
+                interceptor_column = self.compile_calculate(interceptor_expression, config, arguments, primary_table,
+                                                            column_join_tables, join_index - 1)
+            else:
+                interceptor_column = self.compile_query_condition_column(interceptor_expression, config, arguments, primary_table,
+                                                                         join_tables, None, -2)
             if subquery_interceptor_column is None:
                 subquery_interceptor_column = ["#if", interceptor_column, ["#const", 1], ["#const", 0]]
             else:
@@ -1417,6 +1441,10 @@ class Compiler(object):
         join_keys, join_key_columns = [], []
         for _, join_parent_column in subquery_join_patent_columns.items():
             join_keys.append(join_parent_column["column_alias"])
+            if column_join_tables:
+                join_key_columns.append(self.compile_calculate(join_parent_column["parent_column"]["expression"], config, arguments,
+                                                               primary_table, column_join_tables, join_index))
+                continue
             join_key_columns.append(self.compile_query_condition_column(join_parent_column["parent_column"]["expression"], config, arguments,
                                                                         primary_table, join_tables, join_parent_column["parent_column"]))
         if is_not_extracting_value:
@@ -2081,7 +2109,7 @@ class Compiler(object):
         elif self.is_subquery(expression, config, arguments):
             return self.compile_query_condition(expression, config, arguments, primary_table,
                                                 {column_join_table["name"]: column_join_table for column_join_table in column_join_tables},
-                                                None)
+                                                None, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
-- 
2.43.0


From b23014365673763f0e9eb106c18b2621b589e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:13 +0000
Subject: [PATCH 097/107] fix: window functions of a joined query lost the rows
 of the joins when they use no joined column

---
 syncanysql/compiler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8327122..ba67426 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1768,7 +1768,7 @@ class Compiler(object):
             order_column = self.compile_window_order(order_expression, config, arguments, primary_table,
                                                      join_tables) if order_expression else None
             value_column = self.compile_window_value(window_expression.args["this"], config, arguments, primary_table,
-                                                     join_tables, value_expressions) if value_expressions else None
+                                                     join_tables, value_expressions) if value_expressions or join_tables else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
             # windows with the same key names share their partitions, different PARTITION BY expressions must not
             partition_key = "partition_key_" + hashlib.md5(",".join(
@@ -1870,9 +1870,9 @@ class Compiler(object):
     def compile_window_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
                                                                             sqlglot_expressions.Star):
-            return [["#const", 0]]
+            return [self.compile_unjoined_column(expression, config, arguments, primary_table, join_tables, ["#const", 0])]
         if not value_expressions:
-            return [["#const", None]]
+            return [self.compile_unjoined_column(expression, config, arguments, primary_table, join_tables, ["#const", None])]
 
         value_column = []
         for value_expression in value_expressions:
@@ -1881,7 +1881,7 @@ class Compiler(object):
             calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
                                 and calculate_field["table_name"] != primary_table["table_name"]]
             if not calculate_fields:
-                value_column.append(self.compile_calculate(value_expression, config, arguments, primary_table, []))
+                value_column.append(self.compile_unjoined_column(value_expression, config, arguments, primary_table, join_tables))
                 continue
 
             column_join_tables = []
-- 
2.43.0


From 3a31acc0d76c223d192ea1320622693aaa541b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:33 +0000
Subject: [PATCH 098/107] fix: a joined query with window functions returned
 its columns in another order than they are selected in

---
 syncanysql/taskers/query.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index cbb6e44..3ec18d5 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -80,6 +80,15 @@ class CopyRowsHooker(Hooker):
         return [dict(data) if isinstance(data, dict) else data for data in datas]
 
 
+class OrderColumnsHooker(Hooker):
+    # the rows made from the matches of joins get the joined columns after the others
+    def loaded(self, tasker, datas):
+        if not isinstance(tasker.schema, dict):
+            return datas
+        return [{key: data[key] for key in tasker.schema} if isinstance(data, dict) and data.keys() == tasker.schema.keys()
+                else data for data in datas]
+
+
 class QueryTaskerTemporaryMemoryManager(object):
     def __init__(self):
         self.collections = defaultdict(int)
@@ -180,6 +189,8 @@ class QueryTasker(object):
             tasker.config["name"] = tasker.config["name"] + "#select"
         if tasker.config["schema"] == "$.*":
             tasker.add_hooker(CopyRowsHooker())
+        elif aggregate and aggregate["window_schema"]:
+            tasker.add_hooker(OrderColumnsHooker())
         if self.reduce_config and "_aggregate_key_" in self.reduce_config["schema"]:
             tasker.add_hooker(ReduceHooker(executor, session_config, manager, arguments,
                                            self, copy.deepcopy(self.config), batch, aggregate))
-- 
2.43.0


From ac720fa973e70dbc5f7ffc11a22d67a04ed60b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:04 +0000
Subject: [PATCH 099/107] fix: a layer giving an empty list of virtual views,
 and a view removed from a session, dropped the views of the configuration

---
 syncanysql/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 22294d2..be31f66 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -251,7 +251,7 @@ class GlobalConfig(object):
                         if d["name"] in vs:
                             virtual_views = vs[d["name"]].get("virtual_views")
                             vs[d["name"]].update(d)
-                            if virtual_views and d.get("virtual_views"):
+                            if virtual_views and isinstance(d.get("virtual_views"), list):
                                 # the first matching view is used
                                 names = set(view.get("name") for view in d["virtual_views"])
                                 vs[d["name"]]["virtual_views"] = d["virtual_views"] + [
-- 
2.43.0


From f74b1ff6de0a08ce03da5d97a6857982bb7a5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:57 +0000
Subject: [PATCH 100/107] fix: the column names of a common table expression or
 derived table, x(a, b), were ignored and selected as NULL

---
 syncanysql/compiler.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ba67426..51a9678 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -324,7 +324,7 @@ class Compiler(object):
                 self.recursive_tables.append(table_name)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             try:
-                subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+                subquery_config = self.compile_query(self.rewrite_alias_columns(sub_expression, config, arguments), subquery_arguments)
             finally:
                 if expression.args.get("recursive"):
                     self.recursive_tables.pop()
@@ -351,7 +351,7 @@ class Compiler(object):
             subquery_name = "__subquery_" + str(uuid.uuid1().int) + "_" + table_name
         subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
         subquery_config = self.compile_query(expression if not isinstance(expression, sqlglot_expressions.Subquery)
-                                             else expression.args["this"], subquery_arguments)
+                                             else self.rewrite_alias_columns(expression, {}, arguments), subquery_arguments)
         subquery_config["output"] = "&.--." + subquery_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
         subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
         arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -471,6 +471,30 @@ class Compiler(object):
                                              % self.to_sql(expression))
         return self.rewrite_select_names(select_expression, select_names, [column.name for column in column_expressions], config, arguments)
 
+    def rewrite_alias_columns(self, expression, config, arguments):
+        # name(column, ...): the selected columns are named by position
+        alias_expression, select_expression = expression.args.get("alias"), expression.args["this"]
+        column_expressions = alias_expression.args.get("columns") if alias_expression else None
+        if not column_expressions:
+            return select_expression
+        select_names = self.parse_select_names(select_expression, config, arguments)
+        if select_names is None or len(select_names) != len(column_expressions):
+            raise SyncanySqlCompileException('error column names of %s, column count does not match select column count, related sql "%s"'
+                                             % (alias_expression.name, self.to_sql(expression)))
+        column_names = [column.name for column in column_expressions]
+        if self.recursive_tables and isinstance(select_expression, sqlglot_expressions.Union):
+            # the selects of a recursive table take the names of the first one
+            first_select_expression = self.parse_first_select(select_expression)
+            first_select_expression.set("expressions", [
+                sqlglot_expressions.alias_(column.args["this"] if isinstance(column, sqlglot_expressions.Alias) else column, column_names[i])
+                for i, column in enumerate(first_select_expression.args["expressions"])])
+            return select_expression
+        with_expression = select_expression.args.get("with")
+        select_expression = self.rewrite_select_names(select_expression, select_names, column_names, config, arguments)
+        if with_expression:
+            select_expression.set("with", with_expression)
+        return select_expression
+
     def parse_first_select(self, expression):
         while isinstance(expression, (sqlglot_expressions.Union, sqlglot_expressions.Subquery)):
             expression = expression.args["this"]
-- 
2.43.0


From f9c2fd6531855ba5d5d0f0741c79324eaf1e1f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:50 +0000
Subject: [PATCH 101/107] fix: a recursive table of UNION kept the rows that
 were there already and never ended on a cycle

---
 syncanysql/compiler.py      |  8 ++++++++
 syncanysql/taskers/query.py | 24 ++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 51a9678..bc50802 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -332,8 +332,16 @@ class Compiler(object):
             subquery_config["name"] = subquery_config["name"] + "#" + with_name[2:] + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             output_db_table_name = subquery_config["output"].split("::")[0]
+            distinct, union_expression = False, sub_expression.args["this"]
+            while isinstance(union_expression, sqlglot_expressions.Union):
+                # a chain of unions nests to the right
+                distinct, union_expression = distinct or bool(union_expression.args.get("distinct")), union_expression.args["expression"]
             for dependency_config in (subquery_config.get("dependencys") or []):
                 if isinstance(dependency_config.get("input"), str) and dependency_config["input"].startswith(output_db_table_name):
+                    if distinct:
+                        # a row that is there already is neither added nor followed again
+                        for distinct_dependency_config in subquery_config["dependencys"]:
+                            distinct_dependency_config["distinct_rows"] = True
                     dependency_config["input"] = dependency_config["output"].split(" ")[0]
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@batch"] = 1
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 3ec18d5..a7a6f14 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -14,6 +14,7 @@ from syncany.taskers.core.valuer_creater import ValuerCreater
 from syncany.hook import Hooker
 from syncany.taskers.tasker import _thread_local
 from syncany.main import TaskerYieldNext, warp_database_logging
+from ..calculaters.row_calculater import DistinctRowsCalculater
 
 
 DEAULT_AGGREGATE = {"key": None, "schema": {}, "window_schema": {}, "having_columns": set([]),
@@ -89,9 +90,26 @@ class OrderColumnsHooker(Hooker):
                 else data for data in datas]
 
 
+class DistinctRowsHooker(Hooker):
+    def __init__(self, distinct_rows):
+        self.distinct_rows = distinct_rows
+        self.calculater = DistinctRowsCalculater("distinct_rows")
+
+    def loaded(self, tasker, datas):
+        distinct_datas = []
+        for data in datas:
+            key = self.calculater.make_key(data)
+            if key in self.distinct_rows:
+                continue
+            self.distinct_rows.add(key)
+            distinct_datas.append(data)
+        return distinct_datas
+
+
 class QueryTaskerTemporaryMemoryManager(object):
     def __init__(self):
         self.collections = defaultdict(int)
+        self.distinct_rows = defaultdict(set)
 
     def add_collection(self, name):
         if name not in self.collections:
@@ -126,6 +144,7 @@ class QueryTasker(object):
         self.config = config
         self.sql_expression = sql_expression
         self.reduce_config = None
+        self.distinct_rows = False
         self.tasker = None
         self.output_name = ""
         self.output_keys = None
@@ -141,6 +160,7 @@ class QueryTasker(object):
     def start(self, name, executor, session_config, manager, arguments):
         # batches and aggregates write to a temporary collection first, the rows always end up in this one
         self.output_name = self.config["output"].split("&.")[-1].split("::")[0]
+        self.distinct_rows = self.config.pop("distinct_rows", False)
         dependency_taskers, aggregate = [], self.config.pop("aggregate", None)
         if aggregate and aggregate.get("distinct_keys"):
             self.config, distinct_config = self.compile_distinct_config(aggregate), self.config
@@ -191,6 +211,8 @@ class QueryTasker(object):
             tasker.add_hooker(CopyRowsHooker())
         elif aggregate and aggregate["window_schema"]:
             tasker.add_hooker(OrderColumnsHooker())
+        if self.distinct_rows and not self.reduce_config:
+            tasker.add_hooker(DistinctRowsHooker(self.temporary_memory_manager.distinct_rows[self.output_name]))
         if self.reduce_config and "_aggregate_key_" in self.reduce_config["schema"]:
             tasker.add_hooker(ReduceHooker(executor, session_config, manager, arguments,
                                            self, copy.deepcopy(self.config), batch, aggregate))
@@ -416,6 +438,8 @@ class QueryTasker(object):
         tasker = CoreTasker(config, manager)
         if final_reduce:
             self.output_keys = tuple(config["schema"].keys())
+            if self.distinct_rows:
+                tasker.add_hooker(DistinctRowsHooker(self.temporary_memory_manager.distinct_rows[self.output_name]))
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
         self.compile_tasker(arguments, tasker)
-- 
2.43.0


From bb05d7e6e20bb57a35bd24e5d283011d9473cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:06 +0000
Subject: [PATCH 102/107] fix: a recursive table that its own rule joins, or
 reads through another query, silently stayed at its first rows

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index bc50802..1a37083 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -565,6 +565,12 @@ class Compiler(object):
         # the selects of a recursive table have to read and write that table themselves
         recursive = [select_expression for select_expression in select_expressions
                      if self.is_recursive_select(select_expression)]
+        for select_expression in select_expressions if self.recursive_tables else []:
+            if any(table_expression.name and self.mapping.get(table_expression.name, table_expression.name) in self.recursive_tables
+                   and not table_expression.args.get("db") for table_expression in select_expression.find_all(sqlglot_expressions.Table)) \
+                    and select_expression not in recursive:
+                raise SyncanySqlCompileException('error recursive table, it can only be selected from directly, related sql "%s"'
+                                                 % self.to_sql(select_expression))
         last_expression = expression
         while isinstance(last_expression, sqlglot_expressions.Union):
             last_expression = last_expression.args["expression"]
-- 
2.43.0


From a0baba90fb8cb28923aa1299523b60a0949de174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:43 +0000
Subject: [PATCH 103/107] fix: naming the columns of a select that selects a
 subquery (unions, insert columns, column names) failed

---
 syncanysql/compiler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1a37083..db566bc 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -494,7 +494,7 @@ class Compiler(object):
             # the selects of a recursive table take the names of the first one
             first_select_expression = self.parse_first_select(select_expression)
             first_select_expression.set("expressions", [
-                sqlglot_expressions.alias_(column.args["this"] if isinstance(column, sqlglot_expressions.Alias) else column, column_names[i])
+                self.rewrite_column_name(column, column_names[i])
                 for i, column in enumerate(first_select_expression.args["expressions"])])
             return select_expression
         with_expression = select_expression.args.get("with")
@@ -519,14 +519,18 @@ class Compiler(object):
             select_names.append(self.mapping.get(column.alias_or_name, column.alias_or_name))
         return select_names
 
+    def rewrite_column_name(self, column, column_name):
+        # alias_ names a subquery as a table and not as a column
+        return sqlglot_expressions.Alias(this=column.args["this"] if isinstance(column, sqlglot_expressions.Alias) else column,
+                                         alias=sqlglot_expressions.to_identifier(column_name))
+
     def rewrite_select_names(self, expression, select_names, column_names, config, arguments):
         first_select_expression, select_names = self.parse_first_select(expression), list(select_names)
         select_columns = first_select_expression.args["expressions"]
         for i, column in enumerate(tuple(select_columns)):
             if select_names[i] is None or select_names[i] in select_names[:i]:
                 column_name = "__select_column_" + str(i)
-                select_columns[i] = sqlglot_expressions.alias_(column.args["this"] if isinstance(column, sqlglot_expressions.Alias)
-                                                               else column, column_name)
+                select_columns[i] = self.rewrite_column_name(column, column_name)
                 select_names[i] = column_name
             else:
                 select_names[i] = column.alias_or_name
@@ -595,7 +599,7 @@ class Compiler(object):
                     continue
                 if recursive:
                     select_expressions[i].set("expressions", [
-                        sqlglot_expressions.alias_(column.args["this"] if isinstance(column, sqlglot_expressions.Alias) else column, column_names[j])
+                        self.rewrite_column_name(column, column_names[j])
                         for j, column in enumerate(select_expressions[i].args["expressions"])])
                 else:
                     select_expressions[i] = self.rewrite_select_names(select_expressions[i], select_names, column_names, config, arguments)
-- 
2.43.0


From 46fcf48d746edb3d94edc8dd3888ab8e8c723416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:52 +0000
Subject: [PATCH 104/107] fix: naming the columns of a recursive table whose
 first select has a HAVING failed

---
 syncanysql/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index db566bc..5586191 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -493,6 +493,11 @@ class Compiler(object):
         if self.recursive_tables and isinstance(select_expression, sqlglot_expressions.Union):
             # the selects of a recursive table take the names of the first one
             first_select_expression = self.parse_first_select(select_expression)
+            if first_select_expression.args.get("having"):
+                # a having is written with the names the select has itself
+                union_expression = first_select_expression.parent
+                union_expression.set("this", self.rewrite_select_names(first_select_expression, select_names, column_names, config, arguments))
+                return select_expression
             first_select_expression.set("expressions", [
                 self.rewrite_column_name(column, column_names[i])
                 for i, column in enumerate(first_select_expression.args["expressions"])])
-- 
2.43.0


From 9895374dbc9d3d640b4cbf8365f2f4b9cc551369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:22 +0000
Subject: [PATCH 105/107] fix: a WHERE or ON condition on a value inside of a
 document kept no row, and ORDER BY one failed, for sources that compare whole
 columns only

---
 syncanysql/compiler.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5586191..1d4dca1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1244,6 +1244,8 @@ class Compiler(object):
             if left_column["convert_typing_filter"] in ("int", "float", "decimal", "str", "bool"):
                 # the source would compare the value as it is stored
                 return None, None
+            if self.is_path_column(left_column, config, primary_table):
+                return None, None
             if self.is_conflict_query(expression, left_column, config["querys"]):
                 return None, None
 
@@ -1346,6 +1348,15 @@ class Compiler(object):
         else:
             return expression
 
+    def is_path_column(self, column, config, table):
+        # these sources compare the values of whole columns only and do not find the value at a path
+        if "." not in column["column_name"]:
+            return False
+        for database in (config.get("databases") or []) + (self.config.get().get("databases") or []):
+            if database["name"] == table["db"]:
+                return database["driver"] in ("memory", "json", "textline", "redis", "http", "beanstalk")
+        return False
+
     def is_conflict_query(self, expression, condition_column, querys):
         # a loader keeps one bound per column and merges equality conditions of the same column into a single in condition
         if isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.In)):
@@ -2402,9 +2413,10 @@ class Compiler(object):
         for order_expression in expression:
             is_column = self.is_column(order_expression.args["this"], config, arguments)
             column = self.parse_column(order_expression.args["this"], config, arguments) if is_column else None
-            if column is None or column["typing_filters"]:
+            is_path_column = column is not None and self.is_path_column(column, config, primary_table)
+            if column is None or column["typing_filters"] or is_path_column:
                 if isinstance(config["schema"], dict):
-                    if self.generate_sql(order_expression.args["this"]) in config["schema"]:
+                    if not is_path_column and self.generate_sql(order_expression.args["this"]) in config["schema"]:
                         sort_keys.append((self.generate_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
                         continue
                     has_column = False
@@ -2417,7 +2429,7 @@ class Compiler(object):
                             break
                     if has_column:
                         continue
-                if column is None:
+                if column is None or is_path_column:
                     raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
                                                      % self.to_sql(expression))
             if not isinstance(config["schema"], dict) or (column["table_name"] and primary_table["table_name"] == column["table_name"]):
@@ -2636,6 +2648,7 @@ class Compiler(object):
 
             # only conditions on a column of the join table can be sent to its loader, and only one of each kind per column
             if condition_column and (condition_column["table_name"] != join_table["name"]
+                                     or self.is_path_column(condition_column, config, join_table)
                                      or self.is_conflict_query(expression, condition_column, join_table["querys"])):
                 condition_column = None
             calculate_fields = []
-- 
2.43.0


From 8297a27db2a4eb8b6ce8b0254ddbf414c4195a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:40 +0000
Subject: [PATCH 106/107] fix: get_value of a column of the primary table gave
 NULL in the WHERE of a joined query and in a correlated subquery

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1d4dca1..e93848a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2010,7 +2010,7 @@ class Compiler(object):
                     if len(get_value_expressions) >= 2:
                         column.append(get_value_parse(get_value_expressions[1:]))
                     return column[0] if len(column) == 1 else column
-                if not isinstance(column[0], str):
+                if not isinstance(column[0], str) or column[0].startswith("$$"):
                     column = ["#if", True, column[0], None]
                 column.append(get_value_parse(get_value_expressions[1:]))
                 return column
-- 
2.43.0


From e614c0f61a8659883cb3ba1ba48dcdbdae884a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:59 +0000
Subject: [PATCH 107/107] fix: a subquery selecting an unnamed expression with
 a dot, a bar or a colon in it was read as a path and gave nothing

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e93848a..8d05773 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1458,6 +1458,12 @@ class Compiler(object):
 
         subquery_join_parent_expression, subquery_join_patent_columns, subquery_interceptor_expressions = self.parse_subquery(
             expression, config, arguments, primary_table, join_tables)
+        select_expressions = self.parse_first_select(subquery_join_parent_expression or expression).args.get("expressions")
+        if select_expressions and not isinstance(select_expressions[0], (sqlglot_expressions.Alias, sqlglot_expressions.Star)) \
+                and not self.is_column(select_expressions[0], config, arguments) \
+                and any(c in self.generate_sql(select_expressions[0]) for c in ".|:"):
+            # the name of the column would be read as a path or as a type
+            select_expressions[0] = self.rewrite_column_name(select_expressions[0], "subquery_value")
         func_expression = expression.parent
         is_not_extracting_value = (func_expression and isinstance(func_expression, (sqlglot_expressions.Anonymous,
                                                                                sqlglot_expressions.Binary, sqlglot_expressions.Condition))
-- 
2.43.0

