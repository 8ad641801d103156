From 45fe57b6c81b11902e4e64d5b5ad6917e757b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:30 +0000
Subject: [PATCH 01/69] fix: filter placeholders of groups, bracketed
 attributes and strings never collide

---
 src/filter.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..f8f4057 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -123,7 +123,11 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = Filter._get_free_placeholder_index(
+                        bracket_open_index - len(complex_attr_rep),
+                        string_values,
+                        parsed_complex_ops,
+                    )
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -183,7 +187,7 @@ class Filter:
                 issues.merge(issues=parsed.issues)
             return Invalid, issues
 
-        if bracket_open_index and bracket_open_index not in parsed_complex_ops:
+        if bracket_open_index is not None:
             issues.add(
                 issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),
                 proceed=False,
@@ -236,23 +240,26 @@ class Filter:
                     issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
             if bracket_open and bracket_cnt == 0:
                 group_op_exp = op_exp[bracket_open_index : i + 1]
+                group_op_index = Filter._get_free_placeholder_index(
+                    bracket_open_index, string_values, parsed_complex_ops, parsed_group_ops
+                )
                 parsed_group_op, issues_ = Filter._parse_operator(
                     op_exp=group_op_exp[1:-1],  # without enclosing brackets
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                parsed_group_ops[group_op_index] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(group_op_index), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
@@ -619,6 +626,12 @@ class Filter:
         )
         return Invalid, issues
 
+    @staticmethod
+    def _get_free_placeholder_index(index: int, *taken: Dict) -> int:
+        while any(index in indexes for indexes in taken):
+            index += 1
+        return index
+
     @staticmethod
     def _get_parsed_group_or_complex_op(
         op_exp: str,
-- 
2.43.0


From a0d254de507cfedc7f356f2878f4e7a8f21d03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:32 +0000
Subject: [PATCH 02/69] fix: filter numbers keep their exact value and only
 numeric literals are accepted as numbers

---
 src/utils.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/utils.py b/src/utils.py
index 030c99a..947b158 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,8 +1,10 @@
+import math
 import re
 from typing import Any, Optional
 
 OP_REGEX = re.compile(r"\s+", flags=re.DOTALL)
 PLACEHOLDER_REGEX = re.compile(r"\|&PLACE_HOLDER_(\d+)&\|")
+NUMBER_REGEX = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", flags=re.ASCII)
 STRING_VALUES_REGEX = re.compile(r"'(.*?)'|\"(.*?)\"", flags=re.DOTALL)
 
 
@@ -18,12 +20,7 @@ def parse_placeholder(exp: str) -> Optional[int]:
 
 
 def parse_comparison_value(value: str) -> Any:
-    if (
-        value.startswith('"')
-        and value.endswith('"')
-        or value.startswith("'")
-        and value.endswith("'")
-    ):
+    if len(value) > 1 and value[0] == value[-1] and value[0] in "\"'":
         value = value[1:-1]
     elif value == "false":
         value = False
@@ -32,10 +29,13 @@ def parse_comparison_value(value: str) -> Any:
     elif value == "null":
         value = None
     else:
-        parsed = float(value)
-        parsed_int = int(parsed)
-        if parsed == parsed_int:
-            value = parsed_int
-        else:
-            value = parsed
+        if not NUMBER_REGEX.fullmatch(value):
+            raise ValueError(f"bad comparison value {value!r}")
+        try:
+            return int(value)
+        except ValueError:
+            parsed = float(value)
+        if math.isinf(parsed):
+            raise ValueError(f"bad comparison value {value!r}")
+        value = int(parsed) if parsed.is_integer() else parsed
     return value
-- 
2.43.0


From cede3ae6baa725e45807f69ff45a2971466a5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:36 +0000
Subject: [PATCH 03/69] fix: schema URIs with hyphens or and/or/not segments
 are accepted in filters

---
 src/filter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index f8f4057..b1e90da 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,9 +17,17 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL)
-AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL)
-NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL)
+# attribute names and schema URIs may contain 'or', 'and', 'not' between these characters
+_NOT_IN_ATTR_NAME = (r"(?<![\w:.-])", r"(?![\w:.-])")
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    r"\s*{}or{}\s*".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL
+)
+AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    r"\s*{}and{}\s*".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL
+)
+NOT_LOGICAL_OPERATOR_REGEX = re.compile(
+    r"\s*{}not{}\s*(.*)".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL
+)
 
 _UNARY_ATTR_OPERATORS = {
     "pr": op.Present,
@@ -104,7 +112,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
-- 
2.43.0


From f580780c86b6aac25ef1b683007adc9fc3f26fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 04/69] fix: logical operators in filters are case-insensitive

---
 src/filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index b1e90da..69c46c2 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -20,13 +20,13 @@ if TYPE_CHECKING:
 # attribute names and schema URIs may contain 'or', 'and', 'not' between these characters
 _NOT_IN_ATTR_NAME = (r"(?<![\w:.-])", r"(?![\w:.-])")
 OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
-    r"\s*{}or{}\s*".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL
+    r"\s*{}or{}\s*".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL | re.IGNORECASE
 )
 AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
-    r"\s*{}and{}\s*".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL
+    r"\s*{}and{}\s*".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL | re.IGNORECASE
 )
 NOT_LOGICAL_OPERATOR_REGEX = re.compile(
-    r"\s*{}not{}\s*(.*)".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL
+    r"\s*{}not{}\s*(.*)".format(*_NOT_IN_ATTR_NAME), flags=re.DOTALL | re.IGNORECASE
 )
 
 _UNARY_ATTR_OPERATORS = {
-- 
2.43.0


From 0b6ca9c5b2f8f40a2eff0ddb4f3b9206859e82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 05/69] fix: the $ref sub-attribute can be referenced

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..5b01dcf 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -3,7 +3,7 @@ from typing import Any, Dict, List, Optional, Union
 
 _ATTR_NAME = re.compile(r"(\w+|\$ref)")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.\w+)?)")
+_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.(?:\w+|\$ref))?)")
 
 
 class AttrRep:
-- 
2.43.0


From eae65e0853814cf5f890e06c3f3fec7a2fa225a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 06/69] fix: internal placeholder sequences typed in a filter
 are rejected

---
 src/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter.py b/src/filter.py
index 69c46c2..606ff99 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -93,6 +93,11 @@ class Filter:
     def parse(cls, filter_exp: str) -> Tuple[Union[Invalid, "Filter"], ValidationIssues]:
         issues = ValidationIssues()
 
+        # placeholders are internal, so only string values may contain the same sequence
+        if PLACEHOLDER_REGEX.search(STRING_VALUES_REGEX.sub(" ", filter_exp)):
+            issues.add(issue=ValidationError.unknown_expression(filter_exp), proceed=False)
+            return Invalid, issues
+
         string_values = {}
         for match in STRING_VALUES_REGEX.finditer(filter_exp):
             start, stop = match.span()
-- 
2.43.0


From 55f991bcda1fa54c04b6b0e29853f95abe70c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 07/69] fix: 'pr' works for multi-valued complex attributes

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..3958de5 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,7 +226,7 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any([item["value"] for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-- 
2.43.0


From 6a10c8fbc63731bc7a1d11045274df105f4c44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:46 +0000
Subject: [PATCH 08/69] fix: conjunction with an unknown attribute does not
 match

---
 src/data/operator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/operator.py b/src/data/operator.py
index 3958de5..0568032 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -119,11 +119,16 @@ class And(MultiOperandLogicalOperator):
     ) -> MatchResult:
         value = value or {}
         missing_data = False
+        no_attr = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status == MatchStatus.FAILED:
                 return MatchResult.failed()
+            if match.status == MatchStatus.FAILED_NO_ATTR:
+                no_attr = True
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
+        if no_attr:
+            return MatchResult.failed_no_attr()
         if missing_data:
             return MatchResult.missing_data()
         return MatchResult.passed()
-- 
2.43.0


From 54542346cc114654c12cd76e1cf7508d39b41ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:50 +0000
Subject: [PATCH 09/69] fix: filter comparisons of incompatible or missing
 values do not match instead of raising, and honour case sensitivity of the
 complex value

---
 src/data/operator.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 0568032..e5f0d98 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -282,25 +282,31 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
                 return None
 
             value = [item["value"] for item in value]
+            value = [item for item in value if item not in [None, Missing]]
+            attr = value_sub_attr
+
+        if not isinstance(value, List):
+            value = [value]
 
         if attr.type.SCIM_NAME == "dateTime":
             try:
-                return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
-            except ValueError:
+                op_value = datetime.fromisoformat(self.value)
+                return [(datetime.fromisoformat(item), op_value) for item in value]
+            except (TypeError, ValueError):
                 return None
 
-        if isinstance(self.value, str):
-            if not attr.case_exact:
-                op_value = self.value.lower()
-                if not isinstance(value, List):
-                    value = [value]
-                return [(item.lower(), op_value) for item in value if isinstance(item, str)]
-
-        if not isinstance(value, List):
-            value = [value]
+        if isinstance(self.value, str) and not attr.case_exact:
+            op_value = self.value.lower()
+            return [(item.lower(), op_value) for item in value if isinstance(item, str)]
 
         return [(item, self.value) for item in value]
 
+    def _matches(self, attr_value: Any, op_value: Any) -> bool:
+        try:
+            return bool(self.OPERATOR(attr_value, op_value))
+        except (TypeError, AttributeError):
+            return False  # values of different types can not be compared
+
     def match(
         self,
         value: Any,
@@ -324,7 +330,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
+            if self._matches(attr_value, op_value):
                 return MatchResult.passed()
         return MatchResult.failed()
 
-- 
2.43.0


From 2658e4ba970008ff19721dfe3f16c8ad0f5b9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:16 +0000
Subject: [PATCH 10/69] fix: lenient filtering passes resources without data of
 the filtered multi-valued attribute

---
 src/data/operator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/operator.py b/src/data/operator.py
index e5f0d98..044c7fc 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -501,6 +501,8 @@ class ComplexAttributeOperator:
         attr = attrs.get(self._attr_rep)
         if attr is None or not isinstance(attr, ComplexAttribute):
             return MatchResult.failed_no_attr()
+        if value in [None, Missing] and not strict:
+            return MatchResult.passed()
         if (
             attr.multi_valued
             and not isinstance(value, List)
-- 
2.43.0


From 7e4d937aefcb3715f912a83aa9cc1ad65949f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:36 +0000
Subject: [PATCH 11/69] fix: sorting keeps 0 and false as values, handles empty
 multi-valued attributes and equal resources of different schemas

---
 src/sorter.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..9b6d530 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -1,4 +1,3 @@
-import functools
 from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from src.data import type as at
@@ -69,21 +68,16 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
+        schemas = [schema] * len(data) if isinstance(schema, ResourceSchema) else schema
+        keys = [self._attr_key(item, schema_) for item, schema_ in zip(data, schemas)]
+        if all(key is self._default_value for key in keys):
             return data
 
-        if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
-            schema = schema[0]
-
-        if isinstance(schema, ResourceSchema):
-            key = functools.partial(self._attr_key, schema=schema)
-        else:
-            key = self._attr_key_many_schemas(data, schema)
-
-        return sorted(data, key=key, reverse=not self._asc)
+        order = sorted(range(len(keys)), key=keys.__getitem__, reverse=not self._asc)
+        return [data[i] for i in order]
 
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if attr is None or value in [None, "", [], Missing]:
             return self._default_value
 
         if not isinstance(value, str):
@@ -94,20 +88,15 @@ class Sorter:
 
         return StringKey(value, attr)
 
-    def _attr_key_many_schemas(self, data: List[SCIMDataContainer], schemas: Sequence[BaseSchema]):
-        def attr_key(item):
-            schema = schemas[data.index(item)]
-            return self._attr_key(item, schema)
-
-        return attr_key
-
     def _attr_key(self, item: SCIMDataContainer, schema: BaseSchema):
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
-                if isinstance(attr, ComplexAttribute):
+            if attr.multi_valued:
+                if not item_value:
+                    value = None
+                elif isinstance(attr, ComplexAttribute):
                     for v in item_value:
                         primary = v["primary"]
                         if primary is True:
-- 
2.43.0


From f237915049e10436bfc930a7762932e13af83f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:49 +0000
Subject: [PATCH 12/69] fix: resources are sorted by dateTime, reference and
 binary values

---
 src/sorter.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 9b6d530..9cd3d7b 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -1,3 +1,4 @@
+from datetime import datetime, timezone
 from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from src.data import type as at
@@ -80,14 +81,24 @@ class Sorter:
         if attr is None or value in [None, "", [], Missing]:
             return self._default_value
 
+        if isinstance(value, datetime):
+            return value if value.tzinfo else value.replace(tzinfo=timezone.utc)
+
         if not isinstance(value, str):
             return value
 
-        if attr.type is not at.String:
-            return self._default_value
+        if attr.type is at.DateTime:
+            return self._get_datetime_key(value)
 
         return StringKey(value, attr)
 
+    def _get_datetime_key(self, value: str):
+        try:
+            parsed = datetime.fromisoformat(value)
+        except ValueError:
+            return self._default_value
+        return parsed if parsed.tzinfo else parsed.replace(tzinfo=timezone.utc)
+
     def _attr_key(self, item: SCIMDataContainer, schema: BaseSchema):
         attr = schema.attrs.get(self._attr_rep)
         value = None
-- 
2.43.0


From 7ed77f0b6c0a516493f2f914274117df7537152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:30 +0000
Subject: [PATCH 13/69] fix: attribute names that differ only in case never
 make two entries of a data container

---
 src/data/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 5b01dcf..6ba475a 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -123,6 +123,7 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
+                self._data.pop(self._lower_case_to_original.get(key.lower(), key), None)
                 self._lower_case_to_original[key.lower()] = key
                 if isinstance(value, Dict):
                     self._data[key] = SCIMDataContainer(value)
@@ -173,8 +174,10 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
-            self._data[attr_rep.attr] = value
+            initial_key = self._lower_case_to_original.setdefault(
+                attr_rep.attr.lower(), attr_rep.attr
+            )
+            self._data[initial_key] = value
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
-- 
2.43.0


From 36862177e17c4e9b0566cd7bc79cd9f68066c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:34 +0000
Subject: [PATCH 14/69] fix: extension attributes are read, written and deleted
 only inside the extension's data

---
 src/data/container.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 6ba475a..0441f2d 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -142,12 +142,12 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        if attr_rep.extension:
-            extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
-            if extension_key is None:
-                self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
-                self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+        extension_key = self._get_extension_key(attr_rep)
+        if extension_key is not None:
+            if extension_key not in self._data:
+                self._lower_case_to_original[extension_key.lower()] = extension_key
+                self._data[extension_key] = SCIMDataContainer()
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
@@ -183,9 +183,12 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
+        extension = self._get_extension_key(attr_rep)
         if extension is not None:
-            return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+            extension_data = self._data.get(extension)
+            if not isinstance(extension_data, SCIMDataContainer):
+                return Missing
+            return extension_data[AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
@@ -204,9 +207,11 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
+        extension = self._get_extension_key(attr_rep)
         if extension is not None:
-            del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+            extension_data = self._data.get(extension)
+            if isinstance(extension_data, SCIMDataContainer):
+                del extension_data[AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
@@ -225,6 +230,12 @@ class SCIMDataContainer:
         self._data.pop(attr)
         self._lower_case_to_original.pop(attr_rep.attr.lower())
 
+    def _get_extension_key(self, attr_rep: "AttrRep") -> Optional[str]:
+        if not attr_rep.schema:
+            return None
+        default = attr_rep.schema if attr_rep.extension else None
+        return self._lower_case_to_original.get(attr_rep.schema.lower(), default)
+
     @staticmethod
     def _can_assign_to_complex(current_value, new_value) -> bool:
         if isinstance(current_value, SCIMDataContainer):
-- 
2.43.0


From ceb352b482fb6872ebcf6e381033d96bc4bb61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:38 +0000
Subject: [PATCH 15/69] fix: sub-attributes of items that are not complex are
 missing, and a list can be assigned to a sub-attribute

---
 src/data/container.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 0441f2d..8d8098e 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -164,7 +164,7 @@ class SCIMDataContainer:
                     f"can not assign ({attr_rep.sub_attr}, {value}) to '{attr_rep.attr}'"
                 )
 
-            if isinstance(value, List):
+            if isinstance(value, List) and isinstance(self._data[initial_key], List):
                 to_create = len(value) - len(self._data[initial_key])
                 if to_create > 0:
                     self._data[initial_key].extend([SCIMDataContainer() for _ in range(to_create)])
@@ -199,7 +199,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
@@ -224,7 +229,8 @@ class SCIMDataContainer:
                 del attr_value[AttrRep(attr=attr_rep.sub_attr)]
             elif isinstance(attr_value, List):
                 for item in attr_value:
-                    del item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer):
+                        del item[AttrRep(attr=attr_rep.sub_attr)]
             return
 
         self._data.pop(attr)
@@ -242,8 +248,7 @@ class SCIMDataContainer:
             return True
 
         if isinstance(new_value, List) and isinstance(current_value, List):
-            current_item_type = {type(item) for item in current_value}
-            if current_item_type == {SCIMDataContainer}:
+            if all(isinstance(item, SCIMDataContainer) for item in current_value):
                 return True
 
         return False
-- 
2.43.0


From d39761c3ca2bee362045adeb2b3aa388268a312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:42 +0000
Subject: [PATCH 16/69] fix: equality of data containers is symmetric and
 compares every key

---
 src/data/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 8d8098e..82dc2c7 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -290,8 +290,10 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
-        for key, value in self._data.items():
-            if other[key] != value:
+        for key in {**self._lower_case_to_original, **other._lower_case_to_original}:
+            value = self._data.get(self._lower_case_to_original.get(key), Missing)
+            other_value = other._data.get(other._lower_case_to_original.get(key), Missing)
+            if value != other_value:
                 return False
 
         return True
-- 
2.43.0


From cb519ac2efedd997f88b25fabd58d635e3f1af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:45 +0000
Subject: [PATCH 17/69] fix: attribute references with a malformed
 sub-attribute name are refused

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 82dc2c7..6eba347 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -19,7 +19,7 @@ class AttrRep:
         if sub_attr:
             attr_ += "." + sub_attr
 
-        if not _ATTR_REP.fullmatch(attr):
+        if sub_attr and not _ATTR_NAME.fullmatch(sub_attr):
             raise ValueError(f"{attr_!r} is not valid attr / sub-attr name")
 
         if extension and not schema:
-- 
2.43.0


From 9e35b47114d2629741c1a5579e6159cd54d4097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:08 +0000
Subject: [PATCH 18/69] fix: string values in a path never interfere with its
 structure or each other

---
 src/data/path.py | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..8633bc1 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -1,10 +1,10 @@
-from typing import Dict, Optional, Tuple, Union
+from typing import Optional, Tuple, Union
 
 from src.data.container import AttrRep, Invalid
 from src.data.operator import ComplexAttributeOperator
 from src.error import ValidationError, ValidationIssues
 from src.filter import Filter
-from src.utils import PLACEHOLDER_REGEX, STRING_VALUES_REGEX, get_placeholder
+from src.utils import STRING_VALUES_REGEX
 
 
 class PatchPath:
@@ -53,27 +53,22 @@ class PatchPath:
     def parse(cls, path: str) -> Tuple[Union[Invalid, "PatchPath"], ValidationIssues]:
         issues = ValidationIssues()
 
-        string_values = {}
-        for match in STRING_VALUES_REGEX.finditer(path):
-            start, stop = match.span()
-            string_value = match.string[start:stop]
-            string_values[start] = string_value
-            path = path.replace(string_value, get_placeholder(start), 1)
+        # content of string values is irrelevant for the structure of the path
+        masked = STRING_VALUES_REGEX.sub(lambda match: "_" * len(match.group(0)), path)
 
         if (
-            path.count("[") > 1
-            or path.count("]") > 1
-            or ("[" in path and "]" not in path)
-            or ("]" in path and "[" not in path)
-            or ("[" in path and "]" in path and path.index("[") > path.index("]"))
+            masked.count("[") > 1
+            or masked.count("]") > 1
+            or ("[" in masked and "]" not in masked)
+            or ("]" in masked and "[" not in masked)
+            or ("[" in masked and "]" in masked and masked.index("[") > masked.index("]"))
         ):
             issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
             return Invalid, issues
 
-        if "[" in path and "]" in path:
-            return cls._parse_complex_multivalued_path(path, string_values)
+        if "[" in masked and "]" in masked:
+            return cls._parse_complex_multivalued_path(path, masked.index("]") + 1)
 
-        path = cls._encode_string_values(path, string_values)
         attr_rep = AttrRep.parse(path)
         if attr_rep is Invalid:
             issues.add(issue=ValidationError.bad_attribute_name(path), proceed=False)
@@ -85,22 +80,21 @@ class PatchPath:
 
     @classmethod
     def _parse_complex_multivalued_path(
-        cls, path: str, string_values
+        cls, path: str, filter_end: int
     ) -> Tuple[Union[Invalid, "PatchPath"], ValidationIssues]:
-        filter_exp = path[: path.index("]") + 1]
-        filter_, issues = Filter.parse(cls._encode_string_values(filter_exp, string_values))
+        filter_, issues = Filter.parse(path[:filter_end])
         if issues.has_issues():
             return Invalid, issues
 
         value_sub_attr_rep = None
-        value_sub_attr_rep_exp = path[path.index("]") + 1 :]
+        value_sub_attr_rep_exp = path[filter_end:]
         if value_sub_attr_rep_exp:
             if value_sub_attr_rep_exp.startswith("."):
                 value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
             value_sub_attr_rep = cls._get_sub_attr_rep(
                 issues=issues,
                 attr_rep=filter_.operator.attr_rep,
-                sub_attr_rep_exp=cls._encode_string_values(value_sub_attr_rep_exp, string_values),
+                sub_attr_rep_exp=value_sub_attr_rep_exp,
             )
 
         if issues.has_issues():
@@ -137,15 +131,6 @@ class PatchPath:
             )
         return sub_attr_rep
 
-    @staticmethod
-    def _encode_string_values(exp: str, string_values: Dict[int, str]):
-        encoded = exp
-        for match in PLACEHOLDER_REGEX.finditer(exp):
-            index = int(match.group(1))
-            if index in (string_values or {}):
-                encoded = encoded.replace(match.group(0), string_values[index])
-        return encoded
-
     def __eq__(self, other) -> bool:
         if not isinstance(other, PatchPath):
             return False
-- 
2.43.0


From 863cff44d6ba79f5baadd1dc4d3d4ba6cfbfa3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 19/69] fix: only an attribute with a value filter, optionally
 followed by '.sub-attribute', is accepted as a filtered path

---
 src/data/path.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index 8633bc1..9138348 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -88,9 +88,14 @@ class PatchPath:
 
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[filter_end:]
+        if not isinstance(filter_.operator, ComplexAttributeOperator) or (
+            value_sub_attr_rep_exp and not value_sub_attr_rep_exp.startswith(".")
+        ):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
+
         if value_sub_attr_rep_exp:
-            if value_sub_attr_rep_exp.startswith("."):
-                value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
+            value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
             value_sub_attr_rep = cls._get_sub_attr_rep(
                 issues=issues,
                 attr_rep=filter_.operator.attr_rep,
@@ -111,19 +116,18 @@ class PatchPath:
     @staticmethod
     def _get_sub_attr_rep(
         issues: ValidationIssues,
-        attr_rep: Optional[AttrRep],
+        attr_rep: AttrRep,
         sub_attr_rep_exp: str,
     ):
         sub_attr_rep = AttrRep.parse(sub_attr_rep_exp)
-        if sub_attr_rep is Invalid:
+        if sub_attr_rep is Invalid or sub_attr_rep.schema:
             issues.add(issue=ValidationError.bad_attribute_name(sub_attr_rep_exp), proceed=False)
         elif sub_attr_rep.sub_attr:
-            if attr_rep is not None and not attr_rep.top_level_equals(sub_attr_rep):
-                issues.add(
-                    issue=ValidationError.complex_sub_attribute(attr_rep.attr, sub_attr_rep.attr),
-                    proceed=False,
-                )
-        elif attr_rep is not None:
+            issues.add(
+                issue=ValidationError.complex_sub_attribute(attr_rep.attr, sub_attr_rep.attr),
+                proceed=False,
+            )
+        else:
             sub_attr_rep = AttrRep(
                 schema=attr_rep.schema,
                 attr=attr_rep.attr,
-- 
2.43.0


From 396563c8cd4adc6a9435c0647a811ecfbd7a8b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:24 +0000
Subject: [PATCH 20/69] fix: infinite, not-a-number and huge numbers and
 non-ASCII binary values are reported instead of raising

---
 src/data/type.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..3bae1f8 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -73,22 +73,25 @@ class Decimal(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
-            value, issues = Integer.parse(value)
-            if value is not Invalid:
-                value = float(value)
-            return value, issues
+        if isinstance(value, int) and not isinstance(value, bool):
+            return cls._from_int(value)
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
-            value, issues = Integer.dump(value)
-            if value is not Invalid:
-                value = float(value)
-            return value, issues
+        if isinstance(value, int) and not isinstance(value, bool):
+            return cls._from_int(value)
         return super().dump(value)
 
+    @staticmethod
+    def _from_int(value: int) -> t.Tuple[t.Optional[float], ValidationIssues]:
+        issues = ValidationIssues()
+        try:
+            return float(value), issues
+        except OverflowError:
+            issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+            return Invalid, issues
+
 
 class Integer(AttributeType):
     SCIM_NAME = "integer"
@@ -98,13 +101,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
@@ -149,7 +152,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except (binascii.Error, UnicodeEncodeError):
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From 3d28c3640bbcb2ca4d38f7fd79797682412332a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:27 +0000
Subject: [PATCH 21/69] fix: booleans are not accepted as integers

---
 src/data/type.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 3bae1f8..78416eb 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -9,6 +9,11 @@ from ..error import ValidationError, ValidationIssues
 from .container import Invalid, SCIMDataContainer
 
 
+def _is_instance(value: t.Any, type_: t.Type) -> bool:
+    # booleans are integers for Python, but not for SCIM
+    return isinstance(value, type_) and (type_ is not int or not isinstance(value, bool))
+
+
 class AttributeType(abc.ABC):
     PARSE_TYPE: t.Type
     DUMP_TYPE: t.Type
@@ -19,7 +24,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.PARSE_TYPE):
+        if not _is_instance(value, cls.PARSE_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.PARSE_TYPE), provided=get_scim_type(type(value))
@@ -32,7 +37,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.DUMP_TYPE):
+        if not _is_instance(value, cls.DUMP_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.DUMP_TYPE), provided=get_scim_type(type(value))
-- 
2.43.0


From 365a00f156149935e10daf4ed8f197191fcee056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:07 +0000
Subject: [PATCH 22/69] fix: 'schemas' with items that are not strings is
 reported instead of raising

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..bb175fe 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -281,7 +281,7 @@ def validate_schemas_field(
 ) -> ValidationIssues:
     issues = ValidationIssues()
     main_schema = main_schema.lower()
-    schemas_ = [item.lower() for item in schemas_]
+    schemas_ = [item.lower() for item in schemas_ if isinstance(item, str)]
     known_schemas = [item.lower() for item in known_schemas]
     main_schema_included = False
     mismatch = False
-- 
2.43.0


From c97fc76784eef1d8788962ef1bf5739a090b9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:11 +0000
Subject: [PATCH 23/69] fix: enforced canonical values and descriptions of
 top-level attributes survive binding to a schema

---
 src/data/attributes.py | 4 ++++
 src/data/schemas.py    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index c565fa8..f983e57 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -146,6 +146,10 @@ class Attribute:
     def canonical_values(self) -> Optional[list]:
         return self._canonical_values
 
+    @property
+    def validate_canonical_values(self) -> bool:
+        return self._validate_canonical_values
+
     @property
     def mutability(self) -> AttributeMutability:
         return self._mutability
diff --git a/src/data/schemas.py b/src/data/schemas.py
index bb175fe..8a94dae 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,12 +182,14 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr.validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From 13f4a2f990cce1bde5442f5f2168d727ee27e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:15 +0000
Subject: [PATCH 24/69] fix: the same extension can not be added to a resource
 schema twice

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 8a94dae..473a1ab 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -379,7 +379,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
         self._schema_extensions[extension.schema] = required
-- 
2.43.0


From b0b8afc850dbce5f60b20fbfb66bdba5e8d90193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 25/69] fix: unassigned (null) meta.resourceType is not a
 resource type mismatch

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 473a1ab..f1dd0ec 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -411,7 +411,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
 
         if issues.can_proceed(("meta", "resourceType")):
             resource_type = data[self.attrs.meta__resourcetype.rep]
-            if resource_type is not Missing:
+            if resource_type not in [None, Missing]:
                 issues.merge(
                     validate_resource_type_consistency(
                         resource_type=resource_type,
-- 
2.43.0


From 350f4f4532cece5011ea10450be492c7651ed728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 26/69] fix: merging, selecting and removing issues keep
 exactly their locations, codes and proceed flags

---
 src/error.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/error.py b/src/error.py
index 18b5c1b..9b741e2 100644
--- a/src/error.py
+++ b/src/error.py
@@ -308,11 +308,13 @@ class ValidationIssues:
         self._stop_proceeding: Dict[Tuple, Set[int]] = defaultdict(set)
 
     def merge(self, issues: "ValidationIssues", location: Optional[Tuple] = None):
-        location = location or tuple()
-        for other_location, location_issues in issues._issues.items():
+        location = tuple(location or tuple())
+        for other_location, location_issues in list(issues._issues.items()):
             new_location = location + other_location
-            self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            self._issues[new_location].extend(list(location_issues))
+            stop_codes = issues._stop_proceeding.get(other_location)
+            if stop_codes:
+                self._stop_proceeding[new_location].update(stop_codes)
 
     def add(
         self,
@@ -326,32 +328,30 @@ class ValidationIssues:
             self._stop_proceeding[location].add(issue.code)
 
     def get(self, location: Collection[Union[str, int]]) -> "ValidationIssues":
+        location = tuple(location)
         copy = ValidationIssues()
-        copy._issues = {
-            location_[len(location) :]: errors
-            for location_, errors in self._issues.items()
-            if location_[: len(location)] == location
-        }
-        copy._stop_proceeding = {
-            location_[len(location) :]: codes
-            for location_, codes in self._stop_proceeding.items()
-            if location_[: len(location)] == location
-        }
+        for location_, errors in self._issues.items():
+            if location_[: len(location)] == location:
+                copy._issues[location_[len(location) :]].extend(errors)
+        for location_, codes in self._stop_proceeding.items():
+            if location_[: len(location)] == location:
+                copy._stop_proceeding[location_[len(location) :]].update(codes)
         return copy
 
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
         location = tuple(location)
+        popped = ValidationIssues()
 
         if location not in self._issues:
-            return ValidationIssues()
-
-        popped = self.get(location)
+            return popped
 
+        stop_codes = self._stop_proceeding.get(location, set())
         for issue in self._issues[location]:
             if issue.code == code:
-                self._issues[location].remove(issue)
-                if issue.code in self._stop_proceeding.get(location, set()):
-                    self._stop_proceeding[location].remove(issue.code)
+                popped.add(issue=issue, proceed=code not in stop_codes)
+
+        self._issues[location] = [issue for issue in self._issues[location] if issue.code != code]
+        stop_codes.discard(code)
 
         if len(self._issues[location]) == 0:
             self._issues.pop(location)
@@ -365,6 +365,7 @@ class ValidationIssues:
         if not locations:
             locations = [tuple()]
         for location in locations:
+            location = tuple(location)
             for i in range(len(location) + 1):
                 if location[:i] in self._stop_proceeding:
                     return False
@@ -375,6 +376,7 @@ class ValidationIssues:
             locations = [tuple()]
 
         for location in locations:
+            location = tuple(location)
             for issue_location in self._issues:
                 if issue_location[: len(location)] == location:
                     return True
-- 
2.43.0


From 5fd8d6cb3261d72f4f1dde044bc88d87583e54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 27/69] fix: presence of sub-attributes is checked only in
 complex values that are there, and extension attributes where the extension's
 data is

---
 src/attributes_presence.py | 69 +++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..5827131 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,55 +64,54 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
             top_attr = attrs.get(top_attr_rep)
+            attr_location = (attr.rep.attr,)
+            if attr.rep.extension:
+                attr_location = (attr.rep.schema,) + attr_location
 
-            if attr.rep.sub_attr and top_attr.multi_valued:
-                value = data[top_attr_rep]
-                if value in [Invalid, Missing]:
+            if not attr.rep.sub_attr:
+                value = data[attr.rep]
+                if value is Invalid:
                     continue
 
-                if value in [None, Missing]:
-                    issues.merge(
-                        issues=self._check_presence(
-                            value=value,
-                            direction=direction,
-                            attr=attr,
-                            attr_rep=attr.rep,
-                        ),
-                        location=(attr.rep.attr, attr.rep.sub_attr),
-                    )
-                else:
-                    for i, item in enumerate(value):
-                        item_value = item[AttrRep(attr=attr.rep.sub_attr)]
-                        if item_value is Invalid:
-                            continue
-
-                        issues.merge(
-                            issues=self._check_presence(
-                                value=item[AttrRep(attr=attr.rep.sub_attr)],
-                                direction=direction,
-                                attr=attr,
-                                attr_rep=attr.rep,
-                            ),
-                            location=(attr.rep.attr, i, attr.rep.sub_attr),
-                        )
+                issues.merge(
+                    issues=self._check_presence(
+                        value=value,
+                        direction=direction,
+                        attr=attr,
+                        attr_rep=attr.rep,
+                    ),
+                    location=attr_location,
+                )
+                continue
+
+            # sub-attributes are considered only if there is a complex value
+            top_value = data[top_attr_rep]
+            if top_attr.multi_valued:
+                items = enumerate(top_value) if isinstance(top_value, list) else []
             else:
-                value = data[attr.rep]
+                items = [(None, top_value)]
+
+            for i, item in items:
+                if not isinstance(item, SCIMDataContainer):
+                    continue
+
+                value = item[AttrRep(attr=attr.rep.sub_attr)]
                 if value is Invalid:
                     continue
 
-                attr_location = (
-                    (attr.rep.attr, attr.rep.sub_attr) if attr.rep.sub_attr else (attr.rep.attr,)
-                )
+                item_location = attr_location if i is None else attr_location + (i,)
                 issues.merge(
                     issues=self._check_presence(
-                        value=data[attr.rep],
+                        value=value,
                         direction=direction,
                         attr=attr,
                         attr_rep=attr.rep,
                     ),
-                    location=attr_location,
+                    location=item_location + (attr.rep.sub_attr,),
                 )
 
         return issues
-- 
2.43.0


From 4b17aff30f094bb35a7606964728070ba76dbfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:04 +0000
Subject: [PATCH 28/69] fix: a required attribute excluded from the response
 may be absent

---
 src/attributes_presence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 5827131..d699b85 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -151,8 +151,8 @@ class AttributePresenceChecker:
                 attr.required
                 and attr_rep not in self._ignore_required
                 and (
-                    self._include is not True
-                    or (attr_rep in self._attr_reps and self._include is True)
+                    self._include is None
+                    or (self._include is (attr_rep in self._attr_reps))
                     or (direction == "RESPONSE" and attr.returned == AttributeReturn.ALWAYS)
                 )
             ):
-- 
2.43.0


From 879b42b489cc945ea29d165420c08830219ab36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:28 +0000
Subject: [PATCH 29/69] fix: the $ref sub-attribute is referenced in any case

---
 src/data/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 6eba347..d39ffe2 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -1,9 +1,11 @@
 import re
 from typing import Any, Dict, List, Optional, Union
 
-_ATTR_NAME = re.compile(r"(\w+|\$ref)")
+_ATTR_NAME = re.compile(r"(\w+|\$[rR][eE][fF])")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.(?:\w+|\$ref))?)")
+_ATTR_REP = re.compile(
+    rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.(?:{_ATTR_NAME.pattern}))?)"
+)
 
 
 class AttrRep:
-- 
2.43.0


From 67148c6ae7410f72b72dd86ed817b4c8187bafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 30/69] fix: PATCH operation types are recognized in any case

---
 src/assets/schemas/patch_op.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..3c8ec51 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -7,12 +7,18 @@ from src.data.path import PatchPath
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
+
+def parse_operation_type(value: str) -> Tuple[str, ValidationIssues]:
+    return value.lower(), ValidationIssues()
+
+
 _operations_op = Attribute(
     name="op",
     type_=at.String,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
+    parsers=[parse_operation_type],
 )
 
 
-- 
2.43.0


From 79083f7771786c39cfdde0de4dc02a019946d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:50 +0000
Subject: [PATCH 31/69] fix: malformed PATCH operations are reported instead of
 raising

---
 src/assets/schemas/patch_op.py | 12 +++++++++++-
 src/request_validators.py      | 18 +++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 3c8ec51..447647a 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -93,13 +93,21 @@ class PatchOp(BaseSchema):
         if not issues.can_proceed((self.attrs.operations.rep.attr,)):
             return data, issues
 
+        if data[self.attrs.operations.rep] in [None, Missing]:
+            return data, issues
+
         parsed = []
         ops = data[self.attrs.operations__op.rep]
         paths = data[self.attrs.operations__path.rep]
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
-            if issues.has_issues((operations.rep.attr, i)):
+            if not issues.has_issues((operations.rep.attr, i)):
+                # not validated yet if any other operation has issues
+                _, issues_ = validate_operations([data[operations.rep][i]])
+                issues.merge(issues_.get((0,)), location=(operations.rep.attr, i))
+
+            if op in [None, Missing] or issues.has_issues((operations.rep.attr, i)):
                 parsed_op = SCIMDataContainer(
                     {
                         "op": op,
@@ -192,6 +200,8 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
+            if value is Invalid:
+                return value, issues
             for attr in self._resource_schema.attrs:
                 if (
                     value[attr.rep] is not Missing
diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..db02888 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -833,12 +833,19 @@ class ResourceObjectPATCH(Validator):
         if not issues.can_proceed(operations_location):
             return RequestData(body=None, headers=headers, query_string=query_string), issues
 
+        if body[self._schema.attrs.operations.rep] in [None, Missing]:
+            return RequestData(body=None, headers=headers, query_string=query_string), issues
+
         values = body[self._schema.attrs.operations__value.rep]
         paths = body[self._schema.attrs.operations__path.rep]
         ops = body[self._schema.attrs.operations__op.rep]
 
         for i, (op, value, path) in enumerate(zip(ops, values, paths)):
-            if op == "remove":
+            path_location = operations_location + (
+                i,
+                self._schema.attrs.operations__path.rep.sub_attr,
+            )
+            if op not in ["add", "replace"] or issues.has_issues(path_location):
                 continue
 
             value_location = operations_location + (
@@ -846,6 +853,8 @@ class ResourceObjectPATCH(Validator):
                 self._schema.attrs.operations__value.rep.sub_attr,
             )
             if path in [None, Missing]:
+                if not isinstance(value, SCIMDataContainer):
+                    continue
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
@@ -874,7 +883,10 @@ class ResourceObjectPATCH(Validator):
         value: Any,
         value_location,
     ) -> None:
-        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or value is Missing:
+        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued):
+            return
+
+        if not isinstance(value, list):
             return
 
         # checking if new item of complex attribute has all required fields
@@ -885,7 +897,7 @@ class ResourceObjectPATCH(Validator):
         presence_checker = AttributePresenceChecker(ignore_required=ignore_required)
         for j, item in enumerate(value):
             item_location = value_location + (j,)
-            if not issues.has_issues(item_location):
+            if isinstance(item, SCIMDataContainer) and not issues.has_issues(item_location):
                 issues.merge(
                     issues=presence_checker(
                         data=item,
-- 
2.43.0


From 529ea5667ea44f8521a5f2ff14945713962b3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 32/69] fix: a listed resource with malformed 'schemas' items
 has an unknown schema instead of raising

---
 src/assets/schemas/list_response.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..1994536 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -105,9 +105,10 @@ class ListResponse(BaseSchema):
 
         schemas_value = data[self.attrs.schemas.rep]
         if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+            if not all(isinstance(item, str) for item in schemas_value):
+                return None
+
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
-- 
2.43.0


From 3b132b94bd63992014c9e07002e0d894c7d152a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:38 +0000
Subject: [PATCH 33/69] fix: a missing caseExact of a schema attribute is
 reported at its location instead of raising

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..13469af 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -163,7 +163,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From b91ea254285977eb1ba4553ad419863b4e6e114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:42 +0000
Subject: [PATCH 34/69] fix: types of schema attributes are recognized in any
 case

---
 src/assets/schemas/schema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 13469af..5712839 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -148,6 +148,8 @@ def dump_attributes(
     issues = ValidationIssues()
     for i, item in enumerate(value):
         attr_type = item[_attributes__type.rep]
+        if isinstance(attr_type, str):
+            attr_type = attr_type.lower()
         sub_attributes = item[_attributes__sub_attributes.rep]
         if sub_attributes not in [Missing, None]:
             if attr_type != "complex":
-- 
2.43.0


From aabdc5e961c141487d135721f430c3406c018929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 35/69] fix: decimal is a type a schema attribute can have

---
 src/assets/schemas/schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 5712839..067160f 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -46,7 +46,16 @@ _attributes__name = Attribute(
 _attributes__type = Attribute(
     name="type",
     type_=type_.String,
-    canonical_values=["string", "integer", "boolean", "reference", "dateTime", "binary", "complex"],
+    canonical_values=[
+        "string",
+        "integer",
+        "decimal",
+        "boolean",
+        "reference",
+        "dateTime",
+        "binary",
+        "complex",
+    ],
     validate_canonical_values=True,
     required=True,
     mutability=AttributeMutability.READ_ONLY,
-- 
2.43.0


From 0426c778d82892a8863eeaabeabe8d4ddc1cd261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:44 +0000
Subject: [PATCH 36/69] fix: an unknown target of a PATCH remove operation is
 reported at its path

---
 src/assets/schemas/patch_op.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 447647a..59ae4aa 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -133,12 +133,16 @@ class PatchOp(BaseSchema):
     def _parse_remove_operation(
         self, path: PatchPath
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
-        issues = validate_operation_path(self._resource_schema, path)
+        issues = ValidationIssues()
+        path_location = (self.attrs.operations__path.rep.sub_attr,)
+        issues.merge(
+            issues=validate_operation_path(self._resource_schema, path),
+            location=path_location,
+        )
         if issues.has_issues():
             return Invalid, issues
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
-        path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
             if attr.mutability == AttributeMutability.READ_ONLY:
                 issues.add(
-- 
2.43.0


From 8ac799c276cbdb6156b4a21e629aebce0a11e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:00 +0000
Subject: [PATCH 37/69] fix: PATCH reports read-only targets wherever they are,
 and only there

---
 src/assets/schemas/patch_op.py | 77 +++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 59ae4aa..45a79aa 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -144,7 +144,7 @@ class PatchOp(BaseSchema):
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            if self._is_read_only(attr):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -167,10 +167,7 @@ class PatchOp(BaseSchema):
                     proceed=True,
                     location=path_location,
                 )
-            if (
-                attr.mutability == AttributeMutability.READ_ONLY
-                or sub_attr.mutability == AttributeMutability.READ_ONLY
-            ):
+            if self._is_read_only(sub_attr):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -206,21 +203,23 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=29)
             if value is Invalid:
                 return value, issues
-            for attr in self._resource_schema.attrs:
-                if (
-                    value[attr.rep] is not Missing
-                    and attr.mutability == AttributeMutability.READ_ONLY
-                ):
-                    location = (attr.rep.attr,)
-                    if attr.rep.sub_attr:
-                        location = location + (attr.rep.sub_attr,)
-                    if attr.rep.extension:
-                        location = (attr.rep.schema,) + location
+            for attr in self._resource_schema.attrs.top_level:
+                attr_value = value[attr.rep]
+                if attr_value is Missing:
+                    continue
+                location = (attr.rep.attr,)
+                if attr.rep.extension:
+                    location = (attr.rep.schema,) + location
+                if attr.mutability == AttributeMutability.READ_ONLY:
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
                         location=location,
                     )
+                issues.merge(
+                    issues=validate_read_only_sub_attributes(attr, attr_value),
+                    location=location,
+                )
             return value, issues
 
         # sub-attribute of filtered multivalued complex attribute
@@ -241,7 +240,7 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        if self._is_read_only(attr):
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
@@ -252,20 +251,42 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
-            for sub_attr in attr.attrs:
-                if sub_attr.mutability != AttributeMutability.READ_ONLY:
-                    # non-read-only attributes can be updated
-                    continue
-                v = parsed_attr_value[sub_attr.rep]
-                if v is not Missing:
-                    issues.add(
-                        issue=ValidationError.attribute_can_not_be_modified(),
-                        proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
-                    )
+        else:
+            issues.merge(validate_read_only_sub_attributes(attr, parsed_attr_value))
         return parsed_attr_value, issues
 
+    def _is_read_only(self, attr: Attribute) -> bool:
+        if attr.mutability == AttributeMutability.READ_ONLY:
+            return True
+        if not attr.rep.sub_attr:
+            return False
+        parent = self._resource_schema.attrs.get(AttrRep(attr.rep.schema, attr.rep.attr))
+        return parent is not None and parent.mutability == AttributeMutability.READ_ONLY
+
+
+def validate_read_only_sub_attributes(attr: Attribute, value: Any) -> ValidationIssues:
+    issues = ValidationIssues()
+    if not isinstance(attr, ComplexAttribute):
+        return issues
+    if attr.multi_valued:
+        items = [((i,), item) for i, item in enumerate(value)] if isinstance(value, list) else []
+    else:
+        items = [((), value)]
+    for location, item in items:
+        if not isinstance(item, SCIMDataContainer):
+            continue
+        for sub_attr in attr.attrs:
+            if (
+                sub_attr.mutability == AttributeMutability.READ_ONLY
+                and item[sub_attr.rep] is not Missing
+            ):
+                issues.add(
+                    issue=ValidationError.attribute_can_not_be_modified(),
+                    proceed=False,
+                    location=location + (sub_attr.rep.attr,),
+                )
+    return issues
+
 
 def validate_operation_path(schema: ResourceSchema, path: PatchPath) -> ValidationIssues:
     issues = ValidationIssues()
-- 
2.43.0


From 57de87485c4a1118dec6c676c72985e69a39c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:24 +0000
Subject: [PATCH 38/69] fix: sub-attributes missing from extension attributes
 of a PATCH value are located in the extension

---
 src/request_validators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index db02888..2572abe 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -856,11 +856,14 @@ class ResourceObjectPATCH(Validator):
                 if not isinstance(value, SCIMDataContainer):
                     continue
                 for attr in self._resource_schema.attrs:
+                    attr_location = _location(attr.rep)
+                    if attr.rep.extension:
+                        attr_location = (attr.rep.schema,) + attr_location
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
                         attr=attr,
                         value=value[attr.rep],
-                        value_location=value_location + _location(attr.rep),
+                        value_location=value_location + attr_location,
                     )
 
             else:
-- 
2.43.0


From b6cb051371f5bafdb2b4783415b60735360cf1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:20 +0000
Subject: [PATCH 39/69] fix: parsing a request does not modify the caller's
 query string

---
 src/request_validators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 2572abe..bb5850d 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -242,6 +242,7 @@ class ResourceObjectGET(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -277,6 +278,7 @@ class ResourceObjectPUT(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -323,6 +325,7 @@ class ResourcesPOST(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -570,6 +573,7 @@ def _parse_resources_get_request(
     if issues.has_issues():
         return RequestData(headers=headers, query_string=query_string, body=body), issues
 
+    query_string = dict(query_string)
     filter_, issues_ = parse_request_filtering(query_string)
     query_string["filter"] = filter_
     issues.merge(
@@ -821,6 +825,7 @@ class ResourceObjectPATCH(Validator):
         issues = ValidationIssues()
 
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-- 
2.43.0


From 4945dfdbfdcc5bf531177e5874405074f0035be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:23 +0000
Subject: [PATCH 40/69] fix: malformed query options are reported instead of
 raising or being ignored

---
 src/request_validators.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index bb5850d..5bdcea7 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -408,7 +408,24 @@ def parse_requested_attributes(
     if to_exclude and isinstance(to_exclude, str):
         to_exclude = to_exclude.split(",")
 
-    if not (isinstance(to_include, List) and isinstance(to_exclude, List)):
+    for name, value in (("attributes", to_include), ("excludeAttributes", to_exclude)):
+        if isinstance(value, List):
+            for i, item in enumerate(value):
+                if not isinstance(item, str):
+                    issues.add(
+                        issue=ValidationError.bad_type(
+                            get_scim_type(str), get_scim_type(type(item))
+                        ),
+                        proceed=False,
+                        location=(name, i),
+                    )
+        elif value:
+            issues.add(
+                issue=ValidationError.bad_type(get_scim_type(list), get_scim_type(type(value))),
+                proceed=False,
+                location=(name,),
+            )
+    if issues.has_issues():
         return Invalid, issues
 
     if not (to_include or to_exclude):
@@ -565,7 +582,7 @@ def _parse_resources_get_request(
         )
     elif not isinstance(query_string, Dict):
         issues.add(
-            issue=ValidationError.bad_type(dict.__name__, type(query_string_location).__name__),
+            issue=ValidationError.bad_type(dict.__name__, type(query_string).__name__),
             proceed=False,
             location=query_string_location,
         )
@@ -600,7 +617,7 @@ def _parse_resources_get_request(
     if count is not None:
         try:
             query_string["count"] = int(count)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
                 location=("query_string", "count"),
@@ -611,7 +628,7 @@ def _parse_resources_get_request(
     if start_index is not None:
         try:
             query_string["startIndex"] = int(start_index)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(
                     get_scim_type(int), get_scim_type(type(start_index))
-- 
2.43.0


From 74fcbe0139b5b98f1c017e877707d0c0e99d8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 41/69] fix: a query option which is not given is not in the
 parsed query, and sortOrder is read in any case

---
 src/request_validators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 5bdcea7..625fba0 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -377,7 +377,9 @@ def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], V
             )
         return Invalid, issues
 
-    sort_order = query_string.get("sortOrder", "ascending")
+    sort_order = query_string.get("sortOrder") or "ascending"
+    if isinstance(sort_order, str):
+        sort_order = sort_order.lower()
     if sort_order not in ["ascending", "descending"]:
         pass  # TODO add warning here
 
@@ -592,14 +594,16 @@ def _parse_resources_get_request(
 
     query_string = dict(query_string)
     filter_, issues_ = parse_request_filtering(query_string)
-    query_string["filter"] = filter_
+    if filter_ is not Invalid:
+        query_string["filter"] = filter_
     issues.merge(
         issues=issues_,
         location=("query_string", "filter"),
     )
 
     sorter, issues_ = parse_request_sorting(query_string)
-    query_string["sorter"] = sorter
+    if sorter is not Invalid:
+        query_string["sorter"] = sorter
     issues.merge(
         issues=issues_,
         location=("query_string", "sortby"),
-- 
2.43.0


From 22fdfe01a86f7a2ca5437a9b2a39878401e5b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:50 +0000
Subject: [PATCH 42/69] fix: a search request honours excludeAttributes and
 sortOrder

---
 src/assets/schemas/search_request.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..7ab3bba 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
@@ -138,8 +138,11 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
+                sort_order_ = data[self.attrs.sortorder.rep]
+                if not isinstance(sort_order_, str) or not sort_order_:
+                    sort_order_ = "ascending"
                 data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
+                    attr_rep=sort_by_, asc=sort_order_.lower() == "ascending"
                 )
 
         return data, issues
-- 
2.43.0


From dbbed7ee4efcf6fc69f986522e586a12c2d7a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:53 +0000
Subject: [PATCH 43/69] x

fix: malformed bulk messages are reported instead of raising
---
 src/assets/schemas/bulk_ops.py |  1 +
 src/request_validators.py      | 42 +++++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..25a8d37 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -80,6 +80,7 @@ _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
+    case_exact=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
 )
diff --git a/src/request_validators.py b/src/request_validators.py
index 625fba0..e31cd7c 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1016,13 +1016,17 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
+        if not issues.can_proceed(body_location):
+            return RequestData(headers=headers, query_string=query_string, body=None), issues
+
         issues.merge(
             issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
             location=body_location,
         )
-        if not issues_.can_proceed(
-            body_location + _location(self._request_schema.attrs.operations.rep)
-        ):
+        operations_location = body_location + _location(
+            self._request_schema.attrs.operations.rep
+        )
+        if not issues.can_proceed(operations_location):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
 
         path_rep = self._request_schema.attrs.operations__path.rep
@@ -1032,20 +1036,25 @@ class BulkOperations(Validator):
         data = body[data_rep]
         methods = body[method_rep]
         for i, (path, data_item, method) in enumerate(zip(paths, data, methods)):
+            if not issues.has_issues(operations_location + (i,)):
+                # not validated yet if any other operation has issues
+                _, issues_ = bulk_ops.validate_request_operations(
+                    [body[self._request_schema.attrs.operations.rep][i]]
+                )
+                issues.merge(issues_.get((0,)), location=operations_location + (i,))
+
             path_location = body_location + (path_rep.attr, i, path_rep.sub_attr)
             data_item_location = body_location + (data_rep.attr, i, data_rep.sub_attr)
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
                 if method == "DELETE":
                     continue
 
-                if method == "POST":
-                    resource_name = path.split("/", 1)[1]
-                else:
-                    resource_name = path.split("/", 2)[1]
+                path_parts = path.split("/", 1 if method == "POST" else 2)
+                resource_name = path_parts[1] if len(path_parts) > 1 else None
                 validator = self._validators[method].get(resource_name)
                 if validator is None:
                     issues.add(
@@ -1060,7 +1069,11 @@ class BulkOperations(Validator):
                     data_rep.sub_attr
                 ] = resource_data.body
 
-        if len(body[self._request_schema.attrs.operations.rep]) > self.config.bulk.max_operations:
+        if (
+            self.config.bulk.max_operations is not None
+            and len(body[self._request_schema.attrs.operations.rep])
+            > self.config.bulk.max_operations
+        ):
             issues.add(
                 issue=ValidationError.too_many_operations(self.config.bulk.max_operations),
                 proceed=True,
@@ -1083,14 +1096,17 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
         issues.merge(
             issues=validate_status_code(200, status_code),
             location=("status",),
         )
+        if not issues.can_proceed(body_location):
+            return ResponseData(headers=headers, body=None), issues
+
+        issues.merge(
+            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
+            location=body_location,
+        )
         if not issues.can_proceed(
             body_location + _location(self._response_schema.attrs.operations.rep)
         ):
-- 
2.43.0


From 0ddf0d2eef002f034e25a40d989554020083a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 44/69] fix: bulk GET and DELETE operations target known
 resources and carry no data

---
 src/request_validators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index e31cd7c..a20cb3d 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1050,9 +1050,6 @@ class BulkOperations(Validator):
                 data_item_location,
                 body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
-                if method == "DELETE":
-                    continue
-
                 path_parts = path.split("/", 1 if method == "POST" else 2)
                 resource_name = path_parts[1] if len(path_parts) > 1 else None
                 validator = self._validators[method].get(resource_name)
@@ -1063,6 +1060,10 @@ class BulkOperations(Validator):
                         location=path_location,
                     )
                     continue
+
+                if method in ["GET", "DELETE"]:
+                    continue
+
                 resource_data, issues_ = validator.parse_request(body=data_item)
                 issues.merge(issues_.get(("body",)), location=data_item_location)
                 body[self._request_schema.attrs.operations.rep][i][
-- 
2.43.0


From 228ea24af730c3c7a4805df7c877480af5b8c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:33 +0000
Subject: [PATCH 45/69] fix: every issue of a bulk operation's response is
 reported

---
 src/request_validators.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index a20cb3d..6e68852 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1139,9 +1139,9 @@ class BulkOperations(Validator):
 
             resource_validator = None
             if location:
-                for resource_plural_name, resource_validator in self._validators[method].items():
+                for resource_plural_name, validator in self._validators[method].items():
                     if f"/{resource_plural_name}/" in location:
-                        resource_validator = resource_validator
+                        resource_validator = validator
                         break
                 else:
                     issues.add(
@@ -1150,12 +1150,17 @@ class BulkOperations(Validator):
                         location=location_location,
                     )
 
-            if not (status and response):
+            if not status:
                 continue
 
             status = int(status)
             if status >= 300:
                 n_errors += 1
+
+            if response in [None, Missing]:
+                continue
+
+            if status >= 300:
                 error_response, issues_ = error_validator.dump_response(
                     status_code=status,
                     body=response,
@@ -1172,14 +1177,14 @@ class BulkOperations(Validator):
                     response_rep.sub_attr
                 ] = error_response.body
             elif all([location, method, resource_validator]):
+                kwargs = {} if method == "DELETE" else {"body": response}
                 resource_data, issues_ = resource_validator.dump_response(
-                    body=response,
-                    status_code=status,
-                    headers={"Location": location},
+                    status_code=status, headers={"Location": location}, **kwargs
                 )
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From fbe5de5de8b0971ee2e37d6c6a20078f096b964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:57 +0000
Subject: [PATCH 46/69] fix: an error response can not have a success status

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 6e68852..f2c3db6 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -101,7 +101,7 @@ def validate_error_status_code_consistency(
 
 def validate_error_status_code(status_code: int) -> ValidationIssues:
     issues = ValidationIssues()
-    if not 200 <= status_code < 600:
+    if not 300 <= status_code < 600:
         issues.add(
             issue=ValidationError.bad_error_status(status_code),
             location=("status",),
-- 
2.43.0


From b348792729be9229af1d26eca71305f1bd80c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 47/69] fix: the Location header is compared with meta.location
 only if both are there

---
 src/request_validators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index f2c3db6..e423843 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -207,10 +207,11 @@ def _dump_resource_output_body(
             location=body_location,
         )
     meta_location = schema.attrs.meta__location.rep
-    location_header = headers.get("Location")
+    location_header = headers.get("Location") if isinstance(headers, Dict) else None
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
+        and body[meta_location] not in [None, Missing]
     ):
         issues.merge(
             issues=validate_resource_location_consistency(
-- 
2.43.0


From 11c943029df2a75b43bec1db73d4f08c5dcf7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:23 +0000
Subject: [PATCH 48/69] fix: authentication schemes have a documentationUri

---
 src/assets/schemas/service_provider_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/service_provider_config.py b/src/assets/schemas/service_provider_config.py
index 3b8880e..c95cefc 100644
--- a/src/assets/schemas/service_provider_config.py
+++ b/src/assets/schemas/service_provider_config.py
@@ -118,7 +118,7 @@ _authentication_schemes_spec_uri = Attribute(
 )
 
 _authentication_schemes_documentation_uri = Attribute(
-    name="specUri",
+    name="documentationUri",
     type_=type_.ExternalReference,
     mutability=AttributeMutability.READ_ONLY,
 )
-- 
2.43.0


From 5e577e9df266c47fea34634e95999bb5d1075c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:56 +0000
Subject: [PATCH 49/69] fix: results before the requested startIndex are not
 expected in a list response

---
 src/request_validators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index e423843..046bd80 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -487,9 +487,11 @@ def validate_number_of_resources(
     count: Optional[int],
     total_results: Any,
     resources: List[Any],
+    start_index: int = 1,
 ) -> ValidationIssues:
     issues = ValidationIssues()
     n_resources = len(resources)
+    n_skipped = max(start_index, 1) - 1
     if total_results < n_resources:
         issues.add(
             issue=ValidationError.total_results_mismatch(
@@ -497,7 +499,7 @@ def validate_number_of_resources(
             ),
             proceed=True,
         )
-    if count is None and total_results > n_resources:
+    if count is None and total_results - n_skipped > n_resources:
         issues.add(
             issue=ValidationError.too_little_results(must="be equal to 'totalResults'"),
             proceed=True,
@@ -703,6 +705,7 @@ def _dump_resources_get_response(
                 count=count,
                 total_results=total_results,
                 resources=resources,
+                start_index=start_index,
             ),
             location=resources_location,
         )
-- 
2.43.0


From 93451fae19ef4a0bfaf717d728060e4a472379c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:59 +0000
Subject: [PATCH 50/69] fix: a negative count is a count of zero

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 046bd80..dca5eeb 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -504,7 +504,7 @@ def validate_number_of_resources(
             issue=ValidationError.too_little_results(must="be equal to 'totalResults'"),
             proceed=True,
         )
-    if count is not None and count < n_resources:
+    if count is not None and max(count, 0) < n_resources:
         issues.add(
             issue=ValidationError.too_many_results(must="be lesser or equal to 'count' parameter"),
             proceed=True,
-- 
2.43.0


From e09b5980c9934ebeb797064bff602a185ac3a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:02 +0000
Subject: [PATCH 51/69] fix: a requested startIndex below one means one

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index dca5eeb..740305e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -545,7 +545,7 @@ def validate_start_index_consistency(
     start_index_body: int,
 ) -> ValidationIssues:
     issues = ValidationIssues()
-    if start_index_body > start_index:
+    if start_index_body > max(start_index, 1):
         issues.add(
             issue=ValidationError.response_value_does_not_correspond_to_parameter(
                 response_key="startIndex",
-- 
2.43.0


From 531c58cd384c360a2447a1c55e4817546d56b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:39 +0000
Subject: [PATCH 52/69] fix: a bulk operation on a resource object needs its id

---
 src/assets/schemas/bulk_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 25a8d37..d17c8d6 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -8,7 +8,7 @@ from src.data.schemas import BaseSchema
 from src.error import ValidationError, ValidationIssues
 
 _RESOURCE_TYPE_REGEX = re.compile(r"/\w+")
-_RESOURCE_OBJECT_REGEX = re.compile(r"/\w+/.*")
+_RESOURCE_OBJECT_REGEX = re.compile(r"/\w+/.+")
 
 
 def _validate_operation_method_existence(method: Any) -> ValidationIssues:
-- 
2.43.0


From 924d47756f913e896896846884cc2a8921f367f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 53/69] fix: what a bulk operation misses is reported whatever
 the other operations are

---
 src/request_validators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 740305e..ccd5f1f 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1018,8 +1018,8 @@ class BulkOperations(Validator):
     def parse_request(self, *, body: Any = None, headers: Any = None, query_string: Any = None):
         issues = ValidationIssues()
         body_location = ("body",)
-        body, issues_ = self._request_schema.parse(body)
-        issues.merge(issues_, location=body_location)
+        body, parsing_issues = self._request_schema.parse(body)
+        issues.merge(parsing_issues, location=body_location)
         if not issues.can_proceed(body_location):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
 
@@ -1040,7 +1040,7 @@ class BulkOperations(Validator):
         data = body[data_rep]
         methods = body[method_rep]
         for i, (path, data_item, method) in enumerate(zip(paths, data, methods)):
-            if not issues.has_issues(operations_location + (i,)):
+            if not parsing_issues.has_issues((data_rep.attr, i)):
                 # not validated yet if any other operation has issues
                 _, issues_ = bulk_ops.validate_request_operations(
                     [body[self._request_schema.attrs.operations.rep][i]]
-- 
2.43.0


From 670fc24d46e926e70012358ef31b9d923bfaf3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:13 +0000
Subject: [PATCH 54/69] fix: what a bulk operation's result misses is reported
 whatever the other results are

---
 src/request_validators.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index ccd5f1f..1ddcd3b 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1099,8 +1099,8 @@ class BulkOperations(Validator):
     ):
         issues = ValidationIssues()
         body_location = ("body",)
-        body, issues_ = self._response_schema.dump(body)
-        issues.merge(issues_, location=body_location)
+        body, dumping_issues = self._response_schema.dump(body)
+        issues.merge(dumping_issues, location=body_location)
         issues.merge(
             issues=validate_status_code(200, status_code),
             location=("status",),
@@ -1133,6 +1133,13 @@ class BulkOperations(Validator):
         for i, (method, status, response, location, version) in enumerate(
             zip(methods, statuses, responses, locations, versions)
         ):
+            if not dumping_issues.has_issues((response_rep.attr, i)):
+                # not validated yet if any other operation has issues
+                _, issues_ = bulk_ops.validate_response_operations(
+                    [body[self._response_schema.attrs.operations.rep][i]]
+                )
+                issues.merge(issues_.get((0,)), location=operations_location + (i,))
+
             if not method:
                 continue
 
-- 
2.43.0


From 74f36a056595d11a87e82163dbab8586ec798e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:04 +0000
Subject: [PATCH 55/69] fix: a schema's representation does not claim
 attributes of its extensions

---
 src/data/schemas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index f1dd0ec..a6b40ff 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -427,7 +427,12 @@ def get_schema_rep(schema: ResourceSchema) -> Dict[str, Any]:
         "schemas": ["urn:ietf:params:scim:schemas:core:2.0:Schema"],
         "name": schema.name,
         "description": schema.description,
-        "attributes": [attr.to_dict() for attr in schema.attrs.top_level],
+        "attributes": [
+            # extensions are schemas on their own
+            attr.to_dict()
+            for attr in schema.attrs.top_level
+            if not attr.rep.extension
+        ],
         "meta": {
             "resourceType": "Schema",
         },
-- 
2.43.0


From 6afd6b24b5660f50b2f343ed08046b84446f6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:11 +0000
Subject: [PATCH 56/69] fix: changing an attribute's representation does not
 change the attribute

---
 src/data/attributes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index f983e57..cbc7410 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -278,9 +278,9 @@ class Attribute:
             "uniqueness": self.uniqueness.value,
         }
         if self.canonical_values:
-            output["canonicalValues"] = self.canonical_values
+            output["canonicalValues"] = list(self.canonical_values)
         if self.reference_types:
-            output["referenceTypes"] = self.reference_types
+            output["referenceTypes"] = list(self.reference_types)
         return output
 
 
-- 
2.43.0


From bb36d435d07e0dfb18e122f103c4214d7dbc2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 57/69] fix: a malformed sortBy is reported at sortBy

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 1ddcd3b..e76cf7e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -609,7 +609,7 @@ def _parse_resources_get_request(
         query_string["sorter"] = sorter
     issues.merge(
         issues=issues_,
-        location=("query_string", "sortby"),
+        location=("query_string", "sortBy"),
     )
 
     checker, issues_ = parse_requested_attributes(query_string)
-- 
2.43.0


From 1dd20d0ff90167f0638d24bdc6b67aa1e80846f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:02 +0000
Subject: [PATCH 58/69] fix: complex attributes keep their own processors
 instead of changing the given collection

---
 src/data/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index cbc7410..7e611e7 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -319,7 +319,7 @@ class ComplexAttribute(Attribute):
         )
         self._sub_attributes = Attributes(sub_attributes)
 
-        complex_parsers, complex_dumpers = complex_parsers or [], complex_dumpers or []
+        complex_parsers, complex_dumpers = list(complex_parsers or []), list(complex_dumpers or [])
         if multi_valued:
             if validate_single_primary_value not in complex_parsers:
                 complex_parsers.append(validate_single_primary_value)
-- 
2.43.0


From 6ba65a57e06fc4f0e28227c698482432623f4a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:46 +0000
Subject: [PATCH 59/69] fix: filters and sorting by an extension's attribute
 never read the schema's own attribute of that name

---
 src/data/operator.py | 17 +++++++++++++++--
 src/filter.py        |  2 +-
 src/sorter.py        |  3 ++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 044c7fc..a6361f4 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -72,6 +72,15 @@ class MatchResult:
         raise ValueError("unable to determine result for missing data")
 
 
+def get_operand(data: SCIMDataContainer, attr_rep: AttrRep, attrs: Attributes) -> Any:
+    if attr_rep.schema:
+        # only the attribute definition knows whether the schema is an extension
+        attr = attrs.get(attr_rep)
+        if attr is not None:
+            attr_rep = attr.rep
+    return data[attr_rep]
+
+
 class LogicalOperator(abc.ABC):
     SCIM_OP = None
 
@@ -105,7 +114,9 @@ class MultiOperandLogicalOperator(LogicalOperator, abc.ABC):
             if isinstance(sub_operator, LogicalOperator):
                 yield sub_operator.match(value, attrs, strict)
             else:
-                yield sub_operator.match(value[sub_operator.attr_rep], attrs, strict)
+                yield sub_operator.match(
+                    get_operand(value, sub_operator.attr_rep, attrs), attrs, strict
+                )
 
 
 class And(MultiOperandLogicalOperator):
@@ -186,7 +197,9 @@ class Not(LogicalOperator):
             if match.status == MatchStatus.FAILED:
                 return MatchResult.passed()
             return MatchResult.failed()
-        match = self._sub_operator.match(value[self._sub_operator.attr_rep], attrs, strict=True)
+        match = self._sub_operator.match(
+            get_operand(value, self._sub_operator.attr_rep, attrs), attrs, strict=True
+        )
         if (
             match.status == MatchStatus.FAILED
             or not strict
diff --git a/src/filter.py b/src/filter.py
index 606ff99..ad9dede 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -683,7 +683,7 @@ class Filter:
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
     ) -> op.MatchResult:
         if not isinstance(self._operator, op.LogicalOperator):
-            data = data[self._operator.attr_rep]
+            data = op.get_operand(data, self._operator.attr_rep, schema.attrs)
         return self._operator.match(data, schema.attrs, strict)
 
     def __eq__(self, other) -> bool:
diff --git a/src/sorter.py b/src/sorter.py
index 9cd3d7b..8a351a5 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -4,6 +4,7 @@ from typing import Any, List, Optional, Sequence, Tuple, Union
 from src.data import type as at
 from src.data.attributes import Attribute, ComplexAttribute
 from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
+from src.data.operator import get_operand
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
@@ -103,7 +104,7 @@ class Sorter:
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
-            item_value = item[self._attr_rep]
+            item_value = get_operand(item, self._attr_rep, schema.attrs)
             if attr.multi_valued:
                 if not item_value:
                     value = None
-- 
2.43.0


From c4efed05c2d69b3b2447b2db20afbbd6ea77a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:05 +0000
Subject: [PATCH 60/69] fix: issues of a malformed filter quote its text
 instead of internal placeholders

---
 src/filter.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index ad9dede..185f92f 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -454,6 +454,8 @@ class Filter:
                         expression=Filter._encode_placeholders(
                             exp=invalid_expression,
                             string_values=string_values,
+                            parsed_group_ops=parsed_group_ops,
+                            parsed_complex_ops=parsed_complex_ops,
                         ),
                     ),
                     proceed=False,
@@ -667,17 +669,20 @@ class Filter:
         parsed_group_ops: Optional[Dict[int, _ParsedGroupOperator]] = None,
         parsed_complex_ops: Optional[Dict[int, _ParsedComplexAttributeOperator]] = None,
     ):
-        encoded = exp
-        for match in PLACEHOLDER_REGEX.finditer(exp):
+        def decode(match: re.Match) -> str:
             index = int(match.group(1))
             if index in (string_values or {}):
-                encoded = encoded.replace(match.group(0), string_values[index])
-            elif index in (parsed_group_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_group_ops[index].expression)
-            elif index in (parsed_complex_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_complex_ops[index].expression)
+                return string_values[index]
+            for parsed_ops in (parsed_group_ops or {}, parsed_complex_ops or {}):
+                if index in parsed_ops:
+                    return Filter._encode_placeholders(
+                        exp=parsed_ops[index].expression,
+                        string_values=string_values,
+                        parsed_complex_ops=parsed_complex_ops,
+                    )
+            return match.group(0)
 
-        return encoded
+        return PLACEHOLDER_REGEX.sub(decode, exp)
 
     def __call__(
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
-- 
2.43.0


From 69fea38ee3a2ca0be3ee04d668d000eb476ae144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:22 +0000
Subject: [PATCH 61/69] fix: filters match date-time objects like their texts

---
 src/data/operator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index a6361f4..cc92d87 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -304,7 +304,10 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
         if attr.type.SCIM_NAME == "dateTime":
             try:
                 op_value = datetime.fromisoformat(self.value)
-                return [(datetime.fromisoformat(item), op_value) for item in value]
+                return [
+                    (item if isinstance(item, datetime) else datetime.fromisoformat(item), op_value)
+                    for item in value
+                ]
             except (TypeError, ValueError):
                 return None
 
-- 
2.43.0


From 27d1fb1269a68994b829bbd8f3e116edb346f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:00 +0000
Subject: [PATCH 62/69] fix: multi-valued attributes with the values 0 or false
 are present

---
 src/data/operator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index cc92d87..3f039bd 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -244,17 +244,19 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item["value"] for item in value])
+                match = any([self._is_present(item["value"]) for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-            match = any([bool(item) for item in value])
-        elif isinstance(value, str):
-            match = bool(value)
+            match = any([self._is_present(item) for item in value])
         else:
-            match = value not in [None, Missing, Invalid]
+            match = self._is_present(value)
         return MatchResult.passed() if match else MatchResult.failed()
 
+    @staticmethod
+    def _is_present(value: Any) -> bool:
+        return value not in [None, Missing, Invalid, "", []]
+
 
 T2 = TypeVar("T2")
 
-- 
2.43.0


From 25d3580a98447ed64c93d6ff2c04e1d7e6d42938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:10 +0000
Subject: [PATCH 63/69] fix: filters by a multi-valued complex attribute find
 its value sub-attribute in any case

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 3f039bd..6d4a5dd 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -287,7 +287,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
         if isinstance(attr, ComplexAttribute):
             value_sub_attr = None
             for sub_attr in attr.attrs:
-                if sub_attr.rep.attr == "value":
+                if sub_attr.rep.attr.lower() == "value":
                     value_sub_attr = sub_attr
                     break
             if value_sub_attr is None:
-- 
2.43.0


From 0b40c8f6faedb34ff07b1b48714c84dd6ea484fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:28 +0000
Subject: [PATCH 64/69] fix: sorting by a sub-attribute of a multi-valued
 attribute uses the primary or first value instead of raising

---
 src/sorter.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sorter.py b/src/sorter.py
index 8a351a5..5368f13 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -105,6 +105,8 @@ class Sorter:
         value = None
         if attr is not None:
             item_value = get_operand(item, self._attr_rep, schema.attrs)
+            if self._attr_rep.sub_attr and isinstance(item_value, list):
+                item_value = self._get_sub_value(item, attr, item_value, schema)
             if attr.multi_valued:
                 if not item_value:
                     value = None
@@ -125,3 +127,18 @@ class Sorter:
             else:
                 value = item_value
         return self._get_key(value, attr)
+
+    @staticmethod
+    def _get_sub_value(
+        item: SCIMDataContainer, attr: Attribute, sub_values: List[Any], schema: BaseSchema
+    ) -> Any:
+        parent_rep = AttrRep(attr.rep.schema, attr.rep.attr, extension=attr.rep.extension)
+        if not schema.attrs.get(parent_rep).multi_valued:
+            return sub_values
+        for parent, sub_value in zip(item[parent_rep], sub_values):
+            if isinstance(parent, SCIMDataContainer) and parent["primary"] is True:
+                return sub_value
+        for sub_value in sub_values:
+            if sub_value not in [None, "", [], Missing]:
+                return sub_value
+        return None
-- 
2.43.0


From 100ea237c871ed0a4a9a04b76845329b9992e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:31 +0000
Subject: [PATCH 65/69] fix: sorting by a complex attribute leaves the order as
 it is instead of raising

---
 src/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index 5368f13..dabc7d0 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -124,7 +124,7 @@ class Sorter:
                             break
                 else:
                     value = item_value[0]
-            else:
+            elif not isinstance(attr, ComplexAttribute):  # complex one has no value to compare
                 value = item_value
         return self._get_key(value, attr)
 
-- 
2.43.0


From ea613a9bd3a18f6aa214379a538f29e16400ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:55 +0000
Subject: [PATCH 66/69] fix: processors do not run on a value that an earlier
 processor has refused

---
 src/data/attributes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index 7e611e7..89bb74f 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -240,6 +240,8 @@ class Attribute:
             for postprocessor in postprocessors:
                 parsed, issues_ = postprocessor(parsed)
                 issues.merge(issues=issues_)
+                if not issues.can_proceed():
+                    break
         return parsed, issues
 
     def _is_canonical(self, value: Any) -> bool:
@@ -377,6 +379,8 @@ class ComplexAttribute(Attribute):
             for postprocessor in postprocessors:
                 parsed, issues_ = postprocessor(parsed)
                 issues.merge(issues=issues_)
+                if not issues.can_proceed():
+                    break
 
         return parsed, issues
 
-- 
2.43.0


From 1c53e14cc821ab1704c7b5e22ece0ff45ae07723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:29 +0000
Subject: [PATCH 67/69] fix: an item of a multi-valued complex attribute that
 is no object is not judged further as an empty object

---
 src/data/attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index 89bb74f..8ec7990 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -351,6 +351,9 @@ class ComplexAttribute(Attribute):
         if self.multi_valued:
             parsed = []
             for i, item in enumerate(value):
+                if item is Invalid:
+                    parsed.append(Invalid)
+                    continue
                 item = SCIMDataContainer(item)
                 parsed_item = SCIMDataContainer()
                 for sub_attr in self._sub_attributes:
-- 
2.43.0


From b5e2ac3753deab66e0183bbc3e885bb18d6ed13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:59 +0000
Subject: [PATCH 68/69] fix: a PATCH operation that is no object is not judged
 further as an operation without op

---
 src/assets/schemas/patch_op.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 45a79aa..1f045cf 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -102,6 +102,10 @@ class PatchOp(BaseSchema):
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
+            if data[operations.rep][i] is Invalid:
+                parsed.append(Invalid)
+                continue
+
             if not issues.has_issues((operations.rep.attr, i)):
                 # not validated yet if any other operation has issues
                 _, issues_ = validate_operations([data[operations.rep][i]])
-- 
2.43.0


From 2998ae02127d27723446add5b1ade12360cbdbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:29 +0000
Subject: [PATCH 69/69] fix: complex attributes with different sub-attributes
 or processors are not equal

---
 src/data/attributes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index 8ec7990..16b5c19 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -342,6 +342,15 @@ class ComplexAttribute(Attribute):
     def complex_dumpers(self) -> List[_ComplexAttributeProcessor]:
         return self._complex_dumpers
 
+    def __eq__(self, other):
+        return (
+            isinstance(other, ComplexAttribute)
+            and super().__eq__(other)
+            and list(self._sub_attributes) == list(other._sub_attributes)
+            and self._complex_parsers == other._complex_parsers
+            and self._complex_dumpers == other._complex_dumpers
+        )
+
     def _process_complex(
         self, value: Any, method: str, postprocessors
     ) -> Tuple[Any, ValidationIssues]:
-- 
2.43.0

