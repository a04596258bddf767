From 717154c6305d2f1a4fc7ca22fe94cf20d145cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 01/31] fix: accept negative and non-literal arguments of
 minValue and maxValue decorators

---
 pycep/rules/decorators.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index c8f60ac..f40413d 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -5,8 +5,6 @@ from typing import TYPE_CHECKING, Any
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from lark import Token
-
     from pycep import typing as pycep_typing
 
 ####################
@@ -58,20 +56,16 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
 
 
 def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
-    arg = args[0]
-    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
-
     return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "min_value",
-        "argument": arg,  # ty: ignore[invalid-argument-type]
+        "argument": _resolve_negative_int(args[0]),  # ty: ignore[invalid-argument-type]
     }
 
 
-def deco_max_val(_deco_name: str, args: tuple[Token]) -> pycep_typing.DecoratorMaxValue:
-    return {
+def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
+    return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "max_value",
-        "argument": int(args[0]),
+        "argument": _resolve_negative_int(args[0]),  # ty: ignore[invalid-argument-type]
     }
 
 
@@ -94,6 +88,23 @@ def deco_secure(_deco_name: str, _args: tuple[None]) -> pycep_typing.DecoratorSe
     }
 
 
+####################
+#
+# helper functions
+#
+####################
+
+
+def _resolve_negative_int(arg: int | dict[str, Any]) -> int | dict[str, Any]:
+    """Converts the negation of an integer literal to the negative integer."""
+    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
+        value = operator["operands"]["integer_value"]
+        if isinstance(value, int):
+            return value * -1
+
+    return arg
+
+
 ####################
 #
 # placeholder for unknown decorators
-- 
2.43.0


From a8b617167c5731bdf2b7dc8fc540ad55c08d5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 02/31] fix: keep falsy arguments of list* and getSecret
 accessor calls

---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17e24e8..ed48686 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -161,7 +161,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ["," value_brackets]+ ")"
+function_accessor: value_brackets "." LIST_FUNC_NAME "(" (value_brackets ("," value_brackets)*)? ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index b25e2d4..8718e5c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -869,7 +869,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "operands": {
                 "operand_1": arg_1,
                 "func_name": str(func_name),
-                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x) if extra},
+                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x)},
             },
         }
 
-- 
2.43.0


From c4bca0b9c4bc6525c1736b7e8f14c989da7a5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 03/31] fix: parse an empty text like an empty file

---
 pycep/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..28f1bd4 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,18 +33,18 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text()
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
         if not BicepValidator.is_valid(bicep_text):
-            if file_path:
+            if file_path is not None:
                 raise ValueError(f"{file_path} file content is invalid")
 
             raise ValueError("Text is invalid")
-- 
2.43.0


From 296baaa34f1851033a915afcbfb1185c4f5e3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 04/31] fix: read Bicep files as UTF-8 regardless of the locale

---
 pycep/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index 28f1bd4..8acec22 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -14,7 +14,7 @@ if TYPE_CHECKING:
     from pycep import typing as pycep_typing
 
 
-LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text()  # ty: ignore[invalid-argument-type] # can't be `None` here
+LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text(encoding="utf-8")  # ty: ignore[invalid-argument-type] # can't be `None` here
 
 
 class BicepParser:
@@ -39,7 +39,7 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text()
+            bicep_text = file_path.read_text(encoding="utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From 4ddc6ec5a62b4ba8f0fa2ab11befebdce83fdfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/31] fix: map the arguments of resourceGroup independently
 of their values

---
 pycep/rules/functions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 1d8ee29..cbb3cf3 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -686,16 +686,13 @@ def resource_group(
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
     if args_len == 2:
-        resource_group_name, subscription_id = args
+        # very strange parameter definition
+        subscription_id, resource_group_name = args
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
         resource_group_name, subscription_id = None, None
 
-    if resource_group_name and subscription_id:
-        # very strange parameter definition
-        resource_group_name, subscription_id = subscription_id, resource_group_name
-
     result: pycep_typing.ResourceGroup = {
         "type": "resource_group",
         "parameters": {
-- 
2.43.0


From f40f468b2cbad11c3408f9ac8c4b008700fa1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 06/31] fix: tokenise strings with escaped backslashes, braces
 inside interpolations and a following multi-line string

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ed48686..1b894d3 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+QUOTED_INTERPOLATION: /(?!''')'(?:\\(?:.|\n)|\$(?P<_braces>\{(?:[^{}']++|(?P<_nested>(?!''')'(?:\\(?:.|\n)|\$(?&_braces)|\$(?!\{)|[^'\\$])*+')|(?&_braces))*+\})|[^'\\])*+'/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From 7885fce263b1647a5be8e26aa72323db4b16eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 07/31] fix: avoid exponential backtracking on unterminated
 multi-line strings

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 1b894d3..a6898c7 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -178,7 +178,7 @@ INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(
 QUOTED_INTERPOLATION: /(?!''')'(?:\\(?:.|\n)|\$(?P<_braces>\{(?:[^{}']++|(?P<_nested>(?!''')'(?:\\(?:.|\n)|\$(?&_braces)|\$(?!\{)|[^'\\$])*+')|(?&_braces))*+\})|[^'\\])*+'/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
-MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
+MULTI_LINE_STRING: /'''(?:.|\n)*?'''/
 
 _NEWLINE: NEWLINE
 _CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
-- 
2.43.0


From 96628dfdf75034a0a679f11818cd6ceb012bb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 08/31] fix: strip a leading CRLF from multi-line strings

---
 pycep/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/utils.py b/pycep/utils.py
index c1f2548..fe8ac98 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -24,4 +24,5 @@ def transform_string_token(value: Token) -> str | BicepElement:
 
 def sanitize_multi_line_string_token(value: Token) -> str:
     """Sanitizes multi-line string typed Token."""
-    return str(value)[3:-3].removeprefix("\n")
+    text = str(value)[3:-3]
+    return text.removeprefix("\r\n" if text.startswith("\r\n") else "\n")
-- 
2.43.0


From cae11b1f82ebf2a0c646459b060b6bafede5211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 09/31] fix: accept a trailing line comment without a final
 newline

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index a6898c7..9b386bb 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -181,7 +181,7 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: /'''(?:.|\n)*?'''/
 
 _NEWLINE: NEWLINE
-_CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
+_CPP_COMMENT_NL: CPP_COMMENT NEWLINE? | NEWLINE
 
 %import common.C_COMMENT
 %import common.CPP_COMMENT
-- 
2.43.0


From a7429583294d4418db1eca61534fbf701a3fef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 10/31] fix: report the end line of a child resource followed
 by comments or blank lines

---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 9b386bb..c0fc741 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition) _CPP_COMMENT_NL+
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
 
 ?type_value: value_brackets ("|" value_brackets)*
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8718e5c..05fbb33 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -305,8 +305,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if self.add_line_numbers:
             result["__attrs__"]["__start_line__"] = meta.line
-            # remove one line, because the new line is counted for child resources
-            result["__attrs__"]["__end_line__"] = meta.end_line - 1
+            result["__attrs__"]["__end_line__"] = meta.end_line
 
         return "__child_resource__", result
 
-- 
2.43.0


From 0a82b624de7365bf9e9c2b8120ab1b506920b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 11/31] fix: hoist child resources of conditional and looped
 resources

---
 pycep/transformer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 05fbb33..f432eeb 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -946,8 +946,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
-        if "__child_resource__" in config:
-            child_resource = config.pop("__child_resource__")
+        body = config
+        if body.keys() - {"depends_on"} in ({"condition", "config"}, {"loop_type", "condition", "config"}):
+            # the actual properties of a conditional or looped resource are one level deeper
+            body = body["config"]
+
+        if isinstance(body, dict) and "__child_resource__" in body:
+            child_resource = body.pop("__child_resource__")
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0


From 4689f022fd248bf86db274e9b438839cc5540911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 12/31] fix: accept underscores in function names

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index c0fc741..f39bb2a 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -97,7 +97,7 @@ decorators: decorator+
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
+FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From 852a870abba710ad72b9059ee521ac41c1a530cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 13/31] fix: accept lambda expressions with two variables

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index f39bb2a..8ddcb63 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -88,7 +88,7 @@ pair: key ":" (value_brackets | loop) "?"?
 
 !key: "resource" | quoted_string
 
-lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)+ ")") "=>" value_brackets
+lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")") "=>" value_brackets
 
 // decorators
 
-- 
2.43.0


From 0a69dbbd4475cd82a4aa86eb44bf621b245ed498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 14/31] fix: keep the empty configuration of an extension

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index f432eeb..c5b9713 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -150,7 +150,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
         }
 
-        if config:
+        if config is not None:
             result["extensions"]["__attrs__"]["config"] = config
 
         if alias:
-- 
2.43.0


From 5f1f5b6b6ac12c369970e54c4c15b7c067f0fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 15/31] fix: add line numbers to namespace imports

---
 pycep/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index c5b9713..84475b1 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -106,6 +106,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
                 "__name__": transform_string_token(args[0]),
                 "__attrs__": {},
             }
+
+            if self.add_line_numbers:
+                result["__attrs__"]["__start_line__"] = meta.line
+                result["__attrs__"]["__end_line__"] = meta.end_line
+
             self.imports.append(
                 {
                     "imports": result,
-- 
2.43.0


From b3dec7e266e526faf9ea9e7c8eef8a6bd1f093ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 16/31] fix: accept nested parentheses

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 8ddcb63..976253b 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -25,7 +25,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
-?value_brackets: (value | "(" value ")") "!"?
+?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
 
-- 
2.43.0


From 3ec0d5c8f67a8a6088aefb94142a26a70c476f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 17/31] fix: accept a space between if and the filter
 expression of a loop

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 976253b..283d4e4 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,7 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets | "if" "(" value_brackets ")"] value_brackets _CPP_COMMENT_NL? "]"
 
 loop_array: STRING "in" value_brackets
 
-- 
2.43.0


From fba1c2f7252429b685c1220eae5d734103c79146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 18/31] fix: accept dashes in module aliases and dots in module
 paths

---
 pycep/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 84475b1..9c3eb48 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -16,12 +16,12 @@ if TYPE_CHECKING:
     from lark.tree import Meta
 
 
-BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
-PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
+PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
     r"br:(?P<registry_name>\w+)\.azurecr\.io/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)"
 )
-TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w]+):(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
     r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
-- 
2.43.0


From 5659ac1f120eb4eb72a4eaf35a2f9904afefc9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 19/31] fix: accept any number of comment lines after a
 decorator

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 283d4e4..8f890b9 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -92,9 +92,12 @@ lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _decorator_comments?)
 decorators: decorator+
 
+// written out, because "_CPP_COMMENT_NL*" would share its parser states with the ones of objects and arrays
+_decorator_comments: _decorator_comments? _CPP_COMMENT_NL
+
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-- 
2.43.0


From fb2b6a1a1a73de4dfc3af8a3d4e94b4e3547d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 20/31] fix: reject trailing text after the tag of a module
 reference

---
 pycep/transformer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 9c3eb48..9ae60e1 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -429,13 +429,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if file_path.startswith("br:"):
             # check if it's referencing the official public registry
-            m = re.match(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
+            m = re.fullmatch(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
             if m:
                 is_public = True
                 registry_name = "mcr.microsoft.com"
             else:
                 # check if it's referencing a privvte registry
-                m = re.match(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
+                m = re.fullmatch(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
                 if m:
                     is_public = False
                     registry_name = m.group("registry_name")
@@ -454,7 +454,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_result
         elif file_path.startswith("br/"):
-            m = re.match(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Bicep registry alias is invalid: {file_path}")
 
@@ -477,7 +477,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_alias_result
         elif file_path.startswith("ts:"):
-            m = re.match(TEMPLATE_SPEC_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec path is invalid: {file_path}")
 
@@ -493,7 +493,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return ts_result
         elif file_path.startswith("ts/"):
-            m = re.match(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec alias is invalid: {file_path}")
 
-- 
2.43.0


From 112fffa745076c02075349d7e7ea3f0cda85e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 21/31] fix: accept subscription ids with hexadecimal digits in
 template spec references

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 9ae60e1..7a4ddce 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -23,7 +23,7 @@ PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
 )
 TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
-    r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
+    r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
 
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
-- 
2.43.0


From 8c6e75ab8d86080e8838c3a492c7cfdc51ac33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 22/31] fix: accept three quotes inside comments

---
 pycep/main.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index 8acec22..b57beb5 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from importlib.resources import files
 from typing import TYPE_CHECKING
 
-from lark import Lark, Token, Tree
+from lark import Lark, Token, Tree, UnexpectedInput
 
 from .transformer import BicepToJson
 from .validator import BicepValidator
@@ -43,10 +43,13 @@ class BicepParser:
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-        if not BicepValidator.is_valid(bicep_text):
-            if file_path is not None:
-                raise ValueError(f"{file_path} file content is invalid")
+        try:
+            return self.lark_parser.parse(bicep_text)
+        except UnexpectedInput:
+            if BicepValidator.is_valid(bicep_text):
+                raise
 
-            raise ValueError("Text is invalid")
+            if file_path is not None:
+                raise ValueError(f"{file_path} file content is invalid") from None
 
-        return self.lark_parser.parse(bicep_text)
+            raise ValueError("Text is invalid") from None
-- 
2.43.0


From 34aad38b3ca7795aec8bde3422ca25e41ab2d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 23/31] fix: accept any number of comment lines wherever one is
 accepted

---
 pycep/bicep.lark | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 8f890b9..1716a0e 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -92,12 +92,9 @@ lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _decorator_comments?)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
 decorators: decorator+
 
-// written out, because "_CPP_COMMENT_NL*" would share its parser states with the ones of objects and arrays
-_decorator_comments: _decorator_comments? _CPP_COMMENT_NL
-
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
@@ -184,10 +181,10 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: /'''(?:.|\n)*?'''/
 
 _NEWLINE: NEWLINE
-_CPP_COMMENT_NL: CPP_COMMENT NEWLINE? | NEWLINE
+// line comments and line breaks, including everything ignored in between
+_CPP_COMMENT_NL: /(?:\/\/[^\n]*+|\r?\n)(?:(?:[ \t]|#[^\n]*+|\/\*(?:[^*]|\*(?!\/))*+\*\/)*+(?:\/\/[^\n]*+|\r?\n))*+/
 
 %import common.C_COMMENT
-%import common.CPP_COMMENT
 %import common.SH_COMMENT
 %import common.INT
 %import common.NEWLINE
-- 
2.43.0


From cd6be1339dd4c8ffaaa3b7f045979b80866d01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:38 +0000
Subject: [PATCH 24/31] fix: keep the structure of the value a loop calls items
 on

---
 pycep/transformer.py | 4 ++--
 pycep/typing.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 7a4ddce..cce29bb 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -570,13 +570,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             },
         }
 
-    def loop_object(self, args: tuple[Token, Token]) -> pycep_typing.LoopObject:
+    def loop_object(self, args: tuple[Token, pycep_typing.PossibleValue]) -> pycep_typing.LoopObject:
         item_name, obj_name = args
         return {
             "type": "object",
             "detail": {
                 "item_name": str(item_name),
-                "object_name": str(obj_name),
+                "object_name": obj_name,
             },
         }
 
diff --git a/pycep/typing.py b/pycep/typing.py
index f0d5aba..654cac2 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -368,7 +368,7 @@ class LoopArrayIndex(TypedDict):
 
 class _LoopObjectDetail(TypedDict):
     item_name: str
-    object_name: str
+    object_name: PossibleValue
 
 
 class LoopObject(TypedDict):
-- 
2.43.0


From 1a630c4d3b91f1ecd122d5496fce7552f6fd680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 25/31] fix: reject a call whose first argument is missing

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 1716a0e..68c809f 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -98,7 +98,7 @@ decorators: decorator+
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
+function: FUNCTION _CPP_COMMENT_NL? (value_brackets ("," _CPP_COMMENT_NL? value_brackets)*)? _CPP_COMMENT_NL? ")"
 
 // operators
 
-- 
2.43.0


From a4ad0638d99be7dbc1809420a156703fef780a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:53 +0000
Subject: [PATCH 26/31] fix: accept only if expressions as filter of a loop

---
 pycep/bicep.lark     | 6 +++++-
 pycep/transformer.py | 3 ---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 68c809f..bef9fd0 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,9 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets | "if" "(" value_brackets ")"] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [loop_filter] value_brackets _CPP_COMMENT_NL? "]"
+
+?loop_filter: _NEWLINE? ("if" "(" | _IF_CALL) value_brackets ")"
 
 loop_array: STRING "in" value_brackets
 
@@ -172,6 +174,8 @@ property_accessor: value_brackets "." "?"? value_brackets
 
 EXISTING: "existing"
 
+_IF_CALL.2: "if("
+
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
diff --git a/pycep/transformer.py b/pycep/transformer.py
index cce29bb..9d79004 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -540,9 +540,6 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def loop(self, args: tuple[pycep_typing.LoopType, str | None, dict[str, Any]]) -> pycep_typing.Loop:
         loop_type, condition, config = args
 
-        if isinstance(condition, dict) and (func := condition.get("function", {})).get("type") == "if":
-            condition = func["parameters"]["arg_1"]
-
         return {
             "loop_type": loop_type,
             "condition": condition,
-- 
2.43.0


From d37914ac3baa67938fba435504dc0713d2d32ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:51 +0000
Subject: [PATCH 27/31] fix: keep all resource names of the scoped resourceId
 functions

---
 pycep/rules/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index cbb3cf3..b676c99 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -448,6 +448,7 @@ def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Ex
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
         },
     }
 
@@ -492,6 +493,7 @@ def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_ty
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
@@ -639,6 +641,7 @@ def subscription_resource_id(_func_name: str, args: list[Token]) -> pycep_typing
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
             "subscription_id": subscription_id,
         },
     }
@@ -661,6 +664,7 @@ def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Tenan
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
-- 
2.43.0


From 9d962ec22d7c430ad3063a3cf281bac10b72fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:54 +0000
Subject: [PATCH 28/31] fix: keep surplus arguments of known functions and
 decorators

---
 pycep/rules/functions.py | 18 +++++++++---------
 pycep/transformer.py     | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index b676c99..d335bce 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -298,8 +298,8 @@ def load_json_content(
     file_path, *arg_x = args
 
     arg_x_len = len(arg_x)
-    if arg_x_len == 2:
-        json_path, encoding = arg_x
+    if arg_x_len >= 2:
+        json_path, encoding = arg_x[:2]
     elif arg_x_len == 1:
         json_path, encoding = arg_x[0], None
     else:
@@ -326,8 +326,8 @@ def load_yaml_content(
     file_path, *arg_x = args
 
     arg_x_len = len(arg_x)
-    if arg_x_len == 2:
-        path_filter, encoding = arg_x
+    if arg_x_len >= 2:
+        path_filter, encoding = arg_x[:2]
     elif arg_x_len == 1:
         path_filter, encoding = arg_x[0], None
     else:
@@ -509,7 +509,7 @@ def pick_zones(_func_name: str, args: list[pycep_typing.PossibleNoneValue]) -> p
 
     if args_len >= 4:
         number_of_zones = args[3]
-        if args_len == 5:
+        if args_len >= 5:
             offset = args[4]
 
     return {
@@ -535,8 +535,8 @@ def reference(
     resource_identifier, *arg_x = args
 
     arg_x_len = len(arg_x)
-    if arg_x_len == 2:
-        api_version, full = arg_x
+    if arg_x_len >= 2:
+        api_version, full = arg_x[:2]
     elif arg_x_len == 1:
         api_version, full = arg_x[0], None
     else:
@@ -689,9 +689,9 @@ def resource_group(
     _func_name: str, args: tuple[pycep_typing.PossibleNoneValue, pycep_typing.PossibleNoneValue]
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
-    if args_len == 2:
+    if args_len >= 2:
         # very strange parameter definition
-        subscription_id, resource_group_name = args
+        subscription_id, resource_group_name = args[:2]
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 9d79004..06f6f33 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -601,7 +601,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
         deco_name = str(deco_name)
 
         deco_def = DECORATORS.get(deco_name, UNKNOWN_DECORATOR)
-        return deco_def(deco_name, params)
+        deco = deco_def(deco_name, params)
+
+        if params and "argument" not in deco:
+            # the decorator is not known to take an argument
+            deco["argument"] = params[0]
+
+        return deco
 
     def decorators(self, args: list[pycep_typing.Decorator]) -> list[pycep_typing.Decorator]:
         return args
@@ -619,6 +625,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
         func_def = FUNCTIONS.get(func_name, UNKNOWN_FUNCTION)
         func_data = func_def(func_name, params)
 
+        if surplus := params[len(func_data.get("parameters", {})) :]:
+            # more arguments than the function is known to take
+            parameters = func_data.setdefault("parameters", {})
+            parameters.update({f"arg_{idx}": arg for idx, arg in enumerate(surplus, start=len(parameters) + 1)})
+
         return {"function": func_data}
 
     ####################
-- 
2.43.0


From 0ee8d7fabc6f81cb60fcec244860c0de8f945499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 29/31] fix: reject lambda variables that are no identifiers

---
 pycep/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 06f6f33..27ae08d 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -937,6 +937,10 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def lambda_expression(self, args: tuple[pycep_typing.PossibleValue, ...]) -> pycep_typing.LambdaExpression:
         arg_1, *arg_x, expr = args
 
+        for arg in (arg_1, *arg_x):
+            if not isinstance(arg, BicepElement):
+                raise ValueError(f"lambda variable is invalid: {arg}")
+
         return {
             "type": "lambda_expression",
             "detail": {
-- 
2.43.0


From 53158d6a5060dd68b40c2cb10bdcff35e2510f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 30/31] fix: keep the negation of a boolean in minValue and
 maxValue decorators

---
 pycep/rules/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index f40413d..737fa0d 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -99,7 +99,7 @@ def _resolve_negative_int(arg: int | dict[str, Any]) -> int | dict[str, Any]:
     """Converts the negation of an integer literal to the negative integer."""
     if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
         value = operator["operands"]["integer_value"]
-        if isinstance(value, int):
+        if isinstance(value, int) and not isinstance(value, bool):
             return value * -1
 
     return arg
-- 
2.43.0


From ca03882f09004633c9fdf2783c92bf18e559c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:06 +0000
Subject: [PATCH 31/31] fix: keep a resource property with the name of the
 marker of child resources

---
 pycep/transformer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 27ae08d..3f4a84a 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -26,6 +26,9 @@ TEMPLATE_SPEC_PATTERN = re.compile(
     r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
 
+# temporary key of a child resource in the body of its parent, no property can have this name
+CHILD_RESOURCE_KEY = "<child_resource>"
+
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
 
 
@@ -294,7 +297,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     @v_args(meta=True)
     def child_resource(
         self, meta: Meta, args: tuple[Token, Token, Token | None, dict[str, Any]]
-    ) -> tuple[Literal["__child_resource__"], pycep_typing.Resource]:
+    ) -> tuple[str, pycep_typing.Resource]:
         name, type_name, existing, config = args
 
         result: pycep_typing.Resource = {
@@ -312,7 +315,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             result["__attrs__"]["__start_line__"] = meta.line
             result["__attrs__"]["__end_line__"] = meta.end_line
 
-        return "__child_resource__", result
+        return CHILD_RESOURCE_KEY, result
 
     @v_args(meta=True)
     def module(
@@ -968,8 +971,8 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             # the actual properties of a conditional or looped resource are one level deeper
             body = body["config"]
 
-        if isinstance(body, dict) and "__child_resource__" in body:
-            child_resource = body.pop("__child_resource__")
+        if isinstance(body, dict) and CHILD_RESOURCE_KEY in body:
+            child_resource = body.pop(CHILD_RESOURCE_KEY)
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0

