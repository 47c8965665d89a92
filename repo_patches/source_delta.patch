From c1ff458f22eacc6c45488467cf618ad39a96b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 01/12] fix: BaseMark.to_dict() no longer leaks OPT
 placeholders of unset attrs

---
 atlas_doc_parser/mark_or_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 984aabf..8301849 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -163,8 +163,8 @@ class BaseMark(BaseMarkOrNode):
     def to_dict(self) -> T_DATA:
         """Serialize to dictionary, handling nested attrs."""
         data = super().to_dict()
-        if "attrs" in data and hasattr(data["attrs"], "to_dict"):
-            data["attrs"] = remove_optional(**data["attrs"])
+        if "attrs" in data and hasattr(self.attrs, "to_dict"):
+            data["attrs"] = self.attrs.to_dict()
         return data
 
     def to_markdown(self, text: str) -> str:
-- 
2.43.0


From cd712e8bfd01292f8f48f80f28c38a4bbd855192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 02/12] fix: orderedList without attrs renders instead of
 raising AttributeError

---
 atlas_doc_parser/nodes/node_ordered_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 250772b..d96d565 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -85,7 +85,11 @@ class NodeOrderedList(BaseNode):
         indent = "    " * level  # 4 spaces per level
 
         # Start numbering from attrs.order (or 1 for inner levels)
-        if level == 0 and isinstance(self.attrs.order, int):
+        if (
+            level == 0
+            and self.attrs is not OPT
+            and isinstance(self.attrs.order, int)
+        ):
             current_num = self.attrs.order
         else:
             current_num = 1
-- 
2.43.0


From 3f9368440e8cbb351ff5ccee2a4f542212a57d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 03/12] fix: taskList renders a taskItem without content
 instead of raising TypeError

---
 atlas_doc_parser/nodes/node_task_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index de78202..9ae000c 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -89,7 +89,7 @@ class NodeTaskList(BaseNode):
             if item.is_type_of(TypeEnum.taskItem):
                 # Process the task item content (text nodes)
                 content_parts = []
-                for node in item.content:
+                for node in item.content if item.content is not OPT else []:
                     try:
                         md = node.to_markdown()
                         content_parts.append(md)
-- 
2.43.0


From e1c22ccddeccf0ddf157a6bb793761898b3acc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 04/12] fix: indentation mark keeps the text it indents

---
 atlas_doc_parser/marks/mark_indentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_indentation.py b/atlas_doc_parser/marks/mark_indentation.py
index 64c6a5f..4fbd406 100644
--- a/atlas_doc_parser/marks/mark_indentation.py
+++ b/atlas_doc_parser/marks/mark_indentation.py
@@ -36,4 +36,4 @@ class MarkIndentation(BaseMark):
         self,
         text: str,
     ) -> str:
-        return self.attrs.level * "\t"
+        return self.attrs.level * "\t" + text
-- 
2.43.0


From 64373eab03ea97ab67103998286c414400095cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 05/12] fix: strip_double_empty_line collapses newline runs of
 any length

---
 atlas_doc_parser/markdown_helpers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 3eceed0..0267376 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -27,7 +27,7 @@ if T.TYPE_CHECKING:  # pragma: no cover
 
 def strip_double_empty_line(
     text: str,
-    n: int = 3,
+    n: T.Optional[int] = None,
 ) -> str:
     """
     Remove excessive consecutive empty lines from text.
@@ -41,8 +41,8 @@ def strip_double_empty_line(
     (3+ newlines) down to exactly one blank line (2 newlines).
 
     :param text: The input text that may contain excessive blank lines.
-    :param n: Number of replacement iterations to perform. Default is 3,
-        which handles up to 5 consecutive newlines being reduced to 2.
+    :param n: Maximum number of replacement iterations to perform. Default is
+        None, which repeats until no excessive blank line is left.
     :return: Text with at most one consecutive blank line (two newlines).
 
     Example::
@@ -50,7 +50,11 @@ def strip_double_empty_line(
         >>> strip_double_empty_line("Hello\\n\\n\\n\\nWorld")
         'Hello\\n\\nWorld'
     """
-    for _ in range(n):
+    if n is not None:
+        for _ in range(n):
+            text = text.replace("\n\n\n", "\n\n")
+        return text
+    while "\n\n\n" in text:
         text = text.replace("\n\n\n", "\n\n")
     return text
 
-- 
2.43.0


From ca5d61c7c533a276b4f36279d7aa94cd94672aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 06/12] fix: ignore_error is passed down to nested
 to_markdown() calls

---
 atlas_doc_parser/markdown_helpers.py        | 6 +++---
 atlas_doc_parser/nodes/node_bullet_list.py  | 6 ++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 6 ++++--
 atlas_doc_parser/nodes/node_table.py        | 2 +-
 atlas_doc_parser/nodes/node_task_list.py    | 2 +-
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 0267376..77acf7f 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -95,7 +95,7 @@ def content_to_markdown(
         lst = list()
         for node in content:
             try:
-                md = node.to_markdown()
+                md = node.to_markdown(ignore_error=ignore_error)
                 lst.append(md)
             except Exception as e:  # pragma: no cover
                 if ignore_error:
@@ -151,9 +151,9 @@ def doc_content_to_markdown(
                         TypeEnum.codeBlock,
                     ]
                 ):
-                    md = "\n" + node.to_markdown() + "\n"
+                    md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
                 else:
-                    md = node.to_markdown()
+                    md = node.to_markdown(ignore_error=ignore_error)
                 # print(f"{node = }")  # for debug only
                 # print(f"{md = }")  # for debug only
                 lst.append(md)
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 285ca45..8f0ec85 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -76,7 +76,9 @@ class NodeBulletList(BaseNode):
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1, ignore_error=ignore_error
+                            )
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -86,7 +88,7 @@ class NodeBulletList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index d96d565..dfc6363 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -102,7 +102,9 @@ class NodeOrderedList(BaseNode):
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1, ignore_error=ignore_error
+                            )
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -112,7 +114,7 @@ class NodeOrderedList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index ca343e1..2ea786b 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -76,7 +76,7 @@ class NodeTable(BaseNode):
         lines = list()
         for row in self.content:
             try:
-                md = row.to_markdown()
+                md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
                 if row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index 9ae000c..4a0c7ae 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -91,7 +91,7 @@ class NodeTaskList(BaseNode):
                 content_parts = []
                 for node in item.content if item.content is not OPT else []:
                     try:
-                        md = node.to_markdown()
+                        md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
                     except Exception as e:
                         if ignore_error:
-- 
2.43.0


From 147d59bcc493edaae9c99b3a55192fbfc8bbe750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 07/12] fix: table with an empty row renders instead of raising
 IndexError

---
 atlas_doc_parser/nodes/node_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 2ea786b..94f8e29 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -78,7 +78,7 @@ class NodeTable(BaseNode):
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content[0].is_type_of(TypeEnum.tableHeader):
+                if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
             except Exception as e:  # pragma: no cover
                 if ignore_error:
-- 
2.43.0


From 380e70c6207f4db12f4bc79c690a45ffa1507513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 08/12] fix: table emits the header separator only after its
 first row

---
 atlas_doc_parser/nodes/node_table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 94f8e29..4979950 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -78,7 +78,11 @@ class NodeTable(BaseNode):
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
+                if (
+                    len(lines) == 1
+                    and row.content
+                    and row.content[0].is_type_of(TypeEnum.tableHeader)
+                ):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
             except Exception as e:  # pragma: no cover
                 if ignore_error:
-- 
2.43.0


From d1279d3d36e67bf1bfc78b73836908ec359f668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 09/12] fix: missing required mark attributes raise ParamError

---
 atlas_doc_parser/marks/mark_alignment.py        | 2 +-
 atlas_doc_parser/marks/mark_background_color.py | 2 +-
 atlas_doc_parser/marks/mark_breakout.py         | 2 +-
 atlas_doc_parser/marks/mark_data_consumer.py    | 2 +-
 atlas_doc_parser/marks/mark_fragment.py         | 2 +-
 atlas_doc_parser/marks/mark_text_color.py       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/marks/mark_alignment.py b/atlas_doc_parser/marks/mark_alignment.py
index 163d95d..0aef2d2 100644
--- a/atlas_doc_parser/marks/mark_alignment.py
+++ b/atlas_doc_parser/marks/mark_alignment.py
@@ -18,7 +18,7 @@ class MarkAlignmentAttrs(Base):
         Valid values are ``"center"`` or ``"end"``.
     """
 
-    align: T.Literal["center", "end"]
+    align: T.Literal["center", "end"] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_background_color.py b/atlas_doc_parser/marks/mark_background_color.py
index 23b8733..4bb419e 100644
--- a/atlas_doc_parser/marks/mark_background_color.py
+++ b/atlas_doc_parser/marks/mark_background_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkBackgroundColorAttrs(Base):
     """Attributes for :class:`MarkBackgroundColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_breakout.py b/atlas_doc_parser/marks/mark_breakout.py
index 683a42c..2b4e27b 100644
--- a/atlas_doc_parser/marks/mark_breakout.py
+++ b/atlas_doc_parser/marks/mark_breakout.py
@@ -18,7 +18,7 @@ class MarkBreakoutAttrs(Base):
     :param width: Optional. Width value.
     """
 
-    mode: T.Literal["wide", "full-width"]
+    mode: T.Literal["wide", "full-width"] = REQ
     width: int = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_data_consumer.py b/atlas_doc_parser/marks/mark_data_consumer.py
index 7e7f10c..f6a3bb8 100644
--- a/atlas_doc_parser/marks/mark_data_consumer.py
+++ b/atlas_doc_parser/marks/mark_data_consumer.py
@@ -16,7 +16,7 @@ class MarkDataConsumerAttrs(Base):
     :param sources: Required. An array of source identifiers (minimum 1 item).
     """
 
-    sources: list[str]
+    sources: list[str] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_fragment.py b/atlas_doc_parser/marks/mark_fragment.py
index 027969a..ad2f5cb 100644
--- a/atlas_doc_parser/marks/mark_fragment.py
+++ b/atlas_doc_parser/marks/mark_fragment.py
@@ -17,7 +17,7 @@ class MarkFragmentAttrs(Base):
     :param name: Optional. A human-readable name for the fragment.
     """
 
-    localId: str
+    localId: str = REQ
     name: str = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_text_color.py b/atlas_doc_parser/marks/mark_text_color.py
index d9e9cde..111010f 100644
--- a/atlas_doc_parser/marks/mark_text_color.py
+++ b/atlas_doc_parser/marks/mark_text_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkTextColorAttrs(Base):
     """Attributes for :class:`MarkTextColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From 5e35031c0b40db1fe3e27f6f03dea70e8320055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 10/12] fix: exported ParamError is the one that model
 validation raises

---
 atlas_doc_parser/exc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 39623c1..a89877e 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -5,10 +5,7 @@ Exceptions for atlas_doc_parser.
 """
 
 
-class ParamError(Exception):
-    """Raised when a parameter validation fails."""
-
-    pass
+from func_args.api import ParamError
 
 
 class UnimplementedTypeError(Exception):
-- 
2.43.0


From 12b3a9355cdba7f6599de7026da27ee9733b3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 11/12] fix: undocumented content or marks keys are ignored
 instead of being parsed

---
 atlas_doc_parser/mark_or_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 8301849..45b58b0 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -250,7 +250,7 @@ class BaseNode(BaseMarkOrNode):
                     dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
 
         # Deserialize content (child nodes)
-        if "content" in dct:
+        if "content" in dct and "content" in cls.get_fields():
             if isinstance(dct["content"], list) and parse_node is not None:
                 new_content = []
                 for d in dct["content"]:
@@ -266,7 +266,7 @@ class BaseNode(BaseMarkOrNode):
                 dct["content"] = new_content
 
         # Deserialize marks
-        if "marks" in dct:
+        if "marks" in dct and "marks" in cls.get_fields():
             if isinstance(dct["marks"], list) and parse_mark is not None:
                 new_marks = []
                 for d in dct["marks"]:
-- 
2.43.0


From 848457fae377c7e5c6e36c7c93f2fa3351e1c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 12/12] fix: find element modules whatever directory the
 project is checked out in

---
 atlas_doc_parser/gen_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/gen_code.py b/atlas_doc_parser/gen_code.py
index 8fb44be..ec3e00e 100644
--- a/atlas_doc_parser/gen_code.py
+++ b/atlas_doc_parser/gen_code.py
@@ -64,9 +64,9 @@ def scan_module_for_public_apis(
     module_name = module_path.stem  # e.g., "mark_link"
 
     # Determine the full module path for import
-    if "marks" in module_path.parts:
+    if module_path.parent.name == "marks":
         full_module_name = f"atlas_doc_parser.marks.{module_name}"
-    elif "nodes" in module_path.parts:
+    elif module_path.parent.name == "nodes":
         full_module_name = f"atlas_doc_parser.nodes.{module_name}"
     else:
         return []
-- 
2.43.0

